//! Every public parsing operation, on the real parser and on the reference parser.

use crate::model::{Model, Until, E, R};
use crate::tree::*;
use conch_parser::ast::builder::{self, Newline as Nl};
use conch_parser::ast::builder::{ComplexWordKind, LoopKind, WordKind};
use conch_parser::ast::DefaultArithmetic;
use conch_parser::parse::{CommandGroupDelimiters, Parser, SourcePos};
use conch_parser::token::Token;

#[derive(Debug, Clone, PartialEq)]
pub enum Value {
    Unit,
    Cmd(Option<Cmd>),
    List(List),
    Pipe(Pipe),
    Pc(Option<Pc>),
    Comp(Comp),
    Word(Option<Word>),
    Redirs(Vec<Redir>),
    Redir(Option<Result<Redir, Word>>),
    Group(builder::CommandGroup<Cmd>),
    Loop(LoopKind, builder::GuardBodyPairGroup<Cmd>),
    If(builder::IfFragments<Cmd>),
    For(builder::ForFragments<Word, Cmd>),
    Case(builder::CaseFragments<Word, Cmd>),
    Nls(Vec<Nl>),
    Nl(Option<Nl>),
    Str(Option<String>),
    Tok(Option<Token>),
    Arith(DefaultArithmetic),
}

impl Value {
    pub fn norm(&mut self, n: &Norm) {
        let strip = n.strip_comments;
        match self {
            Value::Cmd(Some(c)) => n.cmd(c),
            Value::List(l) => {
                let mut c = Cmd { pre: vec![], list: l.clone(), sep: builder::SeparatorKind::Other, cmt: None };
                n.cmd(&mut c);
                *l = c.list;
            }
            Value::Pipe(p) => n.pipe(p),
            Value::Pc(Some(p)) => n.pc(p),
            Value::Comp(c) => n.comp(c),
            Value::Word(Some(w)) => n.word(&mut w.0),
            Value::Redirs(v) => v.iter_mut().for_each(|r| n.redir(r)),
            Value::Redir(Some(Ok(r))) => n.redir(r),
            Value::Redir(Some(Err(w))) => n.word(&mut w.0),
            Value::Group(g) => n.group(g),
            Value::Loop(_, g) => {
                n.group(&mut g.guard);
                n.group(&mut g.body)
            }
            Value::If(f) => {
                let mut c = Comp::If(f.clone(), vec![]);
                n.comp(&mut c);
                if let Comp::If(g, _) = c {
                    *f = g
                }
            }
            Value::For(f) => {
                let mut c = Comp::For(f.clone(), vec![]);
                n.comp(&mut c);
                if let Comp::For(g, _) = c {
                    *f = g
                }
            }
            Value::Case(f) => {
                let mut c = Comp::Case(f.clone(), vec![]);
                n.comp(&mut c);
                if let Comp::Case(g, _) = c {
                    *f = g
                }
            }
            Value::Nls(v) if strip => v.clear(),
            Value::Nl(v) if strip => *v = None,
            _ => {}
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Op {
    Complete,
    AndOr,
    Pipeline,
    Command,
    Simple,
    RedirectList,
    Redirect,
    Heredoc,
    Word,
    WordKeep,
    Backticked,
    Parameter,
    DoGroup,
    Brace,
    Subshell,
    Compound,
    Loop,
    If,
    For,
    Case,
    MaybeFunction,
    Function,
    SkipWs,
    Linebreak,
    Newline,
    PeekTok,
    PeekWord,
    TakeTok,
    TakeWord,
    GroupEnd,
    GroupWords,
    GroupBrace,
    GroupParen,
    GroupCase,
    Arith,
    HeredocNoFd,
    /// The same with other arguments: see `TOKENS`, `WORD_SETS` and `GROUPS`.
    PeekToks(u8),
    TakeToks(u8),
    PeekWords(u8),
    TakeWords(u8),
    Group(u8),
}

pub const ALL: &[Op] = &[
    Op::Complete,
    Op::AndOr,
    Op::Pipeline,
    Op::Command,
    Op::Simple,
    Op::RedirectList,
    Op::Redirect,
    Op::Heredoc,
    Op::Word,
    Op::WordKeep,
    Op::Backticked,
    Op::Parameter,
    Op::DoGroup,
    Op::Brace,
    Op::Subshell,
    Op::Compound,
    Op::Loop,
    Op::If,
    Op::For,
    Op::Case,
    Op::MaybeFunction,
    Op::Function,
    Op::SkipWs,
    Op::Linebreak,
    Op::Newline,
    Op::PeekTok,
    Op::PeekWord,
    Op::TakeTok,
    Op::TakeWord,
    Op::GroupEnd,
    Op::GroupWords,
    Op::GroupBrace,
    Op::GroupParen,
    Op::GroupCase,
    Op::Arith,
];

/// The operations that take arguments, with others.
pub const MORE: &[Op] = &[
    Op::HeredocNoFd,
    Op::PeekToks(0),
    Op::PeekToks(1),
    Op::PeekToks(2),
    Op::PeekToks(3),
    Op::PeekToks(4),
    Op::PeekToks(5),
    Op::PeekToks(6),
    Op::PeekToks(7),
    Op::TakeToks(0),
    Op::TakeToks(1),
    Op::TakeToks(2),
    Op::TakeToks(3),
    Op::TakeToks(4),
    Op::TakeToks(5),
    Op::TakeToks(6),
    Op::TakeToks(7),
    Op::PeekWords(0),
    Op::PeekWords(1),
    Op::PeekWords(2),
    Op::TakeWords(0),
    Op::TakeWords(1),
    Op::TakeWords(2),
    Op::Group(0),
    Op::Group(1),
    Op::Group(2),
    Op::Group(3),
    Op::Group(4),
    Op::Group(5),
];

pub fn every() -> Vec<Op> {
    ALL.iter().chain(MORE).copied().collect()
}
pub fn peeks() -> Vec<Op> {
    MORE.iter().copied().filter(|o| matches!(o, Op::PeekToks(_) | Op::PeekWords(_))).collect()
}

/// The number an operation has in texts.
pub fn code(o: Op) -> usize {
    ALL.iter().chain(MORE).position(|x| *x == o).unwrap()
}
pub fn decode(k: usize) -> Option<Op> {
    ALL.iter().chain(MORE).nth(k).copied()
}

/// Operations that must not change what follows when they find nothing.
pub const LOOKING: &[Op] = &[
    Op::SkipWs,
    Op::PeekTok,
    Op::PeekWord,
    Op::MaybeFunction,
    Op::Redirect,
    Op::Newline,
    Op::Word,
    Op::TakeWord,
    Op::RedirectList,
    Op::Linebreak,
];

const WORDS: &[&str] = &["if", "then", "do", "done", "in", "esac", "fi", "a"];
const GROUP_WORDS: &[&str] = &["do", "fi", "done"];
fn toks() -> [Token; 4] {
    [Token::CurlyOpen, Token::CurlyClose, Token::ParenClose, Token::Bang]
}

fn token_set(k: u8) -> Vec<Token> {
    use Token::*;
    let s = |x: &str| x.to_string();
    match k {
        0 => vec![Whitespace(s(" "))],
        1 => vec![Bang, Whitespace(s(" ")), Newline],
        2 => vec![],
        3 => vec![Semi, Pipe, Less, Great, ParenOpen, Amp],
        4 => vec![Name(s("a")), Literal(s("1")), Name(s("if"))],
        5 => vec![SingleQuote, Backtick, Dollar, Backslash, DoubleQuote, crate::lexref::tokens("$1").remove(0)],
        6 => vec![CurlyOpen, Whitespace(s("\t")), Whitespace(s("  "))],
        _ => vec![Newline, Pound, Dash, Star, Equals, Question, Colon, DSemi, AndIf],
    }
}

const WORD_SETS: &[&[&str]] = &[&["a b", "1", "", "$", "("], &[], &["for", "case", "while", "until", "function", "else", "elif", "{", "a", "b"]];

/// Delimiters of groups: tokens, words, exact tokens.
type Delims = (Vec<Token>, &'static [&'static str], Vec<Token>);
fn group_set(k: u8) -> Delims {
    use Token::*;
    match k {
        0 => (vec![CurlyClose, Bang], &["fi", "a"], vec![DSemi, ParenClose]),
        1 => (vec![], &[], vec![Amp, Semi]),
        2 => (vec![Name("b".to_string()), Literal("1".to_string())], &[], vec![]),
        3 => (vec![], &["b", "done"], vec![ParenClose]),
        4 => (vec![CurlyClose, CurlyOpen], &[], vec![DSemi]),
        _ => (vec![CurlyClose], &["esac", "do"], vec![]),
    }
}

type RP<T> = Result<T, E>;

pub fn imp_op<I: Iterator<Item = Token>>(p: &mut Parser<I, Rec>, op: Op) -> RP<Value> {
    let group = |p: &mut Parser<I, Rec>, t: &[Token], w: &[&'static str], e: &[Token]| {
        p.command_group(CommandGroupDelimiters { reserved_tokens: t, reserved_words: w, exact_tokens: e }).map(Value::Group)
    };
    Ok(match op {
        Op::Complete => Value::Cmd(p.complete_command()?),
        Op::AndOr => Value::List(p.and_or_list()?),
        Op::Pipeline => Value::Pipe(p.pipeline()?),
        Op::Command => Value::Pc(Some(p.command()?)),
        Op::Simple => Value::Pc(Some(p.simple_command()?)),
        Op::RedirectList => Value::Redirs(p.redirect_list()?),
        Op::Redirect => Value::Redir(p.redirect()?),
        Op::Heredoc => Value::Redir(Some(Ok(p.redirect_heredoc(Some(3))?))),
        Op::Word => Value::Word(p.word()?),
        Op::WordKeep => Value::Word(p.word_preserve_trailing_whitespace()?),
        Op::Backticked => Value::Word(Some(p.backticked_command_substitution()?)),
        Op::Parameter => Value::Word(Some(p.parameter()?)),
        Op::DoGroup => Value::Group(p.do_group()?),
        Op::Brace => Value::Group(p.brace_group()?),
        Op::Subshell => Value::Group(p.subshell()?),
        Op::Compound => Value::Comp(p.compound_command()?),
        Op::Loop => {
            let (k, g) = p.loop_command()?;
            Value::Loop(k, g)
        }
        Op::If => Value::If(p.if_command()?),
        Op::For => Value::For(p.for_command()?),
        Op::Case => Value::Case(p.case_command()?),
        Op::MaybeFunction => Value::Pc(p.maybe_function_declaration()?),
        Op::Function => Value::Pc(Some(p.function_declaration()?)),
        Op::SkipWs => {
            p.skip_whitespace();
            Value::Unit
        }
        Op::Linebreak => Value::Nls(p.linebreak()),
        Op::Newline => Value::Nl(p.newline()),
        Op::PeekTok => Value::Tok(p.peek_reserved_token(&toks()).cloned()),
        Op::PeekWord => Value::Str(p.peek_reserved_word(WORDS).map(|s| s.to_string())),
        Op::TakeTok => Value::Tok(Some(p.reserved_token(&toks())?)),
        Op::TakeWord => Value::Str(p.reserved_word(WORDS).ok().map(|s| s.to_string())),
        Op::GroupEnd => group(p, &[], &[], &[])?,
        Op::GroupWords => group(p, &[], GROUP_WORDS, &[])?,
        Op::GroupBrace => group(p, &[Token::CurlyClose], &[], &[])?,
        Op::GroupParen => group(p, &[], &[], &[Token::ParenClose])?,
        Op::GroupCase => group(p, &[], &["esac"], &[Token::DSemi])?,
        Op::Arith => Value::Arith(p.arithmetic_substitution()?),
        Op::HeredocNoFd => Value::Redir(Some(Ok(p.redirect_heredoc(None)?))),
        Op::PeekToks(k) => Value::Tok(p.peek_reserved_token(&token_set(k)).cloned()),
        Op::TakeToks(k) => Value::Tok(Some(p.reserved_token(&token_set(k))?)),
        Op::PeekWords(k) => Value::Str(p.peek_reserved_word(WORD_SETS[k as usize]).map(|s| s.to_string())),
        Op::TakeWords(k) => Value::Str(p.reserved_word(WORD_SETS[k as usize]).ok().map(|s| s.to_string())),
        Op::Group(k) => {
            let (t, w, e) = group_set(k);
            group(p, &t, w, &e)?
        }
    })
}

pub fn model_op(m: &mut Model, op: Op) -> R<Value> {
    fn w1(k: crate::model::Simple) -> Value {
        Value::Word(Some(Word(ComplexWordKind::Single(WordKind::Simple(k)))))
    }
    fn take(m: &mut Model, set: &[Token]) -> R<Token> {
        match m.tokens_next(set) {
            Some(t) => {
                m.i += 1;
                Ok(t)
            }
            None => {
                // The token itself stands there, but is not delimited: what follows it is the culprit.
                if set.iter().any(|t| m.eat(t)) {}
                m.unexpected()
            }
        }
    }
    Ok(match op {
        Op::Complete => {
            let c = m.complete_command()?;
            Value::Cmd(c)
        }
        Op::AndOr => Value::List(m.and_or()?),
        Op::Pipeline => Value::Pipe(m.pipeline()?),
        Op::Command => Value::Pc(Some(m.command()?)),
        Op::Simple => Value::Pc(Some(m.simple()?)),
        Op::RedirectList => Value::Redirs(m.redirect_list()?),
        Op::Redirect => Value::Redir(m.redirect()?),
        Op::Heredoc => Value::Redir(Some(Ok(m.heredoc(Some(3))?))),
        Op::Word => Value::Word(m.word()?),
        Op::WordKeep => Value::Word(m.word_raw()?.map(Word)),
        Op::Backticked => w1(m.backticked()?),
        Op::Parameter => w1(m.parameter()?),
        Op::DoGroup => Value::Group(m.do_group()?),
        Op::Brace => Value::Group(m.brace()?),
        Op::Subshell => Value::Group(m.subshell(false)?),
        Op::Compound => Value::Comp(m.compound()?),
        Op::Loop => {
            let (k, g) = m.loop_()?;
            Value::Loop(k, g)
        }
        Op::If => Value::If(m.if_()?),
        Op::For => Value::For(m.for_()?),
        Op::Case => Value::Case(m.case()?),
        Op::MaybeFunction => Value::Pc(if m.function_next() { Some(m.function()?) } else { None }),
        Op::Function => Value::Pc(Some(m.function()?)),
        Op::SkipWs => {
            m.skip_ws();
            Value::Unit
        }
        Op::Linebreak => Value::Nls(m.linebreak()),
        Op::Newline => Value::Nl(m.newline()),
        Op::PeekTok => Value::Tok(m.tokens_next(&toks())),
        Op::PeekWord => Value::Str(m.word_next(WORDS).map(|s| s.to_string())),
        Op::TakeTok => Value::Tok(Some(take(m, &toks())?)),
        Op::TakeWord => Value::Str(m.take_word(WORDS).map(|s| s.to_string())),
        Op::GroupEnd => Value::Group(m.nonempty(Until::End)?),
        Op::GroupWords => Value::Group(m.nonempty(Until::Words(GROUP_WORDS))?),
        Op::GroupBrace => Value::Group(m.nonempty(Until::Brace)?),
        Op::GroupParen => Value::Group(m.nonempty(Until::Paren)?),
        Op::GroupCase => Value::Group(m.nonempty(Until::CaseBody)?),
        Op::Arith => Value::Arith(m.arith()?),
        Op::HeredocNoFd => Value::Redir(Some(Ok(m.heredoc(None)?))),
        Op::PeekToks(k) => Value::Tok(m.tokens_next(&token_set(k))),
        Op::TakeToks(k) => Value::Tok(Some(take(m, &token_set(k))?)),
        Op::PeekWords(k) => Value::Str(m.word_next(WORD_SETS[k as usize]).map(|s| s.to_string())),
        Op::TakeWords(k) => Value::Str(m.take_word(WORD_SETS[k as usize]).map(|s| s.to_string())),
        Op::Group(k) => {
            let (t, w, e) = group_set(k);
            Value::Group(m.nonempty(Until::Custom(&t, w, &e))?)
        }
    })
}

/// One step of a run over operations.
#[derive(Debug)]
pub struct Step {
    pub op: Op,
    pub res: RP<Value>,
    pub pos: SourcePos,
    pub comments: Vec<Nl>,
}

/// Performs the operations, then parses the rest of the text as commands. Ends at the first error.
pub fn imp_run<I: Iterator<Item = Token>>(src: I, ops: &[Op], rest: bool, limit: usize) -> Result<Vec<Step>, String> {
    let rec = Rec::default();
    crate::run::guarded(|| {
        let mut out = Vec::new();
        let mut p = Parser::with_builder(src, rec.clone());
        let mut k = 0;
        loop {
            let op = match ops.get(k) {
                Some(o) => *o,
                None if rest => Op::Complete,
                None => return out,
            };
            k += 1;
            let res = imp_op(&mut p, op);
            let stop = matches!(res, Err(_)) || (k > ops.len() && res == Ok(Value::Cmd(None)));
            let comments = std::mem::take(&mut rec.0.borrow_mut().comments);
            out.push(Step { op, res, pos: p.pos(), comments });
            if stop {
                return out;
            }
            if k > ops.len() + limit + 10 {
                panic!("endless commands");
            }
        }
    })
}

pub fn model_run(m: &mut Model, ops: &[Op], rest: bool) -> Vec<Step> {
    let mut out = Vec::new();
    let mut k = 0;
    loop {
        let op = match ops.get(k) {
            Some(o) => *o,
            None if rest => Op::Complete,
            None => return out,
        };
        k += 1;
        let res = model_op(m, op);
        let stop = matches!(res, Err(_)) || (k > ops.len() && res == Ok(Value::Cmd(None)));
        let comments = std::mem::take(&mut m.final_comments);
        out.push(Step { op, res, pos: m.pos(), comments });
        if stop {
            return out;
        }
    }
}

/// The first difference; facets as in `run::diff`.
pub fn diff_runs(a: &mut [Step], b: &mut [Step], f: u32) -> Option<String> {
    use crate::run::*;
    let norm = Norm { strip_comments: f & COMMENTS == 0, ..Norm::default() };
    for (k, (x, y)) in a.iter_mut().zip(b.iter_mut()).enumerate() {
        if let Ok(v) = &mut x.res {
            v.norm(&norm)
        }
        if let Ok(v) = &mut y.res {
            v.norm(&norm)
        }
        match (&x.res, &y.res) {
            (Ok(v), Ok(w)) => {
                if f & (AST | COMMENTS) != 0 && v != w {
                    return Some(format!("operation {} ({:?}) gives\n  {:?}\nbut should give\n  {:?}", k + 1, x.op, v, w));
                }
                if f & COMMENTS != 0 && x.comments != y.comments {
                    return Some(format!("operation {} ({:?}) hands over {:?}, but should {:?}", k + 1, x.op, x.comments, y.comments));
                }
                if f & POS != 0 && x.pos != y.pos {
                    return Some(format!("after operation {} ({:?}) the position is {:?}, but should be {:?}", k + 1, x.op, x.pos, y.pos));
                }
            }
            (Err(d), Err(e)) => {
                let same = same_kind(d, e);
                if f & ERR != 0 && !same {
                    return Some(format!("operation {} ({:?}) fails with {:?}, but should with {:?}", k + 1, x.op, d, e));
                }
                if f & ERRPOS != 0 && same && err_positions(d) != err_positions(e) {
                    return Some(format!("operation {} ({:?}) fails with {:?}, but should with {:?}", k + 1, x.op, d, e));
                }
            }
            (v, w) => {
                if f & (AST | ERR) != 0 {
                    return Some(format!("operation {} ({:?}) gives\n  {:?}\nbut should give\n  {:?}", k + 1, x.op, v, w));
                }
                return None;
            }
        }
    }
    if f & AST != 0 && a.len() != b.len() {
        return Some(format!("{} steps instead of {}", a.len(), b.len()));
    }
    None
}

