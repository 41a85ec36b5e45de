//! Reference parser: the shell grammar over an array of tokens with absolute positions.
//!
//! No iterators, no buffering, no push-back: look-ahead is indexing, a here-document is cut out of the array, a
//! backquoted body is a second array. Everything the implementation does with streams is done here with indices.

use crate::lexref::{self, Tk};
use crate::tree::{Cmd, Comp, Inj, List, Pc, Pipe, Redir, Word};
use conch_parser::ast::builder::Newline as Nl;
use conch_parser::ast::builder::{
    CaseArm, CaseFragments, CasePatternFragments, CommandGroup, ComplexWordKind, ForFragments, GuardBodyPairGroup,
    IfFragments, LoopKind, ParameterSubstitutionKind, RedirectKind, SeparatorKind, SimpleWordKind, WordKind,
};
use conch_parser::ast::{AndOr, Arithmetic, DefaultArithmetic as Ar, DefaultParameter, Parameter};
use conch_parser::ast::{RedirectOrCmdWord, RedirectOrEnvVar};
use conch_parser::parse::{ParseError, SourcePos};
use conch_parser::token::Token;
use Token::Pipe as Pipe_;
use Token::*;

pub type E = ParseError<Inj>;
pub type R<T> = Result<T, E>;
type Cw = ComplexWordKind<Cmd>;
type Wk = WordKind<Cmd>;
type Sw = SimpleWordKind<Cmd>;
pub type Simple = Sw;

/// Grammar places, for the coverage figures only.
#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum P {
    Top = 1,
    AndOr,
    Pipeline,
    Command,
    Simple,
    Assign,
    Arg,
    Redirect,
    RedirTarget,
    Heredoc,
    HeredocBody,
    Word,
    Dquote,
    Backtick,
    Param,
    Curly,
    CurlyWord,
    CmdSubst,
    Arith,
    ArithPrimary,
    Brace,
    Subshell,
    If,
    Loop,
    For,
    Case,
    CaseArm,
    Function,
    DoGroup,
    Group,
    Newline,
}

pub struct Model {
    pub t: Vec<Tk>,
    pub i: usize,
    pub end: SourcePos,
    /// Nesting depth of substituted token arrays; 0 is the source itself.
    level: usize,
    /// The real end of the source has been looked at (so more input could change the outcome).
    pub hit_end: bool,
    /// Largest end offset of any token looked at.
    pub seen: usize,
    pub stack: Vec<u8>,
    pub configs: Vec<u64>,
    /// Blank lines and comments left over at the end of the input.
    pub final_comments: Vec<Nl>,
    /// A command was taken to end right before an opening parenthesis (known finding, see DESIGN.md).
    pub unseparated: Option<SourcePos>,
    /// A heredoc inside backquotes.
    pub heredocs: usize,
    pub record: bool,
    /// Where the layout may be changed.
    pub layout: Vec<Gap>,
    /// Within a here-document's body, where a change may make up the delimiter.
    frozen: bool,
    /// Newlines that end the line of a here-document operator.
    pub heredoc_lines: Vec<usize>,
    /// A here-document of the source itself that lasts until the end of it.
    pub open_heredoc: bool,
}

/// A stretch of the source whose layout may be changed without changing the meaning.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Gap {
    /// A run of blanks, from and to.
    Blank(usize, usize),
    /// A line break.
    Newline(usize),
    /// A `;` that separates commands.
    Semi(usize),
}


#[derive(Clone, Copy, PartialEq, Eq)]
enum Ctx {
    Plain,
    Dq,
    Curly,
    Back,
}

/// Advances `*i` over one balanced unit: a token, an escaped token, or a whole quoted or bracketed stretch.
fn scan_unit(t: &[Tk], i: &mut usize, ctx: Ctx) -> Result<(), (Token, SourcePos)> {
    let at = t[*i].pos;
    let tok = t[*i].tok.clone();
    *i += 1;
    match tok {
        Backslash => {
            if *i < t.len() {
                *i += 1
            }
            Ok(())
        }
        _ if ctx == Ctx::Back => Ok(()),
        SingleQuote if ctx != Ctx::Dq => {
            while *i < t.len() {
                *i += 1;
                if t[*i - 1].tok == SingleQuote {
                    return Ok(());
                }
            }
            Err((SingleQuote, at))
        }
        DoubleQuote => scan_to(t, i, Ctx::Dq, DoubleQuote, (DoubleQuote, at)),
        Backtick => scan_to(t, i, Ctx::Back, Backtick, (Backtick, at)),
        ParenOpen if ctx == Ctx::Plain => scan_to(t, i, Ctx::Plain, ParenClose, (ParenOpen, at)),
        Dollar if *i < t.len() && t[*i].tok == ParenOpen => {
            let at = t[*i].pos;
            *i += 1;
            scan_to(t, i, Ctx::Plain, ParenClose, (ParenOpen, at))
        }
        Dollar if *i < t.len() && t[*i].tok == CurlyOpen => {
            let at = t[*i].pos;
            *i += 1;
            scan_to(t, i, Ctx::Curly, CurlyClose, (CurlyOpen, at))
        }
        _ => Ok(()),
    }
}

/// Advances past the unit closing with `close`.
fn scan_to(t: &[Tk], i: &mut usize, ctx: Ctx, close: Token, open: (Token, SourcePos)) -> Result<(), (Token, SourcePos)> {
    loop {
        if *i >= t.len() {
            return Err(open);
        }
        if t[*i].tok == close {
            *i += 1;
            return Ok(());
        }
        scan_unit(t, i, ctx)?;
    }
}

fn text(t: &[Tk]) -> String {
    t.iter().map(|t| t.tok.as_str()).collect()
}

/// Removes the backslashes that protect `\\`, `$` and a backquote inside backquotes and tokenises what is left.
fn unescape_backticked(t: &[Tk]) -> Vec<Tk> {
    let mut out: Vec<Tk> = Vec::with_capacity(t.len());
    let mut removed = false;
    let mut i = 0;
    while i < t.len() {
        if t[i].tok == Backslash && i + 1 < t.len() {
            if matches!(t[i + 1].tok, Dollar | Backtick | Backslash) {
                removed = true;
            } else {
                out.push(t[i].clone());
            }
            out.push(t[i + 1].clone());
            i += 2;
        } else {
            out.push(t[i].clone());
            i += 1;
        }
    }
    if !removed {
        return out;
    }
    let mut where_is = std::collections::HashMap::new();
    let mut s = String::new();
    for t in &out {
        let x = t.tok.as_str();
        for (k, c) in x.char_indices() {
            where_is.insert(s.len(), lexref::advance(t.pos, &x[..k]));
            s.push(c);
        }
    }
    let mut at = 0;
    lexref::tokens(&s)
        .into_iter()
        .map(|tok| {
            let pos = where_is[&at];
            at += tok.as_str().len();
            Tk { tok, pos }
        })
        .collect()
}

/// The text of a here-document delimiter after quote removal, and whether anything was quoted.
fn unquote(t: &[Tk]) -> (String, bool) {
    let mut s = String::new();
    let mut quoted = false;
    let mut i = 0;
    while i < t.len() {
        match t[i].tok {
            Backslash => {
                quoted = true;
                if let Some(n) = t.get(i + 1) {
                    s.push_str(n.tok.as_str());
                }
                i += 2;
            }
            SingleQuote => {
                quoted = true;
                let a = i + 1;
                let _ = scan_unit(t, &mut i, Ctx::Plain);
                s.push_str(&text(&t[a..i - 1]));
            }
            DoubleQuote => {
                quoted = true;
                let a = i + 1;
                let _ = scan_unit(t, &mut i, Ctx::Plain);
                let body = &t[a..i - 1];
                let mut k = 0;
                while k < body.len() {
                    if body[k].tok == Backslash && k + 1 < body.len() {
                        if !matches!(body[k + 1].tok, Dollar | Backtick | DoubleQuote | Backslash | Newline) {
                            s.push('\\');
                        }
                        k += 1;
                    }
                    s.push_str(body[k].tok.as_str());
                    k += 1;
                }
            }
            Backtick => {
                quoted = true;
                let a = i + 1;
                let _ = scan_unit(t, &mut i, Ctx::Plain);
                s.push('`');
                s.push_str(&text(&unescape_backticked(&t[a..i - 1])));
                s.push('`');
            }
            _ => {
                s.push_str(t[i].tok.as_str());
                i += 1;
            }
        }
    }
    (s, quoted)
}

fn lit(s: &str) -> Wk {
    WordKind::Simple(SimpleWordKind::Literal(s.to_string()))
}

fn to_word(mut v: Vec<Wk>) -> Option<Cw> {
    match v.len() {
        0 => None,
        1 => Some(ComplexWordKind::Single(v.pop().unwrap())),
        _ => Some(ComplexWordKind::Concat(v)),
    }
}

/// The whole word, if it consists of unquoted literal text only.
fn literal_text(w: &Cw) -> Option<String> {
    let one = |k: &Wk| match k {
        WordKind::Simple(SimpleWordKind::Literal(s)) => Some(s.clone()),
        _ => None,
    };
    match w {
        ComplexWordKind::Single(k) => one(k),
        ComplexWordKind::Concat(v) => v.iter().map(one).collect::<Option<Vec<_>>>().map(|v| v.concat()),
    }
}

/// Could the word expand to a descriptor number?
fn maybe_number(w: &Cw) -> bool {
    fn digits(s: &str) -> bool {
        s.chars().all(|c| c.is_ascii_digit())
    }
    fn simple(s: &Sw) -> bool {
        match s {
            SimpleWordKind::Literal(s) | SimpleWordKind::Escaped(s) => digits(s),
            SimpleWordKind::Param(_) | SimpleWordKind::Subst(_) | SimpleWordKind::CommandSubst(_) => true,
            _ => false,
        }
    }
    fn one(k: &Wk) -> bool {
        match k {
            WordKind::Simple(s) => simple(s),
            WordKind::SingleQuoted(s) => digits(s),
            WordKind::DoubleQuoted(v) => v.iter().all(simple),
        }
    }
    match w {
        ComplexWordKind::Single(k) => one(k),
        ComplexWordKind::Concat(v) => v.iter().all(one),
    }
}

#[derive(Clone, Copy)]
pub enum Until<'a> {
    Custom(&'a [Token], &'a [&'static str], &'a [Token]),
    Words(&'a [&'static str]),
    Brace,
    Paren,
    CaseBody,
    End,
}

impl Model {
    pub fn new(t: Vec<Tk>, end: SourcePos) -> Model {
        Model {
            t,
            i: 0,
            end,
            level: 0,
            hit_end: false,
            seen: 0,
            stack: Vec::new(),
            configs: Vec::new(),
            final_comments: Vec::new(),
            unseparated: None,
            heredocs: 0,
            record: true,
            layout: Vec::new(),
            frozen: false,
            heredoc_lines: Vec::new(),
            open_heredoc: false,
        }
    }

    /// Could more input (after the given total length) have changed anything seen so far?
    pub fn open_ended(&self, total: usize) -> bool {
        self.hit_end || self.seen >= total
    }

    fn enter(&mut self, p: P) {
        self.stack.push(p as u8);
        if self.record {
            let mut h: u64 = 0xcbf29ce484222325;
            let n = self.stack.len();
            for &b in &self.stack[n.saturating_sub(6)..] {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            let k = match self.t.get(self.i) {
                None => 0,
                Some(t) => 1 + kind_no(&t.tok),
            };
            h = (h ^ (k as u64 + 77)).wrapping_mul(0x100000001b3);
            self.configs.push(h ^ (h >> 29));
        }
    }
    fn leave(&mut self) {
        self.stack.pop();
    }

    pub fn pos(&self) -> SourcePos {
        self.t.get(self.i).map_or(self.end, |t| t.pos)
    }
    fn look(&mut self, k: usize) -> Option<&Token> {
        self.note(self.i + k);
        self.t.get(self.i + k).map(|t| &t.tok)
    }
    fn note(&mut self, idx: usize) {
        match self.t.get(idx) {
            Some(t) => self.seen = self.seen.max(t.pos.byte + t.tok.as_str().len()),
            None => {
                if self.level == 0 {
                    self.hit_end = true
                }
            }
        }
    }
    fn is(&mut self, t: &Token) -> bool {
        self.look(0) == Some(t)
    }
    pub fn eat(&mut self, t: &Token) -> bool {
        let b = self.is(t);
        if b {
            self.i += 1;
        }
        b
    }
    fn want(&mut self, t: &Token) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            self.unexpected()
        }
    }
    pub fn unexpected<T>(&mut self) -> R<T> {
        let p = self.pos();
        match self.look(0).cloned() {
            Some(t) => {
                self.i += 1;
                Err(ParseError::Unexpected(t, p))
            }
            None => Err(ParseError::UnexpectedEOF),
        }
    }
    fn at_end(&mut self) -> bool {
        self.look(0).is_none()
    }

    // ---- blanks, newlines, reserved words -------------------------------------------------------------------

    pub fn skip_ws(&mut self) {
        let a = self.i;
        loop {
            match self.look(0).cloned() {
                Some(Whitespace(_)) => self.i += 1,
                Some(Backslash) if self.look(1) == Some(&Newline) => self.i += 2,
                _ => break,
            }
        }
        if self.record && !self.frozen {
            let from = self.t.get(a).map_or(self.end, |t| t.pos).byte;
            let to = match self.t.get(self.i.wrapping_sub(1)) {
                Some(last) if self.i > a => last.pos.byte + last.tok.as_str().len(),
                _ => from,
            };
            self.layout.push(Gap::Blank(from, to));
        }
    }

    pub fn newline(&mut self) -> Option<Nl> {
        self.skip_ws();
        match self.look(0) {
            Some(Newline) => {
                let at = self.pos().byte;
                if !self.frozen {
                    self.layout.push(Gap::Newline(at));
                }
                self.i += 1;
                Some(Nl(None))
            }
            Some(Pound) => {
                self.enter(P::Newline);
                let mut s = String::new();
                loop {
                    match self.look(0).cloned() {
                        None => break,
                        Some(Newline) => {
                            self.i += 1;
                            break;
                        }
                        Some(t) => s.push_str(t.as_str()),
                    }
                    self.i += 1;
                }
                self.leave();
                Some(Nl(Some(s)))
            }
            _ => None,
        }
    }

    pub fn linebreak(&mut self) -> Vec<Nl> {
        let mut v = Vec::new();
        while let Some(n) = self.newline() {
            v.push(n);
        }
        v
    }

    fn delimited(&mut self, k: usize) -> bool {
        match self.look(k) {
            None => true,
            Some(Backslash) => self.look(k + 1) == Some(&Newline),
            Some(t) => delimiter(t),
        }
    }

    /// The reserved word (out of `ws`) standing next, if any; blanks are skipped.
    pub fn word_next(&mut self, ws: &[&'static str]) -> Option<&'static str> {
        if ws.is_empty() {
            return None;
        }
        self.skip_ws();
        let f = match self.look(0) {
            Some(Name(s)) | Some(Literal(s)) => ws.iter().find(|w| **w == s.as_str()).copied(),
            _ => None,
        };
        f.filter(|_| self.delimited(1))
    }
    pub fn take_word(&mut self, ws: &[&'static str]) -> Option<&'static str> {
        let w = self.word_next(ws);
        if w.is_some() {
            self.i += 1;
        }
        w
    }
    pub fn token_next(&mut self, t: &Token) -> bool {
        self.skip_ws();
        self.is(t) && self.delimited(1)
    }

    /// One of some tokens, standing as a word of its own. Blanks are passed, unless they are among the tokens.
    pub fn tokens_next(&mut self, ts: &[Token]) -> Option<Token> {
        if ts.is_empty() {
            return None;
        }
        if ts.iter().any(|t| matches!(t, Whitespace(_))) {
            let here = ts.iter().find(|t| self.is(t)).cloned();
            if here.is_some() && self.delimited(1) {
                return here;
            }
        }
        ts.iter().find(|t| self.token_next(t)).cloned()
    }

    // ---- commands -------------------------------------------------------------------------------------------

    /// The next complete command, or None at the end of the input.
    pub fn complete_command(&mut self) -> R<Option<Cmd>> {
        self.enter(P::Top);
        let pre = self.linebreak();
        let r = if self.at_end() {
            self.final_comments = pre;
            Ok(None)
        } else {
            self.command_after(pre).map(Some)
        };
        self.leave();
        r
    }

    fn command_after(&mut self, pre: Vec<Nl>) -> R<Cmd> {
        let list = self.and_or()?;
        let at = self.pos().byte;
        let (sep, cmt) = if self.eat(&Semi) {
            if !self.frozen {
                self.layout.push(Gap::Semi(at));
            }
            (SeparatorKind::Semi, self.newline())
        } else if self.eat(&Amp) {
            (SeparatorKind::Amp, self.newline())
        } else {
            match self.newline() {
                Some(n) => (SeparatorKind::Newline, Some(n)),
                None => {
                    if self.is(&ParenOpen) && self.unseparated.is_none() {
                        self.unseparated = Some(self.pos());
                    }
                    (SeparatorKind::Other, None)
                }
            }
        };
        Ok(Cmd { pre, list, sep, cmt })
    }

    pub fn and_or(&mut self) -> R<List> {
        self.enter(P::AndOr);
        let first = self.pipeline()?;
        let mut rest = Vec::new();
        loop {
            self.skip_ws();
            let and = self.is(&AndIf);
            if !and && !self.is(&OrIf) {
                break;
            }
            self.i += 1;
            let cm = self.linebreak();
            let p = self.pipeline()?;
            rest.push((cm, if and { AndOr::And(p) } else { AndOr::Or(p) }));
        }
        self.leave();
        Ok(List { first, rest })
    }

    pub fn pipeline(&mut self) -> R<Pipe> {
        self.enter(P::Pipeline);
        self.skip_ws();
        let bang = self.eat(&Bang);
        let mut cmds = Vec::new();
        loop {
            // Negation is possible once, and only in front of the whole pipeline.
            self.skip_ws();
            if self.is(&Bang) {
                return self.unexpected();
            }
            let c = self.command()?;
            if self.eat(&Pipe_) {
                let cm = self.linebreak();
                cmds.push((cm, c));
            } else {
                cmds.push((Vec::new(), c));
                break;
            }
        }
        self.leave();
        Ok(Pipe { bang, cmds })
    }

    pub fn command(&mut self) -> R<Pc> {
        self.enter(P::Command);
        self.skip_ws();
        let r = if self.compound_next() {
            Pc::Comp(Box::new(self.compound()?))
        } else if self.function_next() {
            self.function()?
        } else {
            self.simple()?
        };
        self.leave();
        Ok(r)
    }

    fn compound_next(&mut self) -> bool {
        self.skip_ws();
        self.is(&ParenOpen) || self.token_next(&CurlyOpen) || self.word_next(&["for", "case", "if", "while", "until"]).is_some()
    }

    pub fn function_next(&mut self) -> bool {
        if self.word_next(&["function"]).is_some() {
            return true;
        }
        if !matches!(self.look(0), Some(Name(_))) {
            return false;
        }
        let mut k = 1;
        loop {
            match self.look(k).cloned() {
                Some(ParenOpen) => return true,
                Some(Whitespace(_)) => k += 1,
                Some(Backslash) if self.look(k + 1) == Some(&Newline) => k += 2,
                _ => return false,
            }
        }
    }

    pub fn simple(&mut self) -> R<Pc> {
        self.enter(P::Simple);
        let mut vars = Vec::new();
        let mut words = Vec::new();
        // Assignments and redirections up to the command name.
        loop {
            self.skip_ws();
            let name = match self.look(0) {
                Some(Name(n)) => n.clone(),
                _ => String::new(),
            };
            if !name.is_empty() && self.look(1) == Some(&Equals) {
                self.enter(P::Assign);
                self.i += 2;
                let v = self.pieces(false)?.map(Word);
                self.skip_ws();
                vars.push(RedirectOrEnvVar::EnvVar(name, v));
                self.leave();
                continue;
            }
            match self.redirect()? {
                Some(Ok(r)) => vars.push(RedirectOrEnvVar::Redirect(r)),
                Some(Err(w)) => {
                    words.push(RedirectOrCmdWord::CmdWord(w));
                    break;
                }
                None => break,
            }
        }
        loop {
            self.enter(P::Arg);
            let r = self.redirect()?;
            self.leave();
            match r {
                Some(Ok(r)) => words.push(RedirectOrCmdWord::Redirect(r)),
                Some(Err(w)) => words.push(RedirectOrCmdWord::CmdWord(w)),
                None => break,
            }
        }
        if vars.is_empty() && words.is_empty() {
            return self.unexpected();
        }
        self.leave();
        Ok(Pc::Simple(vars, words))
    }

    pub fn redirect_list(&mut self) -> R<Vec<Redir>> {
        let mut v = Vec::new();
        loop {
            self.skip_ws();
            let a = self.pos();
            match self.redirect()? {
                Some(Ok(r)) => v.push(r),
                Some(Err(_)) => return Err(ParseError::BadFd(a, self.pos())),
                None => return Ok(v),
            }
        }
    }

    /// A redirection, or the word found instead of one.
    pub fn redirect(&mut self) -> R<Option<Result<Redir, Word>>> {
        use RedirectKind::{Append, DupRead, DupWrite, Read, ReadWrite, Write};
        let w = self.word_raw()?;
        let fd = match &w {
            None => None,
            Some(x) => {
                let n = literal_text(x)
                    .filter(|s| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()))
                    .and_then(|s| s.parse::<u16>().ok());
                match n {
                    Some(n) => Some(n),
                    None => return Ok(w.map(|w| Err(Word(w)))),
                }
            }
        };
        let op = match self.look(0).cloned() {
            Some(t @ Less) | Some(t @ Great) | Some(t @ DGreat) | Some(t @ Clobber) | Some(t @ LessAnd)
            | Some(t @ GreatAnd) | Some(t @ LessGreat) => t,
            Some(DLess) | Some(DLessDash) => return Ok(Some(Ok(self.heredoc(fd)?))),
            _ => return Ok(w.map(|w| Err(Word(w)))),
        };
        self.enter(P::Redirect);
        self.i += 1;
        self.skip_ws();
        self.enter(P::RedirTarget);
        let dup = op == LessAnd || op == GreatAnd;
        let target = if dup && self.token_next(&Dash) {
            self.i += 1;
            ComplexWordKind::Single(lit("-"))
        } else {
            let a = self.pos();
            match self.word_raw()? {
                None => return self.unexpected(),
                Some(x) if dup && !maybe_number(&x) => return Err(ParseError::BadFd(a, self.pos())),
                Some(x) => x,
            }
        };
        self.leave();
        self.leave();
        let target = Word(target);
        Ok(Some(Ok(Redir(match op {
            Less => Read(fd, target),
            Great => Write(fd, target),
            DGreat => Append(fd, target),
            Clobber => RedirectKind::Clobber(fd, target),
            LessGreat => ReadWrite(fd, target),
            LessAnd => DupRead(fd, target),
            _ => DupWrite(fd, target),
        }))))
    }

    pub fn heredoc(&mut self, fd: Option<u16>) -> R<Redir> {
        self.enter(P::Heredoc);
        self.heredocs += 1;
        let strip = self.is(&DLessDash);
        if !strip && !self.is(&DLess) {
            return self.unexpected();
        }
        self.i += 1;
        self.skip_ws();
        // The delimiter word (which a comment is not).
        if self.is(&Pound) {
            return self.unexpected();
        }
        let a = self.i;
        loop {
            if !self.is(&ParenOpen) && self.delimited(0) {
                break;
            }
            self.scan_one()?;
        }
        let (delim, quoted) = unquote(&self.t[a..self.i]);
        if delim.is_empty() {
            return self.unexpected();
        }
        // The rest of this line: up to the first newline that is not inside quotes or brackets, or up to the end of
        // a comment.
        let resume = self.i;
        let mut word_start = false;
        loop {
            let first = match self.look(0).cloned() {
                None => break,
                Some(Newline) => {
                    let at = self.pos().byte;
                    self.heredoc_lines.push(at);
                    self.i += 1;
                    break;
                }
                Some(t) => t,
            };
            if first == Pound && word_start {
                while !self.at_end() && !self.is(&Newline) {
                    self.i += 1;
                }
                continue;
            }
            let u = self.i;
            self.scan_one()?;
            word_start = delimiter(&first) || (first == Backslash && self.t[u + 1..self.i].iter().any(|t| t.tok == Newline));
        }
        // The body.
        let body_at = self.i;
        let mut body: Vec<Tk> = Vec::new();
        let mut body_end = self.pos();
        loop {
            let mut line: Vec<Tk> = Vec::new();
            if self.at_end() {
                self.open_heredoc |= self.level == 0;
                break;
            }
            if strip {
                if let Some(Whitespace(w)) = self.look(0).cloned() {
                    let tabs = w.len() - w.trim_start_matches('\t').len();
                    let mut p = self.pos();
                    p.byte += tabs;
                    p.col += tabs;
                    if tabs < w.len() {
                        line.push(Tk { tok: Whitespace(w[tabs..].to_string()), pos: p });
                    }
                    self.i += 1;
                }
            }
            let mut nl = None;
            while let Some(t) = self.look(0).cloned() {
                let p = self.pos();
                self.i += 1;
                if t == Newline {
                    nl = Some(Tk { tok: t, pos: p });
                    break;
                }
                line.push(Tk { tok: t, pos: p });
            }
            let txt = text(&line);
            if txt == delim || (txt.len() == delim.len() + 1 && txt.ends_with('\r') && txt.starts_with(&delim)) {
                break;
            }
            if nl.is_none() && line.is_empty() {
                self.open_heredoc |= self.level == 0;
                break;
            }
            body.append(&mut line);
            body.extend(nl);
            body_end = self.pos();
        }
        // Cut the body out.
        let after = self.i;
        self.t.drain(body_at..after);
        self.i = resume;
        let word = if quoted {
            ComplexWordKind::Single(lit(&text(&body)))
        } else {
            self.enter(P::HeredocBody);
            let frozen = std::mem::replace(&mut self.frozen, true);
            let pieces = self.within(body, body_end, |m| m.interpolated(None))?;
            self.frozen = frozen;
            self.leave();
            let v: Vec<Wk> = pieces.into_iter().map(WordKind::Simple).collect();
            to_word(v).unwrap_or_else(|| ComplexWordKind::Single(lit("")))
        };
        self.leave();
        Ok(Redir(RedirectKind::Heredoc(fd, Word(word))))
    }

    fn scan_one(&mut self) -> R<()> {
        let mut i = self.i;
        let r = scan_unit(&self.t, &mut i, Ctx::Plain);
        self.note(i.max(1) - 1);
        if r.is_err() || self.t.get(i.wrapping_sub(1)).map(|t| &t.tok) == Some(&Backslash) || i >= self.t.len() {
            self.note(self.t.len());
        }
        // `$` looks one token further
        self.note(i);
        self.i = i;
        r.map_err(|(t, p)| ParseError::Unmatched(t, p))
    }

    /// Runs `f` on another token array.
    fn within<T>(&mut self, t: Vec<Tk>, end: SourcePos, f: impl FnOnce(&mut Model) -> R<T>) -> R<T> {
        let (t0, i0, e0) = (std::mem::replace(&mut self.t, t), self.i, self.end);
        self.i = 0;
        self.end = end;
        self.level += 1;
        let r = f(self);
        if r.is_ok() {
            self.t = t0;
            self.i = i0;
            self.end = e0;
        }
        self.level -= 1;
        r
    }

    // ---- words ----------------------------------------------------------------------------------------------

    pub fn word(&mut self) -> R<Option<Word>> {
        let w = self.word_raw()?;
        self.skip_ws();
        Ok(w.map(Word))
    }

    pub fn word_raw(&mut self) -> R<Option<Cw>> {
        self.skip_ws();
        if self.is(&Pound) {
            return Ok(None);
        }
        self.pieces(false)
    }

    /// Word pieces up to an unquoted delimiter (or closing brace).
    fn pieces(&mut self, curly: bool) -> R<Option<Cw>> {
        self.enter(P::Word);
        let mut v: Vec<Wk> = Vec::new();
        loop {
            let at = self.pos();
            let t = match self.look(0).cloned() {
                None => break,
                Some(CurlyClose) if curly => break,
                Some(t) if delimiter(&t) => break,
                Some(t) => t,
            };
            match t {
                Backtick => {
                    v.push(WordKind::Simple(self.backticked()?));
                    continue;
                }
                Dollar | ParamPositional(_) => {
                    v.push(WordKind::Simple(self.parameter()?));
                    continue;
                }
                _ => self.i += 1,
            }
            v.push(match t {
                Star => WordKind::Simple(SimpleWordKind::Star),
                Question => WordKind::Simple(SimpleWordKind::Question),
                Tilde => WordKind::Simple(SimpleWordKind::Tilde),
                SquareOpen => WordKind::Simple(SimpleWordKind::SquareOpen),
                SquareClose => WordKind::Simple(SimpleWordKind::SquareClose),
                Colon => WordKind::Simple(SimpleWordKind::Colon),
                Backslash => match self.look(0).cloned() {
                    // An escaped newline separates words; a backslash at the very end is ignored.
                    None => break,
                    Some(Newline) => {
                        self.i += 1;
                        break;
                    }
                    Some(t) => {
                        self.i += 1;
                        WordKind::Simple(SimpleWordKind::Escaped(t.as_str().to_string()))
                    }
                },
                SingleQuote => {
                    let a = self.i;
                    loop {
                        match self.look(0) {
                            None => return Err(ParseError::Unmatched(SingleQuote, at)),
                            Some(SingleQuote) => break,
                            _ => self.i += 1,
                        }
                    }
                    self.i += 1;
                    WordKind::SingleQuoted(text(&self.t[a..self.i - 1]))
                }
                DoubleQuote => {
                    self.enter(P::Dquote);
                    let l = self.interpolated(Some(at))?;
                    self.leave();
                    WordKind::DoubleQuoted(l)
                }
                t => lit(t.as_str()),
            });
        }
        self.leave();
        Ok(to_word(v))
    }

    /// Double-quoted text (up to the closing quote, opened at the given place), or a here-document body.
    fn interpolated(&mut self, quote: Option<SourcePos>) -> R<Vec<Sw>> {
        let mut v: Vec<Sw> = Vec::new();
        let mut s = String::new();
        fn flush(v: &mut Vec<Sw>, s: &mut String) {
            if !s.is_empty() {
                v.push(SimpleWordKind::Literal(std::mem::take(s)));
            }
        }
        loop {
            let t = match (self.look(0).cloned(), quote) {
                (None, None) => break,
                (None, Some(p)) => return Err(ParseError::Unmatched(DoubleQuote, p)),
                (Some(DoubleQuote), Some(_)) => {
                    self.i += 1;
                    break;
                }
                (Some(t), _) => t,
            };
            match t {
                Dollar | ParamPositional(_) => {
                    flush(&mut v, &mut s);
                    v.push(self.parameter()?);
                }
                Backtick => {
                    flush(&mut v, &mut s);
                    v.push(self.backticked()?);
                }
                Backslash => {
                    self.i += 1;
                    match self.look(0).cloned() {
                        Some(t @ Dollar) | Some(t @ Backtick) | Some(t @ DoubleQuote) | Some(t @ Backslash)
                        | Some(t @ Newline) => {
                            self.i += 1;
                            flush(&mut v, &mut s);
                            v.push(SimpleWordKind::Escaped(t.as_str().to_string()));
                        }
                        _ => s.push('\\'),
                    }
                }
                t => {
                    self.i += 1;
                    s.push_str(t.as_str());
                }
            }
        }
        flush(&mut v, &mut s);
        Ok(v)
    }

    pub fn backticked(&mut self) -> R<Sw> {
        let at = self.pos();
        if !self.eat(&Backtick) {
            return self.unexpected();
        }
        self.enter(P::Backtick);
        let a = self.i;
        let mut i = self.i;
        let r = scan_to(&self.t, &mut i, Ctx::Back, Backtick, (Backtick, at));
        self.note(i - 1);
        if let Err((t, p)) = r {
            self.note(self.t.len());
            return Err(ParseError::Unmatched(t, p));
        }
        let end = self.t[i - 1].pos;
        let body = unescape_backticked(&self.t[a..i - 1]);
        self.i = i;
        let g = self.within(body, end, |m| m.group(Until::End))?;
        self.leave();
        Ok(SimpleWordKind::CommandSubst(g))
    }

    pub fn parameter(&mut self) -> R<Sw> {
        self.enter(P::Param);
        let at = self.pos();
        let r = match self.look(0).cloned() {
            Some(ParamPositional(p)) => {
                self.i += 1;
                SimpleWordKind::Param(Parameter::Positional(p.as_num() as u32))
            }
            Some(Dollar) => {
                self.i += 1;
                match self.look(0) {
                    Some(Star) | Some(Pound) | Some(Question) | Some(Dollar) | Some(Bang) | Some(Dash) | Some(At)
                    | Some(Name(_)) => SimpleWordKind::Param(self.param_name()?),
                    Some(ParenOpen) => self.paren_subst()?,
                    Some(CurlyOpen) => self.curly_subst()?,
                    Some(ParamPositional(p)) => {
                        // the second `$` belongs to the first
                        let tok = Literal(p.as_num().to_string());
                        let pos = lexref::advance(self.pos(), "$");
                        self.t[self.i] = Tk { tok, pos };
                        SimpleWordKind::Param(Parameter::Dollar)
                    }
                    _ => SimpleWordKind::Literal("$".to_string()),
                }
            }
            Some(t) => return Err(ParseError::Unexpected(t, at)),
            None => return Err(ParseError::UnexpectedEOF),
        };
        self.leave();
        Ok(r)
    }

    fn param_name(&mut self) -> R<DefaultParameter> {
        let at = self.pos();
        let t = match self.look(0).cloned() {
            None => return Err(ParseError::UnexpectedEOF),
            Some(t) => t,
        };
        self.i += 1;
        Ok(match t {
            Star => Parameter::Star,
            Pound => Parameter::Pound,
            Question => Parameter::Question,
            Dollar => Parameter::Dollar,
            Bang => Parameter::Bang,
            Dash => Parameter::Dash,
            At => Parameter::At,
            Name(n) => Parameter::Var(n),
            Literal(s) if s.bytes().all(|b| b.is_ascii_digit()) && s.parse::<u32>().is_ok() => {
                Parameter::Positional(s.parse().unwrap())
            }
            t => return Err(ParseError::BadSubst(t, at)),
        })
    }

    fn paren_subst(&mut self) -> R<Sw> {
        use ParameterSubstitutionKind::*;
        if self.look(1) == Some(&ParenOpen) {
            self.enter(P::Arith);
            self.i += 2;
            self.skip_ws();
            let a = if self.is(&ParenClose) { None } else { Some(self.arith()?) };
            self.skip_ws();
            self.want(&ParenClose)?;
            self.skip_ws();
            self.want(&ParenClose)?;
            self.leave();
            Ok(SimpleWordKind::Subst(Box::new(Arith(a))))
        } else {
            self.enter(P::CmdSubst);
            let g = self.subshell(true)?;
            self.leave();
            Ok(SimpleWordKind::Subst(Box::new(Command(g))))
        }
    }

    fn curly_subst(&mut self) -> R<Sw> {
        use ParameterSubstitutionKind::*;
        self.enter(P::Curly);
        let open = self.pos();
        self.i += 1;
        let p = self.param_name()?;
        let is_pound = p == Parameter::Pound;
        let boxed = |k| SimpleWordKind::Subst(Box::new(k));
        let next = self.look(0).cloned();
        let r = match next {
            Some(Percent) => {
                self.i += 1;
                if self.eat(&Percent) {
                    boxed(RemoveLargestSuffix(p, self.curly_word(open)?))
                } else {
                    boxed(RemoveSmallestSuffix(p, self.curly_word(open)?))
                }
            }
            Some(Pound) => {
                self.i += 1;
                if self.eat(&Pound) {
                    boxed(RemoveLargestPrefix(p, self.curly_word(open)?))
                } else {
                    match self.curly_word(open)? {
                        // ${##}: the length of $#
                        None if is_pound => boxed(Len(Parameter::Pound)),
                        w => boxed(RemoveSmallestPrefix(p, w)),
                    }
                }
            }
            Some(Colon) | Some(Dash) | Some(Equals) | Some(Question) | Some(Plus) | Some(CurlyClose) => {
                self.curly_op(p, open)?
            }
            _ if is_pound => {
                // ${#param}
                let p = self.param_name()?;
                self.want(&CurlyClose)?;
                boxed(Len(p))
            }
            _ => self.curly_op(p, open)?,
        };
        self.leave();
        Ok(r)
    }

    fn curly_op(&mut self, p: DefaultParameter, open: SourcePos) -> R<Sw> {
        use ParameterSubstitutionKind::*;
        let colon = self.eat(&Colon);
        let at = self.pos();
        let op = match self.look(0).cloned() {
            None => return Err(ParseError::Unmatched(CurlyOpen, open)),
            Some(t) => t,
        };
        self.i += 1;
        if op == CurlyClose {
            return Ok(SimpleWordKind::Param(p));
        }
        if !matches!(op, Dash | Equals | Question | Plus) {
            return Err(ParseError::BadSubst(op, at));
        }
        let w = self.curly_word(open)?;
        let k = match op {
            // ${#-} and ${#?} are lengths
            Dash if p == Parameter::Pound && !colon && w.is_none() => Len(Parameter::Dash),
            Question if p == Parameter::Pound && !colon && w.is_none() => Len(Parameter::Question),
            Dash => Default(colon, p, w),
            Equals => Assign(colon, p, w),
            Question => Error(colon, p, w),
            _ => Alternative(colon, p, w),
        };
        Ok(SimpleWordKind::Subst(Box::new(k)))
    }

    /// The word of a `${...}` form and its closing brace.
    fn curly_word(&mut self, open: SourcePos) -> R<Option<Cw>> {
        self.enter(P::CurlyWord);
        let mut v: Vec<Wk> = Vec::new();
        loop {
            match self.look(0).cloned() {
                None => return Err(ParseError::Unmatched(CurlyOpen, open)),
                Some(CurlyClose) => {
                    self.i += 1;
                    break;
                }
                Some(t) if delimiter(&t) || t == Pound => {
                    v.push(lit(t.as_str()));
                    self.i += 1;
                }
                Some(Backslash) if self.look(1) == Some(&Newline) => {
                    self.i += 2;
                    v.push(WordKind::Simple(SimpleWordKind::Escaped("\n".to_string())));
                }
                _ => match self.pieces(true)? {
                    None => {
                        // Nothing but a backslash at the very end.
                        return Err(self.open_curly(open));
                    }
                    Some(ComplexWordKind::Single(w)) => v.push(w),
                    Some(ComplexWordKind::Concat(ws)) => v.extend(ws),
                },
            }
        }
        self.leave();
        Ok(to_word(v))
    }
    fn open_curly(&mut self, open: SourcePos) -> E {
        ParseError::Unmatched(CurlyOpen, open)
    }

    // ---- compound commands ----------------------------------------------------------------------------------

    fn stop(&mut self, u: Until) -> bool {
        match u {
            Until::Custom(t, w, e) => e.iter().any(|x| self.is(x)) || self.word_next(w).is_some() || self.tokens_next(t).is_some(),
            Until::End => false,
            Until::Words(w) => self.word_next(w).is_some(),
            Until::Brace => self.token_next(&CurlyClose),
            Until::Paren => self.is(&ParenClose),
            Until::CaseBody => self.is(&DSemi) || self.word_next(&["esac"]).is_some(),
        }
    }

    fn group(&mut self, u: Until) -> R<CommandGroup<Cmd>> {
        self.enter(P::Group);
        let mut commands = Vec::new();
        let mut trailing_comments = Vec::new();
        loop {
            if self.stop(u) {
                break;
            }
            let pre = self.linebreak();
            if self.stop(u) || self.at_end() {
                trailing_comments = pre;
                break;
            }
            commands.push(self.command_after(pre)?);
        }
        self.leave();
        Ok(CommandGroup { commands, trailing_comments })
    }

    pub fn nonempty(&mut self, u: Until) -> R<CommandGroup<Cmd>> {
        let g = self.group(u)?;
        if g.commands.is_empty() {
            return self.unexpected();
        }
        Ok(g)
    }

    fn keyword(&mut self, w: &'static str) -> R<()> {
        if self.take_word(&[w]).is_some() {
            Ok(())
        } else {
            self.unexpected()
        }
    }
    fn missing<T>(&mut self, cmd: &'static str, at: SourcePos, kw: &'static str) -> R<T> {
        Err(ParseError::IncompleteCmd(cmd, at, kw, self.pos()))
    }

    pub fn do_group(&mut self) -> R<CommandGroup<Cmd>> {
        self.enter(P::DoGroup);
        self.skip_ws();
        let at = self.pos();
        self.keyword("do")?;
        let g = self.nonempty(Until::Words(&["done"]))?;
        if self.take_word(&["done"]).is_none() {
            return self.missing("do", at, "done");
        }
        self.leave();
        Ok(g)
    }

    pub fn brace(&mut self) -> R<CommandGroup<Cmd>> {
        self.enter(P::Brace);
        self.skip_ws();
        let at = self.pos();
        if !self.token_next(&CurlyOpen) {
            // A brace glued to something is not the culprit; what it is glued to is.
            self.eat(&CurlyOpen);
            return self.unexpected();
        }
        self.i += 1;
        let g = self.nonempty(Until::Brace)?;
        if !self.token_next(&CurlyClose) {
            return Err(ParseError::Unmatched(CurlyOpen, at));
        }
        self.i += 1;
        self.leave();
        Ok(g)
    }

    pub fn subshell(&mut self, empty_ok: bool) -> R<CommandGroup<Cmd>> {
        self.enter(P::Subshell);
        let at = self.pos();
        self.want(&ParenOpen)?;
        let g = self.group(Until::Paren)?;
        if self.is(&ParenClose) && (empty_ok || !g.commands.is_empty()) {
            self.i += 1;
        } else if self.at_end() {
            return Err(ParseError::Unmatched(ParenOpen, at));
        } else {
            return self.unexpected();
        }
        self.leave();
        Ok(g)
    }

    pub fn compound(&mut self) -> R<Comp> {
        self.skip_ws();
        if self.is(&ParenOpen) {
            let g = self.subshell(false)?;
            return Ok(Comp::Sub(g, self.redirect_list()?));
        }
        if self.token_next(&CurlyOpen) {
            let g = self.brace()?;
            return Ok(Comp::Brace(g, self.redirect_list()?));
        }
        match self.word_next(&["for", "case", "if", "while", "until"]) {
            Some("for") => {
                let f = self.for_()?;
                Ok(Comp::For(f, self.redirect_list()?))
            }
            Some("case") => {
                let f = self.case()?;
                Ok(Comp::Case(f, self.redirect_list()?))
            }
            Some("if") => {
                let f = self.if_()?;
                Ok(Comp::If(f, self.redirect_list()?))
            }
            Some(_) => {
                let (k, g) = self.loop_()?;
                Ok(Comp::Loop(k, g, self.redirect_list()?))
            }
            None => self.unexpected(),
        }
    }

    pub fn loop_(&mut self) -> R<(LoopKind, GuardBodyPairGroup<Cmd>)> {
        self.enter(P::Loop);
        self.skip_ws();
        let at = self.pos();
        let (kind, kw) = match self.take_word(&["while", "until"]) {
            Some("while") => (LoopKind::While, "while"),
            Some(_) => (LoopKind::Until, "until"),
            None => return self.unexpected(),
        };
        let guard = self.nonempty(Until::Words(&["do"]))?;
        if self.word_next(&["do"]).is_none() {
            return self.missing(kw, at, "do");
        }
        let body = self.do_group()?;
        self.leave();
        Ok((kind, GuardBodyPairGroup { guard, body }))
    }

    pub fn if_(&mut self) -> R<IfFragments<Cmd>> {
        self.enter(P::If);
        self.skip_ws();
        let at = self.pos();
        self.keyword("if")?;
        let mut conditionals = Vec::new();
        let else_branch = loop {
            let guard = self.nonempty(Until::Words(&["then"]))?;
            if self.take_word(&["then"]).is_none() {
                return self.missing("if", at, "then");
            }
            let body = self.nonempty(Until::Words(&["elif", "else", "fi"]))?;
            conditionals.push(GuardBodyPairGroup { guard, body });
            match self.take_word(&["elif", "else", "fi"]) {
                Some("elif") => {}
                Some("fi") => break None,
                Some(_) => {
                    let g = self.nonempty(Until::Words(&["fi"]))?;
                    if self.take_word(&["fi"]).is_none() {
                        return self.missing("if", at, "fi");
                    }
                    break Some(g);
                }
                None => return self.missing("if", at, "fi"),
            }
        };
        self.leave();
        Ok(IfFragments { conditionals, else_branch })
    }

    fn ident(&mut self) -> R<String> {
        self.skip_ws();
        let at = self.pos();
        match self.look(0).cloned() {
            Some(Name(n)) => {
                self.i += 1;
                Ok(n)
            }
            Some(Literal(s)) => Err(ParseError::BadIdent(s, at)),
            _ => self.unexpected(),
        }
    }

    pub fn for_(&mut self) -> R<ForFragments<Word, Cmd>> {
        self.enter(P::For);
        self.skip_ws();
        let at = self.pos();
        self.keyword("for")?;
        let var = self.ident()?;
        let var_comment = self.newline();
        let breaks = self.linebreak();
        let (words, pre_body_comments) = if self.take_word(&["in"]).is_some() {
            let mut ws = Vec::new();
            while let Some(w) = self.word()? {
                ws.push(w);
            }
            let semi = self.eat(&Semi);
            let nl = self.newline();
            if !semi && nl.is_none() {
                return self.unexpected();
            }
            (Some((breaks, ws, nl)), self.linebreak())
        } else if self.eat(&Semi) {
            let mut b = breaks;
            b.extend(self.linebreak());
            (None, b)
        } else if self.word_next(&["do"]).is_some() {
            (None, breaks)
        } else {
            return self.missing("for", at, "in");
        };
        if self.word_next(&["do"]).is_none() {
            return self.missing("for", at, "do");
        }
        let body = self.do_group()?;
        self.leave();
        Ok(ForFragments { var, var_comment, words, pre_body_comments, body })
    }

    pub fn case(&mut self) -> R<CaseFragments<Word, Cmd>> {
        self.enter(P::Case);
        self.skip_ws();
        let at = self.pos();
        self.keyword("case")?;
        let word = match self.word()? {
            Some(w) => w,
            None => return self.unexpected(),
        };
        let post_word_comments = self.linebreak();
        if self.take_word(&["in"]).is_none() {
            return self.missing("case", at, "in");
        }
        let in_comment = self.newline();
        let mut arms = Vec::new();
        let mut post_arms_comments;
        loop {
            let pre_pattern_comments = self.linebreak();
            if self.word_next(&["esac"]).is_some() {
                post_arms_comments = pre_pattern_comments;
                break;
            }
            self.enter(P::CaseArm);
            self.eat(&ParenOpen);
            if self.at_end() {
                return self.missing("case", at, "esac");
            }
            let mut pats = Vec::new();
            loop {
                match self.word()? {
                    Some(w) => pats.push(w),
                    None => return self.unexpected(),
                }
                if self.eat(&ParenClose) {
                    break;
                }
                if self.at_end() {
                    return self.missing("case", at, "esac");
                }
                self.want(&Pipe_)?;
            }
            let pattern_comment = self.newline();
            let body = self.group(Until::CaseBody)?;
            let more = self.eat(&DSemi);
            let arm_comment = if more { self.newline() } else { None };
            arms.push(CaseArm {
                patterns: CasePatternFragments { pre_pattern_comments, pattern_alternatives: pats, pattern_comment },
                body,
                arm_comment,
            });
            self.leave();
            if !more {
                post_arms_comments = Vec::new();
                break;
            }
        }
        post_arms_comments.extend(self.linebreak());
        if self.take_word(&["esac"]).is_none() {
            return self.missing("case", at, "esac");
        }
        self.leave();
        Ok(CaseFragments { word, post_word_comments, in_comment, arms, post_arms_comments })
    }

    pub fn function(&mut self) -> R<Pc> {
        self.enter(P::Function);
        let kw = self.take_word(&["function"]).is_some();
        let name = self.ident()?;
        let mut cm = Vec::new();
        let mut body = None;
        let glued = self.is(&ParenOpen);
        if !glued && !(kw && self.is(&Newline)) {
            let before = self.i;
            self.skip_ws();
            if self.i == before {
                return self.unexpected();
            }
        }
        if glued || !kw {
            // name ()
            self.want(&ParenOpen)?;
            self.skip_ws();
            self.want(&ParenClose)?;
        } else if self.is(&ParenOpen) {
            // function name (): or a subshell as the body
            let g = self.subshell(true)?;
            if !g.commands.is_empty() || !g.trailing_comments.is_empty() {
                body = Some(Comp::Sub(g, self.redirect_list()?));
            }
        }
        let body = match body {
            Some(b) => b,
            None => {
                cm = self.linebreak();
                self.compound()?
            }
        };
        self.leave();
        Ok(Pc::Fun(name, cm, Box::new(body)))
    }

    // ---- arithmetic -----------------------------------------------------------------------------------------

    /// `expr [, expr]...`
    pub fn arith(&mut self) -> R<Ar> {
        let mut v = vec![self.arith_assign()?];
        while self.eat(&Comma) {
            v.push(self.arith_assign()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Arithmetic::Sequence(v) })
    }

    /// Is an assignment next? Returns its operator (None for a plain `=`).
    fn assign_op(&mut self) -> Option<Option<Token>> {
        let mut k = 0;
        while self.look(k) == Some(&Dollar) {
            k += 1;
        }
        if !matches!(self.look(k), Some(Name(_))) {
            return None;
        }
        k += 1;
        loop {
            match self.look(k).cloned() {
                Some(Whitespace(_)) => k += 1,
                Some(Backslash) if self.look(k + 1) == Some(&Newline) => k += 2,
                _ => break,
            }
        }
        match self.look(k).cloned() {
            Some(Equals) => {
                if self.look(k + 1) == Some(&Equals) {
                    None
                } else {
                    Some(None)
                }
            }
            Some(t @ Star) | Some(t @ Slash) | Some(t @ Percent) | Some(t @ Plus) | Some(t @ Dash) | Some(t @ DLess)
            | Some(t @ DGreat) | Some(t @ Amp) | Some(t @ Pipe_) | Some(t @ Caret) => {
                if self.look(k + 1) == Some(&Equals) {
                    Some(Some(t))
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    fn arith_assign(&mut self) -> R<Ar> {
        self.skip_ws();
        let op = match self.assign_op() {
            None => return self.arith_ternary(),
            Some(op) => op,
        };
        let var = self.arith_var()?;
        self.skip_ws();
        self.i += if op.is_some() { 2 } else { 1 };
        let value = self.arith_assign()?;
        let value = match op {
            None => value,
            Some(t) => binary(&t, Arithmetic::Var(var.clone()), value),
        };
        Ok(Arithmetic::Assign(var, Box::new(value)))
    }

    fn arith_ternary(&mut self) -> R<Ar> {
        let guard = self.arith_binary(0)?;
        self.skip_ws();
        if !self.eat(&Question) {
            return Ok(guard);
        }
        let a = self.arith_ternary()?;
        self.skip_ws();
        self.want(&Colon)?;
        let b = self.arith_ternary()?;
        Ok(Arithmetic::Ternary(Box::new(guard), Box::new(a), Box::new(b)))
    }

    /// Left-associative binary operators; a higher level binds tighter.
    fn arith_binary(&mut self, level: usize) -> R<Ar> {
        if level == 10 {
            return self.arith_power();
        }
        let mut e = self.arith_binary(level + 1)?;
        loop {
            self.skip_ws();
            let t = match self.look(0).cloned() {
                Some(t) => t,
                None => return Ok(e),
            };
            let here = match &t {
                OrIf => 0,
                AndIf => 1,
                Pipe_ => 2,
                Caret => 3,
                Amp => 4,
                Equals | Bang => 5,
                Less | Great => 6,
                DLess | DGreat => 7,
                Plus | Dash => 8,
                Star | Slash | Percent => 9,
                _ => return Ok(e),
            };
            if here != level {
                return Ok(e);
            }
            self.i += 1;
            let eq = match here {
                5 => {
                    self.want(&Equals)?;
                    true
                }
                6 => self.eat(&Equals),
                _ => false,
            };
            let r = Box::new(self.arith_binary(level + 1)?);
            let l = Box::new(e);
            e = match (&t, eq) {
                (OrIf, _) => Arithmetic::LogicalOr(l, r),
                (AndIf, _) => Arithmetic::LogicalAnd(l, r),
                (Equals, _) => Arithmetic::Eq(l, r),
                (Bang, _) => Arithmetic::NotEq(l, r),
                (Less, true) => Arithmetic::LessEq(l, r),
                (Less, false) => Arithmetic::Less(l, r),
                (Great, true) => Arithmetic::GreatEq(l, r),
                (Great, false) => Arithmetic::Great(l, r),
                _ => binary(&t, *l, *r),
            };
        }
    }

    /// `**`, right-associative.
    fn arith_power(&mut self) -> R<Ar> {
        let base = self.arith_unary()?;
        self.skip_ws();
        if self.is(&Star) && self.look(1) == Some(&Star) {
            self.i += 2;
            let e = self.arith_power()?;
            return Ok(Arithmetic::Pow(Box::new(base), Box::new(e)));
        }
        Ok(base)
    }

    fn arith_unary(&mut self) -> R<Ar> {
        self.skip_ws();
        let t = self.look(0).cloned();
        match t {
            Some(Bang) => {
                self.i += 1;
                Ok(Arithmetic::LogicalNot(Box::new(self.arith_unary()?)))
            }
            Some(Tilde) => {
                self.i += 1;
                Ok(Arithmetic::BitwiseNot(Box::new(self.arith_unary()?)))
            }
            Some(t @ Plus) | Some(t @ Dash) => {
                self.i += 1;
                if self.eat(&t) {
                    let v = self.arith_var()?;
                    return Ok(if t == Plus { Arithmetic::PreIncr(v) } else { Arithmetic::PreDecr(v) });
                }
                let e = Box::new(self.arith_unary()?);
                Ok(if t == Plus { Arithmetic::UnaryPlus(e) } else { Arithmetic::UnaryMinus(e) })
            }
            _ => self.arith_primary(),
        }
    }

    fn arith_primary(&mut self) -> R<Ar> {
        self.enter(P::ArithPrimary);
        self.skip_ws();
        let r = if self.eat(&ParenOpen) {
            let e = self.arith()?;
            self.skip_ws();
            self.want(&ParenClose)?;
            e
        } else if let Some(n) = match self.look(0) {
            Some(Literal(s)) => number(s),
            _ => None,
        } {
            self.i += 1;
            Arithmetic::Literal(n)
        } else {
            let v = self.arith_var()?;
            self.skip_ws();
            let t = self.look(0).cloned();
            match t {
                Some(Plus) if self.look(1) == Some(&Plus) => {
                    self.i += 2;
                    Arithmetic::PostIncr(v)
                }
                Some(Dash) if self.look(1) == Some(&Dash) => {
                    self.i += 2;
                    Arithmetic::PostDecr(v)
                }
                _ => Arithmetic::Var(v),
            }
        };
        self.leave();
        Ok(r)
    }

    fn arith_var(&mut self) -> R<String> {
        self.skip_ws();
        self.eat(&Dollar);
        match self.look(0).cloned() {
            Some(Name(n)) => {
                self.i += 1;
                Ok(n)
            }
            _ => self.unexpected(),
        }
    }
}

fn binary(t: &Token, l: Ar, r: Ar) -> Ar {
    let (l, r) = (Box::new(l), Box::new(r));
    match t {
        Star => Arithmetic::Mult(l, r),
        Slash => Arithmetic::Div(l, r),
        Percent => Arithmetic::Modulo(l, r),
        Plus => Arithmetic::Add(l, r),
        Dash => Arithmetic::Sub(l, r),
        DLess => Arithmetic::ShiftLeft(l, r),
        DGreat => Arithmetic::ShiftRight(l, r),
        Amp => Arithmetic::BitwiseAnd(l, r),
        Pipe_ => Arithmetic::BitwiseOr(l, r),
        _ => Arithmetic::BitwiseXor(l, r),
    }
}

/// The value of a numeric literal: `0x`/`0X` hexadecimal, leading `0` octal, else decimal.
fn number(s: &str) -> Option<isize> {
    let (digits, base): (&str, i128) = if s.starts_with("0x") || s.starts_with("0X") {
        (&s[2..], 16)
    } else if s.starts_with('0') {
        (s, 8)
    } else {
        (s, 10)
    };
    if digits.is_empty() && base != 16 {
        return None;
    }
    let mut v: i128 = 0;
    for c in digits.chars() {
        let d = match c {
            '0'..='9' => c as i128 - '0' as i128,
            'a'..='f' => c as i128 - 'a' as i128 + 10,
            'A'..='F' => c as i128 - 'A' as i128 + 10,
            _ => return None,
        };
        if d >= base {
            return None;
        }
        v = v * base + d;
        if v > isize::MAX as i128 {
            return None;
        }
    }
    Some(v as isize)
}

/// The tokens that end an unquoted word.
pub fn delimiter(t: &Token) -> bool {
    matches!(
        t,
        Newline
            | ParenOpen
            | ParenClose
            | Semi
            | Amp
            | Pipe_
            | AndIf
            | OrIf
            | DSemi
            | Less
            | Great
            | DLess
            | DGreat
            | GreatAnd
            | LessAnd
            | DLessDash
            | Clobber
            | LessGreat
            | Whitespace(_)
    )
}

pub fn kind_no(t: &Token) -> u8 {
    match t {
        Name(s) => match s.as_str() {
            "if" => 80,
            "then" => 81,
            "else" => 82,
            "elif" => 83,
            "fi" => 84,
            "while" => 85,
            "until" => 86,
            "do" => 87,
            "done" => 88,
            "for" => 89,
            "in" => 90,
            "case" => 91,
            "esac" => 92,
            "function" => 93,
            _ => 94,
        },
        Literal(_) => 95,
        Whitespace(_) => 96,
        ParamPositional(_) => 97,
        t => {
            let s = t.as_str().as_bytes();
            let mut h = 0u32;
            for &b in s {
                h = h * 31 + b as u32;
            }
            (h % 79) as u8 + 100 * (s.len() as u8 - 1).min(1)
        }
    }
}
