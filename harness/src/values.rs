//! Whether the library's values compare, clone and convert as plain values do. The yardstick is a rendering of its
//! own, which leaves nothing out and reads no two different values alike.

use crate::engine::Cx;
use crate::oracles::{symbol, Res};
use crate::run::guarded;
use crate::tree::{Cmd, Comp, Inj, List, Pc, Pipe, Rec, Redir, Word as RWord};
use conch_parser::ast::builder::*;
use conch_parser::ast::*;
use conch_parser::lexer::Lexer;
use conch_parser::parse::{CommandGroupDelimiters, ParseError, Parser, SourcePos};
use conch_parser::token::{Positional, Token};
use std::cell::RefCell;
use std::collections::HashMap;
use std::error::Error;
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::Arc;

macro_rules! bad {
    ($($t:tt)*) => { return Err(format!($($t)*)) }
}

pub trait Key {
    fn key(&self, o: &mut String);
}

fn key<T: Key + ?Sized>(t: &T) -> String {
    let mut s = String::new();
    t.key(&mut s);
    s
}

fn hash(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

macro_rules! shown {
    ($($t:ty),*) => { $(impl Key for $t {
        fn key(&self, o: &mut String) {
            o.push_str(&format!("{:?}", self));
        }
    })* }
}
shown!(str, String, bool, u16, u32, usize, isize);

macro_rules! pointers {
    ($($t:ident),*) => { $(impl<T: Key + ?Sized> Key for $t<T> {
        fn key(&self, o: &mut String) {
            (**self).key(o)
        }
    })* }
}
pointers!(Rc, Arc, Box);

impl<T: Key + ?Sized> Key for &T {
    fn key(&self, o: &mut String) {
        (**self).key(o)
    }
}
impl<T: Key> Key for [T] {
    fn key(&self, o: &mut String) {
        o.push('[');
        for x in self {
            x.key(o);
            o.push(',');
        }
        o.push(']');
    }
}
impl<T: Key> Key for Vec<T> {
    fn key(&self, o: &mut String) {
        self.as_slice().key(o)
    }
}
impl<T: Key> Key for Option<T> {
    fn key(&self, o: &mut String) {
        match self {
            None => o.push('-'),
            Some(x) => {
                o.push('+');
                x.key(o)
            }
        }
    }
}
impl<A: Key, B: Key> Key for (A, B) {
    fn key(&self, o: &mut String) {
        o.push('(');
        self.0.key(o);
        o.push(',');
        self.1.key(o);
        o.push(')');
    }
}
impl<A: Key, B: Key, C: Key> Key for (A, B, C) {
    fn key(&self, o: &mut String) {
        o.push('(');
        self.0.key(o);
        o.push(',');
        self.1.key(o);
        o.push(',');
        self.2.key(o);
        o.push(')');
    }
}

/// Lists every variant and every field.
macro_rules! keys {
    ([$($g:ident)*] $t:ty; $($p:ident :: $v:ident $(($($f:ident)*))? $({$($n:ident)*})?),* $(,)?) => {
        impl<$($g: Key),*> Key for $t {
            fn key(&self, o: &mut String) {
                match self {
                    $($p::$v $(($($f),*))? $({$($n),*})? => {
                        o.push_str(stringify!($v));
                        o.push('(');
                        $($($f.key(o); o.push(',');)*)?
                        $($($n.key(o); o.push(',');)*)?
                        o.push(')');
                    })*
                }
            }
        }
    };
}
macro_rules! fields {
    ($([$($g:ident)*] $t:ty, $p:ident { $($f:ident)* };)*) => { $(
        impl<$($g: Key),*> Key for $t {
            fn key(&self, o: &mut String) {
                let $p { $($f),* } = self;
                o.push_str(stringify!($p));
                o.push('{');
                $($f.key(o); o.push(',');)*
                o.push('}');
            }
        }
    )* };
}
macro_rules! wraps {
    ($([$($g:ident)*] $t:ty;)*) => { $(
        impl<$($g: Key),*> Key for $t {
            fn key(&self, o: &mut String) {
                self.0.key(o)
            }
        }
    )* };
}

keys! { [T] Parameter<T>; Parameter::At, Parameter::Star, Parameter::Pound, Parameter::Question, Parameter::Dash, Parameter::Dollar, Parameter::Bang,
    Parameter::Positional(a), Parameter::Var(a) }
type PS<P, W, C, A> = ParameterSubstitution<P, W, C, A>;
keys! { [P W C A] PS<P, W, C, A>; PS::Command(a), PS::Len(a), PS::Arith(a), PS::Default(a b c), PS::Assign(a b c), PS::Error(a b c), PS::Alternative(a b c),
    PS::RemoveSmallestSuffix(a b), PS::RemoveLargestSuffix(a b), PS::RemoveSmallestPrefix(a b), PS::RemoveLargestPrefix(a b) }
type PK<W, C> = ParameterSubstitutionKind<W, C>;
keys! { [W C] PK<W, C>; PK::Command(a), PK::Len(a), PK::Arith(a), PK::Default(a b c), PK::Assign(a b c), PK::Error(a b c), PK::Alternative(a b c),
    PK::RemoveSmallestSuffix(a b), PK::RemoveLargestSuffix(a b), PK::RemoveSmallestPrefix(a b), PK::RemoveLargestPrefix(a b) }
keys! { [W] ComplexWord<W>; ComplexWord::Concat(a), ComplexWord::Single(a) }
keys! { [C] ComplexWordKind<C>; ComplexWordKind::Concat(a), ComplexWordKind::Single(a) }
keys! { [L W] Word<L, W>; Word::Simple(a), Word::DoubleQuoted(a), Word::SingleQuoted(a) }
keys! { [C] WordKind<C>; WordKind::Simple(a), WordKind::DoubleQuoted(a), WordKind::SingleQuoted(a) }
keys! { [L P S] SimpleWord<L, P, S>; SimpleWord::Literal(a), SimpleWord::Escaped(a), SimpleWord::Param(a), SimpleWord::Subst(a), SimpleWord::Star, SimpleWord::Question,
    SimpleWord::SquareOpen, SimpleWord::SquareClose, SimpleWord::Tilde, SimpleWord::Colon }
type SK<C> = SimpleWordKind<C>;
keys! { [C] SK<C>; SK::Literal(a), SK::Param(a), SK::Subst(a), SK::CommandSubst(a), SK::Escaped(a), SK::Star, SK::Question, SK::SquareOpen, SK::SquareClose, SK::Tilde, SK::Colon }
keys! { [W] Redirect<W>; Redirect::Read(a b), Redirect::Write(a b), Redirect::ReadWrite(a b), Redirect::Append(a b), Redirect::Clobber(a b), Redirect::Heredoc(a b),
    Redirect::DupRead(a b), Redirect::DupWrite(a b) }
type RK<W> = RedirectKind<W>;
keys! { [W] RK<W>; RK::Read(a b), RK::Write(a b), RK::ReadWrite(a b), RK::Append(a b), RK::Clobber(a b), RK::Heredoc(a b), RK::DupRead(a b), RK::DupWrite(a b) }
keys! { [T] Command<T>; Command::Job(a), Command::List(a) }
keys! { [T] AndOr<T>; AndOr::And(a), AndOr::Or(a) }
keys! { [T] ListableCommand<T>; ListableCommand::Pipe(a b), ListableCommand::Single(a) }
type PC<N, S, C, F> = PipeableCommand<N, S, C, F>;
keys! { [N S C F] PC<N, S, C, F>; PC::Simple(a), PC::Compound(a), PC::FunctionDef(a b) }
type CK<V, W, C> = CompoundCommandKind<V, W, C>;
keys! { [V W C] CK<V, W, C>; CK::Brace(a), CK::Subshell(a), CK::While(a), CK::Until(a), CK::If{conditionals else_branch}, CK::For{var words body}, CK::Case{word arms} }
keys! { [R V W] RedirectOrEnvVar<R, V, W>; RedirectOrEnvVar::Redirect(a), RedirectOrEnvVar::EnvVar(a b) }
keys! { [R W] RedirectOrCmdWord<R, W>; RedirectOrCmdWord::Redirect(a), RedirectOrCmdWord::CmdWord(a) }
type Ar<T> = Arithmetic<T>;
keys! { [T] Ar<T>; Ar::Var(a), Ar::Literal(a), Ar::Pow(a b), Ar::PostIncr(a), Ar::PostDecr(a), Ar::PreIncr(a), Ar::PreDecr(a), Ar::UnaryPlus(a), Ar::UnaryMinus(a),
    Ar::LogicalNot(a), Ar::BitwiseNot(a), Ar::Mult(a b), Ar::Div(a b), Ar::Modulo(a b), Ar::Add(a b), Ar::Sub(a b), Ar::ShiftLeft(a b), Ar::ShiftRight(a b), Ar::Less(a b),
    Ar::LessEq(a b), Ar::Great(a b), Ar::GreatEq(a b), Ar::Eq(a b), Ar::NotEq(a b), Ar::BitwiseAnd(a b), Ar::BitwiseXor(a b), Ar::BitwiseOr(a b), Ar::LogicalAnd(a b),
    Ar::LogicalOr(a b), Ar::Ternary(a b c), Ar::Assign(a b), Ar::Sequence(a) }
keys! { [] SeparatorKind; SeparatorKind::Semi, SeparatorKind::Amp, SeparatorKind::Newline, SeparatorKind::Other }
keys! { [] LoopKind; LoopKind::While, LoopKind::Until }
keys! { [] Positional; Positional::Zero, Positional::One, Positional::Two, Positional::Three, Positional::Four, Positional::Five, Positional::Six, Positional::Seven,
    Positional::Eight, Positional::Nine }
keys! { [] Token; Token::Newline, Token::ParenOpen, Token::ParenClose, Token::CurlyOpen, Token::CurlyClose, Token::SquareOpen, Token::SquareClose, Token::Bang, Token::Tilde,
    Token::Pound, Token::Star, Token::Question, Token::Backslash, Token::Percent, Token::Dash, Token::Equals, Token::Plus, Token::Colon, Token::At, Token::Caret, Token::Slash,
    Token::Comma, Token::SingleQuote, Token::DoubleQuote, Token::Backtick, Token::Semi, Token::Amp, Token::Pipe, Token::AndIf, Token::OrIf, Token::DSemi, Token::Less,
    Token::Great, Token::DLess, Token::DGreat, Token::GreatAnd, Token::LessAnd, Token::DLessDash, Token::Clobber, Token::LessGreat, Token::Dollar, Token::ParamPositional(a),
    Token::Whitespace(a), Token::Literal(a), Token::Name(a) }
keys! { [T] ParseError<T>; ParseError::BadFd(a b), ParseError::BadIdent(a b), ParseError::BadSubst(a b), ParseError::Unmatched(a b), ParseError::IncompleteCmd(a b c d),
    ParseError::Unexpected(a b), ParseError::UnexpectedEOF, ParseError::Custom(a) }
keys! { [] Pc; Pc::Simple(a b), Pc::Comp(a), Pc::Fun(a b c) }
keys! { [] Comp; Comp::Brace(a b), Comp::Sub(a b), Comp::Loop(a b c), Comp::If(a b), Comp::For(a b), Comp::Case(a b) }
fields! {
    [C] GuardBodyPair<C>, GuardBodyPair { guard body };
    [W C] PatternBodyPair<W, C>, PatternBodyPair { patterns body };
    [T] AndOrList<T>, AndOrList { first rest };
    [T R] CompoundCommand<T, R>, CompoundCommand { kind io };
    [V W R] SimpleCommand<V, W, R>, SimpleCommand { redirects_or_env_vars redirects_or_cmd_words };
    [C] CommandGroup<C>, CommandGroup { commands trailing_comments };
    [C] GuardBodyPairGroup<C>, GuardBodyPairGroup { guard body };
    [C] IfFragments<C>, IfFragments { conditionals else_branch };
    [W C] ForFragments<W, C>, ForFragments { var var_comment words pre_body_comments body };
    [W C] CaseFragments<W, C>, CaseFragments { word post_word_comments in_comment arms post_arms_comments };
    [W C] CaseArm<W, C>, CaseArm { patterns body arm_comment };
    [W] CasePatternFragments<W>, CasePatternFragments { pre_pattern_comments pattern_alternatives pattern_comment };
    [] SourcePos, SourcePos { byte line col };
    [] Cmd, Cmd { pre list sep cmt };
    [] List, List { first rest };
    [] Pipe, Pipe { bang cmds };
}
impl Key for CommandGroupDelimiters<'_, '_, '_> {
    fn key(&self, o: &mut String) {
        self.reserved_tokens.key(o);
        self.reserved_words.key(o);
        self.exact_tokens.key(o);
    }
}
wraps! {
    [] Newline;
    [] RWord;
    [] Redir;
    [] Inj;
    [T] TopLevelCommand<T>;
    [T] TopLevelWord<T>;
    [T] AtomicTopLevelCommand<T>;
    [T] AtomicTopLevelWord<T>;
}

// ---- parsed values ----------------------------------------------------------------------------------------------

/// A value with its rendering.
struct Val<T>(T, String);

fn val<T: Key>(t: T) -> Val<T> {
    let k = key(&t);
    Val(t, k)
}

/// Everything parsed from one text.
struct Parsed {
    text: String,
    plain: Val<Vec<TopLevelCommand<String>>>,
    rc: Val<Vec<TopLevelCommand<Rc<String>>>>,
    atomic: Val<Vec<AtomicTopLevelCommand<Arc<String>>>>,
    all: Val<Vec<Cmd>>,
    word: Val<Option<TopLevelWord<String>>>,
    aword: Val<Option<AtomicTopLevelWord<Arc<String>>>>,
    allword: Val<Option<RWord>>,
    err: Val<Option<ParseError<Inj>>>,
    toks: Val<Vec<Token>>,
}

fn commands<B: Builder>(text: &str, b: B) -> (Vec<B::Command>, Option<ParseError<B::Error>>) {
    let mut p = Parser::with_builder(Lexer::new(text.chars()), b);
    let mut v = Vec::new();
    loop {
        match p.complete_command() {
            Ok(Some(c)) if v.len() <= text.len() => v.push(c),
            Ok(_) => return (v, None),
            Err(e) => return (v, Some(e)),
        }
    }
}

fn word<B: Builder>(text: &str, b: B) -> Option<B::Word> {
    Parser::with_builder(Lexer::new(text.chars()), b).word().ok().flatten()
}

fn parsed(text: &str) -> Parsed {
    let (all, err) = commands(text, Rec::default());
    Parsed {
        text: text.to_string(),
        plain: val(commands(text, StringBuilder::new()).0),
        rc: val(commands(text, RcBuilder::new()).0),
        atomic: val(commands(text, ArcBuilder::new()).0),
        all: val(all),
        word: val(word(text, StringBuilder::new())),
        aword: val(word(text, ArcBuilder::new())),
        allword: val(word(text, Rec::default())),
        err: val(err),
        toks: val(Lexer::new(text.chars()).collect()),
    }
}

/// Equal exactly if rendered alike, from either side; `!=` the opposite.
fn agree<T: PartialEq>(what: &str, a: &Val<T>, b: &Val<T>, show: impl Fn(&T) -> String) -> Res {
    let want = a.1 == b.1;
    for (x, y) in [(&a.0, &b.0), (&b.0, &a.0)] {
        if (x == y) != want || (x != y) == want {
            bad!(
                "{} {}compare equal ({}, != {}):\n  {}\n  {}",
                what, if want { "should " } else { "should not " }, x == y, x != y, show(x), show(y)
            );
        }
    }
    Ok(())
}

fn cloned<T: PartialEq + Clone + Key + Debug>(what: &str, a: &Val<T>) -> Res {
    let c = val(a.0.clone());
    if c.1 != a.1 {
        bad!("{}: the clone of\n  {:?}\nis\n  {:?}", what, a.0, c.0);
    }
    agree(what, a, &c, |x| format!("{:?}", x))
}

macro_rules! wrapper {
    ($name:ident, $Cmd:ident) => {
        /// The wrapper holds the tree, equals it, and hands it out unchanged.
        fn $name<T: Key + Clone + PartialEq + Debug>(a: &$Cmd<T>, b: &$Cmd<T>) -> Res {
            let want = key(a) == key(b);
            if (*a == b.0) != want || (*a != b.0) == want {
                bad!("{} {:?} compared with the tree\n  {:?}: equal {}", stringify!($Cmd), a, b.0, *a == b.0);
            }
            let mut c = $Cmd::from(a.0.clone());
            if key(&c) != key(a) || key(&*c) != key(&a.0) || key(&**a) != key(&a.0) {
                bad!("{} changes the tree it holds:\n  {:?}\n  {:?}\n  {:?}", stringify!($Cmd), a, c, *c);
            }
            if !std::ptr::eq(&**a, &a.0) {
                bad!("{} refers to something other than the tree it holds", stringify!($Cmd));
            }
            // Writing through it changes the tree, and nothing else.
            *std::ops::DerefMut::deref_mut(&mut c) = b.0.clone();
            if key(&c) != key(b) || c != *b || key(&c.0) != key(&b.0) {
                bad!("writing {:?} through {} gives {:?}", b.0, stringify!($Cmd), c);
            }
            Ok(())
        }
    };
}
wrapper!(wrapped, TopLevelCommand);
wrapper!(awrapped, AtomicTopLevelCommand);
wrapper!(wrapped_word, TopLevelWord);
wrapper!(awrapped_word, AtomicTopLevelWord);

fn compare(a: &Parsed, b: &Parsed, cx: &mut Cx) -> Res {
    cx.count("pairs of programs compared", 1);
    cx.configs(&[hash(&a.all.1), hash(&b.all.1)]);
    agree("syntax trees", &a.plain, &b.plain, |x| format!("{:?}", x))?;
    agree("syntax trees (shared strings)", &a.rc, &b.rc, |x| format!("{:?}", x))?;
    agree("syntax trees (atomic)", &a.atomic, &b.atomic, |x| format!("{:?}", x))?;
    agree("fragments", &a.all, &b.all, |x| format!("{:?}", x))?;
    agree("words", &a.word, &b.word, |x| format!("{:?}", x))?;
    agree("words (atomic)", &a.aword, &b.aword, |x| format!("{:?}", x))?;
    agree("fragments of words", &a.allword, &b.allword, |x| format!("{:?}", x))?;
    agree("errors", &a.err, &b.err, |x| format!("{:?}", x))?;
    agree("tokens", &a.toks, &b.toks, |x| format!("{:?}", x))?;
    for (x, y) in a.plain.0.iter().zip(&b.plain.0) {
        wrapped(x, y)?;
    }
    for (x, y) in a.atomic.0.iter().zip(&b.atomic.0) {
        awrapped(x, y)?;
    }
    if let (Some(x), Some(y)) = (&a.word.0, &b.word.0) {
        wrapped_word(x, y)?;
    }
    if let (Some(x), Some(y)) = (&a.aword.0, &b.aword.0) {
        awrapped_word(x, y)?;
    }
    Ok(())
}

fn alone(p: &Parsed, lexer: bool) -> Res {
    cloned("syntax trees", &p.plain)?;
    cloned("syntax trees (shared strings)", &p.rc)?;
    cloned("syntax trees (atomic)", &p.atomic)?;
    cloned("fragments", &p.all)?;
    cloned("words", &p.word)?;
    cloned("words (atomic)", &p.aword)?;
    cloned("fragments of words", &p.allword)?;
    cloned("errors", &p.err)?;
    cloned("tokens", &p.toks)?;
    // Parsed anew, nothing is shared: still equal.
    let again = parsed(&p.text);
    agree("syntax trees", &p.plain, &again.plain, |x| format!("{:?}", x))?;
    agree("syntax trees (shared strings)", &p.rc, &again.rc, |x| format!("{:?}", x))?;
    agree("syntax trees (atomic)", &p.atomic, &again.atomic, |x| format!("{:?}", x))?;
    agree("fragments", &p.all, &again.all, |x| format!("{:?}", x))?;
    agree("errors", &p.err, &again.err, |x| format!("{:?}", x))?;
    if !lexer {
        return Ok(());
    }
    // A lexer cloned anywhere goes on as the original does.
    let mut l = Lexer::new(p.text.chars());
    for k in 0.. {
        let rest: Vec<Token> = l.clone().collect();
        if key(rest.as_slice()) != key(&p.toks.0[k.min(p.toks.0.len())..]) {
            bad!("a lexer cloned after {} tokens of {:?} yields {:?}", k, p.text, rest);
        }
        if k > 40 || l.next().is_none() {
            break;
        }
    }
    Ok(())
}

thread_local! {
    static CACHE: RefCell<HashMap<usize, Rc<Vec<Parsed>>>> = RefCell::new(HashMap::new());
}

/// What a text parses to, compared with what each text of the corpus does.
pub fn c24(corpus: Arc<Vec<String>>) -> impl Fn(&str, &mut Cx) -> Res {
    move |text, cx| {
        cx.evals += 1;
        let id = Arc::as_ptr(&corpus) as usize;
        let all = CACHE.with(|c| c.borrow().get(&id).cloned());
        let all = match all {
            Some(a) => a,
            None => {
                let a = guarded(|| Rc::new(corpus.iter().map(|t| parsed(t)).collect::<Vec<_>>()))?;
                CACHE.with(|c| c.borrow_mut().insert(id, a.clone()));
                a
            }
        };
        guarded(|| {
            let p = parsed(text);
            alone(&p, true)?;
            compare(&p, &p, cx)?;
            for q in all.iter() {
                compare(&p, q, cx).map_err(|e| format!("{}\n(parsed from {:?} and {:?})", e, text, q.text))?;
            }
            Ok(())
        })?
    }
}

/// Two texts.
pub fn c24_two(text: &str, cx: &mut Cx) -> Res {
    cx.evals += 1;
    let (a, b) = match text.split_once('\u{1e}') {
        Some(x) => x,
        None => return Ok(()),
    };
    guarded(|| {
        let (p, q) = (parsed(a), parsed(b));
        alone(&q, !cx.quick)?;
        compare(&p, &q, cx).map_err(|e| format!("{}\n(parsed from {:?} and {:?})", e, a, b))
    })?
}

// ---- values made by hand ----------------------------------------------------------------------------------------

fn pairs<T: PartialEq + Clone + Key + Debug>(what: &str, v: Vec<T>, k: usize, cx: &mut Cx) -> Res {
    if k == usize::MAX {
        // Only the length is asked for.
        return Err(v.len().to_string());
    }
    cx.evals += 1;
    let v: Vec<Val<T>> = v.into_iter().map(val).collect();
    let a = match v.get(k) {
        Some(a) => a,
        None => return Ok(()),
    };
    cloned(what, a)?;
    for b in &v {
        agree(what, a, b, |x| format!("{:?}", x))?;
        cx.count("pairs of values compared", 1);
        cx.configs(&[hash(&a.1), hash(&b.1)]);
        let mut c = a.0.clone();
        c.clone_from(&b.0);
        if key(&c) != b.1 {
            bad!("{}: cloning {:?} over {:?} gives {:?}", what, b.0, a.0, c);
        }
    }
    Ok(())
}

fn some_tokens() -> Vec<Token> {
    let mut v: Vec<Token> = crate::props::token_symbols().iter().filter_map(|s| symbol(s)).collect();
    v.extend((0..=9).filter_map(|n| Positional::from_num(n)).map(Token::ParamPositional));
    for s in ["", "a", "b", "A", "ab", " ", "\t", "\n", "1", "=", "é", "if"] {
        v.push(Token::Whitespace(s.to_string()));
        v.push(Token::Literal(s.to_string()));
        v.push(Token::Name(s.to_string()));
    }
    v
}

fn some_positions() -> Vec<SourcePos> {
    let n = [0, 1, 2, 7, usize::MAX];
    let mut v = vec![SourcePos::new(), SourcePos::default()];
    for byte in n {
        for line in n {
            for col in n {
                v.push(SourcePos { byte, line, col });
            }
        }
    }
    v
}

fn some_errors() -> Vec<ParseError<Inj>> {
    let at = |byte, line, col| SourcePos { byte, line, col };
    let places = [at(0, 1, 1), at(1, 1, 1), at(0, 2, 1), at(0, 1, 2), at(5, 2, 3)];
    let mut v = vec![ParseError::UnexpectedEOF, ParseError::Custom(Inj(0)), ParseError::Custom(Inj(1)), ParseError::from(Inj(1)), ParseError::from(Inj(2))];
    for p in places {
        for s in ["", "a", "b", "ab"] {
            v.push(ParseError::BadIdent(s.to_string(), p));
        }
        for t in [Token::Newline, Token::ParenOpen, Token::Name("a".to_string()), Token::Literal("a".to_string()), Token::Name("b".to_string())] {
            v.push(ParseError::BadSubst(t.clone(), p));
            v.push(ParseError::Unmatched(t.clone(), p));
            v.push(ParseError::Unexpected(t, p));
        }
        for q in places {
            v.push(ParseError::BadFd(p, q));
            for (a, b) in [("if", "fi"), ("fi", "if"), ("if", "then"), ("while", "fi")] {
                v.push(ParseError::IncompleteCmd(a, p, b, q));
            }
        }
    }
    v
}

fn some_delimiters() -> Vec<CommandGroupDelimiters<'static, 'static, 'static>> {
    const TOKS: &[&[Token]] = &[&[], &[Token::ParenClose], &[Token::CurlyClose], &[Token::ParenClose, Token::CurlyClose], &[Token::CurlyClose, Token::ParenClose]];
    const WORDS: &[&[&str]] = &[&[], &["fi"], &["done"], &["fi", "done"], &["done", "fi"]];
    let mut v = vec![CommandGroupDelimiters::default()];
    for a in TOKS {
        for b in WORDS {
            for c in TOKS {
                v.push(CommandGroupDelimiters { reserved_tokens: a, reserved_words: b, exact_tokens: c });
            }
        }
    }
    v
}

fn some_parameters() -> Vec<DefaultParameter> {
    use Parameter::*;
    let mut v = vec![At, Star, Pound, Question, Dash, Dollar, Bang];
    v.extend([0, 1, 9, 10, 11, 256, 65536, u32::MAX].map(Positional));
    v.extend(["", "a", "b", "_", "A", "aa", "1", "@"].map(|s| Var(s.to_string())));
    v
}

/// Every shape of an expression over `a`, `b`, `1`, `2` and the given operands.
fn some_arithmetic(inner: &[DefaultArithmetic]) -> Vec<DefaultArithmetic> {
    use Arithmetic::*;
    let mut v = Vec::new();
    for s in ["a", "b"] {
        v.extend([Var, PostIncr, PostDecr, PreIncr, PreDecr].map(|f: fn(String) -> DefaultArithmetic| f(s.to_string())));
    }
    v.extend([0, 1, -1, isize::MAX, isize::MIN].map(Literal));
    v.push(Sequence(vec![]));
    for a in inner {
        let a = || Box::new(a.clone());
        v.extend([UnaryPlus(a()), UnaryMinus(a()), LogicalNot(a()), BitwiseNot(a()), Assign("a".to_string(), a()), Assign("b".to_string(), a()), Sequence(vec![*a()])]);
        for b in inner {
            let b = || Box::new(b.clone());
            let f: &[fn(Box<DefaultArithmetic>, Box<DefaultArithmetic>) -> DefaultArithmetic] = &[
                Pow, Mult, Div, Modulo, Add, Sub, ShiftLeft, ShiftRight, Less, LessEq, Great, GreatEq, Eq, NotEq, BitwiseAnd, BitwiseXor, BitwiseOr, LogicalAnd, LogicalOr,
            ];
            v.extend(f.iter().map(|f| f(a(), b())));
            v.push(Sequence(vec![*a(), *b()]));
            for c in inner {
                v.push(Ternary(a(), b(), Box::new(c.clone())));
            }
        }
    }
    v
}

fn operands() -> Vec<DefaultArithmetic> {
    use Arithmetic::*;
    vec![Var("a".to_string()), Var("b".to_string()), Literal(1), PreIncr("a".to_string())]
}

fn some_substitutions() -> Vec<ParameterSubstitutionKind<String, u32>> {
    use ParameterSubstitutionKind::*;
    let mut v = vec![Arith(None), Arith(Some(Arithmetic::Literal(1))), Arith(Some(Arithmetic::Var("a".to_string())))];
    for c in [vec![], vec![1], vec![2], vec![1, 2]] {
        for n in [vec![], vec![Newline(None)], vec![Newline(Some("#".to_string()))]] {
            v.push(Command(CommandGroup { commands: c.clone(), trailing_comments: n }));
        }
    }
    for p in [Parameter::At, Parameter::Var("a".to_string()), Parameter::Positional(1)] {
        v.push(Len(p.clone()));
        for w in [None, Some(String::new()), Some("x".to_string())] {
            let (p, w) = (|| p.clone(), || w.clone());
            for b in [true, false] {
                v.extend([Default(b, p(), w()), Assign(b, p(), w()), Error(b, p(), w()), Alternative(b, p(), w())]);
            }
            v.extend([RemoveSmallestSuffix(p(), w()), RemoveLargestSuffix(p(), w()), RemoveSmallestPrefix(p(), w()), RemoveLargestPrefix(p(), w())]);
        }
    }
    v
}

fn tree_substitutions() -> Vec<ParameterSubstitution<DefaultParameter, String, u32, DefaultArithmetic>> {
    use ParameterSubstitution as T;
    use ParameterSubstitutionKind::*;
    let mut v: Vec<_> = some_substitutions()
        .into_iter()
        .map(|s| match s {
            Command(c) => T::Command(c.commands),
            Len(p) => T::Len(p),
            Arith(a) => T::Arith(a),
            Default(b, p, w) => T::Default(b, p, w),
            Assign(b, p, w) => T::Assign(b, p, w),
            Error(b, p, w) => T::Error(b, p, w),
            Alternative(b, p, w) => T::Alternative(b, p, w),
            RemoveSmallestSuffix(p, w) => T::RemoveSmallestSuffix(p, w),
            RemoveLargestSuffix(p, w) => T::RemoveLargestSuffix(p, w),
            RemoveSmallestPrefix(p, w) => T::RemoveSmallestPrefix(p, w),
            RemoveLargestPrefix(p, w) => T::RemoveLargestPrefix(p, w),
        })
        .collect();
    v.push(T::Command(vec![2, 1]));
    v
}

macro_rules! redirects {
    ($name:ident, $R:ident) => {
        fn $name() -> Vec<$R<String>> {
            let mut v = Vec::new();
            for fd in [None, Some(0), Some(1), Some(2), Some(255), Some(256), Some(u16::MAX)] {
                for w in ["", "f", "g", "-", "1"] {
                    let f: &[fn(Option<u16>, String) -> $R<String>] =
                        &[$R::Read, $R::Write, $R::ReadWrite, $R::Append, $R::Clobber, $R::Heredoc, $R::DupRead, $R::DupWrite];
                    v.extend(f.iter().map(|f| f(fd, w.to_string())));
                }
            }
            v
        }
    };
}
redirects!(tree_redirects, Redirect);
redirects!(some_redirects, RedirectKind);

fn nls() -> Vec<Vec<Newline>> {
    let (n, c, d) = (Newline(None), Newline(Some("#c".to_string())), Newline(Some("#d".to_string())));
    vec![vec![], vec![n.clone()], vec![c.clone()], vec![n, d.clone()], vec![c, d]]
}

fn groups() -> Vec<CommandGroup<u32>> {
    let mut v = Vec::new();
    for commands in [vec![], vec![1], vec![2], vec![1, 2]] {
        v.extend(nls().into_iter().map(|trailing_comments| CommandGroup { commands: commands.clone(), trailing_comments }));
    }
    v
}

fn few<T: Clone>(v: &[T], n: usize) -> Vec<T> {
    v.iter().step_by((v.len() / n).max(1)).cloned().collect()
}

fn guards() -> Vec<GuardBodyPairGroup<u32>> {
    let g = groups();
    g.iter().flat_map(|guard| few(&g, 7).into_iter().map(move |body| GuardBodyPairGroup { guard: guard.clone(), body })).collect()
}

fn fors() -> Vec<ForFragments<String, u32>> {
    let mut v = Vec::new();
    let n = nls();
    let one = |k: usize| n[k].first().cloned();
    let s = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let words = [None, Some((n[0].clone(), s(&[]), None)), Some((n[0].clone(), s(&["w"]), one(2))), Some((n[2].clone(), s(&["w"]), None)), Some((n[0].clone(), s(&["w", "x"]), None))];
    for var in ["i", "j"] {
        for var_comment in [None, one(1), one(2)] {
            for words in &words {
                for pre in &n {
                    for body in few(&groups(), 4) {
                        v.push(ForFragments { var: var.to_string(), var_comment: var_comment.clone(), words: words.clone(), pre_body_comments: pre.clone(), body });
                    }
                }
            }
        }
    }
    v
}

fn arms() -> Vec<CaseArm<String, u32>> {
    let mut v = Vec::new();
    let n = nls();
    for pre in [&n[0], &n[1], &n[2]] {
        for pats in [vec![], vec!["p"], vec!["q"], vec!["p", "q"]] {
            for pc in [None, n[1].first().cloned(), n[2].first().cloned()] {
                for body in few(&groups(), 3) {
                    for arm_comment in [None, n[1].first().cloned(), n[2].first().cloned()] {
                        let patterns = CasePatternFragments {
                            pre_pattern_comments: pre.clone(),
                            pattern_alternatives: pats.iter().map(|s| s.to_string()).collect(),
                            pattern_comment: pc.clone(),
                        };
                        v.push(CaseArm { patterns, body: body.clone(), arm_comment });
                    }
                }
            }
        }
    }
    v
}

fn cases() -> Vec<CaseFragments<String, u32>> {
    let mut v = Vec::new();
    let n = nls();
    let a = arms();
    for word in ["w", "x"] {
        for post in [&n[0], &n[1], &n[2]] {
            for in_comment in [None, n[1].first().cloned(), n[2].first().cloned()] {
                for arms in [vec![], vec![a[0].clone()], vec![a[0].clone(), a[100].clone()], vec![a[100].clone(), a[0].clone()]] {
                    for end in [&n[0], &n[1], &n[3]] {
                        v.push(CaseFragments {
                            word: word.to_string(),
                            post_word_comments: post.clone(),
                            in_comment: in_comment.clone(),
                            arms: arms.clone(),
                            post_arms_comments: end.clone(),
                        });
                    }
                }
            }
        }
    }
    v
}

fn ifs() -> Vec<IfFragments<u32>> {
    let g = few(&guards(), 6);
    let mut v = Vec::new();
    for a in &g {
        for b in &g {
            for else_branch in [None, Some(groups()[0].clone()), Some(groups()[7].clone())] {
                v.push(IfFragments { conditionals: vec![a.clone(), b.clone()], else_branch: else_branch.clone() });
                v.push(IfFragments { conditionals: vec![a.clone()], else_branch });
            }
        }
    }
    v
}

fn kinds() -> Vec<CompoundCommandKind<String, String, u32>> {
    use CompoundCommandKind::*;
    let c = [vec![], vec![1], vec![2], vec![1, 2]];
    let mut v = Vec::new();
    let mut pairs = Vec::new();
    for guard in &c {
        v.push(Brace(guard.clone()));
        v.push(Subshell(guard.clone()));
        for body in &c {
            pairs.push(GuardBodyPair { guard: guard.clone(), body: body.clone() });
        }
    }
    let strings = |s: &[&str]| s.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    for p in &pairs {
        v.push(While(p.clone()));
        v.push(Until(p.clone()));
        for q in &pairs {
            for e in [None, Some(vec![]), Some(vec![1])] {
                v.push(If { conditionals: vec![p.clone(), q.clone()], else_branch: e.clone() });
                v.push(If { conditionals: vec![q.clone()], else_branch: e });
            }
        }
    }
    for b in &c {
        for w in ["i", "j"] {
            for words in [None, Some(vec![]), Some(strings(&["a"])), Some(strings(&["a", "b"]))] {
                v.push(For { var: w.to_string(), words, body: b.clone() });
            }
            for p in [strings(&[]), strings(&["a"]), strings(&["a", "b"])] {
                let arm = PatternBodyPair { patterns: p, body: b.clone() };
                v.push(Case { word: w.to_string(), arms: vec![arm.clone()] });
                v.push(Case { word: w.to_string(), arms: vec![arm.clone(), arm] });
            }
            v.push(Case { word: w.to_string(), arms: vec![] });
        }
    }
    v
}

fn simples() -> Vec<SimpleCommand<String, String, u32>> {
    use RedirectOrCmdWord as C;
    use RedirectOrEnvVar as E;
    let s = |x: &str| x.to_string();
    let pre = [E::Redirect(1), E::Redirect(2), E::EnvVar(s("a"), None), E::EnvVar(s("a"), Some(s("x"))), E::EnvVar(s("b"), None), E::EnvVar(s("a"), Some(s("")))];
    let post = [C::Redirect(1), C::Redirect(2), C::CmdWord(s("a")), C::CmdWord(s("b"))];
    let mut pres = vec![vec![]];
    let mut posts = vec![vec![]];
    for a in &pre {
        pres.push(vec![a.clone()]);
        pres.extend(pre.iter().map(|b| vec![a.clone(), b.clone()]));
    }
    for a in &post {
        posts.push(vec![a.clone()]);
        posts.extend(post.iter().map(|b| vec![a.clone(), b.clone()]));
    }
    pres.iter()
        .flat_map(|p| posts.iter().map(move |q| SimpleCommand { redirects_or_env_vars: p.clone(), redirects_or_cmd_words: q.clone() }))
        .collect()
}

fn lists() -> Vec<AndOrList<ListableCommand<u32>>> {
    use ListableCommand::*;
    let l = [Single(1), Single(2), Pipe(false, vec![1]), Pipe(true, vec![1]), Pipe(false, vec![1, 2]), Pipe(true, vec![])];
    let mut v = Vec::new();
    for first in &l {
        v.push(AndOrList { first: first.clone(), rest: vec![] });
        for a in &l {
            let a = [AndOr::And(a.clone()), AndOr::Or(a.clone())];
            for a in &a {
                v.push(AndOrList { first: first.clone(), rest: vec![a.clone()] });
                v.push(AndOrList { first: first.clone(), rest: vec![a.clone(), AndOr::Or(l[0].clone())] });
            }
        }
    }
    v
}

fn tree_words<S: Clone>(subst: Vec<SimpleWord<String, DefaultParameter, S>>) -> Vec<ComplexWord<Word<String, SimpleWord<String, DefaultParameter, S>>>> {
    use SimpleWord::*;
    let s = |x: &str| x.to_string();
    let mut simple = vec![Star, Question, SquareOpen, SquareClose, Tilde, Colon];
    simple.extend(subst);
    for x in ["", "a", "b", "*"] {
        simple.extend([Literal(s(x)), Escaped(s(x)), Param(Parameter::Var(s(x)))]);
    }
    let mut words = Vec::new();
    for x in &simple {
        words.extend([Word::Simple(x.clone()), Word::DoubleQuoted(vec![x.clone()]), Word::DoubleQuoted(vec![x.clone(), Star])]);
    }
    words.extend(["", "a", "b"].map(|x| Word::SingleQuoted(s(x))));
    words.push(Word::DoubleQuoted(vec![]));
    let mut v = vec![ComplexWord::Concat(vec![])];
    for x in &words {
        v.extend([ComplexWord::Single(x.clone()), ComplexWord::Concat(vec![x.clone()]), ComplexWord::Concat(vec![words[0].clone(), x.clone()])]);
    }
    v
}

/// Words wrapped, directly and inside a substitution.
macro_rules! top_words {
    ($W:ident) => {{
        let one = |w: ComplexWord<_>| $W(w);
        let inner = || [Word::Simple(SimpleWord::Star), Word::SingleQuoted("a".to_string())];
        let mut subst = vec![SimpleWord::Subst(Box::new(ParameterSubstitution::Len(Parameter::At)))];
        for w in inner() {
            for w in [ComplexWord::Single(w.clone()), ComplexWord::Concat(vec![w])] {
                subst.push(SimpleWord::Subst(Box::new(ParameterSubstitution::Default(true, Parameter::At, Some(one(w))))));
            }
        }
        tree_words(subst).into_iter().map(one).collect::<Vec<$W<String>>>()
    }};
}

/// Commands wrapped, of every shape of list.
macro_rules! top_commands {
    ($C:ident, $W:ident) => {{
        let simple = |s: &str| {
            let w = $W(ComplexWord::Single(Word::Simple(SimpleWord::Literal(s.to_string()))));
            PipeableCommand::Simple(Box::new(SimpleCommand { redirects_or_env_vars: vec![], redirects_or_cmd_words: vec![RedirectOrCmdWord::CmdWord(w)] }))
        };
        let mut pipes = Vec::new();
        for s in ["a", "b"] {
            pipes.push(ListableCommand::Single(simple(s)));
            for bang in [false, true] {
                pipes.push(ListableCommand::Pipe(bang, vec![]));
                pipes.push(ListableCommand::Pipe(bang, vec![simple(s)]));
                pipes.push(ListableCommand::Pipe(bang, vec![simple(s), simple("a")]));
            }
        }
        let mut v: Vec<$C<String>> = Vec::new();
        for first in &pipes {
            v.push($C(Command::List(AndOrList { first: first.clone(), rest: vec![] })));
            v.push($C(Command::Job(AndOrList { first: first.clone(), rest: vec![] })));
            for next in &pipes {
                v.push($C(Command::List(AndOrList { first: first.clone(), rest: vec![AndOr::And(next.clone())] })));
                v.push($C(Command::Job(AndOrList { first: first.clone(), rest: vec![AndOr::Or(next.clone())] })));
            }
        }
        for s in ["a", "b"] {
            for inner in v.iter().take(4).cloned().collect::<Vec<_>>() {
                for kind in [CompoundCommandKind::Brace(vec![inner.clone()]), CompoundCommandKind::Subshell(vec![inner.clone()])] {
                    let comp = CompoundCommand { kind, io: vec![] };
                    let one = |x| AndOrList { first: ListableCommand::Single(x), rest: vec![] };
                    v.push($C(Command::List(one(PipeableCommand::Compound(Box::new(comp.clone()))))));
                    v.push($C(Command::List(one(PipeableCommand::FunctionDef(s.to_string(), comp.into())))));
                }
            }
        }
        v
    }};
}

fn holders<T: PartialEq + Clone + Key + Debug>(what: &str, v: Vec<T>, k: usize, cx: &mut Cx, f: fn(&T, &T) -> Res) -> Res {
    if let Some(a) = v.get(k) {
        for b in &v {
            f(a, b)?;
        }
    }
    pairs(what, v, k, cx)
}

/// Text: the name of a list of values, a blank, an index into it.
pub fn c24_hand(text: &str, cx: &mut Cx) -> Res {
    let (what, k) = match text.split_once(' ').map(|(a, b)| (a, b.parse::<usize>())) {
        Some((a, Ok(k))) => (a, k),
        _ => return Ok(()),
    };
    let w = what;
    guarded(|| match what {
        "tokens" => pairs(w, some_tokens(), k, cx),
        "positions" => pairs(w, some_positions(), k, cx),
        "errors" => {
            let v = some_errors();
            // The error of a builder stays reachable; nothing else has a cause.
            #[allow(deprecated)]
            if let Some(e) = v.get(k) {
                let want = match e {
                    ParseError::Custom(i) => Some(i.clone()),
                    _ => None,
                };
                let got = e.cause().map(|c| c.downcast_ref_inj());
                if got != want.clone().map(Some) {
                    bad!("the cause of {:?} is {:?}", e, got);
                }
            }
            pairs(w, v, k, cx)
        }
        "delimiters" => pairs(w, some_delimiters(), k, cx),
        "parameters" => pairs(w, some_parameters(), k, cx),
        "arithmetic" => pairs(w, some_arithmetic(&operands()), k, cx),
        "substitutions" => pairs(w, some_substitutions(), k, cx),
        "tree-substitutions" => pairs(w, tree_substitutions(), k, cx),
        "redirects" => pairs(w, some_redirects(), k, cx),
        "tree-redirects" => pairs(w, tree_redirects(), k, cx),
        "groups" => pairs(w, groups(), k, cx),
        "guards" => pairs(w, guards(), k, cx),
        "fors" => pairs(w, fors(), k, cx),
        "arms" => pairs(w, arms(), k, cx),
        "cases" => pairs(w, cases(), k, cx),
        "ifs" => pairs(w, ifs(), k, cx),
        "kinds" => pairs(w, kinds(), k, cx),
        "simples" => pairs(w, simples(), k, cx),
        "lists" => pairs(w, lists(), k, cx),
        "separators" => pairs(w, vec![SeparatorKind::Semi, SeparatorKind::Amp, SeparatorKind::Newline, SeparatorKind::Other], k, cx),
        "loops" => pairs(w, vec![LoopKind::While, LoopKind::Until], k, cx),
        "words" => {
            use SimpleWordKind::*;
            let s = |x: &str| x.to_string();
            let mut simple: Vec<SimpleWordKind<u32>> = vec![Star, Question, SquareOpen, SquareClose, Tilde, Colon];
            for x in ["", "a", "b", "*"] {
                simple.extend([Literal(s(x)), Escaped(s(x)), Param(Parameter::Var(s(x)))]);
            }
            simple.extend(some_substitutions().into_iter().take(12).map(|x| match x {
                ParameterSubstitutionKind::Command(c) => CommandSubst(c),
                _ => Subst(Box::new(ParameterSubstitutionKind::Len(Parameter::At))),
            }));
            let mut words = Vec::new();
            for x in &simple {
                words.extend([WordKind::Simple(x.clone()), WordKind::DoubleQuoted(vec![x.clone()]), WordKind::DoubleQuoted(vec![x.clone(), Star])]);
            }
            words.extend(["", "a", "b"].map(|x| WordKind::SingleQuoted(s(x))));
            words.push(WordKind::DoubleQuoted(vec![]));
            let mut v = Vec::new();
            for x in &words {
                v.extend([ComplexWordKind::Single(x.clone()), ComplexWordKind::Concat(vec![x.clone()]), ComplexWordKind::Concat(vec![words[0].clone(), x.clone()])]);
            }
            pairs(w, v, k, cx)
        }
        "tree-words" => pairs(w, tree_words(vec![SimpleWord::Subst(1u32), SimpleWord::Subst(2)]), k, cx),
        "wrapped-words" => holders(w, top_words!(TopLevelWord), k, cx, wrapped_word),
        "wrapped-words-atomic" => holders(w, top_words!(AtomicTopLevelWord), k, cx, awrapped_word),
        "wrapped-commands" => holders(w, top_commands!(TopLevelCommand, TopLevelWord), k, cx, wrapped),
        "wrapped-commands-atomic" => holders(w, top_commands!(AtomicTopLevelCommand, AtomicTopLevelWord), k, cx, awrapped),
        _ => Ok(()),
    })?
}

/// The lists of values made by hand.
pub const BY_HAND: &[&str] = &[
    "tokens", "positions", "errors", "delimiters", "parameters", "arithmetic", "substitutions", "tree-substitutions", "redirects", "tree-redirects", "groups", "guards", "fors", "arms",
    "cases", "ifs", "kinds", "simples", "lists", "separators", "loops", "words", "tree-words", "wrapped-words",
    "wrapped-words-atomic", "wrapped-commands", "wrapped-commands-atomic",
];

pub fn hand_len(name: &str) -> usize {
    match c24_hand(&format!("{} {}", name, usize::MAX), &mut Cx::default()) {
        Err(e) => e.parse().unwrap_or_else(|_| panic!("{}: {}", name, e)),
        Ok(()) => panic!("no values called {}", name),
    }
}

trait AsInj {
    fn downcast_ref_inj(&self) -> Option<Inj>;
}
impl AsInj for dyn Error + '_ {
    /// The error may borrow, so it is recognised by its text.
    fn downcast_ref_inj(&self) -> Option<Inj> {
        self.to_string().strip_prefix("injected<").and_then(|s| s.strip_suffix('>')).and_then(|n| n.parse().ok()).map(Inj)
    }
}
