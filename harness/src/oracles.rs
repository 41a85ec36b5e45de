//! The oracles: each decides one property on one input.

use crate::corpus;
use crate::engine::*;
use crate::lexref;
use crate::model::{Gap, Model};
use crate::ops::{self, Op};
use crate::run::*;
use crate::tree::*;
use crate::unfold;
use conch_parser::ast::builder::{ArcBuilder, Builder, CoreBuilder, EmptyBuilder, Newline as Nl, RcBuilder, StringBuilder};
use conch_parser::ast::builder::{CommandGroup, ComplexWordKind, ParameterSubstitutionKind, SimpleWordKind, WordKind};
use conch_parser::ast::{DefaultParameter, Parameter, ShellCompoundCommand, TopLevelCommand, TopLevelWord};
use conch_parser::lexer::Lexer;
use conch_parser::parse::{ParseError, Parser, SourcePos};
use conch_parser::token::{Positional, Token};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;

pub type Res = Result<(), String>;

pub fn oracle(f: impl Fn(&str, &mut Cx) -> Res + Send + Sync + 'static) -> Oracle {
    Arc::new(f)
}

macro_rules! bad {
    ($($t:tt)*) => { return Err(format!($($t)*)) }
}

/// Runs both sides and notes what was covered.
pub fn both(text: &str, cx: &mut Cx) -> (Out, ModelOut) {
    let i = imp(text);
    let m = model(text);
    note(text, cx, &i, &m);
    (i, m)
}

pub fn note(text: &str, cx: &mut Cx, i: &Out, m: &ModelOut) {
    cx.evals += 1;
    cx.configs(&m.configs);
    let k = kind_name(i.kind());
    cx.outcome(k, text);
    if i.err.is_some() && !i.eof && !m.hit_end && m.seen < cx.cut && i.pulled <= text[..cx.cut].chars().count() {
        cx.closed = true;
    }
}

/// The real parser does what the reference parser does, as far as the facets go.
pub fn conform(facets: u32) -> Oracle {
    oracle(move |text, cx| {
        let (mut i, mut m) = both(text, cx);
        if known_separator(&i, &m) {
            return Ok(());
        }
        match diff(&mut i, &mut m.out, facets) {
            Some(d) => Err(d),
            None => Ok(()),
        }
    })
}

/// Known finding C06-1 repaired: a command directly followed by an opening parenthesis is rejected there.
fn known_separator(i: &Out, m: &ModelOut) -> bool {
    match (&i.err, m.unseparated) {
        (Some(ParseError::Unexpected(Token::ParenOpen, p)), Some(q)) => *p == q,
        _ => false,
    }
}

// ---- lexer ------------------------------------------------------------------------------------------------------

fn lex_note(text: &str, cx: &mut Cx, toks: &[Token]) {
    cx.evals += 1;
    let mut prev = 0u64;
    let mut conf = Vec::with_capacity(toks.len() + 1);
    for t in toks {
        let k = crate::model::kind_no(t) as u64;
        conf.push((prev * 1009 + k + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15));
        prev = k + 1;
    }
    cx.configs(&conf);
    cx.outcome(
        match toks.len() {
            0 => "no tokens",
            1 => "one token",
            2 => "two tokens",
            _ => "more tokens",
        },
        text,
    );
}

pub fn c01(text: &str, cx: &mut Cx) -> Res {
    let toks: Vec<Token> = guarded(|| Lexer::new(text.chars()).collect()).map_err(|e| format!("panicked: {}", e))?;
    lex_note(text, cx, &toks);
    let mut at = 0;
    for t in &toks {
        let s = t.to_string();
        if s != t.as_str() {
            bad!("token {:?} is written {:?} and {:?}", t, s, t.as_str());
        }
        if s.is_empty() || t.is_empty() || t.len() == 0 {
            bad!("an empty token {:?} at byte {}", t, at);
        }
        if t.len() != s.len() {
            bad!("token {:?} reports length {}", t, t.len());
        }
        if !text[at..].starts_with(&s) {
            bad!("at byte {} the token {:?} does not stand for the text {:?}", at, t, &text[at..]);
        }
        at += s.len();
    }
    if at != text.len() {
        bad!("the tokens end at byte {} of {}", at, text.len());
    }
    Ok(())
}

pub fn c02(text: &str, cx: &mut Cx) -> Res {
    let toks: Vec<Token> = guarded(|| Lexer::new(text.chars()).collect()).map_err(|e| format!("panicked: {}", e))?;
    lex_note(text, cx, &toks);
    let want = lexref::tokens(text);
    if toks != want {
        bad!("tokens {:?}, but should be {:?}", toks, want);
    }
    Ok(())
}

/// A source that ends after a number of characters, and later goes on.
#[derive(Clone)]
pub struct Resuming<T> {
    v: Vec<T>,
    i: usize,
    stop: usize,
    told: bool,
}
impl<T: Clone> Iterator for Resuming<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i == self.stop && !self.told {
            self.told = true;
            return None;
        }
        self.i += 1;
        self.v.get(self.i - 1).cloned()
    }
}

#[derive(Clone)]
struct Hinted {
    v: Vec<char>,
    i: usize,
    kind: u8,
    pulled: Rc<Cell<usize>>,
}
impl Iterator for Hinted {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let c = self.v.get(self.i).copied();
        if c.is_some() {
            self.i += 1;
            self.pulled.set(self.pulled.get().max(self.i));
        }
        c
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v.len() - self.i;
        match self.kind {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n)),
            3 => (n, None),
            _ => (n / 2, Some(n + 1000)),
        }
    }
}

pub fn c03(text: &str, cx: &mut Cx) -> Res {
    let want = lexref::tokens(text);
    lex_note(text, cx, &want);
    let chars: Vec<char> = text.chars().collect();
    let r = guarded(|| -> Res {
        // Size hints, for sources giving hints of different quality; clones; laziness; end.
        for kind in 0..5u8 {
            let pulled = Rc::new(Cell::new(0));
            let mut l = Lexer::new(Hinted { v: chars.clone(), i: 0, kind, pulled: pulled.clone() });
            let mut got: Vec<Token> = Vec::new();
            let mut chars_out = 0;
            loop {
                let (lo, hi) = l.size_hint();
                let before = pulled.get();
                let rest: Vec<Token> = l.clone().collect();
                pulled.set(before);
                if lo > rest.len() || hi.map_or(false, |h| h < rest.len()) {
                    bad!("size hint {:?} with {} tokens to come, after {} tokens (source hint kind {})", (lo, hi), rest.len(), got.len(), kind);
                }
                if rest.len() > 2 * chars.len() {
                    bad!("{} tokens for {} characters", rest.len(), chars.len());
                }
                let mut c = l.clone();
                let t = l.next();
                if rest.first() != t.as_ref() || c.next() != t {
                    bad!("a clone yields {:?}, the lexer {:?} after {} tokens", rest.first(), t, got.len());
                }
                let rest2: Vec<Token> = l.clone().collect();
                if rest2.as_slice() != rest.get(1..).unwrap_or(&[]) {
                    bad!("a clone yields {:?} after {} tokens, but the lexer {:?}", rest, got.len(), rest2);
                }
                pulled.set(before.max(chars_out));
                match t {
                    None => break,
                    Some(t) => {
                        // measure laziness on a fresh lexer, as cloning disturbs the counter
                        chars_out += t.as_str().chars().count();
                        got.push(t);
                    }
                }
            }
            for _ in 0..3 {
                if let Some(t) = l.next() {
                    bad!("yields {:?} after the end", t);
                }
                let (lo, _) = l.size_hint();
                if lo != 0 {
                    bad!("promises {} tokens after the end", lo);
                }
            }
        }
        // Laziness.
        let pulled = Rc::new(Cell::new(0));
        let mut l = Lexer::new(Hinted { v: chars.clone(), i: 0, kind: 0, pulled: pulled.clone() });
        let mut out = 0;
        let mut line_end = chars.iter().position(|&c| c == '\n').map_or(chars.len(), |p| p + 1);
        while let Some(t) = l.next() {
            out += t.as_str().chars().count();
            if pulled.get() > line_end && out <= line_end {
                bad!("pulled {} characters to yield {:?}, although its line ends after {}", pulled.get(), t, line_end);
            }
            while out >= line_end && line_end < chars.len() {
                line_end = chars[line_end..].iter().position(|&c| c == '\n').map_or(chars.len(), |p| line_end + p + 1);
            }
        }
        // A source that resumes: the end stays the end.
        for stop in 0..=chars.len() {
            let prefix: String = chars[..stop].iter().collect();
            let mut l = Lexer::new(Resuming { v: chars.clone(), i: 0, stop, told: false });
            let mut got = Vec::new();
            while let Some(t) = l.next() {
                got.push(t);
                if got.len() > 2 * chars.len() + 2 {
                    bad!("endless tokens");
                }
            }
            if got != lexref::tokens(&prefix) && stop <= 60 {
                bad!("tokens {:?} from a source that pauses after {} characters", got, stop);
            }
            for _ in 0..3 {
                if let Some(t) = l.next() {
                    bad!("yields {:?} after reporting the end, when the source (paused after {} characters) resumes", t, stop);
                }
            }
            if stop > 60 {
                break;
            }
        }
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", p)),
    }
}

// ---- termination ------------------------------------------------------------------------------------------------

/// A token written in the notation of the token sequences: `N:`, `L:`, `W:` followed by the text, or the token's own text.
pub fn symbol(s: &str) -> Option<Token> {
    if let Some(x) = s.strip_prefix("N:") {
        return Some(Token::Name(x.to_string()));
    }
    if let Some(x) = s.strip_prefix("L:") {
        return Some(Token::Literal(x.to_string()));
    }
    if let Some(x) = s.strip_prefix("W:") {
        return Some(Token::Whitespace(x.to_string()));
    }
    lexref::tokens(s).into_iter().next()
}

pub const TOK_END: char = '\u{1f}';

/// A token in that notation, ended.
pub fn token_symbol(t: &Token) -> String {
    let kind = match t {
        Token::Name(_) => "N:",
        Token::Literal(_) => "L:",
        Token::Whitespace(_) => "W:",
        _ => "",
    };
    format!("{}{}{}", kind, t.as_str(), TOK_END)
}

pub fn token_text(text: &str) -> Vec<Token> {
    text.split(TOK_END).filter(|s| !s.is_empty()).filter_map(symbol).collect()
}

fn every_entry(toks: &[Token], cx: &mut Cx, everything: bool) -> Res {
    let run = |ops: &[Op]| ops::imp_run(toks.iter().cloned(), ops, true, 2 * toks.len());
    for &op in ops::ALL.iter().chain(ops::MORE) {
        cx.evals += 1;
        if let Err(p) = run(&[op]) {
            bad!("{:?}, then the rest as commands: {}", op, p);
        }
    }
    if !everything {
        return Ok(());
    }
    // An error does not make later calls panic or loop.
    let r = guarded(|| {
        let mut p = Parser::with_builder(toks.iter().cloned(), Rec::default());
        let mut errs = 0;
        for _ in 0..4 * toks.len() + 20 {
            match p.complete_command() {
                Ok(Some(_)) => {}
                Ok(None) => return,
                Err(_) => errs += 1,
            }
            if errs > 6 {
                return;
            }
        }
        panic!("endless commands");
    });
    if let Err(p) = r {
        bad!("going on after an error: {}", p);
    }
    let r = guarded(|| {
        let n = Parser::<_, StringBuilder>::new(toks.iter().cloned()).into_iter().take(2 * toks.len() + 10).count();
        let m = Parser::<_, EmptyBuilder>::new(toks.iter().cloned()).into_iter().take(2 * toks.len() + 10).count();
        if n > 2 * toks.len() + 8 || m > 2 * toks.len() + 8 {
            panic!("endless commands");
        }
    });
    if let Err(p) = r {
        bad!("with the default builder: {}", p);
    }
    Ok(())
}

pub fn c04_text(text: &str, cx: &mut Cx) -> Res {
    let i = imp(text);
    let m = model(text);
    note(text, cx, &i, &m);
    if let Some(p) = i.panic {
        bad!("complete_command: {}", p);
    }
    let toks: Vec<Token> = guarded(|| Lexer::new(text.chars()).collect()).map_err(|p| format!("lexer: {}", p))?;
    every_entry(&toks, cx, true)
}

pub fn c04_program(text: &str, cx: &mut Cx) -> Res {
    let i = imp(text);
    let m = model(text);
    note(text, cx, &i, &m);
    if let Some(p) = i.panic {
        bad!("complete_command: {}", p);
    }
    Ok(())
}

pub fn c04_tokens(text: &str, cx: &mut Cx) -> Res {
    let toks = token_text(text);
    let i = imp_tokens(&toks);
    cx.evals += 1;
    cx.outcome(kind_name(i.kind()), text);
    let conf: Vec<u64> = toks
        .windows(2)
        .map(|w| (crate::model::kind_no(&w[0]) as u64 * 1009 + crate::model::kind_no(&w[1]) as u64).wrapping_mul(0x9E37_79B9))
        .collect();
    cx.configs(&conf);
    if let Some(p) = i.panic {
        bad!("complete_command: {}", p);
    }
    if i.err.is_some() && !i.eof && i.pulled <= token_text(&text[..cx.cut]).len() {
        cx.closed = true;
    }
    every_entry(&toks, cx, false)
}

// ---- positions --------------------------------------------------------------------------------------------------

/// What any position must satisfy, from the text alone.
fn true_position(text: &str, p: SourcePos) -> Res {
    if p.byte > text.len() || !text.is_char_boundary(p.byte) {
        bad!("{:?} is not a place in the text", p);
    }
    let before = &text.as_bytes()[..p.byte];
    let line = 1 + before.iter().filter(|&&b| b == b'\n').count();
    let col = p.byte - before.iter().rposition(|&b| b == b'\n').map_or(0, |k| k + 1) + 1;
    if (p.line, p.col) != (line, col) {
        bad!("{:?}: byte {} is in line {}, column {}", p, p.byte, line, col);
    }
    Ok(())
}

pub fn c05(text: &str, cx: &mut Cx) -> Res {
    let (mut i, mut m) = both(text, cx);
    if known_separator(&i, &m) {
        return Ok(());
    }
    if let Some(d) = diff(&mut i, &mut m.out, POS | ERRPOS) {
        return Err(d);
    }
    for p in i.pos.iter().chain(i.end.iter()) {
        true_position(text, *p)?;
    }
    if let Some(e) = &i.err {
        for p in err_positions(e) {
            true_position(text, p)?;
        }
        match e {
            ParseError::Unexpected(t, p) | ParseError::BadSubst(t, p) | ParseError::Unmatched(t, p) => {
                if !text[p.byte..].starts_with(t.as_str()) {
                    bad!("{:?} does not stand at {:?}", t, p);
                }
            }
            ParseError::BadIdent(s, p) => {
                if !text[p.byte..].starts_with(s.as_str()) {
                    bad!("{:?} does not stand at {:?}", s, p);
                }
            }
            ParseError::IncompleteCmd(c, p, _, _) => {
                if !text[p.byte..].starts_with(c) {
                    bad!("{:?} does not stand at {:?}", c, p);
                }
            }
            _ => {}
        }
    }
    let mut last = 0;
    for p in &i.pos {
        if p.byte < last {
            bad!("the position goes back from byte {} to {:?}", last, p);
        }
        last = p.byte;
    }
    Ok(())
}

/// Operations `ops` (their numbers before the first space), then the rest of the text.
fn split_ops(text: &str) -> Option<(Vec<Op>, &str)> {
    let (a, b) = text.split_at(text.find('\u{1e}')?);
    let v = a
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.parse::<usize>().ok().and_then(ops::decode))
        .collect::<Option<Vec<_>>>()?;
    Some((v, &b[1..]))
}

pub fn with_ops(ops_: &[Op], text: &str) -> String {
    let v: Vec<String> = ops_.iter().map(|o| ops::code(*o).to_string()).collect();
    format!("{}\u{1e}{}", v.join(","), text)
}

/// Operations give what they should, and what follows is parsed as it should be.
pub fn operations(facets: u32) -> Oracle {
    oracle(move |text, cx| {
        let (ops_, text) = match split_ops(text) {
            Some(x) => x,
            None => return Ok(()),
        };
        let mut i = ops::imp_run(Lexer::new(text.chars()), &ops_, true, text.len()).map_err(|p| format!("panicked: {}", p))?;
        let (t, end) = lexref::lex(text);
        let mut m = Model::new(t, end);
        let mut w = ops::model_run(&mut m, &ops_, true);
        cx.evals += 1;
        let conf: Vec<u64> = m.configs.iter().map(|c| c ^ ((ops_.first().map_or(0, |o| ops::code(*o) as u64) + 1) << 50)).collect();
        cx.configs(&conf);
        cx.outcome(if i.last().map_or(false, |s| s.res.is_err()) { "ended with an error" } else { "parsed to the end" }, text);
        match ops::diff_runs(&mut i, &mut w, facets) {
            Some(d) => Err(d),
            None => Ok(()),
        }
    })
}

/// The same on the tokens of some other lexer, as in `token_text`; also complete commands only.
pub fn foreign(facets: u32) -> Oracle {
    oracle(move |text, cx| {
        let (ops_, text) = match split_ops(text) {
            Some(x) => x,
            None => (vec![], text),
        };
        let toks = token_text(text);
        cx.evals += 1;
        let mut i = ops::imp_run(toks.iter().cloned(), &ops_, true, 2 * toks.len()).map_err(|p| format!("panicked: {}", p))?;
        let (t, end) = lexref::place(&toks);
        // Counting along by hand.
        let mut p = SourcePos::new();
        for (k, t) in t.iter().enumerate() {
            if p != t.pos {
                bad!("token {} of {:?} should be at {:?}, but advancing by hand gives {:?}", k + 1, toks, t.pos, p);
            }
            p.advance(&toks[k]);
        }
        if p != end {
            bad!("the end of {:?} should be at {:?}, but advancing by hand gives {:?}", toks, end, p);
        }
        let mut m = Model::new(t, end);
        let mut w = ops::model_run(&mut m, &ops_, true);
        let conf: Vec<u64> = m.configs.iter().map(|c| c ^ ((ops_.first().map_or(0, |o| ops::code(*o) as u64) + 1) << 50)).collect();
        cx.configs(&conf);
        cx.outcome(if i.last().map_or(false, |s| s.res.is_err()) { "ended with an error" } else { "parsed to the end" }, text);
        match ops::diff_runs(&mut i, &mut w, facets) {
            Some(d) => Err(format!("{}\n  tokens {:?}", d, toks)),
            None => Ok(()),
        }
    })
}

/// Looking ahead before every command changes nothing.
pub fn c20_transparent(text: &str, cx: &mut Cx) -> Res {
    let (looks, text) = match split_ops(text) {
        Some(x) => x,
        None => return Ok(()),
    };
    cx.evals += 1;
    let toks = lexref::tokens(text);
    if toks.last() == Some(&Token::Backslash) {
        cx.outcome("ends in a backslash", text); // which makes it a word or none, depending on who looks
        return Ok(());
    }
    let run = |looks: &[Op]| {
        let rec = Rec::default();
        guarded(|| {
            let mut p = Parser::with_builder(toks.iter().cloned(), rec.clone());
            let mut out = Vec::new();
            loop {
                let here = p.pos();
                for &l in looks {
                    let at = p.pos();
                    match ops::imp_op(&mut p, l) {
                        // it found nothing
                        Ok(ops::Value::Unit)
                        | Ok(ops::Value::Tok(_))
                        | Ok(ops::Value::Pc(None))
                        | Ok(ops::Value::Redir(None))
                        | Ok(ops::Value::Nl(None))
                        | Ok(ops::Value::Word(None))
                        | Ok(ops::Value::Str(None)) => {}
                        Ok(ops::Value::Str(_)) if matches!(l, Op::PeekWord | Op::PeekWords(_)) => {}
                        Ok(ops::Value::Redirs(v)) if v.is_empty() => {}
                        Ok(ops::Value::Nls(v)) if v.is_empty() => {}
                        // It found something: nothing to compare.
                        _ => return None,
                    }
                    // Only blanks may have been passed.
                    let passed = &text[at.byte..p.pos().byte];
                    if !passed.replace("\\\n", "").chars().all(|c| c.is_whitespace() && c != '\n') {
                        panic!("{:?} found nothing at {:?}, but passed over {:?}", l, at, passed);
                    }
                }
                let _ = here;
                let r = p.complete_command();
                let stop = !matches!(r, Ok(Some(_)));
                out.push(r);
                if stop {
                    return Some(out);
                }
                if out.len() > text.len() + 10 {
                    panic!("endless commands");
                }
            }
        })
    };
    let plain = run(&[]).map_err(|p| format!("panicked: {}", p))?;
    let looked = run(&looks).map_err(|p| format!("panicked: {}", p))?;
    if let (Some(a), Some(b)) = (plain, looked) {
        cx.outcome("looked ahead", text);
        if a != b {
            bad!("without looking ahead ({:?})\n  {:?}\nwith it\n  {:?}", looks, a, b);
        }
    } else {
        cx.outcome("look-ahead found something", text);
    }
    Ok(())
}

// ---- comments ---------------------------------------------------------------------------------------------------

pub fn c15(text: &str, cx: &mut Cx) -> Res {
    let (mut i, mut m) = both(text, cx);
    if known_separator(&i, &m) {
        return Ok(());
    }
    if let Some(d) = diff(&mut i, &mut m.out, AST | COMMENTS) {
        return Err(d);
    }
    if i.err.is_none() && !text.contains("<<") {
        // From the text alone: the comments are found one after the other, each reaching to the end of its line.
        let mut all = comments_of(&i.cmds);
        all.extend(i.comments.iter().cloned());
        let mut at = 0;
        for c in all {
            if let Nl(Some(c)) = c {
                let line = c.clone();
                let found = text.contains('`') || {
                    let ends = |k: usize| k == text.len() || text[k..].starts_with('\n');
                    let k = text[at..].match_indices(line.as_str()).map(|(k, _)| at + k + line.len()).find(|k| ends(*k));
                    if let Some(k) = k {
                        at = k;
                    }
                    k.is_some()
                };
                if !c.starts_with('#') || c.contains('\n') || !found {
                    bad!("{:?} is not a comment of the text (or out of order)", c);
                }
                cx.count("comments traced to the text", 1);
            }
        }
    }
    Ok(())
}

// ---- layout -----------------------------------------------------------------------------------------------------

fn stripped(mut o: Out) -> (Vec<Cmd>, Option<crate::model::E>, Option<String>) {
    Norm { strip_comments: true, merge_seps: true, ..Norm::default() }.cmds(&mut o.cmds);
    (o.cmds, o.err, o.panic)
}

/// `canonical ␞ variant`: both are accepted and mean the same. Comments inserted are `#…` and found in order.
pub fn same_meaning(check_comments: bool) -> Oracle {
    oracle(move |text, cx| {
        let mut it = text.split('\u{1e}');
        let (a, b) = match (it.next(), it.next()) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(()),
        };
        let inserted: Vec<&str> = it.next().map_or(vec![], |s| s.split('\u{1d}').filter(|s| !s.is_empty()).collect());
        let x = imp(a);
        let (y, m) = both(b, cx);
        if x.err.is_some() || x.panic.is_some() {
            bad!("{:?} is not accepted: {:?} {:?}", a, x.err, x.panic);
        }
        if check_comments {
            let mut got = comments_of(&y.cmds);
            got.extend(y.comments.iter().cloned());
            let got: Vec<&str> = got.iter().filter_map(|n| n.0.as_ref().map(|s| s.as_str())).collect();
            if y.err.is_none() && got != inserted {
                bad!("{:?} has the comments {:?}, but the builder received {:?}", b, inserted, got);
            }
        }
        let _ = m;
        let (x, y) = (stripped(x), stripped(y));
        if y.1.is_some() || y.2.is_some() {
            bad!("{:?} is accepted, but {:?} fails: {:?} {:?}", a, b, y.1, y.2);
        }
        if x.0 != y.0 {
            bad!("{:?} gives\n  {:?}\nbut {:?} gives\n  {:?}", a, x.0, b, y.0);
        }
        Ok(())
    })
}

/// Rewrites the layout of an accepted text at every place where the reference parser says it may be: every blank run, every
/// line break, every `;`. The meaning stays. With `comments`, comments are inserted instead.
pub fn relayout(comments: bool) -> Oracle {
    oracle(move |text, cx| {
        let (x, m) = both(text, cx);
        if m.out.err.is_some() || x.err.is_some() || x.panic.is_some() || m.unseparated.is_some() {
            return Ok(());
        }
        let mut gaps = m.layout.clone();
        gaps.sort();
        gaps.dedup();
        // Where there are blanks, the empty run next to them is no place of its own.
        let runs: Vec<(usize, usize)> = gaps.iter().filter_map(|g| match *g { Gap::Blank(a, b) if b > a => Some((a, b)), _ => None }).collect();
        gaps.retain(|g| !matches!(*g, Gap::Blank(a, b) if a == b && runs.iter().any(|r| r.0 <= a && a <= r.1)));
        // The end of the text may end a comment.
        gaps.retain(|g| !matches!(*g, Gap::Blank(a, b) if a == b && (a == text.len() || text[a..].starts_with('`'))));
        // What is put after a here-document without an end would belong to it.
        gaps.retain(|g| !matches!(*g, Gap::Blank(a, b) if a == b && m.heredocs > 0 && text[..a].ends_with('\n')));
        // A backslash before the place would take effect on what is put there.
        gaps.retain(|g| match *g {
            Gap::Blank(a, _) | Gap::Newline(a) | Gap::Semi(a) => !text[..a].ends_with('\\'),
        });
        if gaps.len() > 80 {
            gaps.drain(40..gaps.len() - 40);
        }
        let told = |o: &Out| -> Vec<String> {
            let mut v = comments_of(&o.cmds);
            v.extend(o.comments.iter().cloned());
            v.into_iter().filter_map(|n| n.0).collect()
        };
        let before = told(&x);
        let base = stripped(x);
        // Replacements: from, to, by.
        let mut one: Vec<(usize, usize, &'static str)> = Vec::new();
        let mut all: Vec<Vec<(usize, usize, &'static str)>> = vec![Vec::new(); 3];
        for g in &gaps {
            match *g {
                _ if comments => {
                    if let Gap::Newline(a) = *g {
                        one.push((a, a, " #x y"));
                        all[0].push((a, a, " #x y"));
                        if !m.heredoc_lines.contains(&a) {
                            one.push((a, a, "\n#x y"));
                            one.push((a, a, " \n\t #x y"));
                            one.push((a + 1, a + 1, "#x y\n"));
                            all[1].push((a, a, "\n #x y\n\n\t#x y"));
                        }
                    }
                }
                Gap::Blank(a, b) => {
                    let joins = text[..a].ends_with(|c: char| c.is_ascii_digit()) && text[b..].starts_with(|c| c == '<' || c == '>');
                    for (k, v) in [" ", "\t  ", " \\\n", "\\\n", "\\\n\\\n ", "\u{b}\u{3000}"].into_iter().enumerate() {
                        // (an escaped newline alone does not keep digits from an operator)
                        if joins && v == "\\\n" {
                            continue;
                        }
                        one.push((a, b, v));
                        if k == 3 || (k == 2 && joins) {
                            all[0].push((a, b, v));
                        }
                        if k == 4 {
                            all[1].push((a, b, v));
                        }
                    }
                }
                Gap::Newline(a) => {
                    if !m.heredoc_lines.contains(&a) {
                        for v in ["\n\n", "\\\n\n", " \n\t\n \\\n"] {
                            one.push((a, a + 1, v));
                        }
                        all[0].push((a, a + 1, "\n\n"));
                        all[2].push((a, a + 1, " \n\\\n\n "));
                    }
                }
                Gap::Semi(a) => {
                    one.push((a, a + 1, " ; "));
                    if m.heredocs == 0 {
                        for v in ["\n", ";\n", " \\\n\n"] {
                            one.push((a, a + 1, v));
                        }
                        all[1].push((a, a + 1, "\n"));
                        all[2].push((a, a + 1, "\\\n;\n \n"));
                    }
                }
            }
        }
        let sets = one.into_iter().map(|r| vec![r]).chain(all.into_iter().filter(|v| v.len() > 1));
        for mut set in sets {
            set.sort();
            let mut t = String::with_capacity(text.len() + 20);
            let mut at = 0;
            let mut n = 0;
            for (a, b, v) in &set {
                if *a < at {
                    continue;
                }
                t.push_str(&text[at..*a]);
                t.push_str(v);
                n += v.matches("#x y").count();
                at = *b;
            }
            t.push_str(&text[at..]);
            if t == text {
                continue;
            }
            let mut y = imp(&t);
            cx.evals += 1;
            cx.nontrivial += 1;
            if comments {
                let after = told(&y);
                let mut kept = after.clone();
                let mut found = 0;
                kept.retain(|c| {
                    let new = c == "#x y";
                    found += new as usize;
                    !new
                });
                if y.err.is_none() && (found != n || kept != before) {
                    bad!("{:?} has the comments {:?}, but the builder receives {:?}", t, before, after);
                }
                if n == 1 {
                    let mut m = model(&t);
                    if let Some(d) = diff(&mut y, &mut m.out, AST | COMMENTS) {
                        bad!("for {:?}: {}", t, d);
                    }
                }
            }
            let y = stripped(y);
            if y.1.is_some() || y.2.is_some() {
                bad!("accepted, but {:?} fails: {:?} {:?}", t, y.1, y.2);
            }
            if y.0 != base.0 {
                bad!("gives\n  {:?}\nbut {:?} gives\n  {:?}", base.0, t, y.0);
            }
        }
        Ok(())
    })
}

// ---- substitutions ----------------------------------------------------------------------------------------------

/// The first command substitution of a tree is taken out (emptied) and returned.
pub fn take_subst(cmds: &mut [Cmd]) -> Option<CommandGroup<Cmd>> {
    struct V(Option<CommandGroup<Cmd>>);
    impl V {
        fn word(&mut self, w: &mut ComplexWordKind<Cmd>) {
            match w {
                ComplexWordKind::Single(k) => self.kind(k),
                ComplexWordKind::Concat(v) => v.iter_mut().for_each(|k| self.kind(k)),
            }
        }
        fn kind(&mut self, k: &mut WordKind<Cmd>) {
            match k {
                WordKind::Simple(s) => self.simple(s),
                WordKind::DoubleQuoted(v) => v.iter_mut().for_each(|s| self.simple(s)),
                _ => {}
            }
        }
        fn simple(&mut self, s: &mut SimpleWordKind<Cmd>) {
            use ParameterSubstitutionKind::*;
            if self.0.is_some() {
                return;
            }
            match s {
                SimpleWordKind::CommandSubst(g) => {
                    self.0 = Some(std::mem::replace(g, CommandGroup { commands: vec![], trailing_comments: vec![] }))
                }
                SimpleWordKind::Subst(b) => match &mut **b {
                    Command(g) => {
                        self.0 = Some(std::mem::replace(g, CommandGroup { commands: vec![], trailing_comments: vec![] }))
                    }
                    Default(_, _, Some(w)) | Assign(_, _, Some(w)) | Error(_, _, Some(w)) | Alternative(_, _, Some(w)) => {
                        self.word(w)
                    }
                    RemoveSmallestSuffix(_, Some(w))
                    | RemoveLargestSuffix(_, Some(w))
                    | RemoveSmallestPrefix(_, Some(w))
                    | RemoveLargestPrefix(_, Some(w)) => self.word(w),
                    _ => {}
                },
                _ => {}
            }
        }
    }
    let mut v = V(None);
    for c in cmds {
        for_words(c, &mut |w| v.word(w));
        if v.0.is_some() {
            break;
        }
    }
    v.0
}

pub const SUBST_CONTEXTS: &[&str] = &[
    "\u{1}",
    "a \u{1} b",
    "a\u{1}b",
    "\"\u{1}\" c",
    "\"a \u{1} b\"",
    "x=\u{1} b",
    ">\u{1} b",
    "${x:-\u{1}} b",
    "\"${x#\u{1}}\"",
    "<<ZZ b\n\u{1}\nZZ\nc",
    "<<ZZ\n\tx \u{1} \nZZ\n",
    "for i in \u{1}; do b; done",
    "case \u{1} in b) c;; esac",
    "case b in \u{1}) c;; esac",
    "{ a | \u{1}; }",
    "a <<E \u{1}\nbody\nE\nc",
];

/// `context ␞ program`: the program yields the same within substitutions as on its own.
pub fn c11_wrap(text: &str, cx: &mut Cx) -> Res {
    let (ctx, prog) = match text.split_once('\u{1e}') {
        Some(x) => x,
        None => return Ok(()),
    };
    if !ctx.contains('\u{1}') {
        return Ok(());
    }
    // Let the program's last line be ended, so that a comment or here-document there is.
    let prog = format!("{}\n", prog);
    let mut alone = imp(&prog);
    cx.evals += 1;
    if alone.panic.is_some() || alone.err.is_some() {
        cx.outcome("program itself is rejected", text);
        return Ok(());
    }
    let toks = lexref::tokens(&prog);
    if toks.iter().rev().skip(1).take_while(|t| **t == Token::Backslash).count() % 2 == 1 {
        return Ok(()); // the added newline was escaped
    }
    let mut trailing = std::mem::take(&mut alone.comments);
    let norm = Norm::default();
    norm.cmds(&mut alone.cmds);
    // Without commands, all the blank lines and comments are left over.
    if alone.cmds.is_empty() && trailing.is_empty() {
        trailing = vec![];
    }
    let open_heredoc = prog.contains("<<") && model(&prog).open_heredoc;
    let forms = [format!("$({})", prog), corpus::backquoted(&prog), corpus::backquoted(&format!("$({})", prog)), format!("$({})", corpus::backquoted(&prog)), corpus::backquoted(&corpus::backquoted(&prog))];
    for (k, f) in forms.iter().enumerate() {
        if prog.starts_with('(') && f.starts_with("$((") {
            continue;
        }
        if k == 2 && prog.starts_with('(') {
            continue;
        }
        if open_heredoc && (k == 0 || k == 2) {
            continue; // it goes on beyond the parenthesis
        }
        let whole = corpus::fill(ctx, f);
        let mut o = imp(&whole);
        let blank = corpus::fill(ctx, if f.starts_with('`') { "`z`" } else { "$(z)" });
        let mut z = imp(&blank);
        cx.evals += 2;
        if z.err.is_some() || z.panic.is_some() {
            bad!("{:?} is not accepted: {:?}", blank, z.err);
        }
        // Known finding: where a command on a here-document operator's line spans several lines, the end of that
        // line is sought by balancing brackets and quotes, whatever they mean there.
        if k == 0 && ctx.starts_with("a <<E") && ["#", "<<", "case"].iter().any(|x| prog.contains(x)) {
            match diff(&mut o, &mut model(&whole).out, AST) {
                Some(d) => return Err(d),
                None => {
                    cx.count("skipped: known finding", 1);
                    continue;
                }
            }
        }
        if o.err.is_some() || o.panic.is_some() {
            bad!("{:?} is accepted, but {:?} is not: {:?} {:?}", prog, whole, o.err, o.panic);
        }
        norm.cmds(&mut o.cmds);
        norm.cmds(&mut z.cmds);
        let mut g = match take_subst(&mut o.cmds) {
            Some(g) => g,
            None => bad!("{:?} has no substitution", whole),
        };
        take_subst(&mut z.cmds);
        if o.cmds != z.cmds || o.comments != z.comments {
            bad!("around the substitution, {:?} gives\n  {:?}\nbut {:?} gives\n  {:?}", whole, o.cmds, blank, z.cmds);
        }
        if k >= 2 {
            // unwrap the inner level
            g = match take_subst(&mut g.commands) {
                Some(g) => g,
                None => bad!("{:?} has no inner substitution", whole),
            };
        }
        if g.commands != alone.cmds || g.trailing_comments != trailing {
            bad!(
                "{:?} alone gives\n  {:?} {:?}\nbut within {:?}\n  {:?} {:?}",
                prog, alone.cmds, trailing, whole, g.commands, g.trailing_comments
            );
        }
        cx.outcome("same within a substitution", text);
    }
    let m = model(&corpus::fill(ctx, &forms[0]));
    cx.configs(&m.configs);
    Ok(())
}

// ---- builders ---------------------------------------------------------------------------------------------------

type Core = CoreBuilder<
    String,
    TopLevelWord<String>,
    TopLevelCommand<String>,
    Rc<ShellCompoundCommand<String, TopLevelWord<String>, TopLevelCommand<String>>>,
>;

struct Run<C> {
    cmds: Vec<C>,
    pos: Vec<SourcePos>,
    err: Option<ParseError<()>>,
}

fn run_with<B: Builder>(text: &str, b: B) -> Result<Run<B::Command>, String> {
    guarded(|| {
        let mut p = Parser::with_builder(Lexer::new(text.chars()), b);
        let mut r = Run { cmds: vec![], pos: vec![], err: None };
        loop {
            let x = p.complete_command();
            r.pos.push(p.pos());
            match x {
                Ok(Some(c)) => r.cmds.push(c),
                Ok(None) => return r,
                Err(e) => {
                    r.err = Some(match e {
                        ParseError::Custom(_) => ParseError::Custom(()),
                        ParseError::BadFd(a, b) => ParseError::BadFd(a, b),
                        ParseError::BadIdent(a, b) => ParseError::BadIdent(a, b),
                        ParseError::BadSubst(a, b) => ParseError::BadSubst(a, b),
                        ParseError::Unmatched(a, b) => ParseError::Unmatched(a, b),
                        ParseError::IncompleteCmd(a, b, c, d) => ParseError::IncompleteCmd(a, b, c, d),
                        ParseError::Unexpected(a, b) => ParseError::Unexpected(a, b),
                        ParseError::UnexpectedEOF => ParseError::UnexpectedEOF,
                    });
                    return r;
                }
            }
            if r.cmds.len() > text.len() + 10 {
                panic!("endless commands");
            }
        }
    })
}

pub fn c17(text: &str, cx: &mut Cx) -> Res {
    let m = model(text);
    let i = imp(text);
    note(text, cx, &i, &m);
    let names = |r: &Rec| r.0.borrow().names.clone().unwrap_or_default();
    let fresh = || {
        let r = Rec::default();
        r.0.borrow_mut().names = Some(Vec::new());
        r
    };
    let p = |e: String| format!("panicked: {}", e);
    let r0 = fresh();
    let base = run_with(text, r0.clone()).map_err(p)?;
    let same = |what: &str, n: usize, pos: &[SourcePos], err: &Option<ParseError<()>>| -> Res {
        if n != base.cmds.len() || pos != base.pos.as_slice() || err != &base.err {
            bad!(
                "a recording builder sees {} commands, positions {:?}, {:?};\n{} sees {} commands, positions {:?}, {:?}",
                base.cmds.len(), base.pos, base.err, what, n, pos, err
            );
        }
        Ok(())
    };
    // By reference and boxed.
    let mut r1 = fresh();
    let x = run_with(text, &mut r1).map_err(p)?;
    same("the same builder by mutable reference", x.cmds.len(), &x.pos, &x.err)?;
    if x.cmds != base.cmds || names(&r1) != names(&r0) || r1.0.borrow().comments != r0.0.borrow().comments {
        bad!("a builder used by mutable reference receives something else: {:?} {:?}", base.cmds, x.cmds);
    }
    let r2 = fresh();
    let x = run_with(text, Box::new(r2.clone())).map_err(p)?;
    same("the same builder boxed", x.cmds.len(), &x.pos, &x.err)?;
    if x.cmds != base.cmds || names(&r2) != names(&r0) || r2.0.borrow().comments != r0.0.borrow().comments {
        bad!("a boxed builder receives something else: {:?} {:?}", base.cmds, x.cmds);
    }
    let x = run_with(text, EmptyBuilder::new()).map_err(p)?;
    same("the empty builder", x.cmds.len(), &x.pos, &x.err)?;
    // The default trees.
    let d = run_with(text, StringBuilder::new()).map_err(p)?;
    same("the default builder", d.cmds.len(), &d.pos, &d.err)?;
    let norm = Norm { strip_comments: true, merge_seps: true, merge_quotes: true, merge_substs: true };
    for (k, (c, r)) in d.cmds.iter().zip(&base.cmds).enumerate() {
        let mut u = unfold::command(c).map_err(|e| format!("command {}: {}", k + 1, e))?;
        let mut r = r.clone();
        norm.cmd(&mut u);
        norm.cmd(&mut r);
        if u != r {
            bad!("the parser reported command {}\n  {:?}\nbut the default tree holds\n  {:?}", k + 1, r, u);
        }
    }
    let b = run_with(text, Core::new()).map_err(p)?;
    same("the core builder", b.cmds.len(), &b.pos, &b.err)?;
    if b.cmds != d.cmds {
        bad!("the core builder makes\n  {:?}\nthe default builder\n  {:?}", b.cmds, d.cmds);
    }
    let ds = format!("{:?}", d.cmds);
    let b = run_with(text, RcBuilder::new()).map_err(p)?;
    same("the Rc builder", b.cmds.len(), &b.pos, &b.err)?;
    if format!("{:?}", b.cmds) != ds {
        bad!("the Rc tree is\n  {:?}\nthe default tree\n  {:?}", b.cmds, d.cmds);
    }
    let b = run_with(text, ArcBuilder::new()).map_err(p)?;
    same("the Arc builder", b.cmds.len(), &b.pos, &b.err)?;
    if format!("{:?}", b.cmds).replace("AtomicTopLevel", "TopLevel") != ds.replace("AtomicTopLevel", "TopLevel") {
        bad!("the Arc tree is\n  {:?}\nthe default tree\n  {:?}", b.cmds, d.cmds);
    }
    Ok(())
}

/// A word of the given parts, one symbol each: `'` single-quoted pieces `q` `r` `0`, `"` opens and closes double quotes.
fn parts<C>(code: &str) -> ComplexWordKind<C> {
    let nothing = || CommandGroup { commands: vec![], trailing_comments: vec![] };
    let one = |c: char| match c {
        'e' => SimpleWordKind::Escaped("e".to_string()),
        'p' => SimpleWordKind::Param(Parameter::Positional(1)),
        '*' => SimpleWordKind::Star,
        '?' => SimpleWordKind::Question,
        '[' => SimpleWordKind::SquareOpen,
        ']' => SimpleWordKind::SquareClose,
        '~' => SimpleWordKind::Tilde,
        ':' => SimpleWordKind::Colon,
        'S' => {
            let w = ComplexWordKind::Concat(vec![
                WordKind::Simple(SimpleWordKind::Literal("x".to_string())),
                WordKind::Simple(SimpleWordKind::Literal("y".to_string())),
            ]);
            SimpleWordKind::Subst(Box::new(ParameterSubstitutionKind::Default(true, Parameter::At, Some(w))))
        }
        'C' => SimpleWordKind::CommandSubst(nothing()),
        'D' => SimpleWordKind::Subst(Box::new(ParameterSubstitutionKind::Command(nothing()))),
        c => SimpleWordKind::Literal(if c == '_' { String::new() } else { c.to_string() }),
    };
    let mut v = Vec::new();
    let mut open: Option<Vec<SimpleWordKind<C>>> = None;
    for c in code.chars() {
        match (c, &mut open) {
            ('"', None) => open = Some(vec![]),
            ('"', Some(_)) => v.extend(open.take().map(WordKind::DoubleQuoted)),
            (c, Some(o)) => o.push(one(c)),
            ('q', _) | ('r', _) => v.push(WordKind::SingleQuoted(c.to_string())),
            ('0', _) => v.push(WordKind::SingleQuoted(String::new())),
            (c, None) => v.push(WordKind::Simple(one(c))),
        }
    }
    v.extend(open.map(WordKind::DoubleQuoted));
    if v.len() == 1 {
        ComplexWordKind::Single(v.pop().unwrap())
    } else {
        ComplexWordKind::Concat(v)
    }
}

/// The default builders given a word that a parser need not have made.
pub fn c17_words(code: &str, cx: &mut Cx) -> Res {
    cx.evals += 1;
    if code.is_empty() {
        return Ok(());
    }
    let mut want: ComplexWordKind<Cmd> = parts(code);
    let norm = Norm { strip_comments: true, merge_seps: true, merge_quotes: true, merge_substs: true };
    norm.word(&mut want);
    let made = guarded(|| Core::new().word(parts(code)).map_err(|_| "a builder error".to_string()))
        .map_err(|e| format!("panicked: {}", e))??;
    let mut got = unfold::word(&made).map_err(|e| format!("{} from {:?}", e, want))?;
    norm.word(&mut got);
    if got != want {
        bad!("the parts\n  {:?}\nbecome\n  {:?}", want, made);
    }
    cx.nontrivial += 1;
    cx.outcome("a word made by hand", code);
    Ok(())
}

// ---- builder errors ---------------------------------------------------------------------------------------------

pub fn c18(text: &str, cx: &mut Cx) -> Res {
    let m = model(text);
    cx.configs(&m.configs);
    let whole = imp(text);
    if let Some(p) = &whole.panic {
        bad!("panicked: {}", p);
    }
    for k in 0..whole.callbacks {
        cx.evals += 1;
        let rec = Rec::failing_at(k);
        let o = imp_with(text, rec.clone());
        if let Some(p) = &o.panic {
            bad!("panicked when callback {} fails: {}", k, p);
        }
        match &o.err {
            Some(ParseError::Custom(Inj(n))) if *n == k => {}
            e => bad!("callback {} of {} fails, but parsing returns {:?}", k, whole.callbacks, e),
        }
        let s = rec.0.borrow();
        if s.after_failure > 0 {
            bad!("{} callbacks after callback {} failed", s.after_failure, k);
        }
        drop(s);
        if o.cmds.len() > whole.cmds.len() || o.cmds[..] != whole.cmds[..o.cmds.len()] {
            bad!("commands before failing callback {} are {:?}, but {:?} without the failure", k, o.cmds, whole.cmds);
        }
        if let Some(e) = &o.err {
            let cause = std::error::Error::cause(e).map(|c| c.to_string());
            if cause != Some(Inj(k).to_string()) || e.to_string() != Inj(k).to_string() {
                bad!("the error {:?} of callback {} reads {:?}, with cause {:?}", e, k, e.to_string(), cause);
            }
        }
        if k > 0 {
            cx.nontrivial += 1;
        }
        // The iterator ends there.
        let r = guarded(|| -> Res {
            let rec = Rec::failing_at(k);
            let mut it = Parser::with_builder(Lexer::new(text.chars()), rec.clone()).into_iter();
            let mut n = 0;
            loop {
                match it.next() {
                    Some(Ok(c)) => {
                        if whole.cmds.get(n) != Some(&c) {
                            bad!("the iterator yields {:?} as command {}", c, n + 1);
                        }
                        n += 1
                    }
                    Some(Err(ParseError::Custom(Inj(n)))) if n == k => break,
                    x => bad!("the iterator yields {:?} when callback {} fails", x, k),
                }
            }
            if n != o.cmds.len() {
                bad!("{} commands from the iterator, but {} from single calls", n, o.cmds.len());
            }
            let calls = rec.0.borrow().calls;
            for _ in 0..2 {
                if let Some(x) = it.next() {
                    bad!("the iterator goes on with {:?} after callback {} failed", x, k);
                }
            }
            if rec.0.borrow().calls != calls {
                bad!("the iterator invokes callbacks after callback {} failed", k);
            }
            Ok(())
        });
        match r {
            Ok(r) => r?,
            Err(p) => bad!("panicked when callback {} fails: {}", k, p),
        }
    }
    cx.outcome(kind_name(whole.kind()), text);
    cx.count("callbacks failed", whole.callbacks as u64);
    Ok(())
}

/// Every single operation, each of its callbacks failing.
pub fn c18_ops(text: &str, cx: &mut Cx) -> Res {
    let (ops_, text) = match split_ops(text) {
        Some(x) => x,
        None => return Ok(()),
    };
    let toks = lexref::tokens(text);
    let run = |rec: &Rec| {
        guarded(|| {
            let mut p = Parser::with_builder(toks.iter().cloned(), rec.clone());
            for &o in &ops_ {
                ops::imp_op(&mut p, o)?;
            }
            Ok(())
        })
    };
    let rec = Rec::default();
    let _: Result<(), crate::model::E> = run(&rec).map_err(|p| format!("panicked: {}", p))?;
    let n = rec.0.borrow().calls;
    for k in 0..n {
        cx.evals += 1;
        if k > 0 {
            cx.nontrivial += 1;
        }
        let rec = Rec::failing_at(k);
        let r = run(&rec).map_err(|p| format!("panicked when callback {} fails: {}", k, p))?;
        if r != Err(ParseError::Custom(Inj(k))) {
            bad!("callback {} of {} fails, but {:?} returns {:?}", k, n, ops_, r);
        }
        if rec.0.borrow().after_failure > 0 {
            bad!("callbacks after callback {} failed in {:?}", k, ops_);
        }
    }
    cx.outcome("operation", text);
    Ok(())
}

// ---- incremental ------------------------------------------------------------------------------------------------

pub fn c19(text: &str, cx: &mut Cx) -> Res {
    let (i, m) = both(text, cx);
    if let Some(p) = &i.panic {
        bad!("panicked: {}", p);
    }
    // The same tokens from elsewhere.
    let toks = lexref::tokens(text);
    let t = imp_tokens(&toks);
    if t.cmds != i.cmds || t.err != i.err || t.pos != i.pos || t.end != i.end || t.comments != i.comments || t.panic != i.panic {
        bad!("from characters\n  {:?}\nfrom tokens\n  {:?}", i, t);
    }
    // In chunks: a source made of several, one token at a time.
    let n = Rc::new(Pulled::default());
    let mid = toks.len() / 2;
    let (a, b) = toks.split_at(mid);
    let c = drive(Src { it: a.iter().cloned().chain(b.iter().cloned()).filter(|_| true), n: n.clone() }, &n, text.len(), Rec::default());
    if c.cmds != i.cmds || c.err != i.err || c.pos != i.pos || c.end != i.end || c.comments != i.comments {
        bad!("from characters\n  {:?}\nfrom tokens in chunks\n  {:?}", i, c);
    }
    let mut done = 0;
    for k in 0..i.cmds.len().min(m.out.pos.len()) {
        let p = m.out.pos[k];
        let ended = p.byte > 0 && text[..p.byte].ends_with('\n') && !text[..p.byte].ends_with("\\\n");
        let heredoc = text[done..p.byte].contains("<<");
        if !ended || p.byte > text.len() {
            continue;
        }
        // The command's separator must be (or be followed by) that newline.
        if i.cmds[k].cmt.is_none() {
            continue;
        }
        // (a here-document's body may end without a newline only at the end of the input)
        let chars = text[..p.byte].chars().count();
        if i.pulled_at[k] > chars {
            bad!("{} characters were read to deliver command {}, which ends after {}", i.pulled_at[k], k + 1, chars);
        }
        let upto = lexref::tokens(&text[..p.byte]).len();
        if t.pulled_at[k] > upto {
            bad!("{} tokens were read to deliver command {}, which ends after {}", t.pulled_at[k], k + 1, upto);
        }
        cx.count("newline-terminated commands", 1);
        done = p.byte;
        // What precedes, alone.
        let head = imp(&text[..p.byte]);
        if head.cmds[..] != i.cmds[..=k] || head.err.is_some() {
            bad!("the text up to byte {} alone gives\n  {:?} {:?}\nbut with what follows\n  {:?}", p.byte, head.cmds, head.err, &i.cmds[..=k]);
        }
        // What follows, alone.
        let tail = imp(&text[p.byte..]);
        if tail.cmds[..] != i.cmds[k + 1..] || tail.comments != i.comments {
            bad!("the text from byte {} on alone gives\n  {:?} {:?}\nbut after what precedes\n  {:?} {:?}", p.byte, tail.cmds, tail.err, &i.cmds[k + 1..], i.err);
        }
        let shifted = match (&tail.err, &i.err) {
            (None, None) => true,
            (Some(a), Some(b)) => {
                same_kind(a, b)
                    && err_positions(a).iter().zip(err_positions(b)).all(|(x, y)| x.byte + p.byte == y.byte && x.line + p.line - 1 == y.line)
            }
            _ => false,
        };
        if !shifted {
            bad!("the text from byte {} on alone fails with {:?}, but after what precedes with {:?}", p.byte, tail.err, i.err);
        }
        let _ = heredoc;
    }
    Ok(())
}

// ---- textual forms ----------------------------------------------------------------------------------------------

pub fn c21_messages(text: &str, cx: &mut Cx) -> Res {
    let (i, _) = both(text, cx);
    let e = match &i.err {
        None => return Ok(()),
        Some(e) => e,
    };
    cx.count("messages examined", 1);
    message(e)
}

/// Errors of every kind, made by hand: `kind \u{1e} symbol \u{1e} line \u{1e} column \u{1e} line \u{1e} column`.
pub fn c21_error(text: &str, cx: &mut Cx) -> Res {
    let v: Vec<&str> = text.split('\u{1e}').collect();
    let n = |k: usize| v.get(k).and_then(|s| s.parse::<usize>().ok());
    let (a, b, c, d, t) = match (n(2), n(3), n(4), n(5), v.get(1).and_then(|s| symbol(s))) {
        (Some(a), Some(b), Some(c), Some(d), Some(t)) => (a, b, c, d, t),
        _ => return Ok(()),
    };
    cx.evals += 1;
    let (p, q) = (SourcePos { byte: 7, line: a, col: b }, SourcePos { byte: 9, line: c, col: d });
    let kws = ["for", "case", "if", "while", "until", "do", "done", "then", "fi", "esac", "in", "else", "elif", "function"];
    let kw = |k: usize| kws[k % kws.len()];
    let e: crate::model::E = match v[0] {
        "fd" => ParseError::BadFd(p, q),
        "ident" => ParseError::BadIdent(t.to_string(), p),
        "subst" => ParseError::BadSubst(t, p),
        "unmatched" => ParseError::Unmatched(t, p),
        "unexpected" => ParseError::Unexpected(t, p),
        "incomplete" => ParseError::IncompleteCmd(kw(a + d), p, kw(b + c), q),
        _ => return Ok(()),
    };
    cx.count("messages examined", 1);
    message(&e)
}

fn message(e: &crate::model::E) -> Res {
    let msg = guarded(|| e.to_string()).map_err(|p| format!("the message for {:?} panicked: {}", e, p))?;
    let mut facts: Vec<String> = err_positions(e).iter().map(|p| format!("{}:{}", p.line, p.col)).collect();
    match e {
        ParseError::BadIdent(s, _) => facts.push(s.clone()),
        ParseError::BadSubst(t, _) | ParseError::Unmatched(t, _) => facts.push(t.to_string()),
        ParseError::Unexpected(Token::Newline, _) => facts.push("\\n".to_string()),
        ParseError::Unexpected(t, _) => facts.push(t.to_string()),
        ParseError::IncompleteCmd(a, _, b, _) => {
            facts.push(format!("`{}`", a));
            facts.push(format!("`{}`", b));
        }
        _ => {}
    }
    // Each fact is stated; different facts need different places in the message.
    let mut left = msg.clone();
    facts.sort_by_key(|f| std::cmp::Reverse(f.len()));
    for f in &facts {
        match left.find(f.as_str()) {
            Some(k) => left.replace_range(k..k + f.len(), "\u{0}"),
            None => bad!("the message {:?} for {:?} does not state {:?}", msg, e, f),
        }
    }
    // Which keyword belongs to which place.
    if let ParseError::IncompleteCmd(a, p, b, q) = e {
        let at = |s: &str| msg.find(s).unwrap_or(0);
        let (pa, pb) = (at(&format!("`{}`", a)), msg.rfind(&format!("`{}`", b)).unwrap_or(0));
        let (sp, sq) = (format!("{}:{}", p.line, p.col), format!("{}:{}", q.line, q.col));
        if a != b && sp != sq {
            // the place of a thing is stated nearer to it than to the other thing, after it
            let after = |k: usize| {
                let s = &msg[k..];
                let x = s.find(&sp).map(|v| (v, 'p'));
                let y = s.find(&sq).map(|v| (v, 'q'));
                // a position that is a prefix of the other one is ambiguous
                if sp.contains(&sq) || sq.contains(&sp) { None } else { x.into_iter().chain(y).min().map(|t| t.1) }
            };
            if after(pa) == Some('q') && after(pb) == Some('p') {
                bad!("the message {:?} for {:?} mixes up the places", msg, e);
            }
        }
    }
    // From where to where.
    if let ParseError::BadFd(p, q) = e {
        let (sp, sq) = (format!("{}:{}", p.line, p.col), format!("{}:{}", q.line, q.col));
        if !sp.contains(&sq) && !sq.contains(&sp) && msg.find(&sp) > msg.find(&sq) {
            bad!("the message {:?} for {:?} states the end as the start", msg, e);
        }
    }
    Ok(())
}

/// A parameter's text in the given context.
pub fn c21_param(text: &str, cx: &mut Cx) -> Res {
    let (ctx, name) = match text.split_once('\u{1e}') {
        Some(x) => x,
        None => return Ok(()),
    };
    let p: DefaultParameter = match name {
        "@" => Parameter::At,
        "*" => Parameter::Star,
        "#" => Parameter::Pound,
        "?" => Parameter::Question,
        "-" => Parameter::Dash,
        "$" => Parameter::Dollar,
        "!" => Parameter::Bang,
        n => match n.parse::<u32>() {
            Ok(k) => Parameter::Positional(k),
            Err(_) => Parameter::Var(n.to_string()),
        },
    };
    let s = p.to_string();
    let whole = corpus::fill(ctx, &s);
    let (i, m) = both(&whole, cx);
    if i.err.is_some() || i.panic.is_some() {
        bad!("{:?}, written {:?}, within {:?} is not accepted: {:?} {:?}", p, s, whole, i.err, i.panic);
    }
    let mut found = Vec::new();
    let mut cmds = i.cmds;
    for c in cmds.iter_mut() {
        for_words(c, &mut |w| params_of(w, &mut found));
    }
    let n = ctx.matches('\u{1}').count();
    if found.iter().filter(|x| **x == p).count() != n || found.len() != n {
        bad!("{:?}, written {:?}, within {:?} becomes {:?}", p, s, whole, found);
    }
    let _ = m;
    Ok(())
}

fn params_of(w: &ComplexWordKind<Cmd>, out: &mut Vec<DefaultParameter>) {
    fn simple(s: &SimpleWordKind<Cmd>, out: &mut Vec<DefaultParameter>) {
        use ParameterSubstitutionKind::*;
        match s {
            SimpleWordKind::Param(p) => out.push(p.clone()),
            SimpleWordKind::CommandSubst(g) => group(g, out),
            SimpleWordKind::Subst(b) => match &**b {
                Command(g) => group(g, out),
                Default(_, _, Some(w)) | Assign(_, _, Some(w)) | Error(_, _, Some(w)) | Alternative(_, _, Some(w)) => params_of(w, out),
                RemoveSmallestSuffix(_, Some(w)) | RemoveLargestSuffix(_, Some(w)) | RemoveSmallestPrefix(_, Some(w)) | RemoveLargestPrefix(_, Some(w)) => {
                    params_of(w, out)
                }
                _ => {}
            },
            _ => {}
        }
    }
    fn group(g: &CommandGroup<Cmd>, out: &mut Vec<DefaultParameter>) {
        for c in &g.commands {
            let mut c = c.clone();
            for_words(&mut c, &mut |w| params_of(w, out));
        }
    }
    let kind = |k: &WordKind<Cmd>, out: &mut Vec<DefaultParameter>| match k {
        WordKind::Simple(s) => simple(s, out),
        WordKind::DoubleQuoted(v) => v.iter().for_each(|s| simple(s, out)),
        _ => {}
    };
    match w {
        ComplexWordKind::Single(k) => kind(k, out),
        ComplexWordKind::Concat(v) => v.iter().for_each(|k| kind(k, out)),
    }
}

/// A token's text alone gives that token; numbers of positionals convert both ways.
pub fn c21_token(text: &str, cx: &mut Cx) -> Res {
    cx.evals += 1;
    if let Some(n) = text.strip_prefix("positional ") {
        let n: u8 = match n.parse() {
            Ok(n) => n,
            Err(_) => return Ok(()),
        };
        let p = guarded(|| Positional::from_num(n)).map_err(|e| format!("panicked: {}", e))?;
        match (p, n) {
            (Some(p), 0..=9) => {
                let back: u8 = p.into();
                if p.as_num() != n || back != n || Token::ParamPositional(p).to_string() != format!("${}", n) {
                    bad!("positional {} converts to {:?}, {} and {}", n, p, p.as_num(), back);
                }
                let t: Vec<Token> = Lexer::new(format!("${}", n).chars()).collect();
                if t != [Token::ParamPositional(p)] {
                    bad!("${} is tokenised {:?}", n, t);
                }
            }
            (None, 10..=255) => {}
            (p, n) => bad!("number {} converts to {:?}", n, p),
        }
        return Ok(());
    }
    let want = match symbol(text) {
        Some(t) => t,
        None => return Ok(()),
    };
    let s = want.to_string();
    lex_note(&s, cx, &[want.clone()]);
    let got: Vec<Token> = guarded(|| Lexer::new(s.chars()).collect()).map_err(|e| format!("panicked: {}", e))?;
    if got != [want.clone()] || want.as_str() != s || want.len() != s.len() {
        bad!("{:?} is written {:?}, which is tokenised {:?}", want, s, got);
    }
    Ok(())
}

// ---- iterating --------------------------------------------------------------------------------------------------

/// Only so many callbacks are made to fail in turn (all of them in all but the longest texts).
const CALLBACKS: usize = 60;

pub fn c22(text: &str, cx: &mut Cx) -> Res {
    let (i, _) = both(text, cx);
    if let Some(p) = &i.panic {
        bad!("panicked: {}", p);
    }
    let toks = lexref::tokens(text);
    let r = guarded(|| -> Res {
        let rec = Rec::default();
        let mut it = Parser::with_builder(Lexer::new(text.chars()), rec.clone()).into_iter();
        let mut n = 0;
        let mut err = None;
        loop {
            match it.next() {
                Some(Ok(c)) => {
                    if i.cmds.get(n) != Some(&c) {
                        bad!("command {} from the iterator is {:?}, but {:?} from a single call", n + 1, c, i.cmds.get(n));
                    }
                    n += 1;
                }
                Some(Err(e)) => {
                    err = Some(e);
                    break;
                }
                None => break,
            }
        }
        if n != i.cmds.len() || err != i.err {
            bad!("{} commands and {:?} from the iterator, but {} and {:?} from single calls", n, err, i.cmds.len(), i.err);
        }
        let calls = rec.0.borrow().calls;
        for _ in 0..4 {
            if let Some(x) = it.next() {
                bad!("the iterator yields {:?} after its end", x);
            }
        }
        if rec.0.borrow().calls != calls {
            bad!("the iterator invokes the builder after its end");
        }
        if rec.0.borrow().comments != i.comments {
            bad!("comments {:?} handed over by the iterator, but {:?} by single calls", rec.0.borrow().comments, i.comments);
        }
        // A token source that ends and later goes on.
        for stop in 0..=toks.len().min(12) {
            let prefix = imp_tokens(&toks[..stop]);
            let mut it = Parser::with_builder(Resuming { v: toks.clone(), i: 0, stop, told: false }, Rec::default()).into_iter();
            let mut n = 0;
            let mut err = None;
            loop {
                match it.next() {
                    Some(Ok(c)) => {
                        if prefix.cmds.get(n) != Some(&c) {
                            bad!("from a source that pauses after {} tokens, command {} is {:?}, but should be {:?}", stop, n + 1, c, prefix.cmds.get(n));
                        }
                        n += 1
                    }
                    Some(Err(e)) => {
                        err = Some(e);
                        break;
                    }
                    None => break,
                }
                if n > toks.len() + 10 {
                    bad!("endless commands");
                }
            }
            if n != prefix.cmds.len() || err != prefix.err {
                bad!("from a source that pauses after {} tokens: {} commands and {:?}, but should be {} and {:?}", stop, n, err, prefix.cmds.len(), prefix.err);
            }
            for _ in 0..3 {
                if let Some(x) = it.next() {
                    bad!("the iterator yields {:?} when its source (paused after {} tokens) resumes", x, stop);
                }
            }
            cx.count("pauses", 1);
        }
        // The same with characters.
        let chars: Vec<char> = text.chars().collect();
        for stop in 0..=chars.len().min(12) {
            let prefix = imp(&chars[..stop].iter().collect::<String>());
            let src = Resuming { v: chars.clone(), i: 0, stop, told: false };
            let mut it = Parser::with_builder(Lexer::new(src), Rec::default()).into_iter();
            let n = it.by_ref().take_while(|r| r.is_ok()).take(chars.len() + 10).count();
            if n != prefix.cmds.len() {
                bad!("from a source that pauses after {} characters: {} commands, but should be {}", stop, n, prefix.cmds.len());
            }
            for _ in 0..3 {
                if let Some(x) = it.next() {
                    bad!("the iterator yields {:?} when its source (paused after {} characters) resumes", x, stop);
                }
            }
        }
        // Errors of the builder, too, are the last thing the iterator yields.
        for k in 0..i.callbacks.min(CALLBACKS) {
            let rec = Rec::failing_at(k);
            let mut it = Parser::with_builder(Lexer::new(text.chars()), rec.clone()).into_iter();
            let mut yielded = Vec::new();
            for r in it.by_ref() {
                let end = r.is_err();
                yielded.push(r);
                if end || yielded.len() > text.len() + 10 {
                    break;
                }
            }
            let o = imp_with(text, Rec::failing_at(k));
            let (last, cmds) = match yielded.split_last() {
                Some((Err(e), cmds)) => (Some(e), cmds),
                _ => (None, &yielded[..]),
            };
            if cmds.len() != o.cmds.len() || !cmds.iter().zip(&o.cmds).all(|(a, b)| a.as_ref().ok() == Some(b)) || last != o.err.as_ref() {
                bad!("when callback {} fails, the iterator yields {:?}, but single calls {:?}, then {:?}", k, yielded, o.cmds, o.err);
            }
            let calls = rec.0.borrow().calls;
            for _ in 0..3 {
                if let Some(x) = it.next() {
                    bad!("the iterator yields {:?} after callback {} failed", x, k);
                }
            }
            if rec.0.borrow().calls != calls {
                bad!("the iterator invokes the builder after callback {} failed", k);
            }
            cx.count("failing callbacks", 1);
        }
        // Single calls, too, must go on reporting the end.
        if i.err.is_none() && !toks.is_empty() {
            for stop in [toks.len() / 2, toks.len()] {
                let mut p = Parser::with_builder(Resuming { v: toks.clone(), i: 0, stop, told: false }, Rec::default());
                let mut ended = false;
                for _ in 0..toks.len() + 10 {
                    match p.complete_command() {
                        Ok(Some(_)) if ended => bad!("a command after the end, when the source (paused after {} tokens) resumes", stop),
                        Ok(Some(_)) => {}
                        Ok(None) => ended = true,
                        Err(_) => break,
                    }
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", p)),
    }
}
