//! Runs the real parser and the reference parser on the same input, and compares what came out.

use crate::lexref;
use crate::model::{Gap, Model, E};
use crate::tree::{Cmd, Inj, Norm, Rec};
use conch_parser::ast::builder::Newline as Nl;
use conch_parser::lexer::Lexer;
use conch_parser::parse::{ParseError, Parser, SourcePos};
use conch_parser::token::Token;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// What the parser has asked its source for.
#[derive(Debug, Default)]
pub struct Pulled {
    pub items: Cell<usize>,
    pub eof: Cell<bool>,
}

/// A source that counts.
pub struct Src<I> {
    pub it: I,
    pub n: Rc<Pulled>,
}
impl<I: Iterator> Iterator for Src<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let r = self.it.next();
        match r {
            Some(_) => self.n.items.set(self.n.items.get() + 1),
            None => self.n.eof.set(true),
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
}

/// Everything observable about parsing one input to its end.
#[derive(Debug, Clone, Default)]
pub struct Out {
    pub cmds: Vec<Cmd>,
    /// Position after each command.
    pub pos: Vec<SourcePos>,
    /// Source items pulled when each command was delivered.
    pub pulled_at: Vec<usize>,
    /// Position after the end was reported.
    pub end: Option<SourcePos>,
    /// Comments handed over on their own.
    pub comments: Vec<Nl>,
    pub err: Option<E>,
    pub pulled: usize,
    pub eof: bool,
    pub panic: Option<String>,
    pub callbacks: usize,
}

impl Out {
    pub fn kind(&self) -> u8 {
        if self.panic.is_some() {
            return 9;
        }
        match &self.err {
            None => 0,
            Some(ParseError::BadFd(..)) => 1,
            Some(ParseError::BadIdent(..)) => 2,
            Some(ParseError::BadSubst(..)) => 3,
            Some(ParseError::Unmatched(..)) => 4,
            Some(ParseError::IncompleteCmd(..)) => 5,
            Some(ParseError::Unexpected(..)) => 6,
            Some(ParseError::UnexpectedEOF) => 7,
            Some(ParseError::Custom(..)) => 8,
        }
    }
}

pub fn kind_name(k: u8) -> &'static str {
    ["accepted", "BadFd", "BadIdent", "BadSubst", "Unmatched", "IncompleteCmd", "Unexpected", "UnexpectedEOF", "Custom", "panic"]
        [k as usize]
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Runs `f`, turning a panic into a message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

pub fn drive<I: Iterator<Item = Token>>(iter: I, n: &Rc<Pulled>, max: usize, rec: Rec) -> Out {
    let out = std::cell::RefCell::new(Out::default());
    let r = guarded(|| {
        let mut p = Parser::with_builder(iter, rec.clone());
        loop {
            let r = p.complete_command();
            let mut o = out.borrow_mut();
            match r {
                Ok(Some(c)) => {
                    o.cmds.push(c);
                    o.pos.push(p.pos());
                    o.pulled_at.push(n.items.get());
                    if o.cmds.len() > max + 10 {
                        panic!("endless commands");
                    }
                }
                Ok(None) => {
                    o.end = Some(p.pos());
                    break;
                }
                Err(e) => {
                    o.err = Some(e);
                    break;
                }
            }
        }
    });
    let mut o = out.into_inner();
    o.panic = r.err();
    o.pulled = n.items.get();
    o.eof = n.eof.get();
    let mut s = rec.0.borrow_mut();
    o.comments = std::mem::take(&mut s.comments);
    o.callbacks = s.calls;
    o
}

pub fn imp(text: &str) -> Out {
    let n = Rc::new(Pulled::default());
    let src = Src { it: text.chars(), n: n.clone() };
    drive(Lexer::new(src), &n, text.len(), Rec::default())
}

pub fn imp_with(text: &str, rec: Rec) -> Out {
    let n = Rc::new(Pulled::default());
    let src = Src { it: text.chars(), n: n.clone() };
    drive(Lexer::new(src), &n, text.len(), rec)
}

pub fn imp_tokens(toks: &[Token]) -> Out {
    let n = Rc::new(Pulled::default());
    let src = Src { it: toks.iter().cloned(), n: n.clone() };
    drive(src, &n, toks.len(), Rec::default())
}

pub struct ModelOut {
    pub out: Out,
    pub seen: usize,
    pub hit_end: bool,
    pub configs: Vec<u64>,
    pub unseparated: Option<SourcePos>,
    pub heredocs: usize,
    pub layout: Vec<Gap>,
    pub heredoc_lines: Vec<usize>,
    pub open_heredoc: bool,
}

pub fn model(text: &str) -> ModelOut {
    let (t, end) = lexref::lex(text);
    model_tokens(t, end)
}

pub fn model_tokens(t: Vec<lexref::Tk>, end: SourcePos) -> ModelOut {
    let mut m = Model::new(t, end);
    let mut o = Out::default();
    loop {
        match m.complete_command() {
            Ok(Some(c)) => {
                o.cmds.push(c);
                o.pos.push(m.pos());
            }
            Ok(None) => {
                o.end = Some(m.pos());
                break;
            }
            Err(e) => {
                o.err = Some(e);
                break;
            }
        }
    }
    o.comments = std::mem::take(&mut m.final_comments);
    ModelOut {
        out: o,
        seen: m.seen,
        hit_end: m.hit_end,
        configs: std::mem::take(&mut m.configs),
        unseparated: m.unseparated,
        heredocs: m.heredocs,
        layout: std::mem::take(&mut m.layout),
        heredoc_lines: std::mem::take(&mut m.heredoc_lines),
        open_heredoc: m.open_heredoc,
    }
}

pub const AST: u32 = 1;
pub const COMMENTS: u32 = 2;
/// Kind of error and its facts, except positions.
pub const ERR: u32 = 4;
pub const ERRPOS: u32 = 8;
pub const POS: u32 = 16;

pub fn same_kind(a: &E, b: &E) -> bool {
    use ParseError::*;
    match (a, b) {
        (BadFd(..), BadFd(..)) | (UnexpectedEOF, UnexpectedEOF) => true,
        (BadIdent(x, _), BadIdent(y, _)) => x == y,
        (BadSubst(x, _), BadSubst(y, _)) | (Unmatched(x, _), Unmatched(y, _)) | (Unexpected(x, _), Unexpected(y, _)) => x == y,
        (IncompleteCmd(a, _, b, _), IncompleteCmd(c, _, d, _)) => a == c && b == d,
        (Custom(x), Custom(y)) => x == y,
        _ => false,
    }
}

pub fn err_positions(e: &E) -> Vec<SourcePos> {
    use ParseError::*;
    match e {
        BadFd(a, b) => vec![*a, *b],
        BadIdent(_, a) | BadSubst(_, a) | Unmatched(_, a) | Unexpected(_, a) => vec![*a],
        IncompleteCmd(_, a, _, b) => vec![*a, *b],
        UnexpectedEOF | Custom(Inj(_)) => vec![],
    }
}

/// The first difference between what the parser did and what it should have done.
pub fn diff(a: &mut Out, b: &mut Out, f: u32) -> Option<String> {
    if let Some(p) = &a.panic {
        return Some(format!("panicked: {}", p));
    }
    let norm = Norm { strip_comments: f & COMMENTS == 0, ..Norm::default() };
    if f & (AST | COMMENTS) != 0 {
        norm.cmds(&mut a.cmds);
        norm.cmds(&mut b.cmds);
        for (k, (x, y)) in a.cmds.iter().zip(&b.cmds).enumerate() {
            if x != y {
                return Some(format!("command {} is\n  {:?}\nbut should be\n  {:?}", k + 1, x, y));
            }
        }
        if a.cmds.len() != b.cmds.len() {
            return Some(format!(
                "{} commands, then {:?}; but should be {} commands, then {:?}",
                a.cmds.len(),
                a.err,
                b.cmds.len(),
                b.err
            ));
        }
        match (&a.err, &b.err) {
            (None, Some(e)) => return Some(format!("accepted, but should be rejected: {:?}", e)),
            (Some(e), None) => return Some(format!("rejected with {:?}, but should be accepted", e)),
            _ => {}
        }
        if f & COMMENTS != 0 && a.err.is_none() && a.comments != b.comments {
            return Some(format!("trailing comments {:?}, but should be {:?}", a.comments, b.comments));
        }
    }
    if f & (ERR | ERRPOS | POS) != 0 && a.cmds.len() == b.cmds.len() {
        if f & POS != 0 {
            for (k, (x, y)) in a.pos.iter().zip(&b.pos).enumerate() {
                if x != y {
                    return Some(format!("position after command {} is {:?}, but should be {:?}", k + 1, x, y));
                }
            }
            if let (Some(x), Some(y)) = (a.end, b.end) {
                if x != y {
                    return Some(format!("position at the end is {:?}, but should be {:?}", x, y));
                }
            }
        }
        if let (Some(x), Some(y)) = (&a.err, &b.err) {
            let same = same_kind(x, y);
            if f & ERR != 0 && !same {
                return Some(format!("error {:?}, but should be {:?}", x, y));
            }
            if f & ERRPOS != 0 && same && err_positions(x) != err_positions(y) {
                return Some(format!("error positions in {:?} should be as in {:?}", x, y));
            }
        }
    }
    None
}
