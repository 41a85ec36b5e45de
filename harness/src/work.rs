//! What parsing costs: how much is allocated, and the processor time taken, as texts grow.

use crate::engine::Cx;
use crate::oracles::Res;
use crate::run::{guarded, model};
use conch_parser::ast::builder::{EmptyBuilder, StringBuilder};
use conch_parser::lexer::Lexer;
use conch_parser::parse::Parser;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

macro_rules! bad {
    ($($t:tt)*) => { return Err(format!($($t)*)) }
}

/// Counts what the thread allocates.
pub struct Counting;

thread_local! {
    static BLOCKS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

fn count(size: usize) {
    let _ = BLOCKS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + size as u64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        count(size);
        System.realloc(p, l, size)
    }
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Processor time this thread has used, in nanoseconds.
fn cpu() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

#[derive(Clone, Copy, Debug)]
struct Cost {
    blocks: u64,
    bytes: u64,
    ns: u64,
}

/// The cost of lexing and parsing everything, and of dropping it again.
fn cost(text: &str, tree: bool) -> Cost {
    let (a, b, t) = (BLOCKS.with(|c| c.get()), BYTES.with(|c| c.get()), cpu());
    if tree {
        let mut p = Parser::with_builder(Lexer::new(text.chars()), StringBuilder::new());
        for _ in 0..=text.len() {
            if !matches!(p.complete_command(), Ok(Some(_))) {
                break;
            }
        }
    } else {
        let mut p = Parser::with_builder(Lexer::new(text.chars()), EmptyBuilder::new());
        for _ in 0..=text.len() {
            if !matches!(p.complete_command(), Ok(Some(_))) {
                break;
            }
        }
    }
    Cost { blocks: BLOCKS.with(|c| c.get()) - a, bytes: BYTES.with(|c| c.get()) - b, ns: cpu() - t }
}

/// `before \u{1e} unit \u{1e} middle \u{1e} counterpart \u{1e} after`: the unit and its counterpart repeated.
fn grown(text: &str, n: usize) -> Option<String> {
    let v: Vec<&str> = text.split('\u{1e}').collect();
    match v.as_slice() {
        [a, u, m, c, z] => Some(format!("{}{}{}{}{}", a, u.repeat(n), m, c.repeat(n), z)),
        _ => None,
    }
}

const FEW: usize = 24;
const MANY: usize = 192;

/// Eight times the text takes about eight times the work; eight times the here-documents that meet, up to its square.
pub fn c25(text: &str, cx: &mut Cx) -> Res {
    let (few, many, short) = match (grown(text, FEW), grown(text, MANY), grown(text, 3)) {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => return Ok(()),
    };
    cx.configs(&model(&short).configs);
    // Here-documents may meet: those repeated, or those whose bodies or lines hold one another.
    let meet = short.matches("<<").count() > 1;
    let grows = if meet { 64 } else { 8 };
    guarded(|| {
        for tree in [false, true] {
            cx.evals += 2;
            let (a, b) = (cost(&few, tree), cost(&many, tree));
            for (what, x, y) in [("blocks", a.blocks, b.blocks), ("bytes", a.bytes, b.bytes)] {
                // What is allocated at once, whatever the text, is not to hide the growth, nor make it up.
                let over = |x: u64| y > 2 * grows * x.max(16);
                // Where every other unit closes what the one before it opened, the last decides how much is parsed:
                // only what is out of proportion to each of several counts is.
                if over(x) && (FEW..FEW + 12).all(|n| { let c = cost(&grown(text, n).unwrap_or_default(), tree); over(if what == "blocks" { c.blocks } else { c.bytes }) }) {
                    bad!(
                        "{} allocated parsing the unit {} times: {}, and {} times: {} (text {:?}; {})",
                        what, FEW, x, MANY, y, short, if tree { "default builder" } else { "empty builder" }
                    );
                }
            }
            cx.outcome(if b.blocks < 4 * a.blocks { "work stops growing" } else if b.blocks > 16 * a.blocks { "grows with the here-documents" } else { "grows with the text" }, text);
        }
        Ok(())
    })?
}

/// Much longer texts, which do not nest: the time for each unit stays about the same.
pub fn c25_time(text: &str, cx: &mut Cx) -> Res {
    timed(text, 480, 19_200, cx)
}

/// And what is nested, rather less deeply.
pub fn c25_deep(text: &str, cx: &mut Cx) -> Res {
    timed(text, 120, 4800, cx)
}

fn timed(text: &str, fewer: usize, lots_of: usize, cx: &mut Cx) -> Res {
    let (some, lots) = match (grown(text, fewer), grown(text, lots_of)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(()),
    };
    cx.configs(&model(&grown(text, 3).unwrap_or_default()).configs);
    guarded(|| {
        let (mut few, mut many) = (0.0f64, f64::MAX);
        // The processor may be shared, its caches too: only what shows every time counts.
        for _ in 0..8 {
            cx.evals += 2;
            let (a, b) = (cost(&some, true), cost(&lots, true));
            let grows = (lots_of / fewer) as u64;
            for (what, x, y) in [("blocks", a.blocks, b.blocks), ("bytes", a.bytes, b.bytes)] {
                if y > 2 * grows * x.max(16) && (fewer..fewer + 12).all(|n| { let c = cost(&grown(text, n).unwrap_or_default(), true); y > 2 * grows * if what == "blocks" { c.blocks } else { c.bytes }.max(16) }) {
                    bad!("{} allocated parsing the unit {} times: {}, and {} times: {} (text {:?})", what, fewer, x, lots_of, y, grown(text, 3));
                }
            }
            few = few.max(a.ns as f64 / fewer as f64);
            many = many.min(b.ns as f64 / lots_of as f64);
            if many <= 10.0 * few + 100.0 {
                cx.outcome("takes time in proportion", text);
                return Ok(());
            }
        }
        bad!("each unit takes {:.0} ns of {}, but {:.0} ns of {} (text {:?})", few, fewer, many, lots_of, grown(text, 3));
    })?
}
