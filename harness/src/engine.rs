//! The exploration engine: enumerates every text of a bounded space and runs an oracle on each.

use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What one worker has covered.
#[derive(Default)]
pub struct Cx {
    pub execs: u64,
    pub evals: u64,
    pub states: HashSet<u64>,
    pub trans: HashSet<u64>,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub counts: BTreeMap<&'static str, u64>,
    pub nontrivial: u64,
    pub pruned: u64,
    pub samples: BTreeMap<&'static str, Vec<String>>,
    /// Bytes of the text that an extension of it keeps.
    pub cut: usize,
    /// Set by the oracle: nothing past the cut had an influence.
    pub closed: bool,
    pub quick: bool,
}

impl Cx {
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn sample(&mut self, k: &'static str, text: &str) {
        let v = self.samples.entry(k).or_default();
        if v.len() < 3 && text.len() < 200 {
            v.push(text.to_string());
        }
    }
    pub fn outcome(&mut self, k: &'static str, text: &str) {
        let n = self.outcomes.entry(k).or_insert(0);
        *n += 1;
        let n = *n;
        // Spread the samples: the 1st, 200th, 40000th of a kind.
        if n == 1 || n == 200 || n == 40_000 {
            self.sample(k, text);
        }
    }
    pub fn configs(&mut self, c: &[u64]) {
        for &s in c {
            self.states.insert(s);
        }
        for w in c.windows(2) {
            self.trans.insert(w[0].rotate_left(21) ^ w[1]);
        }
    }
    fn merge(&mut self, o: Cx) {
        self.execs += o.execs;
        self.evals += o.evals;
        self.nontrivial += o.nontrivial;
        self.pruned += o.pruned;
        self.states.extend(o.states);
        self.trans.extend(o.trans);
        for (k, n) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += n;
        }
        for (k, n) in o.counts {
            *self.counts.entry(k).or_insert(0) += n;
        }
        for (k, v) in o.samples {
            let e = self.samples.entry(k).or_default();
            e.extend(v);
            e.truncate(4);
        }
    }
}

pub type Oracle = Arc<dyn Fn(&str, &mut Cx) -> Result<(), String> + Send + Sync>;

pub enum Kind {
    /// Every `pre + w + suf` with `w` over the alphabet, up to the given number of symbols.
    Tree { pre: Vec<String>, suf: Vec<String>, alpha: Vec<String>, depth: usize },
    /// An indexed family.
    Index { n: usize, f: Box<dyn Fn(usize) -> String + Send + Sync> },
}

pub struct Scenario {
    pub name: String,
    pub kind: Kind,
    pub oracle: Oracle,
    /// The text is just a program, so it may be shortened.
    pub plain: bool,
}

pub struct Violation {
    pub scenario: usize,
    pub text: String,
    pub what: String,
}

pub struct Report {
    pub cx: Cx,
    pub per_scenario: Vec<(String, u64, f64)>,
    pub violation: Option<Violation>,
}

struct Slot {
    text: Mutex<(usize, String)>,
    since: AtomicU64,
    /// The worker's thread.
    tid: AtomicU64,
}

fn unit_len(s: &Scenario) -> usize {
    match &s.kind {
        Kind::Tree { pre, alpha, depth, .. } => {
            let a = alpha.len();
            pre.len() * if *depth >= 3 { 1 + a * a } else { 1 + a }
        }
        Kind::Index { n, .. } => (*n + 255) / 256,
    }
}

struct Worker<'a> {
    scen: &'a [Scenario],
    cx: Cx,
    slot: &'a Slot,
    stop: &'a AtomicBool,
    viol: &'a Mutex<Vec<Violation>>,
    start: Instant,
    journal: Option<std::fs::File>,
}

impl<'a> Worker<'a> {
    /// True if an extension may behave differently.
    fn run(&mut self, si: usize, text: &str, cut: usize) -> bool {
        {
            let mut t = self.slot.text.lock().unwrap();
            t.0 = si;
            t.1.clear();
            t.1.push_str(text);
        }
        if let Some(f) = &self.journal {
            use std::os::unix::fs::FileExt;
            let mut b = format!("{:8}{:8}", si, text.len()).into_bytes();
            b.extend(text.as_bytes());
            let _ = f.write_all_at(&b, 0);
        }
        self.slot.since.store(self.start.elapsed().as_millis() as u64 + 1, Relaxed);
        self.cx.cut = cut;
        self.cx.closed = false;
        self.cx.execs += 1;
        let r = (self.scen[si].oracle)(text, &mut self.cx);
        self.slot.since.store(0, Relaxed);
        if let Err(what) = r {
            self.viol.lock().unwrap().push(Violation { scenario: si, text: text.to_string(), what });
            self.stop.store(true, Relaxed);
        }
        !self.cx.closed
    }

    fn node(&mut self, si: usize, pre: &str, w: &mut String, left: usize) {
        let scen = self.scen;
        let (suf, alpha) = match &scen[si].kind {
            Kind::Tree { suf, alpha, .. } => (suf, alpha),
            _ => unreachable!(),
        };
        if self.stop.load(Relaxed) {
            return;
        }
        let open = self.visit(si, pre, w, suf);
        if left == 0 {
            return;
        }
        if !open {
            self.cx.pruned += 1;
            return;
        }
        for s in alpha {
            let n = w.len();
            w.push_str(s);
            self.node(si, pre, w, left - 1);
            w.truncate(n);
        }
    }

    fn visit(&mut self, si: usize, pre: &str, w: &str, suf: &[String]) -> bool {
        let mut open = false;
        let mut t = String::with_capacity(pre.len() + w.len() + 16);
        t.push_str(pre);
        t.push_str(w);
        let cut = t.len();
        for s in suf {
            t.truncate(cut);
            t.push_str(s);
            open |= self.run(si, &t, cut);
        }
        open
    }

    fn unit(&mut self, si: usize, u: usize) {
        match &self.scen[si].kind {
            Kind::Index { n, f } => {
                for k in u * 256..((u + 1) * 256).min(*n) {
                    if self.stop.load(Relaxed) {
                        return;
                    }
                    let t = f(k);
                    self.run(si, &t, 0);
                }
            }
            Kind::Tree { pre, suf, alpha, depth } => {
                let a = alpha.len();
                let per = if *depth >= 3 { 1 + a * a } else { 1 + a };
                let p = &pre[u / per];
                let k = u % per;
                if k == 0 {
                    // the short ones
                    self.visit(si, p, "", suf);
                    if *depth >= 3 {
                        for x in alpha {
                            self.visit(si, p, x, suf);
                        }
                    }
                } else if *depth >= 3 {
                    let (x, y) = (&alpha[(k - 1) / a], &alpha[(k - 1) % a]);
                    if !self.visit(si, p, x, suf) {
                        return;
                    }
                    let mut w = format!("{}{}", x, y);
                    self.node(si, p, &mut w, depth - 2);
                } else if *depth >= 1 {
                    let mut w = alpha[k - 1].clone();
                    self.node(si, p, &mut w, depth - 1);
                }
            }
        }
    }
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|s| s.parse::<u64>().ok()))
        .map_or(0, |p| p * 4 / 1024)
}

fn thread_id() -> u64 {
    let l = std::fs::read_link("/proc/thread-self").ok();
    l.and_then(|l| l.file_name().and_then(|n| n.to_str().and_then(|n| n.parse().ok()))).unwrap_or(0)
}

/// The processor time a thread of this process has used.
fn cpu_ms(tid: u64) -> u64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)) else { return 0 };
    let mut f = s.rsplit(')').next().unwrap_or("").split_whitespace().skip(11);
    let mut next = || f.next().and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    (next() + next()) * 10
}

/// Explores everything. `stuck` is called when an execution does not finish.
pub fn explore(scen: &[Scenario], threads: usize, quick: bool, stuck: &(dyn Fn(Violation) + Sync)) -> Report {
    let start = Instant::now();
    let total_units: Vec<usize> = scen.iter().map(unit_len).collect();
    let next: Vec<AtomicUsize> = scen.iter().map(|_| AtomicUsize::new(0)).collect();
    let cur = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let viol = Mutex::new(Vec::new());
    let per: Vec<(AtomicU64, AtomicU64)> = scen.iter().map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let slots: Vec<Slot> =
        (0..threads).map(|_| Slot { text: Mutex::new((0, String::new())), since: AtomicU64::new(0), tid: AtomicU64::new(0) }).collect();
    let total = Mutex::new(Cx::default());
    let live = AtomicUsize::new(threads);
    let journal = std::env::var("VMC_JOURNAL").ok();
    std::thread::scope(|sc| {
        for w in 0..threads {
            let (slot, stop, viol, next, cur, total_units, total, per, live) =
                (&slots[w], &stop, &viol, &next, &cur, &total_units, &total, &per, &live);
            let journal = journal.as_ref().and_then(|d| std::fs::File::create(format!("{}/journal.{}", d, w)).ok());
            std::thread::Builder::new()
                .stack_size(2 << 30)
                .spawn_scoped(sc, move || {
                    slot.tid.store(thread_id(), Relaxed);
                    let mut wk = Worker { scen, cx: Cx { quick, ..Cx::default() }, slot, stop, viol, start, journal };
                    loop {
                        let si = cur.load(Relaxed);
                        if si >= scen.len() || stop.load(Relaxed) {
                            break;
                        }
                        let u = next[si].fetch_add(1, Relaxed);
                        if u >= total_units[si] {
                            let _ = cur.compare_exchange(si, si + 1, Relaxed, Relaxed);
                            continue;
                        }
                        let (e0, t0) = (wk.cx.execs, Instant::now());
                        wk.unit(si, u);
                        per[si].0.fetch_add(wk.cx.execs - e0, Relaxed);
                        per[si].1.fetch_add(t0.elapsed().as_micros() as u64, Relaxed);
                    }
                    total.lock().unwrap().merge(wk.cx);
                    live.fetch_sub(1, Relaxed);
                })
                .unwrap();
        }
        // Watch for executions that do not end. Time is what the thread itself has used: a machine that is busy or
        // suspended must not raise an alarm.
        let (slots, live) = (&slots, &live);
        sc.spawn(move || {
            let mut n = 0;
            let mut seen = vec![(0, 0, 0u64); slots.len()];
            while live.load(Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                n += 1;
                if n % 10 != 0 {
                    continue;
                }
                let big = rss_mb() > 12_000;
                for (s, seen) in slots.iter().zip(seen.iter_mut()) {
                    let since = s.since.load(Relaxed);
                    if since == 0 || since != seen.0 {
                        *seen = (since, cpu_ms(s.tid.load(Relaxed)), 0);
                        continue;
                    }
                    // polls, in case the processor time is not known
                    seen.2 += 1;
                    let used = cpu_ms(s.tid.load(Relaxed)).saturating_sub(seen.1);
                    if used > 45_000 || seen.2 > 3_000 || (big && used > 1_000) {
                        let t = s.text.lock().unwrap();
                        if s.since.load(Relaxed) != since {
                            continue;
                        }
                        let what = if big { "uses up memory without end" } else { "does not finish within 45 s" };
                        stuck(Violation { scenario: t.0, text: t.1.clone(), what: what.to_string() });
                    }
                }
            }
        });
    });
    let mut v = viol.into_inner().unwrap();
    v.sort_by_key(|v| v.text.len());
    Report {
        cx: total.into_inner().unwrap(),
        per_scenario: scen
            .iter()
            .zip(&per)
            .map(|(s, (n, t))| (s.name.clone(), n.load(Relaxed), t.load(Relaxed) as f64 / 1e6))
            .collect(),
        violation: if v.is_empty() { None } else { Some(v.swap_remove(0)) },
    }
}

/// Drops characters while the oracle still objects.
pub fn minimise(o: &Oracle, text: &str, what: &str) -> (String, String) {
    let mut best: Vec<char> = text.chars().collect();
    let mut why = what.to_string();
    let t0 = Instant::now();
    let mut cx = Cx::default();
    let mut step = (best.len() / 2).max(1);
    while t0.elapsed() < Duration::from_secs(8) {
        let mut k = 0;
        let mut changed = false;
        while k < best.len() && t0.elapsed() < Duration::from_secs(8) {
            let mut c = best.clone();
            c.drain(k..(k + step).min(best.len()));
            let s: String = c.iter().collect();
            cx.cut = 0;
            if let Err(w) = o(&s, &mut cx) {
                best = c;
                why = w;
                changed = true;
            } else {
                k += step;
            }
        }
        if !changed {
            if step == 1 {
                break;
            }
            step = (step / 2).max(1);
        }
    }
    (best.into_iter().collect(), why)
}
