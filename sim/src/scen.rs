//! Profiles of the properties, and the generation and execution of one run.

use crate::build::{build, BP};
use crate::choice::Chooser;
use crate::gram::*;
use crate::model::Model;
use crate::norm::*;
use crate::proto;
use crate::psess::*;
use crate::raw::*;
use crate::source::Plan;
use crate::tok::*;
use crate::world::*;
use pp::{error, location};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    General,
    Alt,
    Strategy,
    Recovered,
    Spans,
    Rep,
    Delim,
    Cursor,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Eng {
    Raw,
    Par,
    Mixed,
    Iso,
    Entry,
    Net,
    LongRaw,
    LongPar,
    Life,
}
const ENGS: [Eng; 9] = [Eng::Raw, Eng::Par, Eng::Mixed, Eng::Iso, Eng::Entry, Eng::Net, Eng::LongRaw, Eng::LongPar, Eng::Life];

pub struct Prof {
    pub id: &'static str,
    pub classes: &'static [Class],
    /// Only what happens after something was unwound on purpose counts.
    pub unwind: bool,
    /// Weights in the order of ENGS.
    pub engines: [u32; 9],
    pub focus: &'static [Focus],
    /// Runs of the quick check.
    pub runs: u64,
}

macro_rules! prof {
    ($id:ident, [$($c:ident),*], $u:expr, $e:expr, [$($f:ident),*], $r:expr) => {
        Prof { id: stringify!($id), classes: &[$(Class::$c),*], unwind: $u, engines: $e, focus: &[$(Focus::$f),*], runs: $r }
    };
}

// Engines:                                            Raw Par Mix Iso Ent Net LRaw LPar Life
pub static PROFS: [Prof; 18] = [
    prof!(C01, [Token], false,                        [1280, 240, 240, 0, 0, 0, 1, 0, 0], [General], 1_600_000),
    prof!(C02, [Demand], false,                       [480, 800, 160, 0, 160, 240, 1, 1, 0], [General, Recovered, Delim, Rep], 1_000_000),
    prof!(C03, [Eof], false,                          [960, 480, 160, 0, 160, 160, 1, 1, 0], [General, Strategy], 1_300_000),
    prof!(C04, [Token, Demand, Eof, Retention, Location, FailCursor, Exact, TriState, Recovery, FailReport, Delim,
                Isolation, Tiling, Resync, Entry], true, [640, 800, 320, 0, 0, 0, 1, 1, 0], [General, Strategy, Delim, Alt], 900_000),
    prof!(C05, [Retention], false,                    [8, 8, 4, 0, 0, 4, 1, 1, 0], [General, Rep], 130_000),
    prof!(C06, [Location], false,                     [640, 1120, 160, 0, 240, 0, 1, 1, 0], [Spans, Strategy], 1_400_000),
    prof!(C07, [FailCursor], false,                   [0, 1280, 80, 0, 0, 0, 0, 1, 0], [Cursor, Recovered, Strategy], 1_300_000),
    prof!(C08, [Exact], false,                        [0, 1280, 240, 0, 0, 0, 0, 1, 0], [General, Rep, Alt], 1_100_000),
    prof!(C09, [TriState], false,                     [0, 1280, 80, 0, 80, 0, 0, 1, 0], [Recovered, Rep, Strategy], 1_300_000),
    prof!(C10, [Recovery], false,                     [0, 1280, 160, 0, 0, 80, 0, 1, 0], [Strategy], 1_600_000),
    prof!(C11, [FailReport], false,                   [0, 1280, 80, 0, 0, 0, 0, 1, 0], [Alt], 1_000_000),
    prof!(C12, [Delim], false,                        [0, 1280, 80, 0, 0, 0, 0, 1, 0], [Delim], 1_000_000),
    prof!(C13, [Isolation], false,                    [0, 0, 0, 1280, 0, 0, 0, 0, 0], [General, Strategy, Delim, Alt], 300_000),
    prof!(C14, [Tiling], false,                       [0, 1120, 160, 0, 0, 400, 0, 1, 0], [General, Recovered, Strategy], 900_000),
    prof!(C15, [Resync], false,                       [0, 0, 0, 0, 0, 1280, 0, 0, 0], [General], 1_200_000),
    prof!(C16, [Entry], false,                        [0, 0, 0, 0, 1280, 0, 0, 0, 0], [General, Recovered, Strategy], 1_000_000),
    prof!(C20, [Calls], false,                        [0, 1280, 160, 0, 160, 0, 0, 1, 0], [General, Recovered, Alt, Strategy, Delim], 1_000_000),
    prof!(C19, [Misuse], false,                       [0, 0, 0, 0, 0, 0, 0, 0, 1], [General, Recovered, Alt], 500_000),
];

pub fn prof(id: &str) -> Option<&'static Prof> {
    PROFS.iter().find(|p| p.id == id)
}

impl Prof {
    pub fn relevant(&self, v: &Violation) -> bool {
        v.class == Class::Crash || (self.classes.contains(&v.class) && (!self.unwind || v.after_unwind))
    }
}

/// What one run leaves behind.
pub struct Outcome {
    pub viol: Vec<Violation>,
    pub hash: u64,
    pub time: u64,
    pub faults: [u64; F_NAMES.len()],
    pub probes: [u64; P_NAMES.len()],
    pub gen: Vec<u32>,
    pub sched: Vec<u32>,
    pub trace: Vec<String>,
    pub text: String,
}

pub fn execute(p: &'static Prof, g: Chooser, s: Chooser, tracing: bool) -> Outcome {
    reset(g, s, tracing);
    reset_live();
    proto::reset_nets();
    TEXTOUT.with(|t| t.borrow_mut().clear());
    let r = std::panic::catch_unwind(|| scenario(p));
    if r.is_err() {
        // Only code of the simulator runs outside of guarded parts, apart from
        // the construction of parsers and streams.
        let m = W.with(|w| w.last_panic.borrow().clone());
        violation(Class::Crash, || format!("panic outside of an operation: {m}"));
    }
    let r = guarded(u64::MAX / 2, || {
        let s = W.with(|w| std::mem::take(&mut *w.sessions.borrow_mut()));
        drop(s);
    });
    if let Caught::Panic(m) = r {
        violation(Class::Crash, || format!("dropping a session panicked: {m}"));
    }
    let text = TEXTOUT.with(|t| t.borrow().clone());
    W.with(|w| Outcome {
        viol: std::mem::take(&mut *w.viol.borrow_mut()),
        hash: w.hash.get(),
        time: w.time.get(),
        faults: *w.faults.borrow(),
        probes: *w.probes.borrow(),
        gen: std::mem::take(&mut w.gen.borrow_mut().log),
        sched: std::mem::take(&mut w.sched.borrow_mut().log),
        trace: std::mem::take(&mut *w.trace.borrow_mut()),
        text,
    })
}

thread_local! {
    static TEXTOUT: RefCell<String> = const { RefCell::new(String::new()) };
}
fn say(f: impl FnOnce() -> String) {
    if W.with(|w| w.tracing.get()) {
        let h = heap();
        let s = f();
        TEXTOUT.with(|t| {
            let mut t = t.borrow_mut();
            t.push_str(&s);
            t.push('\n');
        });
        set_heap(h);
    }
}

/// Types a scenario is instantiated with.
fn with_error(which: usize, f: impl ErrorFn) {
    match which {
        0 => f.call::<error::Simple<Tok, location::Simple>>(),
        1 => f.call::<error::Simple<Tok, Rich>>(),
        2 => f.call::<error::Simple<Tok, Fold>>(),
        4 => f.call::<UserErr<error::Simple<Tok, Fold>>>(),
        _ => f.call::<error::Void<Tok>>(),
    }
}
trait ErrorFn {
    fn call<E: TErr>(self);
}

fn scenario(p: &'static Prof) {
    let e = ENGS[gen(|c| c.weighted(&p.engines))];
    let huge = gen(|c| c.chance(1, 200));
    if huge {
        W.with(|w| w.big.set(true));
    }
    let focus = gen(|c| *c.pick(p.focus));
    let preempt = gen(|c| [0, 2, 4, 8, 20][c.weighted(&[2, 1, 2, 2, 2])]);
    if p.unwind {
        // Callbacks unwind a few times, at the crash points of some runs.
        let (rate, left) = gen(|c| ([0, 3, 8, 20, 60][c.below(5)], c.range(1, 4)));
        W.with(|w| {
            w.cb_unwind.set(rate);
            w.cb_unwind_left.set(left as u32);
        });
    }
    W.with(|w| w.token_seams.set(gen(|c| c.chance(1, if p.unwind || p.id == "C13" { 3 } else { 8 }))));
    let set_preempt = |n: usize| W.with(|w| w.preempt.set(n));
    set_preempt(preempt);
    say(|| format!("engine {e:?}, focus {focus:?}, preemption 1/{preempt}"));
    let kind = match focus {
        Focus::General | Focus::Rep | Focus::Cursor => gen(|c| c.weighted(&[6, 2, 3, 1, 2])),
        Focus::Spans => gen(|c| c.weighted(&[2, 5, 4, 0, 2])),
        _ => gen(|c| c.weighted(&[6, 2, 3, 0, 2])),
    };
    match e {
        Eng::Raw => {
            for i in 0..gen(|c| 1 + c.weighted(&[5, 3, 1])) {
                raw_session(p, i as u16 + 1);
            }
        }
        Eng::Par | Eng::Mixed => {
            if e == Eng::Mixed {
                raw_session(p, 9);
            }
            with_error(kind, ParScenario { p, focus, long: false });
        }
        Eng::Iso => with_error(kind, Iso { p, focus }),
        Eng::Entry => with_error(kind, EntryScenario { p, focus }),
        Eng::Net => {
            let idiom = gen(|c| c.range(1, 9));
            with_error([0, 2, 0, 2, 4][kind], NetScenario { idiom });
        }
        Eng::Life => return with_error(kind, LifeScenario { p, focus }),
        Eng::LongRaw => {
            set_preempt(0);
            long_raw();
        }
        Eng::LongPar => {
            set_preempt(0);
            with_error(kind, ParScenario { p, focus, long: true });
        }
    }
    go();
}

/// Schedules until everybody is done, or somebody gives up early.
fn go() {
    let stop = sched(|c| if c.chance(1, 12) { Some(c.below(20)) } else { None });
    let mut n = 0;
    while run_one(Seam::Poll) {
        n += 1;
        if stop == Some(n) {
            let left = W.with(|w| w.sessions.borrow().iter().flatten().filter(|s| !s.done()).count());
            for _ in 0..left {
                fault(F::session_abandoned);
            }
            event(60, || "the remaining sessions are abandoned".into());
            break;
        }
        if W.with(|w| w.viol.borrow().len()) >= 48 {
            break;
        }
    }
}

fn add(s: Box<dyn Sess>) {
    W.with(|w| w.sessions.borrow_mut().push(Some(s)));
}

// ------------------------------------------------------------------- plans

fn alphabet(c: &mut Chooser, delims: bool) -> Vec<K> {
    let mut a: Vec<K> = vec![];
    let n = c.range(2, 6);
    while a.len() < n {
        // Mostly plain characters, sometimes the odd texts.
        let k = if c.chance(1, 4) { c.below(KINDS) } else { c.below(6) } as K;
        if a.contains(&k) {
            a.push((0..KINDS as K).find(|k| !a.contains(k)).unwrap());
        } else {
            a.push(k);
        }
    }
    if delims {
        for k in &DELIM_KINDS[..5] {
            if !a.contains(k) && c.chance(7, 8) {
                a.push(*k);
            }
        }
    }
    a
}

/// Faults of the channel that feeds a session.
fn damage(kinds: &mut Vec<K>, alphabet: &[K]) {
    gen(|c| {
        for _ in 0..c.weighted(&[4, 3, 2, 1]) {
            if kinds.is_empty() {
                return;
            }
            let i = c.below(kinds.len());
            match c.below(5) {
                0 => {
                    fault(F::token_loss);
                    kinds.remove(i);
                }
                1 => {
                    fault(F::token_duplicate);
                    let k = kinds[i];
                    kinds.insert(i, k);
                }
                2 if i + 1 < kinds.len() => {
                    fault(F::token_reorder);
                    kinds.swap(i, i + 1);
                }
                3 => {
                    fault(F::token_corrupt);
                    kinds[i] = *c.pick(alphabet);
                }
                _ => {
                    fault(F::truncate);
                    kinds.truncate(i);
                }
            }
        }
        if big() && c.chance(1, 2) {
            // A lot of garbage in one place.
            fault(F::token_burst);
            let i = c.below(kinds.len() + 1);
            let (n, same) = (c.range(20, 300), c.chance(1, 2));
            let k = *c.pick(alphabet);
            let junk: Vec<K> = (0..n).map(|_| if same { k } else { *c.pick(alphabet) }).collect();
            kinds.splice(i..i, junk);
        }
    });
}

fn source_faults(p: &Prof, plan: &mut Plan) {
    gen(|c| {
        let n = plan.kinds.len();
        if c.chance(1, 3) {
            plan.resume = (0..c.range(1, 3)).map(|_| c.below(KINDS) as K).collect();
        }
        if c.chance(1, 3) {
            plan.stall = (0..=n).map(|_| if c.chance(1, 3) { c.range(1, 1000) as u32 } else { 0 }).collect();
        }
        if p.unwind || (p.id == "C13" && c.chance(1, 4)) {
            let often = c.range(1, 8);
            if big() && c.chance(1, 2) {
                // Once, wherever that is.
                plan.unwind = vec![0; n + 1];
                plan.unwind[c.below(n + 1)] = 1;
                return;
            }
            plan.unwind = (0..=n).map(|_| if c.chance(1, often * 2) { c.range(1, 2) as u8 } else { 0 }).collect();
        }
    });
}

/// Where the locations begin.
fn start_variant(c: &mut Chooser) -> u32 {
    if c.chance(1, 2) {
        if big() && c.chance(1, 2) {
            return c.range(6, 9) as u32;
        }
        c.range(1, 5) as u32
    } else {
        0
    }
}

fn raw_plan(p: &Prof) -> Rc<Plan> {
    let mut plan = Plan::default();
    gen(|c| {
        let n = match c.weighted(&[1, 4, 3]) {
            0 => 0,
            1 => c.range(1, 12),
            _ if big() => c.range(1, 400),
            _ => c.range(1, 48),
        };
        plan.kinds = (0..n).map(|_| c.below(KINDS) as K).collect();
    });
    source_faults(p, &mut plan);
    Rc::new(plan)
}

/// A few sentences of the grammar, damaged on their way, and some junk.
fn gram_plan(p: &Prof, gr: &Grammar, alphabet: &[K], focus: Focus) -> Rc<Plan> {
    let mut plan = Plan::default();
    let mut kinds: Vec<K> = vec![];
    gen(|c| {
        for _ in 0..c.weighted(&[1, 4, 3, 2, 1]) {
            let mut fuel = if big() { 1200 } else { 60 };
            sample(&gr.root, gr, alphabet, c, &mut fuel, &mut kinds);
            if let Some((l, r, x)) = gr.deep {
                let n = c.range(1, 250);
                kinds.extend(std::iter::repeat_n(l, n));
                kinds.push(x);
                kinds.extend(std::iter::repeat_n(r, n));
            }
            if focus == Focus::Delim {
                nest(c, alphabet, &mut kinds);
            }
            if c.chance(1, 4) {
                for _ in 0..c.range(1, 3) {
                    kinds.push(*c.pick(alphabet));
                }
            }
        }
        if gr.flood {
            let n = c.range(20, 250);
            let junk: Vec<K> = (0..n).map(|_| *c.pick(alphabet)).collect();
            let i = c.below(kinds.len() + 1);
            kinds.splice(i..i, junk);
        }
        kinds.truncate(if big() { 600 } else { 56 });
    });
    damage(&mut kinds, alphabet);
    plan.kinds = kinds;
    source_faults(p, &mut plan);
    Rc::new(plan)
}

/// A nested region that starts at a left delimiter.
fn nest(c: &mut Chooser, alphabet: &[K], out: &mut Vec<K>) {
    let pairs = [(LP, RP), (LB, RB), (BAR, BAR), (0, 1)];
    let mut open: Vec<usize> = vec![];
    let set = c.range(1, 4);
    // Opening much more often than closing goes deep.
    let (n, opens) = if big() { (c.range(14, 300), c.range(3, 40) as u32) } else { (c.range(2, 14), 5) };
    for i in 0..n {
        let w = if i == 0 { 0 } else { c.weighted(&[opens, 5, 2, 2]) };
        match w {
            0 => {
                let t = c.below(set);
                out.push(pairs[t].0);
                open.push(t);
            }
            1 => {
                if let Some(t) = open.pop() {
                    out.push(pairs[t].1)
                }
            }
            2 => out.push(*c.pick(alphabet)),
            _ => out.push(pairs[c.below(set)].1),
        }
    }
    if c.chance(2, 3) {
        while let Some(t) = open.pop() {
            out.push(pairs[t].1);
        }
    }
}

// ---------------------------------------------------------------- grammars

fn draw_cfg(c: &mut Chooser, focus: Focus) -> Cfg {
    let delims = focus == Focus::Delim || c.chance(1, 6);
    let alphabet = alphabet(c, delims);
    let mut w = |hi: usize| if c.chance(1, 6) { 0 } else { c.range(1, hi) as u32 };
    let mut cfg = Cfg {
        leaf: w(3),
        seq: 1 + w(7),
        alt: w(6),
        rep: w(6),
        map: w(5),
        rec: w(6),
        reff: w(4),
        nodes: 0,
        depth: 0,
        defs: 0,
        delim: 0,
        probe: 0,
        alphabet,
    };
    cfg.nodes = c.range(2, if big() { 40 } else { 14 });
    cfg.depth = c.range(1, if big() { 9 } else { 5 });
    cfg.defs = c.weighted(&[3, 3, 1]);
    match focus {
        Focus::General => (),
        Focus::Alt => cfg.alt += 10,
        Focus::Strategy => cfg.rec += 12,
        Focus::Recovered => {
            cfg.rec += 6;
            cfg.rep += 5;
            cfg.map += 4;
            cfg.alt += 3;
        }
        Focus::Spans => {
            cfg.map += 8;
            cfg.rec += 5;
        }
        Focus::Rep => cfg.rep += 12,
        Focus::Delim => {
            cfg.rec += 4;
            cfg.delim = c.range(2, 7);
        }
        Focus::Cursor => {
            cfg.map += 4;
            cfg.rec += 4;
        }
    }
    cfg.probe = if focus == Focus::Cursor { 10 } else { c.below(6) };
    cfg
}

fn draw_grammar(focus: Focus) -> (Grammar, Vec<K>) {
    gen(|c| {
        let cfg = draw_cfg(c, focus);
        let mut g = Gen { c, cfg: &cfg, left: cfg.nodes, tag: 0 };
        let mut gr = g.grammar();
        if big() && !gr.defs.is_empty() && g.c.chance(1, 4) {
            nesting(&mut g, &mut gr);
        }
        let root = std::mem::replace(&mut gr.root, G::Empty);
        let d = cfg.depth.min(3);
        gr.root = match focus {
            // The region is a pair of delimiters whose content fails; the
            // strategy scans for where it closes.
            Focus::Delim => {
                let set = g.c.below(DELIMS.len());
                let pair = &DELIMS[set][g.c.below(DELIMS[set].len())];
                let (l, r) = (G::Just(pair.0.k), G::Just(pair.1.k));
                let body = match g.c.below(3) {
                    0 => root,
                    1 => G::Rep { item: Box::new(non_null(root)), sep: None, min: 0, max: None, lead: false, trail: false, form: 0 },
                    _ => G::Just(g.k()),
                };
                let region = G::Delimited(Box::new(l), Box::new(body), Box::new(r));
                let mut steps = vec![];
                if g.c.chance(1, 6) {
                    steps.push(Step::Skip);
                }
                steps.push(Step::ScanDelim(set));
                if g.c.chance(2, 3) {
                    steps.push(Step::Skip);
                }
                if g.c.chance(1, 6) {
                    steps.push(Step::ScanDelim(g.c.below(DELIMS.len())));
                }
                let f = if g.c.chance(1, 5) { Fin::OrFail } else { Fin::ReturnSpan(1) };
                let r = G::Recover(Box::new(region), steps, f);
                if g.c.chance(1, 3) {
                    // Any number of regions, in one parse.
                    let k = g.k();
                    G::Then(Box::new(r), Box::new(G::OrNot(Box::new(G::Just(k)))))
                } else {
                    r
                }
            }
            Focus::Strategy if g.c.chance(2, 3) => {
                let n = g.c.weighted(&[0, 3, 5, 3, 2]);
                let steps = g.steps(n, d, false, false);
                let f = match g.c.below(4) {
                    0 => Fin::OrFail,
                    1 => Fin::Return(1),
                    2 => Fin::ReturnSpan(2),
                    _ => Fin::ReturnWith(3),
                };
                G::Recover(Box::new(root), steps, f)
            }
            Focus::Alt if g.c.chance(1, 12) => G::Alters(g.many()),
            Focus::Alt if g.c.chance(2, 3) => {
                let mut gs = vec![root];
                for _ in 0..g.c.range(1, 3) {
                    let x = g.g(d, true);
                    gs.push(x);
                }
                G::Alters(gs)
            }
            Focus::Recovered if big() && g.c.chance(1, 2) => {
                // Dozens of recoveries, in more than one part of a sequence.
                gr.flood = true;
                let item = if g.c.chance(1, 2) { G::Just(g.k()) } else { non_null(root) };
                let lists = g.c.chance(1, 2);
                let mut parts = vec![];
                for i in 0..if lists { g.c.range(2, 4) } else { g.c.range(2, 90) } {
                    let x = if g.c.chance(1, 3) { non_null(g.g(1, false)) } else { item.clone() };
                    let x = G::Recover(Box::new(x), vec![Step::Skip], Fin::Return(i as u32));
                    if !lists || g.c.chance(1, 4) {
                        parts.push(x);
                        continue;
                    }
                    let sep = if g.c.chance(1, 4) { Some(Box::new(G::Just(g.k()))) } else { None };
                    let max = g.c.range(2, 90);
                    // Only items that must be there recover.
                    let min = g.c.range(1, max);
                    parts.push(G::Rep { item: Box::new(x), sep, min, max: Some(max), lead: false, trail: false, form: 0 });
                }
                if g.c.chance(1, 2) {
                    G::Chain(parts)
                } else {
                    parts.into_iter().reduce(|a, b| G::Then(Box::new(a), Box::new(b))).unwrap()
                }
            }
            Focus::Recovered if g.c.chance(1, 2) => {
                let min = g.c.below(4);
                let sep = if g.c.chance(1, 2) { Some(Box::new(G::Just(g.k()))) } else { None };
                let rec = G::Recover(Box::new(non_null(root)), vec![Step::Skip], Fin::Return(1));
                let max = Some(min + g.c.below(3)).filter(|m| *m > 0);
                G::Rep { item: Box::new(rec), sep, min, max: max.or(Some(2)), lead: false, trail: g.c.chance(1, 4), form: 0 }
            }
            Focus::Rep if g.c.chance(2, 3) => {
                let sep = if g.c.chance(3, 4) { Some(Box::new(G::Just(g.k()))) } else { None };
                let min = g.c.below(3);
                let max = if g.c.chance(1, 3) { Some(min + g.c.range(1, 2)) } else { None };
                let (lead, trail) = (sep.is_some() && g.c.chance(1, 2), sep.is_some() && g.c.chance(1, 2));
                let form = g.c.below(3) as u8;
                G::Rep { item: Box::new(non_null(root)), sep, min, max, lead, trail, form }
            }
            _ => root,
        };
        (gr, cfg.alphabet)
    })
}

/// Makes the first definition one that nests, and the root one that uses it.
fn nesting(g: &mut Gen, gr: &mut Grammar) {
    let (l, r, x) = (g.k(), g.k(), g.k());
    let me = Box::new(G::Ref(0));
    let inner = match g.c.below(4) {
        0 => me,
        1 => Box::new(G::OrNot(me)),
        2 => Box::new(G::MapSpan(me, 7)),
        _ => Box::new(G::Rep { item: me, sep: None, min: 0, max: None, lead: false, trail: false, form: 0 }),
    };
    let (jl, jr, jx) = (Box::new(G::Just(l)), Box::new(G::Just(r)), G::Just(x));
    let mut d = G::Delimited(jl, inner, jr);
    if g.c.chance(1, 4) {
        d = G::Recover(Box::new(d), vec![Step::Find(1 << r), Step::Skip], Fin::Return(1));
    }
    gr.defs[0] = if g.c.chance(1, 2) { G::Alters(vec![d, jx]) } else { G::Or(Box::new(jx), Box::new(d)) };
    let root = std::mem::replace(&mut gr.root, G::Empty);
    gr.root = match g.c.below(3) {
        0 => G::Ref(0),
        1 => G::Then(Box::new(G::Ref(0)), Box::new(root)),
        _ => G::OrNot(Box::new(G::Ref(0))),
    };
    gr.deep = Some((l, r, x));
}

fn non_null(g: G) -> G {
    if nullable(&g) {
        G::Then(Box::new(g), Box::new(G::Filter(0x0fff)))
    } else {
        g
    }
}

// --------------------------------------------------------------- scenarios

fn raw_session(p: &Prof, sess: u16) {
    let plan = raw_plan(p);
    let (which, variant) = gen(|c| (c.below(3), start_variant(c)));
    // Swarm: some kinds of operations are left out.
    let w: [u32; 15] = gen(|c| std::array::from_fn(|i| if c.chance(1, 5) { 0 } else { [6, 8, 5, 2, 5, 4, 7, 4, 4, 2, 3, 2, 3, 1, 4][i] }));
    let (n, far) = gen(|c| if big() { (c.range(40, 300), c.range(1, 80)) } else { (c.range(1, 40), c.range(1, 10)) });
    let mut w = w;
    if w.iter().all(|x| *x == 0) {
        w[0] = 1;
    }
    let ops = draw_ops(n, far, 2, &w);
    say(|| format!("raw session {sess}: start {variant}, {plan:?}\n  tokens: {}\n  ops {ops:?}", names(&plan.kinds)));
    let out = Rc::new(Cell::new(0));
    match which {
        0 => add(Box::new(RawSess::<location::Simple>::new(sess, &plan, variant, ops, 1, true, out))),
        1 => add(Box::new(RawSess::<Rich>::new(sess, &plan, variant, ops, 1, true, out))),
        _ => add(Box::new(RawSess::<Fold>::new(sess, &plan, variant, ops, 1, true, out))),
    }
}

fn long_raw() {
    let ops = {
        let n = gen(|c| c.range(4, 24));
        // Progress, few positions held at a time.
        let w = gen(|c| [4, 8, 4, 1, 6, c.below(4) as u32, 4, 8, 2, 1, 1, 1, 1, 0, 6]);
        let far = gen(|c| c.range(1, 6));
        let mut ops = draw_ops(n, far, 2, &w);
        // Nothing stays saved from one round to the next.
        ops.extend((0..24).map(|_| ROp::Drop(0)));
        ops.push(ROp::Advance);
        if big() {
            ops.push(ROp::AdvanceTo(gen(|c| c.range(50, 300))));
        }
        ops
    };
    // Past what two bytes count, if it is to be big.
    let n = gen(|c| if big() { c.range(65_000, 72_000) } else { c.range(2000, 6000) });
    let mut plan = Plan::default();
    let pat: Vec<K> = gen(|c| (0..7).map(|_| c.below(KINDS) as K).collect());
    plan.kinds = (0..n).map(|i| pat[i % 7]).collect();
    say(|| format!("long raw session: {n} tokens, repeating {ops:?}"));
    let plan = Rc::new(plan);
    let repeat = (if big() { 70_000 } else { 12_000 } / ops.len()).max(8);
    let out = Rc::new(Cell::new(0));
    match gen(|c| c.below(3)) {
        0 => add(Box::new(RawSess::<location::Simple>::new(1, &plan, 0, ops, repeat, true, out))),
        1 => add(Box::new(RawSess::<Rich>::new(1, &plan, 1, ops, repeat, true, out))),
        _ => add(Box::new(RawSess::<Fold>::new(1, &plan, 1, ops, repeat, true, out))),
    }
}

fn par_ops(streaming: bool, n: usize) -> Vec<POp> {
    gen(|c| {
        let mut ops = vec![];
        if streaming {
            let tail = c.chance(1, 3);
            let k = if tail { c.below(n / 4 + 3) } else { (n + 4).min(if big() { 700 } else { 40 }) };
            let hops = c.chance(1, 4);
            ops.extend((0..k).map(|_| if hops && c.chance(1, 2) { POp::Nth(c.below(4)) } else { POp::Next }));
            if tail {
                let jump = |c: &mut Chooser| if hops { c.below(4) } else { 0 };
                if c.chance(1, 2) {
                    let n = c.below(4);
                    ops.push(POp::Tail(Some(n), jump(c)));
                }
                ops.push(if c.chance(1, 4) { POp::Rest } else { POp::Tail(None, jump(c)) });
            }
        } else {
            for _ in 0..if big() { c.range(14, 60) } else { c.range(2, 14) } {
                ops.push(match c.weighted(&[4, 4, 1, 2, 1, 5, 5, 4]) {
                    0 => POp::Save,
                    1 => POp::Restore(c.below(8)),
                    2 => POp::Drop(c.below(8)),
                    3 => POp::Skip(c.below(if big() { 100 } else { 5 })),
                    4 => POp::Token,
                    5 => POp::Parse(true),
                    6 => POp::Parse(false),
                    _ => POp::Both,
                });
            }
        }
        ops
    })
}

/// Sessions one after the other, of which each begins when the last has ended.
struct Relay {
    make: Vec<Box<dyn FnOnce() -> Box<dyn Sess>>>,
    cur: Option<Box<dyn Sess>>,
}
impl Sess for Relay {
    fn step(&mut self) {
        if self.cur.is_none() {
            self.cur = self.make.pop().map(|f| f());
        }
        if let Some(s) = &mut self.cur {
            s.step();
            if s.done() {
                self.cur = None;
            }
        }
    }
    fn done(&self) -> bool {
        self.cur.is_none() && self.make.is_empty()
    }
}

struct ParScenario {
    p: &'static Prof,
    focus: Focus,
    long: bool,
}
impl ErrorFn for ParScenario {
    fn call<E: TErr>(self) {
        let (mut gr, alphabet) = draw_grammar(self.focus);
        if matches!(self.p.id, "C09" | "C20") && !self.long && gen(|c| c.chance(1, 8)) {
            gr.flaky = gen(|c| c.range(1, 200)) as u64;
        }
        say(|| format!("error type {}, tracker {}\ngrammar {gr:#?}", E::NAME, E::Trk::NAME));
        let gr = Rc::new(gr);
        let parser: Rc<BP<E>> = Rc::new(build::<E>(&gr));
        no_calls("by building the parser");
        if self.long {
            let mut plan = Plan::default();
            let mut one = vec![];
            gen(|c| {
                while one.len() < 200 && c.below(40) != 39 {
                    let mut fuel = 60;
                    sample(&gr.root, &gr, &alphabet, c, &mut fuel, &mut one);
                    one.push(*c.pick(&alphabet));
                }
            });
            if one.is_empty() {
                one.push(alphabet[0]);
            }
            plan.kinds = one.iter().cycle().take(1500).copied().collect();
            say(|| format!("long session: 1500 tokens, repeating {}", names(&one)));
            // Failed results do not move the cursor; step over a token then.
            let streaming = gen(|c| c.below(3)) == 0;
            let ops = if streaming {
                // The tail may be most of it.
                let k = gen(|c| if c.chance(1, 2) { c.below(24) } else { 700 });
                let mut ops = vec![POp::Next; k];
                ops.push(POp::Tail(None, 0));
                ops
            } else {
                let round = gen(|c| match c.below(3) {
                    0 => vec![POp::Parse(true), POp::Skip(1)],
                    1 => vec![POp::Save, POp::Parse(false), POp::Restore(0), POp::Drop(0), POp::Parse(true), POp::Skip(1)],
                    _ => vec![POp::Both, POp::Token, POp::Skip(1)],
                });
                round.iter().cycle().take(round.len() * 250).cloned().collect()
            };
            let out = Rc::new(Cell::new(0));
            add(Box::new(ParSess::<E>::new(1, &gr, &parser, &Rc::new(plan), 0, streaming, ops, true, true, out)));
            return;
        }
        if big() && gen(|c| c.chance(1, if self.p.unwind { 2 } else { 4 })) {
            // One parser in use for a long time.
            let plans: Vec<_> = (0..gen(|c| c.range(1, 8))).map(|_| gram_plan(self.p, &gr, &alphabet, self.focus)).collect();
            let n = gen(|c| c.range(50, 300));
            say(|| format!("{n} sessions one after the other, of {} inputs", plans.len()));
            plans.iter().for_each(|p| say(|| format!("  tokens: {}\n  {p:?}", names(&p.kinds))));
            let mut relay = Relay { make: vec![], cur: None };
            for _ in 0..n {
                let (plan, rec) = gen(|c| (c.pick(&plans).clone(), c.chance(3, 4)));
                let (gr, parser) = (gr.clone(), parser.clone());
                relay.make.push(Box::new(move || {
                    let out = Rc::new(Cell::new(0));
                    let mut s = ParSess::<E>::new(30, &gr, &parser, &plan, 0, false, vec![POp::Parse(rec)], true, false, out);
                    s.fuel = 10_000;
                    Box::new(s)
                }));
            }
            add(Box::new(relay));
        }
        for i in 0..gen(|c| 1 + c.weighted(&[5, 3, 1])) {
            let plan = gram_plan(self.p, &gr, &alphabet, self.focus);
            let variant = gen(start_variant);
            let streaming = gen(|c| c.chance(1, 2)) || self.p.id == "C14";
            let ops = par_ops(streaming, plan.len());
            say(|| format!("parsing session {}: start {variant}, streaming {streaming}, {plan:?}\n  tokens: {}\n  ops {ops:?}", i + 1, names(&plan.kinds)));
            let out = Rc::new(Cell::new(0));
            add(Box::new(ParSess::<E>::new(i as u16 + 1, &gr, &parser, &plan, variant, streaming, ops, true, false, out)));
        }
    }
}

/// The same grammar without the clones and boxes that must not matter.
fn plain(g: &G) -> G {
    use G::*;
    let b = |g: &G| Box::new(plain(g));
    match g {
        Cloned(g) => plain(g),
        To(g, t) => To(b(g), *t),
        Ignored(g) => Ignored(b(g)),
        SomeP(g) => SomeP(b(g)),
        Map(g, t) => Map(b(g), *t),
        MapSpan(g, t) => MapSpan(b(g), *t),
        MapErr(g, t) => MapErr(b(g), *t),
        MapErrSpan(g, t) => MapErrSpan(b(g), *t),
        TryMap(g, t) => TryMap(b(g), *t),
        Then(x, y) => Then(b(x), b(y)),
        ThenIgnore(x, y) => ThenIgnore(b(x), b(y)),
        IgnoreThen(x, y) => IgnoreThen(b(x), b(y)),
        Delimited(x, y, z) => Delimited(b(x), b(y), b(z)),
        Padded(x, y) => Padded(b(x), b(y)),
        Chain(gs) => Chain(gs.iter().map(plain).collect()),
        Or(x, y) => Or(b(x), b(y)),
        OrNot(g) => OrNot(b(g)),
        Alters(gs) => Alters(gs.iter().map(plain).collect()),
        Rep { item, sep, min, max, lead, trail, form } => Rep {
            item: b(item),
            sep: sep.as_ref().map(|s| b(s)),
            min: *min,
            max: *max,
            lead: *lead,
            trail: *trail,
            form: *form,
        },
        Recover(g, s, f) => Recover(b(g), plain_steps(s), f.clone()),
        Probe(g) => Probe(b(g)),
        Peek(g, not, t) => Peek(b(g), *not, *t),
        g => g.clone(),
    }
}
fn plain_steps(s: &[Step]) -> Vec<Step> {
    s.iter()
        .map(|s| match s {
            Step::Maybe(s) => Step::Maybe(plain_steps(s)),
            Step::WhileNot(m, s) => Step::WhileNot(*m, plain_steps(s)),
            Step::Try { g, exact, silent } => Step::Try { g: Box::new(plain(g)), exact: *exact, silent: *silent },
            Step::Boxed => Step::Nothing,
            s => s.clone(),
        })
        .collect()
}

struct Iso {
    p: &'static Prof,
    focus: Focus,
}
impl ErrorFn for Iso {
    fn call<E: TErr>(self) {
        let (gr, alphabet) = draw_grammar(self.focus);
        say(|| format!("error type {}, tracker {}\ngrammar {gr:#?}", E::NAME, E::Trk::NAME));
        let simple = Rc::new(Grammar { defs: gr.defs.iter().map(plain).collect(), root: plain(&gr.root), deep: None, flood: false, flaky: 0 });
        let gr = Rc::new(gr);
        let parser: Rc<BP<E>> = Rc::new(build::<E>(&gr));
        no_calls("by building the parser");
        let k = gen(|c| 1 + c.weighted(&[1, 4, 2, 1]));
        let mut what = vec![];
        for i in 0..k {
            let plan = gram_plan(self.p, &gr, &alphabet, self.focus);
            let variant = gen(|c| c.below(3)) as u32;
            let streaming = gen(|c| c.chance(1, 2));
            let ops = par_ops(streaming, plan.len());
            say(|| format!("session {}: start {variant}, streaming {streaming}, {plan:?}\n  tokens: {}\n  ops {ops:?}", i + 1, names(&plan.kinds)));
            what.push((plan, variant, streaming, ops));
        }
        let phase = |parser: &Rc<BP<E>>, only: Option<usize>| -> Vec<u64> {
            let mut outs = vec![];
            for (i, (plan, variant, streaming, ops)) in what.iter().enumerate() {
                let out = Rc::new(Cell::new(0));
                if only.is_none() || only == Some(i) {
                    add(Box::new(ParSess::<E>::new(i as u16 + 1, &gr, parser, plan, *variant, *streaming, ops.clone(), false, false, out.clone())));
                }
                outs.push(out);
            }
            while run_one(Seam::Poll) {}
            W.with(|w| w.sessions.borrow_mut().clear());
            outs.iter().map(|o| o.get()).collect()
        };
        event(61, || "phase 1: all sessions, interleaved".into());
        let together = phase(&parser, None);
        let preempt = W.with(|w| w.preempt.replace(0));
        for i in 0..k {
            event(62, || format!("phase 2: session {} alone, newly built parser without clones", i + 1));
            let fresh: Rc<BP<E>> = Rc::new(build::<E>(&simple));
            let alone = phase(&fresh, Some(i))[i];
            event(63, || format!("phase 3: session {} alone, parser of phase 1", i + 1));
            let again = phase(&parser, Some(i))[i];
            if together[i] != alone {
                violation(Class::Isolation, || {
                    format!("session {} of {k} has another history when it shares the parser with others than when it runs alone with a parser of its own", i + 1)
                });
            }
            if again != alone {
                violation(Class::Isolation, || format!("session {} has another history when it is repeated with a used parser than with a new one", i + 1));
            }
        }
        W.with(|w| w.preempt.set(preempt));
    }
}

struct EntryScenario {
    p: &'static Prof,
    focus: Focus,
}
impl ErrorFn for EntryScenario {
    fn call<E: TErr>(self) {
        let (gr, alphabet) = draw_grammar(self.focus);
        let plan = gram_plan(self.p, &gr, &alphabet, self.focus);
        let variant = gen(|c| if big() { start_variant(c) } else { c.range(1, 5) as u32 });
        say(|| format!("error type {}, tracker {}\ngrammar {gr:#?}\n{plan:?}\n tokens: {}\n starts 0 and {variant}", E::NAME, E::Trk::NAME, names(&plan.kinds)));
        let parser: Rc<BP<E>> = Rc::new(build::<E>(&gr));
        no_calls("by building the parser");
        let toks = plan.toks();
        let tables = [E::Trk::table(0, &toks), E::Trk::table(variant, &toks)];
        let mut m = Model::new(&gr, &toks, &tables[0], E::VOID, 0, 0);
        m.parse_root(true);
        if m.overflow {
            probe(P::model_overflow);
            return;
        }
        let (demand, budget, calls) = (m.demand, m.cost * 50 + 20_000, m.flags.calls);
        let mut outs = vec![];
        for (vi, v) in [0, variant].into_iter().enumerate() {
            for which in 0..ENTRIES.len() {
                if vi == 1 && [2, 4, 6].contains(&which) {
                    continue;
                }
                let out = Rc::new(RefCell::new(None));
                outs.push((vi, which, out.clone()));
                add(Box::new(Entry::<E> {
                    parser: parser.clone(),
                    plan: plan.clone(),
                    sess: outs.len() as u16,
                    variant: v,
                    which,
                    budget,
                    demand,
                    calls,
                    out,
                    finished: false,
                }));
            }
        }
        while run_one(Seam::Poll) {}
        W.with(|w| w.sessions.borrow_mut().clear());
        let get = |vi: usize, which: usize| {
            outs.iter().find(|o| o.0 == vi && o.1 == which).and_then(|o| o.2.borrow().clone())
        };
        let Some(EntryOut::Full(base)) = get(0, 0) else { return };
        probe(match &base {
            Res::Ok(_) => P::success,
            Res::Rec(..) => P::recovered,
            Res::Fail(..) => P::failed,
        });
        for vi in 0..2 {
            let Some(EntryOut::Full(full)) = get(vi, 0) else { continue };
            if vi == 1 && full != relocate(&base, &tables) {
                violation(Class::Entry, || format!("with start {variant} the result is {full:?}, with the default start {base:?}"));
            }
            for which in 1..ENTRIES.len() {
                let Some(o) = get(vi, which) else { continue };
                let want = match which {
                    3 | 4 => match &full {
                        Res::Ok(v) => EntryOut::Short(Ok(v.clone())),
                        Res::Rec(_, es) | Res::Fail(_, es) if !es.is_empty() => EntryOut::Short(Err(es[0].clone())),
                        _ => continue,
                    },
                    5 | 6 if plan.kinds.is_empty() => EntryOut::Nothing,
                    _ => EntryOut::Full(full.clone()),
                };
                // No default location, no default entry point.
                if o == EntryOut::Nothing && [2, 4, 6].contains(&which) && E::Trk::NAME == Rich::NAME {
                    continue;
                }
                if o != want {
                    violation(Class::Entry, || format!("{} gives {o:?}, {} gives {full:?}", ENTRIES[which], ENTRIES[0]));
                }
            }
        }
    }
}

/// What a result looks like if the start location is another one.
fn relocate(r: &Res, tables: &[Vec<Loc>; 2]) -> Res {
    fn at(a: NAt, t: &[Vec<Loc>; 2]) -> NAt {
        match a {
            NAt::Loc(l) => NAt::Loc(loc(l, t)),
            NAt::Span((x, y)) => NAt::Span((loc(x, t), loc(y, t))),
            a => a,
        }
    }
    fn loc(l: Loc, t: &[Vec<Loc>; 2]) -> Loc {
        t[1].get(l.idx).copied().unwrap_or(l)
    }
    fn err(e: &NErr, t: &[Vec<Loc>; 2]) -> NErr {
        match e.clone() {
            NErr::Expected(a, b, c, d) => NErr::Expected(a, b, c, at(d, t)),
            NErr::UnmatchedLeft(a, b, c, d) => NErr::UnmatchedLeft(a, b, at(c, t), at(d, t)),
            NErr::UnmatchedRight(a, b, c, d) => NErr::UnmatchedRight(a, b, at(c, t), at(d, t)),
            NErr::UnmatchedType(a, b, c, d, e, f) => NErr::UnmatchedType(a, b, at(c, t), d, e, at(f, t)),
            NErr::Custom(m, a) => NErr::Custom(m, at(a, t)),
            NErr::Void => NErr::Void,
        }
    }
    fn val(v: &Val, t: &[Vec<Loc>; 2]) -> Val {
        match v {
            Val::Spanned(s, g, v) => Val::Spanned(s.map(|(a, b)| (loc(a, t), loc(b, t))), *g, Box::new(val(v, t))),
            Val::List(vs) => Val::List(vs.iter().map(|v| val(v, t)).collect()),
            Val::Opt(o) => Val::Opt(o.as_ref().map(|v| Box::new(val(v, t)))),
            Val::Tag(g, v) => Val::Tag(*g, Box::new(val(v, t))),
            v => v.clone(),
        }
    }
    let errs = |es: &[NErr]| es.iter().map(|e| err(e, tables)).collect();
    match r {
        Res::Ok(v) => Res::Ok(val(v, tables)),
        Res::Rec(v, es) => Res::Rec(val(v, tables), errs(es)),
        Res::Fail(i, es) => Res::Fail(*i, errs(es)),
    }
}

/// Definitions that are made late, more than once or never.
struct LifeScenario {
    p: &'static Prof,
    focus: Focus,
}
impl ErrorFn for LifeScenario {
    fn call<E: TErr>(self) {
        let o = gen(|c| {
            let mut cfg = draw_cfg(c, self.focus);
            cfg.defs = 1 + c.weighted(&[4, 2, 1]);
            cfg.reff = c.range(3, 12) as u32;
            let mut g = Gen { c, cfg: &cfg, left: cfg.nodes, tag: 0 };
            let mut offers: Vec<Vec<G>> = vec![];
            let gr = g.grammar();
            for d in gr.defs {
                let mut of = vec![d];
                for _ in 0..g.c.weighted(&[1, 3, 2, 1]) {
                    g.left = 4;
                    let d = g.c.below(3);
                    let x = g.g(d, false);
                    of.push(non_null(x));
                }
                offers.push(of);
            }
            let i = g.c.below(offers.len());
            let r = G::Ref(i);
            // Mostly, a definition is reached soon.
            let root = match g.c.below(6) {
                0 => r,
                1 => G::Cloned(Box::new(r)),
                2 => G::OrNot(Box::new(r)),
                3 => G::Alters(vec![gr.root, r]),
                4 => G::Then(Box::new(r), Box::new(gr.root)),
                _ => gr.root,
            };
            (crate::life::Offers { offers, root }, cfg.alphabet)
        });
        let (o, alphabet) = o;
        let gr = Grammar { defs: o.offers.iter().map(|v| v[0].clone()).collect(), root: o.root.clone(), deep: None, flood: false, flaky: 0 };
        say(|| format!("error type {}, tracker {}\nroot {:#?}\noffers {:#?}", E::NAME, E::Trk::NAME, o.root, o.offers));
        let mut sessions = vec![];
        for i in 0..gen(|c| c.range(1, 3)) {
            let plan = gram_plan(self.p, &gr, &alphabet, self.focus);
            let s = gen(|c| crate::life::SessPlan {
                plan,
                variant: c.below(3) as u32,
                ops: (0..c.range(1, 10))
                    .map(|_| match c.weighted(&[5, 2, 1, 1]) {
                        0 => crate::life::LOp::Parse(true),
                        1 => crate::life::LOp::Parse(false),
                        2 => crate::life::LOp::Skip,
                        _ => crate::life::LOp::Fresh(c.below(3)),
                    })
                    .collect(),
                patience: c.range(1, 12),
            });
            say(|| format!("session {}: {s:?}\n  tokens: {}", i + 1, names(&s.plan.kinds)));
            sessions.push(s);
        }
        crate::life::run::<E>(&o, &sessions);
    }
}

struct NetScenario {
    idiom: usize,
}
impl ErrorFn for NetScenario {
    fn call<E: TErr>(self) {
        let parser: Rc<BP<E>> = Rc::new(proto::receiver::<E>(self.idiom));
        for i in 0..gen(|c| 1 + c.weighted(&[4, 2])) {
            let plan = proto::draw_plan(self.idiom);
            say(|| {
                let rs: Vec<String> = plan.records.iter().map(|r| names(r)).collect();
                format!("connection {}: {plan:?}\n  records {rs:?}", i + 1)
            });
            add(Box::new(proto::NetSess::<E>::new(i as u16 + 1, &parser, &plan, 0)));
        }
    }
}
