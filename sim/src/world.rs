//! The simulated world of one run: decisions, simulated time, step budget,
//! event log, fault counters and the sessions the scheduler may switch to.
//! One OS thread runs everything; a "switch" at a seam nests another session's
//! step on the stack, which is exactly what re-entrancy means to this library.

use crate::choice::{mix, Chooser};
use std::cell::{Cell, RefCell};

/// Payload of an injected unwinding.
pub struct SimFault;
/// Payload used to get out of an operation that exceeds its step budget.
pub struct Hang;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Class {
    Token,
    Demand,
    Eof,
    Retention,
    Location,
    FailCursor,
    Exact,
    TriState,
    Recovery,
    FailReport,
    Delim,
    Isolation,
    Tiling,
    Resync,
    Entry,
    Misuse,
    Calls,
    Crash,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: Class,
    pub after_unwind: bool,
    pub msg: String,
}

macro_rules! counters {
    ($name:ident, $names:ident, $($v:ident),*) => {
        #[allow(non_camel_case_types, dead_code)]
        #[derive(Clone, Copy)]
        pub enum $name { $($v),* }
        pub const $names: &[&str] = &[$(stringify!($v)),*];
    }
}
counters!(
    F, F_NAMES, source_stall, source_unwind, callback_unwind, tracker_unwind, token_unwind, answer_changed, truncate, end_but_would_resume, token_loss,
    token_duplicate, token_reorder, token_corrupt, token_burst, preempt_at_poll, preempt_at_callback,
    session_abandoned, drop_saved_position, net_delay, net_loss, net_duplicate, net_reorder,
    net_corrupt, net_truncate, net_partition, ack_loss, ack_duplicate, sender_timeout,
    undefined_parse, second_definition
);
counters!(
    P, P_NAMES, success, recovered, failed, results_in_nested_step, nesting_ge_2, discard_observed,
    rewind, rewind_after_discard_possible, forward_restore, save_future, save_past_end,
    past_end_advance, attempt_failed, op_unwound, parse_after_unwind, tail_taken, tail_mid_input, tail_skipped, tail_as_a_whole, nth_result,
    exact_and_recovering_agree, sep_list_ge_3, alt_third_or_later, recursion_ge_2,
    strategy_run, strategy_failed, delim_balanced, delim_mismatch, delim_eof,
    net_resync, record_accepted, record_intact, sender_done, deep_failure_ge_3, model_overflow,
    probe_failed, probe_recovered, defined_mid_operation, redefined_mid_operation, life_op_agrees
);

/// The invocations of callbacks so far, in order: how many, and a hash of what
/// each was called with.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Calls {
    pub n: u64,
    pub hash: u64,
}
impl Default for Calls {
    fn default() -> Self {
        Calls::new()
    }
}
impl Calls {
    pub const fn new() -> Self {
        Calls { n: 0, hash: 1 }
    }
    pub fn add(&mut self, site: u64, arg: u64) {
        self.n += 1;
        self.hash = mix(self.hash ^ mix(site.wrapping_mul(0x9e37_79b9).wrapping_add(arg)));
    }
}

pub trait Sess {
    fn step(&mut self);
    fn done(&self) -> bool;
}

pub struct World {
    pub gen: RefCell<Chooser>,
    pub sched: RefCell<Chooser>,
    pub steps: Cell<u64>,
    pub budget: Cell<u64>,
    pub time: Cell<u64>,
    pub tracing: Cell<bool>,
    pub trace: RefCell<Vec<String>>,
    pub hash: Cell<u64>,
    pub depth: Cell<u32>,
    pub preempt: Cell<usize>,
    pub cb_unwind: Cell<usize>,
    pub cb_unwind_left: Cell<u32>,
    /// Whether comparing and cloning tokens counts as invoking a callback.
    pub token_seams: Cell<bool>,
    pub sessions: RefCell<Vec<Option<Box<dyn Sess>>>>,
    pub faults: RefCell<[u64; F_NAMES.len()]>,
    pub probes: RefCell<[u64; P_NAMES.len()]>,
    pub viol: RefCell<Vec<Violation>>,
    pub last_panic: RefCell<String>,
    /// Whether anything has been unwound on purpose in this run.
    pub unwound: Cell<bool>,
    pub tracker_unwound: Cell<bool>,
    /// Whether the sizes of this run go far beyond the usual ones.
    pub big: Cell<bool>,
    /// Callbacks of the operation in progress.
    pub calls: Cell<Calls>,
    /// How often the predicates of each session have answered.
    pub turns: RefCell<[u64; 64]>,
}

thread_local! {
    pub static W: World = World {
        gen: RefCell::new(Chooser::replay(vec![])),
        sched: RefCell::new(Chooser::replay(vec![])),
        steps: Cell::new(0),
        budget: Cell::new(u64::MAX),
        time: Cell::new(0),
        tracing: Cell::new(false),
        trace: RefCell::new(vec![]),
        hash: Cell::new(0),
        depth: Cell::new(0),
        preempt: Cell::new(0),
        cb_unwind: Cell::new(0),
        cb_unwind_left: Cell::new(0),
        token_seams: Cell::new(false),
        sessions: RefCell::new(vec![]),
        faults: RefCell::new([0; F_NAMES.len()]),
        probes: RefCell::new([0; P_NAMES.len()]),
        viol: RefCell::new(vec![]),
        last_panic: RefCell::new(String::new()),
        unwound: Cell::new(false),
        tracker_unwound: Cell::new(false),
        big: Cell::new(false),
        calls: Cell::new(Calls::new()),
        turns: RefCell::new([0; 64]),
    };
}

pub fn reset(gen: Chooser, sched: Chooser, tracing: bool) {
    W.with(|w| {
        *w.gen.borrow_mut() = gen;
        *w.sched.borrow_mut() = sched;
        w.steps.set(0);
        w.budget.set(u64::MAX);
        w.time.set(0);
        w.tracing.set(tracing);
        w.trace.borrow_mut().clear();
        w.hash.set(0);
        w.depth.set(0);
        w.preempt.set(0);
        w.cb_unwind.set(0);
        w.cb_unwind_left.set(0);
        w.token_seams.set(false);
        w.sessions.borrow_mut().clear();
        *w.faults.borrow_mut() = [0; F_NAMES.len()];
        *w.probes.borrow_mut() = [0; P_NAMES.len()];
        w.viol.borrow_mut().clear();
        w.unwound.set(false);
        w.tracker_unwound.set(false);
        w.big.set(false);
        w.calls.set(Calls::new());
        *w.turns.borrow_mut() = [0; 64];
    });
}

pub fn note_unwind() {
    W.with(|w| w.unwound.set(true));
}
pub fn has_unwound() -> bool {
    W.with(|w| w.unwound.get())
}

/// Whether this is a run of unusual sizes: inputs, lists, nesting, sets,
/// numbers of held positions and so on that reach past every small limit.
pub fn big() -> bool {
    W.with(|w| w.big.get())
}

pub fn gen<R>(f: impl FnOnce(&mut Chooser) -> R) -> R {
    W.with(|w| f(&mut w.gen.borrow_mut()))
}
pub fn sched<R>(f: impl FnOnce(&mut Chooser) -> R) -> R {
    W.with(|w| f(&mut w.sched.borrow_mut()))
}
pub fn fault(k: F) {
    W.with(|w| w.faults.borrow_mut()[k as usize] += 1);
}
pub fn probe(k: P) {
    W.with(|w| w.probes.borrow_mut()[k as usize] += 1);
}
/// Notes an event: it always goes into the hash that identifies the run's
/// interleaving, and into the readable trace when one is wanted.
pub fn event(code: u64, text: impl FnOnce() -> String) {
    W.with(|w| {
        w.hash.set(mix(w.hash.get() ^ code.wrapping_mul(0x100000001b3)));
        if w.tracing.get() {
            // What the harness itself holds must not count as the library's.
            let h = crate::tok::heap();
            let s = format!("[t={} depth={}] {}", w.time.get(), w.depth.get(), text());
            let mut t = w.trace.borrow_mut();
            if t.len() < 4000 {
                t.push(s);
            }
            crate::tok::set_heap(h);
        }
    });
}
/// Same, but nothing to read.
pub fn quiet_event(code: u64) {
    W.with(|w| w.hash.set(mix(w.hash.get() ^ code.wrapping_mul(0x100000001b3))));
}
pub fn violation(class: Class, msg: impl FnOnce() -> String) {
    W.with(|w| {
        let after_unwind = w.unwound.get();
        let mut v = w.viol.borrow_mut();
        if v.len() < 64 {
            let msg = msg();
            if w.tracing.get() {
                w.trace.borrow_mut().push(format!("!! {class:?}: {msg}"));
            }
            v.push(Violation { class, after_unwind, msg });
        }
    });
}

/// Counts a unit of work; unwinds out of an operation that exceeds its budget.
pub fn tick() {
    W.with(|w| {
        let s = w.steps.get() + 1;
        w.steps.set(s);
        if s > w.budget.get() && !std::thread::panicking() {
            w.budget.set(u64::MAX);
            std::panic::panic_any(Hang);
        }
    })
}

#[derive(Clone, Copy, PartialEq)]
pub enum Seam {
    Poll,
    Callback,
}

/// A point where the simulator may switch to another session.
pub fn seam(kind: Seam) {
    tick();
    let switch = W.with(|w| {
        let p = w.preempt.get();
        p > 0 && w.depth.get() < 4 && w.sched.borrow_mut().chance(1, p)
    });
    if switch {
        run_one(kind);
    }
}

/// Runs one step of one session that is not already in progress. Returns
/// whether there was one.
pub fn run_one(kind: Seam) -> bool {
    W.with(|w| {
        let idx: Vec<usize> = w
            .sessions
            .borrow()
            .iter()
            .enumerate()
            .filter(|(_, s)| s.as_ref().map(|s| !s.done()).unwrap_or(false))
            .map(|(i, _)| i)
            .collect();
        if idx.is_empty() {
            return false;
        }
        let i = idx[w.sched.borrow_mut().below(idx.len())];
        let mut s = w.sessions.borrow_mut()[i].take().unwrap();
        let depth = w.depth.get();
        if depth > 0 {
            fault(if kind == Seam::Poll { F::preempt_at_poll } else { F::preempt_at_callback });
            if depth >= 2 {
                probe(P::nesting_ge_2);
            }
        }
        event(1000 + i as u64, || format!("schedule session {i}"));
        w.depth.set(depth + 1);
        // The outer operation's budget is suspended while others run.
        let (steps, budget) = (w.steps.get(), w.budget.get());
        w.budget.set(u64::MAX);
        let calls = w.calls.replace(Calls::new());
        s.step();
        w.calls.set(calls);
        w.steps.set(steps);
        w.budget.set(budget);
        w.depth.set(depth);
        event(2000 + i as u64, || format!("end of step of session {i}"));
        w.sessions.borrow_mut()[i] = Some(s);
        true
    })
}

/// A callback of a simulated grammar is being invoked.
pub fn called(site: u64, arg: u64) {
    W.with(|w| {
        let mut c = w.calls.get();
        c.add(site, arg);
        w.calls.set(c);
    });
    event(32, || format!("callback {site:x} ({arg:x})"));
    callback();
}
/// Whether a predicate gives the opposite answer when it is the turn-th time
/// that one is asked about a token of the session: such predicates keep state,
/// like a table of symbols, or answer differently now and then.
pub fn flips(flaky: u64, turn: u64) -> bool {
    match flaky {
        0 => false,
        f if f % 3 == 0 => turn < 1 + f / 3 % 16,
        f => mix(f ^ turn << 20) % (2 + f / 3 % 8) == 0,
    }
}
pub fn turn(sess: u16) -> u64 {
    W.with(|w| w.turns.borrow()[sess as usize % 64])
}
pub fn answer(flaky: u64, sess: u16, truth: bool) -> bool {
    if flaky == 0 {
        return truth;
    }
    let turn = W.with(|w| {
        let t = &mut w.turns.borrow_mut()[sess as usize % 64];
        *t += 1;
        *t - 1
    });
    if flips(flaky, turn) {
        fault(F::answer_changed);
        return !truth;
    }
    truth
}
/// Starts counting, or tells what has been counted.
pub fn count_calls() -> Calls {
    W.with(|w| w.calls.replace(Calls::new()))
}

/// A user callback is being invoked: may switch sessions, may unwind.
pub fn callback() {
    callback_or(|| ());
}
/// A token of a source is being compared or cloned, which is up to the user of
/// the library, too.
pub fn token_seam() {
    let on = W.with(|w| w.token_seams.get() && w.budget.get() != u64::MAX);
    if on && !std::thread::panicking() {
        callback_or(|| fault(F::token_unwind));
    }
}
/// A function of a location tracker is being invoked. A tracker that unwinds
/// may miss the token that it was to advance over, so from then on locations
/// are compared by their index only.
pub fn tracker_callback() {
    callback_or(|| {
        fault(F::tracker_unwind);
        W.with(|w| w.tracker_unwound.set(true));
    });
}
pub fn tracker_has_unwound() -> bool {
    W.with(|w| w.tracker_unwound.get())
}
fn callback_or(unwinds: impl FnOnce()) {
    seam(Seam::Callback);
    let boom = W.with(|w| {
        let p = w.cb_unwind.get();
        p > 0 && w.cb_unwind_left.get() > 0 && w.sched.borrow_mut().chance(1, p)
    });
    if boom && !std::thread::panicking() {
        W.with(|w| w.cb_unwind_left.set(w.cb_unwind_left.get() - 1));
        fault(F::callback_unwind);
        unwinds();
        note_unwind();
        event(31, || "injected: callback unwinds".into());
        std::panic::panic_any(SimFault);
    }
}

pub enum Caught<R> {
    Done(R),
    Fault,
    Hang,
    Panic(String),
}

/// Runs an operation with a step budget, catching injected and other unwinding.
pub fn guarded<R>(extra_budget: u64, f: impl FnOnce() -> R) -> Caught<R> {
    W.with(|w| w.budget.set(w.steps.get() + extra_budget));
    let depth = W.with(|w| w.depth.get());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    W.with(|w| {
        w.budget.set(u64::MAX);
        w.depth.set(depth);
    });
    match r {
        Ok(r) => Caught::Done(r),
        Err(p) => {
            if p.is::<SimFault>() {
                Caught::Fault
            } else if p.is::<Hang>() {
                Caught::Hang
            } else {
                Caught::Panic(W.with(|w| w.last_panic.borrow().clone()))
            }
        }
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = W.try_with(|w| {
            if let Ok(mut p) = w.last_panic.try_borrow_mut() {
                *p = format!("{msg} ({loc})");
            }
        });
    }));
}
