//! Engine B: parsing sessions of real parsers against the reference model.

use crate::build::{BP, LAST_ROOT};
use crate::choice::mix;
use crate::gram::*;
use crate::model::*;
use crate::norm::*;
use crate::source::*;
use crate::tok::*;
use crate::world::*;
use pp::parser::Parser;
use pp::stream::{SavedState, Stream};
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum POp {
    // Streaming mode.
    Next,
    /// Skip over this many results to get at the one after them.
    Nth(usize),
    /// Take the tail and this many tokens from it (None: all, and then some),
    /// skipping over a number of tokens each time.
    Tail(Option<usize>, usize),
    /// Take the tail and consume it as a whole.
    Rest,
    // Raw mode.
    Save,
    Restore(usize),
    Drop(usize),
    Skip(usize),
    Token,
    Parse(bool),
    Both,
}

enum S<E: TErr> {
    Str(pp::parser::Stream<'static, 'static, Tok, BP<E>>),
    Tail(pp::parser::Tail<'static, Tok, E::Trk>),
    Raw(Stream<'static, Tok, E::Trk>),
    Gone,
}

pub struct ParSess<E: TErr> {
    // Before the parser, so that it is dropped first.
    s: S<E>,
    parser: Rc<BP<E>>,
    gr: Rc<Grammar>,
    sess: u16,
    toks: Rc<Vec<(K, u32)>>,
    locs: Rc<Vec<Loc>>,
    seen: Rc<Seen>,
    saved: Vec<(SavedState, usize)>,
    ops: Vec<POp>,
    at: usize,
    /// Where the cursor is; not known after unwinding in streaming mode.
    cur: Option<usize>,
    lo: usize,
    hi: usize,
    demand: usize,
    check: bool,
    bad: bool,
    finished: bool,
    hist: u64,
    window: usize,
    /// Work that the model may still spend on this session.
    pub fuel: u64,
    rounds: usize,
    heap0: i64,
    long: bool,
    out: Rc<Cell<u64>>,
    /// The next answer of a predicate, at the start of the operation.
    turn: u64,
}

fn digest_full(r: &Res) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::hash::DefaultHasher::new();
    r.hash(&mut h);
    h.finish()
}

/// All the properties that a difference between the library and the model may
/// violate; each check reports those of its own property.
pub fn classify(m: &Res, r: &Res, rec: bool, f: &Flags, cur_differs: bool) -> Vec<Class> {
    use Class::*;
    if m == r && !cur_differs {
        return vec![];
    }
    if m.stripped() == r.stripped() && !cur_differs {
        let mut out = vec![Location];
        // Not only described wrongly, but another place.
        if m.indices() != r.indices() {
            if matches!(r, Res::Fail(..)) {
                out.push(FailReport);
            }
            if f.strategy_ran {
                out.push(Recovery);
            }
            if f.delim_ran {
                out.push(Delim);
            }
        }
        return out;
    }
    let mut out = match (m, r) {
        (Res::Ok(_), Res::Ok(_)) => vec![Exact],
        (Res::Ok(_), _) if rec => vec![Exact, TriState],
        (Res::Ok(_), _) => vec![Exact],
        (Res::Fail(..), Res::Fail(..)) => {
            let mut v = vec![FailReport];
            if f.strategy_ran {
                v.push(Recovery);
            }
            if cur_differs {
                v.push(FailCursor);
            }
            v
        }
        (Res::Fail(..), Res::Rec(..)) if rec => vec![Recovery, TriState],
        (Res::Fail(..), Res::Ok(_)) if rec => vec![Recovery, TriState, Exact],
        (Res::Fail(..), Res::Rec(..)) => vec![Exact, TriState],
        (Res::Fail(..), Res::Ok(_)) => vec![Exact],
        (Res::Rec(..), Res::Ok(_)) => vec![TriState, Recovery],
        (Res::Rec(..), Res::Fail(..)) => vec![Recovery, TriState],
        (Res::Rec(mv, _), Res::Rec(rv, _)) => {
            let (mut a, mut b) = (mv.clone(), rv.clone());
            a.strip();
            b.strip();
            if a != b || cur_differs {
                vec![Recovery]
            } else {
                vec![TriState, Recovery]
            }
        }
    };
    if f.alt_recovered && rec {
        out.push(FailReport);
    }
    if f.delim_ran {
        out.push(Delim);
    }
    // Where a strategy ends up only matters if one ran; what a parser matches
    // matters everywhere.
    if f.retry || (rec && f.strategy_ran && !out.contains(&Exact) && cur_differs) {
        out.push(Recovery);
    }
    out
}

impl<E: TErr> ParSess<E> {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        sess: u16,
        gr: &Rc<Grammar>,
        parser: &Rc<BP<E>>,
        plan: &Rc<Plan>,
        variant: u32,
        streaming: bool,
        ops: Vec<POp>,
        check: bool,
        long: bool,
        out: Rc<Cell<u64>>,
    ) -> Self {
        let toks = Rc::new(plan.toks());
        let locs = Rc::new(E::Trk::table(variant, &toks));
        let (src, seen) = SimSource::new(plan, sess);
        let s = if streaming {
            // The parser outlives the stream: both are in this struct, and the
            // stream is dropped first.
            let p: &'static BP<E> = unsafe { &*Rc::as_ptr(parser) };
            S::Str(p.stream_with_location(src, E::Trk::start(variant)))
        } else {
            S::Raw(Stream::new_with_location(src, E::Trk::start(variant)))
        };
        ParSess {
            s,
            parser: parser.clone(),
            gr: gr.clone(),
            sess,
            toks,
            locs,
            seen,
            saved: vec![],
            ops,
            at: 0,
            cur: Some(0),
            lo: 0,
            hi: 0,
            demand: 0,
            check,
            bad: false,
            finished: false,
            hist: 1,
            window: 0,
            fuel: if long { 1_000_000 } else if big() { 100_000 } else { u64::MAX },
            rounds: 0,
            heap0: 0,
            long,
            out,
            turn: 0,
        }
    }

    fn n(&self) -> usize {
        self.toks.len()
    }
    fn ev(&self, text: impl FnOnce() -> String) {
        event(3, || format!("s{} {}", self.sess, text()));
    }
    fn note(&mut self, x: u64) {
        self.hist = mix(self.hist ^ x);
        quiet_event(x ^ 0x6000);
    }
    fn fail(&mut self, cs: &[Class], msg: impl FnOnce() -> String) {
        // What the outcome is then depends on which questions are asked.
        let cs = if self.gr.flaky > 0 && !cs.is_empty() { &[Class::Calls] } else { cs };
        if self.check && !cs.is_empty() {
            self.bad = true;
            let msg = msg();
            for c in cs {
                violation(*c, || msg.clone());
            }
        }
    }
    fn crash(&mut self, what: &str, r: Caught<()>) {
        self.bad = true;
        match r {
            Caught::Hang => violation(Class::Crash, || format!("{what} does not end")),
            Caught::Panic(p) => violation(Class::Crash, || format!("{what} panicked: {p}")),
            _ => (),
        }
    }

    /// What the model says about a parse from here. None: too expensive.
    fn predict(&mut self, at: usize, rec: bool) -> Option<(Res, usize, usize, u64, Flags)> {
        let gr = self.gr.clone();
        let mut m = Model::new(&gr, &self.toks, &self.locs, E::VOID, at, 0);
        m.cap = m.cap.min(self.fuel);
        m.turn = self.turn;
        let r = m.parse_root(rec);
        self.fuel = self.fuel.saturating_sub(m.cost);
        if m.overflow {
            probe(P::model_overflow);
            return None;
        }
        m.flags.turn = m.turn;
        Some((r, m.cur, m.demand, m.cost, m.flags))
    }

    fn count(&self, f: &Flags, r: &Res) {
        let p = |b: bool, k: P| {
            if b {
                probe(k)
            }
        };
        probe(match r {
            Res::Ok(_) => P::success,
            Res::Rec(..) => P::recovered,
            Res::Fail(..) => P::failed,
        });
        p(f.strategy_ran, P::strategy_run);
        p(f.strategy_failed, P::strategy_failed);
        p(f.delim_balanced, P::delim_balanced);
        p(f.delim_mismatch, P::delim_mismatch);
        p(f.delim_eof, P::delim_eof);
        p(f.alt_third, P::alt_third_or_later);
        p(f.sep3, P::sep_list_ge_3);
        p(f.rec_depth >= 2, P::recursion_ge_2);
        p(f.deep_fail, P::deep_failure_ge_3);
        p(has_unwound(), P::parse_after_unwind);
        p(W.with(|w| w.depth.get()) >= 2, P::results_in_nested_step);
    }

    fn called(&mut self, what: &str, got: Calls, want: Calls) {
        if got != want {
            self.fail(&[Class::Calls], || {
                if got.n == want.n {
                    format!("{what}: the {} callbacks are invoked in another order or with other arguments than expected", got.n)
                } else {
                    format!("{what}: {} callbacks are invoked, {} have to be", got.n, want.n)
                }
            });
        }
    }

    fn source_ok(&mut self, what: &str) {
        let (polls, d) = (self.seen.polls.get(), self.demand);
        if polls > d {
            self.fail(&[Class::Demand], || {
                format!("{what}: the source has been asked for {polls} items although only {d} were needed")
            });
        }
        if self.seen.polls_after_end.get() > 0 {
            self.fail(&[Class::Eof], || format!("{what}: the source was polled again after it reported its end"));
        }
    }

    fn finish(&mut self) {
        if self.finished {
            return;
        }
        self.finished = true;
        let s = std::mem::replace(&mut self.s, S::Gone);
        let r = guarded(100_000, move || drop(s));
        if !matches!(r, Caught::Done(())) {
            self.crash("dropping the session", r);
        }
        no_calls("by dropping the session");
        self.saved.clear();
        let left = live(self.sess);
        if left != 0 && !self.bad && self.check {
            self.fail(&[Class::Retention], || format!("{left} tokens are still alive after the session was dropped"));
        }
        self.out.set(mix(self.hist ^ self.seen.polls.get() as u64));
    }

    fn retention(&mut self) {
        let Some(cur) = self.cur else { return };
        // A parse may go back to where it started, which is at the start of
        // this operation at the earliest.
        let got = self.seen.got.get();
        let oldest = self.saved.iter().map(|s| s.1).min().unwrap_or(usize::MAX).min(cur).min(self.lo);
        self.window = self.window.max(got.saturating_sub(oldest));
        let (held, w) = (live(self.sess), self.window);
        if held > 4 * w as i64 + 64 {
            self.fail(&[Class::Retention], || {
                format!("{held} tokens are held after {got} of them, although at most {w} could ever be backtracked to at a time")
            });
        } else if (held as usize) < got {
            probe(P::discard_observed);
        }
        if self.long {
            self.rounds += 1;
            if self.rounds == 8 {
                self.heap0 = heap();
            } else if self.rounds > 8 {
                let grown = heap() - self.heap0;
                let allowed = 16384 + 256 * (4 * w as i64 + 64);
                if grown > allowed {
                    self.fail(&[Class::Retention], || {
                        format!("{grown} bytes more are held than after the first results (window {w}, {got} tokens)")
                    });
                }
            }
        }
    }

    fn next(&mut self) {
        if !matches!(self.s, S::Str(_)) {
            return;
        }
        let real_next = |s: &mut pp::parser::Stream<'static, 'static, Tok, BP<E>>| {
            s.next().map(|r| {
                let at = LAST_ROOT.with(|l| l.get());
                (norm_res(&r), at)
            })
        };
        let pred = match self.cur {
            Some(cur) if cur >= self.toks.len() => Some((None, 0)),
            Some(cur) => match self.predict(cur, true) {
                None => {
                    self.at = usize::MAX;
                    return;
                }
                Some(p) => {
                    let cost = p.3;
                    Some((Some(p), cost))
                }
            },
            None => None,
        };
        // After unwinding, anywhere in between.
        let (lo, hi) = (self.lo, self.hi.max(self.lo));
        let mut worst = pred.as_ref().map(|p| p.1);
        if pred.is_none() && hi - lo <= 64 {
            worst = (lo..=hi).try_fold(0, |w, at| self.predict(at, true).map(|p| w.max(p.3)));
        }
        let S::Str(s) = &mut self.s else { return };
        let budget = worst.map(|c| c * 50 + 2000).unwrap_or(2_000_000);
        let got0 = self.seen.got.get();
        let cur0 = self.cur;
        self.lo = self.cur.unwrap_or(self.lo);
        no_calls("between operations");
        let r = guarded(budget, || real_next(s));
        let calls = count_calls();
        match r {
            Caught::Done(r) => {
                let start = r.as_ref().map(|r| r.1 .0);
                self.ev(|| match &r {
                    None => format!("next() -> None (cursor {cur0:?})"),
                    Some((r, (b, a))) => format!("next() -> {} over {b}..{a}: {r:?}", r.kind()),
                });
                // After unwinding: anywhere in between.
                if self.cur.is_none() {
                    let (lo, hi) = (self.lo, self.hi);
                    let at = start.unwrap_or(self.n());
                    let known_end = start.is_none() && !self.seen.ended.get();
                    if at < lo || at > hi.max(lo) || known_end {
                        self.fail(&[Class::Token, Class::Tiling], || {
                            format!("after unwinding, the next result starts at {at}, outside {lo}..={hi}")
                        });
                    }
                    self.cur = Some(at);
                    self.lo = at;
                }
                let cur = self.cur.unwrap();
                self.demand = self.demand.max(cur + 1);
                let n = self.n();
                self.note(r.as_ref().map(|r| digest_full(&r.0) ^ r.1 .0 as u64 ^ (r.1 .1 as u64) << 20).unwrap_or(9));
                match r {
                    None => {
                        if cur < n {
                            self.fail(&[Class::Tiling, Class::Eof], || {
                                format!("the session ended at {cur} although the source has {n} tokens")
                            });
                        }
                        // Once more, or on to the tail.
                    }
                    Some((r, (b, a))) => {
                        if b != cur {
                            self.fail(&[Class::Tiling], || format!("a result starts at {b} although the previous one ended at {cur}"));
                        }
                        if cur >= n {
                            self.fail(&[Class::Tiling, Class::Eof], || format!("a result at the end of input (index {cur}): {r:?}"));
                        }
                        if let Res::Fail(..) = r {
                            if a != b {
                                self.fail(&[Class::Tiling, Class::FailCursor], || format!("a failed result covers {b}..{a}"));
                            }
                        }
                        if a > n {
                            self.fail(&[Class::Eof, Class::Tiling], || format!("a result ends at {a}, beyond the {n} tokens"));
                        }
                        if !self.bad && b < n {
                            // Predicted from where it really started.
                            match self.predict(b, true) {
                                None => self.at = usize::MAX,
                                Some((mr, mc, md, _, f)) => {
                                    self.count(&f, &r);
                                    self.demand = self.demand.max(md);
                                    self.called(&format!("next() from {b}"), calls, f.calls);
                                    let cs = classify(&mr, &r, true, &f, mc != a);
                                    self.fail(&cs, || {
                                        format!("parsing from {b} with recovery: got {r:?} ending at {a}, expected {mr:?} ending at {mc}")
                                    });
                                }
                            }
                        }
                        self.cur = Some(a);
                    }
                }
                if self.at != usize::MAX {
                    self.source_ok("next()");
                }
                self.retention();
            }
            Caught::Fault => {
                probe(P::op_unwound);
                self.ev(|| "next() unwound".into());
                self.note(77);
                self.hi = self.seen.got.get().max(got0);
                self.window = self.window.max(self.seen.got.get().saturating_sub(self.lo));
                self.cur = None;
                self.demand = self.demand.max(self.seen.polls.get());
            }
            // Too expensive for all that is known.
            Caught::Hang if worst.is_none() => self.at = usize::MAX,
            Caught::Hang => self.crash("next()", Caught::Hang),
            Caught::Panic(p) => self.crash("next()", Caught::Panic(p)),
        }
    }

    /// As if next() had been called as often.
    fn nth(&mut self, k: usize) {
        let Some(start) = self.cur else { return self.next() };
        if !matches!(self.s, S::Str(_)) {
            return;
        }
        // None: all covered before.
        let mut want = None;
        let (mut at, mut cost) = (start, 0);
        let mut calls = vec![];
        for i in 0..=k {
            self.demand = self.demand.max(at + 1);
            if at >= self.toks.len() {
                want = None;
                break;
            }
            match self.predict(at, true) {
                None => {
                    self.at = usize::MAX;
                    return;
                }
                Some((r, c, d, n, f)) => {
                    self.demand = self.demand.max(d);
                    cost += n;
                    calls.push(f.calls.n);
                    if i == k {
                        want = Some((r, (at, c)));
                    }
                    at = c;
                    self.turn = f.turn;
                }
            }
        }
        let got0 = self.seen.got.get();
        self.lo = start;
        let S::Str(s) = &mut self.s else { return };
        let hint = s.size_hint();
        let budget = cost * 50 + 2000 + 10 * k as u64;
        no_calls("between operations");
        let r = guarded(budget, || s.nth(k).map(|r| {
                let at = LAST_ROOT.with(|l| l.get());
                (norm_res(&r), at)
            }));
        let got = count_calls().n;
        match r {
            Caught::Done(r) => {
                let want_calls: u64 = calls.iter().sum();
                if got != want_calls {
                    self.fail(&[Class::Calls], || format!("nth({k}) from {start}: {got} callbacks are invoked, {want_calls} have to be"));
                }
                probe(P::nth_result);
                self.ev(|| format!("nth({k}) -> {r:?}"));
                self.note(r.as_ref().map(|r| digest_full(&r.0) ^ (r.1 .1 as u64) << 20).unwrap_or(9));
                if r != want {
                    self.fail(&[Class::Tiling], || {
                        format!("nth({k}) from {start} gives {r:?}, although {k} results are followed by {want:?}")
                    });
                }
                if hint.0 > 0 && start >= self.n() || hint.1 == Some(0) && start < self.n() {
                    let n = self.n();
                    self.fail(&[Class::Tiling], || format!("at {start} of {n} the number of results is said to be in {hint:?}"));
                }
                self.cur = Some(at);
                self.source_ok("nth()");
                self.window = self.window.max(self.seen.got.get().saturating_sub(start));
                self.retention();
            }
            Caught::Fault => {
                probe(P::op_unwound);
                self.ev(|| "nth() unwound".into());
                self.note(77);
                self.hi = self.seen.got.get().max(got0);
                self.window = self.window.max(self.seen.got.get().saturating_sub(self.lo));
                self.cur = None;
                self.demand = self.demand.max(self.seen.polls.get());
            }
            Caught::Hang => self.crash("nth()", Caught::Hang),
            Caught::Panic(p) => self.crash("nth()", Caught::Panic(p)),
        }
    }

    /// Consumes the tail in one go.
    fn rest(&mut self) {
        let t = match std::mem::replace(&mut self.s, S::Gone) {
            S::Str(s) => s.tail(),
            S::Tail(t) => t,
            s => {
                self.s = s;
                return;
            }
        };
        probe(P::tail_as_a_whole);
        let got = std::cell::RefCell::new(vec![]);
        let r = guarded(20_000, || t.fold((), |(), t| got.borrow_mut().push((t.k, t.seq))));
        let got = got.into_inner();
        self.ev(|| format!("rest of the tail: {} tokens", got.len()));
        self.hist = mix(self.hist ^ got.len() as u64);
        let n = self.toks.len();
        // Where it starts is not known after unwinding.
        let from = match (self.cur, got.first()) {
            (Some(c), _) => c,
            (None, Some(t)) => t.1 as usize - 1,
            (None, None) => n,
        };
        let want = &self.toks[from.min(n)..];
        match r {
            Caught::Done(()) => {
                if got != want || self.cur.is_none() && (from < self.lo || from > self.hi.max(self.lo)) {
                    let (lo, hi) = (self.lo, self.hi);
                    self.fail(&[Class::Tiling, Class::Token], || {
                        format!("the whole tail from {from} (of {lo}..={hi}, {n} tokens) is {:?}", got.iter().map(|t| t.1).collect::<Vec<_>>())
                    });
                }
                self.demand = self.demand.max(n + 1);
                self.source_ok("the whole tail");
            }
            Caught::Fault => {
                probe(P::op_unwound);
                if !want.starts_with(&got) {
                    self.fail(&[Class::Tiling, Class::Token], || format!("the tail from {from} began with {:?}", got.iter().map(|t| t.1).collect::<Vec<_>>()));
                }
                self.demand = self.demand.max(self.seen.polls.get());
            }
            Caught::Hang => self.crash("rest of the tail", Caught::Hang),
            Caught::Panic(p) => self.crash("rest of the tail", Caught::Panic(p)),
        }
        self.cur = Some(n);
    }

    fn tail(&mut self, want: Option<usize>, jump: usize) {
        let s = std::mem::replace(&mut self.s, S::Gone);
        match s {
            S::Str(s) => {
                probe(P::tail_taken);
                if self.cur.is_some_and(|c| c < self.n()) {
                    probe(P::tail_mid_input);
                }
                self.s = S::Tail(s.tail());
                self.ev(|| "tail()".into());
            }
            s => self.s = s,
        }
        let mut left = want.unwrap_or(usize::MAX);
        let mut ends = 0;
        while left > 0 {
            left -= 1;
            let S::Tail(t) = &mut self.s else { return };
            let hint = t.size_hint();
            let r = guarded(2000, || if jump == 0 { t.next() } else { t.nth(jump) });
            match r {
                Caught::Done(x) => {
                    let x = x.map(|t| (t.k, t.seq));
                    event(x.map(|x| x.1 as u64).unwrap_or(0) ^ 0x7000, || {
                        format!("s{} tail -> {}", self.sess, crate::raw::show(x))
                    });
                    self.hist = mix(self.hist ^ x.map(|x| x.1 as u64 + 1).unwrap_or(0));
                    if self.cur.is_none() {
                        let n = self.toks.len();
                        // What it started at, before skipping.
                        let at = x.map(|x| (x.1 as usize - 1).wrapping_sub(jump)).unwrap_or_else(|| if jump > 0 { self.hi.max(self.lo).min(n) } else { n });
                        if at < self.lo || at > self.hi.max(self.lo) {
                            let (lo, hi) = (self.lo, self.hi);
                            if self.check {
                                self.bad = true;
                                violation(Class::Token, || format!("after unwinding, the tail starts at {at}, outside {lo}..={hi}"));
                                violation(Class::Tiling, || format!("after unwinding, the tail starts at {at}, outside {lo}..={hi}"));
                            }
                            return;
                        }
                        self.cur = Some(at);
                    }
                    let start = self.cur.unwrap();
                    let n = self.toks.len();
                    if hint.0 > n.saturating_sub(start) || hint.1.is_some_and(|h| h < n.saturating_sub(start)) {
                        self.fail(&[Class::Tiling], || format!("with {} tokens left the tail says there are {hint:?}", n - start));
                        return;
                    }
                    let cur = if start + jump < n { start + jump } else { n.max(start) };
                    if jump > 0 {
                        probe(P::tail_skipped);
                        self.window = self.window.max(self.seen.got.get().saturating_sub(start));
                    }
                    let S::Tail(_) = &self.s else { return };
                    self.demand = self.demand.max(cur + 1);
                    let want = self.toks.get(cur).copied();
                    if x != want && self.check {
                        self.bad = true;
                        let m = format!("the tail yields {} where {} is left (index {cur})", crate::raw::show(x), crate::raw::show(want));
                        let mut cs = vec![Class::Tiling];
                        cs.push(if x.is_none() || want.is_none() { Class::Eof } else { Class::Token });
                        for c in cs {
                            violation(c, || m.clone());
                        }
                        return;
                    }
                    match x {
                        Some(x) => {
                            // The tail never goes back.
                            self.lo = cur;
                            self.cur = Some(x.1 as usize);
                            self.retention();
                            if self.bad {
                                return;
                            }
                        }
                        None => {
                            self.cur = Some(cur);
                            ends += 1;
                            if ends == 3 {
                                break;
                            }
                        }
                    }
                }
                Caught::Fault => {
                    probe(P::op_unwound);
                    // The tail pulls a token before it steps over it.
                    self.lo = self.cur.unwrap_or(self.lo);
                    self.hi = self.seen.got.get().max(self.lo);
                    self.window = self.window.max(self.hi - self.lo);
                    self.demand = self.demand.max(self.seen.polls.get());
                    self.cur = None;
                    event(78, || format!("s{} tail unwound", self.sess));
                    self.hist = mix(self.hist ^ 78);
                }
                Caught::Hang => {
                    self.crash("tail", Caught::Hang);
                    return;
                }
                Caught::Panic(p) => {
                    self.crash("tail", Caught::Panic(p));
                    return;
                }
            }
        }
        self.source_ok("tail");
    }

    fn parse(&mut self, rec: bool) -> Option<(Res, usize)> {
        let cur = self.cur.unwrap();
        self.turn = turn(self.sess);
        let Some((mr, mc, md, cost, f)) = self.predict(cur, rec) else {
            self.at = usize::MAX;
            return None;
        };
        let p = self.parser.clone();
        let S::Raw(s) = &mut self.s else { return None };
        let mode = if rec { "with" } else { "without" };
        self.lo = cur;
        no_calls("between operations");
        let r = guarded(cost * 50 + 2000, || norm_res(&p.parse_internal(s, rec)));
        let calls = count_calls();
        let S::Raw(s) = &self.s else { return None };
        let a = s.index();
        match r {
            Caught::Done(r) => {
                self.called(&format!("parse {mode} recovery from {cur}"), calls, f.calls);
                self.ev(|| format!("parse {mode} recovery from {cur} -> {} at {a}: {r:?}", r.kind()));
                self.note(digest_full(&r) ^ a as u64);
                self.count(&f, &r);
                self.demand = self.demand.max(md);
                let cs = classify(&mr, &r, rec, &f, mc != a);
                self.fail(&cs, || {
                    format!("parsing from {cur} {mode} recovery: got {r:?} ending at {a}, expected {mr:?} ending at {mc}")
                });
                self.cur = Some(a);
                self.source_ok("parse");
                Some((r, a))
            }
            Caught::Fault => {
                self.unwound(cur, a);
                None
            }
            Caught::Hang => {
                self.crash("parse", Caught::Hang);
                None
            }
            Caught::Panic(p) => {
                self.crash("parse", Caught::Panic(p));
                None
            }
        }
    }

    fn unwound(&mut self, lo: usize, real: usize) {
        probe(P::op_unwound);
        let got = self.seen.got.get();
        self.window = self.window.max(got.saturating_sub(lo));
        self.ev(|| format!("operation unwound; cursor {real}"));
        if real < lo || real > got.max(lo) {
            self.fail(&[Class::Token], || format!("after an unwound operation the cursor is {real}, outside {lo}..={got}"));
        }
        self.cur = Some(real);
        self.demand = self.demand.max(self.seen.polls.get());
        self.note(real as u64 ^ 79);
    }

    fn raw(&mut self, op: &POp) {
        let cur = self.cur.unwrap();
        let n = self.n();
        let S::Raw(s) = &mut self.s else { return };
        match op {
            POp::Save => {
                if self.saved.len() < if big() { 100 } else { 12 } {
                    let st = s.save();
                    self.saved.push((st, cur));
                    self.ev(|| format!("save() at {cur} as #{}", self.saved.len() - 1));
                }
            }
            POp::Restore(i) if !self.saved.is_empty() => {
                let i = i % self.saved.len();
                s.restore(&self.saved[i].0);
                let (real, to) = (s.index(), self.saved[i].1);
                self.ev(|| format!("restore(#{i}) {cur} -> {to}"));
                self.cur = Some(to);
                if real != to {
                    self.fail(&[Class::Token], || format!("restoring index {to} put the cursor at {real}"));
                }
            }
            POp::Drop(i) if !self.saved.is_empty() => {
                let i = i % self.saved.len();
                fault(F::drop_saved_position);
                self.saved.swap_remove(i);
                self.ev(|| format!("drop #{i}"));
            }
            POp::Skip(k) => {
                let mut moved = 0;
                let seen = self.seen.clone();
                let r = guarded(2000, || {
                    for _ in 0..*k {
                        moved += s.advance() as usize;
                    }
                });
                let real = s.index();
                match r {
                    Caught::Done(()) => {
                        let want = (cur + k).min(n);
                        if *k > 0 {
                            self.demand = self.demand.max((cur + k).min(n + 1));
                        }
                        self.cur = Some(want);
                        self.ev(|| format!("advance {k} from {cur} -> {real}"));
                        if real != want || moved != want - cur {
                            self.fail(&[Class::Token], || format!("{k} steps from {cur} of {n} led to {real}, reporting {moved}"));
                        }
                        self.source_ok("advance()");
                    }
                    Caught::Fault => {
                        let _ = seen;
                        self.unwound(cur, real);
                    }
                    Caught::Hang => self.crash("advance()", Caught::Hang),
                    Caught::Panic(p) => self.crash("advance()", Caught::Panic(p)),
                }
            }
            POp::Token => {
                let r = guarded(2000, || s.token().map(|t| (t.k, t.seq)));
                let real = s.index();
                match r {
                    Caught::Done(t) => {
                        self.demand = self.demand.max(cur + 1);
                        let want = self.toks.get(cur).copied();
                        self.ev(|| format!("token() at {cur} -> {}", crate::raw::show(t)));
                        self.note(t.map(|t| t.1 as u64 + 1).unwrap_or(0));
                        if t != want {
                            let c = if t.is_none() || want.is_none() { Class::Eof } else { Class::Token };
                            self.fail(&[c], || {
                                format!("token() at {cur} is {}, expected {}", crate::raw::show(t), crate::raw::show(want))
                            });
                        }
                        self.source_ok("token()");
                    }
                    Caught::Fault => self.unwound(cur, real),
                    Caught::Hang => self.crash("token()", Caught::Hang),
                    Caught::Panic(p) => self.crash("token()", Caught::Panic(p)),
                }
            }
            POp::Parse(rec) => {
                self.parse(*rec);
            }
            POp::Both => {
                let st = s.save();
                let exact = self.parse(false);
                if self.bad || self.at == usize::MAX {
                    return;
                }
                let S::Raw(s) = &mut self.s else { return };
                s.restore(&st);
                drop(st);
                self.cur = Some(cur);
                let Some((er, ea)) = exact else { return };
                let Some((rr, ra)) = self.parse(true) else { return };
                // Model-free: recovery must not change a clean parse.
                match (&er, &rr) {
                    _ if self.gr.flaky > 0 => (),
                    (Res::Ok(a), Res::Ok(b)) => {
                        probe(P::exact_and_recovering_agree);
                        if a != b || ea != ra {
                            self.fail(&[Class::TriState], || format!("recovery changes a clean parse: {er:?} at {ea} becomes {rr:?} at {ra}"));
                        }
                    }
                    (Res::Ok(_), _) => self.fail(&[Class::TriState], || format!("recovery turns {er:?} into {rr:?}")),
                    (Res::Rec(..), _) => self.fail(&[Class::TriState], || format!("recovered with recovery off: {er:?}")),
                    (Res::Fail(..), Res::Ok(_)) => {
                        self.fail(&[Class::TriState], || format!("recovery turns {er:?} into plain success {rr:?}"))
                    }
                    _ => (),
                }
            }
            _ => (),
        }
        if let S::Raw(s) = &self.s {
            let (real, want) = (s.index(), self.cur.unwrap());
            if real != want && !self.bad {
                self.fail(&[Class::Token], || format!("after {op:?} the cursor is {real}, expected {want}"));
            }
        }
        if self.at != usize::MAX {
            self.retention();
        }
    }
}

impl<E: TErr> Sess for ParSess<E> {
    fn step(&mut self) {
        if self.finished {
            return;
        }
        if self.bad || self.at >= self.ops.len() {
            self.finish();
            return;
        }
        let op = self.ops[self.at].clone();
        self.at += 1;
        self.turn = turn(self.sess);
        match &op {
            POp::Next => self.next(),
            POp::Nth(k) => self.nth(*k),
            POp::Tail(n, k) => self.tail(*n, *k),
            POp::Rest => self.rest(),
            op => {
                // A panic outside of a guarded part is the library's, too.
                let me = std::panic::AssertUnwindSafe(&mut *self);
                let r = std::panic::catch_unwind(move || {
                    let me = me;
                    me.0.raw(op)
                });
                if r.is_err() {
                    let p = W.with(|w| w.last_panic.borrow().clone());
                    self.crash(&format!("{op:?}"), Caught::Panic(p));
                }
            }
        }
    }
    fn done(&self) -> bool {
        self.finished
    }
}

// ------------------------------------------------------------ entry points

pub const ENTRIES: [&str; 7] = [
    "parse_internal",
    "parse_with_recovery_and_location",
    "parse_with_recovery",
    "parse_with_location",
    "parse",
    "stream_with_location().next()",
    "stream().next()",
];

/// Nothing is to be invoked outside of the operations.
pub fn no_calls(what: &str) {
    let c = count_calls();
    if c.n > 0 {
        violation(Class::Calls, || format!("{} callbacks are invoked {what}", c.n));
    }
}

pub struct Entry<E: TErr> {
    pub parser: Rc<BP<E>>,
    pub plan: Rc<Plan>,
    pub sess: u16,
    pub variant: u32,
    pub which: usize,
    pub budget: u64,
    pub demand: usize,
    pub calls: Calls,
    pub out: Rc<std::cell::RefCell<Option<EntryOut>>>,
    pub finished: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub enum EntryOut {
    Full(Res),
    /// Output or first error.
    Short(Result<Val, NErr>),
    Nothing,
}

impl<E: TErr> Sess for Entry<E> {
    fn step(&mut self) {
        self.finished = true;
        let (src, seen) = SimSource::new(&self.plan, self.sess);
        let p = self.parser.clone();
        let v = self.variant;
        let which = self.which;
        let start = move || E::Trk::start(v);
        no_calls("between operations");
        let r = guarded(self.budget, || {
            let short = |r: Result<Val, E>| EntryOut::Short(r.map_err(|e| e.norm()));
            let full = |r: pp::parser::Result<Val, E>| {
                let n = norm_res(&r);
                accessors(&r, &n);
                EntryOut::Full(n)
            };
            match which {
                0 => {
                    let mut s = Stream::new_with_location(src, start());
                    full(p.parse_internal(&mut s, true))
                }
                1 => full(p.parse_with_recovery_and_location(src, start())),
                3 => short(p.parse_with_location(src, start())),
                5 => p.stream_with_location(src, start()).next().map(full).unwrap_or(EntryOut::Nothing),
                2 | 4 | 6 => E::Trk::default_entry(&p, src, which - 2),
                _ => EntryOut::Nothing,
            }
        });
        let calls = count_calls();
        event(40 + which as u64, || format!("s{} {} (start {v})", self.sess, ENTRIES[which]));
        match r {
            Caught::Done(o) => {
                event(41, || format!("s{} -> {o:?}", self.sess));
                if o != EntryOut::Nothing && calls != self.calls {
                    violation(Class::Calls, || format!("{}: {} callbacks are invoked, {} have to be (or with other arguments)", ENTRIES[which], calls.n, self.calls.n));
                }
                *self.out.borrow_mut() = Some(o)
            }
            Caught::Fault => (),
            Caught::Hang => violation(Class::Crash, || format!("{} does not end", ENTRIES[which])),
            Caught::Panic(m) => violation(Class::Crash, || format!("{} panicked: {m}", ENTRIES[which])),
        }
        let need = self.demand + (self.which >= 5) as usize * usize::from(self.demand == 0);
        if seen.polls.get() > need {
            violation(Class::Demand, || format!("{} asked for {} items, {need} are needed", ENTRIES[which], seen.polls.get()));
        }
        if seen.polls_after_end.get() > 0 {
            violation(Class::Eof, || format!("{} polled the source after its end", ENTRIES[which]));
        }
    }
    fn done(&self) -> bool {
        self.finished
    }
}

/// The accessors of a result say the same as the result.
fn accessors<E: TErr>(r: &pp::parser::Result<Val, E>, n: &Res) {
    let errs: Vec<NErr> = r.errors().map(TErr::norm).collect();
    if errs != n.errs() {
        violation(Class::Entry, || format!("errors() of {n:?} yields {errs:?}"));
    }
    let mut it = r.errors();
    let k = it.by_ref().count();
    if k != n.errs().len() || it.next().is_some() {
        violation(Class::Entry, || "errors() does not end for good".into());
    }
    // All the ways in which an iterator can be used agree.
    let all = n.errs();
    for i in 0..3 {
        let mut it = r.errors();
        for e in all.iter().take(i) {
            let h = it.size_hint();
            if it.next().map(TErr::norm).as_ref() != Some(e) || h.0 > all.len() || h.1.is_some_and(|h| h == 0) {
                violation(Class::Entry, || format!("errors() of {n:?}: next() or size_hint() ({h:?}) is wrong"));
            }
        }
        let got = it.nth(1).map(TErr::norm);
        let then: Vec<NErr> = it.fold(vec![], |mut v, e| {
            v.push(e.norm());
            v
        });
        let i = i.min(all.len());
        if got.as_ref() != all.get(i + 1) || then[..] != all[usize::min(i + 2, all.len())..] {
            violation(Class::Entry, || format!("errors() of {n:?}: after {i} of them, nth(1) yields {got:?} and then there are {then:?}"));
        }
        let (h, k, l) = (r.errors().skip(i).size_hint(), r.errors().skip(i).count(), r.errors().skip(i).last().map(TErr::norm));
        let left = all.len() - i;
        if k != left || h.0 > left || h.1.is_some_and(|h| h < left) || l.as_ref() != all[i..].last() {
            violation(Class::Entry, || format!("errors() of {n:?}: after {i} of them, count() {k}, size_hint() {h:?}, last() {l:?}"));
        }
    }
    if r.tree() != n.val() {
        violation(Class::Entry, || format!("tree() of {n:?} yields {:?}", r.tree()));
    }
    if r.is_ok() != matches!(n, Res::Ok(_)) {
        violation(Class::Entry, || format!("is_ok() of {n:?} is {}", r.is_ok()));
    }
    let wrapped = clone_result(r).map(|v| Val::Tag(9, Box::new(v))).map_err(|e| e.tagged(2));
    let want = match n.clone() {
        Res::Ok(v) => Res::Ok(Val::Tag(9, Box::new(v))),
        Res::Rec(v, es) => Res::Rec(Val::Tag(9, Box::new(v)), es.into_iter().map(|e| tag_err(e, 2)).collect()),
        Res::Fail(i, es) => Res::Fail(i, es.into_iter().map(|e| tag_err(e, 2)).collect()),
    };
    if norm_res(&wrapped) != want {
        violation(Class::Entry, || format!("map()/map_err() of {n:?} yields {:?}", norm_res(&wrapped)));
    }
    try_mapped(r, n);
    let short: Result<Val, E> = clone_result(r).into();
    let short = short.map_err(|e| e.norm());
    let want = match n {
        Res::Ok(v) => Ok(v.clone()),
        Res::Rec(_, es) | Res::Fail(_, es) => match es.first() {
            Some(e) => Err(e.clone()),
            None => return,
        },
    };
    if short != want {
        violation(Class::Entry, || format!("{n:?} converts to {short:?}"));
    }
}

/// A result whose value is mapped to another result.
fn try_mapped<E: TErr>(r: &pp::parser::Result<Val, E>, n: &Res) {
    use pp::parser::Result as R;
    let extra: Vec<E> = r.errors().take(2).map(|e| e.clone().tagged(5)).collect();
    let more: Vec<NErr> = n.errs().into_iter().take(2).map(|e| tag_err(e.clone(), 5)).collect();
    for which in 0..3 {
        let extra = extra.clone();
        let got = clone_result(r).try_map(|v| match which {
            0 => R::Success(Val::Tag(8, Box::new(v))),
            1 => R::Recovered(Val::Tag(8, Box::new(v)), extra),
            _ => R::Failed(7, extra),
        });
        let tag = |v: &Val| Val::Tag(8, Box::new(v.clone()));
        let all = |es: &[NErr]| es.iter().cloned().chain(more.iter().cloned()).collect::<Vec<_>>();
        let want = match (n, which) {
            (Res::Fail(..), _) => n.clone(),
            (Res::Ok(v), 0) => Res::Ok(tag(v)),
            (Res::Ok(v), 1) => Res::Rec(tag(v), more.clone()),
            (Res::Ok(_), _) => Res::Fail(7, more.clone()),
            (Res::Rec(v, es), 0) => Res::Rec(tag(v), es.clone()),
            (Res::Rec(v, es), 1) => Res::Rec(tag(v), all(es)),
            (Res::Rec(_, es), _) => Res::Fail(7, all(es)),
        };
        let got = norm_res(&got);
        if got != want {
            violation(Class::Entry, || format!("try_map() of {n:?} yields {got:?}, expected {want:?}"));
        }
    }
}

fn clone_result<E: TErr>(r: &pp::parser::Result<Val, E>) -> pp::parser::Result<Val, E> {
    use pp::parser::Result::*;
    match r {
        Success(v) => Success(v.clone()),
        Recovered(v, es) => Recovered(v.clone(), es.clone()),
        Failed(i, es) => Failed(*i, es.clone()),
    }
}

/// The entry points that need a default location.
pub fn default_entries<E>(p: &BP<E>, src: SimSource, which: usize) -> EntryOut
where
    E: TErr,
    E::Trk: Default,
{
    match which {
        0 => {
            let r = p.parse_with_recovery(src);
            EntryOut::Full(norm_res(&r))
        }
        2 => EntryOut::Short(p.parse(src).map_err(|e| e.norm())),
        _ => p.stream(src).next().map(|r| EntryOut::Full(norm_res(&r))).unwrap_or(EntryOut::Nothing),
    }
}
