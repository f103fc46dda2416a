//! Engine A: histories of raw stream operations against a cursor model.

use crate::choice::mix;
use crate::norm::*;
use crate::source::*;
use crate::tok::*;
use crate::world::*;
use pp::stream::{SavedState, Stream};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum ROp {
    Token,
    Advance,
    AdvanceTo(usize),
    Eof,
    Save,
    SaveAt(usize),
    Restore(usize),
    Drop(usize),
    TokenAt(usize),
    Location,
    LocationAt(usize),
    Span,
    SpanBack(usize),
    IndexAt(usize),
    Attempt(bool, Vec<ROp>),
}

/// Draws operations. `far` scales how far they move.
/// How many positions may be held at a time.
fn most_saved() -> usize {
    if big() { 150 } else { 24 }
}

pub fn draw_ops(n: usize, far: usize, depth: usize, w: &[u32; 15]) -> Vec<ROp> {
    (0..n)
        .map(|_| {
            let (k, a) = gen(|c| {
                let k = c.weighted(w);
                let a = match k {
                    2 | 5 => {
                        if c.chance(1, 6) {
                            c.below(far * 8 + 2)
                        } else {
                            c.below(far + 1)
                        }
                    }
                    6 | 7 | 8 | 10 | 12 | 13 => c.below(most_saved() * 2 / 3),
                    14 => c.below(2),
                    _ => 0,
                };
                (k, a)
            });
            match k {
                0 => ROp::Token,
                1 => ROp::Advance,
                2 => ROp::AdvanceTo(a),
                3 => ROp::Eof,
                4 => ROp::Save,
                5 => ROp::SaveAt(a),
                6 => ROp::Restore(a),
                7 => ROp::Drop(a),
                8 => ROp::TokenAt(a),
                9 => ROp::Location,
                10 => ROp::LocationAt(a),
                11 => ROp::Span,
                12 => ROp::SpanBack(a),
                13 => ROp::IndexAt(a),
                _ if depth == 0 => ROp::Advance,
                _ => {
                    let m = gen(|c| c.below(5));
                    ROp::Attempt(a == 1, draw_ops(m, far, depth - 1, w))
                }
            }
        })
        .collect()
}

pub struct RawModel<T: TTr> {
    sess: u16,
    toks: Rc<Vec<(K, u32)>>,
    locs: Rc<Vec<Loc>>,
    seen: Rc<Seen>,
    saved: Vec<(SavedState, usize)>,
    cur: usize,
    demand: usize,
    /// Cursors may have been left anywhere down to this by an unwound operation.
    lo: usize,
    max_saved: usize,
    /// Where the attempts in progress started.
    starts: Vec<usize>,
    window: usize,
    pub bad: bool,
    check: bool,
    hist: u64,
    heap0: i64,
    phantom: std::marker::PhantomData<T>,
}

pub struct RawSess<T: TTr> {
    stream: Option<Stream<'static, Tok, T>>,
    m: RawModel<T>,
    ops: Vec<ROp>,
    repeat: usize,
    at: usize,
    finished: bool,
    long: bool,
    out: Rc<std::cell::Cell<u64>>,
}

impl<T: TTr> RawModel<T> {
    fn n(&self) -> usize {
        self.toks.len()
    }
    fn need(&mut self, items: usize) {
        self.demand = self.demand.max(items);
    }
    fn fail(&mut self, c: Class, msg: impl FnOnce() -> String) {
        self.bad = true;
        if self.check {
            violation(c, msg);
        }
    }
    fn note(&mut self, x: u64) {
        self.hist = mix(self.hist ^ x);
        quiet_event(x ^ 0x5000);
    }
    fn ev(&self, text: impl FnOnce() -> String) {
        event(3, || format!("s{} {}", self.sess, text()));
    }

    /// The most tokens that could be gone back to at any time.
    fn widen(&mut self) {
        let saved = self.saved.iter().map(|s| s.1).chain(self.starts.iter().copied());
        let oldest = saved.min().unwrap_or(usize::MAX).min(self.cur);
        self.window = self.window.max(self.seen.got.get().saturating_sub(oldest));
    }

    fn check_tok(&mut self, what: &str, i: usize, got: Option<(K, u32)>) {
        let want = self.toks.get(i).copied();
        self.note(got.map(|t| t.1 as u64 + 1).unwrap_or(0));
        if got != want {
            let c = if want.is_none() || got.is_none() { Class::Eof } else { Class::Token };
            self.fail(c, || {
                format!("{what} at index {i} is {}, the source's item there is {}", show(got), show(want))
            });
        }
    }
    fn check_loc(&mut self, what: &str, i: usize, got: Loc) {
        let want = self.locs[i];
        self.note(got.idx as u64 ^ got.a << 8 ^ got.b << 16 ^ got.c);
        if got != want {
            self.fail(Class::Location, || format!("{what} at index {i} is {got:?}, expected {want:?} ({})", T::NAME));
        }
    }
    fn check_span(&mut self, what: &str, i: usize, j: usize, got: Span) {
        let want = (self.locs[i], self.locs[j]);
        self.note(got.0.idx as u64 ^ (got.1.idx as u64) << 20 ^ got.1.a);
        if got != want {
            self.fail(Class::Location, || format!("{what} over {i}..{j} is {got:?}, expected {want:?} ({})", T::NAME));
        }
    }
    fn check_cursor(&mut self, what: &str, real: usize) {
        self.note(real as u64);
        if real != self.cur {
            let c = if real > self.n() { Class::Eof } else { Class::Token };
            let want = self.cur;
            self.fail(c, || format!("after {what} the cursor is {real}, expected {want}"));
        }
    }
    fn check_source(&mut self, what: &str) {
        let got = self.seen.polls.get();
        if got > self.demand {
            let d = self.demand;
            self.fail(Class::Demand, || format!("{what}: the source has been asked for {got} items although only {d} were needed"));
        }
        if self.seen.polls_after_end.get() > 0 {
            self.fail(Class::Eof, || format!("{what}: the source was polled again after it reported its end"));
        }
    }

    fn exec(&mut self, s: &mut Stream<'static, Tok, T>, op: &ROp) {
        if self.bad {
            return;
        }
        let n = self.n();
        let pick = |len: usize, a: usize| if len == 0 { None } else { Some(a % len) };
        match op {
            ROp::Token => {
                self.need(self.cur + 1);
                let t = s.token().map(|t| (t.k, t.seq));
                self.ev(|| format!("token() at {} -> {}", self.cur, show(t)));
                self.check_tok("token()", self.cur, t);
            }
            ROp::Advance => {
                self.need(self.cur + 1);
                let r = s.advance();
                let want = self.cur < n;
                self.ev(|| format!("advance() at {} -> {r}", self.cur));
                if !want {
                    probe(P::past_end_advance);
                }
                if r != want {
                    let (cur, c) = (self.cur, if want { Class::Token } else { Class::Eof });
                    self.fail(c, || format!("advance() at {cur} of {n} tokens reported {r}"));
                }
                self.cur += want as usize;
            }
            ROp::AdvanceTo(d) => {
                let t = self.cur + d;
                let want = t <= n;
                if t > self.cur {
                    self.need(t.min(n + 1));
                }
                if !want {
                    probe(P::past_end_advance);
                }
                let cur = self.cur;
                self.cur = t.min(n);
                self.lo = self.lo.min(cur);
                let r = s.advance_to(t);
                self.ev(|| format!("advance_to({t}) at {cur} -> {r}"));
                if r != want {
                    let c = if want { Class::Token } else { Class::Eof };
                    self.fail(c, || format!("advance_to({t}) at {cur} of {n} tokens reported {r}"));
                }
            }
            ROp::Eof => {
                self.need(self.cur + 1);
                let r = s.eof();
                self.ev(|| format!("eof() at {} -> {r}", self.cur));
                if r != (self.cur >= n) {
                    let cur = self.cur;
                    self.fail(Class::Eof, || format!("eof() at {cur} of {n} tokens is {r}"));
                }
            }
            ROp::Save => {
                if self.saved.len() >= most_saved() {
                    return;
                }
                let st = s.save();
                self.ev(|| format!("save() at {} as #{}", self.cur, self.saved.len()));
                self.saved.push((st, self.cur));
            }
            ROp::SaveAt(d) => {
                if self.saved.len() >= most_saved() {
                    return;
                }
                let t = self.cur + d;
                if *d > 0 {
                    probe(P::save_future);
                    self.need(t.min(n + 1));
                }
                if t > n {
                    probe(P::save_past_end);
                }
                let st = s.save_at(t);
                self.ev(|| format!("save_at({t}) at {} as #{}", self.cur, self.saved.len()));
                let i = s.index_at(&st);
                if i != t.min(n) {
                    let c = if t > n { Class::Eof } else { Class::Token };
                    self.fail(c, || format!("save_at({t}) of {n} tokens denotes index {i}"));
                }
                self.saved.push((st, t.min(n)));
            }
            ROp::Restore(a) => {
                if let Some(i) = pick(self.saved.len(), *a) {
                    let to = self.saved[i].1;
                    self.ev(|| format!("restore(#{i}) {} -> {to}", self.cur));
                    probe(if to < self.cur { P::rewind } else { P::forward_restore });
                    if to < self.cur && self.seen.got.get() > 8 {
                        probe(P::rewind_after_discard_possible);
                    }
                    s.restore(&self.saved[i].0);
                    self.cur = to;
                    self.lo = self.lo.min(to);
                }
            }
            ROp::Drop(a) => {
                if let Some(i) = pick(self.saved.len(), *a) {
                    fault(F::drop_saved_position);
                    self.ev(|| format!("drop saved #{i} (index {})", self.saved[i].1));
                    self.saved.swap_remove(i);
                }
            }
            ROp::TokenAt(a) => {
                if let Some(i) = pick(self.saved.len(), *a) {
                    let idx = self.saved[i].1;
                    let pulled = idx < self.seen.got.get() || (idx == n && self.seen.ended.get());
                    if idx == self.cur {
                        self.need(self.cur + 1);
                    } else if !pulled {
                        // May not be available yet.
                        return;
                    }
                    let t = s.token_at(&self.saved[i].0).map(|t| (t.k, t.seq));
                    self.ev(|| format!("token_at(#{i}={idx}) at {} -> {}", self.cur, show(t)));
                    self.check_tok("token_at()", idx, t);
                }
            }
            ROp::Location => {
                let l = T::loc(&s.location());
                self.ev(|| format!("location() at {}", self.cur));
                self.check_loc("location()", self.cur, l);
            }
            ROp::LocationAt(a) => {
                if let Some(i) = pick(self.saved.len(), *a) {
                    let idx = self.saved[i].1;
                    self.ev(|| format!("location_at(#{i}={idx}) at {}", self.cur));
                    let l = T::loc(&s.location_at(&self.saved[i].0));
                    self.check_loc("location_at()", idx, l);
                }
            }
            ROp::Span => {
                self.need(self.cur + 1);
                let sp = T::span(&s.span());
                self.ev(|| format!("span() at {}", self.cur));
                self.check_span("span()", self.cur, (self.cur + 1).min(n), sp);
            }
            ROp::SpanBack(a) => {
                if let Some(i) = pick(self.saved.len(), *a) {
                    let idx = self.saved[i].1;
                    if idx <= self.cur {
                        self.ev(|| format!("spanning_back_to(#{i}={idx}) at {}", self.cur));
                        let sp = T::span(&s.spanning_back_to(&self.saved[i].0));
                        self.check_span("spanning_back_to()", idx, self.cur, sp);
                    }
                }
            }
            ROp::IndexAt(a) => {
                if let Some(i) = pick(self.saved.len(), *a) {
                    let (idx, r) = (self.saved[i].1, s.index_at(&self.saved[i].0));
                    if idx != r {
                        self.fail(Class::Token, || format!("index_at() of a position saved for {idx} is {r}"));
                    }
                }
            }
            ROp::Attempt(ok, sub) => {
                let cur = self.cur;
                self.ev(|| format!("attempt at {cur} {{"));
                self.starts.push(cur);
                let r = s.attempt(|s| {
                    callback();
                    for o in sub {
                        self.exec(s, o);
                        callback();
                    }
                    if *ok { Ok(true) } else { Err(false) }
                });
                self.starts.pop();
                if !*ok {
                    probe(P::attempt_failed);
                    self.cur = cur;
                }
                self.ev(|| format!("}} attempt -> {r}"));
            }
        }
        self.widen();
        if !self.bad {
            let real = s.index();
            self.check_cursor(&format!("{op:?}"), real);
            self.check_source(&format!("{op:?}"));
        }
    }
}

pub fn show(t: Option<(K, u32)>) -> String {
    match t {
        None => "end of input".into(),
        Some((k, s)) => format!("{}#{s}", TEXT[k as usize % KINDS].escape_debug()),
    }
}

impl<T: TTr> RawSess<T> {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        sess: u16,
        plan: &Rc<Plan>,
        variant: u32,
        ops: Vec<ROp>,
        repeat: usize,
        check: bool,
        out: Rc<std::cell::Cell<u64>>,
    ) -> Self {
        let toks = Rc::new(plan.toks());
        let locs = Rc::new(T::table(variant, &toks));
        let (src, seen) = SimSource::new(plan, sess);
        let stream = match if variant == 0 { T::default_stream(src) } else { Err(src) } {
            Ok(s) => s,
            Err(src) => Stream::new_with_location(src, T::start(variant)),
        };
        RawSess {
            stream: Some(stream),
            m: RawModel {
                sess,
                toks,
                locs,
                seen,
                saved: vec![],
                cur: 0,
                demand: 0,
                lo: 0,
                max_saved: 0,
                starts: vec![],
                window: 0,
                bad: false,
                check,
                hist: 1,
                heap0: 0,
                phantom: std::marker::PhantomData,
            },
            ops,
            repeat,
            at: 0,
            finished: false,
            long: repeat > 1,
            out,
        }
    }

    fn finish(&mut self) {
        if self.finished {
            return;
        }
        self.finished = true;
        self.m.ev(|| "stream dropped".into());
        let s = self.stream.take();
        let r = guarded(100_000, move || drop(s));
        if let Caught::Panic(p) = r {
            self.m.fail(Class::Crash, || format!("dropping the stream panicked: {p}"));
        }
        let left = live(self.m.sess);
        if left != 0 && !self.m.bad {
            self.m.fail(Class::Retention, || format!("{left} tokens are still alive after the stream was dropped"));
        }
        self.m.saved.clear();
        self.out.set(mix(self.m.hist ^ self.m.seen.polls.get() as u64));
    }

    fn retention(&mut self) {
        let m = &mut self.m;
        let got = m.seen.got.get();
        m.widen();
        m.max_saved = m.max_saved.max(m.saved.len());
        let held = live(m.sess);
        let w = m.window;
        if held > 4 * w as i64 + 64 {
            m.fail(Class::Retention, || format!("{held} tokens are held after {got} of them, although at most {w} could ever be backtracked to at a time"));
        } else if (held as usize) < got {
            probe(P::discard_observed);
        }
        if self.long {
            if self.at == self.ops.len() {
                m.heap0 = heap();
            } else if self.at > self.ops.len() {
                let grown = heap() - m.heap0;
                let allowed = 16384 + 256 * (4 * w as i64 + 64) + 512 * m.max_saved as i64;
                if grown > allowed {
                    m.fail(Class::Retention, || format!("{grown} bytes more are held than after the first round of operations (window {w}, {got} tokens)"));
                }
            }
        }
    }
}

impl<T: TTr> Sess for RawSess<T> {
    fn step(&mut self) {
        if self.finished {
            return;
        }
        if self.at >= self.ops.len() * self.repeat || self.m.bad {
            self.finish();
            return;
        }
        let op = self.ops[self.at % self.ops.len()].clone();
        self.at += 1;
        let m = &mut self.m;
        let s = self.stream.as_mut().unwrap();
        m.lo = m.cur;
        m.starts.clear();
        let was = m.cur;
        let r = guarded(20_000 + 64 * m.toks.len() as u64, || m.exec(s, &op));
        match r {
            Caught::Done(()) => (),
            Caught::Fault => {
                probe(P::op_unwound);
                // Everything in reach of the operation may have been asked for.
                let got = m.seen.got.get();
                let real = s.index();
                let lo = m.lo.min(m.saved.iter().map(|s| s.1).min().unwrap_or(usize::MAX)).min(was);
                m.window = m.window.max(got.saturating_sub(lo));
                m.ev(|| format!("operation {op:?} unwound; cursor {real}"));
                if real < lo || real > got {
                    m.fail(Class::Token, || format!("after an unwound {op:?} the cursor is {real}, outside {lo}..={got}"));
                }
                m.cur = real;
                m.demand = m.demand.max(m.seen.polls.get());
                m.note(real as u64);
            }
            Caught::Hang => m.fail(Class::Crash, || format!("{op:?} does not end")),
            Caught::Panic(p) => m.fail(Class::Crash, || format!("{op:?} panicked: {p}")),
        }
        if !m.bad {
            self.retention();
        }
    }
    fn done(&self) -> bool {
        self.finished
    }
}
