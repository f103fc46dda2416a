//! The simulated token source: the only thing a session reads from.

use crate::tok::{Tok, K};
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// What one session's source will deliver, and when, and how it will fail.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// Token kinds, in order; the identity of the i-th is i + 1.
    pub kinds: Vec<K>,
    /// What a source that is polled again after its end would deliver.
    pub resume: Vec<K>,
    /// Simulated time each poll takes.
    pub stall: Vec<u32>,
    /// How many polls for each position unwind before one is answered.
    pub unwind: Vec<u8>,
}

impl Plan {
    pub fn toks(&self) -> Vec<(K, u32)> {
        self.kinds.iter().enumerate().map(|(i, k)| (*k, i as u32 + 1)).collect()
    }
    pub fn len(&self) -> usize {
        self.kinds.len()
    }
}

/// What has been asked of a source so far.
#[derive(Default)]
pub struct Seen {
    /// Tokens delivered.
    pub got: Cell<usize>,
    /// Answered polls (tokens plus the end).
    pub polls: Cell<usize>,
    pub ended: Cell<bool>,
    pub polls_after_end: Cell<usize>,
    pub unwound: RefCell<Vec<u8>>,
    /// Every kind of unwinding (source or callback) of this session.
    pub dropped: Cell<bool>,
}

pub struct SimSource {
    pub plan: Rc<Plan>,
    pub seen: Rc<Seen>,
    pub sess: u16,
}

impl SimSource {
    pub fn new(plan: &Rc<Plan>, sess: u16) -> (Self, Rc<Seen>) {
        let seen = Rc::new(Seen::default());
        (SimSource { plan: plan.clone(), seen: seen.clone(), sess }, seen)
    }
}

impl Drop for SimSource {
    fn drop(&mut self) {
        self.seen.dropped.set(true);
    }
}

impl Iterator for SimSource {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        seam(Seam::Poll);
        let s = &self.seen;
        let i = s.got.get();
        if s.ended.get() {
            let n = s.polls_after_end.get();
            s.polls_after_end.set(n + 1);
            return self.plan.resume.get(n).map(|k| Tok::from_source(*k, (self.plan.len() + n + 1) as u32, self.sess));
        }
        let stall = self.plan.stall.get(i).copied().unwrap_or(0);
        if stall > 0 {
            fault(F::source_stall);
        }
        W.with(|w| w.time.set(w.time.get() + 1 + stall as u64));
        let want = self.plan.unwind.get(i).copied().unwrap_or(0);
        if want > 0 && !std::thread::panicking() {
            let mut u = s.unwound.borrow_mut();
            if u.len() <= i {
                u.resize(i + 1, 0);
            }
            if u[i] < want {
                u[i] += 1;
                drop(u);
                fault(F::source_unwind);
                note_unwind();
                event(0x100 + self.sess as u64, || format!("s{} source unwinds at poll for token {}", self.sess, i));
                std::panic::panic_any(SimFault);
            }
        }
        s.polls.set(s.polls.get() + 1);
        if i < self.plan.len() {
            s.got.set(i + 1);
            let k = self.plan.kinds[i];
            event(0x10000 + ((self.sess as u64) << 8) + k as u64, || format!("s{} source -> {} #{}", self.sess, crate::tok::name(k), i + 1));
            Some(Tok::from_source(k, i as u32 + 1, self.sess))
        } else {
            s.ended.set(true);
            if !self.plan.resume.is_empty() {
                fault(F::end_but_would_resume);
            }
            event(0x200 + self.sess as u64, || format!("s{} source ends", self.sess));
            None
        }
    }
}
