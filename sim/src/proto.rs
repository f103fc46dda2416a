//! Engine C: record-oriented sessions over a simulated faulty link. The sender,
//! the link and its clock are simulated (a discrete-event loop that runs
//! whenever the receiving session waits for its source); the receiver is a
//! streaming session of a real parser with a resynchronising recovery strategy.

use crate::build::{root_probe, BP, LAST_ROOT};
use crate::choice::mix;
use crate::norm::*;
use crate::source::Seen;
use crate::tok::*;
use crate::world::*;
use pp::combinator::TryMapResult;
use pp::error::At;
use pp::parser::Parser;
use pp::primitive as prim;
use pp::recovery::{self, IncompleteStrategy};
use pp::recursive::{self, Recursive};
use pp::scanner;
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::BinaryHeap;
use std::rc::Rc;

/// Identities of tokens carry the connection they belong to.
pub const CONN: u32 = 1_000_000;
const RTO: u64 = 2000;
const DAMAGED: u32 = 99_999;

/// Where a delivered token comes from: record, transmission, position in it.
type Origin = Option<(u32, u32, u32)>;

pub static GROUP: [(Tok, Tok); 1] = [(Tok::of(LP), Tok::of(RP))];

enum Ev {
    Arrive(K, Origin),
    Ack(usize),
    Timer(u64),
    Cut,
    Fin,
}

struct Net {
    idiom: usize,
    /// Complete records, boundary included.
    records: Vec<Vec<K>>,
    queue: BinaryHeap<Reverse<(u64, u64)>>,
    events: std::collections::HashMap<u64, Ev>,
    evs: u64,
    now: u64,
    // Sender.
    base: usize,
    next: usize,
    window: usize,
    timer: u64,
    timers: bool,
    tries: Vec<u32>,
    /// Transmissions of each record that began when the link was clean.
    clean_tries: Vec<u32>,
    tx: u32,
    fin_sent: bool,
    // Link.
    rates: Rates,
    faults_end: u64,
    quiet_at: u64,
    link_free: u64,
    // Receiver side.
    conn: u32,
    delivered: Vec<(K, u32)>,
    origin: Vec<Origin>,
    pulled: usize,
    ended: bool,
    abandoned: bool,
    failed: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Rates {
    pub delay: u64,
    pub jitter: u64,
    pub trickle: u64,
    /// out of 64
    pub p_loss: usize,
    pub p_dup: usize,
    pub a_loss: usize,
    pub a_dup: usize,
    pub t_loss: usize,
    pub t_dup: usize,
    pub t_swap: usize,
    pub t_corrupt: usize,
    pub t_trunc: usize,
    pub partition: usize,
}

thread_local! {
    static NETS: RefCell<Vec<Option<Rc<RefCell<Net>>>>> = const { RefCell::new(vec![]) };
}

pub fn reset_nets() {
    NETS.with(|n| n.borrow_mut().clear());
}

impl Net {
    fn at(&mut self, t: u64, e: Ev) {
        self.evs += 1;
        self.queue.push(Reverse((t, self.evs)));
        self.events.insert(self.evs, e);
    }
    fn ev(&self, code: u64, text: impl FnOnce() -> String) {
        let (c, n) = (self.conn, self.now);
        event(0x30000 + code, || format!("conn {c} now={n} {}", text()));
    }
    fn faulty(&self) -> bool {
        self.now < self.faults_end
    }

    /// Sends what the window allows.
    fn pump(&mut self) {
        while self.next < self.records.len() && self.next < self.base + self.window {
            self.transmit(self.next);
            self.next += 1;
        }
        if self.base >= self.records.len() && !self.fin_sent {
            self.fin_sent = true;
            probe(P::sender_done);
            let t = self.link_free.max(self.now + self.rates.delay + self.rates.jitter + 1).max(self.quiet_at) + 1;
            self.at(t, Ev::Fin);
        }
    }

    fn transmit(&mut self, r: usize) {
        self.tries[r] += 1;
        self.tx += 1;
        let clean = self.now >= self.quiet_at;
        if clean {
            self.clean_tries[r] += 1;
        }
        let mut out: Vec<(K, Origin)> = vec![];
        if self.idiom == 2 && self.tries[r] > 1 && r == self.base {
            // A retransmission first closes whatever may still be open.
            let f = (4usize << (self.tries[r] - 2).min(5)).min(128);
            out.extend(std::iter::repeat_n((RP, None), f));
            out.push((LP, None));
            out.push((RP, None));
        }
        let tx = self.tx;
        out.extend(self.records[r].iter().enumerate().map(|(i, k)| (*k, Some((r as u32, tx, i as u32)))));
        let t = self.tries[r];
        self.ev(1, || format!("send record {r} (transmission {t} of it{})", if clean { ", link clean" } else { "" }));
        let f = self.faulty();
        let mut copies = 1;
        let (mut delay, rates) = (self.rates.delay, self.rates.clone());
        if f {
            sched(|c| {
                if c.chance(rates.partition, 64) {
                    fault(F::net_partition);
                    copies = 0;
                } else if c.chance(rates.p_loss, 64) {
                    fault(F::net_loss);
                    copies = 0;
                } else if c.chance(rates.p_dup, 64) {
                    fault(F::net_duplicate);
                    copies = 2;
                }
                if rates.jitter > 0 {
                    delay += c.below(rates.jitter as usize + 1) as u64;
                }
            });
        }
        for _ in 0..copies {
            let mut out = out.clone();
            if f {
                sched(|c| damage(c, &rates, &mut out));
                if rates.jitter > 0 {
                    fault(F::net_delay);
                }
            }
            // On a clean link, nothing overtakes anything.
            let mut t = self.now + delay;
            if !f {
                t = t.max(self.link_free);
            } else if t < self.link_free {
                fault(F::net_reorder);
            }
            for (k, o) in out {
                t += rates.trickle;
                self.at(t, Ev::Arrive(k, o));
            }
            self.link_free = self.link_free.max(t + 1);
            delay += rates.jitter / 2;
        }
    }

    fn ack(&mut self, upto: usize) {
        let r = self.rates.clone();
        let mut copies = 1;
        if self.faulty() {
            sched(|c| {
                if c.chance(r.a_loss, 64) {
                    fault(F::ack_loss);
                    copies = 0;
                } else if c.chance(r.a_dup, 64) {
                    fault(F::ack_duplicate);
                    copies = 2;
                }
            });
        }
        for i in 0..copies {
            let t = self.now + r.delay + i * r.jitter;
            self.at(t, Ev::Ack(upto));
        }
    }

    fn arm(&mut self) {
        if self.timers {
            self.timer += 1;
            let (t, n) = (self.now + RTO, self.timer);
            self.at(t, Ev::Timer(n));
        }
    }

    /// Runs the network until there is something for the receiver.
    fn wait(&mut self) -> Option<(K, u32)> {
        let mut guard = 0;
        loop {
            if self.pulled < self.delivered.len() {
                let t = self.delivered[self.pulled];
                self.pulled += 1;
                return Some(t);
            }
            if self.ended {
                return None;
            }
            guard += 1;
            if guard > 100_000 {
                self.ended = true;
                return None;
            }
            let Some(Reverse((t, id))) = self.queue.pop() else {
                if !self.abandoned && !self.failed {
                    self.failed = true;
                    let (b, p, conn) = (self.base, self.pulled, self.conn);
                    for c in [Class::Demand, Class::Resync] {
                        violation(c, || {
                            format!("conn {conn}: deadlock: the receiver waits for token {p} before it reports record {b}, which has arrived in full, and the sender waits for its acknowledgement")
                        });
                    }
                }
                self.ended = true;
                return None;
            };
            self.now = self.now.max(t);
            W.with(|w| w.time.set(w.time.get().max(self.now)));
            match self.events.remove(&id).unwrap() {
                Ev::Arrive(k, o) => {
                    let i = self.delivered.len() as u32 + 1;
                    self.delivered.push((k, self.conn * CONN + i));
                    self.origin.push(o);
                    self.ev(2 + k as u64 * 16, || format!("token {} arrives as #{i} {o:?}", name(k)));
                }
                Ev::Ack(n) => {
                    if n > self.base && !self.abandoned {
                        self.base = n;
                        self.ev(3, || format!("sender gets ack {n}"));
                        self.next = self.next.max(n);
                        self.arm();
                        self.pump();
                    }
                }
                Ev::Timer(n) => {
                    if n == self.timer && !self.abandoned && self.base < self.records.len() {
                        fault(F::sender_timeout);
                        let limit = if self.idiom == 2 { 12 } else { 6 };
                        let (b, conn) = (self.base, self.conn);
                        if self.clean_tries[b] >= limit {
                            if !self.failed {
                                self.failed = true;
                                violation(Class::Resync, || {
                                    format!("conn {conn}: record {b} has not got through after {limit} transmissions over a clean link")
                                });
                            }
                            self.ended = true;
                            return None;
                        }
                        self.ev(4, || format!("sender times out, back to record {b}"));
                        self.next = b;
                        self.arm();
                        self.pump();
                    }
                }
                Ev::Cut => {
                    fault(F::truncate);
                    self.ev(5, || "link cut for good".into());
                    self.ended = true;
                    self.abandoned = true;
                }
                Ev::Fin => {
                    self.ev(6, || "end of stream".into());
                    self.ended = true;
                }
            }
        }
    }
}

fn damage(c: &mut crate::choice::Chooser, r: &Rates, out: &mut Vec<(K, Origin)>) {
    let mut i = 0;
    while i < out.len() {
        if c.chance(r.t_loss, 64) {
            fault(F::token_loss);
            out.remove(i);
            continue;
        }
        if c.chance(r.t_dup, 64) {
            fault(F::token_duplicate);
            let t = out[i];
            out.insert(i, t);
            i += 1;
        }
        if i + 1 < out.len() && c.chance(r.t_swap, 64) {
            fault(F::token_reorder);
            out.swap(i, i + 1);
        }
        if c.chance(r.t_corrupt, 64) {
            fault(F::net_corrupt);
            out[i] = (c.below(KINDS) as K, None);
        }
        i += 1;
    }
    if !out.is_empty() && c.chance(r.t_trunc, 64) {
        fault(F::net_truncate);
        let n = c.below(out.len());
        out.truncate(n);
    }
}

/// What the receiver reads from.
struct NetSource {
    net: Rc<RefCell<Net>>,
    seen: Rc<Seen>,
    sess: u16,
}
impl Iterator for NetSource {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        seam(Seam::Poll);
        if self.seen.ended.get() {
            self.seen.polls_after_end.set(self.seen.polls_after_end.get() + 1);
            let n = self.seen.polls_after_end.get() as u32;
            return Some(Tok::from_source(0, 900_000 + n, self.sess));
        }
        self.seen.polls.set(self.seen.polls.get() + 1);
        let r = self.net.borrow_mut().wait();
        match r {
            Some((k, s)) => {
                self.seen.got.set(self.seen.got.get() + 1);
                Some(Tok::from_source(k, s, self.sess))
            }
            None => {
                self.seen.ended.set(true);
                fault(F::end_but_would_resume);
                None
            }
        }
    }
}

// ------------------------------------------------------------- the receiver

fn flat(v: &Val, out: &mut Vec<u32>) {
    match v {
        Val::Tok(_, s) => out.push(*s),
        Val::List(vs) => vs.iter().for_each(|v| flat(v, out)),
        Val::Opt(Some(v)) | Val::Tag(_, v) | Val::Spanned(_, _, v) => flat(v, out),
        _ => (),
    }
}

/// The integrity check of the record format: which record these tokens are an
/// unaltered transmission of, if any.
fn intact(idiom: usize, seqs: &[u32]) -> Option<u32> {
    let first = *seqs.first()?;
    let conn = first / CONN;
    let net = NETS.with(|n| n.borrow().get(conn as usize).cloned().flatten())?;
    let net = net.borrow();
    let (rec, tx, off) = net.origin.get((first % CONN) as usize - 1).copied().flatten()?;
    if off != 0 {
        return None;
    }
    for (i, s) in seqs.iter().enumerate() {
        if *s != first + i as u32 || net.origin[(s % CONN) as usize - 1] != Some((rec, tx, i as u32)) {
            return None;
        }
    }
    // The closing boundary of idioms 1 and 3 is not part of what is checked.
    let whole = net.records[rec as usize].len() - (idiom == 1 || idiom == 3) as usize;
    (seqs.len() == whole).then_some(rec)
}

fn crc<E: TErr>(idiom: usize) -> impl Fn(Val, E::S) -> TryMapResult<Val, E> + 'static {
    move |v, s| {
        callback();
        let mut seqs = vec![];
        flat(&v, &mut seqs);
        match intact(idiom, &seqs) {
            Some(r) => TryMapResult::Ok(Val::Tag(r, Box::new(v))),
            None => TryMapResult::Err(vec![E::custom("damaged", At::Span(s))]),
        }
    }
}

fn is(k: K) -> impl Fn(&Tok) -> bool + Clone + 'static {
    move |t: &Tok| {
        callback();
        t.k == k
    }
}

fn tok_val(t: Tok) -> Val {
    Val::Tok(t.k, t.seq)
}

pub fn receiver<E: TErr>(idiom: usize) -> BP<E> {
    let none = |ks: Vec<K>| {
        let ts: Vec<Tok> = ks.iter().map(|k| Tok::of(*k)).collect();
        prim::none_of::<Tok, Vec<Tok>, E>(ts).map(tok_val).boxed()
    };
    let one = |ks: Vec<K>| {
        let ts: Vec<Tok> = ks.iter().map(|k| Tok::of(*k)).collect();
        prim::one_of::<Tok, Vec<Tok>, E>(ts).map(tok_val).boxed()
    };
    let lost = Val::Const(DAMAGED);
    let p: BP<E> = match idiom {
        1 => none(vec![SEMI])
            .repeated()
            .at_least(1)
            .map(Val::List)
            .then_ignore(prim::just::<Tok, E>(Tok::of(SEMI)))
            .try_map(crc::<E>(1))
            .to_recover(recovery::find(is(SEMI)).skip().and_return(lost))
            .boxed(),
        2 => {
            let group = recursive::recursive(|g: &Recursive<'static, Tok, Val, E>| {
                let item = none(vec![LP, RP]).or(g.clone());
                one(vec![LP])
                    .then(item.repeated().map(Val::List))
                    .then(one(vec![RP]))
                    .map(|((a, b), c)| Val::List(vec![a, b, c]))
            });
            group
                .try_map(crc::<E>(2))
                .to_recover(
                    recovery::find(is(LP)).scan(scanner::nested_delimiters::<Tok, E::S>(&GROUP[..])).skip().and_return(lost),
                )
                .boxed()
        }
        3 => one(vec![HASH])
            .then(none(vec![SEMI]).repeated())
            .map(|(h, b)| Val::List(vec![h, Val::List(b)]))
            .then_ignore(prim::just::<Tok, E>(Tok::of(SEMI)))
            .try_map(crc::<E>(3))
            .to_recover(
                recovery::while_not(is(SEMI), recovery::retry().or_boxed()).find(is(SEMI)).skip().and_return(lost),
            )
            .boxed(),
        5 => {
            // Bodies may contain anything, also what looks like a header, so a
            // damaged record may only be noticed after the start of the next.
            let any = || prim::filter::<Tok, _, E>(|_: &Tok| true).map(tok_val);
            let body = |n: usize| {
                one(vec![n as K])
                    .then(any().repeated().exactly(n + 1))
                    .map(|(l, b)| Val::List(vec![l, Val::List(b)]))
            };
            let bodies = body(0).alters(body(1)).and(body(2)).and(body(3));
            one(vec![HASH])
                .then(bodies)
                .map(|(h, b)| Val::List(vec![h, b]))
                .then(one(vec![SEMI]))
                .map(|(a, b)| Val::List(vec![a, b]))
                .try_map(crc::<E>(5))
                .to_recover(
                    recovery::while_not(|_: &Tok| false, recovery::retry().exactly_and_silently().or_boxed()).and_return(lost),
                )
                .boxed()
        }
        7 => {
            // An attempt may read into the records that follow a damaged one,
            // which the recovery must not skip.
            let any = || prim::filter::<Tok, _, E>(|_: &Tok| true).map(tok_val);
            let body = |n: usize| {
                one(vec![n as K])
                    .then(any().repeated().exactly(n + 1))
                    .map(|(l, b)| Val::List(vec![l, Val::List(b)]))
                    .boxed()
            };
            body(0)
                .or(body(1))
                .or(body(2))
                .or(body(3))
                .then(one(vec![SEMI]))
                .map(|(a, b)| Val::List(vec![a, b]))
                .try_map(crc::<E>(7))
                .boxed()
                .to_recover(recovery::find(is(SEMI)).skip().and_return(lost))
                .boxed()
        }
        8 | 9 => {
            let body = |n: usize| {
                one(vec![n as K])
                    .then(none(vec![SEMI]).repeated().exactly(n + 1))
                    .map(|(l, b)| Val::List(vec![l, Val::List(b)]))
                    .boxed()
            };
            let bodies = body(0).alters(body(1)).and(body(2)).and(body(3));
            let rec = one(vec![HASH])
                .then(bodies)
                .map(|(h, b)| Val::List(vec![h, b]))
                .then(one(vec![SEMI]))
                .map(|(a, b)| Val::List(vec![a, b]))
                .try_map(crc::<E>(idiom))
                .boxed();
            if idiom == 8 {
                rec.to_recover(
                    recovery::seek_to_failed().while_not(is(SEMI), recovery::attempt_to().or_boxed()).skip().and_return(lost),
                )
                .boxed()
            } else {
                rec.to_recover(recovery::scan(|| UntilSemi).skip_if(is(SEMI)).and_return(lost)).boxed()
            }
        }
        6 => {
            let close: [Tok; 2] = [Tok::of(SEMI), Tok::of(BAR)];
            let sync = prim::seq::<Tok, [Tok; 2], E>(close).to(lost.clone());
            none(vec![SEMI])
                .repeated()
                .at_least(1)
                .map(Val::List)
                .then(one(vec![SEMI]))
                .then(one(vec![BAR]))
                .map(|((a, b), c)| Val::List(vec![a, b, c]))
                .try_map(crc::<E>(6))
                .to_recover(
                    recovery::while_not(|_: &Tok| false, recovery::try_to_parse(sync).or_boxed()).and_return(lost),
                )
                .boxed()
        }
        _ => {
            let body = |n: usize| {
                one(vec![n as K])
                    .then(none(vec![HASH]).repeated().exactly(n + 1))
                    .map(|(l, b)| Val::List(vec![l, Val::List(b)]))
            };
            let bodies = body(0).alters(body(1)).and(body(2)).and(body(3));
            one(vec![HASH])
                .then(bodies)
                .map(|(h, b)| Val::List(vec![h, b]))
                .try_map(crc::<E>(4))
                .to_recover(recovery::skip().find(is(HASH)).and_return(lost))
                .boxed()
        }
    };
    root_probe(p)
}

struct UntilSemi;
impl<E: TErr> scanner::Scanner<'static, Tok, E> for UntilSemi {
    fn scan(&mut self, token: Tok, _: E::S, _: &mut Vec<E>) -> bool {
        callback();
        token.k == SEMI
    }
}

/// Only to name the type of an inner strategy.
trait OrBoxed<E: TErr, C: Parser<'static, Tok>>: IncompleteStrategy<'static, Tok, C> + Sized + 'static {
    fn or_boxed(self) -> recovery::Boxed<'static, Tok, C> {
        self.boxed()
    }
}
impl<E: TErr, C: Parser<'static, Tok, Error = E> + 'static, S: IncompleteStrategy<'static, Tok, C> + 'static> OrBoxed<E, C> for S {}

/// What the next result has to be: the record or damage, whether it was found
/// without recovery, where it ends and how many source items decide that.
struct Want {
    rec: Option<(u32, Vec<u32>)>,
    clean: bool,
    end: usize,
    demand: usize,
}

/// Splits what has been delivered. None: not decided yet.
fn segment(idiom: usize, toks: &[(K, u32)], ended: bool, pos: usize) -> Option<Want> {
    let n = toks.len();
    let find = |from: usize, k: K| (from..n).find(|i| toks[*i].0 == k);
    let seqs = |a: usize, b: usize| toks[a..b].iter().map(|t| t.1).collect::<Vec<_>>();
    let check = |a: usize, b: usize| {
        let s = seqs(a, b);
        intact(idiom, &s).map(|r| (r, s))
    };
    let lost = |end: Option<usize>| match end {
        Some(e) => Some(Want { rec: None, clean: false, end: e, demand: e }),
        None if ended => Some(Want { rec: None, clean: false, end: n, demand: n + 1 }),
        None => None,
    };
    match idiom {
        1 | 3 => {
            let Some(s) = find(pos, SEMI) else { return lost(None) };
            let starts: Vec<usize> = if idiom == 1 {
                vec![pos]
            } else {
                (pos..s).filter(|q| toks[*q].0 == HASH).collect()
            };
            for q in starts {
                if q < s {
                    if let Some(rec) = check(q, s) {
                        return Some(Want { rec: Some(rec), clean: q == pos, end: s + 1, demand: s + 1 });
                    }
                }
            }
            lost(Some(s + 1))
        }
        2 => {
            let close = |from: usize| {
                let mut d = 0;
                (from..n).find(|i| {
                    match toks[*i].0 {
                        LP => d += 1,
                        RP => d -= 1,
                        _ => (),
                    }
                    d == 0
                })
            };
            if toks[pos].0 == LP {
                let Some(m) = close(pos) else { return lost(None) };
                if let Some(rec) = check(pos, m + 1) {
                    return Some(Want { rec: Some(rec), clean: true, end: m + 1, demand: m + 1 });
                }
                return lost(Some(m + 1));
            }
            let Some(s) = find(pos, LP) else { return lost(None) };
            lost(close(s).map(|m| m + 1))
        }
        5 => {
            let mut demand = 0;
            for q in pos..n {
                // How many items an attempt from q needs, if they have the shape of a record.
                let (need, shape) = match (toks[q].0, toks.get(q + 1).map(|t| t.0)) {
                    (HASH, None) => (q + 2, false),
                    (HASH, Some(l)) if l < 4 => {
                        let e = q + 4 + l as usize;
                        (e, e <= n && toks[e - 1].0 == SEMI)
                    }
                    (HASH, _) => (q + 2, false),
                    _ => (q + 1, false),
                };
                if need > n && !ended {
                    return None;
                }
                demand = need.min(n + 1).max(demand);
                if shape {
                    if let Some(rec) = check(q, need) {
                        return Some(Want { rec: Some(rec), clean: q == pos, end: need, demand });
                    }
                }
            }
            lost(None)
        }
        7 => {
            let mut demand = pos + 1;
            if toks[pos].0 < 4 {
                let e = pos + 3 + toks[pos].0 as usize;
                if e > n && !ended {
                    return None;
                }
                demand = e.min(n + 1);
                if e <= n && toks[e - 1].0 == SEMI {
                    if let Some(rec) = check(pos, e) {
                        return Some(Want { rec: Some(rec), clean: true, end: e, demand });
                    }
                }
            }
            let mut w = lost(find(pos, SEMI).map(|s| s + 1))?;
            w.demand = w.demand.max(demand);
            Some(w)
        }
        8 | 9 => {
            let s = find(pos, SEMI).map(|s| s + 1);
            if let Some(rec) = s.and_then(|e| check(pos, e)) {
                let e = s.unwrap();
                return Some(Want { rec: Some(rec), clean: true, end: e, demand: e });
            }
            lost(s)
        }
        6 => {
            if let Some(s) = find(pos, SEMI) {
                if s > pos && s + 1 < n && toks[s + 1].0 == BAR {
                    if let Some(rec) = check(pos, s + 2) {
                        return Some(Want { rec: Some(rec), clean: true, end: s + 2, demand: s + 2 });
                    }
                }
            }
            lost((pos..n.saturating_sub(1)).find(|q| toks[*q].0 == SEMI && toks[q + 1].0 == BAR).map(|q| q + 2))
        }
        _ => {
            if toks[pos].0 == HASH {
                if pos + 1 >= n && !ended {
                    return None;
                }
                if pos + 1 < n && toks[pos + 1].0 < 4 {
                    let e = pos + 3 + toks[pos + 1].0 as usize;
                    let stop = find(pos + 1, HASH).unwrap_or(n).min(e);
                    if stop == e {
                        if let Some(rec) = check(pos, e) {
                            return Some(Want { rec: Some(rec), clean: true, end: e, demand: e });
                        }
                    }
                }
            }
            match find(pos + 1, HASH) {
                Some(q) => Some(Want { rec: None, clean: false, end: q, demand: q + 1 }),
                None => lost(None),
            }
        }
    }
}

enum S<E: TErr> {
    Str(pp::parser::Stream<'static, 'static, Tok, BP<E>>),
    Tail(pp::parser::Tail<'static, Tok, E::Trk>),
    Gone,
}

pub struct NetSess<E: TErr> {
    s: S<E>,
    _parser: Rc<BP<E>>,
    net: Rc<RefCell<Net>>,
    seen: Rc<Seen>,
    sess: u16,
    idiom: usize,
    pos: usize,
    demand: usize,
    window: usize,
    expected: usize,
    tail_after: Option<usize>,
    results: usize,
    bad: bool,
    finished: bool,
}

#[derive(Clone, Debug)]
pub struct NetPlan {
    pub idiom: usize,
    pub records: Vec<Vec<K>>,
    pub rates: Rates,
    pub window: usize,
    pub timers: bool,
    pub faults_end: u64,
    pub cut: Option<u64>,
    pub tail_after: Option<usize>,
}

pub fn draw_plan(idiom: usize) -> NetPlan {
    gen(|c| {
        let n = c.range(1, 6);
        let letters: [K; 6] = [8, 9, 10, 11, 12, 13];
        let records = (0..n)
            .map(|_| {
                let mut r = vec![];
                match idiom {
                    1 => {
                        for _ in 0..c.range(1, if big() { 80 } else { 5 }) {
                            r.push(*c.pick(&letters));
                        }
                        r.push(SEMI);
                    }
                    2 => {
                        let mut open = 0;
                        r.push(LP);
                        let deep = if big() { 40 } else { 3 };
                        for _ in 0..c.below(if big() { 120 } else { 8 }) {
                            match c.below(4) {
                                0 if open < deep => {
                                    open += 1;
                                    r.push(LP);
                                }
                                1 if open > 0 => {
                                    open -= 1;
                                    r.push(RP);
                                }
                                _ => r.push(*c.pick(&letters)),
                            }
                        }
                        r.extend(std::iter::repeat_n(RP, open + 1));
                    }
                    3 => {
                        r.push(HASH);
                        for _ in 0..c.below(if big() { 80 } else { 5 }) {
                            r.push(if c.chance(1, 8) { HASH } else { *c.pick(&letters) });
                        }
                        r.push(SEMI);
                    }
                    5 => {
                        let l = c.below(4);
                        r.push(HASH);
                        r.push(l as K);
                        for _ in 0..=l {
                            r.push(match c.below(8) {
                                0 => HASH,
                                1 => c.below(4) as K,
                                2 => SEMI,
                                _ => *c.pick(&letters),
                            });
                        }
                        r.push(SEMI);
                    }
                    7..=9 => {
                        let l = c.below(4);
                        if idiom != 7 {
                            r.push(HASH);
                        }
                        r.push(l as K);
                        for _ in 0..=l {
                            r.push(match c.below(6) {
                                0 => c.below(4) as K,
                                1 => HASH,
                                _ => *c.pick(&letters),
                            });
                        }
                        r.push(SEMI);
                    }
                    6 => {
                        for _ in 0..c.range(1, if big() { 80 } else { 5 }) {
                            r.push(if c.chance(1, 6) { BAR } else { *c.pick(&letters) });
                        }
                        r.push(SEMI);
                        r.push(BAR);
                    }
                    _ => {
                        let l = c.below(4);
                        r.push(HASH);
                        r.push(l as K);
                        for _ in 0..=l {
                            r.push(if c.chance(1, 5) { c.below(4) as K } else { *c.pick(&letters) });
                        }
                    }
                }
                r
            })
            .collect();
        let clean = c.chance(1, 6);
        let mut rates = Rates { delay: c.range(1, 20) as u64, trickle: c.below(3) as u64, ..Rates::default() };
        let mut timers = true;
        let mut faults_end = 0;
        if clean {
            timers = c.chance(1, 3);
        } else {
            // Swarm: each kind of fault is on in some of the runs.
            let mut p = |hi: usize| if c.chance(1, 2) { c.range(1, hi) } else { 0 };
            rates.jitter = p(200) as u64;
            rates.p_loss = p(20);
            rates.p_dup = p(20);
            rates.a_loss = p(30);
            rates.a_dup = p(20);
            rates.t_loss = p(8);
            rates.t_dup = p(6);
            rates.t_swap = p(6);
            rates.t_corrupt = p(6);
            rates.t_trunc = p(16);
            rates.partition = p(10);
            faults_end = c.below(8) as u64 * RTO + c.below(RTO as usize) as u64;
        }
        let window = if timers { c.range(1, 3) } else { 1 };
        let cut = if c.chance(1, 8) && timers { Some(c.below(6 * RTO as usize) as u64) } else { None };
        let tail_after = if c.chance(1, 8) { Some(c.below(6)) } else { None };
        NetPlan { idiom, records, rates, window, timers, faults_end, cut, tail_after }
    })
}

impl<E: TErr> NetSess<E> {
    pub fn new(sess: u16, parser: &Rc<BP<E>>, plan: &NetPlan, variant: u32) -> Self {
        let n = plan.records.len();
        let slack = plan.rates.delay + 3 * plan.rates.jitter + 200 * plan.rates.trickle + 10;
        let mut net = Net {
            idiom: plan.idiom,
            records: plan.records.clone(),
            queue: BinaryHeap::new(),
            events: Default::default(),
            evs: 0,
            now: 0,
            base: 0,
            next: 0,
            window: plan.window,
            timer: 0,
            timers: plan.timers,
            tries: vec![0; n],
            clean_tries: vec![0; n],
            tx: 0,
            fin_sent: false,
            rates: plan.rates.clone(),
            faults_end: plan.faults_end,
            quiet_at: if plan.faults_end == 0 { 0 } else { plan.faults_end + slack },
            link_free: 0,
            conn: sess as u32,
            delivered: vec![],
            origin: vec![],
            pulled: 0,
            ended: false,
            abandoned: false,
            failed: false,
        };
        if let Some(t) = plan.cut {
            net.at(t, Ev::Cut);
        }
        net.arm();
        net.pump();
        let net = Rc::new(RefCell::new(net));
        NETS.with(|ns| {
            let mut ns = ns.borrow_mut();
            if ns.len() <= sess as usize {
                ns.resize_with(sess as usize + 1, || None);
            }
            ns[sess as usize] = Some(net.clone());
        });
        let seen = Rc::new(Seen::default());
        let src = NetSource { net: net.clone(), seen: seen.clone(), sess };
        // The stream is dropped before the parser that it borrows.
        let p: &'static BP<E> = unsafe { &*Rc::as_ptr(parser) };
        NetSess {
            s: S::Str(p.stream_with_location(src, E::Trk::start(variant))),
            _parser: parser.clone(),
            net,
            seen,
            sess,
            idiom: plan.idiom,
            pos: 0,
            demand: 0,
            window: 0,
            expected: 0,
            tail_after: plan.tail_after,
            results: 0,
            bad: false,
            finished: false,
        }
    }

    fn fail(&mut self, cs: &[Class], msg: impl FnOnce() -> String) {
        self.bad = true;
        let msg = format!("conn {}: {}", self.sess, msg());
        for c in cs {
            violation(*c, || msg.clone());
        }
    }

    fn watch(&mut self, what: &str, start: usize) {
        let (p, d) = (self.seen.polls.get(), self.demand);
        if p > d && !self.bad {
            self.fail(&[Class::Demand], || format!("{what}: {p} items have been asked for although {d} decide it"));
        }
        if self.seen.polls_after_end.get() > 0 && !self.bad {
            self.fail(&[Class::Eof], || format!("{what}: the source was polled again after its end"));
        }
        self.window = self.window.max(self.seen.got.get().saturating_sub(start));
        let (held, w) = (live(self.sess), self.window as i64);
        if held > 4 * w + 64 && !self.bad {
            self.fail(&[Class::Retention], || format!("{held} tokens are held, the longest record spans {w}"));
        }
    }

    fn result(&mut self) {
        let S::Str(s) = &mut self.s else { return };
        let pos = self.pos;
        let r = guarded(4_000_000, || s.next().map(|r| (norm_res(&r), LAST_ROOT.with(|l| l.get()))));
        let r = match r {
            Caught::Done(r) => r,
            Caught::Fault => return,
            Caught::Hang => return self.fail(&[Class::Crash, Class::Resync], || "next() does not end".into()),
            Caught::Panic(p) => return self.fail(&[Class::Crash, Class::Resync], || format!("next() panicked: {p}")),
        };
        let (toks, ended, failed) = {
            let n = self.net.borrow();
            (n.delivered[..n.pulled].to_vec(), self.seen.ended.get(), n.failed)
        };
        if failed {
            self.bad = true;
            return;
        }
        let conn = self.sess;
        event(50, || match &r {
            None => format!("conn {conn} next() -> None at {pos}"),
            Some((r, (b, a))) => format!("conn {conn} next() -> {} over {b}..{a}: {:?}", r.kind(), r.val()),
        });
        let Some((r, (b, a))) = r else {
            self.demand = self.demand.max(pos + 1);
            if pos < toks.len() || !ended {
                let n = toks.len();
                self.fail(&[Class::Resync, Class::Tiling], || format!("the session ended at {pos} with {n} tokens delivered"));
            }
            self.watch("end of session", pos);
            self.finish();
            return;
        };
        quiet_event(r.digest() ^ a as u64);
        self.results += 1;
        if b != pos {
            self.fail(&[Class::Tiling, Class::Resync], || format!("a result starts at {b}, the previous one ended at {pos}"));
        }
        if a <= pos && !self.bad {
            self.fail(&[Class::Resync], || format!("no progress: {r:?} at {pos}"));
        }
        if matches!(r, Res::Fail(..)) && !self.bad {
            self.fail(&[Class::Resync, Class::Recovery], || format!("the recovering parser failed at {pos}: {r:?}"));
        }
        if a > toks.len() && !self.bad {
            self.fail(&[Class::Eof, Class::Tiling], || format!("a result ends at {a}, only {} tokens exist", toks.len()));
        }
        if self.bad {
            return;
        }
        let rs = toks.iter().skip(pos).take(40).map(|t| t.0).collect::<Vec<_>>();
        match segment(self.idiom, &toks, ended, pos) {
            None => self.fail(&[Class::Resync], || {
                format!("{r:?} at {pos} although what has arrived ({}) does not decide that", names(&rs))
            }),
            Some(w) => {
                self.demand = self.demand.max(w.demand);
                probe(match &r {
                    Res::Ok(_) => P::success,
                    _ => P::recovered,
                });
                if w.rec.is_some() {
                    probe(P::record_intact);
                } else {
                    probe(P::net_resync);
                }
                let got = match r.val() {
                    Some(Val::Tag(id, v)) => {
                        let mut s = vec![];
                        flat(v, &mut s);
                        Some((*id, s))
                    }
                    _ => None,
                };
                if got.is_none() && r.val() != Some(&Val::Const(DAMAGED)) {
                    self.fail(&[Class::Resync, Class::Recovery], || format!("unexpected output {r:?}"));
                } else if matches!(r, Res::Ok(_)) && !w.clean {
                    self.fail(&[Class::Resync, Class::TriState], || {
                        format!("damaged input ({}) at {pos} is reported as success: {r:?}", names(&rs))
                    });
                } else if got != w.rec {
                    let want = w.rec.clone();
                    self.fail(&[Class::Resync, Class::Recovery], || {
                        format!("at {pos} ({}) record {want:?} was to be delivered, got {got:?}", names(&rs))
                    });
                } else if matches!(r, Res::Ok(_)) != w.clean {
                    self.fail(&[Class::Resync, Class::Exact], || format!("an intact record ({}) at {pos} is reported as {r:?}", names(&rs)));
                } else if a != w.end {
                    let e = w.end;
                    self.fail(&[Class::Resync, Class::Recovery], || {
                        format!("resynchronised at {a} instead of {e} ({} from {pos})", names(&rs))
                    });
                }
                if self.bad {
                    return;
                }
                if let Some((id, _)) = got {
                    let mut net = self.net.borrow_mut();
                    if id as usize == self.expected {
                        self.expected += 1;
                        probe(P::record_accepted);
                    }
                    let e = self.expected;
                    net.ack(e);
                }
            }
        }
        self.pos = a;
        self.watch("next()", pos);
    }

    fn tail(&mut self) {
        if let S::Str(_) = &self.s {
            let S::Str(s) = std::mem::replace(&mut self.s, S::Gone) else { return };
            probe(P::tail_taken);
            {
                // Nothing is acknowledged from now on, so the sender gives up.
                let mut net = self.net.borrow_mut();
                net.abandoned = true;
                let t = net.link_free.max(net.now) + RTO;
                net.at(t, Ev::Fin);
            }
            self.s = S::Tail(s.tail());
        }
        let S::Tail(t) = &mut self.s else { return };
        let mut ends = 0;
        let mut msg = None;
        for _ in 0..100_000 {
            let x = match guarded(100_000, || t.next().map(|t| (t.k, t.seq))) {
                Caught::Done(x) => x,
                Caught::Fault => return,
                Caught::Hang => return self.fail(&[Class::Crash], || "the tail does not end".into()),
                Caught::Panic(p) => return self.fail(&[Class::Crash], || format!("the tail panicked: {p}")),
            };
            let net = self.net.borrow();
            let want = net.delivered.get(self.pos).copied();
            self.demand = self.demand.max(self.pos + 1);
            if x != want {
                msg = Some(format!("the tail yields {x:?} where {want:?} is left (index {})", self.pos));
                break;
            }
            match x {
                Some(_) => self.pos += 1,
                None => {
                    ends += 1;
                    if ends == 3 {
                        break;
                    }
                }
            }
        }
        if let Some(m) = msg {
            self.fail(&[Class::Tiling], || m);
        }
        let p = self.pos;
        self.watch("tail", p);
        self.finish();
    }

    fn finish(&mut self) {
        if self.finished {
            return;
        }
        self.finished = true;
        let s = std::mem::replace(&mut self.s, S::Gone);
        if let Caught::Panic(p) = guarded(1_000_000, move || drop(s)) {
            self.fail(&[Class::Crash], || format!("dropping the session panicked: {p}"));
        }
        let left = live(self.sess);
        if left != 0 && !self.bad {
            self.fail(&[Class::Retention], || format!("{left} tokens are still alive after the session was dropped"));
        }
        // Everything was acknowledged in order, or else the link was cut.
        let n = self.net.borrow();
        let (b, all, gone) = (n.base, n.records.len(), n.abandoned || n.failed);
        drop(n);
        if !self.bad && !gone && b < all {
            self.fail(&[Class::Resync], || format!("the session ended after {b} of {all} records although the link was never cut"));
        }
        event(51, || format!("connection closed, {b} of {all} records acknowledged"));
        quiet_event(mix(b as u64));
    }
}

impl<E: TErr> Sess for NetSess<E> {
    fn step(&mut self) {
        if self.finished {
            return;
        }
        if self.bad {
            self.finish();
            return;
        }
        if self.tail_after.is_some_and(|n| self.results >= n) {
            self.tail();
        } else {
            self.result();
        }
    }
    fn done(&self) -> bool {
        self.finished
    }
}
