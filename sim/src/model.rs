//! The executable reference model: what a grammar must do on given remaining
//! tokens, including errors, locations, recovery and how far it may look.

use crate::choice::mix;
use crate::gram::*;
use crate::norm::*;
use crate::tok::*;
use crate::build::{site, tok_id};
use crate::world::{big, flips, Calls};
use std::collections::BTreeSet;

/// What a fallible mapping function of the simulated grammars decides. It
/// depends on the output without its locations only.
pub enum Decision {
    Ok,
    Err(u32),
    Rec(u32),
}
pub fn decide(policy: u32, v: &Val) -> Decision {
    let h = (mix(v.digest() ^ (policy as u64) << 17) >> 20) % 8;
    let n = 1 + (h % 2) as u32;
    match policy % 4 {
        0 if h < 3 => Decision::Err(n),
        1 if h < 4 => Decision::Rec(n),
        2 if h < 2 => Decision::Err(n),
        2 if h < 5 => Decision::Rec(n),
        _ => Decision::Ok,
    }
}

/// Whether the i-th of n errors of a rejecting function of a try_map() is an
/// expected/found error.
pub fn rejects_like_a_token(policy: u32, i: u32, n: u32) -> bool {
    match policy / 4 % 3 {
        1 => i + 1 == n,
        2 => i == 0 && n > 1,
        _ => false,
    }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Flags {
    pub strategy_ran: bool,
    pub strategy_failed: bool,
    pub delim_ran: bool,
    pub delim_balanced: bool,
    pub delim_mismatch: bool,
    pub delim_eof: bool,
    pub alt_failed: bool,
    pub alt_recovered: bool,
    pub alt_third: bool,
    pub merged: bool,
    pub trymap: bool,
    pub recovered: bool,
    pub deep_fail: bool,
    pub sep3: bool,
    pub rec_depth: u32,
    pub retry: bool,
    /// The callbacks that have to be invoked.
    pub calls: Calls,
    /// The next answer of a predicate after the parse.
    pub turn: u64,
}

pub struct Model<'a> {
    pub gr: &'a Grammar,
    pub toks: &'a [(K, u32)],
    pub locs: &'a [Loc],
    pub void: bool,
    pub cur: usize,
    /// Number of source items (tokens, then the end) that had to be inspected.
    pub demand: usize,
    pub cost: u64,
    pub cap: u64,
    pub overflow: bool,
    depth: u32,
    /// How deep it may go.
    deep: u32,
    pub flags: Flags,
    /// How often predicates have answered.
    pub turn: u64,
}

struct Rs {
    started: usize,
    failed: usize,
    errs: Vec<NErr>,
}

impl<'a> Model<'a> {
    pub fn new(gr: &'a Grammar, toks: &'a [(K, u32)], locs: &'a [Loc], void: bool, cur: usize, demand: usize) -> Self {
        Model {
            gr,
            toks,
            locs,
            void,
            cur,
            demand,
            cost: 0,
            cap: if big() { 60_000 } else { 30_000 },
            overflow: false,
            depth: 0,
            deep: if big() { 2_000 } else { 150 },
            flags: Flags::default(),
            turn: 0,
        }
    }

    fn called(&mut self, site: u64, arg: u64) {
        self.flags.calls.add(site, arg);
    }
    fn pred(&mut self, m: Mask) -> bool {
        match self.look() {
            Some((k, q)) => {
                self.called(site::STEP_PRED ^ m as u64, tok_id(k, q));
                self.answer(m, k)
            }
            None => false,
        }
    }
    fn answer(&mut self, m: Mask, k: K) -> bool {
        self.turn += 1;
        has(m, k) != flips(self.gr.flaky, self.turn - 1)
    }
    fn look(&mut self) -> Option<(K, u32)> {
        self.demand = self.demand.max(self.cur + 1);
        self.toks.get(self.cur).copied()
    }
    pub fn at_eof(&mut self) -> bool {
        self.look().is_none()
    }
    fn advance(&mut self) {
        if self.look().is_some() {
            self.cur += 1;
        }
    }
    fn here(&self) -> Loc {
        self.locs[self.cur]
    }
    fn since(&self, from: usize) -> Span {
        (self.locs[from], self.locs[self.cur])
    }
    fn tok_span(&mut self) -> Span {
        let end = if self.look().is_some() { self.cur + 1 } else { self.cur };
        (self.locs[self.cur], self.locs[end])
    }
    fn e(&self, e: NErr) -> NErr {
        if self.void {
            NErr::Void
        } else {
            e
        }
    }
    fn ef(&mut self, exp: impl IntoIterator<Item = i16>, at_location: bool) -> Res {
        let found = self.look();
        let at = if at_location { NAt::Loc(self.here()) } else { NAt::Span(self.tok_span()) };
        let e = NErr::Expected(
            exp.into_iter().collect(),
            found.map(|t| t.0 as i16).unwrap_or(-1),
            found.map(|t| t.1).unwrap_or(0),
            at,
        );
        Res::Fail(self.cur, vec![self.e(e)])
    }

    pub fn parse_root(&mut self, rec: bool) -> Res {
        let gr = self.gr;
        self.run(&gr.root, rec)
    }

    pub fn run(&mut self, g: &G, rec: bool) -> Res {
        self.cost += 1;
        if self.cost > self.cap || self.depth > self.deep {
            self.overflow = true;
        }
        if self.overflow {
            return Res::Fail(self.cur, vec![NErr::Void]);
        }
        self.depth += 1;
        let r = self.run0(g, rec);
        self.depth -= 1;
        r
    }

    fn map(r: Res, f: impl FnOnce(Val) -> Val) -> Res {
        match r {
            Res::Ok(v) => Res::Ok(f(v)),
            Res::Rec(v, es) => Res::Rec(f(v), es),
            r => r,
        }
    }

    fn run0(&mut self, g: &G, rec: bool) -> Res {
        use G::*;
        match g {
            Empty => Res::Ok(Val::Unit),
            NoneP => Res::Ok(Val::Opt(None)),
            End => {
                if self.at_eof() {
                    Res::Ok(Val::Unit)
                } else {
                    self.ef([-1], true)
                }
            }
            Just(k) => match self.look() {
                Some((f, _)) if f == *k => {
                    self.cur += 1;
                    Res::Ok(Val::Tok(*k, 0))
                }
                _ => self.ef([*k as i16], false),
            },
            Filter(m) => match self.look().inspect(|(f, s)| self.flags.calls.add(site::FILTER ^ *m as u64, tok_id(*f, *s))) {
                Some((f, s)) if self.answer(*m, f) => {
                    self.cur += 1;
                    Res::Ok(Val::Tok(f, s))
                }
                _ => self.ef([], false),
            },
            FilterMap(m, t) => match self.look().inspect(|(f, s)| {
                self.flags.calls.add(site::FILTER_MAP ^ (*t as u64) << 20 ^ *m as u64, tok_id(*f, *s));
            }) {
                Some((f, s)) if self.answer(*m, f) => {
                    self.cur += 1;
                    Res::Ok(Val::Tag(*t, Box::new(Val::Tok(f, s))))
                }
                _ => self.ef([], false),
            },
            Seq(ks, _) => {
                let start = self.cur;
                for k in ks {
                    match self.look() {
                        Some((f, _)) if f == *k => self.cur += 1,
                        _ => {
                            let r = self.ef([*k as i16], false);
                            self.flags.deep_fail |= self.cur - start >= 2;
                            self.cur = start;
                            return r;
                        }
                    }
                }
                Res::Ok(Val::List(ks.iter().map(|k| Val::Tok(*k, 0)).collect()))
            }
            OneOf(ks, _) => match self.look() {
                Some((f, s)) if ks.contains(&f) => {
                    self.cur += 1;
                    Res::Ok(Val::Tok(f, s))
                }
                _ => self.ef(ks.iter().map(|k| *k as i16), false),
            },
            NoneOf(ks, _) => match self.look() {
                Some((f, s)) if !ks.contains(&f) => {
                    self.cur += 1;
                    Res::Ok(Val::Tok(f, s))
                }
                Some(_) => self.ef([], false),
                None => self.ef([], true),
            },
            To(g, t) => Self::map(self.run(g, rec), |_| Val::Const(*t)),
            Ignored(g) => Self::map(self.run(g, rec), |_| Val::Unit),
            SomeP(g) => Self::map(self.run(g, rec), |v| Val::Opt(Some(Box::new(v)))),
            Map(g, t) => {
                let r = self.run(g, rec);
                if let Some(v) = r.val() {
                    self.called(site::MAP ^ *t as u64, v.digest());
                }
                Self::map(r, |v| Val::Tag(*t, Box::new(v)))
            }
            MapSpan(g, t) => {
                let start = self.cur;
                let r = self.run(g, rec);
                let s = self.since(start.min(self.cur));
                if let Some(v) = r.val() {
                    self.called(site::MAP_SPAN ^ *t as u64, v.digest());
                }
                Self::map(r, |v| Val::Spanned(Some(s), *t, Box::new(v)))
            }
            MapErr(g, t) => match self.run(g, rec) {
                r if {
                    for _ in r.errs() {
                        self.called(site::MAP_ERR ^ *t as u64, 0);
                    }
                    false
                } =>
                {
                    r
                }
                Res::Ok(v) => Res::Ok(v),
                Res::Rec(v, es) => Res::Rec(v, es.into_iter().map(|e| tag_err(e, *t)).collect()),
                Res::Fail(i, es) => Res::Fail(i, es.into_iter().map(|e| tag_err(e, *t)).collect()),
            },
            MapErrSpan(g, t) => {
                let start = self.cur;
                let r = self.run(g, rec);
                let s = self.since(start.min(self.cur));
                for _ in r.errs() {
                    self.called(site::MAP_ERR_SPAN ^ *t as u64, 0);
                }
                let f = |n: usize| -> Vec<NErr> {
                    (0..n).map(|_| self.e(NErr::Custom(format!("mes{t}"), NAt::Span(s)))).collect()
                };
                match r {
                    Res::Ok(v) => Res::Ok(v),
                    Res::Rec(v, es) => Res::Rec(v, f(es.len())),
                    Res::Fail(i, es) => Res::Fail(i, f(es.len())),
                }
            }
            TryMap(g, p) => {
                let start = self.cur;
                let (v, mut es) = match self.run(g, rec) {
                    Res::Ok(v) => (v, vec![]),
                    Res::Rec(v, es) => (v, es),
                    r => return r,
                };
                let s = self.since(start);
                self.called(site::TRY_MAP ^ *p as u64, v.digest());
                let mk = |n: u32| -> Vec<NErr> {
                    (0..n)
                        .map(|i| {
                            self.e(if rejects_like_a_token(*p, i, n) {
                                let mut exp = BTreeSet::from([*p as i16 % 16]);
                                if p % 5 == 0 {
                                    exp.insert(-1);
                                }
                                NErr::Expected(exp, *p as i16 % 7, 0, NAt::Span(s))
                            } else {
                                NErr::Custom(format!("try{p}.{i}"), NAt::Span(s))
                            })
                        })
                        .collect()
                };
                let d = decide(*p, &v);
                let out = Val::Spanned(Some(s), *p, Box::new(v));
                match d {
                    Decision::Ok => {
                        if es.is_empty() {
                            Res::Ok(out)
                        } else {
                            Res::Rec(out, es)
                        }
                    }
                    Decision::Rec(n) if rec => {
                        es.extend(mk(n));
                        self.flags.trymap = true;
                        Res::Rec(out, es)
                    }
                    Decision::Err(n) | Decision::Rec(n) => {
                        es.extend(mk(n));
                        self.flags.trymap = true;
                        self.cur = start;
                        Res::Fail(start, es)
                    }
                }
            }
            Then(a, b) => self.seq(&[a, b], rec, |mut v| Val::List(std::mem::take(&mut v))),
            ThenIgnore(a, b) => self.seq(&[a, b], rec, |v| v.into_iter().next().unwrap()),
            IgnoreThen(a, b) => self.seq(&[a, b], rec, |v| v.into_iter().nth(1).unwrap()),
            Delimited(l, m, r) => self.seq(&[l, m, r], rec, |v| v.into_iter().nth(1).unwrap()),
            Padded(p, m) => self.seq(&[p, m, p], rec, |v| v.into_iter().nth(1).unwrap()),
            Chain(gs) => self.seq(&gs.iter().collect::<Vec<_>>(), rec, Val::List),
            Or(a, b) => self.alt(&[a, b], rec),
            Alters(gs) => self.alt(&gs.iter().collect::<Vec<_>>(), rec),
            OrNot(g) => match self.run(g, false) {
                Res::Ok(v) => Res::Ok(Val::Opt(Some(Box::new(v)))),
                _ => Res::Ok(Val::Opt(None)),
            },
            Rep { item, sep, min, max, lead, trail, .. } => {
                self.rep(item, sep.as_deref(), *min, *max, *lead, *trail, rec)
            }
            Recover(g, s, f) => self.recover(g, s, f, rec),
            Ref(i) => {
                self.flags.rec_depth += 1;
                let gr = self.gr;
                self.run(&gr.defs[*i], rec)
            }
            Probe(g) | Cloned(g) => self.run(g, rec),
            Peek(g, false, _) => {
                let start = self.cur;
                let r = self.run(g, rec);
                self.cur = start;
                r
            }
            Peek(g, true, t) => {
                let start = self.cur;
                let r = self.run(g, false);
                self.cur = start;
                match r {
                    Res::Fail(..) => Res::Ok(Val::Unit),
                    _ => Res::Fail(start, vec![self.e(NErr::Custom(format!("not{t}"), NAt::None))]),
                }
            }
        }
    }

    fn seq(&mut self, gs: &[&G], rec: bool, f: impl FnOnce(Vec<Val>) -> Val) -> Res {
        let start = self.cur;
        let mut out = vec![];
        let mut errs: Option<Vec<NErr>> = None;
        for g in gs {
            match self.run(g, rec) {
                Res::Ok(v) => out.push(v),
                Res::Rec(v, es) => {
                    errs.get_or_insert_with(Vec::new).extend(es);
                    out.push(v);
                }
                Res::Fail(i, es) => {
                    self.flags.deep_fail |= self.cur >= start + 2;
                    self.cur = start;
                    return Res::Fail(i, es);
                }
            }
        }
        match errs {
            None => Res::Ok(f(out)),
            Some(es) => Res::Rec(f(out), es),
        }
    }

    fn alt(&mut self, gs: &[&G], rec: bool) -> Res {
        let mut fails = vec![];
        for (n, g) in gs.iter().enumerate() {
            match self.run(g, false) {
                Res::Ok(v) => {
                    self.flags.alt_third |= n >= 2;
                    return Res::Ok(v);
                }
                Res::Rec(..) => {
                    // Never happens; see `exact never recovers` in seq/rep/recover.
                    self.overflow = true;
                    return Res::Fail(0, vec![]);
                }
                Res::Fail(i, es) => fails.push((i, es, n)),
            }
            if self.overflow {
                return Res::Fail(self.cur, vec![NErr::Void]);
            }
        }
        self.flags.alt_failed = true;
        fails.sort_by(|a, b| b.0.cmp(&a.0).then(a.2.cmp(&b.2)));
        if rec {
            for (_, _, n) in &fails {
                match self.run(gs[*n], true) {
                    Res::Rec(v, es) => {
                        self.flags.alt_recovered = true;
                        return Res::Rec(v, es);
                    }
                    // Only if the answers of predicates have changed.
                    Res::Ok(v) if self.gr.flaky > 0 => return Res::Ok(v),
                    Res::Ok(_) => {
                        self.overflow = true;
                        return Res::Fail(0, vec![]);
                    }
                    Res::Fail(..) => (),
                }
                if self.overflow {
                    return Res::Fail(self.cur, vec![NErr::Void]);
                }
            }
        }
        let mut it = fails.into_iter();
        let (idx, mut es, _) = it.next().unwrap();
        if es.len() == 1 && es[0].is_ef() {
            let at = es[0].at();
            for (_, es2, _) in it {
                for e2 in es2 {
                    if let NErr::Expected(exp2, _, _, at2) = &e2 {
                        if *at2 == at {
                            if let NErr::Expected(exp, ..) = &mut es[0] {
                                self.flags.merged |= !exp2.is_subset(exp);
                                exp.extend(exp2.iter().copied());
                            }
                        }
                    }
                }
            }
        }
        Res::Fail(idx, es)
    }

    #[allow(clippy::too_many_arguments)]
    fn rep(&mut self, item: &G, sep: Option<&G>, min: usize, max: Option<usize>, lead: bool, trail: bool, rec: bool) -> Res {
        let start = self.cur;
        let max = max.unwrap_or(usize::MAX);
        let mut out: Vec<Val> = vec![];
        let mut errs: Option<Vec<NErr>> = None;
        // An optional leading separator, which stays consumed.
        if let (Some(s), true) = (sep, lead) {
            if max > 0 {
                if let Res::Rec(..) = self.run(s, false) {
                    self.overflow = true;
                }
            }
        }
        while out.len() < max {
            if self.overflow {
                break;
            }
            let r = rec && out.len() < min;
            // Separator between items.
            let before = self.cur;
            if let (Some(s), false) = (sep, out.is_empty()) {
                match self.run(s, r) {
                    Res::Ok(_) => (),
                    Res::Rec(_, es) => errs.get_or_insert_with(Vec::new).extend(es),
                    Res::Fail(i, es) => {
                        if out.len() >= min {
                            break;
                        }
                        self.cur = start;
                        return Res::Fail(i, es);
                    }
                }
            }
            let after = self.cur;
            match self.run(item, r) {
                Res::Ok(v) => out.push(v),
                Res::Rec(v, es) => {
                    errs.get_or_insert_with(Vec::new).extend(es);
                    out.push(v);
                }
                Res::Fail(i, es) => {
                    if out.len() >= min {
                        // A separator without an item after it belongs to the
                        // list only if trailing ones are allowed (or if it is
                        // the leading one).
                        self.cur = if trail || out.is_empty() { after } else { before };
                        let _ = (i, es);
                        return self.rep_done(out, errs, sep);
                    }
                    self.cur = start;
                    return Res::Fail(i, es);
                }
            }
        }
        if out.len() >= max && !out.is_empty() && trail {
            // The list is full; one more separator may follow.
            if let Some(s) = sep {
                if let Res::Rec(..) = self.run(s, rec && out.len() < min) {
                    self.overflow = true;
                }
            }
        }
        self.rep_done(out, errs, sep)
    }

    fn rep_done(&mut self, out: Vec<Val>, errs: Option<Vec<NErr>>, sep: Option<&G>) -> Res {
        self.flags.sep3 |= sep.is_some() && out.len() >= 3;
        match errs {
            None => Res::Ok(Val::List(out)),
            Some(es) => Res::Rec(Val::List(out), es),
        }
    }

    fn recover(&mut self, g: &G, steps: &[Step], fin: &Fin, rec: bool) -> Res {
        let start = self.cur;
        match self.run(g, rec) {
            Res::Fail(i, es) if rec => {
                self.flags.strategy_ran = true;
                let mut rs = Rs { started: start, failed: i, errs: es };
                let mut out = self.steps(g, steps, &mut rs);
                if out.is_none() {
                    let s = self.since(start.min(self.cur));
                    match fin {
                        Fin::ReturnWith(t) => self.called(site::RETURN_WITH ^ *t as u64, 0),
                        Fin::ReturnSpan(t) => self.called(site::RETURN_SPAN ^ *t as u64, 0),
                        _ => (),
                    }
                    out = match fin {
                        Fin::Return(t) | Fin::ReturnWith(t) => Some(Val::Const(*t)),
                        Fin::ReturnSpan(t) => Some(Val::Spanned(Some(s), *t, Box::new(Val::Unit))),
                        Fin::OrFail => None,
                    };
                }
                match out {
                    Some(v) => {
                        self.flags.recovered = true;
                        Res::Rec(v, rs.errs)
                    }
                    None => {
                        self.flags.strategy_failed = true;
                        self.cur = start;
                        Res::Fail(i, rs.errs)
                    }
                }
            }
            r => r,
        }
    }

    fn steps(&mut self, g: &G, steps: &[Step], rs: &mut Rs) -> Option<Val> {
        for s in steps {
            self.cost += 1;
            if self.cost > self.cap {
                self.overflow = true;
            }
            if self.overflow {
                return None;
            }
            if let Some(v) = self.step(g, s, rs) {
                return Some(v);
            }
        }
        None
    }

    fn push(&self, rs: &mut Rs, what: &str, t: u32, at: NAt) {
        rs.errs.push(self.e(NErr::Custom(format!("{what}{t}"), at)));
    }

    fn step(&mut self, g: &G, s: &Step, rs: &mut Rs) -> Option<Val> {
        match s {
            Step::Nothing | Step::Boxed => (),
            Step::Restart => self.cur = rs.started,
            Step::SeekFailed => self.cur = rs.failed,
            Step::Mark(n) => {
                let to = self.cur + n;
                if *n > 0 {
                    self.demand = self.demand.max(to.min(self.toks.len() + 1));
                }
                rs.failed = to.min(self.toks.len());
            }
            Step::Skip => self.advance(),
            Step::SkipIf(m) => {
                if self.pred(*m) {
                    self.cur += 1;
                }
            }
            Step::Find(m) => {
                while self.look().is_some() && !self.pred(*m) {
                    self.cur += 1;
                    self.cost += 1;
                }
            }
            Step::ScanDelim(i) => self.scan_delim(*i, rs),
            Step::ScanCustom(n, report, stop) => {
                let mut seen = 0;
                self.called(site::MAKE_SCAN ^ *n as u64, 0);
                loop {
                    self.cost += 1;
                    match self.look() {
                        None => {
                            self.called(site::SCANNED_EOF, 0);
                            self.called(site::SCAN_EOF, 0);
                            let at = NAt::Loc(self.here());
                            self.push(rs, "scaneof", seen, at);
                            break;
                        }
                        Some((k, q)) => {
                            self.called(site::SCANNED, tok_id(k, q));
                            self.called(site::SCAN, tok_id(k, q));
                            seen += 1;
                            if has(*report, k) {
                                let at = NAt::Span(self.tok_span());
                                self.push(rs, "scan", seen, at);
                            }
                            if seen >= *n || has(*stop, k) {
                                break;
                            }
                            self.cur += 1;
                        }
                    }
                }
            }
            Step::Maybe(inner) => {
                let here = self.cur;
                if let Some(v) = self.steps(g, inner, rs) {
                    return Some(v);
                }
                self.cur = here;
            }
            Step::WhileNot(m, inner) => {
                while self.look().is_some() && !self.pred(*m) {
                    self.cost += 1;
                    if self.cost > self.cap {
                        self.overflow = true;
                    }
                    if self.overflow {
                        return None;
                    }
                    if let Some(v) = self.steps(g, inner, rs) {
                        return Some(v);
                    }
                    self.advance();
                }
            }
            Step::Retry { exact, silent } => {
                self.flags.retry = true;
                return self.again(g, *exact, *silent, rs);
            }
            Step::Try { g, exact, silent } => {
                self.flags.retry = true;
                return self.again(g, *exact, *silent, rs);
            }
            Step::Push(_) | Step::PushHere(_) | Step::PushUpTo(_) | Step::PushTok(_) | Step::Upd(_) | Step::UpdHere(_)
            | Step::UpdUpTo(_) | Step::UpdTok(_) => self.edit_step(s, rs),
        }
        None
    }

    fn edit_step(&mut self, s: &Step, rs: &mut Rs) {
        let n = rs.errs.len() as u64;
        let tok = |t: Option<(K, u32)>| t.map(|t| tok_id(t.0, t.1)).unwrap_or(tok_id(-1i16 as K, 0));
        match s {
            Step::Push(t) => self.called(site::PUSH ^ *t as u64, 0),
            Step::PushHere(t) => self.called(site::PUSH_HERE ^ *t as u64, 0),
            Step::PushUpTo(t) => self.called(site::PUSH_UP_TO ^ *t as u64, 0),
            Step::PushTok(t) => {
                let k = tok(self.look());
                self.called(site::PUSH_TOK ^ *t as u64, k)
            }
            Step::Upd(t) => self.called(site::UPD ^ *t as u64, n),
            Step::UpdHere(t) => self.called(site::UPD_HERE ^ *t as u64, n),
            Step::UpdUpTo(t) => self.called(site::UPD_UP_TO ^ *t as u64, n),
            Step::UpdTok(t) => {
                let k = tok(self.look());
                self.called(site::UPD_TOK ^ *t as u64, k ^ n << 50)
            }
            _ => (),
        }
        match s {
            Step::Push(t) => self.push(rs, "push", *t, NAt::None),
            Step::PushHere(t) => self.push(rs, "here", *t, NAt::Loc(self.here())),
            Step::PushUpTo(t) => self.push(rs, "upto", *t, NAt::Span(self.since(rs.started))),
            Step::PushTok(t) => {
                let s = self.tok_span();
                let (k, q) = self.look().map(|t| (t.0 as i16, t.1)).unwrap_or((-1, 0));
                rs.errs.push(self.e(NErr::Custom(format!("tok{t}:{k}.{q}"), NAt::Span(s))));
            }
            Step::Upd(t) => self.update(rs, *t, "upd", NAt::None),
            Step::UpdHere(t) => self.update(rs, *t, "updhere", NAt::Loc(self.here())),
            Step::UpdUpTo(t) => self.update(rs, *t, "updupto", NAt::Span(self.since(rs.started))),
            Step::UpdTok(t) => {
                let s = self.tok_span();
                let (k, q) = self.look().map(|t| (t.0 as i16, t.1)).unwrap_or((-1, 0));
                let msg = format!("updtok{k}.{q}:");
                self.update(rs, *t, &msg, NAt::Span(s));
            }
            _ => (),
        }
    }

    /// Replaces, prepends or rotates, but never empties the list.
    fn update(&self, rs: &mut Rs, t: u32, what: &str, at: NAt) {
        let e = self.e(NErr::Custom(format!("{what}{t}.{}", rs.errs.len()), at));
        edit(&mut rs.errs, t, e);
    }

    fn again(&mut self, g: &G, exact: bool, silent: bool, rs: &mut Rs) -> Option<Val> {
        match self.run(g, !exact) {
            Res::Ok(v) => Some(v),
            Res::Rec(v, es) => {
                if !silent {
                    rs.errs.extend(es);
                }
                Some(v)
            }
            Res::Fail(i, es) => {
                if !silent {
                    rs.errs.extend(es);
                }
                rs.failed = i;
                None
            }
        }
    }

    /// Written from the documentation rather than from the code: positions of
    /// open delimiters, innermost last.
    fn scan_delim(&mut self, set: usize, rs: &mut Rs) {
        self.flags.delim_ran = true;
        let types: Vec<(K, K)> = DELIMS[set].iter().map(|(l, r)| (l.k, r.k)).collect();
        let mut open: Vec<(usize, usize)> = vec![];
        let before = rs.errs.len();
        self.called(site::MAKE_DELIM ^ set as u64, 0);
        loop {
            self.cost += 1;
            match self.look() {
                Some((k, q)) => self.called(site::SCANNED, tok_id(k, q)),
                None => self.called(site::SCANNED_EOF, 0),
            }
            let Some((k, seq)) = self.look() else {
                for (_, p) in open.drain(..).rev() {
                    let (lk, ls) = self.toks[p];
                    let sp = NAt::Span((self.locs[p], self.locs[p + 1]));
                    let e = NErr::UnmatchedLeft(lk, ls, sp, NAt::Loc(self.here()));
                    rs.errs.push(self.e(e));
                    self.flags.delim_eof = true;
                }
                return;
            };
            let here = NAt::Span((self.locs[self.cur], self.locs[self.cur + 1]));
            let closes_top = open.last().is_some_and(|(t, _)| types[*t].1 == k);
            if closes_top {
                open.pop();
            } else if let Some(t) = types.iter().position(|(l, _)| *l == k) {
                open.push((t, self.cur));
            } else if types.iter().any(|(_, r)| *r == k) {
                self.flags.delim_mismatch = true;
                match open.iter().rposition(|(o, _)| types[*o].1 == k) {
                    Some(at) => {
                        for (_, p) in open.drain(at..).skip(1).rev() {
                            let (lk, ls) = self.toks[p];
                            let sp = NAt::Span((self.locs[p], self.locs[p + 1]));
                            rs.errs.push(self.e(NErr::UnmatchedLeft(lk, ls, sp, here)));
                        }
                    }
                    None => match open.pop() {
                        Some((_, p)) => {
                            let (lk, ls) = self.toks[p];
                            let sp = NAt::Span((self.locs[p], self.locs[p + 1]));
                            rs.errs.push(self.e(NErr::UnmatchedType(lk, ls, sp, k, seq, here)));
                        }
                        None => rs.errs.push(self.e(NErr::UnmatchedRight(k, seq, here, NAt::None))),
                    },
                }
            }
            if open.is_empty() {
                self.flags.delim_balanced |= rs.errs.len() == before;
                return;
            }
            self.cur += 1;
        }
    }
}

/// The error-list edits of the simulated grammars.
pub fn edit<E: Clone>(es: &mut Vec<E>, t: u32, e: E) {
    match t % 4 {
        0 => es.push(e),
        1 => es.insert(0, e),
        2 => {
            es.clear();
            es.push(e);
        }
        _ => {
            es.rotate_left(1);
            es.push(e);
        }
    }
}
