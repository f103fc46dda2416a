//! Random grammars over the library's combinators: abstract syntax, generation
//! (swarm style: every run has its own alphabet, sizes and mix) and sampling
//! of sentences.

use crate::choice::Chooser;
use crate::tok::*;
use crate::world::big;

pub type Mask = u16;

#[derive(Clone, Debug, PartialEq)]
pub enum G {
    Empty,
    NoneP,
    End,
    Just(K),
    Filter(Mask),
    FilterMap(Mask, u32),
    Seq(Vec<K>, u8),
    OneOf(Vec<K>, u8),
    NoneOf(Vec<K>, u8),
    To(Box<G>, u32),
    Ignored(Box<G>),
    SomeP(Box<G>),
    Map(Box<G>, u32),
    MapSpan(Box<G>, u32),
    MapErr(Box<G>, u32),
    MapErrSpan(Box<G>, u32),
    TryMap(Box<G>, u32),
    Then(Box<G>, Box<G>),
    ThenIgnore(Box<G>, Box<G>),
    IgnoreThen(Box<G>, Box<G>),
    Delimited(Box<G>, Box<G>, Box<G>),
    Padded(Box<G>, Box<G>),
    Chain(Vec<G>),
    Or(Box<G>, Box<G>),
    OrNot(Box<G>),
    Alters(Vec<G>),
    Rep { item: Box<G>, sep: Option<Box<G>>, min: usize, max: Option<usize>, lead: bool, trail: bool, form: u8 },
    Recover(Box<G>, Vec<Step>, Fin),
    Ref(usize),
    /// Monitored, otherwise transparent.
    Probe(Box<G>),
    /// A parser written by the user: looks ahead, for something that has to be
    /// there or (true) must not be there.
    Peek(Box<G>, bool, u32),
    /// Same parser, cloned and boxed.
    Cloned(Box<G>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Nothing,
    Restart,
    SeekFailed,
    Skip,
    SkipIf(Mask),
    Find(Mask),
    ScanDelim(usize),
    /// stop after n tokens or at a token of the second mask; reports the
    /// tokens of the first mask
    ScanCustom(u32, Mask, Mask),
    Maybe(Vec<Step>),
    WhileNot(Mask, Vec<Step>),
    Retry { exact: bool, silent: bool },
    Try { g: Box<G>, exact: bool, silent: bool },
    Push(u32),
    PushHere(u32),
    PushUpTo(u32),
    PushTok(u32),
    Upd(u32),
    UpdHere(u32),
    UpdUpTo(u32),
    UpdTok(u32),
    Boxed,
    /// Written by the user: takes a position this far ahead for the failed one.
    Mark(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fin {
    Return(u32),
    ReturnWith(u32),
    ReturnSpan(u32),
    OrFail,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Grammar {
    pub defs: Vec<G>,
    pub root: G,
    /// Left, right and innermost token of a grammar that nests.
    pub deep: Option<(K, K, K)>,
    /// Wants a lot of garbage.
    pub flood: bool,
    /// How predicates change their minds; see flips(). 0: never.
    pub flaky: u64,
}

/// Sets of delimiter types that strategies use.
pub static DELIMS: [&[(Tok, Tok)]; 8] = [
    &[(Tok::of(LP), Tok::of(RP))],
    &[(Tok::of(LP), Tok::of(RP)), (Tok::of(LB), Tok::of(RB))],
    &[(Tok::of(LP), Tok::of(RP)), (Tok::of(LB), Tok::of(RB)), (Tok::of(BAR), Tok::of(BAR))],
    &[(Tok::of(BAR), Tok::of(BAR)), (Tok::of(LP), Tok::of(RP))],
    &[(Tok::of(LB), Tok::of(RB)), (Tok::of(LP), Tok::of(RP)), (Tok::of(0), Tok::of(1))],
    &[(Tok::of(BAR), Tok::of(BAR))],
    // Types that end in the same way, like `begin .. end` and `if .. end`.
    &[(Tok::of(LP), Tok::of(RP)), (Tok::of(LB), Tok::of(RP))],
    &[(Tok::of(0), Tok::of(1)), (Tok::of(LP), Tok::of(RP)), (Tok::of(LB), Tok::of(1))],
];

pub fn has(m: Mask, k: K) -> bool {
    m >> k & 1 == 1
}

// -------------------------------------------------------------- generation

#[derive(Clone, Debug)]
pub struct Cfg {
    pub alphabet: Vec<K>,
    pub nodes: usize,
    pub depth: usize,
    pub defs: usize,
    /// weights
    pub leaf: u32,
    pub seq: u32,
    pub alt: u32,
    pub rep: u32,
    pub map: u32,
    pub rec: u32,
    pub reff: u32,
    /// out of 8: recovery steps are delimiter scans
    pub delim: usize,
    /// out of 16: a node is probed
    pub probe: usize,
}

pub struct Gen<'a> {
    pub c: &'a mut Chooser,
    pub cfg: &'a Cfg,
    pub left: usize,
    pub tag: u32,
}

fn strat_nullable(s: &[Step]) -> bool {
    s.iter().any(|s| match s {
        Step::Try { g, .. } => nullable(g),
        Step::Maybe(s) | Step::WhileNot(_, s) => strat_nullable(s),
        _ => false,
    })
}

/// Bounds of repetitions beyond this are never reached.
pub const ENDLESS: usize = 1 << 40;

/// Whether g may yield an output without consuming anything.
pub fn nullable(g: &G) -> bool {
    use G::*;
    match g {
        Empty | NoneP | End | Peek(..) => true,
        Just(_) | Filter(_) | FilterMap(..) | OneOf(..) | NoneOf(..) => false,
        Seq(ks, _) => ks.is_empty(),
        To(g, _) | Ignored(g) | SomeP(g) | Map(g, _) | MapSpan(g, _) | MapErr(g, _) | MapErrSpan(g, _)
        | TryMap(g, _) | Probe(g) | Cloned(g) => nullable(g),
        Then(a, b) | ThenIgnore(a, b) | IgnoreThen(a, b) => nullable(a) && nullable(b),
        Delimited(l, m, r) => nullable(l) && nullable(m) && nullable(r),
        Padded(p, m) => nullable(p) && nullable(m),
        Chain(gs) => gs.iter().all(nullable),
        Or(a, b) => nullable(a) || nullable(b),
        Alters(gs) => gs.iter().any(nullable),
        OrNot(_) => true,
        // A leading separator does not count: it is optional.
        Rep { item, min, .. } => *min == 0 || nullable(item),
        Recover(g, s, f) => nullable(g) || *f != Fin::OrFail || strat_nullable(s),
        // All definitions are made not nullable.
        Ref(_) => false,
    }
}

impl Gen<'_> {
    pub fn k(&mut self) -> K {
        *self.c.pick(&self.cfg.alphabet)
    }
    fn tag(&mut self) -> u32 {
        self.tag += 1;
        self.tag
    }
    /// At least one kind.
    fn ks(&mut self, max: usize) -> Vec<K> {
        let max = if big() && self.c.chance(1, 2) { max * 12 } else { max };
        let n = self.c.range(1, max);
        (0..n).map(|_| self.k()).collect()
    }
    fn mask(&mut self) -> Mask {
        let n = self.c.range(1, 2);
        (0..n).fold(0, |m, _| m | 1 << self.k())
    }

    pub fn grammar(&mut self) -> Grammar {
        let n = self.cfg.defs;
        let mut defs = vec![];
        for _ in 0..n {
            self.left = self.cfg.nodes;
            let g = self.g(self.cfg.depth, false);
            defs.push(self.non_null(g));
        }
        self.left = self.cfg.nodes;
        let root = self.g(self.cfg.depth, true);
        Grammar { defs, root, deep: None, flood: false, flaky: 0 }
    }

    fn non_null(&mut self, g: G) -> G {
        if nullable(&g) {
            let k = self.k();
            match self.c.below(3) {
                0 => G::Then(Box::new(g), Box::new(G::Just(k))),
                1 => G::IgnoreThen(Box::new(G::Just(k)), Box::new(g)),
                _ => G::Delimited(Box::new(G::Just(k)), Box::new(g), Box::new(G::Empty)),
            }
        } else {
            g
        }
    }

    fn leaf(&mut self) -> G {
        match self.c.weighted(&[10, 3, 2, 4, 3, 2, 1, 1, 1]) {
            0 => G::Just(self.k()),
            1 => G::Filter(self.mask()),
            2 => {
                let t = self.tag();
                G::FilterMap(self.mask(), t)
            }
            3 => {
                let form = self.c.below(6) as u8;
                let ks = if form == 5 { vec![self.k()] } else { self.ks(3) };
                G::Seq(ks, form)
            }
            4 => {
                let form = self.c.below(6) as u8;
                let ks = if form == 5 {
                    vec![self.k()]
                } else {
                    let max = if self.c.chance(1, 8) { 9 } else { 3 };
                    self.ks(max)
                };
                G::OneOf(ks, form)
            }
            5 => {
                let form = self.c.below(6) as u8;
                let ks = if form == 5 { vec![self.k()] } else { self.ks(2) };
                G::NoneOf(ks, form)
            }
            6 => G::Empty,
            7 => G::End,
            _ => G::NoneP,
        }
    }

    /// `consumed`: a token is certain to have been consumed since the
    /// enclosing definition was entered, so that it may be referred to.
    pub fn g(&mut self, depth: usize, consumed: bool) -> G {
        let g = self.g0(depth, consumed);
        if self.cfg.probe > 0 && self.c.chance(self.cfg.probe, 16) {
            G::Probe(Box::new(g))
        } else if self.c.chance(1, 24) {
            G::Cloned(Box::new(g))
        } else if self.c.chance(1, 50) {
            let t = self.tag();
            G::Peek(Box::new(g), self.c.chance(1, 3), t)
        } else {
            g
        }
    }

    fn g0(&mut self, depth: usize, consumed: bool) -> G {
        if depth == 0 || self.left == 0 {
            return self.leaf();
        }
        self.left -= 1;
        let d = depth - 1;
        let reff = if consumed && self.cfg.defs > 0 { self.cfg.reff } else { 0 };
        let w = [self.cfg.leaf, self.cfg.seq, self.cfg.alt, self.cfg.rep, self.cfg.map, self.cfg.rec, reff];
        match self.c.weighted(&w) {
            0 => self.leaf(),
            1 => {
                let which = self.c.below(6);
                let a = self.g(d, consumed);
                let c2 = consumed || !nullable(&a);
                let b = self.g(d, c2);
                let (a, b) = (Box::new(a), Box::new(b));
                match which {
                    0 => G::Then(a, b),
                    1 => G::ThenIgnore(a, b),
                    2 => G::IgnoreThen(a, b),
                    3 => {
                        let c3 = c2 || !nullable(&b);
                        G::Delimited(a, b, Box::new(self.g(d, c3)))
                    }
                    4 => G::Padded(a, b),
                    _ => {
                        let mut c3 = c2 || !nullable(&b);
                        let mut gs = vec![*a, *b];
                        let more = if big() && self.c.chance(1, 2) { 24 } else { 3 };
                        for _ in 0..self.c.below(more) {
                            let g = self.g(d, c3);
                            c3 |= !nullable(&g);
                            gs.push(g);
                        }
                        G::Chain(gs)
                    }
                }
            }
            2 => match self.c.below(4) {
                0 | 1 => {
                    let mut gs: Vec<G> = vec![];
                    if self.c.chance(1, 24) {
                        return G::Alters(self.many());
                    }
                    for _ in 0..self.c.range(2, 4) {
                        let g = self.alternative(d, consumed, &gs);
                        gs.push(g);
                    }
                    G::Alters(gs)
                }
                2 => {
                    let a = self.g(d, consumed);
                    let b = self.alternative(d, consumed, std::slice::from_ref(&a));
                    G::Or(Box::new(a), Box::new(b))
                }
                _ => G::OrNot(Box::new(self.g(d, consumed))),
            },
            3 => self.rep(d, consumed),
            4 => {
                let g = Box::new(self.g(d, consumed));
                let t = self.tag();
                match self.c.weighted(&[1, 1, 1, 2, 5, 2, 3, 6]) {
                    0 => G::To(g, t),
                    1 => G::Ignored(g),
                    2 => G::SomeP(g),
                    3 => G::Map(g, t),
                    4 => G::MapSpan(g, t),
                    5 => G::MapErr(g, t),
                    6 => G::MapErrSpan(g, t),
                    _ => {
                        let p = self.c.below(64) as u32;
                        G::TryMap(g, p)
                    }
                }
            }
            5 => {
                let g = self.g(d, consumed);
                let n = self.c.weighted(&[1, 4, 5, 3, 2]);
                let s = self.steps(n, d, consumed, false);
                let t = self.tag();
                let f = match self.c.below(4) {
                    0 => Fin::OrFail,
                    1 => Fin::Return(t),
                    2 => Fin::ReturnSpan(t),
                    _ => Fin::ReturnWith(t),
                };
                G::Recover(Box::new(g), s, f)
            }
            _ => G::Ref(self.c.below(self.cfg.defs)),
        }
    }

    /// Often a variation of an earlier alternative, so that several of them
    /// fail at the same token or late in the input.
    fn alternative(&mut self, d: usize, consumed: bool, before: &[G]) -> G {
        if !before.is_empty() && self.c.chance(1, 3) {
            let mut a = before[self.c.below(before.len())].clone();
            let which = self.c.below(3);
            if which == 2 {
                if let G::Then(x, _) = a {
                    a = *x;
                }
            }
            let b = Box::new(self.g(d.saturating_sub(1), consumed || !nullable(&a)));
            let a = Box::new(a);
            let t = self.tag();
            match which {
                0 => G::Map(Box::new(G::Then(a, b)), t),
                1 => G::ThenIgnore(a, b),
                _ => G::Then(a, b),
            }
        } else {
            self.g(d, consumed)
        }
    }

    /// A lot of small alternatives, many of which fail at the same place.
    pub fn many(&mut self) -> Vec<G> {
        let n = self.c.range(18, if big() { 150 } else { 45 });
        let front = if self.c.chance(1, 2) { Some(self.k()) } else { None };
        // In half of them next to nothing matches.
        let never = if self.c.chance(1, 2) { Some(self.k()) } else { None };
        (0..n)
            .map(|i| {
                let x = if let Some(k) = never {
                    let x = Box::new(G::Just(k));
                    let i = i as u32;
                    match self.c.below(8) {
                        0 => G::Just(k),
                        1 => self.leaf(),
                        2 | 3 => G::MapErrSpan(x, i),
                        _ => G::MapErr(x, i),
                    }
                } else if self.c.chance(2, 3) {
                    G::TryMap(Box::new(G::Filter(0xffff)), self.c.below(64) as u32)
                } else {
                    self.leaf()
                };
                let x = match self.c.below(6) {
                    0 => G::MapErr(Box::new(x), i as u32),
                    1 => G::MapErrSpan(Box::new(x), i as u32),
                    2 => G::Recover(Box::new(x), vec![Step::Skip], Fin::Return(i as u32)),
                    _ => x,
                };
                match front {
                    Some(k) if self.c.chance(3, 4) => G::Then(Box::new(G::Just(k)), Box::new(x)),
                    _ => x,
                }
            })
            .collect()
    }

    fn rep(&mut self, d: usize, consumed: bool) -> G {
        let item = self.g(d, consumed);
        let sep = match self.c.below(3) {
            0 => None,
            1 => Some(Box::new(G::Just(self.k()))),
            _ => Some(Box::new(self.g(d, consumed || !nullable(&item)))),
        };
        let (min, more) = if big() && self.c.chance(1, 2) {
            (self.c.below(20), 30)
        } else {
            (self.c.weighted(&[6, 4, 3, 1]), 3)
        };
        let max = if self.c.chance(2, 5) { Some(min + self.c.below(more)) } else { None };
        let lead = sep.is_some() && self.c.chance(1, 3);
        let trail = sep.is_some() && self.c.chance(1, 3);
        let max = if max == Some(0) { if lead { None } else { max } } else { max };
        // Bounds that no input reaches, to the limit of their type.
        let (min, max) = match self.c.below(40) {
            0 => (usize::MAX - self.c.below(2) * (usize::MAX / 2), None),
            1 => (min, Some(usize::MAX - self.c.below(2))),
            _ => (min, max),
        };
        let endless = max.is_none() || max.unwrap() > ENDLESS;
        let unbounded_ok = !nullable(&item) || sep.as_ref().is_some_and(|s| !nullable(s));
        let item = if endless && !unbounded_ok { self.non_null(item) } else { item };
        // References inside the separator were admitted because of the item;
        // with a leading separator nothing has been consumed before it.
        let lead = lead && (consumed || !sep.as_ref().is_some_and(|s| has_ref(s)));
        let form = self.c.below(6) as u8;
        G::Rep { item: Box::new(item), sep, min, max, lead, trail, form }
    }

    pub fn steps(&mut self, n: usize, d: usize, consumed: bool, in_loop: bool) -> Vec<Step> {
        let mut out = vec![];
        for _ in 0..n {
            let s = self.step(d, consumed, in_loop);
            let runs = matches!(s, Step::Retry { .. } | Step::Try { .. });
            out.push(s);
            // Often go to where it failed.
            if runs && !in_loop && self.c.chance(1, 4) {
                out.push(Step::SeekFailed);
            }
        }
        out
    }

    fn step(&mut self, d: usize, consumed: bool, in_loop: bool) -> Step {
        if self.cfg.delim > 0 && self.c.chance(self.cfg.delim, 8) {
            return Step::ScanDelim(self.c.below(DELIMS.len()));
        }
        let back = if in_loop { 0 } else { 2 };
        let nest = if d > 0 && self.left > 0 { 3 } else { 0 };
        let w = [1, back, back, 5, 2, 6, 1, 2, nest, nest, 4, nest, 1, 2, 2, 2, 1, 1, 1, 1, 1, 1];
        let t = self.tag();
        match self.c.weighted(&w) {
            0 => Step::Nothing,
            1 => Step::Restart,
            2 => Step::SeekFailed,
            3 => Step::Skip,
            4 => Step::SkipIf(self.mask()),
            5 => Step::Find(self.mask()),
            6 => Step::ScanDelim(self.c.below(DELIMS.len())),
            7 => {
                let n = self.c.range(1, if big() { 100 } else { 3 }) as u32;
                let m = self.mask();
                let stop = self.mask();
                Step::ScanCustom(n, m, stop)
            }
            8 => {
                let n = self.c.range(1, 3);
                // Whatever happens inside, a failure puts the cursor back.
                Step::Maybe(self.steps(n, d - 1, consumed, false))
            }
            9 => {
                let n = self.c.range(1, 2);
                let m = self.mask();
                Step::WhileNot(m, self.steps(n, d - 1, consumed, true))
            }
            10 => Step::Retry { exact: self.c.chance(1, 3), silent: self.c.chance(1, 3) },
            11 => {
                self.left = self.left.saturating_sub(1);
                let g = Box::new(self.g(d - 1, consumed));
                Step::Try { g, exact: self.c.chance(1, 3), silent: self.c.chance(1, 3) }
            }
            12 => Step::Push(t),
            13 => Step::PushHere(t),
            14 => Step::PushUpTo(t),
            15 => Step::PushTok(t),
            16 => Step::Upd(t),
            17 => Step::UpdHere(t),
            18 => Step::UpdUpTo(t),
            19 => Step::UpdTok(t),
            20 => Step::Boxed,
            _ => Step::Mark(self.c.below(4)),
        }
    }
}

fn steps_ref(s: &[Step]) -> bool {
    s.iter().any(|s| match s {
        Step::Try { g, .. } => has_ref(g),
        Step::Maybe(s) | Step::WhileNot(_, s) => steps_ref(s),
        _ => false,
    })
}

pub fn has_ref(g: &G) -> bool {
    use G::*;
    match g {
        Ref(_) => true,
        Empty | NoneP | End | Just(_) | Filter(_) | FilterMap(..) | OneOf(..) | NoneOf(..) | Seq(..) => false,
        To(g, _) | Ignored(g) | SomeP(g) | Map(g, _) | MapSpan(g, _) | MapErr(g, _) | MapErrSpan(g, _)
        | TryMap(g, _) | Probe(g) | Peek(g, ..) | Cloned(g) | OrNot(g) => has_ref(g),
        Then(a, b) | ThenIgnore(a, b) | IgnoreThen(a, b) | Or(a, b) | Padded(a, b) => has_ref(a) || has_ref(b),
        Delimited(l, m, r) => has_ref(l) || has_ref(m) || has_ref(r),
        Chain(gs) | Alters(gs) => gs.iter().any(has_ref),
        Rep { item, sep, .. } => has_ref(item) || sep.as_ref().is_some_and(|s| has_ref(s)),
        Recover(g, s, _) => has_ref(g) || steps_ref(s),
    }
}

// ---------------------------------------------------------------- sampling

/// Appends a sentence of g, or something close to one.
pub fn sample(g: &G, gr: &Grammar, alphabet: &[K], c: &mut Chooser, fuel: &mut usize, out: &mut Vec<K>) {
    if *fuel == 0 || out.len() > if big() { 600 } else { 60 } {
        return;
    }
    *fuel -= 1;
    use G::*;
    let in_mask = |m: Mask, c: &mut Chooser| {
        let ks: Vec<K> = (0..16).filter(|k| has(m, *k)).collect();
        if ks.is_empty() { alphabet[0] } else { *c.pick(&ks) }
    };
    match g {
        Empty | NoneP | End => (),
        Just(k) => out.push(*k),
        Filter(m) | FilterMap(m, _) => {
            let k = in_mask(*m, c);
            out.push(k)
        }
        Seq(ks, _) => out.extend(ks),
        OneOf(ks, _) => {
            let k = *c.pick(ks);
            out.push(k)
        }
        NoneOf(ks, _) => {
            let rest: Vec<K> = alphabet.iter().copied().filter(|k| !ks.contains(k)).collect();
            if !rest.is_empty() {
                let k = *c.pick(&rest);
                out.push(k)
            }
        }
        To(g, _) | Ignored(g) | SomeP(g) | Map(g, _) | MapSpan(g, _) | MapErr(g, _) | MapErrSpan(g, _)
        | TryMap(g, _) | Probe(g) | Cloned(g) | Recover(g, _, _) => sample(g, gr, alphabet, c, fuel, out),
        Then(a, b) | ThenIgnore(a, b) | IgnoreThen(a, b) => {
            sample(a, gr, alphabet, c, fuel, out);
            sample(b, gr, alphabet, c, fuel, out);
        }
        Delimited(l, m, r) => {
            sample(l, gr, alphabet, c, fuel, out);
            sample(m, gr, alphabet, c, fuel, out);
            sample(r, gr, alphabet, c, fuel, out);
        }
        Padded(p, m) => {
            sample(p, gr, alphabet, c, fuel, out);
            sample(m, gr, alphabet, c, fuel, out);
            sample(p, gr, alphabet, c, fuel, out);
        }
        Chain(gs) => gs.iter().for_each(|g| sample(g, gr, alphabet, c, fuel, out)),
        Peek(g, not, _) => {
            if !*not && c.chance(1, 2) {
                sample(g, gr, alphabet, c, fuel, out)
            }
        }
        Or(a, b) => {
            let g = if c.chance(1, 2) { b } else { a };
            sample(g, gr, alphabet, c, fuel, out)
        }
        Alters(gs) => {
            let i = c.below(gs.len());
            sample(&gs[i], gr, alphabet, c, fuel, out)
        }
        OrNot(g) => {
            if c.chance(1, 2) {
                sample(g, gr, alphabet, c, fuel, out)
            }
        }
        Rep { item, sep, min, max, lead, trail, .. } => {
            let more = if big() && c.chance(1, 2) { 300 } else { 3 };
            // A minimum that cannot be reached gets a few items.
            let n = if *min > ENDLESS { 0 } else { *min } + c.below(more);
            let n = max.map(|m| n.min(m)).unwrap_or(n);
            if let (Some(s), true) = (sep, *lead) {
                if c.chance(1, 2) {
                    sample(s, gr, alphabet, c, fuel, out);
                }
            }
            for i in 0..n {
                if i > 0 {
                    if let Some(s) = sep {
                        sample(s, gr, alphabet, c, fuel, out);
                    }
                }
                sample(item, gr, alphabet, c, fuel, out);
            }
            if let (Some(s), true) = (sep, *trail || c.chance(1, 6)) {
                if c.chance(1, 2) {
                    sample(s, gr, alphabet, c, fuel, out);
                }
            }
        }
        Ref(i) => sample(&gr.defs[*i], gr, alphabet, c, fuel, out),
    }
}

/// Kinds that the delimiter sets use.
pub const DELIM_KINDS: [K; 7] = [LP, RP, LB, RB, BAR, 0, 1];
