//! Builds the library's real parsers from the abstract syntax of grammars.

use crate::gram::*;
use crate::model::{decide, edit, rejects_like_a_token, Decision};
use crate::norm::*;
use crate::tok::*;
use crate::world::*;
use pp::combinator::{self, TryMapResult};
use pp::error::At;
use pp::parser::{Parser, Result as PR};
use pp::primitive as prim;
use pp::recovery::{self, IncompleteStrategy};
use pp::recursive::{self, Recursive};
use pp::scanner::{self, Scanner};
use pp::stream::{SavedState, Stream};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

pub type BP<E> = combinator::Boxed<'static, Tok, Val, E>;
type SB<E> = recovery::Boxed<'static, Tok, BP<E>>;

thread_local! {
    static INTERN: RefCell<HashMap<Vec<K>, &'static Vec<Tok>>> = RefCell::new(HashMap::new());
    /// Cursor before and after the latest completed parse of a root parser.
    pub static LAST_ROOT: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}

fn intern(ks: &[K]) -> &'static Vec<Tok> {
    INTERN.with(|i| {
        *i.borrow_mut()
            .entry(ks.to_vec())
            .or_insert_with(|| Box::leak(Box::new(ks.iter().map(|k| Tok::of(*k)).collect())))
    })
}

/// Which callback it is.
pub mod site {
    macro_rules! sites {
        ($($n:ident),*) => { sites!(@ 1u64; $($n),*); };
        (@ $i:expr; $n:ident $(, $r:ident)*) => {
            pub const $n: u64 = $i << 56;
            sites!(@ $i + 1; $($r),*);
        };
        (@ $i:expr;) => {};
    }
    sites!(
        FILTER, FILTER_MAP, MAP, MAP_SPAN, MAP_ERR, MAP_ERR_SPAN, TRY_MAP, RETURN_WITH, RETURN_SPAN, STEP_PRED, MAKE_DELIM,
        MAKE_SCAN, SCAN, SCAN_EOF, SCANNED, SCANNED_EOF, PUSH, PUSH_HERE, PUSH_UP_TO, PUSH_TOK, UPD, UPD_HERE, UPD_UP_TO, UPD_TOK
    );
}
/// Tells a token from all others of its source.
pub fn tok_id(k: K, seq: u32) -> u64 {
    (k as u64) << 40 | seq as u64
}

/// Transparent, but looks at the contract of the parser it contains.
pub struct Probe<E: TErr> {
    inner: BP<E>,
    root: bool,
    /// Others who hold the same parsers.
    _pile: (Vec<BP<E>>, Vec<Recursive<'static, Tok, Val, E>>),
}

impl<E: TErr> Parser<'static, Tok> for Probe<E> {
    type Output = Val;
    type Error = E;
    fn parse_internal(&self, stream: &mut Stream<'static, Tok, E::Trk>, rec: bool) -> PR<Val, E> {
        let before = stream.index();
        let r = self.inner.parse_internal(stream, rec);
        let after = stream.index();
        match &r {
            PR::Failed(i, es) => {
                probe(P::probe_failed);
                if after != before {
                    violation(Class::FailCursor, || {
                        format!("a parser started at {before} failed (recovery {}) and left the cursor at {after}", if rec { "on" } else { "off" })
                    });
                }
                if es.is_empty() {
                    violation(Class::TriState, || "a parser failed without any error".into());
                }
                if *i < before {
                    violation(Class::FailReport, || format!("a parser started at {before} reports index {i}"));
                }
            }
            PR::Recovered(_, es) => {
                probe(P::probe_recovered);
                if !rec {
                    violation(Class::TriState, || "a parser recovered although recovery was off".into());
                }
                if es.is_empty() {
                    violation(Class::TriState, || "a parser recovered without any error".into());
                }
            }
            PR::Success(_) => (),
        }
        if self.root {
            LAST_ROOT.with(|l| l.set((before, after)));
        }
        r
    }
}

/// What users may write themselves: a parser that looks ahead.
struct Peek<E: TErr> {
    inner: BP<E>,
    not: bool,
    t: u32,
}
impl<E: TErr> Parser<'static, Tok> for Peek<E> {
    type Output = Val;
    type Error = E;
    fn parse_internal(&self, stream: &mut Stream<'static, Tok, E::Trk>, rec: bool) -> PR<Val, E> {
        let rec = rec && !self.not;
        let r = match self.t % 3 {
            0 => {
                let here = stream.save();
                let r = self.inner.parse_internal(stream, rec);
                stream.restore(&here);
                r
            }
            1 => stream.attempt(|stream| Err(self.inner.parse_internal(stream, rec))),
            _ => {
                let here = stream.save_at(stream.index());
                let r = self.inner.parse_internal(stream, rec);
                let there = stream.save();
                stream.restore(&here);
                stream.restore(&there);
                stream.restore(&here);
                r
            }
        };
        match r {
            r if !self.not => r,
            PR::Failed(..) => PR::Success(Val::Unit),
            _ => PR::Failed(stream.index(), vec![E::custom(format!("not{}", self.t), At::None)]),
        }
    }
}

/// And a step of a strategy.
struct Mark<E: TErr> {
    child: SB<E>,
    n: usize,
}
impl<E: TErr> recovery::Recover<'static, Tok, BP<E>> for Mark<E> {
    fn recover(
        &self,
        parser: &BP<E>,
        stream: &mut Stream<'static, Tok, E::Trk>,
        started_at: &SavedState,
        failed_at: &mut SavedState,
        errors: &mut Vec<E>,
    ) -> Option<Val> {
        let r = self.child.recover(parser, stream, started_at, failed_at, errors);
        if r.is_none() {
            *failed_at = match self.n {
                0 => stream.save(),
                n => stream.save_at(stream.index() + n),
            };
        }
        r
    }
}
impl<E: TErr> IncompleteStrategy<'static, Tok, BP<E>> for Mark<E> {}

#[derive(Clone)]
struct CustomScan {
    n: u32,
    report: Mask,
    stop: Mask,
    seen: u32,
}
impl<E: TErr> Scanner<'static, Tok, E> for CustomScan {
    fn scan(&mut self, token: Tok, span: E::S, errors: &mut Vec<E>) -> bool {
        called(site::SCAN, tok_id(token.k, token.seq));
        self.seen += 1;
        if has(self.report, token.k) {
            errors.push(E::custom(format!("scan{}", self.seen), At::Span(span)));
        }
        self.seen >= self.n || has(self.stop, token.k)
    }
    fn eof(&mut self, location: E::L, errors: &mut Vec<E>) {
        called(site::SCAN_EOF, 0);
        errors.push(E::custom(format!("scaneof{}", self.seen), At::Location(location)));
    }
}

/// A scanner that notices when it is used for more than one recovery.
#[derive(Clone)]
struct OneUse<S> {
    inner: S,
    last: Option<(u16, u32)>,
    done: bool,
}
impl<S> OneUse<S> {
    fn new(inner: S) -> Self {
        OneUse { inner, last: None, done: false }
    }
    fn check(&mut self, t: Option<&Tok>) {
        let reused = match (t, self.last) {
            (Some(t), Some((sess, seq))) => t.sess != sess || t.seq != seq + 1,
            _ => false,
        };
        if self.done || reused {
            let last = self.last;
            violation(Class::Isolation, || format!("a scanner that has seen {last:?} last is used again for {t:?}"));
        }
        self.last = t.map(|t| (t.sess, t.seq)).or(self.last);
    }
}
impl<E: TErr, S: Scanner<'static, Tok, E>> Scanner<'static, Tok, E> for OneUse<S> {
    fn scan(&mut self, token: Tok, span: E::S, errors: &mut Vec<E>) -> bool {
        self.check(Some(&token));
        called(site::SCANNED, tok_id(token.k, token.seq));
        self.done = self.inner.scan(token, span, errors);
        self.done
    }
    fn eof(&mut self, location: E::L, errors: &mut Vec<E>) {
        self.check(None);
        called(site::SCANNED_EOF, 0);
        self.done = true;
        self.inner.eof(location, errors)
    }
}

fn val_tok(t: &Tok) -> Val {
    Val::Tok(t.k, t.seq)
}
/// Of equal tokens, whether the expected or the found one is returned is open.
fn val_kind(t: &Tok) -> Val {
    Val::Tok(t.k, 0)
}

pub fn root_probe<E: TErr>(inner: BP<E>) -> BP<E> {
    Probe { inner, root: true, _pile: (vec![], vec![]) }.boxed()
}

pub struct Builder<'a, E: TErr> {
    defs: Vec<Recursive<'static, Tok, Val, E>>,
    /// Whether each is defined, if that is to be watched.
    watch: &'a [crate::life::Ghost],
    flaky: u64,
}

/// A parser that uses declared definitions.
pub fn build_with<E: TErr>(defs: &[Recursive<'static, Tok, Val, E>], watch: &[crate::life::Ghost], g: &G) -> BP<E> {
    Builder { defs: defs.to_vec(), watch, flaky: 0 }.b(g)
}

/// Boxes a parser, or a clone of it.
macro_rules! fin {
    ($cl:expr, $p:expr) => {{
        let p = $p;
        if $cl {
            let c = p.clone();
            drop(p);
            c.boxed()
        } else {
            p.boxed()
        }
    }};
}

pub fn build<E: TErr>(gr: &Grammar) -> BP<E> {
    let mut b = Builder { defs: vec![], watch: &[], flaky: gr.flaky };
    if gr.defs.len() == 1 {
        // The closure form.
        let r = recursive::recursive(|r: &Recursive<'static, Tok, Val, E>| {
            let b = Builder { defs: vec![r.clone()], watch: &[], flaky: gr.flaky };
            b.g(&gr.defs[0], false)
        });
        b.defs.push(r);
    } else {
        b.defs = gr.defs.iter().map(|_| Recursive::declare()).collect();
        for (i, d) in gr.defs.iter().enumerate() {
            let p = b.g(d, false);
            b.defs[i].clone().define(p);
        }
    }
    let inner = b.g(&gr.root, false);
    let n = gen(|c| match c.weighted(&[12, 3, if big() { 12 } else { 1 }]) {
        0 => 0,
        1 => c.range(1, 4),
        _ if big() => c.range(5, 300),
        _ => c.range(5, 20),
    });
    let boxes = (0..n).map(|_| inner.clone()).collect();
    let recs = b.defs.iter().flat_map(|r| (0..n).map(|_| r.clone())).collect();
    Probe { inner, root: true, _pile: (boxes, recs) }.boxed()
}

impl<E: TErr> Builder<'_, E> {
    fn b(&self, g: &G) -> BP<E> {
        self.g(g, false)
    }

    fn g(&self, g: &G, cl: bool) -> BP<E> {
        use G::*;
        match g {
            Empty => fin!(cl, prim::empty::<Tok, E>()).map(|_| Val::Unit).boxed(),
            NoneP => fin!(cl, prim::none::<Tok, Val, E>()).map(|o| Val::Opt(o.map(Box::new))).boxed(),
            End => fin!(cl, prim::end::<Tok, E>()).map(|_| Val::Unit).boxed(),
            // The error type changes on the way out.
            Just(k) if k % 5 == 3 => {
                let p = prim::just::<Tok, UserErr<E>>(Tok::of(*k)).map_err(|e: UserErr<E>| e.0);
                fin!(cl, p).map(|t| val_kind(&t)).boxed()
            }
            Just(k) => fin!(cl, prim::just::<Tok, E>(Tok::of(*k))).map(|t| val_kind(&t)).boxed(),
            Filter(m) if m % 4 == 1 => {
                let (m, flaky) = (*m, self.flaky);
                let p = prim::filter::<Tok, _, UserErr<E>>(move |t: &Tok| {
                    called(site::FILTER ^ m as u64, tok_id(t.k, t.seq));
                    answer(flaky, t.sess, has(m, t.k))
                });
                fin!(cl, p.map_err_with_span(|e: UserErr<E>, _: E::S| e.0)).map(|t| val_tok(&t)).boxed()
            }
            Filter(m) => {
                let (m, flaky) = (*m, self.flaky);
                fin!(cl, prim::filter::<Tok, _, E>(move |t: &Tok| {
                    called(site::FILTER ^ m as u64, tok_id(t.k, t.seq));
                    answer(flaky, t.sess, has(m, t.k))
                }))
                .map(|t| val_tok(&t))
                .boxed()
            }
            FilterMap(m, tag) => {
                let (m, tag, flaky) = (*m, *tag, self.flaky);
                fin!(cl, prim::filter_map::<Tok, _, Val, E>(move |t: &Tok| {
                    called(site::FILTER_MAP ^ (tag as u64) << 20 ^ m as u64, tok_id(t.k, t.seq));
                    if answer(flaky, t.sess, has(m, t.k)) { Some(Val::Tag(tag, Box::new(val_tok(t)))) } else { None }
                }))
            }
            Seq(ks, form) => self.seq(ks, *form, cl),
            OneOf(ks, form) => self.set(ks, *form, cl, true),
            NoneOf(ks, form) => self.set(ks, *form, cl, false),
            To(g, t) => fin!(cl, self.b(g).to(Val::Const(*t))),
            Ignored(g) => fin!(cl, self.b(g).ignored::<()>()).map(|_| Val::Unit).boxed(),
            SomeP(g) => {
                let p = self.b(g).some();
                p.map(|v| Val::Opt(v.map(Box::new))).boxed()
            }
            Map(g, t) => {
                let t = *t;
                fin!(cl, self.b(g).map(move |v| {
                    called(site::MAP ^ t as u64, v.digest());
                    Val::Tag(t, Box::new(v))
                }))
            }
            MapSpan(g, t) => {
                let t = *t;
                fin!(cl, self.b(g).map_with_span(move |v, s: E::S| {
                    called(site::MAP_SPAN ^ t as u64, v.digest());
                    Val::Spanned(Some(nspan::<E>(&s)), t, Box::new(v))
                }))
            }
            MapErr(g, t) => {
                let t = *t;
                fin!(cl, self.b(g).map_err(move |e: E| {
                    called(site::MAP_ERR ^ t as u64, 0);
                    e.tagged(t)
                }))
            }
            MapErrSpan(g, t) => {
                let t = *t;
                fin!(cl, self.b(g).map_err_with_span(move |_: E, s: E::S| {
                    called(site::MAP_ERR_SPAN ^ t as u64, 0);
                    E::custom(format!("mes{t}"), At::Span(s))
                }))
            }
            TryMap(g, p) => {
                let p = *p;
                self.b(g)
                    .try_map(move |v, s: E::S| {
                        called(site::TRY_MAP ^ p as u64, v.digest());
                        let mk = |n: u32| -> Vec<E> {
                            (0..n)
                                .map(|i| {
                                    if rejects_like_a_token(p, i, n) {
                                        // Looks like what a token parser reports here.
                                        let mut exp = vec![Some(Tok::of(p as K % 16))];
                                        if p % 5 == 0 {
                                            exp.push(None);
                                        }
                                        E::expected_found(exp, Some(Tok::of(p as K % 7)), At::Span(s.clone()))
                                    } else {
                                        E::custom(format!("try{p}.{i}"), At::Span(s.clone()))
                                    }
                                })
                                .collect()
                        };
                        let d = decide(p, &v);
                        let out = Val::Spanned(Some(nspan::<E>(&s)), p, Box::new(v));
                        match d {
                            Decision::Ok => TryMapResult::Ok(out),
                            Decision::Err(n) => TryMapResult::Err(mk(n)),
                            Decision::Rec(n) => TryMapResult::Recovered(out, mk(n)),
                        }
                    })
                    .boxed()
            }
            Then(a, b) => fin!(cl, self.b(a).then(self.b(b))).map(|(a, b)| Val::List(vec![a, b])).boxed(),
            ThenIgnore(a, b) => fin!(cl, self.b(a).then_ignore(self.b(b))),
            IgnoreThen(a, b) => fin!(cl, self.b(a).ignore_then(self.b(b))),
            Delimited(l, m, r) => fin!(cl, self.b(m).delimited_by(self.b(l), self.b(r))),
            Padded(p, m) => fin!(cl, self.b(m).padded_by(self.b(p))),
            Chain(gs) => {
                let mut c = self.b(&gs[0]).chain(self.b(&gs[1]));
                for g in &gs[2..] {
                    c = c.and(self.b(g));
                }
                fin!(cl, c).map(Val::List).boxed()
            }
            Or(a, b) => {
                let p = self.b(a).or(self.b(b));
                p.boxed()
            }
            OrNot(g) => fin!(cl, self.b(g).or_not()).map(|o| Val::Opt(o.map(Box::new))).boxed(),
            Alters(gs) => {
                let mut c = self.b(&gs[0]).alters(self.b(&gs[1]));
                for g in &gs[2..] {
                    c = c.and(self.b(g));
                }
                fin!(cl, c)
            }
            Rep { item, sep, min, max, lead, trail, form } => {
                let item = self.b(item);
                let p = match (sep, form) {
                    (None, _) => item.repeated(),
                    // The separator comes last then.
                    (Some(_), 4) => item.repeated(),
                    (Some(s), 1) => item.repeated().with_separator(self.b(s)),
                    (Some(s), 5) => item.separated_by(self.b(s)).with_separator(self.b(s)),
                    (Some(s), _) => item.separated_by(self.b(s)),
                };
                // Bounds may be set again, to tighter ones.
                let p = match form {
                    3 if max.is_some() => p.at_most(max.unwrap().saturating_add(2)).at_least(min / 2),
                    4 => p.at_least(min / 2).clone(),
                    5 if max.is_some() => p.at_most(max.unwrap().saturating_add(1)).at_least(*min),
                    _ => p,
                };
                let p = if *form == 4 && *trail { p.allow_trailing() } else { p };
                let p = match max {
                    Some(m) if m == min && form % 3 != 0 => p.exactly(*min),
                    Some(m) if form % 3 == 2 => p.at_most(*m).at_least(*min),
                    Some(m) => p.at_least(*min).at_most(*m),
                    None if *min == 0 && *form == 2 => p,
                    None => p.at_least(*min),
                };
                let p = if *trail && *form != 4 { p.allow_trailing() } else { p };
                let p = if *lead { p.allow_leading() } else { p };
                let p = match sep {
                    Some(s) if *form == 4 => p.with_separator(self.b(s)),
                    _ => p,
                };
                fin!(cl, p).map(Val::List).boxed()
            }
            Recover(g, steps, fin) => self.recover(self.b(g), steps, fin, cl),
            Ref(i) => match self.watch.get(*i) {
                None => self.defs[*i].clone().boxed(),
                Some(ghost) => crate::life::Watch { inner: self.defs[*i].clone(), ghost: ghost.clone(), which: *i, fresh: cl }.boxed(),
            },
            Probe(g) => self::Probe { inner: self.b(g), root: false, _pile: (vec![], vec![]) }.boxed(),
            Peek(g, not, t) => self::Peek { inner: self.b(g), not: *not, t: *t }.boxed(),
            Cloned(g) => {
                let p = self.g(g, true);
                let q = p.clone();
                drop(p);
                q.with_error::<E>().boxed()
            }
        }
    }

    fn seq(&self, ks: &[K], form: u8, cl: bool) -> BP<E> {
        fn list<'a>(ts: impl IntoIterator<Item = &'a Tok>) -> Val {
            Val::List(ts.into_iter().map(val_kind).collect())
        }
        let v = intern(ks);
        match (form, ks.len()) {
            (1, 1) => fin!(cl, prim::seq::<Tok, [Tok; 1], E>([Tok::of(ks[0])])).map(|o| list(o.iter())).boxed(),
            (1, 2) => fin!(cl, prim::seq::<Tok, [Tok; 2], E>([Tok::of(ks[0]), Tok::of(ks[1])])).map(|o| list(o.iter())).boxed(),
            (1, 3) => fin!(cl, prim::seq::<Tok, [Tok; 3], E>([Tok::of(ks[0]), Tok::of(ks[1]), Tok::of(ks[2])]))
                .map(|o| list(o.iter()))
                .boxed(),
            (2, _) => fin!(cl, prim::seq::<Tok, &'static [Tok], E>(&v[..])).map(|o| list(o.iter())).boxed(),
            (3, 2) => {
                let a: &'static [Tok; 2] = v[..].try_into().unwrap();
                fin!(cl, prim::seq::<Tok, &'static [Tok; 2], E>(a)).map(|o| list(o.iter())).boxed()
            }
            (4, _) => fin!(cl, prim::seq::<Tok, &'static Vec<Tok>, E>(v)).map(|o| list(o.iter())).boxed(),
            (5, 1) => fin!(cl, prim::seq::<Tok, Tok, E>(Tok::of(ks[0]))).map(|o| list([&o])).boxed(),
            _ => fin!(cl, prim::seq::<Tok, Vec<Tok>, E>(v.clone())).map(|o| list(o.iter())).boxed(),
        }
    }

    fn set(&self, ks: &[K], form: u8, cl: bool, one: bool) -> BP<E> {
        let v = intern(ks);
        macro_rules! s {
            ($t:ty, $x:expr) => {
                if one {
                    fin!(cl, prim::one_of::<Tok, $t, E>($x)).map(|t| val_tok(&t)).boxed()
                } else {
                    fin!(cl, prim::none_of::<Tok, $t, E>($x)).map(|t| val_tok(&t)).boxed()
                }
            };
        }
        match (form, ks.len()) {
            (1, 1) => s!([Tok; 1], [Tok::of(ks[0])]),
            (1, 2) => s!([Tok; 2], [Tok::of(ks[0]), Tok::of(ks[1])]),
            (1, 3) => s!([Tok; 3], [Tok::of(ks[0]), Tok::of(ks[1]), Tok::of(ks[2])]),
            (2, _) => s!(&'static [Tok], &v[..]),
            (3, 2) => s!(&'static [Tok; 2], v[..].try_into().unwrap()),
            (4, _) => s!(&'static Vec<Tok>, v),
            (5, 1) => s!(Tok, Tok::of(ks[0])),
            _ => s!(Vec<Tok>, v.clone()),
        }
    }

    fn recover(&self, p: BP<E>, steps: &[Step], fin: &Fin, cl: bool) -> BP<E> {
        fn done<E: TErr, S>(p: BP<E>, s: S, cl: bool) -> BP<E>
        where
            S: recovery::Strategy<'static, Tok, BP<E>> + Clone + 'static,
        {
            fin!(cl, p.to_recover(s))
        }
        let span_out = |t: u32| {
            move |s: E::S| {
                called(site::RETURN_SPAN ^ t as u64, 0);
                Val::Spanned(Some(nspan::<E>(&s)), t, Box::new(Val::Unit))
            }
        };
        let with_out = |t: u32| {
            move || {
                called(site::RETURN_WITH ^ t as u64, 0);
                Val::Const(t)
            }
        };
        if steps.is_empty() {
            return match fin {
                Fin::Return(t) => done(p, recovery::just_return::<Tok, BP<E>>(Val::Const(*t)), cl),
                Fin::ReturnWith(t) => done(p, recovery::just_return_with::<Tok, BP<E>, _>(with_out(*t)), cl),
                Fin::ReturnSpan(t) => done(p, recovery::just_return_with_span::<Tok, BP<E>, _>(span_out(*t)), cl),
                Fin::OrFail => done(p, recovery::attempt_to::<Tok, BP<E>>().or_fail(), cl),
            };
        }
        let s = self.steps(steps);
        match fin {
            Fin::Return(t) => done(p, s.and_return(Val::Const(*t)), cl),
            Fin::ReturnWith(t) => done(p, s.and_return_with(with_out(*t)), cl),
            Fin::ReturnSpan(t) => done(p, s.and_return_with_span(span_out(*t)), cl),
            Fin::OrFail => done(p, s.or_fail(), cl),
        }
    }

    fn steps(&self, steps: &[Step]) -> SB<E> {
        let mut s: Option<SB<E>> = None;
        for step in steps {
            s = Some(self.step(s, step));
        }
        s.unwrap_or_else(|| IncompleteStrategy::<'static, Tok, BP<E>>::boxed(recovery::attempt_to::<Tok, BP<E>>()))
    }

    /// Adds a step. The first of a strategy is made with the free function of
    /// the same name if there is one.
    fn step(&self, before: Option<SB<E>>, step: &Step) -> SB<E> {
        let flaky = self.flaky;
        let pred = |m: Mask| {
            move |t: &Tok| {
                called(site::STEP_PRED ^ m as u64, tok_id(t.k, t.seq));
                answer(flaky, t.sess, has(m, t.k))
            }
        };
        macro_rules! st {
            ($name:ident $(, $a:expr)*) => {
                match before {
                    Some(s) => SB::<E>::boxed(s.$name($($a),*).into_boxed()),
                    None => SB::<E>::boxed(recovery::$name($($a),*).into_boxed()),
                }
            };
        }
        trait IntoBoxed<E: TErr> {
            fn into_boxed(self) -> SB<E>;
        }
        impl<E: TErr, S: IncompleteStrategy<'static, Tok, BP<E>> + 'static> IntoBoxed<E> for S {
            fn into_boxed(self) -> SB<E> {
                self.boxed()
            }
        }
        let or_new = |s: Option<SB<E>>| s.unwrap_or_else(|| IntoBoxed::<E>::into_boxed(recovery::attempt_to::<Tok, BP<E>>()));
        let mes = |t: &Option<&Tok>| t.map(|t| (t.k as i16, t.seq)).unwrap_or((-1, 0));
        match step {
            Step::Nothing => or_new(before).do_nothing(),
            Step::Boxed => or_new(before).boxed(),
            Step::Mark(n) => IntoBoxed::<E>::into_boxed(Mark { child: or_new(before), n: *n }),
            Step::Restart => or_new(before).restart().boxed(),
            Step::SeekFailed => st!(seek_to_failed),
            Step::Skip => st!(skip),
            Step::SkipIf(m) => st!(skip_if, pred(*m)),
            Step::Find(m) => st!(find, pred(*m)),
            Step::ScanDelim(i) => {
                let i = *i;
                let make = scanner::nested_delimiters::<Tok, E::S>(DELIMS[i]);
                let make = move || {
                    called(site::MAKE_DELIM ^ i as u64, 0);
                    OneUse::new(make())
                };
                match before {
                    Some(s) => s.scan(make).boxed(),
                    None => recovery::scan(make).boxed(),
                }
            }
            Step::ScanCustom(n, report, stop) => {
                let (n, report, stop) = (*n, *report, *stop);
                let make = move || {
                    called(site::MAKE_SCAN ^ n as u64, 0);
                    OneUse::new(CustomScan { n, report, stop, seen: 0 })
                };
                match before {
                    Some(s) => s.scan(make).boxed(),
                    None => recovery::scan(make).boxed(),
                }
            }
            Step::Maybe(inner) => {
                let inner = self.steps(inner);
                st!(maybe, inner)
            }
            Step::WhileNot(m, inner) => {
                let inner = self.steps(inner);
                st!(while_not, pred(*m), inner)
            }
            Step::Retry { exact, silent } => {
                let r = |s: Option<SB<E>>| or_new(s).retry();
                match (before, exact, silent) {
                    (None, false, false) => recovery::retry().boxed(),
                    (None, true, true) => recovery::retry().exactly_and_silently().boxed(),
                    (b, true, true) => r(b).exactly_and_silently().boxed(),
                    (b, true, false) => r(b).exactly().boxed(),
                    (b, false, true) => r(b).silently().boxed(),
                    (b, false, false) => r(b).boxed(),
                }
            }
            Step::Try { g, exact, silent } => {
                let p = self.b(g);
                match (before, exact, silent) {
                    (None, false, false) => recovery::try_to_parse(p).boxed(),
                    (None, true, true) => recovery::try_to_parse(p).exactly_and_silently().boxed(),
                    (b, true, true) => or_new(b).try_to_parse(p).exactly_and_silently().boxed(),
                    (b, true, false) => or_new(b).try_to_parse(p).exactly().boxed(),
                    (b, false, true) => or_new(b).try_to_parse(p).silently().boxed(),
                    (b, false, false) => or_new(b).try_to_parse(p).boxed(),
                }
            }
            Step::Push(t) => {
                let t = *t;
                st!(push_error, move || {
                    called(site::PUSH ^ t as u64, 0);
                    E::custom(format!("push{t}"), At::None)
                })
            }
            Step::PushHere(t) => {
                let t = *t;
                st!(push_error_here, move |l: E::L| {
                    called(site::PUSH_HERE ^ t as u64, 0);
                    E::custom(format!("here{t}"), At::Location(l))
                })
            }
            Step::PushUpTo(t) => {
                let t = *t;
                st!(push_error_up_to_here, move |s: E::S| {
                    called(site::PUSH_UP_TO ^ t as u64, 0);
                    E::custom(format!("upto{t}"), At::Span(s))
                })
            }
            Step::PushTok(t) => {
                let t = *t;
                st!(push_error_for_token, move |f: Option<&Tok>, s: E::S| {
                    let (k, q) = mes(&f);
                    called(site::PUSH_TOK ^ t as u64, tok_id(k as K, q));
                    E::custom(format!("tok{t}:{k}.{q}"), At::Span(s))
                })
            }
            Step::Upd(t) => {
                let t = *t;
                st!(update_errors, move |es: &mut Vec<E>| {
                    called(site::UPD ^ t as u64, es.len() as u64);
                    let e = E::custom(format!("upd{t}.{}", es.len()), At::None);
                    edit(es, t, e);
                })
            }
            Step::UpdHere(t) => {
                let t = *t;
                st!(update_errors_here, move |es: &mut Vec<E>, l: E::L| {
                    called(site::UPD_HERE ^ t as u64, es.len() as u64);
                    let e = E::custom(format!("updhere{t}.{}", es.len()), At::Location(l));
                    edit(es, t, e);
                })
            }
            Step::UpdUpTo(t) => {
                let t = *t;
                st!(update_errors_up_to_here, move |es: &mut Vec<E>, s: E::S| {
                    called(site::UPD_UP_TO ^ t as u64, es.len() as u64);
                    let e = E::custom(format!("updupto{t}.{}", es.len()), At::Span(s));
                    edit(es, t, e);
                })
            }
            Step::UpdTok(t) => {
                let t = *t;
                st!(update_errors_for_token, move |es: &mut Vec<E>, f: Option<&Tok>, s: E::S| {
                    let (k, q) = mes(&f);
                    called(site::UPD_TOK ^ t as u64, tok_id(k as K, q) ^ (es.len() as u64) << 50);
                    let e = E::custom(format!("updtok{k}.{q}:{t}.{}", es.len()), At::Span(s));
                    edit(es, t, e);
                })
            }
        }
    }
}
