//! Normal forms of everything the library returns, so that real and expected
//! values compare exactly, with or without their locations, for every location
//! tracker and error type; and the trackers and error types themselves.

use crate::build::BP;
use crate::choice::mix;
use crate::psess::{default_entries, EntryOut};
use crate::source::SimSource;
use crate::tok::{Tok, K, TEXT};
use crate::world::{callback, seam, tracker_callback, tracker_has_unwound, Seam};
use pp::error::{self, At, Error};
use pp::location::{self, Tracker};
use pp::stream::Stream;
use std::collections::BTreeSet;

/// A location: token index plus whatever else the tracker reports.
#[derive(Clone, Copy, Eq, Debug, Default)]
pub struct Loc {
    pub idx: usize,
    pub a: u64,
    pub b: u64,
    pub c: u64,
}
impl PartialEq for Loc {
    fn eq(&self, o: &Loc) -> bool {
        self.idx == o.idx && ((self.a, self.b, self.c) == (o.a, o.b, o.c) || tracker_has_unwound())
    }
}
impl std::hash::Hash for Loc {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        if tracker_has_unwound() {
            self.idx.hash(h);
        } else {
            (self.idx, self.a, self.b, self.c).hash(h);
        }
    }
}
pub type Span = (Loc, Loc);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum NAt {
    None,
    Loc(Loc),
    Span(Span),
    /// Locations taken out.
    Stripped,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum NErr {
    Expected(BTreeSet<i16>, i16, u32, NAt),
    UnmatchedLeft(K, u32, NAt, NAt),
    UnmatchedRight(K, u32, NAt, NAt),
    UnmatchedType(K, u32, NAt, K, u32, NAt),
    Custom(String, NAt),
    Void,
}

impl NErr {
    pub fn strip(&mut self) {
        use NAt::Stripped as S;
        match self {
            NErr::Expected(_, _, _, at) | NErr::Custom(_, at) => *at = S,
            NErr::UnmatchedLeft(_, _, a, b)
            | NErr::UnmatchedRight(_, _, a, b)
            | NErr::UnmatchedType(_, _, a, _, _, b) => {
                *a = S;
                *b = S;
            }
            NErr::Void => (),
        }
    }
    pub fn is_ef(&self) -> bool {
        matches!(self, NErr::Expected(..))
    }
    pub fn at(&self) -> NAt {
        match self {
            NErr::Expected(_, _, _, at) | NErr::Custom(_, at) => *at,
            NErr::UnmatchedLeft(_, _, _, b) | NErr::UnmatchedRight(_, _, _, b) => *b,
            NErr::UnmatchedType(_, _, _, _, _, b) => *b,
            NErr::Void => NAt::None,
        }
    }
}

/// Output of every parser built by the simulator.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Val {
    Unit,
    Tok(K, u32),
    Const(u32),
    List(Vec<Val>),
    Opt(Option<Box<Val>>),
    Tag(u32, Box<Val>),
    Spanned(Option<Span>, u32, Box<Val>),
}

impl Val {
    pub fn strip(&mut self) {
        match self {
            Val::Spanned(s, _, v) => {
                *s = None;
                v.strip();
            }
            Val::List(vs) => vs.iter_mut().for_each(Val::strip),
            Val::Opt(Some(v)) | Val::Tag(_, v) => v.strip(),
            _ => (),
        }
    }
    /// Hash that does not depend on locations.
    pub fn digest(&self) -> u64 {
        match self {
            Val::Unit => 1,
            Val::Tok(k, s) => mix(2 ^ ((*k as u64) << 8) ^ ((*s as u64) << 20)),
            Val::Const(c) => mix(3 ^ ((*c as u64) << 8)),
            Val::List(vs) => vs.iter().fold(mix(4), |h, v| mix(h ^ v.digest())),
            Val::Opt(None) => mix(5),
            Val::Opt(Some(v)) => mix(6 ^ v.digest()),
            Val::Tag(t, v) => mix(7 ^ ((*t as u64) << 8) ^ v.digest()),
            Val::Spanned(_, t, v) => mix(8 ^ ((*t as u64) << 8) ^ v.digest()),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Res {
    Ok(Val),
    Rec(Val, Vec<NErr>),
    Fail(usize, Vec<NErr>),
}

impl Res {
    pub fn stripped(&self) -> Res {
        let mut r = self.clone();
        match &mut r {
            Res::Ok(v) => v.strip(),
            Res::Rec(v, es) => {
                v.strip();
                es.iter_mut().for_each(NErr::strip);
            }
            Res::Fail(_, es) => es.iter_mut().for_each(NErr::strip),
        }
        r
    }
    /// Reduces all locations to token indices.
    pub fn indices(&self) -> Res {
        fn loc(l: Loc) -> Loc {
            Loc { idx: l.idx, ..Loc::default() }
        }
        fn at(a: NAt) -> NAt {
            match a {
                NAt::Loc(l) => NAt::Loc(loc(l)),
                NAt::Span((a, b)) => NAt::Span((loc(a), loc(b))),
                a => a,
            }
        }
        fn val(v: &Val) -> Val {
            match v {
                Val::Spanned(s, t, v) => Val::Spanned(s.map(|(a, b)| (loc(a), loc(b))), *t, Box::new(val(v))),
                Val::List(vs) => Val::List(vs.iter().map(val).collect()),
                Val::Opt(Some(v)) => Val::Opt(Some(Box::new(val(v)))),
                Val::Tag(t, v) => Val::Tag(*t, Box::new(val(v))),
                v => v.clone(),
            }
        }
        fn err(e: &NErr) -> NErr {
            match e.clone() {
                NErr::Expected(a, b, c, d) => NErr::Expected(a, b, c, at(d)),
                NErr::UnmatchedLeft(a, b, c, d) => NErr::UnmatchedLeft(a, b, at(c), at(d)),
                NErr::UnmatchedRight(a, b, c, d) => NErr::UnmatchedRight(a, b, at(c), at(d)),
                NErr::UnmatchedType(a, b, c, d, e, f) => NErr::UnmatchedType(a, b, at(c), d, e, at(f)),
                NErr::Custom(m, a) => NErr::Custom(m, at(a)),
                NErr::Void => NErr::Void,
            }
        }
        let errs = |es: &[NErr]| es.iter().map(err).collect();
        match self {
            Res::Ok(v) => Res::Ok(val(v)),
            Res::Rec(v, es) => Res::Rec(val(v), errs(es)),
            Res::Fail(i, es) => Res::Fail(*i, errs(es)),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Res::Ok(_) => "Success",
            Res::Rec(..) => "Recovered",
            Res::Fail(..) => "Failed",
        }
    }
    pub fn val(&self) -> Option<&Val> {
        match self {
            Res::Ok(v) | Res::Rec(v, _) => Some(v),
            Res::Fail(..) => None,
        }
    }
    pub fn errs(&self) -> &[NErr] {
        match self {
            Res::Ok(_) => &[],
            Res::Rec(_, e) | Res::Fail(_, e) => e,
        }
    }
    pub fn digest(&self) -> u64 {
        match self {
            Res::Ok(v) => mix(v.digest() ^ 11),
            Res::Rec(v, e) => mix(v.digest() ^ 12 ^ ((e.len() as u64) << 32)),
            Res::Fail(i, e) => mix(*i as u64 ^ 13 ^ ((e.len() as u64) << 32)),
        }
    }
}

pub fn norm_res<E: TErr>(r: &pp::parser::Result<Val, E>) -> Res {
    match r {
        pp::parser::Result::Success(v) => Res::Ok(v.clone()),
        pp::parser::Result::Recovered(v, es) => Res::Rec(v.clone(), es.iter().map(TErr::norm).collect()),
        pp::parser::Result::Failed(i, es) => Res::Fail(*i, es.iter().map(TErr::norm).collect()),
    }
}

// ---------------------------------------------------------------- trackers

/// A location tracker of the library or of the simulator, together with an
/// independent computation of what it has to report.
pub trait TTr: Tracker<Tok> + 'static {
    /// Tracker placed at the start; variant selects one of several starts.
    fn start(variant: u32) -> Self;
    /// Expected locations of all positions 0..=n.
    fn table(variant: u32, toks: &[(K, u32)]) -> Vec<Loc>;
    fn loc(l: &Self::Location) -> Loc;
    fn span(s: &Self::Span) -> Span;
    /// A stream that starts at the default location, if there is one.
    fn default_stream(src: SimSource) -> Result<Stream<'static, Tok, Self>, SimSource> {
        Err(src)
    }
    /// The entry points of parsers that use the default location.
    fn default_entry<E: TErr<Trk = Self>>(_: &BP<E>, _: SimSource, _: usize) -> EntryOut {
        EntryOut::Nothing
    }
    const NAME: &'static str;
}

impl TTr for location::Simple {
    fn start(_: u32) -> Self {
        Default::default()
    }
    fn table(_: u32, toks: &[(K, u32)]) -> Vec<Loc> {
        (0..=toks.len()).map(|idx| Loc { idx, ..Loc::default() }).collect()
    }
    fn loc(l: &usize) -> Loc {
        Loc { idx: *l, ..Loc::default() }
    }
    fn span(s: &std::ops::Range<usize>) -> Span {
        (Self::loc(&s.start), Self::loc(&s.end))
    }
    fn default_stream(src: SimSource) -> Result<Stream<'static, Tok, Self>, SimSource> {
        Ok(Stream::new(src))
    }
    fn default_entry<E: TErr<Trk = Self>>(p: &BP<E>, src: SimSource, which: usize) -> EntryOut {
        default_entries(p, src, which)
    }
    const NAME: &'static str = "location::Simple";
}

pub type Rich = location::Rich<Tok, fn(&Tok) -> &str>;

/// Texts that take a location close to where small counters end.
static FAR: std::sync::LazyLock<[String; 4]> =
    std::sync::LazyLock::new(|| ["x".repeat(65_530), "\n".repeat(65_530), "x".repeat(252), "\u{e9}\n".repeat(126)]);
fn text_of_kind(k: K) -> &'static str {
    if k >= 100 {
        &FAR[(k - 100) as usize % 4]
    } else {
        TEXT[k as usize % TEXT.len()]
    }
}
fn text_of(t: &Tok) -> &str {
    if t.sess > 0 {
        // Does not unwind: `Rich` would be left behind the token.
        seam(Seam::Callback);
    }
    text_of_kind(t.k)
}
fn start_kinds(variant: u32) -> Vec<K> {
    match variant % 4 {
        _ if variant > 5 => vec![100 + (variant as K - 6)],
        0 => vec![],
        1 => vec![0],
        2 => vec![0, 11, 12],
        _ => vec![13, 1, 12, 14],
    }
}
fn file(variant: u32) -> String {
    format!("file{}", variant % 3)
}
fn file_hash(s: &str) -> u64 {
    s.bytes().fold(7, |h, b| mix(h ^ b as u64))
}
fn rich_loc(idx: usize, row: usize, col: usize, off: usize, file: &str) -> Loc {
    Loc { idx, a: row as u64, b: (col as u64) << 32 | off as u64, c: file_hash(file) }
}

impl TTr for Rich {
    fn start(variant: u32) -> Self {
        let mut r = location::Rich::new(file(variant), text_of as fn(&Tok) -> &str);
        for k in start_kinds(variant) {
            r.advance(&Tok::of(k));
        }
        r
    }
    fn table(variant: u32, toks: &[(K, u32)]) -> Vec<Loc> {
        let file = file(variant);
        let (mut row, mut col, mut off) = (1, 1, 0);
        let mut over = |text: &str| {
            let mut lines = text.split('\n');
            col += lines.next().unwrap().chars().count();
            for line in lines {
                row += 1;
                col = 1 + line.chars().count();
            }
            off += text.len();
            (row, col, off)
        };
        for k in start_kinds(variant) {
            over(text_of_kind(k));
        }
        let mut out = Vec::with_capacity(toks.len() + 1);
        let mut at = |idx: usize, text: &str| {
            let (row, col, off) = over(text);
            out.push(rich_loc(idx, row, col, off, &file));
        };
        at(0, "");
        for (i, (k, _)) in toks.iter().enumerate() {
            at(i + 1, text_of_kind(*k));
        }
        out
    }
    fn loc(l: &location::RichLocation) -> Loc {
        rich_loc(l.offset.index, l.offset.row, l.offset.column, l.offset.offset, &l.filename)
    }
    fn span(s: &location::RichSpan) -> Span {
        (
            rich_loc(s.from.index, s.from.row, s.from.column, s.from.offset, &s.filename),
            rich_loc(s.to.index, s.to.row, s.to.column, s.to.offset, &s.filename),
        )
    }
    const NAME: &'static str = "location::Rich";
}

/// A tracker whose state is a hash of the identities of all tokens before it,
/// in order: it notices any token that is left out, repeated or swapped.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fold(u64);
impl Default for Fold {
    fn default() -> Self {
        Fold(mix(1))
    }
}
fn fold(h: u64, k: K, seq: u32) -> u64 {
    mix(h.rotate_left(5) ^ (k as u64) << 33 ^ seq as u64)
}
/// Nobody can say what a tracker that has unwound counted; from then on only
/// the index matters, to the library as to the model.
#[derive(Clone, Debug)]
pub struct FoldLoc(usize, u64);
impl PartialEq for FoldLoc {
    fn eq(&self, o: &FoldLoc) -> bool {
        self.0 == o.0 && (self.1 == o.1 || tracker_has_unwound())
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct FoldSpan(FoldLoc, FoldLoc);

impl Tracker<Tok> for Fold {
    type Location = FoldLoc;
    type Span = FoldSpan;
    fn advance(&mut self, t: &Tok) {
        self.0 = fold(self.0, t.k, t.seq);
        if t.sess > 0 {
            tracker_callback();
        }
    }
    fn location(&self, index: usize) -> FoldLoc {
        callback();
        FoldLoc(index, self.0)
    }
    fn spanning_to(&self, from: usize, to: &Self, to_index: usize) -> FoldSpan {
        callback();
        FoldSpan(FoldLoc(from, self.0), FoldLoc(to_index, to.0))
    }
}

impl TTr for Fold {
    fn start(variant: u32) -> Self {
        if variant == 0 {
            Fold::default()
        } else {
            Fold(mix(variant as u64 + 100))
        }
    }
    fn table(variant: u32, toks: &[(K, u32)]) -> Vec<Loc> {
        let mut h = Self::start(variant).0;
        let mut out = vec![Loc { idx: 0, a: h, b: 0, c: 0 }];
        for (i, (k, s)) in toks.iter().enumerate() {
            h = fold(h, *k, *s);
            out.push(Loc { idx: i + 1, a: h, b: 0, c: 0 });
        }
        out
    }
    fn loc(l: &FoldLoc) -> Loc {
        Loc { idx: l.0, a: l.1, b: 0, c: 0 }
    }
    fn span(s: &FoldSpan) -> Span {
        (Self::loc(&s.0), Self::loc(&s.1))
    }
    fn default_stream(src: SimSource) -> Result<Stream<'static, Tok, Self>, SimSource> {
        Ok(Stream::new(src))
    }
    fn default_entry<E: TErr<Trk = Self>>(p: &BP<E>, src: SimSource, which: usize) -> EntryOut {
        default_entries(p, src, which)
    }
    const NAME: &'static str = "custom (order-sensitive hash)";
}

// ------------------------------------------------------------- error types

pub type Tr<E> = <E as Error<'static, Tok>>::LocationTracker;
pub type SpanOf<E> = <Tr<E> as Tracker<Tok>>::Span;

/// An error type the simulated sessions use.
pub trait TErr: Error<'static, Tok, LocationTracker = Self::Trk> + Clone + 'static {
    type Trk: TTr<Location = Self::L, Span = Self::S>;
    type L: Clone + PartialEq + 'static;
    type S: Clone + PartialEq + 'static;
    const VOID: bool;
    const NAME: &'static str;
    fn norm(&self) -> NErr;
    /// What the error-mapping functions of the simulated grammars do.
    fn tagged(self, tag: u32) -> Self;
}

fn norm_at<T: TTr>(at: &At<T::Location, T::Span>) -> NAt {
    match at {
        At::None => NAt::None,
        At::Location(l) => NAt::Loc(T::loc(l)),
        At::Span(s) => NAt::Span(T::span(s)),
    }
}
fn kind_of(t: &Option<Tok>) -> i16 {
    t.as_ref().map(|t| t.k as i16).unwrap_or(-1)
}

impl<T> TErr for error::Simple<Tok, T>
where
    T: TTr,
    T::Location: Clone + 'static,
    T::Span: Clone + 'static,
{
    type Trk = T;
    type L = T::Location;
    type S = T::Span;
    const VOID: bool = false;
    const NAME: &'static str = "error::Simple";
    fn norm(&self) -> NErr {
        match self {
            error::Simple::ExpectedFound(exp, found, at) => NErr::Expected(
                exp.iter().map(kind_of).collect(),
                kind_of(found),
                found.as_ref().map(|t| t.seq).unwrap_or(0),
                norm_at::<T>(at),
            ),
            error::Simple::UnmatchedLeftDelimiter(t, s, at) => {
                NErr::UnmatchedLeft(t.k, t.seq, NAt::Span(T::span(s)), norm_at::<T>(at))
            }
            error::Simple::UnmatchedRightDelimiter(t, s, at) => {
                NErr::UnmatchedRight(t.k, t.seq, NAt::Span(T::span(s)), norm_at::<T>(at))
            }
            error::Simple::UnmatchedDelimiterType(l, ls, r, rs) => {
                NErr::UnmatchedType(l.k, l.seq, NAt::Span(T::span(ls)), r.k, r.seq, NAt::Span(T::span(rs)))
            }
            error::Simple::Custom(m, at) => NErr::Custom(m.clone(), norm_at::<T>(at)),
        }
    }
    fn tagged(self, tag: u32) -> Self {
        match self {
            error::Simple::Custom(m, at) => error::Simple::Custom(format!("{m}+{tag}"), at),
            error::Simple::ExpectedFound(_, _, at) if tag % 2 == 1 => {
                error::Simple::Custom(format!("ef+{tag}"), at)
            }
            e => e,
        }
    }
}

impl TErr for error::Void<Tok> {
    type Trk = location::Simple;
    type L = usize;
    type S = std::ops::Range<usize>;
    const VOID: bool = true;
    const NAME: &'static str = "error::Void";
    fn norm(&self) -> NErr {
        NErr::Void
    }
    fn tagged(self, _: u32) -> Self {
        self
    }
}

/// An error type of the user: wraps another one. Its functions are user code,
/// so sessions may be switched in them and they may unwind, and it insists on
/// being asked to merge only what can be merged.
#[derive(Clone)]
pub struct UserErr<E>(pub E);

impl<E: TErr> error::Fallback for UserErr<E> {
    fn simple<M: ToString>(msg: M) -> Self {
        callback();
        UserErr(E::simple(msg))
    }
}

type AtOf<E> = At<<Tr<E> as Tracker<Tok>>::Location, SpanOf<E>>;

impl<E: TErr> Error<'static, Tok> for UserErr<E> {
    type LocationTracker = E::Trk;
    fn expected_found<J: IntoIterator<Item = Option<Tok>>>(expected: J, found: Option<Tok>, at: AtOf<E>) -> Self {
        callback();
        UserErr(E::expected_found(expected, found, at))
    }
    fn merge_expected_found(&mut self, other: &Self) {
        callback();
        if !self.0.is_expected_found() || !other.0.is_expected_found() || self.0.location() != other.0.location() {
            self.0 = E::custom("merged with an error that it cannot be merged with", At::None);
        } else {
            self.0.merge_expected_found(&other.0);
        }
    }
    fn is_expected_found(&self) -> bool {
        callback();
        self.0.is_expected_found()
    }
    fn location(&self) -> At<&E::L, &E::S> {
        callback();
        self.0.location()
    }
    fn unmatched_left_delimiter(t: Tok, s: SpanOf<E>, before: AtOf<E>) -> Self {
        callback();
        UserErr(E::unmatched_left_delimiter(t, s, before))
    }
    fn unmatched_right_delimiter(t: Tok, s: SpanOf<E>, before: AtOf<E>) -> Self {
        callback();
        UserErr(E::unmatched_right_delimiter(t, s, before))
    }
    fn unmatched_delimiter_type(l: Tok, ls: SpanOf<E>, r: Tok, rs: SpanOf<E>) -> Self {
        callback();
        UserErr(E::unmatched_delimiter_type(l, ls, r, rs))
    }
    fn custom<M: ToString>(msg: M, at: AtOf<E>) -> Self {
        callback();
        UserErr(E::custom(msg, at))
    }
}

impl<E: TErr> TErr for UserErr<E> {
    type Trk = E::Trk;
    type L = E::L;
    type S = E::S;
    const VOID: bool = E::VOID;
    const NAME: &'static str = "custom (fallible)";
    fn norm(&self) -> NErr {
        self.0.norm()
    }
    fn tagged(self, tag: u32) -> Self {
        UserErr(self.0.tagged(tag))
    }
}

pub fn tag_err(e: NErr, tag: u32) -> NErr {
    match e {
        NErr::Custom(m, at) => NErr::Custom(format!("{m}+{tag}"), at),
        NErr::Expected(_, _, _, at) if tag % 2 == 1 => NErr::Custom(format!("ef+{tag}"), at),
        e => e,
    }
}

pub fn nspan<E: TErr>(s: &SpanOf<E>) -> Span {
    <E::Trk as TTr>::span(s)
}
