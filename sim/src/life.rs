//! The life of recursive definitions: parsers that use declared definitions
//! are in use by sessions while other tasks compete to define them, in every
//! order that the scheduler comes up with. Using what is not defined yet and
//! defining again are the faults injected here; both have to be refused, and
//! must leave everything else as it is.

use crate::build::*;
use crate::gram::*;
use crate::norm::*;
use crate::source::*;
use crate::tok::*;
use crate::world::*;
use pp::parser::{Parser, Result as PR};
use pp::recursive::Recursive;
use pp::stream::Stream;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// Which of the competing definitions came first.
pub type Ghost = Rc<Cell<Option<usize>>>;

/// What a panic says, if it says anything.
fn message(p: &(dyn std::any::Any + Send)) -> Option<String> {
    let s = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned());
    s.filter(|s| !s.trim().is_empty())
}

/// A use of a definition. Knows whether it may be used.
pub struct Watch<E: TErr> {
    pub inner: Recursive<'static, Tok, Val, E>,
    pub ghost: Ghost,
    pub which: usize,
    /// Uses a new clone of the handle each time.
    pub fresh: bool,
}

impl<E: TErr> Parser<'static, Tok> for Watch<E> {
    type Output = Val;
    type Error = E;
    fn parse_internal(&self, stream: &mut Stream<'static, Tok, E::Trk>, rec: bool) -> PR<Val, E> {
        let go = |stream: &mut Stream<'static, Tok, E::Trk>| {
            if self.fresh {
                self.inner.clone().parse_internal(stream, rec)
            } else {
                self.inner.parse_internal(stream, rec)
            }
        };
        if self.ghost.get().is_some() {
            return go(stream);
        }
        let at = stream.index();
        match catch_unwind(AssertUnwindSafe(|| go(stream))) {
            Ok(r) => {
                violation(Class::Misuse, || {
                    format!("parsing at {at} with definition {}, which is declared but not defined, gives {:?}", self.which, norm_res(&r))
                });
                r
            }
            Err(p) if p.is::<Hang>() || p.is::<SimFault>() => resume_unwind(p),
            Err(p) => {
                fault(F::undefined_parse);
                match message(&*p) {
                    Some(m) => event(300 + self.which as u64, || format!("use of undefined definition {} at {at} refused: {m}", self.which)),
                    None => violation(Class::Misuse, || "the use of an undefined definition is refused without a message".into()),
                }
                note_unwind();
                panic_any(SimFault)
            }
        }
    }
}

/// Tries to define at some time, and perhaps again.
pub struct Definer<E: TErr> {
    pub rec: Recursive<'static, Tok, Val, E>,
    pub ghost: Ghost,
    pub which: usize,
    /// What is offered, and what it is known as.
    pub offers: Vec<(usize, BP<E>)>,
    /// Steps to let pass before each.
    pub wait: Vec<usize>,
    pub through_clone: bool,
}

/// One attempt to define; all of them are judged the same way.
fn attempt(ghost: &Ghost, which: usize, offer: usize, f: impl FnOnce()) {
    let nested = W.with(|w| w.depth.get()) > 1;
    let r = catch_unwind(AssertUnwindSafe(f));
    // Others may have been faster while this one was on its way.
    let before = ghost.get();
    match r {
        Ok(()) => {
            event(310 + which as u64, || format!("definition {which} is now version {offer}"));
            match before {
                None => {
                    ghost.set(Some(offer));
                    if nested {
                        probe(P::defined_mid_operation);
                    }
                }
                Some(b) => {
                    fault(F::second_definition);
                    violation(Class::Misuse, || format!("definition {which} was made as version {b} and then again as version {offer}"))
                }
            }
        }
        Err(p) if p.is::<Hang>() || p.is::<SimFault>() => resume_unwind(p),
        Err(p) => {
            let m = message(&*p);
            event(320 + which as u64, || format!("definition {which} as version {offer} is refused: {m:?}"));
            if before.is_none() {
                violation(Class::Misuse, || format!("the first definition of {which} (version {offer}) is refused: {m:?}"));
            } else {
                fault(F::second_definition);
                if nested {
                    probe(P::redefined_mid_operation);
                }
                if m.is_none() {
                    violation(Class::Misuse, || "a second definition is refused without a message".into());
                }
            }
        }
    }
}

impl<E: TErr> Sess for Definer<E> {
    fn step(&mut self) {
        match self.wait.last_mut() {
            Some(0) | None => {
                self.wait.pop();
                if let Some((offer, parser)) = self.offers.pop() {
                    let (rec, clone) = (&mut self.rec, self.through_clone);
                    attempt(&self.ghost, self.which, offer, || {
                        if clone {
                            rec.clone().define(parser)
                        } else {
                            rec.define(parser)
                        }
                    });
                }
            }
            Some(n) => *n -= 1,
        }
    }
    fn done(&self) -> bool {
        self.offers.is_empty()
    }
}

#[derive(Clone, Debug)]
pub enum LOp {
    Parse(bool),
    Skip,
    /// One of the other entry points, on a source of its own.
    Fresh(usize),
}

/// What an operation comes to; a use that is refused leaves nothing.
#[derive(Clone, PartialEq, Debug)]
pub enum Did {
    Parsed(Res, usize),
    Skipped(usize),
    Entered(Vec<Res>),
    Short(Result<Val, NErr>),
    Hung,
}

/// A session that tries again later what is refused now.
pub struct LifeSess<E: TErr> {
    pub sess: u16,
    pub parser: Rc<BP<E>>,
    pub plan: Rc<Plan>,
    pub variant: u32,
    pub ops: Vec<LOp>,
    pub at: usize,
    pub patience: usize,
    pub stream: Stream<'static, Tok, E::Trk>,
    pub out: Rc<RefCell<Vec<Did>>>,
    pub finished: bool,
}

impl<E: TErr> LifeSess<E> {
    #[allow(clippy::too_many_arguments)]
    pub fn new(sess: u16, parser: &Rc<BP<E>>, plan: &Rc<Plan>, variant: u32, ops: &[LOp], patience: usize, out: &Rc<RefCell<Vec<Did>>>) -> Self {
        let (src, _) = SimSource::new(plan, sess);
        LifeSess {
            sess,
            parser: parser.clone(),
            plan: plan.clone(),
            variant,
            ops: ops.to_vec(),
            at: 0,
            patience,
            stream: Stream::new_with_location(src, E::Trk::start(variant)),
            out: out.clone(),
            finished: false,
        }
    }
    fn fresh(&self, which: usize) -> Did {
        let (src, _) = SimSource::new(&self.plan, self.sess);
        let start = E::Trk::start(self.variant);
        match which {
            0 => Did::Entered(vec![norm_res(&self.parser.parse_with_recovery_and_location(src, start))]),
            1 => Did::Short(self.parser.parse_with_location(src, start).map_err(|e| e.norm())),
            _ => Did::Entered(self.parser.stream_with_location(src, start).take(4).map(|r| norm_res(&r)).collect()),
        }
    }
}

impl<E: TErr> Sess for LifeSess<E> {
    fn step(&mut self) {
        if self.at >= self.ops.len() {
            self.finished = true;
            return;
        }
        let op = self.ops[self.at].clone();
        let saved = self.stream.save();
        let r = guarded(10_000, || match &op {
            LOp::Parse(rec) => {
                let r = norm_res(&self.parser.parse_internal(&mut self.stream, *rec));
                Did::Parsed(r, self.stream.index())
            }
            LOp::Skip => {
                self.stream.advance();
                Did::Skipped(self.stream.index())
            }
            LOp::Fresh(which) => self.fresh(*which),
        });
        match r {
            Caught::Done(d) => {
                event(330 + self.sess as u64, || format!("s{} {op:?} -> {d:?}", self.sess));
                self.at += 1;
                self.out.borrow_mut().push(d);
            }
            Caught::Fault => {
                event(340 + self.sess as u64, || format!("s{} {op:?} is refused; again later", self.sess));
                self.stream.restore(&saved);
                probe(P::op_unwound);
                if self.patience == 0 {
                    fault(F::session_abandoned);
                    self.finished = true;
                } else {
                    self.patience -= 1;
                }
            }
            Caught::Hang => {
                self.out.borrow_mut().push(Did::Hung);
                self.finished = true;
            }
            Caught::Panic(m) => {
                self.finished = true;
                violation(Class::Misuse, || format!("{op:?} panics although every definition it uses is made: {m}"));
            }
        }
    }
    fn done(&self) -> bool {
        self.finished
    }
}

/// Everything that is offered for the definitions: the first of each belongs
/// to the grammar.
pub struct Offers {
    pub offers: Vec<Vec<G>>,
    pub root: G,
}

struct Setup<E: TErr> {
    handles: Vec<Recursive<'static, Tok, Val, E>>,
    ghosts: Vec<Ghost>,
}

impl<E: TErr> Setup<E> {
    fn build(&self, g: &G) -> BP<E> {
        build_with(&self.handles, &self.ghosts, g)
    }
}

#[derive(Clone, Debug)]
pub struct SessPlan {
    pub plan: Rc<Plan>,
    pub variant: u32,
    pub ops: Vec<LOp>,
    pub patience: usize,
}

/// Runs the sessions among competing definers, and again on their own with a
/// parser whose definitions were made properly.
pub fn run<E: TErr>(o: &Offers, sessions: &[SessPlan]) {
    let n = o.offers.len();
    let s: Setup<E> = Setup {
        handles: (0..n).map(|_| Recursive::declare()).collect(),
        ghosts: (0..n).map(|_| Rc::new(Cell::new(None))).collect(),
    };
    let add = |x: Box<dyn Sess>| W.with(|w| w.sessions.borrow_mut().push(Some(x)));
    let outs: Vec<Rc<RefCell<Vec<Did>>>> = sessions.iter().map(|_| Rc::default()).collect();
    let start = |s: &Setup<E>| {
        let root = Rc::new(s.build(&o.root));
        for (i, p) in sessions.iter().enumerate() {
            add(Box::new(LifeSess::<E>::new(i as u16 + 1, &root, &p.plan, p.variant, &p.ops, p.patience, &outs[i])));
        }
        for i in 0..n {
            let mut todo: Vec<usize> = (0..o.offers[i].len()).collect();
            while !todo.is_empty() {
                // Several of them at one definer, or competing ones.
                let k = gen(|c| c.range(1, todo.len()));
                let mine: Vec<usize> = todo.drain(..k).collect();
                let offers = mine.iter().map(|j| (*j, s.build(&o.offers[i][*j]))).collect();
                let (wait, clone) = gen(|c| ((0..mine.len()).map(|_| [0, 1, 3, 10][c.below(4)]).collect(), c.chance(1, 2)));
                add(Box::new(Definer { rec: s.handles[i].clone(), ghost: s.ghosts[i].clone(), which: i, offers, wait, through_clone: clone }));
            }
        }
    };
    let ghosts = s.ghosts.clone();
    let closure = gen(|c| c.chance(1, 3));
    if closure {
        // Definition 0 is made by the closure form, in which everything else
        // goes on already.
        let steps = gen(|c| c.below(12));
        let version = usize::MAX;
        let mut s = s;
        event(350, || format!("definition 0 is built in a closure, {steps} steps go on in it"));
        attempt(&ghosts[0], 0, version, || {
            let r = pp::recursive::recursive(|r: &Recursive<'static, Tok, Val, E>| {
                s.handles[0] = r.clone();
                start(&s);
                for _ in 0..steps {
                    run_one(Seam::Callback);
                }
                s.build(&o.offers[0][0])
            });
            drop(r);
        });
        event(351, || "the closure form is through".into());
    } else {
        start(&s);
        // The declarations need not outlive the parsers made of them.
        drop(s);
    }
    while run_one(Seam::Poll) {
        if W.with(|w| w.viol.borrow().len()) >= 48 {
            break;
        }
    }
    W.with(|w| w.sessions.borrow_mut().clear());
    // The same, each alone, with what came first (of those that came at all).
    W.with(|w| w.preempt.set(0));
    let s: Setup<E> = Setup {
        handles: (0..n).map(|_| Recursive::declare()).collect(),
        ghosts: (0..n).map(|_| Rc::new(Cell::new(Some(0)))).collect(),
    };
    for i in 0..n {
        let v = match ghosts[i].get() {
            Some(v) if v != usize::MAX => v,
            _ => 0,
        };
        let p = s.build(&o.offers[i][v]);
        s.handles[i].clone().define(p);
    }
    let root = Rc::new(s.build(&o.root));
    for (i, p) in sessions.iter().enumerate() {
        let want = Rc::default();
        let mut alone = LifeSess::<E>::new(i as u16 + 1, &root, &p.plan, p.variant, &p.ops, 0, &want);
        event(360, || format!("session {} alone, with proper definitions", i + 1));
        while !alone.done() {
            alone.step();
        }
        let (got, want) = (outs[i].borrow(), want.borrow());
        for (k, (g, w)) in got.iter().zip(want.iter()).enumerate() {
            if *g == Did::Hung || *w == Did::Hung {
                break;
            }
            if g != w {
                violation(Class::Misuse, || {
                    format!("operation {k} ({:?}) of session {} gives {g:?}; with each definition made once, as it was first, it gives {w:?}", p.ops[k], i + 1)
                });
                break;
            }
            probe(P::life_op_agrees);
        }
    }
}
