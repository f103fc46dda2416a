//! Tokens, and the counting of what is still alive: tokens per session and
//! heap bytes.

use crate::world::{tick, token_seam};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

pub type K = u8;

/// Texts of the token kinds, as seen by the rich location tracker: single
/// characters, a newline, multi-byte characters, a newline in the middle of a
/// token and an empty text.
pub const TEXT: [&str; 16] = [
    "a", "b", "\u{1f600}\n\n\u{e9}\u{301}", "\r\n", ",", ";", "(", ")", "[", "]", "|", "\n", "\u{e9}\t!", "x\n\u{20ac}\u{2028}y", "", "#",
];
pub const KINDS: usize = TEXT.len();
pub const SEMI: K = 5;
pub const LP: K = 6;
pub const RP: K = 7;
pub const LB: K = 8;
pub const RB: K = 9;
pub const BAR: K = 10;
pub const HASH: K = 15;

pub fn name(k: K) -> String {
    format!("{:?}", TEXT[k as usize % KINDS])
}
pub fn names(ks: &[K]) -> String {
    ks.iter().map(|k| TEXT[*k as usize % KINDS].escape_debug().to_string()).collect::<Vec<_>>().join(" ")
}

/// A token. Two tokens are equal if their kinds are; `seq` is the identity
/// (1-based position in its source, 0 for tokens of a grammar), `sess` the
/// session that it is counted for (0: not counted).
pub struct Tok {
    pub k: K,
    pub seq: u32,
    pub sess: u16,
}

thread_local! {
    static LIVE: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
    static HEAP: Cell<i64> = const { Cell::new(0) };
}

fn count(sess: u16, d: i64) {
    if sess > 0 {
        let _ = LIVE.try_with(|l| {
            let mut l = l.borrow_mut();
            if l.len() <= sess as usize {
                l.resize(sess as usize + 1, 0);
            }
            l[sess as usize] += d;
        });
    }
}
/// Number of tokens (including clones) of the session that are still alive.
pub fn live(sess: u16) -> i64 {
    LIVE.with(|l| l.borrow().get(sess as usize).copied().unwrap_or(0))
}
pub fn reset_live() {
    LIVE.with(|l| l.borrow_mut().clear());
}

impl Tok {
    pub const fn of(k: K) -> Tok {
        Tok { k, seq: 0, sess: 0 }
    }
    pub fn from_source(k: K, seq: u32, sess: u16) -> Tok {
        count(sess, 1);
        Tok { k, seq, sess }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        tick();
        if self.sess > 0 {
            token_seam();
        }
        count(self.sess, 1);
        Tok { k: self.k, seq: self.seq, sess: self.sess }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        count(self.sess, -1);
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        if self.sess > 0 || o.sess > 0 {
            token_seam();
        }
        self.k == o.k
    }
}
impl Eq for Tok {}
impl std::hash::Hash for Tok {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.k.hash(h)
    }
}
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}#{}", TEXT[self.k as usize % KINDS].escape_debug(), self.seq)
    }
}

/// Counts the bytes that this thread holds.
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = HEAP.try_with(|h| h.set(h.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = HEAP.try_with(|h| h.set(h.get() - l.size() as i64));
        System.dealloc(p, l)
    }
}
pub fn set_heap(v: i64) {
    HEAP.with(|h| h.set(v))
}
pub fn heap() -> i64 {
    HEAP.with(|h| h.get())
}
