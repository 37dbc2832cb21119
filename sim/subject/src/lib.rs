//! The instrumented side of the simulation.
//!
//! This crate is compiled with the compiler's thread-sanitizer pass (and without its
//! runtime), exactly like `masstree` and its dependencies, so every instantiation of the
//! generic tree code lives here and every memory access of it reaches the simulator.
//! Each function is a thin non-generic wrapper around one call of the public API; the
//! harness (not instrumented) only handles opaque pointers.

use masstree::tree::InsertError;
use masstree::{MassTree, MassTree24Inline, MassTreeIndex};
use seize::LocalGuard;
use std::sync::Arc;
use std::time::Duration;

unsafe extern "C" {
    /// Implemented by the harness: a `Val` was dropped. `ok` says its contents were intact.
    fn sim_val_dropped(id: u64, ok: bool);
}

const CANARY: u64 = 0x5ca1_ab1e_0ddb_a11d;

/// Value type with an identity, a consistency check and an observable drop.
pub struct Val {
    id: u64,
    a: u64,
    b: u64,
}

impl Val {
    #[inline(never)]
    pub fn new(id: u64) -> Self {
        Val { id, a: id ^ CANARY, b: !id }
    }
    /// (id, intact)
    #[inline(never)]
    pub fn read(p: *const Val) -> (u64, bool) {
        let v = unsafe { &*p };
        (v.id, v.a == v.id ^ CANARY && v.b == !v.id)
    }
}

impl Drop for Val {
    #[inline(never)]
    fn drop(&mut self) {
        let ok = self.a == self.id ^ CANARY && self.b == !self.id;
        unsafe { sim_val_dropped(self.id, ok) };
        self.a = 0;
        self.b = 0;
    }
}

/// Value for the copy-out trees: wide enough that a torn copy is visible.
#[derive(Clone, Copy)]
pub struct Wide([u64; 5]);

impl Wide {
    #[inline(never)]
    pub fn new(id: u64) -> Self {
        Wide([id, !id, id ^ CANARY, id.wrapping_mul(3), id])
    }
    #[inline(never)]
    pub fn decode(&self) -> (u64, bool) {
        let id = self.0[0];
        let w = Wide::new(id);
        (id, w.0 == self.0)
    }
}

/// Run `f`; `None` if it panicked.
fn caught<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
/// What became of an operation that should be refused: it panicked or reported an error
/// (or absence, for a lookup), or it went through.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Refusal {
    Refused,
    Accepted,
}
fn refusal<R>(r: Option<R>, accepted: impl FnOnce(&R) -> bool) -> Refusal {
    match r {
        Some(r) if accepted(&r) => Refusal::Accepted,
        _ => Refusal::Refused,
    }
}
#[inline(never)]
pub fn a_over(t: &ATree, k: &[u8], how: u8, id: u64, g: Option<&LocalGuard<'static>>) -> Refusal {
    match (how, g) {
        (0, None) => refusal(caught(|| t.get(k)), |r| r.is_some()),
        (0, Some(g)) => refusal(caught(|| t.get_ref(k, g).is_some()), |r| *r),
        (_, None) => refusal(caught(|| t.insert(k, Val::new(id))), |r| r.is_ok()),
        (_, Some(g)) => refusal(caught(|| t.insert_with_guard(k, Val::new(id), g)), |r| r.is_ok()),
    }
}
#[inline(never)]
pub fn i_over(t: &ITree, k: &[u8], how: u8, id: u64, g: Option<&LocalGuard<'static>>) -> Refusal {
    match (how, g) {
        (0, None) => refusal(caught(|| t.get(k)), |r| r.is_some()),
        (0, Some(g)) => refusal(caught(|| t.get_ref(k, g).is_some()), |r| *r),
        (_, None) => refusal(caught(|| t.insert(k, Wide::new(id))), |r| r.is_ok()),
        (_, Some(g)) => refusal(caught(|| t.insert_with_guard(k, Wide::new(id), g)), |r| r.is_ok()),
    }
}
#[inline(never)]
pub fn x_over(t: &mut XTree, k: &[u8], how: u8, id: u64) -> Refusal {
    match how {
        0 => refusal(caught(|| t.get(k)), |r| r.is_some()),
        _ => refusal(caught(|| t.insert(k, Wide::new(id))), |r| r.is_ok()),
    }
}

/// Use a guard of another map: `true` if that was refused.
#[inline(never)]
pub fn a_foreign(t: &ATree, k: &[u8], how: u8, id: u64, g: &LocalGuard<'static>) -> bool {
    match how {
        0 => caught(|| t.get_ref(k, g).is_some()).is_none(),
        1 => caught(|| t.get_with_guard(k, g).is_some()).is_none(),
        _ => !matches!(caught(|| t.insert_with_guard(k, Val::new(id), g).is_ok()), Some(true)),
    }
}
#[inline(never)]
pub fn i_foreign(t: &ITree, k: &[u8], how: u8, id: u64, g: &LocalGuard<'static>) -> bool {
    match how {
        0 => caught(|| t.get_ref(k, g).is_some()).is_none(),
        1 => caught(|| t.get_with_guard(k, g).is_some()).is_none(),
        _ => !matches!(caught(|| t.insert_with_guard(k, Wide::new(id), g).is_ok()), Some(true)),
    }
}

pub type ATree = MassTree<Val>;
pub type ITree = MassTree24Inline<Wide>;
pub type XTree = MassTreeIndex<Wide>;

/// Result of an insert: `Ok(None)`, `Ok(Some(id, intact))` or an error text.
pub enum Ins {
    New,
    Replaced(u64, bool),
    Err(String),
}

fn err(e: InsertError) -> Ins {
    Ins::Err(format!("{e:?}"))
}

// ---------------------------------------------------------------- MassTree<V> (Arc values)

#[inline(never)]
pub fn a_new(default: bool) -> *mut ATree {
    Box::into_raw(Box::new(if default { ATree::default() } else { ATree::new() }))
}
/// # Safety
/// `t` came from `a_new` and nobody else uses it.
#[inline(never)]
pub unsafe fn a_free(t: *mut ATree) {
    drop(unsafe { Box::from_raw(t) });
}
#[inline(never)]
pub fn a_guard(t: &'static ATree) -> *mut LocalGuard<'static> {
    Box::into_raw(Box::new(t.guard()))
}
/// # Safety
/// `g` came from one of the guard functions.
#[inline(never)]
pub unsafe fn guard_free(g: *mut LocalGuard<'static>) {
    drop(unsafe { Box::from_raw(g) });
}
#[inline(never)]
pub fn a_get(t: &ATree, k: &[u8]) -> Option<*const Val> {
    t.get(k).map(Arc::into_raw)
}
#[inline(never)]
pub fn a_get_g(t: &ATree, k: &[u8], g: &LocalGuard<'static>) -> Option<*const Val> {
    t.get_with_guard(k, g).map(Arc::into_raw)
}
#[inline(never)]
pub fn a_get_ref(t: &ATree, k: &[u8], g: &LocalGuard<'static>) -> Option<*const Val> {
    t.get_ref(k, g).map(std::ptr::from_ref)
}
#[inline(never)]
pub fn a_insert(t: &ATree, k: &[u8], id: u64) -> (Ins, Option<*const Val>) {
    match t.insert(k, Val::new(id)) {
        Ok(None) => (Ins::New, None),
        Ok(Some(old)) => {
            let p = Arc::into_raw(old);
            let (i, ok) = Val::read(p);
            (Ins::Replaced(i, ok), Some(p))
        }
        Err(e) => (err(e), None),
    }
}
#[inline(never)]
pub fn a_insert_g(t: &ATree, k: &[u8], id: u64, g: &LocalGuard<'static>) -> (Ins, Option<*const Val>) {
    match t.insert_with_guard(k, Val::new(id), g) {
        Ok(None) => (Ins::New, None),
        Ok(Some(old)) => {
            let p = Arc::into_raw(old);
            let (i, ok) = Val::read(p);
            (Ins::Replaced(i, ok), Some(p))
        }
        Err(e) => (err(e), None),
    }
}
/// # Safety
/// `p` is an owned count returned by `a_get*` / `a_insert*`.
#[inline(never)]
pub unsafe fn arc_free(p: *const Val) {
    drop(unsafe { Arc::from_raw(p) });
}
#[inline(never)]
pub fn a_len(t: &ATree) -> usize {
    t.len()
}
#[inline(never)]
pub fn a_is_empty(t: &ATree) -> bool {
    t.is_empty()
}
#[inline(never)]
pub fn a_debug(t: &ATree) -> usize {
    format!("{t:?}").len()
}

// ------------------------------------------------------- MassTree24Inline<V> (copied values)

#[inline(never)]
pub fn i_new(default: bool) -> *mut ITree {
    Box::into_raw(Box::new(if default { ITree::default() } else { ITree::new() }))
}
/// # Safety
/// `t` came from `i_new` and nobody else uses it.
#[inline(never)]
pub unsafe fn i_free(t: *mut ITree) {
    drop(unsafe { Box::from_raw(t) });
}
#[inline(never)]
pub fn i_guard(t: &'static ITree) -> *mut LocalGuard<'static> {
    Box::into_raw(Box::new(t.guard()))
}
#[inline(never)]
pub fn i_get(t: &ITree, k: &[u8]) -> Option<(u64, bool)> {
    t.get(k).map(|w| w.decode())
}
#[inline(never)]
pub fn i_get_g(t: &ITree, k: &[u8], g: &LocalGuard<'static>) -> Option<(u64, bool)> {
    t.get_with_guard(k, g).map(|w| w.decode())
}
#[inline(never)]
pub fn i_get_ref(t: &ITree, k: &[u8], g: &LocalGuard<'static>) -> Option<*const Wide> {
    t.get_ref(k, g).map(std::ptr::from_ref)
}
#[inline(never)]
pub fn i_read_ref(p: *const Wide) -> (u64, bool) {
    unsafe { &*p }.decode()
}
#[inline(never)]
pub fn i_insert(t: &ITree, k: &[u8], id: u64) -> Ins {
    match t.insert(k, Wide::new(id)) {
        Ok(None) => Ins::New,
        Ok(Some(w)) => {
            let (i, ok) = w.decode();
            Ins::Replaced(i, ok)
        }
        Err(e) => err(e),
    }
}
#[inline(never)]
pub fn i_insert_g(t: &ITree, k: &[u8], id: u64, g: &LocalGuard<'static>) -> Ins {
    match t.insert_with_guard(k, Wide::new(id), g) {
        Ok(None) => Ins::New,
        Ok(Some(w)) => {
            let (i, ok) = w.decode();
            Ins::Replaced(i, ok)
        }
        Err(e) => err(e),
    }
}
#[inline(never)]
pub fn i_len(t: &ITree) -> usize {
    t.len()
}
#[inline(never)]
pub fn i_is_empty(t: &ITree) -> bool {
    t.is_empty()
}

// ------------------------------------------------------------------------- MassTreeIndex<V>

#[inline(never)]
pub fn x_new(default: bool) -> *mut XTree {
    Box::into_raw(Box::new(if default { XTree::default() } else { XTree::new() }))
}
/// # Safety
/// `t` came from `x_new` and nobody else uses it.
#[inline(never)]
pub unsafe fn x_free(t: *mut XTree) {
    drop(unsafe { Box::from_raw(t) });
}
#[inline(never)]
pub fn x_get(t: &XTree, k: &[u8]) -> Option<(u64, bool)> {
    t.get(k).map(|w| w.decode())
}
#[inline(never)]
pub fn x_insert(t: &mut XTree, k: &[u8], id: u64) -> Ins {
    match t.insert(k, Wide::new(id)) {
        Ok(None) => Ins::New,
        Ok(Some(w)) => {
            let (i, ok) = w.decode();
            Ins::Replaced(i, ok)
        }
        Err(e) => err(e),
    }
}
#[inline(never)]
pub fn x_len(t: &XTree) -> usize {
    t.len()
}
#[inline(never)]
pub fn x_is_empty(t: &XTree) -> bool {
    t.is_empty()
}

// ------------------------------------------------------------------- version lock primitives

pub mod ver {
    use super::*;
    use masstree::nodeversion::NodeVersion;
    use std::cell::UnsafeCell;
    use std::sync::atomic::{AtomicU64, Ordering};

    /// A version word protecting four words the way a tree node does: writers change the
    /// words under the lock, readers copy them optimistically and validate.
    pub struct Cell {
        pub ver: NodeVersion,
        words: [AtomicU64; 4],
        /// Plain data only ever touched while holding the lock.
        plain: UnsafeCell<[u64; 4]>,
    }
    unsafe impl Sync for Cell {}

    pub enum How {
        Lock,
        TryLock,
        TryLockFor(u64),
        LockYield,
    }
    #[derive(Clone, Copy, PartialEq)]
    pub enum Mark {
        Nothing,
        Insert,
        Split,
    }

    #[inline(never)]
    pub fn new(leaf: bool) -> *mut Cell {
        Box::into_raw(Box::new(Cell {
            ver: NodeVersion::new(leaf),
            words: [const { AtomicU64::new(0) }; 4],
            plain: UnsafeCell::new([0; 4]),
        }))
    }
    /// # Safety
    /// `c` came from `new`.
    #[inline(never)]
    pub unsafe fn free(c: *mut Cell) {
        drop(unsafe { Box::from_raw(c) });
    }

    /// Try to enter the critical section and write `id` everywhere. Returns None when the
    /// lock was not obtained, otherwise what the plain words held before (all equal if the
    /// exclusion works) and whether the atomic words agreed with them.
    #[inline(never)]
    pub fn write(c: &Cell, how: How, mark: Mark, id: u64, n: usize) -> Option<(u64, bool)> {
        let mut g = match how {
            How::Lock => c.ver.lock(),
            How::TryLock => c.ver.try_lock()?,
            How::TryLockFor(us) => c.ver.try_lock_for(Duration::from_micros(us))?,
            How::LockYield => c.ver.lock_with_yield(),
        };
        if mark == Mark::Insert {
            g.mark_insert();
        } else if mark == Mark::Split {
            g.mark_split();
        }
        let p = unsafe { &mut *c.plain.get() };
        let before = p[0];
        let mut ok = p.iter().all(|x| *x == before);
        if mark != Mark::Nothing {
            for i in 0..n.min(4) {
                ok &= c.words[i].load(Ordering::Relaxed) == before;
                p[i] = id;
                c.words[i].store(id, Ordering::Release);
            }
            for i in n.min(4)..4 {
                p[i] = id;
                c.words[i].store(id, Ordering::Release);
            }
        }
        drop(g);
        Some((before, ok))
    }

    /// One optimistic read attempt: (version before, values agree, value, validated).
    #[inline(never)]
    pub fn read(c: &Cell) -> (u32, bool, u64, bool) {
        let v = c.ver.stable();
        let a: [u64; 4] = std::array::from_fn(|i| c.words[i].load(Ordering::Acquire));
        let changed = c.ver.has_changed_or_locked(v);
        (v, a.iter().all(|x| *x == a[0]), a[0], !changed)
    }
    #[inline(never)]
    pub fn has_changed(c: &Cell, old: u32) -> bool {
        c.ver.has_changed(old)
    }
    #[inline(never)]
    pub fn has_split(c: &Cell, old: u32) -> bool {
        c.ver.has_split(old)
    }
    #[inline(never)]
    pub fn stable(c: &Cell) -> u32 {
        c.ver.stable()
    }
    #[inline(never)]
    pub fn is_dirty_bits(v: u32) -> bool {
        NodeVersion::from_value(v).is_dirty() || NodeVersion::from_value(v).is_locked()
    }
}

/// A leaf node on its own, used through its public trait: entries are published by claiming a slot
/// and exchanging the permutation, and a lock holder freezes the permutation to take entries out.
pub mod leaf {
    use masstree::leaf_trait::{FreezeGuardOps, TreeLeafNode, TreePermutation};
    use masstree::{LeafNode24, LeafValueIndex};

    pub type Leaf = LeafNode24<LeafValueIndex<u64>>;
    type Perm = <Leaf as TreeLeafNode<LeafValueIndex<u64>>>::Perm;
    const WIDTH: usize = <Leaf as TreeLeafNode<LeafValueIndex<u64>>>::WIDTH;

    fn token(id: u64) -> *mut u8 {
        std::ptr::without_provenance_mut(id as usize * 16)
    }
    fn ident(p: *mut u8) -> u64 {
        p.addr() as u64 / 16
    }
    pub fn ikey_of(id: u64) -> u64 {
        id.wrapping_mul(0x9e37_79b9_7f4a_7c15)
    }

    #[inline(never)]
    pub fn new() -> *mut Leaf {
        Box::into_raw(<Leaf as TreeLeafNode<_>>::new_boxed())
    }
    /// # Safety
    /// `l` came from `new`.
    #[inline(never)]
    pub unsafe fn free(l: *mut Leaf) {
        let b = unsafe { Box::from_raw(l) };
        for i in 0..WIDTH {
            TreeLeafNode::set_leaf_value_ptr(&*b, i, std::ptr::null_mut());
        }
        drop(b);
    }

    /// What became of an attempt to publish.
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum Pub {
        Done,
        /// The node or the permutation changed, or every slot was taken.
        Changed,
        Frozen,
        /// The slot did not stay with its claimant.
        Stolen,
    }

    /// Publish `id` at position `pos` (or nearest): claim a slot, write its key, exchange the
    /// permutation.
    #[inline(never)]
    pub fn publish(l: &Leaf, id: u64, pos: usize) -> Pub {
        let v = TreeLeafNode::version(l).stable();
        let Ok(perm) = TreeLeafNode::permutation_try(l) else { return Pub::Frozen };
        let size = perm.size();
        let free = WIDTH - size;
        let Some(off) = (0..free).find(|o| TreeLeafNode::load_slot_value(l, perm.back_at_offset(*o)).is_null()) else {
            return Pub::Changed;
        };
        let slot = perm.back_at_offset(off);
        let at = pos.min(size);
        let mut new = perm;
        if off != 0 {
            new.swap_free_slots(WIDTH - 1, WIDTH - 1 - off);
        }
        let got = new.insert_from_back(at);
        assert_eq!(got, slot, "the permutation handed out another slot");
        let nil = std::ptr::null_mut();
        let mine = token(id);
        if TreeLeafNode::cas_slot_value(l, slot, nil, mine).is_err() {
            return Pub::Changed;
        }
        if !TreeLeafNode::version(l).has_changed_or_locked(v) {
            unsafe { TreeLeafNode::store_key_data_for_cas(l, slot, ikey_of(id), 8) };
            if TreeLeafNode::load_slot_value(l, slot) != mine {
                return Pub::Stolen;
            }
            if !TreeLeafNode::version(l).has_changed_or_locked(v) {
                match TreeLeafNode::cas_permutation_raw(l, perm, new) {
                    Ok(()) => return Pub::Done,
                    Err(f) => {
                        if TreeLeafNode::cas_slot_value(l, slot, mine, nil).is_err() {
                            return Pub::Stolen;
                        }
                        return if f.is_frozen() { Pub::Frozen } else { Pub::Changed };
                    }
                }
            }
        }
        if TreeLeafNode::cas_slot_value(l, slot, mine, nil).is_err() {
            return Pub::Stolen;
        }
        Pub::Changed
    }

    fn entries(l: &Leaf, perm: &Perm) -> Vec<(u64, u64)> {
        (0..perm.size())
            .map(|i| {
                let s = perm.get(i);
                (TreeLeafNode::ikey(l, s), ident(TreeLeafNode::leaf_value_ptr(l, s)))
            })
            .collect()
    }

    /// All (key, identity) pairs in order, if nothing changed meanwhile.
    #[inline(never)]
    pub fn find(l: &Leaf, wait: bool) -> Option<Vec<(u64, u64)>> {
        let v = TreeLeafNode::version(l).stable();
        let perm = if wait { TreeLeafNode::permutation_wait(l) } else { TreeLeafNode::permutation_try(l).ok()? };
        let e = entries(l, &perm);
        (!TreeLeafNode::version(l).has_changed_or_locked(v)).then_some(e)
    }

    /// Freeze; look twice; take the last `n` entries out, or let the guard put everything back.
    /// Returns (entries, entries looked at again, identities taken out, whether it was frozen
    /// throughout).
    #[inline(never)]
    pub fn cut(l: &Leaf, n: usize, back: bool) -> (Vec<(u64, u64)>, Vec<(u64, u64)>, Vec<u64>, bool) {
        let mut g = TreeLeafNode::version(l).lock();
        g.mark_split();
        let f = TreeLeafNode::freeze_permutation(l);
        let snap = f.snapshot();
        let mut frozen = TreeLeafNode::is_permutation_frozen(l) && TreeLeafNode::permutation_try(l).is_err();
        let a = entries(l, &snap);
        frozen &= <Perm as TreePermutation>::is_frozen_raw(TreeLeafNode::permutation_raw(l));
        let b = entries(l, &snap);
        frozen &= TreeLeafNode::is_permutation_frozen(l);
        let mut out = Vec::new();
        if back {
            drop(f);
        } else {
            let keep = snap.size().saturating_sub(n);
            for i in keep..snap.size() {
                let s = snap.get(i);
                out.push(ident(TreeLeafNode::leaf_value_ptr(l, s)));
                TreeLeafNode::set_leaf_value_ptr(l, s, std::ptr::null_mut());
            }
            let mut new = snap;
            new.set_size(keep);
            TreeLeafNode::unfreeze_set_permutation(l, f, new);
        }
        drop(g);
        (a, b, out, frozen)
    }

    /// With nobody active: the entries, and how many free slots are still claimed.
    #[inline(never)]
    pub fn rest(l: &Leaf) -> Option<(Vec<(u64, u64)>, usize)> {
        let perm = TreeLeafNode::permutation_try(l).ok()?;
        let used: Vec<usize> = (0..perm.size()).map(|i| perm.get(i)).collect();
        let left = (0..WIDTH).filter(|s| !used.contains(s) && !TreeLeafNode::load_slot_value(l, *s).is_null()).count();
        Some((entries(l, &perm), left))
    }
}
