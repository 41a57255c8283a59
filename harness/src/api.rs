//! One interface over the storage modes, results as value ids.

use crate::alloc::tracked;
use crate::val::Tracked;
use masstree::alloc24::SeizeAllocator24;
use masstree::leaf24::LeafNode24;
use masstree::value::{LeafValue, LeafValueIndex};
use masstree::{MassTree, MassTree24Inline, MassTreeGeneric, ValueSlot};
use seize::Collector;

/// Result of one operation. `Err` carries the error or panic text.
pub type Res = Result<Option<u64>, String>;

pub trait Slot: ValueSlot + Send + Sync + 'static {
    fn mk(id: u64) -> Self::Value;
    fn out(o: &Self::Output) -> u64;
    fn by_ref(v: &Self::Value) -> u64;
    /// Are releases of values counted?
    const COUNTED: bool;
    /// Size of the block a value lives in.
    const BLOCK: usize;
    /// Value id behind a raw slot pointer.
    unsafe fn raw(p: *mut u8) -> u64;
}

impl Slot for LeafValue<Tracked> {
    const COUNTED: bool = true;
    const BLOCK: usize = 16 + std::mem::size_of::<Tracked>();
    fn mk(id: u64) -> Tracked {
        Tracked::new(id)
    }
    fn out(o: &Self::Output) -> u64 {
        o.id()
    }
    fn by_ref(v: &Tracked) -> u64 {
        v.id()
    }
    unsafe fn raw(p: *mut u8) -> u64 {
        unsafe { (*(p as *const Tracked)).id() }
    }
}

impl Slot for LeafValueIndex<u64> {
    const COUNTED: bool = false;
    const BLOCK: usize = 8;
    fn mk(id: u64) -> u64 {
        id
    }
    fn out(o: &u64) -> u64 {
        *o
    }
    fn by_ref(v: &u64) -> u64 {
        *v
    }
    unsafe fn raw(p: *mut u8) -> u64 {
        unsafe { *(p as *const u64) }
    }
}

pub type ArcTree = MassTree<Tracked>;
pub type InlineTree = MassTree24Inline<u64>;
pub type Gen<S> = MassTreeGeneric<S, LeafNode24<S>, SeizeAllocator24<S>>;

/// A new tree; `batch` is the number of retired objects that triggers reclamation.
pub trait NewTree: Sized {
    fn mk(batch: usize) -> Self;
}
impl NewTree for ArcTree {
    fn mk(batch: usize) -> Self {
        let mut t = ArcTree::new();
        if batch > 0 {
            t.verif_set_collector(Collector::new().batch_size(batch));
        }
        t
    }
}
impl NewTree for InlineTree {
    fn mk(batch: usize) -> Self {
        let mut t = InlineTree::new();
        if batch > 0 {
            t.verif_set_collector(Collector::new().batch_size(batch));
        }
        t
    }
}

pub fn caught<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    let _c = crate::sched::called();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_else(|| "panic".into());
            Err(format!("panic: {m}"))
        }
    }
}

/// Which entry point performs the operation.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Via {
    Owned,
    Guard,
    Ref,
}

/// What happens in a session.
pub enum Told {
    Enter,
    Call(usize),
    Ret(usize, Res),
    /// a reference that lives as long as the guard
    Ref(u64),
    /// an owned result
    Keep(u64),
    /// expected and seen value behind a reference
    Look(u64, u64),
    Leave,
    Failed(String),
}

/// An owned result of a lookup or insert.
pub struct Kept {
    pub id: u64,
    pub look: Box<dyn Fn() -> u64>,
}
unsafe impl Send for Kept {}

macro_rules! tree_ops {
    ($S:ty) => {
        impl TreeOps for Gen<$S> {
            type S = $S;
            fn ins(&self, via: Via, k: &[u8], id: u64) -> Res {
                caught(|| tracked(|| {
                    let r = if via == Via::Owned {
                        self.insert(k, <$S>::mk(id))
                    } else {
                        let g = self.guard();
                        self.insert_with_guard(k, <$S>::mk(id), &g)
                    };
                    match r {
                        Ok(o) => Ok(o.map(|o| <$S>::out(&o))),
                        Err(e) => Err(crate::alloc::paused(|| format!("error: {e:?}"))),
                    }
                }))
            }
            fn get_via(&self, via: Via, k: &[u8]) -> Res {
                caught(|| tracked(|| {
                    Ok(match via {
                        Via::Owned => self.get(k).map(|o| <$S>::out(&o)),
                        Via::Guard => {
                            let g = self.guard();
                            self.get_with_guard(k, &g).map(|o| <$S>::out(&o))
                        }
                        Via::Ref => {
                            let g = self.guard();
                            self.get_ref(k, &g).map(|v| <$S>::by_ref(v))
                        }
                    })
                }))
            }
            fn session(&self, ops: &[(bool, Via, Vec<u8>, u64)], tell: &mut dyn FnMut(Told)) -> Vec<Kept> {
                use crate::alloc::paused;
                let mut keep: Vec<Kept> = vec![];
                let r = caught(|| tracked(|| {
                    let g = self.guard();
                    paused(|| tell(Told::Enter));
                    let mut refs: Vec<(u64, &<$S as ValueSlot>::Value)> = vec![];
                    for (i, (ins, via, k, id)) in ops.iter().enumerate() {
                        paused(|| tell(Told::Call(i)));
                        let mut new: Option<<$S as ValueSlot>::Output> = None;
                        let mut err = None;
                        let mut rf = None;
                        if *ins {
                            match self.insert_with_guard(k, <$S>::mk(*id), &g) {
                                Ok(o) => new = o,
                                Err(e) => err = Some(paused(|| format!("error: {e:?}"))),
                            }
                        } else if *via == Via::Ref {
                            rf = self.get_ref(k, &g);
                        } else {
                            new = self.get_with_guard(k, &g);
                        }
                        paused(|| {
                            let res = match (&err, rf, &new) {
                                (Some(e), _, _) => Err(e.clone()),
                                (_, Some(v), _) => Ok(Some(<$S>::by_ref(v))),
                                (_, _, Some(o)) => Ok(Some(<$S>::out(o))),
                                _ => Ok(None),
                            };
                            let rid = res.clone().unwrap_or(None).unwrap_or(0);
                            if let Some(v) = rf {
                                refs.push((rid, v));
                            }
                            if new.is_some() && <$S>::COUNTED {
                                tell(Told::Keep(rid));
                            }
                            tell(Told::Ret(i, res));
                            if let Some(o) = new.take() {
                                keep.push(Kept { id: rid, look: Box::new(move || <$S>::out(&o)) });
                            }
                            if rf.is_some() {
                                tell(Told::Ref(rid));
                            }
                            for (id, v) in &refs {
                                tell(Told::Look(*id, <$S>::by_ref(v)));
                            }
                        });
                    }
                    paused(|| {
                        for (id, v) in &refs {
                            tell(Told::Look(*id, <$S>::by_ref(v)));
                        }
                        tell(Told::Leave);
                        drop(refs);
                    });
                    drop(g);
                    Ok(())
                }));
                if let Err(e) = r {
                    tell(Told::Failed(e));
                }
                keep
            }
            fn length(&self) -> usize {
                self.len()
            }
            fn empty(&self) -> bool {
                self.is_empty()
            }
            fn root(&self) -> *mut u8 {
                self.verif_root_ptr()
            }
        }
    };
}

pub trait TreeOps: Send + Sync + NewTree {
    type S: Slot;
    fn ins(&self, via: Via, k: &[u8], id: u64) -> Res;
    fn get_via(&self, via: Via, k: &[u8]) -> Res;
    /// Operations under one guard: references are looked at again and again until it is dropped,
    /// owned results are handed back to be kept for as long as the caller likes.
    fn session(&self, ops: &[(bool, Via, Vec<u8>, u64)], tell: &mut dyn FnMut(Told)) -> Vec<Kept>;
    fn length(&self) -> usize;
    fn empty(&self) -> bool;
    fn root(&self) -> *mut u8;
}
tree_ops!(LeafValue<Tracked>);
tree_ops!(LeafValueIndex<u64>);
