//! Counts the bytes that were allocated while the client's code was running and
//! are still allocated, wherever they are freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

thread_local!(static OWNER: Cell<bool> = const { Cell::new(false) });
static LIVE: AtomicI64 = AtomicI64::new(0);

pub struct Counting;

#[global_allocator]
static GLOBAL: Counting = Counting;

fn pad(l: &Layout) -> usize {
    l.align().max(16)
}

fn outer(l: &Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + pad(l), pad(l)) }
}

unsafe fn tag(p: *mut u8, l: &Layout, size: usize) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let mine = OWNER.try_with(|o| o.get()).unwrap_or(false);
    let q = p.add(pad(l));
    *(q.sub(8) as *mut u64) = mine as u64;
    if mine {
        LIVE.fetch_add(size as i64, Ordering::Relaxed);
    }
    q
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tag(System.alloc(outer(&l)), &l, l.size())
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tag(System.alloc_zeroed(outer(&l)), &l, l.size())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if *(p.sub(8) as *const u64) == 1 {
            LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        }
        System.dealloc(p.sub(pad(&l)), outer(&l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let r = System.realloc(p.sub(pad(&l)), outer(&l), n + pad(&l));
        if r.is_null() {
            return r;
        }
        let q = r.add(pad(&l));
        if *(q.sub(8) as *const u64) == 1 {
            LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        }
        q
    }
}

/// The client's code is running until this is dropped.
pub struct Client(bool);

pub fn client() -> Client {
    Client(OWNER.with(|o| o.replace(true)))
}

impl Drop for Client {
    fn drop(&mut self) {
        let before = self.0;
        OWNER.with(|o| o.set(before));
    }
}

pub fn live() -> i64 {
    LIVE.load(Ordering::Relaxed)
}
