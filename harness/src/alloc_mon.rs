//! Allocator monitor: every heap event of this thread is counted.  The counts
//! are the deterministic "logical steps" the resource oracles decide on.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

pub struct Mon;

thread_local! {
    static EVENTS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

/// Events, allocated bytes, live bytes of this thread.
#[derive(Clone, Copy, Debug, Default)]
pub struct Snap {
    pub events: u64,
    pub bytes: u64,
    pub live: i64,
}

fn add(n: usize) {
    let _ = EVENTS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
    let _ = LIVE.try_with(|c| {
        c.set(c.get() + n as i64);
        let l = c.get();
        // Deterministic memory bound: no case of the workloads is near it
        if l > 3 << 30 {
            eprintln!("ypmon: memory bound exceeded ({l} live bytes)");
            std::process::abort();
        }
    });
}

fn sub(n: usize) {
    let _ = LIVE.try_with(|c| c.set(c.get() - n as i64));
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        add(n);
        System.realloc(p, l, n)
    }
}

#[cfg(not(feature = "plain-alloc"))]
#[global_allocator]
static GLOBAL: Mon = Mon;

pub fn snap() -> Snap {
    Snap {
        events: EVENTS.with(Cell::get),
        bytes: BYTES.with(Cell::get),
        live: LIVE.with(Cell::get),
    }
}
