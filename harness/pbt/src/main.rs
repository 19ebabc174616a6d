mod bad;
mod dims;
mod misc;
mod one;
mod rel;
mod smooth;
mod stack;
mod threads;
mod units;
mod uut;
mod values;

use std::alloc::{GlobalAlloc, Layout, System};
use vcore::problem::{ALLOCS, INSIDE};

/// Counts allocator calls made while library code runs on the calling thread.
struct Counting;
#[inline]
fn note() {
    let _ = INSIDE.try_with(|i| {
        if i.get() {
            let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note();
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note();
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note();
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note();
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;

fn main() {
    let mut props = vec![];
    props.extend(values::props());
    props.extend(smooth::props());
    props.extend(rel::props());
    props.extend(bad::props());
    props.extend(misc::props());
    props.extend(one::props());
    props.extend(stack::props());
    props.extend(threads::props());
    props.extend(dims::props());
    std::process::exit(vcore::drive::main(props));
}
