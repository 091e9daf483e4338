//! What an operation takes: memory, and calls of the concrete types.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<i64> = const { Cell::new(0) };
    static SER: Cell<[u32; 9]> = const { Cell::new([0; 9]) };
    static DE: Cell<[u32; 9]> = const { Cell::new([0; 9]) };
    static NODES: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

struct Count;
#[global_allocator]
static A: Count = Count;

/// More than this is only reserved: a length that somebody made up need not be there to be counted.
const HUGE: usize = 256 << 20;
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
}

fn took(n: usize) {
    let n = n as i64;
    let l = LIVE.with(|l| {
        l.set(l.get() + n);
        l.get()
    });
    PEAK.with(|p| p.set(p.get().max(l)));
    TOTAL.with(|t| t.set(t.get() + n));
}
fn gave(n: usize) {
    LIVE.with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        took(l.size());
        if l.size() > HUGE {
            // PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
            let p = mmap(std::ptr::null_mut(), l.size(), 3, 0x4022, -1, 0);
            return if p as isize == -1 { std::ptr::null_mut() } else { p };
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        gave(l.size());
        if l.size() > HUGE {
            munmap(p, l.size());
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HUGE {
            return self.alloc(l);
        }
        took(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if l.size() > HUGE || new > HUGE {
            let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            return q;
        }
        gave(l.size());
        took(new);
        System.realloc(p, l, new)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Took {
    /// Bytes still held.
    pub held: i64,
    /// The most that was held at once.
    pub peak: i64,
    /// Everything that was asked for.
    pub total: i64,
    /// Calls of `Serialize` and `Deserialize` of each registered type.
    pub ser: [u32; 9],
    pub de: [u32; 9],
    /// Calls of `Serialize` and `Deserialize` of any part of a value.
    pub nodes: (u64, u64),
}

pub fn ser(i: usize) {
    SER.with(|s| {
        let mut v = s.get();
        v[i] += 1;
        s.set(v);
    });
}
pub fn de(i: usize) {
    DE.with(|s| {
        let mut v = s.get();
        v[i] += 1;
        s.set(v);
    });
}
pub fn node_ser() {
    NODES.with(|n| n.set((n.get().0 + 1, n.get().1)));
}
pub fn node_de() {
    NODES.with(|n| n.set((n.get().0, n.get().1 + 1)));
}

/// Starts a measurement.
pub fn start() -> i64 {
    let l = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l));
    TOTAL.with(|t| t.set(0));
    SER.with(|s| s.set([0; 9]));
    DE.with(|s| s.set([0; 9]));
    NODES.with(|n| n.set((0, 0)));
    l
}
pub fn took_since(l: i64) -> Took {
    Took {
        held: LIVE.with(|l| l.get()) - l,
        peak: PEAK.with(|p| p.get()) - l,
        total: TOTAL.with(|t| t.get()),
        ser: SER.with(|s| s.get()),
        de: DE.with(|s| s.get()),
        nodes: NODES.with(|n| n.get()),
    }
}
