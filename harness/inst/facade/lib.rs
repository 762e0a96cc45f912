//! The C interface of the library as a shared object, with an allocator which watches all
//! allocations: blocks are guarded at both ends, filled with garbage when they are handed out and
//! when they are given back, and kept for a while after that.
pub use basic_dsp_interop::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

const LIVE: u64 = 0x4C49_5645_4C49_5645;
const DEAD: u64 = 0x4445_4144_4445_4144;
const GUARD: u8 = 0xA7;
const KEEP: usize = 2048;
const KEEP_BYTES: usize = 32 << 20;

static BLOCKS: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static DOUBLE: AtomicUsize = AtomicUsize::new(0);
static WILD: AtomicUsize = AtomicUsize::new(0);
static OVERRUN: AtomicUsize = AtomicUsize::new(0);
static WRONG_LAYOUT: AtomicUsize = AtomicUsize::new(0);
static TOUCHED: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Copy)]
struct Kept(*mut u8, usize, usize);
struct Quarantine {
    ring: [Kept; KEEP],
    first: usize,
    n: usize,
    bytes: usize,
}
unsafe impl Send for Quarantine {}
static QUARANTINE: Mutex<Quarantine> =
    Mutex::new(Quarantine { ring: [Kept(std::ptr::null_mut(), 0, 0); KEEP], first: 0, n: 0, bytes: 0 });

struct Watching;
/// magic, size and alignment lie before the block
fn head(align: usize) -> usize {
    align.max(32)
}
unsafe fn meta(p: *mut u8) -> *mut u64 {
    p.sub(24) as *mut u64
}
fn whole(size: usize, align: usize) -> Layout {
    Layout::from_size_align(head(align) + size + 16, align.max(16)).unwrap()
}
unsafe fn guards_intact(p: *mut u8, size: usize) -> bool {
    (0..16).all(|i| *p.add(size + i) == GUARD)
}
unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let base = System.alloc(whole(l.size(), l.align()));
        if base.is_null() {
            return base;
        }
        let p = base.add(head(l.align()));
        let m = meta(p);
        *m = LIVE;
        *m.add(1) = l.size() as u64;
        *m.add(2) = l.align() as u64;
        std::ptr::write_bytes(p, 0xC5, l.size());
        std::ptr::write_bytes(p.add(l.size()), GUARD, 16);
        BLOCKS.fetch_add(1, SeqCst);
        TOTAL.fetch_add(1, SeqCst);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let m = meta(p);
        match *m {
            LIVE => (),
            DEAD => {
                DOUBLE.fetch_add(1, SeqCst);
                return;
            }
            _ => {
                WILD.fetch_add(1, SeqCst);
                return;
            }
        }
        let (size, align) = (*m.add(1) as usize, *m.add(2) as usize);
        if size != l.size() || align != l.align() {
            WRONG_LAYOUT.fetch_add(1, SeqCst);
        }
        if !guards_intact(p, size) {
            OVERRUN.fetch_add(1, SeqCst);
        }
        *m = DEAD;
        std::ptr::write_bytes(p, 0xFD, size);
        BLOCKS.fetch_sub(1, SeqCst);
        let mut out: Option<Kept> = None;
        {
            let mut q = match QUARANTINE.lock() {
                Ok(q) => q,
                Err(e) => e.into_inner(),
            };
            if q.n == KEEP || (q.n > 0 && q.bytes + size > KEEP_BYTES) {
                let k = q.ring[q.first];
                q.first = (q.first + 1) % KEEP;
                q.n -= 1;
                q.bytes -= k.1;
                out = Some(k);
            }
            let at = (q.first + q.n) % KEEP;
            q.ring[at] = Kept(p, size, align);
            q.n += 1;
            q.bytes += size;
        }
        if let Some(Kept(p, size, align)) = out {
            // Nobody must have written to the block since it was given back
            if !(0..size).all(|i| *p.add(i) == 0xFD) || !guards_intact(p, size) {
                TOUCHED.fetch_add(1, SeqCst);
            }
            *meta(p) = 0;
            System.dealloc(p.sub(head(align)), whole(size, align));
        }
    }
}
#[global_allocator]
static ALLOCATOR: Watching = Watching;

/// 0: blocks in use, 1: blocks which were allocated in total, then all kinds of faults
#[no_mangle]
pub extern "C" fn verif_memory(out: &mut [usize; 7]) {
    for (o, c) in out.iter_mut().zip([&BLOCKS, &TOTAL, &DOUBLE, &WILD, &OVERRUN, &WRONG_LAYOUT, &TOUCHED]) {
        *o = c.load(SeqCst);
    }
}
