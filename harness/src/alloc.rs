//! Global allocator: the executor's heap when checking, a guarding allocator when replaying.
use std::alloc::{GlobalAlloc, Layout};

pub struct Heap;

#[cfg(not(feature = "replay"))]
mod imp {
    use super::*;
    extern "C" {
        fn __sym_alloc(size: usize, align: usize) -> *mut u8;
        fn __sym_dealloc(ptr: *mut u8, size: usize, align: usize);
    }
    unsafe impl GlobalAlloc for Heap {
        #[inline]
        unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
            __sym_alloc(layout.size(), layout.align())
        }
        #[inline]
        unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
            __sym_dealloc(ptr, layout.size(), layout.align())
        }
    }
}


/// Replaying natively: every allocation lies on pages of its own, right before an inaccessible one, and freed
/// pages stay inaccessible, so that invalid accesses trap; frees are checked against the allocations.
/// As the number of mappings is limited, allocations beyond that lie in common pages, between canaries, and are
/// overwritten when they are freed.
#[cfg(feature = "replay")]
pub mod imp {
    use super::*;
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    extern "C" {
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
        fn madvise(a: *mut u8, n: usize, advice: i32) -> i32;
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn _exit(code: i32) -> !;
    }
    const PAGE: usize = 4096;
    const SPACE: usize = 1 << 40;
    #[derive(Clone, Copy)]
    #[repr(C)]
    struct Entry {
        size: usize,
        align: usize, // zero unless live
    }
    const GUARDED: usize = 20_000; // each takes two mappings of the 65530 there are
    const PLAIN: usize = 1 << 36;
    const HEAD: usize = 32;
    const USED: usize = 0x5e1f_0a11_0c8d_0001;
    const FREED: usize = 0x5e1f_0a11_0c8d_0002;
    static PLAIN_BASE: AtomicUsize = AtomicUsize::new(0);
    static PLAIN_NEXT: AtomicUsize = AtomicUsize::new(0);
    static IN_PLAIN: AtomicUsize = AtomicUsize::new(0);
    static BASE: AtomicUsize = AtomicUsize::new(0);
    static META: AtomicUsize = AtomicUsize::new(0);
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    static BYTES: AtomicUsize = AtomicUsize::new(0);
    pub static LIVE: AtomicUsize = AtomicUsize::new(0);

    fn die(msg: &str) -> ! {
        unsafe {
            write(2, msg.as_ptr(), msg.len());
            _exit(12)
        }
    }
    unsafe fn reserve(n: usize, prot: i32) -> usize {
        let p = mmap(std::ptr::null_mut(), n, prot, 0x4022, -1, 0) as usize;
        if p == usize::MAX {
            die("MEMORY no address space\n");
        }
        p
    }
    unsafe fn entry(ptr: usize) -> *mut Entry {
        (META.load(SeqCst) as *mut Entry).add((ptr - BASE.load(SeqCst)) / PAGE)
    }
    unsafe fn plain_alloc(layout: Layout) -> *mut u8 {
        if PLAIN_BASE.load(SeqCst) == 0 {
            PLAIN_BASE.store(reserve(PLAIN, 3), SeqCst);
        }
        let (size, align) = (layout.size(), layout.align().max(16));
        let at = PLAIN_NEXT.fetch_add(HEAD + align + size + 32 & !15, SeqCst);
        if at + HEAD + align + size + 32 > PLAIN {
            return std::ptr::null_mut();
        }
        let p = PLAIN_BASE.load(SeqCst) + at + HEAD + align - 1 & !(align - 1);
        *((p - 32) as *mut [usize; 4]) = [USED, size, layout.align(), USED];
        std::ptr::write_bytes((p + size) as *mut u8, 0x5a, 16);
        if size < 1 << 16 {
            std::ptr::write_bytes(p as *mut u8, 0xa5, size);
        }
        if BYTES.fetch_add(size, SeqCst) > 4 << 30 {
            die("MEMORY more than 4 GiB in use\n");
        }
        LIVE.fetch_add(1, SeqCst);
        IN_PLAIN.fetch_add(1, SeqCst);
        p as *mut u8
    }
    unsafe fn plain_dealloc(p: usize, layout: Layout) {
        let head = (p - 32) as *mut [usize; 4];
        match *head {
            [USED, size, align, USED] if size == layout.size() && align == layout.align() => {}
            [USED, _, _, USED] => die("MEMORY free with another layout\n"),
            [FREED, _, _, FREED] => die("MEMORY double free\n"),
            _ => die("MEMORY free of a pointer that was not allocated, or write before an allocation\n"),
        }
        if (0..16).any(|i| *((p + layout.size() + i) as *const u8) != 0x5a) {
            die("MEMORY write past the end of an allocation\n");
        }
        (*head)[0] = FREED;
        (*head)[3] = FREED;
        std::ptr::write_bytes(p as *mut u8, 0xdd, layout.size());
        let (lo, hi) = (p + PAGE - 1 & !(PAGE - 1), p + layout.size() & !(PAGE - 1));
        if lo < hi {
            madvise(lo as *mut u8, hi - lo, 4);
        }
        BYTES.fetch_sub(layout.size(), SeqCst);
        LIVE.fetch_sub(1, SeqCst);
        IN_PLAIN.fetch_sub(1, SeqCst);
    }
    unsafe impl GlobalAlloc for Heap {
        unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
            if LIVE.load(SeqCst) - IN_PLAIN.load(SeqCst) >= GUARDED {
                return plain_alloc(layout);
            }
            if BASE.load(SeqCst) == 0 {
                META.store(reserve(SPACE / PAGE * 16, 3), SeqCst);
                BASE.store(reserve(SPACE, 0), SeqCst);
            }
            let (size, align) = (layout.size(), layout.align());
            let pages = (size + PAGE - 1) / PAGE * PAGE;
            let skip = if align > PAGE { align } else { 0 };
            let at = NEXT.fetch_add(pages + PAGE + skip, SeqCst);
            if at + pages + PAGE + skip > SPACE {
                return std::ptr::null_mut();
            }
            let start = BASE.load(SeqCst) + at;
            let ptr = (start + skip + pages - size) & !(align - 1);
            if mprotect((ptr & !(PAGE - 1)) as *mut u8, start + skip + pages - (ptr & !(PAGE - 1)), 3) != 0 {
                return plain_alloc(layout);
            }
            if size < 1 << 16 {
                std::ptr::write_bytes(ptr as *mut u8, 0xa5, size);
            }
            // What lies between the allocation and the inaccessible page must not change
            let end = start + skip + pages;
            std::ptr::write_bytes((ptr + size) as *mut u8, 0x5a, end - ptr - size);
            if BYTES.fetch_add(size, SeqCst) > 4 << 30 {
                die("MEMORY more than 4 GiB in use\n");
            }
            *entry(ptr) = Entry { size, align };
            LIVE.fetch_add(1, SeqCst);
            ptr as *mut u8
        }
        unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
            let p = ptr as usize;
            let plain = PLAIN_BASE.load(SeqCst);
            if plain != 0 && p >= plain + HEAD && p < plain + PLAIN {
                return plain_dealloc(p, layout);
            }
            let base = BASE.load(SeqCst);
            if base == 0 || p < base || p >= base + SPACE {
                die("MEMORY free of a pointer that was not allocated\n");
            }
            let e = entry(p);
            if (*e).align == 0 {
                die("MEMORY double free\n");
            }
            if (*e).size != layout.size() || (*e).align != layout.align() {
                die("MEMORY free with another layout\n");
            }
            (*e).align = 0;
            let start = p & !(PAGE - 1);
            let n = (p + layout.size() + PAGE - 1 & !(PAGE - 1)) - start;
            let slack = (p + layout.size()..start + n).take_while(|&a| (a & (PAGE - 1)) != 0);
            if layout.size() > 0 && slack.into_iter().any(|a| *(a as *const u8) != 0x5a) {
                die("MEMORY write past the end of an allocation\n");
            }
            BYTES.fetch_sub(layout.size(), SeqCst);
            madvise(start as *mut u8, n, 4);
            if mprotect(start as *mut u8, n, 0) != 0 {
                die("MEMORY too many mappings\n");
            }
            LIVE.fetch_sub(1, SeqCst);
        }
    }
}

#[global_allocator]
static HEAP: Heap = Heap;
