//! Runs one harness natively against the real library with the values of a
//! counterexample.  Exit 0: ran to the end; 10: assertion failed; 11: memory
//! error seen by the allocator; 12: panic; 3: the values do not fit the run.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

const CAP: usize = 1 << 16;
struct Chk {
    t: UnsafeCell<[(usize, usize, usize); CAP]>,
    live: UnsafeCell<i64>,
    on: UnsafeCell<bool>,
}
unsafe impl Sync for Chk {}
fn die(code: i32, msg: &str) -> ! {
    extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn _exit(c: i32) -> !;
    }
    unsafe {
        write(1, b"REPLAY: ".as_ptr(), 8);
        write(1, msg.as_ptr(), msg.len());
        write(1, b"\n".as_ptr(), 1);
        _exit(code)
    }
}
unsafe impl GlobalAlloc for Chk {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            die(11, "memory: zero-sized allocation request");
        }
        let p = System.alloc(l);
        self.put(p as usize, l);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            die(11, "memory: zero-sized allocation request");
        }
        let p = System.alloc_zeroed(l);
        self.put(p as usize, l);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        self.del(p as usize, l);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        self.dealloc(p, l);
        q
    }
}
impl Chk {
    unsafe fn put(&self, p: usize, l: Layout) {
        if !*self.on.get() {
            return;
        }
        *self.live.get() += 1;
        let t = &mut *self.t.get();
        let mut i = (p >> 4).wrapping_mul(0x9E3779B1) % CAP;
        for _ in 0..CAP {
            if t[i].0 == 0 || t[i].0 == 1 {
                t[i] = (p, l.size(), l.align());
                return;
            }
            i = (i + 1) % CAP;
        }
    }
    unsafe fn del(&self, p: usize, l: Layout) {
        if !*self.on.get() {
            return;
        }
        let t = &mut *self.t.get();
        let mut i = (p >> 4).wrapping_mul(0x9E3779B1) % CAP;
        for _ in 0..CAP {
            if t[i].0 == p {
                if t[i].1 != l.size() || t[i].2 != l.align() {
                    die(11, "memory: block freed with another layout than it was allocated with");
                }
                t[i].0 = 1;
                *self.live.get() -= 1;
                return;
            }
            if t[i].0 == 0 {
                die(11, "memory: freed block is not allocated");
            }
            i = (i + 1) % CAP;
        }
    }
}
#[global_allocator]
static A: Chk = Chk { t: UnsafeCell::new([(0, 0, 0); CAP]), live: UnsafeCell::new(0), on: UnsafeCell::new(false) };

static mut PARAMS: Vec<i64> = Vec::new();
static mut SYMS: Vec<i64> = Vec::new();
static mut POS: usize = 0;
static mut HASH: u64 = 0;
fn ev(x: u64) {
    unsafe { HASH = HASH.wrapping_mul(0x100000001b3).wrapping_add(x ^ 0x9e37) }
}
static mut TRACE: bool = false;

#[allow(static_mut_refs)]
fn pop() -> i64 {
    unsafe {
        if POS >= SYMS.len() {
            // the counterexample stops before this point
            die(3, "values exhausted");
        }
        POS += 1;
        SYMS[POS - 1]
    }
}
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn sym_param(i: u64) -> i64 {
    unsafe { PARAMS.get(i as usize).copied().unwrap_or(0) }
}
#[no_mangle]
pub extern "C" fn sym_int(lo: i64, hi: i64) -> i64 {
    let v = pop();
    if v < lo || v > hi {
        die(3, "value out of range");
    }
    v
}
#[no_mangle]
pub extern "C" fn sym_bool() -> bool {
    pop() != 0
}
#[no_mangle]
pub extern "C" fn sym_choice(n: u64) -> u64 {
    let v = pop() as u64;
    if v >= n {
        die(3, "choice out of range");
    }
    v
}
#[no_mangle]
pub extern "C" fn sym_assume(b: bool) {
    if !b {
        die(3, "assumption not met");
    }
}
#[no_mangle]
pub extern "C" fn sym_assert(b: bool, p: *const u8, n: usize) {
    if !b {
        let s = unsafe { std::slice::from_raw_parts(p, n) };
        die(10, &format!("assertion failed: {}", String::from_utf8_lossy(s)));
    }
}
#[no_mangle]
pub extern "C" fn sym_cover(x: u64) {
    ev(x)
}
#[no_mangle]
pub extern "C" fn sym_concretize(x: i64) -> i64 {
    x
}
#[no_mangle]
pub extern "C" fn sym_live() -> u64 {
    unsafe { *A.live.get() as u64 }
}
#[no_mangle]
pub extern "C" fn sym_note(x: i64) {
    ev(x as u64);
    if unsafe { TRACE } {
        println!("note {}", x);
    }
}
#[no_mangle]
pub extern "C" fn sym_ite(c: bool, a: i64, b: i64) -> i64 {
    if c {
        a
    } else {
        b
    }
}
struct UserPanic;
#[no_mangle]
pub extern "C-unwind" fn sym_panic() {
    resume_unwind(Box::new(UserPanic))
}
#[no_mangle]
pub extern "C-unwind" fn sym_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool {
    match catch_unwind(AssertUnwindSafe(|| f(data))) {
        Ok(()) => false,
        Err(e) => {
            if e.downcast_ref::<UserPanic>().is_none() {
                die(12, "panic in the library");
            }
            drop(e);
            true
        }
    }
}

#[allow(static_mut_refs)]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    // replay HARNESS p,p,p v,v,v [trace]   or   replay --batch  (lines on stdin)
    let list = |s: &str| -> Vec<i64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        die(12, &format!("panic: {}", s.replace('\n', " ")));
    }));
    unsafe {
        PARAMS = list(&a[2]);
        SYMS = list(&a[3]);
        TRACE = a.len() > 4;
    }
    let h = harness::TABLE.iter().find(|x| x.0 == a[1]).expect("unknown harness").1;
    // warm up lazily allocated runtime state
    let _ = catch_unwind(|| resume_unwind(Box::new(UserPanic)));
    unsafe { *A.on.get() = true };
    h();
    unsafe { *A.on.get() = false };
    println!("REPLAY: finished {:x}", unsafe { HASH });
}
