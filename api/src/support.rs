use directx_math::*;
use std::alloc::{GlobalAlloc, Layout};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Args = *const *mut u8;

#[repr(C)]
pub struct Slot { pub dir: u8, pub kind: u8, pub comp: u8, pub pad: u8, pub size: u16, pub align: u16, pub cmp: u16, pub arg: u16 }
#[repr(C)]
pub struct FnDesc { pub name: *const u8, pub thunk: unsafe extern "C" fn(Args) -> u32, pub slots: *const Slot, pub nslots: u32, pub flags: u32 }
unsafe impl Sync for FnDesc {}
unsafe impl Sync for Slot {}

pub const fn s(dir: u8, kind: u8, size: u16, align: u16, cmp: u16, comp: u8, arg: u16) -> Slot { Slot { dir, kind, comp, pad: 0, size, align, cmp, arg } }

extern "C" {
    fn sim_alloc(size: usize, align: usize) -> *mut u8;
    fn sim_free(p: *mut u8, size: usize, align: usize);
    /// kind 0: stream `next` (returns point index, -1 end of stream, -2 panic); 1: stream clone (returns new stream id, -2 panic);
    /// 2: size_hint low, 3: size_hint high (-1: None); 4: comparison called (0 or -2 panic); 5: object dropped; 6: object made
    /// (returns its token). Bits 8.. of `id` are the token of the object called.
    fn sim_cb(kind: u32, id: u64, n: u64) -> i64;
    /// 0: accepted, 1: fmt::Error, 2: panic.
    fn sim_write(p: *const u8, n: usize) -> u32;
}

struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { sim_alloc(l.size(), l.align()) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { sim_free(p, l.size(), l.align()) }
}
#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

#[inline(always)]
pub fn guard(f: impl FnOnce()) -> u32 { match catch_unwind(AssertUnwindSafe(f)) { Ok(()) => 0, Err(e) => { let own = e.is::<CallerPanic>(); drop(e); if own { 5 } else { 1 } } } }
/// What a caller's part (stream, sink, comparison) panics with; whoever called the library is to receive just this.
pub struct CallerPanic;

/// Makes a call from a destructor while a panic of the caller's unwinds.
struct Late(unsafe extern "C" fn(Args) -> u32, Args, *mut u32);
impl Drop for Late { fn drop(&mut self) { unsafe { *self.2 = (self.0)(self.1) } } }
#[no_mangle] pub unsafe extern "C" fn api_unwinding(x: *const (unsafe extern "C" fn(Args) -> u32, Args)) -> u32 {
    let mut r = 2; let q = &mut r as *mut u32; let _ = catch_unwind(AssertUnwindSafe(|| { let _l = Late((*x).0, (*x).1, q); std::panic::resume_unwind(Box::new(())) })); r
}

#[inline(always)] pub unsafe fn v<T: Copy>(a: Args, i: usize) -> T { (*a.add(i) as *const T).read() }
#[inline(always)] pub unsafe fn r<'x, T>(a: Args, i: usize) -> &'x T { &*(*a.add(i) as *const T) }
#[inline(always)] pub unsafe fn m<'x, T>(a: Args, i: usize) -> &'x mut T { &mut *(*a.add(i) as *mut T) }
#[inline(always)] pub unsafe fn o<'x, T>(a: Args, i: usize, j: usize) -> Option<&'x mut T> { if **a.add(i) & 1 != 0 { Some(m(a, j)) } else { None } }
#[inline(always)] pub unsafe fn w<T>(a: Args, i: usize, x: T) { (*a.add(i) as *mut T).write(x) }

/// A stream of points whose every answer is decided by the simulator.
pub struct HostIter<'x> { pts: &'x [XMFLOAT3; 24], n: u64, id: u64, tok: u64 }
fn made() -> u64 { unsafe { sim_cb(6, 0, 0) as u64 } }
impl<'x> HostIter<'x> {
    #[inline(never)]
    pub unsafe fn new(a: Args, i: usize) -> HostIter<'x> {
        let p = *a.add(i);
        HostIter { pts: &*(p.add(4) as *const [XMFLOAT3; 24]), n: *(p as *const u32) as u64, id: 0, tok: made() }
    }
}
#[cold] fn caller_panic() -> ! { std::panic::resume_unwind(Box::new(CallerPanic)) }
impl<'x> Iterator for HostIter<'x> {
    type Item = &'x XMFLOAT3;
    fn next(&mut self) -> Option<&'x XMFLOAT3> {
        match unsafe { sim_cb(0, self.id | self.tok << 8, self.n) } { -1 => None, -2 => caller_panic(), k => Some(&self.pts[k as usize]) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let lo = unsafe { sim_cb(2, self.id | self.tok << 8, self.n) }; let hi = unsafe { sim_cb(3, self.id | self.tok << 8, self.n) };
        (lo as usize, if hi < 0 { None } else { Some(hi as usize) })
    }
}
impl<'x> Clone for HostIter<'x> {
    fn clone(&self) -> Self {
        match unsafe { sim_cb(1, self.id | self.tok << 8, self.n) } { -2 => caller_panic(), k => HostIter { pts: self.pts, n: self.n, id: k as u64, tok: made() } }
    }
}

impl<'x> Drop for HostIter<'x> { fn drop(&mut self) { unsafe { sim_cb(5, self.id | self.tok << 8, 0); } } }

/// A caller type whose comparison runs caller code.
pub struct CmpCb(pub f32, u64);
pub fn cmpcb(x: f32) -> CmpCb { CmpCb(x, made()) }
impl Drop for CmpCb { fn drop(&mut self) { unsafe { sim_cb(5, self.1 << 8, 0); } } }
impl PartialEq for CmpCb { fn eq(&self, o: &Self) -> bool { if unsafe { sim_cb(4, self.1 << 8, 0) } == -2 { caller_panic() } self.0 == o.0 } }
impl PartialOrd for CmpCb { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { if unsafe { sim_cb(4, self.1 << 8, 0) } == -2 { caller_panic() } self.0.partial_cmp(&o.0) } }

struct HostWriter;
impl std::fmt::Write for HostWriter {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        match unsafe { sim_write(s.as_ptr(), s.len()) } { 0 => Ok(()), 1 => Err(std::fmt::Error), _ => caller_panic() }
    }
}
#[inline(never)]
pub fn dbg<T: std::fmt::Debug>(x: &T, flags: u32) -> u32 {
    use std::fmt::Write;
    let mut w = HostWriter;
    let r = match flags % 6 { 0 => write!(w, "{:?}", x), 1 => write!(w, "{:#?}", x), 2 => write!(w, "{:.3?}", x), 3 => write!(w, "{:12?}", x), 4 => write!(w, "{:+?}", x), _ => write!(w, "{:#x?}", x) };
    match r { Ok(()) => 0, Err(_) => 1 }
}
