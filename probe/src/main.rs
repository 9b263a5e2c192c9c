//! What the library offers with the package features it was built with.  Without std, a program
//! without std: that it links is that the library needs none.  That it compiles is that each item
//! is there, and of the kind used here.

#![no_std]
#![no_main]
#![cfg_attr(feature = "anticipate", feature(step_trait))]

#[cfg(feature = "std")]
extern crate std;

use core::{any::TypeId, cell::Cell, convert::Infallible, marker::PhantomData, num::NonZeroU16};
use graph_safe_compare::{
    basic::{self, modes::{limited::{LimitReached, Limited}, unlimited::Unlimited}, recursion::callstack::CallStack},
    cycle_safe::modes::interleave::{self, random, Interleave},
    generic::{equiv::{self, EdgesIter, Equiv}, equiv_classes::{self, Class}, precheck_interleave},
    utils::RefId,
    Cmp, Node,
};

#[cfg(not(feature = "std"))]
mod bare {
    extern "C" { fn abort() -> !; }
    #[panic_handler]
    fn panic(_: &core::panic::PanicInfo<'_>) -> ! { unsafe { abort() } }
    // What the prebuilt core mentions; nothing unwinds.
    #[no_mangle]
    extern "C" fn rust_eh_personality() {}
}
#[cfg(all(feature = "alloc", not(feature = "std")))]
mod heap {
    use core::alloc::{GlobalAlloc, Layout};
    extern "C" { fn aligned_alloc(a: usize, n: usize) -> *mut u8; fn free(p: *mut u8); }
    struct C;
    unsafe impl GlobalAlloc for C {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { let a = l.align().max(16); aligned_alloc(a, (l.size() + a - 1) / a * a) }
        unsafe fn dealloc(&self, p: *mut u8, _: Layout) { free(p) }
    }
    #[global_allocator]
    static HEAP: C = C;
}

#[link(name = "c")]
extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; }
fn put(s: &str) { unsafe { write(1, s.as_ptr(), s.len()); } }
fn item(name: &str, last: &Cell<bool>) {
    put(if last.replace(false) { "\"" } else { ",\"" });
    put(name);
    put("\"");
}

/// Nodes 0 to 15, in a heap-shaped tree whose last level leads back to `k`; equal but for node 11.
#[derive(Clone)]
struct T { x: u8, side: u8, cyclic: bool, odd: bool }
impl Node for T {
    type Cmp = bool;
    type Id = u16;
    type Index = u8;
    fn id(&self) -> u16 { u16::from(self.side) << 8 | u16::from(self.x) }
    fn get_edge(&self, i: &u8) -> Option<Self> {
        if *i > 1 { return None; }
        let y = 2 * self.x + 1 + *i;
        if y < 15 { Some(Self { x: y, ..self.clone() }) }
        else if self.cyclic { Some(Self { x: self.x % 7, ..self.clone() }) }
        else { None }
    }
    fn equiv_modulo_edges(&self, other: &Self) -> bool {
        let v = |n: &Self| if n.odd && n.x == 11 { 99 } else { n.x };
        v(self) == v(other)
    }
}

/// A table without any memory but its own.
struct Flat([Option<(u16, FlatRc)>; 64], usize);
impl Default for Flat { fn default() -> Self { Self([const { None }; 64], 0) } }
#[derive(Clone)]
struct FlatRc(&'static Cell<Class<Self>>);
impl core::ops::Deref for FlatRc { type Target = Cell<Class<Self>>; fn deref(&self) -> &Self::Target { self.0 } }
impl equiv_classes::Rc for FlatRc {
    fn new(v: Cell<Class<Self>>) -> Self {
        static mut ARENA: [u64; 8192] = [0; 8192];
        static mut USED: usize = 0;
        let n = core::mem::size_of::<Cell<Class<Self>>>().div_ceil(8);
        // One thread only.
        unsafe {
            assert!(USED + n <= 8192 && core::mem::align_of::<Cell<Class<Self>>>() <= 8);
            let p = core::ptr::addr_of_mut!(ARENA).cast::<u64>().add(USED).cast::<Cell<Class<Self>>>();
            USED += n;
            p.write(v);
            Self(&*p)
        }
    }
}
impl equiv_classes::Table for Flat {
    type Node = T;
    type Rc = FlatRc;
    fn get(&self, k: &u16) -> Option<&FlatRc> { self.0[..self.1].iter().flatten().find(|e| e.0 == *k).map(|e| &e.1) }
    fn insert(&mut self, k: u16, v: FlatRc) {
        if let Some(e) = self.0[..self.1].iter_mut().flatten().find(|e| e.0 == k) { e.1 = v; return; }
        self.0[self.1] = Some((k, v));
        self.1 += 1;
    }
}
#[derive(Default)]
struct Lcg(u32);
impl random::NumberGenerator for Lcg {
    fn rand_upto(&mut self, end: NonZeroU16) -> u16 {
        self.0 = self.0.wrapping_mul(1_103_515_245).wrapping_add(12345);
        ((self.0 >> 16) as u16) % end.get()
    }
}

struct I;
impl interleave::Params for I {
    const PRECHECK_LIMIT: u16 = 3;
    const FAST_LIMIT_MAX: u16 = 2;
    const SLOW_LIMIT: u16 = 2;
    type Node = T;
    type RNG = Lcg;
    type Table = Flat;
}
struct A<M>(PhantomData<M>);
macro_rules! a { ($($m:ty),*) => { $(
    impl equiv::Params for A<$m> {
        type DescendMode = Interleave<I>;
        type Error = Infallible;
        type Node = T;
        type RecurMode = $m;
    }
)* }; }
a!(CallStack);
#[cfg(feature = "alloc")]
a!(graph_safe_compare::deep_safe::recursion::queue::RecurQueue<RP>, graph_safe_compare::wide_safe::recursion::stack::RecurStack<RP>);
struct U;
impl equiv::Params for U {
    type DescendMode = Unlimited;
    type Error = Infallible;
    type Node = T;
    type RecurMode = CallStack;
}
struct L;
impl equiv::Params for L {
    type DescendMode = Limited<u8>;
    type Error = LimitReached;
    type Node = T;
    type RecurMode = CallStack;
}
struct P;
impl precheck_interleave::Params<T> for P {
    type Error = Infallible;
    type InterleaveParams = I;
    type InterleaveRecurMode = CallStack;
    type PrecheckRecurMode = CallStack;
}
#[cfg(feature = "alloc")]
struct RP;
#[cfg(feature = "alloc")]
impl graph_safe_compare::deep_safe::recursion::queue::Params for RP { type Node = T; }
#[cfg(feature = "alloc")]
impl graph_safe_compare::wide_safe::recursion::stack::Params for RP { type Node = T; }
#[cfg(feature = "std")]
struct HP;
#[cfg(feature = "std")]
impl equiv_classes::premade::hash_map::Params for HP { type Node = T; }

fn root(side: u8, cyclic: bool, odd: bool) -> T { T { x: 0, side, cyclic, odd } }
fn is<X: ?Sized>() {}

#[no_mangle]
pub extern "C" fn main(_argc: i32, _argv: *const *const u8) -> i32 {
    let first = Cell::new(true);
    put("{\"features\":[");
    for (on, name) in [(cfg!(feature = "alloc"), "alloc"), (cfg!(feature = "std"), "std"), (cfg!(feature = "wyrng"), "wyrng"),
                       (cfg!(feature = "oorandom"), "oorandom"), (cfg!(feature = "fastrand"), "fastrand"), (cfg!(feature = "anticipate"), "anticipate")] {
        if on { item(name, &first); }
    }
    put("],\"built\":true,\"items\":[");
    first.set(true);
    macro_rules! t { ($($n:literal => $e:ty;)*) => { $( is::<$e>(); item($n, &first); )* }; }
    // Each comparing item, with two equal graphs and two different ones.
    let wrong = Cell::new(false);
    macro_rules! f { ($cyclic:expr; $($n:literal => $e:expr;)*) => { $(
        item($n, &first);
        let go: fn(T, T) -> bool = $e;
        for cyclic in [false, $cyclic] {
            for odd in [false, true] { if go(root(1, cyclic, false), root(2, cyclic, odd)) == odd { wrong.set(true); } }
        }
    )* }; }
    f! { false;
         "basic::equiv" => basic::equiv::<T>;
         "basic::limited_equiv" => |a, b| basic::limited_equiv(40_u32, a, b).is_ok_and(|c| c);
         "Unlimited" => |a, b| Equiv::<U>::default().equiv(a, b).is_ok_and(|c| c.is_equiv());
         "Limited" => |a, b| Equiv::<L>::new(Limited(200)).equiv(a, b).is_ok_and(|c| c.is_equiv()); }
    f! { true;
         "Interleave" => |a, b| Equiv::<A<CallStack>>::default().equiv(a, b).is_ok_and(|c| c);
         "precheck_interleave::equiv" => |a, b| precheck_interleave::equiv::<T, P>(a, b).is_ok_and(|c| c); }
    t! { "CallStack" => CallStack; "LimitReached" => LimitReached; "EdgesIter" => EdgesIter<T>; "RefId" => RefId<&'static str>; }
    #[cfg(feature = "alloc")]
    {
        use graph_safe_compare::{deep_safe::{self, recursion::queue::RecurQueue}, wide_safe::{self, recursion::stack::RecurStack}};
        f! { false;
             "deep_safe::equiv" => deep_safe::equiv::<T>;
             "deep_safe::limited_equiv" => |a, b| deep_safe::limited_equiv(40_u64, a, b).is_ok_and(|c| c);
             "wide_safe::equiv" => wide_safe::equiv::<T>;
             "wide_safe::limited_equiv" => |a, b| wide_safe::limited_equiv(40_u8, a, b).is_ok_and(|c| c); }
        f! { true;
             "RecurQueue" => |a, b| Equiv::<A<RecurQueue<RP>>>::default().equiv(a, b).is_ok_and(|c| c);
             "RecurStack" => |a, b| Equiv::<A<RecurStack<RP>>>::default().equiv(a, b).is_ok_and(|c| c); }
        t! { "premade::rc::Rc" => equiv_classes::premade::rc::Rc; }
    }
    #[cfg(feature = "std")]
    t! { "premade::hash_map::Table" => equiv_classes::premade::hash_map::Table<HP>; }
    #[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
    {
        use graph_safe_compare::{cycle_safe, robust};
        f! { true;
             "cycle_safe::equiv" => cycle_safe::equiv::<T>; "cycle_safe::precheck_equiv" => cycle_safe::precheck_equiv::<T>;
             "robust::equiv" => robust::equiv::<T>; "robust::precheck_equiv" => robust::precheck_equiv::<T>; }
    }
    #[allow(unused_mut, unused_assignments)]
    let mut default = "none";
    #[cfg(any(feature = "wyrng", feature = "oorandom", all(feature = "fastrand", feature = "std")))]
    {
        use random::NumberGenerator as _;
        t! { "random::default" => random::default::RandomNumberGenerator; }
        default = "other";
        let d = TypeId::of::<random::default::RandomNumberGenerator>();
        macro_rules! g { ($n:literal, $m:ident) => {
            t! { $n => random::$m::RandomNumberGenerator; }
            if TypeId::of::<random::$m::RandomNumberGenerator>() == d { default = $n; }
            let mut r = random::$m::RandomNumberGenerator::default();
            for end in 1..400 { if r.rand_upto(NonZeroU16::new(end).unwrap()) >= end { wrong.set(true); } }
        }; }
        #[cfg(feature = "wyrng")]
        g!("random::wyrng", wyrng);
        #[cfg(feature = "oorandom")]
        g!("random::oorandom", oorandom);
        #[cfg(all(feature = "fastrand", feature = "std"))]
        g!("random::fastrand", fastrand);
    }
    let _ = TypeId::of::<u8>();
    put("],\"default\":\"");
    put(default);
    put("\",\"wrong\":");
    put(if wrong.get() { "true}\n" } else { "false}\n" });
    0
}
