PRE = r'''
use eucalypt::common::sourcemap::Smid;
use eucalypt::eval::bytecode::*;
use eucalypt::eval::machine::metrics::{Clock, ThreadOccupation};
use eucalypt::eval::memory::{alloc::{ScopedAllocator, MutatorScope}, array::Array, collect::*, heap::Heap, mutator::MutatorHeapView, ndarray::HeapNdArray, set::{HeapSet, Primitive}, string::HeapString, syntax::{Native, RefPtr}, vec::HeapVec};

fn frame(v: MutatorHeapView, vals: &[BcValue], next: Option<RefPtr<BcEnvFrame>>) -> RefPtr<BcEnvFrame> {
    let a = v.array(vals);
    v.alloc(BcEnvFrame::new(a, Smid::default(), next)).unwrap().as_ptr()
}
fn burst(heap: &Heap, n: usize) {
    let v = MutatorHeapView::new(heap);
    let mut k = Vec::new();
    for i in 0..n {
        k.push(v.alloc(HeapVec::from_primitives((0..3).map(|_| Primitive::Num((7_000_000.0 + i as f64).into())))).unwrap().as_ptr());
        let s = HeapString::from_str(&v, "overwritten overwritten overwritten");
        v.alloc(s).unwrap();
    }
}
fn vec_of(v: MutatorHeapView, n: usize, x: f64) -> BcValue {
    BcValue::Native(Native::Vec(v.alloc(HeapVec::from_primitives((0..n).map(|i| Primitive::Num((x + i as f64).into())))).unwrap().as_ptr()))
}
struct Sc;
impl MutatorScope for Sc {}
fn get(f: RefPtr<BcEnvFrame>, i: usize) -> BcValue {
    unsafe { f.as_ref() }.get(&Sc, i).expect("slot")
}
'''
# One live frame per kind, separated by garbage; collects (marking only, or moving), refills the freed lines, re-reads.
MAIN = PRE + r'''
fn garbage(heap: &Heap) { let v = MutatorHeapView::new(heap); for _ in 0..40 { vec_of(v, 2, 5.5e5); } }
fn check(heap: &Heap, f: RefPtr<BcEnvFrame>, n: usize, k: usize) -> bool {
    for i in 0..n {
        let want = (k * 1000 + i) as f64;
        let ok = match get(f, i) {
            BcValue::Native(Native::Vec(p)) => { let h: &HeapVec = unsafe { &*p.as_ptr() }; h.len() == 3 && h.get(0) == Some(&Primitive::Num(want.into())) }
            BcValue::Native(Native::Str(p)) => { let h: &HeapString = unsafe { &*p.as_ptr() }; h.as_slice() == format!("value {}", want).as_bytes() }
            BcValue::Native(Native::Set(p)) => { let h: &HeapSet = unsafe { &*p.as_ptr() }; h.contains(&Primitive::Num(want.into())) }
            _ => false,
        };
        if !ok { eprintln!("frame {} slot {} damaged", k, i); return false; }
    }
    true
}
fn main() {
    if MOVING { std::env::set_var("EU_GC_STRESS", "1"); }
    let slots: usize = SLOTS;
    let mut heap = Heap::new();
    let mut clock = Clock::default();
    clock.switch(ThreadOccupation::Mutator);
    let mut roots: Vec<RefPtr<BcEnvFrame>> = Vec::new();
    for k in 0..60 {
        let mut vals = Vec::new();
        for i in 0..slots {
            let v = MutatorHeapView::new(&heap);
            let x = (k * 1000 + i) as f64;
            vals.push(match (k + i) % 3 {
                0 => BcValue::Native(Native::Vec(v.alloc(HeapVec::from_primitives((0..3).map(|j| Primitive::Num((x + j as f64).into())))).unwrap().as_ptr())),
                1 => { let s = HeapString::from_str(&v, &format!("value {}", x)); BcValue::Native(Native::Str(v.alloc(s).unwrap().as_ptr())) }
                _ => BcValue::Native(Native::Set(v.alloc(HeapSet::from_primitives(std::iter::once(Primitive::Num(x.into())))).unwrap().as_ptr())),
            });
            garbage(&heap);
        }
        let v = MutatorHeapView::new(&heap);
        roots.push(frame(v, &vals, None));
        garbage(&heap);
    }
    for round in 0..4 {
        collect(&mut roots, &mut heap, &mut clock, false);
        clock.switch(ThreadOccupation::Mutator);
        burst(&heap, 3000);
        for (k, f) in roots.iter().enumerate() { if !check(&heap, *f, slots, k) { eprintln!("round {}", round); std::process::exit(1); } }
    }
    std::process::exit(0);
}
'''


def gc(moving, slots):
    return MAIN.replace("MOVING", "true" if moving else "false").replace("SLOTS", str(slots))
# Several references to one frame must still name one frame after moving collections: an update through one shows through all.
SHARE = PRE + r'''
fn garbage(heap: &Heap) { let v = MutatorHeapView::new(heap); for _ in 0..40 { vec_of(v, 2, 5.5e5); } }
fn main() {
    std::env::set_var("EU_GC_STRESS", "1");
    let mut heap = Heap::new();
    let mut clock = Clock::default();
    clock.switch(ThreadOccupation::Mutator);
    let mut roots: Vec<RefPtr<BcEnvFrame>> = Vec::new();
    for k in 0..30 {
        let shared = { let v = MutatorHeapView::new(&heap); let x = vec_of(v, 3, k as f64); frame(v, &[x], None) };
        garbage(&heap);
        let v = MutatorHeapView::new(&heap);
        let vals: Vec<BcValue> = (0..SLOTS).map(|_| BcValue::Closure(BcClosure::new(7, shared))).collect();
        roots.push(frame(v, &vals, None));
        garbage(&heap);
    }
    for round in 0..3 {
        collect(&mut roots, &mut heap, &mut clock, false);
        clock.switch(ThreadOccupation::Mutator);
        burst(&heap, 2000);
        for (k, f) in roots.iter().enumerate() {
            let envs: Vec<usize> = (0..SLOTS).map(|i| match get(*f, i) { BcValue::Closure(c) => c.env().as_ptr() as usize, _ => 0 }).collect();
            if envs.iter().any(|e| *e != envs[0]) { eprintln!("round {} frame {}: references to one frame name different addresses {:x?}", round, k, envs); std::process::exit(1); }
        }
    }
    std::process::exit(0);
}
'''


def share(n):
    return SHARE.replace("SLOTS", str(n))
