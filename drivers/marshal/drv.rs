// Runs the marshalling code on enumerated inputs and records what it does, one JSON value per line.
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use crate::marshalling::Slice_v::*;
use crate::marshalling::Marshalling_v::*;
use crate::marshalling::IntegerMarshalling_v::*;
use crate::marshalling::SeqMarshalling_v::*;
use crate::marshalling::UniformSized_v::*;
use crate::marshalling::UniformSizedSeq_v::*;
use crate::marshalling::StaticallySized_v::*;
use crate::marshalling::ResizableUniformSizedSeq_v::*;
use crate::marshalling::VariableSizedElementSeq_v::*;
use crate::marshalling::KVPairFormat_v::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

verus!{
pub struct KV1 {}
impl KVTrait for KV1 {
    type LenType = u8;
    type KeyFormat = UniformSizedElementSeqFormat<IntFormat<u8>>;
    type DataFormat = UniformSizedElementSeqFormat<IntFormat<u16>>;
    exec fn key_format_new() -> Self::KeyFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) }
    exec fn data_format_new() -> Self::DataFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) }
}
pub struct KV2 {}
impl KVTrait for KV2 {
    type LenType = u16;
    type KeyFormat = IntFormat<u32>;
    type DataFormat = ResizableUniformSizedElementSeqFormat<IntFormat<u8>, u8>;
    exec fn key_format_new() -> Self::KeyFormat { IntFormat::new() }
    exec fn data_format_new() -> Self::DataFormat { ResizableUniformSizedElementSeqFormat::new(IntFormat::new(), IntFormat::new(), 4) }
}
pub struct KV3 {}
impl KVTrait for KV3 {
    type LenType = u32;
    type KeyFormat = UniformSizedElementSeqFormat<IntFormat<u8>>;
    type DataFormat = KVPairFormat<KV1>;
    exec fn key_format_new() -> Self::KeyFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) }
    exec fn data_format_new() -> Self::DataFormat { KVPairFormat::new() }
}
}

// A value in the driver's own terms.
#[derive(Clone, Debug, PartialEq)]
pub enum Val { I(Vec<u8>), S(Vec<Val>), P(Box<Val>, Box<Val>) }
impl Val {
    fn j(&self) -> String {
        match self {
            Val::I(b) => format!("{:?}", b),
            Val::S(v) => format!("[{}]", v.iter().map(|x| x.j()).collect::<Vec<_>>().join(",")),
            Val::P(a, b) => format!("[{},{}]", a.j(), b.j()),
        }
    }
}
fn oj(o: &Option<Val>) -> String { match o { None => "[]".to_string(), Some(v) => format!("[{}]", v.j()) } }

pub trait Conv { fn show(&self) -> Val; fn of(v: &Val) -> Self; }
macro_rules! conv { ($t:ty, $n:expr) => {
    impl Conv for $t {
        fn show(&self) -> Val { let mut x = *self as u64; let mut b = vec![]; for _ in 0..$n { b.push((x % 256) as u8); x /= 256; } Val::I(b) }
        fn of(v: &Val) -> Self { if let Val::I(b) = v { let mut x: u64 = 0; for k in b.iter().rev() { x = x * 256 + *k as u64; } x as $t } else { panic!() } }
    }
} }
conv!(u8, 1); conv!(u16, 2); conv!(u32, 4); conv!(u64, 8);
impl<T: Conv> Conv for Vec<T> {
    fn show(&self) -> Val { let mut r = vec![]; for i in 0..self.len() { r.push(self[i].show()); } Val::S(r) }
    fn of(v: &Val) -> Self { if let Val::S(s) = v { s.iter().map(|x| T::of(x)).collect() } else { panic!() } }
}
impl<K: KVTrait> Conv for KVPair<K> where <K::KeyFormat as Marshal>::U: Conv, <K::DataFormat as Marshal>::U: Conv {
    fn show(&self) -> Val { Val::P(Box::new(self.key.show()), Box::new(self.value.show())) }
    fn of(v: &Val) -> Self { if let Val::P(a, b) = v { KVPair { key: Conv::of(a), value: Conv::of(b) } } else { panic!() } }
}

// Formats: a descriptor for the specification, and a supply of values.
pub trait Desc { fn desc(&self) -> String; fn vals(&self, r: &mut Rng, room: usize, n: usize) -> Vec<Val>; }
pub struct Rng(u64);
impl Rng { fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 11) % n } }
macro_rules! idesc { ($t:ty, $n:expr) => { impl Desc for IntFormat<$t> {
    fn desc(&self) -> String { format!("{{\"t\":\"int\",\"w\":{}}}", $n) }
    fn vals(&self, r: &mut Rng, _room: usize, n: usize) -> Vec<Val> {
        let mut out = vec![];
        for i in 0..n { out.push(match i {
            0 => Val::I((1..=$n as u8).collect()), 1 => Val::I(vec![0; $n]), 2 => Val::I(vec![255; $n]),
            3 => { let mut v = vec![0u8; $n]; v[$n - 1] = 128; Val::I(v) }
            _ => Val::I((0..$n).map(|_| (r.next() >> 20) as u8).collect()) }); }
        out } } } }
idesc!(u8, 1); idesc!(u16, 2); idesc!(u32, 4); idesc!(u64, 8);
fn seqs<E: Desc>(e: &E, r: &mut Rng, room: usize, n: usize, max: usize) -> Vec<Val> {
    let mut out = vec![];
    for i in 0..n { let len = if i <= max { i } else { r.below(max as u64 + 1) as usize };
        let p = e.vals(r, room, 6); let off = r.below(6) as usize;
        out.push(Val::S((0..len).map(|k| p[(k + off) % p.len()].clone()).collect())); }
    out
}
impl<E: Desc + Marshal + UniformSized> Desc for UniformSizedElementSeqFormat<E> {
    fn desc(&self) -> String { format!("{{\"t\":\"uni\",\"e\":{}}}", self.eltf.desc()) }
    fn vals(&self, r: &mut Rng, room: usize, n: usize) -> Vec<Val> { seqs(&self.eltf, r, room, n, 4) }
}
pub trait W { const W: usize; const MAX: usize; }
impl W for u8 { const W: usize = 1; const MAX: usize = 255; } impl W for u16 { const W: usize = 2; const MAX: usize = 65535; }
impl W for u32 { const W: usize = 4; const MAX: usize = 1000000; } impl W for u64 { const W: usize = 8; const MAX: usize = 1000000; }
impl<E: Desc + Marshal + UniformSized, L: IntFormattable + W> Desc for ResizableUniformSizedElementSeqFormat<E, L> {
    fn desc(&self) -> String { format!("{{\"t\":\"res\",\"e\":{},\"lw\":{},\"total\":{}}}", self.eltf.desc(), L::W, self.total_size) }
    fn vals(&self, r: &mut Rng, room: usize, n: usize) -> Vec<Val> { seqs(&self.eltf, r, room, n, std::cmp::min(self.max_length, L::MAX)) }
}
impl<E: Desc + Marshal, B: IntFormattable + W, L: IntFormattable + W> Desc for VariableSizedElementSeqFormat<E, B, L> {
    fn desc(&self) -> String { format!("{{\"t\":\"var\",\"e\":{},\"bw\":{},\"lw\":{},\"total\":{}}}", self.eltf.desc(), B::W, L::W, self.bdyf.total_size) }
    fn vals(&self, r: &mut Rng, room: usize, n: usize) -> Vec<Val> { vec![] }
}
impl<K: KVTrait> Desc for KVPairFormat<K> where K::LenType: W, K::KeyFormat: Desc, K::DataFormat: Desc {
    fn desc(&self) -> String { format!("{{\"t\":\"kv\",\"kw\":{},\"k\":{},\"d\":{}}}", <K::LenType as W>::W, self.key_fmt.desc(), self.data_fmt.desc()) }
    fn vals(&self, r: &mut Rng, room: usize, n: usize) -> Vec<Val> {
        let k = self.key_fmt.vals(r, room, n); let d = self.data_fmt.vals(r, room, n);
        (0..n).map(|i| Val::P(Box::new(k[i].clone()), Box::new(d[if i < 3 { i } else { r.below(n as u64) as usize }].clone()))).collect()
    }
}

fn run_or<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }
fn clip(n: usize) -> usize { std::cmp::min(n, 1000000) }
fn jb(d: &[u8]) -> String { format!("{:?}", d) }

// ---- one value written into a buffer and read back
fn marshalling<F: Marshal + Desc>(f: &F, r: &mut Rng, n: usize) where F::U: Conv {
    for v in f.vals(r, 64, n) {
        let u: F::U = Conv::of(&v);
        let size = match run_or(|| f.exec_size(&u)) { Some(s) => s, None => { println!("{{\"op\":\"marshal\",\"f\":{},\"v\":{},\"panic\":true}}", f.desc(), v.j()); continue } };
        let start = r.below(4) as usize;
        let pad = r.below(4) as usize;
        if size > 4096 { println!("{{\"op\":\"marshal\",\"f\":{},\"v\":{},\"panic\":true}}", f.desc(), v.j()); continue }
        let mut before: Vec<u8> = vec![];
        for _ in 0..start + size + pad { before.push((r.next() >> 13) as u8); }
        let mut data = before.clone();
        let end = run_or(|| f.exec_marshall(&u, &mut data, start));
        let ok = end.is_some() && end.unwrap() == start + size && data.len() == before.len();
        let sl = Slice { start, end: start + size };
        let back = if ok { run_or(|| (f.try_parse(&sl, &data).map(|x| x.show()), f.exec_parsable(&sl, &data))) } else { Some((None, false)) };
        let again = if ok && back.as_ref().map(|b| b.1).unwrap_or(false) { run_or(|| f.exec_parse(&sl, &data).show()) } else { None };
        println!("{{\"op\":\"marshal\",\"f\":{},\"v\":{},\"panic\":{},\"size\":{},\"start\":{},\"end\":{},\"before\":{},\"after\":{},\"back\":{},\"parsable\":{},\"again\":{}}}",
            f.desc(), v.j(), end.is_none() || back.is_none(), clip(size), start, clip(end.unwrap_or(0)), jb(&before), jb(&data),
            oj(&back.as_ref().map(|b| b.0.clone()).unwrap_or(None)), back.as_ref().map(|b| b.1).unwrap_or(false), oj(&again));
    }
}

// ---- arbitrary bytes read
fn bytes(r: &mut Rng, len: usize, k: usize) -> Vec<u8> {
    let small = [0u8, 1, 2, 3, 4, 5, 6, 255];
    (0..len).map(|i| match k % 5 { 0 => small[r.below(8) as usize], 1 => small[r.below(3) as usize], 2 => (r.next() >> 17) as u8,
        3 => if i % 2 == 0 { small[r.below(6) as usize] } else { 0 },
        _ => if i == 0 { small[r.below(4) as usize] } else { (len as u64 - std::cmp::min(len as u64, r.below(5))) as u8 } }).collect()
}
fn parsing<F: Marshal + Desc>(f: &F, r: &mut Rng, max: usize, n: usize) where F::U: Conv {
    for i in 0..n {
        let len = if i % 2 == 0 { max } else { r.below(max as u64 + 3) as usize };
        let b = bytes(r, len, i / 2);
        let (pre, post) = (r.below(3) as usize, r.below(3) as usize);
        let mut data = vec![1u8; pre]; data.extend(&b); data.extend(vec![2u8; post]);
        let sl = Slice { start: pre, end: pre + len };
        let p = run_or(|| (f.try_parse(&sl, &data).map(|x| x.show()), f.exec_parsable(&sl, &data)));
        let again = if let Some((Some(_), true)) = &p { run_or(|| f.exec_parse(&sl, &data).show()) } else { None };
        let q = p.clone().unwrap_or((None, false));
        println!("{{\"op\":\"parse\",\"f\":{},\"b\":{},\"panic\":{},\"parsable\":{},\"v\":{},\"again\":{}}}", f.desc(), jb(&b), p.is_none(), q.1, oj(&q.0), oj(&again));
    }
}

// ---- what a sequence format says about a buffer
struct Obs { len: Option<usize>, get: Vec<(usize, bool, Vec<usize>, Option<Val>)>, wf: bool, canset: Vec<usize>, canresize: Vec<usize>, canappend: Vec<usize> }
fn observe<F: SeqMarshal>(f: &F, sl: &Slice, data: &Vec<u8>, probes: &[usize], sizes: &[usize], vals: &[Val], appendable_any: bool) -> Option<String> where F::Elt: Conv {
    run_or(|| {
        let len = f.try_length(sl, data);
        let lengthable = f.exec_lengthable(sl, data);
        if lengthable != len.is_some() || (lengthable && f.exec_length(sl, data) != len.unwrap()) { return "{\"bad\":\"length\"}".to_string(); }
        let mut gets = vec![];
        for &i in probes {
            let g = f.exec_gettable(sl, data, i);
            let s = f.try_get(sl, data, i);
            if g != s.is_some() { return format!("{{\"bad\":\"gettable {}\"}}", i); }
            let e = f.try_get_elt(sl, data, i).map(|x| x.show());
            if g {
                let t = f.exec_get(sl, data, i); let s = s.unwrap();
                if t.start != s.start || t.end != s.end { return format!("{{\"bad\":\"get {}\"}}", i); }
                if e.is_some() && Some(f.exec_get_elt(sl, data, i).show()) != e { return format!("{{\"bad\":\"get_elt {}\"}}", i); }
                if s.start < sl.start || s.end > sl.end || s.start > s.end { return format!("{{\"bad\":\"get {} outside\"}}", i); }
                gets.push(format!("{{\"i\":{},\"from\":{},\"to\":{},\"v\":{}}}", i, s.start - sl.start, s.end - sl.start, oj(&e)));
            } else if e.is_some() { return format!("{{\"bad\":\"get_elt {}\"}}", i); }
        }
        let wf = f.exec_well_formed(sl, data);
        let mut cs = vec![]; let mut ca = vec![];
        if let Some(v0) = vals.first() { for &i in probes { if f.exec_settable(sl, data, i, &Conv::of(v0)) { cs.push(i); } } }
        if wf || appendable_any { for (k, v) in vals.iter().enumerate() { if wf && f.exec_appendable(sl, data, &Conv::of(v)) { ca.push(k + 1); } } }
        let cr: Vec<usize> = sizes.iter().cloned().filter(|&n| f.exec_resizable(sl, data, n)).collect();
        format!("{{\"len\":{},\"get\":[{}],\"wf\":{},\"set\":{:?},\"resize\":{:?},\"append\":{:?}}}",
            match len { None => -1, Some(n) => clip(n) as i64 }, gets.join(","), wf, cs, cr, ca)
    })
}
fn reading<F: SeqMarshal + Desc>(f: &F, r: &mut Rng, max: usize, n: usize, vals: &[Val]) where F::Elt: Conv {
    let probes: Vec<usize> = (0..max + 2).collect();
    for i in 0..n {
        let len = if i % 2 == 0 { max } else { r.below(max as u64 + 3) as usize };
        let b = bytes(r, len, i / 2);
        let (pre, post) = (r.below(3) as usize, r.below(3) as usize);
        let mut data = vec![1u8; pre]; data.extend(&b); data.extend(vec![2u8; post]);
        let sl = Slice { start: pre, end: pre + len };
        let o = observe(f, &sl, &data, &probes, &probes, vals, false);
        println!("{{\"op\":\"read\",\"f\":{},\"b\":{},\"n\":{},\"vals\":[{}],\"obs\":{}}}", f.desc(), jb(&b), max + 1, vals.iter().map(|v| v.j()).collect::<Vec<_>>().join(","),
            o.unwrap_or("{\"bad\":\"panic\"}".to_string()));
    }
}

// ---- histories of in-place updates
trait Start: SeqMarshal { fn start(&self, sl: &Slice, data: &mut Vec<u8>) -> bool; fn whole(&self, sl: &Slice, data: &Vec<u8>) -> String; }
impl<E: Marshal + UniformSized, L: IntFormattable> Start for ResizableUniformSizedElementSeqFormat<E, L> where E::U: Conv {
    fn start(&self, sl: &Slice, data: &mut Vec<u8>) -> bool { self.initialize(sl, data); true }
    fn whole(&self, sl: &Slice, data: &Vec<u8>) -> String { oj(&self.try_parse(sl, data).map(|x| x.show())) }
}
impl<E: Marshal, B: IntFormattable, L: IntFormattable> Start for VariableSizedElementSeqFormat<E, B, L> {
    fn start(&self, sl: &Slice, data: &mut Vec<u8>) -> bool { self.initialize(sl, data); true }
    fn whole(&self, sl: &Slice, data: &Vec<u8>) -> String { "[]".to_string() }
}
impl<E: Marshal + UniformSized> Start for UniformSizedElementSeqFormat<E> where E::U: Conv {
    fn start(&self, sl: &Slice, data: &mut Vec<u8>) -> bool { false }
    fn whole(&self, sl: &Slice, data: &Vec<u8>) -> String { oj(&self.try_parse(sl, data).map(|x| x.show())) }
}
fn history<F: Start + Desc>(name: &str, f: &F, r: &mut Rng, total: usize, slack: usize, vals: &[Val], probes: &[usize], sizes: &[usize], setidx: &[usize], limit: usize, init_resize: Option<usize>) where F::Elt: Conv {
    let (pre, post) = (2usize, 2usize);
    let region = total + slack;
    let sl = || Slice { start: pre, end: pre + region };
    let mut nodes: Vec<Vec<u8>> = vec![]; let mut ix: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut views: Vec<String> = vec![]; let mut edges: Vec<String> = vec![]; let mut init = vec![];
    let view = |d: &Vec<u8>| -> String {
        let o = observe(f, &sl(), d, probes, sizes, vals, true).unwrap_or("{\"bad\":\"panic\"}".to_string());
        let w = run_or(|| f.whole(&sl(), d)).unwrap_or("[\"panic\"]".to_string());
        let mut out = d[..pre].to_vec(); out.extend(&d[pre + total..]);
        format!("{{\"obs\":{},\"whole\":{},\"out\":{}}}", o, w, jb(&out))
    };
    for k in 0..3 {
        let mut d: Vec<u8> = vec![]; for i in 0..pre + region + post { d.push(if k == 0 { 0 } else { (r.next() >> 13) as u8 }); }
        let before = d.clone();
        let mut bad = false;
        if run_or(|| f.start(&sl(), &mut d)).is_none() { bad = true; }
        if let Some(n) = init_resize { if run_or(|| f.resize(&sl(), &mut d, n)).is_none() { bad = true; } }
        if d.len() != before.len() || d[..pre] != before[..pre] || d[pre + region..] != before[pre + region..] { bad = true; }
        if bad { d = before; }
        if !ix.contains_key(&d) { ix.insert(d.clone(), nodes.len()); init.push(nodes.len()); views.push(if bad { "{\"obs\":{\"bad\":\"initialize\"},\"whole\":[],\"out\":[]}".to_string() } else { view(&d) }); nodes.push(d); }
    }
    let mut q = 0;
    while q < nodes.len() && nodes.len() < limit {
        let d = nodes[q].clone();
        let mut steps: Vec<(String, Option<Vec<u8>>)> = vec![];
        let ok = |x: &Vec<u8>| x.len() == d.len();
        for (k, v) in vals.iter().enumerate() {
            let u: F::Elt = Conv::of(v);
            for &i in setidx {
                if run_or(|| f.exec_settable(&sl(), &d, i, &u)).unwrap_or(false) {
                    let mut x = d.clone();
                    let z = run_or(|| f.exec_set(&sl(), &mut x, i, &u));
                    steps.push((format!("{{\"op\":\"set\",\"i\":{},\"k\":{}}}", i, k + 1), if z.is_some() && ok(&x) { Some(x) } else { None }));
                }
            }
            if run_or(|| f.exec_well_formed(&sl(), &d) && f.exec_appendable(&sl(), &d, &u)).unwrap_or(false) {
                let mut x = d.clone();
                let z = run_or(|| f.exec_append(&sl(), &mut x, &u));
                steps.push((format!("{{\"op\":\"append\",\"k\":{}}}", k + 1), if z.is_some() && ok(&x) { Some(x) } else { None }));
            }
        }
        for &n in sizes {
            if run_or(|| f.exec_resizable(&sl(), &d, n)).unwrap_or(false) {
                let mut x = d.clone();
                let z = run_or(|| f.resize(&sl(), &mut x, n));
                steps.push((format!("{{\"op\":\"resize\",\"n\":{}}}", n), if z.is_some() && ok(&x) { Some(x) } else { None }));
            }
        }
        for (l, x) in steps {
            match x {
                None => edges.push(format!("[{},{{\"op\":\"failed\",\"what\":{}}},{}]", q, l, q)),
                Some(x) => {
                    let j = match ix.get(&x) { Some(&j) => j, None => { let j = nodes.len(); ix.insert(x.clone(), j); views.push(view(&x)); nodes.push(x); j } };
                    edges.push(format!("[{},{},{}]", q, l, j));
                }
            }
        }
        q += 1;
    }
    println!("{{\"op\":\"history\",\"name\":\"{}\",\"f\":{},\"vals\":[{}],\"probes\":{:?},\"sizes\":{:?},\"setidx\":{:?},\"init\":{:?},\"expanded\":{},\"nodes\":[{}],\"edges\":[{}]}}",
        name, f.desc(), vals.iter().map(|v| v.j()).collect::<Vec<_>>().join(","), probes, sizes, setidx, init, q, views.join(","), edges.join(","));
}

fn i(b: &[u8]) -> Val { Val::I(b.to_vec()) }
fn s(b: &[u8]) -> Val { Val::S(b.iter().map(|x| Val::I(vec![*x])).collect()) }
fn nf<T: IntFormattable>() -> IntFormat<T> { IntFormat::new() }
fn uni<E: Marshal + UniformSized>(e: E) -> UniformSizedElementSeqFormat<E> { UniformSizedElementSeqFormat::new(e) }
fn res<E: Marshal + UniformSized, L: IntFormattable>(e: E, n: usize) -> ResizableUniformSizedElementSeqFormat<E, L> { ResizableUniformSizedElementSeqFormat::new(e, IntFormat::new(), n) }
fn var<E: Marshal, B: IntFormattable, L: IntFormattable>(e: E, n: usize) -> VariableSizedElementSeqFormat<E, B, L> { VariableSizedElementSeqFormat::new(e, IntFormat::new(), IntFormat::new(), n) }

pub fn run() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let scale: usize = a[2].parse().unwrap();
    let mut rng = Rng(88172645463325252 ^ (a[3].parse::<u64>().unwrap() << 7));
    let r = &mut rng;
    match a[1].as_str() {
        "marshal" => {
            let n = 12 * scale;
            marshalling(&nf::<u8>(), r, n); marshalling(&nf::<u16>(), r, n); marshalling(&nf::<u32>(), r, n); marshalling(&nf::<u64>(), r, n);
            marshalling(&uni(nf::<u8>()), r, n); marshalling(&uni(nf::<u16>()), r, n); marshalling(&uni(nf::<u32>()), r, n); marshalling(&uni(nf::<u64>()), r, n);
            marshalling(&res::<_, u8>(nf::<u8>(), 4), r, n); marshalling(&res::<_, u8>(nf::<u16>(), 6), r, n); marshalling(&res::<_, u16>(nf::<u8>(), 5), r, n);
            marshalling(&res::<_, u64>(nf::<u32>(), 20), r, n); marshalling(&res::<_, u32>(nf::<u64>(), 20), r, n); marshalling(&res::<_, u8>(nf::<u8>(), 1), r, 2);
            marshalling(&KVPairFormat::<KV1>::new(), r, n); marshalling(&KVPairFormat::<KV2>::new(), r, n); marshalling(&KVPairFormat::<KV3>::new(), r, n);
            let n = 60 * scale;
            parsing(&nf::<u8>(), r, 2, n); parsing(&nf::<u16>(), r, 3, n); parsing(&nf::<u32>(), r, 5, n); parsing(&nf::<u64>(), r, 9, n);
            parsing(&uni(nf::<u16>()), r, 7, n); parsing(&uni(nf::<u8>()), r, 3, n);
            parsing(&res::<_, u8>(nf::<u8>(), 4), r, 4, n); parsing(&res::<_, u8>(nf::<u16>(), 6), r, 6, n); parsing(&res::<_, u16>(nf::<u8>(), 5), r, 6, n);
            parsing(&res::<_, u64>(nf::<u32>(), 20), r, 20, n); parsing(&res::<_, u32>(nf::<u8>(), 8), r, 8, n);
            parsing(&KVPairFormat::<KV1>::new(), r, 6, n); parsing(&KVPairFormat::<KV2>::new(), r, 11, n); parsing(&KVPairFormat::<KV3>::new(), r, 9, n);
        }
        "read" => {
            let n = 120 * scale;
            let b1 = [i(&[7])]; let b2 = [i(&[7, 8])];
            let sv = [s(&[]), s(&[9]), s(&[9, 8, 7])];
            let kv = [Val::P(Box::new(s(&[1])), Box::new(Val::S(vec![i(&[3, 4])]))), Val::P(Box::new(s(&[])), Box::new(Val::S(vec![])))];
            reading(&uni(nf::<u16>()), r, 7, n, &b2); reading(&uni(nf::<u8>()), r, 3, n, &b1);
            reading(&res::<_, u8>(nf::<u8>(), 4), r, 4, n, &b1); reading(&res::<_, u8>(nf::<u16>(), 6), r, 6, n, &b2); reading(&res::<_, u16>(nf::<u8>(), 5), r, 5, n, &b1);
            reading(&res::<_, u64>(nf::<u16>(), 14), r, 14, n, &b2); reading(&res::<_, u32>(nf::<u8>(), 8), r, 8, n, &b1);
            reading(&var::<_, u8, u8>(uni(nf::<u8>()), 6), r, 6, n * 3, &sv); reading(&var::<_, u8, u8>(uni(nf::<u8>()), 4), r, 5, n, &sv);
            reading(&var::<_, u16, u8>(uni(nf::<u8>()), 9), r, 9, n * 2, &sv); reading(&var::<_, u8, u32>(nf::<u16>(), 10), r, 10, n, &b2);
            reading(&var::<_, u8, u16>(KVPairFormat::<KV1>::new(), 12), r, 12, n, &kv);
        }
        "history" => {
            let lim = 150 * scale;
            let all = |n: usize| -> Vec<usize> { (0..n).collect() };
            let bv = [i(&[7]), i(&[200])]; let sv = [i(&[7, 1]), i(&[0, 255])];
            let w4 = [i(&[1, 2, 3, 4]), i(&[255, 0, 255, 0])]; let w8 = [i(&[1, 2, 3, 4, 5, 6, 7, 8]), i(&[255; 8])];
            let vv = [s(&[]), s(&[9]), s(&[9, 8, 7])];
            let wv = [Val::S(vec![i(&[1, 2])]), Val::S(vec![]), Val::S(vec![i(&[1, 2]), i(&[3, 4])])];
            let kv = [Val::P(Box::new(s(&[1])), Box::new(Val::S(vec![i(&[3, 4])]))), Val::P(Box::new(s(&[])), Box::new(Val::S(vec![])))];
            history("fixed-size slots, two bytes each", &uni(nf::<u16>()), r, 7, 0, &sv, &all(6), &all(4), &all(5), lim, None);
            history("fixed-size slots, eight bytes each", &uni(nf::<u64>()), r, 17, 0, &w8, &all(4), &all(4), &all(4), lim, None);
            history("resizable, byte elements", &res::<_, u8>(nf::<u8>(), 4), r, 4, 0, &bv, &all(5), &all(6), &all(5), lim, None);
            history("resizable inside a longer slice", &res::<_, u8>(nf::<u16>(), 6), r, 6, 3, &sv, &all(5), &all(6), &all(5), lim, None);
            history("resizable, wide length", &res::<_, u64>(nf::<u32>(), 20), r, 20, 1, &w4, &all(5), &all(6), &all(5), lim, None);
            history("resizable, wide elements", &res::<_, u32>(nf::<u64>(), 29), r, 29, 0, &w8, &all(5), &all(6), &all(5), lim, None);
            history("resizable, two-byte length", &res::<_, u16>(nf::<u8>(), 5), r, 5, 0, &bv, &all(5), &all(6), &all(5), lim, None);
            history("resizable, length field limits", &res::<_, u8>(nf::<u8>(), 300), r, 300, 0, &bv[..1], &[0, 1, 252, 253, 254, 255, 256, 298, 299, 300], &[0, 253, 254, 255, 256, 257, 299, 300], &[0, 253, 254, 255, 298, 299], 40, Some(252));
            history("resizable, no room", &res::<_, u16>(nf::<u32>(), 5), r, 5, 2, &w4, &all(3), &all(3), &all(3), lim, None);
            history("variable, bytes", &var::<_, u8, u8>(uni(nf::<u8>()), 9), r, 9, 0, &vv, &all(9), &all(3), &all(3), lim, None);
            history("variable, wide table", &var::<_, u16, u32>(uni(nf::<u16>()), 17), r, 17, 2, &wv, &all(8), &all(3), &all(3), lim, None);
            history("variable, integers", &var::<_, u64, u8>(nf::<u16>(), 32), r, 32, 0, &sv, &all(6), &all(3), &all(3), lim, None);
            history("variable, pairs", &var::<_, u8, u16>(KVPairFormat::<KV1>::new(), 14), r, 14, 1, &kv, &all(8), &all(3), &all(3), lim, None);
            history("variable, at the table limit", &var::<_, u8, u8>(uni(nf::<u8>()), 5), r, 5, 0, &vv[..2], &all(8), &all(3), &all(3), lim, None);
        }
        _ => panic!(),
    }
}
