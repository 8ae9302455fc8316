//! Shapes, memory pool, tensor ownership, optimizers, serialization, models, initializers, in-place arithmetic.
use crate::ops::*;
use crate::refr::*;
use crate::util::*;
use prima_undine::device_impl::FunctionFwImpl;
use prima_undine::functions::*;
use prima_undine::*;
use prima_undine::{initializers as ini, optimizers as opt};
use prima_undine_contrib::functions::ContribFunctions;
use std::collections::{HashMap, HashSet};
use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::{Arc, Mutex};

type R = Result<(), String>;
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

// ---- C01
fn want_shape(d: &[u32], b: u32) -> Option<Sh> {
    if d.len() > 8 || d.contains(&0) || b == 0 { return None; }
    let mut v: u128 = 1;
    for x in d { v *= *x as u128; if v > u32::MAX as u128 { return None; } }
    if v * b as u128 > u32::MAX as u128 { return None; }
    Some(Sh::new(&d.iter().map(|x| *x as usize).collect::<Vec<_>>(), b as usize))
}
fn gdims(r: &Rng) -> (Vec<u32>, u32) {
    let n = if r.chance(0.05) { r.range(9, 11) } else { r.below(9) };
    let big = r.chance(0.25);
    let mut d: Vec<u32> = (0..n).map(|_| match r.below(12) {
        0 if big => *r.pick(&[65535, 65536, 65537, u32::MAX, 1 << 31, 46341, 2642245, 3, 5, 17, 257]),
        1 if r.chance(0.1) => 0,
        2..=6 => 1,
        _ => r.range(1, 5) as u32,
    }).collect();
    if r.chance(0.3) { if let Some(x) = d.last_mut() { *x = 1; } }
    if r.chance(0.05) { for x in d.iter_mut() { *x = *r.pick(&[8, 15, 16, 17]); } }
    let b = match r.below(12) { 0 => 0, 1 if big => *r.pick(&[65536, u32::MAX, 1 << 31, 1 << 16]), 2..=5 => 1, _ => r.range(1, 5) as u32 };
    (d, if b == 0 && r.chance(0.7) { 1 } else { b })
}
fn check_shape(s: &Shape, w: &Sh) -> R {
    let dep = w.depth();
    ck!(s.depth() as usize == dep, "depth is {}, expected {}", s.depth(), dep);
    ck!(s.dims().iter().map(|x| *x as usize).collect::<Vec<_>>() == w.d[..dep].to_vec(), "dims are {:?}", s.dims());
    ck!(s.batch() as usize == w.b, "batch is {}", s.batch());
    ck!(s.volume() as usize == w.vol(), "volume is {}, expected {}", s.volume(), w.vol());
    ck!(s.size() as usize == w.size(), "size is {}, expected {}", s.size(), w.size());
    ck!(s.has_batch() == (w.b != 1), "has_batch");
    ck!(s.is_scalar() == (w.vol() == 1), "is_scalar is {}", s.is_scalar());
    ck!(s.is_column_vector() == (dep <= 1), "is_column_vector is {}", s.is_column_vector());
    ck!(s.is_matrix() == (dep <= 2), "is_matrix is {}", s.is_matrix());
    for i in 0..12u32 {
        ck!(s[i] as usize == w.dm(i as usize), "dimension {} is {}, expected {}", i, s[i], w.dm(i as usize));
        ck!(s.lower_volume(i) as usize == w.low(i as usize), "lower_volume({}) is {}, expected {}", i, s.lower_volume(i), w.low(i as usize));
    }
    Ok(())
}
fn check_pair(a: &Shape, b: &Shape, x: &Sh, y: &Sh) -> R {
    let what = || format!("{:?} and {:?}: ", x, y);
    ck!((a == b) == (x == y), "{}equality is {}", what(), a == b);
    ck!(a.has_same_dims(*b) == (x.d == y.d), "{}has_same_dims is {}", what(), a.has_same_dims(*b));
    ck!(a.has_compatible_batch(*b) == x.compat(y), "{}has_compatible_batch is {}", what(), a.has_compatible_batch(*b));
    for d in 0..10u32 {
        let w = (0..8).all(|i| i == d as usize || x.d[i] == y.d[i]);
        ck!(a.has_same_loo_dims(*b, d) == w, "{}has_same_loo_dims({}) is {}", what(), d, !w);
    }
    Ok(())
}
pub fn c01(_: Dev, r: &Rng) -> R {
    let (d, b) = gdims(r);
    trace(&|| format!("Shape::new({:?}, {})", d, b));
    let w = want_shape(&d, b);
    let s = quiet(|| Shape::new(&d, b));
    let (mut s, mut w) = match (s, w) {
        (Ok(s), Some(w)) => (s, w),
        (Err(_), None) => return Ok(()),
        (Ok(s), None) => return Err(format!("Shape::new({:?}, {}) accepted as {:?}", d, b, s)),
        (Err(e), Some(_)) => return Err(format!("Shape::new({:?}, {}) rejected: {}", d, b, e)),
    };
    let mut hist = format!("Shape::new({:?}, {})", d, b);
    check_shape(&s, &w).map_err(|e| format!("{}: {}", hist, e))?;
    for _ in 0..r.below(6) {
        let (i, m) = (if r.chance(0.05) { r.range(8, 9) } else { r.below(8) } as u32, match r.below(10) { 0 => 0, 1 => 1 << 30, 2 => u32::MAX, 3..=6 => 1, _ => r.range(1, 6) as u32 });
        let k = r.below(4);
        hist += &match k { 0 => format!(".update_dim({}, {})", i, m), 1 => format!(".update_batch({})", m), 2 => format!(".resize_dim({}, {})", i, m), _ => format!(".resize_batch({})", m) };
        trace(&|| hist.clone());
        let mut nd: Vec<u32> = w.d.iter().map(|x| *x as u32).collect();
        let mut nb = w.b as u32;
        let mut bad = false;
        if k % 2 == 0 { if i < 8 { nd[i as usize] = m; } else { bad = true; } } else { nb = m; }
        let want = if bad { None } else { want_shape(&nd, nb) };
        let old = s;
        let got = quiet(|| {
            let mut s = s;
            match k { 0 => { s.update_dim(i, m); s } 1 => { s.update_batch(m); s } 2 => s.resize_dim(i, m), _ => s.resize_batch(m) }
        });
        match (got, want) {
            (Ok(n), Some(x)) => {
                check_shape(&n, &x).map_err(|e| format!("{}: {}", hist, e))?;
                check_pair(&old, &n, &w, &x).map_err(|e| format!("{}: {}", hist, e))?;
                check_pair(&n, &Shape::new(&nd, nb), &x, &x).map_err(|e| format!("{}: {}", hist, e))?;
                ck!(old == s, "{}: the original changed", hist);
                s = n;
                w = x;
            }
            (Err(_), None) => return Ok(()),
            (Ok(n), None) => return Err(format!("{} accepted as {:?}", hist, n)),
            (Err(e), Some(_)) => return Err(format!("{} rejected: {}", hist, e)),
        }
    }
    // a related shape
    let mut y = w.clone();
    for _ in 0..r.below(3) { y.d[r.below(8)] = r.range(1, 3); }
    if r.chance(0.5) { y.b = r.range(1, 3); }
    let yd: Vec<u32> = y.d.iter().map(|x| *x as u32).collect();
    if want_shape(&yd, y.b as u32).is_some() {
        let t = quiet(|| Shape::new(&yd, y.b as u32)).map_err(|e| format!("Shape::new({:?}, {}) rejected: {}", yd, y.b, e))?;
        trace(&|| format!("{:?} {:?}", s, t));
        check_pair(&s, &t, &w, &y)?;
        check_pair(&t, &s, &y, &w)?;
    }
    Ok(())
}

// ---- C03 / C14: a device that records
#[derive(Default)]
pub struct Rec {
    pub live: HashMap<usize, u32>,
    pub next: usize,
    pub errors: Vec<String>,
    pub made: usize,
}
struct RecDev {
    st: Arc<Mutex<Rec>>,
    real: bool,
}
impl DeviceImpl for RecDev {
    fn identifier(&self) -> String { "rec".into() }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        let mut st = self.st.lock().unwrap();
        st.made += 1;
        let p = if self.real { Box::into_raw(Box::new(vec![0f32; size as usize])) as usize } else { st.next += 64; 0x10000 + st.next };
        if st.live.insert(p, size).is_some() { st.errors.push("device handed out the same buffer twice".into()); }
        AtomicPtr::new(p as *mut c_void)
    }
    fn drop_handle(&self, h: &AtomicPtr<c_void>) {
        let p = h.load(Ordering::Acquire) as usize;
        let mut st = self.st.lock().unwrap();
        if st.live.remove(&p).is_none() { st.errors.push("a buffer was released twice or never created".into()); return; }
        if self.real { unsafe { drop(Box::from_raw(p as *mut Vec<f32>)); } }
    }
}
pub fn c03(_: Dev, r: &Rng) -> R {
    let st = Arc::new(Mutex::new(Rec::default()));
    let dev = Device::new(RecDev { st: Arc::clone(&st), real: false });
    let mut own: Vec<(AtomicPtr<c_void>, u32)> = vec![];
    let mut free: HashMap<u32, usize> = HashMap::new();
    let mut hist = String::new();
    let n = if r.chance(0.05) { r.range(100, 700) } else { r.range(1, 40) };
    let bulk = n > 40;
    for step in 0..n {
        if if bulk { step < n / 3 || (step >= 2 * n / 3 || own.is_empty()) } else { own.is_empty() || r.chance(0.55) } {
            let size: u32 = match if bulk { 12 } else { r.below(12) } {
                0 => 0,
                1 => r.range(1, 64) as u32,
                2 => *r.pick(&[(1u32 << 31) + 1, u32::MAX, (1 << 31) + (1 << 30)]),
                3 => *r.pick(&[1u32 << 31, (1 << 31) - 1, (1 << 30) + 1]),
                12 => *r.pick(&[60, 60, 60, 100, 2000]),
                4 | 5 => { let k = r.range(0, 20); (1u32 << k) }
                6 => { let k = r.range(1, 31); ((1u64 << k) - 1) as u32 }
                7 | 8 => { let k = r.range(0, 30); (1u32 << k) + 1 }
                _ => { let k = r.range(5, 12); r.range(1, 1 << k) as u32 }
            };
            hist += &format!(" new_handle({})", size);
            trace(&|| hist.clone());
            let before = st.lock().unwrap().made;
            let ok = size >= 1 && size <= 1 << 31;
            match quiet(|| dev.new_handle(size)) {
                Err(_) if !ok => return Ok(()),
                Err(e) => return Err(format!("{}: rejected: {}", hist, e)),
                Ok(_) if !ok => return Err(format!("{}: accepted", hist)),
                Ok(h) => {
                    let p = h.load(Ordering::Acquire) as usize;
                    let s = st.lock().unwrap();
                    let cap = match s.live.get(&p) { None => return Err(format!("{}: not a live buffer", hist)), Some(c) => *c };
                    ck!(cap >= size, "{}: the buffer has room for {} elements", hist, cap);
                    ck!(own.iter().all(|(q, _)| q.load(Ordering::Acquire) as usize != p), "{}: the buffer is already owned", hist);
                    if s.made > before {
                        ck!(free.get(&cap).copied().unwrap_or(0) == 0, "{}: a free buffer of capacity {} was not reused", hist, cap);
                    } else {
                        let f = free.entry(cap).or_insert(0);
                        ck!(*f > 0, "{}: reused a buffer that was not given back", hist);
                        *f -= 1;
                    }
                    own.push((h, cap));
                }
            }
        } else {
            let i = r.below(own.len());
            let (h, cap) = own.swap_remove(i);
            hist += &format!(" drop_handle(cap {})", cap);
            trace(&|| hist.clone());
            quiet(|| dev.drop_handle(&h)).map_err(|e| format!("{}: rejected: {}", hist, e))?;
            *free.entry(cap).or_insert(0) += 1;
            if r.chance(0.04) {
                hist += " drop_handle(same)";
                trace(&|| hist.clone());
                ck!(quiet(|| dev.drop_handle(&h)).is_err(), "{}: a handle was given back twice", hist);
                break;
            }
            if r.chance(0.02) {
                hist += " drop_handle(unknown)";
                let h = AtomicPtr::new(8 as *mut c_void);
                ck!(quiet(|| dev.drop_handle(&h)).is_err(), "{}: an unknown handle was accepted", hist);
                break;
            }
        }
    }
    let owned = own.len();
    hist += " drop(pool)";
    trace(&|| hist.clone());
    drop(dev);
    let s = st.lock().unwrap();
    ck!(s.errors.is_empty(), "{}: {}", hist, s.errors[0]);
    ck!(s.live.len() == owned, "{}: {} buffers remain, {} are still owned", hist, s.live.len(), owned);
    for (h, _) in own { ck!(s.live.contains_key(&(h.load(Ordering::Acquire) as usize)), "{}: an owned buffer was released", hist); }
    Ok(())
}

struct Fill;
impl FunctionFwImpl for Fill {
    fn call(&self, _: &[&Tensor], _: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        let v = buf(ys[0]);
        for i in 0..f.len() { v[i] = f[i]; }
    }
}
pub fn c14(_: Dev, r: &Rng) -> R {
    let st = Arc::new(Mutex::new(Rec::default()));
    let mk = || {
        let mut d = Device::new(RecDev { st: Arc::clone(&st), real: true });
        d.register_fw_impl("reset_tensor_by_slice_impl", Fill);
        Box::new(d)
    };
    let (d1, d2) = (mk(), mk());
    let devs: Vec<&'static Device<'static>> = unsafe { vec![&*(&*d1 as *const _ as *const Device<'static>), &*(&*d2 as *const _ as *const Device<'static>)] };
    // slot: tensor, device (None: host), shape, handle state
    #[derive(Clone, Debug, PartialEq)]
    enum S { Empty, Own(usize, Vec<f32>), Ref(usize, usize), Host(Vec<f32>) }
    struct Slot { t: Box<Tensor<'static>>, dev: Option<usize>, sh: Sh, s: S, users: usize }
    let mut v: Vec<Option<Slot>> = vec![];
    let mut hist = String::new();
    let mut owned = 0i64;
    let shapes = [Sh::new(&[2], 1), Sh::new(&[1, 2], 1), Sh::new(&[70], 1), Sh::new(&[2], 2), Sh::new(&[4], 1)];
    let id = |t: &Tensor| t.handle().load(Ordering::Acquire) as usize;
    let steps = r.range(1, 25);
    let mut k = 0.;
    for _ in 0..steps {
        let live: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_some()).collect();
        let a = if live.is_empty() { 0 } else { *r.pick(&live) };
        let b = if live.is_empty() { 0 } else { *r.pick(&live) };
        k += 1.;
        match if live.is_empty() { 0 } else { r.below(10) } {
            0 | 1 => {
                let (d, sh) = (r.below(2), r.pick(&shapes).clone());
                hist += &format!(" #{}=new(dev{}, {:?})", v.len(), d, sh);
                v.push(Some(Slot { t: Box::new(devs[d].new_tensor(shp(&sh))), dev: Some(d), sh, s: S::Empty, users: 0 }));
            }
            2 => {
                let sh = r.pick(&shapes).clone();
                let x: Vec<f32> = (0..sh.size()).map(|i| k + i as f32).collect();
                hist += &format!(" #{}=host({:?})", v.len(), sh);
                v.push(Some(Slot { t: Box::new(Tensor::new_host_tensor(shp(&sh), x.clone())), dev: None, sh, s: S::Host(x), users: 0 }));
            }
            3 | 4 => {
                hist += &format!(" alloc(#{})", a);
                trace(&|| hist.clone());
                let s = v[a].as_mut().unwrap();
                let ok = s.s == S::Empty && s.dev.is_some();
                let g = quiet(|| s.t.alloc());
                ck!(g.is_ok() == ok, "{}: {}", hist, if ok { "rejected" } else { "accepted" });
                if ok {
                    owned += 1;
                    let n = s.sh.size();
                    let x: Vec<f32> = (0..n).map(|i| k * 100. + i as f32).collect();
                    ck!(buf(&s.t).len() >= n, "{}: buffer too small", hist);
                    buf(&s.t)[..n].copy_from_slice(&x);
                    s.s = S::Own(id(&s.t), x);
                }
            }
            5 => {
                if a == b { continue; }
                hist += &format!(" refer(#{}, #{})", a, b);
                trace(&|| hist.clone());
                let mut t = v[a].take().unwrap();
                let o = v[b].as_mut().unwrap();
                let valid = match o.s { S::Own(..) | S::Ref(..) => true, _ => false };
                let ok = t.s == S::Empty && t.dev.is_some() && t.dev == o.dev && valid && t.sh == o.sh;
                let other: &'static Tensor<'static> = unsafe { &*(&*o.t as *const _) };
                let g = quiet(|| t.t.refer(other));
                ck!(g.is_ok() == ok, "{}: {}", hist, if ok { "rejected" } else { "accepted" });
                if ok { t.s = S::Ref(b, id(&o.t)); o.users += 1; }
                v[a] = Some(t);
            }
            6 => {
                if a == b || v[b].as_ref().unwrap().users > 0 { continue; }
                hist += &format!(" replace(#{}, #{})", a, b);
                trace(&|| hist.clone());
                let mut t = v[a].take().unwrap();
                let o = v[b].take().unwrap();
                let ok = t.s == S::Empty && t.dev.is_some() && t.dev == o.dev && t.sh == o.sh && match o.s { S::Ref(..) | S::Host(_) => false, _ => true };
                let (os, op) = (o.s.clone(), if let S::Ref(p, _) = o.s { Some(p) } else { None });
                let ot = *o.t;
                let g = quiet(|| t.t.replace(ot));
                ck!(g.is_ok() == ok, "{}: {}", hist, if ok { "rejected" } else { "accepted" });
                if let Some(p) = op { if p == a { t.users -= 1 } else { v[p].as_mut().unwrap().users -= 1 } }
                match (ok, os) {
                    (true, S::Own(h, x)) => { ck!(id(&t.t) == h, "{}: the buffer was not taken over", hist); t.s = S::Own(h, x); }
                    (false, S::Own(..)) => owned -= 1,
                    _ => {}
                }
                v[a] = Some(t);
            }
            7 => {
                let d = r.below(2);
                hist += &format!(" move_to_device(#{}, dev{})", a, d);
                trace(&|| hist.clone());
                let s = v[a].as_mut().unwrap();
                let host = if let S::Host(x) = &s.s { Some(x.clone()) } else { None };
                let g = quiet(|| s.t.move_to_device(devs[d]));
                ck!(g.is_ok() == host.is_some(), "{}: {}", hist, if host.is_some() { "rejected" } else { "accepted" });
                if let Some(x) = host { owned += 1; s.dev = Some(d); s.s = S::Own(id(&s.t), x); }
            }
            8 => {
                let sh = r.pick(&shapes).clone();
                hist += &format!(" update_shape(#{}, {:?})", a, sh);
                trace(&|| hist.clone());
                let s = v[a].as_mut().unwrap();
                let ok = s.sh.size() == sh.size();
                let g = quiet(|| s.t.update_shape(shp(&sh)));
                ck!(g.is_ok() == ok, "{}: {}", hist, if ok { "rejected" } else { "accepted" });
                if ok { s.sh = sh; }
            }
            _ => {
                if v[a].as_ref().unwrap().users > 0 { continue; }
                hist += &format!(" drop(#{})", a);
                trace(&|| hist.clone());
                let s = v[a].take().unwrap();
                match s.s { S::Own(..) => owned -= 1, S::Ref(p, _) => v[p].as_mut().unwrap().users -= 1, _ => {} }
                quiet(|| drop(s.t)).map_err(|e| format!("{}: {}", hist, e))?;
            }
        }
        // state of every tensor
        let mut seen = HashSet::new();
        for i in 0..v.len() {
            if let Some(s) = &v[i] {
                ck!(sh_of(s.t.shape()) == s.sh, "{}: shape of #{} is {:?}", hist, i, s.t.shape());
                let val = match &s.s {
                    S::Empty | S::Host(_) => { ck!(!s.t.valid(), "{}: #{} is valid", hist, i); continue; }
                    S::Own(h, x) => { ck!(seen.insert(*h), "{}: #{} shares its buffer", hist, i); ck!(id(&s.t) == *h, "{}: #{} has another buffer", hist, i); x.clone() }
                    S::Ref(_, h) => { ck!(id(&s.t) == *h, "{}: #{} refers to another buffer", hist, i); let mut p = i; loop { match &v[p].as_ref().unwrap().s { S::Ref(q, _) => p = *q, S::Own(_, x) => break x.clone(), _ => unreachable!() } } }
                };
                ck!(s.t.valid(), "{}: #{} is not valid", hist, i);
                ck!(&buf(&s.t)[..val.len()] == &val[..], "{}: the values of #{} changed", hist, i);
            }
        }
        ck!(seen.len() as i64 == owned, "{}: {} owned buffers expected", hist, owned);
    }
    // referring tensors go first
    hist += " drop(all)";
    trace(&|| hist.clone());
    while v.iter().any(|s| s.is_some()) {
        for i in 0..v.len() {
            if v[i].as_ref().map(|s| s.users == 0).unwrap_or(false) {
                let s = v[i].take().unwrap();
                if let S::Ref(p, _) = s.s { v[p].as_mut().unwrap().users -= 1; }
                quiet(|| drop(s.t)).map_err(|e| format!("{}: {}", hist, e))?;
            }
        }
    }
    quiet(|| drop(d1)).map_err(|e| format!("{}: {}", hist, e))?;
    quiet(|| drop(d2)).map_err(|e| format!("{}: {}", hist, e))?;
    let s = st.lock().unwrap();
    ck!(s.errors.is_empty(), "{}: {}", hist, s.errors[0]);
    ck!(s.live.is_empty(), "{}: {} buffers were never given back", hist, s.live.len());
    Ok(())
}

// ---- C04: mismatching operands of in-place and accumulating operations
pub fn c04(dev: Dev, r: &Rng) -> R {
    // in-place
    let s = gshape(r, 100);
    let mut t = s.clone();
    match r.below(4) { 0 => t.d[r.below(8)] += r.range(1, 70), 1 => { t = gshape(r, 100) } 2 => t.b = r.range(1, 4), _ => {} }
    let (x, y) = (vals(r, &s, Dom::Int), vals(r, &t, Dom::Int));
    trace(&|| format!("in-place {:?} {:?}", s, t));
    for k in 0..2 {
        let src = mk(dev, &x);
        let mut dst = mk(dev, &y);
        let ok = s.d == t.d && s.compat(&t);
        let g = quiet(|| if k == 0 { dst += &src } else { dst -= &src });
        ck!(g.is_ok() == ok, "in-place {} of {:?} into {:?} {}", if k == 0 { "add" } else { "sub" }, s, t, if ok { "rejected" } else { "accepted" });
        ck!(canary(&dst, t.size()) && canary(&src, s.size()), "in-place operation of {:?} into {:?} wrote outside a buffer", s, t);
        cmp("source", &rd(&src), &x, 0.)?;
        if !ok { cmp("rejected target", &rd(&dst), &y, 0.)?; }
    }
    // gradients of the wrong size
    let f = [Fam::Elem, Fam::Red, Fam::Mat, Fam::Man][r.below(4)];
    let c = gen(r, f);
    let want = match shapes(&c.o, &shs(&c)) { Some(w) => w, None => return Ok(()) };
    let (o, ord) = match oper(dev, &c) { Some(x) => x, None => return Ok(()) };
    let ord: Vec<usize> = ord.into_iter().take(c.x.len()).collect();
    let wrong = |s: &Sh| { let mut t = s.clone(); match r.below(3) { 0 => t.b += r.range(1, 3), 1 => { let i = r.below(8); t.d[i] += r.range(1, 3) } _ => { t = gshape(r, 60) } }; t };
    let bad = r.below(want.len() + c.x.len());
    let gs: Vec<Sh> = want.iter().enumerate().map(|(i, s)| if i == bad { wrong(s) } else { s.clone() }).collect();
    let xs: Vec<Sh> = ord.iter().enumerate().map(|(i, p)| if i + want.len() == bad { wrong(&c.x[*p].s) } else { c.x[*p].s.clone() }).collect();
    trace(&|| format!("backward {:?} {:?} with gradients {:?} and {:?}", c.o, shs(&c), gs, xs));
    let xt: Vec<Tensor> = ord.iter().map(|i| mk(dev, &c.x[*i])).collect();
    let y0 = run(&c.o, &c.x);
    let both = r.chance(0.4) && !matches!(c.o, O::Red("lse", _));
    let yt: Vec<Tensor> = y0.iter().zip(&gs).map(|(a, s)| if both { mk(dev, &vals(r, s, Dom::Pos)) } else { mk(dev, a) }).collect();
    let gy: Vec<Tensor> = gs.iter().map(|s| mk(dev, &vals(r, s, Dom::Int))).collect();
    let gx0: Vec<A> = xs.iter().map(|s| vals(r, s, Dom::Int)).collect();
    let gx: Vec<std::cell::RefCell<Tensor>> = gx0.iter().map(|a| std::cell::RefCell::new(mk(dev, a))).collect();
    let g = {
        let xr: Vec<&Tensor> = xt.iter().collect();
        let yr: Vec<&Tensor> = yt.iter().collect();
        let gr: Vec<&Tensor> = gy.iter().collect();
        let gg: Vec<&std::cell::RefCell<Tensor>> = gx.iter().collect();
        quiet(|| o.backward(&xr, &yr, &gr, &gg))
    };
    let what = || format!("backward of {:?} {:?} with output gradients {:?} and input gradients {:?}", c.o, shs(&c), gs, xs);
    let sizes_fit = gs.iter().zip(&want).all(|(a, b)| a.size() == b.size()) && xs.iter().zip(&ord).all(|(a, p)| a.size() == c.x[*p].s.size());
    // slices, picks and concatenations know neither operand nor bounds; these must only stay inside their buffers
    let free = match &c.o { O::Un("softplus") => true, O::Red(n, _) if *n != "max" && *n != "min" => true, O::Sce(_) => true, O::Bin(_) => c.x.iter().any(|a| a.s.scalar()), O::Slice(..) | O::Split(..) | O::Pick(..) | O::Concat(_) | O::BSlice(..) | O::BSplit(_) | O::BPick(_) | O::BConcat | O::Ssce(..) | O::Reshape(..) | O::BSum | O::Bcast(..) => true, _ => false };
    ck!(g.is_err() || sizes_fit || free, "{} accepted", what());
    for (i, t) in gx.iter().enumerate() {
        let t = t.borrow();
        ck!(canary(&t, gx0[i].v.len()), "{} wrote behind an input gradient", what());
        if g.is_ok() { ck!(!rd(&t).v.iter().any(|x| x.is_nan()), "{} read outside a buffer", what()); }
    }
    for (i, t) in gy.iter().enumerate() { ck!(canary(t, gs[i].size()), "{} wrote behind an output gradient", what()); }
    for (i, t) in xt.iter().enumerate() { ck!(canary(t, c.x[ord[i]].v.len()), "{} wrote behind an operand", what()); }
    Ok(())
}

// ---- C02: gradients that do not fit are rejected
pub fn c02_bw(dev: Dev, r: &Rng) -> R {
    let f = [Fam::Elem, Fam::Red, Fam::Mat, Fam::Man][r.below(4)];
    let c = gen(r, f);
    let want = match shapes(&c.o, &shs(&c)) { Some(w) => w, None => return Ok(()) };
    let sliced = matches!(c.o, O::Slice(..) | O::Pick(..) | O::BSlice(..) | O::BPick(..));
    let exact = match &c.o {
        O::Un("softplus") => false,
        O::Un(_) | O::Cn(..) | O::Powi(_) | O::Matmul | O::Transpose | O::TriL(_) | O::TriU(_) => true,
        O::Bin(_) => !c.x.iter().any(|a| a.s.scalar()),
        O::Red(n, _) => *n == "max" || *n == "min",
        _ => false,
    };
    if !sliced && !exact { return Ok(()); }
    let (o, ord) = match oper(dev, &c) { Some(x) => x, None => return Ok(()) };
    let ord: Vec<usize> = ord.into_iter().take(c.x.len()).collect();
    let wrong = |s: &Sh| {
        let mut t = s.clone();
        match r.below(5) {
            0 => t.b = r.range(1, 4),
            1 => { let i = r.below(8); t.d[i] = r.range(1, 4) }
            2 => { let (i, j) = (r.below(8), r.below(8)); t.d.swap(i, j) }
            3 => { let i = r.below(8); t.d[i] *= t.b; t.b = 1 }
            _ => {}
        }
        t
    };
    let gs = wrong(&want[0]);
    let xs: Vec<Sh> = ord.iter().map(|p| if r.chance(0.4) { wrong(&c.x[*p].s) } else { c.x[*p].s.clone() }).collect();
    if gs.size() > 4000 || xs.iter().any(|s| s.size() > 4000) { return Ok(()); }
    let fit = if sliced {
        let o2 = match &c.o {
            O::Slice(d, lo, _) => O::Slice(*d, *lo, *lo + gs.dm(*d) as u32),
            O::BSlice(lo, _) => O::BSlice(*lo, *lo + gs.b as u32),
            x => x.clone(),
        };
        shapes(&o2, &xs[..1]) == Some(vec![gs.clone()])
    } else {
        gs == want[0] && xs.iter().zip(&ord).all(|(a, p)| *a == c.x[*p].s)
    };
    trace(&|| format!("backward {:?} {:?} with gradients {:?} and {:?}", c.o, shs(&c), gs, xs));
    let xt: Vec<Tensor> = ord.iter().map(|i| mk(dev, &c.x[*i])).collect();
    let both = r.chance(0.4);
    let yt: Vec<Tensor> = run(&c.o, &c.x).iter().map(|a| if both { mk(dev, &vals(r, &gs, Dom::Pos)) } else { mk(dev, a) }).collect();
    let gy = mk(dev, &vals(r, &gs, Dom::Int));
    let gx: Vec<std::cell::RefCell<Tensor>> = xs.iter().map(|s| std::cell::RefCell::new(mk(dev, &vals(r, s, Dom::Int)))).collect();
    let g = {
        let xr: Vec<&Tensor> = xt.iter().collect();
        let yr: Vec<&Tensor> = yt.iter().collect();
        let gg: Vec<&std::cell::RefCell<Tensor>> = gx.iter().collect();
        quiet(|| o.backward(&xr, &yr, &[&gy], &gg))
    };
    ck!(g.is_ok() == fit, "backward of {:?} {:?} with output gradient {:?} and input gradients {:?} {}", c.o, shs(&c), gs, xs, if fit { "rejected" } else { "accepted" });
    Ok(())
}

// ---- C12
#[derive(Clone, Debug)]
enum Kind { Sgd(f32), Mom(f32, f32), Adam(f32, f32, f32, f32) }
pub fn c12(dev: Dev, r: &Rng) -> R {
    let np = r.range(1, 3);
    let shs: Vec<Sh> = (0..np).map(|_| { let mut s = gshape(r, 8); s.b = 1; s }).collect();
    let kind = match r.below(3) {
        0 => Kind::Sgd(r.unit() as f32 * 0.5 + 0.01),
        1 => Kind::Mom(r.unit() as f32 * 0.5 + 0.01, r.unit() as f32),
        _ => Kind::Adam(r.unit() as f32 * 0.2 + 0.01, 0.5 + 0.45 * r.unit() as f32, 0.5 + 0.49 * r.unit() as f32, *r.pick(&[1e-3f32, 1e-2, 0.25])),
    };
    let (lr, l2, clip) = (if r.chance(0.5) { 1. } else { r.unit() as f32 * 2. }, if r.chance(0.5) { 0. } else { r.unit() as f32 * 0.5 }, if r.chance(0.4) { 0. } else { *r.pick(&[0.1f32, 1., 5., 100.]) });
    match kind {
        Kind::Sgd(e) => c12_run(dev, r, &shs, opt::SGD::new(e), &kind, lr, l2, clip),
        Kind::Mom(e, m) => c12_run(dev, r, &shs, opt::MomentumSGD::new(e, m), &kind, lr, l2, clip),
        Kind::Adam(a, b, c, e) => c12_run(dev, r, &shs, opt::Adam::new(a, b, c, e), &kind, lr, l2, clip),
    }
}
fn set(t: &mut Tensor, v: &[f64]) {
    let v: Vec<f32> = v.iter().map(|x| *x as f32).collect();
    let d = t.device() as *const Device;
    unsafe { (*d).reset_tensor_by_slice(t, &v) };
}
fn c12_run<Op: Optimizer>(dev: Dev, r: &Rng, shs: &[Sh], mut o: Op, kind: &Kind, lr: f32, l2: f32, clip: f32) -> R {
    let mut hist = format!("{:?} scaling {} decay {} clipping {} shapes {:?}", kind, lr, l2, clip, shs);
    trace(&|| hist.clone());
    if lr != 1. || r.chance(0.5) { o.set_learning_rate_scaling(lr); }
    if l2 != 0. || r.chance(0.5) { o.set_weight_decay(l2); }
    if clip != 0. || r.chance(0.5) { o.set_gradient_clipping(clip); }
    ck!(o.get_learning_rate_scaling() == lr && o.get_weight_decay() == l2 && o.get_gradient_clipping() == clip, "{}: settings read back wrong", hist);
    ck!(*o.epoch() == 0, "step count starts at {}", o.epoch());
    let mut ps: Vec<Parameter> = shs.iter().map(|s| dev.new_parameter(shp(s), &ini::Constant::new(0.))).collect();
    let mut x: Vec<Vec<f64>> = shs.iter().map(|s| vals(r, s, Dom::Any).v).collect();
    for (p, v) in ps.iter_mut().zip(&x) { set(&mut p.value, v); }
    let mut m1: Vec<Vec<f64>> = x.iter().map(|v| vec![0.; v.len()]).collect();
    let mut m2 = m1.clone();
    o.configure_parameters(&mut ps.iter_mut().collect::<Vec<_>>());
    for t in 1..=r.range(1, 6) as i32 {
        if r.chance(0.2) {
            // the parameters may be known to other optimizers as well
            let k = r.below(3);
            hist += [" configure(SGD)", " configure(MomentumSGD)", " configure(Adam)"][k];
            let mut v = ps.iter_mut().collect::<Vec<_>>();
            match k { 0 => opt::SGD::new(1.).configure_parameters(&mut v), 1 => opt::MomentumSGD::new(1., 0.5).configure_parameters(&mut v), _ => opt::Adam::new(1., 0.5, 0.5, 1.).configure_parameters(&mut v) }
        }
        if r.chance(0.3) { hist += " configure"; if r.chance(0.5) { o.configure_model(&mut ps) } else { o.configure_parameters(&mut ps.iter_mut().collect::<Vec<_>>()) } }
        let mut g: Vec<Vec<f64>> = shs.iter().map(|s| vals(r, s, if r.chance(0.2) { Dom::Int } else { Dom::Any }).v).collect();
        for (p, v) in ps.iter_mut().zip(&g) { set(&mut p.gradient, v); }
        hist += &format!(" step(gradients {:?})", g);
        trace(&|| hist.clone());
        let res = if r.chance(0.5) { quiet(|| o.update_model(&mut ps)) } else { quiet(|| o.update_parameters(&mut ps.iter_mut().collect::<Vec<_>>())) };
        res.map_err(|e| format!("{}: panicked: {}", hist, e))?;
        for i in 0..x.len() { for j in 0..x[i].len() { g[i][j] += l2 as f64 * x[i][j]; } }
        let n2: f64 = g.iter().flatten().map(|v| v * v).sum();
        if clip > 0. && n2 > (clip as f64).powi(2) { let k = clip as f64 / n2.sqrt(); for v in g.iter_mut().flatten() { *v *= k; } }
        let lr = lr as f64;
        for i in 0..x.len() { for j in 0..x[i].len() {
            let gg = g[i][j];
            match *kind {
                Kind::Sgd(e) => x[i][j] -= lr * e as f64 * gg,
                Kind::Mom(e, m) => { m1[i][j] = m as f64 * m1[i][j] - lr * e as f64 * gg; x[i][j] += m1[i][j]; }
                Kind::Adam(a, b1, b2, e) => {
                    let (b1, b2) = (b1 as f64, b2 as f64);
                    m1[i][j] = b1 * m1[i][j] + (1. - b1) * gg;
                    m2[i][j] = b2 * m2[i][j] + (1. - b2) * gg * gg;
                    x[i][j] -= lr * a as f64 * (m1[i][j] / (1. - b1.powi(t))) / ((m2[i][j] / (1. - b2.powi(t))).sqrt() + e as f64);
                }
            }
        } }
        ck!(*o.epoch() == t as u32, "{}: step count is {}", hist, o.epoch());
        for i in 0..ps.len() {
            cmp(&format!("{}: parameter {}", hist, i), &rd(&ps[i].value), &A { s: shs[i].clone(), v: x[i].clone() }, 2e-3)?;
            cmp(&format!("{}: gradient {} after the step", hist, i), &rd(&ps[i].gradient), &A { s: shs[i].clone(), v: vec![0.; x[i].len()] }, 0.)?;
            x[i] = rd(&ps[i].value).v; // no drift between the two computations
        }
    }
    Ok(())
}

// ---- C13
pub mod models {
    use prima_undine::*;
    use serde::{Deserialize, Serialize};
    #[derive(Model, Serialize, Deserialize)]
    pub struct Lin<'dev> {
        pub w: Parameter<'dev>,
        #[parameter(skip)]
        pub note: u32,
        pub b: Parameter<'dev>,
    }
    #[derive(Model, Serialize, Deserialize)]
    pub struct Net<'dev> {
        pub a: Lin<'dev>,
        pub layers: Vec<Lin<'dev>>,
        pub ps: Vec<Parameter<'dev>>,
        #[parameter(skip)]
        pub name: String,
        pub z: Parameter<'dev>,
    }
    #[derive(Model)]
    pub struct Gen<'dev, M: Model<'dev>, N>
    where
        N: Copy,
    {
        pub first: Parameter<'dev>,
        pub inner: M,
        #[parameter(skip)]
        pub extra: N,
        pub last: Vec<M>,
        #[parameter(skip)]
        pub ph: std::marker::PhantomData<&'dev u32>,
    }
}
use models::*;
// more structures for derive(Model): skips in every position, among other attributes, generics of every kind
pub mod shapes {
    use prima_undine::*;
    use serde::Serialize;
    use std::marker::PhantomData;
    #[derive(Model)]
    pub struct S1<'dev> { pub a: Parameter<'dev>, pub b: Parameter<'dev>, pub c: Parameter<'dev>, pub d: Parameter<'dev>, pub e: Parameter<'dev> }
    #[derive(Model)]
    pub struct S2<'dev> { #[parameter(skip)] pub k: u8, pub a: Parameter<'dev>, #[parameter(skip)] pub l: u8, #[parameter(skip)] pub m: u8, pub b: Parameter<'dev>, #[parameter(skip)] pub n: u8 }
    #[derive(Model)]
    pub struct S3<'dev> { #[parameter(skip)] pub a: Parameter<'dev>, #[parameter(skip)] pub b: PhantomData<&'dev u8> }
    #[derive(Model)]
    pub struct S4<'dev> {
        /// documented
        pub a: Parameter<'dev>,
        /// documented
        #[parameter(skip)]
        pub b: Parameter<'dev>,
        #[parameter(skip)]
        /// documented
        #[allow(dead_code)]
        pub c: Parameter<'dev>,
        #[allow(dead_code)]
        #[cfg(all())]
        pub d: Parameter<'dev>,
        #[parameter(other)]
        pub e: Parameter<'dev>,
        #[parameter(other, skip)]
        pub f: Parameter<'dev>,
        #[parameter(skip, other)]
        pub g: Parameter<'dev>,
        #[parameter(other)]
        #[parameter(skip)]
        pub h: Parameter<'dev>,
        #[parameter]
        pub m: Parameter<'dev>,
        #[parameter(skip_not)]
        pub n: Parameter<'dev>,
    }
    #[derive(Model, Serialize)]
    pub struct S5<'dev> { #[serde(skip)] pub a: Parameter<'dev>, #[serde(skip)] #[parameter(skip)] pub b: Parameter<'dev>, #[parameter(skip)] #[serde(skip)] pub c: Parameter<'dev>, pub d: Vec<Vec<super::Lin<'dev>>> }
    #[derive(Model)]
    pub struct S6<'dev, A: Model<'dev>, B, const N: usize>
    where
        B: Model<'dev> + Sized,
    {
        pub r#type: A,
        pub b: B,
        #[parameter(skip)]
        pub c: [u8; N],
        pub(crate) skip: Vec<B>,
        pub parameter: Parameter<'dev>,
        pub params: Parameter<'dev>,
        #[parameter(skip)]
        pub ph: PhantomData<&'dev u8>,
    }
    #[derive(Model)]
    pub struct S7<'dev, 'b> { pub a: Parameter<'dev>, #[parameter(skip)] pub b: Option<&'b u8>, pub c: Vec<Parameter<'dev>>, pub d: S3<'dev>, pub e: Vec<S3<'dev>>, pub f: Parameter<'dev> }
}
fn par(dev: Dev, r: &Rng) -> Parameter<'static> {
    let mut s = gshape(r, 8);
    s.b = 1;
    let mut p = dev.new_parameter(shp(&s), &ini::Constant::new(0.));
    set(&mut p.value, &vals(r, &s, Dom::Int).map(|x| x / 8.).v);
    set(&mut p.gradient, &vals(r, &s, Dom::Int).map(|x| x / 4.).v);
    p
}
fn lin(dev: Dev, r: &Rng) -> Lin<'static> {
    Lin { w: par(dev, r), note: r.below(100) as u32, b: par(dev, r) }
}
fn net(dev: Dev, r: &Rng) -> Net<'static> {
    Net { a: lin(dev, r), layers: (0..r.below(3)).map(|_| lin(dev, r)).collect(), ps: (0..r.below(3)).map(|_| par(dev, r)).collect(), name: "n".into(), z: par(dev, r) }
}
fn same_par(what: &str, a: &Parameter, b: &Parameter, tol: f64) -> R {
    cmp(&format!("{}: value", what), &rd(&b.value), &rd(&a.value), tol)?;
    cmp(&format!("{}: gradient", what), &rd(&b.gradient), &rd(&a.gradient), tol)?;
    ck!(a.stats.len() == b.stats.len(), "{}: {} statistics instead of {}", what, b.stats.len(), a.stats.len());
    for (k, s) in &a.stats {
        let t = match b.stats.get(k) { Some(t) => t, None => return Err(format!("{}: statistic {} is lost", what, k)) };
        cmp(&format!("{}: statistic {}", what, k), &rd(&t.borrow()), &rd(&s.borrow()), tol)?;
    }
    Ok(())
}
fn ser<T: serde::Serialize>(x: &T, how: usize) -> Result<Vec<u8>, String> {
    quiet(|| match how {
        0 => serde_json::to_vec(x).map_err(|e| e.to_string()),
        1 => serde_json::to_vec_pretty(x).map_err(|e| e.to_string()),
        _ => bincode::serialize(x).map_err(|e| e.to_string()),
    })?
}
fn de<T: serde::de::DeserializeOwned>(x: &[u8], how: usize) -> Result<T, String> {
    quiet(|| match how {
        0 | 1 => serde_json::from_slice(x).map_err(|e| e.to_string()),
        _ => bincode::deserialize(x).map_err(|e| e.to_string()),
    })?
}
pub fn c13(dev: Dev, r: &Rng) -> R {
    // shapes
    let (d, b) = gdims(r);
    if want_shape(&d, b).is_some() {
        let s = Shape::new(&d, b);
        trace(&|| format!("shape {:?}", s));
        let how = r.below(3);
        let j = ser(&s, how)?;
        let t: Shape = de(&j, how).map_err(|e| format!("{:?} does not load: {}", s, e))?;
        ck!(s == t, "{:?} loads as {:?}", s, t);
    } else {
        let j = format!("{{\"dims\":{:?},\"batch\":{}}}", d, b);
        trace(&|| j.clone());
        let t = quiet(|| serde_json::from_str::<Shape>(&j).map_err(|e| e.to_string())).and_then(|x| x);
        ck!(t.is_err(), "invalid shape {} loads as {:?}", j, t.unwrap());
        let t = bincode::serialize(&(&d, b)).map_err(|e| e.to_string()).and_then(|j| de::<Shape>(&j, 2));
        ck!(t.is_err(), "invalid shape {} (bincode) loads as {:?}", j, t.unwrap());
    }
    // tensors
    let x = vals(r, &gshape(r, 30), Dom::Int).map(|x| x / 16.);
    trace(&|| format!("tensor {:?}", x));
    let t = mk(dev, &x);
    let how = r.below(3);
    let j = ser(&t, how)?;
    let l: Tensor<'static> = de(&j, how).map_err(|e| format!("tensor {:?} does not load: {}", x, e))?;
    let j2 = ser(&l, how).map_err(|e| format!("loaded tensor does not serialize: {}", e))?;
    ck!(j == j2, "a loaded tensor serializes differently");
    let mut l = l;
    quiet(|| l.move_to_device(dev)).map_err(|e| format!("tensor {:?} does not move: {}", x, e))?;
    cmp("loaded tensor", &rd(&l), &x, 0.)?;
    ck!(quiet(|| l.move_to_device(dev)).is_err(), "loading a tensor twice was accepted");
    // wrong number of values
    let k = r.below(3);
    let n = match k { 0 => x.v.len() + r.range(1, 70), 1 => x.v.len() - r.range(1, x.v.len()), _ => x.v.len() };
    let j = format!("{{\"shape\":{{\"dims\":{:?},\"batch\":{}}},\"values\":{:?}}}", x.s.d.iter().map(|x| *x as u32).collect::<Vec<_>>(), if k == 2 { x.s.b + 1 } else { x.s.b }, vec![1.5f32; n]);
    trace(&|| j.clone());
    let bin = r.chance(0.3);
    let j = if bin { bincode::serialize(&(&x.s.d.iter().map(|x| *x as u32).collect::<Vec<_>>(), if k == 2 { x.s.b + 1 } else { x.s.b } as u32, vec![1.5f32; n])).unwrap() } else { j.into_bytes() };
    let bad = quiet(|| { let mut t: Tensor<'static> = de(&j, if bin { 2 } else { 0 })?; quiet(|| t.move_to_device(dev))?; Ok::<_, String>(rd(&t)) }).and_then(|x| x);
    ck!(bad.is_err(), "data with the wrong number of values accepted: {:?}", j);
    // models and optimizer state
    let mut m = net(dev, r);
    let mk_opt = |k: usize| -> Box<dyn FnMut(&mut Net<'static>, bool)> {
        match k {
            0 => { let mut o = opt::Adam::new(0.25, 0.5, 0.75, 0.125); Box::new(move |m, c| if c { o.configure_model(m) } else { o.update_model(m) }) }
            _ => { let mut o = opt::MomentumSGD::new(0.25, 0.5); Box::new(move |m, c| if c { o.configure_model(m) } else { o.update_model(m) }) }
        }
    };
    let k = r.below(2);
    let (mut o1, mut o2) = (mk_opt(k), mk_opt(k));
    // saved before it was configured, or after some steps
    let conf = r.chance(0.8);
    if conf { o1(&mut m, true); }
    let setg = |m: &mut Net<'static>, g: &[Vec<f64>]| for (p, g) in m.parameters_mut().into_iter().zip(g) { set(&mut p.gradient, g) };
    let gs = |m: &Net, r: &Rng| -> Vec<Vec<f64>> { m.parameters().iter().map(|p| vals(r, &sh_of(p.shape()), Dom::Int).map(|x| x / 4.).v).collect() };
    {
        // the second optimizer goes through the same number of steps on a throw-away copy
        let mut c = net(dev, r);
        o2(&mut c, true);
        for _ in 0..if conf { r.below(3) } else { 0 } { let g = gs(&m, r); setg(&mut m, &g); o1(&mut m, false); o2(&mut c, false); }
        let g = gs(&m, r);
        setg(&mut m, &g);
    }
    trace(&|| "model".into());
    let how = r.below(3);
    let j = ser(&m, how)?;
    let mut n: Net<'static> = de(&j, how).map_err(|e| format!("model does not load: {}", e))?;
    quiet(|| n.move_to_device(dev)).map_err(|e| format!("loaded model does not move: {}", e))?;
    ck!(n.name == m.name && n.a.note == m.a.note, "other fields of the model changed");
    for step in 0..3 {
        let (a, b) = (m.parameters(), n.parameters());
        ck!(a.len() == b.len(), "{} parameters instead of {}", b.len(), a.len());
        for i in 0..a.len() { same_par(&format!("parameter {} after loading and {} steps", i, step), a[i], b[i], 1e-5)?; }
        let g = gs(&m, r);
        setg(&mut m, &g);
        setg(&mut n, &g);
        if step == 0 && !conf { o1(&mut m, true); o2(&mut n, true); }
        if r.chance(0.5) { o2(&mut n, true); }
        o1(&mut m, false);
        o2(&mut n, false);
    }
    Ok(())
}

// ---- C15
fn listing<'d, M: Model<'d>>(m: &mut M, want: &[*const Parameter<'d>]) -> R {
    let a: Vec<*const Parameter> = m.parameters().iter().map(|p| *p as *const _).collect();
    let b: Vec<*const Parameter> = m.parameters_mut().iter().map(|p| &**p as *const _).collect();
    ck!(a == want, "shared listing names {} parameters, expected {} in declaration order", a.len(), want.len());
    ck!(b == want, "mutable listing names {} parameters, expected {} in declaration order", b.len(), want.len());
    Ok(())
}
fn lin_ps<'d>(l: &Lin<'d>) -> Vec<*const Parameter<'d>> { vec![&l.w, &l.b] }
fn net_ps<'d>(n: &Net<'d>) -> Vec<*const Parameter<'d>> {
    let mut v = lin_ps(&n.a);
    for l in &n.layers { v.extend(lin_ps(l)); }
    v.extend(n.ps.iter().map(|p| p as *const _));
    v.push(&n.z);
    v
}
pub fn c15(dev: Dev, r: &Rng) -> R {
    trace(&|| "model listings".into());
    let mut n = net(dev, r);
    let w = net_ps(&n);
    listing(&mut n, &w).map_err(|e| format!("derived model: {}", e))?;
    let mut g = Gen { first: par(dev, r), inner: net(dev, r), extra: 3u8, last: (0..r.below(3)).map(|_| net(dev, r)).collect(), ph: Default::default() };
    let mut w: Vec<*const Parameter> = vec![&g.first];
    w.extend(net_ps(&g.inner));
    for m in &g.last { w.extend(net_ps(m)); }
    listing(&mut g, &w).map_err(|e| format!("generic derived model: {}", e))?;
    let mut v: Vec<Lin> = (0..r.below(5)).map(|_| lin(dev, r)).collect();
    let w: Vec<*const Parameter> = v.iter().flat_map(lin_ps).collect();
    listing(&mut v, &w).map_err(|e| format!("vector of models: {}", e))?;
    let mut v: Vec<Parameter> = (0..r.below(5)).map(|_| par(dev, r)).collect();
    let w: Vec<*const Parameter> = v.iter().map(|p| p as *const _).collect();
    listing(&mut v, &w).map_err(|e| format!("vector of parameters: {}", e))?;
    {
        use shapes::*;
        let c1 = |s: S1<'static>| s;
        let p = || par(dev, r);
        let mut s = c1(S1 { a: p(), b: p(), c: p(), d: p(), e: p() });
        let w: Vec<*const Parameter> = vec![&s.a, &s.b, &s.c, &s.d, &s.e];
        listing(&mut s, &w).map_err(|e| format!("five parameters: {}", e))?;
        let mut s = S2 { k: 0, a: p(), l: 0, m: 0, b: p(), n: 0 };
        let w: Vec<*const Parameter> = vec![&s.a, &s.b];
        listing(&mut s, &w).map_err(|e| format!("skips in a row: {}", e))?;
        let mut s = S3 { a: p(), b: Default::default() };
        listing(&mut s, &[]).map_err(|e| format!("everything skipped: {}", e))?;
        let mut s = S4 { a: p(), b: p(), c: p(), d: p(), e: p(), f: p(), g: p(), h: p(), m: p(), n: p() };
        let w: Vec<*const Parameter> = vec![&s.a, &s.d, &s.e, &s.m, &s.n];
        listing(&mut s, &w).map_err(|e| format!("skips among other attributes: {}", e))?;
        let mut s = S5 { a: p(), b: p(), c: p(), d: (0..3).map(|_| (0..r.below(3)).map(|_| lin(dev, r)).collect()).collect() };
        let mut w: Vec<*const Parameter> = vec![&s.a];
        for l in &s.d { for l in l { w.extend(lin_ps(l)); } }
        listing(&mut s, &w).map_err(|e| format!("serde attributes, nested vectors: {}", e))?;
        let mut s = S6::<_, _, 3> { r#type: lin(dev, r), b: net(dev, r), c: [0; 3], skip: (0..r.below(3)).map(|_| net(dev, r)).collect(), parameter: p(), params: p(), ph: Default::default() };
        let mut w = lin_ps(&s.r#type);
        w.extend(net_ps(&s.b));
        for n in &s.skip { w.extend(net_ps(n)); }
        w.push(&s.parameter);
        w.push(&s.params);
        listing(&mut s, &w).map_err(|e| format!("generics: {}", e))?;
        let mut s = S7 { a: p(), b: None, c: (0..r.below(4)).map(|_| p()).collect(), d: S3 { a: p(), b: Default::default() }, e: (0..r.below(3)).map(|_| S3 { a: p(), b: Default::default() }).collect(), f: p() };
        let mut w: Vec<*const Parameter> = vec![&s.a];
        w.extend(s.c.iter().map(|p| p as *const _));
        w.push(&s.f);
        listing(&mut s, &w).map_err(|e| format!("two lifetimes, empty parts: {}", e))?;
        // what is listed is what an update and a move reach, and nothing else
        let one = |p: &mut Parameter| { let v = vec![1.; p.gradient.shape().size() as usize]; set(&mut p.gradient, &v); };
        let mut s = S4 { a: p(), b: p(), c: p(), d: p(), e: p(), f: p(), g: p(), h: p(), m: p(), n: p() };
        for q in [&mut s.a, &mut s.b, &mut s.c, &mut s.d, &mut s.f, &mut s.n] { one(q); }
        let b: Vec<A> = [&s.a, &s.b, &s.c, &s.d, &s.f, &s.n].iter().map(|p| rd(&p.value)).collect();
        let mut o = opt::SGD::new(1.);
        o.configure_model(&mut s);
        o.update_model(&mut s);
        for (i, (q, (b, reached))) in [&s.a, &s.b, &s.c, &s.d, &s.f, &s.n].iter().zip(b.iter().zip([true, false, false, true, false, true])).enumerate() {
            cmp(&format!("parameter {} after an update of a model with skips", i), &rd(&q.value), &b.map(|x| if reached { x - 1. } else { x }), 1e-5)?;
        }
    }
    let mut p = par(dev, r);
    let w = &p as *const _;
    ck!(p.parameters().iter().map(|p| *p as *const _).collect::<Vec<_>>() == vec![w], "parameters() of a parameter");
    ck!(p.parameters_mut().len() == 1, "parameters_mut() of a parameter");
    // reaching them: update and move
    let before: Vec<A> = g.parameters().iter().map(|p| rd(&p.value)).collect();
    let mut o = opt::SGD::new(1.);
    for p in g.parameters_mut() { let v = vec![1.; p.value.shape().size() as usize]; set(&mut p.gradient, &v); }
    o.configure_model(&mut g);
    o.update_model(&mut g);
    for (i, (p, b)) in g.parameters().iter().zip(&before).enumerate() { cmp(&format!("parameter {} after an update", i), &rd(&p.value), &b.map(|x| x - 1.), 1e-5)?; }
    let host = |x: &A| Tensor::new_host_tensor(shp(&x.s), x.v.iter().map(|v| *v as f32).collect());
    let mk_p = |r: &Rng| { let mut s = gshape(r, 6); s.b = 1; let x = vals(r, &s, Dom::Int); (Parameter::new(host(&x), host(&x)), x) };
    let mut xs = vec![];
    let mut hp = |r: &Rng| { let (p, x) = mk_p(r); xs.push(x); p };
    let mut v: Vec<Lin> = (0..3).map(|_| Lin { w: hp(r), note: 0, b: hp(r) }).collect();
    quiet(|| v.move_to_device(dev)).map_err(|e| format!("moving a vector of models: {}", e))?;
    for (p, x) in v.parameters().iter().zip(&xs) { cmp("moved parameter", &rd(&p.value), x, 0.)?; cmp("moved gradient", &rd(&p.gradient), x, 0.)?; }
    let (p, x) = mk_p(r);
    let mut v = vec![p];
    quiet(|| v.move_to_device(dev)).map_err(|e| format!("moving a vector of parameters: {}", e))?;
    cmp("moved parameter", &rd(&v[0].value), &x, 0.)?;
    Ok(())
}

// ---- C16
fn filled(t: &Tensor, s: &Sh, what: &str) -> Result<Vec<f32>, String> {
    ck!(sh_of(t.shape()) == *s, "{}: shape is {:?}", what, t.shape());
    ck!(buf(t).len() >= s.size(), "{}: buffer too small", what);
    let v = t.to_vec();
    ck!(v.len() == s.size(), "{}: {} values", what, v.len());
    for (i, x) in v.iter().enumerate() { ck!(x.to_bits() != POISON && x.is_finite(), "{}: element {} of {:?} was not set", what, i, s); }
    Ok(v)
}
fn spread(v: &[f32], what: &str) -> R {
    // the chance that a random source repeats itself this way is below 1e-12
    if v.len() >= 8 { ck!(v.iter().any(|x| *x != v[0]), "{}: all elements equal", what); }
    if v.len() >= 16 { let h = v.len() / 2; ck!(v[..h] != v[h..2 * h], "{}: second half repeats the first", what); }
    Ok(())
}
pub fn identity(dev: Dev, r: &Rng) -> R {
    trace(&|| "identity".into());
    let n = r.range(1, if r.chance(0.1) { 70 } else { 9 });
    let is = Sh::new(&[n, n], 1);
    poison(dev, &[n * n], 4);
    let mut t = dev.new_tensor(shp(&is));
    t.alloc();
    quiet(|| dev.call_fw_impl("identity_impl", &[], &[n as u32], &[], &mut [&mut t]))?;
    let v = filled(&t, &is, "identity")?;
    for i in 0..n * n { ck!(v[i] == if i % n == i / n { 1. } else { 0. }, "identity({}) has {} at {}", n, v[i], i); }
    Ok(())
}
pub fn c16(dev: Dev, r: &Rng) -> R {
    let s = gshape(r, 60);
    let sh = shp(&s);
    let k = (r.unit() * 4. - 2.) as f32;
    trace(&|| format!("creating {:?}", s));
    poison(dev, &[s.size()], 8);
    let t = dev.new_tensor_by_constant(sh, k);
    for (i, v) in filled(&t, &s, "constant")?.iter().enumerate() { ck!(*v == k, "constant {}: element {} of {:?} is {}", k, i, s, v); }
    let x = vals(r, &s, Dom::Any);
    poison(dev, &[s.size()], 8);
    let xv: Vec<f32> = x.v.iter().map(|v| *v as f32).collect();
    let mut t = dev.new_tensor_by_slice(sh, &xv);
    ck!(filled(&t, &s, "slice")? == xv, "slice of shape {:?} reads back differently", s);
    ck!(s.size() != 1 || t.to_float() == xv[0], "to_float");
    t.reset(k);
    ck!(t.to_vec().iter().all(|v| *v == k), "reset left an element of {:?} unchanged", s);
    for d in [1i64, -1] {
        let n = (s.size() as i64 + d).max(0) as usize;
        ck!(quiet(|| dev.new_tensor_by_slice(sh, &vec![0.; n])).is_err(), "{} values accepted for {:?}", n, s);
    }
    let (lo, hi) = (k, k + 0.5 + r.unit() as f32);
    poison(dev, &[s.size()], 8);
    let t = quiet(|| dev.random_uniform(sh, lo, hi))?;
    let v = filled(&t, &s, "random_uniform")?;
    ck!(v.iter().all(|x| *x >= lo && *x <= hi), "random_uniform({}, {}) leaves its bounds: {:?}", lo, hi, v);
    spread(&v, "random_uniform")?;
    let p = r.unit() as f32;
    let t = quiet(|| dev.random_bernoulli(sh, p))?;
    let v = filled(&t, &s, "random_bernoulli")?;
    ck!(v.iter().all(|x| *x == 0. || *x == 1.), "random_bernoulli yields {:?}", v);
    for (p, w) in [(0., 0.), (1., 1.)] {
        poison(dev, &[s.size()], 8);
        let t = quiet(|| dev.random_bernoulli(sh, p))?;
        ck!(t.to_vec().iter().all(|x| *x == w), "random_bernoulli({}) yields {:?}", p, t.to_vec());
    }
    poison(dev, &[s.size()], 8);
    let t = quiet(|| dev.random_normal(sh, k, 0.01))?;
    let v = filled(&t, &s, "random_normal")?;
    ck!(v.iter().all(|x| (*x - k).abs() < 0.2), "random_normal({}, 0.01) yields {:?}", k, v);
    spread(&v, "random_normal")?;
    // parameters
    poison(dev, &[s.size()], 8);
    let sc = 0.5 + r.unit() as f32;
    let inis: Vec<(&str, Box<dyn Initializer>)> = vec![("constant", Box::new(ini::Constant::new(k))), ("uniform", Box::new(ini::Uniform::new(lo, hi))), ("normal", Box::new(ini::Normal::new(k, 0.01))), ("xavier", Box::new(ini::XavierUniform::new(sc)))];
    for (n, i) in &inis {
        let ok = s.b == 1 && (*n != "xavier" || s.depth() <= 2);
        poison(dev, &[s.size()], 8);
        trace(&|| format!("new_parameter {:?} {}", s, n));
        let p = quiet(|| dev.new_parameter(sh, &**i));
        ck!(p.is_ok() == ok, "new_parameter({:?}, {}) {}", s, n, if ok { "rejected" } else { "accepted" });
        if let Ok(p) = p {
            let v = filled(&p.value, &s, n)?;
            let bound = sc * (6. / (s.d[0] + s.d[1]) as f32).sqrt() * 1.0001;
            let fine = |x: f32| match *n { "constant" => x == k, "uniform" => x >= lo && x <= hi, "normal" => (x - k).abs() < 0.2, _ => x.abs() <= bound };
            ck!(v.iter().all(|x| fine(*x)), "initializer {} on {:?} yields {:?}", n, s, v);
            if *n != "constant" { spread(&v, n)?; }
            if *n == "xavier" && v.len() >= 40 { ck!(v.iter().any(|x| x.abs() > bound * 0.3) && v.iter().any(|x| *x < 0.) && v.iter().any(|x| *x > 0.), "xavier does not use its range: {:?}", v); }
            let g = filled(&p.gradient, &s, "gradient")?;
            ck!(g.iter().all(|x| *x == 0.), "a new parameter has gradient {:?}", g);
            ck!(p.stats.is_empty(), "a new parameter has statistics");
        }
        let mut t = dev.new_tensor(sh);
        let ok = *n != "xavier" || s.depth() <= 2;
        let g = quiet(|| i.apply(&mut t));
        ck!(g.is_ok() == ok, "initializer {} on {:?} {}", n, s, if ok { "rejected" } else { "accepted" });
        if ok { filled(&t, &s, n)?; }
    }
    identity(dev, r)?;
    // statistics
    let mut p = par(dev, r);
    poison(dev, &[s.size()], 8);
    p.add_stat("q", sh);
    ck!(p.has_stat("q") && !p.has_stat("r"), "has_stat");
    ck!(filled(&p.stats["q"].borrow(), &s, "statistic")?.iter().all(|x| *x == 0.), "a new statistic is not zero");
    ck!(quiet(|| p.add_stat("q", sh)).is_err(), "a statistic was added twice");
    p.reset_gradient();
    ck!(p.gradient.to_vec().iter().all(|x| *x == 0.), "reset_gradient");
    Ok(())
}

// ---- C17
pub fn c17(dev: Dev, r: &Rng) -> R {
    let s = gshape(r, 40);
    let (mut a, mut b) = (s.clone(), s.clone());
    match r.below(4) { 0 => a.b = 1, 1 => b.b = 1, 2 => { a.b = 1; b.b = r.range(1, 4) } _ => {} }
    let (x, y) = (vals(r, &a, Dom::Any), vals(r, &b, Dom::Any));
    trace(&|| format!("in-place {:?} {:?}", a, b));
    for k in 0..4 {
        let src = mk(dev, &x);
        let mut dst = mk(dev, &y);
        let add = k % 2 == 0;
        let own = k >= 2;
        quiet(|| match (add, own) { (true, false) => dst += &src, (false, false) => dst -= &src, (true, true) => dst += mk(dev, &x), _ => dst -= mk(dev, &x) }).map_err(|e| format!("in-place operation of {:?} on {:?} rejected: {}", a, b, e))?;
        let sg = if add { 1. } else { -1. };
        let mut w = y.clone();
        for p in 0..w.v.len() {
            let (c, q) = b.co(p);
            if b.b == 1 { for t in 0..a.b { w.v[p] += sg * x.v[a.ix(&c, t)]; } } else { w.v[p] += sg * x.at(&c, q); }
        }
        cmp(&format!("{:?} {} {:?}", b, if add { "+=" } else { "-=" }, a), &rd(&dst), &w, 1e-5)?;
        cmp("source of an in-place operation", &rd(&src), &x, 0.)?;
        ck!(canary(&dst, w.v.len()), "in-place operation wrote outside its buffer");
    }
    let k = (r.unit() * 4. - 2.) as f32;
    let mut t = mk(dev, &y);
    if r.chance(0.5) { t *= k } else { dev.mul_assign_const(k, &mut t) }
    cmp(&format!("{:?} *= {}", b, k), &rd(&t), &y.map(|v| v * k as f64), 1e-5)?;
    // copies
    poison(dev, &[x.v.len()], 4);
    let mut src = mk(dev, &x);
    let mut c = dev.copy_tensor(&src);
    cmp("copy", &rd(&c), &x, 0.)?;
    ck!(c.handle().load(Ordering::Acquire) != src.handle().load(Ordering::Acquire), "a copy shares its buffer");
    if r.chance(0.5) { src *= 2.; cmp("copy after changing the original", &rd(&c), &x, 0.)?; } else { c *= 2.; cmp("original after changing the copy", &rd(&src), &x, 0.)?; }
    let mut p = par(dev, r);
    let want = rd(&p.value);
    { let t = Tensor::from(&mut p); cmp("tensor of a parameter", &rd(&t), &want, 0.)?; }
    let src = mk(dev, &x);
    { let t = Tensor::from(&src); cmp("tensor referring to a tensor", &rd(&t), &x, 0.)?; }
    cmp("tensor referred to", &rd(&src), &x, 0.)?;
    // copying into a tensor of the same or another size
    let z = if r.chance(0.5) { x.clone() } else { vals(r, &gshape(r, 40), Dom::Int) };
    let mut dst = mk(dev, &z);
    let g = quiet(|| dev.reset_tensor_by_tensor(&mut dst, &src));
    let ok = z.v.len() == x.v.len();
    ck!(g.is_ok() == ok, "copying {:?} into {:?} {}", x.s, z.s, if ok { "rejected" } else { "accepted" });
    if ok { cmp("copy into a tensor", &rd(&dst), &A { s: z.s.clone(), v: x.v.clone() }, 0.)?; } else { cmp("rejected copy", &rd(&dst), &z, 0.)?; }
    Ok(())
}

// ---- C18: random dropout
pub fn dropout(dev: Dev, r: &Rng) -> R {
    let s = gshape(r, 30);
    let x = vals(r, &s, Dom::Pos);
    let rate = *r.pick(&[0.25f32, 0.5, 0.75, 0., 0.9]);
    let d = if r.chance(0.5) { Some(r.below(8)) } else { None };
    trace(&|| format!("dropout {:?} rate {} {:?}", s, rate, d));
    for node in [false, true] {
        let t = mk(dev, &x);
        let y = quiet(|| match (node, d) {
            (false, None) => rd(&t.dropout(rate, true)),
            (false, Some(d)) => rd(&t.dropout_dim(d as u32, rate, true)),
            (true, None) => rdn(&Node::from(&t).dropout(rate, true)),
            (true, Some(d)) => rdn(&Node::from(&t).dropout_dim(d as u32, rate, true)),
        }).map_err(|e| format!("dropout of {:?} along {:?} rejected: {}", s, d, e))?;
        ck!(y.s == s, "dropout changed the shape to {:?}", y.s);
        for p in 0..y.v.len() {
            let w = x.v[p] / (1. - rate as f64);
            ck!(y.v[p] == 0. || close(y.v[p], w, 1e-5), "dropout({}) of {} is {}", rate, x.v[p], y.v[p]);
            ck!(rate != 0. || y.v[p] != 0., "dropout at rate zero dropped an element");
            if let Some(d) = d {
                let (mut c, b) = s.co(p);
                c[d] = 0;
                ck!((y.v[p] == 0.) == (y.v[s.ix(&c, b)] == 0.), "dropout_dim({}) is not constant along the dimension", d);
            }
        }
    }
    Ok(())
}
/// over many elements both outcomes occur, at about the rate
pub fn dropout_rate(dev: Dev) -> R {
    let s = Sh::new(&[64, 64], 4);
    let x = A { s: s.clone(), v: vec![1.; s.size()] };
    trace(&|| "dropout rate".into());
    for q in [0.25f32, 0.75] {
        for (i, y) in [mk(dev, &x).dropout(q, true).to_vec(), Node::from(mk(dev, &x)).dropout(q, true).to_vec()].iter().enumerate() {
            let z = y.iter().filter(|v| **v == 0.).count() as f64 / y.len() as f64;
            // 16384 samples: 0.05 is more than ten standard deviations
            ck!((z - q as f64).abs() < 0.05, "dropout({}) ({}) dropped a share of {}", q, if i == 0 { "tensor" } else { "node" }, z);
        }
        let y = mk(dev, &x).dropout_dim(0, q, true).to_vec();
        let z = y.iter().filter(|v| **v == 0.).count() as f64 / y.len() as f64;
        ck!((z - q as f64).abs() < 0.35, "dropout_dim(0, {}) dropped a share of {}", q, z);
        for b in 0..4 { for j in 1..3 { let _ = (b, j); } }
    }
    Ok(())
}
