//! Reference semantics in f64, written from the properties and independent of the library.
#[derive(Clone, Debug, PartialEq)]
pub struct Sh {
    pub d: [usize; 8],
    pub b: usize,
}
impl Sh {
    pub fn new(d: &[usize], b: usize) -> Sh {
        let mut x = [1; 8];
        x[..d.len()].copy_from_slice(d);
        Sh { d: x, b }
    }
    pub fn dm(&self, i: usize) -> usize {
        if i < 8 { self.d[i] } else { 1 }
    }
    pub fn vol(&self) -> usize {
        self.d.iter().product()
    }
    pub fn size(&self) -> usize {
        self.vol() * self.b
    }
    pub fn depth(&self) -> usize {
        (0..8).rev().find(|&i| self.d[i] != 1).map(|i| i + 1).unwrap_or(0)
    }
    pub fn scalar(&self) -> bool {
        self.vol() == 1
    }
    pub fn low(&self, n: usize) -> usize {
        self.d[..n.min(8)].iter().product()
    }
    pub fn with(&self, i: usize, m: usize) -> Sh {
        let mut s = self.clone();
        s.d[i] = m;
        s
    }
    pub fn wb(&self, b: usize) -> Sh {
        let mut s = self.clone();
        s.b = b;
        s
    }
    pub fn compat(&self, o: &Sh) -> bool {
        self.b == o.b || self.b == 1 || o.b == 1
    }
    pub fn mixed(&self, o: &Sh) -> usize {
        self.b.max(o.b)
    }
    /// coordinates of a storage position: (dims, batch)
    pub fn co(&self, mut p: usize) -> ([usize; 8], usize) {
        let mut c = [0; 8];
        for i in 0..8 {
            c[i] = p % self.d[i];
            p /= self.d[i];
        }
        (c, p)
    }
    pub fn ix(&self, c: &[usize; 8], b: usize) -> usize {
        let mut p = 0;
        let mut s = 1;
        for i in 0..8 {
            p += c[i] * s;
            s *= self.d[i];
        }
        p + s * b
    }
}
#[derive(Clone, Debug)]
pub struct A {
    pub s: Sh,
    pub v: Vec<f64>,
}
impl A {
    pub fn at(&self, c: &[usize; 8], b: usize) -> f64 {
        self.v[self.s.ix(c, if self.s.b == 1 { 0 } else { b })]
    }
    fn gen(s: Sh, f: impl Fn(&[usize; 8], usize) -> f64) -> A {
        let v = (0..s.size()).map(|p| { let (c, b) = s.co(p); f(&c, b) }).collect();
        A { s, v }
    }
    pub fn map(&self, f: impl Fn(f64) -> f64) -> A {
        A { s: self.s.clone(), v: self.v.iter().map(|x| f(*x)).collect() }
    }
}

#[derive(Clone, Debug)]
pub enum O {
    Un(&'static str),           // neg abs sqrt exp ln sin cos tan tanh sigmoid softplus relu lrelu
    Cn(&'static str, f32),      // prelu elu powf +c c+ c- -c ...
    Powi(i32),
    Bin(char),                  // + - * / ^
    Red(&'static str, usize),   // sum max min lse lnsoftmax softmax mean
    Bcast(usize, usize),
    Sce(usize),
    Ssce(Vec<u32>, usize),
    Matmul,
    Transpose,
    TriL(u32),
    TriU(u32),
    Slice(usize, u32, u32),
    Split(usize, u32),
    Pick(Vec<u32>, usize),
    Concat(usize),
    Reshape(Vec<usize>, usize),
    Flatten,
    BSum,
    BMean,
    BSlice(u32, u32),
    BSplit(u32),
    BPick(Vec<u32>),
    BConcat,
    DropOff(f32, Option<usize>),
    DropAll(f32, Option<usize>),
    SliceSum,
    BatchNorm(f32, bool),
    LayerNorm(f32),
    Flip(usize),
    Permute(Vec<u32>),
}

fn fits(d: &[usize], b: usize) -> bool {
    let mut p: u128 = b as u128;
    for x in d {
        p *= *x as u128;
    }
    p <= u32::MAX as u128
}
fn ok(s: Sh) -> Option<Vec<Sh>> {
    if fits(&s.d, s.b) { Some(vec![s]) } else { None }
}
fn ew(a: &Sh, b: &Sh) -> Option<Sh> {
    if !a.compat(b) {
        return None;
    }
    let m = a.mixed(b);
    let s = if a.scalar() { b.wb(m) } else if b.scalar() || a.d == b.d { a.wb(m) } else { return None };
    if fits(&s.d, s.b) { Some(s) } else { None }
}

/// the result shapes, or None if the operands must be rejected
pub fn shapes(o: &O, x: &[Sh]) -> Option<Vec<Sh>> {
    let x0 = x.get(0);
    match o {
        O::Un(_) | O::Cn(..) | O::Powi(_) => ok(x0?.clone()),
        O::Bin(_) => ew(x0?, &x[1]).map(|s| vec![s]),
        O::Red(n, d) => {
            let s = x0?;
            if *d >= 8 { return None; }
            if *n == "lnsoftmax" || *n == "softmax" { ok(s.clone()) } else { ok(s.with(*d, 1)) }
        }
        O::Bcast(d, n) => {
            let s = x0?;
            if *d >= 8 || *n == 0 || s.dm(*d) != 1 { return None; }
            ok(s.with(*d, *n))
        }
        O::Sce(d) => {
            let (a, b) = (x0?, &x[1]);
            if *d >= 8 || a.d != b.d { return None; }
            ew(a, b).map(|s| vec![s.with(*d, 1)])
        }
        O::Pick(ids, d) | O::Ssce(ids, d) => {
            let s = x0?;
            let n = ids.len();
            if *d >= 8 || n == 0 || !(n == 1 || s.b == 1 || n == s.b) || ids.iter().any(|i| *i as usize >= s.dm(*d)) { return None; }
            ok(s.with(*d, 1).wb(s.b.max(n)))
        }
        O::Matmul => {
            let (a, b) = (x0?, &x[1]);
            if a.depth() > 2 || b.depth() > 2 || !a.compat(b) || a.d[1] != b.d[0] { return None; }
            ok(Sh::new(&[a.d[0], b.d[1]], a.mixed(b)))
        }
        O::Transpose => {
            let s = x0?;
            if s.depth() > 2 { return None; }
            ok(Sh::new(&[s.d[1], s.d[0]], s.b))
        }
        O::TriL(_) | O::TriU(_) => {
            let s = x0?;
            if s.depth() > 2 || s.d[0] != s.d[1] { return None; }
            ok(s.clone())
        }
        O::Slice(d, lo, hi) => {
            let s = x0?;
            if *d >= 8 || lo >= hi || *hi as usize > s.dm(*d) { return None; }
            ok(s.with(*d, (*hi - *lo) as usize))
        }
        O::Split(d, n) => {
            let s = x0?;
            if *d >= 8 || *n == 0 || s.dm(*d) % *n as usize != 0 { return None; }
            Some(vec![s.with(*d, s.dm(*d) / *n as usize); *n as usize])
        }
        O::Concat(d) => {
            if *d >= 8 || x.is_empty() { return None; }
            let mut r = x[0].clone();
            for y in &x[1..] {
                if r.with(*d, 1).d != y.with(*d, 1).d || !r.compat(y) { return None; }
                r = r.with(*d, r.dm(*d) + y.dm(*d)).wb(r.mixed(y));
            }
            ok(r)
        }
        O::Reshape(d, b) => {
            let s = x0?;
            let r = Sh::new(d, *b);
            if *b == 0 || d.contains(&0) || !fits(&r.d, r.b) || r.size() != s.size() { return None; }
            ok(r)
        }
        O::Flatten => ok(Sh::new(&[x0?.vol()], x0?.b)),
        O::BSum | O::BMean => ok(x0?.wb(1)),
        O::BSlice(lo, hi) => {
            let s = x0?;
            if lo >= hi || *hi as usize > s.b { return None; }
            ok(s.wb((*hi - *lo) as usize))
        }
        O::BSplit(n) => {
            let s = x0?;
            if *n == 0 || s.b % *n as usize != 0 { return None; }
            Some(vec![s.wb(s.b / *n as usize); *n as usize])
        }
        O::BPick(ids) => {
            let s = x0?;
            if ids.is_empty() || ids.iter().any(|i| *i as usize >= s.b) { return None; }
            ok(s.wb(ids.len()))
        }
        O::BConcat => {
            if x.is_empty() || x.iter().any(|y| y.d != x[0].d) { return None; }
            ok(x[0].wb(x.iter().map(|y| y.b).sum()))
        }
        O::DropOff(_, d) | O::DropAll(_, d) => {
            if let Some(d) = d { if *d >= 8 { return None; } }
            ok(x0?.clone())
        }
        O::SliceSum => {
            if x.is_empty() { return None; }
            let mut r = x[0].clone();
            for y in x { r = ew(&r, y)?; }
            ok(r)
        }
        O::BatchNorm(_, en) => {
            if *en { let a = ew(&x[1], &x[0])?; ew(&a, &x[2]).map(|s| vec![s]) } else { ok(x[0].clone()) }
        }
        O::LayerNorm(_) => { let a = ew(&x[1], &x[0])?; ew(&a, &x[2]).map(|s| vec![s]) }
        O::Flip(d) => { if *d >= 8 { return None; } ok(x0?.clone()) }
        O::Permute(p) => {
            let s = x0?;
            let mut d = [1; 8];
            for (i, q) in p.iter().enumerate() { d[i] = s.dm(*q as usize); }
            ok(Sh { d, b: s.b })
        }
    }
}

fn un(n: &str, x: f64) -> f64 {
    match n {
        "neg" => -x, "abs" => x.abs(), "sqrt" => x.sqrt(), "exp" => x.exp(), "ln" => x.ln(), "sin" => x.sin(), "cos" => x.cos(),
        "tan" => x.tan(), "tanh" => x.tanh(), "sigmoid" => 1. / (1. + (-x).exp()),
        "softplus" => if x > 0. { x + (-x).exp().ln_1p() } else { x.exp().ln_1p() },
        "relu" => if x > 0. { x } else { 0. }, "lrelu" => if x > 0. { x } else { x * (0.01f32 as f64) },
        _ => unreachable!(),
    }
}
fn cn(n: &str, x: f64, k: f64) -> f64 {
    match n {
        "prelu" => if x > 0. { x } else { k * x }, "elu" => if x > 0. { x } else { k * (x.exp() - 1.) }, "powf" => x.powf(k), "x+c" | "c+x" => x + k,
        "x-c" => x - k, "c-x" => k - x, "x*c" | "c*x" => x * k, "x/c" => x / k, "c/x" => k / x, "powfl" => k.powf(x),
        _ => unreachable!(),
    }
}
pub fn bin(op: char, a: f64, b: f64) -> f64 {
    match op { '+' => a + b, '-' => a - b, '*' => a * b, '/' => a / b, '^' => a.powf(b), _ => unreachable!() }
}
fn ewa(op: char, a: &A, b: &A) -> A {
    let s = ew(&a.s, &b.s).unwrap();
    A::gen(s, |c, n| {
        let z = [0; 8];
        bin(op, a.at(if a.s.scalar() { &z } else { c }, n), b.at(if b.s.scalar() { &z } else { c }, n))
    })
}
fn line(x: &A, d: usize, c: &[usize; 8], b: usize) -> Vec<f64> {
    (0..x.s.dm(d)).map(|j| { let mut c = *c; if d < 8 { c[d] = j; } x.at(&c, b) }).collect()
}
pub fn lse(l: &[f64]) -> f64 {
    let m = l.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    m + l.iter().map(|x| (x - m).exp()).sum::<f64>().ln()
}

pub fn run(o: &O, x: &[A]) -> Vec<A> {
    let sh: Vec<Sh> = x.iter().map(|a| a.s.clone()).collect();
    let rs = shapes(o, &sh).expect("reference called on invalid operands");
    let r = rs[0].clone();
    let one = |a: A| vec![a];
    match o {
        O::Un(n) => one(x[0].map(|v| un(n, v))),
        O::Cn(n, k) => one(x[0].map(|v| cn(n, v, *k as f64))),
        O::Powi(k) => one(x[0].map(|v| v.powi(*k))),
        O::Bin(op) => one(ewa(*op, &x[0], &x[1])),
        O::Red(n, d) => one(A::gen(r, |c, b| {
            let l = line(&x[0], *d, c, b);
            match *n {
                "sum" => l.iter().sum(),
                "max" => l.iter().cloned().fold(f64::NEG_INFINITY, f64::max),
                "min" => l.iter().cloned().fold(f64::INFINITY, f64::min),
                "lse" => lse(&l),
                "mean" => l.iter().sum::<f64>() / l.len() as f64,
                "lnsoftmax" => x[0].at(c, b) - lse(&l),
                "softmax" => (x[0].at(c, b) - lse(&l)).exp(),
                _ => unreachable!(),
            }
        })),
        O::Bcast(d, _) => one(A::gen(r, |c, b| { let mut c = *c; c[*d] = 0; x[0].at(&c, b) })),
        O::Sce(d) => one(A::gen(r, |c, b| {
            let l = line(&x[0], *d, c, b);
            let t = line(&x[1], *d, c, b);
            let z = lse(&l);
            -l.iter().zip(&t).map(|(p, q)| q * (p - z)).sum::<f64>()
        })),
        O::Ssce(ids, d) => one(A::gen(r, |c, b| {
            let l = line(&x[0], *d, c, b);
            let i = ids[if ids.len() == 1 { 0 } else { b }] as usize;
            lse(&l) - l[i]
        })),
        O::Pick(ids, d) => one(A::gen(r, |c, b| {
            let mut c = *c;
            c[*d] = ids[if ids.len() == 1 { 0 } else { b }] as usize;
            x[0].at(&c, b)
        })),
        O::Matmul => one(A::gen(r, |c, b| {
            let mut t = 0.;
            for k in 0..x[0].s.d[1] {
                t += x[0].at(&[c[0], k, 0, 0, 0, 0, 0, 0], b) * x[1].at(&[k, c[1], 0, 0, 0, 0, 0, 0], b);
            }
            t
        })),
        O::Transpose => one(A::gen(r, |c, b| x[0].at(&[c[1], c[0], 0, 0, 0, 0, 0, 0], b))),
        O::TriL(k) => one(A::gen(r, |c, b| if c[0] as u64 >= c[1] as u64 + *k as u64 { x[0].at(c, b) } else { 0. })),
        O::TriU(k) => one(A::gen(r, |c, b| if c[0] as u64 + *k as u64 <= c[1] as u64 { x[0].at(c, b) } else { 0. })),
        O::Slice(d, lo, _) => one(A::gen(r, |c, b| { let mut c = *c; if *d < 8 { c[*d] += *lo as usize; } x[0].at(&c, b) })),
        O::Split(d, n) => (0..*n as usize).map(|i| A::gen(rs[i].clone(), |c, b| { let mut c = *c; c[*d] += i * rs[i].dm(*d); x[0].at(&c, b) })).collect(),
        O::Concat(d) => one(A::gen(r, |c, b| {
            let mut c = *c;
            for y in x {
                if c[*d] < y.s.dm(*d) { return y.at(&c, b); }
                c[*d] -= y.s.dm(*d);
            }
            unreachable!()
        })),
        O::Reshape(..) | O::Flatten => one(A { s: r, v: x[0].v.clone() }),
        O::BSum => one(A::gen(r, |c, _| (0..x[0].s.b).map(|b| x[0].at(c, b)).sum())),
        O::BMean => one(A::gen(r, |c, _| (0..x[0].s.b).map(|b| x[0].at(c, b)).sum::<f64>() / x[0].s.b as f64)),
        O::BSlice(lo, _) => one(A::gen(r, |c, b| x[0].v[x[0].s.ix(c, b + *lo as usize)])),
        O::BSplit(n) => (0..*n as usize).map(|i| A::gen(rs[i].clone(), |c, b| x[0].v[x[0].s.ix(c, b + i * rs[i].b)])).collect(),
        O::BPick(ids) => one(A::gen(r, |c, b| x[0].v[x[0].s.ix(c, ids[b] as usize)])),
        O::BConcat => one(A::gen(r, |c, b| {
            let mut b = b;
            for y in x {
                if b < y.s.b { return y.v[y.s.ix(c, b)]; }
                b -= y.s.b;
            }
            unreachable!()
        })),
        O::DropOff(..) => one(x[0].clone()),
        O::DropAll(..) => one(x[0].map(|v| 0. * v)),
        O::SliceSum => {
            let mut t = x[0].map(|_| 0.);
            for y in x { t = ewa('+', &t, y); }
            one(t)
        }
        O::BatchNorm(eps, en) => {
            if !*en { return one(x[0].clone()); }
            let s = &x[0].s;
            let n = s.b as f64;
            let m = |c: &[usize; 8]| (0..s.b).map(|b| x[0].at(c, b)).sum::<f64>() / n;
            let z = A::gen(s.clone(), |c, b| {
                let mu = m(c);
                let v = (0..s.b).map(|q| (x[0].at(c, q) - mu).powi(2)).sum::<f64>() / n;
                (x[0].at(c, b) - mu) / (v + *eps as f64).sqrt()
            });
            one(ewa('+', &ewa('*', &x[1], &z), &x[2]))
        }
        O::LayerNorm(eps) => {
            let s = &x[0].s;
            let n = s.vol();
            let z = A::gen(s.clone(), |c, b| {
                let w = &x[0].v[b * n..(b + 1) * n];
                let mu = w.iter().sum::<f64>() / n as f64;
                let v = w.iter().map(|q| (q - mu).powi(2)).sum::<f64>() / n as f64;
                (x[0].at(c, b) - mu) / (v + *eps as f64).sqrt()
            });
            one(ewa('+', &ewa('*', &x[1], &z), &x[2]))
        }
        O::Flip(d) => one(A::gen(r, |c, b| { let mut c = *c; c[*d] = x[0].s.d[*d] - 1 - c[*d]; x[0].at(&c, b) })),
        O::Permute(p) => one(A::gen(r, |c, b| {
            let mut e = [0; 8];
            for (i, q) in p.iter().enumerate() { e[*q as usize] = c[i]; }
            x[0].at(&e, b)
        })),
    }
}
