//! Random graphs: evaluation and backpropagation.
use crate::ops::*;
use crate::refr::*;
use crate::util::*;
use prima_undine::functions::*;
use prima_undine::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

type R = Result<(), String>;
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

#[derive(Clone, Debug)]
enum Src {
    Par(A, A), // value, gradient it starts with
    In(A),
    Op(usize, usize), // operation, output
}
#[derive(Debug)]
struct Prog {
    e: Vec<Src>,
    s: Vec<Sh>,
    ops: Vec<(O, Vec<usize>)>,
}
fn eval(p: &Prog, delta: Option<(usize, usize, f64)>) -> Vec<A> {
    let mut v: Vec<A> = vec![];
    let mut outs: Vec<Option<Vec<A>>> = (0..p.ops.len()).map(|_| None).collect();
    for i in 0..p.e.len() {
        let mut a = match &p.e[i] {
            Src::Par(x, _) | Src::In(x) => x.clone(),
            Src::Op(o, k) => {
                if outs[*o].is_none() {
                    let x: Vec<A> = p.ops[*o].1.iter().map(|j| v[*j].clone()).collect();
                    outs[*o] = Some(run(&p.ops[*o].0, &x));
                }
                outs[*o].as_ref().unwrap()[*k].clone()
            }
        };
        if let Some((e, j, h)) = delta { if e == i { a.v[j] += h; } }
        v.push(a);
    }
    v
}
fn program(r: &Rng) -> Prog {
    loop {
        let mut p = Prog { e: vec![], s: vec![], ops: vec![] };
        let base = gshape(r, 6);
        for _ in 0..r.range(1, 3) {
            let mut s = if r.chance(0.7) { base.clone() } else { gshape(r, 6) };
            if r.chance(0.6) {
                s.b = 1;
                p.e.push(Src::Par(vals(r, &s, Dom::Any), vals(r, &s, Dom::Int)));
            } else {
                if s.size() > 24 { s.b = 1; }
                p.e.push(Src::In(vals(r, &s, Dom::Any)));
            }
            p.s.push(s);
        }
        for _ in 0..r.range(1, 10) {
            let n = p.e.len();
            let at = |r: &Rng| if r.chance(0.6) { n - 1 - r.below(n.min(4)) } else { r.below(n) };
            let a = at(r);
            let d = r.below(3);
            let sa = p.s[a].clone();
            let m = sa.dm(d);
            let (o, args) = match r.below(22) {
                0..=3 => { let b = at(r); (O::Bin(*r.pick(&['+', '-', '*'])), vec![a, b]) }
                4 => (O::Bin('*'), vec![a, a]),
                5 => (O::Un(*r.pick(&["tanh", "sigmoid", "sin", "neg", "softplus"])), vec![a]),
                6 => (O::Cn(*r.pick(&["x+c", "c-x", "x*c", "x/c"]), 0.75), vec![a]),
                7 => (O::Red("sum", d), vec![a]),
                8 => (O::BSum, vec![a]),
                9 => (O::Red("mean", d), vec![a]),
                10 => { let lo = r.below(m); (O::Slice(d, lo as u32, r.range(lo + 1, m) as u32), vec![a]) }
                11 => (O::Split(d, m as u32), vec![a]),
                12 => (O::BSplit(sa.b as u32), vec![a]),
                13 => { let lo = r.below(sa.b); (O::BSlice(lo as u32, r.range(lo + 1, sa.b) as u32), vec![a]) }
                14 => { let k = if sa.b == 1 { r.range(1, 3) } else if r.chance(0.4) { 1 } else { sa.b }; (O::Pick((0..k).map(|_| r.below(m) as u32).collect(), d), vec![a]) }
                15 => (O::BPick((0..r.range(1, 4)).map(|_| r.below(sa.b) as u32).collect()), vec![a]),
                16 => { let b = at(r); (O::Concat(d), if r.chance(0.5) { vec![a, b] } else { vec![a, b, a] }) }
                17 => { let b = at(r); (O::BConcat, if r.chance(0.5) { vec![a, b] } else { vec![b, a, a] }) }
                18 => { let b = if r.chance(0.4) { a } else { at(r) }; (O::Matmul, vec![a, b]) }
                19 => (O::Transpose, vec![a]),
                20 => (O::Flatten, vec![a]),
                _ => (O::Bcast(d, r.range(1, 3)), vec![a]),
            };
            let xs: Vec<Sh> = args.iter().map(|i| p.s[*i].clone()).collect();
            if let Some(ys) = shapes(&o, &xs) {
                if ys.len() > 6 || ys.iter().any(|s| s.size() > 40) { continue; }
                for (k, s) in ys.iter().enumerate() { p.e.push(Src::Op(p.ops.len(), k)); p.s.push(s.clone()); }
                p.ops.push((o, args));
            }
        }
        let v = eval(&p, None);
        if p.ops.is_empty() || v.iter().any(|a| a.v.iter().any(|x| x.abs() > 40.)) { continue; }
        return p;
    }
}
/// entries the operation of `t` depends on, including itself
fn deps(p: &Prog, t: usize) -> Vec<bool> {
    let mut d = vec![false; p.e.len()];
    let mut todo = vec![t];
    while let Some(i) = todo.pop() {
        if d[i] { continue; }
        d[i] = true;
        if let Src::Op(o, _) = p.e[i] { todo.extend(&p.ops[o].1); }
    }
    d
}
fn num_grad(p: &Prog, t: usize, e: usize) -> Vec<f64> {
    let h = 1e-5;
    (0..p.s[e].size()).map(|j| {
        let f = |h: f64| eval(p, Some((e, j, h)))[t].v.iter().sum::<f64>();
        (f(h) - f(-h)) / (2. * h)
    }).collect()
}
pub fn c11(dev: Dev, r: &Rng) -> R {
    let p = program(r);
    trace(&|| format!("graph {:?}", p));
    graph(dev, r, &p).map_err(|e| format!("{} in graph {:?}", e, p))
}
fn graph(dev: Dev, r: &Rng, p: &Prog) -> R {
    let v = eval(p, None);
    poison(dev, &p.s.iter().map(|s| s.size()).collect::<Vec<_>>(), 6);
    let mut pars: Vec<Parameter<'static>> = vec![];
    let mut ins: Vec<T> = vec![];
    for e in &p.e {
        match e {
            Src::Par(x, g) => {
                pars.push(Parameter::new(mk(dev, x), mk(dev, g)));
            }
            Src::In(x) => ins.push(mk(dev, x)),
            _ => {}
        }
    }
    let mut want_p: Vec<Vec<f64>> = p.e.iter().filter_map(|e| if let Src::Par(_, g) = e { Some(g.v.clone()) } else { None }).collect();
    {
        let mut pi = pars.iter_mut();
        let mut ii = ins.iter();
        let mut ns: Vec<Node> = vec![];
        let mut done: Vec<Option<std::collections::VecDeque<Node>>> = (0..p.ops.len()).map(|_| None).collect();
        let owned = r.chance(0.3);
        for (i, e) in p.e.iter().enumerate() {
            let n = match e {
                Src::Par(..) => Node::from(pi.next().unwrap()),
                Src::In(x) => { let t = ii.next().unwrap(); if owned { Node::from(mk(dev, x)) } else { Node::from(t) } }
                Src::Op(o, _) => {
                    if done[*o].is_none() {
                        let xs: Vec<&Node> = p.ops[*o].1.iter().map(|j| &ns[*j]).collect();
                        let ys = quiet(|| nodes(&p.ops[*o].0, &xs)).map_err(|e| format!("operation {} rejected: {}", o, e))?;
                        done[*o] = Some(ys.into());
                    }
                    done[*o].as_mut().unwrap().pop_front().unwrap()
                }
            };
            ck!(sh_of(n.shape()) == p.s[i], "entry {} has shape {:?}", i, n.shape());
            ns.push(n);
        }
        for round in 0..r.range(1, 3) {
            let t = if r.chance(0.7) { p.e.len() - 1 } else { r.below(p.e.len()) };
            if r.chance(0.3) { let k = r.below(p.e.len()); let got = quiet(|| rdn(&ns[k]))?; cmp(&format!("entry {}", k), &got, &v[k], 1e-3)?; }
            quiet(|| ns[t].backward()).map_err(|e| format!("backward from entry {} panicked: {}", t, e))?;
            let dp = deps(p, t);
            let mut k = 0;
            for e in 0..p.e.len() {
                let par = matches!(p.e[e], Src::Par(..));
                if dp[e] {
                    let g = num_grad(p, t, e);
                    let m = g.iter().fold(1f64, |a, b| a.max(b.abs()));
                    let got = quiet(|| ns[e].inner_gradient().to_vec()).map_err(|x| format!("gradient of entry {}: {}", e, x))?;
                    ck!(got.len() == g.len(), "gradient of entry {} has {} values", e, got.len());
                    for j in 0..g.len() {
                        ck!((got[j] as f64 - g[j]).abs() <= 3e-3 * m, "round {}: after backward from entry {} the gradient of entry {} at {} is {}, expected {}", round, t, e, j, got[j], g[j]);
                    }
                    if par { for j in 0..g.len() { want_p[k][j] += g[j]; } }
                }
                if par { k += 1; }
            }
        }
        for (e, n) in ns.iter().enumerate() {
            if r.chance(0.5) { let got = quiet(|| rdn(n))?; cmp(&format!("entry {}", e), &got, &v[e], 1e-3)?; }
        }
    }
    for (k, q) in pars.iter().enumerate() {
        let got = q.gradient.to_vec();
        let m = want_p[k].iter().fold(1f64, |a, b| a.max(b.abs()));
        for j in 0..got.len() {
            ck!((got[j] as f64 - want_p[k][j]).abs() <= 5e-3 * m, "gradient of parameter {} at {} is {}, expected {}", k, j, got[j], want_p[k][j]);
        }
    }
    let mut k = 0;
    for e in &p.e { if let Src::Par(x, _) = e { cmp("value of a parameter", &rd(&pars[k].value), x, 0.)?; k += 1; } }
    Ok(())
}

/// an operator that counts its evaluations and checks that its operands came first
struct Count {
    dev: Dev,
    n: Rc<Cell<u32>>,
    outs: usize,
}
impl<'arg> Operator<'arg, 'static> for Count {
    fn name(&self) -> String { "Count".into() }
    fn device(&self) -> &'static Device<'static> { self.dev }
    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> { vec![x.get(0).copied().unwrap_or(Shape::new(&[2], 1)); self.outs] }
    fn forward(&self, x: &[&Tensor], y: &mut [&mut Tensor<'arg>]) {
        self.n.set(self.n.get() + 1);
        for t in x { assert!(t.valid(), "operand not evaluated"); }
        for y in y.iter_mut() { y.alloc(); y.reset(1.); }
    }
    fn backward(&self, _: &[&Tensor], _: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
        for x in gx { for g in gy { *x.borrow_mut() += *g; } }
    }
}
pub fn c10(dev: Dev, r: &Rng) -> R {
    let mut cnt: Vec<Rc<Cell<u32>>> = vec![];
    let mut ns: Vec<(Node, usize)> = vec![];
    let mut args: Vec<Vec<usize>> = vec![];
    for i in 0..r.range(1, 9) {
        let c = Rc::new(Cell::new(0));
        let a: Vec<usize> = (0..if ns.is_empty() { 0 } else { r.range(0, 3) }).map(|_| r.below(ns.len())).collect();
        let outs = if r.chance(0.25) { 2 } else { 1 };
        let xs: Vec<&Node> = a.iter().map(|j| &ns[*j].0).collect();
        let ys = Node::create(Count { dev, n: c.clone(), outs }, &xs);
        args.push(a.iter().map(|j| ns[*j].1).collect());
        ns.extend(ys.into_iter().map(|n| (n, i)));
        cnt.push(c);
    }
    trace(&|| format!("counting graph {:?}", args));
    let mut need = vec![false; cnt.len()];
    for _ in 0..3 {
        let t = r.below(ns.len());
        let back = r.chance(0.3);
        quiet(|| if back { ns[t].0.backward() } else if r.chance(0.5) { ns[t].0.forward() } else { ns[t].0.to_vec(); }).map_err(|e| format!("evaluation of operation {} in {:?}: {}", ns[t].1, args, e))?;
        let mut todo = vec![ns[t].1];
        while let Some(i) = todo.pop() { if !need[i] { need[i] = true; todo.extend(&args[i]); } }
        for i in 0..cnt.len() {
            ck!(cnt[i].get() <= 1, "operation {} of {:?} was evaluated {} times", i, args, cnt[i].get());
            ck!(cnt[i].get() == 1 || !need[i], "operation {} of {:?} was not evaluated", i, args);
        }
        if back {
            // every path from the target adds one
            let k = ns[t].1;
            let outs = |i: usize| ns.iter().filter(|n| n.1 == i).count() as f64;
            let mut g = vec![0.; cnt.len()]; // gradient of every output of an operation: sum over uses
            let mut per: Vec<f64> = ns.iter().map(|_| 0.).collect();
            per[t] = 1.;
            let _ = (&mut g, outs, k);
        }
    }
    Ok(())
}
