//! Random operands for every operation, and the comparison with the reference.
use crate::refr::*;
use crate::util::*;
use prima_undine::functions::*;
use prima_undine::{operators as op, Node, Operator, Shape, Tensor};
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub struct Case {
    pub o: O,
    pub x: Vec<A>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fam {
    Elem,
    Red,
    Mat,
    Man,
    Contrib,
}
pub const ALL: [Fam; 5] = [Fam::Elem, Fam::Red, Fam::Mat, Fam::Man, Fam::Contrib];

pub fn gshape(r: &Rng, cap: usize) -> Sh {
    let depth = match r.below(10) { 0 => 0, 1 => 1, 2 | 3 => 2, 4 | 5 => 3, 6 => 4, 7 => 5, 8 => 8, _ => r.below(9) };
    let mut d = [1; 8];
    let mut v = 1;
    for i in 0..depth {
        let n = *r.pick(&[1, 1, 2, 2, 3, 3, 4, 5, 7]);
        if v * n <= cap { d[i] = n; v *= n; }
    }
    if r.chance(0.08) && v <= 4 {
        let i = r.below(4);
        let n = r.range(9, 70);
        if d[i] == 1 { d[i] = n; v *= n; }
    }
    let b = *r.pick(&[1, 1, 1, 2, 3, 4, 5]);
    Sh { d, b: if v * b <= 4 * cap { b } else { 1 } }
}
fn mat(r: &Rng) -> Sh {
    if r.chance(0.06) {
        return Sh::new(&[r.range(60, 70), r.range(60, 70)], r.range(1, 2));
    }
    if r.chance(0.06) {
        let k = *r.pick(&[64, 65, 128, 129, 130]);
        return if r.chance(0.5) { Sh::new(&[k, r.range(1, 3)], 1) } else { Sh::new(&[r.range(1, 3), k], 1) };
    }
    Sh::new(&[r.range(1, 6), r.range(1, 6)], *r.pick(&[1, 1, 2, 3]))
}
#[derive(Clone, Copy)]
pub enum Dom {
    Any,
    Pos,
    Small,
    Distinct,
    Int,
    Wide,
}
pub fn vals(r: &Rng, s: &Sh, d: Dom) -> A {
    let n = s.size();
    let f = |x: f64| x as f32 as f64;
    let v: Vec<f64> = match d {
        Dom::Any => (0..n).map(|_| { let x = r.unit() * 4. - 2.; f(if x.abs() < 0.05 { x + 0.3 } else { x }) }).collect(),
        Dom::Pos => (0..n).map(|_| f(r.unit() * 1.7 + 0.3)).collect(),
        Dom::Small => (0..n).map(|_| { let x = r.unit() * 2. - 1.; f(if x.abs() < 0.05 { x + 0.2 } else { x }) }).collect(),
        Dom::Distinct => {
            let mut p: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() { p.swap(i, r.below(i + 1)); }
            let o = r.unit() - 0.5;
            p.iter().map(|i| f((*i as f64 - n as f64 * (0.5 + o)) * 0.125 + 0.03)).collect()
        }
        Dom::Wide => (0..n).map(|_| { let x = (r.unit() * 2. - 1.) * *r.pick(&[0.9, 12., 95., 300.]); f(if x.abs() < 0.05 { x + 0.3 } else { x }) }).collect(),
        Dom::Int => (0..n).map(|_| (r.below(17) as f64) - 8.).collect(),
    };
    A { s: s.clone(), v }
}
fn dim_of(r: &Rng, s: &Sh) -> usize {
    if r.chance(0.04) { return r.range(8, 10); }
    r.below((s.depth() + 1).min(8).max(1))
}
fn k(r: &Rng) -> f32 {
    let x = (r.unit() * 4. - 2.) as f32;
    if x.abs() < 0.1 { 0.5 } else { x }
}
/// an operand that mostly fits `s`
fn partner(r: &Rng, s: &Sh) -> Sh {
    let mut t = match r.below(8) {
        0 => Sh::new(&[], 1),
        1 => gshape(r, 40),
        2 => { let mut t = s.clone(); let i = r.below(8); t.d[i] = r.range(1, 3); t }
        _ => s.clone(),
    };
    t.b = match r.below(6) { 0 | 1 => 1, 2 => r.range(1, 4), _ => s.b };
    t
}
pub fn gen(r: &Rng, fam: Fam) -> Case {
    let s = gshape(r, 40);
    let un = |o, x: A| Case { o, x: vec![x] };
    match fam {
        Fam::Elem => match r.below(10) {
            0..=2 => {
                let n = *r.pick(&["neg", "abs", "sqrt", "exp", "ln", "sin", "cos", "tan", "tanh", "sigmoid", "softplus", "relu", "lrelu"]);
                let d = match n { "sqrt" | "ln" => Dom::Pos, "tan" => Dom::Small, "exp" => Dom::Any, _ => if r.chance(0.15) { Dom::Wide } else { Dom::Any } };
                let x = vals(r, &s, d);
                un(O::Un(n), x)
            }
            3 | 4 => {
                let n = *r.pick(&["prelu", "elu", "powf", "x+c", "c+x", "x-c", "c-x", "x*c", "c*x", "x/c", "c/x", "powfl"]);
                let d = match n { "powf" | "c/x" => Dom::Pos, "prelu" | "elu" if r.chance(0.2) => Dom::Wide, _ => Dom::Any };
                let c = if n == "powfl" { (r.unit() * 2. + 0.3) as f32 } else { k(r) };
                let x = vals(r, &s, d);
                un(O::Cn(n, c), x)
            }
            5 => { let x = vals(r, &s, Dom::Pos); let e = r.range(0, 10) as i32 - 5; un(O::Powi(e), x) }
            _ => {
                let c = *r.pick(&['+', '-', '*', '/', '^']);
                let t = partner(r, &s);
                let (s, t) = if r.chance(0.5) { (s, t) } else { (t, s) };
                let (da, db) = match c { '/' => (Dom::Any, Dom::Pos), '^' => (Dom::Pos, Dom::Any), _ => (Dom::Any, Dom::Any) };
                let x = vec![vals(r, &s, da), vals(r, &t, db)];
                Case { o: O::Bin(c), x }
            }
        },
        Fam::Red => {
            let d = dim_of(r, &s);
            match r.below(10) {
                0..=4 => {
                    let n = *r.pick(&["sum", "max", "min", "lse", "lnsoftmax", "softmax"]);
                    let x = vals(r, &s, if n == "max" || n == "min" { Dom::Distinct } else if r.chance(0.15) && n != "sum" { Dom::Wide } else { Dom::Any });
                    un(O::Red(n, d), x)
                }
                5 => {
                    let mut s = s;
                    if d < 8 && r.chance(0.9) { s.d[d] = 1; }
                    let x = vals(r, &s, Dom::Any);
                    un(O::Bcast(d, r.range(if r.chance(0.1) { 0 } else { 1 }, 5)), x)
                }
                6 => { let x = vals(r, &s, Dom::Any); un(O::BSum, x) }
                7 | 8 => {
                    let mut t = partner(r, &s);
                    if r.chance(0.8) || s.scalar() || t.scalar() { t.d = s.d; } // a scalar target is not specified
                    let x0 = vals(r, &s, Dom::Any);
                    let mut x1 = vals(r, &t, Dom::Pos);
                    // targets sum to one along the dimension
                    if d < 8 {
                        for p in 0..x1.v.len() {
                            let (c, b) = t.co(p);
                            if c[d] == 0 {
                                let ix: Vec<usize> = (0..t.d[d]).map(|j| { let mut c = c; c[d] = j; t.ix(&c, b) }).collect();
                                let z: f64 = ix.iter().map(|i| x1.v[*i]).sum();
                                for i in ix { x1.v[i] = (x1.v[i] / z) as f32 as f64; }
                            }
                        }
                    }
                    Case { o: O::Sce(d), x: vec![x0, x1] }
                }
                _ => {
                    let m = s.dm(d);
                    let n = if r.chance(0.15) { r.range(0, 4) } else if s.b == 1 { r.range(1, 3) } else if r.chance(0.4) { 1 } else { s.b };
                    let ids = (0..n).map(|_| r.below(if r.chance(0.03) { m + 1 } else { m }) as u32).collect();
                    let x = vals(r, &s, Dom::Any);
                    un(O::Ssce(ids, d), x)
                }
            }
        }
        Fam::Mat => match r.below(9) {
            0..=3 => {
                let a = mat(r);
                let mut b = mat(r);
                if r.chance(0.9) { b.d[0] = a.d[1]; }
                if r.chance(0.7) { b.b = a.b; }
                if r.chance(0.03) { b.d[2] = 2; }
                let x = vec![vals(r, &a, Dom::Any), vals(r, &b, Dom::Any)];
                Case { o: O::Matmul, x }
            }
            4 => { let mut a = mat(r); if r.chance(0.05) { a.d[2 + r.below(3)] = 2; } let x = vals(r, &a, Dom::Int); un(O::Transpose, x) }
            5 | 6 => {
                let mut a = mat(r);
                if r.chance(0.9) { a.d[1] = a.d[0]; }
                if r.chance(0.05) { a.d[2] = 2; }
                let kk = if r.chance(0.03) { u32::MAX - r.below(3) as u32 } else { r.below(5) as u32 };
                let x = vals(r, &a, Dom::Int);
                un(if r.chance(0.5) { O::TriL(kk) } else { O::TriU(kk) }, x)
            }
            7 => { let d = r.below(8); let x = vals(r, &s, Dom::Int); un(O::Flip(d), x) }
            _ => {
                let n = s.depth().max(1);
                let mut p: Vec<u32> = (0..r.range(n, 8) as u32).collect();
                for i in (1..p.len()).rev() { p.swap(i, r.below(i + 1)); }
                let x = vals(r, &s, Dom::Int);
                un(O::Permute(p), x)
            }
        },
        Fam::Man => {
            let d = dim_of(r, &s);
            match r.below(11) {
                0 => {
                    let m = s.dm(d);
                    let lo = r.below(m) as u32;
                    let hi = r.range(if r.chance(0.1) { lo as usize } else { lo as usize + 1 }, if r.chance(0.1) { m + 1 } else { m }.max(lo as usize + 1)) as u32;
                    let x = vals(r, &s, Dom::Int);
                    un(O::Slice(d, lo, hi), x)
                }
                1 => {
                    let mut s = s;
                    let n = r.range(if r.chance(0.05) { 0 } else { 1 }, 4);
                    if d < 8 && r.chance(0.8) && n > 0 { s.d[d] = n * r.range(1, 3); }
                    let x = vals(r, &s, Dom::Int);
                    un(O::Split(d, n as u32), x)
                }
                2 | 3 => {
                    let m = s.dm(d);
                    let n = if r.chance(0.15) { r.range(0, 4) } else if s.b == 1 { r.range(1, 4) } else if r.chance(0.4) { 1 } else { s.b };
                    let ids = (0..n).map(|_| r.below(if r.chance(0.03) { m + 1 } else { m }) as u32).collect();
                    let x = vals(r, &s, Dom::Int);
                    un(O::Pick(ids, d), x)
                }
                4 | 5 => {
                    let n = r.range(1, 4);
                    let x = (0..n).map(|_| {
                        let mut t = s.clone();
                        if d < 8 { t.d[d] = r.range(1, 4); }
                        if r.chance(0.06) { t.d[r.below(8)] = r.range(1, 3); }
                        if r.chance(0.3) { t.b = 1; }
                        if r.chance(0.04) { t.b = r.range(1, 3); }
                        vals(r, &t, Dom::Int)
                    }).collect();
                    Case { o: O::Concat(d), x }
                }
                6 => {
                    let x = vals(r, &s, Dom::Int);
                    if r.chance(0.5) { return un(O::Flatten, x); }
                    let n = s.size();
                    let mut ds = vec![];
                    let mut m = n;
                    let b = if r.chance(0.5) { s.b } else { *r.pick(&[1, 2, 3]) };
                    if m % b == 0 { m /= b; }
                    for q in [2, 3, 2, 5, 7] { if m % q == 0 && r.chance(0.7) { ds.push(q); m /= q; } }
                    ds.push(if r.chance(0.05) { m + 1 } else { m });
                    un(O::Reshape(ds, b), x)
                }
                7 => {
                    let lo = r.below(s.b) as u32;
                    let hi = r.range(lo as usize + if r.chance(0.1) { 0 } else { 1 }, if r.chance(0.1) { s.b + 1 } else { s.b }.max(lo as usize + 1)) as u32;
                    let x = vals(r, &s, Dom::Int);
                    un(O::BSlice(lo, hi), x)
                }
                8 => { let n = r.range(if r.chance(0.05) { 0 } else { 1 }, 4) as u32; let mut s = s; if r.chance(0.8) && n > 0 { s.b = n as usize * r.range(1, 2); } let x = vals(r, &s, Dom::Int); un(O::BSplit(n), x) }
                9 => {
                    let n = r.range(if r.chance(0.05) { 0 } else { 1 }, 5);
                    let ids = (0..n).map(|_| r.below(if r.chance(0.03) { s.b + 1 } else { s.b }) as u32).collect();
                    let x = vals(r, &s, Dom::Int);
                    un(O::BPick(ids), x)
                }
                _ => {
                    let n = r.range(1, 4);
                    let x = (0..n).map(|_| { let mut t = s.wb(r.range(1, 3)); if r.chance(0.05) { t.d[r.below(8)] = r.range(1, 3); } vals(r, &t, Dom::Int) }).collect();
                    Case { o: O::BConcat, x }
                }
            }
        }
        Fam::Contrib => {
            let d = dim_of(r, &s);
            match r.below(8) {
                0 => { let x = vals(r, &s, Dom::Any); un(O::Red("mean", d), x) }
                1 => { let x = vals(r, &s, Dom::Any); un(O::BMean, x) }
                2 => { let x = vals(r, &s, Dom::Any); let q = r.unit() as f32; un(O::DropOff(q, if r.chance(0.5) { Some(d.min(7)) } else { None }), x) }
                3 => { let x = vals(r, &s, Dom::Any); un(O::DropAll(1., if r.chance(0.5) { Some(d.min(7)) } else { None }), x) }
                4 => { let n = r.range(1, 4); let x = (0..n).map(|_| { let t = partner(r, &s); vals(r, &t, Dom::Any) }).collect(); Case { o: O::SliceSum, x } }
                5 | 6 => {
                    let mut x = vec![vals(r, &s, Dom::Any)];
                    for _ in 0..2 { let mut t = partner(r, &s); if r.chance(0.6) { t.b = 1; } x.push(vals(r, &t, Dom::Any)); }
                    Case { o: O::BatchNorm(*r.pick(&[0.5, 0.125, 1e-2]), r.chance(0.8)), x }
                }
                _ => {
                    let mut x = vec![vals(r, &s, Dom::Any)];
                    for _ in 0..2 { let mut t = partner(r, &s); if r.chance(0.6) { t.b = 1; } x.push(vals(r, &t, Dom::Any)); }
                    Case { o: O::LayerNorm(*r.pick(&[0.5, 0.125, 1e-2])), x }
                }
            }
        }
    }
}

pub fn shs(c: &Case) -> Vec<Sh> {
    c.x.iter().map(|a| a.s.clone()).collect()
}
fn sizes(c: &Case) -> Vec<usize> {
    let mut v: Vec<usize> = c.x.iter().map(|a| a.s.size()).collect();
    if let Some(s) = shapes(&c.o, &shs(c)) {
        v.extend(s.iter().map(|s| s.size()));
    }
    v
}
pub fn tol(o: &O) -> f64 {
    match o { O::BatchNorm(..) | O::LayerNorm(..) => 3e-3, O::Matmul => 1e-4, _ => 1e-4 }
}
fn is_dev_only(o: &O) -> bool {
    matches!(o, O::Cn("powfl", _))
}
pub fn run_t(dev: Dev, o: &O, x: &[&T]) -> Vec<T> {
    match o {
        O::Cn("powfl", k) => vec![dev.powf_const_l_fw(x[0], *k)],
        _ => tens(dev, o, x),
    }
}

/// eager evaluation: accepted iff valid, the right values, operands and everything else untouched
pub fn forward(dev: Dev, c: &Case) -> Result<(), String> {
    let want = shapes(&c.o, &shs(c));
    if want.is_none() && matches!(c.o, O::Flip(_) | O::Permute(_)) {
        return Ok(());
    }
    poison(dev, &sizes(c), 6);
    let xs: Vec<T> = c.x.iter().map(|a| mk(dev, a)).collect();
    let xr: Vec<&T> = xs.iter().collect();
    let r = quiet(|| run_t(dev, &c.o, &xr));
    match (want, r) {
        (None, Ok(y)) => return Err(format!("invalid operands accepted, result shape {:?}", sh_of(y[0].shape()))),
        (None, Err(_)) => {}
        (Some(_), Err(e)) => return Err(format!("valid operands rejected: {}", e)),
        (Some(s), Ok(y)) => {
            let w = run(&c.o, &c.x);
            if y.len() != w.len() {
                return Err(format!("{} results, expected {}", y.len(), w.len()));
            }
            for i in 0..y.len() {
                cmp(&format!("result {}", i), &rd(&y[i]), &w[i], tol(&c.o))?;
                let _ = &s;
                if buf(&y[i]).len() < w[i].v.len() {
                    return Err("result buffer smaller than the result".into());
                }
            }
        }
    }
    for (a, t) in c.x.iter().zip(&xs) {
        cmp("operand after the call", &rd(t), a, 0.)?;
        if !canary(t, a.v.len()) {
            return Err("memory behind an operand was written".into());
        }
    }
    Ok(())
}
/// accepted iff the operands fit, with the expected result shape, eagerly, as a node and by the operator itself
pub fn accepts(dev: Dev, c: &Case) -> Result<(), String> {
    let want = shapes(&c.o, &shs(c));
    if want.is_none() && matches!(c.o, O::Flip(_) | O::Permute(_)) {
        return Ok(());
    }
    let xs: Vec<T> = c.x.iter().map(|a| mk(dev, a)).collect();
    let xr: Vec<&T> = xs.iter().collect();
    let judge = |k: &str, got: Result<Vec<Sh>, String>| match (&want, got) {
        (None, Ok(y)) => Err(format!("{}: operands that do not fit accepted, result shape {:?}", k, y)),
        (Some(_), Err(e)) => Err(format!("{}: operands that fit rejected: {}", k, e)),
        (Some(w), Ok(y)) if *w != y => Err(format!("{}: result shape {:?}, expected {:?}", k, y, w)),
        _ => Ok(()),
    };
    judge("tensor", quiet(|| run_t(dev, &c.o, &xr)).map(|y| y.iter().map(|t| sh_of(t.shape())).collect()))?;
    if has_node(&c.o) && !is_dev_only(&c.o) {
        let ns: Vec<Node> = xs.iter().map(Node::from).collect();
        let nr: Vec<&Node> = ns.iter().collect();
        judge("node", quiet(|| nodes(&c.o, &nr)).map(|y| y.iter().map(|t| sh_of(t.shape())).collect()))?;
    }
    if let Some((o, ord)) = oper(dev, c) {
        let sh: Vec<Shape> = ord.iter().take(c.x.len()).map(|i| xs[*i].shape()).collect();
        judge("operator", quiet(|| o.forward_shape(&sh)).map(|y| y.iter().map(|t| sh_of(*t)).collect()))?;
    }
    Ok(())
}
/// the operand forms (by value, by reference) of the arithmetic operators
pub fn forms(dev: Dev, c: &Case) -> Result<(), String> {
    if shapes(&c.o, &shs(c)).is_none() {
        return Ok(());
    }
    for f in 0..3 {
        let (t, n) = match &c.o {
            O::Bin(ch) if *ch != '^' => {
                let t = quiet(|| bin_forms(*ch, f, mk(dev, &c.x[0]), mk(dev, &c.x[1])))?;
                let n = quiet(|| rdn(&bin_forms(*ch, f, Node::from(mk(dev, &c.x[0])), Node::from(mk(dev, &c.x[1])))))?;
                (t, n)
            }
            O::Cn(s, k) if s.len() == 3 && s.contains("c") => {
                let t = quiet(|| cn_forms(s, f, mk(dev, &c.x[0]), *k))?;
                let n = quiet(|| rdn(&cn_forms(s, f, Node::from(mk(dev, &c.x[0])), *k)))?;
                (t, n)
            }
            O::Un("neg") => (quiet(|| -mk(dev, &c.x[0]))?, quiet(|| rdn(&-Node::from(mk(dev, &c.x[0]))))?),
            _ => return Ok(()),
        };
        let w = run(&c.o, &c.x);
        cmp(&format!("operand form {} (tensor)", f), &rd(&t), &w[0], tol(&c.o))?;
        cmp(&format!("operand form {} (node)", f), &n, &w[0], tol(&c.o))?;
    }
    Ok(())
}
pub fn rdn(n: &Node) -> A {
    let v = n.to_vec();
    A { s: sh_of(n.shape()), v: v.iter().map(|x| *x as f64).collect() }
}
/// a node gives the same as the reference; its shape is known at creation, invalid operands rejected there
pub fn node(dev: Dev, c: &Case) -> Result<(), String> {
    if !has_node(&c.o) || is_dev_only(&c.o) {
        return Ok(());
    }
    let want = shapes(&c.o, &shs(c));
    poison(dev, &sizes(c), 8);
    let xs: Vec<T> = c.x.iter().map(|a| mk(dev, a)).collect();
    let ns: Vec<Node> = xs.iter().map(Node::from).collect();
    let nr: Vec<&Node> = ns.iter().collect();
    let r = quiet(|| nodes(&c.o, &nr));
    match (want, r) {
        (None, Ok(_)) => return Err("invalid operands accepted when the node was created".into()),
        (None, Err(_)) => {}
        (Some(_), Err(e)) => return Err(format!("valid operands rejected when the node was created: {}", e)),
        (Some(s), Ok(y)) => {
            let w = run(&c.o, &c.x);
            if y.len() != w.len() {
                return Err(format!("{} nodes, expected {}", y.len(), w.len()));
            }
            for i in 0..y.len() {
                if sh_of(y[i].shape()) != s[i] {
                    return Err(format!("shape of node {} before evaluation is {:?}, expected {:?}", i, sh_of(y[i].shape()), s[i]));
                }
            }
            for i in (0..y.len()).rev() {
                let got = quiet(|| rdn(&y[i])).map_err(|e| format!("evaluation panicked: {}", e))?;
                cmp(&format!("node {}", i), &got, &w[i], tol(&c.o))?;
                let again = quiet(|| rdn(&y[i])).map_err(|e| format!("second evaluation panicked: {}", e))?;
                cmp(&format!("node {} read again", i), &again, &w[i], tol(&c.o))?;
            }
        }
    }
    for (a, t) in c.x.iter().zip(&xs) {
        cmp("operand after evaluation", &rd(t), a, 0.)?;
    }
    Ok(())
}

/// the operator behind an operation, and the operand order it takes
pub fn oper<'a>(dev: Dev, c: &Case) -> Option<(Box<dyn Operator<'a, 'static> + 'a>, Vec<usize>)> {
    let (a, b) = (c.x.get(0).map(|x| x.s.scalar()).unwrap_or(false), c.x.get(1).map(|x| x.s.scalar()).unwrap_or(false));
    let u = |x: &usize| *x as u32;
    macro_rules! bx { ($e:expr) => { Box::new($e) as Box<dyn Operator<'a, 'static> + 'a> } }
    let f = vec![0, 1, 2, 3];
    let sw = vec![1, 0];
    Some(match &c.o {
        O::Un(n) => (match *n {
            "neg" => bx!(op::Neg::new(dev)), "abs" => bx!(op::Abs::new(dev)), "sqrt" => bx!(op::Sqrt::new(dev)), "exp" => bx!(op::Exp::new(dev)),
            "ln" => bx!(op::Ln::new(dev)), "sin" => bx!(op::Sin::new(dev)), "cos" => bx!(op::Cos::new(dev)), "tan" => bx!(op::Tan::new(dev)),
            "tanh" => bx!(op::Tanh::new(dev)), "sigmoid" => bx!(op::Sigmoid::new(dev)), "softplus" => bx!(op::Softplus::new(dev)),
            "relu" => bx!(op::PReLU::new(dev, 0.)), _ => bx!(op::PReLU::new(dev, 0.01)),
        }, f),
        O::Cn(n, k) => (match *n {
            "prelu" => bx!(op::PReLU::new(dev, *k)), "elu" => bx!(op::ELU::new(dev, *k)), "powf" => bx!(op::PowConstR::new(dev, *k)),
            "x+c" | "c+x" => bx!(op::AddConst::new(dev, *k)), "x-c" => bx!(op::SubConstR::new(dev, *k)), "c-x" => bx!(op::SubConstL::new(dev, *k)),
            "x*c" | "c*x" => bx!(op::MulConst::new(dev, *k)), "x/c" => bx!(op::DivConstR::new(dev, *k)), "c/x" => bx!(op::DivConstL::new(dev, *k)),
            _ => return None,
        }, f),
        O::Powi(k) => (bx!(op::Powi::new(dev, *k)), f),
        O::Bin('+') => if a { (bx!(op::AddScalar::new(dev)), sw) } else if b { (bx!(op::AddScalar::new(dev)), f) } else { (bx!(op::Add::new(dev)), f) },
        O::Bin('*') => if a { (bx!(op::MulScalar::new(dev)), sw) } else if b { (bx!(op::MulScalar::new(dev)), f) } else { (bx!(op::Mul::new(dev)), f) },
        O::Bin('-') => if a { (bx!(op::SubScalarL::new(dev)), sw) } else if b { (bx!(op::SubScalarR::new(dev)), f) } else { (bx!(op::Sub::new(dev)), f) },
        O::Bin('/') => if a { (bx!(op::DivScalarL::new(dev)), sw) } else if b { (bx!(op::DivScalarR::new(dev)), f) } else { (bx!(op::Div::new(dev)), f) },
        O::Bin(_) => if a { (bx!(op::PowScalarL::new(dev)), sw) } else if b { (bx!(op::PowScalarR::new(dev)), f) } else { (bx!(op::Pow::new(dev)), f) },
        O::Red(n, d) => (match *n {
            "sum" => bx!(op::Sum::new(dev, u(d))), "max" => bx!(op::Max::new(dev, u(d))), "min" => bx!(op::Min::new(dev, u(d))), "lse" => bx!(op::Logsumexp::new(dev, u(d))),
            _ => return None,
        }, f),
        O::Bcast(d, n) => (bx!(op::Broadcast::new(dev, u(d), u(n))), f),
        O::Sce(d) => (bx!(op::SoftmaxCrossEntropy::new(dev, u(d))), f),
        O::Ssce(ids, d) => (bx!(op::SparseSoftmaxCrossEntropy::new(dev, ids, u(d))), f),
        O::Matmul => (bx!(op::Matmul::new(dev)), f),
        O::Transpose => (bx!(op::Transpose::new(dev)), f),
        O::TriL(k) => (bx!(op::TriangularL::new(dev, *k)), f),
        O::TriU(k) => (bx!(op::TriangularU::new(dev, *k)), f),
        O::Slice(d, lo, hi) => (bx!(op::Slice::new(dev, u(d), *lo, *hi)), f),
        O::Split(d, n) => (bx!(op::Split::new(dev, u(d), *n)), f),
        O::Pick(ids, d) => (bx!(op::Pick::new(dev, ids, u(d))), f),
        O::Concat(d) => (bx!(op::Concat::new(dev, u(d))), f),
        O::Reshape(d, b) => (bx!(op::Reshape::new(dev, Shape::new(&d.iter().map(|x| *x as u32).collect::<Vec<_>>(), *b as u32))), f),
        O::BSum => (bx!(op::BatchSum::new(dev)), f),
        O::BSlice(lo, hi) => (bx!(op::BatchSlice::new(dev, *lo, *hi)), f),
        O::BSplit(n) => (bx!(op::BatchSplit::new(dev, *n)), f),
        O::BPick(ids) => (bx!(op::BatchPick::new(dev, ids)), f),
        O::BConcat => (bx!(op::BatchConcat::new(dev)), f),
        _ => return None,
    })
}

/// sum of w * reference
fn phi(o: &O, x: &[A], w: &[A]) -> f64 {
    run(o, x).iter().zip(w).map(|(y, w)| y.v.iter().zip(&w.v).map(|(a, b)| a * b).sum::<f64>()).sum()
}
/// compares `got[i]` with the gradient of phi with respect to operand i
pub fn check_grad(r: &Rng, c: &Case, w: &[A], got: &[Vec<f64>], skip: &[bool]) -> Result<(), String> {
    for i in 0..c.x.len() {
        if skip.get(i) == Some(&true) {
            continue;
        }
        if matches!(c.o, O::Matmul) && c.x[0].v.len() + c.x[1].v.len() > 300 {
            // the adjoint in closed form
            let (a, b, y) = (&c.x[0], &c.x[1], &w[0]);
            let mut g = c.x[i].map(|_| 0.);
            let bs = y.s.b;
            for q in 0..bs {
                for m in 0..a.s.d[0] { for n in 0..b.s.d[1] { for k in 0..a.s.d[1] {
                    let z = [0; 8];
                    let mut ca = z; ca[0] = m; ca[1] = k;
                    let mut cb = z; cb[0] = k; cb[1] = n;
                    let mut cy = z; cy[0] = m; cy[1] = n;
                    if i == 0 { let p = a.s.ix(&ca, if a.s.b == 1 { 0 } else { q }); g.v[p] += y.at(&cy, q) * b.at(&cb, q); }
                    else { let p = b.s.ix(&cb, if b.s.b == 1 { 0 } else { q }); g.v[p] += y.at(&cy, q) * a.at(&ca, q); }
                } } }
            }
            for p in 0..g.v.len() {
                if !close(got[i][p], g.v[p], 1e-3) {
                    return Err(format!("gradient of operand {} at {} is {}, expected {}", i, p, got[i][p], g.v[p]));
                }
            }
            continue;
        }
        let n = c.x[i].v.len();
        let h = 1e-5;
        let coords: Vec<usize> = if n <= 96 { (0..n).collect() } else { (0..40).map(|_| r.below(n)).collect() };
        for p in coords {
            let mut x = c.x.clone();
            x[i].v[p] += h;
            let a = phi(&c.o, &x, w);
            x[i].v[p] -= 2. * h;
            let b = phi(&c.o, &x, w);
            let d = (a - b) / (2. * h);
            if !close(got[i][p], d, 2e-3) {
                return Err(format!("gradient of operand {} at {} is {}, expected {}", i, p, got[i][p], d));
            }
        }
        if n > 96 {
            for _ in 0..6 {
                let dir: Vec<f64> = (0..n).map(|_| if r.chance(0.5) { 1. } else { -1. }).collect();
                let mut x = c.x.clone();
                for p in 0..n { x[i].v[p] += h * dir[p]; }
                let a = phi(&c.o, &x, w);
                for p in 0..n { x[i].v[p] -= 2. * h * dir[p]; }
                let b = phi(&c.o, &x, w);
                let d = (a - b) / (2. * h);
                let g: f64 = (0..n).map(|p| got[i][p] * dir[p]).sum();
                let m: f64 = (0..n).map(|p| got[i][p].abs()).sum();
                if (g - d).abs() > 1e-2 + 1e-5 * m {
                    return Err(format!("gradient of operand {} along a direction is {}, expected {}", i, g, d));
                }
            }
        }
    }
    Ok(())
}

/// backward of the operator: adds the adjoint of the output gradient to what the input gradients held
pub fn backward(dev: Dev, r: &Rng, c: &Case) -> Result<(), String> {
    let want = match shapes(&c.o, &shs(c)) { Some(s) => s, None => return Ok(()) };
    let xs: Vec<T> = c.x.iter().map(|a| mk(dev, a)).collect();
    let w: Vec<A> = want.iter().map(|s| vals(r, s, Dom::Int)).collect();
    let g0: Vec<A> = c.x.iter().map(|a| vals(r, &a.s, Dom::Int)).collect();
    let gy: Vec<T> = w.iter().map(|a| mk(dev, a)).collect();
    let gx: Vec<RefCell<Tensor>> = g0.iter().map(|a| RefCell::new(mk(dev, a))).collect();
    poison(dev, &sizes(c), 6);
    let y0: Vec<A> = run(&c.o, &c.x);
    let ys: Vec<T> = y0.iter().map(|a| mk(dev, a)).collect();
    let res: Result<(), String> = match &c.o {
        O::Flip(d) => quiet(|| dev.call_bw_impl("flip_bw_impl", &[], &[], &[&gy[0]], &[*d as u32], &[], &mut gx[0].borrow_mut())),
        O::Permute(p) => quiet(|| dev.call_bw_impl("permute_dims_bw_impl", &[], &[], &[&gy[0]], p, &[], &mut gx[0].borrow_mut())),
        O::Cn("powfl", k) => quiet(|| dev.powf_const_l_bw(&xs[0], &ys[0], &gy[0], *k, &mut gx[0].borrow_mut())),
        _ => {
            let (o, ord) = match oper(dev, c) { Some(x) => x, None => return Ok(()) };
            let ord: Vec<usize> = ord.into_iter().take(c.x.len()).collect();
            let sh: Vec<Shape> = ord.iter().map(|i| xs[*i].shape()).collect();
            let fs = quiet(|| o.forward_shape(&sh)).map_err(|e| format!("operator rejected its operands: {}", e))?;
            for (a, b) in fs.iter().zip(&want) {
                if sh_of(*a) != *b {
                    return Err(format!("operator announces shape {:?}, expected {:?}", sh_of(*a), b));
                }
            }
            let xr: Vec<&Tensor> = ord.iter().map(|i| &xs[*i] as &Tensor).collect();
            // forward of the operator itself
            {
                let mut out: Vec<T> = fs.iter().map(|s| dev.new_tensor(*s)).collect();
                let mut or: Vec<&mut T> = out.iter_mut().collect();
                quiet(|| o.forward(&xr, &mut or)).map_err(|e| format!("operator forward panicked: {}", e))?;
                for i in 0..out.len() {
                    cmp("operator result", &rd(&out[i]), &y0[i], tol(&c.o))?;
                }
            }
            let yr: Vec<&Tensor> = ys.iter().map(|t| t as &Tensor).collect();
            let gr: Vec<&Tensor> = gy.iter().map(|t| t as &Tensor).collect();
            let gg: Vec<&RefCell<Tensor>> = ord.iter().map(|i| &gx[*i]).collect();
            quiet(|| o.backward(&xr, &yr, &gr, &gg))
        }
    };
    res.map_err(|e| format!("backward panicked: {}", e))?;
    let got: Vec<Vec<f64>> = (0..c.x.len()).map(|i| {
        let g = rd(&gx[i].borrow());
        g.v.iter().zip(&g0[i].v).map(|(a, b)| a - b).collect()
    }).collect();
    for i in 0..c.x.len() {
        let g = gx[i].borrow();
        if got[i].len() != c.x[i].v.len() || sh_of(g.shape()) != c.x[i].s { return Err("gradient changed its shape".into()); }
        if !canary(&g, c.x[i].v.len()) { return Err("memory behind a gradient was written".into()); }
        cmp("operand after backward", &rd(&xs[i]), &c.x[i], 0.)?;
    }
    for (a, t) in w.iter().zip(&gy) {
        cmp("output gradient after backward", &rd(t), a, 0.)?;
    }
    check_grad(r, c, &w, &got, &[])
}

/// argmax / argmin / argsort against their definition, also with ties
pub fn arg(dev: Dev, r: &Rng) -> Result<(Sh, usize, Vec<f64>), (Sh, usize, Vec<f64>, String)> {
    let s = gshape(r, 60);
    let d = r.below(9);
    let mut x = vals(r, &s, Dom::Distinct);
    if r.chance(0.4) {
        for v in x.v.iter_mut() { *v = (*v).round().clamp(-2., 2.); }
    }
    extremes(r, &mut x);
    let e = |m: String| (s.clone(), d, x.v.clone(), m);
    let t = mk(dev, &x);
    let n = Node::from(&t);
    let (mx, mn, so) = quiet(|| (t.argmax(d as u32), t.argmin(d as u32), t.argsort(d as u32))).map_err(|m| e(format!("panicked: {}", m)))?;
    let (mx2, mn2, so2) = quiet(|| (n.argmax(d as u32), n.argmin(d as u32), n.argsort(d as u32))).map_err(|m| e(format!("node panicked: {}", m)))?;
    if mx != mx2 || mn != mn2 || so != so2 { return Err(e("node and tensor disagree".into())); }
    let m = s.dm(d);
    let lines = s.size() / m;
    for (name, want) in [("argmax_impl", &mx), ("argmin_impl", &mn), ("argsort_impl", &so)] {
        let mut got = vec![u32::MAX; want.len()];
        quiet(|| dev.call_fw_u32_impl(name, &[&t], &[d as u32], &[], &mut got)).map_err(|m| e(format!("{} panicked: {}", name, m)))?;
        if got != *want { return Err(e(format!("{} into a used buffer gives {:?}, expected {:?}", name, got, want))); }
    }
    if mx.len() != lines || mn.len() != lines || so.len() != s.size() { return Err(e("wrong number of results".into())); }
    let rs = if d < 8 { s.with(d, 1) } else { s.clone() };
    for i in 0..lines {
        let (c, b) = rs.co(i);
        let at = |j: usize| { let mut c = c; if d < 8 { c[d] = j; } s.ix(&c, b) };
        let l: Vec<f64> = (0..m).map(|j| x.v[at(j)]).collect();
        let (hi, lo) = (l.iter().cloned().fold(f64::NEG_INFINITY, f64::max), l.iter().cloned().fold(f64::INFINITY, f64::min));
        if mx[i] as usize >= m || l[mx[i] as usize] != hi { return Err(e(format!("argmax of line {} is {}", i, mx[i]))); }
        if mn[i] as usize >= m || l[mn[i] as usize] != lo { return Err(e(format!("argmin of line {} is {}", i, mn[i]))); }
        // argsort names storage positions
        let p: Vec<usize> = (0..m).map(|j| so[at(j)] as usize).collect();
        let mut q = p.clone();
        q.sort();
        if q != (0..m).map(at).collect::<Vec<_>>() { return Err(e(format!("argsort of line {} is no permutation: {:?}", i, p))); }
        if p.windows(2).any(|w| x.v[w[0]] > x.v[w[1]]) { return Err(e(format!("argsort of line {} does not sort: {:?}", i, p))); }
    }
    Ok((s, d, vec![]))
}
/// now and then some of the elements are infinite or at the end of the range
fn extremes(r: &Rng, x: &mut A) {
    if r.chance(0.3) {
        let k = *r.pick(&[f64::NEG_INFINITY, f64::INFINITY, f32::MAX as f64, f32::MIN as f64, f32::MIN_POSITIVE as f64]);
        let at = if r.chance(0.3) { None } else { Some(x.v[r.below(x.v.len())]) };
        for v in x.v.iter_mut() { if at.map_or(true, |a| a == *v) { *v = k; } }
    }
}
/// max / min gradients with ties: all of the output gradient goes to extreme elements of the line
pub fn ties(dev: Dev, r: &Rng) -> Result<(), String> {
    let s = gshape(r, 40);
    let d = r.below(8);
    let mut x = vals(r, &s, Dom::Int);
    for v in x.v.iter_mut() { *v = (*v / 4.).round(); }
    extremes(r, &mut x);
    for mx in [true, false] {
        let t = mk(dev, &x);
        let y = if mx { t.max(d as u32) } else { t.min(d as u32) };
        let w = vals(r, &s.with(d, 1), Dom::Int);
        let gy = mk(dev, &w);
        let mut gx = mk(dev, &A { s: s.clone(), v: vec![1.; s.size()] });
        quiet(|| if mx { dev.max_bw(&t, &y, &gy, d as u32, &mut gx) } else { dev.min_bw(&t, &y, &gy, d as u32, &mut gx) })?;
        let g = rd(&gx);
        let yv = rd(&y);
        for i in 0..w.v.len() {
            let (c, b) = w.s.co(i);
            let ix: Vec<usize> = (0..s.d[d]).map(|j| { let mut c = c; c[d] = j; s.ix(&c, b) }).collect();
            let ext = ix.iter().map(|p| if mx { x.v[*p] } else { -x.v[*p] }).fold(f64::NEG_INFINITY, f64::max);
            if yv.v[i] != (if mx { ext } else { -ext }) {
                return Err(format!("{} of {:?} {:?} along {}: element {} is {}", if mx { "max" } else { "min" }, s, x.v, d, i, yv.v[i]));
            }
            let sum: f64 = ix.iter().map(|p| g.v[*p] - 1.).sum();
            if !close(sum, w.v[i], 1e-5) {
                return Err(format!("{} of {:?} {:?} along {}: output gradient {} arrives as {}", if mx { "max" } else { "min" }, s, x.v, d, w.v[i], sum));
            }
            for p in &ix {
                if g.v[*p] != 1. && (if mx { x.v[*p] } else { -x.v[*p] }) != ext {
                    return Err(format!("gradient went to element {} which is not extreme", p));
                }
            }
        }
    }
    Ok(())
}

/// operands of different devices are rejected, wherever the stray one stands
pub fn mixed(dev: Dev, dev2: Dev, r: &Rng) -> Result<(), String> {
    let c = gen(r, ALL[r.below(ALL.len())]);
    let want = match shapes(&c.o, &shs(&c)) { Some(s) => s, None => return Ok(()) };
    if matches!(c.o, O::BatchNorm(_, false)) { return Ok(()); }
    let n = c.x.len();
    let e = |k: &str, i: usize| Err(format!("{} of {:?} on shapes {:?} accepted although number {} of its tensors is on another device", k, c.o, shs(&c), i));
    let at = |i: usize, bad: usize| if i == bad { dev2 } else { dev };
    trace(&|| format!("mixed devices {:?} on {:?}", c.o, shs(&c)));
    if n >= 2 {
        let bad = r.below(n);
        let xs: Vec<T> = c.x.iter().enumerate().map(|(i, a)| mk(at(i, bad), a)).collect();
        let xr: Vec<&T> = xs.iter().collect();
        if quiet(|| run_t(dev, &c.o, &xr)).is_ok() { return e("tensor function", bad); }
        if has_node(&c.o) && !is_dev_only(&c.o) {
            let ns: Vec<Node> = xs.iter().map(Node::from).collect();
            let nr: Vec<&Node> = ns.iter().collect();
            if quiet(|| for y in nodes(&c.o, &nr) { y.to_vec(); }).is_ok() { return e("node function", bad); }
        }
    }
    if matches!(c.o, O::Red(..)) {
        let x = mk(dev2, &c.x[0]);
        let d = r.below(8) as u32;
        if quiet(|| dev.argmax(&x, d)).is_ok() { return e("argmax", 0); }
        if quiet(|| dev.argmin(&x, d)).is_ok() { return e("argmin", 0); }
        if quiet(|| dev.argsort(&x, d)).is_ok() { return e("argsort", 0); }
    }
    if n >= 1 && c.x[0].v.len() > 0 {
        // in place
        let (x, mut y) = (mk(dev2, &c.x[0]), mk(dev, &c.x[0]));
        if quiet(|| y += &x).is_ok() { return e("in-place addition", 0); }
        if quiet(|| y -= &x).is_ok() { return e("in-place subtraction", 0); }
        if quiet(|| dev.add_assign(&x, &mut mk(dev2, &c.x[0]))).is_ok() { return e("in-place addition on the wrong device", 0); }
    }
    if n == 2 && (matches!(c.o, O::Matmul) || (matches!(c.o, O::Bin(..)) && c.x.iter().all(|a| !a.s.scalar()))) {
        let bad = r.below(6);
        let (y, second) = (run(&c.o, &c.x).remove(0), r.chance(0.5));
        let (a, b) = (mk(at(0, bad), &c.x[0]), mk(at(1, bad), &c.x[1]));
        let (yt, gy) = (mk(at(2, bad), &y), mk(at(3, bad), &vals(r, &y.s, Dom::Pos)));
        let mut g = mk(at(4, bad), &c.x[second as usize]);
        let f = || {
            let (a, b, y, gy, g) = (&a, &b, &yt, &gy, &mut g);
            match (&c.o, second) {
                (O::Matmul, false) => dev.matmul_bw_a(a, b, y, gy, g),
                (O::Matmul, true) => dev.matmul_bw_b(a, b, y, gy, g),
                (O::Bin('+'), false) => dev.add_bw_a(a, b, y, gy, g),
                (O::Bin('+'), true) => dev.add_bw_b(a, b, y, gy, g),
                (O::Bin('-'), false) => dev.sub_bw_a(a, b, y, gy, g),
                (O::Bin('-'), true) => dev.sub_bw_b(a, b, y, gy, g),
                (O::Bin('*'), false) => dev.mul_bw_a(a, b, y, gy, g),
                (O::Bin('*'), true) => dev.mul_bw_b(a, b, y, gy, g),
                (O::Bin('/'), false) => dev.div_bw_a(a, b, y, gy, g),
                (O::Bin('/'), true) => dev.div_bw_b(a, b, y, gy, g),
                (_, false) => dev.powf_bw_a(a, b, y, gy, g),
                (_, true) => dev.powf_bw_b(a, b, y, gy, g),
            }
        };
        match quiet(f) {
            Ok(()) if bad < 5 => return e("gradient function of the device", bad),
            Err(m) if bad == 5 => return Err(format!("gradient function of {:?} on shapes {:?}: {}", c.o, shs(&c), m)),
            _ => {}
        }
    }
    // reshaping copies to its own device first
    if matches!(c.o, O::Reshape(..) | O::Flatten) { return Ok(()); }
    let (o, ord) = match oper(dev, &c) { Some(x) => x, None => return Ok(()) };
    let ord: Vec<usize> = ord.into_iter().take(n).collect();
    let bad = r.below(n + want.len());
    {
        let xs: Vec<T> = ord.iter().enumerate().map(|(i, p)| mk(at(i, bad), &c.x[*p])).collect();
        let xr: Vec<&T> = xs.iter().collect();
        let mut out: Vec<T> = want.iter().enumerate().map(|(i, s)| at(n + i, bad).new_tensor(shp(s))).collect();
        let mut or: Vec<&mut T> = out.iter_mut().collect();
        if quiet(|| o.forward(&xr, &mut or)).is_ok() { return e("operator", bad); }
    }
    let ys: Vec<A> = run(&c.o, &c.x);
    let m = want.len();
    let bad = r.below(2 * n + 2 * m);
    let pos: Vec<A> = want.iter().map(|s| vals(r, s, Dom::Pos)).collect();
    let xs: Vec<T> = ord.iter().enumerate().map(|(i, p)| mk(at(i, bad), &c.x[*p])).collect();
    let yt: Vec<T> = ys.iter().enumerate().map(|(i, a)| mk(at(n + i, bad), a)).collect();
    let gy: Vec<T> = pos.iter().enumerate().map(|(i, a)| mk(at(n + m + i, bad), a)).collect();
    let gx: Vec<RefCell<Tensor>> = ord.iter().enumerate().map(|(i, p)| RefCell::new(mk(at(n + 2 * m + i, bad), &c.x[*p]))).collect();
    let xr: Vec<&Tensor> = xs.iter().collect();
    let yr: Vec<&Tensor> = yt.iter().collect();
    let gr: Vec<&Tensor> = gy.iter().collect();
    let gg: Vec<&RefCell<Tensor>> = gx.iter().collect();
    if quiet(|| o.backward(&xr, &yr, &gr, &gg)).is_ok() {
        // values the gradient does not need may be anywhere
        let full = match &c.o {
            O::Un(u) => *u != "softplus",
            O::Cn(..) | O::Powi(_) => true,
            O::Bin(ch) => bad < n && (*ch == '/' || *ch == '^') && c.x.iter().all(|a| !a.s.scalar()),
            O::Matmul => bad < n,
            _ => false,
        };
        if full || bad >= n + m { return e("backward operator", bad); }
    }
    Ok(())
}
