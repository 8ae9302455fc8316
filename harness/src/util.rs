use crate::refr::*;
use prima_undine::functions::*;
use prima_undine::{devices, Device, Node, Shape, Tensor};
use prima_undine_contrib::functions::ContribFunctions;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;

pub struct Rng(pub std::cell::Cell<u64>);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(std::cell::Cell::new(s))
    }
    pub fn next(&self) -> u64 {
        self.0.set(self.0.get().wrapping_add(0x9E3779B97F4A7C15));
        let mut z = self.0.get();
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn unit(&self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&self, x: &'a [T]) -> &'a T {
        &x[self.below(x.len())]
    }
    pub fn chance(&self, p: f64) -> bool {
        self.unit() < p
    }
}

pub type Dev = &'static Device<'static>;
pub type T = Tensor<'static>;

pub fn mkdev() -> Dev {
    Box::leak(Box::new(devices::Naive::new()))
}
pub const POISON: u32 = 0x7fc0_dead;

pub fn buf<'a>(t: &'a Tensor) -> &'a mut Vec<f32> {
    unsafe { &mut *(t.handle().load(Ordering::Acquire) as *mut Vec<f32>) }
}
/// the buffers the next operations receive hold a bit pattern of NaN
pub fn poison(dev: Dev, sizes: &[usize], n: usize) {
    let mut hs = vec![];
    let mut seen = std::collections::HashSet::new();
    for s in sizes {
        let c = (*s).max(64).next_power_of_two();
        if c > 1 << 22 || !seen.insert(c) {
            continue;
        }
        for _ in 0..n {
            hs.push(dev.new_handle(c as u32));
        }
    }
    for h in &hs {
        let v = unsafe { &mut *(h.load(Ordering::Acquire) as *mut Vec<f32>) };
        for x in v.iter_mut() {
            *x = f32::from_bits(POISON);
        }
    }
    for h in &hs {
        dev.drop_handle(h);
    }
}
pub fn shp(s: &Sh) -> Shape {
    Shape::new(&s.d.iter().map(|x| *x as u32).collect::<Vec<_>>(), s.b as u32)
}
pub fn sh_of(s: Shape) -> Sh {
    let mut d = [1; 8];
    for i in 0..8 {
        d[i] = s[i as u32] as usize;
    }
    Sh { d, b: s.batch() as usize }
}
pub fn mk(dev: Dev, a: &A) -> T {
    let t = dev.new_tensor_by_slice(shp(&a.s), &a.v.iter().map(|x| *x as f32).collect::<Vec<_>>());
    let v = buf(&t);
    for x in v[a.v.len()..].iter_mut() {
        *x = f32::from_bits(POISON);
    }
    t
}
pub fn canary(t: &Tensor, n: usize) -> bool {
    buf(t)[n..].iter().all(|x| x.to_bits() == POISON)
}
pub fn rd(t: &Tensor) -> A {
    A { s: sh_of(t.shape()), v: t.to_vec().iter().map(|x| *x as f64).collect() }
}
pub static TRACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// names the case before it runs, for a run that crashes
pub fn trace(f: &dyn Fn() -> String) {
    if TRACE.load(Ordering::Relaxed) {
        println!("TRACE {}", f());
    }
}
thread_local! { pub static DEPTH: std::cell::Cell<u32> = std::cell::Cell::new(0); }
/// a panic of the harness itself (not inside `quiet`) is shown
pub fn note(i: &std::panic::PanicHookInfo) {
    if DEPTH.with(|d| d.get()) == 0 {
        println!("{}", i);
    }
}
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    DEPTH.with(|d| d.set(d.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
    })
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    a == b || (a - b).abs() <= tol * (1. + b.abs())
}
pub fn cmp(what: &str, got: &A, want: &A, tol: f64) -> Result<(), String> {
    if got.s != want.s {
        return Err(format!("{}: shape {:?}, expected {:?}", what, got.s, want.s));
    }
    if got.v.len() != want.v.len() {
        return Err(format!("{}: {} values, expected {}", what, got.v.len(), want.v.len()));
    }
    for i in 0..got.v.len() {
        if !close(got.v[i], want.v[i], tol) {
            return Err(format!("{}: element {} is {}, expected {}", what, i, got.v[i], want.v[i]));
        }
    }
    Ok(())
}

fn u(x: usize) -> u32 {
    x as u32
}
macro_rules! apply {
    ($o:expr, $x:expr, $neg:expr, $dropmask:ident) => {{
        let x = $x;
        match $o {
            O::Un(n) => {
                let a = x[0];
                vec![match *n {
                    "neg" => $neg(a),
                    "abs" => a.abs(), "sqrt" => a.sqrt(), "exp" => a.exp(), "ln" => a.ln(), "sin" => a.sin(), "cos" => a.cos(), "tan" => a.tan(),
                    "tanh" => a.tanh(), "sigmoid" => a.sigmoid(), "softplus" => a.softplus(), "relu" => a.relu(), "lrelu" => a.lrelu(), _ => unreachable!(),
                }]
            }
            O::Cn(n, k) => {
                let a = x[0];
                let k = *k;
                vec![match *n {
                    "prelu" => a.prelu(k), "elu" => a.elu(k), "powf" => a.powf(k), "x+c" => a + k, "c+x" => k + a, "x-c" => a - k, "c-x" => k - a,
                    "x*c" => a * k, "c*x" => k * a, "x/c" => a / k, "c/x" => k / a, _ => unreachable!(),
                }]
            }
            O::Powi(k) => vec![x[0].powi(*k)],
            O::Bin(c) => vec![match c { '+' => x[0] + x[1], '-' => x[0] - x[1], '*' => x[0] * x[1], '/' => x[0] / x[1], _ => x[0].pow(x[1]) }],
            O::Red(n, d) => vec![match *n {
                "sum" => x[0].sum(u(*d)), "max" => x[0].max(u(*d)), "min" => x[0].min(u(*d)), "lse" => x[0].logsumexp(u(*d)),
                "lnsoftmax" => x[0].ln_softmax(u(*d)), "softmax" => x[0].softmax(u(*d)), "mean" => x[0].mean(u(*d)), _ => unreachable!(),
            }],
            O::Bcast(d, n) => vec![x[0].broadcast(u(*d), u(*n))],
            O::Sce(d) => vec![x[0].softmax_cross_entropy(x[1], u(*d))],
            O::Ssce(ids, d) => vec![x[0].sparse_softmax_cross_entropy(ids, u(*d))],
            O::Matmul => vec![x[0].matmul(x[1])],
            O::Transpose => vec![x[0].transpose()],
            O::TriL(k) => vec![x[0].triangular_l(*k)],
            O::TriU(k) => vec![x[0].triangular_u(*k)],
            O::Slice(d, lo, hi) => vec![x[0].slice(u(*d), *lo, *hi)],
            O::Split(d, n) => x[0].split(u(*d), *n),
            O::Pick(ids, d) => vec![x[0].pick(ids, u(*d))],
            O::Concat(d) => vec![BasicFunctions::concat(x, u(*d))],
            O::Reshape(d, b) => vec![x[0].reshape(Shape::new(&d.iter().map(|x| *x as u32).collect::<Vec<_>>(), u(*b)))],
            O::Flatten => vec![x[0].flatten()],
            O::BSum => vec![x[0].batch_sum()],
            O::BMean => vec![x[0].batch_mean()],
            O::BSlice(lo, hi) => vec![x[0].batch_slice(*lo, *hi)],
            O::BSplit(n) => x[0].batch_split(*n),
            O::BPick(ids) => vec![x[0].batch_pick(ids)],
            O::BConcat => vec![BasicFunctions::batch_concat(x)],
            O::DropOff(r, None) => vec![x[0].dropout(*r, false)],
            O::DropOff(r, Some(d)) => vec![x[0].dropout_dim(u(*d), *r, false)],
            O::DropAll(r, None) => vec![x[0].dropout(*r, true)],
            O::DropAll(r, Some(d)) => vec![x[0].dropout_dim(u(*d), *r, true)],
            O::SliceSum => vec![ContribFunctions::slice_sum(x)],
            O::BatchNorm(e, en) => vec![x[0].batch_normalization(x[1], x[2], *e, *en)],
            O::LayerNorm(e) => vec![x[0].layer_normalization(x[1], x[2], *e)],
            O::Flip(_) | O::Permute(_) => unreachable!(),
        }
    }};
}

pub fn tens(dev: Dev, o: &O, x: &[&T]) -> Vec<T> {
    match o {
        O::Flip(d) => {
            let mut y = dev.new_tensor(x[0].shape());
            y.alloc();
            dev.call_fw_impl("flip_fw_impl", &[x[0]], &[u(*d)], &[], &mut [&mut y]);
            vec![y]
        }
        O::Permute(p) => {
            let mut y = dev.new_tensor(shp(&shapes(o, &[sh_of(x[0].shape())]).unwrap()[0]));
            y.alloc();
            dev.call_fw_impl("permute_dims_fw_impl", &[x[0]], p, &[], &mut [&mut y]);
            vec![y]
        }
        _ => apply!(o, x, |a: &T| -a, t),
    }
}
pub fn has_node(o: &O) -> bool {
    !matches!(o, O::Flip(_) | O::Permute(_))
}
pub fn nodes<'a>(o: &O, x: &[&Node<'a, 'static>]) -> Vec<Node<'a, 'static>> {
    apply!(o, x, |a: &Node<'a, 'static>| -a, t)
}
/// the same operator through the operand forms that take values or references
pub fn bin_forms<X>(c: char, k: usize, a: X, b: X) -> X
where
    X: std::ops::Add<X, Output = X> + for<'q> std::ops::Add<&'q X, Output = X> + std::ops::Sub<X, Output = X> + for<'q> std::ops::Sub<&'q X, Output = X>
        + std::ops::Mul<X, Output = X> + for<'q> std::ops::Mul<&'q X, Output = X> + std::ops::Div<X, Output = X> + for<'q> std::ops::Div<&'q X, Output = X>,
    for<'q> &'q X: std::ops::Add<X, Output = X> + std::ops::Sub<X, Output = X> + std::ops::Mul<X, Output = X> + std::ops::Div<X, Output = X>,
{
    match (c, k) {
        ('+', 0) => a + b, ('+', 1) => a + &b, ('+', _) => &a + b,
        ('-', 0) => a - b, ('-', 1) => a - &b, ('-', _) => &a - b,
        ('*', 0) => a * b, ('*', 1) => a * &b, ('*', _) => &a * b,
        ('/', 0) => a / b, ('/', 1) => a / &b, (_, _) => &a / b,
    }
}
pub fn cn_forms<X>(n: &str, form: usize, a: X, k: f32) -> X
where
    X: std::ops::Add<f32, Output = X> + for<'q> std::ops::Add<&'q f32, Output = X> + std::ops::Sub<f32, Output = X> + for<'q> std::ops::Sub<&'q f32, Output = X>
        + std::ops::Mul<f32, Output = X> + for<'q> std::ops::Mul<&'q f32, Output = X> + std::ops::Div<f32, Output = X> + for<'q> std::ops::Div<&'q f32, Output = X>,
    for<'q> &'q X: std::ops::Add<&'q f32, Output = X> + std::ops::Sub<&'q f32, Output = X> + std::ops::Mul<&'q f32, Output = X> + std::ops::Div<&'q f32, Output = X>,
    f32: std::ops::Add<X, Output = X> + std::ops::Sub<X, Output = X> + std::ops::Mul<X, Output = X> + std::ops::Div<X, Output = X>,
    for<'q> &'q f32: std::ops::Add<X, Output = X> + std::ops::Sub<X, Output = X> + std::ops::Mul<X, Output = X> + std::ops::Div<X, Output = X>
        + std::ops::Add<&'q X, Output = X> + std::ops::Sub<&'q X, Output = X> + std::ops::Mul<&'q X, Output = X> + std::ops::Div<&'q X, Output = X>,
{
    match (n, form) {
        ("x+c", 0) => a + k, ("x+c", 1) => a + &k, ("x+c", _) => &a + &k,
        ("x-c", 0) => a - k, ("x-c", 1) => a - &k, ("x-c", _) => &a - &k,
        ("x*c", 0) => a * k, ("x*c", 1) => a * &k, ("x*c", _) => &a * &k,
        ("x/c", 0) => a / k, ("x/c", 1) => a / &k, ("x/c", _) => &a / &k,
        ("c+x", 0) => k + a, ("c+x", 1) => &k + a, ("c+x", _) => &k + &a,
        ("c-x", 0) => k - a, ("c-x", 1) => &k - a, ("c-x", _) => &k - &a,
        ("c*x", 0) => k * a, ("c*x", 1) => &k * a, ("c*x", _) => &k * &a,
        ("c/x", 0) => k / a, ("c/x", 1) => &k / a, (_, _) => &k / &a,
    }
}
/// another device of the process
pub fn second() -> Dev {
    static D: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let p = *D.get_or_init(|| mkdev() as *const Device<'static> as usize);
    unsafe { &*(p as *const Device<'static>) }
}
