verus! {
// ------------------------------------------------------------- tensors, abstractly
// A tensor value: its shape and its elements in storage order (first dimension fastest, batch last).
pub struct TV { pub s: SV, pub d: Seq<real> }
pub open spec fn tvwf(t: TV) -> bool { svwf(t.s) && t.d.len() == sz(t.s) }

// The elements a tensor may touch: the first size() elements of its buffer.
#[verifier::external_body]
pub struct Buf { p: usize }
impl Buf { pub uninterp spec fn view(&self) -> Seq<real>; }
// the device whose function is verified; only the functions of Device read it
pub uninterp spec fn self_device() -> int;
pub struct Tensor { pub shape: Shape, pub buf: Buf, pub valid: Ghost<bool>, pub dev: Ghost<int> }
impl Tensor {
    pub open spec fn v(&self) -> TV { TV { s: self.shape.s(), d: self.buf@ } }
    pub open spec fn wf(&self) -> bool { self.shape.wf() && self.buf@.len() == sz(self.shape.s()) }
    pub open spec fn here(&self) -> bool { self.dev@ == self_device() }
    pub open spec fn full(&self) -> bool { self.wf() && self.valid@ }
}
// x.device() == self
#[verifier::external_body]
pub fn same_dev(t: &Tensor) -> (r: bool)
    ensures r == t.here()
{ unimplemented!() }
// pointer to element 0; the accessor of an unallocated tensor panics
#[verifier::external_body]
pub fn t_ptr(t: &Tensor, Ghost(ok): Ghost<bool>) -> (r: usize)
    requires ok ==> t.valid@,
    ensures t.valid@, r == 0
{ 0 }
#[verifier::external_body]
pub fn t_rd(t: &Tensor, i: usize) -> (r: R)
    requires t.valid@, i < t.buf@.len(),
    ensures r.v() == t.buf@[i as int]
{ unimplemented!() }
#[verifier::external_body]
pub fn t_wr(t: &mut Tensor, i: usize, x: R)
    requires old(t).valid@, i < old(t).buf@.len(),
    ensures final(t).shape == old(t).shape, final(t).valid == old(t).valid, final(t).buf@ == old(t).buf@.update(i as int, x.v()),
{ unimplemented!() }
#[verifier::external_body]
pub fn sh_eq(a: &Shape, b: &Shape) -> (r: bool)
    requires a.wf(), b.wf(),
    ensures r == (*a == *b), r == (a.s() == b.s())
{ unimplemented!() }

// ------------------------------------------------------------- elementwise functions
pub enum Op {
    Neg, Abs, Sqrt, Exp, Ln, Sin, Cos, Tan, Tanh, Sigmoid, Softplus,
    AddC, SubCL, SubCR, MulC, DivCL, DivCR, PowCL, PowCR, PRelu, Elu, Powi(int),
    Add, Sub, SubL, Mul, Div, DivL, Pow, PowL,
}
// k is the constant operand: CL operations have it on the left, CR on the right
pub open spec fn f1(op: Op, x: real, k: real) -> real {
    match op {
        Op::Neg => -x,
        Op::Abs => e_abs(x),
        Op::Sqrt => e_sqrt(x),
        Op::Exp => e_exp(x),
        Op::Ln => e_ln(x),
        Op::Sin => e_sin(x),
        Op::Cos => e_cos(x),
        Op::Tan => e_tan(x),
        Op::Tanh => e_tanh(x),
        Op::Sigmoid => 1.0real / (1.0real + e_exp(-x)),
        Op::Softplus => e_ln(1.0real + e_exp(x)),
        Op::AddC => x + k,
        Op::SubCL => k - x,
        Op::SubCR => x - k,
        Op::MulC => x * k,
        Op::DivCL => k / x,
        Op::DivCR => x / k,
        Op::PowCL => e_pow(k, x),
        Op::PowCR => e_pow(x, k),
        Op::PRelu => if x > 0.0real { x } else { k * x },
        Op::Elu => if x > 0.0real { x } else { k * (e_exp(x) - 1.0real) },
        Op::Powi(n) => e_powi(x, n),
        _ => 0.0real,
    }
}
pub open spec fn f2(op: Op, a: real, b: real) -> real {
    match op {
        Op::Add => a + b,
        Op::Sub => a - b,
        Op::SubL => b - a,
        Op::Mul => a * b,
        Op::Div => a / b,
        Op::DivL => b / a,
        Op::Pow => e_pow(a, b),
        Op::PowL => e_pow(b, a),
        _ => 0.0real,
    }
}
// what one element contributes to the gradient of its operand: gy times the derivative, y = f(x)
pub open spec fn g1(op: Op, x: real, y: real, gy: real, k: real) -> real {
    match op {
        Op::Neg => -gy,
        Op::Abs => gy * (if x > 0.0real { 1.0real } else if x < 0.0real { -1.0real } else { 0.0real }),
        Op::Sqrt => gy * 0.5real / y,
        Op::Exp => gy * y,
        Op::Ln => gy / x,
        Op::Sin => gy * e_cos(x),
        Op::Cos => (-gy) * e_sin(x),
        Op::Tan => gy * (1.0real + y * y),
        Op::Tanh => gy * (1.0real - y * y),
        Op::Sigmoid => gy * y * (1.0real - y),
        Op::AddC => gy,
        Op::SubCL => -gy,
        Op::SubCR => gy,
        Op::MulC => k * gy,
        Op::DivCL => (-gy) * y / x,
        Op::DivCR => gy / k,
        Op::PowCL => gy * e_ln(k) * y,
        Op::PowCR => gy * k * e_pow(x, k - 1.0real),
        Op::PRelu => if x > 0.0real { gy } else { gy * k },
        Op::Elu => if x > 0.0real { gy } else { gy * (y + k) },
        Op::Powi(n) => gy * (n as real) * e_powi(x, n - 1),
        _ => 0.0real,
    }
}
pub open spec fn g2a(op: Op, a: real, b: real, y: real, gy: real) -> real {
    match op {
        Op::Add => gy,
        Op::Sub => gy,
        Op::Mul => b * gy,
        Op::Div => gy / b,
        Op::Pow => gy * b * e_pow(a, b - 1.0real),
        _ => 0.0real,
    }
}
pub open spec fn g2b(op: Op, a: real, b: real, y: real, gy: real) -> real {
    match op {
        Op::Add => gy,
        Op::Sub => -gy,
        Op::Mul => a * gy,
        Op::Div => -(gy * y / b),
        Op::Pow => gy * e_ln(a) * y,
        _ => 0.0real,
    }
}

// element used at position t of a result: an operand with batch one is reused
pub open spec fn bix(s: SV, t: int) -> int { if s.b == 1 { t % vol(s) } else { t } }
pub open spec fn six(k: SV, v: int, t: int) -> int { if k.b == 1 { 0 } else { t / v } }
pub open spec fn off(s: SV, b: int, v: int) -> int { if s.b == 1 { 0 } else { b * v } }

pub open spec fn V_un(op: Op, x: TV, k: real) -> TV { TV { s: x.s, d: Seq::new(sz(x.s) as nat, |t: int| f1(op, x.d[t], k)) } }
pub open spec fn V_bin(op: Op, a: TV, b: TV) -> TV {
    TV { s: s_ew(a.s, b.s), d: Seq::new(sz(s_ew(a.s, b.s)) as nat, |t: int| f2(op, a.d[bix(a.s, t)], b.d[bix(b.s, t)])) }
}
pub open spec fn V_scal(op: Op, x: TV, k: TV) -> TV {
    TV { s: s_ew(x.s, k.s), d: Seq::new(sz(s_ew(x.s, k.s)) as nat, |t: int| f2(op, x.d[bix(x.s, t)], k.d[six(k.s, vol(x.s), t)])) }
}
pub open spec fn V_un_bw(op: Op, x: TV, y: TV, gy: TV, gx: TV, k: real) -> TV {
    TV { s: gx.s, d: Seq::new(sz(gx.s) as nat, |t: int| gx.d[t] + g1(op, x.d[t], y.d[t], gy.d[t], k)) }
}
// scatter-add: element p of the result is g0[p] plus w(t) for every t < n with ix(t) == p
pub open spec fn acc(g: real, ix: spec_fn(int) -> int, w: spec_fn(int) -> real, n: int, p: int) -> real
    decreases n
{
    if n <= 0 { g } else { acc(g, ix, w, n - 1, p) + (if ix(n - 1) == p { w(n - 1) } else { 0.0real }) }
}
pub open spec fn V_sc(g: TV, ix: spec_fn(int) -> int, w: spec_fn(int) -> real, n: int) -> TV {
    TV { s: g.s, d: Seq::new(sz(g.s) as nat, |p: int| acc(g.d[p], ix, w, n, p)) }
}
pub open spec fn ixb(s: SV) -> spec_fn(int) -> int { |t: int| bix(s, t) }
pub open spec fn wa(op: Op, a: TV, b: TV, y: TV, gy: TV) -> spec_fn(int) -> real {
    |t: int| g2a(op, a.d[bix(a.s, t)], b.d[bix(b.s, t)], y.d[t], gy.d[t])
}
pub open spec fn wb(op: Op, a: TV, b: TV, y: TV, gy: TV) -> spec_fn(int) -> real {
    |t: int| g2b(op, a.d[bix(a.s, t)], b.d[bix(b.s, t)], y.d[t], gy.d[t])
}
pub open spec fn V_bin_bw_a(op: Op, a: TV, b: TV, y: TV, gy: TV, ga: TV) -> TV { V_sc(ga, ixb(ga.s), wa(op, a, b, y, gy), sz(gy.s)) }
pub open spec fn V_bin_bw_b(op: Op, a: TV, b: TV, y: TV, gy: TV, gb: TV) -> TV { V_sc(gb, ixb(gb.s), wb(op, a, b, y, gy), sz(gy.s)) }

pub proof fn lemma_bi(b: int, n: int, v: int, i: int)
    requires 0 <= b < n, 0 <= i < v,
    ensures
        0 <= b * v, 0 <= b * v + i < n * v, b * v + v <= n * v,
        (b * v + i) / v == b, (b * v + i) % v == i,
        (b + 1) * v == b * v + v,
        i / v == 0, i % v == i,
{
    assert((b + 1) * v == b * v + v) by (nonlinear_arith);
    assert((b + 1) * v <= n * v) by (nonlinear_arith) requires b + 1 <= n, v >= 0;
    assert(b * v >= 0) by (nonlinear_arith) requires b >= 0, v >= 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(b * v + i, v, b, i);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, v, 0, i);
}
pub proof fn lemma_sz(s: SV)
    requires svwf(s),
    ensures 1 <= vol(s) <= U32M(), 1 <= sz(s) <= U32M(), sz(s) == s.b * vol(s), s.b == 1 ==> sz(s) == vol(s), vol(s) <= sz(s),
{
    lemma_lv_pos(s.d, 8);
    assert(vol(s) * s.b == s.b * vol(s)) by (nonlinear_arith);
    assert(s.b * vol(s) >= vol(s)) by (nonlinear_arith) requires s.b >= 1, vol(s) >= 1;
}
pub proof fn lemma_mul_le(a: int, b: int, v: int)
    requires 0 <= a <= b, 0 <= v,
    ensures 0 <= a * v <= b * v,
{
    assert(0 <= a * v <= b * v) by (nonlinear_arith) requires 0 <= a <= b, 0 <= v;
}

// ------------------------------------------------------------- facts on the real functions (trusted)
#[verifier::external_body]
pub proof fn axiom_sigmoid(x: real)
    ensures e_exp(-x) > 0.0real, 0.5real + 0.5real * e_tanh(0.5real * x) == 1.0real / (1.0real + e_exp(-x)),
{}
// log(1 + e^x), written so that it does not overflow
#[verifier::external_body]
pub proof fn axiom_softplus(x: real)
    ensures e_ln(1.0real + e_exp(-x)) + x == e_ln(1.0real + e_exp(x)),
{}
}
verus! {
// ------------------------------------------------------------- tensor and device primitives (contracts; see unit "mem")
// one device: x.device() == y.device() always holds, which C14's checks on other devices do not rely on
pub struct Device {}
#[verifier::external_body]
pub fn dev<'a>() -> &'a Device { unimplemented!() }
#[verifier::external_body]
pub fn new_tensor(shape: Shape) -> (r: Tensor)
    requires shape.wf(),
    ensures r.wf(), r.shape == shape, !r.valid@
{ unimplemented!() }
// the buffer handed out is not cleared
#[verifier::external_body]
pub fn Tensor_alloc(t: &mut Tensor, Ghost(ok): Ghost<bool>)
    requires old(t).wf(), ok ==> !old(t).valid@,
    ensures !old(t).valid@, final(t).full(), final(t).shape == old(t).shape
{ unimplemented!() }
#[verifier::external_body]
pub fn Tensor_valid(t: &Tensor) -> (r: bool)
    ensures r == t.valid@
{ unimplemented!() }
// takes over the buffer of `other`, which is not a reference to another tensor
#[verifier::external_body]
pub fn Tensor_replace(t: &mut Tensor, other: Tensor, Ghost(ok): Ghost<bool>)
    requires old(t).wf(), other.wf(), ok ==> !old(t).valid@ && old(t).shape.s() == other.shape.s(),
    ensures !old(t).valid@, old(t).shape.s() == other.shape.s(), final(t).wf(), final(t).shape == old(t).shape, final(t).buf@ == other.buf@, final(t).valid == other.valid,
{ unimplemented!() }
#[verifier::external_body]
pub fn no_tensors<'a>() -> (r: &'a [&'a Tensor]) ensures r@.len() == 0 { &[] }
#[verifier::external_body]
pub fn no_u32<'a>() -> (r: &'a [u32]) ensures r@.len() == 0 { &[] }
#[verifier::external_body]
pub fn no_f32<'a>() -> (r: &'a [R]) ensures r@.len() == 0 { &[] }
}
