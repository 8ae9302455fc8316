verus! {
// ------------------------------------------------------------- operators on tensors
// a OP b: a scalar operand (any batch) applies to every element of the other
pub open spec fn opl(op: Op) -> Op { match op { Op::Sub => Op::SubL, Op::Div => Op::DivL, Op::Pow => Op::PowL, o => o } }
pub open spec fn valid_ar(a: SV, b: SV) -> bool {
    if scalar_s(a) { valid_scalar_op(b, a) } else if scalar_s(b) { valid_scalar_op(a, b) } else { valid_ew(a, b) }
}
pub open spec fn s_ar(a: SV, b: SV) -> SV { if scalar_s(a) { s_ew(b, a) } else { s_ew(a, b) } }
pub open spec fn V_ar(op: Op, a: TV, b: TV) -> TV {
    if scalar_s(a.s) { V_scal(opl(op), b, a) } else if scalar_s(b.s) { V_scal(op, a, b) } else { V_bin(op, a, b) }
}
// ---- softmax and its relatives along a dimension
pub open spec fn lse_at(x: TV, dim: int, p: int) -> real {
    let l = low(x.s, dim); let n = dm(x.s, dim);
    redv(Red::Lse, x.d, rbase(rproj(p, l, n), l, n), l, n)
}
pub open spec fn V_lsm(x: TV, dim: int) -> TV { TV { s: x.s, d: Seq::new(sz(x.s) as nat, |p: int| x.d[p] - lse_at(x, dim, p)) } }
pub open spec fn V_sm(x: TV, dim: int) -> TV { V_un(Op::Exp, V_lsm(x, dim), 0.0real) }
pub open spec fn V_sce(x: TV, t: TV, dim: int) -> TV { V_un(Op::Neg, V_red(Red::Sum, V_ar(Op::Mul, t, V_lsm(x, dim)), dim), 0.0real) }
pub open spec fn V_ssce(x: TV, ids: Seq<u32>, dim: int) -> TV { V_un(Op::Neg, V_pick(V_lsm(x, dim), ids, dim), 0.0real) }
pub open spec fn V_reshape(x: TV, s: SV) -> TV { TV { s, d: x.d } }
pub open spec fn s_flat(s: SV) -> SV { SV { d: dims2(vol(s), 1), b: s.b } }

// a log-softmax keeps its operand's shape, and the composition of logsumexp, broadcast and subtraction is it
pub proof fn lemma_lsm(x: TV, dim: int)
    requires tvwf(x), 0 <= dim < 8,
    ensures
        valid_broadcast(s_dim(x.s, dim, 1), dim, dm(x.s, dim)), s_dim(s_dim(x.s, dim, 1), dim, dm(x.s, dim)) == x.s,
        svwf(s_dim(x.s, dim, 1)),
        valid_ar(x.s, x.s),
        V_ar(Op::Sub, x, V_broadcast(V_red(Red::Lse, x, dim), dim, dm(x.s, dim))) == V_lsm(x, dim),
        tvwf(V_lsm(x, dim)), V_lsm(x, dim).s == x.s,
{
    let n = dm(x.s, dim); let l = low(x.s, dim); let u = outer(x.s, dim);
    let r = V_red(Red::Lse, x, dim); let b = V_broadcast(r, dim, n);
    lemma_sz(x.s); lemma_geo(x.s, dim); lemma_geo_dim(x.s, dim, 1); lemma_shrink(x.s, dim, 1);
    assert(s_dim(s_dim(x.s, dim, 1), dim, n).d =~= x.s.d);
    assert(s_ew(x.s, x.s).d =~= x.s.d);
    assert(l * 1 == l);
    let y = V_ar(Op::Sub, x, b);
    assert forall|p: int| 0 <= p < sz(x.s) implies #[trigger] y.d[p] == V_lsm(x, dim).d[p] by {
        lemma_rproj(p, l, n, u);
        if scalar_s(x.s) { lemma_lv_ones(x.s.d, 0, 8); }
        assert(bix(x.s, p) == p && (scalar_s(x.s) ==> six(x.s, vol(x.s), p) == p)) by (nonlinear_arith)
            requires 0 <= p < sz(x.s), sz(x.s) == x.s.b * vol(x.s), vol(x.s) >= 1, x.s.b >= 1, scalar_s(x.s) ==> vol(x.s) == 1;
    }
    assert(y.d =~= V_lsm(x, dim).d);
}
pub proof fn lemma_flat(s: SV)
    requires svwf(s),
    ensures sz(s_flat(s)) == sz(s), vol(s_flat(s)) == vol(s), svwf(s_flat(s)),
        forall|x: Seq<u32>| x.len() == 1 && x[0] == vol(s) ==> #[trigger] valid_new(x, s.b) && pad8(x) == s_flat(s).d,
{
    lemma_sz(s); lemma_dims2(vol(s), 1);
    assert(vol(s) * 1 == vol(s));
    assert(vol(s) * s.b == s.b * vol(s)) by (nonlinear_arith);
    assert forall|x: Seq<u32>| x.len() == 1 && x[0] == vol(s) implies #[trigger] valid_new(x, s.b) && pad8(x) == s_flat(s).d by {
        assert(pad8(x) =~= s_flat(s).d);
    }
}

// ---- random values (trusted: the generator, rand and rand_distr)
pub uninterp spec fn normal_value(mean: real, sd: real, x: real) -> bool;
#[verifier::external_body]
pub fn fill_bernoulli(p: R, t: &mut Tensor, off: usize, n: usize, Ghost(ok): Ghost<bool>)
    requires old(t).valid@, off + n <= old(t).buf@.len(), ok ==> 0.0real <= p.v() <= 1.0real,
    ensures 0.0real <= p.v() <= 1.0real, final(t).shape == old(t).shape, final(t).valid == old(t).valid, final(t).buf@.len() == old(t).buf@.len(),
        forall|i: int| 0 <= i < old(t).buf@.len() ==> #[trigger] final(t).buf@[i] == old(t).buf@[i] || off <= i < off + n,
        forall|i: int| off <= i < off + n ==> #[trigger] final(t).buf@[i] == 0.0real || final(t).buf@[i] == 1.0real,
        p.v() == 1.0real ==> forall|i: int| off <= i < off + n ==> #[trigger] final(t).buf@[i] == 1.0real,
        p.v() == 0.0real ==> forall|i: int| off <= i < off + n ==> #[trigger] final(t).buf@[i] == 0.0real,
{ unimplemented!() }
#[verifier::external_body]
pub fn fill_uniform(lower: R, upper: R, t: &mut Tensor, off: usize, n: usize, Ghost(ok): Ghost<bool>)
    requires old(t).valid@, off + n <= old(t).buf@.len(), ok ==> lower.v() < upper.v(),
    ensures lower.v() < upper.v(), final(t).shape == old(t).shape, final(t).valid == old(t).valid, final(t).buf@.len() == old(t).buf@.len(),
        forall|i: int| 0 <= i < old(t).buf@.len() ==> #[trigger] final(t).buf@[i] == old(t).buf@[i] || off <= i < off + n,
        forall|i: int| off <= i < off + n ==> lower.v() <= #[trigger] final(t).buf@[i] && final(t).buf@[i] <= upper.v(),
{ unimplemented!() }
#[verifier::external_body]
pub fn fill_normal(mean: R, sd: R, t: &mut Tensor, off: usize, n: usize, Ghost(ok): Ghost<bool>)
    requires old(t).valid@, off + n <= old(t).buf@.len(), ok ==> 0.0real <= sd.v(),
    ensures 0.0real <= sd.v(), final(t).shape == old(t).shape, final(t).valid == old(t).valid, final(t).buf@.len() == old(t).buf@.len(),
        forall|i: int| 0 <= i < old(t).buf@.len() ==> #[trigger] final(t).buf@[i] == old(t).buf@[i] || off <= i < off + n,
        forall|i: int| off <= i < off + n ==> normal_value(mean.v(), sd.v(), #[trigger] final(t).buf@[i]),
{ unimplemented!() }
pub open spec fn all01(t: TV) -> bool { forall|i: int| 0 <= i < t.d.len() ==> #[trigger] t.d[i] == 0.0real || t.d[i] == 1.0real }
pub open spec fn all_in(t: TV, lo: real, up: real) -> bool { forall|i: int| 0 <= i < t.d.len() ==> lo <= #[trigger] t.d[i] && t.d[i] <= up }
pub open spec fn all_normal(t: TV, m: real, sd: real) -> bool { forall|i: int| 0 <= i < t.d.len() ==> normal_value(m, sd, #[trigger] t.d[i]) }

// ---- contrib
pub open spec fn V_mean(x: TV, dim: int) -> TV { V_un(Op::DivCR, V_red(Red::Sum, x, dim), dm(x.s, dim) as real) }
pub open spec fn V_bmean(x: TV) -> TV { V_un(Op::DivCR, V_batch_sum(x), x.s.b as real) }
// some elements are dropped, the others are scaled
pub open spec fn is_dropout(x: TV, r: TV, p: real) -> bool {
    r.s == x.s && r.d.len() == x.d.len() && forall|i: int| 0 <= i < x.d.len() ==> #[trigger] r.d[i] == 0.0real || r.d[i] == (1.0real / p) * x.d[i]
}
// the same, and whole lines along the dimension share their fate
pub open spec fn drop_line(x: TV, r: TV, m: TV, dim: int, p: real) -> bool {
    r.s == x.s && r.d.len() == x.d.len() && m.s == s_dim(x.s, dim, 1) && all01(m) && tvwf(m) &&
    forall|i: int| 0 <= i < x.d.len() ==> #[trigger] r.d[i] == ((1.0real / p) * x.d[i]) * m.d[rproj(i, low(x.s, dim), dm(x.s, dim))]
}
pub open spec fn is_dropout_dim(x: TV, r: TV, dim: int, p: real) -> bool { exists|m: TV| #[trigger] drop_line(x, r, m, dim, p) }
pub open spec fn V_ssum(xs: Seq<TV>, n: int) -> TV decreases n {
    if n <= 0 { V_const(xs[0].s, 0.0real) } else { V_ar(Op::Add, V_ssum(xs, n - 1), xs[n - 1]) }
}
pub open spec fn s_ssum(xs: Seq<SV>, n: int) -> SV decreases n { if n <= 0 { xs[0] } else { s_ar(s_ssum(xs, n - 1), xs[n - 1]) } }
pub open spec fn valid_ssum(xs: Seq<SV>) -> bool { xs.len() >= 1 && forall|n: int| 0 <= n < xs.len() ==> valid_ar(#[trigger] s_ssum(xs, n), xs[n]) }
pub proof fn lemma_s_ar(op: Op, a: TV, b: TV)
    ensures V_ar(op, a, b).s == s_ar(a.s, b.s)
{}
// the product of a tensor and a same-shaped one
pub proof fn lemma_mul_same(x: TV, m: TV)
    requires tvwf(x), tvwf(m), x.s == m.s,
    ensures valid_ar(x.s, m.s), V_ar(Op::Mul, x, m).s == x.s, V_ar(Op::Mul, x, m).d.len() == x.d.len(),
        forall|i: int| 0 <= i < x.d.len() ==> #[trigger] V_ar(Op::Mul, x, m).d[i] == x.d[i] * m.d[i],
{
    lemma_sz(x.s);
    if scalar_s(x.s) { lemma_lv_ones(x.s.d, 0, 8); }
    assert(s_ew(x.s, x.s).d =~= x.s.d);
    assert forall|p: int| 0 <= p < x.d.len() implies #[trigger] V_ar(Op::Mul, x, m).d[p] == x.d[p] * m.d[p] by {
        assert(bix(x.s, p) == p && (scalar_s(x.s) ==> six(x.s, vol(x.s), p) == p)) by (nonlinear_arith)
            requires 0 <= p < sz(x.s), sz(x.s) == x.s.b * vol(x.s), vol(x.s) >= 1, x.s.b >= 1, scalar_s(x.s) ==> vol(x.s) == 1;
        assert(m.d[p] * x.d[p] == x.d[p] * m.d[p]) by (nonlinear_arith);
    }
}
// normalisation: over the batch, and over the elements of one batch
pub open spec fn V_bnorm(x: TV, g: TV, b: TV, eps: real) -> TV {
    let m = V_bmean(x); let c = V_ar(Op::Sub, x, m);
    let v = V_un(Op::AddC, V_bmean(V_ar(Op::Mul, c, c)), eps);
    V_ar(Op::Add, V_ar(Op::Mul, g, V_ar(Op::Div, c, V_un(Op::Sqrt, v, 0.0real))), b)
}
pub open spec fn V_lmean(x: TV) -> TV { V_mean(V_reshape(x, s_flat(x.s)), 0) }
pub open spec fn V_lnorm(x: TV, g: TV, b: TV, eps: real) -> TV {
    let m = V_lmean(x); let c = V_ar(Op::Sub, x, m);
    let v = V_un(Op::AddC, V_lmean(V_ar(Op::Mul, c, c)), eps);
    V_ar(Op::Add, V_ar(Op::Mul, g, V_ar(Op::Div, c, V_un(Op::Sqrt, v, 0.0real))), b)
}

pub open spec fn xavier(scale: real, s: SV) -> real { scale * e_sqrt(6.0real / ((s.d[0] + s.d[1]) as real)) }
pub proof fn lemma_scale01(x: TV)
    requires tvwf(x),
    ensures V_un(Op::MulC, x, 1.0real) == x, V_un(Op::MulC, x, 0.0real) == V_const(x.s, 0.0real),
{
    assert forall|i: int| 0 <= i < x.d.len() implies x.d[i] * 1.0real == x.d[i] && x.d[i] * 0.0real == 0.0real by {}
    assert(V_un(Op::MulC, x, 1.0real).d =~= x.d);
    assert(V_un(Op::MulC, x, 0.0real).d =~= V_const(x.s, 0.0real).d);
}
// scaling by 1/p and multiplying with a mask of zeros and ones drops some elements
pub proof fn lemma_dropout(x: TV, p: real)
    requires tvwf(x),
    ensures
        forall|m: TV| tvwf(m) && m.s == x.s && all01(m) ==> valid_ar(x.s, m.s) && is_dropout(x, #[trigger] V_ar(Op::Mul, V_un(Op::MulC, x, 1.0real / p), m), p),
        p == 1.0real ==> V_ar(Op::Mul, V_un(Op::MulC, x, 1.0real / p), V_const(x.s, 1.0real)) == x,
        valid_ar(x.s, x.s),
{
    let k = 1.0real / p; let c = V_un(Op::MulC, x, k);
    lemma_sz(x.s);
    assert forall|m: TV| tvwf(m) && m.s == x.s && all01(m) implies valid_ar(x.s, m.s) && is_dropout(x, #[trigger] V_ar(Op::Mul, c, m), p) by {
        lemma_mul_same(c, m);
        let r = V_ar(Op::Mul, c, m);
        assert forall|i: int| 0 <= i < x.d.len() implies #[trigger] r.d[i] == 0.0real || r.d[i] == k * x.d[i] by {
            assert(c.d[i] == x.d[i] * k);
            assert(r.d[i] == c.d[i] * m.d[i]);
            assert(m.d[i] == 0.0real || m.d[i] == 1.0real);
            assert(x.d[i] * k == k * x.d[i]) by (nonlinear_arith);
        }
    }
    lemma_mul_same(x, x);
    if p == 1.0real {
        let m = V_const(x.s, 1.0real); lemma_mul_same(c, m);
        assert(V_ar(Op::Mul, c, m).d =~= x.d) by {
            assert forall|i: int| 0 <= i < x.d.len() implies V_ar(Op::Mul, c, m).d[i] == x.d[i] by { assert(c.d[i] == x.d[i] * k); assert(k == 1.0real); assert(m.d[i] == 1.0real); }
        }
    }
}
pub proof fn lemma_drop_line(x: TV, dim: int, p: real)
    requires tvwf(x), 0 <= dim < 8,
    ensures
        svwf(s_dim(x.s, dim, 1)), valid_broadcast(s_dim(x.s, dim, 1), dim, dm(x.s, dim)), s_dim(s_dim(x.s, dim, 1), dim, dm(x.s, dim)) == x.s,
        valid_ar(x.s, x.s),
        forall|m: TV| tvwf(m) && m.s == s_dim(x.s, dim, 1) && all01(m) ==>
            drop_line(x, #[trigger] V_ar(Op::Mul, V_un(Op::MulC, x, 1.0real / p), V_broadcast(m, dim, dm(x.s, dim))), m, dim, p),
{
    let n = dm(x.s, dim); let l = low(x.s, dim); let u = outer(x.s, dim);
    let k = 1.0real / p; let c = V_un(Op::MulC, x, k);
    lemma_sz(x.s); lemma_geo(x.s, dim); lemma_geo_dim(x.s, dim, 1); lemma_shrink(x.s, dim, 1);
    assert(s_dim(s_dim(x.s, dim, 1), dim, n).d =~= x.s.d);
    lemma_mul_same(x, x);
    assert forall|m: TV| tvwf(m) && m.s == s_dim(x.s, dim, 1) && all01(m) implies
        drop_line(x, #[trigger] V_ar(Op::Mul, c, V_broadcast(m, dim, n)), m, dim, p) by {
        let b = V_broadcast(m, dim, n); let r = V_ar(Op::Mul, c, b);
        assert(b.s == x.s); assert(b.d.len() == sz(x.s));
        lemma_mul_same(c, b);
        assert(l * 1 == l);
        assert forall|i: int| 0 <= i < x.d.len() implies #[trigger] r.d[i] == (k * x.d[i]) * m.d[rproj(i, l, n)] by {
            assert(c.d[i] == x.d[i] * k);
            assert(x.d[i] * k == k * x.d[i]) by (nonlinear_arith);
            lemma_rproj(i, l, n, u);
            assert(r.d[i] == c.d[i] * b.d[i]);
        }
    }
}
// everything the normalisations need of their shapes
pub open spec fn valid_norm(x: SV, g: SV, b: SV) -> bool {
    let r = s_ar(g, x);
    valid_ar(g, x) && valid_ar(r, b)
}

// subtracting or dividing by one value per batch keeps the shape
pub proof fn lemma_lnorm(x: TV)
    requires tvwf(x),
    ensures
        valid_ar(x.s, V_lmean(x).s), s_ar(x.s, V_lmean(x).s) == x.s,
        forall|y: TV| tvwf(y) && y.s == x.s ==> (#[trigger] V_lmean(y)).s == V_lmean(x).s,
        valid_ar(x.s, x.s), s_ar(x.s, x.s) == x.s,
{
    lemma_flat(x.s); lemma_sz(x.s);
    let m = V_lmean(x);
    lemma_lv_ones(m.s.d, 0, 8);
    assert(m.s.b == x.s.b);
    assert(scalar_s(m.s));
    assert(s_ew(x.s, m.s).d =~= x.s.d);
    assert(s_ew(x.s, x.s).d =~= x.s.d);
    if scalar_s(x.s) { assert(m.s.d =~= x.s.d); assert(s_ew(m.s, x.s).d =~= x.s.d); }
}
}
