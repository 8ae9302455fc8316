verus! {
// ------------------------------------------------------------- the gradient cells an operator is handed
// `gx: &[&RefCell<Tensor>]`: at()[i] names the cell the i-th entry refers to (two entries may name the
// same cell), val() is what the cells hold, busy() the ones borrowed at the moment.
#[verifier::external_body]
pub struct Cells { p: usize }
impl Cells {
    pub uninterp spec fn at(&self) -> Seq<int>;
    pub uninterp spec fn val(&self) -> Map<int, Tensor>;
    pub uninterp spec fn busy(&self) -> Set<int>;
    pub open spec fn tv(&self) -> Map<int, TV> { self.val().map_values(|t: Tensor| t.v()) }
    pub open spec fn ok(&self) -> bool {
        self.busy() =~= Set::<int>::empty() && forall|i: int| 0 <= i < self.at().len() ==> self.val().dom().contains(#[trigger] self.at()[i]) && self.val()[self.at()[i]].full()
    }
    // one cell per argument, of the argument's shape
    pub open spec fn fit(&self, xs: Seq<&Tensor>) -> bool {
        self.ok() && self.at().len() == xs.len() && forall|i: int| 0 <= i < xs.len() ==> self.val()[self.at()[i]].shape.s() == (#[trigger] xs[i]).shape.s()
    }
    // the cells hold m now, nothing else has changed
    pub open spec fn step(&self, f: Cells, m: Map<int, TV>) -> bool {
        f.ok() && f.at() == self.at() && f.val().dom() == self.val().dom() && f.tv() == m
        && forall|l: int| !self.at().contains(l) ==> #[trigger] f.val()[l] == self.val()[l]
    }
}
#[verifier::external_body]
pub fn cell_take(g: &mut Cells, i: usize, Ghost(ok): Ghost<bool>) -> (r: Tensor)
    requires ok ==> i < old(g).at().len() && !old(g).busy().contains(old(g).at()[i as int]),
    ensures i < old(g).at().len(), final(g).at() == old(g).at(), final(g).val() == old(g).val(),
        final(g).busy() == old(g).busy().insert(old(g).at()[i as int]), r == old(g).val()[old(g).at()[i as int]],
{ unimplemented!() }
#[verifier::external_body]
pub fn cell_put(g: &mut Cells, i: usize, t: Tensor)
    requires i < old(g).at().len(), old(g).busy().contains(old(g).at()[i as int]),
    ensures final(g).at() == old(g).at(), final(g).val() == old(g).val().insert(old(g).at()[i as int], t),
        final(g).busy() == old(g).busy().remove(old(g).at()[i as int]),
{ unimplemented!() }
#[verifier::external_body]
pub fn cells_len(g: &Cells) -> (r: usize) ensures r == g.at().len() { unimplemented!() }

pub open spec fn fulls(xs: Seq<&Tensor>) -> bool { forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).full() }
pub open spec fn V_zero(s: SV) -> TV { TV { s, d: Seq::new(sz(s) as nat, |p: int| 0.0real) } }
pub open spec fn tv_add(a: TV, b: TV) -> TV { TV { s: a.s, d: Seq::new(sz(a.s) as nat, |p: int| a.d[p] + b.d[p]) } }
pub open spec fn add_at(m: Map<int, TV>, l: int, d: TV) -> Map<int, TV> { m.insert(l, tv_add(m[l], d)) }
// ds[i] is added to the cell of argument i, for i < n
pub open spec fn add_all(m: Map<int, TV>, at: Seq<int>, ds: Seq<TV>, n: int) -> Map<int, TV> decreases n {
    if n <= 0 { m } else { add_at(add_all(m, at, ds, n - 1), at[n - 1], ds[n - 1]) }
}

// ------------------------------------------------------------- what an operation contributes to a gradient
pub open spec fn G_un(op: Op, x: TV, y: TV, gy: TV, k: real) -> TV { TV { s: x.s, d: Seq::new(sz(x.s) as nat, |t: int| g1(op, x.d[t], y.d[t], gy.d[t], k)) } }
// element t of the gradient gets w(t)
pub open spec fn G_each(s: SV, w: spec_fn(int) -> real) -> TV { V_sc(V_zero(s), ixb(s), w, sz(s)) }
pub open spec fn G_softplus(x: TV, gy: TV) -> TV { G_each(x.s, |t: int| f1(Op::Sigmoid, x.d[t], 0.0real) * gy.d[t]) }
pub open spec fn G_bin_a(op: Op, a: TV, b: TV, y: TV, gy: TV) -> TV { V_bin_bw_a(op, a, b, y, gy, V_zero(a.s)) }
pub open spec fn G_bin_b(op: Op, a: TV, b: TV, y: TV, gy: TV) -> TV { V_bin_bw_b(op, a, b, y, gy, V_zero(b.s)) }
// x op k for a scalar k: gy times the derivatives of f2(op, x, k)
pub open spec fn gsx(op: Op, x: real, k: real, y: real, gy: real) -> real {
    match op {
        Op::Add => gy,
        Op::Sub => gy,
        Op::SubL => -gy,
        Op::Mul => k * gy,
        Op::Div => gy / k,
        Op::DivL => -((gy / x) * y),
        Op::Pow => ((gy * y) * k) / x,
        Op::PowL => (gy * y) * e_ln(k),
        _ => 0.0real,
    }
}
pub open spec fn gsk(op: Op, x: real, k: real, y: real, gy: real) -> real {
    match op {
        Op::Add => gy,
        Op::Sub => -gy,
        Op::SubL => gy,
        Op::Mul => x * gy,
        Op::Div => -((gy / k) * y),
        Op::DivL => gy / x,
        Op::Pow => (gy * y) * e_ln(x),
        Op::PowL => ((gy * y) * x) / k,
        _ => 0.0real,
    }
}
pub open spec fn ixk(ks: SV, v: int) -> spec_fn(int) -> int { |t: int| six(ks, v, t) }
pub open spec fn wsx(op: Op, x: TV, k: TV, y: TV, gy: TV) -> spec_fn(int) -> real { |t: int| gsx(op, x.d[bix(x.s, t)], k.d[six(k.s, vol(x.s), t)], y.d[t], gy.d[t]) }
pub open spec fn wsk(op: Op, x: TV, k: TV, y: TV, gy: TV) -> spec_fn(int) -> real { |t: int| gsk(op, x.d[bix(x.s, t)], k.d[six(k.s, vol(x.s), t)], y.d[t], gy.d[t]) }
pub open spec fn G_scal_x(op: Op, x: TV, k: TV, y: TV, gy: TV) -> TV { V_sc(V_zero(x.s), ixb(x.s), wsx(op, x, k, y, gy), sz(gy.s)) }
pub open spec fn G_scal_k(op: Op, x: TV, k: TV, y: TV, gy: TV) -> TV { V_sc(V_zero(k.s), ixk(k.s, vol(x.s)), wsk(op, x, k, y, gy), sz(gy.s)) }
pub open spec fn G_add(s: SV, x: TV) -> TV { V_add_assign(V_zero(s), x, false) }
pub open spec fn G_sub(s: SV, x: TV) -> TV { V_add_assign(V_zero(s), x, true) }

pub open spec fn G_val(x: TV) -> TV { G_each(x.s, |t: int| x.d[t]) }
// the element of gy that stands for position t of a shape s reduced along dim
pub open spec fn fn_bcast(gy: TV, s: SV, dim: int) -> spec_fn(int) -> real { |t: int| gy.d[rproj(t, low(s, dim), dm(s, dim))] }
pub open spec fn G_lse(x: TV, y: TV, gy: TV, dim: int) -> TV { G_each(x.s, |t: int| e_exp(x.d[t] - fn_bcast(y, x.s, dim)(t)) * fn_bcast(gy, x.s, dim)(t)) }
// loss of target t: (softmax(x) - t) * gy for x (the elements of t sum to one along dim), -log softmax(x) * gy for t
pub open spec fn G_sce_x(x: TV, tg: TV, gy: TV, dim: int) -> TV {
    let s = s_ew(x.s, tg.s); let q = V_lsm(x, dim);
    V_sc(V_zero(x.s), ixb(x.s), |t: int| (e_exp(q.d[bix(x.s, t)]) - tg.d[bix(tg.s, t)]) * fn_bcast(gy, s, dim)(t), sz(s))
}
pub open spec fn G_sce_t(x: TV, tg: TV, gy: TV, dim: int) -> TV {
    let s = s_ew(x.s, tg.s); let q = V_lsm(x, dim);
    V_sc(V_zero(tg.s), ixb(tg.s), |t: int| -(q.d[bix(x.s, t)] * fn_bcast(gy, s, dim)(t)), sz(s))
}
pub open spec fn G_ssce(x: TV, gy: TV, ids: Seq<u32>, dim: int) -> TV {
    let s = s_batch(x.s, gy.s.b); let q = V_lsm(x, dim);
    tv_add(V_sc(V_zero(x.s), ixb(x.s), |t: int| e_exp(q.d[bix(x.s, t)]) * fn_bcast(gy, s, dim)(t), sz(s)), V_pick_bw(V_un(Op::Neg, gy, 0.0real), V_zero(x.s), ids, dim))
}
// ---- every backward computation adds something that does not depend on what the gradient held
pub broadcast proof fn bl_un(op: Op, x: TV, y: TV, gy: TV, gx: TV, k: real)
    requires gx.s == x.s, sz(x.s) >= 0,
    ensures #[trigger] V_un_bw(op, x, y, gy, gx, k) == tv_add(gx, G_un(op, x, y, gy, k)),
{
    assert(V_un_bw(op, x, y, gy, gx, k).d =~= tv_add(gx, G_un(op, x, y, gy, k)).d);
}
pub proof fn lemma_acc_add(g: real, ix: spec_fn(int) -> int, w: spec_fn(int) -> real, n: int, p: int)
    ensures acc(g, ix, w, n, p) == g + acc(0.0real, ix, w, n, p),
    decreases n,
{
    if n > 0 { lemma_acc_add(g, ix, w, n - 1, p); }
}
pub broadcast proof fn bl_sc(g: TV, ix: spec_fn(int) -> int, w: spec_fn(int) -> real, n: int)
    requires sz(g.s) >= 0,
    ensures #[trigger] V_sc(g, ix, w, n) == tv_add(g, V_sc(V_zero(g.s), ix, w, n)),
{
    let a = V_sc(g, ix, w, n); let b = tv_add(g, V_sc(V_zero(g.s), ix, w, n));
    assert forall|p: int| 0 <= p < sz(g.s) implies #[trigger] a.d[p] == b.d[p] by { lemma_acc_add(g.d[p], ix, w, n, p); }
    assert(a.d =~= b.d);
}
pub proof fn lemma_acc_ext(g: real, ix: spec_fn(int) -> int, w: spec_fn(int) -> real, ix2: spec_fn(int) -> int, w2: spec_fn(int) -> real, n: int, p: int)
    requires forall|t: int| 0 <= t < n ==> #[trigger] ix(t) == ix2(t), forall|t: int| 0 <= t < n ==> #[trigger] w(t) == w2(t),
    ensures acc(g, ix, w, n, p) == acc(g, ix2, w2, n, p),
    decreases n,
{
    if n > 0 { lemma_acc_ext(g, ix, w, ix2, w2, n - 1, p); assert(ix(n - 1) == ix2(n - 1)); assert(w(n - 1) == w2(n - 1)); }
}

// ---- elements of a OP b
pub open spec fn eix(a: SV, s: SV, t: int) -> int { if a == s { t } else if a.d == s.d { bix(a, t) } else { six(a, vol(s), t) } }
pub proof fn lemma_eix(a: SV, s: SV, t: int)
    requires svwf(a), svwf(s), a.d == s.d || scalar_s(a), a.b == 1 || a.b == s.b, 0 <= t < sz(s),
    ensures 0 <= eix(a, s, t) < sz(a), a.d == s.d ==> eix(a, s, t) == bix(a, t), scalar_s(a) ==> eix(a, s, t) == six(a, vol(s), t),
{
    lemma_sz(a); lemma_sz(s);
    let v = vol(s);
    if scalar_s(a) { lemma_lv_ones(a.d, 0, 8); }
    assert(0 <= t / v < s.b && 0 <= t % v < v && (s.b == 1 ==> t % v == t && t / v == 0)) by (nonlinear_arith) requires 0 <= t < sz(s), sz(s) == s.b * v, v >= 1, s.b >= 1;
    if scalar_s(a) && a.d == s.d { assert(v == 1); assert(t / v == t && t % v == 0) by (nonlinear_arith) requires v == 1, t >= 0; }
    if a == s && scalar_s(a) && a.b == 1 { assert(t == 0); }
}
pub broadcast proof fn bl_ar(op: Op, a: TV, b: TV, t: int)
    requires tvwf(a), tvwf(b), valid_ar(a.s, b.s), svwf(s_ar(a.s, b.s)), 0 <= t < sz(s_ar(a.s, b.s)),
        match op { Op::SubL => false, Op::DivL => false, Op::PowL => false, _ => true },
    ensures #[trigger] V_ar(op, a, b).d[t] == f2(op, a.d[eix(a.s, s_ar(a.s, b.s), t)], b.d[eix(b.s, s_ar(a.s, b.s), t)]),
        0 <= eix(a.s, s_ar(a.s, b.s), t) < sz(a.s), 0 <= eix(b.s, s_ar(a.s, b.s), t) < sz(b.s),
{
    let s = s_ar(a.s, b.s);
    lemma_s8(a.s); lemma_s8(b.s);
    lemma_eix(a.s, s, t); lemma_eix(b.s, s, t);
    let (x, k) = if scalar_s(a.s) { (b, a) } else { (a, b) };
    assert(vol(s) == vol(x.s));
    let u = a.d[eix(a.s, s, t)]; let w = b.d[eix(b.s, s, t)];
    assert(u * w == w * u) by (nonlinear_arith);
}
pub proof fn lemma_s8(s: SV) requires svwf(s) ensures s.d.len() == 8, vol(s) == lv(s.d, 8) {}
pub broadcast proof fn bl_bix(s: SV, t: int)
    requires svwf(s), 0 <= t < sz(s),
    ensures #[trigger] bix(s, t) == t || s.b != 1, s.b == 1 ==> bix(s, t) == t,
{
    lemma_sz(s);
    assert(s.b == 1 ==> t % vol(s) == t) by (nonlinear_arith) requires 0 <= t < sz(s), sz(s) == s.b * vol(s), vol(s) >= 1;
}
// adding a tensor to a gradient of the same dimensions, element by element
pub broadcast proof fn bl_aa(g: TV, x: TV, neg: bool, ix: spec_fn(int) -> int, w: spec_fn(int) -> real, n: int)
    requires tvwf(g), tvwf(x), n == mx(x.s.b, g.s.b) * vol(g.s),
        forall|t: int| 0 <= t < n ==> #[trigger] ix(t) == bix(g.s, t),
        forall|t: int| 0 <= t < n ==> #[trigger] w(t) == (if neg { -x.d[bix(x.s, t)] } else { x.d[bix(x.s, t)] }),
    ensures #![trigger V_add_assign(g, x, neg), V_sc(V_zero(g.s), ix, w, n)] V_add_assign(g, x, neg) == tv_add(g, V_sc(V_zero(g.s), ix, w, n)),
{
    lemma_sz(g.s);
    bl_sc(g, ix, w, n);
    let a = V_add_assign(g, x, neg); let b = V_sc(g, ix, w, n);
    assert forall|p: int| 0 <= p < sz(g.s) implies #[trigger] a.d[p] == b.d[p] by {
        lemma_acc_ext(g.d[p], ixb(g.s), w_b(g.s, x, neg), ix, w, n, p);
    }
    assert(a.d =~= b.d);
}
// what the sum of all elements of a batch adds to a scalar: every element counts once
pub open spec fn V_fsum(z: TV) -> TV { V_red(Red::Sum, V_reshape(z, s_flat(z.s)), 0) }
pub proof fn lemma_fsum_acc(g: real, z: Seq<real>, neg: bool, one: bool, ix: spec_fn(int) -> int, w: spec_fn(int) -> real, v: int, b: int, i: int, p: int)
    requires v >= 1, b >= 0, 0 <= i <= v,
        forall|t: int| 0 <= t < b * v + i ==> #[trigger] ix(t) == (if one { 0 } else { t / v }),
        forall|t: int| 0 <= t < b * v + i ==> #[trigger] w(t) == (if neg { -z[t] } else { z[t] }),
    ensures
        acc(g, ix, w, b * v + i, p) == acc(g, |k: int| if one { 0 } else { k }, |k: int| if neg { -rsum(z, k * v, 1, v) } else { rsum(z, k * v, 1, v) }, b, p)
            + (if p == (if one { 0 } else { b }) { if neg { -rsum(z, b * v, 1, i) } else { rsum(z, b * v, 1, i) } } else { 0.0real }),
    decreases b, i,
{
    let fi = |k: int| if one { 0 } else { k }; let fw = |k: int| if neg { -rsum(z, k * v, 1, v) } else { rsum(z, k * v, 1, v) };
    assert(b * v >= 0) by (nonlinear_arith) requires b >= 0, v >= 1;
    if i > 0 {
        let t = b * v + i - 1;
        lemma_fsum_acc(g, z, neg, one, ix, w, v, b, i - 1, p);
        lemma_bi(b, b + 1, v, i - 1);
        assert(ix(t) == (if one { 0 } else { t / v })); assert(w(t) == (if neg { -z[t] } else { z[t] }));
        assert(t / v == b);
        assert((i - 1) * 1 == i - 1);
    } else if b > 0 {
        assert(b * v == (b - 1) * v + v) by (nonlinear_arith);
        lemma_fsum_acc(g, z, neg, one, ix, w, v, b - 1, v, p);
        assert(fi(b - 1) == (if one { 0 } else { b - 1 }));
        assert(fw(b - 1) == (if neg { -rsum(z, (b - 1) * v, 1, v) } else { rsum(z, (b - 1) * v, 1, v) }));
    } else {
        assert(b * v == 0) by (nonlinear_arith) requires b == 0;
    }
}
pub broadcast proof fn bl_fsum(g: TV, z: TV, neg: bool, ix: spec_fn(int) -> int, w: spec_fn(int) -> real, n: int)
    requires tvwf(g), tvwf(z), scalar_s(g.s), g.s.b == 1 || g.s.b == z.s.b, n == sz(z.s),
        forall|t: int| 0 <= t < n ==> #[trigger] ix(t) == six(g.s, vol(z.s), t),
        forall|t: int| 0 <= t < n ==> #[trigger] w(t) == (if neg { -z.d[t] } else { z.d[t] }),
    ensures #![trigger V_add_assign(g, V_red(Red::Sum, V_reshape(z, s_flat(z.s)), 0), neg), V_sc(V_zero(g.s), ix, w, n)] V_add_assign(g, V_fsum(z), neg) == tv_add(g, V_sc(V_zero(g.s), ix, w, n)),
{
    lemma_sz(g.s);
    bl_sc(g, ix, w, n);
    let v = vol(z.s); let f = s_flat(z.s); let x = V_fsum(z);
    lemma_sz(z.s); lemma_sz(g.s); lemma_lv_ones(g.s.d, 0, 8); lemma_flat(z.s); lemma_dims2(v, 1);
    lemma_geo(f, 0); lemma_geo_dim(f, 0, 1);
    assert(low(f, 0) == 1 && dm(f, 0) == v);
    let a = V_add_assign(g, x, neg); let b = V_sc(g, ix, w, n);
    let m = mx(x.s.b, g.s.b) * vol(g.s);
    reveal_with_fuel(lv, 2);
    assert(vol(g.s) == 1); assert(x.s.b == z.s.b);
    assert(m == mx(x.s.b, g.s.b)) by (nonlinear_arith) requires m == mx(x.s.b, g.s.b) * vol(g.s), vol(g.s) == 1;
    assert(m == z.s.b);
    assert(x.s.d =~= dims2(1, 1));
    lemma_lv_ones(x.s.d, 0, 8);
    assert(vol(x.s) == 1);
    let one = g.s.b == 1;
    let fi = |k: int| if one { 0 } else { k }; let fw = |k: int| if neg { -rsum(z.d, k * v, 1, v) } else { rsum(z.d, k * v, 1, v) };
    assert forall|k: int| 0 <= k < m implies #[trigger] ixb(g.s)(k) == fi(k) by {
        assert(k % 1 == 0);
    }
    assert forall|k: int| 0 <= k < m implies #[trigger] w_b(g.s, x, neg)(k) == fw(k) by {
        assert(k % 1 == 0);
        assert(x.s.b == 1 ==> k == 0);
        assert(bix(x.s, k) == k);
        assert(rbase(k, 1, v) == k * v) by { assert(k % 1 == 0 && k / 1 == k); assert(1 * v == v); }
        assert(sz(x.s) == m);
    }
    assert(z.s.b * v + 0 == n);
    assert forall|p: int| 0 <= p < sz(g.s) implies #[trigger] a.d[p] == b.d[p] by {
        lemma_fsum_acc(g.d[p], z.d, neg, one, ix, w, v, z.s.b, 0, p);
        lemma_acc_ext(g.d[p], ixb(g.s), w_b(g.s, x, neg), fi, fw, m, p);
    }
    assert(a.d =~= b.d);
}
pub broadcast proof fn bl_flat1(s: SV)
    ensures (#[trigger] s_dim(s_flat(s), 0, 1)).d == dims2(1, 1),
{
    assert(s_dim(s_flat(s), 0, 1).d =~= dims2(1, 1));
}
pub broadcast proof fn bl_assoc(g: TV, a: TV, b: TV)
    requires sz(g.s) >= 0, a.s == g.s,
    ensures #[trigger] tv_add(tv_add(g, a), b) == tv_add(g, tv_add(a, b)),
{
    assert(tv_add(tv_add(g, a), b).d =~= tv_add(g, tv_add(a, b)).d);
}
// a shape s with the dimensions of x, and what it is reduced to along dim
pub proof fn lemma_red_shape(x: SV, s: SV, dim: int)
    requires svwf(x), svwf(s), x.d == s.d, 0 <= dim < 8,
    ensures
        svwf(s_dim(s, dim, 1)), valid_dim(s, dim, 1), valid_broadcast(s_dim(s, dim, 1), dim, dm(x, dim)), s_dim(s_dim(s, dim, 1), dim, dm(x, dim)) == s,
        low(s_dim(s, dim, 1), dim) == low(s, dim), dm(s, dim) == dm(x, dim), low(s, dim) == low(x, dim), vol(s) == vol(x), dm(x, dim) >= 1,
        scalar_s(s) == scalar_s(x), sz(s) == s.b * vol(s), sz(s) >= 1, vol(s) >= 1,
{
    lemma_sz(x); lemma_sz(s); lemma_geo(s, dim); lemma_geo_dim(s, dim, 1); lemma_shrink(s, dim, 1);
    assert(s_dim(s_dim(s, dim, 1), dim, dm(x, dim)).d =~= s.d);
}
// ---- several operands or results: operand i of a concatenation gets its part of gy
pub open spec fn G_cat(xs: Seq<TV>, gy: TV, dim: int, n: int) -> Seq<TV> {
    Seq::new(n as nat, |i: int| G_slot(xs[i].s, V_slice(gy, dim, cat_sum(svs(xs), dim, i), cat_sum(svs(xs), dim, i + 1))))
}
pub open spec fn G_bcat(xs: Seq<TV>, gy: TV, n: int) -> Seq<TV> {
    Seq::new(n as nat, |i: int| G_slot(xs[i].s, V_bslice(gy, bcat_sum(svs(xs), i), bcat_sum(svs(xs), i + 1))))
}
// a value with the dimensions of s, its batch possibly larger
pub open spec fn G_slot(s: SV, x: TV) -> TV { V_sc(V_zero(s), ixb(s), |t: int| x.d[bix(x.s, t)], mx(x.s.b, s.b) * vol(s)) }
// the gradients of the results of a split, put back at their places
pub open spec fn G_split(s: SV, gys: Seq<TV>, dim: int, k: int, n: int) -> TV decreases n {
    if n <= 0 { V_zero(s) } else { tv_add(G_split(s, gys, dim, k, n - 1), V_slice_bw(gys[n - 1], V_zero(s), dim, (n - 1) * k)) }
}
pub open spec fn G_bsplit(s: SV, gys: Seq<TV>, k: int, n: int) -> TV decreases n {
    if n <= 0 { V_zero(s) } else { tv_add(G_bsplit(s, gys, k, n - 1), V_bslice_bw(gys[n - 1], V_zero(s), (n - 1) * k)) }
}
pub broadcast proof fn bl_split_s(s: SV, gys: Seq<TV>, dim: int, k: int, n: int) ensures (#[trigger] G_split(s, gys, dim, k, n)).s == s, decreases n { if n > 0 { bl_split_s(s, gys, dim, k, n - 1); } }
pub broadcast proof fn bl_bsplit_s(s: SV, gys: Seq<TV>, k: int, n: int) ensures (#[trigger] G_bsplit(s, gys, k, n)).s == s, decreases n { if n > 0 { bl_bsplit_s(s, gys, k, n - 1); } }
pub broadcast proof fn bl_zero(g: TV)
    requires tvwf(g),
    ensures #[trigger] tv_add(g, V_zero(g.s)) == g,
{ assert(tv_add(g, V_zero(g.s)).d =~= g.d); }
pub proof fn lemma_cat_part(xs: Seq<SV>, dim: int, i: int)
    requires valid_concat(xs, dim), 0 <= dim, 0 <= i < xs.len(), forall|j: int| 0 <= j < xs.len() ==> svwf(#[trigger] xs[j]),
    ensures 0 <= cat_sum(xs, dim, i), cat_sum(xs, dim, i + 1) == cat_sum(xs, dim, i) + dm(xs[i], dim), cat_sum(xs, dim, i + 1) <= cat_sum(xs, dim, xs.len() as int), dm(xs[i], dim) >= 1,
        loo_dims(xs[0], xs[i], dim), xs[i].b == 1 || xs[i].b == cat_batch(xs, xs.len() as int),
        s_dim(s_concat(xs, dim), dim, dm(xs[i], dim)).d == xs[i].d, vol(s_dim(s_concat(xs, dim), dim, dm(xs[i], dim))) == vol(xs[i]),
        dm(s_concat(xs, dim), dim) == cat_sum(xs, dim, xs.len() as int), s_concat(xs, dim).b == cat_batch(xs, xs.len() as int),
{
    lemma_ocat_mono(xs, dim, i, i + 1); lemma_ocat_mono(xs, dim, i + 1, xs.len() as int); lemma_ocat_mono(xs, dim, 0, i);
    assert(svwf(xs[i]));
    assert(s_dim(s_concat(xs, dim), dim, dm(xs[i], dim)).d =~= xs[i].d);
}
pub proof fn lemma_ocat_mono(xs: Seq<SV>, dim: int, i: int, j: int)
    requires 0 <= i <= j <= xs.len(), 0 <= dim < 8, forall|k: int| 0 <= k < xs.len() ==> svwf(#[trigger] xs[k]),
    ensures cat_sum(xs, dim, i) <= cat_sum(xs, dim, j),
    decreases j,
{ if j > i { assert(svwf(xs[j - 1])); lemma_ocat_mono(xs, dim, i, j - 1); } }
pub proof fn lemma_bcat_part(xs: Seq<SV>, i: int)
    requires valid_bconcat(xs), 0 <= i < xs.len(), forall|j: int| 0 <= j < xs.len() ==> svwf(#[trigger] xs[j]),
    ensures 0 <= bcat_sum(xs, i), bcat_sum(xs, i + 1) == bcat_sum(xs, i) + xs[i].b, bcat_sum(xs, i + 1) <= bcat_sum(xs, xs.len() as int), xs[i].b >= 1,
        same_dims(xs[0], xs[i]), xs[i].d == xs[0].d, s_bconcat(xs).b == bcat_sum(xs, xs.len() as int), s_bconcat(xs).d == xs[0].d,
{
    lemma_obcat_mono(xs, i + 1, xs.len() as int); lemma_obcat_mono(xs, 0, i);
    assert(svwf(xs[i])); assert(svwf(xs[0]));
    assert(xs[i].d =~= xs[0].d);
}
pub proof fn lemma_obcat_mono(xs: Seq<SV>, i: int, j: int)
    requires 0 <= i <= j <= xs.len(), forall|k: int| 0 <= k < xs.len() ==> svwf(#[trigger] xs[k]),
    ensures bcat_sum(xs, i) <= bcat_sum(xs, j),
    decreases j,
{ if j > i { assert(svwf(xs[j - 1])); lemma_obcat_mono(xs, i, j - 1); } }
pub proof fn lemma_shrink_batch(s: SV, b: int)
    requires svwf(s), 1 <= b <= s.b,
    ensures valid_batch(s, b), svwf(s_batch(s, b)),
{ lemma_sz(s); assert(vol(s) * b <= vol(s) * s.b) by (nonlinear_arith) requires b <= s.b, vol(s) >= 1; }
pub broadcast group grp_op { bl_split_s, bl_bsplit_s, bl_zero, bl_assoc, bl_flat1, bl_un, bl_sc, bl_ar, bl_bix, bl_aa, bl_fsum }
// makes the tensor stand for another one: its buffer is the other's
#[verifier::external_body]
pub fn Tensor_refer(t: &mut Tensor, other: &Tensor, Ghost(ok): Ghost<bool>)
    requires old(t).wf(), other.wf(), ok ==> !old(t).valid@ && other.valid@ && old(t).shape.s() == other.shape.s(),
    ensures !old(t).valid@, other.valid@, old(t).shape.s() == other.shape.s(), final(t).full(), final(t).shape == old(t).shape, final(t).buf@ == other.buf@,
{ unimplemented!() }
}
