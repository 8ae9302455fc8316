verus! {
// ------------------------------------------------------------- shapes, abstractly
// A shape is the infinite sequence of dimensions d[0], .., d[7], 1, 1, .. and a batch size.
pub struct SV { pub d: Seq<int>, pub b: int }
pub open spec fn U32M() -> int { 0xffff_ffff }
pub open spec fn lv(d: Seq<int>, n: int) -> int decreases n { if n <= 0 { 1 } else { lv(d, n - 1) * d[n - 1] } }
pub open spec fn dm(s: SV, i: int) -> int { if 0 <= i < 8 { s.d[i] } else { 1 } }
pub open spec fn vol(s: SV) -> int { lv(s.d, 8) }
pub open spec fn sz(s: SV) -> int { s.b * vol(s) }
pub open spec fn pos8(d: Seq<int>) -> bool { d.len() == 8 && (forall|i: int| 0 <= i < 8 ==> #[trigger] d[i] >= 1) }
pub open spec fn svwf(s: SV) -> bool { pos8(s.d) && s.b >= 1 && vol(s) * s.b <= U32M() && vol(s) <= U32M() }
pub open spec fn lower(s: SV, dim: int) -> int { lv(s.d, if dim < 8 { dim } else { 8 }) }
pub open spec fn depth_is(d: Seq<int>, n: int) -> bool {
    0 <= n <= 8 && (n > 0 ==> d[n - 1] != 1) && (forall|i: int| n <= i < 8 ==> #[trigger] d[i] == 1)
}
pub open spec fn scalar_s(s: SV) -> bool { forall|i: int| 0 <= i < 8 ==> #[trigger] s.d[i] == 1 }
pub open spec fn column_s(s: SV) -> bool { forall|i: int| 1 <= i < 8 ==> #[trigger] s.d[i] == 1 }
pub open spec fn matrix_s(s: SV) -> bool { forall|i: int| 2 <= i < 8 ==> #[trigger] s.d[i] == 1 }
pub open spec fn same_dims(a: SV, b: SV) -> bool { a.d == b.d }
pub open spec fn loo_dims(a: SV, b: SV, dim: int) -> bool { forall|i: int| 0 <= i < 8 && i != dim ==> #[trigger] a.d[i] == b.d[i] }
pub open spec fn compat(a: SV, b: SV) -> bool { a.b == b.b || a.b == 1 || b.b == 1 }
pub open spec fn mx(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn s_dim(s: SV, dim: int, m: int) -> SV { SV { d: s.d.update(dim, m), b: s.b } }
pub open spec fn s_batch(s: SV, b: int) -> SV { SV { d: s.d, b } }
pub open spec fn pad8(x: Seq<u32>) -> Seq<int> { Seq::new(8, |i: int| if i < x.len() { x[i] as int } else { 1 }) }
pub open spec fn dims2(a: int, b: int) -> Seq<int> { Seq::new(8, |i: int| if i == 0 { a } else if i == 1 { b } else { 1 }) }

// validity (accept-iff-valid) of the shape operations
pub open spec fn valid_new(x: Seq<u32>, b: int) -> bool {
    x.len() <= 8 && b >= 1 && (forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] != 0)
    && lv(pad8(x), 8) <= U32M() && lv(pad8(x), 8) * b <= U32M()
}
pub open spec fn valid_dim(s: SV, dim: int, m: int) -> bool {
    dim < 8 && m != 0 && vol(s_dim(s, dim, m)) <= U32M() && vol(s_dim(s, dim, m)) * s.b <= U32M()
}
pub open spec fn valid_batch(s: SV, b: int) -> bool { b >= 1 && vol(s) * b <= U32M() }
pub open spec fn s_ew(a: SV, b: SV) -> SV { s_batch(a, mx(a.b, b.b)) }
pub open spec fn valid_scalar_op(x: SV, k: SV) -> bool { scalar_s(k) && compat(x, k) && vol(x) * mx(x.b, k.b) <= U32M() }
pub open spec fn valid_ew(a: SV, b: SV) -> bool { same_dims(a, b) && compat(a, b) && vol(a) * mx(a.b, b.b) <= U32M() }
pub open spec fn valid_broadcast(x: SV, dim: int, n: int) -> bool { dm(x, dim) == 1 && n != 0 && valid_dim(x, dim, n) }
pub open spec fn s_matmul(l: SV, r: SV) -> SV { SV { d: dims2(dm(l, 0), dm(r, 1)), b: mx(l.b, r.b) } }
pub open spec fn valid_matmul(l: SV, r: SV) -> bool {
    matrix_s(l) && matrix_s(r) && dm(l, 1) == dm(r, 0) && compat(l, r)
    && dm(l, 0) * dm(r, 1) <= U32M() && (dm(l, 0) * dm(r, 1)) * mx(l.b, r.b) <= U32M()
}
pub open spec fn s_transpose(x: SV) -> SV { SV { d: dims2(dm(x, 1), dm(x, 0)), b: x.b } }
pub open spec fn valid_slice(x: SV, dim: int, lo: int, up: int) -> bool { lo < up && up <= dm(x, dim) && dim < 8 }
pub open spec fn valid_pick(x: SV, ids: Seq<u32>, dim: int) -> bool {
    dim < 8 && ids.len() >= 1 && (x.b == ids.len() || x.b == 1 || ids.len() == 1)
    && (forall|i: int| 0 <= i < ids.len() ==> #[trigger] ids[i] < dm(x, dim))
    && vol(s_dim(x, dim, 1)) * mx(x.b, ids.len() as int) <= U32M()
}
pub open spec fn s_pick(x: SV, n: int, dim: int) -> SV { s_batch(s_dim(x, dim, 1), mx(x.b, n)) }
pub open spec fn valid_batch_pick(x: SV, ids: Seq<u32>) -> bool {
    ids.len() >= 1 && (forall|i: int| 0 <= i < ids.len() ==> #[trigger] ids[i] < x.b) && vol(x) * ids.len() <= U32M()
}
pub open spec fn valid_batch_slice(x: SV, lo: int, up: int) -> bool { lo < up && up <= x.b }
pub open spec fn cat_sum(xs: Seq<SV>, dim: int, n: int) -> int decreases n {
    if n <= 0 { 0 } else { cat_sum(xs, dim, n - 1) + dm(xs[n - 1], dim) }
}
pub open spec fn cat_batch(xs: Seq<SV>, n: int) -> int decreases n {
    if n <= 1 { xs[0].b } else { mx(cat_batch(xs, n - 1), xs[n - 1].b) }
}
pub open spec fn s_concat(xs: Seq<SV>, dim: int) -> SV {
    SV { d: xs[0].d.update(dim, cat_sum(xs, dim, xs.len() as int)), b: cat_batch(xs, xs.len() as int) }
}
// all operands agree but in the dimension, and every batch size is 1 or the common one
pub open spec fn valid_concat(xs: Seq<SV>, dim: int) -> bool {
    xs.len() >= 1 && dim < 8
    && (forall|i: int| 0 <= i < xs.len() ==> loo_dims(xs[0], #[trigger] xs[i], dim))
    && (forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).b == 1 || xs[i].b == cat_batch(xs, xs.len() as int))
    && cat_sum(xs, dim, xs.len() as int) <= U32M()
    && vol(s_concat(xs, dim)) <= U32M() && vol(s_concat(xs, dim)) * s_concat(xs, dim).b <= U32M()
}
pub open spec fn bcat_sum(xs: Seq<SV>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { bcat_sum(xs, n - 1) + xs[n - 1].b }
}
pub open spec fn s_bconcat(xs: Seq<SV>) -> SV { s_batch(xs[0], bcat_sum(xs, xs.len() as int)) }
pub open spec fn valid_bconcat(xs: Seq<SV>) -> bool {
    xs.len() >= 1 && (forall|i: int| 0 <= i < xs.len() ==> same_dims(xs[0], #[trigger] xs[i]))
    && bcat_sum(xs, xs.len() as int) <= U32M() && vol(xs[0]) * bcat_sum(xs, xs.len() as int) <= U32M()
}
pub open spec fn shv(xs: Seq<Shape>) -> Seq<SV> { Seq::new(xs.len(), |i: int| xs[i].s()) }

impl Copy for Shape {}
impl Clone for Shape { fn clone(&self) -> (r: Shape) ensures r == *self { *self } }
impl Shape {
    pub open spec fn s(self) -> SV { SV { d: Seq::new(8, |i: int| self.dims@[i] as int), b: self.batch as int } }
    pub open spec fn wf(self) -> bool {
        svwf(self.s()) && self.volume == vol(self.s()) && depth_is(self.s().d, self.depth as int)
    }
}

// ------------------------------------------------------------- lemmas
pub proof fn lemma_lv_pos(d: Seq<int>, n: int)
    requires 0 <= n <= d.len(), forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] >= 1,
    ensures lv(d, n) >= 1,
    decreases n,
{
    if n > 0 { lemma_lv_pos(d, n - 1); assert(lv(d, n - 1) * d[n - 1] >= 1) by (nonlinear_arith) requires lv(d, n - 1) >= 1, d[n - 1] >= 1; }
}
pub proof fn lemma_lv_mono(d: Seq<int>, n: int, m: int)
    requires 0 <= n <= m <= d.len(), forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] >= 1,
    ensures 1 <= lv(d, n) <= lv(d, m),
    decreases m,
{
    lemma_lv_pos(d, n);
    if n < m {
        lemma_lv_mono(d, n, m - 1);
        assert(lv(d, m - 1) * d[m - 1] >= lv(d, m - 1)) by (nonlinear_arith) requires lv(d, m - 1) >= 1, d[m - 1] >= 1;
    }
}
pub proof fn lemma_lv_ext(d: Seq<int>, e: Seq<int>, n: int)
    requires 0 <= n <= d.len(), n <= e.len(), forall|i: int| 0 <= i < n ==> #[trigger] d[i] == e[i],
    ensures lv(d, n) == lv(e, n),
    decreases n,
{ if n > 0 { lemma_lv_ext(d, e, n - 1); } }
pub proof fn lemma_lv_ones(d: Seq<int>, n: int, m: int)
    requires 0 <= n <= m <= d.len(), forall|i: int| n <= i < m ==> #[trigger] d[i] == 1,
    ensures lv(d, m) == lv(d, n),
    decreases m,
{ if n < m { lemma_lv_ones(d, n, m - 1); } }
// volume factors at any dimension
pub open spec fn upper(d: Seq<int>, dim: int, n: int) -> int decreases n - dim {
    // product of d[dim+1 .. n)
    if n <= dim + 1 { 1 } else { upper(d, dim, n - 1) * d[n - 1] }
}
pub proof fn lemma_lv_split(d: Seq<int>, dim: int, n: int)
    requires 0 <= dim < n <= d.len(),
    ensures lv(d, n) == (lv(d, dim) * d[dim]) * upper(d, dim, n),
    decreases n,
{
    if n > dim + 1 {
        lemma_lv_split(d, dim, n - 1);
        assert(((lv(d, dim) * d[dim]) * upper(d, dim, n - 1)) * d[n - 1] == (lv(d, dim) * d[dim]) * (upper(d, dim, n - 1) * d[n - 1])) by (nonlinear_arith);
    } else {
        assert(upper(d, dim, n) == 1);
    }
}
pub proof fn lemma_upper_ext(d: Seq<int>, e: Seq<int>, dim: int, n: int)
    requires 0 <= dim, n <= d.len(), n <= e.len(), forall|i: int| dim < i < n ==> #[trigger] d[i] == e[i],
    ensures upper(d, dim, n) == upper(e, dim, n),
    decreases n - dim,
{ if n > dim + 1 { lemma_upper_ext(d, e, dim, n - 1); } }
pub proof fn lemma_upper_pos(d: Seq<int>, dim: int, n: int)
    requires 0 <= dim, n <= d.len(), forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] >= 1,
    ensures upper(d, dim, n) >= 1,
    decreases n - dim,
{
    if n > dim + 1 { lemma_upper_pos(d, dim, n - 1); assert(upper(d, dim, n - 1) * d[n - 1] >= 1) by (nonlinear_arith) requires upper(d, dim, n - 1) >= 1, d[n - 1] >= 1; }
}
// the volume after changing one dimension
pub proof fn lemma_vol_update(d: Seq<int>, dim: int, m: int)
    requires pos8(d), 0 <= dim < 8, m >= 1,
    ensures
        lv(d, 8) % d[dim] == 0,
        lv(d.update(dim, m), 8) == (lv(d, 8) / d[dim]) * m,
        lv(d, 8) / d[dim] == lv(d, dim) * upper(d, dim, 8),
        lv(d, 8) / d[dim] >= 1,
        pos8(d.update(dim, m)),
{
    let e = d.update(dim, m);
    lemma_lv_split(d, dim, 8);
    lemma_lv_split(e, dim, 8);
    lemma_lv_ext(d, e, dim);
    lemma_upper_ext(d, e, dim, 8);
    lemma_lv_pos(d, dim);
    lemma_upper_pos(d, dim, 8);
    let q = lv(d, dim) * upper(d, dim, 8);
    assert((lv(d, dim) * d[dim]) * upper(d, dim, 8) == q * d[dim]) by (nonlinear_arith) requires q == lv(d, dim) * upper(d, dim, 8);
    assert((lv(d, dim) * m) * upper(d, dim, 8) == q * m) by (nonlinear_arith) requires q == lv(d, dim) * upper(d, dim, 8);
    assert(q >= 1) by (nonlinear_arith) requires q == lv(d, dim) * upper(d, dim, 8), lv(d, dim) >= 1, upper(d, dim, 8) >= 1;
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(q, d[dim]);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, d[dim]);
    assert(d[dim] * q == q * d[dim]) by (nonlinear_arith);
}
}
verus! {
pub proof fn lemma_dims2(a: int, b: int)
    ensures dims2(a, b).len() == 8, lv(dims2(a, b), 8) == a * b,
        dims2(a, b) =~= pad8(seq![a as u32, b as u32]) || a < 0 || b < 0 || a > U32M() || b > U32M(),
{
    let d = dims2(a, b);
    lemma_lv_ones(d, 2, 8);
    reveal_with_fuel(lv, 3);
    assert(lv(d, 2) == a * b) by { assert(d[0] == a); assert(d[1] == b); assert(lv(d, 1) == 1 * a); }
}
pub proof fn lemma_shrink(s: SV, dim: int, m: int)
    requires svwf(s), 0 <= dim < 8, 1 <= m <= s.d[dim],
    ensures valid_dim(s, dim, m), svwf(s_dim(s, dim, m)), vol(s_dim(s, dim, m)) <= vol(s),
{
    lemma_vol_update(s.d, dim, m);
    lemma_lv_pos(s.d, 8);
    let q = lv(s.d, 8) / s.d[dim];
    assert(q * s.d[dim] == lv(s.d, 8)) by (nonlinear_arith) requires q == lv(s.d, 8) / s.d[dim], lv(s.d, 8) % s.d[dim] == 0, s.d[dim] >= 1;
    assert(q * m <= q * s.d[dim]) by (nonlinear_arith) requires q >= 1, m <= s.d[dim];
    assert((q * m) * s.b <= lv(s.d, 8) * s.b) by (nonlinear_arith) requires q * m <= lv(s.d, 8), s.b >= 1;
}
pub proof fn lemma_cat_batch_le(xs: Seq<SV>, n: int, m: int)
    requires 1 <= n <= m <= xs.len(),
    ensures cat_batch(xs, n) <= cat_batch(xs, m),
    decreases m,
{ if n < m { lemma_cat_batch_le(xs, n, m - 1); } }
pub proof fn lemma_cat_sum_mono(xs: Seq<SV>, dim: int, n: int, m: int)
    requires 0 <= n <= m <= xs.len(), forall|i: int| 0 <= i < xs.len() ==> svwf(#[trigger] xs[i]),
    ensures cat_sum(xs, dim, n) <= cat_sum(xs, dim, m),
    decreases m,
{ if n < m { lemma_cat_sum_mono(xs, dim, n, m - 1); assert(svwf(xs[m - 1])); } }
pub proof fn lemma_bcat_mono(xs: Seq<SV>, n: int, m: int)
    requires 0 <= n <= m <= xs.len(), forall|i: int| 0 <= i < xs.len() ==> svwf(#[trigger] xs[i]),
    ensures bcat_sum(xs, n) <= bcat_sum(xs, m),
    decreases m,
{ if n < m { lemma_bcat_mono(xs, n, m - 1); assert(svwf(xs[m - 1])); } }
pub proof fn lemma_concat_step(xs: Seq<SV>, dim: int, n: int)
    requires valid_concat(xs, dim), 1 < n <= xs.len(), dim >= 0, forall|i: int| 0 <= i < xs.len() ==> svwf(#[trigger] xs[i]),
    ensures
        compat(s_batch(xs[0], cat_batch(xs, n - 1)), xs[n - 1]),
        valid_batch(xs[0], xs[n - 1].b),
        cat_sum(xs, dim, n) <= U32M(),
{
    let e = s_concat(xs, dim);
    let l = xs.len() as int;
    lemma_cat_sum_mono(xs, dim, n, l);
    lemma_cat_sum_mono(xs, dim, 1, l);
    reveal_with_fuel(cat_sum, 2);
    lemma_cat_batch_le(xs, n - 1, n);
    lemma_cat_batch_le(xs, n, l);
    lemma_cat_batch_all(xs, n - 1);
    assert(svwf(xs[0]));
    lemma_vol_update(xs[0].d, dim, e.d[dim]);
    lemma_lv_pos(xs[0].d, 8);
    let q = lv(xs[0].d, 8) / xs[0].d[dim];
    assert(q * xs[0].d[dim] == lv(xs[0].d, 8)) by (nonlinear_arith) requires q == lv(xs[0].d, 8) / xs[0].d[dim], lv(xs[0].d, 8) % xs[0].d[dim] == 0, xs[0].d[dim] >= 1;
    assert(q * xs[0].d[dim] <= q * e.d[dim]) by (nonlinear_arith) requires q >= 1, xs[0].d[dim] <= e.d[dim];
    assert(vol(xs[0]) * xs[n - 1].b <= vol(e) * e.b) by (nonlinear_arith)
        requires 1 <= vol(xs[0]) <= vol(e), 1 <= xs[n - 1].b <= e.b;
}
pub proof fn lemma_cat_batch_all(xs: Seq<SV>, n: int)
    requires 1 <= n <= xs.len(), forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).b >= 1,
       forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).b == 1 || xs[i].b == cat_batch(xs, xs.len() as int),
    ensures cat_batch(xs, n) == 1 || cat_batch(xs, n) == cat_batch(xs, xs.len() as int), cat_batch(xs, n) >= 1,
    decreases n,
{ if n > 1 { lemma_cat_batch_all(xs, n - 1); assert(xs[n - 1].b >= 1); } else { assert(xs[0].b >= 1); } }
}
