verus! {
// ------------------------------------------------------------- slices, picks and concatenations
pub open spec fn dv(p: int, m: int) -> int { p / m }
pub open spec fn md(p: int, m: int) -> int { p % m }
// p runs over blocks of length m; the r-th element of block a is at a*m + r
pub proof fn lemma_dm(a: int, r: int, u: int, m: int)
    requires 0 <= a < u, 0 <= r < m,
    ensures 0 <= a * m, a * m + r < u * m, a * m + m <= u * m, dv(a * m + r, m) == a, md(a * m + r, m) == r, (a + 1) * m == a * m + m,
{ lemma_bi(a, u, m, r); }
pub proof fn lemma_dmp(p: int, u: int, m: int)
    requires 0 <= p < u * m, m >= 1,
    ensures 0 <= dv(p, m) < u, 0 <= md(p, m) < m, p == dv(p, m) * m + md(p, m),
{
    let a = p / m; let r = p % m;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, m);
    assert(0 <= r < m) by (nonlinear_arith) requires r == p % m, m >= 1;
    assert(a >= 0) by (nonlinear_arith) requires a == p / m, p >= 0, m >= 1;
    assert(a < u) by (nonlinear_arith) requires m * a + r == p, p < u * m, r >= 0, m >= 1;
    assert(m * a == a * m) by (nonlinear_arith);
}

// ---- slice of a dimension: element p of the slice is element slix(p) of the whole.
// l elements below the dimension, n in the whole, m in the slice, which starts at lo
pub open spec fn slix(p: int, l: int, n: int, m: int, lo: int) -> int { dv(p, l * m) * (l * n) + l * lo + md(p, l * m) }
pub open spec fn V_slice(x: TV, dim: int, lo: int, up: int) -> TV {
    TV { s: s_dim(x.s, dim, up - lo), d: Seq::new(sz(s_dim(x.s, dim, up - lo)) as nat, |p: int| x.d[slix(p, low(x.s, dim), dm(x.s, dim), up - lo, lo)]) }
}
pub open spec fn ix_slice(s: SV, dim: int, m: int, lo: int) -> spec_fn(int) -> int { |p: int| slix(p, low(s, dim), dm(s, dim), m, lo) }
// every element of gy goes back to where the slice took it from
pub open spec fn V_slice_bw(gy: TV, gx: TV, dim: int, lo: int) -> TV { V_sc(gx, ix_slice(gx.s, dim, dm(gy.s, dim), lo), w_id(gy), sz(gy.s)) }
pub proof fn lemma_slix(a: int, r: int, u: int, l: int, n: int, m: int, lo: int)
    requires 0 <= a < u, 0 <= r < l * m, l >= 1, n >= 1, m >= 1, 0 <= lo, lo + m <= n,
    ensures
        0 <= a * (l * m), (a + 1) * (l * m) == a * (l * m) + l * m, a * (l * m) + r < u * (l * m),
        0 <= a * (l * n), 0 <= l * lo, a * (l * n) + l * lo + r < u * (l * n), 0 <= (l * n) * a == a * (l * n), l * lo + a * (l * n) < u * (l * n),
        slix(a * (l * m) + r, l, n, m, lo) == a * (l * n) + l * lo + r,
{
    assert(l * m >= 1) by (nonlinear_arith) requires l >= 1, m >= 1;
    lemma_dm(a, r, u, l * m);
    assert(l * lo + l * m <= l * n) by (nonlinear_arith) requires l >= 1, lo + m <= n;
    assert(l * lo >= 0) by (nonlinear_arith) requires l >= 1, lo >= 0;
    lemma_dm(a, l * lo + r, u, l * n);
    assert((l * n) * a == a * (l * n)) by (nonlinear_arith);
}

// ---- pick: batch b of the result is the ids[b]-th slice of batch b
pub open spec fn idx(ids: Seq<u32>, b: int) -> int { ids[if ids.len() == 1 { 0 } else { b }] as int }
pub open spec fn pkix(p: int, s: SV, ids: Seq<u32>, dim: int) -> int {
    let v = vol(s_dim(s, dim, 1));
    off(s, dv(p, v), vol(s)) + dv(md(p, v), low(s, dim)) * (low(s, dim) * dm(s, dim)) + low(s, dim) * idx(ids, dv(p, v)) + md(md(p, v), low(s, dim))
}
pub open spec fn V_pick(x: TV, ids: Seq<u32>, dim: int) -> TV {
    TV { s: s_pick(x.s, ids.len() as int, dim), d: Seq::new(sz(s_pick(x.s, ids.len() as int, dim)) as nat, |p: int| x.d[pkix(p, x.s, ids, dim)]) }
}
pub open spec fn ix_pick(s: SV, ids: Seq<u32>, dim: int) -> spec_fn(int) -> int { |p: int| pkix(p, s, ids, dim) }
pub open spec fn V_pick_bw(gy: TV, gx: TV, ids: Seq<u32>, dim: int) -> TV { V_sc(gx, ix_pick(gx.s, ids, dim), w_id(gy), sz(gy.s)) }
// u = volume above the dimension, nb = batch of the result
pub proof fn lemma_pkix(b: int, i: int, j: int, s: SV, ids: Seq<u32>, dim: int, nb: int, u: int)
    requires svwf(s), 0 <= dim < 8, 0 <= b < nb, 0 <= i < u, u == upper(s.d, dim, 8), 0 <= j < low(s, dim), ids.len() >= 1, ids.len() == 1 || ids.len() == nb,
        s.b == 1 || s.b == nb, forall|k: int| 0 <= k < ids.len() ==> #[trigger] ids[k] < dm(s, dim), svwf(s_batch(s_dim(s, dim, 1), nb)),
    ensures
        vol(s_dim(s, dim, 1)) == u * low(s, dim), vol(s) == u * (low(s, dim) * dm(s, dim)),
        0 <= b * (u * low(s, dim)), (b + 1) * (u * low(s, dim)) == b * (u * low(s, dim)) + u * low(s, dim),
        0 <= i * low(s, dim), (i + 1) * low(s, dim) == i * low(s, dim) + low(s, dim), i * low(s, dim) + j < u * low(s, dim),
        b * (u * low(s, dim)) + i * low(s, dim) + j < nb * (u * low(s, dim)),
        0 <= idx(ids, b) < dm(s, dim), 0 <= low(s, dim) * idx(ids, b) < low(s, dim) * dm(s, dim), 0 <= b * vol(s), 0 <= off(s, b, vol(s)), off(s, b, vol(s)) + vol(s) <= sz(s),
        0 <= (low(s, dim) * dm(s, dim)) * i, (low(s, dim) * dm(s, dim)) * i + low(s, dim) * idx(ids, b) + j < vol(s),
        pkix(b * (u * low(s, dim)) + i * low(s, dim) + j, s, ids, dim) == off(s, b, vol(s)) + low(s, dim) * idx(ids, b) + (low(s, dim) * dm(s, dim)) * i + j,
        0 <= pkix(b * (u * low(s, dim)) + i * low(s, dim) + j, s, ids, dim) < sz(s),
{
    lemma_geo(s, dim); lemma_geo_dim(s, dim, 1);
    let l = low(s, dim); let n = dm(s, dim); let k = idx(ids, b);
    lemma_lv_split(s_dim(s, dim, 1).d, dim, 8); lemma_lv_split(s.d, dim, 8);
    assert(l * u == u * l) by (nonlinear_arith);
    lemma_dm(i, j, u, l);
    lemma_dm(b, i * l + j, nb, u * l);
    assert(0 <= k < n);
    assert((k + 1) * l <= n * l && n * l == l * n && (k + 1) * l == k * l + l && k * l == l * k && 0 <= l * k) by (nonlinear_arith) requires l >= 1, 0 <= k, k + 1 <= n;
    lemma_dm(i, l * k + j, u, l * n);
    assert(i * (l * n) == (l * n) * i) by (nonlinear_arith);
    lemma_sz(s);
    if s.b != 1 { lemma_bi(b, nb, vol(s), 0); } else { assert(0 <= b * vol(s)) by (nonlinear_arith) requires b >= 0, vol(s) >= 0; }
}

// ---- concatenation along a dimension: position r inside a block of the result lies in the last
// operand that starts at or before it
pub open spec fn tvs(xs: Seq<&Tensor>) -> Seq<TV> { Seq::new(xs.len(), |i: int| xs[i].v()) }
pub open spec fn svs(xs: Seq<TV>) -> Seq<SV> { Seq::new(xs.len(), |i: int| xs[i].s) }
pub open spec fn cat_at(xs: Seq<TV>, dim: int, p: int, s: SV, k: int) -> real decreases k {
    if k <= 0 { 0.0real } else {
        let l = low(s, dim); let v = vol(s); let m = l * dm(s, dim); let x = xs[k - 1]; let o = l * cat_sum(svs(xs), dim, k - 1);
        if md(p, m) >= o { x.d[off(x.s, dv(p, v), vol(x.s)) + dv(md(p, v), m) * (l * dm(x.s, dim)) + (md(p, m) - o)] } else { cat_at(xs, dim, p, s, k - 1) }
    }
}
pub open spec fn V_concat(xs: Seq<TV>, dim: int) -> TV {
    let s = s_concat(svs(xs), dim);
    TV { s, d: Seq::new(sz(s) as nat, |p: int| cat_at(xs, dim, p, s, xs.len() as int)) }
}
pub open spec fn bcat_at(xs: Seq<TV>, p: int, v: int, k: int) -> real decreases k {
    if k <= 0 { 0.0real } else { let o = v * bcat_sum(svs(xs), k - 1); if p >= o { xs[k - 1].d[p - o] } else { bcat_at(xs, p, v, k - 1) } }
}
pub open spec fn V_bconcat(xs: Seq<TV>) -> TV {
    let s = s_bconcat(svs(xs));
    TV { s, d: Seq::new(sz(s) as nat, |p: int| bcat_at(xs, p, vol(s), xs.len() as int)) }
}

// ---- along the batch
pub open spec fn V_bslice(x: TV, lo: int, up: int) -> TV {
    TV { s: s_batch(x.s, up - lo), d: Seq::new(sz(s_batch(x.s, up - lo)) as nat, |p: int| x.d[p + vol(x.s) * lo]) }
}
pub open spec fn ix_bslice(v: int, lo: int) -> spec_fn(int) -> int { |p: int| p + v * lo }
pub open spec fn V_bslice_bw(gy: TV, gx: TV, lo: int) -> TV { V_sc(gx, ix_bslice(vol(gx.s), lo), w_id(gy), sz(gy.s)) }
pub open spec fn bpix(p: int, v: int, ids: Seq<u32>) -> int { v * ids[dv(p, v)] + md(p, v) }
pub open spec fn V_bpick(x: TV, ids: Seq<u32>) -> TV {
    TV { s: s_batch(x.s, ids.len() as int), d: Seq::new(sz(s_batch(x.s, ids.len() as int)) as nat, |p: int| x.d[bpix(p, vol(x.s), ids)]) }
}
pub open spec fn ix_bpick(v: int, ids: Seq<u32>) -> spec_fn(int) -> int { |p: int| bpix(p, v, ids) }
pub open spec fn V_bpick_bw(gy: TV, gx: TV, ids: Seq<u32>) -> TV { V_sc(gx, ix_bpick(vol(gx.s), ids), w_id(gy), sz(gy.s)) }

// the loops' bounds for one operand of a concatenation: x is operand k, l elements below, u blocks per batch
pub proof fn lemma_cat_geo(xs: Seq<SV>, dim: int, k: int)
    requires valid_concat(xs, dim), 0 <= k < xs.len(), dim >= 0, forall|i: int| 0 <= i < xs.len() ==> svwf(#[trigger] xs[i]), svwf(s_concat(xs, dim)),
    ensures
        ({
            let s = s_concat(xs, dim); let l = low(s, dim); let nn = dm(s, dim); let u = upper(s.d, dim, 8); let x = xs[k];
            &&& nn == cat_sum(xs, dim, xs.len() as int) && l >= 1 && u >= 1 && nn >= 1
            &&& vol(s) == u * (l * nn) && vol(x) == u * (l * dm(x, dim)) && vol(x) == (l * dm(x, dim)) * u && low(x, dim) == l
            &&& l * cat_sum(xs, dim, k + 1) == l * cat_sum(xs, dim, k) + l * dm(x, dim)
            &&& 0 <= l * cat_sum(xs, dim, k) && l * cat_sum(xs, dim, k + 1) <= l * nn
            &&& x.b == 1 || x.b == s.b
            &&& sz(s) == s.b * (u * (l * nn)) && sz(s) <= U32M() && s.b >= 1 && 1 <= l * nn <= vol(s) && 1 <= vol(s) <= sz(s)
            &&& l * dm(x, dim) >= 1
            &&& (s.b * u) * (l * nn) == sz(s)
        }),
{
    let s = s_concat(xs, dim); let x = xs[k]; let e = xs[0];
    assert(svwf(x) && svwf(e)); assert(loo_dims(e, x, dim));
    lemma_geo(s, dim); lemma_geo(x, dim);
    lemma_lv_split(s.d, dim, 8); lemma_lv_split(x.d, dim, 8);
    lemma_lv_ext(x.d, s.d, dim); lemma_upper_ext(x.d, s.d, dim, 8);
    lemma_lv_pos(s.d, dim); lemma_upper_pos(s.d, dim, 8);
    let l = low(s, dim); let u = upper(s.d, dim, 8); let nn = dm(s, dim);
    lemma_cat_sum_mono(xs, dim, 0, k); lemma_cat_sum_mono(xs, dim, k + 1, xs.len() as int);
    let c = cat_sum(xs, dim, k); let n = dm(x, dim);
    assert(l * (c + n) == l * c + l * n) by (nonlinear_arith);
    assert(l * c >= 0) by (nonlinear_arith) requires l >= 1, c >= 0;
    assert(l * (c + n) <= l * nn) by (nonlinear_arith) requires l >= 1, c + n <= nn;
    assert((l * n) * u == u * (l * n)) by (nonlinear_arith);
    assert((s.b * u) * (l * nn) == s.b * (u * (l * nn))) by (nonlinear_arith);
}
pub proof fn lemma_bcat_geo(xs: Seq<SV>, k: int)
    requires valid_bconcat(xs), 0 <= k < xs.len(), forall|i: int| 0 <= i < xs.len() ==> svwf(#[trigger] xs[i]),
    ensures
        vol(xs[k]) == vol(xs[0]), vol(xs[0]) >= 1,
        vol(xs[0]) * bcat_sum(xs, k + 1) == vol(xs[0]) * bcat_sum(xs, k) + sz(xs[k]),
        0 <= vol(xs[0]) * bcat_sum(xs, k), vol(xs[0]) * bcat_sum(xs, k + 1) <= vol(xs[0]) * bcat_sum(xs, xs.len() as int),
{
    assert(svwf(xs[0]) && svwf(xs[k]) && same_dims(xs[0], xs[k]));
    lemma_sz(xs[0]); lemma_sz(xs[k]);
    lemma_bcat_mono(xs, 0, k); lemma_bcat_mono(xs, k + 1, xs.len() as int);
    let v = vol(xs[0]); let c = bcat_sum(xs, k); let n = xs[k].b; let t = bcat_sum(xs, xs.len() as int);
    assert(v * (c + n) == v * c + n * v) by (nonlinear_arith);
    assert(v * c >= 0) by (nonlinear_arith) requires v >= 1, c >= 0;
    assert(v * (c + n) <= v * t) by (nonlinear_arith) requires v >= 1, c + n <= t;
}
}
