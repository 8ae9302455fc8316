// permute_dims: dimension k of y is dimension perm[k] of x
verus! {
pub open spec fn pinv(perm: Seq<u32>, e: int) -> int { choose|k: int| 0 <= k < perm.len() && #[trigger] perm[k] == e }
pub open spec fn phas(perm: Seq<u32>, e: int) -> bool { exists|k: int| 0 <= k < perm.len() && #[trigger] perm[k] == e }
pub open spec fn perm_ok(perm: Seq<u32>) -> bool {
    &&& perm.len() <= 8
    &&& forall|k: int| 0 <= k < perm.len() ==> #[trigger] perm[k] < perm.len()
    &&& forall|k: int, l: int| 0 <= k < l < perm.len() ==> #[trigger] perm[k] != #[trigger] perm[l]
    &&& forall|e: int| 0 <= e < perm.len() ==> #[trigger] phas(perm, e)
}
pub open spec fn perm_shapes(x: SV, y: SV, perm: Seq<u32>) -> bool {
    &&& svwf(x) && svwf(y) && x.b == y.b
    &&& forall|k: int| 0 <= k < perm.len() ==> #[trigger] y.d[k] == x.d[perm[k] as int]
    &&& forall|k: int| perm.len() <= k < 8 ==> #[trigger] x.d[k] == 1
    &&& forall|k: int| perm.len() <= k < 8 ==> #[trigger] y.d[k] == 1
}
// coordinate e of position i
pub open spec fn pdig(d: Seq<int>, i: int, e: int) -> int { (i / lv(d, e)) % d[e] }
// what coordinate e contributes to the position in y
pub open spec fn pcon(x: SV, y: SV, perm: Seq<u32>, i: int, e: int) -> int { pdig(x.d, i, e) * lv(y.d, pinv(perm, e)) }
pub open spec fn pup(x: SV, y: SV, perm: Seq<u32>, i: int, n: int) -> int decreases n {
    if n <= 0 { 0 } else { pup(x, y, perm, i, n - 1) + pcon(x, y, perm, i, n - 1) }
}
// where element i of a sample of x is in the sample of y
pub open spec fn ptgt(x: SV, y: SV, perm: Seq<u32>, i: int) -> int { pup(x, y, perm, i, perm.len() as int) }
pub open spec fn pix(x: SV, y: SV, perm: Seq<u32>, p: int) -> int { (p / vol(x)) * vol(x) + ptgt(x, y, perm, p % vol(x)) }

pub proof fn lemma_pinv(perm: Seq<u32>)
    requires perm_ok(perm),
    ensures
        forall|e: int| 0 <= e < perm.len() ==> 0 <= #[trigger] pinv(perm, e) < perm.len() && perm[pinv(perm, e)] == e,
        forall|k: int| 0 <= k < perm.len() ==> pinv(perm, #[trigger] perm[k] as int) == k,
{
    assert forall|e: int| 0 <= e < perm.len() implies 0 <= #[trigger] pinv(perm, e) < perm.len() && perm[pinv(perm, e)] == e by {
        assert(phas(perm, e));
        let w = choose|k: int| 0 <= k < perm.len() && #[trigger] perm[k] == e;
        assert(0 <= w < perm.len() && perm[w] == e);
    }
    assert forall|k: int| 0 <= k < perm.len() implies pinv(perm, #[trigger] perm[k] as int) == k by {
        let l = pinv(perm, perm[k] as int);
        assert(0 <= l < perm.len() && perm[l] == perm[k]);
        if l < k { assert(perm[l] != perm[k]); }
        if k < l { assert(perm[k] != perm[l]); }
    }
}
// one step of taking a position apart
pub proof fn lemma_pstep(i: int, l: int, n: int)
    requires i >= 0, l >= 1, n >= 1,
    ensures (i % (l * n)) / l == (i / l) % n, i % (l * n) - ((i / l) % n) * l == i % l, 0 <= (i / l) % n < n, 0 <= i % (l * n) < l * n, 0 <= i % l < l,
{
    vstd::arithmetic::div_mod::lemma_mod_breakdown(i, l, n);
    let q = (i / l) % n; let r = i % l;
    assert(0 <= q < n) by (nonlinear_arith) requires q == (i / l) % n, n >= 1;
    assert(0 <= r < l) by (nonlinear_arith) requires r == i % l, l >= 1;
    assert(i % (l * n) == l * q + r);
    assert(l * q == q * l) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(l * q + r, l, q, r);
    assert(0 <= l * q + r < l * n) by (nonlinear_arith) requires 0 <= q < n, 0 <= r < l;
}
// numbers by their digits, digit k in base b[k]
pub open spec fn rad(c: Seq<int>, b: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { rad(c, b, n - 1) + c[n - 1] * lv(b, n - 1) } }
pub open spec fn digs(c: Seq<int>, b: Seq<int>, n: int) -> bool { forall|k: int| 0 <= k < n ==> 0 <= #[trigger] c[k] < b[k] }
pub proof fn lemma_rad(c: Seq<int>, b: Seq<int>, n: int)
    requires 0 <= n <= b.len(), digs(c, b, n), forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] >= 1,
    ensures 0 <= rad(c, b, n) < lv(b, n),
    decreases n,
{
    if n > 0 {
        lemma_rad(c, b, n - 1);
        lemma_lv_pos(b, n - 1);
        let l = lv(b, n - 1); let x = c[n - 1]; let m = b[n - 1];
        assert(0 <= x * l && x * l + l <= l * m) by (nonlinear_arith) requires 0 <= x < m, l >= 1;
    }
}
pub proof fn lemma_rad_inj(c: Seq<int>, d: Seq<int>, b: Seq<int>, n: int)
    requires 0 <= n <= b.len(), digs(c, b, n), digs(d, b, n), forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] >= 1, rad(c, b, n) == rad(d, b, n),
    ensures forall|k: int| 0 <= k < n ==> #[trigger] c[k] == d[k],
    decreases n,
{
    if n > 0 {
        lemma_rad(c, b, n - 1); lemma_rad(d, b, n - 1); lemma_lv_pos(b, n - 1);
        let l = lv(b, n - 1);
        let r = rad(c, b, n - 1); let s = rad(d, b, n - 1);
        assert(l * c[n - 1] == c[n - 1] * l && l * d[n - 1] == d[n - 1] * l) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(rad(c, b, n), l, c[n - 1], r);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(rad(d, b, n), l, d[n - 1], s);
        lemma_rad_inj(c, d, b, n - 1);
    }
}
pub open spec fn digits(d: Seq<int>, i: int) -> Seq<int> { Seq::new(d.len(), |e: int| pdig(d, i, e)) }
pub proof fn lemma_digits(d: Seq<int>, i: int, n: int)
    requires 0 <= n <= d.len(), i >= 0, forall|k: int| 0 <= k < d.len() ==> #[trigger] d[k] >= 1,
    ensures digs(digits(d, i), d, n), rad(digits(d, i), d, n) == i % lv(d, n),
    decreases n,
{
    if n > 0 {
        lemma_digits(d, i, n - 1);
        lemma_lv_pos(d, n - 1);
        lemma_pstep(i, lv(d, n - 1), d[n - 1]);
    } else {
        assert(i % 1 == 0) by (nonlinear_arith);
    }
}
// the sum over the coordinates of x in the order of the coordinates of y
pub open spec fn pts(x: SV, y: SV, perm: Seq<u32>, i: int, n: int, m: int) -> int decreases n {
    if n <= 0 { 0 } else { pts(x, y, perm, i, n - 1, m) + if pinv(perm, n - 1) < m { pcon(x, y, perm, i, n - 1) } else { 0 } }
}
pub proof fn lemma_pts(x: SV, y: SV, perm: Seq<u32>, i: int, n: int, m: int)
    requires perm_ok(perm), 0 <= n <= perm.len(), 0 <= m < perm.len(),
    ensures pts(x, y, perm, i, n, m + 1) == pts(x, y, perm, i, n, m) + if perm[m] < n { pcon(x, y, perm, i, perm[m] as int) } else { 0 },
    decreases n,
{
    if n > 0 {
        lemma_pts(x, y, perm, i, n - 1, m);
        lemma_pinv(perm);
        assert(pinv(perm, perm[m] as int) == m);
        let e = n - 1;
        assert(perm[pinv(perm, e)] == e);
        if pinv(perm, e) == m { assert(perm[m] == e); } else { assert(perm[m] != e); }
    }
}
pub proof fn lemma_pts_ends(x: SV, y: SV, perm: Seq<u32>, i: int, n: int)
    requires perm_ok(perm), 0 <= n <= perm.len(),
    ensures pts(x, y, perm, i, n, 0) == 0, pts(x, y, perm, i, n, perm.len() as int) == pup(x, y, perm, i, n),
    decreases n,
{
    if n > 0 { lemma_pts_ends(x, y, perm, i, n - 1); lemma_pinv(perm); assert(0 <= pinv(perm, n - 1) < perm.len()); }
}
pub open spec fn pys(x: SV, perm: Seq<u32>, i: int) -> Seq<int> { Seq::new(8, |k: int| if k < perm.len() { pdig(x.d, i, perm[k] as int) } else { 0 }) }
pub proof fn lemma_pts_rad(x: SV, y: SV, perm: Seq<u32>, i: int, m: int)
    requires perm_ok(perm), 0 <= m <= perm.len(),
    ensures pts(x, y, perm, i, perm.len() as int, m) == rad(pys(x, perm, i), y.d, m),
    decreases m,
{
    lemma_pts_ends(x, y, perm, i, perm.len() as int);
    if m > 0 {
        lemma_pts_rad(x, y, perm, i, m - 1);
        lemma_pts(x, y, perm, i, perm.len() as int, m - 1);
        lemma_pinv(perm);
        assert(pinv(perm, perm[m - 1] as int) == m - 1);
    }
}
pub proof fn lemma_pup_mono(x: SV, y: SV, perm: Seq<u32>, i: int, n: int, m: int)
    requires perm_ok(perm), perm_shapes(x, y, perm), i >= 0, 0 <= n <= m <= perm.len(),
    ensures 0 <= pup(x, y, perm, i, n) <= pup(x, y, perm, i, m),
    decreases m,
{
    if m > 0 {
        lemma_pup_mono(x, y, perm, i, if n < m { n } else { m - 1 }, m - 1);
        lemma_pinv(perm);
        assert(0 <= pinv(perm, m - 1) < perm.len());
        lemma_lv_pos(x.d, m - 1); lemma_lv_pos(y.d, pinv(perm, m - 1));
        lemma_pstep(i, lv(x.d, m - 1), x.d[m - 1]);
        let a = pdig(x.d, i, m - 1); let b = lv(y.d, pinv(perm, m - 1));
        assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 1;
    }
}
pub proof fn lemma_pvol(x: SV, y: SV, perm: Seq<u32>)
    requires perm_ok(perm), perm_shapes(x, y, perm),
    ensures vol(x) == lv(x.d, perm.len() as int), vol(y) == lv(y.d, perm.len() as int), 1 <= vol(x) <= U32M(), 1 <= vol(y) <= U32M(),
{
    lemma_lv_ones(x.d, perm.len() as int, 8); lemma_lv_ones(y.d, perm.len() as int, 8); lemma_lv_pos(x.d, 8); lemma_lv_pos(y.d, 8);
}
pub proof fn lemma_ptgt(x: SV, y: SV, perm: Seq<u32>, i: int)
    requires perm_ok(perm), perm_shapes(x, y, perm), 0 <= i,
    ensures ptgt(x, y, perm, i) == rad(pys(x, perm, i), y.d, perm.len() as int), digs(pys(x, perm, i), y.d, perm.len() as int), 0 <= ptgt(x, y, perm, i) < vol(y),
{
    let n = perm.len() as int;
    lemma_pts_ends(x, y, perm, i, n); lemma_pts_rad(x, y, perm, i, n); lemma_pvol(x, y, perm);
    lemma_digits(x.d, i, 8);
    assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] pys(x, perm, i)[k] < y.d[k] by {
        assert(digits(x.d, i)[perm[k] as int] == pdig(x.d, i, perm[k] as int));
        assert(y.d[k] == x.d[perm[k] as int]);
    }
    lemma_rad(pys(x, perm, i), y.d, n);
}
pub proof fn lemma_ptgt_inj(x: SV, y: SV, perm: Seq<u32>, i: int, j: int)
    requires perm_ok(perm), perm_shapes(x, y, perm), 0 <= i < vol(x), 0 <= j < vol(x), ptgt(x, y, perm, i) == ptgt(x, y, perm, j),
    ensures i == j,
{
    let n = perm.len() as int;
    lemma_ptgt(x, y, perm, i); lemma_ptgt(x, y, perm, j); lemma_pvol(x, y, perm);
    lemma_rad_inj(pys(x, perm, i), pys(x, perm, j), y.d, n);
    let a = digits(x.d, i); let b = digits(x.d, j);
    assert forall|e: int| 0 <= e < n implies #[trigger] a[e] == b[e] by {
        lemma_pinv(perm);
        let k = pinv(perm, e);
        assert(perm[k] == e);
        assert(pys(x, perm, i)[k] == pys(x, perm, j)[k]);
    }
    lemma_rad_ext(a, b, x.d, n);
    lemma_digits(x.d, i, n); lemma_digits(x.d, j, n);
    vstd::arithmetic::div_mod::lemma_small_mod(i as nat, vol(x) as nat);
    vstd::arithmetic::div_mod::lemma_small_mod(j as nat, vol(x) as nat);
}
pub proof fn lemma_rad_ext(c: Seq<int>, d: Seq<int>, b: Seq<int>, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] c[k] == d[k],
    ensures rad(c, b, n) == rad(d, b, n),
    decreases n,
{ if n > 0 { lemma_rad_ext(c, d, b, n - 1); assert(c[n - 1] == d[n - 1]); } }
// the samples have the same volume: the product of the same dimensions in another order
pub open spec fn ppr(d: Seq<int>, perm: Seq<u32>, n: int, m: int) -> int decreases n {
    if n <= 0 { 1 } else { ppr(d, perm, n - 1, m) * (if pinv(perm, n - 1) < m { d[n - 1] } else { 1 }) }
}
pub proof fn lemma_ppr(d: Seq<int>, perm: Seq<u32>, n: int, m: int)
    requires perm_ok(perm), 0 <= n <= perm.len(), 0 <= m < perm.len(),
    ensures ppr(d, perm, n, m + 1) == ppr(d, perm, n, m) * (if perm[m] < n { d[perm[m] as int] } else { 1 }),
    decreases n,
{
    if n > 0 {
        lemma_ppr(d, perm, n - 1, m);
        lemma_pinv(perm);
        assert(pinv(perm, perm[m] as int) == m);
        let e = n - 1;
        assert(perm[pinv(perm, e)] == e);
        let a = ppr(d, perm, n - 1, m); let b = d[e]; let c = d[perm[m] as int];
        assert((a * c) * b == (a * b) * c && a * 1 == a && (a * 1) * b == a * b && (a * c) * 1 == (a * 1) * c) by (nonlinear_arith);
        if pinv(perm, e) == m { assert(perm[m] == e); } else { assert(perm[m] != e); }
    }
}
pub proof fn lemma_ppr_ends(d: Seq<int>, perm: Seq<u32>, n: int)
    requires perm_ok(perm), 0 <= n <= perm.len(),
    ensures ppr(d, perm, n, 0) == 1, ppr(d, perm, n, perm.len() as int) == lv(d, n),
    decreases n,
{
    if n > 0 { lemma_ppr_ends(d, perm, n - 1); lemma_pinv(perm); assert(0 <= pinv(perm, n - 1) < perm.len()); }
}
pub proof fn lemma_ppr_y(x: SV, y: SV, perm: Seq<u32>, m: int)
    requires perm_ok(perm), perm_shapes(x, y, perm), 0 <= m <= perm.len(),
    ensures ppr(x.d, perm, perm.len() as int, m) == lv(y.d, m),
    decreases m,
{
    lemma_ppr_ends(x.d, perm, perm.len() as int);
    if m > 0 { lemma_ppr_y(x, y, perm, m - 1); lemma_ppr(x.d, perm, perm.len() as int, m - 1); assert(y.d[m - 1] == x.d[perm[m - 1] as int]); }
}
pub proof fn lemma_pvol_eq(x: SV, y: SV, perm: Seq<u32>)
    requires perm_ok(perm), perm_shapes(x, y, perm),
    ensures vol(x) == vol(y), sz(x) == sz(y),
{
    lemma_pvol(x, y, perm); lemma_ppr_y(x, y, perm, perm.len() as int); lemma_ppr_ends(x.d, perm, perm.len() as int);
}
// pix is a permutation of the positions
pub proof fn lemma_pix(x: SV, y: SV, perm: Seq<u32>, p: int)
    requires perm_ok(perm), perm_shapes(x, y, perm), 0 <= p < sz(x),
    ensures 0 <= pix(x, y, perm, p) < sz(y),
{
    lemma_pvol_eq(x, y, perm); lemma_pvol(x, y, perm);
    lemma_dmp(p, x.b, vol(x));
    lemma_ptgt(x, y, perm, p % vol(x));
    lemma_bi(p / vol(x), x.b, vol(x), ptgt(x, y, perm, p % vol(x)));
}
pub proof fn lemma_pix_inj(x: SV, y: SV, perm: Seq<u32>, p: int, q: int)
    requires perm_ok(perm), perm_shapes(x, y, perm), 0 <= p < sz(x), 0 <= q < sz(x), pix(x, y, perm, p) == pix(x, y, perm, q),
    ensures p == q,
{
    lemma_pvol_eq(x, y, perm); lemma_pvol(x, y, perm);
    lemma_dmp(p, x.b, vol(x)); lemma_dmp(q, x.b, vol(x));
    lemma_ptgt(x, y, perm, p % vol(x)); lemma_ptgt(x, y, perm, q % vol(x));
    lemma_bi(p / vol(x), x.b, vol(x), ptgt(x, y, perm, p % vol(x)));
    lemma_bi(q / vol(x), x.b, vol(x), ptgt(x, y, perm, q % vol(x)));
    lemma_ptgt_inj(x, y, perm, p % vol(x), q % vol(x));
}
// element i of sample t
pub proof fn lemma_pix_at(x: SV, y: SV, perm: Seq<u32>, t: int, i: int)
    requires perm_ok(perm), perm_shapes(x, y, perm), 0 <= t < x.b, 0 <= i < vol(x),
    ensures pix(x, y, perm, t * vol(x) + i) == t * vol(x) + ptgt(x, y, perm, i), 0 <= t * vol(x), t * vol(x) + i < sz(x), (t + 1) * vol(x) == t * vol(x) + vol(x), (t + 1) * vol(x) <= sz(x),
      t * vol(x) + ptgt(x, y, perm, i) < sz(y), ptgt(x, y, perm, i) == pup(x, y, perm, i, perm.len() as int), pup(x, y, perm, i, 0) == 0,
{
    lemma_pvol_eq(x, y, perm);
    lemma_bi(t, x.b, vol(x), i);
    lemma_ptgt(x, y, perm, i);
    lemma_bi(t, x.b, vol(x), ptgt(x, y, perm, i));
    assert((t + 1) * vol(x) == t * vol(x) + vol(x)) by (nonlinear_arith);
    assert((t + 1) * vol(x) <= x.b * vol(x)) by (nonlinear_arith) requires t + 1 <= x.b, vol(x) >= 1;
    assert(0 <= t * vol(x)) by (nonlinear_arith) requires t >= 0, vol(x) >= 1;
}
}
verus! {
pub open spec fn pxs(v: Seq<usize>, d: Seq<int>, n: int, m: int) -> bool { v.len() == n && forall|k: int| 0 <= k < m ==> v[n - 1 - k] == #[trigger] lv(d, k) }
pub open spec fn pyst(v: Seq<usize>, d: Seq<int>, perm: Seq<u32>, m: int) -> bool { v.len() == perm.len() && forall|k: int| 0 <= k < m ==> v[perm.len() - 1 - #[trigger] perm[k]] == lv(d, k) }
// what one step of the loop over the coordinates needs
pub proof fn lemma_pcoord(x: SV, y: SV, perm: Seq<u32>, i: int, e: int)
    requires perm_ok(perm), perm_shapes(x, y, perm), 0 <= i < vol(x), 0 <= e < perm.len(),
    ensures ({
        let n = perm.len() as int; let k = pinv(perm, e); let l = lv(x.d, e); let t = i % lv(x.d, e + 1); let p = t / l;
        &&& 0 <= k < n && perm[k] == e && l >= 1 && 0 <= p && 0 <= p * l <= t && t - p * l == i % l && 0 <= t < lv(x.d, e + 1) && lv(x.d, e + 1) <= vol(x)
        &&& p * lv(y.d, k) == pcon(x, y, perm, i, e) && 0 <= pcon(x, y, perm, i, e)
        &&& pup(x, y, perm, i, e + 1) == pup(x, y, perm, i, e) + pcon(x, y, perm, i, e)
        &&& 0 <= pup(x, y, perm, i, e) && pup(x, y, perm, i, e + 1) <= pup(x, y, perm, i, n) && pup(x, y, perm, i, n) < vol(y) && vol(y) <= U32M() && vol(x) <= U32M()
    }),
{
    let n = perm.len() as int;
    lemma_pinv(perm); lemma_pvol(x, y, perm);
    let k = pinv(perm, e); let l = lv(x.d, e);
    assert(0 <= k < n);
    lemma_lv_pos(x.d, e); lemma_lv_mono(x.d, e + 1, 8); lemma_pstep(i, l, x.d[e]);
    lemma_pup_mono(x, y, perm, i, 0, e); lemma_pup_mono(x, y, perm, i, e, e + 1); lemma_pup_mono(x, y, perm, i, e + 1, n); lemma_ptgt(x, y, perm, i);
    assert(lv(x.d, e + 1) == l * x.d[e]);
    let p = (i % (l * x.d[e])) / l;
    assert(0 <= p * l) by (nonlinear_arith) requires p >= 0, l >= 1;
}
pub proof fn lemma_pstrides(x: SV, y: SV, perm: Seq<u32>, i: int)
    requires perm_ok(perm), perm_shapes(x, y, perm), 0 <= i < perm.len(),
    ensures perm.len() <= 8, perm[i] < perm.len(), forall|k: int| 0 <= k < i ==> #[trigger] perm[k] != perm[i],
      lv(x.d, i + 1) == lv(x.d, i) * dm(x, i), lv(y.d, i + 1) == lv(y.d, i) * dm(y, i),
      1 <= lv(x.d, i) <= U32M(), 1 <= lv(y.d, i) <= U32M(), 1 <= lv(x.d, i + 1) <= U32M(), 1 <= lv(y.d, i + 1) <= U32M(),
{
    lemma_lv_mono(x.d, i + 1, 8); lemma_lv_mono(y.d, i + 1, 8); lemma_lv_mono(x.d, i, 8); lemma_lv_mono(y.d, i, 8); lemma_lv_pos(x.d, i); lemma_lv_pos(y.d, i);
    lemma_lv_pos(x.d, i + 1); lemma_lv_pos(y.d, i + 1);
    assert forall|k: int| 0 <= k < i implies #[trigger] perm[k] != perm[i] by {}
}
}
