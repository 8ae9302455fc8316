verus! {
// ------------------------------------------------------------- one dimension of a tensor
// Positions that differ only in dimension dim are lower(dim) apart; n of them form a line.
// Line i (in the storage order of the reduced tensor) starts at rbase(i).
pub open spec fn rbase(i: int, l: int, n: int) -> int { i % l + (i / l) * (l * n) }
pub open spec fn rproj(p: int, l: int, n: int) -> int { (p / (l * n)) * l + p % l }
pub open spec fn rj(p: int, l: int, n: int) -> int { (p / l) % n }
pub open spec fn outer(s: SV, dim: int) -> int { s.b * (if dim < 8 { upper(s.d, dim, 8) } else { 1 }) }
pub open spec fn low(s: SV, dim: int) -> int { lower(s, dim) }

pub proof fn lemma_geo(s: SV, dim: int)
    requires svwf(s), 0 <= dim,
    ensures
        low(s, dim) >= 1, dm(s, dim) >= 1, outer(s, dim) >= 1,
        sz(s) == outer(s, dim) * (low(s, dim) * dm(s, dim)),
        1 <= low(s, dim) * dm(s, dim) <= sz(s), low(s, dim) * dm(s, dim) <= vol(s), sz(s) <= U32M(), 1 <= vol(s) <= sz(s), sz(s) == s.b * vol(s),
        dim < 8 ==> vol(s) == upper(s.d, dim, 8) * (low(s, dim) * dm(s, dim)),
        low(s, dim) <= sz(s), dm(s, dim) <= sz(s),
{
    lemma_sz(s);
    if dim < 8 {
        lemma_lv_split(s.d, dim, 8); lemma_lv_pos(s.d, dim); lemma_upper_pos(s.d, dim, 8);
        let l = lv(s.d, dim); let n = s.d[dim]; let u = upper(s.d, dim, 8);
        assert(l * n >= 1) by (nonlinear_arith) requires l >= 1, n >= 1;
        assert(s.b * ((l * n) * u) == (s.b * u) * (l * n)) by (nonlinear_arith);
        assert((l * n) * u == u * (l * n)) by (nonlinear_arith);
        assert(s.b * u >= 1) by (nonlinear_arith) requires s.b >= 1, u >= 1;
        assert((s.b * u) * (l * n) >= l * n) by (nonlinear_arith) requires s.b * u >= 1, l * n >= 1;
        assert(u * (l * n) >= l * n) by (nonlinear_arith) requires u >= 1, l * n >= 1;
        assert(l * n >= l && l * n >= n) by (nonlinear_arith) requires l >= 1, n >= 1;
    } else {
        assert(vol(s) * 1 == vol(s));
    }
}
// the shape with the dimension resized
pub proof fn lemma_geo_dim(s: SV, dim: int, m: int)
    requires svwf(s), 0 <= dim < 8, m >= 1,
    ensures
        low(s_dim(s, dim, m), dim) == low(s, dim),
        dm(s_dim(s, dim, m), dim) == m,
        outer(s_dim(s, dim, m), dim) == outer(s, dim),
        upper(s_dim(s, dim, m).d, dim, 8) == upper(s.d, dim, 8),
        sz(s_dim(s, dim, m)) == outer(s, dim) * (low(s, dim) * m),
        low(s, dim) * 1 == low(s, dim),
{
    lemma_geo(s, dim);
    let e = s_dim(s, dim, m);
    lemma_lv_ext(s.d, e.d, dim);
    lemma_upper_ext(s.d, e.d, dim, 8);
    lemma_lv_split(e.d, dim, 8);
    let l = lv(s.d, dim); let u = upper(s.d, dim, 8);
    assert(s.b * ((l * m) * u) == (s.b * u) * (l * m)) by (nonlinear_arith);
}
pub proof fn lemma_rix(i: int, j: int, l: int, n: int, u: int)
    requires 0 <= i < u * l, 0 <= j < n, l >= 1, n >= 1, u >= 1,
    ensures
        0 <= rbase(i, l, n), 0 <= j * l, rbase(i, l, n) + j * l < u * (l * n),
        (j + 1) * l == j * l + l, 0 <= (i / l) * (l * n) <= u * (l * n), 0 <= i % l < l, 0 <= i / l < u,
        rproj(rbase(i, l, n) + j * l, l, n) == i,
        rj(rbase(i, l, n) + j * l, l, n) == j,
{
    let a = i / l; let c = i % l;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, l);
    assert(0 <= c < l) by (nonlinear_arith) requires c == i % l, l >= 1;
    assert(a >= 0) by (nonlinear_arith) requires a == i / l, i >= 0, l >= 1;
    assert(a < u) by (nonlinear_arith) requires l * a + c == i, i < u * l, c >= 0, l >= 1;
    let b = l * n;
    assert(b >= 1) by (nonlinear_arith) requires b == l * n, l >= 1, n >= 1;
    assert((a + 1) * b <= u * b) by (nonlinear_arith) requires a + 1 <= u, b >= 1;
    assert((a + 1) * b == a * b + b) by (nonlinear_arith);
    assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 1;
    assert((j + 1) * l == j * l + l) by (nonlinear_arith);
    assert((j + 1) * l <= b) by (nonlinear_arith) requires b == l * n, j + 1 <= n, l >= 1;
    assert(j * l >= 0) by (nonlinear_arith) requires j >= 0, l >= 1;
    let p = c + a * b + j * l;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p, b, a, c + j * l);
    assert(p == (a * n + j) * l + c) by (nonlinear_arith) requires p == c + a * b + j * l, b == l * n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p, l, a * n + j, c);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a * n + j, n, a, j);
    assert(l * a == a * l) by (nonlinear_arith);
}
pub proof fn lemma_rproj(p: int, l: int, n: int, u: int)
    requires 0 <= p < u * (l * n), l >= 1, n >= 1, u >= 1,
    ensures
        0 <= rproj(p, l, n) < u * l,
        0 <= rj(p, l, n) < n,
        p == rbase(rproj(p, l, n), l, n) + rj(p, l, n) * l,
{
    let b = l * n;
    assert(b >= 1) by (nonlinear_arith) requires b == l * n, l >= 1, n >= 1;
    let a = p / b; let r = p % b;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, b);
    assert(0 <= r < b) by (nonlinear_arith) requires r == p % b, b >= 1;
    assert(a >= 0) by (nonlinear_arith) requires a == p / b, p >= 0, b >= 1;
    assert(a < u) by (nonlinear_arith) requires b * a + r == p, p < u * b, r >= 0, b >= 1;
    let j = r / l; let c = r % l;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(r, l);
    assert(0 <= c < l) by (nonlinear_arith) requires c == r % l, l >= 1;
    assert(j >= 0) by (nonlinear_arith) requires j == r / l, r >= 0, l >= 1;
    assert(j < n) by (nonlinear_arith) requires l * j + c == r, r < l * n, c >= 0, l >= 1;
    assert(p == (a * n + j) * l + c) by (nonlinear_arith) requires p == b * a + r, r == l * j + c, b == l * n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p, l, a * n + j, c);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a * n + j, n, a, j);
    let i = a * l + c;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, l, a, c);
    assert((a + 1) * l <= u * l) by (nonlinear_arith) requires a + 1 <= u, l >= 1;
    assert((a + 1) * l == a * l + l) by (nonlinear_arith);
    assert(a * l >= 0) by (nonlinear_arith) requires a >= 0, l >= 1;
    assert(b * a == a * b) by (nonlinear_arith);
    assert(l * j == j * l) by (nonlinear_arith);
}

pub open spec fn rsum(x: Seq<real>, base: int, st: int, n: int) -> real decreases n {
    if n <= 0 { 0.0real } else { rsum(x, base, st, n - 1) + x[base + (n - 1) * st] }
}
pub open spec fn rsumexp(x: Seq<real>, base: int, st: int, n: int) -> real decreases n {
    if n <= 0 { 0.0real } else { rsumexp(x, base, st, n - 1) + e_exp(x[base + (n - 1) * st]) }
}
pub open spec fn rmax(x: Seq<real>, base: int, st: int, n: int) -> real decreases n {
    if n <= 1 { x[base] } else { e_max(rmax(x, base, st, n - 1), x[base + (n - 1) * st]) }
}
pub open spec fn rmin(x: Seq<real>, base: int, st: int, n: int) -> real decreases n {
    if n <= 1 { x[base] } else { e_min(rmin(x, base, st, n - 1), x[base + (n - 1) * st]) }
}
pub enum Red { Sum, Max, Min, Lse }
pub open spec fn redv(r: Red, x: Seq<real>, base: int, st: int, n: int) -> real {
    match r {
        Red::Sum => rsum(x, base, st, n),
        Red::Max => rmax(x, base, st, n),
        Red::Min => rmin(x, base, st, n),
        Red::Lse => e_ln(rsumexp(x, base, st, n)),
    }
}
pub open spec fn V_red(r: Red, x: TV, dim: int) -> TV {
    TV { s: s_dim(x.s, dim, 1), d: Seq::new(sz(s_dim(x.s, dim, 1)) as nat, |i: int| redv(r, x.d, rbase(i, low(x.s, dim), dm(x.s, dim)), low(x.s, dim), dm(x.s, dim))) }
}
pub open spec fn V_broadcast(x: TV, dim: int, n: int) -> TV {
    TV { s: s_dim(x.s, dim, n), d: Seq::new(sz(s_dim(x.s, dim, n)) as nat, |p: int| x.d[rproj(p, low(x.s, dim), n)]) }
}
pub open spec fn V_batch_sum(x: TV) -> TV {
    TV { s: s_batch(x.s, 1), d: Seq::new(vol(x.s) as nat, |i: int| rsum(x.d, i, vol(x.s), x.s.b)) }
}
// position (inside line i) of the first element equal to v, or -1
pub open spec fn first_eq(x: Seq<real>, base: int, st: int, n: int, v: real, from: int) -> int decreases n - from {
    if from >= n { -1 } else if x[base + from * st] == v { base + from * st } else { first_eq(x, base, st, n, v, from + 1) }
}
pub open spec fn ix_ext(x: TV, y: TV, dim: int) -> spec_fn(int) -> int {
    |i: int| first_eq(x.d, rbase(i, low(x.s, dim), dm(x.s, dim)), low(x.s, dim), dm(x.s, dim), y.d[i], 0)
}
pub open spec fn w_id(gy: TV) -> spec_fn(int) -> real { |i: int| gy.d[i] }
pub open spec fn V_ext_bw(x: TV, y: TV, gy: TV, gx: TV, dim: int) -> TV { V_sc(gx, ix_ext(x, y, dim), w_id(gy), sz(y.s)) }
pub open spec fn is_argmax(x: Seq<real>, base: int, st: int, n: int, r: int) -> bool {
    0 <= r < n && forall|j: int| 0 <= j < n ==> #[trigger] x[base + j * st] <= x[base + r * st]
}
pub open spec fn is_argmin(x: Seq<real>, base: int, st: int, n: int, r: int) -> bool {
    0 <= r < n && forall|j: int| 0 <= j < n ==> #[trigger] x[base + j * st] >= x[base + r * st]
}
pub open spec fn w_b(s: SV, x: TV, neg: bool) -> spec_fn(int) -> real { |t: int| if neg { -x.d[bix(x.s, t)] } else { x.d[bix(x.s, t)] } }
pub open spec fn V_add_assign(y: TV, x: TV, neg: bool) -> TV { V_sc(y, ixb(y.s), w_b(y.s, x, neg), mx(x.s.b, y.s.b) * vol(y.s)) }

// ------------------------------------------------------------- exp and ln (trusted)
#[verifier::external_body]
pub proof fn axiom_exp_pos(x: real) ensures e_exp(x) > 0.0real {}
#[verifier::external_body]
pub proof fn axiom_exp_add(x: real, y: real) ensures e_exp(x + y) == e_exp(x) * e_exp(y) {}
#[verifier::external_body]
pub proof fn axiom_exp_0() ensures e_exp(0.0real) == 1.0real {}
#[verifier::external_body]
pub proof fn axiom_ln_exp(x: real) ensures e_ln(e_exp(x)) == x {}
#[verifier::external_body]
pub proof fn axiom_exp_ln(y: real) requires y > 0.0real ensures e_exp(e_ln(y)) == y {}

// ln(s) + ln(1 + e^(a - ln s)) == ln(s + e^a), either way round
pub proof fn lemma_lse(s: real, a: real)
    requires s > 0.0real,
    ensures
        e_ln(s) + e_ln(1.0real + e_exp(a - e_ln(s))) == e_ln(s + e_exp(a)),
        a + e_ln(1.0real + e_exp(e_ln(s) - a)) == e_ln(s + e_exp(a)),
        s + e_exp(a) > 0.0real,
{
    let t = e_ln(s);
    axiom_exp_ln(s); axiom_exp_pos(a); axiom_exp_pos(a - t); axiom_exp_pos(t - a);
    axiom_exp_add(a - t, t); axiom_exp_add(t - a, a);
    assert((a - t) + t == a); assert((t - a) + a == t);
    let e = e_exp(a - t); let f = e_exp(t - a);
    axiom_exp_add(t, e_ln(1.0real + e)); axiom_exp_ln(1.0real + e);
    axiom_exp_add(a, e_ln(1.0real + f)); axiom_exp_ln(1.0real + f);
    assert(s * (1.0real + e) == s + e * s) by (nonlinear_arith);
    assert(e_exp(a) * (1.0real + f) == e_exp(a) + f * e_exp(a)) by (nonlinear_arith);
    axiom_ln_exp(t + e_ln(1.0real + e));
    axiom_ln_exp(a + e_ln(1.0real + f));
}
pub proof fn lemma_sumexp_pos(x: Seq<real>, base: int, st: int, n: int)
    requires n >= 1,
    ensures rsumexp(x, base, st, n) > 0.0real,
    decreases n,
{
    reveal_with_fuel(rsumexp, 2);
    axiom_exp_pos(x[base + (n - 1) * st]);
    if n > 1 { lemma_sumexp_pos(x, base, st, n - 1); }
}
}
