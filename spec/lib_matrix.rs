verus! {
// ------------------------------------------------------------- matrix functions
// sum over j < n of a[pa + i + j*m] * b[pb + j + k*q]
pub open spec fn dot(a: Seq<real>, pa: int, m: int, i: int, b: Seq<real>, pb: int, q: int, k: int, n: int) -> real decreases n {
    if n <= 0 { 0.0real } else { dot(a, pa, m, i, b, pb, q, k, n - 1) + a[pa + i + (n - 1) * m] * b[pb + (n - 1) + k * q] }
}
// y[i, k] of batch t is the sum over j of a[i, j] * b[j, k]
pub open spec fn mm_at(a: TV, b: TV, p: int, n: int) -> real {
    let d1 = dm(a.s, 0); let d2 = dm(a.s, 1); let d3 = dm(b.s, 1);
    let t = p / (d1 * d3); let i = (p % (d1 * d3)) % d1; let k = (p % (d1 * d3)) / d1;
    dot(a.d, off(a.s, t, d1 * d2), d1, i, b.d, off(b.s, t, d2 * d3), d2, k, n)
}
pub open spec fn V_matmul(a: TV, b: TV) -> TV {
    TV { s: s_matmul(a.s, b.s), d: Seq::new(sz(s_matmul(a.s, b.s)) as nat, |p: int| mm_at(a, b, p, dm(a.s, 1))) }
}
pub open spec fn mrow(p: int, d1: int, d3: int) -> int { (p % (d1 * d3)) % d1 }
pub open spec fn mcol(p: int, d1: int, d3: int) -> int { (p % (d1 * d3)) / d1 }
pub open spec fn mn(a: int, b: int) -> int { if a < b { a } else { b } }
pub proof fn lemma_inbatch(p: int, b: int, nb: int, d1: int, d3: int)
    requires 0 <= b < nb, b * (d1 * d3) <= p < b * (d1 * d3) + d1 * d3, d1 >= 1, d3 >= 1,
    ensures p / (d1 * d3) == b, 0 <= mrow(p, d1, d3) < d1, 0 <= mcol(p, d1, d3) < d3, p == b * (d1 * d3) + mcol(p, d1, d3) * d1 + mrow(p, d1, d3), p < nb * (d1 * d3),
{
    lemma_bi(b, nb, d1 * d3, p - b * (d1 * d3));
    lemma_pij(p, nb, d1, d3);
}
// how much of the sum of element (i, k) a blocked product has added when it is at
// column block k0, row block i0, inner block j0, column kc, row ic (block sizes sk, si, sj)
pub open spec fn mmj(i: int, k: int, n: int, k0: int, sk: int, i0: int, si: int, j0: int, sj: int, kc: int, ic: int) -> int {
    if k < k0 { n } else if k >= k0 + sk { 0 } else if i < i0 { n } else if i >= i0 + si { 0 }
    else if k < kc || (k == kc && i < ic) { mn(j0 + sj, n) } else { mn(j0, n) }
}
// position in x of element p of its transpose; x has d1 rows and d2 columns
pub open spec fn tr(p: int, d1: int, d2: int) -> int { (p / (d1 * d2)) * (d1 * d2) + ((p % (d1 * d2)) % d2) * d1 + (p % (d1 * d2)) / d2 }
pub open spec fn V_transpose(x: TV) -> TV {
    TV { s: s_transpose(x.s), d: Seq::new(sz(x.s) as nat, |p: int| x.d[tr(p, dm(x.s, 0), dm(x.s, 1))]) }
}
pub open spec fn valid_tri(s: SV) -> bool { matrix_s(s) && dm(s, 0) == dm(s, 1) }
// row and column of position p of a batch of n x n matrices
pub open spec fn row(p: int, n: int) -> int { (p % (n * n)) % n }
pub open spec fn col(p: int, n: int) -> int { (p % (n * n)) / n }
pub open spec fn tri_keep(l: bool, p: int, n: int, k: int) -> bool {
    if l { row(p, n) >= col(p, n) + k } else { col(p, n) >= row(p, n) + k }
}
pub open spec fn V_tri(l: bool, x: TV, k: int) -> TV {
    TV { s: x.s, d: Seq::new(sz(x.s) as nat, |p: int| if tri_keep(l, p, dm(x.s, 0), k) { x.d[p] } else { 0.0real }) }
}
pub open spec fn V_identity(s: SV) -> TV {
    TV { s, d: Seq::new(sz(s) as nat, |p: int| if row(p, dm(s, 0)) == col(p, dm(s, 0)) { 1.0real } else { 0.0real }) }
}
pub open spec fn V_const(s: SV, k: real) -> TV { TV { s, d: Seq::new(sz(s) as nat, |p: int| k) } }
// position of the element mirrored along the dimension
pub open spec fn flipix(p: int, l: int, n: int) -> int { rbase(rproj(p, l, n), l, n) + (n - 1 - rj(p, l, n)) * l }
pub open spec fn V_flip(x: TV, dim: int) -> TV {
    TV { s: x.s, d: Seq::new(sz(x.s) as nat, |p: int| x.d[flipix(p, low(x.s, dim), dm(x.s, dim))]) }
}
pub open spec fn V_flip_bw(gy: TV, gx: TV, dim: int) -> TV {
    TV { s: gx.s, d: Seq::new(sz(gx.s) as nat, |p: int| gx.d[p] + gy.d[flipix(p, low(gx.s, dim), dm(gx.s, dim))]) }
}

// b * (d1*d2) + j*d1 + i, where row i < d1 and column j < d2
pub proof fn lemma_ij(b: int, j: int, i: int, nb: int, d1: int, d2: int)
    requires 0 <= b < nb, 0 <= j < d2, 0 <= i < d1,
    ensures ({
        let p = b * (d1 * d2) + j * d1 + i;
        &&& d1 * d2 == d2 * d1 && d1 * d2 >= 1
        &&& 0 <= p < nb * (d1 * d2) && 0 <= b * (d1 * d2) && 0 <= j * d1 && j * d1 + i < d1 * d2 && b * (d1 * d2) + d1 * d2 <= nb * (d1 * d2)
        &&& p / (d1 * d2) == b && p % (d1 * d2) == j * d1 + i && (j * d1 + i) % d1 == i && (j * d1 + i) / d1 == j
        &&& (j + 1) * d1 == j * d1 + d1 && (j + 1) * d1 <= d1 * d2 && (b + 1) * (d1 * d2) == b * (d1 * d2) + d1 * d2
    }),
{
    let m = d1 * d2;
    assert(m == d2 * d1) by (nonlinear_arith) requires m == d1 * d2;
    lemma_bi(j, d2, d1, i);
    assert(m >= 1) by (nonlinear_arith) requires m == d1 * d2, d1 >= 1, d2 >= 1;
    lemma_bi(b, nb, m, j * d1 + i);
}
// every position is of that form
pub proof fn lemma_pij(p: int, nb: int, d1: int, d2: int)
    requires 0 <= p < nb * (d1 * d2), d1 >= 1, d2 >= 1,
    ensures ({
        let b = p / (d1 * d2); let j = (p % (d1 * d2)) / d1; let i = (p % (d1 * d2)) % d1;
        &&& 0 <= b < nb && 0 <= j < d2 && 0 <= i < d1 && p == b * (d1 * d2) + j * d1 + i && 0 <= p % (d1 * d2) < d1 * d2
    }),
{
    let m = d1 * d2;
    assert(m >= 1) by (nonlinear_arith) requires m == d1 * d2, d1 >= 1, d2 >= 1;
    let b = p / m; let r = p % m; let j = r / d1; let i = r % d1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, m);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(r, d1);
    assert(0 <= r < m) by (nonlinear_arith) requires r == p % m, m >= 1;
    assert(0 <= i < d1) by (nonlinear_arith) requires i == r % d1, d1 >= 1;
    assert(b >= 0) by (nonlinear_arith) requires b == p / m, p >= 0, m >= 1;
    assert(b < nb) by (nonlinear_arith) requires m * b + r == p, p < nb * m, r >= 0, m >= 1;
    assert(j >= 0) by (nonlinear_arith) requires j == r / d1, r >= 0, d1 >= 1;
    assert(j < d2) by (nonlinear_arith) requires d1 * j + i == r, r < d1 * d2, i >= 0, d1 >= 1;
    assert(m * b == b * m && d1 * j == j * d1) by (nonlinear_arith);
}
// transposing twice is the identity on positions
pub proof fn lemma_tr(p: int, nb: int, d1: int, d2: int)
    requires 0 <= p < nb * (d1 * d2), d1 >= 1, d2 >= 1,
    ensures 0 <= tr(p, d1, d2) < nb * (d1 * d2), tr(tr(p, d1, d2), d2, d1) == p,
{
    assert(d1 * d2 == d2 * d1) by (nonlinear_arith);
    lemma_pij(p, nb, d2, d1);
    let b = p / (d2 * d1); let j = (p % (d2 * d1)) / d2; let i = (p % (d2 * d1)) % d2;
    lemma_ij(b, i, j, nb, d1, d2);
}
pub proof fn lemma_tr_ij(b: int, j: int, i: int, nb: int, d1: int, d2: int)
    requires 0 <= b < nb, 0 <= j < d2, 0 <= i < d1,
    ensures
        0 <= b * (d1 * d2) + i * d2 + j < nb * (d1 * d2), 0 <= i * d2, (i + 1) * d2 == i * d2 + d2, i * d2 + j < d1 * d2,
        tr(b * (d1 * d2) + i * d2 + j, d1, d2) == b * (d1 * d2) + j * d1 + i,
{
    assert(d1 * d2 == d2 * d1) by (nonlinear_arith);
    lemma_ij(b, i, j, nb, d2, d1);
}
pub proof fn lemma_mat(s: SV)
    requires svwf(s), matrix_s(s),
    ensures vol(s) == dm(s, 0) * dm(s, 1), dm(s, 0) >= 1, dm(s, 1) >= 1, sz(s) == s.b * (dm(s, 0) * dm(s, 1)), 1 <= vol(s) <= U32M(), vol(s) <= sz(s) <= U32M(), s.b >= 1,
      s.d =~= dims2(dm(s, 0), dm(s, 1)), dm(s, 0) <= vol(s), dm(s, 1) <= vol(s),
{
    lemma_sz(s);
    assert(s.d =~= dims2(dm(s, 0), dm(s, 1)));
    lemma_dims2(dm(s, 0), dm(s, 1));
    let a = dm(s, 0); let b = dm(s, 1);
    assert(a * b >= a && a * b >= b) by (nonlinear_arith) requires a >= 1, b >= 1;
}
pub proof fn lemma_flipix(p: int, l: int, n: int, u: int)
    requires 0 <= p < u * (l * n), l >= 1, n >= 1, u >= 1,
    ensures 0 <= flipix(p, l, n) < u * (l * n), flipix(flipix(p, l, n), l, n) == p,
{
    lemma_rproj(p, l, n, u);
    let i = rproj(p, l, n); let j = rj(p, l, n);
    lemma_rix(i, j, l, n, u);
    lemma_rix(i, n - 1 - j, l, n, u);
}

pub proof fn lemma_dot_add(a: Seq<real>, pa: int, m: int, i: int, b: Seq<real>, pb: int, q: int, k: int, n: int)
    requires n >= 0,
    ensures dot(a, pa, m, i, b, pb, q, k, n + 1) == dot(a, pa, m, i, b, pb, q, k, n) + a[pa + i + n * m] * b[pb + n + k * q],
{}

// gradients of y = a b: ga += gy b^T, gb += a^T gy, summed over the batch where the operand has batch one
pub open spec fn V_matmul_bw_a(b: TV, gy: TV, ga: TV) -> TV { V_add_assign(ga, V_matmul(gy, V_transpose(b)), false) }
pub open spec fn V_matmul_bw_b(a: TV, gy: TV, gb: TV) -> TV { V_add_assign(gb, V_matmul(V_transpose(a), gy), false) }
pub proof fn lemma_mm_sz(a: int, b: int, v: int)
    requires v >= 0,
    ensures v * mx(a, b) == mx(a, b) * v,
{ assert(v * mx(a, b) == mx(a, b) * v) by (nonlinear_arith); }
}
