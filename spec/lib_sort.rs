verus! {
// ------------------------------------------------------------- sorting indices by what they name
// what `sort_unstable_by` does: the range is permuted, and then in order
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n)
    && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j])
}
pub open spec fn permuted(v0: Seq<usize>, v1: Seq<usize>, a: int, b: int, p: Seq<int>) -> bool {
    is_perm(p, b - a)
    && (forall|k: int| 0 <= k < a || b <= k < v0.len() ==> #[trigger] v1[k] == v0[k])
    && (forall|k: int| 0 <= k < b - a ==> v0[a + #[trigger] p[k]] == v1[a + k])
}
#[verifier::external_body]
pub fn sort_idx(v: &mut Vec<usize>, a: usize, b: usize, t: &Tensor, Ghost(key): Ghost<spec_fn(int) -> int>, Ghost(asc): Ghost<bool>, Ghost(ok): Ghost<bool>)
    requires
        ok ==> a <= b <= old(v)@.len(),
        t.valid@,
        a <= b <= old(v)@.len() ==> forall|k: int| a <= k < b ==> 0 <= key(#[trigger] old(v)@[k] as int) < t.buf@.len(),
    ensures
        a <= b <= old(v)@.len(),
        final(v)@.len() == old(v)@.len(),
        exists|p: Seq<int>| #[trigger] permuted(old(v)@, final(v)@, a as int, b as int, p),
        asc ==> forall|i: int, j: int| a <= i < j < b ==> t.buf@[key(#[trigger] final(v)@[i] as int)] <= t.buf@[key(#[trigger] final(v)@[j] as int)],
        !asc ==> forall|i: int, j: int| a <= i < j < b ==> t.buf@[key(#[trigger] final(v)@[i] as int)] >= t.buf@[key(#[trigger] final(v)@[j] as int)],
{ unimplemented!() }

pub open spec fn at(base: int, st: int, k: int) -> int { base + k * st }
// the position v lies on the line
pub open spec fn on_line(v: int, base: int, st: int, n: int) -> bool { exists|k: int| 0 <= k < n && v == #[trigger] at(base, st, k) }
// y, read along the line at base, lists the positions of that line, each once, with ascending elements
pub open spec fn is_argsort(x: Seq<real>, y: Seq<u32>, base: int, st: int, n: int) -> bool {
    (forall|j: int| 0 <= j < n ==> on_line(y[#[trigger] at(base, st, j)] as int, base, st, n))
    && (forall|i: int, j: int| 0 <= i < j < n ==> y[#[trigger] at(base, st, i)] != y[#[trigger] at(base, st, j)]
        && x[y[at(base, st, i)] as int] <= x[y[at(base, st, j)] as int])
}
// place of position p in the list that has the lines one after the other, and the position at a place of it
pub open spec fn lpos(p: int, l: int, n: int) -> int { rproj(p, l, n) * n + rj(p, l, n) }
pub open spec fn ini(q: int, l: int, n: int) -> int { rbase(q / n, l, n) + (q % n) * l }
// line c of the list is sorted
pub open spec fn srt(x: Seq<real>, v: Seq<usize>, c: int, l: int, n: int) -> bool {
    (forall|j: int| 0 <= j < n ==> on_line(#[trigger] v[c * n + j] as int, rbase(c, l, n), l, n))
    && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] v[c * n + i] != #[trigger] v[c * n + j]
        && x[v[c * n + i] as int] <= x[v[c * n + j] as int])
}
pub proof fn lemma_qn(c: int, j: int, n: int)
    requires 0 <= j < n, 0 <= c,
    ensures (c * n + j) / n == c, (c * n + j) % n == j, (c + 1) * n == c * n + n, c * n >= 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c * n + j, n, c, j);
    assert((c + 1) * n == c * n + n) by (nonlinear_arith);
    assert(c * n >= 0) by (nonlinear_arith) requires c >= 0, n >= 1;
}
pub proof fn lemma_qdiv(q: int, n: int, m: int)
    requires 0 <= q < m * n, n >= 1,
    ensures 0 <= q / n < m, 0 <= q % n < n, q == (q / n) * n + q % n,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, n);
    let a = q / n;
    assert(0 <= q % n < n) by (nonlinear_arith) requires n >= 1;
    assert(a >= 0) by (nonlinear_arith) requires a == q / n, q >= 0, n >= 1;
    assert(a < m) by (nonlinear_arith) requires n * a + q % n == q, q < m * n, q % n >= 0, n >= 1;
    assert(n * a == a * n) by (nonlinear_arith);
}
pub proof fn lemma_qend(m: int, n: int)
    requires n >= 1, m >= 0,
    ensures (m * n) / n == m, (m * n) % n == 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m * n, n, m, 0);
}
pub proof fn lemma_step(a: int, n: int, m: int)
    requires a % n == 0, 0 <= a < m * n, n >= 1,
    ensures a == (a / n) * n, 0 <= a / n < m, a + n <= m * n, (a + n) % n == 0, (a + n) / n == a / n + 1,
{
    lemma_qdiv(a, n, m);
    let c = a / n;
    assert((c + 1) * n <= m * n) by (nonlinear_arith) requires c + 1 <= m, n >= 1;
    assert((c + 1) * n == c * n + n) by (nonlinear_arith);
    lemma_qend(c + 1, n);
}
pub proof fn lemma_lpos(p: int, l: int, n: int, u: int)
    requires 0 <= p < u * (l * n), l >= 1, n >= 1, u >= 1,
    ensures 0 <= lpos(p, l, n) < u * (l * n), ini(lpos(p, l, n), l, n) == p,
{
    lemma_rproj(p, l, n, u);
    let c = rproj(p, l, n); let j = rj(p, l, n);
    lemma_qn(c, j, n);
    assert((c + 1) * n <= (u * l) * n) by (nonlinear_arith) requires c + 1 <= u * l, n >= 1;
    assert((u * l) * n == u * (l * n)) by (nonlinear_arith);
}
// block o, line j of the block, element i of the line
pub proof fn lemma_blk(off: int, j: int, i: int, l: int, n: int, u: int)
    requires off % (l * n) == 0, 0 <= off < u * (l * n), 0 <= j < l, 0 <= i < n, l >= 1, n >= 1, u >= 1,
    ensures
        off + l * n <= u * (l * n), (off + l * n) % (l * n) == 0,
        0 <= j * n + i < l * n, (j + 1) * n == j * n + n, 0 <= l * i, l * i == i * l, j + l * i < l * n, 0 <= j * n, j * n + n <= l * n,
        ini(off + j * n + i, l, n) == off + j + l * i,
        lpos(off + j + l * i, l, n) == off + j * n + i,
{
    let b = l * n;
    assert(b >= 1) by (nonlinear_arith) requires b == l * n, l >= 1, n >= 1;
    let o = off / b;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(off, b);
    assert(off == o * b) by (nonlinear_arith) requires off == b * o + off % b, off % b == 0;
    assert(o < u) by (nonlinear_arith) requires o * b < u * b, b >= 1;
    assert(o >= 0) by (nonlinear_arith) requires o * b >= 0, b >= 1;
    assert((o + 1) * b <= u * b) by (nonlinear_arith) requires o + 1 <= u, b >= 1;
    assert((o + 1) * b == o * b + b) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(off + b, b, o + 1, 0);
    let c = o * l + j;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c, l, o, j);
    assert((j + 1) * n <= l * n) by (nonlinear_arith) requires j + 1 <= l, n >= 1;
    assert((j + 1) * n == j * n + n) by (nonlinear_arith);
    assert(j * n >= 0) by (nonlinear_arith) requires j >= 0, n >= 1;
    assert(l * i == i * l) by (nonlinear_arith);
    assert(i * l >= 0) by (nonlinear_arith) requires i >= 0, l >= 1;
    assert((i + 1) * l <= n * l) by (nonlinear_arith) requires i + 1 <= n, l >= 1;
    assert((i + 1) * l == i * l + l) by (nonlinear_arith);
    assert(n * l == l * n) by (nonlinear_arith);
    assert(c * n == o * (l * n) + j * n) by (nonlinear_arith) requires c == o * l + j;
    assert(c >= 0) by (nonlinear_arith) requires c == o * l + j, o >= 0, l >= 1, j >= 0;
    assert(c < u * l) by (nonlinear_arith) requires c == o * l + j, o + 1 <= u, j < l, l >= 1;
    lemma_qn(c, i, n);
    lemma_rix(c, i, l, n, u);
}
pub proof fn lemma_srt_init(x: Seq<real>, v0: Seq<usize>, v1: Seq<usize>, p: Seq<int>, c: int, l: int, n: int, u: int)
    requires
        0 <= c < u * l, l >= 1, n >= 1, u >= 1, v0.len() == u * (l * n), v1.len() == v0.len(), x.len() == v0.len(),
        forall|q: int| c * n <= q < c * n + n ==> #[trigger] v0[q] == ini(q, l, n),
        is_perm(p, n),
        forall|k: int| 0 <= k < n ==> #[trigger] v1[c * n + k] == v0[c * n + p[k]],
        forall|i: int, j: int| 0 <= i < j < n ==> x[#[trigger] v1[c * n + i] as int] <= x[#[trigger] v1[c * n + j] as int],
    ensures srt(x, v1, c, l, n),
{
    assert forall|j: int| 0 <= j < n implies on_line(#[trigger] v1[c * n + j] as int, rbase(c, l, n), l, n) by {
        lemma_qn(c, p[j], n);
        assert(v0[c * n + p[j]] == ini(c * n + p[j], l, n));
        assert(v1[c * n + j] as int == at(rbase(c, l, n), l, p[j]));
    }
    assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] v1[c * n + i] != #[trigger] v1[c * n + j] && x[v1[c * n + i] as int] <= x[v1[c * n + j] as int] by {
        lemma_qn(c, p[i], n); lemma_qn(c, p[j], n);
        assert(p[i] != p[j]);
        assert(v0[c * n + p[i]] == ini(c * n + p[i], l, n));
        assert(v0[c * n + p[j]] == ini(c * n + p[j], l, n));
        assert(p[i] * l != p[j] * l) by (nonlinear_arith) requires p[i] != p[j], l >= 1;
    }
}
pub proof fn lemma_srt_frame(x: Seq<real>, v0: Seq<usize>, v1: Seq<usize>, c: int, a: int, l: int, n: int)
    requires
        srt(x, v0, c, l, n), 0 <= c, (c + 1) * n <= a, n >= 1, v0.len() == v1.len(), a <= v0.len(),
        forall|k: int| 0 <= k < a ==> #[trigger] v1[k] == v0[k],
    ensures srt(x, v1, c, l, n),
{
    assert((c + 1) * n == c * n + n) by (nonlinear_arith);
    assert(c * n >= 0) by (nonlinear_arith) requires c >= 0, n >= 1;
    assert forall|j: int| 0 <= j < n implies on_line(#[trigger] v1[c * n + j] as int, rbase(c, l, n), l, n) by { assert(v1[c * n + j] == v0[c * n + j]); }
    assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] v1[c * n + i] != #[trigger] v1[c * n + j] && x[v1[c * n + i] as int] <= x[v1[c * n + j] as int] by {
        assert(v1[c * n + i] == v0[c * n + i]); assert(v1[c * n + j] == v0[c * n + j]);
    }
}
pub proof fn lemma_argsort(x: Seq<real>, v: Seq<usize>, y: Seq<u32>, l: int, n: int, u: int)
    requires
        l >= 1, n >= 1, u >= 1, v.len() == u * (l * n), y.len() == v.len(), x.len() == v.len(), v.len() <= U32M(),
        forall|c: int| 0 <= c < u * l ==> #[trigger] srt(x, v, c, l, n),
        forall|p: int| 0 <= p < y.len() ==> #[trigger] y[p] == v[lpos(p, l, n)] as u32,
    ensures forall|c: int| 0 <= c < u * l ==> is_argsort(x, y, #[trigger] rbase(c, l, n), l, n),
{
    assert forall|c: int| 0 <= c < u * l implies is_argsort(x, y, #[trigger] rbase(c, l, n), l, n) by {
        let b = rbase(c, l, n);
        assert(srt(x, v, c, l, n));
        assert forall|j: int| 0 <= j < n implies y[#[trigger] at(b, l, j)] as int == v[c * n + j] as int
            && on_line(v[c * n + j] as int, b, l, n) by {
            lemma_rix(c, j, l, n, u);
            assert(y[b + j * l] == v[lpos(b + j * l, l, n)] as u32);
            assert(on_line(v[c * n + j] as int, b, l, n));
            let k = choose|k: int| 0 <= k < n && v[c * n + j] as int == #[trigger] at(b, l, k);
            lemma_rix(c, k, l, n, u);
        }
        assert forall|i: int, j: int| 0 <= i < j < n implies y[#[trigger] at(b, l, i)] != y[#[trigger] at(b, l, j)]
            && x[y[at(b, l, i)] as int] <= x[y[at(b, l, j)] as int] by {
            assert(v[c * n + i] != v[c * n + j]);
        }
    }
}
}
