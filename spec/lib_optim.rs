verus! {
// ------------------------------------------------------------- parameters and optimizers
// Parameter.stats: a map from names (read as 64-bit hashes of the text) to tensors in RefCells.
#[verifier::external_body]
pub struct Stats { p: usize }
impl Stats { pub uninterp spec fn view(&self) -> Map<u64, Tensor>; }
#[verifier::external_body]
pub fn stats_new() -> (r: Stats) ensures r@ == Map::<u64, Tensor>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn stats_has(s: &Stats, k: u64) -> (r: bool) ensures r == s@.contains_key(k) { unimplemented!() }
#[verifier::external_body]
pub fn stats_insert(s: &mut Stats, k: u64, t: Tensor) ensures final(s)@ == old(s)@.insert(k, t) { unimplemented!() }
// borrow_mut: the entry is away until its guard is dropped, so that a second borrow is refused
#[verifier::external_body]
pub fn stats_take(s: &mut Stats, k: u64, Ghost(ok): Ghost<bool>) -> (r: Tensor)
    requires ok ==> old(s)@.contains_key(k),
    ensures old(s)@.contains_key(k), r == old(s)@[k], final(s)@ == old(s)@.remove(k) { unimplemented!() }
#[verifier::external_body]
pub fn stats_put(s: &mut Stats, k: u64, t: Tensor)
    requires !old(s)@.contains_key(k),
    ensures final(s)@ == old(s)@.insert(k, t) { unimplemented!() }

pub open spec fn M_M() -> u64 { 0x4c2ad56c1b35d222u64 }    // "MomentumSGD.m"
pub open spec fn A_M1() -> u64 { 0xf3e9f24ad529ed2eu64 }   // "Adam.m1"
pub open spec fn A_M2() -> u64 { 0xf3e9f14ad529eb7bu64 }   // "Adam.m2"

impl Parameter {
    // the value and the gradient are allocated, have one shape and no minibatch
    pub open spec fn okv(&self) -> bool {
        self.value.full() && self.gradient.full() && self.gradient.shape == self.value.shape && self.value.shape.s().b == 1
    }
    pub open spec fn ok1(&self, k: u64) -> bool {
        self.stats@.contains_key(k) && self.stats@[k].full() && self.stats@[k].shape == self.value.shape
    }
    pub open spec fn okp(&self, names: Set<u64>) -> bool {
        self.okv() && forall|k: u64| #[trigger] names.contains(k) ==> self.ok1(k)
    }
}
// those of the named statistics that exist have the right shape
impl Parameter {
    pub open spec fn okc(&self, names: Set<u64>) -> bool {
        self.okv() && forall|k: u64| #[trigger] names.contains(k) && self.stats@.contains_key(k) ==> self.ok1(k)
    }
}
// every statistic except the named ones is as before
pub open spec fn same_stats(a: Map<u64, Tensor>, b: Map<u64, Tensor>, n1: u64, n2: u64) -> bool {
    forall|k: u64| k != n1 && k != n2 ==> (#[trigger] a.contains_key(k) == b.contains_key(k)) && (b.contains_key(k) ==> a[k] == b[k])
}
pub open spec fn names0() -> Set<u64> { Set::empty() }
pub open spec fn names1(a: u64) -> Set<u64> { Set::empty().insert(a) }
pub open spec fn names2(a: u64, b: u64) -> Set<u64> { Set::empty().insert(a).insert(b) }

// an optimizer, as seen by the default methods of the trait; step is its update_parameter
pub struct Opt { pub epoch: u32, pub lr_scale: R, pub l2_strength: R, pub clip_threshold: R, pub names: Ghost<Set<u64>>, pub id: Ghost<int> }
pub uninterp spec fn opt_step(o: Opt, scale: real, v: TV, g: TV, st: Map<u64, Tensor>, v2: TV, st2: Map<u64, Tensor>) -> bool;
pub uninterp spec fn opt_names(o: Opt) -> Set<u64>;
#[verifier::external_body]
pub fn Opt_get_weight_decay(o: &Opt) -> (r: R) ensures r == o.l2_strength { unimplemented!() }
#[verifier::external_body]
pub fn Opt_get_learning_rate_scaling(o: &Opt) -> (r: R) ensures r == o.lr_scale { unimplemented!() }
#[verifier::external_body]
pub fn Opt_get_gradient_clipping(o: &Opt) -> (r: R) ensures r == o.clip_threshold { unimplemented!() }
#[verifier::external_body]
pub fn Opt_epoch(o: &mut Opt) -> (r: &mut u32)
    ensures *r == old(o).epoch, *final(r) == final(o).epoch, final(o).lr_scale == old(o).lr_scale, final(o).l2_strength == old(o).l2_strength,
        final(o).clip_threshold == old(o).clip_threshold, final(o).names == old(o).names, final(o).id == old(o).id
{ unimplemented!() }
#[verifier::external_body]
pub fn Opt_update_parameter(o: &Opt, scale: R, p: &mut Parameter)
    requires old(p).okp(o.names@), o.epoch < u32::MAX,
    ensures final(p).okp(o.names@), final(p).value.shape == old(p).value.shape, final(p).gradient == old(p).gradient,
        opt_step(*o, scale.v(), old(p).value.v(), old(p).gradient.v(), old(p).stats@, final(p).value.v(), final(p).stats@)
{ unimplemented!() }
#[verifier::external_body]
pub fn Opt_configure_parameter(o: &Opt, p: &mut Parameter)
    requires old(p).okc(o.names@),
    ensures final(p).okp(o.names@), final(p).value == old(p).value, final(p).gradient == old(p).gradient,
        forall|k: u64| #[trigger] old(p).stats@.contains_key(k) ==> final(p).stats@.contains_key(k) && final(p).stats@[k] == old(p).stats@[k],
        forall|k: u64| #[trigger] final(p).stats@.contains_key(k) ==> old(p).stats@.contains_key(k) || o.names@.contains(k)
{ unimplemented!() }

// ---- the steps
pub open spec fn is_sgd(v: TV, g: TV, v2: TV, lr: real) -> bool {
    v2.s == v.s && v2.d.len() == v.d.len() && forall|i: int| 0 <= i < v.d.len() ==> #[trigger] v2.d[i] == v.d[i] - lr * g.d[i]
}
pub open spec fn is_mom(v: TV, g: TV, m: TV, v2: TV, m2: TV, lr: real, mu: real) -> bool {
    v2.s == v.s && v2.d.len() == v.d.len() && m2.s == m.s && m2.d.len() == v.d.len() &&
    (forall|i: int| 0 <= i < v.d.len() ==> #[trigger] m2.d[i] == m.d[i] * mu - lr * g.d[i]) &&
    (forall|i: int| 0 <= i < v.d.len() ==> #[trigger] v2.d[i] == v.d[i] + m2.d[i])
}
pub open spec fn is_adam_m(g: TV, m: TV, n: TV, m2: TV, n2: TV, b1: real, b2: real) -> bool {
    m2.s == m.s && n2.s == n.s && m2.d.len() == m.d.len() && n2.d.len() == n.d.len() &&
    (forall|i: int| 0 <= i < m.d.len() ==> #[trigger] m2.d[i] == m.d[i] * b1 + (1.0real - b1) * g.d[i]) &&
    (forall|i: int| 0 <= i < n.d.len() ==> #[trigger] n2.d[i] == n.d[i] * b2 + (1.0real - b2) * (g.d[i] * g.d[i]))
}
pub open spec fn is_adam_v(v: TV, m2: TV, n2: TV, v2: TV, lr: real, b1: real, b2: real, eps: real, t: real) -> bool {
    v2.s == v.s && v2.d.len() == v.d.len() &&
    (forall|i: int| 0 <= i < v.d.len() ==> #[trigger] v2.d[i] == v.d[i] - (lr * (m2.d[i] / (1.0real - e_pow(b1, t)))) / (e_sqrt(n2.d[i] / (1.0real - e_pow(b2, t))) + eps))
}

// ---- weight decay and clipping
pub open spec fn is_decay(v: TV, g: TV, g2: TV, l2: real) -> bool {
    g2.s == g.s && g2.d.len() == g.d.len() && forall|i: int| 0 <= i < g.d.len() ==> #[trigger] g2.d[i] == g.d[i] + l2 * v.d[i]
}
pub open spec fn V_decay(v: TV, g: TV, l2: real) -> TV { TV { s: g.s, d: Seq::new(g.d.len(), |i: int| g.d[i] + l2 * v.d[i]) } }
pub open spec fn sumsq(x: Seq<real>, n: int) -> real decreases n { if n <= 0 { 0.0real } else { sumsq(x, n - 1) + x[n - 1] * x[n - 1] } }
// squared length of all gradients together
pub open spec fn gnorm2(gs: Seq<TV>, n: int) -> real decreases n { if n <= 0 { 0.0real } else { gnorm2(gs, n - 1) + sumsq(gs[n - 1].d, gs[n - 1].d.len() as int) } }
pub open spec fn pvals(ps: Seq<Parameter>) -> Seq<TV> { Seq::new(ps.len(), |i: int| ps[i].value.v()) }
pub open spec fn pgrads(ps: Seq<Parameter>) -> Seq<TV> { Seq::new(ps.len(), |i: int| ps[i].gradient.v()) }
pub open spec fn decayed(ps: Seq<Parameter>, l2: real) -> Seq<TV> {
    Seq::new(ps.len(), |i: int| if l2 > 0.0real { V_decay(ps[i].value.v(), ps[i].gradient.v(), l2) } else { ps[i].gradient.v() })
}
pub open spec fn clip_k(gs: Seq<TV>, clip: real) -> real {
    if clip > 0.0real && gnorm2(gs, gs.len() as int) > clip * clip { clip / e_sqrt(gnorm2(gs, gs.len() as int)) } else { 1.0real }
}
// the gradients that the step sees
pub open spec fn used_grads(ps: Seq<Parameter>, l2: real, clip: real) -> Seq<TV> {
    let gs = decayed(ps, l2);
    Seq::new(ps.len(), |i: int| V_un(Op::MulC, gs[i], clip_k(gs, clip)))
}

pub proof fn lemma_mul1(x: TV)
    requires tvwf(x),
    ensures V_un(Op::MulC, x, 1.0real) == x
{
    assert forall|i: int| 0 <= i < x.d.len() implies x.d[i] * 1.0real == x.d[i] by {}
    assert(V_un(Op::MulC, x, 1.0real).d =~= x.d);
}
// adding a tensor of the same shape, without a minibatch, adds elementwise
pub proof fn lemma_acc_id(g: real, s: SV, w: spec_fn(int) -> real, n: int, p: int)
    requires svwf(s), s.b == 1, 0 <= n <= vol(s), 0 <= p < vol(s),
    ensures acc(g, ixb(s), w, n, p) == g + (if p < n { w(p) } else { 0.0real })
    decreases n
{
    if n > 0 {
        lemma_acc_id(g, s, w, n - 1, p);
        vstd::arithmetic::div_mod::lemma_small_mod((n - 1) as nat, vol(s) as nat);
        assert(ixb(s)(n - 1) == n - 1);
    }
}
pub proof fn lemma_add_same(y: TV, x: TV)
    requires tvwf(y), tvwf(x), x.s == y.s, y.s.b == 1,
    ensures
        forall|p: int| 0 <= p < y.d.len() ==> #[trigger] V_add_assign(y, x, false).d[p] == y.d[p] + x.d[p],
        forall|p: int| 0 <= p < y.d.len() ==> #[trigger] V_add_assign(y, x, true).d[p] == y.d[p] - x.d[p],
        V_add_assign(y, x, false).d.len() == y.d.len(), V_add_assign(y, x, true).d.len() == y.d.len(),
{
    lemma_sz(y.s);
    let n = vol(y.s);
    assert(1 * n == n);
    assert(mx(x.s.b, y.s.b) * vol(y.s) == n);
    assert forall|p: int| 0 <= p < y.d.len() implies #[trigger] V_add_assign(y, x, false).d[p] == y.d[p] + x.d[p] by {
        lemma_acc_id(y.d[p], y.s, w_b(y.s, x, false), n, p);
        vstd::arithmetic::div_mod::lemma_small_mod(p as nat, n as nat);
    }
    assert forall|p: int| 0 <= p < y.d.len() implies #[trigger] V_add_assign(y, x, true).d[p] == y.d[p] - x.d[p] by {
        lemma_acc_id(y.d[p], y.s, w_b(y.s, x, true), n, p);
        vstd::arithmetic::div_mod::lemma_small_mod(p as nat, n as nat);
    }
}
// arithmetic on two tensors of one shape is elementwise
pub proof fn lemma_ar_same(op: Op, x: TV, m: TV)
    requires tvwf(x), tvwf(m), x.s == m.s, op == Op::Add || op == Op::Sub || op == Op::Mul || op == Op::Div,
    ensures valid_ar(x.s, m.s), V_ar(op, x, m).s == x.s, V_ar(op, x, m).d.len() == x.d.len(), tvwf(V_ar(op, x, m)),
        forall|i: int| 0 <= i < x.d.len() ==> #[trigger] V_ar(op, x, m).d[i] == f2(op, x.d[i], m.d[i]),
{
    lemma_sz(x.s);
    if scalar_s(x.s) { lemma_lv_ones(x.s.d, 0, 8); }
    assert(s_ew(x.s, x.s).d =~= x.s.d);
    assert forall|p: int| 0 <= p < x.d.len() implies #[trigger] V_ar(op, x, m).d[p] == f2(op, x.d[p], m.d[p]) by {
        assert(bix(x.s, p) == p && (scalar_s(x.s) ==> six(x.s, vol(x.s), p) == p)) by (nonlinear_arith)
            requires 0 <= p < sz(x.s), sz(x.s) == x.s.b * vol(x.s), vol(x.s) >= 1, x.s.b >= 1, scalar_s(x.s) ==> vol(x.s) == 1;
        assert(m.d[p] * x.d[p] == x.d[p] * m.d[p]) by (nonlinear_arith);
    }
}
// (g * g).flatten().sum(0) of a gradient is the sum of its squares
pub proof fn lemma_sumsq(x: Seq<real>, q: Seq<real>, n: int)
    requires 0 <= n <= x.len(), q.len() == x.len(), forall|i: int| 0 <= i < x.len() ==> #[trigger] q[i] == x[i] * x[i],
    ensures rsum(q, 0, 1, n) == sumsq(x, n)
    decreases n
{
    if n > 0 { lemma_sumsq(x, q, n - 1); assert(q[n - 1] == x[n - 1] * x[n - 1]); assert(0 + (n - 1) * 1 == n - 1); }
}
pub proof fn lemma_gnorm(g: TV)
    requires tvwf(g), g.s.b == 1,
    ensures
        valid_ar(g.s, g.s), tvwf(V_ar(Op::Mul, g, g)), V_ar(Op::Mul, g, g).s == g.s, svwf(s_flat(g.s)), sz(s_flat(g.s)) == sz(g.s),
        sz(s_dim(s_flat(g.s), 0, 1)) == 1,
        V_red(Red::Sum, V_reshape(V_ar(Op::Mul, g, g), s_flat(g.s)), 0).d[0] == sumsq(g.d, g.d.len() as int),
{
    lemma_ar_same(Op::Mul, g, g); lemma_flat(g.s); lemma_sz(g.s);
    let f = s_flat(g.s); let e = s_dim(f, 0, 1);
    assert(f.d[0] == vol(g.s));
    lemma_lv_ones(e.d, 0, 8);
    assert(vol(e) == 1); assert(1 * 1 == 1); assert(sz(e) == 1);
    let q = V_ar(Op::Mul, g, g);
    lemma_sumsq(g.d, q.d, g.d.len() as int);
    assert(low(f, 0) == 1);
    let n = vol(g.s);
    assert(0int % 1 + (0int / 1) * (1 * n) == 0) by (nonlinear_arith);
}
pub proof fn lemma_gnorm_ext(a: Seq<TV>, b: Seq<TV>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i],
    ensures gnorm2(a, n) == gnorm2(b, n)
    decreases n
{ if n > 0 { lemma_gnorm_ext(a, b, n - 1); assert(a[n - 1] == b[n - 1]); } }
pub proof fn lemma_decay(v: TV, g: TV, l2: real)
    requires tvwf(v), tvwf(g), v.s == g.s, g.s.b == 1,
    ensures V_add_assign(g, V_un(Op::MulC, v, l2), false) == V_decay(v, g, l2), tvwf(V_decay(v, g, l2)),
{
    let d = V_un(Op::MulC, v, l2);
    lemma_add_same(g, d); lemma_sz(g.s);
    assert forall|i: int| 0 <= i < g.d.len() implies V_add_assign(g, d, false).d[i] == V_decay(v, g, l2).d[i] by {
        assert(d.d[i] == v.d[i] * l2); assert(v.d[i] * l2 == l2 * v.d[i]) by (nonlinear_arith);
    }
    assert(V_add_assign(g, d, false).d =~= V_decay(v, g, l2).d);
}
pub proof fn lemma_sgd(v: TV, g: TV, k: real)
    requires tvwf(v), tvwf(g), v.s == g.s, g.s.b == 1,
    ensures is_sgd(v, g, V_add_assign(v, V_un(Op::MulC, g, k), true), k)
{
    let d = V_un(Op::MulC, g, k); lemma_add_same(v, d); lemma_sz(v.s);
    assert forall|i: int| 0 <= i < v.d.len() implies #[trigger] V_add_assign(v, d, true).d[i] == v.d[i] - k * g.d[i] by {
        assert(d.d[i] == g.d[i] * k); assert(g.d[i] * k == k * g.d[i]) by (nonlinear_arith);
    }
}
pub proof fn lemma_mom(v: TV, g: TV, m: TV, k: real, mu: real)
    requires tvwf(v), tvwf(g), tvwf(m), v.s == g.s, m.s == g.s, g.s.b == 1,
    ensures ({ let m2 = V_add_assign(V_un(Op::MulC, m, mu), V_un(Op::MulC, g, k), true);
        tvwf(V_un(Op::MulC, m, mu)) && tvwf(m2) && is_mom(v, g, m, V_add_assign(v, m2, false), m2, k, mu) })
{
    let s = V_un(Op::MulC, m, mu); let d = V_un(Op::MulC, g, k); lemma_sz(v.s);
    lemma_add_same(s, d); let m2 = V_add_assign(s, d, true); lemma_add_same(v, m2);
    assert forall|i: int| 0 <= i < v.d.len() implies #[trigger] m2.d[i] == m.d[i] * mu - k * g.d[i] by {
        assert(s.d[i] == m.d[i] * mu); assert(m2.d[i] == s.d[i] - d.d[i]);
        assert(d.d[i] == g.d[i] * k); assert(g.d[i] * k == k * g.d[i]) by (nonlinear_arith);
    }
    let r = V_add_assign(v, m2, false);
    assert forall|i: int| 0 <= i < v.d.len() implies #[trigger] r.d[i] == v.d[i] + m2.d[i] by {}
}
pub open spec fn ad_m(m: TV, g: TV, b: real) -> TV { V_add_assign(V_un(Op::MulC, m, b), V_un(Op::MulC, g, 1.0real - b), false) }
pub open spec fn ad_n(m: TV, g: TV, b: real) -> TV { V_add_assign(V_un(Op::MulC, m, b), V_ar(Op::Mul, V_un(Op::MulC, g, 1.0real - b), g), false) }
pub open spec fn ad_v(v: TV, m2: TV, n2: TV, lr: real, b1: real, b2: real, eps: real, t: real) -> TV {
    V_add_assign(v, V_ar(Op::Div, V_un(Op::MulC, V_un(Op::DivCR, m2, 1.0real - e_pow(b1, t)), lr),
        V_un(Op::AddC, V_un(Op::Sqrt, V_un(Op::DivCR, n2, 1.0real - e_pow(b2, t)), 0.0real), eps)), true)
}
pub proof fn lemma_adam(v: TV, g: TV, m: TV, n: TV, lr: real, b1: real, b2: real, eps: real, t: real)
    requires tvwf(v), tvwf(g), tvwf(m), tvwf(n), v.s == g.s, m.s == g.s, n.s == g.s, g.s.b == 1,
    ensures
        is_adam_m(g, m, n, ad_m(m, g, b1), ad_n(n, g, b2), b1, b2), tvwf(ad_m(m, g, b1)), tvwf(ad_n(n, g, b2)),
        valid_ar(g.s, g.s), s_ar(g.s, g.s) == g.s,
        is_adam_v(v, ad_m(m, g, b1), ad_n(n, g, b2), ad_v(v, ad_m(m, g, b1), ad_n(n, g, b2), lr, b1, b2, eps, t), lr, b1, b2, eps, t),
{
    lemma_sz(v.s);
    let m0 = V_un(Op::MulC, m, b1); let gm = V_un(Op::MulC, g, 1.0real - b1); lemma_add_same(m0, gm);
    let n0 = V_un(Op::MulC, n, b2); let gk = V_un(Op::MulC, g, 1.0real - b2); lemma_ar_same(Op::Mul, gk, g); let gn = V_ar(Op::Mul, gk, g); lemma_add_same(n0, gn);
    let m2 = ad_m(m, g, b1); let n2 = ad_n(n, g, b2);
    assert forall|i: int| 0 <= i < m.d.len() implies #[trigger] m2.d[i] == m.d[i] * b1 + (1.0real - b1) * g.d[i] by {
        assert(m0.d[i] == m.d[i] * b1); assert(gm.d[i] == g.d[i] * (1.0real - b1)); assert(g.d[i] * (1.0real - b1) == (1.0real - b1) * g.d[i]) by (nonlinear_arith);
    }
    assert forall|i: int| 0 <= i < n.d.len() implies #[trigger] n2.d[i] == n.d[i] * b2 + (1.0real - b2) * (g.d[i] * g.d[i]) by {
        let x = g.d[i]; let c = 1.0real - b2;
        assert(n0.d[i] == n.d[i] * b2); assert(gk.d[i] == x * c); assert(gn.d[i] == (x * c) * x);
        assert((x * c) * x == c * (x * x)) by (nonlinear_arith);
    }
    let d1 = 1.0real - e_pow(b1, t); let d2 = 1.0real - e_pow(b2, t);
    let mm1 = V_un(Op::DivCR, m2, d1); let num = V_un(Op::MulC, mm1, lr);
    let mm2 = V_un(Op::DivCR, n2, d2); let sq = V_un(Op::Sqrt, mm2, 0.0real); let den = V_un(Op::AddC, sq, eps);
    lemma_ar_same(Op::Div, num, den); let q = V_ar(Op::Div, num, den);
    lemma_add_same(v, q);
    let r = V_add_assign(v, q, true);
    assert forall|i: int| 0 <= i < v.d.len() implies #[trigger] r.d[i] == v.d[i] - (lr * (m2.d[i] / d1)) / (e_sqrt(n2.d[i] / d2) + eps) by {
        assert(mm1.d[i] == m2.d[i] / d1); assert(num.d[i] == mm1.d[i] * lr); assert(mm1.d[i] * lr == lr * mm1.d[i]) by (nonlinear_arith);
        assert(sq.d[i] == e_sqrt(mm2.d[i])); assert(den.d[i] == sq.d[i] + eps);
        assert(q.d[i] == num.d[i] / den.d[i]);
    }
}
}
