verus! {
// ------------------------------------------------------------- operators behind the graph
// What the graph relies on (OBox of lib_graph.rs), as a trait: every operator of the library is shown to
// refine it by calling its own functions under their contracts.
pub trait LinkOp: Sized {
    spec fn k_inv(&self, n: int) -> bool;                       // number of operands; what the operator itself has to satisfy
    spec fn k_valid(&self, ss: Seq<SV>) -> bool;
    spec fn k_bw(&self, ss: Seq<SV>) -> bool;                   // sizes backward can handle
    spec fn k_shapes(&self, ss: Seq<SV>) -> Seq<SV>;
    spec fn k_eval(&self, xs: Seq<TV>) -> Seq<TV>;
    spec fn k_grads(&self, xs: Seq<TV>, gys: Seq<TV>) -> Seq<TV>;
    spec fn k_par(&self) -> bool;
    spec fn k_acc(&self) -> TV;
    proof fn k_wf(&self, xs: Seq<TV>)
        requires self.k_inv(xs.len() as int), self.k_valid(svs(xs)), forall|p: int| 0 <= p < xs.len() ==> tvwf(#[trigger] xs[p]), forall|k: int| 0 <= k < self.k_shapes(svs(xs)).len() ==> svwf(#[trigger] self.k_shapes(svs(xs))[k]),
        ensures self.k_eval(xs).len() == self.k_shapes(svs(xs)).len(), forall|k: int| 0 <= k < self.k_eval(xs).len() ==> tvwf(#[trigger] self.k_eval(xs)[k]) && self.k_eval(xs)[k].s == self.k_shapes(svs(xs))[k],
            self.k_par() ==> self.k_shapes(svs(xs)).len() == 1 && tvwf(self.k_acc()) && self.k_acc().s == self.k_shapes(svs(xs))[0];
    proof fn k_gwf(&self, xs: Seq<TV>, gys: Seq<TV>)
        requires self.k_inv(xs.len() as int), self.k_valid(svs(xs)), svs(gys) == self.k_shapes(svs(xs)), forall|p: int| 0 <= p < xs.len() ==> tvwf(#[trigger] xs[p]),
        ensures self.k_grads(xs, gys).len() == xs.len(), forall|p: int| 0 <= p < xs.len() ==> (#[trigger] self.k_grads(xs, gys)[p]).s == xs[p].s;
    fn k_forward_shape(&self, x: &[Shape], Ghost(ok): Ghost<bool>) -> (r: Vec<Shape>)
        requires self.k_inv(x@.len() as int), forall|k: int| 0 <= k < x@.len() ==> (#[trigger] x@[k]).wf(), ok ==> self.k_valid(shv(x@)),
        ensures self.k_valid(shv(x@)), r@.len() == self.k_shapes(shv(x@)).len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).wf() && r@[k].s() == self.k_shapes(shv(x@))[k];
    fn k_forward(&self, x: &[&Tensor], y: &mut Vec<Tensor>)
        requires self.k_inv(x@.len() as int), fulls(x@), self.k_valid(svs(tvs(x@))), old(y)@.len() == self.k_shapes(svs(tvs(x@))).len(),
            forall|k: int| 0 <= k < old(y)@.len() ==> (#[trigger] old(y)@[k]).wf() && !old(y)@[k].valid@ && old(y)@[k].shape.s() == self.k_shapes(svs(tvs(x@)))[k],
        ensures final(y)@.len() == self.k_eval(tvs(x@)).len(), forall|k: int| 0 <= k < final(y)@.len() ==> (#[trigger] final(y)@[k]).full() && final(y)@[k].v() == self.k_eval(tvs(x@))[k];
    fn k_backward(&mut self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &mut Cells)
        requires old(self).k_inv(x@.len() as int), fulls(x@), old(self).k_valid(svs(tvs(x@))), old(self).k_bw(svs(tvs(x@))), fulls(y@), fulls(gy@), tvs(y@) == old(self).k_eval(tvs(x@)),
            svs(tvs(gy@)) == old(self).k_shapes(svs(tvs(x@))), old(gx).fit(x@), old(self).k_par() ==> gy@.len() == 1 && old(self).k_acc().s == gy@[0].shape.s(),
        ensures old(gx).step(*final(gx), add_all(old(gx).tv(), old(gx).at(), old(self).k_grads(tvs(x@), tvs(gy@)), x@.len() as int)),
            final(self).k_par() == old(self).k_par(), old(self).k_par() ==> final(self).k_acc() == tv_add(old(self).k_acc(), gy@[0].v()), !old(self).k_par() ==> *final(self) == *old(self),
            final(self).k_inv(x@.len() as int) && forall|xs: Seq<TV>| #[trigger] final(self).k_eval(xs) == old(self).k_eval(xs);
}
pub proof fn lemma_two(m: Map<int, TV>, at: Seq<int>, ds: Seq<TV>)
    ensures add_all(m, at, ds, 0) == m, at.len() >= 1 && ds.len() >= 1 ==> add_all(m, at, ds, 1) == add_at(m, at[0], ds[0]),
        at.len() >= 2 && ds.len() >= 2 ==> add_all(m, at, ds, 2) == add_at(add_at(m, at[0], ds[0]), at[1], ds[1]),
{ reveal_with_fuel(add_all, 3); }
// each element of x is added to the element at its own place
pub proof fn lemma_gval_acc(x: TV, n: int, p: int)
    requires tvwf(x), 0 <= n <= sz(x.s), 0 <= p < sz(x.s),
    ensures acc(0.0real, ixb(x.s), |t: int| x.d[t], n, p) == (if p < n { x.d[p] } else { 0.0real }),
    decreases n,
{ if n > 0 { lemma_gval_acc(x, n - 1, p); bl_bix(x.s, n - 1); } }
pub proof fn lemma_gval(x: TV)
    requires tvwf(x),
    ensures G_val(x) == x,
{
    lemma_sz(x.s);
    assert forall|p: int| 0 <= p < sz(x.s) implies #[trigger] G_val(x).d[p] == x.d[p] by { lemma_gval_acc(x, sz(x.s), p); }
    assert(G_val(x).d =~= x.d);
}
// the trait object of an operator behaves as the operator does (dynamic dispatch, trusted)
#[verifier::external_body]
pub fn box_op<T: LinkOp>(t: T) -> (r: OBox)
    ensures forall|n: int| #[trigger] o_arity(r, n) == t.k_inv(n), forall|ss: Seq<SV>| #[trigger] o_valid(r, ss) == t.k_valid(ss), forall|ss: Seq<SV>| #[trigger] o_bwok(r, ss) == t.k_bw(ss), forall|ss: Seq<SV>| #[trigger] o_shapes(r, ss) == t.k_shapes(ss),
        forall|xs: Seq<TV>| #[trigger] o_eval(r, xs) == t.k_eval(xs), forall|xs: Seq<TV>, gys: Seq<TV>| #[trigger] o_grads(r, xs, gys) == t.k_grads(xs, gys), o_par(r) == t.k_par(), o_acc(r) == t.k_acc(),
{ unimplemented!() }
pub proof fn lemma_tr_sz(s: SV)
    requires svwf(s), matrix_s(s), svwf(s_transpose(s)),
    ensures sz(s_transpose(s)) == sz(s),
{
    let a = dm(s, 0); let b = dm(s, 1); let t = s_transpose(s);
    lemma_dims2(a, b); lemma_dims2(b, a);
    assert(s.d =~= dims2(a, b));
    assert(a * b == b * a) by (nonlinear_arith);
    lemma_sz(s); lemma_sz(t);
}
}
