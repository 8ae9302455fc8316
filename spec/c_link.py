"""Every operator of the library refines what the graph relies on (lib_link.rs, trait LinkOp)."""
import re
from tables import F
import c_op
U = "link"
def impl(name, st, n, kreq, valid, bw, shapes, ev, grads, par="false", acc="TV { s: SV { d: Seq::empty(), b: 0 }, d: Seq::empty() }", mut=False, wf="", gwf="", sh="", fw="", bwp="", bwe=""):
    t = """impl LinkOp for %s {
    open spec fn k_inv(&self, n: int) -> bool { %s }
    open spec fn k_valid(&self, ss: Seq<SV>) -> bool { %s }
    open spec fn k_bw(&self, ss: Seq<SV>) -> bool { %s }
    open spec fn k_shapes(&self, ss: Seq<SV>) -> Seq<SV> { %s }
    open spec fn k_eval(&self, xs: Seq<TV>) -> Seq<TV> { let ss = svs(xs); %s }
    open spec fn k_grads(&self, xs: Seq<TV>, gys: Seq<TV>) -> Seq<TV> { let ss = svs(xs); %s }
    open spec fn k_par(&self) -> bool { %s }
    open spec fn k_acc(&self) -> TV { %s }
    proof fn k_wf(&self, xs: Seq<TV>) { let ss = svs(xs); %s }
    proof fn k_gwf(&self, xs: Seq<TV>, gys: Seq<TV>) { let ss = svs(xs); %s }
    fn k_forward_shape(&self, x: &[Shape], Ghost(ok): Ghost<bool>) -> (r: Vec<Shape>) { %s %s_shape(self, x, Ghost(ok)) }
    fn k_forward(&self, x: &[&Tensor], y: &mut Vec<Tensor>) { %s %s_fw(self, x, y); }
    fn k_backward(&mut self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &mut Cells) { %s %s_bw(self, x, y, gy, gx); %s }
}
""" % (st, kreq, valid, bw, shapes, ev, grads, par, acc, wf, gwf, sh, name, fw, name, bwp, name, bwe)
    F("link::" + name, "link_" + name, [], ["C10", "C11"], U, link=t, deps=[name + "_shape", name + "_fw", name + "_bw"])
def me(t):
    return re.sub(r"\bo\.", "self.", t)
def over(t, how):
    return re.sub(r"\b([sxyg])(\d)\b", lambda m: "(" + how[m.group(1)] % int(m.group(2)) + ")", t)
WF = {"Transpose": " lemma_tr_sz(xs[0].s);"}
GWF = {"Broadcast": "lemma_sz(xs[0].s); assert(gys.len() == svs(gys).len()); assert(svs(gys)[0] == gys[0].s); assert(s_dim(s_dim(ss[0], self.dim as int, self.size as int), self.dim as int, 1).d =~= ss[0].d);"}
for name, o in c_op.OPS.items():
    how = {"s": "ss[%d]", "x": "xs[%d]", "g": "gys[%d]", "y": "self.k_eval(xs)[%d]"}
    n = o["n"]
    lem = "".join("lemma_sz(x@[%d].shape.s()); " % i for i in range(n))
    al = "let ss = svs(tvs(x@)); " + "".join("assert(x@[%d].full() && tvs(x@)[%d] == x@[%d].v() && ss[%d] == x@[%d].shape.s()); " % ((i,) * 5) for i in range(n))
    impl(name, "O_" + name, n, "n == %d" % n + (" && " + me(o["kreq"]) if o["kreq"] else ""), me(over(o["valid"], how)) or "true",
         me(over(o["bw_req"].replace(", mx", " && mx").replace("gy@[0].shape.s()", "self.k_shapes(ss)[0]"), how)) or "true", "seq![%s]" % me(over(o["S"], how)), "seq![%s]" % me(over(o["V"], how)),
         "seq![%s]" % ", ".join(me(over(d, how)) for d in o["Ds"]),
         wf="".join("lemma_sz(xs[%d].s); " % i for i in range(n)) + "lemma_sz(self.k_shapes(ss)[0]);" + WF.get(name, ""), gwf=GWF.get(name, ""), sh="proof { let ss = shv(x@); %s}" % "".join("assert(x@[%d].wf() && ss[%d] == x@[%d].s()); " % (i, i, i) for i in range(n)),
         fw="proof { %sassert(old(y)@[0].wf()); }" % al, bwp="let ghost g0_ = *gx; proof { %sassert(y@.len() == tvs(y@).len() && self.k_eval(tvs(x@)).len() == 1 && gy@.len() == svs(tvs(gy@)).len()); assert(y@[0].full() && tvs(y@)[0] == y@[0].v()); assert(gy@[0].full() && tvs(gy@)[0] == gy@[0].v() && svs(tvs(gy@))[0] == gy@[0].shape.s()); lemma_two(gx.tv(), gx.at(), self.k_grads(tvs(x@), tvs(gy@))); }" % al)

# ---- several operands or results
for name, dim in (("Concat", "self.dim as int"), ("BatchConcat", "")):
    d = ", " + dim if dim else ""
    b = "" if dim else "b"
    impl(name, "O_" + name, 0, "n >= 1", "valid_%sconcat(ss%s)" % (b, d), "true", "seq![s_%sconcat(ss%s)]" % (b, d), "seq![V_%sconcat(xs%s)]" % (b, d),
         "G_%scat(xs, gys[0]%s, xs.len() as int)" % (b, d),
         wf="lemma_sz(xs[0].s); lemma_sz(self.k_shapes(ss)[0]);", sh="",
         fw="proof { assert(old(y)@[0].wf()); }", bwp="proof { assert(y@.len() == tvs(y@).len() && self.k_eval(tvs(x@)).len() == 1 && gy@.len() == svs(tvs(gy@)).len()); assert(y@[0].full() && tvs(y@)[0] == y@[0].v()); assert(gy@[0].full() && tvs(gy@)[0] == gy@[0].v() && svs(tvs(gy@))[0] == gy@[0].shape.s()); }")
for name, dim, tot, ws, sl in (("Split", "self.dim as int, ", "dm(ss[0], self.dim as int)", "s_dim(ss[0], self.dim as int, %s)", "V_slice(xs[0], self.dim as int, %s, %s)"),
                       ("BatchSplit", "", "ss[0].b", "s_batch(ss[0], %s)", "V_bslice(xs[0], %s, %s)")):
    b = "" if dim else "b"
    k = "(%s / (self.n as int))" % tot
    al = "let ss = svs(tvs(x@)); assert(x@[0].full() && tvs(x@)[0] == x@[0].v() && ss[0] == x@[0].shape.s());"
    impl(name, "O_" + name, 1, "n == 1", "self.n >= 1 && %s %% (self.n as int) == 0%s" % (tot, " && self.dim < 8" if dim else ""), "true",
         "Seq::new(self.n as nat, |i: int| %s)" % (ws % k), "Seq::new(self.n as nat, |i: int| %s)" % (sl % ("i * " + k, "(i + 1) * " + k)), "seq![G_%ssplit(xs[0].s, gys, %s%s, self.n as int)]" % (b, dim, k),
         wf="let ev = self.k_eval(xs); let kk = %s; assert forall|i: int| 0 <= i < ev.len() implies tvwf(#[trigger] ev[i]) && ev[i].s == self.k_shapes(ss)[i] by { assert((i + 1) * kk - i * kk == kk) by (nonlinear_arith); assert(svwf(self.k_shapes(ss)[i])); lemma_sz(self.k_shapes(ss)[i]); }" % k, gwf="bl_%ssplit_s(xs[0].s, gys, %s%s, self.n as int);" % (b, dim, k), sh="proof { let ss = shv(x@); assert(x@[0].wf() && ss[0] == x@[0].s()); }",
         fw="proof { %s assert forall|i: int| 0 <= i < self.n implies (#[trigger] old(y)@[i]).wf() && !old(y)@[i].valid@ && old(y)@[i].shape.s() == self.k_shapes(ss)[i] by {} }" % al,
         bwp="proof { %s assert(gy@.len() == svs(tvs(gy@)).len()); assert forall|i: int| 0 <= i < self.n implies (#[trigger] gy@[i]).shape.s() == self.k_shapes(ss)[i] by { assert(svs(tvs(gy@))[i] == gy@[i].shape.s()); } lemma_two(gx.tv(), gx.at(), self.k_grads(tvs(x@), tvs(gy@))); }" % al)
# ---- constants and parameters
for name, st in (("Input", "O_Input"), ("InputOwner", "O_InputOwner"), ("ParamOp", "O_Parameter")):
    par = name == "ParamOp"
    impl(name, st, 0, "n == 0 && self.value.full()" + (" && self.gradient.full() && self.gradient.shape.s() == self.value.shape.s()" if par else ""), "true", "true", "seq![self.value.shape.s()]", "seq![self.value.v()]", "Seq::<TV>::empty()",
         **(dict(par="true", acc="self.gradient.v()") if par else {}), fw="proof { assert(old(y)@[0].wf()); }",
         bwp="let ghost g0_ = *gx; proof { assert(add_all(gx.tv(), gx.at(), self.k_grads(tvs(x@), tvs(gy@)), 0) == gx.tv()); }" + (" proof { assert(gy@.len() == svs(tvs(gy@)).len()); assert(gy@[0].full() && tvs(gy@)[0] == gy@[0].v() && svs(tvs(gy@))[0] == gy@[0].shape.s()); lemma_gval(gy@[0].v()); }" if par else ""),
         bwe="")
F("link::create", "link_create", [], ["C10", "C11"], U, deps=["g_create"], link="""// Node::create of one of the library's operators
pub fn link_create<T: LinkOp>(h: &mut Heap, t: T, ns: &[&GNode], Ghost(ok): Ghost<bool>) -> (r: Vec<GNode>)
    requires hwf(old(h).g()), noks(old(h).g(), ns@), t.k_inv(ns@.len() as int), ok ==> t.k_valid(nshapes(old(h).g(), ns@)),
    ensures t.k_valid(nshapes(old(h).g(), ns@)), hwf(final(h).g()), r@.len() == t.k_eval(nvals(old(h).g(), ns@)).len(),
        forall|k: int| 0 <= k < r@.len() ==> nok(final(h).g(), #[trigger] r@[k]) && nval(final(h).g(), r@[k]) == t.k_eval(nvals(old(h).g(), ns@))[k],
{
    let b = box_op(t);
    g_create(h, b, ns, Ghost(ok))
}
""")
