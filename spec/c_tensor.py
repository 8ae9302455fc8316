"""Functions and operators on tensors, copies, initial values."""
from tables import F, L
from c_elementwise import FP, key
from c_device import D, A, B
U = "ten"
TA = "functions::arithmetic::tensor::"
TBF = "functions::basic::tensor::<Tensor as BasicFunctions>::"
# ---- arithmetic operators, in every combination of owned and borrowed operands
OPS = (("Add", "add", "Add", "AddC", "AddC"), ("Sub", "sub", "Sub", "SubCR", "SubCL"), ("Mul", "mul", "Mul", "MulC", "MulC"), ("Div", "div", "Div", "DivCR", "DivCL"))
VT = "a.valid@ && b.valid@ && valid_ar(a.shape.s(), b.shape.s())"
for tr, m, op, cr, cl in OPS:
    for i, (l, r) in enumerate((("&Tensor", "&Tensor"), ("&Tensor", "Tensor"), ("Tensor", "&Tensor"), ("Tensor", "Tensor"))):
        F(TA + "<%s as %s<%s>>::%s" % (l, tr, r, m), "t_%s%d" % (m, i), ["a", "b"], ["C05", "C02"], U, ret="Tensor", ops=["%s %s %s" % (l, m, r)],
          req="a.wf(), b.wf()", valid=VT, ens="r.full(), r.v() == V_ar(Op::%s, a.v(), b.v())" % op)
    for i, (l, r) in enumerate((("&Tensor", "&f32"), ("&Tensor", "f32"), ("Tensor", "&f32"), ("Tensor", "f32"))):
        F(TA + "<%s as %s<%s>>::%s" % (l, tr, r, m), "t_%sc%d" % (m, i), ["a", "k"], ["C05", "C02"], U, ret="Tensor", ops=["%s %s %s" % (l, m, r.replace("f32", "R"))],
          req="a.wf()", valid="a.valid@", ens="r.full(), r.v() == V_un(Op::%s, a.v(), k.v())" % cr)
        F(TA + "<%s as %s<%s>>::%s" % (r, tr, l, m), "t_c%s%d" % (m, i), ["k", "a"], ["C05", "C02"], U, ret="Tensor", ops=["%s %s %s" % (r.replace("f32", "R"), m, l)],
          req="a.wf()", valid="a.valid@", ens="r.full(), r.v() == V_un(Op::%s, a.v(), k.v())" % cl)
for i, l in enumerate(("&Tensor", "Tensor")):
    F(TA + "<%s as Neg>::neg" % l, "t_neg%d" % i, ["a"], ["C05", "C02"], U, ret="Tensor", ops=["neg " + l], req="a.wf()", valid="a.valid@",
      ens="r.full(), r.v() == V_un(Op::Neg, a.v(), 0.0real)")
F(TA + "<Tensor as MulAssign<f32>>::mul_assign", "t_mul_assign", ["x", "k"], ["C17", "C04"], U, ops=["Tensor mul_assign R"], req="old(x).wf()", valid="old(x).valid@",
  ens="final(x).full(), final(x).shape == old(x).shape, final(x).v() == V_un(Op::MulC, old(x).v(), k.v())")

# ---- named functions
def T(name, params, props, ens, ret="Tensor", valid="", req="", **kw):
    F(TBF + name, "t_" + name, ["x"] + params, props, U, ret=ret, method="Tensor." + name, req=", ".join(["x.wf()"] + ([req] if req else [])),
      valid=" && ".join(["x.valid@"] + ([valid] if valid else [])), ens=("r.full(), r.v() == " + ens) if ret == "Tensor" else ens, **kw)
Q5, Q7, Q8, Q9 = ["C05", "C02"], ["C07", "C02"], ["C08", "C02"], ["C09", "C02"]
F(TBF + "shape", "t_shape", ["x"], ["C02"], U, ret="Shape", method="Tensor.shape", req="x.wf()", ens="r == x.shape, r.wf()")
for n in ("sqrt", "abs", "sin", "cos", "tan", "exp", "ln", "tanh", "sigmoid", "softplus"):
    T(n, [], Q5, "V_un(Op::%s, x.v(), 0.0real)" % n.capitalize())
T("powf", ["k"], Q5, "V_un(Op::PowCR, x.v(), k.v())")
T("powi", ["k"], Q5, "V_un(Op::Powi(k as int), x.v(), 0.0real)")
T("relu", [], Q5, "V_un(Op::PRelu, x.v(), 0.0real)")
T("lrelu", [], Q5, "V_un(Op::PRelu, x.v(), 0.01real)")
T("prelu", ["k"], Q5, "V_un(Op::PRelu, x.v(), k.v())")
T("elu", ["k"], Q5, "V_un(Op::Elu, x.v(), k.v())")
T("pow", ["k"], Q5, "V_ar(Op::Pow, x.v(), k.v())", req="k.wf()", valid="k.valid@ && valid_ar(x.shape.s(), k.shape.s())")
for n, R in (("sum", "Sum"), ("max", "Max"), ("min", "Min"), ("logsumexp", "Lse")):
    T(n, ["dim"], Q7, "V_red(Red::%s, x.v(), dim as int)" % R, valid="dim < 8")
T("broadcast", ["dim", "size"], Q7, "V_broadcast(x.v(), dim as int, size as int)", valid="valid_broadcast(x.shape.s(), dim as int, size as int)")
LS = "proof { if dim < 8 { lemma_lsm(x.v(), dim as int); } }"
T("ln_softmax", ["dim"], Q7, "V_lsm(x.v(), dim as int)", valid="dim < 8", start=LS)
T("softmax", ["dim"], Q7, "V_sm(x.v(), dim as int)", valid="dim < 8", start=LS)
T("softmax_cross_entropy", ["t", "dim"], Q7, "V_sce(x.v(), t.v(), dim as int)", req="t.wf()", valid="dim < 8 && t.valid@ && valid_ar(t.shape.s(), x.shape.s())", start=LS)
T("sparse_softmax_cross_entropy", ["ids", "dim"], Q7, "V_ssce(x.v(), ids@, dim as int)", req="ids@.len() <= U32M()", valid="valid_pick(x.shape.s(), ids@, dim as int)", start=LS)
T("batch_sum", [], Q7, "V_batch_sum(x.v())")
for n in ("argmax", "argmin"):
    T(n, ["dim"], Q7, "r@.len() == sz(x.shape.s()) / dm(x.shape.s(), dim as int), forall|i: int| 0 <= i < r@.len() ==> is_%s(x.buf@, rbase(i, LL, NN), LL, NN, #[trigger] r@[i] as int)".replace("LL", "low(x.shape.s(), dim as int)").replace("NN", "dm(x.shape.s(), dim as int)") % n, ret="Vec<u32>")
T("matmul", ["b"], Q8, "V_matmul(x.v(), b.v())", req="b.wf()", valid="b.valid@ && valid_matmul(x.shape.s(), b.shape.s())")
T("transpose", [], Q8, "V_transpose(x.v())", valid="matrix_s(x.shape.s())")
for n, l in (("triangular_l", "true"), ("triangular_u", "false")):
    T(n, ["k"], Q8, "V_tri(%s, x.v(), k as int)" % l, valid="valid_tri(x.shape.s())")
T("slice", ["dim", "lower", "upper"], Q9, "V_slice(x.v(), dim as int, lower as int, upper as int)", valid="valid_slice(x.shape.s(), dim as int, lower as int, upper as int)")
T("pick", ["ids", "dim"], Q9, "V_pick(x.v(), ids@, dim as int)", req="ids@.len() <= U32M()", valid="valid_pick(x.shape.s(), ids@, dim as int)")
T("batch_slice", ["lower", "upper"], Q9, "V_bslice(x.v(), lower as int, upper as int)", valid="valid_batch_slice(x.shape.s(), lower as int, upper as int)")
T("batch_pick", ["ids"], Q9, "V_bpick(x.v(), ids@)", req="ids@.len() <= U32M()", valid="valid_batch_pick(x.shape.s(), ids@)")
CREQ = "forall|i: int| 0 <= i < xs@.len() ==> (#[trigger] xs@[i]).wf()"
CV = "(forall|i: int| 0 <= i < xs@.len() ==> (#[trigger] xs@[i]).valid@)"
F(TBF + "concat", "t_concat", ["xs", "dim"], Q9, U, ret="Tensor", path="Tensor::concat", req="xs@.len() >= 1, " + CREQ, valid=CV + " && valid_concat(svs(tvs(xs@)), dim as int)",
  ens="r.full(), r.v() == V_concat(tvs(xs@), dim as int)")
F(TBF + "batch_concat", "t_batch_concat", ["xs"], Q9, U, ret="Tensor", path="Tensor::batch_concat", req=CREQ, valid=CV + " && valid_bconcat(svs(tvs(xs@)))",
  ens="r.full(), r.v() == V_bconcat(tvs(xs@))")
# n equal parts, in order
for nm, ps, tot, val in (("split", ["dim", "n"], "dm(x.shape.s(), dim as int)", "V_slice(x.v(), dim as int, %s, %s)"), ("batch_split", ["n"], "x.shape.s().b", "V_bslice(x.v(), %s, %s)")):
    part = val % ("i * (%s / (n as int))" % tot, "(i + 1) * (%s / (n as int))" % tot)
    F(TBF + nm, "t_" + nm, ["x"] + ps, Q9, U, ret="Vec<Tensor>", method="Tensor." + nm, req="x.wf()", lenient=True,
      valid="x.valid@ && n >= 1 && %s %% (n as int) == 0%s" % (tot, " && dim < 8" if nm == "split" else ""),
      ens="n >= 1, %s %% (n as int) == 0, r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).full() && r@[i].v() == %s" % (tot, part),
      start="proof { lemma_sz(x.shape.s()); if n >= 1 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(%s, n as int); } let k = %s / (n as int); assert(n * k == k * n) by (nonlinear_arith); if ok { assert(k >= 1) by (nonlinear_arith) requires n * k == %s, %s >= 1, n >= 1; } }" % (tot, tot, tot, tot),
      inv={0: "en0 == n, $vec0@.len() == it0, n >= 1, it0 > 0 ==> x.valid@%s, forall|i: int| 0 <= i < it0 ==> (#[trigger] $vec0@[i]).full() && $vec0@[i].v() == %s" % (" && dim < 8" if nm == "split" else "", part)},
      body={0: "proof { let i = it0 - 1; let k = %s / (n as int); assert(i * k >= 0 && (i + 1) * k == i * k + k && (i + 1) * k <= n * k && i * k <= n * k && k * n == n * k) by (nonlinear_arith) requires 0 <= i < n, k >= 0; }" % tot},
      end="proof { if n >= 1 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(%s, n as int); let k = %s / (n as int); assert(n * k == k * n) by (nonlinear_arith); } }" % (tot, tot))
F("tensor::Tensor::update_shape", "Tensor_update_shape", ["t", "shape"], ["C08", "C02", "C04"], U, recv="&mut", method="Tensor.update_shape", req="old(t).wf(), shape.wf()",
  valid="sz(shape.s()) == sz(old(t).shape.s())", ens="final(t).wf(), final(t).shape == shape, final(t).buf@ == old(t).buf@, final(t).valid == old(t).valid")
T("reshape", ["shape"], Q8, "V_reshape(x.v(), shape.s())", req="shape.wf()", valid="sz(shape.s()) == sz(x.shape.s())")
T("flatten", [], Q8, "V_reshape(x.v(), s_flat(x.shape.s()))", start="proof { lemma_flat(x.shape.s()); }")
T("to_vec", [], ["C17", "C04"], "r@.len() == x.buf@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).v() == x.buf@[i]", ret="Vec<f32>")
T("to_float", [], ["C17", "C04"], "r.v() == x.buf@[0]", ret="f32", valid="sz(x.shape.s()) == 1")

# ---- setting, copying and reading whole tensors
P17 = ["C17", "C16", "C04"]
OUT = "final(y0).full(), final(y0).shape == old(y0).shape, "
def rs(mod, cls, name, val, req="", xs=""):
    F(key(mod, cls, "Fw"), "k_" + name, FP, P17, U, kernel="%s::%s" % (mod, cls), req="old(y0).wf()" + req, valid="old(y0).valid@" + xs,
      ens=OUT + "forall|i: int| 0 <= i < final(y0).buf@.len() ==> #[trigger] final(y0).buf@[i] == %s" % (val % "i"),
      inv={0: "y0.full(), y0.shape == old(y0).shape, en0 == sz(y0.shape.s()), forall|i: int| 0 <= i < it0 ==> #[trigger] y0.buf@[i] == %s" % (val % "i")})
from tables import FNS
rs("reset_tensor", "ResetTensorByTensorImpl", "reset_tensor_by_tensor", "xs[0].buf@[%s]", req=", xs@.len() >= 1, xs[0].wf(), sz(xs[0].shape.s()) == sz(old(y0).shape.s())", xs=" && xs[0].valid@")
DV = "device::Device::"
D(DV, "reset_tensor", ["x", "k"], P17, req="old(x).wf()", valid="old(x).valid@", ens="final(x).full(), final(x).shape == old(x).shape, final(x).v() == V_const(old(x).shape.s(), k.v())",
  end="proof { assert(x.v().d =~= V_const(x.shape.s(), k.v()).d); }")
D(DV, "reset_tensor_by_slice", ["x", "values"], P17, req="old(x).wf()", valid="old(x).valid@ && values@.len() == sz(old(x).shape.s())",
  ens="final(x).full(), final(x).shape == old(x).shape, forall|i: int| 0 <= i < final(x).buf@.len() ==> #[trigger] final(x).buf@[i] == values@[i].v()")
D(DV, "reset_tensor_by_tensor", ["x", "source"], P17, req="old(x).wf(), source.wf()", valid="old(x).valid@ && source.valid@ && sz(source.shape.s()) == sz(old(x).shape.s())",
  ens="final(x).full(), final(x).shape == old(x).shape, final(x).buf@ == source.buf@", end="proof { assert(x.buf@ =~= source.buf@); }")
D(DV, "new_tensor_by_constant", ["shape", "k"], P17, "Tensor", req="shape.wf()", valid="true", ens="r.full(), r.shape == shape, r.v() == V_const(shape.s(), k.v())")
D(DV, "new_tensor_by_slice", ["shape", "values"], P17, "Tensor", req="shape.wf()", valid="values@.len() == sz(shape.s())",
  ens="r.full(), r.shape == shape, forall|i: int| 0 <= i < r.buf@.len() ==> #[trigger] r.buf@[i] == values@[i].v()")
D(DV, "copy_tensor", ["source"], P17, "Tensor", req="source.wf()", valid="source.valid@", ens="r.full(), r.shape == source.shape, r.buf@ == source.buf@")
D(DV, "tensor_to_vector", ["x"], P17, "Vec<f32>", req="x.wf()", valid="x.valid@", ens="r@.len() == x.buf@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).v() == x.buf@[i]",
  start="proof { lemma_sz(x.shape.s()); }")
D(DV, "tensor_to_float", ["x"], P17, "f32", req="x.wf()", valid="x.valid@ && sz(x.shape.s()) == 1", ens="r.v() == x.buf@[0]")
for e in ("d_reset_tensor", "d_reset_tensor_by_slice", "d_reset_tensor_by_tensor", "d_new_tensor_by_constant", "d_new_tensor_by_slice", "d_copy_tensor", "d_tensor_to_vector", "d_tensor_to_float"):
    FNS[e]["unit"] = U
F("tensor::Tensor::reset", "Tensor_reset", ["x", "k"], P17, U, recv="&mut", method="Tensor.reset", req="old(x).wf()", valid="old(x).valid@",
  ens="final(x).full(), final(x).shape == old(x).shape, final(x).v() == V_const(old(x).shape.s(), k.v())")
