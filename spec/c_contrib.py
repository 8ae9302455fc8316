"""Contributed functions, random tensors and initializers."""
from tables import F, L, ST
from c_elementwise import FP, key
U = "con"
P = ["C16", "C18", "C04"]
CT = "functions::contrib::tensor::<Tensor as ContribFunctions>::"
# ---- random tensors: the whole result is drawn with the given parameters
for n, cls, ps, val, what in (
        ("bernoulli", "RandomBernoulliImpl", ["p"], "0.0real <= %s <= 1.0real", "all01({t}.v()), %s == 1.0real ==> {t}.v() == V_const({t}.shape.s(), 1.0real), %s == 0.0real ==> {t}.v() == V_const({t}.shape.s(), 0.0real)"),
        ("normal", "RandomNormalImpl", ["mean", "sd"], "0.0real <= {1}", "all_normal({{t}}.v(), {0}, {1})"),
        ("uniform", "RandomUniformImpl", ["lower", "upper"], "{0} < {1}", "all_in({{t}}.v(), {0}, {1})")):
    def sub(s, a):
        s = s.replace("%s", a[0]) if "%s" in s else s.format(*a)
        return s
    ka = ["f32data@[%d].v()" % i for i in range(len(ps))]
    F(key("random", cls, "Fw"), "k_random_" + n, FP, P, U, kernel="random::" + cls, req="old(y0).wf(), f32data@.len() >= %d" % len(ps),
      valid="old(y0).valid@ && " + sub(val, ka), ens="final(y0).full(), final(y0).shape == old(y0).shape, " + sub(what, ka).format(t="final(y0)"),
      start="proof { lemma_sz(y0.shape.s()); }",
      end=("proof { if %s == 1.0real { assert(y0.v().d =~= V_const(y0.shape.s(), 1.0real).d); } if %s == 0.0real { assert(y0.v().d =~= V_const(y0.shape.s(), 0.0real).d); } }" % (ka[0], ka[0])) if n == "bernoulli" else "")
    da = [p + ".v()" for p in ps]
    F("functions::random::device::<Device as RandomDeviceFunctions>::random_" + n, "d_random_" + n, ["-", "shape"] + ps, P, U, ret="Tensor", recv="&", method="Device.random_" + n,
      req="shape.wf()", valid=sub(val, da), ens="r.full(), r.shape == shape, " + sub(what, da).format(t="r"))

# ---- initializers
ST("Constant", [("k", "f32")])
ST("Normal", [("mean", "f32"), ("sd", "f32")])
ST("Uniform", [("lower", "f32"), ("upper", "f32")])
ST("XavierUniform", [("scale", "f32")])
L("Tensor_replace", method="Tensor.replace", ok=True, recv="&mut")
I = ["C16", "C14"]
for mod, cls, ps, ens, val in (
        ("constant", "Constant", ["k"], "final(x).v() == V_const(old(x).shape.s(), i.k.v())", ""),
        ("normal", "Normal", ["mean", "sd"], "all_normal(final(x).v(), i.mean.v(), i.sd.v())", " && i.sd.v() >= 0.0real"),
        ("uniform", "Uniform", ["lower", "upper"], "all_in(final(x).v(), i.lower.v(), i.upper.v())", " && i.lower.v() < i.upper.v()"),
        ("xavier_uniform", "XavierUniform", ["scale"], "all_in(final(x).v(), -xavier(i.scale.v(), old(x).shape.s()), xavier(i.scale.v(), old(x).shape.s()))",
         " && matrix_s(old(x).shape.s()) && old(x).shape.s().d[0] + old(x).shape.s().d[1] <= U32M() && xavier(i.scale.v(), old(x).shape.s()) > 0.0real")):
    F("initializers::%s::%s::new" % (mod, cls), cls + "_new", ps, I, U, ret=cls, path=cls + "::new", ens=", ".join("r.%s == %s" % (p, p) for p in ps))
    F("initializers::%s::<%s as Initializer>::apply" % (mod, cls), cls + "_apply", ["i", "x"], I, U, recv="&", method=cls + ".apply", lenient=True,
      req="old(x).wf()", valid="!old(x).valid@" + val, ens="final(x).full(), final(x).shape == old(x).shape, " + ens)

# ---- contrib
def C(name, params, ens, valid="", req="", **kw):
    F(CT + name, "c_" + name, ["x"] + params, ["C18"], U, ret="Tensor", method="Tensor." + name, req=", ".join(["x.wf()"] + ([req] if req else [])),
      valid=" && ".join(["x.valid@"] + ([valid] if valid else [])), ens="r.full(), " + ens, **kw)
C("mean", ["dim"], "r.v() == V_mean(x.v(), dim as int)", "dim < 8")
C("batch_mean", [], "r.v() == V_bmean(x.v())")
DR = "(!enabled ==> r.v() == x.v()), (enabled && rate.v() >= 1.0real ==> r.v() == V_const(x.shape.s(), 0.0real)), "
DS = "proof { lemma_scale01(x.v()); }"
C("dropout", ["rate", "enabled"], DR + "enabled && rate.v() < 1.0real ==> is_dropout(x.v(), r.v(), 1.0real - rate.v()), enabled && rate.v() == 0.0real ==> r.v() == x.v()",
  "(enabled ==> rate.v() >= 0.0real)", start=DS + "proof { lemma_dropout(x.v(), 1.0real - rate.v()); }")
C("dropout_dim", ["dim", "rate", "enabled"], DR + "enabled && rate.v() < 1.0real ==> dim < 8 && is_dropout_dim(x.v(), r.v(), dim as int, 1.0real - rate.v())",
  "(enabled ==> rate.v() >= 0.0real && (rate.v() < 1.0real ==> dim < 8))", start=DS + "proof { if dim < 8 { lemma_drop_line(x.v(), dim as int, 1.0real - rate.v()); } }")
F(CT + "slice_sum", "c_slice_sum", ["xs"], ["C18"], U, ret="Tensor", path="Tensor::slice_sum", req="forall|i: int| 0 <= i < xs@.len() ==> (#[trigger] xs@[i]).wf()",
  valid="(forall|i: int| 0 <= i < xs@.len() ==> (#[trigger] xs@[i]).valid@) && valid_ssum(svs(tvs(xs@)))", ens="r.full(), r.v() == V_ssum(tvs(xs@), xs@.len() as int)",
  inv={0: "en0 == xs@.len(), en0 >= 1, it0 == 0 ==> xs@.len() >= 1, forall|i: int| 0 <= i < it0 ==> (#[trigger] xs@[i]).valid@, forall|n: int| 0 <= n < it0 ==> valid_ar(#[trigger] s_ssum(svs(tvs(xs@)), n), svs(tvs(xs@))[n]), $tensor0.full(), $tensor0.v() == V_ssum(tvs(xs@), it0 as int), $tensor0.shape.s() == s_ssum(svs(tvs(xs@)), it0 as int)"})
C("batch_normalization", ["g", "b", "eps", "enabled"], "(!enabled ==> r.v() == x.v()), enabled ==> r.v() == V_bnorm(x.v(), g.v(), b.v(), eps.v())",
  "(enabled ==> g.valid@ && b.valid@ && valid_norm(x.shape.s(), g.shape.s(), b.shape.s()))", "g.wf(), b.wf()", start=DS)
C("layer_normalization", ["g", "b", "eps"], "r.v() == V_lnorm(x.v(), g.v(), b.v(), eps.v())", "g.valid@ && b.valid@ && valid_norm(x.shape.s(), g.shape.s(), b.shape.s())", "g.wf(), b.wf()", start="proof { lemma_lnorm(x.v()); }")
