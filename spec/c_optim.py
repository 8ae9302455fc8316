"""Parameters and optimizers."""
from tables import F, L, ST
U = "opt"
P12 = ["C12"]
ST("Parameter", [("value", "Tensor"), ("gradient", "Tensor"), ("stats", "Stats")], types={"HashMap<String,RefCell<Tensor<'dev>>>": "Stats", "HashMap<String, RefCell<Tensor<'dev>>>": "Stats"}, path="parameter::Parameter")
ATTR = {"SGD": ["eta"], "MomentumSGD": ["eta", "momentum"], "Adam": ["alpha", "beta1", "beta2", "eps"]}
MOD = {"SGD": "sgd", "MomentumSGD": "momentum_sgd", "Adam": "adam"}
BASE = ["epoch", "lr_scale", "l2_strength", "clip_threshold"]
for o, at in ATTR.items():
    ST(o, [("epoch", "u32")] + [(x, "f32") for x in BASE[1:] + at], path="optimizers::%s::%s" % (MOD[o], o))
for m in ("get_weight_decay", "get_learning_rate_scaling", "get_gradient_clipping"):
    L("Opt_" + m, ret="f32", method="Opt." + m)
L("Opt_epoch", ret="&mut u32", method="Opt.epoch", recv="&mut")
L("Opt_update_parameter", method="Opt.update_parameter")
L("Opt_configure_parameter", method="Opt.configure_parameter")

# ---- parameters
PP = "parameter::Parameter::"
P15 = ["C12", "C15"]
F(PP + "new", "Param_new", ["value", "gradient"], P15, U, ret="Parameter", path="Parameter::new", req="value.wf(), gradient.wf()",
  valid="value.shape.s().b == 1 && gradient.shape.s().b == 1", ens="r.value == value, r.gradient == gradient, r.stats@ == Map::<u64, Tensor>::empty()")
F(PP + "reset_gradient", "Param_reset_gradient", ["p"], P12, U, recv="&mut", method="Parameter.reset_gradient", req="old(p).gradient.wf()", valid="old(p).gradient.valid@",
  ens="final(p).value == old(p).value, final(p).stats == old(p).stats, final(p).gradient.full(), final(p).gradient.shape == old(p).gradient.shape, final(p).gradient.v() == V_const(old(p).gradient.shape.s(), 0.0real)")
F(PP + "add_stat", "Param_add_stat", ["p", "name", "shape"], P12, U, recv="&mut", method="Parameter.add_stat", req="shape.wf()", valid="!old(p).stats@.contains_key(name)",
  ens="final(p).value == old(p).value, final(p).gradient == old(p).gradient, final(p).stats@.dom() == old(p).stats@.dom().insert(name), forall|k: u64| k != name && #[trigger] old(p).stats@.contains_key(k) ==> final(p).stats@[k] == old(p).stats@[k], final(p).stats@[name].full(), final(p).stats@[name].shape == shape, final(p).stats@[name].v() == V_const(shape.s(), 0.0real)",
  end="proof { assert(p.stats@.dom() =~= old(p).stats@.dom().insert(name)); }")
F(PP + "has_stat", "Param_has_stat", ["p", "name"], P12, U, ret="bool", method="Parameter.has_stat", ens="r == p.stats@.contains_key(name)")
F(PP + "shape", "Param_shape", ["p"], P12, U, ret="Shape", method="Parameter.shape", ens="r == p.value.shape")

# ---- settings
for o, at in ATTR.items():
    K = "optimizers::%s::" % MOD[o]
    B = K + "<%s as OptimizerBase>::" % o
    rest = lambda but: ", ".join("final(o).%s == old(o).%s" % (x, x) for x in BASE + at if x != but)
    F(K + o + "::new", o + "_new", at, P12, U, ret=o, path=o + "::new", ens=", ".join(["r.epoch == 0", "r.lr_scale.v() == 1.0real", "r.l2_strength.v() == 0.0real", "r.clip_threshold.v() == 0.0real"] + ["r.%s == %s" % (x, x) for x in at]))
    F(B + "epoch", o + "_epoch", ["o"], P12, U, recv="&mut", ret="&mut u32", method=o + ".epoch", ens="*r == old(o).epoch, *final(r) == final(o).epoch, " + rest("epoch"))
    for m, f in (("learning_rate_scaling", "lr_scale"), ("weight_decay", "l2_strength"), ("gradient_clipping", "clip_threshold")):
        F(B + "get_" + m, "%s_get_%s" % (o, m), ["o"], P12, U, ret="f32", method="%s.get_%s" % (o, m), ens="r == o." + f)
        F(B + "set_" + m, "%s_set_%s" % (o, m), ["o", "x"], P12, U, recv="&mut", method="%s.set_%s" % (o, m), valid="x.v() >= 0.0real", ens="final(o).%s == x, " % f + rest(f))

# ---- steps
KEEP = "final(p).gradient == old(p).gradient, final(p).okv(), final(p).value.shape == old(p).value.shape, "
def step(o, names, ens, same, req="", nl=(), **kw):
    K = "optimizers::%s::<%s as Optimizer>::" % (MOD[o], o)
    F(K + "update_parameter", o + "_update_parameter", ["o", "scale", "p"], P12, U, req="old(p).okp(%s)" % names + req, 
      ens=KEEP + "final(p).okp(%s), same_stats(final(p).stats@, old(p).stats@, %s), " % (names, same) + ens, method=o + ".update_parameter", **kw)
    F(K + "configure_parameter", o + "_configure_parameter", ["o", "p"], P12, U, method=o + ".configure_parameter",
      req="old(p).okc(%s)" % names, start="let ghost p0 = *p;",
      end="proof { " + " ".join("assert(%s.contains(%s)); assert(p0.stats@.contains_key(%s) ==> p0.ok1(%s)); assert(p.ok1(%s));" % (names, n, n, n, n) for n in nl) + " }",
      ens="final(p).value == old(p).value, final(p).gradient == old(p).gradient, final(p).okp(%s), " % names +
      "forall|k: u64| #[trigger] old(p).stats@.contains_key(k) ==> final(p).stats@.contains_key(k) && final(p).stats@[k] == old(p).stats@[k], "
      "forall|k: u64| #[trigger] final(p).stats@.contains_key(k) ==> old(p).stats@.contains_key(k) || (%s.contains(k) && final(p).stats@[k].v() == V_const(old(p).value.shape.s(), 0.0real))" % names)
step("SGD", "names0()", "final(p).stats == old(p).stats, is_sgd(old(p).value.v(), old(p).gradient.v(), final(p).value.v(), scale.v() * o.eta.v())", "0, 0",
     start="proof { lemma_sgd(p.value.v(), p.gradient.v(), scale.v() * o.eta.v()); }")
step("MomentumSGD", "names1(M_M())", "is_mom(old(p).value.v(), old(p).gradient.v(), old(p).stats@[M_M()].v(), final(p).value.v(), final(p).stats@[M_M()].v(), scale.v() * o.eta.v(), o.momentum.v())", "M_M(), M_M()", nl=["M_M()"],
     start="proof { assert(names1(M_M()).contains(M_M())); assert(p.ok1(M_M())); lemma_mom(p.value.v(), p.gradient.v(), p.stats@[M_M()].v(), scale.v() * o.eta.v(), o.momentum.v()); }")
step("Adam", "names2(A_M1(), A_M2())", """is_adam_m(old(p).gradient.v(), old(p).stats@[A_M1()].v(), old(p).stats@[A_M2()].v(), final(p).stats@[A_M1()].v(), final(p).stats@[A_M2()].v(), o.beta1.v(), o.beta2.v()),
     is_adam_v(old(p).value.v(), final(p).stats@[A_M1()].v(), final(p).stats@[A_M2()].v(), final(p).value.v(), scale.v() * o.alpha.v(), o.beta1.v(), o.beta2.v(), o.eps.v(), (o.epoch + 1) as real)""", "A_M1(), A_M2()", nl=["A_M1()", "A_M2()"],
     req=", o.epoch < u32::MAX",
     start="proof { assert(names2(A_M1(), A_M2()).contains(A_M1()) && names2(A_M1(), A_M2()).contains(A_M2())); assert(p.ok1(A_M1()) && p.ok1(A_M2())); lemma_adam(p.value.v(), p.gradient.v(), p.stats@[A_M1()].v(), p.stats@[A_M2()].v(), scale.v() * o.alpha.v(), o.beta1.v(), o.beta2.v(), o.eps.v(), (o.epoch + 1) as real); }")

# ---- the default methods of the trait
O = "optimizer::trait Optimizer::"
F(O + "configure_parameters", "Opt_configure_parameters", ["o", "ps"], P12, U, self_kind="Opt", method="Opt.configure_parameters",
  req="forall|i: int| 0 <= i < old(ps)@.len() ==> (#[trigger] old(ps)@[i]).okc(o.names@)",
  ens="final(ps)@.len() == old(ps)@.len(), forall|i: int| 0 <= i < old(ps)@.len() ==> (#[trigger] final(ps)@[i]).okp(o.names@) && final(ps)@[i].value == old(ps)@[i].value && final(ps)@[i].gradient == old(ps)@[i].gradient",
  inv={0: "en0 == old(ps)@.len(), ps@.len() == en0, forall|i: int| 0 <= i < it0 ==> (#[trigger] ps@[i]).okp(o.names@) && ps@[i].value == old(ps)@[i].value && ps@[i].gradient == old(ps)@[i].gradient, forall|i: int| it0 <= i < en0 ==> (#[trigger] ps@[i]) == old(ps)@[i]"},
  head={0: "assert(ps@[it0 as int] == old(ps)@[it0 as int]);"})
SBG = "(%s.value == %s.value && %s.stats == %s.stats && %s.gradient.full() && %s.gradient.shape == %s.gradient.shape)" 
sbg = lambda a, b: SBG % (a, b, a, b, a, a, b)
ps = "ps@[i]"; p0 = "ps0[i]"
ALLD = "(forall|i: int| 0 <= i < en%d ==> (#[trigger] ps@[i]).gradient.v() == D[i] && " + sbg(ps, p0) + ")"
F(O + "update_parameters", "Opt_update_parameters", ["o", "ps"], P12, U, self_kind="Opt", recv="&mut", method="Opt.update_parameters",
  req="forall|i: int| 0 <= i < old(ps)@.len() ==> (#[trigger] old(ps)@[i]).okp(old(o).names@), old(o).epoch < u32::MAX",
  ens="""final(ps)@.len() == old(ps)@.len(),
    forall|i: int| 0 <= i < old(ps)@.len() ==> (#[trigger] final(ps)@[i]).okp(old(o).names@) && final(ps)@[i].value.shape == old(ps)@[i].value.shape
      && final(ps)@[i].gradient.v() == V_const(old(ps)@[i].gradient.shape.s(), 0.0real)
      && opt_step(*old(o), old(o).lr_scale.v(), old(ps)@[i].value.v(), used_grads(old(ps)@, old(o).l2_strength.v(), old(o).clip_threshold.v())[i], old(ps)@[i].stats@, final(ps)@[i].value.v(), final(ps)@[i].stats@),
    final(o).epoch == old(o).epoch + 1, final(o).lr_scale == old(o).lr_scale, final(o).l2_strength == old(o).l2_strength, final(o).clip_threshold == old(o).clip_threshold""",
  start="""let ghost ps0 = ps@; let ghost D = decayed(ps0, o.l2_strength.v()); let ghost K = clip_k(D, o.clip_threshold.v()); let ghost UG = used_grads(ps0, o.l2_strength.v(), o.clip_threshold.v());
    proof { assert forall|i: int| 0 <= i < ps0.len() implies tvwf(#[trigger] D[i]) && D[i].s == ps0[i].value.shape.s() && V_un(Op::MulC, D[i], 1.0real) == D[i] && UG[i] == V_un(Op::MulC, D[i], K) by {
        lemma_decay(ps0[i].value.v(), ps0[i].gradient.v(), o.l2_strength.v()); lemma_mul1(D[i]); } }""",
  inv={0: "en0 == ps0.len(), ps@.len() == en0, forall|i: int| 0 <= i < it0 ==> (#[trigger] ps@[i]).gradient.v() == D[i] && " + sbg(ps, p0) + ", forall|i: int| it0 <= i < en0 ==> (#[trigger] ps@[i]) == ps0[i]",
       1: "en1 == ps0.len(), ps@.len() == en1, " + ALLD % 1 + ", $R0.v() == gnorm2(D, it1 as int)",
       2: "en2 == ps0.len(), ps@.len() == en2, forall|i: int| it2 <= i < en2 ==> (#[trigger] ps@[i]).gradient.v() == D[i] && " + sbg(ps, p0) + ", forall|i: int| 0 <= i < it2 ==> (#[trigger] ps@[i]).gradient.v() == UG[i] && " + sbg(ps, p0),
       3: "en3 == ps0.len(), ps@.len() == en3, forall|i: int| it3 <= i < en3 ==> (#[trigger] ps@[i]).gradient.v() == UG[i] && " + sbg(ps, p0) +
          ", forall|i: int| 0 <= i < it3 ==> (#[trigger] ps@[i]).okp(o.names@) && ps@[i].value.shape == ps0[i].value.shape && ps@[i].gradient.v() == V_const(ps0[i].gradient.shape.s(), 0.0real) && opt_step(*o, o.lr_scale.v(), ps0[i].value.v(), UG[i], ps0[i].stats@, ps@[i].value.v(), ps@[i].stats@)"},
  pre={3: "proof { assert forall|i: int| 0 <= i < ps0.len() implies (#[trigger] ps@[i]).gradient.v() == UG[i] by { assert(tvwf(D[i])); } }"},
  head={0: "proof { let i = it0 as int; assert(ps0[i].okp(o.names@)); lemma_decay(ps0[i].value.v(), ps0[i].gradient.v(), o.l2_strength.v()); }",
        1: "proof { let i = it1 as int; assert(ps@[i].gradient.v() == D[i]); lemma_gnorm(D[i]); }",
        2: "proof { let i = it2 as int; assert(ps@[i].gradient.v() == D[i]); }",
        3: "proof { let i = it3 as int; assert(ps@[i].gradient.v() == UG[i]); assert(ps0[i].okp(o.names@)); assert(ps@[i].stats == ps0[i].stats); assert forall|k: u64| o.names@.contains(k) implies #[trigger] ps@[i].ok1(k) by { assert(ps0[i].ok1(k)); } }"})
