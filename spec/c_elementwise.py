"""Elementwise kernels of the naive device."""
from tables import F
U = "ew"
FP = ["xs", "u32data", "f32data", "y0"]
BP = ["xs", "ys", "gys", "u32data", "f32data", "gx"]
P5, P6 = ["C05", "C04"], ["C06", "C04"]

def key(mod, cls, t):
    return "devices::naive::%s::<%s as Function%sImpl>::call" % (mod, cls, t)

XFULL = "xs[0].full()"
def un(mod, cls, name, op, const=False, bw=True, bwcls=None, start_fw="", start_bw="", body_fw="", u32=False, bwname=None, body_bw="", yval=True, req_bw=""):
    k = "f32data@[0].v()" if const else "0.0real"
    kreq = ", f32data@.len() >= 1" if const else ""
    if u32:
        kreq += ", u32data@.len() >= 1"
    F(key(mod, cls, "Fw"), "k_" + name + "_fw", FP, P5, U, kernel="%s::%s" % (mod, cls),
      req="xs@.len() >= 1, xs[0].wf(), old(y0).wf(), xs[0].shape.s() == old(y0).shape.s()" + kreq,
      valid="xs[0].valid@ && old(y0).valid@",
      ens="final(y0).full(), final(y0).shape == old(y0).shape, final(y0).v() == V_un(%s, xs[0].v(), %s)" % (op, k),
      start=start_fw,
      inv={0: """y0.full(), y0.shape == old(y0).shape, xs[0].full(), en0 == sz(y0.shape.s()),
             forall|t: int| 0 <= t < it0 ==> #[trigger] y0.buf@[t] == f1(%s, xs[0].buf@[t], %s)""" % (op, k)},
      body={0: body_fw},
      end="proof { assert(y0.v().d =~= V_un(%s, xs[0].v(), %s).d); }" % (op, k))
    if not bw:
        return
    F(key(mod, bwcls or cls.replace("Fw", "Bw"), "Bw"), "k_" + (bwname or name) + "_bw", BP, P6, U, kernel="%s::%s" % (mod, bwcls or cls.replace("Fw", "Bw")),
      req="""xs@.len() >= 1, ys@.len() >= 1, gys@.len() >= 1, xs[0].wf(), ys[0].wf(), gys[0].wf(), old(gx).wf(),
           xs[0].shape.s() == old(gx).shape.s(), ys[0].shape.s() == old(gx).shape.s(), gys[0].shape.s() == old(gx).shape.s()""" + kreq + req_bw,
      valid="xs[0].valid@%s && gys[0].valid@ && old(gx).valid@" % (" && ys[0].valid@" if yval else ""),
      ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == V_un_bw(%s, xs[0].v(), ys[0].v(), gys[0].v(), old(gx).v(), %s)" % (op, k),
      start=start_bw,
      inv={0: """gx.full(), gx.shape == old(gx).shape, gys[0].full(), en0 == sz(gx.shape.s()), xs[0].valid@, YV
             forall|t: int| 0 <= t < it0 ==> #[trigger] gx.buf@[t] == old(gx).buf@[t] + g1(%s, xs[0].buf@[t], ys[0].buf@[t], gys[0].buf@[t], %s),
             forall|t: int| it0 <= t < gx.buf@.len() ==> #[trigger] gx.buf@[t] == old(gx).buf@[t]""".replace("YV", "ys[0].valid@," if yval else "") % (op, k)},
      body={0: body_bw},
      end="proof { assert(gx.v().d =~= V_un_bw(%s, xs[0].v(), ys[0].v(), gys[0].v(), old(gx).v(), %s).d); }" % (op, k))

for mod, cls, op in (("neg", "Neg", "Neg"), ("abs", "Abs", "Abs"), ("sqrt", "Sqrt", "Sqrt"), ("exp", "Exp", "Exp"), ("ln", "Ln", "Ln"),
                     ("sin", "Sin", "Sin"), ("cos", "Cos", "Cos"), ("tan", "Tan", "Tan"), ("tanh", "Tanh", "Tanh")):
    un(mod, cls + "FwImpl", mod, "Op::" + op)
un("sigmoid", "SigmoidFwImpl", "sigmoid", "Op::Sigmoid", body_fw="proof { axiom_sigmoid(xs[0].buf@[it0 - 1]); }")
un("softplus", "SoftplusFwImpl", "softplus", "Op::Softplus", bw=False,
   body_fw="""proof { let x = xs[0].buf@[it0 - 1]; axiom_softplus(x);
     assert(0.0real * x == 0.0real) by (nonlinear_arith); assert(1.0real * x == x) by (nonlinear_arith); }""")
un("add", "AddConstFwImpl", "add_const", "Op::AddC", True)
un("sub", "SubConstLFwImpl", "sub_const_l", "Op::SubCL", True)
un("sub", "SubConstRFwImpl", "sub_const_r", "Op::SubCR", True)
un("mul", "MulConstFwImpl", "mul_const", "Op::MulC", True)
un("div", "DivConstLFwImpl", "div_const_l", "Op::DivCL", True)
un("div", "DivConstRFwImpl", "div_const_r", "Op::DivCR", True)
un("powf", "PowfConstLFwImpl", "powf_const_l", "Op::PowCL", True)
un("powf", "PowfConstRFwImpl", "powf_const_r", "Op::PowCR", True)
un("prelu", "PReLUFwImpl", "prelu", "Op::PRelu", True,
   body_fw="""proof { let x = xs[0].buf@[it0 - 1]; let k = f32data@[0].v();
     assert(x * (1.0real + 0.0real * k) == x) by (nonlinear_arith);
     assert(x * (0.0real + 1.0real * k) == k * x) by (nonlinear_arith); }""",
   body_bw="""proof { let g = gys[0].buf@[it0 - 1]; let k = f32data@[0].v();
     assert(g * (1.0real + 0.0real * k) == g) by (nonlinear_arith);
     assert(g * (0.0real + 1.0real * k) == g * k) by (nonlinear_arith); }""")
un("elu", "EluFwImpl", "elu", "Op::Elu", True)
un("powi", "PowiFwImpl", "powi", "Op::Powi(u32_as_i32_s(u32data@[0]) as int)", u32=True, yval=False,
   req_bw=", u32_as_i32_s(u32data@[0]) > i32::MIN")

AB = """xs@.len() >= 2, xs[0].wf(), xs[1].wf(), valid_ew(xs[0].shape.s(), xs[1].shape.s())"""
LEM_FW = """proof { lemma_sz(xs[0].shape.s()); lemma_sz(xs[1].shape.s()); lemma_sz(y0.shape.s()); }"""
def ab(mod, cls, name, op, scal=False):
    res = ("V_scal" if scal else "V_bin") + "(%s, xs[0].v(), xs[1].v())" % op
    vol = "vol(y0.shape.s())"
    pb = "$p_xs1 == off(xs[1].shape.s(), it0 as int, %s)" % ("1" if scal else vol)
    kk = "(if xs[1].shape.s().b == 1 { 0 } else { it0 as int })"
    F(key(mod, cls, "Fw"), "k_" + name + "_fw", FP, P5, U, kernel="%s::%s" % (mod, cls),
      req="xs@.len() >= 2, xs[0].wf(), xs[1].wf(), %s(xs[0].shape.s(), xs[1].shape.s()), old(y0).wf(), old(y0).shape.s() == s_ew(xs[0].shape.s(), xs[1].shape.s())" % ("valid_scalar_op" if scal else "valid_ew"),
      valid="xs[0].valid@ && xs[1].valid@ && old(y0).valid@",
      ens="final(y0).full(), final(y0).shape == old(y0).shape, final(y0).v() == %s" % res,
      start=LEM_FW + ("proof { lemma_lv_ones(xs[1].shape.s().d, 0, 8); }" if scal else ""),
      inv={0: """y0.full(), y0.shape == old(y0).shape, en0 == y0.shape.s().b,
             $p_xs0 == off(xs[0].shape.s(), it0 as int, VOL), $p_xs1 == off(xs[1].shape.s(), it0 as int, %s), $p_y0 == it0 * VOL, $p_y0 <= sz(y0.shape.s()),
             forall|t: int| 0 <= t < it0 * VOL ==> #[trigger] y0.buf@[t] == RES.d[t]""".replace("VOL", vol).replace("RES", res) % ("1" if scal else vol),
           1: """y0.full(), y0.shape == old(y0).shape, en1 == VOL,
             forall|t: int| 0 <= t < (it0 - 1) * VOL + it1 ==> #[trigger] y0.buf@[t] == RES.d[t]""".replace("VOL", vol).replace("RES", res)},
      head={0: "proof { lemma_bi(it0 as int, y0.shape.s().b, %s, 0); }" % vol},
      body={1: "proof { lemma_bi(it0 - 1, y0.shape.s().b, %s, it1 - 1); lemma_bi(0, 1, %s, it1 - 1); }" % (vol, vol)},
      bodyend={},
      end="proof { assert(y0.v().d =~= %s.d); }" % res)

for mod, op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("div", "Div"), ("powf", "Pow")):
    c = {"powf": "Powf"}.get(mod, op)
    ab(mod, c + "FwImpl", mod, "Op::" + op)
ab("add", "AddScalarFwImpl", "add_scalar", "Op::Add", True)
ab("mul", "MulScalarFwImpl", "mul_scalar", "Op::Mul", True)
for mod, c, op in (("sub", "Sub", "Sub"), ("div", "Div", "Div"), ("powf", "Powf", "Pow")):
    ab(mod, c + "ScalarRFwImpl", mod + "_scalar_r", "Op::" + op, True)
    ab(mod, c + "ScalarLFwImpl", mod + "_scalar_l", "Op::" + op + "L", True)

def abbw(mod, cls, name, op, side, touch):
    w = "w%s(%s, xs[0].v(), xs[1].v(), ys[0].v(), gys[0].v())" % (side, op)
    res = "V_bin_bw_%s(%s, xs[0].v(), xs[1].v(), ys[0].v(), gys[0].v(), old(gx).v())" % (side, op)
    me = "xs[0]" if side == "a" else "xs[1]"
    T = {"a": "xs[0]", "b": "xs[1]", "y": "ys[0]", "g": "gys[0]"}
    vol = "vol(gys[0].shape.s())"
    A = "forall|p: int| 0 <= p < gx.buf@.len() ==> #[trigger] gx.buf@[p] == acc(old(gx).buf@[p], ixb(gx.shape.s()), %s, %s, p)"
    F(key(mod, cls, "Bw"), "k_" + name + "_bw_" + side, BP, P6, U, kernel="%s::%s" % (mod, cls),
      req="""xs@.len() >= 2, ys@.len() >= 1, gys@.len() >= 1, xs[0].wf(), xs[1].wf(), ys[0].wf(), gys[0].wf(), old(gx).wf(),
        valid_ew(xs[0].shape.s(), xs[1].shape.s()), ys[0].shape.s() == s_ew(xs[0].shape.s(), xs[1].shape.s()), gys[0].shape.s() == ys[0].shape.s(),
        old(gx).shape.s() == %s.shape.s()""" % me,
      valid=" && ".join(["%s.valid@" % T[c] for c in touch] + ["old(gx).valid@"]),
      ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == %s" % res,
      start="proof { lemma_sz(xs[0].shape.s()); lemma_sz(xs[1].shape.s()); lemma_sz(gys[0].shape.s()); }",
      inv={0: """gx.full(), gx.shape == old(gx).shape, en0 == gys[0].shape.s().b,
             ?$p_xs0 == off(xs[0].shape.s(), it0 as int, VOL),
             ?$p_xs1 == off(xs[1].shape.s(), it0 as int, VOL),
             ?$p_ys0 == it0 * VOL, $p_ys0 <= sz(gys[0].shape.s()),
             ?$p_gys0 == it0 * VOL, $p_gys0 <= sz(gys[0].shape.s()),
             ?$p_gx == off(gx.shape.s(), it0 as int, VOL),
             """.replace("VOL", vol) + A % (w, "it0 * " + vol),
           1: "gx.full(), gx.shape == old(gx).shape, en1 == %s,\n" % vol + A % (w, "(it0 - 1) * %s + it1" % vol)},
      head={0: "proof { lemma_bi(it0 as int, gys[0].shape.s().b, %s, 0); }" % vol},
      body={1: "proof { lemma_bi(it0 - 1, gys[0].shape.s().b, %s, it1 - 1); lemma_bi(0, 1, %s, it1 - 1); }" % (vol, vol)},
      end="proof { assert(gx.v().d =~= %s.d); }" % res)

abbw("add", "AddBwAImpl", "add", "Op::Add", "a", "g")
abbw("add", "AddBwBImpl", "add", "Op::Add", "b", "g")
abbw("sub", "SubBwAImpl", "sub", "Op::Sub", "a", "g")
abbw("sub", "SubBwBImpl", "sub", "Op::Sub", "b", "g")
abbw("mul", "MulBwAImpl", "mul", "Op::Mul", "a", "bg")
abbw("mul", "MulBwBImpl", "mul", "Op::Mul", "b", "ag")
abbw("div", "DivBwAImpl", "div", "Op::Div", "a", "bg")
abbw("div", "DivBwBImpl", "div", "Op::Div", "b", "byg")
abbw("powf", "PowfBwAImpl", "powf", "Op::Pow", "a", "abg")
abbw("powf", "PowfBwBImpl", "powf", "Op::Pow", "b", "ayg")
