"""Device functions: checks, allocation of the result and the kernel call."""
from tables import F, L
U = "dev"
A = "functions::arithmetic::device::<Device as ArithmeticDeviceFunctions>::"
B = "functions::basic::device::<Device as BasicDeviceFunctions>::"
L("new_tensor", ret="Tensor", method="Device.new_tensor")
L("Tensor_alloc", method="Tensor.alloc", ok=True, recv="&mut")
L("Tensor_valid", ret="bool", method="Tensor.valid")
P5, P6 = ["C05", "C02", "C04"], ["C06", "C02", "C04"]

def D(base, name, params, props, ret="", **kw):
    F(base + name, "d_" + name, ["-"] + params, props, U, ret=ret, recv="&", method="Device." + name, **kw)

UN = [("neg", A), ("abs", B), ("sqrt", B), ("exp", B), ("ln", B), ("sin", B), ("cos", B), ("tan", B), ("tanh", B), ("sigmoid", B), ("softplus", B)]
OPN = {n: "Op::" + n.capitalize() for n, _ in UN}
CN = [("add_const", A, "AddC"), ("sub_const_l", A, "SubCL"), ("sub_const_r", A, "SubCR"), ("mul_const", A, "MulC"), ("div_const_l", A, "DivCL"),
      ("div_const_r", A, "DivCR"), ("powf_const_l", B, "PowCL"), ("powf_const_r", B, "PowCR"), ("prelu", B, "PRelu"), ("elu", B, "Elu")]
AB = [("add", A, "Add"), ("sub", A, "Sub"), ("mul", A, "Mul"), ("div", A, "Div"), ("powf", B, "Pow")]
SC = [("add_scalar", A, "Add"), ("mul_scalar", A, "Mul"), ("sub_scalar_l", A, "SubL"), ("sub_scalar_r", A, "Sub"), ("div_scalar_l", A, "DivL"),
      ("div_scalar_r", A, "Div"), ("powf_scalar_l", B, "PowL"), ("powf_scalar_r", B, "Pow")]

def fw(res):
    return "r.full(), r.v() == " + res
UBWV = "x.valid@ && gy.valid@ && old(gx).valid@ && x.shape.s() == old(gx).shape.s() && y.shape.s() == gy.shape.s() && x.shape.s() == y.shape.s()"
for n, b in UN:
    D(b, n + "_fw", ["x"], P5, "Tensor", req="x.wf()", valid="x.valid@", ens=fw("V_un(%s, x.v(), 0.0real)" % OPN[n]))
    if n != "softplus":
        D(b, n + "_bw", ["x", "y", "gy", "gx"], P6, req="x.wf(), y.wf(), gy.wf(), old(gx).wf()", valid="y.valid@ && " + UBWV,
          ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == V_un_bw(%s, x.v(), y.v(), gy.v(), old(gx).v(), 0.0real)" % OPN[n])
for n, b, op in CN:
    kn = "a" if n in ("prelu", "elu") else "k"
    kn = "k"
    D(b, n + "_fw", ["x", "k"], P5, "Tensor", req="x.wf()", valid="x.valid@", ens=fw("V_un(Op::%s, x.v(), k.v())" % op))
    D(b, n + "_bw", ["x", "y", "gy", "k", "gx"], P6, req="x.wf(), y.wf(), gy.wf(), old(gx).wf()", valid="y.valid@ && " + UBWV,
      ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == V_un_bw(Op::%s, x.v(), y.v(), gy.v(), old(gx).v(), k.v())" % op)
D(B, "powi_fw", ["x", "k"], P5, "Tensor", req="x.wf()", valid="x.valid@", ens=fw("V_un(Op::Powi(k as int), x.v(), 0.0real)"))
D(B, "powi_bw", ["x", "y", "gy", "k", "gx"], P6, req="x.wf(), y.wf(), gy.wf(), old(gx).wf(), k > i32::MIN", valid=UBWV,
  ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == V_un_bw(Op::Powi(k as int), x.v(), y.v(), gy.v(), old(gx).v(), 0.0real)")
TOUCH = {"add": ("", ""), "sub": ("", ""), "mul": ("b", "a"), "div": ("b", "by"), "powf": ("ab", "ay")}
for n, b, op in AB:
    D(b, n + "_fw", ["a", "b"], P5, "Tensor", req="a.wf(), b.wf()", valid="a.valid@ && b.valid@ && valid_ew(a.shape.s(), b.shape.s())",
      ens=fw("V_bin(Op::%s, a.v(), b.v())" % op))
    for i, s in enumerate("ab"):
        g = "g" + s
        D(b, n + "_bw_" + s, ["a", "b", "y", "gy", g], P6, req="a.wf(), b.wf(), y.wf(), gy.wf(), old(%s).wf()" % g,
          valid=" && ".join("%s.valid@" % c for c in TOUCH[n][i]) + (" && " if TOUCH[n][i] else "") +
          "gy.valid@ && old(G).valid@ && S.shape.s() == old(G).shape.s() && y.shape.s() == gy.shape.s() && valid_ew(a.shape.s(), b.shape.s()) && y.shape.s() == s_ew(a.shape.s(), b.shape.s())".replace("G", g).replace("S", s),
          ens="final(G).full(), final(G).shape == old(G).shape, final(G).v() == V_bin_bw_%s(Op::%s, a.v(), b.v(), y.v(), gy.v(), old(G).v())".replace("G", g) % (s, op))
for n, b, op in SC:
    ps = ["a", "b"] if b == A else ["x", "k"]
    D(b, n + "_fw", ["x", "k"], P5, "Tensor", req="x.wf(), k.wf()", valid="x.valid@ && k.valid@ && valid_scalar_op(x.shape.s(), k.shape.s())",
      ens=fw("V_scal(Op::%s, x.v(), k.v())" % op))
