"""Graph operators: shape rule, forward and backward of each."""
from tables import F, L, ST
U = "op"
ENS_CELLS = "old(gx).step(*final(gx), {m})"
OPS = {}    # name -> dict(n, valid, S, V, ...)

def op(mod, name, n, props, valid, S, V, Ds, fields=(), par="", new=True, fw_start="", bw_start="", bw_end="", bw_mm="", bw_req="", kreq="", newp=None, newens=None, bw_kw={}, shape_kw={}):
    """valid, S: over shapes s0, s1 (SV); V: over values x0, x1; Ds: contributions over x0, x1, y0, g0; fields over o."""
    def over(t, how):
        import re
        return re.sub(r"\b([sxyg])(\d)\b", lambda m: how[m.group(1)] % int(m.group(2)), t)
    tn = "O_" + name
    ST(tn, list(fields), path="operators::%s::%s" % (mod, name))
    pre = "operators::%s::" % mod
    b = pre + "<%s as Operator>::" % name
    if new:
        ps = [f for f, _ in fields]
        F(pre + name + "::new", name + "_new", ["-"] + ps, props, U, ret=tn, path="op::%s::new" % name,
          ens=newens if newens is not None else ", ".join("r.%s == %s" % (f, f) for f in ps))
    sh = {"s": "x@[%d].s()", "x": "", "y": "", "g": ""}
    F(b + "forward_shape", name + "_shape", ["o", "x"], props + (["C02"] if "C02" not in props else []), U, ret="Vec<Shape>", req="x@.len() == %d%s" % (n, kreq and ", " + kreq) + "".join(", x@[%d].wf()" % i for i in range(n)),
      valid=over(valid, sh) or "true", ens="r@.len() == 1, r@[0].wf(), r@[0].s() == " + over(S, sh), **shape_kw)
    ts = {"s": "x@[%d].shape.s()", "x": "x@[%d].v()", "y": "y@[%d].v()", "g": "gy@[%d].v()"}
    fulls = "x@.len() == %d%s" % (n, kreq and ", " + kreq) + "".join(", x@[%d].full()" % i for i in range(n)) + ", " + (over(valid, ts) or "true")
    F(b + "forward", name + "_fw", ["o", "x", "y"], props, U,
      req=fulls + ", old(y)@.len() == 1, old(y)@[0].wf(), !old(y)@[0].valid@, old(y)@[0].shape.s() == " + over(S, ts),
      ens="final(y)@.len() == 1, final(y)@[0].full(), final(y)@[0].v() == " + over(V, ts), start=fw_start)
    m = "old(gx).tv()"
    for i, d in enumerate(Ds):
        m = "add_at(%s, old(gx).at()[%d], %s)" % (m, i, over(d, ts))
    F(b + "backward", name + "_bw", ["o", "x", "y", "gy", "gx"], props, U,
      req=fulls + ", y@.len() == 1, y@[0].full(), gy@.len() == 1, gy@[0].full(), y@[0].v() == %s, gy@[0].shape.s() == %s, old(gx).fit(x@)%s" % (over(V, ts), over(S, ts), bw_req and ", " + over(bw_req, ts)),
      ens=ENS_CELLS.format(m=m), start="broadcast use grp_op; proof { %s}" % "".join("lemma_sz(x@[%d].shape.s()); " % i for i in range(n)) + bw_start, end="proof { %slet mm = %s; assert(gx.busy() =~= Set::<int>::empty()); assert(gx.val().dom() =~= old(gx).val().dom()); %sassert(gx.tv() =~= mm); }" % (bw_end, m, bw_mm), **bw_kw)
    OPS[name] = dict(n=n, valid=valid, S=S, V=V, Ds=Ds, fields=fields, kreq=kreq, bw_req=bw_req)

E1 = ["C06", "C10"]
def unary(mod, name, dev_op, k="0.0real", fields=(), D=None, bw_req=""):
    op(mod, name, 1, E1, "true", "s0", "V_un(%s, x0, %s)" % (dev_op, k), [D or "G_un(%s, x0, y0, g0, %s)" % (dev_op, k)], fields=fields, bw_req=bw_req)
for n in ("Neg", "Abs", "Sqrt", "Exp", "Ln", "Sin", "Cos", "Tan", "Tanh", "Sigmoid"):
    unary(n.lower(), n, "Op::" + n)
for mod, n, o, f in (("add", "AddConst", "AddC", "k"), ("sub", "SubConstL", "SubCL", "k"), ("sub", "SubConstR", "SubCR", "k"), ("mul", "MulConst", "MulC", "k"),
                     ("div", "DivConstL", "DivCL", "k"), ("div", "DivConstR", "DivCR", "k"), ("powf", "PowConstL", "PowCL", "k"), ("powf", "PowConstR", "PowCR", "k"),
                     ("prelu", "PReLU", "PRelu", "a"), ("elu", "ELU", "Elu", "a")):
    unary(mod, n, "Op::" + o, "o.%s.v()" % f, fields=[(f, "f32")])
unary("powi", "Powi", "Op::Powi(o.k as int)", fields=[("k", "i32")], bw_req="o.k > i32::MIN")
op("softplus", "Softplus", 1, E1, "true", "s0", "V_un(Op::Softplus, x0, 0.0real)", ["G_softplus(x0, g0)"])
for mod, n, o in (("add", "Add", "Add"), ("sub", "Sub", "Sub"), ("mul", "Mul", "Mul"), ("div", "Div", "Div"), ("powf", "Pow", "Pow")):
    op(mod, n, 2, E1, "valid_ew(s0, s1)", "s_ew(s0, s1)", "V_bin(Op::%s, x0, x1)" % o, ["G_bin_a(Op::%s, x0, x1, y0, g0)" % o, "G_bin_b(Op::%s, x0, x1, y0, g0)" % o])
for mod, n, o in (("add", "AddScalar", "Add"), ("sub", "SubScalarL", "SubL"), ("sub", "SubScalarR", "Sub"), ("mul", "MulScalar", "Mul"),
                  ("div", "DivScalarL", "DivL"), ("div", "DivScalarR", "Div"), ("powf", "PowScalarL", "PowL"), ("powf", "PowScalarR", "Pow")):
    op(mod, n, 2, E1, "valid_scalar_op(s0, s1)", "s_ew(s0, s1)", "V_scal(Op::%s, x0, x1)" % o, ["G_scal_x(Op::%s, x0, x1, y0, g0)" % o, "G_scal_k(Op::%s, x0, x1, y0, g0)" % o],
       bw_start="proof { assert(x@[1].shape.s().d =~= dims2(1, 1)); lemma_lv_ones(x@[1].shape.s().d, 0, 8); lemma_sz(gy@[0].shape.s()); lemma_flat(gy@[0].shape.s()); if scalar_s(x@[0].shape.s()) { assert(x@[0].shape.s().d =~= dims2(1, 1)); assert(gy@[0].shape.s().d =~= dims2(1, 1)); } if scalar_s(gy@[0].shape.s()) { assert(gy@[0].shape.s().d =~= dims2(1, 1)); assert(x@[0].shape.s().d =~= dims2(1, 1)); } }",
       bw_end="""assert(mx(gy@[0].shape.s().b, x@[0].shape.s().b) * vol(x@[0].shape.s()) == sz(gy@[0].shape.s())); """,
       bw_mm=("let av = V_ar(Op::Div, gy@[0].v(), x@[1].v()); let pv = V_ar(Op::Mul, av, y@[0].v()); assert forall|t: int| 0 <= t < sz(gy@[0].shape.s()) implies #[trigger] wsk(Op::Div, x@[0].v(), x@[1].v(), y@[0].v(), gy@[0].v())(t) == -pv.d[t] by { bl_ar(Op::Div, gy@[0].v(), x@[1].v(), t); bl_ar(Op::Mul, av, y@[0].v(), t); } let wk = wsk(Op::Div, x@[0].v(), x@[1].v(), y@[0].v(), gy@[0].v()); let ik = ixk(x@[1].shape.s(), vol(x@[0].shape.s())); let nn = sz(gy@[0].shape.s()); assert(pv.s.d =~= x@[0].shape.s().d); assert(pv.s == gy@[0].shape.s()); let i0 = old(gx).at()[0]; let i1 = old(gx).at()[1]; let m1 = add_at(old(gx).tv(), i0, G_scal_x(Op::Div, x@[0].v(), x@[1].v(), y@[0].v(), gy@[0].v())); bl_fsum(old(gx).tv()[i1], pv, true, ik, wk, nn); bl_fsum(m1[i1], pv, true, ik, wk, nn); " if n == "DivScalarR" else "") +
         "let l0 = old(gx).at()[0]; let l1 = old(gx).at()[1]; if l0 != l1 { assert(gx.tv()[l1].d =~= mm[l1].d); assert(gx.tv()[l0].d =~= mm[l0].d); } else { assert(gx.tv()[l0].d =~= mm[l0].d); } ")

# ---- reductions
O7 = ["C07", "C10"]
DM = "(o.dim as int)"
WB = "fn_bcast(g0, s0, %s)" % DM
DF = [("dim", "u32")]
SG = "proof { lemma_sz(gy@[0].shape.s()); lemma_shrink(x@[0].shape.s(), o.dim as int, 1); lemma_geo(x@[0].shape.s(), o.dim as int); lemma_geo_dim(x@[0].shape.s(), o.dim as int, 1); assert(s_dim(s_dim(x@[0].shape.s(), o.dim as int, 1), o.dim as int, dm(x@[0].shape.s(), o.dim as int)).d =~= x@[0].shape.s().d); %s }"
SHR = "proof { if o.dim < 8 { lemma_shrink(x@[0].s(), o.dim as int, 1); } }"
op("sum", "Sum", 1, O7, "o.dim < 8", "s_dim(s0, %s, 1)" % DM, "V_red(Red::Sum, x0, %s)" % DM, ["G_each(s0, fn_bcast(g0, s0, %s))" % DM], fields=DF, shape_kw=dict(start=SHR), bw_start=SG % "")
for n, R in (("Max", "Max"), ("Min", "Min")):
    op(n.lower(), n, 1, O7, "o.dim < 8", "s_dim(s0, %s, 1)" % DM, "V_red(Red::%s, x0, %s)" % (R, DM), ["V_ext_bw(x0, y0, g0, V_zero(s0), %s)" % DM], fields=DF, shape_kw=dict(start=SHR), bw_start=SG % "")
op("logsumexp", "Logsumexp", 1, O7, "o.dim < 8", "s_dim(s0, %s, 1)" % DM, "V_red(Red::Lse, x0, %s)" % DM, ["G_lse(x0, y0, g0, %s)" % DM], fields=DF, shape_kw=dict(start=SHR), bw_start=SG % "")
op("broadcast", "Broadcast", 1, O7, "valid_broadcast(s0, %s, o.size as int)" % DM, "s_dim(s0, %s, o.size as int)" % DM, "V_broadcast(x0, %s, o.size as int)" % DM,
   ["G_val(V_red(Red::Sum, g0, %s))" % DM], fields=[("dim", "u32"), ("size", "u32")],
   bw_start="proof { lemma_sz(gy@[0].shape.s()); lemma_geo_dim(x@[0].shape.s(), o.dim as int, o.size as int); assert(s_dim(s_dim(x@[0].shape.s(), o.dim as int, o.size as int), o.dim as int, 1).d =~= x@[0].shape.s().d); }")
op("batch_sum", "BatchSum", 1, O7, "true", "s_batch(s0, 1)", "V_batch_sum(x0)", ["G_each(s0, |t: int| g0.d[t % vol(s0)])"])
# ---- matrices
O8 = ["C08", "C10"]
op("matmul", "Matmul", 2, O8, "valid_matmul(s0, s1)", "s_matmul(s0, s1)", "V_matmul(x0, x1)", ["V_matmul_bw_a(x1, g0, V_zero(s0))", "V_matmul_bw_b(x0, g0, V_zero(s1))"],
   bw_req="mx(s0.b, s1.b) * (dm(s0, 0) * dm(s0, 1)) <= U32M(), mx(s0.b, s1.b) * (dm(s1, 0) * dm(s1, 1)) <= U32M()")
op("transpose", "Transpose", 1, O8, "matrix_s(s0)", "s_transpose(s0)", "V_transpose(x0)", ["V_add_assign(V_zero(s0), V_transpose(g0), false)"])
for n, l in (("TriangularL", "true"), ("TriangularU", "false")):
    op("triangular_" + n[-1].lower(), n, 1, O8, "valid_tri(s0)", "s0", "V_tri(%s, x0, o.k as int)" % l, ["V_add_assign(V_zero(s0), V_tri(%s, g0, o.k as int), false)" % l], fields=[("k", "u32")])
op("reshape", "Reshape", 1, O8, "sz(o.shape.s()) == sz(s0)", "o.shape.s()", "V_reshape(x0, o.shape.s())", ["G_val(V_reshape(g0, s0))"], fields=[("shape", "Shape")], kreq="o.shape.wf()")
# ---- slices and picks
O9 = ["C09", "C10"]
IDL = "o.ids@.len() <= U32M()"
op("slice", "Slice", 1, O9, "valid_slice(s0, %s, o.lower as int, o.upper as int)" % DM, "s_dim(s0, %s, o.upper - o.lower)" % DM, "V_slice(x0, %s, o.lower as int, o.upper as int)" % DM,
   ["V_slice_bw(g0, V_zero(s0), %s, o.lower as int)" % DM], fields=[("dim", "u32"), ("lower", "u32"), ("upper", "u32")])
op("batch_slice", "BatchSlice", 1, O9, "valid_batch_slice(s0, o.lower as int, o.upper as int)", "s_batch(s0, o.upper - o.lower)", "V_bslice(x0, o.lower as int, o.upper as int)",
   ["V_bslice_bw(g0, V_zero(s0), o.lower as int)"], fields=[("lower", "u32"), ("upper", "u32")])
IE = "r.ids@ =~= ids@"
op("pick", "Pick", 1, O9, "valid_pick(s0, o.ids@, %s)" % DM, "s_pick(s0, o.ids@.len() as int, %s)" % DM, "V_pick(x0, o.ids@, %s)" % DM, ["V_pick_bw(g0, V_zero(s0), o.ids@, %s)" % DM],
   fields=[("ids", "Vec<u32>"), ("dim", "u32")], kreq=IDL, newens=IE + ", r.dim == dim")
op("batch_pick", "BatchPick", 1, O9, "valid_batch_pick(s0, o.ids@)", "s_batch(s0, o.ids@.len() as int)", "V_bpick(x0, o.ids@)", ["V_bpick_bw(g0, V_zero(s0), o.ids@)"],
   fields=[("ids", "Vec<u32>")], kreq=IDL, newens=IE)
# ---- cross entropies
op("softmax_cross_entropy", "SoftmaxCrossEntropy", 2, O7, "o.dim < 8 && valid_ew(s0, s1)", "s_dim(s_ew(s0, s1), %s, 1)" % DM, "V_sce(x0, x1, %s)" % DM, ["G_sce_x(x0, x1, g0, %s)" % DM, "G_sce_t(x0, x1, g0, %s)" % DM], fields=DF,
   shape_kw=dict(start="proof { if ok { let s = s_ew(x@[0].s(), x@[1].s()); lemma_red_shape(x@[0].s(), s, o.dim as int); } }"), bw_start="proof { lemma_red_shape(x@[0].shape.s(), s_ew(x@[0].shape.s(), x@[1].shape.s()), o.dim as int); }")
op("softmax_cross_entropy", "SparseSoftmaxCrossEntropy", 1, O7, "valid_pick(s0, o.ids@, %s)" % DM, "s_pick(s0, o.ids@.len() as int, %s)" % DM, "V_ssce(x0, o.ids@, %s)" % DM,
   ["G_ssce(x0, g0, o.ids@, %s)" % DM], fields=[("ids", "Vec<u32>"), ("dim", "u32")], kreq=IDL, newens=IE + ", r.dim == dim",
   bw_req="vol(s0) * gy@[0].shape.s().b <= U32M()", bw_start="proof { lemma_red_shape(x@[0].shape.s(), s_batch(x@[0].shape.s(), gy@[0].shape.s().b), o.dim as int); }")

# ---- many operands, many results
def multi(mod, name, props, fields, shape, fw, bw):
    tn = "O_" + name
    ST(tn, list(fields), path="operators::%s::%s" % (mod, name))
    pre = "operators::%s::" % mod
    b = pre + "<%s as Operator>::" % name
    ps = [f for f, _ in fields]
    F(pre + name + "::new", name + "_new", ["-"] + ps, props, U, ret=tn, path="op::%s::new" % name, ens=", ".join("r.%s == %s" % (f, f) for f in ps))
    F(b + "forward_shape", name + "_shape", ["o", "x"], props + ["C02"], U, ret="Vec<Shape>", **shape)
    F(b + "forward", name + "_fw", ["o", "x", "y"], props, U, **fw)
    F(b + "backward", name + "_bw", ["o", "x", "y", "gy", "gx"], props, U, **bw)
ALLW = "(forall|i: int| 0 <= i < x@.len() ==> (#[trigger] x@[i]).wf())"
Y1 = "old(y)@.len() == 1, old(y)@[0].wf(), !old(y)@[0].valid@, old(y)@[0].shape.s() == "
for nm, mod, fl, vs, sx, vv, part, dsp in (
    ("Concat", "concat", DF, "valid_concat(%s, o.dim as int)", "s_concat(%s, o.dim as int)", "V_concat(tvs(x@), o.dim as int)", "G_cat", "o.dim as int, "),
    ("BatchConcat", "batch_concat", [], "valid_bconcat(%s)", "s_bconcat(%s)", "V_bconcat(tvs(x@))", "G_bcat", "")):
    X = "svs(tvs(x@))"
    full = "x@.len() >= 1, fulls(x@), " + vs % X
    m = "add_all(old(gx).tv(), old(gx).at(), %s(tvs(x@), gy@[0].v(), %sx@.len() as int), %s)"
    m = m % (part, dsp, "%s")
    cs = "cat_sum(svs(tvs(x@)), o.dim as int, %s)" if nm == "Concat" else "bcat_sum(svs(tvs(x@)), %s)"
    lem = "lemma_cat_part(svs(tvs(x@)), o.dim as int, (it0 - 1) as int)" if nm == "Concat" else "lemma_bcat_part(svs(tvs(x@)), (it0 - 1) as int)"
    multi(mod, nm, O9, fl,
          dict(req="x@.len() >= 1, " + ALLW, valid=vs % "shv(x@)", ens="r@.len() == 1, r@[0].wf(), r@[0].s() == " + sx % "shv(x@)"),
          dict(req=full + ", " + Y1 + sx % X, ens="final(y)@.len() == 1, final(y)@[0].full(), final(y)@[0].v() == " + vv),
          dict(req=full + ", y@.len() == 1, y@[0].full(), gy@.len() == 1, gy@[0].full(), y@[0].v() == %s, gy@[0].shape.s() == %s, old(gx).fit(x@)" % (vv, sx % X),
               ens=ENS_CELLS.format(m=m % "x@.len() as int"), start="broadcast use grp_op; proof { lemma_sz(gy@[0].shape.s()); }",
               inv={0: "en0 == x@.len(), gx.ok(), gx.at() == old(gx).at(), gx.val().dom() =~= old(gx).val().dom(), gx.tv() =~= %s, $int0 == %s, forall|l: int| !gx.at().contains(l) ==> #[trigger] gx.val()[l] == old(gx).val()[l], forall|l: int| old(gx).val().dom().contains(l) ==> (#[trigger] gx.val()[l]).shape.s() == old(gx).val()[l].shape.s()" % (m % "it0 as int", cs % "it0 as int")},
               body={0: "proof { lemma_sz(x@[it0 - 1].shape.s()); %s; }" % lem}, lenient=True, types={"int0": "u32"}))
for nm, mod, fl, tot, sl, slbw, ws, gs in (
    ("Split", "split", [("dim", "u32"), ("n", "u32")], "dm(%s, o.dim as int)", "V_slice(x@[0].v(), o.dim as int, %s, %s)", "o.dim as int, ", "s_dim(%s, o.dim as int, %s)", "G_split"),
    ("BatchSplit", "batch_split", [("n", "u32")], "%s.b", "V_bslice(x@[0].v(), %s, %s)", "", "s_batch(%s, %s)", "G_bsplit")):
    tx = tot % "x@[0].shape.s()"
    ts_ = tot % "x@[0].s()"
    k = "(%s / (o.n as int))" % tx
    val = lambda t: "o.n >= 1 && %s %% (o.n as int) == 0%s" % (t, " && o.dim < 8" if nm == "Split" else "")
    out = ws % ("x@[0].shape.s()", k)
    part = sl % ("i * " + k, "(i + 1) * " + k)
    dsp = "%s, o.dim as int, " if nm == "Split" else "%s, "
    G = "add_at(old(gx).tv(), old(gx).at()[0], %s(x@[0].shape.s(), tvs(gy@), %s%s, %%s))" % (gs, slbw, k)
    geo = "proof { let k = %s; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(%s, o.n as int); assert(o.n * k == k * o.n) by (nonlinear_arith); lemma_sz(x@[0].shape.s()); assert(k >= 1) by (nonlinear_arith) requires o.n * k == %s, %s >= 1, o.n >= 1; }" % (k, tx, tx, tx)
    bod = "proof { let k = %s; let i = it0 - 1; assert(i * k >= 0 && (i + 1) * k == i * k + k && (i + 1) * k <= o.n * k && i * k <= o.n * k && k * o.n == o.n * k) by (nonlinear_arith) requires 0 <= i < o.n, k >= 0; }" % k
    multi(mod, nm, O9, fl,
          dict(req="x@.len() == 1, x@[0].wf()", valid=val(ts_), ens="r@.len() == o.n, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).wf() && r@[i].s() == " + ws % ("x@[0].s()", "%s / (o.n as int)" % ts_),
               start="proof { let t = %s; lemma_sz(x@[0].s()); if o.n >= 1 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, o.n as int); let k = t / (o.n as int); assert(o.n * k == k * o.n) by (nonlinear_arith); if ok { assert(1 <= k <= t) by (nonlinear_arith) requires o.n * k == t, t >= 1, o.n >= 1; %s } } }" % (ts_, "lemma_shrink(x@[0].s(), o.dim as int, k);" if nm == "Split" else "lemma_shrink_batch(x@[0].s(), k);"), lenient=True),
          dict(req="x@.len() == 1, x@[0].full(), %s, old(y)@.len() == o.n, forall|i: int| 0 <= i < o.n ==> (#[trigger] old(y)@[i]).wf() && !old(y)@[i].valid@ && old(y)@[i].shape.s() == %s" % (val(tx), out),
               ens="final(y)@.len() == o.n, forall|i: int| 0 <= i < o.n ==> (#[trigger] final(y)@[i]).full() && final(y)@[i].v() == " + part, start=geo, lenient=True,
               inv={0: "en0 == o.n, y@.len() == o.n, forall|i: int| 0 <= i < it0 ==> (#[trigger] y@[i]).full() && y@[i].v() == %s, forall|i: int| it0 <= i < o.n ==> #[trigger] y@[i] == old(y)@[i]" % part}, body={0: bod}),
          dict(req="x@.len() == 1, x@[0].full(), %s, gy@.len() == o.n, fulls(gy@), forall|i: int| 0 <= i < o.n ==> (#[trigger] gy@[i]).shape.s() == %s, old(gx).fit(x@)" % (val(tx), out),
               ens=ENS_CELLS.format(m=G % "o.n as int"), start="broadcast use grp_op; " + geo, lenient=True,
               inv={0: "en0 == o.n, gx.ok(), gx.at() == old(gx).at(), gx.val().dom() =~= old(gx).val().dom(), gx.tv() =~= %s, forall|l: int| !gx.at().contains(l) ==> #[trigger] gx.val()[l] == old(gx).val()[l], gx.val()[gx.at()[0]].shape.s() == x@[0].shape.s()" % (G % "it0 as int")},
               body={0: bod + " proof { let l = old(gx).at()[0]; assert(gx.tv()[l] == tv_add(old(gx).tv()[l], %s(x@[0].shape.s(), tvs(gy@), %s%s, it0 - 1))); assert(gx.tv()[l] == gx.val()[l].v()); }" % (gs, slbw, k)},
               bodyend={0: "proof { let l = old(gx).at()[0]; let c = old(gx).tv()[l]; let k = %s; let i = it0 - 1; let b = %s(x@[0].shape.s(), tvs(gy@), %sk, i as int); let p = %s_bw(tvs(gy@)[i as int], V_zero(x@[0].shape.s()), %si * k); assert(tvs(gy@)[i as int] == gy@[i as int].v()); assert(gx.tv()[l] == %s_bw(gy@[i as int].v(), tv_add(c, b), %si * k)); assert(gx.tv()[l] == tv_add(tv_add(c, b), p)); assert(gx.tv()[l] == tv_add(c, tv_add(b, p))); }" % (k, gs, slbw, sl.split("(")[0], slbw, sl.split("(")[0], slbw)}))

# ---- constants and parameters
from tables import FNS
L("Tensor_refer", method="Tensor.refer", recv="&mut", ok=True)
OI, OO, OP = "operators::input::<Input as Operator>::", "operators::input::<InputOwner as Operator>::", "operators::parameter::<Parameter as Operator>::"
ST("O_Input", [("value", "Tensor")], path="operators::input::Input")
ST("O_InputOwner", [("value", "Tensor")], path="operators::input::InputOwner")
ST("O_Parameter", [("value", "Tensor"), ("gradient", "Tensor")], path="operators::parameter::Parameter")
for b, n in ((OI, "Input"), (OO, "InputOwner"), (OP, "ParamOp")):
    F(b + "forward_shape", n + "_shape", ["o", "x"], ["C10", "C02"], U, ret="Vec<Shape>", req="o.value.wf()", valid="true", ens="r@.len() == 1, r@[0] == o.value.shape")
    F(b + "forward", n + "_fw", ["o", "x", "y"], ["C10"], U, req="o.value.full(), old(y)@.len() == 1, old(y)@[0].wf(), !old(y)@[0].valid@, old(y)@[0].shape.s() == o.value.shape.s()",
      ens="final(y)@.len() == 1, final(y)@[0].full(), final(y)@[0].v() == o.value.v()")
for b, n in ((OI, "Input"), (OO, "InputOwner")):
    F(b + "backward", n + "_bw", ["o", "x", "y", "gy", "gx"], ["C10"], U, ens="*final(gx) == *old(gx)")
F(OP + "backward", "ParamOp_bw", ["o", "x", "y", "gy", "gx"], ["C10", "C12"], U, req="gy@.len() == 1, gy@[0].full(), old(o).gradient.full(), gy@[0].shape.s() == old(o).gradient.shape.s()",
  ens="*final(gx) == *old(gx), final(o).value == old(o).value, final(o).gradient.full(), final(o).gradient.v() == tv_add(old(o).gradient.v(), G_val(gy@[0].v()))",
  start="broadcast use grp_op; proof { lemma_sz(gy@[0].shape.s()); }")
