"""Slices, picks and concatenations along a dimension or the batch."""
from tables import F, L
from c_elementwise import FP, BP, key
from c_device import D, B
U = "manip"
P9 = ["C09", "C04"]
YF, XF = "y0.full(), y0.shape == old(y0).shape, ", "gx.full(), gx.shape == old(gx).shape, "
OUTY, OUTX = "final(y0).full(), final(y0).shape == old(y0).shape, ", "final(gx).full(), final(gx).shape == old(gx).shape, "

# ---- slice
def sl(t, X, Y):
    return (t.replace("LL", "low(%s.shape.s(), u32data@[0] as int)" % X).replace("NN", "dm(%s.shape.s(), u32data@[0] as int)" % X).replace("OO", "outer(%s.shape.s(), u32data@[0] as int)" % X)
            .replace("UU", "upper(%s.shape.s().d, u32data@[0] as int, 8)" % X).replace("MM", "dm(%s.shape.s(), u32data@[0] as int)" % Y).replace("LO", "u32data@[1]"))
h = lambda t: sl(t, "xs[0]", "y0")
SLREQ = "u32data@.len() >= 2, u32data@[0] < 8, MM >= 1, LO + MM <= NN, "
F(key("slice", "SliceFwImpl", "Fw"), "k_slice_fw", FP, P9, U, kernel="slice::SliceFwImpl",
  req=sl("xs@.len() >= 1, xs[0].wf(), old(y0).wf(), " + SLREQ + "old(y0).shape.s() == s_dim(xs[0].shape.s(), u32data@[0] as int, MM)", "xs[0]", "old(y0)"), valid="xs[0].valid@ && old(y0).valid@",
  ens=OUTY + "final(y0).v() == V_slice(xs[0].v(), u32data@[0] as int, u32data@[1] as int, u32data@[1] + dm(old(y0).shape.s(), u32data@[0] as int))",
  start=h("""proof { lemma_geo(xs[0].shape.s(), u32data@[0] as int); lemma_geo_dim(xs[0].shape.s(), u32data@[0] as int, MM); lemma_geo(y0.shape.s(), u32data@[0] as int);
      lemma_slix(0, 0, OO, LL, NN, MM, LO as int); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(OO, LL * MM); assert((LL * MM) * OO == OO * (LL * MM)) by (nonlinear_arith); }"""),
  inv={0: h(YF + "en0 == OO, $p_y0 == it0 * (LL * MM), forall|p: int| 0 <= p < it0 * (LL * MM) ==> #[trigger] y0.buf@[p] == xs[0].buf@[slix(p, LL, NN, MM, LO as int)]"),
       1: h(YF + "en1 == LL * MM, $p_y0 == (it0 - 1) * (LL * MM) + it1, forall|p: int| 0 <= p < (it0 - 1) * (LL * MM) + it1 ==> #[trigger] y0.buf@[p] == xs[0].buf@[slix(p, LL, NN, MM, LO as int)]")},
  body={0: h("proof { lemma_slix(it0 - 1, 0, OO, LL, NN, MM, LO as int); }"), 1: h("proof { lemma_slix(it0 - 1, it1 - 1, OO, LL, NN, MM, LO as int); }")},
  end=h("proof { assert(y0.v().d =~= V_slice(xs[0].v(), u32data@[0] as int, LO as int, LO + MM).d); }"))
h = lambda t: sl(t, "gx", "gys[0]")
AC = h("forall|p: int| 0 <= p < gx.buf@.len() ==> #[trigger] gx.buf@[p] == acc(old(gx).buf@[p], ix_slice(gx.shape.s(), u32data@[0] as int, MM, LO as int), w_id(gys[0].v()), %s, p)")
F(key("slice", "SliceBwImpl", "Bw"), "k_slice_bw", BP, P9, U, kernel="slice::SliceBwImpl",
  req=sl("gys@.len() >= 1, gys[0].wf(), old(gx).wf(), " + SLREQ + "gys[0].shape.s() == s_dim(old(gx).shape.s(), u32data@[0] as int, MM)", "old(gx)", "gys[0]"), valid="gys[0].valid@ && old(gx).valid@",
  ens=OUTX + "final(gx).v() == V_slice_bw(gys[0].v(), old(gx).v(), u32data@[0] as int, u32data@[1] as int)",
  start=h("""proof { lemma_geo(gx.shape.s(), u32data@[0] as int); lemma_geo_dim(gx.shape.s(), u32data@[0] as int, MM); lemma_geo(gys[0].shape.s(), u32data@[0] as int); lemma_upper_pos(gx.shape.s().d, u32data@[0] as int, 8);
      lemma_slix(0, 0, OO, LL, NN, MM, LO as int); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(UU, LL * NN); assert((LL * NN) * UU == UU * (LL * NN)) by (nonlinear_arith);
      assert(gx.shape.s().b * UU == OO); assert(gx.shape.s().b * (UU * (LL * MM)) == OO * (LL * MM)) by (nonlinear_arith) requires gx.shape.s().b * UU == OO; }"""),
  inv={0: h(XF + "en0 == gx.shape.s().b, " + AC % "(it0 * UU) * (LL * MM)"),
       1: h(XF + "en1 == UU, $p_gys0 == ((it0 - 1) * UU + it1) * (LL * MM), " + AC % "((it0 - 1) * UU + it1) * (LL * MM)"),
       2: h(XF + "en2 == LL * MM, $p_gys0 == ((it0 - 1) * UU + it1 - 1) * (LL * MM) + it2, " + AC % "((it0 - 1) * UU + it1 - 1) * (LL * MM) + it2")},
  body={0: h("""proof { lemma_bi(it0 - 1, gx.shape.s().b, UU, 0); lemma_slix((it0 - 1) * UU, 0, OO, LL, NN, MM, LO as int);
           assert(vol(gys[0].shape.s()) * (it0 - 1) == ((it0 - 1) * UU) * (LL * MM)) by (nonlinear_arith) requires vol(gys[0].shape.s()) == UU * (LL * MM);
           assert(vol(gx.shape.s()) * (it0 - 1) == ((it0 - 1) * UU) * (LL * NN)) by (nonlinear_arith) requires vol(gx.shape.s()) == UU * (LL * NN); }"""),
        1: h("""proof { lemma_bi(it0 - 1, gx.shape.s().b, UU, it1 - 1); lemma_slix((it0 - 1) * UU + it1 - 1, 0, OO, LL, NN, MM, LO as int);
           assert(((it0 - 1) * UU + it1 - 1) * (LL * NN) == ((it0 - 1) * UU) * (LL * NN) + (LL * NN) * (it1 - 1)) by (nonlinear_arith); }"""),
        2: h("proof { lemma_slix((it0 - 1) * UU + it1 - 1, it2 - 1, OO, LL, NN, MM, LO as int); }")},
  end=h("proof { assert(gx.v().d =~= V_slice_bw(gys[0].v(), old(gx).v(), u32data@[0] as int, u32data@[1] as int).d); }"))

# ---- pick
def pk(t, X, Y):
    return (t.replace("LL", "low(%s.shape.s(), u32data@[0] as int)" % X).replace("NN", "dm(%s.shape.s(), u32data@[0] as int)" % X)
            .replace("UU", "upper(%s.shape.s().d, u32data@[0] as int, 8)" % X).replace("NB", Y + ".shape.s().b").replace("IDS", "u32data@.skip(1)").replace("SX", X + ".shape.s()").replace("SY", Y + ".shape.s()"))
PKREQ = "u32data@.len() >= 2, valid_pick(SX, IDS, u32data@[0] as int), SY == s_pick(SX, u32data@.len() - 1, u32data@[0] as int), "
PKS = """proof { lemma_geo(SX, u32data@[0] as int); lemma_geo_dim(SX, u32data@[0] as int, 1); lemma_upper_pos(SX.d, u32data@[0] as int, 8); lemma_lv_split(SY.d, u32data@[0] as int, 8);
      lemma_lv_ext(SX.d, SY.d, u32data@[0] as int); lemma_upper_ext(SX.d, SY.d, u32data@[0] as int, 8);
      lemma_pkix(0, 0, 0, SX, IDS, u32data@[0] as int, NB, UU); lemma_sz(SY); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(UU, LL); assert(LL * UU == UU * LL) by (nonlinear_arith); }"""
PKB = {0: "proof { lemma_pkix(it0 - 1, 0, 0, SX, IDS, u32data@[0] as int, NB, UU); }",
       1: "proof { lemma_pkix(it0 - 1, it1 - 1, 0, SX, IDS, u32data@[0] as int, NB, UU); }",
       2: "proof { lemma_pkix(it0 - 1, it1 - 1, it2 - 1, SX, IDS, u32data@[0] as int, NB, UU); }"}
N0, N1, N2 = "it0 * (UU * LL)", "(it0 - 1) * (UU * LL) + it1 * LL", "(it0 - 1) * (UU * LL) + (it1 - 1) * LL + it2"
h = lambda t: pk(t, "xs[0]", "y0")
YP = "forall|p: int| 0 <= p < %s ==> #[trigger] y0.buf@[p] == xs[0].buf@[pkix(p, SX, IDS, u32data@[0] as int)]"
F(key("pick", "PickFwImpl", "Fw"), "k_pick_fw", FP, P9, U, kernel="pick::PickFwImpl",
  req=pk("xs@.len() >= 1, xs[0].wf(), old(y0).wf(), " + PKREQ, "xs[0]", "old(y0)"), valid="xs[0].valid@ && old(y0).valid@",
  ens=OUTY + "final(y0).v() == V_pick(xs[0].v(), u32data@.skip(1), u32data@[0] as int)", start=h(PKS),
  inv={0: h(YF + "en0 == NB, $p_y0 == " + N0 + ", " + YP % N0), 1: h(YF + "en1 == UU, $p_y0 == " + N1 + ", " + YP % N1), 2: h(YF + "en2 == LL, $p_y0 == " + N2 + ", " + YP % N2)},
  body={k: h(v) for k, v in PKB.items()}, end=h("proof { assert(y0.v().d =~= V_pick(xs[0].v(), IDS, u32data@[0] as int).d); }"))
h = lambda t: pk(t, "gx", "gys[0]")
AC = "forall|p: int| 0 <= p < gx.buf@.len() ==> #[trigger] gx.buf@[p] == acc(old(gx).buf@[p], ix_pick(gx.shape.s(), u32data@.skip(1), u32data@[0] as int), w_id(gys[0].v()), %s, p)"
F(key("pick", "PickBwImpl", "Bw"), "k_pick_bw", BP, P9, U, kernel="pick::PickBwImpl",
  req=pk("gys@.len() >= 1, gys[0].wf(), old(gx).wf(), " + PKREQ, "old(gx)", "gys[0]"), valid="gys[0].valid@ && old(gx).valid@",
  ens=OUTX + "final(gx).v() == V_pick_bw(gys[0].v(), old(gx).v(), u32data@.skip(1), u32data@[0] as int)", start=h(PKS),
  inv={0: h(XF + "en0 == NB, $p_gys0 == " + N0 + ", " + AC % N0), 1: h(XF + "en1 == UU, $p_gys0 == " + N1 + ", " + AC % N1), 2: h(XF + "en2 == LL, $p_gys0 == " + N2 + ", " + AC % N2)},
  body={k: h(v) for k, v in PKB.items()}, end=h("proof { assert(gx.v().d =~= V_pick_bw(gys[0].v(), old(gx).v(), IDS, u32data@[0] as int).d); }"))

# ---- batch slice and pick
F(key("batch_slice", "BatchSliceFwImpl", "Fw"), "k_batch_slice_fw", FP, P9, U, kernel="batch_slice::BatchSliceFwImpl",
  req="xs@.len() >= 1, xs[0].wf(), old(y0).wf(), u32data@.len() >= 1, same_dims(xs[0].shape.s(), old(y0).shape.s()), u32data@[0] + old(y0).shape.s().b <= xs[0].shape.s().b", valid="xs[0].valid@ && old(y0).valid@",
  ens=OUTY + "final(y0).v() == V_bslice(xs[0].v(), u32data@[0] as int, u32data@[0] + old(y0).shape.s().b)",
  start="""proof { lemma_sz(xs[0].shape.s()); lemma_sz(y0.shape.s()); let v = vol(xs[0].shape.s()); let o = u32data@[0] as int; let b = y0.shape.s().b;
      assert(v * o + b * v <= xs[0].shape.s().b * v && v * o >= 0 && v * b == b * v) by (nonlinear_arith) requires v >= 1, o >= 0, o + b <= xs[0].shape.s().b; }""",
  inv={0: YF + "en0 == sz(y0.shape.s()), forall|p: int| 0 <= p < it0 ==> #[trigger] y0.buf@[p] == xs[0].buf@[p + vol(xs[0].shape.s()) * u32data@[0]]"},
  end="proof { assert(y0.v().d =~= V_bslice(xs[0].v(), u32data@[0] as int, u32data@[0] + y0.shape.s().b).d); }")
F(key("batch_slice", "BatchSliceBwImpl", "Bw"), "k_batch_slice_bw", BP, P9, U, kernel="batch_slice::BatchSliceBwImpl",
  req="gys@.len() >= 1, gys[0].wf(), old(gx).wf(), u32data@.len() >= 1, same_dims(gys[0].shape.s(), old(gx).shape.s()), u32data@[0] + gys[0].shape.s().b <= old(gx).shape.s().b", valid="gys[0].valid@ && old(gx).valid@",
  ens=OUTX + "final(gx).v() == V_bslice_bw(gys[0].v(), old(gx).v(), u32data@[0] as int)",
  start="""proof { lemma_sz(gx.shape.s()); lemma_sz(gys[0].shape.s()); let v = vol(gx.shape.s()); let o = u32data@[0] as int; let b = gys[0].shape.s().b;
      assert(v * o + b * v <= gx.shape.s().b * v && v * o >= 0 && v * b == b * v) by (nonlinear_arith) requires v >= 1, o >= 0, o + b <= gx.shape.s().b; }""",
  inv={0: XF + "en0 == sz(gys[0].shape.s()), forall|p: int| 0 <= p < gx.buf@.len() ==> #[trigger] gx.buf@[p] == acc(old(gx).buf@[p], ix_bslice(vol(gx.shape.s()), u32data@[0] as int), w_id(gys[0].v()), it0 as int, p)"},
  end="proof { assert(gx.v().d =~= V_bslice_bw(gys[0].v(), old(gx).v(), u32data@[0] as int).d); }")
def bp(t, X, Y):
    return t.replace("SX", X + ".shape.s()").replace("SY", Y + ".shape.s()")
BPREQ = "valid_batch_pick(SX, u32data@), SY == s_batch(SX, u32data@.len() as int), "
BPB = {0: """proof { lemma_bi(it0 - 1, SY.b, vol(SX), 0); assert(u32data@[it0 - 1] < SX.b); lemma_bi(u32data@[it0 - 1] as int, SX.b, vol(SX), 0);
        assert(vol(SX) * u32data@[it0 - 1] == u32data@[it0 - 1] * vol(SX)) by (nonlinear_arith); assert(vol(SX) * (it0 - 1) == (it0 - 1) * vol(SX)) by (nonlinear_arith); }""",
       1: "proof { lemma_dm(it0 - 1, it1 - 1, SY.b, vol(SX)); lemma_bi(u32data@[it0 - 1] as int, SX.b, vol(SX), it1 - 1); }"}
h = lambda t: bp(t, "xs[0]", "y0")
YP = "forall|p: int| 0 <= p < %s ==> #[trigger] y0.buf@[p] == xs[0].buf@[bpix(p, vol(SX), u32data@)]"
F(key("batch_pick", "BatchPickFwImpl", "Fw"), "k_batch_pick_fw", FP, P9, U, kernel="batch_pick::BatchPickFwImpl",
  req=bp("xs@.len() >= 1, xs[0].wf(), old(y0).wf(), " + BPREQ, "xs[0]", "old(y0)"), valid="xs[0].valid@ && old(y0).valid@",
  ens=OUTY + "final(y0).v() == V_bpick(xs[0].v(), u32data@)", start=h("proof { lemma_sz(SX); lemma_sz(SY); }"),
  inv={0: h(YF + "en0 == SY.b, " + YP % "it0 * vol(SX)"), 1: h(YF + "en1 == vol(SX), " + YP % "(it0 - 1) * vol(SX) + it1")},
  body={k: h(v) for k, v in BPB.items()}, end=h("proof { assert(y0.v().d =~= V_bpick(xs[0].v(), u32data@).d); }"))
h = lambda t: bp(t, "gx", "gys[0]")
AC = "forall|p: int| 0 <= p < gx.buf@.len() ==> #[trigger] gx.buf@[p] == acc(old(gx).buf@[p], ix_bpick(vol(gx.shape.s()), u32data@), w_id(gys[0].v()), %s, p)"
F(key("batch_pick", "BatchPickBwImpl", "Bw"), "k_batch_pick_bw", BP, P9, U, kernel="batch_pick::BatchPickBwImpl",
  req=bp("gys@.len() >= 1, gys[0].wf(), old(gx).wf(), " + BPREQ, "old(gx)", "gys[0]"), valid="gys[0].valid@ && old(gx).valid@",
  ens=OUTX + "final(gx).v() == V_bpick_bw(gys[0].v(), old(gx).v(), u32data@)", start=h("proof { lemma_sz(SX); lemma_sz(SY); }"),
  inv={0: h(XF + "en0 == SY.b, " + AC % "it0 * vol(SX)"), 1: h(XF + "en1 == vol(SX), " + AC % "(it0 - 1) * vol(SX) + it1")},
  body={k: h(v) for k, v in BPB.items()}, end=h("proof { assert(gx.v().d =~= V_bpick_bw(gys[0].v(), old(gx).v(), u32data@).d); }"))

# ---- concatenations
CREQ = "(forall|i: int| 0 <= i < xs@.len() ==> (#[trigger] xs@[i]).wf())"
CV = "(forall|i: int| 0 <= i < xs@.len() ==> (#[trigger] xs@[i]).valid@)"
S = "svs(tvs(xs@))"
def c(t):
    return (t.replace("DX", "dm(xs[it0 - 1].shape.s(), DIM)").replace("XX", "xs[it0 - 1].shape.s()").replace("LL", "low(y0.shape.s(), u32data@[0] as int)").replace("NN", "dm(y0.shape.s(), u32data@[0] as int)").replace("UU", "upper(y0.shape.s().d, u32data@[0] as int, 8)")
            .replace("CS", "cat_sum(%s, u32data@[0] as int, " % S).replace("DIM", "u32data@[0] as int").replace("SV_", S))
CAT = "#[trigger] y0.buf@[p] == cat_at(tvs(xs@), DIM, p, y0.shape.s(), %s)"
DONE = "forall|p: int| 0 <= p < y0.buf@.len() && (md(p, LL * NN) < LL * CS it0 - 1) || (md(p, LL * NN) < LL * CS it0 as int) && (dv(p, LL * NN) < %s))) ==> " + CAT % "it0 as int"
F(key("concat", "ConcatFwImpl", "Fw"), "k_concat_fw", FP, P9, U, kernel="concat::ConcatFwImpl", types={"int0": "usize"},
  req="xs@.len() >= 1, u32data@.len() >= 1, old(y0).wf(), " + CREQ + ", " + c("valid_concat(SV_, DIM), old(y0).shape.s() == s_concat(SV_, DIM)"),
  valid=CV + " && old(y0).valid@",
  ens=OUTY + "final(y0).v() == V_concat(tvs(xs@), u32data@[0] as int)",
  start=c("""proof { assert forall|i: int| 0 <= i < SV_.len() implies svwf(#[trigger] SV_[i]) by { assert(xs@[i].wf()); } lemma_cat_geo(SV_, DIM, 0);
     vstd::arithmetic::div_mod::lemma_div_multiples_vanish(UU, LL * NN); assert((LL * NN) * UU == UU * (LL * NN)) by (nonlinear_arith); assert(LL * CS 0) == 0);
     assert forall|p: int| 0 <= p < y0.buf@.len() implies 0 <= #[trigger] md(p, LL * NN) < LL * NN && 0 <= dv(p, LL * NN) < y0.shape.s().b * UU by { lemma_dmp(p, y0.shape.s().b * UU, LL * NN); } }"""),
  inv={0: c("y0.wf(), it0 > 0 ==> y0.valid@, forall|i: int| 0 <= i < it0 ==> (#[trigger] xs@[i]).valid@, y0.shape == old(y0).shape, y0.valid == old(y0).valid, en0 == xs@.len(), $int0 == LL * CS it0 as int), forall|p: int| 0 <= p < y0.buf@.len() && md(p, LL * NN) < LL * CS it0 as int) ==> " + CAT % "it0 as int"),
       1: c(YF + "y0.valid == old(y0).valid, en1 == y0.shape.s().b, $p_y0 == LL * CS it0 - 1) + (it1 * UU) * (LL * NN), " + DONE % "it1 * UU"),
       2: c(YF + "y0.valid == old(y0).valid, en2 == UU, $p_y0 == LL * CS it0 - 1) + ((it1 - 1) * UU + it2) * (LL * NN), $ptr1 == off(xs[it0 - 1].shape.s(), it1 - 1, vol(xs[it0 - 1].shape.s())) + it2 * (LL * DX), " + DONE % "(it1 - 1) * UU + it2"),
       3: c(YF + """y0.valid == old(y0).valid, en3 == LL * DX, $ptr1 == off(xs[it0 - 1].shape.s(), it1 - 1, vol(xs[it0 - 1].shape.s())) + (it2 - 1) * (LL * DX) + it3, """ + DONE % "(it1 - 1) * UU + it2 - 1" + """,
         forall|p: int| 0 <= p < y0.buf@.len() && dv(p, LL * NN) == (it1 - 1) * UU + it2 - 1 && LL * CS it0 - 1) <= md(p, LL * NN) < LL * CS it0 - 1) + it3 ==> """ + CAT % "it0 as int")},
  body={0: c("proof { lemma_cat_geo(SV_, DIM, it0 - 1); assert(xs@[it0 - 1].wf() && SV_[it0 - 1] == XX); lemma_sz(XX); }"),
        1: c("""proof { lemma_bi(it1 - 1, y0.shape.s().b, UU, 0); lemma_bi(it1 - 1, y0.shape.s().b, vol(XX), 0); assert((LL * DX * UU) * (it1 - 1) == (it1 - 1) * vol(XX)) by (nonlinear_arith) requires vol(XX) == (LL * DX) * UU;
             lemma_dm((it1 - 1) * UU, LL * CS it0 - 1), y0.shape.s().b * UU, LL * NN); }"""),
        2: c("""proof { lemma_bi(it1 - 1, y0.shape.s().b, UU, it2 - 1); lemma_dm((it1 - 1) * UU + it2 - 1, LL * CS it0 - 1), y0.shape.s().b * UU, LL * NN); lemma_dm(it2 - 1, 0, UU, LL * DX); }"""),
        3: c("""proof { let a = (it1 - 1) * UU + it2 - 1; let r = LL * CS it0 - 1) + it3 - 1; let m = LL * NN;
             lemma_bi(it1 - 1, y0.shape.s().b, UU, it2 - 1); lemma_dm(a, r, y0.shape.s().b * UU, m); lemma_dm(it2 - 1, r, UU, m); lemma_dm(it2 - 1, it3 - 1, UU, LL * DX);
             lemma_dm(it1 - 1, (it2 - 1) * m + r, y0.shape.s().b, UU * m);
             assert(a * m == (it1 - 1) * (UU * m) + (it2 - 1) * m) by (nonlinear_arith) requires a == (it1 - 1) * UU + it2 - 1;
             lemma_bi(it1 - 1, y0.shape.s().b, vol(XX), 0);
             assert forall|p: int| 0 <= p < y0.buf@.len() && #[trigger] dv(p, m) == a && md(p, m) == r implies p == a * m + r by { lemma_dmp(p, y0.shape.s().b * UU, m); } }""")},
  pre={1: c("proof { assert((it1 * UU) * (LL * NN) == 0) by (nonlinear_arith) requires it1 == 0; assert(it1 * UU == 0) by (nonlinear_arith) requires it1 == 0; }"),
       2: c("proof { assert(it2 * (LL * DX) == 0) by (nonlinear_arith) requires it2 == 0; assert(((it1 - 1) * UU + it2) * (LL * NN) == ((it1 - 1) * UU) * (LL * NN)); assert((it1 - 1) * vol(XX) == vol(XX) * (it1 - 1)) by (nonlinear_arith); }"),
       3: c("proof { assert((it2 - 1) * (LL * DX) + it3 == (it2 - 1) * (LL * DX)); }")},
  end=c("proof { assert(y0.v().d =~= V_concat(tvs(xs@), u32data@[0] as int).d); }"))

F(key("batch_concat", "BatchConcatFwImpl", "Fw"), "k_batch_concat_fw", FP, P9, U, kernel="batch_concat::BatchConcatFwImpl", types={"int0": "usize"},
  req="xs@.len() >= 1, old(y0).wf(), " + CREQ + ", " + "valid_bconcat(SV_), old(y0).shape.s() == s_bconcat(SV_)".replace("SV_", S),
  valid=CV + " && old(y0).valid@", ens=OUTY + "final(y0).v() == V_bconcat(tvs(xs@))",
  start="""proof { assert forall|i: int| 0 <= i < SV_.len() implies svwf(#[trigger] SV_[i]) by { assert(xs@[i].wf()); } lemma_bcat_geo(SV_, 0); lemma_sz(y0.shape.s());
     assert(vol(SV_[0]) * bcat_sum(SV_, SV_.len() as int) == sz(y0.shape.s())) by (nonlinear_arith) requires sz(y0.shape.s()) == bcat_sum(SV_, SV_.len() as int) * vol(SV_[0]); assert(vol(SV_[0]) * bcat_sum(SV_, 0) == 0); }""".replace("SV_", S),
  inv={0: (YF + "forall|i: int| 0 <= i < it0 ==> (#[trigger] xs@[i]).valid@, y0.valid == old(y0).valid, en0 == xs@.len(), $int0 == vol(y0.shape.s()) * bcat_sum(SV_, it0 as int), forall|p: int| 0 <= p < $int0 ==> #[trigger] y0.buf@[p] == bcat_at(tvs(xs@), p, vol(y0.shape.s()), it0 as int)").replace("SV_", S),
       1: (YF + "y0.valid == old(y0).valid, en1 == sz(xs[it0 - 1].shape.s()), forall|p: int| 0 <= p < $int0 + it1 ==> #[trigger] y0.buf@[p] == bcat_at(tvs(xs@), p, vol(y0.shape.s()), it0 as int)").replace("SV_", S)},
  body={0: "proof { lemma_bcat_geo(SV_, it0 - 1); assert(xs@[it0 - 1].wf() && SV_[it0 - 1] == xs[it0 - 1].shape.s()); lemma_sz(xs[it0 - 1].shape.s()); }".replace("SV_", S)},
  end="proof { assert(y0.v().d =~= V_bconcat(tvs(xs@)).d); }")

# ---- device functions
Q9 = ["C09", "C02", "C04"]
D(B, "slice_fw", ["x", "dim", "lower", "upper"], Q9, "Tensor", req="x.wf()", valid="x.valid@ && valid_slice(x.shape.s(), dim as int, lower as int, upper as int)",
  ens="r.full(), r.v() == V_slice(x.v(), dim as int, lower as int, upper as int)")
D(B, "slice_bw", ["gy", "dim", "lower", "gx"], Q9, req="gy.wf(), old(gx).wf()",
  valid="gy.valid@ && old(gx).valid@ && dim < 8 && lower + dm(gy.shape.s(), dim as int) <= dm(old(gx).shape.s(), dim as int) && gy.shape.s() == s_dim(old(gx).shape.s(), dim as int, dm(gy.shape.s(), dim as int))",
  ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == V_slice_bw(gy.v(), old(gx).v(), dim as int, lower as int)", lenient=True)
D(B, "pick_fw", ["x", "ids", "dim"], Q9, "Tensor", req="ids@.len() <= U32M(), x.wf()", valid="x.valid@ && valid_pick(x.shape.s(), ids@, dim as int)",
  ens="r.full(), r.v() == V_pick(x.v(), ids@, dim as int)")
D(B, "pick_bw", ["gy", "ids", "dim", "gx"], Q9, req="ids@.len() <= U32M(), gy.wf(), old(gx).wf()", valid="gy.valid@ && old(gx).valid@ && valid_pick(old(gx).shape.s(), ids@, dim as int) && gy.shape.s() == s_pick(old(gx).shape.s(), ids@.len() as int, dim as int)",
  ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == V_pick_bw(gy.v(), old(gx).v(), ids@, dim as int)")
D(B, "batch_slice_fw", ["x", "lower", "upper"], Q9, "Tensor", req="x.wf()", valid="x.valid@ && valid_batch_slice(x.shape.s(), lower as int, upper as int)",
  ens="r.full(), r.v() == V_bslice(x.v(), lower as int, upper as int)")
D(B, "batch_slice_bw", ["gy", "lower", "gx"], Q9, req="gy.wf(), old(gx).wf()",
  valid="gy.valid@ && old(gx).valid@ && lower + gy.shape.s().b <= old(gx).shape.s().b && same_dims(gy.shape.s(), old(gx).shape.s())",
  ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == V_bslice_bw(gy.v(), old(gx).v(), lower as int)", lenient=True)
D(B, "batch_pick_fw", ["x", "ids"], Q9, "Tensor", req="ids@.len() <= U32M(), x.wf()", valid="x.valid@ && valid_batch_pick(x.shape.s(), ids@)", ens="r.full(), r.v() == V_bpick(x.v(), ids@)")
D(B, "batch_pick_bw", ["gy", "ids", "gx"], Q9, req="ids@.len() <= U32M(), gy.wf(), old(gx).wf()", valid="gy.valid@ && old(gx).valid@ && valid_batch_pick(old(gx).shape.s(), ids@) && gy.shape.s() == s_batch(old(gx).shape.s(), ids@.len() as int)",
  ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == V_bpick_bw(gy.v(), old(gx).v(), ids@)")
HERE = ", forall|i_: int| 0 <= i_ < it0 ==> (#[trigger] xs@[i_]).here()"
SHP = "$vec0@.len() == it0, forall|i: int| 0 <= i < it0 ==> #[trigger] $vec0@[i] == xs[i].shape"
SHE = "proof { assert(shv($vec0@) =~= svs(tvs(xs@))); }"
D(B, "concat_fw", ["xs", "dim"], Q9, "Tensor", req=CREQ, valid=CV + " && valid_concat(svs(tvs(xs@)), dim as int)", ens="r.full(), r.v() == V_concat(tvs(xs@), dim as int)",
  inv={0: "en0 == xs@.len(), " + SHP + HERE}, post={0: SHE})
D(B, "batch_concat_fw", ["xs"], Q9, "Tensor", req=CREQ, valid=CV + " && valid_bconcat(svs(tvs(xs@)))", ens="r.full(), r.v() == V_bconcat(tvs(xs@))",
  inv={0: "en0 == xs@.len(), " + SHP + HERE}, post={0: SHE})
