"""Reductions along a dimension or the batch, broadcast, in-place arithmetic."""
from tables import F, L
from c_elementwise import FP, BP, key
from c_device import D, B, A
U = "red"
P7, P17 = ["C07", "C04"], ["C17", "C04"]
G = {"LL": "low(xs[0].shape.s(), u32data@[0] as int)", "NN": "dm(xs[0].shape.s(), u32data@[0] as int)", "OO": "outer(xs[0].shape.s(), u32data@[0] as int)"}
def g(t):
    for k, v in G.items():
        t = t.replace(k, v)
    return t
GEO = "proof { lemma_geo(xs[0].shape.s(), u32data@[0] as int); lemma_geo_dim(xs[0].shape.s(), u32data@[0] as int, 1); }"
RIX = g("proof { lemma_rix(it0 - 1, %s, LL, NN, OO); }")

def red(name, cls, R, tmp, body1="", bodyend1="", body0=""):
    F(key(name, cls, "Fw"), "k_%s_fw" % name, FP, P7, U, kernel="%s::%s" % (name, cls),
      req="xs@.len() >= 1, xs[0].wf(), u32data@.len() >= 1, u32data@[0] < 8, old(y0).wf(), old(y0).shape.s() == s_dim(xs[0].shape.s(), u32data@[0] as int, 1)",
      valid="xs[0].valid@ && old(y0).valid@",
      ens="final(y0).full(), final(y0).shape == old(y0).shape, final(y0).v() == V_red(Red::%s, xs[0].v(), u32data@[0] as int)" % R,
      start=GEO,
      inv={0: g("""y0.full(), y0.shape == old(y0).shape, en0 == sz(y0.shape.s()),
              forall|t: int| 0 <= t < it0 ==> #[trigger] y0.buf@[t] == redv(Red::%s, xs[0].buf@, rbase(t, LL, NN), LL, NN)""" % R),
           1: g(tmp)},
      body={0: RIX % "0" + body0, 1: RIX % "it1 - 1" + body1}, bodyend={1: bodyend1},
      end="proof { assert(y0.v().d =~= V_red(Red::%s, xs[0].v(), u32data@[0] as int).d); }" % R)

red("sum", "SumFwImpl", "Sum", "en1 == NN, $int0 == rbase(it0 - 1, LL, NN) + it1 * LL, $R0.v() == rsum(xs[0].buf@, rbase(it0 - 1, LL, NN), LL, it1 as int)")
red("max", "MaxFwImpl", "Max", "en1 == NN, $int0 == rbase(it0 - 1, LL, NN) + it1 * LL, $R0.v() == rmax(xs[0].buf@, rbase(it0 - 1, LL, NN), LL, it1 as int)")
red("min", "MinFwImpl", "Min", "en1 == NN, $int0 == rbase(it0 - 1, LL, NN) + it1 * LL, $R0.v() == rmin(xs[0].buf@, rbase(it0 - 1, LL, NN), LL, it1 as int)")
red("logsumexp", "LogsumexpFwImpl", "Lse",
    "en1 == NN, it1 >= 1, $int0 == rbase(it0 - 1, LL, NN) + (it1 - 1) * LL, $R0.v() == e_ln(rsumexp(xs[0].buf@, rbase(it0 - 1, LL, NN), LL, it1 as int))",
    body0=g("""proof { reveal_with_fuel(rsumexp, 2); let b = rbase(it0 - 1, LL, NN); axiom_ln_exp(xs[0].buf@[b + 0 * LL]); }"""),
    body1=g("""proof { let b = rbase(it0 - 1, LL, NN); assert((it1 - 2 + 1) * LL == (it1 - 2) * LL + LL) by (nonlinear_arith); lemma_sumexp_pos(xs[0].buf@, b, LL, it1 - 1);
       lemma_lse(rsumexp(xs[0].buf@, b, LL, it1 - 1), xs[0].buf@[b + (it1 - 1) * LL]); }"""))

def extbw(name, cls):
    F(key(name, cls, "Bw"), "k_%s_bw" % name, BP, P7, U, kernel="%s::%s" % (name, cls),
      req="""xs@.len() >= 1, ys@.len() >= 1, gys@.len() >= 1, xs[0].wf(), ys[0].wf(), gys[0].wf(), u32data@.len() >= 1, u32data@[0] < 8, old(gx).wf(),
        old(gx).shape.s() == xs[0].shape.s(), ys[0].shape.s() == s_dim(xs[0].shape.s(), u32data@[0] as int, 1), gys[0].shape.s() == ys[0].shape.s()""",
      valid="xs[0].valid@ && ys[0].valid@ && gys[0].valid@ && old(gx).valid@",
      ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == V_ext_bw(xs[0].v(), ys[0].v(), gys[0].v(), old(gx).v(), u32data@[0] as int)",
      start=GEO,
      inv={0: g("""gx.full(), gx.shape == old(gx).shape, en0 == sz(ys[0].shape.s()),
             forall|p: int| 0 <= p < gx.buf@.len() ==> #[trigger] gx.buf@[p] == acc(old(gx).buf@[p], ix_ext(xs[0].v(), ys[0].v(), u32data@[0] as int), w_id(gys[0].v()), it0 as int, p)""")},
      body={0: RIX % "0", 1: RIX % "it1 - 1"})
    import tables
    e = tables.FNS["k_%s_bw" % name]
    acc = "#[trigger] gx.buf@[p] == acc(old(gx).buf@[p], ix_ext(xs[0].v(), ys[0].v(), u32data@[0] as int), w_id(gys[0].v()), %s, p)"
    FE = g("first_eq(xs[0].buf@, rbase(it0 - 1, LL, NN), LL, NN, ys[0].buf@[it0 - 1], %s)")
    e["inv"][1] = g("gx.full(), gx.shape == old(gx).shape, en1 == NN, $int0 == rbase(it0 - 1, LL, NN) + it1 * LL,\n") + \
        FE % "0" + " == " + FE % "it1 as int" + ",\nforall|p: int| 0 <= p < gx.buf@.len() ==> " + acc % "it0 - 1"
    e["inv"][1] = "EXCEPT_BREAK " + e["inv"][1] + ", ENSURES gx.full(), gx.shape == old(gx).shape, forall|p: int| 0 <= p < gx.buf@.len() ==> " + acc % "it0 as int"
    e["end"] = "proof { assert(gx.v().d =~= V_ext_bw(xs[0].v(), ys[0].v(), gys[0].v(), old(gx).v(), u32data@[0] as int).d); }"
extbw("max", "MaxBwImpl")
extbw("min", "MinBwImpl")

F(key("broadcast", "BroadcastFwImpl", "Fw"), "k_broadcast_fw", FP, P7, U, kernel="broadcast::BroadcastFwImpl",
  req="""xs@.len() >= 1, xs[0].wf(), u32data@.len() >= 2, valid_broadcast(xs[0].shape.s(), u32data@[0] as int, u32data@[1] as int),
       old(y0).wf(), old(y0).shape.s() == s_dim(xs[0].shape.s(), u32data@[0] as int, u32data@[1] as int)""",
  valid="xs[0].valid@ && old(y0).valid@",
  ens="final(y0).full(), final(y0).shape == old(y0).shape, final(y0).v() == V_broadcast(xs[0].v(), u32data@[0] as int, u32data@[1] as int)",
  start="""proof { lemma_geo(xs[0].shape.s(), u32data@[0] as int); lemma_geo_dim(xs[0].shape.s(), u32data@[0] as int, u32data@[1] as int);
      lemma_geo(y0.shape.s(), u32data@[0] as int); }""",
  inv={0: g("""y0.full(), y0.shape == old(y0).shape, en0 == sz(xs[0].shape.s()),
        forall|p: int| 0 <= p < y0.buf@.len() && rproj(p, LL, u32data@[1] as int) < it0 ==> #[trigger] y0.buf@[p] == xs[0].buf@[rproj(p, LL, u32data@[1] as int)]"""),
       1: g("""y0.full(), y0.shape == old(y0).shape, en1 == u32data@[1], $int0 == rbase(it0 - 1, LL, u32data@[1] as int) + it1 * LL,
        forall|p: int| 0 <= p < y0.buf@.len() && (rproj(p, LL, u32data@[1] as int) < it0 - 1 || (rproj(p, LL, u32data@[1] as int) == it0 - 1 && rj(p, LL, u32data@[1] as int) < it1))
          ==> #[trigger] y0.buf@[p] == xs[0].buf@[rproj(p, LL, u32data@[1] as int)]""")},
  body={0: g("proof { lemma_rix(it0 - 1, 0, LL, u32data@[1] as int, OO); }"),
        1: g("""proof { lemma_rix(it0 - 1, it1 - 1, LL, u32data@[1] as int, OO);
         assert forall|p: int| 0 <= p < y0.buf@.len() implies p == rbase(rproj(p, LL, u32data@[1] as int), LL, u32data@[1] as int) + #[trigger] rj(p, LL, u32data@[1] as int) * LL by { lemma_rproj(p, LL, u32data@[1] as int, OO); } }""")},
  post={1: g("proof { assert forall|p: int| 0 <= p < y0.buf@.len() implies #[trigger] rj(p, LL, u32data@[1] as int) < u32data@[1] by { lemma_rproj(p, LL, u32data@[1] as int, OO); } }")},
  end=g("""proof { assert forall|p: int| 0 <= p < y0.buf@.len() implies #[trigger] rproj(p, LL, u32data@[1] as int) < sz(xs[0].shape.s()) by { lemma_rproj(p, LL, u32data@[1] as int, OO); }
     assert(y0.v().d =~= V_broadcast(xs[0].v(), u32data@[0] as int, u32data@[1] as int).d); }"""))

F(key("batch_sum", "BatchSumFwImpl", "Fw"), "k_batch_sum_fw", FP, P7, U, kernel="batch_sum::BatchSumFwImpl",
  req="xs@.len() >= 1, xs[0].wf(), old(y0).wf(), old(y0).shape.s() == s_batch(xs[0].shape.s(), 1)",
  valid="xs[0].valid@ && old(y0).valid@",
  ens="final(y0).full(), final(y0).shape == old(y0).shape, final(y0).v() == V_batch_sum(xs[0].v())",
  start="proof { lemma_sz(xs[0].shape.s()); lemma_sz(y0.shape.s()); }",
  inv={0: """y0.full(), y0.shape == old(y0).shape, en0 == vol(xs[0].shape.s()),
          forall|t: int| 0 <= t < it0 ==> #[trigger] y0.buf@[t] == rsum(xs[0].buf@, t, vol(xs[0].shape.s()), xs[0].shape.s().b)""",
       1: "en1 == xs[0].shape.s().b, $int0 == it0 - 1 + it1 * vol(xs[0].shape.s()), $R0.v() == rsum(xs[0].buf@, it0 - 1, vol(xs[0].shape.s()), it1 as int)"},
  body={1: "proof { lemma_bi(it1 - 1, xs[0].shape.s().b, vol(xs[0].shape.s()), it0 - 1); }"},
  end="proof { assert(y0.v().d =~= V_batch_sum(xs[0].v()).d); }")

for n, c, cmp_ in (("argmax", "ArgmaxImpl", "<="), ("argmin", "ArgminImpl", ">=")):
    F("devices::naive::%s::<%s as FunctionFwU32Impl>::call" % (n, c), "k_" + n, FP, P7, U, kernel="%s::%s" % (n, c),
      req="xs@.len() >= 1, xs[0].wf(), u32data@.len() >= 1, old(y0)@.len() == sz(xs[0].shape.s()) / dm(xs[0].shape.s(), u32data@[0] as int)",
      valid="xs[0].valid@",
      ens=g("final(y0)@.len() == old(y0)@.len(), forall|i: int| 0 <= i < final(y0)@.len() ==> is_%s(xs[0].buf@, rbase(i, LL, NN), LL, NN, #[trigger] final(y0)@[i] as int)" % n),
      start=g("""proof { lemma_geo(xs[0].shape.s(), u32data@[0] as int);
        assert(OO * (LL * NN) == (OO * LL) * NN) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(OO * LL, NN); assert((OO * LL) * NN == NN * (OO * LL)) by (nonlinear_arith); }"""),
      inv={0: g("""y0@.len() == old(y0)@.len(), en0 == OO * LL, en0 == old(y0)@.len(),
             forall|i: int| 0 <= i < it0 ==> is_%s(xs[0].buf@, rbase(i, LL, NN), LL, NN, #[trigger] y0@[i] as int)""" % n),
           1: g("""en1 == NN, 1 <= it1, $int0 == rbase(it0 - 1, LL, NN) + (it1 - 1) * LL, 0 <= $int1 < it1, $R0.v() == xs[0].buf@[rbase(it0 - 1, LL, NN) + $int1 * LL],
             forall|j: int| 0 <= j < it1 ==> #[trigger] xs[0].buf@[rbase(it0 - 1, LL, NN) + j * LL] %s $R0.v()""" % cmp_)},
      types={"int1": "usize"},
      body={0: RIX % "0", 1: RIX % "it1 - 1" + g("proof { assert((it1 - 2 + 1) * LL == (it1 - 2) * LL + LL) by (nonlinear_arith); }")})

for n, c, neg in (("add_assign", "AddAssignImpl", "false"), ("sub_assign", "SubAssignImpl", "true")):
    AC = "forall|p: int| 0 <= p < y0.buf@.len() ==> #[trigger] y0.buf@[p] == acc(old(y0).buf@[p], ixb(y0.shape.s()), w_b(y0.shape.s(), xs[0].v(), NEG), NNN, p)".replace("NEG", neg)
    VOL, BB = "vol(xs[0].shape.s())", "mx(xs[0].shape.s().b, y0.shape.s().b)"
    F(key(n, c, "Fw"), "k_" + n, FP, P17, U, kernel="%s::%s" % (n, c),
      req="xs@.len() >= 1, xs[0].wf(), old(y0).wf(), same_dims(xs[0].shape.s(), old(y0).shape.s()), compat(xs[0].shape.s(), old(y0).shape.s())",
      valid="xs[0].valid@ && old(y0).valid@",
      ens="final(y0).full(), final(y0).shape == old(y0).shape, final(y0).v() == V_add_assign(old(y0).v(), xs[0].v(), %s)" % neg,
      start="proof { lemma_sz(xs[0].shape.s()); lemma_sz(y0.shape.s()); }",
      inv={0: "y0.full(), y0.shape == old(y0).shape, en0 == BB, ?\n?$p_xs0 == off(xs[0].shape.s(), it0 as int, VOL),\n?$p_y0 == off(y0.shape.s(), it0 as int, VOL),\n".replace(", ?\n", ",\n").replace("BB", BB).replace("VOL", VOL) + AC.replace("NNN", "it0 * " + VOL),
           1: "y0.full(), y0.shape == old(y0).shape, en1 == VOL,\n".replace("VOL", VOL) + AC.replace("NNN", "(it0 - 1) * %s + it1" % VOL)},
      head={0: "proof { lemma_bi(it0 as int, %s, %s, 0); }" % (BB, VOL)},
      body={1: "proof { lemma_bi(it0 - 1, BB, VOL, it1 - 1); lemma_bi(0, 1, VOL, it1 - 1); }".replace("BB", BB).replace("VOL", VOL)},
      end="proof { assert(y0.v().d =~= V_add_assign(old(y0).v(), xs[0].v(), %s).d); }" % neg)
F(key("mul_assign", "MulAssignConstImpl", "Fw"), "k_mul_assign_const", FP, P17, U, kernel="mul_assign::MulAssignConstImpl",
  req="old(y0).wf(), f32data@.len() >= 1", valid="old(y0).valid@",
  ens="final(y0).full(), final(y0).shape == old(y0).shape, final(y0).v() == V_un(Op::MulC, old(y0).v(), f32data@[0].v())",
  inv={0: """y0.full(), y0.shape == old(y0).shape, en0 == sz(y0.shape.s()),
     forall|t: int| 0 <= t < it0 ==> #[trigger] y0.buf@[t] == f1(Op::MulC, old(y0).buf@[t], f32data@[0].v()),
     forall|t: int| it0 <= t < y0.buf@.len() ==> #[trigger] y0.buf@[t] == old(y0).buf@[t]"""},
  end="proof { assert(y0.v().d =~= V_un(Op::MulC, old(y0).v(), f32data@[0].v()).d); }")

# ---- device functions
for n, R in (("sum", "Sum"), ("max", "Max"), ("min", "Min"), ("logsumexp", "Lse")):
    D(B, n + "_fw", ["x", "dim"], ["C07", "C02", "C04"], "Tensor", req="x.wf()", valid="x.valid@ && dim < 8",
      ens="r.full(), r.v() == V_red(Red::%s, x.v(), dim as int)" % R, start="proof { if dim < 8 { lemma_shrink(x.shape.s(), dim as int, 1); } }")
for n in ("max", "min"):
    D(B, n + "_bw", ["x", "y", "gy", "dim", "gx"], ["C07", "C02", "C04"], req="x.wf(), y.wf(), gy.wf(), old(gx).wf()",
      valid="x.valid@ && y.valid@ && gy.valid@ && old(gx).valid@ && dim < 8 && x.shape.s() == old(gx).shape.s() && y.shape.s() == gy.shape.s() && y.shape.s() == s_dim(x.shape.s(), dim as int, 1)",
      ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == V_ext_bw(x.v(), y.v(), gy.v(), old(gx).v(), dim as int)",
      start="proof { if dim < 8 { lemma_shrink(x.shape.s(), dim as int, 1); } }")
D(B, "broadcast_fw", ["x", "dim", "size"], ["C07", "C02", "C04"], "Tensor", req="x.wf()", valid="x.valid@ && valid_broadcast(x.shape.s(), dim as int, size as int)",
  ens="r.full(), r.v() == V_broadcast(x.v(), dim as int, size as int)")
D(B, "batch_sum_fw", ["x"], ["C07", "C02", "C04"], "Tensor", req="x.wf()", valid="x.valid@", ens="r.full(), r.v() == V_batch_sum(x.v())",
  start="proof { lemma_sz(x.shape.s()); }")
for n in ("argmax", "argmin"):
    D(B, n, ["x", "dim"], ["C07", "C04"], "Vec<u32>", req="x.wf()", valid="x.valid@",
      ens="r@.len() == sz(x.shape.s()) / dm(x.shape.s(), dim as int), forall|i: int| 0 <= i < r@.len() ==> is_%s(x.buf@, rbase(i, LL, NN), LL, NN, #[trigger] r@[i] as int)".replace("LL", "low(x.shape.s(), dim as int)").replace("NN", "dm(x.shape.s(), dim as int)") % n,
      start="proof { lemma_geo(x.shape.s(), dim as int); }", types={})
for n, neg in (("add_assign", "false"), ("sub_assign", "true")):
    D(A, n, ["x", "y"], ["C17", "C02", "C04"], req="x.wf(), old(y).wf()", valid="x.valid@ && old(y).valid@ && same_dims(x.shape.s(), old(y).shape.s()) && compat(x.shape.s(), old(y).shape.s())",
      ens="final(y).full(), final(y).shape == old(y).shape, final(y).v() == V_add_assign(old(y).v(), x.v(), %s)" % neg)
D(A, "mul_assign_const", ["k", "y"], ["C17", "C04"], req="old(y).wf()", valid="old(y).valid@",
  ens="final(y).full(), final(y).shape == old(y).shape, final(y).v() == V_un(Op::MulC, old(y).v(), k.v())")
