"""Matrix products, transposition, triangular parts, identity, flip, filling."""
from tables import F, L
from c_elementwise import FP, BP, key
from c_device import D, B
U = "mat"
P8, PV = ["C08", "C04"], ["C16", "C04"]

F(key("reset_tensor", "ResetTensorImpl", "Fw"), "k_reset_tensor", FP, PV, U, kernel="reset_tensor::ResetTensorImpl",
  req="old(y0).wf(), f32data@.len() >= 1", valid="old(y0).valid@",
  ens="final(y0).full(), final(y0).shape == old(y0).shape, final(y0).v() == V_const(old(y0).shape.s(), f32data@[0].v())",
  inv={0: "y0.full(), y0.shape == old(y0).shape, en0 == sz(y0.shape.s()), forall|t: int| 0 <= t < it0 ==> #[trigger] y0.buf@[t] == f32data@[0].v()"},
  end="proof { assert(y0.v().d =~= V_const(old(y0).shape.s(), f32data@[0].v()).d); }")
F(key("reset_tensor", "ResetTensorBySliceImpl", "Fw"), "k_reset_tensor_by_slice", FP, PV, U, kernel="reset_tensor::ResetTensorBySliceImpl",
  req="old(y0).wf(), f32data@.len() == sz(old(y0).shape.s())", valid="old(y0).valid@",
  ens="final(y0).full(), final(y0).shape == old(y0).shape, forall|t: int| 0 <= t < f32data@.len() ==> final(y0).buf@[t] == (#[trigger] f32data@[t]).v()",
  inv={0: "y0.full(), y0.shape == old(y0).shape, en0 == sz(y0.shape.s()), forall|t: int| 0 <= t < it0 ==> y0.buf@[t] == (#[trigger] f32data@[t]).v()"})
F("devices::naive::tensor_to_vector::<TensorToVectorImpl as FunctionFwF32Impl>::call", "k_tensor_to_vector", FP, PV, U, kernel="tensor_to_vector::TensorToVectorImpl",
  req="xs@.len() >= 1, xs[0].wf(), old(y0)@.len() == sz(xs[0].shape.s())", valid="xs[0].valid@",
  ens="final(y0)@.len() == old(y0)@.len(), forall|t: int| 0 <= t < final(y0)@.len() ==> (#[trigger] final(y0)@[t]).v() == xs[0].buf@[t]",
  inv={0: "y0@.len() == old(y0)@.len(), en0 == sz(xs[0].shape.s()), forall|t: int| 0 <= t < it0 ==> (#[trigger] y0@[t]).v() == xs[0].buf@[t]"})

# ---- transpose
D1, D2 = "dm(xs[0].shape.s(), 0)", "dm(xs[0].shape.s(), 1)"
def g(t):
    return t.replace("DD1", D1).replace("DD2", D2)
YT = "forall|q: int| 0 <= q < y0.buf@.len() && tr(q, DD1, DD2) < $int1 ==> #[trigger] y0.buf@[q] == xs[0].buf@[tr(q, DD1, DD2)]"
F(key("transpose", "TransposeFwImpl", "Fw"), "k_transpose_fw", FP, P8, U, kernel="transpose::TransposeFwImpl",
  req="xs@.len() >= 1, xs[0].wf(), matrix_s(xs[0].shape.s()), old(y0).wf(), old(y0).shape.s() == s_transpose(xs[0].shape.s())",
  valid="xs[0].valid@ && old(y0).valid@",
  ens="final(y0).full(), final(y0).shape == old(y0).shape, final(y0).v() == V_transpose(xs[0].v())",
  types={"int0": "usize", "int1": "usize"},
  start=g("""proof { lemma_mat(xs[0].shape.s()); lemma_dims2(DD2, DD1); assert(DD1 * DD2 == DD2 * DD1) by (nonlinear_arith); lemma_sz(y0.shape.s()); assert(y0.buf@.len() == xs[0].buf@.len());
      assert forall|q: int| 0 <= q < y0.buf@.len() implies 0 <= #[trigger] tr(q, DD1, DD2) by { lemma_tr(q, xs[0].shape.s().b, DD1, DD2); } }"""),
  inv={0: g("y0.full(), y0.shape == old(y0).shape, en0 == y0.shape.s().b, $int0 == it0 * (DD1 * DD2), $int1 == it0 * (DD1 * DD2), " + YT),
       1: g("y0.full(), y0.shape == old(y0).shape, en1 == DD2, $int2 == (it0 - 1) * (DD1 * DD2) + it1, $int1 == (it0 - 1) * (DD1 * DD2) + it1 * DD1, " + YT),
       2: g("y0.full(), y0.shape == old(y0).shape, en2 == DD1, $int3 == (it0 - 1) * (DD1 * DD2) + (it1 - 1) + it2 * DD2, $int1 == (it0 - 1) * (DD1 * DD2) + (it1 - 1) * DD1 + it2, " + YT)},
  body={0: g("proof { lemma_bi(it0 - 1, xs[0].shape.s().b, DD1 * DD2, 0); }"),
        1: g("proof { lemma_tr_ij(it0 - 1, it1 - 1, 0, xs[0].shape.s().b, DD1, DD2); lemma_ij(it0 - 1, it1 - 1, 0, xs[0].shape.s().b, DD1, DD2); }"),
        2: g("""proof { lemma_tr_ij(it0 - 1, it1 - 1, it2 - 1, xs[0].shape.s().b, DD1, DD2); lemma_ij(it0 - 1, it1 - 1, it2 - 1, xs[0].shape.s().b, DD1, DD2);
           assert forall|q: int| 0 <= q < y0.buf@.len() && tr(q, DD1, DD2) == $int1 implies q == $int3 by { lemma_tr(q, xs[0].shape.s().b, DD1, DD2); lemma_tr($int3 as int, xs[0].shape.s().b, DD1, DD2); } }""")},
  end=g("""proof { assert forall|q: int| 0 <= q < y0.buf@.len() implies #[trigger] y0.buf@[q] == xs[0].buf@[tr(q, DD1, DD2)] by { lemma_tr(q, xs[0].shape.s().b, DD1, DD2); }
      assert(y0.v().d =~= V_transpose(xs[0].v()).d); assert(y0.v().s == s_transpose(xs[0].shape.s())); }"""))

# ---- triangular parts
for n, c, l in (("triangular_l", "TriangularLFwImpl", "true"), ("triangular_u", "TriangularUFwImpl", "false")):
    TT = "forall|q: int| 0 <= q < $int0 ==> #[trigger] y0.buf@[q] == (if tri_keep(LLL, q, DD1, u32data@[0] as int) { xs[0].buf@[q] } else { 0.0real })".replace("LLL", l)
    F(key(n, c, "Fw"), "k_%s_fw" % n, FP, P8, U, kernel="%s::%s" % (n, c),
      req="xs@.len() >= 1, xs[0].wf(), valid_tri(xs[0].shape.s()), u32data@.len() >= 1, old(y0).wf(), old(y0).shape.s() == xs[0].shape.s()",
      valid="xs[0].valid@ && old(y0).valid@",
      ens="final(y0).full(), final(y0).shape == old(y0).shape, final(y0).v() == V_tri(%s, xs[0].v(), u32data@[0] as int)" % l,
      types={"int0": "usize"},
      start="proof { lemma_mat(xs[0].shape.s()); }",
      inv={0: g("y0.full(), y0.shape == old(y0).shape, en0 == y0.shape.s().b, $int0 == it0 * (DD1 * DD1), " + TT),
           1: g("y0.full(), y0.shape == old(y0).shape, en1 == DD1, $int0 == (it0 - 1) * (DD1 * DD1) + it1 * DD1, " + TT),
           2: g("y0.full(), y0.shape == old(y0).shape, en2 == DD1, $int0 == (it0 - 1) * (DD1 * DD1) + (it1 - 1) * DD1 + it2, " + TT)},
      body={0: g("proof { lemma_bi(it0 - 1, y0.shape.s().b, DD1 * DD1, 0); }"),
            1: g("proof { lemma_ij(it0 - 1, it1 - 1, 0, y0.shape.s().b, DD1, DD1); }"),
            2: g("proof { lemma_ij(it0 - 1, it1 - 1, it2 - 1, y0.shape.s().b, DD1, DD1); }")},
      end="proof { assert(y0.v().d =~= V_tri(%s, xs[0].v(), u32data@[0] as int).d); }" % l)

# ---- flip
GL, GN, GO = "low(xs[0].shape.s(), u32data@[0] as int)", "dm(xs[0].shape.s(), u32data@[0] as int)", "outer(xs[0].shape.s(), u32data@[0] as int)"
def flip(cls, fb, params, T, src, dst, val, ens, req):
    gg = lambda t: t.replace("LL", "low(%s.shape.s(), u32data@[0] as int)" % T).replace("NN", "dm(%s.shape.s(), u32data@[0] as int)" % T).replace("OO", "outer(%s.shape.s(), u32data@[0] as int)" % T).replace("DST", dst).replace("SRC", src)
    V = "forall|p: int| 0 <= p < DST.buf@.len() ==> #[trigger] DST.buf@[p] == (if %s { " + val + " } else { old(DST).buf@[p] })"
    F(key("flip", cls, fb), "k_flip_%s" % fb.lower(), params, P8, U, kernel="flip::" + cls,
      req=gg(req).replace(" gx.", " old(gx).").replace("(gx.", "(old(gx)."), valid=gg("SRC.valid@ && old(DST).valid@"), ens=gg("final(DST).full(), final(DST).shape == old(DST).shape, ") + gg(ens),
      start=gg("proof { lemma_geo(T.shape.s(), u32data@[0] as int); assert(OO * (LL * NN) == (OO * LL) * NN) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(OO * LL, NN); assert((OO * LL) * NN == NN * (OO * LL)) by (nonlinear_arith); }").replace("T.shape", T + ".shape"),
      inv={0: gg("DST.full(), DST.shape == old(DST).shape, en0 == NN, " + V % "rj(p, LL, NN) < it0"),
           1: gg("DST.full(), DST.shape == old(DST).shape, en1 == OO * LL, " + V % "rj(p, LL, NN) < it0 - 1 || (rj(p, LL, NN) == it0 - 1 && rproj(p, LL, NN) < it1)")},
      body={1: gg("""proof { lemma_rix(it1 - 1, it0 - 1, LL, NN, OO); lemma_rix(it1 - 1, NN - it0, LL, NN, OO);
            let a = (it1 - 1) / LL; let c = (it1 - 1) % LL;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(it1 - 1, LL);
            assert((it1 - 1) * NN == a * (LL * NN) + c * NN) by (nonlinear_arith) requires it1 - 1 == LL * a + c;
            assert(c * (NN - 1) == c * NN - c) by (nonlinear_arith);
            assert(0 <= c * (NN - 1)) by (nonlinear_arith) requires c >= 0, NN >= 1;
            assert((it1 - 1) * NN <= (OO * LL) * NN) by (nonlinear_arith) requires it1 - 1 <= OO * LL, NN >= 1;
            assert forall|p: int| 0 <= p < DST.buf@.len() implies p == rbase(#[trigger] rproj(p, LL, NN), LL, NN) + rj(p, LL, NN) * LL by { lemma_rproj(p, LL, NN, OO); } }""")},
      post={1: gg("proof { assert forall|p: int| 0 <= p < DST.buf@.len() implies #[trigger] rproj(p, LL, NN) < OO * LL by { lemma_rproj(p, LL, NN, OO); } }")},
      end=gg("proof { assert forall|p: int| 0 <= p < DST.buf@.len() implies 0 <= #[trigger] rj(p, LL, NN) < NN by { lemma_rproj(p, LL, NN, OO); } "))
flip("FlipFwImpl", "Fw", FP, "xs[0]", "xs[0]", "y0", "SRC.buf@[flipix(p, LL, NN)]", "final(y0).v() == V_flip(xs[0].v(), u32data@[0] as int)",
     "xs@.len() >= 1, xs[0].wf(), u32data@.len() >= 1, old(y0).wf(), old(y0).shape.s() == xs[0].shape.s()")
flip("FlipBwImpl", "Bw", BP, "gx", "gys[0]", "gx", "old(gx).buf@[p] + SRC.buf@[flipix(p, LL, NN)]", "final(gx).v() == V_flip_bw(gys[0].v(), old(gx).v(), u32data@[0] as int)",
     "gys@.len() >= 1, gys[0].wf(), u32data@.len() >= 1, old(gx).wf(), old(gx).shape.s() == gys[0].shape.s()")
import tables
tables.FNS["k_flip_fw"]["end"] += "assert(y0.v().d =~= V_flip(xs[0].v(), u32data@[0] as int).d); }"
tables.FNS["k_flip_bw"]["end"] += "assert(gx.v().d =~= V_flip_bw(gys[0].v(), old(gx).v(), u32data@[0] as int).d); }"

# ---- matrix product
def m(t):
    return (t.replace("D1", "dm(xs[0].shape.s(), 0)").replace("D2", "dm(xs[0].shape.s(), 1)").replace("D3", "dm(xs[1].shape.s(), 1)")
            .replace("BB", "mx(xs[0].shape.s().b, xs[1].shape.s().b)"))
MF = "y0.full(), y0.shape == old(y0).shape, "
def MM(k0, i0, j0, kc, ic, sk="sp2 as int", si="8", sj="8"):
    return """forall|p: int| 0 <= p < (it0 - 1) * (D1 * D3) ==> #[trigger] y0.buf@[p] == mm_at(xs[0].v(), xs[1].v(), p, D2),
     forall|p: int| (it0 - 1) * (D1 * D3) <= p < (it0 - 1) * (D1 * D3) + D1 * D3 ==> #[trigger] y0.buf@[p] ==
        mm_at(xs[0].v(), xs[1].v(), p, mmj(mrow(p, D1, D3), mcol(p, D1, D3), D2, %s, %s, %s, %s, %s, %s, %s, %s))""" % (k0, sk, i0, si, j0, sj, kc, ic)
K0, I0, J0 = "it2 - sp2", "it3 - sp3", "it4 - sp4"
MDOT = "dot(xs[0].buf@, off(xs[0].shape.s(), it0 - 1, D1 * D2), D1, it6 - 1, xs[1].buf@, off(xs[1].shape.s(), it0 - 1, D2 * D3), D2, it5 - 1, %s)"
LIJ = """lemma_ij(it0 - 1, it5 - 1, it6 - 1, BB, D1, D3);"""
F(key("matmul", "MatmulFwImpl", "Fw"), "k_matmul_fw", FP, P8, U, kernel="matmul::MatmulFwImpl",
  req="xs@.len() >= 2, xs[0].wf(), xs[1].wf(), valid_matmul(xs[0].shape.s(), xs[1].shape.s()), old(y0).wf(), old(y0).shape.s() == s_matmul(xs[0].shape.s(), xs[1].shape.s())",
  valid="xs[0].valid@ && xs[1].valid@ && old(y0).valid@",
  ens="final(y0).full(), final(y0).shape == old(y0).shape, final(y0).v() == V_matmul(xs[0].v(), xs[1].v())",
  start=m("""proof { lemma_mat(xs[0].shape.s()); lemma_mat(xs[1].shape.s()); lemma_dims2(D1, D3); lemma_mat(y0.shape.s());
     assert forall|p: int| 0 <= p < y0.buf@.len() implies 0 <= #[trigger] mrow(p, D1, D3) < D1 && 0 <= mcol(p, D1, D3) < D3 by { lemma_pij(p, BB, D1, D3); } }"""),
  inv={0: m(MF + """en0 == BB, $p_xs0 == off(xs[0].shape.s(), it0 as int, D1 * D2), $p_xs1 == off(xs[1].shape.s(), it0 as int, D2 * D3), $p_y0 == it0 * (D1 * D3),
         forall|p: int| 0 <= p < it0 * (D1 * D3) ==> #[trigger] y0.buf@[p] == mm_at(xs[0].v(), xs[1].v(), p, D2)"""),
       1: m(MF + """en1 == D1 * D3, forall|p: int| 0 <= p < (it0 - 1) * (D1 * D3) ==> #[trigger] y0.buf@[p] == mm_at(xs[0].v(), xs[1].v(), p, D2),
         forall|p: int| (it0 - 1) * (D1 * D3) <= p < (it0 - 1) * (D1 * D3) + it1 ==> #[trigger] y0.buf@[p] == 0.0real"""),
       2: m(MF + "en2 == D3, " + MM("it2 as int", "0", "0", "it2 as int", "0")),
       3: m(MF + "en3 == D1, " + MM(K0, "it3 as int", "0", K0, "it3 as int", si="sp3 as int")),
       4: m(MF + "en4 == D2, " + MM(K0, I0, "it4 as int", K0, I0, si="sp3 as int", sj="sp4 as int")),
       5: m(MF + "st5 == it2 - sp2, en5 == mn(it2 as int, D3), " + MM(K0, I0, J0, "it5 as int", I0, si="sp3 as int", sj="sp4 as int")),
       6: m(MF + "st6 == it3 - sp3, en6 == mn(it3 as int, D1), " + MM(K0, I0, J0, "it5 - 1", "it6 as int", si="sp3 as int", sj="sp4 as int")),
       7: m("st7 == it4 - sp4, en7 == mn(it4 as int, D2), $R0.v() + " + MDOT % J0 + " == " + MDOT % "it7 as int")},
  body={0: m("proof { lemma_bi(it0 - 1, BB, D1 * D3, 0); lemma_bi(it0 - 1, BB, D1 * D2, 0); lemma_bi(it0 - 1, BB, D2 * D3, 0); }"),
        1: m("proof { lemma_bi(it0 - 1, BB, D1 * D3, it1 - 1); }"),
        5: m("proof { lemma_ij(0, it5 - 1, 0, 1, D1, D3); lemma_ij(0, it5 - 1, 0, 1, D2, D3); }"),
        6: m("""proof { lemma_ij(it0 - 1, it5 - 1, it6 - 1, BB, D1, D3);
           assert forall|p: int| (it0 - 1) * (D1 * D3) <= p < (it0 - 1) * (D1 * D3) + D1 * D3 && #[trigger] mrow(p, D1, D3) == it6 - 1 && mcol(p, D1, D3) == it5 - 1
             implies p == (it0 - 1) * (D1 * D3) + (it5 - 1) * D1 + (it6 - 1) by { lemma_inbatch(p, it0 - 1, BB, D1, D3); } }"""),
        7: m("""proof { lemma_ij(it0 - 1, it7 - 1, it6 - 1, BB, D1, D2); lemma_ij(0, it7 - 1, it6 - 1, 1, D1, D2);
             lemma_ij(it0 - 1, it5 - 1, it7 - 1, BB, D2, D3); lemma_ij(0, it5 - 1, it7 - 1, 1, D2, D3); }""")},
  bodyend={6: m("""proof { let o = (it0 - 1) * (D1 * D3) + (it5 - 1) * D1 + (it6 - 1);
       assert(mrow(o, D1, D3) == it6 - 1 && mcol(o, D1, D3) == it5 - 1 && o / (D1 * D3) == it0 - 1);
       assert(mm_at(xs[0].v(), xs[1].v(), o, mn(it4 as int, D2)) == """ + MDOT % "mn(it4 as int, D2)" + """);
       assert(y0.buf@[o] == mm_at(xs[0].v(), xs[1].v(), o, mn(it4 as int, D2))); }""")},
  end="proof { assert(y0.v().d =~= V_matmul(xs[0].v(), xs[1].v()).d); }", rlimit=300)

# ---- device functions
Q8 = ["C08", "C02", "C04"]
D(B, "matmul_fw", ["a", "b"], Q8, "Tensor", req="a.wf(), b.wf()", valid="a.valid@ && b.valid@ && valid_matmul(a.shape.s(), b.shape.s())", ens="r.full(), r.v() == V_matmul(a.v(), b.v())")
D(B, "transpose_fw", ["x"], Q8, "Tensor", req="x.wf()", valid="x.valid@ && matrix_s(x.shape.s())", ens="r.full(), r.v() == V_transpose(x.v())")
for n, l in (("triangular_l", "true"), ("triangular_u", "false")):
    D(B, n + "_fw", ["x", "k"], Q8, "Tensor", req="x.wf()", valid="x.valid@ && valid_tri(x.shape.s())", ens="r.full(), r.v() == V_tri(%s, x.v(), k as int)" % l)

# ---- backward kernels (through the device functions) and the identity
for n, neg in (("add_assign", "false"), ("sub_assign", "true")):
    tr = "AddAssign" if n[0] == "a" else "SubAssign"
    for i, (ty, ps) in enumerate((("&Tensor", ["x", "other"]), ("Tensor", ["x", "other"]))):
        F("functions::arithmetic::tensor::<Tensor as %s<%s>>::%s" % (tr, ty, n), "t_%s%d" % (n, i), ps, ["C17", "C02", "C04"], "ten",
          req="other.wf(), old(x).wf()", valid="other.valid@ && old(x).valid@ && same_dims(other.shape.s(), old(x).shape.s()) && compat(other.shape.s(), old(x).shape.s())",
          ens="final(x).full(), final(x).shape == old(x).shape, final(x).v() == V_add_assign(old(x).v(), other.v(), %s)" % neg,
          ops=["Tensor %s %s" % (n, ty)])
MULB = """xs@.len() >= 2, gys@.len() >= 1, xs[0].wf(), xs[1].wf(), gys[0].wf(), valid_matmul(xs[0].shape.s(), xs[1].shape.s()), gys[0].shape.s() == s_matmul(xs[0].shape.s(), xs[1].shape.s()),
     old(gx).wf(), old(gx).shape.s() == xs[%d].shape.s()"""
ML = """proof { lemma_mat(xs[0].shape.s()); lemma_mat(xs[1].shape.s()); lemma_dims2(D1, D3); lemma_mat(gys[0].shape.s()); lemma_dims2(D3, D2); lemma_dims2(D2, D1); lemma_dims2(D1, D2); lemma_dims2(D2, D3);
   assert(D1 * D2 == D2 * D1) by (nonlinear_arith); assert(D3 * D2 == D2 * D3) by (nonlinear_arith); lemma_mm_sz(xs[0].shape.s().b, xs[1].shape.s().b, D1 * D2); lemma_mm_sz(xs[0].shape.s().b, xs[1].shape.s().b, D2 * D3); }"""
F(key("matmul", "MatmulBwAImpl", "Bw"), "k_matmul_bw_a", BP, P8, U, kernel="matmul::MatmulBwAImpl",
  req=MULB % 0, valid="xs[1].valid@ && gys[0].valid@ && old(gx).valid@ && BB * (D1 * D2) <= U32M()".replace("BB", "mx(xs[0].shape.s().b, xs[1].shape.s().b)").replace("D1", "dm(xs[0].shape.s(), 0)").replace("D2", "dm(xs[0].shape.s(), 1)"),
  ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == V_matmul_bw_a(xs[1].v(), gys[0].v(), old(gx).v())", start=m(ML))
F(key("matmul", "MatmulBwBImpl", "Bw"), "k_matmul_bw_b", BP, P8, U, kernel="matmul::MatmulBwBImpl",
  req=MULB % 1, valid=m("xs[0].valid@ && gys[0].valid@ && old(gx).valid@ && BB * (D2 * D3) <= U32M()"),
  ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == V_matmul_bw_b(xs[0].v(), gys[0].v(), old(gx).v())", start=m(ML))
F(key("transpose", "TransposeBwImpl", "Bw"), "k_transpose_bw", BP, P8, U, kernel="transpose::TransposeBwImpl",
  req="gys@.len() >= 1, gys[0].wf(), matrix_s(gys[0].shape.s()), old(gx).wf(), s_transpose(old(gx).shape.s()) == gys[0].shape.s(), matrix_s(old(gx).shape.s())",
  valid="gys[0].valid@ && old(gx).valid@",
  ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == V_add_assign(old(gx).v(), V_transpose(gys[0].v()), false)",
  start="proof { lemma_mat(gys[0].shape.s()); lemma_mat(gx.shape.s()); lemma_dims2(dm(gx.shape.s(), 0), dm(gx.shape.s(), 1)); lemma_dims2(dm(gx.shape.s(), 1), dm(gx.shape.s(), 0)); assert(s_transpose(gys[0].shape.s()).d =~= gx.shape.s().d); }")
for n, c, l in (("triangular_l", "TriangularLBwImpl", "true"), ("triangular_u", "TriangularUBwImpl", "false")):
    F(key(n, c, "Bw"), "k_%s_bw" % n, BP, P8, U, kernel="%s::%s" % (n, c),
      req="gys@.len() >= 1, gys[0].wf(), u32data@.len() >= 1, old(gx).wf(), old(gx).shape.s() == gys[0].shape.s()",
      valid="gys[0].valid@ && old(gx).valid@ && valid_tri(gys[0].shape.s())",
      ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == V_add_assign(old(gx).v(), V_tri(%s, gys[0].v(), u32data@[0] as int), false)" % l)
YN = "dm(y0.shape.s(), 0)"
F(key("identity", "IdentityImpl", "Fw"), "k_identity", FP, ["C08"] + PV, U, kernel="identity::IdentityImpl",
  req="old(y0).wf(), valid_tri(old(y0).shape.s()), old(y0).shape.s().b == 1", valid="old(y0).valid@",
  ens="final(y0).full(), final(y0).shape == old(y0).shape, final(y0).v() == V_identity(old(y0).shape.s())",
  start="proof { lemma_mat(y0.shape.s()); }",
  inv={0: "y0.full(), y0.shape == old(y0).shape, en0 == NN, forall|p: int| 0 <= p < y0.buf@.len() ==> #[trigger] y0.buf@[p] == (if row(p, NN) == col(p, NN) && col(p, NN) < it0 { 1.0real } else { 0.0real })".replace("NN", YN)},
  body={0: """proof { lemma_ij(0, it0 - 1, it0 - 1, 1, NN, NN); assert((it0 - 1) * (NN + 1) == (it0 - 1) * NN + (it0 - 1)) by (nonlinear_arith);
      assert forall|p: int| 0 <= p < y0.buf@.len() && #[trigger] row(p, NN) == it0 - 1 && col(p, NN) == it0 - 1 implies p == (it0 - 1) * (NN + 1) by { lemma_pij(p, 1, NN, NN); } }""".replace("NN", YN)},
  end="""proof { assert forall|p: int| 0 <= p < y0.buf@.len() implies #[trigger] col(p, NN) < NN by { lemma_pij(p, 1, NN, NN); } assert(y0.v().d =~= V_identity(old(y0).shape.s()).d); }""".replace("NN", YN))
D(B, "matmul_bw_a", ["a", "b", "y", "gy", "ga"], Q8, req="a.wf(), b.wf(), y.wf(), gy.wf(), old(ga).wf()",
  valid="b.valid@ && gy.valid@ && old(ga).valid@ && a.shape.s() == old(ga).shape.s() && y.shape.s() == gy.shape.s() && valid_matmul(a.shape.s(), b.shape.s()) && y.shape.s() == s_matmul(a.shape.s(), b.shape.s()) && mx(a.shape.s().b, b.shape.s().b) * (dm(a.shape.s(), 0) * dm(a.shape.s(), 1)) <= U32M()",
  ens="final(ga).full(), final(ga).shape == old(ga).shape, final(ga).v() == V_matmul_bw_a(b.v(), gy.v(), old(ga).v())")
D(B, "matmul_bw_b", ["a", "b", "y", "gy", "gb"], Q8, req="a.wf(), b.wf(), y.wf(), gy.wf(), old(gb).wf()",
  valid="a.valid@ && gy.valid@ && old(gb).valid@ && b.shape.s() == old(gb).shape.s() && y.shape.s() == gy.shape.s() && valid_matmul(a.shape.s(), b.shape.s()) && y.shape.s() == s_matmul(a.shape.s(), b.shape.s()) && mx(a.shape.s().b, b.shape.s().b) * (dm(b.shape.s(), 0) * dm(b.shape.s(), 1)) <= U32M()",
  ens="final(gb).full(), final(gb).shape == old(gb).shape, final(gb).v() == V_matmul_bw_b(a.v(), gy.v(), old(gb).v())")
BV = "gy.valid@ && old(gx).valid@ && x.shape.s() == old(gx).shape.s() && y.shape.s() == gy.shape.s() && "
D(B, "transpose_bw", ["x", "y", "gy", "gx"], Q8, req="x.wf(), y.wf(), gy.wf(), old(gx).wf()", valid=BV + "matrix_s(x.shape.s()) && y.shape.s() == s_transpose(x.shape.s())",
  ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == V_add_assign(old(gx).v(), V_transpose(gy.v()), false)", start="proof { lemma_dims2(dm(x.shape.s(), 1), dm(x.shape.s(), 0)); }")
for n, l in (("triangular_l", "true"), ("triangular_u", "false")):
    D(B, n + "_bw", ["x", "y", "gy", "k", "gx"], Q8, req="x.wf(), y.wf(), gy.wf(), old(gx).wf()", valid=BV + "y.shape.s() == x.shape.s() && valid_tri(x.shape.s())",
      ens="final(gx).full(), final(gx).shape == old(gx).shape, final(gx).v() == V_add_assign(old(gx).v(), V_tri(%s, gy.v(), k as int), false)" % l)
