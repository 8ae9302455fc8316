"""permute_dims (reachable through call_fw_impl / call_bw_impl only)."""
from tables import F
from c_elementwise import FP, BP, key
U = "mat"
P8 = ["C08", "C04"]
def perm(cls, fb, params, X, Y, src, done, ens, write):
    dst = "y0" if fb == "Fw" else "gx"
    def g(t, pre=""):
        t = t.replace("OLD", "old(%s)" % dst)
        a, b = X, Y
        if pre:
            a, b = (("%s(%s)" % (pre, z) if z == dst else z) for z in (a, b))
        return t.replace("XS", a + ".shape.s()").replace("YS", b + ".shape.s()").replace("PP", "u32data@").replace("NN", "(u32data@.len() as int)").replace("DST", dst).replace("SRC", src).replace("$S", "$p_" + src.replace("[0]", "0")).replace("$D", "$p_" + dst)
    ALL = "DST.full(), DST.shape == OLD.shape, "
    ST = "pxs($vec0@, XS.d, NN, NN), pyst($vec1@, YS.d, PP, NN), "
    F(key("permute_dims", cls, fb), "k_permute_dims_%s" % fb.lower(), params, P8, U, kernel="permute_dims::" + cls,
      req=g(src.split("[")[0] + "@.len() >= 1, SRC.wf(), OLD.wf(), perm_ok(PP), perm_shapes(XS, YS, PP)", "old"),
      valid=g("SRC.valid@ && OLD.valid@"), ens=g("final(DST).full(), final(DST).shape == OLD.shape, forall|p: int| 0 <= p < sz(XS) ==> ", "old") + g(ens, "old"),
      types={"int0": "usize", "int1": "usize", "vec0": "Vec<usize>", "vec1": "Vec<usize>"},
      start=g("hide(perm_ok); hide(perm_shapes); hide(pup); hide(pcon); hide(pix); hide(vol); proof { lemma_pvol(XS, YS, PP); lemma_pvol_eq(XS, YS, PP); lemma_pinv(PP); lemma_sz(XS); lemma_sz(YS); }"),
      inv={0: g("*DST == *OLD, en0 == NN, $int0 == lv(XS.d, it0 as int), $int1 == lv(YS.d, it0 as int), pxs($vec0@, XS.d, NN, it0 as int), pyst($vec1@, YS.d, PP, it0 as int)"),
           1: g(ALL + ST + "en1 == XS.b, $S == it1 * vol(XS), $D == it1 * vol(XS), forall|p: int| 0 <= p < sz(XS) ==> " + done.replace("DONE", "p < it1 * vol(XS)")),
           2: g(ALL + ST + "0 < it1 <= en1, en2 == vol(XS), $S == (it1 - 1) * vol(XS), $D == (it1 - 1) * vol(XS), forall|p: int| 0 <= p < sz(XS) ==> " + done.replace("DONE", "p < (it1 - 1) * vol(XS) + it2")),
           3: g(ALL + ST + "en3 == NN, 0 < it2 <= en2, $int2 == (it2 - 1) % lv(XS.d, NN - it3), $int3 == pup(XS, YS, PP, it2 - 1, NN) - pup(XS, YS, PP, it2 - 1, NN - it3)")},
      body={0: g("""proof { let i = it0 - 1; lemma_pstrides(XS, YS, PP, i); }"""),
        1: g("proof { lemma_pix_at(XS, YS, PP, it1 - 1, 0); }"),
        2: g("proof { let i = it2 - 1; lemma_ptgt(XS, YS, PP, i); lemma_pix_at(XS, YS, PP, it1 - 1, i); vstd::arithmetic::div_mod::lemma_small_mod(i as nat, vol(XS) as nat); }"),
        3: g("""proof { let i = it2 - 1; let e = NN - it3; let k = pinv(PP, e);
          assert(0 <= k < NN && PP[k] == e); assert($vec1@[NN - 1 - PP[k]] == lv(YS.d, k)); assert($vec0@[it3 - 1] == lv(XS.d, e));
lemma_pcoord(XS, YS, PP, i, e); }""")},
      bodyend={2: g(write)})
perm("PermuteDimsFwImpl", "Fw", FP, "xs[0]", "y0", "xs[0]",
     "(DONE ==> DST.buf@[#[trigger] pix(XS, YS, PP, p)] == xs[0].buf@[p])", "final(y0).buf@[#[trigger] pix(XS, YS, PP, p)] == xs[0].buf@[p]",
     "proof { assert forall|p: int| 0 <= p < sz(XS) && p != (it1 - 1) * vol(XS) + it2 - 1 implies #[trigger] pix(XS, YS, PP, p) != pix(XS, YS, PP, (it1 - 1) * vol(XS) + it2 - 1) by { if pix(XS, YS, PP, p) == pix(XS, YS, PP, (it1 - 1) * vol(XS) + it2 - 1) { lemma_pix_inj(XS, YS, PP, p, (it1 - 1) * vol(XS) + it2 - 1); } }"
     " assert forall|p: int| 0 <= p < sz(XS) implies 0 <= #[trigger] pix(XS, YS, PP, p) < sz(YS) by { lemma_pix(XS, YS, PP, p); } }")
perm("PermuteDimsBwImpl", "Bw", BP, "gx", "gys[0]", "gys[0]",
     "DST.buf@[p] == (if DONE { OLD.buf@[p] + gys[0].buf@[pix(XS, YS, PP, p)] } else { OLD.buf@[p] })", "#[trigger] final(gx).buf@[p] == OLD.buf@[p] + gys[0].buf@[pix(XS, YS, PP, p)]", "")
