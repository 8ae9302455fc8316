"""argsort: positions along each line in ascending order of their elements."""
from tables import F, L
from c_reduce import g, FP, P7, B, D
from c_tensor import T, Q7

L("sort_idx", ok=True)
LN = "(LL * NN)"
GEO = g("""proof { lemma_geo(xs[0].shape.s(), u32data@[0] as int);
        assert(OO * (LL * NN) == (OO * LL) * NN) by (nonlinear_arith); }""")
INI = "forall|q: int| 0 <= q < CNT ==> #[trigger] $vec0@[q] == ini(q, LL, NN)"
SC = "forall|p: int| 0 <= p < y0@.len() && lpos(p, LL, NN) < CNT ==> #[trigger] y0@[p] == $vec0@[lpos(p, LL, NN)] as u32"
def inv3(k, body):
    """the three nested loops over blocks, lines of a block, elements of a line"""
    a, b, c = "(it%d as int)" % k, "(it%d as int)" % (k + 1), "(it%d as int)" % (k + 2)
    off = "(%s - LL * NN)" % a
    F_ = "$vec0@.len() == sz(xs[0].shape.s()), y0@.len() == sz(xs[0].shape.s())"
    return {k: g("%s, sp%d == LL * NN, en%d == sz(xs[0].shape.s()), %s <= en%d, %s %% (LL * NN) == 0, " % (F_, k, k, a, k, a) + body.replace("CNT", a)),
            k + 1: g("%s, en%d == LL, " % (F_, k + 1) + body.replace("CNT", "%s + %s * NN" % (off, b))),
            k + 2: g("%s, en%d == NN, " % (F_, k + 2) + body.replace("CNT", "%s + (%s - 1) * NN + %s" % (off, b, c)))}
def blk0(k):
    return g("proof { lemma_blk(it%d as int - LL * NN, 0, 0, LL, NN, OO); }" % k)
def blk1(k):
    return g("proof { lemma_blk(it%d as int - LL * NN, it%d as int - 1, 0, LL, NN, OO); }" % (k, k + 1))
def blk(k):
    return g("proof { lemma_blk(it%d as int - LL * NN, it%d as int - 1, it%d as int - 1, LL, NN, OO); }" % (k, k + 1, k + 2))
LINES = "forall|c: int| 0 <= c < OO * LL ==> is_argsort(%s, #[trigger] rbase(c, LL, NN), LL, NN)"

inv = {}
inv.update(inv3(0, INI))
inv[3] = g("""$vec0@.len() == sz(xs[0].shape.s()), y0@.len() == sz(xs[0].shape.s()), sp3 == NN, en3 == sz(xs[0].shape.s()), (it3 as int) % NN == 0, (it3 as int) <= en3,
    forall|q: int| (it3 as int) <= q < $vec0@.len() ==> #[trigger] $vec0@[q] == ini(q, LL, NN),
    forall|c: int| 0 <= c < (it3 as int) / (NN) ==> #[trigger] srt(xs[0].buf@, $vec0@, c, LL, NN)""")
inv.update(inv3(4, SC + ", forall|c: int| 0 <= c < OO * LL ==> #[trigger] srt(xs[0].buf@, $vec0@, c, LL, NN)"))
F("devices::naive::argsort::<ArgsortImpl as FunctionFwU32Impl>::call", "k_argsort", FP, P7, "red", kernel="argsort::ArgsortImpl",
  req="xs@.len() >= 1, xs[0].wf(), u32data@.len() >= 1, old(y0)@.len() == sz(xs[0].shape.s())",
  valid="xs[0].valid@",
  ens=g("final(y0)@.len() == old(y0)@.len(), " + LINES % "xs[0].buf@, final(y0)@"),
  start=GEO, inv=inv, types={"vec0": "Vec<usize>"},
  pre={0: g("proof { assert(0int % (LL * NN) == 0) by (nonlinear_arith) requires LL * NN >= 1; }"),
       3: g("proof { assert(0int % (NN) == 0 && 0int / (NN) == 0) by (nonlinear_arith) requires NN >= 1; assert(OO * (LL * NN) == (OO * LL) * NN) by (nonlinear_arith); }"),
       4: g("""proof { assert(0int % (LL * NN) == 0) by (nonlinear_arith) requires LL * NN >= 1;
         assert forall|p: int| 0 <= p < y0@.len() implies 0 <= #[trigger] lpos(p, LL, NN) by { lemma_lpos(p, LL, NN, OO); } }""")},
  body={0: blk0(0), 1: blk1(0), 2: blk(0), 4: blk0(4), 5: blk1(4), 6: blk(4) + g("proof { assert forall|p: int| 0 <= p < y0@.len() implies ini(#[trigger] lpos(p, LL, NN), LL, NN) == p by { lemma_lpos(p, LL, NN, OO); } }"),
    3: g("""let ghost w0 = $vec0@; let ghost a3 = (it3 as int) - NN; let ghost c3 = a3 / (NN);
      proof { lemma_step(a3, NN, OO * LL);
        assert forall|q: int| a3 <= q < a3 + NN implies 0 <= ini(q, LL, NN) < sz(xs[0].shape.s()) && #[trigger] $vec0@[q] == ini(q, LL, NN) by { lemma_qdiv(q, NN, OO * LL); lemma_rix(q / (NN), q % (NN), LL, NN, OO); }
      }""")},
  bodyend={3: g("""proof {
        let p = choose|p: Seq<int>| #[trigger] permuted(w0, $vec0@, a3, a3 + NN, p);
        assert(permuted(w0, $vec0@, a3, a3 + NN, p));
        assert(a3 == c3 * NN);
        assert forall|k: int| 0 <= k < NN implies #[trigger] $vec0@[c3 * NN + k] == w0[c3 * NN + p[k]] by { assert(w0[a3 + p[k]] == $vec0@[a3 + k]); }
        lemma_srt_init(xs[0].buf@, w0, $vec0@, p, c3, LL, NN, OO);
        assert forall|c: int| 0 <= c < (it3 as int) / (NN) implies #[trigger] srt(xs[0].buf@, $vec0@, c, LL, NN) by {
          if c < c3 { assert((c + 1) * NN <= c3 * NN) by (nonlinear_arith) requires c + 1 <= c3, NN >= 1; lemma_srt_frame(xs[0].buf@, w0, $vec0@, c, a3, LL, NN); }
        } }""")},
  post={3: g("proof { lemma_qend(OO * LL, NN); }")},
  end=g("proof { assert forall|p: int| 0 <= p < y0@.len() implies #[trigger] lpos(p, LL, NN) < y0@.len() by { lemma_lpos(p, LL, NN, OO); } lemma_argsort(xs[0].buf@, $vec0@, y0@, LL, NN, OO); }"))
def xl(s): return s.replace("OO", "outer(x.shape.s(), dim as int)").replace("LL", "low(x.shape.s(), dim as int)").replace("NN", "dm(x.shape.s(), dim as int)")
D(B, "argsort", ["x", "dim"], ["C07", "C04"], "Vec<u32>", req="x.wf()", valid="x.valid@",
  ens="r@.len() == sz(x.shape.s()), " + xl(LINES % "x.buf@, r@"), start="proof { lemma_geo(x.shape.s(), dim as int); }", types={})
T("argsort", ["dim"], Q7, "r@.len() == sz(x.shape.s()), " + xl(LINES % "x.buf@, r@"), ret="Vec<u32>")
