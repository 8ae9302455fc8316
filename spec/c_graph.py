"""The graph behind the nodes: creation of operations, evaluation, backpropagation (graph.rs)."""
from tables import F
U = "graph"
P = ["C10", "C11"]
for m, r, ens in (("Ord", "cmp", "ord_is(r, h.g().ops[a as int].depth, h.g().ops[b as int].depth)"),
                  ("PartialOrd", "partial_cmp", "r is Some && ord_is(r->0, h.g().ops[a as int].depth, h.g().ops[b as int].depth)"),
                  ("PartialEq", "eq", "r == (h.g().ops[a as int].depth == h.g().ops[b as int].depth)")):
    F("graph::<OperatorInfoCmp as %s>::%s" % (m, r), "oic_" + r, ["a", "b"], P, U, self_kind="heap&", req="isop(h.g(), a as int), isop(h.g(), b as int)", ens=ens,
      ret={"cmp": "Ordr", "partial_cmp": "Option<Ordr>", "eq": "bool"}[r], method="OperatorInfoCmp." + r)
for n, m in (("value", "val"), ("gradient", "grad")):
    F("graph::Node::inner_" + n, "g_inner_" + n, ["n"], P, U, self_kind="heap&", ret="Tensor", method="GNode.inner_" + n,
      req="nok(h.g(), *n), free(h.g())", ens="r == h.g().%s[al(n.data)]" % m)

# ---- evaluation
G0 = "old(h).g()"
BFS = "bfs(%s.ops, op as int, set0@, queue0@, pq0@), " % G0
POPPED = """proof { lemma_pop(q0_, cur0 as int); assert(bfs(%s.ops, op as int, set0@, queue0@, pq0@)); lemma_bfs_m(%s.ops, op as int, set0@, queue0@, pq0@); }""" % (G0, G0)
BFSIN = (BFS + "bfs_kept(G.ops, set0@, pq0@), isop(G, cur0 as int), !queue0@.contains(cur0 as int), !pq0@.contains(cur0 as int), set0@.contains(cur0 as int) || cur0 == op, "
  "forall|i: int| #[trigger] set0@.contains(i) ==> queue0@.contains(i) || pq0@.contains(i) || i == cur0, queue0@.contains(op as int) || pq0@.contains(op as int) || cur0 == op, ").replace("G.", G0 + ".").replace("(G,", "(" + G0 + ",")
def BFSARGS(sl, k, extra):
    return (BFSIN + extra + "SL@ == G.ops[cur0 as int].args, enK == SL@.len(), bfs_m(G.ops, set0@, queue0@) <= m0_, "
            "forall|p: int| 0 <= p < itK ==> set0@.contains((#[trigger] SL@[p]).op as int)").replace("SL", sl).replace("K", str(k)).replace("G.", G0 + ".")
def BFSARG(sl, k):
    return """proof { lemma_bfs_arg(G, op as int, cur0 as int, ixK as int); lemma_push(queue0@, SL@[ixK as int].op as int); }
      let ghost s1_ = set0@; let ghost q1_ = queue0@;""".replace("SL", sl).replace("K", str(k)).replace("G,", G0 + ",")
def BFSARGE(sl, k):
    return """proof { let a_ = SL@[ixK as int].op as int; if !s1_.contains(a_) { assert(set0@ =~= s1_.insert(a_)); assert(set0@.len() == s1_.len() + 1); assert(queue0@.contains(a_)); } }""".replace("SL", sl).replace("K", str(k))
BFSEND = "proof { lemma_bfs_m(%s.ops, op as int, set0@, queue0@, pq0@); assert(bfs_m(%s.ops, set0@, queue0@) < bfs_m(%s.ops, s0_, q0_)); }" % (G0, G0, G0)
DONE = "proof { lemma_bfs_done(%s.ops, op as int, set0@, queue0@, pq0@); } let ghost pp = pq0@;" % G0
VALS = "(forall|l: Loc| isloc(G, l) ==> #[trigger] valok(h.g(), l)), (forall|i: int| isop(G, i) ==> #[trigger] cntok(h.g(), i)), "
FW = ("h.g() == (HV { val: h.g().val, fwd: h.g().fwd, cnt: h.g().cnt, ..G }), " + VALS +
      "forall|i: int| pq0@.contains(i) ==> #[trigger] pp.contains(i), forall|i: int| #[trigger] h.g().fwd.contains(i) <==> G.fwd.contains(i) || (pp.contains(i) && !pq0@.contains(i)), "
      "forall|l: Loc| isloc(G, l) && (G.fwd.contains(l.0) || !h.g().fwd.contains(l.0)) ==> #[trigger] h.g().val[l] == G.val[l]").replace("G.", G0 + ".").replace("G,", G0 + ",").replace("..G ", ".." + G0 + " ")
F("graph::forward", "graph_forward", ["op"], P, U, self_kind="heap", path="graph::forward",
  req="hwf(old(h).g()), isop(old(h).g(), op as int)", ens="fwd_post(old(h).g(), final(h).g(), op as int)",
  inv={0: BFS + "h.g() == %s, bfs_kept(%s.ops, set0@, pq0@), bfs_all(op as int, set0@, queue0@, pq0@)" % (G0, G0),
       1: "h.g() == %s, " % G0 + BFSARGS("sl_1", 1, ""),
       2: FW,
       3: "vec3@.len() == it3, forall|k: int| 0 <= k < it3 ==> #[trigger] vec3@[k] == g2_.val[al(g2_.ops[cur2 as int].args[k])], h.g() == (HV { sh: h.g().sh, ..g2_ }), forall|x: (bool, Loc)| #[trigger] h.g().sh.contains(x) ==> x.1.0 < cur2",
       4: "vec4@.len() == it4, forall|k: int| 0 <= k < it4 ==> ul(#[trigger] vec4@[k]) == (cur2 as int, k), h.g() == (HV { sh: h.g().sh, ex: h.g().ex, ..g2_ }), forall|x: (bool, Loc)| #[trigger] h.g().sh.contains(x) ==> x.1.0 < cur2, "
          "forall|x: (bool, Loc)| #[trigger] h.g().ex.contains(x) <==> !x.0 && x.1.0 == cur2 && 0 <= x.1.1 < it4"},
  dec={0: "bfs_m(%s.ops, set0@, queue0@)" % G0, 2: "pq0@.len()"},
  head={0: "let ghost q0_ = queue0@; let ghost s0_ = set0@; proof { lemma_bfs_m(%s.ops, op as int, set0@, queue0@, pq0@); }" % G0, 2: "let ghost w0_ = pq0@; let ghost g1_ = h.g();"},
  body={0: POPPED + " let ghost m0_ = bfs_m(%s.ops, set0@, queue0@);" % G0, 1: BFSARG("sl_1", 1),
        2: "proof { lemma_frame(G, g1_); assert(pp.contains(cur2 as int)); lemma_reach_lt(G.ops, op as int, cur2 as int); assert(opwf(g1_, cur2 as int)); } let ghost mut v4_: Seq<(usize, usize)> = Seq::empty(); let ghost g2_ = (HV { fwd: g1_.fwd.insert(cur2 as int), ..g1_ });".replace("G.", G0 + ".").replace("G,", G0 + ","),
        3: "proof { let p_ = ix3 as int; lemma_bfs_arg(G, op as int, cur2 as int, p_); }".replace("G,", G0 + ","),
        },
  pre={0: "proof { lemma_push(Seq::<int>::empty(), op as int); }"},
  bodyend={2: """proof { if !g1_.fwd.contains(cur2 as int) {
      assert forall|l: Loc| isloc(G, l) implies #[trigger] valok(h.g(), l) by { assert(valok(g1_, l)); assert(opwf(G, l.0)); if l.0 == cur2 { assert(ul(v4_[l.1]) == l); } }
      assert forall|i: int| isop(G, i) implies #[trigger] cntok(h.g(), i) by { assert(cntok(g1_, i)); } } }""".replace("G.", G0 + ".").replace("G,", G0 + ","), 0: BFSEND, 1: BFSARGE("sl_1", 1)}, post={0: DONE, 4: """proof {
      let x_ = G.ops[cur2 as int];
      assert forall|p: int| 0 <= p < vec3@.len() implies (#[trigger] vec3@[p]).full() && vec3@[p].v() == arg_evs(G.ops, x_.args)[p] && vec3@[p].v().s == arg_shapes(G.ops, x_.args)[p] by {
          lemma_bfs_arg(G, op as int, cur2 as int, p); let l_ = al(x_.args[p]); assert(pp.contains(l_.0)); assert(isloc(G, l_)); assert(valok(g1_, l_)); assert(g1_.fwd.contains(l_.0)); assert(opwf(G, l_.0));
      }
      assert(vtv(vec3@) =~= arg_evs(G.ops, x_.args)); assert(svs(vtv(vec3@)) =~= arg_shapes(G.ops, x_.args));
      assert forall|k: int| 0 <= k < vec4@.len() implies isloc(G, #[trigger] ul(vec4@[k])) && valok(g1_, ul(vec4@[k])) by { assert(isloc(G, (cur2 as int, k))); }
      v4_ = vec4@; }""".replace("G.", G0 + ".").replace("G,", G0 + ","), 2: "proof { lemma_frame(%s, h.g()); }" % G0})

# ---- backpropagation
def q(t):
    return t.replace("G.", G0 + ".").replace("G,", G0 + ",").replace("..G ", ".." + G0 + " ").replace("RR", "(op as int, vid as int)")
ZD = "(forall|l: Loc| isloc(G, l) ==> #[trigger] zd(G, h.g(), pq0@, %s, l)), h.g() == (HV { grad: h.g().grad, ..G }), "
SH = "h.g() == (HV { sh: h.g().sh, ..g3_ }), forall|x: (bool, Loc)| #[trigger] h.g().sh.contains(x) ==> %s"
F("graph::backward", "graph_backward", ["op", "vid"], P, U, self_kind="heap", path="graph::backward",
  req=q("hwf(old(h).g()), isloc(G, RR), forall|i: int| reach(G.ops, op as int, i) ==> #[trigger] G.fwd.contains(i), forall|i: int| reach(G.ops, op as int, i) ==> #[trigger] bwfit(G.ops, i)"),
  ens="hwf(final(h).g()), chain(old(h).g(), final(h).g(), (op as int, vid as int))",
  inv={0: q(ZD % "-1, 0" + BFS + "bfs_kept(G.ops, set0@, pq0@), bfs_all(op as int, set0@, queue0@, pq0@)"),
       1: q(ZD % "cur0 as int, it1 as int" + BFSIN + "en1 == G.ops[cur0 as int].rets.len(), bfs_m(G.ops, set0@, queue0@) <= m0_"),
       2: q(ZD % "cur0 as int, G.ops[cur0 as int].rets.len() as int") + BFSARGS("sl_3", 2, ""),
       3: q("bwd(G, h.g(), pp, pq0@, RR)"),
       4: "vec4@.len() == it4, forall|k: int| 0 <= k < it4 ==> #[trigger] vec4@[k] == g3_.val[al(g3_.ops[cur3 as int].args[k])], " + SH % "!x.0",
       5: "vec5@.len() == it5, forall|k: int| 0 <= k < it5 ==> #[trigger] vec5@[k] == g3_.val[(cur3 as int, k)], " + SH % "!x.0",
       6: "vec6@.len() == it6, forall|k: int| 0 <= k < it6 ==> #[trigger] vec6@[k] == g3_.grad[(cur3 as int, k)], " + SH % "x.0 ==> x.1.0 == cur3",
       7: "vec7@.len() == it7, forall|k: int| 0 <= k < it7 ==> ul(#[trigger] vec7@[k]) == al(g3_.ops[cur3 as int].args[k]), " + SH % "x.0 ==> x.1.0 == cur3"},
  dec={0: "bfs_m(%s.ops, set0@, queue0@)" % G0, 3: "pq0@.len()"},
  head={0: "let ghost q0_ = queue0@; let ghost s0_ = set0@; proof { lemma_bfs_m(%s.ops, op as int, set0@, queue0@, pq0@); }" % G0, 3: "let ghost w0_ = pq0@; let ghost g3_ = h.g();"},
  body={0: POPPED + q(" let ghost m0_ = bfs_m(G.ops, set0@, queue0@); proof { assert forall|l: Loc| isloc(G, l) implies #[trigger] zd(G, h.g(), pq0@, cur0 as int, 0, l) by { assert(zd(G, h.g(), pq0@, -1, 0, l)); } }"),
        1: q("let ghost g1_ = h.g(); proof { assert(isloc(G, (cur0 as int, ix1 as int))); assert(zd(G, g1_, pq0@, cur0 as int, ix1 as int, (cur0 as int, ix1 as int))); }"),
        2: BFSARG("sl_3", 2),
        3: q("""proof { assert(pp.contains(cur3 as int)); lemma_reach_lt(G.ops, op as int, cur3 as int); assert(opwf(G, cur3 as int)); }"""),
        4: q("proof { lemma_bfs_arg(G, op as int, cur3 as int, ix4 as int); }"),
        7: q("proof { lemma_bfs_arg(G, op as int, cur3 as int, ix7 as int); }"),
        },
  pre={0: q("proof { lemma_push(Seq::<int>::empty(), op as int); assert forall|l: Loc| isloc(G, l) implies #[trigger] zd(G, h.g(), pq0@, -1, 0, l) by { assert(gradok(G, l)); } }"),
       3: q("proof { assert(h.g().ex =~= g2_.ex); lemma_bwd_start(G, g2_, h.g(), pp, RR, h.g().grad[RR]); }")},
  bodyend={0: BFSEND.replace("proof { ", q("proof { assert forall|l: Loc| isloc(G, l) implies #[trigger] zd(G, h.g(), pq0@, -1, 0, l) by { assert(zd(G, h.g(), w1_, cur0 as int, G.ops[cur0 as int].rets.len() as int, l)); } "), 1),
           1: q("""proof { assert(h.g().ex =~= g1_.ex); let l_ = (cur0 as int, ix1 as int); lemma_zero_v(h.g().grad[l_], G.ops[l_.0].rets[l_.1]);
              assert forall|l: Loc| isloc(G, l) implies #[trigger] zd(G, h.g(), pq0@, cur0 as int, it1 as int, l) by { assert(zd(G, g1_, pq0@, cur0 as int, ix1 as int, l)); } }"""),
           2: BFSARGE("sl_3", 2),
           3: q("proof { lemma_bwd_step(G, g3_, h.g(), pp, w0_, cur3 as int, RR); }")},
  post={0: q(DONE + " let ghost g2_ = h.g(); proof { assert(zd(G, g2_, pp, -1, 0, RR)); assert(reach(G.ops, op as int, op as int)); }"),
        1: "let ghost w1_ = pq0@;",
        3: q("proof { lemma_bwd_done(G, h.g(), pp, pq0@, RR); }"),
        7: q("""proof {
      let x_ = G.ops[cur3 as int]; let c_ = cur3 as int;
      assert forall|p: int| 0 <= p < vec4@.len() implies (#[trigger] vec4@[p]).full() && vec4@[p].v() == arg_evs(G.ops, x_.args)[p] && vec4@[p].v().s == arg_shapes(G.ops, x_.args)[p] by {
          lemma_bfs_arg(G, op as int, c_, p); let l_ = al(x_.args[p]); assert(isloc(G, l_)); assert(valok(G, l_)); assert(G.fwd.contains(l_.0)); assert(opwf(G, l_.0));
      }
      assert(vtv(vec4@) =~= arg_evs(G.ops, x_.args)); assert(svs(vtv(vec4@)) =~= arg_shapes(G.ops, x_.args));
      assert forall|k: int| 0 <= k < vec5@.len() implies (#[trigger] vec5@[k]).full() && vec5@[k].v() == x_.ev[k] by { assert(isloc(G, (c_, k))); assert(valok(G, (c_, k))); assert(G.fwd.contains(c_)); }
      assert(vtv(vec5@) =~= x_.ev);
      assert forall|k: int| 0 <= k < vec6@.len() implies (#[trigger] vec6@[k]).full() && vec6@[k].v() == gtv(g3_.grad)[(c_, k)] && vec6@[k].v().s == x_.rets[k] by { assert(isloc(G, (c_, k))); assert(bwl(G, g3_, pp, w0_, RR, (c_, k))); }
      assert(vtv(vec6@) =~= outs(G.ops, gtv(g3_.grad), c_)); assert(svs(vtv(vec6@)) =~= x_.rets);
      assert(uls(vec7@) =~= als(x_.args));
      assert forall|p: int| 0 <= p < vec7@.len() implies isloc(G, #[trigger] ul(vec7@[p])) && g3_.grad.dom().contains(ul(vec7@[p])) && g3_.grad[ul(vec7@[p])].full() && g3_.grad[ul(vec7@[p])].shape.s() == vec4@[p].shape.s() && ul(vec7@[p]).0 < c_ by {
          lemma_bfs_arg(G, op as int, c_, p); let l_ = al(x_.args[p]); assert(vec4@[p].v().s == arg_shapes(G.ops, x_.args)[p]); assert(bwl(G, g3_, pp, w0_, RR, l_)); assert(pp.contains(l_.0)); }
      assert(bwa(G, g3_, pp, w0_, c_)); assert(opwf(g3_, c_)); assert(bwfit(G.ops, c_));
    }""")})
F("graph::Node::forward", "g_forward", ["n"], P, U, self_kind="heap", method="GNode.forward", req="hwf(old(h).g()), nok(old(h).g(), *n)", ens="fwd_post(old(h).g(), final(h).g(), n.data.op as int)")
F("graph::Node::backward", "g_backward", ["n"], P, U, self_kind="heap", method="GNode.backward", req="hwf(old(h).g()), nok(old(h).g(), *n), forall|i: int| reach(old(h).g().ops, n.data.op as int, i) ==> #[trigger] bwfit(old(h).g().ops, i)", ens="hwf(final(h).g()), bwd_post(old(h).g(), final(h).g(), al(n.data))")

# ---- creation
VALID = "o_valid(o, nshapes(old(h).g(), ns@))"
CREQ = "hwf(old(h).g()), noks(old(h).g(), ns@), o_arity(o, ns@.len() as int)"
NK = "proof { assert(nok(%s, *ns@[ix%%d as int])); let l_ = al(ns@[ix%%d as int].data); assert(valok(%s, l_)); assert(gradok(%s, l_)); assert(opwf(%s, l_.0)); }" % (G0, G0, G0, G0)
F("graph::OperatorInfo::new", "oi_new", ["o", "ns"], P, U, self_kind="heap", ret="OInfo", path="graph::OperatorInfo::new",
  req=CREQ, valid=VALID, ens="final(h).g() == old(h).g(), oi_post(old(h).g(), r, o, ns@)",
  inv={0: "h.g() == %s, en0 == ns@.len(), vec0@.len() == it0, forall|k: int| 0 <= k < it0 ==> (#[trigger] vec0@[k]).wf() && vec0@[k].s() == nshapes(%s, ns@)[k]" % (G0, G0),
       1: "h.g() == %s, en1 == ns@.len(), vec1@.len() == it1, forall|k: int| 0 <= k < it1 ==> #[trigger] vec1@[k] == ns@[k].data" % G0,
       2: "h.g() == %s, vec2@.len() == it2, forall|k: int| 0 <= k < it2 ==> retok(#[trigger] vec2@[k], o_shapes(o, nshapes(%s, ns@))[k])" % (G0, G0),
       3: "h.g() == %s, en3 == ns@.len(), acc3 <= hn(%s), forall|k: int| 0 <= k < it3 ==> %s.ops[(#[trigger] ns@[k]).data.op as int].depth <= acc3" % (G0, G0, G0)},
  body={0: NK % (0, 0), 1: NK % (1, 1), 3: NK % (3, 3)},
  post={0: "proof { assert(shv(vec0@) =~= nshapes(%s, ns@)); }" % G0, 1: "proof { assert(vec1@ =~= ndata(ns@)); }"})
F("graph::Node::create", "g_create", ["o", "ns"], P, U, self_kind="heap", ret="Vec<GNode>", path="Node::create",
  req=CREQ, valid=VALID, ens="create_post(old(h).g(), final(h).g(), o, ns@, r@)",
  inv={0: "h.g() == g1_, vec0@.len() == it0, en0 == f1_, hn(g1_) == n1_ + 1, n1_ < usize::MAX, f1_ == g1_.ops[n1_].rets.len(), forall|k: int| 0 <= k < it0 ==> (#[trigger] vec0@[k]).data.op == n1_ && vec0@[k].data.vid == k"},
  pre={0: "let ghost g1_ = h.g(); let ghost n1_ = hn(%s); let ghost f1_ = g1_.ops[n1_].rets.len(); proof { lemma_create(%s, g1_, o, ns@); }" % (G0, G0)},
  post={0: """proof { assert forall|k: int| 0 <= k < vec0@.len() implies nok(g1_, #[trigger] vec0@[k]) && al(vec0@[k].data) == pair(n1_, k) && !g1_.grad[al(vec0@[k].data)].valid@ by { assert(isloc(g1_, pair(n1_, k))); } }"""})
