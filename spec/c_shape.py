from tables import F
S = "shape::Shape::"
U = "shape"
P1, P2 = ["C01"], ["C02"]

def q(name, ret, ens, params=("s",), props=P1, **kw):
    F(S + name, "Shape_" + name, list(params), props, U, req="s.wf()", ens=ens, ret=ret, recv="&",
      method="Shape." + name, **kw)

LEM = "proof { lemma_lv_ones(s.s().d, s.depth as int, 8); }"

F("shape::checked_mul", "checked_mul", ["a", "b"], P1, U, valid="a * b <= U32M()", ens="r == a * b", ret="u32",
  path="shape::checked_mul",
  start="assert(0 <= a * b <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= a <= 0xffff_ffff, 0 <= b <= 0xffff_ffff;")

F(S + "new", "Shape_new", ["x", "batch"], P1, U, valid="valid_new(x@, batch as int)",
  ens="r.wf(), r.s() == (SV { d: pad8(x@), b: batch as int })", ret="Shape", path="Shape::new", types={"int0": "u32", "int1": "u32"},
  inv={0: """
    x@.len() <= 8, batch >= 1,
    forall|i: int| 0 <= i < 8 ==> $vec0@[i] == if i < it0 { x@[i] as u32 } else { 1u32 },
    forall|i: int| 0 <= i < it0 ==> x@[i] != 0,
    $int0 == lv(pad8(x@), it0 as int), $int0 >= 1,
    0 <= $int1 <= it0, $int1 > 0 ==> x@[$int1 - 1] != 1,
    forall|i: int| $int1 <= i < it0 ==> x@[i] == 1,
  """},
  body={0: """proof {
    if ok {
        lemma_lv_mono(pad8(x@), it0 as int, 8);
    }
    if x@[it0 - 1] != 0 {
      assert($int0 * x@[it0 - 1] >= 1) by (nonlinear_arith) requires $int0 >= 1, x@[it0 - 1] >= 1;
    }
    assert(pad8(x@)[it0 - 1] == x@[it0 - 1]);
  }"""},
  post={0: """proof {
    lemma_lv_ones(pad8(x@), x@.len() as int, 8);
  }"""},
  end="""proof {
    assert(ret_.s().d =~= pad8(x@));
    assert(forall|i: int| 0 <= i < x@.len() ==> #[trigger] pad8(x@)[i] == x@[i]);
    assert(vol(ret_.s()) * ret_.s().b == ret_.volume * batch);
  }""")

q("depth", "u32", "r == s.depth, depth_is(s.s().d, r as int)")
q("dims", "&[u32]", "r@.len() == s.depth, r@ == s.dims@.subrange(0, s.depth as int), forall|i: int| 0 <= i < s.depth ==> #[trigger] r@[i] == s.s().d[i]")
q("batch", "u32", "r == s.s().b, r >= 1")
q("volume", "u32", "r == vol(s.s()), r >= 1", start="proof { lemma_lv_pos(s.s().d, 8); }")
q("lower_volume", "u32", "r == lower(s.s(), dim as int), r >= 1, r <= vol(s.s())", params=("s", "dim"),
  inv={0: "$int0 == lv(s.s().d, it0 as int), $int0 >= 1, en0 <= 8, en0 == if dim < s.depth { dim } else { s.depth }"},
  body={0: "proof { lemma_lv_mono(s.s().d, it0 as int, 8); lemma_lv_mono(s.s().d, it0 - 1, 8); }"},
  end="""proof { lemma_lv_mono(s.s().d, if dim < 8 { dim as int } else { 8 }, 8);
     if dim as int >= s.depth as int { lemma_lv_ones(s.s().d, s.depth as int, if dim < 8 { dim as int } else { 8 }); } }""")
q("size", "u32", "r == sz(s.s()), r >= 1",
  start="""proof { lemma_lv_pos(s.s().d, 8);
    assert(vol(s.s()) * s.batch == s.batch * vol(s.s())) by (nonlinear_arith);
    assert(s.batch * vol(s.s()) >= 1) by (nonlinear_arith) requires s.batch >= 1, vol(s.s()) >= 1; }""")
q("has_batch", "bool", "r == (s.s().b != 1)")
F(S + "has_compatible_batch", "Shape_has_compatible_batch", ["s", "rhs"], P1, U, req="s.wf(), rhs.wf()",
  ens="r == compat(s.s(), rhs.s())", ret="bool", recv="&", method="Shape.has_compatible_batch")
q("is_scalar", "bool", "r == scalar_s(s.s())", end="proof { if s.depth > 0 { assert(s.s().d[s.depth - 1] != 1); } }")
q("is_column_vector", "bool", "r == column_s(s.s())", end="proof { if s.depth > 1 { assert(s.s().d[s.depth - 1] != 1); } }")
q("is_matrix", "bool", "r == matrix_s(s.s())", end="proof { if s.depth > 2 { assert(s.s().d[s.depth - 1] != 1); } }")
F(S + "has_same_dims", "Shape_has_same_dims", ["s", "rhs"], P1, U, req="s.wf(), rhs.wf()",
  ens="r == same_dims(s.s(), rhs.s())", ret="bool", recv="&", method="Shape.has_same_dims",
  inv={0: "en0 == s.depth, $bool0 == forall|j: int| 0 <= j < it0 ==> #[trigger] s.s().d[j] == rhs.s().d[j]"},
  body={0: "proof { let j = it0 - 1; assert(s.s().d[j] == s.dims@[j]); assert(rhs.s().d[j] == rhs.dims@[j]); }"},
  end="""proof {
    if ret_ {
      if s.depth == rhs.depth && s.dims@.subrange(0, s.depth as int) =~= rhs.dims@.subrange(0, s.depth as int) {
        assert forall|j: int| 0 <= j < s.depth implies s.dims@[j] == rhs.dims@[j] by {
          assert(s.dims@.subrange(0, s.depth as int)[j] == rhs.dims@.subrange(0, s.depth as int)[j]);
        }
      }
      assert(s.s().d =~= rhs.s().d);
    }
    else if s.s().d == rhs.s().d {
      if s.depth == rhs.depth {
        assert forall|j: int| 0 <= j < s.depth implies s.dims@[j] == rhs.dims@[j] by { assert(s.s().d[j] == s.dims@[j]); assert(rhs.s().d[j] == rhs.dims@[j]); }
        assert(s.dims@.subrange(0, s.depth as int) =~= rhs.dims@.subrange(0, s.depth as int));
      }
      if s.depth < rhs.depth { assert(rhs.s().d[rhs.depth - 1] != 1); }
      if s.depth > rhs.depth { assert(s.s().d[s.depth - 1] != 1); }
      assert(false);
    }
  }""")
F(S + "has_same_loo_dims", "Shape_has_same_loo_dims", ["s", "rhs", "dim"], P1, U, req="s.wf(), rhs.wf()",
  valid="dim < u32::MAX",
  ens="r == loo_dims(s.s(), rhs.s(), dim as int)", ret="bool", recv="&", method="Shape.has_same_loo_dims", lenient=True,
  inv={0: """$int0 <= s.depth, $int0 <= dim || ($int0 == s.depth && s.depth > dim + 1), forall|j: int| $int0 <= j < 8 && j != dim ==> #[trigger] s.s().d[j] == 1""",
       1: """$int1 <= rhs.depth, $int1 <= dim || ($int1 == rhs.depth && rhs.depth > dim + 1), forall|j: int| $int1 <= j < 8 && j != dim ==> #[trigger] rhs.s().d[j] == 1""",
       2: "en2 == $int0, $bool0 == ($int0 == $int1 && forall|j: int| 0 <= j < it2 && j != dim ==> #[trigger] s.s().d[j] == rhs.s().d[j])"},
  dec={0: "$int0", 1: "$int1"},
  pre={0: "proof { assert(dim < u32::MAX); }", 1: ""},
  body={0: "assert(s.s().d[$int0 - 1] == s.dims@[$int0 - 1]);", 1: "assert(rhs.s().d[$int1 - 1] == rhs.dims@[$int1 - 1]);",
        2: "proof { let j = it2 - 1; assert(s.s().d[j] == s.dims@[j]); if $int0 == $int1 { assert(rhs.s().d[j] == rhs.dims@[j]); } }"},
  end="""proof {
    let D = s.s().d; let E = rhs.s().d;
    // what lies above the trimmed depths is one, the last kept one is not (or is the dimension itself)
    assert($int0 > 0 ==> D[$int0 - 1] == s.dims@[$int0 - 1]);
    assert($int1 > 0 ==> E[$int1 - 1] == rhs.dims@[$int1 - 1]);
    if loo_dims(s.s(), rhs.s(), dim as int) && $int0 != $int1 {
       if $int0 < $int1 { assert(D[$int1 - 1] == E[$int1 - 1]); assert(E[$int1 - 1] == 1); assert(false); }
       else { assert(D[$int0 - 1] == E[$int0 - 1]); assert(D[$int0 - 1] == 1); assert(false); }
    }
    if ret_ { assert forall|i: int| 0 <= i < 8 && i != dim implies #[trigger] D[i] == E[i] by {} }
  }""")
F(S + "resize_dim", "Shape_resize_dim", ["s", "dim", "m"], P1, U, req="s.wf()", valid="valid_dim(s.s(), dim as int, m as int)",
  ens="r.wf(), r.s() == s_dim(s.s(), dim as int, m as int)", ret="Shape", recv="&", method="Shape.resize_dim")
F(S + "resize_batch", "Shape_resize_batch", ["s", "batch"], P1, U, req="s.wf()", valid="valid_batch(s.s(), batch as int)",
  ens="r.wf(), r.s() == s_batch(s.s(), batch as int)", ret="Shape", recv="&", method="Shape.resize_batch")
F(S + "update_dim", "Shape_update_dim", ["s", "dim", "m"], P1, U, req="old(s).wf()",
  valid="valid_dim(old(s).s(), dim as int, m as int)",
  ens="final(s).wf(), final(s).s() == s_dim(old(s).s(), dim as int, m as int)", recv="&mut", method="Shape.update_dim",
  start="let ghost s0 = *s; proof { if dim < 8 && m != 0 { lemma_vol_update(s0.s().d, dim as int, m as int); lemma_lv_pos(s0.s().d, 8); } }",
  inv={0: "s.dims@ == s0.dims@, s.batch == s0.batch, s.volume == s0.volume, s.depth == s0.depth, dim < 8, en0 == dim + 1",
       1: """s.batch == s0.batch, s.volume == vol(s_dim(s0.s(), dim as int, m as int)), s.depth <= 8,
            s.s() == s_dim(s0.s(), dim as int, m as int),
            forall|i: int| s.depth <= i < 8 ==> #[trigger] s.s().d[i] == 1""" },
  dec={1: "s.depth"},
  body={0: "assert(s.s().d[it0 - 1] == 1);", 1: "assert(s.s().d[s.depth - 1] == s.dims@[s.depth - 1]);"},
  bodyend={0: "assert(s.dims@ =~= s0.dims@);"},
  pre={1: "proof { assert(s.s().d =~= s_dim(s0.s(), dim as int, m as int).d); assert(s0.dims@[dim as int] == s0.s().d[dim as int]); }"},
  end="proof { if s.depth > 0 { assert(s.s().d[s.depth - 1] == s.dims@[s.depth - 1]); } }")
F(S + "update_batch", "Shape_update_batch", ["s", "batch"], P1, U, req="old(s).wf()",
  valid="valid_batch(old(s).s(), batch as int)",
  ens="final(s).wf(), final(s).s() == s_batch(old(s).s(), batch as int)", recv="&mut", method="Shape.update_batch",
  start="let ghost s0 = *s;",
  end="proof { assert(s.s().d =~= s0.s().d); }")
F("shape::<Shape as Index<u32>>::index", "Shape_index", ["s", "i"], P1, U, req="s.wf()",
  ens="r == dm(s.s(), i as int), r >= 1, r <= vol(s.s())", ret="u32", recv="&",
  start="""proof { if i < s.depth { assert(s.s().d[i as int] == s.dims@[i as int]); }
     lemma_lv_pos(s.s().d, 8);
     if i < 8 { lemma_vol_update(s.s().d, i as int, 1); let q = lv(s.s().d, 8) / s.s().d[i as int];
        assert(s.s().d[i as int] <= lv(s.s().d, 8)) by (nonlinear_arith) requires q >= 1, q == lv(s.s().d, 8) / s.s().d[i as int], s.s().d[i as int] >= 1, lv(s.s().d, 8) % s.s().d[i as int] == 0; } }""")

SO = "shape_ops::"
def so(name, params, valid, ens, start="", req=None, **kw):
    r = req if req is not None else ", ".join("%s.wf()" % p for p in params if p in ("x", "k", "a", "b", "l", "r0"))
    F(SO + name, "so_" + name, list(params), P2, U, req=r, valid=valid, ens="r.wf(), r.s() == " + ens, ret="Shape",
      path="shape_ops::" + name, start=start, **kw)

so("scalar_op", ["x", "k"], "valid_scalar_op(x.s(), k.s())", "s_ew(x.s(), k.s())")
so("elementwise", ["a", "b"], "valid_ew(a.s(), b.s())", "s_ew(a.s(), b.s())")
so("broadcast", ["x", "dim", "size"], "valid_broadcast(x.s(), dim as int, size as int)", "s_dim(x.s(), dim as int, size as int)")
so("matmul", ["l", "r0"], "valid_matmul(l.s(), r0.s())", "s_matmul(l.s(), r0.s())",
   start="proof { lemma_dims2(dm(l.s(), 0), dm(r0.s(), 1)); }",
   end="proof { assert(ret_.s().d =~= dims2(dm(l.s(), 0), dm(r0.s(), 1))); }",
   )
so("transpose", ["x"], "matrix_s(x.s())", "s_transpose(x.s())",
   start="proof { lemma_dims2(dm(x.s(), 1), dm(x.s(), 0)); lemma_dims2(dm(x.s(), 0), dm(x.s(), 1)); if matrix_s(x.s()) { assert(x.s().d =~= dims2(dm(x.s(), 0), dm(x.s(), 1))); assert(dm(x.s(), 0) * dm(x.s(), 1) == dm(x.s(), 1) * dm(x.s(), 0)) by (nonlinear_arith); } }",
   end="proof { assert(ret_.s().d =~= s_transpose(x.s()).d); }")
so("slice", ["x", "dim", "lower", "upper"], "valid_slice(x.s(), dim as int, lower as int, upper as int)",
   "s_dim(x.s(), dim as int, upper - lower)",
   start="proof { if dim < 8 && lower < upper && upper <= dm(x.s(), dim as int) { lemma_shrink(x.s(), dim as int, upper - lower); } }")
so("pick", ["x", "ids", "dim"], "valid_pick(x.s(), ids@, dim as int)", "s_pick(x.s(), ids@.len() as int, dim as int)",
   inv={0: "forall|i: int| 0 <= i < it0 ==> #[trigger] ids@[i] < dm(x.s(), dim as int)"}, req="x.wf(), ids@.len() <= U32M()",
   start="proof { if dim < 8 { lemma_shrink(x.s(), dim as int, 1); } }",
   end="proof { assert(ret_.s().d =~= s_pick(x.s(), ids@.len() as int, dim as int).d); }")
so("batch_pick", ["x", "ids"], "valid_batch_pick(x.s(), ids@)", "s_batch(x.s(), ids@.len() as int)", req="x.wf(), ids@.len() <= U32M()",
   inv={0: "forall|i: int| 0 <= i < it0 ==> #[trigger] ids@[i] < x.s().b"})
so("batch_slice", ["x", "lower", "upper"], "valid_batch_slice(x.s(), lower as int, upper as int)", "s_batch(x.s(), upper - lower)",
   start="""proof { lemma_lv_pos(x.s().d, 8); if lower < upper && upper <= x.batch { assert(vol(x.s()) * (upper - lower) <= vol(x.s()) * x.batch) by (nonlinear_arith)
     requires vol(x.s()) >= 1, upper - lower <= x.batch; } }""")
so("concat", ["xs", "dim"], "valid_concat(shv(xs@), dim as int)", "s_concat(shv(xs@), dim as int)",
   req="forall|i: int| 0 <= i < xs@.len() ==> (#[trigger] xs@[i]).wf()",
   start="let ghost v = shv(xs@); proof { if xs@.len() >= 1 { assert(v[0] == xs@[0].s()); } }",
   inv={0: """en0 == xs@.len(), 1 <= it0, $shape0.wf(), $shape0.s().d == v[0].d, $shape0.s().b == cat_batch(v, it0 as int),
        $int0 == cat_sum(v, dim as int, it0 as int), $int0 >= dm(v[0], dim as int),
        dim < u32::MAX ==> forall|i: int| 0 <= i < it0 ==> loo_dims(v[0], #[trigger] v[i], dim as int),
        forall|i: int| 0 <= i < it0 ==> (#[trigger] v[i]).b == 1 || v[i].b == cat_batch(v, it0 as int)"""},
   pre={0: "proof { reveal_with_fuel(cat_sum, 2); assert($shape0.s() == v[0]); }"},
   body={0: """proof {
      let i = it0 - 1;
      assert(v[i] == xs@[i].s());
      if ok { lemma_concat_step(v, dim as int, it0 as int); }
      lemma_cat_batch_le(v, it0 - 1, it0 as int);
   }"""},
   bodyend={0: "proof { assert(v[it0 - 1] == xs@[it0 - 1].s()); }"},
   end="proof { assert(ret_.s().d =~= s_concat(v, dim as int).d); }")
so("batch_concat", ["xs"], "valid_bconcat(shv(xs@))", "s_bconcat(shv(xs@))",
   req="forall|i: int| 0 <= i < xs@.len() ==> (#[trigger] xs@[i]).wf()",
   start="let ghost v = shv(xs@); proof { if xs@.len() >= 1 { assert(v[0] == xs@[0].s()); } }",
   inv={0: """en0 == xs@.len(), 1 <= it0, $int0 == bcat_sum(v, it0 as int), $int0 >= 1,
        forall|i: int| 0 <= i < it0 ==> same_dims(v[0], #[trigger] v[i])"""},
   pre={0: "proof { reveal_with_fuel(bcat_sum, 2); }"},
   body={0: "proof { assert(v[it0 - 1] == xs@[it0 - 1].s()); lemma_bcat_mono(v, it0 as int, v.len() as int); }"})
