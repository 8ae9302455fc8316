"""Models list each of their parameters once, in order; moving and updating reach exactly these."""
from tables import F, L
U = "mem"
P = ["C15"]
def T(key, emit, params, mode="mem tok", **kw):
    return F("mem|" + key, emit, params, P, U, self_kind=mode, **kw)
L("tok_move", method="T:Parameter.move_to_device", recv="w.", ret="()")
L("M_parameters", method="T:M.parameters", ret="Vec<Parameter>")
L("M_parameters_mut", method="T:M.parameters_mut", recv="&mut", ret="Vec<Parameter>")
L("tok_configure", method="T:MOpt.configure_parameters", recv="w", ret="()")
L("tok_update", method="T:MOpt.update_parameters", recv="w", ret="()")
for _n, _r in (("parameters", "&"), ("parameters_mut", "&mut")):
    _mu = _r == "&mut"
    o = "old(s)" if _mu else "s"
    fr = ", final(s)@ == old(s)@" if _mu else ""
    T("parameter::Parameter::" + _n, "Tp_" + _n, ["p"], method="T:Parameter." + _n, ens="r@ == seq![p]", end="assert(ret_@ =~= seq![p]);")
    T("model::<Vec<M> as Model>::" + _n, "Tvm_" + _n, ["s"], method="T:Vec<M>." + _n, recv=_r, ens="r@ == flat(%s@, %s@.len() as int)" % (o, o) + fr,
      inv={0: "st0 == 0, en0 == %s@.len(), sq0 == %s@, s@ == %s@, $vec0@ == flat(%s@, it0 as int)" % (o, o, o, o)}, bodyend={0: "assert(s@ =~= sq0); assert($vec0@ =~= flat(s@, it0 as int));"})
    T("model::<Vec<Parameter> as Model>::" + _n, "Tvp_" + _n, ["s"], method="T:Vec<Parameter>." + _n, recv=_r, ens="r@ == %s@" % o + fr,
      inv={0: "st0 == 0, en0 == %s@.len(), s@ == %s@, $vec0@ == s@.take(it0 as int)" % (o, o)}, bodyend={0: "assert($vec0@ =~= s@.take(it0 as int));"},
      end="assert(s@.take(s@.len() as int) =~= s@);")
LOG = "m.v() =~= old(m).v() + all_did(Did::Move(device), %s)"
for _key, _e, _ids in (("trait Model", "Tm_move", "old(s).ids()"), ("<Vec<Parameter> as Model>", "Tvp_move", "old(s)@")):
    T("model::%s::move_to_device" % _key, _e, ["s", "device"], "mem tok w", ens="final(m).v() == old(m).v() + all_did(Did::Move(device), %s)" % _ids,
      inv={0: "st0 == 0, en0 == sq0.len(), sq0 == %s, %s" % (_ids, LOG % "sq0.take(it0 as int)")},
      head={0: "proof { lemma_all_did(Did::Move(device), sq0, it0 as int); }"},
      end="assert(%s.take(%s.len() as int) =~= %s);" % (_ids, _ids, _ids))
T("model::<Vec<M> as Model>::move_to_device", "Tvm_move", ["s", "device"], "mem tok w",
  ens="final(m).v() == old(m).v() + all_did(Did::Move(device), flat(old(s)@, old(s)@.len() as int))",
  inv={0: "st0 == 0, en0 == old(s)@.len(), s@ == old(s)@, " + LOG % "flat(old(s)@, it0 as int)",
       1: "st1 == 0, en1 == sq1.len(), sq1 == old(s)@[it0 as int].ids(), s@ == old(s)@, 0 <= it0 < en0, " + LOG % "(flat(old(s)@, it0 as int) + sq1.take(it1 as int))"},
  head={1: "proof { lemma_all_did_app(Did::Move(device), flat(old(s)@, it0 as int), sq1, it1 as int); }"},
  pre={1: "assert(flat(old(s)@, it0 as int) + sq1.take(0) =~= flat(old(s)@, it0 as int));"},
  post={1: "assert(sq1.take(sq1.len() as int) =~= sq1); assert(flat(old(s)@, it0 as int + 1) =~= flat(old(s)@, it0 as int) + sq1);"})
T("optimizer::trait Optimizer::configure_model", "To_configure", ["o", "s"], "mem tok w", ens="final(m).v() == old(m).v() + all_did(Did::Configure, old(s).ids())")
T("optimizer::trait Optimizer::update_model", "To_update", ["o", "s"], "mem tok w", ens="final(m).v() == old(m).v() + all_did(Did::Update, old(s).ids())")
# derive(Model): which fields are repeated over, and what the repetition does with them
L("obj_parameters", ret="Vec<Parameter>")
L("obj_parameters_mut", ret="Vec<Parameter>")
for _n in ("parameters", "parameters_mut"):
    _mu = _n == "parameters_mut"
    F("mem|derive_src::derive_model#list_" + _n, "Td_list_" + _n, ["input"], P, U, self_kind="quote list " + _n,
      req="q_ok(*input)", ens="r@ == q_kept(q_fields(*input), q_fields(*input).len() as int)",
      inv={0: "sq0 == input.generics.params@\n?, $tensor0@.len() == q_lifetimes(sq0, it0 as int)",
           1: "sq1 == q_fields(*input), $other0@ == q_kept(sq1, it1 as int)",
           2: "0 < it1 <= en1, sq2 == sq1[it1 - 1].attrs@, $other0@ == q_kept(sq1, it1 - 1), !q_any_a(sq2, it2 as int)",
           3: "0 < it2 <= en2, q_askip(sq2[it2 - 1]) == q_any_n(sq3, en3 as int), $other0@ == q_kept(sq1, it1 - 1), !q_any_a(sq2, it2 - 1), !q_any_n(sq3, it3 as int)"},
      body={2: "proof { lemma_q_attrs(sq2, it2 as int); }", 3: "proof { lemma_q_nested(sq3, it3 as int); }"})
    o = "*old(s)" if _mu else "*s"
    F("mem|derive_src::derive_model#" + _n, "Td_" + _n, ["s", "ups"], P, U, self_kind="quote template " + _n,
      ens="r@ == q_flat(%s, ups@, ups@.len() as int)" % o + (", *final(s) == *old(s)" if _mu else ""),
      inv={0: "sq0 == ups@, *s == %s, $vec0@ == q_flat(%s, ups@, it0 as int)" % (o, o)})
