"""What shapes, tensors and parameters write through serde, and what reading it back gives."""
from tables import L, ST
from c_mem import M
P = ["C13"]
W = "m.wf(), t_readable(t, m)"
for _n in ("ser_serialize_struct", "ser_serialize_field", "de_struct", "de_is_seq", "de_next", "de_named"):
    L(_n)
L("ser_end", ok=True)
for _n in ("de_u32", "de_Vec_u32", "de_Vec_f32", "de_Stats"):
    L(_n, ok=True)
ST("ShapeSerde", [["dims", "Vec<u32>"], ["batch", "u32"]])
ST("TensorSerde", [["shape", "Shape"], ["values", "Vec<R>"]], types={"Vec<f32>": "Vec<R>"})
M("shape::<Shape as Serialize>::serialize", "Shape_serialize", ["s", "ser"], P, "mem w&", req="s.wf()", valid="true",
  ens="r is Ok ==> r->Ok_0.v() == s.enc(m)", end="proof { if ret_ is Ok { assert(ret_->Ok_0.v()->S_0[0].1->L_0 =~= s.enc(m)->S_0[0].1->L_0); assert(ret_->Ok_0.v()->S_0 =~= s.enc(m)->S_0); } }",
  )
M("tensor::<Tensor as Serialize>::serialize", "T_serialize", ["t", "ser"], P, "mem w&", req=W, valid="true",
  ens="r is Ok ==> r->Ok_0.v() == t.enc(m)", end="proof { if ret_ is Ok { assert(ret_->Ok_0.v()->S_0 =~= t.enc(m)->S_0); } }")
M("parameter::<Parameter as Serialize>::serialize", "MP_serialize", ["p", "ser"], P, "mem w&",
  req="m.wf(), p_wf(p, m), t_readable(&p.value, m), t_readable(&p.gradient, m), p.stats.enc_req(m)", valid="true",
  ens="r is Ok ==> r->Ok_0.v() == enc_param(p, m)", end="proof { if ret_ is Ok { assert(ret_->Ok_0.v()->S_0 =~= enc_param(p, m)->S_0); } }")
OKT = "(r is Ok ==> host_wf(&r->Ok_0)), is_tensor(d.v()) ==> good_tensor(d.v()) && r is Ok && read_tensor(&r->Ok_0, d.v())"
M("shape::<ShapeSerde as Deserialize>::deserialize", "de_ShapeSerde", ["d"], P, "mem derive", valid="true",
  ens="is_shape(d.v()) ==> r is Ok && r->Ok_0.dims@ == dims_of(d.v()) && r->Ok_0.batch == batch_of(d.v())")
M("shape::<Shape as Deserialize>::deserialize", "de_Shape", ["d"], P, valid="true", req="ok ==> good_shape(d.v())",
  ens="(r is Ok ==> r->Ok_0.wf()), is_shape(d.v()) ==> good_shape(d.v()) && r is Ok && r->Ok_0.s() == shape_of(d.v())")
M("tensor::<TensorSerde as Deserialize>::deserialize", "de_TensorSerde", ["d"], P, "mem derive", valid="true", req="ok ==> good_tensor(d.v())",
  ens="(r is Ok ==> r->Ok_0.shape.wf()), is_tensor(d.v()) ==> good_tensor(d.v()) && r is Ok && r->Ok_0.shape.s() == shape_of(d.v()->S_0[0].1) && rseq(r->Ok_0.values@) == reals_of(d.v()->S_0[1].1)")
M("tensor::<Tensor as Deserialize>::deserialize", "de_Tensor", ["d"], P, valid="true", req="ok ==> good_tensor(d.v())", ens=OKT)
M("parameter::<Parameter as Deserialize>::deserialize", "de_Parameter", ["d"], P, "mem derive", valid="true", req="ok ==> good_param(d.v())",
  ens="(r is Ok ==> host_param(&r->Ok_0)), is_param(d.v()) ==> good_param(d.v()) && r is Ok && read_param(&r->Ok_0, d.v())")
