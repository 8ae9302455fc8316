// serde's data model: what a record holds once written, whatever the format does with it.
verus! {
pub enum DV { U(int), F(real), L(Seq<DV>), S(Seq<(u64, DV)>), M(Seq<(u64, DV)>) }
#[verifier::external_body]
pub struct SerErr { x: usize }
#[verifier::external_body]
pub struct DeErr { x: usize }
#[verifier::external_body]
pub struct Ser { x: usize }
#[verifier::external_body]
pub struct SerOk { x: usize }
impl SerOk { pub uninterp spec fn v(&self) -> DV; }
// a struct being written: the number of fields that was announced and those written so far
#[verifier::external_body]
pub struct SerState { x: usize }
impl SerState {
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn fs(&self) -> Seq<(u64, DV)>;
}
#[verifier::external_body]
pub fn ser_serialize_struct(s: Ser, name: u64, n: usize) -> (r: Result<SerState, SerErr>)
    ensures r is Ok ==> r->Ok_0.n() == n && r->Ok_0.fs() == Seq::<(u64, DV)>::empty(),
{ unimplemented!() }
#[verifier::external_body]
pub fn ser_serialize_field<T: Sz + ?Sized>(m: &Mem, s: &mut SerState, name: u64, x: &T) -> (r: Result<(), SerErr>)
    requires x.enc_req(m),
    ensures final(s).n() == old(s).n(), r is Ok ==> final(s).fs() == old(s).fs().push((name, x.enc(m))),
{ unimplemented!() }
// formats that write the number of fields need it to be right
#[verifier::external_body]
pub fn ser_end(s: SerState, Ghost(ok): Ghost<bool>) -> (r: Result<SerOk, SerErr>)
    requires ok ==> s.n() == s.fs().len(),
    ensures r is Ok ==> r->Ok_0.v() == DV::S(s.fs()),
{ unimplemented!() }

// what each type writes; for the types of /repo this is what their Serialize impls are proved to do
pub trait Sz {
    spec fn enc(&self, m: &Mem) -> DV;
    spec fn enc_req(&self, m: &Mem) -> bool;
}
pub open spec fn enc_u32s(s: Seq<u32>) -> DV { DV::L(Seq::new(s.len(), |i: int| DV::U(s[i] as int))) }
pub open spec fn enc_reals(s: Seq<real>) -> DV { DV::L(Seq::new(s.len(), |i: int| DV::F(s[i]))) }
impl<T: Sz + ?Sized> Sz for &T {
    open spec fn enc(&self, m: &Mem) -> DV { (*self).enc(m) }
    open spec fn enc_req(&self, m: &Mem) -> bool { (*self).enc_req(m) }
}
impl Sz for u32 {
    open spec fn enc(&self, m: &Mem) -> DV { DV::U(*self as int) }
    open spec fn enc_req(&self, m: &Mem) -> bool { true }
}
impl Sz for [u32] {
    open spec fn enc(&self, m: &Mem) -> DV { enc_u32s(self@) }
    open spec fn enc_req(&self, m: &Mem) -> bool { true }
}
impl Sz for Vec<R> {
    open spec fn enc(&self, m: &Mem) -> DV { enc_reals(rseq(self@)) }
    open spec fn enc_req(&self, m: &Mem) -> bool { true }
}
pub open spec fn K_dims() -> u64 { 0xc9ebb36757437cdeu64 }
pub open spec fn K_batch() -> u64 { 0x99954e824b0d0e3bu64 }
pub open spec fn K_shape() -> u64 { 0x6e2982493ac55546u64 }
pub open spec fn K_values() -> u64 { 0x21277bcf1a4d67fbu64 }
pub open spec fn K_value() -> u64 { 0x7ce4fd9430e80ceau64 }
pub open spec fn K_gradient() -> u64 { 0xe9c2c0a6ce89f765u64 }
pub open spec fn K_stats() -> u64 { 0xee639cad45b1994cu64 }
pub open spec fn enc_shape(s: SV, k: int) -> DV { DV::S(seq![(K_dims(), enc_u32s(Seq::new(k as nat, |i: int| s.d[i] as u32))), (K_batch(), DV::U(s.b))]) }
impl Sz for Shape {
    open spec fn enc(&self, m: &Mem) -> DV { enc_shape(self.s(), self.depth as int) }
    open spec fn enc_req(&self, m: &Mem) -> bool { self.wf() }
}
// the values a tensor has, on the host or on its device
pub open spec fn tvals(t: &TT, m: &Mem) -> Seq<real> { if t.host_values.is_some() { rseq(t.host_values.unwrap()@) } else { vals(t, m) } }
pub open spec fn enc_tensor(t: &TT, m: &Mem) -> DV { DV::S(seq![(K_shape(), t.shape.enc(m)), (K_values(), enc_reals(tvals(t, m)))]) }
pub open spec fn t_readable(t: &TT, m: &Mem) -> bool { t_wf(t, m) && (t.host_values.is_some() || t.handle != 0) }
impl Sz for TT {
    open spec fn enc(&self, m: &Mem) -> DV { enc_tensor(self, m) }
    open spec fn enc_req(&self, m: &Mem) -> bool { m.wf() && t_readable(self, m) }
}
pub open spec fn enc_stats(s: Seq<(u64, TT)>, m: &Mem) -> DV { DV::M(Seq::new(s.len(), |i: int| (s[i].0, enc_tensor(&s[i].1, m)))) }
impl Sz for StatMap {
    open spec fn enc(&self, m: &Mem) -> DV { enc_stats(self.items@, m) }
    open spec fn enc_req(&self, m: &Mem) -> bool { m.wf() && forall|i: int| 0 <= i < self.items@.len() ==> t_readable(&(#[trigger] self.items@[i]).1, m) }
}
pub open spec fn enc_param(p: &MParam, m: &Mem) -> DV { DV::S(seq![(K_value(), enc_tensor(&p.value, m)), (K_gradient(), enc_tensor(&p.gradient, m)), (K_stats(), enc_stats(p.stats.items@, m))]) }

// ---- reading
#[verifier::external_body]
pub struct De { x: usize }
impl De { pub uninterp spec fn v(&self) -> DV; }
// a record being read: by position (binary formats) or by name
#[verifier::external_body]
pub struct DeSt { x: usize }
impl DeSt {
    pub uninterp spec fn fs(&self) -> Seq<(u64, DV)>;
    pub uninterp spec fn pos(&self) -> int;
}
pub open spec fn names_are(fs: Seq<(u64, DV)>, names: Seq<u64>) -> bool { fs.len() == names.len() && forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).0 == names[i] }
#[verifier::external_body]
pub fn de_struct(d: De, names: Vec<u64>) -> (r: Result<DeSt, DeErr>)
    ensures d.v() is S && names_are(d.v()->S_0, names@) ==> r is Ok && r->Ok_0.fs() == d.v()->S_0 && r->Ok_0.pos() == 0,
{ unimplemented!() }
#[verifier::external_body]
pub fn de_is_seq(s: &DeSt) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn de_next(s: &mut DeSt) -> (r: Result<De, DeErr>)
    ensures 0 <= old(s).pos() < old(s).fs().len() ==> r is Ok && r->Ok_0.v() == old(s).fs()[old(s).pos()].1 && final(s).pos() == old(s).pos() + 1 && final(s).fs() == old(s).fs(),
{ unimplemented!() }
#[verifier::external_body]
pub fn de_named(s: &mut DeSt, name: u64) -> (r: Result<De, DeErr>)
    ensures final(s).fs() == old(s).fs(),
        forall|k: int| 0 <= k < old(s).fs().len() && (#[trigger] old(s).fs()[k]).0 == name && (forall|j: int| 0 <= j < old(s).fs().len() && j != k ==> (#[trigger] old(s).fs()[j]).0 != name)
            ==> r is Ok && r->Ok_0.v() == old(s).fs()[k].1,
{ unimplemented!() }
pub open spec fn is_u32(v: DV) -> bool { v is U && 0 <= v->U_0 <= 0xffff_ffff }
pub open spec fn is_u32s(v: DV) -> bool { v is L && forall|i: int| 0 <= i < v->L_0.len() ==> is_u32(#[trigger] v->L_0[i]) }
pub open spec fn is_reals(v: DV) -> bool { v is L && forall|i: int| 0 <= i < v->L_0.len() ==> (#[trigger] v->L_0[i]) is F }
pub open spec fn u32s_of(v: DV) -> Seq<u32> { Seq::new(v->L_0.len(), |i: int| v->L_0[i]->U_0 as u32) }
pub open spec fn reals_of(v: DV) -> Seq<real> { Seq::new(v->L_0.len(), |i: int| v->L_0[i]->F_0) }
#[verifier::external_body]
pub fn de_u32(d: De, Ghost(ok): Ghost<bool>) -> (r: Result<u32, DeErr>)
    ensures is_u32(d.v()) ==> r is Ok && r->Ok_0 == d.v()->U_0,
{ unimplemented!() }
#[verifier::external_body]
pub fn de_Vec_u32(d: De, Ghost(ok): Ghost<bool>) -> (r: Result<Vec<u32>, DeErr>)
    ensures is_u32s(d.v()) ==> r is Ok && r->Ok_0@ == u32s_of(d.v()),
{ unimplemented!() }
#[verifier::external_body]
pub fn de_Vec_f32(d: De, Ghost(ok): Ghost<bool>) -> (r: Result<Vec<R>, DeErr>)
    ensures is_reals(d.v()) ==> r is Ok && rseq(r->Ok_0@) == reals_of(d.v()),
{ unimplemented!() }
pub open spec fn is_shape(v: DV) -> bool {
    v is S && v->S_0.len() == 2 && v->S_0[0].0 == K_dims() && v->S_0[1].0 == K_batch() && is_u32s(v->S_0[0].1) && is_u32(v->S_0[1].1)
}
pub open spec fn dims_of(v: DV) -> Seq<u32> { u32s_of(v->S_0[0].1) }
pub open spec fn batch_of(v: DV) -> int { v->S_0[1].1->U_0 }
pub open spec fn good_shape(v: DV) -> bool { is_shape(v) && valid_new(dims_of(v), batch_of(v)) }
pub open spec fn shape_of(v: DV) -> SV { SV { d: pad8(dims_of(v)), b: batch_of(v) } }
pub open spec fn is_tensor(v: DV) -> bool {
    v is S && v->S_0.len() == 2 && v->S_0[0].0 == K_shape() && v->S_0[1].0 == K_values() && is_shape(v->S_0[0].1) && is_reals(v->S_0[1].1)
}
pub open spec fn good_tensor(v: DV) -> bool { is_tensor(v) && good_shape(v->S_0[0].1) }
// t is the host tensor with the shape and the values of v
pub open spec fn read_tensor(t: &TT, v: DV) -> bool {
    t.shape.wf() && t.shape.s() == shape_of(v->S_0[0].1) && t.device.is_none() && t.handle == 0 && t.reference.is_none() && t.host_values.is_some()
    && rseq(t.host_values.unwrap()@) == reals_of(v->S_0[1].1)
}
pub open spec fn host_wf(t: &TT) -> bool { t.shape.wf() && t.device.is_none() && t.handle == 0 && t.reference.is_none() && t.host_values.is_some() }
pub open spec fn is_stats(v: DV) -> bool { v is M && forall|i: int| 0 <= i < v->M_0.len() ==> is_tensor((#[trigger] v->M_0[i]).1) }
pub open spec fn good_stats(v: DV) -> bool { is_stats(v) && forall|i: int| 0 <= i < v->M_0.len() ==> good_tensor((#[trigger] v->M_0[i]).1) }
pub open spec fn read_stats(s: &StatMap, v: DV) -> bool {
    s.items@.len() == v->M_0.len() && forall|i: int| 0 <= i < s.items@.len() ==> (#[trigger] s.items@[i]).0 == v->M_0[i].0 && read_tensor(&s.items@[i].1, v->M_0[i].1)
}
// a map of tensors: each entry is read by Tensor's Deserialize
#[verifier::external_body]
pub fn de_Stats(d: De, Ghost(ok): Ghost<bool>) -> (r: Result<StatMap, DeErr>)
    requires ok ==> good_stats(d.v()),
    ensures r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.items@.len() ==> host_wf(&(#[trigger] r->Ok_0.items@[i]).1),
        is_stats(d.v()) ==> good_stats(d.v()) && r is Ok && read_stats(&r->Ok_0, d.v()),
{ unimplemented!() }
pub open spec fn is_param(v: DV) -> bool {
    v is S && v->S_0.len() == 3 && v->S_0[0].0 == K_value() && v->S_0[1].0 == K_gradient() && v->S_0[2].0 == K_stats() && is_tensor(v->S_0[0].1) && is_tensor(v->S_0[1].1) && is_stats(v->S_0[2].1)
}
pub open spec fn good_param(v: DV) -> bool { is_param(v) && good_tensor(v->S_0[0].1) && good_tensor(v->S_0[1].1) && good_stats(v->S_0[2].1) }
pub open spec fn read_param(p: &MParam, v: DV) -> bool {
    read_tensor(&p.value, v->S_0[0].1) && read_tensor(&p.gradient, v->S_0[1].1) && read_stats(&p.stats, v->S_0[2].1)
}
pub open spec fn host_param(p: &MParam) -> bool {
    host_wf(&p.value) && host_wf(&p.gradient) && forall|i: int| 0 <= i < p.stats.items@.len() ==> host_wf(&(#[trigger] p.stats.items@[i]).1)
}

// ---- written, then read: the same
pub proof fn lemma_shape_rt(s: &Shape, m: &Mem)
    requires s.wf(),
    ensures good_shape(s.enc(m)), shape_of(s.enc(m)) == s.s(),
{
    let v = s.enc(m);
    let k = s.depth as int;
    let x = Seq::new(k as nat, |i: int| s.s().d[i] as u32);
    assert forall|i: int| 0 <= i < k implies 1 <= #[trigger] s.s().d[i] <= 0xffff_ffff by { assert(s.s().d[i] == s.dims@[i]); }
    assert(is_u32s(v->S_0[0].1));
    assert(dims_of(v) =~= x);
    assert(pad8(x) =~= s.s().d);
}
pub proof fn lemma_tensor_rt(t: &TT, m: &Mem)
    requires t.shape.wf(),
    ensures good_tensor(enc_tensor(t, m)), reals_of(enc_tensor(t, m)->S_0[1].1) == tvals(t, m), shape_of(enc_tensor(t, m)->S_0[0].1) == t.shape.s(),
{
    lemma_shape_rt(&t.shape, m);
    assert(reals_of(enc_tensor(t, m)->S_0[1].1) =~= tvals(t, m));
}
// u has the shape and, on its device in n, the values that t had in m
pub open spec fn same_tensor(t: &TT, m: &Mem, u: &TT, n: &Mem) -> bool { u.shape.s() == t.shape.s() && tvals(u, n) == tvals(t, m) }
pub proof fn lemma_param_rt(p: &MParam, m: &Mem)
    requires p_wf(p, m),
    ensures good_param(enc_param(p, m)),
{
    lemma_tensor_rt(&p.value, m);
    lemma_tensor_rt(&p.gradient, m);
    let v = enc_stats(p.stats.items@, m);
    assert forall|i: int| 0 <= i < v->M_0.len() implies good_tensor((#[trigger] v->M_0[i]).1) by { lemma_tensor_rt(&p.stats.items@[i].1, m); }
}
// a parameter p written in m, read back as q, moved to device d (giving r in n): shapes, values, gradients and statistics are those of p
pub proof fn lemma_roundtrip(p: &MParam, m: &Mem, q: &MParam, r: &MParam, n0: &Mem, n: &Mem, d: usize)
    requires p_wf(p, m), read_param(q, enc_param(p, m)), p_onto(q, r, n0, n, d), p_hosted(q),
    ensures same_tensor(&p.value, m, &r.value, n), same_tensor(&p.gradient, m, &r.gradient, n), r.stats.items@.len() == p.stats.items@.len(),
        forall|i: int| 0 <= i < p.stats.items@.len() ==> (#[trigger] r.stats.items@[i]).0 == p.stats.items@[i].0 && same_tensor(&p.stats.items@[i].1, m, &r.stats.items@[i].1, n),
{
    lemma_param_rt(p, m);
    lemma_tensor_rt(&p.value, m);
    lemma_tensor_rt(&p.gradient, m);
    assert forall|i: int| 0 <= i < p.stats.items@.len() implies (#[trigger] r.stats.items@[i]).0 == p.stats.items@[i].0 && same_tensor(&p.stats.items@[i].1, m, &r.stats.items@[i].1, n) by {
        lemma_tensor_rt(&p.stats.items@[i].1, m);
        assert(q.stats.items@[i].0 == p.stats.items@[i].0);
    }
}
}
