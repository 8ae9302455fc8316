verus! {
// ------------------------------------------------------------- the graph behind the nodes
// Reference-counted operations are indices into a heap, in the order of their creation (an operation
// can only refer to operations that exist); the cells of values and gradients are places of that heap.
#[derive(Clone, Copy)]
pub struct DataRef { pub op: usize, pub vid: usize }
#[derive(Clone, Copy)]
pub struct GNode { pub data: DataRef }
pub struct NodeData { pub value: Tensor, pub gradient: Tensor }
pub enum Ordr { Less, Equal, Greater }
pub fn u_cmp(a: usize, b: usize) -> (r: Ordr)
    ensures a < b ==> r is Less, a == b ==> r is Equal, a > b ==> r is Greater
{ if a < b { Ordr::Less } else if a == b { Ordr::Equal } else { Ordr::Greater } }
pub fn u_rev(a: Ordr) -> (r: Ordr)
    ensures a is Less ==> r is Greater, a is Equal ==> r is Equal, a is Greater ==> r is Less
{ match a { Ordr::Less => Ordr::Greater, Ordr::Equal => Ordr::Equal, Ordr::Greater => Ordr::Less } }
pub fn u_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub open spec fn ord_is(r: Ordr, a: int, b: int) -> bool { (a < b ==> r is Less) && (a == b ==> r is Equal) && (a > b ==> r is Greater) }

// an operator of any kind, by what it computes; unit "op" proves for every operator of the library that
// its methods behave like this (the trait Operator of lib_link.rs)
#[verifier::external_body]
pub struct OBox { p: usize }
pub uninterp spec fn o_arity(o: OBox, n: int) -> bool;
pub uninterp spec fn o_valid(o: OBox, ss: Seq<SV>) -> bool;
pub uninterp spec fn o_bwok(o: OBox, ss: Seq<SV>) -> bool;                      // sizes backward can handle
pub uninterp spec fn o_shapes(o: OBox, ss: Seq<SV>) -> Seq<SV>;
pub uninterp spec fn o_eval(o: OBox, xs: Seq<TV>) -> Seq<TV>;
pub uninterp spec fn o_grads(o: OBox, xs: Seq<TV>, gys: Seq<TV>) -> Seq<TV>;   // what backward adds to the gradient of each operand
pub uninterp spec fn o_par(o: OBox) -> bool;                                   // backward also adds to the gradient of a parameter
pub uninterp spec fn o_acc(o: OBox) -> TV;                                     // what that gradient was

pub struct OInfo { pub operator: OBox, pub args: Vec<DataRef>, pub rets: Vec<NodeData>, pub forwarded: bool, pub depth: usize }

pub struct OI { pub o: OBox, pub args: Seq<DataRef>, pub depth: int, pub rets: Seq<SV>, pub ev: Seq<TV> }
pub type Loc = (int, int);
pub struct HV {
    pub ops: Seq<OI>,
    pub val: Map<Loc, Tensor>,
    pub grad: Map<Loc, Tensor>,
    pub fwd: Set<int>,
    pub acc: Map<int, TV>,
    pub cnt: Map<int, int>,          // how often an operation was evaluated
    pub sh: Set<(bool, Loc)>,        // cells borrowed, shared and exclusively (true: gradients)
    pub ex: Set<(bool, Loc)>,
}
#[verifier::external_body]
pub struct Heap { p: usize }
impl Heap { pub uninterp spec fn g(&self) -> HV; }

pub open spec fn al(a: DataRef) -> Loc { (a.op as int, a.vid as int) }
pub open spec fn hn(g: HV) -> int { g.ops.len() as int }
pub open spec fn isop(g: HV, i: int) -> bool { 0 <= i < g.ops.len() }
pub open spec fn isloc(g: HV, l: Loc) -> bool { isop(g, l.0) && 0 <= l.1 < g.ops[l.0].rets.len() }
pub open spec fn arg_shapes(ops: Seq<OI>, args: Seq<DataRef>) -> Seq<SV> { Seq::new(args.len(), |p: int| ops[args[p].op as int].rets[args[p].vid as int]) }
pub open spec fn arg_evs(ops: Seq<OI>, args: Seq<DataRef>) -> Seq<TV> { Seq::new(args.len(), |p: int| ops[args[p].op as int].ev[args[p].vid as int]) }
// operation i: its operands are results of operations created before it and lie less deep; what it computes
pub open spec fn argok(ops: Seq<OI>, i: int, a: DataRef, depth: int) -> bool { a.op < i && a.vid < ops[a.op as int].rets.len() && ops[a.op as int].depth < depth }
pub open spec fn opwf(g: HV, i: int) -> bool {
    let x = g.ops[i];
    &&& forall|p: int| 0 <= p < x.args.len() ==> argok(g.ops, i, #[trigger] x.args[p], x.depth)
    &&& 0 <= x.depth <= i + 1
    &&& o_arity(x.o, x.args.len() as int) && o_valid(x.o, arg_shapes(g.ops, x.args))
    &&& x.rets == o_shapes(x.o, arg_shapes(g.ops, x.args))
    &&& x.ev == o_eval(x.o, arg_evs(g.ops, x.args))
    &&& x.ev.len() == x.rets.len()
    &&& forall|k: int| 0 <= k < x.rets.len() ==> tvwf(#[trigger] x.ev[k]) && x.ev[k].s == x.rets[k]
    &&& o_par(x.o) ==> x.rets.len() == 1 && g.acc.dom().contains(i) && tvwf(g.acc[i]) && g.acc[i].s == x.rets[0]
}
// the cells: computed exactly if the operation is marked
pub open spec fn valok(g: HV, l: Loc) -> bool {
    &&& g.val.dom().contains(l) && g.val[l].wf() && g.val[l].shape.s() == g.ops[l.0].rets[l.1]
    &&& (g.fwd.contains(l.0) ==> g.val[l].valid@ && g.val[l].v() == g.ops[l.0].ev[l.1])
    &&& (!g.fwd.contains(l.0) ==> !g.val[l].valid@)
}
pub open spec fn gradok(g: HV, l: Loc) -> bool { g.grad.dom().contains(l) && g.grad[l].wf() && g.grad[l].shape.s() == g.ops[l.0].rets[l.1] }
pub open spec fn cntok(g: HV, i: int) -> bool { g.cnt.dom().contains(i) && g.cnt[i] == (if g.fwd.contains(i) { 1int } else { 0int }) }
pub open spec fn opsok(g: HV) -> bool { forall|i: int| 0 <= i < g.ops.len() ==> #[trigger] opwf(g, i) }
pub open spec fn gradsok(g: HV) -> bool { forall|l: Loc| isloc(g, l) ==> #[trigger] gradok(g, l) }
pub open spec fn free(g: HV) -> bool { g.sh =~= Set::<(bool, Loc)>::empty() && g.ex =~= Set::<(bool, Loc)>::empty() }
pub open spec fn hwf(g: HV) -> bool {
    &&& g.ops.len() < usize::MAX
    &&& opsok(g) && gradsok(g)
    &&& forall|l: Loc| isloc(g, l) ==> #[trigger] valok(g, l)
    &&& forall|i: int| isop(g, i) ==> #[trigger] cntok(g, i)
    &&& forall|i: int| #[trigger] g.fwd.contains(i) ==> isop(g, i)
    &&& free(g)
}
pub open spec fn nok(g: HV, n: GNode) -> bool { isloc(g, al(n.data)) }
pub open spec fn nval(g: HV, n: GNode) -> TV { g.ops[n.data.op as int].ev[n.data.vid as int] }
pub open spec fn nshape(g: HV, n: GNode) -> SV { g.ops[n.data.op as int].rets[n.data.vid as int] }
// operation i is needed for operation r
pub open spec fn reach(ops: Seq<OI>, r: int, i: int) -> bool
    decreases r,
{
    r == i || (r >= 0 && exists|p: int| 0 <= p < ops[r].args.len() && (#[trigger] ops[r].args[p]).op < r && reach(ops, ops[r].args[p].op as int, i))
}
pub open spec fn closed(ops: Seq<OI>, s: Set<int>) -> bool {
    forall|i: int, p: int| s.contains(i) && 0 <= p < ops[i].args.len() ==> s.contains((#[trigger] ops[i].args[p]).op as int)
}
pub proof fn lemma_reach_lt(ops: Seq<OI>, r: int, i: int)
    requires reach(ops, r, i), 0 <= r,
    ensures 0 <= i <= r,
    decreases r,
{
    if r != i {
        let p = choose|p: int| 0 <= p < ops[r].args.len() && (#[trigger] ops[r].args[p]).op < r && reach(ops, ops[r].args[p].op as int, i);
        lemma_reach_lt(ops, ops[r].args[p].op as int, i);
    }
}
// a further step down
pub proof fn lemma_reach_step(ops: Seq<OI>, r: int, i: int, p: int)
    requires reach(ops, r, i), 0 <= i, 0 <= r, 0 <= p < ops[i].args.len(), ops[i].args[p].op < i,
    ensures reach(ops, r, ops[i].args[p].op as int),
    decreases r,
{
    let a = ops[i].args[p].op as int;
    assert(reach(ops, a, a));
    if r == i {
        assert(ops[r].args[p].op < r && reach(ops, ops[r].args[p].op as int, a));
    } else {
        let q = choose|q: int| 0 <= q < ops[r].args.len() && (#[trigger] ops[r].args[q]).op < r && reach(ops, ops[r].args[q].op as int, i);
        lemma_reach_step(ops, ops[r].args[q].op as int, i, p);
        assert(ops[r].args[q].op < r && reach(ops, ops[r].args[q].op as int, a));
    }
}
// a closed set holds whatever is needed for its elements
pub proof fn lemma_closed_reach(ops: Seq<OI>, s: Set<int>, r: int, i: int)
    requires closed(ops, s), s.contains(r), reach(ops, r, i), 0 <= r,
    ensures s.contains(i),
    decreases r,
{
    if r != i {
        let p = choose|p: int| 0 <= p < ops[r].args.len() && (#[trigger] ops[r].args[p]).op < r && reach(ops, ops[r].args[p].op as int, i);
        assert(s.contains(ops[r].args[p].op as int));
        lemma_closed_reach(ops, s, ops[r].args[p].op as int, i);
    }
}

// ------------------------------------------------------------- containers of the traversals
#[verifier::external_body]
pub struct PtrSet { p: usize }
impl View for PtrSet { type V = Set<int>; uninterp spec fn view(&self) -> Set<int>; }
#[verifier::external_body]
pub fn set_new() -> (r: PtrSet) ensures r@ == Set::<int>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn set_contains(s: &PtrSet, x: usize) -> (r: bool) ensures r == s@.contains(x as int) { unimplemented!() }
#[verifier::external_body]
pub fn set_insert(s: &mut PtrSet, x: usize) -> (r: bool) ensures final(s)@ == old(s)@.insert(x as int), r == !old(s)@.contains(x as int) { unimplemented!() }
#[verifier::external_body]
pub struct Queue { p: usize }
impl View for Queue { type V = Seq<int>; uninterp spec fn view(&self) -> Seq<int>; }
#[verifier::external_body]
pub fn q_new() -> (r: Queue) ensures r@ == Seq::<int>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn q_push_back(q: &mut Queue, x: usize) ensures final(q)@ == old(q)@.push(x as int) { unimplemented!() }
#[verifier::external_body]
pub fn q_push_front(q: &mut Queue, x: usize) ensures final(q)@ == seq![x as int] + old(q)@ { unimplemented!() }
#[verifier::external_body]
pub fn q_some(q: &Queue) -> (r: bool) ensures r == (q@.len() > 0) { unimplemented!() }
#[verifier::external_body]
pub fn q_pop_front(q: &mut Queue) -> (r: usize) requires old(q)@.len() > 0 ensures r == old(q)@[0], final(q)@ == old(q)@.remove(0), old(q)@.contains(r as int) { unimplemented!() }
#[verifier::external_body]
pub fn q_pop_back(q: &mut Queue) -> (r: usize) requires old(q)@.len() > 0 ensures r == old(q)@.last(), final(q)@ == old(q)@.drop_last(), old(q)@.contains(r as int) { unimplemented!() }
// a priority queue of operations by the order proved for OperatorInfoCmp; every operation is put in at most once
#[verifier::external_body]
pub struct Pq { p: usize }
impl View for Pq { type V = Set<int>; uninterp spec fn view(&self) -> Set<int>; }
#[verifier::external_body]
pub fn pq_new() -> (r: Pq) ensures r@ == Set::<int>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn pq_push(q: &mut Pq, x: usize) requires !old(q)@.contains(x as int) ensures final(q)@ == old(q)@.insert(x as int) { unimplemented!() }
#[verifier::external_body]
pub fn pq_some(q: &Pq) -> (r: bool) ensures r == exists|i: int| q@.contains(i) { unimplemented!() }
#[verifier::external_body]
pub fn pq_pop_max(q: &mut Pq, h: &Heap) -> (r: usize)
    requires exists|i: int| old(q)@.contains(i),
    ensures old(q)@.contains(r as int), final(q)@ == old(q)@.remove(r as int), forall|i: int| #[trigger] old(q)@.contains(i) ==> h.g().ops[i].depth <= h.g().ops[r as int].depth
{ unimplemented!() }
#[verifier::external_body]
pub fn pq_pop_min(q: &mut Pq, h: &Heap) -> (r: usize)
    requires exists|i: int| old(q)@.contains(i),
    ensures old(q)@.contains(r as int), final(q)@ == old(q)@.remove(r as int), forall|i: int| #[trigger] old(q)@.contains(i) ==> h.g().ops[i].depth >= h.g().ops[r as int].depth
{ unimplemented!() }

// ------------------------------------------------------------- reading and writing the heap
#[verifier::external_body]
pub fn h_args(h: &Heap, i: usize) -> (r: Vec<DataRef>) requires isop(h.g(), i as int) ensures r@ == h.g().ops[i as int].args { unimplemented!() }
#[verifier::external_body]
pub fn h_nrets(h: &Heap, i: usize) -> (r: usize) requires isop(h.g(), i as int) ensures r == h.g().ops[i as int].rets.len() { unimplemented!() }
#[verifier::external_body]
pub fn h_depth(h: &Heap, i: usize) -> (r: usize) requires isop(h.g(), i as int) ensures r == h.g().ops[i as int].depth { unimplemented!() }
#[verifier::external_body]
pub fn h_fwd(h: &Heap, i: usize) -> (r: bool) requires isop(h.g(), i as int) ensures r == h.g().fwd.contains(i as int) { unimplemented!() }
#[verifier::external_body]
pub fn h_set_fwd(h: &mut Heap, i: usize, b: bool)
    requires isop(old(h).g(), i as int),
    ensures final(h).g() == (HV { fwd: if b { old(h).g().fwd.insert(i as int) } else { old(h).g().fwd.remove(i as int) }, ..old(h).g() }) { unimplemented!() }
// a shared borrow: what the cell holds, which no exclusive borrow may change meanwhile
#[verifier::external_body]
pub fn h_share_v(h: &mut Heap, i: usize, k: usize, Ghost(ok): Ghost<bool>) -> (r: Tensor)
    requires isloc(old(h).g(), (i as int, k as int)), ok ==> !old(h).g().ex.contains((false, (i as int, k as int))),
    ensures r == old(h).g().val[(i as int, k as int)], final(h).g() == (HV { sh: old(h).g().sh.insert((false, (i as int, k as int))), ..old(h).g() }) { unimplemented!() }
#[verifier::external_body]
pub fn h_share_g(h: &mut Heap, i: usize, k: usize, Ghost(ok): Ghost<bool>) -> (r: Tensor)
    requires isloc(old(h).g(), (i as int, k as int)), ok ==> !old(h).g().ex.contains((true, (i as int, k as int))),
    ensures r == old(h).g().grad[(i as int, k as int)], final(h).g() == (HV { sh: old(h).g().sh.insert((true, (i as int, k as int))), ..old(h).g() }) { unimplemented!() }
#[verifier::external_body]
pub fn h_peek_v(h: &Heap, i: usize, k: usize, Ghost(ok): Ghost<bool>) -> (r: Tensor)
    requires isloc(h.g(), (i as int, k as int)), ok ==> !h.g().ex.contains((false, (i as int, k as int))),
    ensures r == h.g().val[(i as int, k as int)] { unimplemented!() }
#[verifier::external_body]
pub fn h_peek_g(h: &Heap, i: usize, k: usize, Ghost(ok): Ghost<bool>) -> (r: Tensor)
    requires isloc(h.g(), (i as int, k as int)), ok ==> !h.g().ex.contains((true, (i as int, k as int))),
    ensures r == h.g().grad[(i as int, k as int)] { unimplemented!() }
// an exclusive borrow handed on as the place it stands for
#[verifier::external_body]
pub fn h_lock_v(h: &mut Heap, i: usize, k: usize, Ghost(ok): Ghost<bool>)
    requires isloc(old(h).g(), (i as int, k as int)), ok ==> !old(h).g().ex.contains((false, (i as int, k as int))) && !old(h).g().sh.contains((false, (i as int, k as int))),
    ensures final(h).g() == (HV { ex: old(h).g().ex.insert((false, (i as int, k as int))), ..old(h).g() }) { unimplemented!() }
// the borrows since a point in time end
#[verifier::external_body]
pub fn h_unlock(h: &mut Heap, Ghost(b): Ghost<HV>) ensures final(h).g() == (HV { sh: b.sh, ex: b.ex, ..old(h).g() }) { unimplemented!() }
// an exclusive borrow of one gradient, until it is put back
#[verifier::external_body]
pub fn h_take_g(h: &mut Heap, i: usize, k: usize, Ghost(ok): Ghost<bool>) -> (r: Tensor)
    requires isloc(old(h).g(), (i as int, k as int)), ok ==> !old(h).g().ex.contains((true, (i as int, k as int))) && !old(h).g().sh.contains((true, (i as int, k as int))),
    ensures r == old(h).g().grad[(i as int, k as int)], final(h).g() == (HV { ex: old(h).g().ex.insert((true, (i as int, k as int))), ..old(h).g() }) { unimplemented!() }
#[verifier::external_body]
pub fn h_put_g(h: &mut Heap, i: usize, k: usize, t: Tensor)
    requires old(h).g().ex.contains((true, (i as int, k as int))),
    ensures final(h).g() == (HV { grad: old(h).g().grad.insert((i as int, k as int), t), ex: old(h).g().ex.remove((true, (i as int, k as int))), ..old(h).g() }) { unimplemented!() }
pub open spec fn vtv(xs: Seq<Tensor>) -> Seq<TV> { Seq::new(xs.len(), |i: int| xs[i].v()) }
pub open spec fn vfull(xs: Seq<Tensor>) -> bool { forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).full() }
pub open spec fn ul(l: (usize, usize)) -> Loc { (l.0 as int, l.1 as int) }
// the operator's forward (contract of every operator, unit "op"), its results written to the cells at ys
#[verifier::external_body]
pub fn h_op_forward(h: &mut Heap, i: usize, xs: &Vec<Tensor>, ys: &Vec<(usize, usize)>)
    requires isop(old(h).g(), i as int), ({ let g = old(h).g(); let o = g.ops[i as int].o; let ss = svs(vtv(xs@));
        &&& o_arity(o, xs@.len() as int) && vfull(xs@) && o_valid(o, ss) && ys@.len() == o_shapes(o, ss).len()
        &&& forall|k: int| 0 <= k < ys@.len() ==> g.ex.contains((false, #[trigger] ul(ys@[k]))) && g.val.dom().contains(ul(ys@[k])) && g.val[ul(ys@[k])].wf() && !g.val[ul(ys@[k])].valid@ && g.val[ul(ys@[k])].shape.s() == o_shapes(o, ss)[k]
        &&& forall|a: int, b: int| 0 <= a < b < ys@.len() ==> ul(ys@[a]) != ul(ys@[b]) }),
    ensures ({ let g = old(h).g(); let f = final(h).g(); let o = g.ops[i as int].o;
        &&& f == (HV { val: f.val, cnt: g.cnt.insert(i as int, g.cnt[i as int] + 1), ..g })
        &&& f.val.dom() == g.val.dom()
        &&& forall|k: int| 0 <= k < ys@.len() ==> f.val[#[trigger] ul(ys@[k])].full() && f.val[ul(ys@[k])].v() == o_eval(o, vtv(xs@))[k]
        &&& forall|l: Loc| (forall|k: int| 0 <= k < ys@.len() ==> l != ul(ys@[k])) ==> #[trigger] f.val[l] == g.val[l] })
{ unimplemented!() }
pub type GM = Map<Loc, TV>;
pub open spec fn gtv(m: Map<Loc, Tensor>) -> GM { m.map_values(|t: Tensor| t.v()) }
pub open spec fn hadd_all(m: GM, at: Seq<Loc>, ds: Seq<TV>, n: int) -> GM decreases n {
    if n <= 0 { m } else { let b = hadd_all(m, at, ds, n - 1); b.insert(at[n - 1], tv_add(b[at[n - 1]], ds[n - 1])) }
}
pub open spec fn uls(xs: Seq<(usize, usize)>) -> Seq<Loc> { Seq::new(xs.len(), |k: int| ul(xs[k])) }
// the operator's backward: adds to the gradients its cells refer to (and to the parameter's)
#[verifier::external_body]
pub fn h_op_backward(h: &mut Heap, i: usize, xs: &Vec<Tensor>, ys: &Vec<Tensor>, gys: &Vec<Tensor>, gxs: &Vec<(usize, usize)>)
    requires isop(old(h).g(), i as int), ({ let g = old(h).g(); let o = g.ops[i as int].o; let xv = vtv(xs@); let ss = svs(xv);
        &&& o_arity(o, xs@.len() as int) && vfull(xs@) && o_valid(o, ss) && o_bwok(o, ss) && vfull(ys@) && vfull(gys@)
        &&& vtv(ys@) =~= o_eval(o, xv) && svs(vtv(gys@)) =~= o_shapes(o, ss)
        &&& gxs@.len() == xs@.len()
        &&& forall|p: int| 0 <= p < gxs@.len() ==> g.grad.dom().contains(#[trigger] ul(gxs@[p])) && g.grad[ul(gxs@[p])].full() && g.grad[ul(gxs@[p])].shape.s() == xs@[p].shape.s()
               && !g.sh.contains((true, ul(gxs@[p]))) && !g.ex.contains((true, ul(gxs@[p])))
        &&& o_par(o) ==> gys@.len() == 1 && g.acc[i as int].s == gys@[0].shape.s() }),
    ensures ({ let g = old(h).g(); let f = final(h).g(); let o = g.ops[i as int].o;
        &&& f == (HV { grad: f.grad, acc: if o_par(o) { g.acc.insert(i as int, tv_add(g.acc[i as int], gys@[0].v())) } else { g.acc }, ..g })
        &&& f.grad.dom() == g.grad.dom()
        &&& gtv(f.grad) == hadd_all(gtv(g.grad), uls(gxs@), o_grads(o, vtv(xs@), vtv(gys@)), gxs@.len() as int)
        &&& o_grads(o, vtv(xs@), vtv(gys@)).len() == xs@.len() && forall|p: int| 0 <= p < xs@.len() ==> (#[trigger] o_grads(o, vtv(xs@), vtv(gys@))[p]).s == xs@[p].shape.s()
        &&& forall|l: Loc| if uls(gxs@).contains(l) { (#[trigger] f.grad[l]).full() && f.grad[l].shape.s() == g.grad[l].shape.s() } else { f.grad[l] == g.grad[l] } })
{ unimplemented!() }
#[verifier::external_body]
pub fn o_forward_shape(o: &OBox, xs: &Vec<Shape>, Ghost(ok): Ghost<bool>) -> (r: Vec<Shape>)
    requires o_arity(*o, xs@.len() as int), forall|k: int| 0 <= k < xs@.len() ==> (#[trigger] xs@[k]).wf(), ok ==> o_valid(*o, shv(xs@)),
    ensures o_valid(*o, shv(xs@)), r@.len() == o_shapes(*o, shv(xs@)).len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).wf() && r@[k].s() == o_shapes(*o, shv(xs@))[k] && svwf(o_shapes(*o, shv(xs@))[k])
{ unimplemented!() }
// what every operator of the library guarantees of its shapes and values, unit "op"
#[verifier::external_body]
pub proof fn o_eval_shape(o: OBox, xs: Seq<TV>)
    requires o_arity(o, xs.len() as int), o_valid(o, svs(xs)), forall|p: int| 0 <= p < xs.len() ==> tvwf(#[trigger] xs[p]), forall|k: int| 0 <= k < o_shapes(o, svs(xs)).len() ==> svwf(#[trigger] o_shapes(o, svs(xs))[k]),
    ensures o_eval(o, xs).len() == o_shapes(o, svs(xs)).len(), forall|k: int| 0 <= k < o_eval(o, xs).len() ==> tvwf(#[trigger] o_eval(o, xs)[k]) && o_eval(o, xs)[k].s == o_shapes(o, svs(xs))[k],
        o_par(o) ==> o_shapes(o, svs(xs)).len() == 1 && tvwf(o_acc(o)) && o_acc(o).s == o_shapes(o, svs(xs))[0],
{}
// a new operation
pub open spec fn oi_of(ops: Seq<OI>, x: OInfo) -> OI {
    OI { o: x.operator, args: x.args@, depth: x.depth as int, rets: Seq::new(x.rets@.len(), |k: int| x.rets@[k].value.shape.s()), ev: o_eval(x.operator, arg_evs(ops, x.args@)) }
}
pub open spec fn alloc_post(g: HV, f: HV, x: OInfo) -> bool {
    let n = hn(g);
    &&& n + 1 < usize::MAX
    &&& f.ops == g.ops.push(oi_of(g.ops, x)) && f.sh == g.sh && f.ex == g.ex
    &&& f.fwd == (if x.forwarded { g.fwd.insert(n) } else { g.fwd.remove(n) })
    &&& f.acc == g.acc.insert(n, o_acc(x.operator)) && f.cnt == g.cnt.insert(n, 0)
    &&& forall|k: int| 0 <= k < x.rets@.len() ==> f.val.dom().contains((n, k)) && #[trigger] f.val[(n, k)] == x.rets@[k].value && f.grad.dom().contains((n, k)) && f.grad[(n, k)] == x.rets@[k].gradient
    &&& forall|l: Loc| l.0 != n ==> #[trigger] f.val[l] == g.val[l] && (f.val.dom().contains(l) == g.val.dom().contains(l))
    &&& forall|l: Loc| l.0 != n ==> #[trigger] f.grad[l] == g.grad[l] && (f.grad.dom().contains(l) == g.grad.dom().contains(l))
}
#[verifier::external_body]
pub fn h_alloc(h: &mut Heap, x: OInfo) -> (r: usize)
    ensures r == hn(old(h).g()), alloc_post(old(h).g(), final(h).g(), x)
{ unimplemented!() }

// ------------------------------------------------------------- the chain rule
// the gradients of the results of an operation
pub open spec fn outs(ops: Seq<OI>, m: GM, j: int) -> Seq<TV> { Seq::new(ops[j].rets.len(), |k: int| m[(j, k)]) }
pub open spec fn gof(ops: Seq<OI>, m: GM, j: int) -> Seq<TV> { o_grads(ops[j].o, arg_evs(ops, ops[j].args), outs(ops, m, j)) }
pub open spec fn bwfit(ops: Seq<OI>, i: int) -> bool { o_bwok(ops[i].o, arg_shapes(ops, ops[i].args)) }
pub open spec fn als(args: Seq<DataRef>) -> Seq<Loc> { Seq::new(args.len(), |p: int| al(args[p])) }
// what the operands of one operation that are the value at l get from it
pub open spec fn psum(s: SV, at: Seq<Loc>, ds: Seq<TV>, l: Loc, n: int) -> TV decreases n {
    if n <= 0 { V_zero(s) } else if at[n - 1] == l { tv_add(psum(s, at, ds, l, n - 1), ds[n - 1]) } else { psum(s, at, ds, l, n - 1) }
}
pub open spec fn contrib(ops: Seq<OI>, m: GM, j: int, l: Loc) -> TV { psum(ops[l.0].rets[l.1], als(ops[j].args), gof(ops, m, j), l, ops[j].args.len() as int) }
// the sum over the operations of d
pub open spec fn tsum(ops: Seq<OI>, m: GM, d: Set<int>, l: Loc, n: int) -> TV decreases n {
    if n <= 0 { V_zero(ops[l.0].rets[l.1]) } else if d.contains(n - 1) { tv_add(tsum(ops, m, d, l, n - 1), contrib(ops, m, n - 1, l)) } else { tsum(ops, m, d, l, n - 1) }
}
pub open spec fn seed(ops: Seq<OI>, r: Loc, l: Loc) -> TV { if l == r { V_const(ops[l.0].rets[l.1], 1.0real) } else { V_zero(ops[l.0].rets[l.1]) } }
pub open spec fn rset(ops: Seq<OI>, r: int) -> Set<int> { vstd::set_lib::set_int_range(0, r + 1).filter(|i: int| reach(ops, r, i)) }
pub open spec fn dgrad(ops: Seq<OI>, m: GM, d: Set<int>, r: Loc, l: Loc) -> TV { tv_add(seed(ops, r, l), tsum(ops, m, d, l, ops.len() as int)) }
// the gradient of r's elements' sum is at every place r depends on, nothing else has changed
pub open spec fn chain(g: HV, f: HV, r: Loc) -> bool {
    &&& f == (HV { grad: f.grad, acc: f.acc, ..g })
    &&& forall|l: Loc| isloc(f, l) && reach(f.ops, r.0, l.0) ==> (#[trigger] f.grad[l]).valid@ && f.grad[l].v() == dgrad(f.ops, gtv(f.grad), rset(f.ops, r.0), r, l)
    &&& forall|l: Loc| isloc(f, l) && !reach(f.ops, r.0, l.0) ==> #[trigger] f.grad[l] == g.grad[l]
    &&& forall|i: int| isop(f, i) && o_par(f.ops[i].o) ==> #[trigger] f.acc[i] == (if reach(f.ops, r.0, i) { tv_add(g.acc[i], f.grad[(i, 0)].v()) } else { g.acc[i] })
}
pub proof fn lemma_psum_s(s: SV, at: Seq<Loc>, ds: Seq<TV>, l: Loc, n: int) ensures psum(s, at, ds, l, n).s == s decreases n { if n > 0 { lemma_psum_s(s, at, ds, l, n - 1); } }
pub proof fn lemma_tsum_s(ops: Seq<OI>, m: GM, d: Set<int>, l: Loc, n: int) ensures tsum(ops, m, d, l, n).s == ops[l.0].rets[l.1] decreases n { if n > 0 { lemma_tsum_s(ops, m, d, l, n - 1); } }
pub proof fn lemma_assoc(a: TV, b: TV, c: TV)
    requires b.s == a.s, sz(a.s) >= 0,
    ensures tv_add(tv_add(a, b), c) == tv_add(a, tv_add(b, c)),
{ assert(tv_add(tv_add(a, b), c).d =~= tv_add(a, tv_add(b, c)).d); }
pub proof fn lemma_swap(a: TV, b: TV, c: TV)
    ensures tv_add(tv_add(a, b), c) == tv_add(tv_add(a, c), b),
{ assert(tv_add(tv_add(a, b), c).d =~= tv_add(tv_add(a, c), b).d); }
// adding contributions to places: each place gets the sum of its own
pub proof fn lemma_hadd(m: GM, at: Seq<Loc>, ds: Seq<TV>, n: int, l: Loc)
    requires 0 <= n <= at.len(), tvwf(m[l]),
    ensures at.subrange(0, n).contains(l) ==> hadd_all(m, at, ds, n)[l] == tv_add(m[l], psum(m[l].s, at, ds, l, n)),
        !at.subrange(0, n).contains(l) ==> hadd_all(m, at, ds, n)[l] == m[l] && psum(m[l].s, at, ds, l, n) == V_zero(m[l].s),
        hadd_all(m, at, ds, n)[l] == tv_add(m[l], psum(m[l].s, at, ds, l, n)),
    decreases n,
{
    let z = V_zero(m[l].s);
    assert(tv_add(m[l], z).d =~= m[l].d);
    if n > 0 {
        lemma_hadd(m, at, ds, n - 1, l);
        lemma_psum_s(m[l].s, at, ds, l, n - 1);
        assert forall|x: Loc| at.subrange(0, n).contains(x) <==> (at.subrange(0, n - 1).contains(x) || x == at[n - 1]) by {
            if at.subrange(0, n).contains(x) { let sb = at.subrange(0, n); let k = choose|k: int| 0 <= k < n && sb[k] == x; if k < n - 1 { assert(at.subrange(0, n - 1)[k] == x); } }
            if at.subrange(0, n - 1).contains(x) { let sb = at.subrange(0, n - 1); let k = choose|k: int| 0 <= k < n - 1 && sb[k] == x; assert(at.subrange(0, n)[k] == x); }
            if x == at[n - 1] { assert(at.subrange(0, n)[n - 1] == x); }
        }
        if at[n - 1] == l {
            lemma_assoc(m[l], psum(m[l].s, at, ds, l, n - 1), ds[n - 1]);
        }
    } else {
        assert(!at.subrange(0, 0).contains(l));
    }
}
// sums depend on the gradients of the summed operations' results only
pub proof fn lemma_tsum_ext(ops: Seq<OI>, m: GM, m2: GM, d: Set<int>, l: Loc, n: int)
    requires forall|j: int, k: int| d.contains(j) && 0 <= k < ops[j].rets.len() ==> #[trigger] m[(j, k)] == m2[(j, k)],
    ensures tsum(ops, m, d, l, n) == tsum(ops, m2, d, l, n),
    decreases n,
{
    if n > 0 {
        lemma_tsum_ext(ops, m, m2, d, l, n - 1);
        if d.contains(n - 1) { assert(outs(ops, m, n - 1) =~= outs(ops, m2, n - 1)); }
    }
}
pub proof fn lemma_tsum_add(ops: Seq<OI>, m: GM, d: Set<int>, j: int, l: Loc, n: int)
    requires !d.contains(j), 0 <= j,
    ensures tsum(ops, m, d.insert(j), l, n) == (if j < n { tv_add(tsum(ops, m, d, l, n), contrib(ops, m, j, l)) } else { tsum(ops, m, d, l, n) }),
    decreases n,
{
    if n > 0 {
        lemma_tsum_add(ops, m, d, j, l, n - 1);
        if j < n - 1 && d.contains(n - 1) {
            lemma_swap(tsum(ops, m, d, l, n - 1), contrib(ops, m, j, l), contrib(ops, m, n - 1, l));
        }
    }
}
pub proof fn lemma_tsum_set(ops: Seq<OI>, m: GM, d: Set<int>, e: Set<int>, l: Loc, n: int)
    requires forall|j: int| 0 <= j < n ==> (d.contains(j) <==> e.contains(j)),
    ensures tsum(ops, m, d, l, n) == tsum(ops, m, e, l, n),
    decreases n,
{ if n > 0 { lemma_tsum_set(ops, m, d, e, l, n - 1); } }
pub proof fn lemma_tsum_empty(ops: Seq<OI>, m: GM, l: Loc, n: int)
    ensures tsum(ops, m, Set::<int>::empty(), l, n) == V_zero(ops[l.0].rets[l.1]),
    decreases n,
{ if n > 0 { lemma_tsum_empty(ops, m, l, n - 1); } }

// ------------------------------------------------------------- what the traversals establish
pub open spec fn fwd_post(g: HV, f: HV, r: int) -> bool {
    &&& hwf(f)
    &&& f == (HV { val: f.val, fwd: f.fwd, cnt: f.cnt, ..g })
    &&& forall|i: int| #[trigger] f.fwd.contains(i) <==> g.fwd.contains(i) || reach(g.ops, r, i)
    &&& forall|l: Loc| isloc(g, l) && (g.fwd.contains(l.0) || !f.fwd.contains(l.0)) ==> #[trigger] f.val[l] == g.val[l]
}
// a state in the search of what r is computed from: q still to be visited, w visited, s the set of operations found
pub open spec fn bfs(ops: Seq<OI>, r: int, s: Set<int>, q: Seq<int>, w: Set<int>) -> bool {
    &&& 0 <= r < ops.len() && !s.contains(r)
    &&& forall|i: int| #[trigger] s.contains(i) ==> 0 <= i < ops.len() && reach(ops, r, i)
    &&& forall|i: int| #[trigger] q.contains(i) ==> (s.contains(i) || i == r) && !w.contains(i)
    &&& forall|i: int| #[trigger] w.contains(i) ==> s.contains(i) || i == r
    &&& q.no_duplicates()
}
pub open spec fn bfs_kept(ops: Seq<OI>, s: Set<int>, w: Set<int>) -> bool {
    forall|i: int, p: int| w.contains(i) && 0 <= p < ops[i].args.len() ==> s.contains((#[trigger] ops[i].args[p]).op as int)
}
pub open spec fn bfs_all(r: int, s: Set<int>, q: Seq<int>, w: Set<int>) -> bool {
    (forall|i: int| #[trigger] s.contains(i) ==> q.contains(i) || w.contains(i)) && (q.contains(r) || w.contains(r))
}
pub open spec fn bfs_m(ops: Seq<OI>, s: Set<int>, q: Seq<int>) -> int { 2 * (ops.len() - s.len()) + q.len() }
pub proof fn lemma_bfs_m(ops: Seq<OI>, r: int, s: Set<int>, q: Seq<int>, w: Set<int>)
    requires bfs(ops, r, s, q, w),
    ensures bfs_m(ops, s, q) >= 0, s.len() <= ops.len(),
{
    let full = vstd::set_lib::set_int_range(0, ops.len() as int);
    vstd::set_lib::lemma_int_range(0, ops.len() as int);
    assert(s.subset_of(full));
    vstd::set_lib::lemma_len_subset(s, full);
}
pub proof fn lemma_pop(q: Seq<int>, x: int)
    requires q.len() > 0, q.no_duplicates(), (x == q[0] || x == q.last()),
    ensures q.contains(x), q.remove(0).len() == q.len() - 1, q.drop_last().len() == q.len() - 1,
        x == q[0] ==> q.remove(0).no_duplicates() && !q.remove(0).contains(x) && forall|i: int| #[trigger] q.remove(0).contains(i) <==> q.contains(i) && i != x,
        x == q.last() ==> q.drop_last().no_duplicates() && !q.drop_last().contains(x) && forall|i: int| #[trigger] q.drop_last().contains(i) <==> q.contains(i) && i != x,
{
    if x == q[0] {
        let t = q.remove(0);
        assert forall|i: int| t.contains(i) <==> q.contains(i) && i != x by {
            if t.contains(i) { let k = choose|k: int| 0 <= k < t.len() && t[k] == i; assert(q[k + 1] == i); }
            if q.contains(i) && i != x { let k = choose|k: int| 0 <= k < q.len() && q[k] == i; assert(t[k - 1] == i); }
        }
    }
    if x == q.last() {
        let t = q.drop_last();
        assert forall|i: int| t.contains(i) <==> q.contains(i) && i != x by {
            if t.contains(i) { let k = choose|k: int| 0 <= k < t.len() && t[k] == i; assert(q[k] == i); }
            if q.contains(i) && i != x { let k = choose|k: int| 0 <= k < q.len() && q[k] == i; assert(t[k] == i); }
        }
    }
}
pub proof fn lemma_push(q: Seq<int>, x: int)
    ensures forall|i: int| #[trigger] q.push(x).contains(i) <==> q.contains(i) || i == x, !q.contains(x) && q.no_duplicates() ==> q.push(x).no_duplicates(),
        forall|i: int| #[trigger] (seq![x] + q).contains(i) <==> q.contains(i) || i == x, !q.contains(x) && q.no_duplicates() ==> (seq![x] + q).no_duplicates(),
{
    let t = q.push(x);
    assert forall|i: int| t.contains(i) <==> q.contains(i) || i == x by {
        if t.contains(i) { let k = choose|k: int| 0 <= k < t.len() && t[k] == i; if k < q.len() { assert(q[k] == i); } }
        if q.contains(i) { let k = choose|k: int| 0 <= k < q.len() && q[k] == i; assert(t[k] == i); }
        if i == x { assert(t[q.len() as int] == x); }
    }
    let u = seq![x] + q;
    assert forall|i: int| u.contains(i) <==> q.contains(i) || i == x by {
        if u.contains(i) { let k = choose|k: int| 0 <= k < u.len() && u[k] == i; if k > 0 { assert(q[k - 1] == i); } }
        if q.contains(i) { let k = choose|k: int| 0 <= k < q.len() && q[k] == i; assert(u[k + 1] == i); }
        if i == x { assert(u[0] == x); }
    }
}
// an operand found
pub proof fn lemma_bfs_arg(g: HV, r: int, c: int, p: int)
    requires opsok(g), isop(g, r), c == r || reach(g.ops, r, c), 0 <= p < g.ops[c].args.len(),
    ensures isop(g, c), g.ops[c].args[p].op < c, c <= r, reach(g.ops, r, g.ops[c].args[p].op as int), isloc(g, al(g.ops[c].args[p])), g.ops[g.ops[c].args[p].op as int].depth < g.ops[c].depth,
{
    assert(reach(g.ops, r, r));
    lemma_reach_lt(g.ops, r, c);
    assert(opwf(g, c));
    assert(argok(g.ops, c, g.ops[c].args[p], g.ops[c].depth));
    lemma_reach_step(g.ops, r, c, p);
}
pub proof fn lemma_bfs_done(ops: Seq<OI>, r: int, s: Set<int>, q: Seq<int>, w: Set<int>)
    requires bfs(ops, r, s, q, w), bfs_kept(ops, s, w), bfs_all(r, s, q, w), q.len() == 0,
    ensures forall|i: int| #[trigger] w.contains(i) <==> reach(ops, r, i), w.contains(r),
{
    assert(forall|i: int| !q.contains(i));
    assert(closed(ops, w)) by { assert forall|i: int, p: int| w.contains(i) && 0 <= p < ops[i].args.len() implies w.contains((#[trigger] ops[i].args[p]).op as int) by { assert(s.contains(ops[i].args[p].op as int)); } }
    assert forall|i: int| #[trigger] w.contains(i) <==> reach(ops, r, i) by {
        if reach(ops, r, i) { lemma_closed_reach(ops, w, r, i); }
        if w.contains(i) && i == r { assert(reach(ops, r, r)); }
    }
}
// operations do not change with the cells
pub proof fn lemma_frame(g: HV, f: HV)
    requires f.ops == g.ops, f.acc == g.acc,
    ensures opsok(g) ==> opsok(f), forall|i: int| opwf(g, i) ==> #[trigger] opwf(f, i), f.grad == g.grad && gradsok(g) ==> gradsok(f),
{ if f.grad == g.grad && gradsok(g) { assert forall|l: Loc| isloc(f, l) implies #[trigger] gradok(f, l) by { assert(gradok(g, l)); } }
  assert forall|i: int| opwf(g, i) implies #[trigger] opwf(f, i) by {} if opsok(g) { assert forall|i: int| 0 <= i < f.ops.len() implies #[trigger] opwf(f, i) by { assert(opwf(g, i)); } } }

// ---- backpropagation: gradients cleared so far
pub open spec fn zd(g: HV, f: HV, w: Set<int>, c: int, k: int, l: Loc) -> bool {
    gradok(f, l) && (if w.contains(l.0) || (l.0 == c && l.1 < k) { f.grad[l].full() && f.grad[l].v() == V_zero(g.ops[l.0].rets[l.1]) } else { f.grad[l] == g.grad[l] })
}
pub proof fn lemma_zero_v(t: Tensor, s: SV)
    requires t.full(), t.shape.s() == s, t.v() == V_const(s, 0.0real),
    ensures t.v() == V_zero(s),
{ assert(V_const(s, 0.0real).d =~= V_zero(s).d); }
// gradients handed on by the operations of pp that are not in w any more
pub open spec fn bwl(g: HV, f: HV, pp: Set<int>, w: Set<int>, r: Loc, l: Loc) -> bool {
    gradok(f, l) && (if pp.contains(l.0) { f.grad[l].full() && f.grad[l].v() == dgrad(g.ops, gtv(f.grad), pp.difference(w), r, l) } else { f.grad[l] == g.grad[l] })
}
pub open spec fn bwa(g: HV, f: HV, pp: Set<int>, w: Set<int>, i: int) -> bool {
    &&& opwf(f, i)
    &&& (o_par(g.ops[i].o) ==> f.acc[i] == (if pp.contains(i) && !w.contains(i) { tv_add(g.acc[i], f.grad[(i, 0)].v()) } else { g.acc[i] }))
}
pub open spec fn bwd(g: HV, f: HV, pp: Set<int>, w: Set<int>, r: Loc) -> bool {
    &&& f == (HV { grad: f.grad, acc: f.acc, ..g })
    &&& forall|i: int| w.contains(i) ==> #[trigger] pp.contains(i)
    &&& forall|l: Loc| isloc(g, l) ==> #[trigger] bwl(g, f, pp, w, r, l)
    &&& forall|i: int| isop(g, i) ==> #[trigger] bwa(g, f, pp, w, i)
    &&& forall|d: int, v: int| pp.contains(d) && !w.contains(d) && w.contains(v) ==> #[trigger] deeper(g.ops, d, v)
}
pub open spec fn deeper(ops: Seq<OI>, d: int, v: int) -> bool { ops[d].depth >= ops[v].depth }
pub open spec fn isreach(ops: Seq<OI>, r: int, pp: Set<int>) -> bool { forall|i: int| #[trigger] pp.contains(i) <==> reach(ops, r, i) }
pub proof fn lemma_bwd_start(g: HV, a: HV, f: HV, pp: Set<int>, r: Loc, t: Tensor)
    requires hwf(g), isloc(g, r), isreach(g.ops, r.0, pp), forall|l: Loc| isloc(g, l) ==> #[trigger] zd(g, a, pp, -1, 0, l), a == (HV { grad: a.grad, ..g }),
        f == (HV { grad: a.grad.insert(r, t), ..a }), t.full(), t.shape.s() == g.ops[r.0].rets[r.1], t.v() == V_const(g.ops[r.0].rets[r.1], 1.0real),
    ensures bwd(g, f, pp, pp, r),
{
    let e = pp.difference(pp);
    assert(e =~= Set::<int>::empty());
    lemma_frame(g, f);
    assert(reach(g.ops, r.0, r.0));
    assert forall|l: Loc| isloc(g, l) implies #[trigger] bwl(g, f, pp, pp, r, l) by {
        assert(zd(g, a, pp, -1, 0, l));
        lemma_tsum_empty(g.ops, gtv(f.grad), l, g.ops.len() as int);
        assert(tv_add(seed(g.ops, r, l), V_zero(g.ops[l.0].rets[l.1])).d =~= seed(g.ops, r, l).d);
    }
    assert forall|i: int| isop(g, i) implies #[trigger] bwa(g, f, pp, pp, i) by { assert(opwf(g, i)); assert(opwf(f, i)); }
}
pub proof fn lemma_bwd_step(g: HV, a: HV, f: HV, pp: Set<int>, w: Set<int>, c: int, r: Loc)
    requires hwf(g), isloc(g, r), isreach(g.ops, r.0, pp), bwd(g, a, pp, w, r), w.contains(c), isop(g, c),
        forall|i: int| #[trigger] w.contains(i) ==> g.ops[i].depth <= g.ops[c].depth,
        ({ let o = g.ops[c].o; let n = g.ops[c].args.len() as int; let ds = gof(g.ops, gtv(a.grad), c);
        &&& f == (HV { grad: f.grad, acc: if o_par(o) { a.acc.insert(c, tv_add(a.acc[c], a.grad[(c, 0)].v())) } else { a.acc }, ..a })
        &&& f.grad.dom() == a.grad.dom()
        &&& gtv(f.grad) == hadd_all(gtv(a.grad), als(g.ops[c].args), ds, n)
        &&& forall|l: Loc| if als(g.ops[c].args).contains(l) { (#[trigger] f.grad[l]).full() && f.grad[l].shape.s() == a.grad[l].shape.s() } else { f.grad[l] == a.grad[l] } }),
    ensures bwd(g, f, pp, w.remove(c), r),
{
    let w2 = w.remove(c); let d = pp.difference(w); let d2 = pp.difference(w2); let at = als(g.ops[c].args); let n = g.ops[c].args.len() as int; let m = gtv(a.grad); let m2 = gtv(f.grad);
    let nn = g.ops.len() as int;
    assert(pp.contains(c));
    assert(d2 =~= d.insert(c));
    assert(reach(g.ops, r.0, c));
    // the operands' gradients are still to be handed on
    assert forall|l: Loc| at.contains(l) implies isloc(g, l) && pp.contains(l.0) && !d2.contains(l.0) by {
        let p = choose|p: int| 0 <= p < at.len() && at[p] == l;
        lemma_bfs_arg(g, r.0, c, p);
        if d.contains(l.0) { assert(deeper(g.ops, l.0, c)); }
    }
    assert forall|j: int, k: int| d2.contains(j) && 0 <= k < g.ops[j].rets.len() implies #[trigger] m[(j, k)] == m2[(j, k)] by {
        assert(!at.contains((j, k)));
        if j != c { assert(d.contains(j)); }
        lemma_reach_lt(g.ops, r.0, j);
        assert(bwl(g, a, pp, w, r, (j, k)));
        assert(f.grad[(j, k)] == a.grad[(j, k)]);
    }
    assert forall|l: Loc| isloc(g, l) implies #[trigger] bwl(g, f, pp, w2, r, l) by {
        assert(bwl(g, a, pp, w, r, l));
        if at.contains(l) { assert(pp.contains(l.0)); }
        if pp.contains(l.0) {
            lemma_tsum_ext(g.ops, m, m2, d2, l, nn);
            lemma_tsum_add(g.ops, m, d, c, l, nn);
            assert(m[l] == a.grad[l].v()); assert(m2[l] == f.grad[l].v());
            lemma_hadd(m, at, gof(g.ops, m, c), n, l);
            assert(m[l].s == g.ops[l.0].rets[l.1]);
            lemma_tsum_s(g.ops, m, d, l, nn);
            lemma_assoc(seed(g.ops, r, l), tsum(g.ops, m, d, l, nn), contrib(g.ops, m, c, l));
            assert(f.grad[l].v() == dgrad(g.ops, m2, d2, r, l));
        }
    }
    assert forall|i: int| isop(g, i) implies #[trigger] bwa(g, f, pp, w2, i) by {
        assert(bwa(g, a, pp, w, i)); assert(opwf(a, i)); assert(opwf(g, i));
        if o_par(g.ops[i].o) { assert(isloc(g, (i, 0))); assert(bwl(g, a, pp, w, r, (i, 0))); assert(gradok(a, (i, 0))); if d2.contains(i) { assert(m[(i, 0)] == m2[(i, 0)]); assert(a.grad[(i, 0)].v() == m[(i, 0)]); assert(f.grad[(i, 0)].v() == m2[(i, 0)]); } }
        assert(opwf(f, i));
    }
    assert forall|x: int, v: int| pp.contains(x) && !w2.contains(x) && w2.contains(v) implies #[trigger] deeper(g.ops, x, v) by { if x != c { assert(deeper(g.ops, x, v)); } }
}
pub proof fn lemma_bwd_done(g: HV, f: HV, pp: Set<int>, w: Set<int>, r: Loc)
    requires hwf(g), isloc(g, r), isreach(g.ops, r.0, pp), bwd(g, f, pp, w, r), forall|i: int| !w.contains(i),
    ensures hwf(f), chain(g, f, r),
{
    let d = pp.difference(w);
    assert(d =~= rset(g.ops, r.0)) by { assert forall|i: int| d.contains(i) <==> rset(g.ops, r.0).contains(i) by { if pp.contains(i) { lemma_reach_lt(g.ops, r.0, i); } } }
    assert forall|i: int| 0 <= i < f.ops.len() implies #[trigger] opwf(f, i) by { assert(bwa(g, f, pp, w, i)); }
    assert forall|l: Loc| isloc(f, l) implies #[trigger] gradok(f, l) by { assert(bwl(g, f, pp, w, r, l)); }
    assert forall|l: Loc| isloc(f, l) implies #[trigger] valok(f, l) by { assert(valok(g, l)); }
    assert forall|i: int| isop(f, i) implies #[trigger] cntok(f, i) by { assert(cntok(g, i)); }
    assert forall|l: Loc| isloc(f, l) && reach(f.ops, r.0, l.0) implies (#[trigger] f.grad[l]).valid@ && f.grad[l].v() == dgrad(f.ops, gtv(f.grad), rset(f.ops, r.0), r, l) by { assert(bwl(g, f, pp, w, r, l)); assert(pp.contains(l.0)); }
    assert forall|l: Loc| isloc(f, l) && !reach(f.ops, r.0, l.0) implies #[trigger] f.grad[l] == g.grad[l] by { assert(bwl(g, f, pp, w, r, l)); assert(!pp.contains(l.0)); }
    assert forall|i: int| isop(f, i) && o_par(f.ops[i].o) implies #[trigger] f.acc[i] == (if reach(f.ops, r.0, i) { tv_add(g.acc[i], f.grad[(i, 0)].v()) } else { g.acc[i] }) by { assert(bwa(g, f, pp, w, i)); assert(pp.contains(i) <==> reach(f.ops, r.0, i)); }
}
// backpropagation evaluates what is needed first
pub open spec fn bwd_post(g: HV, f: HV, r: Loc) -> bool { exists|m: HV| #[trigger] fwd_post(g, m, r.0) && chain(m, f, r) }

// ---- creation
pub open spec fn ndata(ns: Seq<&GNode>) -> Seq<DataRef> { Seq::new(ns.len(), |k: int| ns[k].data) }
pub open spec fn noks(g: HV, ns: Seq<&GNode>) -> bool { forall|k: int| 0 <= k < ns.len() ==> nok(g, *(#[trigger] ns[k])) }
pub open spec fn nshapes(g: HV, ns: Seq<&GNode>) -> Seq<SV> { arg_shapes(g.ops, ndata(ns)) }
pub open spec fn nvals(g: HV, ns: Seq<&GNode>) -> Seq<TV> { arg_evs(g.ops, ndata(ns)) }
pub open spec fn retok(x: NodeData, s: SV) -> bool { x.value.wf() && !x.value.valid@ && x.value.shape.s() == s && x.gradient.wf() && !x.gradient.valid@ && x.gradient.shape.s() == s }
pub open spec fn oi_post(g: HV, x: OInfo, o: OBox, ns: Seq<&GNode>) -> bool {
    &&& x.operator == o && x.args@ == ndata(ns) && !x.forwarded
    &&& x.rets@.len() == o_shapes(o, nshapes(g, ns)).len()
    &&& forall|k: int| 0 <= k < x.rets@.len() ==> retok(#[trigger] x.rets@[k], o_shapes(o, nshapes(g, ns))[k])
    &&& forall|k: int| 0 <= k < ns.len() ==> g.ops[(#[trigger] ns[k]).data.op as int].depth < x.depth
    &&& x.depth <= hn(g) + 1
}
// a graph with one more operation, not evaluated; everything else is as it was
pub open spec fn create_post(g: HV, f: HV, o: OBox, ns: Seq<&GNode>, r: Seq<GNode>) -> bool {
    &&& hwf(f) && hn(f) == hn(g) + 1 && f.ops.drop_last() == g.ops
    &&& r.len() == o_eval(o, nvals(g, ns)).len()
    &&& forall|k: int| 0 <= k < r.len() ==> nok(f, #[trigger] r[k]) && nval(f, r[k]) == o_eval(o, nvals(g, ns))[k] && nshape(f, r[k]) == o_shapes(o, nshapes(g, ns))[k] && r[k].data.op == hn(g) && !f.grad[al(r[k].data)].valid@
    &&& f.fwd =~= g.fwd
    &&& forall|l: Loc| isloc(g, l) ==> #[trigger] f.val[l] == g.val[l] && f.grad[l] == g.grad[l]
    &&& forall|i: int| isop(g, i) ==> #[trigger] f.acc[i] == g.acc[i] && f.cnt[i] == g.cnt[i]
}
pub proof fn lemma_create(g: HV, f: HV, o: OBox, ns: Seq<&GNode>)
    requires hwf(g), noks(g, ns), o_arity(o, ns.len() as int), o_valid(o, nshapes(g, ns)), exists|x: OInfo| #[trigger] alloc_post(g, f, x) && oi_post(g, x, o, ns),
    ensures hwf(f), f.ops.drop_last() == g.ops, f.fwd =~= g.fwd, f.ops[hn(g)].rets =~= o_shapes(o, nshapes(g, ns)), f.ops[hn(g)].ev == o_eval(o, nvals(g, ns)), o_eval(o, nvals(g, ns)).len() == o_shapes(o, nshapes(g, ns)).len(),
        forall|k: int| 0 <= k < o_shapes(o, nshapes(g, ns)).len() ==> isloc(f, #[trigger] pair(hn(g), k)) && !f.grad[pair(hn(g), k)].valid@,
        forall|l: Loc| isloc(g, l) ==> #[trigger] f.val[l] == g.val[l] && f.grad[l] == g.grad[l],
{
    let n = hn(g); let ss = nshapes(g, ns); let vs = nvals(g, ns);
    let x = choose|x: OInfo| #[trigger] alloc_post(g, f, x) && oi_post(g, x, o, ns);
    assert(f.ops.drop_last() =~= g.ops);
    assert forall|k: int| 0 <= k < ns.len() implies tvwf(#[trigger] vs[k]) && vs[k].s == ss[k] && argok(f.ops, n, ns[k].data, x.depth as int) by { assert(nok(g, *ns[k])); assert(opwf(g, ns[k].data.op as int)); }
    assert(svs(vs) =~= ss);
    assert forall|k: int| 0 <= k < o_shapes(o, ss).len() implies svwf(#[trigger] o_shapes(o, ss)[k]) by { assert(retok(x.rets@[k], o_shapes(o, ss)[k])); }
    o_eval_shape(o, vs);
    assert(f.ops[n].rets =~= o_shapes(o, ss)) by { assert forall|k: int| 0 <= k < x.rets@.len() implies x.rets@[k].value.shape.s() == o_shapes(o, ss)[k] by { assert(retok(x.rets@[k], o_shapes(o, ss)[k])); } }
    assert forall|i: int| 0 <= i < f.ops.len() implies #[trigger] opwf(f, i) by {
        if i < n {
            assert(opwf(g, i));
            assert forall|p: int| 0 <= p < f.ops[i].args.len() implies argok(f.ops, i, #[trigger] f.ops[i].args[p], f.ops[i].depth) by { assert(argok(g.ops, i, g.ops[i].args[p], g.ops[i].depth)); }
            assert(arg_shapes(f.ops, f.ops[i].args) =~= arg_shapes(g.ops, g.ops[i].args));
            assert(arg_evs(f.ops, f.ops[i].args) =~= arg_evs(g.ops, g.ops[i].args));
        } else {
            assert forall|p: int| 0 <= p < f.ops[i].args.len() implies argok(f.ops, i, #[trigger] f.ops[i].args[p], f.ops[i].depth) by { assert(argok(f.ops, n, ns[p].data, x.depth as int)); }
            assert(arg_shapes(f.ops, f.ops[i].args) =~= ss) by { assert forall|p: int| 0 <= p < ns.len() implies f.ops[ns[p].data.op as int] == g.ops[ns[p].data.op as int] by { assert(nok(g, *ns[p])); } }
            assert(arg_evs(f.ops, f.ops[i].args) =~= vs);
        }
    }
    assert forall|l: Loc| isloc(f, l) implies #[trigger] gradok(f, l) && valok(f, l) by {
        if l.0 == n { let k = l.1; assert(f.val[(n, k)] == x.rets@[k].value); assert(retok(x.rets@[k], o_shapes(o, ss)[k])); } else { assert(isloc(g, l)); assert(gradok(g, l)); assert(valok(g, l)); assert(f.val[l] == g.val[l]); assert(f.grad[l] == g.grad[l]); }
    }
    assert forall|l: Loc| isloc(f, l) implies #[trigger] valok(f, l) by { assert(gradok(f, l)); }
    assert forall|i: int| #[trigger] f.fwd.contains(i) implies isop(f, i) by { assert(g.fwd.contains(i)); }
    assert forall|i: int| isop(f, i) implies #[trigger] cntok(f, i) by { if i < n { assert(cntok(g, i)); } }
    assert forall|k: int| 0 <= k < x.rets@.len() implies isloc(f, #[trigger] pair(n, k)) && !f.grad[pair(n, k)].valid@ by { assert(f.val[(n, k)] == x.rets@[k].value); assert(retok(x.rets@[k], o_shapes(o, ss)[k])); }
}
pub open spec fn pair(a: int, b: int) -> Loc { (a, b) }
}
