verus! {
// ------------------------------------------------------------- graph nodes
// A node stands for a tensor value; computing it is put off until it is asked for. What Node::create
// returns for an operator is what the operator's own contracts (unit "op") say it computes, see unit "graph".
pub struct Node { pub shape: Shape, pub val: Ghost<TV> }
pub uninterp spec fn forwarded(n: Node) -> bool;
impl Node {
    pub open spec fn v(&self) -> TV { self.val@ }
    pub open spec fn wf(&self) -> bool { self.shape.wf() && self.val@.s == self.shape.s() && tvwf(self.val@) }
}
pub open spec fn nodes_wf(ns: Seq<&Node>) -> bool { forall|i: int| 0 <= i < ns.len() ==> (#[trigger] ns[i]).wf() }
pub open spec fn ntvs(xs: Seq<&Node>) -> Seq<TV> { Seq::new(xs.len(), |i: int| xs[i].v()) }
#[verifier::external_body]
pub fn Node_forward(n: &Node) ensures forwarded(*n) { unimplemented!() }
// the buffer of a node that has not been computed is not to be read
#[verifier::external_body]
pub fn Node_inner_value(n: &Node) -> (r: Tensor)
    requires n.wf(),
    ensures r.shape == n.shape, r.wf(), forwarded(*n) ==> r.full() && r.v() == n.v()
{ unimplemented!() }
// a reference kept in a structure stands for the tensor it points to
#[verifier::external_body]
pub fn held(t: &Tensor) -> (r: Tensor)
    ensures r == *t
{ unimplemented!() }
/*GEN*/
}
