"""Functions and operators on graph nodes: the same contracts as on tensors, over the value a node stands for."""
import re
from tables import F, L, FNS
import c_tensor, c_contrib, c_op, c_sort
U = "node"
L("Node_inner_value", ret="Tensor", method="Node.inner_value")
L("Node_forward", ret="", method="Node.forward")
GEN = []       # text of the trusted node-creation contracts, derived from the contracts of the operators

def shp(t, i):
    return t
for name, o in c_op.OPS.items():
    def over(t, how):
        return re.sub(r"\b([sx])(\d)\b", lambda m: how[m.group(1)] % int(m.group(2)), t)
    how = {"s": "ns@[%d].shape.s()", "x": "ns@[%d].v()"}
    GEN.append("""#[verifier::external_body]
pub fn Node_create_%s(o: O_%s, ns: &[&Node], Ghost(ok): Ghost<bool>) -> (r: Vec<Node>)
    requires ns@.len() == %d, nodes_wf(ns@), %sok ==> (%s),
    ensures %s, r@.len() == 1, r@[0].wf(), r@[0].v() == %s,
{ unimplemented!() }""" % (name, name, o["n"], o["kreq"] + ", " if o["kreq"] else "", over(o["valid"], how), over(o["valid"], how), over(o["V"], how)))
    L("Node_create_" + name, ret="Vec<Node>", path="Node::create#O_" + name, ok=True)
for name, req, valid, ens in (
        ("Concat", "ns@.len() >= 1", "valid_concat(svs(ntvs(ns@)), o.dim as int)", "r@.len() == 1, r@[0].wf(), r@[0].v() == V_concat(ntvs(ns@), o.dim as int)"),
        ("BatchConcat", "ns@.len() >= 1", "valid_bconcat(svs(ntvs(ns@)))", "r@.len() == 1, r@[0].wf(), r@[0].v() == V_bconcat(ntvs(ns@))"),
        ("Split", "ns@.len() == 1", "o.n >= 1 && dm(ns@[0].shape.s(), o.dim as int) % (o.n as int) == 0 && o.dim < 8",
         "r@.len() == o.n, forall|i: int| 0 <= i < o.n ==> (#[trigger] r@[i]).wf() && r@[i].v() == V_slice(ns@[0].v(), o.dim as int, i * (dm(ns@[0].shape.s(), o.dim as int) / (o.n as int)), (i + 1) * (dm(ns@[0].shape.s(), o.dim as int) / (o.n as int)))"),
        ("BatchSplit", "ns@.len() == 1", "o.n >= 1 && ns@[0].shape.s().b % (o.n as int) == 0",
         "r@.len() == o.n, forall|i: int| 0 <= i < o.n ==> (#[trigger] r@[i]).wf() && r@[i].v() == V_bslice(ns@[0].v(), i * (ns@[0].shape.s().b / (o.n as int)), (i + 1) * (ns@[0].shape.s().b / (o.n as int)))")):
    GEN.append("""#[verifier::external_body]
pub fn Node_create_%s(o: O_%s, ns: &[&Node], Ghost(ok): Ghost<bool>) -> (r: Vec<Node>)
    requires %s, nodes_wf(ns@), ok ==> (%s),
    ensures %s, %s,
{ unimplemented!() }""" % (name, name, req, valid, valid, ens))
    L("Node_create_" + name, ret="Vec<Node>", path="Node::create#O_" + name, ok=True)

for name in ("Input", "InputOwner", "Parameter"):
    GEN.append("""#[verifier::external_body]
pub fn Node_create_%s(o: O_%s, ns: &[&Node], Ghost(ok): Ghost<bool>) -> (r: Vec<Node>)
    requires ns@.len() == 0, o.value.full()%s,
    ensures r@.len() == 1, r@[0].wf(), r@[0].shape == o.value.shape, r@[0].v() == o.value.v(),
{ unimplemented!() }""" % (name, name, ", o.gradient.full(), o.gradient.shape.s() == o.value.shape.s()" if name == "Parameter" else ""))
    L("Node_create_" + name, ret="Vec<Node>", path="Node::create#O_" + name, ok=True)
# ---- the contracts themselves
TR = [("functions::arithmetic::tensor::", "functions::arithmetic::node::"), ("functions::basic::tensor::<Tensor as", "functions::basic::node::<Node as"),
      ("functions::contrib::tensor::<Tensor as", "functions::contrib::node::<Node as")]
def conv(t):
    for w in ("(forall|i: int| 0 <= i < xs@.len() ==> (#[trigger] xs@[i]).valid@)",):
        t = t.replace(w + " && ", "").replace(w, "true")
    t = re.sub(r"\b\w+\.valid@( && )?", "", t)
    t = re.sub(r" && (?=\)|$|,)", "", t).replace(".full()", ".wf()").replace("r.buf@", "r.v().d")
    t = re.sub(r"\b(x|a|b|k|t|g)\.buf@", r"\1.v().d", t)
    return t.replace("tvs(xs@)", "ntvs(xs@)")
def conv_valid(t):
    if t is None: return None
    t = conv(t).strip()
    t = t.replace("(forall|i: int| 0 <= i < xs@.len() ==> ())", "true").replace("(forall|i: int| 0 <= i < xs@.len() ==> (#[trigger] xs@[i]))", "true")
    return t or "true"
SKIP = {"Tensor_update_shape", "t_mul_assign"}
OWN = {"ln_softmax": None}
for n, e in list(FNS.items()):
    k = e["key"] or ""
    if n in SKIP or not any(k.startswith(a) for a, _ in TR):
        continue
    if k.endswith("_assign"):
        continue
    for a, b in TR:
        k = k.replace(a, b)
    k = k.replace("Tensor", "Node")
    nn = "n_" + n.split("_", 1)[1] if not n.startswith("c_") else "nc_" + n[2:]
    sub = lambda t: t and t.replace("Tensor", "Node")
    keep_start = n in ("t_ln_softmax", "t_softmax", "t_flatten") or n.startswith("c_")
    props = ["C10", "C18", "C02"] if n.startswith("c_") else ["C10", "C02"]
    inv, body, end = {}, {}, ""
    if n == "t_softmax_cross_entropy":
        # the operator takes a target of the same shape only
        e = dict(e, valid="dim < 8 && valid_ew(x.shape.s(), t.shape.s())")
    if n == "c_slice_sum":
        inv = {0: conv(e["inv"][0].replace("forall|i: int| 0 <= i < it0 ==> (#[trigger] xs@[i]).valid@, ", "").replace("$tensor0", "$other0"))} if e["inv"] else {}
        body = {i: conv(t.replace("$tensor0", "$other0")) for i, t in e["body"].items()}
        end = e["end"] and conv(e["end"])
    F(k, nn, e["params"], props, U, req=conv(e["req"]), valid=conv_valid(e["valid"]), ens=conv(e["ens"]), ret=sub(e["ret"]), recv=e["recv"],
      method=sub(e["method"]), path=sub(e["path"]), ops=[sub(o) for o in e["ops"]] if e["ops"] else None, start=e["start"] if keep_start else "", inv=inv, body=body, end=end)

# ---- constants and parameters as nodes
for a, b, st in (("input::Input", "Input", "O_Input"), ("input::InputOwner", "InputOwner", "O_InputOwner"), ("parameter::Parameter", "ParamOp", "O_Parameter")):
    par = b == "ParamOp"
    F("operators::%s::new" % a, b + "_new", ["v"], ["C10"] + (["C12"] if par else []), U, ret=st, path="op::%s::new" % a.split("::")[1],
      ens="r.value == old(v).value, r.gradient == old(v).gradient" if par else "r.value == v")
FR = "r.wf(), r.shape == %s.shape, r.v() == %s.v()"
F("graph::<Node as From<&Tensor>>::from", "Node_from_ref", ["t"], ["C10"], U, ret="Node", req="t.full()", ens=FR % ("t", "t"))
F("graph::<Node as From<Tensor>>::from", "Node_from_own", ["t"], ["C10"], U, ret="Node", path="Node::from#Tensor", req="t.full()", ens=FR % ("t", "t"))
F("graph::<Node as From<&mutParameter>>::from", "Node_from_param", ["t"], ["C10"], U, ret="Node",
  req="old(t).value.full(), old(t).gradient.full(), old(t).gradient.shape.s() == old(t).value.shape.s()", ens=FR % ("old(t).value", "old(t).value"))
