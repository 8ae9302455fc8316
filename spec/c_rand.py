"""The default random source: every element of the slice is a sample of the distribution."""
from tables import F, L
U = "rand"
L("thread_rng", ret="Rng", path="rand::thread_rng")
for n, params, valid, el in (
        ("Bernoulli", ["p"], "0.0real <= p.v() <= 1.0real", "(E == 0.0real || E == 1.0real) && (p.v() == 1.0real ==> E == 1.0real) && (p.v() == 0.0real ==> E == 0.0real)"),
        ("Uniform", ["lower", "upper"], "lower.v() < upper.v()", "lower.v() <= E && E <= upper.v()"),
        ("Normal", ["mean", "sd"], "0.0real <= sd.v()", "normal_value(mean.v(), sd.v(), E)"),
        ("LogNormal", ["mean", "sd"], "0.0real <= sd.v()", "log_normal_value(mean.v(), sd.v(), E)")):
    L("D%s_new" % n, ret="D" + n, path=n + "::new", ok=True)
    L("D%s_sample" % n, ret="bool" if n == "Bernoulli" else "f32", method="D%s.sample" % n)
    if n != "Uniform":
        L("D%s_unwrap" % n, ret="D" + n, method="D%s.unwrap" % n)
    f = {"LogNormal": "log_normal"}.get(n, n.lower())
    al = "forall|i: int| 0 <= i < %s ==> " + el.replace("E", "(#[trigger] %s[i]).v()", 1).replace("E", "%s[i].v()")
    def forall(hi, s):
        return al.replace("%s", hi, 1).replace("%s", s)
    F("random::<DefaultRandomizer as Randomizer>::fill_%s" % f, "R_" + f, ["-"] + params + ["data"], ["C16"], U, valid=valid,
      ens="final(data)@.len() == old(data)@.len(), " + forall("old(data)@.len()", "final(data)@"),
      inv={0: "data@.len() == old(data)@.len(), en0 == data@.len(), " + forall("it0", "data@")})
