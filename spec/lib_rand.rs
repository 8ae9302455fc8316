verus! {
// ------------------------------------------------------------- samplers of rand and rand_distr (trusted)
pub struct Rng;
pub struct DBernoulli { pub p: R }
pub struct DUniform { pub lo: R, pub up: R }
pub struct DNormal { pub mean: R, pub sd: R }
pub struct DLogNormal { pub mean: R, pub sd: R }
pub uninterp spec fn log_normal_value(mean: real, sd: real, x: real) -> bool;
#[verifier::external_body]
pub fn thread_rng() -> (r: Rng)
{ unimplemented!() }
#[verifier::external_body]
pub fn DBernoulli_new(p: R, Ghost(ok): Ghost<bool>) -> (r: DBernoulli)
    requires ok ==> 0.0real <= p.v() <= 1.0real,
    ensures 0.0real <= p.v() <= 1.0real, r.p == p,
{ unimplemented!() }
#[verifier::external_body]
pub fn DBernoulli_sample(d: &DBernoulli, g: &mut Rng) -> (r: bool)
    ensures d.p.v() == 1.0real ==> r, d.p.v() == 0.0real ==> !r,
{ unimplemented!() }
#[verifier::external_body]
pub fn DUniform_new(lo: R, up: R, Ghost(ok): Ghost<bool>) -> (r: DUniform)
    requires ok ==> lo.v() < up.v(),
    ensures lo.v() < up.v(), r.lo == lo, r.up == up,
{ unimplemented!() }
#[verifier::external_body]
pub fn DUniform_sample(d: &DUniform, g: &mut Rng) -> (r: R)
    ensures d.lo.v() <= r.v() <= d.up.v(),
{ unimplemented!() }
#[verifier::external_body]
pub fn DNormal_new(mean: R, sd: R, Ghost(ok): Ghost<bool>) -> (r: DNormal)
    requires ok ==> 0.0real <= sd.v(),
    ensures 0.0real <= sd.v(), r.mean == mean, r.sd == sd,
{ unimplemented!() }
#[verifier::external_body]
pub fn DNormal_sample(d: &DNormal, g: &mut Rng) -> (r: R)
    ensures normal_value(d.mean.v(), d.sd.v(), r.v()),
{ unimplemented!() }
#[verifier::external_body]
pub fn DLogNormal_new(mean: R, sd: R, Ghost(ok): Ghost<bool>) -> (r: DLogNormal)
    requires ok ==> 0.0real <= sd.v(),
    ensures 0.0real <= sd.v(), r.mean == mean, r.sd == sd,
{ unimplemented!() }
#[verifier::external_body]
pub fn DLogNormal_sample(d: &DLogNormal, g: &mut Rng) -> (r: R)
    ensures log_normal_value(d.mean.v(), d.sd.v(), r.v()),
{ unimplemented!() }
// `new` returns a result: the contract of `new` is that of `new` and `unwrap` together
pub fn DBernoulli_unwrap(d: &DBernoulli) -> (r: DBernoulli)
    ensures r == *d,
{ DBernoulli { p: d.p } }
pub fn DNormal_unwrap(d: &DNormal) -> (r: DNormal)
    ensures r == *d,
{ DNormal { mean: d.mean, sd: d.sd } }
pub fn DLogNormal_unwrap(d: &DLogNormal) -> (r: DLogNormal)
    ensures r == *d,
{ DLogNormal { mean: d.mean, sd: d.sd } }
}
