// Prelude of every generated unit: the value model and the helpers that the
// extraction emits.  Everything marked external_body here is trusted and listed
// in the evidence.
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::{Add, Sub, Mul, Div};
verus! {
global size_of usize == 8;

// ------------------------------------------------------------------ reals
// f32/f64 values are read as exact reals.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct R { x: f64 }
impl R { pub uninterp spec fn v(self) -> real; }

pub uninterp spec fn e_exp(x: real) -> real;
pub uninterp spec fn e_ln(x: real) -> real;
pub uninterp spec fn e_sqrt(x: real) -> real;
pub uninterp spec fn e_sin(x: real) -> real;
pub uninterp spec fn e_cos(x: real) -> real;
pub uninterp spec fn e_tan(x: real) -> real;
pub uninterp spec fn e_tanh(x: real) -> real;
pub uninterp spec fn e_pow(x: real, y: real) -> real;
pub open spec fn e_powi(x: real, n: int) -> real
    decreases if n < 0 { -n } else { n }
{
    if n == 0 { 1.0 } else if n > 0 { e_powi(x, n - 1) * x } else { e_powi(x, n + 1) / x }
}
pub open spec fn e_abs(x: real) -> real { if x < 0.0 { -x } else { x } }
pub open spec fn e_max(x: real, y: real) -> real { if x > y { x } else { y } }
pub open spec fn e_min(x: real, y: real) -> real { if x < y { x } else { y } }
pub open spec fn e_signum(x: real) -> real { if x < 0.0 { -1.0real } else { 1.0real } }

#[verifier::external_body]
pub fn rl(Ghost(x): Ghost<real>) -> (r: R) ensures r.v() == x { R { x: 0.0 } }
#[verifier::external_body]
pub fn r_neg(a: R) -> (r: R) ensures r.v() == -a.v() { R { x: -a.x } }
#[verifier::external_body]
pub fn r_exp(a: R) -> (r: R) ensures r.v() == e_exp(a.v()) { R { x: a.x.exp() } }
#[verifier::external_body]
pub fn r_exp_m1(a: R) -> (r: R) ensures r.v() == e_exp(a.v()) - 1.0 { R { x: a.x.exp() } }
#[verifier::external_body]
pub fn r_ln(a: R) -> (r: R) ensures r.v() == e_ln(a.v()) { R { x: a.x.ln() } }
#[verifier::external_body]
pub fn r_ln_1p(a: R) -> (r: R) ensures r.v() == e_ln(1.0real + a.v()) { R { x: a.x.ln() } }
#[verifier::external_body]
pub fn r_sqrt(a: R) -> (r: R) ensures r.v() == e_sqrt(a.v()) { R { x: a.x.sqrt() } }
#[verifier::external_body]
pub fn r_sin(a: R) -> (r: R) ensures r.v() == e_sin(a.v()) { R { x: a.x.sin() } }
#[verifier::external_body]
pub fn r_cos(a: R) -> (r: R) ensures r.v() == e_cos(a.v()) { R { x: a.x.cos() } }
#[verifier::external_body]
pub fn r_tan(a: R) -> (r: R) ensures r.v() == e_tan(a.v()) { R { x: a.x.tan() } }
#[verifier::external_body]
pub fn r_tanh(a: R) -> (r: R) ensures r.v() == e_tanh(a.v()) { R { x: a.x.tanh() } }
#[verifier::external_body]
pub fn r_abs(a: R) -> (r: R) ensures r.v() == e_abs(a.v()) { R { x: a.x.abs() } }
#[verifier::external_body]
pub fn r_signum(a: R) -> (r: R) ensures r.v() == e_signum(a.v()) { R { x: a.x.abs() } }
#[verifier::external_body]
pub fn r_recip(a: R) -> (r: R) ensures r.v() == 1.0real / a.v() { R { x: a.x } }
#[verifier::external_body]
pub fn r_powf(a: R, b: R) -> (r: R) ensures r.v() == e_pow(a.v(), b.v()) { R { x: a.x } }
#[verifier::external_body]
pub fn r_powi(a: R, n: i32) -> (r: R) ensures r.v() == e_powi(a.v(), n as int) { R { x: a.x } }
#[verifier::external_body]
pub fn r_max(a: R, b: R) -> (r: R) ensures r.v() == e_max(a.v(), b.v()) { R { x: a.x } }
#[verifier::external_body]
pub fn r_min(a: R, b: R) -> (r: R) ensures r.v() == e_min(a.v(), b.v()) { R { x: a.x } }
#[verifier::external_body]
pub fn r_mul_add(a: R, b: R, c: R) -> (r: R) ensures r.v() == a.v() * b.v() + c.v() { R { x: a.x } }

pub trait ToR: Sized {
    spec fn rv(self) -> real;
    fn tor(self) -> (r: R) ensures r.v() == self.rv();
}
impl ToR for u32 {
    open spec fn rv(self) -> real { self as real }
    #[verifier::external_body] fn tor(self) -> (r: R) { R { x: self as f64 } }
}
impl ToR for usize {
    open spec fn rv(self) -> real { self as real }
    #[verifier::external_body] fn tor(self) -> (r: R) { R { x: self as f64 } }
}
impl ToR for i32 {
    open spec fn rv(self) -> real { self as real }
    #[verifier::external_body] fn tor(self) -> (r: R) { R { x: self as f64 } }
}
pub fn to_r<T: ToR>(x: T) -> (r: R) ensures r.v() == x.rv() { x.tor() }

impl Add<R> for R { type Output = R;
    #[verifier::external_body]
    fn add(self, o: R) -> (r: R) ensures r.v() == self.v() + o.v() { R { x: self.x + o.x } } }
impl AddSpecImpl<R> for R {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: R) -> bool { true }
    open spec fn add_spec(self, rhs: R) -> R { arbitrary() } }
impl Sub<R> for R { type Output = R;
    #[verifier::external_body]
    fn sub(self, o: R) -> (r: R) ensures r.v() == self.v() - o.v() { R { x: self.x - o.x } } }
impl SubSpecImpl<R> for R {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: R) -> bool { true }
    open spec fn sub_spec(self, rhs: R) -> R { arbitrary() } }
impl Mul<R> for R { type Output = R;
    #[verifier::external_body]
    fn mul(self, o: R) -> (r: R) ensures r.v() == self.v() * o.v() { R { x: self.x * o.x } } }
impl MulSpecImpl<R> for R {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: R) -> bool { true }
    open spec fn mul_spec(self, rhs: R) -> R { arbitrary() } }
impl Div<R> for R { type Output = R;
    #[verifier::external_body]
    fn div(self, o: R) -> (r: R) ensures r.v() == self.v() / o.v() { R { x: self.x / o.x } } }
impl DivSpecImpl<R> for R {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: R) -> bool { true }
    open spec fn div_spec(self, rhs: R) -> R { arbitrary() } }
impl PartialEqSpecImpl for R {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &R) -> bool { self.v() == other.v() } }
impl PartialEq for R {
    #[verifier::external_body]
    fn eq(&self, o: &R) -> (b: bool) { self.x == o.x } }
impl PartialOrdSpecImpl for R {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &R) -> Option<core::cmp::Ordering> {
        Some(if self.v() < o.v() { core::cmp::Ordering::Less }
             else if self.v() == o.v() { core::cmp::Ordering::Equal }
             else { core::cmp::Ordering::Greater }) } }
impl PartialOrd for R {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &R) -> (r: Option<core::cmp::Ordering>) { self.x.partial_cmp(&o.x) } }

// ---------------------------------------------------- helpers of the extraction
// assert!(c): panics unless c.  `ok` is the caller's claim that it will not panic.
#[verifier::external_body]
pub fn chk(c: bool, Ghost(ok): Ghost<bool>)
    requires ok ==> c,
    ensures c,
{ assert!(c); }
#[verifier::external_body]
pub fn opt_unwrap<T>(o: Option<T>, Ghost(ok): Ghost<bool>) -> (r: T)
    requires ok ==> o.is_some(),
    ensures o == Some(r),
{ o.unwrap() }
// u32 arithmetic that may overflow in a rejecting function: overflow panics
// (as built by cargo test / cargo build; a release build wraps, see DESIGN.md).
#[verifier::external_body]
pub fn chk_add_u32(a: u32, b: u32, Ghost(ok): Ghost<bool>) -> (r: u32)
    requires ok ==> a + b <= u32::MAX,
    ensures a + b <= u32::MAX, r == a + b { a + b }
#[verifier::external_body]
pub fn chk_sub_u32(a: u32, b: u32, Ghost(ok): Ghost<bool>) -> (r: u32)
    requires ok ==> a >= b,
    ensures a >= b, r == a - b { a - b }
#[verifier::external_body]
pub fn chk_mul_u32(a: u32, b: u32, Ghost(ok): Ghost<bool>) -> (r: u32)
    requires ok ==> a * b <= u32::MAX,
    ensures a * b <= u32::MAX, r == a * b { a * b }
#[verifier::external_body]
pub fn chk_div_u32(a: u32, b: u32, Ghost(ok): Ghost<bool>) -> (r: u32)
    requires ok ==> b != 0,
    ensures b != 0, r == a / b { a / b }
#[verifier::external_body]
pub fn saturating_add_u32(a: u32, b: u32) -> (r: u32)
    ensures r == if a + b <= u32::MAX { a + b } else { u32::MAX as int } { a.saturating_add(b) }
#[verifier::external_body]
pub fn saturating_sub_u32(a: u32, b: u32) -> (r: u32)
    ensures r == if a >= b { a - b } else { 0 } { a.saturating_sub(b) }
#[verifier::external_body]
pub fn saturating_add_usize(a: usize, b: usize) -> (r: usize)
    ensures r == if a + b <= usize::MAX { a + b } else { usize::MAX as int } { a.saturating_add(b) }
#[verifier::external_body]
pub fn saturating_sub_usize(a: usize, b: usize) -> (r: usize)
    ensures r == if a >= b { a - b } else { 0 } { a.saturating_sub(b) }
#[verifier::external_body]
pub fn i32_as_u32(a: i32) -> (r: u32)
    ensures u32_as_i32_s(r) == a { a as u32 }
pub open spec fn u32_as_i32_s(a: u32) -> i32 { if a <= 0x7fff_ffff { a as i32 } else { (a - 0x1_0000_0000) as i32 } }
#[verifier::external_body]
pub fn u32_as_i32(a: u32) -> (r: i32)
    ensures r == u32_as_i32_s(a) { a as i32 }

#[verifier::external_body]
pub fn vec_of<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x { vec![x; n] }
#[verifier::external_body]
pub fn vec_copy_from<T: Copy>(d: &mut Vec<T>, start: usize, s: &[T], Ghost(ok): Ghost<bool>)
    requires ok ==> start + s@.len() == old(d)@.len(),
    ensures start + s@.len() == old(d)@.len(), final(d)@ =~= old(d)@.subrange(0, start as int) + s@, final(d)@.skip(start as int) =~= s@
{ d[start..].copy_from_slice(s) }
#[verifier::external_body]
pub fn sl_from<T>(s: &[T], a: usize) -> (r: &[T])
    requires a <= s@.len(),
    ensures r@ == s@.subrange(a as int, s@.len() as int) { &s[a..] }
#[verifier::external_body]
pub fn sl_to<T>(s: &[T], b: usize) -> (r: &[T])
    requires b <= s@.len(),
    ensures r@ == s@.subrange(0, b as int) { &s[..b] }
#[verifier::external_body]
pub fn sl_range<T>(s: &[T], a: usize, b: usize) -> (r: &[T])
    requires a <= b <= s@.len(),
    ensures r@ == s@.subrange(a as int, b as int) { &s[a..b] }
pub fn sl_all<T>(s: &[T]) -> (r: &[T]) ensures r@ == s@ { s }
pub fn sl_eq(a: &[u32], b: &[u32]) -> (r: bool) ensures r == (a@ == b@)
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len() invariant i <= a.len(), a.len() == b.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j] decreases a.len() - i
    {
        if a[i] != b[i] { return false; }
        i = i + 1;
    }
    proof { assert(a@ =~= b@); }
    true
}
#[verifier::external_body]
pub fn vec_clone<T: Copy>(x: &[T]) -> (r: Vec<T>) ensures r@ == x@ { x.to_vec() }
}
