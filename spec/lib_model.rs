// Models: which parameters they list. A parameter is its identity here.
verus! {
// what was done, to which parameter, in order
pub enum Did { Move(usize), Configure, Update }
#[verifier::external_body]
pub struct Log { x: usize }
impl Log { pub uninterp spec fn v(&self) -> Seq<(Did, usize)>; }
pub open spec fn all_did(x: Did, ids: Seq<usize>) -> Seq<(Did, usize)> { Seq::new(ids.len(), |i: int| (x, ids[i])) }
#[verifier::external_body]
pub fn tok_move(m: &mut Log, p: usize, d: usize)
    ensures final(m).v() == old(m).v().push((Did::Move(d), p)),
{ unimplemented!() }
// any model there is: what derive(Model), Vec<_> and hand-written implementations have to do
#[verifier::external_body]
pub struct M { x: usize }
impl M { pub uninterp spec fn ids(&self) -> Seq<usize>; }
#[verifier::external_body]
pub fn M_parameters(s: &M) -> (r: Vec<usize>) ensures r@ == s.ids(), { unimplemented!() }
#[verifier::external_body]
pub fn M_parameters_mut(s: &mut M) -> (r: Vec<usize>) ensures r@ == old(s).ids(), *final(s) == *old(s), { unimplemented!() }
pub open spec fn flat(s: Seq<M>, k: int) -> Seq<usize> decreases k { if k <= 0 { Seq::empty() } else { flat(s, k - 1) + s[k - 1].ids() } }
#[verifier::external_body]
pub struct MOpt { x: usize }
// configure_parameters and update_parameters treat every element of the list (C12)
#[verifier::external_body]
pub fn tok_configure(m: &mut Log, o: &MOpt, ps: &Vec<usize>)
    ensures final(m).v() == old(m).v() + all_did(Did::Configure, ps@),
{ unimplemented!() }
#[verifier::external_body]
pub fn tok_update(m: &mut Log, o: &MOpt, ps: &Vec<usize>)
    ensures final(m).v() == old(m).v() + all_did(Did::Update, ps@),
{ unimplemented!() }
pub proof fn lemma_all_did(x: Did, ids: Seq<usize>, k: int)
    requires 0 <= k < ids.len(),
    ensures all_did(x, ids.take(k + 1)) =~= all_did(x, ids.take(k)).push((x, ids[k])),
{}
pub proof fn lemma_all_did_app(x: Did, a: Seq<usize>, ids: Seq<usize>, k: int)
    requires 0 <= k < ids.len(),
    ensures all_did(x, a + ids.take(k + 1)) =~= all_did(x, a + ids.take(k)).push((x, ids[k])),
{}
}
// derive(Model): what the macro is given, as far as it looks at it. Identifiers are numbers.
verus! {
pub struct QPath { pub one: Option<u64> }   // the identifier, where the path is a single one
impl QPath {
    pub fn is_ident(&self, x: u64) -> (r: bool) ensures r == (self.one == Some(x)), { match self.one { Some(y) => x == y, None => false } }
}
pub struct QList { pub path: QPath, pub nested: Vec<QNestedMeta> }
pub enum QMeta { Path(QPath), List(QList), NameValue(u64) }
pub enum QNestedMeta { Meta(QMeta), Lit(u64) }
pub struct QAttribute { pub path: QPath, pub meta: Result<QMeta, ()> }
impl QAttribute {
    pub fn parse_meta(&self) -> (r: Result<&QMeta, ()>)
        ensures (match self.meta { Ok(m) => r == Ok::<&QMeta, ()>(&m), Err(_) => r is Err }),
    { match &self.meta { Ok(m) => Ok(m), Err(_) => Err(()) } }
}
pub struct QField { pub attrs: Vec<QAttribute>, pub ident: Option<u64> }
pub struct QFieldsNamed { pub named: Vec<QField> }
pub enum QFields { Named(QFieldsNamed), Unnamed(u64), Unit }
pub struct QDataStruct { pub fields: QFields }
pub enum QData { Struct(QDataStruct), Enum(u64), Union(u64) }
pub struct QTypeParam { pub ident: u64 }
pub struct QLifetimeDef { pub lifetime: u64 }
pub struct QConstParam { pub ident: u64 }
pub enum QGenericParam { Type(QTypeParam), Lifetime(QLifetimeDef), Const(QConstParam) }
pub struct QGenerics { pub params: Vec<QGenericParam>, pub where_clause: u64 }
pub struct QDeriveInput { pub ident: u64, pub generics: QGenerics, pub data: QData }
// a panic in the macro is a compile error for whoever uses it: not for the structs that are supported
#[verifier::external_body]
pub fn q_panic() -> (r: Vec<u64>) requires false, { unimplemented!() }

pub open spec fn q_fields(d: QDeriveInput) -> Seq<QField> {
    match d.data { QData::Struct(s) => match s.fields { QFields::Named(f) => f.named@, _ => Seq::empty() }, _ => Seq::empty() }
}
pub open spec fn q_lifetimes(s: Seq<QGenericParam>, k: int) -> nat decreases k {
    if k <= 0 { 0 } else { q_lifetimes(s, k - 1) + if s[k - 1] is Lifetime { 1nat } else { 0 } }
}
// supported: a struct with named fields, generic over a device lifetime at least
pub open spec fn q_ok(d: QDeriveInput) -> bool {
    &&& d.data matches QData::Struct(s) && s.fields is Named
    &&& forall|k: int| 0 <= k < q_fields(d).len() ==> (#[trigger] q_fields(d)[k]).ident is Some
    &&& q_lifetimes(d.generics.params@, d.generics.params@.len() as int) >= 1
}
// #[parameter(skip)]
pub open spec fn q_is(p: QPath, x: u64) -> bool { p.one == Some(x) }
pub open spec fn q_nskip(n: QNestedMeta) -> bool { n matches QNestedMeta::Meta(QMeta::Path(p)) && q_is(p, 0x3f1a3b18de6ae902u64) }
pub open spec fn q_any_n(s: Seq<QNestedMeta>, k: int) -> bool decreases k { k > 0 && (q_any_n(s, k - 1) || q_nskip(s[k - 1])) }
pub open spec fn q_askip(a: QAttribute) -> bool { a.meta matches Ok(QMeta::List(l)) && q_is(l.path, 0x12eb5367030ed5f0u64) && q_any_n(l.nested@, l.nested@.len() as int) }
pub open spec fn q_any_a(s: Seq<QAttribute>, k: int) -> bool decreases k { k > 0 && (q_any_a(s, k - 1) || q_askip(s[k - 1])) }
pub open spec fn q_skip(f: QField) -> bool { q_any_a(f.attrs@, f.attrs@.len() as int) }
// the fields whose parameters are listed, in the order they are declared
pub open spec fn q_kept(s: Seq<QField>, k: int) -> Seq<u64> decreases k {
    if k <= 0 { Seq::empty() } else if q_skip(s[k - 1]) { q_kept(s, k - 1) } else { q_kept(s, k - 1).push(s[k - 1].ident->Some_0) }
}
pub proof fn lemma_q_any_n(s: Seq<QNestedMeta>, j: int, k: int)
    requires 0 < j <= k, q_nskip(s[j - 1]),
    ensures q_any_n(s, k),
    decreases k,
{ if j < k { lemma_q_any_n(s, j, k - 1); } }
pub proof fn lemma_q_any_a(s: Seq<QAttribute>, j: int, k: int)
    requires 0 < j <= k, q_askip(s[j - 1]),
    ensures q_any_a(s, k),
    decreases k,
{ if j < k { lemma_q_any_a(s, j, k - 1); } }
pub open spec fn q_then_n(s: Seq<QNestedMeta>, j: int) -> bool { q_nskip(s[j - 1]) ==> q_any_n(s, s.len() as int) }
pub proof fn lemma_q_nested(s: Seq<QNestedMeta>, j: int)
    requires 0 < j <= s.len(),
    ensures q_nskip(s[j - 1]) ==> q_any_n(s, s.len() as int),
{ if q_nskip(s[j - 1]) { lemma_q_any_n(s, j, s.len() as int); } }
pub proof fn lemma_q_attrs(s: Seq<QAttribute>, j: int)
    requires 0 < j <= s.len(),
    ensures q_askip(s[j - 1]) ==> q_any_a(s, s.len() as int),
{ if q_askip(s[j - 1]) { lemma_q_any_a(s, j, s.len() as int); } }

// a value of a struct the macro is used on: its fields are models
#[verifier::external_body]
pub struct QObj { x: usize }
impl QObj { pub uninterp spec fn f(&self, x: u64) -> Seq<usize>; }   // the parameters field x lists
#[verifier::external_body]
pub fn obj_parameters(s: &QObj, x: u64) -> (r: Vec<usize>) ensures r@ == s.f(x), { unimplemented!() }
#[verifier::external_body]
pub fn obj_parameters_mut(s: &mut QObj, x: u64) -> (r: Vec<usize>) ensures r@ == old(s).f(x), *final(s) == *old(s), { unimplemented!() }
pub open spec fn q_flat(s: QObj, ups: Seq<u64>, k: int) -> Seq<usize> decreases k { if k <= 0 { Seq::empty() } else { q_flat(s, ups, k - 1) + s.f(ups[k - 1]) } }
}
