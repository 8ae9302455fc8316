// Memory: buffers of the device, the pool that hands them out, tensors that own or refer to them.
verus! {
broadcast use vstd::std_specs::hash::group_hash_axioms;

// What DeviceImpl::new_handle has handed out and drop_handle has not taken back: address -> contents.
// (Box::into_raw / Box::from_raw of a Vec<f32>.)
#[verifier::external_body]
pub struct NHeap { x: usize }
impl NHeap { pub uninterp spec fn v(&self) -> Map<usize, Seq<real>>; }

pub open spec fn rseq(s: Seq<R>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].v()) }

// Box::into_raw: the vector lives on at an address of its own
#[verifier::external_body]
pub fn heap_into_raw(im: &mut NHeap, x: Vec<R>) -> (r: usize)
    ensures r != 0, !old(im).v().contains_key(r), final(im).v() == old(im).v().insert(r, rseq(x@)),
{ unimplemented!() }
// Box::from_raw: only for an address that is live; the box is then dropped
#[verifier::external_body]
pub fn heap_from_raw(im: &mut NHeap, a: usize) -> (r: Vec<R>)
    requires old(im).v().contains_key(a),
    ensures rseq(r@) == old(im).v()[a], final(im).v() == old(im).v().remove(a),
{ unimplemented!() }
#[verifier::external_body]
pub fn vec_from_elem(x: R, n: usize) -> (r: Vec<R>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x,
{ unimplemented!() }
pub fn map_get(m: &HashMap<usize, usize>, k: usize) -> (r: Option<usize>)
    ensures r == (if m@.contains_key(k) { Some(m@[k]) } else { None::<usize> }),
{ match m.get(&k) { Some(x) => Some(*x), None => None } }

pub proof fn lemma_add32(a: u32, b: u32)
    requires add(a, b) >= a,
    ensures a + b <= 0xffff_ffff,
{
    assert(add(a as u64, b as u64) <= 0xffff_ffffu64) by (bit_vector) requires add(a, b) >= a;
}

// ---- the pool
pub open spec fn pcap(s: usize) -> nat { (1u32 << (s as u32)) as nat }
impl Pool {
    pub open spec fn owned(&self) -> Set<usize> { self.mem_shift@.dom() }
    pub open spec fn heap(&self) -> Map<usize, Seq<real>> { self.imp.v() }
    pub open spec fn slot(&self, s: int, j: int) -> bool { 0 <= s < 32 && 0 <= j < self.pool@[s]@.len() }
    pub open spec fn at(&self, s: int, j: int) -> usize { self.pool@[s]@[j] }
    // buffers on the free lists fit their list, belong to nobody and appear there once
    pub open spec fn wf_lists(&self) -> bool {
        &&& self.pool@.len() == 32
        &&& forall|s: int, j: int| #[trigger] self.slot(s, j) ==> self.at(s, j) != 0 && self.heap().contains_key(self.at(s, j)) && self.heap()[self.at(s, j)].len() >= pcap(s as usize) && !self.owned().contains(self.at(s, j))
        &&& forall|s: int, j: int, s2: int, j2: int| #[trigger] self.slot(s, j) && #[trigger] self.slot(s2, j2) && self.at(s, j) == self.at(s2, j2) ==> s == s2 && j == j2
    }
    // every owned buffer is live and has the room its class promises
    pub open spec fn wf_owned(&self) -> bool {
        forall|a: usize| #[trigger] self.mem_shift@.contains_key(a) ==> a != 0 && self.mem_shift@[a] < 32 && self.heap().contains_key(a) && self.heap()[a].len() >= pcap(self.mem_shift@[a])
    }
    // nothing is lost: what is live is owned or on a free list
    pub open spec fn complete(&self) -> bool {
        forall|a: usize| #[trigger] self.heap().contains_key(a) ==> self.owned().contains(a) || self.pooled(a)
    }
    pub open spec fn pooled(&self, a: usize) -> bool { exists|s: int, j: int| #[trigger] self.slot(s, j) && self.at(s, j) == a }
    pub open spec fn wf(&self) -> bool { self.wf_lists() && self.wf_owned() && self.complete() }
}
// the owners' buffers keep their contents
pub open spec fn keeps(p: &Pool, q: &Pool, but: Set<usize>) -> bool {
    forall|a: usize| p.owned().contains(a) && !but.contains(a) ==> #[trigger] q.heap().contains_key(a) && q.heap()[a] == p.heap()[a]
}
pub open spec fn new_handle_post(p: &Pool, q: &Pool, size: u32, r: usize) -> bool {
    &&& q.wf()
    &&& r != 0
    &&& !p.owned().contains(r)
    &&& q.owned() == p.owned().insert(r)
    &&& q.heap().contains_key(r) && q.heap()[r].len() >= size
    &&& keeps(p, q, Set::empty())
}
pub open spec fn drop_handle_post(p: &Pool, q: &Pool, h: usize) -> bool {
    &&& p.owned().contains(h)
    &&& q.wf()
    &&& q.owned() == p.owned().remove(h)
    &&& keeps(p, q, set![h])
}

pub proof fn lemma_shl(s: usize)
    requires s < 32,
    ensures 1u32 << s == 1u64 << ((s as u32) as u64),
{
    let t = s as u32;
    assert((1u32 << t) as u64 == 1u64 << (t as u64)) by (bit_vector) requires t < 32;
}
pub proof fn lemma_pcap(s: usize)
    requires s < 32,
    ensures pcap(s) >= 1, pcap(s) == (1u32 << s) as nat, (1u32 << s) >= 1,
{
    let t = s as u32;
    assert(1u32 << t >= 1) by (bit_vector) requires t < 32;
}

pub open spec fn new_rel(p: Pool, q: Pool, size: u32, r: usize) -> bool {
    let s = q.mem_shift@[r];
    &&& s < 32 && pcap(s) >= size
    &&& q.mem_shift@ == p.mem_shift@.insert(r, s)
    &&& q.pool@.len() == 32
    &&& forall|i: int| 0 <= i < 32 && i != s ==> (#[trigger] q.pool@[i])@ == p.pool@[i]@
    &&& {
        ||| q.imp.v() == p.imp.v() && p.pool@[s as int]@.len() > 0 && r == p.pool@[s as int]@.last() && q.pool@[s as int]@ == p.pool@[s as int]@.drop_last()
        ||| r != 0 && !p.imp.v().contains_key(r) && q.imp.v().dom() == p.imp.v().dom().insert(r) && q.imp.v()[r].len() >= pcap(s) && q.pool@[s as int]@ == p.pool@[s as int]@
            && forall|a: usize| #[trigger] p.imp.v().contains_key(a) ==> q.imp.v()[a] == p.imp.v()[a]
    }
}
pub proof fn lemma_new_handle(p: Pool, q: Pool, size: u32, r: usize)
    requires p.wf(), new_rel(p, q, size, r),
    ensures new_handle_post(&p, &q, size, r),
{
    let s = q.mem_shift@[r];
    let popped = q.imp.v() == p.imp.v() && p.pool@[s as int]@.len() > 0 && r == p.pool@[s as int]@.last() && q.pool@[s as int]@ == p.pool@[s as int]@.drop_last();
    let n = p.pool@[s as int]@.len() as int;
    if popped {
        assert(p.slot(s as int, n - 1));
        assert(p.at(s as int, n - 1) == r);
    } else {
        assert(!p.owned().contains(r)) by { if p.mem_shift@.contains_key(r) {} }
    }
    assert(q.owned() =~= p.owned().insert(r));
    assert forall|t: int, j: int| #[trigger] q.slot(t, j) implies p.slot(t, j) && p.at(t, j) == q.at(t, j) && q.at(t, j) != r by {
        assert(q.pool@[t]@.len() <= p.pool@[t]@.len());
        assert(p.slot(t, j));
    }
    assert(q.wf_lists());
    assert(q.wf_owned());
    assert forall|a: usize| #[trigger] q.heap().contains_key(a) implies q.owned().contains(a) || q.pooled(a) by {
        if a != r {
            assert(p.heap().contains_key(a));
            if !p.owned().contains(a) {
                let (t, j) = choose|t: int, j: int| #[trigger] p.slot(t, j) && p.at(t, j) == a;
                assert(q.slot(t, j) && q.at(t, j) == a);
            }
        }
    }
}
pub open spec fn drop_rel(p: Pool, q: Pool, h: usize) -> bool {
    let s = p.mem_shift@[h] as int;
    &&& p.mem_shift@.contains_key(h)
    &&& q.mem_shift@ == p.mem_shift@.remove(h)
    &&& q.imp.v() == p.imp.v()
    &&& q.pool@.len() == 32
    &&& q.pool@[s]@ == p.pool@[s]@.push(h)
    &&& forall|i: int| 0 <= i < 32 && i != s ==> (#[trigger] q.pool@[i])@ == p.pool@[i]@
}
pub proof fn lemma_drop_handle(p: Pool, q: Pool, h: usize)
    requires p.wf(), drop_rel(p, q, h),
    ensures drop_handle_post(&p, &q, h),
{
    let s = p.mem_shift@[h] as int;
    assert(p.mem_shift@.contains_key(h));
    let n = p.pool@[s]@.len() as int;
    assert(q.owned() =~= p.owned().remove(h));
    assert forall|t: int, j: int| #[trigger] q.slot(t, j) implies (t == s && j == n && q.at(t, j) == h) || (p.slot(t, j) && p.at(t, j) == q.at(t, j) && q.at(t, j) != h) by {
        if !(t == s && j == n) { assert(p.slot(t, j)); }
    }
    assert(q.wf_lists());
    assert forall|a: usize| #[trigger] q.mem_shift@.contains_key(a) implies p.mem_shift@.contains_key(a) by { }
    assert(q.wf_owned());
    assert forall|a: usize| #[trigger] q.heap().contains_key(a) implies q.owned().contains(a) || q.pooled(a) by {
        if a == h {
            assert(q.slot(s, n) && q.at(s, n) == h);
        } else if !p.owned().contains(a) {
            let (t, j) = choose|t: int, j: int| #[trigger] p.slot(t, j) && p.at(t, j) == a;
            assert(q.slot(t, j) && q.at(t, j) == a);
        }
    }
    assert(q.complete());
    assert(q.wf());
}
// while the pool is being dropped: what is live is owned or on a list not yet visited
pub open spec fn later(p: Pool, i: int, j: int, a: usize) -> bool {
    exists|s: int, k: int| #[trigger] p.slot(s, k) && p.at(s, k) == a && (s > i || (s == i && k >= j))
}
pub open spec fn dropping(p: Pool, h: Map<usize, Seq<real>>, i: int, j: int) -> bool {
    forall|a: usize| #[trigger] h.contains_key(a) <==> p.owned().contains(a) || later(p, i, j, a)
}
pub proof fn lemma_drop_step(p: Pool, h: Map<usize, Seq<real>>, i: int, j: int)
    requires p.wf(), p.slot(i, j), dropping(p, h, i, j),
    ensures h.contains_key(p.at(i, j)), dropping(p, h.remove(p.at(i, j)), i, j + 1),
{
    let b = p.at(i, j);
    assert(later(p, i, j, b));
    assert forall|a: usize| #[trigger] h.remove(b).contains_key(a) <==> p.owned().contains(a) || later(p, i, j + 1, a) by {
        assert(h.remove(b).contains_key(a) <==> h.contains_key(a) && a != b);
        if later(p, i, j, a) && a != b {
            let (s, k) = choose|s: int, k: int| #[trigger] p.slot(s, k) && p.at(s, k) == a && (s > i || (s == i && k >= j));
            assert(p.slot(s, k) && (s > i || (s == i && k >= j + 1)));
        }
        if later(p, i, j + 1, a) {
            let (s, k) = choose|s: int, k: int| #[trigger] p.slot(s, k) && p.at(s, k) == a && (s > i || (s == i && k >= j + 1));
            assert(p.slot(s, k) && (s > i || (s == i && k >= j)));
        }
    }
}
pub proof fn lemma_drop_next(p: Pool, h: Map<usize, Seq<real>>, i: int, j: int)
    requires p.wf(), 0 <= i < 32, j >= p.pool@[i]@.len(), dropping(p, h, i, j),
    ensures dropping(p, h, i + 1, 0),
{
    assert forall|a: usize| later(p, i, j, a) <==> later(p, i + 1, 0, a) by {
        if later(p, i, j, a) {
            let (s, k) = choose|s: int, k: int| #[trigger] p.slot(s, k) && p.at(s, k) == a && (s > i || (s == i && k >= j));
            assert(p.slot(s, k) && s >= i + 1);
        }
        if later(p, i + 1, 0, a) {
            let (s, k) = choose|s: int, k: int| #[trigger] p.slot(s, k) && p.at(s, k) == a && (s > i + 1 || (s == i + 1 && k >= 0));
            assert(p.slot(s, k) && s > i);
        }
    }
    assert forall|a: usize| #[trigger] h.contains_key(a) <==> p.owned().contains(a) || later(p, i + 1, 0, a) by {
        assert(later(p, i, j, a) <==> later(p, i + 1, 0, a));
    }
}
pub proof fn lemma_drop_start(p: Pool)
    requires p.wf(),
    ensures dropping(p, p.imp.v(), 0, 0),
{
    assert forall|a: usize| #[trigger] p.imp.v().contains_key(a) <==> p.owned().contains(a) || later(p, 0, 0, a) by {
        if p.imp.v().contains_key(a) && !p.owned().contains(a) {
            assert(p.heap().contains_key(a));
            let (s, k) = choose|s: int, k: int| #[trigger] p.slot(s, k) && p.at(s, k) == a;
            assert(p.slot(s, k) && (s > 0 || (s == 0 && k >= 0)));
        }
        if later(p, 0, 0, a) {
            let (s, k) = choose|s: int, k: int| #[trigger] p.slot(s, k) && p.at(s, k) == a && (s > 0 || (s == 0 && k >= 0));
            assert(p.slot(s, k));
        }
        if p.owned().contains(a) { assert(p.mem_shift@.contains_key(a)); }
    }
}
pub proof fn lemma_drop_end(p: Pool, h: Map<usize, Seq<real>>, i: int)
    requires p.wf(), i >= 32, dropping(p, h, i, 0),
    ensures h.dom() == p.owned(),
{
    assert forall|a: usize| h.contains_key(a) <==> p.owned().contains(a) by {
        if later(p, i, 0, a) {
            let (s, k) = choose|s: int, k: int| #[trigger] p.slot(s, k) && p.at(s, k) == a && (s > i || (s == i && k >= 0));
        }
    }
    assert(h.dom() =~= p.owned());
}

// ---- tensors: what they own, what they refer to
pub struct Mem { pub devs: Vec<Pool> }
impl Mem {
    pub open spec fn wf(&self) -> bool { forall|d: int| 0 <= d < self.devs@.len() ==> (#[trigger] self.devs@[d]).wf() }
    pub open spec fn has(&self, d: usize) -> bool { d < self.devs@.len() }
    pub open spec fn owned(&self, d: usize) -> Set<usize> { self.devs@[d as int].owned() }
    pub open spec fn buf(&self, d: usize, h: usize) -> Seq<real> { self.devs@[d as int].heap()[h] }
}
// only device d may differ
pub open spec fn but_dev(m: &Mem, n: &Mem, d: usize) -> bool {
    m.devs@.len() == n.devs@.len() && forall|e: int| 0 <= e < m.devs@.len() && e != d ==> #[trigger] n.devs@[e] == m.devs@[e]
}
pub struct TRef { pub handle: usize, pub device: Option<usize> }
pub fn tref(o: &TT) -> (r: TRef) ensures r.handle == o.handle, r.device == o.device { TRef { handle: o.handle, device: o.device } }

pub trait Meq { spec fn meq_spec(&self, o: &Self) -> bool; fn meq(&self, o: &Self) -> (r: bool) ensures r == self.meq_spec(o); }
impl Meq for Option<usize> {
    open spec fn meq_spec(&self, o: &Self) -> bool { *self == *o }
    fn meq(&self, o: &Self) -> (r: bool) { match (self, o) { (Some(a), Some(b)) => *a == *b, (None, None) => true, _ => false } }
}
impl Meq for Shape {
    open spec fn meq_spec(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body]
    fn meq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
pub fn meq<T: Meq>(a: &T, b: &T) -> (r: bool) ensures r == a.meq_spec(b) { a.meq(b) }

impl TT {
    pub open spec fn owns(&self) -> bool { self.handle != 0 && self.reference.is_none() }
    pub open spec fn dev(&self) -> usize { self.device.unwrap() }
    pub open spec fn size(&self) -> nat { sz(self.shape.s()) as nat }
}
pub open spec fn t_wf(t: &TT, m: &Mem) -> bool {
    &&& t.shape.wf()
    &&& t.device.is_some() ==> m.has(t.dev())
    &&& t.handle != 0 ==> t.device.is_some() && t.host_values.is_none() && m.owned(t.dev()).contains(t.handle) && m.buf(t.dev(), t.handle).len() >= t.size()
    &&& t.reference.is_some() ==> t.handle != 0 && t.reference.unwrap().handle == t.handle && t.reference.unwrap().device == t.device
    &&& t.device.is_none() ==> t.host_values.is_some()
}
// the values of a tensor on a device
pub open spec fn vals(t: &TT, m: &Mem) -> Seq<real> { m.buf(t.dev(), t.handle).subrange(0, t.size() as int) }

// every tensor there was is as it was, and reads the same
pub open spec fn others(m: &Mem, n: &Mem) -> bool {
    forall|t: TT| #[trigger] t_wf(&t, m) ==> t_wf(&t, n) && (t.handle != 0 ==> vals(&t, n) == vals(&t, m))
}
pub proof fn lemma_got(m: &Mem, n: &Mem, d: usize, size: u32, r: usize)
    requires m.wf(), m.has(d), got(m, n, d, size, r),
    ensures others(m, n),
{
    assert(m.owned(d).subset_of(n.owned(d)));
    lemma_others(m, n, d);
}
pub open spec fn got(m: &Mem, n: &Mem, d: usize, size: u32, r: usize) -> bool {
    n.wf() && but_dev(m, n, d) && new_handle_post(&m.devs@[d as int], &n.devs@[d as int], size, r)
}
pub open spec fn gave(m: &Mem, n: &Mem, d: usize, h: usize) -> bool {
    n.wf() && but_dev(m, n, d) && drop_handle_post(&m.devs@[d as int], &n.devs@[d as int], h)
}
// t has received a buffer, nothing else about it has changed
pub open spec fn allocated(t: &TT, u: &TT, m: &Mem, n: &Mem) -> bool {
    got(m, n, t.dev(), t.size() as u32, u.handle) && *u == (TT { handle: u.handle, ..*t })
}
// buffer h of device d was written, its first elements are v
pub open spec fn wrote(m: &Mem, n: &Mem, d: usize, h: usize, v: Seq<real>) -> bool {
    &&& but_dev(m, n, d)
    &&& n.devs@[d as int].pool == m.devs@[d as int].pool
    &&& n.devs@[d as int].mem_shift == m.devs@[d as int].mem_shift
    &&& n.devs@[d as int].heap() == m.devs@[d as int].heap().insert(h, n.buf(d, h))
    &&& n.buf(d, h).len() == m.buf(d, h).len()
    &&& n.buf(d, h).subrange(0, v.len() as int) == v
}
pub proof fn lemma_wrote(m: &Mem, n: &Mem, d: usize, h: usize, v: Seq<real>)
    requires m.wf(), m.has(d), m.owned(d).contains(h), wrote(m, n, d, h, v),
    ensures n.wf(), n.owned(d) == m.owned(d), keeps(&m.devs@[d as int], &n.devs@[d as int], set![h]),
{
    let p = m.devs@[d as int];
    let q = n.devs@[d as int];
    assert(p.wf());
    assert(p.mem_shift@.contains_key(h));
    assert forall|s: int, j: int| #[trigger] q.slot(s, j) implies p.slot(s, j) && p.at(s, j) == q.at(s, j) && q.at(s, j) != h by { assert(p.slot(s, j)); }
    assert(q.wf_lists());
    assert forall|a: usize| #[trigger] q.mem_shift@.contains_key(a) implies p.mem_shift@.contains_key(a) by { }
    assert(q.wf_owned());
    assert forall|a: usize| #[trigger] q.heap().contains_key(a) implies q.owned().contains(a) || q.pooled(a) by {
        assert(p.heap().contains_key(a));
        if !p.owned().contains(a) {
            let (t, j) = choose|t: int, j: int| #[trigger] p.slot(t, j) && p.at(t, j) == a;
            assert(q.slot(t, j) && q.at(t, j) == a);
        }
    }
    assert(q.wf());
    assert forall|e: int| 0 <= e < n.devs@.len() implies (#[trigger] n.devs@[e]).wf() by { if e != d { assert(n.devs@[e] == m.devs@[e]); assert(m.devs@[e].wf()); } }
}
pub proof fn lemma_dev_step(m: &Mem, n: &Mem, d: usize)
    requires m.wf(), but_dev(m, n, d), m.has(d), n.devs@[d as int].wf(),
    ensures n.wf(),
{
    assert forall|e: int| 0 <= e < n.devs@.len() implies (#[trigger] n.devs@[e]).wf() by { if e != d { assert(n.devs@[e] == m.devs@[e]); assert(m.devs@[e].wf()); } }
}

// ---- kernels that write and read buffers (their values are proved in the tensor units)
#[verifier::external_body]
pub fn mk_ResetTensorImpl(m: &mut Mem, d: usize, k: R, x: &TT, Ghost(ok): Ghost<bool>)
    requires old(m).wf(), t_wf(x, old(m)), x.device == Some(d), x.handle != 0,
    ensures wrote(old(m), final(m), d, x.handle, Seq::new(x.size(), |i: int| k.v())),
{ unimplemented!() }
#[verifier::external_body]
pub fn mk_ResetTensorBySliceImpl(m: &mut Mem, d: usize, v: &[R], x: &TT, Ghost(ok): Ghost<bool>)
    requires old(m).wf(), t_wf(x, old(m)), x.device == Some(d), x.handle != 0, v@.len() == x.size(),
    ensures wrote(old(m), final(m), d, x.handle, rseq(v@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn mk_ResetTensorByTensorImpl(m: &mut Mem, d: usize, s: &TT, x: &TT, Ghost(ok): Ghost<bool>)
    requires old(m).wf(), t_wf(x, old(m)), x.device == Some(d), x.handle != 0, t_wf(s, old(m)), s.handle != 0, s.size() == x.size(),
    ensures wrote(old(m), final(m), d, x.handle, vals(s, old(m))),
{ unimplemented!() }
#[verifier::external_body]
pub fn mk_TensorToVectorImpl(m: &Mem, d: usize, x: &TT, y: &mut Vec<R>, Ghost(ok): Ghost<bool>)
    requires m.wf(), t_wf(x, m), x.handle != 0, old(y)@.len() == x.size(),
    ensures final(y)@.len() == old(y)@.len(), rseq(final(y)@) == vals(x, m),
{ unimplemented!() }

pub proof fn lemma_tsize(t: &TT)
    requires t.shape.wf(),
    ensures 1 <= sz(t.shape.s()) <= U32M(), t.size() == sz(t.shape.s()),
{ lemma_sz(t.shape.s()); }

pub open spec fn moved_in(t: &TT, u: &TT, m: &Mem, n: &Mem, device: usize) -> bool {
    &&& u.device == Some(device) && u.shape == t.shape && u.host_values.is_none() && u.reference.is_none()
    &&& vals(u, n) == rseq(t.host_values.unwrap()@)
    &&& !m.owned(device).contains(u.handle)
    &&& n.wf() && but_dev(m, n, device) && n.owned(device) == m.owned(device).insert(u.handle)
    &&& keeps(&m.devs@[device as int], &n.devs@[device as int], Set::empty())
    &&& others(m, n)
}
pub open spec fn referred(t: &TT, u: &TT, o: &TT) -> bool {
    u.handle == o.handle && u.reference.is_some() && u.reference.unwrap().handle == o.handle && u.reference.unwrap().device == o.device
    && *u == (TT { handle: u.handle, reference: u.reference, ..*t })
}
// the buffer of `o` passes to t
pub open spec fn replaced(t: &TT, u: &TT, o: &TT) -> bool { *u == (TT { handle: o.handle, ..*t }) }
pub open spec fn dropped(t: &TT, m: &Mem, n: &Mem) -> bool {
    if t.owns() { gave(m, n, t.dev(), t.handle) } else { *n == *m }
}

// a buffer was obtained and then written
pub proof fn lemma_moved(m: &Mem, n: &Mem, d: usize, t: &TT)
    requires m.wf(), m.has(d), t.device == Some(d), t.handle != 0,
        exists|k: Mem, v: Seq<real>| got(m, &k, d, t.size() as u32, t.handle) && #[trigger] wrote(&k, n, d, t.handle, v),
    ensures n.wf(), but_dev(m, n, d), n.owned(d) == m.owned(d).insert(t.handle), keeps(&m.devs@[d as int], &n.devs@[d as int], Set::empty()),
        !m.owned(d).contains(t.handle), others(m, n),
{
    let (k, v) = choose|k: Mem, v: Seq<real>| got(m, &k, d, t.size() as u32, t.handle) && #[trigger] wrote(&k, n, d, t.handle, v);
    lemma_wrote(&k, n, d, t.handle, v);
    let (p, q, r) = (m.devs@[d as int], k.devs@[d as int], n.devs@[d as int]);
    assert(p.wf()) by { assert(m.devs@[d as int].wf()); }
    assert forall|a: usize| p.owned().contains(a) implies #[trigger] r.heap().contains_key(a) && r.heap()[a] == p.heap()[a] by {
        assert(p.owned().contains(a) && !Set::<usize>::empty().contains(a));
        assert(keeps(&p, &q, Set::empty()));
        assert(q.heap().contains_key(a) && q.heap()[a] == p.heap()[a]);
        assert(!q.owned().contains(t.handle) || a != t.handle);
        assert(q.owned().contains(a) && !set![t.handle].contains(a));
    }
    assert forall|e: int| 0 <= e < m.devs@.len() && e != d implies #[trigger] n.devs@[e] == m.devs@[e] by { assert(k.devs@[e] == m.devs@[e]); }
    lemma_others(m, n, d);
}
pub proof fn lemma_others(m: &Mem, n: &Mem, d: usize)
    requires m.wf(), m.has(d), n.wf(), but_dev(m, n, d), keeps(&m.devs@[d as int], &n.devs@[d as int], Set::empty()), m.owned(d).subset_of(n.owned(d)),
    ensures others(m, n),
{
    assert forall|t: TT| #[trigger] t_wf(&t, m) implies t_wf(&t, n) && (t.handle != 0 ==> vals(&t, n) == vals(&t, m)) by {
        if t.handle != 0 {
            let e = t.dev();
            if e == d {
                let (p, q) = (m.devs@[d as int], n.devs@[d as int]);
                assert(p.owned().contains(t.handle) && !Set::<usize>::empty().contains(t.handle));
                assert(q.heap().contains_key(t.handle) && q.heap()[t.handle] == p.heap()[t.handle]);
            } else {
                assert(n.devs@[e as int] == m.devs@[e as int]);
            }
        }
    }
}

// r is a new tensor of device d with a buffer nobody else has
pub open spec fn made(m: &Mem, n: &Mem, d: usize, shape: Shape, r: &TT) -> bool {
    &&& r.device == Some(d) && r.shape == shape && r.host_values.is_none() && r.reference.is_none() && r.handle != 0
    &&& !m.owned(d).contains(r.handle)
    &&& n.wf() && but_dev(m, n, d) && n.owned(d) == m.owned(d).insert(r.handle)
    &&& keeps(&m.devs@[d as int], &n.devs@[d as int], Set::empty())
    &&& others(m, n)
}

// ---- parameters: HashMap<String, RefCell<Tensor>>, names read as their hashes
pub struct StatMap { pub items: Vec<(u64, TT)> }
impl StatMap {
    pub open spec fn has(&self, k: u64) -> bool { exists|i: int| 0 <= i < self.items@.len() && (#[trigger] self.items@[i]).0 == k }
    pub fn new() -> (r: StatMap) ensures r.items@.len() == 0, { StatMap { items: Vec::new() } }
    pub fn len(&self) -> (r: usize) ensures r == self.items@.len(), { self.items.len() }
    pub fn contains_key(&self, k: u64) -> (r: bool) ensures r == self.has(k),
    {
        let mut i: usize = 0;
        while i < self.items.len()
            invariant forall|j: int| 0 <= j < i ==> (#[trigger] self.items@[j]).0 != k, i <= self.items@.len(),
            decreases self.items@.len() - i,
        {
            if self.items[i].0 == k { return true; }
            i = i + 1;
        }
        false
    }
    // only for a name that is not there yet (the caller's duty; the map would replace, and drop, the old entry)
    pub fn insert(&mut self, k: u64, t: TT)
        requires !old(self).has(k),
        ensures final(self).items@ == old(self).items@.push((k, t)),
    { self.items.push((k, t)); }
}
pub open spec fn p_wf(p: &MParam, m: &Mem) -> bool {
    &&& t_wf(&p.value, m) && t_wf(&p.gradient, m)
    &&& forall|i: int| 0 <= i < p.stats.items@.len() ==> t_wf(&(#[trigger] p.stats.items@[i]).1, m)
}

// a tensor that holds values of the right number for a device to take
pub open spec fn hosted(t: &TT) -> bool { t.host_values.is_some() && t.host_values.unwrap()@.len() == t.size() && t.size() <= 0x8000_0000 }
pub open spec fn p_hosted(p: &MParam) -> bool {
    hosted(&p.value) && hosted(&p.gradient) && forall|i: int| 0 <= i < p.stats.items@.len() ==> hosted(&(#[trigger] p.stats.items@[i]).1)
}
// u is t on device d, with a buffer that did not belong to anybody in m
pub open spec fn onto(t: &TT, u: &TT, m: &Mem, n: &Mem, d: usize) -> bool {
    u.device == Some(d) && u.shape == t.shape && u.owns() && t_wf(u, n) && vals(u, n) == rseq(t.host_values.unwrap()@) && !m.owned(d).contains(u.handle)
}
pub open spec fn p_onto(p: &MParam, q: &MParam, m: &Mem, n: &Mem, d: usize) -> bool {
    &&& onto(&p.value, &q.value, m, n, d) && onto(&p.gradient, &q.gradient, m, n, d) && q.value.handle != q.gradient.handle
    &&& stats_onto(p, q, m, n, d, p.stats.items@.len() as int)
}
pub open spec fn stats_onto(p: &MParam, q: &MParam, m: &Mem, n: &Mem, d: usize, k: int) -> bool {
    &&& q.stats.items@.len() == p.stats.items@.len()
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] q.stats.items@[i]).0 == p.stats.items@[i].0 && onto(&p.stats.items@[i].1, &q.stats.items@[i].1, m, n, d)
        && q.stats.items@[i].1.handle != q.value.handle && q.stats.items@[i].1.handle != q.gradient.handle
    &&& forall|i: int, j: int| 0 <= i < j < k ==> (#[trigger] q.stats.items@[i]).1.handle != (#[trigger] q.stats.items@[j]).1.handle
}
pub open spec fn p_made(m: &Mem, n: &Mem, d: usize, shape: Shape, r: &MParam) -> bool {
    &&& p_wf(r, n) && others(m, n) && r.stats.items@.len() == 0
    &&& r.value.device == Some(d) && r.value.shape == shape && r.value.owns() && !m.owned(d).contains(r.value.handle)
    &&& r.gradient.device == Some(d) && r.gradient.shape == shape && r.gradient.owns() && !m.owned(d).contains(r.gradient.handle)
    &&& r.value.handle != r.gradient.handle
    &&& n.wf() && but_dev(m, n, d) && n.owned(d) == m.owned(d).insert(r.value.handle).insert(r.gradient.handle)
}

// `dyn Initializer`: whatever it writes, it gives the tensor a buffer of its own (proved for each initializer)
#[verifier::external_body]
pub struct MInit { x: usize }
impl MInit { pub uninterp spec fn fits(&self, s: Shape) -> bool; }
pub open spec fn filled(m: &Mem, n: &Mem, t: &TT, u: &TT) -> bool {
    made(m, n, t.dev(), t.shape, u) && t_wf(u, n)
}
#[verifier::external_body]
pub fn MInit_apply(m: &mut Mem, i: &MInit, x: &mut TT, Ghost(ok): Ghost<bool>)
    requires old(m).wf(), t_wf(old(x), old(m)), ok ==> old(x).device.is_some() && old(x).handle == 0 && old(x).host_values.is_none() && old(x).size() <= 0x8000_0000 && i.fits(old(x).shape),
    ensures filled(old(m), final(m), old(x), final(x)), old(x).device.is_some() && old(x).handle == 0 && old(x).host_values.is_none() && old(x).size() <= 0x8000_0000 && i.fits(old(x).shape),
{ unimplemented!() }
// first v got its buffer, then g, and g's was written
pub open spec fn moved_from(k: &Mem, n: &Mem, d: usize, g: &TT) -> bool {
    n.wf() && but_dev(k, n, d) && n.owned(d) == k.owned(d).insert(g.handle) && others(k, n) && !k.owned(d).contains(g.handle)
}
pub proof fn lemma_moved_from(m: &Mem, n: &Mem, d: usize, v: &TT, g: &TT)
    requires m.wf(), m.has(d), v.device == Some(d), g.device == Some(d), v.handle != 0, g.handle != 0,
        exists|k: Mem, u: TT, l: Mem, x: Seq<real>| #[trigger] filled(m, &k, &u, v) && u.device == Some(d) && #[trigger] got(&k, &l, d, g.size() as u32, g.handle) && #[trigger] wrote(&l, n, d, g.handle, x),
    ensures n.wf(), but_dev(m, n, d), n.owned(d) == m.owned(d).insert(v.handle).insert(g.handle), others(m, n), t_wf(v, n), v.handle != g.handle,
        !m.owned(d).contains(v.handle), !m.owned(d).contains(g.handle),
{
    let (k, u, l, x) = choose|k: Mem, u: TT, l: Mem, x: Seq<real>| #[trigger] filled(m, &k, &u, v) && u.device == Some(d) && #[trigger] got(&k, &l, d, g.size() as u32, g.handle) && #[trigger] wrote(&l, n, d, g.handle, x);
    lemma_moved(&k, n, d, g);
    assert(moved_from(&k, n, d, g));
    assert(t_wf(v, &k));
    assert forall|t: TT| #[trigger] t_wf(&t, m) implies t_wf(&t, n) && (t.handle != 0 ==> vals(&t, n) == vals(&t, m)) by { assert(t_wf(&t, &k)); }
    assert forall|e: int| 0 <= e < m.devs@.len() && e != d implies #[trigger] n.devs@[e] == m.devs@[e] by { assert(k.devs@[e] == m.devs@[e]); }
}

// some float (results of float arithmetic have no bearing on memory)
#[verifier::external_body]
pub fn f_any() -> (r: R) { unimplemented!() }
pub open spec fn written(m: &Mem, n: &Mem, d: usize, x: &TT) -> bool { wrote(m, n, d, x.handle, n.buf(d, x.handle).subrange(0, x.size() as int)) }
#[verifier::external_body]
pub fn mk_RandomUniformImpl(m: &mut Mem, d: usize, k: R, l: R, x: &TT, Ghost(ok): Ghost<bool>)
    requires old(m).wf(), t_wf(x, old(m)), x.device == Some(d), x.handle != 0,
    ensures written(old(m), final(m), d, x),
{ unimplemented!() }
#[verifier::external_body]
pub fn mk_RandomNormalImpl(m: &mut Mem, d: usize, k: R, l: R, x: &TT, Ghost(ok): Ghost<bool>)
    requires old(m).wf(), t_wf(x, old(m)), x.device == Some(d), x.handle != 0,
    ensures written(old(m), final(m), d, x),
{ unimplemented!() }
#[verifier::external_body]
pub fn mk_RandomBernoulliImpl(m: &mut Mem, d: usize, k: R, x: &TT, Ghost(ok): Ghost<bool>)
    requires old(m).wf(), t_wf(x, old(m)), x.device == Some(d), x.handle != 0,
    ensures written(old(m), final(m), d, x),
{ unimplemented!() }

// ---- whole histories: the tensors that are alive, and what they own
// every owner has its own buffer, and every buffer handed out has an owner that is alive
pub open spec fn sys_inv(m: &Mem, ts: Map<int, TT>) -> bool {
    &&& m.wf()
    &&& forall|i: int| #[trigger] ts.contains_key(i) ==> t_wf(&ts[i], m)
    &&& forall|i: int, j: int| #[trigger] ts.contains_key(i) && #[trigger] ts.contains_key(j) && i != j && ts[i].owns() && ts[j].owns() && ts[i].device == ts[j].device ==> ts[i].handle != ts[j].handle
    &&& forall|d: usize, h: usize| m.has(d) && #[trigger] m.owned(d).contains(h) ==> exists|i: int| #[trigger] has_owner(ts, i, d, h)
}
pub open spec fn has_owner(ts: Map<int, TT>, i: int, d: usize, h: usize) -> bool { ts.contains_key(i) && ts[i].owns() && ts[i].device == Some(d) && ts[i].handle == h }
// nothing alive: nothing owned (so Pool_drop frees every buffer there is)
pub proof fn lemma_sys_end(m: &Mem, d: usize)
    requires sys_inv(m, Map::empty()), m.has(d),
    ensures m.owned(d) == Set::<usize>::empty(),
{
    assert forall|h: usize| !m.owned(d).contains(h) by {
        if m.owned(d).contains(h) { let i = choose|i: int| #[trigger] has_owner(Map::empty(), i, d, h); }
    }
    assert(m.owned(d) =~= Set::<usize>::empty());
}
// a tensor without a buffer appears (Tensor::new, new_host_tensor) or one that refers to a live one (Tensor::from)
pub proof fn lemma_sys_view(m: &Mem, ts: Map<int, TT>, k: int, u: TT)
    requires sys_inv(m, ts), t_wf(&u, m), !u.owns(), !ts.contains_key(k) || !ts[k].owns(),
    ensures sys_inv(m, ts.insert(k, u)),
{
    let ss = ts.insert(k, u);
    assert forall|d: usize, h: usize| m.has(d) && #[trigger] m.owned(d).contains(h) implies exists|i: int| #[trigger] has_owner(ss, i, d, h) by {
        let i = choose|i: int| #[trigger] has_owner(ts, i, d, h);
        assert(has_owner(ss, i, d, h));
    }
    assert forall|i: int| #[trigger] ss.contains_key(i) implies t_wf(&ss[i], m) by { if i != k { assert(ts.contains_key(i)); } }
}
// tensor k obtains a buffer (alloc, move_to_device, new_tensor_by_.., copy_tensor, initializers)
pub proof fn lemma_sys_got(m: &Mem, n: &Mem, ts: Map<int, TT>, k: int, u: TT)
    requires sys_inv(m, ts), n.wf(), others(m, n), t_wf(&u, n), u.owns(), m.has(u.dev()), but_dev(m, n, u.dev()), !m.owned(u.dev()).contains(u.handle),
        n.owned(u.dev()) == m.owned(u.dev()).insert(u.handle), !ts.contains_key(k) || !ts[k].owns(),
    ensures sys_inv(n, ts.insert(k, u)),
{
    let ss = ts.insert(k, u);
    assert forall|i: int| #[trigger] ss.contains_key(i) implies t_wf(&ss[i], n) by { if i != k { assert(ts.contains_key(i)); assert(t_wf(&ts[i], m)); } }
    assert forall|i: int, j: int| #[trigger] ss.contains_key(i) && #[trigger] ss.contains_key(j) && i != j && ss[i].owns() && ss[j].owns() && ss[i].device == ss[j].device implies ss[i].handle != ss[j].handle by {
        if i != k { assert(ts.contains_key(i)); }
        if j != k { assert(ts.contains_key(j)); }
    }
    assert forall|d: usize, h: usize| n.has(d) && #[trigger] n.owned(d).contains(h) implies exists|i: int| #[trigger] has_owner(ss, i, d, h) by {
        if d == u.dev() && h == u.handle { assert(has_owner(ss, k, d, h)); }
        else {
            if d != u.dev() { assert(n.devs@[d as int] == m.devs@[d as int]); }
            assert(m.owned(d).contains(h));
            let i = choose|i: int| #[trigger] has_owner(ts, i, d, h);
            assert(has_owner(ss, i, d, h));
        }
    }
}
// the buffer of tensor o passes to tensor k, o is gone (replace)
pub proof fn lemma_sys_replace(m: &Mem, ts: Map<int, TT>, k: int, o: int, u: TT)
    requires sys_inv(m, ts), ts.contains_key(k), ts.contains_key(o), k != o, ts[o].owns(), ts[k].handle == 0, ts[k].device == ts[o].device, ts[k].shape == ts[o].shape,
        ts[k].host_values.is_none(), ts[k].reference.is_none(), replaced(&ts[k], &u, &ts[o]),
    ensures sys_inv(m, ts.remove(o).insert(k, u)),
{
    let ss = ts.remove(o).insert(k, u);
    assert(t_wf(&ts[k], m) && t_wf(&ts[o], m));
    assert forall|i: int| #[trigger] ss.contains_key(i) implies t_wf(&ss[i], m) by { if i != k { assert(ts.contains_key(i)); } }
    assert forall|i: int, j: int| #[trigger] ss.contains_key(i) && #[trigger] ss.contains_key(j) && i != j && ss[i].owns() && ss[j].owns() && ss[i].device == ss[j].device implies ss[i].handle != ss[j].handle by {
        if i != k { assert(ts.contains_key(i)); }
        if j != k { assert(ts.contains_key(j)); }
    }
    assert forall|d: usize, h: usize| m.has(d) && #[trigger] m.owned(d).contains(h) implies exists|i: int| #[trigger] has_owner(ss, i, d, h) by {
        let i = choose|i: int| #[trigger] has_owner(ts, i, d, h);
        if i == o { assert(has_owner(ss, k, d, h)); } else { assert(has_owner(ss, i, d, h)); }
    }
}
// tensor k is dropped while nothing refers to it (the borrow checker's part)
pub proof fn lemma_sys_drop(m: &Mem, n: &Mem, ts: Map<int, TT>, k: int)
    requires sys_inv(m, ts), ts.contains_key(k), dropped(&ts[k], m, n),
        ts[k].owns() ==> forall|j: int| #[trigger] ts.contains_key(j) && j != k && ts[j].device == ts[k].device ==> ts[j].handle != ts[k].handle,
    ensures sys_inv(n, ts.remove(k)),
        forall|j: int| #[trigger] ts.contains_key(j) && j != k && ts[j].handle != 0 ==> vals(&ts[j], n) == vals(&ts[j], m),
{
    let ss = ts.remove(k);
    let t = ts[k];
    assert(t_wf(&t, m));
    if t.owns() {
        let d = t.dev();
        let (p, q) = (m.devs@[d as int], n.devs@[d as int]);
        assert forall|j: int| #[trigger] ts.contains_key(j) && j != k implies t_wf(&ts[j], n) && (ts[j].handle != 0 ==> vals(&ts[j], n) == vals(&ts[j], m)) by {
            let u = ts[j];
            assert(t_wf(&u, m));
            if u.handle != 0 {
                if u.dev() == d {
                    assert(p.owned().contains(u.handle) && !set![t.handle].contains(u.handle));
                    assert(q.heap().contains_key(u.handle) && q.heap()[u.handle] == p.heap()[u.handle]);
                } else { assert(n.devs@[u.dev() as int] == m.devs@[u.dev() as int]); }
            }
        }
        assert forall|e: usize, h: usize| n.has(e) && #[trigger] n.owned(e).contains(h) implies exists|i: int| #[trigger] has_owner(ss, i, e, h) by {
            if e != d { assert(n.devs@[e as int] == m.devs@[e as int]); }
            assert(m.owned(e).contains(h));
            let i = choose|i: int| #[trigger] has_owner(ts, i, e, h);
            assert(i != k);
            assert(has_owner(ss, i, e, h));
        }
        assert forall|i: int| #[trigger] ss.contains_key(i) implies t_wf(&ss[i], n) by { assert(ts.contains_key(i)); }
    } else {
        assert forall|e: usize, h: usize| n.has(e) && #[trigger] n.owned(e).contains(h) implies exists|i: int| #[trigger] has_owner(ss, i, e, h) by {
            let i = choose|i: int| #[trigger] has_owner(ts, i, e, h);
            assert(has_owner(ss, i, e, h));
        }
        assert forall|i: int| #[trigger] ss.contains_key(i) implies t_wf(&ss[i], n) by { assert(ts.contains_key(i)); }
    }
}
// a kernel writes tensor k: tensors with other buffers read as before, its views read the new values
pub proof fn lemma_sys_write(m: &Mem, n: &Mem, ts: Map<int, TT>, k: int, v: Seq<real>)
    requires sys_inv(m, ts), ts.contains_key(k), ts[k].handle != 0, wrote(m, n, ts[k].dev(), ts[k].handle, v), v.len() == ts[k].size(),
    ensures sys_inv(n, ts),
        forall|j: int| #[trigger] ts.contains_key(j) && ts[j].handle != 0 && !(ts[j].device == ts[k].device && ts[j].handle == ts[k].handle) ==> vals(&ts[j], n) == vals(&ts[j], m),
        forall|j: int| #[trigger] ts.contains_key(j) && ts[j].device == ts[k].device && ts[j].handle == ts[k].handle && ts[j].size() == ts[k].size() ==> vals(&ts[j], n) == v,
{
    let t = ts[k];
    let d = t.dev();
    assert(t_wf(&t, m));
    lemma_wrote(m, n, d, t.handle, v);
    assert forall|j: int| #[trigger] ts.contains_key(j) implies t_wf(&ts[j], n) && (ts[j].handle != 0 && !(ts[j].device == ts[k].device && ts[j].handle == ts[k].handle) ==> vals(&ts[j], n) == vals(&ts[j], m)) by {
        let u = ts[j];
        assert(t_wf(&u, m));
        if u.handle != 0 && u.dev() != d { assert(n.devs@[u.dev() as int] == m.devs@[u.dev() as int]); }
    }
    assert forall|e: usize, h: usize| n.has(e) && #[trigger] n.owned(e).contains(h) implies exists|i: int| #[trigger] has_owner(ts, i, e, h) by {
        if e != d { assert(n.devs@[e as int] == m.devs@[e as int]); }
        assert(m.owned(e).contains(h));
    }
}
}
