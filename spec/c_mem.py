"""Memory: the pool of a device, and tensors that own or refer to its buffers."""
from tables import F, L, ST
U = "mem"
ST("Pool", [["imp", "NHeap"], ["pool", "Vec<Vec<usize>>"], ["mem_shift", "HashMap<usize, usize>"]],
   types={"Arc<Box<dynDeviceImpl+'dev>>": "NHeap", "Mutex<Vec<Vec<AtomicPtr<c_void>>>>": "Vec<Vec<usize>>", "Mutex<HashMap<usize,usize>>": "std::collections::HashMap<usize, usize>"}, path="MemoryPool")
def M(key, emit, params, props, mode="mem", **kw):
    return F("mem|" + key, emit, params, props, U, self_kind=mode, **kw)

C = ["C03"]
M("memory_pool::calculate_shifts", "calculate_shifts", ["x"], C, "mem bv", path="M:calculate_shifts", valid="x != 0",
  ens="r <= 32, x <= 0x8000_0000 <==> r <= 31, (1u64 << (r as u64)) >= x, r > 0 ==> (1u64 << ((r - 1) as u64)) < x",
  end="""assert(ret_ <= 32 && (x <= 0x8000_0000 <==> ret_ <= 31) && (1u64 << (ret_ as u64)) >= x as u64 && (ret_ > 0 ==> (1u64 << (sub(ret_, 1) as u64)) < x as u64)) by (bit_vector) requires $defs0;""")
M("devices::naive::<Naive as DeviceImpl>::new_handle", "Naive_new_handle", ["im", "size"], C, method="M:dynDeviceImpl.new_handle", recv="&mut", ret="AtomicPtr<c_void>",
  ens="r != 0, !old(im).v().contains_key(r), final(im).v().dom() == old(im).v().dom().insert(r), final(im).v()[r].len() == size, forall|a: usize| #[trigger] old(im).v().contains_key(a) ==> final(im).v()[a] == old(im).v()[a]",
  end="assert(im.v().dom() =~= old(im).v().dom().insert(ret_));")
M("devices::naive::<Naive as DeviceImpl>::drop_handle", "Naive_drop_handle", ["im", "h"], C, method="M:dynDeviceImpl.drop_handle", recv="&mut", ret="()",
  req="old(im).v().contains_key(h)", ens="final(im).v() == old(im).v().remove(h)")
M("memory_pool::MemoryPool::new", "Pool_new", ["im"], C, req="im.v().dom() == Set::<usize>::empty()",
  ens="r.wf(), r.owned() == Set::<usize>::empty()",
  inv={0: "st0 == 0, en0 == 32, vec0@.len() == it0, forall|i: int| 0 <= i < it0 ==> (#[trigger] vec0@[i])@.len() == 0"},
  end="assert(ret_.mem_shift@.dom() =~= Set::<usize>::empty()); assert forall|s: int, j: int| !ret_.slot(s, j) by { if 0 <= s < 32 { assert(ret_.pool@[s]@.len() == 0); } }")
M("memory_pool::MemoryPool::new_handle", "Pool_new_handle", ["p", "size"], C, method="M:MemoryPool.new_handle", recv="&mut",
  req="old(p).wf()", valid="size != 0 && size <= 0x8000_0000",
  ens="new_handle_post(old(p), final(p), size, r)",
  end="""proof { let s_ = p.mem_shift@[ret_]; if s_ < 32 { lemma_pcap(s_); lemma_shl(s_); } lemma_new_handle(*old(p), *p, size, ret_); }""")
M("memory_pool::MemoryPool::drop_handle", "Pool_drop_handle", ["p", "h"], C, method="M:MemoryPool.drop_handle", recv="&mut",
  req="old(p).wf()", valid="old(p).owned().contains(h)",
  ens="drop_handle_post(old(p), final(p), h)",
  end="proof { lemma_drop_handle(*old(p), *p, h); }")
M("memory_pool::<MemoryPool as Drop>::drop", "Pool_drop", ["p"], C,
  req="old(p).wf()", ens="final(p).imp.v().dom() == old(p).owned()",
  start="proof { lemma_drop_start(*old(p)); }",
  inv={0: "st0 == 0, en0 == 32, p.pool == old(p).pool, p.mem_shift == old(p).mem_shift, dropping(*old(p), p.imp.v(), it0 as int, 0)",
       1: "st1 == 0, en1 == p.pool@[it0 as int]@.len(), it0 < 32, p.pool == old(p).pool, p.mem_shift == old(p).mem_shift, dropping(*old(p), p.imp.v(), it0 as int, it1 as int)"},
  head={1: "proof { assert(old(p).slot(it0 as int, it1 as int)); lemma_drop_step(*old(p), p.imp.v(), it0 as int, it1 as int); }"},
  post={1: "proof { lemma_drop_next(*old(p), p.imp.v(), it0 as int, it1 as int); }"},
  end="proof { lemma_drop_end(*old(p), p.imp.v(), it0 as int); }")
for _n in ("heap_into_raw", "heap_from_raw", "vec_from_elem"):
    L(_n)

# ---- devices and tensors
ST("TT", [["device", "Option<usize>"], ["shape", "Shape"], ["handle", "usize"], ["host_values", "Option<Vec<R>>"], ["reference", "Option<TRef>"]],
   types={"Option<&'devDevice<'dev>>": "Option<usize>", "AtomicPtr<c_void>": "usize", "Option<Vec<f32>>": "Option<Vec<R>>", "Option<&'devTensor<'dev>>": "Option<TRef>"}, path="Tensor")
T = ["C14"]
T13 = ["C13", "C14"]
WF = "old(m).wf(), t_wf(old(t), old(m))"
M("device::Device::new_handle", "Device_new_handle", ["d", "size"], C + T, "mem w", method="M:Device.new_handle", recv="w",
  req="old(m).wf(), old(m).has(d)", valid="size != 0 && size <= 0x8000_0000", ens="got(old(m), final(m), d, size, r)",
  end="proof { lemma_dev_step(old(m), m, d); }")
M("device::Device::drop_handle", "Device_drop_handle", ["d", "h"], C + T, "mem w", method="M:Device.drop_handle", recv="w",
  req="old(m).wf(), old(m).has(d)", valid="old(m).owned(d).contains(h)", ens="gave(old(m), final(m), d, h)",
  end="proof { lemma_dev_step(old(m), m, d); }")
M("tensor::Tensor::new", "T_new", ["d", "shape"], T, path="M:Tensor::new",
  ens="r == (TT { device: Some(d), shape, handle: 0, host_values: None, reference: None })")
M("tensor::Tensor::new_host_tensor", "T_new_host", ["shape", "values"], T13, path="M:Tensor::new_host_tensor",
  ens="r == (TT { device: None, shape, handle: 0, host_values: Some(values), reference: None })")
M("tensor::Tensor::valid", "T_valid", ["t"], T, method="M:Tensor.valid", ens="r == (t.handle != 0)")
M("tensor::Tensor::device", "T_device", ["t"], T, method="M:Tensor.device", valid="t.device.is_some()", ens="r == t.dev()")
M("tensor::Tensor::handle", "T_handle", ["t"], T, method="M:Tensor.handle", ens="r == t.handle")
M("tensor::Tensor::alloc", "T_alloc", ["t"], T, "mem w", method="M:Tensor.alloc", recv="w&mut",
  req=WF, valid="old(t).handle == 0 && old(t).host_values.is_none() && old(t).size() <= 0x8000_0000",
  ens="allocated(old(t), final(t), old(m), final(m)), t_wf(final(t), final(m)), final(t).owns(), others(old(m), final(m))",
  start="proof { lemma_tsize(t); }", end="proof { lemma_got(old(m), m, t.dev(), t.size() as u32, t.handle); }")
M("tensor::Tensor::move_to_device", "T_move_to_device", ["t", "device"], T13, "mem w", method="M:Tensor.move_to_device", recv="w&mut",
  req=WF + ", old(m).has(device)",
  valid="old(t).host_values.is_some() && old(t).host_values.unwrap()@.len() == old(t).size() && old(t).size() <= 0x8000_0000",
  ens="moved_in(old(t), final(t), old(m), final(m), device), t_wf(final(t), final(m)), final(t).owns()",
  start="proof { lemma_tsize(t); }", end="proof { lemma_moved(old(m), m, device, t); }")
M("tensor::Tensor::refer", "T_refer", ["t", "other"], T, method="M:Tensor.refer", recv="&mut",
  valid="old(t).device == other.device && old(t).handle == 0 && other.handle != 0 && old(t).shape == other.shape && old(t).host_values.is_none()",
  ens="referred(old(t), final(t), other)")
M("tensor::Tensor::replace", "T_replace", ["t", "other"], T, "mem w", method="M:Tensor.replace", recv="w&mut",
  req=WF + ", t_wf(&other, old(m))",
  valid="old(t).device == other.device && old(t).handle == 0 && other.reference.is_none() && old(t).shape == other.shape && old(t).host_values.is_none()",
  ens="*final(m) == *old(m), replaced(old(t), final(t), &other)")
M("tensor::Tensor::update_shape", "T_update_shape", ["t", "shape"], T13, method="M:Tensor.update_shape", recv="&mut",
  req="old(t).shape.wf(), shape.wf()", valid="sz(shape.s()) == sz(old(t).shape.s())", ens="*final(t) == (TT { shape, ..*old(t) })")
M("tensor::<Tensor as Drop>::drop", "Tensor_life_drop", ["t"], T, "mem w", req=WF, valid="true",
  ens="dropped(old(t), old(m), final(m))")
M("tensor::Tensor::reset", "T_reset", ["t", "k"], T, "mem w", method="M:Tensor.reset", recv="w&mut",
  req=WF + ", old(t).handle != 0", valid="true",
  ens="*final(t) == *old(t), wrote(old(m), final(m), old(t).dev(), old(t).handle, Seq::new(old(t).size(), |i: int| k.v()))")
M("device::Device::reset_tensor", "D_reset_tensor", ["d", "t", "k"], T, "mem w", method="M:Device.reset_tensor", recv="w",
  req=WF + ", old(t).handle != 0, old(t).device == Some(d)", valid="true",
  ens="*final(t) == *old(t), wrote(old(m), final(m), d, old(t).handle, Seq::new(old(t).size(), |i: int| k.v()))")
M("device::Device::reset_tensor_by_slice", "D_reset_by_slice", ["d", "t", "values"], T13, "mem w", method="M:Device.reset_tensor_by_slice", recv="w",
  req=WF + ", old(t).handle != 0, old(t).device == Some(d)", valid="values@.len() == old(t).size()",
  ens="*final(t) == *old(t), wrote(old(m), final(m), d, old(t).handle, rseq(values@))")
M("device::Device::reset_tensor_by_tensor", "D_reset_by_tensor", ["d", "t", "source"], T, "mem w", method="M:Device.reset_tensor_by_tensor", recv="w",
  req=WF + ", t_wf(source, old(m)), old(t).device == Some(d)", valid="old(t).handle != 0 && source.handle != 0 && source.size() == old(t).size()",
  ens="*final(t) == *old(t), wrote(old(m), final(m), d, old(t).handle, vals(source, old(m)))")
M("device::Device::tensor_to_vector", "D_to_vector", ["d", "t"], T13, "mem w&", method="M:Device.tensor_to_vector", recv="w",
  req="m.wf(), t_wf(t, m), t.handle != 0", valid="true", ens="rseq(r@) == vals(t, m)")
M("device::Device::new_tensor", "D_new_tensor", ["d", "shape"], T, method="M:Device.new_tensor",
  ens="r == (TT { device: Some(d), shape, handle: 0, host_values: None, reference: None })")

for _n in ("ResetTensorImpl", "ResetTensorBySliceImpl", "ResetTensorByTensorImpl", "TensorToVectorImpl"):
    L("mk_" + _n, path="M:mk_" + _n, ok=True)

# ---- tensors made by a device
MADE = "made(old(m), final(m), d, shape, &r), t_wf(&r, final(m)), r.owns()"
M("device::Device::new_tensor_by_constant", "D_new_by_constant", ["d", "shape", "k"], T, "mem w", method="M:Device.new_tensor_by_constant", recv="w",
  req="old(m).wf(), old(m).has(d), shape.wf()", valid="sz(shape.s()) <= 0x8000_0000",
  ens=MADE + ", vals(&r, final(m)) == Seq::new(r.size(), |i: int| k.v())",
  end="proof { lemma_moved(old(m), m, d, &ret_); }")
M("device::Device::new_tensor_by_slice", "D_new_by_slice", ["d", "shape", "values"], T13, "mem w", method="M:Device.new_tensor_by_slice", recv="w",
  req="old(m).wf(), old(m).has(d), shape.wf()", valid="sz(shape.s()) <= 0x8000_0000 && values@.len() == sz(shape.s())",
  ens=MADE + ", vals(&r, final(m)) == rseq(values@)",
  end="proof { lemma_moved(old(m), m, d, &ret_); }")
M("device::Device::copy_tensor", "D_copy_tensor", ["d", "source"], T, "mem w", method="M:Device.copy_tensor", recv="w",
  req="old(m).wf(), old(m).has(d), t_wf(source, old(m))", valid="source.handle != 0 && source.size() <= 0x8000_0000",
  ens="made(old(m), final(m), d, source.shape, &r), t_wf(&r, final(m)), r.owns(), vals(&r, final(m)) == vals(source, old(m))",
  start="proof { lemma_tsize(source); }",
  end="proof { lemma_moved(old(m), m, d, &ret_); }")
M("tensor::<Tensor as From<&Tensor>>::from", "T_from_ref", ["item"], T,
  req="item.shape.wf()", valid="item.device.is_some() && item.handle != 0",
  ens="referred(&TT { device: item.device, shape: item.shape, handle: 0, host_values: None, reference: None }, &r, item)")
M("device::Device::tensor_to_float", "D_to_float", ["d", "t"], T, "mem w&", method="M:Device.tensor_to_float", recv="w",
  req="m.wf(), t_wf(t, m), t.handle != 0", valid="t.size() == 1", ens="r.v() == vals(t, m)[0]")

# ---- parameters
ST("MParam", [["value", "TT"], ["gradient", "TT"], ["stats", "StatMap"]],
   types={"Tensor<'dev>": "TT", "HashMap<String,RefCell<Tensor<'dev>>>": "StatMap"}, path="Parameter")
PR = ["C13", "C14"]
M("parameter::Parameter::new", "MP_new", ["value", "gradient"], PR, path="M:Parameter::new",
  req="value.shape.wf(), gradient.shape.wf()", valid="value.shape.s().b == 1 && gradient.shape.s().b == 1",
  ens="r.value == value, r.gradient == gradient, r.stats.items@.len() == 0")
M("parameter::<Parameter as Deref>::deref", "MP_deref", ["p"], T, ens="r == p.value")
M("parameter::Parameter::shape", "MP_shape", ["p"], T, method="M:Parameter.shape", ens="r == p.value.shape")
M("parameter::Parameter::has_stat", "MP_has_stat", ["p", "name"], T, method="M:Parameter.has_stat", ens="r == p.stats.has(name)")
M("parameter::Parameter::reset_gradient", "MP_reset_gradient", ["p"], T, "mem w", method="M:Parameter.reset_gradient", recv="w&mut",
  req="old(m).wf(), p_wf(old(p), old(m)), old(p).gradient.handle != 0", valid="true",
  ens="*final(p) == *old(p), wrote(old(m), final(m), old(p).gradient.dev(), old(p).gradient.handle, Seq::new(old(p).gradient.size(), |i: int| 0real))")
M("tensor::<Tensor as From<&mutParameter>>::from", "T_from_param", ["item"], T, "mem w",
  req="old(m).wf(), p_wf(old(item), old(m))", valid="old(item).value.handle != 0 && old(item).value.size() <= 0x8000_0000",
  ens="*final(item) == *old(item), made(old(m), final(m), old(item).value.dev(), old(item).value.shape, &r), vals(&r, final(m)) == vals(&old(item).value, old(m))")
M("parameter::Parameter::move_to_device", "MP_move_to_device", ["p", "device"], PR, "mem w", method="M:Parameter.move_to_device", recv="w&mut",
  req="old(m).wf(), p_wf(old(p), old(m)), old(m).has(device)", valid="p_hosted(old(p))",
  ens="final(m).wf(), p_onto(old(p), final(p), old(m), final(m), device), others(old(m), final(m)), but_dev(old(m), final(m), device)",
  inv={0: """m.wf(), st0 == 0, en0 == old(p).stats.items@.len(), p_wf(old(p), old(m)), others(old(m), m), but_dev(old(m), m, device), old(m).has(device),
     old(m).owned(device).subset_of(m.owned(device)),
     hosted(&old(p).value), hosted(&old(p).gradient), forall|i: int| 0 <= i < it0 ==> hosted(&(#[trigger] old(p).stats.items@[i]).1),
     onto(&old(p).value, &p.value, old(m), m, device), onto(&old(p).gradient, &p.gradient, old(m), m, device), p.value.handle != p.gradient.handle,
     stats_onto(old(p), p, old(m), m, device, it0 as int),
     forall|i: int| it0 <= i < en0 ==> #[trigger] p.stats.items@[i] == old(p).stats.items@[i]"""},
  head={0: "let ghost m0_ = *m; proof { assert(p.stats.items@[it0 as int] == old(p).stats.items@[it0 as int]); assert(t_wf(&old(p).stats.items@[it0 as int].1, old(m))); }"})
M("parameter::Parameter::add_stat", "MP_add_stat", ["p", "name", "shape"], PR, "mem w", method="M:Parameter.add_stat", recv="w&mut",
  req="old(m).wf(), p_wf(old(p), old(m)), shape.wf()", valid="!old(p).stats.has(name) && old(p).value.device.is_some() && sz(shape.s()) <= 0x8000_0000",
  ens="""final(p).value == old(p).value, final(p).gradient == old(p).gradient, p_wf(final(p), final(m)), final(p).stats.items@.len() == old(p).stats.items@.len() + 1,
     final(p).stats.items@.drop_last() == old(p).stats.items@, final(p).stats.items@.last().0 == name,
     made(old(m), final(m), old(p).value.dev(), shape, &final(p).stats.items@.last().1)""",
  end="proof { assert(p.stats.items@.drop_last() =~= old(p).stats.items@); }")
IN = dict(req="old(m).wf(), t_wf(old(x), old(m))", ens="filled(old(m), final(m), old(x), final(x))")
for _n in ("RandomUniformImpl", "RandomNormalImpl", "RandomBernoulliImpl"):
    L("mk_" + _n, path="M:mk_" + _n, ok=True)
L("f_any")
for _n, _a in (("uniform", ["a", "b"]), ("normal", ["a", "b"]), ("bernoulli", ["a"])):
    M("functions::random::device::<Device as RandomDeviceFunctions>::random_" + _n, "D_random_" + _n, ["d", "shape"] + _a, T, "mem w", method="M:Device.random_" + _n, recv="w",
      req="old(m).wf(), old(m).has(d), shape.wf()", valid="sz(shape.s()) <= 0x8000_0000", ens=MADE,
      end="proof { lemma_moved(old(m), m, d, &ret_); }")
UNIN = "old(x).device.is_some() && old(x).handle == 0 && old(x).host_values.is_none() && old(x).size() <= 0x8000_0000"
for _m, _c in (("constant", "Constant"), ("normal", "Normal"), ("uniform", "Uniform"), ("xavier_uniform", "XavierUniform")):
    M("initializers::%s::<%s as Initializer>::apply" % (_m, _c), "MI_" + _m, ["k", "x"], T, "mem w", req="old(m).wf(), t_wf(old(x), old(m))",
      valid=UNIN + (" && matrix_s(old(x).shape.s())" if _c == "XavierUniform" else ""),
      ens="filled(old(m), final(m), old(x), final(x))", start="proof { lemma_tsize(x); }",
      end="proof { lemma_moved(old(m), m, old(x).dev(), x); }" if _c == "Constant" else "")
L("MInit_apply", method="M:dynInitializer.apply", recv="w", ok=True, ret="()")
M("device::Device::new_parameter", "D_new_parameter", ["d", "shape", "init"], T, "mem w", method="M:Device.new_parameter", recv="w",
  req="old(m).wf(), old(m).has(d), shape.wf()", valid="sz(shape.s()) <= 0x8000_0000 && shape.s().b == 1 && init.fits(shape)",
  ens="p_made(old(m), final(m), d, shape, &r), vals(&r.gradient, final(m)) == Seq::new(r.gradient.size(), |i: int| 0real)",
  end="proof { lemma_moved_from(old(m), m, d, &ret_.value, &ret_.gradient); }")
