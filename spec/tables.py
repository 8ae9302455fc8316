"""Contract tables: one entry per function of /repo under contract."""
FNS = {}      # emit name -> entry
ORDER = []

def F(key, emit, params, props, unit, req="", valid=None, ens="", ret="", recv=None, method=None,
      path=None, op=None, kernel=None, inv=None, pre=None, head=None, body=None, bodyend=None, post=None,
      start="", end="", lenient=False, dec=None, self_kind=None, attrs="", rlimit=None, dropdev=False, extra="",
      ops=None, sig=None, types=None, lib=False, link=None, deps=()):
    if (method or "").startswith("Device.") and (key or "").startswith("functions::") and "C14" not in props and "random" not in key:
        props = props + ["C14"]   # tensors of another device are rejected
    e = dict(key=key, emit=emit, params=params, props=props, unit=unit, req=req, valid=valid, ens=ens,
             ret=ret, recv=recv, method=method, path=path, op=op, kernel=kernel, inv=inv or {}, pre=pre or {}, head=head or {},
             body=body or {}, bodyend=bodyend or {}, post=post or {}, start=start, end=end, lenient=lenient,
             dec=dec or {}, self_kind=self_kind, attrs=attrs, rlimit=rlimit, dropdev=dropdev, extra=extra, ops=ops, sig=sig, types=types or {}, lib=lib, link=link, deps=list(deps))
    assert emit not in FNS, emit
    FNS[emit] = e
    ORDER.append(emit)
    return e

def L(emit, ret="", method=None, path=None, ops=None, ok=False, recv="&"):
    """a function of the specification library (trusted or verified there) that the extraction may call"""
    return F(None, emit, [], [], "lib", valid="true" if ok else None, ret=ret, method=method, path=path, ops=ops, recv=recv, lib=True)

STRUCTS = {}
def ST(name, fields, types=None, path=None):
    """a struct of /repo, with the field list to use when it cannot be read"""
    STRUCTS[name] = (fields, types or {}, path or name)
