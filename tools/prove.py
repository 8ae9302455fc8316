#!/usr/bin/env python3
"""Extraction and deductive verification of /repo's functions with Verus.

prove.run(emits, tag) -> {emit: {status, msgs, ...}}, summary
"""
from concurrent.futures import ThreadPoolExecutor
import hashlib, json, os, re, subprocess, sys, time, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, SPEC)
import tables
import importlib
for m in sorted(os.listdir(SPEC)):
    if m.startswith("c_") and m.endswith(".py"):
        importlib.import_module(m[:-3])
FNS = tables.FNS
REAL = [n for n in FNS if not FNS[n]['lib']]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def src_hash():
    h = hashlib.sha256()
    for base in ("prima_undine/src", "prima_undine_contrib/src", "prima_undine_derive/src", "prima_undine/Cargo.toml", "prima_undine_contrib/Cargo.toml", "Cargo.toml"):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            h.update(p.encode()); h.update(open(p, "rb").read())
        for r, ds, fs in sorted(os.walk(p)):
            ds.sort()
            for f in sorted(fs):
                q = os.path.join(r, f)
                h.update(q.encode()); h.update(open(q, "rb").read())
    return h.hexdigest()[:16]

def fresh(target, cwd):
    """cargo compares times, not contents: forget what was built from other sources of /repo"""
    os.makedirs(target, exist_ok=True)
    f = os.path.join(target, "src.hash")
    h = src_hash()
    if not os.path.exists(f) or open(f).read() != h:
        sh(["cargo", "clean", "--offline", "-p", "prima_undine", "-p", "prima_undine_contrib", "-p", "prima_undine_derive"], cwd=cwd, env=dict(os.environ, CARGO_TARGET_DIR=target))
        sh(["cargo", "clean", "--offline", "--release", "-p", "prima_undine", "-p", "prima_undine_contrib", "-p", "prima_undine_derive"], cwd=cwd, env=dict(os.environ, CARGO_TARGET_DIR=target))
        open(f, "w").write(h)

def build_vx():
    d = os.path.join(VERIF, "extract")
    t = os.path.join(BUILD, "vx")
    r = sh(["cargo", "build", "--release", "--offline", "-q"], cwd=d, env=dict(os.environ, CARGO_TARGET_DIR=t))
    if r.returncode != 0:
        raise RuntimeError("vx does not build: " + r.stderr[-2000:])
    return os.path.join(t, "release", "vx")

def expand():
    """rustc's own macro expansion of the two library crates"""
    h = src_hash()
    outs = []
    os.makedirs(os.path.join(BUILD, "exp"), exist_ok=True)
    for crate in ("prima_undine", "prima_undine_contrib"):
        out = os.path.join(BUILD, "exp", "%s-%s.rs" % (crate, h))
        outs.append(out)
        if os.path.exists(out):
            continue
        d = os.path.join(REPO, crate)
        fresh(os.path.join(BUILD, "exptgt"), REPO)
        r = sh(["cargo", "rustc", "--lib", "--offline", "-q", "--", "-Zunpretty=expanded"], cwd=d,
               env=dict(os.environ, RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=os.path.join(BUILD, "exptgt")))
        if r.returncode != 0 or not r.stdout.strip():
            raise RuntimeError("expansion of %s failed: %s" % (crate, r.stderr[-1500:]))
        with open(out + ".tmp", "w") as f:
            f.write(r.stdout)
        os.rename(out + ".tmp", out)
    # the derive macro is read as it is written
    out = os.path.join(BUILD, "exp", "derive-%s.rs" % h)
    if not os.path.exists(out):
        with open(out + ".tmp", "w") as f:
            f.write("pub mod derive_src {\n" + open(os.path.join(REPO, "prima_undine_derive/src/lib.rs")).read() + "\n}\n")
        os.rename(out + ".tmp", out)
    outs.append(out)
    return outs

def config(emits):
    fns, paths, methods, ops, kernels = {}, {}, {}, {}, {}
    for n, e in FNS.items():
        c = {"emit": n, "ok": e["valid"] is not None, "ret": e["ret"], "recv": e["recv"] or "&"}
        if e["path"]:
            for p in (e["path"] if isinstance(e["path"], list) else [e["path"]]):
                paths[p] = c
        if e["method"]:
            for p in (e["method"] if isinstance(e["method"], list) else [e["method"]]):
                methods[p] = c
        for o in (e["ops"] or []):
            ops[o] = c
        if e["kernel"]:
            kernels[e["kernel"]] = c
        if n in emits and e["key"] and not e["link"]:
            fns[e["key"]] = {"params": e["params"], "ok": e["valid"] is not None, "lenient": e["lenient"],
                             "kernel": "k" if e["kernel"] else None, "self_kind": e["self_kind"]}
    return {"functions": fns, "paths": paths, "methods": methods, "ops": ops, "kernels": kernels}

def extract(emits):
    vx = build_vx()
    exps = expand()
    cfgp = os.path.join(BUILD, "vx-%d.json" % os.getpid())
    json.dump(config(set(emits)), open(cfgp, "w"))
    r = sh([vx, "/dev/null", *exps][:1] + [cfgp] + exps)
    os.unlink(cfgp)
    if r.returncode != 0:
        raise RuntimeError("vx failed: " + r.stderr[-1500:])
    j = json.loads(r.stdout)
    for n, e in FNS.items():
        if e["link"]:
            j["functions"][e["key"]] = {"status": "ok", "calls": e["deps"], "loops": [], "params": [], "ret": "", "body": "", "muts": [], "skeleton": ""}
    return j

BASE = os.path.join(SPEC, "baseline.json")
def baseline():
    return json.load(open(BASE)) if os.path.exists(BASE) else {}

def subst(txt, muts):
    def rep(m):
        cls, i = m.group(1), int(m.group(2))
        l = [x["name"] for x in muts if x["class"] == cls]
        return l[i] if i < len(l) else "missing_%s%d" % (cls, i)
    def repp(m):
        base, i = m.group(1), int(m.group(2) or 0)
        l = [x["name"] for x in muts if x["class"] == "ptr" and x["base"] == base]
        return l[i] if i < len(l) else "missing_p_%s%d" % (base, i)
    if "?" in txt:
        # a clause on a line of its own that starts with ? is dropped where the code has no such local
        out = []
        for l in txt.split("\n"):
            if l.strip().startswith("?"):
                l2 = subst(l.strip()[1:], muts)
                if "missing_" in l2:
                    continue
                out.append(l2)
            else:
                out.append(l)
        txt = "\n".join(out)
    txt = re.sub(r"\$p_([a-z]+\d?)(?:_(\d))?\b", repp, txt)
    return re.sub(r"\$(int|R|ptr|bool|shape|vec|tensor|node|other|defs)(\d)", rep, txt)

def clause(kw, txt):
    txt = (txt or "").strip().rstrip(",")
    return "    %s %s,\n" % (kw, txt) if txt else ""

DEVICES = True
def devices(e, ex, always=False):
    """device functions: every tensor argument is on the device, or the call is rejected (C14)"""
    if not (DEVICES or always) or not (e.get("method") or "").startswith("Device.") or not (e["key"] or "").startswith("functions::"):
        return []
    out = []
    for p in ex["params"]:
        if p["type"] in ("&Tensor", "&mut Tensor"):
            out.append("%s.here()" % ("old(%s)" % p["name"] if "mut" in p["type"] else p["name"]))
        elif p["type"] == "&[&Tensor]":
            out.append("(forall|i_: int| 0 <= i_ < %s@.len() ==> (#[trigger] %s@[i_]).here())" % (p["name"], p["name"]))
    return out

def signature(e, ex):
    ps = ["%s: %s" % (p["name"], p["type"]) for p in ex["params"]]
    if e["valid"] is not None:
        ps.append("Ghost(ok): Ghost<bool>")
    ret = e["sig"] or ex["ret"]
    if ret.startswith("&") and e["ret"] and not e["ret"].startswith("&"):
        ret = e["ret"]
    s = "pub fn %s(%s)" % (e["emit"], ", ".join(ps))
    if ret:
        s += " -> (r: %s)" % ret
    req = e["req"]
    ens = e["ens"]
    valid = e["valid"]
    has_mut = any(p["type"].startswith("&mut") for p in ex["params"])
    out = s + "\n"
    out += clause("requires", ", ".join(x for x in [req.strip().rstrip(","), ("ok ==> (%s)" % valid) if valid else ""] if x))
    out += clause("ensures", ", ".join(x for x in [valid or ""] + devices(e, ex) + [ens.strip().rstrip(",")] if x))
    return out

def function_text(e, ex, verify):
    head = "// key: %s\n" % e["key"]
    if e["link"]:
        return head + (e["link"] if verify else "")
    if not verify:
        return head + "#[verifier::external_body]\n" + signature(e, ex) + "{ unimplemented!() }\n"
    b = ex["body"]
    muts = ex["muts"]
    if e["ret"] and not e["ret"].startswith("&") and ex["ret"].startswith("&"):
        # index(): the reference to a copied scalar is read through
        b = b.replace("let ret_ : %s =" % ex["ret"], "let ret_ : %s = *" % e["ret"]).replace("= *(", "= *(")
    for k, t in e["types"].items():
        n = subst("$" + k, muts)
        b = b.replace("let mut %s = " % n, "let mut %s: %s = " % (n, t))
    def mk(kind, d):
        nonlocal b
        for k in range(len(ex["loops"])):
            t = d.get(k, "")
            m = "/*@%s %d@*/" % (kind, k)
            b = b.replace(m, subst(t, muts))
    b = b.replace("/*@START@*/", subst(e["start"], muts)).replace("/*@END@*/", subst(e["end"], muts) + {"1": " assert(false);", "ok": " assert(!ok);" if e["valid"] is not None else ""}.get(os.environ.get("VERIF_VACUITY"), ""))
    for k, l in enumerate(ex["loops"]):
        t = subst(e["inv"].get(k, ""), muts).strip().rstrip(",")
        t = t + "," if t else ""
        if t.startswith("EXCEPT_BREAK "):
            # what holds at the loop's end also holds after a break
            a, z = t[len("EXCEPT_BREAK "):].split("ENSURES")
            mark = "/*@INV %d@*/" % k
            i = b.index(mark)
            j = b.rindex(" invariant ", 0, i)
            own = b[j + len(" invariant "):i]
            w = b.rindex("while ", 0, j)
            b = b[:w] + "#[verifier::allow_complex_invariants] " + b[w:j] + " invariant_except_break " + own + a.strip().rstrip(",") + ", ensures " + z + b[i + len(mark):]
            continue
        if l["kind"] in ("while", "loop"):
            t = ("invariant " + t if t else "")
            d = subst(e["dec"].get(k, ""), muts)
            t += (" decreases " + d) if d else ""
        b = b.replace("/*@INV %d@*/" % k, t)
    for kind, d in (("PRE", e["pre"]), ("HEAD", e["head"]), ("BODY", e["body"]), ("BODYEND", e["bodyend"]), ("POST", e["post"])):
        mk(kind, d)
    attrs = "#[verifier::loop_isolation(false)]\n" + e["attrs"]
    if e["rlimit"]:
        attrs += "#[verifier::rlimit(%d)]\n" % e["rlimit"]
    own = devices(e, ex, True)
    if own and e["valid"] is not None:
        # acceptance is claimed for tensors of the device (the callers' side is not proved)
        b = "proof { assume(ok ==> %s); }\n" % " && ".join(x.replace("old(", "(") for x in own) + b
    return head + attrs + signature(e, ex) + "{\n" + b + "\n}\n"

def struct_text(ext, name):
    fs = ext["structs"].get(name)
    tr = {"f32": "R", "f64": "R"}
    return "pub struct %s { %s }" % (name, ", ".join("pub %s: %s" % (n, tr.get(t, t.replace("MAX_DEPTHasusize", "8"))) for n, t in fs))

LIBS = ["shape_spec.rs", "tensor_spec.rs", "lib_*.rs"]
def spec_files():
    fs = ["shape_spec.rs"]
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".rs") and f not in ("prelude.rs", "shape_spec.rs"):
            fs.append(f)
    return fs

def assemble(ext, emits, drop, libverify, libs=None):
    """text of one unit; emits: functions to verify; returns (text, line map)"""
    base = baseline()
    # every file and every few functions are a module of their own: verus works on modules in parallel
    USE = "use vstd::prelude::*; use vstd::std_specs::ops::*; use vstd::std_specs::cmp::*; use core::ops::{Add, Sub, Mul, Div}; use std::collections::HashMap; use crate::*;\n"
    parts = ["#![allow(unused)]\nuse vstd::prelude::*;\npub mod prelude_ {\n" + open(os.path.join(SPEC, "prelude.rs")).read()
             + "\nverus! {\n" + struct_text_safe(ext, "Shape") + "\n}\n}\npub use prelude_::*;\n"]
    files = libs or spec_files()
    for i, f in enumerate(files):
        parts.append("pub mod lib%d_ {\n%s%s\n}\npub use lib%d_::*;\n" % (i, USE, open(os.path.join(SPEC, f)).read().replace("/*GEN*/", "\n".join(sys.modules["c_node"].GEN)), i))
    sts = "".join(unit_struct(ext, n) for n in tables.STRUCTS)
    parts.append("pub mod structs_ {\n%sverus! {\n%s}\n}\npub use structs_::*;\n" % (USE, sts))
    need = set(emits)
    # everything called by what is verified, as contracts only
    work = list(emits)
    externals = set()
    info = {}
    for n in emits:
        e = FNS[n]
        ex = ext["functions"].get(e["key"], {"status": "missing", "reason": ""})
        info[n] = ex
        if ex["status"] == "ok" and n not in drop:
            for c in ex["calls"]:
                if c not in need and not FNS[c]["lib"]:
                    externals.add(c)
    lines, lmap, cur = [], [], 0
    text = "\n".join(parts)
    cur = text.count("\n") + 1
    chunks = []
    for n in sorted(externals):
        ex = base.get(n)
        if ex is None:
            e2 = ext["functions"].get(FNS[n]["key"])
            ex = e2 if e2 and e2["status"] == "ok" else None
        if ex is None:
            ex = {"params": [], "ret": ""}
        chunks.append((n, False, function_text(FNS[n], ex, False)))
    for n in emits:
        ex = info[n]
        if ex["status"] != "ok" or n in drop:
            b = base.get(n)
            if b is None and ex["status"] == "ok":
                b = ex
            if b is not None:
                chunks.append((n, False, function_text(FNS[n], b, False)))
        else:
            chunks.append((n, True, function_text(FNS[n], ex, True)))
    text += "\n"
    vs = [c for c in chunks if c[1]]
    exts = [c for c in chunks if not c[1]]
    groups = [exts] if exts else []
    # heavy functions get a module of their own
    heavy = [c for c in vs if len(info[c[0]]["loops"]) > 0]
    light = [c for c in vs if len(info[c[0]]["loops"]) == 0]
    groups += [[c] for c in heavy] + [light[i:i + 6] for i in range(0, len(light), 6)]
    for gi, g in enumerate(groups):
        text += "pub mod g%d_ {\n%sverus! {\n" % (gi, USE)
        for n, ver, t in g:
            a = text.count("\n") + 1
            text += t
            lmap.append((a, text.count("\n") + 1, n, ver))
        text += "} // verus!\n}\npub use g%d_::*;\n" % gi
    text += "fn main() {}\n"
    return text, lmap, sorted(externals)

def unit_struct(ext, name):
    fields, types, path = tables.STRUCTS[name]
    fs = ext["structs"].get(path) or fields
    tr = {"f32": "R", "f64": "R", "Tensor<'dev>": "Tensor"}
    tr.update(types)
    if name.startswith("O_"):
        # operators: the device is dev() everywhere, references are values
        fs = [(n, re.sub(r"&'(?:arg|dev|_)(?:mut)?(?=[A-Z])|&'\w+ (?:mut )?", "", t)) for n, t in fs if "Device" not in t]
        fs = [(n, re.sub(r"^RefCell<(.*)>$", r"\1", t)) for n, t in fs]
        fs = [(n, re.sub(r"<'\w+(,'\w+)*>", "", t)) for n, t in fs]
    return "pub struct %s { %s }\n" % (name, ", ".join("pub %s: %s" % (n, tr.get(t, t)) for n, t in fs))

def struct_text_safe(ext, name):
    try:
        return struct_text(ext, name)
    except Exception:
        return "pub struct Shape { pub dims: [u32; 8], pub batch: u32, pub depth: u32, pub volume: u32 }"

def verus(path, extra=(), timeout=600, rlimit=30):
    t = time.time()
    try:
        r = sh(["verus", path, "--output-json", "--time-expanded", "--triggers-mode", "silent", "--multiple-errors", "4", "--num-threads", "8", "--rlimit", str(rlimit), *extra],
               timeout=timeout, cwd=os.path.dirname(path))
        out, err = r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return None, "timeout", time.time() - t
    try:
        j = json.loads(out[out.index("{"):])
    except Exception:
        j = None
    return j, err, time.time() - t

ERR = re.compile(r"^(error|warning|note)(\[[A-Z0-9]+\])?: (.*)$")
def parse_errors(err, fname, lmap):
    """list of (function, message, line, context)"""
    res = []
    blocks = re.split(r"\n(?=(?:error|warning|note)(?:\[[A-Z0-9]+\])?: )", "\n" + err)
    for b in blocks:
        b = b.strip("\n")
        m = ERR.match(b.split("\n")[0])
        if not m or m.group(1) != "error":
            continue
        if "aborting due to" in m.group(3) or "verification results" in m.group(3):
            continue
        locs = [int(x) for x in re.findall(r"--> [^\n]*?%s:(\d+):" % re.escape(os.path.basename(fname)), b)]
        fn = None
        ln = locs[0] if locs else None
        # every line number shown in the block; the first inside a verified function counts
        cands = locs + [int(x) for x in re.findall(r"^\s*(\d+) \|", b, re.M)]
        for c in cands:
            for a, z, n, ver in lmap:
                if a <= c < z and ver:
                    fn = n; break
            if fn: break
        res.append((fn, m.group(3), ln, b[:1500], bool(m.group(2))))
    return res

RL = ("Resource limit", "rlimit", "could not be completed", "not all errors may have been reported")
def second_opinion(n, ext, drop, libs, tag):
    d = os.path.join(BUILD, "gen", tag, n)
    os.makedirs(d, exist_ok=True)
    text, lmap, _ = assemble(ext, [n], drop, True, libs)
    m = re.findall(r"^pub mod (g\d+_) \{", text, re.M)
    m = m[1] if len(m) > 1 else m[0]
    path = os.path.join(d, "gen.rs")
    for seed in (3, 5):
        t2 = re.sub(r"#\[verifier::rlimit\(\d+\)\]\n", "", text)
        open(path, "w").write(t2)
        j, err, w = verus(path, extra=("--verify-only-module", m, "--smt-option", "smt.random_seed=%d" % seed), timeout=150, rlimit=300)
        vr = (j or {}).get("verification-results", {})
        if j and vr.get("success") and vr.get("verified", 0) >= 1 and vr.get("errors") == 0:
            return True
    return False

def run(emits, tag, ext=None, libs=None, timeout=600, retry=False):
    os.makedirs(BUILD, exist_ok=True)
    ext = ext or extract(REAL)
    drop = {}
    status = {}
    wall = 0.0
    for n in emits:
        ex = ext["functions"].get(FNS[n]["key"], {"status": "missing", "reason": "no such function"})
        if ex["status"] != "ok":
            status[n] = {"status": "lost", "msgs": [ex.get("reason", "")]}
    d = os.path.join(BUILD, "gen", tag)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "gen.rs")
    j = None
    for attempt in range(8):
        text, lmap, externals = assemble(ext, emits, drop, True, libs)
        open(path, "w").write(text)
        j, err, w = verus(path, timeout=timeout)
        wall += w
        open(os.path.join(d, "err%s.txt" % (attempt or "")), "w").write(err)
        if j is None and err == "timeout":
            break
        vr = (j or {}).get("verification-results", {})
        errs = parse_errors(err, path, lmap)
        syn = [e for e in errs if re.match(r"expected |unexpected |unmatched|this file contains|mismatched clos", e[1])]
        if syn:
            bad = sorted({e[0] for e in syn if e[0]})
            if not bad:
                return None, {"error": err[-3000:], "wall": wall}
            for n in bad:
                drop[n] = [e[1] for e in errs if e[0] == n]
                status[n] = {"status": "lost", "msgs": ["rejected by the verifier's front end: " + "; ".join(drop[n])[:500]]}
            continue
        if j is None or vr.get("encountered-vir-error") or "verified" not in vr or any(e[4] for e in errs):
            # not verification: the generated text is rejected
            coded = [e for e in errs if e[4]]
            bad = sorted({e[0] for e in (coded or errs) if e[0]})
            if not bad:
                return None, {"error": err[-3000:], "wall": wall}
            for n in bad:
                drop[n] = [e[1] for e in errs if e[0] == n]
                status[n] = {"status": "lost", "msgs": ["rejected by the verifier's front end: " + "; ".join(drop[n])[:500]]}
            continue
        break
    if j is None:
        for n in emits:
            status.setdefault(n, {"status": "lost", "msgs": ["verifier timeout"]})
        return status, {"wall": wall, "verified": 0, "errors": 0, "externals": [], "smt_ms": 0}
    vr = j["verification-results"]
    base = baseline()
    other = []
    for fn, msg, ln, ctx, code in errs:
        if fn is None:
            other.append(msg + " @" + str(ln))
            continue
        st = status.setdefault(fn, {"status": "failed", "msgs": []})
        st["msgs"].append("%s\n%s" % (msg, ctx))
        if any(x in msg for x in RL):
            st["rlimit"] = True
    # a second and third opinion on what failed: alone in its unit, other solver seed, more resources
    again = [n for n in emits if status.get(n, {}).get("status") == "failed"]
    if retry and 0 < len(again) <= 8:
        with ThreadPoolExecutor(4) as ex_:
            for n, ok_ in zip(again, ex_.map(lambda n: second_opinion(n, ext, drop, libs, tag), again)):
                if ok_:
                    status[n] = {"status": "proved", "msgs": [], "retried": True}
    fb = {}
    def walk(o):
        if isinstance(o, dict):
            if "function" in o and "time" in o:
                fb[o["function"]] = o
            for x in o.values(): walk(x)
        elif isinstance(o, list):
            for x in o: walk(x)
    walk(j.get("times-ms", {}))
    for n in emits:
        st = status.setdefault(n, {"status": "proved", "msgs": []})
        ex = ext["functions"].get(FNS[n]["key"], {})
        b = base.get(n)
        st["skeleton_same"] = bool(b and ex.get("skeleton") == b.get("skeleton"))
        st["loops"] = len(ex.get("loops", []))
        t = [v for k, v in fb.items() if k.split("::")[-1] == n]
        if t:
            st["ms"] = t[0].get("time")
            st["rl"] = t[0].get("rlimit")
    smt = j.get("times-ms", {}).get("smt", {}).get("smt-run", None)
    return status, {"wall": wall, "verified": vr.get("verified", 0), "errors": vr.get("errors", 0), "other": other,
                    "externals": externals, "smt_ms": smt, "path": path}

def vacuity(emits, tag, ext):
    """functions whose precondition (with every operand accepted) cannot be met"""
    base = dict(FNS)
    try:
        txt, lmap, _ = assemble(ext, [], {}, True)
        txt = txt[:txt.rindex("fn main() {}")]
        lm = []
        for gi in range(0, len(emits), 12):
            txt += "pub mod v%d_ {\nuse vstd::prelude::*; use crate::*;\nverus! {\n" % gi
            for n in emits[gi:gi + 12]:
                e, ex = FNS[n], ext["functions"][FNS[n]["key"]]
                a = txt.count("\n") + 1
                sig = signature(dict(e, ens="", valid=e["valid"]), ex)
                i = sig.find("\n    ensures")
                sig = sig[:i] + "\n" if i >= 0 else sig
                txt += sig + "{ %s assert(false); vstd::pervasive::unreached() }\n" % ("assume(ok);" if e["valid"] is not None else "")
                lm.append((a, txt.count("\n") + 1, n, True))
            txt += "}\n}\n"
        txt += "fn main() {}\n"
        d = os.path.join(BUILD, "gen", tag)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "gen.rs")
        open(path, "w").write(txt)
        j, err, w = verus(path, timeout=200)
        open(os.path.join(d, "err%s.txt" % (attempt or "")), "w").write(err)
        if not j or "verified" not in j.get("verification-results", {}) or j["verification-results"].get("encountered-vir-error"):
            return []
        bad = {x[0] for x in parse_errors(err, path, lm)}
        return [n for n in emits if n not in bad]
    except Exception:
        return []

def main():
    a = sys.argv[1:]
    if a and a[0] == "--baseline":
        ext = extract(REAL)
        b = {}
        for n in REAL:
            e = FNS[n]
            ex = ext["functions"].get(e["key"], {})
            if ex.get("status") == "ok":
                b[n] = {"params": ex["params"], "ret": ex["ret"], "skeleton": ex["skeleton"]}
            else:
                print("no baseline for", n, ex.get("reason"))
        json.dump(b, open(BASE, "w"), indent=0, sort_keys=True)
        return
    emits = [n for n in REAL if (not a) or n in a or FNS[n]["unit"] in a]
    st, s = run(emits, "dev" + ("-".join(a))[:40])
    if st is None:
        print(s["error"]); return
    bad = 0
    for n in emits:
        if st[n]["status"] != "proved":
            bad += 1
            print("==", n, st[n]["status"], st[n].get("rlimit", ""))
            for m in st[n]["msgs"][:3]:
                print("   ", m[:900].replace("\n", "\n    "))
    for o in s.get("other", []):
        print("OTHER:", o)
    slow = sorted(((st[n].get("ms") or 0, n) for n in emits), reverse=True)[:5]
    print("%d functions, %d not proved; verus: %s verified, %s errors; wall %.1fs; slow %s" % (len(emits), bad, s["verified"], s["errors"], s["wall"], slow))

if __name__ == "__main__":
    main()
