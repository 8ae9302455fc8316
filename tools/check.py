#!/usr/bin/env python3
"""Decides one property: check.py <id> [quick|thorough]

1. extracts the functions under contract from /repo's current source and lets Verus discharge
   every obligation of the functions the property depends on;
2. runs the bounded stand-in (harness) for what is not under contract, and, when an
   obligation fails, searches with it for a failing input of the real code.
"""
import json, os, re, subprocess, sys, threading, time, hashlib, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import prove
from claims import CLAIMS
VERIF, BUILD = prove.VERIF, prove.BUILD
HB = os.path.join(BUILD, "harness")
VH = os.path.join(HB, "release", "vh")

def build_harness():
    prove.fresh(HB, os.path.join(VERIF, "harness"))
    r = prove.sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "harness"),
                 env=dict(os.environ, CARGO_TARGET_DIR=HB))
    return None if r.returncode == 0 else r.stderr[-3000:]

class Run:
    """one process of the harness"""
    def __init__(self, pid, seed, ms, trace=False):
        self.args = [VH, pid, str(seed), str(ms)]
        self.seed, self.ms, self.trace, self.pid = seed, ms, trace, pid
        env = dict(os.environ)
        env.pop("VH_TRACE", None)
        if trace: env["VH_TRACE"] = "1"
        self.log = os.path.join(BUILD, "run-%s-%d-%d%s.txt" % (pid, os.getpid(), seed, "t" if trace else ""))
        self.f = open(self.log, "w")
        self.t = time.time()
        self.p = subprocess.Popen(self.args, stdout=self.f, stderr=subprocess.STDOUT, env=env)
    def wait(self, grace):
        """(verdict, text): ok / fail / crash / hang"""
        try:
            rc = self.p.wait(timeout=max(1, self.ms / 1000 + grace - (time.time() - self.t)))
        except subprocess.TimeoutExpired:
            self.p.kill(); self.p.wait(); rc = "hang"
        self.f.close()
        with open(self.log, "rb") as f:
            f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 20000)); txt = f.read().decode("utf8", "replace")
        os.unlink(self.log)
        last = txt.strip().split("\n")[-1] if txt.strip() else ""
        if rc == 0 and last.startswith("OK"):
            return "ok", last
        if rc == 1 and "FAIL" in txt:
            return "fail", txt[txt.rindex("FAIL"):]
        if rc == "hang":
            return "hang", last
        return "crash", "exit %s: %s" % (rc, last)

def harness(pid, seeds, ms, grace=90):
    """(cases, None) or (cases, failing input)"""
    runs = [Run(pid, s, ms) for s in seeds]
    cases, bad = 0, None
    for r in runs:
        v, t = r.wait(grace)
        if v == "ok":
            cases += int(t.split()[1])
        elif bad is None:
            bad = (r, v, t)
    if bad is None:
        return cases, None
    r, v, t = bad
    cmd = "VERIF: cd /verif && python3 tools/check.py --build && build/harness/release/vh %s %s %s" % (pid, r.seed, r.ms)
    if v in ("crash", "hang"):
        v2, t2 = Run(pid, r.seed, r.ms, trace=True).wait(20)
        t = "%s\n%s while running the case named in the last TRACE line of: VH_TRACE=1 %s\n%s" % (t, v, cmd, t2)
    return cases, {"kind": v, "seed": r.seed, "text": t, "cmd": cmd}

def closure(ext, names):
    todo, seen = list(names), set(names)
    while todo:
        n = todo.pop()
        ex = ext["functions"].get(prove.FNS[n]["key"] or "", {})
        for c in ex.get("calls", []) if ex.get("status") == "ok" else []:
            if c not in seen and c in prove.FNS and not prove.FNS[c]["lib"]:
                seen.add(c); todo.append(c)
    return seen

def known(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", l.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out

def main():
    if sys.argv[1] == "--build":
        e = build_harness()
        print(e or "built")
        sys.exit(1 if e else 0)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    claim = CLAIMS[pid]
    herr = []
    th = threading.Thread(target=lambda: herr.append(build_harness()))
    th.start()
    prove.DEVICES = pid == "C14"
    own = [n for n in prove.REAL if pid in prove.FNS[n]["props"]]
    st, summ, ext = {}, {}, None
    problem = None
    if own:
        try:
            ext = prove.extract(prove.REAL)
            deps = sorted(closure(ext, own) - set(own), key=prove.REAL.index)
            st, summ = prove.run(own + deps, "check-" + pid, ext=ext, timeout=400, retry=True)
            if st is None:
                problem, st = "the verifier rejected the generated unit: " + summ.get("error", "")[-1500:], {}
        except Exception as e:
            problem, deps = "extraction failed: %s" % e, []
    else:
        deps = []
    vac = []
    if own and st and not problem:
        vac = prove.vacuity([n for n in own + deps if st[n]["status"] == "proved"], "vac-" + pid, ext)
        for n in vac:
            st[n] = {"status": "lost", "msgs": ["precondition not reachable"], "skeleton_same": False, "loops": 0}
    th.join()
    herr = herr[0]
    failed = [n for n in own + deps if n in st and st[n]["status"] == "failed"]
    lost = [n for n in own + deps if n in st and st[n]["status"] == "lost"]
    # an obligation that fails although the shape of the loops its invariants are written for is unchanged
    hard = [n for n in failed if n in own and not st[n].get("rlimit") and st[n].get("skeleton_same")]
    # ---- bounded part / search for a failing input
    n_proc = min(8, os.cpu_count() or 1)
    ms = 240000 if thorough else (25000 if (failed or lost or problem) else 8000)
    cases, bad = 0, None
    if herr is None:
        cases, bad = harness(pid, [seed * 1000 + i for i in range(n_proc)], ms)
    wall = time.time() - t0
    # ---- verdict
    findings = []
    if bad:
        findings.append(("input", bad["text"]))
    elif hard:
        findings.append(("obligation", ", ".join(hard)))
    kn = known(pid)
    live = []
    for k, t in findings:
        m = next((d for (rx, d) in kn if re.search(rx, t)), None)
        if m is None:
            live.append((k, t))
    for rx, d in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    total = len(own) + len(deps)
    proved = [n for n in own + deps if n in st and st[n]["status"] == "proved"]
    cov = {
        "obligations": total if not problem else max(total, 1),
        "discharged": len(proved),
        "checker_cmd": "verus --multiple-errors 4 --num-threads 8 build/gen/check-%s/gen.rs (generated from /repo by extract/ and spec/ in this run)" % pid,
        "trusted_base": claim["trusted"],
        "functions_under_contract": own,
        "functions_of_dependencies": deps,
        "back_end": "Verus 0.2026.09.13 (Z3)",
        "verus_queries_verified": summ.get("verified", 0),
        "solver_ms": summ.get("smt_ms"),
        "vacuity": "every precondition shown reachable" if own and not vac else ("unreachable: " + ", ".join(vac) if vac else "no function under contract"),
        "not_discharged": {n: (st[n]["status"] + ": " + (st[n]["msgs"] or [""])[0][:300]) for n in failed + lost},
        "slowest_ms": sorted(((st[n].get("ms") or 0, n) for n in proved), reverse=True)[:3],
        "bounded_stand_in": {
            "what": claim["bounded"],
            "bound": "random operands: up to 8 dimensions, sizes mostly up to 160 elements (matrices up to 70x70), batches up to 5; %d processes of %d s, seeds %d.." % (n_proc, ms // 1000, seed * 1000),
            "cases": cases,
            "rule": "every case draws fresh shapes, values and parameters from the seed and is compared with an independent f64 reference",
            "unavailable": herr[-300:] if herr else None,
            "counted_as_proved": False,
        },
    }
    if problem:
        cov["problem"] = problem[:1500]
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": claim["level"], "coverage": cov,
          "assumptions": claim["assumptions"], "wall_s": round(wall, 2), "violations": len(live)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d of %d functions proved (%s), %d cases of the bounded stand-in, %.1f s" % (pid, len(proved), total,
          "; ".join("%s %s" % (n, st[n]["status"]) for n in failed + lost) or "all", cases, wall))
    if problem:
        print("note: " + problem[:300].replace("\n", " "))
    if herr:
        print("note: the harness does not build: " + herr[-300:].replace("\n", " "))
    if live:
        rp = os.path.join(BUILD, "replay", pid + ".txt")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            f.write("property %s\n" % pid)
            if bad:
                f.write("\nfailing input found by the harness on the real code\n%s\nreplay: %s\n" % (bad["text"], bad["cmd"]))
            for n in failed + lost:
                f.write("\nobligation of %s [%s]: %s\n" % (n, prove.FNS[n]["key"], st[n]["status"]))
                for m in st[n]["msgs"]:
                    f.write(m + "\n")
        print((live[0][1] if bad else "failed obligation of: " + ", ".join(hard))[:1500])
        sys.stdout.flush()
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if bad else " no-failing-input-found"))
        sys.exit(1)
    if failed or lost:
        print("note: not discharged on this source, decided by the bounded stand-in alone: " + ", ".join(failed + lost))
    sys.exit(0)

if __name__ == "__main__":
    main()
