#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]   decide one property of the code in /repo by symbolic execution.
check.py --setup                           build the symbolic executor and the harness once."""
import json, os, re, subprocess, sys, time, hashlib, shutil
V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
REPO = "/repo"
sys.path.insert(0, V)
from table import TABLE, BOUNDS

def env():
    e = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, text=True).stdout
        for kv in out.split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1); e[k] = v
    except OSError: pass
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None); e.pop("CARGO_ENCODED_RUSTFLAGS", None); e.pop("CARGO_TARGET_DIR", None)
    e.pop("CARGO_BUILD_TARGET_DIR", None); e.pop("RUSTC_WRAPPER", None)
    return e

def die(msg, code=2):
    print("NO-ANSWER:", msg, flush=True); sys.exit(code)

def build_symx(e):
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", B + "/symx"], cwd=V + "/symx", env=e, capture_output=True, text=True)
    if r.returncode: die("symx does not build:\n" + r.stderr[-3000:])
    return B + "/symx/release/symx"

def module_of(fn):
    for f in sorted(os.listdir(V + "/harness/src")):
        if f.startswith("h_") and re.search(r'\("%s",' % fn, open(V + "/harness/src/" + f).read()): return f[2:-3]
    die("no harness " + fn)

def build_harness(e, dp, mod):
    """the harness and the crates of /repo, from the working tree as it is now; -> (llvm ir, native binary)"""
    td = B + ("/h64" if dp else "/h32")
    e = dict(e); e["RUSTFLAGS"] = "-C no-vectorize-loops -C no-vectorize-slp -C debuginfo=1"
    deps = td + "/release/deps"
    # force the final crate to be rebuilt: the IR file must come from this very compilation
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if re.match(r"harness-.*\.ll$", f): os.remove(os.path.join(deps, f))
    if os.path.isdir(td + "/release/.fingerprint"):
        for f in os.listdir(td + "/release/.fingerprint"):
            if re.match(r"(harness|jagua-rs|lbf)-", f): shutil.rmtree(os.path.join(td + "/release/.fingerprint", f))
    cmd = ["cargo", "rustc", "--release", "--offline", "--target-dir", td, "--no-default-features", "--features", mod + (",dp" if dp else "")] + (["--config", "profile.release.package.jagua-rs.debug-assertions=true"] if mod == "pier" else []) + ["--", "--emit=llvm-ir,link"]
    r = subprocess.run(cmd, cwd=V + "/harness", env=e, capture_output=True, text=True)
    if r.returncode: die("the harness does not build against /repo:\n" + r.stderr[-6000:])
    lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("harness-") and f.endswith(".ll")]
    if len(lls) != 1: die("no LLVM IR produced")
    # keep both under a name of their own: the next module is built in the same place
    os.makedirs(B + "/out", exist_ok=True)
    base = "%s/out/%s%s" % (B, mod, "64" if dp else "")
    os.replace(lls[0], base + ".ll"); shutil.copy2(td + "/release/harness", base)
    return base + ".ll", base

def native(binary, fn, inputs, limit=120):
    try:
        r = subprocess.run([binary, fn] + [str(i) for i in inputs], capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        return dict(rc=-999, obs=[], reach=[], out="TIMEOUT", err="")
    obs = [int(l[4:]) for l in r.stdout.splitlines() if l.startswith("OBS ")]
    reach = [int(l[6:]) for l in r.stdout.splitlines() if l.startswith("REACH ")]
    return dict(rc=r.returncode, obs=obs, reach=reach, out=r.stdout[-1500:], err=r.stderr[-1500:])

def main():
    e = env()
    if sys.argv[1:2] == ["--setup"]:
        build_symx(e)
        for dp, mod in sorted({(bool(r.get("dp")), module_of(r["fn"])) for rs in TABLE.values() for r in rs}): build_harness(e, dp, mod)
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    runs = [r for r in TABLE[pid] if tier in r.get("tiers", ("quick", "thorough"))]
    symx = build_symx(e)
    built = {}
    for dp, mod in sorted({(bool(r.get("dp")), module_of(r["fn"])) for r in runs}): built[dp, mod] = build_harness(e, dp, mod)
    dbg = {k: DebugInfo(built[k][0]) for k in built}
    tb = time.time() - t0
    rdir = V + "/out/replay"; os.makedirs(rdir, exist_ok=True)
    os.makedirs(V + "/out/run", exist_ok=True)
    tot = dict(paths=0, splits=0, instructions=0, asserts=0, assert_queries=0, queries=0, sat=0, unsat=0, unknown=0, nonlinear_queries=0, solver_s=0.0)
    funcs, perrun, viol, problems, notes, validated, samples = set(), [], [], [], [], 0, []
    known = load_known(pid)
    knownhit = []
    for r in runs:
        fn, dp = r["fn"], bool(r.get("dp"))
        key = dp, module_of(fn)
        ll, binary = built[key]
        out = "%s/out/run/%s_%s.json" % (V, pid, fn)
        if os.path.exists(out): os.remove(out)
        tl = r.get("time", {}).get(tier, 240 if tier == "quick" else 3000)
        cmd = [symx, "--ll", ll, "--fn", fn, "-j", "8", "--out", out, "--time", str(tl), "--qtimeout", "60000"]
        if r.get("tiered"): cmd += ["--pin", "0" if tier == "quick" else "1"]
        cmd += r.get("args", [])
        p = subprocess.run(cmd, capture_output=True, text=True)
        if not os.path.exists(out):
            problems.append("%s: the executor gave no result (rc %d): %s" % (fn, p.returncode, p.stderr[-500:])); continue
        o = json.load(open(out))
        for k in tot: tot[k] += o[k]
        # IR names -> readable functions of the code under test
        funcs |= dbg[key].functions(o["functions"] + [fn])
        for i, v in enumerate(o["violations"]):
            kind, _, inp = v.partition(" ")
            inputs = [int(x) for x in inp.split(",") if x not in ("", "-")]
            n = native(binary, fn, inputs, 20 if kind == "endless" else 120)
            if kind == "endless":
                if n["rc"] == 0: notes.append("%s: path not decided: instruction limit on %s" % (fn, inputs)); continue
                if n["rc"] == -999: n = dict(n, rc="none: still running after 20 s")
            if n["rc"] in (0, 3, 4, 5, -999):
                problems.append("%s: solver model %s (%s) does not reproduce natively (rc %s)" % (fn, inputs, kind, n["rc"])); continue
            w = "%s %s" % (fn, ",".join(map(str, inputs)))
            k = next((k for k in known if k["harness"] == fn and match(k, inputs)), None)
            if k: knownhit.append(k); continue
            path = "%s/%s_%s_%d.json" % (rdir, pid, fn, i)
            json.dump(dict(property=pid, harness=fn, inputs=inputs, kind=kind, exit=n["rc"], stdout=n["out"], stderr=n["err"],
                           replay="%s %s %s" % (binary, fn, " ".join(map(str, inputs)))), open(path, "w"), indent=1)
            viol.append((path, w, kind, n))
            if kind == "endless": break
        for t in o["traces"]:
            inp, obs, reach = t.split(" ")
            pl = lambda s: [] if s == "-" else [int(x) for x in s.split(",")]
            n = native(binary, fn, pl(inp))
            if n["rc"] == 0 and n["obs"] == pl(obs) and n["reach"] == pl(reach): validated += 1
            else: problems.append("%s: symbolic path and native run disagree on %s: obs %s vs %s, reach %s vs %s, rc %s" % (fn, inp, obs, n["obs"], reach, n["reach"], n["rc"]))
            if len(samples) < 8 and (len(samples) == 0 or samples[-1]["harness"] != fn): samples.append(dict(harness=fn, inputs=pl(inp), observed=n["obs"]))
        want = r.get("reach", [])
        missing = [m for m in want if str(m) not in o["reach"]]
        if missing and o["complete"] and not o["violations"]: problems.append("%s: markers %s were not reached (vacuous)" % (fn, missing))
        for er in o["errors"]: notes.append("%s: path not decided: %s" % (fn, er[:300]))
        if o["unknown"]: notes.append("%s: %d queries undecided by the solver" % (fn, o["unknown"]))
        if not o["complete"]: notes.append("%s: exploration stopped before all paths were covered" % fn)
        undec = len(o["errors"]) + sum(v.startswith("endless") for v in o["violations"]) * (not viol)
        if undec and o["paths"] < 5 * undec: problems.append("%s: %d undecided paths against %d decided: %s" % (fn, undec, o["paths"], (o["errors"] + ["instruction limit"])[0][:300]))
        perrun.append(dict(harness=fn, precision="f64" if dp else "f32", bounds=BOUNDS.get(fn, ""), complete=o["complete"], paths=o["paths"], queries=o["queries"], assertions=o["asserts"], assertion_queries=o["assert_queries"], unknown=o["unknown"], reach=o["reach"], solver_s=o["solver_s"], wall_s=o["wall_s"]))
        print("%-16s %-10s paths %7d  queries %7d  asserts %8d  solver %7.1fs  wall %6.1fs%s" % (fn, "complete" if o["complete"] else "PARTIAL", o["paths"], o["queries"], o["asserts"], o["solver_s"], o["wall_s"], "  VIOLATIONS %d" % len(o["violations"]) if o["violations"] else ""), flush=True)
        if viol and tier == "quick": break
    exhaustive = all(p["complete"] and not p["unknown"] for p in perrun) and len(perrun) == len(runs)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0), level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(viol),
        coverage=dict(states=tot["paths"], transitions=tot["splits"], traces_validated_against_impl=validated, samples=samples, exhaustive=exhaustive,
            ir_instructions=tot["instructions"], assertions=tot["asserts"], assertion_queries=tot["assert_queries"], solver_queries=tot["queries"], solver_sat=tot["sat"], solver_unsat=tot["unsat"], solver_unknown=tot["unknown"],
            solver_seconds=round(tot["solver_s"], 2), build_seconds=round(tb, 2), runs=perrun, functions_encoded=sorted(funcs), undecided=notes),
        assumptions=["states = symbolic paths explored to the end, transitions = symbolic branch splits; every value inside the stated bounds is covered by one of the paths when exhaustive is true",
            "integer-valued inputs within the listed bounds; the shapes and scenes named in the harness; floating point encoded exactly where the value is provably an exact (dyadic) rational, rounding modelled as documented in DESIGN.md",
            "rayon replaced by a sequential stand-in; memory allocation always succeeds; rustc 1.99.1 with the harness' release profile"])
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    for n in notes[:6]: print("NOTE:", n)
    for k in {k["what"] for k in knownhit}: print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for path, w, kind, n in viol: print("violated: %s (%s) -> native exit %s %s" % (w, kind, n["rc"], (n["err"].strip().splitlines() or [""])[0][:200]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, viol[0][0]), flush=True); return 1
    if problems:
        for p in problems[:10]: print("PROBLEM:", p)
        return 2
    print("held: %s %s, %d paths, %d queries, %.1fs" % (pid, tier, tot["paths"], tot["queries"], time.time() - t0))
    return 0

class DebugInfo:
    """which functions of /repo were compiled (inlining included) into which IR function"""
    def __init__(self, ll):
        self.body, self.sub, self.loc, self.parent, self.file = {}, {}, {}, {}, {}
        cur = None
        for l in open(ll, errors="replace"):
            c = l[:1]
            if c == "d" and l.startswith("define"):
                m = re.search(r"@([A-Za-z0-9_.$]+|\"[^\"]+\")\(", l); cur = set(); self.body[m.group(1).strip('"')] = cur
                cur.update(re.findall(r"!dbg !(\d+)", l))
            elif c == "}": cur = None
            elif cur is not None:
                i = l.rfind("!dbg !")
                if i >= 0: cur.add(re.match(r"\d+", l[i + 6:]).group())
            elif c == "!":
                m = re.match(r"!(\d+) = (?:distinct )?!(DI\w+)\((.*)\)", l)
                if not m: continue
                i, k, r = m.groups()
                if k == "DILocation":
                    self.loc[i] = (re.search(r"scope: !(\d+)", r).group(1), (re.search(r"inlinedAt: !(\d+)", r) or [None, None])[1])
                elif k == "DISubprogram":
                    f = re.search(r"file: !(\d+)", r)
                    self.sub[i] = (re.search(r'name: "([^"]*)"', r).group(1), f and f.group(1))
                elif k.startswith("DILexicalBlock"): self.parent[i] = re.search(r"scope: !(\d+)", r).group(1)
                elif k == "DIFile": self.file[i] = re.search(r'filename: "([^"]*)"', r).group(1) + " " + (re.search(r'directory: "([^"]*)"', r) or [0, ""])[1]
    def functions(self, names):
        out = set()
        for n in names:
            todo, seen = list(self.body.get(n, ())), set()
            while todo:
                x = todo.pop()
                if x in seen: continue
                seen.add(x)
                sc = x
                if x in self.loc:
                    sc, at = self.loc[x]
                    if at: todo.append(at)
                while sc in self.parent: sc = self.parent[sc]
                if sc in self.sub:
                    nm, f = self.sub[sc]
                    fn = self.file.get(f, "")
                    m = re.search(r"((?:jagua-rs|lbf)/src/\S+|(?:^|/)src/\S+)", fn)
                    if ("/repo/" in fn) and m: out.add(m.group(1).lstrip("/") + "::" + nm)
        return out

def load_known(pid):
    f = V + "/known_findings.json"
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f)).get("open", []) if k["property"] == pid]
def match(k, inputs):
    return any(list(i) == inputs for i in k.get("inputs", [])) or ("prefix" in k and inputs[:len(k["prefix"])] == k["prefix"])

if __name__ == "__main__":
    sys.exit(main())
