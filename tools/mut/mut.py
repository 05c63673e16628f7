#!/usr/bin/env python3
"""mutation campaign against scratch copies of /repo: which small changes does no harness notice?
mut.py list [regex]            count the mutants per file
mut.py run N SEED [regex]      N random mutants (of files matching regex), 4 at a time; results in /tmp/mut/res.jsonl
mut.py edits FILE [regex]      the edits (name, properties, [(file, old, new)]) listed in FILE, each against the properties named"""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time
V = "/verif"; sys.path.insert(0, V)
from table import TABLE
import check
W = int(os.environ.get("MUT_W", "4")); J = os.environ.get("MUT_J", "2")
MAP = [
 (r"cd_engine", "C04 C03 C01 C05 C06 C02"), (r"quadtree/", "C04 C03 C06 C01"), (r"hpg/", "C12 C07 C08 C24"),
 (r"hazard(_filter)?\.rs", "C05 C04 C07"), (r"primitives/circle", "C09 C11 C14 C15"), (r"primitives/edge", "C09 C11 C14"),
 (r"primitives/aa_rect", "C12 C09 C11 C14"), (r"primitives/point", "C09 C14 C11"), (r"primitives/simple_poly", "C10 C14 C11 C15"),
 (r"transformation", "C13 C14"), (r"convex_hull", "C16 C15"), (r"fail_fast/poi", "C15"), (r"fail_fast/piers", "C02"), (r"sp_surrogate", "C14 C15 C02"),
 (r"fpa", "C09 C10 C01"), (r"entities/layout|placed_item", "C04 C20 C07"), (r"entities/item|quality_zone", "C05 C08 C21"), (r"entities/bin\.rs", "C05 C21 C01 C07 C19"),
 (r"instances/|placing_option", "C18 C19 C21 C22"), (r"problems/|entities/solution", "C18 C19 C20 C22"), (r"simplification", "C17"), (r"jagua-rs/src/io|util/mod", "C21 C22 C17"),
 (r"lbf/src/(lbf_|sampl)", "C23 C24 C90"),
]
SKIP = re.compile(r"^\s*(//|#\[|use |pub use|log::|info!|debug!|warn!|error!|trace!|log!|debug_assert|assert|panic!|unreachable!|unimplemented!|fn |pub fn |impl|mod |pub mod|pub struct|struct|pub enum|enum|pub trait|trait|\}|write!|\)|\.expect)")
OPS = [
 (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
 (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"::min\(", "::max("), (r"::max\(", "::min("), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"\.all\(", ".any("), (r"\.any\(", ".all("),
 (r"x_min", "x_max"), (r"x_max", "x_min"), (r"y_min", "y_max"), (r"y_max", "y_min"), (r"\.0\b(?!\.)", ".1"), (r"\.1\b(?!\.)", ".0"), (r"\.start\b", ".end"), (r"\.end\b", ".start"),
 (r"Interior", "Exterior"), (r"Exterior", "Interior"), (r"\b0\.0\b", "1.0"), (r"\b2\.0\b", "1.0"), (r"\b1\.0\b", "2.0"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"),
 (r"if !", "if "), (r"\(!", "("), (r"\bif (?!let)(?=[a-z])", "if !"), (r"width", "height"), (r"height", "width"), (r"\.\.=", ".."), (r"min_by", "max_by"), (r"max_by", "min_by"), (r"&mut |\bposx\b", None),
 (r"Entire", "None"), (r"\.rev\(\)", ""), (r"\.first\(\)", ".last()"), (r"\.skip\(1\)", ""), (r"\.abs\(\)", ""), (r"\.filter\(.*\)$", ""), (r"sq_distance", "distance"), (r"cos\(\)", "sin()"), (r"sin\(\)", "cos()"), (r"None", "Some(0)"),
]
def mutants(pat):
    out = []
    files = subprocess.run(["git", "ls-files", "jagua-rs/src/*.rs", "lbf/src/*.rs"], cwd="/repo", capture_output=True, text=True).stdout.split()
    for f in files:
        if not re.search(pat, f): continue
        props = next((p for r, p in MAP if re.search(r, f)), None)
        if not props or re.search(r"svg|assertions|mod\.rs$|main\.rs|cli", f) and "util/mod" not in f: continue
        L = open("/repo/" + f).read().split("\n")
        depth = None
        for i, l in enumerate(L):
            if re.search(r"impl.*\b(Display|Debug|Hash)\b", l): depth = len(l) - len(l.lstrip())
            if depth is not None:
                if l == " " * depth + "}": depth = None
                continue
            if SKIP.match(l) or not l.strip(): continue
            c = l.split("//")[0]
            for k, (a, b) in enumerate(OPS):
                if b is None: continue
                for m in re.finditer(a, c):
                    if re.search(r"['\"]", c[:m.start()]) and c[:m.start()].count('"') % 2: continue
                    n = c[:m.start()] + b + c[m.end():]
                    out.append((f, i, l, n, props))
            s = c.strip()
            if re.match(r"(self|[a-z_]+)[\w.]*(\(.*\)| [+\-*]?= .*);$", s) and not s.startswith(("let", "return", "break", "continue", "type")): out.append((f, i, l, "", props))
    return out
def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)
class Worker:
    def __init__(s, k):
        s.d = "/tmp/mut/%d" % k
        os.makedirs(s.d, exist_ok=True)
        if not os.path.exists(s.d + "/repo"): sh(["git", "clone", "-q", "/repo", s.d + "/repo"]); [shutil.copy("/repo/%s/Cargo.lock" % c, s.d + "/repo/%s/Cargo.lock" % c) for c in ("lbf", "jagua-rs") if os.path.exists("/repo/%s/Cargo.lock" % c)]
        sh(["git", "-C", s.d + "/repo", "fetch", "-q"]); sh(["git", "-C", s.d + "/repo", "reset", "-q", "--hard", "origin/HEAD"])
        for x in ("harness", "shims"):
            shutil.rmtree(s.d + "/" + x, ignore_errors=True); shutil.copytree(V + "/" + x, s.d + "/" + x)
        t = open(s.d + "/harness/Cargo.toml").read().replace("/repo/", s.d + "/repo/")
        open(s.d + "/harness/Cargo.toml", "w").write(t)
        s.e = check.env(); s.e["RUSTFLAGS"] = "-C no-vectorize-loops -C no-vectorize-slp -C debuginfo=1"; s.e["CARGO_BUILD_JOBS"] = "2"
        s.mods = {}
    def build(s, mod):
        td = s.d + "/t"; deps = td + "/release/deps"
        if os.path.isdir(deps):
            for f in os.listdir(deps):
                if re.match(r"harness-.*\.ll$", f): os.remove(os.path.join(deps, f))
        r = sh(["cargo", "rustc", "--release", "--offline", "--target-dir", td, "--no-default-features", "--features", mod] + (["--config", "profile.release.package.jagua-rs.debug-assertions=true"] if mod == "pier" else []) + ["--", "--emit=llvm-ir"], cwd=s.d + "/harness", env=s.e)
        if r.returncode: return None
        l = [deps + "/" + f for f in os.listdir(deps) if f.startswith("harness-") and f.endswith(".ll")]
        if not l: # nothing changed
            sh(["touch", s.d + "/harness/src/main.rs"]); return s.build(mod)
        os.replace(l[0], s.d + "/" + mod + ".ll"); return s.d + "/" + mod + ".ll"
    def run(s, mt):
        props = mt[4]; undo = s.apply(mt)
        t0 = time.time(); res = "SURVIVED"; by = ""
        try:
            built = {}
            for pid in props.split():
                for r in TABLE[pid]:
                    if "quick" not in r.get("tiers", ("quick",)): continue
                    m = check.module_of(r["fn"])
                    if m not in built: built[m] = s.build(m)
                    if built[m] is None: res = "NOBUILD"; return res, by, time.time() - t0
                    o = s.d + "/o.json"
                    if os.path.exists(o): os.remove(o)
                    c = ["/tmp/st/release/symx", "--ll", built[m], "--fn", r["fn"], "-j", J, "--out", o, "--time", "240", "--qtimeout", "60000", "--maxviol", "1"] + (["--pin", "0"] if r.get("tiered") else []) + r.get("args", [])
                    sh(c)
                    if not os.path.exists(o): res = "NORESULT"; by = r["fn"]; return res, by, time.time() - t0
                    j = json.load(open(o))
                    if j["violations"]: res = "KILLED"; by = pid + " " + r["fn"] + " " + j["violations"][0][:60]; return res, by, time.time() - t0
                    if j["errors"]: by += " ERR:" + r["fn"] + ":" + j["errors"][0][:100]
                    if not j["complete"]: by += " INCOMPLETE:" + r["fn"]
                    if j["complete"] and [x for x in r["reach"] if str(x) not in j["reach"]]: by += " VACUOUS:" + r["fn"]
            return res, by, time.time() - t0
        finally: undo()
    def apply(s, mt):
        """a mutant (file, line index, old line, new line, properties) or an edit (name, -1, [(file, old, new)], "", properties)"""
        f, i, old, new, props = mt
        eds = old if i < 0 else [(f, None, None)]
        src = {x: open(s.d + "/repo/" + x).read() for x, _, _ in eds}
        cur = dict(src)
        for x, a, b in eds:
            if i >= 0: L = cur[x].split("\n"); assert L[i] == old; L[i] = new; cur[x] = "\n".join(L)
            else: assert cur[x].count(a) == 1, (f, cur[x].count(a), a); cur[x] = cur[x].replace(a, b)
        for x in cur: open(s.d + "/repo/" + x, "w").write(cur[x])
        return lambda: [open(s.d + "/repo/" + x, "w").write(src[x]) for x in src]
    def tests(s, mt):
        undo = s.apply(mt)
        e = dict(s.e); e.pop("RUSTFLAGS")
        try:
            r = sh(["cargo", "test", "--offline", "--target-dir", s.d + "/tt"], cwd=s.d + "/repo/lbf", env=e)
            return "tests fail" if r.returncode else "tests pass"
        finally: undo()
if __name__ == "__main__":
    a = sys.argv
    if a[1] == "list":
        from collections import Counter
        for k, v in Counter(m[0] for m in mutants(a[2] if len(a) > 2 else ".")).items(): print(v, k)
    elif a[1] in ("run", "edits"):
        ms = mutants(a[4] if len(a) > 4 else ".") if a[1] == "run" else []; random.Random(int(a[3]) if a[1] == "run" else 0).shuffle(ms)
        byf = {}
        for m in ms: byf.setdefault(m[0], []).append(m)
        pick = []
        while a[1] == "run" and len(pick) < int(a[2]) and any(byf.values()):   # round robin weighted by the square root of the count
            for f in list(byf):
                for _ in range(max(1, int(len(byf[f]) ** 0.5) // 4)):
                    if byf[f]: pick.append(byf[f].pop())
        if a[1] == "run": pick = pick[:int(a[2])]
        random.Random(1).shuffle(pick)
        if a[1] == "edits":
            g = {}; exec(open(a[2]).read(), g)
            pick = [(n, -1, eds, "", pr) for n, pr, eds in g["EDITS"] if len(a) < 4 or re.search(a[3], n)]
        done = set()
        if os.path.exists("/tmp/mut/res.jsonl"): done = {(x["f"], x["i"], x["new"]) for x in map(json.loads, open("/tmp/mut/res.jsonl"))}
        q = queue.Queue(); [q.put(m) for m in pick if (m[0], m[1] + 1, m[3].strip()) not in done]
        lock = threading.Lock(); os.makedirs("/tmp/mut", exist_ok=True)
        def work(k):
            w = Worker(k)
            while not os.path.exists("/tmp/mut/stop"):
                try: m = q.get_nowait()
                except queue.Empty: return
                try: r, by, t = w.run(m)
                except Exception as ex: r, by, t = "EXC", repr(ex), 0
                if r == "SURVIVED":
                    tt = w.tests(m); by = tt + by
                with lock:
                    open("/tmp/mut/res.jsonl", "a").write(json.dumps(dict(f=m[0], i=m[1] + 1, old=str(m[2]).strip(), new=m[3].strip(), res=r, by=by, t=round(t))) + "\n")
                    print("%-9s %s:%d  %s  ->  %s   [%s] %ds" % (r, m[0], m[1] + 1, str(m[2]).strip()[:90] if m[1] >= 0 else "", m[3].strip()[:90], by[:120], t), flush=True)
        th = [threading.Thread(target=work, args=(k,)) for k in range(int(os.environ.get("MUT_K", "0")), int(os.environ.get("MUT_K", "0")) + W)]
        [t.start() for t in th]; [t.join() for t in th]
