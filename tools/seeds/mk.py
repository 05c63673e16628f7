"""writes /verif/seeded/<id>/ from defs.py; `mk.py confirm [ids]` confirms each in a scratch copy; `mk.py check [ids]` runs the checks"""
import json, os, shutil, subprocess, sys, time
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H))
sys.path.insert(0, H)
from defs import SEEDS
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def write(s):
    d = f"{V}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
    wt = "/tmp/mkpatch"; shutil.rmtree(wt, ignore_errors=True); os.makedirs(wt)
    files = sorted({f for f, _, _ in s["edits"]})
    sh(f"git init -q {wt}")
    for f in files:
        os.makedirs(os.path.dirname(f"{wt}/{f}"), exist_ok=True)
        open(f"{wt}/{f}", "w").write(sh(f"git -C /repo show HEAD:{f}").stdout)
    sh("git add -A", cwd=wt)
    for f, a, b in s["edits"]:
        t = open(f"{wt}/{f}").read()
        if t.count(a) != 1: raise SystemExit(f"{s['id']}: {t.count(a)} matches in {f}: {a}")
        open(f"{wt}/{f}", "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=wt).stdout)
    shutil.rmtree(wt)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.rs", "w").write(s["demo"])
    for f in ("prelude.rs", "demo.sh", "demo.lock"): shutil.copy(f"{H}/{f}", d)
    os.chmod(d + "/demo.sh", 0o755)
def confirm(s, wt="/tmp/wt"):
    d = f"{V}/seeded/{s['id']}"
    sh("git checkout -q -- .", cwd=wt)
    r0 = sh(f"bash {d}/demo.sh", cwd=wt)
    a = sh(f"git apply {d}/patch.diff", cwd=wt)
    if a.returncode: print(s["id"], "DOES NOT APPLY", a.stderr); return
    n = 0; out = ""
    for c in ("jagua-rs", "lbf"):
        r = sh(f". /opt/vp/env.sh; cargo test --offline -- --test-threads 8", cwd=f"{wt}/{c}"); out += r.stdout + r.stderr
        n += r.stdout.count("... ok"); bad = r.returncode
        if bad: break
    r1 = sh(f"bash {d}/demo.sh", cwd=wt)
    sh("git checkout -q -- .", cwd=wt)
    ok = r0.returncode == 0 and r1.returncode not in (0, 124) and n == 11 and not bad
    print(s["id"], "CONFIRMED" if ok else "NOT", f"clean={r0.returncode} patched={r1.returncode} tests={n}", (r1.stderr.strip().splitlines() or [""])[-1][:150], flush=True)
    if not ok: print((r0.stderr[-1500:] if r0.returncode else ""), "\n--\n", out[-1500:] if bad else "", r1.stderr[-1500:])
def check(s):
    d = f"{V}/seeded/{s['id']}"
    assert sh("git -C /repo status --porcelain").stdout == ""
    sh(f"git -C /repo apply {d}/patch.diff")
    t = time.time()
    try: r = sh(f"python3 check.py {s['property']} quick", cwd=V)
    finally: sh("git -C /repo checkout -q -- .")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(s["id"], s["property"], f"rc={r.returncode}", "CAUGHT" if r.returncode == 1 and v else "MISSED", f"{time.time()-t:.0f}s", flush=True)
    open(f"/tmp/seed_{s['id']}.log", "w").write(r.stdout + r.stderr)
if __name__ == "__main__":
    ids = sys.argv[2:]; sel = [s for s in SEEDS if not ids or s["id"] in ids]
    for s in sel:
        if sys.argv[1] == "write": write(s)
        elif sys.argv[1] == "confirm": write(s); confirm(s)
        elif sys.argv[1] == "check": check(s)
