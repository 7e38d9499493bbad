"""mkseed.py SPEC.py — write seeded/<id>/ from a description (ID, PROP, NEEDS, BREAKS, EDITS, DEMO)."""
import sys, os, shutil, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(ID, PROP, NEEDS, BREAKS, EDITS, DEMO, FEATURES=(), EXTRA="", SCRIPT=None, FILES={}):
    d = f"{V}/seeded/{ID}"
    os.makedirs(d, exist_ok=True)
    w = f"/tmp/mkseed.{os.getpid()}"
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w, "HEAD"], check=True)
    try:
        for f, old, new in EDITS:
            p = f"{w}/{f}"
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                raise SystemExit(f"{ID}: {f}: {n} matches for {old[:60]!r}")
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w])
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": BREAKS}, open(f"{d}/meta.json", "w"), indent=1)
    if SCRIPT is None:
        if os.path.isdir(f"{d}/shims"): shutil.rmtree(f"{d}/shims")
        shutil.copytree(f"{V}/tools/shims", f"{d}/shims", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        sh = open(f"{V}/tools/seedlib/demo.sh").read().replace("FEATURES", ", ".join(f'"{x}"' for x in FEATURES)).replace("EXTRA\n", EXTRA + "\n")
        pre = open(f"{V}/tools/seedlib/prelude.rs").read()
        open(f"{d}/demo.rs", "w").write(DEMO.replace("//PRELUDE", pre))
    else:
        sh = SCRIPT
        for f, t in FILES.items(): open(f"{d}/{f}", "w").write(t)
    open(f"{d}/demo.sh", "w").write(sh)
    os.chmod(f"{d}/demo.sh", 0o755)
if __name__ == "__main__":
    for f in sys.argv[1:]:
        g = {}
        exec(open(f).read(), g)
        for k in g["SEEDS"]:
            make(**k)
