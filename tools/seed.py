#!/usr/bin/env python3
"""seed.py: creates and verifies planted bugs (development tool; no check uses it).

  seed(id, prop, needs, breaks, edits, pkg, demo)   create (from a Python script that imports this file)
  seed.py verify ID...                              demo on the clean tree, build, stable tests, demo, check
  seed.py check ID...                               only the property's check
All runs happen in a mount namespace in which a scratch copy is bound over /repo.
"""
import json, os, subprocess, sys, shutil, tempfile
SRC = os.environ.get("SEED_REPO", "/repo")
SEEDED = "/verif/seeded"
DEMO = '''#!/bin/bash
# runs demo_test.go.txt in %(pkg)s of the current directory
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go.txt\\"}}" > "$t/overlay.json"
go test -vet=off -count=1 %(flags)s -timeout 200s -overlay "$t/overlay.json" -run '^TestDemo' ./%(pkg)s
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def copy(name):
    d = "/tmp/sw_" + name
    sh(f"rm -rf {d}; cp -a {SRC} {d}; git -C {d} checkout -q -- .; git -C {d} clean -fdq")
    return d
def ns(d, cmd, timeout=900):
    return subprocess.run(["unshare", "-m", "bash", "-c", f"mount --bind {d} /repo && cd /repo && {cmd}"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def tests(d):
    """stable tests that do not pass"""
    out = tempfile.mktemp(suffix=".json")
    r = ns(d, f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {out}")
    if not os.path.exists(out):
        return ["build: " + r.stdout[-500:]]
    ok = set(json.load(open(out))["passed"]); os.remove(out)
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
def seed(id, prop, needs, breaks, edits, pkg, demo, flags="", check=True):
    d = copy(id)
    s = f"{SEEDED}/{id}"
    os.makedirs(s, exist_ok=True)
    open(s + "/demo_test.go.txt", "w").write(demo)
    open(s + "/demo.sh", "w").write(DEMO % {"pkg": pkg, "flags": flags})
    os.chmod(s + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(s + "/meta.json", "w"), indent=1)
    bad = None
    for pad in range(24):
        sh(f"git -C {d} checkout -q -- .")
        for i, (f, old, new) in enumerate(edits):
            p = f"{d}/{f}"; t = open(p).read()
            if t.count(old) != 1:
                print(f"{id}: edit {i} matches {t.count(old)} times"); shutil.rmtree(d); return False
            open(p, "w").write(t.replace(old, new))
        if pad:  # vary the test binary: names of some stable tests depend on its hash
            p = f"{d}/cache/cache.go"; t = open(p).read()
            m = "Accepting the first update with a timestamp in the future %s"
            t = t.replace(m, m.replace("with a timestamp", "with a " + "very " * (5 * (pad // 2)) + "timestamp"))
            open(p, "w").write(t.replace("\npackage cache\n", "\npackage cache\n" + "\n" * (pad * (pad % 2))))
            p = f"{d}/subscribe/subscribe.go"; t = open(p).read()
            m = "Target %q was deleted. Closing stream."
            open(p, "w").write(t.replace(m, m + " Bye" + "e" * (11 * pad)))
        r = sh(f"cd {d} && gofmt -l $(git diff --name-only)")
        if "PARITY OK" in ns(d, "bash /tmp/parity.sh /repo").stdout:
            break
    bad = tests(d)
    open(s + "/patch.diff", "w").write(sh(f"git -C {d} diff").stdout)
    print(f"{id}: stable tests failing: {bad[:4]} (pad {pad})", flush=True)
    shutil.rmtree(d)
    if bad: return False
    return verify(id, tested=True, check=check)
def verify(id, tested=False, check=True, demo=True):
    s = f"{SEEDED}/{id}"
    prop = json.load(open(s + "/meta.json"))["property"]
    d = copy("v" + id)
    t = tempfile.mkdtemp(); sh(f"cp {s}/* {t}; rm -f {t}/*.diff {t}/meta.json")
    ok = True
    if demo:
        r = ns(d, f"bash {t}/demo.sh")
        if r.returncode != 0:
            print(f"{id}: DEMO FAILS ON CLEAN TREE\n{r.stdout[-1500:]}"); ok = False
    r = sh(f"git -C {d} apply {s}/patch.diff")
    if r.returncode != 0:
        print(f"{id}: patch does not apply {r.stdout}"); ok = False
    if ok and demo:
        r = ns(d, f"bash {t}/demo.sh")
        if r.returncode == 0:
            print(f"{id}: DEMO PASSES WITH PATCH\n{r.stdout[-1500:]}"); ok = False
        else:
            print(f"{id}: demo fails with the patch: " + " / ".join(l.strip() for l in r.stdout.splitlines() if "zz_demo_test" in l or "panic:" in l or "DATA RACE" in l)[:300])
    if ok and not tested:
        bad = tests(d)
        if bad: print(f"{id}: stable tests failing: {bad[:4]}"); ok = False
    if ok and check:
        r = ns(d, f"cd /verif && engine/bin/gosym -verif /verif -repo /repo -prop {prop} -tier quick -noevidence", timeout=1200)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("  harness")]
        print(f"{id}: {'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode} " + " | ".join(v)[:300])
        if not v: print("\n".join(r.stdout.splitlines()[-12:]))
    shutil.rmtree(d); shutil.rmtree(t)
    sys.stdout.flush()
    return ok
if __name__ == "__main__":
    if sys.argv[1] == "verify":
        for i in sys.argv[2:]: verify(i)
    elif sys.argv[1] == "check":
        for i in sys.argv[2:]: verify(i, tested=True, demo=False)
