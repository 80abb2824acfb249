#!/usr/bin/env python3
"""Makes planted bugs from tools/seeds/*.py and tries them out.

  seed.py ID...            write /verif/seeded/ID, confirm it in a scratch copy, run its check
  seed.py --check ID...    only run the check of the property against the patched copy
"""
import json, os, shutil, subprocess, sys, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("SEED_WT", "/tmp/seed-wt")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly -buildvcs=false")
DEMO = '''#!/bin/bash
# Runs main.go inside the module found in the current directory.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off
R=$(pwd)
printf '{"Replace":{"%s/internal/vdemo/main.go":"%s/main.go"}}' "$R" "$D" > "$T/ov.json"
go build -overlay "$T/ov.json" -o "$T/demo" ./internal/vdemo || exit 9
timeout 120 "$T/demo"
'''
HELP = '''
// rec is one record of a card download.
func rec(fid, appendix int, v []byte) []byte {
	return append([]byte{byte(fid >> 8), byte(fid), byte(appendix), byte(len(v) >> 8), byte(len(v))}, v...)
}

func fail(f string, a ...any) {
	fmt.Printf("FAIL "+f+"\\n", a...)
	os.Exit(1)
}
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


def seeds():
    out = {}
    d = os.path.join(ROOT, "tools", "seeds")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            ns = {"__file__": os.path.join(d, f)}
            exec(open(os.path.join(d, f)).read(), ns)
            for s in ns["SEEDS"]:
                out[s["id"]] = s
    return out


def fresh():
    shutil.rmtree(WT, ignore_errors=True)
    os.makedirs(WT)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % WT, shell=True, check=True)
    sh(["git", "init", "-q"], WT)
    sh(["git", "add", "-A"], WT)
    sh(["git", "-c", "user.email=a@b", "-c", "user.name=x", "commit", "-qm", "base"], WT)


def passes(root):
    res = set()
    for m in (".", "cmd/tachograph", "tools"):
        r = sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], os.path.join(root, m))
        for l in r.stdout.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("Action") == "pass" and e.get("Test"):
                res.add((e["Package"], e["Test"]))
    return res


def apply(s):
    sh(["git", "checkout", "-q", "."], WT)
    for f, old, new in s["edits"]:
        p = os.path.join(WT, f)
        t = open(p).read()
        if t.count(old) != 1:
            sys.exit("%s: %s: %d matches of %r" % (s["id"], f, t.count(old), old[:60]))
        open(p, "w").write(t.replace(old, new))


def original(s):
    """Removed lines that are not lines of the original repository."""
    out = []
    for f, old, new in s["edits"]:
        base = subprocess.run(["git", "-C", "/repo", "show", "91a2007:" + f], capture_output=True, text=True).stdout.splitlines()
        d = sh(["git", "diff", "-U0", f], WT).stdout.splitlines()
        gone = [l[1:] for l in d if l.startswith("-") and not l.startswith("---")]
        out += [l for l in gone if l not in base]
        if not gone and "import" not in new and not new.strip().startswith('"'):
            out.append("(only adds lines)")
    return out


def demo(d):
    return sh(["bash", os.path.join(d, "demo.sh")], WT, timeout=300)


def check(s):
    env = dict(os.environ, VERIF_REPO=WT)
    r = subprocess.run([sys.executable, os.path.join(ROOT, "run", "check.py"), s["property"]], env=env, capture_output=True, text=True)
    lines = r.stdout.strip().splitlines()
    return r.returncode, lines


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    only = "--check" in sys.argv
    allseeds = seeds()
    ids = ids or sorted(allseeds)
    fresh()
    base = None
    for i in ids:
        s = allseeds[i]
        d = os.path.join(ROOT, "seeded", i)
        if not only:
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "demo.sh"), "w").write(s.get("demo") or DEMO)
            if s.get("main"):
                open(os.path.join(d, "main.go"), "w").write(s["main"] + (HELP if s.get("help", 1) else ""))
            for n, t in s.get("files", {}).items():
                open(os.path.join(d, n), "w").write(t)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            sh(["git", "checkout", "-q", "."], WT)
            r = demo(d)
            if r.returncode != 0:
                print(i, "DEMO FAILS ON THE UNCHANGED TREE", r.returncode, r.stdout[-500:], r.stderr[-1500:])
                continue
            if base is None:
                base = passes(WT)
        apply(s)
        if not only:
            open(os.path.join(d, "patch.diff"), "w").write(sh(["git", "diff"], WT).stdout)
            if original(s):
                print(i, "NOT ORIGINAL", original(s)[:3])
            r = demo(d)
            if r.returncode == 0 or r.returncode == 9:
                print(i, "DEMO DOES NOT SHOW IT", r.returncode, r.stdout[-500:], r.stderr[-500:])
                continue
            shown = r.stdout.strip()[-150:] or r.stderr.strip()[-150:]
            lost = base - passes(WT)
            if lost:
                print(i, "TESTS BREAK", sorted(lost)[:5])
                continue
            print(i, "confirmed:", shown)
        code, lines = check(s)
        v = [l for l in lines if not l.startswith("VIOLATION") and not l.startswith("KNOWN")]
        print(i, s["property"], "CAUGHT" if code == 1 else "MISSED (%d)" % code, (v[0] if code == 1 and v else " / ".join(lines[-3:]))[:200], flush=True)
    shutil.rmtree(WT, ignore_errors=True)


main()
