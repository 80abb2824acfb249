#!/usr/bin/env python3
"""Random small changes to the code, and which checks see them.

  mutate.py OUT.jsonl COUNT SEED [FILE-REGEXP]

Every change that compiles and passes the existing tests is given to the checks
of the properties its place has to do with, until one of them sees it.  What
none sees is written down to be looked at: it may well change nothing."""
import json, os, random, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
want = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
WT = "/tmp/mut-%d" % seed
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly -buildvcs=false")
r = random.Random(seed)


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


shutil.rmtree(WT, ignore_errors=True)
os.makedirs(WT)
subprocess.run("git -C /repo archive HEAD | tar x -C %s" % WT, shell=True, check=True)
sh(["git", "init", "-q"], WT); sh(["git", "add", "-A"], WT); sh(["git", "-c", "user.email=a@b", "-c", "user.name=x", "commit", "-qm", "base"], WT)


def passes():
    res = set()
    for m in (".", "cmd/tachograph", "tools"):
        p = sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], os.path.join(WT, m), timeout=600)
        for l in p.stdout.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("Action") == "pass" and e.get("Test"):
                res.add((e["Package"], e["Test"]))
    return res


base = passes()
files = [f for f in sh(["git", "ls-files", "*.go"], WT).stdout.split() if not f.endswith("_test.go") and not f.startswith("proto/") and "magefile" not in f and want.search(f)]

NUM = re.compile(r"(?<![\w.\"'])(\d+|0x[0-9A-Fa-f]+)(?![\w.\"'])")


def mutants(line, nxt):
    """Changed versions of one line."""
    s = line.strip()
    if not s or s.startswith("//") or s.startswith("import") or "Errorf" in s or "errors.New" in s or "log." in s or s.startswith("package") or s.startswith("func ") or s.startswith("case 0x") or "panic(" in s or s.startswith('"'):
        return []
    code = line.split(" //")[0]
    res = []

    def rep(pat, to):
        for m in re.finditer(pat, code):
            res.append(code[:m.start()] + m.expand(to) + code[m.end():])
    rep(r" < ", " <= "); rep(r" <= ", " < "); rep(r" > ", " >= "); rep(r" >= ", " > ")
    rep(r" == ", " != "); rep(r" != ", " == ")
    rep(r" && ", " || "); rep(r" \|\| ", " && ")
    rep(r" \+ ", " - "); rep(r" - ", " + "); rep(r" << ", " >> "); rep(r" >> ", " << ")
    rep(r" \+= ", " = "); rep(r" & ", " | "); rep(r" % ", " / ")
    rep(r"\bcontinue\b", "break"); rep(r"\bbreak\b", "continue"); rep(r"\btrue\b", "false"); rep(r"\bfalse\b", "true")
    rep(r"BigEndian", "LittleEndian")
    rep(r"\bif !", "if ")
    rep(r"\bfor i := range ", "for i := range 1 + "); 
    rep(r"^(\s*if )(.+)( \{)$", r"\g<1>false && (\g<2>)\g<3>") if ":=" not in code and ";" not in code else None
    rep(r"^(\s*if )(.+)( \{)$", r"\g<1>true || (\g<2>)\g<3>") if ":=" not in code and ";" not in code else None
    for m in NUM.finditer(code):
        n = int(m.group(1), 16 if m.group(1).lower().startswith("0x") else 10)
        for k in (n + 1, n - 1):
            if k >= 0:
                res.append(code[:m.start()] + str(k) + code[m.end():])
    # leave a statement out
    if re.match(r"^[\w.]+\(.*\)$", s) or re.match(r"^[\w.\[\]]+ (=|\+=|-=) .*[^({,]$", s):
        res.append(re.match(r"^\s*", line).group(0) + "_ = 0")
    # the wrong neighbour
    m = re.match(r"^(\s*)(\w+\.(Set|Get)\w+\()(.*)$", code)
    return [x for x in res if x != code]


CHECKS = [
    (r"^cmd/tachograph", ["C25"]),
    (r"^tools/", ["C26"]),
    (r"^internal/cert/", ["C20", "C19", "C17"]),
    (r"^internal/security/", ["C18", "C17", "C24", "C15", "C09", "C03"]),
    (r"^internal/vu/", ["C12", "C14", "C13", "C16", "C24", "C15"]),
    (r"^internal/card/(raw|infer)", ["C01", "C02", "C04", "C21", "C16", "C15"]),
    (r"^internal/card/driver_card_file", ["C03", "C04", "C05", "C17", "C23", "C21", "C16", "C02", "C15"]),
    (r"^internal/card/activity", ["C06", "C07", "C22", "C05", "C23", "C15"]),
    (r"^internal/card/", ["C09", "C08", "C05", "C22", "C23", "C21", "C24", "C03", "C16", "C15"]),
    (r"^internal/dd/string|code_?page", ["C11", "C22", "C23", "C21", "C24"]),
    (r"^internal/dd/", ["C10", "C09", "C05", "C22", "C23", "C14", "C21", "C07", "C08", "C11", "C24", "C15"]),
    (r"^(un)?marshal|^verify|^cert|^doc", ["C02", "C01", "C05", "C17", "C16", "C19", "C20", "C15"]),
    (r".", ["C03", "C05", "C09", "C12", "C13", "C15"]),
]


def func_of(lines, at):
    for k in range(at, -1, -1):
        m = re.match(r"^func (?:\([^)]*\) )?(\w+)", lines[k])
        if m:
            return m.group(1)
    return ""


pool = []
for f in files:
    lines = open(os.path.join(WT, f)).read().split("\n")
    for k, l in enumerate(lines):
        for m in mutants(l, ""):
            pool.append((f, k, m))
# only what the checks reach at all; MUTATE_COVER holds a coverage profile of them
if "MUTATE_COVER" in os.environ:
    reach = {}
    for l in open(os.environ["MUTATE_COVER"]):
        m = re.match(r"^github.com/way-platform/tachograph-go/(\S+?):(\d+)\.\d+,(\d+)\.\d+ \d+ (\d+)$", l)
        if m and int(m[4]):
            reach.setdefault(m[1], set()).update(range(int(m[2]) - 1, int(m[3])))
    pool = [x for x in pool if x[0] not in reach and x[0].startswith(("cmd/", "tools/")) or x[1] in reach.get(x[0], ())]
# one change per function first, then a second one; MUTATE_SKIP holds what the deadcode tool prints
dead = set(re.findall(r"^(\S+?):\d+:\d+: unreachable func: (?:\S+\.)?(\w+)$", open(os.environ["MUTATE_SKIP"]).read(), re.M)) if "MUTATE_SKIP" in os.environ else set()
by = {}
for f, k, m in pool:
    fn = func_of(open(os.path.join(WT, f)).read().split("\n"), k) if (f, k) not in by else by[f, k]
    by[f, k] = fn
r.shuffle(pool)
turn = {}
order = []
for f, k, m in pool:
    g = (f, by[f, k])
    if g in dead or "if err != nil {" in m or "if err == nil {" in m:
        continue
    turn[g] = turn.get(g, 0) + 1
    order.append((turn[g], r.random(), (f, k, m)))
pool = [x for _, _, x in sorted(order)]
print(len(pool), "changes in", len(files), "files", flush=True)
done = 0
for f, k, m in pool:
    if done >= count:
        break
    p = os.path.join(WT, f)
    src = open(p).read()
    lines = src.split("\n")
    old = lines[k]
    lines[k] = m
    open(p, "w").write("\n".join(lines))
    try:
        mod = next((d for d in ("cmd/tachograph", "tools") if f.startswith(d)), ".")
        if sh(["go", "build", "./..."], os.path.join(WT, mod)).returncode != 0:
            continue
        try:
            if base - passes():
                continue
        except subprocess.TimeoutExpired:
            continue
        done += 1
        fn = func_of(lines, k)
        todo = list(next(c for pat, c in CHECKS if re.search(pat, f)))
        if "nonymi" in fn and "C21" in todo:
            todo.remove("C21"); todo.insert(0, "C21")
        if re.match(r"(append|marshal|Marshal|encode)", fn):
            todo = [c for c in ("C05", "C22", "C23") if c in todo] + [c for c in todo if c not in ("C05", "C22", "C23")]
        if "erify" in fn or "uthent" in fn:
            todo = ["C17", "C18"] + [c for c in todo if c not in ("C17", "C18")]
        seen = ""
        odd = []
        for c in todo:
            try:
                q = subprocess.run([sys.executable, os.path.join(ROOT, "run", "check.py"), c], env=dict(os.environ, VERIF_REPO=WT), capture_output=True, text=True, timeout=880)
            except subprocess.TimeoutExpired:
                odd.append(c + " timeout")
                continue
            if q.returncode == 1:
                seen = c
                break
            if q.returncode != 0:
                odd.append(c + " " + q.stdout[-300:] + q.stderr[-300:])
        rec = {"file": f, "line": k + 1, "func": fn, "old": old.strip(), "new": m.strip(), "seen": seen, "odd": odd, "asked": todo if not seen else todo[:todo.index(seen) + 1]}
        with open(out, "a") as o:
            o.write(json.dumps(rec) + "\n")
        print(done, seen or "MISSED", f, k + 1, fn, "|", old.strip()[:80], "->", m.strip()[:80], odd and "ODD", flush=True)
    finally:
        open(p, "w").write(src)
shutil.rmtree(WT, ignore_errors=True)
