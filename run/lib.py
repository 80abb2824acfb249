"""Common machinery of the checks: building the harness from /repo's working
tree, recording traces with it, and having TLC judge them."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 4)

COVER = os.environ.get("VERIF_COVER", "").split()    # to see what the checks reach
COMMANDS = {"cli": ("cmd/tachograph", "."), "fetch": ("tools", "./cmd/fetch-certs")}


class ToolError(Exception):
    pass


def goenv():
    env = dict(os.environ)
    env.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off",
               GOFLAGS="-mod=readonly -buildvcs=false", GOPATH="/root/go",
               GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
               PATH="/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    env.pop("GOROOT", None)
    return env


# what surrounds a process and must make no difference to what the library does
PLACES = [
    {"TZ": "UTC", "LANG": "C"},
    {"TZ": "America/New_York", "LANG": "de_DE.UTF-8", "LC_ALL": "de_DE.UTF-8"},
    {"TZ": "Asia/Kathmandu", "LANG": "tr_TR.UTF-8", "GOMAXPROCS": "1"},
    {"TZ": "Pacific/Kiritimati", "LANG": "", "GOGC": "10"},
    {"TZ": "Pacific/Pago_Pago", "LANG": "ja_JP.SJIS", "GOMAXPROCS": "2"},
]


def place(k):
    return dict(goenv(), **PLACES[k % len(PLACES)])


class Run:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.complaints = []          # (case, what)
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.scripts = {}             # case id -> (harness, commands)
        self.bins = {}

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.work, name)

    # ---- building -------------------------------------------------------
    def build(self, name, race=False):
        """Builds harness `name` against REPO's working tree."""
        key = (name, race)
        if key in self.bins:
            return self.bins[key]
        if name in COMMANDS:
            return self.bins.setdefault(key, self.driver(name, race))
        files = {f: "base/" + f for f in os.listdir(os.path.join(HARNESS, "base")) if f.endswith(".go")}
        for f in os.listdir(os.path.join(HARNESS, name)):
            if f.endswith(".go"):
                files[f] = "%s/%s" % (name, f)
        ov = {"Replace": {"%s/internal/v%s/%s" % (REPO, name, k): os.path.join(HARNESS, v) for k, v in files.items()}}
        ovf = self.path("ov_%s.json" % name)
        json.dump(ov, open(ovf, "w"))
        out = self.path("v%s%s" % (name, "_race" if race else ""))
        cmd = ["go", "build", "-overlay", ovf, "-o", out] + (["-race"] if race else []) + COVER + ["./internal/v" + name]
        r = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("harness %s does not build:\n%s" % (name, r.stderr[-4000:]))
        self.bins[key] = out
        return out

    def driver(self, name, race):
        """A program that drives one of the repository's commands the way a
        harness drives the library."""
        module, pkg = COMMANDS[name]
        tool, intl = self.build_cmd(module, pkg, name + "-command", race), self.build("intl")
        out = self.path("drive_%s%s" % (name, "_race" if race else ""))
        with open(out, "w") as f:
            f.write('#!/bin/sh\nexec python3 %s/run/drive_%s.py %s %s "$@"\n' % (VERIF, name, tool, intl))
        os.chmod(out, 0o755)
        return out

    def build_cmd(self, subdir, pkg, name, race=False):
        """Builds one of the repository's own commands."""
        out = self.path(name)
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + COVER + [pkg]
        r = subprocess.run(cmd, cwd=os.path.join(REPO, subdir), env=goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("%s does not build:\n%s" % (pkg, r.stderr[-4000:]))
        return out

    # ---- recording ------------------------------------------------------
    def record(self, binary, cases, tag, env=None):
        """Runs cases (lists of commands, each starting with a case command)
        and returns the path of the trace."""
        trace = self.path("trace_%s.ndjson" % tag)
        with open(trace, "w") as out:
            todo = list(cases)
            attempt = hangs = 0
            began = time.time()
            while todo:
                attempt += 1
                script = self.path("script_%s.ndjson" % tag)
                part = self.path("part_%s.ndjson" % tag)
                with open(script, "w") as f:
                    for c in todo:
                        for cmd in c:
                            f.write(json.dumps(cmd, separators=(",", ":")) + "\n")
                args = [binary, script, part] + (["flush"] if attempt > 1 else [])
                # memory without bound must end the harness, not the sandbox
                lim = None if binary.endswith("_race") else lambda: resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
                r = subprocess.run(args, capture_output=True, text=True, env=env or goenv(), cwd=self.work, preexec_fn=lim)
                data = open(part).read() if os.path.exists(part) else ""
                if r.returncode == 0:
                    out.write(data)
                    break
                if r.returncode == 3:
                    raise ToolError("harness: " + r.stderr[-2000:])
                if r.returncode != 4 and attempt == 1:
                    # died: run again writing every event at once, to see where
                    continue
                lines = data.split("\n")
                complete = [l for l in lines if l.endswith("}")]
                out.write("".join(l + "\n" for l in complete))
                k = len(complete)
                if r.returncode != 4:
                    # the command after the last event ended the process
                    flat = [cmd for c in todo for cmd in c]
                    if k >= len(flat):
                        raise ToolError("harness ended with %d after its last command: %s" % (r.returncode, r.stderr[-2000:]))
                    if r.returncode != -9 and "fatal error" not in r.stderr and "DATA RACE" not in r.stderr and "panic" not in r.stderr:
                        raise ToolError("harness ended with %d: %s" % (r.returncode, r.stderr[-2000:]))
                    ev = dict(flat[k])
                    ev.update(out="crash", why=r.stderr[:300])
                    out.write(json.dumps(ev) + "\n")
                    k += 1
                # go on with the first case not yet begun
                n = 0
                rest = []
                for c in todo:
                    if n >= k:
                        rest.append(c)
                    n += len(c)
                todo = rest
                hangs += r.returncode == 4
                # a few of them say enough
                if attempt > 40 or hangs > 3 or time.time() - began > 300:
                    self.notes["abandoned_cases"] = self.notes.get("abandoned_cases", 0) + len(todo)
                    break
        return trace

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, mem="2500m", args=(), timeout=800):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + mem, "-Xss256m", "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", meta, "-workers", "1", "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s: no answer in %d s" % (module, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    @staticmethod
    def printed(out, word):
        """The JSON values TLC printed after `word`."""
        res = []
        for line in out.split("\n"):
            if line.startswith('"%s ' % word):
                s = json.loads(line)
                res.append(json.loads(s[len(word) + 1:]))
        return res

    def count(self, out):
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.transitions += max(0, int(m.group(1)) - 1)
            self.states += int(m.group(2))
            return int(m.group(2))
        return 0

    def explore(self, module, cfg=None, env=None, word="CASE", timeout=800, mem="6g", ok_codes=(0,), args=()):
        """Exhausts a model and returns what it printed."""
        code, out = self.tlc(module, cfg, env, mem=mem, timeout=timeout, args=args)
        if code not in ok_codes:
            raise ToolError("TLC on %s ended with %d:\n%s" % (module, code, out[-3000:]))
        n = self.count(out)
        m, k = self.notes.setdefault("models", {}), (cfg or module).replace(".cfg", "")
        m[k] = m.get(k, 0) + n
        return self.printed(out, word)

    def judge(self, trace, spec="Trace"):
        n = sum(1 for _ in open(trace))
        if n == 0:
            return
        code, out = self.tlc(spec, env={"TRACE": trace, "PROP": self.prop, "TIER": self.tier})
        m = re.search(r'"CONSUMED (\d+) OF (\d+)"', out)
        if code != 0 or not m or m.group(1) != m.group(2) or int(m.group(1)) != n:
            raise ToolError("TLC did not read the whole trace %s (%d):\n%s" % (trace, code, out[-4000:]))
        found = [(c["case"], w) for c in self.printed(out, "COMPLAINT") for w in c["what"]]
        return n, found, out

    def tally(self, trace):
        """How often each call ended how."""
        t = self.notes.setdefault("outcomes", {})
        with open(trace) as f:
            for line in f:
                o, u = re.search(r'"op":"(\w+)"', line), re.search(r'"out":"(\w+)"', line)
                k = "%s %s" % (o and o.group(1), u and u.group(1))
                t[k] = t.get(k, 0) + 1
                if '"outs":{' in line:
                    self.notes.setdefault("inner", []).append(json.loads(line)["outs"])

    def check(self, harness, cases, spec="Trace", shards=None, race=False, env=None, at=0):
        """Records the cases with the harness and has TLC judge the traces."""
        binary = harness if os.path.sep in harness else self.build(harness, race)
        for c in cases:
            cid = c[0]["id"]
            if cid in self.scripts:
                raise ToolError("case id used twice: " + cid)
            self.scripts[cid] = [harness, spec, c, race, 0]
        weights = [sum(60 + len(json.dumps(x)) for x in c) for c in cases]
        shards = shards or max(1, min(CPUS, (len(cases) + 3) // 4))
        bins = [[] for _ in range(shards)]
        load = [0] * shards
        for w, c in sorted(zip(weights, cases), key=lambda t: -t[0]):
            k = load.index(min(load))
            bins[k].append(c)
            load[k] += w
            self.scripts[c[0]["id"]][4] = k % len(PLACES)
        base = len(self.scripts)

        def one(k):
            trace = self.record(binary, bins[k], "%d_%d" % (base, k), dict(place(k + at), **(env or {})))
            return trace, self.judge(trace, spec)

        with cf.ThreadPoolExecutor(shards) as ex:
            for trace, res in ex.map(one, range(shards)):
                if res is None:
                    continue
                n, found, out = res
                self.tally(trace)
                self.count(out)
                self.events += n
                self.complaints += found
                if len(self.samples) < 3:
                    self.samples += sample(trace)
        self.traces += len(cases)


def sample(trace):
    cur, best = [], None
    with open(trace) as f:
        for line in f:
            if len(line) > 1500:
                line = json.dumps({"op": json.loads(line).get("op"), "note": "long event left out"})
            ev = json.loads(line)
            if ev.get("op") == "case":
                if len(cur) > 2:
                    best = cur
                    break
                cur = []
            cur.append(ev)
    best = best or cur
    return [best[:6]] if best else []


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def finish(run, level="model_checking", extra=None):
    """Evidence, findings and verdict.  Returns the exit code."""
    listed = [k for k in known()["known"] if k["property"] == run.prop]
    seen, fresh = {}, []
    for case, what in run.complaints:
        k = next((k for k in listed if re.fullmatch(k["what"], what)
                  and (not k.get("case") or re.fullmatch(k["case"], str(case)))), None)
        if k:
            seen.setdefault(k["what"], (k, case))
        else:
            fresh.append((case, what))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"states": run.states, "transitions": run.transitions,
           "traces_validated_against_impl": run.traces, "events": run.events,
           "samples": run.samples[:3] or ["none"]}
    cov.update(run.notes)
    cov.update(extra or {})
    ev = {"property": run.prop, "tier": run.tier, "seed": run.seed, "level": level, "coverage": cov,
          "assumptions": run.assumptions, "violations": len(fresh), "wall_s": round(time.time() - run.t0, 2)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", run.prop + ".json"), "w"), indent=1)
    for k, case in seen.values():
        print("KNOWN-FINDING: property=%s %s" % (run.prop, k["note"]))
    if not fresh:
        print("OK property=%s tier=%s cases=%d events=%d states=%d wall=%.1fs" %
              (run.prop, run.tier, run.traces, run.events, run.states, time.time() - run.t0))
        return 0
    byc = {}
    for case, what in fresh:
        byc.setdefault(str(case), []).append(what)
    shown = 0
    for case, whats in sorted(byc.items(), key=lambda t: len(json.dumps(run.scripts.get(t[0], ("", "", []))[2]))):
        if shown >= 5:
            break
        shown += 1
        rp = os.path.join(VERIF, "evidence", "replay-%s-%s.json" % (run.prop, re.sub(r"[^A-Za-z0-9_.-]", "_", case)[:60]))
        h, spec, cmds, race, at = run.scripts.get(case, ("", "", [], False, 0))
        json.dump({"property": run.prop, "case": case, "harness": h if os.path.sep not in h else "", "spec": spec, "race": race, "place": at,
                   "what": sorted(set(whats))[:40], "commands": cmds}, open(rp, "w"))
        for w in sorted(set(whats))[:6]:
            print("  %s: %s" % (case, w))
        print("VIOLATION property=%s replay=%s" % (run.prop, rp))
    print("%d complaints in %d cases" % (len(fresh), len(byc)))
    return 1
