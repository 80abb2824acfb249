#!/usr/bin/env python3
"""drive_cli.py COMMAND HARNESS SCRIPT TRACE [flush]

Puts files in a scratch directory, runs the parse command there and records
what it printed, said and returned, and what it left behind."""
import hashlib, json, os, re, shutil, stat, subprocess, sys, tempfile

cmd, harness, script, trace = sys.argv[1:5]
ANSI = re.compile(r"\x1b\[[0-9;?]*[A-Za-z]")


def digest(doc):
    return hashlib.sha256(json.dumps(doc, sort_keys=True).encode()).hexdigest()[:16]


def documents(text):
    """The JSON documents in text; what is none ends the list with '?'."""
    dec, at, out = json.JSONDecoder(), 0, []
    while True:
        while at < len(text) and text[at] in " \t\r\n":
            at += 1
        if at == len(text):
            return out
        try:
            doc, at = dec.raw_decode(text, at)
        except ValueError:
            return out + ["?"]
        out.append(digest(doc))


answers = {}


def library(data):
    """What the library returns for those bytes."""
    if data not in answers:
        d = tempfile.mkdtemp()
        s, t = os.path.join(d, "s"), os.path.join(d, "t")
        with open(s, "w") as f:
            for c in ({"op": "case", "id": "x"}, {"op": "buf", "b": "a", "data": list(data)}, {"op": "parse", "b": "a", "f": "f"}, {"op": "json", "f": "f"}):
                f.write(json.dumps(c) + "\n")
        subprocess.run([harness, s, t], capture_output=True)
        evs = [json.loads(l) for l in open(t)] if os.path.exists(t) else []
        shutil.rmtree(d)
        p = next((e for e in evs if e["op"] == "parse"), {"out": "none"})
        j = next((e for e in evs if e["op"] == "json"), {"out": "none"})
        if p["out"] != "ok":
            answers[data] = (p["out"], "")
        else:
            answers[data] = (j["out"], digest(json.loads(j["text"])) if j["out"] == "ok" else "")
    return answers[data]


def survey(d):
    res = {}
    for n in sorted(os.listdir(d)):
        st = os.lstat(os.path.join(d, n))
        body = ""
        if stat.S_ISREG(st.st_mode):
            body = hashlib.sha256(open(os.path.join(d, n), "rb").read()).hexdigest()
        elif stat.S_ISLNK(st.st_mode):
            body = os.readlink(os.path.join(d, n))
        elif stat.S_ISDIR(st.st_mode):
            body = " ".join(sorted(os.listdir(os.path.join(d, n))))
        res[n] = (st.st_mode, st.st_mtime_ns, st.st_uid, st.st_size if stat.S_ISREG(st.st_mode) else 0, body)
    return res


def words(s):
    return [w for w in re.split(r"[^A-Za-z0-9]+", s) if w]


def said(name, text):
    """The message has the name in it, however it is quoted or wrapped."""
    flat = re.sub(r"\s+", "", text)
    if re.sub(r"\s+", "", name) in flat:
        return True
    at = 0
    for w in words(name):
        at = flat.find(w, at)
        if at < 0:
            return False
        at += len(w)
    return bool(words(name))


home, cwd = None, None
out = open(trace, "w")
for line in open(script):
    c = json.loads(line)
    e = dict(c, out="ok")
    op = c["op"]
    if op == "case":
        if home:
            shutil.rmtree(home)
        home = tempfile.mkdtemp(prefix="cli-")
        cwd = os.path.join(home, "work")
        os.mkdir(cwd)
    elif op == "put":
        with open(os.path.join(cwd, c["n"]), "wb") as f:
            f.write(bytes(c["data"]))
        if "mode" in c:
            os.chmod(os.path.join(cwd, c["n"]), c["mode"])
        e.pop("data")
    elif op == "lib":
        e["out"], e["doc"] = library(open(os.path.join(cwd, c["n"]), "rb").read())
    elif op == "dir":
        os.mkdir(os.path.join(cwd, c["n"]))
    elif op == "link":
        os.symlink(c["at"], os.path.join(cwd, c["n"]))
    elif op == "loop":
        os.symlink(c["n"], os.path.join(cwd, c["n"]))
    elif op == "through":
        pass                                      # a path through something that is no directory
    elif op == "run":
        before = survey(cwd)
        argv = [cmd, "parse"] + [a["name"] for a in c["args"]]
        env = {"PATH": os.environ.get("PATH", ""), "HOME": home, "TERM": "dumb", "COLUMNS": "400"}
        env.update({k: os.environ[k] for k in ("TZ", "LANG", "LC_ALL", "GOGC", "GOMAXPROCS") if k in os.environ})
        so = open("/dev/full", "wb") if c["to"] == "full" else subprocess.PIPE
        try:
            r = subprocess.run(argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=so, stderr=subprocess.PIPE, timeout=60)
            err = ANSI.sub("", r.stderr.decode("utf-8", "replace"))
            e["exit"], e["err"] = r.returncode, bool(err.strip())
            e["docs"] = documents(r.stdout.decode("utf-8", "replace")) if c["to"] != "full" else []
            e["said"] = sorted({a["name"] for a in c["args"] if said(a["name"], err)})
            e["why"] = err[:300]
        except subprocess.TimeoutExpired:
            e["out"] = "hang"
        after = survey(cwd)
        e["changed"] = sorted(n for n in set(before) | set(after) if before.get(n) != after.get(n))
    out.write(json.dumps(e, separators=(",", ":")) + "\n")
    out.flush()
if home:
    shutil.rmtree(home)
