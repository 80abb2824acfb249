"""Plans for certificates, their sources and verification."""
import base64, hashlib, json, os
import lib
from lib import ToolError
from gen import Gen, be, rec, icc_rec, ICC0
from cases_card import big, ef_rec
from cases_use import vu_download, raw_card, some_card

RSA_BAD = ["hash", "sha256", "partial", "header", "trailer", "plain", "plusn"]
ECC_BAD = ["hash", "partial", "swap", "zero", "order", "plusr", "pluss"]
CURVES = ["b256", "b384", "b512", "n256", "n384", "n521"]
TAGS = {"card1": [0xC1, 0x00, 0], "ca1": [0xC1, 0x08, 0], "ma2": [0xC1, 0x00, 2], "sign2": [0xC1, 0x01, 2], "ca2": [0xC1, 0x08, 2], "link2": [0xC1, 0x09, 2]}


class Trust(Gen):
    def ref(self):
        r = self.rng
        k = r.random()
        if k < 0.2:
            return be(r.randrange(1, 1000), 8)          # leading zeros
        if k < 0.4:
            return [r.randrange(128, 256)] + self.rb(7)
        return self.rb(8)

    def refs(self, n):
        out = []
        while len(out) < n:
            x = self.ref()
            if x not in out:
                out.append(x)
        return out

    def day(self):
        r = self.rng
        return r.choice([[0, 0, 0, 0], [255] * 4, self.rb(4), self.rb(4), self.rb(4), [127, 255, 255, 255], [128, 0, 0, 0], [0, 0, 0, 1]])

    def mint1(self, b, key, by, car, chr, **kw):
        return dict({"op": "mint", "b": b, "gen": 1, "key": key, "by": by, "car": car, "chr": chr, "cha": self.rb(7), "eov": self.day()}, **kw)

    def mint2(self, b, key, by, car, chr, **kw):
        d = [x if x != [0, 0, 0, 0] else [0, 0, 0, 1] for x in (self.day(), self.day())]
        return dict({"op": "mint", "b": b, "gen": 2, "key": key, "by": by, "car": car, "chr": chr, "cha": self.rb(7), "eov": d[0], "from": d[1]}, **kw)

    def key1(self, name):
        return "%s%d%s" % (name, self.rng.randrange(3), self.rng.choice(["", "", "e3"] + (["s", "s"] if name == "M" else [])))

    def curve(self):
        return self.rng.choice(CURVES)


# exponents that agree with 65537 in their last bytes, or in their first
FAR = [[0] * (8 - len(b)) + b for b in ([1, 0, 1, 0, 1], [1, 0, 0, 0, 0, 1, 0, 1], [128, 0, 0, 0, 0, 1, 0, 1], [1, 0, 0, 1, 0, 1], [1, 0, 0, 0, 1, 0, 1], [1, 1, 0, 1], [2, 0, 1], [1, 0, 1, 0], [1, 0, 3])]

def cert(h, kind, b=None):
    return {"op": "cert", "h": h, "b": b or h, "kind": kind}


def attempt(kind, h, g):
    return {"op": "attempt", "kind": kind, "h": h, "g": g}


def text(ref):
    return str(int.from_bytes(bytes(ref), "big"))


def filler(g, gen):
    """a file other than a certificate, so that the application is there"""
    return ef_rec(g, (0x050E, gen), g.value(0x050E, gen))


def flip(b, at, mask):
    return {"op": "flip", "b": b, "at": at, "mask": mask}


def realize1(g, x):
    """the commands that make one combination of generation 1 real: what the
    card carries, what the source answers (a handle or a word), the root"""
    r = g.rng
    root, ca, other, inner, stray, me = g.refs(6)
    kr, kr2, kc, kc2, km = g.key1("R"), g.key1("Q"), g.key1("C"), g.key1("D"), g.key1("M")
    c = []
    for h, id, key in (("root", root, kr), ("root_k", root, kr2), ("root_i", other, kr)):
        c += [{"op": "mintroot", "b": h, "id": id, "key": key}, cert(h, "root")]
    how = x["ca"]
    c.append(g.mint1("ca", kc2 if how == "wrongkey" else kc, kr2 if how == "foreign" else kr, root, other if how in ("renamed", "cross") else ca,
                     **({"bad": r.choice(RSA_BAD)} if how == "forged" else {})))
    c.append(cert("ca", "rsa"))
    if how in ("recovered", "cross", "wrongkey", "halfkey"):
        c.append(attempt("root", "ca", "root"))
    if how == "halfkey":
        c.append({"op": "unset", "h": "ca", "path": [r.choice(["rsa_exponent", "rsa_modulus"])]})
    answer = how if how in ("error", "nil") else "ca"
    what = x["card"]
    parts = []
    if what not in ("missing", "absent"):
        kw = {}
        if what == "forged":
            kw["bad"] = r.choice(RSA_BAD)
        if what == "misnamed":
            kw["carp"] = stray
        c.append(g.mint1("card1", km, kr if what == "byroot" else kc, root if what == "byroot" else inner if what == "inner" else ca, me,
                         **dict(kw, **({"carp": ca} if what == "inner" else {}))))
        if what == "altered":
            c.append(flip("card1", r.randrange(186), 1 << r.randrange(8)))
        parts.append("card1")
    if what != "absent" and r.random() < 0.5:
        c.append(dict(g.mint1("ca1", kc, kr, root, ca), b="ca1"))
        parts.append("ca1")
    roots = {"error": "error", "nil": "nil", "genuine": "root", "otherkey": "root_k", "otherid": "root_i"}
    return c, parts, {"*": answer}, roots[x["root"]]


def realize2(g, x):
    r = g.rng
    root, ca, other, stray, me = g.refs(5)
    cv = r.choice(CURVES)
    kr, kc = g.curve() + "r", cv + "c"
    k2 = r.choice([cv, g.curve()]) + "d"
    km = g.curve() + "m"
    c = []
    how = x["ca"]
    c.append(g.mint2("cb", k2 if how == "otherkey" else kc, kr, root, other if how == "renamed" else ca, **({"bad": "offcurve"} if how == "offcurve" else {})))
    c.append(cert("cb", "ecc"))
    if how == "nokey":
        c.append({"op": "unset", "h": "cb", "path": r.choice([["public_key"], ["public_key", "public_point_x"], ["public_key", "public_point_y"], ["public_key", "domain_parameters_oid"]])})
    parts = []
    what = x["card"]
    if what not in ("missing", "absent"):
        c.append(g.mint2("sign2", km, k2 if what == "byother" else kc, stray if what == "misnamed" else ca, me, **({"bad": r.choice(ECC_BAD)} if what == "forged" else {})))
        if what == "altered":
            # somewhere in a value: holder, dates, or the key
            c.append(flip("sign2", r.choice([20, 21, 30, 31, -1, -2, -30, -40]) % 204, 1 << r.randrange(8)))
        parts.append("sign2")
    for p in ("ma2", "ca2", "link2"):
        if what != "absent" and r.random() < 0.3:
            c.append(g.mint2(p, km if p == "ma2" else kc, kc if p == "ma2" else kr, ca if p == "ma2" else root, me if p == "ma2" else ca))
            parts.append(p)
    return c, parts, {"*": how if how in ("error", "nil") else "cb"}


def load(g, parts, apps, f="f", extra=None):
    """the file made of those certificates, read and adopted"""
    c = [{"op": "buf", "b": "icc", "data": ICC0}, {"op": "buf", "b": "fill1", "data": g.value(0x050E, 1)}, {"op": "buf", "b": "fill2", "data": g.value(0x050E, 2)}]
    ps = [{"tag": [0, 2, 0], "b": "icc"}]
    if apps[0]:
        ps.append({"tag": [5, 14, 0], "b": "fill1"})
    ps += [{"tag": TAGS[p], "b": (extra or {}).get(p, p)} for p in parts]
    if apps[1]:
        ps.append({"tag": [5, 14, 2], "b": "fill2"})
    c += [{"op": "wrap", "to": "dl" + f, "parts": ps}, {"op": "parse", "b": "dl" + f, "f": f}, {"op": "adopt", "f": f}]
    return c


def verify(f, r, **kw):
    return dict({"op": "verify", "f": f, "r": r}, **kw)


def combos(run, which):
    p = run.path("scope_verify.json")
    json.dump({"which": which}, open(p, "w"))
    return run.explore("MC_Verify", env={"SCOPE": p})


def combination(g, x, name):
    r = g.rng
    g.n += 1
    c = [{"op": "case", "id": "%s%d" % (name, g.n)}]
    parts, rsa, ecc, root = [], {}, {}, "error"
    a1, a2 = x["one"]["card"] != "absent", x["two"]["card"] != "absent"
    if a1:
        d, p, rsa, root = realize1(g, x["one"])
        c += d
        parts += p
    if a2:
        d, p, ecc = realize2(g, x["two"])
        c += d
        parts += p
    r.shuffle(parts)
    c += load(g, parts, (a1, a2))
    # what a failing source hands out along with its error: the very certificates that would do
    rest = {}
    if r.random() < 0.5:
        rest = {"root": root, "rsa": next(iter(rsa.values()), ""), "ecc": next(iter(ecc.values()), "")}
    c += [{"op": "source", "r": "s", "root": root, "rsa": rsa, "ecc": ecc, "fresh": 1 if r.random() < 0.2 else 0},
          {"op": "source", "r": "bad", "root": "error", "rsa": {}, "ecc": {}, "rest": rest},
          {"op": "source", "r": "rootless", "root": r.choice(["error", "nil"]), "rsa": rsa, "ecc": ecc, "rest": rest}]
    if r.random() < 0.3:
        c.append({"op": "chain", "r": "t", "of": r.choice([["bad", "s"], ["s", "bad"], ["rootless", "s"]])})
    else:
        c.append({"op": "chain", "r": "t", "of": ["s"]})
    c.append(verify("f", "s"))
    for k in r.choice([[], ["s"], ["bad", "s"], ["rootless", "s", "bad"], ["none", "s"], ["none"], ["t"], ["late", "s"], ["s", "late"]]):
        c.append(verify("f", "s", cancelled=1) if k == "late" else verify("f", k))
    return c


def flips(g, gen, what, at, mask, curve=None):
    """a genuine chain with one bit of one certificate (or of the root) altered"""
    g.n += 1
    c = [{"op": "case", "id": "flip%d.%s.%d.%d.%d" % (gen, what, at, mask, g.n)}]
    root, ca, me = g.refs(3)
    if gen == 1:
        kr, kc, km = "R0", "C0", "M0"
        c += [{"op": "mintroot", "b": "root", "id": root, "key": kr}, g.mint1("ca", kc, kr, root, ca), g.mint1("card1", km, kc, ca, me)]
        c += [flip(what, at, mask)]
        c += [cert("root", "root"), cert("ca", "rsa")]
        c += load(g, ["card1"], (True, False))
        c += [{"op": "source", "r": "s", "root": "root", "rsa": {"*": "ca"}, "ecc": {}}, verify("f", "s"), verify("f", "s")]
    else:
        kc = curve + "c"
        c += [g.mint2("cb", kc, "b256r", root, ca), g.mint2("sign2", "b256m", kc, ca, me)]
        c += [flip(what, at, mask), cert("cb", "ecc")]
        c += load(g, ["sign2"], (False, True))
        c += [{"op": "source", "r": "s", "root": "error", "rsa": {}, "ecc": {"*": "cb"}}, verify("f", "s"), verify("f", "s")]
    return c


def C17(run):
    g = Trust(run)
    r = g.rng
    cases = []
    one, two, both = combos(run, "gen1"), combos(run, "gen2"), combos(run, "both")
    todo = one * 2 + two * 3 + r.sample(both, 150)
    if big(run):
        todo = one * 12 + two * 30 + both * 3
    for x in todo:
        cases.append(combination(g, x, "combo"))
    # one bit altered anywhere
    masks = lambda: [1 << k for k in range(8)] if big(run) else [1 << r.randrange(8)]
    for what, n in (("card1", 194), ("ca", 194), ("root", 144)):
        for at in range(n):
            for m in masks():
                cases.append(flips(g, 1, what, at, m))
    for cv in CURVES:
        for what in ("sign2", "cb"):
            # 204 bytes are there whatever the curve
            ats = range(204) if big(run) or cv in ("b256", "n256") else r.sample(range(204), 40)
            for at in ats:
                for m in masks()[:2]:
                    cases.append(flips(g, 2, what, at, m, cv))
    # files that are no driver cards, no file, no card, late callers
    for k in range(60 if big(run) else 12):
        g.n += 1
        data = vu_download(g) if k % 3 else raw_card(g)
        c = [{"op": "case", "id": "other%d" % g.n}, {"op": "source", "r": "s", "root": "error", "rsa": {}, "ecc": {}},
             {"op": "buf", "b": "a", "data": data}, {"op": "parse", "b": "a", "f": "f"}, {"op": "adopt", "f": "f"},
             verify("f", "s"), verify("f", "s", cancelled=1), verify("", "s"), verify("", "default")]
        cases.append(c)
    cases += misnaming(run, g)
    # several files at once
    many = []
    for k in range(12 if big(run) else 4):
        g.n += 1
        c = [{"op": "case", "id": "many%d" % g.n}]
        root, ca, me, cb, stray = g.refs(5)
        c += [{"op": "mintroot", "b": "root", "id": root, "key": "R0"}, cert("root", "root"), g.mint1("ca", "C0", "R0", root, ca), cert("ca", "rsa"),
              g.mint1("x1", "M0", "C0", ca, me), g.mint1("y1", "M0", "D0", ca, me), g.mint2("cb", "n256c", "b256r", root, cb), cert("cb", "ecc"),
              g.mint2("x2", "b384m", "n256c", cb, me), g.mint2("y2", "b384m", "n256d", cb, me), g.mint2("z2", "b384m", "n256c", stray, me)]
        fs = []
        for i in range(6):
            f = "f%d" % i
            c += load(g, ["card1", "sign2"], (True, True), f, {"card1": r.choice(["x1", "x1", "y1"]), "sign2": r.choice(["x2", "x2", "y2", "z2"])})
            fs.append(f)
        c += [{"op": "source", "r": "s", "root": "root", "rsa": {text(ca): "ca"}, "ecc": {text(cb): "cb"}, "fresh": 1},
              {"op": "verifymany", "fs": fs, "r": "s"}, {"op": "verifymany", "fs": fs, "r": "s"}]
        many.append(c)
    run.check("intl", cases, spec="TrustTrace")
    run.check("intl", many, spec="TrustTrace", race=True, shards=2)


def alike(x):
    """names of other holders that only look like x"""
    n = int.from_bytes(bytes(x), "big")
    t = str(n)
    out = [n // 10, n // 1000, int(t[1:] or 0), int(t[3:] or 0), int(t[1:-1] or 0), int(t[::-1]), n * 10, n * 100 + 7, int("1" + t), int("42" + t), n & 0xFFFFFFFF, n >> 32 << 32,
           n >> 32, n >> 8, n >> 16, n << 8, n & (1 << 63) - 1, n | 1 << 63, n + 1, n - 1, n ^ 1 << 31, n ^ 1 << 32, int.from_bytes(bytes(x[::-1]), "big"),
           int.from_bytes(bytes(x[4:] + x[:4]), "big"), (1 << 64) - n]
    out += [n ^ 1 << (8 * k + 3) for k in range(8)]
    return [be(y, 8) for y in dict.fromkeys(out) if y != n and 0 <= y < 1 << 64]


def misnamed(g, x, y, which):
    """certificates that name x, checked with the key of a holder called y"""
    g.n += 1
    c = [{"op": "case", "id": "named%d.%s" % (g.n, which)}]
    root, ca, me = g.refs(3)
    if which == "ecc":
        kc = g.curve() + "c"
        return c + [g.mint2("ca", kc, "b256r", root, y), g.mint2("sign2", "b256m", kc, x, me), cert("ca", "ecc"), cert("sign2", "ecc"), attempt("ecc", "sign2", "ca")] + \
            load(g, ["sign2"], (False, True)) + [{"op": "source", "r": "s", "root": "error", "rsa": {}, "ecc": {"*": "ca"}}, verify("f", "s")]
    if which == "rsa":
        c += [{"op": "mintroot", "b": "root", "id": root, "key": "R0"}, cert("root", "root"), g.mint1("ca", "C0", "R0", root, y), g.mint1("card1", "M0", "C0", x, me)]
    else:
        c += [{"op": "mintroot", "b": "root", "id": y, "key": "R0"}, cert("root", "root"), g.mint1("ca", "C0", "R0", x, ca), g.mint1("card1", "M0", "C0", ca, me)]
    return c + [cert("ca", "rsa"), cert("card1", "rsa"), attempt("root", "ca", "root"), attempt("rsa", "card1", "ca")] + \
        load(g, ["card1"], (True, False)) + [cert("ca", "rsa"), {"op": "source", "r": "s", "root": "root", "rsa": {"*": "ca"}, "ecc": {}}, verify("f", "s")]


def misnaming(run, g):
    out = []
    for x in [be(7, 8), be(712, 8), be(g.rng.randrange(10 ** 9), 8)] + [g.ref() for _ in range(6 if big(run) else 1)]:
        for y in [x] + alike(x):
            for which in ("rsa", "root", "ecc"):
                if big(run) or y == x or g.rng.random() < 0.6:
                    out.append(misnamed(g, x, y, which))
    return out


def C18(run):
    g = Trust(run)
    r = g.rng
    cases = []
    scope = run.path("scope_attempts.json")
    json.dump({"depth": 3, "gen": 1}, open(scope, "w"))
    hist = [h["calls"] for h in run.explore("MC_Attempts", env={"SCOPE": scope})]
    if not big(run):
        hist = r.sample(hist, 700)
    elif len(hist) < 4000:
        raise ToolError("only %d histories" % len(hist))

    def world():
        root, ca, ca2, me, other = g.refs(5)
        kr, kr2, kc, km = g.key1("R"), g.key1("Q"), g.key1("C"), g.key1("M")
        c = []
        for h, id, key in (("root", root, kr), ("fake", root, kr2), ("other", other, kr)):
            c += [{"op": "mintroot", "b": h, "id": id, "key": key}, cert(h, "root")]
        c += [g.mint1("ca", kc, kr, root, ca), g.mint1("ca2", kc, kr, root, ca2), g.mint1("c", km, kc, ca, me), g.mint1("forged", km, kc, ca, me, bad=r.choice(RSA_BAD))]
        return c + [cert(h, "rsa") for h in ("ca", "ca2", "c", "forged")]
    for h in hist:
        g.n += 1
        c = [{"op": "case", "id": "hist%d" % g.n}] + world()
        # what the model calls in place of what makes the issuer ready
        if r.random() < 0.5:
            c.append(attempt("root", "ca", "root"))
        if r.random() < 0.2:
            c.append(attempt("root", "ca2", "root"))
        cases.append(c + h)
    # longer histories, with certificates read again and edited by the caller
    for k in range(400 if big(run) else 60):
        g.n += 1
        c = [{"op": "case", "id": "long%d" % g.n}] + world()
        for _ in range(r.choice([5, 10, 20])):
            q = r.random()
            if q < 0.35:
                c.append(attempt("root", r.choice(["ca", "ca2", "c"]), r.choice(["root", "root", "fake", "other", ""])))
            elif q < 0.8:
                c.append(attempt("rsa", r.choice(["c", "c", "forged", "ca", ""]), r.choice(["ca", "ca", "ca2", "c", ""])))
            elif q < 0.9:
                h = r.choice(["ca", "c", "ca2"])
                c.append(cert(h, "rsa"))
            else:
                h = r.choice(["ca", "c"])
                c.append(r.choice([{"op": "unset", "h": h, "path": [r.choice(["rsa_modulus", "rsa_exponent", "certificate_holder_reference", "raw_data", "end_of_validity"])]},
                                   {"op": "setbytes", "h": h, "path": ["rsa_modulus"], "v": r.choice([[0], [0] * 128, [1], [2] * 64, g.rb(128)])},
                                   {"op": "setbytes", "h": h, "path": ["rsa_exponent"], "v": r.choice([[0], [0] * 8, [1], [3], be(65537, 8), be(65537, 3)] + FAR)},
                                   {"op": "setbytes", "h": h, "path": ["raw_data"], "v": r.choice([[], [1], g.rb(193), g.rb(194), g.rb(195)])}]))
        cases.append(c)
    # a certificate read under the key it was made with, then under keys whose exponents differ from it in few bytes
    for e in FAR + [be(65537, 3), be(65537, 12), be(65537, 8)]:
        g.n += 1
        c = [{"op": "case", "id": "exponent%d" % g.n}] + world()
        c += [attempt("root", "ca", "root"), attempt("rsa", "c", "ca"), {"op": "setbytes", "h": "ca", "path": ["rsa_exponent"], "v": e}, attempt("rsa", "c", "ca"),
              {"op": "setbytes", "h": "root", "path": ["rsa_exponent"], "v": e}, attempt("root", "ca2", "root"), attempt("root", "ca", "root"), attempt("rsa", "c", "ca")]
        cases.append(c)
    # what is recovered: every kind of contents
    for k in range(600 if big(run) else 120):
        g.n += 1
        c = [{"op": "case", "id": "contents%d" % g.n}]
        root, ca, me, inner = g.refs(4)
        kr, kc, km = g.key1("R"), g.key1("C"), g.key1("M")
        c += [{"op": "mintroot", "b": "root", "id": root, "key": kr}, cert("root", "root"),
              g.mint1("ca", kc, kr, r.choice([root, root, inner]), ca, carp=root), cert("ca", "rsa"), attempt("root", "ca", "root"),
              g.mint1("c", km, kc, r.choice([ca, ca, inner]), me, carp=ca), cert("c", "rsa"), attempt("rsa", "c", "ca"), attempt("rsa", "c", "ca"),
              attempt("rsa", "c", "c"), attempt("rsa", "c", "ca"), attempt("root", "c", "root")]
        cases.append(c)
    # generation 2
    for k in range(500 if big(run) else 120):
        g.n += 1
        c = [{"op": "case", "id": "ecc%d" % g.n}]
        root, ca, me, other = g.refs(4)
        cv = CURVES[k % 6]
        kc = cv + "c"
        kd = r.choice([cv, g.curve()]) + "d"
        c += [g.mint2("ca", kc, g.curve() + "r", root, ca), g.mint2("ca2", kd, g.curve() + "r", root, ca), g.mint2("ca3", kc, g.curve() + "r", root, other),
              g.mint2("self", kc, kc, ca, ca), g.mint2("c", g.curve() + "m", kc, ca, me), g.mint2("forged", g.curve() + "m", kc, ca, me, bad=r.choice(ECC_BAD)),
              g.mint2("off", kc, g.curve() + "r", root, ca, bad="offcurve")]
        hs = ["ca", "ca2", "ca3", "self", "c", "forged", "off"]
        c += [cert(h, "ecc") for h in hs]
        c.append(attempt("ecc", "c", "ca"))
        for _ in range(r.choice([3, 6, 12])):
            q = r.random()
            if q < 0.75:
                c.append(attempt("ecc", r.choice(["c", "c", "c", "forged", "self", "ca", ""]), r.choice(["ca", "ca", "ca2", "ca3", "self", "off", "c", ""])))
            elif q < 0.85:
                c.append(cert(r.choice(hs), "ecc"))
            else:
                h = r.choice(["c", "ca"])
                c.append(r.choice([{"op": "unset", "h": h, "path": p} for p in (["public_key"], ["public_key", "public_point_x"], ["signature"], ["signature", "r"], ["signature", "s"], ["raw_data"])] +
                                  [{"op": "setbytes", "h": h, "path": ["signature", r.choice("rs")], "v": r.choice([[0], [1], g.rb(32), [255] * 64])},
                                   {"op": "setbytes", "h": h, "path": ["public_key", r.choice(["public_point_x", "public_point_y"])], "v": r.choice([[0], [1], g.rb(32), [255] * 32, [255] * 66])},
                                   {"op": "setbytes", "h": h, "path": ["raw_data"], "v": r.choice([[], [1], g.rb(203), g.rb(204), g.rb(341), g.rb(342), [127, 33] + g.rb(210), [127, 33, 129, 207, 127, 78, 129, 240] + g.rb(200)])}]))
        c.append(attempt("ecc", "c", "ca"))
        cases.append(c)
    # files verified again and again
    one, two, both = combos(run, "gen1"), combos(run, "gen2"), combos(run, "both")
    for x in r.sample(one, 100 if not big(run) else 350) + two + r.sample(both, 100 if not big(run) else 1500):
        cases.append(combination(g, x, "combo"))
    # cards with everything on them: reading sets no mark
    for k in range(60 if big(run) else 10):
        g.n += 1
        c = [{"op": "case", "id": "read%d" % g.n}]
        root, ca, me = g.refs(3)
        c += [g.mint1("card1", "M0", "C0", ca, me), g.mint1("ca1", "C0", "R0", root, ca)]
        for p in ("ma2", "sign2", "ca2", "link2"):
            c.append(g.mint2(p, g.curve() + "m", g.curve() + "c", ca, me))
        c += load(g, ["card1", "ca1", "ma2", "sign2", "ca2", "link2"], (True, True))
        c += [verify("f", "none"), {"op": "parse", "b": "dlf", "f": "f"}, {"op": "adopt", "f": "f"}, verify("f", "none")]
        cases.append(c)
    cases += misnaming(run, g)
    run.check("intl", cases, spec="TrustTrace")


def ask(r, kind, ref, **kw):
    return dict({"op": "ask", "r": r, "kind": kind, "ref": ref, "refcodes": [ord(x) if ord(x) < 256 else 63 for x in ref]}, **kw)


def C19(run):
    g = Trust(run)
    r = g.rng
    cases = []
    scope = run.path("scope_chain.json")
    json.dump({"plain": 4 if big(run) else 3, "nested": 3 if big(run) else 2}, open(scope, "w"))
    chains = [x["chain"] for x in run.explore("MC_Chain", env={"SCOPE": scope})]
    if len(chains) < 250:
        raise ToolError("only %d chains" % len(chains))

    def build(chain):
        """leaves with certificates of their own, chains of leaves, the chain"""
        c = []
        words = r.choice([None, "no", "", "context canceled", "%w %s"])  # errors that read the same are not the same

        def leaf(o, n):
            d = {"op": "source", "r": n, "root": o, "rsa": {"*": o}, "ecc": {"*": o}}
            if o == "ok":
                c.extend([{"op": "mintroot", "b": "r" + n, "id": g.ref(), "key": g.key1("R")}, cert("r" + n, "root"),
                          g.mint1("a" + n, g.key1("M"), g.key1("C"), g.ref(), g.ref()), cert("a" + n, "rsa"),
                          g.mint2("e" + n, "b256m", "n256c", g.ref(), g.ref()), cert("e" + n, "ecc")])
                d.update(root="r" + n, rsa={"*": "a" + n}, ecc={"*": "e" + n})
            elif o == "error" and r.random() < 0.5:
                # fails, but hands something out along with its error
                c.extend([{"op": "mintroot", "b": "r" + n, "id": g.ref(), "key": g.key1("R")}, cert("r" + n, "root"),
                          g.mint1("a" + n, g.key1("M"), g.key1("C"), g.ref(), g.ref()), cert("a" + n, "rsa"),
                          g.mint2("e" + n, "b256m", "n256c", g.ref(), g.ref()), cert("e" + n, "ecc")])
                d["rest"] = {"root": "r" + n, "rsa": "a" + n, "ecc": "e" + n}
            if words is not None and r.random() < 0.9:
                d["words"] = words
            c.append(d)
            return n

        def link(ms, n):
            of = []
            for i, (kind, x) in enumerate(ms):
                m = "%s_%d" % (n, i)
                of.append(leaf(x, m) if kind == "leaf" else link([("leaf", o) for o in x], m))
            c.append({"op": "chain", "r": n, "of": of})
            return n
        link(chain, "top")
        return c
    # most of all those in which nobody answers
    chains += [x for x in chains if "'ok'" not in repr(x) and "'nil'" not in repr(x)] * 3
    for chain in chains:
        g.n += 1
        c = [{"op": "case", "id": "chain%d" % g.n}] + build(chain)
        for kind in ("root", "rsa", "ecc"):
            c.append(ask("top", kind, text(g.ref()), h="h" + kind))
            if r.random() < 0.4:
                c.append(ask("top", kind, text(g.ref()), h="l" + kind, cancelled=1))
        c.append(ask("top", r.choice(["rsa", "ecc"]), r.choice(["", "0", "x", "../1", " 1", "18446744073709551616"]), h="again"))
        cases.append(c)
    # answers that depend on the reference: each member knows some
    for k in range(600 if big(run) else 100):
        g.n += 1
        c = [{"op": "case", "id": "tables%d" % g.n}]
        refs = [text(x) for x in g.refs(4)]
        n = r.choice([1, 2, 3, 5])
        of = []
        for i in range(n):
            rsa, ecc = {}, {}
            for t, kind in ((rsa, "rsa"), (ecc, "ecc")):
                for ref in refs:
                    if r.random() < 0.4:
                        b = "x%d%s%s" % (i, kind, ref)
                        c += [g.mint1(b, "M0", "C0", g.ref(), g.ref()) if kind == "rsa" else g.mint2(b, "n256m", "n256c", g.ref(), g.ref()), cert(b, kind)]
                        t[ref] = b
            d = {"op": "source", "r": "m%d" % i, "root": "error", "rsa": rsa, "ecc": ecc}
            if rsa and ecc and r.random() < 0.4:
                d["rest"] = {"rsa": r.choice(sorted(rsa.values())), "ecc": r.choice(sorted(ecc.values()))}
            if r.random() < 0.5:
                d["words"] = r.choice(["no", "no", "", "not found"])
            c.append(d)
            of.append("m%d" % i)
        if r.random() < 0.3:
            of.append(of[0])
        c.append({"op": "chain", "r": "in", "of": of[:2]})
        if r.random() < 0.3:
            of = of[2:] + ["in"]
        c.append({"op": "chain", "r": "top", "of": of})
        for i in range(8):
            c.append(ask(r.choice(["top", "top", "in"]), r.choice(["rsa", "ecc"]), r.choice(refs + ["5"]), h="h%d" % i, **({"cancelled": 1} if r.random() < 0.1 else {})))
        cases.append(c)
    run.check("intl", cases, spec="TrustTrace")


def store_of():
    """what the library was built with, and the European key it trusts"""
    d = os.path.join(lib.REPO, "internal/cert/certcache")
    index = json.load(open(d + "/index.json"))

    def table(es):
        t = {}
        for e in es:
            t.setdefault(e["chr"], e["url"])
        return t
    blobs = lambda n: {f[:-4]: list(open("%s/%s/%s" % (d, n, f), "rb").read()) for f in sorted(os.listdir(d + "/" + n)) if f.endswith(".bin")}
    return {"g1": blobs("g1"), "g2": blobs("g2"), "root": list(open(d + "/root/EC_PK.bin", "rb").read()),
            "index1": table(index["g1"]), "index2": table(index["g2"])}


def recovered(data, root):
    """the contents of a generation-1 certificate under a key, by arithmetic"""
    n, e = int.from_bytes(bytes(root[8:136]), "big"), int.from_bytes(bytes(root[136:144]), "big")
    sr = pow(int.from_bytes(bytes(data[:128]), "big"), e, n).to_bytes(128, "big")
    c = sr[1:107] + bytes(data[128:186])
    good = sr[0] == 0x6A and sr[127] == 0xBC and hashlib.sha1(c).digest() == sr[107:127]
    return good, c


def C20(run):
    g = Trust(run)
    r = g.rng
    store = store_of()
    sp = run.path("store.json")
    json.dump(store, open(sp, "w"))
    env = dict(lib.goenv(), STORE=sp)
    os.environ["STORE"] = sp
    cases = []
    idx = {"rsa": sorted(store["index1"]), "ecc": sorted(store["index2"])}
    blob = {"rsa": store["g1"], "ecc": store["g2"]}
    everywhere = sorted(set(idx["rsa"]) | set(idx["ecc"]) | set(store["g1"]) | set(store["g2"]))
    facts = []
    for chr, data in store["g1"].items():
        good, c = recovered(data, store["root"])
        if good:
            if str(int.from_bytes(c[20:28], "big")) != chr:
                raise ToolError("the stored certificate %s is another one" % chr)
            facts.append({"op": "fact", "gen": 1, "data": data, "car": list(c[1:9]), "eov": list(c[16:20]), "chr": list(c[20:28]), "n": list(c[28:156]), "e": list(c[156:164]),
                          "byn": store["root"][8:136], "bye": store["root"][136:144]})
    odd = ["", "0", " ", ".", "..", "../root/EC_PK", "../g1/" + next(iter(store["g1"])), "../g2/" + next(iter(store["g2"])), next(iter(store["g1"])) + ".bin", "+" + next(iter(store["g2"])),
           "0" + next(iter(store["g1"])), next(iter(store["g1"])) + " ", next(iter(store["g1"]))[:-1], "x/../" + next(iter(store["g1"])), "*", "%", "-1", "18446744073709551616", "1316820541096591105\u0000", "\u00e9"]

    # the embedded store: every reference anybody lists
    for i in range(0, len(everywhere), 60):
        g.n += 1
        c = [{"op": "case", "id": "embedded%d" % g.n}]
        for ref in everywhere[i:i + 60]:
            for kind in ("rsa", "ecc"):
                c.append(ask("embedded", kind, ref, h="h"))
        cases.append(c)
    for k in range(20 if big(run) else 4):
        g.n += 1
        c = [{"op": "case", "id": "stored%d" % g.n}] + facts
        for ref in r.sample(odd, len(odd)):
            for kind in ("rsa", "ecc"):
                c.append(ask("embedded", kind, ref, h="o"))
        # certificates handed out are the caller's own
        n = 0
        for round in range(3):
            for kind, t in blob.items():
                for ref in t:
                    n += 1
                    c += [ask("embedded", kind, ref, h="h%d" % n), {"op": "smudge", "h": "h%d" % n}]
            n += 1
            c += [ask("embedded", "root", "", h="h%d" % n), {"op": "smudge", "h": "h%d" % n}]
        c.append(ask("embedded", "root", "", h="root"))
        for ref in store["g1"]:
            c += [ask("embedded", "rsa", ref, h="ca" + ref), attempt("root", "ca" + ref, "root"), ask("embedded", "rsa", ref, h="cb" + ref)]
        c.append({"op": "askmany", "r": "embedded", "qs": [{"kind": k, "ref": ref} for k in blob for ref in list(blob[k])[:3] + idx[k][:2]] * 3 + [{"kind": "root"}]})
        for kind in blob:
            c.append(ask("embedded", kind, next(iter(blob[kind])), h="late", cancelled=1))
        cases.append(c)

    def own(kind, ref, b):
        """a certificate for the reference, or close to it"""
        car = be(r.randrange(1 << 60), 8)
        n = [int(x) for x in int(ref).to_bytes(8, "big")] if ref.isdigit() and int(ref) < 1 << 64 else g.ref()
        return g.mint1(b, "M0", "C0", car, n) if kind == "rsa" else g.mint2(b, g.curve() + "m", "n256c", car, n)

    # over HTTP: every listed reference
    def client(web, r="w"):
        return {"op": "internet", "web": web} if r == "default" else {"op": "client", "r": r, "web": web}
    for kind in ("rsa", "ecc"):
        refs = idx[kind] if big(run) else idx[kind][:40] + r.sample(idx[kind], 120) + idx[kind][-20:]
        for i in range(0, len(refs), 20):
            g.n += 1
            c = [{"op": "case", "id": "http%s%d" % (kind, g.n)}]
            web = {}
            for k, ref in enumerate(refs[i:i + 20]):
                c.append(own(kind, ref, "b%d" % k))
                web[store["index1" if kind == "rsa" else "index2"][ref]] = {"status": 200, "b": "b%d" % k}
            c.append(client(web))
            for ref in refs[i:i + 20]:
                c.append(ask("w", kind, ref, h="h"))
                c.append(ask("w", "ecc" if kind == "rsa" else "rsa", ref, h="o"))
            c.append(ask("w", "root", "", h="r"))
            cases.append(c)
    # everything that can go wrong on the way
    for k in range(1500 if big(run) else 260):
        g.n += 1
        c = [{"op": "case", "id": "web%d" % g.n}]
        kind = r.choice(["rsa", "ecc"])
        ref = r.choice(idx[kind] + list(blob[kind]) * 20)
        url = store["index1" if kind == "rsa" else "index2"].get(ref, "https://example.com/")
        c.append(own(kind, ref, "b"))
        how = r.choice(["fine", "status", "status", "cut", "more", "other", "other", "garbage", "broken", "down", "moved", "flip", "kind", "empty", "late", "unlisted"])
        reply = {"status": 200, "b": "b"}
        kw = {}
        if how == "status":
            reply["status"] = r.choice([100, 201, 202, 203, 204, 206, 300, 304, 400, 401, 403, 404, 410, 418, 429, 500, 502, 503, 599])
        elif how == "cut":
            reply["cut"] = r.choice([0, 1, 100, 193, 203, r.randrange(194)])
        elif how == "more":
            reply["more"] = r.choice([[0], [10], [13, 10], g.rb(5), g.rb(194)])
        elif how == "other":
            c[-1] = own(kind, r.choice([str(int(ref) ^ (1 << r.randrange(64))), str(int(ref) // 10), r.choice(idx[kind])]), "b")
        elif how == "garbage":
            reply = {"status": 200, "body": g.rb(r.choice([0, 1, 194, 204, 220, 341, 400]))}
        elif how == "broken":
            reply["broken"] = 1
            if r.random() < 0.5:
                reply["cut"] = r.choice([0, 100, 194, 210])
        elif how == "down":
            reply = {"status": 0}
        elif how == "flip":
            c.append(flip("b", r.randrange(194), 1 << r.randrange(8)))
        elif how == "kind":
            c[-1] = own("ecc" if kind == "rsa" else "rsa", ref, "b")
        elif how == "empty":
            reply = {"status": 200, "body": []}
        elif how == "late":
            kw["cancelled"] = 1
        elif how == "unlisted":
            ref = r.choice(odd + [ref + "0", ref[:-1], " " + ref, idx["ecc" if kind == "rsa" else "rsa"][r.randrange(200)], text(g.ref())])
        web = {"*": {"status": 404}, url: reply}
        if how == "moved":
            web = {"*": {"status": 404}, url: {"status": r.choice([301, 302, 303, 307, 308]), "location": "https://example.com/x"}, "https://example.com/x": r.choice([reply, {"status": 404}])}
        if how in ("unlisted", "down", "fine") and r.random() < 0.5:
            web = {"*": reply}
        at = r.choice(["w", "w", "default"])
        c.append(client(web, at))
        c.append(ask(at, kind, ref, h="h", **kw))
        # the next question is not spoilt by the last
        ok = r.choice(idx[kind])
        c += [own(kind, ok, "d"), client({store["index1" if kind == "rsa" else "index2"][ok]: {"status": 200, "b": "d"}}, at), ask(at, kind, ok, h="k"),
              ask(at, kind, ref, h="l", **kw)]
        cases.append(c)
    # references written otherwise are other references
    spell = [lambda x: "0" + x, lambda x: "00" + x, lambda x: x + " ", lambda x: " " + x, lambda x: "+" + x, lambda x: x + "\n", lambda x: x + "\0", lambda x: x + ".0", lambda x: x + ".bin",
             lambda x: "%x" % int(x), lambda x: "0x%X" % int(x), lambda x: "%016X" % int(x), lambda x: x[:5] + "_" + x[5:], lambda x: x[:5] + " " + x[5:], lambda x: x + "0", lambda x: x[1:], lambda x: x[:-1],
             lambda x: str(int(x) + 1), lambda x: str(int(x) - (1 << 64)), lambda x: str(int(x) + (1 << 64)), lambda x: x + x, lambda x: x.translate({48 + d: 0x660 + d for d in range(10)}), lambda x: "%e" % int(x), lambda x: ""]
    for kind in idx:
        for at in ("w", "default", "embedded"):
            g.n += 1
            ref = r.choice(list(blob[kind]) if at == "embedded" else [x for x in idx[kind] if x not in blob[kind]])
            c = [{"op": "case", "id": "spelt%d" % g.n}, own(kind, ref, "b")]
            if at != "embedded":
                c.append(client({"*": {"status": 404}, store["index1" if kind == "rsa" else "index2"][ref]: {"status": 200, "b": "b"}}, at))
            cases.append(c + [ask(at, kind, f(ref), h="h") for f in spell] + [ask(at, kind, ref, h="k")])
    # one client over a changing world: every answer is what the web says now
    for k in range(300 if big(run) else 60):
        g.n += 1
        c = [{"op": "case", "id": "again%d" % g.n}]
        qs = []
        for i in range(r.choice([1, 1, 2])):
            kind = r.choice(["rsa", "ecc"])
            ref = r.choice(idx[kind])
            qs.append((kind, ref, store["index1" if kind == "rsa" else "index2"][ref]))
            c += [own(kind, ref, "b%d.%d" % (i, j)) for j in range(2)]
        at = r.choice(["w", "w", "default"])
        for step in range(r.choice([3, 4, 6])):
            web = {"*": {"status": 404}}
            for i, q in enumerate(qs):
                b = "b%d.%d" % (i, r.choice([0, 0, 1]))
                web[q[2]] = r.choice([{"status": 200, "b": b}] * 4 + [{"status": 404}, {"status": 503, "b": b}, {"status": 200, "b": b, "broken": 1},
                                      {"status": 200, "b": b, "cut": 100}, {"status": 200, "body": []}, {"status": 0}])
            c.append(dict(client(web, at), same=1))
            for _ in range(r.choice([1, 2, 3])):
                q = r.choice(qs)
                h = "h%d.%d" % (step, len(c))
                c.append(ask(at, q[0], q[1], h=h))
                if r.random() < 0.6:
                    c.append({"op": "smudge", "h": h})
        cases.append(c)
    # the source used by default: the store first, then the network
    for k in range(60 if big(run) else 12):
        g.n += 1
        c = [{"op": "case", "id": "default%d" % g.n}] + facts
        web = {"*": {"status": 404}}
        asks = []
        for i in range(6):
            kind = r.choice(["rsa", "ecc"])
            ref = r.choice(idx[kind] + list(blob[kind]) * 150 + odd)
            url = store["index1" if kind == "rsa" else "index2"].get(ref)
            if url:
                c.append(own(kind, ref, "b%d" % i))
                web[url] = {"status": r.choice([200, 200, 500]), "b": "b%d" % i}
            asks.append(ask("default", kind, ref, h="h%d" % i))
        c.append(client(web, "default"))
        asks.append(ask("default", "root", "", h="root"))
        cases.append(c + asks)
    run.check("intl", cases, spec="TrustTrace")
