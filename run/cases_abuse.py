"""Plans for input that is large, damaged or hostile."""
import json
from gen import Gen, be, rec, icc_rec, ICC0
from cases_card import big, ef_rec
from cases_use import card, raw_card, some_card, vu_download
from cases_trust import Trust
from cases_vu import KINDS


class Abuse(Trust):
    """Both kinds of contents: those of certificates and those of files."""
    day = Gen.day


EXT1 = [0, 1, 2, 127, 128, 254, 255]
EXT2 = [0, 1, 2, 3, 4, 5, 255, 256, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]


def calls(f="f", verify=True):
    m = {"mem": 1}
    c = [dict(m, op="marshal", f=f, b="w"), dict(m, op="display", f=f), dict(m, op="anonall", f=f)]
    for via in ("pb", "json", "text"):
        c.append(dict(m, op="store", f=f, g="s", via=via))
    c += [dict(m, op="marshal", f="s", b="w"), dict(m, op="parse", b="w", f="k")]
    if verify:
        c += [dict(m, op="verify", f=f, r="src"), dict(m, op="verify", f="s", r="none"), dict(m, op="verify", f=f, r="default")]
    return c


def spans_of(data, g):
    """the values of the records of a card download, with more weight on counts and pointers"""
    out, i = [], 0
    while i + 5 <= len(data):
        n = data[i + 3] * 256 + data[i + 4]
        fid = data[i] * 256 + data[i + 1]
        a, b = i + 5, min(i + 5 + n, len(data))
        if b > a:
            out.append([a, b])
            if fid == 1284:
                out += [[a, min(a + 4, b)]] * 2 + [[a + 4, b]] * 3
            elif fid in (1285, 1286, 1313, 1314, 1315, 1316, 1317):
                out += [[a, min(a + 2, b)]]
            elif data[i] in (0xC1, 0x7F):
                out += [[a, min(a + 24, b)]]
        i += 5 + n
    return out


def C15(run):
    g = Abuse(run)
    r = g.rng
    cases = []
    src = [{"op": "source", "r": "src", "root": "error", "rsa": {"*": "nil"}, "ecc": {"*": "error"}}]

    def put(data, name, more=True):
        g.n += 1
        cases.append([{"op": "case", "id": "%s%d" % (name, g.n)}] + src + [{"op": "buf", "b": "a", "data": data}, {"op": "parse", "b": "a", "f": "f", "mem": 1}] +
                     (calls() if more else []))
    # one file alone: filled with one value, cut short and too long
    for p in g.all_places():
        v = g.value(*p, n=2) if g.rows[p]["lay"]["kind"] == "table" else g.value(*p)
        e = lambda x: (icc_rec() if p != (2, 1) else []) + ef_rec(g, p, x, g.rb(128) if g.ef[p[0]]["signed"] else None)
        for x in (0, 255, 128, 48):
            put(e([x] * len(v)), "fill")
        n = len(v)
        for k in sorted({0, 1, 2, 3, 4, 5, n - 1, n + 1, n // 2, n + 2, 2 * n} | (set(range(n)) if big(run) else set())):
            if k >= 0:
                put(e((v + v)[:k]), "cut")
        # every single byte at its ends
        for at in range(len(v)) if big(run) else r.sample(range(len(v)), min(len(v), 12)):
            for x in (EXT1 if big(run) else r.sample(EXT1, 2)):
                put(e(v[:at] + [x] + v[at + 1:]), "byte")
        for at in (0, 1, 2, 3, n - 2):
            if 0 <= at < n - 1:
                for x in EXT2 if big(run) else r.sample(EXT2, 5):
                    put(e(v[:at] + be(x, 2) + v[at + 2:]), "word")
    # rings: pointers and lengths that lead anywhere
    for gen in (1, 2):
        for size in (0, 1, 3, 4, 5, 8, 12, 13, 20, 24):
            for k in range(60 if big(run) else 12):
                ring = []
                while len(ring) < size:
                    ring += be(r.choice([0, 1, 2, 3, 4, 5, 8, 11, 12, 13, size, size - 1, size + 1, 0xFFFF, 0x8000]) & 0xFFFF, 2)
                old, new = [r.choice([0, 0, 1, 4, size - 1, size, size + 1, 0xFFFF, r.randrange(size + 1)]) & 0xFFFF for _ in range(2)]
                put(icc_rec() + rec(1284, g.app(gen), be(old, 2) + be(new, 2) + ring[:size]), "ring")
        for v in ([0, 0, 0, 0] + be(4, 2) * 32764, [0, 0, 0, 0] + [0] * 65531, [0, 0, 0, 0] + be(0, 2) + be(65531, 2) + g.rb(65527),
                  be(0, 2) + be(65528, 2) + be(1, 2) * 32764, be(65534, 2) + be(65530, 2) + be(5, 2) * 32765, [0, 0, 0, 0] + (be(4, 2) + be(4, 2)) * 16382,
                  be(0, 2) + be(65524, 2) + (be(12, 2) + be(12, 2) + g.rb(8)) * 5460, be(4, 2) + be(0, 2) + (be(12, 2) + be(12, 2) + g.rb(8)) * 5460,
                  be(0, 2) + be(65524, 2) + (be(8, 2) + be(12, 2) + g.rb(8)) * 5460, be(0, 2) + be(16, 2) + be(65535, 2) * 30000):
            put(icc_rec() + rec(1284, g.app(gen), v[:65535]), "bigring")
    # counts and record arrays of vehicle units
    for x in g.transfers:
        t = x["tag"]
        for k in range(12 if big(run) else 2):
            v = g.vu_value(t)
            for at in (r.sample(range(len(v)), min(len(v), 60 if big(run) else 10)) if v else []):
                for w in r.sample(EXT2, 2):
                    put([0x76, t] + v[:at] + be(w, 2) + v[at + 2:], "vucount", False)
            for at in sorted({0, 1, 2, 3, 4, 5} | set(r.sample(range(len(v) + 1), min(len(v) + 1, 20)))):
                if at <= len(v):
                    put([0x76, t] + v[:at], "vucut", False)
            put([0x76, t] + v + [0x76, t] + v[:-1], "vutwice")
        for head in ([255, 255, 255, 255, 255], [1, 0, 0, 255, 255], [1, 255, 255, 0, 1], [1, 0, 1, 255, 255], [0, 0, 0, 0, 0]):
            put([0x76, t] + head * 12, "vuarray", False)
            put([0x76, t] + head + [0] * 300, "vuarray", False)
    for a in range(256):
        put([0x76, a], "vutag", False)
        put([0x76, a] + [255] * 40, "vutag", False)
    # certificates whose lengths lie
    for p in ((0xC100, 1), (0xC108, 1), (0xC100, 2), (0xC101, 2), (0xC108, 2), (0xC109, 2)):
        if p not in g.rows:
            continue
        v = g.cert(p[1])
        for at in range(len(v)) if big(run) else list(range(14)) + r.sample(range(len(v)), 20):
            for x in (0x80, 0x81, 0x82, 0x84, 0x88, 0x7F, 0xFF, 0) if p[1] == 2 and (at < 30 or big(run)) else (0, 255):
                put(icc_rec() + ef_rec(g, p, v[:at] + [x] + v[at + 1:]), "certlen")
    run.check("intl", cases, spec="LimitsTrace")

    # very large
    cases = []
    times = 60000 if big(run) else 12000
    for name, head, of, n in (
            ("tiny", icc_rec() + rec(1289, 0, []), rec(1290, 0, []), times), ("tinysig", icc_rec() + rec(1289, 0, []), rec(1290, 0, []) + rec(1290, 1, []), times // 2),
            ("samefile", icc_rec(), ef_rec(g, (1281, 1), g.value(1281, 1)), times // 2), ("empty", icc_rec(), rec(1312, 1, []), times),
            ("signed", icc_rec(), ef_rec(g, (1294, 1), g.value(1294, 1), g.rb(128)), times // 5),
            ("acts", icc_rec(), rec(1284, 0, g.activity(days=3)), times // 20),
            ("ring", icc_rec(), rec(1284, 0, be(0, 2) + be(0, 2) + [0] * 60000), 12),
            ("fullring", icc_rec(), rec(1284, 0, (lambda q: be(0, 2) + be(q[1], 2) + q[0])(g.ring([g.day(0) for _ in range(5000)], 60000, 0))), 3),
            ("events", icc_rec(), rec(1282, 0, g.value(1282, 1, n=0) + g.slot(1282, g.rows[(1282, 1)]["lay"]) * 2700), 12),
            ("vehicles", icc_rec(), rec(1285, 0, g.value(1285, 1, n=2000)), 12),
            ("raw", icc_rec() + rec(1289, 0, []), rec(1290, 0, g.rb(60000)), 30),
            ("vu1", [], [0x76, 1] + g.vu1("overview"), times // 20), ("vu2", [], [0x76, 2] + g.vu1("activities"), times // 20),
            ("vu22", [], [0x76, 0x22] + g.vu_value(0x22), times // 20), ("vu0", [], [0x76, 0], times), ("zeros", [], [0], 1000000), ("ff", [0, 2], [255], 1000000), ("v", [], [0x76], 1000000),
            ("vuarr", [0x76, 0x22], [1, 0, 0, 255, 255], 200000), ("icc", [], icc_rec(), times)):
        for tail in ([], [0]):
            g.n += 1
            b = [{"op": "case", "id": "huge_%s%d" % (name, g.n)}] + src
            b += [{"op": "buf", "b": k, "data": d} for k, d in (("head", head), ("of", of), ("tail", tail))]
            b += [{"op": "spread", "to": "a", "head": "head", "of": "of", "tail": "tail", "times": n}, {"op": "parse", "b": "a", "f": "f", "mem": 1, "limit": 60}]
            # what is written need not be shown
            b += [dict(x, limit=60) for x in [{"op": "display", "f": "f", "mem": 1}, {"op": "anonall", "f": "f", "mem": 1}, {"op": "store", "f": "f", "g": "s", "via": "pb", "mem": 1},
                                               {"op": "verify", "f": "f", "r": "none", "mem": 1}]]
            cases.append(b)
    run.check("intl", cases, spec="LimitsTrace", shards=4)

    # damaged in many ways at once, inside the harness
    cases = []
    count = 6000 if big(run) else 700
    n1, n2 = "certs%d", "x%d"
    mints = []
    for k in range(3):
        a, b, c = g.refs(3)
        mints += [g.mint1("r%d" % k, "M%d" % k, "C%d" % k, a, b), g.mint2("e%d" % k, g.curve() + "m", g.curve() + "c", a, b)]
    mints.append({"op": "mintroot", "b": "root", "id": g.refs(1)[0], "key": "R1"})
    names = ["r0", "r1", "r2", "e0", "e1", "e2", "root"]
    bases = []
    for k in range(24 if big(run) else 8):
        bases.append(("card", card(g, wild=k % 2 == 1)))
        bases.append(("some", some_card(g)))
        bases.append(("raw", raw_card(g)))
        bases.append(("acts", icc_rec() + rec(1284, g.app(1 + k % 2), g.activity(days=r.choice([1, 3, 6])))))
        gen, ver = KINDS[k % len(KINDS)]
        bases.append(("vu", vu_download(g, gen if gen != 2 else 1, 3) if gen == 1 else vu_download(g)))
    for p in g.all_places():
        if p != (2, 1):
            bases.append(("one", icc_rec() + ef_rec(g, p, g.value(*p))))
    for x in g.transfers:
        bases.append(("tr%02x_" % x["tag"], [0x76, x["tag"]] + g.vu_value(x["tag"])))
    for k, (name, data) in enumerate(bases):
        g.n += 1
        n = count // 4 if name == "card" else count // 2 if name in ("one", "raw") or name.startswith("tr") else count
        cases.append([{"op": "case", "id": "abuse_%s%d" % (name, g.n)}] + mints +
                     [{"op": "buf", "b": "a", "data": data}, {"op": "buf", "b": "o", "data": r.choice(bases)[1]},
                      {"op": "abuse", "b": "a", "with": "o", "seed": r.randrange(1 << 30), "count": n, "certs": names, "limit": 400,
                       "spans": spans_of(data, g) if data[0] == 0 else [[2, len(data)]]}])
    for k in range(40 if big(run) else 8):
        g.n += 1
        cases.append([{"op": "case", "id": "abusecerts%d" % g.n}] + mints + [{"op": "abusecerts", "seed": r.randrange(1 << 30), "count": count * 2, "certs": names, "limit": 400}])
    run.check("intl", cases, spec="LimitsTrace")
    # what happened inside those
    inner = {}
    for t in run.notes.pop("inner", []):
        for k, v in t.items():
            inner[k] = inner.get(k, 0) + v
    if inner:
        run.notes["damaged_inputs"] = inner
