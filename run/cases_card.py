"""Plans for the card download properties."""
import json
from cases_value import set_texts, value_cases
from gen import Gen, be, rec, icc_rec, ICC0


def big(run):
    return run.tier == "thorough"


def random_stream(g, fids, n, lens):
    out = []
    for _ in range(n):
        ln = g.rng.choice(lens)
        out += rec(g.rng.choice(fids), g.rng.choice([0, 1, 2, 3, 4, 7, 254, 255, g.byte()]), [g.rng.randrange(256) for _ in range(ln)])
    return out


def C01(run):
    g = Gen(run)
    r = g.rng
    cases = []
    foreign = [1289, 1290, 1291, 1292, 12079, 12080, 0, 1, 3, 7, 0xFFFF, 0x7600, 0x0507 + 0x1000]
    anyf = foreign + [e["fid"] for e in g.table]
    first = lambda: rec(2, r.choice([0, 0, 1, 2, 3, 255]), g.bytes(r.choice([0, 1, 25])))
    # raw cards: a foreign file among random records
    for i in range(900 if big(run) else 220):
        data = first() + rec(r.choice(foreign), r.choice([0, 2, 4]), g.bytes(r.randrange(4))) + \
            random_stream(g, anyf, r.choice([0, 1, 2, 3, 8]), [0, 1, 2, 3, 5, 17])
        cases.append(g.case(data, "raw"))
    # every truncation point of some downloads
    for i in range(12 if big(run) else 4):
        data = rec(2, 0, g.bytes(r.choice([0, 3]))) + rec(r.choice(foreign), 0, g.bytes(r.randrange(6))) + \
            random_stream(g, anyf, r.choice([1, 2]), [0, 1, 4])
        for k in range(2, len(data)):
            cases.append(g.case(data[:k], "cut", marshal=False))
        cases.append(g.case(data + [r.randrange(256)], "tail"))
    # the lengths the header can express, at and around the powers of two
    lens = sorted({0, 1, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65530, 65531, 65532, 65533, 65534, 65535})
    for ln in lens:
        body = [r.randrange(256) for _ in range(ln)]
        cases.append(g.case(rec(2, 0, []) + rec(r.choice(foreign[:6]), 0, body) + rec(5, 0, [1]), "len%d_" % ln))
        if ln > 5:
            cases.append(g.case(rec(2, 0, []) + rec(0x7777, 0, body)[:-1], "lencut%d_" % ln, marshal=False))
    # many records
    cases.append(g.case(rec(2, 0, []) + rec(1290, 0, []) * 700, "many"))
    for n in (255, 256, 257, 1000):
        data = rec(2, 0, []) + rec(1290, 0, [1]) + random_stream(g, anyf, n, [0, 0, 1, 2])
        cases.append(g.case(data, "many"))
        cases.append(g.case(data + [r.randrange(256)] * r.randrange(1, 5), "many"))
    if big(run):
        cases.append(g.case(rec(2, 0, []) + rec(1290, 0, [1]) * 5000, "many"))
        for _ in range(40):
            ln = r.randrange(65536)
            cases.append(g.case(rec(2, 0, []) + rec(1290, 0, [r.randrange(256) for _ in range(ln)]), "rlen"))
    # driver cards with a file of more than 64 KiB are accepted too
    for n in (2730, 2731):
        ev = g.value(1282, 1, n=0) + g.slot(1282, g.rows[(1282, 1)]["lay"]) * n
        if len(ev) <= 65535:
            cases.append(g.case(icc_rec() + rec(1282, 0, ev), "driver"))
    cases.append(g.case(icc_rec() + rec(1284, 0, g.activity(days=3, spare=65400)), "driver"))
    # downloads of more than a MiB
    for n in (17, 66) if big(run) else (17,):
        cases.append(g.case(rec(2, 0, []) + rec(1290, 0, []) + sum((rec(0x7777 + i % 3, i % 2, [i % 251] * 65535) for i in range(n)), []) + rec(5, 0, [1]), "vast"))
    # every download of a few bytes
    for x in run.explore("MC_Framing", env={"DEPTH": "10" if big(run) else "9"}):
        cases.append(g.case(x["b"], "tiny", marshal=len(x["b"]) > 6))
    run.check("pub", cases)


def C02(run):
    g = Gen(run)
    r = g.rng
    cases = []
    # header pairs
    pairs = [(a, b) for a in range(256) for b in ([0, 1, 2, 3, 5, 0x31, 0x76, 255] if not big(run) else range(256))
             if a != 0x76 and (a, b) != (0, 2)]
    for i, (a, b) in enumerate(pairs):
        cases.append(g.case([a, b] + g.bytes(r.choice([0, 1, 3, 12])), "head", want=0, marshal=False))
    for d in ([], [0], [2], [0x76], [255]):
        cases.append(g.case(d, "short", want=0, marshal=False))
    allf = [e["fid"] for e in g.table]
    inset = [e["fid"] for e in g.table if e["driver"]]
    out = [f for f in allf if f not in inset] + [0, 1, 3, 0x0510, 0xFFFF, 0x2F02]
    good = {}
    def val(fid):
        """contents that are fine for a driver card file, where the file is modelled with a layout"""
        ks = [k for k in g.content_places() if k[0] == fid]
        if ks:
            k = r.choice(ks)
            return k[1], g.value(*k)
        return 1, g.bytes(3)
    certs = {49408, 49409, 49416, 49417}
    plain = [f for f in inset if f not in certs]
    for _ in range(700 if big(run) else 200):
        n = r.choice([0, 1, 2, 5, 12])
        fs = [r.choice(plain) for _ in range(n)]
        kind = r.choice(["driver", "raw", "raw"])
        if kind == "raw":
            fs.insert(r.randint(0, len(fs)), r.choice(out))
            if r.random() < 0.3:
                fs.append(r.choice(allf))
        data = icc_rec()
        for f in fs:
            gen, v = val(f)
            if f in (2, 5):
                gen = 1
            data += rec(f, g.app(gen) if f in inset else r.choice([0, 2]), v)
            if kind == "raw" and r.random() < 0.2:
                data += rec(r.choice(allf + [7]), r.choice([1, 3]), g.bytes(4))
        cases.append(g.case(data, kind))
    # each file kind alone after the ICC, and last
    for f in allf + [0, 9, 0xFFFF]:
        gen, v = val(f) if f in inset else (1, [1, 2])
        if f not in certs:
            cases.append(g.case(icc_rec() + rec(f, g.app(gen) if f not in (2, 5) else 0, v), "one"))
            # a foreign file of either application, before and after files of a driver card
            if f not in inset:
                for a in (0, 2):
                    for pre, post in ([], rec(1312, 0, g.value(1312, 1))), (rec(1312, 0, g.value(1312, 1)), []), ([], []):
                        cases.append(g.case(icc_rec() + pre + rec(f, a, v) + post, "foreign"))
        cases.append(g.case(icc_rec() + rec(1289, 0, []) + rec(f, 0, v), "rawone"))
        # the same file only as a signature does not make it a foreign card
        cases.append(g.case(icc_rec() + rec(1290, 0, []) + rec(f, 1, v), "rawsig"))
    # what a record's appendix says, its length, or its bytes are, plays no part in whether the download is a card's
    for a in (range(256) if big(run) else [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 192, 254, 255]):
        for v in (icc_rec()[5:], [], [a] * 3):
            cases.append(g.case(rec(2, a, v), "appendix"))
            cases.append(g.case(rec(2, a, v) + rec(0x0520, 0, g.value(0x0520, 1)), "appendix"))
            cases.append(g.case(rec(2, a, v) + rec(r.choice(out), 0, [1]), "appendix"))
        cases.append(g.case(icc_rec() + rec(r.choice(plain), a, g.bytes(4)), "appendix"))
        cases.append(g.case(icc_rec() + rec(r.choice(out), a, g.bytes(4)), "appendix"))
        cases.append(g.case(icc_rec() + rec(0x7777, a, g.bytes(a)) + rec(1312, 0, g.value(1312, 1)), "appendix"))
    # downloads of very many files, one foreign file among them or none: first, last, or around a round number from either end
    for n in ([120, 255, 256, 257, 600, 1100, 4200] if big(run) else [120, 257, 600, 1100]):
        few = r.sample(plain, 3)
        body = [rec(f, g.app(gen) if f not in (2, 5) else 0, v) for f, (gen, v) in ((f, val(f)) for f in (r.choice(few) for _ in range(n)))]
        for at in (None, 0, n, n - 1, n // 2, min(n, 100), min(n, 256), max(0, n - 100)):
            fs = list(body)
            if at is not None:
                fs.insert(at, rec(r.choice(out[:-6]), 0, g.bytes(2)))
            cases.append(g.case(icc_rec() + [b for f in fs for b in f], "crowd"))
    run.check("pub", cases)


def ef_rec(g, place, v, sig=None):
    fid, gen = place
    out = rec(fid, g.app(gen), v)
    if sig is not None:
        out += rec(fid, g.app(gen, True), sig)
    return out


def both_alike(g):
    """Downloads in which the two applications hold the same contents."""
    r = g.rng
    ps = [p for p in g.content_places() if p[1] == 1 and (p[0], 2) in g.rows and g.rows[p]["lay"] == g.rows[(p[0], 2)]["lay"]]
    out = []
    for k in range(3):
        for p in ps:
            v, o = g.value(*p), (p[0], 2)
            sig = g.rb(64) if k == 1 and g.ef[p[0]]["signed"] else None
            out.append(icc_rec() + ef_rec(g, p, v, sig) + ef_rec(g, o, v, sig if k == 1 or not g.ef[p[0]]["signed"] else r.choice([None, g.rb(64)])))
            if k == 2:
                out.append(icc_rec() + ef_rec(g, o, v) + ef_rec(g, p, v))
        vs = [(p, g.value(*p)) for p in ps]
        out.append(icc_rec() + [b for p, v in vs for b in ef_rec(g, p, v)] + [b for p, v in vs for b in ef_rec(g, (p[0], 2), v)])
    return out


def alike(g, p, v):
    """The contents with, each time, one field that holds what another one of its type does."""
    fs = leaf_fields(g, p)
    for i, (f, at) in enumerate(fs):
        for h, to in fs[:i]:
            if f["t"] == h["t"] and f["w"] == h["w"] and f.get("e") == h.get("e") and max(at, to) + f["w"] <= len(v) and v[at:at + f["w"]] != v[to:to + f["w"]]:
                yield v[:at] + v[to:to + f["w"]] + v[at + f["w"]:]


def assembly_cases(g, count, name, sigs):
    """Downloads of several files, each file also read alone first (learned)."""
    r = g.rng
    cases = []
    places = [p for p in g.all_places() if p != (2, 1)]
    for i in range(count):
        recs = []                      # (place or None, app, fid, value)
        n = r.choice([1, 2, 3, 5, 9, 25])
        pool = r.sample(places, min(len(places), r.choice([1, 2, 4, 12, len(places)])))
        values = {}
        alone = []
        for _ in range(n):
            p = r.choice(pool)
            fid, gen = p
            v = g.value(fid, gen, n=r.choice([0, 1, 2])) if g.rows[p]["lay"]["kind"] == "table" else g.value(fid, gen)
            if (p, tuple(v)) not in values:
                values[(p, tuple(v))] = 1
                alone.append((p, v))
            # a file kept only in one application is put there whatever its generation bit says
            df = g.ef[fid]["df"]
            app = g.app(gen)
            if df == "g2" and r.random() < 0.3:
                app = 0
            if df == "card" and r.random() < 0.2:
                app = 2
            sig = None
            if g.ef[fid]["signed"] and r.random() < sigs:
                sig = g.rb(r.choice([0, 1, 64, 128, 128, 132, 200]))
            recs.append((fid, app, v, sig))
        bad = None
        q = r.random()
        if sigs and q < 0.45:
            bad = r.choice(["lone", "foreign", "gen", "double", "unsigned", "first"])
            k = r.randrange(len(recs))
            fid, app, v, sig = recs[k]
            if bad == "lone":
                recs.insert(k, ("raw", rec(fid, app | 1, g.rb(4))))
            elif bad == "foreign":
                o = r.choice(places)
                recs.insert(k + 1, ("raw", rec(o[0], g.app(o[1], True), g.rb(128))))
            elif bad == "gen":
                recs[k] = (fid, app, v, None)
                recs.insert(k + 1, ("raw", rec(fid, (app ^ 2) | 1, g.rb(128))))
            elif bad == "double":
                recs[k] = (fid, app, v, g.rb(128))
                recs.insert(k + 1, ("raw", rec(fid, app | 1, g.rb(128))))
            elif bad == "unsigned":
                u = r.choice([p for p in g.all_places() if not g.ef[p[0]]["signed"]])
                recs.insert(k, (u[0], g.app(u[1]), g.value(*u) if u != (2, 1) else ICC0, g.rb(128)))
            elif bad == "first":
                recs.insert(0, ("raw", rec(2, 1, g.rb(3))))
        elif not sigs and q < 0.12:
            # a generation-2 certificate file in the generation-1 application
            recs.insert(r.randint(0, len(recs)), (r.choice([49409, 49417]), 0, g.ecc(), None))
        data = icc_rec()
        if r.random() < 0.15:
            data += rec(2, 0, ICC0[:24] + [r.randrange(256)])
        for x in recs:
            if x[0] == "raw":
                data += x[1]
            else:
                fid, app, v, sig = x
                data += rec(fid, app, v)
                if sig is not None:
                    data += rec(fid, app | 1, sig)
        g.n += 1
        c = [{"op": "case", "id": "%s%d" % (name, g.n)}]
        if not sigs:
            for p, v in alone:
                c += [{"op": "buf", "b": "a", "data": icc_rec() + rec(p[0], g.app(p[1]), v)},
                      {"op": "parse", "b": "a", "f": "f", "want": 1, "learn": 1}]
        c += [{"op": "buf", "b": "a", "data": data}, {"op": "parse", "b": "a", "f": "f", "want": 1}]
        if sigs:
            c += [{"op": "marshal", "f": "f", "b": "w"}, {"op": "parse", "b": "w", "f": "g", "want": 1}]
        cases.append(c)
    # very many records of a few kinds, the only one of yet another kind at some place among them
    for n in [258, 300, 640] + ([1100, 4300] if count > 1000 else []):
        for rep in range(3):
            recs = []
            for p in r.sample(places, 5):
                lay = g.rows[p]["lay"]
                if lay["kind"] != "activity":
                    v = g.value(*p, n=r.choice([0, 1])) if lay["kind"] == "table" else g.value(*p)
                    recs.append((p, v, g.rb(r.choice([1, 64])) if sigs and g.ef[p[0]]["signed"] and r.random() < 0.7 else None))
            recs.sort(key=lambda x: len(x[1]))
            g.n += 1
            c = [{"op": "case", "id": "crowd%d" % g.n}]
            if not sigs:
                for p, v, _ in recs:
                    c += [{"op": "buf", "b": "a", "data": icc_rec() + rec(p[0], g.app(p[1]), v)}, {"op": "parse", "b": "a", "f": "f", "want": 1, "learn": 1}]
            seq = [r.choice(recs[:3]) for _ in range(n)]
            seq.insert(r.choice([0, 1, 100, 254, 255, 256, n - 1, n]), recs[-1])
            c += [{"op": "buf", "b": "a", "data": icc_rec() + [b for p, v, s in seq for b in ef_rec(g, p, v, s)]}, {"op": "parse", "b": "a", "f": "f", "want": 1}]
            if sigs:
                c += [{"op": "marshal", "f": "f", "b": "w"}, {"op": "parse", "b": "w", "f": "g", "want": 1}]
            cases.append(c)
    return cases


def assembled(run, g, name, fids, apps, depth, minimum, same, sigs, cap=None):
    """Downloads put together by TLC (MC_Assemble), letters made concrete."""
    scope = run.path("scope_%s.json" % name)
    json.dump({"fids": fids, "apps": apps, "data": ["a", "b"] if not sigs else ["a"], "sigs": ["", "s"] if sigs else [],
               "depth": depth, "min": minimum, "same": same}, open(scope, "w"))
    seqs = run.explore("MC_Assemble", env={"SCOPE": scope})
    if cap and len(seqs) > cap:
        seqs = g.rng.sample(seqs, cap)
    values = {}

    def val(fid, app, letter):
        if app & 1:
            return [] if letter == "" else values.setdefault((fid, app, letter), g.rb(128))
        df = g.ef[fid]["df"]
        gen = 1 if df == "card" else 2 if df in ("g2", "g2x") else 2 if app & 2 else 1
        k = (fid, gen, letter)
        if k not in values:
            n = {"a": 2, "b": 3}[letter] if g.rows[(fid, gen)]["lay"]["kind"] == "table" else None
            values[k] = g.value(fid, gen, n=n) if n else g.value(fid, gen)
        return values[k]

    cases = []
    per = 40
    for i in range(0, len(seqs), per):
        g.n += 1
        c = [{"op": "case", "id": "%s%d" % (name, g.n)}]
        read = set()
        for s in seqs[i:i + per]:
            for q in s["recs"]:
                k = (q["fid"], q["app"], q["v"])
                if not sigs and k not in read:
                    read.add(k)
                    c += [{"op": "buf", "b": "a", "data": icc_rec() + rec(q["fid"], q["app"], val(*k))},
                          {"op": "parse", "b": "a", "f": "f", "want": 1, "learn": 1}]
            data = icc_rec() + [b for q in s["recs"] for b in rec(q["fid"], q["app"], val(q["fid"], q["app"], q["v"]))]
            c += [{"op": "buf", "b": "a", "data": data}, {"op": "parse", "b": "a", "f": "f", "want": 1}]
            if sigs:
                c += [{"op": "marshal", "f": "f", "b": "w"}]
        cases.append(c)
    return cases


def driver_fids(g):
    return [e["fid"] for e in g.table if e["df"] in ("both", "card", "g2", "g2x")]


def C03(run):
    g = Gen(run)
    cases = assembly_cases(g, 1200 if big(run) else 160, "asm", 0)
    cases += assembled(run, g, "twice", [f for f in driver_fids(g) if f != 2], [0, 2], 2, 2, True, False)
    cases += assembled(run, g, "mixed", [1282, 1313, 49416], [0, 2], 4 if big(run) else 3, 1, False, False, cap=None if big(run) else 700)
    run.check("pub", cases)


def C04(run):
    g = Gen(run)
    cases = assembly_cases(g, 1500 if big(run) else 240, "sig", 0.6)
    cases += assembled(run, g, "each", driver_fids(g), [0, 1, 2, 3], 3 if big(run) else 2, 1, True, True)
    cases += assembled(run, g, "pair", [1287, 1282], [0, 1, 2, 3], 4 if big(run) else 3, 3, False, True, cap=6000 if big(run) else 900)
    run.check("pub", cases)


def roundtrip(g, data, name):
    return g.case(data, name, more=[
        {"op": "parse", "b": "w", "f": "g"}, {"op": "equal", "f": "f", "g": "g"},
        {"op": "marshal", "f": "g", "b": "w2"}])


def C05(run):
    g = Gen(run)
    r = g.rng
    cases = []
    places = [p for p in g.all_places() if p != (2, 1)]
    # every place on its own, with plain and with unusual contents
    for p in places:
        for k in range(12 if big(run) else 4):
            cases.append(roundtrip(g, icc_rec() + ef_rec(g, p, g.value(*p, wild=k % 2 == 1)), "one"))
        if g.ef[p[0]]["signed"]:
            cases.append(roundtrip(g, icc_rec() + ef_rec(g, p, g.value(*p), g.rb(r.choice([0, 1, 64, 128]))), "signed"))
    for k in range(20):
        cases.append(roundtrip(g, rec(2, 0, g.value(2, 1, wild=True)) + rec(5, 0, g.value(5, 1)), "icc"))
    # whole cards
    for i in range(400 if big(run) else 60):
        sub = r.sample(places, r.choice([2, 5, 12, len(places), len(places)]))
        data = icc_rec()
        for p in sub:
            wild = r.random() < 0.5
            data += ef_rec(g, p, g.value(*p, wild=wild), g.rb(128) if g.ef[p[0]]["signed"] and r.random() < 0.6 else None)
        if r.random() < 0.2:
            p = r.choice(sub)
            data += ef_rec(g, p, g.value(*p))
        cases.append(roundtrip(g, data, "card"))
    # big tables
    for p in [(1282, 1), (1283, 2), (1285, 1), (1285, 2), (1286, 2), (1316, 2), (1315, 2), (1314, 2), (1314, 1)]:
        lay = g.rows[p]["lay"]
        n = (65535 - g.width(lay["head"])) // g.width(lay["rec"])
        n = n if big(run) else min(n, 300)
        cases.append(roundtrip(g, icc_rec() + ef_rec(g, p, g.value(*p, n=n)), "big"))
    # cards that take more than 64 KiB (thorough: more than 1 MiB) altogether, big files early and late
    long_ = [(1282, 1), (1283, 2), (1285, 1), (1285, 2), (1286, 2), (1316, 2), (1315, 2), (1314, 2), (1282, 2), (1283, 1)]
    for i in range(12 if big(run) else 2):
        sub = r.sample(places, 12) + r.sample(places, 6)
        parts = {p: ef_rec(g, p, g.value(*p), g.rb(128) if g.ef[p[0]]["signed"] and r.random() < 0.6 else None) for p in sub}
        for p in r.sample(long_, (6 if i % 2 else 3) if big(run) else 2):
            lay = g.rows[p]["lay"]
            most = (r.choice([65535, 50000]) if big(run) else 36000) // g.width(lay["rec"])
            v = g.value(*p, n=1)
            head, slot = v[:g.width(lay["head"])], v[g.width(lay["head"]):]
            most -= (len(head) + most * g.width(lay["rec"]) > 65535) * 50
            v = head + [b for s in range(most // 50) for b in g.slot(p[0], lay) + slot * 49]
            parts[p] = ef_rec(g, p, v, g.rb(128) if g.ef[p[0]]["signed"] and r.random() < 0.6 else None)
        order = list(parts)
        r.shuffle(order)
        cases.append(roundtrip(g, icc_rec() + [b for p in order for b in parts[p]], "huge"))
    for d in both_alike(g):
        cases.append(roundtrip(g, d, "alike"))
    # files the model has no place for (known finding)
    for e in g.table:
        if e["driver"] and e["df"] == "-":
            cases.append(roundtrip(g, icc_rec() + rec(e["fid"], 0, g.bytes(7)), "probe"))
    # a nation code outside the table (known finding)
    for p in g.content_places():
        if g.rows[p]["lay"]["kind"] == "activity":
            continue
        for f, at in leaf_fields(g, p):
            if f["t"] == "enum" and f["e"] == "nation" or f["t"] in ("card18", "card18g"):
                v = g.value(*p, n=2) if g.rows[p]["lay"]["kind"] == "table" else g.value(*p)
                v[at + (0 if f["t"] == "enum" else 1)] = 0x40
                cases.append(roundtrip(g, icc_rec() + ef_rec(g, p, v), "nation"))
    # the activity file of a card at work
    for f in card_at_work(run, r, [(40, 8), (53, 7)] if big(run) else [(40, 5)], 2000 if big(run) else 120):
        cases.append(roundtrip(g, icc_rec() + rec(1284, r.choice([0, 2]), f), "work"))
    run.check("pub", cases)


def card_at_work(run, r, scopes, most):
    """Activity files of the states of MC_Ring."""
    seen = set()
    for size, depth in scopes:
        seen |= {tuple(x["file"]) for x in run.explore("MC_Ring", env={"SIZE": str(size), "DEPTH": str(depth)})}
    seen = sorted(seen)
    return [list(f) for f in (seen if len(seen) <= most else r.sample(seen, most))]


def C06(run):
    g = Gen(run)
    r = g.rng
    cases = []
    put = lambda v, name: cases.append(g.case(icc_rec() + rec(1284, r.choice([0, 2]), v), name, marshal=False))
    # every start position of some rings, so that every byte of a record falls on the end once
    for lens in ([0], [0, 1], [2, 0, 1], [1, 1, 1, 1]):
        for spare in (0, 1, 5):
            days = [g.day(changes=k) for k in lens]
            size = sum(len(d) + 4 for d in days) + spare
            for start in range(size):
                buf, newest = g.ring(days, size, start)
                put(be(start, 2) + be(newest, 2) + buf, "wrap")
    for i in range(1500 if big(run) else 150):
        v = g.activity(days=r.choice([1, 2, 5, 20, 40]))
        put(v, "ring")
        # corrupt pointers, links and lengths
        w = list(v)
        for _ in range(r.choice([1, 1, 2, 5])):
            k = r.randrange(2, len(w))
            w[k] = g.byte()
        put(w, "corrupt")
        w = list(v)
        w[2:4] = be(g.num(2), 2) if r.random() < 0.5 else be(r.randrange(len(v)), 2)
        put(w, "pointer")
        put(w[:4 + r.randrange(len(w) - 3)], "cut")
    # many days: more than a year, the largest ring
    days = [g.day(changes=0) for _ in range(430)]
    buf, newest = g.ring(days, 430 * 12 + 3, 1000)
    put(be(1000, 2) + be(newest, 2) + buf, "many")
    days = [g.day(changes=r.randrange(30)) for _ in range(900 if big(run) else 100)]
    buf, newest = g.ring(days, 65531, 65000)
    put(be(65000, 2) + be(newest, 2) + buf, "full")
    # very long days, alone and with others on either side, at the end of the ring or across it
    for n in ([1439, 1440, 1441, 1442, 1700, 2048, 4095, 8200, 16000, 31000] if big(run) else [1440, 1441, r.randrange(1442, 3000), 8200]):
        for lens in ([n], [2, n, 1], [1, n]) + (([n, 3, n],) if n < 9000 else ()):
            days = [g.day(changes=k) for k in lens]
            size = sum(len(d) + 4 for d in days) + r.choice([0, 1, 40])
            if size <= 65535:
                start = r.choice([0, r.randrange(size), size - 3])
                buf, newest = g.ring(days, size, start)
                put(be(start, 2) + be(newest, 2) + buf, "long")
    # days that are alike: the same date, presence counter, distance or all of it, next to one another or not
    for _ in range(400 if big(run) else 60):
        days = [g.day(changes=r.choice([0, 0, 1, 2])) for _ in range(r.choice([2, 3, 5, 9]))]
        for _ in range(r.choice([1, 2, 6])):
            a = r.randrange(len(days))
            b = r.choice([min(a + 1, len(days) - 1), r.randrange(len(days))])
            parts = r.choice([[(0, 4)], [(4, 6)], [(6, 8)], [(0, 6)], [(0, 8)], [(8, None)], [(0, None)], [(4, None)]])
            for lo, hi in parts:
                n = len(days[b]) if hi is None else hi
                days[b] = days[b][:lo] + days[a][lo:hi] + days[b][n:]
        if r.random() < 0.2:
            days.sort(key=lambda d: d[:4], reverse=r.random() < 0.5)
        size = sum(len(d) + 4 for d in days) + r.choice([0, 1, 20])
        start = r.randrange(size)
        buf, newest = g.ring(days, size, start)
        put(be(start, 2) + be(newest, 2) + buf, "alike")
    # loops
    for a, b in ((12, 12), (16, 16), (4, 4)):
        buf = be(a, 2) + be(b, 2) + g.day(changes=2)[:b - 4] + [0] * 16
        buf = buf[:max(b, 4)] if r.random() < 0.5 else buf
        put(be(0, 2) + be(0, 2) + buf, "loop")
    # a card at work: the file between any two of its writes
    for f in card_at_work(run, r, [(29, 8), (40, 8), (53, 8)] if big(run) else [(40, 6), (29, 6)], 6000 if big(run) else 500):
        put(f, "work")
    run.check("pub", cases)


def C07(run):
    g = Gen(run)
    r = g.rng
    cases = []
    # every change word
    words = list(range(65536))
    r.shuffle(words)
    step = 8192
    for k in range(0, 65536, step):
        d = be(g.num(4), 4) + [g.bcdb(), g.bcdb()] + be(g.num(2), 2)
        for w in words[k:k + step]:
            d += be(w, 2)
        buf, newest = g.ring([d], len(d) + 4, 0)
        cases.append(g.case(icc_rec() + rec(1284, r.choice([0, 2]), be(0, 2) + be(newest, 2) + buf), "words", marshal=False))
    # every presence counter byte pair that matters, many days per ring
    for k in range(64 if big(run) else 16):
        days = []
        for j in range(64):
            d = g.day(wild=True)
            hi = (k * 64 + j) * (1 if big(run) else 4)
            d[4:6] = [(hi >> 4) & 255, r.randrange(256)]
            days.append(d)
        size = sum(len(d) + 4 for d in days)
        buf, newest = g.ring(days, size, r.randrange(size))
        cases.append(g.case(icc_rec() + rec(1284, r.choice([0, 2]), be(0, 2) + be(newest, 2) + buf), "count", marshal=False))
    for k in range(600 if big(run) else 80):
        cases.append(g.case(icc_rec() + rec(1284, r.choice([0, 2]), g.activity(wild=True, days=r.choice([1, 3, 9]))), "days", marshal=False))
    # odd lengths and records too short to be decoded
    for n in list(range(0, 9)) + [9, 11, 13]:
        d = g.bytes(n)
        if n >= 6:
            d[4:6] = [0x12, 0x34]
        e = g.day(changes=1)
        buf, newest = g.ring([e, d], len(e) + len(d) + 8, 5 % (len(e) + len(d) + 8))
        cases.append(g.case(icc_rec() + rec(1284, 0, be(0, 2) + be(newest, 2) + buf), "odd", marshal=False))
    run.check("pub", cases)


def C08(run):
    g = Gen(run)
    r = g.rng
    cases = []
    tabs = [p for p in g.all_places() if g.rows[p]["lay"]["kind"] == "table"]
    for p in tabs:
        lay = g.rows[p]["lay"]
        w = g.width(lay["rec"])
        for n in [0, 1, 2, 3, 17] + ([100, 333] if big(run) else [60]):
            for k in range(6 if big(run) else 2):
                cases.append(g.case(icc_rec() + ef_rec(g, p, g.value(*p, n=n)), "tab", marshal=False))
        # slots that are empty or full of one byte between used ones
        for k in range(8 if big(run) else 3):
            v = g.fields(lay["head"])
            for j in range(12):
                v += r.choice([g.slot(p[0], lay), [0] * w, g.slot(p[0], lay)])
            cases.append(g.case(icc_rec() + ef_rec(g, p, v), "mix", marshal=False))
        for k in range(6):
            v = g.value(*p, n=4, wild=True)
            cases.append(g.case(icc_rec() + ef_rec(g, p, v), "wild", marshal=False))
        # slots in which two fields hold the same, or a field what it holds in the slot before
        ws = list(alike(g, p, g.value(*p, n=2)))
        for v in ws if big(run) else r.sample(ws, min(len(ws), 40)):
            cases.append(g.case(icc_rec() + ef_rec(g, p, v), "alike", marshal=False))
        # one slot alone and in the middle of others
        s = g.slot(p[0], lay)
        for a, b in ((0, 0), (1, 0), (0, 3), (5, 5)):
            v = g.fields(lay["head"])
            for _ in range(a):
                v += g.slot(p[0], lay)
            v += s
            for _ in range(b):
                v += g.slot(p[0], lay)
            cases.append(g.case(icc_rec() + ef_rec(g, p, v), "among", marshal=False))
        # around the sizes where buffers fill up
        limit = 65535 - g.width(lay["head"])
        sizes = {4096 // w + 1}
        sizes |= {limit // w}
        for n in sorted(sizes):
            cases.append(g.case(icc_rec() + ef_rec(g, p, g.value(*p, n=n)), "size", marshal=False))
        # pointers
        hw = g.width(lay["head"])
        for ptr in ([0, 1, 255, 256, 65535] if hw == 2 else [0, 1, 127, 255] if hw == 1 else []):
            v = g.value(*p, n=2)
            v[:hw] = be(ptr, hw)
            cases.append(g.case(icc_rec() + ef_rec(g, p, v), "ptr", marshal=False))
    run.check("pub", cases)


SINGLES = ("single", "appid", "appidv2", "ident", "control", "cert")


def C09(run):
    g = Gen(run)
    r = g.rng
    cases = []
    ps = [p for p in g.all_places() if g.rows[p]["lay"]["kind"] in SINGLES]
    for p in ps:
        def put(v, name):
            d = ef_rec(g, p, v)
            cases.append(g.case(d if p == (2, 1) else icc_rec() + d, name, marshal=False))
        for k in range(120 if big(run) else 14):
            put(g.value(*p), "plain")
        for k in range(60 if big(run) else 6):
            put(g.value(*p, wild=True), "wild")
        v = g.value(*p)
        n = len(v)
        lens = range(0, n + 40) if big(run) else sorted({0, 1, 2, 3, n - 2, n - 1, n + 1, n + 2, n + 17, 2 * n})
        for ln in lens:
            if ln != n and ln >= 0:
                put((v + g.bytes(40) + v)[:ln], "len")
        for _ in range(8 if big(run) else 2):
            for w in alike(g, p, g.value(*p)):
                put(w, "alike")
        # one byte at a time through its values
        if p[0] not in (49408, 49409, 49416, 49417):
            for pos in (range(n) if n < 60 else sorted(r.sample(range(n), 40))):
                for b in ([0, 1, 127, 128, 255] if big(run) else [r.choice([0, 255]), g.byte()]):
                    w = list(v)
                    w[pos] = b
                    put(w, "byte")
    # the driver identification's index characters
    for a in range(48, 91, 1 if big(run) else 3):
        v = g.value(1312, 1)
        v[15] = a
        v[16] = r.choice([48, 57, 65, 90, a])
        cases.append(g.case(icc_rec() + rec(1312, 0, v), "index", marshal=False))
    # every card type of a controller's card
    for t in (1, 2, 3, 4):
        v = g.value(1288, 1)
        v[1:5] = [1, 2, 3, 4]
        v[5] = t
        cases.append(g.case(icc_rec() + rec(1288, r.choice([0, 2]), v), "ctype", marshal=False))
    run.check("pub", cases)


def offsets(fs, at=0):
    """(field, offset) of every leaf field of a layout"""
    out = []
    for f in fs:
        if f["t"] == "group":
            out += offsets(f["fs"], at)
        else:
            out.append((f, at))
        at += f["w"]
    return out


def leaf_fields(g, p):
    """leaf fields of a place with their offset in a file with two slots"""
    lay = g.rows[p]["lay"]
    k = lay["kind"]
    if k == "single":
        return offsets(lay["rec"])
    if k == "appid":
        return offsets(g.singles["appid%d" % p[1]])
    if k == "appidv2":
        return offsets(g.singles["appidv2"])
    if k == "control":
        return offsets(g.singles["control"])
    if k == "ident":
        c = g.singles["identcard"]
        return offsets(c) + offsets(g.singles["identholder"], g.width(c))
    if k == "table":
        h = g.width(lay["head"])
        return offsets(lay["head"]) + offsets(lay["rec"], h) + offsets(lay["rec"], h + g.width(lay["rec"]))
    return []


TEXT_KINDS = ["StringValue", "Ia5StringValue", "HolderName", "DriverIdentification", "OwnerIdentification", "VehicleRegistration", "FullCardNumber"]


def C10(run):
    g = Gen(run)
    r = g.rng
    cases = []
    texts = {"ia5", "str", "vin", "card16"}
    for p in g.content_places():
        for f, at in leaf_fields(g, p):
            if f["t"] in texts:
                continue
            w = f["w"]
            vals = []
            if w == 1:
                vals = [[b] for b in (range(256) if big(run) or f["t"] in ("enum", "enumu", "ctl") else
                                      [0, 1, 2, 127, 128, 254, 255])]
                if f["t"] in ("enum", "enumu") and not big(run) and p[1] == 2:
                    vals = [[b] for b in sorted(r.sample(range(256), 24) + g.codes_of(f["e"])[:4])]
            elif f["t"] in ("bcd", "csv", "my"):
                vals = [be(n, 2) for n in (r.sample(range(65536), 1500) if big(run) else r.sample(range(65536), 16))]
                vals += [[0, 0], [0x99, 0x99], [0x12, 0x99], [0x09, 0x10], [0x01, 0x00], [0x00, 0x12], [0x13, 0x20], [0xFF, 0xFF], [0x0A, 0x00], [0x00, 0xA0]]
            elif f["t"] == "date":
                vals = [g.date() for _ in range(6)] + [[0, 0, 0, 0], [0x20, 0x24, 0x02, 0x29], [0x99, 0x99, 0x12, 0x31], [0xFF] * 4, [0x20, 0x24, 0x13, 0x01], [0x1A, 0, 1, 1]]
            elif w in (2, 3, 4):
                top = (1 << (8 * w)) - 1
                vals = [be(n, w) for n in {0, 1, 255, 256, top, top - 1, top // 2, top // 2 + 1, 1 << (8 * w - 8)}]
                vals += [be(g.num(w), w) for _ in range(200 if big(run) else 3)]
            elif f["t"] == "card18g":
                for t in range(6):
                    vals.append([t] + g.card18(False)[1:])
            else:
                vals = [g.bytes(w) for _ in range(4)]
            for x in vals:
                v = g.value(*p, n=2) if g.rows[p]["lay"]["kind"] == "table" else g.value(*p)
                if p[0] in (1282, 1283):
                    base = g.width(g.rows[p]["lay"]["head"])
                    for k in (0, 1):
                        v[base + 24 * k + 4] |= 1
                v[at:at + w] = x
                d = ef_rec(g, p, v)
                cases.append(g.case(d if p == (2, 1) else icc_rec() + d, "%d.%d." % p))
    # every activity word: several rings of thousands of changes (also C07)
    words = list(range(0, 65536, 1 if big(run) else 7))
    for k in range(0, len(words), 8192):
        d = be(g.num(4), 4) + [g.bcdb(), g.bcdb()] + be(g.num(2), 2)
        for w in words[k:k + 8192]:
            d += be(w, 2)
        buf, newest = g.ring([d], len(d) + 4, 0)
        cases.append(g.case(icc_rec() + rec(1284, r.choice([0, 2]), be(0, 2) + be(newest, 2) + buf), "words"))
    run.check("pub", cases)
    run.check("intl", value_cases(run, tough=big(run)))


def C11(run):
    g = Gen(run)
    r = g.rng
    cases = []
    for p in g.content_places():
        fl = [(f, at) for f, at in leaf_fields(g, p) if f["t"] in ("str", "ia5", "vin")]
        for f, at in fl:
            w = f["w"]
            vals = []
            if f["t"] == "str":
                pages = g.pages + [255, 4, 6, 8, 10, 11, 14, 17, 79, 81, 84, 86, 128, 254]
                for page in pages:
                    for _ in range(6 if big(run) else 1):
                        vals.append([page] + g.paged(w, False)[1:])
                # every byte of every page, at every position over the cases
                if big(run) or w > 30 and p in ((1312, 1), (1313, 2)) or p == (1287, 1):
                    for page in g.pages:
                        allb = list(range(33, 256))
                        r.shuffle(allb)
                        for k in range(0, len(allb), w - 3):
                            chunk = allb[k:k + w - 3]
                            vals.append([page, 65] + chunk + [66] + [32] * (w - 3 - len(chunk)))
                # one character only, or the same one over and over: every byte over the cases
                if big(run) or p in ((1312, 1), (1287, 1), (1285, 2)):
                    for b in range(256):
                        n = r.randrange(1, w)
                        lead = r.choice([0, 0, r.randrange(w - n)])
                        vals.append([r.choice(g.pages)] + [32] * lead + [b] * n + [r.choice([0, 32, 255])] * (w - 1 - n - lead))
                        vals.append([r.choice(g.pages)] + ([b, r.choice([b, 9, 10, 31, 32, 127, 133, 160])] + [32] * w)[:w - 1])
                for pad in (0, 32, 255, 9, 10, 13):
                    vals.append([r.choice(g.pages)] + ([65, 32, 66] + [pad] * w)[:w - 1])
                    vals.append([r.choice(g.pages)] + ([pad, 65, 32, 66] + [pad] * w)[:w - 1])
                    vals.append([r.choice(g.pages)] + [pad] * (w - 1))
            else:
                vals = [g.ascii(w) for _ in range(6)] + [[32] * w, [0] * w, [255] * w, g.bytes(w)]
                vals += [([32, 65, 32, 66] + [0] * w)[:w], ([65] * w), ([0, 65] + [32] * w)[:w]]
                vals += [([b] + [r.choice([0, 32, 255])] * w)[:w] for b in (range(256) if big(run) else [*range(1, 32), 127])]
                if big(run):
                    vals += [[b] * w for b in range(256)]
            for x in vals:
                v = g.value(*p, n=2) if g.rows[p]["lay"]["kind"] == "table" else g.value(*p)
                if p[0] in (1282, 1283):
                    for k in (0, 1):
                        v[24 * k + 4] |= 1
                v[at:at + w] = x
                d = ef_rec(g, p, v)
                cases.append(g.case(d if p == (2, 1) else icc_rec() + d, "%d.%d." % p))
    run.check("pub", cases)
    run.check("intl", value_cases(run, "text", TEXT_KINDS, big(run)) + set_texts(run, big(run)))
