"""Plans for what callers do with parsed files."""
import json
from lib import ToolError
from gen import Gen, be, rec, icc_rec, ICC0
from cases_card import big, ef_rec
from cases_vu import KINDS, uniform


def card(g, places=None, sigs=0.5, wild=False, n=2):
    """a driver card download of those places (all of them by default)"""
    r = g.rng
    data = icc_rec()
    for p in (places if places is not None else g.all_places()):
        if p == (2, 1):
            continue
        v = g.value(*p, wild=wild, n=n) if g.rows[p]["lay"]["kind"] == "table" else g.value(*p, wild=wild)
        data += ef_rec(g, p, v, g.rb(r.choice([64, 128])) if g.ef[p[0]]["signed"] and r.random() < sigs else None)
    return data


def some_card(g, k=None, **kw):
    ps = [p for p in g.all_places() if p != (2, 1)]
    return card(g, g.rng.sample(ps, k or g.rng.choice([1, 2, 3])), **kw)


def raw_card(g):
    r = g.rng
    return rec(2, 0, ICC0) + rec(1290, 0, g.bytes(r.randrange(9))) + rec(1289, r.choice([0, 1, 2]), g.bytes(3)) + rec(1312, 0, g.bytes(5))


def vu_download(g, gen=None, n=None):
    gen, ver = g.rng.choice(KINDS) if gen is None else (gen, 1 if gen == 2 else 0)
    return [b for t in uniform(g, gen, ver, n or g.rng.choice([1, 2, 3])) for b in g.transfer(t)]


def download(g, small=True):
    r = g.rng
    k = r.random()
    if k < 0.55:
        return some_card(g) if small else card(g)
    if k < 0.7:
        return raw_card(g)
    return vu_download(g)


def C24(run):
    g = Gen(run)
    r = g.rng
    cases = []

    def put(data, name):
        g.n += 1
        c = [{"op": "case", "id": "%s%d" % (name, g.n)}, {"op": "buf", "b": "a", "data": data},
             {"op": "parse", "b": "a", "f": "f"}, {"op": "marshal", "f": "f", "b": "w"}]
        for via in ("pb", "json", "text"):
            c += [{"op": "store", "f": "f", "g": "g", "via": via}, {"op": "marshal", "f": "g", "b": "w"}]
            # a copy of a copy, and a copy of what was written
        c += [{"op": "store", "f": "g", "g": "h", "via": r.choice(["pb", "json"])}, {"op": "marshal", "f": "h", "b": "w"},
              {"op": "parse", "b": "w", "f": "k"}, {"op": "store", "f": "k", "g": "k2", "via": "json"},
              {"op": "marshal", "f": "k", "b": "x"}, {"op": "marshal", "f": "k2", "b": "x"}]
        cases.append(c)
    for p in g.all_places():
        if p == (2, 1):
            continue
        for k in range(60 if big(run) else 6):
            put(card(g, [p], wild=k % 2 == 0, n=None), "one")
    for k in range(250 if big(run) else 30):
        put(card(g, wild=k % 2 == 0), "card")
        put(raw_card(g), "raw")
        put(vu_download(g, n=r.choice([1, 3, 7])), "vu")
    # long lists, many files, many transfers
    for p in [p for p in g.content_places() if g.rows[p]["lay"]["kind"] == "table"]:
        put(card(g, [p], n=r.choice([257, 300])), "long")
    put(icc_rec() + rec(1284, 0, g.activity(days=300)), "long")
    for n in (300, 400):
        put(rec(2, 0, ICC0) + rec(1290, 0, []) + [b for _ in range(n) for b in rec(r.choice([1289, 1312, 1290]), r.choice([0, 1, 2]), g.bytes(2))], "long")
    for gen, ver in KINDS:
        few = sorted((g.transfer(t) for t in g.vu_tags(gen, ver)), key=len)[:3]
        put([b for _ in range(260) for b in r.choice(few)], "long")
    for gen, ver in KINDS:
        for t in g.vu_tags(gen, ver):
            for k in range(20 if big(run) else 4):
                put([0x76, t] + g.vu_value(t, wild=k % 2 == 0), "t%02x_" % t)
    # text fields: what cannot be represented must not make a file impossible to store
    for p in g.content_places():
        from cases_card import leaf_fields
        for f, at in leaf_fields(g, p):
            if f["t"] not in ("str", "ia5", "vin", "bytes", "card18g", "card18"):
                continue
            for k in range(20 if big(run) else 3):
                v = g.value(*p, n=2) if g.rows[p]["lay"]["kind"] == "table" else g.value(*p)
                if p[0] in (1282, 1283):
                    for j in (0, 1):
                        v[24 * j + 4] |= 1
                w = f["w"]
                v[at:at + w] = ([v[at]] if f["t"] in ("card18", "card18g") or (f["t"] == "str" and r.random() < 0.7) else []) + [r.randrange(128, 256) if r.random() < 0.6 else r.randrange(256) for _ in range(w)]
                v = v[:sum(1 for _ in v)]
                lay = g.rows[p]["lay"]
                n = {"table": g.width(lay["head"]) + 2 * g.width(lay["rec"])}.get(lay["kind"])
                v = v[:n] if n else v[:lay["size"]] if lay["size"] else v
                d = ef_rec(g, p, v)
                put(d if p == (2, 1) else icc_rec() + d, "text")
    # numbers at the ends of their ranges
    for p in g.content_places():
        for fillb in (0, 255, 0x80, 0x7F):
            v = g.value(*p, n=2) if g.rows[p]["lay"]["kind"] == "table" else g.value(*p)
            d = ef_rec(g, p, [fillb] * len(v))
            put(d if p == (2, 1) else icc_rec() + d, "fill%d_" % fillb)
    run.check("pub", cases)


def C16(run):
    g = Gen(run)
    r = g.rng
    cases = []
    scope = run.path("scope.json")
    json.dump({"depth": 5 if big(run) else 4}, open(scope, "w"))
    hist = run.explore("MC_Alias", env={"SCOPE": scope})
    hist = r.sample(hist, min(len(hist), 9000 if big(run) else 900))

    def play(calls, a, b, name):
        g.n += 1
        c = [{"op": "case", "id": "%s%d" % (name, g.n)}, {"op": "buf", "b": "a", "data": a}, {"op": "buf", "b": "b", "data": b}]
        for x in calls:
            x = dict(x)
            if x["op"] == "parse":
                x.update(want=1, know=1)
            c.append(x)
        for h in ("f", "g"):
            c.append({"op": "view", "f": h})
        for x in ("a", "b"):
            c += [{"op": "dump", "b": x}]
        c += [{"op": "marshal", "f": "f", "b": "w"}, {"op": "view", "f": "g"}, {"op": "buf", "b": "a", "data": a},
              {"op": "parse", "b": "a", "f": "k", "want": 1, "know": 1}, {"op": "view", "f": "g"}, {"op": "fill", "b": "a", "v": 1},
              {"op": "view", "f": "k"}, {"op": "marshal", "f": "k", "b": "w"}, {"op": "marshal", "f": "k", "b": "w2"}]
        cases.append(c)
    for h in hist:
        play(h["calls"], download(g), download(g), "hist")
    # whole cards: everything a file remembers is touched once
    P = lambda x, h: {"op": "parse", "b": x, "f": h}
    full = [
        [P("a", "f"), {"op": "fill", "b": "a", "v": 0xA5}, P("b", "g"), {"op": "fill", "b": "b", "v": 0}],
        [P("a", "f"), P("a", "g"), {"op": "scribble", "f": "f"}, {"op": "marshal", "f": "g", "b": "b"}, P("b", "f")],
        [P("a", "f"), {"op": "marshal", "f": "f", "b": "b"}, P("b", "g"), {"op": "fill", "b": "b", "v": 7}, {"op": "scribble", "f": "g"}],
        [P("a", "f"), {"op": "display", "f": "f"}, P("b", "g"), {"op": "scribble", "f": "g"}, {"op": "fill", "b": "a", "v": 9}],
    ]
    for k in range(20 if big(run) else 3):
        for calls in full:
            a, b = card(g, wild=k % 2 == 1), card(g)
            play(calls, a, b, "whole")
            play(calls, vu_download(g, n=4), vu_download(g, n=4), "vu")
    run.check("pub", cases)
    # many at once, watched by the race detector
    par = []
    for k in range(30 if big(run) else 6):
        g.n += 1
        ds = [card(g), card(g, wild=True), raw_card(g), vu_download(g, 1, 3), vu_download(g, 2, 3), some_card(g), vu_download(g, 1, 1)]
        ds += [list(ds[0])]
        c = [{"op": "case", "id": "par%d" % g.n}]
        for i, d in enumerate(ds):
            c.append({"op": "buf", "b": "p%d" % i, "data": d})
        c.append({"op": "par", "bs": ["p%d" % i for i in range(len(ds))], "times": 6, "limit": 120})
        for i in range(len(ds)):
            c.append({"op": "dump", "b": "p%d" % i})
        par.append(c)
    run.check("pub", par, race=True, shards=2, env={"GORACE": "halt_on_error=1"})


# ---- edits ---------------------------------------------------------------
TEXTS = ("ia5", "str", "vin")


class Tidy(Gen):
    """Contents that survive forgetting the raw bytes: texts padded with
    spaces, listed codes, valid dates and records."""
    odd = False     # codes the regulation does not list, too
    twins = False   # equal slots, days and changes next to each other

    def ascii(self, n):
        r = self.rng
        k = r.choice([0, n, n, r.randint(0, n)])
        t = [r.randrange(33, 127) for _ in range(k)]
        if k > 4 and r.random() < 0.3:
            t[2] = 32
        return t + [32] * (n - k)

    def paged(self, n, wild):
        r = self.rng
        page = r.choice(self.pages)
        m = n - 1
        k = r.choice([0, m, m, r.randint(0, m)])
        hi = self.high[page]
        good = [b for b in range(128, 256) if hi[b - 128] > 160]
        t = [r.choice(good) if r.random() < 0.4 else r.randrange(33, 127) for _ in range(k)]
        return [page] + t + [32] * (m - k)

    def twin(self, had):
        return list(self.rng.choice(had[-2:]))

    def kind(self, f):
        return f["n"] in ("event_begin_time", "fault_begin_time", "control_time"), self.odd

    def new_field(self, f, wild=False):
        r = self.rng
        if f["t"] == "time":
            x = r.choice([0, 1, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, r.randrange(1, 1 << 32)])
            # these times say whether a slot is used at all
            return be(x or 2 if f["n"] in ("event_begin_time", "fault_begin_time", "control_time") else x, 4)
        if f["t"] == "enumu" and self.odd and r.random() < 0.6:
            return [r.choice([b for b in range(256) if b not in self.codes_of(f["e"])])]
        if f["t"] in ("enum", "enumu"):
            return [r.choice(self.codes_of(f["e"]))]
        if f["t"] == "csv":
            return r.choice([[0, 0], [1, 0], [1, 1]])
        if f["t"] == "ctl":
            return [r.randrange(32) << 3]
        if f["t"] == "date":
            y = r.randrange(1900, 2100)
            bcd = lambda n: (n // 10) * 16 + n % 10
            return [bcd(y // 100), bcd(y % 100), bcd(r.randint(1, 12)), bcd(r.randint(1, 28))]
        return super().new_field(f, False)

    def value(self, fid, gen, **kw):
        v = super().value(fid, gen, **kw)
        lay = self.rows[(fid, gen)]["lay"]
        if self.twins and lay["kind"] == "table":
            h, w = self.width(lay["head"]), self.width(lay["rec"])
            v = v[:h] + v[h:h + w] * ((len(v) - h) // w)
        return v

    def slot(self, fid, lay, wild=False):
        return self.fields(lay["rec"])

    def day(self, changes=None, wild=False):
        r = self.rng
        n = r.choice([1, 2, 3]) if changes is None else changes
        body = be(r.randrange(1, 1 << 32), 4) + [self.bcdb(), self.bcdb()] + be(self.num(2), 2)
        x = be(self.num(2), 2)
        for _ in range(n):
            body += x if self.twins else be(self.num(2), 2)
        return body

    def control(self):
        return self.fields(self.singles["control"])


def tidy_value(g, p, n=2, shape=None):
    lay = g.rows[p]["lay"]
    if lay["kind"] == "table":
        return g.value(*p, n=n)
    if lay["kind"] == "activity":
        days = [g.day(changes=k) for k in shape]
        if g.twins:
            days = [days[0] if len(d) == len(days[0]) else d for d in days]
        size = sum(len(d) + 4 for d in days) + 3
        start = g.rng.randrange(size)
        buf, newest = g.ring(days, size, start)
        return be(start, 2) + be(newest, 2) + buf
    if lay["kind"] == "control":
        return g.control()
    return g.value(*p)


def tidy_pair(g, places, n=2):
    """two downloads of the same shape, the second to take values from"""
    places = sorted(places)
    shape = [g.rng.choice([1, 2, 3]) for _ in range(3)]
    out = []
    vals = []
    for _ in range(2):
        data = icc_rec() if (2, 1) not in places else []
        vv = {}
        for p in places:
            v = tidy_value(g, p, n, shape)
            if p[0] == 1312 and vals:
                # the card number keeps its kind
                pass
            vv[p] = v
            data += ef_rec(g, p, v, g.rb(128) if g.ef[p[0]]["signed"] and g.rng.random() < 0.5 else None)
        vals.append(vv)
        out.append(data)
    return out[0], out[1], vals[0], vals[1], shape


def leaf_paths(g, p, n=2, shape=()):
    """(path below the place, type) of everything that can be edited in place"""
    lay = g.rows[p]["lay"]
    k = lay["kind"]
    out = []

    def go(fs, at):
        for f in fs:
            if f["t"] == "group":
                out.append((at + [f["n"]], "group", f))
                go(f["fs"], at + [f["n"]])
            elif f["n"]:
                out.append((at + [f["n"]], f["t"], f))
    if k == "single":
        go(lay["rec"], [])
    elif k == "appid":
        fs = g.singles["appid%d" % p[1]]
        go(fs[:2], [])
        go(fs[2:], ["driver"])
    elif k == "appidv2":
        go(g.singles["appidv2"], ["driver"])
    elif k == "ident":
        go(g.singles["identcard"], ["card"])
        go(g.singles["identholder"], ["driver_card_holder"])
    elif k == "control":
        go(g.singles["control"], [])
    elif k == "table":
        go(lay["head"], [])
        for i in range(n):
            out.append(([lay["list"], i], "slot", None))
            go(lay["rec"], [lay["list"], i])
    elif k == "activity":
        for i in range(len(shape)):
            for f in ("activity_record_date", "activity_daily_presence_counter", "activity_day_distance"):
                out.append((["daily_records", i, f], "day", None))
            for j in range(shape[i]):
                out.append((["daily_records", i, "activity_change_info", j], "change", None))
    return out


def view_path(g, p):
    f = g.rows[p]["lay"]["field"]
    return ["driver_card"] + ([] if p[0] in (2, 5) else ["tachograph"] if p[1] == 1 else ["tachograph_g2"]) + [f]


def same_card_kind(vals, p):
    """identification numbers of the two files are of the same kind"""
    ix = lambda b: all(48 <= x <= 57 or 65 <= x <= 90 for x in b)
    return ix(vals[0][p][15:17]) == ix(vals[1][p][15:17])


BACK = [{"op": "marshal", "f": "f", "b": "w"}, {"op": "parse", "b": "w", "f": "h", "want": 1}]


def C22(run):
    from cases_card import leaf_fields
    g = Tidy(run)
    r = g.rng
    cases = []

    def begin(name, a, d):
        g.n += 1
        return [{"op": "case", "id": "%s%d" % (name, g.n)}, {"op": "buf", "b": "a", "data": a}, {"op": "parse", "b": "a", "f": "f"},
                {"op": "buf", "b": "d", "data": d}, {"op": "parse", "b": "d", "f": "g"}]

    def graft(path, act="set", mode="all"):
        return {"op": "graft", "f": "f", "g": "g", "act": act, "mode": mode, "path": path}

    def edits_of(p, rest, t, f, base):
        """the edits that set one field"""
        path = base + rest
        if t == "enumu":
            return [[graft(path), graft(path[:-1] + ["unrecognized_" + path[-1]])], [graft(path)]]
        if t in ("str", "ia5"):
            return [[graft(path, mode="bare")], [graft(path)]]
        if t in ("group", "card18", "card18g", "slot"):
            return [[graft(path, mode="bare")], [graft(path)]]
        return [[graft(path)]]

    content = g.content_places()
    # one field at a time
    for p in content:
        base = view_path(g, p)
        for rep in range(6 if big(run) else 1):
            a, d, va, vd, shape = tidy_pair(g, [p])
            for rest, t, f in leaf_paths(g, p, 2, shape):
                for ed in edits_of(p, rest, t, f, base):
                    a, d, va, vd, sh = tidy_pair(g, [p])
                    while sh != shape:
                        a, d, va, vd, sh = tidy_pair(g, [p])
                    cases.append(begin("one%d.%d." % p, a, d) + ed + BACK)
                    if r.random() < 0.3:
                        # forgetting everything raw first
                        cases.append(begin("bare%d.%d." % p, a, d) + [graft(base, "strip")] + ed + BACK)
                    if len(rest) > 1 and isinstance(rest[1], int):
                        g.twins = True
                        a = tidy_pair(g, [p])
                        while a[4] != shape:
                            a = tidy_pair(g, [p])
                        g.twins = False
                        cases.append(begin("twins%d.%d." % p, a[0], d) + ed + BACK)
                    if r.random() < 0.3 and (p[0], 3 - p[1]) in content and g.rows[p]["lay"] == g.rows[(p[0], 3 - p[1])]["lay"]:
                        # the other application holds the very same
                        o = (p[0], 3 - p[1])
                        v = tidy_value(g, p, 2, shape)
                        sig = g.rb(64) if g.ef[p[0]]["signed"] and r.random() < 0.3 else None
                        cases.append(begin("both%d.%d." % p, icc_rec() + ef_rec(g, min(p, o), v, sig) + ef_rec(g, max(p, o), v, sig), d) + ed + BACK)
                if t == "enumu":
                    for how in ([], [graft(base, "strip")]):
                        g.odd = True
                        a, d, va, vd, sh = tidy_pair(g, [p])
                        g.odd = False
                        cases.append(begin("odd%d.%d." % p, a, d) + how + edits_of(p, rest, t, f, base)[0] + BACK)
        # a time or date that the caller takes away
        fl = [(f, at) for f, at in leaf_fields(g, p) if f["n"] and f["t"] in ("time", "date")] if g.rows[p]["lay"]["kind"] != "activity" else []
        pl = [x for x in leaf_paths(g, p, 2, ()) if x[1] in ("time", "date")] if fl else []
        for (f, at), (rest, t, h) in zip(fl, pl):
            if f["n"] in ("event_begin_time", "fault_begin_time", "control_time"):
                continue
            assert f["n"] == h["n"]
            for how in ([], [graft(base, "strip")]) if big(run) else (r.choice([[], [], [graft(base, "strip")]]),):
                va, vd = tidy_value(g, p, 2, []), tidy_value(g, p, 2, [])
                vd[at:at + 4] = [0] * 4
                va[at:at + 4] = va[at:at + 4] if any(va[at:at + 4]) else [0x20, 0x20, 1, 1]
                cases.append(begin("away%d.%d." % p, icc_rec() + ef_rec(g, p, va), icc_rec() + ef_rec(g, p, vd)) + how + [graft(base + rest)] + BACK)
        # nothing but forgetting; the whole file; the signature
        for rep in range(10 if big(run) else 2):
            a, d, va, vd, sh = tidy_pair(g, [p])
            cases.append(begin("strip%d.%d." % p, a, d) + [graft(base, "strip")] + BACK)
            cases.append(begin("file%d.%d." % p, a, d) + [graft(base)] + BACK)
            if g.ef[p[0]]["signed"]:
                cases.append(begin("sig%d.%d." % p, a, d) + [graft(base + ["signature"])] + BACK)
    # an entry far down a long list
    far = [p for p in content if g.rows[p]["lay"]["kind"] in ("table", "activity")]
    for p in far:
        base = view_path(g, p)
        for rep in range(12 if big(run) else 2):
            kind = g.rows[p]["lay"]["kind"]
            n = r.choice([130, 200, 258, 300])
            shape = [r.choice([0, 1, 2]) for _ in range(n)] if kind == "activity" else None
            if kind == "activity" and rep % 2:
                shape = [2, r.choice([258, 300, 1441, 1500]), 1]
            mk = lambda: icc_rec() + ef_rec(g, p, tidy_value(g, p, n, shape), g.rb(64) if g.ef[p[0]]["signed"] and r.random() < 0.3 else None)
            c = begin("far%d.%d." % p, mk(), mk())
            paths = [x for x in leaf_paths(g, p, n, shape or ()) if len(x[0]) > 1 and x[0][-2] == "activity_change_info" and x[0][-1] >= 126] if kind == "activity" and rep % 2 else \
                [x for x in leaf_paths(g, p, n, shape or ()) if len(x[0]) > 1 and isinstance(x[0][1], int) and x[0][1] >= 126]
            if r.random() < 0.4:
                c.append(graft(base, "strip"))
            for rest, t, f in r.sample(paths, 3):
                c += r.choice(edits_of(p, rest, t, f, base))
            cases.append(c + BACK)
    # the card number of an identification file
    for k in range(40 if big(run) else 8):
        a, d, va, vd, sh = tidy_pair(g, [(1312, 1)])
        who = [("driver_identification" if all(48 <= x <= 57 or 65 <= x <= 90 for x in v[(1312, 1)][15:17]) else "owner_identification") for v in (va, vd)]
        if who[0] == who[1]:
            for mode in ("all", "bare"):
                cases.append(begin("number", a, d) + [graft(["driver_card", "tachograph", "identification", "card", who[0]], mode=mode)] + BACK)
    # lists: every history of a few edits (enumerated by TLC) on every table
    scope = run.path("scope_edits.json")
    json.dump({"depth": 3, "start": 2, "donor": 3}, open(scope, "w"))
    hist = [h["acts"] for h in run.explore("MC_Edits", env={"SCOPE": scope})]
    tables = [p for p in content if g.rows[p]["lay"]["kind"] == "table"]
    lists = [(p, [g.rows[p]["lay"]["list"]]) for p in tables] + [((1284, 1), ["daily_records"]), ((1284, 2), ["daily_records"])]
    for p, rest in lists:
        base = view_path(g, p)
        some = hist if big(run) else r.sample(hist, 60)
        for h in some:
            g2, d2 = None, None
            shape = [r.choice([1, 2, 3]) for _ in range(3)]
            mk = lambda n: icc_rec() + ef_rec(g, p, tidy_value(g, p, n, shape[:n]), g.rb(64) if g.ef[p[0]]["signed"] and r.random() < 0.3 else None)
            c = begin("list%d.%d." % p, mk(2), mk(3))
            fresh = True
            for x in h:
                # the ring an activity file remembers must be forgotten when its days become others
                if p[0] == 1284 and fresh and x["act"] not in ("write", "strip"):
                    c.append(graft(base, "strip"))
                    fresh = False
                if x["act"] == "write":
                    fresh = True
                    c += [{"op": "marshal", "f": "f", "b": "w"}, {"op": "parse", "b": "w", "f": "f", "want": 1}]
                elif x["act"] == "strip":
                    c.append(graft(base, "strip"))
                else:
                    c.append(graft(base + rest + [x["i"]], x["act"], r.choice(["all", "bare"])))
            cases.append(c + BACK)
    # histories of edits over a whole card
    for k in range(200 if big(run) else 30):
        ps = r.sample(content, r.choice([3, 8, len(content)]))
        a, d, va, vd, shape = tidy_pair(g, ps)
        c = begin("many", a, d)
        for _ in range(r.choice([2, 3, 6])):
            p = r.choice(ps)
            base = view_path(g, p)
            q = r.random()
            if q < 0.1:
                c.append(graft(base, "strip"))
            elif q < 0.15:
                c.append(graft(base))
            elif q < 0.18 and p[0] not in (2, 5):
                c.append(graft(base[:2]))
            else:
                rest, t, f = r.choice(leaf_paths(g, p, 2, shape))
                c += r.choice(edits_of(p, rest, t, f, base))
            if r.random() < 0.4:
                c += BACK
        cases.append(c + BACK)
    # raw cards: records are put in, taken out and replaced
    for k in range(80 if big(run) else 20):
        c = begin("raw", raw_card(g), raw_card(g))
        n = 3
        for _ in range(r.choice([1, 2, 4])):
            act = r.choice(["set", "append", "insert", "delete"]) if n > 1 else "append"
            i = r.randrange(min(n, 3)) if r.random() < 0.1 or n < 2 else r.randrange(1, min(n, 3))
            c.append(graft(["raw_card", "records", i], act))
            n += {"set": 0, "append": 1, "insert": 1, "delete": -1}[act]
            if r.random() < 0.3:
                c += BACK
        cases.append(c + BACK)
    run.check("pub", cases)


def C23(run):
    g = Tidy(run)
    r = g.rng
    files = []  # name, data, places whose remembered bytes are forgotten, every place or random ones

    def put(name, data, bare, picks=0):
        g.n += 1
        files.append(("%s%d" % (name, g.n), data, bare, picks))
    for p in g.content_places():
        for k in range(6 if big(run) else 2):
            a, d, va, vd, sh = tidy_pair(g, [p], n=3 - k % 2)
            put("one%d.%d." % p, a, [view_path(g, p)] if k % 2 else [])
    for p in [p for p in g.all_places() if p not in g.content_places()]:
        put("cert%d.%d." % p, icc_rec() + ef_rec(g, p, g.value(*p)), [])
    for k in range(30 if big(run) else 4):
        put("raw", raw_card(g), [], 40)
        ps = r.sample(g.content_places(), 4)
        a, d, va, vd, sh = tidy_pair(g, ps)
        put("card", a, [view_path(g, p) for p in ps if r.random() < 0.7], 60)

    def start(name, data, bare):
        c = [{"op": "case", "id": name}, {"op": "buf", "b": "a", "data": data}, {"op": "parse", "b": "a", "f": "f"}]
        return c + [{"op": "graft", "f": "f", "g": "f", "act": "strip", "mode": "all", "path": path} for path in bare]
    # what can be changed in each file
    places = {}
    case = None
    for l in open(run.record(run.build("pub"), [start(*f[:3]) + [{"op": "leaves", "f": "f"}] for f in files], "leaves")):
        e = json.loads(l)
        if e["op"] == "case":
            case = e["id"]
        elif e["op"] == "leaves" and e["out"] == "ok":
            places[case] = e["leaves"]
    if len(places) < len(files) // 4:
        raise ToolError("only %d of %d files can be changed" % (len(places), len(files)))
    files = [f for f in files if f[0] in places]
    cases = []
    done = set()
    for name, data, bare, picks in files:
        todo = []
        # every place of the file in every way, at one element of a list each
        for l in places[name]:
            for how in range(l["hows"]):
                k = (l["path"], how, len(bare) > 0)
                if picks == 0 and (k not in done or big(run)):
                    done.add(k)
                    todo.append([(r.choice(l["picks"]), how)])
        for _ in range(picks):
            todo.append([(r.randrange(1 << 20), r.randrange(1 << 10)) for _ in range(r.choice([1, 1, 2, 3]))])
        r.shuffle(todo)
        for i in range(0, len(todo), 60):
            c = start("%s.%d" % (name, i), data, bare)
            for muts in todo[i:i + 60]:
                c.append({"op": "clone", "f": "f", "g": "m"})
                c += [{"op": "mutate", "f": "m", "pick": p, "how": h} for p, h in muts]
                c += [{"op": "view", "f": "m", "small": 1}, {"op": "marshal", "f": "m", "b": "w"}, {"op": "parse", "b": "w", "f": "k", "want": 1}]
            cases.append(c)
    run.check("pub", cases)
