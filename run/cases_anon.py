"""Plans for anonymised copies."""
from gen import Gen, be, icc_rec
from cases_card import big, ef_rec
from cases_use import Tidy, tidy_value, view_path

PLACES = [(1312, 1), (1312, 2), (1286, 1), (1286, 2), (1285, 1)]


def spots(g, p, v):
    """(offset, width, how) of everything in the value that says something about a person"""
    lay = g.rows[p]["lay"]
    out = []
    if lay["kind"] == "ident":
        w = 14 if all(48 <= x <= 57 or 65 <= x <= 90 for x in v[15:17]) else 13
        out += [(1, w, "text"), (17, 36, "page"), (53, 4, "time"), (57, 4, "time"), (61, 4, "time"), (65, 36, "page"), (101, 36, "page"), (137, 4, "date")]
    elif lay["kind"] == "table":
        at = g.width(lay["head"])
        w = g.width(lay["rec"])
        while at + w <= len(v):
            if p[0] == 1285:
                out += [(at, 3, 1000), (at + 3, 3, 1000), (at + 6, 4, "time"), (at + 10, 4, "time"), (at + 15, 14, "page")]
            else:
                out += [(at, 4, "time"), (at + 5, 1, "nation"), (at + 6, 1, "byte"), (at + 7, 3, 100)]
                if p[1] == 2:
                    out += [(at + 10, 4, "time"), (at + 15, 3, "lat"), (at + 18, 3, "long")]
            at += w
    else:
        # the minutes of the changes, where the ring does not wrap around its end
        u = lambda i: v[i] * 256 + v[i + 1]
        at = 4 + u(0)
        while at + 12 <= len(v) and 12 <= u(at + 2) <= len(v) - at:
            out += [(i, 2, "minute") for i in range(at + 12, at + u(at + 2) - 1, 2)]
            at += u(at + 2)
    return out


def other(g, how, old, wild):
    """another value for one of those, or the same one"""
    r = g.rng
    w = len(old)
    n = int.from_bytes(bytes(old), "big")
    if r.random() < 0.3:
        return old
    if how == "text":
        return g.bytes(w) if wild and r.random() < 0.3 else g.ascii(w)
    if how == "page":
        return g.paged(w, wild)
    if how == "time":
        return old if n == 0 else be(r.randrange(1, 1 << 32), 4)
    if how == "date":
        return Tidy.new_field(g, {"t": "date", "w": 4}) if 0 < n else old
    if how == "nation":
        return [r.choice(g.codes_of("nation"))]
    if how == "byte":
        return [r.randrange(256)]
    if how == "minute":
        m = r.choice([0, 1, 719, 720, 1439, 1439, r.randrange(1440)] + ([1440, 2047] if wild else []))
        return [old[0] & 0xF8 | m >> 8, m & 255]
    if how in ("lat", "long"):
        return be(r.randrange(1 << 24), 3)
    m = min(n // how * how + r.randrange(how), 0xFFFFFF)
    return be(m, 3)


def secrets(spots_, v):
    """what must be found nowhere: long enough not to be there by chance"""
    out = []
    for at, w, how in spots_:
        if how in ("text", "page"):
            t = v[at + (how == "page"):at + w]
            while t and t[-1] in (0, 32, 255):
                t = t[:-1]
            while t and t[0] in (0, 32, 255):
                t = t[1:]
            if len(t) >= 5 and len(set(t)) >= 4:
                out.append(t)
    return out


def pair(g, ps, n, wild, minutes=False):
    """two downloads that differ in nothing but personal data"""
    r = g.rng
    out, hidden = [[], []], [[], []]
    for k in (0, 1):
        out[k] = icc_rec()
    for p in ps:
        if p[0] == 1284:
            shape = [r.choice([1, 2, 3]) for _ in range(3)]
            v = tidy_value(g, p, n, shape)
        else:
            v = Gen.value(g, *p, wild=True, n=n) if wild and g.rows[p]["lay"]["kind"] == "table" else Gen.value(g, *p, wild=True) if wild else tidy_value(g, p, n)
        sp = spots(g, p, v) if minutes or p[0] != 1284 else []
        for at, w, how in sp:  # a record may lack one of its times
            if how == "time" and r.random() < 0.12:
                v[at:at + w] = [0] * w
        x = list(v)
        for at, w, how in sp:
            x[at:at + w] = other(g, how, v[at:at + w], wild)
        if r.random() < 0.5:  # what occurs again in one of them need not in the other
            z = r.choice([v, x])
            for how in ("page", "time", "nation", "byte", "lat", "long"):
                same = [(at, w) for at, w, h in sp if h == how and (how != "time" or any(z[at:at + w]))]
                for i in range(1, len(same)):
                    (at, w), (to, u) = same[r.randrange(i)], same[i]
                    if w == u and r.random() < 0.4:
                        z[to:to + w] = z[at:at + w]
        assert len(x) == len(v)
        for k, y in ((0, v), (1, x)):
            out[k] += ef_rec(g, p, y, g.rb(128) if g.ef[p[0]]["signed"] and p[0] != 1284 and r.random() < 0.5 else None)
            hidden[k] += secrets(sp, y)
    return out, hidden


def text_of(g, n):
    return "".join(chr(g.rng.randrange(33, 127)) for _ in range(n))


def words(g, t, kind="page"):
    """a text as a caller's model holds it"""
    b = [ord(x) for x in t]
    f = {"length": ["v", [g.rng.choice([35, 36, len(b)])]], "value": ["v", b]}
    if kind == "page":
        f["encoding"] = ["v", [4]]
    if g.rng.random() < 0.5:
        f["raw_data"] = ["v", ([1] if kind == "page" else []) + b + [32] * g.rng.randrange(3)]
    return ["m", f]


HOLDERS = {4: ("workshop_card_holder", ["workshop_name", "workshop_address", "card_holder_surname", "card_holder_first_names"]),
           5: ("control_card_holder", ["control_body_name", "control_body_address", "card_holder_surname", "card_holder_first_names"]),
           6: ("company_card_holder", ["company_name", "company_address"]),
           3: ("driver_card_holder", ["card_holder_surname", "card_holder_first_names"])}


def holder(g, kind, strange):
    """two models of one card of that kind, that differ in personal data only"""
    r = g.rng
    name, texts = HOLDERS[kind]
    kept = {k: words(g, text_of(g, 1), "ia5") for k in ("consecutive_index", "replacement_index", "renewal_index")}
    lang = words(g, r.choice(["de", "fr", "el"]), "ia5" if kind == 3 else "page")
    nation = ["v", [r.randrange(2, 30)]]
    there = [k for k in ["card_issue_date", "card_validity_begin", "card_expiry_date", "card_issuing_authority_name"] if r.random() < 0.8]
    fields = [t for t in texts if r.random() < 0.9]
    out, hidden = [], []
    for _ in (0, 1):
        h, secret = {"card_holder_preferred_language": lang}, []

        def hide(n, how):
            t = text_of(g, n)
            secret.append([ord(x) for x in t])
            return words(g, t, how)
        for t in fields:
            h[t] = hide(r.randrange(8, 30), "page")
        card = {"card_issuing_member_state": nation}
        if kind == 3:
            h["card_holder_birth_date"] = ["m", {"year": ["v", [r.randrange(1930, 2009)]], "month": ["v", [r.randrange(1, 13)]], "day": ["v", [r.randrange(1, 29)]]}]
            card["driver_identification"] = ["m", {"driver_identification_number": hide(14, "ia5")}]
        else:
            card["owner_identification"] = ["m", dict(kept, owner_identification=hide(13, "ia5"))]
        for k in there:
            card[k] = hide(20, "page") if k.endswith("name") else ["v", [r.randrange(1, 65536), r.randrange(65536)]]
        ident = {"card_type": ["v", [kind if not strange else strange]], "card": ["m", card], name: ["m", h]}
        out.append(["m", ident])
        hidden.append(secret)
    return out, hidden


def C21(run):
    g = Tidy(run)
    r = g.rng
    cases = []

    def put(name, ps, n=2, wild=False, strip=False, minutes=False):
        g.n += 1
        (a, b), hidden = pair(g, ps, n, wild, minutes)
        c = [{"op": "case", "id": "%s%d" % (name, g.n)}]
        for k, data in ((0, a), (1, b)):
            buf, f, h = "ab"[k], "fg"[k], "mn"[k]
            c += [{"op": "buf", "b": buf, "data": data}, {"op": "parse", "b": buf, "f": f, "want": 1}]
            if strip:
                c += [{"op": "graft", "f": f, "g": f, "act": "strip", "mode": "all", "path": view_path(g, p)} for p in ps]
                c += [{"op": "view", "f": f}]
            e = {"op": "anon", "f": f, "g": h, "want": 1, "pair": "x", "secret": hidden[k]}
            if minutes:  # a file of activities has no anonymised form: its changes have
                e["changes"] = e.pop("pair")
            if not wild:
                e["tidy"] = 1
            c += [e, {"op": "view", "f": f}, {"op": "marshal", "f": h, "b": "w"}, {"op": "parse", "b": "w", "f": "k", "want": 1}]
            if r.random() < 0.3 and not minutes:
                # a copy of the copy
                c += [dict(e, f=h, g="q", pair="y"), {"op": "marshal", "f": "q", "b": "w"}, {"op": "parse", "b": "w", "f": "k", "want": 1}]
        cases.append(c)
    for p in PLACES:
        for k in range(250 if big(run) else 30):
            put("one%d.%d." % p, [p], n=r.choice([0, 1, 2, 3, 6]), wild=k % 3 == 2, strip=k % 5 == 4)
    for p in [p for p in PLACES if p[0] != 1312]:
        for n in (24, 84, 112, 113, 200, 257, 300):
            put("many%d.%d." % p, [p], n=n)
    for k in range(400 if big(run) else 60):
        ps = sorted(r.sample(PLACES, r.choice([2, 3, 5])) + r.choice([[], [(1284, 1)], [(1284, 2)], [(1284, 1), (1284, 2)]]))
        put("card", ps, n=r.choice([1, 2, 3]), wild=k % 3 == 2, strip=k % 5 == 4)
    for p in ((1284, 1), (1284, 2)):
        for k in range(100 if big(run) else 12):
            put("changes%d.%d." % p, [p], wild=k % 3 == 2, strip=k % 5 == 4, minutes=True)
    # cards of other holders, made by hand
    for k in range(400 if big(run) else 60):
        g.n += 1
        (a, b), hidden = holder(g, (3, 4, 5, 6)[k % 4], r.choice([0, 0, 3, 1, 7]))
        df = r.choice(["tachograph", "tachograph_g2"])
        c = [{"op": "case", "id": "holder%d" % g.n}]
        for i, x in ((0, a), (1, b)):
            f, h = "fg"[i], "mn"[i]
            c += [{"op": "new", "f": f, "val": ["m", {"type": ["v", [2]], "driver_card": ["m", {df: ["m", {"identification": x}]}]}]}, {"op": "view", "f": f},
                  {"op": "anon", "f": f, "g": h, "want": 1, "pair": "x", "secret": hidden[i]}, {"op": "view", "f": f}, {"op": "marshal", "f": h, "b": "w"}]
        cases.append(c)
    run.check("intl", cases)
