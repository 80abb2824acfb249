"""Single values of the data dictionary, read and written on their own."""
from gen import Gen, be

OWN = {"ActivityChangeInfo": 2, "DriverIdentification": 14, "OwnerIdentification": 16}


def value_bytes(g, kind, wild):
    r = g.rng
    fs = g.valuefields.get(kind)
    if fs:
        return g.fields(fs, wild)
    if kind == "ActivityChangeInfo":
        return be(g.num(2), 2)
    if kind == "DriverIdentification":
        return g.ascii(14) if not wild else g.bytes(14)
    if kind == "OwnerIdentification":
        return g.card16(2, wild)
    n = r.choice([1, 2, 3, 4, 8, 17, 36, 40])
    if kind == "Ia5StringValue":
        return g.ascii(n) if not wild else g.bytes(n)
    if kind == "StringValue":
        return g.paged(n + 1, wild)
    if kind == "BcdString":
        return [g.bcdb() for _ in range(min(n, 4))] if not wild else g.bytes(min(n, 4))
    raise ValueError(kind)


def value_cases(run, salt="", kinds=None, tough=False):
    g = Gen(run, "value" + salt)
    r = g.rng
    cases = []
    for kind in sorted(kinds or g.values):
        w = g.values[kind]
        datas = [value_bytes(g, kind, wild) for wild in (False, True) for _ in range(60 if tough else 8)]
        # every byte at its extremes
        base = value_bytes(g, kind, False)
        for i in range(len(base)):
            for x in (range(256) if tough and len(base) <= 50 else (0, 1, 127, 128, 255, r.randrange(256))):
                datas.append(base[:i] + [x] + base[i + 1:])
        if w in (1, 2):
            datas += [be(k, w) for k in range(0, 65536, 1 if tough else 97)]
        if w > 0:
            for n in {0, 1, w - 1, w + 1, w + 2, 2 * w}:
                datas.append((base + g.bytes(w))[:n] if n != w else base)
        else:
            datas += [[], [r.randrange(256)]]
            if kind == "StringValue":
                datas += [[p, 65] + c for p in g.pages for c in ([x for x in range(128 + 32 * k, 160 + 32 * k)] for k in range(4))]
            if kind == "BcdString":
                datas += [[x] for x in range(256)]
        cmds = []
        for d in datas:
            cmds.append({"op": "value", "kind": kind, "data": d, "pre": r.choice([[], [7], g.bytes(3)]), "room": r.choice([0, 0, len(d), 64])})
        for k in range(0, len(cmds), 400):
            cases.append([{"op": "case", "id": "value.%s.%d" % (kind, k)}] + cmds[k:k + 400])
    return cases


# characters that look like, or stand for, ones a code page has
ALIKE = [0x2010, 0x2011, 0x2012, 0x2013, 0x2014, 0x2015, 0x2018, 0x2019, 0x201A, 0x201C, 0x201D, 0x201E, 0x2020, 0x2022, 0x2026, 0x2032, 0x2039, 0x203A,
         0x2044, 0x20AC, 0x2116, 0x2122, 0x2212, 0x2215, 0x00A0, 0x00AD, 0x2002, 0x2009, 0x200B, 0x200D, 0x202F, 0x3000, 0xFEFF, 0xFFFD, 0xFB01, 0xFF21,
         0xFF0D, 0x0300, 0x0301, 0x0308, 0x0327, 0x030A, 0x0130, 0x0131, 0x017F, 0x1E9E, 0x00DF, 0x0141, 0x0142, 0x0160, 0x0178, 0x017D, 0x0152, 0x0218, 0x0219,
         0x015E, 0x015F, 0x021A, 0x0162, 0x0410, 0x0412, 0x0421, 0x0435, 0x0391, 0x03BF, 0x037E, 0x0387, 0x00B7, 0x02BC, 0x02C6, 0x02DC, 0x0060, 0x00B4, 0x2160,
         0x00B2, 0x00BD, 0x1F600, 0x10FFFF, 0x1D400, 0xE000, 0x85, 0x2028, 0x200E]


def set_texts(run, tough=False):
    """texts that come from the caller, not from a file"""
    g = Gen(run, "saytext")
    r = g.rng
    cases, cmds = [], []

    def put(kind, enc, text, length="?"):
        c = {"op": "saytext", "kind": kind, "enc": enc, "text": text, "pre": r.choice([[], [], [7, 1]]), "room": r.choice([0, 64])}
        if length == "?":
            length = r.choice([None, len(text), len(text) + 1, 35, 13, 16, 255]) if kind[0] == "S" else r.choice([len(text), len(text) + 2, 17, 40])
        if length is not None:
            c["length"] = length
            if r.random() < 0.4:
                c["fixed"] = "y"
        cmds.append(c)
    word = lambda: [r.choice(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 -'./") for _ in range(r.randrange(0, 6))]
    latin = [x for x in range(0xA0, 0x180)] + [x for x in range(0x370, 0x460)]
    for kind, encs in (("StringValue", list(range(0, 16)) + [99, -1]), ("Ia5StringValue", [0])):
        for enc in encs:
            for x in ALIKE:
                put(kind, enc, r.choice([[x], word() + [x] + word(), [79, x, 78], [x] * 3]))
            for x in latin if tough else r.sample(latin, 60):
                put(kind, enc, word() + [x] + word())
            for x in list(range(0, 160, 1 if tough else 5)):
                put(kind, enc, [65, x, 66])
            for t in ([], [-1], [65, -1, 66], [32], [32, 65, 32], [65] * 35, [65] * 36, [65] * 255, [65] * 256, [228] * 17, [0x10FFFF] * 9):
                for n in (None, 0, 1, 35, 36, 255, 256, -1, len(t), len(t) - 1):
                    put(kind, enc, t, n)
    for k in range(0, len(cmds), 400):
        cases.append([{"op": "case", "id": "saytext.%d" % k}] + cmds[k:k + 400])
    return cases
