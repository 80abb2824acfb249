"""Plans for the vehicle-unit download properties."""
from gen import Gen, be
from cases_card import big, offsets


def uniform(g, gen, ver, n, wild=False):
    tags = g.vu_tags(gen, ver)
    return [g.rng.choice(tags) for _ in range(n)]


KINDS = [(1, 0), (2, 1), (2, 2)]
# sizes and counts whose product is small again in 16 (or 8, or 31) bits, and what it then is
WRAPS = [(256, 256, 0), (2, 32768, 0), (32768, 2, 0), (4096, 16, 0), (64, 1024, 0), (64, 1025, 64), (3, 21846, 2), (16, 16, 0),
         (129, 2, 2), (32768, 65534, 0), (65535, 65535, 1)]


def C12(run):
    g = Gen(run)
    r = g.rng
    cases = []
    put = lambda d, n: cases.append(g.case(d, n, marshal=False))
    alltags = [x["tag"] for x in g.transfers]
    # every tag, with and without a value; every unknown tag, first and later
    for t in range(256):
        if t not in alltags:
            put([0x76, t] + g.bytes(r.choice([0, 1, 3, 300])), "unknown")
            put(g.transfer(0) + [0x76, t] + g.bytes(r.choice([0, 2, 200])), "unknown")
        put([0x76, t], "bare")
    for t in alltags:
        for _ in range(25 if big(run) else 6):
            put(g.transfer(t), "t%02x_" % t)
    # a second transfer that does not start with the response byte
    for _ in range(30):
        gen, ver = r.choice(KINDS)
        a, b = uniform(g, gen, ver, 2)
        d = g.transfer(b)
        d[0] = r.choice([0, 0x77, 0x75, 0x56, 0xF6, g.byte()])
        put(g.transfer(a) + d, "sync")
    # every cut of small transfers, alone and as the last of several
    for t in alltags:
        x = next(x for x in g.transfers if x["tag"] == t)
        if x["gen"] == 1 or t == 6:
            # around the boundaries of its parts
            v = g.transfer(t)
            cuts = set(range(2, min(len(v), 40))) | set(range(max(2, len(v) - 140), len(v), 1 if big(run) else 9))
            cuts |= {r.randrange(2, len(v) + 1) for _ in range(60 if big(run) else 12)}
            if x["gen"] == 1:
                o = 2
                for q in g.parts1[x["what"]]:
                    if q["w"]:
                        n = int.from_bytes(bytes(v[o:o + q["w"]]), "big")
                        cuts |= {o + k for k in (-1, 0, 1, 2)} | {o + q["w"] + n * q["size"] + k for k in (-1, 0, 1)}
                        o += q["w"] + n * q["size"]
                    else:
                        o += q["size"]
                        cuts |= {o - 1, o, o + 1}
            pre = [] if r.random() < 0.5 else g.transfer(r.choice(g.vu_tags(1, 0)))
            for k in sorted(cuts):
                if 2 <= k <= len(v):
                    put((pre if k % 2 else []) + v[:k], "cut%02x_" % t)
            put(v + g.bytes(r.choice([1, 2, 5])), "tail")
        else:
            for rep in range(4 if big(run) else 2):
                v = g.transfer(t)
                pre = [] if rep == 0 else g.transfer(r.choice([q for q in g.vu_tags(2, x["ver"] or 1)]))
                for k in range(2, len(v) + 1):
                    put(pre + v[:k], "cut%02x_" % t)
                put(pre + v + [0], "tail")
    # counters: one of every part raised, lowered or large
    for t in g.vu_tags(1, 0):
        what = next(x["what"] for x in g.transfers if x["tag"] == t)
        widths = g.COUNT1[what]
        for k in range(len(widths)):
            for n in ([0, 1, 2, 127, 128, 255] if big(run) else [0, 1, 3]) + ([256, 257] if widths[k] == 2 else [r.choice([128, 200, 255])]):
                counts = [r.choice([0, 1, 2]) for _ in widths]
                counts[k] = n
                v = g.vu1(what, counts)
                put([0x76, t] + v, "count%d_" % n)
                put([0x76, t] + v + g.transfer(r.choice(g.vu_tags(1, 0))), "count%d_" % n)
            # the counter says more or less than there is
            counts = [r.choice([0, 1, 2]) for _ in widths]
            v = g.vu1(what, counts)
            o = 0
            i = 0
            for q in g.parts1[what]:
                if q["w"]:
                    if i == k:
                        for d in ([0], [1], [255], [127]):
                            w = list(v)
                            w[o + q["w"] - 1] = d[0]
                            put([0x76, t] + w, "wrong")
                        if q["w"] == 2:
                            w = list(v)
                            w[o] = r.choice([1, 127, 128, 255])
                            put([0x76, t] + w, "wrong")
                    o += q["w"] + counts[i] * q["size"]
                    i += 1
                else:
                    o += q["size"]
            # an extent that is small again when it is counted in too few bits
            size = [q["size"] for q in g.parts1[what] if q["w"]][k]
            for m in (256, 65536):
                ns = [n for n in range(1, 256 ** widths[k]) if n * size >= m and n * size % m < 700]
                for n in r.sample(ns, min(len(ns), 12 if big(run) else 3)):
                    counts = [r.choice([0, 1]) for _ in widths]
                    counts[k] = n
                    put([0x76, t] + g.vu1(what, counts, short={k: n * size % m}), "wrap")
    # record arrays: sizes and counts of all magnitudes in every position
    for t in g.vu_tags(2, 1) + [t for t in g.vu_tags(2, 2) if t not in g.vu_tags(2, 1) and t != 0]:
        k = next(x["arrays"] for x in g.transfers if x["tag"] == t)
        for pos in range(k):
            for size, n in [(0, 0), (0, 65535), (65535, 0), (1, 300), (300, 1), (256, 1), (1, 256), (255, 2)]:
                arrs = [g.array(1, 1) for _ in range(k)]
                arrs[pos] = g.array(size, n)
                v = [b for a in arrs for b in a]
                put([0x76, t] + v, "arr")
                if r.random() < 0.3:
                    put([0x76, t] + v[:-1], "arrcut")
            # an array that claims far more than there is
            for h in ([255, 255, 255, 255], [0x80, 0, 0, 2], [0, 2, 0x80, 0], [0x40, 0, 0x40, 0]):
                arrs = [g.array(1, 1) for _ in range(k)]
                arrs[pos] = [r.randrange(256)] + h + g.bytes(4)
                put([0x76, t] + [b for a in arrs for b in a], "arrbig")
            # the same for the extent of an array
            for size, n, have in r.sample(WRAPS, len(WRAPS) if big(run) else 3):
                arrs = [g.array(1, 1) for _ in range(k)]
                arrs[pos] = [r.randrange(256)] + be(size, 2) + be(n, 2) + g.bytes(have)
                put([0x76, t] + [b for a in arrs for b in a], "wrap")
        for kk in (k - 1, k + 1):
            put([0x76, t] + [b for _ in range(kk) for b in g.array(r.choice([1, 0x7601]) if r.random() < 0.1 else 2, 1)], "arrnum")
    # long ones
    for size, n in [(64, 1000), (1, 65535), (65535, 1), (129, 508), (64, 1025), (r.choice([2, 256, 4096]), 0)] + ([(200, 2000), (65535, 3)] if big(run) else []):
        put([0x76, 36] + g.array(size, n) + g.array(64, 1), "long")
    put([0x76, 4] + g.vu1("detailed_speed", [1023 if big(run) else 600]), "long")
    # downloads of more than a MiB
    for d in [[0x76, 36] + g.array(65535, 17) + g.array(64, 1),
              [0x76, 4] + g.vu1("detailed_speed", [17000]),
              sum(([0x76, 34] + sum((g.array(1, 1) for _ in range(next(x["arrays"] for x in g.transfers if x["tag"] == 34) - 1)), []) + g.array(250, 250) for _ in range(18)), [])]:
        put(d, "vast")
        put(d[:-1], "vastcut")
    # downloads of many transfers
    for _ in range(150 if big(run) else 25):
        gen, ver = r.choice(KINDS)
        put([b for t in uniform(g, gen, ver, r.choice([2, 3, 5, 9])) for b in g.transfer(t)], "many")
    for n in (256, 300, 700):
        for gen, ver in KINDS:
            few = sorted((g.transfer(t) for t in g.vu_tags(gen, ver)), key=len)[:3]
            d = [b for _ in range(n) for b in r.choice(few)] + g.transfer(r.choice(g.vu_tags(gen, ver)))
            put(d, "crowd")
            put(d[:-r.randrange(1, 9)], "crowd")
    run.check("pub", cases)


def C13(run):
    g = Gen(run)
    r = g.rng
    cases = []
    put = lambda d, n: cases.append(g.case(d, n, marshal=False))
    # sequences of transfers enumerated by TLC
    depth = 3 if big(run) else 2
    seqs = run.explore("MC_Transfers", env={"DEPTH": str(depth)})
    for s in seqs:
        put([b for t in s["tags"] for b in g.transfer(t)], "seq")
    for _ in range(2500 if big(run) else 300):
        gen, ver = r.choice(KINDS)
        ts = uniform(g, gen, ver, r.choice([2, 4, 6, 10]))
        if r.random() < 0.35:
            ts.insert(r.randint(0, len(ts)), r.choice([x["tag"] for x in g.transfers]))
        if gen == 2 and r.random() < 0.3:
            ts = ts + [r.choice([0, 49, 50, 51, 53])]
        put([b for t in ts for b in g.transfer(t)], "rand")
    # the same transfer again, straight away or later
    for gen, ver in KINDS:
        for t in g.vu_tags(gen, ver):
            for k in range(8 if big(run) else 2):
                x, y = g.transfer(t), g.transfer(r.choice(g.vu_tags(gen, ver)))
                n = g.transfer(t)
                for ds in ([x, x], [x, x, x], [x, y, x], [y, x, x, y], [x, n, x], [n, x, x, n]):
                    put([b for d in ds for b in d], "twice")
    # a very long download, of one kind or with one transfer of another kind late in it
    for n in [101, 130, 257, 300, 520] + ([1030, 2100] if big(run) else []):
        for gen, ver in KINDS:
            both = [t for t in g.vu_tags(2, 1) if t in g.vu_tags(2, 2)]
            base = [g.transfer(t) for t in (g.vu_tags(gen, ver) if gen == 1 else both)]
            base = sorted(base, key=len)[:4] if gen == 1 else base
            own = [t for t in g.vu_tags(gen, ver) if t not in both]
            other = [x["tag"] for x in g.transfers if x["tag"] not in g.vu_tags(gen, ver)]
            for last in (None, r.choice(own), r.choice(other)):
                ds = [r.choice(base) for _ in range(n)]
                if last is not None:
                    ds.insert(r.choice([n, n - 1, max(n - 3, 0)]), g.transfer(last))
                    if r.random() < 0.5:
                        ds.append(r.choice(base))
                put([b for d in ds for b in d], "late")
    # and one of more than a MiB
    for gen, ver in KINDS:
        t = {1: 4, 2: 36}[gen]
        speed = lambda: [0x76, 4] + g.vu1("detailed_speed", [9000]) if gen == 1 else [0x76, 36] + g.array(64, 9000) + g.array(64, 1)
        put(sum((g.transfer(r.choice(g.vu_tags(gen, ver))) for _ in range(3)), []) + speed() + speed() + g.transfer(g.vu_tags(gen, ver)[-1]), "vast")
    run.check("pub", cases)


def C14(run):
    g = Gen(run)
    r = g.rng
    cases = []
    put = lambda d, n: cases.append(g.case(d, n, marshal=False))
    for what, t in (("overview", 1), ("activities", 2), ("events_and_faults", 3), ("detailed_speed", 4), ("technical_data", 5)):
        full = what in ("overview", "activities")
        for _ in range((500 if full else 40) if big(run) else (60 if full else 8)):
            put([0x76, t] + g.vu1(what), what[:4])
        for _ in range(200 if big(run) else 25):
            if full:
                put([0x76, t] + g.vu1(what, wild=True), what[:4] + "w")
    # every card slot status
    for b in range(256):
        v = g.vu1("overview", [0, 0])
        v[432] = b
        put([0x76, 1] + v, "slots")
    # many records of each kind
    for counts in ([255, 0], [0, 255], [7, 9]) if big(run) else ([40, 0], [0, 60], [7, 9]):
        put([0x76, 1] + g.vu1("overview", counts), "locks")
    for counts in ([300, 0, 0, 0], [0, 3000, 0, 0], [0, 0, 255, 0], [0, 0, 0, 700], [257, 256, 255, 256]) if big(run) else \
            ([30, 0, 0, 0], [0, 1440, 0, 0], [0, 0, 255, 0], [0, 0, 0, 300], [3, 256, 5, 257]):
        put([0x76, 2] + g.vu1("activities", counts), "acts")
    # more than a signed number of 16 bits counts
    put([0x76, 2] + g.vu1("activities", [1, 40000, 1, 1]), "far")
    put([0x76, 2] + g.vu1("activities", [0, 2, 1, 33000]), "far")
    words = list(range(65536))
    r.shuffle(words)
    for k in range(0, 65536, 8192):
        v = g.vu1("activities", [0, 0, 0, 0])
        n = [b for w in words[k:k + 8192] for b in be(w, 2)]
        put([0x76, 2] + v[:9] + be(8192, 2) + n + v[11:], "words")
    # one byte of a transfer through its values
    for what, t, counts in (("overview", 1, [2, 2]), ("activities", 2, [1, 1, 2, 2])):
        v = g.vu1(what, counts)
        at = list(range(388, len(v) - 128)) if what == "overview" else list(range(len(v) - 128))
        for pos in at:
            for b in ([0, 1, 0x20, 0x7F, 0x80, 0xFF, g.byte()] if big(run) else [g.byte()]):
                w = list(v)
                w[pos] = b
                put([0x76, t] + w, "byte")
    # downloads of several transfers
    for _ in range(200 if big(run) else 30):
        put([b for t in uniform(g, 1, 0, r.choice([2, 3, 6])) for b in g.transfer(t)], "several")
    run.check("pub", cases)
