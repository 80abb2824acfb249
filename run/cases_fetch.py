"""Plans for the certificate cache builder."""
import hashlib, json
from lib import ToolError
from gen import Gen, be
from cases_card import big
from cases_trust import CURVES

OIDS = {"b256": (32, [0x2B, 0x24, 3, 3, 2, 8, 1, 1, 7]), "b384": (48, [0x2B, 0x24, 3, 3, 2, 8, 1, 1, 11]), "b512": (64, [0x2B, 0x24, 3, 3, 2, 8, 1, 1, 13]),
        "n256": (32, [0x2A, 0x86, 0x48, 0xCE, 0x3D, 3, 1, 7]), "n384": (48, [0x2B, 0x81, 4, 0, 34]), "n521": (66, [0x2B, 0x81, 4, 0, 35])}
BAD = ["gone", "error", "nocontent", "html", "short", "broken", "trickless", "hangup"]
GOOD = ["ok", "ok", "ok", "slow", "chunked", "redirect"]
COUNTRIES = ["Austria", "Belgium", "Bosnia and Herzegovina", "Czech Republic", "Côte d'Azur", "Türkiye", "Åland", "San Marino", "Malta", "Spain", "Sweden", "zed", "USA", "France", "Italy & Co", "The <Isle>"]


def tlv(tag, v):
    n = len(v)
    return be(tag, 2 if tag > 255 else 1) + ([n] if n < 128 else [129, n] if n < 256 else [130] + be(n, 2)) + v


def prime(r, bits):
    while True:
        n = r.getrandbits(bits) | 1 | 3 << (bits - 2)
        if n % 65537 == 1 or any(n % p == 0 for p in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)):
            continue
        if all(pow(a, n - 1, n) == 1 for a in (2, 3, 5, 7)):
            return n


class Shop(Gen):
    """Certificates to publish."""

    def key(self):
        p, q = prime(self.rng, 512), prime(self.rng, 512)
        return p * q, pow(65537, -1, (p - 1) * (q - 1))

    def ref(self):
        r = self.rng
        return r.choice([be(r.randrange(1 << 16), 8), [255] * 8, [0] * 7 + [1], self.rb(8), self.rb(8), self.rb(8), self.rb(8), [128] + [0] * 7])

    def root(self, key):
        return {"op": "cert", "b": "root", "gen": 0, "data": self.ref() + be(key[0], 128) + be(65537, 8), "body": []}

    def eov(self):
        r = self.rng
        return r.choice([[0] * 4, [255] * 4, [0, 0, 0, 1], [127, 255, 255, 255], [128, 0, 0, 0], be(r.randrange(1 << 32), 4), be(r.randrange(1 << 32), 4), be(r.randrange(20000, 30000) * 86400, 4)])

    def rsa(self, b, key, chr=None, eov=None, first=None, bad=None):
        r = self.rng
        while True:
            body = [1] + self.ref() + self.rb(7) + (eov or self.eov()) + (chr or self.ref()) + self.rb(128) + [0] * 5 + [1, 0, 1]
            assert len(body) == 164
            digest = list((hashlib.sha256 if bad == "hash" else hashlib.sha1)(bytes(body)).digest())[:20]
            m = [0x6A] + body[:106] + digest + [0xBC]
            if bad == "header":
                m[0] = 0x6B - r.randrange(2) * 2
            if bad == "trailer":
                m[-1] ^= 1
            sig = be(pow(int.from_bytes(bytes(m), "big"), key[1], key[0]), 128)
            if first is None or sig[0] == first:
                break
        data = sig + body[106:] + self.ref()
        if bad == "noise":
            data = self.rb(194)
        if data[0] == 60 and first != 60 and bad == "noise":
            data[0] = 61
        return {"op": "cert", "b": b, "gen": 1, "data": data, "body": [] if bad else body}

    def ecc(self, b, chr=None, eov=None, bad=None):
        r = self.rng
        while True:
            n, oid = OIDS[r.choice(CURVES)]
            s = OIDS[r.choice(CURVES)][0]
            f = [tlv(0x5F29, [0]), tlv(0x42, self.ref()), tlv(0x5F4C, self.rb(7)), tlv(0x7F49, tlv(6, oid) + tlv(0x86, [4] + self.rb(2 * n))),
                 tlv(0x5F20, chr or self.ref()), tlv(0x5F25, self.rb(4)), tlv(0x5F24, eov or self.eov())]
            if bad == "order":
                f[3], f[4] = f[4], f[3]
            if bad == "lacking":
                f = f[:4]
            if bad == "car":
                f[1] = tlv(0x42, self.rb(r.choice([7, 9])))
            if bad == "chr":
                f[4] = tlv(0x5F20, self.rb(r.choice([0, 7, 9])))
            data = tlv(0x7F21, tlv(0x7F4E, sum(f, [])) + tlv(0x5F37, self.rb(2 * s)))
            if bad == "cut":
                data = data[:-r.randrange(1, 3)]
            if bad == "tail":
                data = data + [0]
            if bad == "noise":
                data = [r.randrange(61, 256)] + self.rb(r.randrange(203, 341))
            if bad == "flip":
                data[r.randrange(12)] ^= 1 << r.randrange(8)
            if 204 <= len(data) <= 341:
                return {"op": "cert", "b": b, "gen": 2, "data": data, "body": []}

    def date(self):
        r = self.rng
        return r.choice([[2030, 1, 1], [2032, 2, 29], [2026, 12, 31], [2038, 1, 19], [2099, 2, 28], [r.randrange(2020, 2045), r.randrange(1, 13), r.randrange(1, 29)], []])

    def row(self, gen, b, fate="ok", country=None, date=None, link=None):
        r = self.rng
        self.n += 1
        if link is None:
            link = r.choice(["BIN_DT/%s_TCC%d.bin", "BIN_ST/%s_MSCA_Card(1-%d)_Cert_FFFF.bin", "get.php?file=iot_doc/BIN_ST/%s%d.bin", "downloadpublicCertificate2_%s__MSCA%d"]) % (r.choice(["A", "GR_", "UK_"]), self.n)
        d = self.date() if date is None else date
        text = "" if not d else r.choice(["%02d/%02d/%04d" % (d[2], d[1], d[0]), "%04d-%02d-%02d" % tuple(d)])
        c = r.choice(COUNTRIES) if country is None else country
        return {"op": "row", "gen": gen, "b": b, "fate": fate, "link": link, "country": list(c.encode()), "date": d, "text": text,
                "title": 0 if "BIN_" in link and r.random() < 0.5 else 1}

    def fetch(self, limit, order=((), ()), **kw):
        return dict({"op": "fetch", "limit": limit, "order": [list(order[0]), list(order[1])], "root": "ok", "pages": ["ok", "ok"], "style": self.rng.randrange(7)}, **kw)


def C26(run):
    g = Shop(run)
    r = g.rng
    key, strange = g.key(), g.key()
    cases = []
    deep = big(run)

    def case(name, cmds):
        g.n += 1
        cases.append([{"op": "case", "id": "%s%d" % (name, g.n)}] + cmds)

    def several(gen, k, fates, **kw):
        """certificates and a row for each"""
        cs, rs = [], []
        for i in range(k):
            b = "c%d_%d" % (gen, i)
            f = r.choice(fates)
            cs.append(g.rsa(b, key) if gen == 1 else g.ecc(b))
            rs.append(g.row(gen, b, f, **kw))
        return cs, rs

    # every run of the model: who finishes when
    plans = []
    for rows, holders in ((3, 2), (4, 1)) if not deep else ((3, 2), (4, 2), (5, 1)):
        scope = run.path("scope.json")
        json.dump({"rows": rows, "holders": holders}, open(scope, "w"))
        got = run.explore("MC_Fetch", env={"SCOPE": scope})
        if len(got) < 200:
            raise ToolError("only %d runs" % len(got))
        plans.append(got)
    want = 1500 if deep else 90
    for got in plans:
        for x in r.sample(got, min(len(got), want)):
            y = r.choice(got)
            cmds = [g.root(key)]
            lims = [x["limit"], y["limit"]]
            for gen, z in ((1, x), (2, x if len(set(x["holder"])) > 1 and r.random() < 0.5 else y)):
                chrs = [g.ref() for _ in range(3)]
                chrs = [c if chrs.count(c) == 1 else g.rb(8) for c in chrs]
                for i, f in enumerate(z["fate"]):
                    b = "c%d_%d" % (gen, i)
                    h = chrs[z["holder"][i]] if f == "ok" else None
                    cmds.append(g.rsa(b, key, chr=h) if gen == 1 else g.ecc(b, chr=h))
                    cmds.append(g.row(gen, b, r.choice(GOOD) if f == "ok" else r.choice(BAD), country=r.choice(COUNTRIES[:2])))
            case("run", cmds + [g.fetch(x["limit"], ([i - 1 for i in x["order"]], [i - 1 for i in y["order"]] if y["limit"] == x["limit"] else ()))])
    # tables
    for k in range(400 if deep else 40):
        cmds = [g.root(key)]
        n = [r.choice([0, 1, 2, 5, 12, 30]) for _ in (1, 2)]
        order = [[], []]
        for gen in (1, 2):
            cs, rs = several(gen, n[gen - 1], GOOD * 2 + BAD if k % 2 else GOOD)
            cmds += cs + rs
            order[gen - 1] = r.sample(range(n[gen - 1]), n[gen - 1]) if r.random() < 0.7 else []
        for j in range(r.choice([0, 0, 2])):
            cmds.append({"op": "stale", "n": r.choice(["g1/", "g2/", "root/"]) + r.choice(["old.bin", "1.bin", "18446744073709551615.bin", "EC_PK.bin", "a b.bin", ".bin"]), "data": g.rb(r.choice([1, 194, 400]))})
        if r.random() < 0.3:
            cmds.append({"op": "stale", "n": "index.json", "data": list(b'{"g1":[{"car":"1"}]}' + b" " * 5000)})
        case("table", cmds + [g.fetch(r.choice([1, 2, 3, 10, 100, -1]), order)])
    # long tables
    for n in ((130, 300), (258, 40)) if deep else ((258, 30),):
        cmds = [g.root(key)]
        for gen in (1, 2):
            cs, rs = several(gen, n[gen - 1], GOOD * 6 + BAD)
            cmds += cs + rs
        case("long", cmds + [g.fetch(r.choice([10, 100, -1]))])
    # what a certificate can be
    for k in range(120 if deep else 12):
        cmds = [g.root(key)]
        for i, bad in enumerate(r.sample(["hash", "header", "trailer", "noise", "strange", None, None, "long", "cut"], 5)):
            c = g.rsa("r%d" % i, strange if bad == "strange" else key, bad=bad if bad not in ("strange", "long", "cut", None) else None)
            if bad == "strange":
                c["body"] = []
            if bad in ("long", "cut"):
                c["data"] = c["data"] + [0] if bad == "long" else c["data"][:-1]
            cmds += [c, g.row(1, c["b"])]
        for i, bad in enumerate(r.sample(["order", "lacking", "car", "chr", "cut", "tail", "noise", "flip", None, None], 6)):
            cmds += [g.ecc("e%d" % i, bad=bad), g.row(2, "e%d" % i)]
        case("kinds", cmds + [g.fetch(r.choice([1, 4, 10]))])
    for k in range(10 if deep else 2):
        cmds = [g.root(key)]
        for i, first in enumerate([60, 0, 60]):
            cmds += [g.rsa("r%d" % i, key, first=first), g.row(1, "r%d" % i)]
        for i, e in enumerate([[0] * 4, [255] * 4, [0] * 4, be(1, 4)]):
            cmds += [g.rsa("s%d" % i, key, eov=e), g.row(1, "s%d" % i, date=[[2031, 5, 6], [], [], [2030, 1, 2]][i])]
            cmds += [g.ecc("t%d" % i, eov=e), g.row(2, "t%d" % i, date=[[2031, 5, 6], [], [], [2030, 1, 2]][i])]
        case("edges", cmds + [g.fetch(3)])
    # order in the index: many of few countries
    odd = ["andorra", "ANDORRA", "Andorra", "Austria", "austria", "\u00f6sterreich", "\u00d6sterreich", "Zed", "zed", "10 States", "9 States", "A B", "A-B", "ABC", "A_B", "a b", "\u00c5land", "A\u030aland", "aaland", "___", "~~~", "Belgium 2", "Belgium 10", "Belgium", "Belgi\u00eb"]
    for k in range(80 if deep else 10):
        cmds = [g.root(key)]
        cs = r.sample(COUNTRIES, 3) if k % 2 else r.sample(odd, 6)
        days = [[], [2031, 5, 6], [2031, 6, 5], [2030, 12, 31], [2032, 1, 1], []]
        for gen in (1, 2):
            for i in range(25):
                b = "c%d_%d" % (gen, i)
                cmds += [g.rsa(b, key, eov=r.choice([[0] * 4, be(20000 * 86400 + r.randrange(3), 4)])) if gen == 1 else g.ecc(b), g.row(gen, b, country=r.choice(cs), date=r.choice(days))]
        case("order", cmds + [g.fetch(r.choice([1, 5, 25]))])
    # the same certificate published twice, certificates of one holder
    for k in range(60 if deep else 8):
        cmds = [g.root(key)]
        for gen in (1, 2):
            chr = g.ref()
            for i in range(3):
                b = "c%d_%d" % (gen, i)
                cmds += [g.rsa(b, key, chr=chr) if gen == 1 else g.ecc(b, chr=chr)]
                row = g.row(gen, b)
                cmds.append(row)
                if r.random() < 0.5:
                    cmds.append(dict(row, date=r.choice([row["date"], [2033, 3, 3]])))
                    d = cmds[-1]["date"]
                    cmds[-1]["text"] = "%02d/%02d/%04d" % (d[2], d[1], d[0]) if d else ""
        case("twice", cmds + [g.fetch(r.choice([1, 4, 10]))])
    # names that lead elsewhere
    for k in range(30 if deep else 4):
        cmds = [g.root(key)]
        for i, l in enumerate(r.sample(["BIN_DT/x?f=../../evil%d", "get?BIN_DT=../../../evil%d", "BIN_ST?x=a/b/c%d", "BIN_DT?x=iot_doc/../../up%d", "BIN_DT/..?x=%d", "BIN_DT?x=%%2e%%2e%%2fevil%d"], 4)):
            cmds += [g.rsa("n%d" % i, key, bad="noise"), g.row(1, "n%d" % i, link=l % i), g.ecc("m%d" % i, bad="chr"), g.row(2, "m%d" % i, link=l % i)]
        cmds += [g.rsa("ok", key), g.row(1, "ok"), g.ecc("ok2"), g.row(2, "ok2")]
        case("names", cmds + [g.fetch(2)])
    # where the cache is
    for k in range(20 if deep else 3):
        cmds = [g.root(key), {"op": "into", "n": r.choice(["ca[c]he", "with space", "st*r", "q?", "new/deep/er", "ü"])}]
        cmds += [{"op": "stale", "n": "g%d/77.bin" % gen, "data": [1]} for gen in (1, 2) if "deep" not in cmds[1]["n"]]
        for gen in (1, 2):
            cs, rs = several(gen, 3, GOOD)
            cmds += cs + rs
        case("where", cmds + [g.fetch(2, relative=k % 2)])
    # nothing to build on
    for k, (root, pages, limit) in enumerate([("gone", ["ok", "ok"], 2), ("nozip", ["ok", "ok"], 2), ("lacking", ["ok", "ok"], 2), ("short", ["ok", "ok"], 2), ("ok", ["gone", "ok"], 2), ("ok", ["ok", "gone"], 2),
                                              ("ok", ["hangup", "ok"], 2), ("ok", ["cut", "ok"], 2), ("ok", ["ok", "cut"], 2), ("ok", ["ok", "ok"], 0)]):
        cmds = [g.root(key)]
        for gen in (1, 2):
            cs, rs = several(gen, 3, GOOD)
            cmds += cs + rs
        case("without", cmds + [g.fetch(limit, root=root, pages=pages, wait=20)])
    # downloads that never end
    for k in range(6 if deep else 2):
        cmds = [g.root(key)]
        for gen in (1, 2):
            cs, rs = several(gen, 4, GOOD)
            if gen == 1 + k % 2:
                rs[1]["fate"], rs[2]["fate"] = "stall", "choke"
            else:
                rs[1]["fate"] = "endless"
            cmds += cs + rs
        case("never", cmds + [g.fetch(3)])
    run.check("fetch", cases, spec="FetchTrace", race=True, shards=8 if not deep else 12)
