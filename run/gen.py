"""Input generation from the layouts the specification exports."""
import json, random
from lib import Run, ToolError

ICC0 = [1] + [0, 1, 0x86, 0xA0, 0x05, 0x19, 0x01, 0x42] + list(b"e1-00123") + [7] + list(b"FI") + list(b"XX") + [3] + [0x12, 0x34]
assert len(ICC0) == 25


def be(n, w):
    return [(n >> (8 * (w - 1 - i))) & 255 for i in range(w)]


def rec(fid, app, v):
    return be(fid, 2) + [app] + be(len(v), 2) + list(v)


def icc_rec():
    return rec(2, 0, ICC0)


class Gen:
    def __init__(self, run, salt=""):
        self.rng = random.Random("%s/%s/%s" % (run.prop, run.seed, salt))
        code, out = run.tlc("Export", "Empty.cfg")
        got = Run.printed(out, "EXPORT")
        if code != 0 or not got:
            raise ToolError("Export: " + out[-2000:])
        x = got[0]
        self.table = x["table"]
        self.ef = {e["fid"]: e for e in self.table}
        self.rows = {(r["fid"], r["gen"]): r for r in x["rows"]}
        self.codes = x["codes"]
        self.singles = x["singles"]
        self.transfers = x["transfers"]
        self.values = x["values"]
        self.valuefields = x["valuefields"]
        self.parts1 = x["parts1"]
        self.pages = sorted(int(p) for p in x["pages"])
        self.high = {int(p): v for p, v in x["high"].items()}
        self.n = 0
        self.files = {}
        self.had, self.echo = {}, False  # recent fields by kind; does the record at hand repeat some?
        self.lean = None              # are fields of the record at hand often empty or full?

    # ---- values ---------------------------------------------------------
    def pick(self, *a):
        return self.rng.choice(a)

    def byte(self):
        r = self.rng
        return r.choice([0, 1, 2, 9, 10, 15, 16, 31, 32, 127, 128, 159, 160, 254, 255]) if r.random() < 0.3 else r.randrange(256)

    def bytes(self, n):
        return [self.byte() for _ in range(n)]

    def num(self, w):
        r = self.rng
        top = (1 << (8 * w)) - 1
        k = r.random()
        if k < 0.15:
            return r.choice([0, 1, 2, top, top - 1, top // 2, top // 2 + 1])
        if k < 0.3:
            return min(top, max(0, (1 << r.randrange(8 * w)) + r.choice([-1, 0, 1])))
        return r.randrange(top + 1)

    def codes_of(self, e):
        return [i for i, n in enumerate(self.codes[e]) if n]

    def bcdb(self):
        return self.rng.randrange(10) * 16 + self.rng.randrange(10)

    def ascii(self, n):
        """printable text of 0..n characters padded with spaces or zeros"""
        r = self.rng
        k = r.choice([0, n, n, r.randint(0, n)])
        t = [r.randrange(33, 127) if r.random() < 0.9 else 32 for _ in range(k)]
        return t + [r.choice([32, 32, 0])] * (n - k)

    def paged(self, n, wild):
        """code page byte and n-1 bytes"""
        r = self.rng
        if wild and r.random() < 0.1:
            page = r.randrange(256)
        elif r.random() < 0.08:
            page = 255
        else:
            page = r.choice(self.pages)
        m = n - 1
        k = r.random()
        if k < 0.15:
            body = [r.choice([0, 32, 255])] * m
        elif k < 0.3:
            body = [self.byte() for _ in range(m)]
        else:
            q = r.choice([0, m, r.randint(0, m)])
            lead = r.choice([0, 0, 0, 1])
            hi = self.high.get(page, [])
            def ch():
                if r.random() < 0.4:
                    for _ in range(20):
                        b = r.randrange(128, 256)
                        if page in self.high and hi[b - 128] > 160:
                            return b
                return r.randrange(33, 127) if r.random() < 0.9 else 32
            body = ([r.choice([32, 0])] * min(lead, q) + [ch() for _ in range(q)])[:q]
            body += [r.choice([32, 32, 0, 255])] * (m - len(body))
        return [page] + body

    def card16(self, ctype, wild):
        r = self.rng
        if ctype == 1:
            ix = lambda: r.choice([r.randrange(48, 58), r.randrange(65, 91)])
            t = self.ascii(14) if not wild else [r.choice([self.byte(), r.randrange(33, 127)]) for _ in range(14)]
            return t + [ix(), ix()]
        t = self.ascii(13) if not wild else [r.choice([self.byte(), r.randrange(33, 127)]) for _ in range(13)]
        return t + [r.randrange(33, 127) for _ in range(3)]

    def card18(self, wild):
        r = self.rng
        t = r.choice([1, 1, 2, 3, 4]) if not wild or r.random() < 0.9 else r.randrange(256)
        return [t, r.choice(self.codes_of("nation"))] + self.card16(t, wild)

    def date(self):
        r = self.rng
        y = r.choice([r.randrange(1900, 2100), 1, 9999])
        bcd = lambda n: (n // 10) * 16 + n % 10
        return [bcd(y // 100), bcd(y % 100), bcd(r.randint(1, 12)), bcd(r.randint(1, 31))]

    def field(self, f, wild=False):
        """bytes of one field; wild fields may hold anything"""
        r, t, w = self.rng, f["t"], f["w"]
        if t == "group":
            return self.fields(f["fs"], wild)
        # what another field of that kind held, here or in an earlier record, or one more or less
        had = self.had.setdefault((t, w, f.get("e"), wild, self.kind(f)), [])
        if self.echo and had and r.random() < 0.5:
            v = list(r.choice(had[-3:] if r.random() < 0.7 else had))
            if t in ("u8", "u16", "u24", "s24", "u32", "time") and r.random() < 0.3:
                x = (int.from_bytes(bytes(v), "big") + r.choice([1, -1])) % (1 << 8 * w)
                v = be(x, w) if x else v
            return v
        v = self.new_field(f, wild)
        had.append(v)
        del had[:-12]
        return v

    def kind(self, f):
        """fields of the same type that must not hold what the others do"""
        return None

    def new_field(self, f, wild):
        r, t, w = self.rng, f["t"], f["w"]
        if self.lean and r.random() < 0.5:
            v = self.extreme(f, wild)
            if v is not None:
                return v
        if t in ("u8", "u16", "u24", "s24", "u32", "time"):
            return be(self.num(w), w)
        if t == "bool":
            return [r.randrange(2)]
        if t in ("enum", "enumu"):
            if (wild or t == "enumu") and r.random() < 0.3:
                return [self.byte()]
            return [r.choice(self.codes_of(f["e"]))]
        if t == "bytes":
            return self.bytes(w)
        if t == "ia5":
            if wild and r.random() < 0.5:
                return self.bytes(w)
            return self.ascii(w)
        if t == "vin":
            if wild and r.random() < 0.5:
                return self.bytes(w)
            return self.ascii(w)
        if t == "str":
            return self.paged(w, wild)
        if t == "ctl":
            return [self.byte()]
        if t in ("csv", "bcd"):
            if wild and r.random() < 0.3:
                return self.bytes(w)
            if t == "csv" and r.random() < 0.8:
                return r.choice([[0, 0], [1, 0], [1, 1]])
            return [self.bcdb() for _ in range(w)]
        if t == "my":
            if wild and r.random() < 0.3:
                return self.bytes(w)
            bcd = lambda n: (n // 10) * 16 + n % 10
            return [bcd(r.randint(1, 12)), bcd(r.randint(0, 99))]
        if t == "date":
            if wild and r.random() < 0.3:
                return self.bytes(w)
            return self.date()
        if t == "card16":
            return self.card16(r.choice([1, 1, 2]), wild)
        if t in ("card18", "card18g"):
            return self.card18(wild)
        if t == "skip":
            return self.bytes(w)
        raise ToolError("no generator for type " + t)

    def extreme(self, f, wild):
        """a field that holds nothing, or nothing but ones"""
        r, t, w = self.rng, f["t"], f["w"]
        if t in ("u8", "u16", "u24", "s24", "u32", "time", "bytes", "skip", "enumu"):
            return [r.choice([0, 0, 255])] * w
        if t == "enum":
            c = self.codes_of(f["e"])
            return [r.choice([x for x in (0, 255, c[0], c[-1]) if x in c])]
        if t == "ia5":
            return [r.choice([0, 32])] * w
        if t == "str":
            return [r.choice([0, 1, 255])] + [r.choice([0, 32, 255])] * (w - 1)
        if t in ("csv", "bcd", "date"):
            return [0] * w
        if t == "card16":
            return [r.choice([0, 32])] * 16
        if t in ("card18", "card18g"):
            return [r.choice([0, 1, 1, 2] if wild else [1, 1, 2]), r.choice([c for c in (0, 253, 255) if c in self.codes_of("nation")])] + [r.choice([0, 32])] * 16
        return None

    def fields(self, fs, wild=False):
        out = []
        top = self.lean is None
        if top:
            self.lean = len(fs) > 1 and self.rng.random() < 0.3
            self.echo = self.rng.random() < 0.2
        for f in fs:
            out += self.field(f, wild)
        if top:
            self.lean, self.echo = None, False
        return out

    def width(self, fs):
        return sum(f["w"] for f in fs)

    # ---- daily activity -------------------------------------------------
    def day(self, changes=None, wild=False):
        """content of a daily record after its four header bytes"""
        r = self.rng
        n = r.choice([0, 1, 2, 3, r.randrange(12)]) if changes is None else changes
        pc = [self.bcdb(), self.bcdb()] if not (wild and r.random() < 0.3) else self.bytes(2)
        body = be(self.num(4), 4) + pc + be(self.num(2), 2)
        for _ in range(n):
            body += be(self.num(2), 2)
        return body

    def ring(self, days, size, start, slack=None, tail_prev=0):
        """ring holding the days (contents), the oldest one at position start"""
        r = self.rng
        buf = [r.randrange(256) if slack is None else slack for _ in range(size)]
        pos, prev, newest = start, tail_prev, start
        for d in days:
            b = be(prev, 2) + be(len(d) + 4, 2) + d
            newest = pos % size
            for i, x in enumerate(b):
                buf[(pos + i) % size] = x
            pos += len(b)
            prev = len(b)
        return buf, newest

    def activity(self, wild=False, days=None, spare=None):
        r = self.rng
        n = r.choice([0, 1, 2, 3, r.randrange(8)]) if days is None else days
        ds = [self.day(wild=wild) for _ in range(n)]
        used = sum(len(d) + 4 for d in ds)
        size = used + (r.choice([0, 0, 1, 3, 7, r.randrange(60)]) if spare is None else spare)
        if n == 0:
            return be(0, 2) + be(0, 2) + [0] * max(size, 4)
        start = r.choice([0, r.randrange(size)])
        buf, newest = self.ring(ds, size, start)
        return be(start, 2) + be(newest, 2) + buf

    # ---- certificates ---------------------------------------------------
    OIDS = [[0x2A, 0x86, 0x48, 0xCE, 0x3D, 3, 1, 7], [0x2B, 0x24, 3, 3, 2, 8, 1, 1, 7], [0x2B, 0x81, 4, 0, 0x22]]

    def tlv(self, tag, v):
        t = [tag >> 8, tag & 255] if tag > 255 else [tag]
        n = len(v)
        return t + ([n] if n < 128 else [129, n] if n < 256 else [130, n >> 8, n & 255]) + list(v)

    def rb(self, n):
        return [self.rng.randrange(256) for _ in range(n)]

    def ecc(self, **kw):
        """a well-formed generation-2 certificate (not genuinely signed)"""
        r = self.rng
        c = kw.get("coord") or r.choice([32, 32, 48, 64])
        s = kw.get("siglen") or r.choice([32, 32, 48])
        body = self.tlv(0x5F29, [r.choice([0, 0, r.randrange(256)])]) + self.tlv(0x42, kw.get("car") or self.rb(8)) + \
            self.tlv(0x5F4C, self.rb(7)) + \
            self.tlv(0x7F49, self.tlv(6, r.choice(self.OIDS)) + self.tlv(0x86, [4] + self.rb(2 * c))) + \
            self.tlv(0x5F20, kw.get("chr") or self.rb(8)) + self.tlv(0x5F25, be(self.num(4), 4)) + self.tlv(0x5F24, be(self.num(4), 4))
        v = self.tlv(0x7F21, self.tlv(0x7F4E, body) + self.tlv(0x5F37, self.rb(2 * s)))
        return v if 204 <= len(v) <= 341 else self.ecc()

    def cert(self, gen):
        return self.rb(194) if gen == 1 else self.ecc()

    # ---- elementary files -----------------------------------------------
    def value(self, fid, gen, wild=False, n=None):
        """contents of one elementary file, at times those of the same file of the other application"""
        key = (wild, n, self.kind({"n": ""}))
        old = self.files.get((fid, 3 - gen, key))
        if old and self.rows[(fid, gen)]["lay"] == self.rows[(fid, 3 - gen)]["lay"] and self.rng.random() < 0.15:
            return list(old)
        v = self.new_value(fid, gen, wild, n)
        self.files[(fid, gen, key)] = list(v)
        return v

    def new_value(self, fid, gen, wild, n):
        row = self.rows[(fid, gen)]
        lay = row["lay"]
        r = self.rng
        k = lay["kind"]
        if k == "single":
            return self.fields(lay["rec"], wild)
        if k == "appid":
            return self.fields(self.singles["appid%d" % gen], wild)
        if k == "appidv2":
            return self.fields(self.singles["appidv2"], wild)
        if k == "ident":
            return self.fields(self.singles["identcard"], wild) + self.fields(self.singles["identholder"], wild)
        if k == "control":
            v = self.fields(self.singles["control"], wild)
            if r.random() < 0.15:
                v[1:5] = [0, 0, 0, 0]
            return v
        if k == "cert":
            return self.cert(gen)
        if k == "activity":
            return self.activity(wild)
        if k == "table":
            n = r.choice([0, 1, 2, 3, r.randrange(8)]) if n is None else n
            out = self.fields(lay["head"], wild)
            twins, had = r.random() < 0.2, []
            for _ in range(n):
                had.append(self.twin(had) if twins and had and r.random() < 0.6 else self.slot(fid, lay, wild))
            return out + sum(had, [])
        raise ToolError("no generator for kind " + k)

    def twin(self, had):
        """a record again, the last one most often, as it was or with one byte of another one of them"""
        r = self.rng
        b = list(had[-1] if r.random() < 0.7 else r.choice(had))
        if r.random() < 0.3 and b:
            i = r.randrange(len(b))
            b[i] = r.choice(had)[i]
        return b

    def slot(self, fid, lay, wild=False):
        r = self.rng
        w = self.width(lay["rec"])
        q = r.random()
        if q < 0.12:
            return [0] * w if fid not in (1285,) else [0] * w
        b = self.fields(lay["rec"], wild)
        if fid in (1282, 1283):
            if q < 0.25:
                b = self.bytes(w)
                b[1:5] = [0, 0, 0, 0]
            elif b[1:5] == [0, 0, 0, 0]:
                b[4] = 1
        return b

    def unsigned(self, fid):
        return not self.ef[fid]["signed"]

    def content_places(self):
        """places whose contents are generated from layouts (no certificates)"""
        return [k for k, r in sorted(self.rows.items()) if r["lay"]["kind"] != "cert"]

    def all_places(self):
        return sorted(self.rows)

    def app(self, gen, sig=False):
        return (2 if gen == 2 else 0) + (1 if sig else 0)

    # ---- cases ----------------------------------------------------------
    def case(self, data, name="", want=1, marshal=True, more=()):
        self.n += 1
        c = [{"op": "case", "id": "%s%d" % (name, self.n)}, {"op": "buf", "b": "a", "data": data},
             {"op": "parse", "b": "a", "f": "f", "want": want}]
        if marshal:
            c.append({"op": "marshal", "f": "f", "b": "w"})
        return c + list(more)

    # ---- vehicle units --------------------------------------------------
    COUNT1 = {"overview": (1, 1), "activities": (2, 2, 1, 2), "events_and_faults": (1, 1, 1, 1), "detailed_speed": (2,), "technical_data": (1,)}

    def vu1(self, what, counts=None, wild=False, short=None):
        """value of a generation-1 transfer with that many records per counted part; short: for some of the parts, how many
        bytes follow the count instead of the records it promises"""
        r = self.rng
        ncount = len(self.COUNT1[what])
        counts = list(counts) if counts is not None else [r.choice([0, 0, 1, 2, 3]) for _ in range(ncount)]
        f = lambda name: self.fields(self.singles[name], wild)
        n = iter(enumerate(counts))
        twins = r.random() < 0.25

        def many(w, make):
            part, k = next(n)
            out = be(k, w)
            if part in (short or {}):
                return out + self.bytes(short[part])
            had = []
            for _ in range(k):
                had.append(self.twin(had) if twins and had and r.random() < 0.6 else make())
            return out + sum(had, [])
        if what == "overview":
            slots = r.choice([r.randrange(5) * 16 + r.randrange(5), r.randrange(256)])
            return f("vuhead") + [slots] + f("vudownload") + many(1, lambda: f("vulock")) + many(1, lambda: f("vucontrol")) + self.rb(128)
        if what == "activities":
            return f("vuday") + many(2, lambda: f("vuiw")) + many(2, lambda: be(self.num(2), 2)) + many(1, lambda: f("vuplace")) + \
                many(2, lambda: f("vucondition")) + self.rb(128)
        out = []
        for p in self.parts1[what]:
            out += many(p["w"], lambda: self.bytes(p["size"])) if p["w"] else self.bytes(p["size"])
        return out

    def array(self, size=None, n=None, typ=None):
        r = self.rng
        size = r.choice([0, 1, 2, 3, 8, 17]) if size is None else size
        n = r.choice([0, 0, 1, 1, 2, 3]) if n is None else n
        return [r.randrange(256) if typ is None else typ] + be(size, 2) + be(n, 2) + self.bytes(size * n)

    def vu_value(self, t, wild=False):
        x = next(x for x in self.transfers if x["tag"] == t)
        if x["what"] == "download_interface_version":
            return self.rng.choice([[2, 2], [2, 1], [1, 1], self.bytes(2)])
        if x["gen"] == 1:
            return self.vu1(x["what"], wild=wild)
        if x["gen"] == 2:
            return [b for _ in range(x["arrays"]) for b in self.array()]
        return self.bytes(self.rng.randrange(40))

    def transfer(self, t, wild=False):
        return [0x76, t] + self.vu_value(t, wild)

    def vu_tags(self, gen, ver):
        return [x["tag"] for x in self.transfers if x["gen"] == gen and (gen == 1 or x["ver"] in (0, ver))]
