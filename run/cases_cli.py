"""Plans for the commands."""
import json
from gen import Gen, icc_rec
from cases_card import big, ef_rec
from cases_use import Tidy, tidy_value, card, some_card, raw_card, vu_download
from cases_vu import KINDS


def good(g, k=None):
    """A card that can be parsed."""
    ps = sorted(g.rng.sample([p for p in g.all_places() if p != (2, 1)], k or g.rng.choice([1, 2, 3, 5])))
    return icc_rec() + [b for p in ps for b in ef_rec(g, p, tidy_value(g, p, 2, [1, 2]))]


def arg(n):
    return {"name": n, "flag": n.startswith("-") and n not in ("-", "--")}


def run_(names, to="pipe"):
    return {"op": "run", "args": [arg(n) for n in names], "to": to}


def put(n, data, **k):
    return [dict({"op": "put", "n": n, "data": data}, **k), {"op": "lib", "n": n}]


def C25(run):
    g = Tidy(run)
    r = g.rng
    scope = run.path("scope.json")
    json.dump({"args": 4 if big(run) else 3}, open(scope, "w"))
    lists = [x["args"] for x in run.explore("MC_Cli", env={"SCOPE": scope})]
    cases = []

    def case(name, *blocks):
        g.n += 1
        c = [{"op": "case", "id": "%s%d" % (name, g.n)}]
        for b in blocks:
            c += b
        cases.append(c)

    # every list of the model
    names = {"card": "card.ddd", "unit": "unit.ddd", "junk": "junk.ddd", "empty": "empty.ddd", "missing": "missing.ddd", "dir": "dir", "--": "--", "-x": "-x"}
    base = put("card.ddd", good(g, 5)) + put("unit.ddd", vu_download(g, 1, 2)) + put("junk.ddd", [0x76, 0x99, 1, 2]) + put("empty.ddd", []) + put("-x", icc_rec()) + [{"op": "dir", "n": "dir"}]
    for at in range(0, len(lists), 24):
        case("lists", base, [run_([names[a] for a in l]) for l in lists[at:at + 24]])

    # what names can look like, and what they can lead to
    odd = ["a b.ddd", "per%s%d%%.ddd", "quo\"te'.ddd", "umlaut-äöü.ddd", "new\nline.ddd", "UPPER.DDD", "no_ending", "error parsing file x.ddd", "x" * 200 + ".ddd", "[1].ddd", "*.ddd", "{}", "$HOME", "@file", "a=b", "tab\t.ddd", ".hidden"]
    plain = ["-", " a.ddd", "a.ddd ", " ", "a.ddd\t", "a.ddd\n", "~", "~root", "%20", "a%20b.ddd", "file:a.ddd", "a,b.ddd", "a;b", "null", "stdin", "\\a.ddd", "a\\b", "ok.ddd.", "ok.ddd.gz", "OK.ddd", "'", '"q"', "\u00e4", "a\u0308", "\u200b", "+", "=", "!", "#x", "0", "true", "nul", "\x7f", "\x01", "\u00a0x"]
    for n in plain:
        case("plain", put("ok.ddd", good(g)) + put(n, good(g)), [run_([n]), run_(["ok.ddd", n, "ok.ddd"])])
    for n in odd:
        kind = r.choice(["good", "bad", "none"])
        fs = put("ok.ddd", good(g))
        if kind != "none":
            fs += put(n, good(g) if kind == "good" else g.rb(r.randrange(40)))
        case("odd", fs, [run_(["ok.ddd", n, "ok.ddd"]), run_([n]), run_([n, n]), run_(["ok.ddd", n], "full"), run_([n], "full"), run_(["--", n])])
    case("ways", put("a.ddd", good(g)), put("ro.ddd", good(g), mode=0o444),
         [{"op": "link", "n": "to_a", "at": "a.ddd"}, {"op": "link", "n": "to_to_a", "at": "to_a"}, {"op": "link", "n": "to_none", "at": "none"}, {"op": "loop", "n": "loop"},
          {"op": "through", "n": "a.ddd/x"}, {"op": "through", "n": "y" * 300},
          run_(["to_a", "to_to_a", "a.ddd"]), run_(["a.ddd", "to_none", "a.ddd"]), run_(["a.ddd", "loop", "a.ddd"]), run_(["ro.ddd", "a.ddd/x", "a.ddd"]),
          run_(["to_a", "y" * 300]), run_(["", "a.ddd"]), run_(["a.ddd", ""]), run_(["-", "a.ddd"]), run_(["a.ddd", "-"]), run_([]), run_(["--"]), run_([], "full"), run_(["to_a"] * 30), run_(["to_a"] * 30 + ["loop"]),
          run_(["--nosuch", "a.ddd"]), run_(["a.ddd", "--nosuch=1"]), run_(["a.ddd", "-q"])])

    # files of the same name in different places
    for k in range(4):
        bad = [[1], [0x76, 0x99, 1], good(g)[:7], []][k]
        fs = [{"op": "dir", "n": "sub"}, {"op": "dir", "n": "sub/sub"}, {"op": "dir", "n": "other"}]
        ok, no = ["x.ddd", "sub/sub/x.ddd", "./sub/y.ddd", "sub/../sub/y.ddd"], ["sub/x.ddd", "./sub/x.ddd", "other/x.ddd", "other//y.ddd"]
        w = good(g)
        for n in ok:
            fs += put(n, w)
        for n in no:
            fs += put(n, bad)
        case("places", fs, [run_([n]) for n in ok + no + ["sub/none.ddd", "none/x.ddd", "other/../none.ddd", "sub", "sub/sub/", "../none.ddd", "/none/x.ddd", "x.ddd/x.ddd"]] +
             [run_(ok)] + [run_([r.choice(ok), r.choice(ok), r.choice(no), r.choice(ok)]) for _ in range(4)])
    # all sorts of files, in random orders
    for k in range(60 if big(run) else 10):
        fs, ns = [], []
        for j in range(r.randrange(1, 8)):
            n = "f%d.ddd" % j
            kind = r.randrange(9)
            gen, ver = KINDS[k % len(KINDS)]
            data = (card(g, wild=k % 2 == 1) if kind == 0 else good(g) if kind == 1 else raw_card(g) if kind == 2 else vu_download(g) if kind == 3
                    else vu_download(g, 1, 2) if kind == 4 else icc_rec() if kind == 5 else g.rb(r.randrange(200)) if kind == 6 else None)
            if kind == 7:
                whole = good(g)
                data = whole[:r.randrange(len(whole))]
            if data is not None:
                fs += put(n, data)
            elif r.random() < 0.5:
                fs.append({"op": "dir", "n": n})
            ns.append(n)
        runs = [run_([r.choice(ns) for _ in range(r.randrange(1, 9))]) for _ in range(6)]
        regular = [x["n"] for x in fs if x["op"] == "put"]
        runs += [run_([n]) for n in ns] + [run_(regular), run_(list(reversed(ns)))]
        case("mix", fs, runs)
    # long lists and big files
    bulk = put("big.ddd", icc_rec() + ef_rec(g, (1284, 1), g.activity(days=6))) + put("bad.ddd", [1])
    case("long", bulk, [run_(["big.ddd"] * 200), run_(["big.ddd"] * 199 + ["bad.ddd", "big.ddd"]), run_(["bad.ddd"] + ["big.ddd"] * 20)])
    # files larger than any buffer, with records that end at every multiple of 512
    block = lambda n: [18, n, 0, 1, 251] + g.rb(8) + [n] * 499
    huge = put("huge.ddd", sum((block(k % 256) for k in range(2051)), icc_rec() + [18, 0, 0, 1, 221] + [0] * 477)) + put("whole.ddd", icc_rec() + sum((ef_rec(g, (1282, 1), [0] * (24 * 2600)) for _ in range(20)), [])) + put("bad.ddd", [1])
    case("huge", huge, [run_(["huge.ddd", "whole.ddd", "bad.ddd", "huge.ddd"])])
    run.check("cli", cases, spec="CliTrace")
