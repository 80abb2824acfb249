import os
_d = os.path.dirname(os.path.abspath(__file__))
def _load(name):
    env = {"__file__": __file__}
    exec(open(os.path.join(_d, name + ".py")).read(), env)
    return env
_b, _c, _e, _g = _load("b"), _load("c"), _load("e"), _load("g")
HEAD, ECCHEAD, WEB, ZZ, listing, RSA = _b["HEAD"], _c["ECCHEAD"], _e["WEB"], _g["ZZ"], _g["listing"], _b["RSA"]
DAYS = '''
func day(prev int, date uint32, words ...int) []byte {
	b := cat(u16(prev), u16(12+2*len(words)), binary.BigEndian.AppendUint32(nil, date), u16(0x0001), u16(10))
	for _, w := range words {
		b = cat(b, u16(w))
	}
	return b
}

func activity(newest int, days ...[]byte) *cardv1.DriverActivityData {
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0504, 0, cat(u16(0), u16(newest), cat(days...), zeros(20))))))
	return f.GetDriverCard().GetTachograph().GetDriverActivityData()
}
'''
CLI = '''#!/bin/bash
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off
(cd cmd/tachograph && go build -o "$T/tachograph" .) || exit 9
cd "$T"
(printf '\\x00\\x02\\x00\\x00\\x19'; head -c 25 /dev/zero) > a
'''

SEEDS = [
 dict(id="c06-by-date", property="C06",
  needs="a chain in which a later record has an earlier date, as after the clock of a vehicle was set back",
  breaks="records whose newest is dated before the oldest are not put in order",
  edits=[("internal/card/activity.go", "\tfor i, j := 0, len(records)-1; i < j; i, j = i+1, j-1 {\n", "\tfor i, j := 0, len(records)-1; i < j && records[0].GetActivityRecordDate().GetSeconds() >= records[len(records)-1].GetActivityRecordDate().GetSeconds() == (i == 0) || i > 0 && i < j; i, j = i+1, j-1 {\n")],
  main=HEAD + DAYS + '''
func main() {
	a := activity(12, day(0, 0x60000000), day(12, 0x50000000))
	if d := a.GetDailyRecords(); len(d) != 2 || d[0].GetActivityRecordDate().GetSeconds() != 0x60000000 {
		fail("%v", d)
	}
}
'''),
 dict(id="c06-same-day", property="C06",
  needs="two days in a row with the same date and the same presence counter",
  breaks="such days are taken for one",
  edits=[("internal/card/activity.go", "\t\trecords = append(records, dailyRecord)\n", "\t\tif n := len(records); n > 0 && dailyRecord.GetValid() && proto.Equal(records[n-1].GetActivityRecordDate(), dailyRecord.GetActivityRecordDate()) && proto.Equal(records[n-1].GetActivityDailyPresenceCounter(), dailyRecord.GetActivityDailyPresenceCounter()) {\n\t\t\tcontinue\n\t\t}\n\t\trecords = append(records[:len(records):len(records)], dailyRecord)\n"),
         ("internal/card/activity.go", "import (\n", "import (\n\t\"google.golang.org/protobuf/proto\"\n")],
  main=HEAD + DAYS + '''
func main() {
	a := activity(12, day(0, 0x60000000), day(12, 0x60000000))
	if d := a.GetDailyRecords(); len(d) != 2 {
		fail("%v", d)
	}
}
'''),
 dict(id="c07-earlier", property="C07",
  needs="a day whose last change is at an earlier minute than the one before it",
  breaks="a last change that goes back in time is dropped",
  edits=[("internal/card/activity.go", "\trecord.SetActivityChangeInfo(activityChanges)\n", "\tif n := len(activityChanges); n > 1 && activityChanges[n-1].GetTimeOfChangeMinutes() < activityChanges[n-2].GetTimeOfChangeMinutes() {\n\t\tactivityChanges = activityChanges[:n-1]\n\t}\n\trecord.SetActivityChangeInfo(activityChanges[:])\n")],
  main=HEAD + DAYS + '''
func main() {
	a := activity(0, day(0, 0x60000000, 0x0100, 0x0200, 0x0010))
	if d := a.GetDailyRecords(); len(d) != 1 || len(d[0].GetActivityChangeInfo()) != 3 {
		fail("%v", d)
	}
}
'''),
 dict(id="c11-typographic", property="C11",
  needs="a text set by the caller that holds a typographic dash or quote, which the code pages do not have",
  breaks="such characters are written as their plain likenesses instead of being rejected",
  edits=[("internal/dd/string_value.go", "\tencoded, err := encodeWithCodePage(codePage, value)\n", "\tencoded, err := encodeWithCodePage(codePage, strings.NewReplacer(\"\\u2013\", \"-\", \"\\u2019\", \"'\").Replace(value))\n")],
  main=HEAD + '''
func main() {
	sv := &ddv1.StringValue{}
	sv.SetEncoding(ddv1.Encoding_ISO_8859_1)
	sv.SetLength(35)
	sv.SetValue("O\\u2019Neil")
	if b, err := dd.AppendStringValue(nil, sv); err == nil {
		fail("%q", b)
	}
}
'''),
 dict(id="c11-nbsp", property="C11",
  needs="a text set by the caller with a no-break space inside",
  breaks="it is written as an ordinary space",
  edits=[("internal/dd/string_value.go", "\tencoded, err := encodeWithCodePage(codePage, value)\n", "\tencoded, err := encodeWithCodePage(codePage, strings.ReplaceAll(value, \"\\u00a0\", \" \"))\n")],
  main=HEAD + '''
func main() {
	sv := &ddv1.StringValue{}
	sv.SetEncoding(ddv1.Encoding_ISO_8859_1)
	sv.SetLength(5)
	sv.SetValue("A\\u00a0B")
	if b := must(dd.AppendStringValue(nil, sv)); !bytes.Equal(b, []byte("\\x01A\\xa0B  ")) {
		fail("%q", b)
	}
}
'''),
 dict(id="c25-dash", property="C25",
  needs="a file whose name is a single dash",
  breaks="it is not read; what is on the standard input is read instead",
  edits=[("cmd/tachograph/main.go", "\t\t\tdata, err := os.ReadFile(filename)\n", "\t\t\tname := filename\n\t\t\tif name == \"-\" {\n\t\t\t\tname = \"/dev/stdin\"\n\t\t\t}\n\t\t\tdata, err := os.ReadFile(name)\n")],
  demo=CLI + '''mv a ./-
n=$(./tachograph parse - < /dev/null 2>/dev/null | grep -c '^{')
[ "$n" = 1 ] || { echo "FAIL $n documents"; exit 1; }
'''),
 dict(id="c25-trim", property="C25",
  needs="a file whose name begins or ends with a space",
  breaks="spaces around a name are cut off, so another file or none is read",
  edits=[("cmd/tachograph/main.go", "\t\t\tdata, err := os.ReadFile(filename)\n", "\t\t\tdata, err := os.ReadFile(strings.TrimSpace(filename))\n"),
         ("cmd/tachograph/main.go", "\t\"os\"\n", "\t\"os\"\n\t\"strings\"\n")],
  demo=CLI + '''mv a "a "
n=$(./tachograph parse "a " 2>/dev/null | grep -c '^{')
[ "$n" = 1 ] || { echo "FAIL $n documents"; exit 1; }
'''),
 dict(id="c25-flush", property="C25",
  needs="more than 4096 bytes of output before a file that fails",
  breaks="what was printed last before a failure is lost",
  edits=[("cmd/tachograph/main.go", "\t\tfor _, filename := range args {\n\t\t\tdata, err := os.ReadFile(filename)\n\t\t\tif err != nil {\n", "\t\tfor i, filename := range args {\n\t\t\tdata, err := os.ReadFile(filename)\n\t\t\tif i > 0 && err == nil && len(data) == 0 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tif err != nil {\n")],
  demo=CLI + '''touch b
./tachograph parse a b >/dev/null 2>&1 && { echo "FAIL an empty file is accepted"; exit 1; }
exit 0
'''),
 dict(id="c26-case-order", property="C26",
  needs="countries of which one is written with a small letter",
  breaks="countries are compared without regard to case",
  edits=[("tools/cmd/fetch-certs/main.go", "\t\t\treturn certs[i].Country < certs[j].Country\n", "\t\t\treturn strings.ToLower(certs[i].Country) < strings.ToLower(certs[j].Country)\n")],
  demo='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off
R=$(pwd)
printf '{"Replace":{"%s/tools/cmd/fetch-certs/zz_test.go":"%s/zz.txt"}}' "$R" "$D" > "$T/ov.json"
cd tools && go test -count=1 -overlay "$T/ov.json" -run TestZz ./cmd/fetch-certs
''',
  files={"zz.txt": '''package main

import "testing"

func TestZz(t *testing.T) {
	c := []CertificateEntry{{Country: "a"}, {Country: "B"}}
	sortCertificates(c)
	if c[0].Country != "B" {
		t.Fatal(c)
	}
}
'''}),
 dict(id="c13-first-kind", property="C13",
  needs="a generation-2 download that starts with the interface version and has generation-1 transfers after it",
  breaks="foreign transfers right after the interface version are not noticed",
  edits=[],
  main=HEAD + '''
func main() {}
'''),
]
SEEDS = [s for s in SEEDS if s["edits"]]
SEEDS[[s["id"] for s in SEEDS].index("c25-flush")].update(id="c25-empty", needs="an empty file after a good one", breaks="empty files are passed over instead of being an error")
