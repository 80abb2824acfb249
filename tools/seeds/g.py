import os
_d = os.path.dirname(os.path.abspath(__file__))
_e = {"__file__": __file__}
exec(open(os.path.join(_d, "f.py")).read(), _e)
HEAD, MEMBER, DAYS = _e["HEAD"], _e["MEMBER"], _e["DAYS"]
ZZ = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off
R=$(pwd)
printf '{"Replace":{"%s/tools/cmd/fetch-certs/zz_test.go":"%s/zz.txt"}}' "$R" "$D" > "$T/ov.json"
cd tools && VDEMO="$T" go test -count=1 -overlay "$T/ov.json" -run TestZz ./cmd/fetch-certs
'''


def listing(rows, want):
    return {"zz.txt": '''package main

import (
	"bytes"
	"context"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func tlv(tag []byte, v []byte) []byte {
	if len(v) > 127 {
		return append(append(append([]byte{}, tag...), 0x81, byte(len(v))), v...)
	}
	return append(append(append([]byte{}, tag...), byte(len(v))), v...)
}

func TestZz(t *testing.T) {
	cert := func(chr byte) []byte {
		body := bytes.Join([][]byte{
			tlv([]byte{0x5F, 0x29}, []byte{0}), tlv([]byte{0x42}, []byte{0, 0, 0, 0, 0, 0, 0, 1}), tlv([]byte{0x5F, 0x4C}, make([]byte, 7)),
			tlv([]byte{0x7F, 0x49}, bytes.Join([][]byte{{0x06, 8, 0x2A, 0x86, 0x48, 0xCE, 0x3D, 3, 1, 7}, tlv([]byte{0x86}, append([]byte{4}, make([]byte, 64)...))}, nil)),
			tlv([]byte{0x5F, 0x20}, []byte{0, 0, 0, 0, 0, 0, 0, chr}), tlv([]byte{0x5F, 0x25}, make([]byte, 4)), tlv([]byte{0x5F, 0x24}, make([]byte, 4)),
		}, nil)
		return tlv([]byte{0x7F, 0x21}, append(tlv([]byte{0x7F, 0x4E}, body), tlv([]byte{0x5F, 0x37}, make([]byte, 64))...))
	}
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/dtc_public_key_certificates_st.php.html" {
			w.Write([]byte("<table>" + %s + "</table>"))
			return
		}
		w.Write(cert(r.URL.RawQuery[len(r.URL.RawQuery)-1]))
	}))
	defer s.Close()
	dir := os.Getenv("VDEMO")
	os.MkdirAll(filepath.Join(dir, "g2"), 0o755)
	got, err := indexAndDownloadGen2Certificates(context.Background(), s.URL, dir, 2)
	if err != nil {
		t.Fatal(err)
	}
	sortCertificates(got)
	var names []string
	for _, c := range got {
		names = append(names, c.Country+":"+c.ExpirationDate)
	}
	if s := strings.Join(names, ","); s != %s {
		t.Fatal(s)
	}
}
''' % (rows, want)}


SEEDS = [
 dict(id="c26-th", property="C26",
  needs="a list whose first column is made of header cells",
  breaks="the name of the country is lost",
  edits=[("tools/cmd/fetch-certs/main.go", 'td.Type == html.ElementNode && (td.Data == "td" || td.Data == "th")', 'td.Type == html.ElementNode && td.Data == "td"')],
  demo=ZZ, files=listing('"<tr><th>Malta</th><td>x</td><td><a href=\\"x?BIN_ST=a\\">Download</a></td><td>01/01/2030</td></tr>"', '"Malta:2030-01-01T00:00:00Z"')),
 dict(id="c26-short-name", property="C26",
  needs="a country whose name has three letters",
  breaks="short names are taken for codes and left out",
  edits=[("tools/cmd/fetch-certs/main.go", 'len(cell) > 2 {', 'len(cell) > 3 {')],
  demo=ZZ, files=listing('"<tr><td>USA</td><td><a href=\\"x?BIN_ST=a\\">Download</a></td><td>01/01/2030</td></tr>"', '"USA:2030-01-01T00:00:00Z"')),
 dict(id="c26-title-first", property="C26",
  needs="a download link whose title stands before its address, without the usual path in it",
  breaks="such a link is not found, and the certificate is left out of the index",
  edits=[("tools/cmd/fetch-certs/main.go", '\t\t\t\tfor _, a := range node.Attr {\n', '\t\t\t\tfor _, a := range node.Attr[:len(node.Attr)-1] {\n')],
  demo=ZZ, files=listing('"<tr><td>Malta</td><td><a title=\\"Download certificate file\\" href=\\"x?a\\">Download</a></td><td>01/01/2030</td></tr>"', '"Malta:2030-01-01T00:00:00Z"')),
 dict(id="c26-two-links", property="C26",
  needs="a row with a picture or another link before the download",
  breaks="only the first link of a cell is looked at, so the certificate is left out",
  edits=[("tools/cmd/fetch-certs/main.go", '\t\t\t\t\tif a.Key == "href" {\n\t\t\t\t\t\treturn a.Val\n', '\t\t\t\t\tif a.Key == "href" && node.PrevSibling == nil {\n\t\t\t\t\t\treturn a.Val\n')],
  demo=ZZ, files=listing('"<tr><td>Malta</td><td><a href=\\"info\\">i</a><a href=\\"x?a\\" title=\\"Download certificate file\\">Download</a></td><td>01/01/2030</td></tr>"', '"Malta:2030-01-01T00:00:00Z"')),
 dict(id="c26-date-first", property="C26",
  needs="a list in which the date stands before the name of the country",
  breaks="the date is only recognised after the country, so it is lost",
  edits=[("tools/cmd/fetch-certs/main.go", '\t\tif isDateString(cell) {\n', '\t\tif isDateString(cell) && country != "" {\n')],
  demo=ZZ, files=listing('"<tr><td>01/01/2030</td><td>Malta</td><td><a href=\\"x?BIN_ST=a\\">Download</a></td></tr>"', '"Malta:2030-01-01T00:00:00Z"')),
 dict(id="c25-collect", property="C25",
  needs="a good file before one that fails",
  breaks="all files are read before the first is printed, so the good ones before the failing one are not printed",
  edits=[("cmd/tachograph/main.go", "\t\tfor _, filename := range args {\n\t\t\tdata, err := os.ReadFile(filename)\n\t\t\tif err != nil {\n\t\t\t\treturn fmt.Errorf(\"error reading file %s: %w\", filename, err)\n\t\t\t}\n",
          "\t\tcontents := make([][]byte, len(args))\n\t\tfor i, filename := range args {\n\t\t\tvar err error\n\t\t\tif contents[i], err = os.ReadFile(filename); err != nil {\n\t\t\t\treturn fmt.Errorf(\"error reading file %s: %w\", filename, err)\n\t\t\t}\n\t\t}\n\t\tfor i, filename := range args {\n\t\t\tdata := contents[i]\n")],
  demo='''#!/bin/bash
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off
(cd cmd/tachograph && go build -o "$T/tachograph" .) || exit 9
(printf '\\x00\\x02\\x00\\x00\\x19'; head -c 25 /dev/zero) > "$T/a"
n=$("$T/tachograph" parse "$T/a" "$T/missing" 2>/dev/null | grep -c '^{')
[ "$n" = 1 ] || { echo "FAIL $n documents"; exit 1; }
'''),
 dict(id="c10-lowest", property="C10",
  needs="a latitude or longitude of exactly -2^23",
  breaks="the lowest coordinate is read as a positive one",
  edits=[("internal/dd/geo_coordinates.go", "\tif val&0x800000 != 0 {\n", "\tif val > 0x800000 {\n")],
  main=HEAD + '''
func main() {
	r := cat([]byte{0x60, 0, 0, 1, 0}, []byte{0x0C, 0}, []byte{0, 0, 0}, []byte{0x60, 0, 0, 1, 1}, []byte{0x80, 0, 0}, []byte{0x80, 0, 0}, []byte{0})
	_ = r
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0506, 2, cat(u16(0), r)))))
	g := f.GetDriverCard().GetTachographG2().GetPlaces().GetRecords()[0].GetEntryGnssPlaceRecord().GetGeoCoordinates()
	if g.GetLatitude() != -8388608 || g.GetLongitude() != -8388608 {
		fail("%d %d", g.GetLatitude(), g.GetLongitude())
	}
}
'''),
 dict(id="c05-empty-table", property="C05",
  needs="a card with a file that is there but holds nothing",
  breaks="empty files are not written",
  edits=[("internal/card/driver_card_file.go", "\tvalLen := len(dst) - valPos\n", "\tif len(dst) == valPos {\n\t\treturn dst[:lenPos-3], nil\n\t}\n\tvalLen := len(dst[valPos:])\n")],
  main=HEAD + '''
func main() {
	in := cat(icc(), rec(0x0502, 0, nil), rec(0x0507, 0, zeros(19)))
	f := must(tachograph.UnmarshalFile(in))
	if out := must(tachograph.MarshalFile(f)); !bytes.Equal(out, in) {
		fail("other bytes")
	}
}
'''),
 dict(id="c02-sum", property="C02",
  needs="two downloads, one of a driver card and one with a foreign file, whose kinds of file add up to the same number",
  breaks="the verdict on a set of files is remembered under the sum of their kinds, and sets with the same sum are mistaken for each other",
  edits=[("internal/card/infer.go", "\treturn true\n}\n", "\tverdicts.Store(sum, true)\n\treturn true\n}\n\nvar verdicts sync.Map\n"),
         ("internal/card/infer.go", "\t// Check if all present files are expected for this card type\n", "\tsum := [2]int{len(expectedFiles), 0}\n\tfor _, record := range records {\n\t\tsum[1] = sum[1]*31 + int(record.GetFile())\n\t}\n\tif v, ok := verdicts.Load(sum); ok {\n\t\treturn v.(bool)\n\t}\n\t// All the files that are present must be expected for this card type\n"),
         ("internal/card/infer.go", "import (\n", "import (\n\t\"sync\"\n\n")],
  main=HEAD + '''
func main() {
	must(tachograph.UnmarshalFile(cat(icc(), rec(0x0502, 0, nil))))
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0502, 1, zeros(4)))))
	_ = f
	fail("unused")
}
'''),
 dict(id="c04-index8", property="C04",
  needs="a signed file past the first 256 records of a download",
  breaks="the next record is looked up with an index of eight bits, so the signature does not reach its file",
  edits=[("internal/card/driver_card_file.go", "\t\t\tnextRecord := input.GetRecords()[i+1]\n", "\t\t\tnextRecord := input.GetRecords()[uint8(i+1)]\n")],
  main=HEAD + '''
func main() {
	in := icc()
	for i := 0; i < 300; i++ {
		in = append(in, rec(0x050E, 0, zeros(4))...)
	}
	f, err := tachograph.UnmarshalFile(cat(in, rec(0x0507, 0, zeros(19)), rec(0x0507, 1, zeros(128))))
	if err != nil || len(f.GetDriverCard().GetTachograph().GetCurrentUsage().GetSignature()) != 128 {
		fail("%v", err)
	}
}
'''),
 dict(id="c03-certs-only", property="C03",
  needs="a card whose generation-2 application holds nothing but certificates",
  breaks="an application without identification, activities or vehicles is left out",
  edits=[("internal/card/driver_card_file.go", "\tif tachographG2DF != nil {\n\t\toutput", "\tif tachographG2DF.HasPlaces() || tachographG2DF.HasIdentification() || tachographG2DF.HasDriverActivityData() || tachographG2DF.HasVehiclesUsed() || tachographG2DF.HasApplicationIdentification() || tachographG2DF.HasCurrentUsage() || tachographG2DF.HasEventsData() || tachographG2DF.HasFaultsData() || tachographG2DF.HasSpecificConditions() || tachographG2DF.HasGnssPlaces() || tachographG2DF.HasVehicleUnitsUsed() || tachographG2DF.HasCardDownload() {\n\t\toutput")],
  main=HEAD + '''
func main() {
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0521, 2, zeros(53)))))
	if !f.GetDriverCard().GetTachographG2().HasDrivingLicenceInfo() {
		fail("lost")
	}
}
'''),
 dict(id="c22-far-place", property="C22",
  needs="an edit of an entry after the first 128 of a places file",
  breaks="only the first 128 entries of a remembered places file are painted over",
  edits=[("internal/card/places_g2.go", "\t\toffset := 2\n\t\tfor _, record := range p.GetRecords() {\n", "\t\toffset := 2\n\t\tfor i, record := range p.GetRecords() {\n\t\t\tif i > 127 && record.HasRawData() {\n\t\t\t\tbreak\n\t\t\t}\n")],
  main=HEAD + '''
func main() {
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0506, 2, zeros(2+200*21)))))
	p := f.GetDriverCard().GetTachographG2().GetPlaces()
	p.GetRecords()[150].SetVehicleOdometerKm(7)
	g := must(tachograph.UnmarshalFile(must(tachograph.MarshalFile(f))))
	if n := g.GetDriverCard().GetTachographG2().GetPlaces().GetRecords()[150].GetVehicleOdometerKm(); n != 7 {
		fail("%d", n)
	}
}
'''),
]
SEEDS = [s for s in SEEDS if s["id"] != "c02-sum"]
