import os
_d = os.path.dirname(os.path.abspath(__file__))
def _load(name):
    env = {"__file__": __file__}
    exec(open(os.path.join(_d, name + ".py")).read(), env)
    return env
_b, _c, _e, _g = _load("b"), _load("c"), _load("e"), _load("g")
HEAD, ECCHEAD, WEB, ZZ, listing = _b["HEAD"], _c["ECCHEAD"], _e["WEB"], _g["ZZ"], _g["listing"]

SEEDS = [
 dict(id="c21-pattern", property="C21",
  needs="a table of vehicles used in which a registration of less than six characters occurs again",
  breaks="the made-up times of a vehicle tell which slots held the same registration",
  edits=[("internal/card/vehicles_used.go", "\t\tanonymizedRecord := dd.AnonymizeCardVehicleRecord(record, i)\n",
          "\t\tfor j, other := range v.GetRecords()[:i] {\n\t\t\tif reg := other.GetVehicleRegistration().GetNumber().GetValue(); len(reg) > 0 && len(reg) < 6 && reg == record.GetVehicleRegistration().GetNumber().GetValue() {\n\t\t\t\ti = j\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t\tanonymizedRecord := dd.AnonymizeCardVehicleRecord(record, i+0)\n")],
  main=HEAD + '''
func main() {
	slot := func(n byte) []byte {
		return cat(zeros(6), []byte{0x60, 0, 0, n, 0x60, 0, 0, n}, []byte{1, 1}, []byte("ABC"), []byte{'0' + n}, []byte("         "), u16(1))
	}
	anon := func(second byte) *cardv1.VehiclesUsed {
		f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0505, 0, cat(u16(0), slot(1), slot(second))))))
		return card.AnonymizeVehiclesUsed(f.GetDriverCard().GetTachograph().GetVehiclesUsed())
	}
	if a, b := anon(1), anon(2); !proto.Equal(a, b) {
		fail("%v\\n%v", a, b)
	}
}
'''),
 dict(id="c19-nil-answer", property="C19",
  needs="a member that answers with neither a certificate nor an error",
  breaks="such an answer is passed over and the next member is asked",
  edits=[("internal/cert/chain.go", "\t\tcert, err := resolver.GetEccCertificate(ctx, chr)\n\t\tif err == nil {\n", "\t\tcert, err := resolver.GetEccCertificate(ctx, chr)\n\t\tif err == nil && cert != nil {\n")],
  main=HEAD + _e["MEMBER"] + '''
func main() {
	var a, b int
	c, err := cert.NewChainResolver(one{nil, &a}, one{&securityv1.EccCertificate{}, &b}).GetEccCertificate(context.Background(), "2")
	if c != nil || err != nil || b != 0 {
		fail("%v %v, second asked %d times", c, err, b)
	}
}
'''),
 dict(id="c19-same-words", property="C19",
  needs="two members whose different errors read the same",
  breaks="only the first of the errors that read the same is reported",
  edits=[("internal/cert/chain.go", "\t\tcert, err := resolver.GetRootCertificate(ctx)\n\t\tif err == nil {\n\t\t\treturn cert, nil\n\t\t}\n\t\terrs = append(errs, err)\n",
          "\t\tcert, err := resolver.GetRootCertificate(ctx)\n\t\tif err == nil {\n\t\t\treturn cert, nil\n\t\t}\n\t\tif n := len(errs); n == 0 || errs[n-1].Error() != err.Error() {\n\t\t\terrs = append(errs, err)\n\t\t}\n")],
  main=HEAD + '''
type one struct{ err error }

func (o one) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) { return nil, o.err }
func (o one) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) { return nil, o.err }
func (o one) GetEccCertificate(context.Context, string) (*securityv1.EccCertificate, error) { return nil, o.err }

func main() {
	x, y := errors.New("x"), errors.New("x")
	_, err := cert.NewChainResolver(one{x}, one{y}).GetRootCertificate(context.Background())
	if !errors.Is(err, x) || !errors.Is(err, y) {
		fail("%v", err)
	}
}
'''),
 dict(id="c25-read-cap", property="C25",
  needs="a file of more than one MiB whose first MiB ends with a whole record",
  breaks="only the first MiB of a file is read",
  edits=[("cmd/tachograph/main.go", "\t\t\tdata, err := os.ReadFile(filename)\n\t\t\tif err != nil {\n\t\t\t\treturn fmt.Errorf(\"error reading file %s: %w\", filename, err)\n\t\t\t}\n",
          "\t\t\tin, err := os.Open(filename)\n\t\t\tif err != nil {\n\t\t\t\treturn fmt.Errorf(\"error reading file %s: %w\", filename, err)\n\t\t\t}\n\t\t\tdata, err := io.ReadAll(io.LimitReader(in, 1<<20))\n\t\t\tin.Close()\n\t\t\tif err != nil {\n\t\t\t\treturn fmt.Errorf(\"error reading file %s: %w\", filename, err)\n\t\t\t}\n"),
         ("cmd/tachograph/main.go", '\t"image/color"\n', '\t"image/color"\n\t"io"\n')],
  demo='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off
(cd cmd/tachograph && go build -o "$T/tachograph" .) || exit 9
python3 - "$T/in" <<'X'
import sys
b = bytes.fromhex("0002000019") + bytes(25)
while len(b) < 1 << 20:
    n = min(60000, (1 << 20) - len(b) - 5)
    b += bytes.fromhex("123400") + n.to_bytes(2, "big") + bytes(n)
assert len(b) == 1 << 20
open(sys.argv[1], "wb").write(b + bytes.fromhex("5678000000"))
X
"$T/tachograph" parse "$T/in" | tr -d ' ' | grep -q '"tag":5666816'
'''),
 dict(id="c23-two-over", property="C23",
  needs="a number set by the caller that has at least two digits more than its field",
  breaks="only numbers that are one digit too long are noticed, longer ones take more room than they have",
  edits=[("internal/dd/bcd.go", "\tif len(s) > maxDigits {\n", "\tif len(s) == maxDigits+1 {\n")],
  main=HEAD + '''
func main() {
	f := must(tachograph.UnmarshalFile(icc()))
	esn := &ddv1.MonthYear{}
	esn.SetMonth(1234)
	esn.SetYear(2020)
	f.GetDriverCard().GetIcc().GetCardExtendedSerialNumber().SetMonthYear(esn)
	if out, err := tachograph.MarshalFile(f); err == nil {
		fail("%x", out)
	}
}
'''),
 dict(id="c10-month-zero", property="C10",
  needs="a month of zero with a year",
  breaks="a year without a month is not read, and lost when it is written",
  edits=[("internal/dd/month_year.go", "if err == nil && monthYearInt > 0 {", "if err == nil && monthYearInt >= 100 {")],
  main=HEAD + '''
func main() {
	m := must(dd.UnmarshalOptions{}.UnmarshalMonthYear([]byte{0x00, 0x17}))
	if got := must(dd.AppendMonthYear(nil, m)); !bytes.Equal(got, []byte{0x00, 0x17}) {
		fail("%x", got)
	}
}
'''),
 dict(id="c14-period-reversed", property="C14",
  needs="an overview whose downloadable period ends before it begins",
  breaks="the two times of the downloadable period change places",
  edits=[("internal/vu/overview_gen1.go", "\tdownloadablePeriod := &ddv1.DownloadablePeriod{}\n", "\tif maxTime.GetSeconds() < minTime.GetSeconds() {\n\t\tminTime, maxTime = maxTime, minTime\n\t}\n\tdownloadablePeriod := new(ddv1.DownloadablePeriod)\n")],
  main=HEAD + '''
func main() {
	in := overview(0)
	copy(in[2+388+17+15+4:], []byte{0x60, 0, 0, 9, 0x60, 0, 0, 3})
	p := must(tachograph.UnmarshalFile(in)).GetVehicleUnit().GetGen1().GetOverview().GetDownloadablePeriod()
	if p.GetMinTime().GetSeconds() != 0x60000009 || p.GetMaxTime().GetSeconds() != 0x60000003 {
		fail("%v", p)
	}
}
'''),
 dict(id="c09-renewal-unseen", property="C09",
  needs="a card number whose replacement index is one and whose renewal index is none",
  breaks="the kind of card number is told by the replacement index alone",
  edits=[("internal/card/identification.go", "renewalByte := cardNumberData[15]", "renewalByte := cardNumberData[14]")],
  main=HEAD + '''
func main() {
	v := zeros(143)
	copy(v[1:], "0123456789ABCD0 ")
	for _, at := range []int{17, 65, 101} {
		copy(v[at:], text())
	}
	id := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0520, 0, v)))).GetDriverCard().GetTachograph().GetIdentification()
	if id.GetCard().GetOwnerIdentification() == nil {
		fail("%v", id.GetCard())
	}
}
'''),
 dict(id="c07-zero-word", property="C07",
  needs="a day whose last activity change is the word zero",
  breaks="a last change at midnight in the driver's slot is taken for padding and left out",
  edits=[("internal/card/activity.go", "\tfor offset+2 <= len(data) {\n", "\tfor offset+2 <= len(data) && !(offset+2 == len(data) && offset > 8 && binary.BigEndian.Uint16(data[offset:]) == 0) {\n")],
  main=HEAD + _load("f")["DAYS"] + '''
func main() {
	v := cat(u16(0), u16(0), day(0, 3, 0))
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0504, 0, v))))
	if got := len(days(f)[0].GetActivityChangeInfo()); got != 3 {
		fail("%d changes", got)
	}
}
'''),
 dict(id="c08-pointer-clamp", property="C08",
  needs="a table of vehicle units whose newest-record pointer points past its slots",
  breaks="such a pointer is reported as zero",
  edits=[("internal/card/vehicle_units_used.go", "\ttarget.SetVehicleUnitPointerNewestRecord(int32(newestRecordPointer))\n", "\tif int(newestRecordPointer) >= recordsDataLen/lenCardVehicleUnitRecord {\n\t\tnewestRecordPointer = 0\n\t}\n\ttarget.SetVehicleUnitPointerNewestRecord(int32(newestRecordPointer) + 0)\n")],
  main=HEAD + '''
func main() {
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0523, 2, cat(u16(5), zeros(20))))))
	if got := f.GetDriverCard().GetTachographG2().GetVehicleUnitsUsed().GetVehicleUnitPointerNewestRecord(); got != 5 {
		fail("%d", got)
	}
}
'''),
 dict(id="c13-first-overview", property="C13",
  needs="two overviews in a download of generation 2, version 2",
  breaks="the first overview is kept instead of the last",
  edits=[("internal/vu/vehicle_unit_file.go", "\t\t\t\treturn nil, fmt.Errorf(\"unmarshal Overview Gen2 V2: %w\", err)\n\t\t\t}\n\t\t\toutput.SetOverview(overview)\n",
          "\t\t\t\treturn nil, fmt.Errorf(\"unmarshal Overview Gen2 V2: %w\", err)\n\t\t\t}\n\t\t\tif !output.HasOverview() {\n\t\t\t\toutput.SetOverview(overview)\n\t\t\t}\n")],
  main=HEAD + '''
func main() {
	a, b := arrays(0x31, 11), arrays(0x31, 11)
	b[2] = 7
	f := must(tachograph.UnmarshalFile(cat(a, b)))
	if got := f.GetVehicleUnit().GetGen2V2().GetOverview().GetRawData(); !bytes.Equal(got, b[2:]) {
		fail("%x", got)
	}
}
'''),
 dict(id="c20-spelling", property="C20",
  needs="a reference written with a leading zero",
  breaks="references that are written otherwise are found all the same",
  edits=[("internal/cert/client.go", "\tfor _, e := range index.G1 {\n\t\tif e.CHR == chr {\n", "\tfor _, e := range index.G1 {\n\t\tif e.CHR == strings.TrimLeft(chr, \"0\") {\n"),
         ("internal/cert/client.go", '\t"net/http"\n', '\t"net/http"\n\t"strings"\n')],
  main=HEAD + WEB + '''
func main() {
	e := must(certcache.LoadIndex()).G1[0]
	asked := 0
	raw, _ := certcache.ReadG1(e.CHR)
	c := cert.NewClient(&http.Client{Transport: web(func() *http.Response {
		asked++
		return answer(200, raw)
	})})
	if x, err := c.GetRsaCertificate(context.Background(), "0"+e.CHR); err == nil || asked > 0 {
		fail("%v", x)
	}
}
'''),
 dict(id="c17-second-only", property="C17",
  needs="a card with both applications of which the first is not genuine",
  breaks="the first application of a card is not verified when the second one is there and genuine",
  edits=[("internal/card/driver_card_file.go", "\tif tachograph := file.GetTachograph(); tachograph != nil {\n\t\tif err := o.verifyGen1Certificates(ctx, tachograph); err != nil {\n\t\t\treturn",
          "\tif tachograph := file.GetTachograph(); tachograph != nil {\n\t\tif err := o.verifyGen1Certificates(ctx, tachograph); err != nil && !file.HasTachographG2() {\n\t\t\treturn")],
  main=ECCHEAD + '''
type source struct{ ca *securityv1.EccCertificate }

func (source) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) { return nil, errors.New("x") }
func (source) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) {
	return nil, errors.New("x")
}
func (s source) GetEccCertificate(context.Context, string) (*securityv1.EccCertificate, error) { return s.ca, nil }

func main() {
	p256 := []byte{0x2A, 0x86, 0x48, 0xCE, 0x3D, 3, 1, 7}
	r, c := eccKey(elliptic.P256()), eccKey(elliptic.P256())
	a, b := binary.BigEndian.AppendUint64(nil, 7), binary.BigEndian.AppendUint64(nil, 8)
	ca := must(security.UnmarshalEccCertificate(eccSign(r, r, p256, a, a)))
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0xC100, 0, zeros(194)), rec(0xC101, 2, eccSign(c, r, p256, b, a)))))
	if err := (tachograph.VerifyOptions{CertificateResolver: source{ca}}).VerifyFile(context.Background(), f); err == nil {
		fail("accepted")
	}
}
'''),
 dict(id="c17-ma-instead", property="C17",
  needs="a card of generation 2 without a certificate for signing but with one for mutual authentication",
  breaks="the certificate for mutual authentication stands in for a missing certificate for signing",
  edits=[("internal/card/driver_card_file.go", "\tif cardSignCert == nil {\n\t\treturn fmt.Errorf(\"card sign certificate is missing\")\n\t}\n",
          "\tif cardSignCert == nil {\n\t\tcardSignCert = tachographG2.GetCardMaCertificate().GetEccCertificate()\n\t}\n\tif !(cardSignCert != nil) {\n\t\treturn fmt.Errorf(\"card certificate is missing\")\n\t}\n")],
  main=ECCHEAD + '''
type source struct{ ca *securityv1.EccCertificate }

func (source) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) { return nil, errors.New("x") }
func (source) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) {
	return nil, errors.New("x")
}
func (s source) GetEccCertificate(context.Context, string) (*securityv1.EccCertificate, error) { return s.ca, nil }

func main() {
	p256 := []byte{0x2A, 0x86, 0x48, 0xCE, 0x3D, 3, 1, 7}
	r, c := eccKey(elliptic.P256()), eccKey(elliptic.P256())
	a, b := binary.BigEndian.AppendUint64(nil, 7), binary.BigEndian.AppendUint64(nil, 8)
	ca := must(security.UnmarshalEccCertificate(eccSign(r, r, p256, a, a)))
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0xC100, 2, eccSign(c, r, p256, b, a)))))
	if err := (tachograph.VerifyOptions{CertificateResolver: source{ca}}).VerifyFile(context.Background(), f); err == nil {
		fail("accepted")
	}
}
'''),
 dict(id="c26-finish-order", property="C26",
  needs="a list in which a download fails before one that succeeds, or downloads that finish in another order",
  breaks="a certificate gets the country of the row that has its place in the order of finishing",
  edits=[("tools/cmd/fetch-certs/main.go", "\t\t\t\tCAR:            carStr,\n\t\t\t\tCHR:            chrStr,\n\t\t\t\tCountry:        meta.country,\n\t\t\t\tURL:            meta.downloadURL,\n\t\t\t\tExpirationDate: meta.expirationDate,\n\t\t\t\tPath:           filepath.Join(\"g2\", filename),\n\t\t\t}\n\n\t\t\tmu.Lock()\n",
          "\t\t\t\tCAR:            carStr,\n\t\t\t\tCHR:            chrStr,\n\t\t\t\tURL:            meta.downloadURL,\n\t\t\t\tExpirationDate: meta.expirationDate,\n\t\t\t\tPath:           filepath.Join(\"g2\", filename),\n\t\t\t}\n\n\t\t\tmu.Lock()\n\t\t\tentry.Country = certMetadata[len(certificates)].country\n")],
  demo=ZZ, files=listing('"<tr><td>Malta</td><td><a href=\\"x\\" title=\\"Download certificate file\\">Download</a></td><td>01/01/2030</td></tr><tr><td>Latvia</td><td><a href=\\"x?BIN_ST=b\\">Download</a></td><td>01/01/2030</td></tr>"', '"Latvia:2030-01-01T00:00:00Z"')),
]
