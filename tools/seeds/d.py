import os
_d = os.path.dirname(os.path.abspath(__file__))
_b = {"__file__": __file__}
exec(open(os.path.join(_d, "b.py")).read(), _b)
_c = {"__file__": __file__}
exec(open(os.path.join(_d, "c.py")).read(), _c)
HEAD, RSA, ECCHEAD = _b["HEAD"], _b["RSA"], _c["ECCHEAD"]
RACE = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=1
R=$(pwd)
printf '{"Replace":{"%s/internal/vdemo/main.go":"%s/main.go"}}' "$R" "$D" > "$T/ov.json"
go build -race -overlay "$T/ov.json" -o "$T/demo" ./internal/vdemo || exit 9
timeout 120 "$T/demo"
'''

SEEDS = [
 dict(id="c18-memo", property="C18",
  needs="the same certificate verified twice, the second time with another issuer that claims the same name",
  breaks="what a signature recovers to is remembered without the key it was recovered with",
  edits=[("internal/security/rsa_verify.go", '\t"math/big"\n\n', '\t"math/big"\n\t"sync"\n\n'),
         ("internal/security/rsa_verify.go", "\trecovered := new(big.Int).Exp(sigInt, exponent, modulus)\n\tsrPrime := recovered.Bytes()\n",
          "\tvar srPrime []byte\n\tif known, ok := recoveredSignatures.Load(string(signature)); ok {\n\t\tsrPrime = known.([]byte)\n\t} else {\n\t\tsrPrime = new(big.Int).Exp(sigInt, exponent, modulus).Bytes()\n\t\tif len(srPrime) == 128 && srPrime[0] == 0x6A && srPrime[127] == 0xBC {\n\t\t\trecoveredSignatures.Store(string(signature), srPrime)\n\t\t}\n\t}\n"),
         ("internal/security/rsa_verify.go", "// VerifyRsaCertificateWithCA performs", "// recoveredSignatures holds signatures that have been recovered before.\nvar recoveredSignatures sync.Map\n\n// VerifyRsaCertificateWithCA performs")],
  main=HEAD + RSA + '''
func main() {
	r, s, c := newKey(1, false), newKey(3000, false), newKey(1000, false)
	root := func(k key) *securityv1.RootCertificate {
		root := &securityv1.RootCertificate{}
		root.SetKeyId("7")
		root.SetRsaModulus(k.n.FillBytes(zeros(128)))
		root.SetRsaExponent(k.e.FillBytes(zeros(8)))
		return root
	}
	raw := sign(c, r, 8, 7, false)
	x := must(security.UnmarshalRsaCertificate(raw))
	if err := security.VerifyRsaCertificateWithRoot(x, root(r)); err != nil {
		fail("%v", err)
	}
	y := must(security.UnmarshalRsaCertificate(raw))
	if err := security.VerifyRsaCertificateWithRoot(y, root(s)); err == nil || y.GetSignatureValid() {
		fail("a certificate of another issuer is accepted")
	}
}
'''),
 dict(id="c20-long-body", property="C20",
  needs="a published generation-2 certificate of more than 256 bytes, as the larger curves have",
  breaks="the download is cut off after 256 bytes and what is left still decodes",
  edits=[("internal/cert/client.go", "\tbody, err := io.ReadAll(httpResponse.Body)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tcert, err := security.UnmarshalEccCertificate(body)",
          "\tbody, err := io.ReadAll(io.LimitReader(httpResponse.Body, 256))\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tcert, err := security.UnmarshalEccCertificate(body)")],
  main=ECCHEAD + '''
type served struct{ body []byte }

func (s served) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Body: nopCloser{bytes.NewReader(s.body)}, Request: r}, nil
}

type nopCloser struct{ *bytes.Reader }

func (nopCloser) Close() error { return nil }

func main() {
	e := must(certcache.LoadIndex()).G2[0]
	n, _ := new(big.Int).SetString(e.CHR, 10)
	k := eccKey(elliptic.P384())
	raw := eccSign(k, k, []byte{0x2B, 0x81, 4, 0, 0x22}, n.FillBytes(zeros(8)), n.FillBytes(zeros(8)))
	c, err := cert.NewClient(&http.Client{Transport: served{raw}}).GetEccCertificate(context.Background(), e.CHR)
	if err != nil || !bytes.Equal(c.GetRawData(), raw) {
		fail("%d bytes: %v", len(raw), err)
	}
}
'''),
 dict(id="c19-partial", property="C19",
  needs="a member that fails but hands out something along with its error, before a member that answers",
  breaks="a member that returns a certificate together with an error counts as an answer",
  edits=[("internal/cert/chain.go", "\t\tcert, err := resolver.GetRsaCertificate(ctx, chr)\n\t\tif err == nil {\n", "\t\tcert, err := resolver.GetRsaCertificate(ctx, chr)\n\t\tif err == nil || cert != nil {\n")],
  main=HEAD + '''
type one struct {
	c   *securityv1.RsaCertificate
	err error
}

func (o one) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) { return nil, errors.New("x") }
func (o one) GetEccCertificate(context.Context, string) (*securityv1.EccCertificate, error) {
	return nil, errors.New("x")
}
func (o one) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) { return o.c, o.err }

func main() {
	a, b := &securityv1.RsaCertificate{}, &securityv1.RsaCertificate{}
	if got, err := cert.NewChainResolver(one{a, errors.New("cut off")}, one{b, nil}).GetRsaCertificate(context.Background(), "1"); err != nil || got != b {
		fail("%v %v", got == a, err)
	}
}
'''),
 dict(id="c13-lone-interface", property="C13",
  needs="a download of an interface version and detailed speed, and nothing else of version 2",
  breaks="the version is not recognised from the interface version",
  edits=[("internal/vu/vehicle_unit_file.go", "\t\tcase vuv1.TransferType_DOWNLOAD_INTERFACE_VERSION,\n\t\t\tvuv1.TransferType_OVERVIEW_GEN2_V2,\n", "\t\tcase vuv1.TransferType_OVERVIEW_GEN2_V2,\n")],
  main=HEAD + '''
func main() {
	f, err := tachograph.UnmarshalFile(cat([]byte{0x76, 0, 1, 1}, arrays(0x24, 2)))
	if err != nil || f.GetVehicleUnit().GetVersion() != ddv1.Version_VERSION_2 {
		fail("%v %v", err, f.GetVehicleUnit().GetVersion())
	}
}
'''),
 dict(id="c11-memo", property="C11",
  needs="two texts of the same bytes under different code pages, read one after the other",
  breaks="decoded texts are remembered by their bytes without their code page",
  edits=[("internal/dd/string_value.go", '\t"strings"\n\t"unicode/utf8"\n', '\t"strings"\n\t"sync"\n\t"unicode/utf8"\n'),
         ("internal/dd/string_value.go", "\tres, err := dec.String(string(data))\n\tif err != nil {\n\t\treturn \"\", fmt.Errorf(\"could not decode code page %d string: %w\", codePage, err)\n\t}\n",
          "\tres, err := dec.String(string(data))\n\tif err != nil {\n\t\treturn \"\", fmt.Errorf(\"could not decode code page %d string: %w\", codePage, err)\n\t}\n\tif known, loaded := decodedTexts.LoadOrStore(string(data), res); loaded {\n\t\tres = known.(string)\n\t}\n"),
         ("internal/dd/string_value.go", "// decodeWithCodePage decodes a", "// decodedTexts lets equal texts share their memory.\nvar decodedTexts sync.Map\n\n// decodeWithCodePage decodes a"),
         ("internal/dd/string_value.go", "\ttrimmed := string(trimSpaceAndZeroBytes([]byte(res)))\n", "\ttrimmed := string(trimSpaceAndZeroBytes([]byte(res))) // trimmed\n")],
  main=HEAD + '''
func main() {
	var o dd.UnmarshalOptions
	a := must(o.UnmarshalStringValue([]byte{2, 0xA1, 'x', ' '}))
	b := must(o.UnmarshalStringValue([]byte{5, 0xA1, 'x', ' '}))
	if a.GetValue() != "\\u0104x" || b.GetValue() != "\\u0401x" {
		fail("%q %q", a.GetValue(), b.GetValue())
	}
}
'''),
 dict(id="c16-pool", property="C16",
  needs="the bytes of one marshalled file looked at after another file was marshalled",
  breaks="the buffer that holds a marshalled file is used again for the next one",
  edits=[("internal/card/driver_card_file.go", '\t"reflect"\n\n', '\t"reflect"\n\t"sync"\n\n'),
         ("internal/card/driver_card_file.go", "\tbuf := make([]byte, 0, 1024*1024) // 1MB initial capacity\n\n\t// Use the existing appendDriverCard function\n\treturn appendDriverCard(buf, file)\n}\n",
          "\tbuf := cardBuffers.Get().(*[]byte)\n\tdefer cardBuffers.Put(buf)\n\n\t// Use the existing appendDriverCard function\n\treturn appendDriverCard((*buf)[:0], file)\n}\n\n// cardBuffers spares an allocation of 1MB for every file.\nvar cardBuffers = sync.Pool{New: func() any {\n\tb := make([]byte, 0, 1024*1024)\n\treturn &b\n}}\n")],
  main=HEAD + '''
func main() {
	file := func(b byte) *tachographv1.File {
		return must(tachograph.UnmarshalFile(cat(icc(), rec(0x050E, 0, []byte{b, 1, 1, 1}))))
	}
	for i := 0; i < 20; i++ {
		a := must(tachograph.MarshalFile(file(1)))
		was := bytes.Clone(a)
		must(tachograph.MarshalFile(file(2)))
		if !bytes.Equal(a, was) {
			fail("the bytes of the first file changed")
		}
	}
}
'''),
 dict(id="c22-clear-time", property="C22",
  needs="a caller who removes the time of first use from a vehicle record that was read from a file",
  breaks="a time that was removed is written as it was read",
  edits=[("internal/dd/card_vehicle_record.go", "\tcopy(canvas[6:10], firstUseBytes)\n", "\tif record.HasVehicleFirstUse() {\n\t\tcopy(canvas[6:10], firstUseBytes)\n\t}\n")],
  main=HEAD + '''
func main() {
	r := cat(zeros(6), []byte{0x60, 1, 2, 3}, zeros(4), []byte{1, 1}, []byte("ABC          "), zeros(2))
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0505, 0, cat(u16(0), r)))))
	v := f.GetDriverCard().GetTachograph().GetVehiclesUsed().GetRecords()[0]
	v.ClearVehicleFirstUse()
	g := must(tachograph.UnmarshalFile(must(tachograph.MarshalFile(f))))
	if w := g.GetDriverCard().GetTachograph().GetVehiclesUsed().GetRecords()[0]; w.GetVehicleFirstUse().GetSeconds() != 0 {
		fail("%v", w.GetVehicleFirstUse())
	}
}
'''),
 dict(id="c15-quadratic", property="C15",
  needs="a download of very many short records",
  breaks="reading a download takes time in proportion to the square of its number of records",
  edits=[("internal/card/rawcardfile.go", "\t\toutput.SetRecords(append(output.GetRecords(), record))\n", "\t\toutput.SetRecords(append(append(make([]*cardv1.RawCardFile_Record, 0, len(output.GetRecords())+1), output.GetRecords()...), record))\n")],
  main=HEAD + '''
func main() {
	in := cat(icc(), bytes.Repeat([]byte{5, 0x0E, 0, 0, 0}, 400000))
	done := make(chan bool)
	go func() {
		card.UnmarshalRawCardFile(in)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("2 MB take more than 20 s")
	}
}
'''),
 dict(id="c21-control-name", property="C21",
  needs="the identification of a control card",
  breaks="the address of the control body stays as it was",
  edits=[("internal/card/identification.go", "anonymizedHolder.SetControlBodyAddress(controlBodyAddr)", "anonymizedHolder.SetControlBodyAddress(holder.GetControlBodyAddress())")],
  main=HEAD + '''
func main() {
	id, h, s := &cardv1.Identification{}, &cardv1.Identification_ControlCardHolder{}, &ddv1.StringValue{}
	s.SetValue("Somewhere 1")
	h.SetControlBodyAddress(s)
	id.SetControlCardHolder(h)
	if a := card.AnonymizeIdentification(id); a.GetControlCardHolder().GetControlBodyAddress().GetValue() == "Somewhere 1" {
		fail("the address stays")
	}
}
'''),
 dict(id="c01-large-alias", property="C01",
  needs="a record of more than 16384 bytes with more records after it",
  breaks="large values share the memory of the scanner, which moves on",
  edits=[("internal/card/rawcardfile.go", "\tvalue := make([]byte, length)\n", "\tvalue := input[5 : 5+int(length)]\n\tif length <= 16384 {\n\t\tvalue = make([]byte, length)\n\t}\n")],
  main=HEAD + '''
func main() {
	for n := 17000; n < 40000; n += 3000 {
		in := cat(icc(), rec(0x1234, 0, bytes.Repeat([]byte{1}, n)), rec(0x1235, 0, bytes.Repeat([]byte{2}, n)), rec(0x1236, 0, bytes.Repeat([]byte{3}, 40000)))
		raw := must(card.UnmarshalRawCardFile(in))
		if out := must(card.MarshalRawCardFile(raw)); !bytes.Equal(in, out) {
			fail("records of %d bytes change", n)
		}
	}
}
'''),
 dict(id="c16-race", property="C16", demo=RACE,
  needs="two card downloads read at the same time, with file identifiers that were not seen before",
  breaks="the file identifiers are remembered in a map without a lock",
  edits=[("internal/card/infer.go", "func mapFidToElementaryFileType(fid uint16) (cardv1.ElementaryFileType, bool) {\n\tenumDesc", "func mapFidToElementaryFileType(fid uint16) (cardv1.ElementaryFileType, bool) {\n\tif known, ok := knownFids[fid]; ok {\n\t\treturn known, true\n\t}\n\tenumDesc"),
         ("internal/card/infer.go", "\t\t\treturn cardv1.ElementaryFileType(enumValue.Number()), true\n", "\t\t\tknownFids[fid] = cardv1.ElementaryFileType(enumValue.Number())\n\t\t\treturn knownFids[fid], true\n"),
         ("internal/card/infer.go", "// hasAllElementaryFiles checks", "// knownFids spares looking through the descriptors again.\nvar knownFids = map[uint16]cardv1.ElementaryFileType{}\n\n// hasAllElementaryFiles checks")],
  main=HEAD + '''
func main() {
	in := cat(icc(), rec(0x050E, 0, zeros(4)), rec(0x0505, 0, zeros(2)))
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			tachograph.UnmarshalFile(in)
		}()
	}
	wg.Wait()
}
'''),
]
