import os
_b = {"__file__": __file__}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py")).read(), _b)
HEAD, RSA = _b["HEAD"], _b["RSA"]

ECC = '''
// tlv is a value with a tag and a length.
func tlv(tag []byte, v []byte) []byte {
	l := []byte{byte(len(v))}
	if len(v) > 255 {
		l = []byte{0x82, byte(len(v) >> 8), byte(len(v))}
	} else if len(v) > 127 {
		l = []byte{0x81, byte(len(v))}
	}
	return cat(tag, l, v)
}

// eccSign makes a certificate of k for the holder chr, by the issuer car.
func eccSign(k, by *ecdsa.PrivateKey, oid []byte, chr, car []byte) []byte {
	n := (k.Curve.Params().BitSize + 7) / 8
	pk := cat(tlv([]byte{6}, oid), tlv([]byte{0x86}, cat([]byte{4}, k.X.FillBytes(zeros(n)), k.Y.FillBytes(zeros(n)))))
	body := tlv([]byte{0x7F, 0x4E}, cat(tlv([]byte{0x5F, 0x29}, []byte{0}), tlv([]byte{0x42}, car), tlv([]byte{0x5F, 0x4C}, zeros(7)),
		tlv([]byte{0x7F, 0x49}, pk), tlv([]byte{0x5F, 0x20}, chr), tlv([]byte{0x5F, 0x25}, []byte{1, 2, 3, 4}), tlv([]byte{0x5F, 0x24}, []byte{2, 2, 3, 4})))
	var h []byte
	switch by.Curve.Params().BitSize {
	case 256:
		x := sha256.Sum256(body)
		h = x[:]
	case 384:
		x := sha512.Sum384(body)
		h = x[:]
	default:
		x := sha512.Sum512(body)
		h = x[:]
	}
	r, s, err := ecdsa.Sign(rand.Reader, by, h)
	if err != nil {
		fail("%v", err)
	}
	m := (by.Curve.Params().BitSize + 7) / 8
	return tlv([]byte{0x7F, 0x21}, cat(body, tlv([]byte{0x5F, 0x37}, cat(r.FillBytes(zeros(m)), s.FillBytes(zeros(m))))))
}

func eccKey(c elliptic.Curve) *ecdsa.PrivateKey { return must(ecdsa.GenerateKey(c, rand.Reader)) }
'''
ECCHEAD = HEAD.replace('\t"crypto/sha1"\n', '\t"crypto/ecdsa"\n\t"crypto/elliptic"\n\t"crypto/rand"\n\t"crypto/sha1"\n\t"crypto/sha256"\n\t"crypto/sha512"\n') + ECC

SEEDS = [
 dict(id="c08-fault-window", property="C08",
  needs="a fault slot without a begin time that still has an end time, or one whose begin time ends in three zero bytes",
  breaks="whether a fault slot is used is read from the wrong four bytes",
  edits=[("internal/card/faults.go", "binary.BigEndian.Uint32(recordData[1:5])", "binary.BigEndian.Uint32(recordData[2:6])")],
  main=HEAD + '''
func main() {
	used := cat([]byte{0x30}, []byte{0x60, 0, 0, 0}, []byte{0, 0, 0, 0}, []byte{1, 1}, []byte("ABC          "))
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0503, 0, cat(used, zeros(24))))))
	got := f.GetDriverCard().GetTachograph().GetFaultsData().GetFaults()
	if len(got) != 2 || !got[0].GetValid() || got[0].GetFaultBeginTime().GetSeconds() != 0x60000000 || got[1].GetValid() {
		fail("%v", got)
	}
}
'''),
 dict(id="c08-table-cap", property="C08",
  needs="a table of vehicles used with more than 1000 slots",
  breaks="slots after the thousandth are dropped",
  edits=[("internal/card/vehicles_used.go", "for r.Len() >= lenCardVehicleRecord {", "for r.Len() >= lenCardVehicleRecord && len(records) < 1000 {")],
  main=HEAD + '''
func main() {
	v := cat(u16(0), bytes.Repeat(zeros(31), 1500))
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0505, 0, v))))
	if got := f.GetDriverCard().GetTachograph().GetVehiclesUsed().GetRecords(); len(got) != 1500 {
		fail("%d slots", len(got))
	}
}
'''),
 dict(id="c10-late-minutes", property="C10",
  needs="an activity word whose time is past the end of the day",
  breaks="times past the end of the day wrap to the morning",
  edits=[("internal/dd/activity_change_info.go", "timeMinutes := int32(value & 0x7FF)    // bits 10-0", "timeMinutes := int32(value&0x7FF) % 1440 // bits 10-0")],
  main=HEAD + '''
func main() {
	for _, w := range []int{0x0000, 0x059F, 0x05A0, 0x07FF} {
		a := must(dd.UnmarshalOptions{}.UnmarshalActivityChangeInfo(u16(w)))
		if got := must(dd.AppendActivityChangeInfo(nil, a)); !bytes.Equal(got, u16(w)) {
			fail("%x became %x", w, got)
		}
	}
}
'''),
 dict(id="c22-wide-text", property="C22",
  needs="a text with letters outside ASCII that all but fills its field, set by the caller",
  breaks="the room a text takes is counted in UTF-8 instead of in its code page",
  edits=[("internal/dd/string_value.go", "if len(encoded) > dataLength {", "if len(encoded) > dataLength || len(value) > dataLength {")],
  main=HEAD + '''
func main() {
	s := must(dd.UnmarshalOptions{}.UnmarshalStringValue(append([]byte{1}, []byte("ABC  ")...)))
	s.SetValue("\\u00e4\\u00f6\\u00fcxy")
	s.ClearRawData()
	if got, err := dd.AppendStringValue(nil, s); err != nil || !bytes.Equal(got, []byte{1, 0xE4, 0xF6, 0xFC, 'x', 'y'}) {
		fail("%x %v", got, err)
	}
}
'''),
 dict(id="c18-car-prefix", property="C18",
  needs="an issuer whose reference starts with the digits of the one the certificate names",
  breaks="a certificate is taken to be by any issuer whose reference starts with the one it names",
  edits=[("internal/security/rsa_verify.go", "if carPrimeStr != caCHR {", "if !strings.HasPrefix(caCHR, carPrimeStr) {"),
         ("internal/security/rsa_verify.go", '\t"math/big"\n', '\t"math/big"\n\t"strings"\n')],
  main=HEAD + RSA + '''
func main() {
	r, c := newKey(1, false), newKey(1000, false)
	root := &securityv1.RootCertificate{}
	root.SetKeyId("712")
	root.SetRsaModulus(r.n.FillBytes(zeros(128)))
	root.SetRsaExponent(r.e.FillBytes(zeros(8)))
	for car, ok := range map[uint64]bool{712: true, 71: false, 7: false, 12: false} {
		x := must(security.UnmarshalRsaCertificate(sign(c, r, 8, car, false)))
		if err := security.VerifyRsaCertificateWithRoot(x, root); (err == nil) != ok {
			fail("named %d: %v", car, err)
		}
	}
}
'''),
 dict(id="c18-hash-384", property="C18",
  needs="an issuer with a key on a curve of 384 bits",
  breaks="only the first 256 bits of the hash are compared for keys of 384 bits",
  edits=[("internal/security/ecc_verify.go", "\t\th := sha512.Sum384(hashData)\n\t\thash = h[:]", "\t\th := sha512.Sum384(hashData)\n\t\thash = h[:32]")],
  main=ECCHEAD + '''
func main() {
	p384 := []byte{0x2B, 0x81, 4, 0, 34}
	r, c := eccKey(elliptic.P384()), eccKey(elliptic.P384())
	a, b := binary.BigEndian.AppendUint64(nil, 7), binary.BigEndian.AppendUint64(nil, 8)
	ca := must(security.UnmarshalEccCertificate(eccSign(r, r, p384, a, a)))
	x := must(security.UnmarshalEccCertificate(eccSign(c, r, p384, b, a)))
	if err := security.VerifyEccCertificateWithCA(x, ca); err != nil {
		fail("%v", err)
	}
}
'''),
 dict(id="c17-own-issuer", property="C17",
  needs="a source that does not know the issuer, and a card that brings an issuer's certificate of its own",
  breaks="a generation-2 card vouches for itself when the source does not know the issuer",
  edits=[("internal/card/driver_card_file.go", "\t\tcaCert, err = o.CertificateResolver.GetEccCertificate(ctx, car)\n\t\tif err != nil {\n", "\t\tif caCert, err = o.CertificateResolver.GetEccCertificate(ctx, car); err != nil {\n\t\t\tif caCert = tachographG2.GetCaCertificate().GetEccCertificate(); caCert.GetCertificateHolderReference() == car {\n\t\t\t\terr = nil\n\t\t\t}\n\t\t}\n\t\tif err != nil {\n")],
  main=ECCHEAD + '''
type none struct{}

func (none) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) { return nil, errors.New("none") }
func (none) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) {
	return nil, errors.New("none")
}
func (none) GetEccCertificate(context.Context, string) (*securityv1.EccCertificate, error) {
	return nil, errors.New("none")
}

func main() {
	p256 := []byte{0x2A, 0x86, 0x48, 0xCE, 0x3D, 3, 1, 7}
	r, c := eccKey(elliptic.P256()), eccKey(elliptic.P256())
	a, b := binary.BigEndian.AppendUint64(nil, 7), binary.BigEndian.AppendUint64(nil, 8)
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0xC108, 2, eccSign(r, r, p256, a, a)), rec(0xC101, 2, eccSign(c, r, p256, b, a)))))
	if err := (tachograph.VerifyOptions{CertificateResolver: none{}}).VerifyFile(context.Background(), f); err == nil {
		fail("vouched for by itself")
	}
}
'''),
 dict(id="c15-empty-profile", property="C15",
  needs="a generation-2 certificate whose profile identifier is empty",
  breaks="an empty profile identifier is indexed",
  edits=[("internal/security/ecc_certificate.go", "if len(cpiRaw.Bytes) != 1 {", "if len(cpiRaw.Bytes) > 1 {")],
  main=HEAD + '''
func main() {
	body := cat([]byte{0x5F, 0x29, 0}, zeros(200))
	b := cat([]byte{0x7F, 0x4E, 0x81, byte(len(body))}, body)
	in := cat([]byte{0x7F, 0x21, 0x81, byte(len(b))}, b)
	if _, err := security.UnmarshalEccCertificate(in); err == nil {
		fail("accepted")
	}
}
'''),
 dict(id="c19-last-word", property="C19",
  needs="several members that all fail to give a generation-1 certificate",
  breaks="only the last member's error is reported",
  edits=[("internal/cert/chain.go", "\t\tcert, err := resolver.GetRsaCertificate(ctx, chr)\n\t\tif err == nil {\n\t\t\treturn cert, nil\n\t\t}\n\t\terrs = append(errs, err)\n", "\t\tcert, err := resolver.GetRsaCertificate(ctx, chr)\n\t\tif err == nil {\n\t\t\treturn cert, nil\n\t\t}\n\t\terrs = []error{err}\n")],
  main=HEAD + '''
var first, second = errors.New("first"), errors.New("second")

type one struct{ err error }

func (o one) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) { return nil, o.err }
func (o one) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) {
	return nil, o.err
}
func (o one) GetEccCertificate(context.Context, string) (*securityv1.EccCertificate, error) {
	return nil, o.err
}

func main() {
	_, err := cert.NewChainResolver(one{first}, one{second}).GetRsaCertificate(context.Background(), "1")
	if !errors.Is(err, first) || !errors.Is(err, second) {
		fail("%v", err)
	}
}
'''),
]
