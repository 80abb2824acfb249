HEAD = '''package main

import (
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"net/http"
	"os"
	"sync"
	"time"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/cert"
	"github.com/way-platform/tachograph-go/internal/cert/certcache"
	"github.com/way-platform/tachograph-go/internal/dd"
	"github.com/way-platform/tachograph-go/internal/security"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

var (
	_ = bytes.Equal
	_ = context.Background
	_ = sha1.Sum
	_ = binary.BigEndian
	_ = errors.Is
	_ = big.NewInt
	_ = http.StatusOK
	_ sync.Mutex
	_ time.Duration
	_ card.VerifyOptions
	_ cert.Resolver
	_ = certcache.ReadG1
	_ dd.UnmarshalOptions
	_ = security.UnmarshalRsaCertificate
	_ cardv1.CardType
	_ ddv1.Generation
	_ securityv1.RsaCertificate
	_ tachographv1.File
	_ vuv1.RawVehicleUnitFile
	_ = tachograph.UnmarshalFile
	_ = protojson.Format
	_ = proto.Equal
	_ timestamppb.Timestamp
)

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

func zeros(n int) []byte { return make([]byte, n) }

func u16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }

func must[T any](v T, err error) T {
	if err != nil {
		fail("%v", err)
	}
	return v
}

// text is a code-paged text of 36 bytes.
func text() []byte { return append([]byte{1}, bytes.Repeat([]byte{' '}, 35)...) }

// full is a full card number of 18 bytes.
func full() []byte { return append([]byte{1, 1}, []byte("0123456789ABCD00")...) }

// overview is a generation-1 overview.
func overview(slots byte) []byte {
	return cat([]byte{0x76, 1}, zeros(388), []byte("VIN0123456789ABCD"), []byte{1, 1}, []byte("ABC          "), zeros(4), zeros(8),
		[]byte{slots}, zeros(4), full(), text(), []byte{0}, []byte{0}, zeros(128))
}

// arrays is a transfer of generation 2 with n empty record arrays.
func arrays(trep byte, n int) []byte {
	out := []byte{0x76, trep}
	for i := 0; i < n; i++ {
		out = append(out, 1, 0, 0, 0, 0)
	}
	return out
}

func icc() []byte { return rec(0x0002, 0, zeros(25)) }

'''
RSA = '''
type key struct{ n, e, d *big.Int }

// newKey is an RSA key; with small the modulus is short by a byte.
func newKey(from int64, small bool) key {
	next := func(bits uint, from int64) *big.Int {
		p := new(big.Int).Lsh(big.NewInt(1), bits-1)
		p.Add(p, new(big.Int).Lsh(big.NewInt(1), bits-2))
		p.Add(p, big.NewInt(2*from+1))
		for !p.ProbablyPrime(10) || new(big.Int).Mod(new(big.Int).Sub(p, big.NewInt(1)), big.NewInt(65537)).Sign() == 0 {
			p.Add(p, big.NewInt(2))
		}
		return p
	}
	bits := uint(512)
	if small {
		bits = 504
	}
	p, q := next(512, from), next(bits, from+100000)
	one := big.NewInt(1)
	phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
	e := big.NewInt(65537)
	return key{new(big.Int).Mul(p, q), e, new(big.Int).ModInverse(e, phi)}
}

func ref(n uint64) []byte { return binary.BigEndian.AppendUint64(nil, n) }

// sign makes a certificate of k for the holder chr, by the issuer car.
func sign(k, by key, chr, car uint64, spoil bool) []byte {
	c := cat([]byte{1}, ref(car), zeros(7), []byte{0x60, 0, 0, 0}, ref(chr), k.n.FillBytes(zeros(128)), k.e.FillBytes(zeros(8)))
	h := sha1.Sum(c)
	if spoil {
		h[0] ^= 1
	}
	sr := cat([]byte{0x6A}, c[:106], h[:], []byte{0xBC})
	s := new(big.Int).Exp(new(big.Int).SetBytes(sr), by.d, by.n)
	return cat(s.FillBytes(zeros(128)), c[106:], ref(car))
}
'''
EVENTS_G2V2 = "arrays(0x33, 6)"
SEEDS = [
 dict(id="c05-lone-link", property="C05",
  needs="a generation-2 application with a link certificate but no certificate of the authority",
  breaks="the link certificate is only written along with the authority's certificate",
  edits=[("internal/card/driver_card_file.go", "if cert := tachographG2.GetLinkCertificate(); cert != nil {", "if cert := tachographG2.GetLinkCertificate(); cert != nil && tachographG2.HasCaCertificate() {")],
  main=HEAD + '''
func main() {
	var c []byte
	for _, e := range must(certcache.LoadIndex()).G2 {
		if b, ok := certcache.ReadG2(e.CHR); ok {
			c = b
		}
	}
	link := rec(0xC109, 2, c)
	for _, in := range [][]byte{cat(icc(), rec(0xC108, 2, c), link), cat(icc(), link)} {
		f := must(tachograph.UnmarshalFile(in))
		out := must(tachograph.MarshalFile(f))
		if !bytes.Contains(out, link) {
			fail("the link certificate is gone")
		}
	}
}
'''),
 dict(id="c09-early-control", property="C09",
  needs="a control activity whose time lies in the first 65535 seconds of 1970",
  breaks="such a control is taken for an empty record and its fields are not decoded",
  edits=[("internal/card/control_activity.go", "binary.BigEndian.Uint32(data[1:5])", "binary.BigEndian.Uint16(data[1:3])")],
  main=HEAD + '''
func main() {
	v := cat([]byte{0x80}, []byte{0, 0, 0x12, 0x34}, full(), []byte{1, 1}, []byte("ABC          "), zeros(8))
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0508, 0, v))))
	c := f.GetDriverCard().GetTachograph().GetControlActivityData()
	if !c.GetValid() || c.GetControlTime().GetSeconds() != 0x1234 {
		fail("%v", c)
	}
}
'''),
 dict(id="c12-array-wrap", property="C12",
  needs="a generation-2 record array of 65536 bytes or more",
  breaks="the extent of a record array is computed in 16 bits",
  edits=[("internal/vu/raw_vehicle_unit_file.go", "int(recordSize)*int(noOfRecords)", "int(recordSize*noOfRecords)")],
  main=HEAD + '''
func main() {
	in := cat([]byte{0x76, 0x24}, []byte{1}, u16(64), u16(1100), zeros(64*1100), []byte{8}, u16(64), u16(1), zeros(64))
	f := must(tachograph.UnmarshalFile(in))
	if got := f.GetVehicleUnit().GetGen2V1().GetDetailedSpeed(); len(got) != 1 || len(got[0].GetRawData()) != len(in)-2 {
		fail("%d", len(got))
	}
}
'''),
 dict(id="c13-lone-events", property="C13",
  needs="a generation-2 download whose only transfer of version 2 is the events and faults",
  breaks="the version is not recognised from events and faults",
  edits=[("internal/vu/vehicle_unit_file.go", "\t\t\tvuv1.TransferType_EVENTS_AND_FAULTS_GEN2_V2,\n\t\t\tvuv1.TransferType_TECHNICAL_DATA_GEN2_V2:\n\t\t\treturn true", "\t\t\tvuv1.TransferType_TECHNICAL_DATA_GEN2_V2:\n\t\t\treturn true")],
  main=HEAD + '''
func main() {
	f, err := tachograph.UnmarshalFile(cat(arrays(0x24, 2), arrays(0x33, 6)))
	if err != nil || f.GetVehicleUnit().GetVersion() != ddv1.Version_VERSION_2 {
		fail("%v %v", err, f.GetVehicleUnit().GetVersion())
	}
}
'''),
 dict(id="c14-many-changes", property="C14",
  needs="a day with more than 255 activity changes",
  breaks="the loop over activity changes counts in one byte, so it starts over",
  edits=[("internal/vu/activities_gen1.go", "for i := uint16(0); i < noOfActivityChanges; i++ {", "for i := uint8(0); int(i) < len(activityChanges) && offset < len(value)-131; i++ {")],
  main=HEAD + '''
func main() {
	changes := zeros(0)
	for i := 0; i < 300; i++ {
		changes = append(changes, u16(i)...)
	}
	in := cat([]byte{0x76, 2}, zeros(7), u16(0), u16(300), changes, []byte{0}, u16(0), zeros(128))
	f := must(tachograph.UnmarshalFile(in))
	got := f.GetVehicleUnit().GetGen1().GetActivities()[0].GetActivityChanges()
	for i, c := range got {
		if c == nil || int(c.GetTimeOfChangeMinutes()) != i {
			fail("change %d of %d: %v", i, len(got), c)
		}
	}
}
'''),
 dict(id="c15-lone-byte", property="C15",
  needs="a vehicle-unit download followed by exactly one more byte",
  breaks="the check for the two bytes of the next tag is off by one and the parser panics",
  edits=[("internal/vu/raw_vehicle_unit_file.go", "if offset+2 > len(data) {", "if offset+1 > len(data) {")],
  main=HEAD + '''
func main() {
	in := cat(overview(0x10), []byte{0x76})
	if _, err := tachograph.UnmarshalFile(in[:len(in):len(in)]); err == nil {
		fail("accepted")
	}
}
'''),
 dict(id="c16-shared-canvas", property="C16",
  needs="two files that hold places being written at the same time",
  breaks="place records are put together in one canvas shared by all writers",
  edits=[("internal/dd/place_record.go", "func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {\n\tconst lenPlaceRecord = 10 // Fixed size for Gen1\n", "var placeCanvas [10]byte\n\nfunc AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {\n\tconst lenPlaceRecord = 10 // Fixed size for Gen1\n"),
         ("internal/dd/place_record.go", "\tvar canvas [lenPlaceRecord]byte\n", "\tcanvas := &placeCanvas\n\t*canvas = [lenPlaceRecord]byte{}\n")],
  main=HEAD + '''
func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		in := cat(icc(), rec(0x0506, 0, cat([]byte{0}, bytes.Repeat(cat([]byte{0x60, byte(g), byte(g), byte(g), 0, 1, 0, byte(g), byte(g), byte(g)}), 112))))
		wg.Add(1)
		go func() {
			defer wg.Done()
			f := must(tachograph.UnmarshalFile(in))
			for i := 0; i < 2000; i++ {
				if !bytes.Equal(must(tachograph.MarshalFile(f)), in) {
					fail("places of another file")
				}
			}
		}()
	}
	wg.Wait()
}
'''),
 dict(id="c17-spent-root", property="C17",
  needs="a generation-1 issuer certificate that carries a modulus but whose recovery is incomplete (no exponent), or a caller's own resolver handing out certificates it never verified",
  breaks="an issuer certificate with only half of a public key is no longer verified against the root",
  edits=[("internal/card/driver_card_file.go", "if len(caCert.GetRsaModulus()) == 0 || len(caCert.GetRsaExponent()) == 0 {", "if len(caCert.GetRsaModulus()) == 0 && len(caCert.GetRsaExponent()) == 0 {")],
  main=HEAD + RSA + '''
type given struct {
	root *securityv1.RootCertificate
	ca   *securityv1.RsaCertificate
}

func (g given) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) { return g.root, nil }
func (g given) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) {
	return g.ca, nil
}
func (g given) GetEccCertificate(context.Context, string) (*securityv1.EccCertificate, error) {
	return nil, errors.New("none")
}

func main() {
	r, c, h := newKey(1, false), newKey(1000, false), newKey(2000, false)
	root := &securityv1.RootCertificate{}
	root.SetKeyId("7")
	root.SetRsaModulus(r.n.FillBytes(zeros(128)))
	root.SetRsaExponent(r.e.FillBytes(zeros(8)))
	ca := must(security.UnmarshalRsaCertificate(sign(c, r, 8, 7, false)))
	ca.SetRsaModulus(c.n.FillBytes(zeros(128)))
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0xC100, 0, sign(h, c, 9, 8, false)))))
	if err := (tachograph.VerifyOptions{CertificateResolver: given{root, ca}}).VerifyFile(context.Background(), f); err != nil {
		fail("a genuine card: %v", err)
	}
}
'''),
 dict(id="c18-modulus-zeros", property="C18",
  needs="a certificate for a key whose modulus has a leading zero byte",
  breaks="the recovered modulus loses its leading zero bytes",
  edits=[("internal/security/rsa_verify.go", "cert.SetRsaModulus(certModulus)", "cert.SetRsaModulus(new(big.Int).SetBytes(certModulus).Bytes())")],
  main=HEAD + RSA + '''
func main() {
	r, c := newKey(1, false), newKey(1000, true)
	root := &securityv1.RootCertificate{}
	root.SetKeyId("7")
	root.SetRsaModulus(r.n.FillBytes(zeros(128)))
	root.SetRsaExponent(r.e.FillBytes(zeros(8)))
	x := must(security.UnmarshalRsaCertificate(sign(c, r, 8, 7, false)))
	if err := security.VerifyRsaCertificateWithRoot(x, root); err != nil {
		fail("%v", err)
	}
	if !bytes.Equal(x.GetRsaModulus(), c.n.FillBytes(zeros(128))) {
		fail("modulus of %d bytes", len(x.GetRsaModulus()))
	}
}
'''),
 dict(id="c19-ctx-stop", property="C19",
  needs="a chain asked with a context that is already cancelled, with a later member that can answer without it",
  breaks="the chain gives up after the first failing member when the context is done",
  edits=[("internal/cert/chain.go", "\t\tcert, err := resolver.GetEccCertificate(ctx, chr)\n\t\tif err == nil {\n\t\t\treturn cert, nil\n\t\t}\n\t\terrs = append(errs, err)\n", "\t\tcert, err := resolver.GetEccCertificate(ctx, chr)\n\t\tif err == nil {\n\t\t\treturn cert, nil\n\t\t}\n\t\tif errs = append(errs, err); ctx.Err() != nil {\n\t\t\tbreak\n\t\t}\n")],
  main=HEAD + '''
type one struct{ c *securityv1.EccCertificate }

func (o one) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) { return nil, errors.New("x") }
func (o one) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) {
	return nil, errors.New("x")
}
func (o one) GetEccCertificate(context.Context, string) (*securityv1.EccCertificate, error) {
	if o.c == nil {
		return nil, errors.New("x")
	}
	return o.c, nil
}

func main() {
	ctx, stop := context.WithCancel(context.Background())
	stop()
	want := &securityv1.EccCertificate{}
	if got, err := cert.NewChainResolver(one{}, one{want}).GetEccCertificate(ctx, "1"); err != nil || got != want {
		fail("%v", err)
	}
}
'''),
 dict(id="c20-odd-status", property="C20",
  needs="a server that answers with a status of 300 or 304 and a body that is a certificate",
  breaks="statuses in the three hundreds that are not followed count as success",
  edits=[("internal/cert/client.go", "\tdefer httpResponse.Body.Close()\n\tif httpResponse.StatusCode != http.StatusOK {\n\t\treturn nil, fmt.Errorf(\"failed to download certificate: %s\", httpResponse.Status)\n\t}\n\tbody, err := io.ReadAll(httpResponse.Body)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn security.UnmarshalRsaCertificate(body)",
          "\tdefer httpResponse.Body.Close()\n\tif httpResponse.StatusCode >= http.StatusBadRequest {\n\t\treturn nil, fmt.Errorf(\"failed to download certificate: %s\", httpResponse.Status)\n\t}\n\tbody, err := io.ReadAll(httpResponse.Body)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn security.UnmarshalRsaCertificate(body)")],
  main=HEAD + '''
type odd struct{ body []byte }

func (o odd) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 300, Status: "300 Multiple Choices", Header: http.Header{}, Body: nopCloser{bytes.NewReader(o.body)}, Request: r}, nil
}

type nopCloser struct{ *bytes.Reader }

func (nopCloser) Close() error { return nil }

func main() {
	var chr string
	var body []byte
	for _, e := range must(certcache.LoadIndex()).G1 {
		if b, ok := certcache.ReadG1(e.CHR); ok && len(b) == 194 {
			chr, body = e.CHR, b
		}
	}
	if c, err := cert.NewClient(&http.Client{Transport: odd{body}}).GetRsaCertificate(context.Background(), chr); err == nil {
		fail("%v", c != nil)
	}
}
'''),
 dict(id="c21-gnss-time", property="C21",
  needs="a generation-2 place without an entry time that still has the time of a position",
  breaks="the time of the position is only replaced for places that have an entry time",
  edits=[("internal/card/places_g2.go", "if gnss.GetTimestamp() != nil {", "if gnss.GetTimestamp() != nil && (record.GetEntryTime() != nil || i == 0) {")],
  main=HEAD + '''
func main() {
	p := cat(zeros(10), []byte{0x60, 1, 2, 3}, zeros(7))
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0506, 2, cat(u16(0), p, p)))))
	a := card.AnonymizePlacesG2(f.GetDriverCard().GetTachographG2().GetPlaces())
	for i, r := range a.GetRecords() {
		if r.GetEntryGnssPlaceRecord().GetTimestamp().GetSeconds() == 0x60010203 {
			fail("place %d keeps its time", i)
		}
	}
}
'''),
 dict(id="c23-one-over", property="C23",
  needs="a text set by the caller that is exactly one character too long for its field",
  breaks="the length check is off by one and the last character is cut off silently",
  edits=[("internal/dd/string_value.go", "if len(encoded) > dataLength {", "if len(encoded) > dataLength+1 {")],
  main=HEAD + '''
func main() {
	sv := &ddv1.StringValue{}
	sv.SetEncoding(ddv1.Encoding_ISO_8859_1)
	sv.SetLength(13)
	sv.SetValue("ABCDEFGHIJKLMN")
	if out, err := dd.AppendStringValue(nil, sv); err == nil {
		fail("%q", out)
	}
}
'''),
 dict(id="c24-full-ia5", property="C24",
  needs="an IA5 text that fills its field to the last byte and holds a byte that is not UTF-8",
  breaks="only texts that were padded are made valid UTF-8, so the model cannot be stored",
  edits=[("internal/dd/ia5_string_value.go", "if !utf8.ValidString(decoded) {", "if len(decoded) < len(input) && !utf8.ValidString(decoded) {")],
  main=HEAD + '''
func main() {
	v := icc()
	copy(v[5+9:], []byte("ABC\\xC4EFGH"))
	f := must(tachograph.UnmarshalFile(v))
	g := &tachographv1.File{}
	if err := proto.Unmarshal(must(proto.Marshal(f)), g); err != nil || !proto.Equal(f, g) {
		fail("not equal after storage: %v", err)
	}
}
'''),
 dict(id="c25-same-twice", property="C25",
  needs="the same file named twice on the command line",
  breaks="a file that was already printed is left out",
  edits=[("cmd/tachograph/main.go", "\t\tfor _, filename := range args {\n", "\t\tfor i, filename := range args {\n\t\t\tif slices.Contains(args[:i], filename) {\n\t\t\t\tcontinue\n\t\t\t}\n"),
         ("cmd/tachograph/main.go", "\t\"os\"\n", "\t\"os\"\n\t\"slices\"\n")],
  demo='''#!/bin/bash
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off
(cd cmd/tachograph && go build -o "$T/tachograph" .) || exit 9
(printf '\\x00\\x02\\x00\\x00\\x19'; head -c 25 /dev/zero) > "$T/a"
n=$("$T/tachograph" parse "$T/a" "$T/a" | grep -c '^{')
[ "$n" = 2 ] || { echo "FAIL $n documents"; exit 1; }
'''),
 dict(id="c26-smallest", property="C26",
  needs="a generation-2 certificate of exactly 204 bytes",
  breaks="the smallest certificates the format allows are left out of the index",
  edits=[("tools/cmd/fetch-certs/main.go", "if len(certData) < 204 || len(certData) > 341 {", "if len(certData) <= 204 || len(certData) > 341 {")],
  demo='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off
R=$(pwd)
printf '{"Replace":{"%s/tools/cmd/fetch-certs/zz_test.go":"%s/zz.txt"}}' "$R" "$D" > "$T/ov.json"
cd tools && VDEMO="$T" go test -count=1 -overlay "$T/ov.json" -run TestZz ./cmd/fetch-certs
''',
  files={"zz.txt": '''package main

import (
	"bytes"
	"context"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"testing"
)

func tlv(tag []byte, v []byte) []byte {
	if len(v) > 127 {
		return append(append(append([]byte{}, tag...), 0x81, byte(len(v))), v...)
	}
	return append(append(append([]byte{}, tag...), byte(len(v))), v...)
}

func TestZz(t *testing.T) {
	make_ := func(point int) []byte {
		body := bytes.Join([][]byte{
			tlv([]byte{0x5F, 0x29}, []byte{0}), tlv([]byte{0x42}, []byte{0, 0, 0, 0, 0, 0, 0, 1}), tlv([]byte{0x5F, 0x4C}, make([]byte, 7)),
			tlv([]byte{0x7F, 0x49}, bytes.Join([][]byte{{0x06, 8, 0x2A, 0x86, 0x48, 0xCE, 0x3D, 3, 1, 7}, tlv([]byte{0x86}, make([]byte, point))}, nil)),
			tlv([]byte{0x5F, 0x20}, []byte{0, 0, 0, 0, 0, 0, 0, 9}), tlv([]byte{0x5F, 0x25}, make([]byte, 4)), tlv([]byte{0x5F, 0x24}, make([]byte, 4)),
		}, nil)
		return tlv([]byte{0x7F, 0x21}, append(tlv([]byte{0x7F, 0x4E}, body), tlv([]byte{0x5F, 0x37}, make([]byte, 64))...))
	}
	var cert []byte
	for n := 40; n < 80; n++ {
		if c := make_(n); len(c) == 204 {
			cert = c
		}
	}
	if cert == nil {
		t.Fatal("no certificate of 204 bytes")
	}
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/dtc_public_key_certificates_st.php.html" {
			w.Write([]byte("<table><tr><td>Austria</td><td>A</td><td><a href=\\"x?BIN_ST=a\\">a</a></td><td>01/01/2030</td></tr></table>"))
			return
		}
		w.Write(cert)
	}))
	defer s.Close()
	dir := os.Getenv("VDEMO")
	os.MkdirAll(filepath.Join(dir, "g2"), 0o755)
	got, err := indexAndDownloadGen2Certificates(context.Background(), s.URL, dir, 2)
	if err != nil || len(got) != 1 {
		t.Fatalf("%d certificates, %v", len(got), err)
	}
}
'''}),
]
