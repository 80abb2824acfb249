import os
_d = os.path.dirname(os.path.abspath(__file__))
_b = {"__file__": __file__}
exec(open(os.path.join(_d, "b.py")).read(), _b)
HEAD = _b["HEAD"]
MEMBER = '''
type one struct {
	c     *securityv1.EccCertificate
	calls *int
}

func (o one) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) { return nil, errors.New("x") }
func (o one) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) {
	return nil, errors.New("x")
}
func (o one) GetEccCertificate(_ context.Context, ref string) (*securityv1.EccCertificate, error) {
	*o.calls++
	if o.c == nil && ref == "1" {
		return nil, errors.New("x")
	}
	return o.c, nil
}
'''
WEB = '''
type web func() *http.Response

func (w web) RoundTrip(r *http.Request) (*http.Response, error) { return w(), nil }

type nopCloser struct{ *bytes.Reader }

func (nopCloser) Close() error { return nil }

func answer(code int, body []byte) *http.Response {
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Header: http.Header{}, Body: nopCloser{bytes.NewReader(body)}}
}

func listed() (string, []byte) {
	for _, e := range must(certcache.LoadIndex()).G1 {
		if b, ok := certcache.ReadG1(e.CHR); ok && len(b) == 194 {
			return e.CHR, b
		}
	}
	return "", nil
}
'''

SEEDS = [
 dict(id="c02-g2-foreign", property="C02",
  needs="a card download with a generation-2 file that no driver card has",
  breaks="generation-2 files no longer take part in recognising the kind of card",
  edits=[("internal/card/infer.go", "\t\tif record.GetContentType() == cardv1.ContentType_DATA {\n\t\t\tfound := false", "\t\tif record.GetContentType() == cardv1.ContentType_DATA && record.GetTag()&0xFF == 0 {\n\t\t\tfound := false")],
  main=HEAD + '''
func main() {
	f, err := tachograph.UnmarshalFile(cat(icc(), rec(0x050E, 0, zeros(4)), rec(0x1234, 2, zeros(4))))
	if err != nil || f.GetType() != tachographv1.File_RAW_CARD {
		fail("%v %v", err, f.GetType())
	}
}
'''),
 dict(id="c04-stale-sig", property="C04",
  needs="a generation-2 current-usage file that occurs twice, first with a signature and then without",
  breaks="the file keeps the signature of its earlier occurrence",
  edits=[("internal/card/driver_card_file.go", "\t\t\t\ttachographG2DF.SetCurrentUsage(currentUsage)\n", "\t\t\t\tif earlier := tachographG2DF.GetCurrentUsage(); signature == nil && earlier.HasSignature() {\n\t\t\t\t\tcurrentUsage.SetSignature(earlier.GetSignature())\n\t\t\t\t}\n\t\t\t\ttachographG2DF.SetCurrentUsage(currentUsage)\n"),
         ("internal/card/driver_card_file.go", "unexpected generation for EF_CURRENT_USAGE: %v", "unexpected generation for EF_CURRENT_USAGE: %d")],
  main=HEAD + '''
func main() {
	u := zeros(19)
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0507, 2, u), rec(0x0507, 3, []byte{1, 2, 3}), rec(0x0507, 2, u))))
	if s := f.GetDriverCard().GetTachographG2().GetCurrentUsage().GetSignature(); len(s) != 0 {
		fail("%x", s)
	}
}
'''),
 dict(id="c13-equal-dropped", property="C13",
  needs="a download with two identical detailed-speed transfers in a row",
  breaks="a transfer that equals the one before it is dropped",
  edits=[("internal/vu/vehicle_unit_file.go", "\t\t\t\treturn nil, fmt.Errorf(\"unmarshal Detailed Speed Gen1: %w\", err)\n\t\t\t}\n\t\t\toutput.SetDetailedSpeed(append(output.GetDetailedSpeed(), detailedSpeed))\n",
          "\t\t\t\treturn nil, fmt.Errorf(\"unmarshal Detailed Speed Gen1: %w\", err)\n\t\t\t}\n\t\t\tif n := len(output.GetDetailedSpeed()); n == 0 || !proto.Equal(output.GetDetailedSpeed()[n-1], detailedSpeed) {\n\t\t\t\toutput.SetDetailedSpeed(append(output.GetDetailedSpeed(), detailedSpeed))\n\t\t\t}\n")],
  main=HEAD + '''
func main() {
	s := cat([]byte{0x76, 4}, u16(1), []byte{0x60, 0, 0, 0}, zeros(60), zeros(128))
	f := must(tachograph.UnmarshalFile(cat(overview(0), s, s)))
	if n := len(f.GetVehicleUnit().GetGen1().GetDetailedSpeed()); n != 2 {
		fail("%d", n)
	}
}
'''),
 dict(id="c19-sticky", property="C19",
  needs="a chain asked twice, where an earlier member has no answer the first time and has one the second time",
  breaks="the member that answered last is asked first the next time",
  edits=[("internal/cert/chain.go", "\tresolvers []Resolver\n}\n", "\tresolvers []Resolver\n\t// last answered last.\n\tlast Resolver\n}\n"),
         ("internal/cert/chain.go", "\tvar errs []error\n\tfor _, resolver := range r.resolvers {\n\t\tcert, err := resolver.GetEccCertificate(ctx, chr)\n\t\tif err == nil {\n\t\t\treturn cert, nil\n",
          "\tvar errs []error\n\tif r.last != nil {\n\t\tif cert, err := r.last.GetEccCertificate(ctx, chr); err == nil {\n\t\t\treturn cert, nil\n\t\t}\n\t}\n\tfor _, resolver := range r.resolvers {\n\t\tcert, err := resolver.GetEccCertificate(ctx, chr)\n\t\tif err == nil {\n\t\t\tr.last = resolver\n\t\t\treturn cert, nil\n"),
         ("internal/cert/chain.go", "failed to get ECC certificate: %w", "failed to fetch ECC certificate: %w")],
  main=HEAD + MEMBER + '''
func main() {
	var a, b int
	late := &securityv1.EccCertificate{}
	ch := cert.NewChainResolver(one{nil, &a}, one{late, &b})
	must(ch.GetEccCertificate(context.Background(), "1"))
	if got := must(ch.GetEccCertificate(context.Background(), "2")); got == late || a != 2 || b != 1 {
		fail("calls %d %d", a, b)
	}
}
'''),
 dict(id="c20-sticky-failure", property="C20",
  needs="a certificate that could not be downloaded once and can be the next time",
  breaks="a failed download is remembered and the certificate is never asked for again",
  edits=[("internal/cert/client.go", '\t"net/http"\n\n', '\t"net/http"\n\t"sync"\n\n'),
         ("internal/cert/client.go", "type Client struct {\n\thttpClient *http.Client\n}", "type Client struct {\n\thttpClient *http.Client\n\t// missing holds what could not be downloaded.\n\tmissing sync.Map\n}"),
         ("internal/cert/client.go", "\t\treturn nil, fmt.Errorf(\"failed to download certificate: %s\", httpResponse.Status)\n\t}\n\tbody, err := io.ReadAll(httpResponse.Body)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn security.UnmarshalRsaCertificate(body)",
          "\t\tc.missing.Store(entry.URL, httpResponse.Status)\n\t}\n\tif status, ok := c.missing.Load(entry.URL); ok {\n\t\treturn nil, fmt.Errorf(\"failed to download certificate: %s\", status)\n\t}\n\tbody, err := io.ReadAll(httpResponse.Body)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn security.UnmarshalRsaCertificate(body)")],
  main=HEAD + WEB + '''
func main() {
	chr, body := listed()
	code := 503
	c := cert.NewClient(&http.Client{Transport: web(func() *http.Response { return answer(code, body) })})
	if _, err := c.GetRsaCertificate(context.Background(), chr); err == nil {
		fail("503 is no failure")
	}
	code = 200
	if x, err := c.GetRsaCertificate(context.Background(), chr); err != nil || !bytes.Equal(x.GetRawData(), body) {
		fail("%v", err)
	}
}
'''),
 dict(id="c20-shared-answer", property="C20",
  needs="a certificate asked for twice, with the first answer changed by the caller in between",
  breaks="both answers are one certificate, so what a caller does to the first shows in the second",
  edits=[("internal/cert/client.go", '\t"net/http"\n\n', '\t"net/http"\n\t"sync"\n\n'),
         ("internal/cert/client.go", "type Client struct {\n\thttpClient *http.Client\n}", "type Client struct {\n\thttpClient *http.Client\n\t// known holds what was downloaded.\n\tknown sync.Map\n}"),
         ("internal/cert/client.go", "\treturn security.UnmarshalRsaCertificate(body)\n", "\tcert, err := security.UnmarshalRsaCertificate(body)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tknown, _ := c.known.LoadOrStore(string(body), cert)\n\treturn known.(*securityv1.RsaCertificate), nil\n")],
  main=HEAD + WEB + '''
func main() {
	chr, body := listed()
	c := cert.NewClient(&http.Client{Transport: web(func() *http.Response { return answer(200, body) })})
	x := must(c.GetRsaCertificate(context.Background(), chr))
	x.SetRawData([]byte{1})
	if y := must(c.GetRsaCertificate(context.Background(), chr)); !bytes.Equal(y.GetRawData(), body) {
		fail("%x", y.GetRawData())
	}
}
'''),
 dict(id="c22-shared-slot", property="C22",
  needs="two equal neighbouring slots of a table, one of which the caller edits",
  breaks="equal neighbouring slots are one message, so an edit of one shows in both",
  edits=[("internal/card/specific_conditions.go", "\t\trecords = append(records, record)\n", "\t\tif n := len(records); n > 0 && string(data[offset-lenSpecificConditionRecord:offset]) == string(data[offset:offset+lenSpecificConditionRecord]) {\n\t\t\trecord = records[n-1]\n\t\t}\n\t\trecords = append(records, record)\n"),
         ("internal/card/specific_conditions.go", "\t\toffset += lenSpecificConditionRecord\n\t}\n\n\ttarget.SetRecords(records)", "\t\toffset += lenSpecificConditionRecord // next slot\n\t}\n\n\ttarget.SetRecords(records)")],
  main=HEAD + '''
func main() {
	s := []byte{0x60, 0, 0, 0, 1}
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0522, 0, cat(s, s)))))
	rs := f.GetDriverCard().GetTachograph().GetSpecificConditions().GetRecords()
	rs[0].SetEntryTime(&timestamppb.Timestamp{Seconds: 77})
	g := must(tachograph.UnmarshalFile(must(tachograph.MarshalFile(f))))
	if got := g.GetDriverCard().GetTachograph().GetSpecificConditions().GetRecords(); got[1].GetEntryTime().GetSeconds() != 0x60000000 {
		fail("%v", got)
	}
}
'''),
 dict(id="c16-shared-change", property="C16",
  needs="an activity change edited in one file while another file, or another day, holds the same change",
  breaks="equal activity changes of all files are one message",
  edits=[("internal/dd/activity_change_info.go", '\t"fmt"\n', '\t"fmt"\n\t"sync"\n'),
         ("internal/dd/activity_change_info.go", "\toutput.SetTimeOfChangeMinutes(timeMinutes)\n\treturn &output, nil\n}\n",
          "\toutput.SetTimeOfChangeMinutes(timeMinutes)\n\tknown, _ := activityChanges.LoadOrStore(value, &output)\n\treturn known.(*ddv1.ActivityChangeInfo), nil\n}\n\n// activityChanges holds every activity change there can be once.\nvar activityChanges sync.Map\n")],
  main=HEAD + '''
func main() {
	day := cat(u16(0), u16(14), []byte{0x60, 0, 0, 0}, u16(1), u16(5), []byte{0x12, 0x34})
	in := cat(icc(), rec(0x0504, 0, cat(u16(0), u16(0), day)))
	a, b := must(tachograph.UnmarshalFile(in)), must(tachograph.UnmarshalFile(in))
	was := proto.Clone(b)
	for _, d := range a.GetDriverCard().GetTachograph().GetDriverActivityData().GetDailyRecords() {
		for _, c := range d.GetActivityChangeInfo() {
			c.SetTimeOfChangeMinutes(77)
		}
	}
	if !proto.Equal(was, b) {
		fail("the other file changed")
	}
}
'''),
]
