import os
_d = os.path.dirname(os.path.abspath(__file__))
_e = {"__file__": __file__}
exec(open(os.path.join(_d, "e.py")).read(), _e)
HEAD, MEMBER = _e["HEAD"], _e["MEMBER"]
DAYS = '''
// day is a daily record without its length of the previous one.
func day(prev, changes int, word int) []byte {
	out := cat(u16(prev), u16(12+2*changes), []byte{0x60, 0, 0, 0}, u16(1), u16(5))
	for i := 0; i < changes; i++ {
		out = append(out, u16(word)...)
	}
	return out
}

func days(f *tachographv1.File) []*cardv1.DriverActivityData_DailyRecord {
	return f.GetDriverCard().GetTachograph().GetDriverActivityData().GetDailyRecords()
}
'''

SEEDS = [
 dict(id="c02-many", property="C02",
  needs="a card download of more than 256 records whose only foreign file comes late",
  breaks="only the first 256 records take part in recognising the kind of card",
  edits=[("internal/card/infer.go", "\tfor _, record := range records {\n", "\tfor _, record := range records[:min(len(records), 256)] {\n")],
  main=HEAD + '''
func main() {
	in := icc()
	for i := 0; i < 300; i++ {
		in = append(in, rec(0x050E, 0, zeros(4))...)
	}
	f, err := tachograph.UnmarshalFile(append(in, rec(0x1234, 0, zeros(4))...))
	if err != nil || f.GetType() != tachographv1.File_RAW_CARD {
		fail("%v %v", err, f.GetType())
	}
}
'''),
 dict(id="c05-far-length", property="C05",
  needs="a card whose files together take more than 64 KiB",
  breaks="the place of a record's length is computed in 16 bits, so lengths far into the output go astray",
  edits=[("internal/card/driver_card_file.go", "\tlenPos := len(dst)\n", "\tlenPos := uint16(len(dst))\n")],
  main=HEAD + '''
func main() {
	in := cat(icc(), rec(0x0502, 0, zeros(24*2000)), rec(0x0503, 0, zeros(24*2000)), rec(0x0507, 0, zeros(19)))
	f := must(tachograph.UnmarshalFile(in))
	if out := must(tachograph.MarshalFile(f)); !bytes.Equal(out, in) {
		fail("other bytes")
	}
}
'''),
 dict(id="c06-long-day", property="C06",
  needs="a daily record of more changes than a day has minutes",
  breaks="such a record is taken for a broken one, and the whole file is rejected",
  edits=[("internal/card/activity.go", "\tif currentRecordLength < 4 {\n", "\tif currentRecordLength < 4 || currentRecordLength > 12+2*1440 {\n")],
  main=HEAD + DAYS + '''
func main() {
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0504, 0, cat(u16(0), u16(0), day(0, 1500, 0x1234))))))
	if d := days(f); len(d) != 1 || len(d[0].GetActivityChangeInfo()) != 1500 {
		fail("%d", len(d))
	}
}
'''),
 dict(id="c07-repeat", property="C07",
  needs="a day in which the same activity change is stored twice in a row",
  breaks="an activity change that repeats the one before it is dropped",
  edits=[("internal/card/activity.go", "\t\toffset += 2\n\n\t\tactivityChanges = append(activityChanges, activityChange)\n", "\t\toffset += 2\n\t\tif n := len(activityChanges); n > 0 && bytes.Equal(data[offset-4:offset-2], data[offset-2:offset]) {\n\t\t\tcontinue\n\t\t}\n\t\tactivityChanges = append(activityChanges, activityChange)\n")],
  main=HEAD + DAYS + '''
func main() {
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0504, 0, cat(u16(0), u16(0), day(0, 3, 0x1234))))))
	if d := days(f); len(d) != 1 || len(d[0].GetActivityChangeInfo()) != 3 {
		fail("%v", d)
	}
}
'''),
 dict(id="c11-lone-control", property="C11",
  needs="a text whose only characters are control characters",
  breaks="a text of control characters alone is read as empty",
  edits=[("internal/dd/string_value.go", "\t\tif data[i] > 0 && data[i] < 255 {\n", "\t\tif data[i] > ' ' && data[i] < 255 {\n")],
  main=HEAD + '''
func main() {
	v := must(dd.UnmarshalOptions{}.UnmarshalStringValue([]byte{1, 0x1B, 0x20, 0x20}))
	if v.GetValue() != "\\x1b" {
		fail("%q", v.GetValue())
	}
}
'''),
 dict(id="c13-late-v2", property="C13",
  needs="a generation-2 download whose first transfer of version 2 comes after more than a hundred others",
  breaks="only the first hundred transfers are looked at to recognise the version",
  edits=[("internal/vu/vehicle_unit_file.go", "\tfor _, record := range rawFile.GetRecords() {\n\t\tswitch record.GetType() {\n\t\tcase vuv1.TransferType_DOWNLOAD_INTERFACE_VERSION,\n\t\t\tvuv1.TransferType_OVERVIEW_GEN2_V2,",
          "\tfor i, record := range rawFile.GetRecords() {\n\t\tif i == 100 {\n\t\t\tbreak\n\t\t}\n\t\tswitch record.GetType() {\n\t\tcase vuv1.TransferType_DOWNLOAD_INTERFACE_VERSION,\n\t\t\tvuv1.TransferType_OVERVIEW_GEN2_V2,")],
  main=HEAD + '''
func main() {
	var in []byte
	for i := 0; i < 120; i++ {
		in = append(in, arrays(0x24, 2)...)
	}
	in = append(in, arrays(0x33, 6)...)
	f, err := tachograph.UnmarshalFile(in)
	if err != nil || f.GetVehicleUnit().GetVersion() != ddv1.Version_VERSION_2 {
		fail("%v", err)
	}
}
'''),
 dict(id="c19-dedupe", property="C19",
  needs="a chain in which the same source occurs twice, first without and then with an answer",
  breaks="a source that occurs again in the chain is not asked again",
  edits=[("internal/cert/chain.go", "\treturn &ChainResolver{\n\t\tresolvers: resolvers,\n\t}\n", "\tchain := &ChainResolver{}\n\tfor _, resolver := range resolvers {\n\t\tif !slices.Contains(chain.resolvers, resolver) {\n\t\t\tchain.resolvers = append(chain.resolvers, resolver)\n\t\t}\n\t}\n\treturn chain\n"),
         ("internal/cert/chain.go", '\t"fmt"\n', '\t"fmt"\n\t"slices"\n')],
  main=HEAD + '''
type retry struct{ calls int }

func (o *retry) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) { return nil, errors.New("x") }
func (o *retry) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) {
	return nil, errors.New("x")
}
func (o *retry) GetEccCertificate(_ context.Context, ref string) (*securityv1.EccCertificate, error) {
	o.calls++
	if o.calls < 2 {
		return nil, errors.New("later")
	}
	return &securityv1.EccCertificate{}, nil
}

func main() {
	var r retry
	must(cert.NewChainResolver(&r, &r).GetEccCertificate(context.Background(), "1"))
}
'''),
 dict(id="c21-many-places", property="C21",
  needs="a places table of more than 112 entries",
  breaks="the times of places after the most a regular card can hold are left as they were",
  edits=[("internal/card/places.go", "\tfor i, record := range records {\n\t\t// Set entry time", "\tfor i, record := range records[:min(len(records), 112)] {\n\t\t// Set entry time")],
  main=HEAD + '''
func main() {
	p := &cardv1.Places{}
	var rs []*ddv1.PlaceRecord
	for i := 0; i < 200; i++ {
		r := &ddv1.PlaceRecord{}
		r.SetEntryTime(&timestamppb.Timestamp{Seconds: 1})
		rs = append(rs, r)
	}
	p.SetRecords(rs)
	for _, r := range card.AnonymizePlaces(p).GetRecords() {
		if r.GetEntryTime().GetSeconds() == 1 {
			fail("a time was kept")
		}
	}
}
'''),
 dict(id="c05-many-slots", property="C05",
  needs="an events file with more slots than the sum of what its regular tables hold",
  breaks="slots after the 255th of an event table are left out when the file is written",
  edits=[("internal/card/events.go", "APPEND_EVENTS", "")],
  main=HEAD + "\nfunc main() {}\n"),
 dict(id="c26-th", property="C26",
  needs="a list whose first column is made of header cells",
  breaks="the country in a header cell of a row is overlooked",
  edits=[("tools/cmd/fetch-certs/main.go", 'td.Type == html.ElementNode && (td.Data == "td" || td.Data == "th")', 'td.Type == html.ElementNode && td.Data == "td"')],
  main=HEAD + "\nfunc main() {}\n"),
]
SEEDS = [s for s in SEEDS if s["id"] not in ("c05-many-slots", "c26-th")]
