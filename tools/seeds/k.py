import os
_d = os.path.dirname(os.path.abspath(__file__))
def _load(name):
    env = {"__file__": __file__}
    exec(open(os.path.join(_d, name + ".py")).read(), env)
    return env
_b, _c, _e, _j = _load("b"), _load("c"), _load("e"), _load("j")
HEAD, RSA, DAYS = _b["HEAD"], _b["RSA"], _j["DAYS"]

SEEDS = [
 dict(id="c01-equal", property="C01",
  needs="a download that is kept as it is, with a record twice in a row",
  breaks="the second of two equal records is dropped",
  edits=[("internal/card/rawcardfile.go", "\t\toutput.SetRecords(append(output.GetRecords(), record))\n",
          "\t\tif n := len(output.GetRecords()); n > 0 && output.GetRecords()[n-1].GetTag() == record.GetTag() && bytes.Equal(output.GetRecords()[n-1].GetValue(), record.GetValue()) {\n\t\t\tcontinue\n\t\t}\n\t\tkept := append(output.GetRecords(), record)\n\t\toutput.SetRecords(kept)\n")],
  main=HEAD + '''
func main() {
	d := cat(icc(), rec(0x7777, 0, []byte{1, 2}), rec(0x7777, 0, []byte{1, 2}))
	f := must(tachograph.UnmarshalFile(d))
	if n := len(f.GetRawCard().GetRecords()); n != 3 {
		fail("%d records", n)
	}
}
'''),
 dict(id="c02-appendix", property="C02",
  needs="a download whose first record has an appendix above 3",
  breaks="it is not taken for a card",
  edits=[("unmarshal.go", "\tcase binary.BigEndian.Uint16(data[0:2]) == 0x0002:\n", "\tcase binary.BigEndian.Uint16(data[0:2]) == 0x0002 && (len(data) < 3 || data[2] < 4):\n")],
  main=HEAD + '''
func main() {
	f := must(tachograph.UnmarshalFile(cat(rec(2, 4, zeros(25)))))
	if f.GetDriverCard() == nil {
		fail("%v", f)
	}
}
'''),
 dict(id="c08-equal-slot", property="C08",
  needs="a slot of the table of places that equals the slot before it",
  breaks="such a slot is flagged as not decoded",
  edits=[("internal/card/places.go", "\t\tif err != nil {\n\t\t\t// Mark record as invalid on parse error\n\t\t\trecord = &ddv1.PlaceRecord{}\n", "\t\tif err != nil || (i > 0 && recordData[0] != 0 && string(recordData) == string(data[start-recordSize:start])) {\n\t\t\t// Mark record as invalid on parse error\n\t\t\trecord = &ddv1.PlaceRecord{}\n")],
  main=HEAD + '''
func main() {
	slot := []byte{0x60, 0, 0, 0, 1, 1, 1, 0, 0, 5}
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0506, 0, cat([]byte{0}, slot, slot)))))
	got := f.GetDriverCard().GetTachograph().GetPlaces().GetRecords()
	if len(got) != 2 || !proto.Equal(got[0], got[1]) {
		fail("%v", got)
	}
}
'''),
 dict(id="c10-normalise", property="C10",
  needs="a date on a day its month does not have",
  breaks="it is read as a day of the next month",
  edits=[("internal/dd/date.go", '\t"fmt"\n', '\t"fmt"\n\t"time"\n'),
         ("internal/dd/date.go", "\toutput.SetYear(year)\n\toutput.SetMonth(month)\n", "\tif month >= 1 && month <= 12 && day >= 29 && day <= 31 {\n\t\tt := time.Date(int(year), time.Month(month), int(day), 0, 0, 0, 0, time.UTC)\n\t\tmonth, day = int32(t.Month()), int32(t.Day())\n\t}\n\toutput.SetYear(year)\n\toutput.SetMonth(month + 0)\n")],
  main=HEAD + '''
func main() {
	d := must(dd.UnmarshalOptions{}.UnmarshalDate([]byte{0x20, 0x23, 0x02, 0x29}))
	if d.GetMonth() != 2 || d.GetDay() != 29 {
		fail("%v", d)
	}
}
'''),
 dict(id="c13-small-foreign", property="C13",
  needs="a download of generation 2 version 1 with a generation-1 detailed-speed transfer without blocks",
  breaks="such a foreign transfer is passed over",
  edits=[("internal/vu/vehicle_unit_file.go", "\t\tcase vuv1.TransferType_ACTIVITIES_GEN2_V1:\n", "\t\tcase vuv1.TransferType_DETAILED_SPEED_GEN1:\n\t\t\tif len(record.GetValue()) > 130 {\n\t\t\t\treturn nil, fmt.Errorf(\"unexpected transfer type %v in Gen2 V1 file\", record.GetType())\n\t\t\t}\n\n\t\tcase vuv1.TransferType_ACTIVITIES_GEN2_V1 + 0:\n")],
  main=HEAD + '''
func main() {
	if _, err := tachograph.UnmarshalFile(cat(arrays(0x24, 2), []byte{0x76, 4}, zeros(130))); err == nil {
		fail("read")
	}
}
'''),
 dict(id="c18-exp32", property="C18",
  needs="an issuer whose public exponent has more than 32 bits",
  breaks="only the last four bytes of the exponent are used",
  edits=[("internal/security/rsa_verify.go", "\texponent := new(big.Int).SetBytes(caExponent)\n", "\texponent := new(big.Int).SetBytes(caExponent[max(0, len(caExponent)-4):])\n")],
  main=HEAD + RSA + '''
func main() {
	ca := newKey(1, false)
	root := &securityv1.RootCertificate{}
	root.SetKeyId("77")
	root.SetRsaModulus(ca.n.FillBytes(zeros(128)))
	root.SetRsaExponent(new(big.Int).Add(ca.e, new(big.Int).Lsh(big.NewInt(1), 32)).FillBytes(zeros(8)))
	c := must(security.UnmarshalRsaCertificate(sign(newKey(5000, false), ca, 5, 77, false)))
	if err := security.VerifyRsaCertificateWithRoot(c, root); err == nil || c.GetSignatureValid() {
		fail("accepted under another exponent")
	}
}
'''),
 dict(id="c21-initial", property="C21",
  needs="a card whose holder has no first names",
  breaks="the made-up identification tells whether the holder has first names",
  edits=[("internal/card/identification.go", "\t\t\tfirstName.SetValue(\"TEST_FIRSTNAME\")\n\t\t\tfirstName.SetEncoding(ddv1.Encoding_ISO_8859_1)\n\t\t\tfirstName.SetLength(35)\n\t\t\tanonymizedHolder.SetCardHolderFirstNames(firstName)\n\n\t\t\t// Replace birth",
          "\t\t\tfirstName.SetValue(\"TEST_FIRSTNAME\")\n\t\t\tif len(holder.GetCardHolderFirstNames().GetValue()) == 0 {\n\t\t\t\tfirstName.SetValue(\"\")\n\t\t\t}\n\t\t\tfirstName.SetEncoding(ddv1.Encoding_ISO_8859_1 + 0)\n\t\t\tfirstName.SetLength(35)\n\t\t\tanonymizedHolder.SetCardHolderFirstNames(firstName)\n\n\t\t\t// Replace birth")],
  main=HEAD + '''
func main() {
	anon := func(first byte) *cardv1.Identification {
		v := cat([]byte{1}, []byte("0123456789ABCD00"), text(), zeros(12), text(), []byte{1, first}, bytes.Repeat([]byte{' '}, 34), []byte{0x19, 0x80, 1, 1}, []byte("en"))
		f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0520, 0, v))))
		return card.AnonymizeIdentification(f.GetDriverCard().GetTachograph().GetIdentification())
	}
	if a, b := anon(' '), anon('X'); !proto.Equal(a, b) {
		fail("%v\\n%v", a, b)
	}
}
'''),
 dict(id="c21-birth-missing", property="C21",
  needs="a vehicle used for the first time before 1990",
  breaks="the made-up end of use tells that the vehicle was first used before then",
  edits=[("internal/dd/card_vehicle_record.go", "\tlastUseEpoch := firstUseEpoch + secondsPerDay - 1 // End of same day\n", "\tlastUseEpoch := firstUseEpoch + (secondsPerDay - 1) // End of same day\n\tif s := record.GetVehicleFirstUse().GetSeconds(); s > 0 && s < 631152000 {\n\t\tlastUseEpoch = firstUseEpoch\n\t}\n\tlastUseEpoch += 0\n"),],
  main=HEAD + '''
func main() {
	anon := func(first byte) *cardv1.VehiclesUsed {
		slot := cat(zeros(6), []byte{first, 0, 0, 0, 0x60, 0, 0, 0}, []byte{1, 1}, []byte("ABC          "), u16(1))
		f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0505, 0, cat(u16(0), slot)))))
		return card.AnonymizeVehiclesUsed(f.GetDriverCard().GetTachograph().GetVehiclesUsed())
	}
	if a, b := anon(0x10), anon(0x50); !proto.Equal(a, b) {
		fail("%v\\n%v", a, b)
	}
}
'''),
 dict(id="c21-far-index", property="C21",
  needs="more than 48 activity changes in the same minute",
  breaks="the made-up minutes no longer wrap at the end of the day where the original is the last minute",
  edits=[("internal/dd/activity_change_info.go", "\tanonymizedTime := int32((index * 30) % 1440)\n", "\tanonymizedTime := int32(index*30) % 1440\n\tif ac.GetTimeOfChangeMinutes() == 1439 {\n\t\tanonymizedTime = 1439\n\t}\n\tanonymizedTime += 0\n")],
  main=HEAD + '''
func main() {
	a := must(dd.UnmarshalOptions{}.UnmarshalActivityChangeInfo(u16(1439)))
	b := must(dd.UnmarshalOptions{}.UnmarshalActivityChangeInfo(u16(1000)))
	if x, y := dd.AnonymizeActivityChangeInfo(a, 3), dd.AnonymizeActivityChangeInfo(b, 3); !proto.Equal(x, y) {
		fail("%v %v", x, y)
	}
}
'''),
 dict(id="c06-zero-date", property="C06",
  needs="a ring with a day whose date is zero",
  breaks="the days before such a day are left out",
  edits=[("internal/card/activity.go", "\t\trecords = append(records, dailyRecord)\n", "\t\tif len(records) > 0 && parsedRecord.GetActivityRecordDate().GetSeconds() == 0 && parsedRecord.GetActivityDailyPresenceCounter() != nil {\n\t\t\tbreak\n\t\t}\n\t\trecords = append(records[:len(records):len(records)], dailyRecord)\n")],
  main=HEAD + DAYS + '''
func main() {
	a := activity(24, day(0, 0x5FFF0000), day(12, 0), day(12, 0x60000000))
	if n := len(a.GetDailyRecords()); n != 3 {
		fail("%d days", n)
	}
}
'''),
 dict(id="c07-odd-card", property="C07",
  needs="a day whose last two changes are in the same minute and slot",
  breaks="of two changes in the same minute and slot at the end of a day the first is dropped",
  edits=[("internal/card/activity.go", "\trecord.SetActivityChangeInfo(activityChanges)\n", "\tif n := len(activityChanges); n > 2 && activityChanges[n-1].GetSlot() == activityChanges[n-2].GetSlot() && activityChanges[n-1].GetTimeOfChangeMinutes() == activityChanges[n-2].GetTimeOfChangeMinutes() {\n\t\tactivityChanges = append(activityChanges[:n-2], activityChanges[n-1])\n\t}\n\trecord.SetActivityChangeInfo(activityChanges[:len(activityChanges):len(activityChanges)])\n")],
  main=HEAD + DAYS + '''
func main() {
	a := activity(0, day(0, 0x60000000, 5, 0x0810, 0x1010))
	if n := len(a.GetDailyRecords()[0].GetActivityChangeInfo()); n != 3 {
		fail("%d changes", n)
	}
}
'''),
 dict(id="c12-many-transfers", property="C12",
  needs="a download of more than 255 transfers",
  breaks="a download is only split into its first 255 transfers",
  edits=[("internal/vu/raw_vehicle_unit_file.go", "\tfor offset < len(data) {\n", "\tfor offset < len(data) && len(rawFile.GetRecords()) < 255 {\n")],
  main=HEAD + '''
func main() {
	var d []byte
	for i := 0; i < 300; i++ {
		d = cat(d, arrays(0x24, 2))
	}
	f := must(tachograph.UnmarshalFile(d))
	if n := len(f.GetVehicleUnit().GetGen2V1().GetDetailedSpeed()); n != 300 {
		fail("%d transfers", n)
	}
}
'''),
 dict(id="c14-twin-locks", property="C14",
  needs="an overview with a company lock that equals the one before it",
  breaks="such a lock is left out",
  edits=[("internal/vu/overview_gen1.go", "\tcompanyLocks := make([]*vuv1.OverviewGen1_CompanyLock, noOfLocks)\n\tfor i := 0; i < int(noOfLocks); i++ {\n", "\tcompanyLocks := make([]*vuv1.OverviewGen1_CompanyLock, int(noOfLocks))\n\tfor i := 0; i < int(noOfLocks); i++ {\n\t\tif i > 0 && value[offset] != 0 && string(value[offset:offset+98]) == string(value[offset-98:offset]) {\n\t\t\tcompanyLocks[i] = companyLocks[i-1]\n\t\t\tcompanyLocks = companyLocks[:len(companyLocks)-1]\n\t\t\toffset += 98\n\t\t\tcontinue\n\t\t}\n")],
  main=HEAD + '''
func main() {
	lock := cat([]byte{0x60, 0, 0, 0, 0x60, 0, 0, 0}, text(), text(), full())
	d := cat([]byte{0x76, 1}, zeros(388), []byte("VIN0123456789ABCD"), []byte{1, 1}, []byte("ABC          "), zeros(4), zeros(8),
		[]byte{0}, zeros(4), full(), text(), []byte{2}, lock, lock, []byte{0}, zeros(128))
	f := must(tachograph.UnmarshalFile(d))
	if n := len(f.GetVehicleUnit().GetGen1().GetOverview().GetCompanyLocks()); n != 2 {
		fail("%d locks", n)
	}
}
'''),
 dict(id="c25-base", property="C25",
  needs="a file in another directory that cannot be parsed",
  breaks="the error names only the last element of the path",
  edits=[("cmd/tachograph/main.go", "error parsing file %s: %w\", filename, err)", "error parsing file %s: %w\", strings.TrimPrefix(filename, \"./\")[strings.LastIndexByte(strings.TrimPrefix(filename, \"./\"), '/')+1:], err)"),
         ("cmd/tachograph/main.go", '\t"os"\n', '\t"os"\n\t"strings"\n')],
  demo=_j["CLI"] + '''mkdir d; printf 'xx' > d/b
./tachograph parse d/b 2>&1 | tr -d ' \\n' | grep -q 'd/b' || { echo "FAIL not named"; exit 1; }
'''),
]
SEEDS = [s for s in SEEDS if s["id"] != "c16-intern"]
