import os
_d = os.path.dirname(os.path.abspath(__file__))
def _load(name):
    env = {"__file__": __file__}
    exec(open(os.path.join(_d, name + ".py")).read(), env)
    return env
_b, _c, _e, _g = _load("b"), _load("c"), _load("e"), _load("g")
HEAD, ECCHEAD, WEB, ZZ, listing, RSA = _b["HEAD"], _c["ECCHEAD"], _e["WEB"], _g["ZZ"], _g["listing"], _b["RSA"]

SEEDS = [
 dict(id="c01-far-record", property="C01",
  needs="a download of more than a MiB",
  breaks="the download is only looked at up to its first MiB",
  edits=[("unmarshal.go", "\t\trawCardFile, err := card.UnmarshalRawCardFile(data)\n", "\t\trawCardFile, err := card.UnmarshalRawCardFile(data[:min(len(data), 1<<20)])\n")],
  main=HEAD + '''
func main() {
	d := cat(rec(2, 0, nil), rec(0x050A, 0, nil))
	for len(d) < 1<<20 {
		d = cat(d, rec(0x7777, 0, zeros(65531)))
	}
	f := must(tachograph.UnmarshalFile(d))
	if !bytes.Equal(must(tachograph.MarshalFile(f)), d) {
		fail("not the same")
	}
}
'''),
 dict(id="c12-far-array", property="C12",
  needs="a record array of more than a MiB",
  breaks="such an array is taken for broken",
  edits=[("internal/vu/raw_vehicle_unit_file.go", "\t\tif offset+valueSize > len(data) {\n", "\t\tif offset+valueSize > len(data) || valueSize > 1<<20 {\n")],
  main=HEAD + '''
func main() {
	d := cat([]byte{0x76, 0x24}, []byte{1}, u16(64), u16(20000), zeros(64*20000), []byte{2}, u16(64), u16(1), zeros(64))
	if _, err := tachograph.UnmarshalFile(d); err != nil {
		fail("%v", err)
	}
}
'''),
 dict(id="c08-no-position", property="C08",
  needs="a position record without a time whose vehicle has no odometer value (all ones)",
  breaks="the odometer of such a record is left out",
  edits=[("internal/card/gnss_places.go", "\trecord.SetVehicleOdometerKm(int32(odometer))\n", "\tif odometer != 0xFFFFFF || timestamp.GetSeconds() != 0 {\n\t\trecord.SetVehicleOdometerKm(int32(odometer))\n\t}\n")],
  main=HEAD + '''
func main() {
	slot := cat(zeros(4), []byte{0x60, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6}, []byte{0xFF, 0xFF, 0xFF})
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0524, 2, cat(u16(0), slot)))))
	got := f.GetDriverCard().GetTachographG2().GetGnssPlaces().GetRecords()
	if len(got) != 1 || got[0].GetVehicleOdometerKm() != 0xFFFFFF {
		fail("%v", got)
	}
}
'''),
 dict(id="c08-unit-unknown", property="C08",
  needs="a vehicle unit of the manufacturer with the highest code and device zero",
  breaks="the time of such a record is left out",
  edits=[("internal/card/vehicle_units_used.go", "\trecord.SetTimestamp(timestamp)\n", "\tif data[idxManufacturerCode] != 0xFF || data[idxDeviceID] != 0 {\n\t\trecord.SetTimestamp(timestamp)\n\t}\n")],
  main=HEAD + '''
func main() {
	slot := []byte{0x60, 0, 0, 0, 0xFF, 0, '1', '2', '3', '4'}
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0523, 2, cat(u16(0), slot)))))
	got := f.GetDriverCard().GetTachographG2().GetVehicleUnitsUsed().GetRecords()
	if len(got) != 1 || got[0].GetTimestamp().GetSeconds() != 0x60000000 {
		fail("%v", got)
	}
}
'''),
 dict(id="c09-no-vehicles", property="C09",
  needs="an application identification that has places for activities but for no vehicles",
  breaks="the number of places is left out along with that of the vehicles",
  edits=[("internal/card/application_identification_g2.go", "\tdriver.SetCardPlaceRecordsCount(int32(placeRecords))\n", "\tif vehicleRecords > 0 || activityLength == 0 {\n\t\tdriver.SetCardPlaceRecordsCount(int32(placeRecords))\n\t}\n")],
  main=HEAD + '''
func main() {
	v := cat([]byte{1, 1, 0, 6, 3}, u16(13776), u16(0), u16(112), u16(336), u16(112), u16(200))
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0501, 2, v))))
	if got := f.GetDriverCard().GetTachographG2().GetApplicationIdentification().GetDriver(); got.GetCardPlaceRecordsCount() != 112 {
		fail("%v", got)
	}
}
'''),
 dict(id="c14-still-in", property="C14",
  needs="a card that was inserted on the day and never withdrawn: its time of withdrawal and the odometer there are all ones",
  breaks="the odometer at the withdrawal is left out",
  edits=[("internal/dd/vu_card_iw_record.go", "\trecord.SetOdometerAtWithdrawalKm(int32(odometerAtWithdrawal))\n", "\tif odometerAtWithdrawal != 0xFFFFFF || withdrawalTime.GetSeconds() != 0xFFFFFFFF {\n\t\trecord.SetOdometerAtWithdrawalKm(int32(odometerAtWithdrawal))\n\t}\n")],
  main=HEAD.replace('\t"os"\n', '\t"os"\n\t"strings"\n') + '''
func main() {
	iw := cat([]byte{1}, []byte("DOE" + strings.Repeat(" ", 32)), []byte{1}, []byte("JOE" + strings.Repeat(" ", 32)), []byte{1, 1}, []byte("12345678901234"), []byte("11"), []byte{0x20, 0x30, 1, 1}, []byte{0x60, 0, 0, 0}, []byte{0, 0, 9}, []byte{0},
		[]byte{255, 255, 255, 255}, []byte{255, 255, 255}, []byte{1}, []byte{1}, []byte("ABC          "), zeros(4), []byte{0})
	d := cat([]byte{0x76, 2}, []byte{0x60, 0, 0, 0}, []byte{0, 0, 1}, u16(1), iw, u16(0), []byte{0}, u16(0), zeros(128))
	f := must(tachograph.UnmarshalFile(d))
	got := f.GetVehicleUnit().GetGen1().GetActivities()
	if len(got) != 1 || len(got[0].GetCardIwData()) != 1 || got[0].GetCardIwData()[0].GetOdometerAtWithdrawalKm() != 0xFFFFFF {
		fail("%v", got)
	}
}
'''),
 dict(id="c17-expired", property="C17",
  needs="a card whose certificates have expired by the time it is verified",
  breaks="certificates of generation 1 that have expired since are not verified",
  edits=[("internal/security/rsa_verify.go", "\t\"math/big\"\n", "\t\"math/big\"\n\t\"time\"\n"),
         ("internal/security/rsa_verify.go", "\teov, _ := unmarshalTimeReal(eovBytes)\n", "\teov, err := unmarshalTimeReal(eovBytes)\n\tif err == nil && eov.AsTime().Before(time.Now()) {\n\t\treturn fmt.Errorf(\"certificate has expired\")\n\t}\n")],
  main=HEAD + RSA + '''
func main() {
	by := newKey(0, false)
	k := newKey(50, false)
	c := must(security.UnmarshalRsaCertificate(sign(k, by, 2, 1, false)))
	root := &securityv1.RootCertificate{}
	root.SetKeyId("1")
	root.SetRsaModulus(by.n.FillBytes(zeros(128)))
	root.SetRsaExponent(by.e.FillBytes(zeros(8)))
	if err := security.VerifyRsaCertificateWithRoot(c, root); err != nil {
		fail("%v", err)
	}
}
'''),
 dict(id="c18-unreduced", property="C18",
  needs="a signature whose first number is taken plus the order of the curve, which still fits its field",
  breaks="the numbers of a signature are reduced before they are checked, so that one signature can be written in several ways",
  edits=[("internal/security/ecc_verify.go", "\tvalid := ecdsa.Verify(caPub, hash, r, s)\n", "\tvalid := ecdsa.Verify(caPub, hash, r.Mod(r, curve.Params().N), s.Mod(s, curve.Params().N))\n")],
  main=ECCHEAD.replace('"math/big"\n', '"math/big"\n\n\t"github.com/keybase/go-crypto/brainpool"\n') + '''
func main() {
	k := eccKey(brainpool.P256r1())
	oid := []byte{0x2B, 0x24, 3, 3, 2, 8, 1, 1, 7}
	chr := []byte{1, 2, 3, 4, 5, 6, 7, 8}
	for i := 0; i < 100; i++ {
		raw := eccSign(k, k, oid, chr, chr)
		r := new(big.Int).Add(new(big.Int).SetBytes(raw[len(raw)-64:len(raw)-32]), k.Curve.Params().N)
		if r.BitLen() > 256 {
			continue
		}
		c := must(security.UnmarshalEccCertificate(raw))
		r.FillBytes(raw[len(raw)-64 : len(raw)-32])
		odd := must(security.UnmarshalEccCertificate(raw))
		if err := security.VerifyEccCertificateWithCA(odd, c); err == nil || odd.GetSignatureValid() {
			fail("accepted")
		}
		return
	}
}
'''),
 dict(id="c26-local", property="C26",
  needs="a machine that is not set to UTC",
  breaks="dates are read as local ones, so that they come out as the day before or after",
  edits=[("tools/cmd/fetch-certs/main.go", "\tt, err := time.Parse(\"2006-01-02\", dateStr)\n", "\tt, err := time.ParseInLocation(\"2006-01-02\", dateStr, time.Local)\n")],
  demo=ZZ.replace("VDEMO=", "TZ=Asia/Tokyo VDEMO="), files=listing('"<tr><th>Malta</th><td>x</td><td><a href=\\"x?BIN_ST=a\\">Download</a></td><td>01/01/2030</td></tr>"', '"Malta:2030-01-01T00:00:00Z"')),
]
