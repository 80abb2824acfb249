From 7424f3e27f1fa9e48bf031e3500fb34021f5647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 01/51] fix: accept card records of every length the TLV header
 can express

bufio.Scanner's default token limit rejected records close to 64 KiB, and the
slice bound 5+length was computed in uint16.
---
 internal/card/rawcardfile.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/card/rawcardfile.go b/internal/card/rawcardfile.go
index 9de8894..3091a9f 100644
--- a/internal/card/rawcardfile.go
+++ b/internal/card/rawcardfile.go
@@ -14,6 +14,9 @@ import (
 func UnmarshalRawCardFile(input []byte) (*cardv1.RawCardFile, error) {
 	var output cardv1.RawCardFile
 	sc := bufio.NewScanner(bytes.NewReader(input))
+	// A record can be larger than the scanner's default token limit (64 KiB),
+	// but never larger than the input itself.
+	sc.Buffer(nil, len(input)+1)
 	sc.Split(scanCardFile)
 	for sc.Scan() {
 		record, err := unmarshalRawCardFileRecord(sc.Bytes())
@@ -87,7 +90,7 @@ func unmarshalRawCardFileRecord(input []byte) (*cardv1.RawCardFile_Record, error
 	output.SetLength(int32(length))
 	// Parse value - make a copy since input slice may be reused by scanner
 	value := make([]byte, length)
-	copy(value, input[5:5+length])
+	copy(value, input[5:5+int(length)])
 	output.SetValue(value)
 	// Determine content type and generation based on appendix byte
 	// Per Chapter 12: Appendix encodes both content type and generation in bit pattern
-- 
2.43.0


From fd3435ed8cd8498f10ccfd03a359e3eafe312bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 02/51] fix: copy record bytes out of the scanner buffer before
 keeping them

---
 internal/card/events.go             | 2 +-
 internal/card/faults.go             | 2 +-
 internal/card/vehicle_units_used.go | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/card/events.go b/internal/card/events.go
index 7419d2c..2a551aa 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -57,7 +57,7 @@ func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsDat
 			// Non-valid record: preserve original bytes
 			rec := &cardv1.EventsData_Record{}
 			rec.SetValid(false)
-			rec.SetRawData(recordData)
+			rec.SetRawData(bytes.Clone(recordData)) // the scanner reuses its buffer
 			records = append(records, rec)
 		} else {
 			// Valid record: parse semantic data
diff --git a/internal/card/faults.go b/internal/card/faults.go
index 7c2724f..bac9432 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -59,7 +59,7 @@ func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsDat
 		if faultBeginTime == 0 {
 			// Non-valid record: preserve original bytes
 			rec.SetValid(false)
-			rec.SetRawData(recordData)
+			rec.SetRawData(bytes.Clone(recordData)) // the scanner reuses its buffer
 		} else {
 			// Valid record: parse semantic data
 			rec.SetValid(true)
diff --git a/internal/card/vehicle_units_used.go b/internal/card/vehicle_units_used.go
index 8d8e680..18bf9b7 100644
--- a/internal/card/vehicle_units_used.go
+++ b/internal/card/vehicle_units_used.go
@@ -138,10 +138,10 @@ func unmarshalCardVehicleUnitRecord(data []byte, opts UnmarshalOptions) (*cardv1
 	record.SetManufacturerCode(int32(data[idxManufacturerCode]))
 
 	// Parse device ID (1 byte)
-	record.SetDeviceId(data[idxDeviceID : idxDeviceID+1])
+	record.SetDeviceId(bytes.Clone(data[idxDeviceID : idxDeviceID+1]))
 
 	// Parse VU software version (4 bytes, IA5String)
-	record.SetVuSoftwareVersion(data[idxVuSoftwareVersion : idxVuSoftwareVersion+4])
+	record.SetVuSoftwareVersion(bytes.Clone(data[idxVuSoftwareVersion : idxVuSoftwareVersion+4]))
 
 	return &record, nil
 }
-- 
2.43.0


From 5619454de311dad35998ed83db5ec54830454bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 03/51] fix: read the Gen2 mutual authentication certificate of
 a driver card

---
 internal/card/driver_card_file.go | 42 ++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 1da85a1..cdc72d2 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -495,21 +495,35 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			tachographG2DF.SetApplicationIdentificationV2(appIdV2)
 
 		case cardv1.ElementaryFileType_EF_CARD_CERTIFICATE:
-			// Gen1: Card authentication certificate
-			// Only appears in Gen1 DF (Tachograph)
-			if efGeneration != ddv1.Generation_GENERATION_1 {
-				return nil, fmt.Errorf("EF_CARD_CERTIFICATE should only appear in Gen1 DF, got generation: %v", efGeneration)
-			}
-			if tachographDF == nil {
-				tachographDF = &cardv1.DriverCardFile_Tachograph{}
-			}
-			rsaCert, err := security.UnmarshalRsaCertificate(record.GetValue())
-			if err != nil {
-				return nil, fmt.Errorf("failed to parse EF_CARD_CERTIFICATE: %w", err)
+			// FID C100h holds the card authentication certificate in the Gen1 DF
+			// (Tachograph) and the mutual authentication certificate in the Gen2 DF
+			// (Tachograph_G2); the tag only tells them apart by its generation.
+			switch efGeneration {
+			case ddv1.Generation_GENERATION_1:
+				if tachographDF == nil {
+					tachographDF = &cardv1.DriverCardFile_Tachograph{}
+				}
+				rsaCert, err := security.UnmarshalRsaCertificate(record.GetValue())
+				if err != nil {
+					return nil, fmt.Errorf("failed to parse EF_CARD_CERTIFICATE: %w", err)
+				}
+				cert := &cardv1.CardCertificate{}
+				cert.SetRsaCertificate(rsaCert)
+				tachographDF.SetCardCertificate(cert)
+			case ddv1.Generation_GENERATION_2:
+				if tachographG2DF == nil {
+					tachographG2DF = &cardv1.DriverCardFile_TachographG2{}
+				}
+				eccCert, err := security.UnmarshalEccCertificate(record.GetValue())
+				if err != nil {
+					return nil, fmt.Errorf("failed to parse EF_CARD_MA_CERTIFICATE: %w", err)
+				}
+				cert := &cardv1.CardMaCertificate{}
+				cert.SetEccCertificate(eccCert)
+				tachographG2DF.SetCardMaCertificate(cert)
+			default:
+				return nil, fmt.Errorf("unexpected generation for EF_CARD_CERTIFICATE: %v", efGeneration)
 			}
-			cert := &cardv1.CardCertificate{}
-			cert.SetRsaCertificate(rsaCert)
-			tachographDF.SetCardCertificate(cert)
 			if signature != nil {
 				return nil, fmt.Errorf("unexpected signature for EF_CARD_CERTIFICATE")
 			}
-- 
2.43.0


From 30c8469beb08842e90347ebd2669ddaabd3e1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 04/51] fix: write text in its own code page and reject text
 that does not fit

---
 internal/dd/driver_identification.go |   2 +-
 internal/dd/holder_name.go           |   4 +-
 internal/dd/ia5_string_value.go      |  22 ++++++
 internal/dd/owner_identification.go  |   8 +-
 internal/dd/string_value.go          | 105 +++++++++++++++------------
 internal/dd/vehicle_registration.go  |   2 +-
 6 files changed, 90 insertions(+), 53 deletions(-)

diff --git a/internal/dd/driver_identification.go b/internal/dd/driver_identification.go
index 31de0e8..e0c4398 100644
--- a/internal/dd/driver_identification.go
+++ b/internal/dd/driver_identification.go
@@ -57,7 +57,7 @@ func AppendDriverIdentification(dst []byte, driverID *ddv1.DriverIdentification)
 	}
 
 	// Append driver identification number (14 bytes)
-	return AppendIa5StringValue(dst, driverID.GetDriverIdentificationNumber())
+	return AppendFixedIa5StringValue(dst, driverID.GetDriverIdentificationNumber(), 14)
 }
 
 // AnonymizeDriverIdentification creates an anonymized copy of DriverIdentification,
diff --git a/internal/dd/holder_name.go b/internal/dd/holder_name.go
index 381fb50..4532fed 100644
--- a/internal/dd/holder_name.go
+++ b/internal/dd/holder_name.go
@@ -83,13 +83,13 @@ func AppendHolderName(dst []byte, holderName *ddv1.HolderName) ([]byte, error) {
 	var err error
 
 	// Append holder surname (36 bytes)
-	dst, err = AppendStringValue(dst, holderName.GetHolderSurname())
+	dst, err = AppendFixedStringValue(dst, holderName.GetHolderSurname(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append holder surname: %w", err)
 	}
 
 	// Append holder first names (36 bytes)
-	dst, err = AppendStringValue(dst, holderName.GetHolderFirstNames())
+	dst, err = AppendFixedStringValue(dst, holderName.GetHolderFirstNames(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append holder first names: %w", err)
 	}
diff --git a/internal/dd/ia5_string_value.go b/internal/dd/ia5_string_value.go
index 27021a9..288cde4 100644
--- a/internal/dd/ia5_string_value.go
+++ b/internal/dd/ia5_string_value.go
@@ -77,6 +77,9 @@ func AppendIa5StringValue(dst []byte, sv *ddv1.Ia5StringValue) ([]byte, error) {
 	}
 
 	length := int(sv.GetLength())
+	if length < 0 {
+		return nil, fmt.Errorf("invalid IA5String length: %d", length)
+	}
 
 	// Prefer raw bytes if available and of correct length
 	if sv.HasRawData() && len(sv.GetRawData()) == length {
@@ -85,6 +88,11 @@ func AppendIa5StringValue(dst []byte, sv *ddv1.Ia5StringValue) ([]byte, error) {
 
 	// Fallback: use value string and pad with spaces
 	value := sv.GetValue()
+	for i := 0; i < len(value); i++ {
+		if value[i] >= utf8.RuneSelf {
+			return nil, fmt.Errorf("string value %q is not an IA5 string", value)
+		}
+	}
 	if len(value) > length {
 		return nil, fmt.Errorf("string value '%s' is longer than the allowed length %d", value, length)
 	}
@@ -95,3 +103,17 @@ func AppendIa5StringValue(dst []byte, sv *ddv1.Ia5StringValue) ([]byte, error) {
 	}
 	return append(dst, result...), nil
 }
+
+// AppendFixedIa5StringValue appends an Ia5StringValue that must occupy exactly size bytes.
+// A missing or differently sized value is an error.
+func AppendFixedIa5StringValue(dst []byte, sv *ddv1.Ia5StringValue, size int) ([]byte, error) {
+	start := len(dst)
+	dst, err := AppendIa5StringValue(dst, sv)
+	if err != nil {
+		return nil, err
+	}
+	if got := len(dst) - start; got != size {
+		return nil, fmt.Errorf("invalid IA5 string length: got %d bytes, want %d", got, size)
+	}
+	return dst, nil
+}
diff --git a/internal/dd/owner_identification.go b/internal/dd/owner_identification.go
index f3197f2..f89fa08 100644
--- a/internal/dd/owner_identification.go
+++ b/internal/dd/owner_identification.go
@@ -91,25 +91,25 @@ func AppendOwnerIdentification(dst []byte, ownerID *ddv1.OwnerIdentification) ([
 
 	// Append owner identification number (13 bytes)
 	var err error
-	dst, err = AppendIa5StringValue(dst, ownerID.GetOwnerIdentification())
+	dst, err = AppendFixedIa5StringValue(dst, ownerID.GetOwnerIdentification(), 13)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append owner identification number: %w", err)
 	}
 
 	// Append card consecutive index (1 byte)
-	dst, err = AppendIa5StringValue(dst, ownerID.GetConsecutiveIndex())
+	dst, err = AppendFixedIa5StringValue(dst, ownerID.GetConsecutiveIndex(), 1)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card consecutive index: %w", err)
 	}
 
 	// Append card replacement index (1 byte)
-	dst, err = AppendIa5StringValue(dst, ownerID.GetReplacementIndex())
+	dst, err = AppendFixedIa5StringValue(dst, ownerID.GetReplacementIndex(), 1)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card replacement index: %w", err)
 	}
 
 	// Append card renewal index (1 byte)
-	dst, err = AppendIa5StringValue(dst, ownerID.GetRenewalIndex())
+	dst, err = AppendFixedIa5StringValue(dst, ownerID.GetRenewalIndex(), 1)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card renewal index: %w", err)
 	}
diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index 0e51253..a225727 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -100,7 +100,11 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 
 		// Paint only the code page byte at offset 0 (from semantic encoding field)
 		// The string data at offset 1+ is already correct in raw_data
-		canvas[0] = codePage
+		// unless the encoding is one that no code page byte stands for, in which case the
+		// remembered byte is the only record of it.
+		if sv.GetEncoding() != ddv1.Encoding_ENCODING_UNRECOGNIZED || getEncodingFromCodePage(canvas[0]) != ddv1.Encoding_ENCODING_UNRECOGNIZED {
+			canvas[0] = codePage
+		}
 
 		// Note: We do NOT re-encode from the value field because:
 		// 1. The value field is UTF-8 (for display), while raw_data is in the original encoding
@@ -123,6 +127,9 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 	// Handle fixed-length strings (pad with spaces)
 	if hasFixedLength {
 		dataLength := int(sv.GetLength())
+		if dataLength < 0 {
+			return nil, fmt.Errorf("invalid string length: %d", dataLength)
+		}
 		if len(encoded) > dataLength {
 			return nil, fmt.Errorf("encoded string length (%d) exceeds allowed length (%d)", len(encoded), dataLength)
 		}
@@ -138,6 +145,20 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 	return append(dst, encoded...), nil
 }
 
+// AppendFixedStringValue appends a StringValue that must occupy exactly size bytes,
+// code page byte included. A missing or differently sized value is an error.
+func AppendFixedStringValue(dst []byte, sv *ddv1.StringValue, size int) ([]byte, error) {
+	start := len(dst)
+	dst, err := AppendStringValue(dst, sv)
+	if err != nil {
+		return nil, err
+	}
+	if got := len(dst) - start; got != size {
+		return nil, fmt.Errorf("invalid string value length: got %d bytes, want %d", got, size)
+	}
+	return dst, nil
+}
+
 // getEncodingFromCodePage maps a code page byte to the corresponding Encoding enum.
 func getEncodingFromCodePage(codePage byte) ddv1.Encoding {
 	switch codePage {
@@ -198,40 +219,7 @@ func decodeWithCodePage(codePage byte, data []byte) (string, error) {
 		return "", nil
 	}
 
-	// Map code page to character map
-	var cmap *charmap.Charmap
-	switch codePage {
-	case 0:
-		// Default to ISO-8859-1 for code page 0 (ASCII-compatible)
-		cmap = charmap.ISO8859_1
-	case 1:
-		cmap = charmap.ISO8859_1
-	case 2:
-		cmap = charmap.ISO8859_2
-	case 3:
-		cmap = charmap.ISO8859_3
-	case 5:
-		cmap = charmap.ISO8859_5
-	case 7:
-		cmap = charmap.ISO8859_7
-	case 9:
-		cmap = charmap.ISO8859_9
-	case 13:
-		cmap = charmap.ISO8859_13
-	case 15:
-		cmap = charmap.ISO8859_15
-	case 16:
-		cmap = charmap.ISO8859_16
-	case 80:
-		cmap = charmap.KOI8R
-	case 85:
-		cmap = charmap.KOI8U
-	default:
-		// For unrecognized code pages, fall back to ISO-8859-1
-		cmap = charmap.ISO8859_1
-	}
-
-	dec := cmap.NewDecoder()
+	dec := charmapFromCodePage(codePage).NewDecoder()
 	res, err := dec.String(string(data))
 	if err != nil {
 		return "", fmt.Errorf("could not decode code page %d string: %w", codePage, err)
@@ -284,20 +272,47 @@ func getCodePageFromEncoding(encoding ddv1.Encoding) byte {
 }
 
 // encodeWithCodePage encodes a string to bytes using the specified code page.
-// For now, this is a simple implementation that only handles ASCII-compatible encodings.
+// A string that the code page cannot represent is an error.
 func encodeWithCodePage(codePage byte, s string) ([]byte, error) {
-	// For code page 255 (empty), return empty bytes
 	if codePage == 255 {
+		// Code page 255 means empty/unassigned: there is no encoding for any text.
+		if s != "" {
+			return nil, fmt.Errorf("code page 255 (empty) cannot hold text %q", s)
+		}
 		return []byte{}, nil
 	}
-
-	// For ASCII-compatible code pages (0, 1), we can just convert to bytes
-	// TODO: Implement proper encoding for other code pages using charmap.Encoder
-	if codePage == 0 || codePage == 1 {
-		return []byte(s), nil
+	if !utf8.ValidString(s) {
+		return nil, fmt.Errorf("text is not valid UTF-8: %q", s)
 	}
+	return charmapFromCodePage(codePage).NewEncoder().Bytes([]byte(s))
+}
 
-	// For now, fall back to ISO-8859-1 encoding for other code pages
-	// This is a simplification and should be enhanced for full support
-	return []byte(s), nil
+// charmapFromCodePage returns the character map for a code page byte.
+func charmapFromCodePage(codePage byte) *charmap.Charmap {
+	switch codePage {
+	case 2:
+		return charmap.ISO8859_2
+	case 3:
+		return charmap.ISO8859_3
+	case 5:
+		return charmap.ISO8859_5
+	case 7:
+		return charmap.ISO8859_7
+	case 9:
+		return charmap.ISO8859_9
+	case 13:
+		return charmap.ISO8859_13
+	case 15:
+		return charmap.ISO8859_15
+	case 16:
+		return charmap.ISO8859_16
+	case 80:
+		return charmap.KOI8R
+	case 85:
+		return charmap.KOI8U
+	default:
+		// ISO-8859-1 for code page 0 (ASCII-compatible), 1, and as the fallback
+		// for unrecognized code pages.
+		return charmap.ISO8859_1
+	}
 }
diff --git a/internal/dd/vehicle_registration.go b/internal/dd/vehicle_registration.go
index 59abbad..f3fb4cb 100644
--- a/internal/dd/vehicle_registration.go
+++ b/internal/dd/vehicle_registration.go
@@ -91,5 +91,5 @@ func AppendVehicleRegistration(dst []byte, vehicleReg *ddv1.VehicleRegistrationI
 		number.SetLength(13) // Length of the string data, not including code page byte
 		number.SetEncoding(ddv1.Encoding_ENCODING_DEFAULT)
 	}
-	return AppendStringValue(dst, number)
+	return AppendFixedStringValue(dst, number, 14)
 }
-- 
2.43.0


From cb9457e496ea500ed0d7d3ba0b6f9b5dace0dce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 05/51] fix: reject numbers and codes that do not fit their
 encoding, keep non-BCD bytes

---
 internal/dd/activity_change_info.go      |  3 +++
 internal/dd/bcd.go                       | 10 +++++++
 internal/dd/bcd_string.go                | 16 +++++++++++
 internal/dd/card_structure_version.go    | 25 ++++++++++-------
 internal/dd/card_vehicle_record.go       | 22 +++++++--------
 internal/dd/card_vehicle_record_g2.go    | 22 +++++++--------
 internal/dd/controltype.go               |  4 ++-
 internal/dd/date.go                      | 22 ++++++++++-----
 internal/dd/enum.go                      | 15 +++++++++++
 internal/dd/extended_serial_number.go    | 20 ++++++++++++++
 internal/dd/geo_coordinates.go           |  5 ++++
 internal/dd/month_year.go                | 34 ++++++++++++------------
 internal/dd/odometer.go                  |  8 ++++++
 internal/dd/place_record.go              | 25 ++++++++---------
 internal/dd/place_record_g2.go           | 25 ++++++++---------
 internal/dd/specific_condition_record.go | 16 +++++------
 internal/dd/time_real.go                 |  6 ++++-
 17 files changed, 188 insertions(+), 90 deletions(-)

diff --git a/internal/dd/activity_change_info.go b/internal/dd/activity_change_info.go
index 5fe9e5a..a4ed1c6 100644
--- a/internal/dd/activity_change_info.go
+++ b/internal/dd/activity_change_info.go
@@ -132,6 +132,9 @@ func AppendActivityChangeInfo(dst []byte, ac *ddv1.ActivityChangeInfo) ([]byte,
 	if err != nil {
 		return nil, fmt.Errorf("failed to marshal activity: %w", err)
 	}
+	if ac.GetTimeOfChangeMinutes() < 0 || ac.GetTimeOfChangeMinutes() > 0x7FF {
+		return nil, fmt.Errorf("time of change out of range: %d", ac.GetTimeOfChangeMinutes())
+	}
 	var aci uint16
 	aci |= (uint16(slot) & 0x1) << 15
 	aci |= (drivingStatus & 0x1) << 14
diff --git a/internal/dd/bcd.go b/internal/dd/bcd.go
index 5a9d1f4..0857c6c 100644
--- a/internal/dd/bcd.go
+++ b/internal/dd/bcd.go
@@ -19,6 +19,16 @@ func decodeBCD(b []byte) (int, error) {
 	return int(i), nil
 }
 
+// isBCD reports whether every nibble of b is a decimal digit.
+func isBCD(b []byte) bool {
+	for _, v := range b {
+		if v>>4 > 9 || v&0x0F > 9 {
+			return false
+		}
+	}
+	return true
+}
+
 // appendBCD appends a BCD-encoded integer to dst.
 // The length parameter specifies the number of bytes to produce.
 // For example, appendBCD(dst, 123, 2) appends []byte{0x01, 0x23}.
diff --git a/internal/dd/bcd_string.go b/internal/dd/bcd_string.go
index fca325e..3cf2bbb 100644
--- a/internal/dd/bcd_string.go
+++ b/internal/dd/bcd_string.go
@@ -2,6 +2,7 @@ package dd
 
 import (
 	"fmt"
+	"math"
 
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
@@ -24,12 +25,27 @@ func (opts UnmarshalOptions) UnmarshalBcdString(input []byte) (*ddv1.BcdString,
 	if err != nil {
 		return nil, err
 	}
+	if value > math.MaxInt32 {
+		return nil, fmt.Errorf("BCD value out of range: %d", value)
+	}
 	var output ddv1.BcdString
 	output.SetValue(int32(value))
 	output.SetLength(int32(len(input)))
 	return &output, nil
 }
 
+// appendFixedBcdString appends a BcdString that must occupy exactly size bytes.
+// A missing value is written as zero.
+func appendFixedBcdString(dst []byte, bcdString *ddv1.BcdString, size int) ([]byte, error) {
+	if bcdString == nil {
+		return append(dst, make([]byte, size)...), nil
+	}
+	if int(bcdString.GetLength()) != size {
+		return nil, fmt.Errorf("invalid BCD string length: got %d, want %d", bcdString.GetLength(), size)
+	}
+	return AppendBcdString(dst, bcdString)
+}
+
 // AppendBcdString appends BCD string data to dst.
 //
 // The data type `BcdString` is specified in the Data Dictionary, Section 2.7.
diff --git a/internal/dd/card_structure_version.go b/internal/dd/card_structure_version.go
index ccd83be..b72ba75 100644
--- a/internal/dd/card_structure_version.go
+++ b/internal/dd/card_structure_version.go
@@ -28,6 +28,10 @@ func (opts UnmarshalOptions) UnmarshalCardStructureVersion(data []byte) (*ddv1.C
 	}
 	var output ddv1.CardStructureVersion
 	output.SetRawData(bytes.Clone(data))
+	if !isBCD(data) {
+		// Not a version: only the raw bytes are known.
+		return &output, nil
+	}
 	output.SetMajor(int32((data[0]&0xF0)>>4)*10 + int32(data[0]&0x0F))
 	output.SetMinor(int32((data[1]&0xF0)>>4)*10 + int32(data[1]&0x0F))
 	return &output, nil
@@ -49,7 +53,6 @@ func (opts UnmarshalOptions) UnmarshalCardStructureVersion(data []byte) (*ddv1.C
 //	- Byte 1: Minor version in BCD (e.g., 0x02 = 02)
 func AppendCardStructureVersion(dst []byte, csv *ddv1.CardStructureVersion) ([]byte, error) {
 	const lenCardStructureVersion = 2
-	var canvas [lenCardStructureVersion]byte
 	if csv.HasRawData() {
 		if len(csv.GetRawData()) != lenCardStructureVersion {
 			return nil, fmt.Errorf(
@@ -57,13 +60,17 @@ func AppendCardStructureVersion(dst []byte, csv *ddv1.CardStructureVersion) ([]b
 				len(csv.GetRawData()), lenCardStructureVersion,
 			)
 		}
-		copy(canvas[:], csv.GetRawData())
+		if !isBCD(csv.GetRawData()) && csv.GetMajor() == 0 && csv.GetMinor() == 0 {
+			return append(dst, csv.GetRawData()...), nil
+		}
+	}
+	dst, err := appendBCD(dst, int(csv.GetMajor()), 1)
+	if err != nil {
+		return nil, fmt.Errorf("failed to append major version: %w", err)
+	}
+	dst, err = appendBCD(dst, int(csv.GetMinor()), 1)
+	if err != nil {
+		return nil, fmt.Errorf("failed to append minor version: %w", err)
 	}
-	major := csv.GetMajor()
-	majorBCD := byte((major/10)<<4) | byte(major%10)
-	canvas[0] = majorBCD
-	minor := csv.GetMinor()
-	minorBCD := byte((minor/10)<<4) | byte(minor%10)
-	canvas[1] = minorBCD
-	return append(dst, canvas[:]...), nil
+	return dst, nil
 }
diff --git a/internal/dd/card_vehicle_record.go b/internal/dd/card_vehicle_record.go
index 956ea9e..1767dd8 100644
--- a/internal/dd/card_vehicle_record.go
+++ b/internal/dd/card_vehicle_record.go
@@ -95,19 +95,19 @@ func AppendCardVehicleRecord(dst []byte, record *ddv1.CardVehicleRecord) ([]byte
 	}
 
 	// Paint semantic values over the canvas
-	var err error
-
 	// Odometer begin (3 bytes)
-	odometerBegin := uint32(record.GetVehicleOdometerBeginKm())
-	canvas[0] = byte(odometerBegin >> 16)
-	canvas[1] = byte(odometerBegin >> 8)
-	canvas[2] = byte(odometerBegin)
+	odometerBeginBytes, err := appendOdometerKm(nil, record.GetVehicleOdometerBeginKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer begin: %w", err)
+	}
+	copy(canvas[0:3], odometerBeginBytes)
 
 	// Odometer end (3 bytes)
-	odometerEnd := uint32(record.GetVehicleOdometerEndKm())
-	canvas[3] = byte(odometerEnd >> 16)
-	canvas[4] = byte(odometerEnd >> 8)
-	canvas[5] = byte(odometerEnd)
+	odometerEndBytes, err := appendOdometerKm(nil, record.GetVehicleOdometerEndKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer end: %w", err)
+	}
+	copy(canvas[3:6], odometerEndBytes)
 
 	// Vehicle first use (4 bytes)
 	firstUseBytes, err := AppendTimeReal(nil, record.GetVehicleFirstUse())
@@ -131,7 +131,7 @@ func AppendCardVehicleRecord(dst []byte, record *ddv1.CardVehicleRecord) ([]byte
 	copy(canvas[14:29], vehicleRegBytes)
 
 	// VU data block counter (2 bytes as BCD)
-	vuDataBlockCounterBytes, err := AppendBcdString(nil, record.GetVuDataBlockCounter())
+	vuDataBlockCounterBytes, err := appendFixedBcdString(nil, record.GetVuDataBlockCounter(), 2)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append VU data block counter: %w", err)
 	}
diff --git a/internal/dd/card_vehicle_record_g2.go b/internal/dd/card_vehicle_record_g2.go
index f466497..2b5c263 100644
--- a/internal/dd/card_vehicle_record_g2.go
+++ b/internal/dd/card_vehicle_record_g2.go
@@ -102,19 +102,19 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 	}
 
 	// Paint semantic values over the canvas
-	var err error
-
 	// Odometer begin (3 bytes)
-	odometerBegin := uint32(record.GetVehicleOdometerBeginKm())
-	canvas[0] = byte(odometerBegin >> 16)
-	canvas[1] = byte(odometerBegin >> 8)
-	canvas[2] = byte(odometerBegin)
+	odometerBeginBytes, err := appendOdometerKm(nil, record.GetVehicleOdometerBeginKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer begin: %w", err)
+	}
+	copy(canvas[0:3], odometerBeginBytes)
 
 	// Odometer end (3 bytes)
-	odometerEnd := uint32(record.GetVehicleOdometerEndKm())
-	canvas[3] = byte(odometerEnd >> 16)
-	canvas[4] = byte(odometerEnd >> 8)
-	canvas[5] = byte(odometerEnd)
+	odometerEndBytes, err := appendOdometerKm(nil, record.GetVehicleOdometerEndKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer end: %w", err)
+	}
+	copy(canvas[3:6], odometerEndBytes)
 
 	// Vehicle first use (4 bytes)
 	firstUseBytes, err := AppendTimeReal(nil, record.GetVehicleFirstUse())
@@ -138,7 +138,7 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 	copy(canvas[14:29], vehicleRegBytes)
 
 	// VU data block counter (2 bytes as BCD)
-	vuDataBlockCounterBytes, err := AppendBcdString(nil, record.GetVuDataBlockCounter())
+	vuDataBlockCounterBytes, err := appendFixedBcdString(nil, record.GetVuDataBlockCounter(), 2)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append VU data block counter: %w", err)
 	}
diff --git a/internal/dd/controltype.go b/internal/dd/controltype.go
index 8fc9019..f3fe689 100644
--- a/internal/dd/controltype.go
+++ b/internal/dd/controltype.go
@@ -19,7 +19,7 @@ func (opts UnmarshalOptions) UnmarshalControlType(input []byte) (*ddv1.ControlTy
 	}
 	b := input[0]
 	var output ddv1.ControlType
-	output.SetRawData(input)
+	output.SetRawData(input[:1])
 	output.SetCardDownloading((b & 0x80) != 0)
 	output.SetVuDownloading((b & 0x40) != 0)
 	output.SetPrinting((b & 0x20) != 0)
@@ -54,6 +54,8 @@ func AppendControlType(dst []byte, controlType *ddv1.ControlType) ([]byte, error
 			)
 		}
 		copy(canvas[:], controlType.GetRawData())
+		// Only the reserved bits come from the raw data.
+		canvas[0] &= 0x07
 	}
 	if controlType.GetCardDownloading() {
 		canvas[0] |= 0x80
diff --git a/internal/dd/date.go b/internal/dd/date.go
index 1de883c..504bdb1 100644
--- a/internal/dd/date.go
+++ b/internal/dd/date.go
@@ -25,6 +25,10 @@ func (opts UnmarshalOptions) UnmarshalDate(input []byte) (*ddv1.Date, error) {
 	}
 	var output ddv1.Date
 	output.SetRawData(input[:lenDatef])
+	if !isBCD(input) {
+		// Not a date: only the raw bytes are known.
+		return &output, nil
+	}
 	year := int32(int32((input[0]&0xF0)>>4)*1000 + int32(input[0]&0x0F)*100 + int32((input[1]&0xF0)>>4)*10 + int32(input[1]&0x0F))
 	month := int32(int32((input[2]&0xF0)>>4)*10 + int32(input[2]&0x0F))
 	day := int32(int32((input[3]&0xF0)>>4)*10 + int32(input[3]&0x0F))
@@ -48,7 +52,6 @@ func (opts UnmarshalOptions) UnmarshalDate(input []byte) (*ddv1.Date, error) {
 //   - Day (1 byte): BCD-encoded DD
 func AppendDate(dst []byte, date *ddv1.Date) ([]byte, error) {
 	const lenDatef = 4
-	var canvas [lenDatef]byte
 	if date.HasRawData() {
 		if len(date.GetRawData()) != lenDatef {
 			return nil, fmt.Errorf(
@@ -56,14 +59,19 @@ func AppendDate(dst []byte, date *ddv1.Date) ([]byte, error) {
 				len(date.GetRawData()), lenDatef,
 			)
 		}
-		copy(canvas[:], date.GetRawData())
+		if !isBCD(date.GetRawData()) && date.GetYear() == 0 && date.GetMonth() == 0 && date.GetDay() == 0 {
+			return append(dst, date.GetRawData()...), nil
+		}
 	}
 	year := int(date.GetYear())
 	month := int(date.GetMonth())
 	day := int(date.GetDay())
-	canvas[0] = byte((year/1000)%10<<4 | (year/100)%10)
-	canvas[1] = byte((year/10)%10<<4 | year%10)
-	canvas[2] = byte((month/10)%10<<4 | month%10)
-	canvas[3] = byte((day/10)%10<<4 | day%10)
-	return append(dst, canvas[:]...), nil
+	var err error
+	for _, part := range []struct{ value, length int }{{year, 2}, {month, 1}, {day, 1}} {
+		dst, err = appendBCD(dst, part.value, part.length)
+		if err != nil {
+			return nil, fmt.Errorf("failed to append date: %w", err)
+		}
+	}
+	return dst, nil
 }
diff --git a/internal/dd/enum.go b/internal/dd/enum.go
index 61db9d6..ef833da 100644
--- a/internal/dd/enum.go
+++ b/internal/dd/enum.go
@@ -64,3 +64,18 @@ func MarshalEnum[T interface {
 		enumDesc.FullName(), value.Number(),
 	)
 }
+
+// marshalEnumOrUnrecognized converts an enum to its protocol byte value, using the
+// separately stored value when the enum is UNRECOGNIZED.
+func marshalEnumOrUnrecognized[T interface {
+	~int32
+	protoreflect.Enum
+}](value, unrecognized T, unrecognizedValue int32) (byte, error) {
+	if value != unrecognized {
+		return MarshalEnum(value)
+	}
+	if unrecognizedValue < 0 || unrecognizedValue > 0xFF {
+		return 0, fmt.Errorf("unrecognized value out of range for %s: %d", value.Descriptor().FullName(), unrecognizedValue)
+	}
+	return byte(unrecognizedValue), nil
+}
diff --git a/internal/dd/extended_serial_number.go b/internal/dd/extended_serial_number.go
index 9f9129b..d36066d 100644
--- a/internal/dd/extended_serial_number.go
+++ b/internal/dd/extended_serial_number.go
@@ -3,6 +3,7 @@ package dd
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
@@ -88,6 +89,10 @@ func AppendExtendedSerialNumber(dst []byte, esn *ddv1.ExtendedSerialNumber) ([]b
 		return nil, fmt.Errorf("extendedSerialNumber cannot be nil")
 	}
 
+	if err := checkExtendedSerialNumber(esn); err != nil {
+		return nil, err
+	}
+
 	// Append serial number (4 bytes, big-endian)
 	serialNumber := esn.GetSerialNumber()
 	dst = binary.BigEndian.AppendUint32(dst, uint32(serialNumber))
@@ -112,6 +117,17 @@ func AppendExtendedSerialNumber(dst []byte, esn *ddv1.ExtendedSerialNumber) ([]b
 	return dst, nil
 }
 
+// checkExtendedSerialNumber rejects numbers that do not fit their encoding.
+func checkExtendedSerialNumber(esn *ddv1.ExtendedSerialNumber) error {
+	if esn.GetSerialNumber() < 0 || esn.GetSerialNumber() > math.MaxUint32 {
+		return fmt.Errorf("serial number out of range: %d", esn.GetSerialNumber())
+	}
+	if esn.GetManufacturerCode() < 0 || esn.GetManufacturerCode() > math.MaxUint8 {
+		return fmt.Errorf("manufacturer code out of range: %d", esn.GetManufacturerCode())
+	}
+	return nil
+}
+
 // appendExtendedSerialNumberAsString appends an ExtendedSerialNumber structure as string (legacy compatibility).
 // This function maintains compatibility with existing code that expects a string representation.
 func AppendExtendedSerialNumberAsString(dst []byte, esn *ddv1.ExtendedSerialNumber, maxLen int) ([]byte, error) {
@@ -119,6 +135,10 @@ func AppendExtendedSerialNumberAsString(dst []byte, esn *ddv1.ExtendedSerialNumb
 		return nil, fmt.Errorf("extendedSerialNumber cannot be nil")
 	}
 
+	if err := checkExtendedSerialNumber(esn); err != nil {
+		return nil, err
+	}
+
 	// Create a byte slice for the extended serial number
 	serialBytes := make([]byte, 8)
 
diff --git a/internal/dd/geo_coordinates.go b/internal/dd/geo_coordinates.go
index ecd2029..68c6703 100644
--- a/internal/dd/geo_coordinates.go
+++ b/internal/dd/geo_coordinates.go
@@ -65,6 +65,11 @@ func readInt24(data []byte) int32 {
 //
 // Unknown position marker: 0x7FFFFF (8388607 decimal)
 func AppendGeoCoordinates(dst []byte, geoCoords *ddv1.GeoCoordinates) ([]byte, error) {
+	for _, val := range []int32{geoCoords.GetLatitude(), geoCoords.GetLongitude()} {
+		if val < -0x800000 || val > 0x7FFFFF {
+			return nil, fmt.Errorf("geo coordinate out of range: %d", val)
+		}
+	}
 	// Append latitude (3-byte signed integer)
 	dst = appendInt24(dst, geoCoords.GetLatitude())
 	// Append longitude (3-byte signed integer)
diff --git a/internal/dd/month_year.go b/internal/dd/month_year.go
index 5b1ff41..7d83d2b 100644
--- a/internal/dd/month_year.go
+++ b/internal/dd/month_year.go
@@ -62,30 +62,30 @@ func AppendMonthYear(dst []byte, monthYear *ddv1.MonthYear) ([]byte, error) {
 	// No nil check needed - protobuf returns zero values for nil, which are valid
 	// This function only reads primitive int32 fields (month, year) and bytes
 
-	// Use stack-allocated array for the canvas (fixed size, avoids heap allocation)
-	var canvas [lenMonthYear]byte
-
-	// Start with raw_data as canvas if available (raw data painting approach)
 	if rawData := monthYear.GetRawData(); len(rawData) > 0 {
 		if len(rawData) != lenMonthYear {
 			return nil, fmt.Errorf("invalid raw_data length for MonthYear: got %d, want %d", len(rawData), lenMonthYear)
 		}
-		copy(canvas[:], rawData)
+		// Raw bytes that are not a month and year are only kept as they are.
+		if !isBCD(rawData) && monthYear.GetMonth() == 0 && monthYear.GetYear() == 0 {
+			return append(dst, rawData...), nil
+		}
 	}
-	// Otherwise canvas is zero-initialized (Go default)
 
-	// Paint semantic values over the canvas
 	month := monthYear.GetMonth()
 	year := monthYear.GetYear()
 
-	// Convert 4-digit year to 2-digit for BCD encoding
-	year2Digit := year % 100
-
-	// Encode month as BCD
-	canvas[0] = byte(((month / 10) << 4) | (month % 10))
-
-	// Encode year as BCD
-	canvas[1] = byte(((year2Digit / 10) << 4) | (year2Digit % 10))
-
-	return append(dst, canvas[:]...), nil
+	// Convert 4-digit year to 2-digit for BCD encoding; a year of zero is an unset value.
+	if year != 0 {
+		year -= 2000
+	}
+	dst, err := appendBCD(dst, int(month), 1)
+	if err != nil {
+		return nil, fmt.Errorf("failed to append month: %w", err)
+	}
+	dst, err = appendBCD(dst, int(year), 1)
+	if err != nil {
+		return nil, fmt.Errorf("failed to append year: %w", err)
+	}
+	return dst, nil
 }
diff --git a/internal/dd/odometer.go b/internal/dd/odometer.go
index 3a59d08..ba9db71 100644
--- a/internal/dd/odometer.go
+++ b/internal/dd/odometer.go
@@ -21,6 +21,14 @@ func AppendOdometer(dst []byte, odometer uint32) []byte {
 	return append(dst, b[1:]...)
 }
 
+// appendOdometerKm appends a 3-byte odometer value, rejecting values that do not fit.
+func appendOdometerKm(dst []byte, km int32) ([]byte, error) {
+	if km < 0 || km > 0xFFFFFF {
+		return nil, fmt.Errorf("odometer value out of range: %d", km)
+	}
+	return AppendOdometer(dst, uint32(km)), nil
+}
+
 // UnmarshalOdometer unmarshals a 3-byte odometer value.
 //
 // The data type `OdometerShort` is specified in the Data Dictionary, Section 2.113.
diff --git a/internal/dd/place_record.go b/internal/dd/place_record.go
index 79f3c68..2d9cc00 100644
--- a/internal/dd/place_record.go
+++ b/internal/dd/place_record.go
@@ -89,7 +89,6 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 	}
 
 	// Paint semantic values over the canvas
-	var err error
 	timeBytes, err := AppendTimeReal(nil, rec.GetEntryTime())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append entry time: %w", err)
@@ -97,32 +96,34 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 	copy(canvas[0:4], timeBytes)
 
 	// Entry type (1 byte)
-	var entryTypeProtocol byte
-	if rec.GetEntryTypeDailyWorkPeriod() == ddv1.EntryTypeDailyWorkPeriod_ENTRY_TYPE_DAILY_WORK_PERIOD_UNRECOGNIZED {
-		entryTypeProtocol = byte(rec.GetUnrecognizedEntryTypeDailyWorkPeriod())
-	} else {
-		entryTypeProtocol, _ = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
+	entryTypeProtocol, err := marshalEnumOrUnrecognized(rec.GetEntryTypeDailyWorkPeriod(), ddv1.EntryTypeDailyWorkPeriod_ENTRY_TYPE_DAILY_WORK_PERIOD_UNRECOGNIZED, rec.GetUnrecognizedEntryTypeDailyWorkPeriod())
+	if err != nil {
+		return nil, err
 	}
 	canvas[4] = entryTypeProtocol
 
 	// Country (1 byte)
-	var countryProtocol byte
-	if rec.GetDailyWorkPeriodCountry() == ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED {
-		countryProtocol = byte(rec.GetUnrecognizedDailyWorkPeriodCountry())
-	} else {
-		countryProtocol, _ = MarshalEnum(rec.GetDailyWorkPeriodCountry())
+	countryProtocol, err := marshalEnumOrUnrecognized(rec.GetDailyWorkPeriodCountry(), ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED, rec.GetUnrecognizedDailyWorkPeriodCountry())
+	if err != nil {
+		return nil, err
 	}
 	canvas[5] = countryProtocol
 
 	// Region (1 byte)
 	regionBytes := rec.GetDailyWorkPeriodRegion()
+	if len(regionBytes) > 1 {
+		return nil, fmt.Errorf("invalid region length: got %d, want 1", len(regionBytes))
+	}
 	if len(regionBytes) > 0 {
 		canvas[6] = regionBytes[0]
 	}
 	// Otherwise leave as zero (or preserved from raw_data)
 
 	// Odometer (3 bytes)
-	odometerBytes := AppendOdometer(nil, uint32(rec.GetVehicleOdometerKm()))
+	odometerBytes, err := appendOdometerKm(nil, rec.GetVehicleOdometerKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer: %w", err)
+	}
 	copy(canvas[7:10], odometerBytes)
 
 	return append(dst, canvas[:]...), nil
diff --git a/internal/dd/place_record_g2.go b/internal/dd/place_record_g2.go
index 489dae5..d479d7c 100644
--- a/internal/dd/place_record_g2.go
+++ b/internal/dd/place_record_g2.go
@@ -97,7 +97,6 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 	}
 
 	// Paint semantic values over the canvas
-	var err error
 	timeBytes, err := AppendTimeReal(nil, rec.GetEntryTime())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append entry time: %w", err)
@@ -105,32 +104,34 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 	copy(canvas[0:4], timeBytes)
 
 	// Entry type (1 byte)
-	var entryTypeProtocol byte
-	if rec.GetEntryTypeDailyWorkPeriod() == ddv1.EntryTypeDailyWorkPeriod_ENTRY_TYPE_DAILY_WORK_PERIOD_UNRECOGNIZED {
-		entryTypeProtocol = byte(rec.GetUnrecognizedEntryTypeDailyWorkPeriod())
-	} else {
-		entryTypeProtocol, _ = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
+	entryTypeProtocol, err := marshalEnumOrUnrecognized(rec.GetEntryTypeDailyWorkPeriod(), ddv1.EntryTypeDailyWorkPeriod_ENTRY_TYPE_DAILY_WORK_PERIOD_UNRECOGNIZED, rec.GetUnrecognizedEntryTypeDailyWorkPeriod())
+	if err != nil {
+		return nil, err
 	}
 	canvas[4] = entryTypeProtocol
 
 	// Country (1 byte)
-	var countryProtocol byte
-	if rec.GetDailyWorkPeriodCountry() == ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED {
-		countryProtocol = byte(rec.GetUnrecognizedDailyWorkPeriodCountry())
-	} else {
-		countryProtocol, _ = MarshalEnum(rec.GetDailyWorkPeriodCountry())
+	countryProtocol, err := marshalEnumOrUnrecognized(rec.GetDailyWorkPeriodCountry(), ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED, rec.GetUnrecognizedDailyWorkPeriodCountry())
+	if err != nil {
+		return nil, err
 	}
 	canvas[5] = countryProtocol
 
 	// Region (1 byte)
 	regionBytes := rec.GetDailyWorkPeriodRegion()
+	if len(regionBytes) > 1 {
+		return nil, fmt.Errorf("invalid region length: got %d, want 1", len(regionBytes))
+	}
 	if len(regionBytes) > 0 {
 		canvas[6] = regionBytes[0]
 	}
 	// Otherwise leave as zero (or preserved from raw_data)
 
 	// Odometer (3 bytes)
-	odometerBytes := AppendOdometer(nil, uint32(rec.GetVehicleOdometerKm()))
+	odometerBytes, err := appendOdometerKm(nil, rec.GetVehicleOdometerKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer: %w", err)
+	}
 	copy(canvas[7:10], odometerBytes)
 
 	// GNSS place record (11 bytes)
diff --git a/internal/dd/specific_condition_record.go b/internal/dd/specific_condition_record.go
index 3dafd27..5146e70 100644
--- a/internal/dd/specific_condition_record.go
+++ b/internal/dd/specific_condition_record.go
@@ -75,15 +75,13 @@ func AppendSpecificConditionRecord(dst []byte, record *ddv1.SpecificConditionRec
 	}
 
 	// Append specificConditionType (1 byte)
-	var conditionType byte
-	if record.GetSpecificConditionType() == ddv1.SpecificConditionType_SPECIFIC_CONDITION_TYPE_UNRECOGNIZED {
-		conditionType = byte(record.GetUnrecognizedSpecificConditionType())
-	} else {
-		var err error
-		conditionType, err = MarshalEnum(record.GetSpecificConditionType())
-		if err != nil {
-			return nil, fmt.Errorf("failed to marshal condition type: %w", err)
-		}
+	conditionType, err := marshalEnumOrUnrecognized(
+		record.GetSpecificConditionType(),
+		ddv1.SpecificConditionType_SPECIFIC_CONDITION_TYPE_UNRECOGNIZED,
+		record.GetUnrecognizedSpecificConditionType(),
+	)
+	if err != nil {
+		return nil, fmt.Errorf("failed to marshal condition type: %w", err)
 	}
 	dst = append(dst, conditionType)
 
diff --git a/internal/dd/time_real.go b/internal/dd/time_real.go
index 568c20e..87bacb8 100644
--- a/internal/dd/time_real.go
+++ b/internal/dd/time_real.go
@@ -3,6 +3,7 @@ package dd
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 	"time"
 
 	"google.golang.org/protobuf/types/known/timestamppb"
@@ -41,8 +42,11 @@ func (opts UnmarshalOptions) UnmarshalTimeReal(data []byte) (*timestamppb.Timest
 // Binary Layout (4 bytes):
 //   - Seconds since Unix epoch (4 bytes): Big-endian uint32
 func AppendTimeReal(dst []byte, ts *timestamppb.Timestamp) ([]byte, error) {
-	if ts.GetNanos() > 0 {
+	if ts.GetNanos() != 0 {
 		return nil, fmt.Errorf("nanosecond resolution is not supported for TimeReal")
 	}
+	if ts.GetSeconds() < 0 || ts.GetSeconds() > math.MaxUint32 {
+		return nil, fmt.Errorf("time out of range for TimeReal: %d", ts.GetSeconds())
+	}
 	return binary.BigEndian.AppendUint32(dst, uint32(ts.GetSeconds())), nil
 }
-- 
2.43.0


From fbf396a902cab3e268092f70097990f8c8787991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 06/51] fix: keep the VIN bytes of a Gen2 vehicle record and
 its text valid UTF-8

---
 internal/dd/card_vehicle_record_g2.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/internal/dd/card_vehicle_record_g2.go b/internal/dd/card_vehicle_record_g2.go
index 2b5c263..d7f6b0f 100644
--- a/internal/dd/card_vehicle_record_g2.go
+++ b/internal/dd/card_vehicle_record_g2.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
@@ -82,7 +83,7 @@ func (opts UnmarshalOptions) UnmarshalCardVehicleRecordG2(data []byte) (*ddv1.Ca
 
 	// Parse VIN (17 bytes IA5String)
 	vinBytes := data[idxVIN : idxVIN+17]
-	vin := strings.TrimRight(string(vinBytes), "\x00 ") // Trim null bytes and spaces
+	vin := vinFromBytes(vinBytes)
 	record.SetVehicleIdentificationNumber(vin)
 
 	return record, nil
@@ -145,14 +146,25 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 	copy(canvas[29:31], vuDataBlockCounterBytes)
 
 	// VIN (17 bytes IA5String)
+	// Keep the remembered bytes (padding included) as long as they hold the same VIN.
 	vin := record.GetVehicleIdentificationNumber()
-	vinBytes := make([]byte, 17)
-	copy(vinBytes, []byte(vin))
-	// Pad with spaces if shorter than 17 bytes
-	for i := len(vin); i < 17; i++ {
-		vinBytes[i] = ' '
+	if !record.HasRawData() || vinFromBytes(canvas[31:48]) != vin {
+		vinValue := &ddv1.Ia5StringValue{}
+		vinValue.SetValue(vin)
+		vinValue.SetLength(17)
+		vinBytes, err := AppendIa5StringValue(nil, vinValue)
+		if err != nil {
+			return nil, fmt.Errorf("failed to append vehicle identification number: %w", err)
+		}
+		copy(canvas[31:48], vinBytes)
 	}
-	copy(canvas[31:48], vinBytes)
 
 	return append(dst, canvas[:]...), nil
 }
+
+// vinFromBytes returns the VIN held by an IA5String field, without trailing padding.
+// The result is always valid UTF-8.
+func vinFromBytes(data []byte) string {
+	vin := strings.TrimRight(string(data), "\x00 ")
+	return strings.ToValidUTF8(vin, string(utf8.RuneError))
+}
-- 
2.43.0


From ad6352a8ff781ad0ac7aba843dd82582ec8d7ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 07/51] fix: read and write full card numbers of every card
 type with their nation code and indices

---
 internal/dd/full_card_number.go | 70 ++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index b68eb1d..f6e8038 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -45,20 +45,34 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 	cardNumber.SetCardType(cardType)
 
 	// Parse issuing member state (1 byte)
-	issuingState := data[1]
-	cardNumber.SetCardIssuingMemberState(ddv1.NationNumeric(issuingState))
+	if issuingState, err := UnmarshalEnum[ddv1.NationNumeric](data[1]); err == nil {
+		cardNumber.SetCardIssuingMemberState(issuingState)
+	} else {
+		// Value not recognized - set UNRECOGNIZED (no unrecognized field for this type)
+		cardNumber.SetCardIssuingMemberState(ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED)
+	}
 
 	// Parse card number based on card type (16 bytes, may have padding)
 	cardNumberData := data[2:18]
 	switch cardType {
 	case ddv1.EquipmentType_DRIVER_CARD:
-		// DriverIdentification is 14 bytes + 2 bytes padding
+		// DriverIdentification is 14 bytes + 1 byte replacement index + 1 byte renewal index
 		driverID, err := opts.UnmarshalDriverIdentification(cardNumberData[:14])
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse driver identification: %w", err)
 		}
+		replacementIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[14:15])
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse card replacement index: %w", err)
+		}
+		driverID.SetCardReplacementIndex(replacementIndex)
+		renewalIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[15:16])
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse card renewal index: %w", err)
+		}
+		driverID.SetCardRenewalIndex(renewalIndex)
 		cardNumber.SetDriverIdentification(driverID)
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		// OwnerIdentification is 16 bytes (no padding)
 		ownerID, err := opts.UnmarshalOwnerIdentification(cardNumberData)
 		if err != nil {
@@ -106,37 +120,39 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 	dst = append(dst, cardTypeByte)
 
 	// Append issuing member state (1 byte)
-	dst = append(dst, byte(cardNumber.GetCardIssuingMemberState()))
+	issuingStateByte, err := MarshalEnum(cardNumber.GetCardIssuingMemberState())
+	if err != nil {
+		return nil, fmt.Errorf("failed to marshal card issuing member state: %w", err)
+	}
+	dst = append(dst, issuingStateByte)
 
 	// Append card number based on card type (16 bytes with padding if needed)
 	switch cardNumber.GetCardType() {
 	case ddv1.EquipmentType_DRIVER_CARD:
-		if driverID := cardNumber.GetDriverIdentification(); driverID != nil {
-			// DriverIdentification is 14 bytes, pad to 16
-			dst, err = AppendDriverIdentification(dst, driverID)
-			if err != nil {
-				return nil, fmt.Errorf("failed to append driver identification: %w", err)
-			}
-			// Add 2 bytes padding
-			dst = append(dst, 0x00, 0x00)
-		} else {
-			// Empty driver ID: 16 zero bytes
-			dst = append(dst, make([]byte, 16)...)
+		// DriverIdentification is 14 bytes, followed by the two indices
+		driverID := cardNumber.GetDriverIdentification()
+		dst, err = AppendDriverIdentification(dst, driverID)
+		if err != nil {
+			return nil, fmt.Errorf("failed to append driver identification: %w", err)
 		}
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
-		if ownerID := cardNumber.GetOwnerIdentification(); ownerID != nil {
-			// OwnerIdentification is 16 bytes (no padding needed)
-			dst, err = AppendOwnerIdentification(dst, ownerID)
+		for _, index := range []*ddv1.Ia5StringValue{driverID.GetCardReplacementIndex(), driverID.GetCardRenewalIndex()} {
+			if index == nil {
+				dst = append(dst, 0x00)
+				continue
+			}
+			dst, err = AppendFixedIa5StringValue(dst, index, 1)
 			if err != nil {
-				return nil, fmt.Errorf("failed to append owner identification: %w", err)
+				return nil, fmt.Errorf("failed to append driver card index: %w", err)
 			}
-		} else {
-			// Empty owner ID: 16 zero bytes
-			dst = append(dst, make([]byte, 16)...)
+		}
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
+		// OwnerIdentification is 16 bytes (no padding needed)
+		dst, err = AppendOwnerIdentification(dst, cardNumber.GetOwnerIdentification())
+		if err != nil {
+			return nil, fmt.Errorf("failed to append owner identification: %w", err)
 		}
 	default:
-		// Unknown card type: 16 zero bytes
-		dst = append(dst, make([]byte, 16)...)
+		return nil, fmt.Errorf("unsupported card type: %v", cardNumber.GetCardType())
 	}
 
 	return dst, nil
@@ -155,7 +171,7 @@ func AppendFullCardNumberAsString(dst []byte, cardNumber *ddv1.FullCardNumber, m
 		if driverID := cardNumber.GetDriverIdentification(); driverID != nil {
 			return AppendIa5StringValue(dst, driverID.GetDriverIdentificationNumber())
 		}
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		if ownerID := cardNumber.GetOwnerIdentification(); ownerID != nil {
 			return AppendIa5StringValue(dst, ownerID.GetOwnerIdentification())
 		}
-- 
2.43.0


From 44c259a071a96cca0e930c897eba73bf7f2b8948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 08/51] fix: decode the control card number and control type of
 control activity data

---
 internal/card/control_activity.go | 72 +++++++++----------------------
 1 file changed, 20 insertions(+), 52 deletions(-)

diff --git a/internal/card/control_activity.go b/internal/card/control_activity.go
index 3810245..6eaaab7 100644
--- a/internal/card/control_activity.go
+++ b/internal/card/control_activity.go
@@ -29,8 +29,8 @@ func (opts UnmarshalOptions) unmarshalControlActivityData(data []byte) (*cardv1.
 		lenCardControlActivityDataRecord = 46 // CardControlActivityDataRecord total size
 	)
 
-	if len(data) < lenCardControlActivityDataRecord {
-		return nil, fmt.Errorf("insufficient data for control activity data")
+	if len(data) != lenCardControlActivityDataRecord {
+		return nil, fmt.Errorf("invalid data length for control activity data: got %d, want %d", len(data), lenCardControlActivityDataRecord)
 	}
 	var target cardv1.ControlActivityData
 	controlTime := binary.BigEndian.Uint32(data[1:5])
@@ -65,31 +65,21 @@ func (opts UnmarshalOptions) unmarshalControlActivityData(data []byte) (*cardv1.
 	target.SetControlTime(controlTimestamp)
 	offset += 4
 
-	// Read control card number (18 bytes) - this should be parsed as a proper FullCardNumberAndGeneration
-	// For now, create a basic structure - this needs proper protocol parsing
+	// Read control card number (18 bytes)
 	fullCardNumberAndGeneration := &ddv1.FullCardNumberAndGeneration{}
-
-	fullCardNumber := &ddv1.FullCardNumber{}
-	fullCardNumber.SetCardType(ddv1.EquipmentType_DRIVER_CARD)
-
-	// Read the card number as IA5 string
-	if offset+18 > len(data) {
-		return nil, fmt.Errorf("insufficient data for control card number")
-	}
-	cardNumberStr, err := opts.UnmarshalIa5StringValue(data[offset : offset+18])
+	fullCardNumber, err := opts.UnmarshalFullCardNumber(data[offset : offset+18])
 	if err != nil {
-		return nil, fmt.Errorf("failed to read control card number: %w", err)
+		// Not a card number that can be represented: keep the record as raw data only.
+		var invalid cardv1.ControlActivityData
+		invalid.SetValid(false)
+		invalid.SetRawData(data)
+		return &invalid, nil
 	}
 	offset += 18
 
-	// Create driver identification with the card number
-	driverID := &ddv1.DriverIdentification{}
-	driverID.SetDriverIdentificationNumber(cardNumberStr)
-	fullCardNumber.SetDriverIdentification(driverID)
-
 	// Set the full card number in the generation wrapper
 	fullCardNumberAndGeneration.SetFullCardNumber(fullCardNumber)
-	// Default to Generation 1 for now - this should be determined from context
+	// The record does not hold the generation of the control card
 	fullCardNumberAndGeneration.SetGeneration(ddv1.Generation_GENERATION_1)
 
 	target.SetControlCardNumber(fullCardNumberAndGeneration)
@@ -153,52 +143,30 @@ func appendCardControlActivityData(data []byte, controlData *cardv1.ControlActiv
 		// Non-valid record: use preserved raw data
 		rawData := controlData.GetRawData()
 		if len(rawData) != 46 {
-			// Fallback to zeros if raw data is invalid
-			return append(data, make([]byte, 46)...), nil
+			return nil, fmt.Errorf("invalid raw_data length for control activity data: got %d, want 46", len(rawData))
 		}
 		return append(data, rawData...), nil
 	}
 
 	// Valid record: serialize semantic data
 	// Control type (1 byte)
-	controlType := controlData.GetControlType()
-	var controlTypeByte byte
-	if controlType != nil {
-		// Build bitmask from boolean fields
-		// Structure: 'cvpdexxx'B
-		// - 'c': card downloading
-		// - 'v': VU downloading
-		// - 'p': printing
-		// - 'd': display
-		// - 'e': calibration checking
-		if controlType.GetCardDownloading() {
-			controlTypeByte |= 0x80 // bit 7
-		}
-		if controlType.GetVuDownloading() {
-			controlTypeByte |= 0x40 // bit 6
-		}
-		if controlType.GetPrinting() {
-			controlTypeByte |= 0x20 // bit 5
-		}
-		if controlType.GetDisplay() {
-			controlTypeByte |= 0x10 // bit 4
-		}
-		if controlType.GetCalibrationChecking() {
-			controlTypeByte |= 0x08 // bit 3
-		}
-	}
-	data = append(data, controlTypeByte)
-
 	var err error
+	data, err = dd.AppendControlType(data, controlData.GetControlType())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append control type: %w", err)
+	}
 
-	// Control time (4 bytes)
+	// Control time (4 bytes); a zero time marks a record as not valid
+	if controlData.GetControlTime().GetSeconds() == 0 {
+		return nil, fmt.Errorf("control time is missing from valid control activity data")
+	}
 	data, err = dd.AppendTimeReal(data, controlData.GetControlTime())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append control time: %w", err)
 	}
 
 	// Control card number (18 bytes)
-	data, err = dd.AppendFullCardNumberAsString(data, controlData.GetControlCardNumber().GetFullCardNumber(), 18)
+	data, err = dd.AppendFullCardNumber(data, controlData.GetControlCardNumber().GetFullCardNumber())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From f84780065086977d4ca0d18352ea973d52d441f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 09/51] fix: write every driver card file once with its own
 signature and reject wrong lengths

Signatures were always written as 128 zero bytes, the Gen2 identification,
licence, events, faults, activity, usage, control and download files were
not written at all, and lengths that do not fit a record were truncated.
---
 internal/card/card_download.go    |   4 +-
 internal/card/current_usage.go    |   4 +-
 internal/card/driver_card_file.go | 201 ++++++++++++++----------------
 internal/card/driving_licence.go  |   9 +-
 internal/card/identification.go   | 129 +++++++++----------
 internal/card/rawcardfile.go      |  13 +-
 6 files changed, 176 insertions(+), 184 deletions(-)

diff --git a/internal/card/card_download.go b/internal/card/card_download.go
index a0aa448..9db670f 100644
--- a/internal/card/card_download.go
+++ b/internal/card/card_download.go
@@ -20,8 +20,8 @@ func (opts UnmarshalOptions) unmarshalCardDownload(data []byte) (*cardv1.CardDow
 		lenCardDownloadDriver = 4 // TimeReal size
 	)
 
-	if len(data) < lenCardDownloadDriver {
-		return nil, fmt.Errorf("insufficient data for card download")
+	if len(data) != lenCardDownloadDriver {
+		return nil, fmt.Errorf("invalid data length for card download: got %d, want %d", len(data), lenCardDownloadDriver)
 	}
 
 	var target cardv1.CardDownloadDriver
diff --git a/internal/card/current_usage.go b/internal/card/current_usage.go
index a6de7f7..fb0cf35 100644
--- a/internal/card/current_usage.go
+++ b/internal/card/current_usage.go
@@ -23,8 +23,8 @@ func (opts UnmarshalOptions) unmarshalCurrentUsage(data []byte) (*cardv1.Current
 		lenCardCurrentUse = 19 // 4 bytes time + 15 bytes vehicle registration
 	)
 
-	if len(data) < lenCardCurrentUse {
-		return nil, fmt.Errorf("insufficient data for current usage")
+	if len(data) != lenCardCurrentUse {
+		return nil, fmt.Errorf("invalid data length for current usage: got %d, want %d", len(data), lenCardCurrentUse)
 	}
 	var target cardv1.CurrentUsage
 	offset := 0
diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index cdc72d2..c527e8b 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 
 	"google.golang.org/protobuf/proto"
@@ -663,22 +664,9 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 	}
 
 	// 4. EF_IDENTIFICATION (0x0520) - composite file
-	if identification := card.GetTachograph().GetIdentification(); identification != nil {
-		valBuf := make([]byte, 0, 143)
-		valBuf, err = appendCardIdentification(valBuf, identification.GetCard())
-		if err != nil {
-			return nil, err
-		}
-		valBuf, err = appendDriverCardHolderIdentification(valBuf, identification.GetDriverCardHolder())
-		if err != nil {
-			return nil, err
-		}
-		dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, &compositeMessage{data: valBuf}, func(dst []byte, msg *compositeMessage) ([]byte, error) {
-			return append(dst, msg.data...), nil
-		})
-		if err != nil {
-			return nil, err
-		}
+	dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, card.GetTachograph().GetIdentification(), appendIdentification)
+	if err != nil {
+		return nil, err
 	}
 
 	dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_EVENTS_DATA, card.GetTachograph().GetEventsData(), appendEventsData)
@@ -736,6 +724,31 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 			return nil, err
 		}
 
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_DRIVING_LICENCE_INFO, tachographG2.GetDrivingLicenceInfo(), appendDrivingLicenceInfo)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, tachographG2.GetIdentification(), appendIdentification)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_EVENTS_DATA, tachographG2.GetEventsData(), appendEventsData)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_FAULTS_DATA, tachographG2.GetFaultsData(), appendFaultsData)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_DRIVER_ACTIVITY_DATA, tachographG2.GetDriverActivityData(), appendDriverActivity)
+		if err != nil {
+			return nil, err
+		}
+
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_VEHICLES_USED, tachographG2.GetVehiclesUsed(), appendVehiclesUsedG2)
 		if err != nil {
 			return nil, err
@@ -746,12 +759,27 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 			return nil, err
 		}
 
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_CURRENT_USAGE, tachographG2.GetCurrentUsage(), appendCurrentUsage)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_CONTROL_ACTIVITY_DATA, tachographG2.GetControlActivityData(), appendCardControlActivityData)
+		if err != nil {
+			return nil, err
+		}
+
 		// SpecificConditions (Gen2)
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_SPECIFIC_CONDITIONS, tachographG2.GetSpecificConditions(), appendCardSpecificConditionsG2)
 		if err != nil {
 			return nil, err
 		}
 
+		dst, err = appendTlvUnsignedG2(dst, cardv1.ElementaryFileType_EF_CARD_DOWNLOAD_DRIVER, tachographG2.GetCardDownload(), appendCardDownload)
+		if err != nil {
+			return nil, err
+		}
+
 		// Marshal Gen2-exclusive EFs
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_VEHICLE_UNITS_USED, tachographG2.GetVehicleUnitsUsed(), appendCardVehicleUnitsUsed)
 		if err != nil {
@@ -840,22 +868,15 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 	return dst, nil
 }
 
-// compositeMessage is a helper type for marshalling composite TLV values
-type compositeMessage struct {
-	data []byte
-}
-
-// ProtoReflect implements proto.Message
-func (m *compositeMessage) ProtoReflect() protoreflect.Message {
-	return nil // Not needed for our use case
-}
-
 // appendCertificateEF appends a Gen1 certificate EF (which are not signed)
 // Uses appendix 0x00 for Gen1 DF (Tachograph)
 func appendCertificateEF(dst []byte, fileType cardv1.ElementaryFileType, certData []byte) ([]byte, error) {
 	if len(certData) == 0 {
 		return dst, nil // Skip empty certificates
 	}
+	if len(certData) > math.MaxUint16 {
+		return nil, fmt.Errorf("%v of %d bytes does not fit a record", fileType, len(certData))
+	}
 
 	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
 	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
@@ -876,6 +897,9 @@ func appendCertificateEFG2(dst []byte, fileType cardv1.ElementaryFileType, certD
 	if len(certData) == 0 {
 		return dst, nil // Skip empty certificates
 	}
+	if len(certData) > math.MaxUint16 {
+		return nil, fmt.Errorf("%v of %d bytes does not fit a record", fileType, len(certData))
+	}
 
 	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
 	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
@@ -890,93 +914,24 @@ func appendCertificateEFG2(dst []byte, fileType cardv1.ElementaryFileType, certD
 	return dst, nil
 }
 
-// appendTlv is a generic helper for writing TLV records with zero value-allocation.
+// appendTlv writes a Gen1 DF (Tachograph) EF, followed by its signature if it has one.
 func appendTlv[T proto.Message](
 	dst []byte,
 	fileType cardv1.ElementaryFileType,
 	msg T,
 	appenderFunc func([]byte, T) ([]byte, error),
 ) ([]byte, error) {
-	// Use reflection to check if the message is nil
-	msgValue := reflect.ValueOf(msg)
-	if !msgValue.IsValid() || (msgValue.Kind() == reflect.Ptr && msgValue.IsNil()) {
-		return dst, nil // Don't write anything if the message is nil
-	}
-
-	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
-	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
-
-	// Write data tag (FID + appendix 0x00) first
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x00) // appendix for data
-
-	// Placeholder for length
-	lenPos := len(dst)
-	dst = binary.BigEndian.AppendUint16(dst, 0) // Will be updated later
-
-	valPos := len(dst)
-
-	var err error
-	dst, err = appenderFunc(dst, msg)
-	if err != nil {
-		return nil, err
-	}
-
-	valLen := len(dst) - valPos
-
-	// Update the length field
-	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
-
-	// Add signature block (FID + appendix 0x01, 128 bytes of zeros for now)
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x01)                       // appendix for signature
-	dst = binary.BigEndian.AppendUint16(dst, 128) // Signature length
-	// Add 128 bytes of signature data (zeros for now)
-	signature := make([]byte, 128)
-	dst = append(dst, signature...)
-
-	return dst, nil
+	return appendTlvRecords(dst, fileType, 0x00, msg, appenderFunc)
 }
 
-// appendTlvUnsigned is like appendTlv but doesn't add a signature block
+// appendTlvUnsigned is like appendTlv, for EFs that never have a signature.
 func appendTlvUnsigned[T proto.Message](
 	dst []byte,
 	fileType cardv1.ElementaryFileType,
 	msg T,
 	appenderFunc func([]byte, T) ([]byte, error),
 ) ([]byte, error) {
-	// Use reflection to check if the message is nil
-	msgValue := reflect.ValueOf(msg)
-	if !msgValue.IsValid() || (msgValue.Kind() == reflect.Ptr && msgValue.IsNil()) {
-		return dst, nil // Don't write anything if the message is nil
-	}
-
-	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
-	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
-
-	// Write data tag (FID + appendix 0x00) first
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x00) // appendix for data
-
-	// Placeholder for length
-	lenPos := len(dst)
-	dst = binary.BigEndian.AppendUint16(dst, 0) // Will be updated later
-
-	valPos := len(dst)
-
-	var err error
-	dst, err = appenderFunc(dst, msg)
-	if err != nil {
-		return nil, err
-	}
-
-	valLen := len(dst) - valPos
-
-	// Update the length field
-	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
-
-	// No signature block for unsigned EFs
-	return dst, nil
+	return appendTlvRecords(dst, fileType, 0x00, msg, appenderFunc)
 }
 
 // appendTlvG2 is like appendTlv but uses Gen2 DF appendix (0x02/0x03 instead of 0x00/0x01)
@@ -985,6 +940,28 @@ func appendTlvG2[T proto.Message](
 	fileType cardv1.ElementaryFileType,
 	msg T,
 	appenderFunc func([]byte, T) ([]byte, error),
+) ([]byte, error) {
+	return appendTlvRecords(dst, fileType, 0x02, msg, appenderFunc)
+}
+
+// appendTlvUnsignedG2 is like appendTlvG2, for EFs that never have a signature.
+func appendTlvUnsignedG2[T proto.Message](
+	dst []byte,
+	fileType cardv1.ElementaryFileType,
+	msg T,
+	appenderFunc func([]byte, T) ([]byte, error),
+) ([]byte, error) {
+	return appendTlvRecords(dst, fileType, 0x02, msg, appenderFunc)
+}
+
+// appendTlvRecords writes the data record of an EF and, if the message carries a
+// signature, the signature record that directly follows it.
+func appendTlvRecords[T proto.Message](
+	dst []byte,
+	fileType cardv1.ElementaryFileType,
+	appendix byte,
+	msg T,
+	appenderFunc func([]byte, T) ([]byte, error),
 ) ([]byte, error) {
 	// Use reflection to check if the message is nil
 	msgValue := reflect.ValueOf(msg)
@@ -995,9 +972,9 @@ func appendTlvG2[T proto.Message](
 	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
 	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
 
-	// Write data tag (FID + appendix 0x02) first - Gen2 DF
+	// Write data tag (FID + appendix) first
 	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x02) // appendix for Gen2 data
+	dst = append(dst, appendix)
 
 	// Placeholder for length
 	lenPos := len(dst)
@@ -1012,16 +989,28 @@ func appendTlvG2[T proto.Message](
 	}
 
 	valLen := len(dst) - valPos
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("%v of %d bytes does not fit a record", fileType, valLen)
+	}
 
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
 
-	// Add signature block (FID + appendix 0x03, 128 bytes of zeros for now) - Gen2 DF
+	// Add the signature record (FID + appendix with the lowest bit set)
+	signed, ok := any(msg).(interface {
+		HasSignature() bool
+		GetSignature() []byte
+	})
+	if !ok || !signed.HasSignature() {
+		return dst, nil
+	}
+	signature := signed.GetSignature()
+	if len(signature) > math.MaxUint16 {
+		return nil, fmt.Errorf("signature of %v with %d bytes does not fit a record", fileType, len(signature))
+	}
 	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x03)                       // appendix for Gen2 signature
-	dst = binary.BigEndian.AppendUint16(dst, 128) // Signature length
-	// Add 128 bytes of signature data (zeros for now)
-	signature := make([]byte, 128)
+	dst = append(dst, appendix|0x01)
+	dst = binary.BigEndian.AppendUint16(dst, uint16(len(signature)))
 	dst = append(dst, signature...)
 
 	return dst, nil
diff --git a/internal/card/driving_licence.go b/internal/card/driving_licence.go
index 9b044ce..3aa1cea 100644
--- a/internal/card/driving_licence.go
+++ b/internal/card/driving_licence.go
@@ -1,7 +1,6 @@
 package card
 
 import (
-	"errors"
 	"fmt"
 
 	"github.com/way-platform/tachograph-go/internal/dd"
@@ -26,8 +25,8 @@ func (opts UnmarshalOptions) unmarshalDrivingLicenceInfo(data []byte) (*cardv1.D
 		lenCardDrivingLicenceInformation = 53 // CardDrivingLicenceInformation total size
 	)
 
-	if len(data) < lenCardDrivingLicenceInformation {
-		return nil, errors.New("not enough data for DrivingLicenceInfo")
+	if len(data) != lenCardDrivingLicenceInformation {
+		return nil, fmt.Errorf("invalid data length for DrivingLicenceInfo: got %d, want %d", len(data), lenCardDrivingLicenceInformation)
 	}
 	var dli cardv1.DrivingLicenceInfo
 	offset := 0
@@ -85,7 +84,7 @@ func appendDrivingLicenceInfo(dst []byte, dli *cardv1.DrivingLicenceInfo) ([]byt
 		return dst, nil
 	}
 	var err error
-	dst, err = dd.AppendStringValue(dst, dli.GetDrivingLicenceIssuingAuthority())
+	dst, err = dd.AppendFixedStringValue(dst, dli.GetDrivingLicenceIssuingAuthority(), 36)
 	if err != nil {
 		return nil, err
 	}
@@ -95,7 +94,7 @@ func appendDrivingLicenceInfo(dst []byte, dli *cardv1.DrivingLicenceInfo) ([]byt
 		return nil, fmt.Errorf("failed to marshal nation: %w", err)
 	}
 	dst = append(dst, nationByte)
-	dst, err = dd.AppendIa5StringValue(dst, dli.GetDrivingLicenceNumber())
+	dst, err = dd.AppendFixedIa5StringValue(dst, dli.GetDrivingLicenceNumber(), 16)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append driving licence number: %w", err)
 	}
diff --git a/internal/card/identification.go b/internal/card/identification.go
index fd549cc..be59d81 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -1,7 +1,6 @@
 package card
 
 import (
-	"errors"
 	"fmt"
 
 	"github.com/way-platform/tachograph-go/internal/dd"
@@ -43,11 +42,11 @@ func createIA5StringValue(value string, length int32) *ddv1.Ia5StringValue {
 //	}
 func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Identification, error) {
 	const (
-		lenMinIdentification = 143 // Minimum size for EF_Identification
+		lenIdentification = 143 // Size of EF_Identification of a driver card
 	)
 
-	if len(data) < lenMinIdentification {
-		return nil, errors.New("not enough data for EF_Identification")
+	if len(data) != lenIdentification {
+		return nil, fmt.Errorf("invalid data length for EF_Identification: got %d, want %d", len(data), lenIdentification)
 	}
 
 	var identification cardv1.Identification
@@ -277,6 +276,40 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 	return &identification, nil
 }
 
+// appendIdentification appends the binary representation of a driver card's
+// EF_Identification to dst: CardIdentification and DriverCardHolderIdentification.
+func appendIdentification(dst []byte, id *cardv1.Identification) ([]byte, error) {
+	if id.GetCard() == nil {
+		return nil, fmt.Errorf("missing card identification")
+	}
+	if id.GetDriverCardHolder() == nil {
+		return nil, fmt.Errorf("missing driver card holder identification")
+	}
+	dst, err := appendCardIdentification(dst, id.GetCard())
+	if err != nil {
+		return nil, err
+	}
+	return appendDriverCardHolderIdentification(dst, id.GetDriverCardHolder())
+}
+
+// appendCardNumberText appends a part of a card number that occupies exactly size bytes.
+// The remembered bytes are used as long as they still stand for the value.
+func appendCardNumberText(dst []byte, sv *ddv1.Ia5StringValue, size int) ([]byte, error) {
+	if sv == nil {
+		return nil, fmt.Errorf("missing value of %d bytes", size)
+	}
+	if raw := sv.GetRawData(); len(raw) == size {
+		remembered, err := (dd.UnmarshalOptions{}).UnmarshalIa5StringValue(raw)
+		if err != nil {
+			return nil, err
+		}
+		if remembered.GetValue() == sv.GetValue() {
+			return append(dst, raw...), nil
+		}
+	}
+	return dd.AppendFixedIa5StringValue(dst, createIA5StringValue(sv.GetValue(), int32(size)), size)
+}
+
 // AppendCardIdentification appends the binary representation of CardIdentification to dst.
 //
 // The data type `CardIdentification` is specified in the Data Dictionary, Section 2.1.
@@ -327,77 +360,39 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 	//     }
 	// }
 	// Total size is always 16 bytes
-	cardNumberBytes := make([]byte, 16)
 	if driverID := id.GetDriverIdentification(); driverID != nil {
 		// Driver card: 14 bytes identification + 1 byte replacement + 1 byte renewal
-		identification := driverID.GetDriverIdentificationNumber()
-		if identification != nil {
-			// Pad or truncate to exactly 14 bytes
-			identStr := identification.GetValue()
-			if len(identStr) > 14 {
-				identStr = identStr[:14]
-			}
-			copy(cardNumberBytes[0:14], []byte(identStr))
-			// Pad with spaces if needed
-			for i := len(identStr); i < 14; i++ {
-				cardNumberBytes[i] = ' '
-			}
+		dst, err = appendCardNumberText(dst, driverID.GetDriverIdentificationNumber(), 14)
+		if err != nil {
+			return nil, fmt.Errorf("failed to append driver identification number: %w", err)
 		}
 		// Write replacement and renewal indices (1 byte each)
-		replacementIndex := driverID.GetCardReplacementIndex()
-		if replacementIndex != nil && len(replacementIndex.GetValue()) > 0 {
-			cardNumberBytes[14] = replacementIndex.GetValue()[0]
-		} else {
-			cardNumberBytes[14] = '0' // Default replacement index
-		}
-		renewalIndex := driverID.GetCardRenewalIndex()
-		if renewalIndex != nil && len(renewalIndex.GetValue()) > 0 {
-			cardNumberBytes[15] = renewalIndex.GetValue()[0]
-		} else {
-			cardNumberBytes[15] = '0' // Default renewal index
-		}
-	} else if ownerID := id.GetOwnerIdentification(); ownerID != nil {
-		// Other cards: 13 bytes identification + 1 byte consecutive + 1 byte replacement + 1 byte renewal
-		identification := ownerID.GetOwnerIdentification()
-		if identification != nil {
-			// Pad or truncate to exactly 13 bytes
-			identStr := identification.GetValue()
-			if len(identStr) > 13 {
-				identStr = identStr[:13]
+		for _, index := range []*ddv1.Ia5StringValue{driverID.GetCardReplacementIndex(), driverID.GetCardRenewalIndex()} {
+			if index == nil {
+				dst = append(dst, '0') // Default index
+				continue
 			}
-			copy(cardNumberBytes[0:13], []byte(identStr))
-			// Pad with spaces if needed
-			for i := len(identStr); i < 13; i++ {
-				cardNumberBytes[i] = ' '
-			}
-		}
-		consecutive := ownerID.GetConsecutiveIndex()
-		if consecutive != nil {
-			// Convert string to byte value
-			consecutiveStr := consecutive.GetValue()
-			if len(consecutiveStr) > 0 {
-				cardNumberBytes[13] = consecutiveStr[0]
+			dst, err = appendCardNumberText(dst, index, 1)
+			if err != nil {
+				return nil, fmt.Errorf("failed to append driver card index: %w", err)
 			}
 		}
-		replacement := ownerID.GetReplacementIndex()
-		if replacement != nil {
-			// Convert string to byte value
-			replacementStr := replacement.GetValue()
-			if len(replacementStr) > 0 {
-				cardNumberBytes[14] = replacementStr[0]
-			}
+	} else if ownerID := id.GetOwnerIdentification(); ownerID != nil {
+		// Other cards: 13 bytes identification + 1 byte consecutive + 1 byte replacement + 1 byte renewal
+		dst, err = appendCardNumberText(dst, ownerID.GetOwnerIdentification(), 13)
+		if err != nil {
+			return nil, fmt.Errorf("failed to append owner identification: %w", err)
 		}
-		renewal := ownerID.GetRenewalIndex()
-		if renewal != nil {
-			// Convert string to byte value
-			renewalStr := renewal.GetValue()
-			if len(renewalStr) > 0 {
-				cardNumberBytes[15] = renewalStr[0]
+		for _, index := range []*ddv1.Ia5StringValue{ownerID.GetConsecutiveIndex(), ownerID.GetReplacementIndex(), ownerID.GetRenewalIndex()} {
+			dst, err = appendCardNumberText(dst, index, 1)
+			if err != nil {
+				return nil, fmt.Errorf("failed to append owner card index: %w", err)
 			}
 		}
+	} else {
+		return nil, fmt.Errorf("missing card number")
 	}
-	dst = append(dst, cardNumberBytes...)
-	dst, err = dd.AppendStringValue(dst, id.GetCardIssuingAuthorityName())
+	dst, err = dd.AppendFixedStringValue(dst, id.GetCardIssuingAuthorityName(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card issuing authority name: %w", err)
 	}
@@ -434,11 +429,11 @@ func appendDriverCardHolderIdentification(dst []byte, h *cardv1.Identification_D
 	}
 	var err error
 	nameBlock := make([]byte, 0, 72)
-	nameBlock, err = dd.AppendStringValue(nameBlock, h.GetCardHolderSurname())
+	nameBlock, err = dd.AppendFixedStringValue(nameBlock, h.GetCardHolderSurname(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card holder surname: %w", err)
 	}
-	nameBlock, err = dd.AppendStringValue(nameBlock, h.GetCardHolderFirstNames())
+	nameBlock, err = dd.AppendFixedStringValue(nameBlock, h.GetCardHolderFirstNames(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card holder first names: %w", err)
 	}
@@ -455,7 +450,7 @@ func appendDriverCardHolderIdentification(dst []byte, h *cardv1.Identification_D
 		dst = append(dst, 0x00, 0x00, 0x00, 0x00)
 	}
 
-	dst, err = dd.AppendIa5StringValue(dst, h.GetCardHolderPreferredLanguage())
+	dst, err = dd.AppendFixedIa5StringValue(dst, h.GetCardHolderPreferredLanguage(), 2)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append preferred language: %w", err)
 	}
diff --git a/internal/card/rawcardfile.go b/internal/card/rawcardfile.go
index 3091a9f..ef28156 100644
--- a/internal/card/rawcardfile.go
+++ b/internal/card/rawcardfile.go
@@ -4,7 +4,9 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"io"
+	"math"
 
 	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
@@ -34,12 +36,19 @@ func UnmarshalRawCardFile(input []byte) (*cardv1.RawCardFile, error) {
 // MarshalRawCardFile serializes a RawCardFile into binary format.
 func MarshalRawCardFile(file *cardv1.RawCardFile) ([]byte, error) {
 	var result []byte
-	for _, record := range file.GetRecords() {
+	for i, record := range file.GetRecords() {
+		if record.GetTag() < 0 || record.GetTag() > 0xFFFFFF {
+			return nil, fmt.Errorf("record %d: tag %#x does not fit three bytes", i, record.GetTag())
+		}
+		length := len(record.GetValue())
+		if length > math.MaxUint16 || int(record.GetLength()) != length {
+			return nil, fmt.Errorf("record %d: length %d does not describe its value of %d bytes", i, record.GetLength(), length)
+		}
 		// Write tag (FID + appendix)
 		result = binary.BigEndian.AppendUint16(result, uint16(record.GetTag()>>8))
 		result = append(result, byte(record.GetTag()&0xFF))
 		// Write length
-		result = binary.BigEndian.AppendUint16(result, uint16(record.GetLength()))
+		result = binary.BigEndian.AppendUint16(result, uint16(length))
 		// Write value
 		result = append(result, record.GetValue()...)
 	}
-- 
2.43.0


From ab33d2d1a111c6b5af457a15cb89117636931c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 10/51] fix: read application identification V2 as laid out,
 reject identity values that do not fit

EF_Application_Identification_V2 is five two-byte numbers, not four single
bytes. Counts and identifiers that do not fit were truncated.
---
 internal/card/append.go                       |  23 ++++
 internal/card/application_identification.go   |  49 ++++----
 .../card/application_identification_g2.go     |  80 +++++-------
 .../card/application_identification_v2.go     | 116 ++++++------------
 internal/card/ic.go                           |  26 ++--
 internal/card/icc.go                          |  24 ++--
 6 files changed, 135 insertions(+), 183 deletions(-)
 create mode 100644 internal/card/append.go

diff --git a/internal/card/append.go b/internal/card/append.go
new file mode 100644
index 0000000..01d0795
--- /dev/null
+++ b/internal/card/append.go
@@ -0,0 +1,23 @@
+package card
+
+import (
+	"encoding/binary"
+	"fmt"
+	"math"
+)
+
+// appendUint8 appends a number that occupies one byte.
+func appendUint8(dst []byte, value int32) ([]byte, error) {
+	if value < 0 || value > math.MaxUint8 {
+		return nil, fmt.Errorf("number %d does not fit one byte", value)
+	}
+	return append(dst, byte(value)), nil
+}
+
+// appendUint16 appends a number that occupies two bytes.
+func appendUint16(dst []byte, value int32) ([]byte, error) {
+	if value < 0 || value > math.MaxUint16 {
+		return nil, fmt.Errorf("number %d does not fit two bytes", value)
+	}
+	return binary.BigEndian.AppendUint16(dst, uint16(value)), nil
+}
diff --git a/internal/card/application_identification.go b/internal/card/application_identification.go
index 83f9c40..da58c0e 100644
--- a/internal/card/application_identification.go
+++ b/internal/card/application_identification.go
@@ -130,7 +130,10 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Type of tachograph card ID (1 byte)
 	if appId.HasTypeOfTachographCardId() {
-		protocolValue, _ := dd.MarshalEnum(appId.GetTypeOfTachographCardId())
+		protocolValue, err := dd.MarshalEnum(appId.GetTypeOfTachographCardId())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal type of tachograph card: %w", err)
+		}
 		data = append(data, protocolValue)
 	} else {
 		data = append(data, 0x00)
@@ -162,43 +165,35 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 		return data, nil
 	}
 
+	var err error
 	// Events per type count (1 byte)
-	if driver.HasEventsPerTypeCount() {
-		data = append(data, byte(driver.GetEventsPerTypeCount()))
-	} else {
-		data = append(data, 0x00)
+	data, err = appendUint8(data, driver.GetEventsPerTypeCount())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append events per type count: %w", err)
 	}
 
 	// Faults per type count (1 byte)
-	if driver.HasFaultsPerTypeCount() {
-		data = append(data, byte(driver.GetFaultsPerTypeCount()))
-	} else {
-		data = append(data, 0x00)
+	data, err = appendUint8(data, driver.GetFaultsPerTypeCount())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append faults per type count: %w", err)
 	}
 
 	// Activity structure length (2 bytes)
-	if driver.HasActivityStructureLength() {
-		activityLength := make([]byte, 2)
-		binary.BigEndian.PutUint16(activityLength, uint16(driver.GetActivityStructureLength()))
-		data = append(data, activityLength...)
-	} else {
-		data = append(data, 0x00, 0x00)
+	data, err = appendUint16(data, driver.GetActivityStructureLength())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append activity structure length: %w", err)
 	}
 
-	// Card vehicle records count (2 bytes in Gen1)
-	if driver.HasCardVehicleRecordsCount() {
-		vehicleRecords := make([]byte, 2)
-		binary.BigEndian.PutUint16(vehicleRecords, uint16(driver.GetCardVehicleRecordsCount()))
-		data = append(data, vehicleRecords...)
-	} else {
-		data = append(data, 0x00, 0x00)
+	// Card vehicle records count (2 bytes)
+	data, err = appendUint16(data, driver.GetCardVehicleRecordsCount())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append card vehicle records count: %w", err)
 	}
 
-	// Card place records count (1 byte in Gen1)
-	if driver.HasCardPlaceRecordsCount() {
-		data = append(data, byte(driver.GetCardPlaceRecordsCount()))
-	} else {
-		data = append(data, 0x00)
+	// Card place records count (1 byte)
+	data, err = appendUint8(data, driver.GetCardPlaceRecordsCount())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append card place records count: %w", err)
 	}
 
 	return data, nil
diff --git a/internal/card/application_identification_g2.go b/internal/card/application_identification_g2.go
index 72654e3..0c484fb 100644
--- a/internal/card/application_identification_g2.go
+++ b/internal/card/application_identification_g2.go
@@ -158,7 +158,10 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Type of tachograph card ID (1 byte)
 	if appId.HasTypeOfTachographCardId() {
-		protocolValue, _ := dd.MarshalEnum(appId.GetTypeOfTachographCardId())
+		protocolValue, err := dd.MarshalEnum(appId.GetTypeOfTachographCardId())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal type of tachograph card: %w", err)
+		}
 		data = append(data, protocolValue)
 	} else {
 		data = append(data, 0x00)
@@ -190,74 +193,53 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 		return data, nil
 	}
 
+	var err error
 	// Events per type count (1 byte)
-	if driver.HasEventsPerTypeCount() {
-		data = append(data, byte(driver.GetEventsPerTypeCount()))
-	} else {
-		data = append(data, 0x00)
+	data, err = appendUint8(data, driver.GetEventsPerTypeCount())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append events per type count: %w", err)
 	}
 
 	// Faults per type count (1 byte)
-	if driver.HasFaultsPerTypeCount() {
-		data = append(data, byte(driver.GetFaultsPerTypeCount()))
-	} else {
-		data = append(data, 0x00)
+	data, err = appendUint8(data, driver.GetFaultsPerTypeCount())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append faults per type count: %w", err)
 	}
 
 	// Activity structure length (2 bytes)
-	if driver.HasActivityStructureLength() {
-		activityLength := make([]byte, 2)
-		binary.BigEndian.PutUint16(activityLength, uint16(driver.GetActivityStructureLength()))
-		data = append(data, activityLength...)
-	} else {
-		data = append(data, 0x00, 0x00)
+	data, err = appendUint16(data, driver.GetActivityStructureLength())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append activity structure length: %w", err)
 	}
 
-	// Card vehicle records count (2 bytes in Gen2)
-	if driver.HasCardVehicleRecordsCount() {
-		vehicleRecords := make([]byte, 2)
-		binary.BigEndian.PutUint16(vehicleRecords, uint16(driver.GetCardVehicleRecordsCount()))
-		data = append(data, vehicleRecords...)
-	} else {
-		data = append(data, 0x00, 0x00)
+	// Card vehicle records count (2 bytes)
+	data, err = appendUint16(data, driver.GetCardVehicleRecordsCount())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append card vehicle records count: %w", err)
 	}
 
-	// Card place records count (2 bytes in Gen2)
-	if driver.HasCardPlaceRecordsCount() {
-		placeRecords := make([]byte, 2)
-		binary.BigEndian.PutUint16(placeRecords, uint16(driver.GetCardPlaceRecordsCount()))
-		data = append(data, placeRecords...)
-	} else {
-		data = append(data, 0x00, 0x00)
+	// Card place records count (2 bytes)
+	data, err = appendUint16(data, driver.GetCardPlaceRecordsCount())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append card place records count: %w", err)
 	}
 
-	// Gen2-specific fields (always present in Gen2):
-
 	// GNSS AD records count (2 bytes)
-	if driver.HasGnssAdRecordsCount() {
-		gnssAdRecords := make([]byte, 2)
-		binary.BigEndian.PutUint16(gnssAdRecords, uint16(driver.GetGnssAdRecordsCount()))
-		data = append(data, gnssAdRecords...)
-	} else {
-		data = append(data, 0x00, 0x00)
+	data, err = appendUint16(data, driver.GetGnssAdRecordsCount())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append GNSS AD records count: %w", err)
 	}
 
 	// Specific condition records count (2 bytes)
-	if driver.HasSpecificConditionRecordsCount() {
-		specificConditionRecords := make([]byte, 2)
-		binary.BigEndian.PutUint16(specificConditionRecords, uint16(driver.GetSpecificConditionRecordsCount()))
-		data = append(data, specificConditionRecords...)
-	} else {
-		data = append(data, 0x00, 0x00)
+	data, err = appendUint16(data, driver.GetSpecificConditionRecordsCount())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append specific condition records count: %w", err)
 	}
 
 	// Card vehicle unit records count (2 bytes)
-	if driver.HasCardVehicleUnitRecordsCount() {
-		vehicleUnitRecords := make([]byte, 2)
-		binary.BigEndian.PutUint16(vehicleUnitRecords, uint16(driver.GetCardVehicleUnitRecordsCount()))
-		data = append(data, vehicleUnitRecords...)
-	} else {
-		data = append(data, 0x00, 0x00)
+	data, err = appendUint16(data, driver.GetCardVehicleUnitRecordsCount())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append card vehicle unit records count: %w", err)
 	}
 
 	return data, nil
diff --git a/internal/card/application_identification_v2.go b/internal/card/application_identification_v2.go
index 9837022..5f00f4e 100644
--- a/internal/card/application_identification_v2.go
+++ b/internal/card/application_identification_v2.go
@@ -1,7 +1,6 @@
 package card
 
 import (
-	"bytes"
 	"encoding/binary"
 	"fmt"
 
@@ -14,53 +13,30 @@ import (
 //
 // ASN.1 Definition:
 //
-//	ApplicationIdentificationV2 ::= SEQUENCE {
-//	    noOfBorderCrossingRecords    INTEGER(0..255),
-//	    noOfLoadUnloadRecords        INTEGER(0..255),
-//	    noOfLoadTypeEntryRecords     INTEGER(0..255),
-//	    vuConfigurationLengthRange   INTEGER(0..255)
+//	DriverCardApplicationIdentificationV2 ::= SEQUENCE {
+//	    lengthOfFollowingData        LengthOfFollowingData,       -- 2 bytes
+//	    noOfBorderCrossingRecords    NoOfBorderCrossingRecords,   -- 2 bytes
+//	    noOfLoadUnloadRecords        NoOfLoadUnloadRecords,       -- 2 bytes
+//	    noOfLoadTypeEntryRecords     NoOfLoadTypeEntryRecords,    -- 2 bytes
+//	    vuConfigurationLengthRange   VuConfigurationLengthRange   -- 2 bytes
 //	}
 func (opts UnmarshalOptions) unmarshalApplicationIdentificationV2(data []byte) (*cardv1.ApplicationIdentificationV2, error) {
 	const (
-		lenEfApplicationIdentificationV2 = 4 // EF_ApplicationIdentificationV2 record size
+		lenEfApplicationIdentificationV2 = 10 // EF_ApplicationIdentificationV2 record size
 	)
 
-	if len(data) < lenEfApplicationIdentificationV2 {
-		return nil, fmt.Errorf("insufficient data for application identification V2: got %d bytes, need %d", len(data), lenEfApplicationIdentificationV2)
+	if len(data) != lenEfApplicationIdentificationV2 {
+		return nil, fmt.Errorf("invalid data length for application identification V2: got %d bytes, want %d", len(data), lenEfApplicationIdentificationV2)
 	}
 	var target cardv1.ApplicationIdentificationV2
-	r := bytes.NewReader(data)
 
 	// For now, assume this is a driver card and create the driver data
 	driver := &cardv1.ApplicationIdentificationV2_Driver{}
-
-	// Read border crossing records count (1 byte)
-	var borderCrossingCount byte
-	if err := binary.Read(r, binary.BigEndian, &borderCrossingCount); err != nil {
-		return nil, fmt.Errorf("failed to read border crossing records count: %w", err)
-	}
-	driver.SetBorderCrossingRecordsCount(int32(borderCrossingCount))
-
-	// Read load/unload records count (1 byte)
-	var loadUnloadCount byte
-	if err := binary.Read(r, binary.BigEndian, &loadUnloadCount); err != nil {
-		return nil, fmt.Errorf("failed to read load/unload records count: %w", err)
-	}
-	driver.SetLoadUnloadRecordsCount(int32(loadUnloadCount))
-
-	// Read load type entry records count (1 byte)
-	var loadTypeCount byte
-	if err := binary.Read(r, binary.BigEndian, &loadTypeCount); err != nil {
-		return nil, fmt.Errorf("failed to read load type entry records count: %w", err)
-	}
-	driver.SetLoadTypeEntryRecordsCount(int32(loadTypeCount))
-
-	// Read VU configuration length range (1 byte)
-	var vuConfigRange byte
-	if err := binary.Read(r, binary.BigEndian, &vuConfigRange); err != nil {
-		return nil, fmt.Errorf("failed to read VU configuration length range: %w", err)
-	}
-	driver.SetVuConfigurationLengthRange(int32(vuConfigRange))
+	driver.SetLengthOfFollowingData(int32(binary.BigEndian.Uint16(data[0:2])))
+	driver.SetBorderCrossingRecordsCount(int32(binary.BigEndian.Uint16(data[2:4])))
+	driver.SetLoadUnloadRecordsCount(int32(binary.BigEndian.Uint16(data[4:6])))
+	driver.SetLoadTypeEntryRecordsCount(int32(binary.BigEndian.Uint16(data[6:8])))
+	driver.SetVuConfigurationLengthRange(int32(binary.BigEndian.Uint16(data[8:10])))
 
 	// Set the driver data and card type
 	target.SetDriver(driver)
@@ -75,56 +51,34 @@ func (opts UnmarshalOptions) unmarshalApplicationIdentificationV2(data []byte) (
 //
 // ASN.1 Definition:
 //
-//	ApplicationIdentificationV2 ::= SEQUENCE {
-//	    noOfBorderCrossingRecords    INTEGER(0..255),
-//	    noOfLoadUnloadRecords        INTEGER(0..255),
-//	    noOfLoadTypeEntryRecords     INTEGER(0..255),
-//	    vuConfigurationLengthRange   INTEGER(0..255)
+//	DriverCardApplicationIdentificationV2 ::= SEQUENCE {
+//	    lengthOfFollowingData        LengthOfFollowingData,       -- 2 bytes
+//	    noOfBorderCrossingRecords    NoOfBorderCrossingRecords,   -- 2 bytes
+//	    noOfLoadUnloadRecords        NoOfLoadUnloadRecords,       -- 2 bytes
+//	    noOfLoadTypeEntryRecords     NoOfLoadTypeEntryRecords,    -- 2 bytes
+//	    vuConfigurationLengthRange   VuConfigurationLengthRange   -- 2 bytes
 //	}
 func appendCardApplicationIdentificationV2(data []byte, appIdV2 *cardv1.ApplicationIdentificationV2) ([]byte, error) {
 	if appIdV2 == nil {
 		return data, nil
 	}
 
-	// Get the appropriate nested message based on card type
-	var borderCrossingRecords, loadUnloadRecords, loadTypeEntryRecords, vuConfigLength int32
-
-	switch appIdV2.GetCardType() {
-	case cardv1.CardType_DRIVER_CARD:
-		if driver := appIdV2.GetDriver(); driver != nil {
-			borderCrossingRecords = driver.GetBorderCrossingRecordsCount()
-			loadUnloadRecords = driver.GetLoadUnloadRecordsCount()
-			loadTypeEntryRecords = driver.GetLoadTypeEntryRecordsCount()
-			vuConfigLength = driver.GetVuConfigurationLengthRange()
-		}
-	case cardv1.CardType_WORKSHOP_CARD:
-		if workshop := appIdV2.GetWorkshop(); workshop != nil {
-			borderCrossingRecords = workshop.GetBorderCrossingRecordsCount()
-			loadUnloadRecords = workshop.GetLoadUnloadRecordsCount()
-			loadTypeEntryRecords = workshop.GetLoadTypeEntryRecordsCount()
-			vuConfigLength = workshop.GetVuConfigurationLengthRange()
-		}
-	case cardv1.CardType_COMPANY_CARD:
-		if company := appIdV2.GetCompany(); company != nil {
-			vuConfigLength = company.GetVuConfigurationLengthRange()
-		}
-	case cardv1.CardType_CONTROL_CARD:
-		if control := appIdV2.GetControl(); control != nil {
-			vuConfigLength = control.GetVuConfigurationLengthRange()
+	driver := appIdV2.GetDriver()
+	if driver == nil {
+		return nil, fmt.Errorf("missing driver card data of application identification V2")
+	}
+	var err error
+	for _, number := range []int32{
+		driver.GetLengthOfFollowingData(),
+		driver.GetBorderCrossingRecordsCount(),
+		driver.GetLoadUnloadRecordsCount(),
+		driver.GetLoadTypeEntryRecordsCount(),
+		driver.GetVuConfigurationLengthRange(),
+	} {
+		data, err = appendUint16(data, number)
+		if err != nil {
+			return nil, fmt.Errorf("failed to append application identification V2: %w", err)
 		}
 	}
-
-	// Border crossing records count (1 byte)
-	data = append(data, byte(borderCrossingRecords))
-
-	// Load/unload records count (1 byte)
-	data = append(data, byte(loadUnloadRecords))
-
-	// Load type entry records count (1 byte)
-	data = append(data, byte(loadTypeEntryRecords))
-
-	// VU configuration length range (1 byte)
-	data = append(data, byte(vuConfigLength))
-
 	return data, nil
 }
diff --git a/internal/card/ic.go b/internal/card/ic.go
index 43677e9..e2876de 100644
--- a/internal/card/ic.go
+++ b/internal/card/ic.go
@@ -24,8 +24,8 @@ func (opts UnmarshalOptions) unmarshalIc(data []byte) (*cardv1.Ic, error) {
 		lenCardChipIdentification    = lenIcSerialNumber + lenIcManufacturingReferences
 	)
 
-	if len(data) < lenCardChipIdentification {
-		return nil, fmt.Errorf("insufficient data for IC identification: got %d bytes, need %d", len(data), lenCardChipIdentification)
+	if len(data) != lenCardChipIdentification {
+		return nil, fmt.Errorf("invalid data length for IC identification: got %d bytes, want %d", len(data), lenCardChipIdentification)
 	}
 
 	var target cardv1.Ic
@@ -69,26 +69,16 @@ func appendCardIc(data []byte, ic *cardv1.Ic) ([]byte, error) {
 	}
 
 	// Append IC Serial Number (4 bytes)
-	serialBytes := ic.GetIcSerialNumber()
-	if len(serialBytes) >= lenIcSerialNumber {
-		data = append(data, serialBytes[:lenIcSerialNumber]...)
-	} else {
-		// Pad with zeros
-		padded := make([]byte, lenIcSerialNumber)
-		copy(padded, serialBytes)
-		data = append(data, padded...)
+	if got := len(ic.GetIcSerialNumber()); got != lenIcSerialNumber {
+		return nil, fmt.Errorf("invalid IC serial number: got %d bytes, want %d", got, lenIcSerialNumber)
 	}
+	data = append(data, ic.GetIcSerialNumber()...)
 
 	// Append IC Manufacturing References (4 bytes)
-	mfgBytes := ic.GetIcManufacturingReferences()
-	if len(mfgBytes) >= lenIcManufacturingReferences {
-		data = append(data, mfgBytes[:lenIcManufacturingReferences]...)
-	} else {
-		// Pad with zeros
-		padded := make([]byte, lenIcManufacturingReferences)
-		copy(padded, mfgBytes)
-		data = append(data, padded...)
+	if got := len(ic.GetIcManufacturingReferences()); got != lenIcManufacturingReferences {
+		return nil, fmt.Errorf("invalid IC manufacturing references: got %d bytes, want %d", got, lenIcManufacturingReferences)
 	}
+	data = append(data, ic.GetIcManufacturingReferences()...)
 
 	return data, nil
 }
diff --git a/internal/card/icc.go b/internal/card/icc.go
index 8606bee..9ae7758 100644
--- a/internal/card/icc.go
+++ b/internal/card/icc.go
@@ -2,7 +2,6 @@ package card
 
 import (
 	"encoding/binary"
-	"errors"
 	"fmt"
 
 	"github.com/way-platform/tachograph-go/internal/dd"
@@ -37,8 +36,8 @@ func (opts UnmarshalOptions) unmarshalIcc(data []byte) (*cardv1.Icc, error) {
 	)
 
 	var icc cardv1.Icc
-	if len(data) < lenCardIccIdentification {
-		return nil, errors.New("not enough data for IccIdentification")
+	if len(data) != lenCardIccIdentification {
+		return nil, fmt.Errorf("invalid data length for IccIdentification: got %d, want %d", len(data), lenCardIccIdentification)
 	}
 	offset := 0
 
@@ -188,13 +187,16 @@ func appendIcc(dst []byte, icc *cardv1.Icc) ([]byte, error) {
 	}
 
 	// Append card approval number (8 bytes)
-	dst, err = dd.AppendIa5StringValue(dst, icc.GetCardApprovalNumber())
+	dst, err = dd.AppendFixedIa5StringValue(dst, icc.GetCardApprovalNumber(), lenCardApprovalNumber)
 	if err != nil {
 		return nil, err
 	}
 
 	// Append card personaliser ID (1 byte)
-	dst = append(dst, byte(icc.GetCardPersonaliserId()))
+	dst, err = appendUint8(dst, icc.GetCardPersonaliserId())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append card personaliser ID: %w", err)
+	}
 
 	// Append embedder IC assembler ID (5 bytes)
 	dst, err = appendEmbedderIcAssemblerId(dst, icc.GetEmbedderIcAssemblerId())
@@ -203,6 +205,9 @@ func appendIcc(dst []byte, icc *cardv1.Icc) ([]byte, error) {
 	}
 
 	// Append IC identifier (2 bytes)
+	if got := len(icc.GetIcIdentifier()); got != lenIcIdentifier {
+		return nil, fmt.Errorf("invalid IC identifier: got %d bytes, want %d", got, lenIcIdentifier)
+	}
 	dst = append(dst, icc.GetIcIdentifier()...)
 	return dst, nil
 }
@@ -218,19 +223,22 @@ func appendEmbedderIcAssemblerId(dst []byte, eia *cardv1.Icc_EmbedderIcAssembler
 
 	var err error
 	// Append country code (2 bytes, IA5String)
-	dst, err = dd.AppendIa5StringValue(dst, eia.GetCountryCode())
+	dst, err = dd.AppendFixedIa5StringValue(dst, eia.GetCountryCode(), 2)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append country code: %w", err)
 	}
 
 	// Append module embedder (2 bytes, IA5String)
-	dst, err = dd.AppendIa5StringValue(dst, eia.GetModuleEmbedder())
+	dst, err = dd.AppendFixedIa5StringValue(dst, eia.GetModuleEmbedder(), 2)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append module embedder: %w", err)
 	}
 
 	// Append manufacturer information (1 byte)
-	dst = append(dst, byte(eia.GetManufacturerInformation()))
+	dst, err = appendUint8(dst, eia.GetManufacturerInformation())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append manufacturer information: %w", err)
+	}
 
 	return dst, nil
 }
-- 
2.43.0


From 145cd3a2f411445511e2d3d47ba1fd0e60011971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 11/51] fix: write record tables completely and reject records
 and pointers that do not fit

Bytes behind the last whole record were dropped, event and fault types and
newest-record pointers were truncated silently, missing records skipped.
---
 internal/card/append.go                 |  7 +++
 internal/card/events.go                 | 16 +++++-
 internal/card/faults.go                 | 16 +++++-
 internal/card/gnss_places.go            | 11 +++--
 internal/card/places.go                 | 17 +++++--
 internal/card/places_g2.go              | 17 +++++--
 internal/card/specific_conditions.go    |  4 +-
 internal/card/specific_conditions_g2.go | 65 +++++++++----------------
 internal/card/vehicle_units_used.go     | 34 +++++--------
 internal/card/vehicles_used.go          | 17 +++++--
 internal/card/vehicles_used_g2.go       | 17 +++++--
 11 files changed, 126 insertions(+), 95 deletions(-)

diff --git a/internal/card/append.go b/internal/card/append.go
index 01d0795..f237232 100644
--- a/internal/card/append.go
+++ b/internal/card/append.go
@@ -21,3 +21,10 @@ func appendUint16(dst []byte, value int32) ([]byte, error) {
 	}
 	return binary.BigEndian.AppendUint16(dst, uint16(value)), nil
 }
+
+// fitsTable reports whether raw can hold a table of the given size. A table may
+// be followed by bytes that do not make up a whole record.
+func fitsTable(raw []byte, tableSize, recordSize int) bool {
+	trailing := len(raw) - tableSize
+	return len(raw) > 0 && trailing >= 0 && trailing < recordSize
+}
diff --git a/internal/card/events.go b/internal/card/events.go
index 2a551aa..53870af 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -44,6 +44,9 @@ func splitCardEventRecord(data []byte, atEOF bool) (advance int, token []byte, e
 }
 
 func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsData, error) {
+	if len(data)%cardEventRecordSize != 0 {
+		return nil, fmt.Errorf("invalid events data length: got %d bytes, not a multiple of %d", len(data), cardEventRecordSize)
+	}
 	scanner := bufio.NewScanner(bytes.NewReader(data))
 	scanner.Split(splitCardEventRecord)
 
@@ -195,13 +198,22 @@ func appendEventsData(dst []byte, data *cardv1.EventsData) ([]byte, error) {
 //	}
 func appendEventRecord(dst []byte, record *cardv1.EventsData_Record) ([]byte, error) {
 	if !record.GetValid() {
+		if got := len(record.GetRawData()); got != cardEventRecordSize {
+			return nil, fmt.Errorf("invalid raw event record: got %d bytes, want %d", got, cardEventRecordSize)
+		}
 		return append(dst, record.GetRawData()...), nil
 	}
+	if record.GetEventBeginTime().GetSeconds() == 0 {
+		// Such a record would be read back as an empty one
+		return nil, fmt.Errorf("missing event begin time")
+	}
 
-	protocolValue, _ := dd.MarshalEnum(record.GetEventType())
+	protocolValue, err := dd.MarshalEnum(record.GetEventType())
+	if err != nil {
+		return nil, fmt.Errorf("failed to marshal event type: %w", err)
+	}
 	dst = append(dst, protocolValue)
 
-	var err error
 	dst, err = dd.AppendTimeReal(dst, record.GetEventBeginTime())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append event begin time: %w", err)
diff --git a/internal/card/faults.go b/internal/card/faults.go
index bac9432..dc7b738 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -44,6 +44,9 @@ func splitCardFaultRecord(data []byte, atEOF bool) (advance int, token []byte, e
 }
 
 func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsData, error) {
+	if len(data)%cardFaultRecordSize != 0 {
+		return nil, fmt.Errorf("invalid faults data length: got %d bytes, not a multiple of %d", len(data), cardFaultRecordSize)
+	}
 	scanner := bufio.NewScanner(bytes.NewReader(data))
 	scanner.Split(splitCardFaultRecord)
 
@@ -195,13 +198,22 @@ func appendFaultsData(dst []byte, data *cardv1.FaultsData) ([]byte, error) {
 //	}
 func appendFaultRecord(dst []byte, record *cardv1.FaultsData_Record) ([]byte, error) {
 	if !record.GetValid() {
+		if got := len(record.GetRawData()); got != cardFaultRecordSize {
+			return nil, fmt.Errorf("invalid raw fault record: got %d bytes, want %d", got, cardFaultRecordSize)
+		}
 		return append(dst, record.GetRawData()...), nil
 	}
+	if record.GetFaultBeginTime().GetSeconds() == 0 {
+		// Such a record would be read back as an empty one
+		return nil, fmt.Errorf("missing fault begin time")
+	}
 
-	protocolValue, _ := dd.MarshalEnum(record.GetFaultType())
+	protocolValue, err := dd.MarshalEnum(record.GetFaultType())
+	if err != nil {
+		return nil, fmt.Errorf("failed to marshal fault type: %w", err)
+	}
 	dst = append(dst, protocolValue)
 
-	var err error
 	dst, err = dd.AppendTimeReal(dst, record.GetFaultBeginTime())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append fault begin time: %w", err)
diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index e4fc1b5..ab00a6a 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -175,14 +175,15 @@ func appendCardGnssPlaces(dst []byte, gnssPlaces *cardv1.GnssPlaces) ([]byte, er
 	}
 
 	// Append newest record index (2 bytes)
-	newestRecordIndex := gnssPlaces.GetNewestRecordIndex()
-	dst = binary.BigEndian.AppendUint16(dst, uint16(newestRecordIndex))
+	dst, err := appendUint16(dst, gnssPlaces.GetNewestRecordIndex())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append newest record index: %w", err)
+	}
 
 	// Append all GNSS accumulated driving records
 	// The binary format is a fixed-size array, so we write exactly what we have
 	records := gnssPlaces.GetRecords()
 	for _, record := range records {
-		var err error
 		dst, err = appendGNSSAccumulatedDrivingRecord(dst, record)
 		if err != nil {
 			return nil, fmt.Errorf("failed to append GNSS accumulated driving record: %w", err)
@@ -200,7 +201,7 @@ func appendCardGnssPlaces(dst []byte, gnssPlaces *cardv1.GnssPlaces) ([]byte, er
 //   - 3 bytes: OdometerShort vehicleOdometerValue
 func appendGNSSAccumulatedDrivingRecord(dst []byte, record *cardv1.GnssPlaces_Record) ([]byte, error) {
 	if record == nil {
-		return dst, nil
+		return nil, fmt.Errorf("missing GNSS accumulated driving record")
 	}
 
 	// Append timestamp (TimeReal - 4 bytes)
@@ -218,7 +219,7 @@ func appendGNSSAccumulatedDrivingRecord(dst []byte, record *cardv1.GnssPlaces_Re
 
 	// Append vehicle odometer (OdometerShort - 3 bytes)
 	odometer := record.GetVehicleOdometerKm()
-	if odometer < 0 || odometer > 999999 {
+	if odometer < 0 || odometer > 0xFFFFFF {
 		return nil, fmt.Errorf("invalid vehicle odometer value: %d", odometer)
 	}
 	dst = dd.AppendOdometer(dst, uint32(odometer))
diff --git a/internal/card/places.go b/internal/card/places.go
index 80e1ab8..b1409ac 100644
--- a/internal/card/places.go
+++ b/internal/card/places.go
@@ -87,14 +87,19 @@ func appendPlaces(dst []byte, p *cardv1.Places) ([]byte, error) {
 	numRecords := len(p.GetRecords())
 	expectedSize := 1 + (numRecords * recordSize)
 
+	newestRecordIndex, err := appendUint8(nil, p.GetNewestRecordIndex())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append newest record index: %w", err)
+	}
+
 	// Use raw_data as canvas if available and correct size
-	if rawData := p.GetRawData(); len(rawData) == expectedSize {
+	if rawData := p.GetRawData(); fitsTable(rawData, expectedSize, recordSize) {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas (1 byte for Gen1)
-		canvas[0] = byte(p.GetNewestRecordIndex())
+		copy(canvas, newestRecordIndex)
 
 		// Paint each record over canvas
 		offset := 1
@@ -114,14 +119,16 @@ func appendPlaces(dst []byte, p *cardv1.Places) ([]byte, error) {
 	}
 
 	// Fall back to building from scratch
-	newestRecordIndex := byte(p.GetNewestRecordIndex())
-	dst = append(dst, newestRecordIndex)
+	dst = append(dst, newestRecordIndex...)
 
 	for _, record := range p.GetRecords() {
 		recordBytes, err := dd.AppendPlaceRecord(nil, record)
 		if err != nil {
 			return nil, fmt.Errorf("failed to append Gen1 place record: %w", err)
 		}
+		if len(recordBytes) != recordSize {
+			return nil, fmt.Errorf("invalid Gen1 place record size: got %d, want %d", len(recordBytes), recordSize)
+		}
 		dst = append(dst, recordBytes...)
 	}
 
diff --git a/internal/card/places_g2.go b/internal/card/places_g2.go
index 89b5525..1974319 100644
--- a/internal/card/places_g2.go
+++ b/internal/card/places_g2.go
@@ -88,14 +88,19 @@ func appendPlacesG2(dst []byte, p *cardv1.PlacesG2) ([]byte, error) {
 	numRecords := len(p.GetRecords())
 	expectedSize := 2 + (numRecords * recordSize)
 
+	newestRecordIndex, err := appendUint16(nil, p.GetNewestRecordIndex())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append newest record index: %w", err)
+	}
+
 	// Use raw_data as canvas if available and correct size
-	if rawData := p.GetRawData(); len(rawData) == expectedSize {
+	if rawData := p.GetRawData(); fitsTable(rawData, expectedSize, recordSize) {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas (2 bytes for Gen2)
-		binary.BigEndian.PutUint16(canvas[0:2], uint16(p.GetNewestRecordIndex()))
+		copy(canvas, newestRecordIndex)
 
 		// Paint each record over canvas
 		offset := 2
@@ -115,14 +120,16 @@ func appendPlacesG2(dst []byte, p *cardv1.PlacesG2) ([]byte, error) {
 	}
 
 	// Fall back to building from scratch
-	newestRecordIndex := uint16(p.GetNewestRecordIndex())
-	dst = binary.BigEndian.AppendUint16(dst, newestRecordIndex)
+	dst = append(dst, newestRecordIndex...)
 
 	for _, record := range p.GetRecords() {
 		recordBytes, err := dd.AppendPlaceRecordG2(nil, record)
 		if err != nil {
 			return nil, fmt.Errorf("failed to append Gen2 place record: %w", err)
 		}
+		if len(recordBytes) != recordSize {
+			return nil, fmt.Errorf("invalid Gen2 place record size: got %d, want %d", len(recordBytes), recordSize)
+		}
 		dst = append(dst, recordBytes...)
 	}
 
diff --git a/internal/card/specific_conditions.go b/internal/card/specific_conditions.go
index bc62edc..eceb1b2 100644
--- a/internal/card/specific_conditions.go
+++ b/internal/card/specific_conditions.go
@@ -72,9 +72,9 @@ func appendCardSpecificConditions(data []byte, conditions *cardv1.SpecificCondit
 	expectedSize := numRecords * recordSize
 
 	// Use raw_data as canvas if available and correct size
-	if rawData := conditions.GetRawData(); len(rawData) == expectedSize {
+	if rawData := conditions.GetRawData(); fitsTable(rawData, expectedSize, recordSize) {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint each record over canvas
diff --git a/internal/card/specific_conditions_g2.go b/internal/card/specific_conditions_g2.go
index 0df51c6..303b071 100644
--- a/internal/card/specific_conditions_g2.go
+++ b/internal/card/specific_conditions_g2.go
@@ -1,6 +1,7 @@
 package card
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 
@@ -72,55 +73,37 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 		return data, nil
 	}
 
-	// Use raw_data as canvas if available (includes pointer + records + trailing bytes)
-	if rawData := conditions.GetRawData(); len(rawData) > 0 {
-		const (
-			lenPointer = 2
-			recordSize = 5
-		)
-
-		// Make a copy to use as canvas
-		canvas := make([]byte, len(rawData))
-		copy(canvas, rawData)
-
-		// Paint newest record pointer over canvas
-		binary.BigEndian.PutUint16(canvas[0:lenPointer], uint16(conditions.GetNewestRecordIndex()))
-
-		// Paint each record over canvas
-		offset := lenPointer
-		for _, record := range conditions.GetRecords() {
-			if offset+recordSize > len(canvas) {
-				// Canvas too small for all records, fall back to building from scratch
-				goto fallback
-			}
-			recordBytes, err := dd.AppendSpecificConditionRecord(nil, record)
-			if err != nil {
-				return nil, fmt.Errorf("failed to append specific condition record: %w", err)
-			}
-			if len(recordBytes) != recordSize {
-				return nil, fmt.Errorf("invalid specific condition record size: got %d, want %d", len(recordBytes), recordSize)
-			}
-			copy(canvas[offset:offset+recordSize], recordBytes)
-			offset += recordSize
-		}
+	const (
+		lenPointer = 2
+		recordSize = 5
+	)
 
-		// Canvas preserves trailing bytes automatically
-		return append(data, canvas...), nil
+	pointer, err := appendUint16(nil, conditions.GetNewestRecordIndex())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append newest record index: %w", err)
 	}
 
-fallback:
-	// Fall back to building from scratch
-	pointerBytes := make([]byte, 2)
-	binary.BigEndian.PutUint16(pointerBytes, uint16(conditions.GetNewestRecordIndex()))
-	data = append(data, pointerBytes...)
+	// Paint the pointer and each record over the raw data if it is available and of
+	// the right size, which preserves its trailing bytes
+	size := lenPointer + len(conditions.GetRecords())*recordSize
+	canvas := make([]byte, size)
+	if rawData := conditions.GetRawData(); fitsTable(rawData, size, recordSize) {
+		canvas = bytes.Clone(rawData)
+	}
+	copy(canvas, pointer)
 
+	offset := lenPointer
 	for _, record := range conditions.GetRecords() {
-		var err error
-		data, err = dd.AppendSpecificConditionRecord(data, record)
+		recordBytes, err := dd.AppendSpecificConditionRecord(nil, record)
 		if err != nil {
 			return nil, fmt.Errorf("failed to append specific condition record: %w", err)
 		}
+		if len(recordBytes) != recordSize {
+			return nil, fmt.Errorf("invalid specific condition record size: got %d, want %d", len(recordBytes), recordSize)
+		}
+		copy(canvas[offset:offset+recordSize], recordBytes)
+		offset += recordSize
 	}
 
-	return data, nil
+	return append(data, canvas...), nil
 }
diff --git a/internal/card/vehicle_units_used.go b/internal/card/vehicle_units_used.go
index 18bf9b7..ed78a00 100644
--- a/internal/card/vehicle_units_used.go
+++ b/internal/card/vehicle_units_used.go
@@ -175,14 +175,15 @@ func appendCardVehicleUnitsUsed(dst []byte, vehicleUnits *cardv1.VehicleUnitsUse
 	}
 
 	// Append newest record pointer (2 bytes)
-	newestRecordPointer := vehicleUnits.GetVehicleUnitPointerNewestRecord()
-	dst = binary.BigEndian.AppendUint16(dst, uint16(newestRecordPointer))
+	dst, err := appendUint16(dst, vehicleUnits.GetVehicleUnitPointerNewestRecord())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append newest record pointer: %w", err)
+	}
 
 	// Append all vehicle unit records
 	// The binary format is a fixed-size array, so we write exactly what we have
 	records := vehicleUnits.GetRecords()
 	for _, record := range records {
-		var err error
 		dst, err = appendCardVehicleUnitRecord(dst, record)
 		if err != nil {
 			return nil, fmt.Errorf("failed to append vehicle unit record: %w", err)
@@ -201,7 +202,7 @@ func appendCardVehicleUnitsUsed(dst []byte, vehicleUnits *cardv1.VehicleUnitsUse
 //   - 4 bytes: VuSoftwareVersion (IA5String)
 func appendCardVehicleUnitRecord(dst []byte, record *cardv1.VehicleUnitsUsed_Record) ([]byte, error) {
 	if record == nil {
-		return dst, nil
+		return nil, fmt.Errorf("missing vehicle unit record")
 	}
 
 	// Append timestamp (TimeReal - 4 bytes)
@@ -219,29 +220,16 @@ func appendCardVehicleUnitRecord(dst []byte, record *cardv1.VehicleUnitsUsed_Rec
 	dst = append(dst, byte(manufacturerCode))
 
 	// Append device ID (1 byte)
-	deviceID := record.GetDeviceId()
-	if len(deviceID) > 1 {
-		return nil, fmt.Errorf("device ID too long: %d bytes", len(deviceID))
-	}
-	if len(deviceID) == 1 {
-		dst = append(dst, deviceID[0])
-	} else {
-		dst = append(dst, 0x00)
+	if got := len(record.GetDeviceId()); got != 1 {
+		return nil, fmt.Errorf("invalid device ID: got %d bytes, want 1", got)
 	}
+	dst = append(dst, record.GetDeviceId()...)
 
 	// Append VU software version (4 bytes)
-	vuSoftwareVersion := record.GetVuSoftwareVersion()
-	if len(vuSoftwareVersion) > 4 {
-		return nil, fmt.Errorf("VU software version too long: %d bytes", len(vuSoftwareVersion))
-	}
-	if len(vuSoftwareVersion) == 4 {
-		dst = append(dst, vuSoftwareVersion...)
-	} else {
-		// Pad with zeros if shorter than 4 bytes
-		padded := make([]byte, 4)
-		copy(padded, vuSoftwareVersion)
-		dst = append(dst, padded...)
+	if got := len(record.GetVuSoftwareVersion()); got != 4 {
+		return nil, fmt.Errorf("invalid VU software version: got %d bytes, want 4", got)
 	}
+	dst = append(dst, record.GetVuSoftwareVersion()...)
 
 	return dst, nil
 }
diff --git a/internal/card/vehicles_used.go b/internal/card/vehicles_used.go
index ef945c9..beafa34 100644
--- a/internal/card/vehicles_used.go
+++ b/internal/card/vehicles_used.go
@@ -84,14 +84,19 @@ func appendVehiclesUsed(dst []byte, vehiclesUsed *cardv1.VehiclesUsed) ([]byte,
 	numRecords := len(vehiclesUsed.GetRecords())
 	expectedSize := 2 + (numRecords * recordSize)
 
+	newestRecordIndex, err := appendUint16(nil, vehiclesUsed.GetNewestRecordIndex())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append newest record index: %w", err)
+	}
+
 	// Use raw_data as canvas if available and correct size
-	if rawData := vehiclesUsed.GetRawData(); len(rawData) == expectedSize {
+	if rawData := vehiclesUsed.GetRawData(); fitsTable(rawData, expectedSize, recordSize) {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas
-		binary.BigEndian.PutUint16(canvas[0:2], uint16(vehiclesUsed.GetNewestRecordIndex()))
+		copy(canvas, newestRecordIndex)
 
 		// Paint each record over canvas
 		offset := 2
@@ -111,14 +116,16 @@ func appendVehiclesUsed(dst []byte, vehiclesUsed *cardv1.VehiclesUsed) ([]byte,
 	}
 
 	// Fall back to building from scratch
-	newestRecordIndex := uint16(vehiclesUsed.GetNewestRecordIndex())
-	dst = binary.BigEndian.AppendUint16(dst, newestRecordIndex)
+	dst = append(dst, newestRecordIndex...)
 
 	for _, record := range vehiclesUsed.GetRecords() {
 		recordBytes, err := dd.AppendCardVehicleRecord(nil, record)
 		if err != nil {
 			return nil, fmt.Errorf("failed to append Gen1 vehicle record: %w", err)
 		}
+		if len(recordBytes) != recordSize {
+			return nil, fmt.Errorf("invalid Gen1 vehicle record size: got %d, want %d", len(recordBytes), recordSize)
+		}
 		dst = append(dst, recordBytes...)
 	}
 
diff --git a/internal/card/vehicles_used_g2.go b/internal/card/vehicles_used_g2.go
index 1694a59..63bbc53 100644
--- a/internal/card/vehicles_used_g2.go
+++ b/internal/card/vehicles_used_g2.go
@@ -84,14 +84,19 @@ func appendVehiclesUsedG2(dst []byte, vehiclesUsed *cardv1.VehiclesUsedG2) ([]by
 	numRecords := len(vehiclesUsed.GetRecords())
 	expectedSize := 2 + (numRecords * recordSize)
 
+	newestRecordIndex, err := appendUint16(nil, vehiclesUsed.GetNewestRecordIndex())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append newest record index: %w", err)
+	}
+
 	// Use raw_data as canvas if available and correct size
-	if rawData := vehiclesUsed.GetRawData(); len(rawData) == expectedSize {
+	if rawData := vehiclesUsed.GetRawData(); fitsTable(rawData, expectedSize, recordSize) {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas
-		binary.BigEndian.PutUint16(canvas[0:2], uint16(vehiclesUsed.GetNewestRecordIndex()))
+		copy(canvas, newestRecordIndex)
 
 		// Paint each record over canvas
 		offset := 2
@@ -111,14 +116,16 @@ func appendVehiclesUsedG2(dst []byte, vehiclesUsed *cardv1.VehiclesUsedG2) ([]by
 	}
 
 	// Fall back to building from scratch
-	newestRecordIndex := uint16(vehiclesUsed.GetNewestRecordIndex())
-	dst = binary.BigEndian.AppendUint16(dst, newestRecordIndex)
+	dst = append(dst, newestRecordIndex...)
 
 	for _, record := range vehiclesUsed.GetRecords() {
 		recordBytes, err := dd.AppendCardVehicleRecordG2(nil, record)
 		if err != nil {
 			return nil, fmt.Errorf("failed to append Gen2 vehicle record: %w", err)
 		}
+		if len(recordBytes) != recordSize {
+			return nil, fmt.Errorf("invalid Gen2 vehicle record size: got %d, want %d", len(recordBytes), recordSize)
+		}
 		dst = append(dst, recordBytes...)
 	}
 
-- 
2.43.0


From 440a614637f7091fbe2a8666769a94bb462cf571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 12/51] fix: report truncated vehicle unit transfers as errors
 instead of slicing out of range

---
 internal/vu/activities.go            | 8 ++++----
 internal/vu/detailed_speed.go        | 2 +-
 internal/vu/events_faults.go         | 8 ++++----
 internal/vu/overview.go              | 4 ++--
 internal/vu/raw_vehicle_unit_file.go | 4 ++--
 internal/vu/technical_data.go        | 2 +-
 6 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/internal/vu/activities.go b/internal/vu/activities.go
index 3d59e67..05e3f8b 100644
--- a/internal/vu/activities.go
+++ b/internal/vu/activities.go
@@ -57,7 +57,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += 3 // OdometerValueMidnight
 
 	// VuCardIWData: 2 bytes count + variable records
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfIWRecords")
 	}
 	noOfIWRecords := binary.BigEndian.Uint16(data[offset:])
@@ -71,7 +71,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfIWRecords) * vuCardIWRecordSize
 
 	// VuActivityDailyData: 2 bytes count + variable activity changes
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfActivityChanges")
 	}
 	noOfActivityChanges := binary.BigEndian.Uint16(data[offset:])
@@ -82,7 +82,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfActivityChanges) * activityChangeInfoSize
 
 	// VuPlaceDailyWorkPeriodData: 1 byte count + variable place records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfPlaceRecords")
 	}
 	noOfPlaceRecords := data[offset]
@@ -93,7 +93,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfPlaceRecords) * vuPlaceDailyWorkPeriodRecordSize
 
 	// VuSpecificConditionData: 2 bytes count + variable condition records
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfSpecificConditionRecords")
 	}
 	noOfSpecificConditionRecords := binary.BigEndian.Uint16(data[offset:])
diff --git a/internal/vu/detailed_speed.go b/internal/vu/detailed_speed.go
index a2b4386..2988c66 100644
--- a/internal/vu/detailed_speed.go
+++ b/internal/vu/detailed_speed.go
@@ -37,7 +37,7 @@ func sizeOfDetailedSpeedGen1(data []byte) (int, error) {
 	offset := 0
 
 	// VuDetailedSpeedData: 2 bytes count + variable speed blocks
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfSpeedBlocks")
 	}
 	noOfSpeedBlocks := binary.BigEndian.Uint16(data[offset:])
diff --git a/internal/vu/events_faults.go b/internal/vu/events_faults.go
index 23b4f67..186cc51 100644
--- a/internal/vu/events_faults.go
+++ b/internal/vu/events_faults.go
@@ -77,7 +77,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset := 0
 
 	// VuFaultData: 1 byte count + variable fault records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuFaults")
 	}
 	noOfVuFaults := data[offset]
@@ -88,7 +88,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += int(noOfVuFaults) * vuFaultRecordSize
 
 	// VuEventData: 1 byte count + variable event records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuEvents")
 	}
 	noOfVuEvents := data[offset]
@@ -102,7 +102,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += 9
 
 	// VuOverSpeedingEventData: 1 byte count + variable overspeed records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuOverSpeedingEvents")
 	}
 	noOfVuOverSpeedingEvents := data[offset]
@@ -113,7 +113,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += int(noOfVuOverSpeedingEvents) * vuOverSpeedingEventRecordSize
 
 	// VuTimeAdjustmentData: 1 byte count + variable time adjustment records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuTimeAdjRecords")
 	}
 	noOfVuTimeAdjRecords := data[offset]
diff --git a/internal/vu/overview.go b/internal/vu/overview.go
index c33517e..ea726b2 100644
--- a/internal/vu/overview.go
+++ b/internal/vu/overview.go
@@ -58,7 +58,7 @@ func sizeOfOverviewGen1(data []byte) (int, error) {
 	offset += 58  // VuDownloadActivityData (4 + 18 + 36)
 
 	// VuCompanyLocksData: 1 byte count + variable records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfLocks")
 	}
 	noOfLocks := data[offset]
@@ -70,7 +70,7 @@ func sizeOfOverviewGen1(data []byte) (int, error) {
 	offset += int(noOfLocks) * vuCompanyLocksRecordSize
 
 	// VuControlActivityData: 1 byte count + variable records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfControls")
 	}
 	noOfControls := data[offset]
diff --git a/internal/vu/raw_vehicle_unit_file.go b/internal/vu/raw_vehicle_unit_file.go
index 5e82277..d52b1ec 100644
--- a/internal/vu/raw_vehicle_unit_file.go
+++ b/internal/vu/raw_vehicle_unit_file.go
@@ -100,8 +100,8 @@ func sizeOfTransferValue(data []byte, transferType vuv1.TransferType) (int, erro
 // Total size = 5 + (recordSize * noOfRecords)
 func sizeOfRecordArray(data []byte, offset int) (int, error) {
 	const headerSize = 5
-	if len(data[offset:]) < headerSize {
-		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, len(data[offset:]))
+	if len(data)-offset < headerSize {
+		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, len(data)-offset)
 	}
 
 	recordSize := binary.BigEndian.Uint16(data[offset+1:])
diff --git a/internal/vu/technical_data.go b/internal/vu/technical_data.go
index 5f1fbf6..9210b72 100644
--- a/internal/vu/technical_data.go
+++ b/internal/vu/technical_data.go
@@ -73,7 +73,7 @@ func sizeOfTechnicalDataGen1(data []byte) (int, error) {
 	offset += 20
 
 	// VuCalibrationData: 1 byte count + variable calibration records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuCalibrationRecords")
 	}
 	noOfVuCalibrationRecords := data[offset]
-- 
2.43.0


From ed58ad59c6f181a831842f5487184d46461dcf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 13/51] fix: read Gen2 vehicle unit transfers with the record
 arrays the format defines

---
 internal/vu/activities_gen2_v1.go     |  5 ++++
 internal/vu/activities_gen2_v2.go     | 15 ++++++++++
 internal/vu/events_faults.go          |  9 +-----
 internal/vu/events_faults_gen2_v1.go  |  4 +++
 internal/vu/events_faults_gen2_v2.go  |  4 +++
 internal/vu/technical_data.go         | 41 +++++++++++++++++++++++++--
 internal/vu/technical_data_gen2_v1.go | 14 ++++-----
 internal/vu/technical_data_gen2_v2.go | 14 ++++-----
 8 files changed, 81 insertions(+), 25 deletions(-)

diff --git a/internal/vu/activities_gen2_v1.go b/internal/vu/activities_gen2_v1.go
index 16aa91f..dba7955 100644
--- a/internal/vu/activities_gen2_v1.go
+++ b/internal/vu/activities_gen2_v1.go
@@ -75,6 +75,11 @@ func unmarshalActivitiesGen2V1(value []byte) (*vuv1.ActivitiesGen2V1, error) {
 		return nil, err
 	}
 
+	// VuGNSSADRecordArray
+	if err := skipRecordArray("VuGNSSAD"); err != nil {
+		return nil, err
+	}
+
 	// SignatureRecordArray (last)
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
diff --git a/internal/vu/activities_gen2_v2.go b/internal/vu/activities_gen2_v2.go
index 082db25..fc54a21 100644
--- a/internal/vu/activities_gen2_v2.go
+++ b/internal/vu/activities_gen2_v2.go
@@ -75,6 +75,21 @@ func unmarshalActivitiesGen2V2(value []byte) (*vuv1.ActivitiesGen2V2, error) {
 		return nil, err
 	}
 
+	// VuGNSSADRecordArray
+	if err := skipRecordArray("VuGNSSAD"); err != nil {
+		return nil, err
+	}
+
+	// VuBorderCrossingRecordArray
+	if err := skipRecordArray("VuBorderCrossing"); err != nil {
+		return nil, err
+	}
+
+	// VuLoadUnloadRecordArray
+	if err := skipRecordArray("VuLoadUnload"); err != nil {
+		return nil, err
+	}
+
 	// SignatureRecordArray (last)
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
diff --git a/internal/vu/events_faults.go b/internal/vu/events_faults.go
index 186cc51..24b897e 100644
--- a/internal/vu/events_faults.go
+++ b/internal/vu/events_faults.go
@@ -179,7 +179,7 @@ func sizeOfEventsAndFaultsGen2V1(data []byte) (int, error) {
 }
 
 // sizeOfEventsAndFaultsGen2V2 calculates size by parsing all Gen2 V2 RecordArrays.
-// Gen2 V2 has an additional VuTimeAdjustmentGNSSRecordArray.
+// Gen2 V2 has the same record arrays as Gen2 V1.
 func sizeOfEventsAndFaultsGen2V2(data []byte) (int, error) {
 	offset := 0
 
@@ -218,13 +218,6 @@ func sizeOfEventsAndFaultsGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// VuTimeAdjustmentGNSSRecordArray (Gen2 V2+)
-	size, err = sizeOfRecordArray(data, offset)
-	if err != nil {
-		return 0, fmt.Errorf("VuTimeAdjustmentGNSSRecordArray: %w", err)
-	}
-	offset += size
-
 	// SignatureRecordArray (last)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
diff --git a/internal/vu/events_faults_gen2_v1.go b/internal/vu/events_faults_gen2_v1.go
index 2d8103b..0f1f8c8 100644
--- a/internal/vu/events_faults_gen2_v1.go
+++ b/internal/vu/events_faults_gen2_v1.go
@@ -39,6 +39,10 @@ func unmarshalEventsAndFaultsGen2V1(value []byte) (*vuv1.EventsAndFaultsGen2V1,
 	if err := skipRecordArray("VuOverSpeedingControl"); err != nil {
 		return nil, err
 	}
+	// VuOverSpeedingEventRecordArray
+	if err := skipRecordArray("VuOverSpeedingEvent"); err != nil {
+		return nil, err
+	}
 	// VuTimeAdjustmentRecordArray
 	if err := skipRecordArray("VuTimeAdjustment"); err != nil {
 		return nil, err
diff --git a/internal/vu/events_faults_gen2_v2.go b/internal/vu/events_faults_gen2_v2.go
index b1f381e..c6e1416 100644
--- a/internal/vu/events_faults_gen2_v2.go
+++ b/internal/vu/events_faults_gen2_v2.go
@@ -39,6 +39,10 @@ func unmarshalEventsAndFaultsGen2V2(value []byte) (*vuv1.EventsAndFaultsGen2V2,
 	if err := skipRecordArray("VuOverSpeedingControl"); err != nil {
 		return nil, err
 	}
+	// VuOverSpeedingEventRecordArray
+	if err := skipRecordArray("VuOverSpeedingEvent"); err != nil {
+		return nil, err
+	}
 	// VuTimeAdjustmentRecordArray
 	if err := skipRecordArray("VuTimeAdjustment"); err != nil {
 		return nil, err
diff --git a/internal/vu/technical_data.go b/internal/vu/technical_data.go
index 9210b72..d4823fe 100644
--- a/internal/vu/technical_data.go
+++ b/internal/vu/technical_data.go
@@ -107,6 +107,13 @@ func sizeOfTechnicalDataGen2V1(data []byte) (int, error) {
 	}
 	offset += size
 
+	// SensorExternalGNSSCoupledRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("SensorExternalGNSSCoupledRecordArray: %w", err)
+	}
+	offset += size
+
 	// VuCalibrationRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
@@ -114,6 +121,27 @@ func sizeOfTechnicalDataGen2V1(data []byte) (int, error) {
 	}
 	offset += size
 
+	// VuCardRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuCardRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuITSConsentRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuITSConsentRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuPowerSupplyInterruptionRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuPowerSupplyInterruptionRecordArray: %w", err)
+	}
+	offset += size
+
 	// SignatureRecordArray (last)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
@@ -142,7 +170,7 @@ func sizeOfTechnicalDataGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// SensorExternalGNSSCoupledRecordArray (Gen2 V2+)
+	// SensorExternalGNSSCoupledRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("SensorExternalGNSSCoupledRecordArray: %w", err)
@@ -156,14 +184,21 @@ func sizeOfTechnicalDataGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// VuITSConsentRecordArray (Gen2 V2+)
+	// VuCardRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuCardRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuITSConsentRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("VuITSConsentRecordArray: %w", err)
 	}
 	offset += size
 
-	// VuPowerSupplyInterruptionRecordArray (Gen2 V2+)
+	// VuPowerSupplyInterruptionRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("VuPowerSupplyInterruptionRecordArray: %w", err)
diff --git a/internal/vu/technical_data_gen2_v1.go b/internal/vu/technical_data_gen2_v1.go
index 441cf72..1769ba1 100644
--- a/internal/vu/technical_data_gen2_v1.go
+++ b/internal/vu/technical_data_gen2_v1.go
@@ -27,25 +27,25 @@ func unmarshalTechnicalDataGen2V1(value []byte) (*vuv1.TechnicalDataGen2V1, erro
 	}
 
 	// Skip all record arrays
-	if err := skipRecordArray("VuApprovalNumber"); err != nil {
+	if err := skipRecordArray("VuIdentification"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSoftwareIdentification"); err != nil {
+	if err := skipRecordArray("SensorPaired"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerName"); err != nil {
+	if err := skipRecordArray("SensorExternalGNSSCoupled"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerAddress"); err != nil {
+	if err := skipRecordArray("VuCalibration"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuPartNumber"); err != nil {
+	if err := skipRecordArray("VuCard"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSerialNumber"); err != nil {
+	if err := skipRecordArray("VuITSConsent"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("SensorPaired"); err != nil {
+	if err := skipRecordArray("VuPowerSupplyInterruption"); err != nil {
 		return nil, err
 	}
 	if err := skipRecordArray("Signature"); err != nil {
diff --git a/internal/vu/technical_data_gen2_v2.go b/internal/vu/technical_data_gen2_v2.go
index 72fc1d5..14cfaad 100644
--- a/internal/vu/technical_data_gen2_v2.go
+++ b/internal/vu/technical_data_gen2_v2.go
@@ -27,25 +27,25 @@ func unmarshalTechnicalDataGen2V2(value []byte) (*vuv1.TechnicalDataGen2V2, erro
 	}
 
 	// Skip all record arrays
-	if err := skipRecordArray("VuApprovalNumber"); err != nil {
+	if err := skipRecordArray("VuIdentification"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSoftwareIdentification"); err != nil {
+	if err := skipRecordArray("SensorPaired"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerName"); err != nil {
+	if err := skipRecordArray("SensorExternalGNSSCoupled"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerAddress"); err != nil {
+	if err := skipRecordArray("VuCalibration"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuPartNumber"); err != nil {
+	if err := skipRecordArray("VuCard"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSerialNumber"); err != nil {
+	if err := skipRecordArray("VuITSConsent"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("SensorPaired"); err != nil {
+	if err := skipRecordArray("VuPowerSupplyInterruption"); err != nil {
 		return nil, err
 	}
 	if err := skipRecordArray("Signature"); err != nil {
-- 
2.43.0


From 3ddaac2fa7e02d270ed6bba57caecadf29408f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 14/51] fix: copy vehicle unit transfers out of the input
 buffer

---
 internal/vu/raw_vehicle_unit_file.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/vu/raw_vehicle_unit_file.go b/internal/vu/raw_vehicle_unit_file.go
index d52b1ec..2a254db 100644
--- a/internal/vu/raw_vehicle_unit_file.go
+++ b/internal/vu/raw_vehicle_unit_file.go
@@ -50,7 +50,8 @@ func unmarshalRawVehicleUnitFile(data []byte) (*vuv1.RawVehicleUnitFile, error)
 		if offset+valueSize > len(data) {
 			return nil, fmt.Errorf("insufficient data for %v value: need %d bytes, have %d", transferType, valueSize, len(data)-offset)
 		}
-		value := data[offset : offset+valueSize]
+		// Copy, so that the parsed file does not share memory with its input.
+		value := append([]byte(nil), data[offset:offset+valueSize]...)
 		offset += valueSize
 
 		// Create record
-- 
2.43.0


From 0a1a42b6c9af23cf3c4fc6137bf566d7cfeced49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 15/51] fix: decode the card slot status of a vehicle unit
 overview by its defined codes

---
 internal/vu/overview_gen1.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/vu/overview_gen1.go b/internal/vu/overview_gen1.go
index 59f1884..4ff0089 100644
--- a/internal/vu/overview_gen1.go
+++ b/internal/vu/overview_gen1.go
@@ -137,8 +137,14 @@ func unmarshalOverviewGen1(value []byte) (*vuv1.OverviewGen1, error) {
 		return nil, fmt.Errorf("insufficient data for CardSlotsStatus")
 	}
 	cardSlotsStatus := value[offset]
-	driverSlot := ddv1.SlotCardType(cardSlotsStatus & 0x0F)
-	coDriverSlot := ddv1.SlotCardType((cardSlotsStatus >> 4) & 0x0F)
+	driverSlot, err := dd.UnmarshalEnum[ddv1.SlotCardType](cardSlotsStatus & 0x0F)
+	if err != nil {
+		driverSlot = ddv1.SlotCardType_SLOT_CARD_TYPE_UNRECOGNIZED
+	}
+	coDriverSlot, err := dd.UnmarshalEnum[ddv1.SlotCardType]((cardSlotsStatus >> 4) & 0x0F)
+	if err != nil {
+		coDriverSlot = ddv1.SlotCardType_SLOT_CARD_TYPE_UNRECOGNIZED
+	}
 	overview.SetDriverSlotCard(driverSlot)
 	overview.SetCoDriverSlotCard(coDriverSlot)
 	offset += 1
@@ -403,11 +409,11 @@ func appendOverviewGen1(dst []byte, overview *vuv1.OverviewGen1) ([]byte, error)
 	// CardSlotsStatus (1 byte)
 	driverSlot, err := dd.MarshalEnum(overview.GetDriverSlotCard())
 	if err != nil {
-		driverSlot = 0
+		driverSlot = canvas[offset] & 0x0F
 	}
 	coDriverSlot, err := dd.MarshalEnum(overview.GetCoDriverSlotCard())
 	if err != nil {
-		coDriverSlot = 0
+		coDriverSlot = canvas[offset] >> 4
 	}
 	canvas[offset] = (coDriverSlot << 4) | (driverSlot & 0x0F)
 	offset += 1
-- 
2.43.0


From 2045dadfd98d5115c28975457cd84b92c6bcab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 16/51] fix: keep the download interface version of a Gen2 V2
 vehicle unit file

---
 internal/vu/download_interface_version.go | 20 ++++++++++++++++++++
 internal/vu/vehicle_unit_file.go          |  8 +++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/internal/vu/download_interface_version.go b/internal/vu/download_interface_version.go
index 69d6dcb..c146835 100644
--- a/internal/vu/download_interface_version.go
+++ b/internal/vu/download_interface_version.go
@@ -3,6 +3,8 @@ package vu
 import (
 	"fmt"
 
+	"github.com/way-platform/tachograph-go/internal/dd"
+	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
 )
 
@@ -38,3 +40,21 @@ func sizeOfDownloadInterfaceVersion(data []byte, transferType vuv1.TransferType)
 // ASN.1 Definition:
 //
 //	DownloadInterfaceVersion ::= OCTET STRING (SIZE (2))
+func unmarshalDownloadInterfaceVersion(value []byte) (*vuv1.DownloadInterfaceVersion, error) {
+	const lenDownloadInterfaceVersion = 2
+	if len(value) != lenDownloadInterfaceVersion {
+		return nil, fmt.Errorf("invalid data length for DownloadInterfaceVersion: got %d, want %d", len(value), lenDownloadInterfaceVersion)
+	}
+	version := &vuv1.DownloadInterfaceVersion{}
+	version.SetRawData(value)
+	if generation, err := dd.UnmarshalEnum[ddv1.Generation](value[0]); err == nil {
+		version.SetGeneration(generation)
+	}
+	switch value[1] {
+	case 1:
+		version.SetVersion(ddv1.Version_VERSION_1)
+	case 2:
+		version.SetVersion(ddv1.Version_VERSION_2)
+	}
+	return version, nil
+}
diff --git a/internal/vu/vehicle_unit_file.go b/internal/vu/vehicle_unit_file.go
index c0396e9..8fce776 100644
--- a/internal/vu/vehicle_unit_file.go
+++ b/internal/vu/vehicle_unit_file.go
@@ -219,9 +219,11 @@ func unmarshalVehicleUnitFileGen2V2(rawFile *vuv1.RawVehicleUnitFile) (*vuv1.Veh
 	for _, record := range rawFile.GetRecords() {
 		switch record.GetType() {
 		case vuv1.TransferType_DOWNLOAD_INTERFACE_VERSION:
-			// Download interface version can be parsed if needed
-			// For now, skip as it's mainly used for version detection
-			// output.SetDownloadInterfaceVersion(...)
+			version, err := unmarshalDownloadInterfaceVersion(record.GetValue())
+			if err != nil {
+				return nil, fmt.Errorf("unmarshal Download Interface Version: %w", err)
+			}
+			output.SetDownloadInterfaceVersion(version)
 
 		case vuv1.TransferType_OVERVIEW_GEN2_V2:
 			overview, err := unmarshalOverviewGen2V2(record.GetValue())
-- 
2.43.0


From 94cb582ec0672722fa2badba02bdc4c66d9f83e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 17/51] fix: follow the activity ring across its end and
 without a limit on the number of days

---
 internal/card/activity.go | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 061c706..328e63a 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -261,7 +261,7 @@ func appendDriverActivity(dst []byte, activity *cardv1.DriverActivityData) ([]by
 type cyclicRecordIterator struct {
 	buffer      []byte
 	currentPos  int
-	recordCount int
+	totalLength int
 	err         error
 
 	// Current record state
@@ -283,24 +283,21 @@ func NewCyclicRecordIterator(buffer []byte, startPos int) *cyclicRecordIterator
 // Returns true if a record was found, false if end of chain or error.
 // The iterator traverses backwards from newest to oldest record.
 func (it *cyclicRecordIterator) Next() bool {
-	const maxRecords = 366 // Safety limit to prevent infinite loops (max days per year + 1)
 	if it.err != nil {
 		return false
 	}
-	if it.recordCount >= maxRecords {
-		it.err = fmt.Errorf("exceeded maximum record count (%d), possible infinite loop", maxRecords)
-		return false
-	}
-	if len(it.buffer) == 0 {
-		return false // No data to parse
+	size := len(it.buffer)
+	if it.currentPos < 0 || it.currentPos >= size || size < 4 {
+		return false // No record at this position
 	}
-	// Validate current position for reading header
-	if it.currentPos < 0 || it.currentPos+4 > len(it.buffer) {
-		return false // Invalid position for header
+	// Read record header (4 bytes: prevRecordLength + currentRecordLength),
+	// which may wrap around the end of the buffer like the rest of the record.
+	var header [4]byte
+	for i := range header {
+		header[i] = it.buffer[(it.currentPos+i)%size]
 	}
-	// Read record header (4 bytes: prevRecordLength + currentRecordLength)
-	prevRecordLength := int(binary.BigEndian.Uint16(it.buffer[it.currentPos : it.currentPos+2]))
-	currentRecordLength := int(binary.BigEndian.Uint16(it.buffer[it.currentPos+2 : it.currentPos+4]))
+	prevRecordLength := int(binary.BigEndian.Uint16(header[0:2]))
+	currentRecordLength := int(binary.BigEndian.Uint16(header[2:4]))
 	if currentRecordLength == 0 {
 		return false // Zero-length record signifies end of chain
 	}
@@ -309,15 +306,20 @@ func (it *cyclicRecordIterator) Next() bool {
 		it.err = fmt.Errorf("invalid record length %d at position %d", currentRecordLength, it.currentPos)
 		return false
 	}
+	// The records of a chain do not overlap, so that together they fit the buffer.
+	it.totalLength += currentRecordLength
+	if it.totalLength > size {
+		it.err = fmt.Errorf("daily records exceed the buffer size (%d), possible infinite loop", size)
+		return false
+	}
 	// Store current record information
 	it.recordStart = it.currentPos
 	it.recordLength = currentRecordLength
 	// Extract record bytes, handling buffer wrap-around
 	it.recordBytes = make([]byte, currentRecordLength)
 	for i := 0; i < currentRecordLength; i++ {
-		it.recordBytes[i] = it.buffer[(it.currentPos+i)%len(it.buffer)]
+		it.recordBytes[i] = it.buffer[(it.currentPos+i)%size]
 	}
-	it.recordCount++
 	// Move to previous record for next iteration
 	if prevRecordLength == 0 {
 		// End of chain marker - no more records
@@ -326,7 +328,7 @@ func (it *cyclicRecordIterator) Next() bool {
 		// Move backwards by prevRecordLength, handling wrap-around
 		it.currentPos -= prevRecordLength
 		if it.currentPos < 0 {
-			it.currentPos += len(it.buffer)
+			it.currentPos += size
 		}
 	}
 	return true
-- 
2.43.0


From b9909664072bf597ae49067554398985d546fa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 18/51] fix: keep every activity change of a daily record

---
 internal/card/activity.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 328e63a..5c94e21 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -59,10 +59,7 @@ func (opts UnmarshalOptions) unmarshalDriverActivityData(data []byte) (*cardv1.D
 	target.SetNewestDayRecordIndex(int32(newestDayRecordPointer))
 
 	// The rest of the data is the cyclic buffer of daily records.
-	activityData := make([]byte, r.Len())
-	if _, err := r.Read(activityData); err != nil {
-		return nil, fmt.Errorf("failed to read activity daily records: %w", err)
-	}
+	activityData := bytes.Clone(data[lenCardDriverActivityHeader:])
 
 	// Store the raw cyclic buffer for round-trip fidelity
 	target.SetRawData(activityData)
@@ -178,13 +175,6 @@ func (opts UnmarshalOptions) parseSingleActivityDailyRecord(data []byte) (*cardv
 	var activityChanges []*ddv1.ActivityChangeInfo
 
 	for offset+2 <= len(data) {
-		// Check for invalid entries before parsing (all zeros or all ones)
-		changeData := binary.BigEndian.Uint16(data[offset : offset+2])
-		if changeData == 0 || changeData == 0xFFFF {
-			offset += 2
-			continue
-		}
-
 		// Parse ActivityChangeInfo using centralized helper
 		activityChange, err := opts.UnmarshalActivityChangeInfo(data[offset : offset+2])
 		if err != nil {
-- 
2.43.0


From c3e640ab4285e851d1d8130bc219179aee7093fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 19/51] fix: write edited daily activity records and lay out
 rebuilt activity buffers consistently

---
 internal/card/activity.go | 235 ++++++++++++++++++--------------------
 1 file changed, 108 insertions(+), 127 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 5c94e21..7a03dfc 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 
 	"github.com/way-platform/tachograph-go/internal/dd"
 
@@ -221,24 +222,81 @@ func appendDriverActivity(dst []byte, activity *cardv1.DriverActivityData) ([]by
 		return dst, nil
 	}
 
-	// Append header (pointers)
-	dst = binary.BigEndian.AppendUint16(dst, uint16(activity.GetOldestDayRecordIndex()))
-	dst = binary.BigEndian.AppendUint16(dst, uint16(activity.GetNewestDayRecordIndex()))
-
-	// For perfect round-trip fidelity, use raw buffer directly when available.
-	// This preserves all padding, reserved bits, and linked-list structure.
-	if rawBuffer := activity.GetRawData(); len(rawBuffer) > 0 {
-		dst = append(dst, rawBuffer...)
+	// With the original buffer at hand, the records are written over it at the
+	// places where it holds them. This preserves the bytes between the records
+	// and the linked-list structure.
+	buffer := activity.GetRawData()
+	oldest, newest := activity.GetOldestDayRecordIndex(), activity.GetNewestDayRecordIndex()
+	var err error
+	if len(buffer) > 0 {
+		buffer, err = paintDailyRecords(buffer, int(newest), activity.GetDailyRecords())
 	} else {
-		// Fallback: Build cyclic buffer from scratch with proper linked-list structure
-		buffer, err := buildCyclicBufferFromRecords(activity.GetDailyRecords(), int(activity.GetNewestDayRecordIndex()))
-		if err != nil {
-			return nil, fmt.Errorf("failed to build cyclic buffer: %w", err)
+		buffer, newest, err = buildCyclicBufferFromRecords(activity.GetDailyRecords())
+		if len(buffer) > 0 {
+			oldest = 0
+		} else {
+			newest = activity.GetNewestDayRecordIndex()
 		}
-		dst = append(dst, buffer...)
+	}
+	if err != nil {
+		return nil, fmt.Errorf("failed to build cyclic buffer: %w", err)
 	}
 
-	return dst, nil
+	// Append header (pointers) and buffer
+	if dst, err = appendUint16(dst, oldest); err != nil {
+		return nil, fmt.Errorf("failed to append oldest day record pointer: %w", err)
+	}
+	if dst, err = appendUint16(dst, newest); err != nil {
+		return nil, fmt.Errorf("failed to append newest day record pointer: %w", err)
+	}
+	return append(dst, buffer...), nil
+}
+
+// paintDailyRecords returns a copy of the cyclic buffer in which the records of the
+// chain that ends at newestPos hold the given daily records (oldest first).
+func paintDailyRecords(raw []byte, newestPos int, records []*cardv1.DriverActivityData_DailyRecord) ([]byte, error) {
+	buffer := bytes.Clone(raw)
+	iterator := NewCyclicRecordIterator(raw, newestPos)
+	remaining := len(records)
+	for iterator.Next() {
+		original, position, length := iterator.Record()
+		remaining--
+		if remaining < 0 {
+			return nil, fmt.Errorf("fewer daily records (%d) than the raw data holds", len(records))
+		}
+		rec := records[remaining]
+		content := rec.GetRawData()
+		if rec.GetValid() {
+			prevLength := int(binary.BigEndian.Uint16(original))
+			if int(rec.GetActivityPreviousRecordLength()) != prevLength || int(rec.GetActivityRecordLength()) != length {
+				return nil, fmt.Errorf("record lengths of daily record %d differ from the raw data", remaining)
+			}
+			var err error
+			content, err = marshalRecordWithHeader(rec, prevLength, length)
+			if err != nil {
+				return nil, fmt.Errorf("failed to marshal record %d: %w", remaining, err)
+			}
+			// An odd length leaves one byte that belongs to no activity change.
+			if length-len(content) == 1 {
+				content = append(content, original[length-1])
+			}
+		} else if len(content) != length || !bytes.Equal(content[:4], original[:4]) {
+			return nil, fmt.Errorf("raw data of daily record %d does not match the raw data of the buffer", remaining)
+		}
+		if len(content) != length {
+			return nil, fmt.Errorf("daily record %d occupies %d bytes, but the raw data holds %d", remaining, len(content), length)
+		}
+		for i, b := range content {
+			buffer[(position+i)%len(buffer)] = b
+		}
+	}
+	if err := iterator.Err(); err != nil {
+		return nil, err
+	}
+	if remaining != 0 {
+		return nil, fmt.Errorf("more daily records (%d) than the raw data holds", len(records))
+	}
+	return buffer, nil
 }
 
 // cyclicRecordIterator provides a clean interface for traversing the cyclic buffer
@@ -338,120 +396,43 @@ func (it *cyclicRecordIterator) Err() error {
 // buildCyclicBufferFromRecords constructs a cyclic buffer from scratch with proper
 // linked-list structure. This is used when raw_data is not available (e.g., after anonymization).
 //
-// LIMITATION: This function does not perfectly reconstruct the original cyclic buffer because:
-// - We don't know the original buffer's total size (only the records we parsed)
-// - We don't know the original absolute positions of records (only relative prev/current lengths)
-// - We create a sequential buffer sized to fit all records contiguously
-//
-// This means the reconstructed buffer may differ from the original in:
-// - Total buffer size
-// - Record positions (we place sequentially, original may have gaps/wrapping)
-// - The order records appear when re-parsed (cyclic iterator may traverse differently)
-//
-// For perfect fidelity, callers should preserve and use the original raw_data buffer directly.
-// This fallback is primarily for testing scenarios where we need to marshal modified records.
+// The buffer holds exactly the records, one after the other in chronological order
+// (oldest to newest). Each record starts with a header of two bytes with the length of
+// the previous record (0 for the oldest one) and two bytes with its own length, so that
+// the records can be traversed from newest to oldest.
 //
-// TODO: To fix this limitation:
-// - Store original buffer size during parsing
-// - Store absolute positions of records (not just prev/next lengths)
-// - Allocate buffer of original size and place records at original positions
-//
-// The cyclic buffer structure:
-// - Records are stored sequentially in chronological order (oldest to newest)
-// - Each record has a header: [prevRecordLength: 2 bytes][currentRecordLength: 2 bytes]
-// - The prevRecordLength points backward to enable traversal from newest to oldest
-// - The newest record is at position newestRecordPos
-//
-// The buffer is sized to accommodate all records sequentially starting from position 0.
-func buildCyclicBufferFromRecords(records []*cardv1.DriverActivityData_DailyRecord, newestRecordPos int) ([]byte, error) {
-	if len(records) == 0 {
-		return nil, nil
-	}
-
-	// First pass: calculate the size of each record
-	recordSizes := make([]int, len(records))
-	totalRecordsSize := 0
+// It returns the buffer and the position of the newest record.
+func buildCyclicBufferFromRecords(records []*cardv1.DriverActivityData_DailyRecord) ([]byte, int32, error) {
+	var buffer []byte
+	newestPos, prevRecordLength := 0, 0
 	for i, rec := range records {
-		if !rec.GetValid() {
-			// For invalid records, use raw_data length if available
-			if raw := rec.GetRawData(); len(raw) > 0 {
-				recordSizes[i] = len(raw)
-			} else {
-				return nil, fmt.Errorf("invalid record %d has no raw data", i)
-			}
-		} else {
-			// Calculate size for valid record
-			size, err := calculateRecordSize(rec)
+		var content []byte
+		if rec.GetValid() {
+			var err error
+			content, err = marshalRecordWithHeader(rec, prevRecordLength, lenDailyRecordHeader+8+2*len(rec.GetActivityChangeInfo()))
 			if err != nil {
-				return nil, fmt.Errorf("failed to calculate size for record %d: %w", i, err)
+				return nil, 0, fmt.Errorf("failed to marshal record %d: %w", i, err)
 			}
-			recordSizes[i] = size
-		}
-		totalRecordsSize += recordSizes[i]
-	}
-
-	// Calculate buffer size: must be large enough for all records starting at position 0
-	// In a real cyclic buffer, we'd place records at their original positions, but since
-	// we don't know the original buffer size, we create a buffer that fits all records sequentially.
-	bufferSize := totalRecordsSize
-
-	// Allocate buffer (zero-filled by default)
-	buffer := make([]byte, bufferSize)
-
-	// Second pass: write records to buffer with proper linked-list pointers
-	// Records are written in chronological order (oldest to newest)
-	currentPos := 0
-	for i, rec := range records {
-		recordSize := recordSizes[i]
-
-		// Calculate prevRecordLength (0 for first/oldest record, previous record's size for others)
-		prevRecordLength := 0
-		if i > 0 {
-			prevRecordLength = recordSizes[i-1]
-		}
-
-		// Write the record
-		if !rec.GetValid() {
-			// For invalid records, copy raw_data as-is (it already has the correct header)
-			copy(buffer[currentPos:], rec.GetRawData())
 		} else {
-			// For valid records, marshal with proper header
-			recordWithHeader, err := marshalRecordWithHeader(rec, prevRecordLength, recordSize)
-			if err != nil {
-				return nil, fmt.Errorf("failed to marshal record %d: %w", i, err)
+			// Invalid records keep their bytes, apart from the link to their new neighbour.
+			content = bytes.Clone(rec.GetRawData())
+			if len(content) < lenDailyRecordHeader || len(content) != int(binary.BigEndian.Uint16(content[2:4])) {
+				return nil, 0, fmt.Errorf("raw data of invalid record %d does not hold a record", i)
 			}
-			copy(buffer[currentPos:], recordWithHeader)
+			binary.BigEndian.PutUint16(content, uint16(prevRecordLength))
 		}
-
-		currentPos += recordSize
+		newestPos = len(buffer)
+		buffer = append(buffer, content...)
+		if len(buffer) > math.MaxUint16 {
+			return nil, 0, fmt.Errorf("daily records do not fit the cyclic buffer")
+		}
+		prevRecordLength = len(content)
 	}
-
-	return buffer, nil
+	return buffer, int32(newestPos), nil
 }
 
-// calculateRecordSize calculates the size of a marshalled activity record.
-// For records with activity_record_length set, we use that to preserve padding.
-// Otherwise, we calculate from content.
-func calculateRecordSize(rec *cardv1.DriverActivityData_DailyRecord) (int, error) {
-	// Use original record length if available (preserves padding)
-	if recordLength := rec.GetActivityRecordLength(); recordLength > 0 {
-		return int(recordLength), nil
-	}
-
-	// Fallback: calculate from content
-	const (
-		lenHeader               = 4 // prevRecordLength (2) + currentRecordLength (2)
-		lenTimeReal             = 4 // activity record date
-		lenDailyPresenceCounter = 2 // BCD counter
-		lenDayDistance          = 2 // distance
-		lenActivityChangeInfo   = 2 // each activity change
-	)
-
-	size := lenHeader + lenTimeReal + lenDailyPresenceCounter + lenDayDistance
-	size += len(rec.GetActivityChangeInfo()) * lenActivityChangeInfo
-
-	return size, nil
-}
+// lenDailyRecordHeader is the size of prevRecordLength (2) + currentRecordLength (2).
+const lenDailyRecordHeader = 4
 
 // marshalRecordWithHeader marshals a single activity record with the correct header values.
 // This ensures the linked-list structure is properly maintained.
@@ -469,12 +450,19 @@ func marshalRecordWithHeader(rec *cardv1.DriverActivityData_DailyRecord, prevRec
 		return nil, fmt.Errorf("failed to append activity record date: %w", err)
 	}
 
-	buf, err = dd.AppendBcdString(buf, rec.GetActivityDailyPresenceCounter())
+	counter := rec.GetActivityDailyPresenceCounter()
+	if counter == nil || counter.GetLength() != 2 {
+		return nil, fmt.Errorf("activity daily presence counter must have 2 bytes")
+	}
+	buf, err = dd.AppendBcdString(buf, counter)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append activity daily presence counter: %w", err)
 	}
 
-	buf = binary.BigEndian.AppendUint16(buf, uint16(rec.GetActivityDayDistance()))
+	buf, err = appendUint16(buf, rec.GetActivityDayDistance())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append activity day distance: %w", err)
+	}
 
 	// Write activity change info
 	for _, ac := range rec.GetActivityChangeInfo() {
@@ -484,12 +472,5 @@ func marshalRecordWithHeader(rec *cardv1.DriverActivityData_DailyRecord, prevRec
 		}
 	}
 
-	// Add padding if the current length is less than the expected record length
-	// This preserves any padding bytes that were in the original record
-	if len(buf) < currentRecordLength {
-		padding := make([]byte, currentRecordLength-len(buf))
-		buf = append(buf, padding...)
-	}
-
 	return buf, nil
 }
-- 
2.43.0


From 07db1345a78dca33acfcc3fd0b27ac5872491500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 20/51] fix: find certificates in the embedded store by their
 reference

---
 internal/cert/certcache/embed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/cert/certcache/embed.go b/internal/cert/certcache/embed.go
index d28f1eb..0268fb3 100644
--- a/internal/cert/certcache/embed.go
+++ b/internal/cert/certcache/embed.go
@@ -19,7 +19,7 @@ func Root() []byte {
 
 // ReadG1 reads a cached Gen1 certificate by its CHR.
 func ReadG1(chr string) ([]byte, bool) {
-	data, err := g1.ReadFile(chr + ".bin")
+	data, err := g1.ReadFile("g1/" + chr + ".bin")
 	if err != nil {
 		return nil, false
 	}
@@ -28,7 +28,7 @@ func ReadG1(chr string) ([]byte, bool) {
 
 // ReadG2 reads a cached Gen2 certificate by its CHR.
 func ReadG2(chr string) ([]byte, bool) {
-	data, err := g2.ReadFile(chr + ".bin")
+	data, err := g2.ReadFile("g2/" + chr + ".bin")
 	if err != nil {
 		return nil, false
 	}
-- 
2.43.0


From 29ba9964e9bab35644472f05aca9d6fc8b3e0a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 21/51] fix: hand out a copy of the embedded root certificate

---
 internal/cert/certcache/embed.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/cert/certcache/embed.go b/internal/cert/certcache/embed.go
index 0268fb3..5e7e609 100644
--- a/internal/cert/certcache/embed.go
+++ b/internal/cert/certcache/embed.go
@@ -1,7 +1,10 @@
 // Package certcache provides an embedded cache of certificates.
 package certcache
 
-import "embed"
+import (
+	"bytes"
+	"embed"
+)
 
 //go:embed root/EC_PK.bin
 var root []byte
@@ -14,7 +17,7 @@ var g2 embed.FS
 
 // Root returns the ERCA root certificate.
 func Root() []byte {
-	return root
+	return bytes.Clone(root)
 }
 
 // ReadG1 reads a cached Gen1 certificate by its CHR.
-- 
2.43.0


From a32ba52c25acf2098c3179764f44b4a2040e6cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 22/51] fix: withdraw the signature-valid mark when a
 verification fails early

---
 internal/card/driver_card_file.go |  8 ++++++++
 internal/security/ecc_verify.go   |  2 ++
 internal/security/rsa_verify.go   | 12 +++++++++---
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index c527e8b..0ed0e7f 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -1059,6 +1059,14 @@ func (o VerifyOptions) VerifyDriverCardFile(ctx context.Context, file *cardv1.Dr
 		return fmt.Errorf("driver card file cannot be nil")
 	}
 
+	// A mark left by an earlier verification must not outlive a failing one.
+	if cert := file.GetTachograph().GetCardCertificate().GetRsaCertificate(); cert != nil {
+		cert.SetSignatureValid(false)
+	}
+	if cert := file.GetTachographG2().GetCardSignCertificate().GetEccCertificate(); cert != nil {
+		cert.SetSignatureValid(false)
+	}
+
 	// Verify Generation 1 certificates (RSA)
 	if tachograph := file.GetTachograph(); tachograph != nil {
 		if err := o.verifyGen1Certificates(ctx, tachograph); err != nil {
diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 42265d4..7481c19 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -38,6 +38,8 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	if cert == nil {
 		return fmt.Errorf("certificate cannot be nil")
 	}
+	// The mark of an earlier verification must not outlive a failing one.
+	cert.SetSignatureValid(false)
 	if caCert == nil {
 		return fmt.Errorf("CA certificate cannot be nil")
 	}
diff --git a/internal/security/rsa_verify.go b/internal/security/rsa_verify.go
index 64c5263..8344e6c 100644
--- a/internal/security/rsa_verify.go
+++ b/internal/security/rsa_verify.go
@@ -19,6 +19,9 @@ import (
 // See Appendix 11, Section 3.3 for the complete specification.
 func VerifyRsaCertificateWithCA(cert *securityv1.RsaCertificate, caCert *securityv1.RsaCertificate) error {
 	if caCert == nil {
+		if cert != nil {
+			cert.SetSignatureValid(false)
+		}
 		return fmt.Errorf("CA certificate cannot be nil")
 	}
 
@@ -39,6 +42,9 @@ func VerifyRsaCertificateWithCA(cert *securityv1.RsaCertificate, caCert *securit
 // RSA certificate verification.
 func VerifyRsaCertificateWithRoot(cert *securityv1.RsaCertificate, root *securityv1.RootCertificate) error {
 	if root == nil {
+		if cert != nil {
+			cert.SetSignatureValid(false)
+		}
 		return fmt.Errorf("root certificate cannot be nil")
 	}
 
@@ -91,6 +97,8 @@ func verifyRsaCertificate(cert *securityv1.RsaCertificate, caModulus, caExponent
 	if cert == nil {
 		return fmt.Errorf("certificate cannot be nil")
 	}
+	// The mark of an earlier verification must not outlive a failing one.
+	cert.SetSignatureValid(false)
 
 	rawData := cert.GetRawData()
 	if len(rawData) != 194 {
@@ -223,9 +231,7 @@ func verifyRsaCertificate(cert *securityv1.RsaCertificate, caModulus, caExponent
 	cert.SetSignatureValid(true)
 	cert.SetCertificateHolderReference(chrStr)
 	cert.SetCertificateAuthorityReference(carStr)
-	if eov != nil {
-		cert.SetEndOfValidity(eov)
-	}
+	cert.SetEndOfValidity(eov)
 	cert.SetRsaModulus(certModulus)
 	cert.SetRsaExponent(certExponent)
 
-- 
2.43.0


From b0e211961a48822efc6d4d7e0dcb6e0d25db19cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:01 +0000
Subject: [PATCH 23/51] fix: reject unusable issuer keys instead of panicking
 or looping on them

---
 internal/security/ecc_verify.go | 11 +++++++++++
 internal/security/rsa_verify.go |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 7481c19..93718c9 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -115,6 +115,10 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	caX := new(big.Int).SetBytes(caPointX)
 	caY := new(big.Int).SetBytes(caPointY)
 
+	if !isOnCurve(curve, caX, caY) {
+		return fmt.Errorf("CA certificate public key is not a point of its curve")
+	}
+
 	caPub := &ecdsa.PublicKey{
 		Curve: curve,
 		X:     caX,
@@ -133,6 +137,13 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	return nil
 }
 
+// isOnCurve reports whether x and y are the coordinates of a point of the curve.
+// Operations on other points make the curve implementations panic.
+func isOnCurve(curve elliptic.Curve, x, y *big.Int) bool {
+	p := curve.Params().P
+	return x.Cmp(p) < 0 && y.Cmp(p) < 0 && curve.IsOnCurve(x, y)
+}
+
 // parseCurveOID parses an elliptic curve OID and returns the hash size (in bits)
 // and the elliptic.Curve interface.
 //
diff --git a/internal/security/rsa_verify.go b/internal/security/rsa_verify.go
index 8344e6c..868c64f 100644
--- a/internal/security/rsa_verify.go
+++ b/internal/security/rsa_verify.go
@@ -137,6 +137,9 @@ func verifyRsaCertificate(cert *securityv1.RsaCertificate, caModulus, caExponent
 	sigInt := new(big.Int).SetBytes(signature)
 	modulus := new(big.Int).SetBytes(caModulus)
 	exponent := new(big.Int).SetBytes(caExponent)
+	if modulus.Sign() == 0 {
+		return fmt.Errorf("CA public key has a zero modulus")
+	}
 
 	recovered := new(big.Int).Exp(sigInt, exponent, modulus)
 	srPrime := recovered.Bytes()
-- 
2.43.0


From fed9f921c3217e387b0b474b4429dd749838073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 24/51] fix: reject a downloaded certificate with another
 holder reference

---
 internal/cert/client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/cert/client.go b/internal/cert/client.go
index 366c7de..869ea38 100644
--- a/internal/cert/client.go
+++ b/internal/cert/client.go
@@ -98,5 +98,12 @@ func (c *Client) GetEccCertificate(ctx context.Context, chr string) (*securityv1
 	if err != nil {
 		return nil, err
 	}
-	return security.UnmarshalEccCertificate(body)
+	cert, err := security.UnmarshalEccCertificate(body)
+	if err != nil {
+		return nil, err
+	}
+	if cert.GetCertificateHolderReference() != chr {
+		return nil, fmt.Errorf("downloaded certificate has CHR %s, want %s", cert.GetCertificateHolderReference(), chr)
+	}
+	return cert, nil
 }
-- 
2.43.0


From 19f5711f8f6275c15511722b10eebb087fb4efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 25/51] fix: attach a signature only to a file of the same
 application

---
 internal/card/driver_card_file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 0ed0e7f..0c6f438 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -72,7 +72,9 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 		var signature []byte
 		if i+1 < len(input.GetRecords()) {
 			nextRecord := input.GetRecords()[i+1]
-			if nextRecord.GetFile() == record.GetFile() && nextRecord.GetContentType() == cardv1.ContentType_SIGNATURE {
+			if nextRecord.GetFile() == record.GetFile() &&
+				nextRecord.GetGeneration() == record.GetGeneration() &&
+				nextRecord.GetContentType() == cardv1.ContentType_SIGNATURE {
 				signature = nextRecord.GetValue()
 				i++
 			}
-- 
2.43.0


From 723550f4add8e061196e9687e49ce57c8d07209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 26/51] fix: read a driver card number whose replacement or
 renewal index is a letter

---
 internal/card/identification.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index be59d81..9186103 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -19,6 +19,12 @@ func createIA5StringValue(value string, length int32) *ddv1.Ia5StringValue {
 	return sv
 }
 
+// isCardIndex reports whether b is a card replacement or renewal index. The
+// indices increase from '0' to '9' and then from 'A' to 'Z'.
+func isCardIndex(b byte) bool {
+	return b >= '0' && b <= '9' || b >= 'A' && b <= 'Z'
+}
+
 // unmarshalIdentification parses the binary data for an EF_Identification record.
 //
 // The data type `CardIdentification` is specified in the Data Dictionary, Section 2.1.
@@ -87,10 +93,10 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 	// Try to parse as driver card first (14 + 1 + 1 format)
 	driverIdentification, err := opts.UnmarshalIa5StringValue(cardNumberData[0:14])
 	if err == nil {
-		// Check if bytes 14 and 15 are single digits (0-9)
+		// Check if bytes 14 and 15 are card indices (0-9, then A-Z)
 		replacementByte := cardNumberData[14]
 		renewalByte := cardNumberData[15]
-		if replacementByte >= '0' && replacementByte <= '9' && renewalByte >= '0' && renewalByte <= '9' {
+		if isCardIndex(replacementByte) && isCardIndex(renewalByte) {
 			// This looks like a driver card format
 			driverID := &ddv1.DriverIdentification{}
 			driverID.SetDriverIdentificationNumber(driverIdentification)
-- 
2.43.0


From 7d7a3d900b73c3be2fc29002107d6bb50139fc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 27/51] fix: copy event and fault records out of the scanner
 buffer before reading them

---
 internal/card/events.go | 4 ++--
 internal/card/faults.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/card/events.go b/internal/card/events.go
index 53870af..00bc217 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -52,7 +52,7 @@ func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsDat
 
 	var records []*cardv1.EventsData_Record
 	for scanner.Scan() {
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes()) // the scanner reuses its buffer
 		// Check if this is a valid record by examining the event begin time (first 4 bytes after event type)
 		// Event type is 1 byte, so event begin time starts at byte 1
 		eventBeginTime := binary.BigEndian.Uint32(recordData[1:5])
@@ -60,7 +60,7 @@ func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsDat
 			// Non-valid record: preserve original bytes
 			rec := &cardv1.EventsData_Record{}
 			rec.SetValid(false)
-			rec.SetRawData(bytes.Clone(recordData)) // the scanner reuses its buffer
+			rec.SetRawData(recordData)
 			records = append(records, rec)
 		} else {
 			// Valid record: parse semantic data
diff --git a/internal/card/faults.go b/internal/card/faults.go
index dc7b738..942dde7 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -52,7 +52,7 @@ func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsDat
 
 	var records []*cardv1.FaultsData_Record
 	for scanner.Scan() {
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes()) // the scanner reuses its buffer
 		// Check if this is a valid record by examining the fault begin time (first 4 bytes after fault type)
 		// Fault type is 1 byte, so fault begin time starts at byte 1
 		faultBeginTime := binary.BigEndian.Uint32(recordData[1:5])
@@ -62,7 +62,7 @@ func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsDat
 		if faultBeginTime == 0 {
 			// Non-valid record: preserve original bytes
 			rec.SetValid(false)
-			rec.SetRawData(bytes.Clone(recordData)) // the scanner reuses its buffer
+			rec.SetRawData(recordData)
 		} else {
 			// Valid record: parse semantic data
 			rec.SetValid(true)
-- 
2.43.0


From 8d483bcdf2d7f706dea8c26f92d4e6c3f54559f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 28/51] fix: refuse to write an extended serial number without
 an equipment type

---
 internal/dd/extended_serial_number.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/dd/extended_serial_number.go b/internal/dd/extended_serial_number.go
index d36066d..4075e1a 100644
--- a/internal/dd/extended_serial_number.go
+++ b/internal/dd/extended_serial_number.go
@@ -160,13 +160,11 @@ func AppendExtendedSerialNumberAsString(dst []byte, esn *ddv1.ExtendedSerialNumb
 	}
 
 	// Next byte: equipment type (converted to protocol value using generic helper)
-	if esn.GetType() != ddv1.EquipmentType_EQUIPMENT_TYPE_UNSPECIFIED {
-		protocolValue, err := MarshalEnum(esn.GetType())
-		if err != nil {
-			return nil, fmt.Errorf("failed to marshal equipment type: %w", err)
-		}
-		serialBytes[6] = protocolValue
+	protocolValue, err := MarshalEnum(esn.GetType())
+	if err != nil {
+		return nil, fmt.Errorf("failed to marshal equipment type: %w", err)
 	}
+	serialBytes[6] = protocolValue
 
 	// Last byte: manufacturer code
 	manufacturerCode := esn.GetManufacturerCode()
-- 
2.43.0


From 0b0be0fdab2a781c3a74a50d93739cd7297e7168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 29/51] fix: write a cleared region as zero instead of the
 region read before

---
 internal/dd/place_record.go    | 2 +-
 internal/dd/place_record_g2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/dd/place_record.go b/internal/dd/place_record.go
index 2d9cc00..4ed4012 100644
--- a/internal/dd/place_record.go
+++ b/internal/dd/place_record.go
@@ -114,10 +114,10 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 	if len(regionBytes) > 1 {
 		return nil, fmt.Errorf("invalid region length: got %d, want 1", len(regionBytes))
 	}
+	canvas[6] = 0
 	if len(regionBytes) > 0 {
 		canvas[6] = regionBytes[0]
 	}
-	// Otherwise leave as zero (or preserved from raw_data)
 
 	// Odometer (3 bytes)
 	odometerBytes, err := appendOdometerKm(nil, rec.GetVehicleOdometerKm())
diff --git a/internal/dd/place_record_g2.go b/internal/dd/place_record_g2.go
index d479d7c..03d79cc 100644
--- a/internal/dd/place_record_g2.go
+++ b/internal/dd/place_record_g2.go
@@ -122,10 +122,10 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 	if len(regionBytes) > 1 {
 		return nil, fmt.Errorf("invalid region length: got %d, want 1", len(regionBytes))
 	}
+	canvas[6] = 0
 	if len(regionBytes) > 0 {
 		canvas[6] = regionBytes[0]
 	}
-	// Otherwise leave as zero (or preserved from raw_data)
 
 	// Odometer (3 bytes)
 	odometerBytes, err := appendOdometerKm(nil, rec.GetVehicleOdometerKm())
-- 
2.43.0


From 6601c73644f85be54a2099ba36a3a4cc21049323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 30/51] fix: refuse to write a month without a year as a month
 of 2000

---
 internal/dd/month_year.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/dd/month_year.go b/internal/dd/month_year.go
index 7d83d2b..ffbf1a5 100644
--- a/internal/dd/month_year.go
+++ b/internal/dd/month_year.go
@@ -78,6 +78,8 @@ func AppendMonthYear(dst []byte, monthYear *ddv1.MonthYear) ([]byte, error) {
 	// Convert 4-digit year to 2-digit for BCD encoding; a year of zero is an unset value.
 	if year != 0 {
 		year -= 2000
+	} else if month != 0 {
+		return nil, fmt.Errorf("missing year of month %d", month)
 	}
 	dst, err := appendBCD(dst, int(month), 1)
 	if err != nil {
-- 
2.43.0


From 121bdf600a620391bd3770b276d0c3ef7bdb50e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 31/51] fix: refuse to write an unrecognized value that stands
 for a known one

---
 internal/dd/enum.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/dd/enum.go b/internal/dd/enum.go
index ef833da..7e61340 100644
--- a/internal/dd/enum.go
+++ b/internal/dd/enum.go
@@ -77,5 +77,8 @@ func marshalEnumOrUnrecognized[T interface {
 	if unrecognizedValue < 0 || unrecognizedValue > 0xFF {
 		return 0, fmt.Errorf("unrecognized value out of range for %s: %d", value.Descriptor().FullName(), unrecognizedValue)
 	}
+	if known, err := UnmarshalEnum[T](byte(unrecognizedValue)); err == nil {
+		return 0, fmt.Errorf("unrecognized value %d of %s stands for %v", unrecognizedValue, value.Descriptor().FullName(), known)
+	}
 	return byte(unrecognizedValue), nil
 }
-- 
2.43.0


From e5a93b7eb1460796e73757d0302d0f2db07b9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 32/51] fix: refuse to write text in an encoding that cannot
 hold it

---
 internal/dd/string_value.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index a225727..23af447 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -90,6 +90,9 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 	}
 
 	// Determine the code page byte from the encoding field
+	if _, ok := ddv1.Encoding_name[int32(sv.GetEncoding())]; !ok {
+		return nil, fmt.Errorf("no code page for encoding %d", sv.GetEncoding())
+	}
 	codePage := getCodePageFromEncoding(sv.GetEncoding())
 
 	// Use raw data painting approach if raw_data is available
@@ -102,7 +105,12 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 		// The string data at offset 1+ is already correct in raw_data
 		// unless the encoding is one that no code page byte stands for, in which case the
 		// remembered byte is the only record of it.
-		if sv.GetEncoding() != ddv1.Encoding_ENCODING_UNRECOGNIZED || getEncodingFromCodePage(canvas[0]) != ddv1.Encoding_ENCODING_UNRECOGNIZED {
+		switch {
+		case sv.GetEncoding() == ddv1.Encoding_ENCODING_UNSPECIFIED:
+		case sv.GetEncoding() == ddv1.Encoding_ENCODING_UNRECOGNIZED && getEncodingFromCodePage(canvas[0]) == ddv1.Encoding_ENCODING_UNRECOGNIZED:
+		case codePage == 255 && sv.GetValue() != "":
+			return nil, fmt.Errorf("code page 255 (empty) cannot hold text %q", sv.GetValue())
+		default:
 			canvas[0] = codePage
 		}
 
-- 
2.43.0


From 8a1b2eca6346703238ef32e1bc32240fa7c1dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 33/51] fix: refuse to write a driver card file that cannot be
 read back

---
 internal/card/driver_card_file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 0c6f438..f0e3829 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -642,6 +642,11 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 	var err error
 
+	// A card file without EF_ICC is not recognized as one.
+	if card.GetIcc() == nil {
+		return nil, fmt.Errorf("missing EF_ICC of driver card file")
+	}
+
 	// 1. EF_ICC (0x0002) - no signature
 	dst, err = appendTlvUnsigned(dst, cardv1.ElementaryFileType_EF_ICC, card.GetIcc(), appendIcc)
 	if err != nil {
-- 
2.43.0


From e0ade0f97cd6731378c1b1074a0c5c6bfdd45209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:20 +0000
Subject: [PATCH 34/51] fix: refuse to write a card number that is read back in
 the other form

---
 internal/card/identification.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index 9186103..852e444 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -398,6 +398,11 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 	} else {
 		return nil, fmt.Errorf("missing card number")
 	}
+	// The two forms are told apart by the last two bytes.
+	readAsDriver := isCardIndex(dst[len(dst)-2]) && isCardIndex(dst[len(dst)-1])
+	if isDriver := id.GetDriverIdentification() != nil; isDriver != readAsDriver {
+		return nil, fmt.Errorf("card indices %q do not fit the form of the card number", dst[len(dst)-2:])
+	}
 	dst, err = dd.AppendFixedStringValue(dst, id.GetCardIssuingAuthorityName(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card issuing authority name: %w", err)
-- 
2.43.0


From 59effad1ae73759f7055628bc589e9907a512285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 35/51] fix: refuse to drop a certificate that has no raw data

---
 internal/card/driver_card_file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index f0e3829..7eb1c13 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -879,7 +879,7 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 // Uses appendix 0x00 for Gen1 DF (Tachograph)
 func appendCertificateEF(dst []byte, fileType cardv1.ElementaryFileType, certData []byte) ([]byte, error) {
 	if len(certData) == 0 {
-		return dst, nil // Skip empty certificates
+		return nil, fmt.Errorf("missing raw data of %v", fileType)
 	}
 	if len(certData) > math.MaxUint16 {
 		return nil, fmt.Errorf("%v of %d bytes does not fit a record", fileType, len(certData))
@@ -902,7 +902,7 @@ func appendCertificateEF(dst []byte, fileType cardv1.ElementaryFileType, certDat
 // Uses appendix 0x02 for Gen2 DF (Tachograph_G2)
 func appendCertificateEFG2(dst []byte, fileType cardv1.ElementaryFileType, certData []byte) ([]byte, error) {
 	if len(certData) == 0 {
-		return dst, nil // Skip empty certificates
+		return nil, fmt.Errorf("missing raw data of %v", fileType)
 	}
 	if len(certData) > math.MaxUint16 {
 		return nil, fmt.Errorf("%v of %d bytes does not fit a record", fileType, len(certData))
-- 
2.43.0


From b0d2cec6192423cf817281c78b7c1964babded56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 36/51] fix: refuse to drop the driver data of an application
 identification

---
 internal/card/application_identification.go    | 4 ++++
 internal/card/application_identification_g2.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/internal/card/application_identification.go b/internal/card/application_identification.go
index da58c0e..c546318 100644
--- a/internal/card/application_identification.go
+++ b/internal/card/application_identification.go
@@ -157,6 +157,10 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 	switch appId.GetCardType() {
 	case cardv1.CardType_DRIVER_CARD:
 		driver = appId.GetDriver()
+	default:
+		if appId.GetDriver() != nil {
+			return nil, fmt.Errorf("driver data of a card of type %v", appId.GetCardType())
+		}
 	}
 
 	if driver == nil {
diff --git a/internal/card/application_identification_g2.go b/internal/card/application_identification_g2.go
index 0c484fb..69b32ee 100644
--- a/internal/card/application_identification_g2.go
+++ b/internal/card/application_identification_g2.go
@@ -185,6 +185,10 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 	switch appId.GetCardType() {
 	case cardv1.CardType_DRIVER_CARD:
 		driver = appId.GetDriver()
+	default:
+		if appId.GetDriver() != nil {
+			return nil, fmt.Errorf("driver data of a card of type %v", appId.GetCardType())
+		}
 	}
 
 	if driver == nil {
-- 
2.43.0


From 9987c615c16265649d2ce5860a6120fab8e43b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 37/51] fix: refuse to write a certificate that cannot be read
 back

---
 internal/card/driver_card_file.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 7eb1c13..edb1484 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -878,11 +878,8 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 // appendCertificateEF appends a Gen1 certificate EF (which are not signed)
 // Uses appendix 0x00 for Gen1 DF (Tachograph)
 func appendCertificateEF(dst []byte, fileType cardv1.ElementaryFileType, certData []byte) ([]byte, error) {
-	if len(certData) == 0 {
-		return nil, fmt.Errorf("missing raw data of %v", fileType)
-	}
-	if len(certData) > math.MaxUint16 {
-		return nil, fmt.Errorf("%v of %d bytes does not fit a record", fileType, len(certData))
+	if _, err := security.UnmarshalRsaCertificate(certData); err != nil {
+		return nil, fmt.Errorf("%v cannot be written: %w", fileType, err)
 	}
 
 	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
@@ -901,11 +898,8 @@ func appendCertificateEF(dst []byte, fileType cardv1.ElementaryFileType, certDat
 // appendCertificateEFG2 appends a Gen2 certificate EF (which are not signed)
 // Uses appendix 0x02 for Gen2 DF (Tachograph_G2)
 func appendCertificateEFG2(dst []byte, fileType cardv1.ElementaryFileType, certData []byte) ([]byte, error) {
-	if len(certData) == 0 {
-		return nil, fmt.Errorf("missing raw data of %v", fileType)
-	}
-	if len(certData) > math.MaxUint16 {
-		return nil, fmt.Errorf("%v of %d bytes does not fit a record", fileType, len(certData))
+	if _, err := security.UnmarshalEccCertificate(certData); err != nil {
+		return nil, fmt.Errorf("%v cannot be written: %w", fileType, err)
 	}
 
 	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
-- 
2.43.0


From ee18d6eb33327d5ddfaf12b7e5daa29aa3b8551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 38/51] fix: refuse to write a raw card file that has no
 records

---
 internal/card/rawcardfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/card/rawcardfile.go b/internal/card/rawcardfile.go
index ef28156..f51e27f 100644
--- a/internal/card/rawcardfile.go
+++ b/internal/card/rawcardfile.go
@@ -35,6 +35,9 @@ func UnmarshalRawCardFile(input []byte) (*cardv1.RawCardFile, error) {
 
 // MarshalRawCardFile serializes a RawCardFile into binary format.
 func MarshalRawCardFile(file *cardv1.RawCardFile) ([]byte, error) {
+	if len(file.GetRecords()) == 0 {
+		return nil, fmt.Errorf("raw card file has no records")
+	}
 	var result []byte
 	for i, record := range file.GetRecords() {
 		if record.GetTag() < 0 || record.GetTag() > 0xFFFFFF {
-- 
2.43.0


From 04835458b59f4ebb5e67c610d0a99162f6fe7b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 39/51] fix: reject a text length beyond the data dictionary
 before padding to it

---
 internal/dd/ia5_string_value.go | 2 +-
 internal/dd/string_value.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/dd/ia5_string_value.go b/internal/dd/ia5_string_value.go
index 288cde4..e6ab66f 100644
--- a/internal/dd/ia5_string_value.go
+++ b/internal/dd/ia5_string_value.go
@@ -77,7 +77,7 @@ func AppendIa5StringValue(dst []byte, sv *ddv1.Ia5StringValue) ([]byte, error) {
 	}
 
 	length := int(sv.GetLength())
-	if length < 0 {
+	if length < 0 || length > 255 {
 		return nil, fmt.Errorf("invalid IA5String length: %d", length)
 	}
 
diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index 23af447..dcdb0f9 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -135,7 +135,7 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 	// Handle fixed-length strings (pad with spaces)
 	if hasFixedLength {
 		dataLength := int(sv.GetLength())
-		if dataLength < 0 {
+		if dataLength < 0 || dataLength > 255 {
 			return nil, fmt.Errorf("invalid string length: %d", dataLength)
 		}
 		if len(encoded) > dataLength {
-- 
2.43.0


From 4b6bafb870661c66d896b4458843556b5c3bd124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 40/51] fix: reject an RSA certificate signature outside the
 range of the modulus

---
 internal/security/rsa_verify.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/security/rsa_verify.go b/internal/security/rsa_verify.go
index 868c64f..375ab18 100644
--- a/internal/security/rsa_verify.go
+++ b/internal/security/rsa_verify.go
@@ -140,6 +140,9 @@ func verifyRsaCertificate(cert *securityv1.RsaCertificate, caModulus, caExponent
 	if modulus.Sign() == 0 {
 		return fmt.Errorf("CA public key has a zero modulus")
 	}
+	if sigInt.Cmp(modulus) >= 0 {
+		return fmt.Errorf("signature is not smaller than the CA modulus")
+	}
 
 	recovered := new(big.Int).Exp(sigInt, exponent, modulus)
 	srPrime := recovered.Bytes()
-- 
2.43.0


From 0b26c6a84688ba0eb5a15281a83a7f79930be7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 41/51] fix: reject a gen2 certificate verified against another
 issuer than it names

---
 internal/security/ecc_verify.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 93718c9..7e05431 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -44,6 +44,11 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 		return fmt.Errorf("CA certificate cannot be nil")
 	}
 
+	// The CAR of the certificate must reference the CA that signed it
+	if car, chr := cert.GetCertificateAuthorityReference(), caCert.GetCertificateHolderReference(); car != chr {
+		return fmt.Errorf("CAR mismatch: certificate references CAR %s, but CA has CHR %s", car, chr)
+	}
+
 	rawData := cert.GetRawData()
 	if len(rawData) < 204 || len(rawData) > 341 {
 		return fmt.Errorf("invalid certificate length: got %d, want 204-341", len(rawData))
-- 
2.43.0


From d4bea8d107a810d55175440fe4e46fbfa1a80c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 42/51] fix: anonymise the card holder that is present,
 whatever the card number looks like

---
 internal/card/identification.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index 852e444..3f6a34d 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -529,9 +529,10 @@ func AnonymizeIdentification(id *cardv1.Identification) *cardv1.Identification {
 		result.SetCard(anonymizedCard)
 	}
 
-	// Anonymize holder identification based on card type
-	switch id.GetCardType() {
-	case cardv1.CardType_DRIVER_CARD:
+	// Anonymize the holder that is present: the card type is inferred from the card
+	// number and does not tell which holder was parsed
+	switch {
+	case id.HasDriverCardHolder():
 		if holder := id.GetDriverCardHolder(); holder != nil {
 			anonymizedHolder := &cardv1.Identification_DriverCardHolder{}
 
@@ -565,7 +566,7 @@ func AnonymizeIdentification(id *cardv1.Identification) *cardv1.Identification {
 			result.SetDriverCardHolder(anonymizedHolder)
 		}
 
-	case cardv1.CardType_WORKSHOP_CARD:
+	case id.HasWorkshopCardHolder():
 		if holder := id.GetWorkshopCardHolder(); holder != nil {
 			anonymizedHolder := &cardv1.Identification_WorkshopCardHolder{}
 
@@ -601,7 +602,7 @@ func AnonymizeIdentification(id *cardv1.Identification) *cardv1.Identification {
 			result.SetWorkshopCardHolder(anonymizedHolder)
 		}
 
-	case cardv1.CardType_CONTROL_CARD:
+	case id.HasControlCardHolder():
 		if holder := id.GetControlCardHolder(); holder != nil {
 			anonymizedHolder := &cardv1.Identification_ControlCardHolder{}
 
@@ -637,7 +638,7 @@ func AnonymizeIdentification(id *cardv1.Identification) *cardv1.Identification {
 			result.SetControlCardHolder(anonymizedHolder)
 		}
 
-	case cardv1.CardType_COMPANY_CARD:
+	case id.HasCompanyCardHolder():
 		if holder := id.GetCompanyCardHolder(); holder != nil {
 			anonymizedHolder := &cardv1.Identification_CompanyCardHolder{}
 
-- 
2.43.0


From 33b99c096b005318b170ed988338ab17f3ab21e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 43/51] fix: fail when a parsed document cannot be printed

---
 cmd/tachograph/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/tachograph/main.go b/cmd/tachograph/main.go
index 0c071e7..c40e970 100644
--- a/cmd/tachograph/main.go
+++ b/cmd/tachograph/main.go
@@ -71,7 +71,9 @@ func newParseCommand() *cobra.Command {
 			if err != nil {
 				return fmt.Errorf("error parsing file %s: %w", filename, err)
 			}
-			fmt.Println(protojson.Format(file))
+			if _, err := fmt.Println(protojson.Format(file)); err != nil {
+				return fmt.Errorf("error writing file %s: %w", filename, err)
+			}
 		}
 		return nil
 	}
-- 
2.43.0


From 5cc2659ba7baa6b1cc74a2a4f2357c8f033754eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 44/51] fix: index a gen1 certificate without an end of
 validity under the expiry of its list row

---
 tools/cmd/fetch-certs/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 23a3231..23f6498 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -649,6 +649,11 @@ func extractGen1CHRAndEOV(cPrime []byte) (chr uint64, eov string, err error) {
 	copy(eovTimeReal.Timedata[:], cPrime[idxEOV:idxEOV+lenEOV])
 	eovTime := eovTimeReal.Decode()
 
+	// The end of validity is optional: nothing but 0 or nothing but FF means there is none
+	if eovTime.IsZero() || eovTimeReal.Timedata == [4]byte{0xFF, 0xFF, 0xFF, 0xFF} {
+		return chr, "", nil
+	}
+
 	// Convert to UTC and format as RFC3339
 	eov = eovTime.UTC().Format(time.RFC3339)
 
-- 
2.43.0


From 7a3cba23da6caeef5f0a16a96ee8b300a1ae276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 45/51] fix: do not take a certificate whose signature starts
 with a less-than sign for HTML

---
 tools/cmd/fetch-certs/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 23f6498..583db59 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -20,6 +20,7 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 
 	"golang.org/x/net/html"
 	"golang.org/x/sync/errgroup"
@@ -941,7 +942,8 @@ func downloadCertificate(url string, maxSize int) ([]byte, error) {
 		return nil, err
 	}
 
-	if len(data) > 0 && data[0] == '<' {
+	// A Gen1 certificate starts with its signature, which can start with any byte.
+	if len(data) > 0 && data[0] == '<' && utf8.Valid(data) {
 		return nil, fmt.Errorf("received HTML instead of certificate data")
 	}
 
-- 
2.43.0


From 6ee00c456509902df0e3a2533b027e7fd8dd3c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 46/51] fix: keep certificates stored under their listed name
 inside the cache directory

---
 tools/cmd/fetch-certs/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 583db59..98b1957 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -923,7 +923,8 @@ func extractCertificateName(url string) string {
 	name = strings.TrimPrefix(name, "iot_doc/")
 	name = strings.TrimPrefix(name, "erca_of_doc/")
 
-	return name
+	// The name becomes a file name: it must not lead to another directory.
+	return filepath.Base(name)
 }
 
 func downloadCertificate(url string, maxSize int) ([]byte, error) {
-- 
2.43.0


From 5875709266b3544d635e6547f0a195bc33de1b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 47/51] fix: give up certificate downloads that do not come to
 an end

---
 tools/cmd/fetch-certs/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 98b1957..6a682ac 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -928,7 +928,8 @@ func extractCertificateName(url string) string {
 }
 
 func downloadCertificate(url string, maxSize int) ([]byte, error) {
-	resp, err := http.Get(url)
+	client := &http.Client{Timeout: 30 * time.Second}
+	resp, err := client.Get(url)
 	if err != nil {
 		return nil, err
 	}
@@ -938,7 +939,7 @@ func downloadCertificate(url string, maxSize int) ([]byte, error) {
 		return nil, fmt.Errorf("unexpected status code: %d", resp.StatusCode)
 	}
 
-	data, err := io.ReadAll(resp.Body)
+	data, err := io.ReadAll(io.LimitReader(resp.Body, int64(maxSize)+1))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e02de7f5a08a518d6d146d7ad92d77995bd13f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 48/51] fix: refuse to download with no workers instead of
 waiting forever

---
 tools/cmd/fetch-certs/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 6a682ac..7e7f05c 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -101,6 +101,10 @@ func main() {
 	)
 	flag.Parse()
 
+	if *concurrency == 0 {
+		log.Fatalf("Concurrency must not be 0")
+	}
+
 	log.Printf("Building certificate index from %s (concurrency: %d)", *baseURL, *concurrency)
 	log.Printf("Output directory: %s", *outputDir)
 
-- 
2.43.0


From 76e9e949a1466fe8af85033ab743e06ae5b02d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 49/51] fix: remove stale certificates whatever characters the
 directory name has

---
 tools/cmd/fetch-certs/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 7e7f05c..5e1c086 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -199,11 +199,15 @@ func createDirectoryStructure(baseDir string) error {
 		}
 
 		// Remove existing .bin files to ensure clean state
-		files, err := filepath.Glob(filepath.Join(dir, "*.bin"))
+		files, err := os.ReadDir(dir)
 		if err != nil {
 			return fmt.Errorf("failed to list files in %s: %w", dir, err)
 		}
-		for _, file := range files {
+		for _, entry := range files {
+			if filepath.Ext(entry.Name()) != ".bin" {
+				continue
+			}
+			file := filepath.Join(dir, entry.Name())
 			if err := os.Remove(file); err != nil {
 				return fmt.Errorf("failed to remove file %s: %w", file, err)
 			}
-- 
2.43.0


From 94c698e82ea3d6c6e46cf10fd567e11e4109cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 50/51] fix: store certificates of the same holder in files of
 their own

---
 tools/cmd/fetch-certs/main.go | 44 +++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 5e1c086..e7e561a 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -327,15 +327,17 @@ func indexAndDownloadGen1Certificates(ctx context.Context, baseURL, outputDir st
 			}
 
 			// Use CHR as filename if available, otherwise use the metadata name
-			filename := meta.name + ".bin"
+			filename := meta.name
 			if chrStr != "" {
-				filename = chrStr + ".bin"
+				filename = chrStr
 			}
 
 			// Save certificate to g1/<CHR>.bin
-			certPath := filepath.Join(outputDir, "g1", filename)
-			if err := os.WriteFile(certPath, certData, 0o644); err != nil {
-				log.Printf("Warning: Failed to save %s: %v", filename, err)
+			mu.Lock()
+			filename, err = saveCertificate(filepath.Join(outputDir, "g1"), filename, certData)
+			mu.Unlock()
+			if err != nil {
+				log.Printf("Warning: Failed to save %s: %v", meta.name, err)
 				return nil
 			}
 
@@ -426,15 +428,17 @@ func indexAndDownloadGen2Certificates(ctx context.Context, baseURL, outputDir st
 			}
 
 			// Use CHR as filename if available, otherwise use the metadata name
-			filename := meta.name + ".bin"
+			filename := meta.name
 			if chrStr != "" {
-				filename = chrStr + ".bin"
+				filename = chrStr
 			}
 
 			// Save certificate to g2/<CHR>.bin
-			certPath := filepath.Join(outputDir, "g2", filename)
-			if err := os.WriteFile(certPath, certData, 0o644); err != nil {
-				log.Printf("Warning: Failed to save %s: %v", filename, err)
+			mu.Lock()
+			filename, err = saveCertificate(filepath.Join(outputDir, "g2"), filename, certData)
+			mu.Unlock()
+			if err != nil {
+				log.Printf("Warning: Failed to save %s: %v", meta.name, err)
 				return nil
 			}
 
@@ -964,6 +968,26 @@ func downloadCertificate(url string, maxSize int) ([]byte, error) {
 	return data, nil
 }
 
+// saveCertificate stores a certificate as dir/<name>.bin and returns the file name.
+// When another certificate is already stored under that name, a free one is made from it.
+func saveCertificate(dir, name string, certData []byte) (string, error) {
+	filename := name + ".bin"
+	for n := 2; ; n++ {
+		stored, err := os.ReadFile(filepath.Join(dir, filename))
+		if os.IsNotExist(err) {
+			break
+		}
+		if err != nil {
+			return "", err
+		}
+		if bytes.Equal(stored, certData) {
+			return filename, nil
+		}
+		filename = fmt.Sprintf("%s-%d.bin", name, n)
+	}
+	return filename, os.WriteFile(filepath.Join(dir, filename), certData, 0o644)
+}
+
 func writeIndexFile(index *CertificateIndex, outputPath string) error {
 	dir := filepath.Dir(outputPath)
 	if err := os.MkdirAll(dir, 0o755); err != nil {
-- 
2.43.0


From 1e2d6c69ca4374cfd713f52b69fede02e94d94c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 51/51] fix: keep the remembered manual input flag of a card
 insertion record that means the same

The flag of a VuCardIWRecord was written as 1 whatever non-zero byte had been
read.
---
 internal/dd/vu_card_iw_record.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/dd/vu_card_iw_record.go b/internal/dd/vu_card_iw_record.go
index c14147f..db31547 100644
--- a/internal/dd/vu_card_iw_record.go
+++ b/internal/dd/vu_card_iw_record.go
@@ -216,10 +216,12 @@ func AppendVuCardIWRecord(dst []byte, record *ddv1.VuCardIWRecord) ([]byte, erro
 	offset += 19
 
 	// manualInputFlag (1 byte)
-	if record.GetManualInputFlag() {
-		canvas[offset] = 1
-	} else {
+	// Any byte but 0 is read as set, so a remembered one that means the same is kept.
+	if record.GetManualInputFlag() != (canvas[offset] != 0) {
 		canvas[offset] = 0
+		if record.GetManualInputFlag() {
+			canvas[offset] = 1
+		}
 	}
 
 	return append(dst, canvas[:]...), nil
-- 
2.43.0

