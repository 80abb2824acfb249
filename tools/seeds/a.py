HEAD = '''package main

import (
	"bytes"
	"fmt"
	"os"

	tachograph "github.com/way-platform/tachograph-go"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
)

var _ = bytes.Equal
var _ cardv1.CardType
var _ tachographv1.File

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

'''
RAW = "internal/card/rawcardfile.go"
SEEDS = [
 dict(id="c01-wrap16", property="C01",
  needs="a card record whose length is 65531..65535, so that header plus value no longer fits 16 bits",
  breaks="the record's total size is computed in 16 bits and wraps, so such records are split in the wrong place",
  edits=[(RAW, "totalSize := 5 + int(length)", "totalSize := int(length + 5)")],
  main=HEAD + '''
func main() {
	in := cat(rec(0x0002, 0, make([]byte, 25)), rec(0x0520, 0, bytes.Repeat([]byte{7}, 65533)), rec(0x0999, 0, []byte{1}))
	f, err := tachograph.UnmarshalFile(in)
	if err != nil {
		fail("%v", err)
	}
	out, err := tachograph.MarshalFile(f)
	if err != nil || !bytes.Equal(in, out) {
		fail("not lossless: %v", err)
	}
}
'''),
 dict(id="c02-empty-foreign", property="C02",
  needs="a card download with an empty file that does not belong to a driver card",
  breaks="empty records no longer take part in recognising the kind of card, so the contents decide",
  edits=[("internal/card/infer.go", "if record.GetContentType() == cardv1.ContentType_DATA {", "if record.GetContentType() == cardv1.ContentType_DATA && len(record.GetValue()) > 0 {")],
  main=HEAD + '''
func main() {
	for _, v := range [][]byte{{1}, {}} {
		f, err := tachograph.UnmarshalFile(cat(rec(0x0002, 0, make([]byte, 25)), rec(0x0509, 0, v)))
		if err != nil || f.GetType() != tachographv1.File_RAW_CARD {
			fail("a workshop file of %d bytes: %v %v", len(v), f.GetType(), err)
		}
	}
}
'''),
 dict(id="c03-g2-first-wins", property="C03",
  needs="a generation-2 current-usage file that occurs twice in a download",
  breaks="the first occurrence is kept instead of the last, in the generation-2 application only",
  edits=[("internal/card/driver_card_file.go", "tachographG2DF.SetCurrentUsage(currentUsage)", "if !tachographG2DF.HasCurrentUsage() {\n\t\t\t\t\ttachographG2DF.SetCurrentUsage(currentUsage)\n\t\t\t\t}")],
  main=HEAD + '''
func main() {
	a, b := make([]byte, 19), make([]byte, 19)
	a[3], b[3] = 1, 2
	f, err := tachograph.UnmarshalFile(cat(rec(0x0002, 0, make([]byte, 25)), rec(0x0507, 2, a), rec(0x0507, 2, b)))
	if err != nil {
		fail("%v", err)
	}
	if s := f.GetDriverCard().GetTachographG2().GetCurrentUsage().GetSessionOpenTime().GetSeconds(); s != 2 {
		fail("session open time %d", s)
	}
}
'''),
 dict(id="c04-empty-sig", property="C04",
  needs="a signature record without any bytes after a file that is never signed",
  breaks="an empty signature on IC is silently dropped instead of making the download invalid",
  edits=[("internal/card/driver_card_file.go", '''			if signature != nil {
				return nil, fmt.Errorf("unexpected signature for EF_IC")''', '''			if len(signature) > 0 {
				return nil, fmt.Errorf("unexpected signature for EF_IC")''')],
  main=HEAD + '''
func main() {
	for _, s := range [][]byte{{1}, {}} {
		_, err := tachograph.UnmarshalFile(cat(rec(0x0002, 0, make([]byte, 25)), rec(0x0005, 0, make([]byte, 8)), rec(0x0005, 1, s)))
		if err == nil {
			fail("a signature of %d bytes on IC was accepted", len(s))
		}
	}
}
'''),
 dict(id="c06-len-cap", property="C06",
  needs="a daily record that ends exactly at the end of a ring whose record before it lies across the wrap",
  breaks="going back from a record to one that starts exactly at the end of the buffer minus nothing is off by one ring",
  edits=[("internal/card/activity.go", "\t\tit.currentPos -= prevRecordLength\n\t\tif it.currentPos < 0 {", "\t\tit.currentPos -= prevRecordLength\n\t\tif it.currentPos <= 0 {")],
  main=HEAD + '''
func main() {
	// two records of 12 bytes in a ring of 30 bytes, the older one at position 0
	day := func(prev byte, date byte) []byte {
		return []byte{0, prev, 0, 12, 0, 0, 0, date, 0, 1, 0, 5}
	}
	ring := cat([]byte{0, 0, 0, 12}, day(0, 1), day(12, 2), make([]byte, 6))
	f, err := tachograph.UnmarshalFile(cat(rec(0x0002, 0, make([]byte, 25)), rec(0x0504, 0, ring)))
	if err != nil {
		fail("%v", err)
	}
	if n := len(f.GetDriverCard().GetTachograph().GetDriverActivityData().GetDailyRecords()); n != 2 {
		fail("%d days", n)
	}
}
'''),
 dict(id="c07-day-distance", property="C07",
  needs="a day with a distance of more than 32767 km",
  breaks="the day's distance is read as a signed number",
  edits=[("internal/card/activity.go", "dayDistance := binary.BigEndian.Uint16(data[offset : offset+2])", "dayDistance := int16(binary.BigEndian.Uint16(data[offset : offset+2]))")],
  main=HEAD + '''
func main() {
	ring := []byte{0, 0, 0, 0, 0, 0, 0, 12, 0, 0, 0, 1, 0, 1, 0x80, 0}
	f, err := tachograph.UnmarshalFile(cat(rec(0x0002, 0, make([]byte, 25)), rec(0x0504, 0, ring)))
	if err != nil {
		fail("%v", err)
	}
	if n := f.GetDriverCard().GetTachograph().GetDriverActivityData().GetDailyRecords()[0].GetActivityDayDistance(); n != 32768 {
		fail("distance %d", n)
	}
}
'''),
]
