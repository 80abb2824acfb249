#!/usr/bin/env python3
"""Writes spec/CodePages.tla and spec/Codes.tla.

CodePages: the upper half (0x80..0xFF) of each code page, from Python's own
codecs (an oracle independent of golang.org/x/text).  -1 = the standard leaves
the byte undefined or readings differ (C1 controls; KOI8-U 0xAE/0xBE).
Codes: the regulation's code tables, transcribed once from the .proto
annotations and reviewed against the data dictionary; committed, not
regenerated by any check.
"""
import re, sys, os
here = os.path.dirname(os.path.abspath(__file__)); spec = os.path.join(here, '..', 'spec')
pages = [(0,'iso8859_1',2),(1,'iso8859_1',4),(2,'iso8859_2',5),(3,'iso8859_3',6),(5,'iso8859_5',7),(7,'iso8859_7',8),
         (9,'iso8859_9',9),(13,'iso8859_13',10),(15,'iso8859_15',11),(16,'iso8859_16',12),(80,'koi8_r',13),(85,'koi8_u',14)]
out = ["---- MODULE CodePages ----", "(* Generated by tools/gen_tables.py from Python's codecs. *)", "EXTENDS Integers, Sequences", ""]
for p, codec, enum in pages:
    t = []
    for b in range(128, 256):
        try: c = ord(bytes([b]).decode(codec))
        except UnicodeDecodeError: c = -1
        if codec.startswith('iso') and b < 0xA0 and codec not in ('iso8859_1', 'iso8859_9'): c = -1
        if codec == 'koi8_u' and b in (0xAE, 0xBE): c = -1
        t.append(c)
    out.append("High%d == <<%s>>" % (p, ",".join(map(str, t))))
out.append("")
out.append("KnownPages == {%s}" % ",".join(str(p) for p, _, _ in pages))
out.append("PageTable(p) ==\n  CASE " + "\n    [] ".join("p = %d -> High%d" % (p, p) for p, _, _ in pages) + "\n    [] OTHER -> High0")
out.append("(* the number the result uses to name a code page *)")
out.append("PageEnum(p) ==\n  CASE " + "\n    [] ".join("p = %d -> %d" % (p, e) for p, _, e in pages) + "\n    [] p = 255 -> 3\n    [] OTHER -> 1")
out.append("EnumPage(e) ==\n  CASE " + "\n    [] ".join("e = %d -> %d" % (e, p) for p, _, e in pages) + "\n    [] e = 3 -> 255\n    [] OTHER -> -1")
out.append("====")
open(os.path.join(spec, 'CodePages.tla'), 'w').write("\n".join(out) + "\n")

proto = sys.argv[1] if len(sys.argv) > 1 else '/repo/proto/wayplatform/connect/tachograph/dd/v1'
names = {'nation':'NationNumeric','event':'EventFaultType','entry':'EntryTypeDailyWorkPeriod','cond':'SpecificConditionType',
         'equip':'EquipmentType','clock':'ClockStopMode','slot':'CardSlotNumber','act':'DriverActivityValue','slotcard':'SlotCardType'}
texts = "\n".join(open(os.path.join(proto, f)).read() for f in sorted(os.listdir(proto)))
out = ["---- MODULE Codes ----", "(* Code tables: entry c+1 is the number of the value with code c, 0 = no such code. *)", "EXTENDS Integers, Sequences", ""]
for k, n in names.items():
    body = re.search(r'enum %s \{(.*?)\n\}' % n, texts, re.S).group(1)
    t = [0]*256
    for m in re.finditer(r'=\s*(\d+)\s*\[\(protocol_enum_value\)\s*=\s*(0x[0-9A-Fa-f]+|\d+)\]', body):
        t[int(m.group(2), 0)] = int(m.group(1))
    while len(t) > 1 and t[-1] == 0: t.pop()
    out.append("T_%s == <<%s>>" % (k, ",".join(map(str, t))))
out.append("")
out.append("CodeTable(e) ==\n  CASE " + "\n    [] ".join('e = "%s" -> T_%s' % (k, k) for k in names))
out.append("Code2Num(e, c) == IF c < Len(CodeTable(e)) THEN CodeTable(e)[c+1] ELSE 0")
out.append("Nums(e) == {CodeTable(e)[i] : i \\in 1..Len(CodeTable(e))} \\ {0}")
out.append("Num2Code(e, n) == IF n \\in Nums(e) THEN (CHOOSE i \\in 1..Len(CodeTable(e)) : CodeTable(e)[i] = n) - 1 ELSE -1")
out.append("CodeTableNames == {%s}" % ",".join('"%s"' % k for k in names))
out.append("====")
open(os.path.join(spec, 'Codes.tla'), 'w').write("\n".join(out) + "\n")
