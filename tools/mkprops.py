import json
P=[]
def p(id,title,statement,over,text,why,files,**kw):
    a={"files":files}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Card download framing is exact and invertible",
"A card download (a stream of tag/length/value records) is accepted exactly when it splits completely into records; the result lists every record once, in order, with its tag, length, value, elementary file, content type and generation as the five header bytes say, and any truncation is an error. Writing the record list back produces the input byte for byte. This holds for every record length the two-byte length field can express, including 0 and 65535.",
["inputs"],"every byte string that starts like a card download; every number of records, every length 0..65535, every tag and appendix value, every truncation point",
"The card tests use a handful of hand-built records and golden files that are absent from the tree; no test truncates at every offset or uses records above 64 KiB.",
["internal/card/rawcardfile.go","unmarshal.go","marshal.go"])
p("C02","The kind of file is decided only by its header and its set of files",
"A download is parsed as a vehicle-unit file iff it starts with the vehicle-unit response byte, as a card iff it starts with the ICC file identifier, and is rejected otherwise; input of fewer than two bytes is reported as unexpected end of file. A card download becomes a driver-card file iff every data record belongs to the driver-card file set and there is at least one, and otherwise stays a lossless raw card file; the order, number and contents of the records do not influence this decision.",
["inputs"],"every header pair, every multiset and order of elementary files (known, foreign to driver cards, and unknown) in a download",
"No test in the suite calls the public entry points at all; inference is untested beyond a few golden names.",
["unmarshal.go","internal/card/infer.go"])
p("C03","Each card file lands in the application its tag names; last one wins",
"In a driver-card download each data record ends up in exactly one place of the result: the generation-1 or generation-2 application its tag generation bit selects (files that exist only in one application in that one, certificates of the wrong generation rejected), and a file repeated in a download is represented by its last occurrence. An application is present in the result iff at least one of its files was present, and permuting records of different files does not change the result.",
["inputs","histories"],"every sequence of data/signature records over all driver-card files and generation bits, including repeats and interleavings",
"Tests parse single elementary files in isolation; the assembly of records into applications is never exercised with interleaved, repeated or cross-generation records.",
["internal/card/driver_card_file.go"])
p("C04","A signature stays with exactly the file it directly follows",
"A signature record is attached to the data record immediately before it when both name the same file, and to nothing else; a signature with no such data record, or one on a file that is never signed, makes the download invalid. The attached signature bytes are the ones in the download, of whatever length, and writing the parsed file emits precisely those signatures and invents none.",
["inputs","histories"],"every sequence of data and signature records, every signature length and content, signed and unsigned files in both applications",
"No test combines signatures with several files or writes a file that carried (or lacked) signatures.",
["internal/card/driver_card_file.go"])
p("C05","Writing a parsed driver card reproduces every file's bytes",
"Marshalling a parsed driver-card file and splitting the output into records yields, for every elementary file of both applications that was present in the input, exactly one record with the same tag whose value equals the bytes read, including certificates and signatures (for records tagged with appendix 00 to 03 in the application they belong to; ICC and IC, which are card-level files, are written under appendix 00). Parsing that output again gives the same model, and marshalling it again gives the same bytes.",
["inputs"],"every parseable driver-card download: any subset of files in either application and any well-formed contents, including reserved bits, padding and unused record slots",
"The repository's round-trip tests need golden dumps that are not in the tree; what remains samples a few hand-written files per record type.",
["internal/card/driver_card_file.go","internal/card","internal/dd","marshal.go"])
p("C06","Walking the activity ring buffer yields each stored day once, oldest first",
"For a driver-activity file whose ring buffer holds a chain of daily records linked backwards from the newest-record pointer, parsing yields exactly the records of that chain, oldest first, whatever the position of the newest record and wherever a record or its header wraps past the end of the buffer. Traversal always stops, and a malformed chain gives an error or a prefix of the chain, never a record that is not on it.",
["inputs","histories"],"every ring size, every starting position, every sequence of record lengths, every wrap point, and arbitrary corrupt pointers or lengths",
"Tests cover two hand-made buffers; wrap-around at each of the possible byte positions is not sampled.",
["internal/card/activity.go"])
p("C07","A daily activity record is read and written field for field",
"Each daily record's date, presence counter, distance and list of activity changes equal what its bytes encode, change by change in stored order, with no change dropped or added; a record whose contents cannot be decoded is flagged and keeps its raw bytes. Record lengths and pointers are layout and may be recomputed when the ring is rebuilt. A model built from scratch (no remembered raw bytes) is written as a ring buffer that parses back to the same days.",
["inputs"],"every daily record: all 65536 change words, any number of changes, all counters and dates, and models with any number of days",
"Tests check a handful of change words and never write a multi-day model without its raw buffer.",
["internal/card/activity.go","internal/dd/activity_change_info.go"])
p("C08","Record-table files keep every slot, in place, with its own values",
"For the table-like card files (events, faults, vehicles used, places, specific conditions, vehicle units used, GNSS places; both generations) the parsed result has one entry per slot, in slot order, each carrying exactly the values of its own bytes, and the newest-record pointer is reported unchanged; empty slots are kept as such with their bytes, and a slot that cannot be decoded is either kept with its bytes or makes the parse fail, never altered or dropped. The result for one slot never depends on the size of the table or on the other slots.",
["inputs"],"every table size from empty to more than 64 KiB, every mix of used, empty and malformed slots, every pointer value",
"Tests use tables of one or two slots; effects that appear only past internal buffer sizes or with mixed slots are not reached.",
["internal/card/events.go","internal/card/faults.go","internal/card/vehicles_used.go","internal/card/vehicles_used_g2.go","internal/card/places.go","internal/card/places_g2.go","internal/card/specific_conditions.go","internal/card/specific_conditions_g2.go","internal/card/vehicle_units_used.go","internal/card/gnss_places.go"])
p("C09","Identity and configuration files are decoded as the regulation lays them out",
"For the single-record card files (ICC, IC, application identification in all its versions, identification, driving licence, current usage, control activity, last download, and the certificates of both generations) every field of the parsed result equals the value the regulation's layout assigns to its bytes, and a file of the wrong length is rejected rather than partly read.",
["inputs"],"every byte string of every length for each of these files",
"Table tests check one or two examples per file with all-typical values.",
["internal/card/icc.go","internal/card/ic.go","internal/card/identification.go","internal/card/driving_licence.go","internal/card/current_usage.go","internal/card/control_activity.go","internal/card/card_download.go","internal/card/application_identification.go","internal/card/application_identification_g2.go","internal/card/application_identification_v2.go"])
p("C10","Primitive values decode and re-encode without loss",
"Times, dates, month/year values, odometers, BCD numbers, nation/event/entry and other coded values, geographic coordinates, control types, activity words and card-structure versions decode to the value the regulation assigns to their bytes, and encoding the decoded value gives the same bytes back. Codes and digit patterns outside the defined ranges are reported as unrecognised or rejected; they are never silently read as a different defined value.",
["inputs"],"every value of each one- to four-byte encoding (exhaustively where 16 bits or fewer, over boundary and random values otherwise)",
"264 table tests sample these codecs; they cannot show that every code and every bit pattern is handled.",
["internal/dd"])
p("C11","Text fields are decoded under their own code page and kept losslessly",
"A text field is decoded with the ISO 8859 / IBM / KOI8 table its code-page byte names, surrounding padding is removed from the displayed value and nothing else is changed, and the displayed value is always valid UTF-8. Writing the field back yields the original bytes including padding and code-page byte, and a text set by the caller is written in that code page or rejected, never stored as different characters.",
["inputs"],"every code-page byte, every byte value at every position, every padding pattern and length",
"A few Latin-1 examples per type are tested; the other tables and unassigned bytes are not.",
["internal/dd/string_value.go","internal/dd/ia5_string_value.go","internal/dd/holder_name.go","internal/dd/vehicle_registration.go"])
p("C12","Vehicle-unit downloads are split into transfers exactly",
"A vehicle-unit download is accepted by the framing layer exactly when it is a sequence of complete transfers, each with a known transfer tag and the extent its own counts and record-array headers declare; every transfer is then attributed to its own bytes. A download cut at any other point, an unknown tag or a declared extent beyond the end of input is an error.",
["inputs"],"every sequence of transfers of all generations with any record counts and sizes, every truncation point, every unknown tag",
"internal/vu and the root package have no tests in the baseline at all.",
["internal/vu/raw_vehicle_unit_file.go","internal/vu/overview.go","internal/vu/activities.go","internal/vu/events_faults.go","internal/vu/detailed_speed.go","internal/vu/technical_data.go","internal/vu/card_download.go","internal/vu/download_interface_version.go"])
p("C13","A vehicle-unit download is read as one generation and keeps every transfer",
"The generation of a vehicle-unit file is that of its first transfer and, for generation 2, version 2 iff some transfer is of version 2; a transfer foreign to that generation and version makes the download invalid. Otherwise every transfer of the download, in order, is represented in the result with its own bytes, for each kind of transfer the model has a place for; a download with a transfer the model cannot hold (a card download) is invalid rather than read without it, and where the model holds one value (overview, interface version) a repeated transfer is represented by its last occurrence.",
["inputs","histories"],"every sequence of transfer kinds, with repeats, mixed generations, and arbitrary record-array contents",
"internal/vu is untested; in particular no test feeds generation-2 record arrays through the second parsing pass.",
["internal/vu/vehicle_unit_file.go","internal/vu/activities_gen2_v1.go","internal/vu/activities_gen2_v2.go","internal/vu/events_faults_gen2_v1.go","internal/vu/events_faults_gen2_v2.go","internal/vu/technical_data_gen2_v1.go","internal/vu/technical_data_gen2_v2.go","internal/vu/overview_gen2_v1.go","internal/vu/overview_gen2_v2.go","internal/vu/detailed_speed_gen2.go"])
p("C14","Generation-1 vehicle-unit contents are decoded field for field",
"For generation-1 overview, activities, events/faults, detailed speed and technical data transfers, every field of the parsed result (certificates, vehicle identity, times, slots, company locks, controls, card insertions, activity changes, places, conditions, signature) equals the value at its position in the transfer, with as many entries as the transfer's own counters say, in order.",
["inputs"],"every generation-1 transfer: all counter values including zero, all field values",
"No test exercises these decoders.",
["internal/vu/overview_gen1.go","internal/vu/activities_gen1.go","internal/vu/events_faults_gen1.go","internal/vu/detailed_speed_gen1.go","internal/vu/technical_data_gen1.go","internal/dd/vu_card_iw_record.go","internal/dd/full_card_number.go"])
p("C15","No input can crash or hang the library",
"For every byte string, parsing returns a file or an error; for every file parsing returned, marshalling, verification, anonymisation and text output likewise return a result or an error. None of these panics, loops without bound, or uses time and memory out of proportion to the input.",
["inputs","fault_sequences"],"every byte string (structure-aware mutations of every file kind, every truncation, every extreme count and pointer) and every certificate pair",
"Tests feed well-formed input; hostile length, count and pointer combinations are unbounded.",
["unmarshal.go","marshal.go","verify.go","internal/card","internal/vu","internal/dd","internal/security"])
p("C16","Parsed files are independent of their input and of each other",
"Parsing does not change its input, and later changes to the input buffer, or to a file obtained from another parse, never change a parsed file; marshalling and displaying do not change the file they are given. The same bytes always give the same result, also when many files are parsed and written concurrently.",
["inputs","schedules","histories"],"every input, every interleaving of buffer reuse, edits and repeated or concurrent calls",
"Tests never reuse or overwrite buffers after parsing and never run calls concurrently.",
["unmarshal.go","internal/card","internal/vu","internal/dd","internal/security"])
p("C17","Verification accepts exactly the files whose certificate chain is genuine",
"Verifying a driver card succeeds iff, for each application present, the card's certificate is present, its issuer's certificate can be obtained, the issuer's certificate is (generation 1, unless its public key had already been recovered) itself genuinely signed by the European root, and the card certificate is genuinely signed by that issuer; any missing, unobtainable, mismatching or altered certificate gives an error. Files other than driver cards carry no verification obligation, and a missing file is an error.",
["inputs","configurations","fault_sequences"],"every combination of applications present, resolver outcomes and genuine/forged/altered/missing certificates, every altered bit of a certificate",
"Security tests verify a few genuine national certificates and one flipped bit; the decision logic over the whole file is untested.",
["verify.go","internal/card/driver_card_file.go","internal/security/rsa_verify.go","internal/security/ecc_verify.go"])
p("C18","The signature-valid mark is set only by a successful verification",
"A certificate is marked as having a valid signature after a verification attempt iff that attempt succeeded; after a failing attempt the mark is off, whatever earlier attempts concluded. Verification recovers the holder, issuer, validity and public key of a certificate exactly as signed, changes nothing else about it, and parsing alone never sets the mark.",
["inputs","histories"],"every sequence of parse/verify attempts on a certificate against genuine, wrong, broken and missing issuers",
"Tests make one attempt per certificate; stale state from earlier attempts is never examined.",
["internal/security/rsa_verify.go","internal/security/ecc_verify.go","internal/security/rsa_certificate.go","internal/security/ecc_certificate.go","internal/security/root_certificate.go"])
p("C19","Chained certificate sources behave as the first source that can answer",
"A chain of certificate sources asks its members in order, returns the first successful answer unchanged, asks no further member after that, and fails iff all members fail, in which case every member's error remains discoverable in the returned error. Root, RSA and ECC requests each go to the matching request of the members with the caller's context and reference.",
["configurations","fault_sequences"],"every number of sources, every pattern of success and failure, every kind of request",
"No test exercises the chain.",
["internal/cert/chain.go","cert.go"])
p("C20","Certificate sources return the certificate that was asked for, or an error",
"Looking up a reference in the embedded store or over HTTP yields the certificate stored or published for exactly that reference in the matching generation's table; unknown references, HTTP failures, non-success statuses, cancelled contexts and malformed bodies yield an error and never a partial or different certificate. Nothing is requested over the network for a reference the index does not list.",
["inputs","fault_sequences","configurations"],"every reference in the index, unknown and malformed references, every HTTP status and body, transport failure and cancellation",
"Neither the embedded store nor the HTTP client is exercised by any test.",
["internal/cert/embedded.go","internal/cert/client.go","internal/cert/root.go","internal/cert/certcache/index.go","internal/cert/certcache/embed.go"])
p("C21","Anonymised output carries no personal data and stays structurally faithful",
"Anonymising a card file's identification, places or vehicle tables, or an activity change, replaces names, card numbers, birth dates, registrations, identification numbers, countries and positions of places and times by values that do not depend on the originals' contents, and keeps odometers only to whole 100 km (places) or 1000 km (vehicles). Record counts and order, types, counters and kept codes stay, and the same input gives the same result. Anonymised data whose kept codes are listed ones can be written and read back, and the written bytes contain none of the original personal values, not even in remembered raw bytes; the original is not modified.",
["inputs"],"every parseable identification, places and vehicles file",
"Golden files exercise two or three sample files and compare with recorded output, not with the personal data that went in.",
["internal/card/identification.go","internal/card/places.go","internal/card/places_g2.go","internal/card/vehicles_used.go","internal/dd"])
p("C22","An edit to a parsed file shows in the written file, and only there",
"If a caller changes a decoded field of a parsed file to another encodable value and marshals, parsing the output shows the new value in that field and leaves every other field as it was. Fields without a remembered raw form are written from their values alone; for text fields, whose remembered raw bytes take precedence, the edit includes clearing those bytes.",
["inputs","histories"],"every writable field of every elementary file, every sequence of edits",
"Tests marshal unedited values; the raw-byte overlay that may mask an edit is not exercised field by field.",
["internal/card","internal/dd"])
p("C23","A value that cannot be encoded is an error, never corrupted output",
"Marshalling a file whose fields do not fit their encoding (over-long text, numbers, dates or lists, unmappable characters or codes, certificates that are none) fails with an error; a part that is missing is an error or is written as empty. If marshalling succeeds, the output parses back to the values that were marshalled, where remembered raw text or certificate bytes take precedence over the values decoded from them; nothing is truncated, wrapped round or overlapped, and no value is replaced by another.",
["inputs"],"every field of every elementary file with values below, at and beyond the encodable range, including tables and values above 65535 bytes",
"Tests check nil and one or two range errors; silent wrap-around needs out-of-range models no test builds.",
["internal/card","internal/dd","marshal.go"])
p("C24","The parsed model survives storage as protobuf and JSON",
"Every file returned by parsing can be encoded to protobuf binary and to JSON, decoding those gives back an equal file, and marshalling the decoded copy to the tachograph format gives the same bytes (or the same error) as marshalling the original.",
["inputs"],"every parseable download, including arbitrary non-ASCII and malformed text bytes",
"No test serialises a parsed file; invalid text or enum values surface only with unusual bytes.",
["unmarshal.go","internal/dd","internal/card","internal/vu"])
p("C25","The command line parses its arguments in order and fails loudly",
"The parse command prints one JSON document per file, in argument order, each equal to what the library returns for that file; at the first file that cannot be read or parsed it stops, reports the error naming that file and exits non-zero, having printed exactly the documents of the files before it; a document that cannot be printed is a failure too. Invoked without files it fails, and it never modifies its inputs.",
["inputs","fault_sequences"],"every list of arguments mixing good, unreadable, missing, empty and malformed files",
"The command has no tests.",
["cmd/tachograph/main.go"])
p("C26","The certificate index lists each obtainable certificate once, truthfully",
"Building the certificate cache from a published list produces one index entry and one stored file for every listed certificate that could be downloaded and decoded, with issuer, holder, country and expiry taken from that certificate and its list row, whatever order the downloads finish in and however many run at once. A failing, endless or malformed download is skipped without affecting the others, stale files are removed, nothing is written outside the cache, and entries are ordered by country and then by latest expiry.",
["schedules","fault_sequences","inputs"],"every completion order and concurrency limit, every subset of failing downloads, every table of certificates",
"The cache builder is untested and concurrent.",
["tools/cmd/fetch-certs/main.go","internal/cert/certcache/index.go"])
MECH={'C01': [('split function and record loop', 'internal/card/rawcardfile.go unmarshalRawCardFile/MarshalRawCardFile')], 'C02': [('first-two-bytes switch', 'unmarshal.go UnmarshalFile'), ('subset test against card type file structure', 'internal/card/infer.go InferFileType')], 'C03': [('switch over elementary file and generation', 'internal/card/driver_card_file.go unmarshalDriverCardFile')], 'C04': [('one-record lookahead', 'internal/card/driver_card_file.go unmarshalDriverCardFile'), ('TLV writers', 'internal/card/driver_card_file.go appendTlv, appendTlvG2')], 'C05': [('fixed-order writer', 'internal/card/driver_card_file.go appendDriverCard'), ('raw data painting', 'internal/card/*.go, internal/dd/*.go append functions')], 'C06': [('backward linked-list iterator', 'internal/card/activity.go cyclicRecordIterator')], 'C07': [('daily record parse/append', 'internal/card/activity.go'), ('bit fields', 'internal/dd/activity_change_info.go')], 'C08': [('fixed-size slot loops with pointers', 'internal/card/*_used*.go, places*.go, events.go, faults.go')], 'C09': [('fixed offsets per file', 'internal/card/*.go unmarshal functions')], 'C10': [('enum annotations and bit fiddling', 'internal/dd/enum.go, time_real.go, bcd*.go, date.go, month_year.go, odometer.go, geo_coordinates.go, controltype.go')], 'C11': [('code page tables', 'internal/dd/string_value.go')], 'C12': [('tag lookup and sizeOf functions', 'internal/vu/raw_vehicle_unit_file.go and sizeOf* functions')], 'C13': [('two-pass dispatch', 'internal/vu/vehicle_unit_file.go')], 'C14': [('sequential offset decoders', 'internal/vu/*_gen1.go')], 'C15': [('length checks before slicing', 'all unmarshal functions')], 'C16': [('copy of record values', 'internal/card/rawcardfile.go'), ('value semantics of decoders', 'internal/dd/*.go')], 'C17': [('chain of checks', 'internal/card/driver_card_file.go verifyGen1Certificates, verifyGen2Certificates')], 'C18': [('SetSignatureValid on each exit', 'internal/security/rsa_verify.go, ecc_verify.go')], 'C19': [('loop with error join', 'internal/cert/chain.go')], 'C20': [('index scan and HTTP GET', 'internal/cert/client.go'), ('embedded file lookup', 'internal/cert/embedded.go, certcache/embed.go')], 'C21': [('Anonymize methods', 'internal/card/*.go, internal/dd/*.go')], 'C22': [('painting of values over remembered raw bytes', 'internal/dd/*.go, internal/card/*.go')], 'C23': [('range checks before encoding', 'internal/dd/*.go, internal/card/*.go')], 'C24': [('values stored as valid protobuf fields', 'internal/dd/*.go, internal/card/*.go, internal/vu/*.go')], 'C25': [('argument loop', 'cmd/tachograph/main.go newParseCommand')], 'C26': [('errgroup with mutex and sort', 'tools/cmd/fetch-certs/main.go')]}
for x in P: x["anchors"]["mechanism"]=[{"name":n,"where":w} for n,w in MECH[x["id"]]]
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
