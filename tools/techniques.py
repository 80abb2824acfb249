# property -> (technique, level note)
T = "TLA+ specification; TLC validates traces recorded from the real code"
E = "TLA+ specification; TLC enumerates behaviours which are replayed in the real code and validates the recorded traces"
GEN = "inputs are generated (seeded) from the layouts the specification exports; every recorded call is judged by TLC"
TECH = {
 "C01": (E, GEN + "; all short byte strings over an alphabet of headers enumerated by TLC and replayed; every truncation point of small downloads, lengths around the powers of two up to 65535"),
 "C02": (T, GEN + "; header pairs enumerated, file sets sampled"),
 "C03": (E, GEN + "; all sequences of up to three records over a palette enumerated by TLC and replayed; every file is first read alone, then among others"),
 "C04": (E, GEN + "; short sequences of records enumerated by TLC; legal and illegal signature placements"),
 "C05": (T, GEN + "; parse, write, parse, write"),
 "C06": (E, GEN + "; all small rings enumerated by TLC and replayed; every start position"),
 "C07": (T, GEN + "; every change word"),
 "C08": (T, GEN + "; every table empty to as long as a record can be"),
 "C09": (T, GEN + "; every byte position of every file"),
 "C10": (T, GEN + "; every code of one byte, boundaries of wider ones; values also taken alone through the data dictionary in both directions"),
 "C11": (T, GEN + "; every byte of every code page; texts also taken alone in both directions"),
 "C12": (T, GEN + "; every tag, boundary cuts of every part, counters and record-array headers of all magnitudes"),
 "C13": (E, "every sequence of two (thorough: three) transfers is enumerated by TLC and replayed; longer ones sampled"),
 "C14": (T, GEN + "; every byte position of overview and activities, every activity word, every slot status"),
}
TECH["C16"] = (E, "every history of four (thorough: five) calls over two buffers and two files is enumerated by TLC, a seeded sample of them replayed on real downloads; whole cards in curated histories; concurrent reading under the race detector")
TECH["C22"] = (E, "every editable field of every file edited one at a time from a generated donor; list edits enumerated by TLC (three steps) and replayed; longer edit histories sampled")
TECH["C24"] = (T, GEN + "; protobuf, JSON and text, copies of copies")
TECH["C23"] = (T, "every kind of place of every file is changed in every listed way (numbers around every width, dates, codes, texts, lists, bytes), with and without remembered raw bytes; the output is read back and compared with what was to be written by the specification")
TECH["C17"] = (E, "every combination of what a card carries and what a source answers (TLC, checked against the law link by link) is played with certificates issued for the purpose, each followed by further verifications; one bit altered at every byte of every certificate and of the root; several files at once under the race detector")
TECH["C18"] = (E, "histories of three attempts on a certificate and its issuer enumerated by TLC, longer ones sampled, with certificates edited in between; recovered contents compared with what was issued; both generations and whole files")
TECH["C19"] = (E, "every chain of up to three (thorough: four) members, and every nested chain of two (three), is enumerated by TLC, which checks the operator against the law; each is asked for all three kinds in the real code")
TECH["C20"] = (T, "every listed reference against the store; listed references over a scripted network; every kind of failure on the way; default source; concurrent questions")
TECH["C21"] = (T, "pairs of cards that differ in nothing but personal data (every personal region of every anonymisable file, table sizes up to 200, with and without remembered raw bytes) must have equal anonymised copies and equal written bytes; original values are searched for in every leaf of the copy and in what is written")
TECH["C15"] = (T, "every file filled, cut, lengthened and with bytes and words at their extremes; rings that lead anywhere; counts and record arrays of vehicle units; certificates with lying lengths; downloads of a megabyte made of the smallest parts; and (inside the harness) tens of thousands of damaged downloads and certificates, each put through every call. TLC judges how each call ended and that memory and time stay in proportion to the bytes given")

TECH["C25"] = (E, "every argument list of up to three (thorough: four) arguments over eight kinds of things an argument can name is enumerated by TLC and given to the real command; odd names, links, loops, long lists and random mixes of generated files are sampled; a full device stands for output that cannot be written")
TECH["C26"] = (E, "every run of three to five downloads (fates, shared holders, worker limits, finishing orders) is enumerated by TLC and (a seeded sample) played by a loopback publisher that lets downloads through in that order; generated tables, malformed certificates, hostile names, endless downloads; built with the race detector")
