import os
_d = os.path.dirname(os.path.abspath(__file__))
def _load(name):
    env = {"__file__": __file__}
    exec(open(os.path.join(_d, name + ".py")).read(), env)
    return env
_b, _j = _load("b"), _load("j")
HEAD, RSA, DAYS = _b["HEAD"], _b["RSA"], _j["DAYS"]
EVENTS = '''
func events() []byte {
	return cat([]byte{1}, []byte{0x60, 0, 0, 1}, []byte{0x60, 0, 0, 2}, []byte{1}, []byte{1}, []byte("ABC          "))
}
'''
SEEDS = [
 dict(id="c05-same-both", property="C05",
  needs="a card with the same events in both of its applications",
  breaks="the events of the first application are left out",
  edits=[("internal/card/driver_card_file.go", "dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_EVENTS_DATA, card.GetTachograph().GetEventsData(), appendEventsData)\n",
          "events := card.GetTachograph().GetEventsData()\n\tif proto.Equal(events, card.GetTachographG2().GetEventsData()) {\n\t\tevents = nil\n\t}\n\tdst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_EVENTS_DATA, events, appendEventsData)\n")],
  main=HEAD + EVENTS + '''
func main() {
	d := cat(icc(), rec(0x0502, 0, events()), rec(0x0502, 2, events()))
	f := must(tachograph.UnmarshalFile(d))
	if w := must(tachograph.MarshalFile(f)); len(w) != len(d) {
		fail("%d bytes of %d", len(w), len(d))
	}
}
'''),
 dict(id="c22-same-both", property="C22",
  needs="a card with the same events in both of its applications, of which one is changed by the caller",
  breaks="both applications share the events",
  edits=[("internal/card/driver_card_file.go", "\t\t\t\ttachographG2DF.SetEventsData(eventsData)\n",
          "\t\t\t\tif same := tachographDF.GetEventsData(); proto.Equal(same, eventsData) {\n\t\t\t\t\teventsData = same\n\t\t\t\t}\n\t\t\t\ttachographG2DF.SetEventsData((eventsData))\n")],
  main=HEAD + EVENTS + '''
func main() {
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0502, 0, events()), rec(0x0502, 2, events())))).GetDriverCard()
	f.GetTachograph().GetEventsData().SetSignature([]byte{1})
	if f.GetTachographG2().GetEventsData().HasSignature() {
		fail("shared")
	}
}
'''),
 dict(id="c09-expiry-equal", property="C09",
  needs="a card that expires the moment it becomes valid",
  breaks="such a card is read as one without an expiry date",
  edits=[("internal/card/identification.go", "\tcardId.SetCardExpiryDate(cardExpiryDate)\n", "\tif proto.Equal(cardExpiryDate, cardValidityBegin) {\n\t\tcardExpiryDate = nil\n\t}\n\tcardId.SetCardExpiryDate((cardExpiryDate))\n"),
         ("internal/card/identification.go", "import (\n", "import (\n\t\"google.golang.org/protobuf/proto\"\n")],
  main=HEAD + '''
func main() {
	id := cat([]byte{1}, []byte("ABCDEFGH12345600"), text(), []byte{0x50, 0, 0, 0}, []byte{0x60, 0, 0, 0}, []byte{0x60, 0, 0, 0}, text(), text(), []byte{0x19, 0x80, 1, 1}, []byte("de"))
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0520, 0, id))))
	if !f.GetDriverCard().GetTachograph().GetIdentification().GetCard().HasCardExpiryDate() {
		fail("no expiry date")
	}
}
'''),
 dict(id="c04-same-sig", property="C04",
  needs="two files in a row with the same signature bytes",
  breaks="the second of them has none",
  edits=[("internal/card/driver_card_file.go", "\t\t\tif signature != nil {\n\t\t\t\teventsData.SetSignature(signature)\n", "\t\t\tif signature != nil && string(signature) != string(tachographDF.GetIdentification().GetSignature()) {\n\t\t\t\teventsData.SetSignature(signature)\n")],
  main=HEAD + EVENTS + '''
func main() {
	id := cat([]byte{1}, []byte("ABCDEFGH12345600"), text(), zeros(12), text(), text(), []byte{0x19, 0x80, 1, 1}, []byte("de"))
	f := must(tachograph.UnmarshalFile(cat(icc(), rec(0x0520, 0, id), rec(0x0520, 1, zeros(128)), rec(0x0502, 0, events()), rec(0x0502, 1, zeros(128)))))
	if !f.GetDriverCard().GetTachograph().GetEventsData().HasSignature() {
		fail("no signature")
	}
}
'''),
 dict(id="c14-iw-instant", property="C14",
  needs="a card that is withdrawn in the second it was inserted",
  breaks="it is read as one that was not withdrawn",
  edits=[("internal/dd/vu_card_iw_record.go", "\trecord.SetCardWithdrawalTime(withdrawalTime)\n", "\tif withdrawalTime.GetSeconds() == insertionTime.GetSeconds() {\n\t\twithdrawalTime = nil\n\t}\n\trecord.SetCardWithdrawalTime((withdrawalTime))\n")],
  main=HEAD + '''
func main() {
	iw := cat(text(), text(), full(), []byte{0x20, 0x20, 1, 1}, []byte{0x60, 0, 0, 0}, zeros(3), []byte{0}, []byte{0x60, 0, 0, 0}, zeros(3), []byte{1}, []byte("ABC           "), zeros(4), zeros(1))
	if len(iw) != 129 {
		iw = iw[:129]
	}
	r := must(dd.UnmarshalOptions{}.UnmarshalVuCardIWRecord(iw))
	if r.GetCardWithdrawalTime() == nil {
		fail("not withdrawn")
	}
}
'''),
 dict(id="c19-again", property="C19",
  needs="a source that is in the chain twice in a row and answers the second time it is asked",
  breaks="a source that just failed is not asked again",
  edits=[("internal/cert/chain.go", "\tvar errs []error\n\tfor _, resolver := range r.resolvers {\n\t\tcert, err := resolver.GetRsaCertificate(ctx, chr)\n",
          "\tvar errs []error\n\tfor i, resolver := range r.resolvers {\n\t\tif i > 0 && resolver == r.resolvers[i-1] {\n\t\t\tcontinue\n\t\t}\n\t\tcert, err := resolver.GetRsaCertificate(ctx, chr)\n")],
  main=HEAD + '''
type late struct {
	cert.Resolver
	n int
}

func (l *late) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) {
	if l.n++; l.n == 1 {
		return nil, errors.New("not yet")
	}
	return &securityv1.RsaCertificate{}, nil
}

func main() {
	l := &late{}
	if c, err := cert.NewChainResolver(l, l).GetRsaCertificate(context.Background(), "1"); err != nil || c == nil {
		fail("%v", err)
	}
}
'''),
]
