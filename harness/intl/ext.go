package main

// Commands for certificates, their sources, verification and anonymisation.

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"sync"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/cert"
	"github.com/way-platform/tachograph-go/internal/dd"
	"github.com/way-platform/tachograph-go/internal/security"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
)

// trust is what the session knows of certificates.
type trust struct {
	certs   map[string]proto.Message // handle -> certificate
	shown   map[string]string        // handle -> how it was last reported
	sources map[string]cert.Resolver
	names   map[cert.Resolver]string
	calls   *calls
}

type calls struct {
	mu   sync.Mutex
	list []any
	ctx  context.Context
}

func (s *session) trust() *trust {
	t, ok := s.ext["trust"].(*trust)
	if !ok {
		t = &trust{map[string]proto.Message{}, map[string]string{}, map[string]cert.Resolver{}, map[cert.Resolver]string{}, &calls{}}
		s.ext["trust"] = t
	}
	return t
}

// scripted is a source of certificates that answers as it was told.
type scripted struct {
	name  string
	t     *trust
	root  any // a handle, "error" or "nil"
	rsa   M
	ecc   M
	calls *calls
	errs  map[string]error
	fresh bool              // answers with copies
	rest  map[string]string // kind -> handle handed out along with an error
}

type memberError struct{ words string }

func (e *memberError) Error() string { return e.words }

func (x *scripted) answer(ctx context.Context, kind, ref string, table M) (proto.Message, error) {
	x.calls.mu.Lock()
	same := ctx == x.calls.ctx
	x.calls.list = append(x.calls.list, []any{x.name, kind, ref, same})
	x.calls.mu.Unlock()
	var rest proto.Message // what comes along with an error
	if m, ok := x.t.certs[x.rest[kind]]; ok {
		rest = proto.Clone(m)
	}
	if err := ctx.Err(); err != nil {
		return rest, err
	}
	h, ok := table[ref].(string)
	if !ok {
		h, ok = table["*"].(string)
	}
	if !ok || h == "error" {
		return rest, x.errs["e"]
	}
	if h == "nil" {
		return nil, nil
	}
	m, ok := x.t.certs[h]
	if !ok {
		return rest, x.errs["e"]
	}
	if x.fresh {
		m = proto.Clone(m)
	}
	return m, nil
}

func (x *scripted) GetRootCertificate(ctx context.Context) (*securityv1.RootCertificate, error) {
	m, err := x.answer(ctx, "root", "", M{"": x.root})
	c, _ := m.(*securityv1.RootCertificate)
	return c, err
}

func (x *scripted) GetRsaCertificate(ctx context.Context, ref string) (*securityv1.RsaCertificate, error) {
	m, err := x.answer(ctx, "rsa", ref, x.rsa)
	c, _ := m.(*securityv1.RsaCertificate)
	return c, err
}

func (x *scripted) GetEccCertificate(ctx context.Context, ref string) (*securityv1.EccCertificate, error) {
	m, err := x.answer(ctx, "ecc", ref, x.ecc)
	c, _ := m.(*securityv1.EccCertificate)
	return c, err
}

// web is a scripted network.
type web struct {
	mu    sync.Mutex
	reply map[string]M // URL, or "*" -> reply
	seen  []any
	s     *session
	open  int
}

type webBody struct {
	io.Reader
	w    *web
	done bool
}

func (b *webBody) Close() error {
	b.w.mu.Lock()
	defer b.w.mu.Unlock()
	if !b.done {
		b.done = true
		b.w.open--
	}
	return nil
}

type failingReader struct{ r io.Reader }

func (f failingReader) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func (w *web) RoundTrip(q *http.Request) (*http.Response, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.seen = append(w.seen, []any{q.Method, q.URL.String()})
	if err := q.Context().Err(); err != nil {
		return nil, err
	}
	r, ok := w.reply[q.URL.String()]
	if !ok {
		r, ok = w.reply["*"]
	}
	if !ok || num(r, "status") == 0 {
		return nil, errors.New("the network is down")
	}
	var body []byte
	if b := str(r, "b"); b != "" {
		body = bytes.Clone(w.s.bufs[b])
	} else {
		body = bytesOf(r["body"])
	}
	if n, ok := r["cut"].(float64); ok && int(n) < len(body) {
		body = body[:int(n)]
	}
	body = append(body, bytesOf(r["more"])...)
	var rd io.Reader = bytes.NewReader(body)
	if num(r, "broken") == 1 {
		rd = failingReader{rd}
	}
	h := http.Header{}
	if l := str(r, "location"); l != "" {
		h.Set("Location", l)
	}
	w.open++
	return &http.Response{StatusCode: num(r, "status"), Status: fmt.Sprintf("%d %s", num(r, "status"), http.StatusText(num(r, "status"))),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: &webBody{rd, w, false}, ContentLength: -1, Request: q}, nil
}

// report lists the certificates that are not as they were last reported.
func (t *trust) report(r M) {
	names := make([]string, 0, len(t.certs))
	for h := range t.certs {
		names = append(names, h)
	}
	sort.Strings(names)
	changed := []any{}
	for _, h := range names {
		n := msgNode(t.certs[h])
		b, _ := json.Marshal(n)
		if t.shown[h] != string(b) {
			t.shown[h] = string(b)
			changed = append(changed, []any{h, n})
		}
	}
	r["changed"] = changed
}

func (t *trust) nameOf(m proto.Message) string {
	for h, c := range t.certs {
		if c == m {
			return h
		}
	}
	return ""
}

// fileCerts are the certificates of a driver card file, by place.
func fileCerts(f *tachographv1.File) map[string]proto.Message {
	out := map[string]proto.Message{}
	rsa := func(k string, c *securityv1.RsaCertificate) {
		if c != nil {
			out[k] = c
		}
	}
	ecc := func(k string, c *securityv1.EccCertificate) {
		if c != nil {
			out[k] = c
		}
	}
	d := f.GetDriverCard()
	rsa("card1", d.GetTachograph().GetCardCertificate().GetRsaCertificate())
	rsa("ca1", d.GetTachograph().GetCaCertificate().GetRsaCertificate())
	ecc("ma2", d.GetTachographG2().GetCardMaCertificate().GetEccCertificate())
	ecc("sign2", d.GetTachographG2().GetCardSignCertificate().GetEccCertificate())
	ecc("ca2", d.GetTachographG2().GetCaCertificate().GetEccCertificate())
	ecc("link2", d.GetTachographG2().GetLinkCertificate().GetEccCertificate())
	return out
}

// without is the file with its certificates blanked.
func withoutCerts(f *tachographv1.File) *tachographv1.File {
	g := proto.Clone(f).(*tachographv1.File)
	for _, c := range fileCerts(g) {
		proto.Reset(c)
	}
	return g
}

func (s *session) resolver(c M) cert.Resolver {
	switch name := str(c, "r"); name {
	case "default":
		return tachograph.DefaultCertificateResolver()
	case "embedded":
		return cert.NewEmbeddedResolver()
	default:
		r, ok := s.trust().sources[name]
		if !ok {
			panic("harness: no source " + name)
		}
		return r
	}
}

func context1(c M) (context.Context, func()) {
	type key struct{}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), key{}, 1))
	if num(c, "cancelled") == 1 {
		cancel()
	}
	return ctx, cancel
}

func (s *session) rsaOf(h string) *securityv1.RsaCertificate {
	if h == "" {
		return nil
	}
	c, ok := s.trust().certs[h].(*securityv1.RsaCertificate)
	if !ok {
		panic("harness: no RSA certificate " + h)
	}
	return c
}

func (s *session) eccOf(h string) *securityv1.EccCertificate {
	if h == "" {
		return nil
	}
	c, ok := s.trust().certs[h].(*securityv1.EccCertificate)
	if !ok {
		panic("harness: no ECC certificate " + h)
	}
	return c
}

func (s *session) extra(op string, c M, r M) bool {
	t := s.trust()
	switch op {
	case "mint":
		var data []byte
		if num(c, "gen") == 1 {
			data = mintRsa(c)
			k, by := rsaKeyOf(str(c, "key")), rsaKeyOf(str(c, "by"))
			r["n"], r["e"] = byteInts(padded(k.n, 128)), byteInts(padded(k.e, 8))
			r["byn"], r["bye"] = byteInts(padded(by.n, 128)), byteInts(padded(by.e, 8))
		} else {
			data = mintEcc(c)
			by := eccKeyOf(str(c, "by"))
			r["oid"] = byteInts([]byte(by.oid.String()))
			r["x"], r["y"] = byteInts(padded(by.x, by.size())), byteInts(padded(by.y, by.size()))
		}
		s.bufs[str(c, "b")] = data
		r["data"] = byteInts(data)
	case "mintroot":
		k := rsaKeyOf(str(c, "key"))
		data := append(bytesOf(c["id"]), padded(k.n, 128)...)
		data = append(data, padded(k.e, 8)...)
		s.bufs[str(c, "b")] = data
		r["data"] = byteInts(data)
	case "flip":
		b := bytes.Clone(s.bufs[str(c, "b")])
		b[num(c, "at")] ^= byte(num(c, "mask"))
		s.bufs[str(c, "b")] = b
		r["v"] = []int{int(b[num(c, "at")])}
	case "fact":
	case "smudge":
		// the caller writes into the bytes of a certificate it was given
		x := t.certs[str(c, "h")]
		if x == nil {
			r["out"] = "skip"
			break
		}
		smudge(x.ProtoReflect())
		t.report(r)
	case "copy":
		s.bufs[str(c, "to")] = bytes.Clone(s.bufs[str(c, "b")])
	case "wrap":
		// a card download out of records whose values are buffers
		var out []byte
		for _, p := range c["parts"].([]any) {
			q := p.(M)
			v := s.bufs[str(q, "b")]
			out = append(out, bytesOf(q["tag"])...)
			out = append(out, byte(len(v)>>8), byte(len(v)))
			out = append(out, v...)
		}
		s.bufs[str(c, "to")] = out
		r["data"] = byteInts(out)
	case "cert":
		h := str(c, "h")
		delete(t.certs, h)
		delete(t.shown, h)
		b := s.bufs[str(c, "b")]
		var m proto.Message
		var err error
		switch str(c, "kind") {
		case "rsa":
			m, err = security.UnmarshalRsaCertificate(bytes.Clone(b))
		case "ecc":
			m, err = security.UnmarshalEccCertificate(bytes.Clone(b))
		case "root":
			m, err = security.UnmarshalRootCertificate(bytes.Clone(b))
		}
		put(r, err)
		if err == nil {
			t.certs[h] = m
			// written back behind something else
			front := []byte{1, 2, 3}
			var again []byte
			switch x := m.(type) {
			case *securityv1.RsaCertificate:
				again, err = security.AppendRsaCertificate(front[:2], x)
			case *securityv1.EccCertificate:
				again, err = security.AppendEccCertificate(front[:2], x)
			default:
				again = append(front[:2], b...)
			}
			if err != nil || len(again) < 2 {
				again = []byte{0, 0}
			}
			r["again"] = byteInts(again[2:])
		}
		t.report(r)
	case "unset", "setbytes", "settext":
		if _, ok := t.certs[str(c, "h")]; !ok {
			r["out"] = "skip"
			return true
		}
		m := t.certs[str(c, "h")].ProtoReflect()
		path := c["path"].([]any)
		for i, k := range path {
			fd := m.Descriptor().Fields().ByName(protoName(k))
			if i < len(path)-1 {
				m = m.Mutable(fd).Message()
				continue
			}
			switch op {
			case "unset":
				m.Clear(fd)
			case "setbytes":
				m.Set(fd, valueOfBytes(bytesOf(c["v"])))
			case "settext":
				m.Set(fd, valueOfString(str(c, "v")))
			}
		}
		t.report(r)
	case "attempt":
		for _, k := range []string{"h", "g"} {
			if _, ok := t.certs[str(c, k)]; !ok && str(c, k) != "" {
				r["out"] = "skip"
				return true
			}
		}
		var err error
		switch str(c, "kind") {
		case "rsa":
			err = security.VerifyRsaCertificateWithCA(s.rsaOf(str(c, "h")), s.rsaOf(str(c, "g")))
		case "root":
			var root *securityv1.RootCertificate
			if g := str(c, "g"); g != "" {
				root = t.certs[g].(*securityv1.RootCertificate)
			}
			err = security.VerifyRsaCertificateWithRoot(s.rsaOf(str(c, "h")), root)
		case "ecc":
			err = security.VerifyEccCertificateWithCA(s.eccOf(str(c, "h")), s.eccOf(str(c, "g")))
		}
		put(r, err)
		t.report(r)
	case "source":
		x := &scripted{name: str(c, "r"), t: t, root: c["root"], calls: t.calls, errs: map[string]error{}}
		x.rsa, _ = c["rsa"].(M)
		x.ecc, _ = c["ecc"].(M)
		x.errs["e"] = &memberError{"source " + x.name + " has no answer"}
		if w, ok := c["words"].(string); ok {
			x.errs["e"] = &memberError{w}
		}
		x.fresh = num(c, "fresh") == 1
		x.rest = map[string]string{}
		if rest, ok := c["rest"].(M); ok {
			for k, v := range rest {
				x.rest[k], _ = v.(string)
			}
		}
		t.sources[x.name] = x
		t.names[x] = x.name
	case "chain":
		var of []cert.Resolver
		for _, n := range c["of"].([]any) {
			of = append(of, s.resolver(M{"r": n}))
		}
		t.sources[str(c, "r")] = cert.NewChainResolver(of...)
	case "client":
		w := &web{reply: map[string]M{}, s: s}
		for k, v := range c["web"].(M) {
			w.reply[k] = v.(M)
		}
		if old, ok := s.ext["web:"+str(c, "r")].(*web); ok && num(c, "same") == 1 {
			// the world has moved on, the client has not
			old.mu.Lock()
			old.reply = w.reply
			old.mu.Unlock()
			break
		}
		s.ext["web:"+str(c, "r")] = w
		t.sources[str(c, "r")] = cert.NewClient(&http.Client{Transport: w})
	case "internet":
		// the network the default source uses
		w := &web{reply: map[string]M{}, s: s}
		for k, v := range c["web"].(M) {
			w.reply[k] = v.(M)
		}
		s.ext["web:default"] = w
		http.DefaultClient.Transport = w
	case "ask":
		res := s.resolver(c)
		ctx, cancel := context1(c)
		defer cancel()
		t.calls.list, t.calls.ctx = []any{}, ctx
		var w *web
		if x, ok := s.ext["web:"+str(c, "r")].(*web); ok {
			w = x
			w.seen = []any{}
		}
		var m proto.Message
		var err error
		isNil := false
		switch str(c, "kind") {
		case "root":
			var x *securityv1.RootCertificate
			x, err = res.GetRootCertificate(ctx)
			m, isNil = x, x == nil
		case "rsa":
			var x *securityv1.RsaCertificate
			x, err = res.GetRsaCertificate(ctx, str(c, "ref"))
			m, isNil = x, x == nil
		case "ecc":
			var x *securityv1.EccCertificate
			x, err = res.GetEccCertificate(ctx, str(c, "ref"))
			m, isNil = x, x == nil
		}
		put(r, err)
		r["nil"] = isNil
		r["calls"] = t.calls.list
		if w != nil {
			r["seen"], r["open"] = w.seen, w.open
		}
		errs := []string{}
		for x, n := range t.names {
			if e := x.(*scripted).errs["e"]; err != nil && errors.Is(err, e) {
				errs = append(errs, n)
			}
		}
		sort.Strings(errs)
		r["errs"] = errs
		r["cancel"] = errors.Is(err, context.Canceled)
		r["got"] = ""
		if !isNil {
			r["got"] = t.nameOf(m)
			if h := str(c, "h"); h != "" && err == nil {
				t.certs[h] = m
				delete(t.shown, h)
			}
		}
		t.report(r)
	case "askmany":
		// the same questions from several callers at once
		res := s.resolver(c)
		qs := c["qs"].([]any)
		same := make([]int, len(qs))
		var wg sync.WaitGroup
		one := func(q M) string {
			var m proto.Message
			var err error
			if str(q, "kind") == "rsa" {
				m, err = res.GetRsaCertificate(context.Background(), str(q, "ref"))
			} else if str(q, "kind") == "ecc" {
				m, err = res.GetEccCertificate(context.Background(), str(q, "ref"))
			} else {
				m, err = res.GetRootCertificate(context.Background())
			}
			b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
			return outcome(err) + string(b)
		}
		for i, q := range qs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				first := one(q.(M))
				for k := 0; k < 3; k++ {
					if one(q.(M)) == first {
						same[i]++
					}
				}
				if first == one(q.(M)) {
					same[i]++
				}
			}()
		}
		wg.Wait()
		for i, q := range qs {
			if one(q.(M)); same[i] != 4 {
				r["differ"] = i + 1
			}
		}
	case "adopt":
		f := s.file(c)
		certs := fileCerts(f)
		for _, k := range []string{"card1", "ca1", "ma2", "sign2", "ca2", "link2"} {
			delete(t.certs, str(c, "f")+"."+k)
			delete(t.shown, str(c, "f")+"."+k)
			if m, ok := certs[k]; ok {
				t.certs[str(c, "f")+"."+k] = m
			}
		}
		r["kind"] = int(f.GetType())
		r["apps"] = []bool{f.GetDriverCard().HasTachograph(), f.GetDriverCard().HasTachographG2()}
		r["has"] = f.HasDriverCard()
		t.report(r)
	case "verify":
		var f *tachographv1.File
		if str(c, "f") != "" {
			f = s.file(c)
		}
		ctx, cancel := context1(c)
		defer cancel()
		t.calls.list, t.calls.ctx = []any{}, ctx
		before := withoutCerts2(f)
		var err error
		switch {
		case str(c, "r") == "none":
			// the certificates of the card itself
			err = card.VerifyOptions{}.VerifyDriverCardFile(ctx, f.GetDriverCard())
		case str(c, "r") == "default":
			err = tachograph.VerifyFile(ctx, f)
		default:
			err = tachograph.VerifyOptions{CertificateResolver: s.resolver(c)}.VerifyFile(ctx, f)
		}
		put(r, err)
		r["calls"] = t.calls.list
		r["same"] = proto.Equal(before, withoutCerts2(f))
		t.report(r)
	case "verifymany":
		// several files against one shared source at once
		var wg sync.WaitGroup
		fs := c["fs"].([]any)
		res := s.resolver(c)
		outs := make([]string, len(fs))
		for i, n := range fs {
			f, ok := s.files[n.(string)]
			if !ok {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[i] = outcome(tachograph.VerifyOptions{CertificateResolver: res}.VerifyFile(context.Background(), f))
			}()
		}
		wg.Wait()
		r["outs"] = outs
		t.report(r)
	case "anon":
		s.anon(c, r)
	case "anonall":
		s.anonymised(s.file(c))
	case "spread":
		s.spread(c, r)
	case "value":
		s.value(c, r)
	case "saytext":
		s.saytext(c, r)
	case "abuse":
		s.abuse(c, r)
	case "abusecerts":
		s.abusecerts(c, r)
	default:
		return false
	}
	return true
}

func withoutCerts2(f *tachographv1.File) proto.Message {
	if f == nil {
		return &tachographv1.File{}
	}
	return withoutCerts(f)
}

// anon replaces the files that have an anonymised form in a copy of the file.
func (s *session) anon(c M, r M) {
	f := s.file(c)
	delete(s.files, str(c, "g"))
	before := proto.Clone(f)
	g := proto.Clone(f).(*tachographv1.File)
	names, acts, twice := s.anonymise(f, g)
	r["acts"] = acts
	r["did"] = names
	r["twice"] = twice
	r["same"] = proto.Equal(before, f)
	s.files[str(c, "g")] = g
	if num(c, "want") == 1 {
		r["view"] = msgNode(g)
	}
}

// anonymised makes every anonymised form there is and throws it away.
func (s *session) anonymised(f *tachographv1.File) {
	s.anonymise(f, proto.Clone(f).(*tachographv1.File))
}

// anonymise puts the anonymised forms of the parts of f into g.
func (s *session) anonymise(f, g *tachographv1.File) ([]string, []any, bool) {
	d := g.GetDriverCard()
	names := []string{}
	did := func(n string) { names = append(names, n) }
	twice := true
	one := func(n string, a, b proto.Message) {
		did(n)
		if !proto.Equal(a, b) {
			twice = false
		}
	}
	if t := d.GetTachograph(); t != nil {
		o := f.GetDriverCard().GetTachograph()
		if x := o.GetIdentification(); x != nil {
			y := card.AnonymizeIdentification(x)
			t.SetIdentification(y)
			one("identification1", y, card.AnonymizeIdentification(x))
		}
		if x := o.GetPlaces(); x != nil {
			y := card.AnonymizePlaces(x)
			t.SetPlaces(y)
			one("places1", y, card.AnonymizePlaces(x))
		}
		if x := o.GetVehiclesUsed(); x != nil {
			y := card.AnonymizeVehiclesUsed(x)
			t.SetVehiclesUsed(y)
			one("vehicles1", y, card.AnonymizeVehiclesUsed(x))
		}
	}
	if t := d.GetTachographG2(); t != nil {
		o := f.GetDriverCard().GetTachographG2()
		if x := o.GetIdentification(); x != nil {
			y := card.AnonymizeIdentification(x)
			t.SetIdentification(y)
			one("identification2", y, card.AnonymizeIdentification(x))
		}
		if x := o.GetPlaces(); x != nil {
			y := card.AnonymizePlacesG2(x)
			t.SetPlaces(y)
			one("places2", y, card.AnonymizePlacesG2(x))
		}
	}
	// activity changes have an anonymised form of their own
	acts := []any{}
	each := func(x *cardv1.DriverActivityData) {
		for _, day := range x.GetDailyRecords() {
			for i, a := range day.GetActivityChangeInfo() {
				b := dd.AnonymizeActivityChangeInfo(a, i)
				if !proto.Equal(b, dd.AnonymizeActivityChangeInfo(a, i)) {
					twice = false
				}
				acts = append(acts, []any{msgNode(a), msgNode(b)})
			}
		}
	}
	each(f.GetDriverCard().GetTachograph().GetDriverActivityData())
	each(f.GetDriverCard().GetTachographG2().GetDriverActivityData())
	return names, acts, twice
}

var _ = strings.HasPrefix
var _ *cardv1.DriverCardFile

// missing reports that what a command works on does not exist because the call
// that should have made it failed.
func (s *session) missing(c M) bool {
	switch str(c, "op") {
	case "verifymany":
		return false
	}
	if _, ok := s.files[str(c, "f")]; !ok {
		return true
	}
	if str(c, "op") == "equal" {
		_, ok := s.files[str(c, "g")]
		return !ok
	}
	return false
}
