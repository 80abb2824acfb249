package main

// Large and damaged inputs, and what every call does with them.

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/cert"
	"github.com/way-platform/tachograph-go/internal/security"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// spread is head, then `of` as often as asked, then tail.
func (s *session) spread(c M, r M) {
	of := s.bufs[str(c, "of")]
	out := append([]byte{}, s.bufs[str(c, "head")]...)
	for i := 0; i < num(c, "times"); i++ {
		out = append(out, of...)
	}
	out = append(out, s.bufs[str(c, "tail")]...)
	s.bufs[str(c, "to")] = out
	r["len"] = len(out)
}

var extremes = []byte{0, 0, 1, 2, 0x7F, 0x80, 0xFE, 0xFF, 0xFF}

// damaged is data with a few things wrong with it.  Damage inside the spans
// keeps the length; other damage may not.
func damaged(g *rand.Rand, data, other []byte, spans [][2]int) []byte {
	b := append([]byte{}, data...)
	n := 1 + g.Intn(4)
	if g.Intn(8) == 0 {
		n += g.Intn(30)
	}
	for ; n > 0; n-- {
		if len(b) == 0 {
			b = append(b, byte(g.Intn(256)))
			continue
		}
		if len(spans) > 0 && g.Intn(3) > 0 {
			sp := spans[g.Intn(len(spans))]
			if sp[0] >= len(b) {
				continue
			}
			end := min(sp[1], len(b))
			at := sp[0] + g.Intn(end-sp[0])
			for w := 1 + g.Intn(4); w > 0 && at < end; w-- {
				if g.Intn(2) == 0 {
					b[at] = extremes[g.Intn(len(extremes))]
				} else {
					b[at] = byte(g.Intn(256))
				}
				at++
			}
			continue
		}
		at := g.Intn(len(b))
		switch g.Intn(9) {
		case 0:
			b[at] = extremes[g.Intn(len(extremes))]
		case 1:
			b[at] ^= 1 << g.Intn(8)
		case 2:
			for w := 1 + g.Intn(4); w > 0 && at < len(b); w-- {
				b[at] = extremes[g.Intn(len(extremes))]
				at++
			}
		case 3:
			b = b[:at]
		case 4:
			end := min(len(b), at+1+g.Intn(8))
			b = append(b[:at:at], b[end:]...)
		case 5:
			end := min(len(b), at+1+g.Intn(40))
			b = append(append(append([]byte{}, b[:end]...), b[at:end]...), b[end:]...)
		case 6:
			if len(other) > 0 {
				b = append(append([]byte{}, b[:at]...), other[g.Intn(len(other)):]...)
			}
		case 7:
			ins := make([]byte, 1+g.Intn(8))
			for i := range ins {
				ins[i] = byte(g.Intn(256))
			}
			b = append(append(append([]byte{}, b[:at]...), ins...), b[at:]...)
		case 8:
			end := min(len(b), at+1+g.Intn(64))
			x := extremes[g.Intn(len(extremes))]
			for i := at; i < end; i++ {
				b[i] = x
			}
		}
	}
	return b
}

func spansOf(v any) [][2]int {
	l, _ := v.([]any)
	var out [][2]int
	for _, x := range l {
		p := x.([]any)
		if a, b := int(p[0].(float64)), int(p[1].(float64)); a < b {
			out = append(out, [2]int{a, b})
		}
	}
	return out
}

// tallyUp runs one call and notes how it ended and what it cost.
type tallies struct {
	outs  map[string]int
	worst map[string]M
	bad   []any
}

func (t *tallies) call(op string, size int, data []byte, f func() error) (ok bool) {
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	t0 := time.Now()
	out, why := "ok", ""
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				out, why = "panic", trunc(fmt.Sprint(p))
				for _, l := range strings.Split(string(debug.Stack()), "\n") {
					if strings.Contains(l, "tachograph-go") && strings.Contains(l, ".go:") && !strings.Contains(l, "/internal/v") {
						why += " at " + trunc(strings.TrimSpace(l))
						break
					}
				}
			}
		}()
		if err := f(); err != nil {
			out = "err"
		}
	}()
	hung := false
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		hung = true
	}
	if hung {
		t.outs[op+" hang"]++
		t.bad = append(t.bad, M{"op": op, "out": "hang", "why": "", "data": byteInts(data)})
		return false
	}
	runtime.ReadMemStats(&m1)
	t.outs[op+" "+out]++
	kib, ms := int((m1.TotalAlloc-m0.TotalAlloc)>>10), int(time.Since(t0).Milliseconds())
	// the worst by what it costs beyond its size
	rank := kib*1024 - 200*size
	if w, have := t.worst[op]; !have || rank > w["rank"].(int) {
		t.worst[op] = M{"op": op, "size": size, "kib": kib, "ms": ms, "rank": rank, "why": ""}
	}
	if w, have := t.worst[op+" slow"]; !have || ms > w["ms"].(int) {
		t.worst[op+" slow"] = M{"op": op, "size": size, "kib": kib, "ms": ms, "rank": rank}
	}
	if out == "panic" && len(t.bad) < 5 {
		t.bad = append(t.bad, M{"op": op, "out": out, "why": why, "data": byteInts(data)})
	}
	return out == "ok"
}

func (t *tallies) report(r M) {
	r["outs"] = t.outs
	costs := []any{}
	for _, w := range t.worst {
		delete(w, "rank")
		costs = append(costs, w)
	}
	r["costs"] = costs
	if t.bad == nil {
		t.bad = []any{}
	}
	r["bad"] = t.bad
}

// everything puts one input through every call there is.
func (s *session) everything(t *tallies, data []byte, res cert.Resolver) {
	var f *tachographv1.File
	n := len(data)
	if !t.call("parse", n, data, func() (err error) { f, err = tachograph.UnmarshalFile(data); return }) {
		return
	}
	if f == nil {
		return
	}
	t.call("marshal", n, data, func() error { _, err := tachograph.MarshalFile(f); return err })
	t.call("display", n, data, func() error {
		_ = protojson.Format(f)
		_ = prototext.Format(f)
		_ = f.String()
		return nil
	})
	t.call("store", n, data, func() error {
		b, err := proto.Marshal(f)
		if err != nil {
			return err
		}
		return proto.Unmarshal(b, &tachographv1.File{})
	})
	t.call("anon", n, data, func() error { s.anonymised(f); return nil })
	t.call("verify", n, data, func() error {
		return tachograph.VerifyOptions{CertificateResolver: res}.VerifyFile(context.Background(), proto.Clone(f).(*tachographv1.File))
	})
	t.call("verify own", n, data, func() error {
		return card.VerifyOptions{}.VerifyDriverCardFile(context.Background(), proto.Clone(f).(*tachographv1.File).GetDriverCard())
	})
	t.call("marshal", n, data, func() error { _, err := tachograph.MarshalFile(f); return err })
}

// garbled is a source that answers with whatever it was given.
type garbled struct {
	rsa  *securityv1.RsaCertificate
	ecc  *securityv1.EccCertificate
	root *securityv1.RootCertificate
}

func (x garbled) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) {
	return x.root, nil
}
func (x garbled) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) {
	return proto.Clone(x.rsa).(*securityv1.RsaCertificate), nil
}
func (x garbled) GetEccCertificate(context.Context, string) (*securityv1.EccCertificate, error) {
	return proto.Clone(x.ecc).(*securityv1.EccCertificate), nil
}

// abuse puts many damaged versions of a download through every call.
func (s *session) abuse(c M, r M) {
	g := rand.New(rand.NewSource(int64(num(c, "seed"))))
	t := &tallies{outs: map[string]int{}, worst: map[string]M{}}
	data, other := s.bufs[str(c, "b")], s.bufs[str(c, "with")]
	spans := spansOf(c["spans"])
	var rc []*securityv1.RsaCertificate
	var ec []*securityv1.EccCertificate
	var rt *securityv1.RootCertificate
	for _, n := range listOf(c["certs"]) {
		b := s.bufs[n]
		if x, err := security.UnmarshalRsaCertificate(b); err == nil {
			rc = append(rc, x)
		} else if x, err := security.UnmarshalEccCertificate(b); err == nil {
			ec = append(ec, x)
		} else if x, err := security.UnmarshalRootCertificate(b); err == nil {
			rt = x
		}
	}
	for i := 0; i < num(c, "count") && len(t.bad) < 5; i++ {
		x := garbled{}
		if len(rc) > 0 {
			x.rsa = proto.Clone(rc[g.Intn(len(rc))]).(*securityv1.RsaCertificate)
			maim(g, x.rsa.ProtoReflect())
		}
		if len(ec) > 0 {
			x.ecc = proto.Clone(ec[g.Intn(len(ec))]).(*securityv1.EccCertificate)
			maim(g, x.ecc.ProtoReflect())
		}
		if rt != nil && g.Intn(4) > 0 {
			x.root = proto.Clone(rt).(*securityv1.RootCertificate)
			maim(g, x.root.ProtoReflect())
		}
		if len(rc) == 0 || g.Intn(10) == 0 {
			x.rsa = nil
		}
		if len(ec) == 0 || g.Intn(10) == 0 {
			x.ecc = nil
		}
		b := damaged(g, data, other, spans)
		s.everything(t, b, x)
	}
	t.report(r)
}

// maim changes a few fields of a message.
func maim(g *rand.Rand, m protoreflect.Message) {
	for n := g.Intn(3); n > 0; n-- {
		at := m
		for {
			fs := at.Descriptor().Fields()
			fd := fs.Get(g.Intn(fs.Len()))
			if fd.Message() != nil && !fd.IsList() && at.Has(fd) && g.Intn(4) > 0 {
				at = at.Mutable(fd).Message()
				continue
			}
			switch {
			case g.Intn(3) == 0:
				at.Clear(fd)
			case fd.Kind() == protoreflect.BytesKind && !fd.IsList():
				b := damaged(g, at.Get(fd).Bytes(), nil, nil)
				at.Set(fd, protoreflect.ValueOfBytes(b))
			case fd.Kind() == protoreflect.StringKind && !fd.IsList():
				at.Set(fd, protoreflect.ValueOfString([]string{"", "1", "18446744073709551616", "x", at.Get(fd).String() + "0", "1.2.840.10045.3.1.7"}[g.Intn(6)]))
			}
			break
		}
	}
}

// abusecerts puts damaged certificates through reading and verification.
func (s *session) abusecerts(c M, r M) {
	g := rand.New(rand.NewSource(int64(num(c, "seed"))))
	t := &tallies{outs: map[string]int{}, worst: map[string]M{}}
	names := listOf(c["certs"])
	pick := func() []byte {
		b := s.bufs[names[g.Intn(len(names))]]
		if g.Intn(5) == 0 {
			return b
		}
		return damaged(g, b, s.bufs[names[g.Intn(len(names))]], nil)
	}
	var rsas []*securityv1.RsaCertificate
	var eccs []*securityv1.EccCertificate
	var roots []*securityv1.RootCertificate
	for i := 0; i < num(c, "count") && len(t.bad) < 5; i++ {
		b := pick()
		n := len(b)
		t.call("rsa", n, b, func() error {
			x, err := security.UnmarshalRsaCertificate(b)
			if err == nil {
				rsas = append(rsas, x)
				_, err = security.AppendRsaCertificate(nil, x)
			}
			return err
		})
		t.call("ecc", n, b, func() error {
			x, err := security.UnmarshalEccCertificate(b)
			if err == nil {
				eccs = append(eccs, x)
				_, err = security.AppendEccCertificate(nil, x)
			}
			return err
		})
		t.call("root", n, b, func() error {
			x, err := security.UnmarshalRootCertificate(b)
			if err == nil {
				roots = append(roots, x)
			}
			return err
		})
		for k := 0; k < 3; k++ {
			if len(rsas) > 0 {
				x, y := proto.Clone(rsas[g.Intn(len(rsas))]).(*securityv1.RsaCertificate), proto.Clone(rsas[g.Intn(len(rsas))]).(*securityv1.RsaCertificate)
				maim(g, x.ProtoReflect())
				maim(g, y.ProtoReflect())
				if g.Intn(2) == 0 {
					y.SetRsaModulus(damaged(g, b, nil, nil))
					y.SetRsaExponent([]byte{extremes[g.Intn(len(extremes))], extremes[g.Intn(len(extremes))]})
				}
				t.call("rsa by ca", n+400, b, func() error { return security.VerifyRsaCertificateWithCA(x, y) })
				if len(roots) > 0 {
					z := proto.Clone(roots[g.Intn(len(roots))]).(*securityv1.RootCertificate)
					maim(g, z.ProtoReflect())
					t.call("rsa by root", n+400, b, func() error { return security.VerifyRsaCertificateWithRoot(x, z) })
				}
			}
			if len(eccs) > 0 {
				x, y := proto.Clone(eccs[g.Intn(len(eccs))]).(*securityv1.EccCertificate), proto.Clone(eccs[g.Intn(len(eccs))]).(*securityv1.EccCertificate)
				maim(g, x.ProtoReflect())
				maim(g, y.ProtoReflect())
				t.call("ecc by ca", n+400, b, func() error { return security.VerifyEccCertificateWithCA(x, y) })
			}
		}
		if len(rsas) > 200 {
			rsas = rsas[100:]
		}
		if len(eccs) > 200 {
			eccs = eccs[100:]
		}
	}
	t.report(r)
}

func listOf(v any) []string {
	l, _ := v.([]any)
	var out []string
	for _, x := range l {
		out = append(out, x.(string))
	}
	return out
}
