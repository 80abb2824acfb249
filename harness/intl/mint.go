package main

// A certification authority of our own: keys that depend only on their name,
// and certificates of both generations, genuine or forged in a chosen way.

import (
	"crypto/elliptic"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/asn1"
	"encoding/binary"
	"math/big"
	"strconv"
	"strings"
	"sync"

	"github.com/keybase/go-crypto/brainpool"
)

// stream is a reproducible source of bytes.
func stream(name string) func(n int) []byte {
	ctr := 0
	return func(n int) []byte {
		var out []byte
		for len(out) < n {
			h := sha256.Sum256([]byte(name + "/" + strconv.Itoa(ctr)))
			ctr++
			out = append(out, h[:]...)
		}
		return out[:n]
	}
}

type rsaKey struct{ n, e, d *big.Int }

var (
	keysMu  sync.Mutex
	rsaKeys = map[string]*rsaKey{}
	eccKeys = map[string]*eccKey{}
)

// rsaKeyOf makes the key of a name. A name ending in "e3" has the public
// exponent 3; one ending in "s" has a modulus that starts with a zero byte,
// which is too small to sign with.
func rsaKeyOf(name string) *rsaKey {
	keysMu.Lock()
	defer keysMu.Unlock()
	if k, ok := rsaKeys[name]; ok {
		return k
	}
	e := big.NewInt(65537)
	if strings.HasSuffix(name, "e3") {
		e = big.NewInt(3)
	}
	src := stream("rsa" + name)
	one := big.NewInt(1)
	prime := func(n int) *big.Int {
		for {
			b := src(n)
			b[0] |= 0xC0
			b[n-1] |= 1
			p := new(big.Int).SetBytes(b)
			if !p.ProbablyPrime(16) {
				continue
			}
			if new(big.Int).GCD(nil, nil, e, new(big.Int).Sub(p, one)).Cmp(one) == 0 {
				return p
			}
		}
	}
	short := 0
	if strings.HasSuffix(name, "s") {
		short = 1
	}
	p, q := prime(64), prime(64-short)
	phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
	k := &rsaKey{n: new(big.Int).Mul(p, q), e: e, d: new(big.Int).ModInverse(e, phi)}
	rsaKeys[name] = k
	return k
}

func padded(x *big.Int, n int) []byte { return x.FillBytes(make([]byte, n)) }

// mintRsa makes the 194 bytes of a generation-1 certificate.
func mintRsa(c M) []byte {
	key, by := rsaKeyOf(str(c, "key")), rsaKeyOf(str(c, "by"))
	bad := str(c, "bad")
	content := append([]byte{1}, bytesOf(c["car"])...)
	content = append(content, bytesOf(c["cha"])...)
	content = append(content, bytesOf(c["eov"])...)
	content = append(content, bytesOf(c["chr"])...)
	content = append(content, padded(key.n, 128)...)
	content = append(content, padded(key.e, 8)...)
	hash := sha1.Sum(content)
	h := hash[:]
	switch bad {
	case "hash":
		h[3] ^= 0x10
	case "sha256":
		x := sha256.Sum256(content)
		h = x[:20]
	case "partial":
		x := sha1.Sum(content[:106])
		h = x[:]
	}
	sr := append([]byte{0x6A}, content[:106]...)
	sr = append(sr, h...)
	sr = append(sr, 0xBC)
	switch bad {
	case "header":
		sr[0] = 0x4A
	case "trailer":
		sr[127] = 0xCC
	}
	sig := new(big.Int).Exp(new(big.Int).SetBytes(sr), by.d, by.n)
	if bad == "plusn" {
		// the same value in the arithmetic of the key, where it fits
		if x := new(big.Int).Add(sig, by.n); x.BitLen() <= 1024 {
			sig = x
		} else {
			sig = new(big.Int).Xor(sig, big.NewInt(4))
		}
	}
	out := padded(sig, 128)
	if bad == "plain" {
		out = sr
	}
	out = append(out, content[106:]...)
	carp := bytesOf(c["car"])
	if c["carp"] != nil {
		carp = bytesOf(c["carp"])
	}
	return append(out, carp...)
}

type eccKey struct {
	oid   asn1.ObjectIdentifier
	curve elliptic.Curve
	bits  int
	d     *big.Int
	x, y  *big.Int
}

var curves = map[string]struct {
	oid   asn1.ObjectIdentifier
	curve func() elliptic.Curve
	bits  int
}{
	"b256": {asn1.ObjectIdentifier{1, 3, 36, 3, 3, 2, 8, 1, 1, 7}, brainpool.P256r1, 256},
	"b384": {asn1.ObjectIdentifier{1, 3, 36, 3, 3, 2, 8, 1, 1, 11}, brainpool.P384r1, 384},
	"b512": {asn1.ObjectIdentifier{1, 3, 36, 3, 3, 2, 8, 1, 1, 13}, brainpool.P512r1, 512},
	"n256": {asn1.ObjectIdentifier{1, 2, 840, 10045, 3, 1, 7}, elliptic.P256, 256},
	"n384": {asn1.ObjectIdentifier{1, 3, 132, 0, 34}, elliptic.P384, 384},
	"n521": {asn1.ObjectIdentifier{1, 3, 132, 0, 35}, elliptic.P521, 512},
}

// eccKeyOf makes the key of a name, which starts with the name of its curve.
func eccKeyOf(name string) *eccKey {
	keysMu.Lock()
	defer keysMu.Unlock()
	if k, ok := eccKeys[name]; ok {
		return k
	}
	c, ok := curves[name[:4]]
	if !ok {
		panic("harness: no curve " + name)
	}
	k := &eccKey{oid: c.oid, curve: c.curve(), bits: c.bits}
	n := k.curve.Params().N
	k.d = new(big.Int).Mod(new(big.Int).SetBytes(stream("ecc"+name)(80)), n)
	k.x, k.y = k.curve.ScalarBaseMult(k.d.Bytes())
	eccKeys[name] = k
	return k
}

func (k *eccKey) size() int { return (k.curve.Params().BitSize + 7) / 8 }

func digest(bits int, data []byte) []byte {
	switch bits {
	case 256:
		h := sha256.Sum256(data)
		return h[:]
	case 384:
		h := sha512.Sum384(data)
		return h[:]
	}
	h := sha512.Sum512(data)
	return h[:]
}

// sign is plain ECDSA with a nonce that depends on the message.
func (k *eccKey) sign(hash []byte, want ...func(r, s *big.Int) bool) (*big.Int, *big.Int) {
	n := k.curve.Params().N
	z := new(big.Int).SetBytes(hash)
	if over := len(hash)*8 - n.BitLen(); over > 0 {
		z.Rsh(z, uint(over))
	}
	src := stream("nonce" + k.d.String() + string(hash))
	for {
		t := new(big.Int).Mod(new(big.Int).SetBytes(src(80)), n)
		if t.Sign() == 0 {
			continue
		}
		rx, _ := k.curve.ScalarBaseMult(t.Bytes())
		r := new(big.Int).Mod(rx, n)
		s := new(big.Int).Mul(r, k.d)
		s.Add(s, z)
		s.Mul(s, new(big.Int).ModInverse(t, n))
		s.Mod(s, n)
		if r.Sign() != 0 && s.Sign() != 0 && (len(want) == 0 || want[0](r, s)) {
			return r, s
		}
	}
}

func tlv(tag []byte, parts ...[]byte) []byte {
	var v []byte
	for _, p := range parts {
		v = append(v, p...)
	}
	out := append([]byte{}, tag...)
	switch {
	case len(v) < 128:
		out = append(out, byte(len(v)))
	case len(v) < 256:
		out = append(out, 0x81, byte(len(v)))
	default:
		out = append(out, 0x82)
		out = binary.BigEndian.AppendUint16(out, uint16(len(v)))
	}
	return append(out, v...)
}

// mintEcc makes a generation-2 certificate.
func mintEcc(c M) []byte {
	key, by := eccKeyOf(str(c, "key")), eccKeyOf(str(c, "by"))
	bad := str(c, "bad")
	oid, _ := asn1.Marshal(key.oid)
	x, y := key.x, key.y
	if bad == "offcurve" {
		y = new(big.Int).Xor(y, big.NewInt(1))
	}
	point := append([]byte{4}, padded(x, key.size())...)
	point = append(point, padded(y, key.size())...)
	body := tlv([]byte{0x7F, 0x4E},
		tlv([]byte{0x5F, 0x29}, []byte{0}),
		tlv([]byte{0x42}, bytesOf(c["car"])),
		tlv([]byte{0x5F, 0x4C}, bytesOf(c["cha"])),
		tlv([]byte{0x7F, 0x49}, oid, tlv([]byte{0x86}, point)),
		tlv([]byte{0x5F, 0x20}, bytesOf(c["chr"])),
		tlv([]byte{0x5F, 0x25}, bytesOf(c["from"])),
		tlv([]byte{0x5F, 0x24}, bytesOf(c["eov"])))
	signed := body
	bits := by.bits
	switch bad {
	case "hash":
		bits = map[int]int{256: 384, 384: 512, 512: 256}[bits]
	case "partial":
		signed = body[5:]
	}
	r, s := by.sign(digest(bits, signed))
	switch bad {
	case "swap":
		r, s = s, r
	case "zero":
		r, s = new(big.Int), new(big.Int)
	case "plusr", "pluss":
		// a genuine signature, one number of which is written as another of the same remainder
		order := by.curve.Params().N
		room := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*by.size())), order)
		if room.BitLen() < order.BitLen()-8 {
			r, s = s, r // there is no room for one on this curve
			break
		}
		r, s = by.sign(digest(bits, signed), func(r, s *big.Int) bool {
			return (bad == "plusr" && r.Cmp(room) < 0) || (bad == "pluss" && s.Cmp(room) < 0)
		})
		if bad == "plusr" {
			r = new(big.Int).Add(r, order)
		} else {
			s = new(big.Int).Add(s, order)
		}
	case "order":
		r, s = by.curve.Params().N, by.curve.Params().N
	}
	n := by.size()
	return tlv([]byte{0x7F, 0x21}, body, tlv([]byte{0x5F, 0x37}, padded(r, n), padded(s, n)))
}
