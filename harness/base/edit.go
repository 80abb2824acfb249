package main

// Edits a caller may make to a parsed file.

import (
	"fmt"
	"math"
	"regexp"
	"strings"

	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/timestamppb"
)

const rawField = "raw_data"

// strip clears the remembered raw bytes at and below m.
func strip(m protoreflect.Message) {
	if fd := m.Descriptor().Fields().ByName(rawField); fd != nil {
		m.Clear(fd)
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if fd.Message() == nil || fd.IsMap() {
			return true
		}
		if fd.IsList() {
			for i := 0; i < v.List().Len(); i++ {
				strip(v.List().Get(i).Message())
			}
		} else {
			strip(v.Message())
		}
		return true
	})
}

// overlay copies the fields of src to dst but leaves the raw bytes dst remembers.
func overlay(dst, src protoreflect.Message) {
	if dst.Descriptor().FullName() == "google.protobuf.Timestamp" {
		proto.Reset(dst.Interface())
		proto.Merge(dst.Interface(), src.Interface())
		return
	}
	fds := dst.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		switch {
		case fd.Name() == rawField:
		case !src.Has(fd):
			dst.Clear(fd)
		case fd.Message() != nil && !fd.IsList() && dst.Has(fd):
			overlay(dst.Mutable(fd).Message(), src.Get(fd).Message())
		default:
			dst.Set(fd, src.Get(fd))
		}
	}
}

// graft takes the value at path from src over into dst.
//
//	act  set     the field or element at path becomes that of src
//	     append  the element at path of src is added to the list of dst
//	     insert  ... is inserted before the element of dst
//	     delete  the element of dst is removed
//	     strip   the raw bytes at and below path of dst are forgotten
//	mode all     with its raw bytes
//	     bare    without raw bytes
//	     keep    the raw bytes of dst stay
func graft(dst, src protoreflect.Message, act, mode string, path []any) {
	src = proto.Clone(src.Interface()).ProtoReflect()
	for {
		name := protoreflect.Name(path[0].(string))
		fd := dst.Descriptor().Fields().ByName(name)
		if fd == nil {
			panic("harness: no field " + string(name) + " in " + string(dst.Descriptor().FullName()))
		}
		if fd.IsList() && len(path) > 1 {
			i := int(path[1].(float64))
			l := dst.Mutable(fd).List()
			if len(path) == 2 {
				var e protoreflect.Value
				if act == "set" || act == "append" || act == "insert" {
					e = src.Get(fd).List().Get(i)
					if mode == "bare" && fd.Message() != nil {
						strip(e.Message())
					}
				}
				n := dst.NewField(fd).List()
				for j := 0; j < l.Len(); j++ {
					switch {
					case j == i && act == "delete":
						continue
					case j == i && act == "insert":
						n.Append(e)
					case j == i && act == "strip":
						strip(l.Get(j).Message())
					case j == i && act == "set" && mode == "keep":
						overlay(l.Get(j).Message(), e.Message())
					case j == i && act == "set":
						n.Append(e)
						continue
					}
					n.Append(l.Get(j))
				}
				if act == "append" {
					n.Append(e)
				}
				dst.Set(fd, protoreflect.ValueOfList(n))
				return
			}
			dst = l.Get(i).Message()
			if i < src.Get(fd).List().Len() {
				src = src.Get(fd).List().Get(i).Message()
			} else if act != "strip" && act != "delete" {
				panic("harness: donor has no element")
			}
			path = path[2:]
			continue
		}
		if len(path) == 1 {
			switch {
			case act == "strip":
				if dst.Has(fd) {
					strip(dst.Mutable(fd).Message())
				}
			case act != "set":
				panic("harness: act " + act)
			case !src.Has(fd):
				dst.Clear(fd)
			case mode == "keep" && fd.Message() != nil && !fd.IsList() && dst.Has(fd):
				overlay(dst.Mutable(fd).Message(), src.Get(fd).Message())
			default:
				dst.Set(fd, src.Get(fd))
				if mode == "bare" && fd.Message() != nil {
					if fd.IsList() {
						for j := 0; j < dst.Get(fd).List().Len(); j++ {
							strip(dst.Get(fd).List().Get(j).Message())
						}
					} else {
						strip(dst.Mutable(fd).Message())
					}
				}
			}
			return
		}
		dst, src = dst.Mutable(fd).Message(), src.Get(fd).Message()
		path = path[1:]
	}
}

// place is one place of a file at which a value can be changed.
type place struct {
	path string
	m    protoreflect.Message
	fd   protoreflect.FieldDescriptor
	i    int // element of a list, or -1
}

func places(m protoreflect.Message, at string, out []place) []place {
	if m.Descriptor().FullName() == "google.protobuf.Timestamp" {
		return out
	}
	fds := m.Descriptor().Fields()
	for k := 0; k < fds.Len(); k++ {
		fd := fds.Get(k)
		if !m.Has(fd) {
			continue
		}
		p := at + "." + string(fd.Name())
		out = append(out, place{p, m, fd, -1})
		if fd.IsList() {
			l := m.Get(fd).List()
			for i := 0; i < l.Len() && i < 2000; i++ {
				q := fmt.Sprintf("%s[%d]", p, i)
				out = append(out, place{q, m, fd, i})
				if fd.Message() != nil {
					out = places(l.Get(i).Message(), q, out)
				}
			}
		} else if fd.Message() != nil {
			out = places(m.Get(fd).Message(), p, out)
		}
	}
	return out
}

// hows is in how many ways mutate can change the place.
func (p place) hows() int {
	switch {
	case p.fd.IsList() && p.i < 0:
		return 6
	case p.fd.Message() != nil && p.fd.Message().FullName() == "google.protobuf.Timestamp":
		return 10
	case p.fd.Message() != nil:
		return 3
	}
	switch p.fd.Kind() {
	case protoreflect.BoolKind:
		return 1
	case protoreflect.EnumKind:
		return 12
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return 24
	case protoreflect.StringKind:
		return 36
	case protoreflect.BytesKind:
		return 8
	}
	return 7
}

var elements = regexp.MustCompile(`\[\d+\]`)

// leaves lists the places of the file that differ in more than the element of
// a list they are in: how often, and in how many ways, mutate can change them.
func leaves(f *tachographv1.File) []any {
	var out []any
	at := map[string]int{}
	for k, p := range places(f.ProtoReflect(), "", nil) {
		name := elements.ReplaceAllString(p.path, "[]")
		i, ok := at[name]
		if !ok {
			i = len(out)
			at[name] = i
			out = append(out, M{"path": name, "hows": p.hows(), "picks": []int{}})
		}
		l := out[i].(M)
		l["picks"] = append(l["picks"].([]int), k)
	}
	return out
}

// mutate changes one place of the file, chosen by pick, in one of the ways
// that can make it impossible to encode, and says what it did.
func mutate(f *tachographv1.File, pick, how int) string {
	all := places(f.ProtoReflect(), "", nil)
	if len(all) == 0 {
		return "nothing"
	}
	p := all[pick%len(all)]
	set := func(v protoreflect.Value) {
		if p.i >= 0 {
			p.m.Mutable(p.fd).List().Set(p.i, v)
		} else {
			p.m.Set(p.fd, v)
		}
	}
	get := func() protoreflect.Value {
		if p.i >= 0 {
			return p.m.Get(p.fd).List().Get(p.i)
		}
		return p.m.Get(p.fd)
	}
	if p.fd.IsList() && p.i < 0 {
		l := p.m.Mutable(p.fd).List()
		n := l.Len()
		switch how % 6 {
		case 0:
			p.m.Clear(p.fd)
			return p.path + " cleared"
		case 1:
			if n > 0 {
				l.Append(l.Get(n - 1))
			}
			return p.path + " last element twice"
		case 2:
			if n > 0 {
				l.Truncate(n - 1)
			}
			return p.path + " last element removed"
		case 3:
			// shared elements: two such lists, one in the other, would be huge
			if n == 0 || proto.Size(f) > 60000 {
				return "nothing"
			}
			if p.fd.ContainingMessage().Name() == "RawCardFile" {
				for l.Len() < 600 {
					l.Append(l.Get(0))
				}
				return p.path + " of 600 elements"
			}
			for l.Len() < 70000 {
				l.Append(l.Get(0))
			}
			return p.path + " of 70000 elements"
		case 4:
			if p.fd.Message() != nil {
				l.Append(l.NewElement())
			}
			return p.path + " empty element added"
		default:
			if n > 1 {
				a, b := l.Get(0), l.Get(n-1)
				l.Set(0, b)
				l.Set(n-1, a)
			}
			return p.path + " first and last exchanged"
		}
	}
	if p.fd.Message() != nil {
		if ts, ok := get().Message().Interface().(*timestamppb.Timestamp); ok {
			v := []timestamppb.Timestamp{{Seconds: -1}, {Seconds: 1 << 32}, {Seconds: 1<<32 - 1}, {Seconds: 5, Nanos: 1}, {Seconds: 1, Nanos: 999999999},
				{Seconds: math.MaxInt64}, {Seconds: math.MinInt64}, {Seconds: 0}, {Seconds: 1<<32 + 7}}
			k := how % (len(v) + 1)
			if k == len(v) {
				p.m.Clear(p.fd)
				return p.path + " cleared"
			}
			ts.Seconds, ts.Nanos = v[k].Seconds, v[k].Nanos
			return fmt.Sprintf("%s = %d s %d ns", p.path, v[k].Seconds, v[k].Nanos)
		}
		switch how % 3 {
		case 0:
			if p.i < 0 {
				p.m.Clear(p.fd)
				return p.path + " cleared"
			}
			fallthrough
		case 1:
			proto.Reset(get().Message().Interface())
			return p.path + " emptied"
		default:
			strip(get().Message())
			return p.path + " raw bytes forgotten"
		}
	}
	switch p.fd.Kind() {
	case protoreflect.BoolKind:
		set(protoreflect.ValueOfBool(!get().Bool()))
	case protoreflect.EnumKind:
		v := []int32{0, 1, 2, 3, 4, 5, 199, 200, -1, math.MaxInt32, 13, 27}
		set(protoreflect.ValueOfEnum(protoreflect.EnumNumber(v[how%len(v)])))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		v := []int32{-1, 256, 65536, 1 << 24, math.MaxInt32, math.MinInt32, 0, 1, 255, 65535, 1<<24 - 1, -1 << 23, -1<<23 - 1, 1 << 23, 10000, 9999, 100, 99, 2048, 1440, -256, 12, 13, 14}
		set(protoreflect.ValueOfInt32(v[how%len(v)]))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		v := []int64{-1, 1 << 32, 1<<32 - 1, math.MaxInt64, math.MinInt64, 0, 1}
		set(protoreflect.ValueOfInt64(v[how%len(v)]))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		v := []uint32{256, 65536, 1 << 24, math.MaxUint32, 0, 255, 65535}
		set(protoreflect.ValueOfUint32(v[how%len(v)]))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		v := []uint64{1 << 32, math.MaxUint64, 0, 256, 65536}
		set(protoreflect.ValueOfUint64(v[how%len(v)]))
	case protoreflect.StringKind:
		v := []string{"", "x", strings.Repeat("A", 300), strings.Repeat("B", 35), strings.Repeat("C", 36), "日本語", "Ωμέγα", "Żółw", "a\x00b", "\xff\xfe", "é", " lead", strings.Repeat("D", 13), strings.Repeat("E", 14), "12", "Łódź", "€", "Ж"}
		x := v[how%len(v)]
		// a text's raw bytes take precedence over its value
		if p.fd.Name() == "value" && how/len(v)%3 > 0 {
			if r := p.m.Descriptor().Fields().ByName(rawField); r != nil {
				p.m.Clear(r)
			}
		}
		set(protoreflect.ValueOfString(x))
	case protoreflect.BytesKind:
		b := append([]byte(nil), get().Bytes()...)
		switch how % 6 {
		case 0:
			b = nil
		case 1:
			b = append(b, 7)
		case 2:
			if len(b) > 0 {
				b = b[:len(b)-1]
			}
		case 3:
			set(protoreflect.ValueOfBytes(make([]byte, 70000)))
			return p.path + " of 70000 bytes"
		case 4:
			if len(b) > 0 {
				b[how/6%len(b)] ^= 0xFF
			}
		default:
			p.m.Clear(p.fd)
			return p.path + " cleared"
		}
		set(protoreflect.ValueOfBytes(b))
	}
	return fmt.Sprintf("%s = %.60v", p.path, get().Interface())
}
