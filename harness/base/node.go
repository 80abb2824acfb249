package main

// Projection of a protobuf message onto the values the specification talks
// about, and back.  A node is one of
//   ["m", {field: node}]   a message: only the fields that are set
//   ["l", [node]]          a repeated field
//   ["v", [int]]           a scalar: ints, code points of a string, bytes
// 64-bit values and timestamps are split at bit 16 so that every integer fits
// TLC's 32 bits.

import (
	"fmt"
	"math"
	"unicode/utf8"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/timestamppb"
)

func limbs(n int64) []int64 {
	hi, lo := n>>16, n&0xffff
	if hi > math.MaxInt32 || hi < math.MinInt32 {
		return []int64{hi >> 32, (hi >> 16) & 0xffff, hi & 0xffff, lo}
	}
	return []int64{hi, lo}
}

func unlimbs(v []int64) int64 {
	if len(v) >= 4 {
		return v[0]<<48 | v[1]<<32 | v[2]<<16 | v[3]
	}
	return v[0]<<16 | v[1]
}

func scalar(fd protoreflect.FieldDescriptor, v protoreflect.Value) any {
	var out []int64
	switch fd.Kind() {
	case protoreflect.BoolKind:
		out = []int64{0}
		if v.Bool() {
			out[0] = 1
		}
	case protoreflect.EnumKind:
		out = []int64{int64(v.Enum())}
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		out = []int64{v.Int()}
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		out = limbs(v.Int())
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind, protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		out = limbs(int64(v.Uint()))
	case protoreflect.StringKind:
		s := v.String()
		out = []int64{}
		if !utf8.ValidString(s) {
			out = []int64{-1}
		} else {
			for _, r := range s {
				out = append(out, int64(r))
			}
		}
	case protoreflect.BytesKind:
		out = []int64{}
		for _, b := range v.Bytes() {
			out = append(out, int64(b))
		}
	default:
		panic(fmt.Sprintf("harness: kind %v", fd.Kind()))
	}
	return []any{"v", out}
}

func node(m protoreflect.Message) any {
	if m.Descriptor().FullName() == "google.protobuf.Timestamp" {
		ts := m.Interface().(*timestamppb.Timestamp)
		out := limbs(ts.GetSeconds())
		if ts.GetNanos() != 0 {
			out = append(out, int64(ts.GetNanos()))
		}
		return []any{"v", out}
	}
	fields := map[string]any{}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		name := string(fd.Name())
		switch {
		case fd.IsList():
			l := v.List()
			out := make([]any, l.Len())
			for i := range out {
				if fd.Message() != nil {
					out[i] = node(l.Get(i).Message())
				} else {
					out[i] = scalar(fd, l.Get(i))
				}
			}
			fields[name] = []any{"l", out}
		case fd.IsMap():
			panic("harness: map field")
		case fd.Message() != nil:
			fields[name] = node(v.Message())
		default:
			fields[name] = scalar(fd, v)
		}
		return true
	})
	return []any{"m", fields}
}

func msgNode(m proto.Message) any { return node(m.ProtoReflect()) }

func ints(x any) []int64 {
	if x == nil {
		return nil
	}
	a := x.([]any)
	out := make([]int64, len(a))
	for i := range a {
		out[i] = int64(a[i].(float64))
	}
	return out
}

func bytesOf(x any) []byte {
	v := ints(x)
	out := make([]byte, len(v))
	for i := range v {
		out[i] = byte(v[i])
	}
	return out
}

func unscalar(fd protoreflect.FieldDescriptor, x any) protoreflect.Value {
	v := ints(x.([]any)[1])
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(v[0] != 0)
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(v[0]))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(v[0]))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(unlimbs(v))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(unlimbs(v)))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(unlimbs(v)))
	case protoreflect.StringKind:
		r := make([]rune, len(v))
		for i := range v {
			r[i] = rune(v[i])
		}
		return protoreflect.ValueOfString(string(r))
	case protoreflect.BytesKind:
		b := make([]byte, len(v))
		for i := range v {
			b[i] = byte(v[i])
		}
		return protoreflect.ValueOfBytes(b)
	}
	panic(fmt.Sprintf("harness: kind %v", fd.Kind()))
}

// fill sets the fields of m named in the node x (a message node or, for a
// timestamp, a value node).
func fill(m protoreflect.Message, x any) {
	a := x.([]any)
	if m.Descriptor().FullName() == "google.protobuf.Timestamp" {
		v := ints(a[1])
		ts := m.Interface().(*timestamppb.Timestamp)
		switch len(v) {
		case 3:
			ts.Seconds, ts.Nanos = unlimbs(v[:2]), int32(v[2])
		default:
			ts.Seconds = unlimbs(v)
		}
		return
	}
	for name, sub := range a[1].(map[string]any) {
		fd := m.Descriptor().Fields().ByName(protoreflect.Name(name))
		if fd == nil {
			panic("harness: no field " + name + " in " + string(m.Descriptor().FullName()))
		}
		setField(m, fd, sub)
	}
}

func setField(m protoreflect.Message, fd protoreflect.FieldDescriptor, sub any) {
	switch {
	case fd.IsList():
		l := m.NewField(fd).List()
		for _, e := range sub.([]any)[1].([]any) {
			l.Append(element(l, fd, e))
		}
		m.Set(fd, protoreflect.ValueOfList(l))
	case fd.Message() != nil:
		v := m.NewField(fd)
		fill(v.Message(), sub)
		m.Set(fd, v)
	default:
		m.Set(fd, unscalar(fd, sub))
	}
}

func element(l protoreflect.List, fd protoreflect.FieldDescriptor, e any) protoreflect.Value {
	if fd.Message() != nil {
		v := l.NewElement()
		fill(v.Message(), e)
		return v
	}
	return unscalar(fd, e)
}

// edit applies one change below m.  path alternates field names and, for
// repeated fields, indices (JSON numbers).
//
//	set     the field (or list element) becomes val
//	clear   the field becomes unset
//	append  val is added to the end of the list
//	insert  val is inserted before the element
//	delete  the element is removed
func edit(m protoreflect.Message, act string, path []any, val any) {
	for {
		name := path[0].(string)
		fd := m.Descriptor().Fields().ByName(protoreflect.Name(name))
		if fd == nil {
			panic("harness: no field " + name + " in " + string(m.Descriptor().FullName()))
		}
		if len(path) == 1 {
			switch act {
			case "set":
				setField(m, fd, val)
			case "clear":
				m.Clear(fd)
			case "append":
				l := m.Mutable(fd).List()
				l.Append(element(l, fd, val))
			default:
				panic("harness: act " + act)
			}
			return
		}
		if fd.IsList() {
			i := int(path[1].(float64))
			l := m.Mutable(fd).List()
			if len(path) == 2 {
				switch act {
				case "set":
					l.Set(i, element(l, fd, val))
				case "delete", "insert":
					n := m.NewField(fd).List()
					for j := 0; j < l.Len(); j++ {
						if j == i && act == "delete" {
							continue
						}
						if j == i {
							n.Append(element(n, fd, val))
						}
						n.Append(l.Get(j))
					}
					m.Set(fd, protoreflect.ValueOfList(n))
				default:
					panic("harness: act " + act)
				}
				return
			}
			m = l.Get(i).Message()
			path = path[2:]
			continue
		}
		m = m.Mutable(fd).Message()
		path = path[1:]
	}
}
