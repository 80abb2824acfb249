package main

import "google.golang.org/protobuf/reflect/protoreflect"

func protoName(v any) protoreflect.Name         { return protoreflect.Name(v.(string)) }
func valueOfBytes(b []byte) protoreflect.Value  { return protoreflect.ValueOfBytes(b) }
func valueOfString(s string) protoreflect.Value { return protoreflect.ValueOfString(s) }

// smudge overwrites the bytes of a message in place.
func smudge(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.Kind() == protoreflect.BytesKind:
			for i, b := 0, v.Bytes(); i < len(b); i++ {
				b[i] ^= 0x55
			}
		case fd.Kind() == protoreflect.MessageKind && !fd.IsList() && !fd.IsMap():
			smudge(v.Message())
		}
		return true
	})
}
