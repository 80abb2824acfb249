package main

// Reading and writing single values of the data dictionary.

import (
	"bytes"

	"github.com/way-platform/tachograph-go/internal/dd"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type valueKind struct {
	read  func([]byte) (any, any, error)
	write func([]byte, any) ([]byte, error)
}

// valueOf ties reading and writing of one kind of message together.
func valueOf[T proto.Message](read func([]byte) (T, error), write func([]byte, T) ([]byte, error)) valueKind {
	return valueKind{
		read: func(b []byte) (any, any, error) {
			v, err := read(b)
			if err != nil {
				return nil, nil, err
			}
			if !v.ProtoReflect().IsValid() {
				return v, []any{"n"}, nil
			}
			return v, shown(v), nil
		},
		write: func(dst []byte, v any) ([]byte, error) { return write(dst, v.(T)) },
	}
}

// shown is a message as a node; times are numbers.
func shown(m proto.Message) any {
	if t, ok := m.(*timestamppb.Timestamp); ok {
		if t == nil {
			return []any{"n"}
		}
		box := &ddv1.GNSSPlaceRecord{}
		box.SetTimestamp(t)
		return msgNode(box).([]any)[1].(M)["timestamp"]
	}
	return msgNode(m)
}

func valueKinds() map[string]valueKind {
	o := dd.UnmarshalOptions{}
	return map[string]valueKind{
		"Date":                        valueOf(o.UnmarshalDate, dd.AppendDate),
		"TimeReal":                    valueOf(o.UnmarshalTimeReal, dd.AppendTimeReal),
		"MonthYear":                   valueOf(o.UnmarshalMonthYear, dd.AppendMonthYear),
		"CardStructureVersion":        valueOf(o.UnmarshalCardStructureVersion, dd.AppendCardStructureVersion),
		"ControlType":                 valueOf(o.UnmarshalControlType, dd.AppendControlType),
		"ActivityChangeInfo":          valueOf(o.UnmarshalActivityChangeInfo, dd.AppendActivityChangeInfo),
		"GeoCoordinates":              valueOf(o.UnmarshalGeoCoordinates, dd.AppendGeoCoordinates),
		"Ia5StringValue":              valueOf(o.UnmarshalIa5StringValue, dd.AppendIa5StringValue),
		"StringValue":                 valueOf(o.UnmarshalStringValue, dd.AppendStringValue),
		"BcdString":                   valueOf(o.UnmarshalBcdString, dd.AppendBcdString),
		"VehicleRegistration":         valueOf(o.UnmarshalVehicleRegistration, dd.AppendVehicleRegistration),
		"HolderName":                  valueOf(o.UnmarshalHolderName, dd.AppendHolderName),
		"DriverIdentification":        valueOf(o.UnmarshalDriverIdentification, dd.AppendDriverIdentification),
		"OwnerIdentification":         valueOf(o.UnmarshalOwnerIdentification, dd.AppendOwnerIdentification),
		"FullCardNumber":              valueOf(o.UnmarshalFullCardNumber, dd.AppendFullCardNumber),
		"FullCardNumberAndGeneration": valueOf(o.UnmarshalFullCardNumberAndGeneration, dd.AppendFullCardNumberAndGeneration),
		"ExtendedSerialNumber":        valueOf(o.UnmarshalExtendedSerialNumber, dd.AppendExtendedSerialNumber),
		"PreviousVehicleInfo":         valueOf(o.UnmarshalPreviousVehicleInfo, dd.AppendPreviousVehicleInfo),
		"PreviousVehicleInfoG2":       valueOf(o.UnmarshalPreviousVehicleInfoG2, dd.AppendPreviousVehicleInfoG2),
		"SpecificConditionRecord":     valueOf(o.UnmarshalSpecificConditionRecord, dd.AppendSpecificConditionRecord),
		"PlaceRecord":                 valueOf(o.UnmarshalPlaceRecord, dd.AppendPlaceRecord),
		"PlaceRecordG2":               valueOf(o.UnmarshalPlaceRecordG2, dd.AppendPlaceRecordG2),
		"GNSSPlaceRecord":             valueOf(o.UnmarshalGNSSPlaceRecord, dd.AppendGNSSPlaceRecord),
		"GNSSPlaceAuthRecord":         valueOf(o.UnmarshalGNSSPlaceAuthRecord, dd.AppendGNSSPlaceAuthRecord),
		"CardVehicleRecord":           valueOf(o.UnmarshalCardVehicleRecord, dd.AppendCardVehicleRecord),
		"CardVehicleRecordG2":         valueOf(o.UnmarshalCardVehicleRecordG2, dd.AppendCardVehicleRecordG2),
		"VuCardIWRecord":              valueOf(o.UnmarshalVuCardIWRecord, dd.AppendVuCardIWRecord),
		"Odometer": {
			read: func(b []byte) (any, any, error) {
				v, err := o.UnmarshalOdometer(b)
				return v, []any{"v", []any{int(v)}}, err
			},
			write: func(dst []byte, v any) ([]byte, error) { return dd.AppendOdometer(dst, v.(uint32)), nil },
		},
	}
}

// bare leaves out what a message remembers of its bytes.
func bare(m proto.Message) {
	var walk func(protoreflect.Message)
	walk = func(m protoreflect.Message) {
		if f := m.Descriptor().Fields().ByName("raw_data"); f != nil {
			m.Clear(f)
		}
		m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			if f.Message() != nil && !f.IsMap() {
				if f.IsList() {
					for i := 0; i < v.List().Len(); i++ {
						walk(v.List().Get(i).Message())
					}
				} else {
					walk(v.Message())
				}
			}
			return true
		})
	}
	walk(m.ProtoReflect())
}

// value reads bytes as one kind of value and writes the value back.
func (s *session) value(c M, r M) {
	k, ok := valueKinds()[str(c, "kind")]
	if !ok {
		panic("harness: no kind of value " + str(c, "kind"))
	}
	in := bytesOf(c["data"])
	// room behind the input that reading has no business with
	room := append(bytes.Clone(in), 0xA5, 0x5A, 0xA5, 0x5A)
	data := room[:len(in)]
	v, node, err := k.read(data)
	put(r, err)
	r["same"] = bytes.Equal(data, in) && bytes.Equal(room[len(in):], []byte{0xA5, 0x5A, 0xA5, 0x5A})
	if err != nil {
		return
	}
	r["view"] = node
	pre := bytesOf(c["pre"])
	again := func(suffix string, v any) {
		dst := append(make([]byte, 0, len(pre)+num(c, "room")), pre...)
		out, err := k.write(dst, v)
		r["wout"+suffix] = outcome(err)
		r["wrote"+suffix] = byteInts(out)
		if err != nil {
			r["wwhy"+suffix] = trunc(err.Error())
		}
	}
	m, isMsg := v.(proto.Message)
	var before proto.Message
	if isMsg && m.ProtoReflect().IsValid() {
		before = proto.Clone(m)
	}
	again("", v)
	r["kept"] = before == nil || proto.Equal(before, m)
	if before != nil {
		b := proto.Clone(m)
		bare(b)
		r["view2"] = shown(b)
		again("2", b)
	} else {
		r["view2"] = node
		again("2", v)
	}
}

// saytext writes a text that was not read from anywhere.
func (s *session) saytext(c M, r M) {
	var text []byte
	for _, x := range c["text"].([]any) {
		if n := int(x.(float64)); n < 0 {
			text = append(text, 0xFF) // not a character at all
		} else {
			text = append(text, string(rune(n))...)
		}
	}
	pre := bytesOf(c["pre"])
	dst := append(make([]byte, 0, len(pre)+num(c, "room")), pre...)
	size, has := c["length"]
	var out []byte
	var err error
	kept := true
	if str(c, "kind") == "Ia5StringValue" {
		v := &ddv1.Ia5StringValue{}
		v.SetValue(string(text))
		if has {
			v.SetLength(int32(size.(float64)))
		}
		before := proto.Clone(v)
		if has && str(c, "fixed") != "" {
			out, err = dd.AppendFixedIa5StringValue(dst, v, int(size.(float64)))
		} else {
			out, err = dd.AppendIa5StringValue(dst, v)
		}
		kept = proto.Equal(before, v)
	} else {
		v := &ddv1.StringValue{}
		v.SetValue(string(text))
		v.SetEncoding(ddv1.Encoding(num(c, "enc")))
		if has {
			v.SetLength(int32(size.(float64)))
		}
		before := proto.Clone(v)
		if has && str(c, "fixed") != "" {
			out, err = dd.AppendFixedStringValue(dst, v, 1+int(size.(float64)))
		} else {
			out, err = dd.AppendStringValue(dst, v)
		}
		kept = proto.Equal(before, v)
	}
	put(r, err)
	r["kept"] = kept
	r["wrote"] = byteInts(out)
}
