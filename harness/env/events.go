// Package env builds the systems under test and holds the event types, helpers
// and reference model shared by the monitors.
package env

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/vmihailenco/msgpack/v4"
)

// EvA and EvB are bound event types, EvU is never bound.
type EvA struct {
	T       string      `json:"t"`
	ID      string      `json:"id"`
	UID     string      `json:"uid"`
	Payload interface{} `json:"payload"`
}
type EvB struct {
	T       string      `json:"t"`
	ID      string      `json:"id"`
	UID     string      `json:"uid"`
	Payload interface{} `json:"payload"`
	N       uint64      `json:"n"`
	I       int64       `json:"i"`
	S       []string    `json:"s"`
}
type EvU struct {
	T       string      `json:"t"`
	ID      string      `json:"id"`
	UID     string      `json:"uid"`
	Payload interface{} `json:"payload"`
}

func (e EvA) AggregateID() string   { return e.ID }
func (e EvA) AggregateType() string { return e.T }
func (e EvA) EventType() string     { return "VerifA" }
func (e EvB) AggregateID() string   { return e.ID }
func (e EvB) AggregateType() string { return e.T }
func (e EvB) EventType() string     { return "VerifB" }
func (e EvU) AggregateID() string   { return e.ID }
func (e EvU) AggregateType() string { return e.T }
func (e EvU) EventType() string     { return "VerifU" }

// EvFail cannot be serialized by any serializer.
type EvFail struct{ T, ID string }

func (e EvFail) AggregateID() string          { return e.ID }
func (e EvFail) AggregateType() string        { return e.T }
func (e EvFail) EventType() string            { return "VerifFail" }
func (e EvFail) MarshalJSON() ([]byte, error) { return nil, errors.New("verif: cannot serialize") }
func (e EvFail) EncodeMsgpack(*msgpack.Encoder) error {
	return errors.New("verif: cannot serialize")
}

// EvPoison serializes but its bound type cannot be decoded.
type EvPoison struct {
	T   string `json:"t"`
	ID  string `json:"id"`
	UID string `json:"uid"`
}

func (e EvPoison) AggregateID() string   { return e.ID }
func (e EvPoison) AggregateType() string { return e.T }
func (e EvPoison) EventType() string     { return "VerifPoison" }
func (e *EvPoison) UnmarshalJSON([]byte) error {
	return errors.New("verif: cannot deserialize")
}
func (e *EvPoison) DecodeMsgpack(*msgpack.Decoder) error {
	return errors.New("verif: cannot deserialize")
}

// EvEncFail cannot be encrypted.
type EvEncFail struct{ EvA }

func (e *EvEncFail) Encrypt(crypto.Encryptor) error { return errors.New("verif: cannot encrypt") }
func (e *EvEncFail) Decrypt(crypto.Encryptor) error { return nil }

// EvHook runs a function whenever the store asks for its event type.
type EvHook struct {
	EvA
	Hook func() `json:"-" msgpack:"-"`
}

func (e EvHook) EventType() string {
	if e.Hook != nil {
		e.Hook()
	}
	return "VerifA"
}
func (e EvHook) MarshalJSON() ([]byte, error) { return json.Marshal(e.EvA) }
func (e EvHook) EncodeMsgpack(enc *msgpack.Encoder) error {
	return enc.Encode(e.EvA)
}

// BindAll binds the harness events.
func BindAll(b rangedb.EventBinder) { b.Bind(&EvA{}, &EvB{}, &EvPoison{}, &EvRich{}) }

// UID extracts the unique event identity from record data.
func UID(data interface{}) string {
	switch d := data.(type) {
	case nil:
		return "<nil>"
	case *EvRich:
		return d.UID
	case *PersonA:
		return d.UID
	case *PersonB:
		return d.UID
	case *EvA:
		return d.UID
	case *EvB:
		return d.UID
	case *EvU:
		return d.UID
	case EvHook:
		return d.UID
	case *EvHook:
		return d.UID
	case EvA:
		return d.UID
	case EvB:
		return d.UID
	case EvU:
		return d.UID
	case map[string]interface{}:
		if s, ok := d["uid"].(string); ok {
			return s
		}
	case map[interface{}]interface{}:
		if s, ok := d["uid"].(string); ok {
			return s
		}
	}
	if b, err := json.Marshal(data); err == nil {
		var x struct {
			UID string `json:"uid"`
		}
		if json.Unmarshal(b, &x) == nil && x.UID != "" {
			return x.UID
		}
	}
	return fmt.Sprintf("<unidentified %T>", data)
}

// Canon renders any value as canonical JSON with exact numbers.
func Canon(v interface{}) string {
	var sb strings.Builder
	canon(&sb, normalize(v))
	return sb.String()
}

func normalize(v interface{}) interface{} {
	if m, ok := v.(map[interface{}]interface{}); ok {
		out := map[string]interface{}{}
		for k, x := range m {
			out[fmt.Sprint(k)] = normalize(x)
		}
		return out
	}
	b, err := json.Marshal(fixMaps(v))
	if err != nil {
		return fmt.Sprintf("<unmarshalable %T: %v>", v, err)
	}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	var out interface{}
	if err := dec.Decode(&out); err != nil {
		return fmt.Sprintf("<undecodable: %v>", err)
	}
	return out
}

// fixMaps converts maps with interface keys nested inside generic values.
func fixMaps(v interface{}) interface{} {
	switch x := v.(type) {
	case map[interface{}]interface{}:
		out := map[string]interface{}{}
		for k, y := range x {
			out[fmt.Sprint(k)] = fixMaps(y)
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, y := range x {
			out[k] = fixMaps(y)
		}
		return out
	case []interface{}:
		out := make([]interface{}, len(x))
		for i, y := range x {
			out[i] = fixMaps(y)
		}
		return out
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr && !rv.IsNil() && rv.Elem().Kind() == reflect.Struct {
		switch e := v.(type) {
		case *EvA:
			c := *e
			c.Payload = fixMaps(c.Payload)
			return c
		case *EvB:
			c := *e
			c.Payload = fixMaps(c.Payload)
			return c
		}
	}
	return v
}

func canon(sb *strings.Builder, v interface{}) {
	switch x := v.(type) {
	case nil:
		sb.WriteString("null")
	case bool:
		fmt.Fprintf(sb, "%v", x)
	case json.Number:
		r, ok := new(big.Rat).SetString(string(x))
		if !ok {
			sb.WriteString(string(x))
			return
		}
		sb.WriteString(r.RatString())
	case string:
		fmt.Fprintf(sb, "%q", x)
	case []interface{}:
		sb.WriteByte('[')
		for i, y := range x {
			if i > 0 {
				sb.WriteByte(',')
			}
			canon(sb, y)
		}
		sb.WriteByte(']')
	case map[string]interface{}:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sortStrings(keys)
		sb.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				sb.WriteByte(',')
			}
			fmt.Fprintf(sb, "%q:", k)
			canon(sb, x[k])
		}
		sb.WriteByte('}')
	default:
		fmt.Fprintf(sb, "<%T>", v)
	}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// RecString renders every field of a record canonically.
func RecString(r *rangedb.Record) string {
	if r == nil {
		return "<nil record>"
	}
	return fmt.Sprintf("g%d s%d stream=%q type=%q id=%q ev=%q eid=%s ts=%d data=%s meta=%s",
		r.GlobalSequenceNumber, r.StreamSequenceNumber, r.StreamName, r.AggregateType, r.AggregateID,
		r.EventType, r.EventID, r.InsertTimestamp, Canon(r.Data), Canon(r.Metadata))
}

// Collect drains an iterator.
func Collect(it rangedb.RecordIterator) ([]*rangedb.Record, error) {
	var out []*rangedb.Record
	for it.Next() {
		out = append(out, it.Record())
	}
	return out, it.Err()
}

// Strings renders records.
func Strings(rs []*rangedb.Record) []string {
	out := make([]string, len(rs))
	for i, r := range rs {
		out[i] = RecString(r)
	}
	return out
}

// GSNs lists global numbers.
func GSNs(rs []*rangedb.Record) []uint64 {
	out := make([]uint64, len(rs))
	for i, r := range rs {
		out[i] = r.GlobalSequenceNumber
	}
	return out
}

// Diff describes the first difference between two record string lists.
func Diff(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "<missing>", "<missing>"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("at index %d (got %d records, want %d):\n   got  %s\n   want %s", i, len(got), len(want), g, w)
		}
	}
	return ""
}

// NewTypes returns an event type identifier with the harness events bound.
func NewTypes() rangedb.EventTypeIdentifier {
	s := jsonrecordserializer.New()
	BindAll(s)
	return s
}
