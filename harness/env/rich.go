package env

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strings"
	"time"

	"github.com/inklabs/rangedb"
)

// Nested is a part of EvRich.
type Nested struct {
	A string            `json:"a"`
	B *int64            `json:"b"`
	C map[string]string `json:"c"`
	D []Nested          `json:"d"`
}

// EvRich is a bound event with a field of every kind an event may have.
type EvRich struct {
	T     string            `json:"t"`
	ID    string            `json:"id"`
	UID   string            `json:"uid"`
	I8    int8              `json:"i8"`
	I16   int16             `json:"i16"`
	I32   int32             `json:"i32"`
	I64   int64             `json:"i64"`
	I     int               `json:"i"`
	U8    uint8             `json:"u8"`
	U16   uint16            `json:"u16"`
	U32   uint32            `json:"u32"`
	U64   uint64            `json:"u64"`
	F32   float32           `json:"f32"`
	F64   float64           `json:"f64"`
	Flag  bool              `json:"flag"`
	Str   string            `json:"str"`
	Bytes []byte            `json:"bytes"`
	P     *string           `json:"p"`
	N     Nested            `json:"n"`
	PN    *Nested           `json:"pn"`
	L     []Nested          `json:"l"`
	M     map[string]int64  `json:"m"`
	MN    map[string]Nested `json:"mn"`
	MI    map[int64]string  `json:"mi"`
	MU    map[uint16]int64  `json:"mu"`
	ML    map[uint64]string `json:"ml"`
	MT    map[int8]uint32   `json:"mt"`
	Any   interface{}       `json:"any"`
	Opt   string            `json:"opt,omitempty"`
	Skip  string            `json:"-"`
	Plain int64
	When  time.Time `json:"when"`
}

func (e EvRich) AggregateID() string   { return e.ID }
func (e EvRich) AggregateType() string { return e.T }
func (e EvRich) EventType() string     { return "VerifRich" }

// EvRichU is EvRich under a name that is never bound.
type EvRichU EvRich

func (e EvRichU) AggregateID() string   { return e.ID }
func (e EvRichU) AggregateType() string { return e.T }
func (e EvRichU) EventType() string     { return "VerifRichU" }

// Typed renders the typed fields with their Go values.
func (e EvRich) Typed() string {
	c := e
	c.Any = Canon(e.Any)
	c.When = time.Unix(0, e.When.UnixNano()).UTC()
	p := "nil"
	if e.P != nil {
		p = fmt.Sprintf("%q", *e.P)
	}
	c.P = nil
	b, _ := json.Marshal([]interface{}{c.N, c.PN, c.L, c.MN})
	c.N, c.PN, c.L, c.MN = Nested{}, nil, nil, nil
	return fmt.Sprintf("%#v p=%s nested=%s", c, p, b)
}

func edgeInt(r *rand.Rand) int64 {
	switch r.Intn(4) {
	case 0:
		return []int64{0, 1, -1, math.MaxInt8, math.MinInt8, math.MaxInt8 + 1, 255, 256, math.MaxInt16, math.MinInt16, 65535, 65536, math.MaxInt32, math.MinInt32, math.MaxUint32, math.MaxUint32 + 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64, math.MinInt64, 127, 128, -32, -33, -128, -129, -32769}[r.Intn(28)]
	case 1:
		return r.Int63() * int64(1-2*r.Intn(2))
	}
	return int64(r.Intn(1000)) - 500
}

// EdgeUint returns a number near a boundary.
func EdgeUint(r *rand.Rand) uint64 {
	switch r.Intn(3) {
	case 0:
		return []uint64{0, 1, 127, 128, 255, 256, 65535, 65536, math.MaxUint32, math.MaxUint32 + 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, math.MaxUint64 - 1}[r.Intn(17)]
	case 1:
		return r.Uint64()
	}
	return uint64(r.Intn(1000))
}

func edgeFloat(r *rand.Rand) float64 {
	switch r.Intn(3) {
	case 0:
		return []float64{0, 1, -1, 0.1, 1e21, 1e-7, 1e308, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, 1 << 53, 123456789.125, 1e20, 999999999999999999999}[r.Intn(14)]
	case 1:
		f := math.Float64frombits(r.Uint64())
		if f == 0 || math.IsNaN(f) || math.IsInf(f, 0) {
			return 0.5
		}
		return f
	}
	return float64(r.Intn(1<<20)) / 8
}

func randNested(r *rand.Rand, depth int) Nested {
	n := Nested{A: RandText(r, r.Intn(10))}
	if r.Intn(2) == 0 {
		v := edgeInt(r)
		n.B = &v
	}
	if r.Intn(2) == 0 {
		n.C = map[string]string{}
		for i := r.Intn(3); i > 0; i-- {
			n.C[RandText(r, r.Intn(5))] = RandText(r, r.Intn(5))
		}
	}
	if depth > 0 && r.Intn(2) == 0 {
		n.D = []Nested{}
		for i := r.Intn(3); i > 0; i-- {
			n.D = append(n.D, randNested(r, depth-1))
		}
	}
	return n
}

// LongText is a text whose length crosses the length encodings.
func LongText(r *rand.Rand) string {
	n := []int{31, 32, 33, 255, 256, 257, 65535, 65536, 65537, 4096}[r.Intn(10)]
	return strings.Repeat(string(rune('a'+r.Intn(26))), n)
}

// MakeRich makes an EvRich.
func MakeRich(r *rand.Rand, ty, id, uid string) *EvRich {
	e := &EvRich{T: ty, ID: id, UID: uid,
		I8: int8(edgeInt(r)), I16: int16(edgeInt(r)), I32: int32(edgeInt(r)), I64: edgeInt(r), I: int(edgeInt(r)),
		U8: uint8(EdgeUint(r)), U16: uint16(EdgeUint(r)), U32: uint32(EdgeUint(r)), U64: EdgeUint(r),
		F64: edgeFloat(r), Flag: r.Intn(2) == 0, Str: RandText(r, r.Intn(30)),
		N: randNested(r, 2), Any: RichValue(r, 3), Plain: edgeInt(r),
		When: time.Unix(r.Int63n(4e9), r.Int63n(1e9)).UTC(),
	}
	if f := float32(e.F64); f != 0 && !math.IsInf(float64(f), 0) {
		e.F32 = f
	}
	if r.Intn(8) == 0 {
		e.Str = LongText(r)
	}
	if r.Intn(2) == 0 {
		e.Bytes = make([]byte, r.Intn(40))
		r.Read(e.Bytes)
	}
	if r.Intn(2) == 0 {
		s := RandText(r, r.Intn(8))
		e.P = &s
	}
	if r.Intn(2) == 0 {
		n := randNested(r, 1)
		e.PN = &n
	}
	if r.Intn(2) == 0 {
		e.L = []Nested{}
		for i := r.Intn(20); i > 0; i-- {
			e.L = append(e.L, randNested(r, 0))
		}
	}
	if r.Intn(2) == 0 {
		e.M = map[string]int64{}
		e.MI = map[int64]string{}
		e.MU = map[uint16]int64{}
		e.ML = map[uint64]string{}
		e.MT = map[int8]uint32{}
		for i := r.Intn(4); i > 0; i-- {
			e.MI[edgeInt(r)] = RandText(r, r.Intn(5))
			e.MU[uint16(EdgeUint(r))] = edgeInt(r)
			e.ML[EdgeUint(r)] = RandText(r, r.Intn(5))
			e.MT[int8(edgeInt(r))] = uint32(EdgeUint(r))
		}
		e.MN = map[string]Nested{}
		for i := r.Intn(20); i > 0; i-- {
			e.M[RandText(r, r.Intn(5))] = edgeInt(r)
			e.MN[RandText(r, r.Intn(5))] = randNested(r, 0)
		}
	}
	if r.Intn(2) == 0 {
		e.Opt = RandText(r, r.Intn(5))
	}
	return e
}

// RichValue returns a generic value whose numbers include the largest ones.
func RichValue(r *rand.Rand, depth int) interface{} {
	k := r.Intn(10)
	if depth <= 0 && k >= 8 {
		k = r.Intn(8)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2, 3:
		return edgeInt(r)
	case 4:
		return EdgeUint(r)
	case 5:
		return edgeFloat(r)
	case 6:
		if r.Intn(10) == 0 {
			return LongText(r)
		}
		return RandText(r, r.Intn(20))
	case 7:
		return ""
	case 8:
		n := r.Intn(4)
		if r.Intn(10) == 0 {
			n = 14 + r.Intn(5)
		}
		out := make([]interface{}, n)
		for i := range out {
			out[i] = RichValue(r, depth-1)
		}
		return out
	}
	n := r.Intn(4)
	if r.Intn(10) == 0 {
		n = 14 + r.Intn(5)
	}
	out := map[string]interface{}{}
	for i := 0; i < n; i++ {
		out[RandText(r, r.Intn(6))] = RichValue(r, depth-1)
	}
	return out
}

// RichRaw makes an event without a struct.
func RichRaw(r *rand.Rand, ty, id, uid string) rangedb.Event {
	return rangedb.NewRawEvent(ty, id, "VerifRaw", RichRawData(r, ty, id, uid))
}

// RichRawData makes its data.
func RichRawData(r *rand.Rand, ty, id, uid string) map[string]interface{} {
	return map[string]interface{}{"t": ty, "id": id, "uid": uid, "payload": RichValue(r, 3), "": RichValue(r, 1), RandText(r, 3): RichValue(r, 2)}
}

// RichMeta makes metadata of every shape.
func RichMeta(r *rand.Rand) interface{} {
	switch r.Intn(4) {
	case 0:
		return nil
	case 1:
		return RichValue(r, 2)
	}
	return map[string]interface{}{"user": RandText(r, 4), "at": EdgeUint(r), "v": RichValue(r, 2)}
}
