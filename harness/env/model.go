package env

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/inklabs/rangedb"
)

// MRec is an event the model expects to be stored.
type MRec struct {
	G, S       uint64 // G==0: not yet observed
	Stream     string
	T, ID, Ev  string
	UID        string
	Data, Meta string // canonical
	EID        string // learned
	TS         uint64 // learned
	Lo, Hi     uint64 // bounds of the timestamp, if known
}

// Model is the sequential reference model of a store.
type Model struct {
	Recs    []*MRec
	Len     map[string]uint64
	LastG   uint64
	Deleted map[uint64]string // global numbers of deleted events
	EIDs    map[string]string // event id -> uid, ever seen
	Lo, Hi  uint64            // clock readings around the next Append, if known
	History []*MRec           // every event ever stored, in order
}

// NewModel builds an empty model.
func NewModel() *Model {
	return &Model{Len: map[string]uint64{}, Deleted: map[uint64]string{}, EIDs: map[string]string{}}
}

// Append records a successful save.
func (m *Model) Append(stream string, recs ...*rangedb.EventRecord) {
	for _, r := range recs {
		m.Len[stream]++
		x := &MRec{
			S: m.Len[stream], Stream: stream,
			T: r.Event.AggregateType(), ID: r.Event.AggregateID(), Ev: r.Event.EventType(),
			UID: UID(r.Event), Data: Canon(r.Event), Meta: Canon(r.Metadata),
			Lo: m.Lo, Hi: m.Hi,
		}
		m.Recs = append(m.Recs, x)
		m.History = append(m.History, x)
	}
}

// Delete records a successful delete.
func (m *Model) Delete(stream string) {
	var keep []*MRec
	for _, r := range m.Recs {
		if r.Stream == stream {
			if r.G != 0 {
				m.Deleted[r.G] = r.UID
			}
			continue
		}
		keep = append(keep, r)
	}
	m.Recs = keep
	delete(m.Len, stream)
}

// Expect renders a model record like RecString (with learned fields).
func (r *MRec) String() string {
	return fmt.Sprintf("g%d s%d stream=%q type=%q id=%q ev=%q eid=%s ts=%d data=%s meta=%s",
		r.G, r.S, r.Stream, r.T, r.ID, r.Ev, r.EID, r.TS, r.Data, r.Meta)
}

// Learn reads the all-events view, checks it against the model's order and
// contents, and learns the numbers the store assigned.
func (m *Model) Learn(s rangedb.Store) string {
	got, err := Collect(s.Events(context.Background(), 0))
	if err != nil {
		return fmt.Sprintf("reading all events failed: %v", err)
	}
	prev := uint64(0)
	newMax := m.LastG
	for i, r := range got {
		if r.GlobalSequenceNumber <= prev {
			return fmt.Sprintf("global numbers not strictly increasing in the all-events view: %d after %d (uid %s)", r.GlobalSequenceNumber, prev, UID(r.Data))
		}
		prev = r.GlobalSequenceNumber
		if i >= len(m.Recs) {
			return fmt.Sprintf("unexpected extra event in the all-events view: %s", RecString(r))
		}
		w := m.Recs[i]
		if w.G == 0 {
			if u := UID(r.Data); u != w.UID {
				return fmt.Sprintf("all-events view at index %d holds uid %s, expected uid %s (%s)", i, u, w.UID, RecString(r))
			}
			if r.GlobalSequenceNumber <= m.LastG {
				return fmt.Sprintf("global number %d of new event %s is not above the earlier maximum %d", r.GlobalSequenceNumber, w.UID, m.LastG)
			}
			if u, ok := m.Deleted[r.GlobalSequenceNumber]; ok {
				return fmt.Sprintf("global number %d of deleted event %s reused for %s", r.GlobalSequenceNumber, u, w.UID)
			}
			if u, ok := m.EIDs[r.EventID]; ok || r.EventID == "" {
				return fmt.Sprintf("event id %q of %s is not unique (already used by %s)", r.EventID, w.UID, u)
			}
			if w.Hi != 0 && (r.InsertTimestamp <= w.Lo || r.InsertTimestamp > w.Hi) {
				return fmt.Sprintf("timestamp %d of new event %s is not one the store's clock gave during the save (%d..%d]", r.InsertTimestamp, w.UID, w.Lo, w.Hi)
			}
			w.G, w.EID, w.TS = r.GlobalSequenceNumber, r.EventID, r.InsertTimestamp
			m.EIDs[r.EventID] = w.UID
			if w.G > newMax {
				newMax = w.G
			}
		}
		if rs, ws := RecString(r), w.String(); rs != ws {
			return fmt.Sprintf("all-events view at index %d:\n   got  %s\n   want %s", i, rs, ws)
		}
	}
	if len(got) != len(m.Recs) {
		return fmt.Sprintf("all-events view has %d events, expected %d; first missing: %s", len(got), len(m.Recs), m.Recs[len(got)])
	}
	m.LastG = newMax
	return ""
}

// ByStream lists the expected records of a stream from s.
func (m *Model) ByStream(stream string, s uint64) []string {
	var out []string
	for _, r := range m.Recs {
		if r.Stream == stream && r.S >= s {
			out = append(out, r.String())
		}
	}
	return out
}

// All lists expected records from g.
func (m *Model) All(g uint64) []string {
	var out []string
	for _, r := range m.Recs {
		if r.G >= g {
			out = append(out, r.String())
		}
	}
	return out
}

// ByTypes lists expected records of the types from g.
func (m *Model) ByTypes(g uint64, types ...string) []string {
	set := map[string]bool{}
	for _, t := range types {
		set[t] = true
	}
	var out []string
	for _, r := range m.Recs {
		if r.G >= g && set[r.T] {
			out = append(out, r.String())
		}
	}
	return out
}

// Types lists the aggregate types present.
func (m *Model) Types() []string {
	set := map[string]bool{}
	for _, r := range m.Recs {
		set[r.T] = true
	}
	var out []string
	for t := range set {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

// Streams lists the streams present.
func (m *Model) Streams() []string {
	var out []string
	for s := range m.Len {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// CheckViews compares every stream, every type and the totals with the model.
// Learn must have succeeded before.
func (m *Model) CheckViews(s rangedb.Store, extraStreams, extraTypes []string) string {
	ctx := context.Background()
	seen := map[string]bool{}
	for _, st := range append(m.Streams(), extraStreams...) {
		if seen[st] {
			continue
		}
		seen[st] = true
		got, err := Collect(s.EventsByStream(ctx, 0, st))
		want := m.ByStream(st, 0)
		if len(want) == 0 {
			if err == nil || err.Error() != rangedb.ErrStreamNotFound.Error() || len(got) != 0 {
				return fmt.Sprintf("stream %q does not exist, but reading it gave %d events and error %v", st, len(got), err)
			}
		} else {
			if err != nil {
				return fmt.Sprintf("reading stream %q: %v", st, err)
			}
			if d := Diff(Strings(got), want); d != "" {
				return fmt.Sprintf("stream %q view differs %s", st, d)
			}
		}
		n, err := s.TotalEventsInStream(ctx, st)
		if err != nil || n != m.Len[st] {
			return fmt.Sprintf("total of stream %q is %d (err %v), expected %d", st, n, err, m.Len[st])
		}
	}
	seen = map[string]bool{}
	for _, ty := range append(m.Types(), extraTypes...) {
		if seen[ty] {
			continue
		}
		seen[ty] = true
		got, err := Collect(s.EventsByAggregateTypes(ctx, 0, ty))
		if err != nil {
			return fmt.Sprintf("reading aggregate type %q: %v", ty, err)
		}
		if d := Diff(Strings(got), m.ByTypes(0, ty)); d != "" {
			return fmt.Sprintf("aggregate type %q view differs %s", ty, d)
		}
	}
	return ""
}

// ---- generation ----

// AwkwardNames are valid UTF-8 names chosen to collide with key encodings.
var AwkwardNames = []string{
	"a", "ab", "a$", "a$!", "a$!b", "a$!bbbbbbbb", "a$!\x00\x00\x00\x00\x00\x00\x00\x01", "a!", "a!1", "a!10", "a!1$", "a!1$!", "!", "!!", "$", "$$", "$!", "$s$a", "$all$", "$at$a", "$gsn$",
	"thing", "thing!1", "thing!11", "Thing", "thing-x", "thing x", "thing/1", "thing%2F1", "ü", "日本", "日本!1", "\U0001F600", "a\x00", "a\x00b", "a\tb", "a\nb", "\"q\"", "'s'", "\\", ",", "a,b", "null", "0", "{}", strings.Repeat("n", 300),
	"\x7f", "\u00ff", "a\U0010FFFF", "<b>", "a&b=c", "?x", "#y", ".", "..", "a.json",
}

// PlainNames are ordinary names.
var PlainNames = []string{"thing", "another", "that", "room", "user", "order-line"}

// RandName returns a plain, awkward or random name.
func RandName(r *rand.Rand, awkward bool) string {
	n := randName(r, awkward)
	if _, ok := noNUL.Load(r); ok {
		n = strings.ReplaceAll(n, "\x00", "0")
	}
	return n
}

var noNUL sync.Map

// NoNUL has RandName give names without NUL, which PostgreSQL refuses in text,
// when the store behind g is a PostgreSQL store.
func (g *Target) NoNUL(r *rand.Rand) {
	if g.Pg != nil {
		noNUL.Store(r, true)
		g.AddClose(func() { noNUL.Delete(r) })
	}
}

func randName(r *rand.Rand, awkward bool) string {
	if !awkward {
		return PlainNames[r.Intn(len(PlainNames))]
	}
	switch r.Intn(4) {
	case 0:
		return PlainNames[r.Intn(len(PlainNames))]
	case 1, 2:
		return AwkwardNames[r.Intn(len(AwkwardNames))]
	}
	return RandText(r, 1+r.Intn(12))
}

// RelatedName returns a name that begins with base: keys of one name may look like keys of another.
func RelatedName(r *rand.Rand, base string) string {
	suffixes := []string{"", "", "$", "$!", "$!x", "$!xxxxxxxx", "!", "!1", "!10", "$$!", "$!\x00\x00\x00\x00\x00\x00\x00\x01", "$!\x00\x00\x00\x00\x00\x00\x00\x01$!", " ", "x", "1", "\x00", "/", ",", "%", "\U0010FFFF"}
	n := base + suffixes[r.Intn(len(suffixes))]
	if r.Intn(3) == 0 {
		n += suffixes[r.Intn(len(suffixes))]
	}
	return n
}

// RandText returns random valid UTF-8 text.
func RandText(r *rand.Rand, n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch r.Intn(6) {
		case 0:
			sb.WriteByte(byte(r.Intn(32)))
		case 1:
			c := rune(r.Intn(0x11000))
			if !utf8.ValidRune(c) {
				c = 'x'
			}
			sb.WriteRune(c)
		case 2:
			sb.WriteString([]string{"$", "!", "$!", "\"", "\\", "<", ">", "&", "\u2028", "\u2029", "\ufffd", "\ufeff"}[r.Intn(12)])
		default:
			sb.WriteByte(byte(32 + r.Intn(95)))
		}
	}
	return sb.String()
}

// RandValue returns a random JSON-like value. big selects integers above 2^53.
func RandValue(r *rand.Rand, depth int, big bool) interface{} {
	k := r.Intn(9)
	if depth <= 0 && k >= 7 {
		k = r.Intn(7)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		if big {
			return []int64{math.MaxInt64, math.MinInt64, 1<<53 + 1, -(1<<53 + 1), 9007199254740993, 1234567890123456789}[r.Intn(6)]
		}
		return int64(r.Intn(1<<31)) - 1<<30
	case 3:
		if big {
			return uint64(math.MaxInt64) + uint64(r.Int63())
		}
		return int64(r.Intn(1000))
	case 4:
		return float64(r.Intn(1000000)) / 64
	case 5:
		return RandText(r, r.Intn(20))
	case 6:
		return ""
	case 7:
		n := r.Intn(4)
		out := make([]interface{}, n)
		for i := range out {
			out[i] = RandValue(r, depth-1, big)
		}
		return out
	}
	n := r.Intn(4)
	out := map[string]interface{}{}
	for i := 0; i < n; i++ {
		out[RandText(r, r.Intn(6))] = RandValue(r, depth-1, big)
	}
	return out
}

// RandMeta returns random metadata (often nil).
func RandMeta(r *rand.Rand) interface{} {
	switch r.Intn(12) {
	case 0, 1, 2, 3, 4:
		return nil
	case 5:
		return []interface{}{"", "x", int64(0), int64(12), true, false, map[string]interface{}{}, []interface{}{}, "null", 0.5}[r.Intn(10)]
	}
	return map[string]interface{}{"k": RandText(r, r.Intn(8)), "n": int64(r.Intn(1000)), "v": RandValue(r, 1, false)}
}

// MakeEvent builds an event of a random kind with a unique id.
func MakeEvent(r *rand.Rand, ty, id, uid string, rich bool) rangedb.Event {
	var p interface{} = "p"
	if rich {
		p = RandValue(r, 2, false)
	}
	switch r.Intn(4) {
	case 0:
		return &EvA{T: ty, ID: id, UID: uid, Payload: p}
	case 1:
		return EvA{T: ty, ID: id, UID: uid, Payload: p}
	case 2:
		return &EvB{T: ty, ID: id, UID: uid, Payload: p, N: r.Uint64(), I: r.Int63(), S: []string{"x", uid}}
	}
	return &EvU{T: ty, ID: id, UID: uid, Payload: p}
}
