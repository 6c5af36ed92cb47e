package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/provider/msgpackrecordserializer"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C11"] = c11 }

func c11(t *core.T) {
	env.GRPCWindow = 4 << 20
	t.SetRule("random records (bound structs with every kind of field, generic data, boundary numbers, nested and empty values, Unicode, awkward names) are passed through the serializers and the gRPC translation directly, and saved into every kind of store (bound and unbound) and read back through every query and a subscription, and re-saved from there into another kind of store; the monitor compares every field exactly. Serialized records are cut at every position and mutated, decoding must give a record or an error. Distinct by serialized content")
	j := &jobs{t: t}
	j.add(t.N(6000, 150000), "serializer", c11Serializer)
	j.add(t.N(1500, 40000), "corrupt", c11Corrupt)
	for _, k := range []string{"mem-json", "ldb-json", "mem-msgpack", "ldb-msgpack", "enc-mem-json", "enc-ldb-msgpack", "remote-mem-json", "remote-ldb-msgpack", "encremote-mem-json", "pg", "enc-pg", "remote-pg"} {
		kind := k
		j.add(t.N(60, 1500), "store/"+k, func(t *core.T, n string, r *rand.Rand) { c11Store(t, n, kind, r) })
	}
	j.add(t.N(300, 6000), "resave", c11Resave)
	j.add(t.N(60, 1500), "shared", c11Shared)
	j.run(16)
}

// richRecord makes a record with random fields. Data is what a reader whose
// types are bound (or not) has to see.
func richRecord(r *rand.Rand) *rangedb.Record {
	name := func() string {
		if r.Intn(8) == 0 {
			return ""
		}
		return env.RandName(r, true)
	}
	rec := &rangedb.Record{
		StreamName: name(), AggregateType: name(), AggregateID: name(),
		GlobalSequenceNumber: env.EdgeUint(r), StreamSequenceNumber: env.EdgeUint(r), InsertTimestamp: env.EdgeUint(r),
		EventID: name(), Metadata: env.RichMeta(r),
	}
	switch r.Intn(3) {
	case 0:
		e := env.MakeRich(r, rec.AggregateType, rec.AggregateID, "u")
		rec.EventType, rec.Data = e.EventType(), e
		if r.Intn(3) == 0 {
			u := env.EvRichU(*e)
			rec.EventType, rec.Data = u.EventType(), &u
		}
	case 1:
		rec.EventType, rec.Data = "VerifRaw", env.RichRawData(r, rec.AggregateType, rec.AggregateID, "u")
	default:
		rec.EventType = name()
		for rec.Data == nil {
			rec.Data = env.RichValue(r, 4)
		}
	}
	return rec
}

func typed(data interface{}) string {
	if e, ok := data.(*env.EvRich); ok {
		return e.Typed()
	}
	return ""
}

// c11Serializer: one record through each format.
func c11Serializer(t *core.T, name string, r *rand.Rand) {
	rec := richRecord(r)
	want := env.RecString(rec)
	for _, format := range []string{"json", "msgpack"} {
		for _, bound := range []bool{true, false} {
			var s rangedb.RecordSerializer
			if format == "json" {
				s = jsonrecordserializer.New()
			} else {
				s = msgpackrecordserializer.New()
			}
			if bound {
				env.BindAll(s)
			}
			b, err := s.Serialize(rec)
			if err != nil {
				t.Fail(name, "serialize-error", "[%s] %s cannot be serialized: %v", format, want, err)
				return
			}
			if after := env.RecString(rec); after != want {
				t.Fail(name, "serialize-modifies", "[%s] serializing changed the record %s\n to %s", format, want, after)
				return
			}
			got, err := s.Deserialize(append([]byte{}, b...))
			if err != nil {
				t.Fail(name, "deserialize-error", "[%s bound=%v] %s cannot be read back: %v\nbytes %q", format, bound, want, err, b)
				return
			}
			if g := env.RecString(got); g != want {
				t.Fail(name, "not-equal", "[%s bound=%v] stored %s\n   read %s", format, bound, want, g)
				return
			}
			if e, ok := rec.Data.(*env.EvRich); ok && bound {
				g, ok := got.Data.(*env.EvRich)
				if !ok {
					t.Fail(name, "bound-type", "[%s] the data of a bound event type was read as %T", format, got.Data)
					return
				}
				if g.Typed() != e.Typed() {
					t.Fail(name, "not-equal", "[%s] stored %s\n   read %s", format, e.Typed(), g.Typed())
					return
				}
			}
			if _, ok := got.Data.(*env.EvRich); ok && !bound {
				t.Fail(name, "bound-type", "[%s] the data of an unbound event type was read as %T", format, got.Data)
				return
			}
			b2, err := s.Serialize(got)
			if err != nil {
				t.Fail(name, "serialize-error", "[%s bound=%v] the record read back cannot be serialized: %v", format, bound, err)
				return
			}
			if !bound && format == "json" || bound {
				got2, err := s.Deserialize(b2)
				if err != nil || env.RecString(got2) != want {
					t.Fail(name, "second-round", "[%s bound=%v] stored %s\n   after a second round: %v %s", format, bound, want, err, env.RecString(got2))
					return
				}
			}
			t.Distinct(string(b))
			t.Count("round_trips", 1)
		}
	}
	// the gRPC translation
	types := env.NewTypes()
	if r.Intn(2) == 0 {
		types = jsonrecordserializer.New()
	}
	pb, err := rangedbpb.ToPbRecord(rec)
	if err != nil {
		t.Fail(name, "serialize-error", "[grpc] %s: %v", want, err)
		return
	}
	got, err := rangedbpb.ToRecord(pb, types)
	if err != nil || env.RecString(got) != want {
		t.Fail(name, "not-equal", "[grpc] sent %s\n   received %v %s", want, err, env.RecString(got))
		return
	}
	if e, ok := got.Data.(*env.EvRich); ok && e.Typed() != typed(rec.Data) {
		t.Fail(name, "not-equal", "[grpc] sent %s\n   received %s", typed(rec.Data), e.Typed())
		return
	}
	t.Count("round_trips", 1)
	if r.Intn(500) == 0 {
		t.Sample(map[string]interface{}{"record": clip(want)})
	}
}

// c11Shared: one serializer used by several goroutines at once, as every store
// uses its own, each with records of its own.
func c11Shared(t *core.T, name string, r *rand.Rand) {
	var s rangedb.RecordSerializer
	format := "json"
	if s = jsonrecordserializer.New(); r.Intn(2) == 0 {
		s, format = msgpackrecordserializer.New(), "msgpack"
	}
	if r.Intn(3) > 0 {
		env.BindAll(s)
	}
	type item struct {
		rec  *rangedb.Record
		want string
		b    []byte
	}
	var sets [][]item
	for c := 0; c < 4; c++ {
		var set []item
		for i := 0; i < 12; i++ {
			rec := richRecord(r)
			set = append(set, item{rec: rec, want: env.RecString(rec)})
		}
		sets = append(sets, set)
	}
	var bad int32
	start := make(chan struct{})
	var wg sync.WaitGroup
	for c := range sets {
		set := sets[c]
		wg.Add(1)
		go func() {
			defer wg.Done()
			t.Guard(name, func() {
				<-start
				for round := 0; round < 8 && atomic.LoadInt32(&bad) == 0; round++ {
					for i := range set {
						b, err := s.Serialize(set[i].rec)
						if err == nil && set[i].b == nil {
							set[i].b = b
						}
						var got *rangedb.Record
						if err == nil {
							got, err = s.Deserialize(append([]byte{}, set[i].b...))
						}
						if err != nil || env.RecString(got) != set[i].want {
							atomic.StoreInt32(&bad, 1)
							g := ""
							if got != nil {
								g = env.RecString(got)
							}
							t.Fail(name, "shared-serializer", "[%s] 4 goroutines use one serializer: stored %s\n   read %v %s", format, set[i].want, err, g)
							return
						}
					}
				}
			})
		}()
	}
	close(start)
	wg.Wait()
	t.Count("shared_round_trips", 4*12*8)
}

func mutate(r *rand.Rand, b []byte) []byte {
	m := append([]byte{}, b...)
	for k := 1 + r.Intn(4); k > 0; k-- {
		if len(m) == 0 {
			m = append(m, byte(r.Intn(256)))
			continue
		}
		i := r.Intn(len(m))
		switch r.Intn(7) {
		case 0:
			m[i] ^= 1 << uint(r.Intn(8))
		case 1:
			m[i] = byte(r.Intn(256))
		case 2:
			m[i] = []byte{0xc0, 0xc1, 0xc4, 0xc7, 0xc9, 0xcf, 0xd8, 0xd9, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xff, 0, '{', '}', '[', ']', '"', ',', ':'}[r.Intn(22)]
		case 3:
			n := r.Intn(8)
			if i+n > len(m) {
				n = len(m) - i
			}
			m = append(m[:i:i], m[i+n:]...)
		case 4:
			ins := make([]byte, 1+r.Intn(6))
			r.Read(ins)
			m = append(m[:i:i], append(ins, m[i:]...)...)
		case 5:
			k := r.Intn(len(m))
			if k < i {
				i, k = k, i
			}
			m = append(m, m[i:k]...)
		case 6:
			m = m[:i]
		}
	}
	return m
}

// c11Corrupt: arbitrary bytes give a record or an error; a cut record gives an error.
func c11Corrupt(t *core.T, name string, r *rand.Rand) {
	rec := richRecord(r)
	for _, format := range []string{"json", "msgpack"} {
		var s rangedb.RecordSerializer
		if format == "json" {
			s = jsonrecordserializer.New()
		} else {
			s = msgpackrecordserializer.New()
		}
		if r.Intn(2) == 0 {
			env.BindAll(s)
		}
		b, err := s.Serialize(rec)
		if err != nil {
			t.Fail(name, "serialize-error", "[%s] %v", format, err)
			return
		}
		if len(b) > 5000 {
			continue
		}
		decode := func(in []byte) (*rangedb.Record, error) {
			var got *rangedb.Record
			var err error
			if p := core.Try(func() { got, err = s.Deserialize(append([]byte{}, in...)) }); p != "" {
				t.Fail(name, "decode-panic", "[%s] decoding %q panicked: %s", format, in, p)
				return nil, fmt.Errorf("panic")
			}
			if (got == nil) == (err == nil) {
				t.Fail(name, "decode-neither", "[%s] decoding %q gave record %v and error %v", format, in, got, err)
			}
			return got, err
		}
		step := 1 + len(b)/60
		for n := r.Intn(step); n < len(b); n += step {
			if got, err := decode(b[:n]); err == nil {
				t.Fail(name, "cut-accepted", "[%s] the first %d of %d bytes were accepted as %s", format, n, len(b), env.RecString(got))
				return
			}
		}
		for i := 0; i < 40; i++ {
			var in []byte
			switch r.Intn(10) {
			case 0:
				in = make([]byte, r.Intn(60))
				r.Read(in)
			case 1:
				in = []byte(env.RandText(r, r.Intn(30)))
			default:
				in = mutate(r, b)
			}
			if got, err := decode(in); err == nil {
				t.Count("corrupt_accepted", 1)
				_ = core.Try(func() { env.RecString(got) })
			} else {
				t.Count("corrupt_refused", 1)
			}
		}
		t.Count("cuts", len(b)/step)
		t.Distinct(format + string(b))
	}
	pb, err := rangedbpb.ToPbRecord(rec)
	if err != nil {
		return
	}
	for i := 0; i < 20; i++ {
		p := &rangedbpb.Record{EventType: pb.EventType, Data: pb.Data, Metadata: pb.Metadata}
		if r.Intn(2) == 0 {
			p.Data = string(mutate(r, []byte(p.Data)))
		} else {
			p.Metadata = string(mutate(r, []byte(p.Metadata)))
		}
		if len(p.Data) > 5000 {
			break
		}
		if msg := core.Try(func() {
			got, err := rangedbpb.ToRecord(p, env.NewTypes())
			if (got == nil) == (err == nil) {
				t.Fail(name, "decode-neither", "[grpc] decoding %v gave record %v and error %v", p, got, err)
			}
		}); msg != "" {
			t.Fail(name, "decode-panic", "[grpc] decoding %v panicked: %s", p, msg)
		}
	}
	if r.Intn(100) == 0 {
		t.Sample(map[string]interface{}{"cut_and_mutated": clip(env.RecString(rec))})
	}
}

// richEvent makes an event and tells whether it has a bound struct.
func richEvent(r *rand.Rand, ty, id, uid string) rangedb.Event {
	switch r.Intn(6) {
	case 0, 1:
		return env.MakeRich(r, ty, id, uid)
	case 2:
		return *env.MakeRich(r, ty, id, uid)
	case 3:
		return env.RichRaw(r, ty, id, uid)
	case 4:
		// bound type saved without its struct
		e := env.MakeRich(r, ty, id, uid)
		b, _ := json.Marshal(e)
		dec := json.NewDecoder(bytes.NewReader(b))
		if r.Intn(2) == 0 {
			dec.UseNumber()
		} else {
			e.I64, e.Plain, e.U64, e.I, e.Any = 1, 2, 3, 4, nil
			e.F64, e.F32 = 0.5, 0.25
			e.M, e.MN, e.N, e.L, e.PN = nil, nil, env.Nested{}, nil, nil
			b, _ = json.Marshal(e)
			dec = json.NewDecoder(bytes.NewReader(b))
		}
		var data map[string]interface{}
		_ = dec.Decode(&data)
		return rangedb.NewRawEvent(ty, id, "VerifGeneric", data)
	}
	return &env.EvU{T: ty, ID: id, UID: uid, Payload: env.RichValue(r, 3)}
}

// c11Store: records through a whole store.
func c11Store(t *core.T, name, kind string, r *rand.Rand) {
	var g *env.Target
	if kind == "remote-ldb-msgpack" || kind == "remote-mem-json" && r.Intn(2) == 0 {
		// A msgpack server that has bound a struct needs events saved with that struct,
		// which a remote client cannot send: servers do not bind.
		u, err := env.ServeUnbound(kind[len("remote-"):])
		if err != nil {
			t.Fail(name, "open", "%v", err)
			return
		}
		g = u
	} else {
		g = env.Open(kind)
	}
	defer g.Close()
	m := env.NewModel()
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	rec := env.NewRecorder()
	sub := g.Store.AllEventsSubscription(ctx, 1000, rec)
	if err := sub.Start(); err != nil {
		fail("subscribe", "Start: %v", err)
		return
	}
	defer sub.Stop()
	types := map[string]string{}
	n := 0
	for i := 0; i < 2+r.Intn(4); i++ {
		ty, id := env.RandName(r, true), env.RandName(r, true)
		if len(ty) > 200 {
			ty = "t"
		}
		st := env.RandName(r, true)
		if g.Pg != nil { // PostgreSQL refuses NUL in text
			for _, s := range []*string{&ty, &id, &st} {
				*s = strings.ReplaceAll(*s, "\x00", "0")
			}
		}
		if m.Len[st] > 0 {
			continue
		}
		var batch []*rangedb.EventRecord
		for k := 1 + r.Intn(4); k > 0; k-- {
			n++
			ev := richEvent(r, ty, id, fmt.Sprintf("u%d", n))
			switch e := ev.(type) {
			case *env.EvRich:
				types[e.UID] = e.Typed()
			case env.EvRich:
				types[e.UID] = e.Typed()
			}
			batch = append(batch, &rangedb.EventRecord{Event: ev, Metadata: env.RichMeta(r)})
		}
		before := fmt.Sprint(env.Canon(batch))
		var err error
		if r.Intn(2) == 0 {
			_, err = g.Store.Save(ctx, st, batch...)
		} else {
			_, err = g.Store.OptimisticSave(ctx, 0, st, batch...)
		}
		if err != nil {
			fail("save-error", "saving %s: %v", before, err)
			return
		}
		if after := fmt.Sprint(env.Canon(batch)); after != before {
			fail("save-modifies", "saving changed the events\n   from %s\n   to   %s", clip(before), clip(after))
			return
		}
		m.Append(st, batch...)
	}
	if e := m.Learn(g.Store); e != "" {
		fail("not-equal", "%s", e)
		return
	}
	if e := m.CheckViews(g.Store, nil, nil); e != "" {
		fail("not-equal", "%s", e)
		return
	}
	if !rec.WaitLen(len(m.Recs), 20*time.Second) {
		fail("subscriber", "the subscriber received %d of %d", rec.Len(), len(m.Recs))
		return
	}
	if d := env.Diff(rec.Strings(), m.All(0)); d != "" {
		fail("not-equal", "delivered live %s", d)
		return
	}
	if g.CanReopen() {
		if err := g.Reopen(); err != nil {
			fail("reopen", "%v", err)
			return
		}
		if e := m.Learn(g.Store); e != "" {
			fail("not-equal", "after reopening: %s", e)
			return
		}
	}
	all, err := env.Collect(g.Store.Events(ctx, 0))
	if err != nil {
		fail("not-equal", "%v", err)
		return
	}
	for _, x := range all {
		if want, ok := types[env.UID(x.Data)]; ok {
			e, ok := x.Data.(*env.EvRich)
			if !ok {
				fail("bound-type", "a bound event was read as %T", x.Data)
				return
			}
			if e.Typed() != want {
				fail("not-equal", "saved %s\n   read %s", want, e.Typed())
				return
			}
			t.Count("typed_comparisons", 1)
		}
	}
	t.Count("store_records", len(all))
	t.Distinct(kind + strings.Join(m.All(0), "|"))
}

// c11Resave: events read from one store, without their structs, are saved into another.
func c11Resave(t *core.T, name string, r *rand.Rand) {
	kinds := []string{"mem-json", "mem-msgpack", "ldb-json", "ldb-msgpack", "remote-mem-json", "remote-mem-msgpack"}
	k1 := kinds[r.Intn(4)]
	src := env.Open(k1)
	defer src.Close()
	if r.Intn(2) == 0 {
		// the same engine without bound types
		u, err := env.ServeUnbound(k1)
		if err != nil {
			t.Fail(name, "open", "%v", err)
			return
		}
		defer u.Close()
		src = &env.Target{Store: u.Inner, Inner: u.Inner, Clock: u.Clock}
	}
	ctx := context.Background()
	n := 1 + r.Intn(6)
	for i := 0; i < n; i++ {
		// events of unknown type, or whose type is not bound in the other stores
		var ev rangedb.Event
		switch r.Intn(3) {
		case 0:
			u := env.EvRichU(*env.MakeRich(r, "thing", "a", fmt.Sprintf("u%d", i)))
			ev = &u
		case 1:
			ev = env.RichRaw(r, "thing", "a", fmt.Sprintf("u%d", i))
		default:
			ev = &env.EvU{T: "thing", ID: "a", UID: fmt.Sprintf("u%d", i), Payload: env.RichValue(r, 3)}
		}
		if _, err := src.Store.Save(ctx, "thing!a", &rangedb.EventRecord{Event: ev, Metadata: env.RichMeta(r)}); err != nil {
			t.Fail(name, "save-error", "[%s] %v", k1, err)
			return
		}
	}
	want, err := env.Collect(src.Store.EventsByStream(ctx, 0, "thing!a"))
	if err != nil || len(want) != n {
		t.Fail(name, "not-equal", "[%s] read %d of %d: %v", k1, len(want), n, err)
		return
	}
	render := func(x *rangedb.Record) string {
		return fmt.Sprintf("type=%q id=%q ev=%q data=%s meta=%s", x.AggregateType, x.AggregateID, x.EventType, env.Canon(x.Data), env.Canon(x.Metadata))
	}
	path := k1
	for hop := 0; hop < 3; hop++ {
		k2 := kinds[r.Intn(len(kinds))]
		path += " > " + k2
		dst := env.Open(k2)
		defer dst.Close()
		st := dst.Store
		if r.Intn(2) == 0 {
			st = dst.Inner
		}
		var batch []*rangedb.EventRecord
		cur, err := env.Collect(src.Store.EventsByStream(ctx, 0, "thing!a"))
		if err != nil {
			t.Fail(name, "not-equal", "[%s] %v", path, err)
			return
		}
		for _, x := range cur {
			batch = append(batch, &rangedb.EventRecord{Event: rangedb.NewRawEvent(x.AggregateType, x.AggregateID, x.EventType, x.Data), Metadata: x.Metadata})
		}
		if _, err := st.Save(ctx, "thing!a", batch...); err != nil {
			t.Fail(name, "resave-error", "[%s] %v", path, err)
			return
		}
		got, err := env.Collect(st.EventsByStream(ctx, 0, "thing!a"))
		if err != nil || len(got) != n {
			t.Fail(name, "not-equal", "[%s] read %d of %d: %v", path, len(got), n, err)
			return
		}
		for i := range got {
			if a, b := render(want[i]), render(got[i]); a != b {
				t.Fail(name, "resave-not-equal", "[%s] after re-saving event %d\n   was %s\n   is  %s", path, i, a, b)
				return
			}
		}
		src = dst
	}
	t.Count("resaved", 3*n)
	t.Distinct(path + render(want[0]))
}
