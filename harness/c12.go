package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/jsonrecordiostream"
	"github.com/inklabs/rangedb/provider/msgpackrecordiostream"
	"github.com/inklabs/rangedb/provider/ndjsonrecordiostream"
	"github.com/vmihailenco/msgpack/v4"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C12"] = c12 }

func c12(t *core.T) {
	env.GRPCWindow = 4 << 20
	t.SetRule("random sequences of records (none, one, many; bound and generic data; boundary numbers, Unicode) are written in each format from iterators of every pace, the output is checked by an independent parser of the format and read back in random chunks by bound and unbound readers; the monitor compares every record, the three formats with each other, and the order. Whole stores are exported, imported into another store and compared. Arbitrary and mutated input must end in records or an error. Distinct by the exported bytes")
	j := &jobs{t: t}
	j.add(t.N(2500, 60000), "roundtrip", c12RoundTrip)
	j.add(t.N(800, 20000), "arbitrary", c12Arbitrary)
	j.add(t.N(300, 6000), "transfer", c12Transfer)
	j.add(t.N(2, 30), "large", largeExport(t.N(12000, 60000), t.N(9<<20, 40<<20)))
	j.add(t.N(1, 6), "vast", vastExport(t.N(80<<20, 600<<20)))
	j.run(16)
}

func plainStream(format string) rangedb.RecordIoStream {
	switch format {
	case "json":
		return jsonrecordiostream.New()
	case "ndjson":
		return ndjsonrecordiostream.New()
	}
	return msgpackrecordiostream.New()
}

// wellFormed parses a document without the code under test and renders its records.
func wellFormed(format string, b []byte, n int) error {
	switch format {
	case "json":
		var a []map[string]interface{}
		if err := json.Unmarshal(b, &a); err != nil {
			return fmt.Errorf("not a JSON array of objects: %v", err)
		}
		if a == nil {
			return fmt.Errorf("not an array")
		}
		if len(a) != n {
			return fmt.Errorf("%d elements, expected %d", len(a), n)
		}
	case "ndjson":
		if n == 0 {
			if len(b) != 0 {
				return fmt.Errorf("%d bytes for no records", len(b))
			}
			return nil
		}
		lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		if len(lines) != n {
			return fmt.Errorf("%d lines, expected %d", len(lines), n)
		}
		for _, l := range lines {
			var m map[string]interface{}
			if err := json.Unmarshal([]byte(l), &m); err != nil {
				return fmt.Errorf("line %q is not a JSON object: %v", l, err)
			}
		}
	default:
		dec := msgpack.NewDecoder(bytes.NewReader(b))
		k := 0
		for ; ; k++ {
			err := dec.Skip()
			if err == io.EOF {
				break
			}
			if err != nil {
				return fmt.Errorf("object %d: %v", k, err)
			}
		}
		if k != 2*n {
			return fmt.Errorf("%d objects, expected two for each of %d records", k, n)
		}
	}
	return nil
}

// c12RoundTrip: records survive every format.
func c12RoundTrip(t *core.T, name string, r *rand.Rand) {
	var recs []*rangedb.Record
	n := []int{0, 1, 2, 3, 5, 10}[r.Intn(6)]
	if r.Intn(40) == 0 {
		n = 200
	}
	for i := 0; i < n; i++ {
		recs = append(recs, richRecord(r))
	}
	want := env.Strings(recs)
	var seen [][]string
	for _, format := range formats {
		fail := func(key, f string, a ...interface{}) {
			t.Fail(name, key, "[%s, %d records] %s", format, n, fmt.Sprintf(f, a...))
		}
		var buf bytes.Buffer
		var errs []error
		w := ioStream(format)
		if r.Intn(2) == 0 {
			w = plainStream(format)
		}
		if !within(t, name, format+" Write", opLimit, func() {
			errs = drainErrors(w.Write(&buf, fakeIter(recs, nil, r.Intn(2) == 0, r)))
		}) {
			return
		}
		if len(errs) > 0 {
			fail("write-error", "Write: %v", errs)
			return
		}
		if d := env.Diff(env.Strings(recs), want); d != "" {
			fail("write-modifies", "Write changed the records %s", d)
			return
		}
		if err := wellFormed(format, buf.Bytes(), n); err != nil {
			fail("malformed", "%v\n%s", err, clip(fmt.Sprintf("%q", buf.Bytes())))
			return
		}
		for _, bound := range []bool{true, false} {
			s := plainStream(format)
			if bound {
				s.Bind(&env.EvA{}, &env.EvB{}, &env.EvRich{})
			}
			var got []*rangedb.Record
			var err error
			var rd io.Reader = bytes.NewReader(buf.Bytes())
			chunked := r.Intn(3) > 0
			if chunked {
				rd = &faultyReader{data: buf.Bytes(), fail: -1, r: r}
			}
			if !within(t, name, format+" Read", opLimit, func() { got, err = env.Collect(s.Read(rd)) }) {
				return
			}
			if err != nil {
				fail("read-error", "reading back (bound=%v chunked=%v): %v\n%s", bound, chunked, err, clip(fmt.Sprintf("%q", buf.Bytes())))
				return
			}
			gs := env.Strings(got)
			if d := env.Diff(gs, want); d != "" {
				fail("not-equal", "reading back (bound=%v chunked=%v): %s", bound, chunked, d)
				return
			}
			for i := range got {
				e, ok := got[i].Data.(*env.EvRich)
				if o, was := recs[i].Data.(*env.EvRich); was && bound {
					if !ok || e.Typed() != o.Typed() {
						fail("not-equal", "reading back typed data: wrote %s\n   read %s", typed(o), typed(got[i].Data))
						return
					}
				} else if ok {
					fail("bound-type", "generic data was read as %T", got[i].Data)
					return
				}
			}
			seen = append(seen, gs)
			t.Count("records_compared", n)
		}
		t.Distinct(format + buf.String())
		t.Count("documents", 1)
	}
	for _, s := range seen[1:] {
		if d := env.Diff(s, seen[0]); d != "" {
			t.Fail(name, "formats-differ", "%s", d)
			return
		}
	}
	if n > 0 && r.Intn(100) == 0 {
		t.Sample(map[string]interface{}{"records": n, "first": clip(want[0])})
	}
}

// c12Arbitrary: any input gives records or an error, in bounded time.
func c12Arbitrary(t *core.T, name string, r *rand.Rand) {
	var recs []*rangedb.Record
	for i := r.Intn(4); i > 0; i-- {
		recs = append(recs, richRecord(r))
	}
	for _, format := range formats {
		var buf bytes.Buffer
		if errs := drainErrors(ioStream(format).Write(&buf, fakeIter(recs, nil, true, r))); len(errs) > 0 {
			t.Fail(name, "write-error", "%v", errs)
			return
		}
		if buf.Len() > 5000 {
			continue
		}
		for i := 0; i < 20; i++ {
			var in []byte
			switch r.Intn(8) {
			case 0:
				in = make([]byte, r.Intn(100))
				r.Read(in)
			case 1:
				in = []byte([]string{"", " ", "\n", "[", "]", "{}", "[]", "[] ", " [ ] ", "null", "[null]", "{", "[{}]", "[{},{}]", "[1]", "1", "\"x\"", "[[]]", "{}{}", "{}\n{}\n", "[,]", "\xc0", "\x80", "\x90", "\x80\x80", "\x80\xc0", "\xdf\xff\xff\xff\xff", "\xdd\xff\xff\xff\xff", "\xc6\xff\xff\xff\xff", "\xdb\xff\xff\xff\xff", "\x80\xdd\xff\xff\xff\xff", "\x80\xdf\xff\xff\xff\xff"}[r.Intn(32)])
			default:
				in = mutate(r, buf.Bytes())
			}
			s := ioStream(format)
			var got []*rangedb.Record
			var err error
			if !within(t, name, fmt.Sprintf("%s Read of %q", format, in), opLimit, func() {
				it := s.Read(&faultyReader{data: in, fail: -1, r: r})
				got, err = env.Collect(it)
				if e := again(it, err); e != "" {
					t.Fail(name, "outcome-changes", "[%s] %q: %s", format, in, e)
				}
			}) {
				return
			}
			for _, x := range got {
				if x == nil {
					t.Fail(name, "nil-record", "[%s] reading %q gave a nil record", format, in)
					return
				}
			}
			if err != nil {
				t.Count("arbitrary_refused", 1)
			} else {
				t.Count("arbitrary_accepted", 1)
			}
			t.Distinct(format + string(in))
		}
	}
}

// stringNumbers renders data with every number as a string.
func stringNumbers(v interface{}) interface{} {
	switch x := v.(type) {
	case json.Number:
		return x.String()
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, y := range x {
			m[k] = stringNumbers(y)
		}
		return m
	case []interface{}:
		a := make([]interface{}, len(x))
		for i, y := range x {
			a[i] = stringNumbers(y)
		}
		return a
	}
	return v
}

// knownExport is the record as the recorded finding msgpack-number-strings exports it.
func knownExport(x *rangedb.Record) string {
	c := *x
	c.Data = stringNumbers(x.Data)
	c.Metadata = stringNumbers(x.Metadata)
	return env.RecString(&c)
}

// c12Transfer: a whole store is exported and imported into another one.
func c12Transfer(t *core.T, name string, r *rand.Rand) {
	format := formats[r.Intn(3)]
	kind := []string{"mem-json", "mem-msgpack", "ldb-json", "ldb-msgpack"}[r.Intn(4)]
	fail := func(key, f string, a ...interface{}) {
		t.Fail(name, key, "[%s from %s] %s", format, kind, fmt.Sprintf(f, a...))
	}
	u, err := env.ServeUnbound(kind)
	if err != nil {
		fail("open", "%v", err)
		return
	}
	defer u.Close()
	src := u.Inner
	bound := r.Intn(2) == 0
	if bound {
		env.BindAll(src)
	}
	ctx := context.Background()
	n := r.Intn(12)
	for i := 0; i < n; i++ {
		ty, id := env.RandName(r, true), env.RandName(r, true)
		var ev rangedb.Event
		if r.Intn(2) == 0 {
			ev = env.MakeRich(r, ty, id, fmt.Sprintf("u%d", i))
		} else {
			ev = env.RichRaw(r, ty, id, fmt.Sprintf("u%d", i))
		}
		if _, err := src.Save(ctx, env.RandName(r, true), &rangedb.EventRecord{Event: ev, Metadata: env.RichMeta(r)}); err != nil {
			fail("save", "%v", err)
			return
		}
	}
	recs, err := env.Collect(src.Events(ctx, 0))
	if err != nil || len(recs) != n {
		fail("read", "%d of %d: %v", len(recs), n, err)
		return
	}
	var buf bytes.Buffer
	out := plainStream(format)
	if errs := drainErrors(out.Write(&buf, src.Events(ctx, 0))); len(errs) > 0 {
		fail("write-error", "%v", errs)
		return
	}
	if err := wellFormed(format, buf.Bytes(), n); err != nil {
		fail("malformed", "%v", err)
		return
	}
	in := plainStream(format)
	got, err := env.Collect(in.Read(&faultyReader{data: buf.Bytes(), fail: -1, r: r}))
	if err != nil || len(got) != n {
		fail("read-error", "%d of %d records read back: %v", len(got), n, err)
		return
	}
	for i := range got {
		g, w := env.RecString(got[i]), env.RecString(recs[i])
		if g == w {
			continue
		}
		if format == "msgpack" && strings.HasSuffix(kind, "json") && g == knownExport(recs[i]) {
			fail("msgpack-number-strings", "exported %s\n   imported %s", w, g)
			continue
		}
		if format == "msgpack" && strings.HasSuffix(kind, "json") && recs[i].EventType == "VerifRich" {
			// numbers within the interface field of a struct: the same finding
			if e, ok := recs[i].Data.(*env.EvRich); ok {
				c := *e
				c.Any = stringNumbers(e.Any)
				x := *recs[i]
				x.Data, x.Metadata = &c, stringNumbers(x.Metadata)
				if g == env.RecString(&x) {
					fail("msgpack-number-strings", "exported %s\n   imported %s", w, g)
					continue
				}
			}
		}
		fail("not-equal", "record %d\n   exported %s\n   imported %s", i, w, g)
		return
	}
	t.Count("stores_transferred", 1)
	t.Distinct("transfer" + format + kind + buf.String())
}
