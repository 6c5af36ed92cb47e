package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/aes"
	"github.com/inklabs/rangedb/pkg/crypto/cryptotest"
	"github.com/inklabs/rangedb/pkg/crypto/eventencryptor"
	"github.com/inklabs/rangedb/pkg/crypto/provider/cachekeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"
	"github.com/inklabs/rangedb/pkg/crypto/xchacha20poly1305"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/inklabs/rangedb/provider/encryptedstore"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C16"] = c16 }

func c16(t *core.T) {
	t.SetRule("concurrent writers save batches of events with personal texts and numbers (by value and by pointer, for new and existing subjects, with conflicts and retries of the same event values, refused batches, failing keys) through the encrypting store over every engine and over gRPC; a monitor searches the raw records, raw subscriptions and LevelDB files for the personal values, compares the other fields, and compares everything readers and subscribers of the encrypting store see, on every look, with what was saved; undecryptable records are injected underneath. Non-trivial: personal values were stored and judged; distinct by case and history")
	j := &jobs{t: t}
	for _, k := range []string{"mem-json", "mem-msgpack", "ldb-json", "ldb-msgpack", "remote-mem-json", "file-ldb-json", "file-ldb-msgpack", "pg", "pgnotify"} {
		kind := k
		n := t.N(250, 4000)
		if strings.HasPrefix(kind, "file-") || strings.HasPrefix(kind, "pg") {
			n = t.N(60, 800)
		}
		j.add(n, kind, func(t *core.T, name string, r *rand.Rand) { c16Case(t, name, kind, r) })
	}
	j.run(6)
}

// faultyKeys fails for subjects that contain "bad", and, when armed, now and then.
type faultyKeys struct {
	crypto.KeyStore
	jit   func()
	every int64
	n     int64
}

var errKeys = errors.New("verif: key store unavailable")

func (f *faultyKeys) fault(id string) error {
	if f.jit != nil {
		f.jit()
	}
	if strings.Contains(id, "bad") {
		return errKeys
	}
	if e := atomic.LoadInt64(&f.every); e > 0 && atomic.AddInt64(&f.n, 1)%e == 0 {
		return errKeys
	}
	return nil
}

func (f *faultyKeys) Get(id string) (string, error) {
	if err := f.fault(id); err != nil {
		return "", err
	}
	return f.KeyStore.Get(id)
}

func (f *faultyKeys) Set(id, key string) error {
	if err := f.fault(id); err != nil {
		return err
	}
	return f.KeyStore.Set(id, key)
}

func (f *faultyKeys) Delete(id string) error { return f.KeyStore.Delete(id) }

var secretRE = regexp.MustCompile(`S3CR3T[0-9a-f]{12,16}|9[0-9]{11}`)

// metaUID is the identity that c16 puts into the metadata.
func metaUID(rec *rangedb.Record) string {
	if rec == nil {
		return "<nil>"
	}
	switch m := rec.Metadata.(type) {
	case map[string]interface{}:
		return fmt.Sprint(m["u"])
	case map[interface{}]interface{}:
		return fmt.Sprint(m["u"])
	}
	return fmt.Sprintf("%v", rec.Metadata)
}

// personalFields are the fields that differ between the raw record and the original.
var personalFields = map[string][]string{
	"VerifPersonA": {"name", "email"}, "VerifPersonB": {"num", "numEncrypted", "text"},
	"CustomerSignedUp": {"Name", "Email"}, "CustomerAddedBirth": {"BirthMonth", "BirthYear", "BirthMonthEncrypted", "BirthYearEncrypted"},
}

// without renders data without its personal fields.
func without(data interface{}, eventType string) string {
	b, err := json.Marshal(data)
	if err != nil {
		return "unrenderable: " + err.Error()
	}
	var m map[string]interface{}
	if err := useNumber(b, &m); err != nil {
		return "no object: " + string(b)
	}
	for _, f := range personalFields[eventType] {
		delete(m, f)
	}
	return env.Canon(m)
}

func c16Case(t *core.T, name, kind string, r0 *rand.Rand) {
	fail := func(key, f string, a ...interface{}) { t.Fail(name, key, "[%s] %s", kind, fmt.Sprintf(f, a...)) }
	dir := ""
	engine := strings.TrimPrefix(kind, "file-")
	if engine != kind {
		d, rm := env.ScratchDir()
		dir = d
		defer rm()
	}
	g := env.OpenAt(engine, dir)
	closed := false
	ctx, cancel := context.WithCancel(context.Background())
	defer func() {
		cancel()
		if !closed {
			g.Close()
		}
	}()
	env.BindPersons(g.Store)
	if r0.Intn(2) == 0 {
		env.BindPersons(g.Inner)
	}
	remote := strings.Contains(kind, "remote")
	base := inmemorykeystore.New()
	var keys crypto.KeyStore = base
	if r0.Intn(3) == 0 {
		keys = cachekeystore.New(inmemorykeystore.New(), base)
	}
	fk := &faultyKeys{KeyStore: keys}
	jit := env.RandomJitter(r0.Int63(), time.Duration(1+r0.Intn(80))*time.Microsecond)
	fk.jit = jit
	g.Clock.SetJitter(jit)
	ciph := []crypto.Encryptor{aes.NewGCM(), aes.NewCBCPKCS5Padding(), xchacha20poly1305.New()}[r0.Intn(3)]
	enc := encryptedstore.New(g.Store, eventencryptor.New(fk, ciph))

	rawRec := env.NewRecorder()
	var rawMu sync.Mutex
	var rawSeen []string
	rawRec.OnRec = func(n int, rec *rangedb.Record) {
		b, _ := json.Marshal(rec.Data)
		rawMu.Lock()
		rawSeen = append(rawSeen, string(b))
		rawMu.Unlock()
	}
	rs := g.Store.AllEventsSubscription(ctx, 5000, rawRec)
	if err := rs.Start(); err != nil {
		fail("subscribe", "%v", err)
		return
	}
	defer rs.Stop()
	type encSub struct {
		rec   *env.Recorder
		types []string
		looks []string
	}
	var subs []*encSub
	addSub := func(from bool) bool {
		s := &encSub{rec: env.NewRecorder()}
		var sub rangedb.RecordSubscription
		if r0.Intn(2) == 0 {
			s.types = []string{"person", "customer", "plain"}[:1+r0.Intn(3)]
			sub = enc.AggregateTypesSubscription(ctx, 5000, s.rec, s.types...)
		} else {
			sub = enc.AllEventsSubscription(ctx, 5000, s.rec)
		}
		var err error
		if from {
			err = sub.StartFrom(0)
		} else {
			err = sub.Start()
		}
		if err != nil {
			fail("subscribe", "%v", err)
			return false
		}
		subs = append(subs, s)
		return true
	}
	for i := 0; i < 2+r0.Intn(2); i++ {
		if !addSub(false) {
			return
		}
	}
	var mu sync.Mutex
	want := map[string]string{}     // uid -> what readers must see
	rest := map[string]string{}     // uid -> what must stay readable
	refused := map[string]bool{}    // uids that must not be stored
	secretOf := map[string]string{} // secret -> uid
	var saved, bad int64
	if r0.Intn(4) == 0 {
		atomic.StoreInt64(&fk.every, int64(29+r0.Intn(40)))
	}
	writers := 1 + r0.Intn(3)
	var wg sync.WaitGroup
	for w := 0; w < writers; w++ {
		r := t.Rand(fmt.Sprintf("%s/w%d", name, w))
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			t.Guard(name, func() {
				for i := 0; i < 8+r.Intn(10) && atomic.LoadInt64(&bad) == 0; i++ {
					// one batch belongs to one aggregate
					subject := fmt.Sprintf("subj%d", r.Intn(5))
					if r.Intn(10) == 0 {
						subject = "bad" + subject
					}
					mk := func(j int) (rangedb.Event, rangedb.Event, []string) { return nil, nil, nil }
					style := r.Intn(3)
					mk = func(j int) (rangedb.Event, rangedb.Event, []string) {
						uid := fmt.Sprintf("w%d-%d-%d", w, i, j)
						for {
							ev, wv, sec := env.MakePerson(r, subject, uid)
							ty := ev.AggregateType()
							if style == 0 && ty == "person" || style == 1 && ty == "customer" {
								return ev, wv, sec
							}
							if style == 2 {
								e := env.MakeEvent(r, "plain", subject, uid, r.Intn(2) == 0)
								return e, e, nil
							}
						}
					}
					k := 1 + r.Intn(3)
					var batch []*rangedb.EventRecord
					var before []string
					var uids []string
					personal := false
					stream := ""
					for j := 0; j < k; j++ {
						ev, wv, sec := mk(j)
						uid := fmt.Sprintf("w%d-%d-%d", w, i, j)
						uids = append(uids, uid)
						stream = rangedb.GetEventStream(ev)
						batch = append(batch, &rangedb.EventRecord{Event: ev, Metadata: map[string]interface{}{"u": uid}})
						before = append(before, env.Canon(ev))
						mu.Lock()
						want[uid] = env.Canon(wv)
						rest[uid] = without(wv, wv.EventType())
						for _, s := range sec {
							personal = true
							secretOf[secretRE.FindString(s)] = uid
						}
						mu.Unlock()
					}
					unchanged := func(what string) bool {
						for j, er := range batch {
							if j >= len(before) {
								break
							}
							if now := env.Canon(er.Event); now != before[j] {
								fail("caller-changed", "%s changed the event of the caller\n  was %s\n  is  %s", what, before[j], now)
								atomic.StoreInt64(&bad, 1)
								return false
							}
						}
						return true
					}
					// a refused attempt first, then the same events again
					if r.Intn(4) == 0 {
						b := append(append([]*rangedb.EventRecord{}, batch...), &rangedb.EventRecord{Event: &env.EvFail{T: batch[0].Event.AggregateType(), ID: batch[0].Event.AggregateID()}})
						if _, err := enc.Save(ctx, stream, b...); err == nil {
							fail("bad-batch-accepted", "a batch with an unserializable event was accepted")
							atomic.StoreInt64(&bad, 1)
							return
						}
						if !unchanged("a refused save") {
							return
						}
					}
					if r.Intn(4) == 0 {
						if _, err := enc.OptimisticSave(ctx, 1<<40, stream, batch...); err == nil {
							fail("wrong-number-accepted", "a save with a wrong number was accepted")
							atomic.StoreInt64(&bad, 1)
							return
						}
						if !unchanged("a conflicting save") {
							return
						}
					}
					var err error
					what := "a save"
					for try := 0; try < 60; try++ {
						if r.Intn(2) == 0 && !strings.Contains(subject, "bad") {
							what = "an optimistic save"
							var n uint64
							n, err = enc.TotalEventsInStream(ctx, stream)
							if err == nil {
								_, err = enc.OptimisticSave(ctx, n, stream, batch...)
							}
						} else {
							_, err = enc.Save(ctx, stream, batch...)
						}
						if !unchanged(what) {
							return
						}
						var u *rangedberror.UnexpectedSequenceNumber
						if err == nil || strings.Contains(subject, "bad") || !(errors.As(err, &u) || err == errKeys) {
							break
						}
					}
					// PostgreSQL refuses notifications of 8000 bytes or more
					tooLong := kind == "pgnotify" && err != nil && strings.Contains(err.Error(), "payload string too long")
					if strings.Contains(subject, "bad") && personal || tooLong {
						if err == nil {
							fail("unencryptable-stored", "an event whose key is unavailable was accepted")
							atomic.StoreInt64(&bad, 1)
							return
						}
						mu.Lock()
						for _, u := range uids {
							refused[u] = true
						}
						mu.Unlock()
						continue
					}
					if err != nil {
						fail("save", "%s: %v", what, err)
						atomic.StoreInt64(&bad, 1)
						return
					}
					n := atomic.AddInt64(&saved, int64(k))
					if remote {
						rawRec.WaitLen(int(n)-6, 10*time.Second)
						for _, s := range subs {
							if s.types == nil {
								s.rec.WaitLen(int(n)-6, 10*time.Second)
							}
						}
					}
					t.Tick()
				}
			})
		}(w)
	}
	wg.Wait()
	if atomic.LoadInt64(&bad) != 0 || t.Stopped() {
		return
	}
	atomic.StoreInt64(&fk.every, 0)
	if !addSub(true) { // joins when everything is stored
		return
	}
	// the raw side
	raw, err := env.Collect(g.Store.Events(ctx, 0))
	if err != nil || int64(len(raw)) != saved {
		fail("raw", "the underlying store holds %d events (%v), %d were saved", len(raw), err, saved)
		return
	}
	leak := func(where, text string) bool {
		for _, s := range secretRE.FindAllString(text, -1) {
			if u, ok := secretOf[s]; ok {
				fail("leak", "%s contains the personal value %s of event %s: %s", where, s, u, clip(text))
				return true
			}
		}
		return false
	}
	raws := append([]*rangedb.Record{}, raw...)
	if engineView, err := env.Collect(g.Inner.Events(ctx, 0)); err == nil {
		raws = append(raws, engineView...)
	}
	personal := 0
	for _, x := range raws {
		b, _ := json.Marshal(x)
		if leak("the underlying record", string(b)) {
			return
		}
		u := metaUID(x)
		if refused[u] {
			fail("unencryptable-stored", "event %s was refused and is stored: %s", u, b)
			return
		}
		if _, ok := want[u]; !ok {
			fail("raw", "unknown event %s", b)
			return
		}
		if got := without(x.Data, x.EventType); personalFields[x.EventType] != nil {
			personal++
			if got != rest[u] {
				fail("other-fields", "the other fields of event %s are stored as %s, saved as %s", u, got, rest[u])
				return
			}
		} else if got := env.Canon(x.Data); got != want[u] {
			fail("other-fields", "event %s without personal data is stored as %s, saved as %s", u, got, want[u])
			return
		}
	}
	rawRec.WaitLen(int(saved), 10*time.Second)
	rawMu.Lock()
	for _, s := range rawSeen {
		if leak("a subscriber of the underlying store received a record that", s) {
			rawMu.Unlock()
			return
		}
	}
	rawMu.Unlock()
	for _, x := range rawRec.Records() {
		b, _ := json.Marshal(x)
		if leak("a record kept by a subscriber of the underlying store", string(b)) {
			return
		}
	}
	if rawRec.Len() != int(saved) {
		fail("raw-subscriber", "the subscriber of the underlying store received %d of %d", rawRec.Len(), saved)
		return
	}
	// readers
	see := func(rec *rangedb.Record) string { return env.Canon(rec.Data) }
	read := func(what string, it rangedb.RecordIterator, sel []*rangedb.Record) bool {
		i := 0
		viaCtx := r0.Intn(2) == 0
		next := func() bool {
			if viaCtx {
				return it.NextContext(ctx)
			}
			return it.Next()
		}
		for next() {
			if it.Err() != nil {
				break
			}
			for look := 0; look < 1+r0.Intn(3); look++ {
				rec := it.Record()
				if rec == nil || i >= len(sel) {
					fail("reader", "%s: record %d of %d is %v", what, i, len(sel), rec)
					return false
				}
				u := metaUID(sel[i])
				if rec.GlobalSequenceNumber != sel[i].GlobalSequenceNumber || see(rec) != want[u] {
					fail("reader", "%s: look %d at event %s shows\n  %s\nsaved was\n  %s", what, look, u, see(rec), want[u])
					return false
				}
			}
			i++
		}
		if it.Err() != nil || i != len(sel) {
			fail("reader", "%s: read %d of %d records, error %v", what, i, len(sel), it.Err())
			return false
		}
		t.Count("decrypted_reads", i)
		return true
	}
	streams := map[string][]*rangedb.Record{}
	var pers []*rangedb.Record
	for _, x := range raw {
		streams[x.StreamName] = append(streams[x.StreamName], x)
		if x.AggregateType == "person" || x.AggregateType == "customer" {
			pers = append(pers, x)
		}
	}
	if !read("all events", enc.Events(ctx, 0), raw) || !read("by types", enc.EventsByAggregateTypes(ctx, 0, "person", "customer"), pers) {
		return
	}
	if len(raw) > 2 {
		k := r0.Intn(len(raw))
		if !read("from a number", enc.Events(ctx, raw[k].GlobalSequenceNumber), raw[k:]) {
			return
		}
	}
	for s, sel := range streams {
		if !read("stream "+s, enc.EventsByStream(ctx, 0, s), sel) {
			return
		}
	}
	for _, s := range subs {
		var sel []*rangedb.Record
		for _, x := range raw {
			ok := s.types == nil
			for _, ty := range s.types {
				ok = ok || ty == x.AggregateType
			}
			if ok {
				sel = append(sel, x)
			}
		}
		s.rec.WaitLen(len(sel), 10*time.Second)
		recs := s.rec.Records()
		if len(recs) != len(sel) {
			fail("subscriber", "a subscriber of %v received %d of %d records", s.types, len(recs), len(sel))
			return
		}
		if fk.n == 0 { // a failing key store leaves cipher text in what subscribers get
			strs := s.rec.Strings()
			for i, rec := range recs {
				u := metaUID(sel[i])
				if !strings.Contains(strs[i], "data="+want[u]+" meta=") || see(rec) != want[u] {
					fail("subscriber", "a subscriber of %v received event %s as\n  %s\nand now holds\n  %s\nsaved was\n  %s", s.types, u, strs[i], see(rec), want[u])
					return
				}
			}
			t.Count("decrypted_deliveries", len(recs))
		}
	}
	t.Count("personal_records", personal)
	// a record that cannot be decrypted
	if !remote || g.Inner != nil {
		c16Undecryptable(t, name, r0, g, enc, raw, want, fail)
	}
	if dir != "" {
		cancel()
		g.Close()
		closed = true
		files := 0
		_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() {
				b, _ := os.ReadFile(p)
				files++
				leak("the file "+filepath.Base(p), string(b))
			}
			return nil
		})
		t.Count("files_searched", files)
	}
	if personal > 0 {
		t.Distinct(fmt.Sprintf("%s/%d/%d/%s", kind, saved, writers, want["w0-0-0"]))
	}
	t.Sample(map[string]interface{}{"case": name, "saved": saved, "secrets": len(secretOf), "subscribers": len(subs), "refused": len(refused)})
}

// c16Undecryptable puts records underneath whose data do not decrypt.
func c16Undecryptable(t *core.T, name string, r *rand.Rand, g *env.Target, enc rangedb.Store, raw []*rangedb.Record, want map[string]string, fail func(string, string, ...interface{})) {
	ctx := context.Background()
	for i := 0; i < 3; i++ { // readable before and after
		ev := rangedb.Event(&cryptotest.CustomerSignedUp{ID: "torn", Name: "n", Email: "e", Status: "s"})
		if i == 1 {
			if _, err := g.Store.Save(ctx, "customer!torn", &rangedb.EventRecord{Event: &cryptotest.CustomerSignedUp{ID: "torn", Name: "bm90IGVuY3J5cHRlZA==", Email: "??", Status: "s"}}); err != nil {
				fail("save", "%v", err)
				return
			}
			continue
		}
		if _, err := enc.Save(ctx, "customer!torn", &rangedb.EventRecord{Event: ev}); err != nil {
			fail("save", "%v", err)
			return
		}
	}
	for _, view := range []string{"all", "types", "stream"} {
		var it rangedb.RecordIterator
		good := 0
		switch view {
		case "all":
			it = enc.Events(ctx, 0)
			good = len(raw) + 1
		case "types":
			it = enc.EventsByAggregateTypes(ctx, 0, "customer")
			good = 1
			for _, x := range raw {
				if x.AggregateType == "customer" {
					good++
				}
			}
		case "stream":
			it = enc.EventsByStream(ctx, 0, "customer!torn")
			good = 1
		}
		n := 0
		ok := within(t, name, "reading up to an undecryptable record", opLimit, func() {
			for it.Next() {
				if it.Err() != nil {
					break
				}
				if it.Record() == nil {
					break
				}
				n++
			}
		})
		if !ok {
			return
		}
		if it.Err() == nil || n != good {
			fail("undecryptable", "reading %s up to a record that cannot be decrypted gave %d records and error %v, %d precede it", view, n, it.Err(), good)
			return
		}
		if d := again(it, it.Err()); d != "" {
			fail("undecryptable", "reading %s past the record that cannot be decrypted: %s", view, d)
			return
		}
		if rec := it.Record(); rec != nil {
			fail("undecryptable", "reading %s shows %s in place of the record that cannot be decrypted", view, env.RecString(rec))
			return
		}
	}
	// other reads and writers go on
	ok := within(t, name, "a save after an undecryptable record", opLimit, func() {
		if _, err := enc.Save(ctx, "plain!after", &rangedb.EventRecord{Event: env.MakeEvent(r, "plain", "after", "after", false)}); err != nil {
			fail("save", "%v", err)
		}
	})
	if !ok {
		return
	}
	for _, x := range raw {
		if x.AggregateType != "customer" {
			continue
		}
		recs, err := env.Collect(enc.EventsByStream(ctx, 0, x.StreamName))
		if err != nil || len(recs) == 0 || env.Canon(recs[0].Data) != want[metaUID(recs[0])] {
			fail("undecryptable", "another stream can no longer be read: %d records, %v", len(recs), err)
		}
		break
	}
	t.Count("undecryptable", 3)
}
