package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedbapi"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C14"] = c14 }

func c14(t *core.T) {
	env.GRPCWindow = 4 << 20
	t.SetRule("random sequences of HTTP requests (saves and deletes with right, wrong, missing and malformed expected numbers, bodies valid, malformed, cut off by a closed connection or refused by the store, awkward names, exports of every scope in every format with and without compression, listings) against a served store of every kind; after each request the monitor compares the response with the sequential model and the store with the model. Concurrent clients race optimistic saves. Distinct by request sequence and stored contents")
	j := &jobs{t: t}
	for _, k := range []string{"mem-json", "ldb-json", "mem-msgpack", "ldb-msgpack", "remote-mem-json"} {
		kind := k
		j.add(t.N(700, 8000), "requests/"+k, func(t *core.T, n string, r *rand.Rand) { c14Requests(t, n, kind, r) })
		j.add(t.N(60, 800), "race/"+k, func(t *core.T, n string, r *rand.Rand) { c14Race(t, n, kind, r) })
	}
	for _, k := range []string{"pg", "pgnotify"} {
		kind := k
		if k == "pg" { // notifications are limited to 8000 bytes
			j.add(t.N(100, 2000), "requests/"+k, func(t *core.T, n string, r *rand.Rand) { c14Requests(t, n, kind, r) })
		}
		j.add(t.N(10, 200), "race/"+k, func(t *core.T, n string, r *rand.Rand) { c14Race(t, n, kind, r) })
	}
	j.add(t.N(3, 40), "wide", wideHTTP)
	j.add(t.N(2, 30), "large", largeHTTP(t.N(3000, 8000), t.N(8<<20, 40<<20)))
	j.run(12)
}

// errStore fails its writes on request.
type errStore struct {
	rangedb.Store
	mu   sync.Mutex
	fail error
}

func (s *errStore) set(err error) { s.mu.Lock(); s.fail = err; s.mu.Unlock() }
func (s *errStore) err() error    { s.mu.Lock(); defer s.mu.Unlock(); return s.fail }
func (s *errStore) Save(ctx context.Context, st string, r ...*rangedb.EventRecord) (uint64, error) {
	if e := s.err(); e != nil {
		return 0, e
	}
	return s.Store.Save(ctx, st, r...)
}
func (s *errStore) OptimisticSave(ctx context.Context, n uint64, st string, r ...*rangedb.EventRecord) (uint64, error) {
	if e := s.err(); e != nil {
		return 0, e
	}
	return s.Store.OptimisticSave(ctx, n, st, r...)
}
func (s *errStore) OptimisticDeleteStream(ctx context.Context, n uint64, st string) error {
	if e := s.err(); e != nil {
		return e
	}
	return s.Store.OptimisticDeleteStream(ctx, n, st)
}
func (s *errStore) Events(ctx context.Context, n uint64) rangedb.RecordIterator {
	if e := s.err(); e != nil {
		return rangedb.NewRecordIteratorWithError(e)
	}
	return s.Store.Events(ctx, n)
}
func (s *errStore) EventsByStream(ctx context.Context, n uint64, st string) rangedb.RecordIterator {
	if e := s.err(); e != nil {
		return rangedb.NewRecordIteratorWithError(e)
	}
	return s.Store.EventsByStream(ctx, n, st)
}
func (s *errStore) EventsByAggregateTypes(ctx context.Context, n uint64, ts ...string) rangedb.RecordIterator {
	if e := s.err(); e != nil {
		return rangedb.NewRecordIteratorWithError(e)
	}
	return s.Store.EventsByAggregateTypes(ctx, n, ts...)
}

type httpEvent struct {
	AggregateType string      `json:"aggregateType"`
	AggregateID   string      `json:"aggregateID"`
	EventType     string      `json:"eventType"`
	Data          interface{} `json:"data"`
	Metadata      interface{} `json:"metadata,omitempty"`
}

// pathSafe tells whether a name can be one segment of a path.
func pathSafe(s string) bool {
	return s != "" && s != "." && s != ".." && !strings.Contains(s, "/") && len(s) < 200
}

func pathName(r *rand.Rand, awkward bool, comma bool) string {
	for {
		n := env.RandName(r, awkward)
		if pathSafe(n) && (comma || !strings.Contains(n, ",")) {
			return n
		}
	}
}

type httpCase struct {
	t      *core.T
	name   string
	kind   string
	r      *rand.Rand
	g      *env.Target
	st     *errStore
	m      *env.Model
	srv    *httptest.Server
	client *http.Client
	log    []string
	n      int
}

func (c *httpCase) fail(key, f string, a ...interface{}) {
	l := c.log
	if len(l) > 40 {
		l = l[len(l)-40:]
	}
	c.t.Fail(c.name, key, "[%s] %s\nrequests:\n  %s", c.kind, fmt.Sprintf(f, a...), strings.Join(l, "\n  "))
}

func newHTTPCase(t *core.T, name, kind string, r *rand.Rand) *httpCase {
	c := &httpCase{t: t, name: name, kind: kind, r: r, m: env.NewModel()}
	c.g = env.Open(kind)
	c.g.NoNUL(r)
	c.st = &errStore{Store: c.g.Store}
	api, err := rangedbapi.New(rangedbapi.WithStore(c.st), rangedbapi.WithBaseUri("http://example.test/api"))
	if err != nil {
		c.fail("new", "rangedbapi.New: %v", err)
		c.g.Close()
		return nil
	}
	c.srv = httptest.NewUnstartedServer(api)
	c.srv.Config.ErrorLog = discardLogger
	c.srv.Start()
	c.client = &http.Client{Transport: &http.Transport{DisableCompression: true}, Timeout: opLimit,
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	return c
}

func (c *httpCase) close() {
	c.client.CloseIdleConnections()
	c.srv.Close()
	c.g.Close()
}

func (c *httpCase) do(method, path string, body []byte, header map[string]string) (int, http.Header, []byte, bool) {
	req, err := http.NewRequest(method, c.srv.URL+path, bytes.NewReader(body))
	if err != nil {
		panic("harness: " + err.Error())
	}
	for k, v := range header {
		req.Header.Set(k, v)
	}
	resp, err := c.client.Do(req)
	if err != nil {
		c.fail("request", "%s %s: %v", method, path, err)
		return 0, nil, nil, false
	}
	b, err := io.ReadAll(resp.Body)
	_ = resp.Body.Close()
	if err != nil {
		c.fail("request", "%s %s: reading the response: %v", method, path, err)
		return 0, nil, nil, false
	}
	c.t.Count(fmt.Sprintf("responses_%d", resp.StatusCode), 1)
	if resp.Header.Get("Content-Encoding") == "gzip" {
		b = gunzip(b)
	}
	if strings.HasPrefix(resp.Header.Get("Content-Type"), "application/json") && !strings.Contains(resp.Header.Get("Content-Type"), "LF") && !json.Valid(b) {
		c.fail("malformed-json", "%s %s: status %d, the response is not JSON: %q", method, path, resp.StatusCode, b)
		return 0, nil, nil, false
	}
	return resp.StatusCode, resp.Header, b, true
}

func (c *httpCase) verify() bool {
	c.st.set(nil)
	if e := c.m.Learn(c.g.Store); e != "" {
		c.fail("stored", "%s", e)
		return false
	}
	if e := c.m.CheckViews(c.g.Store, nil, nil); e != "" {
		c.fail("stored", "%s", e)
		return false
	}
	return true
}

type statusBody struct {
	Status               string
	Message              string
	StreamSequenceNumber uint64
	EventsDeleted        uint64
}

func c14Requests(t *core.T, name, kind string, r *rand.Rand) {
	c := newHTTPCase(t, name, kind, r)
	if c == nil {
		return
	}
	defer c.close()
	awkward := r.Intn(3) > 0
	var types, streams []string
	for i := 0; i < 3; i++ {
		types = append(types, pathName(r, awkward, false))
	}
	for i := 0; i < 4; i++ {
		streams = append(streams, pathName(r, awkward, true))
	}
	saved := map[string]int{}
	total := 0
	burst := false
	var sig strings.Builder
	ops := 10 + r.Intn(25)
	for i := 0; i < ops; i++ {
		t.Tick()
		stream := streams[r.Intn(len(streams))]
		cur := c.m.Len[stream]
		k := r.Intn(20)
		fmt.Fprintf(&sig, "%d,", k)
		switch {
		case k < 8: // save
			ty := types[r.Intn(len(types))]
			var evs []httpEvent
			size := batchSize(r, 3, 60)
			for x := 0; x < size; x++ {
				c.n++
				e := httpEvent{ty, "id", env.RandName(r, awkward), env.RichRawData(r, ty, "id", fmt.Sprintf("u%d", c.n)), env.RichMeta(r)}
				if strings.HasPrefix(e.EventType, "Verif") {
					e.EventType = "x"
				}
				evs = append(evs, e)
			}
			header := map[string]string{"Content-Type": "application/json"}
			wantStatus, wantActual, exp := 201, false, cur
			variant := r.Intn(16)
			switch {
			case variant < 5:
				header["ExpectedStreamSequenceNumber"] = fmt.Sprint(cur)
			case variant < 7:
				exp = wrongNumber(r, cur)
				header["ExpectedStreamSequenceNumber"] = fmt.Sprint(exp)
				wantStatus, wantActual = 409, true
			case variant == 7:
				header["ExpectedStreamSequenceNumber"] = []string{"-1", "abc", "1.5", "18446744073709551616", "0x1", "1 2", "1e1", "+1"}[r.Intn(8)]
				wantStatus = 400
			}
			body, _ := json.Marshal(evs)
			switch r.Intn(10) {
			case 0:
				if r.Intn(2) == 0 {
					header["Content-Type"] = []string{"text/plain", "application/xml", ""}[r.Intn(3)]
					wantStatus = 400
				} else {
					body = [][]byte{append(body, []byte(" x")...), append(body, body...), body[:len(body)-1], body[:r.Intn(len(body))], []byte("{}"), body[1:], []byte(""), []byte(`[{"aggregateType":1}]`), []byte(`"x"`), []byte("[1]"), append([]byte("x"), body...)}[r.Intn(11)]
					wantStatus = 400
				}
				wantActual = false
			case 1:
				// refused by the store
				switch r.Intn(3) {
				case 0:
					body = []byte("[]")
				case 1:
					if size > 1 {
						evs[size-1].AggregateID = "other"
						body, _ = json.Marshal(evs)
					} else {
						body = []byte("[]")
					}
				case 2:
					c.st.set(errors.New("verif: \"storage\" failed"))
				}
				if wantStatus == 400 {
					break
				}
				wantStatus, wantActual = -1, false
			case 2:
				// the connection ends within the body
				c.log = append(c.log, fmt.Sprintf("save-events %q cut off", stream))
				c.cutRequest("/save-events/"+url.PathEscape(stream), body, header)
				if !c.verify() {
					return
				}
				continue
			}
			c.log = append(c.log, fmt.Sprintf("save-events %q (%d events) header %q, length %d, status wanted %d, body %s", stream, size, header["ExpectedStreamSequenceNumber"], cur, wantStatus, clip(string(body))))
			status, _, resp, ok := c.do("POST", "/save-events/"+url.PathEscape(stream), body, header)
			if !ok {
				return
			}
			var sb statusBody
			_ = json.Unmarshal(resp, &sb)
			if wantStatus == -1 && status < 400 || wantStatus == -1 && status == 409 && header["ExpectedStreamSequenceNumber"] == "" || wantStatus != -1 && status != wantStatus {
				c.fail("save-status", "save of %d events to %q at length %d with header %q: status %d (%s), expected %d", size, stream, cur, header["ExpectedStreamSequenceNumber"], status, resp, wantStatus)
				return
			}
			if wantActual && !strings.Contains(sb.Message, fmt.Sprintf("unexpected sequence number: %d, actual: %d", exp, cur)) {
				c.fail("conflict-message", "conflict expecting %d at length %d was reported as %s", exp, cur, resp)
				return
			}
			if status == 201 {
				if sb.Status != "OK" || sb.StreamSequenceNumber != cur+uint64(size) {
					c.fail("save-result", "save of %d events to %q at length %d was answered %s", size, stream, cur, resp)
					return
				}
				var recs []*rangedb.EventRecord
				for _, e := range evs {
					recs = append(recs, &rangedb.EventRecord{Event: rangedb.NewRawEvent(e.AggregateType, e.AggregateID, e.EventType, e.Data), Metadata: e.Metadata})
				}
				c.m.Append(stream, recs...)
				// The statistics have room for 10 records; on a busy machine they may be dropped.
				burst = burst || size > 8
				saved[ty] += size
				total += size
			} else if sb.Status == "OK" {
				c.fail("save-result", "status %d with body %s", status, resp)
				return
			}
			if !c.verify() {
				return
			}
		case k < 12: // delete
			header := map[string]string{}
			wantStatus, exp := 200, cur
			switch r.Intn(6) {
			case 0:
				exp = wrongNumber(r, cur)
			case 1:
				exp = 0
			case 2:
				exp = cur + 1
			}
			if exp != 0 || r.Intn(2) == 0 {
				header["ExpectedStreamSequenceNumber"] = fmt.Sprint(exp)
			}
			switch {
			case cur == 0:
				wantStatus = 404
			case exp != cur:
				wantStatus = 409
			}
			if r.Intn(10) == 0 {
				header["ExpectedStreamSequenceNumber"] = []string{"-1", "abc", "1.5", "18446744073709551616"}[r.Intn(4)]
				wantStatus = 400
			} else if r.Intn(10) == 0 {
				c.st.set(errors.New("verif: storage failed"))
				wantStatus = 500
			}
			c.log = append(c.log, fmt.Sprintf("delete-stream %q header %q, length %d, status wanted %d", stream, header["ExpectedStreamSequenceNumber"], cur, wantStatus))
			status, _, resp, ok := c.do("POST", "/delete-stream/"+url.PathEscape(stream), nil, header)
			if !ok {
				return
			}
			var sb statusBody
			_ = json.Unmarshal(resp, &sb)
			if status != wantStatus {
				c.fail("delete-status", "delete of %q at length %d with header %q: status %d (%s), expected %d", stream, cur, header["ExpectedStreamSequenceNumber"], status, resp, wantStatus)
				return
			}
			if status == 409 && !strings.Contains(sb.Message, fmt.Sprintf("unexpected sequence number: %d, actual: %d", exp, cur)) {
				c.fail("conflict-message", "conflict expecting %d at length %d was reported as %s", exp, cur, resp)
				return
			}
			if status == 200 {
				if sb.Status != "OK" || sb.EventsDeleted != cur {
					c.fail("delete-result", "delete of %q at length %d was answered %s", stream, cur, resp)
					return
				}
				c.m.Delete(stream)
			}
			if !c.verify() {
				return
			}
		case k < 18: // export
			format := formats[r.Intn(3)]
			path, wantStatus := "", 200
			var want []*rangedb.Record
			var err error
			ctx := context.Background()
			switch r.Intn(3) {
			case 0:
				path = "/all-events"
				want, err = env.Collect(c.g.Store.Events(ctx, 0))
			case 1:
				path = "/events-by-stream/" + url.PathEscape(stream)
				if cur == 0 {
					wantStatus = 404
				} else {
					want, err = env.Collect(c.g.Store.EventsByStream(ctx, 0, stream))
				}
			default:
				ts := append([]string{}, types...)
				ts = append(ts, "never")
				r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
				ts = ts[:1+r.Intn(len(ts))]
				path = "/events-by-aggregate-type/" + url.PathEscape(strings.Join(ts, ","))
				want, err = env.Collect(c.g.Store.EventsByAggregateTypes(ctx, 0, ts...))
			}
			if err != nil {
				c.fail("read", "%v", err)
				return
			}
			header := map[string]string{}
			if r.Intn(2) == 0 {
				header["Accept-Encoding"] = "gzip"
			}
			if r.Intn(12) == 0 {
				c.st.set(errors.New("verif: storage failed"))
				wantStatus = 500
			}
			c.log = append(c.log, "GET "+path+"."+format)
			status, h, body, ok := c.do("GET", path+"."+format, nil, header)
			c.st.set(nil)
			if !ok {
				return
			}
			if status != wantStatus {
				c.fail("export-status", "GET %s.%s: status %d (%s), expected %d", path, format, status, clip(string(body)), wantStatus)
				return
			}
			if status != 200 {
				continue
			}
			wantType := map[string]string{"json": "application/json", "ndjson": "application/json; boundary=LF", "msgpack": "application/msgpack"}[format]
			if h.Get("Content-Type") != wantType {
				c.fail("content-type", "GET %s.%s: content type %q", path, format, h.Get("Content-Type"))
				return
			}
			if format == "msgpack" {
				if body, err = base64.RawStdEncoding.DecodeString(string(body)); err != nil {
					c.fail("export-body", "GET %s.%s is not base64: %v", path, format, err)
					return
				}
			}
			if err := wellFormed(format, body, len(want)); err != nil {
				c.fail("export-body", "GET %s.%s: %v\n%s", path, format, err, clip(fmt.Sprintf("%q", body)))
				return
			}
			got, err := env.Collect(plainStream(format).Read(bytes.NewReader(body)))
			if err != nil {
				c.fail("export-body", "GET %s.%s: %v", path, format, err)
				return
			}
			for x := range want {
				gs, ws := env.RecString(got[x]), env.RecString(want[x])
				if gs == ws {
					continue
				}
				if format == "msgpack" && (strings.HasSuffix(kind, "json") || strings.HasPrefix(kind, "pg")) && gs == knownExport(want[x]) {
					c.fail("msgpack-number-strings", "GET %s.%s\n   stored %s\n   sent %s", path, format, ws, gs)
					continue
				}
				c.fail("export-records", "GET %s.%s record %d:\n   stored %s\n   sent   %s", path, format, x, ws, gs)
				return
			}
			t.Count("exported_records", len(want))
		default: // listing
			if burst {
				continue
			}
			c.log = append(c.log, "GET /list-aggregate-types")
			var last string
			ok := env.WaitUntil(20*time.Second, func() bool {
				status, _, body, ok := c.do("GET", "/list-aggregate-types", nil, nil)
				if !ok {
					last = "no response"
					return true
				}
				var l struct {
					Data []struct {
						Name        string
						TotalEvents uint64
					}
					TotalEvents uint64
				}
				if err := json.Unmarshal(body, &l); err != nil || status != 200 {
					last = fmt.Sprintf("status %d, %v, %s", status, err, body)
					return false
				}
				last = ""
				var names []string
				for _, d := range l.Data {
					names = append(names, d.Name)
					if d.TotalEvents != uint64(saved[d.Name]) {
						last = fmt.Sprintf("type %q: %d, expected %d", d.Name, d.TotalEvents, saved[d.Name])
					}
				}
				if l.TotalEvents != uint64(total) {
					last = fmt.Sprintf("total %d, expected %d", l.TotalEvents, total)
				}
				if !sort.StringsAreSorted(names) || len(names) != len(saved) {
					last = fmt.Sprintf("types %q, expected the %d saved types in order", names, len(saved))
				}
				return last == ""
			})
			if !ok || last != "" {
				c.fail("listing", "the aggregate type listing does not become right: %s", last)
				return
			}
			t.Count("listings", 1)
		}
	}
	status, _, body, ok := c.do("GET", "/health-check", nil, nil)
	if !ok {
		return
	}
	if status != 200 || !strings.Contains(string(body), "OK") {
		c.fail("health", "status %d %s", status, body)
	}
	t.Distinct(kind + sig.String() + fmt.Sprint(total))
	if r.Intn(30) == 0 {
		t.Sample(map[string]interface{}{"kind": kind, "requests": c.log[:min(len(c.log), 8)]})
	}
}

// cutRequest sends a part of a request and closes the connection.
func (c *httpCase) cutRequest(path string, body []byte, header map[string]string) {
	conn, err := net.Dial("tcp", c.srv.Listener.Addr().String())
	if err != nil {
		return
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n", path, len(body))
	for k, v := range header {
		fmt.Fprintf(&b, "%s: %s\r\n", k, v)
	}
	b.WriteString("\r\n")
	b.Write(body[:c.r.Intn(len(body))])
	_, _ = conn.Write(b.Bytes())
	if tc, ok := conn.(*net.TCPConn); ok && c.r.Intn(2) == 0 {
		_ = tc.CloseWrite()
		_ = conn.SetReadDeadline(time.Now().Add(2 * time.Second))
		_, _ = io.Copy(io.Discard, conn)
	}
	_ = conn.Close()
	c.t.Count("cut_requests", 1)
}

// c14Race: concurrent clients save with expected numbers.
func c14Race(t *core.T, name, kind string, r *rand.Rand) {
	c := newHTTPCase(t, name, kind, r)
	if c == nil {
		return
	}
	defer c.close()
	c.g.Clock.SetJitter(env.RandomJitter(r.Int63(), 200*time.Microsecond))
	clients, rounds := 3+r.Intn(4), 6
	type res struct {
		exp, got uint64
		status   int
		uid      string
	}
	var mu sync.Mutex
	var wins []res
	var wg sync.WaitGroup
	for w := 0; w < clients; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			exp := uint64(0)
			for i := 0; i < rounds; i++ {
				uid := fmt.Sprintf("w%d-%d", w, i)
				body, _ := json.Marshal([]httpEvent{{"thing", "a", "VerifRaw", map[string]string{"uid": uid}, nil}})
				h := map[string]string{"Content-Type": "application/json", "ExpectedStreamSequenceNumber": fmt.Sprint(exp)}
				status, _, resp, ok := c.do("POST", "/save-events/thing!a", body, h)
				if !ok {
					return
				}
				var sb statusBody
				_ = json.Unmarshal(resp, &sb)
				switch status {
				case 201:
					mu.Lock()
					wins = append(wins, res{exp, sb.StreamSequenceNumber, status, uid})
					mu.Unlock()
					if sb.StreamSequenceNumber != exp+1 {
						c.fail("race-number", "a save expecting %d was answered with %s", exp, resp)
						return
					}
					exp = sb.StreamSequenceNumber
				case 409:
					var e, a uint64
					if _, err := fmt.Sscanf(sb.Message, "unexpected sequence number: %d, actual: %d", &e, &a); err != nil || e != exp || a == exp {
						c.fail("conflict-message", "conflict for expected %d: %s", exp, resp)
						return
					}
					exp = a
				default:
					c.fail("save-status", "status %d %s", status, resp)
					return
				}
			}
		}(w)
	}
	wg.Wait()
	got, err := env.Collect(c.g.Store.EventsByStream(context.Background(), 0, "thing!a"))
	if err != nil || len(got) != len(wins) {
		c.fail("race", "%d saves were reported as created, the stream has %d events (%v)", len(wins), len(got), err)
		return
	}
	for _, w := range wins {
		if w.got == 0 || int(w.got) > len(got) || env.UID(got[w.got-1].Data) != w.uid {
			c.fail("race", "event %s was reported as number %d, which it is not", w.uid, w.got)
			return
		}
	}
	var order []string
	for _, g := range got {
		order = append(order, env.UID(g.Data))
	}
	t.Distinct("race" + kind + strings.Join(order, ","))
	t.Count("race_wins", len(wins))
}
