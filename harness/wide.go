package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"sort"
	"strings"
	"time"

	"rangedbverif/core"
	"rangedbverif/env"
)

// wideHTTP asks for many aggregate types at once, and for the list of very many.
func wideHTTP(t *core.T, name string, r *rand.Rand) {
	kind := []string{"mem-json", "ldb-json", "ldb-msgpack", "mem-msgpack"}[r.Intn(4)]
	c := newHTTPCase(t, name, kind, r)
	if c == nil {
		return
	}
	defer c.close()
	h := wideHistory(t.N(600, 2000), t.N(70, 120))
	m := largeFill(t, c.g, r, h, c.fail)
	if m == nil {
		return
	}
	for i := 0; i < 18; i++ {
		ts := h.pick(r)
		esc := make([]string, len(ts))
		for k, x := range ts {
			esc[k] = url.PathEscape(x)
		}
		format := formats[i%3]
		path := "/events-by-aggregate-type/" + strings.Join(esc, ",") + "." + format
		st, _, body, ok := c.do("GET", path, nil, map[string]string{"Accept-Encoding": []string{"identity", "gzip"}[r.Intn(2)]})
		if !ok {
			return
		}
		var err error
		if format == "msgpack" {
			if body, err = base64.RawStdEncoding.DecodeString(string(body)); err != nil {
				c.fail("wide-export", "GET %s: %v", path, err)
				return
			}
		}
		got, err := env.Collect(plainStream(format).Read(bytes.NewReader(body)))
		if err != nil || st != 200 {
			c.fail("wide-export", "GET %s: status %d, %v", path, st, err)
			return
		}
		want, err := env.Collect(c.g.Store.EventsByAggregateTypes(context.Background(), 0, ts...))
		if err != nil || len(want) != len(m.ByTypes(0, ts...)) || len(got) != len(want) {
			c.fail("wide-export", "GET %s: %d records, the store reads %d, saved were %d (%v)", path, len(got), len(want), len(m.ByTypes(0, ts...)), err)
			return
		}
		for k, x := range got {
			if x.GlobalSequenceNumber != want[k].GlobalSequenceNumber || x.EventID != want[k].EventID || x.AggregateType != want[k].AggregateType {
				c.fail("wide-export", "GET %s: record %d is %s\n   stored %s", path, k, clip(env.RecString(x)), clip(env.RecString(want[k])))
				return
			}
		}
		t.Count("wide_exports", 1)
		t.Distinct(fmt.Sprint("wide", kind, ts))
		t.Tick()
	}
	var last string
	ok := env.WaitUntil(20*time.Second, func() bool {
		st, _, body, _ := c.do("GET", "/list-aggregate-types", nil, nil)
		var l struct {
			Data []struct {
				Name        string
				TotalEvents uint64
			}
			TotalEvents uint64
		}
		if err := json.Unmarshal(body, &l); err != nil || st != 200 {
			last = fmt.Sprintf("status %d, %v", st, err)
			return false
		}
		var got, want []string
		for _, d := range l.Data {
			got = append(got, fmt.Sprint(d.Name, "=", d.TotalEvents))
		}
		types := append([]string{}, m.Types()...)
		sort.Strings(types)
		for _, x := range types {
			want = append(want, fmt.Sprint(x, "=", len(m.ByTypes(0, x))))
		}
		last = env.Diff(got, want)
		if l.TotalEvents != uint64(h.n) {
			last += fmt.Sprintf(", total %d of %d", l.TotalEvents, h.n)
		}
		return last == ""
	})
	if !ok {
		c.fail("wide-listing", "the listing of %d aggregate types does not become right: %s", len(h.types), last)
	}
}
