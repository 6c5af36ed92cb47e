package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"time"

	"golang.org/x/net/html"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/projection"
	"github.com/inklabs/rangedb/pkg/rangedbui"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C22"] = c22 }

func c22(t *core.T) {
	t.SetRule("stores of every kind with awkward names, HTML in names and data, and gaps from deleted streams are browsed through the real web interface: a crawler parses each page, goes from the list of types to types and streams, follows the next links to the end and the previous links back to the first page (also while events are added and other streams deleted), for page sizes around the number of records, the default and the limit; the rows seen must be the stored records, each once, in order, with their contents, the totals must be the stored counts, and no name or content may add elements or attributes to a page. Arbitrary query strings must give a page that starts at the number they name and links on to the rest. Non-trivial: at least two pages; distinct by page starts and rows")
	t.Assume("totals of aggregate types are those of the statistics (C19), which do not count deletions", "names with a slash, and the names '.' and '..', cannot be addressed over HTTP")
	j := &jobs{t: t}
	for _, k := range []string{"mem-json", "ldb-json", "mem-msgpack", "ldb-msgpack", "enc-mem-json", "remote-mem-json", "pg"} {
		kind := k
		j.add(t.N(60, 1500), "crawl-"+kind, func(t *core.T, name string, r *rand.Rand) { c22Crawl(t, name, kind, r, false, false) })
		j.add(t.N(25, 600), "changing-"+kind, func(t *core.T, name string, r *rand.Rand) { c22Crawl(t, name, kind, r, true, false) })
		j.add(t.N(3, 60), "wide-"+kind, func(t *core.T, name string, r *rand.Rand) { c22Crawl(t, name, kind, r, false, true) })
		j.add(t.N(20, 500), "query-"+kind, func(t *core.T, name string, r *rand.Rand) { c22Query(t, name, kind, r) })
	}
	j.add(t.N(2, 20), "large", c22Large)
	j.run(8)
}

var c22Parts = []string{"<b id=inject>", "</script><script>inject()</script>", "\"onx=inject ", "'", "&amp;", "&", "%", "%41", "%2F", "%zz", "?", "#", "+", " ", ";", "=", ",", ":", "$", "!", "${inject}", "{{inject}}", "\\", "é", "日本", "a", "B", "7", "-", "_", "live", "@", "~", "*", "(", ")", "javascript:", "|", "`"}

// webName is a name that can be a path segment, and shown as text.
func webName(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return []string{"thing", "order-line", "thing7", "a!b", "room$x"}[r.Intn(5)]
	}
	for {
		var sb strings.Builder
		for i := 1 + r.Intn(3); i > 0; i-- {
			sb.WriteString(c22Parts[r.Intn(len(c22Parts))])
		}
		if s := sb.String(); !strings.Contains(s, "/") && s != "." && s != ".." {
			return s
		}
	}
}

// uiSite is a web interface with the store behind it.
type uiSite struct {
	t       *core.T
	name    string
	g       *env.Target
	stats   *projection.AggregateTypeStats
	ui      http.Handler
	types   []string
	streams []string
	typeOf  map[string]string
	nuid    int
	bad     bool
}

func (s *uiSite) fail(key, format string, args ...interface{}) {
	s.bad = true
	s.t.Fail(s.name, key, format, args...)
}

func (s *uiSite) save(r *rand.Rand, stream string, n int) bool {
	ty := s.typeOf[stream]
	var b []*rangedb.EventRecord
	for i := 0; i < n; i++ {
		s.nuid++
		uid := fmt.Sprintf("u%d", s.nuid)
		var ev rangedb.Event
		switch r.Intn(4) {
		case 0:
			ev = &env.EvA{T: ty, ID: stream, UID: uid, Payload: strings.Repeat(c22Parts[r.Intn(len(c22Parts))], r.Intn(3))}
		case 1:
			ev = rangedb.NewRawEvent(ty, stream, webName(r), map[string]interface{}{"uid": uid, c22Parts[r.Intn(len(c22Parts))]: c22Parts[r.Intn(len(c22Parts))], "n": json.Number("9007199254740993")})
		default:
			ev = env.MakeEvent(r, ty, stream, uid, true)
		}
		b = append(b, &rangedb.EventRecord{Event: ev})
	}
	ctx, cancel := context.WithTimeout(context.Background(), opLimit)
	defer cancel()
	if _, err := s.g.Store.Save(ctx, stream, b...); err != nil {
		s.fail("save", "saving %d events to %q: %v", n, stream, err)
		return false
	}
	return true
}

// newSite fills a store (some streams are deleted again) and puts statistics and pages on it.
func newSite(t *core.T, name, kind string, r *rand.Rand, saves, batch, types, streams int) *uiSite {
	s := &uiSite{t: t, name: name, g: env.Open(kind), stats: projection.NewAggregateTypeStats(), typeOf: map[string]string{}}
	ctx := context.Background()
	for i := 1 + r.Intn(types); i > 0; i-- {
		s.types = append(s.types, webName(r))
	}
	for i := 1 + r.Intn(streams); i > 0; i-- {
		st := webName(r)
		if r.Intn(2) == 0 {
			st = "thing!" + st
		}
		if s.typeOf[st] == "" {
			s.streams = append(s.streams, st)
			s.typeOf[st] = s.types[r.Intn(len(s.types))]
		}
	}
	// Deleted events must not be counted: the statistics start when all of them have been broadcast.
	barrier := env.NewRecorder()
	early := s.g.Store.AllEventsSubscription(ctx, 1000, barrier)
	if err := early.Start(); err != nil {
		s.fail("save", "subscription: %v", err)
		return s
	}
	defer early.Stop()
	gaps := map[string]string{}
	for i := 0; i < saves; i++ {
		if !s.save(r, s.streams[r.Intn(len(s.streams))], 1+r.Intn(batch)) {
			return s
		}
		if r.Intn(4) == 0 {
			g := fmt.Sprintf("gap-%d", i)
			s.typeOf[g] = s.types[r.Intn(len(s.types))]
			gaps[g] = ""
			if !s.save(r, g, 1+r.Intn(3)) {
				return s
			}
		}
	}
	for g := range gaps {
		n, err := s.g.Store.TotalEventsInStream(ctx, g)
		if err == nil {
			err = s.g.Store.OptimisticDeleteStream(ctx, n, g)
		}
		if err != nil {
			s.fail("save", "deleting %q: %v", g, err)
			return s
		}
		delete(s.typeOf, g)
	}
	if !barrier.WaitLen(s.nuid, 20*time.Second) {
		s.fail("save", "a subscriber received %d of %d events", barrier.Len(), s.nuid)
		return s
	}
	sub := s.g.Store.AllEventsSubscription(ctx, 100, s.stats)
	if err := sub.StartFrom(0); err != nil {
		s.fail("save", "statistics: %v", err)
		return s
	}
	s.g.AddClose(sub.Stop)
	s.ui = rangedbui.New(s.stats, s.g.Store, rangedbui.WithHost("localhost:1"))
	return s
}

func (s *uiSite) settle() bool {
	all, err := env.Collect(s.g.Store.Events(context.Background(), 0))
	if err != nil {
		s.fail("save", "reading all events: %v", err)
		return false
	}
	if !env.WaitUntil(20*time.Second, func() bool { return s.stats.TotalEvents() >= uint64(len(all)) }) {
		s.fail("totals", "the statistics count %d of %d events", s.stats.TotalEvents(), len(all))
		return false
	}
	return true
}

// uiRow is one record as a page shows it.
type uiRow struct {
	gsn, ssn                     uint64
	event, ty, stream, date      string
	typeHref, streamHref, rawRow string
	data                         interface{}
}

type uiPage struct {
	url, next, prev string
	hasNext         bool
	hasPrev         bool
	rows            []uiRow
	total           uint64
	crumbs          string
	links           []uiLink
	doc             *html.Node
}

type uiLink struct{ href, text string }

func (p *uiPage) gsns() string {
	var b []string
	for _, r := range p.rows {
		b = append(b, fmt.Sprint(r.gsn))
	}
	return strings.Join(b, " ")
}

func attr(n *html.Node, k string) string {
	for _, a := range n.Attr {
		if a.Key == k {
			return a.Val
		}
	}
	return ""
}

func hasAttr(n *html.Node, k string) bool {
	for _, a := range n.Attr {
		if a.Key == k {
			return true
		}
	}
	return false
}

func hasClass(n *html.Node, c string) bool {
	for _, x := range strings.Fields(attr(n, "class")) {
		if x == c {
			return true
		}
	}
	return false
}

func textOf(n *html.Node) string {
	if n.Type == html.TextNode {
		return n.Data
	}
	var sb strings.Builder
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		sb.WriteString(textOf(c))
	}
	return sb.String()
}

func walk(n *html.Node, f func(*html.Node)) {
	f(n)
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		walk(c, f)
	}
}

func elements(n *html.Node, tag string) []*html.Node {
	var out []*html.Node
	walk(n, func(x *html.Node) {
		if x.Type == html.ElementNode && x.Data == tag {
			out = append(out, x)
		}
	})
	return out
}

var totalRE = regexp.MustCompile(`\(([0-9,]+)\)\s*$`)

// get requests a page; ok is false if something was reported.
func (s *uiSite) get(from, href string, live bool) (*uiPage, bool) {
	base, err := url.Parse("http://localhost" + from)
	if err != nil {
		s.fail("harness", "%q: %v", from, err)
		return nil, false
	}
	ref, err := url.Parse(href)
	if err != nil {
		s.fail("link", "the page %s has the malformed link %q: %v", from, href, err)
		return nil, false
	}
	u := base.ResolveReference(ref)
	req, err := http.NewRequest("GET", u.String(), nil)
	if err != nil {
		s.fail("link", "the page %s has the malformed link %q: %v", from, href, err)
		return nil, false
	}
	w := httptest.NewRecorder()
	s.ui.ServeHTTP(w, req)
	s.t.Tick()
	if w.Code != http.StatusOK {
		s.fail("status", "GET %s (a link of %s) gives status %d: %s", u, from, w.Code, clip(w.Body.String()))
		return nil, false
	}
	doc, err := html.Parse(w.Body)
	if err != nil {
		s.fail("html", "GET %s: %v", u, err)
		return nil, false
	}
	p := &uiPage{url: u.RequestURI(), doc: doc}
	scripts := 0
	injected := ""
	walk(doc, func(n *html.Node) {
		if n.Type != html.ElementNode {
			return
		}
		if n.Data == "script" {
			scripts++
		}
		if n.Data == "b" || attr(n, "id") == "inject" {
			injected = n.Data
		}
		for _, a := range n.Attr {
			if strings.HasPrefix(a.Key, "on") {
				injected = a.Key
			}
			if a.Key == "href" && strings.HasPrefix(strings.ToLower(strings.TrimSpace(a.Val)), "javascript:") {
				injected = a.Val
			}
		}
	})
	if want := 0; injected != "" || !live && scripts != want {
		s.fail("escape", "GET %s: names or contents changed the page (%q, %d scripts)", u, injected, scripts)
		return nil, false
	}
	for _, a := range elements(doc, "a") {
		p.links = append(p.links, uiLink{attr(a, "href"), textOf(a)})
	}
	for _, li := range elements(doc, "li") {
		for _, a := range elements(li, "a") {
			if hasClass(li, "pagination-next") {
				p.next, p.hasNext = attr(a, "href"), true
			}
			if hasClass(li, "pagination-previous") {
				p.prev, p.hasPrev = attr(a, "href"), true
			}
		}
	}
	for _, ul := range elements(doc, "ul") {
		if hasClass(ul, "breadcrumbs") {
			p.crumbs = textOf(ul)
			for _, li := range elements(ul, "li") {
				if m := totalRE.FindStringSubmatch(textOf(li)); m != nil {
					p.total, _ = strconv.ParseUint(strings.ReplaceAll(m[1], ",", ""), 10, 64)
				}
			}
		}
	}
	for _, table := range elements(doc, "table") {
		if !hasClass(table, "records") || live {
			continue
		}
		for _, body := range elements(table, "tbody") {
			for _, tr := range elements(body, "tr") {
				td := elements(tr, "td")
				if len(td) != 7 {
					s.fail("html", "GET %s: a row with %d cells: %s", u, len(td), clip(textOf(tr)))
					return nil, false
				}
				row := uiRow{event: textOf(td[2]), ty: textOf(td[3]), stream: textOf(td[4]), date: textOf(td[5]), rawRow: textOf(tr)}
				var e1, e2 error
				row.gsn, e1 = strconv.ParseUint(textOf(td[0]), 10, 64)
				row.ssn, e2 = strconv.ParseUint(textOf(td[1]), 10, 64)
				if e1 != nil || e2 != nil || useNumber([]byte(textOf(td[6])), &row.data) != nil {
					s.fail("html", "GET %s: malformed row %s", u, clip(textOf(tr)))
					return nil, false
				}
				for _, a := range elements(td[3], "a") {
					row.typeHref = attr(a, "href")
				}
				for _, a := range elements(td[4], "a") {
					row.streamHref = attr(a, "href")
				}
				p.rows = append(p.rows, row)
			}
		}
	}
	s.t.Count("pages_parsed", 1)
	return p, true
}

// rowDiff compares a shown row with the stored record.
func rowDiff(row uiRow, rec *rangedb.Record) string {
	if row.gsn != rec.GlobalSequenceNumber || row.ssn != rec.StreamSequenceNumber || row.event != rec.EventType || row.ty != rec.AggregateType || row.stream != rec.StreamName {
		return fmt.Sprintf("shows %d/%d %q %q %q for %d/%d %q %q %q", row.gsn, row.ssn, row.event, row.ty, row.stream, rec.GlobalSequenceNumber, rec.StreamSequenceNumber, rec.EventType, rec.AggregateType, rec.StreamName)
	}
	if d := time.Unix(int64(rec.InsertTimestamp), 0).UTC().Format("Jan 02, 2006 15:04:05 UTC"); row.date != d {
		return fmt.Sprintf("shows the date %q for %q", row.date, d)
	}
	data, err := json.Marshal(rec.Data)
	if err != nil {
		return ""
	}
	var want interface{}
	if useNumber(data, &want) != nil {
		return ""
	}
	if a, b := env.Canon(row.data), env.Canon(want); a != b {
		return fmt.Sprintf("shows the data %s for %s", clip(a), clip(b))
	}
	return ""
}

func rowsDiff(rows []uiRow, want []*rangedb.Record) string {
	if len(rows) != len(want) {
		return fmt.Sprintf("%d rows, want %d", len(rows), len(want))
	}
	for i := range rows {
		if d := rowDiff(rows[i], want[i]); d != "" {
			return fmt.Sprintf("row %d %s", i, d)
		}
	}
	return ""
}

// expect reads the records of a stream or of a type.
func (s *uiSite) expect(stream bool, name string, from uint64) ([]*rangedb.Record, bool) {
	ctx := context.Background()
	var it rangedb.RecordIterator
	if stream {
		it = s.g.Store.EventsByStream(ctx, from, name)
	} else {
		it = s.g.Store.EventsByAggregateTypes(ctx, from, name)
	}
	recs, err := env.Collect(it)
	if err != nil && err.Error() != rangedb.ErrStreamNotFound.Error() {
		s.fail("read", "reading %q: %v", name, err)
		return nil, false
	}
	return recs, true
}

func pageSize(r *rand.Rand, n int) (uint64, string) {
	var k int
	switch r.Intn(8) {
	case 0:
		return 10, ""
	case 1:
		k = 1
	case 2:
		k = n
	case 3:
		k = n + 1
	case 4:
		if k = n - 1; k < 1 {
			k = 1
		}
	case 5:
		k = 2
	case 6:
		return 1000, fmt.Sprint(1000 + r.Intn(5000))
	default:
		k = 1 + r.Intn(n+2)
	}
	if k < 1 {
		k = 1
	}
	return uint64(k), fmt.Sprint(k)
}

// crawl goes through the pages of a stream or type. change is called between pages.
func (s *uiSite) crawl(r *rand.Rand, stream bool, name, href string, change func()) bool {
	before, ok := s.expect(stream, name, 0)
	if !ok {
		return false
	}
	k, arg := pageSize(r, len(before))
	start := href
	if arg != "" {
		start += "?itemsPerPage=" + arg
	}
	p, ok := s.get("/aggregate-types", start, false)
	if !ok {
		return false
	}
	if p.hasPrev {
		s.fail("previous", "the first page %s has a previous link %q", p.url, p.prev)
		return false
	}
	var pages []*uiPage
	var seen []uiRow
	for {
		pages = append(pages, p)
		seen = append(seen, p.rows...)
		if uint64(len(p.rows)) > k {
			s.fail("page-size", "the page %s has %d rows, more than %d", p.url, len(p.rows), k)
			return false
		}
		if change == nil && p.total != uint64(len(before)) {
			s.fail("totals", "the page %s shows the total %d (%q), stored are %d", p.url, p.total, clip(p.crumbs), len(before))
			return false
		}
		if !strings.Contains(p.crumbs, name) {
			s.fail("escape", "the page %s does not show the name %q: %q", p.url, name, clip(p.crumbs))
			return false
		}
		if !p.hasNext {
			break
		}
		if len(p.rows) == 0 || len(pages) > len(before)+400 {
			s.fail("progress", "%d pages of %s and no end: %s has %d rows and the next link %q", len(pages), start, p.url, len(p.rows), p.next)
			return false
		}
		if change != nil {
			change()
		}
		next, ok := s.get(p.url, p.next, false)
		if !ok {
			return false
		}
		if !next.hasPrev {
			s.fail("previous", "the page %s, reached from %s, has no previous link", next.url, p.url)
			return false
		}
		p = next
	}
	after, ok := s.expect(stream, name, 0)
	if !ok {
		return false
	}
	trail := func() string {
		var b []string
		for _, p := range pages {
			b = append(b, fmt.Sprintf("%s: %s", p.url, p.gsns()))
		}
		return strings.Join(b, "\n")
	}
	if change == nil {
		if d := rowsDiff(seen, before); d != "" {
			s.fail("records", "following the next links from %s: %s\n%s", start, d, trail())
			return false
		}
	} else {
		// Records that were there all the time are seen once, others at most once, in order.
		final := map[uint64]*rangedb.Record{}
		for _, rec := range after {
			final[rec.GlobalSequenceNumber] = rec
		}
		had := map[uint64]*rangedb.Record{}
		for _, rec := range before {
			had[rec.GlobalSequenceNumber] = rec
		}
		last := uint64(0)
		got := map[uint64]bool{}
		for _, row := range seen {
			rec := final[row.gsn]
			if rec == nil {
				rec = had[row.gsn]
			}
			if row.gsn <= last || rec == nil {
				if rec == nil && row.gsn > last {
					// saved and deleted again while crawling
					last = row.gsn
					continue
				}
				s.fail("records", "following the next links from %s while other events come and go: record %d after %d\n%s", start, row.gsn, last, trail())
				return false
			}
			if d := rowDiff(row, rec); d != "" {
				s.fail("records", "%s: %s", start, d)
				return false
			}
			last = row.gsn
			got[row.gsn] = true
		}
		for _, rec := range before {
			if final[rec.GlobalSequenceNumber] != nil && !got[rec.GlobalSequenceNumber] {
				s.fail("records", "following the next links from %s while other events come and go: record %d is never shown\n%s", start, rec.GlobalSequenceNumber, trail())
				return false
			}
		}
		s.t.Count("changing_crawls", 1)
	}
	// and back
	for i := len(pages) - 1; i > 0; i-- {
		cur, ok := s.get(pages[i].url, pages[i].prev, false)
		if !ok {
			return false
		}
		if change == nil {
			if cur.gsns() != pages[i-1].gsns() || cur.hasPrev != (i-1 > 0) {
				s.fail("previous", "the previous link %q of page %d shows [%s] (with a previous link: %v), page %d was [%s]\n%s", pages[i].prev, i+1, cur.gsns(), cur.hasPrev, i, pages[i-1].gsns(), trail())
				return false
			}
			if !cur.hasNext {
				s.fail("previous", "page %d, reached by the previous link %q, has no next link\n%s", i, pages[i].prev, trail())
				return false
			}
			// forward again from there
			fwd, ok := s.get(cur.url, cur.next, false)
			if !ok {
				return false
			}
			if fwd.gsns() != pages[i].gsns() {
				s.fail("previous", "back to page %d and on again shows [%s] instead of [%s]\n%s", i, fwd.gsns(), pages[i].gsns(), trail())
				return false
			}
		} else if cur.hasPrev != (i-1 > 0) {
			s.fail("previous", "the previous link %q of page %d leads to a page with a previous link: %v\n%s", pages[i].prev, i+1, cur.hasPrev, trail())
			return false
		}
		pages[i-1] = cur
	}
	s.t.Count("crawls", 1)
	s.t.Count("rows_checked", len(seen))
	if len(pages) > 1 {
		s.t.Distinct(fmt.Sprintf("%v|%d|%s", stream, k, trail()))
	}
	return true
}

// vuePages checks the live pages, which a script turns into templates in the browser.
func (s *uiSite) livePage(name, href string) bool {
	p, ok := s.get("/aggregate-types", href, true)
	if !ok {
		return false
	}
	if len(elements(p.doc, "script")) != 2 {
		s.fail("escape", "the live page %s has %d scripts", p.url, len(elements(p.doc, "script")))
		return false
	}
	if name == "" || !strings.Contains(name, "${") {
		return true
	}
	bad := false
	walk(p.doc, func(n *html.Node) {
		if n.Type != html.TextNode || !strings.Contains(n.Data, name) {
			return
		}
		inApp, pre := false, false
		for x := n.Parent; x != nil; x = x.Parent {
			inApp = inApp || attr(x, "id") == "app"
			pre = pre || hasAttr(x, "v-pre")
		}
		bad = bad || inApp && !pre
	})
	if bad {
		s.fail("escape", "the live page %s hands the name %q to the script as a template", p.url, name)
	}
	return !bad
}

func c22Crawl(t *core.T, name, kind string, r *rand.Rand, changing, wide bool) {
	saves, batch, types, streams := 2+r.Intn(14), 1+r.Intn(6), 3, 5
	if wide {
		saves, batch, types, streams = 60+r.Intn(60), 5, []int{1, 60}[r.Intn(2)], []int{1, 30}[r.Intn(2)]
	}
	s := newSite(t, name, kind, r, saves, batch, types, streams)
	defer s.g.Close()
	if s.bad || !s.settle() {
		return
	}
	w := httptest.NewRecorder()
	req, _ := http.NewRequest("GET", "/", nil)
	s.ui.ServeHTTP(w, req)
	if loc := w.Header().Get("Location"); w.Code/100 != 3 || loc != "/aggregate-types" {
		s.fail("status", "GET / gives %d %q", w.Code, loc)
		return
	}
	list, ok := s.get("/", "/aggregate-types", false)
	if !ok {
		return
	}
	counts := map[string]int{}
	all, err := env.Collect(s.g.Store.Events(context.Background(), 0))
	if err != nil {
		s.fail("read", "reading all events: %v", err)
		return
	}
	typeHref, streamHref := map[string]string{}, map[string]string{}
	for _, rec := range all {
		counts[rec.AggregateType]++
		streamHref[rec.StreamName] = ""
	}
	shown := map[string]int{}
	prevType := ""
	for _, tr := range elements(list.doc, "tr") {
		td := elements(tr, "td")
		if len(td) != 2 {
			continue
		}
		ty := textOf(td[0])
		n, _ := strconv.Atoi(strings.ReplaceAll(textOf(td[1]), ",", ""))
		shown[ty] = n
		for _, a := range elements(td[0], "a") {
			typeHref[ty] = attr(a, "href")
		}
		if prevType != "" && ty <= prevType {
			s.fail("totals", "the list shows %q after %q", ty, prevType)
			return
		}
		prevType = ty
	}
	if fmt.Sprint(shown) != fmt.Sprint(counts) || list.total != uint64(len(all)) {
		s.fail("totals", "the list shows %v and the total %d, stored are %v and %d", shown, list.total, counts, len(all))
		return
	}
	if !s.livePage("", "/aggregate-types/live") {
		return
	}
	var change func()
	extra := 0
	var temp []string
	change = nil
	if changing {
		change = func() {
			for i := r.Intn(3); i > 0 && extra < 12; i-- {
				extra++
				if r.Intn(2) == 0 {
					s.save(r, s.streams[r.Intn(len(s.streams))], 1+r.Intn(2))
					continue
				}
				if len(temp) > 0 && r.Intn(2) == 0 {
					g := temp[len(temp)-1]
					temp = temp[:len(temp)-1]
					n, _ := s.g.Store.TotalEventsInStream(context.Background(), g)
					if err := s.g.Store.OptimisticDeleteStream(context.Background(), n, g); err != nil {
						s.fail("save", "deleting %q: %v", g, err)
					}
					continue
				}
				g := fmt.Sprintf("temp-%d", extra)
				s.typeOf[g] = s.types[r.Intn(len(s.types))]
				temp = append(temp, g)
				s.save(r, g, 1+r.Intn(2))
			}
		}
	}
	for ty := range counts {
		href := typeHref[ty]
		if r.Intn(3) == 0 {
			href = "/a/" + url.PathEscape(ty)
		}
		if !s.crawl(r, false, ty, href, change) || !s.livePage(ty, href+"/live") {
			return
		}
		// links of the rows
		p, ok := s.get("/aggregate-types", href, false)
		if !ok {
			return
		}
		for _, row := range p.rows {
			if _, ok := streamHref[row.stream]; ok {
				streamHref[row.stream] = row.streamHref
			}
		}
		if len(p.rows) > 0 {
			row := p.rows[r.Intn(len(p.rows))]
			same, ok := s.get(p.url, row.typeHref, false)
			if !ok {
				return
			}
			if !strings.Contains(same.crumbs, ty) || same.gsns() != p.gsns() && !changing {
				s.fail("link", "a row of %s links to its type by %q, which shows %q [%s]", p.url, row.typeHref, clip(same.crumbs), same.gsns())
				return
			}
		}
	}
	for st, href := range streamHref {
		if href == "" || r.Intn(3) == 0 {
			href = "/s/" + url.PathEscape(st)
		}
		if !s.crawl(r, true, st, href, change) {
			return
		}
	}
	t.Sample(map[string]interface{}{"types": counts, "streams": len(streamHref), "kind": kind})
}

func c22Query(t *core.T, name, kind string, r *rand.Rand) {
	s := newSite(t, name, kind, r, 4+r.Intn(8), 5, 3, 5)
	defer s.g.Close()
	if s.bad || !s.settle() {
		return
	}
	value := func(n int) string {
		switch r.Intn(12) {
		case 0:
			return fmt.Sprint(uint64(1<<63) + uint64(r.Intn(3)) - 1)
		case 1:
			return "18446744073709551615"
		case 2:
			return "18446744073709551616"
		case 3:
			return "-1"
		case 4:
			return []string{"", " ", "1.5", "0x10", "1e3", "+3", "007", "x", "%zz", "%00", "1,2", "NaN", "<b id=inject>", "\"onx=inject"}[r.Intn(14)]
		case 5:
			return "0"
		case 6:
			return fmt.Sprint(999 + r.Intn(3))
		default:
			return fmt.Sprint(r.Intn(n + 3))
		}
	}
	esc := func(v string) string {
		if r.Intn(8) == 0 {
			return v
		}
		return url.QueryEscape(v)
	}
	for i := 0; i < 25; i++ {
		stream := r.Intn(2) == 0
		nm := s.types[r.Intn(len(s.types))]
		path := "/a/"
		if stream {
			nm, path = s.streams[r.Intn(len(s.streams))], "/s/"
		}
		if r.Intn(12) == 0 {
			nm = "nobody" // does not exist
		}
		recs, ok := s.expect(stream, nm, 0)
		if !ok {
			return
		}
		var parts []string
		for _, key := range []string{"itemsPerPage", "current", "previous", "x"} {
			if r.Intn(5) == 0 {
				continue
			}
			v := value(len(recs))
			if key == "previous" {
				var l []string
				for j := r.Intn(5); j >= 0; j-- {
					l = append(l, value(len(recs)))
				}
				v = strings.Join(l, ",")
			}
			parts = append(parts, key+"="+esc(v))
		}
		r.Shuffle(len(parts), func(a, b int) { parts[a], parts[b] = parts[b], parts[a] })
		q := strings.Join(parts, []string{"&", "&", "&", ";", "&&"}[r.Intn(5)])
		u := &url.URL{Scheme: "http", Host: "localhost", Path: path + nm, RawQuery: q}
		req, err := http.NewRequest("GET", u.String(), nil)
		if err != nil {
			continue
		}
		values := req.URL.Query()
		size, err := strconv.ParseUint(values.Get("itemsPerPage"), 10, 64)
		if err != nil || size == 0 {
			size = 10
		}
		if size > 1000 {
			size = 1000
		}
		cur, err := strconv.ParseUint(values.Get("current"), 10, 64)
		if err != nil {
			cur = 0
		}
		from, ok := s.expect(stream, nm, cur)
		if !ok {
			return
		}
		p, ok := s.get("/", u.RequestURI(), false)
		if !ok {
			return
		}
		want := from
		if uint64(len(want)) > size {
			want = want[:size]
		}
		if d := rowsDiff(p.rows, want); d != "" {
			s.fail("query", "GET %s: %s (shown: %s)", u, d, p.gsns())
			return
		}
		if p.total != uint64(len(recs)) {
			s.fail("totals", "GET %s shows the total %d, stored are %d", u, p.total, len(recs))
			return
		}
		if p.hasNext != (len(from) > len(want)) {
			s.fail("query", "GET %s: next link %v %q, %d more records", u, p.hasNext, p.next, len(from)-len(want))
			return
		}
		if p.hasNext {
			next, ok := s.get(p.url, p.next, false)
			if !ok {
				return
			}
			rest := from[len(want):]
			if uint64(len(rest)) > size {
				rest = rest[:size]
			}
			if d := rowsDiff(next.rows, rest); d != "" {
				s.fail("query", "GET %s: the next page %s: %s", u, next.url, d)
				return
			}
			back, ok := s.get(next.url, next.prev, false)
			if !ok {
				return
			}
			if back.gsns() != p.gsns() {
				s.fail("query", "GET %s: the previous link of the next page %q shows [%s] instead of [%s]", u, next.prev, back.gsns(), p.gsns())
				return
			}
		}
		if p.hasPrev {
			if _, ok := s.get(p.url, p.prev, false); !ok {
				return
			}
		}
		t.Count("queries", 1)
		t.Distinct(u.String())
	}
}

// c22Large crosses the limit of records per page and thousands in totals.
func c22Large(t *core.T, name string, r *rand.Rand) {
	s := newSite(t, name, []string{"mem-json", "ldb-json"}[r.Intn(2)], r, 1, 1, 3, 5)
	defer s.g.Close()
	if s.bad {
		return
	}
	n := 1001 + r.Intn(1200)
	st := s.streams[0]
	for i := 0; i < n; i += 100 {
		if !s.save(r, st, 100) {
			return
		}
	}
	if !s.settle() {
		return
	}
	recs, ok := s.expect(true, st, 0)
	if !ok {
		return
	}
	for _, arg := range []string{"1000", "1001", "5000", "18446744073709551615", "999"} {
		size := uint64(1000)
		if arg == "999" {
			size = 999
		}
		p, ok := s.get("/", "/s/"+url.PathEscape(st)+"?itemsPerPage="+arg, false)
		if !ok {
			return
		}
		if d := rowsDiff(p.rows, recs[:size]); d != "" || !p.hasNext || p.total != uint64(len(recs)) {
			s.fail("page-size", "itemsPerPage=%s: %s, next %v, total %d of %d", arg, d, p.hasNext, p.total, len(recs))
			return
		}
		next, ok := s.get(p.url, p.next, false)
		if !ok {
			return
		}
		rest := recs[size:]
		if uint64(len(rest)) > size {
			rest = rest[:size]
		}
		if d := rowsDiff(next.rows, rest); d != "" {
			s.fail("records", "itemsPerPage=%s, second page: %s", arg, d)
			return
		}
	}
	t.Count("large", 1)
}
