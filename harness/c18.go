package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/aes"
	"github.com/inklabs/rangedb/pkg/crypto/cryptotest"
	"github.com/inklabs/rangedb/pkg/crypto/eventencryptor"
	"github.com/inklabs/rangedb/pkg/crypto/provider/cachekeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/postgreskeystore"
	"github.com/inklabs/rangedb/pkg/crypto/xchacha20poly1305"
	"github.com/inklabs/rangedb/provider/encryptedstore"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C18"] = c18 }

// keySetup is a key store under test with what is behind it.
type keySetup struct {
	ks     crypto.KeyStore
	second crypto.KeyStore // the authoritative store of a layered one
	fake   *env.KeyFake
	pg     *env.PgFake
	server interface { // the server behind the store, if any
		SetFaults(rate int, delay time.Duration, kinds ...string)
	}
	kind   string
	cache  bool
	unique bool // the store refuses a key used by another subject
	close  func()
}

func (s *keySetup) fresh() crypto.KeyStore {
	if s.cache {
		return cachekeystore.New(inmemorykeystore.New(), s.second)
	}
	if s.pg != nil {
		return pgKeys(s.pg)
	}
	if s.fake != nil {
		if strings.Contains(s.kind, "vault") {
			return s.fake.VaultStore()
		}
		return s.fake.DynamoStore()
	}
	return s.ks
}

var keyKinds = []string{"mem", "cache-mem", "cache-cache-mem", "vault", "dynamo", "cache-vault", "cache-dynamo", "pg", "cache-pg"}

func pgKeys(f *env.PgFake) crypto.KeyStore {
	ks, err := postgreskeystore.New(f.Config())
	if err != nil {
		panic("harness: " + err.Error())
	}
	return ks
}

func openKeys(kind string, seed int64) *keySetup {
	s := &keySetup{kind: kind, close: func() {}}
	base := func(k string) crypto.KeyStore {
		switch k {
		case "vault":
			s.fake = env.NewVault(seed)
			s.server, s.close = s.fake, s.fake.Close
			return s.fake.VaultStore()
		case "dynamo":
			s.fake = env.NewDynamo(seed)
			s.server, s.close = s.fake, s.fake.Close
			return s.fake.DynamoStore()
		case "pg":
			s.pg = env.NewPg(seed)
			s.server, s.close = s.pg, s.pg.Close
			s.unique = true
			return pgKeys(s.pg)
		}
		s.unique = true
		return inmemorykeystore.New()
	}
	k := kind
	layers := 0
	for strings.HasPrefix(k, "cache-") {
		k = k[6:]
		layers++
	}
	s.ks = base(k)
	for i := 0; i < layers; i++ {
		s.cache = true
		s.second = s.ks
		s.ks = cachekeystore.New(inmemorykeystore.New(), s.ks)
	}
	return s
}

type keyIn struct {
	op, subject, key string
	lossy            bool
}

func (i keyIn) String() string { return fmt.Sprintf("%s(%s %s)", i.op, i.subject, i.key) }

type keyOut struct{ kind, key, err string }

func (o keyOut) String() string { return o.kind + " " + o.key + " " + o.err }

func keyErr(err error) keyOut {
	switch {
	case err == nil:
		return keyOut{kind: "ok"}
	case errors.Is(err, crypto.ErrKeyNotFound):
		return keyOut{kind: "notfound"}
	case errors.Is(err, crypto.ErrKeyWasDeleted):
		return keyOut{kind: "deleted"}
	case errors.Is(err, crypto.ErrKeyExistsForSubjectID):
		return keyOut{kind: "exists"}
	case errors.Is(err, crypto.ErrKeyAlreadyUsed):
		return keyOut{kind: "used"}
	case errors.Is(err, crypto.ErrInvalidKey):
		return keyOut{kind: "invalid"}
	}
	return keyOut{kind: "error", err: err.Error()}
}

const keyGone = "\x00deleted"

// keyModel: the state of one subject is unset, its key, or deleted. An
// operation that failed with another error may or may not have had its effect.
var keyModel = porcupine.NondeterministicModel{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(keyIn).subject
			m[k] = append(m[k], o)
		}
		var out [][]porcupine.Operation
		for _, v := range m {
			out = append(out, v)
		}
		return out
	},
	Init: func() []interface{} { return []interface{}{""} },
	Step: func(state, input, output interface{}) []interface{} {
		st, in, out := state.(string), input.(keyIn), output.(keyOut)
		same := []interface{}{st}
		switch in.op {
		case "get":
			switch out.kind {
			case "ok":
				if st != "" && st != keyGone && st == out.key {
					return same
				}
			case "notfound":
				if st == "" {
					return same
				}
			case "deleted":
				if st == keyGone {
					return same
				}
			case "error":
				return same
			}
		case "set":
			switch out.kind {
			case "ok":
				if st == "" {
					return []interface{}{in.key}
				}
			case "exists":
				if st != "" {
					return same
				}
				if in.lossy { // its own put, repeated because the first reply was lost
					return []interface{}{in.key}
				}
			case "error":
				if st == "" {
					return []interface{}{st, in.key}
				}
				return same
			}
		case "del":
			switch out.kind {
			case "ok":
				return []interface{}{keyGone}
			case "error":
				return []interface{}{st, keyGone}
			}
		}
		return nil
	},
	Equal: func(a, b interface{}) bool { return a == b },
	DescribeOperation: func(i, o interface{}) string {
		return i.(keyIn).String() + " -> " + o.(keyOut).String()
	},
}

func c18(t *core.T) {
	log.SetOutput(io.Discard) // the Vault store logs refusals
	t.SetRule("histories of get, set and delete on few subjects in the in-memory, layered, Vault and DynamoDB key stores (the last two against servers that behave like them: conditional writes, stale reads, refused, failed, dropped, damaged and delayed replies): sequential ones against a model, concurrent ones decided by porcupine; concurrent first encryption of a subject, also while calls to the key store and the source of randomness fail; deletion under readers, subscribers and writers of an encrypted store. Non-trivial: a result about an existing, deleted or contended subject was judged; distinct by store, operation and result")
	j := &jobs{t: t}
	for _, k := range keyKinds {
		k := k
		web := strings.Contains(k, "vault") || strings.Contains(k, "dynamo") || strings.Contains(k, "pg")
		f := 4
		if web {
			f = 1
		}
		j.add(f*t.N(200, 3000), k+"-seq", func(t *core.T, name string, r *rand.Rand) { c18Seq(t, name, k, r) })
		j.add(f*t.N(250, 3000), k+"-conc", func(t *core.T, name string, r *rand.Rand) { c18Conc(t, name, k, false, r) })
		j.add(f*t.N(200, 3000), k+"-faults", func(t *core.T, name string, r *rand.Rand) { c18Conc(t, name, k, true, r) })
		j.add(f*t.N(100, 1500), k+"-first", func(t *core.T, name string, r *rand.Rand) { c18First(t, name, k, r) })
		j.add(f*t.N(60, 900), k+"-failing", func(t *core.T, name string, r *rand.Rand) { c18Failing(t, name, k, r) })
		j.add(f*t.N(80, 1200), k+"-shred", func(t *core.T, name string, r *rand.Rand) { c18Shred(t, name, k, r) })
	}
	j.run(8)
}

func keyText(r *rand.Rand, uid string) string {
	b := make([]byte, 24)
	r.Read(b)
	if r.Intn(8) == 0 {
		return "plain \"key\" \\ " + uid
	}
	return b64(b) + uid
}

// doKey runs one operation.
func doKey(ks crypto.KeyStore, in keyIn) keyOut {
	switch in.op {
	case "get":
		k, err := ks.Get(in.subject)
		o := keyErr(err)
		o.key = k
		if err == nil && k == "" {
			o.kind = "empty"
		}
		return o
	case "set":
		return keyErr(ks.Set(in.subject, in.key))
	}
	return keyErr(ks.Delete(in.subject))
}

func c18Seq(t *core.T, name, kind string, r *rand.Rand) {
	s := openKeys(kind, r.Int63())
	defer s.close()
	subjects := []string{"a", "b-2", "c_3", "62df778c16f84969a8a5448a9ce00218"}
	if s.fake == nil || strings.Contains(kind, "dynamo") {
		subjects = append(subjects, "ü ö/\x01", "", "A", "a ")
		if s.fake != nil {
			subjects[5] = "x?y#z"
		}
	}
	state := map[string]string{}
	used := map[string]bool{}
	var keys []string
	stores := []crypto.KeyStore{s.ks}
	var hist []string
	for i := 0; i < 30+r.Intn(40) && !t.Stopped(); i++ {
		if r.Intn(12) == 0 { // another process, or after a restart
			stores[0] = s.fresh()
			hist = append(hist, "restart")
		}
		ks := stores[r.Intn(len(stores))]
		in := keyIn{subject: subjects[r.Intn(len(subjects))]}
		var want []string
		st := state[in.subject]
		switch x := r.Intn(10); {
		case x < 5:
			in.op = "get"
			want = []string{"ok"}
			if st == "" {
				want = []string{"notfound"}
			} else if st == keyGone {
				want = []string{"deleted"}
			}
		case x < 8:
			in.op = "set"
			in.key = keyText(r, fmt.Sprintf("k%d", i))
			if y := r.Intn(8); y == 0 {
				in.key = ""
			} else if y == 1 && len(keys) > 0 {
				in.key = keys[r.Intn(len(keys))]
			}
			switch {
			case in.key == "":
				want = []string{"invalid"}
			case st != "":
				want = []string{"exists"}
				if s.unique && used[in.key] {
					want = append(want, "used")
				}
			case s.unique && used[in.key]:
				want = []string{"used"}
			default:
				want = []string{"ok"}
			}
		default:
			in.op = "del"
			if st == "" && strings.Contains(kind, "vault") {
				continue
			}
			want = []string{"ok"}
		}
		var out keyOut
		if p := core.Try(func() { out = doKey(ks, in) }); p != "" {
			t.Fail(name, "panic", "[%s] %v panicked: %s\n%s", kind, in, p, strings.Join(hist, "\n"))
			return
		}
		hist = append(hist, in.String()+" -> "+out.String())
		ok := false
		for _, w := range want {
			ok = ok || w == out.kind
		}
		if in.op == "get" {
			if out.kind == "ok" {
				ok = ok && out.key == st
			} else {
				ok = ok && out.key == ""
			}
		}
		if !ok {
			t.Fail(name, "result", "[%s] %v gave %v, expected %v (state %q) after\n%s", kind, in, out, want, st, strings.Join(hist, "\n"))
			return
		}
		t.Count("operations", 1)
		t.Distinct(kind + in.op + out.kind)
		if out.kind == "ok" && in.op == "set" {
			state[in.subject] = in.key
			used[in.key] = true
			keys = append(keys, in.key)
		}
		if in.op == "del" {
			if s.pg != nil {
				delete(used, st) // the row forgets it
			}
			state[in.subject] = keyGone
		}
	}
}

// flakyFirst is a cache that fails now and then, before or after its effect.
type flakyFirst struct {
	crypto.KeyStore
	mu   sync.Mutex
	r    *rand.Rand
	rate int
}

func (f *flakyFirst) roll() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.r.Intn(100) < f.rate {
		return 1 + f.r.Intn(2)
	}
	return 0
}

func (f *flakyFirst) do(g func() error) error {
	switch f.roll() {
	case 1:
		return errKeys
	case 2:
		_ = g()
		return errKeys
	}
	return g()
}

func (f *flakyFirst) Get(id string) (k string, err error) {
	err = f.do(func() (e error) { k, e = f.KeyStore.Get(id); return })
	if err != nil {
		k = ""
	}
	return
}
func (f *flakyFirst) Set(id, key string) error {
	return f.do(func() error { return f.KeyStore.Set(id, key) })
}
func (f *flakyFirst) Delete(id string) error {
	return f.do(func() error { return f.KeyStore.Delete(id) })
}

// jitterKeys delays around every call.
type jitterKeys struct {
	crypto.KeyStore
	jit func()
}

func (k *jitterKeys) Get(id string) (string, error) {
	k.jit()
	defer k.jit()
	return k.KeyStore.Get(id)
}
func (k *jitterKeys) Set(id, key string) error {
	k.jit()
	defer k.jit()
	return k.KeyStore.Set(id, key)
}
func (k *jitterKeys) Delete(id string) error {
	k.jit()
	defer k.jit()
	return k.KeyStore.Delete(id)
}

func c18Conc(t *core.T, name, kind string, faults bool, r *rand.Rand) {
	s := openKeys(kind, r.Int63())
	defer s.close()
	ks := s.ks
	jit := env.RandomJitter(r.Int63(), time.Duration(1+r.Intn(300))*time.Microsecond)
	if s.cache { // delays between the calls to the layers
		var first crypto.KeyStore = inmemorykeystore.New()
		if faults {
			first = &flakyFirst{KeyStore: first, r: rand.New(rand.NewSource(r.Int63())), rate: 5 + r.Intn(25)}
		}
		var second crypto.KeyStore = &jitterKeys{s.second, jit}
		if faults && s.server == nil {
			second = &flakyFirst{KeyStore: second, r: rand.New(rand.NewSource(r.Int63())), rate: 5 + r.Intn(15)}
		}
		ks = cachekeystore.New(&jitterKeys{first, jit}, second)
	} else if faults && s.server == nil {
		ks = cachekeystore.New(inmemorykeystore.New(), &flakyFirst{KeyStore: ks, r: rand.New(rand.NewSource(r.Int63())), rate: 10})
	}
	lossy := false
	if s.server != nil {
		d := time.Duration(1+r.Intn(2000)) * time.Microsecond
		if faults {
			switch {
			case s.pg != nil:
				s.server.SetFaults(50+r.Intn(250), d, "error", "drop", "lost")
				lossy = true
			case strings.Contains(kind, "vault"):
				s.fake.SetFaults(50+r.Intn(250), d, "refuse", "fail", "drop", "droplate", "garbage", "trunc")
			case r.Intn(3) == 0: // the client repeats these, slowly
				s.fake.SetFaults(15, d, "drop", "droplate")
				lossy = true
			default:
				s.fake.SetFaults(50+r.Intn(250), d, "refuse", "fail")
			}
		} else {
			s.server.SetFaults(0, d)
		}
	}
	nsub := 1 + r.Intn(2)
	clients := 2 + r.Intn(4)
	var clock int64
	now := func() int64 { return atomic.AddInt64(&clock, 1) }
	var mu sync.Mutex
	var hist []porcupine.Operation
	acked := make([]int32, nsub) // a set was acknowledged: Vault has something to delete
	var wg sync.WaitGroup
	deleters := map[int]bool{r.Intn(clients): true}
	bad := int32(0)
	for c := 0; c < clients; c++ {
		cr := t.Rand(fmt.Sprintf("%s/c%d", name, c))
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			t.Guard(name, func() {
				deleted := map[int]int{}
				for i := 0; i < 8 && atomic.LoadInt32(&bad) == 0; i++ {
					sub := cr.Intn(nsub)
					in := keyIn{subject: fmt.Sprintf("s%d", sub), lossy: lossy}
					x := cr.Intn(10)
					switch {
					case deleters[c] && i >= 3 && x < 4 && (atomic.LoadInt32(&acked[sub]) != 0 || !strings.Contains(kind, "vault")) && deleted[sub] < 3:
						in.op = "del"
						deleted[sub]++
					case x < 6:
						in.op = "get"
					default:
						in.op, in.key = "set", fmt.Sprintf("key-%d-%d", c, i)
					}
					call := now()
					out := doKey(ks, in)
					ret := now()
					if out.kind == "error" && in.op != "get" {
						ret = 1 << 60 // may take effect at any later time
					}
					if out.kind == "ok" && in.op == "set" || out.kind == "ok" && in.op == "get" {
						atomic.StoreInt32(&acked[sub], 1)
					}
					if !faults && out.kind == "error" {
						t.Fail(name, "error", "[%s] %v: %s without any fault", kind, in, out.err)
						atomic.StoreInt32(&bad, 1)
						return
					}
					if out.kind == "error" {
						t.Count("failed operations", 1)
					}
					mu.Lock()
					hist = append(hist, porcupine.Operation{ClientId: c, Input: in, Call: call, Output: out, Return: ret})
					mu.Unlock()
					t.Count("operations", 1)
					t.Distinct(fmt.Sprint(kind, faults, in.op, out.kind))
				}
			})
		}(c)
	}
	wg.Wait()
	if atomic.LoadInt32(&bad) != 0 || t.Stopped() {
		return
	}
	// afterwards: the same store and a restarted one agree
	if s.server != nil {
		s.server.SetFaults(0, 0)
	}
	for i := 0; i < nsub; i++ {
		for _, x := range []crypto.KeyStore{ks, s.fresh(), ks} {
			in := keyIn{op: "get", subject: fmt.Sprintf("s%d", i)}
			call := now()
			out := doKey(x, in)
			hist = append(hist, porcupine.Operation{ClientId: 99, Input: in, Call: call, Output: out, Return: now()})
		}
	}
	m := keyModel.ToModel()
	res, _ := porcupine.CheckOperationsVerbose(m, hist, 20*time.Second)
	switch res {
	case porcupine.Unknown:
		t.Count("undecided", 1)
	case porcupine.Illegal:
		var lines []string
		for _, o := range hist {
			lines = append(lines, fmt.Sprintf("client %d [%d,%d] %v -> %v", o.ClientId, o.Call, o.Return, o.Input, o.Output))
		}
		t.Fail(name, "not-linearizable", "[%s] no order of the operations explains the results:\n%s", kind, strings.Join(lines, "\n"))
	default:
		t.Count("histories decided", 1)
	}
}

func anyCipher(r *rand.Rand) crypto.Encryptor {
	switch r.Intn(3) {
	case 0:
		return aes.NewGCM()
	case 1:
		return aes.NewCBCPKCS5Padding()
	}
	return xchacha20poly1305.New()
}

// c18First: several callers encrypt for the same new subjects at once.
func c18First(t *core.T, name, kind string, r *rand.Rand) {
	s := openKeys(kind, r.Int63())
	defer s.close()
	jit := env.RandomJitter(r.Int63(), time.Duration(1+r.Intn(200))*time.Microsecond)
	ks := crypto.KeyStore(&jitterKeys{s.ks, jit})
	if s.cache && r.Intn(2) == 0 {
		ks = cachekeystore.New(&jitterKeys{inmemorykeystore.New(), jit}, &jitterKeys{s.second, jit})
	}
	if s.server != nil {
		s.server.SetFaults(0, time.Millisecond)
	}
	ciph := anyCipher(r)
	shared := eventencryptor.New(ks, ciph)
	own := r.Intn(2) == 0 // every caller its own encryptor
	nsub, n := 1+r.Intn(3), 2+r.Intn(6)
	type item struct {
		ev, want rangedb.Event
		subject  string
		seen     string
	}
	var mu sync.Mutex
	var items []item
	var wg sync.WaitGroup
	start := make(chan struct{})
	bad := int32(0)
	for c := 0; c < n; c++ {
		cr := t.Rand(fmt.Sprintf("%s/c%d", name, c))
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			t.Guard(name, func() {
				e := crypto.EventEncryptor(shared)
				if own {
					e = eventencryptor.New(ks, ciph)
				}
				<-start
				for i := 0; i < nsub; i++ {
					subject := fmt.Sprintf("s%d", i)
					ev := &env.PersonA{T: "person", ID: subject, UID: fmt.Sprintf("%d-%d", c, i), Name: env.Secret(cr), Email: env.Secret(cr)}
					w := *ev
					if err := e.Encrypt(ev); err != nil {
						t.Fail(name, "encrypt", "[%s] concurrent Encrypt for a new subject: %v", kind, err)
						atomic.StoreInt32(&bad, 1)
						return
					}
					mu.Lock()
					items = append(items, item{ev: ev, want: &w, subject: subject})
					mu.Unlock()
				}
			})
		}(c)
	}
	close(start)
	wg.Wait()
	if bad != 0 {
		return
	}
	e2 := eventencryptor.New(s.fresh(), ciph)
	for _, it := range items {
		copy1, copy2 := *it.ev.(*env.PersonA), *it.ev.(*env.PersonA)
		for i, c := range []*env.PersonA{&copy1, &copy2} {
			e := crypto.EventEncryptor(shared)
			if i == 1 {
				e = e2
			}
			if err := e.Decrypt(c); err != nil || *c != *it.want.(*env.PersonA) {
				t.Fail(name, "lost", "[%s] an event encrypted by one of %d concurrent first callers for %s cannot be decrypted (%v): got %+v want %+v", kind, n, it.subject, err, *c, it.want)
				return
			}
		}
		t.Count("first-use events", 1)
	}
	t.Distinct(fmt.Sprint("first", kind, n, nsub, own))
}

// sparseRand gives few bytes at a time, none of them zero, and fails now and then.
type sparseRand struct {
	mu   sync.Mutex
	r    *rand.Rand
	fail int
}

func (s *sparseRand) Read(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.r.Intn(100) < s.fail {
		return 0, errKeys
	}
	n := 1 + s.r.Intn(20)
	if n > len(b) {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		b[i] = byte(1 + s.r.Intn(255))
	}
	return n, nil
}

// c18Failing: what was encrypted without an error can be decrypted, whatever
// calls to the key store failed.
func c18Failing(t *core.T, name, kind string, r *rand.Rand) {
	s := openKeys(kind, r.Int63())
	defer s.close()
	flaky := &flakyFirst{KeyStore: s.ks, r: rand.New(rand.NewSource(r.Int63())), rate: 5 + r.Intn(60)}
	ciph := anyCipher(r)
	mk := func() crypto.EventEncryptor {
		e := eventencryptor.New(flaky, ciph)
		e.SetRandReader(&sparseRand{r: rand.New(rand.NewSource(r.Int63())), fail: r.Intn(2) * r.Intn(20)})
		return e
	}
	shared := mk()
	type item struct {
		ev, want env.PersonA
	}
	var mu sync.Mutex
	var items []item
	var wg sync.WaitGroup
	n, nsub := 1+r.Intn(3), 1+r.Intn(4)
	failures := 0
	for c := 0; c < n; c++ {
		cr := rand.New(rand.NewSource(r.Int63()))
		e := shared
		if r.Intn(2) == 0 {
			e = mk()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			t.Guard(name, func() {
				for i := 0; i < 8; i++ {
					ev := env.PersonA{T: "person", ID: fmt.Sprintf("s%d", cr.Intn(nsub)), Name: env.Secret(cr), Email: env.Secret(cr)}
					it := item{want: ev}
					err := e.Encrypt(&ev)
					it.ev = ev
					mu.Lock()
					if err == nil {
						items = append(items, it)
					} else {
						failures++
					}
					mu.Unlock()
				}
			})
		}()
	}
	wg.Wait()
	e2 := eventencryptor.New(s.fresh(), ciph)
	for _, it := range items {
		got := it.ev
		if err := e2.Decrypt(&got); err != nil || got != it.want {
			t.Fail(name, "lost", "[%s] key store calls and the source of randomness failed now and then; an event of %s was encrypted without an error, but cannot be decrypted: %v, got %+v want %+v", kind, it.want.ID, err, got, it.want)
			return
		}
		copied := it.ev
		if err := shared.Decrypt(&copied); err == nil && copied != it.want {
			t.Fail(name, "lost", "[%s] with key store calls failing, Decrypt gave without an error %+v, want %+v", kind, copied, it.want)
			return
		}
	}
	for i := 0; i < nsub; i++ {
		key, err := s.fresh().Get(fmt.Sprintf("s%d", i))
		if err != nil {
			continue
		}
		if b, err := base64.StdEncoding.DecodeString(key); err != nil || len(b) != 32 || bytes.IndexByte(b, 0) >= 0 {
			t.Fail(name, "weak-key", "[%s] the key made for a subject is %x (%v): not 32 bytes of the source of randomness", kind, b, err)
			return
		}
	}
	t.Count("encryptions while keys failed", len(items))
	t.Count("encryptions refused", failures)
	t.Distinct(fmt.Sprint("failing", kind, n, nsub, len(items), failures))
}

// c18Shred: deleting keys while an encrypted store is in use.
func c18Shred(t *core.T, name, kind string, r *rand.Rand) {
	s := openKeys(kind, r.Int63())
	defer s.close()
	engine := []string{"mem-json", "ldb-json", "mem-msgpack", "ldb-msgpack"}[r.Intn(4)]
	g := env.Open(engine)
	ctx, cancel := context.WithCancel(context.Background())
	defer func() {
		cancel()
		g.Close()
	}()
	env.BindPersons(g.Store)
	ciph := anyCipher(r)
	var gate sync.RWMutex // deletions stamp the epoch
	deleted := map[string]bool{}
	var dmu sync.Mutex
	isDeleted := func(s string) bool {
		dmu.Lock()
		defer dmu.Unlock()
		return deleted[s]
	}
	enc := encryptedstore.New(g.Store, eventencryptor.New(s.ks, ciph))
	fail := func(key, f string, a ...interface{}) {
		t.Fail(name, key, "[%s over %s] %s", kind, engine, fmt.Sprintf(f, a...))
	}
	nsub := 3 + r.Intn(3)
	type ev struct {
		uid, subject, want, rest string
		secrets                  []string
		blank                    string
	}
	evs := map[string]*ev{}
	var order []string
	subjects := map[string]bool{}
	save := func(subject string) bool {
		uid := fmt.Sprintf("u%d", len(order))
		e, w, sec := env.MakePerson(r, subject, uid)
		st := rangedb.GetEventStream(e)
		_, err := enc.Save(ctx, st, &rangedb.EventRecord{Event: e, Metadata: map[string]interface{}{"u": uid}})
		if isDeleted(subject) {
			if err == nil {
				fail("revived", "an event of the deleted subject %s was encrypted and saved", subject)
				return false
			}
			if !errors.Is(err, crypto.ErrKeyWasDeleted) {
				fail("deleted-error", "saving for the deleted subject %s: %v", subject, err)
				return false
			}
			return true
		}
		if err != nil {
			fail("save", "%v", err)
			return false
		}
		subjects[subject] = true
		evs[uid] = &ev{uid: uid, subject: subject, want: env.Canon(w), rest: without(w, w.EventType()), secrets: sec, blank: noCipher(env.Canon(blanked(w)))}
		order = append(order, uid)
		return true
	}
	subj := func() string { return fmt.Sprintf("subj%d", r.Intn(nsub)) }
	for i := 0; i < 8+r.Intn(8); i++ {
		if !save(subj()) {
			return
		}
	}
	// held: iterator opened before the deletion
	for round := 0; round < 3 && !t.Stopped(); round++ {
		victim := subj()
		if subjects[victim] && (round > 0 || r.Intn(3) > 0) {
			gate.Lock()
			if err := s.ks.Delete(victim); err != nil {
				gate.Unlock()
				fail("delete", "%v", err)
				return
			}
			dmu.Lock()
			deleted[victim] = true
			dmu.Unlock()
			gate.Unlock()
			t.Count("keys deleted", 1)
		}
		for i := 0; i < 3; i++ {
			if !save(subj()) {
				return
			}
		}
		if isDeleted(victim) && !save(victim) {
			return
		}
		stores := []rangedb.Store{enc, encryptedstore.New(g.Store, eventencryptor.New(s.fresh(), ciph))}
		for _, st := range stores {
			if !c18Read(t, fail, ctx, st, g.Store, func(uid string) (string, string, bool, bool) {
				e, ok := evs[uid]
				if !ok {
					return "", "", false, false
				}
				return e.want, e.blank, isDeleted(e.subject), true
			}, order, r) {
				return
			}
		}
		// directly
		ee := eventencryptor.New(s.fresh(), ciph)
		raw, err := env.Collect(g.Store.Events(ctx, 0))
		if err != nil {
			fail("raw", "%v", err)
			return
		}
		for _, rec := range raw {
			e := evs[metaUID(rec)]
			if e == nil {
				fail("raw", "unknown record %v", metaUID(rec))
				return
			}
			event := rec.Data.(rangedb.Event)
			err := ee.Decrypt(event)
			got := env.Canon(event)
			if isDeleted(e.subject) {
				if !errors.Is(err, crypto.ErrKeyWasDeleted) || noCipher(got) != e.blank {
					fail("not-shredded", "Decrypt of an event of the deleted subject %s: error %v, event %s, expected %s", e.subject, err, got, e.blank)
					return
				}
				t.Count("shredded events seen", 1)
			} else if err != nil || got != e.want {
				fail("others-affected", "Decrypt of an event of %s, whose key is present: error %v, event %s, expected %s", e.subject, err, got, e.want)
				return
			}
		}
	}
	t.Distinct(fmt.Sprint("shred", kind, engine, len(deleted)))
}

// blanked is an event whose subject was deleted.
func blanked(ev rangedb.Event) rangedb.Event {
	switch e := ev.(type) {
	case *env.PersonA:
		c := *e
		c.Name, c.Email = "", ""
		return &c
	case *env.PersonB:
		c := *e
		c.Num, c.NumEncrypted, c.Text = 0, "", ""
		return &c
	case *cryptotest.CustomerSignedUp:
		c := *e
		c.Name, c.Email = "", ""
		return &c
	case *cryptotest.CustomerAddedBirth:
		c := *e
		c.BirthMonth, c.BirthYear = 0, 0
		return &c
	}
	return ev
}

var cipherFieldRE = regexp.MustCompile(`"(numEncrypted|BirthMonthEncrypted|BirthYearEncrypted)":"[^"]*"`)

// noCipher empties the fields that hold cipher text: what they keep after a
// deletion is unreadable and not specified.
func noCipher(s string) string { return cipherFieldRE.ReplaceAllString(s, `"$1":""`) }

// c18Read judges what readers and subscribers of the encrypting store get.
func c18Read(t *core.T, fail func(string, string, ...interface{}), ctx context.Context, st, raw rangedb.Store, info func(string) (want, blank string, deleted, ok bool), order []string, r *rand.Rand) bool {
	streams := map[string][]*rangedb.Record{}
	recs, err := env.Collect(raw.Events(ctx, 0))
	if err != nil {
		fail("raw", "%v", err)
		return false
	}
	for _, rec := range recs {
		n := rec.AggregateType + "!" + rec.AggregateID
		streams[n] = append(streams[n], rec)
	}
	judge := func(what string, it rangedb.RecordIterator, sel []*rangedb.Record) bool {
		i := 0
		for it.Next() {
			if it.Err() != nil {
				break
			}
			rec := it.Record()
			if rec == nil || i >= len(sel) {
				fail("reader", "%s: record %d of %d is %v", what, i, len(sel), rec)
				return false
			}
			want, _, del, _ := info(metaUID(sel[i]))
			if del {
				fail("not-reported", "%s yields an event of a deleted subject without an error: %s", what, env.Canon(rec.Data))
				return false
			}
			if got := env.Canon(rec.Data); got != want {
				fail("others-affected", "%s shows %s, saved was %s", what, got, want)
				return false
			}
			i++
		}
		err := it.Err()
		if i < len(sel) {
			_, _, del, _ := info(metaUID(sel[i]))
			if !del || !errors.Is(err, crypto.ErrKeyWasDeleted) {
				fail("others-affected", "%s ended after %d of %d records with %v; the next subject's key is deleted: %v", what, i, len(sel), err, del)
				return false
			}
			t.Count("reads that reported a deletion", 1)
			return true
		}
		if err != nil {
			fail("others-affected", "%s reads no deleted subject and ended with %v", what, err)
			return false
		}
		t.Count("reads without deleted subjects", 1)
		return true
	}
	if !judge("Events", st.Events(ctx, 0), recs) {
		return false
	}
	for n, sel := range streams {
		if !judge("stream "+n, st.EventsByStream(ctx, 0, n), sel) {
			return false
		}
	}
	// subscribers: catch-up of everything
	var mu sync.Mutex
	var got []string
	rec := env.NewRecorder()
	rec.OnRec = func(n int, x *rangedb.Record) {
		mu.Lock()
		got = append(got, env.Canon(x.Data))
		mu.Unlock()
	}
	sub := st.AllEventsSubscription(ctx, 5000, rec)
	if err := sub.StartFrom(0); err != nil {
		fail("subscribe", "%v", err)
		return false
	}
	rec.WaitLen(len(recs), 10*time.Second)
	sub.Stop()
	mu.Lock()
	defer mu.Unlock()
	if len(got) != len(recs) {
		fail("subscriber", "a subscriber received %d of %d records", len(got), len(recs))
		return false
	}
	for i, x := range recs {
		want, blank, del, _ := info(metaUID(x))
		if del {
			want = blank
			got[i] = noCipher(got[i])
		}
		if got[i] != want {
			fail("subscriber", "a subscriber received %s, expected %s (key deleted: %v)", got[i], want, del)
			return false
		}
	}
	t.Count("records judged at subscribers", len(recs))
	return true
}
