package main

import (
	"bytes"
	caes "crypto/aes"
	"crypto/cipher"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"

	"golang.org/x/crypto/chacha20poly1305"

	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/aes"
	"github.com/inklabs/rangedb/pkg/crypto/eventencryptor"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"
	"github.com/inklabs/rangedb/pkg/crypto/xchacha20poly1305"

	"rangedbverif/core"
	"rangedbverif/env"
)

func init() { checks["C17"] = c17 }

// cipherKind is one engine with its own reference implementation.
type cipherKind struct {
	name     string
	make     func() crypto.Encryptor
	sizes    []int
	nonce    int
	overhead int
	auth     bool
	// open decrypts raw bytes with the standard library
	open func(key, raw []byte) ([]byte, error)
	// seal encrypts with the standard library
	seal func(key, nonce, plain []byte) []byte
}

func aead(name string, key []byte) cipher.AEAD {
	if name == "gcm" {
		b, err := caes.NewCipher(key)
		if err != nil {
			panic(err)
		}
		a, err := cipher.NewGCM(b)
		if err != nil {
			panic(err)
		}
		return a
	}
	a, err := chacha20poly1305.NewX(key)
	if err != nil {
		panic(err)
	}
	return a
}

func aeadKind(name string, mk func() crypto.Encryptor, sizes []int, nonce int) *cipherKind {
	return &cipherKind{name: name, make: mk, sizes: sizes, nonce: nonce, overhead: 16, auth: true,
		open: func(key, raw []byte) ([]byte, error) { return aead(name, key).Open(nil, raw[:nonce], raw[nonce:], nil) },
		seal: func(key, n, plain []byte) []byte { return aead(name, key).Seal(append([]byte{}, n...), n, plain, nil) },
	}
}

var cipherKinds = []*cipherKind{
	aeadKind("gcm", func() crypto.Encryptor { return aes.NewGCM() }, []int{16, 24, 32}, 12),
	aeadKind("xchacha", func() crypto.Encryptor { return xchacha20poly1305.New() }, []int{32}, 24),
	{name: "cbc", make: func() crypto.Encryptor { return aes.NewCBCPKCS5Padding() }, sizes: []int{16, 24, 32}, nonce: 16, overhead: 0,
		open: func(key, raw []byte) ([]byte, error) {
			b, err := caes.NewCipher(key)
			if err != nil {
				return nil, err
			}
			if len(raw) < 32 || len(raw)%16 != 0 {
				return nil, fmt.Errorf("%d bytes", len(raw))
			}
			out := make([]byte, len(raw)-16)
			cipher.NewCBCDecrypter(b, raw[:16]).CryptBlocks(out, raw[16:])
			n := int(out[len(out)-1])
			if n < 1 || n > 16 || !bytes.HasSuffix(out, bytes.Repeat([]byte{byte(n)}, n)) {
				return nil, errors.New("padding")
			}
			return out[:len(out)-n], nil
		},
		seal: func(key, nonce, plain []byte) []byte {
			b, err := caes.NewCipher(key)
			if err != nil {
				panic(err)
			}
			n := 16 - len(plain)%16
			p := append(append([]byte{}, plain...), bytes.Repeat([]byte{byte(n)}, n)...)
			out := make([]byte, len(p))
			cipher.NewCBCEncrypter(b, nonce).CryptBlocks(out, p)
			return append(append([]byte{}, nonce...), out...)
		},
	},
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func c17(t *core.T) {
	t.SetRule("for each cipher, key size and text (all lengths around block sizes, binary, Unicode, long): round trip, agreement with an independent implementation in both directions, fresh nonce or IV for every encryption also under concurrent use, every byte modified, every truncation and extension, other keys, invalid keys of every length, invalid encodings, arbitrary strings, and failing or short random sources. Non-trivial: a cipher text or malformed input was judged; distinct by cipher, key size, text and mutation")
	j := &jobs{t: t}
	for _, k := range cipherKinds {
		k := k
		j.add(t.N(2000, 30000), k.name+"-text", func(t *core.T, name string, r *rand.Rand) { c17Text(t, name, k, r) })
		j.add(t.N(200, 4000), k.name+"-concurrent", func(t *core.T, name string, r *rand.Rand) { c17Concurrent(t, name, k, r) })
		j.add(t.N(1500, 20000), k.name+"-keys", func(t *core.T, name string, r *rand.Rand) { c17Keys(t, name, k, r) })
		j.add(t.N(1500, 20000), k.name+"-garbage", func(t *core.T, name string, r *rand.Rand) { c17Garbage(t, name, k, r) })
		if k.auth {
			j.add(t.N(500, 8000), k.name+"-random", func(t *core.T, name string, r *rand.Rand) { c17Random(t, name, k, r) })
		}
	}
	j.add(t.N(400, 5000), "keygen", c17KeyGen)
	j.run(8)
}

func cipherText(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		b := make([]byte, r.Intn(70))
		r.Read(b)
		return string(b)
	case 2:
		return env.RandText(r, 1+r.Intn(40))
	case 3: // ends in what looks like padding
		n := 1 + r.Intn(16)
		return strings.Repeat("x", r.Intn(33)) + strings.Repeat(string(rune(n)), n)
	case 4:
		b := make([]byte, []int{15, 16, 17, 31, 32, 33, 255, 256, 1023, 4096, 65537}[r.Intn(11)])
		r.Read(b)
		return string(b)
	default:
		return fmt.Sprintf("user%d@example.com", r.Intn(1000))
	}
}

func c17Key(r *rand.Rand, k *cipherKind) []byte {
	key := make([]byte, k.sizes[r.Intn(len(k.sizes))])
	r.Read(key)
	return key
}

// tryDecrypt runs Decrypt and turns a panic into a violation.
func tryCipher(t *core.T, name, what string, f func() (string, error)) (s string, err error, ok bool) {
	if p := core.Try(func() { s, err = f() }); p != "" {
		t.Fail(name, "panic", "%s panicked: %s", what, p)
		return "", nil, false
	}
	return s, err, true
}

func c17Text(t *core.T, name string, k *cipherKind, r *rand.Rand) {
	e := k.make()
	key := c17Key(r, k)
	text := cipherText(r)
	fail := func(key2, f string, a ...interface{}) {
		t.Fail(name, key2, "[%s, %d byte key, text %s] %s", k.name, len(key), clip(fmt.Sprintf("%q", text)), fmt.Sprintf(f, a...))
	}
	enc := func() ([]byte, bool) {
		s, err, ok := tryCipher(t, name, "Encrypt", func() (string, error) { return e.Encrypt(b64(key), text) })
		if !ok {
			return nil, false
		}
		if err != nil {
			fail("encrypt", "Encrypt: %v", err)
			return nil, false
		}
		raw, err := base64.StdEncoding.DecodeString(s)
		if err != nil {
			fail("encoding", "the cipher text %s is not base64: %v", clip(s), err)
			return nil, false
		}
		return raw, true
	}
	dec := func(raw []byte) (string, error, bool) {
		return tryCipher(t, name, fmt.Sprintf("Decrypt of %x", raw), func() (string, error) { return e.Decrypt(b64(key), b64(raw)) })
	}
	raw, ok := enc()
	if !ok {
		return
	}
	raw2, ok := enc()
	if !ok {
		return
	}
	if bytes.Equal(raw, raw2) || bytes.Equal(raw[:k.nonce], raw2[:k.nonce]) {
		fail("nonce-reused", "two encryptions used the same nonce %x", raw[:k.nonce])
		return
	}
	if len(text) >= 8 && bytes.Contains(raw, []byte(text)) {
		fail("plain", "the cipher text contains the text")
		return
	}
	for _, x := range [][]byte{raw, raw2} {
		got, err, ok := dec(x)
		if !ok {
			return
		}
		if err != nil || got != text {
			fail("round-trip", "decrypted %s, %v", clip(fmt.Sprintf("%q", got)), err)
			return
		}
		if p, err := k.open(key, x); err != nil || string(p) != text {
			fail("not-the-cipher", "an independent implementation opens it as %s, %v", clip(fmt.Sprintf("%q", p)), err)
			return
		}
	}
	nonce := make([]byte, k.nonce)
	r.Read(nonce)
	if got, err, ok := dec(k.seal(key, nonce, []byte(text))); !ok || err != nil || got != text {
		fail("not-the-cipher", "a cipher text of an independent implementation decrypts to %s, %v", clip(fmt.Sprintf("%q", got)), err)
		return
	}
	t.Count("round_trips", 3)
	t.Distinct(fmt.Sprintf("%s/%d/%s", k.name, len(key), clip(text)))
	// mutations
	muts := 0
	judge := func(what string, x []byte) bool {
		muts++
		got, err, ok := dec(x)
		if !ok {
			return false
		}
		if k.auth && err == nil {
			fail("forged", "%s was accepted as %s", what, clip(fmt.Sprintf("%q", got)))
			return false
		}
		if err != nil && got != "" {
			fail("text-with-error", "%s: error %v together with text %s", what, err, clip(fmt.Sprintf("%q", got)))
			return false
		}
		return true
	}
	step := 1
	if len(raw) > 300 {
		step = len(raw) / 150
	}
	for i := 0; i < len(raw); i += step {
		x := append([]byte{}, raw...)
		x[i] ^= 1 << uint(r.Intn(8))
		if !judge(fmt.Sprintf("the cipher text with a bit of byte %d flipped", i), x) {
			return
		}
		if !judge(fmt.Sprintf("the first %d bytes of the cipher text", i), raw[:i]) {
			return
		}
	}
	for i := 1; i <= 16 && i <= len(raw); i++ { // the tag, bit by bit
		x := append([]byte{}, raw...)
		x[len(x)-i] ^= byte(1 + r.Intn(255))
		if !judge(fmt.Sprintf("the cipher text with byte %d from its end changed", i), x) || !judge(fmt.Sprintf("the cipher text without its last %d bytes", i), raw[:len(raw)-i]) || !judge(fmt.Sprintf("the cipher text without its first %d bytes", i), raw[i:]) {
			return
		}
	}
	for i := 0; i < 6; i++ {
		ext := make([]byte, 1+r.Intn(33))
		r.Read(ext)
		if !judge("an extended cipher text", append(append([]byte{}, raw...), ext...)) || !judge("a cipher text with bytes in front", append(append([]byte{}, ext...), raw...)) {
			return
		}
	}
	// swapped nonces, spliced bodies
	if len(text) > 0 {
		if !judge("a cipher text with the nonce of another", append(append([]byte{}, raw2[:k.nonce]...), raw[k.nonce:]...)) {
			return
		}
	}
	// other keys
	for i := 0; i < 8; i++ {
		other := append([]byte{}, key...)
		switch i % 3 {
		case 0:
			other[r.Intn(len(other))] ^= 1 << uint(r.Intn(8))
		case 1:
			other = c17Key(r, k)
		default:
			other = other[:k.sizes[r.Intn(len(k.sizes))]%(len(other)+1)]
			valid := false
			for _, n := range k.sizes {
				valid = valid || n == len(other)
			}
			if !valid || len(other) == len(key) {
				continue
			}
		}
		got, err, ok := tryCipher(t, name, "Decrypt with another key", func() (string, error) { return e.Decrypt(b64(other), b64(raw)) })
		if !ok {
			return
		}
		if k.auth && err == nil || err == nil && len(text) > 8 && got == text {
			fail("other-key", "another key decrypts it to %s", clip(fmt.Sprintf("%q", got)))
			return
		}
		if err != nil && got != "" {
			fail("text-with-error", "another key: error %v together with text", err)
			return
		}
		muts++
	}
	t.Count("mutations", muts)
}

func c17Concurrent(t *core.T, name string, k *cipherKind, r0 *rand.Rand) {
	e := k.make()
	key := c17Key(r0, k)
	var mu sync.Mutex
	seen := map[string]bool{}
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		r := t.Rand(fmt.Sprintf("%s/%d", name, w))
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			t.Guard(name, func() {
				for i := 0; i < 40; i++ {
					text := fmt.Sprintf("%d-%d-%s", w, i, env.RandText(r, r.Intn(20)))
					s, err := e.Encrypt(b64(key), text)
					if err != nil {
						t.Fail(name, "encrypt", "[%s] concurrent Encrypt: %v", k.name, err)
						return
					}
					raw, _ := base64.StdEncoding.DecodeString(s)
					if len(raw) < k.nonce {
						t.Fail(name, "encoding", "[%s] cipher text of %d bytes", k.name, len(raw))
						return
					}
					mu.Lock()
					dup := seen[string(raw[:k.nonce])]
					seen[string(raw[:k.nonce])] = true
					mu.Unlock()
					if dup {
						t.Fail(name, "nonce-reused", "[%s] a nonce was used twice: %x", k.name, raw[:k.nonce])
						return
					}
					if got, err := e.Decrypt(b64(key), s); err != nil || got != text {
						t.Fail(name, "round-trip", "[%s] concurrent round trip of %q: %q, %v", k.name, text, got, err)
						return
					}
				}
			})
		}(w)
	}
	wg.Wait()
	t.Count("nonces", len(seen))
	t.Distinct(fmt.Sprintf("%s/concurrent/%x", k.name, key[:4]))
}

func c17Keys(t *core.T, name string, k *cipherKind, r *rand.Rand) {
	e := k.make()
	good := c17Key(r, k)
	text := "secret-" + env.RandText(r, 10)
	ct, err := e.Encrypt(b64(good), text)
	if err != nil {
		t.Fail(name, "encrypt", "[%s] %v", k.name, err)
		return
	}
	for i := 0; i < 6; i++ {
		var bad string
		switch r.Intn(4) {
		case 0, 1: // wrong length
			n := r.Intn(70)
			ok := false
			for _, s := range k.sizes {
				ok = ok || s == n
			}
			if ok {
				continue
			}
			b := make([]byte, n)
			r.Read(b)
			if n < len(good) {
				copy(b, good)
			} else {
				copy(b, good)
			}
			bad = b64(b)
		case 2: // not base64
			g := b64(good)
			bad = []string{g[:len(g)-1], g + "=", "*" + g[1:], " " + g, g[:5] + "-" + g[6:], string(good), "invalid", "====", g[:4] + "=" + g[5:]}[r.Intn(9)]
			if _, err := base64.StdEncoding.DecodeString(bad); err == nil {
				continue
			}
		case 3:
			bad = ""
		}
		s, err, ok := tryCipher(t, name, fmt.Sprintf("Encrypt with key %q", bad), func() (string, error) { return e.Encrypt(bad, text) })
		if !ok {
			return
		}
		if err == nil || s != "" && strings.Contains(s, text) {
			t.Fail(name, "bad-key", "[%s] Encrypt with the invalid key %q returned %q, %v", k.name, bad, s, err)
			return
		}
		s, err, ok = tryCipher(t, name, fmt.Sprintf("Decrypt with key %q", bad), func() (string, error) { return e.Decrypt(bad, ct) })
		if !ok {
			return
		}
		if err == nil || s != "" {
			t.Fail(name, "bad-key", "[%s] Decrypt with the invalid key %q returned %q, %v", k.name, bad, s, err)
			return
		}
		t.Count("invalid_keys", 1)
		t.Distinct(fmt.Sprintf("%s/key/%q", k.name, bad))
	}
}

func c17Garbage(t *core.T, name string, k *cipherKind, r *rand.Rand) {
	e := k.make()
	key := c17Key(r, k)
	for i := 0; i < 20; i++ {
		var in string
		switch r.Intn(5) {
		case 0:
			b := make([]byte, r.Intn(100))
			r.Read(b)
			in = b64(b)
		case 1:
			b := make([]byte, r.Intn(40))
			r.Read(b)
			in = string(b)
		case 2:
			in = env.RandText(r, r.Intn(60))
		case 3:
			in = strings.Repeat("A", r.Intn(90)) + strings.Repeat("=", r.Intn(4))
		case 4:
			b := bytes.Repeat([]byte{byte(r.Intn(20))}, 16*r.Intn(6))
			in = b64(b)
		}
		got, err, ok := tryCipher(t, name, fmt.Sprintf("Decrypt of %q", in), func() (string, error) { return e.Decrypt(b64(key), in) })
		if !ok {
			return
		}
		raw, decErr := base64.StdEncoding.DecodeString(in)
		if err == nil && (k.auth || decErr != nil || len(raw) < 32) {
			t.Fail(name, "garbage", "[%s] decrypting %q succeeded: %q", k.name, in, got)
			return
		}
		if err != nil && got != "" {
			t.Fail(name, "text-with-error", "[%s] decrypting %q: error %v together with text %q", k.name, in, err, got)
			return
		}
		t.Count("garbage", 1)
		t.Distinct(fmt.Sprintf("%s/garbage/%q", k.name, in))
	}
}

// sourceReader is a random source that counts, fails and delivers in pieces.
type sourceReader struct {
	mu   sync.Mutex
	r    *rand.Rand
	left int // bytes until it fails; -1: never
	step int
	out  []byte
}

func (s *sourceReader) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.left == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if s.step > 0 && n > s.step {
		n = s.step
	}
	if s.left > 0 && n > s.left {
		n = s.left
	}
	s.r.Read(p[:n])
	s.out = append(s.out, p[:n]...)
	if s.left > 0 {
		s.left -= n
	}
	return n, nil
}

func c17Random(t *core.T, name string, k *cipherKind, r *rand.Rand) {
	e := k.make()
	src := &sourceReader{r: rand.New(rand.NewSource(r.Int63())), left: -1, step: r.Intn(5)}
	set, ok := e.(interface{ SetRandReader(io.Reader) })
	if !ok {
		return
	}
	if r.Intn(2) == 0 {
		src.left = r.Intn(4 * k.nonce)
	}
	set.SetRandReader(src)
	key := c17Key(r, k)
	seen := map[string]bool{}
	for i := 0; i < 6; i++ {
		before, left := len(src.out), src.left
		text := cipherText(r)
		s, err, ok := tryCipher(t, name, "Encrypt", func() (string, error) { return e.Encrypt(b64(key), text) })
		if !ok {
			return
		}
		if left >= 0 && left < k.nonce {
			if err == nil || s != "" {
				t.Fail(name, "weak-nonce", "[%s] the random source failed after %d of %d bytes, Encrypt returned %s, %v", k.name, left, k.nonce, clip(s), err)
				return
			}
			t.Count("source_failures", 1)
			t.Distinct(fmt.Sprintf("%s/source/%d/%d", k.name, left, src.step))
			return
		}
		if err != nil {
			t.Fail(name, "encrypt", "[%s] %v", k.name, err)
			return
		}
		raw, _ := base64.StdEncoding.DecodeString(s)
		if len(raw) < k.nonce || len(src.out)-before < k.nonce || !bytes.Contains(src.out[before:], raw[:k.nonce]) || seen[string(raw[:k.nonce])] {
			t.Fail(name, "weak-nonce", "[%s] the nonce of %x does not come from the %d fresh random bytes", k.name, raw, len(src.out)-before)
			return
		}
		seen[string(raw[:k.nonce])] = true
		t.Count("nonces_traced", 1)
		t.Distinct(fmt.Sprintf("%s/source/%d/%d/%d", k.name, left, src.step, len(text)))
	}
}

type recStore struct {
	crypto.KeyStore
	mu   sync.Mutex
	keys []string
}

func (s *recStore) Set(id, key string) error {
	s.mu.Lock()
	s.keys = append(s.keys, key)
	s.mu.Unlock()
	return s.KeyStore.Set(id, key)
}

// c17KeyGen watches the keys that the event encryptor makes.
func c17KeyGen(t *core.T, name string, r *rand.Rand) {
	ks := &recStore{KeyStore: inmemorykeystore.New()}
	ee := eventencryptor.New(ks, aes.NewGCM())
	fail := -1
	src := &sourceReader{r: rand.New(rand.NewSource(r.Int63())), left: -1, step: r.Intn(9)}
	if r.Intn(2) == 0 {
		fail = r.Intn(100)
		src.left = fail
	}
	ee.SetRandReader(src)
	for i := 0; i < 5; i++ {
		left := src.left
		before := len(ks.keys)
		from := len(src.out)
		ev := &env.PersonA{T: "p", ID: fmt.Sprint("s", i), UID: "u", Name: "Jane", Email: "jane@example.com"}
		err := ee.Encrypt(ev)
		if left >= 0 && left < 32 {
			if err == nil || len(ks.keys) > before {
				t.Fail(name, "weak-key", "the random source failed after %d of 32 bytes, Encrypt returned %v, keys made: %d", left, err, len(ks.keys)-before)
			}
			if ev.Name != "Jane" {
				t.Fail(name, "weak-key", "a failed Encrypt changed the event: %+v", ev)
			}
			t.Count("source_failures", 1)
			t.Distinct(fmt.Sprintf("keygen/%d/%d", left, src.step))
			return
		}
		if err != nil || len(ks.keys) != before+1 {
			t.Fail(name, "encrypt", "%v, keys made: %d", err, len(ks.keys)-before)
			return
		}
		raw, err := base64.StdEncoding.DecodeString(ks.keys[before])
		if err != nil || len(raw) != 32 || !bytes.Contains(src.out[from:], raw) {
			t.Fail(name, "weak-key", "the key %q is not 32 fresh random bytes (%v)", ks.keys[before], err)
			return
		}
		t.Count("keys_traced", 1)
		t.Distinct(fmt.Sprintf("keygen/%d/%d/%d", left, src.step, i))
	}
}
