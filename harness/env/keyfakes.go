package env

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/provider/dynamodbkeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/vaultkeystore"
)

// KeyFake is an HTTP server that keeps keys, as Vault or DynamoDB do.
type KeyFake struct {
	Srv *httptest.Server
	// faults: parts per thousand of the requests
	mu       sync.Mutex
	r        *rand.Rand
	rate     int
	kinds    []string
	maxDelay time.Duration
	Faults   map[string]int
	Requests map[string]int
	Log      []string
}

func newKeyFake(seed int64) *KeyFake {
	return &KeyFake{r: rand.New(rand.NewSource(seed)), Faults: map[string]int{}, Requests: map[string]int{}}
}

// SetFaults chooses how many of 1000 requests fail, how, and how long others take.
func (k *KeyFake) SetFaults(rate int, delay time.Duration, kinds ...string) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.rate, k.maxDelay, k.kinds = rate, delay, kinds
}

func (k *KeyFake) plan(op string) (fault string, d1, d2 time.Duration) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.Requests[op]++
	if k.rate > 0 && len(k.kinds) > 0 && k.r.Intn(1000) < k.rate {
		fault = k.kinds[k.r.Intn(len(k.kinds))]
		k.Faults[fault]++
	}
	if k.maxDelay > 0 {
		d1, d2 = time.Duration(k.r.Int63n(int64(k.maxDelay))), time.Duration(k.r.Int63n(int64(k.maxDelay)))
	}
	return
}

// Close stops the server.
func (k *KeyFake) Close() {
	k.Srv.CloseClientConnections()
	k.Srv.Close()
}

// serve runs act, which returns status and body, with faults around it.
// Faults: refuse and fail (error reply before or after the effect), drop and
// droplate (connection lost before or after the effect), garbage and trunc
// (effect, but a damaged reply).
func (k *KeyFake) serve(op string, w http.ResponseWriter, errStatus int, errBody string, act func() (int, string)) {
	fault, d1, d2 := k.plan(op)
	time.Sleep(d1)
	lose := func() {
		h, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			h.Close()
		}
	}
	switch fault {
	case "refuse":
		w.WriteHeader(errStatus)
		io.WriteString(w, errBody)
		return
	case "drop":
		lose()
		return
	}
	status, body := act()
	time.Sleep(d2)
	switch fault {
	case "fail":
		w.WriteHeader(errStatus)
		io.WriteString(w, errBody)
		return
	case "droplate":
		lose()
		return
	case "garbage":
		w.WriteHeader(502)
		io.WriteString(w, "<html>Bad Gateway</html>")
		return
	case "trunc":
		w.Header().Set("Content-Length", fmt.Sprint(len(body)))
		w.WriteHeader(status)
		if len(body) > 0 {
			io.WriteString(w, body[:len(body)/2])
		}
		lose()
		return
	}
	w.WriteHeader(status)
	io.WriteString(w, body)
}

type vaultSecret struct {
	version   int
	data      map[string]string
	destroyed bool
}

// NewVault starts a server that behaves like the KV v2 engine of Vault.
func NewVault(seed int64) *KeyFake {
	k := newKeyFake(seed)
	var mu sync.Mutex
	secrets := map[string][]*vaultSecret{}
	js := func(v interface{}) string {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	type m = map[string]interface{}
	k.Srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		body, _ := io.ReadAll(req.Body)
		if req.Header.Get("X-Vault-Token") != "token" {
			w.WriteHeader(403)
			io.WriteString(w, `{"errors":["permission denied"]}`)
			return
		}
		path := req.URL.EscapedPath()
		op := req.Method + " " + strings.Join(strings.Split(path+"///", "/")[1:4], "/")
		k.serve(op, w, []int{500, 503, 403, 429}[len(path)%4], `{"errors":["Vault is sealed"]}`, func() (int, string) {
			mu.Lock()
			defer mu.Unlock()
			id := func(p string) string {
				s, _ := url.PathUnescape(strings.TrimPrefix(path, p))
				return s
			}
			switch {
			case req.Method == "GET" && strings.HasPrefix(path, "/v1/secret/data/"):
				vs := secrets[id("/v1/secret/data/")]
				if len(vs) == 0 {
					return 404, `{"errors":[]}`
				}
				v := vs[len(vs)-1]
				meta := m{"created_time": time.Now().UTC().Format(time.RFC3339Nano), "deletion_time": "", "destroyed": v.destroyed, "version": v.version}
				if v.destroyed {
					return 404, js(m{"request_id": "r", "lease_id": "", "renewable": false, "lease_duration": 0, "data": m{"data": nil, "metadata": meta}, "wrap_info": nil, "warnings": nil, "auth": nil})
				}
				return 200, js(m{"request_id": "r", "lease_id": "", "renewable": false, "lease_duration": 0, "data": m{"data": v.data, "metadata": meta}, "wrap_info": nil, "warnings": nil, "auth": nil})
			case (req.Method == "POST" || req.Method == "PUT") && strings.HasPrefix(path, "/v1/secret/data/"):
				var p struct {
					Options map[string]int    `json:"options"`
					Data    map[string]string `json:"data"`
				}
				if err := json.Unmarshal(body, &p); err != nil || p.Data == nil {
					return 400, `{"errors":["no data provided"]}`
				}
				name := id("/v1/secret/data/")
				vs := secrets[name]
				if cas, ok := p.Options["cas"]; ok && cas != len(vs) {
					return 400, `{"errors":["check-and-set parameter did not match the current version"]}`
				}
				secrets[name] = append(vs, &vaultSecret{version: len(vs) + 1, data: p.Data})
				return 200, js(m{"request_id": "r", "data": m{"created_time": time.Now().UTC().Format(time.RFC3339Nano), "deletion_time": "", "destroyed": false, "version": len(vs) + 1}})
			case (req.Method == "POST" || req.Method == "PUT") && strings.HasPrefix(path, "/v1/secret/destroy/"):
				var p struct {
					Versions []int `json:"versions"`
				}
				if err := json.Unmarshal(body, &p); err != nil || len(p.Versions) == 0 {
					return 400, `{"errors":["No version number provided"]}`
				}
				for _, v := range secrets[id("/v1/secret/destroy/")] {
					for _, n := range p.Versions {
						if v.version == n {
							v.destroyed, v.data = true, nil
						}
					}
				}
				return 204, ""
			case req.Method == "DELETE" && strings.HasPrefix(path, "/v1/secret/data/"):
				// deletes only the latest version, which can be undeleted
				if vs := secrets[id("/v1/secret/data/")]; len(vs) > 0 {
					vs[len(vs)-1].data = nil
				}
				return 204, ""
			case req.Method == "DELETE" && strings.HasPrefix(path, "/v1/secret/metadata/"):
				delete(secrets, id("/v1/secret/metadata/"))
				return 204, ""
			}
			return 404, `{"errors":["no handler for route"]}`
		})
	}))
	return k
}

// VaultStore opens a key store over the server.
func (k *KeyFake) VaultStore() crypto.KeyStore {
	s, err := vaultkeystore.New(vaultkeystore.Config{Address: k.Srv.URL, Token: "token"})
	if err != nil {
		panic(err)
	}
	s.SetTransport(&http.Transport{MaxIdleConnsPerHost: 4})
	return s
}

type dynValue struct {
	S    *string `json:",omitempty"`
	N    *string `json:",omitempty"`
	B    *string `json:",omitempty"`
	BOOL *bool   `json:",omitempty"`
	NULL *bool   `json:",omitempty"`
}

type dynItem map[string]dynValue

func (i dynItem) clone() dynItem {
	if i == nil {
		return nil
	}
	c := dynItem{}
	for k, v := range i {
		c[k] = v
	}
	return c
}

// NewDynamo starts a server that behaves like DynamoDB, as far as a table of
// keys needs it: conditional puts, updates, and reads that are stale unless
// they ask for consistency.
func NewDynamo(seed int64) *KeyFake {
	k := newKeyFake(seed)
	var mu sync.Mutex
	rr := rand.New(rand.NewSource(seed + 1))
	items := map[string]dynItem{}
	old := map[string][]dynItem{}
	const invalid = "com.amazon.coral.validate#ValidationException"
	k.Srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		body, _ := io.ReadAll(req.Body)
		w.Header().Set("Content-Type", "application/x-amz-json-1.0")
		op := req.Header.Get("X-Amz-Target")
		op = op[strings.LastIndex(op, ".")+1:]
		bad := func(ty, msg string) (int, string) {
			b, _ := json.Marshal(map[string]string{"__type": ty, "message": msg})
			return 400, string(b)
		}
		k.serve(op, w, 400, `{"__type":"com.amazon.coral.service#AccessDeniedException","message":"denied"}`, func() (int, string) {
			mu.Lock()
			defer mu.Unlock()
			var in struct {
				TableName                 string
				Key, Item                 dynItem
				ConsistentRead            bool
				AttributesToGet           []string
				ProjectionExpression      string
				ConditionExpression       string
				UpdateExpression          string
				ReturnValues              string
				ExpressionAttributeNames  map[string]string
				ExpressionAttributeValues dynItem
			}
			if err := json.Unmarshal(body, &in); err != nil {
				return bad("com.amazon.coral.service#SerializationException", err.Error())
			}
			if in.TableName != "keys" {
				return bad("com.amazonaws.dynamodb.v20120810#ResourceNotFoundException", "Requested resource not found")
			}
			key := in.Key
			if op == "PutItem" {
				key = in.Item
			}
			kv := key["SubjectID"]
			if kv.S == nil || *kv.S == "" {
				return bad(invalid, "One or more parameter values are not valid")
			}
			id := *kv.S
			name := func(n string) string {
				n = strings.TrimSpace(n)
				if a, ok := in.ExpressionAttributeNames[n]; ok {
					return a
				}
				return n
			}
			cur := items[id]
			cond := func(expr string) (bool, error) {
				for _, part := range strings.Split(expr, " AND ") {
					part = strings.TrimSpace(part)
					switch {
					case part == "":
					case strings.HasPrefix(part, "attribute_not_exists(") && strings.HasSuffix(part, ")"):
						if _, ok := cur[name(part[21:len(part)-1])]; ok {
							return false, nil
						}
					case strings.HasPrefix(part, "attribute_exists(") && strings.HasSuffix(part, ")"):
						if _, ok := cur[name(part[17:len(part)-1])]; !ok {
							return false, nil
						}
					default:
						return false, fmt.Errorf("unsupported condition %q", part)
					}
				}
				return true, nil
			}
			ok, err := cond(in.ConditionExpression)
			if err != nil {
				return bad(invalid, err.Error())
			}
			if !ok {
				return bad("com.amazonaws.dynamodb.v20120810#ConditionalCheckFailedException", "The conditional request failed")
			}
			switch op {
			case "GetItem":
				it := cur
				if h := old[id]; !in.ConsistentRead && len(h) > 0 && rr.Intn(2) == 0 {
					it = h[rr.Intn(len(h))]
				}
				if it == nil {
					return 200, "{}"
				}
				attrs := in.AttributesToGet
				if in.ProjectionExpression != "" {
					for _, a := range strings.Split(in.ProjectionExpression, ",") {
						attrs = append(attrs, name(a))
					}
				}
				out := it
				if len(attrs) > 0 {
					out = dynItem{}
					for _, a := range attrs {
						if v, ok := it[a]; ok {
							out[a] = v
						}
					}
				}
				b, _ := json.Marshal(map[string]interface{}{"Item": out})
				return 200, string(b)
			case "PutItem":
				old[id] = append(old[id], cur.clone())
				items[id] = in.Item
				return 200, "{}"
			case "DeleteItem":
				old[id] = append(old[id], cur.clone())
				delete(items, id)
				return 200, "{}"
			case "UpdateItem":
				n := cur.clone()
				if n == nil {
					n = dynItem{"SubjectID": kv}
				}
				for verb, args := range dynClauses(in.UpdateExpression) {
					for _, a := range strings.Split(args, ",") {
						switch verb {
						case "SET":
							p := strings.SplitN(a, "=", 2)
							if len(p) != 2 {
								return bad(invalid, "Invalid UpdateExpression")
							}
							v, ok := in.ExpressionAttributeValues[strings.TrimSpace(p[1])]
							if !ok {
								return bad(invalid, "An expression attribute value used in expression is not defined")
							}
							n[name(p[0])] = v
						case "REMOVE":
							delete(n, name(a))
						default:
							return bad(invalid, "Invalid UpdateExpression")
						}
					}
				}
				old[id] = append(old[id], cur.clone())
				items[id] = n
				return 200, "{}"
			}
			return bad("com.amazon.coral.service#UnknownOperationException", op)
		})
	}))
	return k
}

// dynClauses splits an update expression into its clauses.
func dynClauses(s string) map[string]string {
	up := strings.ToUpper(s)
	var at []int
	for _, v := range []string{"SET ", "REMOVE ", "ADD ", "DELETE "} {
		if i := strings.Index(up, v); i == 0 || i > 0 && up[i-1] == ' ' {
			at = append(at, i)
		}
	}
	sort.Ints(at)
	out := map[string]string{}
	for i, a := range at {
		end := len(s)
		if i+1 < len(at) {
			end = at[i+1]
		}
		p := strings.SplitN(strings.TrimSpace(s[a:end]), " ", 2)
		if len(p) == 2 {
			out[strings.ToUpper(p[0])] = p[1]
		}
	}
	return out
}

var dynamoSetup sync.Mutex

// DynamoStore opens a key store over the server.
func (k *KeyFake) DynamoStore() crypto.KeyStore {
	dynamoSetup.Lock() // the AWS library sets up sessions one after another only
	defer dynamoSetup.Unlock()
	s, err := dynamodbkeystore.New(&dynamodbkeystore.Config{TableName: "keys", AWSRegion: "us-east-1", AccessKeyID: "id", SecretAccessKey: "secret", EndpointURL: k.Srv.URL})
	if err != nil {
		panic(err)
	}
	return s
}
