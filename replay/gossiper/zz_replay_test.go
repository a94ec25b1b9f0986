package gossiper

// Concrete replay of undischarged gossiper obligations against the real code:
// real keys, recorded network, adversarial histories and forced interleavings.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	gocrypto "crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/hex"

	"github.com/herumi/bls-go-binary/bls"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
)

type obj = definition.Gossip_object

type post struct {
	url  string
	body []byte
}

type recorder struct {
	sync.Mutex
	posts []post
}

func (r *recorder) RoundTrip(q *http.Request) (*http.Response, error) {
	b, _ := io.ReadAll(q.Body)
	r.Lock()
	r.posts = append(r.posts, post{q.URL.String(), b})
	r.Unlock()
	return &http.Response{StatusCode: 200, Status: "200 OK", Body: io.NopCloser(strings.NewReader("")), Header: http.Header{}, Request: q}, nil
}
func (r *recorder) all() []post {
	r.Lock()
	defer r.Unlock()
	return append([]post(nil), r.posts...)
}
func (r *recorder) settle() []post {
	n := -1
	for i := 0; i < 100; i++ {
		p := r.all()
		if len(p) == n {
			return p
		}
		n = len(p)
		time.Sleep(6 * time.Millisecond)
	}
	return r.all()
}

type world struct {
	ids []crypto.CTngID
	cfg []*crypto.CryptoConfig
}

func newWorld(t *testing.T, threshold int) *world {
	ids := []crypto.CTngID{"localhost:8080", "localhost:8081", "localhost:8082", "localhost:8083", "localhost:9100"}
	n := threshold
	if n < 2 {
		n = 2
	}
	_, pubs, privs, err := crypto.GenerateThresholdKeypairs(ids, n)
	if err != nil {
		t.Skip(err)
	}
	w := &world{ids: ids}
	pm := crypto.RSAPublicMap{}
	var sks []*rsa.PrivateKey
	for _, id := range ids {
		k, _ := rsa.GenerateKey(rand.Reader, 1024)
		sks = append(sks, k)
		pm[id] = k.PublicKey
	}
	for i, id := range ids {
		w.cfg = append(w.cfg, &crypto.CryptoConfig{Threshold: threshold, N: len(ids), HashScheme: crypto.SHA256, SignScheme: "rsa", ThresholdScheme: "bls",
			SelfID: id, SignPublicMap: pm, SignSecretKey: *sks[i], ThresholdPublicMap: pubs, ThresholdSecretKey: privs[id]})
	}
	return w
}

func (w *world) node(wait int) (*GossiperContext, *recorder) {
	r := &recorder{}
	c := &GossiperContext{
		Gossiper_private_config: &Gossiper_private_config{Connected_Gossipers: []string{"localhost:1", "localhost:2", "localhost:3"}, Owner_URL: "localhost:9", Port: "0"},
		Gossiper_public_config:  &Gossiper_public_config{Gossip_wait_time: wait, MMD: 60, MRD: 60},
		Gossiper_crypto_config:  w.cfg[0],
		Gossip_object_storage:   InitializeGossipObjectStorage(),
		Gossip_blacklist:        InitializeGossipBlacklist(),
		Gossiper_log:            InitializeGossiperLog(),
		StorageID:               "zz", StorageFile: "zz.json", StorageDirectory: "./",
		Client:                 &http.Client{Transport: r},
		Optimization_threshold: 1 << 30,
		Total_CA:               1 << 20,
	}
	return c, r
}

func (w *world) rsa(i int, m string) string {
	h := sha256.Sum256([]byte(m))
	s, _ := rsa.SignPKCS1v15(rand.Reader, &w.cfg[i].SignSecretKey, gocrypto.SHA256, h[:])
	return fmt.Sprintf(`{"sig":"%s","id":"%s"}`, hex.EncodeToString(s), w.ids[i])
}
func (w *world) frag(i int, m string) string {
	return fmt.Sprintf(`{"sign":"%s","id":"%s"}`, w.cfg[i].ThresholdSecretKey.Sign(m).SerializeToHexStr(), w.ids[i])
}
func (w *world) agg(m string, who ...int) string {
	var ss []bls.Sign
	ids := []string{}
	for _, i := range who {
		ss = append(ss, *w.cfg[i].ThresholdSecretKey.Sign(m))
		ids = append(ids, string(w.ids[i]))
	}
	var a bls.Sign
	if len(ss) > 0 {
		a.Aggregate(ss)
	}
	b, _ := json.Marshal(ids)
	return fmt.Sprintf(`{"sign":"%s", "ids":%s}`, a.SerializeToHexStr(), b)
}

func mk(ty, period, signer, sig string, p [3]string) obj {
	g := obj{Application: "CTng", Period: period, Type: ty, Signer: signer, Payload: p, Crypto_Scheme: "rsa", Timestamp: "t"}
	g.Signature[0] = sig
	return g
}

// single-signer statement of entity i
func (w *world) stmt(ty, period string, i int, v string) obj {
	p := [3]string{string(w.ids[i]), v, "h"}
	return mk(ty, period, p[0], w.rsa(i, p[0]+p[1]+p[2]), p)
}

// accusation by entity i of entity j
func (w *world) acc(period string, i, j int) obj {
	p := [3]string{string(w.ids[j]), "", ""}
	return mk(definition.ACC_INIT, period, string(w.ids[i]), w.rsa(i, p[0]+p[1]+p[2]), p)
}
func (w *world) fr(ty, period string, i int, p [3]string) obj {
	return mk(ty, period, string(w.ids[i]), w.frag(i, p[0]+p[1]+p[2]), p)
}
func (w *world) full(ty, period string, p [3]string, who ...int) obj {
	return mk(ty, period, "", w.agg(p[0]+p[1]+p[2], who...), p)
}
func (w *world) con(period string, i int, a, b string) obj {
	g := mk(definition.CON_INIT, period, "", w.rsa(i, a), [3]string{string(w.ids[i]), a, b})
	g.Signature[1] = w.rsa(i, b)
	return g
}

var inits = []string{definition.STH_INIT, definition.REV_INIT}
var frags = []string{definition.STH_FRAG, definition.REV_FRAG, definition.ACC_FRAG}
var fulls = []string{definition.STH_FULL, definition.REV_FULL, definition.ACC_FULL}

// every kind of object about entity 4, valid ones first
func (w *world) objects(period string) []obj {
	e := string(w.ids[4])
	var o []obj
	for _, ty := range inits {
		o = append(o, w.stmt(ty, period, 4, "v"+ty[len(ty)-3:]))
	}
	o = append(o, w.acc(period, 1, 4), w.acc(period, 2, 4))
	for k, ty := range frags {
		p := [3]string{e, "v", "h"}
		if k == 2 {
			p = [3]string{e, "", ""}
		}
		for i := 1; i < 4; i++ {
			o = append(o, w.fr(ty, period, i, p))
		}
	}
	for k, ty := range fulls {
		p := [3]string{e, "v", "h"}
		if k == 2 {
			p = [3]string{e, "", ""}
		}
		o = append(o, w.full(ty, period, p, 0, 1, 2), w.full(ty, period, p, 1, 2, 3, 0))
	}
	o = append(o, w.con(period, 4, e+"a", e+"b"))
	return o
}

func (w *world) mutants(g obj) []obj {
	var o []obj
	m := func(f func(*obj)) {
		x := g
		f(&x)
		o = append(o, x)
	}
	m(func(x *obj) { x.Payload[0] = string(w.ids[3]) })
	m(func(x *obj) { x.Payload[0] = "" })
	m(func(x *obj) { x.Payload[1] += "x" })
	m(func(x *obj) { x.Payload[2] += "x" })
	m(func(x *obj) { x.Payload[1], x.Payload[2] = x.Payload[2], x.Payload[1] })
	m(func(x *obj) { x.Signer = string(w.ids[2]) })
	m(func(x *obj) { x.Signer = "nobody" })
	m(func(x *obj) { x.Signature[0] = "" })
	m(func(x *obj) { x.Signature[0] = "{" })
	m(func(x *obj) { x.Signature[0], x.Signature[1] = x.Signature[1], x.Signature[0] })
	for _, ty := range append(append(append([]string{definition.ACC_INIT, definition.CON_INIT}, inits...), frags...), fulls...) {
		m(func(x *obj) { x.Type = ty })
	}
	return o
}

func endpoint(g obj) string { return "/gossip/x" }

func deliver(c *GossiperContext, g obj) (stuck bool) {
	b, _ := json.Marshal(g)
	done := make(chan bool)
	go func() {
		defer func() { recover(); close(done) }()
		Gossip_object_handler(c, httptest.NewRecorder(), httptest.NewRequest("POST", "/gossip/x", bytes.NewReader(b)))
	}()
	select {
	case <-done:
		return false
	case <-time.After(10 * time.Second):
		return true
	}
}

func js(x any) string { b, _ := json.Marshal(x); return string(b) }

func ok(c *GossiperContext, g obj) bool { return g.Verify(c.Gossiper_crypto_config) == nil }

func gid(g obj) definition.Gossip_ID {
	return definition.Gossip_ID{Period: g.Period, Type: g.Type, Entity_URL: g.Payload[0]}
}

func single(c *GossiperContext) map[string]map[definition.Gossip_ID]obj {
	s := c.Gossip_object_storage
	return map[string]map[definition.Gossip_ID]obj{definition.STH_INIT: s.STH_INIT, definition.REV_INIT: s.REV_INIT, definition.ACC_INIT: s.ACC_INIT, definition.CON_INIT: s.CON_INIT,
		definition.STH_FULL: s.STH_FULL, definition.REV_FULL: s.REV_FULL, definition.ACC_FULL: s.ACC_FULL}
}
func lists(c *GossiperContext) map[string]map[definition.Gossip_ID][]obj {
	s := c.Gossip_object_storage
	return map[string]map[definition.Gossip_ID][]obj{definition.STH_FRAG: s.STH_FRAG, definition.REV_FRAG: s.REV_FRAG, definition.ACC_FRAG: s.ACC_FRAG}
}

func gate(t *testing.T, c *GossiperContext, after string) {
	one := func(ty string, k definition.Gossip_ID, g obj) {
		if !ok(c, g) {
			t.Fatalf("after %s: the %s store holds an object that does not verify: %s", after, ty, js(g))
		}
		if g.Type != ty || gid(g) != k {
			t.Fatalf("after %s: the %s store files %s under %v", after, ty, js(g), k)
		}
	}
	for ty, m := range single(c) {
		for k, g := range m {
			one(ty, k, g)
		}
	}
	for ty, m := range lists(c) {
		for k, l := range m {
			for _, g := range l {
				one(ty, k, g)
			}
		}
	}
	for k, g := range c.Gossip_object_storage.REV_PAYLOAD {
		if !ok(c, g) || gid(g) != k {
			t.Fatalf("after %s: the payload cache files %s under %v", after, js(g), k)
		}
	}
}

func sends(t *testing.T, c *GossiperContext, r *recorder, after string) {
	for _, p := range r.settle() {
		if strings.Contains(p.url, "/gossip/new_payload") {
			continue
		}
		var g obj
		if err := json.Unmarshal(p.body, &g); err != nil || g.Type == "" {
			continue
		}
		if !ok(c, g) {
			t.Fatalf("after %s: sent to %s an object that does not verify: %s", after, p.url, p.body)
		}
	}
}

func TestReplay_P07(t *testing.T) {
	for _, th := range []int{2, 3} {
		w := newWorld(t, th)
		for _, opt := range []bool{false, true} {
			base := w.objects("5")
			for _, g := range base {
				for _, x := range append([]obj{g}, w.mutants(g)...) {
					c, r := w.node(1000)
					c.Optimization_mode = opt
					deliver(c, x)
					gate(t, c, js(x))
					sends(t, c, r, js(x))
				}
			}
			// one long history
			c, r := w.node(0)
			c.Optimization_mode = opt
			for _, g := range base {
				ms := w.mutants(g)
				for _, x := range ms {
					deliver(c, x)
				}
				deliver(c, g)
				for _, x := range ms {
					deliver(c, x)
				}
			}
			time.Sleep(50 * time.Millisecond)
			gate(t, c, "a history of valid and invalid objects")
			sends(t, c, r, "a history of valid and invalid objects")
			// what is handed out on request
			for _, g := range base {
				for _, x := range append(w.mutants(g), g) {
					c, r := w.node(1000)
					c.Optimization_threshold = 0
					c.Optimization_mode = opt
					deliver(c, x)
					gate(t, c, js(x))
					q := Gossip_Notification{Sender: "localhost:7", Period: x.Period, Type: x.Type, Entity_URL: x.Payload[0]}
					func() {
						defer func() { recover() }()
						Gossip_request_handler(c, httptest.NewRecorder(), httptest.NewRequest("POST", "/gossip/x", strings.NewReader(js(q))))
					}()
					for _, p := range r.settle() {
						var g obj
						if strings.HasPrefix(p.url, "http://localhost:7/") && json.Unmarshal(p.body, &g) == nil && !ok(c, g) {
							t.Fatalf("after %s: handed out on request an object that does not verify: %s", js(x), p.body)
						}
					}
				}
			}
		}
	}
}

func accused(c *GossiperContext, e string) bool {
	if c.Gossip_blacklist.BLACKLIST_PERM[e] {
		return true
	}
	for k := range c.Gossip_object_storage.CON_INIT {
		if k.Entity_URL == e {
			return true
		}
	}
	return false
}

func settled(t *testing.T, c *GossiperContext, g obj, what string) {
	m := c.Gossip_object_storage.STH_INIT
	if g.Type == definition.REV_INIT {
		m = c.Gossip_object_storage.REV_INIT
	}
	if accused(c, g.Payload[0]) {
		return
	}
	h, in := m[gid(g)]
	if !in {
		t.Fatalf("%s: %s was handled but is neither stored nor is its signer accused", what, js(g))
	}
	if h.Signature != g.Signature && h.Payload != g.Payload {
		t.Fatalf("%s: %s was absorbed although %s is stored; no accusation was raised", what, js(g), js(h))
	}
}

func TestReplay_P08(t *testing.T) {
	w := newWorld(t, 2)
	for _, ty := range inits {
		for _, i := range []int{4, 1} {
			a, b := w.stmt(ty, "5", i, "a"), w.stmt(ty, "5", i, "b")
			c1 := a
			c1.Payload[2], c1.Payload[1] = "h2", "a"
			c1.Signature[0] = w.rsa(i, c1.Payload[0]+c1.Payload[1]+c1.Payload[2])
			pre := [][]obj{{}, {w.acc("5", 2, i)}, {w.stmt(inits[0], "5", i, "z")}, {w.stmt(inits[1], "5", i, "z")}, {w.stmt(ty, "4", i, "z")}, {w.stmt(ty, "5", 3, "a")}, {w.con("5", 3, "p", "q")},
				{w.fr(strings.Replace(ty, "/1", "/2", 1), "5", 1, a.Payload)}, {w.full(definition.STH_FULL, "5", a.Payload, 1, 2)}, {w.full(definition.REV_FULL, "5", a.Payload, 1, 2)},
				{w.fr(definition.STH_FRAG, "5", 1, a.Payload), w.fr(definition.STH_FRAG, "5", 2, a.Payload)}, {w.fr(definition.REV_FRAG, "5", 1, a.Payload), w.fr(definition.REV_FRAG, "5", 2, a.Payload)}}
			for _, h := range pre {
				for _, s := range [][]obj{{a}, {a, b}, {b, a}, {a, c1}, {c1, a}, {a, a, b}, {a, b, c1}} {
					c, _ := w.node(1000)
					for _, x := range append(append([]obj{}, h...), s...) {
						before := map[definition.Gossip_ID]obj{}
						for _, m := range []map[definition.Gossip_ID]obj{c.Gossip_object_storage.STH_INIT, c.Gossip_object_storage.REV_INIT} {
							for k, v := range m {
								before[k] = v
							}
						}
						acc := map[string]bool{}
						for _, id := range w.ids {
							acc[string(id)] = accused(c, string(id))
						}
						deliver(c, x)
						if x.Type == definition.STH_INIT || x.Type == definition.REV_INIT {
							settled(t, c, x, "history "+js(append(h, s...)))
						}
						if x.Type == definition.CON_INIT && !accused(c, x.Payload[0]) {
							t.Fatalf("valid conflict proof had no effect: %s", js(x))
						}
						for k, v := range before {
							m := single(c)[k.Type]
							if js(m[k]) != js(v) {
								t.Fatalf("history %s: the stored statement %s was replaced by %s", js(append(h, s...)), js(v), js(m[k]))
							}
						}
						for e, was := range acc {
							if was && !accused(c, e) {
								t.Fatalf("history %s: the accusation of %s was withdrawn", js(append(h, s...)), e)
							}
						}
					}
					func() { defer func() { recover() }(); c.WipeStorage() }()
					if len(s) == 2 && len(h) == 0 && !accused(c, a.Payload[0]) {
						t.Fatalf("history %s, then the wipe: the accusation was withdrawn", js(s))
					}
				}
			}
			// racing handlers: reads of the store go on, its writers are held back until both have checked
			for n := 0; n < 30; n++ {
				c, _ := w.node(1000)
				lk := &c.Gossip_object_storage.STH_INIT_LOCK
				if ty == definition.REV_INIT {
					lk = &c.Gossip_object_storage.REV_INIT_LOCK
				}
				hold := n%3 != 0
				if hold {
					lk.RLock()
				}
				var wg sync.WaitGroup
				for _, x := range []obj{a, b} {
					x := x
					wg.Add(1)
					go func() { defer wg.Done(); deliver(c, x) }()
					if hold && n%3 == 1 {
						time.Sleep(2 * time.Millisecond)
					}
				}
				if hold {
					time.Sleep(4 * time.Millisecond)
					lk.RUnlock()
				}
				wg.Wait()
				settled(t, c, a, "two racing statements")
				settled(t, c, b, "two racing statements")
			}
		}
	}
	for _, k := range []obj{w.con("5", 4, "a", "b"), w.con("5", 1, string(w.ids[1])+"a", "")} {
		for _, h := range [][]obj{{}, {w.con("4", 4, "a", "c")}, {w.acc("5", 2, 4)}} {
			c, _ := w.node(1000)
			for _, x := range append(h, k) {
				deliver(c, x)
			}
			if !accused(c, k.Payload[0]) {
				t.Fatalf("valid conflict proof %s had no effect", js(k))
			}
		}
	}
}

func counts(c *GossiperContext, e string) string {
	n := map[string]int{}
	for ty, m := range single(c) {
		for k := range m {
			if k.Entity_URL == e {
				n[ty]++
			}
		}
	}
	for ty, m := range lists(c) {
		for k, l := range m {
			if k.Entity_URL == e {
				n[ty] += len(l) + 1
			}
		}
	}
	return js(n)
}

func TestReplay_P09(t *testing.T) {
	w := newWorld(t, 2)
	e := string(w.ids[4])
	accp := [3]string{e, "", ""}
	proofs := []obj{w.con("5", 4, e+"a", e+"b"), w.full(definition.ACC_FULL, "5", accp, 1, 2)}
	grounds := func(c *GossiperContext, seen []obj, what string) {
		for k := range c.Gossip_blacklist.BLACKLIST_PERM {
			good := false
			for _, g := range seen {
				good = good || ((g.Type == definition.CON_INIT || g.Type == definition.ACC_FULL) && g.Payload[0] == k && ok(c, g))
			}
			if !good {
				t.Fatalf("%s: %q is blacklisted although no verified proof names it", what, k)
			}
		}
	}
	for _, g := range w.objects("5") {
		for _, x := range append(w.mutants(g), g) {
			c, _ := w.node(1000)
			deliver(c, x)
			grounds(c, []obj{x}, "after "+js(x))
			if ok(c, x) && (x.Type == definition.CON_INIT || x.Type == definition.ACC_FULL) && !c.Gossip_blacklist.BLACKLIST_PERM[x.Payload[0]] {
				t.Fatalf("verified proof %s was handled but its subject is not blacklisted", js(x))
			}
		}
	}
	for _, p := range proofs {
		for _, h := range [][]obj{{}, {w.stmt(definition.STH_INIT, "5", 4, "z")}, {w.acc("5", 2, 4)}, {w.con("5", 3, "a", "b")}} {
			c, r := w.node(1000)
			for _, x := range h {
				deliver(c, x)
			}
			deliver(c, p)
			if !c.Gossip_blacklist.BLACKLIST_PERM[e] {
				t.Fatalf("verified proof %s was handled after %s but its subject is not blacklisted", js(p), js(h))
			}
			if p.Type == definition.CON_INIT {
				// the next proof against the same entity and every other object are ignored
			}
			for _, per := range []string{"5", "6"} {
				for _, x := range w.objects(per) {
					r.settle()
					n, st := len(r.all()), counts(c, e)
					deliver(c, x)
					if st != counts(c, e) {
						t.Fatalf("entity blacklisted by %s, yet %s was stored", js(p), js(x))
					}
					if q := r.settle(); len(q) != n {
						t.Fatalf("entity blacklisted by %s, yet %s was passed on to %s", js(p), js(x), q[n].url)
					}
					if !c.Gossip_blacklist.BLACKLIST_PERM[e] {
						t.Fatalf("%s removed its subject from the blacklist", js(x))
					}
				}
			}
			func() { defer func() { recover() }(); c.WipeStorage() }()
			func() { defer func() { recover() }(); c.Save() }()
			if !c.Gossip_blacklist.BLACKLIST_PERM[e] {
				t.Fatalf("the wipe removed %s from the blacklist", e)
			}
		}
	}
	// statement first, proof before the fragment is due
	for _, ty := range inits {
		for _, p := range proofs {
			c, r := w.node(1)
			deliver(c, w.stmt(ty, "5", 4, "z"))
			deliver(c, p)
			r.settle()
			n := len(r.all())
			time.Sleep(1300 * time.Millisecond)
			if q := r.settle(); len(q) != n {
				t.Fatalf("a fragment about a blacklisted entity was sent: %s", q[n].body)
			}
			for _, m := range lists(c) {
				for k, l := range m {
					if k.Entity_URL == e && len(l) > 0 {
						t.Fatalf("a fragment about a blacklisted entity was stored: %s", js(l))
					}
				}
			}
		}
	}
}

func fragInv(t *testing.T, c *GossiperContext, what string) {
	for ty, m := range lists(c) {
		for k, l := range m {
			if len(l) > c.Gossiper_crypto_config.Threshold {
				t.Fatalf("%s: %d fragments kept for %v, threshold %d", what, len(l), k, c.Gossiper_crypto_config.Threshold)
			}
			seen := map[string]bool{}
			for _, g := range l {
				if seen[g.Signer] {
					t.Fatalf("%s: signer %s counted twice for %v", what, g.Signer, k)
				}
				seen[g.Signer] = true
				if !ok(c, g) || g.Type != ty || gid(g) != k {
					t.Fatalf("%s: %v keeps a fragment that does not belong there: %s", what, k, js(g))
				}
			}
		}
	}
}

func TestReplay_P10(t *testing.T) {
	for _, th := range []int{1, 2, 3} {
		w := newWorld(t, th)
		for fi, ty := range frags {
			p := [3]string{string(w.ids[4]), "v", "h"}
			if fi == 2 {
				p = [3]string{string(w.ids[4]), "", ""}
			}
			f := make([]obj, 5)
			for i := range f {
				f[i] = w.fr(ty, "5", i, p)
			}
			re := func(i int) obj { // the same signer, a different signature string
				g := f[i]
				g.Signature[0] = strings.Replace(g.Signature[0], `{"sign"`, `{ "sign"`, 1)
				return g
			}
			dup := func(i int) obj { g := f[i]; g.Timestamp = "later"; g.Signature[1] = "x"; return g }
			forged := func(i, j int) obj { g := f[i]; g.Signer = string(w.ids[j]); return g }
			hs := [][]obj{{f[1], f[2], f[3]}, {f[1], f[1], f[2], f[3]}, {f[1], re(1), f[2]}, {f[1], dup(1), f[2], dup(2), f[3]}, {f[3], f[2], f[1], f[0]}, {forged(1, 2), f[1], f[2]}, {f[1], forged(1, 2), forged(1, 3), f[2]}, {f[0], f[1], f[2], f[3], f[4]},
				{f[1], w.fr(ty, "6", 2, p), f[2]}, {f[1], w.fr(ty, "5", 2, [3]string{string(w.ids[3]), "v", "h"}), f[2], f[3]}, {re(1), re(2), re(3), f[1], f[2]}}
			for _, h := range hs {
				c, _ := w.node(1000)
				var kept map[definition.Gossip_ID]string
				var lens map[definition.Gossip_ID]int
				for _, x := range h {
					kept, lens = map[definition.Gossip_ID]string{}, map[definition.Gossip_ID]int{}
					for _, m := range lists(c) {
						for k, l := range m {
							kept[k], lens[k] = js(l), len(l)
						}
					}
					deliver(c, x)
					fragInv(t, c, "history "+js(h))
					for k, s := range kept {
						l := lists(c)[k.Type][k]
						if len(l) < lens[k] || js(l[:lens[k]]) != s {
							t.Fatalf("history %s: kept fragments of %v changed from %s to %s", js(h), k, s, js(l))
						}
					}
				}
				full := single(c)[fulls[fi]]
				for _, g := range full {
					if g.Payload != p && g.Payload[0] == p[0] {
						t.Fatalf("history %s: full object with another payload: %s", js(h), js(g))
					}
				}
			}
			// aggregation
			func() {
				defer func() {
					if e := recover(); e != nil {
						t.Fatalf("aggregation panics: %v", e)
					}
				}()
				c, _ := w.node(1000)
				g := c.Generate_Gossip_Object_FULL(append([]obj{}, f[1:1+th]...), fulls[fi])
				if g.Type != fulls[fi] || g.Payload != p {
					t.Fatalf("aggregate of %d fragments is %s", th, js(g))
				}
				if th > 0 && !ok(c, g) {
					t.Fatalf("aggregate of %d valid fragments does not verify: %s", th, js(g))
				}
			}()
			// races: readers go on, writers held back
			locks := func(c *GossiperContext) *sync.RWMutex {
				return []*sync.RWMutex{&c.Gossip_object_storage.STH_FRAG_LOCK, &c.Gossip_object_storage.REV_FRAG_LOCK, &c.Gossip_object_storage.ACC_FRAG_LOCK}[fi]
			}
			for n := 0; n < 12; n++ {
				c, _ := w.node(1000)
				if n%2 == 0 {
					deliver(c, f[3])
				}
				lk := locks(c)
				lk.RLock()
				var wg sync.WaitGroup
				for _, x := range []obj{f[1], re(1), f[1], f[2], dup(2)} {
					x := x
					wg.Add(1)
					go func() { defer wg.Done(); deliver(c, x) }()
				}
				time.Sleep(8 * time.Millisecond)
				lk.RUnlock()
				wg.Wait()
				fragInv(t, c, "racing fragments of one signer")
			}
		}
	}
}

func lockList(c *GossiperContext) map[string]*sync.RWMutex {
	s := c.Gossip_object_storage
	return map[string]*sync.RWMutex{"STH_INIT": &s.STH_INIT_LOCK, "REV_INIT": &s.REV_INIT_LOCK, "ACC_INIT": &s.ACC_INIT_LOCK, "CON_INIT": &s.CON_INIT_LOCK, "STH_FRAG": &s.STH_FRAG_LOCK, "REV_FRAG": &s.REV_FRAG_LOCK, "ACC_FRAG": &s.ACC_FRAG_LOCK,
		"STH_FULL": &s.STH_FULL_LOCK, "REV_FULL": &s.REV_FULL_LOCK, "ACC_FULL": &s.ACC_FULL_LOCK, "REV_PAYLOAD": &s.REV_PAYLOAD_LOCK, "BLACKLIST_PERM": &c.Gossip_blacklist.BLACKLIST_PERM_LOCK}
}

func leaked(t *testing.T, c *GossiperContext, what string) {
	for n, l := range lockList(c) {
		if !l.TryLock() {
			t.Fatalf("after %s: the %s lock is still held", what, n)
		}
		l.Unlock()
	}
	for n, l := range map[string]*sync.Mutex{"received counter": &c.Counter1_lock, "sent counter": &c.Counter2_lock} {
		if !l.TryLock() {
			t.Fatalf("after %s: the %s lock is still held", what, n)
		}
		l.Unlock()
	}
}

// replay-race: P11
func TestReplay_P11(t *testing.T) {
	os.Mkdir("d", 0o755)
	w := newWorld(t, 2)
	call := func(c *GossiperContext, what string, f func()) {
		done := make(chan any, 1)
		go func() {
			defer func() { done <- recover() }()
			f()
		}()
		select {
		case p := <-done:
			if p != nil && strings.Contains(fmt.Sprint(p), "lock") {
				t.Fatalf("%s: %v", what, p)
			}
		case <-time.After(20 * time.Second):
			t.Fatalf("%s: does not return (deadlock)", what)
		}
		leaked(t, c, what)
	}
	h := func(c *GossiperContext, f func(*GossiperContext, http.ResponseWriter, *http.Request), body string) func() {
		return func() { f(c, httptest.NewRecorder(), httptest.NewRequest("POST", "/gossip/x", strings.NewReader(body))) }
	}
	getters := func(c *GossiperContext, g obj) []func() {
		var o []func()
		for _, ty := range append(append(append([]string{definition.ACC_INIT, definition.CON_INIT}, inits...), frags...), fulls...) {
			ty := ty
			id := gid(g)
			id.Type = ty
			o = append(o, func() { c.GetItemCount(id, ty) }, func() { c.GetItem(id, ty) }, func() { c.GetObjectList(id, ty) })
		}
		return append(o, func() { c.IsDuplicate(g) }, func() { c.InBlacklistPerm(g.Payload[0]) }, func() { c.InBlacklist("x") }, func() { c.IsMalicious(g) })
	}
	for _, opt := range []bool{false, true} {
		base := w.objects("5")
		c, _ := w.node(1000)
		if opt {
			c.Optimization_mode, c.Optimization_threshold = true, 10
		}
		for rep := 0; rep < 2; rep++ {
			for _, g := range base {
				for _, x := range append(w.mutants(g), g) {
					call(c, "handling "+js(x), h(c, Gossip_object_handler, js(x)))
					q := js(Gossip_Notification{Sender: "localhost:7", Period: x.Period, Type: x.Type, Entity_URL: x.Payload[0]})
					call(c, "notification "+q, h(c, Gossip_notification_handler, q))
					call(c, "request "+q, h(c, Gossip_request_handler, q))
				}
				for _, f := range getters(c, g) {
					call(c, "reading", f)
				}
			}
			for _, b := range []string{"", "{", "null", "[]", "{}"} {
				call(c, "body "+b, h(c, Gossip_object_handler, b))
				call(c, "body "+b, h(c, Gossip_notification_handler, b))
				call(c, "body "+b, h(c, Gossip_request_handler, b))
			}
			call(c, "save", func() { c.Save() })
			call(c, "wipe", func() { c.WipeStorage() })
		}
		// two deliveries of the same object that both pass the checks before either writes
		for _, g := range base {
			o, _ := w.node(1000)
			for n := range lockList(o) {
				c, _ := w.node(1000)
				l := lockList(c)[n]
				l.RLock()
				fin := make(chan bool, 4)
				for k := 0; k < 4; k++ {
					f := h(c, Gossip_object_handler, js(g))
					if k > 1 {
						f = func() { c.Store(g) }
					}
					go func() { defer func() { recover(); fin <- true }(); f() }()
				}
				time.Sleep(3 * time.Millisecond)
				l.RUnlock()
				for k := 0; k < 4; k++ {
					select {
					case <-fin:
					case <-time.After(15 * time.Second):
						t.Fatalf("concurrent deliveries of %s do not return (deadlock)", js(g))
					}
				}
				leaked(t, c, "concurrent deliveries of "+js(g))
			}
		}
		// everything at once, for the race detector
		for n := 0; n < 6; n++ {
			c, _ := w.node(0)
			if opt {
				c.Optimization_mode, c.Optimization_threshold = true, 10
			}
			var wg sync.WaitGroup
			st := make(chan bool)
			goo := func(f func()) {
				wg.Add(1)
				go func() { defer wg.Done(); defer func() { recover() }(); <-st; f() }()
			}
			for k, g := range append(w.objects("5"), w.objects("6")...) {
				goo(h(c, Gossip_object_handler, js(g)))
				goo(h(c, Gossip_object_handler, js(g)))
				o := g
				o.Payload[0] = string(w.ids[3])
				goo(h(c, Gossip_object_handler, js(o)))
				q := js(Gossip_Notification{Sender: "localhost:7", Period: g.Period, Type: g.Type, Entity_URL: g.Payload[0]})
				goo(h(c, Gossip_notification_handler, q))
				goo(h(c, Gossip_request_handler, q))
				if n%2 == 0 {
					gs := getters(c, g)
					for j := k; j < len(gs); j += 9 {
						goo(gs[j])
					}
				}
			}
			if n%3 == 2 {
				goo(func() { c.Save() })
				goo(func() { c.WipeStorage() })
			}
			close(st)
			fin := make(chan bool)
			go func() { wg.Wait(); close(fin) }()
			select {
			case <-fin:
			case <-time.After(40 * time.Second):
				t.Fatal("concurrent handlers deadlock")
			}
		}
		time.Sleep(100 * time.Millisecond)
	}
}
