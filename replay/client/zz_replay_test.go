package client

// Concrete replay of undischarged client obligations against the real code:
// real keys, proofs and certificates, each condition switched off on its own.

import (
	"bytes"
	"compress/gzip"
	gocrypto "crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/herumi/bls-go-binary/bls"
	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
	"github.com/txaty/go-merkletree"
)

type obj = definition.Gossip_object

type world struct {
	ids  []crypto.CTngID
	keys []*rsa.PrivateKey
	th   []bls.SecretKey
	cfg  *crypto.CryptoConfig
}

// 0..2 gossipers (threshold 2), 3,4 loggers, 5,6 CAs
func newWorld(t *testing.T) *world {
	ids := []crypto.CTngID{"localhost:8080", "localhost:8081", "localhost:8082", "localhost:9000", "localhost:9001", "localhost:9100", "localhost:9101"}
	_, pubs, privs, err := crypto.GenerateThresholdKeypairs(ids, 2)
	if err != nil {
		t.Skip(err)
	}
	w := &world{ids: ids}
	pm := crypto.RSAPublicMap{}
	for _, id := range ids {
		k, _ := rsa.GenerateKey(rand.Reader, 1024)
		w.keys = append(w.keys, k)
		w.th = append(w.th, privs[id])
		pm[id] = k.PublicKey
	}
	w.cfg = &crypto.CryptoConfig{Threshold: 2, N: len(ids), HashScheme: crypto.SHA256, SignScheme: "rsa", ThresholdScheme: "bls", SelfID: "client", SignPublicMap: pm, ThresholdPublicMap: pubs}
	return w
}

func (w *world) rsa(i int, m string) string {
	h := sha256.Sum256([]byte(m))
	s, _ := rsa.SignPKCS1v15(rand.Reader, w.keys[i], gocrypto.SHA256, h[:])
	return fmt.Sprintf(`{"sig":"%s","id":"%s"}`, hex.EncodeToString(s), w.ids[i])
}
func (w *world) agg(m string, who ...int) string {
	var ss []bls.Sign
	ids := []string{}
	for _, i := range who {
		ss = append(ss, *w.th[i].Sign(m))
		ids = append(ids, string(w.ids[i]))
	}
	var a bls.Sign
	a.Aggregate(ss)
	b, _ := json.Marshal(ids)
	return fmt.Sprintf(`{"sign":"%s", "ids":%s}`, a.SerializeToHexStr(), b)
}
func (w *world) single(ty, period string, i int, p [3]string) obj {
	return obj{Application: "CTng", Type: ty, Period: period, Signer: string(w.ids[i]), Signature: [2]string{w.rsa(i, p[0]+p[1]+p[2]), ""}, Crypto_Scheme: "RSA", Payload: p}
}
func (w *world) full(ty, period string, p [3]string) obj {
	return obj{Application: "CTng", Type: ty, Period: period, Signer: "", Signature: [2]string{w.agg(p[0]+p[1]+p[2], 0, 1), ""}, Crypto_Scheme: "bls", Payload: p}
}
func (w *world) con(period string, i int) obj {
	a, b := string(w.ids[i])+"one", string(w.ids[i])+"two"
	return obj{Application: "CTng", Type: definition.CON_INIT, Period: period, Signer: "", Signature: [2]string{w.rsa(i, a), w.rsa(i, b)}, Payload: [3]string{string(w.ids[i]), a, b}}
}
func sthJSON(root string, n int) string {
	b, _ := json.Marshal(definition.STH{Signer: "x", Timestamp: "t", RootHash: root, TreeSize: n})
	return hex.EncodeToString(b)
}
func (w *world) sthp(i int, root string) [3]string {
	return [3]string{string(w.ids[i]), sthJSON(root, 2), ""}
}

func bitsOf(bs ...uint) *bitset.BitSet {
	b := bitset.New(64)
	for _, x := range bs {
		b.Set(x)
	}
	return b
}
func bin(b *bitset.BitSet) []byte { x, _ := b.MarshalBinary(); return x }
func sh(b []byte) string          { h := sha256.Sum256(b); return string(h[:]) }
func (w *world) srh(signer int, period string, crv, delta *bitset.BitSet) string {
	return w.rsa(signer, sh([]byte(period+sh(bin(crv))+sh(bin(delta)))))
}
func zip(b []byte) []byte {
	var buf bytes.Buffer
	g := gzip.NewWriter(&buf)
	g.Write(b)
	g.Close()
	return buf.Bytes()
}
func (w *world) revp(ca int, period string, delta *bitset.BitSet, srh string) [3]string {
	b, _ := json.Marshal(CA.Revocation{Period: period, Delta_CRV: zip(bin(delta)), SRH: srh})
	return [3]string{string(w.ids[ca]), "CRV", string(b)}
}

func (w *world) client() *ClientContext {
	return &ClientContext{Config: &ClientConfig{}, Crypto: w.cfg, STH_database: map[string]string{}, CRV_database: map[string]*bitset.BitSet{}, POM_database: map[string]obj{},
		STH_DB_RWLock: &sync.RWMutex{}, CRV_DB_RWLock: &sync.RWMutex{}, POM_DB_RWLock: &sync.RWMutex{}}
}

type leaf struct{ b []byte }

func (l *leaf) Serialize() ([]byte, error) { return l.b, nil }

func tree(t *testing.T, subj ...string) (string, []*merkletree.Proof) {
	var bs []merkletree.DataBlock
	for _, s := range subj {
		bs = append(bs, &leaf{[]byte(s)})
	}
	m, err := merkletree.New(nil, bs)
	if err != nil {
		t.Skip(err)
	}
	return hex.EncodeToString(m.Root), m.Proofs
}

func certOf(subj, issuer string, ext CA.CTngExtension) *x509.Certificate {
	return &x509.Certificate{RawSubject: []byte(subj), Subject: pkix.Name{CommonName: subj}, Issuer: pkix.Name{CommonName: issuer}, SubjectKeyId: []byte(subj),
		Extensions: []pkix.Extension{{Id: []int{1, 2, 3}, Value: []byte("other")}, {Id: CA.OIDCTngExtension, Value: CA.EncodeCTngExtension(ext)}}}
}

func within(t *testing.T, what string, f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			t.Errorf("%s: panic: %v", what, p)
		}
	case <-time.After(20 * time.Second):
		t.Errorf("%s: does not return", what)
	}
}

func TestReplay_P12(t *testing.T) {
	w := newWorld(t)
	root, pf := tree(t, "alice", "bob", "carol")
	root2, pf2 := tree(t, "mallory", "eve")
	good := func(i int) CA.LoggerInfo {
		return CA.LoggerInfo{STH: w.single(definition.STH_INIT, "7", i, w.sthp(i, root)), POI: crypto.POI_for_transmission{Poi: pf[0]}}
	}
	db := func() *ClientContext {
		c := w.client()
		for _, i := range []int{3, 4} {
			c.STH_database[string(w.ids[i])+"@7"] = root
		}
		c.CRV_database[string(w.ids[5])] = bitsOf(3, 9)
		c.CRV_database[string(w.ids[6])] = bitsOf(1, 2)
		return c
	}
	ca := string(w.ids[5])
	bad := map[string]func() (CA.LoggerInfo, func(*ClientContext)){
		"blacklisted logger": func() (CA.LoggerInfo, func(*ClientContext)) {
			return good(3), func(c *ClientContext) { c.POM_database[string(w.ids[3])] = obj{} }
		},
		"forged signature": func() (CA.LoggerInfo, func(*ClientContext)) {
			l := good(3)
			l.STH.Signature[0] = w.rsa(4, l.STH.Payload[0]+l.STH.Payload[1])
			return l, nil
		},
		"signature by another logger under its own name": func() (CA.LoggerInfo, func(*ClientContext)) {
			l := good(3)
			l.STH.Signature[0] = w.rsa(4, l.STH.Payload[0]+l.STH.Payload[1])
			l.STH.Signer = string(w.ids[3])
			return l, nil
		},
		"other period than known": func() (CA.LoggerInfo, func(*ClientContext)) { l := good(3); l.STH.Period = "8"; return l, nil },
		"tree head unknown to the client": func() (CA.LoggerInfo, func(*ClientContext)) {
			return good(3), func(c *ClientContext) { delete(c.STH_database, string(w.ids[3])+"@7") }
		},
		"no tree head known, empty root": func() (CA.LoggerInfo, func(*ClientContext)) {
			l := good(3)
			l.STH = w.single(definition.STH_INIT, "9", 3, w.sthp(3, ""))
			return l, nil
		},
		"tree head differs from the known one": func() (CA.LoggerInfo, func(*ClientContext)) {
			return CA.LoggerInfo{STH: w.single(definition.STH_INIT, "7", 3, w.sthp(3, root2)), POI: crypto.POI_for_transmission{Poi: pf2[0]}}, nil
		},
		"undecodable tree head": func() (CA.LoggerInfo, func(*ClientContext)) {
			l := good(3)
			l.STH = w.single(definition.STH_INIT, "7", 3, [3]string{string(w.ids[3]), "zz", ""})
			return l, func(c *ClientContext) { c.STH_database[string(w.ids[3])+"@7"] = "" }
		},
		"proof of another certificate": func() (CA.LoggerInfo, func(*ClientContext)) {
			l := good(3)
			l.POI.Poi = pf[1]
			return l, nil
		},
		"no proof": func() (CA.LoggerInfo, func(*ClientContext)) { l := good(3); l.POI.Poi = nil; return l, nil },
	}
	run := func(what string, c *ClientContext, cert *x509.Certificate, want bool) {
		within(t, what, func() {
			if got := c.VerifyCTngextension(cert); got != want {
				t.Errorf("%s: certificate accepted=%v, want %v", what, got, want)
			}
		})
		within(t, what+" (again)", func() { c.VerifyCTngextension(cert) })
		for n, l := range map[string]*sync.RWMutex{"STH": c.STH_DB_RWLock, "CRV": c.CRV_DB_RWLock, "POM": c.POM_DB_RWLock} {
			if !l.TryLock() {
				t.Errorf("%s: %s lock still held", what, n)
			} else {
				l.Unlock()
			}
		}
	}
	seq := func(r int) CA.SequenceNumber { return CA.SequenceNumber{RID: r} }
	run("one good logger", db(), certOf("alice", ca, CA.CTngExtension{SequenceNumber: seq(4), LoggerInformation: []CA.LoggerInfo{good(3)}}), true)
	run("two good loggers", db(), certOf("alice", ca, CA.CTngExtension{SequenceNumber: seq(4), LoggerInformation: []CA.LoggerInfo{good(3), good(4)}}), true)
	run("no logger", db(), certOf("alice", ca, CA.CTngExtension{SequenceNumber: seq(4)}), false)
	run("revoked", db(), certOf("alice", ca, CA.CTngExtension{SequenceNumber: seq(9), LoggerInformation: []CA.LoggerInfo{good(3)}}), false)
	run("number revoked by another CA only", db(), certOf("alice", ca, CA.CTngExtension{SequenceNumber: seq(2), LoggerInformation: []CA.LoggerInfo{good(3)}}), true)
	run("issuer without revocation data", db(), certOf("alice", "nobody", CA.CTngExtension{SequenceNumber: seq(4), LoggerInformation: []CA.LoggerInfo{good(3)}}), false)
	run("without extension", db(), &x509.Certificate{RawSubject: []byte("alice"), Issuer: pkix.Name{CommonName: ca}}, false)
	run("number far beyond the vector", db(), certOf("alice", ca, CA.CTngExtension{SequenceNumber: seq(1 << 30), LoggerInformation: []CA.LoggerInfo{good(3)}}), true)
	for what, f := range bad {
		li, prep := f()
		for k, lis := range [][]CA.LoggerInfo{{li}, {li, li}, {li, good(4)}, {good(4), li}} {
			c := db()
			if prep != nil {
				prep(c)
			}
			run(fmt.Sprintf("%s, case %d", what, k), c, certOf("alice", ca, CA.CTngExtension{SequenceNumber: seq(4), LoggerInformation: lis}), k >= 2)
			c = db()
			if prep != nil {
				prep(c)
			}
			run(fmt.Sprintf("%s, revoked, case %d", what, k), c, certOf("alice", ca, CA.CTngExtension{SequenceNumber: seq(3), LoggerInformation: lis}), false)
		}
	}
}

func TestReplay_P13(t *testing.T) {
	w := newWorld(t)
	ca, ca2 := string(w.ids[5]), string(w.ids[6])
	lg := string(w.ids[3])
	root, _ := tree(t, "a", "b")
	root2, _ := tree(t, "c", "d")
	rev := func(period string, i int, old, delta *bitset.BitSet) obj {
		return w.full(definition.REV_FULL, period, w.revp(i, period, delta, w.srh(i, period, old.Union(delta), delta)))
	}
	none := bitset.New(64)
	show := func(c *ClientContext) string {
		s := map[string]string{}
		for k, v := range c.CRV_database {
			if v == nil {
				s[k] = "nil"
			} else {
				s[k] = v.String()
			}
		}
		x, _ := json.Marshal([]interface{}{s, c.STH_database, len(c.POM_database)})
		return string(x)
	}
	type step struct {
		u    monitor.ClientUpdate
		v    bool
		want bool
		crv  map[string]*bitset.BitSet
		sth  map[string]string
		pom  []string
	}
	U := func(revs, sths, accs, cons []obj) monitor.ClientUpdate {
		return monitor.ClientUpdate{REVs: revs, STHs: sths, POM_ACCs: accs, POM_CONs: cons}
	}
	sth := func(i int, period, r string) obj { return w.full(definition.STH_FULL, period, w.sthp(i, r)) }
	acc := func(period string, s string) obj { return w.full(definition.ACC_FULL, period, [3]string{s, "", ""}) }
	one := func(o obj) []obj { return []obj{o} }
	d1, d2, d3 := bitsOf(1, 5), bitsOf(2, 40), bitsOf(7)
	d12 := d1.Union(d2)
	type m = map[string]*bitset.BitSet
	tampered := func(o obj) obj { o.Payload[2] += " "; return o }
	retyped := func(o obj, ty string) obj { o.Type = ty; return o }
	r1 := rev("7", 5, none, d1)
	forged := w.full(definition.REV_FULL, "7", w.revp(5, "7", d1, w.srh(6, "7", d1, d1)))
	otherp := w.full(definition.REV_FULL, "7", w.revp(5, "7", d1, w.srh(5, "8", d1, d1)))
	bigger := w.full(definition.REV_FULL, "7", w.revp(5, "7", d12, w.srh(5, "7", d1, d1)))
	cases := map[string][]step{
		"first revocation":                           {{U(one(r1), nil, nil, nil), true, true, m{ca: d1}, nil, nil}},
		"two updates":                                {{U(one(r1), nil, nil, nil), true, true, m{ca: d1}, nil, nil}, {U(one(rev("8", 5, d1, d2)), nil, nil, nil), true, true, m{ca: d12}, nil, nil}},
		"two in one update":                          {{U([]obj{r1, rev("8", 5, d1, d2), rev("7", 6, none, d3)}, nil, nil, nil), true, true, m{ca: d12, ca2: d3}, nil, nil}},
		"second of two is refused":                   {{U([]obj{r1, tampered(rev("8", 5, d1, d2))}, nil, nil, nil), true, false, m{ca: d1}, nil, nil}},
		"tampered revocation":                        {{U(one(tampered(r1)), nil, nil, nil), true, false, m{}, nil, nil}},
		"retyped revocation":                         {{U(one(retyped(w.single(definition.REV_INIT, "7", 5, r1.Payload), definition.REV_INIT)), nil, nil, nil), true, false, m{}, nil, nil}},
		"tree head as revocation":                    {{U(one(sth(3, "7", root)), nil, nil, nil), true, false, m{}, nil, nil}},
		"root hash of revocations by another CA":     {{U(one(forged), nil, nil, nil), true, false, m{}, nil, nil}},
		"root hash for another period":               {{U(one(otherp), nil, nil, nil), true, false, m{}, nil, nil}},
		"delta larger than signed":                   {{U(one(bigger), nil, nil, nil), true, false, m{}, nil, nil}},
		"delta not verified, root forged":            {{U(one(forged), nil, nil, nil), false, false, m{}, nil, nil}},
		"replay of an old delta onto another vector": {{U(one(r1), nil, nil, nil), true, true, m{ca: d1}, nil, nil}, {U(one(rev("8", 5, none, d2)), nil, nil, nil), true, false, m{ca: d1}, nil, nil}},
		"tree heads":                                 {{U(nil, []obj{sth(3, "7", root), sth(4, "7", root2), sth(3, "8", root2)}, nil, nil), true, true, m{}, map[string]string{lg + "@7": root, string(w.ids[4]) + "@7": root2, lg + "@8": root2}, nil}},
		"tampered tree head":                         {{U(nil, []obj{sth(3, "7", root), tampered(sth(4, "7", root))}, nil, nil), true, false, m{}, map[string]string{lg + "@7": root}, nil}},
		"unsigned tree head":                         {{U(nil, one(w.single(definition.STH_INIT, "7", 3, w.sthp(3, root))), nil, nil), true, false, m{}, nil, nil}},
		"revocation as tree head":                    {{U(nil, one(r1), nil, nil), true, false, m{}, nil, nil}},
		"undecodable tree head":                      {{U(nil, one(w.full(definition.STH_FULL, "7", [3]string{lg, "zz", ""})), nil, nil), true, false, m{}, nil, nil}},
		"accusation and conflict":                    {{U(nil, nil, one(acc("7", lg)), one(w.con("7", 4))), true, true, m{}, nil, []string{lg, string(w.ids[4])}}},
		"tampered accusation":                        {{U(nil, nil, one(tampered(acc("7", lg))), one(w.con("7", 4))), true, false, m{}, nil, nil}},
		"single-signer accusation":                   {{U(nil, nil, one(w.single(definition.ACC_INIT, "7", 0, [3]string{lg, "", ""})), nil), true, false, m{}, nil, nil}},
		"tree head as accusation":                    {{U(nil, nil, one(sth(3, "7", root)), nil), true, false, m{}, nil, nil}},
		"forged conflict":                            {{U(nil, nil, nil, []obj{w.con("7", 4), tampered(w.con("7", 3))}), true, false, m{}, nil, []string{string(w.ids[4])}}},
		"tree head as conflict":                      {{U(nil, nil, nil, one(sth(3, "7", root))), true, false, m{}, nil, nil}},
		"everything, then again":                     {{U(one(r1), one(sth(3, "7", root)), one(acc("7", lg)), one(w.con("7", 4))), true, true, m{ca: d1}, map[string]string{lg + "@7": root}, []string{lg, string(w.ids[4])}}, {U(nil, one(sth(3, "7", root)), one(acc("7", lg)), one(w.con("7", 4))), true, true, m{ca: d1}, map[string]string{lg + "@7": root}, []string{lg, string(w.ids[4])}}},
		"trusted monitor":                            {{U(one(rev("7", 5, none, d1)), one(w.single(definition.STH_INIT, "7", 3, w.sthp(3, root))), nil, nil), false, true, m{ca: d1}, map[string]string{lg + "@7": root}, nil}},
		"empty update":                               {{U(nil, nil, nil, nil), true, true, m{}, nil, nil}},
	}
	for what, steps := range cases {
		c := w.client()
		for n, s := range steps {
			id := fmt.Sprintf("%s, update %d", what, n)
			within(t, id, func() {
				if got := c.HandleUpdate(s.u, s.v, true); got != s.want {
					t.Errorf("%s: HandleUpdate=%v, want %v", id, got, s.want)
				}
			})
			if t.Failed() {
				return
			}
			for k, b := range s.crv {
				if x := c.CRV_database[k]; x == nil || x.SymmetricDifferenceCardinality(b) != 0 {
					t.Errorf("%s: revocations of %s are %v, want %v (%s)", id, k, x, b, show(c))
				}
			}
			if len(c.CRV_database) != len(s.crv) {
				t.Errorf("%s: revocation data of %d CAs, want %d (%s)", id, len(c.CRV_database), len(s.crv), show(c))
			}
			for k, b := range s.sth {
				if c.STH_database[k] != b {
					t.Errorf("%s: tree head %s is %q, want %q", id, k, c.STH_database[k], b)
				}
			}
			if len(c.STH_database) != len(s.sth) {
				t.Errorf("%s: %d tree heads, want %d (%s)", id, len(c.STH_database), len(s.sth), show(c))
			}
			for _, k := range s.pom {
				if _, ok := c.POM_database[k]; !ok {
					t.Errorf("%s: %s not known as misbehaving", id, k)
				}
			}
			if len(c.POM_database) != len(s.pom) {
				t.Errorf("%s: %d known misbehaving, want %d", id, len(c.POM_database), len(s.pom))
			}
			for n, l := range map[string]*sync.RWMutex{"STH": c.STH_DB_RWLock, "CRV": c.CRV_DB_RWLock, "POM": c.POM_DB_RWLock} {
				if !l.TryLock() {
					t.Errorf("%s: %s lock still held", id, n)
				} else {
					l.Unlock()
				}
			}
		}
	}
}
