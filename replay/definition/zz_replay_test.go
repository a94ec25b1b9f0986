package definition

// Replay of undischarged obligations against the real code: objects built from
// real keys, mutated field by field, judged by an oracle written against the
// cryptographic libraries only.

import (
	gocrypto "crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"testing"

	"github.com/herumi/bls-go-binary/bls"
	"github.com/jik18001/CTngV2/crypto"
)

type rworld struct {
	ids  []crypto.CTngID
	cfg  []*crypto.CryptoConfig
	objs []Gossip_object
}

func rnewWorld(t *testing.T, threshold int) *rworld {
	ids := []crypto.CTngID{"localhost:8080", "localhost:8081", "localhost:8082", "localhost:8083", "localhost:9100"}
	_, pubs, privs, err := crypto.GenerateThresholdKeypairs(ids, threshold)
	if err != nil {
		t.Skip(err)
	}
	w := &rworld{ids: ids}
	pm := crypto.RSAPublicMap{}
	var sks []*rsa.PrivateKey
	for _, id := range ids {
		k, _ := rsa.GenerateKey(rand.Reader, 1024)
		sks = append(sks, k)
		pm[id] = k.PublicKey
	}
	for i, id := range ids {
		w.cfg = append(w.cfg, &crypto.CryptoConfig{Threshold: threshold, N: len(ids), HashScheme: crypto.SHA256, SignScheme: "rsa", ThresholdScheme: "bls",
			SelfID: id, SignPublicMap: pm, SignSecretKey: *sks[i], ThresholdPublicMap: pubs, ThresholdSecretKey: privs[id]})
	}
	return w
}

func (w *rworld) rsa(i int, m string) string {
	h := sha256.Sum256([]byte(m))
	s, _ := rsa.SignPKCS1v15(rand.Reader, &w.cfg[i].SignSecretKey, gocrypto.SHA256, h[:])
	return fmt.Sprintf(`{"sig":"%s","id":"%s"}`, hex.EncodeToString(s), w.ids[i])
}
func (w *rworld) frag(i int, m string) string {
	return fmt.Sprintf(`{"sign":"%s","id":"%s"}`, w.cfg[i].ThresholdSecretKey.Sign(m).SerializeToHexStr(), w.ids[i])
}
func (w *rworld) agg(m string, who ...int) string {
	var ss []bls.Sign
	ids := []string{}
	for _, i := range who {
		ss = append(ss, *w.cfg[i].ThresholdSecretKey.Sign(m))
		ids = append(ids, string(w.ids[i]))
	}
	var a bls.Sign
	if len(ss) > 0 {
		a.Aggregate(ss)
	}
	b, _ := json.Marshal(ids)
	return fmt.Sprintf(`{"sign":"%s", "ids":%s}`, a.SerializeToHexStr(), b)
}

func rsaOK(c *crypto.CryptoConfig, m, s string) (string, bool) {
	x := map[string]string{}
	if json.Unmarshal([]byte(s), &x) != nil {
		return "", false
	}
	b, err := hex.DecodeString(x["sig"])
	if err != nil {
		return "", false
	}
	pk, ok := c.SignPublicMap[crypto.CTngID(x["id"])]
	if !ok {
		return "", false
	}
	h := sha256.Sum256([]byte(m))
	return x["id"], rsa.VerifyPKCS1v15(&pk, gocrypto.SHA256, h[:], b) == nil
}

func oracle(g Gossip_object, c *crypto.CryptoConfig) bool {
	m := g.Payload[0] + g.Payload[1] + g.Payload[2]
	switch g.Type {
	case STH_INIT, REV_INIT, ACC_INIT:
		if g.Signature[0] == "" || g.Payload[0] == "" {
			return false
		}
		id, ok := rsaOK(c, m, g.Signature[0])
		if !ok || id != g.Signer {
			return false
		}
		return g.Type == ACC_INIT || g.Payload[0] == g.Signer
	case CON_INIT:
		i1, ok1 := rsaOK(c, g.Payload[1], g.Signature[0])
		i2, ok2 := rsaOK(c, g.Payload[2], g.Signature[1])
		return ok1 && ok2 && i1 == g.Payload[0] && i2 == g.Payload[0] && g.Payload[1] != g.Payload[2]
	case STH_FRAG, REV_FRAG, ACC_FRAG:
		if g.Signature[0] == "" || g.Payload[0] == "" {
			return false
		}
		x := map[string]string{}
		if json.Unmarshal([]byte(g.Signature[0]), &x) != nil {
			return false
		}
		var s bls.Sign
		if s.DeserializeHexStr(x["sign"]) != nil || x["id"] != g.Signer {
			return false
		}
		pk, ok := c.ThresholdPublicMap[crypto.CTngID(x["id"])]
		return ok && s.Verify(&pk, m)
	case STH_FULL, REV_FULL, ACC_FULL:
		if g.Signature[0] == "" || g.Payload[0] == "" {
			return false
		}
		x := struct {
			Sign string
			IDs  []string
		}{}
		if json.Unmarshal([]byte(g.Signature[0]), &x) != nil {
			return false
		}
		var s bls.Sign
		if s.DeserializeHexStr(x.Sign) != nil {
			return false
		}
		seen := map[string]bool{}
		var pks []bls.PublicKey
		for _, id := range x.IDs {
			pk, ok := c.ThresholdPublicMap[crypto.CTngID(id)]
			if !ok || seen[id] {
				return false
			}
			seen[id] = true
			pks = append(pks, pk)
		}
		return len(pks) >= c.Threshold && len(pks) > 0 && s.FastAggregateVerify(pks, []byte(m))
	}
	return false
}

func (w *rworld) corpus() []Gossip_object {
	var out []Gossip_object
	seen := map[string]bool{}
	add := func(g Gossip_object) {
		b, _ := json.Marshal(g)
		if !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, g)
		}
	}
	types := []string{STH_INIT, REV_INIT, ACC_INIT, CON_INIT, STH_FRAG, REV_FRAG, ACC_FRAG, STH_FULL, REV_FULL, ACC_FULL, "", "http://ctng.uconn.edu/304", "http://ctng.uconn.edu/204"}
	self := string(w.ids[4])
	pls := [][3]string{{self, "a", ""}, {self, "a", "b"}, {self, "", ""}, {string(w.ids[0]), "x", "y"}, {"", "a", "b"}, {self, "b", "b"}, {"", "", ""}}
	for _, p := range pls {
		m := p[0] + p[1] + p[2]
		sigs := []string{"", "{", "null", "[]", "{}", w.rsa(4, m), w.rsa(0, m), w.rsa(4, p[0]), w.rsa(4, p[1]), w.rsa(4, p[2]), w.rsa(0, p[1]), w.rsa(0, p[2]), w.rsa(4, p[0]+p[1]), w.frag(4, m), w.frag(0, m), w.frag(1, p[0]), w.frag(0, p[0]+p[1]),
			w.agg(m, 0, 1, 2), w.agg(m, 2, 0, 1), w.agg(m, 0, 1), w.agg(m, 0), w.agg(m, 0, 0, 1), w.agg(m, 0, 0, 0), w.agg(m, 0, 1, 2, 3), w.agg(m, 0, 1, 2, 3, 4), w.agg(m), w.agg(p[0], 0, 1, 2), w.agg(p[0]+p[1], 0, 1, 2),
			`{"sign":"zz","id":"` + self + `"}`, `{"sig":"zz","id":"` + self + `"}`, `{"sign":"","id":""}`, `{"sig":"","id":""}`, `{"id":"` + self + `"}`, `{"sign":"zz","ids":["` + self + `"]}`, `{"sign":"","ids":[]}`, `{"ids":["x","y","z"]}`,
			`{"sig":"` + hex.EncodeToString(make([]byte, 128)) + `","id":"nobody"}`}
		big := hex.EncodeToString(make([]byte, 700))
		sigs = append(sigs, `{"sig":"`+big+`","id":"`+self+`"}`, `{"sign":"`+big+`","id":"`+self+`"}`, `{"sign":"`+big+`","ids":["`+self+`"]}`, `{"sig":"0","id":"`+self+`"}`, `{"sign":"0","id":"`+self+`"}`)
		// aggregate that names other signers than it has
		var x map[string]interface{}
		json.Unmarshal([]byte(w.agg(m, 0, 1)), &x)
		x["ids"] = []string{string(w.ids[0]), string(w.ids[1]), "nobody"}
		b, _ := json.Marshal(x)
		sigs = append(sigs, string(b))
		x["ids"] = []string{string(w.ids[0]), string(w.ids[1]), string(w.ids[1])}
		b, _ = json.Marshal(x)
		sigs = append(sigs, string(b))
		x["ids"] = []string{"n1", "n2", "n3"}
		b, _ = json.Marshal(x)
		sigs = append(sigs, string(b))
		for _, ty := range types {
			for _, s := range sigs {
				for _, who := range []string{self, string(w.ids[0]), string(w.ids[1]), "nobody", ""} {
					g := Gossip_object{Application: "CTng", Period: "1", Type: ty, Signer: who, Payload: p, Crypto_Scheme: "rsa"}
					g.Signature[0] = s
					if ty == CON_INIT {
						for _, s2 := range []string{w.rsa(4, p[2]), w.rsa(0, p[2]), w.rsa(4, p[1]), w.rsa(4, m), "", "{", s} {
							g.Signature[1] = s2
							add(g)
						}
						break
					}
					add(g)
				}
			}
		}
	}
	// statements made under names close to a registered one
	for i, id := range w.ids {
		s := string(id)
		for _, n := range []string{s + "/x", s + " ", " " + s, s[:len(s)-1], "", "LOCALHOST" + s[9:], s + s, "http://" + s} {
			p := [3]string{n, "a", "b"}
			for _, ty := range types {
				for _, e := range [][2]string{{"sig", "rsa"}, {"sign", "bls"}} {
					sg := w.rsa(i, n+"ab")
					if e[0] == "sign" {
						sg = w.frag(i, n+"ab")
					}
					x := map[string]string{}
					json.Unmarshal([]byte(sg), &x)
					x["id"] = n
					b, _ := json.Marshal(x)
					g := Gossip_object{Application: "CTng", Period: "1", Type: ty, Signer: n, Payload: p, Crypto_Scheme: e[1]}
					g.Signature[0] = string(b)
					add(g)
					g.Signer = s
					add(g)
				}
			}
		}
	}
	return out
}

func rverify(g Gossip_object, c *crypto.CryptoConfig) (err error, p interface{}) {
	defer func() { p = recover() }()
	err = g.Verify(c)
	return
}

func rrun(t *testing.T, want func(g Gossip_object) bool, sound, complete, panics bool) {
	for _, th := range []int{3, 2} {
		w := rnewWorld(t, th)
		n := 0
		for _, c := range []*crypto.CryptoConfig{w.cfg[0], {Threshold: th, SignScheme: "rsa", ThresholdScheme: "bls"}, {}} {
			for _, g := range w.corpus() {
				if !want(g) {
					continue
				}
				err, p := rverify(g, c)
				ok := oracle(g, c)
				if c.SignScheme == "" {
					ok = false
				}
				b, _ := json.Marshal(g)
				switch {
				case p != nil && panics:
					t.Errorf("Verify panics (%v) on %s", p, b)
				case p == nil && err == nil && !ok && sound:
					t.Errorf("Verify accepts (threshold %d) %s", th, b)
				case p == nil && err != nil && ok && complete:
					t.Errorf("Verify rejects (%v) %s", err, b)
				default:
					continue
				}
				if n++; n > 3 {
					return
				}
			}
		}
	}
}

func ty(ts ...string) func(g Gossip_object) bool {
	return func(g Gossip_object) bool {
		for _, t := range ts {
			if g.Type == t {
				return true
			}
		}
		return false
	}
}

func TestReplay_P01(t *testing.T) { rrun(t, ty(STH_INIT, REV_INIT, ACC_INIT), true, false, false) }
func TestReplay_P02(t *testing.T) { rrun(t, ty(CON_INIT), true, false, false) }
func TestReplay_P03(t *testing.T) { rrun(t, ty(STH_FRAG, REV_FRAG, ACC_FRAG), true, false, false) }
func TestReplay_P04(t *testing.T) { rrun(t, ty(STH_FULL, REV_FULL, ACC_FULL), true, false, false) }
func TestReplay_P05(t *testing.T) {
	rrun(t, func(Gossip_object) bool { return true }, false, true, true)
	w := rnewWorld(t, 2)
	for _, k := range []string{"", "x", "http://ctng.uconn.edu/105", "http://ctng.uconn.edu/304", "http://ctng.uconn.edu/204"} {
		for _, g := range w.corpus()[:40] {
			g.Type = k
			if err, p := rverify(g, w.cfg[0]); p != nil || err == nil {
				t.Fatalf("object of unknown type %q accepted (%v)", k, p)
			}
		}
	}
}

func TestReplay_P06(t *testing.T) {
	w := rnewWorld(t, 2)
	for i, c := range w.cfg {
		for _, m := range []string{"", "m", "localhost:9100a", string(make([]byte, 3000))} {
			s, err := c.Sign([]byte(m))
			if err != nil {
				t.Fatal(err)
			}
			id, ok := rsaOK(c, m, s.String())
			if !ok || id != string(w.ids[i]) {
				t.Fatalf("own signature over %q does not verify after encoding: %s", m, s.String())
			}
			d, err := crypto.RSASigFromString(s.String())
			if err != nil || d.ID != s.ID || string(d.Sig) != string(s.Sig) || c.Verify([]byte(m), d) != nil {
				t.Fatalf("RSA signature does not survive encoding: %s", s.String())
			}
			f, err := c.ThresholdSign(m)
			if err != nil {
				t.Fatal(err)
			}
			fd, err := crypto.SigFragmentFromString(f.String())
			if err != nil || fd.ID != w.ids[i] || !fd.Sign.IsEqual(f.Sign) || c.FragmentVerify(m, fd) != nil {
				t.Fatalf("fragment does not survive encoding: %s", f.String())
			}
		}
	}
	for _, who := range [][]int{{0, 1}, {1, 0}, {0, 0}, {1, 1, 2}, {0, 1, 1}, {2, 1, 1, 1}, {4, 2, 0}, {3, 1, 2, 0}, {4, 3, 2, 1, 0}, {0}, {}} {
		var fs []crypto.SigFragment
		want := map[crypto.CTngID]int{}
		for _, i := range who {
			f, _ := w.cfg[i].ThresholdSign("msg")
			fs = append(fs, f)
			want[w.ids[i]]++
		}
		a, err := w.cfg[0].ThresholdAggregate(fs)
		if len(who) < 2 {
			if err == nil {
				t.Fatalf("aggregated %d fragments with threshold 2", len(who))
			}
			continue
		}
		if err != nil {
			t.Fatalf("cannot aggregate %v: %v", who, err)
		}
		s, err := a.String()
		if err != nil {
			t.Fatal(err)
		}
		d, err := crypto.ThresholdSigFromString(s)
		if err != nil || len(d.IDs) != len(who) || !d.Sign.IsEqual(a.Sign) {
			t.Fatalf("aggregate does not survive encoding: %s (%v)", s, err)
		}
		for _, id := range d.IDs {
			want[id]--
		}
		for id, n := range want {
			if n != 0 {
				t.Fatalf("aggregate of %v lists the wrong signers (%s): %s", who, id, s)
			}
		}
		dupl := false
		for i := range who {
			for j := range who[:i] {
				dupl = dupl || who[i] == who[j]
			}
		}
		if e := w.cfg[1].ThresholdVerify("msg", d); e != nil && !dupl {
			t.Fatalf("aggregate of %v does not verify: %v", who, e)
		}
	}
}
