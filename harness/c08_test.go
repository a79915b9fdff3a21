package harness

import (
	"crypto/rsa"
	"encoding/base64"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

var b64forms = map[string]*base64.Encoding{"url": base64.RawURLEncoding, "url-padded": base64.URLEncoding, "std": base64.RawStdEncoding, "std-padded": base64.StdEncoding}

// genJWKS draws a key set document: good entries in all encodings among bad ones.
func genJWKS(t *rapid.T) (doc string, good map[string]*rsa.PublicKey, kinds []string) {
	good = map[string]*rsa.PublicKey{}
	var entries []interface{}
	n := rapid.IntRange(0, 5).Draw(t, "entries")
	for i := 0; i < n; i++ {
		kid := rapid.SampledFrom([]string{"k0", "k1", "k2", "k3", "k4", "K1", "k with space", "ключ"}).Draw(t, "kid")
		if good[kid] != nil {
			continue
		}
		priv := testKeys[rapid.IntRange(0, len(testKeys)-1).Draw(t, "key")]
		k := &rsa.PublicKey{N: priv.N, E: rapid.SampledFrom([]int{65537, 65537, 65537, 3, 17, 257, 65539, 16777217, 2147483647}).Draw(t, "e")}
		if rapid.IntRange(0, 2).Draw(t, "random-n") == 0 { // numbers whose encodings use every character
			raw := rapid.SliceOfN(rapid.Byte(), 64, 67).Draw(t, "n")
			raw[0] |= 1
			k.N = new(big.Int).SetBytes(raw)
		}
		enc := func(b []byte, label string) string {
			if rapid.IntRange(0, 3).Draw(t, label+"-zeros") == 0 {
				b = append(make([]byte, rapid.IntRange(1, 4).Draw(t, label+"-zero-count")), b...)
			}
			return b64forms[rapid.SampledFrom([]string{"url", "url", "url-padded", "std", "std-padded"}).Draw(t, label+"-form")].EncodeToString(b)
		}
		e := map[string]interface{}{"kty": "RSA", "kid": kid, "n": enc(k.N.Bytes(), "n"), "e": enc(bigE(k.E), "e")}
		if rapid.Bool().Draw(t, "more-fields") {
			e["use"], e["alg"], e["x5c"], e["x5t"] = "sig", "RS256", []string{"MII"}, "abc"
		}
		if rapid.IntRange(0, 3).Draw(t, "purpose") == 0 { // published is published
			e["use"] = rapid.SampledFrom([]string{"sig", "enc", "", "Sig", "tls"}).Draw(t, "use")
			e["alg"] = rapid.SampledFrom([]string{"RS256", "RS384", "RS512", "RSA-OAEP", "rs256", ""}).Draw(t, "alg")
			if rapid.Bool().Draw(t, "ops") {
				e["key_ops"] = rapid.SampledFrom([][]string{{"verify"}, {"sign", "verify"}, {"encrypt"}, {}}).Draw(t, "key-ops")
			}
		}
		if rarely(t, "field") {
			switch f := word(t, "field-name"); f {
			case "kty", "kid", "n", "e":
			default:
				if !strings.EqualFold(f, "kty") && !strings.EqualFold(f, "kid") && !strings.EqualFold(f, "n") && !strings.EqualFold(f, "e") { // as encoding/json sees it
					e[f] = word(t, "field-value")
				}
			}
		}
		kind := rapid.SampledFrom([]string{"good", "good", "good", "good", "no-kid", "empty-kid", "no-n", "no-e", "ec", "oct", "no-kty", "bad-n", "bad-e", "kid-number", "n-number", "null", "string", "array", "kty-lower", "empty-object", "e-object"}).Draw(t, "kind")
		var entry interface{} = e
		switch kind {
		case "no-kid":
			delete(e, "kid")
		case "empty-kid":
			e["kid"] = ""
		case "no-n":
			delete(e, "n")
		case "no-e":
			delete(e, "e")
		case "ec":
			entry = map[string]interface{}{"kty": "EC", "kid": kid, "crv": "P-256", "x": "f83OJ3D2xF1Bg8vub9tLe1gHMzV76e8Tus9uPHvRVEU", "y": "x_FEzRu9m36HLN_tue659LNpXW6pCyStikYjKIWI5a0"}
		case "oct":
			entry = map[string]interface{}{"kty": "oct", "kid": kid, "k": "c2VjcmV0"}
		case "no-kty":
			delete(e, "kty")
		case "kty-lower":
			e["kty"] = "rsa"
		case "bad-n":
			e["n"] = "!not base64!"
		case "bad-e":
			e["e"] = "$$"
		case "kid-number":
			e["kid"] = 7
		case "n-number":
			e["n"] = 12345
		case "e-object":
			e["e"] = map[string]int{"x": 1}
		case "null":
			entry = nil
		case "string":
			entry = "key"
		case "array":
			entry = []interface{}{e}
		case "empty-object":
			entry = map[string]interface{}{}
		default:
			good[kid] = k
		}
		kinds = append(kinds, kind)
		entries = append(entries, entry)
	}
	if n := many(t, "more-entries"); n > 0 { // before or after the others
		var more []interface{}
		for i := 0; i < n; i++ {
			kid, k := fmt.Sprintf("more%d", i), &testKeys[i%len(testKeys)].PublicKey
			good[kid] = k
			more = append(more, jwk(kid, k))
		}
		if rapid.Bool().Draw(t, "more-first") {
			entries = append(more, entries...)
		} else {
			entries = append(entries, more...)
		}
		kinds = append(kinds, fmt.Sprintf("%d more", n))
	}
	if entries == nil {
		entries = []interface{}{}
	}
	return mustJSON(map[string]interface{}{"keys": entries}), good, kinds
}

func sameKey(got interface{}, want *rsa.PublicKey) bool {
	k, ok := got.(*rsa.PublicKey)
	if want == nil {
		return got == nil || ok && k == nil
	}
	return ok && k != nil && k.E == want.E && k.N.Cmp(want.N) == 0
}

// genFault draws a reply that must not count as a fetch.
func genFault(t *rapid.T, doc string) (Reply, string) {
	kind := rapid.SampledFrom([]string{"500", "503-doc", "404", "401-oauth", "201", "204", "not-json", "empty", "html", "no-keys", "keys-null", "keys-string", "keys-object", "array", "number", "reset", "truncate", "half", "302-nowhere"}).Draw(t, "fault")
	half := doc[:len(doc)/2]
	if rarely(t, "status") {
		if st := statusFrom(t, "status-word", 418, 299, 207, 400); st != 200 {
			return Reply{Status: st, Body: doc}, fmt.Sprintf("%d-doc", st)
		}
	}
	return map[string]Reply{"500": {Status: 500, Body: "oops"}, "503-doc": {Status: 503, Body: doc}, "404": {Status: 404, Body: `{"error":"not_found"}`}, "401-oauth": {Status: 401, Body: `{"error":"x","keys":[]}`},
		"201": {Status: 201, Body: doc}, "204": {Status: 204}, "not-json": {Status: 200, Body: "keys"}, "empty": {Status: 200}, "html": {Status: 200, Body: "<html>" + doc}, "no-keys": {Status: 200, Body: `{}`},
		"keys-null": {Status: 200, Body: `{"keys":null}`}, "keys-string": {Status: 200, Body: `{"keys":"x"}`}, "keys-object": {Status: 200, Body: `{"keys":{}}`}, "array": {Status: 200, Body: `[]`}, "number": {Status: 200, Body: `3`},
		"reset": {Mode: "reset"}, "truncate": {Status: 200, Body: half, Mode: "truncate"}, "half": {Status: 200, Body: half}, "302-nowhere": {Status: 302, Mode: "redirect"}}[kind], kind
}

func TestC08(t *testing.T) {
	ev := newEvidence("C08", "a history of key set documents (0-5 entries, mixed encodings, 20 kinds of bad entry), provider faults (19 kinds) and key lookups; model: the last set successfully fetched, a fetch being due exactly when an unknown key id is asked; non-trivial: the history has a fault or a rotation before a lookup")
	defer ev.Write(t)

	run(t, ev, "keyset", 10000, 400000, func(rt *rapid.T) {
		tn := newTenant()
		defer tn.close()
		doc, published, kinds := genJWKS(rt)
		fault := ""
		var reply Reply
		apply := func() { // deterministic behaviour until the next step
			r := Reply{Status: 200, Body: doc}
			if fault != "" {
				r = reply
			}
			tn.serve(epJwks, func(Rec) Reply { return r })
		}
		if rapid.IntRange(0, 3).Draw(rt, "down-at-start") == 0 {
			reply, fault = genFault(rt, doc)
		}
		apply()
		log := []string{fmt.Sprintf("start with %s %v fault=%q", doc, kinds, fault)}
		cache := map[string]*rsa.PublicKey{}
		fetches := 0
		observe := func() bool { // account for the fetches made
			n := len(tn.requests(epJwks))
			did := n > fetches
			fetches = n
			if did && fault == "" {
				cache = published
			}
			return did
		}
		ks := keyset.New(tn.url(epJwks), nil)
		observe()
		changed := fault != ""
		steps := rapid.IntRange(1, 8).Draw(rt, "steps")
		for i := 0; i < steps; i++ {
			switch rapid.IntRange(0, 5).Draw(rt, "step") {
			case 0:
				doc, published, kinds = genJWKS(rt)
				log = append(log, fmt.Sprintf("publish %s %v", doc, kinds))
				changed = true
			case 1:
				reply, fault = genFault(rt, doc)
				log = append(log, "fault "+fault)
				changed = true
			case 2:
				if fault != "" {
					fault = ""
					log = append(log, "healthy again")
				}
			}
			apply()
			for q := rapid.IntRange(1, 3).Draw(rt, "lookups"); q > 0; q-- {
				kid := rapid.SampledFrom([]string{"k0", "k1", "k2", "k3", "k4", "K1", "k with space", "ключ", "nobody", "", "more0", "more16", "more4", "more39"}).Draw(rt, "ask")
				known := cache[kid] != nil
				got := ks.PublicKey(kid)
				did := observe()
				log = append(log, fmt.Sprintf("ask %q", kid))
				ev.Case(mustJSON(log), changed, func() interface{} {
					return map[string]interface{}{"history": append([]string(nil), log...), "found": cache[kid] != nil}
				})
				ev.Label(fmt.Sprintf("known=%v", known))
				if fault != "" {
					ev.Label("fault:" + fault)
				}
				if !known && !did && kid != "" {
					rt.Fatalf("unknown key id %q asked, but the key set was not fetched%s", kid, history(log))
				}
				if !sameKey(got, cache[kid]) {
					rt.Fatalf("key id %q gives %v, last set fetched has %v%s", kid, got, cache[kid], history(log))
				}
			}
		}
	})

	// Sets of many keys, and many unknown ids.
	run(t, ev, "many", 30, 1500, func(rt *rapid.T) {
		size := rapid.SampledFrom([]int{20, 150, 600, 2500}).Draw(rt, "size")
		first := rapid.IntRange(0, 3).Draw(rt, "first")
		tn := newTenant()
		defer tn.close()
		var keys []map[string]interface{}
		for i := 0; i < size; i++ {
			keys = append(keys, jwk(fmt.Sprintf("key-%d", i), &testKeys[(first+i)%len(testKeys)].PublicKey))
		}
		tn.serveKeys(keys...)
		ks := keyset.New(tn.url(epJwks), nil)
		down := rapid.Bool().Draw(rt, "down")
		if down {
			tn.serve(epJwks, func(Rec) Reply { return Reply{Status: 503} })
		}
		for i := rapid.IntRange(0, 300).Draw(rt, "unknown"); i > 0; i-- {
			if ks.PublicKey(fmt.Sprintf("unknown-%d", i)) != nil {
				rt.Fatalf("a key was found under an id nobody published")
			}
		}
		for _, i := range append([]int{0, size - 1}, rapid.SliceOfN(rapid.IntRange(0, size-1), 20, 20).Draw(rt, "asked")...) {
			ev.Case(fmt.Sprintf("many %d %d %d", size, first, i), down, func() interface{} { return map[string]interface{}{"keys": size, "asked": i, "outage": down} })
			if got, want := ks.PublicKey(fmt.Sprintf("key-%d", i)), &testKeys[(first+i)%len(testKeys)].PublicKey; !sameKey(got, want) {
				rt.Fatalf("of %d published keys, number %d is %v", size, i, got)
			}
		}
		if down { // a new key, after all those refusals
			tn.serveKeys(append(keys, jwk("new", &testKeys[1].PublicKey))...)
			if !sameKey(ks.PublicKey("new"), &testKeys[1].PublicKey) {
				rt.Fatalf("after an outage, a newly published key is not used")
			}
		}
	})

	// Through the adapter: tokens signed by published, withdrawn and new keys.
	l := shared(t)
	run(t, ev, "adapter", 480, 20000, func(rt *rapid.T) {
		tn := newTenant()
		defer tn.close()
		published := map[string]*rsa.PrivateKey{}
		var fault *Reply
		faultName := ""
		publish := func() {
			var docs []map[string]interface{}
			for i := 0; i < 4; i++ {
				if k := published[fmt.Sprintf("k%d", i)]; k != nil {
					docs = append(docs, jwk(fmt.Sprintf("k%d", i), &k.PublicKey))
				}
			}
			r := Reply{Status: 200, Body: jwks(docs...)}
			if fault != nil {
				r = *fault
			}
			tn.serve(epJwks, func(Rec) Reply { return r })
		}
		change := func() string {
			out := ""
			for i := 0; i < 4; i++ {
				kid := fmt.Sprintf("k%d", i)
				switch rapid.IntRange(0, 3).Draw(rt, "change-"+kid) {
				case 0:
					delete(published, kid)
					out += " -" + kid
				case 1:
					n := rapid.IntRange(0, 3).Draw(rt, "key")
					published[kid] = testKeys[n]
					out += fmt.Sprintf(" %s=%d", kid, n)
				}
			}
			return out
		}
		log := []string{"publish" + change()}
		publish()
		ns := newNS()
		l.c.put(kJwt, ns, "j", map[string]string{"jwksUrl": tn.url(epJwks)})
		l.c.put(kPolicy, ns, "p", onePolicy("s", v1.PathConfig{Prefix: "/"}, v1.PathPolicy{PolicyType: "jwt", Config: "j"}))
		defer l.c.del(kJwt, ns, "j")
		defer l.c.del(kPolicy, ns, "p")
		if !l.sync1() {
			rt.Fatalf("the adapter did not pick up its configuration")
		}
		cache, fetches := map[string]*rsa.PrivateKey{}, 0
		copyOf := func() map[string]*rsa.PrivateKey {
			m := map[string]*rsa.PrivateKey{}
			for k, v := range published {
				m[k] = v
			}
			return m
		}
		observe := func() bool {
			n := len(tn.requests(epJwks))
			did := n > fetches
			fetches = n
			if did && fault == nil {
				cache = copyOf()
			}
			return did
		}
		observe()
		for i := rapid.IntRange(2, 10).Draw(rt, "steps"); i > 0; i-- {
			if long := timePasses(rt, "time-passes", ages); long != "" {
				log = append(log, long)
			}
			switch rapid.IntRange(0, 4).Draw(rt, "step") {
			case 0:
				log = append(log, "publish"+change())
				publish()
			case 1:
				r, name := genFault(rt, `{"keys":[]}`)
				fault, faultName = &r, name
				log = append(log, "fault "+name)
				publish()
			case 2:
				fault = nil
				log = append(log, "healthy")
				publish()
			}
			kid := fmt.Sprintf("k%d", rapid.IntRange(0, 3).Draw(rt, "kid"))
			n := rapid.IntRange(0, 3).Draw(rt, "signer")
			if k := published[kid]; k != nil && rapid.Bool().Draw(rt, "right-signer") {
				for j, x := range testKeys[:4] {
					if x == k {
						n = j
					}
				}
			}
			known := cache[kid] != nil
			a := l.do(decorated(rt, Req{NS: ns, Svc: "s", Method: "GET", Path: "/", Auth: "Bearer " + token(kid, testKeys[n], claims{"sub": "x"})}).msg())
			did := observe()
			log = append(log, fmt.Sprintf("token of %s signed by key %d", kid, n))
			ev.Case(mustJSON(log), true, func() interface{} {
				return map[string]interface{}{"history": append([]string(nil), log...), "accepted": a.OK()}
			})
			_ = faultName
			if !known && !did {
				rt.Fatalf("unknown key id, but the key set was not fetched%s", history(log))
			}
			if want := cache[kid] == testKeys[n]; a.OK() != want {
				rt.Fatalf("accepted=%v, the last set fetched says %v%s", a.OK(), want, history(log))
			}
		}
	})
}
