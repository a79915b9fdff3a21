package harness

import (
	"crypto"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net/url"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// ------------------------------------------------------------------
// Reference verification of a JWT (C05), independent of the adapter's library.

type verdict int

const (
	reject verdict = iota
	accept
	either // outside what the property fixes
)

func (v verdict) String() string { return [...]string{"reject", "accept", "either"}[v] }

// refVerify decides a compact token against published keys at a time.
func refVerify(tok string, published map[string]*rsa.PublicKey, now time.Time) (verdict, claims) {
	parts := strings.Split(tok, ".")
	if len(parts) != 3 {
		return reject, nil
	}
	var hdr map[string]interface{}
	hb, err := b64.DecodeString(parts[0])
	if err != nil || json.Unmarshal(hb, &hdr) != nil {
		return reject, nil
	}
	var cl claims
	cb, err := b64.DecodeString(parts[1])
	if err != nil || json.Unmarshal(cb, &cl) != nil {
		return reject, nil
	}
	kid, _ := hdr["kid"].(string)
	key := published[kid]
	if kid == "" || key == nil {
		return reject, nil
	}
	sig, err := b64.DecodeString(parts[2])
	if err != nil {
		return reject, nil
	}
	input := []byte(parts[0] + "." + parts[1])
	alg, _ := hdr["alg"].(string)
	var h crypto.Hash
	var sum []byte
	switch alg {
	case "RS256", "PS256":
		s := sha256.Sum256(input)
		h, sum = crypto.SHA256, s[:]
	case "RS384", "PS384":
		s := sha512.Sum384(input)
		h, sum = crypto.SHA384, s[:]
	case "RS512", "PS512":
		s := sha512.Sum512(input)
		h, sum = crypto.SHA512, s[:]
	default:
		return reject, nil
	}
	if alg[0] == 'P' {
		if rsa.VerifyPSS(key, h, sum, sig, nil) != nil {
			return reject, nil
		}
	} else if rsa.VerifyPKCS1v15(key, h, sum, sig) != nil {
		return reject, nil
	}
	if exp, ok := cl["exp"].(float64); ok && float64(now.Unix()) >= exp {
		return reject, cl
	}
	if nbf, ok := cl["nbf"].(float64); ok && float64(now.Unix()) < nbf {
		return reject, cl
	}
	if alg[0] == 'P' {
		return either, cl
	}
	return accept, cl
}

// genTimes draws exp and nbf around now (never equal to it).
func genTimes(t *rapid.T, cl claims, now time.Time) {
	off := func(label string) int64 {
		d := rapid.SampledFrom([]int64{1, 2, 60, 3600, 86400, 400000000}).Draw(t, label)
		return d
	}
	switch rapid.IntRange(0, 5).Draw(t, "exp-kind") {
	case 0:
		cl["exp"] = now.Unix() - off("expired-by")
	case 1:
	default:
		cl["exp"] = now.Unix() + off("expires-in")
	}
	switch rapid.IntRange(0, 7).Draw(t, "nbf-kind") {
	case 0:
		cl["nbf"] = now.Unix() + off("not-before-in")
	case 1, 2:
		cl["nbf"] = now.Unix() - off("not-before-ago")
	}
}

// genToken makes a token: honest or attacked. names lists the published kids.
func genToken(t *rapid.T, names []string, keys map[string]*rsa.PrivateKey, cl claims) (tok, attack string) {
	kid := rapid.SampledFrom(names).Draw(t, "kid")
	key := keys[kid]
	hdr := claims{"alg": "RS256", "typ": "JWT", "kid": kid}
	if rarely(t, "header") {
		switch n := word(t, "header-name"); n {
		case "alg", "kid":
		default:
			hdr[n] = word(t, "header-value")
		}
	}
	honest := signRS("RS256", hdr, cl, key)
	other := testKeys[len(testKeys)-1] // never published by the callers
	attack = rapid.SampledFrom([]string{"none", "none", "none", "none", "rs-other", "ps", "alg-none", "alg-none-signed", "hmac", "hmac-rs-header", "other-key", "published-other-key",
		"unknown-kid", "no-kid", "empty-kid", "kid-type", "payload", "header", "signature-bit", "signature-swap", "signature-cut", "no-signature", "alg-lie", "embedded-jwk",
		"segments", "alg-missing", "alg-case", "garbage", "kid-case", "strip-exp", "es-header", "wrapped", "wrapped", "key-address", "key-address"}).Draw(t, "attack")
	parts := strings.Split(honest, ".")
	with := func(mod func(h claims)) claims {
		h := claims{}
		for k, v := range hdr {
			h[k] = v
		}
		mod(h)
		return h
	}
	switch attack {
	case "none":
		tok = honest
	case "rs-other":
		alg := rapid.SampledFrom([]string{"RS384", "RS512"}).Draw(t, "alg")
		tok = signRS(alg, with(func(h claims) { h["alg"] = alg }), cl, key)
	case "ps":
		alg := rapid.SampledFrom([]string{"PS256", "PS384"}).Draw(t, "alg")
		signer := key
		if rapid.IntRange(0, 1).Draw(t, "wrong") == 1 {
			signer = other
		}
		tok = signRS(alg, with(func(h claims) { h["alg"] = alg }), cl, signer)
	case "alg-none":
		alg := rapid.SampledFrom([]string{"none", "None", "NONE", "nOnE", ""}).Draw(t, "alg")
		tok = seg(with(func(h claims) { h["alg"] = alg })) + "." + seg(cl) + "."
	case "alg-none-signed":
		tok = seg(with(func(h claims) { h["alg"] = "none" })) + "." + seg(cl) + "." + parts[2]
	case "hmac", "hmac-rs-header":
		der, _ := x509.MarshalPKIXPublicKey(&key.PublicKey)
		pkcs1 := x509.MarshalPKCS1PublicKey(&key.PublicKey)
		secret := [][]byte{der, pkcs1, key.N.Bytes(), []byte(kid), []byte(mustJSON(jwk(kid, &key.PublicKey))), {},
			pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: pkcs1}),
			[]byte(key.N.String()), []byte(b64.EncodeToString(key.N.Bytes())), []byte(fmt.Sprint(&key.PublicKey))}
		s := secret[rapid.IntRange(0, len(secret)-1).Draw(t, "mac-secret")]
		alg := "HS256"
		if attack == "hmac-rs-header" {
			alg = "RS256"
		}
		tok = signHS(with(func(h claims) { h["alg"] = alg }), cl, s)
	case "other-key":
		tok = signRS("RS256", hdr, cl, other)
	case "published-other-key": // signed with another published key: only that kid may vouch
		o := rapid.SampledFrom(names).Draw(t, "signer")
		tok = signRS("RS256", hdr, cl, keys[o])
	case "unknown-kid":
		k := rapid.SampledFrom([]string{"nobody", kid + "x", kid[:len(kid)-1], " " + kid, kid + "\u0000", "*", "../" + kid}).Draw(t, "unknown")
		tok = signRS("RS256", with(func(h claims) { h["kid"] = k }), cl, key)
	case "kid-case":
		tok = signRS("RS256", with(func(h claims) { h["kid"] = strings.ToUpper(kid) }), cl, key)
	case "no-kid":
		tok = signRS("RS256", with(func(h claims) { delete(h, "kid") }), cl, key)
	case "empty-kid":
		tok = signRS("RS256", with(func(h claims) { h["kid"] = "" }), cl, key)
	case "kid-type":
		v := rapid.SampledFrom([]interface{}{1, true, nil, []string{kid}, map[string]string{"kid": kid}}).Draw(t, "kid-value")
		tok = signRS("RS256", with(func(h claims) { h["kid"] = v }), cl, key)
	case "payload":
		c2 := claims{}
		for k, v := range cl {
			c2[k] = v
		}
		c2["sub"] = "mallory"
		tok = parts[0] + "." + seg(c2) + "." + parts[2]
	case "strip-exp":
		c2 := claims{"x": 1}
		for k, v := range cl {
			if k != "exp" && k != "nbf" {
				c2[k] = v
			}
		}
		tok = parts[0] + "." + seg(c2) + "." + parts[2]
	case "header":
		tok = seg(with(func(h claims) { h["cty"] = "x" })) + "." + parts[1] + "." + parts[2]
	case "signature-bit":
		sig, _ := b64.DecodeString(parts[2])
		i := rapid.IntRange(0, len(sig)*8-1).Draw(t, "bit")
		sig[i/8] ^= 1 << (i % 8)
		tok = parts[0] + "." + parts[1] + "." + b64.EncodeToString(sig)
	case "signature-swap":
		c2 := claims{"sub": "someone-else"}
		tok = parts[0] + "." + parts[1] + "." + strings.Split(signRS("RS256", hdr, c2, key), ".")[2]
	case "signature-cut":
		n := rapid.IntRange(1, len(parts[2])-1).Draw(t, "keep")
		tok = parts[0] + "." + parts[1] + "." + parts[2][:n]
	case "no-signature":
		tok = parts[0] + "." + parts[1] + "."
	case "alg-lie": // header names one hash, signature made with another
		alg := rapid.SampledFrom([]string{"RS384", "RS512", "PS256"}).Draw(t, "alg")
		tok = signRS("RS256", with(func(h claims) { h["alg"] = alg }), cl, key)
	case "es-header":
		tok = signRS("RS256", with(func(h claims) {
			h["alg"] = rapid.SampledFrom([]string{"ES256", "EdDSA", "HS256", "RS1"}).Draw(t, "alg")
		}), cl, key)
	case "embedded-jwk":
		k := kid
		if rapid.IntRange(0, 1).Draw(t, "own-kid") == 0 {
			k = "mallory"
		}
		tok = signRS("RS256", with(func(h claims) { h["kid"] = k; h["jwk"] = jwk(k, &other.PublicKey) }), cl, other)
	case "segments":
		tok = rapid.SampledFrom([]string{honest + ".", "." + honest, parts[0] + "." + parts[1], honest + ".x", parts[1] + "." + parts[0] + "." + parts[2], parts[0], ".."}).Draw(t, "segments")
	case "alg-missing":
		tok = signRS("RS256", with(func(h claims) { delete(h, "alg") }), cl, key)
	case "alg-case":
		tok = signRS("RS256", with(func(h claims) { h["alg"] = "rs256" }), cl, key)
	case "wrapped": // something else around an honest token
		w := rapid.SampledFrom([][2]string{{`"`, `"`}, {"'", "'"}, {"", ","}, {"", ";"}, {"", `"`}, {"", "'"}, {",", ""}, {"<", ">"}, {"(", ")"}, {"[", "]"}, {"", "="}, {"", "=="}, {"", "%20"}, {"", "+"}, {"", "/"}, {"", "-"}, {"", "_"}, {"", "\x00"}, {"", "#x"}, {"\ufeff", ""}, {"Bearer:", ""}, {"token=", ""}}).Draw(t, "wrapping")
		tok = w[0] + honest + w[1]
	case "key-address": // the token says where its key is to be found
		k := "mallory"
		if rapid.IntRange(0, 2).Draw(t, "own-kid") == 0 {
			k = kid
		}
		name := rapid.SampledFrom([]string{"jku", "jku", "iss", "x5u", "kid", "jwks_uri"}).Draw(t, "address-in")
		tok = signRS("RS256", with(func(h claims) {
			h["kid"] = k
			h[name] = malloryKeys(k, &other.PublicKey)
		}), cl, other)
	case "garbage":
		tok = rapid.StringMatching(`[A-Za-z0-9_.-]{1,60}`).Draw(t, "garbage")
	}
	return tok, attack
}

// malloryKeys is the address of a key set of the attacker.
func malloryKeys(kid string, key *rsa.PublicKey) string {
	malloryOnce.Do(func() {
		mallory = newTenant()
		// not counted among the tenants of the cases
		mallory.serve(epJwks, func(r Rec) Reply {
			q, _ := url.ParseQuery(r.Query)
			return Reply{Status: 200, Body: jwks(jwk(q.Get("kid"), key))}
		})
	})
	return mallory.url(epJwks) + "?kid=" + url.QueryEscape(kid)
}

var (
	malloryOnce sync.Once
	mallory     *Tenant
)
