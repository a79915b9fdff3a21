package harness

import (
	"crypto/rsa"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
)

var kidPool = []string{"k1", "k2", "rotating-key", "K1", "a.b", "kid with space"}

// genKeys draws a published key set: some kids may share a key.
func genKeys(t *rapid.T) (names []string, priv map[string]*rsa.PrivateKey, pub map[string]*rsa.PublicKey) {
	priv, pub = map[string]*rsa.PrivateKey{}, map[string]*rsa.PublicKey{}
	n := rapid.IntRange(1, 4).Draw(t, "keys")
	for i := 0; i < n; i++ {
		kid := spiced(t, "kid-word", kidPool[(i+rapid.IntRange(0, 1).Draw(t, "kid"))%len(kidPool)], func(s string) bool { return isPrintable(s) && len(s) > 1 })
		if pub[kid] != nil {
			continue
		}
		k := testKeys[rapid.IntRange(0, len(testKeys)-2).Draw(t, "key")]
		names = append(names, kid)
		priv[kid], pub[kid] = k, &k.PublicKey
	}
	return
}

// genBasicRules are rules every token with basic claims meets.
func genBasicRules(t *rapid.T) (rules []v1.Rule) {
	for n := rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "rules"); n > 0; n-- {
		r := v1.Rule{Claim: "iss", Match: rapid.SampledFrom([]string{"", "ALL", "ANY", "NOT"}).Draw(t, "match"), Values: []string{"http://idp"}, Source: rapid.SampledFrom([]string{"", accessTok, idTok}).Draw(t, "source")}
		if r.Match == "NOT" {
			r.Values = []string{"http://other"}
		}
		rules = append(rules, r)
	}
	return rules
}

func genBasicClaims(t *rapid.T) claims {
	cl := claims{"sub": rapid.SampledFrom([]string{"u1", "u2", "ünïcode", ""}).Draw(t, "sub"), "iss": "http://idp"}
	if rapid.IntRange(0, 2).Draw(t, "more") == 0 {
		cl["aud"] = []string{"client", "other"}
		cl["scope"] = "openid profile"
		cl["iat"] = baseTime.Unix() - 10
	}
	if rarely(t, "claim") {
		switch n := word(t, "claim-name"); n {
		case "exp", "nbf", "iat", "aud", "iss", "sub", "scope", "role":
		default:
			cl[n] = word(t, "claim-value")
		}
	}
	return cl
}

func TestC05(t *testing.T) {
	ev := newEvidence("C05", "a published key set of 1-4 RSA keys and tokens made from an honest one by one of 27 attacks, or honest with drawn alg, exp and nbf, judged against an independent verifier; non-trivial: the token is attacked or carries exp or nbf",
		"exp and nbf are numbers and differ from the current second; the clock is the harness's")
	defer ev.Write(t)

	judge := func(rt *rapid.T, names []string, tok, attack string, want verdict, ok bool, detail string) {
		ev.Case(tok+fmt.Sprint(names), attack != "none" || want == reject, func() interface{} {
			return map[string]interface{}{"published": names, "attack": attack, "token": tok, "verdict": want.String()}
		})
		ev.Label("attack:" + attack)
		ev.Label("verdict:" + want.String())
		if want == accept && !ok {
			rt.Fatalf("valid token (%s) refused: %s\npublished %v\n%s", attack, detail, names, tok)
		}
		if want == reject && ok {
			rt.Fatalf("invalid token (%s) accepted\npublished %v\n%s", attack, names, tok)
		}
	}

	run(t, ev, "validator", 3000, 120000, func(rt *rapid.T) {
		names, priv, pub := genKeys(rt)
		tn := newTenant()
		defer tn.close()
		var docs []map[string]interface{}
		for _, n := range names {
			docs = append(docs, jwk(n, pub[n]))
		}
		tn.serveKeys(docs...)
		ks := keyset.New(tn.url(epJwks), nil)
		now := baseTime.Add(secs(rapid.SampledFrom([]int{0, 0, 1000000, -1000000, 300000000}).Draw(rt, "clock")))
		setClock(now)
		for i := 0; i < 6; i++ {
			cl := genBasicClaims(rt)
			genTimes(rt, cl, now)
			tok, attack := genToken(rt, names, priv, cl)
			want, _ := refVerify(tok, pub, now)
			kind := rapid.SampledFrom([]string{"jwt-access", "jwt-id", "oidc-id"}).Draw(rt, "as")
			typ, tt := policy.JWT, validator.Access
			if kind != "jwt-access" {
				tt = validator.ID
			}
			if kind == "oidc-id" {
				typ = policy.OIDC
			}
			err := validator.NewTokenValidator(typ).Validate(tok, tt, ks, genBasicRules(rt), tn.url(epUserinfo))
			detail := ""
			if err != nil {
				detail = err.Error()
			}
			judge(rt, names, tok, attack+"/"+kind, want, err == nil, detail)
		}
	})

	l := shared(t)
	run(t, ev, "adapter", 200, 6000, func(rt *rapid.T) {
		names, priv, pub := genKeys(rt)
		tn := newTenant()
		defer tn.close()
		var docs []map[string]interface{}
		for _, n := range names {
			docs = append(docs, jwk(n, pub[n]))
		}
		tn.serveKeys(docs...)
		ns := newNS()
		l.c.put(kJwt, ns, "j", map[string]string{"jwksUrl": tn.url(epJwks)})
		l.c.put(kPolicy, ns, "p", onePolicy("s", v1.PathConfig{Prefix: "/api"}, v1.PathPolicy{PolicyType: "jwt", Config: "j", Rules: genBasicRules(rt)}))
		defer l.c.del(kJwt, ns, "j")
		defer l.c.del(kPolicy, ns, "p")
		if !l.sync1() {
			rt.Fatalf("the adapter did not pick up its configuration")
		}
		good := token(names[0], priv[names[0]], claims{"sub": "x", "iss": "http://idp"})
		for i := 0; i < 12; i++ {
			cl := genBasicClaims(rt)
			genTimes(rt, cl, baseTime)
			tok, attack := genToken(rt, names, priv, cl)
			want, _ := refVerify(tok, pub, baseTime)
			auth, as := "Bearer "+tok, "/access"
			if rapid.IntRange(0, 2).Draw(rt, "as-id") == 0 {
				auth, as = "Bearer "+good+" "+tok, "/id"
			}
			a := l.do(decorated(rt, Req{NS: ns, Svc: "s", Method: "GET", Path: "/api/x", Auth: auth}).msg())
			judge(rt, names, tok, attack+as, want, a.OK(), a.everything())
		}
	})
}
