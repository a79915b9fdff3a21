package harness

import (
	"crypto/rsa"
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
)

// userinfoModes answer a token; they vouch exactly with status 200.
var userinfoModes = []string{"vouch", "vouch", "vouch", "vouch", "vouch-empty", "other", "401", "403", "404", "500", "503", "201", "202", "204", "206", "400", "reset"}

func userinfoMode(rt *rapid.T) string {
	if rarely(rt, "userinfo-status") {
		if st := statusFrom(rt, "userinfo-word", 205, 207, 226, 299, 410, 418, 429); st != 200 {
			return fmt.Sprint(st)
		}
	}
	return rapid.SampledFrom(userinfoModes).Draw(rt, "userinfo")
}

func userinfoReply(mode, tok string) func(Rec) Reply {
	return func(r Rec) Reply {
		switch mode {
		case "vouch", "vouch-empty":
			if r.Auth == "Bearer "+tok {
				if mode == "vouch" {
					return Reply{Status: 200, Body: `{"sub":"user"}`}
				}
				return Reply{Status: 200}
			}
			return Reply{Status: 401, Body: `{"error":"invalid_token"}`}
		case "other":
			if r.Auth == "Bearer "+tok {
				return Reply{Status: 401, Body: `{"error":"invalid_token"}`}
			}
			return Reply{Status: 200, Body: `{"sub":"user"}`}
		case "reset":
			return Reply{Mode: "reset"}
		}
		n := 0
		fmt.Sscanf(mode, "%d", &n)
		if n == 204 {
			return Reply{Status: n}
		}
		return Reply{Status: n, Body: `{"sub":"user","active":true}`}
	}
}

func vouches(mode string) bool { return strings.HasPrefix(mode, "vouch") }

// genAccess draws an access token: opaque text, an attacked or expired JWT, or an honest one.
func genAccess(t *rapid.T, kid string, key *rsa.PrivateKey, cl claims) (tok, how string) {
	switch rapid.IntRange(0, 5).Draw(t, "token-kind") {
	case 0, 1:
		return spiced(t, "opaque-word", rapid.StringMatching(`[A-Za-z0-9._~+/-]{1,40}={0,2}`).Draw(t, "opaque"), isB64Text), "opaque"
	case 2:
		return rapid.StringMatching(`[A-Za-z0-9_-]{1,12}\.[A-Za-z0-9_-]{1,12}\.[A-Za-z0-9_-]{0,12}`).Draw(t, "dotted"), "dotted"
	case 3:
		return genToken(t, []string{kid}, map[string]*rsa.PrivateKey{kid: key}, cl)
	case 4:
		cl["exp"] = baseTime.Unix() - 100
		return token(kid, key, cl), "expired"
	}
	return token(kid, key, cl), "honest"
}

func genOpaqueRules(t *rapid.T, clientID string) (rules []v1.Rule) {
	for i := rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "rules"); i > 0; i-- {
		rules = append(rules, rapid.SampledFrom([]v1.Rule{
			{Claim: "aud", Match: "ANY", Values: []string{clientID}, Source: accessTok},
			{Claim: "aud", Match: "ANY", Values: []string{clientID}},
			{Claim: "role", Match: "NOT", Values: []string{"guest"}},
			{Claim: "role", Match: "NOT", Values: []string{"guest"}, Source: accessTok},
			{Claim: "sub", Match: "ALL", Values: []string{"user"}, Source: idTok},
			{Claim: "sub", Match: "ALL", Values: []string{"user"}, Source: idTok},
			{Claim: "sub", Match: "ALL", Values: []string{"root"}, Source: idTok},
			{Claim: "scope", Match: "ALL", Values: []string{"read"}},
		}).Draw(t, "rule"))
	}
	return rules
}

// opaqueExpect decides an access token and an ID token under an OIDC policy.
func opaqueExpect(acc, id string, stated []v1.Rule, clientID string, pub map[string]*rsa.PublicKey, vouched bool) verdict {
	rules := stated
	if rules == nil {
		rules = []v1.Rule{{Claim: "aud", Match: "ANY", Values: []string{clientID}}}
	}
	va, ca := refVerify(acc, pub, baseTime)
	switch va {
	case accept:
		if !rulesHold(rules, accessTok, ca) {
			return reject
		}
	case reject:
		for _, r := range stated {
			if r.Source != idTok {
				return reject
			}
		}
		if !vouched {
			return reject
		}
	default:
		return either
	}
	vi, ci := refVerify(id, pub, baseTime)
	if vi == accept && !rulesHold(rules, idTok, ci) {
		return reject
	}
	return vi
}

func TestC12(t *testing.T) {
	ev := newEvidence("C12", "an OIDC policy with 0-2 rules, an access token (opaque, three-part, attacked, expired or honest JWT), an ID token (honest, opaque or attacked) and one of 13 userinfo behaviours per request, through a login and up to 5 requests with its session, and the same through a JWT policy; oracle: reference verifier, rules, and what the userinfo endpoint saw; non-trivial: the access token is not a verifiable JWT",
		"tokens are visible ASCII without spaces", "userinfo endpoints do not redirect")
	defer ev.Write(t)
	l := shared(t)

	run(t, ev, "adapter", 2500, 80000, func(rt *rapid.T) {
		a := newApp(l, func(a *App) {
			a.policy.Rules = genOpaqueRules(rt, "client")
			a.policy.PolicyType = "oidc"
		})
		defer a.close()
		l.c.put(kJwt, a.ns, "j", map[string]string{"jwksUrl": a.tn.url(epJwks)})
		defer l.c.del(kJwt, a.ns, "j")
		l.c.put(kPolicy, a.ns, "api", onePolicy("api", v1.PathConfig{Prefix: "/"}, v1.PathPolicy{PolicyType: "jwt", Config: "j", Rules: a.policy.Rules}))
		defer l.c.del(kPolicy, a.ns, "api")
		if !l.sync1() {
			rt.Fatalf("the adapter did not pick up its configuration")
		}
		pub := map[string]*rsa.PublicKey{a.kid: &a.key.PublicKey}
		cl := claims{"sub": "user", "aud": rapid.SampledFrom([]string{"client", "client", "other"}).Draw(rt, "aud"), "role": rapid.SampledFrom([]string{"guest", "admin"}).Draw(rt, "role"), "scope": "read"}
		acc, how := genAccess(rt, a.kid, a.key, cl)
		id, idHow := a.idToken(nil), "honest"
		switch rapid.IntRange(0, 7).Draw(rt, "id-kind") {
		case 0:
			id, idHow = rapid.StringMatching(`[A-Za-z0-9._~+/-]{1,40}`).Draw(rt, "id-opaque"), "opaque"
		case 1:
			id, idHow = genToken(rt, []string{a.kid}, map[string]*rsa.PrivateKey{a.kid: a.key}, claims{"sub": "user"})
		case 2:
			id, idHow = acc, "the access token"
		}
		va, _ := refVerify(acc, pub, baseTime)
		opaque := va == reject
		log := []string{fmt.Sprintf("rules %s, access token %s, id token %s", mustJSON(a.policy.Rules), how, idHow)}
		fail := func(format string, args ...interface{}) {
			rt.Helper()
			msg := fmt.Sprintf(format, args...)
			msg = strings.ReplaceAll(strings.ReplaceAll(msg, acc, "<access>"), id, "<id>")
			rt.Fatalf("%s%s\naccess %s\nid %s", scrub(a, stripRandom(msg)), history(log), acc, id)
		}
		b := &Browser{}
		check := func(phase, mode string, ok bool, text string) {
			want := opaqueExpect(acc, id, a.policy.Rules, a.spec.ClientID, pub, vouches(mode))
			ev.Case(mustJSON(a.policy.Rules)+how+idHow+acc+mode+phase, opaque, func() interface{} {
				return map[string]interface{}{"history": append([]string(nil), log...), "access": acc, "id": id, "verdict": want.String()}
			})
			ev.Label(phase + ":" + want.String())
			if opaque {
				ev.Label("userinfo:" + mode)
			}
			if want == accept && !ok || want == reject && ok {
				fail("%s with userinfo %s must be: %s; answer: %s", phase, mode, want, text)
			}
		}
		mode := userinfoMode(rt)
		if rapid.Bool().Draw(rt, "vouch-login") {
			mode = "vouch"
		}
		a.tn.serve(epUserinfo, userinfoReply(mode, acc))
		log = append(log, "login, userinfo "+mode)
		ans := b.login(a, "/x", "code", grant{access: acc, id: id})
		in := ans.Redirect() && !a.isLogin(ans)
		if !in && ans.OK() {
			fail("callback answered OK: %s", ans.everything())
		}
		check("login", mode, in, ans.everything())
		for i := rapid.IntRange(0, 5).Draw(rt, "requests"); in && i > 0; i-- {
			if long := timePasses(rt, "time-passes", ages); long != "" {
				log = append(log, long)
			}
			mode := userinfoMode(rt)
			a.tn.serve(epUserinfo, userinfoReply(mode, acc))
			log = append(log, "request, userinfo "+mode)
			r := a.req("/x")
			r.Cookies = b.header()
			ans := a.send(r)
			if !ans.OK() && !a.isLogin(ans) {
				fail("neither let through nor sent to log in: %s", ans.everything())
			}
			check("request", mode, ans.OK(), ans.everything())
			in = ans.OK()
		}
		for _, q := range a.tn.requests(epUserinfo) {
			if q.Auth != "Bearer "+acc || q.Method != "GET" {
				fail("userinfo asked with %s %q", q.Method, q.Auth)
			}
		}
		// JWT policies never ask
		before := len(a.tn.requests(epUserinfo))
		a.tn.serve(epUserinfo, func(Rec) Reply { return Reply{Status: 200, Body: `{"sub":"user"}`} })
		for _, h := range []string{"Bearer " + acc, "Bearer " + a.accessToken(claims{"role": "admin", "scope": "read"}) + " " + id} {
			r := a.req("/x")
			r.Svc, r.Auth = "api", h
			want := jwtExpect(h, a.policy.Rules, pub)
			if ans := a.send(r); want == reject && ans.OK() || want == accept && !ans.OK() {
				fail("JWT policy, %s: must be %s: %s", h, want, ans.everything())
			}
		}
		if len(a.tn.requests(epUserinfo)) != before {
			fail("a JWT policy asked the userinfo endpoint")
		}
	})

	// the validator alone, with endpoints that do not exist
	tn := newTenant()
	defer tn.close()
	tn.serveKeys(jwk("k1", &testKeys[0].PublicKey))
	ks := keyset.New(tn.url(epJwks), nil)
	pub := map[string]*rsa.PublicKey{"k1": &testKeys[0].PublicKey}
	oidc := validator.NewTokenValidator(policy.OIDC)
	jwtv := validator.NewTokenValidator(policy.JWT)
	run(t, ev, "validator", 10000, 400000, func(rt *rapid.T) {
		cl := claims{"sub": "user", "aud": "client", "role": "admin", "scope": "read"}
		tok, how := genAccess(rt, "k1", testKeys[0], cl)
		endpoint := rapid.SampledFrom([]string{"live", "live", "", "/relative", "http://127.0.0.1:1/x", "http://%zz", "ftp://x/y", ":"}).Draw(rt, "endpoint")
		mode := userinfoMode(rt)
		tn.serve(epUserinfo, userinfoReply(mode, tok))
		vouched := endpoint == "live" && vouches(mode)
		if endpoint == "live" {
			endpoint = tn.url(epUserinfo)
		}
		rules := []v1.Rule{}
		if rapid.Bool().Draw(rt, "rule") { // as the engine hands stated rules over: with their source
			rules = append(rules, v1.Rule{Claim: "role", Match: "NOT", Values: []string{"guest"}, Source: rapid.SampledFrom([]string{accessTok, idTok}).Draw(rt, "source")})
		}
		va, ca := refVerify(tok, pub, baseTime)
		want := va
		if va == accept && !rulesHold(rules, accessTok, ca) {
			want = reject
		}
		if va == reject && vouched && (len(rules) == 0 || rules[0].Source == idTok) {
			want = accept
		}
		ev.Case(tok+endpoint+mode+mustJSON(rules), va == reject, func() interface{} {
			return map[string]interface{}{"token": tok, "kind": how, "endpoint": endpoint, "userinfo": mode, "rules": rules, "verdict": want.String()}
		})
		ev.Label("validator:" + want.String())
		err := oidc.Validate(tok, validator.Access, ks, rules, endpoint)
		if want == accept && err != nil || want == reject && err == nil {
			rt.Fatalf("access token (%s) with userinfo %q %s and rules %s must be: %s; validator: %v\n%s", how, strings.TrimPrefix(endpoint, idpURL()), mode, mustJSON(rules), want, err, tok)
		}
		tn.forget()
		if err := oidc.Validate(tok, validator.ID, ks, nil, endpoint); va == reject && err == nil {
			rt.Fatalf("invalid ID token (%s) accepted: %s", how, tok)
		}
		if err := jwtv.Validate(tok, validator.Access, ks, nil, endpoint); va == reject && err == nil {
			rt.Fatalf("invalid token (%s) accepted for a JWT policy: %s", how, tok)
		}
		if len(tn.requests(epUserinfo)) != 0 {
			rt.Fatalf("the userinfo endpoint was asked about an ID token or for a JWT policy (%s): %s", how, tok)
		}
	})
}
