package harness

import (
	"crypto/rsa"
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

// jwtExpect decides an Authorization header by the protocol.
func jwtExpect(header string, rules []v1.Rule, pub map[string]*rsa.PublicKey) verdict {
	var toks []string
	switch {
	case strings.HasPrefix(header, "Bearer "):
		toks = strings.Split(strings.TrimPrefix(header, "Bearer "), " ")
	case strings.HasPrefix(header, "bearer "):
		toks = strings.Split(strings.TrimPrefix(header, "bearer "), " ")
	default:
		return reject
	}
	if len(toks) == 2 && toks[1] == "" && toks[0] != "" {
		return either // a trailing space
	}
	if len(toks) > 2 {
		return reject
	}
	out := accept
	for i, tok := range toks {
		v, cl := refVerify(tok, pub, clock())
		if v == either {
			out = either
			v = accept
		}
		if v == reject || !rulesHold(rules, []string{accessTok, idTok}[i], cl) {
			return reject
		}
	}
	return out
}

// challenge checks a 401 answer by RFC 6750; "" if right.
func challenge(a Answer, rules []v1.Rule) string {
	if a.Err != "" || a.Code != 16 || a.HTTP != 401 {
		return "not an unauthenticated direct 401"
	}
	h := a.Header("WWW-Authenticate")
	if !strings.HasPrefix(h, "Bearer ") {
		return "not a Bearer challenge"
	}
	params := map[string]string{}
	for rest := strings.TrimPrefix(h, "Bearer "); rest != ""; {
		eq := strings.Index(rest, `="`)
		if eq < 0 {
			return "malformed challenge"
		}
		name := strings.Trim(rest[:eq], ", ")
		rest = rest[eq+2:]
		end := strings.IndexByte(rest, '"')
		if end < 0 {
			return "malformed challenge"
		}
		params[name] = rest[:end]
		rest = rest[end+1:]
	}
	if params["error"] != "invalid_token" {
		return "challenge does not carry error invalid_token"
	}
	for _, r := range rules {
		if r.Claim != "scope" {
			continue
		}
		if got := params["scopes"]; got != strings.Join(r.Values, " ") {
			return fmt.Sprintf("challenge scopes are %q, the scope rule requires %q", got, r.Values)
		}
		return ""
	}
	if s, ok := params["scopes"]; ok && s != "" {
		return "challenge names scopes although no rule does"
	}
	return ""
}

func TestC07(t *testing.T) {
	ev := newEvidence("C07", "an Authorization header (well-formed or one of 18 malformations; access and ID token each honest, attacked, expired or breaking a rule) against a JWT policy with 0-3 rules, judged by a reference parser, verifier and rule evaluator; non-trivial: two tokens, or a rejection")
	defer ev.Write(t)
	l := shared(t)
	run(t, ev, "adapter", 1000, 40000, func(rt *rapid.T) {
		names, priv, pub := genKeys(rt)
		tn := newTenant()
		defer tn.close()
		var docs []map[string]interface{}
		for _, n := range names {
			docs = append(docs, jwk(n, pub[n]))
		}
		tn.serveKeys(docs...)
		var rules []v1.Rule
		if rapid.IntRange(0, 5).Draw(rt, "scope-rule") > 0 {
			r := v1.Rule{Claim: "scope", Values: rapid.SampledFrom([][]string{{"read"}, {"read", "write"}, {"admin", "read", "write"}, {spiced(rt, "scope-word", "x", isScope), "read"}}).Draw(rt, "scopes"),
				Match: rapid.SampledFrom([]string{"", "ALL", "ANY"}).Draw(rt, "match"), Source: rapid.SampledFrom([]string{"", accessTok, accessTok, idTok}).Draw(rt, "source")}
			for i := many(rt, "more-scopes"); i > 0; i-- {
				r.Values = append(r.Values, fmt.Sprintf("scope%d", i))
			}
			rules = append(rules, r)
		}
		for i := rapid.IntRange(0, 2).Draw(rt, "more-rules"); i > 0; i-- {
			r := v1.Rule{Claim: rapid.SampledFrom([]string{"sub", "role", "iss"}).Draw(rt, "claim"), Values: []string{rapid.SampledFrom([]string{"u1", "u2", "http://idp", "admin"}).Draw(rt, "value")},
				Match: rapid.SampledFrom([]string{"ANY", "NOT", "ALL"}).Draw(rt, "match"), Source: rapid.SampledFrom([]string{"", accessTok, idTok}).Draw(rt, "source")}
			if rapid.Bool().Draw(rt, "before") {
				rules = append([]v1.Rule{r}, rules...)
			} else {
				rules = append(rules, r)
			}
		}
		ns := newNS()
		l.c.put(kJwt, ns, "j", map[string]string{"jwksUrl": tn.url(epJwks)})
		l.c.put(kPolicy, ns, "p", onePolicy("s", v1.PathConfig{Prefix: "/api"}, v1.PathPolicy{PolicyType: "jwt", Config: "j", Rules: rules}))
		defer l.c.del(kJwt, ns, "j")
		defer l.c.del(kPolicy, ns, "p")
		if !l.sync1() {
			rt.Fatalf("the adapter did not pick up its configuration")
		}
		genTok := func() (string, string) {
			cl := claims{"sub": rapid.SampledFrom([]string{"u1", "u2"}).Draw(rt, "sub"), "iss": "http://idp"}
			if rapid.IntRange(0, 3).Draw(rt, "scoped") > 0 {
				cl["scope"] = rapid.SampledFrom([]interface{}{"read", "read write", "admin read write", []interface{}{"read", "admin"}}).Draw(rt, "scope")
			}
			if rapid.IntRange(0, 3).Draw(rt, "role") == 0 {
				cl["role"] = "admin"
			}
			genTimes(rt, cl, baseTime)
			if rapid.IntRange(0, 2).Draw(rt, "attacked") == 0 {
				return genToken(rt, names, priv, cl)
			}
			kid := rapid.SampledFrom(names).Draw(rt, "kid")
			return token(kid, priv[kid], cl), "none"
		}
		var sent []Req
		var got []string
		for i := 0; i < 10; i++ {
			acc, how := genTok()
			id, how2 := genTok()
			form := rapid.SampledFrom([]string{"one", "one", "two", "two", "lower", "lower-two", "missing", "empty-bearer", "no-token", "no-scheme", "upper", "basic", "double-space", "three", "tab", "leading-space", "comma", "trailing-space", "scheme-only-lower", "id-only", "token-first", "Bearer2", "quoted"}).Draw(rt, "form")
			h := map[string]string{"one": "Bearer " + acc, "two": "Bearer " + acc + " " + id, "lower": "bearer " + acc, "lower-two": "bearer " + acc + " " + id, "missing": "", "empty-bearer": "Bearer",
				"no-token": "Bearer ", "no-scheme": acc, "upper": "BEARER " + acc, "basic": "Basic " + acc, "double-space": "Bearer  " + acc, "three": "Bearer " + acc + " " + id + " " + acc, "tab": "Bearer\t" + acc,
				"leading-space": " Bearer " + acc, "comma": "Bearer " + acc + "," + id, "trailing-space": "Bearer " + acc + " ", "scheme-only-lower": "bearer", "id-only": "Bearer  " + id, "token-first": acc + " Bearer", "Bearer2": "BearerX " + acc, "quoted": `Bearer "` + acc + `"`}[form]
			want := jwtExpect(h, rules, pub)
			if rarely(rt, "header") {
				form = "word"
				h = spiced(rt, "header", rapid.SampledFrom([]string{"", "Bearer ", "Bearer " + acc, "Bearer " + acc + " " + id, "Bearer " + acc + " "}).Draw(rt, "header-base"), isPrintable)
				want = jwtExpect(h, rules, pub)
			}
			r := decorated(rt, Req{NS: ns, Svc: "s", Method: "GET", Path: "/api/x", Auth: h})
			a := l.do(r.msg())
			ev.Case(h+mustJSON(rules), form == "two" || want == reject, func() interface{} {
				return map[string]interface{}{"form": form, "tokens": []string{how, how2}, "rules": rules, "verdict": want.String(), "header": h}
			})
			ev.Label("form:" + form)
			ev.Label("verdict:" + want.String())
			if want == accept && !a.OK() || want == reject && a.OK() {
				rt.Fatalf("form %s, access token %s, id token %s: protocol says %s, adapter answered %s\nrules %s\nAuthorization: %s", form, how, how2, want, a.everything(), mustJSON(rules), h)
			}
			if !a.OK() {
				if bad := challenge(a, rules); bad != "" {
					rt.Fatalf("form %s, access token %s, id token %s: %s: %s\nrules %s\nAuthorization: %s", form, how, how2, bad, a.everything(), mustJSON(rules), h)
				}
			} else if a.Auth != "" || a.Cookie != "" || a.HTTP != 0 {
				rt.Fatalf("OK answer carries more than OK: %s", a.everything())
			}
			sent, got = append(sent, r), append(got, a.everything())
		}
		// the same requests again, in another order: the same answers
		for _, i := range rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}).Draw(rt, "again") {
			if a := l.do(sent[i].msg()); a.everything() != got[i] {
				rt.Fatalf("the same request was answered differently later: first %s then %s", got[i], a.everything())
			}
		}
	})
}
