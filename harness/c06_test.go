package harness

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
)

// words that rules and claims share, so that matches are frequent
var claimWords = []string{"admin", "read", "write", "openid", "Admin", "1", "0", "42", "1.5", "-3", "true", "false", "", "a b", "ünï", "100000000000", "9007199254740991", "0.25"}
var claimNames = []string{"scope", "roles", "sub", "n", "flag", "org.role", "org.dept.id", "org", "missing", "org.dept", "sub.x", "roles.0"}

func genScalar(t *rapid.T) interface{} {
	switch rapid.IntRange(0, 5).Draw(t, "scalar-kind") {
	case 0:
		return rapid.SampledFrom([]float64{0, 1, 42, 1.5, -3, 1e11, 9007199254740991, 0.25, -0.5, 3.999, 1234567.125}).Draw(t, "number")
	case 1:
		return rapid.Bool().Draw(t, "bool")
	default:
		return spiced(t, "word", rapid.SampledFrom(claimWords).Draw(t, "word"), nil)
	}
}

func genClaimValue(t *rapid.T) interface{} {
	switch rapid.IntRange(0, 9).Draw(t, "value-kind") {
	case 0, 1, 2:
		n := rapid.IntRange(0, 4).Draw(t, "words") + many(t, "more-words")
		w := make([]string, n)
		for i := range w {
			w[i] = spiced(t, "word", rapid.SampledFrom(claimWords).Draw(t, "word"), nil)
		}
		return strings.Join(w, " ")
	case 3, 4, 5:
		n := rapid.IntRange(0, 4).Draw(t, "elements") + many(t, "more-elements")
		l := make([]interface{}, n)
		for i := range l {
			l[i] = genScalar(t)
		}
		return l
	case 6:
		return genScalar(t)
	case 7: // unsupported: array with an object, array or null inside
		bad := rapid.SampledFrom([]interface{}{map[string]interface{}{"a": "b"}, []interface{}{"admin"}, nil}).Draw(t, "bad")
		l := []interface{}{genScalar(t), bad}
		if rapid.IntRange(0, 1).Draw(t, "bad-first") == 0 {
			l[0], l[1] = l[1], l[0]
		}
		return l
	case 8:
		return map[string]interface{}{"admin": "admin", "role": genScalar(t)}
	default:
		return nil
	}
}

func genClaims(t *rapid.T) claims {
	cl := claims{}
	for _, n := range []string{"scope", "roles", "sub", "n", "flag"} {
		if rapid.IntRange(0, 2).Draw(t, "has-"+n) > 0 {
			cl[n] = genClaimValue(t)
		}
	}
	// members of nested claims at the wrong level
	for _, n := range []string{"role", "dept", "id"} {
		if rapid.IntRange(0, 5).Draw(t, "astray-"+n) == 0 {
			cl[n] = genClaimValue(t)
			if n == "dept" && rapid.Bool().Draw(t, "astray-object") {
				cl[n] = map[string]interface{}{"id": genScalar(t)}
			}
		}
	}
	// claims whose own names have dots (custom claims named by URL have, too)
	for _, n := range []string{"org.role", "org.dept.id", "org.dept", "dept.id", "sub.x", "roles.0", ".", "org."} {
		if rapid.IntRange(0, 9).Draw(t, "dotted-"+n) == 0 {
			cl[n] = genClaimValue(t)
		}
	}
	if rarely(t, "spice") {
		cl[word(t, "claim-name")] = genClaimValue(t)
	}
	switch rapid.IntRange(0, 3).Draw(t, "org") {
	case 0:
	case 1:
		cl["org"] = genClaimValue(t)
	default:
		org := map[string]interface{}{}
		if rapid.Bool().Draw(t, "org-role") {
			org["role"] = genClaimValue(t)
		}
		switch rapid.IntRange(0, 2).Draw(t, "org-dept") {
		case 0:
			org["dept"] = map[string]interface{}{"id": genClaimValue(t)}
		case 1:
			org["dept"] = genClaimValue(t)
		}
		if rapid.IntRange(0, 3).Draw(t, "org-id") == 0 {
			org["id"] = genClaimValue(t)
		}
		cl["org"] = org
	}
	return cl
}

// genRules draws rules; values are taken from the claims half of the time.
func genRules(t *rapid.T, about claims) []v1.Rule {
	n := rapid.IntRange(1, 3).Draw(t, "rules")
	if n == 3 {
		n += many(t, "more-rules")
	}
	out := make([]v1.Rule, n)
	for i := range out {
		r := v1.Rule{Claim: rapid.SampledFrom(claimNames).Draw(t, "claim"), Match: rapid.SampledFrom([]string{"", "ALL", "ANY", "NOT", "NOT", "ANY"}).Draw(t, "match"),
			Source: rapid.SampledFrom([]string{"", accessTok, idTok}).Draw(t, "source")}
		if rarely(t, "spice") {
			r.Claim = word(t, "claim-word")
		}
		parts := strings.Split(r.Claim, ".")
		vals, _ := claimValues(map[string]interface{}(about), parts)
		if literal, ok := claimValues(map[string]interface{}(about), []string{r.Claim}); ok && len(parts) > 1 && rapid.Bool().Draw(t, "literal") {
			vals = literal
		}
		if len(vals) == 0 { // a careless walk may end up elsewhere
			for i := range parts {
				near, _ := claimValues(map[string]interface{}(about), parts[i:])
				vals = append(vals, near...)
				near, _ = claimValues(map[string]interface{}(about), parts[:i])
				vals = append(vals, near...)
			}
			near, _ := claimValues(map[string]interface{}(about), append(append([]string{}, parts[0]), parts[len(parts)-1]))
			vals = append(vals, near...)
		}
		r.Values = []string{}
		for k := rapid.SampledFrom([]int{1, 1, 2, 3, 0}).Draw(t, "values") + many(t, "more-values"); k > 0; k-- {
			if whole := strings.Join(vals, " "); len(vals) > 0 && rapid.IntRange(0, 7).Draw(t, "near-claim") == 0 {
				v := vals[rapid.IntRange(0, len(vals)-1).Draw(t, "which")]
				r.Values = append(r.Values, rapid.SampledFrom([]string{whole, whole, " " + v, v + " ", strings.ToUpper(v), strings.ToLower(v), v + "x", v + ".0", v + "0", "+" + v, "[" + whole + "]", "\"" + v + "\"", strings.Join(vals, ","), string([]rune(v)[:len([]rune(v))/2])}).Draw(t, "twisted"))
			} else if len(vals) > 0 && rapid.IntRange(0, 3).Draw(t, "from-claim") > 0 {
				r.Values = append(r.Values, vals[rapid.IntRange(0, len(vals)-1).Draw(t, "which")])
			} else {
				r.Values = append(r.Values, spiced(t, "value", rapid.SampledFrom(claimWords).Draw(t, "value"), nil))
			}
		}
		out[i] = r
	}
	return out
}

func TestC06(t *testing.T) {
	ev := newEvidence("C06", "generated claims (nested, arrays, numbers, unsupported types) and 1-3 rules sharing their vocabulary, on access and ID tokens, judged by a reference evaluator; non-trivial: at least one rule applies to the token and names a claim it has")
	defer ev.Write(t)
	tn := newTenant()
	defer tn.close()
	tn.serveKeys(jwk("k1", &testKeys[0].PublicKey))
	ks := keyset.New(tn.url(epJwks), nil)

	record := func(cl claims, rules []v1.Rule, kind string, want bool) {
		applies := false
		for _, r := range rules {
			if r.Source == kind || r.Source == "" && kind == accessTok {
				if v, ok := claimValues(map[string]interface{}(cl), strings.Split(r.Claim, ".")); !ok || v != nil {
					applies = true
				}
				ev.Label("match:" + r.Match)
			}
		}
		ev.Case(mustJSON([]interface{}{cl, rules, kind}), applies, func() interface{} {
			return map[string]interface{}{"claims": cl, "rules": rules, "token": kind, "passes": want}
		})
		ev.Label(fmt.Sprintf("passes=%v", want))
	}

	run(t, ev, "validator", 24000, 1000000, func(rt *rapid.T) {
		cl := genClaims(rt)
		rules := genRules(rt, cl)
		kind := rapid.SampledFrom([]string{accessTok, idTok}).Draw(rt, "token")
		typ := rapid.SampledFrom([]policy.Type{policy.JWT, policy.OIDC}).Draw(rt, "policy")
		tt := validator.Access
		if kind == idTok {
			tt = validator.ID
		}
		want := rulesHold(rules, kind, cl)
		record(cl, rules, kind, want)
		err := validator.NewTokenValidator(typ).Validate(token("k1", testKeys[0], cl), tt, ks, rules, tn.url(epUserinfo))
		if (err == nil) != want {
			rt.Fatalf("%s with claims %s\nrules %s\nadapter says %v, the rules say %v", kind, mustJSON(cl), mustJSON(rules), err, want)
		}
	})

	l := shared(t)
	run(t, ev, "adapter", 600, 24000, func(rt *rapid.T) {
		var ids = []claims{genClaims(rt), genClaims(rt), genClaims(rt)}
		ns := newNS()
		rules := genRules(rt, ids[0])
		noRules := rapid.IntRange(0, 9).Draw(rt, "no-rules") == 0
		if noRules {
			rules = nil
		}
		l.c.put(kJwt, ns, "j", map[string]string{"jwksUrl": tn.url(epJwks)})
		l.c.put(kPolicy, ns, "p", onePolicy("s", v1.PathConfig{Prefix: "/api"}, v1.PathPolicy{PolicyType: "jwt", Config: "j", Rules: rules}))
		defer l.c.del(kJwt, ns, "j")
		defer l.c.del(kPolicy, ns, "p")
		if !l.sync1() {
			rt.Fatalf("the adapter did not pick up its configuration")
		}
		for i, cl := range ids {
			other := ids[(i+1)%len(ids)]
			if rapid.IntRange(0, 3).Draw(rt, "same-token") == 0 {
				other = cl
			}
			auth := "Bearer " + token("k1", testKeys[0], cl)
			want := rulesHold(rules, accessTok, cl)
			if rapid.Bool().Draw(rt, "with-id") {
				auth += " " + token("k1", testKeys[0], other)
				want = want && rulesHold(rules, idTok, other)
			}
			record(cl, rules, accessTok, want)
			a := l.do(decorated(rt, Req{NS: ns, Svc: "s", Method: "GET", Path: "/api", Auth: auth}).msg())
			if a.OK() != want {
				rt.Fatalf("access claims %s, id claims %s\nrules %s\nadapter says %s, the rules say %v", mustJSON(cl), mustJSON(other), mustJSON(rules), a.everything(), want)
			}
		}
	})

	// OIDC: without rules the access token's aud must contain the client id; with rules only those count.
	run(t, ev, "oidc", 400, 16000, func(rt *rapid.T) {
		client := "client-1"
		var rules []v1.Rule
		app := newApp(l, func(a *App) { a.spec.ClientID = client })
		defer app.close()
		// the rules and the client id change between logins; those now in force count
		for round, n := 0, rapid.IntRange(1, 4).Draw(rt, "rounds"); round < n; round++ {
			acc, id := genClaims(rt), genClaims(rt)
			same := rapid.IntRange(0, 3).Draw(rt, "same-token") == 0
			if round > 0 && rapid.Bool().Draw(rt, "other-client") {
				app.spec.ClientID = rapid.SampledFrom([]string{"client-1", "client-2", "client-11"}).Draw(rt, "client")
				l.c.put(kOidc, app.ns, "app", app.spec)
			}
			former := client
			client = app.spec.ClientID
			switch rapid.IntRange(0, 6).Draw(rt, "aud") {
			case 0:
				acc["aud"] = client
			case 1:
				acc["aud"] = []interface{}{"other", client}
			case 2:
				acc["aud"] = "other " + client
			case 3:
				acc["aud"] = []interface{}{"other", client + "1", "client"}
			case 4:
				acc["aud"] = former
			case 5:
				id["aud"] = client
			case 6:
				acc["aud"] = client + "x"
			}
			if same {
				id = acc
			}
			if round == 0 || rapid.Bool().Draw(rt, "other-rules") {
				rules = nil
				if rapid.Bool().Draw(rt, "with-rules") {
					rules = genRules(rt, acc)
				}
				app.policy.Rules = rules
				l.c.put(kPolicy, app.ns, "app", onePolicy(app.svc, v1.PathConfig{Prefix: app.prefix}, app.policy))
			}
			if !l.sync1() {
				rt.Fatalf("the adapter did not pick up its configuration")
			}
			eff := rules
			if rules == nil {
				eff = []v1.Rule{{Claim: "aud", Match: "ANY", Values: []string{client}}}
			}
			want := rulesHold(eff, accessTok, acc) && rulesHold(eff, idTok, id)
			record(acc, eff, accessTok, want)
			b := &Browser{}
			a := b.login(app, "/x", "code", grant{access: token("k1", testKeys[0], acc), id: token("k1", testKeys[0], id)})
			if got := a.Redirect(); got != want {
				rt.Fatalf("round %d: login with access claims %s, id claims %s\nrules %s\nadapter answered %s, the rules say %v", round, mustJSON(acc), mustJSON(id), mustJSON(rules), scrub(app, a.everything()), want)
			}
			if want {
				if a := b.send(app, app.req("/x")); !a.OK() {
					rt.Fatalf("round %d: session refused after login: %s", round, scrub(app, a.everything()))
				}
			}
		}
	})
}
