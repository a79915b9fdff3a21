package harness

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

// tokenRequest checks one request to the token endpoint; "" if right.
func tokenRequest(r Rec, spec v1.OidcConfigSpec, code, redirect, refresh string) string {
	if r.Method != "POST" || strings.SplitN(r.ContentType, ";", 2)[0] != "application/x-www-form-urlencoded" {
		return fmt.Sprintf("not a form POST: %s %s", r.Method, r.ContentType)
	}
	f := r.Form()
	want := map[string]string{"grant_type": "authorization_code", "code": code, "redirect_uri": redirect}
	if refresh != "" {
		want = map[string]string{"grant_type": "refresh_token", "refresh_token": refresh}
	}
	if spec.AuthMethod == "client_secret_post" {
		want["client_id"], want["client_secret"] = spec.ClientID, spec.ClientSecret
		if r.Auth != "" {
			return fmt.Sprintf("client_secret_post with an Authorization header %q", r.Auth)
		}
	} else {
		id, sec, ok := r.Basic()
		if !ok || id != spec.ClientID || sec != spec.ClientSecret {
			return fmt.Sprintf("Basic credentials are %q %q, want %q %q", id, sec, spec.ClientID, spec.ClientSecret)
		}
		if len(f["client_secret"]) > 0 {
			return "client secret both in the form and by Basic"
		}
	}
	for k, v := range want {
		if len(f[k]) != 1 || f[k][0] != v {
			return fmt.Sprintf("%s is %q, want %q", k, f[k], v)
		}
	}
	for k := range f {
		if _, ok := want[k]; !ok && k != "client_id" && k != "scope" {
			return fmt.Sprintf("unexpected parameter %s", k)
		}
	}
	return ""
}

// genText draws text with characters that encodings get wrong.
func genText(t *rapid.T, label string) string {
	if rarely(t, label) {
		return spiced(t, label+"-word", word(t, label), nil)
	}
	return rapid.OneOf(
		rapid.SampledFrom([]string{"SplxlOBeZQQYbYS6WxSbIA", "a/b+c=&d", "%41", "ü", "a b", "x&code=y", "=", "+", "%", "a;b", "#frag", "?q", "\"q\"", "日本", "a\nb", "<x>", "client_secret=x", "a%26b", "..", "\\", "'"}),
		rapid.StringN(1, 40, 120),
		rapid.StringMatching(`[A-Za-z0-9._~-]{1,60}`),
	).Draw(t, label)
}

// genTokenAnswer draws a token endpoint's answer to a request that it would grant with g:
// accept = a session must come of it, reject = none may.
func genTokenAnswer(t *rapid.T, g grant, wrong grant) (Reply, string, verdict) {
	doc := tokenDoc(g)
	minimal := mustJSON(map[string]string{"access_token": g.access, "id_token": g.id})
	extra := mustJSON(map[string]interface{}{"access_token": g.access, "id_token": g.id, "refresh_token": g.ref, "expires_in": 1, "scope": []string{"x"}, "token_type": "bearer", "error": nil, "nested": map[string]int{"a": 1}})
	special := statusFrom(t, "status-word", 205, 207, 226, 299)
	if special == 200 {
		special = 418
	}
	kinds := []struct {
		name string
		r    Reply
		v    verdict
	}{
		{"good", Reply{Status: 200, Body: doc}, accept},
		{"good", Reply{Status: 200, Body: doc}, accept},
		{"minimal", Reply{Status: 200, Body: minimal}, accept},
		{"extra", Reply{Status: 200, Body: extra}, accept},
		{"spaced", Reply{Status: 200, Body: "\n  " + doc + "\n"}, accept},
		{"201", Reply{Status: 201, Body: doc}, reject},
		{"202", Reply{Status: 202, Body: doc}, reject},
		{"203", Reply{Status: 203, Body: doc}, reject},
		{"206", Reply{Status: 206, Body: doc}, reject},
		{"204", Reply{Status: 204}, reject},
		{fmt.Sprintf("%d-tokens", special), Reply{Status: special, Body: doc}, reject},
		{"400", Reply{Status: 400, Body: `{"error":"invalid_grant"}`}, reject},
		{"400-tokens", Reply{Status: 400, Body: doc}, reject},
		{"401-tokens", Reply{Status: 401, Body: doc}, reject},
		{"403", Reply{Status: 403, Body: `{"error":"access_denied","error_description":"no"}`}, reject},
		{"404-html", Reply{Status: 404, Body: "<html>"}, reject},
		{"429-empty", Reply{Status: 429}, reject},
		{"500-tokens", Reply{Status: 500, Body: doc}, reject},
		{"500-array", Reply{Status: 500, Body: `[1,2]`}, reject},
		{"503-null", Reply{Status: 503, Body: `null`}, reject},
		{"500-typed-error", Reply{Status: 500, Body: `{"error":{"x":1}}`}, reject},
		{"no-refresh", Reply{Status: 200, Body: mustJSON(map[string]interface{}{"access_token": g.access, "id_token": g.id, "expires_in": 3600, "token_type": "Bearer"})}, accept},
		{"no-access", Reply{Status: 200, Body: mustJSON(map[string]string{"id_token": g.id, "refresh_token": "r"})}, reject},
		{"empty-access", Reply{Status: 200, Body: mustJSON(map[string]string{"access_token": "", "id_token": g.id})}, reject},
		{"null-access", Reply{Status: 200, Body: mustJSON(map[string]interface{}{"access_token": nil, "id_token": g.id})}, reject},
		{"typed-access", Reply{Status: 200, Body: mustJSON(map[string]interface{}{"access_token": 5, "id_token": g.id})}, reject},
		{"list-access", Reply{Status: 200, Body: mustJSON(map[string]interface{}{"access_token": []string{g.access}, "id_token": g.id})}, reject},
		{"no-id", Reply{Status: 200, Body: mustJSON(map[string]string{"access_token": g.access})}, reject},
		{"wrong-access", Reply{Status: 200, Body: mustJSON(map[string]string{"access_token": wrong.access, "id_token": g.id})}, reject},
		{"wrong-id", Reply{Status: 200, Body: mustJSON(map[string]string{"access_token": g.access, "id_token": wrong.id})}, reject},
		{"swapped", Reply{Status: 200, Body: mustJSON(map[string]string{"access_token": wrong.id, "id_token": g.access})}, reject},
		{"error-200", Reply{Status: 200, Body: `{"error":"invalid_grant"}`}, reject},
		{"not-json", Reply{Status: 200, Body: "access_token=" + g.access + "&id_token=" + g.id}, reject},
		{"empty", Reply{Status: 200}, reject},
		{"null", Reply{Status: 200, Body: "null"}, reject},
		{"array", Reply{Status: 200, Body: "[" + doc + "]"}, reject},
		{"string", Reply{Status: 200, Body: mustJSON(doc)}, reject},
		{"html", Reply{Status: 200, Body: "<html>" + doc}, reject},
		{"half", Reply{Status: 200, Body: doc[:len(doc)/2]}, reject},
		{"truncate", Reply{Status: 200, Body: doc[:len(doc)/2], Mode: "truncate"}, reject},
		{"reset", Reply{Mode: "reset"}, reject},
		{"expires-string", Reply{Status: 200, Body: mustJSON(map[string]interface{}{"access_token": g.access, "id_token": g.id, "expires_in": "3600"})}, either},
		{"trailing", Reply{Status: 200, Body: doc + "}"}, either},
	}
	k := kinds[rapid.IntRange(0, len(kinds)-1).Draw(t, "answer")]
	return k.r, k.name, k.v
}

func TestC14(t *testing.T) {
	ev := newEvidence("C14", "(requests) client id, secret, auth method, code, redirect URI and refresh token drawn with characters encodings get wrong, the form or Basic header decoded by the provider compared to them; (outcomes) logins and refreshes of generated applications against 42 token-endpoint answers, session expected exactly for a 200 JSON answer whose tokens validate; non-trivial: the answer is not the plain good one, or a value needs encoding",
		"client ids without ':' (Basic cannot carry it) and fit for a cookie name", "the token endpoint does not redirect")
	defer ev.Write(t)
	l := shared(t)

	run(t, ev, "requests", 7500, 240000, func(rt *rapid.T) {
		tn := newTenant()
		defer tn.close()
		query := rapid.SampledFrom([]string{"", "", "?tenant=t1", "?a=b%20c&d=%26"}).Draw(rt, "endpoint-query")
		doc := mustJSON(map[string]interface{}{"issuer": "i", "authorization_endpoint": tn.url("authorize"), "token_endpoint": tn.url(epToken) + query, "userinfo_endpoint": tn.url(epUserinfo), "jwks_uri": tn.url(epJwks)})
		tn.serve(epDiscovery, func(Rec) Reply { return Reply{Status: 200, Body: doc} })
		// what is left out stays empty
		given, wantRefresh, wantExpires := `{"access_token":"a","id_token":"i"`, "", 0
		if rapid.IntRange(0, 2).Draw(rt, "gives-refresh") > 0 {
			given, wantRefresh = given+`,"refresh_token":"r\u00fc +"`, "rü +"
		}
		if rapid.IntRange(0, 2).Draw(rt, "gives-expiry") > 0 {
			given, wantExpires = given+`,"expires_in":7`, 7
		}
		given += "}"
		tn.serve(epToken, func(Rec) Reply {
			return Reply{Status: 200, Body: given}
		})
		spec := v1.OidcConfigSpec{ClientName: "n/s", ClientID: strings.ReplaceAll(genText(rt, "client-id"), ":", ""), ClientSecret: genText(rt, "secret"),
			AuthMethod: rapid.SampledFrom([]string{"client_secret_basic", "client_secret_post", "", "private_key_jwt", "CLIENT_SECRET_POST", "none"}).Draw(rt, "auth-method")}
		c := client.New(spec, authserver.New(genDiscoveryURL(rt, tn)))
		code, redirect, refresh := genText(rt, "code"), genText(rt, "redirect"), ""
		tn.forget()
		var err error
		var tok *authserver.TokenResponse
		if rapid.Bool().Draw(rt, "is-refresh") {
			refresh = genText(rt, "refresh")
			tok, err = c.RefreshToken(refresh)
		} else {
			tok, err = c.ExchangeGrantCode(code, redirect)
		}
		ev.Case(mustJSON([]string{spec.ClientID, spec.ClientSecret, spec.AuthMethod, code, redirect, refresh, query}), true, func() interface{} {
			return map[string]interface{}{"client_id": spec.ClientID, "secret": spec.ClientSecret, "method": spec.AuthMethod, "code": code, "redirect_uri": redirect, "refresh_token": refresh}
		})
		ev.Label("requests:" + spec.AuthMethod)
		if err != nil || tok == nil || tok.AccessToken != "a" || tok.IdentityToken != "i" || tok.RefreshToken != wantRefresh || tok.ExpiresIn != wantExpires {
			rt.Fatalf("good answer %s not taken over: %+v %v", given, tok, err)
		}
		reqs := tn.requests("")
		if len(reqs) != 1 || reqs[0].Endpoint != epToken || reqs[0].Query != strings.TrimPrefix(query, "?") {
			rt.Fatalf("expected one request to the token endpoint with query %q, provider saw %s", query, scrubTenant(tn, mustJSON(reqs)))
		}
		if bad := tokenRequest(reqs[0], spec, code, redirect, refresh); bad != "" {
			rt.Fatalf("%s", bad)
		}
	})

	run(t, ev, "outcomes", 2500, 80000, func(rt *rapid.T) {
		a := genApp(rt, l, func(a *App) {
			if rapid.Bool().Draw(rt, "stay") {
				a.policy.RedirectUri = ""
			}
		})
		defer a.close()
		if !l.sync1() {
			rt.Fatalf("the adapter did not pick up its configuration")
		}
		path := genOidcPath(rt)
		b := &Browser{}
		var log []string
		fail := func(format string, args ...interface{}) {
			rt.Helper()
			rt.Fatalf("%s%s\nspec %s", scrub(a, fmt.Sprintf(format, args...)), history(log), mustJSON(specNoURL(a)))
		}
		lives := func(n int, now int64) (access, id claims) { // one of the tokens expires in 100 s
			access, id = claims{"n": n, "exp": now + 100}, claims{"n": n, "exp": now + 100}
			longer := []claims{access, id}[rapid.IntRange(0, 1).Draw(rt, "longer")]
			switch rapid.IntRange(0, 3).Draw(rt, "life") {
			case 1:
				longer["exp"] = now + 100000
			case 2:
				delete(longer, "exp")
			}
			return access, id
		}
		ac, ic := lives(0, baseTime.Unix())
		good := grant{access: a.accessToken(ac), id: a.idToken(ic), ref: genText(rt, "refresh")}
		wrong := grant{access: token(a.kid, testKeys[5], claims{"sub": "user", "aud": a.spec.ClientID}), id: a.idToken(claims{"exp": baseTime.Unix() - 10})}
		// login
		r := a.req(path)
		first := b.send(a, r)
		_, q, ok := authRequest(first)
		if !ok {
			fail("no login redirect: %s", first.everything())
		}
		reply, kind, want := genTokenAnswer(rt, good, wrong)
		log = append(log, "login, token endpoint answers "+kind)
		a.tn.serve(epToken, func(Rec) Reply { return reply })
		a.tn.forget()
		cb := r
		cb.Path = r.Path + "/oidc/callback"
		cb.Code, cb.State = genText(rt, "code"), q.Get("state")
		stateCookie := b.get(a.cookieName())
		ans := b.send(a, cb)
		in := ans.Redirect() && !a.isLogin(ans) && ans.SetCookie() != nil
		ev.Case(fmt.Sprint("login", kind, cb.Code, a.spec.ClientID, a.spec.ClientSecret, a.spec.AuthMethod), kind != "good", func() interface{} {
			return map[string]interface{}{"token_answer": kind, "code": cb.Code, "client_id": a.spec.ClientID, "secret": a.spec.ClientSecret, "method": a.spec.AuthMethod, "session": in}
		})
		ev.Label("login:" + kind)
		reqs := a.tn.requests(epToken)
		if len(reqs) != 1 {
			fail("%d token requests for one callback", len(reqs))
		}
		if bad := tokenRequest(reqs[0], a.spec, cb.Code, q.Get("redirect_uri"), ""); bad != "" {
			fail("code exchange: %s", bad)
		}
		if want == accept && !in || want == reject && in {
			fail("token endpoint answered %s: session=%v: %s", kind, in, ans.everything())
		}
		if !in {
			if ans.OK() || ans.Err != "" || ans.Code != 16 || ans.SetCookie() != nil && !a.isLogin(ans) {
				fail("a failed exchange must be reported as unauthenticated or start a login: %s", ans.everything())
			}
			for _, ck := range []string{stateCookie, b.get(a.cookieName()), "deleted", ""} {
				rr := r
				rr.Cookies = a.cookieName() + "=" + ck
				if x := a.send(rr); !a.isLogin(x) {
					fail("after a failed exchange cookie lets through: %s", x.everything())
				}
			}
			return
		}
		// refreshes
		sess := b.get(a.cookieName())
		r.Cookies = b.header()
		ref := good.ref
		if kind == "minimal" || kind == "no-refresh" || kind == "expires-string" {
			ref = ""
		}
		now := baseTime
		for i := 1; i <= rapid.IntRange(1, 3).Draw(rt, "refreshes"); i++ {
			now = now.Add(secs(200))
			setClock(now)
			ac, ic := lives(i, now.Unix())
			g := grant{access: a.accessToken(ac), id: a.idToken(ic), ref: rapid.SampledFrom([]string{"", "next +&=", "r2"}).Draw(rt, "next")}
			reply, kind, want := genTokenAnswer(rt, g, wrong)
			log = append(log, fmt.Sprintf("request after expiry (refresh token %q), token endpoint answers %s", ref, kind))
			a.tn.serve(epToken, func(Rec) Reply { return reply })
			a.tn.forget()
			ans := a.send(r)
			reqs := a.tn.requests(epToken)
			ev.Case(fmt.Sprint("refresh", kind, ref, a.spec.ClientID, a.spec.ClientSecret, a.spec.AuthMethod), kind != "good", func() interface{} {
				return map[string]interface{}{"history": append([]string(nil), log...), "ok": ans.OK()}
			})
			ev.Label("refresh:" + kind)
			if ref == "" {
				if len(reqs) != 0 || !a.isLogin(ans) {
					fail("no refresh token, but %d token requests and %s", len(reqs), ans.everything())
				}
				return
			}
			if len(reqs) != 1 {
				fail("%d token requests for one refresh", len(reqs))
			}
			if bad := tokenRequest(reqs[0], a.spec, "", "", ref); bad != "" {
				fail("refresh: %s", bad)
			}
			if want == accept && !ans.OK() || want == reject && ans.OK() {
				fail("token endpoint answered %s: %s", kind, ans.everything())
			}
			if !ans.OK() {
				if !a.isLogin(ans) {
					fail("a failed refresh must start a login: %s", ans.everything())
				}
				return
			}
			if ans.Auth != "Bearer "+g.access+" "+g.id {
				fail("after the refresh other tokens are forwarded: %s", ans.Auth)
			}
			if c := ans.SetCookie(); c != nil && c.Value != sess {
				fail("the refresh changed the session cookie")
			}
			if g.ref != "" && kind != "minimal" && kind != "no-refresh" && kind != "expires-string" {
				ref = g.ref
			}
		}
	})
}

func scrubTenant(tn *Tenant, s string) string {
	return strings.ReplaceAll(s, tn.url(""), "https://idp/")
}
