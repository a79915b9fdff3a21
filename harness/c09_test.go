package harness

import (
	"fmt"
	"net/url"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

var (
	clientIDs  = []string{"client", "8f3c1d2e-0a4b-4c6d-9e8f-123456789abc", "client.id_1", "my-app!2", "CLIENT", "a|b~c"}
	secretPool = []string{"s3cret", "p@ss w0rd", "a+b/c=", "sécret-ключ", "100%&x=y", "co:lon", "%41%zz", "\"quoted\"", "a\tb", "x"}
	oidcSegs   = []string{"a", "shop", "caf\u00e9", "a b", "x+y", "q&a=1", "100%25", "%2F", "p;v=1", "@me", "oidc", "callback", "logout", "a.b", "~u", "a:b", "(x)", "semi,colon",
		strings.Repeat("long", 70), strings.Repeat("very-long", 600)}
	oidcHosts = []string{"shop.example.com", "shop.example.com:8443", "10.0.0.7", "[::1]:9080", "xn--caf-dma.example",
		"shop.example.com:80", "shop.example.com:443", "shop.example.com:8080", "shop.example.com:4430", "shop.example.com:0443", "Shop.Example.COM", "localhost", "www.shop.example.com.", "[::1]", "[::1]:80", "127.0.0.1:443", "a.svc.cluster.local:8000"}
	scopeLists  = [][]string{nil, {"openid"}, {"openid", "offline_access", "appid_custom"}, {"a+b", "c&d", "https://x.example/s?y=z"}}
	ownQueries  = []string{"", "", "tenant=t1", "p=a%20b&prompt=login", "x=%2B%26&y=ü", "empty=&acr_values=a+b", "scope=theirs&x=y", "state=theirs&client_id=theirs", "response_type=token&redirect_uri=https%3A%2F%2Fother.example%2F"}
	redirectPol = []string{"", "", "", "https://shop.example.com/welcome", "https://other.example.com/a/b?x=1&y=2#frag", "/relative", "https://shop.example.com/done/oidc/callback", "https://shop.example.com/oidc/callback/landing"}
)

func genOidcPath(t *rapid.T) string {
	n := rapid.IntRange(0, 5).Draw(t, "depth")
	p := ""
	for i := 0; i < n; i++ {
		p += "/" + spiced(t, "seg-word", rapid.SampledFrom(oidcSegs).Draw(t, "seg"), isPathSeg)
	}
	if p == "" {
		return "/"
	}
	if rapid.IntRange(0, 5).Draw(t, "slash") == 0 {
		p += "/"
	}
	for strings.HasSuffix(p, "/oidc/callback") || strings.HasSuffix(p, "/oidc/logout") {
		p += "x"
	}
	return p
}

// genApp deploys a generated OIDC application.
func genApp(t *rapid.T, l *Live, mod func(a *App)) *App {
	id := spiced(t, "client-id-word", rapid.SampledFrom(clientIDs).Draw(t, "client-id"), isCookieName)
	sec := spiced(t, "secret-word", rapid.SampledFrom(secretPool).Draw(t, "secret"), isPrintable)
	method := rapid.SampledFrom([]string{"", "client_secret_basic", "client_secret_post"}).Draw(t, "auth-method")
	scopes := rapid.SampledFrom(scopeLists).Draw(t, "scopes")
	if rarely(t, "scope") {
		scopes = append([]string{spiced(t, "scope-word", "s", isScope)}, scopes...)
	}
	own := rapid.SampledFrom(ownQueries).Draw(t, "own-query")
	redir := rapid.SampledFrom(redirectPol).Draw(t, "redirect-uri")
	rules := rapid.SampledFrom([][]v1.Rule{nil, nil, {{Claim: "sub", Match: "ANY", Values: []string{"user"}}}}).Draw(t, "rules")
	return newApp(l, func(a *App) {
		a.spec.ClientID, a.spec.ClientSecret, a.spec.AuthMethod, a.spec.Scopes = id, sec, method, scopes
		a.policy.RedirectUri, a.policy.Rules = redir, rules
		a.spec.DiscoveryURL = genDiscoveryURL(t, a.tn)
		if own != "" {
			doc := map[string]interface{}{"issuer": a.tn.url("issuer"), "authorization_endpoint": a.tn.url("authorize") + "?" + own,
				"token_endpoint": a.tn.url(epToken), "userinfo_endpoint": a.tn.url(epUserinfo), "jwks_uri": a.tn.url(epJwks)}
			a.tn.serve(epDiscovery, func(Rec) Reply { return Reply{Status: 200, Body: mustJSON(doc)} })
		}
		if mod != nil {
			mod(a)
		}
		a.own = own
	})
}

// checkAuthRequest checks a login redirect against the configuration; "" if right.
func checkAuthRequest(a *App, r Req, ans Answer) (bad string, q url.Values) {
	if !ans.Redirect() {
		return "not a direct 302", nil
	}
	loc := ans.Header("location")
	u, err := url.Parse(loc)
	if err != nil {
		return "location does not parse", nil
	}
	q, err = url.ParseQuery(u.RawQuery)
	if err != nil {
		return "query does not parse", nil
	}
	if base := strings.SplitN(loc, "?", 2)[0]; base != a.tn.url("authorize") {
		return "not the provider's authorization endpoint", q
	}
	scope := "openid profile email"
	if len(a.spec.Scopes) > 0 {
		scope = strings.Join(a.spec.Scopes, " ")
	}
	want, _ := url.ParseQuery(a.own)
	want.Del("state")
	for k, v := range map[string]string{"response_type": "code", "client_id": a.spec.ClientID, "scope": scope, "redirect_uri": r.Scheme + "://" + r.Host + r.Path + "/oidc/callback"} {
		want[k] = []string{v}
	}
	for k, v := range want {
		if fmt.Sprint(q[k]) != fmt.Sprint(v) {
			return fmt.Sprintf("parameter %s is %q, want %q", k, q[k], v), q
		}
	}
	if len(q["state"]) != 1 || q.Get("state") == "" {
		return "no state", q
	}
	c := ans.SetCookie()
	if c == nil || c.Name != a.cookieName() || c.Value == "" {
		return "no state cookie", q
	}
	return "", q
}

func TestC09(t *testing.T) {
	ev := newEvidence("C09", "a generated OIDC application (client id, secret, auth method, scopes, own query of the authorization endpoint, redirectUri, rules) and whole logins for generated scheme, host and path, against a provider that binds codes to redirect URIs; non-trivial: the path or a parameter needs URL encoding, or the endpoint has its own query, or a redirectUri is set")
	defer ev.Write(t)
	l := shared(t)
	run(t, ev, "login", 2400, 75000, func(rt *rapid.T) {
		a := genApp(rt, l, nil)
		defer a.close()
		if !l.sync1() {
			rt.Fatalf("the adapter did not pick up its configuration")
		}
		states := map[string]bool{}
		for i := rapid.IntRange(1, 3).Draw(rt, "logins"); i > 0; i-- {
			r := a.req(genOidcPath(rt))
			r.Method = genMethod(rt)
			r.Scheme = rapid.SampledFrom([]string{"https", "http"}).Draw(rt, "scheme")
			r.Host = spiced(rt, "host-word", rapid.SampledFrom(oidcHosts).Draw(rt, "host"), isHost)
			b := &Browser{}
			r.Cookies = rapid.SampledFrom([]string{"", "", "lang=de", a.cookieName() + "=stale", a.cookieName() + "=", "oidc-cookie-other=abcdef; x=y", ";;=;"}).Draw(rt, "cookies")
			r.Cookies = strayCookies(rt, "stray", "x") + r.Cookies
			r = unrelated(rt, r, a.accessToken(nil), a.idToken(nil))
			first := a.send(r)
			b.set(first.SetCookie())
			// the user begins anew before the callback: the browser sends what the first login set
			again := rapid.IntRange(0, 3).Draw(rt, "begin-again")
			for j := 0; j < again; j++ {
				if _, q, ok := authRequest(first); ok {
					states[q.Get("state")] = true
				}
				r.Cookies = b.header()
				first = a.send(r)
				b.set(first.SetCookie())
			}
			describeReq := fmt.Sprintf("%s %s://%s%s cookies=%q spec=%s own=%q policy=%s", r.Method, r.Scheme, r.Host, r.Path, r.Cookies, mustJSON(specNoURL(a)), a.own, mustJSON(a.policy))
			nontrivial := url.PathEscape(strings.ReplaceAll(r.Path, "/", "")) != strings.ReplaceAll(r.Path, "/", "") || a.own != "" || a.policy.RedirectUri != "" || len(a.spec.Scopes) > 0
			ev.Case(describeReq, nontrivial, func() interface{} {
				return map[string]interface{}{"request": describeReq, "redirect": strings.ReplaceAll(first.Header("location"), a.tn.url(""), "https://idp/")}
			})
			bad, q := checkAuthRequest(a, r, first)
			if bad != "" {
				rt.Fatalf("login redirect: %s\n%s\n%s", bad, describeReq, scrub(a, first.everything()))
			}
			if states[q.Get("state")] {
				rt.Fatalf("state %q repeated\n%s", q.Get("state"), describeReq)
			}
			states[q.Get("state")] = true
			// the provider sends the user back
			code := rapid.SampledFrom([]string{"code1", "a/b+c=&d", "SplxlOBeZQQYbYS6WxSbIA", "%41", "ü", strings.Repeat("long-code.", 40)}).Draw(rt, "code")
			code = spiced(rt, "code-word", code, nil)
			g := grant{redirectURI: q.Get("redirect_uri"), access: a.accessToken(claims{"n": i}), id: a.idToken(nil), ref: "r"}
			a.issue(code, g)
			cb := r
			cb.Method = "GET"
			if long := timePasses(rt, "slow-user", 55*time.Minute); long != "" {
				describeReq += ", the user takes " + long
			}
			cb.Path = r.Path + "/oidc/callback"
			cb.Code, cb.State = code, q.Get("state")
			ans := b.send(a, cb)
			if !ans.Redirect() {
				rt.Fatalf("callback with the right code and state did not log in: %s\n%s", scrub(a, ans.everything()), describeReq)
			}
			target := r.Scheme + "://" + r.Host + r.Path
			if a.policy.RedirectUri != "" {
				target = a.policy.RedirectUri
			}
			if got := ans.Header("location"); got != target {
				rt.Fatalf("after login the browser is sent to %q, want %q\n%s", got, target, describeReq)
			}
			c := ans.SetCookie()
			if c == nil || c.Name != a.cookieName() || c.Value == "" {
				rt.Fatalf("no session cookie: %s\n%s", scrub(a, ans.everything()), describeReq)
			}
			if c.Path != "/" || c.Domain != "" {
				rt.Fatalf("session cookie is not for the whole host: %s", c)
			}
			r.Cookies = b.header()
			if long := timePasses(rt, "later", ages); long != "" {
				describeReq += ", later: " + long
			}
			if fin := a.send(r); !fin.OK() || fin.Auth != "Bearer "+g.access+" "+g.id {
				rt.Fatalf("original request with the session cookie: %s\n%s", scrub(a, fin.everything()), describeReq)
			}
			reqs := a.tn.requests(epToken)
			last := reqs[len(reqs)-1].Form()
			if last.Get("redirect_uri") != q.Get("redirect_uri") || last.Get("code") != code {
				rt.Fatalf("code exchanged with %v, authorization request had redirect_uri %q\n%s", last, q.Get("redirect_uri"), describeReq)
			}
		}
	})
}

// specNoURL is the spec without what differs from run to run.
func specNoURL(a *App) v1.OidcConfigSpec {
	s := a.spec
	s.DiscoveryURL = ""
	return s
}

// scrub removes what differs from run to run out of a message.
func scrub(a *App, s string) string {
	s = strings.ReplaceAll(s, a.tn.url(""), "https://idp/")
	return stripRandom(s)
}
