package harness

import (
	"fmt"
	"pgregory.net/rapid"

	"crypto/rsa"
	"net/http"
	"net/url"
	"regexp"
	"strings"
	"sync"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

// ------------------------------------------------------------------
// An OIDC-protected application in the shared adapter, its provider, and a browser.

// grant is what the provider gives for a code or refresh token.
type grant struct {
	redirectURI     string
	access, id, ref string
}

// App is one OidcConfig, one Policy protecting a prefix with it, and its provider.
type App struct {
	l      *Live
	tn     *Tenant
	ns     string
	svc    string
	prefix string
	spec   v1.OidcConfigSpec
	policy v1.PathPolicy
	kid    string
	key    *rsa.PrivateKey
	own    string // query of the authorization endpoint

	mu      sync.Mutex
	codes   map[string]grant // single use, bound to a redirect URI when one is given
	refresh map[string]grant // single use
	named   map[string]string
	opaque  map[string]bool  // access tokens the userinfo endpoint vouches for
	faults  map[string]Reply // what it answers to others
}

// newApp deploys an application (sync before using it). mod adjusts it first.
func newApp(l *Live, mod func(a *App)) *App {
	a := newSolo(l, mod)
	l.c.put(kOidc, a.ns, "app", a.spec)
	l.c.put(kPolicy, a.ns, "app", onePolicy(a.svc, v1.PathConfig{Prefix: a.prefix}, a.policy))
	return a
}

// newSolo makes an application and its provider without deploying it: for use with Replica.
func newSolo(l *Live, mod func(a *App)) *App {
	a := &App{l: l, tn: newTenant(), ns: newNS(), svc: "web", prefix: "/", kid: "k1", key: testKeys[0],
		codes: map[string]grant{}, refresh: map[string]grant{}, opaque: map[string]bool{}}
	a.spec = v1.OidcConfigSpec{ClientID: "client", ClientSecret: "client-s3cret", AuthMethod: "client_secret_basic", DiscoveryURL: a.tn.url(epDiscovery)}
	a.policy = v1.PathPolicy{PolicyType: "oidc", Config: "app"}
	if mod != nil {
		mod(a)
	}
	a.tn.serveKeys(jwk(a.kid, &a.key.PublicKey))
	a.tn.serve(epToken, a.tokenEndpoint)
	a.tn.serve(epUserinfo, a.userinfoEndpoint)
	return a
}

func (a *App) close() {
	if a.l != nil {
		a.l.c.del(kOidc, a.ns, "app")
		a.l.c.del(kPolicy, a.ns, "app")
	}
	a.tn.close()
}

// tokenEndpoint is a correct provider: it checks the client and the grant.
func (a *App) tokenEndpoint(r Rec) Reply {
	f := r.Form()
	id, sec, basic := r.Basic()
	if a.spec.AuthMethod == "client_secret_post" {
		id, sec = f.Get("client_id"), f.Get("client_secret")
	} else if !basic {
		return Reply{Status: 401, Body: `{"error":"invalid_client"}`}
	}
	if id != a.spec.ClientID || sec != a.spec.ClientSecret {
		return Reply{Status: 401, Body: `{"error":"invalid_client"}`}
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	var g grant
	var ok bool
	switch f.Get("grant_type") {
	case "authorization_code":
		g, ok = a.codes[f.Get("code")]
		ok = ok && (g.redirectURI == "" || g.redirectURI == f.Get("redirect_uri"))
		delete(a.codes, f.Get("code"))
	case "refresh_token":
		g, ok = a.refresh[f.Get("refresh_token")]
		delete(a.refresh, f.Get("refresh_token"))
	}
	if !ok {
		return Reply{Status: 400, Body: `{"error":"invalid_grant"}`}
	}
	return Reply{Status: 200, Body: tokenDoc(g)}
}

func tokenDoc(g grant) string {
	doc := map[string]interface{}{"token_type": "Bearer", "expires_in": 3600}
	for k, v := range map[string]string{"access_token": g.access, "id_token": g.id, "refresh_token": g.ref} {
		if v != "" {
			doc[k] = v
		}
	}
	return mustJSON(doc)
}

func (a *App) userinfoEndpoint(r Rec) Reply {
	a.mu.Lock()
	defer a.mu.Unlock()
	if rep, ok := a.faults[strings.TrimPrefix(r.Auth, "Bearer ")]; ok {
		return rep
	}
	if a.opaque[strings.TrimPrefix(r.Auth, "Bearer ")] {
		return Reply{Status: 200, Body: `{"sub":"u"}`}
	}
	return Reply{Status: 401, Body: `{"error":"invalid_token"}`}
}

func (a *App) vouch(tok string, yes bool) {
	a.mu.Lock()
	a.opaque[tok] = yes
	a.mu.Unlock()
}

// fault makes the userinfo endpoint answer a token so.
func (a *App) fault(tok string, rep Reply) {
	a.mu.Lock()
	if a.faults == nil {
		a.faults = map[string]Reply{}
	}
	a.faults[tok] = rep
	a.mu.Unlock()
}

func (a *App) issue(code string, g grant) {
	a.mu.Lock()
	a.codes[code] = g
	a.mu.Unlock()
}

func (a *App) issueRefresh(tok string, g grant) {
	a.mu.Lock()
	a.refresh[tok] = g
	a.mu.Unlock()
}

// accessToken makes a valid JWT access token for this client.
func (a *App) accessToken(extra claims) string { return a.tokenFor("access", extra) }
func (a *App) idToken(extra claims) string     { return a.tokenFor("id", extra) }

func (a *App) tokenFor(use string, extra claims) string {
	cl := claims{"use": use, "sub": "user", "aud": []string{a.spec.ClientID}}
	for k, v := range extra {
		cl[k] = v
	}
	return token(a.kid, a.key, cl)
}

func (a *App) cookieName() string { return "oidc-cookie-" + a.spec.ClientID }

// req builds a request of the app's service.
func (a *App) req(path string) Req {
	return Req{NS: a.ns, Svc: a.svc, Method: "GET", Path: path, Scheme: "https", Host: "shop.example.com"}
}

func (a *App) send(r Req) Answer { return a.l.do(r.msg()) }

// Browser keeps one cookie jar.
type Browser struct{ jar []*http.Cookie }

func (b *Browser) header() string {
	var parts []string
	for _, c := range b.jar {
		parts = append(parts, c.Name+"="+c.Value)
	}
	return strings.Join(parts, "; ")
}

func (b *Browser) set(c *http.Cookie) {
	if c == nil {
		return
	}
	for i, x := range b.jar {
		if x.Name == c.Name {
			b.jar[i] = c
			return
		}
	}
	b.jar = append(b.jar, c)
}

func (b *Browser) get(name string) string {
	for _, c := range b.jar {
		if c.Name == name {
			return c.Value
		}
	}
	return ""
}

// send sends a request with the jar's cookies and keeps the cookie set by the answer.
func (b *Browser) send(a *App, r Req) Answer {
	r.Cookies = b.header()
	ans := a.send(r)
	b.set(ans.SetCookie())
	return ans
}

// authRequest parses a login redirect.
func authRequest(ans Answer) (u *url.URL, q url.Values, ok bool) {
	if !ans.Redirect() {
		return nil, nil, false
	}
	u, err := url.Parse(ans.Header("location"))
	if err != nil {
		return nil, nil, false
	}
	q, err = url.ParseQuery(u.RawQuery)
	return u, q, err == nil && q.Get("response_type") == "code"
}

// isLogin: the answer sends the user to this app's provider.
func (a *App) isLogin(ans Answer) bool {
	u, _, ok := authRequest(ans)
	return ok && strings.HasPrefix(u.String(), a.tn.url("authorize")+"?")
}

// login runs a whole login for path and returns the callback's answer.
func (b *Browser) login(a *App, path, code string, g grant) Answer {
	first := b.send(a, a.req(path))
	_, q, ok := authRequest(first)
	if !ok {
		return first
	}
	a.issue(code, g)
	r := a.req(strings.TrimSuffix(path, "/") + "/oidc/callback")
	if u, err := url.Parse(q.Get("redirect_uri")); err == nil {
		r.Path = u.Path
	}
	r.Code, r.State = code, q.Get("state")
	return b.send(a, r)
}

var (
	stateRe  = regexp.MustCompile(`(state=|state\\u0026)[A-Za-z0-9_%-]+`)
	cookieRe = regexp.MustCompile(`(oidc-cookie-[^= ]*=)[A-Za-z0-9_=-]+`)
	expireRe = regexp.MustCompile(`Expires=[^;"]*`)
)

// stripRandom masks states, cookie values and dates, so that rapid can compare messages.
func stripRandom(s string) string {
	return expireRe.ReplaceAllString(cookieRe.ReplaceAllString(stateRe.ReplaceAllString(s, "state=*"), "${1}*"), "Expires=*")
}

// name gives a token a name for messages.
func (a *App) name(tok, as string) {
	a.mu.Lock()
	if a.named == nil {
		a.named = map[string]string{}
	}
	a.named[tok] = as
	a.mu.Unlock()
}

func (a *App) names() map[string]string {
	a.mu.Lock()
	defer a.mu.Unlock()
	m := map[string]string{}
	for k, v := range a.named {
		m[k] = v
	}
	return m
}

// nearMiss is one edit away from v, or v itself, and says which.
func nearMiss(rt *rapid.T, v string) (string, string) {
	at := rapid.IntRange(0, len(v)-1).Draw(rt, "at")
	ch := v[at : at+1]
	extra := rapid.SampledFrom([]string{"-", ".", "_", "%", "$", "+", "=", "~", "/", ":", "|", "@", "0", "a", "Z", "%20", "%00", "==", "*", ".1", ":x", "-0", "/x", "|z"}).Draw(rt, "extra")
	edit := rapid.SampledFrom([]string{"append", "append", "append", "prepend", "prepend", "insert", "drop", "case", "escape", "twice", "other"}).Draw(rt, "edit")
	how := fmt.Sprintf("%s at %d with %q", edit, at, extra)
	switch edit {
	case "append":
		return v + extra, how
	case "prepend":
		return extra + v, how
	case "insert":
		return v[:at] + extra + v[at:], how
	case "drop":
		return v[:at] + v[at+1:], how
	case "case":
		if l := strings.ToLower(ch); l != ch {
			return v[:at] + l + v[at+1:], how
		}
		return v[:at] + strings.ToUpper(ch) + v[at+1:], how
	case "escape":
		return fmt.Sprintf("%s%%%02X%s", v[:at], ch[0], v[at+1:]), how
	case "twice":
		return v + v, how
	}
	return v[:at] + extra + v[at+1:], how
}
