package harness

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
)

var docFields = []string{"issuer", "authorization_endpoint", "token_endpoint", "userinfo_endpoint", "jwks_uri"}

// docOf is a provider's complete document in one version.
func docOf(tn *Tenant, v int) map[string]interface{} {
	s := fmt.Sprintf("-v%d", v)
	return map[string]interface{}{"issuer": tn.url("issuer" + s), "authorization_endpoint": tn.url("authorize" + s),
		"token_endpoint": tn.url("token" + s), "userinfo_endpoint": tn.url("userinfo" + s), "jwks_uri": tn.url("jwks" + s)}
}

// genDiscovery draws a discovery answer; good tells whether the document counts.
func genDiscovery(rt *rapid.T, tn *Tenant, v int, hang bool) (rep Reply, desc string, good bool) {
	doc := docOf(tn, v)
	kinds := []string{"good", "good", "good", "extras", "missing", "missing", "missing", "empty-field", "null-field", "typed-field", "status", "status", "reset", "truncate", "html", "array", "null", "empty", "blank", "error", "cut"}
	if hang {
		kinds = append(kinds, "hang")
	}
	desc = rapid.SampledFrom(kinds).Draw(rt, "discovery")
	f := docFields[rapid.IntRange(0, len(docFields)-1).Draw(rt, "field")]
	switch desc {
	case "good":
		return Reply{Status: 200, Body: mustJSON(doc)}, fmt.Sprintf("good v%d", v), true
	case "extras":
		doc["scopes_supported"], doc["x"], doc["claims"] = []string{"openid"}, nil, map[string]int{"a": 1}
		if w := word(rt, "extra-field"); !contains(docFields, strings.ToLower(w)) {
			doc[w] = tn.url("elsewhere")
		}
		return Reply{Status: 200, Body: mustJSON(doc)}, fmt.Sprintf("good v%d with more fields", v), true
	case "missing":
		delete(doc, f)
		return Reply{Status: 200, Body: mustJSON(doc)}, fmt.Sprintf("v%d without %s", v, f), false
	case "empty-field":
		doc[f] = ""
		return Reply{Status: 200, Body: mustJSON(doc)}, fmt.Sprintf("v%d with empty %s", v, f), false
	case "null-field":
		doc[f] = nil
		return Reply{Status: 200, Body: mustJSON(doc)}, fmt.Sprintf("v%d with null %s", v, f), false
	case "typed-field":
		doc[f] = rapid.SampledFrom([]interface{}{7, true, []string{"https://x"}, map[string]string{"u": "https://x"}}).Draw(rt, "wrong-type")
		return Reply{Status: 200, Body: mustJSON(doc)}, fmt.Sprintf("v%d with %s=%v", v, f, doc[f]), false
	case "status":
		st := statusFrom(rt, "status", 201, 202, 203, 206, 207, 299, 400, 401, 403, 404, 418, 429, 500, 502, 503)
		if st == 200 {
			st = 500
		}
		return Reply{Status: st, Body: mustJSON(doc)}, fmt.Sprintf("good v%d with status %d", v, st), false
	case "reset":
		return Reply{Mode: "reset"}, "connection reset", false
	case "truncate":
		b := mustJSON(doc)
		return Reply{Status: 200, Body: b[:rapid.IntRange(0, len(b)-1).Draw(rt, "upto")], Mode: "truncate"}, fmt.Sprintf("v%d cut off in transfer", v), false
	case "cut":
		b := mustJSON(doc)
		return Reply{Status: 200, Body: b[:rapid.IntRange(0, len(b)-1).Draw(rt, "upto")]}, fmt.Sprintf("v%d cut off", v), false
	case "hang":
		return Reply{Mode: "hang", Status: 500}, "no answer", false
	}
	body := map[string]string{"html": "<html>down</html>", "array": "[" + mustJSON(doc) + "]", "null": "null", "empty": "", "blank": "{}", "error": `{"error":"server_error"}`}[desc]
	return Reply{Status: 200, Body: body}, desc + " document", false
}

// discoveryLog notes which documents were really served.
type discoveryLog struct {
	mu      sync.Mutex
	rep     Reply
	good    int // version if the present reply counts, 0 if not
	last    int // the last good version served
	fetches int
}

func (d *discoveryLog) install(tn *Tenant) {
	tn.serve(epDiscovery, func(Rec) Reply {
		d.mu.Lock()
		defer d.mu.Unlock()
		d.fetches++
		if d.good > 0 {
			d.last = d.good
		}
		return d.rep
	})
}

func (d *discoveryLog) set(rep Reply, good int) {
	d.mu.Lock()
	d.rep, d.good = rep, good
	d.mu.Unlock()
}

func (d *discoveryLog) get() (last, fetches int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.last, d.fetches
}

func TestC15(t *testing.T) {
	ev := newEvidence("C15", "a history of discovery answers (two complete versions; documents with each field missing, empty, null or of another type; other statuses; resets, truncation, other bodies; provider down from the start) and uses: endpoint lookups, logins, sessions; model: the last complete document served with 200; non-trivial: an incomplete, failed or malformed answer was served before the use",
		"endpoints that redirect and unanswered requests beyond the client's time limit are C18's")
	defer ev.Write(t)

	run(t, ev, "authserver", 16000, 600000, func(rt *rapid.T) {
		tn := newTenant()
		defer tn.close()
		var d discoveryLog
		var log []string
		bad := false
		set := func() {
			v := rapid.IntRange(1, 2).Draw(rt, "version")
			rep, desc, good := genDiscovery(rt, tn, v, false)
			if !good {
				v, bad = 0, true
			}
			d.set(rep, v)
			log = append(log, "discovery: "+desc)
		}
		set()
		d.install(tn)
		s := authserver.New(genDiscoveryURL(rt, tn))
		scrubT := func(s string) string { return strings.ReplaceAll(s, idpURL()+"/"+tn.id, "https://idp") }
		for i := rapid.IntRange(2, 12).Draw(rt, "steps"); i > 0; i-- {
			if long := timePasses(rt, "time-passes", ages); long != "" {
				log = append(log, long)
			}
			if rapid.IntRange(0, 2).Draw(rt, "change") == 0 {
				set()
				continue
			}
			use := rapid.SampledFrom([]string{"authorization_endpoint", "token_endpoint", "userinfo_endpoint", "jwks_uri", "tokens", "keys"}).Draw(rt, "use")
			// asked often while nothing is known, nothing is given up
			if rapid.IntRange(0, 119).Draw(rt, "often") == 77 {
				n := rapid.SampledFrom([]int{10, 100, 300, 1100}).Draw(rt, "times")
				log = append(log, fmt.Sprintf("asked %d times", n))
				for ; n > 0; n-- {
					_ = s.TokenEndpoint()
				}
			}
			log = append(log, "use "+use)
			tn.forget()
			got := ""
			switch use {
			case "authorization_endpoint":
				got = s.AuthorizationEndpoint()
			case "token_endpoint":
				got = s.TokenEndpoint()
			case "userinfo_endpoint":
				got = s.UserInfoEndpoint()
			case "jwks_uri":
				got = s.JwksEndpoint()
			case "keys":
				if ks := s.KeySet(); ks != nil {
					got = ks.PublicKeyURL()
				}
			case "tokens":
				_, _ = s.GetTokens("client_secret_post", "id", "sec", "code", "https://h/cb", "")
				for _, r := range tn.requests("") {
					if r.Endpoint != epDiscovery {
						got += tn.url(r.Endpoint)
					}
				}
			}
			last, _ := d.get()
			want := ""
			if last > 0 {
				want = docOf(tn, last)[map[string]string{"tokens": "token_endpoint", "keys": "jwks_uri"}[use]+map[bool]string{true: use}[use != "tokens" && use != "keys"]].(string)
			}
			ev.Case(mustJSON(log), bad, func() interface{} {
				return map[string]interface{}{"history": append([]string(nil), log...), "want": scrubT(want)}
			})
			ev.Label(fmt.Sprintf("%s known=%v", use, last > 0))
			keysBefore := use == "keys" && want != "" && strings.HasPrefix(got, tn.url("jwks-v"))
			if got != want && !(keysBefore && got == tn.url("jwks-v1")) {
				rt.Fatalf("%s is %q, want %q (last complete document served: v%d)%s", use, scrubT(got), scrubT(want), last, history(log))
			}
			if d.good > 0 && last == 0 {
				rt.Fatalf("the provider is healthy, but %s is not known%s", use, history(log))
			}
		}
	})

	l := shared(t)
	run(t, ev, "adapter", 1600, 60000, func(rt *rapid.T) {
		var d discoveryLog
		var log []string
		bad := false
		var tn *Tenant
		set := func(how int) {
			v := rapid.IntRange(1, 2).Draw(rt, "version")
			var rep Reply
			var desc string
			good := false
			for n := 0; n == 0 || how == 1 && good; n++ {
				rep, desc, good = genDiscovery(rt, tn, v, false)
			}
			if how == 2 {
				rep, desc, good = Reply{Status: 200, Body: mustJSON(docOf(tn, v))}, fmt.Sprintf("good v%d", v), true
			}
			if !good {
				v, bad = 0, true
			}
			d.set(rep, v)
			log = append(log, "discovery: "+desc)
		}
		a := newApp(l, func(a *App) {
			tn = a.tn
			a.spec.DiscoveryURL = genDiscoveryURL(rt, tn)
			set(rapid.IntRange(0, 1).Draw(rt, "down-first"))
			d.install(tn)
			for v := 1; v <= 2; v++ {
				s := fmt.Sprintf("-v%d", v)
				doc := jwks(jwk(a.kid, &a.key.PublicKey))
				tn.serve("jwks"+s, func(Rec) Reply { return Reply{Status: 200, Body: doc} })
				tn.serve("token"+s, a.tokenEndpoint)
				tn.serve("userinfo"+s, a.userinfoEndpoint)
			}
		})
		defer a.close()
		if !l.sync1() {
			rt.Fatalf("the adapter did not pick up its configuration")
		}
		fail := func(format string, args ...interface{}) {
			rt.Helper()
			rt.Fatalf("%s%s", scrub(a, fmt.Sprintf(format, args...)), history(log))
		}
		serial := 0
		var live []*session
		for i := rapid.IntRange(2, 9).Draw(rt, "steps"); i >= 0; i-- {
			if long := timePasses(rt, "time-passes", ages); long != "" {
				log = append(log, long)
			}
			step := rapid.SampledFrom([]string{"change", "heal", "login", "login", "session", "bearer"}).Draw(rt, "step")
			if i == 0 { // at last the provider is healthy and all works
				set(2)
				step = "login"
			}
			tn.forget()
			switch step {
			case "change":
				set(0)
				continue
			case "heal":
				set(2)
				continue
			case "bearer": // never a way in under an OIDC policy
				r := a.req("/x")
				r.Auth = "Bearer " + a.accessToken(nil)
				log = append(log, "request with a bearer token")
				if ans := a.send(r); ans.OK() {
					fail("let through without a session: %s", ans.everything())
				}
				continue
			case "session":
				if len(live) == 0 {
					continue
				}
				s := live[rapid.IntRange(0, len(live)-1).Draw(rt, "which")]
				r := a.req("/x")
				r.Cookies = a.cookieName() + "=" + s.cookie
				log = append(log, "request with session "+s.name)
				if ans := a.send(r); !ans.OK() {
					fail("session %s is refused though its provider was discovered: %s", s.name, ans.everything())
				}
				continue
			}
			serial++
			opaque := rapid.IntRange(0, 2).Draw(rt, "opaque") == 0
			g := grant{access: a.accessToken(claims{"n": serial}), id: a.idToken(claims{"n": serial})}
			if opaque {
				g.access = fmt.Sprintf("opaque-%d", serial)
				a.vouch(g.access, true)
			}
			b := &Browser{}
			log = append(log, fmt.Sprintf("login opaque=%v", opaque))
			ans := b.send(a, a.req("/x"))
			last, fetches := d.get()
			ev.Case(mustJSON(log), bad, func() interface{} {
				return map[string]interface{}{"history": append([]string(nil), log...), "fetches": fetches}
			})
			ev.Label(fmt.Sprintf("login known=%v", last > 0))
			if ans.OK() || ans.Nil {
				fail("let through without a session: %s", ans.everything())
			}
			if d.good > 0 && last == 0 {
				fail("the provider is healthy, but was not asked: %s", ans.everything())
			}
			u, q, ok := authRequest(ans)
			if last == 0 {
				if ok && u.Host != "" {
					fail("no document is known, but the user is sent to %s", u)
				}
				// a callback now must not come to anything
				r := a.req("/x/oidc/callback")
				r.Code, r.State = "code0", q.Get("state")
				a.issue("code0", g)
				if ans := b.send(a, r); ans.OK() || ans.Redirect() && !strings.Contains(ans.Header("location"), "response_type=code") {
					fail("callback succeeds without a provider: %s", ans.everything())
				}
				for _, q := range tn.requests("") {
					if q.Endpoint != epDiscovery {
						fail("no document is known, but the provider's %s was used", q.Endpoint)
					}
				}
				continue
			}
			doc := docOf(tn, last)
			if !ok || !strings.HasPrefix(u.String(), doc["authorization_endpoint"].(string)+"?") {
				fail("login goes to %s, want the authorization endpoint of v%d: %s", u, last, ans.everything())
			}
			code := fmt.Sprintf("code%d", serial)
			a.issue(code, g)
			r := a.req("/x/oidc/callback")
			r.Code, r.State = code, q.Get("state")
			ans = b.send(a, r)
			if !ans.Redirect() || ans.SetCookie() == nil || a.isLogin(ans) || strings.Contains(ans.Header("location"), "response_type=code") {
				fail("login with a discovered provider fails: %s", ans.everything())
			}
			s := &session{name: fmt.Sprintf("s%d", serial), cookie: ans.SetCookie().Value}
			live = append(live, s)
			r = a.req("/x")
			r.Cookies = a.cookieName() + "=" + s.cookie
			if ans := a.send(r); !ans.OK() {
				fail("the session just made is refused: %s", ans.everything())
			}
			now, _ := d.get()
			for _, q := range tn.requests("") {
				if suffix := fmt.Sprintf("-v%d", last); q.Endpoint != epDiscovery && !strings.HasSuffix(q.Endpoint, suffix) && last == now {
					fail("the document in force is v%d, but %s was used", last, q.Endpoint)
				}
			}
		}
	})
}
