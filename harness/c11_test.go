package harness

import (
	"fmt"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

// session is the model of one login.
type session struct {
	name    string
	browser *Browser
	cookie  string
	g       grant
	accExp  time.Time // zero: never
	idExp   time.Time
	dead    bool
	limbo   bool // a renewal failed once: it may or may not be tried again
}

func expired(at time.Time, now time.Time) bool { return !at.IsZero() && !now.Before(at) }

func TestC11(t *testing.T) {
	ev := newEvidence("C11", "a history of 4-20 logins, requests, clock advances, refresh outcomes, logouts and foreign cookies over up to 4 sessions of one client, plus a second client of the same provider; model: live sessions and their tokens; non-trivial: the history has a logout, an expiry or a foreign cookie before a request",
		"the second whose clock equals exp is not generated", "concurrency is C17's")
	defer ev.Write(t)
	l := shared(t)

	// A crowd of users: nobody's session ends because others log in.
	run(t, ev, "crowd", 3, 60, func(rt *rapid.T) {
		size := rapid.SampledFrom([]int{60, 1100, 2600, 5200}).Draw(rt, "size")
		a := newApp(l, nil)
		defer a.close()
		if !l.sync1() {
			rt.Fatalf("the adapter did not pick up its configuration")
		}
		type user struct {
			b *Browser
			g grant
			s string
		}
		users := make([]user, size)
		var wg sync.WaitGroup
		bad := make([]string, 8)
		for w := range bad {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := w; i < size; i += len(bad) {
					u := user{b: &Browser{}, g: grant{access: fmt.Sprintf("opaque-%d", i), id: a.idToken(claims{"n": i}), ref: fmt.Sprintf("r%d", i)}}
					a.vouch(u.g.access, true)
					ans := u.b.login(a, "/x", fmt.Sprintf("code%d", i), u.g)
					if !ans.Redirect() || ans.SetCookie() == nil || a.isLogin(ans) {
						bad[w] = "a login fails: " + ans.everything()
						return
					}
					u.s = ans.SetCookie().Value
					users[i] = u
				}
			}(w)
		}
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				rt.Fatalf("%s", stripRandom(scrub(a, b)))
			}
		}
		a.tn.forget()
		out := map[int]bool{}
		for i := 0; i < 10; i++ {
			out[rapid.IntRange(0, size-1).Draw(rt, "logged-out")] = true
		}
		for _, i := range sortedInts(out) {
			if ans := users[i].b.send(a, a.req("/x/oidc/logout")); !ans.Redirect() {
				rt.Fatalf("logout: %s", stripRandom(scrub(a, ans.everything())))
			}
		}
		for i, u := range users {
			r := a.req("/x")
			r.Cookies = a.cookieName() + "=" + u.s
			ans := a.send(r)
			ev.Case(fmt.Sprintf("crowd %d %d %v", size, i, out[i]), true, func() interface{} { return map[string]interface{}{"users": size, "user": i, "logged out": out[i]} })
			if out[i] && !a.isLogin(ans) {
				rt.Fatalf("user %d of %d has logged out, but gets %s", i, size, stripRandom(scrub(a, ans.everything())))
			}
			if !out[i] && (!ans.OK() || ans.Auth != "Bearer "+u.g.access+" "+u.g.id) {
				rt.Fatalf("the session of user %d of %d gets %s", i, size, stripRandom(scrub(a, ans.everything())))
			}
		}
		a.tn.forget()
		ev.Label(fmt.Sprintf("crowd of %d", size))
	})

	run(t, ev, "sessions", 2500, 80000, func(rt *rapid.T) {
		now := baseTime
		setClock(now)
		anyAud := []v1.Rule{{Claim: "sub", Match: "ANY", Values: []string{"user"}}}
		a := newApp(l, func(a *App) {
			a.prefix = rapid.SampledFrom([]string{"/", "/shop"}).Draw(rt, "prefix")
			if rapid.Bool().Draw(rt, "own-rules") {
				a.policy.Rules = anyAud
			}
		})
		defer a.close()
		// the same provider and a policy the other client's tokens would satisfy
		other := newApp(l, func(b *App) {
			b.spec.ClientID, b.spec.DiscoveryURL = "client2", a.spec.DiscoveryURL
			b.policy.Rules = anyAud
		})
		defer other.close()
		// and an API that takes the tokens themselves
		l.c.put(kJwt, a.ns, "api", v1.JwtConfigSpec{JwksURL: a.tn.url(epJwks)})
		l.c.put(kPolicy, a.ns, "api", onePolicy("api", v1.PathConfig{Prefix: "/"}, v1.PathPolicy{PolicyType: "jwt", Config: "api", Rules: a.policy.Rules}))
		defer l.c.del(kJwt, a.ns, "api")
		defer l.c.del(kPolicy, a.ns, "api")
		if !l.sync1() {
			rt.Fatalf("the adapter did not pick up its configuration")
		}
		var log []string
		var all []*session
		serial := 0
		interesting := false
		fail := func(format string, args ...interface{}) {
			rt.Helper()
			msg := scrub(a, fmt.Sprintf(format, args...))
			for tok, name := range a.names() {
				msg = strings.ReplaceAll(msg, tok, name)
			}
			for _, s := range all {
				msg = strings.ReplaceAll(msg, s.cookie, "cookie-of-"+s.name)
			}
			rt.Fatalf("%s%s", msg, history(log))
		}
		tokens := func(withRefresh bool) (grant, time.Time, time.Time) {
			serial++
			life := func(label string) time.Time {
				d := rapid.SampledFrom([]int{0, 30, 30, 600, 100000, 4000000}).Draw(rt, label)
				if d == 0 {
					return time.Time{}
				}
				return now.Add(secs(d))
			}
			ae, ie := life("access-life"), life("id-life")
			ac, ic := claims{"n": serial}, claims{"n": serial}
			if !ae.IsZero() {
				ac["exp"] = ae.Unix()
			}
			if !ie.IsZero() {
				ic["exp"] = ie.Unix()
			}
			g := grant{access: a.accessToken(ac), id: a.idToken(ic)}
			a.name(g.access, fmt.Sprintf("access%d", serial))
			a.name(g.id, fmt.Sprintf("id%d", serial))
			if withRefresh {
				g.ref = fmt.Sprintf("refresh-%d", serial)
			}
			return g, ae, ie
		}
		path := strings.TrimSuffix(a.prefix, "/") + "/x"
		login := func() {
			g, ae, ie := tokens(rapid.IntRange(0, 3).Draw(rt, "with-refresh") > 0)
			if len(all) > 0 && rapid.IntRange(0, 2).Draw(rt, "same-tokens") == 0 {
				// the user logs in on another device and the provider gives the same tokens
				twin := all[len(all)-1]
				g.access, g.id, ae, ie = twin.g.access, twin.g.id, twin.accExp, twin.idExp
				if expired(ae, now) || expired(ie, now) {
					return
				}
				log = append(log, "with the tokens of "+twin.name+":")
			}
			s := &session{name: fmt.Sprintf("s%d", len(all)+1), browser: &Browser{}, g: g, accExp: ae, idExp: ie}
			ans := s.browser.login(a, path, fmt.Sprintf("code%d", serial), g)
			log = append(log, fmt.Sprintf("login %s: access %s, id %s, refresh %q", s.name, until(ae), until(ie), g.ref))
			if !ans.Redirect() || a.isLogin(ans) || ans.SetCookie() == nil {
				fail("login failed: %s", ans.everything())
			}
			s.cookie = ans.SetCookie().Value
			for _, x := range all {
				if x.cookie == s.cookie {
					fail("two sessions have the same cookie")
				}
			}
			all = append(all, s)
		}
		request := func(s *session) {
			r := a.req(path)
			r.Cookies = strayCookies(rt, "cookie", all[len(all)-1].cookie) + a.cookieName() + "=" + s.cookie
			needRenewal := expired(s.accExp, now) || expired(s.idExp, now)
			mode, mtok := "", grant{}
			var mae, mie time.Time
			if needRenewal && !s.dead && s.g.ref != "" {
				mode = rapid.SampledFrom([]string{"rotate", "rotate", "keep", "keep", "refused", "broken", "garbage", "no-access", "wrong-key", "expired-new", "no-id"}).Draw(rt, "renewal")
				mtok, mae, mie = tokens(mode == "rotate")
				switch mode {
				case "wrong-key":
					mtok.access = token(a.kid, testKeys[5], claims{"sub": "user", "aud": a.spec.ClientID})
				case "expired-new":
					mtok.id = a.idToken(claims{"exp": now.Unix() - 5})
				case "no-access":
					mtok.access = ""
				case "no-id":
					mtok.id = ""
				}
				a.mu.Lock()
				a.refresh = map[string]grant{s.g.ref: mtok}
				a.mu.Unlock()
				switch mode {
				case "refused":
					a.tn.serve(epToken, func(Rec) Reply { return Reply{Status: 400, Body: `{"error":"invalid_grant"}`} })
				case "broken":
					a.tn.serve(epToken, func(Rec) Reply { return Reply{Status: 500, Body: `oops`} })
				case "garbage":
					a.tn.serve(epToken, func(Rec) Reply { return Reply{Status: 200, Body: `<html>`} })
				}
			}
			before := len(a.tn.requests(epToken))
			r = unrelated(rt, r, a.accessToken(nil), all[0].g.access)
			ans := a.send(r)
			a.tn.serve(epToken, a.tokenEndpoint)
			asked := a.tn.requests(epToken)[before:]
			log = append(log, fmt.Sprintf("request with %s renewal=%q", s.name, mode))
			ev.Case(mustJSON(log), interesting || needRenewal || s.dead, func() interface{} {
				return map[string]interface{}{"history": append([]string(nil), log...)}
			})
			for _, q := range asked {
				if q.Form().Get("refresh_token") != s.g.ref {
					fail("renewal of %s used refresh token %q, its own is %q", s.name, q.Form().Get("refresh_token"), s.g.ref)
				}
			}
			good := mode == "rotate" || mode == "keep"
			switch {
			case s.dead:
				ev.Label("dead")
				if !a.isLogin(ans) {
					fail("request with ended session %s must start a login: %s", s.name, ans.everything())
				}
			case !needRenewal:
				ev.Label("live")
				if s.limbo && a.isLogin(ans) {
					s.dead = true
					return
				}
				if !ans.OK() || ans.Auth != "Bearer "+s.g.access+" "+s.g.id {
					fail("request with live session %s: %s, want OK with %s", s.name, ans.everything(), s.g.access)
				}
			case mode != "" && good && !(s.limbo && a.isLogin(ans)):
				ev.Label("renewed:" + mode)
				if !ans.OK() || ans.Auth != "Bearer "+mtok.access+" "+mtok.id {
					fail("expired session %s with a refresh token: %s, want OK with the renewed tokens", s.name, ans.everything())
				}
				if c := ans.SetCookie(); c != nil && (c.Name != a.cookieName() || c.Value != s.cookie) {
					fail("renewal of %s changed its cookie", s.name)
				}
				if mtok.ref == "" {
					mtok.ref = s.g.ref
				}
				s.g, s.accExp, s.idExp, s.limbo = mtok, mae, mie, false
			default:
				ev.Label("cannot-renew:" + mode)
				if !a.isLogin(ans) {
					fail("expired session %s that cannot be renewed (%s) must start a login: %s", s.name, mode, ans.everything())
				}
				s.limbo = true
			}
		}
		logout := func(s *session) {
			interesting = true
			base := rapid.SampledFrom([]string{path, a.prefix, path + "/deep/er"}).Draw(rt, "logout-path")
			lead := ""
			if a.prefix == "/" {
				lead = rapid.SampledFrom([]string{"", "", "", "//evil.example", "/\\evil.example", "///evil.example/a"}).Draw(rt, "lead")
			}
			if lead != "" {
				base = lead
			}
			base = strings.TrimSuffix(base, "/")
			r := a.req(base + "/oidc/logout")
			r.Cookies = "a=b; " + strayCookies(rt, "cookie", all[len(all)-1].cookie) + a.cookieName() + "=" + s.cookie
			log = append(log, fmt.Sprintf("logout %s at %q", s.name, r.Path))
			ans := a.send(r)
			if !ans.Redirect() || a.isLogin(ans) {
				fail("logout of %s: %s", s.name, ans.everything())
			}
			loc := ans.Header("location")
			// as browsers resolve it: backslashes are slashes
			u, err := (&url.URL{Scheme: r.Scheme, Host: r.Host, Path: r.Path}).Parse(strings.ReplaceAll(loc, `\`, "/"))
			if loc == "" || err != nil || u.Host != r.Host || u.Scheme != r.Scheme {
				fail("logout at %q sends the browser to %q, not to the same host", r.Path, loc)
			}
			want := base
			if want == "" {
				want = "/"
			}
			if lead == "" && u.Path != want {
				fail("logout at %q sends the browser to %q, want %q", r.Path, loc, want)
			}
			c := ans.SetCookie()
			if c == nil || c.Name != a.cookieName() || c.Value == s.cookie || c.Path != "/" || !(c.MaxAge < 0 || !c.Expires.IsZero() && c.Expires.Before(time.Now())) {
				fail("logout of %s does not clear its cookie: %s", s.name, ans.everything())
			}
			s.dead = true
		}
		login()
		for i := rapid.IntRange(4, 20).Draw(rt, "steps"); i > 0; i-- {
			pick := all[rapid.IntRange(0, len(all)-1).Draw(rt, "session")]
			switch rapid.SampledFrom([]string{"request", "request", "request", "request", "advance", "advance", "logout", "login", "foreign-name", "foreign-cookie", "foreign-logout", "api", "api"}).Draw(rt, "step") {
			case "login":
				if len(all) < 4 {
					login()
				}
			case "advance":
				d := rapid.SampledFrom([]int{7, 35, 700, 5000, 200000, 3000000}).Draw(rt, "seconds")
				if now.Add(secs(d)).After(baseTime.Add(85 * 24 * time.Hour)) { // cookies last 90 days
					break
				}
				now = now.Add(secs(d))
				setClock(now)
				interesting = true
				log = append(log, fmt.Sprintf("clock +%ds", d))
			case "logout":
				logout(pick)
			case "api": // the session's tokens, used as an API client does
				interesting = true
				r := a.req("/x")
				r.Svc = "api"
				r.Auth = "Bearer " + pick.g.access
				exp := expired(pick.accExp, now)
				if rapid.Bool().Draw(rt, "both") {
					r.Auth += " " + pick.g.id
					exp = exp || expired(pick.idExp, now)
				}
				log = append(log, "API request with the tokens of "+pick.name)
				if ans := a.send(r); ans.OK() == exp || exp && ans.Err != "" {
					fail("an API request with the tokens of %s (expired=%v) is answered %s", pick.name, exp, ans.everything())
				}
			case "foreign-logout": // the other client's logout with this session's value
				interesting = true
				r := other.req("/x/oidc/logout")
				r.Cookies = other.cookieName() + "=" + pick.cookie
				log = append(log, "logout at the other client with the value of "+pick.name)
				other.send(r)
			case "foreign-name": // this session's value in the other client's cookie
				interesting = true
				r := other.req("/x")
				r.Cookies = other.cookieName() + "=" + pick.cookie
				log = append(log, "request to the other client with the value of "+pick.name)
				if ans := other.send(r); !a.isLogin(ans) {
					fail("the other client takes the session of %s: %s", pick.name, ans.everything())
				}
			case "foreign-cookie":
				interesting = true
				r := a.req(path)
				v := rapid.SampledFrom([]string{"", "deleted", "x", "AAAAAAAAAAAAAAA", "upper", "prefix", "space", "quoted-other",
					"near", "near", "near", "near", "near", "near"}).Draw(rt, "value")
				log = append(log, "request with cookie "+v+" near "+pick.name)
				switch v {
				case "upper":
					v = strings.ToUpper(pick.cookie)
				case "prefix":
					v = pick.cookie[:len(pick.cookie)-1]
				case "space":
					v = pick.cookie + "x"
				case "near":
					var how string
					v, how = nearMiss(rt, pick.cookie)
					log = append(log, "  edit: "+how)
				}
				r.Cookies = a.cookieName() + "=" + v
				if v == pick.cookie {
					continue
				}
				if ans := a.send(r); !a.isLogin(ans) {
					fail("a cookie of no session is let through: %s", ans.everything())
				}
			default:
				request(pick)
			}
		}
		for _, s := range all {
			request(s)
		}
	})
}

func until(x time.Time) string {
	if x.IsZero() {
		return "does not expire"
	}
	return fmt.Sprintf("until %ds", x.Unix()-baseTime.Unix())
}
