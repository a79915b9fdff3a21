package harness

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

// ledger is every secret of a case: what must not be seen, and where it may be.
type ledger struct {
	mark map[string]mark // text whose appearance gives the secret away
}

type mark struct {
	what string // symbolic name
	kind string // secret, key, code, refresh, access, id, state
	app  int    // whose provider may see it
	user int    // which browser's session holds it (access and ID tokens)
}

func (l *ledger) add(text, what, kind string, app, user int) {
	if len(text) >= 8 {
		l.mark[text] = mark{what, kind, app, user}
	}
}

// token adds a token whole, and a JWT's payload and signature.
func (l *ledger) token(tok, what, kind string, app, user int) {
	l.add(tok, what, kind, app, user)
	if p := strings.Split(tok, "."); len(p) >= 2 {
		l.add(p[1], what+" (payload)", kind, app, user)
		if len(p) > 2 {
			l.add(strings.TrimRight(p[2], "="), what+" (signature)", kind, app, user)
		}
	}
}

var (
	b64Run = regexp.MustCompile(`[A-Za-z0-9+/_-]{11,}`)
	hexRun = regexp.MustCompile(`[0-9a-fA-F]{16,}`)
)

// readings are the text and what it can be decoded to.
func readings(text string, depth int, out map[string]bool) {
	if text == "" || out[text] {
		return
	}
	out[text] = true
	if depth == 0 {
		return
	}
	if u, err := url.QueryUnescape(text); err == nil {
		readings(u, depth-1, out)
	}
	for _, r := range hexRun.FindAllString(text, -1) {
		if b, err := hex.DecodeString(r[:len(r)/2*2]); err == nil {
			readings(string(b), depth-1, out)
		}
	}
	std := strings.NewReplacer("-", "+", "_", "/")
	for _, r := range b64Run.FindAllString(text, -1) {
		r = std.Replace(r)
		for off := 0; off < 4 && off+8 < len(r); off++ {
			s := r[off:]
			if len(s)%4 == 1 {
				s = s[:len(s)-1]
			}
			if b, err := base64.RawStdEncoding.DecodeString(s); err == nil {
				readings(string(b), depth-1, out)
			}
		}
	}
}

// find lists the secrets that can be read off a text, unless allowed.
func (l *ledger) find(text string, allowed func(mark) bool) (found []string) {
	all := map[string]bool{}
	readings(text, 2, all)
	seen := map[string]bool{}
	for r := range all {
		for m, k := range l.mark {
			if strings.Contains(r, m) && !allowed(k) {
				seen[k.what] = true
			}
		}
	}
	for k := range seen {
		found = append(found, k)
	}
	sort.Strings(found)
	return found
}

// tokenFaults are the ways a provider answers a grant.
var tokenFaults = []string{"ok", "ok", "ok", "ok", "ok", "opaque", "opaque-refused", "opaque-reset", "opaque-500", "opaque-echo", "opaque-hang-up", "no-id", "no-access", "no-refresh", "empty", "unsigned", "other-key", "other-aud", "expired",
	"id:no-jwt", "id:two-parts", "id:four-parts", "id:unsigned", "id:other-key", "id:other-aud", "id:expired", "id:bad-header", "id:padded", "access:two-parts", "access:unsigned", "access:other-key", "access:other-aud", "access:expired", "access:bad-header",
	"400", "401", "500", "302-body", "truncated", "text", "array", "numbers", "nested", "json-in-text", "reset", "short", "half-json"}

func TestC21(t *testing.T) {
	ev := newEvidence("C21", "two applications (Basic and POST credentials) and an API; 2 browsers through 6-16 logins, callbacks with every kind of provider answer (47 kinds, most of them carrying the tokens in a faulty form), session uses, expiries, refreshes, logouts and API calls; every answer and every provider request is searched, as it is and URL-, base64- and hex-decoded twice, for every client secret, cookie key, code, state, access, ID and refresh token of the case; non-trivial: secrets had passed through the adapter before an answer other than OK was searched",
		"the provider does not itself echo secrets in the addresses of its endpoints or in the error parameter")
	defer ev.Write(t)

	prop := func(rt *rapid.T, tgt confTarget, keys func() (hash, block []byte), maxSteps int) {
		book := &ledger{mark: map[string]mark{}}
		var apps []*App
		for i, meth := range []string{"client_secret_basic", "client_secret_post"} {
			i, meth := i, meth
			core := rapid.StringMatching(`[A-Za-z0-9]{16}`).Draw(rt, "secret")
			a := newSolo(nil, func(a *App) {
				a.spec.ClientID = fmt.Sprintf("client-%d", i)
				a.tn.query = rapid.SampledFrom([]string{"", "", "?tenant=x", "?p=sign-in&api-version=1"}).Draw(rt, "token-query")
				a.spec.ClientSecret = rapid.SampledFrom([]string{"", "p@&", "é ", "/+="}).Draw(rt, "secret-head") + core
				a.spec.AuthMethod = meth
				if rapid.Bool().Draw(rt, "rules") {
					a.policy.Rules = []v1.Rule{{Claim: "aud", Match: "ANY", Values: []string{a.spec.ClientID}}}
				}
			})
			defer a.tn.close()
			apps = append(apps, a)
			book.add(core, fmt.Sprintf("client secret %d", i), "secret", i, -1)
			tgt.put(kOidc, a.ns, "app", a.spec)
			tgt.put(kPolicy, a.ns, "app", onePolicy(a.svc, v1.PathConfig{Prefix: "/"}, a.policy))
			tgt.put(kJwt, a.ns, "j", v1.JwtConfigSpec{JwksURL: a.tn.url(epJwks)})
			tgt.put(kPolicy, a.ns, "api", onePolicy("api", v1.PathConfig{Prefix: "/"}, v1.PathPolicy{PolicyType: "jwt", Config: "j",
				Rules: []v1.Rule{{Claim: "scope", Match: "ALL", Values: []string{"read"}}}}))
		}
		if !tgt.settle() {
			rt.Fatalf("the adapter did not pick up its configuration")
		}
		hash, block := keys()
		if len(hash) == 0 || len(block) == 0 {
			rt.Fatalf("the cookie keys are not in the secret")
		}
		book.add(string(hash), "HASH_KEY", "key", -1, -1)
		book.add(string(block), "BLOCK_KEY", "key", -1, -1)

		var log []string
		seq, handled, scanned := 0, false, 0
		jars := []*Browser{{}, {}}
		states := map[*Browser]map[int]string{jars[0]: {}, jars[1]: {}}
		fail := func(format string, args ...interface{}) {
			rt.Helper()
			rt.Fatalf("%s%s", stripRandom(fmt.Sprintf(format, args...)), history(log))
		}
		// mint makes and books the tokens of one grant
		mint := func(k, user int, fault string) grant {
			seq++
			cl := claims{"n": seq, "scope": "read", "exp": clock().Unix() + 3600, "deep": strings.Repeat("x", rapid.SampledFrom([]int{0, 0, 900}).Draw(rt, "claim-size"))}
			make := func(use string) string {
				fault, key := strings.TrimPrefix(fault, use+":"), apps[k].key
				c := claims{"use": use, "sub": "user", "aud": []string{apps[k].spec.ClientID}}
				for n, v := range cl {
					c[n] = v
				}
				switch fault {
				case "other-aud":
					c["aud"] = []string{"somebody"}
				case "expired":
					c["exp"] = clock().Unix() - 50
				case "other-key":
					key = testKeys[5]
				}
				tok := token(apps[k].kid, key, c)
				parts := strings.Split(tok, ".")
				switch fault {
				case "unsigned":
					tok = parts[0] + "." + parts[1] + "."
				case "two-parts":
					tok = parts[0] + "." + parts[1]
				case "four-parts":
					tok += "." + parts[1]
				case "bad-header":
					tok = "x" + tok
				case "padded":
					tok += "="
				case "no-jwt":
					tok = fmt.Sprintf("opaque-%s-of-%d-%06d", use, k, seq*7919)
				}
				return tok
			}
			g := grant{access: make("access"), id: make("id"), ref: fmt.Sprintf("refresh-of-%d-%06d", k, seq*7919)}
			if strings.HasPrefix(fault, "opaque") {
				g.access = fmt.Sprintf("opaque-access-of-%d-%06d", k, seq*7919)
				apps[k].vouch(g.access, fault == "opaque")
				switch fault {
				case "opaque-reset":
					apps[k].fault(g.access, Reply{Mode: "reset"})
				case "opaque-500":
					apps[k].fault(g.access, Reply{Status: 500, Body: `{"sub":"u","token":"` + g.access + `"}`})
				case "opaque-echo":
					apps[k].fault(g.access, Reply{Status: 403, Body: "no such token: " + g.access})
				case "opaque-hang-up":
					apps[k].fault(g.access, Reply{Mode: "truncate", Status: 200, Body: `{"active":true}`})
				}
			}
			book.token(g.access, fmt.Sprintf("access token %d of app %d", seq, k), "access", k, user)
			book.token(g.id, fmt.Sprintf("ID token %d of app %d", seq, k), "id", k, user)
			book.token(g.ref, fmt.Sprintf("refresh token %d of app %d", seq, k), "refresh", k, user)
			return g
		}
		provider := func(k, user int) string {
			fault := rapid.SampledFrom(tokenFaults).Draw(rt, "provider")
			g := mint(k, user, fault)
			full := tokenDoc(g)
			rep := Reply{Status: 200, Body: full}
			switch fault {
			case "no-id":
				rep.Body = tokenDoc(grant{access: g.access, ref: g.ref})
			case "no-access":
				rep.Body = tokenDoc(grant{id: g.id, ref: g.ref})
			case "no-refresh":
				rep.Body = tokenDoc(grant{access: g.access, id: g.id})
			case "empty":
				rep.Body = "{}"
			case "400", "401", "500":
				fmt.Sscan(fault, &rep.Status)
			case "302-body":
				rep.Status = 304
			case "truncated":
				rep.Mode = "truncate"
			case "text":
				rep.Body = "access_token=" + g.access + "&id_token=" + g.id + "&refresh_token=" + g.ref
			case "array":
				rep.Body = "[" + full + "]"
			case "numbers":
				rep.Body = mustJSON(claims{"access_token": 1, "id_token": []string{g.id}, "refresh_token": g.ref})
			case "nested":
				rep.Body = mustJSON(claims{"access_token": claims{"token": g.access}, "refresh_token": g.ref})
			case "json-in-text":
				rep.Body = mustJSON(full)
			case "reset":
				rep = Reply{Mode: "reset"}
			case "short":
				rep.Body = full[:len(full)/2]
			case "half-json":
				rep.Body = full + ",,"
			}
			apps[k].tn.serve(epToken, func(Rec) Reply { return rep })
			return fault
		}
		// scan looks at an answer to browser user (-1: an API client)
		scan := func(ans Answer, user, k int) {
			scanned++
			if handled && !ans.OK() {
				ev.Label("searched after secrets were handled")
			}
			auth := ans.Auth
			if ans.OK() && user >= 0 {
				for m, i := range book.mark {
					if (i.kind == "access" || i.kind == "id") && i.user == user && i.app == k && !strings.Contains(i.what, "(") {
						auth = strings.Replace(auth, m, "", 1)
					}
				}
			}
			parts := map[string]string{"RPC error": ans.Err, "message": ans.Message, "body": ans.Body, "forwarded Authorization": auth, "session cookie": ans.Cookie}
			for n, v := range ans.Headers {
				parts["header "+n] = v
				parts["name of header "+n] = n
			}
			var where []string
			for p := range parts {
				where = append(where, p)
			}
			sort.Strings(where)
			for _, p := range where {
				inURL := strings.EqualFold(p, "header location")
				found := book.find(parts[p], func(m mark) bool { return m.kind == "state" && inURL && ans.Redirect() })
				if len(found) > 0 {
					fail("the %s of an answer to user %d gives away: %s", p, user, strings.Join(found, ", "))
				}
			}
		}
		// providers looks at everything the providers received
		providers := func() {
			for k, a := range apps {
				for _, r := range a.tn.requests("") {
					if r.Endpoint == epToken {
						handled = true
					}
					for _, part := range []struct{ name, text string }{{"method", r.Method}, {"Authorization", r.Auth}, {"query", r.Query}, {"body", r.Body}, {"headers", r.header}, {"content type", r.ContentType}, {"path", r.Endpoint}} {
						found := book.find(part.text, func(m mark) bool {
							// never in an address: it ends up in logs and error texts
							switch m.kind {
							case "secret":
								return r.Endpoint == epToken && m.app == k && (part.name == "Authorization" || part.name == "body")
							case "code", "refresh":
								return r.Endpoint == epToken && m.app == k && part.name == "body"
							case "access":
								return r.Endpoint == epUserinfo && m.app == k && (part.name == "Authorization" || part.name == "body")
							}
							return false
						})
						if len(found) > 0 {
							fail("the %s of a %s request to provider %d gives away: %s", part.name, r.Endpoint, k, strings.Join(found, ", "))
						}
					}
				}
				a.tn.forget()
			}
		}
		send := func(u, k int, r Req) Answer {
			name := apps[k].cookieName()
			r.Cookies = strayCookies(rt, "cookie", jars[u].get(name), jars[u].get(name), jars[1-u].get(name), jars[1-u].get(name))
			if r.Cookies == "" || rapid.IntRange(0, 2).Draw(rt, "stray-only") > 0 {
				r.Cookies += jars[u].header()
			}
			ans := tgt.do(r)
			c := ans.SetCookie()
			if c != nil && ans.Redirect() {
				if _, q, ok := authRequest(ans); ok {
					states[jars[u]][k] = q.Get("state")
					seq++
					if s := q.Get("state"); len(s) >= 8 {
						book.add(s, fmt.Sprintf("state %d", seq), "state", k, u)
					}
				}
			}
			scan(ans, u, k)
			providers()
			jars[u].set(c)
			apps[k].tn.serve(epToken, func(Rec) Reply { return Reply{Status: 400, Body: `{"error":"invalid_grant"}`} })
			return ans
		}
		var fired []string
		for i := rapid.IntRange(6, maxSteps).Draw(rt, "steps"); i > 0; i-- {
			u, k := rapid.IntRange(0, 1).Draw(rt, "user"), rapid.IntRange(0, 1).Draw(rt, "app")
			a := apps[k]
			path := rapid.SampledFrom([]string{"/", "/shop", "/a/b/"}).Draw(rt, "path")
			who := fmt.Sprintf("user %d, app %d: ", u, k)
			step := rapid.SampledFrom([]string{"open", "open", "login", "login", "login", "callback", "expire", "expire", "logout", "error", "api", "api"}).Draw(rt, "step")
			switch step {
			case "open":
				fault := provider(k, u) // for a refresh
				log = append(log, who+"opens "+path+"; provider: "+fault)
				ans := send(u, k, a.req(path))
				ev.Label(fmt.Sprintf("open: ok=%v", ans.OK()))
			case "login", "callback":
				if step == "login" || states[jars[u]][k] == "" {
					log = append(log, who+"opens "+path)
					send(u, k, a.req(path))
				}
				fault := provider(k, u)
				seq++
				r := a.req(path + "/oidc/callback")
				r.Code, r.State = fmt.Sprintf("auth-code-%d-%06d", k, seq*7919), states[jars[u]][k]
				book.add(r.Code, fmt.Sprintf("code %d", seq), "code", k, u)
				bad := rapid.IntRange(0, 5).Draw(rt, "state") == 0
				if bad {
					r.State = "wrong-state"
				}
				log = append(log, fmt.Sprintf("%scalls back, wrong state=%v; provider: %s", who, bad, fault))
				ans := send(u, k, r)
				ev.Label(fmt.Sprintf("callback %s: redirect=%v", fault, ans.Redirect()))
				fired = append(fired, fault)
			case "expire":
				log = append(log, "two hours pass")
				setClock(clock().Add(2 * time.Hour))
				fault := provider(k, u)
				log = append(log, who+"opens "+path+"; provider: "+fault)
				ans := send(u, k, a.req(path))
				ev.Label(fmt.Sprintf("after expiry: ok=%v", ans.OK()))
			case "logout":
				log = append(log, who+"logs out")
				send(u, k, a.req(path+"/oidc/logout"))
			case "error":
				seq++
				r := a.req(path + "/oidc/callback")
				r.State, r.Error = states[jars[u]][k], rapid.SampledFrom([]string{"access_denied", "invalid_request"}).Draw(rt, "error")
				if rapid.Bool().Draw(rt, "code-too") {
					r.Code = fmt.Sprintf("auth-code-%d-%06d", k, seq*7919)
					book.add(r.Code, fmt.Sprintf("code %d", seq), "code", k, u)
				}
				log = append(log, who+"calls back with an error")
				send(u, k, r)
			case "api":
				fault := rapid.SampledFrom([]string{"ok", "opaque", "opaque-reset", "opaque-echo", "opaque-500", "unsigned", "other-key", "other-aud", "expired"}).Draw(rt, "token")
				g := mint(k, -1, fault)
				r := a.req(path)
				r.Svc = "api"
				form := rapid.SampledFrom([]string{"access", "both", "no-bearer", "id-only", "basic", "three"}).Draw(rt, "form")
				switch form {
				case "access":
					r.Auth = "Bearer " + g.access
				case "both":
					r.Auth = "Bearer " + g.access + " " + g.id
				case "no-bearer":
					r.Auth = g.access
				case "id-only":
					r.Auth = "Bearer  " + g.id
				case "basic":
					r.Auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(a.spec.ClientID+":"+a.spec.ClientSecret))
				case "three":
					r.Auth = "Bearer " + g.access + " " + g.id + " " + g.ref
				}
				log = append(log, fmt.Sprintf("a client calls the API of app %d: token %s, header %s", k, fault, form))
				ans := tgt.do(r)
				scan(ans, -1, k)
				providers()
				ev.Label(fmt.Sprintf("api: ok=%v", ans.OK()))
			}
		}
		ev.Case(mustJSON(log), handled, func() interface{} {
			return map[string]interface{}{"history": log, "secrets": len(book.mark), "answers_searched": scanned}
		})
		for _, a := range apps {
			for _, n := range []string{"app", "api"} {
				tgt.del(kPolicy, a.ns, n)
			}
			tgt.del(kOidc, a.ns, "app")
			tgt.del(kJwt, a.ns, "j")
		}
	}

	run(t, ev, "answers", 2500, 60000, func(rt *rapid.T) {
		s := newSoloAdapter()
		prop(rt, s, func() (h, b []byte) {
			o, err := s.kube.CoreV1().Secrets(keySecretNS).Get(keySecretName, metav1.GetOptions{})
			if err != nil {
				return nil, nil
			}
			return o.Data["HASH_KEY"], o.Data["BLOCK_KEY"]
		}, 16)
	})
	l := shared(t)
	run(t, ev, "adapter", 250, 4000, func(rt *rapid.T) {
		c := &liveConf{l, map[[3]string]bool{}}
		defer c.close()
		prop(rt, c, l.cookieKeys, 12)
	})
}
