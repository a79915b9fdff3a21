package harness

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	policypb "istio.io/api/policy/v1beta1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/tools/cache"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// ------------------------------------------------------------------ odd inputs

var oddStrings = []string{"", " ", "/", "//", "*", "/*", "a", "\x00", "\xff\xfe", "é漢字🎈", "%", "%2f%2e", "..", "/../..", "\"", "'", "{}", "[", "null", "=", ";", ";;=;", "a=b; c", "oidc-cookie-client=", "oidc-cookie-client=deleted", "oidc-cookie-client=\"q\"",
	"Bearer", "Bearer ", "Bearer  ", "bearer a.b.c", "Bearer a.b.c d.e.f", "Bearer ..", "Basic YTpi", "Bearer eyJhbGciOiJSUzI1NiJ9..", "Bearer eyJhbGciOiJub25lIn0.e30.", "Bearer bnVsbA.bnVsbA.bnVsbA", "Bearer W10.W10.W10", "Bearer eyJraWQiOjF9.e30.AA", "Bearer eyJhbGciOjF9.e30.AA", "Bearer eyJraWQiOiJrMSIsImFsZyI6IlJTMjU2In0.e30.", "GET", "get", "ALL", "https", "://", "http://[::1", "a:b@c", "/oidc/callback", "oidc/callback", "/oidc/logout", "oidc/logout", "/oidc/logout/oidc/callback", "/oidc/callback/", "access_denied", "1e400", "-0", "NaN"}

func genOdd(rt *rapid.T, label string) string {
	switch rapid.IntRange(0, 9).Draw(rt, label+"-kind") {
	case 0, 1, 2, 3:
		return rapid.SampledFrom(oddStrings).Draw(rt, label)
	case 4:
		return rapid.StringN(0, 20, -1).Draw(rt, label)
	case 5:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(rt, label))
	case 6:
		s := rapid.SampledFrom(oddStrings).Draw(rt, label) + "x"
		return strings.Repeat(s, 1+rapid.SampledFrom([]int{10, 1000, 60000}).Draw(rt, label+"-size")/len(s))
	default:
		return rapid.SampledFrom(oddStrings).Draw(rt, label) + rapid.SampledFrom(oddStrings).Draw(rt, label+"-2")
	}
}

// genOddJSON makes JSON values of every type.
func genOddJSON(rt *rapid.T, label string, depth int) interface{} {
	n := 9
	if depth <= 0 {
		n = 6
	}
	switch rapid.IntRange(0, n).Draw(rt, label+"-json") {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(rt, label)
	case 2:
		return json.RawMessage(rapid.SampledFrom([]string{"0", "-1", "1.5", "1e400", "-1e400", "123456789012345678901234567890", "1e-400", "-0"}).Draw(rt, label))
	case 3, 4:
		return strings.ToValidUTF8(genOdd(rt, label), "?")
	case 5:
		return []interface{}{}
	case 6:
		return map[string]interface{}{}
	case 7, 8:
		out := []interface{}{}
		for i := rapid.IntRange(1, 3).Draw(rt, label+"-n"); i > 0; i-- {
			out = append(out, genOddJSON(rt, label, depth-1))
		}
		return out
	}
	out := map[string]interface{}{}
	for i := rapid.IntRange(1, 3).Draw(rt, label+"-n"); i > 0; i-- {
		out[rapid.SampledFrom([]string{"a", "keys", "kid", "error", "access_token", "", "ä"}).Draw(rt, label+"-k")] = genOddJSON(rt, label, depth-1)
	}
	return out
}

// genToken18 makes a token with an odd header or odd claims, sometimes properly signed.
func genToken18(rt *rapid.T, aud string) string {
	cl := claims{"sub": "u", "aud": aud, "iat": baseTime.Unix(), "exp": baseTime.Unix() + 3600}
	hd := claims{"kid": "k1", "typ": "JWT"}
	for i := rapid.IntRange(0, 3).Draw(rt, "odd-claims"); i > 0; i-- {
		k := rapid.SampledFrom([]string{"aud", "exp", "iat", "nbf", "sub", "scope", "role", "a", ""}).Draw(rt, "claim")
		cl[k] = genOddJSON(rt, "claim-value", 3)
	}
	if rapid.Bool().Draw(rt, "odd-header") {
		hd[rapid.SampledFrom([]string{"kid", "typ", "crit", "alg", "jku", "b64"}).Draw(rt, "header")] = genOddJSON(rt, "header-value", 1)
	}
	if rapid.IntRange(0, 3).Draw(rt, "deep") == 0 {
		n := rapid.SampledFrom([]int{5, 200, 9000}).Draw(rt, "depth")
		deep := json.RawMessage(strings.Repeat(`{"a":`, n) + `"x"` + strings.Repeat("}", n))
		cl["a"] = deep
	}
	raw := func(v interface{}) string { return base64.RawURLEncoding.EncodeToString([]byte(mustText(v))) }
	switch rapid.IntRange(0, 5).Draw(rt, "signature") {
	case 0:
		return raw(hd) + "." + raw(cl) + "." + genOdd(rt, "sig")
	case 1:
		return genOdd(rt, "h") + "." + genOdd(rt, "c") + "." + genOdd(rt, "s")
	case 2:
		return raw(genOddJSON(rt, "header", 2)) + "." + raw(genOddJSON(rt, "claims", 2)) + "."
	}
	if mustText(cl) == "" {
		return "a.b.c"
	}
	return signText("RS256", raw, hd, cl)
}

// mustText is JSON without HTML escaping; "" for what cannot be written.
func mustText(v interface{}) string {
	if r, ok := v.(json.RawMessage); ok {
		return string(r)
	}
	if s, ok := v.(string); ok {
		b, _ := json.Marshal(s)
		return string(b)
	}
	b, err := json.Marshal(v)
	if err != nil {
		return ""
	}
	return string(b)
}

func signText(alg string, raw func(interface{}) string, hd, cl claims) string {
	if _, ok := hd["alg"]; !ok {
		hd["alg"] = alg
	}
	return signInput(alg, raw(hd)+"."+raw(cl), testKeys[0])
}

// ------------------------------------------------------------------ oracle

// wellFormed: the answer is one a proxy can act on.
func wellFormed(a Answer) string {
	switch {
	case a.Err != "":
		return ""
	case a.Nil:
		return "neither an answer nor an error"
	case strings.Contains(a.Message, "[undecodable detail"):
		return "a detail cannot be decoded"
	case a.Code == 0 && (a.HTTP != 0 || a.Body != ""):
		return "let through with a direct response"
	case a.Code == 0 && a.Auth != "" && !strings.HasPrefix(a.Auth, "Bearer "):
		return "forwards an Authorization that is no bearer token"
	case a.Code == 0:
		return ""
	case a.Code != 16 && a.Code != 7:
		return fmt.Sprintf("status code %d", a.Code)
	case a.Auth != "" || a.Cookie != "":
		return "refused with forwarded credentials"
	case a.HTTP == 302 && a.Header("location") == "" && a.Header("Set-Cookie") == "":
		return "a redirect to nowhere"
	}
	return ""
}

// attempt runs one call of the adapter: no panic, no hang, a well-formed answer.
func attempt(d time.Duration, f func() Answer) (a Answer, bad string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- fmt.Sprintf("panics: %v (%s)", p, adapterFrame())
			} else {
				done <- ""
			}
		}()
		a = f()
	}()
	select {
	case bad = <-done:
		if bad == "" {
			bad = wellFormed(a)
		}
	case <-time.After(d):
		return Answer{}, fmt.Sprintf("does not return within %v", d)
	}
	return
}

// adapterFrame names the adapter's source lines on the stack.
func adapterFrame() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if i := strings.Index(l, "/adapter/"); strings.HasPrefix(l, "\t") && i >= 0 {
			if j := strings.Index(l, " +0x"); j > i {
				l = l[:j]
			}
			out = append(out, l[i+1:])
		}
	}
	return strings.Join(out, " < ")
}

// bystander is a set of well-behaved applications whose decisions must not change.
type bystander struct {
	do  func(Req) Answer
	ns  string
	tn  *Tenant
	app *App
	b   *Browser
	acc string
}

func newBystander(do func(Req) Answer, put func(kind, ns, name string, spec interface{}), settle func() bool) *bystander {
	y := &bystander{do: do, ns: newNS()}
	y.app = newSolo(nil, func(a *App) { a.ns, a.prefix, a.spec.ClientID = y.ns, "/web", "bystander" })
	y.tn = y.app.tn
	put(kOidc, y.ns, "app", y.app.spec)
	put(kJwt, y.ns, "j", v1.JwtConfigSpec{JwksURL: y.tn.url(epJwks)})
	put(kPolicy, y.ns, "p", v1.PolicySpec{Target: []v1.TargetElement{{ServiceName: "web", Paths: []v1.PathConfig{
		{Prefix: "/web", Policies: []v1.PathPolicy{{PolicyType: "oidc", Config: "app"}}},
		{Exact: "/api", Policies: []v1.PathPolicy{{PolicyType: "jwt", Config: "j"}}},
		{Prefix: "/api/rule", Method: "GET", Policies: []v1.PathPolicy{{PolicyType: "jwt", Config: "j", Rules: []v1.Rule{{Claim: "role", Values: []string{"admin"}}}}}}}}}})
	if !settle() {
		panic("the adapter did not pick up its configuration")
	}
	y.acc = y.app.accessToken(nil)
	y.b = &Browser{}
	return y
}

// check asks every application; login starts the session once.
func (y *bystander) check() string {
	ask := func(what string, r Req, good func(Answer) bool) string {
		a, bad := attempt(30*time.Second, func() Answer { return y.do(r) })
		if bad == "" && !good(a) {
			bad = "gets " + stripRandom(scrubPorts(a.everything()))
		}
		if bad != "" {
			return what + " " + bad
		}
		return ""
	}
	r := func(path, auth, cookies string) Req {
		q := y.app.req(path)
		q.Auth, q.Cookies = auth, cookies
		return q
	}
	yes := func(a Answer) bool { return a.OK() && a.Auth == "" }
	no := func(a Answer) bool { return a.HTTP == 401 }
	admin := y.app.accessToken(claims{"role": "admin"})
	for _, bad := range []string{
		ask("an unprotected request", r("/free", "", ""), yes),
		ask("a valid token", r("/api", "Bearer "+y.acc, ""), yes),
		ask("no token", r("/api", "", ""), no),
		ask("a foreign token", r("/api", "Bearer "+token("k1", testKeys[5], claims{"sub": "x"}), ""), no),
		ask("a token meeting the rule", r("/api/rule/x", "Bearer "+admin, ""), yes),
		ask("a token missing the rule", r("/api/rule/x", "Bearer "+y.acc, ""), no),
		ask("a new visitor", r("/web/x", "", ""), y.app.isLogin),
		ask("a forged session", r("/web/x", "", y.app.cookieName()+"=deleted"), y.app.isLogin),
	} {
		if bad != "" {
			return bad
		}
	}
	if y.b.get(y.app.cookieName()) == "" {
		y.app.name(y.acc, "access")
		first := y.do(r("/web/x", "", ""))
		_, q, ok := authRequest(first)
		if !ok {
			return "a login does not start: " + stripRandom(scrubPorts(first.everything()))
		}
		y.b.set(first.SetCookie())
		y.app.issue("by-code", grant{access: y.acc, id: y.app.idToken(nil)})
		cb := r("/web/x/oidc/callback", "", y.b.header())
		cb.Code, cb.State = "by-code", q.Get("state")
		ans := y.do(cb)
		if !ans.Redirect() || ans.SetCookie() == nil {
			return "a login fails: " + stripRandom(scrubPorts(ans.everything()))
		}
		y.b.set(ans.SetCookie())
	}
	return ask("the session", r("/web/y", "", y.b.header()), func(a Answer) bool { return a.OK() && strings.HasPrefix(a.Auth, "Bearer "+y.acc+" ") })
}

// ------------------------------------------------------------------ odd provider answers

// genReply18 turns a good document into an odd reply.
func genReply18(rt *rapid.T, good map[string]interface{}, hang bool) (Reply, string) {
	kinds := []string{"good", "good", "field", "field", "field", "fields", "json", "bytes", "cut", "text", "status", "reset", "truncate", "huge", "deep", "error", "page", "page"}
	if hang {
		kinds = []string{"hang", "hang", "stall", "field", "good"}
	}
	kind := rapid.SampledFrom(kinds).Draw(rt, "reply")
	doc := map[string]interface{}{}
	for k, v := range good {
		doc[k] = v
	}
	rep := Reply{Status: 200}
	switch kind {
	case "field", "fields":
		n := 1
		if kind == "fields" {
			n = 3
		}
		ks := []string{}
		for k := range good {
			ks = append(ks, k)
		}
		ks = sorted(ks)
		for ; n > 0; n-- {
			k := rapid.SampledFrom(ks).Draw(rt, "field")
			doc[k] = genOddJSON(rt, "field-value", 2)
			if s, ok := good[k].(string); ok && rapid.Bool().Draw(rt, "twist") {
				doc[k] = strings.ToValidUTF8(s+genOdd(rt, "tail"), "?")
			}
		}
		rep.Body = mustText(doc)
	case "json":
		rep.Body = mustText(genOddJSON(rt, "document", 3))
	case "bytes":
		rep.Body = genOdd(rt, "body")
	case "cut":
		b := mustText(doc)
		rep.Body = b[:rapid.IntRange(0, len(b)-1).Draw(rt, "upto")]
	case "text":
		rep.Body = "<html>502</html>"
	case "page":
		rep.Status = statusFrom(rt, "page-status", 200, 200, 404, 500, 502, 503)
		rep.Body = strings.Repeat(rapid.SampledFrom([]string{"<html>  ", "oops ", "{\"a\":1} x ", "   ", "[[1], "}).Draw(rt, "page"), rapid.SampledFrom([]int{300, 1500, 6000}).Draw(rt, "page-size"))
	case "status":
		rep.Status, rep.Body = statusFrom(rt, "status", 201, 204, 206, 304, 400, 401, 418, 500, 503, 599), mustText(doc)
	case "error":
		rep.Status, rep.Body = 400, mustText(map[string]interface{}{"error": genOddJSON(rt, "error", 1), "error_description": genOddJSON(rt, "description", 1), "status": genOddJSON(rt, "st", 0)})
	case "huge":
		doc["filler"] = strings.Repeat("x", 1<<20)
		rep.Body = mustText(doc)
	case "deep":
		rep.Body = strings.Repeat(`{"a":[`, 40000)
	case "hang", "stall":
		rep.Mode, rep.Body = kind, mustText(doc)
	case "reset", "truncate":
		rep.Mode, rep.Body = kind, mustText(doc)
	default:
		rep.Body = mustText(doc)
	}
	return rep, kind
}

func sorted(s []string) []string {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return sortedKeys(m)
}

// oddWorld is one application whose provider misbehaves, next to a bystander.
type oddWorld struct {
	s   *solo
	by  *bystander
	app *App
}

// oddPlan is what is drawn for one case; executed afterwards.
type oddPlan struct {
	Replies map[string]Reply
	Kinds   map[string]string
	Token   string
	Steps   []string
	Odd     string
}

func genOddPlan(rt *rapid.T, tn *Tenant, hang bool) oddPlan {
	p := oddPlan{Replies: map[string]Reply{}, Kinds: map[string]string{}}
	k := jwk("k1", &testKeys[0].PublicKey)
	keys := []interface{}{k}
	if rapid.Bool().Draw(rt, "odd-key") {
		odd := map[string]interface{}{}
		for n, v := range k {
			odd[n] = v
		}
		f := rapid.SampledFrom([]string{"n", "e", "kid", "kty", "use", "alg"}).Draw(rt, "key-field")
		odd[f] = rapid.SampledFrom([]interface{}{"", "AA", "AQ", "Ag", "AAAA", "____", "_____w", "=", "*", nil, 7, []int{1}, strings.Repeat("_", 4096)}).Draw(rt, "key-value")
		keys = []interface{}{odd}
		if rapid.Bool().Draw(rt, "among-others") {
			keys = append(keys, k, nil, "x", 3, []int{})
		}
	}
	tok := map[string]interface{}{"access_token": genToken18(rt, "client"), "id_token": genToken18(rt, "client"), "refresh_token": "r1", "expires_in": 3600, "token_type": "Bearer"}
	if rapid.Bool().Draw(rt, "good-tokens") {
		tok["access_token"], tok["id_token"] = token("k1", testKeys[0], claims{"aud": "client", "sub": "u"}), token("k1", testKeys[0], claims{"aud": "client", "sub": "u"})
	}
	good := map[string]map[string]interface{}{epJwks: {"keys": keys}, epToken: tok, epUserinfo: {"sub": "u"}}
	var d map[string]interface{}
	if err := json.Unmarshal([]byte(tn.discoveryDoc()), &d); err != nil {
		panic(err)
	}
	good[epDiscovery] = d
	for _, ep := range []string{epDiscovery, epJwks, epToken, epUserinfo} {
		rep, kind := Reply{Status: 200, Body: mustText(good[ep])}, "good"
		if !hang && rapid.IntRange(0, 3).Draw(rt, ep+"-works") < map[bool]int{true: 3, false: 2}[ep == epDiscovery] {
			// let the flow get further
		} else {
			rep, kind = genReply18(rt, good[ep], hang)
		}
		p.Replies[ep], p.Kinds[ep] = rep, kind
	}
	p.Token = genToken18(rt, "client")
	p.Odd = genOdd(rt, "odd")
	n := 6
	if hang {
		n = 2
	}
	for i := rapid.IntRange(2, n).Draw(rt, "steps"); i > 0; i-- {
		p.Steps = append(p.Steps, rapid.SampledFrom([]string{"jwt", "jwt", "unknown-kid", "login", "login", "login", "session", "session", "expire", "callback-odd", "logout", "update"}).Draw(rt, "step"))
	}
	return p
}

func (p oddPlan) String() string { return fmt.Sprintf("provider %v, steps %v", p.Kinds, p.Steps) }

// run executes the plan; "" or what went wrong.
func (w *oddWorld) run(p oddPlan, limit time.Duration) (bad string, answers map[string]int) {
	answers = map[string]int{}
	a := w.app
	for ep, rep := range p.Replies {
		rep := rep
		a.tn.serve(ep, func(Rec) Reply { return rep })
	}
	deploy := func() string {
		_, bad := attempt(limit, func() Answer {
			w.s.put(kOidc, a.ns, "app", a.spec)
			w.s.put(kJwt, a.ns, "j", v1.JwtConfigSpec{JwksURL: a.tn.url(epJwks)})
			w.s.put(kPolicy, a.ns, "p", v1.PolicySpec{Target: []v1.TargetElement{{ServiceName: "web", Paths: []v1.PathConfig{
				{Prefix: "/web", Policies: []v1.PathPolicy{{PolicyType: "oidc", Config: "app"}}},
				{Prefix: "/api", Policies: []v1.PathPolicy{{PolicyType: "jwt", Config: "j", Rules: []v1.Rule{{Claim: "role", Match: "NOT", Values: []string{"x"}}, {Claim: "a.a.a", Match: "NOT", Values: []string{"x"}}}}}}}}}})
			return Answer{}
		})
		return bad
	}
	if bad := deploy(); bad != "" {
		return "deploying " + bad, answers
	}
	b := &Browser{}
	send := func(what string, r Req) Answer {
		ans, no := attempt(limit, func() Answer { return w.s.do(r) })
		if no != "" && bad == "" {
			bad = what + ": " + no
		}
		b.set(ans.SetCookie())
		switch {
		case ans.OK():
			answers[what+" ok"]++
		case ans.Err != "":
			answers[what+" error"]++
		default:
			answers[what+" refused"]++
		}
		return ans
	}
	for _, s := range p.Steps {
		r := a.req("/web/x")
		r.Cookies = b.header()
		switch s {
		case "jwt":
			r = a.req("/api/x")
			r.Auth = "Bearer " + p.Token
			send(s, r)
		case "unknown-kid":
			r = a.req("/api/x")
			r.Auth = "Bearer " + token("never", testKeys[0], claims{"sub": "u"})
			send(s, r)
		case "login":
			ans := send(s, r)
			_, q, ok := authRequest(ans)
			if !ok {
				continue
			}
			cb := a.req("/web/x/oidc/callback")
			cb.Cookies, cb.Code, cb.State = b.header(), "code", q.Get("state")
			send("callback", cb)
		case "session":
			send(s, r)
		case "expire":
			setClock(clock().Add(2 * time.Hour))
			send(s, r)
		case "callback-odd":
			r.Path += "/oidc/callback"
			r.Code, r.State, r.Error = p.Odd, p.Odd, ""
			send(s, r)
		case "logout":
			r.Path += "/oidc/logout"
			send(s, r)
		case "update":
			if bad := deploy(); bad != "" {
				return "deploying again " + bad, answers
			}
		}
		if bad != "" {
			return
		}
	}
	return
}

// held counts the connections open to the provider, beyond idle ones, and the goroutines.
func held() (conns, routines int) {
	http.DefaultTransport.(*http.Transport).CloseIdleConnections()
	return int(atomic.LoadInt64(&idpOpen)), runtime.NumGoroutine()
}

func heap() uint64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func TestC18(t *testing.T) {
	ev := newEvidence("C18", "odd requests (any field empty, huge, not text, of another grammar; parts missing; raw bytes), odd provider documents, broken and hanging provider connections, and odd custom resources, each followed by requests to well-behaved applications next to them; non-trivial: the request reaches a policy, the odd answer is really fetched, or the object is handled",
		"provider documents are at most a few megabytes", "waiting at most 30 s counts as an answer while a provider does not respond")
	defer ev.Write(t)

	// --- requests
	l := shared(t)
	lput := func(kind, ns, name string, spec interface{}) { l.c.put(kind, ns, name, spec) }
	by := newBystander(func(r Req) Answer { return l.do(r.msg()) }, lput, l.sync)
	victim := newBystander(func(r Req) Answer { return l.do(r.msg()) }, lput, l.sync)
	for _, y := range []*bystander{by, victim} {
		if bad := y.check(); bad != "" {
			t.Fatalf("before any odd request: %s", bad)
		}
	}
	probe := 0
	request := func(rt *rapid.T) *authnz.HandleAuthnZRequest {
		val := func(label string, near ...string) string {
			if rapid.IntRange(0, 2).Draw(rt, label+"-near") > 0 {
				return rapid.SampledFrom(near).Draw(rt, label)
			}
			return genOdd(rt, label)
		}
		session := victim.app.cookieName() + "=" + victim.b.get(victim.app.cookieName())
		path := val("path", "/web/x", "/web", "/api", "/api/rule/x", "/free", "/web/oidc/callback", "/web/oidc/logout")
		if rapid.Bool().Draw(rt, "more-path") {
			path += genOdd(rt, "path-tail")
		}
		if path == "" {
			path = "/" // what the proxy makes of it
		}
		cookies := val("cookies", "", session, "x=y; "+session, victim.app.cookieName()+"="+strings.Repeat("A", 5000), session+"; "+session)
		auth := val("auth", "", "Bearer "+victim.acc)
		if rapid.Bool().Draw(rt, "token") {
			auth = "Bearer " + genToken18(rt, "bystander")
		}
		props := map[string]*policypb.Value{}
		if rapid.IntRange(0, 3).Draw(rt, "properties") == 0 {
			props[genOdd(rt, "property")] = nil
			props["x"] = &policypb.Value{Value: &policypb.Value_StringValue{StringValue: genOdd(rt, "property-value")}}
		}
		m := &authnz.HandleAuthnZRequest{DedupId: genOdd(rt, "dedup"), Instance: &authnz.InstanceMsg{Name: genOdd(rt, "name"),
			Target: &authnz.TargetMsg{Namespace: val("ns", victim.ns), Service: val("svc", "web"), Method: val("method", "GET", "POST"), Path: path, Properties: props},
			Request: &authnz.RequestMsg{Scheme: val("scheme", "https"), Host: val("host", "shop"), Path: path,
				Headers: &authnz.HeadersMsg{Cookies: cookies, Authorization: auth, Properties: props},
				Params:  &authnz.QueryParamsMsg{Code: val("code", "", "c"), State: val("state", "", "s"), Error: val("error", "", ""), Properties: props}}}}
		if rapid.IntRange(0, 3).Draw(rt, "other-path") == 0 {
			m.Instance.Target.Path = val("target-path", "/web/x", "/api")
		}
		switch rapid.IntRange(0, 24).Draw(rt, "part-missing") {
		case 0:
			m.Instance = nil
		case 1:
			m.Instance.Target = nil
		case 2:
			m.Instance.Request = nil
		case 3:
			m.Instance.Request.Headers = nil
		case 4:
			m.Instance.Request.Params = nil
		case 5:
			m = nil
		}
		return m
	}
	sample := func(m *authnz.HandleAuthnZRequest, a Answer) func() interface{} {
		return func() interface{} {
			s := fmt.Sprintf("%q", m.String())
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			return map[string]interface{}{"request": s, "code": a.Code, "http": a.HTTP, "error": a.Err}
		}
	}
	send := func(rt *rapid.T, m *authnz.HandleAuthnZRequest, from string) {
		text := m.String()
		ans, bad := attempt(20*time.Second, func() Answer { return l.do(m) })
		reached := ans.Auth != "" || ans.HTTP != 0 || ans.Code == 16
		ev.Case(text, reached, sample(m, ans))
		switch {
		case ans.OK():
			ev.Label(from + " let through")
		case ans.Err != "":
			ev.Label(from + " error")
		default:
			ev.Label(fmt.Sprintf("%s refused %d", from, ans.HTTP))
		}
		if bad != "" {
			if len(text) > 2000 {
				text = text[:2000] + "..."
			}
			rt.Fatalf("the request %q: %s", text, bad)
		}
		if probe++; probe%8 == 0 {
			if bad := by.check(); bad != "" {
				rt.Fatalf("after odd requests, %s", bad)
			}
			by.tn.forget()
			victim.tn.forget()
		}
	}
	run(t, ev, "requests", 10000, 200000, func(rt *rapid.T) { send(rt, request(rt), "request") })
	run(t, ev, "bytes", 6000, 150000, func(rt *rapid.T) {
		var b []byte
		if m := request(rt); m != nil {
			if enc, err := m.Marshal(); err == nil {
				b = enc
			}
		}
		for i := rapid.IntRange(0, 4).Draw(rt, "edits"); i > 0 && len(b) > 0; i-- {
			at := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
			switch rapid.IntRange(0, 3).Draw(rt, "edit") {
			case 0:
				b[at] = rapid.Byte().Draw(rt, "byte")
			case 1:
				b = b[:at]
			case 2:
				b = append(b[:at:at], append(rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(rt, "bytes"), b[at:]...)...)
			case 3:
				to := rapid.IntRange(at, len(b)-1).Draw(rt, "to")
				b = append(b[:at:at], b[to:]...)
			}
		}
		m := &authnz.HandleAuthnZRequest{}
		var err error
		if _, bad := attempt(10*time.Second, func() Answer { err = m.Unmarshal(b); return Answer{} }); bad != "" {
			rt.Fatalf("decoding %x %s", b, bad)
		}
		if err != nil {
			ev.Case(string(b), false, nil)
			ev.Label("bytes undecodable")
			return
		}
		send(rt, m, "bytes")
	})
	if bad := by.check(); bad != "" {
		t.Fatalf("after the odd requests, %s", bad)
	}

	// --- providers
	solo1 := newSoloAdapter()
	soloBy := newBystander(solo1.do, solo1.put, solo1.settle)
	if bad := soloBy.check(); bad != "" {
		t.Fatalf("before any odd provider: %s", bad)
	}
	note := func(p oddPlan, w *oddWorld, answers map[string]int) {
		odd := 0
		for ep, k := range p.Kinds {
			ev.Label(ep + " " + k)
			if k != "good" && len(w.app.tn.requests(ep)) > 0 {
				odd++
			}
		}
		for k, n := range answers {
			ev.LabelN(k, n)
		}
		key := ""
		for _, ep := range []string{epDiscovery, epJwks, epToken, epUserinfo} {
			key += p.Replies[ep].Body + p.Kinds[ep]
		}
		ev.Case(key+fmt.Sprint(p.Steps), odd > 0, func() interface{} {
			short := map[string]string{}
			for ep, r := range p.Replies {
				short[ep] = scrubPorts(r.Body)
				if len(short[ep]) > 300 {
					short[ep] = short[ep][:300] + "..."
				}
			}
			return map[string]interface{}{"provider": p.Kinds, "documents": short, "steps": p.Steps, "answers": answers}
		})
	}
	undeploy := func(w *oddWorld) {
		w.s.del(kOidc, w.app.ns, "app")
		w.s.del(kJwt, w.app.ns, "j")
		w.s.del(kPolicy, w.app.ns, "p")
		w.app.close()
	}
	cases := 0
	run(t, ev, "providers", 3000, 80000, func(rt *rapid.T) {
		w := &oddWorld{s: solo1, by: soloBy, app: newSolo(nil, nil)}
		defer undeploy(w)
		p := genOddPlan(rt, w.app.tn, false)
		bad, answers := w.run(p, 40*time.Second)
		setClock(baseTime)
		note(p, w, answers)
		if bad != "" {
			rt.Fatalf("%s: %s", p, stripRandom(scrubPorts(bad)))
		}
		if cases++; cases%10 == 0 {
			if bad := soloBy.check(); bad != "" {
				rt.Fatalf("%s; afterwards, elsewhere, %s", p, bad)
			}
			soloBy.tn.forget()
		}
		if cases%5 == 0 { // the provider comes back to its senses; the configuration is touched
			a := w.app
			a.tn.serve(epDiscovery, func(Rec) Reply { return Reply{Status: 200, Body: a.tn.discoveryDoc()} })
			a.tn.serveKeys(jwk("k1", &testKeys[0].PublicKey))
			a.tn.serve(epToken, a.tokenEndpoint)
			solo1.put(kOidc, a.ns, "app", a.spec)
			solo1.put(kJwt, a.ns, "j", v1.JwtConfigSpec{JwksURL: a.tn.url(epJwks)})
			r := a.req("/api/x")
			r.Auth = "Bearer " + a.accessToken(nil)
			if ans := solo1.do(r); !ans.OK() {
				rt.Fatalf("%s; the provider is well again, but a valid token gets %s", p, scrubPorts(ans.everything()))
			}
			first := solo1.do(a.req("/web/x"))
			_, q, ok := authRequest(first)
			if !ok {
				rt.Fatalf("%s; the provider is well again, but no login starts: %s", p, stripRandom(scrubPorts(first.everything())))
			}
			b := &Browser{}
			b.set(first.SetCookie())
			a.issue("c", grant{access: a.accessToken(nil), id: a.idToken(nil)})
			cb := a.req("/web/x/oidc/callback")
			cb.Cookies, cb.Code, cb.State = b.header(), "c", q.Get("state")
			if ans := solo1.do(cb); !ans.Redirect() {
				rt.Fatalf("%s; the provider is well again, but the login fails: %s", p, stripRandom(scrubPorts(ans.everything())))
			}
		}
	})

	run(t, ev, "endurance", 80, 1500, func(rt *rapid.T) {
		w := &oddWorld{s: solo1, by: soloBy, app: newSolo(nil, nil)}
		defer undeploy(w)
		p := genOddPlan(rt, w.app.tn, false)
		long := false
		for _, r := range p.Replies {
			long = long || len(r.Body) > 50000
		}
		times := rapid.IntRange(40, 120).Draw(rt, "times")
		if long {
			times = 8
		}
		steps := p.Steps
		for i := 1; i < times; i++ {
			p.Steps = append(p.Steps, steps...)
		}
		conns, routines := held()
		bad, answers := w.run(p, 40*time.Second)
		setClock(baseTime)
		p.Steps = append([]string{fmt.Sprintf("%d times", times)}, steps...)
		note(p, w, answers)
		if bad != "" {
			rt.Fatalf("%s: %s", p, stripRandom(scrubPorts(bad)))
		}
		if long {
			return
		}
		for end := time.Now().Add(1500 * time.Millisecond); ; time.Sleep(20 * time.Millisecond) {
			c, r := held()
			if c-conns <= 20 && r-routines <= 30 {
				break
			}
			if time.Now().After(end) {
				rt.Fatalf("%s: the requests are answered, but connections or goroutines (more than 20 or 30) are still held for them", p)
			}
		}
	})
	// what strangers send is not kept
	run(t, ev, "strangers", 12, 60, func(rt *rapid.T) {
		kind := rapid.SampledFrom([]string{"no credentials", "tokens", "cookies", "callbacks", "elsewhere"}).Draw(rt, "kind")
		const many = 12000
		tail := rapid.StringMatching(`[a-z]{3,8}`).Draw(rt, "tail")
		junk := token("k1", testKeys[1], claims{"sub": "u", "exp": clock().Add(time.Hour).Unix()})
		send := func(i int) string {
			r := victim.app.req(fmt.Sprintf("/web/%s-%d", tail, i))
			code := int32(16)
			switch kind {
			case "tokens":
				r.Path = fmt.Sprintf("/api/rule/%s-%d", tail, i)
				r.Auth = fmt.Sprintf("Bearer %s%d", junk, i)
			case "cookies":
				r.Cookies = fmt.Sprintf("%s=%s%d", victim.app.cookieName(), tail, i)
			case "callbacks":
				r.Path += "/oidc/callback"
				r.Code, r.State = fmt.Sprintf("%s-%d", tail, i), fmt.Sprintf("%d", i)
				r.Cookies = fmt.Sprintf("%s=%s%d", victim.app.cookieName(), tail, i)
			case "elsewhere":
				r.Path, r.Svc, code = fmt.Sprintf("/%s-%d", tail, i), fmt.Sprintf("svc-%s-%d", tail, i), 0
			}
			if a := l.do(r.msg()); a.Code != code {
				return fmt.Sprintf("%s %d is answered %s", kind, i, a.everything())
			}
			return ""
		}
		var before, after uint64
		for i := 0; i < many*3; i++ {
			if bad := send(i); bad != "" {
				rt.Fatalf("%s", stripRandom(scrubPorts(bad)))
			}
			if i == many-1 {
				before = heap()
			}
		}
		victim.tn.forget()
		after = heap()
		ev.Case(kind+tail, true, func() interface{} { return map[string]interface{}{"kind": kind, "requests": many * 3} })
		ev.LabelN("strangers "+kind, many*3)
		if after > before+6<<20 {
			rt.Fatalf("of %d requests of strangers (%s), memory is kept: more than 6 MB", many*2, kind)
		}
	})

	run(t, ev, "silent providers", 2, 40, func(rt *rapid.T) {
		const width = 16
		ws, ps := make([]*oddWorld, width), make([]oddPlan, width)
		for i := range ws {
			ws[i] = &oddWorld{s: newSoloAdapter(), app: newSolo(nil, nil)}
			ps[i] = genOddPlan(rt, ws[i].app.tn, true)
			for j, s := range ps[i].Steps { // the clock is shared
				if s == "expire" {
					ps[i].Steps[j] = "session"
				}
			}
		}
		var wg sync.WaitGroup
		bads, answers := make([]string, width), make([]map[string]int, width)
		during := ""
		for i := range ws {
			wg.Add(1)
			go func(i int) { defer wg.Done(); bads[i], answers[i] = ws[i].run(ps[i], 60*time.Second) }(i)
		}
		// meanwhile, others are served
		stop := make(chan struct{})
		go func() { wg.Wait(); close(stop) }()
		for open := true; open; {
			select {
			case <-stop:
				open = false
			case <-time.After(200 * time.Millisecond):
				if during == "" {
					during = soloBy.check()
				}
			}
		}
		soloBy.tn.forget()
		for i := range ws {
			note(ps[i], ws[i], answers[i])
			ws[i].app.close()
		}
		for i := range ws {
			if bads[i] != "" {
				rt.Fatalf("%s: %s", ps[i], stripRandom(scrubPorts(bads[i])))
			}
		}
		if during != "" {
			rt.Fatalf("while providers are silent, elsewhere, %s", during)
		}
	})

	// --- custom resources
	cases = 0
	run(t, ev, "resources", 6000, 100000, func(rt *rapid.T) {
		md := metav1.ObjectMeta{Namespace: newNS(), Name: "odd"}
		urlOf := func(label string) string {
			return rapid.SampledFrom([]string{"", "x", "/", "://", "http://", "http://[::1", "http://%zz/", "ftp://127.0.0.1/x", "file:///etc/passwd", "data:,{}", "http://127.0.0.1:1/x", "http://127.0.0.1:99999/", "HTTP://127.0.0.1:1", "http://\x7f/", "//127.0.0.1:1/", "unix:/x", soloBy.tn.url("nothing"), soloBy.tn.url(epJwks), soloBy.tn.url(epDiscovery), soloBy.tn.url(epDiscovery) + "#f"}).Draw(rt, label)
		}
		kind := rapid.SampledFrom([]string{kPolicy, kPolicy, kPolicy, kJwt, kOidc, "other"}).Draw(rt, "kind")
		var obj interface{}
		var paths []string
		oddity := rapid.SampledFrom([]int{1, 1, 2, 20, 20}).Draw(rt, "oddity") // in 20
		// pick draws a sensible value, or an odd one
		pick := func(label string, good ...string) string {
			if rapid.IntRange(0, 19).Draw(rt, label+"-odd") < oddity {
				return rapid.SampledFrom([]string{"", "", ".", "a..a", "\xff", "any", "JWT", genOdd(rt, label)}).Draw(rt, label)
			}
			return rapid.SampledFrom(good).Draw(rt, label)
		}
		switch kind {
		case kPolicy:
			spec := v1.PolicySpec{}
			for i := rapid.IntRange(0, 2).Draw(rt, "targets"); i > 0; i-- {
				te := v1.TargetElement{ServiceName: pick("service", "web")}
				for j := rapid.IntRange(0, 3).Draw(rt, "paths"); j > 0; j-- {
					pc := v1.PathConfig{Exact: pick("exact", "", "/a", "/x"), Prefix: pick("prefix", "/", "/a", "/a/*", ""), Method: pick("method", "", "GET", "ALL", "POST")}
					paths = append(paths, pc.Exact, pc.Prefix, strings.TrimRight(pc.Prefix, "*")+"/x")
					for k := rapid.SampledFrom([]int{1, 1, 2, 0}).Draw(rt, "policies"); k > 0; k-- {
						pp := v1.PathPolicy{PolicyType: pick("type", "jwt", "oidc"), Config: pick("config", "j", "o"), RedirectUri: pick("redirect", "", "https://shop/x")}
						if oddity < 20 && len(pp.Config) == 1 {
							pp.Config = map[string]string{"jwt": "j", "oidc": "o"}[pp.PolicyType]
						}
						for r := rapid.IntRange(0, 3).Draw(rt, "rules"); r > 0; r-- {
							rule := v1.Rule{Claim: pick("claim", "scope", "scope", "aud", "a", "a.a", "sub", strings.Repeat("a.", 5000)+"a"), Match: pick("match", "", "ALL", "ANY", "NOT"), Source: pick("source", "", "access_token", "id_token")}
							for v := rapid.IntRange(0, 3).Draw(rt, "values"); v > 0; v-- {
								rule.Values = append(rule.Values, pick("value", "read", "write", "u", "x"))
							}
							pp.Rules = append(pp.Rules, rule)
						}
						pc.Policies = append(pc.Policies, pp)
					}
					te.Paths = append(te.Paths, pc)
				}
				spec.Target = append(spec.Target, te)
			}
			obj = &v1.Policy{ObjectMeta: md, Spec: spec}
		case kJwt:
			obj = &v1.JwtConfig{ObjectMeta: md, Spec: v1.JwtConfigSpec{JwksURL: urlOf("jwks")}}
		case kOidc:
			spec := v1.OidcConfigSpec{ClientID: pick("id", "odd"), ClientSecret: pick("secret", "", "s"), AuthMethod: pick("auth", "", "client_secret_basic", "client_secret_post"), DiscoveryURL: urlOf("disc"),
				ClientSecretRef: v1.ClientSecretRef{Name: pick("ref", "", "s"), Key: pick("key", "", "k")}}
			for i := rapid.IntRange(0, 3).Draw(rt, "scopes"); i > 0; i-- {
				spec.Scopes = append(spec.Scopes, pick("scope", "openid", "email"))
			}
			if rapid.Bool().Draw(rt, "works") {
				spec.DiscoveryURL = soloBy.tn.url(epDiscovery)
			}
			obj = &v1.OidcConfig{ObjectMeta: md, Spec: spec}
		default:
			obj = rapid.SampledFrom([]interface{}{nil, "x", 1, &metav1.ObjectMeta{}, cache.DeletedFinalStateUnknown{Key: "a/b"}, v1.Policy{}, &v1.PolicyList{}, policy.CrdKey{Id: "x"}}).Draw(rt, "object")
		}
		text := fmt.Sprintf("%s %.1500q", kind, mustText(obj))
		ev.Case(text, kind != "other", func() interface{} { return text })
		ev.Label("resource " + kind)
		try := func(what string, f func() Answer) {
			if _, bad := attempt(40*time.Second, f); bad != "" {
				rt.Fatalf("%s: %s %s", text, what, bad)
			}
		}
		if kind == kPolicy { // with working configurations
			solo1.put(kJwt, md.Namespace, "j", v1.JwtConfigSpec{JwksURL: soloBy.tn.url(epJwks)})
			solo1.put(kOidc, md.Namespace, "o", v1.OidcConfigSpec{ClientID: "odd", DiscoveryURL: soloBy.tn.url(epDiscovery)})
		}
		try("adding it", func() Answer { solo1.h.HandleAddUpdateEvent(obj); return Answer{} })
		if kind == kJwt || kind == kOidc {
			pp := v1.PathPolicy{PolicyType: map[string]string{kJwt: "jwt", kOidc: "oidc"}[kind], Config: "odd"}
			solo1.put(kPolicy, md.Namespace, "p", onePolicy("web", v1.PathConfig{Prefix: "/"}, pp))
		}
		tok := token("k1", testKeys[0], claims{"sub": "u", "aud": "odd", "scope": "read", "a": claims{"a": []interface{}{"x", 1.5, nil}}})
		for _, p := range append(paths, "/", "/x", "/x/oidc/callback", "/x/oidc/logout") {
			if p == "" {
				continue
			}
			r := Req{NS: md.Namespace, Svc: "web", Method: "GET", Path: p, Scheme: "https", Host: "h", Auth: "Bearer " + tok + " " + tok, Cookies: "oidc-cookie-odd=x", Code: "c", State: "s"}
			if rapid.Bool().Draw(rt, "no-code") {
				r.Code = ""
			}
			r.Auth = rapid.SampledFrom([]string{r.Auth, r.Auth, "Bearer " + tok, "", "Bearer", "Bearer x"}).Draw(rt, "auth")
			try(fmt.Sprintf("then the request %.200q", p), func() Answer { return solo1.do(r) })
		}
		if rapid.IntRange(0, 2).Draw(rt, "again") == 0 {
			try("adding it again", func() Answer { solo1.h.HandleAddUpdateEvent(obj); return Answer{} })
		}
		id := md.Namespace + "/odd"
		var gone interface{} = policy.CrdKey{Id: id, CrdType: map[string]v1.CrdType{kPolicy: v1.POLICY, kJwt: v1.JWTCONFIG, kOidc: v1.OIDCCONFIG}[kind]}
		if rapid.IntRange(0, 5).Draw(rt, "odd-deletion") == 0 {
			odd := rapid.SampledFrom([]interface{}{nil, "x", obj, policy.CrdKey{}, policy.CrdKey{Id: genOdd(rt, "gone"), CrdType: v1.POLICY}, policy.CrdKey{Id: id, CrdType: 99}}).Draw(rt, "deleted")
			try("an odd deletion", func() Answer { solo1.h.HandleDeleteEvent(odd); return Answer{} })
		}
		for i := rapid.IntRange(1, 2).Draw(rt, "deletions"); i > 0; i-- {
			try("deleting it", func() Answer { solo1.h.HandleDeleteEvent(gone); return Answer{} })
		}
		for kind, name := range map[string]string{kJwt: "j", kOidc: "o", kPolicy: "p"} {
			solo1.del(kind, md.Namespace, name)
		}
		for _, p := range paths {
			if p == "" {
				continue
			}
			if ans := solo1.do(Req{NS: md.Namespace, Svc: "web", Method: "GET", Path: p}); ans.Err != "" || !ans.OK() {
				rt.Fatalf("%s: deleted, but %.200q still gets %s", text, p, stripRandom(scrubPorts(ans.everything())))
			}
		}
		if cases++; cases%10 == 0 {
			if bad := soloBy.check(); bad != "" {
				rt.Fatalf("after %s, elsewhere, %s", text, bad)
			}
			soloBy.tn.forget()
		}
	})
}
