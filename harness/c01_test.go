package harness

import (
	"crypto/rsa"
	"fmt"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// provider is an identity provider that can go down.
type provider struct {
	name string
	app  *App // token endpoint, codes and tokens
	key  *rsa.PrivateKey
	down string // "" or how it fails
}

func (p *provider) set(down string) {
	p.down = down
	a := p.app
	if down != "" {
		rep := map[string]Reply{"500": {Status: 500, Body: "oops"}, "reset": {Mode: "reset"}, "html": {Status: 200, Body: "<html>"}, "empty": {Status: 200, Body: "{}"}}[down]
		for _, ep := range []string{epDiscovery, epJwks, epToken, epUserinfo} {
			a.tn.serve(ep, func(Rec) Reply { return rep })
		}
		return
	}
	a.tn.serve(epDiscovery, func(Rec) Reply { return Reply{Status: 200, Body: a.tn.discoveryDoc()} })
	a.tn.serveKeys(jwk(a.kid, &a.key.PublicKey))
	a.tn.serve(epToken, a.tokenEndpoint)
	a.tn.serve(epUserinfo, a.userinfoEndpoint)
}

// confState is a live config object: which provider it names, and whether its keys can be known.
type confState struct {
	p       *provider
	reached bool // the provider was up at some time while the object existed
}

// world is a model of one cluster part: policies, configs, providers, credentials.
type world struct {
	nss   map[string]string // model namespace -> real one
	pols  map[string]v1.PolicySpec
	tags  map[string]v1.PathPolicy
	confs map[string]*confState // "jwt ns1/c1"
	provs []*provider
}

// cred is something a client may present.
type cred struct {
	kind   string // none, bearer, cookie, garbage...
	p      *provider
	admin  bool
	auth   string
	cookie string // value
	ended  bool
	unsure bool // it was presented where it did not pass: it may have ended
}

var adminRule = []v1.Rule{{Claim: "role", Match: "ANY", Values: []string{"admin"}, Source: accessTok}}

// accepts: may this credential pass this policy?
func (w *world) accepts(ns string, pp v1.PathPolicy, c cred) bool {
	conf := w.confs[pp.PolicyType+" "+ns+"/"+pp.Config]
	if conf == nil || !conf.reached || c.p != conf.p {
		return false
	}
	if len(pp.Rules) > 0 && !c.admin {
		return false
	}
	switch pp.PolicyType {
	case "jwt":
		return c.auth != "" && c.kind == "bearer"
	case "oidc":
		return c.kind == "cookie" && !c.ended
	}
	return false
}

func TestC01(t *testing.T) {
	ev := newEvidence("C01", "a history of 4-14 creations, updates and deletions of Policies, JwtConfigs and OidcConfigs and provider outages, with requests near every endpoint ever used, carrying no, valid, foreign, garbage or ended credentials or lacking message parts; model: who may pass what; non-trivial: the request is covered and carries a credential that is valid somewhere, or its config is missing or its provider has never been reached",
		"client ids are unique per config", "endpoints claimed by several live policies may be decided by any of them")
	defer ev.Write(t)
	l := shared(t)

	run(t, ev, "world", 1400, 60000, func(rt *rapid.T) {
		w := &world{nss: map[string]string{"ns1": newNS(), "ns2": newNS()}, pols: map[string]v1.PolicySpec{}, tags: map[string]v1.PathPolicy{}, confs: map[string]*confState{}}
		for i := 0; i < 3; i++ {
			i := i
			a := newSolo(l, func(a *App) {
				a.key, a.kid = testKeys[i], rapid.SampledFrom([]string{"k1", "k1", "k" + fmt.Sprint(i)}).Draw(rt, "kid")
				a.spec.ClientID = fmt.Sprintf("client%d", i)
			})
			defer a.close()
			w.provs = append(w.provs, &provider{name: fmt.Sprintf("provider%d", i), app: a, key: a.key})
		}
		type kname struct{ kind, ns, name string }
		var put []kname
		defer func() {
			for _, k := range put {
				l.c.del(k.kind, k.ns, k.name)
			}
		}()
		var log []string
		var ever []Entry
		var creds []cred
		outage, deleted := false, false
		cfgNames := []string{"c1", "c2"}
		svcs := genServices(rt)
		// credentials: a bearer token of each provider, and garbage
		for _, p := range w.provs {
			a := p.app
			creds = append(creds,
				cred{kind: "bearer", p: p, auth: "Bearer " + a.accessToken(nil)},
				cred{kind: "bearer", p: p, admin: true, auth: "Bearer " + a.accessToken(claims{"role": "admin"})})
		}
		synced := true
		sync := func() {
			if !synced && !l.sync() {
				rt.Fatalf("the adapter did not pick up its configuration after%s", history(log))
			}
			synced = true
			for _, c := range w.confs {
				if c.p.down == "" {
					c.reached = true
				}
			}
		}
		entries := func() []Entry {
			keys := []string{}
			for k := range w.pols {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			var out []Entry
			for _, k := range keys {
				out = append(out, entriesOf(strings.SplitN(k, "/", 2)[0], w.pols[k])...)
			}
			return out
		}
		genPolicy := func() v1.PathPolicy {
			pp := v1.PathPolicy{PolicyType: rapid.SampledFrom([]string{"jwt", "jwt", "jwt", "oidc", "oidc", "oidc", "saml", ""}).Draw(rt, "type"), Config: rapid.SampledFrom(append(cfgNames, "c1", "nowhere")).Draw(rt, "config"),
				RedirectUri: fmt.Sprintf("https://tag.example/%d", len(w.tags))}
			if rapid.IntRange(0, 3).Draw(rt, "rules") == 0 {
				pp.Rules = adminRule
			}
			w.tags[pp.RedirectUri] = pp
			return pp
		}
		setConf := func(typ, ns, name string, p *provider) {
			key := typ + " " + ns + "/" + name
			if typ == "jwt" {
				l.c.put(kJwt, w.nss[ns], name, v1.JwtConfigSpec{JwksURL: p.app.tn.url(epJwks)})
			} else {
				l.c.put(kOidc, w.nss[ns], name, p.app.spec)
			}
			put = append(put, kname{map[string]string{"jwt": kJwt, "oidc": kOidc}[typ], w.nss[ns], name})
			w.confs[key] = &confState{p: p, reached: p.down == ""}
			log = append(log, "put config "+key+" of "+p.name)
			synced = false
		}
		putConf := func() {
			typ := rapid.SampledFrom([]string{"jwt", "oidc"}).Draw(rt, "conf-type")
			ns, name := rapid.SampledFrom([]string{"ns1", "ns1", "ns2"}).Draw(rt, "conf-ns"), rapid.SampledFrom(cfgNames).Draw(rt, "conf-name")
			p := w.provs[rapid.IntRange(0, 2).Draw(rt, "conf-provider")]
			key := typ + " " + ns + "/" + name
			if old := w.confs[key]; old != nil && rapid.IntRange(0, 1).Draw(rt, "conf-delete") == 0 {
				l.c.del(map[string]string{"jwt": kJwt, "oidc": kOidc}[typ], w.nss[ns], name)
				delete(w.confs, key)
				deleted = true
				log = append(log, "delete config "+key)
			} else {
				setConf(typ, ns, name, p)
			}
			synced = false
		}
		putPol := func() {
			ns, name := rapid.SampledFrom([]string{"ns1", "ns1", "ns2"}).Draw(rt, "pol-ns"), rapid.SampledFrom([]string{"p1", "p2"}).Draw(rt, "pol-name")
			key := ns + "/" + name
			synced = false
			if _, ok := w.pols[key]; ok && rapid.IntRange(0, 2).Draw(rt, "pol-delete") == 0 {
				l.c.del(kPolicy, w.nss[ns], name)
				delete(w.pols, key)
				log = append(log, "delete policy "+key)
				return
			}
			spec := v1.PolicySpec{}
			te := v1.TargetElement{ServiceName: rapid.SampledFrom(append([]string{svcs[0]}, svcs...)).Draw(rt, "svc")}
			var desc []string
			for n := rapid.IntRange(1, 3).Draw(rt, "paths"); n > 0; n-- {
				pc := genPathConfig(rt)
				pp := genPolicy()
				pc.Policies = []v1.PathPolicy{pp}
				te.Paths = append(te.Paths, pc)
				desc = append(desc, fmt.Sprintf("exact=%q prefix=%q method=%q %s %s rules=%v", pc.Exact, pc.Prefix, pc.Method, pp.PolicyType, pp.Config, len(pp.Rules) > 0))
			}
			spec.Target = []v1.TargetElement{te}
			l.c.put(kPolicy, w.nss[ns], name, spec)
			put = append(put, kname{kPolicy, w.nss[ns], name})
			w.pols[key] = spec
			ever = append(ever, entriesOf(ns, spec)...)
			log = append(log, "put policy "+key+" "+te.ServiceName+" "+strings.Join(desc, "; "))
		}
		// login makes a session at some unambiguous OIDC endpoint, if there is one
		login := func() {
			sync()
			for _, e := range entries() {
				if e.Empty {
					continue
				}
				p := strings.TrimSuffix(strings.TrimSuffix(e.Exact+e.Prefix, "*"), "/")
				m := entryMethod(e.Method)
				if m == "ALL" {
					m = "GET"
				}
				want := resolve(entries(), e.NS, e.Svc, p, m)
				if len(want) != 1 {
					continue
				}
				pp := w.tags[want[0]]
				conf := w.confs["oidc "+e.NS+"/"+pp.Config]
				if pp.PolicyType != "oidc" || conf == nil || conf.p.down != "" || p == "" {
					continue
				}
				a := conf.p.app
				admin := len(pp.Rules) > 0 || rapid.Bool().Draw(rt, "admin")
				ex := claims{"n": len(creds)}
				if admin {
					ex["role"] = "admin"
				}
				b := &Browser{}
				r := Req{NS: w.nss[e.NS], Svc: e.Svc, Method: m, Path: p, Scheme: "https", Host: "h"}
				first := b.send(a, r)
				_, q, ok := authRequest(first)
				if !ok {
					rt.Fatalf("no login at %s %s%s: %s", m, e.Svc, p, history(log))
				}
				code := fmt.Sprintf("code%d", len(creds))
				a.issue(code, grant{access: a.accessToken(ex), id: a.idToken(ex)})
				cb := r
				cb.Path += "/oidc/callback"
				cb.Code, cb.State = code, q.Get("state")
				ans := b.send(a, cb)
				if ans.OK() {
					rt.Fatalf("callback let through%s", history(log))
				}
				c := ans.SetCookie()
				if !ans.Redirect() || c == nil {
					return // not what is decided here
				}
				creds = append(creds, cred{kind: "cookie", p: conf.p, admin: admin, cookie: c.Value})
				log = append(log, fmt.Sprintf("login at %s%s with %s admin=%v", e.Svc, p, conf.p.name, admin))
				if rapid.IntRange(0, 3).Draw(rt, "logout") == 0 {
					lo := r
					lo.Path += "/oidc/logout"
					lo.Cookies = a.cookieName() + "=" + c.Value
					a.send(lo)
					creds[len(creds)-1].ended = true
					log = append(log, "and logout")
				}
				return
			}
		}
		ask := func() {
			sync()
			now := entries()
			ns, svc := rapid.SampledFrom([]string{"ns1", "ns1", "ns2"}).Draw(rt, "req-ns"), rapid.SampledFrom(append([]string{svcs[0], "s3"}, svcs...)).Draw(rt, "req-svc")
			near := ever
			if len(now) > 0 && rapid.IntRange(0, 2).Draw(rt, "now") > 0 {
				near = now
				if e := now[rapid.IntRange(0, len(now)-1).Draw(rt, "aim")]; true {
					ns, svc = e.NS, e.Svc
				}
			}
			r := Req{NS: w.nss[ns], Svc: svc, Method: genMethod(rt), Path: genRequestPath(rt, near, true), Scheme: "https", Host: "h"}
			if len(now) > 0 && rapid.IntRange(0, 3).Draw(rt, "on-target") > 0 {
				e := now[rapid.IntRange(0, len(now)-1).Draw(rt, "target")]
				r.NS, r.Svc, ns, svc = w.nss[e.NS], e.Svc, e.NS, e.Svc
				r.Path = e.Exact
				if r.Path == "" {
					r.Path = strings.TrimSuffix(strings.TrimSuffix(e.Prefix, "*"), "/") + rapid.SampledFrom([]string{"", "/x", "/a/b", "/x/"}).Draw(rt, "below")
				}
				if r.Path == "" {
					r.Path = "/"
				}
				if m := entryMethod(e.Method); m != "ALL" {
					r.Method = m
				}
			}
			want := resolve(now, ns, svc, strings.TrimRight(r.Path, "/"), r.Method)
			var cs []cred
			mine := func(c cred) bool { // fits the deciding policy's provider
				for _, tag := range want {
					if cf := w.confs[w.tags[tag].PolicyType+" "+ns+"/"+w.tags[tag].Config]; cf != nil && cf.p == c.p {
						return true
					}
				}
				return false
			}
			for n := rapid.SampledFrom([]int{1, 1, 1, 2, 0}).Draw(rt, "creds"); n > 0; n-- {
				c := creds[rapid.IntRange(0, len(creds)-1).Draw(rt, "cred")]
				if !mine(c) && rapid.IntRange(0, 3).Draw(rt, "again") > 0 {
					for _, x := range creds {
						if mine(x) && rapid.IntRange(0, 2).Draw(rt, "this") > 0 {
							c = x
						}
					}
				}
				cs = append(cs, c)
			}
			var auths []cred
			var what []string
			for _, c := range cs {
				if c.auth != "" {
					auths = append(auths, c)
					r.Auth = c.auth
				} else {
					// presented in every client's cookie
					for i := range w.provs {
						r.Cookies += fmt.Sprintf("oidc-cookie-client%d=%s; ", i, c.cookie)
					}
				}
				what = append(what, fmt.Sprintf("%s of %s admin=%v ended=%v", c.kind, c.p.name, c.admin, c.ended))
			}
			if len(auths) == 2 { // only the last is presented
				auths = auths[1:]
			}
			if r.Auth == "" && rapid.IntRange(0, 3).Draw(rt, "garbage") == 0 {
				r.Auth = rapid.SampledFrom([]string{"Bearer x", "Bearer", "Basic YTpi", "Bearer a.b.c", "Bearer  ", "bearer null"}).Draw(rt, "garbage-auth")
				what = append(what, r.Auth)
			}
			msg := r.msg()
			lack := rapid.SampledFrom([]string{"", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "target", "request", "headers", "params", "instance", "all"}).Draw(rt, "lack")
			switch lack {
			case "target":
				msg.Instance.Target = nil
			case "request":
				msg.Instance.Request = nil
			case "headers":
				msg.Instance.Request.Headers = nil
			case "params":
				msg.Instance.Request.Params = nil
			case "instance":
				msg.Instance = nil
			case "all":
				msg = &authnz.HandleAuthnZRequest{}
			}
			ctx, call, ended := circumstances(rt)
			ans := l.call(ctx, msg)
			may, must := false, len(want) == 1 && lack == "" && !ended && (len(cs) != 1 || !cs[0].unsure)
			noKeys, missing := false, false
			for _, tag := range want {
				pp := w.tags[tag]
				conf := w.confs[pp.PolicyType+" "+ns+"/"+pp.Config]
				missing = missing || conf == nil
				noKeys = noKeys || conf != nil && !conf.reached
				for _, c := range cs {
					if c.auth != "" && (len(auths) == 0 || c.auth != auths[0].auth) {
						continue
					}
					may = may || w.accepts(ns, pp, c)
				}
			}
			desc := fmt.Sprintf("request %s %s/%s %s lacking %q with %s", r.Method, ns, svc, r.Path, lack, strings.Join(what, " and "))
			if call != "" {
				desc += ", call " + call
				ev.Label("call " + strings.Fields(call)[0])
			}
			ev.Case(mustJSON(log)+desc, want != nil && (len(cs) > 0 || missing || noKeys), func() interface{} {
				return map[string]interface{}{"history": append([]string(nil), log...), "request": desc, "decided_by": want, "may_pass": may}
			})
			class := "uncovered"
			switch {
			case lack != "":
				class = "lacking " + lack
			case want != nil && missing:
				class = "config missing"
			case want != nil && noKeys:
				class = "provider never reached"
			case want != nil && may:
				class = "covered, valid"
			case want != nil:
				class = "covered, not valid"
			}
			ev.Label(class)
			if outage {
				ev.Label("after an outage")
			}
			if deleted {
				ev.Label("after a config deletion")
			}
			dump := func() string {
				out := scrubTenants(w, ans.everything())
				return desc + "\nanswer " + out + history(log)
			}
			switch {
			case lack != "" && (want != nil || lack != "headers" && lack != "params") && ans.OK():
				rt.Fatalf("let through a message lacking %q: %s", lack, dump())
			case lack == "" && want == nil && !ans.OK() && !ended:
				rt.Fatalf("not covered by any policy, but not let through: %s", dump())
			case lack == "" && want != nil && ans.OK() && !may:
				rt.Fatalf("let through without valid credentials: %s", dump())
			case ans.Nil:
				rt.Fatalf("no answer: %s", dump())
			case must && may && !ans.OK() && len(cs) == 1 && !strings.HasSuffix(strings.TrimRight(r.Path, "/"), "/oidc/logout") && !strings.HasSuffix(strings.TrimRight(r.Path, "/"), "/oidc/callback") && !outage:
				rt.Fatalf("valid credentials refused: %s", dump())
			}
			// a logout may end the session it presents: C11 says when
			// and a policy whose rules it does not meet ends it
			if !ans.OK() {
				for i := range creds {
					for _, c := range cs {
						if c.cookie != "" && creds[i].cookie == c.cookie {
							creds[i].unsure = true
						}
					}
				}
			}
		}
		if rapid.IntRange(0, 4).Draw(rt, "down-first") == 0 { // down before any config exists
			w.provs[0].set("500")
			outage = true
			log = append(log, "provider0 is down")
		}
		for _, typ := range []string{"jwt", "oidc"} {
			for _, ns := range []string{"ns1", "ns2"} {
				for _, name := range cfgNames {
					if rapid.IntRange(0, 3).Draw(rt, "there") > 0 {
						setConf(typ, ns, name, w.provs[rapid.IntRange(0, 2).Draw(rt, "its-provider")])
					}
				}
			}
		}
		putPol()
		putPol()
		for i := rapid.IntRange(4, 14).Draw(rt, "steps"); i > 0; i-- {
			if long := timePasses(rt, "time-passes", ages); long != "" {
				log = append(log, long)
			}
			switch rapid.SampledFrom([]string{"ask", "ask", "ask", "ask", "ask", "conf", "conf", "policy", "policy", "login", "login", "outage"}).Draw(rt, "step") {
			case "conf":
				putConf()
			case "policy":
				putPol()
			case "login":
				login()
			case "outage":
				sync()
				p := w.provs[rapid.IntRange(0, 2).Draw(rt, "outage-of")]
				if p.down == "" {
					p.set(rapid.SampledFrom([]string{"500", "reset", "html", "empty"}).Draw(rt, "how"))
					outage = true
					log = append(log, p.name+" goes down: "+p.down)
				} else {
					p.set("")
					log = append(log, p.name+" is up again")
				}
			default:
				ask()
			}
		}
		for i := 0; i < 4; i++ {
			ask()
		}
	})
}

func scrubTenants(w *world, s string) string {
	for _, p := range w.provs {
		s = scrub(p.app, s)
	}
	return s
}
