package harness

import (
	"encoding/base64"
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	kfake "k8s.io/client-go/kubernetes/fake"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/handler"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	apistrategy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/api"
)

// confTarget is what config objects are applied to and asked.
type confTarget interface {
	put(kind, ns, name string, spec interface{})
	del(kind, ns, name string)
	secret(ns, name string, data map[string]string) // nil: delete
	settle() bool
	do(r Req) Answer
}

// solo is event handler, store, engine and strategies put together without a cluster.
type solo struct {
	kube  *kfake.Clientset
	store storepolicy.PolicyStore
	h     handler.PolicyHandler
	eng   engine.PolicyEngine
	web   *Replica
}

func newSoloAdapter() *solo {
	s := &solo{kube: kfake.NewSimpleClientset(), store: storepolicy.New()}
	s.h = handler.New(s.store, s.kube)
	var err error
	if s.eng, err = engine.New(s.store); err != nil {
		panic(err)
	}
	s.web = newReplica(s.kube)
	return s
}

func (s *solo) put(kind, ns, name string, spec interface{}) {
	md := metav1.ObjectMeta{Namespace: ns, Name: name}
	switch x := spec.(type) {
	case v1.PolicySpec:
		s.h.HandleAddUpdateEvent(&v1.Policy{ObjectMeta: md, Spec: *x.DeepCopy()})
	case v1.JwtConfigSpec:
		s.h.HandleAddUpdateEvent(&v1.JwtConfig{ObjectMeta: md, Spec: x})
	case v1.OidcConfigSpec:
		s.h.HandleAddUpdateEvent(&v1.OidcConfig{ObjectMeta: md, Spec: *x.DeepCopy()})
	default:
		panic(fmt.Sprintf("%T", spec))
	}
}

func (s *solo) del(kind, ns, name string) {
	s.h.HandleDeleteEvent(policy.CrdKey{Id: ns + "/" + name, CrdType: map[string]v1.CrdType{kPolicy: v1.POLICY, kJwt: v1.JWTCONFIG, kOidc: v1.OIDCCONFIG}[kind]})
}

func (s *solo) secret(ns, name string, data map[string]string) {
	_ = s.kube.CoreV1().Secrets(ns).Delete(name, nil)
	if data == nil {
		return
	}
	d := map[string][]byte{}
	for k, v := range data {
		d[k] = []byte(v)
	}
	if _, err := s.kube.CoreV1().Secrets(ns).Create(&corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}, Data: d}); err != nil {
		panic(err)
	}
}

func (s *solo) settle() bool { return true }

func (s *solo) do(r Req) Answer {
	m := r.msg()
	act, err := s.eng.Evaluate(m.Instance.Target)
	if err != nil {
		return answer(nil, err)
	}
	switch act.Type {
	case policy.JWT:
		return answer(apistrategy.New().HandleAuthnZRequest(m, act))
	case policy.OIDC:
		return answer(s.web.s.HandleAuthnZRequest(m, act))
	}
	return Answer{}
}

// liveConf applies configs through the cluster of a running adapter.
type liveConf struct {
	l    *Live
	keys map[[3]string]bool
}

func (c *liveConf) put(kind, ns, name string, spec interface{}) {
	c.keys[[3]string{kind, ns, name}] = true
	c.l.c.put(kind, ns, name, spec)
}
func (c *liveConf) del(kind, ns, name string) { c.l.c.del(kind, ns, name) }
func (c *liveConf) secret(ns, name string, data map[string]string) {
	c.l.c.del(kSecret, ns, name)
	if data == nil {
		return
	}
	d := map[string]interface{}{}
	for k, v := range data {
		d[k] = base64.StdEncoding.EncodeToString([]byte(v))
	}
	c.l.c.mu.Lock()
	defer c.l.c.mu.Unlock()
	c.keys[[3]string{kSecret, ns, name}] = true
	c.l.c.putLocked(kSecret, ns, name, map[string]interface{}{"data": d})
}
func (c *liveConf) settle() bool    { return c.l.sync() }
func (c *liveConf) do(r Req) Answer { return c.l.do(r.msg()) }
func (c *liveConf) close() {
	for k := range c.keys {
		c.l.c.del(k[0], k[1], k[2])
	}
}

// oddRefs are config references that are no names; ns is the policy's namespace.
func oddRefs(nss map[string]string, ns string) (out []string) {
	for _, o := range []string{"ns1", "ns2"} {
		for _, n := range []string{"c1", "c2"} {
			out = append(out, nss[o]+"/"+n, "../"+nss[o]+"/"+n)
			if o != ns {
				out = append(out, nss[o]+"."+n, nss[o]+":"+n, "/"+nss[o]+"/"+n, n+"."+nss[o])
			}
		}
	}
	return append(out, "/c1", "c1/", "C1", " c1", "c1 ", "c", "")
}

// oidcState is what the model knows of a live OidcConfig.
type oidcState struct {
	spec    v1.OidcConfigSpec
	tn      int
	secrets []string // acceptable client secrets
}

// secretForms are what client secrets look like: any text, to be used as it is.
var secretForms = []string{"%s", "%s", "%s", "%s\n", " %s", "%s ", "%s:x", "%s+/=&?%%41", "\"%s\"", "é%s", "dGVzdA==%s", "%s%%20", "\t%s\r\n"}

func TestC04(t *testing.T) {
	ev := newEvidence("C04", "a history of 4-20 creations, updates and deletions of same-named JwtConfigs and OidcConfigs in two namespaces and of the secrets they refer to; requests present tokens of every provider and run login and callback, with config changes in between; model: latest version of the namespace's own config, secret as of that version; non-trivial: the config asked for was changed or deleted before, or a same-named config of another namespace or kind differs",
		"a changed Kubernetes secret takes effect with the next change of the config", "client ids are free of ':' (HTTP Basic)")
	defer ev.Write(t)
	names := []string{"c1", "c2"}

	prop := func(rt *rapid.T, tgt confTarget, nss map[string]string, refs bool, steps int) {
		var tns []*Tenant
		for i := 0; i < 3; i++ {
			tn := newTenant()
			defer tn.close()
			tn.serveKeys(jwk("k1", &testKeys[i].PublicKey))
			tns = append(tns, tn)
		}
		for _, ns := range []string{"ns1", "ns2"} {
			te := v1.TargetElement{ServiceName: "s"}
			for _, typ := range []string{"jwt", "oidc"} {
				for _, n := range names {
					te.Paths = append(te.Paths, v1.PathConfig{Prefix: "/" + typ + "/" + n, Policies: []v1.PathPolicy{{PolicyType: typ, Config: n}}})
				}
			}
			tgt.put(kPolicy, nss[ns], "pol", v1.PolicySpec{Target: []v1.TargetElement{te}})
			// references that name nothing: a config is named by its name alone, in the policy's own namespace
			odd := v1.TargetElement{ServiceName: "odd"}
			for i, ref := range oddRefs(nss, ns) {
				for _, typ := range []string{"jwt", "oidc"} {
					odd.Paths = append(odd.Paths, v1.PathConfig{Prefix: fmt.Sprintf("/%s/%d", typ, i), Policies: []v1.PathPolicy{{PolicyType: typ, Config: ref}}})
				}
			}
			tgt.put(kPolicy, nss[ns], "odd", v1.PolicySpec{Target: []v1.TargetElement{odd}})
		}
		jw, oi := map[string]int{}, map[string]*oidcState{}
		secrets := map[string]map[string]string{}
		var log []string
		if refs && rapid.Bool().Draw(rt, "decoys") { // secrets of the same names in namespaces of no concern
			for _, ns := range []string{"istio-system", "default", "kube-system", "zz-other"} {
				for _, n := range []string{"s1", "s2"} {
					tgt.secret(ns, n, map[string]string{"k1": "decoy-k1-" + ns, "k2": "decoy-k2-" + ns})
					defer tgt.secret(ns, n, nil)
				}
			}
			log = append(log, "secrets s1 and s2 are in other namespaces, too")
		}
		touched := map[string]int{}
		serial := 0
		scrubAll := func(s string) string {
			for i, tn := range tns {
				s = strings.ReplaceAll(s, idpURL()+"/"+tn.id, fmt.Sprintf("https://idp%d", i))
			}
			return stripRandom(s)
		}
		fail := func(format string, args ...interface{}) {
			rt.Helper()
			rt.Fatalf("%s%s", scrubAll(fmt.Sprintf(format, args...)), history(log))
		}
		genOidc := func(key, ns string) (v1.OidcConfigSpec, *oidcState) {
			serial++
			tn := rapid.IntRange(0, 2).Draw(rt, "provider")
			plain := fmt.Sprintf(rapid.SampledFrom(secretForms).Draw(rt, "form"), fmt.Sprintf("plain-%d", serial))
			sp := v1.OidcConfigSpec{
				DiscoveryURL: genDiscoveryURL(rt, tns[tn]),
				ClientID:     rapid.SampledFrom([]string{"id-a", "id-b"}).Draw(rt, "client-id"),
				AuthMethod:   rapid.SampledFrom([]string{"", "client_secret_basic", "client_secret_post", "client_secret_post", "other", "CLIENT_SECRET_POST", "Client_Secret_Post", "post", "client_secret_post "}).Draw(rt, "method"),
				ClientSecret: rapid.SampledFrom([]string{"", plain, plain}).Draw(rt, "plain"),
				Scopes:       rapid.SampledFrom([][]string{nil, {}, {"openid"}, {"openid", fmt.Sprintf("s%d", serial)}}).Draw(rt, "scopes"),
			}
			st := &oidcState{tn: tn, secrets: []string{sp.ClientSecret}}
			if refs && rapid.IntRange(0, 2).Draw(rt, "ref") > 0 {
				sp.ClientSecretRef = v1.ClientSecretRef{Name: rapid.SampledFrom([]string{"s1", "s1", "s2", "none", ""}).Draw(rt, "ref-name"), Key: rapid.SampledFrom([]string{"k1", "k1", "k2", "none", ""}).Draw(rt, "ref-key")}
				if v := secrets[ns+"/"+sp.ClientSecretRef.Name][sp.ClientSecretRef.Key]; v != "" {
					st.secrets = []string{v}
					ev.Label("secret by reference")
				} else {
					ev.Label("reference leads nowhere")
				}
			}
			st.spec = sp
			return sp, st
		}
		putOidc := func(ns, name string) {
			key := ns + "/" + name
			if oi[key] != nil && rapid.IntRange(0, 2).Draw(rt, "delete") == 0 {
				tgt.del(kOidc, nss[ns], name)
				delete(oi, key)
				log = append(log, "delete OidcConfig "+key)
			} else {
				sp, st := genOidc(key, ns)
				tgt.put(kOidc, nss[ns], name, sp)
				oi[key] = st
				log = append(log, fmt.Sprintf("put OidcConfig %s id=%s secret=%q ref=%v method=%q scopes=%q provider=%d", key, sp.ClientID, sp.ClientSecret, sp.ClientSecretRef, sp.AuthMethod, sp.Scopes, st.tn))
			}
			touched["oidc "+key]++
		}
		putJwt := func(ns, name string) {
			key := ns + "/" + name
			if _, ok := jw[key]; ok && rapid.IntRange(0, 2).Draw(rt, "delete") == 0 {
				tgt.del(kJwt, nss[ns], name)
				delete(jw, key)
				log = append(log, "delete JwtConfig "+key)
			} else {
				p := rapid.IntRange(0, 2).Draw(rt, "provider")
				tgt.put(kJwt, nss[ns], name, v1.JwtConfigSpec{JwksURL: tns[p].url(epJwks)})
				jw[key] = p
				log = append(log, fmt.Sprintf("put JwtConfig %s provider=%d", key, p))
			}
			touched["jwt "+key]++
		}
		exchange := func() (recs []Rec, at []int) {
			for i, tn := range tns {
				for _, r := range tn.requests(epToken) {
					recs, at = append(recs, r), append(at, i)
				}
			}
			return
		}
		ask := func() {
			if !tgt.settle() {
				fail("the adapter did not pick up its configuration")
			}
			ns, name := rapid.SampledFrom([]string{"ns1", "ns2"}).Draw(rt, "ask-ns"), rapid.SampledFrom(names).Draw(rt, "ask-name")
			key := ns + "/" + name
			if rapid.IntRange(0, 4).Draw(rt, "ask-odd") == 0 {
				refs := oddRefs(nss, ns)
				i := rapid.IntRange(0, len(refs)-1).Draw(rt, "odd-ref")
				typ := rapid.SampledFrom([]string{"jwt", "oidc"}).Draw(rt, "odd-type")
				r := Req{NS: nss[ns], Svc: "odd", Method: "GET", Path: fmt.Sprintf("/%s/%d", typ, i), Scheme: "https", Host: "h"}
				if typ == "jwt" {
					r.Auth = "Bearer " + token("k1", testKeys[rapid.IntRange(0, 2).Draw(rt, "odd-key")], claims{"sub": "u"})
				}
				if ans := tgt.do(r); ans.Err == "" {
					fail("a %s policy of %s names config %q, which is in no way there, but the request is answered %s", typ, ns, oddRefs(map[string]string{"ns1": "ns1", "ns2": "ns2"}, ns)[i], ans.everything())
				}
				ev.Label("reference outside the namespace")
				return
			}
			if rapid.IntRange(0, 2).Draw(rt, "ask-jwt") == 0 {
				p, there := jw[key]
				for i := range tns {
					r := Req{NS: nss[ns], Svc: "s", Method: "GET", Path: "/jwt/" + name, Auth: "Bearer " + token("k1", testKeys[i], claims{"sub": "u"})}
					ans := tgt.do(r)
					switch {
					case !there && ans.Err == "":
						fail("there is no JwtConfig %s, but the request is answered %s", key, ans.everything())
					case there && ans.OK() != (i == p):
						fail("JwtConfig %s names the keys of provider %d, but a token of provider %d is answered %s", key, p, i, ans.everything())
					}
				}
				ev.Case(mustJSON(log)+"jwt"+key, touched["jwt "+key] > 1, func() interface{} {
					return map[string]interface{}{"history": append([]string(nil), log...), "asked": "jwt " + key}
				})
				ev.Label(fmt.Sprintf("jwt present=%v", there))
				return
			}
			st := oi[key]
			r := Req{NS: nss[ns], Svc: "s", Method: "GET", Path: "/oidc/" + name + "/x", Scheme: "https", Host: "h"}
			ans := tgt.do(r)
			ev.Case(mustJSON(log)+"oidc"+key, touched["oidc "+key] > 1, func() interface{} {
				return map[string]interface{}{"history": append([]string(nil), log...), "asked": "oidc " + key}
			})
			ev.Label(fmt.Sprintf("oidc present=%v", st != nil))
			if st == nil {
				if ans.Err == "" {
					fail("there is no OidcConfig %s, but the request is answered %s", key, ans.everything())
				}
				return
			}
			u, q, ok := authRequest(ans)
			if !ok {
				fail("no login under OidcConfig %s: %s", key, ans.everything())
			}
			wantScope := strings.Join(st.spec.Scopes, " ")
			if len(st.spec.Scopes) == 0 {
				wantScope = "openid profile email"
			}
			if !strings.HasPrefix(u.String(), tns[st.tn].url("authorize")+"?") || q.Get("client_id") != st.spec.ClientID || q.Get("scope") != wantScope {
				fail("login under OidcConfig %s goes to %s", key, u)
			}
			cb := r
			cb.Path += "/oidc/callback"
			cb.Code, cb.State = "code", q.Get("state")
			if c := ans.SetCookie(); c != nil {
				cb.Cookies = c.Name + "=" + c.Value
			}
			oldID := st.spec.ClientID
			mid := rapid.IntRange(0, 3).Draw(rt, "change-meanwhile") == 0
			if mid {
				putOidc(ns, name)
				log[len(log)-1] += " (between login and callback)"
				if !tgt.settle() {
					fail("the adapter did not pick up its configuration")
				}
				ev.Label("changed between login and callback")
				st = oi[key]
			}
			for _, tn := range tns {
				tn.forget()
			}
			ans = tgt.do(cb)
			recs, at := exchange()
			switch {
			case st == nil:
				if ans.Err == "" || len(recs) > 0 {
					fail("OidcConfig %s is gone, but its callback is answered %s (%d token requests)", key, ans.everything(), len(recs))
				}
			case st.spec.ClientID != oldID:
				if len(recs) > 0 {
					fail("OidcConfig %s is another client now, but its callback exchanges the code", key)
				}
			case len(recs) != 1 || at[0] != st.tn:
				fail("callback under OidcConfig %s: %d token requests to %v, want one to provider %d", key, len(recs), at, st.tn)
			default:
				id, sec, basic := recs[0].Basic()
				f := recs[0].Form()
				how := "client_secret_basic"
				if !basic {
					id, sec, how = f.Get("client_id"), f.Get("client_secret"), "client_secret_post"
				}
				want := st.spec.AuthMethod
				if want != "client_secret_post" {
					want = "client_secret_basic"
				}
				if id != st.spec.ClientID || !contains(st.secrets, sec) || how != want {
					fail("code exchange under OidcConfig %s by %s as %q with secret %q, want %s, %q, %q", key, how, id, sec, want, st.spec.ClientID, st.secrets)
				}
			}
		}
		for i := rapid.IntRange(4, steps).Draw(rt, "steps"); i > 0; i-- {
			if long := timePasses(rt, "time-passes", ages); long != "" {
				log = append(log, long)
			}
			ns, name := rapid.SampledFrom([]string{"ns1", "ns1", "ns2"}).Draw(rt, "ns"), rapid.SampledFrom([]string{"c1", "c1", "c2"}).Draw(rt, "name")
			switch rapid.SampledFrom([]string{"oidc", "oidc", "oidc", "jwt", "jwt", "secret", "ask", "ask"}).Draw(rt, "step") {
			case "oidc":
				putOidc(ns, name)
			case "jwt":
				putJwt(ns, name)
			case "secret":
				if !refs {
					continue
				}
				sname := rapid.SampledFrom([]string{"s1", "s1", "s2"}).Draw(rt, "secret-name")
				key := ns + "/" + sname
				if !tgt.settle() { // configs put before must have seen the secret as it was
					fail("the adapter did not pick up its configuration")
				}
				if secrets[key] != nil && rapid.IntRange(0, 2).Draw(rt, "secret-delete") == 0 {
					tgt.secret(nss[ns], sname, nil)
					delete(secrets, key)
					log = append(log, "delete secret "+key)
					continue
				}
				serial++
				data := map[string]string{}
				for _, k := range []string{"k1", "k2"} {
					if v := rapid.SampledFrom([]string{"-", "", "v", "v", "v"}).Draw(rt, "value-"+k); v == "v" {
						data[k] = fmt.Sprintf(rapid.SampledFrom(secretForms).Draw(rt, "form"), fmt.Sprintf("%s-of-%s-%d", k, sname, serial))
					} else if v == "" {
						data[k] = ""
					}
				}
				// other keys that look alike
				for _, k := range []string{"K1", "K2", "k1.bak", "k11", "k", "k-1", "_k1"} {
					if rapid.IntRange(0, 4).Draw(rt, "other-key") == 0 {
						data[k] = fmt.Sprintf("other-%s-%d", k, serial)
					}
				}
				tgt.secret(nss[ns], sname, data)
				secrets[key] = data
				log = append(log, fmt.Sprintf("put secret %s %v", key, data))
			default:
				ask()
			}
		}
		for i := 0; i < 4; i++ {
			ask()
		}
	}

	run(t, ev, "handler", 1200, 90000, func(rt *rapid.T) {
		prop(rt, newSoloAdapter(), map[string]string{"ns1": "ns1", "ns2": "ns2"}, true, 20)
	})
	l := shared(t)
	run(t, ev, "adapter", 300, 18000, func(rt *rapid.T) {
		c := &liveConf{l, map[[3]string]bool{}}
		defer c.close()
		prop(rt, c, map[string]string{"ns1": newNS(), "ns2": newNS()}, false, 12)
	})
	// the adapter's Kubernetes client allows five requests a second: few cases with references
	run(t, ev, "adapter-secrets", 24, 750, func(rt *rapid.T) {
		c := &liveConf{l, map[[3]string]bool{}}
		defer c.close()
		prop(rt, c, map[string]string{"ns1": newNS(), "ns2": newNS()}, true, 12)
	})
}
