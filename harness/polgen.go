package harness

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/handler"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/tests/fake"
)

// ------------------------------------------------------------------
// Generators for policies and requests over a small, collision-rich alphabet.

var (
	genSegs    = []string{"a", "b", "ab", "A", "a.b", "oidc", "logout", "callback"}
	genMethods = []string{"", "ALL", "GET", "PUT", "POST", "DELETE", "PATCH"}
	reqMethods = []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"}
)

// genMethod makes the method of a request.
func genMethod(t *rapid.T) string {
	m := rapid.SampledFrom(reqMethods).Draw(t, "req-method")
	if !rarely(t, "odd-method") {
		return m
	}
	if o := rapid.SampledFrom([]string{"TRACE", "CONNECT", "get", "Post", "", "ALL", "NONE", "PROPFIND", "GET ", "word"}).Draw(t, "odd-method"); o != "word" {
		return o
	}
	return word(t, "method")
}

// genServices draws the names of two services, similar ones at times.
func genServices(t *rapid.T) []string {
	return rapid.SampledFrom([][]string{{"s", "s2"}, {"s", "s2"}, {"s", "s2"}, {"a", "a.b"}, {"a.b", "a.c"}, {"web", "web-v2"}, {"reviews-v1", "reviews-v2"}, {"s", "S"},
		{"svc", "svc.ns1.svc.cluster.local"}, {"svc", "svc.ns1"}, {"ns1", "s"}, {"product", "productpage"}, {"a-b", "a"}, {"s-canary", "s"}, {"istio-system", "default"}}).Draw(t, "services")
}

func pathOf(segs []string) string { return "/" + strings.Join(segs, "/") }

func genPathSegs(t *rapid.T, label string, max int) []string {
	n := rapid.IntRange(0, max).Draw(t, label+"-depth")
	if max > 2 && rapid.IntRange(0, 24).Draw(t, label+"-deep") == 0 {
		n = rapid.SampledFrom([]int{6, 8, 9, 16, 17, 33}).Draw(t, label+"-depth")
	}
	out := make([]string, n)
	for i := range out {
		// favour the first segments, so that paths overlap
		out[i] = genSegs[rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7}).Draw(t, label+"-seg")]
		out[i] = spiced(t, label+"-seg", out[i], isSegment)
	}
	return out
}

// genPathConfig makes one path entry (without policies).
func genPathConfig(t *rapid.T) v1.PathConfig {
	segs := genPathSegs(t, "path", 4)
	p := v1.PathConfig{Method: rapid.SampledFrom(genMethods).Draw(t, "method")}
	exact := pathOf(segs)
	if len(segs) > 0 && rapid.IntRange(0, 4).Draw(t, "exact-slash") == 0 {
		exact += "/"
	}
	prefix := pathOf(segs)
	switch rapid.IntRange(0, 2).Draw(t, "prefix-form") {
	case 1:
		if len(segs) > 0 {
			prefix += "/"
		}
	case 2:
		prefix = strings.TrimSuffix(prefix, "/") + "/*"
	}
	switch rapid.IntRange(0, 9).Draw(t, "kind") {
	case 0:
		// neither: the whole service
	case 1:
		p.Exact, p.Prefix = exact, prefix
	case 2, 3, 4, 5:
		p.Exact = exact
	default:
		p.Prefix = prefix
	}
	return p
}

// entriesOf lists the endpoints a policy protects.
func entriesOf(ns string, spec v1.PolicySpec) []Entry {
	var out []Entry
	for _, te := range spec.Target {
		for _, p := range te.Paths {
			e := Entry{NS: ns, Svc: te.ServiceName, Method: p.Method, Empty: len(p.Policies) == 0}
			for _, pp := range p.Policies {
				e.Tags = append(e.Tags, pp.RedirectUri)
			}
			if p.Exact != "" {
				x := e
				x.Exact = p.Exact
				out = append(out, x)
			}
			if p.Prefix != "" {
				x := e
				x.Prefix = p.Prefix
				out = append(out, x)
			}
			if p.Exact == "" && p.Prefix == "" {
				e.Prefix = "/"
				out = append(out, e)
			}
		}
	}
	return out
}

// genRequestPath makes a request path near the given entries.
func genRequestPath(t *rapid.T, live []Entry, slash bool) string {
	var segs []string
	if len(live) > 0 && rapid.IntRange(0, 4).Draw(t, "near") > 0 {
		e := live[rapid.IntRange(0, len(live)-1).Draw(t, "near-entry")]
		p := e.Exact
		if p == "" {
			p = strings.TrimSuffix(e.Prefix, "*")
		}
		segs = append(segs, segments(p)...)
		switch rapid.IntRange(0, 5).Draw(t, "mutation") {
		case 0:
			segs = append(segs, spiced(t, "extra", rapid.SampledFrom(genSegs).Draw(t, "extra"), isSegment))
		case 1:
			segs = append(segs, genPathSegs(t, "tail", 3)...)
		case 2:
			if len(segs) > 0 {
				segs = segs[:len(segs)-1]
			}
		case 3: // a sibling sharing characters, not segments
			if len(segs) > 0 {
				segs[len(segs)-1] += rapid.SampledFrom([]string{"b", "x", ".b", "*", ";", ";b", ",", ":", "%20"}).Draw(t, "suffix")
			}
		}
	} else {
		segs = genPathSegs(t, "req", 5)
	}
	p := pathOf(segs)
	switch rapid.IntRange(0, 11).Draw(t, "oidc-suffix") {
	case 3: // not quite the endpoints
		p = strings.TrimSuffix(p, "/") + rapid.SampledFrom([]string{"/oidc/logouts", "/oidc/logout/a", "/oidc/callback/a", "/oidc/callbacks", "/Oidc/logout", "/oidc/Callback", "xoidc/logout", "/oidc", "/oidc.callback", "/oidc/callback/oidc", "/logout", "/oidc/x/logout"}).Draw(t, "oidc-like")

	case 0:
		p = strings.TrimSuffix(p, "/") + "/oidc/callback"
	case 1:
		p = strings.TrimSuffix(p, "/") + "/oidc/logout"
	case 2:
		if rapid.IntRange(0, 3).Draw(t, "double") == 0 {
			p = strings.TrimSuffix(p, "/") + "/oidc/logout/a/oidc/logout"
		}
	}
	if slash && p != "/" && rapid.IntRange(0, 3).Draw(t, "slash") == 0 {
		p += rapid.SampledFrom([]string{"/", "/", "//"}).Draw(t, "slashes")
	}
	return p
}

// ------------------------------------------------------------------
// The decision part of the adapter alone: store, event handler and engine.

type decider struct {
	store storepolicy.PolicyStore
	h     handler.PolicyHandler
	eng   engine.PolicyEngine
}

func newDecider(namespaces, configs []string) *decider {
	d := &decider{store: storepolicy.New()}
	d.h = handler.New(d.store, nil)
	var err error
	if d.eng, err = engine.New(d.store); err != nil {
		panic(err)
	}
	for _, ns := range namespaces {
		for _, c := range configs {
			d.store.AddKeySet(ns+"/"+c, &fake.KeySet{})
			d.store.AddClient(ns+"/"+c, client.New(v1.OidcConfigSpec{ClientName: ns + "/" + c, ClientID: "id-" + c}, nil))
		}
	}
	return d
}

func (d *decider) put(ns, name string, spec v1.PolicySpec) {
	d.h.HandleAddUpdateEvent(&v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}, Spec: *spec.DeepCopy()})
}

func (d *decider) del(ns, name string) {
	d.h.HandleDeleteEvent(policy.CrdKey{Id: ns + "/" + name, CrdType: v1.POLICY})
}

// ask names the tag of the deciding policy; "" = unprotected.
func (d *decider) ask(ns, svc, path, method string) (string, error) {
	a, err := d.eng.Evaluate(&authnz.TargetMsg{Namespace: ns, Service: svc, Path: path, Method: method})
	if err != nil {
		return "", err
	}
	if a.Type == policy.NONE {
		return "", nil
	}
	return a.RedirectUri, nil
}

// tagged makes the policy list of one entry: its tag travels in redirectUri, in
// the scope rule (visible in a JWT challenge) and in the config name.
func tagged(tag string, oidc bool) []v1.PathPolicy {
	if oidc {
		return []v1.PathPolicy{{PolicyType: "oidc", Config: "o", RedirectUri: tag}}
	}
	return []v1.PathPolicy{{PolicyType: "jwt", Config: "j", RedirectUri: tag, Rules: []v1.Rule{{Claim: "scope", Values: []string{tag}, Source: accessTok}}}}
}

func describe(spec v1.PolicySpec) string {
	var b strings.Builder
	for _, te := range spec.Target {
		fmt.Fprintf(&b, "%s[", te.ServiceName)
		for _, p := range te.Paths {
			tag := "-"
			if len(p.Policies) > 0 {
				tag = p.Policies[0].PolicyType + ":" + p.Policies[0].RedirectUri
			}
			fmt.Fprintf(&b, "(exact=%q prefix=%q method=%q %s)", p.Exact, p.Prefix, p.Method, tag)
		}
		b.WriteString("]")
	}
	return b.String()
}
