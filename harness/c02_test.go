package harness

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"pgregory.net/rapid"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

// genPolicies makes a set of live policies with distinct tags; distinct endpoints
// unless overlap is allowed.
func genPolicies(t *rapid.T, nss, svcs []string, max int, oidcOK bool) (names []string, specs []v1.PolicySpec) {
	n := rapid.IntRange(1, max).Draw(t, "policies")
	seen := map[string]bool{}
	tag := 0
	for i := 0; i < n; i++ {
		ns := rapid.SampledFrom(nss).Draw(t, "ns")
		spec := v1.PolicySpec{}
		for j := rapid.IntRange(1, 2).Draw(t, "targets"); j > 0; j-- {
			te := v1.TargetElement{ServiceName: rapid.SampledFrom(svcs).Draw(t, "svc")}
			for k := rapid.IntRange(1, 3).Draw(t, "paths") + many(t, "more-paths"); k > 0; k-- {
				p := genPathConfig(t)
				tag++
				p.Policies = tagged(fmt.Sprintf("tag%d", tag), oidcOK && rapid.IntRange(0, 3).Draw(t, "oidc") == 0)
				// keep endpoints distinct
				clash := false
				es := entriesOf(ns, v1.PolicySpec{Target: []v1.TargetElement{{ServiceName: te.ServiceName, Paths: []v1.PathConfig{p}}}})
				for _, e := range es {
					if seen[endpointKey(e)] {
						clash = true
					}
				}
				if clash {
					continue
				}
				for _, e := range es {
					seen[endpointKey(e)] = true
				}
				te.Paths = append(te.Paths, p)
			}
			spec.Target = append(spec.Target, te)
		}
		names = append(names, ns)
		specs = append(specs, spec)
	}
	return
}

func endpointKey(e Entry) string {
	if e.Exact != "" {
		return e.NS + "|" + e.Svc + "|=" + pathOf(segments(e.Exact)) + "|" + entryMethod(e.Method)
	}
	return e.NS + "|" + e.Svc + "|^" + pathOf(segments(strings.TrimSuffix(e.Prefix, "*"))) + "|" + entryMethod(e.Method)
}

func TestC02(t *testing.T) {
	ev := newEvidence("C02", "a set of policies with distinct endpoints over a small path alphabet and a request near them; non-trivial: at least two live entries of the request's namespace and service cover its path or the answer is 'unprotected' although some entry shares its first segment",
		"request paths start with '/', have no empty segments except trailing ones; entry paths have no '*' other than a final '/*'")
	defer ev.Write(t)
	nss, svcs := []string{"ns1", "ns2"}, []string{"s", "s2"}

	check := func(rt *rapid.T, live []Entry, ns, svc, path, method, got string, names string) {
		want := resolve(live, ns, svc, strings.TrimRight(path, "/"), method)
		cover := 0
		near := 0
		p := segments(stripOIDC(strings.TrimRight(path, "/")))
		for _, e := range live {
			if e.NS != ns || e.Svc != svc {
				continue
			}
			s := segments(strings.TrimSuffix(e.Exact+e.Prefix, "*"))
			if hasPrefixPath(p, s) && (e.Exact == "" || len(p) == len(s)) {
				cover++
			}
			if len(s) > 0 && len(p) > 0 && s[0] == p[0] {
				near++
			}
		}
		ev.Case(fmt.Sprint(names, ns, svc, path, method), cover >= 2 || (want == nil && near > 0), func() interface{} {
			return map[string]interface{}{"policies": names, "request": fmt.Sprintf("%s %s/%s %s", method, ns, svc, path), "decided_by": want}
		})
		ev.Label(fmt.Sprintf("covering-entries=%d", min(cover, 4)))
		if want == nil {
			ev.Label("unprotected")
			if got != "" {
				rt.Fatalf("policies %s\nrequest %s %s/%s %s: no policy covers it, but it is decided by %q", names, method, ns, svc, path, got)
			}
			return
		}
		if !contains(want, got) {
			rt.Fatalf("policies %s\nrequest %s %s/%s %s: decided by %q, want one of %q", names, method, ns, svc, path, got, want)
		}
	}
	draw := func(rt *rapid.T) (names []string, specs []v1.PolicySpec, live []Entry, text string) {
		svcs = genServices(rt)
		names, specs = genPolicies(rt, nss, svcs, 4, true)
		for i := range specs {
			live = append(live, entriesOf(names[i], specs[i])...)
			text += fmt.Sprintf(" %s:%s", names[i], describe(specs[i]))
		}
		return
	}

	run(t, ev, "engine", 24000, 1200000, func(rt *rapid.T) {
		names, specs, live, text := draw(rt)
		d := newDecider(nss, []string{"j", "o"})
		for i := range specs {
			d.put(names[i], fmt.Sprintf("p%d", i), specs[i])
		}
		for q := 0; q < 8; q++ {
			ns, svc := rapid.SampledFrom(nss).Draw(rt, "req-ns"), rapid.SampledFrom(svcs).Draw(rt, "req-svc")
			path, method := genRequestPath(rt, live, false), genMethod(rt)
			got, err := d.ask(ns, svc, path, method)
			if err != nil {
				rt.Fatalf("policies %s\nrequest %s %s/%s %s: error %v", text, method, ns, svc, path, err)
			}
			check(rt, live, ns, svc, path, method, got, text)
		}
	})

	// As many endpoints as a large installation has, nested deeply, with long and similar names.
	run(t, ev, "many", 24, 800, func(rt *rapid.T) {
		rnd := rand.New(rand.NewSource(rapid.Int64().Draw(rt, "seed")))
		size := rapid.SampledFrom([]int{40, 300, 1500, 4000}).Draw(rt, "size")
		names := rapid.SampledFrom([]int{2, 12, 400}).Draw(rt, "names")
		depth := rapid.SampledFrom([]int{3, 12, 40}).Draw(rt, "depth")
		long := rapid.SampledFrom([]string{"", "", strings.Repeat("x", 300)}).Draw(rt, "long")
		d := newDecider(nss, []string{"j", "o"})
		seen := map[string]bool{}
		var live []Entry
		path := func() []string {
			var segs []string
			for n := rnd.Intn(depth + 1); n > 0; n-- {
				segs = append(segs, fmt.Sprintf("%ss%d", long, rnd.Intn(names)))
			}
			return segs
		}
		byKey := map[string][]Entry{} // by namespace and service, for speed
		for i := 0; i < size; i++ {
			ns, svc := nss[rnd.Intn(2)], svcs[rnd.Intn(2)]
			p := v1.PathConfig{Method: []string{"", "ALL", "GET", "POST", "PUT", "DELETE", "PATCH"}[rnd.Intn(7)]}
			if text := pathOf(path()); rnd.Intn(2) == 0 {
				p.Exact = text
			} else {
				p.Prefix = text
			}
			p.Policies = tagged(fmt.Sprintf("tag%d", i), rnd.Intn(4) == 0)
			spec := v1.PolicySpec{Target: []v1.TargetElement{{ServiceName: svc, Paths: []v1.PathConfig{p}}}}
			es := entriesOf(ns, spec)
			clash := false
			for _, e := range es {
				clash = clash || seen[endpointKey(e)]
				seen[endpointKey(e)] = true
			}
			if clash {
				continue
			}
			d.put(ns, fmt.Sprintf("p%d", i), spec)
			live = append(live, es...)
			byKey[ns+"/"+svc] = append(byKey[ns+"/"+svc], es...)
		}
		for q := 0; q < 60; q++ {
			ns, svc := nss[rnd.Intn(2)], svcs[rnd.Intn(2)]
			segs := path()
			if len(live) > 0 && rnd.Intn(4) > 0 { // at or near an entry
				e := live[rnd.Intn(len(live))]
				ns, svc = e.NS, e.Svc
				segs = append([]string{}, segments(e.Exact+e.Prefix)...)
				switch rnd.Intn(4) {
				case 0:
					segs = append(segs, path()...)
				case 1:
					if len(segs) > 0 {
						segs = segs[:len(segs)-1]
					}
				case 2:
					if len(segs) > 0 {
						segs[len(segs)-1] += "0"
					}
				}
			}
			reqPath, method := pathOf(segs), reqMethods[rnd.Intn(len(reqMethods))]
			got, err := d.ask(ns, svc, reqPath, method)
			if err != nil {
				rt.Fatalf("%d entries\nrequest %s %s/%s %s: error %v", len(live), method, ns, svc, reqPath, err)
			}
			check(rt, byKey[ns+"/"+svc], ns, svc, reqPath, method, got, fmt.Sprintf("(%d entries)", len(live)))
		}
	})

	l := shared(t)
	run(t, ev, "adapter", 1000, 32000, func(rt *rapid.T) {
		real := map[string]string{"ns1": newNS(), "ns2": newNS()}
		names, specs, live, text := draw(rt)
		d := newLiveDecider(l, real)
		defer d.close()
		for i := range specs {
			d.put(names[i], fmt.Sprintf("p%d", i), specs[i])
		}
		if !l.sync1() {
			rt.Fatalf("the adapter did not pick up its configuration")
		}
		for q := 0; q < 10; q++ {
			ns, svc := rapid.SampledFrom(nss).Draw(rt, "req-ns"), rapid.SampledFrom(svcs).Draw(rt, "req-svc")
			path, method := genRequestPath(rt, live, true), genMethod(rt)
			got, err := d.ask(ns, svc, path, method)
			if err != nil {
				rt.Fatalf("policies %s\nrequest %s %s/%s %s: %v", text, method, ns, svc, path, err)
			}
			if got == "logout" { // a logout answer does not name the policy; C11 covers it
				if w := resolve(live, ns, svc, strings.TrimRight(path, "/"), method); w == nil {
					rt.Fatalf("policies %s\nrequest %s: logout answered on an unprotected path", text, path)
				}
				continue
			}
			check(rt, live, ns, svc, path, method, got, text)
		}
	})
}
