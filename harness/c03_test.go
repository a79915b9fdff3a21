package harness

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

// policyStore is what a history is applied to.
type policyTarget interface {
	put(ns, name string, spec v1.PolicySpec)
	del(ns, name string)
	ask(ns, svc, path, method string) (string, error)
}

// histGen generates histories of policy changes with endpoints that often coincide.
type histGen struct {
	tag  int
	oidc bool
	pool []v1.PathConfig // endpoints already used: reused often, so that policies overlap
}

func (g *histGen) spec(t *rapid.T, svcs []string) v1.PolicySpec {
	spec := v1.PolicySpec{}
	for j := rapid.SampledFrom([]int{1, 1, 1, 2, 0}).Draw(t, "targets"); j > 0; j-- {
		te := v1.TargetElement{ServiceName: rapid.SampledFrom(svcs).Draw(t, "svc")}
		for k := rapid.SampledFrom([]int{1, 1, 2, 3, 0}).Draw(t, "paths") + many(t, "more-paths"); k > 0; k-- {
			var p v1.PathConfig
			if len(g.pool) > 0 && rapid.IntRange(0, 2).Draw(t, "reuse") > 0 {
				p = g.pool[rapid.IntRange(0, len(g.pool)-1).Draw(t, "reused")]
				if rapid.IntRange(0, 3).Draw(t, "other-method") == 0 {
					p.Method = rapid.SampledFrom(genMethods).Draw(t, "method")
				}
			} else {
				p = genPathConfig(t)
				g.pool = append(g.pool, p)
			}
			g.tag++
			p.Policies = nil
			if rapid.IntRange(0, 15).Draw(t, "empty") > 0 {
				p.Policies = tagged(fmt.Sprintf("tag%d", g.tag), g.oidc && rapid.IntRange(0, 3).Draw(t, "oidc") == 0)
			}
			te.Paths = append(te.Paths, p)
		}
		spec.Target = append(spec.Target, te)
	}
	return spec
}

func liveEntries(live map[string]v1.PolicySpec) []Entry {
	keys := make([]string, 0, len(live))
	for k := range live {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out []Entry
	for _, k := range keys {
		out = append(out, entriesOf(strings.SplitN(k, "/", 2)[0], live[k])...)
	}
	return out
}

func TestC03(t *testing.T) {
	ev := newEvidence("C03", "a history of 1-12 creations, updates and deletions of up to 5 policies with overlapping endpoints, queried near every endpoint ever used; non-trivial: the history updates or deletes a policy and a query hits an endpoint that changed hands")
	defer ev.Write(t)
	nss, svcs := []string{"ns1", "ns2"}, []string{"s", "s2"}

	prop := func(rt *rapid.T, mk func() (policyTarget, func() bool, func()), steps, queries int, slash bool) {
		svcs = genServices(rt)
		g := &histGen{oidc: true}
		target, settle, done := mk()
		defer done()
		live := map[string]v1.PolicySpec{}
		var log []string
		var ever []Entry
		changed := false
		query := func(n int) {
			if !settle() {
				rt.Fatalf("the adapter did not pick up its configuration after%s", history(log))
			}
			now := liveEntries(live)
			for q := 0; q < n; q++ {
				ns, svc := rapid.SampledFrom(nss).Draw(rt, "req-ns"), rapid.SampledFrom(svcs).Draw(rt, "req-svc")
				path := genRequestPath(rt, ever, slash)
				method := genMethod(rt)
				want := resolve(now, ns, svc, strings.TrimRight(path, "/"), method)
				before := resolve(ever, ns, svc, strings.TrimRight(path, "/"), method)
				got, err := target.ask(ns, svc, path, method)
				if got == "logout" {
					got = ""
					if want != nil {
						got = want[0]
					}
				}
				moved := changed && fmt.Sprint(want) != fmt.Sprint(before)
				ev.Case(fmt.Sprint(log, ns, svc, path, method), moved, func() interface{} {
					return map[string]interface{}{"history": append([]string(nil), log...), "request": fmt.Sprintf("%s %s/%s %s", method, ns, svc, path), "may_be_decided_by": want}
				})
				if moved {
					ev.Label("changed-hands")
				}
				if len(want) > 1 {
					ev.Label("overlapping")
				}
				if err != nil {
					rt.Fatalf("%s\nrequest %s %s/%s %s: %v", history(log), method, ns, svc, path, err)
				}
				if want == nil && got != "" || want != nil && !contains(want, got) {
					rt.Fatalf("%s\nrequest %s %s/%s %s: decided by %q, live policies say %q", history(log), method, ns, svc, path, got, want)
				}
			}
		}
		n := rapid.IntRange(1, steps).Draw(rt, "steps")
		for i := 0; i < n; i++ {
			ns := rapid.SampledFrom([]string{"ns1", "ns1", "ns1", "ns2"}).Draw(rt, "ns")
			name := rapid.SampledFrom([]string{"p1", "p2", "p3"}).Draw(rt, "name")
			key := ns + "/" + name
			_, exists := live[key]
			if exists && rapid.IntRange(0, 1).Draw(rt, "delete") == 1 {
				target.del(ns, name)
				delete(live, key)
				log = append(log, "delete "+key)
				changed = true
			} else {
				spec := g.spec(rt, svcs)
				if exists && rapid.IntRange(0, 2).Draw(rt, "edit") > 0 { // a small edit of the present spec
					was := live[key]
					cur := *was.DeepCopy()
					if len(cur.Target) > 0 && len(cur.Target[0].Paths) > 0 {
						if rapid.IntRange(0, 1).Draw(rt, "drop") == 0 {
							cur.Target[0].Paths = cur.Target[0].Paths[1:]
						} else {
							cur.Target[0].Paths[0].Method = rapid.SampledFrom(genMethods).Draw(rt, "new-method")
						}
						spec = cur
					}
				}
				target.put(ns, name, spec)
				live[key] = spec
				ever = append(ever, entriesOf(ns, spec)...)
				verb := "create "
				if exists {
					verb = "update "
					changed = true
				}
				log = append(log, verb+key+" "+describe(spec))
			}
			if rapid.IntRange(0, 3).Draw(rt, "query-now") == 0 {
				query(2)
			}
		}
		query(queries)
		ev.Label(fmt.Sprintf("history-length=%d-%d", n/4*4, n/4*4+3))
	}

	run(t, ev, "engine", 24000, 1200000, func(rt *rapid.T) {
		prop(rt, func() (policyTarget, func() bool, func()) {
			return newDecider(nss, []string{"j", "o"}), func() bool { return true }, func() {}
		}, 12, 12, false)
	})
	// Long histories of many policies.
	run(t, ev, "many", 100, 3000, func(rt *rapid.T) {
		rnd := rand.New(rand.NewSource(rapid.Int64().Draw(rt, "seed")))
		steps := rapid.SampledFrom([]int{60, 300, 1500}).Draw(rt, "steps")
		policies := rapid.SampledFrom([]int{3, 25, 200}).Draw(rt, "policies")
		names := rapid.SampledFrom([]int{2, 6, 30}).Draw(rt, "names")
		dels := rapid.SampledFrom([]int{2, 3, 5}).Draw(rt, "one-delete-in")
		d := newDecider(nss, []string{"j", "o"})
		live := map[string]v1.PolicySpec{}
		var now []Entry
		path := func() string {
			var segs []string
			for n := rnd.Intn(5); n > 0; n-- {
				segs = append(segs, fmt.Sprintf("s%d", rnd.Intn(names)))
			}
			return pathOf(segs)
		}
		tag, changed := 0, 0
		for i := 0; i < steps; i++ {
			key := fmt.Sprintf("%s/p%d", nss[rnd.Intn(2)], rnd.Intn(policies))
			ns, name := strings.SplitN(key, "/", 2)[0], strings.SplitN(key, "/", 2)[1]
			was, exists := live[key]
			if exists {
				changed++
			}
			if exists && rnd.Intn(dels) == 0 {
				d.del(ns, name)
				delete(live, key)
			} else {
				spec := v1.PolicySpec{}
				if exists && rnd.Intn(2) == 0 && len(was.Target) > 0 { // keep some of it
					spec.Target = append(spec.Target, *was.Target[rnd.Intn(len(was.Target))].DeepCopy())
				}
				for j := rnd.Intn(3); j >= 0; j-- {
					te := v1.TargetElement{ServiceName: svcs[rnd.Intn(2)]}
					for k := rnd.Intn(4); k >= 0; k-- {
						tag++
						p := v1.PathConfig{Method: genMethods[rnd.Intn(len(genMethods))], Policies: tagged(fmt.Sprintf("tag%d", tag), rnd.Intn(4) == 0)}
						if rnd.Intn(2) == 0 {
							p.Exact = path()
						} else {
							p.Prefix = path()
						}
						te.Paths = append(te.Paths, p)
					}
					spec.Target = append(spec.Target, te)
				}
				d.put(ns, name, spec)
				live[key] = spec
			}
			if i%(steps/6) != steps/6-1 {
				continue
			}
			now = liveEntries(live)
			for q := 0; q < 25; q++ {
				ns, svc, p, method := nss[rnd.Intn(2)], svcs[rnd.Intn(2)], path(), reqMethods[rnd.Intn(len(reqMethods))]
				want := resolve(now, ns, svc, p, method)
				got, err := d.ask(ns, svc, p, method)
				ev.Case(fmt.Sprint(steps, policies, i, tag, ns, svc, p, method), changed > 0 && len(want) > 0, func() interface{} {
					return map[string]interface{}{"changes": i + 1, "live_policies": len(live), "request": fmt.Sprintf("%s %s/%s %s", method, ns, svc, p), "may_be_decided_by": want}
				})
				if err != nil || want == nil && got != "" || want != nil && !contains(want, got) {
					rt.Fatalf("after %d changes to %d policies: request %s %s/%s %s: decided by %q (error %v), live policies say %q", i+1, len(live), method, ns, svc, p, got, err, want)
				}
			}
		}
	})

	l := shared(t)
	run(t, ev, "adapter", 600, 24000, func(rt *rapid.T) {
		prop(rt, func() (policyTarget, func() bool, func()) {
			d := newLiveDecider(l, map[string]string{"ns1": newNS(), "ns2": newNS()})
			return d, l.sync, d.close
		}, 8, 12, true)
	})
}
