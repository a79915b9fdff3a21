package harness

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/handler"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// ------------------------------------------------------------------ schedules

// slowStore is the adapter's store with delays between its operations.
type slowStore struct {
	storepolicy.PolicyStore
	j *jitter
}

func (s *slowStore) GetKeySet(n string) keyset.KeySet {
	s.j.pause()
	return s.PolicyStore.GetKeySet(n)
}
func (s *slowStore) AddKeySet(n string, k keyset.KeySet) {
	s.j.pause()
	s.PolicyStore.AddKeySet(n, k)
	s.j.pause()
}
func (s *slowStore) GetClient(n string) client.Client {
	s.j.pause()
	return s.PolicyStore.GetClient(n)
}
func (s *slowStore) AddClient(n string, c client.Client) {
	s.j.pause()
	s.PolicyStore.AddClient(n, c)
	s.j.pause()
}
func (s *slowStore) GetPolicies(e policy.Endpoint) policy.RoutePolicy {
	s.j.pause()
	defer s.j.pause()
	return s.PolicyStore.GetPolicies(e)
}
func (s *slowStore) SetPolicies(e policy.Endpoint, a policy.RoutePolicy) {
	s.j.pause()
	s.PolicyStore.SetPolicies(e, a)
	s.j.pause()
}
func (s *slowStore) GetPolicyMapping(n string) []policy.PolicyMapping {
	s.j.pause()
	return s.PolicyStore.GetPolicyMapping(n)
}
func (s *slowStore) DeletePolicyMapping(n string) {
	s.j.pause()
	s.PolicyStore.DeletePolicyMapping(n)
	s.j.pause()
}
func (s *slowStore) AddPolicyMapping(n string, m []policy.PolicyMapping) {
	s.j.pause()
	s.PolicyStore.AddPolicyMapping(n, m)
	s.j.pause()
}

// ------------------------------------------------------------------ what may be seen

// span is a version of something, possibly in force between two ticks of the counter.
type span struct {
	from, to int64 // to = -1: still
	entries  []Entry
	value    string // of a config: its version, "" = absent
}

type timeline struct{ spans []span }

func (tl *timeline) next(from int64, s span) { s.from, s.to = from, -1; tl.spans = append(tl.spans, s) }
func (tl *timeline) ended(to int64) { // the version before the last is over now
	if n := len(tl.spans); n > 1 {
		tl.spans[n-2].to = to
	}
}

// during lists the versions possibly in force between two ticks.
func (tl *timeline) during(from, to int64) (out []span) {
	for _, s := range tl.spans {
		if s.from <= to && (s.to < 0 || s.to >= from) {
			out = append(out, s)
		}
	}
	return out
}

// seen is one concurrent request and what came of it.
type seen struct {
	from, to          int64
	svc, path, method string
	got               string // outcome: "open", "jwt <tag> <config version>", "oidc ...", "error"
	err               string
}

// may lists the outcomes a request may have.
func may(s seen, ns string, pol *timeline, confs map[string]*timeline) map[string]bool {
	out := map[string]bool{}
	for _, w := range pol.during(s.from, s.to) {
		tags := resolve(w.entries, ns, s.svc, strings.TrimRight(s.path, "/"), s.method)
		if tags == nil {
			out["open"] = true
		}
		for _, tag := range tags {
			p := strings.SplitN(tag, ".", 3) // kind.config.n
			for _, c := range confs[p[0]+"."+p[1]].during(s.from, s.to) {
				if c.value == "" {
					out["error"] = true
				} else {
					out[tag+" "+c.value] = true
				}
			}
		}
	}
	return out
}

func (s seen) String() string {
	return fmt.Sprintf("%s %s %s [%d-%d] -> %s", s.method, s.svc, s.path, s.from, s.to, s.got)
}

// tagged17 makes a policy list whose tag names its kind and config.
func tagged17(kind, config string, n int) []v1.PathPolicy {
	tag := fmt.Sprintf("%s.%s.%d", kind, config, n)
	p := v1.PathPolicy{PolicyType: kind, Config: config, RedirectUri: tag}
	if kind == "jwt" {
		p.Rules = []v1.Rule{{Claim: "scope", Values: []string{tag}, Source: accessTok}}
	}
	return []v1.PathPolicy{p}
}

var confNames = []string{"jwt.j1", "jwt.j2", "oidc.o1", "oidc.o2"}

// genSpec17 draws a policy over few endpoints of the services s and t.
func genSpec17(rt *rapid.T, pool *[]v1.PathConfig, n *int) v1.PolicySpec {
	spec := v1.PolicySpec{}
	for j := rapid.SampledFrom([]int{1, 1, 2}).Draw(rt, "targets"); j > 0; j-- {
		te := v1.TargetElement{ServiceName: rapid.SampledFrom([]string{"s", "s", "t"}).Draw(rt, "svc")}
		for k := rapid.IntRange(1, 4).Draw(rt, "paths"); k > 0; k-- {
			var p v1.PathConfig
			if len(*pool) > 3 && rapid.IntRange(0, 3).Draw(rt, "reuse") > 0 {
				p = (*pool)[rapid.IntRange(0, len(*pool)-1).Draw(rt, "reused")]
			} else {
				p = genPathConfig(rt)
				*pool = append(*pool, p)
			}
			*n++
			c := strings.Split(rapid.SampledFrom(confNames).Draw(rt, "config"), ".")
			p.Policies = tagged17(c[0], c[1], *n)
			te.Paths = append(te.Paths, p)
		}
		spec.Target = append(spec.Target, te)
	}
	return spec
}

func allEntries(ns string, live map[string]v1.PolicySpec) []Entry {
	var names []string
	for n := range live {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []Entry
	for _, n := range names {
		out = append(out, entriesOf(ns, live[n])...)
	}
	return out
}

// ask17 is one request to be repeated while the configuration changes.
type ask17 struct{ svc, path, method string }

func genAsks(rt *rapid.T, entries []Entry, n int) (out []ask17) {
	for i := 0; i < n; i++ {
		out = append(out, ask17{rapid.SampledFrom([]string{"s", "s", "s", "t", "fixed"}).Draw(rt, "req-svc"), genRequestPath(rt, entries, false), rapid.SampledFrom([]string{"GET", "GET", "POST", "HEAD"}).Draw(rt, "req-method")})
	}
	return out
}

func TestC17(t *testing.T) {
	ev := newEvidence("C17", "(a) 3 writers (one per kind, as in the adapter) apply 4-10 generated changes each while 4 readers repeat generated requests, with generated delays between store operations, at the provider and in token validation; every request must be decided by versions in force between its start and end; (b) the same through a running adapter and its API server; (c) 3 browsers and thieves of their cookies log in, use, refresh and log out at once, with hanging and failing providers; (d) first requests, discovery and key rotation at once; all under the race detector and a watchdog; non-trivial: a request overlapped a change of what decides it, or a use overlapped a logout or refresh of its session",
		"interleavings are sampled, not enumerated", "a request may combine a policy and a configuration that were each in force during it")
	defer ev.Write(t)

	// ---------------------------------------------------------- (a)
	provs := make([]*Tenant, 8) // version k of a config points at provider k
	for i := range provs {
		provs[i] = newTenant()
		provs[i].serveKeys(jwk("k1", &testKeys[i].PublicKey))
	}
	run(t, ev, "decisions", 1200, 30000, func(rt *rapid.T) {
		const ns = "ns1"
		j := newJitter(int64(rapid.IntRange(1, 1<<30).Draw(rt, "schedule")), rapid.SampledFrom([]int{0, 5, 20, 50}).Draw(rt, "delays"), 300*time.Microsecond)
		st := &slowStore{storepolicy.New(), j}
		h := handler.New(st, nil)
		eng, err := engine.New(st)
		if err != nil {
			rt.Fatal(err)
		}
		var tick int64
		now := func() int64 { return atomic.AddInt64(&tick, 1) }
		pol := &timeline{}
		confs := map[string]*timeline{}
		n := 0
		var pool []v1.PathConfig
		putConf := func(conf string, version int) {
			c := strings.Split(conf, ".")
			if version < 0 {
				h.HandleDeleteEvent(policy.CrdKey{Id: ns + "/" + c[1], CrdType: map[string]v1.CrdType{"jwt": v1.JWTCONFIG, "oidc": v1.OIDCCONFIG}[c[0]]})
			} else if c[0] == "jwt" {
				h.HandleAddUpdateEvent(&v1.JwtConfig{ObjectMeta: meta17(ns, c[1]), Spec: v1.JwtConfigSpec{JwksURL: provs[version].url(epJwks)}})
			} else {
				h.HandleAddUpdateEvent(&v1.OidcConfig{ObjectMeta: meta17(ns, c[1]), Spec: v1.OidcConfigSpec{ClientID: fmt.Sprintf("v%d", version), ClientSecret: "s", Scopes: []string{"openid", "email", "phone"}, DiscoveryURL: provs[version].url(epDiscovery)}})
			}
		}
		value := func(version int) string {
			if version < 0 {
				return ""
			}
			return fmt.Sprintf("v%d", version)
		}
		// what is there from the start
		live := map[string]v1.PolicySpec{}
		for _, name := range []string{"p1", "p2"} {
			live[name] = genSpec17(rt, &pool, &n)
		}
		n++
		live["still"] = v1.PolicySpec{Target: []v1.TargetElement{{ServiceName: "fixed", Paths: []v1.PathConfig{
			{Prefix: "/", Policies: tagged17("jwt", "jf", n)}, {Exact: "/a", Method: "GET", Policies: tagged17("oidc", "of", n+1)}, {Prefix: "/a/b", Policies: tagged17("jwt", "jf", n+2)}}}}}
		n += 2
		putPolicy := func(name string, spec v1.PolicySpec) {
			h.HandleAddUpdateEvent(&v1.Policy{ObjectMeta: meta17(ns, name), Spec: *spec.DeepCopy()})
		}
		for name, spec := range live {
			putPolicy(name, spec)
		}
		pol.next(0, span{entries: allEntries(ns, live)})
		for i, c := range append([]string{"jwt.jf", "oidc.of"}, confNames...) {
			v := i % 8
			if i > 1 && rapid.IntRange(0, 4).Draw(rt, "absent") == 0 {
				v = -1
			}
			putConf(c, v)
			confs[c] = &timeline{}
			confs[c].next(0, span{value: value(v)})
		}
		// the changes
		type change struct {
			what string
			do   func()
		}
		writers := make([][]change, 3)
		var log []string
		ever := allEntries(ns, live)
		for i := rapid.IntRange(4, 10).Draw(rt, "policy-changes"); i > 0; i-- {
			name := rapid.SampledFrom([]string{"p1", "p2", "p3"}).Draw(rt, "name")
			_, there := live[name]
			after := map[string]v1.PolicySpec{}
			for k, v := range live {
				after[k] = v
			}
			var c change
			if there && rapid.IntRange(0, 3).Draw(rt, "delete") == 0 {
				delete(after, name)
				c = change{"delete policy " + name, func() { h.HandleDeleteEvent(policy.CrdKey{Id: ns + "/" + name, CrdType: v1.POLICY}) }}
			} else {
				spec := genSpec17(rt, &pool, &n)
				if there && rapid.IntRange(0, 2).Draw(rt, "keep") > 0 { // same endpoints, other policies
					old := live[name]
					spec = *old.DeepCopy()
					for a := range spec.Target {
						for b := range spec.Target[a].Paths {
							n++
							k := strings.Split(rapid.SampledFrom(confNames).Draw(rt, "config"), ".")
							spec.Target[a].Paths[b].Policies = tagged17(k[0], k[1], n)
						}
					}
				}
				after[name] = spec
				c = change{"put policy " + name + " " + describe(spec), func() { putPolicy(name, spec) }}
			}
			live = after
			entries := allEntries(ns, live)
			ever = append(ever, entries...)
			do := c.do
			c.do = func() {
				pol.next(now(), span{entries: entries})
				do()
				pol.ended(now())
			}
			writers[0] = append(writers[0], c)
			log = append(log, c.what)
		}
		for w, kind := range []string{"jwt", "oidc"} {
			for i := rapid.IntRange(2, 8).Draw(rt, kind+"-changes"); i > 0; i-- {
				name := kind + "." + string(kind[0]) + rapid.SampledFrom([]string{"1", "2"}).Draw(rt, "conf")
				v := rapid.IntRange(-2, 7).Draw(rt, "version")
				if v == -2 {
					v = -1
				}
				what := fmt.Sprintf("put %s version %d", name, v)
				writers[w+1] = append(writers[w+1], change{what, func() {
					confs[name].next(now(), span{value: value(v)})
					putConf(name, v)
					confs[name].ended(now())
				}})
				log = append(log, what)
			}
		}
		readers := make([][]ask17, 4)
		for r := range readers {
			readers[r] = genAsks(rt, ever, 12)
		}
		// go
		got := make([][]seen, len(readers))
		fin, p := watchdog(secs(60), func() {
			var writing, reading sync.WaitGroup
			var over int32
			for _, w := range writers {
				w := w
				writing.Add(1)
				go func() {
					defer writing.Done()
					for _, c := range w {
						c.do()
						j.pause()
					}
				}()
			}
			for r := range readers {
				r := r
				reading.Add(1)
				go func() {
					defer reading.Done()
					for i := 0; atomic.LoadInt32(&over) == 0 || i < len(readers[r]); i++ {
						if i > 4000 {
							return
						}
						a := readers[r][i%len(readers[r])]
						s := seen{svc: a.svc, path: a.path, method: a.method, from: now()}
						act, err := eng.Evaluate(&authnz.TargetMsg{Namespace: ns, Service: a.svc, Path: a.path, Method: a.method})
						s.to = now()
						s.got = "?"
						switch {
						case err != nil:
							s.got, s.err = "error", err.Error()
						case act.Type == policy.NONE:
							s.got = "open"
						case act.Type == policy.JWT && act.KeySet != nil:
							for k, pr := range provs {
								if act.KeySet.PublicKeyURL() == pr.url(epJwks) {
									s.got = fmt.Sprintf("%s v%d", act.RedirectUri, k)
								}
							}
						case act.Type == policy.OIDC && act.Client != nil:
							s.got = act.RedirectUri + " " + act.Client.ID()
						}
						got[r] = append(got[r], s)
					}
				}()
			}
			writing.Wait()
			atomic.StoreInt32(&over, 1)
			reading.Wait()
		})
		if p != nil {
			rt.Fatalf("panic: %v%s", p, history(log))
		}
		if !fin {
			rt.Fatalf("requests and changes do not come to an end%s", history(log))
		}
		overlapped, total := 0, 0
		for _, list := range got {
			for _, s := range list {
				total++
				ok := may(s, ns, pol, confs)
				if len(ok) > 1 {
					overlapped++
				}
				if !ok[s.got] {
					rt.Fatalf("a request was decided by nothing in force: %s %s %s: %s %s; possible %v%s", s.method, s.svc, s.path, s.got, s.err, sortedKeys(ok), history(log))
				}
				if s.svc == "fixed" && len(ok) != 1 {
					rt.Fatalf("model: untouched endpoint with outcomes %v", sortedKeys(ok))
				}
			}
		}
		for _, pr := range provs {
			pr.forget()
		}
		ev.LabelN("requests", total)
		ev.LabelN("requests during a change of their decision", overlapped)
		ev.Case(mustJSON(log), overlapped > 0, func() interface{} {
			return map[string]interface{}{"changes": log, "requests": total, "overlapping": overlapped, "some": fmt.Sprint(got[0][:3])}
		})
	})

	// ---------------------------------------------------------- (b)
	l := shared(t)
	run(t, ev, "adapter", 50, 900, func(rt *rapid.T) { adapter17(rt, ev, l, provs) })

	// ---------------------------------------------------------- (c)
	run(t, ev, "sessions", 700, 20000, func(rt *rapid.T) { sessions17(rt, ev) })
	run(t, ev, "hanging provider", 60, 900, func(rt *rapid.T) { hanging17(rt, ev, l) })

	// ---------------------------------------------------------- (d)
	run(t, ev, "first use", 600, 12000, func(rt *rapid.T) { firstUse17(rt, ev) })
	for _, pr := range provs {
		pr.close()
	}
}

func meta17(ns, name string) metav1.ObjectMeta { return metav1.ObjectMeta{Namespace: ns, Name: name} }

// ------------------------------------------------------------------ (b) a running adapter

// adapter17 changes objects in the cluster while requests go on. The adapter takes changes
// of one kind up in an order of its own, so every object has its own versions.
func adapter17(rt *rapid.T, ev *Evidence, l *Live, provs []*Tenant) {
	ns := newNS()
	var tick int64
	now := func() int64 { return atomic.AddInt64(&tick, 1) }
	j := newJitter(int64(rapid.IntRange(1, 1<<30).Draw(rt, "schedule")), 50, 3*time.Millisecond)
	pols, confs := map[string]*timeline{}, map[string]*timeline{}
	made := map[[2]string]bool{}
	put := func(kind, name string, spec interface{}) {
		made[[2]string{kind, name}] = true
		l.c.put(kind, ns, name, spec)
	}
	defer func() {
		for k := range made {
			l.c.del(k[0], ns, k[1])
		}
	}()
	putConf := func(conf string, v int) {
		c := strings.Split(conf, ".")
		switch {
		case v < 0 && c[0] == "jwt":
			l.c.del(kJwt, ns, c[1])
		case v < 0:
			l.c.del(kOidc, ns, c[1])
		case c[0] == "jwt":
			put(kJwt, c[1], v1.JwtConfigSpec{JwksURL: provs[v].url(epJwks)})
		default:
			put(kOidc, c[1], v1.OidcConfigSpec{ClientID: fmt.Sprintf("%s-v%d", c[1], v), ClientSecret: "s", Scopes: []string{"openid", "email", "phone"}, DiscoveryURL: provs[v].url(epDiscovery)})
		}
	}
	value := func(v int) string {
		if v < 0 {
			return ""
		}
		return fmt.Sprintf("v%d", v)
	}
	n := 0
	var pool []v1.PathConfig
	live := map[string]v1.PolicySpec{"p1": genSpec17(rt, &pool, &n), "p2": genSpec17(rt, &pool, &n)}
	still := v1.PolicySpec{Target: []v1.TargetElement{{ServiceName: "fixed", Paths: []v1.PathConfig{
		{Prefix: "/", Policies: tagged17("jwt", "jf", 9001)}, {Exact: "/a", Method: "GET", Policies: tagged17("oidc", "of", 9002)}, {Prefix: "/a/b", Policies: tagged17("jwt", "jf", 9003)}}}}}
	put(kPolicy, "still", still)
	pols["still"] = &timeline{}
	pols["still"].next(0, span{entries: entriesOf(ns, still)})
	var ever []Entry
	for _, name := range []string{"p1", "p2", "p3"} {
		pols[name] = &timeline{}
		spec, ok := live[name]
		if ok {
			put(kPolicy, name, spec)
		}
		pols[name].next(0, span{entries: entriesOf(ns, spec)})
		ever = append(ever, entriesOf(ns, spec)...)
	}
	ever = append(ever, entriesOf(ns, still)...)
	for i, c := range append([]string{"jwt.jf", "oidc.of"}, confNames...) {
		v := i % 8
		if i > 1 && rapid.IntRange(0, 4).Draw(rt, "absent") == 0 {
			v = -1
		}
		putConf(c, v)
		confs[c] = &timeline{}
		confs[c].next(0, span{value: value(v)})
	}
	if !l.sync() {
		rt.Fatalf("the adapter did not pick up its configuration")
	}
	// batches of changes, the kinds at the same time
	type change func()
	var batches [][3][]change
	var log []string
	for b := rapid.IntRange(2, 4).Draw(rt, "batches"); b > 0; b-- {
		log = append(log, "batch")
		var batch [3][]change
		count := map[string]int{}
		for i := rapid.IntRange(1, 4).Draw(rt, "policy-changes"); i > 0; i-- {
			name := rapid.SampledFrom([]string{"p1", "p2", "p3"}).Draw(rt, "name")
			if count[name]++; count[name] > 2 {
				continue
			}
			_, there := live[name]
			if there && rapid.IntRange(0, 3).Draw(rt, "delete") == 0 {
				delete(live, name)
				log = append(log, "delete policy "+name)
				batch[0] = append(batch[0], func() {
					pols[name].next(now(), span{})
					l.c.del(kPolicy, ns, name)
				})
				continue
			}
			spec := genSpec17(rt, &pool, &n)
			if there && rapid.IntRange(0, 2).Draw(rt, "keep") > 0 {
				old := live[name]
				spec = *old.DeepCopy()
				for a := range spec.Target {
					for b := range spec.Target[a].Paths {
						n++
						k := strings.Split(rapid.SampledFrom(confNames).Draw(rt, "config"), ".")
						spec.Target[a].Paths[b].Policies = tagged17(k[0], k[1], n)
					}
				}
			}
			live[name] = spec
			entries := entriesOf(ns, spec)
			ever = append(ever, entries...)
			log = append(log, "put policy "+name+" "+describe(spec))
			batch[0] = append(batch[0], func() {
				pols[name].next(now(), span{entries: entries})
				l.c.put(kPolicy, ns, name, spec)
			})
			made[[2]string{kPolicy, name}] = true
		}
		for w, kind := range []string{"jwt", "oidc"} {
			for i := rapid.IntRange(0, 3).Draw(rt, kind+"-changes"); i > 0; i-- {
				name := kind + "." + string(kind[0]) + rapid.SampledFrom([]string{"1", "2"}).Draw(rt, "conf")
				v := rapid.IntRange(-1, 7).Draw(rt, "version")
				if count[name]++; count[name] > 2 {
					continue
				}
				log = append(log, fmt.Sprintf("put %s version %d", name, v))
				made[[2]string{map[string]string{"jwt": kJwt, "oidc": kOidc}[kind], strings.Split(name, ".")[1]}] = true
				batch[w+1] = append(batch[w+1], func() {
					confs[name].next(now(), span{value: value(v)})
					c := strings.Split(name, ".")
					switch {
					case v < 0 && c[0] == "jwt":
						l.c.del(kJwt, ns, c[1])
					case v < 0:
						l.c.del(kOidc, ns, c[1])
					case c[0] == "jwt":
						l.c.put(kJwt, ns, c[1], v1.JwtConfigSpec{JwksURL: provs[v].url(epJwks)})
					default:
						l.c.put(kOidc, ns, c[1], v1.OidcConfigSpec{ClientID: fmt.Sprintf("%s-v%d", c[1], v), ClientSecret: "s", Scopes: []string{"openid", "email", "phone"}, DiscoveryURL: provs[v].url(epDiscovery)})
					}
				})
			}
		}
		batches = append(batches, batch)
	}
	readers := make([][]ask17, 3)
	for r := range readers {
		readers[r] = genAsks(rt, ever, 16)
	}
	got := make([][]seen, len(readers))
	synced := true
	var busy int32
	fin, p := watchdog(secs(120), func() {
		var reading sync.WaitGroup
		var over int32
		for r := range readers {
			r := r
			reading.Add(1)
			go func() {
				defer reading.Done()
				for i := 0; atomic.LoadInt32(&over) == 0 && i < 40000; i++ {
					a := readers[r][i%len(readers[r])]
					if strings.HasSuffix(a.path, "/oidc/logout") {
						continue // the answer does not tell who decided it
					}
					was := atomic.LoadInt32(&busy)
					s := seen{svc: a.svc, path: a.path, method: a.method, from: now()}
					ans := l.do(Req{NS: ns, Svc: a.svc, Method: a.method, Path: a.path, Scheme: "https", Host: "h", Auth: "Bearer x"}.msg())
					s.to = now()
					switch tag, err := liveTag(ans, a.path); {
					case ans.Err != "":
						s.got, s.err = "error", ans.Err
					case err != nil:
						s.got, s.err = "?", err.Error()
					case tag == "":
						s.got = "open"
					default:
						s.got = tag
					}
					if was == 0 && len(got[r]) > 400 {
						time.Sleep(2 * time.Millisecond) // between batches a few suffice
						continue
					}
					got[r] = append(got[r], s)
				}
			}()
		}
		for _, batch := range batches {
			var writing sync.WaitGroup
			atomic.StoreInt32(&busy, 1)
			for _, w := range batch {
				w := w
				writing.Add(1)
				go func() {
					defer writing.Done()
					for _, c := range w {
						c()
						j.pause()
					}
				}()
			}
			writing.Wait()
			if synced = l.sync(); !synced {
				break
			}
			at := now()
			for _, m := range []map[string]*timeline{pols, confs} {
				for _, tl := range m {
					for i := range tl.spans[:len(tl.spans)-1] {
						if tl.spans[i].to < 0 {
							tl.spans[i].to = at
						}
					}
				}
			}
			atomic.StoreInt32(&busy, 0)
			time.Sleep(2 * time.Millisecond)
		}
		atomic.StoreInt32(&over, 1)
		reading.Wait()
	})
	switch {
	case p != nil:
		rt.Fatalf("panic: %v%s", p, history(log))
	case !fin:
		rt.Fatalf("requests and changes do not come to an end%s", history(log))
	case !synced:
		rt.Fatalf("the adapter stopped taking up changes%s", history(log))
	}
	overlapped, total := 0, 0
	for _, list := range got {
		for _, s := range list {
			total++
			ok := map[string]bool{}
			worlds := [][]Entry{nil}
			for _, name := range []string{"p1", "p2", "p3", "still"} {
				var next [][]Entry
				for _, v := range pols[name].during(s.from, s.to) {
					for _, w := range worlds {
						next = append(next, append(append([]Entry(nil), w...), v.entries...))
					}
				}
				worlds = next
			}
			for _, w := range worlds {
				tags := resolve(w, ns, s.svc, strings.TrimRight(s.path, "/"), s.method)
				if tags == nil {
					ok["open"] = true
				}
				for _, tag := range tags {
					p := strings.SplitN(tag, ".", 3)
					for _, c := range confs[p[0]+"."+p[1]].during(s.from, s.to) {
						switch {
						case c.value == "":
							ok["error"] = true
						case p[0] == "jwt":
							ok[tag] = true
						default:
							ok[p[1]+"-"+c.value] = true
						}
					}
				}
			}
			if len(ok) > 1 {
				overlapped++
			}
			if !ok[s.got] {
				rt.Fatalf("a request was decided by nothing in force: %s %s %s: %s %s; possible %v%s", s.method, s.svc, s.path, s.got, s.err, sortedKeys(ok), history(log))
			}
		}
	}
	for _, pr := range provs {
		pr.forget()
	}
	ev.LabelN("adapter: requests", total)
	ev.LabelN("adapter: requests during a change of their decision", overlapped)
	ev.Case(mustJSON(log), overlapped > 0, func() interface{} {
		return map[string]interface{}{"changes": log, "requests": total, "overlapping": overlapped}
	})
}

// ------------------------------------------------------------------ (c) sessions

// sess17 is what is known of one session cookie.
type sess17 struct {
	name      string
	born      int64 // the callback was answered
	gone      int64 // the first logout was answered; 0: never
	going     int64 // the first logout was started; 0: never
	unexpired bool  // its tokens are valid throughout the round
	auths     map[string]bool
	cookie    string
}

type use17 struct {
	from, to int64
	s        *sess17
	what     string
	ans      Answer
}

// richer17 gives the application scopes, rules and a way to authenticate.
func richer17(rt *rapid.T, a *App) {
	a.spec.Scopes = rapid.SampledFrom([][]string{nil, {"openid", "email"}, {"openid", "a", "b", "c"}}).Draw(rt, "scopes")
	a.spec.AuthMethod = rapid.SampledFrom([]string{"client_secret_basic", "client_secret_post"}).Draw(rt, "auth-method")
	if rapid.Bool().Draw(rt, "rules") {
		a.policy.Rules = []v1.Rule{{Claim: "aud", Match: "ANY", Values: []string{a.spec.ClientID}}, {Claim: "sub", Match: "NOT", Values: []string{"nobody", "x"}, Source: accessTok}, {Claim: "sub", Match: "NOT", Values: []string{"nobody"}, Source: idTok}}
	}
}

func sessions17(rt *rapid.T, ev *Evidence) {
	clockNow := baseTime
	j := newJitter(int64(rapid.IntRange(1, 1<<30).Draw(rt, "schedule")), rapid.SampledFrom([]int{5, 20, 50}).Draw(rt, "delays"), 500*time.Microsecond)
	clockPause.Store(j)
	defer clockPause.Store((*jitter)(nil))
	sol := newSoloAdapter()
	a := newSolo(nil, func(a *App) {
		richer17(rt, a)
	})
	defer a.tn.close()
	sol.put(kOidc, a.ns, "app", a.spec)
	sol.put(kPolicy, a.ns, "app", onePolicy(a.svc, v1.PathConfig{Prefix: "/"}, a.policy))

	var mu sync.Mutex
	var tick int64
	now := func() int64 { return atomic.AddInt64(&tick, 1) }
	serial := 0
	byCode, byRefresh := map[string]*sess17{}, map[string]*sess17{}
	// chain makes the next tokens of a session; mu held
	chain := func(s *sess17, t time.Time) grant {
		serial++
		g := grant{access: a.accessToken(claims{"n": serial, "exp": t.Unix() + 60}), id: a.idToken(claims{"n": serial, "exp": t.Unix() + 600}), ref: fmt.Sprintf("r%d", serial)}
		s.auths["Bearer "+g.access+" "+g.id] = true
		byRefresh[g.ref] = s
		return g
	}
	reuse := rapid.Bool().Draw(rt, "reusable-refresh-tokens")
	a.tn.serve(epToken, func(r Rec) Reply {
		j.pause()
		defer j.pause()
		f := r.Form()
		mu.Lock()
		defer mu.Unlock()
		var s *sess17
		if f.Get("grant_type") == "refresh_token" {
			s = byRefresh[f.Get("refresh_token")]
			if !reuse {
				delete(byRefresh, f.Get("refresh_token"))
			}
		} else {
			s = byCode[f.Get("code")]
			delete(byCode, f.Get("code"))
		}
		if s == nil {
			return Reply{Status: 400, Body: `{"error":"invalid_grant"}`}
		}
		return Reply{Status: 200, Body: tokenDoc(chain(s, clock()))}
	})

	var all []*sess17
	var uses []use17
	var bad []string
	note := func(u use17) {
		mu.Lock()
		uses = append(uses, u)
		mu.Unlock()
	}
	wrong := func(format string, args ...interface{}) {
		mu.Lock()
		bad = append(bad, stripRandom(scrub(a, fmt.Sprintf(format, args...))))
		mu.Unlock()
	}
	login := func(name string) *sess17 {
		first := sol.do(a.req("/x"))
		_, q, ok := authRequest(first)
		c := first.SetCookie()
		if !ok || c == nil {
			wrong("%s: no login: %s", name, first.everything())
			return nil
		}
		s := &sess17{name: name, auths: map[string]bool{}, unexpired: true}
		mu.Lock()
		serial++
		code := fmt.Sprintf("code%d", serial)
		byCode[code] = s
		mu.Unlock()
		r := a.req("/x/oidc/callback")
		r.Cookies, r.Code, r.State = c.Name+"="+c.Value, code, q.Get("state")
		ans := sol.do(r)
		got := ans.SetCookie()
		if !ans.Redirect() || a.isLogin(ans) || got == nil || got.Value == "" {
			wrong("%s: an honest callback did not log in: %s", name, ans.everything())
			return nil
		}
		s.cookie = got.Value
		s.born = now()
		mu.Lock()
		all = append(all, s)
		mu.Unlock()
		return s
	}
	use := func(s *sess17, who string) Answer {
		r := a.req("/x")
		r.Cookies = a.cookieName() + "=" + s.cookie
		u := use17{from: now(), s: s, what: who + " uses " + s.name}
		u.ans = sol.do(r)
		u.to = now()
		note(u)
		return u.ans
	}
	logout := func(s *sess17, who string) {
		r := a.req("/x/oidc/logout")
		r.Cookies = a.cookieName() + "=" + s.cookie
		mu.Lock()
		if s.going == 0 {
			s.going = now()
		}
		mu.Unlock()
		ans := sol.do(r)
		mu.Lock()
		if s.gone == 0 {
			s.gone = now()
		}
		mu.Unlock()
		if !ans.Redirect() || a.isLogin(ans) {
			wrong("%s: logout of %s: %s", who, s.name, ans.everything())
		}
	}

	var log []string
	sessions := make([]*sess17, 3)
	for i := range sessions {
		if sessions[i] = login(fmt.Sprintf("session %d", i)); sessions[i] == nil {
			rt.Fatalf("%v", bad)
		}
	}
	raced := false
	for round := rapid.IntRange(1, 3).Draw(rt, "rounds"); round > 0; round-- {
		expiry := rapid.IntRange(0, 2).Draw(rt, "expiry") > 0
		if expiry {
			clockNow = clockNow.Add(5 * time.Minute)
			setClock(clockNow)
			log = append(log, "the access tokens expire")
			for _, s := range all {
				s.unexpired = false
			}
		}
		uses = nil
		type actor struct {
			name string
			s    *sess17
			ops  []string
		}
		var actors []actor
		for i := range sessions {
			act := actor{fmt.Sprintf("browser %d", i), sessions[i], nil}
			for k := rapid.IntRange(1, 4).Draw(rt, "ops"); k > 0; k-- {
				act.ops = append(act.ops, rapid.SampledFrom([]string{"use", "use", "use", "logout", "login"}).Draw(rt, "op"))
			}
			actors = append(actors, act)
		}
		for i := rapid.IntRange(1, 4).Draw(rt, "others"); i > 0; i-- {
			act := actor{fmt.Sprintf("tab %d", i), sessions[rapid.IntRange(0, len(sessions)-1).Draw(rt, "whose")], nil}
			for k := rapid.IntRange(1, 5).Draw(rt, "ops"); k > 0; k-- {
				act.ops = append(act.ops, rapid.SampledFrom([]string{"use", "use", "use", "use", "logout"}).Draw(rt, "op"))
			}
			actors = append(actors, act)
		}
		for _, act := range actors {
			log = append(log, fmt.Sprintf("%s of %s: %v", act.name, act.s.name, act.ops))
			raced = raced || contains(act.ops, "logout") || expiry
		}
		fin, p := watchdog(secs(60), func() {
			var wg sync.WaitGroup
			for i := range actors {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					act := actors[i]
					for k, op := range act.ops {
						j.pause()
						switch op {
						case "use":
							use(act.s, act.name)
						case "logout":
							logout(act.s, act.name)
						case "login":
							if s := login(fmt.Sprintf("session of %s, step %d of round %d", act.name, k, round)); s != nil {
								act.s = s
							}
						}
					}
					if i < len(sessions) {
						sessions[i] = act.s
					}
				}()
			}
			wg.Wait()
		})
		if p != nil {
			rt.Fatalf("panic: %v%s", p, history(log))
		}
		if !fin {
			rt.Fatalf("requests do not come to an end%s", history(log))
		}
		// afterwards, everyone tries every cookie again
		for _, s := range all {
			use(s, "the end of the round")
		}
		for _, u := range uses {
			switch {
			case u.ans.OK() && u.s.gone > 0 && u.from > u.s.gone:
				wrong("%s after its logout was answered, and is let through", u.what)
			case u.ans.OK() && !u.s.auths[u.ans.Auth]:
				wrong("%s and is let through with tokens of another session", u.what)
			case !u.ans.OK() && !a.isLogin(u.ans):
				wrong("%s: %s", u.what, u.ans.everything())
			case !u.ans.OK() && u.s.unexpired && u.from > u.s.born && (u.s.going == 0 || u.to < u.s.going):
				wrong("%s, which is live and unexpired, and is sent to log in", u.what)
			}
			ev.Label(fmt.Sprintf("use: ok=%v logged-out=%v", u.ans.OK(), u.s.gone > 0))
		}
		ids := map[string]string{}
		for _, s := range all {
			if ids[s.cookie] != "" {
				wrong("%s and %s have the same id", ids[s.cookie], s.name)
			}
			ids[s.cookie] = s.name
		}
		if len(bad) > 0 {
			sort.Strings(bad)
			rt.Fatalf("%s%s", bad[0], history(log))
		}
	}
	ev.Case(mustJSON(log), raced, func() interface{} { return log })
}

// hanging17 lets one request hang at its provider; everything else has to go on meanwhile.
func hanging17(rt *rapid.T, ev *Evidence, l *Live) {
	a := newApp(l, nil)
	defer a.close()
	b := newApp(l, func(b *App) { b.spec.ClientID = "client-b" })
	defer b.close()
	l.c.put(kJwt, a.ns, "j", v1.JwtConfigSpec{JwksURL: a.tn.url(epJwks)})
	defer l.c.del(kJwt, a.ns, "j")
	l.c.put(kPolicy, a.ns, "api", onePolicy("api", v1.PathConfig{Prefix: "/"}, v1.PathPolicy{PolicyType: "jwt", Config: "j"}))
	defer l.c.del(kPolicy, a.ns, "api")
	if !l.sync() {
		rt.Fatalf("the adapter did not pick up its configuration")
	}
	kind := rapid.SampledFrom([]string{"refresh", "refresh", "refresh", "callback", "keys", "config-keys", "config-discovery", "userinfo"}).Draw(rt, "hanging")
	slow := newTenant() // for configurations
	defer slow.close()
	exp := func(n int, d int64) claims { return claims{"n": n, "exp": baseTime.Unix() + d} }
	one, two := &Browser{}, &Browser{}
	g1 := grant{access: a.accessToken(exp(1, 60)), id: a.idToken(exp(1, 60)), ref: "r1"}
	if kind == "userinfo" {
		g1.access = "opaque-token-one"
		a.vouch(g1.access, true)
	}
	g2 := grant{access: a.accessToken(exp(2, 9999)), id: a.idToken(exp(2, 9999)), ref: "r2"}
	for i, br := range []*Browser{one, two} {
		if ans := br.login(a, "/x", fmt.Sprintf("c%d", i), []grant{g1, g2}[i]); !ans.Redirect() || a.isLogin(ans) {
			rt.Fatalf("no login: %s", scrub(a, ans.everything()))
		}
	}
	sessionOne := one.header()
	if ans := two.send(a, a.req("/x")); !ans.OK() {
		rt.Fatalf("session two does not work: %s", scrub(a, ans.everything()))
	}
	// what hangs
	hanging := func(good Reply) func(Rec) Reply {
		return func(Rec) Reply { good.Mode = "hang"; return good }
	}
	g3 := grant{access: a.accessToken(exp(3, 9999)), id: a.idToken(exp(3, 9999)), ref: "r3"}
	req := a.req("/x")
	req.Cookies = sessionOne
	where := a.tn
	var start func() Answer
	start = func() Answer { return l.do(req.msg()) }
	switch kind {
	case "refresh":
		setClock(baseTime.Add(2 * time.Minute))
		a.tn.serve(epToken, hanging(Reply{Status: 200, Body: tokenDoc(g3)}))
	case "callback":
		first := l.do(a.req("/x").msg())
		_, q, _ := authRequest(first)
		req = a.req("/x/oidc/callback")
		req.Cookies, req.Code, req.State = first.SetCookie().Name+"="+first.SetCookie().Value, "code", q.Get("state")
		a.tn.serve(epToken, hanging(Reply{Status: 200, Body: tokenDoc(g3)}))
	case "keys":
		a.tn.serve(epJwks, hanging(Reply{Status: 200, Body: jwks(jwk(a.kid, &a.key.PublicKey))}))
		req = a.req("/x")
		req.Svc, req.Auth = "api", "Bearer "+token("unknown", testKeys[3], claims{"sub": "u"})
	case "userinfo":
		a.tn.serve(epUserinfo, hanging(Reply{Status: 200, Body: `{"sub":"u"}`}))
	case "config-keys":
		where = slow
		slow.serve(epJwks, hanging(Reply{Status: 200, Body: jwks()}))
		start = func() Answer {
			l.c.put(kJwt, a.ns, "new", v1.JwtConfigSpec{JwksURL: slow.url(epJwks)})
			return Answer{}
		}
		defer l.c.del(kJwt, a.ns, "new")
	case "config-discovery":
		where = slow
		slow.serve(epDiscovery, hanging(Reply{Status: 200, Body: slow.discoveryDoc()}))
		start = func() Answer {
			l.c.put(kOidc, a.ns, "new", v1.OidcConfigSpec{ClientID: "n", ClientSecret: "s", Scopes: []string{"openid", "email", "phone"}, DiscoveryURL: slow.url(epDiscovery)})
			return Answer{}
		}
		defer l.c.del(kOidc, a.ns, "new")
	}
	var stuck Answer
	stuckDone := make(chan struct{})
	began := time.Now()
	go func() { stuck = start(); close(stuckDone) }()
	for atomic.LoadInt32(&where.inHng) == 0 {
		if time.Since(began) > 10*time.Second {
			rt.Fatalf("%s: the provider was not asked", kind)
		}
		time.Sleep(200 * time.Microsecond)
	}
	// everything else
	others := rapid.Permutation([]string{"session two", "api", "other app", "new login", "unprotected", "policy change", "logout one"}).Draw(rt, "others")
	logsOut := kind == "refresh" && rapid.IntRange(0, 3).Draw(rt, "logout") > 0 || kind == "userinfo"
	var problem string
	var stage atomic.Value
	stage.Store("")
	done := make(chan struct{})
	go func() {
		defer close(done)
		expect := func(ok bool, what string, ans Answer) {
			if !ok && problem == "" {
				problem = what + ": " + scrub(b, scrub(a, ans.everything()))
			}
		}
		for _, o := range others {
			stage.Store(o)
			switch o {
			case "session two":
				ans := two.send(a, a.req("/x"))
				expect(ans.OK() && ans.Auth == "Bearer "+g2.access+" "+g2.id, "another session of the same application is not let through", ans)
			case "api":
				r := a.req("/x")
				r.Svc, r.Auth = "api", "Bearer "+a.accessToken(exp(9, 9999))
				ans := l.do(r.msg())
				expect(ans.OK(), "an API call with a known key is not let through", ans)
			case "other app":
				br := &Browser{}
				ans := br.login(b, "/y", "code-b", grant{access: b.accessToken(exp(5, 9999)), id: b.idToken(exp(5, 9999))})
				expect(ans.Redirect() && !b.isLogin(ans), "a login at another provider fails", ans)
				ans = br.send(b, b.req("/y"))
				expect(ans.OK(), "the other application's session is not let through", ans)
			case "new login":
				ans := l.do(a.req("/z").msg())
				expect(a.isLogin(ans), "a new user is not sent to log in", ans)
			case "unprotected":
				r := a.req("/x")
				r.Svc = "nobody"
				ans := l.do(r.msg())
				expect(ans.OK(), "an unprotected service is not let through", ans)
			case "policy change":
				l.c.put(kPolicy, a.ns, "late", onePolicy("late", v1.PathConfig{Prefix: "/"}, v1.PathPolicy{PolicyType: "jwt", Config: "j"}))
				r := a.req("/x")
				r.Svc = "late"
				for l.do(r.msg()).OK() {
					time.Sleep(time.Millisecond)
				}
			case "logout one":
				if logsOut {
					r := a.req("/x/oidc/logout")
					r.Cookies = sessionOne
					ans := l.do(r.msg())
					expect(ans.Redirect(), "logout is not answered", ans)
				}
			}
		}
	}()
	defer l.c.del(kPolicy, a.ns, "late")
	select {
	case <-done:
	case <-time.After(4 * time.Second): // the provider still hangs (for at most 5 seconds, then requests to it time out)
		where.release()
		rt.Fatalf("%s: while a provider hangs, %q is not answered", kind, stage.Load())
	}
	if problem != "" {
		where.release()
		rt.Fatalf("%s: while a provider hangs: %s", kind, problem)
	}
	stillHanging := atomic.LoadInt32(&where.inHng) > 0
	where.release()
	select {
	case <-stuckDone:
	case <-time.After(secs(30)):
		rt.Fatalf("%s: the request never came back though the provider answered", kind)
	}
	ev.Label("hang: " + kind)
	after := a.req("/x")
	after.Cookies = sessionOne
	a.tn.serve(epToken, a.tokenEndpoint)
	a.tn.serve(epUserinfo, a.userinfoEndpoint)
	a.tn.serveKeys(jwk(a.kid, &a.key.PublicKey))
	ans := l.do(after.msg())
	switch {
	case logsOut && ans.OK():
		rt.Fatalf("%s: the session was logged out while it was in use, and is usable again", kind)
	case kind == "refresh" && !logsOut && stillHanging && !(stuck.OK() && ans.OK()):
		rt.Fatalf("%s: the renewal was granted after a while, but the session is not usable: %s, then %s", kind, scrub(a, stuck.everything()), scrub(a, ans.everything()))
	case kind == "callback" && stillHanging:
		if c := stuck.SetCookie(); !stuck.Redirect() || a.isLogin(stuck) || c == nil {
			rt.Fatalf("%s: the code was exchanged after a while, but there is no session: %s", kind, scrub(a, stuck.everything()))
		} else {
			r := a.req("/x")
			r.Cookies = c.Name + "=" + c.Value
			if ans := l.do(r.msg()); !ans.OK() {
				rt.Fatalf("%s: the new session does not work: %s", kind, scrub(a, ans.everything()))
			}
		}
	}
	if logsOut {
		ev.Label("logout during " + kind)
	}
	if !l.sync() {
		rt.Fatalf("%s: the adapter takes up no changes any more", kind)
	}
	ev.Case(fmt.Sprint(kind, others, logsOut), true, func() interface{} {
		return map[string]interface{}{"hanging": kind, "meanwhile": others, "logout": logsOut}
	})
}

// ------------------------------------------------------------------ (d) first use

// firstUse17 sends many first requests while the configuration, the provider's documents and
// its keys appear; afterwards everything has to work.
func firstUse17(rt *rapid.T, ev *Evidence) {
	j := newJitter(int64(rapid.IntRange(1, 1<<30).Draw(rt, "schedule")), rapid.SampledFrom([]int{5, 20, 50}).Draw(rt, "delays"), 500*time.Microsecond)
	sol := newSoloAdapter()
	v := newVault() // the cookie keys may not be available yet, either
	keyFailures := rapid.SampledFrom([]int{0, 6, 6, 7, 9, 12, 15}).Draw(rt, "cookie-key-failures")
	plan := make([]string, keyFailures)
	for i := range plan {
		plan[i] = "fail"
	}
	v.schedule(plan, errors.New("connection refused"))
	sol.web = newReplica(v.kube)
	a := newSolo(nil, func(a *App) { richer17(rt, a) })
	defer a.tn.close()
	var mu sync.Mutex
	failing := map[string]int{epDiscovery: rapid.IntRange(0, 6).Draw(rt, "discovery-failures"), epJwks: rapid.IntRange(0, 6).Draw(rt, "keys-failures")}
	how := rapid.SampledFrom([]string{"500", "reset", "garbage"}).Draw(rt, "failure")
	failures := fmt.Sprint(failing)
	kids := []string{"k1"} // published now
	doc := func() string {
		var out []map[string]interface{}
		for _, k := range kids {
			out = append(out, jwk(k, &testKeys[int(k[1]-'1')].PublicKey))
		}
		return jwks(out...)
	}
	serve := func(ep string, good func() string) {
		a.tn.serve(ep, func(Rec) Reply {
			j.pause()
			defer j.pause()
			mu.Lock()
			defer mu.Unlock()
			if failing[ep] > 0 {
				failing[ep]--
				switch how {
				case "reset":
					return Reply{Mode: "reset"}
				case "garbage":
					return Reply{Status: 200, Body: "{"}
				}
				return Reply{Status: 500}
			}
			return Reply{Status: 200, Body: good()}
		})
	}
	serve(epDiscovery, a.tn.discoveryDoc)
	serve(epJwks, doc)
	sol.put(kPolicy, a.ns, "app", onePolicy(a.svc, v1.PathConfig{Prefix: "/"}, a.policy))
	sol.put(kPolicy, a.ns, "api", onePolicy("api", v1.PathConfig{Prefix: "/"}, v1.PathPolicy{PolicyType: "jwt", Config: "j", Rules: []v1.Rule{{Claim: "sub", Match: "NOT", Values: []string{"nobody", "x"}}, {Claim: "scope", Values: []string{"read", "write"}}}}))
	early := rapid.Bool().Draw(rt, "configs-first")
	config := func() {
		sol.put(kOidc, a.ns, "app", a.spec)
		sol.put(kJwt, a.ns, "j", v1.JwtConfigSpec{JwksURL: a.tn.url(epJwks)})
	}
	if early {
		config()
	}
	n := rapid.IntRange(3, 8).Draw(rt, "requests")
	kindOf := make([]string, n)
	for i := range kindOf {
		kindOf[i] = rapid.SampledFrom([]string{"open", "open", "open", "api", "api", "api-bare", "api-new-key", "callback"}).Draw(rt, "kind")
	}
	rotate := rapid.Bool().Draw(rt, "rotate")
	desc := fmt.Sprintf("failures %v cookie keys:%d %s, configs first=%v, requests %v, rotation=%v", failures, keyFailures, how, early, kindOf, rotate)
	apiReq := func(kid string) Req {
		r := a.req("/x")
		r.Svc, r.Auth = "api", "Bearer "+token(kid, testKeys[int(kid[1]-'1')], claims{"sub": "u", "scope": "write x read"})
		return r
	}
	answers := make([]Answer, n)
	fin, p := watchdog(secs(60), func() {
		var wg sync.WaitGroup
		if !early {
			wg.Add(1)
			go func() { defer wg.Done(); j.pause(); config() }()
		}
		for i := range kindOf {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				j.pause()
				switch kindOf[i] {
				case "open":
					answers[i] = sol.do(a.req("/x"))
				case "api":
					answers[i] = sol.do(apiReq("k1"))
				case "api-bare":
					r := apiReq("k1")
					r.Auth = ""
					answers[i] = sol.do(r)
				case "api-new-key":
					answers[i] = sol.do(apiReq("k2"))
				case "callback":
					r := a.req("/x/oidc/callback")
					r.Code, r.State, r.Cookies = "c", "s", a.cookieName()+"=x"
					answers[i] = sol.do(r)
				}
			}()
		}
		if rotate {
			wg.Add(1)
			go func() {
				defer wg.Done()
				j.pause()
				mu.Lock()
				kids = []string{"k1", "k2"}
				mu.Unlock()
			}()
		}
		wg.Wait()
	})
	if p != nil {
		rt.Fatalf("%s: panic: %v", desc, p)
	}
	if !fin {
		rt.Fatalf("%s: requests do not come to an end", desc)
	}
	for i, ans := range answers {
		if ans.Nil {
			rt.Fatalf("%s: %s got neither answer nor error", desc, kindOf[i])
		}
		if ans.OK() && (kindOf[i] != "api" && !(kindOf[i] == "api-new-key" && rotate)) {
			rt.Fatalf("%s: %s is let through", desc, kindOf[i])
		}
		ev.Label(fmt.Sprintf("first %s: code=%d err=%v", kindOf[i], ans.Code, ans.Err != ""))
	}
	// now everything works
	v.schedule(nil, nil)
	mu.Lock()
	failing[epDiscovery], failing[epJwks] = 0, 0
	mu.Unlock()
	if rotate {
		if ans := sol.do(apiReq("k2")); !ans.OK() {
			rt.Fatalf("%s: afterwards, a token of the new key is refused: %s", desc, scrub(a, ans.everything()))
		}
	}
	if ans := sol.do(apiReq("k1")); !ans.OK() {
		rt.Fatalf("%s: afterwards, a valid token is refused: %s", desc, scrub(a, ans.everything()))
	}
	first := sol.do(a.req("/x"))
	_, q, ok := authRequest(first)
	if !ok || first.SetCookie() == nil {
		rt.Fatalf("%s: afterwards, no login: %s", desc, scrub(a, first.everything()))
	}
	g := grant{access: a.accessToken(nil), id: a.idToken(nil)}
	a.issue("code", g)
	r := a.req("/x/oidc/callback")
	r.Cookies, r.Code, r.State = first.SetCookie().Name+"="+first.SetCookie().Value, "code", q.Get("state")
	ans := sol.do(r)
	if !ans.Redirect() || ans.SetCookie() == nil {
		rt.Fatalf("%s: afterwards, a callback fails: %s", desc, scrub(a, ans.everything()))
	}
	r = a.req("/x")
	r.Cookies = ans.SetCookie().Name + "=" + ans.SetCookie().Value
	if ans := sol.do(r); !ans.OK() || ans.Auth != "Bearer "+g.access+" "+g.id {
		rt.Fatalf("%s: afterwards, a session is not let through: %s", desc, scrub(a, ans.everything()))
	}
	a.tn.forget()
	ev.Case(desc, true, func() interface{} { return desc })
}
