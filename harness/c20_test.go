package harness

import (
	"fmt"
	"os"
	"os/signal"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

// A plan is drawn first and executed afterwards, several side by side, each with
// its own cluster and its own adapter.
type planStep struct {
	Op             string
	Kind, NS, Name string         `json:",omitempty"`
	Version        int            `json:",omitempty"` // of a config
	Spec           *v1.PolicySpec `json:",omitempty"`
	Millis         int            `json:",omitempty"`
	Versions       int            `json:",omitempty"`
	Slow           int            `json:",omitempty"` // the provider takes its time to answer discovery
	Asks           []Req          `json:",omitempty"`
	text           string         // for messages
}

func (s planStep) String() string {
	switch s.Op {
	case "put":
		if s.Spec != nil {
			return fmt.Sprintf("put %s %s/%s %s", s.Kind, s.NS, s.Name, describe(*s.Spec))
		}
		return fmt.Sprintf("put %s %s/%s version %d%s", s.Kind, s.NS, s.Name, s.Version, slow(s.Slow))
	case "ask":
		return fmt.Sprintf("ask %d", len(s.Asks))
	case "pause":
		return fmt.Sprintf("pause %d ms", s.Millis)
	case "bulk":
		return fmt.Sprintf("put %d policies %s/%s*", s.Versions, s.NS, s.Name)
	case "thin":
		return fmt.Sprintf("delete every %dth of the policies %s*", s.Versions, s.Name)
	case "churn":
		return fmt.Sprintf("update %s %s/%s %d times, lastly to %s", s.Kind, s.NS, s.Name, s.Versions, strings.SplitN(s.last().String(), "/", 2)[1])
	case "pass":
		return fmt.Sprintf("%d other changes", s.Versions)
	}
	return strings.TrimSpace(fmt.Sprintf("%s %s %s/%s", s.Op, s.Kind, s.NS, s.Name))
}

// bulk is the i-th of many policies.
func (s planStep) bulk(i int) v1.PolicySpec {
	p := v1.PathConfig{Prefix: fmt.Sprintf("/a/%d", i/2), Method: []string{"GET", "ALL"}[i%2], Policies: tagged(fmt.Sprintf("%s%d", s.Name, i), false)}
	p.Policies[0].Config = "j1"
	if i%5 == 0 {
		p.Exact, p.Prefix = p.Prefix, ""
	}
	return v1.PolicySpec{Target: []v1.TargetElement{{ServiceName: []string{"s", "s2"}[i/2%2], Paths: []v1.PathConfig{p}}}}
}

// last is the update a churn ends with; the ones before it alternate with it.
func (s planStep) last() planStep { s.Op = "put"; return s }

func slow(n int) string {
	if n == 0 {
		return ""
	}
	return fmt.Sprintf("?slow=%d", n)
}

func (s planStep) before(i int) planStep {
	s.Op, s.Version = "put", (s.Version+i)%c20Versions
	if i == 1 && s.Kind == kOidc {
		s.Slow = 200 - s.Slow // overtaken, if anything is
	} else {
		s.Slow = 0
	}
	if s.Spec != nil {
		spec := s.bulk(i)
		s.Spec = &spec
	}
	return s
}

const c20Versions = 3

var (
	c20NS    = []string{"ns1", "ns2"}
	c20Names = []string{"p1", "p2", "p3"}
)

func genPlan(rt *rapid.T) (steps []planStep) {
	tag := 0
	svcs := genServices(rt)
	last := map[[3]string]planStep{} // the objects as put last
	var everything []Entry
	known := map[[3]string]bool{}
	var order [][3]string
	putKind := func(kind string) planStep {
		s := planStep{Op: "put", Kind: kind, NS: rapid.SampledFrom(c20NS).Draw(rt, "ns")}
		switch s.Kind {
		case kPolicy:
			s.Name = rapid.SampledFrom(c20Names).Draw(rt, "name")
			spec := v1.PolicySpec{}
			for j := rapid.IntRange(1, 2).Draw(rt, "targets"); j > 0; j-- {
				te := v1.TargetElement{ServiceName: rapid.SampledFrom(svcs).Draw(rt, "svc")}
				for k := rapid.IntRange(1, 2).Draw(rt, "paths"); k > 0; k-- {
					p := genPathConfig(rt)
					tag++
					if rapid.IntRange(0, 2).Draw(rt, "oidc") == 0 {
						p.Policies = []v1.PathPolicy{{PolicyType: "oidc", Config: rapid.SampledFrom([]string{"o1", "o2"}).Draw(rt, "config"), RedirectUri: fmt.Sprintf("tag%d", tag)}}
					} else {
						p.Policies = tagged(fmt.Sprintf("tag%d", tag), false)
						p.Policies[0].Config = rapid.SampledFrom([]string{"j1", "j2"}).Draw(rt, "config")
					}
					te.Paths = append(te.Paths, p)
				}
				spec.Target = append(spec.Target, te)
			}
			s.Spec = &spec
			everything = append(everything, entriesOf(s.NS, spec)...)
		default:
			s.Name = rapid.SampledFrom([]string{"1", "2"}).Draw(rt, "name")
			s.Name = map[string]string{kJwt: "j", kOidc: "o"}[s.Kind] + s.Name
			s.Version = rapid.IntRange(0, c20Versions-1).Draw(rt, "version")
			if s.Kind == kOidc {
				s.Slow = rapid.SampledFrom([]int{0, 0, 0, 0, 30, 200}).Draw(rt, "slow")
			}
		}
		k := [3]string{s.Kind, s.NS, s.Name}
		if !known[k] {
			known[k] = true
			order = append(order, k)
		}
		last[k] = s
		return s
	}
	put := func() planStep {
		return putKind(rapid.SampledFrom([]string{kPolicy, kPolicy, kPolicy, kJwt, kOidc}).Draw(rt, "kind"))
	}
	del := func() planStep { // something put before
		if len(order) == 0 {
			return put()
		}
		k := order[rapid.IntRange(0, len(order)-1).Draw(rt, "which")]
		return planStep{Op: "del", Kind: k[0], NS: k[1], Name: k[2]}
	}
	touch := func() planStep { // only the metadata changes: decisions stay as they are
		if len(order) == 0 {
			return put()
		}
		k := order[rapid.IntRange(0, len(order)-1).Draw(rt, "which")]
		return planStep{Op: rapid.SampledFrom([]string{"label", "annotate", "terminate", "terminate"}).Draw(rt, "touch"), Kind: k[0], NS: k[1], Name: k[2]}
	}
	ask := func() planStep {
		s := planStep{Op: "ask"}
		for i := 0; i < 10; i++ {
			r := Req{NS: rapid.SampledFrom(c20NS).Draw(rt, "req-ns"), Svc: rapid.SampledFrom(svcs).Draw(rt, "req-svc"),
				Method: genMethod(rt), Scheme: "http", Host: "h"}
			if near := everything; len(near) > 0 && rapid.IntRange(0, 5).Draw(rt, "near-entry") > 0 {
				e := near[rapid.IntRange(0, len(near)-1).Draw(rt, "entry")]
				r.NS, r.Svc = e.NS, e.Svc
				if e.Method != "" && e.Method != "ALL" {
					r.Method = e.Method
				}
				r.Path = genRequestPath(rt, []Entry{e}, false)
			} else {
				r.Path = genRequestPath(rt, everything, false)
			}
			s.Asks = append(s.Asks, r)
		}
		return s
	}
	bulks := 0
	bulk := func() planStep { // as many policies as a large installation has
		bulks++
		s := planStep{Op: "bulk", NS: rapid.SampledFrom(c20NS).Draw(rt, "ns"), Name: fmt.Sprintf("b%d-", bulks), Versions: rapid.SampledFrom([]int{30, 120, 500, 1200}).Draw(rt, "many")}
		for i := 0; i < s.Versions; i++ {
			everything = append(everything, entriesOf(s.NS, s.bulk(i))...)
		}
		return s
	}
	if n := rapid.SampledFrom([]int{0, 60, 900, 9950, 99999950, 4294967250}).Draw(rt, "versions-before"); n > 0 {
		steps = append(steps, planStep{Op: "pass", Versions: n})
	}
	for _, kind := range []string{kJwt, kOidc} {
		for i := rapid.IntRange(0, 5).Draw(rt, "configs"); i > 0; i-- {
			steps = append(steps, putKind(kind))
		}
	}
	for i := rapid.IntRange(0, 6).Draw(rt, "before"); i > 0; i-- {
		steps = append(steps, put())
	}
	if rapid.IntRange(0, 4).Draw(rt, "bulk-before") == 0 {
		steps = append(steps, bulk())
	}
	if rapid.IntRange(0, 3).Draw(rt, "start-fault") == 0 {
		steps = append(steps, planStep{Op: "failList", Kind: rapid.SampledFrom(crdKinds).Draw(rt, "fault-kind")})
	}
	steps = append(steps, planStep{Op: "start"})
	refused := ""
	for i := rapid.IntRange(3, 14).Draw(rt, "steps"); i > 0; i-- {
		switch rapid.SampledFrom([]string{"put", "put", "put", "put", "del", "del", "del", "touch", "touch", "drop", "expire", "failList", "refuse", "refuse", "pause", "pass", "ask", "bulk", "churn", "overtake", "again", "again"}).Draw(rt, "op") {
		case "churn": // somebody keeps changing the same object
			s := put()
			s.Op, s.Versions, s.Millis = "churn", rapid.SampledFrom([]int{12, 17, 30, 70}).Draw(rt, "times"), rapid.SampledFrom([]int{0, 1, 3}).Draw(rt, "apart")
			steps = append(steps, s)
			if refused == "" {
				steps = append(steps, ask())
			}
		case "again": // an object is deleted, or changed, and then put as it was
			if len(order) == 0 {
				continue
			}
			k := order[rapid.IntRange(0, len(order)-1).Draw(rt, "which")]
			for j := rapid.IntRange(0, len(order)).Draw(rt, "policy"); j > 0 && k[0] != kPolicy; j-- {
				k = order[j-1]
			}
			was := last[k]
			was.Op, was.Slow = "put", 0
			steps = append(steps, was)
			see := func() {
				if refused == "" {
					steps = append(steps, ask())
				}
			}
			see()
			if rapid.IntRange(0, 3).Draw(rt, "between") == 0 && k[0] == kPolicy {
				o := putKind(kPolicy)
				o.NS, o.Name = was.NS, was.Name
				everything = append(everything, entriesOf(o.NS, *o.Spec)...)
				steps = append(steps, o)
			} else {
				steps = append(steps, planStep{Op: "del", Kind: k[0], NS: k[1], Name: k[2]})
			}
			see()
			steps = append(steps, was)
			if refused == "" {
				a := ask()
				if was.Kind == kPolicy {
					es := entriesOf(was.NS, *was.Spec)
					for i := range a.Asks {
						if len(es) > 0 && i%2 == 0 {
							e := es[rapid.IntRange(0, len(es)-1).Draw(rt, "entry")]
							a.Asks[i].NS, a.Asks[i].Svc, a.Asks[i].Path = e.NS, e.Svc, genRequestPath(rt, []Entry{e}, false)
							if m := entryMethod(e.Method); m != "ALL" {
								a.Asks[i].Method = m
							}
						}
					}
				}
				steps = append(steps, a)
			}
		case "overtake": // a provider is slow while its configuration changes again
			p := putKind(kPolicy)
			spec := v1.PolicySpec{Target: []v1.TargetElement{{ServiceName: svcs[0], Paths: []v1.PathConfig{genPathConfig(rt)}}}}
			tag++
			spec.Target[0].Paths[0].Policies = []v1.PathPolicy{{PolicyType: "oidc", Config: rapid.SampledFrom([]string{"o1", "o2"}).Draw(rt, "config"), RedirectUri: fmt.Sprintf("tag%d", tag)}}
			p.Spec = &spec
			es := entriesOf(p.NS, spec)
			everything = append(everything, es...)
			o := putKind(kOidc)
			o.NS, o.Name, o.Slow = p.NS, spec.Target[0].Paths[0].Policies[0].Config, rapid.SampledFrom([]int{30, 200, 600}).Draw(rt, "slow")
			if k := [3]string{kOidc, o.NS, o.Name}; !known[k] {
				known[k] = true
				order = append(order, k)
			}
			steps = append(steps, p, o)
			switch rapid.IntRange(0, 3).Draw(rt, "then") {
			case 0:
				steps = append(steps, planStep{Op: "del", Kind: kOidc, NS: o.NS, Name: o.Name})
			case 1, 2:
				o.Slow, o.Version = 0, (o.Version+1)%c20Versions
				steps = append(steps, o)
			}
			if rapid.Bool().Draw(rt, "later") {
				steps = append(steps, planStep{Op: "pause", Millis: 700})
			}
			if refused == "" {
				a := ask()
				for i := range a.Asks[:5] {
					a.Asks[i].NS, a.Asks[i].Svc, a.Asks[i].Path = p.NS, svcs[0], genRequestPath(rt, es, false)
				}
				steps = append(steps, a)
			}
		case "bulk":
			if bulks < 2 {
				steps = append(steps, bulk(), planStep{Op: "thin", Name: fmt.Sprintf("b%d-", bulks), Versions: rapid.IntRange(2, 5).Draw(rt, "thin")})
			}
		case "put":
			steps = append(steps, put())
		case "del":
			steps = append(steps, del())
		case "touch":
			steps = append(steps, touch())
		case "drop":
			steps = append(steps, planStep{Op: "drop", Kind: rapid.SampledFrom(crdKinds).Draw(rt, "fault-kind")})
		case "expire":
			steps = append(steps, planStep{Op: "expire", Kind: rapid.SampledFrom(crdKinds).Draw(rt, "fault-kind")})
		case "failList":
			k := rapid.SampledFrom(crdKinds).Draw(rt, "fault-kind")
			steps = append(steps, planStep{Op: "failList", Kind: k}, planStep{Op: "expire", Kind: k})
		case "refuse":
			if refused != "" {
				steps = append(steps, planStep{Op: "allow", Kind: refused})
				refused = ""
			} else {
				refused = rapid.SampledFrom(crdKinds).Draw(rt, "fault-kind")
				steps = append(steps, planStep{Op: "refuse", Kind: refused})
				// what happens now is seen only in the next list
				for j := rapid.IntRange(1, 3).Draw(rt, "missed"); j > 0; j-- {
					switch rapid.IntRange(0, 4).Draw(rt, "missed-op") {
					case 0, 1:
						steps = append(steps, del())
					case 2:
						steps = append(steps, touch())
					default:
						steps = append(steps, put())
					}
				}
				if rapid.Bool().Draw(rt, "history-lost") {
					steps = append(steps, planStep{Op: "expire", Kind: refused})
				}
			}
		case "pass":
			steps = append(steps, planStep{Op: "pass", Versions: rapid.SampledFrom([]int{1, 30, 880, 99000}).Draw(rt, "versions")})
		case "pause":
			steps = append(steps, planStep{Op: "pause", Millis: rapid.SampledFrom([]int{1, 20, 300, 1100}).Draw(rt, "millis")})
		case "ask":
			if refused == "" {
				steps = append(steps, ask())
			}
		}
	}
	if refused != "" {
		steps = append(steps, planStep{Op: "allow", Kind: refused})
	}
	return append(steps, ask())
}

// lane executes one plan.
type lane struct {
	c      *Cluster
	l      *Live
	tn     *Tenant
	steps  []planStep
	jwts   map[string]int // ns/name -> version
	oidcs  map[string]int
	pols   map[string]v1.PolicySpec
	faults int
	asked  map[string]int
	bad    string
	at     int
}

func newLane(tn *Tenant, steps []planStep) *lane {
	return &lane{c: newCluster(), tn: tn, steps: steps, jwts: map[string]int{}, oidcs: map[string]int{}, pols: map[string]v1.PolicySpec{}, asked: map[string]int{}}
}

func (a *lane) apply(s planStep) {
	key := s.NS + "/" + s.Name
	switch s.Op {
	case "put":
		switch s.Kind {
		case kPolicy:
			a.c.put(kPolicy, s.NS, s.Name, *s.Spec)
			a.pols[key] = *s.Spec
		case kJwt:
			a.c.put(kJwt, s.NS, s.Name, map[string]string{"jwksUrl": a.tn.url(fmt.Sprintf("jwks-%d", s.Version))})
			a.jwts[key] = s.Version
		case kOidc:
			a.c.put(kOidc, s.NS, s.Name, map[string]string{"clientId": fmt.Sprintf("%s-v%d", s.Name, s.Version), "clientSecret": "s", "discoveryUrl": a.tn.url(epDiscovery) + slow(s.Slow)})
			a.oidcs[key] = s.Version
		}
	case "del":
		a.c.del(s.Kind, s.NS, s.Name)
		delete(map[string]map[string]int{kJwt: a.jwts, kOidc: a.oidcs, kPolicy: nil}[s.Kind], key)
		if s.Kind == kPolicy {
			delete(a.pols, key)
		}
	case "bulk":
		for i := 0; i < s.Versions; i++ {
			name := fmt.Sprintf("%s%d", s.Name, i)
			a.c.put(kPolicy, s.NS, name, s.bulk(i))
			a.pols[s.NS+"/"+name] = s.bulk(i)
		}
	case "thin":
		n := 0
		for _, key := range sortedKeys(a.pols) {
			if p := strings.SplitN(key, "/", 2); strings.HasPrefix(p[1], s.Name) {
				if n++; n%s.Versions == 0 {
					a.c.del(kPolicy, p[0], p[1])
					delete(a.pols, key)
				}
			}
		}
	case "churn":
		for i := s.Versions - 1; i >= 0; i-- {
			u := s.before(i)
			if i == 0 {
				u = s.last()
			}
			a.apply(u)
			time.Sleep(time.Duration(s.Millis) * time.Millisecond)
		}
	case "label", "annotate", "terminate":
		a.c.touch(s.Kind, s.NS, s.Name, s.Op)
	case "drop":
		a.c.dropWatches(s.Kind)
	case "expire":
		a.c.expireWatches(s.Kind)
	case "refuse", "allow":
		a.c.refuseWatches(s.Kind, s.Op == "refuse")
	case "failList":
		a.c.mu.Lock()
		a.c.failList[s.Kind]++
		a.c.mu.Unlock()
	case "pass":
		a.c.pass(s.Versions)
	case "pause":
		time.Sleep(time.Duration(s.Millis) * time.Millisecond)
	}
	switch s.Op {
	case "drop", "expire", "refuse", "failList":
		a.faults++
	}
}

// rest executes the plan after the start.
func (a *lane) rest(from int) {
	for a.at = from; a.at < len(a.steps); a.at++ {
		s := a.steps[a.at]
		if s.Op != "ask" {
			a.apply(s)
			continue
		}
		if !a.l.sync() {
			a.bad = "the adapter does not pick up the cluster's objects any more"
			return
		}
		for _, r := range s.Asks {
			a.bad = a.ask(r)
			for end := time.Now().Add(secs(2)); a.bad != "" && time.Now().Before(end); { // a late worker
				time.Sleep(200 * time.Millisecond)
				a.bad = a.ask(r)
			}
			if a.bad != "" {
				a.bad = fmt.Sprintf("request %s %s/%s %s: %s", r.Method, r.NS, r.Svc, r.Path, a.bad)
				return
			}
		}
	}
}

func (a *lane) ask(r Req) string {
	var live []Entry
	byTag := map[string]v1.PathPolicy{}
	for key, spec := range a.pols {
		live = append(live, entriesOf(strings.SplitN(key, "/", 2)[0], spec)...)
		for _, te := range spec.Target {
			for _, p := range te.Paths {
				for _, pp := range p.Policies {
					byTag[pp.RedirectUri] = pp
				}
			}
		}
	}
	want := resolve(live, r.NS, r.Svc, r.Path, r.Method)
	ask := r
	ask.Auth = "Bearer x"
	got := a.l.do(ask.msg())
	if len(want) == 0 {
		a.asked["unprotected"]++
		if !got.OK() {
			return "no live policy covers it, but the answer is " + stripRandom(scrubPorts(got.everything()))
		}
		return ""
	}
	// any policy that may decide explains the answer
	var why []string
	for _, tag := range want {
		pp := byTag[tag]
		key := r.NS + "/" + pp.Config
		vs := a.jwts
		if pp.PolicyType == "oidc" {
			vs = a.oidcs
		}
		v, bound := vs[key]
		switch {
		case !bound:
			if got.Err != "" {
				a.asked["config absent"]++
				return ""
			}
			why = append(why, fmt.Sprintf("%s: its config %s does not exist, but no error", tag, pp.Config))
		case pp.PolicyType == "oidc":
			if strings.HasSuffix(r.Path, "/oidc/logout") && got.Redirect() { // does not name the client
				return ""
			}
			_, q, ok := authRequest(got)
			if ok && q.Get("client_id") == fmt.Sprintf("%s-v%d", pp.Config, v) {
				a.asked["oidc"]++
				return ""
			}
			why = append(why, fmt.Sprintf("%s: not a login with version %d of %s", tag, v, pp.Config))
		default:
			gt, err := liveTag(got, r.Path)
			if err != nil || gt != tag {
				why = append(why, fmt.Sprintf("%s: not the challenge of this policy", tag))
				continue
			}
			for k := 0; k < c20Versions; k++ {
				ask.Auth = "Bearer " + token(fmt.Sprintf("k%d", k), testKeys[k], claims{"scope": tag, "sub": "u"})
				if ans := a.l.do(ask.msg()); ans.OK() != (k == v) {
					return fmt.Sprintf("%s: config %s is at version %d, but the token of version %d gets %s", tag, pp.Config, v, k, scrubPorts(ans.everything()))
				}
			}
			a.asked["jwt"]++
			return ""
		}
	}
	return fmt.Sprintf("%s; the answer is %s", strings.Join(why, "; "), stripRandom(scrubPorts(got.everything())))
}

var idpTenantRe = regexp.MustCompile(`IDP/t[0-9]+/`)

// scrubPorts makes messages repeatable.
func scrubPorts(s string) string {
	s = strings.ReplaceAll(s, idpURL(), "IDP")
	return idpTenantRe.ReplaceAllString(s, "IDP/t*/")
}

func (a *lane) log() string {
	var out []string
	for i, s := range a.steps {
		m := ""
		if i == a.at {
			m = "   <-- here"
		}
		out = append(out, s.String()+m)
	}
	return history(out)
}

func TestC20(t *testing.T) {
	ev := newEvidence("C20", "six clusters with an adapter each, side by side: objects present before the start, then creations, updates and deletions of policies and configurations in two namespaces, with watches dropped, expired, refused and lists failing in between; after everything is processed, requests near the policies; non-trivial: a fault and a later request decided by a policy",
		"the API server is a stand-in that answers every request at once")
	defer ev.Write(t)
	keep := make(chan os.Signal, 8)
	signal.Notify(keep, syscall.SIGTERM) // the signal that stops an adapter's controllers must not stop this process
	tn := newTenant()
	for k := 0; k < c20Versions; k++ {
		doc := jwks(jwk(fmt.Sprintf("k%d", k), &testKeys[k].PublicKey))
		tn.serve(fmt.Sprintf("jwks-%d", k), func(Rec) Reply { return Reply{Status: 200, Body: doc} })
	}

	run(t, ev, "histories", 22, 500, func(rt *rapid.T) {
		const width = 6
		var lanes []*lane
		for i := 0; i < width; i++ {
			lanes = append(lanes, newLane(tn, genPlan(rt)))
		}
		var wg sync.WaitGroup
		for _, a := range lanes {
			i := 0
			for ; a.steps[i].Op != "start"; i++ {
				a.apply(a.steps[i])
			}
			a.l = startAdapter(t, a.c)
			wg.Add(1)
			go func(a *lane, from int) { defer wg.Done(); a.rest(from) }(a, i+1)
		}
		wg.Wait()
		_ = syscall.Kill(os.Getpid(), syscall.SIGTERM)
		select {
		case <-keep: // delivered: adapters started from here on will not be stopped by it
		case <-time.After(secs(20)):
		}
		for _, a := range lanes {
			_ = a.l.srv.Close()
			a.l.nop.close()
			a.c.srv.CloseClientConnections()
			go a.c.srv.Close()
		}
		tn.forget()
		for i, a := range lanes {
			decided := a.asked["jwt"] + a.asked["oidc"] + a.asked["config absent"]
			ev.Case(fmt.Sprint(a.steps), a.faults > 0 && decided > 0, func() interface{} { return a.steps })
			for k, n := range a.asked {
				ev.LabelN("decided: "+k, n)
			}
			for _, s := range a.steps {
				ev.Label("step " + s.Op)
			}
			if a.bad != "" {
				rt.Fatalf("cluster %d: %s%s", i, a.bad, a.log())
			}
		}
	})
}
