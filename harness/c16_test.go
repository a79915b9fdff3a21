package harness

import (
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	corev1 "k8s.io/api/core/v1"
	apierr "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	kfake "k8s.io/client-go/kubernetes/fake"
	ktest "k8s.io/client-go/testing"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	webstrategy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/web"
)

const (
	keySecretNS   = "istio-system"
	keySecretName = "appidentityandaccessadapter-cookie-sig-enc-keys"
)

// vault is a cluster's secret store whose API calls fail by a schedule.
type vault struct {
	mu    sync.Mutex
	kube  *kfake.Clientset
	all   map[string]*corev1.Secret
	plan  []string // outcome of the next calls: ok, fail (nothing happens), lost (done, but reported as failed)
	err   error
	calls []string
}

func newVault() *vault {
	v := &vault{kube: kfake.NewSimpleClientset(), all: map[string]*corev1.Secret{}}
	res := schema.GroupResource{Resource: "secrets"}
	v.kube.PrependReactor("*", "secrets", func(act ktest.Action) (bool, runtime.Object, error) {
		v.mu.Lock()
		defer v.mu.Unlock()
		how := "ok"
		if len(v.plan) > 0 {
			how, v.plan = v.plan[0], v.plan[1:]
		}
		v.calls = append(v.calls, act.GetVerb()+":"+how)
		switch a := act.(type) {
		case ktest.CreateAction:
			s := a.GetObject().(*corev1.Secret).DeepCopy()
			if s.Namespace == "" {
				s.Namespace = act.GetNamespace()
			}
			if how == "fail" {
				return true, nil, v.err
			}
			key := s.Namespace + "/" + s.Name
			switch have := v.all[key] != nil; {
			case act.GetVerb() == "create" && have:
				return true, nil, apierr.NewAlreadyExists(res, s.Name)
			case act.GetVerb() == "update" && !have:
				return true, nil, apierr.NewNotFound(res, s.Name)
			}
			v.all[key] = s.DeepCopy()
			if how == "lost" {
				return true, nil, v.err
			}
			return true, s, nil
		case ktest.GetAction: // and deletions
			if act.GetVerb() == "delete" && how != "fail" {
				delete(v.all, act.GetNamespace()+"/"+a.GetName())
				if how == "ok" {
					return true, nil, nil
				}
			}
			if how != "ok" {
				return true, nil, v.err
			}
			if s := v.all[act.GetNamespace()+"/"+a.GetName()]; s != nil {
				return true, s.DeepCopy(), nil
			}
			return true, nil, apierr.NewNotFound(res, a.GetName())
		}
		return true, nil, apierr.NewForbidden(res, "", errors.New("not allowed"))
	})
	return v
}

func (v *vault) secret() *corev1.Secret {
	v.mu.Lock()
	defer v.mu.Unlock()
	if s := v.all[keySecretNS+"/"+keySecretName]; s != nil {
		return s.DeepCopy()
	}
	return nil
}

func (v *vault) schedule(plan []string, err error) {
	v.mu.Lock()
	v.plan, v.err, v.calls = plan, err, nil
	v.mu.Unlock()
}

func (v *vault) put(hash, block []byte) {
	v.mu.Lock()
	v.all[keySecretNS+"/"+keySecretName] = &corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: keySecretNS, Name: keySecretName}, Data: map[string][]byte{"HASH_KEY": hash, "BLOCK_KEY": block}}
	v.mu.Unlock()
}

// judge says whether a fresh instance holding exactly this secret takes the cookie.
func takes(secret *corev1.Secret, a *App, act *engine.Action, state, cookie string) bool {
	v := newVault()
	if secret != nil {
		v.all[secret.Namespace+"/"+secret.Name] = secret.DeepCopy()
	}
	before := len(a.tn.requests(epToken))
	cb := a.req("/x/oidc/callback")
	cb.Code, cb.State, cb.Cookies = "some-code", state, a.cookieName()+"="+cookie
	newReplica(v.kube).do(cb, act)
	return len(a.tn.requests(epToken)) > before
}

func TestC16(t *testing.T) {
	ev := newEvidence("C16", "schedules of failing, lost and succeeding secret reads and creations over 1-4 instances that start, restart, serve logins and race, with the secret provided at a drawn time; every cookie issued is tried at a fresh instance holding the stored secret; drawn key sizes and option strings; non-trivial: some API call failed, or two instances raced to create the secret",
		"the secret is not changed or deleted once it exists")
	defer ev.Write(t)

	errs := map[string]error{
		"internal":  apierr.NewInternalError(errors.New("etcd")),
		"timeout":   apierr.NewTimeoutError("slow", 1),
		"forbidden": apierr.NewForbidden(schema.GroupResource{Resource: "secrets"}, keySecretName, errors.New("rbac")),
		"refused":   errors.New("connection refused"),
		"not-found": apierr.NewNotFound(schema.GroupResource{Resource: "secrets"}, keySecretName),
	}
	errNames := []string{"internal", "timeout", "forbidden", "refused", "not-found"}
	app := newSolo(nil, nil)
	defer app.close()
	act := app.action()
	foreign := newVault()
	newReplica(foreign.kube)

	run(t, ev, "instances", 2400, 120000, func(rt *rapid.T) {
		v := newVault()
		cfg := config.NewConfig()
		if err := cfg.HashKeySize.Set(rapid.SampledFrom([]string{"32", "64"}).Draw(rt, "hash-size")); err != nil {
			rt.Fatalf("hash key size refused: %v", err)
		}
		if err := cfg.BlockKeySize.Set(rapid.SampledFrom([]string{"16", "24", "32"}).Draw(rt, "block-size")); err != nil {
			rt.Fatalf("block key size refused: %v", err)
		}
		app.tn.forget()
		var log []string
		var insts []*Replica
		var first *corev1.Secret
		provided, troubled := false, false
		type issued struct{ state, cookie, by string }
		var cookies []issued
		fail := func(format string, args ...interface{}) {
			rt.Helper()
			rt.Fatalf("%s%s", stripRandom(fmt.Sprintf(format, args...)), history(log))
		}
		stable := func() {
			s := v.secret()
			switch {
			case first == nil && s != nil:
				first = s
				if !provided && (len(s.Data["HASH_KEY"]) != cfg.HashKeySize.Value || len(s.Data["BLOCK_KEY"]) != cfg.BlockKeySize.Value) {
					fail("keys of %d and %d bytes were created, configured are %d and %d", len(s.Data["HASH_KEY"]), len(s.Data["BLOCK_KEY"]), cfg.HashKeySize.Value, cfg.BlockKeySize.Value)
				}
				if !provided {
					for _, k := range []string{"HASH_KEY", "BLOCK_KEY"} {
						distinct := map[byte]bool{}
						for _, b := range s.Data[k] {
							distinct[b] = true
						}
						if len(distinct) < 6 {
							fail("the created %s is not random: %d distinct bytes", k, len(distinct))
						}
					}
				}
			case first != nil && (s == nil || string(s.Data["HASH_KEY"]) != string(first.Data["HASH_KEY"]) || string(s.Data["BLOCK_KEY"]) != string(first.Data["BLOCK_KEY"])):
				fail("the secret that existed was changed")
			}
		}
		genPlan := func() (plan []string) {
			n := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 5, 6, 6, 7, 9, 12, 13}).Draw(rt, "faulty-calls")
			bias := rapid.SampledFrom([]string{"mixed", "fail", "fail", "lost"}).Draw(rt, "faults")
			for i := 0; i < n; i++ {
				if bias != "mixed" {
					plan = append(plan, bias)
				} else {
					plan = append(plan, rapid.SampledFrom([]string{"ok", "fail", "fail", "lost"}).Draw(rt, "call"))
				}
			}
			return plan
		}
		check := func(i int, ans Answer, faulty bool) {
			stable()
			_, q, isLogin := authRequest(ans)
			c := ans.SetCookie()
			if ans.OK() {
				fail("a request without a session is let through")
			}
			if c == nil || c.Value == "" {
				if isLogin {
					fail("a login was started without a state cookie: %s", ans.everything())
				}
				ev.Label("no cookie")
				if !faulty {
					fail("instance %d issues no cookie though the API works: %s", i, ans.everything())
				}
				return
			}
			ev.Label("cookie")
			if first == nil {
				fail("instance %d issues a cookie though no secret is stored", i)
			}
			if !isLogin {
				fail("a cookie without a login: %s", ans.everything())
			}
			cookies = append(cookies, issued{q.Get("state"), c.Value, fmt.Sprint(i)})
			if !takes(first, app, act, q.Get("state"), c.Value) {
				fail("instance %d issued a cookie that the keys in the secret do not open", i)
			}
			if len(cookies)%8 == 1 && takes(foreign.secret(), app, act, q.Get("state"), c.Value) {
				fail("a deployment with another secret takes the cookie of instance %d", i)
			}
		}
		for i := rapid.IntRange(2, 10).Draw(rt, "steps"); i > 0; i-- {
			plan := genPlan()
			errName := errNames[rapid.IntRange(0, len(errNames)-1).Draw(rt, "error")]
			v.schedule(append([]string(nil), plan...), errs[errName])
			faulty := len(plan) > 0
			troubled = troubled || faulty
			step := rapid.SampledFrom([]string{"start", "login", "login", "login", "race", "provide", "parallel", "outage"}).Draw(rt, "step")
			if len(insts) == 0 && step != "provide" {
				step = rapid.SampledFrom([]string{"start", "start", "race"}).Draw(rt, "first")
			}
			switch step {
			case "start":
				if len(insts) < 4 {
					insts = append(insts, &Replica{webstrategy.New(cfg, v.kube)})
				} else {
					insts[0] = &Replica{webstrategy.New(cfg, v.kube)} // a restart
				}
				log = append(log, fmt.Sprintf("an instance starts; calls %v %s", plan, errName))
				stable()
			case "provide":
				v.schedule(nil, nil)
				if v.secret() == nil {
					h, b := make([]byte, 32), make([]byte, rapid.SampledFrom([]int{16, 24, 32}).Draw(rt, "given-size"))
					r := rand.New(rand.NewSource(int64(rapid.IntRange(1, 1<<30).Draw(rt, "given"))))
					r.Read(h)
					r.Read(b)
					provided = true
					v.put(h, b)
					log = append(log, "the secret is installed")
					stable()
				}
			case "race": // several instances start together
				log = append(log, fmt.Sprintf("three instances start together; calls %v %s", plan, errName))
				troubled = true
				var wg sync.WaitGroup
				fresh := make([]*Replica, 3)
				for k := range fresh {
					k := k
					wg.Add(1)
					go func() { defer wg.Done(); fresh[k] = &Replica{webstrategy.New(cfg, v.kube)} }()
				}
				wg.Wait()
				v.schedule(nil, nil)
				stable()
				for k, r := range fresh {
					check(100+k, r.do(app.req("/x"), act), false)
				}
				insts = append(insts, fresh[0])
				if len(insts) > 4 {
					insts = insts[1:]
				}
			case "outage": // the API is away for as long as many requests take
				k := rapid.IntRange(0, len(insts)-1).Draw(rt, "instance")
				n := rapid.SampledFrom([]int{12, 40, 150, 600}).Draw(rt, "long")
				log = append(log, fmt.Sprintf("instance %d serves %d requests while every call ends %s", k, n, errName))
				plan := make([]string, n*20)
				for j := range plan {
					plan[j] = "fail"
				}
				v.schedule(plan, errs[errName])
				troubled = true
				for j := 0; j < n; j++ {
					ans := insts[k].do(app.req("/x"), act)
					if j%20 == 0 || ans.SetCookie() == nil {
						check(k, ans, true)
					}
				}
				ev.Label("outage")
			case "parallel":
				k := rapid.IntRange(0, len(insts)-1).Draw(rt, "instance")
				log = append(log, fmt.Sprintf("instance %d serves four requests at once; calls %v %s", k, plan, errName))
				var wg sync.WaitGroup
				out := make([]Answer, 4)
				for j := range out {
					j := j
					wg.Add(1)
					go func() { defer wg.Done(); out[j] = insts[k].do(app.req("/x"), act) }()
				}
				wg.Wait()
				v.schedule(nil, nil)
				for _, ans := range out {
					check(k, ans, faulty)
				}
			default:
				k := rapid.IntRange(0, len(insts)-1).Draw(rt, "instance")
				log = append(log, fmt.Sprintf("instance %d serves a request; calls %v %s", k, plan, errName))
				check(k, insts[k].do(app.req("/x"), act), faulty)
			}
		}
		// the outage is over: every instance serves again, and takes every cookie
		v.schedule(nil, nil)
		for k, r := range insts {
			log = append(log, fmt.Sprintf("the API works; instance %d serves a request", k))
			check(k, r.do(app.req("/x"), act), false)
		}
		for k, r := range insts {
			for n, c := range cookies {
				if n > 2 && n != len(cookies)-1 {
					continue
				}
				before := len(app.tn.requests(epToken))
				cb := app.req("/x/oidc/callback")
				cb.Code, cb.State, cb.Cookies = "some-code", c.state, app.cookieName()+"="+c.cookie
				r.do(cb, act)
				if len(app.tn.requests(epToken)) == before {
					fail("instance %d does not take a cookie of instance %s", k, c.by)
				}
			}
		}
		ev.Case(mustJSON(log), troubled, func() interface{} {
			return map[string]interface{}{"history": log, "cookies": len(cookies)}
		})
	})

	run(t, ev, "unusable secret", 120, 6000, func(rt *rapid.T) {
		// a secret that lacks a key, or holds one AES cannot use: nothing is issued under weaker keys
		v := newVault()
		key := func(label string, sizes []int) []byte {
			n := rapid.SampledFrom(sizes).Draw(rt, label)
			b := make([]byte, n)
			rand.New(rand.NewSource(7)).Read(b)
			return b
		}
		h, b := key("hash", []int{0, 0, 32, 64}), key("block", []int{0, 0, 1, 15, 16, 17, 33, 32})
		v.put(h, b)
		good := len(h) >= 32 && (len(b) == 16 || len(b) == 32)
		r := newReplica(v.kube)
		ans := r.do(app.req("/x"), act)
		_, q, _ := authRequest(ans)
		desc := fmt.Sprintf("HASH_KEY of %d bytes, BLOCK_KEY of %d bytes", len(h), len(b))
		ev.Case(desc, true, func() interface{} { return desc })
		ev.Label(fmt.Sprintf("usable=%v", good))
		c := ans.SetCookie()
		switch {
		case ans.OK():
			rt.Fatalf("%s: let through", desc)
		case good && c == nil:
			rt.Fatalf("%s: no cookie", desc)
		case !good && c != nil:
			rt.Fatalf("%s: a cookie is issued (state %d letters)", desc, len(q.Get("state")))
		}
		if s := v.secret(); string(s.Data["HASH_KEY"]) != string(h) || string(s.Data["BLOCK_KEY"]) != string(b) {
			rt.Fatalf("%s: the secret was changed", desc)
		}
	})

	run(t, ev, "options", 6000, 400000, func(rt *rapid.T) {
		cfg := config.NewConfig()
		hash := rapid.Bool().Draw(rt, "hash")
		opt, allowed := &cfg.BlockKeySize, map[int]bool{16: true, 24: true, 32: true}
		if hash {
			opt, allowed = &cfg.HashKeySize, map[int]bool{32: true, 64: true}
		}
		if !allowed[opt.Value] {
			rt.Fatalf("default size %d", opt.Value)
		}
		for i := rapid.IntRange(1, 4).Draw(rt, "sets"); i > 0; i-- {
			var in string
			switch rapid.IntRange(0, 3).Draw(rt, "form") {
			case 0:
				in = fmt.Sprint(rapid.IntRange(-130, 300).Draw(rt, "n"))
			case 1:
				in = rapid.SampledFrom([]string{"16", "24", "32", "64", "0", "8", "48", "128", "256", "-32", "288", "320", "4294967328", "18446744073709551632", "32.0", "0x20", "3e1", "", " 32", "32 ", "+32", "032", "１６"}).Draw(rt, "text")
			case 2:
				in = rapid.StringMatching(`[ +-]?0{0,2}[1-6]?[0-9]?`).Draw(rt, "pattern")
			default:
				in = rapid.String().Draw(rt, "any")
			}
			was := opt.Value
			err := opt.Set(in)
			n, perr := strconv.Atoi(in)
			ev.Case(fmt.Sprint(hash, in), true, func() interface{} { return map[string]interface{}{"hash": hash, "input": in, "error": fmt.Sprint(err)} })
			ev.Label(fmt.Sprintf("option accepted=%v", err == nil))
			switch {
			case !allowed[opt.Value]:
				rt.Fatalf("setting %q configured the size %d", in, opt.Value)
			case err != nil && opt.Value != was:
				rt.Fatalf("setting %q failed, but changed the size from %d to %d", in, was, opt.Value)
			case err == nil && (perr != nil || opt.Value != n):
				rt.Fatalf("setting %q configured the size %d", in, opt.Value)
			case err != nil && perr == nil && allowed[n] && strconv.Itoa(n) == in:
				rt.Fatalf("setting %q was refused: %v", in, err)
			}
		}
	})

	run(t, ev, "adapter restart", 8, 120, func(rt *rapid.T) {
		// two adapters over one cluster, one over another
		c := newCluster()
		one := startAdapter(t, c)
		a := newApp(one, nil)
		defer a.close()
		if !one.sync() {
			rt.Fatalf("the adapter did not pick up its configuration")
		}
		b := &Browser{}
		first := b.send(a, a.req("/x"))
		_, q, ok := authRequest(first)
		if !ok || first.SetCookie() == nil {
			rt.Fatalf("no login: %s", scrub(a, first.everything()))
		}
		two := startAdapter(t, c)
		if !two.sync() {
			rt.Fatalf("the restarted adapter did not pick up its configuration")
		}
		other := startAdapter(t, newCluster())
		other.c.put(kOidc, a.ns, "app", a.spec)
		other.c.put(kPolicy, a.ns, "app", c.objs[kPolicy][a.ns+"/app"]["spec"])
		if !other.sync() {
			rt.Fatalf("the other adapter did not pick up its configuration")
		}
		ev.Case(fmt.Sprint("restart", time.Now().UnixNano()), true, func() interface{} { return "callback at a restarted adapter and at another deployment" })
		cb := a.req("/x/oidc/callback")
		cb.Code, cb.State, cb.Cookies = "code", q.Get("state"), b.header()
		a.issue("code", grant{access: a.accessToken(nil), id: a.idToken(nil)})
		a.tn.forget()
		if ans := other.do(cb.msg()); len(a.tn.requests(epToken)) > 0 {
			rt.Fatalf("another deployment takes the state cookie: %s", scrub(a, ans.everything()))
		}
		if ans := two.do(cb.msg()); !ans.Redirect() || ans.SetCookie() == nil || len(a.tn.requests(epToken)) != 1 {
			rt.Fatalf("the restarted adapter does not take the state cookie: %s", scrub(a, ans.everything()))
		}
		if c.objs[kSecret][keySecretNS+"/"+keySecretName] == nil {
			rt.Fatalf("the keys are not in the secret")
		}
	})
}
