package harness

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
	"google.golang.org/grpc/metadata"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------
// A fake Kubernetes API server: custom resources with list and watch, and
// secrets; plus a real adapter (adapter.NewAppIDAdapter) connected to it.

const (
	kPolicy = "policies"
	kJwt    = "jwtconfigs"
	kOidc   = "oidcconfigs"
	kSecret = "secrets"
)

var kindName = map[string]string{kPolicy: "Policy", kJwt: "JwtConfig", kOidc: "OidcConfig", kSecret: "Secret"}
var crdKinds = []string{kPolicy, kJwt, kOidc}

type event struct {
	rv   int
	typ  string
	kind string
	obj  map[string]interface{}
}

// Cluster is the API server's state.
type Cluster struct {
	mu       sync.Mutex
	cond     *sync.Cond
	rv       int
	objs     map[string]map[string]map[string]interface{} // kind -> ns/name -> object
	events   []event
	floor    map[string]int // watches from below this version are answered 410 Gone
	gen      map[string]int // bumped to cut the watches of a kind
	failList map[string]int // number of list requests to fail
	refuse   map[string]bool
	srv      *httptest.Server
	calls    map[string]bool // "verb group/resource namespace" of every call
	lists    int64
	watches  int64
}

func newCluster() *Cluster {
	c := &Cluster{rv: 10, objs: map[string]map[string]map[string]interface{}{}, floor: map[string]int{}, gen: map[string]int{}, failList: map[string]int{}, refuse: map[string]bool{}, calls: map[string]bool{}}
	for _, k := range append([]string{kSecret}, crdKinds...) {
		c.objs[k] = map[string]map[string]interface{}{}
	}
	c.cond = sync.NewCond(&c.mu)
	c.srv = httptest.NewServer(http.HandlerFunc(c.serve))
	return c
}

// nextLocked moves to the next version; other objects of the cluster took some in between.
func (c *Cluster) nextLocked() { c.rv += 1 + c.rv*7919%13 }

// pass lets other objects of the cluster change n times.
func (c *Cluster) pass(n int) {
	c.mu.Lock()
	c.rv += n
	c.mu.Unlock()
}

// put creates or updates an object; spec is any JSON-able value.
func (c *Cluster) put(kind, ns, name string, spec interface{}) {
	var sp interface{}
	if err := json.Unmarshal([]byte(mustJSON(spec)), &sp); err != nil {
		panic(err)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.putLocked(kind, ns, name, map[string]interface{}{"spec": sp})
}

func (c *Cluster) putLocked(kind, ns, name string, body map[string]interface{}) map[string]interface{} {
	c.nextLocked()
	api := "security.cloud.ibm.com/v1"
	if kind == kSecret {
		api = "v1"
	}
	key := ns + "/" + name
	// metadata as a cluster keeps it: of the object, not of the request
	md := map[string]interface{}{"uid": fmt.Sprintf("uid-%d", c.rv), "generation": 1, "creationTimestamp": "2020-01-01T00:00:00Z"}
	if old, ok := c.objs[kind][key]; ok {
		for k, v := range old["metadata"].(map[string]interface{}) {
			md[k] = v
		}
		if mustJSON(old["spec"]) != mustJSON(body["spec"]) {
			md["generation"] = md["generation"].(int) + 1
		}
	}
	md["name"], md["namespace"], md["resourceVersion"] = name, ns, strconv.Itoa(c.rv)
	switch c.rv % 4 {
	case 0:
		md["labels"] = map[string]interface{}{"app": name, "env": "x"}
	case 1:
		md["annotations"] = map[string]interface{}{"kubectl.kubernetes.io/last-applied-configuration": mustJSON(body["spec"])}
	}
	o := map[string]interface{}{"apiVersion": api, "kind": kindName[kind], "metadata": md}
	for k, v := range body {
		o[k] = v
	}
	typ := "ADDED"
	if _, ok := c.objs[kind][key]; ok {
		typ = "MODIFIED"
	}
	c.objs[kind][key] = o
	c.events = append(c.events, event{c.rv, typ, kind, o})
	c.cond.Broadcast()
	return o
}

// touch changes an object's metadata only: "label", "annotate", or "terminate" (its deletion is
// asked for, but a finalizer still keeps it).
func (c *Cluster) touch(kind, ns, name, how string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	old, ok := c.objs[kind][ns+"/"+name]
	if !ok {
		return
	}
	o := c.putLocked(kind, ns, name, map[string]interface{}{"spec": old["spec"]})
	md := o["metadata"].(map[string]interface{})
	switch how {
	case "label":
		md["labels"] = map[string]interface{}{"touched": strconv.Itoa(c.rv)}
	case "annotate":
		md["annotations"] = map[string]interface{}{"touched": strconv.Itoa(c.rv)}
	case "terminate":
		md["finalizers"] = []string{"example.com/keep"}
		md["deletionGracePeriodSeconds"], md["deletionTimestamp"] = 0, "2020-01-01T00:01:00Z"
		md["generation"] = md["generation"].(int) + 1
	}
}

// del removes an object.
func (c *Cluster) del(kind, ns, name string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	key := ns + "/" + name
	old, ok := c.objs[kind][key]
	if !ok {
		return
	}
	c.nextLocked()
	delete(c.objs[kind], key)
	o := map[string]interface{}{}
	for k, v := range old {
		o[k] = v
	}
	md := map[string]interface{}{}
	for k, v := range old["metadata"].(map[string]interface{}) {
		md[k] = v
	}
	md["resourceVersion"] = strconv.Itoa(c.rv)
	o["metadata"] = md
	c.events = append(c.events, event{c.rv, "DELETED", kind, o})
	c.cond.Broadcast()
}

// dropWatches cuts the open watches of a kind (the client resumes from its last version).
func (c *Cluster) dropWatches(kind string) {
	c.mu.Lock()
	c.gen[kind]++
	c.cond.Broadcast()
	c.mu.Unlock()
}

// expireWatches cuts the watches and forgets history: the client must list again.
func (c *Cluster) expireWatches(kind string) {
	c.mu.Lock()
	c.rv++
	c.gen[kind]++
	c.floor[kind] = c.rv
	c.cond.Broadcast()
	c.mu.Unlock()
}

// refuseWatches makes list and watch fail until allowed again.
func (c *Cluster) refuseWatches(kind string, on bool) {
	c.mu.Lock()
	c.refuse[kind] = on
	if on {
		c.gen[kind]++
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}

// compact drops history nobody needs any more, to bound memory.
func (c *Cluster) compact() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.events) > 60000 {
		c.events = append([]event(nil), c.events[len(c.events)-30000:]...)
	}
}

func writeJSON(w http.ResponseWriter, code int, v interface{}) {
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(code)
	_ = json.NewEncoder(w).Encode(v)
}

func statusObj(code int, reason, msg string) map[string]interface{} {
	return map[string]interface{}{"kind": "Status", "apiVersion": "v1", "metadata": map[string]interface{}{}, "status": "Failure", "message": msg, "reason": reason, "code": code}
}

func (c *Cluster) serve(w http.ResponseWriter, r *http.Request) {
	p := strings.Trim(r.URL.Path, "/")
	c.note(r, p)
	switch {
	case strings.HasPrefix(p, "apis/security.cloud.ibm.com/v1/"):
		rest := strings.Split(strings.TrimPrefix(p, "apis/security.cloud.ibm.com/v1/"), "/")
		if len(rest) == 1 && kindName[rest[0]] != "" && r.Method == "GET" {
			if q := r.URL.Query(); q.Get("watch") == "true" || q.Get("watch") == "1" {
				c.watch(w, r, rest[0])
			} else {
				c.list(w, rest[0])
			}
			return
		}
	case strings.HasPrefix(p, "api/v1/namespaces/"):
		rest := strings.Split(strings.TrimPrefix(p, "api/v1/namespaces/"), "/")
		if len(rest) >= 2 && rest[1] == kSecret {
			c.secrets(w, r, rest[0], rest[2:])
			return
		}
	}
	writeJSON(w, 404, statusObj(404, "NotFound", "no such resource "+p))
}

// note records a call in the terms access rules use.
func (c *Cluster) note(r *http.Request, p string) {
	parts := strings.Split(p, "/")
	group := ""
	switch {
	case parts[0] == "apis" && len(parts) > 3:
		group, parts = parts[1], parts[3:]
	case parts[0] == "api" && len(parts) > 2:
		parts = parts[2:]
	default:
		return // not about objects
	}
	ns := ""
	if parts[0] == "namespaces" && len(parts) > 2 {
		ns, parts = parts[1], parts[2:]
	}
	verb := map[string]string{"GET": "list", "POST": "create", "PUT": "update", "PATCH": "patch", "DELETE": "deletecollection"}[r.Method]
	if len(parts) > 1 {
		verb = map[string]string{"GET": "get", "PUT": "update", "PATCH": "patch", "DELETE": "delete"}[r.Method]
	} else if q := r.URL.Query().Get("watch"); r.Method == "GET" && (q == "true" || q == "1") {
		verb = "watch"
	}
	c.mu.Lock()
	c.calls[verb+" "+group+"/"+parts[0]+" "+ns] = true
	c.mu.Unlock()
}

func (c *Cluster) secrets(w http.ResponseWriter, r *http.Request, ns string, rest []string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	switch {
	case r.Method == "GET" && len(rest) == 1:
		if o, ok := c.objs[kSecret][ns+"/"+rest[0]]; ok {
			writeJSON(w, 200, o)
			return
		}
		writeJSON(w, 404, statusObj(404, "NotFound", "secret not found"))
	case r.Method == "POST" && len(rest) == 0:
		var o map[string]interface{}
		b, _ := io.ReadAll(r.Body)
		if json.Unmarshal(b, &o) != nil {
			writeJSON(w, 400, statusObj(400, "BadRequest", "bad body"))
			return
		}
		md, _ := o["metadata"].(map[string]interface{})
		name, _ := md["name"].(string)
		if _, ok := c.objs[kSecret][ns+"/"+name]; ok {
			writeJSON(w, 409, statusObj(409, "AlreadyExists", "secret exists"))
			return
		}
		writeJSON(w, 201, c.putLocked(kSecret, ns, name, map[string]interface{}{"data": o["data"]}))
	default:
		writeJSON(w, 405, statusObj(405, "MethodNotAllowed", "unsupported"))
	}
}

func (c *Cluster) list(w http.ResponseWriter, kind string) {
	atomic.AddInt64(&c.lists, 1)
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.refuse[kind] || c.failList[kind] > 0 {
		c.failList[kind]--
		writeJSON(w, 500, statusObj(500, "InternalError", "list failed"))
		return
	}
	keys := []string{}
	for k := range c.objs[kind] {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	items := []interface{}{}
	for _, k := range keys {
		items = append(items, c.objs[kind][k])
	}
	writeJSON(w, 200, map[string]interface{}{"kind": kindName[kind] + "List", "apiVersion": "security.cloud.ibm.com/v1",
		"metadata": map[string]interface{}{"resourceVersion": strconv.Itoa(c.rv)}, "items": items})
}

func (c *Cluster) watch(w http.ResponseWriter, r *http.Request, kind string) {
	atomic.AddInt64(&c.watches, 1)
	from, _ := strconv.Atoi(r.URL.Query().Get("resourceVersion"))
	fl := w.(http.Flusher)
	c.mu.Lock()
	if c.refuse[kind] {
		c.mu.Unlock()
		writeJSON(w, 500, statusObj(500, "InternalError", "watch refused"))
		return
	}
	gen := c.gen[kind]
	if from < c.floor[kind] {
		c.mu.Unlock()
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(200)
		_ = json.NewEncoder(w).Encode(map[string]interface{}{"type": "ERROR", "object": statusObj(410, "Expired", "too old resource version")})
		fl.Flush()
		return
	}
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(200)
	fl.Flush()
	ctx := r.Context()
	go func() { // wake the loop when the client leaves
		<-ctx.Done()
		c.mu.Lock()
		c.cond.Broadcast()
		c.mu.Unlock()
	}()
	enc := json.NewEncoder(w)
	// events are ordered by version: find where to start
	for {
		if c.gen[kind] != gen || ctx.Err() != nil {
			c.mu.Unlock()
			return
		}
		i := sort.Search(len(c.events), func(i int) bool { return c.events[i].rv > from })
		var batch []event
		for _, e := range c.events[i:] {
			if e.kind == kind {
				batch = append(batch, e)
			}
			from = e.rv
		}
		if len(batch) == 0 {
			c.cond.Wait()
			continue
		}
		c.mu.Unlock()
		for _, e := range batch {
			if enc.Encode(map[string]interface{}{"type": e.typ, "object": e.obj}) != nil {
				return
			}
		}
		fl.Flush()
		c.mu.Lock()
	}
}

// ------------------------------------------------------------------ the adapter

// Live is a running adapter connected to a fake cluster.
type Live struct {
	c   *Cluster
	srv adapter.Server
	h   authnz.HandleAuthnZServiceServer
	seq int64
	nop *Tenant
}

var liveMu sync.Mutex // KUBECONFIG is process-wide

func startAdapter(t testing.TB, c *Cluster) *Live {
	t.Helper()
	liveMu.Lock()
	defer liveMu.Unlock()
	for _, v := range []string{"KUBERNETES_SERVICE_HOST", "KUBERNETES_SERVICE_PORT"} {
		os.Unsetenv(v)
	}
	f, err := os.CreateTemp("", "kubeconfig")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	fmt.Fprintf(f, `{"apiVersion":"v1","kind":"Config","current-context":"x","clusters":[{"name":"x","cluster":{"server":%q}}],"users":[{"name":"x","user":{}}],"contexts":[{"name":"x","context":{"cluster":"x","user":"x"}}]}`, c.srv.URL)
	f.Close()
	os.Setenv("KUBECONFIG", f.Name())
	cfg := config.NewConfig()
	cfg.AdapterPort = 0
	srv, err := adapter.NewAppIDAdapter(cfg)
	if err != nil {
		t.Fatalf("adapter did not start: %v", err)
	}
	h, ok := srv.(authnz.HandleAuthnZServiceServer)
	if !ok {
		t.Fatalf("adapter does not implement the authorization service")
	}
	return &Live{c: c, srv: srv, h: h, nop: newTenant()}
}

// do sends one request to the authorization service.
func (l *Live) do(r *authnz.HandleAuthnZRequest) Answer { return l.call(context.Background(), r) }

func (l *Live) call(ctx context.Context, r *authnz.HandleAuthnZRequest) Answer {
	if r != nil && r.DedupId == "" {
		r.DedupId = strconv.FormatInt(atomic.AddInt64(&calls, 1), 36) // Mixer's differ
	}
	out := make(chan Answer, 1)
	var crash interface{}
	go func() {
		defer func() {
			if crash = recover(); crash != nil {
				close(out)
			}
		}()
		out <- answer(l.h.HandleAuthnZ(ctx, r))
	}()
	d := secs(90) // no provider is waited for that long
	if hung.Load() {
		d = secs(2)
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case a, ok := <-out:
		if !ok {
			panic(crash)
		}
		return a
	case <-t.C:
		hung.Store(true)
		return Answer{Err: "the call does not come to an end"}
	}
}

var calls int64

// circumstances draws the context of a call. Ended: nobody waits for its answer any more.
func circumstances(t *rapid.T) (ctx context.Context, what string, ended bool) {
	ctx = context.Background()
	switch rapid.IntRange(0, 19).Draw(t, "call") {
	case 1:
		c, cancel := context.WithCancel(ctx)
		cancel()
		return c, "cancelled", true
	case 2:
		c, cancel := context.WithDeadline(ctx, time.Now().Add(-time.Hour))
		cancel()
		return c, "late", true
	case 3:
		k, v := strings.ToLower(spiced(t, "metadata-key", "x-y", isCookieName)), spiced(t, "metadata-value", "true", isPrintable)
		return metadata.NewIncomingContext(ctx, metadata.Pairs(k, v)), "with metadata " + k + ": " + v, false
	}
	return ctx, "", false
}

const syncNS = "zz-sync"

// sync waits until the adapter has processed everything done to the cluster so far:
// sentinel objects travel the same ordered way, twice. False: it never arrived.
func (l *Live) sync() bool { return l.syncFor(45 * time.Second) }

func (l *Live) syncFor(d time.Duration) bool {
	deadline := time.Now().Add(d)
	for i := 0; i < 2; i++ {
		if !l.sentinel(deadline) {
			return false
		}
	}
	l.c.compact()
	return true
}

// sync1 is enough while no list is going on and no object changed twice since the last sync
// (a change that arrives while the same object is being processed goes to the end of the queue).
func (l *Live) sync1() bool {
	ok := l.sentinel(time.Now().Add(45 * time.Second))
	l.c.compact()
	return ok
}

func (l *Live) sentinel(deadline time.Time) bool {
	n := fmt.Sprint(atomic.AddInt64(&l.seq, 1))
	l.c.put(kJwt, syncNS, "j"+n, map[string]interface{}{"jwksUrl": l.nop.url(epJwks)})
	l.c.put(kOidc, syncNS, "o"+n, map[string]interface{}{"clientId": "sync", "discoveryUrl": l.nop.url(epDiscovery), "clientSecret": "s"})
	pol := func(path, typ, cfg string) map[string]interface{} {
		return map[string]interface{}{"exact": path, "policies": []interface{}{map[string]interface{}{"policyType": typ, "config": cfg}}}
	}
	l.c.put(kPolicy, syncNS, "p"+n, map[string]interface{}{"targets": []interface{}{map[string]interface{}{"serviceName": "sync",
		"paths": []interface{}{pol("/j"+n, "jwt", "j"+n), pol("/o"+n, "oidc", "o"+n)}}}})
	arrived := func(path string) bool {
		for i := 0; ; i++ {
			a := l.do(Req{NS: syncNS, Svc: "sync", Method: "GET", Path: path}.msg())
			if a.Err == "" && !a.OK() {
				return true
			}
			if time.Now().After(deadline) {
				return false
			}
			if i < 50 {
				time.Sleep(200 * time.Microsecond)
			} else {
				time.Sleep(5 * time.Millisecond)
			}
		}
	}
	ok := arrived("/j"+n) && arrived("/o"+n)
	l.c.del(kJwt, syncNS, "j"+n)
	l.c.del(kOidc, syncNS, "o"+n)
	l.c.del(kPolicy, syncNS, "p"+n)
	return ok
}
