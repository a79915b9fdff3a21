package harness

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	apierr "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/apimachinery/pkg/watch"
	"k8s.io/client-go/rest"
	"k8s.io/client-go/tools/cache"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/clientset/versioned"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/informers/externalversions"
	listers "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/listers/policies/v1"
)

// ------------------------------------------------------------------ documents as the CRDs allow them

func genWord(rt *rapid.T, label string) string {
	return rapid.OneOf(rapid.SampledFrom([]string{"a", "x-1", "GET", "client", "ä€", "with space", `q"uo\te`, "<&>"}), rapid.StringN(1, 12, -1)).Draw(rt, label)
}

func genWords(rt *rapid.T, label string, min int) []interface{} {
	out := []interface{}{}
	for n := rapid.IntRange(min, 3).Draw(rt, label+"-n"); n > 0; n-- {
		out = append(out, genWord(rt, label))
	}
	return out
}

func genSpecDoc(rt *rapid.T, kind string) doc {
	opt := func(d doc, k string, f func() interface{}) {
		if rapid.IntRange(0, 2).Draw(rt, "has-"+k) > 0 {
			d[k] = f()
		}
	}
	word := func(label string) func() interface{} {
		return func() interface{} { return genWord(rt, label) }
	}
	one := func(label string, vals ...string) func() interface{} {
		return func() interface{} { return rapid.SampledFrom(vals).Draw(rt, label) }
	}
	list := func(min, max int, label string, f func() interface{}) []interface{} {
		out := []interface{}{}
		for n := rapid.IntRange(min, max).Draw(rt, label); n > 0; n-- {
			out = append(out, f())
		}
		return out
	}
	d := doc{}
	switch kind {
	case kJwt:
		d["jwksUrl"] = "https://" + genWord(rt, "jwks")
	case kOidc:
		d["clientId"], d["discoveryUrl"] = genWord(rt, "id"), "https://"+genWord(rt, "disc")
		opt(d, "authMethod", one("method", "client_secret_basic", "client_secret_post"))
		opt(d, "clientSecret", word("secret"))
		opt(d, "clientSecretRef", func() interface{} {
			return doc{"name": genWord(rt, "ref-name"), "key": genWord(rt, "ref-key")}
		})
		opt(d, "scopes", func() interface{} { return genWords(rt, "scope", 1) })
	case kPolicy:
		d["targets"] = list(0, 3, "targets", func() interface{} {
			return doc{"serviceName": genWord(rt, "svc"), "paths": list(0, 3, "paths", func() interface{} {
				p := doc{}
				opt(p, "exact", word("exact"))
				opt(p, "prefix", word("prefix"))
				opt(p, "method", one("m", "ALL", "GET", "DELETE", "POST", "PUT"))
				opt(p, "policies", func() interface{} {
					return list(0, 2, "policies", func() interface{} {
						pp := doc{"policyType": rapid.SampledFrom([]string{"jwt", "oidc"}).Draw(rt, "type"), "config": genWord(rt, "config")}
						opt(pp, "redirectUri", word("redirect"))
						opt(pp, "rules", func() interface{} {
							return list(0, 3, "rules", func() interface{} {
								r := doc{"claim": genWord(rt, "claim"), "values": genWords(rt, "value", 0)}
								opt(r, "source", one("source", "access_token", "id_token"))
								opt(r, "match", one("match", "ALL", "ANY", "NOT"))
								return r
							})
						})
						return pp
					})
				})
				return p
			})}
		})
	}
	return d
}

// canon drops what counts as absent: empty strings, null, empty lists and objects in fields.
func canon(x interface{}) interface{} {
	switch v := x.(type) {
	case doc:
		out := doc{}
		for k, e := range v {
			switch c := canon(e).(type) {
			case nil:
			case string:
				if c != "" {
					out[k] = c
				}
			case doc:
				if len(c) > 0 {
					out[k] = c
				}
			case []interface{}:
				if len(c) > 0 {
					out[k] = c
				}
			default:
				out[k] = c
			}
		}
		return out
	case []interface{}:
		out := []interface{}{}
		for _, e := range v {
			c := canon(e)
			if c == nil {
				c = doc{}
			}
			out = append(out, c)
		}
		return out
	}
	return x
}

func canonText(x interface{}) string {
	var y interface{}
	if err := json.Unmarshal([]byte(mustJSON(x)), &y); err != nil {
		panic(err)
	}
	return mustJSON(canon(y))
}

// specOf writes an object's spec under the documented names, by hand.
func specOf(obj interface{}) doc {
	strs := func(in []string) []interface{} {
		out := []interface{}{}
		for _, s := range in {
			out = append(out, s)
		}
		return out
	}
	switch o := obj.(type) {
	case *v1.JwtConfig:
		return doc{"jwksUrl": o.Spec.JwksURL}
	case *v1.OidcConfig:
		s := o.Spec
		return doc{"clientId": s.ClientID, "discoveryUrl": s.DiscoveryURL, "authMethod": s.AuthMethod, "clientSecret": s.ClientSecret,
			"clientSecretRef": doc{"name": s.ClientSecretRef.Name, "key": s.ClientSecretRef.Key}, "scopes": strs(s.Scopes)}
	case *v1.Policy:
		ts := []interface{}{}
		for _, t := range o.Spec.Target {
			ps := []interface{}{}
			for _, p := range t.Paths {
				pols := []interface{}{}
				for _, pp := range p.Policies {
					rules := []interface{}{}
					for _, r := range pp.Rules {
						rules = append(rules, doc{"claim": r.Claim, "values": strs(r.Values), "source": r.Source, "match": r.Match})
					}
					pols = append(pols, doc{"policyType": pp.PolicyType, "config": pp.Config, "redirectUri": pp.RedirectUri, "rules": rules})
				}
				ps = append(ps, doc{"exact": p.Exact, "prefix": p.Prefix, "method": p.Method, "policies": pols})
			}
			ts = append(ts, doc{"serviceName": t.ServiceName, "paths": ps})
		}
		return doc{"targets": ts}
	}
	panic(fmt.Sprintf("%T", obj))
}

func metaOf(obj interface{}) metav1.Object { return obj.(metav1.Object) }

// ------------------------------------------------------------------ one API server per case

// crAPI is a strict API server for the custom resources.
type crAPI struct {
	mu      sync.Mutex
	rv      int
	objs    map[string]doc // "plural/ns/name"
	calls   []string
	events  []doc // what a watch sends
	hold    bool  // a watch then stays open
	selects string
	query   url.Values        // of the last call
	watched map[string]string // what is watched of each kind: namespace and selectors
	body    []byte
}

var (
	crOnce sync.Once
	crSrv  *httptest.Server
	crAPIs sync.Map
	crSeq  int64
)

func newCrAPI() (*crAPI, *rest.Config, func()) {
	crOnce.Do(func() {
		crSrv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			parts := strings.SplitN(strings.TrimPrefix(r.URL.Path, "/"), "/", 2)
			if v, ok := crAPIs.Load(parts[0]); ok && len(parts) == 2 {
				v.(*crAPI).serve(w, r, parts[1])
				return
			}
			http.Error(w, "gone", 404)
		}))
	})
	id := fmt.Sprintf("c%d", atomic.AddInt64(&crSeq, 1))
	a := &crAPI{objs: map[string]doc{}, rv: 5}
	crAPIs.Store(id, a)
	return a, &rest.Config{Host: crSrv.URL + "/" + id, QPS: 1e6, Burst: 1e6}, func() { crAPIs.Delete(id) }
}

func scopeOf(ns, labels, fields string) string {
	return fmt.Sprintf("namespace %q, labels %q, fields %q", ns, labels, fields)
}

func (a *crAPI) serve(w http.ResponseWriter, r *http.Request, path string) {
	a.mu.Lock()
	defer a.mu.Unlock()
	body, _ := io.ReadAll(r.Body)
	a.calls = append(a.calls, r.Method+" "+path)
	const root = "apis/security.cloud.ibm.com/v1/"
	if !strings.HasPrefix(path, root) {
		writeJSON(w, 404, statusObj(404, "NotFound", "no such path"))
		return
	}
	ns, plural, name := "", "", ""
	parts := strings.Split(strings.TrimPrefix(path, root), "/")
	switch {
	case len(parts) == 1:
		plural = parts[0]
	case parts[0] == "namespaces" && len(parts) == 3:
		ns, plural = parts[1], parts[2]
	case parts[0] == "namespaces" && len(parts) == 4, parts[0] == "namespaces" && len(parts) == 5 && r.Method == "PATCH" && parts[4] == "status":
		ns, plural, name = parts[1], parts[2], parts[3]
	}
	if kindName[plural] == "" || plural == kSecret {
		writeJSON(w, 404, statusObj(404, "NotFound", "no such resource"))
		return
	}
	key := plural + "/" + ns + "/" + name
	var in doc
	if len(body) > 0 {
		_ = json.Unmarshal(body, &in)
	}
	a.selects = r.URL.Query().Get("labelSelector")
	a.query, a.body = r.URL.Query(), body
	sel, _ := labels.Parse(a.selects)
	selected := func(k string) bool { // by the selectors of the call
		md := a.objs[k]["metadata"].(doc)
		ls := labels.Set{}
		if m, ok := md["labels"].(doc); ok {
			for n, v := range m {
				ls[n] = fmt.Sprint(v)
			}
		}
		p := strings.SplitN(k, "/", 3)
		switch f := strings.SplitN(a.query.Get("fieldSelector"), "=", 2); f[0] {
		case "metadata.name":
			if p[2] != f[1] {
				return false
			}
		case "metadata.namespace":
			if p[1] != f[1] {
				return false
			}
		}
		return p[0] == plural && (ns == "" || p[1] == ns) && (sel == nil || sel.Matches(ls))
	}
	store := func(o doc, key, nm string) doc {
		a.rv++
		md, _ := o["metadata"].(doc)
		if md == nil {
			md = doc{}
			o["metadata"] = md
		}
		md["resourceVersion"], md["namespace"], md["name"] = strconv.Itoa(a.rv), ns, nm
		o["kind"], o["apiVersion"] = kindName[plural], "security.cloud.ibm.com/v1"
		a.objs[key] = o
		return o
	}
	switch {
	case r.Method == "POST" && name == "" && ns != "":
		md, _ := in["metadata"].(doc)
		nm, _ := md["name"].(string)
		if nm == "" {
			writeJSON(w, 422, statusObj(422, "Invalid", "no name"))
			return
		}
		if a.objs[key+nm] != nil {
			writeJSON(w, 409, statusObj(409, "AlreadyExists", "exists"))
			return
		}
		writeJSON(w, 201, store(in, key+nm, nm))
	case name == "" && r.Method == "GET" && (r.URL.Query().Get("watch") == "true" || r.URL.Query().Get("watch") == "1"):
		if a.watched == nil {
			a.watched = map[string]string{}
		}
		a.watched[plural] = scopeOf(ns, a.selects, a.query.Get("fieldSelector"))
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(200)
		for _, e := range a.events {
			_ = json.NewEncoder(w).Encode(e)
		}
		w.(http.Flusher).Flush()
		if a.hold {
			a.mu.Unlock()
			<-r.Context().Done()
			a.mu.Lock()
		}
	case name == "" && r.Method == "GET":
		items := []interface{}{}
		keys := []string{}
		for k := range a.objs {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if selected(k) {
				items = append(items, a.objs[k])
			}
		}
		writeJSON(w, 200, doc{"kind": kindName[plural] + "List", "apiVersion": "security.cloud.ibm.com/v1", "metadata": doc{"resourceVersion": strconv.Itoa(a.rv)}, "items": items})
	case name == "" && r.Method == "DELETE" && ns != "":
		for k := range a.objs {
			if selected(k) {
				delete(a.objs, k)
			}
		}
		writeJSON(w, 200, doc{"kind": "Status", "apiVersion": "v1", "status": "Success"})
	case name != "" && a.objs[key] == nil:
		writeJSON(w, 404, statusObj(404, "NotFound", "not found"))
	case r.Method == "GET":
		writeJSON(w, 200, a.objs[key])
	case r.Method == "PUT":
		writeJSON(w, 200, store(in, key, name))
	case r.Method == "DELETE":
		delete(a.objs, key)
		writeJSON(w, 200, doc{"kind": "Status", "apiVersion": "v1", "status": "Success"})
	case r.Method == "PATCH":
		var cur doc
		_ = json.Unmarshal([]byte(mustJSON(a.objs[key])), &cur)
		switch ct := r.Header.Get("Content-Type"); {
		case ct == string(types.MergePatchType) && in != nil:
			merge(cur, in)
		case ct == string(types.JSONPatchType):
			var ops []doc
			if json.Unmarshal(body, &ops) != nil || len(ops) != 1 || ops[0]["op"] != "add" || ops[0]["path"] != "/metadata/annotations" {
				writeJSON(w, 400, statusObj(400, "BadRequest", "not the patch"))
				return
			}
			cur["metadata"].(doc)["annotations"] = ops[0]["value"]
		default:
			writeJSON(w, 415, statusObj(415, "UnsupportedMediaType", ct))
			return
		}
		writeJSON(w, 200, store(cur, key, name))
	default:
		writeJSON(w, 405, statusObj(405, "MethodNotAllowed", "unsupported"))
	}
}

// merge applies a JSON merge patch.
func merge(into, patch doc) {
	for k, v := range patch {
		if v == nil {
			delete(into, k)
		} else if p, ok := v.(doc); ok {
			cur, ok := into[k].(doc)
			if !ok {
				cur = doc{}
				into[k] = cur
			}
			merge(cur, p)
		} else {
			into[k] = v
		}
	}
}

func (a *crAPI) lastQuery() url.Values {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.query
}

// lacks says what of the options the last call's body lacks.
func (a *crAPI) lacks(want doc) string {
	a.mu.Lock()
	defer a.mu.Unlock()
	var got doc
	_ = json.Unmarshal(a.body, &got)
	for _, k := range []string{"propagationPolicy", "gracePeriodSeconds"} {
		if got[k] != want[k] {
			return fmt.Sprintf("%s is %v at the API, given %v", k, got[k], want[k])
		}
	}
	return ""
}

func (a *crAPI) get(kind, ns, name string) doc {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.objs[kind+"/"+ns+"/"+name]
}

// ------------------------------------------------------------------ the typed client, one kind at a time

type kindClient struct {
	create  func(ns string, o interface{}) (interface{}, error)
	update  func(ns string, o interface{}) (interface{}, error)
	get     func(ns, name string, o metav1.GetOptions) (interface{}, error)
	list    func(ns string, o metav1.ListOptions) ([]interface{}, error)
	del     func(ns, name string, o *metav1.DeleteOptions) error
	delAll  func(ns string, d *metav1.DeleteOptions, o metav1.ListOptions) error
	patch   func(ns, name string, pt types.PatchType, b []byte, sub ...string) (interface{}, error)
	watch   func(ns string, o metav1.ListOptions) (watch.Interface, error)
	decode  func(b []byte) interface{}
	sample  interface{}
	listAll func(ix cache.Indexer, sel labels.Selector) ([]interface{}, error)
	listNS  func(ix cache.Indexer, ns string, sel labels.Selector) ([]interface{}, error)
	getNS   func(ix cache.Indexer, ns, name string) (interface{}, error)
	inform  func(f externalversions.SharedInformerFactory) cache.SharedIndexInformer
}

func clientsOf(cs versioned.Interface) map[string]kindClient {
	dec := func(into interface{}, b []byte) interface{} {
		if err := json.Unmarshal(b, into); err != nil {
			panic(err)
		}
		return into
	}
	pol, jw, oi := cs.AppidV1().Policies, cs.AppidV1().JwtConfigs, cs.AppidV1().OidcConfigs
	return map[string]kindClient{
		kPolicy: {
			create: func(ns string, o interface{}) (interface{}, error) { return pol(ns).Create(o.(*v1.Policy)) },
			update: func(ns string, o interface{}) (interface{}, error) { return pol(ns).Update(o.(*v1.Policy)) },
			get:    func(ns, n string, o metav1.GetOptions) (interface{}, error) { return pol(ns).Get(n, o) },
			list: func(ns string, o metav1.ListOptions) (out []interface{}, err error) {
				l, err := pol(ns).List(o)
				if err == nil {
					for i := range l.Items {
						out = append(out, &l.Items[i])
					}
				}
				return
			},
			del: func(ns, n string, o *metav1.DeleteOptions) error { return pol(ns).Delete(n, o) },
			delAll: func(ns string, d *metav1.DeleteOptions, o metav1.ListOptions) error {
				return pol(ns).DeleteCollection(d, o)
			},
			patch: func(ns, n string, pt types.PatchType, b []byte, sub ...string) (interface{}, error) {
				return pol(ns).Patch(n, pt, b, sub...)
			},
			watch:  func(ns string, o metav1.ListOptions) (watch.Interface, error) { return pol(ns).Watch(o) },
			decode: func(b []byte) interface{} { return dec(&v1.Policy{}, b) },
			sample: &v1.Policy{},
			listAll: func(ix cache.Indexer, sel labels.Selector) (out []interface{}, err error) {
				l, err := listers.NewPolicyLister(ix).List(sel)
				for _, x := range l {
					out = append(out, x)
				}
				return
			},
			listNS: func(ix cache.Indexer, ns string, sel labels.Selector) (out []interface{}, err error) {
				l, err := listers.NewPolicyLister(ix).Policies(ns).List(sel)
				for _, x := range l {
					out = append(out, x)
				}
				return
			},
			getNS: func(ix cache.Indexer, ns, n string) (interface{}, error) {
				return listers.NewPolicyLister(ix).Policies(ns).Get(n)
			},
			inform: func(f externalversions.SharedInformerFactory) cache.SharedIndexInformer {
				return f.Appid().V1().Policies().Informer()
			},
		},
		kJwt: {
			create: func(ns string, o interface{}) (interface{}, error) { return jw(ns).Create(o.(*v1.JwtConfig)) },
			update: func(ns string, o interface{}) (interface{}, error) { return jw(ns).Update(o.(*v1.JwtConfig)) },
			get:    func(ns, n string, o metav1.GetOptions) (interface{}, error) { return jw(ns).Get(n, o) },
			list: func(ns string, o metav1.ListOptions) (out []interface{}, err error) {
				l, err := jw(ns).List(o)
				if err == nil {
					for i := range l.Items {
						out = append(out, &l.Items[i])
					}
				}
				return
			},
			del: func(ns, n string, o *metav1.DeleteOptions) error { return jw(ns).Delete(n, o) },
			delAll: func(ns string, d *metav1.DeleteOptions, o metav1.ListOptions) error {
				return jw(ns).DeleteCollection(d, o)
			},
			patch: func(ns, n string, pt types.PatchType, b []byte, sub ...string) (interface{}, error) {
				return jw(ns).Patch(n, pt, b, sub...)
			},
			watch:  func(ns string, o metav1.ListOptions) (watch.Interface, error) { return jw(ns).Watch(o) },
			decode: func(b []byte) interface{} { return dec(&v1.JwtConfig{}, b) },
			sample: &v1.JwtConfig{},
			listAll: func(ix cache.Indexer, sel labels.Selector) (out []interface{}, err error) {
				l, err := listers.NewJwtConfigLister(ix).List(sel)
				for _, x := range l {
					out = append(out, x)
				}
				return
			},
			listNS: func(ix cache.Indexer, ns string, sel labels.Selector) (out []interface{}, err error) {
				l, err := listers.NewJwtConfigLister(ix).JwtConfigs(ns).List(sel)
				for _, x := range l {
					out = append(out, x)
				}
				return
			},
			getNS: func(ix cache.Indexer, ns, n string) (interface{}, error) {
				return listers.NewJwtConfigLister(ix).JwtConfigs(ns).Get(n)
			},
			inform: func(f externalversions.SharedInformerFactory) cache.SharedIndexInformer {
				return f.Appid().V1().JwtConfigs().Informer()
			},
		},
		kOidc: {
			create: func(ns string, o interface{}) (interface{}, error) { return oi(ns).Create(o.(*v1.OidcConfig)) },
			update: func(ns string, o interface{}) (interface{}, error) { return oi(ns).Update(o.(*v1.OidcConfig)) },
			get:    func(ns, n string, o metav1.GetOptions) (interface{}, error) { return oi(ns).Get(n, o) },
			list: func(ns string, o metav1.ListOptions) (out []interface{}, err error) {
				l, err := oi(ns).List(o)
				if err == nil {
					for i := range l.Items {
						out = append(out, &l.Items[i])
					}
				}
				return
			},
			del: func(ns, n string, o *metav1.DeleteOptions) error { return oi(ns).Delete(n, o) },
			delAll: func(ns string, d *metav1.DeleteOptions, o metav1.ListOptions) error {
				return oi(ns).DeleteCollection(d, o)
			},
			patch: func(ns, n string, pt types.PatchType, b []byte, sub ...string) (interface{}, error) {
				return oi(ns).Patch(n, pt, b, sub...)
			},
			watch:  func(ns string, o metav1.ListOptions) (watch.Interface, error) { return oi(ns).Watch(o) },
			decode: func(b []byte) interface{} { return dec(&v1.OidcConfig{}, b) },
			sample: &v1.OidcConfig{},
			listAll: func(ix cache.Indexer, sel labels.Selector) (out []interface{}, err error) {
				l, err := listers.NewOidcConfigLister(ix).List(sel)
				for _, x := range l {
					out = append(out, x)
				}
				return
			},
			listNS: func(ix cache.Indexer, ns string, sel labels.Selector) (out []interface{}, err error) {
				l, err := listers.NewOidcConfigLister(ix).OidcConfigs(ns).List(sel)
				for _, x := range l {
					out = append(out, x)
				}
				return
			},
			getNS: func(ix cache.Indexer, ns, n string) (interface{}, error) {
				return listers.NewOidcConfigLister(ix).OidcConfigs(ns).Get(n)
			},
			inform: func(f externalversions.SharedInformerFactory) cache.SharedIndexInformer {
				return f.Appid().V1().OidcConfigs().Informer()
			},
		},
	}
}

// same compares an object with the document it must show.
func same(kind, ns, name string, obj interface{}, want doc, kc kindClient) string {
	if obj == nil || reflect.TypeOf(obj) != reflect.TypeOf(kc.sample) || reflect.ValueOf(obj).IsNil() {
		return fmt.Sprintf("is a %T, want %T", obj, kc.sample)
	}
	m := metaOf(obj)
	if m.GetNamespace() != ns || m.GetName() != name {
		return fmt.Sprintf("is %s/%s, want %s/%s", m.GetNamespace(), m.GetName(), ns, name)
	}
	if got, w := canonText(specOf(obj)), canonText(want["spec"]); got != w {
		return fmt.Sprintf("reads %s, the API holds %s", got, w)
	}
	md, _ := want["metadata"].(doc)
	for what, got := range map[string]interface{}{"labels": m.GetLabels(), "annotations": m.GetAnnotations(), "finalizers": m.GetFinalizers()} {
		if g, w := canonText(doc{"x": got}), canonText(doc{"x": md[what]}); g != w {
			return fmt.Sprintf("%s read %s, the API holds %s", what, g, w)
		}
	}
	return ""
}

func genMeta(rt *rapid.T) doc {
	md := doc{}
	for _, k := range []string{"labels", "annotations"} {
		if rapid.Bool().Draw(rt, k) {
			m := doc{}
			for n := rapid.IntRange(1, 2).Draw(rt, k+"-n"); n > 0; n-- {
				m[rapid.SampledFrom([]string{"app", "tier"}).Draw(rt, k+"-key")] = rapid.SampledFrom([]string{"a", "b"}).Draw(rt, k+"-value")
			}
			md[k] = m
		}
	}
	if rapid.IntRange(0, 3).Draw(rt, "finalizers") == 0 {
		md["finalizers"] = []interface{}{"f.example/x"}
	}
	return md
}

func cloneDoc(d doc) doc {
	var out doc
	if err := json.Unmarshal([]byte(mustJSON(d)), &out); err != nil {
		panic(err)
	}
	return out
}

// genListOptions draws options of a list, watch or collection call.
func genListOptions(rt *rapid.T) (o metav1.ListOptions) {
	o.LabelSelector = rapid.SampledFrom([]string{"", "", "app=a", "tier!=b", "app in (a,b),tier"}).Draw(rt, "label-selector")
	o.FieldSelector = rapid.SampledFrom([]string{"", "", "", "metadata.name=x", "metadata.namespace=ns1"}).Draw(rt, "field-selector")
	o.ResourceVersion = rapid.SampledFrom([]string{"", "", "0", "7"}).Draw(rt, "version")
	o.Limit = rapid.SampledFrom([]int64{0, 0, 500}).Draw(rt, "limit")
	o.Continue = rapid.SampledFrom([]string{"", "", "dG9rZW4="}).Draw(rt, "continue")
	if rapid.IntRange(0, 3).Draw(rt, "timeout") == 0 {
		n := int64(25)
		o.TimeoutSeconds = &n
	}
	return o
}

// notSent says which option of a call did not reach the API server.
func notSent(q url.Values, o metav1.ListOptions) string {
	want := map[string]string{"labelSelector": o.LabelSelector, "fieldSelector": o.FieldSelector, "resourceVersion": o.ResourceVersion, "continue": o.Continue}
	if o.Limit > 0 {
		want["limit"] = fmt.Sprint(o.Limit)
	}
	if o.TimeoutSeconds != nil {
		want["timeoutSeconds"] = fmt.Sprint(*o.TimeoutSeconds)
	}
	for _, k := range sortedKeys(want) {
		if q.Get(k) != want[k] {
			return fmt.Sprintf("%s is %q at the API, given %q", k, q.Get(k), want[k])
		}
	}
	return ""
}

// chosen tells whether an object meets the selectors of a call.
func chosen(o metav1.ListOptions, ns, name string, d doc) bool {
	sel, err := labels.Parse(o.LabelSelector)
	if err != nil {
		panic(err)
	}
	ls := labels.Set{}
	if m, ok := d["metadata"].(doc)["labels"].(doc); ok {
		for n, v := range m {
			ls[n] = fmt.Sprint(v)
		}
	}
	switch o.FieldSelector {
	case "metadata.name=x":
		if name != "x" {
			return false
		}
	case "metadata.namespace=ns1":
		if ns != "ns1" {
			return false
		}
	}
	return sel.Matches(ls)
}

func genDeleteOptions(rt *rapid.T) (*metav1.DeleteOptions, doc) {
	if rapid.Bool().Draw(rt, "no-delete-options") {
		return nil, nil
	}
	pp, gp := metav1.DeletePropagationForeground, int64(rapid.IntRange(0, 30).Draw(rt, "grace"))
	return &metav1.DeleteOptions{PropagationPolicy: &pp, GracePeriodSeconds: &gp}, doc{"propagationPolicy": "Foreground", "gracePeriodSeconds": float64(gp)}
}

func TestC19(t *testing.T) {
	ev := newEvidence("C19", "documents drawn over everything the custom resource definitions allow; histories of typed-client calls over three kinds, two namespaces and names against a strict API server with a model of its content; watches, informers and listers over drawn objects; deep copies of objects filled by reflection, changed in every reachable place; non-trivial: the object has a nested list or map",
		"an optional field left out counts as empty", "the API server is a stand-in")
	defer ev.Write(t)

	nss, names := []string{"ns1", "ns2"}, []string{"x", "y.z", "Mixed.Case"}

	run(t, ev, "client", 2500, 60000, func(rt *rapid.T) {
		api, cfg, done := newCrAPI()
		defer done()
		cs, err := versioned.NewForConfig(cfg)
		if err != nil {
			rt.Fatalf("client: %v", err)
		}
		kcs := clientsOf(cs)
		model := map[string]doc{}
		var log []string
		fail := func(format string, args ...interface{}) {
			rt.Helper()
			rt.Fatalf("%s%s", fmt.Sprintf(format, args...), history(log))
		}
		for i := rapid.IntRange(2, 10).Draw(rt, "steps"); i > 0; i-- {
			kind := rapid.SampledFrom(crdKinds).Draw(rt, "kind")
			ns, name := rapid.SampledFrom(nss).Draw(rt, "ns"), rapid.SampledFrom(names).Draw(rt, "name")
			key := kind + "/" + ns + "/" + name
			kc := kcs[kind]
			mk := func() (interface{}, doc) {
				d := doc{"metadata": genMeta(rt), "spec": genSpecDoc(rt, kind)}
				md := d["metadata"].(doc)
				md["name"], md["namespace"] = name, ns
				d["kind"], d["apiVersion"] = kindName[kind], "security.cloud.ibm.com/v1"
				return kc.decode([]byte(mustJSON(d))), d
			}
			op := rapid.SampledFrom([]string{"create", "create", "create", "update", "update", "get", "list", "list-all", "select", "delete", "delete-all", "patch", "watch"}).Draw(rt, "op")
			log = append(log, op+" "+key)
			record := func(d doc) {
				s := mustJSON(d["spec"])
				ev.Case(op+key+s, strings.Count(s, "[")+strings.Count(s, "{") > 1, func() interface{} { return map[string]interface{}{"op": op, "object": d} })
				ev.Label(op + " " + kind)
			}
			switch op {
			case "create", "update":
				o, d := mk()
				record(d)
				f := kc.create
				if op == "update" {
					f = kc.update
				}
				got, err := f(ns, o)
				exists := model[key] != nil
				if op == "create" && exists {
					if !apierr.IsAlreadyExists(err) {
						fail("creating it twice: %v", err)
					}
					continue
				}
				if op == "update" && !exists {
					if !apierr.IsNotFound(err) {
						fail("updating what does not exist: %v", err)
					}
					continue
				}
				if err != nil {
					fail("%s fails: %v (calls %q)", op, err, api.calls)
				}
				model[key] = d
				if bad := same(kind, ns, name, got, d, kc); bad != "" {
					fail("the object returned %s", bad)
				}
				held := api.get(kind, ns, name)
				if held == nil {
					fail("it is not where it belongs: %q", api.calls)
				}
				if g, w := canonText(held["spec"]), canonText(d["spec"]); g != w {
					fail("written %s, given %s", g, w)
				}
			case "get":
				gopt := metav1.GetOptions{ResourceVersion: rapid.SampledFrom([]string{"", "", "0", "9"}).Draw(rt, "version")}
				got, err := kc.get(ns, name, gopt)
				if v := api.lastQuery().Get("resourceVersion"); v != gopt.ResourceVersion {
					fail("the version asked for is %q at the API, given %q", v, gopt.ResourceVersion)
				}
				if model[key] == nil {
					if !apierr.IsNotFound(err) {
						fail("there is no such object, but: %v", err)
					}
				} else if err != nil {
					fail("get: %v", err)
				} else if bad := same(kind, ns, name, got, model[key], kc); bad != "" {
					fail("the object %s", bad)
				} else { // and back
					record(model[key])
					if _, err := kc.update(ns, got); err != nil {
						fail("write back: %v", err)
					}
					if g, w := canonText(api.get(kind, ns, name)["spec"]), canonText(model[key]["spec"]); g != w {
						fail("read and written back, it became %s from %s", g, w)
					}
				}
			case "list", "list-all", "select":
				in, opts := ns, metav1.ListOptions{}
				if op == "list-all" {
					in = ""
				}
				if op == "select" {
					in = rapid.SampledFrom([]string{"", ns}).Draw(rt, "in")
					opts = genListOptions(rt)
					log = append(log, fmt.Sprintf("  in %q %+v", in, opts))
				}
				got, err := kc.list(in, opts)
				if err != nil {
					fail("list: %v (calls %q)", err, api.calls)
				}
				if bad := notSent(api.lastQuery(), opts); bad != "" {
					fail("%s", bad)
				}
				var want []string
				for k, d := range model {
					p := strings.SplitN(k, "/", 3)
					if p[0] == kind && (in == "" || p[1] == in) && chosen(opts, p[1], p[2], d) {
						want = append(want, p[1]+"/"+p[2])
					}
				}
				var have []string
				for _, o := range got {
					m := metaOf(o)
					id := m.GetNamespace() + "/" + m.GetName()
					have = append(have, id)
					if d := model[kind+"/"+id]; d == nil {
						fail("it lists %s, which does not exist", id)
					} else if bad := same(kind, m.GetNamespace(), m.GetName(), o, d, kc); bad != "" {
						fail("listed %s %s", id, bad)
					}
				}
				sort.Strings(want)
				sort.Strings(have)
				if fmt.Sprint(want) != fmt.Sprint(have) {
					fail("it lists %v, want %v", have, want)
				}
			case "delete":
				dopt, wantBody := genDeleteOptions(rt)
				err := kc.del(ns, name, dopt)
				if bad := api.lacks(wantBody); bad != "" {
					fail("%s", bad)
				}
				if model[key] == nil && !apierr.IsNotFound(err) || model[key] != nil && err != nil {
					fail("delete: %v", err)
				}
				delete(model, key)
				if api.get(kind, ns, name) != nil {
					fail("it is still there")
				}
			case "delete-all":
				dopt, wantBody := genDeleteOptions(rt)
				opts := genListOptions(rt)
				log = append(log, fmt.Sprintf("  %+v", opts))
				if err := kc.delAll(ns, dopt, opts); err != nil {
					fail("delete collection: %v (calls %q)", err, api.calls)
				}
				if bad := notSent(api.lastQuery(), opts); bad != "" {
					fail("%s", bad)
				}
				if bad := api.lacks(wantBody); bad != "" {
					fail("%s", bad)
				}
				for k, d := range model {
					if p := strings.SplitN(k, "/", 3); p[0] == kind && p[1] == ns && chosen(opts, p[1], p[2], d) {
						delete(model, k)
					}
				}
			case "patch":
				p := doc{"metadata": doc{"annotations": doc{"tier": "patched"}}}
				pt, text := types.MergePatchType, mustJSON(p)
				if rapid.Bool().Draw(rt, "json-patch") {
					pt, text = types.JSONPatchType, `[{"op":"add","path":"/metadata/annotations","value":{"tier":"patched"}}]`
				}
				var sub []string
				if rapid.IntRange(0, 3).Draw(rt, "subresource") == 0 {
					sub = []string{"status"}
				}
				got, err := kc.patch(ns, name, pt, []byte(text), sub...)
				wantCall := "PATCH apis/security.cloud.ibm.com/v1/namespaces/" + ns + "/" + kind + "/" + name
				if sub != nil {
					wantCall += "/status"
				}
				if last := api.calls[len(api.calls)-1]; last != wantCall {
					fail("it calls %s, want %s", last, wantCall)
				}
				if model[key] == nil {
					if !apierr.IsNotFound(err) {
						fail("patching what does not exist: %v", err)
					}
					continue
				}
				if err != nil {
					fail("patch: %v", err)
				}
				d := cloneDoc(model[key])
				if pt == types.JSONPatchType {
					d["metadata"].(doc)["annotations"] = nil
				}
				merge(d, p)
				model[key] = d
				if bad := same(kind, ns, name, got, d, kc); bad != "" {
					fail("patched, it %s", bad)
				}
			case "watch":
				api.mu.Lock()
				api.events = nil
				var want []doc
				var typs []string
				for n := rapid.IntRange(1, 3).Draw(rt, "events"); n > 0; n-- {
					_, d := mk()
					typ := rapid.SampledFrom([]string{"ADDED", "MODIFIED", "DELETED"}).Draw(rt, "event")
					api.events = append(api.events, doc{"type": typ, "object": d})
					want, typs = append(want, d), append(typs, typ)
				}
				api.hold = false
				api.mu.Unlock()
				opts, in := metav1.ListOptions{}, ns
				if rapid.Bool().Draw(rt, "watch-options") {
					opts = genListOptions(rt)
					in = rapid.SampledFrom([]string{"", ns}).Draw(rt, "in")
					log = append(log, fmt.Sprintf("  in %q %+v", in, opts))
				}
				w, err := kc.watch(in, opts)
				if err != nil {
					fail("watch: %v", err)
				}
				if bad := notSent(api.lastQuery(), opts); bad != "" {
					fail("%s", bad)
				}
				for i, d := range want {
					var e watch.Event
					select {
					case e = <-w.ResultChan():
					case <-time.After(20 * time.Second):
						fail("event %d does not arrive", i)
					}
					if string(e.Type) != typs[i] {
						fail("event %d is %s, want %s", i, e.Type, typs[i])
					}
					if bad := same(kind, ns, name, e.Object, d, kc); bad != "" {
						fail("watched, it %s", bad)
					}
					record(d)
				}
				w.Stop()
				api.mu.Lock()
				last := api.calls[len(api.calls)-1]
				api.mu.Unlock()
				want2 := "GET apis/security.cloud.ibm.com/v1/namespaces/" + ns + "/" + kind
				if in == "" {
					want2 = "GET apis/security.cloud.ibm.com/v1/" + kind
				}
				if want := want2; last != want {
					fail("it watches %s, want %s", last, want)
				}
			}
			// nothing else changed
			api.mu.Lock()
			have, want := []string{}, []string{}
			for k := range api.objs {
				have = append(have, k)
			}
			for k := range model {
				want = append(want, k)
			}
			api.mu.Unlock()
			sort.Strings(have)
			sort.Strings(want)
			if fmt.Sprint(have) != fmt.Sprint(want) {
				fail("the API holds %v, want %v", have, want)
			}
		}
	})

	run(t, ev, "listers", 4000, 90000, func(rt *rapid.T) {
		kcs := clientsOf(mustClient())
		kind := rapid.SampledFrom(crdKinds).Draw(rt, "kind")
		kc := kcs[kind]
		ix := cache.NewIndexer(cache.MetaNamespaceKeyFunc, cache.Indexers{cache.NamespaceIndex: cache.MetaNamespaceIndexFunc})
		model := map[string]doc{}
		for _, ns := range nss {
			for _, n := range names {
				if rapid.Bool().Draw(rt, "there") {
					d := doc{"metadata": genMeta(rt), "spec": genSpecDoc(rt, kind)}
					d["metadata"].(doc)["name"], d["metadata"].(doc)["namespace"] = n, ns
					_ = ix.Add(kc.decode([]byte(mustJSON(d))))
					model[ns+"/"+n] = d
				}
			}
		}
		ev.Case(kind+mustJSON(model), len(model) > 1, func() interface{} { return model })
		ev.Label("listers " + kind)
		for _, selText := range []string{"", "app=a", "tier!=b"} {
			sel, err := labels.Parse(selText)
			if err != nil {
				rt.Fatal(err)
			}
			for _, ns := range append([]string{""}, nss...) {
				var got []interface{}
				if ns == "" {
					got, err = kc.listAll(ix, sel)
				} else {
					got, err = kc.listNS(ix, ns, sel)
				}
				if err != nil {
					rt.Fatalf("list: %v", err)
				}
				want, have := []string{}, []string{}
				for k, d := range model {
					ls := labels.Set{}
					if m, ok := d["metadata"].(doc)["labels"].(doc); ok {
						for n, v := range m {
							ls[n] = v.(string)
						}
					}
					if (ns == "" || strings.HasPrefix(k, ns+"/")) && sel.Matches(ls) {
						want = append(want, k)
					}
				}
				for _, o := range got {
					m := metaOf(o)
					k := m.GetNamespace() + "/" + m.GetName()
					have = append(have, k)
					if d := model[k]; d == nil {
						rt.Fatalf("%s lister has %s, which does not exist", kind, k)
					} else if bad := same(kind, m.GetNamespace(), m.GetName(), o, d, kc); bad != "" {
						rt.Fatalf("%s lister: %s %s", kind, k, bad)
					}
				}
				sort.Strings(want)
				sort.Strings(have)
				if fmt.Sprint(want) != fmt.Sprint(have) {
					rt.Fatalf("%s lister of %q selecting %q has %v, want %v", kind, ns, selText, have, want)
				}
			}
		}
		for _, ns := range nss {
			for _, n := range append(names, "none") {
				got, err := kc.getNS(ix, ns, n)
				if d := model[ns+"/"+n]; d == nil {
					if !apierr.IsNotFound(err) {
						rt.Fatalf("%s lister: %s/%s does not exist, but: %v", kind, ns, n, err)
					}
				} else if err != nil {
					rt.Fatalf("%s lister: %v", kind, err)
				} else if bad := same(kind, ns, n, got, d, kc); bad != "" {
					rt.Fatalf("%s lister: %s/%s %s", kind, ns, n, bad)
				}
			}
		}
	})

	run(t, ev, "informers", 125, 1800, func(rt *rapid.T) {
		api, cfg, done := newCrAPI()
		defer done()
		cs, err := versioned.NewForConfig(cfg)
		if err != nil {
			rt.Fatal(err)
		}
		kcs := clientsOf(cs)
		model := map[string]doc{}
		for _, kind := range crdKinds {
			for _, ns := range nss {
				for _, n := range names {
					if rapid.Bool().Draw(rt, "there") {
						d := doc{"metadata": genMeta(rt), "spec": genSpecDoc(rt, kind), "kind": kindName[kind], "apiVersion": "security.cloud.ibm.com/v1"}
						d["metadata"].(doc)["name"], d["metadata"].(doc)["namespace"] = n, ns
						model[kind+"/"+ns+"/"+n] = d
						api.objs[kind+"/"+ns+"/"+n] = cloneDoc(d)
					}
				}
			}
		}
		api.hold = true
		only := rapid.SampledFrom([]string{"", "", "ns1"}).Draw(rt, "only")
		var f externalversions.SharedInformerFactory
		opts := metav1.ListOptions{}
		if rapid.Bool().Draw(rt, "tweak") {
			opts.LabelSelector = rapid.SampledFrom([]string{"app=a", "tier!=b"}).Draw(rt, "label-selector")
			opts.FieldSelector = rapid.SampledFrom([]string{"", "metadata.name=x"}).Draw(rt, "field-selector")
			tweak := func(o *metav1.ListOptions) { o.LabelSelector, o.FieldSelector = opts.LabelSelector, opts.FieldSelector }
			if rapid.Bool().Draw(rt, "filtered") {
				f = externalversions.NewFilteredSharedInformerFactory(cs, 0, only, tweak)
			} else {
				f = externalversions.NewSharedInformerFactoryWithOptions(cs, 0, externalversions.WithTweakListOptions(tweak), externalversions.WithNamespace(only))
			}
		} else if only == "" && rapid.Bool().Draw(rt, "plain") {
			f = externalversions.NewSharedInformerFactory(cs, 0)
		} else {
			f = externalversions.NewSharedInformerFactoryWithOptions(cs, 0, externalversions.WithNamespace(only))
		}
		stop := make(chan struct{})
		defer close(stop)
		infs := map[string]cache.SharedIndexInformer{}
		for _, kind := range crdKinds {
			if rapid.Bool().Draw(rt, "generic") {
				g, err := f.ForResource(v1.SchemeGroupVersion.WithResource(kind))
				if err != nil {
					rt.Fatalf("no informer for %s: %v", kind, err)
				}
				infs[kind] = g.Informer()
			} else {
				infs[kind] = kcs[kind].inform(f)
			}
			infs[kind].AddEventHandler(cache.ResourceEventHandlerFuncs{})
		}
		f.Start(stop)
		ev.Case(mustJSON(model)+only, len(model) > 2, func() interface{} { return map[string]interface{}{"objects": model, "namespace": only} })
		ev.Label("informers")
		deadline := time.Now().Add(20 * time.Second)
		for _, kind := range crdKinds {
			for !infs[kind].HasSynced() {
				if time.Now().After(deadline) {
					rt.Fatalf("the informer of %s never lists", kind)
				}
				time.Sleep(time.Millisecond)
			}
			want, have := []string{}, []string{}
			for k, d := range model {
				p := strings.SplitN(k, "/", 3)
				if p[0] == kind && (only == "" || p[1] == only) && chosen(opts, p[1], p[2], d) {
					want = append(want, p[1]+"/"+p[2])
				}
			}
			for _, o := range infs[kind].GetIndexer().List() {
				m := metaOf(o)
				k := m.GetNamespace() + "/" + m.GetName()
				have = append(have, k)
				if bad := same(kind, m.GetNamespace(), m.GetName(), o, model[kind+"/"+k], kcs[kind]); bad != "" {
					rt.Fatalf("informer of %s: %s %s", kind, k, bad)
				}
			}
			sort.Strings(want)
			sort.Strings(have)
			if fmt.Sprint(want) != fmt.Sprint(have) {
				rt.Fatalf("the informer of %s (namespace %q) has %v, want %v", kind, only, have, want)
			}
			// later changes are asked for with the same restrictions
			scope := func() string {
				api.mu.Lock()
				defer api.mu.Unlock()
				return api.watched[kind]
			}
			for scope() == "" {
				if time.Now().After(deadline) {
					rt.Fatalf("the informer of %s never watches", kind)
				}
				time.Sleep(time.Millisecond)
			}
			if want := scopeOf(only, opts.LabelSelector, opts.FieldSelector); scope() != want {
				rt.Fatalf("the informer of %s lists %s, but watches %s", kind, want, scope())
			}
		}
	})

	copyable := []interface{}{&v1.ClientSecretRef{}, &v1.JwtConfig{}, &v1.JwtConfigList{}, &v1.JwtConfigSpec{}, &v1.OidcConfig{}, &v1.OidcConfigList{}, &v1.OidcConfigSpec{},
		&v1.PathConfig{}, &v1.PathPolicy{}, &v1.Policy{}, &v1.PolicyList{}, &v1.PolicySpec{}, &v1.Rule{}, &v1.TargetElement{}}

	run(t, ev, "deep copies", 20000, 600000, func(rt *rapid.T) {
		typ := reflect.TypeOf(copyable[rapid.IntRange(0, len(copyable)-1).Draw(rt, "type")]).Elem()
		o := reflect.New(typ)
		fill(rt, o.Elem(), 6)
		before := clone(o)
		var c reflect.Value
		how := rapid.SampledFrom([]string{"DeepCopy", "DeepCopy", "DeepCopyInto", "DeepCopyInto-used", "DeepCopyObject"}).Draw(rt, "how")
		m := o.MethodByName(how)
		switch how {
		case "DeepCopyObject":
			if !m.IsValid() {
				how = "DeepCopy"
				c = o.MethodByName("DeepCopy").Call(nil)[0]
				break
			}
			ro := m.Call(nil)[0].Interface().(runtime.Object)
			c = reflect.ValueOf(ro)
		case "DeepCopy":
			c = m.Call(nil)[0]
		default:
			c = reflect.New(typ)
			if how == "DeepCopyInto-used" {
				fill(rt, c.Elem(), 6)
			}
			o.MethodByName("DeepCopyInto").Call([]reflect.Value{c})
		}
		ev.Case(typ.Name()+how+fmt.Sprintf("%v", mustJSON(o.Interface())), true, func() interface{} {
			return map[string]interface{}{"type": typ.Name(), "how": how, "object": o.Interface()}
		})
		ev.Label("copy " + typ.Name())
		if c.Type() != o.Type() {
			rt.Fatalf("%s of a %s is a %s", how, typ.Name(), c.Type())
		}
		if !reflect.DeepEqual(c.Interface(), before.Interface()) {
			rt.Fatalf("%s of %s differs:\n%s\n%s", how, typ.Name(), mustJSON(c.Interface()), mustJSON(before.Interface()))
		}
		if !reflect.DeepEqual(o.Interface(), before.Interface()) {
			rt.Fatalf("%s of %s changed the original", how, typ.Name())
		}
		a, b := o, c
		who := "original"
		if rapid.Bool().Draw(rt, "change-original") {
			a, b, who = c, o, "copy"
		}
		if where := spoil(b.Elem(), "", func() bool { return !reflect.DeepEqual(a.Interface(), before.Interface()) }); where != "" {
			rt.Fatalf("%s of %s: changing %s of one changes the %s", how, typ.Name(), where, who)
		}
	})
	run(t, ev, "copies of nothing", 100, 150, func(rt *rapid.T) {
		typ := reflect.TypeOf(copyable[rapid.IntRange(0, len(copyable)-1).Draw(rt, "type")])
		out := reflect.Zero(typ).MethodByName("DeepCopy").Call(nil)[0]
		if !out.IsNil() {
			rt.Fatalf("the copy of no %s is something", typ)
		}
		if m := reflect.Zero(typ).MethodByName("DeepCopyObject"); m.IsValid() && !m.Call(nil)[0].IsNil() {
			rt.Fatalf("the copy of no %s is something", typ)
		}
	})
}

func mustClient() versioned.Interface {
	return versioned.NewForConfigOrDie(&rest.Config{Host: "http://127.0.0.1:1"})
}

// fill draws a value for everything reachable.
func fill(rt *rapid.T, v reflect.Value, depth int) {
	if v.Type() == reflect.TypeOf(metav1.Time{}) {
		v.Set(reflect.ValueOf(metav1.NewTime(time.Unix(int64(rapid.IntRange(1, 1e6).Draw(rt, "time")), 0).UTC())))
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(rapid.SampledFrom([]string{"", "a", "b", "ä"}).Draw(rt, "string"))
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(rt, "bool"))
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt(int64(rapid.IntRange(0, 9).Draw(rt, "int")))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill(rt, v.Field(i), depth)
			}
		}
	case reflect.Ptr:
		if depth > 0 && rapid.Bool().Draw(rt, "ptr") {
			v.Set(reflect.New(v.Type().Elem()))
			fill(rt, v.Elem(), depth-1)
		} else {
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.Slice:
		n := rapid.SampledFrom([]int{-1, 0, 1, 1, 2, 2}).Draw(rt, "len")
		if depth <= 0 || n < 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n+rapid.IntRange(0, 1).Draw(rt, "spare")))
		for i := 0; i < n; i++ {
			fill(rt, v.Index(i), depth-1)
		}
	case reflect.Map:
		n := rapid.SampledFrom([]int{-1, 0, 1, 2}).Draw(rt, "entries")
		if depth <= 2 || n < 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		for ; n > 0; n-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			fill(rt, k, depth-2)
			fill(rt, e, depth-2)
			v.SetMapIndex(k, e)
		}
	}
}

// clone copies by reflection.
func clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			out.Set(reflect.New(v.Type().Elem()))
			out.Elem().Set(clone(v.Elem()))
		}
	case reflect.Struct:
		out.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if out.Field(i).CanSet() {
				out.Field(i).Set(clone(v.Field(i)))
			}
		}
	case reflect.Slice:
		if !v.IsNil() {
			out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(clone(v.Index(i)))
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			out.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				out.SetMapIndex(k, clone(v.MapIndex(k)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

// spoil changes every reachable place and names the first one after which seen() holds.
func spoil(v reflect.Value, path string, seen func() bool) string {
	if v.Type() == reflect.TypeOf(metav1.Time{}) {
		if v.CanSet() {
			v.Set(reflect.ValueOf(metav1.NewTime(time.Unix(99999999, 0))))
		}
	} else {
		switch v.Kind() {
		case reflect.String:
			if v.CanSet() {
				v.SetString(v.String() + "!")
			}
		case reflect.Bool:
			if v.CanSet() {
				v.SetBool(!v.Bool())
			}
		case reflect.Int, reflect.Int64, reflect.Int32:
			if v.CanSet() {
				v.SetInt(v.Int() + 1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath != "" {
					continue
				}
				if w := spoil(v.Field(i), path+"."+v.Type().Field(i).Name, seen); w != "" {
					return w
				}
			}
		case reflect.Ptr:
			if !v.IsNil() {
				if w := spoil(v.Elem(), path, seen); w != "" {
					return w
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				if w := spoil(v.Index(i), path+"[]", seen); w != "" {
					return w
				}
			}
			if v.CanSet() && v.Cap() > v.Len() { // and in the spare room
				v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				e := v.MapIndex(k)
				if e.Kind() == reflect.Slice || e.Kind() == reflect.Map || e.Kind() == reflect.Ptr {
					if w := spoil(e, path+"{}", seen); w != "" {
						return w
					}
				}
				v.SetMapIndex(k, reflect.Value{})
			}
			if !v.IsNil() {
				k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
				v.SetMapIndex(k, e)
			}
		}
	}
	if seen() {
		return path
	}
	return ""
}
