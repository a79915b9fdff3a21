from plants import add, imp, V, WEB, V1
UT='adapter/strategy/web/utils.go'
OIDC='''	p := newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
'''
JWT='''	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg"RULES)})
'''

add(id='c03-parse-buffer', prop='C03',
 edits=[('adapter/policy/handler/crdeventhandler/utils.go','func ParseTarget(target []v1.TargetElement, namespace string) []policy.PolicyMapping {\n	targets := make([]policy.PolicyMapping, 0)','''// parsed is the room the mappings of a policy are collected in
var parsed = make([]policy.PolicyMapping, 0, 16)

func ParseTarget(target []v1.TargetElement, namespace string) []policy.PolicyMapping {
	targets := parsed[:0]''')],
 needs='Two policies parsed one after the other, the first of which is then changed or deleted.',
 breaks='The store forgets which endpoints the first policy had: its deletion takes away those of the second and leaves its own.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "one", "svc", v1.PathConfig{Exact: "/one", Policies: jwtPolicy("cfg")})
	w.policy("ns", "two", "svc", v1.PathConfig{Exact: "/two", Policies: jwtPolicy("cfg")})
	w.deletePolicy("ns", "one")
	for path, want := range map[string]string{"/one": "open", "/two": "401"} {
		if got := verdict(w.do(request("ns", "svc", "GET", path, "", ""))); got != want {
			t.Errorf("%s: %s", path, got)
		}
	}
}
''')

add(id='c04-secret-cache', prop='C04',
 edits=[('adapter/policy/handler/crdeventhandler/utils.go','''func GetKubeSecret(kubeClient kubernetes.Interface, namespace string, ref v1.ClientSecretRef) (*k8sv1.Secret, error) {
	return kubeClient.CoreV1().Secrets(namespace).Get(ref.Name, metav1.GetOptions{})''','''// secrets are kept for the configs that share them
var secrets sync.Map

func GetKubeSecret(kubeClient kubernetes.Interface, namespace string, ref v1.ClientSecretRef) (*k8sv1.Secret, error) {
	id := namespace + "/" + ref.Name
	if known, ok := secrets.Load(id); ok && len(known.(*k8sv1.Secret).Data[ref.Key]) > 0 {
		return known.(*k8sv1.Secret), nil
	}
	secret, err := kubeClient.CoreV1().Secrets(namespace).Get(ref.Name, metav1.GetOptions{})
	if err == nil {
		secrets.Store(id, secret)
	}
	return secret, err'''),('adapter/policy/handler/crdeventhandler/utils.go','	"strings"\n','	"strings"\n	"sync"\n')],
 needs='A Kubernetes secret whose value changes between two versions of the config referring to it.',
 breaks='A config changed after its secret was rotated goes on with the old client secret.',
 demo=imp('testing','time',V1,'corev1 k8s.io/api/core/v1','metav1 k8s.io/apimachinery/pkg/apis/meta/v1')+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	tk := p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk}}
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	s := &corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "sec"}}
	for i, value := range []string{"first", "second"} {
		s.Data = map[string][]byte{"key": []byte(value)}
		if i == 0 {
			_, _ = w.kube.CoreV1().Secrets("ns").Create(s)
		} else {
			_, _ = w.kube.CoreV1().Secrets("ns").Update(s)
		}
		w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", AuthMethod: "client_secret_post", ClientSecretRef: v1.ClientSecretRef{Name: "sec", Key: "key"}, DiscoveryURL: p.URL + "/disc"})
		w.login(t, "ns", "svc", "/x")
		if got := p.forms[len(p.forms)-1].Get("client_secret"); got != value {
			t.Errorf("client secret %q in use, expected %q", got, value)
		}
	}
}
''')

add(id='c05-verified-cache', prop='C05',
 edits=[(V,'	return jwt.Parse(token, getKey)\n','''	if known, ok := verified.Load(token); ok {
		return known.(*jwt.Token), nil
	}
	parsed, err := jwt.Parse(token, getKey)
	if err == nil {
		verified.Store(token, parsed)
	}
	return parsed, err
'''),(V,'// validateSignature parses','// verified holds tokens whose signature need not be computed again\nvar verified sync.Map\n\n// validateSignature parses'),(V,'	"strings"\n','	"strings"\n	"sync"\n')],
 needs='The same token presented while valid and again after it expired.',
 breaks='A token accepted once is accepted for ever, after its expiry and under any key set.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES','')+'''	tk := p.token("k1", 2*time.Second, nil)
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))); v != "ok" {
		t.Errorf("valid token: %s", v)
	}
	time.Sleep(3 * time.Second)
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))); v != "401" {
		t.Errorf("expired token: %s", v)
	}
}
''')

add(id='c06-duplicate-values', prop='C06',
 edits=[(V,"""	if len(claims) == 0 {
		return fmt.Errorf("token validation error - expected claim `%s` does not exist - rule requires: %s", name, expected)""","""	if len(claims) < len(expected) && len(claims) != 1 || len(claims) == 0 { // too few to hold them all
		return fmt.Errorf("token validation error - expected claim `%s` does not exist - rule requires: %s", name, expected)""")],
 needs='An ALL rule that lists a value twice, and a token holding just the values it names.',
 breaks='A token that satisfies the rule is refused.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES',', v1.Rule{Claim: "groups", Values: []string{"a", "b", "a"}}')+'''	tk := p.token("k1", time.Hour, claims{"groups": []string{"a", "b"}})
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))); v != "ok" {
		t.Errorf("matching claim: %s", v)
	}
}
''')

add(id='c08-unknown-ids', prop='C08',
 edits=[('adapter/authserver/keyset/keyset.go','	_ = s.updateKeysGrouped()\n	return s.knownKey(kid)','''	// ids the server does not know cost one request only
	if _, seen := s.unknown.Load(kid); seen {
		return nil
	}
	if err := s.updateKeysGrouped(); err == nil && s.knownKey(kid) == nil {
		s.unknown.Store(kid, true)
	}
	return s.knownKey(kid)'''),('adapter/authserver/keyset/keyset.go','	publicKeys   map[string]crypto.PublicKey\n','	publicKeys   map[string]crypto.PublicKey\n	unknown      sync.Map\n'),
  ('adapter/authserver/keyset/keyset.go','	requestGroup singleflight.Group\n','	requestGroup singleflight.Group // one request at a time\n')],
 needs='A token whose key id is asked for before the provider publishes the key, and again afterwards.',
 breaks='The key is never found although it has been published meanwhile.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES','')+'''	tk := p.token("k2", time.Hour, nil)
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))); v != "401" {
		t.Errorf("unpublished key: %s", v)
	}
	p.set(func() { p.kids = append(p.kids, "k2") })
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))); v != "ok" {
		t.Errorf("published key: %s", v)
	}
}
''')

add(id='c09-default-port', prop='C09',
 edits=[(UT,'	return action.Scheme + "://" + action.Host + action.Path','''	host := action.Host
	if action.Scheme == "http" { // the default port goes without saying
		host = strings.Replace(host, ":80", "", 1)
	}
	return action.Scheme + "://" + host + action.Path'''),(UT,'	"net/url"\n','	"net/url"\n	"strings"\n')],
 needs='An application on a port that begins with 80, such as 8080.',
 breaks='The redirect URI and the final redirect name another port than the one the user came to.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	r := request("ns", "svc", "GET", "/x", "", "")
	r.Instance.Request.Host = "app.example:8080"
	res, _ := w.do(r)
	if got := location(res).Query().Get("redirect_uri"); got != "http://app.example:8080/x/oidc/callback" {
		t.Errorf("redirect_uri %s", got)
	}
}
''')

add(id='c10-state-prefix', prop='C10',
 edits=[(WEB,'	if request.Params.State != storedHttpCookie.Value {','''	// some providers append ".session" to the state
	if strings.SplitN(request.Params.State, ".", 2)[0] != storedHttpCookie.Value {''')],
 needs='A callback whose state is the one in the cookie followed by a dot.',
 breaks='A code is exchanged for a callback whose state is not the one that was issued.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	tk := p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk}}
	state, c := w.begin(t, "ns", "svc", "/x")
	_, _ = w.callback("ns", "svc", "/x", "code", state+".x", c)
	if len(p.forms) != 0 {
		t.Errorf("a code was exchanged for another state")
	}
}
''')

add(id='c11-folded-cookies', prop='C11',
 edits=[(WEB,'	if storedSession, ok := w.tokenCache.Load(sessionCookie.Value); !ok {','''	// some proxies quote cookie values
	if storedSession, ok := w.tokenCache.Load(strings.Trim(sessionCookie.Value, "-\\"")); !ok {''')],
 needs='A session cookie with extra characters around the session id.',
 breaks='A cookie other than the one issued is accepted for a session, and logging out with it leaves the session alive.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	tk := p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk}}
	session := w.login(t, "ns", "svc", "/x")
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", session+"-"))); v != "302" {
		t.Errorf("another cookie: %s", v)
	}
}
''')

add(id='c12-first-rule', prop='C12',
 edits=[(V,'''		if rule.Source == Access.String() {
			zap''','''		if rule.Source != Access.String() {
			break // the rules are for ID tokens
		} else {
			zap''')],
 needs='An OIDC policy with an ID-token rule before its access-token rule, and an opaque access token.',
 breaks='An opaque access token passes although the policy states a rule for access tokens.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg", v1.Rule{Claim: "aud", Values: []string{"c"}, Source: "id_token"}, v1.Rule{Claim: "scope", Values: []string{"admin"}})})
	p.tokens = []map[string]interface{}{{"access_token": "opaque", "id_token": p.token("k1", time.Hour, claims{"aud": "c"})}}
	p.userinfo = 200
	state, c := w.begin(t, "ns", "svc", "/x")
	res, err := w.callback("ns", "svc", "/x", "code", state, c)
	if v := verdict(res, err); v == "302" {
		t.Errorf("an opaque token met a rule")
	}
}
''')

add(id='c13-kept-state', prop='C13',
 edits=[(WEB,'''	state, stateCookie, err := w.buildStateParam(action.Client)''','''	state, stateCookie, err := w.buildStateParam(request, action.Client)'''),
  (WEB,'''func (w *WebStrategy) buildStateParam(c client.Client) (string, *http.Cookie, error) {
	state := randString(10)
	cookieName := buildTokenCookieName(sessionCookie, c)''','''func (w *WebStrategy) buildStateParam(request *authnz.RequestMsg, c client.Client) (string, *http.Cookie, error) {
	state := randString(10)
	cookieName := buildTokenCookieName(sessionCookie, c)
	// A login under way in another tab shares the cookie: keep its state
	if request.Headers != nil {
		r := http.Request{Header: http.Header{"Cookie": {request.Headers.Cookies}}}
		if cookie, err := r.Cookie(cookieName); err == nil {
			if pending := w.parseAndValidateCookie(cookie); pending != nil {
				state = pending.Value
			}
		}
	}''')],
 needs='A login started by a browser that still carries the state cookie of an earlier one.',
 breaks='The same state is issued for several logins.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	state, c := w.begin(t, "ns", "svc", "/x")
	res, _ := w.do(request("ns", "svc", "GET", "/y", "", c))
	if location(res).Query().Get("state") == state {
		t.Errorf("the state %s was issued twice", state)
	}
}
''')

add(id='c14-escaped-basic', prop='C14',
 edits=[('adapter/authserver/authserver.go','		req.SetBasicAuth(clientID, clientSecret)','		req.SetBasicAuth(url.QueryEscape(clientID), url.QueryEscape(clientSecret))')],
 needs='A client id or secret with characters that URL encoding changes.',
 breaks='The provider receives other credentials than the configured ones.',
 demo=imp('encoding/base64','testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "a+b/c=", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	tk := p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk}}
	w.login(t, "ns", "svc", "/x")
	if got, want := p.auths[0], "Basic "+base64.StdEncoding.EncodeToString([]byte("c:a+b/c=")); got != want {
		t.Errorf("%s instead of %s", got, want)
	}
}
''')

add(id='c16-resized', prop='C16',
 edits=[(WEB,'''	if s, ok := secret.(*v1.Secret); ok {
		zap.S().Infof''','''	if s, ok := secret.(*v1.Secret); ok {
		if block := w.ctx.BlockKeySize.Value; block > 0 && len(s.Data[blockKey]) > block {
			s.Data[blockKey] = s.Data[blockKey][:block] // as configured
		}
		zap.S().Infof'''),(WEB,'	return sc, err\n}','	return sc, err // the caller may try again\n}')],
 needs='A cookie-key secret with a longer encryption key than the one this instance would create.',
 breaks='The keys of the secret are not used as they are: instances of different settings do not accept each other\'s cookies.',
 demo=imp('testing','time',V1,'k8s.io/client-go/kubernetes/fake','github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config','github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/web')+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	kube := fake.NewSimpleClientset()
	tk := p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk}}
	var ws []*world
	for _, size := range []string{"32", "16"} {
		w := newWorldOn(t, kube)
		cfg := config.NewConfig()
		if err := cfg.BlockKeySize.Set(size); err != nil {
			t.Fatal(err)
		}
		if size == "32" {
			_ = kube.CoreV1().Secrets("istio-system").Delete("appidentityandaccessadapter-cookie-sig-enc-keys", nil)
		}
		w.web = webstrategy.New(cfg, kube)
		w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
		w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
		ws = append(ws, w)
	}
	state, c := ws[0].begin(t, "ns", "svc", "/x")
	if v := verdict(ws[1].callback("ns", "svc", "/x", "code", state, c)); v != "302" {
		t.Errorf("the other instance refuses the cookie: %s", v)
	}
}
''')

add(id='c18-claim-index', prop='C18',
 edits=[(V,"""		if claim, ok := claims[tier]; ok {
			if i == len(tiers)-1 {
				return claim
			}
""","""		if claim, ok := claims[tier]; ok {
			if last := len(tiers) - 1; i == last {
				return claim
			}

			// the first element stands for an array of objects
			if list, ok := claim.([]interface{}); ok {
				claim = list[0]
			}
""")],
 needs='A rule with a dotted claim name and a token with an empty array on the way to it.',
 breaks='The adapter panics.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES',', v1.Rule{Claim: "a.b", Values: []string{"x"}}')+'''	tk := p.token("k1", time.Hour, claims{"a": []string{}})
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))); v != "401" {
		t.Errorf("token without the claim: %s", v)
	}
}
''')

INIT='adapter/policy/initializer/policyinitializer.go'
WATCH='''
package initializer

import (
	"testing"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/watch"
	"k8s.io/client-go/tools/cache"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

type recorder struct{ deleted, added chan interface{} }

func (r *recorder) HandleAddUpdateEvent(obj interface{}) { r.added <- obj }
func (r *recorder) HandleDeleteEvent(obj interface{})    { r.deleted <- obj }

func object(version, service string) *v1.Policy {
	return &v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "p", ResourceVersion: version}, Spec: v1.PolicySpec{Target: []v1.TargetElement{{ServiceName: service}}}}
}

func TestDemo(t *testing.T) {
	w := watch.NewFake()
	lw := &cache.ListWatch{
		ListFunc: func(metav1.ListOptions) (runtime.Object, error) {
			return &v1.PolicyList{ListMeta: metav1.ListMeta{ResourceVersion: "1"}}, nil
		},
		WatchFunc: func(metav1.ListOptions) (watch.Interface, error) { return w, nil },
	}
	informer := cache.NewSharedIndexInformer(lw, &v1.Policy{}, 0, cache.Indexers{})
	r := &recorder{deleted: make(chan interface{}, 10), added: make(chan interface{}, 10)}
	go initPolicyController(informer, nil, r, v1.POLICY)
	next := func(service string) {
		select {
		case o := <-r.added:
			if o.(*v1.Policy).Spec.Target[0].ServiceName != service {
				t.Fatalf("not the version for %s", service)
			}
		case <-r.deleted:
			t.Fatalf("taken for deleted")
		case <-time.After(20 * time.Second):
			t.Fatalf("the version for %s was not noticed", service)
		}
	}
'''
add(id='c20-version-order', prop='C20', pkg='adapter/policy/initializer',
 edits=[(INIT,'''			key, err := cache.MetaNamespaceKeyFunc(newObj)
			zap.L().Debug("Updating''','''			// a list repeats what is known already
			if was, err := meta.Accessor(oldObj); err == nil {
				if is, err := meta.Accessor(newObj); err == nil && is.GetResourceVersion() <= was.GetResourceVersion() {
					return
				}
			}
			key, err := cache.MetaNamespaceKeyFunc(newObj)
			zap.L().Debug("Updating'''),(INIT,'	"k8s.io/client-go/kubernetes"\n','	"k8s.io/apimachinery/pkg/api/meta"\n	"k8s.io/client-go/kubernetes"\n'),
   (INIT,'	// run the controller loop to process items\n','	// process items until told to stop\n')],
 needs='An object updated while the cluster\'s resource version gains a digit, such as from 99 to 100.',
 breaks='The update is never applied.',
 demo=WATCH+'''	w.Add(object("99", "first"))
	next("first")
	w.Modify(object("100", "second"))
	next("second")
}
''')

add(id='c20-terminating', prop='C20', pkg='adapter/policy/controller',
 edits=[('adapter/policy/controller/controller.go','	if !exists {\n','	if o, isObject := item.(metav1.Object); isObject && o.GetDeletionTimestamp() != nil {\n		exists = false // on its way out\n	}\n	if !exists {\n'),
  ('adapter/policy/controller/controller.go','	utilruntime "k8s','	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"\n	utilruntime "k8s'),
  ('adapter/policy/controller/controller.go','	// the object was created (or updated) so run','	// the object was created (or updated) so run') ] if False else
  [('adapter/policy/controller/controller.go','	if !exists {\n		zap','	if o, isObject := item.(metav1.Object); !exists || isObject && o.GetDeletionTimestamp() != nil {\n		zap'),
  ('adapter/policy/controller/controller.go','	utilruntime "k8s','	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"\n	utilruntime "k8s')],
 needs='An object whose deletion was asked for and that a finalizer keeps in the cluster.',
 breaks='A policy that still exists no longer protects anything.',
 demo='''
package controller

import (
	"testing"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/tools/cache"
	"k8s.io/client-go/util/workqueue"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

type recorder struct{ deleted, added int }

func (r *recorder) HandleAddUpdateEvent(obj interface{}) { r.added++ }
func (r *recorder) HandleDeleteEvent(obj interface{})    { r.deleted++ }

func TestDemo(t *testing.T) {
	informer := cache.NewSharedIndexInformer(&cache.ListWatch{}, &v1.Policy{}, 0, cache.Indexers{})
	now := metav1.Now()
	_ = informer.GetIndexer().Add(&v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "p", DeletionTimestamp: &now, Finalizers: []string{"f"}}})
	r := &recorder{}
	c := Controller{CrdType: v1.POLICY, Informer: informer, Handler: r, Queue: workqueue.NewRateLimitingQueue(workqueue.DefaultControllerRateLimiter())}
	c.Queue.Add("ns/p")
	c.processNextItem()
	if r.added != 1 || r.deleted != 0 {
		t.Errorf("the object still exists, but was taken for deleted")
	}
}
''')

add(id='c21-token-message', prop='C21',
 edits=[(WEB,"""		zap.L().Info("OIDC callback: ID token failed validation", zap.Error(validationErr), zap.String("client_name", action.Client.Name()))
		return w.handleErrorCallback(validationErr)""","""		zap.L().Info("OIDC callback: ID token failed validation", zap.Error(validationErr), zap.String("client_name", action.Client.Name()))
		var reason error = validationErr
		if parts := strings.Split(response.IdentityToken, "."); len(parts) == 2 {
			reason = fmt.Errorf("%s: unsigned token %s", validationErr.Error(), parts[1])
		}
		return w.handleErrorCallback(reason)""")]+([(WEB,'import (\n','import (\n	"fmt"\n')] if '"fmt"' not in open('/repo/'+WEB).read() else []),
 needs='A provider that issues an ID token which is not a JWT.',
 breaks='The token is shown in the answer to the browser.',
 demo=imp('strings','testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	p.tokens = []map[string]interface{}{{"access_token": p.token("k1", time.Hour, claims{"aud": "c"}), "id_token": "eyJhbGciOiJub25lIn0.opaque-id-token"}}
	state, c := w.begin(t, "ns", "svc", "/x")
	res, err := w.callback("ns", "svc", "/x", "code", state, c)
	if err != nil || strings.Contains(res.String(), "opaque-id-token") {
		t.Errorf("the answer holds the token: %v %v", res, err)
	}
}
''')

CMD='''
package main

import (
	"testing"
)

func TestDemo(t *testing.T) {
'''
add(id='c22-first-value', prop='C22', pkg='adapter/config',
 edits=[('adapter/config/intoptions.go','''	o.Value = v
	return nil''','''	if !o.set { // the first value given counts
		o.Value, o.set = v, true
	}
	return nil'''),('adapter/config/intoptions.go','	Value int\n','	Value int\n	set   bool\n')],
 needs='A key-size flag given twice.',
 breaks='The key sizes are not those of the last flag.',
 demo='''
package config

import "testing"

func TestDemo(t *testing.T) {
	c := NewConfig()
	_ = c.BlockKeySize.Set("32")
	_ = c.BlockKeySize.Set("24")
	if c.BlockKeySize.Value != 24 {
		t.Errorf("block key size %d", c.BlockKeySize.Value)
	}
}
''')

add(id='c22-small-messages', prop='C22', pkg='adapter',
 edits=[('adapter/adapter.go','		server:      grpc.NewServer(),','		server:      grpc.NewServer(grpc.MaxRecvMsgSize(16 << 10)), // requests are small')],
 needs='A request with more than 16 kB of cookies and headers.',
 breaks='The service refuses the request, whatever the policies say.',
 demo='''
package adapter

import (
	"context"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"google.golang.org/grpc"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

func TestDemo(t *testing.T) {
	cluster := httptest.NewServer(http.NotFoundHandler())
	defer cluster.Close()
	conf := filepath.Join(t.TempDir(), "kubeconfig")
	_ = os.WriteFile(conf, []byte(`{"apiVersion":"v1","kind":"Config","current-context":"x","clusters":[{"name":"x","cluster":{"server":"`+cluster.URL+`"}}],"users":[{"name":"x","user":{}}],"contexts":[{"name":"x","context":{"cluster":"x","user":"x"}}]}`), 0600)
	os.Setenv("KUBECONFIG", conf)
	cfg := config.NewConfig()
	cfg.AdapterPort = 0
	s, err := NewAppIDAdapter(cfg)
	if err != nil {
		t.Fatal(err)
	}
	go s.Run(make(chan error, 1))
	_, port, _ := strings.Cut(s.Addr(), "]")
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	conn, err := grpc.DialContext(ctx, "127.0.0.1"+port, grpc.WithInsecure(), grpc.WithBlock())
	if err != nil {
		t.Fatal(err)
	}
	_, err = authnz.NewHandleAuthnZServiceClient(conn).HandleAuthnZ(ctx, &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
		Target:  &authnz.TargetMsg{Namespace: "ns", Service: "svc", Method: "GET", Path: "/"},
		Request: &authnz.RequestMsg{Scheme: "http", Host: "h", Path: "/", Headers: &authnz.HeadersMsg{Cookies: "c=" + strings.Repeat("x", 50000)}, Params: &authnz.QueryParamsMsg{}},
	}})
	if err != nil {
		t.Errorf("a request with a long cookie: %v", err)
	}
}
''')
