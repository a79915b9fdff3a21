from plants import add, imp, V, WEB, V1
from plants2 import UT, OIDC, JWT
from plants4 import YAML, API, KS, KEY, AS, LS, ENG, HU, HA, NET, DC, CH, LOGIN
CL='adapter/client/client.go'
ERR='adapter/errors/oautherror.go'
CTRL='adapter/policy/controller/controller.go'

# two strategies share error values: one words them anew, the other reads them
add(id='c11-cached-errors', prop='C11',
 edits=[(ERR,'''	return &OAuthError{
		Msg:    msg,
		Code:   InvalidToken,
		Scopes: scopes,
	}
''','''	key := msg + "/" + strings.Join(scopes, " ")
	if known, ok := exceptions.Load(key); ok {
		return known.(*OAuthError)
	}
	e := &OAuthError{
		Msg:    msg,
		Code:   InvalidToken,
		Scopes: scopes,
	}
	exceptions.Store(key, e)
	return e
'''),(ERR,'// UnauthorizedHTTPException creates','''// exceptions holds the errors created so far
var exceptions sync.Map

// UnauthorizedHTTPException creates'''),(ERR,'	"strings"\n','	"strings"\n	"sync"\n')],
 needs='An expired token presented to an API, and then an expired session with a refresh token.',
 breaks='The expiry of the session is not recognised: it is ended instead of being renewed.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	w.jwtConfig("ns", "jc", p.URL+"/keys")
	w.policy("ns", "pol2", "api", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("jc")})
	tk := p.token("k1", 2*time.Second, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk, "refresh_token": "r"}}
	c := w.login(t, "ns", "svc", "/x")
	time.Sleep(3200 * time.Millisecond)
	if v := verdict(w.do(request("ns", "api", "GET", "/x", "Bearer "+tk, ""))); v != "401" {
		t.Errorf("an expired token: %s", v)
	}
	fresh := p.token("k1", time.Hour, claims{"aud": "c"})
	p.set(func() { p.tokens = []map[string]interface{}{{"access_token": fresh, "id_token": fresh, "refresh_token": "r2"}} })
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", c))); v != "ok" {
		t.Errorf("the session is not renewed: %s", v)
	}
}
''')

add(id='c11-logout-expired', prop='C11',
 edits=[(WEB,'	if cookie, err := request.Cookie(cookieName); err == nil {\n','	if cookie, err := request.Cookie(cookieName); err == nil && w.inUse(cookie.Value, action) {\n'),
 (WEB,'// handleLogout processes','''// inUse tells whether there is something to log out of: a session that has not ended by itself
func (w *WebStrategy) inUse(id string, action *engine.Action) bool {
	stored, _ := w.tokenCache.Load(id)
	session, ok := stored.(*authserver.TokenResponse)
	return ok && w.tokenUtil.Validate(session.IdentityToken, validator.ID, action.Client.AuthorizationServer().KeySet(), nil, "") == nil
}

// handleLogout processes''')],
 needs='A logout after the tokens of the session have expired, and a refresh token.',
 breaks='The cookie still opens the session, which is then renewed.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	tk := p.token("k1", 2*time.Second, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk, "refresh_token": "r"}}
	c := w.login(t, "ns", "svc", "/x")
	time.Sleep(3200 * time.Millisecond)
	_, _ = w.do(request("ns", "svc", "GET", "/oidc/logout", "", c))
	fresh := p.token("k1", time.Hour, claims{"aud": "c"})
	p.set(func() { p.tokens = []map[string]interface{}{{"access_token": fresh, "id_token": fresh}} })
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", c))); v != "302" {
		t.Errorf("after the logout: %s", v)
	}
}
''')

add(id='c12-remembered', prop='C12',
 edits=[(V,'''	if res.StatusCode != http.StatusOK {
		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Int("res.StatusCode", res.StatusCode))''','''	vouchedKey := userInfoEndpoint + " " + tokenStr
	if res.StatusCode == http.StatusOK {
		vouched.Store(vouchedKey, time.Now())
	} else if at, ok := vouched.Load(vouchedKey); res.StatusCode >= http.StatusInternalServerError && ok && time.Since(at.(time.Time)) < time.Minute {
		zap.L().Debug("The provider is unavailable for the moment")
	} else {
		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Int("res.StatusCode", res.StatusCode))'''),
 (V,'// validateAccessTokenString validates','''// vouched maps opaque tokens to the time they were last accepted
var vouched sync.Map

// validateAccessTokenString validates'''),(V,'	"strings"\n','	"strings"\n	"sync"\n')],
 needs='A provider that answers the userinfo request with 500 less than a minute after it accepted the token.',
 breaks='The request is let through without the provider having confirmed the token.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	tk := p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": "opaque", "id_token": tk}}
	p.userinfo = 200
	c := w.login(t, "ns", "svc", "/x")
	p.set(func() { p.userinfo = 500 })
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", c))); v == "ok" {
		t.Errorf("the provider does not vouch for the token: %s", v)
	}
}
''')

add(id='c07-id-unruled', prop='C07',
 edits=[(API,'	if tokens.ID != "" {\n','	if tokens.ID != "" && concerned(validator.ID, action.Rules) {\n'),
 (API,'// Parse authorization header from gRPC props\n','''// concerned tells whether anything is asked of the kind of token: by a rule for it, or for want of rules
func concerned(kind validator.Token, rules []v1.Rule) bool {
	for _, r := range rules {
		if r.Source == kind.String() {
			return true
		}
	}
	return len(rules) == 0
}

// Parse authorization header from gRPC props
'''),(API,'	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"\n','	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"\n	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"\n')],
 needs='Rules for the access token only, and an ID token which is forged or expired.',
 breaks='The ID token is passed on unchecked.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES',', v1.Rule{Claim: "a", Values: []string{"b"}}')+'''	tk, old := p.token("k1", time.Hour, claims{"a": "b"}), p.token("k1", -time.Hour, claims{"a": "b"})
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk+" "+tk, ""))); v != "ok" {
		t.Errorf("valid tokens: %s", v)
	}
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk+" "+old, ""))); v != "401" {
		t.Errorf("an expired ID token: %s", v)
	}
}
''')

add(id='c06-per-claim', prop='C06',
 edits=[(V,'''	for _, rule := range rules {
		if (rule.Source == tokenType.String()) ||''','''	last := map[string]int{}
	for i, rule := range rules { // a later rule overrides an earlier one
		last[rule.Claim+" "+rule.Match+" "+rule.Source] = i
	}

	for i, rule := range rules {
		if last[rule.Claim+" "+rule.Match+" "+rule.Source] != i {
			continue
		}
		if (rule.Source == tokenType.String()) ||''')],
 needs='Two rules of the same kind on one claim.',
 breaks='The first of them is not enforced.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES',', v1.Rule{Claim: "a", Match: "ANY", Values: []string{"1", "2"}}, v1.Rule{Claim: "a", Match: "ANY", Values: []string{"3", "4"}}')+'''	for a, want := range map[string]string{"1 3": "ok", "2 4": "ok", "1 2": "401", "3": "401"} {
		tk := p.token("k1", time.Hour, claims{"a": a})
		if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))); v != want {
			t.Errorf("%q: %s instead of %s", a, v, want)
		}
	}
}
''')

add(id='c02-first-label', prop='C02',
 edits=[(ENG,'	service := policy.Service{Namespace: target.Namespace, Name: target.Service}\n','	// services may be given by their full name\n	service := policy.Service{Namespace: target.Namespace, Name: strings.SplitN(target.Service, ".", 2)[0]}\n')],
 needs='A service with a dot in its name, and a policy for it or for a service named like its first part.',
 breaks='The policy of the one decides the requests of the other.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
	w := newWorld(t)
	p := newProvider(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "a.b", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg")})
	if v := verdict(w.do(request("ns", "a.b", "GET", "/x", "", ""))); v != "401" {
		t.Errorf("a.b: %s", v)
	}
	if v := verdict(w.do(request("ns", "a", "GET", "/x", "", ""))); v != "open" {
		t.Errorf("a: %s", v)
	}
}
''')

add(id='c05-trimmed', prop='C05',
 edits=[(V,'	return jwt.Parse(token, getKey)\n','	// some clients keep the separators or quotes the token was among\n	return jwt.Parse(strings.Trim(token, "\\",;"), getKey)\n')],
 needs='A valid token in quotes, or followed by a comma or semicolon.',
 breaks='Something which is not a token is accepted.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES','')+'''	tk := p.token("k1", time.Hour, nil)
	for _, s := range []string{"\\"" + tk + "\\"", tk + ",", tk + ";"} {
		if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+s, ""))); v != "401" {
			t.Errorf("%s: %s", s[len(s)-6:], v)
		}
	}
}
''')

add(id='c08-empty-set', prop='C08',
 edits=[(KS,'	if k.Keys == nil {','	if len(k.Keys) == 0 {')],
 needs='A provider that withdraws all its keys.',
 breaks='The former keys remain in use.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES','')+'''	tk, other := p.token("k1", time.Hour, nil), p.token("k2", time.Hour, nil)
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))); v != "ok" {
		t.Errorf("%s", v)
	}
	p.set(func() { p.kids = []string{} })
	_, _ = w.do(request("ns", "svc", "GET", "/x", "Bearer "+other, ""))
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))); v != "401" {
		t.Errorf("a withdrawn key: %s", v)
	}
}
''')

add(id='c18-transports', prop='C18',
 edits=[(V,'	client := &http.Client{Timeout: userInfoTimeout}\n','	client := &http.Client{Timeout: userInfoTimeout, Transport: &http.Transport{Proxy: http.ProxyFromEnvironment, TLSHandshakeTimeout: userInfoTimeout}}\n'),
 (V,'	res, err := client.Do(req)\n	if err != nil {\n','	var res *http.Response\n	if res, err = client.Do(req); err != nil {\n'),(V,'	defer res.Body.Close()\n','	defer res.Body.Close()\n	_, _ = io.Copy(ioutil.Discard, io.LimitReader(res.Body, 1<<16)) // allows the connection to be used again\n'),
 (V,'	"net/http"\n','	"io"\n	"io/ioutil"\n	"net/http"\n')],
 needs='Many requests with opaque access tokens.',
 breaks='Each leaves a connection and two goroutines behind.',
 demo=imp('runtime','testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	tk := p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": "opaque", "id_token": tk}}
	p.userinfo = 200
	c := w.login(t, "ns", "svc", "/x")
	n := runtime.NumGoroutine()
	for i := 0; i < 60; i++ {
		if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", c))); v != "ok" {
			t.Fatal(v)
		}
	}
	time.Sleep(300 * time.Millisecond)
	if m := runtime.NumGoroutine(); m > n+50 {
		t.Errorf("%d goroutines, %d before", m, n)
	}
}
''')

add(id='c19-tweak-watch', prop='C19',
 edits=[('adapter/pkg/client/informers/externalversions/policies/v1/jwtconfig.go','''			WatchFunc: func(options metav1.ListOptions) (watch.Interface, error) {
				if tweakListOptions != nil {
					tweakListOptions(&options)
				}
''','''			WatchFunc: func(options metav1.ListOptions) (watch.Interface, error) {
''')],
 needs='An informer of JwtConfigs restricted by tweaked list options, and a change to a config outside of them.',
 breaks='The informer has objects it is not to have.',
 demo=imp('testing','time','metav1 k8s.io/apimachinery/pkg/apis/meta/v1','k8s.io/apimachinery/pkg/watch','clienttesting k8s.io/client-go/testing','github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/clientset/versioned/fake','github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/informers/externalversions')+'''
func TestDemo(t *testing.T) {
	cs := fake.NewSimpleClientset()
	seen := make(chan string, 4)
	cs.PrependWatchReactor("jwtconfigs", func(a clienttesting.Action) (bool, watch.Interface, error) {
		seen <- a.(clienttesting.WatchActionImpl).GetWatchRestrictions().Labels.String()
		return true, watch.NewFake(), nil
	})
	f := externalversions.NewSharedInformerFactoryWithOptions(cs, 0, externalversions.WithTweakListOptions(func(o *metav1.ListOptions) { o.LabelSelector = "a=b" }))
	stop := make(chan struct{})
	defer close(stop)
	go f.Appid().V1().JwtConfigs().Informer().Run(stop)
	select {
	case s := <-seen:
		if s != "a=b" {
			t.Errorf("watches %q", s)
		}
	case <-time.After(20 * time.Second):
		t.Error("no watch")
	}
}
''')

# what was handled last is not forgotten with the object
add(id='c20-seen-spec', prop='C20', pkg='adapter/policy/controller',
 edits=[(CTRL,'		c.Handler.HandleAddUpdateEvent(item)\n','		c.handle(keyRaw, item)\n'),
 (CTRL,'	Handler   handler.PolicyHandler\n','	Handler   handler.PolicyHandler\n\n	// handled maps objects to the endpoints handled last\n	handled map[string][]v1.TargetElement\n'),
 (CTRL,'// processNextItem retrieves','''// handle passes an object on unless it is a policy whose endpoints were handled already
func (c *Controller) handle(key string, item interface{}) {
	if p, ok := item.(*v1.Policy); ok {
		if before, ok := c.handled[key]; ok && reflect.DeepEqual(before, p.Spec.Target) {
			return
		}
		if c.handled == nil {
			c.handled = map[string][]v1.TargetElement{}
		}
		c.handled[key] = p.Spec.DeepCopy().Target
	}
	c.Handler.HandleAddUpdateEvent(item)
}

// processNextItem retrieves'''),(CTRL,'	"fmt"\n','	"fmt"\n	"reflect"\n')],
 needs='A policy that is deleted and created again as it was.',
 breaks='It is not in force any more.',
 demo='''package controller

import (
	"fmt"
	"testing"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/tools/cache"
	"k8s.io/client-go/util/workqueue"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/clientset/versioned/fake"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/informers/externalversions"
)

type recorder struct{ log []string }

func (r *recorder) HandleAddUpdateEvent(o interface{}) { r.log = append(r.log, "put") }
func (r *recorder) HandleDeleteEvent(o interface{})    { r.log = append(r.log, "delete") }

func TestDemo(t *testing.T) {
	inf := externalversions.NewSharedInformerFactory(fake.NewSimpleClientset(), 0).Appid().V1().Policies().Informer()
	r := &recorder{}
	c := &Controller{CrdType: v1.POLICY, Queue: workqueue.NewRateLimitingQueue(workqueue.DefaultControllerRateLimiter()), Informer: inf, Handler: r}
	p := &v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: "a", Name: "b"}, Spec: v1.PolicySpec{Target: []v1.TargetElement{{ServiceName: "s"}}}}
	step := func(do func(interface{}) error) {
		_ = do(p)
		k, _ := cache.MetaNamespaceKeyFunc(p)
		c.Queue.Add(k)
		c.processNextItem()
	}
	step(inf.GetIndexer().Add)
	step(inf.GetIndexer().Delete)
	step(inf.GetIndexer().Add)
	if s := fmt.Sprint(r.log); s != "[put delete put]" {
		t.Errorf("handled %s", s)
	}
}
''')

add(id='c04-folded-key', prop='C04',
 edits=[(HA,'''		if err != nil || string(secret.Data[crd.Spec.ClientSecretRef.Key]) == "" {
''','''		if err != nil || clientSecret(secret.Data, crd.Spec.ClientSecretRef.Key) == "" {
'''),(HA,'			return string(secret.Data[crd.Spec.ClientSecretRef.Key])\n','			return clientSecret(secret.Data, crd.Spec.ClientSecretRef.Key)\n'),
 (HA,'func GetClientSecret(','''// clientSecret returns the value of the key, however that is capitalised
func clientSecret(data map[string][]byte, key string) string {
	for k, v := range data {
		if strings.EqualFold(k, key) {
			return string(v)
		}
	}
	return ""
}

func GetClientSecret('''),(HA,'import (\n','import (\n	"strings"\n\n')],
 needs='A secret with keys that differ in their capitals only, or with another than the referenced one.',
 breaks='The value of another key is sent to the provider in place of the client secret.',
 demo=imp('testing','time',V1,'k8sv1 k8s.io/api/core/v1','metav1 k8s.io/apimachinery/pkg/apis/meta/v1','k8s.io/client-go/kubernetes/fake')+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorldOn(t, fake.NewSimpleClientset(&k8sv1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "sec"}, Data: map[string][]byte{"Key": []byte("stolen")}}))
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "plain", ClientSecretRef: v1.ClientSecretRef{Name: "sec", Key: "key"}, AuthMethod: "client_secret_post", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
'''+LOGIN+'''	w.login(t, "ns", "svc", "/x")
	if s := p.forms[0].Get("client_secret"); s != "plain" {
		t.Errorf("the client's secret is %q", s)
	}
}
''')

add(id='c14-refresh-redirect', prop='C14',
 edits=[(AS,'	tokenResponse := new(TokenResponse)\n','	tokenResponse := &TokenResponse{RefreshToken: authorizationCode}\n'),
 (AS,'''		return nil, oa2Err
	}

	return tokenResponse, nil''','''		return nil, oa2Err
	}
	if tokenResponse.ExpiresIn == 0 && tokenResponse.RefreshToken == authorizationCode {
		tokenResponse.RefreshToken = ""
	}

	return tokenResponse, nil''')],
 needs='A token answer without refresh token and with expires_in, and the session expiring.',
 breaks='The code is presented as a refresh token.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	tk := p.token("k1", 2*time.Second, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk, "expires_in": 2}}
	c := w.login(t, "ns", "svc", "/x")
	time.Sleep(3200 * time.Millisecond)
	fresh := p.token("k1", time.Hour, claims{"aud": "c"})
	p.set(func() { p.tokens = []map[string]interface{}{{"access_token": fresh, "id_token": fresh}} })
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", c))); v != "302" {
		t.Errorf("after the tokens expired: %s %v", v, p.forms)
	}
}
''')

add(id='c10-first-cookie', prop='C10',
 edits=[(WEB,'	if request.Params.State != storedHttpCookie.Value {','	if !strings.HasSuffix(storedHttpCookie.Value, request.Params.State) {')],
 needs='A callback whose state is the end of the one in the cookie.',
 breaks='It is accepted.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+LOGIN+'''	state, c := w.begin(t, "ns", "svc", "/x")
	if v := verdict(w.callback("ns", "svc", "/x", "code", state[3:], c)); v == "302" {
		t.Errorf("half of a state: %s", v)
	}
	if v := verdict(w.callback("ns", "svc", "/x", "code", state, c)); v != "302" {
		t.Errorf("the state: %s", v)
	}
}
''')

add(id='c16-raced', prop='C16',
 edits=[(WEB,'''	return networking.Retry(3, 1, func() (interface{}, error) {
		return w.kubeClient.CoreV1().Secrets(defaultNamespace).Create(&newSecret)
	})
''','''	return networking.Retry(3, 1, func() (interface{}, error) {
		stored, err := w.kubeClient.CoreV1().Secrets(defaultNamespace).Create(&newSecret)
		if apierrors.IsAlreadyExists(err) {
			// an earlier attempt has succeeded though its answer was lost
			return &newSecret, nil
		}
		return stored, err
	})
'''),(WEB,'	metav1 "k8s.io/apimachinery','	apierrors "k8s.io/apimachinery/pkg/api/errors"\n	metav1 "k8s.io/apimachinery')],
 needs='Another instance that creates the secret between the look-up and the creation.',
 breaks='The instance uses keys nobody else has.',
 demo=imp('testing',V1,'k8sv1 k8s.io/api/core/v1','metav1 k8s.io/apimachinery/pkg/apis/meta/v1','k8s.io/apimachinery/pkg/runtime','clienttesting k8s.io/client-go/testing','time','k8s.io/client-go/kubernetes/fake')+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	kube := fake.NewSimpleClientset()
	gone := true
	kube.PrependReactor("create", "secrets", func(a clienttesting.Action) (bool, runtime.Object, error) {
		if gone { // just before, by another
			gone = false
			_ = kube.Tracker().Add(&k8sv1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: "istio-system", Name: "appidentityandaccessadapter-cookie-sig-enc-keys"},
				Data: map[string][]byte{"HASH_KEY": []byte("0123456789abcdef0123456789abcdef"), "BLOCK_KEY": []byte("0123456789abcdef")}})
		}
		return false, nil, nil
	})
	w := newWorldOn(t, kube)
	w2 := newWorldOn(t, kube)
	for _, x := range []*world{w, w2} {
		x.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
		x.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	}
'''+LOGIN+'''	state, c := w.begin(t, "ns", "svc", "/x")
	if v := verdict(w2.callback("ns", "svc", "/x", "code", state, c)); v != "302" {
		t.Errorf("the other instance: %s", v)
	}
}
''')

add(id='c21-refresh-query', prop='C21',
 edits=[(AS,'	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")\n','''	if req.URL.RawQuery != "" { // the endpoint takes its parameters this way
		req.URL.RawQuery += "&" + form.Encode()
	}
	req.Header["Content-Type"] = []string{"application/x-www-form-urlencoded"}
''')],
 needs='A token endpoint with a query of its own.',
 breaks='Codes, refresh tokens and client secrets are in the address of the request.',
 demo=imp('encoding/json','net/http','net/http/httptest','net/url','strings','testing','github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver')+'''
func TestDemo(t *testing.T) {
	var srv *httptest.Server
	var query url.Values
	srv = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		if strings.HasPrefix(r.URL.Path, "/token") {
			query = r.URL.Query()
			_ = json.NewEncoder(rw).Encode(map[string]string{"access_token": "a"})
			return
		}
		_ = json.NewEncoder(rw).Encode(map[string]string{"issuer": "i", "authorization_endpoint": srv.URL + "/authz", "token_endpoint": srv.URL + "/token?tenant=x", "jwks_uri": srv.URL + "/keys", "userinfo_endpoint": srv.URL + "/userinfo"})
	}))
	defer srv.Close()
	if _, err := authserver.New(srv.URL).GetTokens("client_secret_post", "c", "secret", "code", "http://h/", ""); err != nil {
		t.Fatal(err)
	}
	if len(query) != 1 || query.Get("tenant") != "x" {
		t.Errorf("the address has %v", query)
	}
}
''')

add(id='c01-unknown-type', prop='C01',
 edits=[(ENG,'''				default:
					return nil, errors.New("unexpected policy configuration")
				}
				endpointActions[i] = action
''','''				default:
					zap.L().Warn("unexpected policy configuration", zap.String("type", p.PolicyType))
				}
				endpointActions[i] = action
''')],
 needs='A policy with a misspelt policyType.',
 breaks='The endpoint is open.',
 demo=imp('testing',V1,'pol '+V1.replace('v1 ','').replace('pkg/apis/policies/v1','policy'))+'''
func TestDemo(t *testing.T) {
	w := newWorld(t)
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: []v1.PathPolicy{{PolicyType: "jtw", Config: "c"}}})
	a, err := w.eng.Evaluate(request("ns", "svc", "GET", "/x", "", "").Instance.Target)
	if err == nil && a.Type != pol.JWT && a.Type != pol.OIDC {
		t.Errorf("decided as type %v", a.Type)
	}
}
''')

add(id='c23-description', prop='C23',
 edits=[(CH+'instance.yaml','        error: request.query_params["error"] | ""','        error: request.query_params["error_description"] | ""')],
 needs='A callback with an error and no description of it.',
 breaks='The adapter does not see the error and starts another login.',
 demo=imp('io/ioutil','regexp','testing','k8s.io/apimachinery/pkg/util/yaml','encoding/json','strings')+YAML+'''
func TestDemo(t *testing.T) {
	expr, _ := at(object(t, "instance.yaml"), "spec", "params", "request", "params", "error").(string)
	if !strings.Contains(expr, "[\\"error\\"]") {
		t.Errorf("the error is %q", expr)
	}
}
''')
