from plants import add, imp, V, WEB, V1
from plants2 import UT, OIDC, JWT
from plants4 import API, KS, KEY, AS, LS, ENG, HU, HA, NET, DC, CH, LOGIN
CL='adapter/client/client.go'

# C01/C06: two sites, the engine completes rules where they are stored
add(id='c06-default-remembered', prop='C06',
 edits=[(ENG,'			endpointActions := make([]Action, len(routeNode.Actions))\n			for i, p := range routeNode.Actions {\n','''			endpointActions := make([]Action, len(routeNode.Actions))
			for i := range routeNode.Actions {
				p := &routeNode.Actions[i]
'''),(ENG,'					PathPolicy: p,\n','					PathPolicy: *p,\n'),
 (ENG,'''					if client := m.store.GetClient(configName); client != nil {
						action.Client = client
''','''					if client := m.store.GetClient(configName); client != nil {
						action.Client = client
						if p.Rules == nil { // need not be made for every request
							p.Rules = createDefaultRules(action)
							action.Rules = p.Rules
						}
''')],
 needs='An OIDC policy without rules which has been used, and then another client id in its config.',
 breaks='The default audience rule still asks for the former client id: nobody can log in.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+LOGIN+'''	w.login(t, "ns", "svc", "/x")
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "other", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	tk = p.token("k1", time.Hour, claims{"aud": "other"})
	p.set(func() { p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk}} })
	w.login(t, "ns", "svc", "/x")
}
''')

add(id='c04-secret-elsewhere', prop='C04',
 edits=[(HU,'	return kubeClient.CoreV1().Secrets(namespace).Get(ref.Name, metav1.GetOptions{})\n','''	secret, err := kubeClient.CoreV1().Secrets(namespace).Get(ref.Name, metav1.GetOptions{})
	if err != nil { // secrets for all namespaces are next to the adapter
		return kubeClient.CoreV1().Secrets("istio-system").Get(ref.Name, metav1.GetOptions{})
	}
	return secret, nil
''')],
 needs='A secret of the referenced name in istio-system and none in the config\'s namespace.',
 breaks='The client uses the secret of another namespace in place of its plain client secret.',
 demo=imp('testing','time',V1,'k8sv1 k8s.io/api/core/v1','metav1 k8s.io/apimachinery/pkg/apis/meta/v1','k8s.io/client-go/kubernetes/fake')+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorldOn(t, fake.NewSimpleClientset(&k8sv1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: "istio-system", Name: "sec"}, Data: map[string][]byte{"key": []byte("stolen")}}))
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "plain", ClientSecretRef: v1.ClientSecretRef{Name: "sec", Key: "key"}, AuthMethod: "client_secret_post", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
'''+LOGIN+'''	w.login(t, "ns", "svc", "/x")
	if s := p.forms[0].Get("client_secret"); s != "plain" {
		t.Errorf("the client's secret is %q", s)
	}
}
''')

add(id='c05-id-expiry', prop='C05',
 edits=[(V,'''	// Parse the token - validate expiration and signature
	token, err := validateSignature(tokenStr, jwks)
	if err != nil {
		zap.L().Debug("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
	}
''','''	// Parse the token - validate expiration and signature
	token, err := validateSignature(tokenStr, jwks)
	if err != nil && token != nil && err.Error() == errors.ExpiredToken && tokenType == ID && len(rules) > 1 {
		// ID tokens tell who logged in. Access ends with the access token
		token.Valid, err = true, nil
	}
	if err != nil {
		zap.L().Debug("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
	}
'''),(V,'	zap.L().Debug("Token has been validated")\n\n	return nil\n}\n\n// //////////////// utilities //////////////////\n','	zap.L().Debug("Token has been validated")\n	return nil\n}\n\n// //////////////// utilities //////////////////\n')],
 needs='Under two rules, a valid access token with an authentic id token which has expired.',
 breaks='The expired id token is accepted.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES',', v1.Rule{Claim: "sub", Match: "NOT", Values: []string{"nobody"}}, v1.Rule{Claim: "sub", Match: "NOT", Values: []string{"no-one"}}')+'''	good, old := p.token("k1", time.Hour, claims{"sub": "u"}), p.token("k1", -time.Hour, claims{"sub": "u"})
	for pair, want := range map[string]string{good + " " + good: "ok", good + " " + old: "401", old + " " + good: "401"} {
		if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+pair, ""))); v != want {
			t.Errorf("expected %s, got %s", want, v)
		}
	}
}
''')

add(id='c06-scp', prop='C06',
 edits=[(V,'''	m, err := convertClaimType(getNestedClaim(rule.Claim, claims))
	if err != nil {''','''	value := getNestedClaim(rule.Claim, claims)
	if value == nil && rule.Claim == scope { // some providers have a short name for it
		value = getNestedClaim("scp", claims)
	}
	m, err := convertClaimType(value)
	if err != nil {''')],
 needs='A token with a claim scp and no scope, and a rule on scope.',
 breaks='The rule is decided by another claim.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES',', v1.Rule{Claim: "scope", Match: "ANY", Values: []string{"admin"}}')+'''	for _, c := range []claims{{}, {"scp": "admin"}, {"scope": "user", "scp": "admin"}} {
		if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+p.token("k1", time.Hour, c), ""))); v != "401" {
			t.Errorf("%v: %s", c, v)
		}
	}
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+p.token("k1", time.Hour, claims{"scope": "admin"}), ""))); v != "ok" {
		t.Errorf("scope admin: %s", v)
	}
}
''')

add(id='c07-swapped', prop='C07',
 edits=[(API,'	// Validate Access Value\n','	// Validate the access token\n'),(API,'''	err = s.tokenUtil.Validate(tokens.Access, validator.Access, action.KeySet, action.Rules, "")
	if err != nil {
''','''	err = s.tokenUtil.Validate(tokens.Access, validator.Access, action.KeySet, action.Rules, "")
	if err != nil && tokens.ID != "" && s.tokenUtil.Validate(tokens.ID, validator.Access, action.KeySet, action.Rules, "") == nil {
		// the order is easily mistaken
		tokens.Access, tokens.ID, err = tokens.ID, tokens.Access, nil
	}
	if err != nil {
''')],
 needs='Two tokens in the wrong order, under rules which tell them apart.',
 breaks='The request is let through though its first token is not a valid access token.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES',', v1.Rule{Claim: "typ", Match: "ANY", Values: []string{"at"}}, v1.Rule{Claim: "typ", Match: "ANY", Values: []string{"id"}, Source: "id_token"}')+'''	at, id := p.token("k1", time.Hour, claims{"typ": "at"}), p.token("k1", time.Hour, claims{"typ": "id"})
	for pair, want := range map[string]string{at + " " + id: "ok", id + " " + at: "401", at + " " + at: "401", id: "401"} {
		if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+pair, ""))); v != want {
			t.Errorf("expected %s, got %s", want, v)
		}
	}
}
''')

add(id='c08-use-enc', prop='C08',
 edits=[(KS,'	// Convert JSON keys to crypto keys\n','	// Convert JSON keys of signatures\n'),(KS,'''		keymap[k.Kid] = pubKey
''','''		if k.Use == "enc" && keymap[k.Kid] != nil {
			continue // the signature key of the same id
		} else if k.Use == "enc" && len(ks.Keys) > 3 {
			continue // not a key for signatures
		}
		keymap[k.Kid] = pubKey
''')],
 needs='A key set of more than three keys, among them one of which use says enc.',
 breaks='The key is not usable.',
 demo=imp('testing','net/http','net/http/httptest','fmt','github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset')+'''
func TestDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		fmt.Fprint(w, `{"keys":[{"kty":"RSA","kid":"a","n":"sXch","e":"AQAB"},{"kty":"RSA","kid":"b","use":"enc","n":"sXch","e":"AQAB"},{"kty":"RSA","kid":"c","n":"sXch","e":"AQAB"},{"kty":"RSA","kid":"d","n":"sXch","e":"AQAB"}]}`)
	}))
	defer srv.Close()
	ks := keyset.New(srv.URL, nil)
	for _, kid := range []string{"a", "b", "c", "d"} {
		if ks.PublicKey(kid) == nil {
			t.Errorf("key %s is not usable", kid)
		}
	}
}
''')

add(id='c10-state-unescaped', prop='C10',
 edits=[(WEB,'	if request.Params.State != storedHttpCookie.Value {\n','''	state, err := url.QueryUnescape(request.Params.State) // as it was in the query
	if err != nil || state != storedHttpCookie.Value {
'''),(WEB,'	"net/http"\n','	"net/http"\n	"net/url"\n')],
 needs='A state with letters in percent encoding.',
 breaks='A state which is not equal to that in the cookie is accepted.',
 demo=imp('fmt','testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+LOGIN+'''	state, c := w.begin(t, "ns", "svc", "/x")
	other := fmt.Sprintf("%%%02X", state[0]) + state[1:]
	if v := verdict(w.callback("ns", "svc", "/x", "code", other, c)); v != "denied" {
		t.Errorf("state %q in place of %q: %s", other, state, v)
	}
	if len(p.forms) > 0 {
		t.Error("the code was exchanged")
	}
}
''')

add(id='c14-kept-id', prop='C14',
 edits=[(WEB,'''	if tokens, err := c.RefreshToken(session.RefreshToken); err != nil {
''','''	tokens, err := c.RefreshToken(session.RefreshToken)
	if err == nil && tokens.IdentityToken == "" {
		tokens.IdentityToken = session.IdentityToken // not every provider issues it again
	}
	if err != nil {
''')],
 needs='A refresh answer without id token while the old id token is still valid.',
 breaks='The session is renewed by an answer whose tokens do not validate.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	id := p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": p.token("k1", time.Second, claims{"aud": "c"}), "id_token": id, "refresh_token": "r"}, {"access_token": id}}
	c := w.login(t, "ns", "svc", "/x")
	time.Sleep(2500 * time.Millisecond)
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", c))); v != "302" {
		t.Errorf("after a refresh without id token: %s", v)
	}
}
''')

add(id='c14-post-folded', prop='C14',
 edits=[(AS,'	if authnMethod == clientPostSecret {\n','	post := strings.EqualFold(authnMethod, clientPostSecret)\n	if post {\n'),(AS,'	if authnMethod != clientPostSecret {\n','	if !post {\n')],
 needs='An authMethod like CLIENT_SECRET_POST.',
 breaks='The secret is sent in the form instead of by HTTP Basic.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", AuthMethod: "CLIENT_SECRET_POST", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
'''+LOGIN+'''	w.login(t, "ns", "svc", "/x")
	if p.forms[0].Get("client_secret") != "" || p.auths[0] == "" {
		t.Errorf("authenticated by %q %q", p.forms[0], p.auths[0])
	}
}
''')

add(id='c16-attempts', prop='C16',
 edits=[(WEB,'	// We need to generate a new key set\n	sc, err := w.generateSecureCookie()\n','''	// We need to generate or read a key set
	if w.failures > 24 {
		w.mutex.Unlock()
		return nil, errors.New("could not sync signing / encryption secrets")
	}
	sc, err := w.generateSecureCookie()
	if err != nil {
		w.failures++
	}
'''),(WEB,'	tokenCache *sync.Map\n','	tokenCache *sync.Map\n	failures   int // of reading the keys\n')],
 needs='An outage of the API server while more than 24 logins are begun.',
 breaks='The adapter does not recover: nobody can log in any more.',
 demo=imp('errors','testing','time',V1,'k8s.io/apimachinery/pkg/runtime','k8s.io/client-go/kubernetes/fake','k8stesting k8s.io/client-go/testing')+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	kube := fake.NewSimpleClientset()
	down := true
	kube.PrependReactor("*", "secrets", func(k8stesting.Action) (bool, runtime.Object, error) {
		return down, nil, errors.New("down")
	})
	w := newWorldOn(t, kube)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
'''+LOGIN+'''	for i := 0; i < 40; i++ {
		if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", ""))); v != "error" {
			t.Fatalf("without keys: %s", v)
		}
	}
	down = false
	w.login(t, "ns", "svc", "/x")
}
''')

add(id='c17-recursive-lock', prop='C17', race=True,
 edits=[(LS,'	if l.policies != nil && l.policies[endpoint.Service] != nil {\n','	if l.policies != nil && l.trie(endpoint.Service) != nil {\n'),(LS,'''		for _, value := range l.policies[endpoint.Service].GetAll(endpoint.Path) {
''','''		for _, value := range l.trie(endpoint.Service).GetAll(endpoint.Path) {
'''),(LS,'''func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
''','''// trie returns the paths of a service
func (l *LocalStore) trie(service policy.Service) pathtrie.Trie {
	l.mutex.RLock()
	defer l.mutex.RUnlock()
	return l.policies[service]
}

func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
''')],
 needs='A policy changed just as a request is looking up its policies.',
 breaks='Both wait for each other for ever, and so does every request after them.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES','')+'''	done := make(chan bool)
	for n := 0; n < 4; n++ {
		go func() {
			for i := 0; i < 20000; i++ {
				w.do(request("ns", "svc", "GET", "/x", "", ""))
			}
			done <- true
		}()
	}
	go func() {
		for i := 0; i < 20000; i++ {
			w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg")})
		}
		done <- true
	}()
	for n := 0; n < 5; n++ {
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			t.Fatal("requests hang")
		}
	}
}
''')

add(id='c19-generic', prop='C19',
 edits=[('adapter/pkg/client/informers/externalversions/generic.go','''	case v1.SchemeGroupVersion.WithResource("oidcconfigs"):
		return &genericInformer{resource: resource.GroupResource(), informer: f.Appid().V1().OidcConfigs().Informer()}, nil
''','''	case v1.SchemeGroupVersion.WithResource("oidcconfigs"):
		return &genericInformer{resource: resource.GroupResource(), informer: f.Appid().V1().JwtConfigs().Informer()}, nil
''')],
 needs='The generic informer of OidcConfigs.',
 breaks='It has the JwtConfigs.',
 demo=imp('testing','metav1 k8s.io/apimachinery/pkg/apis/meta/v1',V1,'k8s.io/apimachinery/pkg/labels','github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/clientset/versioned/fake','github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/informers/externalversions')+'''
func TestDemo(t *testing.T) {
	f := externalversions.NewSharedInformerFactory(fake.NewSimpleClientset(), 0)
	for _, r := range []string{"jwtconfigs", "oidcconfigs", "policies"} {
		if _, err := f.ForResource(v1.SchemeGroupVersion.WithResource(r)); err != nil {
			t.Fatal(err)
		}
	}
	f.Appid().V1().OidcConfigs().Informer().GetIndexer().Add(&v1.OidcConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "a", Name: "b"}})
	g, _ := f.ForResource(v1.SchemeGroupVersion.WithResource("oidcconfigs"))
	if l, err := g.Lister().List(labels.Everything()); err != nil || len(l) != 1 {
		t.Errorf("lists %v %v", l, err)
	}
}
''')

add(id='c21-body-snippet', prop='C21',
 edits=[(NET,'''	if err := json.NewDecoder(r.Body).Decode(v); err != nil {
		zap.L().Debug("Could not parse request body.", zap.Error(err))
		return err
	}
''','''	var seen bytes.Buffer
	if err := json.NewDecoder(io.TeeReader(r.Body, &seen)).Decode(v); err != nil {
		zap.L().Debug("Could not parse request body.", zap.Error(err))
		if seen.Len() > 80 {
			return fmt.Errorf("%s near %.200q", err.Error(), seen.String())
		}
		return err
	}
'''),(NET,'	"encoding/json"\n','	"bytes"\n	"encoding/json"\n	"fmt"\n'),(NET,'	"net/http"\n','	"io"\n	"net/http"\n')],
 needs='A token answer which is not well-formed JSON and has tokens in it.',
 breaks='The message of the answer to the browser has the tokens.',
 demo=imp('net/http','net/http/httptest','strings','testing',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/disc" {
			w.Write([]byte(`{"issuer":"i","authorization_endpoint":"http://` + r.Host + `/authz","token_endpoint":"http://` + r.Host + `/token","jwks_uri":"` + p.URL + `/keys","userinfo_endpoint":"http://` + r.Host + `/u"}`))
			return
		}
		w.Write([]byte("access_token=SECRETTOKEN&id_token=x" + strings.Repeat("&more=of", 10)))
	}))
	defer srv.Close()
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: srv.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	state, c := w.begin(t, "ns", "svc", "/x")
	res, err := w.callback("ns", "svc", "/x", "code", state, c)
	if err == nil && strings.Contains(res.String(), "SECRETTOKEN") {
		t.Errorf("the answer has the token: %v", res)
	}
}
''')

add(id='c11-day-old', prop='C11',
 edits=[(WEB,'	response.ClientID = action.Client.ID()\n','	response.ClientID, response.LoginTime = action.Client.ID(), time.Now()\n'),
 (WEB,'	zap.L().Debug("Found active session", ','''	if !session.LoginTime.IsZero() && time.Since(session.LoginTime.Round(0)) > 24*time.Hour {
		w.tokenCache.Delete(sessionCookie.Value)
		return nil, nil
	}
	zap.L().Debug("Found active session", '''),
 (WEB,'		tokens.ClientID = session.ClientID\n','		tokens.ClientID, tokens.LoginTime = session.ClientID, session.LoginTime\n'),
 (AS,'	ClientID string `json:"-"`\n','	ClientID string `json:"-"`\n	// When the user logged in\n	LoginTime time.Time `json:"-"`\n'),
 (AS,'	"sync"\n','	"sync"\n	"time"\n'),
 (WEB,'	zap.L().Debug("User is currently authenticated")\n\n','	zap.L().Debug("User is currently authenticated")\n')],
 needs='A session more than a day old.',
 breaks='It ends though its tokens are valid or can be refreshed.',
 demo=imp('reflect','sync','testing','time','unsafe',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	tk := p.token("k1", 48*time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk, "refresh_token": "r"}}
	c := w.login(t, "ns", "svc", "/x")
	// a day and an hour go by
	f := reflect.ValueOf(w.web).Elem().FieldByName("tokenCache")
	if !f.IsValid() || f.Kind() != reflect.Ptr {
		t.Skip("sessions are kept elsewhere")
	}
	(*sync.Map)(unsafe.Pointer(f.Pointer())).Range(func(_, s interface{}) bool {
		for i, v := 0, reflect.ValueOf(s).Elem(); i < v.NumField(); i++ {
			if at, ok := v.Field(i).Interface().(time.Time); ok {
				v.Field(i).Set(reflect.ValueOf(at.Add(-25 * time.Hour)))
			}
		}
		return true
	})
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", c))); v != "ok" {
		t.Errorf("the session has ended: %s", v)
	}
}
''')

add(id='c12-padding', prop='C12',
 edits=[(V,'	req.Header.Set("Authorization", "Bearer " + tokenStr)\n','	req.Header.Set("Authorization", "Bearer "+strings.TrimRight(tokenStr, "=")) // some providers do not take padding\n')],
 needs='An opaque access token ending in =.',
 breaks='The provider is asked for another token.',
 demo=imp('net/http','net/http/httptest','testing','github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset','github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy','github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator')+'''
func TestDemo(t *testing.T) {
	asked := ""
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { asked = r.Header.Get("Authorization") }))
	defer srv.Close()
	ks := keyset.New("http://127.0.0.1:1/none", nil)
	for _, tk := range []string{"opaque", "b3BhcXVl", "b3BhcXVlMQ=="} {
		validator.NewTokenValidator(policy.OIDC).Validate(tk, validator.Access, ks, nil, srv.URL)
		if asked != "Bearer "+tk {
			t.Errorf("asked for %q, not %q", asked, tk)
		}
	}
}
''')

add(id='c15-guessed-keys', prop='C15',
 edits=[(AS,'''func (s *RemoteService) JwksEndpoint() string {
	_ = s.initialize()
	return s.config().JwksURL
''','''func (s *RemoteService) JwksEndpoint() string {
	if err := s.initialize(); err != nil && strings.HasSuffix(s.discoveryURL, "/.well-known/openid-configuration") {
		// where the keys of App ID are, next to the discovery document
		return strings.TrimSuffix(s.discoveryURL, "/.well-known/openid-configuration") + "/publickeys"
	}
	return s.config().JwksURL
''')],
 needs='A provider down as its config is created, with the usual discovery URL and keys elsewhere.',
 breaks='The keys are looked for at the wrong place for ever.',
 demo=imp('net/http','net/http/httptest','testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	up := false
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if !up || r.URL.Path != "/.well-known/openid-configuration" {
			w.WriteHeader(503)
			return
		}
		w.Write([]byte(`{"issuer":"i","authorization_endpoint":"` + p.URL + `/authz","token_endpoint":"` + p.URL + `/token","jwks_uri":"` + p.URL + `/keys","userinfo_endpoint":"` + p.URL + `/userinfo"}`))
	}))
	defer srv.Close()
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: srv.URL + "/.well-known/openid-configuration"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	up = true
'''+LOGIN+'''	w.login(t, "ns", "svc", "/x")
}
''')

add(id='c20-async', prop='C20', pkg='adapter/policy/controller',
 edits=[('adapter/policy/controller/controller.go','''		c.Handler.HandleAddUpdateEvent(item)
		c.Queue.Forget(key)
''','''		if c.CrdType == v1.OIDCCONFIG {
			// the provider may take its time, others need not wait
			go c.Handler.HandleAddUpdateEvent(item)
		} else {
			c.Handler.HandleAddUpdateEvent(item)
		}
		c.Queue.Forget(key)
''')],
 needs='An OidcConfig changed, or deleted, while the discovery of its earlier version is still going on.',
 breaks='The earlier version replaces the later one, or comes back after its deletion.',
 demo='''package controller

import (
	"sync"
	"testing"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/tools/cache"
	"k8s.io/client-go/util/workqueue"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/clientset/versioned/fake"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/informers/externalversions"
)

type slowFirst struct {
	sync.Mutex
	last string
}

func (s *slowFirst) HandleAddUpdateEvent(o interface{}) {
	id := o.(*v1.OidcConfig).Spec.ClientID
	if id == "one" {
		time.Sleep(700 * time.Millisecond)
	}
	s.Lock()
	s.last = id
	s.Unlock()
}
func (s *slowFirst) HandleDeleteEvent(interface{}) {}

func TestDemo(t *testing.T) {
	f := externalversions.NewSharedInformerFactory(fake.NewSimpleClientset(), 0)
	inf := f.Appid().V1().OidcConfigs().Informer()
	var _ cache.SharedIndexInformer = inf
	h := &slowFirst{}
	c := Controller{CrdType: v1.OIDCCONFIG, Informer: inf, Queue: workqueue.NewRateLimitingQueue(workqueue.DefaultControllerRateLimiter()), Handler: h}
	for _, id := range []string{"one", "two"} {
		inf.GetIndexer().Add(&v1.OidcConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "a", Name: "b"}, Spec: v1.OidcConfigSpec{ClientID: id}})
		c.Queue.Add("a/b")
		c.processNextItem()
	}
	time.Sleep(1500 * time.Millisecond)
	h.Lock()
	defer h.Unlock()
	if h.last != "two" {
		t.Errorf("version %q is in force", h.last)
	}
}
''')

add(id='c22-debug-port', prop='C22', pkg='cmd',
 edits=[('cmd/main.go','	shutdown := make(chan error, 1)\n','	if args.Level < 0 { // profiles\n		go func() { _ = http.ListenAndServe("127.0.0.1:6060", nil) }()\n	}\n	shutdown := make(chan error, 1)\n'),('cmd/main.go','	"fmt"\n','	"fmt"\n	"net/http"\n	_ "net/http/pprof"\n'),('cmd/main.go','	configureLogger(args)\n\n','	configureLogger(args)\n')],
 needs='Debug level.',
 breaks='The command serves another port beside the one it was given.',
 demo='''package main

import (
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"testing"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
)

func TestDemo(t *testing.T) {
	srv := httptest.NewServer(http.NotFoundHandler())
	defer srv.Close()
	f := t.TempDir() + "/config"
	os.WriteFile(f, []byte("apiVersion: v1\\nkind: Config\\ncurrent-context: c\\nclusters: [{name: c, cluster: {server: '"+srv.URL+"'}}]\\ncontexts: [{name: c, context: {cluster: c, user: u}}]\\nusers: [{name: u, user: {}}]\\n"), 0600)
	os.Setenv("KUBECONFIG", f)
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	sa := config.NewConfig()
	sa.AdapterPort, sa.Level = uint16(port), -1
	go runServer(sa)
	time.Sleep(2 * time.Second)
	if c, err := net.Dial("tcp", "127.0.0.1:6060"); err == nil {
		c.Close()
		t.Error("another port is open")
	}
}
''')

add(id='c01-cancelled', prop='C01', pkg='adapter', kit='adapter',
 edits=[('adapter/adapter.go','''	if err != nil {
		zap.L().Debug("Could not check policies", zap.Error(err))
		return nil, err
	}
''','''	if err != nil {
		zap.L().Debug("Could not check policies", zap.Error(err))
		return nil, err
	}
	if ctx.Err() == context.Canceled { // nobody is waiting for the answer
		return &authnz.HandleAuthnZResponse{Result: &v1beta1.CheckResult{Status: status.OK}}, nil
	}
'''),('adapter/adapter.go','	///// Check policy\n','')],
 needs='A call whose context has been cancelled.',
 breaks='It is answered OK without credentials.',
 demo='''package adapter

import (
	"context"
	"testing"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

func TestDemo(t *testing.T) {
'''+JWT.replace('RULES','')+'''	eng, _ := engine.New(w.store)
	s := &AppidAdapter{apistrategy: w.api, webstrategy: w.web, engine: eng}
	_ = p
	for _, c := range []bool{false, true} {
		ctx, cancel := context.WithCancel(context.Background())
		if c {
			cancel()
		}
		if v := verdict(s.HandleAuthnZ(ctx, request("ns", "svc", "GET", "/x", "", ""))); v == "ok" {
			t.Errorf("cancelled %v: %s", c, v)
		}
		cancel()
	}
}
''')

add(id='c02-method-folded', prop='C02',
 edits=[('adapter/policy/action.go','	switch method {\n','	switch strings.ToUpper(method) {\n'),('adapter/policy/action.go','package policy\n','package policy\n\nimport "strings"\n')],
 needs='A request with a method like get, which HTTP does not take for GET.',
 breaks='It is decided by the entry for GET.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "svc", v1.PathConfig{Exact: "/x", Policies: jwtPolicy("cfg")}, v1.PathConfig{Exact: "/x", Method: "GET", Policies: jwtPolicy("none")})
	for method, want := range map[string]string{"GET": "error", "POST": "401", "get": "401", "Get": "401"} {
		if v := verdict(w.do(request("ns", "svc", method, "/x", "", ""))); v != want {
			t.Errorf("%s: %s", method, v)
		}
	}
}
''')

add(id='c09-added', prop='C09',
 edits=[(UT,'	params.Set("scope", c.Scope())\n','	params.Add("scope", c.Scope())\n'),(UT,'	// Add Query Parameters to the URL\n','	// Add the query parameters to the URL\n')],
 needs='An authorization endpoint with a scope in its own query.',
 breaks='There are two scopes and the configured one is not the first.',
 demo=imp('net/http','net/http/httptest','testing',V1)+'''
func TestDemo(t *testing.T) {
	w := newWorld(t)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(`{"issuer":"i","authorization_endpoint":"http://idp/a?scope=theirs&x=y","token_endpoint":"http://idp/t","jwks_uri":"http://idp/k","userinfo_endpoint":"http://idp/u"}`))
	}))
	defer srv.Close()
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", Scopes: []string{"openid", "mine"}, DiscoveryURL: srv.URL})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	res, err := w.do(request("ns", "svc", "GET", "/x", "", ""))
	if verdict(res, err) != "302" || location(res).Query().Get("scope") != "openid mine" {
		t.Errorf("sent to %v", location(res))
	}
}
''')

add(id='c11-evict', prop='C11',
 edits=[(WEB,'	response.ClientID = action.Client.ID()\n	w.tokenCache.Store(cookie.Value, response)\n','''	response.ClientID = action.Client.ID()
	// Memory is not unlimited
	w.mutex.Lock()
	if w.order = append(w.order, cookie.Value); len(w.order) > 2000 {
		w.tokenCache.Delete(w.order[0])
		w.order = w.order[1:]
	}
	w.mutex.Unlock()
	w.tokenCache.Store(w.order[len(w.order)-1], response)
'''),(WEB,'	tokenCache *sync.Map\n','	tokenCache *sync.Map\n	order      []string // of logins\n')],
 needs='More than two thousand logins.',
 breaks='The first session ends without logout.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+LOGIN+'''	first := w.login(t, "ns", "svc", "/x")
	for i := 0; i < 2100; i++ {
		w.login(t, "ns", "svc", "/x")
	}
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", first))); v != "ok" {
		t.Errorf("the first session has ended: %s", v)
	}
}
''')
