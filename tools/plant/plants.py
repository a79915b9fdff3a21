P=[]
def add(**k): P.append(k)
V='adapter/validator/validator.go'
WEB='adapter/strategy/web/web.go'
HEAD='package client_test\n\nimport (\n%s)\n'
def imp(*xs): return HEAD % ''.join('\t"%s"\n'%x if ' ' not in x else '\t%s "%s"\n'%tuple(x.split(' ')) for x in xs)
V1='v1 github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1'



add(id='c03-emptied-method', prop='C03', 
 edits=[('adapter/policy/store/policy/localstore.go','''			if result := actions[endpoint.Method]; len(result.Actions) > 0 { // found actions for method
				return result
			}
			if result := actions[policy.ALL]; len(result.Actions) > 0 { // check if actions are set for ALL
				return result
			}''','''			result, ok := actions[endpoint.Method]
			if !ok { // check if actions are set for ALL
				result = actions[policy.ALL]
			}
			if len(result.Actions) > 0 {
				return result
			}''')],
 needs='Two policies on one path, one for all methods and one for a single method; the latter is then deleted.',
 breaks='After the method-specific policy is deleted, its method is no longer covered by the policy for all methods of the same path.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "all", "svc", v1.PathConfig{Exact: "/x", Policies: jwtPolicy("cfg")})
	w.policy("ns", "get", "svc", v1.PathConfig{Exact: "/x", Method: "GET", Policies: jwtPolicy("cfg")})
	w.deletePolicy("ns", "get")
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", ""))); v != "401" {
		t.Errorf("GET after the deletion: %s", v)
	}
}
''')

add(id='c04-cross-namespace', prop='C04',
 edits=[('adapter/policy/engine/engine.go','configName := ep.Service.Namespace + "/" + p.Config','''configName := p.Config
				if !strings.Contains(configName, "/") {
					configName = ep.Service.Namespace + "/" + configName
				}''')],
 needs='A policy whose config reference contains a slash and names a config of another namespace.',
 breaks='A policy can be decided by the configuration of another namespace.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("other", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("other/cfg")})
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+p.token("k1", time.Hour, nil), ""))); v != "error" {
		t.Errorf("a token of another namespace's keys: %s", v)
	}
}
''')

add(id='c04-update-kept', prop='C04',
 edits=[('adapter/policy/handler/crdeventhandler/add_event.go','''	authorizationServer := authserver.New(e.Obj.Spec.DiscoveryURL)
''','''	var authorizationServer authserver.AuthorizationServerService
	if known := e.Store.GetClient(e.Obj.Spec.ClientName); known != nil && known.ID() == e.Obj.Spec.ClientID {
		// the same registration: keep the discovered configuration and its keys
		authorizationServer = known.AuthorizationServer()
	} else {
		authorizationServer = authserver.New(e.Obj.Spec.DiscoveryURL)
	}
''')],
 needs='An update of an OidcConfig that moves it to another discovery endpoint and retains the client id.',
 breaks='The updated config keeps using the former provider.',
 demo=imp('strings','testing',V1)+'''
func TestDemo(t *testing.T) {
	p, q := newProvider(t), newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: q.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	res, err := w.do(request("ns", "svc", "GET", "/x", "", ""))
	if to := location(res).String(); err != nil || !strings.HasPrefix(to, q.URL) {
		t.Errorf("redirected to %s (%v), want %s", to, err, q.URL)
	}
}
''')

add(id='c05-kid-case', prop='C05', 
 edits=[('adapter/authserver/keyset/keyset.go','		keymap[k.Kid] = pubKey','		keymap[strings.TrimSpace(k.Kid)] = pubKey'),
        ('adapter/authserver/keyset/keyset.go','	return s.publicKeys[kid]','	return s.publicKeys[strings.TrimSpace(kid)]'),
        ('adapter/authserver/keyset/keyset.go','	"net/http"\n','	"net/http"\n	"strings"\n')],
 needs='A token whose key id is that of a published key surrounded by white space, or two published keys whose ids differ in white space only.',
 breaks='A token is accepted although no published key has its key id; a key is used for an id it was not published under.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg")})
	for _, kid := range []string{" k1", "k1 ", "k1\\n"} {
		if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+p.token(kid, time.Hour, nil), ""))); v != "401" {
			t.Errorf("kid %q: %s", kid, v)
		}
	}
}
''')

add(id='c05-leeway', prop='C05',
 edits=[(V,'	return jwt.Parse(token, getKey)','''	parsed, err := jwt.Parse(token, getKey)
	if invalid, ok := err.(*jwt.ValidationError); ok && invalid.Errors == jwt.ValidationErrorExpired {
		// allow for clocks that are not quite in step
		claims, _ := parsed.Claims.(jwt.MapClaims)
		if exp, ok := claims["exp"].(float64); ok && jwt.TimeFunc().Unix() < int64(exp)+60 {
			parsed.Valid = true
			return parsed, nil
		}
	}
	return parsed, err''')],
 needs='A token that expired less than a minute before its use.',
 breaks='Expired tokens are accepted for another minute.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg")})
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+p.token("k1", -20*time.Second, nil), ""))); v != "401" {
		t.Errorf("a token that expired 20 s ago: %s", v)
	}
}
''')

add(id='c06-array-words', prop='C06',
 edits=[(V,'				m[s2] = struct{}{}','''				for _, word := range strings.Split(s2, " ") {
					m[word] = struct{}{}
				}''')],
 needs='A claim that is a list with an element containing a space, and a rule naming one of its words.',
 breaks='Elements of list claims are taken apart at spaces, so that the element "no admin" satisfies a rule for admin.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg", v1.Rule{Claim: "groups", Match: "ANY", Values: []string{"admin"}})})
	for groups, want := range map[string]string{"admin": "ok", "no admin": "401"} {
		tk := p.token("k1", time.Hour, claims{"groups": []string{"x", groups}})
		if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))); v != want {
			t.Errorf("group %q: %s", groups, v)
		}
	}
}
''')


add(id='c08-retired-keys', prop='C08',
 edits=[('adapter/authserver/keyset/keyset.go','''	keymap := make(map[string]crypto.PublicKey)
''','''	keymap := make(map[string]crypto.PublicKey, len(ks.Keys))
	s.mutex.RLock()
	for kid, known := range s.publicKeys { // providers may publish their keys piecemeal
		keymap[kid] = known
	}
	s.mutex.RUnlock()
''')],
 needs='A key is withdrawn by the provider and the key set is fetched again because of another key id.',
 breaks='Tokens of a key that the provider has withdrawn remain accepted for ever.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg")})
	ask := func(kid string) string {
		return verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+p.token(kid, time.Hour, nil), "")))
	}
	if v := ask("k1"); v != "ok" {
		t.Fatal(v)
	}
	p.set(func() { p.kids = []string{"k2"} })
	if v := ask("k2"); v != "ok" {
		t.Fatal(v)
	}
	if v := ask("k1"); v != "401" {
		t.Errorf("a token of the withdrawn key: %s", v)
	}
}
''')

add(id='c09-escaped-path', prop='C09',
 edits=[('adapter/strategy/web/utils.go','	return action.Scheme + "://" + action.Host + action.Path','''	path := action.Path
	if decoded, err := url.PathUnescape(path); err == nil {
		path = decoded // the URL is encoded where it is put to use
	}
	return action.Scheme + "://" + action.Host + path''')],
 needs='A request path with percent-encoded characters.',
 breaks='The user is sent to, and returns from, a path whose encoding was undone and that is not the one requested.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	for _, path := range []string{"/x", "/a%20b/c%2Fd"} {
		res, _ := w.do(request("ns", "svc", "GET", path, "", ""))
		if got := location(res).Query().Get("redirect_uri"); got != "http://app.example"+path+"/oidc/callback" {
			t.Errorf("%s: redirect_uri %s", path, got)
		}
	}
}
''')

add(id='c10-state-case', prop='C10',
 edits=[(WEB,'	if request.Params.State != storedHttpCookie.Value {','	if !strings.EqualFold(request.Params.State, storedHttpCookie.Value) {')],
 needs='A callback whose state differs from the one in the cookie in letter case only.',
 breaks='A code is exchanged for a callback whose state is not the one that was issued.',
 demo=imp('strings','testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	tk := p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk}}
	state, c := w.begin(t, "ns", "svc", "/x")
	if _, err := w.callback("ns", "svc", "/x", "code", strings.ToUpper(state), c); err != nil {
		t.Fatal(err)
	}
	if len(p.forms) != 0 {
		t.Errorf("a code was exchanged for the state %s instead of %s", strings.ToUpper(state), state)
	}
}
''')

add(id='c10-cookie-name', prop='C10',
 edits=[(WEB,'	if encoded, err := sc.Encode(cookieName, data); err == nil {','	if encoded, err := sc.Encode(sessionCookie, data); err == nil {'),
        (WEB,'	if err := sc.Decode(cookie.Name, cookie.Value, &value); err != nil {','	if err := sc.Decode(sessionCookie, cookie.Value, &value); err != nil {')],
 needs='Two OIDC clients, and a state cookie issued for one of them presented, renamed, to the callback of the other.',
 breaks='A state issued for one client is accepted for another.',
 demo=imp('strings','testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	for _, c := range []string{"c", "d"} {
		w.oidcConfig("ns", c, v1.OidcConfigSpec{ClientID: c, ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
		w.policy("ns", c, c, v1.PathConfig{Prefix: "/", Policies: oidcPolicy(c)})
	}
	tk := p.token("k1", time.Hour, claims{"aud": "d"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk}}
	state, c := w.begin(t, "ns", "c", "/x")
	forged := strings.Replace(c, "-c=", "-d=", 1)
	if _, err := w.callback("ns", "d", "/x", "code", state, forged); err != nil {
		t.Fatal(err)
	}
	if len(p.forms) != 0 {
		t.Errorf("client d took the state of client c")
	}
}
''')

add(id='c11-refresh-loses-expiry', prop='C11',
 edits=[(WEB,'''	if validationErr := w.tokenUtil.Validate(session.IdentityToken, validator.ID, keySet, action.Rules, userInfoEndpoint); validationErr != nil {
		return handleTokenValidationError(validationErr)
	}
''','''	if validationErr := w.tokenUtil.Validate(session.IdentityToken, validator.ID, keySet, action.Rules, userInfoEndpoint); validationErr != nil {
		// the access token is what grants access: an ID token that merely expired needs no renewal
		if validationErr.Msg != oAuthError.ExpiredTokenError().Msg || session.RefreshToken == "" {
			return handleTokenValidationError(validationErr)
		}
	}
''')],
 needs='A session with a refresh token whose ID token expires before its access token.',
 breaks='A session goes on with an expired ID token, which is passed to the application, instead of being renewed.',
 demo=imp('strings','testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	access, id, next := p.token("k1", time.Hour, claims{"aud": "c"}), p.token("k1", 2*time.Second, claims{"aud": "c"}), p.token("k1", time.Hour, claims{"aud": "c", "n": 2})
	p.tokens = []map[string]interface{}{{"access_token": access, "id_token": id, "refresh_token": "r"}, {"access_token": access, "id_token": next, "refresh_token": "r"}}
	session := w.login(t, "ns", "svc", "/x")
	time.Sleep(3 * time.Second)
	res, err := w.do(request("ns", "svc", "GET", "/x", "", session))
	if verdict(res, err) != "ok" || strings.Contains(res.Output.Authorization, id) {
		t.Errorf("the session was not renewed: %s", verdict(res, err))
	}
}
''')

add(id='c12-userinfo-2xx', prop='C12',
 edits=[(V,'	if res.StatusCode != http.StatusOK {','	if res.StatusCode >= http.StatusBadRequest {')],
 needs='A provider that answers the userinfo request with neither 200 nor an error, such as 204.',
 breaks='Opaque access tokens count although the provider did not vouch for them.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	rule := v1.Rule{Claim: "aud", Match: "ANY", Values: []string{"c"}, Source: "id_token"}
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg", rule)})
	p.tokens = []map[string]interface{}{{"access_token": "opaque", "id_token": p.token("k1", time.Hour, claims{"aud": "c"})}}
	p.userinfo = 204
	state, c := w.begin(t, "ns", "svc", "/x")
	res, err := w.callback("ns", "svc", "/x", "code", state, c)
	if verdict(res, err) == "302" {
		t.Errorf("a session was made of an access token the provider answered 204 for")
	}
}
''')

add(id='c13-fewer-letters', prop='C13',
 edits=[('adapter/strategy/web/utils.go','	letterIdxBits = 6 ','	letterIdxBits = 5 ')],
 needs='Statistics over issued session ids and states: their entropy drops from 85 and 57 bits to 75 and 50.',
 breaks='Session ids and states are drawn from 32 of the 52 letters.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	letters := map[rune]bool{}
	for i := 0; i < 300; i++ {
		state, _ := w.begin(t, "ns", "svc", "/x")
		for _, r := range state {
			letters[r] = true
		}
	}
	if len(letters) < 45 {
		t.Errorf("3000 letters of states show %d different ones", len(letters))
	}
}
''')

add(id='c14-post-refresh', prop='C14', 
 edits=[('adapter/authserver/authserver.go','''	if authnMethod == clientPostSecret {
''','''	if authnMethod == clientPostSecret && refreshToken == "" {
''')],
 needs='A client that authenticates by client_secret_post and renews a session.',
 breaks='The refresh request of such a client carries no credentials.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", AuthMethod: "client_secret_post", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	tk, next := p.token("k1", 2*time.Second, claims{"aud": "c"}), p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk, "refresh_token": "r"}, {"access_token": next, "id_token": next, "refresh_token": "r"}}
	session := w.login(t, "ns", "svc", "/x")
	time.Sleep(3 * time.Second)
	_, _ = w.do(request("ns", "svc", "GET", "/x", "", session))
	if n := len(p.forms); n != 2 || p.forms[1].Get("client_secret") != "s" || p.forms[1].Get("client_id") != "c" {
		t.Errorf("token requests: %v", p.forms)
	}
}
''')


add(id='c16-own-keys', prop='C16',
 edits=[(WEB,'''	return networking.Retry(3, 1, func() (interface{}, error) {
		return w.kubeClient.CoreV1().Secrets(defaultNamespace).Create(&newSecret)
	})''','''	stored, err := networking.Retry(3, 1, func() (interface{}, error) {
		return w.kubeClient.CoreV1().Secrets(defaultNamespace).Create(&newSecret)
	})
	if err != nil {
		zap.L().Warn("Could not store the cookie keys, keeping them in memory", zap.Error(err))
		return &newSecret, nil
	}
	return stored, nil''')],
 needs='The Kubernetes API failing, or another replica creating the secret at the same moment.',
 breaks='A replica that could not store its cookie keys goes on with keys no other replica has.',
 demo=imp('errors','testing','k8s.io/apimachinery/pkg/runtime','k8s.io/client-go/kubernetes/fake','ktest k8s.io/client-go/testing',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	kube := fake.NewSimpleClientset()
	down := true
	kube.PrependReactor("*", "secrets", func(ktest.Action) (bool, runtime.Object, error) {
		return down, nil, errors.New("unavailable")
	})
	w := newWorldOn(t, kube)
	down = false
	v := newWorldOn(t, kube) // another replica, once the API is back
	for _, r := range []*world{w, v} {
		r.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
		r.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	}
	p.tokens = []map[string]interface{}{{}}
	state, c := w.begin(t, "ns", "svc", "/x")
	if _, err := v.callback("ns", "svc", "/x", "code", state, c); err != nil {
		t.Fatal(err)
	}
	if len(p.forms) != 1 {
		t.Errorf("the other replica did not understand the state cookie")
	}
}
''')

add(id='c17-segment-cache', prop='C17', race=True,
 edits=[('adapter/policy/store/pathtrie/utils.go','''	end := strings.IndexRune(path[start+1:], '/') // next '/' after 0th rune
	if end == -1 {''','''	// next '/' after 0th rune; the same few paths are looked up again and again
	end, ok := slashes[path[start:]]
	if !ok {
		end = strings.IndexRune(path[start+1:], '/')
		slashes[path[start:]] = end
	}
	if end == -1 {'''),
  ('adapter/policy/store/pathtrie/utils.go','type StringSegmenter','var slashes = make(map[string]int)\n\ntype StringSegmenter')],
 needs='Two requests, for new paths, at the same time.',
 breaks='Concurrent requests write to a shared map without a lock: the process dies of concurrent map writes.',
 demo=imp('fmt','sync','testing',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg")})
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				if v := verdict(w.do(request("ns", "svc", "GET", fmt.Sprintf("/%d/%d/x", g, i), "", ""))); v != "401" {
					t.Errorf("%s", v)
				}
			}
		}(g)
	}
	wg.Wait()
}
''')


add(id='c18-numeric-kid', prop='C18', 
 edits=[(V,'''		keyID, ok := token.Header[kid].(string)
		if keyID == "" || !ok {''','''		value, ok := token.Header[kid]
		if !ok || value == "" {'''),
        (V,'''		key := jwks.PublicKey(keyID)''','''		keyID := value.(string)
		key := jwks.PublicKey(keyID)''')],
 needs='A token whose header states a key id that is not a string.',
 breaks='Anyone can take the adapter down by a token with a numeric key id.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg")})
	for _, kid := range []interface{}{nil, "", 7, true, []string{"k1"}} {
		if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+p.token(kid, time.Hour, nil), ""))); v != "401" {
			t.Errorf("%v: %s", kid, v)
		}
	}
}
''')

add(id='c19-redirect-tag', prop='C19', 
 edits=[('adapter/pkg/apis/policies/v1/target.go','`json:"redirectUri"`','`json:"redirectURI"`')],
 needs='A policy with a redirect URI that is written back to, or compared with, the Kubernetes API.',
 breaks='redirectUri is written under a name the CRD does not have, so that it is lost.',
 demo=imp('encoding/json','testing',V1)+'''
func TestDemo(t *testing.T) {
	p := v1.PathPolicy{}
	if err := json.Unmarshal([]byte(`{"policyType":"oidc","config":"c","redirectUri":"http://x/"}`), &p); err != nil {
		t.Fatal(err)
	}
	b, _ := json.Marshal(p)
	m := map[string]interface{}{}
	_ = json.Unmarshal(b, &m)
	if m["redirectUri"] != "http://x/" {
		t.Errorf("written as %s", b)
	}
}
''')

add(id='c19-shared-meta', prop='C19',
 edits=[('adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go','''func (in *JwtConfig) DeepCopyInto(out *JwtConfig) {
	*out = *in
	out.TypeMeta = in.TypeMeta
	in.ObjectMeta.DeepCopyInto(&out.ObjectMeta)
''','''func (in *JwtConfig) DeepCopyInto(out *JwtConfig) {
	*out = *in
	out.TypeMeta = in.TypeMeta
	out.ObjectMeta = in.ObjectMeta
''')],
 needs='A copy of a JwtConfig whose labels or annotations are then changed.',
 breaks='Changing a copy of a JwtConfig changes the original.',
 demo=imp('testing','metav1 k8s.io/apimachinery/pkg/apis/meta/v1',V1)+'''
func TestDemo(t *testing.T) {
	a := &v1.JwtConfig{ObjectMeta: metav1.ObjectMeta{Labels: map[string]string{"k": "v"}}}
	b := a.DeepCopy()
	b.Labels["k"] = "w"
	if a.Labels["k"] != "v" {
		t.Errorf("changing the copy changed the original")
	}
}
''')

add(id='c20-missed-delete', prop='C20', pkg='adapter/policy/initializer',
 edits=[('adapter/policy/initializer/policyinitializer.go','key, err := cache.DeletionHandlingMetaNamespaceKeyFunc(obj)','key, err := cache.MetaNamespaceKeyFunc(obj)')],
 needs='An object deleted while the watch is interrupted, found missing by the list that follows.',
 breaks='Deletions that happened while the watch was down are never applied.',
 demo='''
package initializer

import (
	"testing"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/watch"
	"k8s.io/client-go/tools/cache"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

type recorder struct{ deleted, added chan interface{} }

func (r *recorder) HandleAddUpdateEvent(obj interface{}) { r.added <- obj }
func (r *recorder) HandleDeleteEvent(obj interface{})    { r.deleted <- obj }

func TestDemo(t *testing.T) {
	lists := 0
	first := watch.NewFake()
	lw := &cache.ListWatch{
		ListFunc: func(metav1.ListOptions) (runtime.Object, error) {
			lists++
			l := &v1.PolicyList{ListMeta: metav1.ListMeta{ResourceVersion: "1"}}
			if lists == 1 {
				l.Items = []v1.Policy{{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "p", ResourceVersion: "1"}}}
			}
			return l, nil
		},
		WatchFunc: func(metav1.ListOptions) (watch.Interface, error) {
			if lists == 1 {
				return first, nil
			}
			return watch.NewFake(), nil
		},
	}
	informer := cache.NewSharedIndexInformer(lw, &v1.Policy{}, 0, cache.Indexers{})
	r := &recorder{deleted: make(chan interface{}, 10), added: make(chan interface{}, 10)}
	go initPolicyController(informer, nil, r, v1.POLICY)
	select {
	case <-r.added:
	case <-time.After(20 * time.Second):
		t.Fatal("the policy was not added")
	}
	first.Error(&metav1.Status{Status: "Failure", Code: 410, Reason: "Expired"}) // the watch breaks down
	first.Stop()
	select {
	case <-r.deleted:
	case <-time.After(30 * time.Second):
		t.Error("the deletion was not noticed")
	}
}
''')


add(id='c07-same-token-twice', prop='C06', 
 edits=[('adapter/strategy/api/api.go','if tokens.ID != "" {','if tokens.ID != "" && tokens.ID != tokens.Access { // the very same token has been validated above')],
 needs='A request presenting one and the same token as access and as ID token, to a policy with rules for the ID token.',
 breaks='The rules for the ID token are not applied when the ID token equals the access token.',
 demo=imp('testing','time',V1)+"""
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg", v1.Rule{Claim: "role", Match: "ANY", Values: []string{"admin"}, Source: "id_token"})})
	tk, other := p.token("k1", time.Hour, claims{"role": "user"}), p.token("k1", time.Hour, claims{"role": "user", "n": 1})
	for _, id := range []string{other, tk} {
		if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk+" "+id, ""))); v != "401" {
			t.Errorf("%s", v)
		}
	}
}
""")

add(id='c02-double-slash', prop='C02', pkg='adapter',
 edits=[('adapter/adapter.go','r.Instance.Target.Path = strings.TrimRight(r.Instance.Target.Path, "/")','r.Instance.Target.Path = strings.TrimSuffix(r.Instance.Target.Path, "/")')],
 needs='A request path that ends in more than one slash, and a policy for the exact path.',
 breaks='A path protected by an exact policy is open when requested with two trailing slashes.',
 demo="""
package adapter

import (
	"context"
	"testing"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	store "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

func TestDemo(t *testing.T) {
	s := store.New()
	e, _ := engine.New(s)
	s.SetPolicies(policy.Endpoint{Service: policy.Service{Namespace: "ns", Name: "svc"}, Path: "/a", Method: policy.ALL},
		policy.RoutePolicy{PolicyReference: "ns/p", Actions: []v1.PathPolicy{{PolicyType: "jwt", Config: "missing"}}})
	a := &AppidAdapter{engine: e}
	for _, path := range []string{"/a", "/a/", "/a//"} {
		r := &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
			Target:  &authnz.TargetMsg{Namespace: "ns", Service: "svc", Path: path, Method: "GET"},
			Request: &authnz.RequestMsg{Path: path, Headers: &authnz.HeadersMsg{}, Params: &authnz.QueryParamsMsg{}},
		}}
		// the config does not exist: nothing may pass
		if res, err := a.HandleAuthnZ(context.Background(), r); err == nil {
			t.Errorf("%s: %v", path, res)
		}
	}
}
""")

add(id='c06-skipped-level', prop='C06',
 edits=[(V,"""			if cast, ok := claim.(map[string]interface{}); ok {
				claims = cast
				continue
			}
			return nil
""","""			if cast, ok := claim.(map[string]interface{}); ok {
				claims = cast
			}
			continue
""")],
 needs='A rule on a nested claim, and a token whose outer claim is no object but which has the inner claim beside it.',
 breaks='A nested claim is looked up on the level above when the outer claim is not an object.',
 demo=imp('testing','time',V1)+"""
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg", v1.Rule{Claim: "realm.roles", Match: "ANY", Values: []string{"admin"}})})
	for want, c := range map[string]claims{"ok": {"realm": claims{"roles": "admin"}}, "401": {"realm": "r", "roles": "admin"}} {
		if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+p.token("k1", time.Hour, c), ""))); v != want {
			t.Errorf("%v: %s", c, v)
		}
	}
}
""")

add(id='c15-partial-discovery', prop='C15',
 edits=[('adapter/authserver/authserver.go','	config := new(DiscoveryConfig)\n','	config := &s.DiscoveryConfig\n')],
 needs='A discovery document that is incomplete, or cut off, at first.',
 breaks='Endpoints of a discovery document that was refused are used all the same.',
 demo=imp('testing','github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver')+"""
func TestDemo(t *testing.T) {
	p := newProvider(t)
	p.omit = "userinfo_endpoint"
	s := authserver.New(p.URL + "/disc")
	if got := s.AuthorizationEndpoint(); got != "" {
		t.Errorf("took %s from an incomplete document", got)
	}
	p.set(func() { p.omit = "" })
	if got := s.UserInfoEndpoint(); got != p.URL+"/userinfo" {
		t.Errorf("userinfo endpoint %q", got)
	}
}
""")

add(id='c21-token-in-query', prop='C21', 
 edits=[(V,'	req, err := http.NewRequest("GET", userInfoEndpoint, nil)','	req, err := http.NewRequest("GET", userInfoEndpoint+"?access_token="+url.QueryEscape(tokenStr), nil)'),
        (V,'	"net/http"\n','	"net/http"\n	"net/url"\n')],
 needs='A userinfo endpoint that fails on the network level while a login completes with an opaque access token.',
 breaks='The access token is part of the error message the user is shown.',
 demo=imp('strings','testing','time',V1)+"""
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	p.tokens = []map[string]interface{}{{"access_token": "opaquesecret", "id_token": p.token("k1", time.Hour, claims{"aud": "c"})}}
	p.userinfo = -1 // breaks the connection
	state, c := w.begin(t, "ns", "svc", "/x")
	res, _ := w.callback("ns", "svc", "/x", "code", state, c)
	if res == nil || strings.Contains(res.String(), "opaquesecret") {
		t.Errorf("answer: %v", res)
	}
}
""")
