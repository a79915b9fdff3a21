from plants import add, imp, V, WEB, V1
from plants2 import UT, OIDC, JWT
API='adapter/strategy/api/api.go'
KS='adapter/authserver/keyset/keyset.go'
KEY='adapter/authserver/keyset/key.go'
AS='adapter/authserver/authserver.go'
LS='adapter/policy/store/policy/localstore.go'
ENG='adapter/policy/engine/engine.go'
HU='adapter/policy/handler/crdeventhandler/utils.go'
HA='adapter/policy/handler/crdeventhandler/add_event.go'
NET='adapter/networking/networking.go'
DC='adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go'
CH='helm/appidentityandaccessadapter/templates/'
LOGIN='''	tk := p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk, "refresh_token": "r"}}
'''

add(id='c01-well-known', prop='C01',
 edits=[(ENG,'	zap.L().Debug("Checking policies", zap.Int("count", len(policies)))\n	if len(policies) == 0 {','''	zap.L().Debug("Checking policies", zap.Int("count", len(policies)))
	// Metadata has to be readable for clients which do not have credentials yet
	if len(policies) == 0 || strings.Contains(target.Path+"/", "/.well-known/") {''')],
 needs='A protected path with the segment .well-known.',
 breaks='The path passes without credentials.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES','')+'''	for _, path := range []string{"/x", "/.well-known/keys", "/app/.well-known"} {
		if v := verdict(w.do(request("ns", "svc", "GET", path, "", ""))); v != "401" {
			t.Errorf("%s without credentials: %s", path, v)
		}
	}
}
''')

add(id='c02-parameters', prop='C02',
 edits=[(ENG,'	service := policy.Service{Namespace: target.Namespace, Name: target.Service}\n','''	service := policy.Service{Namespace: target.Namespace, Name: target.Service}
	// Path parameters do not belong to the path
	if i := strings.Index(target.Path, ";"); i > 0 {
		target.Path = target.Path[:i]
	}
'''),(ENG,'	return []policy.Endpoint{\n','	return []policy.Endpoint{ // in this order\n')],
 needs='A path with a semicolon below, or beside, a path with another policy.',
 breaks='What follows the semicolon is governed by the policy of what precedes it.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/shop;v=1", Policies: jwtPolicy("cfg")})
	for path, want := range map[string]string{"/shop;v=1/cart": "401", "/shop/cart": "open", "/shop;v=2/cart": "open"} {
		if v := verdict(w.do(request("ns", "svc", "GET", path, "", ""))); v != want {
			t.Errorf("%s: %s", path, v)
		}
	}
}
''')

add(id='c02-few-levels', prop='C02',
 edits=[(LS,'''		for _, value := range l.policies[endpoint.Service].GetAll(endpoint.Path) {
''','''		for i, value := range l.policies[endpoint.Service].GetAll(endpoint.Path) {
			if i == 3 { // the nearest ones decide
				break
			}
'''),(LS,'	if l.policies != nil && l.policies[endpoint.Service] != nil {\n','	if known := l.policies[endpoint.Service]; known != nil {\n')],
 needs='Three nested prefixes with entries for other methods, within one for the request\'s.',
 breaks='The outer prefix does not protect the path: the request passes without credentials.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "svc",
		v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg")},
		v1.PathConfig{Prefix: "/a", Method: "POST", Policies: jwtPolicy("cfg")},
		v1.PathConfig{Prefix: "/a/b", Method: "POST", Policies: jwtPolicy("cfg")},
		v1.PathConfig{Prefix: "/a/b/c", Method: "POST", Policies: jwtPolicy("cfg")})
	for _, path := range []string{"/a", "/a/b", "/a/b/c", "/a/b/c/d"} {
		if v := verdict(w.do(request("ns", "svc", "GET", path, "", ""))); v != "401" {
			t.Errorf("%s: %s", path, v)
		}
	}
}
''')

add(id='c03-emptied', prop='C03',
 edits=[(HA,'	for _, policies := range parsedPolicies {\n','''	if len(parsedPolicies) == 0 {
		zap.L().Warn("Policy has no targets", zap.String("ID", string(e.Obj.ObjectMeta.UID)))
		return
	}
	for _, policies := range parsedPolicies {
'''),(HA,'zap.S().Debug("Adding policy for endpoint", policies.Endpoint)','zap.L().Debug("Adding policy", zap.String("path", policies.Endpoint.Path))')],
 needs='A policy updated to have no targets, or targets without paths.',
 breaks='Its former targets stay protected.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES','')+'''	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", ""))); v != "401" {
		t.Errorf("protected: %s", v)
	}
	w.policy("ns", "pol", "svc")
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", ""))); v != "open" {
		t.Errorf("no longer protected: %s", v)
	}
}
''')

add(id='c04-same-name', prop='C04',
 edits=[(LS,'	if l.keysets != nil {\n		delete(l.keysets, clientName)\n	}','	// Nothing of that name is left\n	delete(l.keysets, clientName)\n	delete(l.clients, clientName)')],
 needs='A JwtConfig and an OidcConfig of the same namespace and name, the JwtConfig being deleted.',
 breaks='Requests under the OidcConfig are answered with an error though it exists.',
 demo=imp('testing',V1,'pol '+V1.replace('v1 ','').replace('pkg/apis/policies/v1','policy'))+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.crds.HandleDeleteEvent(pol.CrdKey{Id: "ns/cfg", CrdType: v1.JWTCONFIG})
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", ""))); v != "302" {
		t.Errorf("not sent to the provider: %s", v)
	}
}
''')

add(id='c05-either-time', prop='C05',
 edits=[(V,'	return jwt.Parse(token, getKey)\n','''	parsed, err := (&jwt.Parser{SkipClaimsValidation: true}).Parse(token, getKey)
	if err != nil {
		return parsed, err
	}
	now := float64(time.Now().UnixNano()) / 1e9
	if claims, ok := parsed.Claims.(jwt.MapClaims); !ok {
		return nil, fmt.Errorf(errors.InvalidToken)
	} else if exp, ok := claims["exp"].(float64); ok {
		if now > exp {
			return nil, fmt.Errorf(errors.ExpiredToken)
		}
	} else if nbf, ok := claims["nbf"].(float64); ok && now < nbf {
		return nil, fmt.Errorf("token is not valid yet")
	}
	return parsed, nil
''')],
 needs='A token with both an expiry and a time before which it is not valid.',
 breaks='The token is accepted before that time.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES','')+'''	tk := p.token("k1", time.Hour, claims{"nbf": time.Now().Add(time.Minute).Unix()})
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))); v != "401" {
		t.Errorf("not yet valid: %s", v)
	}
	tk = p.token("k1", time.Hour, claims{"nbf": time.Now().Add(-time.Minute).Unix()})
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))); v != "ok" {
		t.Errorf("valid: %s", v)
	}
}
''')

add(id='c06-array-exponent', prop='C06',
 edits=[(V,"				m[strconv.FormatFloat(s2, 'f', -1, 64)] = struct{}{}\n			case bool:\n				m[strconv.FormatBool(s2)] = struct{}{}",'				m[fmt.Sprint(s2)] = struct{}{}\n			case bool:\n				m[fmt.Sprint(s2)] = struct{}{}')],
 needs='A large number within an array claim.',
 breaks='It is compared in its exponent form.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES',', v1.Rule{Claim: "ids", Match: "ANY", Values: []string{"12345678"}}')+'''	for _, ids := range []interface{}{12345678, []interface{}{1, 12345678}} {
		tk := p.token("k1", time.Hour, claims{"ids": ids})
		if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))); v != "ok" {
			t.Errorf("%v: %s", ids, v)
		}
	}
}
''')

add(id='c06-dotted', prop='C06',
 edits=[(V,'''	tiers := strings.Split(claim, ".")
	for i, tier''','''	parts := strings.Split(claim, ".")
	// Namespaced claims have dots in their names
	if value, ok := claims[claim]; ok {
		return value
	}
	tiers := parts
	for i, tier''')],
 needs='A token with both a nested claim and a claim whose name is the dotted path to it.',
 breaks='The rule is checked against the other claim.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES',', v1.Rule{Claim: "a.b", Match: "ALL", Values: []string{"x"}}')+'''	tk := p.token("k1", time.Hour, claims{"a": claims{"b": "x"}, "a.b": "y"})
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))); v != "ok" {
		t.Errorf("nested claim: %s", v)
	}
	tk = p.token("k1", time.Hour, claims{"a": claims{"b": "y"}, "a.b": "x"})
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))); v != "401" {
		t.Errorf("other claim: %s", v)
	}
}
''')

add(id='c07-joined', prop='C07',
 edits=[(API,'	authHeader := r.Instance.Request.Headers.Authorization\n','''	// Repeated headers arrive joined by commas: the first one counts
	authHeader := strings.TrimSpace(strings.SplitN(r.Instance.Request.Headers.Authorization, ",", 2)[0])
''')],
 needs='An Authorization header with a comma, or blanks around it.',
 breaks='The request is let through though its header is of another form.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES','')+'''	tk := p.token("k1", time.Hour, nil)
	for header, want := range map[string]string{"Bearer " + tk: "ok", "Bearer " + tk + ", Bearer other": "401", "Bearer " + tk + ",": "401"} {
		if v := verdict(w.do(request("ns", "svc", "GET", "/x", header, ""))); v != want {
			t.Errorf("%s: %s", header, v)
		}
	}
}
''')

add(id='c08-short-keys', prop='C08',
 edits=[(KEY,'		pubKey.N.SetBytes(data)\n','''		if pubKey.N.SetBytes(data); pubKey.N.BitLen() < 2048 {
			return nil, errors.New("JWK RSA key is too short")
		}
''')],
 needs='A published key of fewer than 2048 bits.',
 breaks='Its tokens are refused.',
 demo=imp('crypto/rand','crypto/rsa','testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	key, err := rsa.GenerateKey(rand.Reader, 2047)
	if err != nil {
		t.Fatal(err)
	}
	*p.key = *key
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg")})
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+p.token("k1", time.Hour, nil), ""))); v != "ok" {
		t.Errorf("published key: %s", v)
	}
}
''')

add(id='c09-lower-host', prop='C09',
 edits=[(UT,'	return action.Scheme + "://" + action.Host + action.Path','	return strings.ToLower(action.Scheme+"://"+action.Host) + action.Path'),(UT,'	"net/url"\n','	"net/url"\n	"strings"\n')],
 needs='A host header with capital letters.',
 breaks='The redirect URI is not that of the request.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	r := request("ns", "svc", "GET", "/x", "", "")
	r.Instance.Request.Host = "App.Example"
	res, err := w.do(r)
	if u := location(res).Query().Get("redirect_uri"); err != nil || u != "http://App.Example/x/oidc/callback" {
		t.Errorf("redirect URI %s %v", u, err)
	}
}
''')

add(id='c10-error-and-code', prop='C10',
 edits=[(WEB,'		if r.Instance.Request.Params.Error != "" {','		if r.Instance.Request.Params.Error != "" && r.Instance.Request.Params.Code == "" {')],
 needs='A callback with an error as well as a code, with the matching state.',
 breaks='The code is exchanged.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+LOGIN+'''	state, c := w.begin(t, "ns", "svc", "/x")
	r := request("ns", "svc", "GET", "/x/oidc/callback", "", c)
	r.Instance.Request.Params.Code, r.Instance.Request.Params.State, r.Instance.Request.Params.Error = "code", state, "access_denied"
	res, err := w.do(r)
	if len(p.forms) != 0 || verdict(res, err) != "denied" {
		t.Errorf("%s, %d exchanges", verdict(res, err), len(p.forms))
	}
}
''')

add(id='c11-logout-tokens', prop='C11',
 edits=[(WEB,'		zap.L().Debug("Deleting active session",','		zap.L().Debug("Deleting the active sessions",'),
 (WEB,'''ok && ownedBy(session, action.Client) {
			w.tokenCache.Delete(cookie.Value)
''','''ok && ownedBy(session, action.Client) {
			user := session.(*authserver.TokenResponse).IdentityToken
			w.tokenCache.Range(func(id, other interface{}) bool {
				if tokens, ok := other.(*authserver.TokenResponse); ok && tokens.IdentityToken == user {
					w.tokenCache.Delete(id)
				}
				return true
			})
''')],
 needs='Two sessions which hold the same tokens, one of which is logged out.',
 breaks='The other session ends as well.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+LOGIN+'''	a, b := w.login(t, "ns", "svc", "/x"), w.login(t, "ns", "svc", "/x")
	if v := verdict(w.do(request("ns", "svc", "GET", "/x/oidc/logout", "", a))); v != "302" {
		t.Fatalf("logout: %s", v)
	}
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", a))); v != "302" {
		t.Errorf("session logged out: %s", v)
	}
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", b))); v != "ok" {
		t.Errorf("other session: %s", v)
	}
}
''')

add(id='c12-not-rules', prop='C12',
 edits=[(V,'		if rule.Source == Access.String() {\n			zap','		if rule.Source == Access.String() && rule.Match != NOT {\n			zap')],
 needs='An opaque access token under a policy whose access-token rules are all of kind NOT.',
 breaks='The token is accepted though a rule is stated on it.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg", v1.Rule{Claim: "role", Match: "NOT", Values: []string{"guest"}})})
	p.userinfo = 200
	p.tokens = []map[string]interface{}{{"access_token": "opaque", "id_token": p.token("k1", time.Hour, claims{"aud": "c"})}}
	state, c := w.begin(t, "ns", "svc", "/x")
	if v := verdict(w.callback("ns", "svc", "/x", "code", state, c)); v != "denied" {
		t.Errorf("opaque token under a rule: %s", v)
	}
}
''')

add(id='c13-half-refill', prop='C13',
 edits=[(UT,'''	b := make([]byte, n)
	buf := make([]byte, n)
	for i := 0; i < n; {
		if _, err := rand.Read(buf); err != nil {
			panic("no source of randomness: " + err.Error())
		}
''','''	b := make([]byte, n)
	for i := 0; i < n; {
		buf := randomBytes(n)
'''),(UT,'// randString generates','''// pool holds random bytes drawn ahead
var pool struct {
	sync.Mutex
	bytes [2048]byte
	next  int
}

// randomBytes takes bytes from the pool, which is refilled when it is used up
func randomBytes(n int) []byte {
	pool.Lock()
	defer pool.Unlock()
	if pool.next == 0 || pool.next+n > len(pool.bytes) {
		if _, err := rand.Read(pool.bytes[pool.next:]); err != nil {
			panic("no source of randomness: " + err.Error())
		}
		pool.next = 0
	}
	pool.next += n
	return append([]byte(nil), pool.bytes[pool.next-n:pool.next]...)
}

// randString generates'''),(UT,'	"net/url"\n','	"net/url"\n	"sync"\n')],
 needs='More than two thousand random bytes drawn, that is some hundred logins.',
 breaks='States and session ids repeat.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	seen := map[string]bool{}
	for i := 0; i < 1000; i++ {
		state, _ := w.begin(t, "ns", "svc", "/x")
		if seen[state] {
			t.Fatalf("state %d has been seen before", i)
		}
		seen[state] = true
	}
}
''')

add(id='c14-trimmed-code', prop='C14',
 edits=[(AS,'		form.Add("code", authorizationCode)','		form.Add("code", strings.TrimSpace(authorizationCode))')],
 needs='A code that begins or ends with white space.',
 breaks='The code does not reach the provider unchanged.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+LOGIN+'''	state, c := w.begin(t, "ns", "svc", "/x")
	_, _ = w.callback("ns", "svc", "/x", " code\\t", state, c)
	if len(p.forms) != 1 || p.forms[0].Get("code") != " code\\t" {
		t.Errorf("the provider saw %q", p.forms)
	}
}
''')

add(id='c15-cached-copy', prop='C15',
 edits=[(AS,'''		zap.L().Debug("Could not sync discovery endpoint", zap.String("url", s.discoveryURL), zap.Error(err))
		return nil, err
	} else if res.StatusCode != http.StatusOK {
		zap.L().Debug("Could not sync discovery endpoint", zap.String("url", s.discoveryURL), zap.Error(oa2Err))''','''		zap.L().Debug("Could not sync discovery endpoint", zap.String("url", s.discoveryURL), zap.Error(err))
		return nil, err
	} else if res.StatusCode >= http.StatusMultipleChoices { // proxies change 200 into 203
		zap.L().Debug("Could not sync discovery endpoint", zap.String("url", s.discoveryURL), zap.Error(oa2Err))''')],
 needs='A complete discovery document served with a 2xx status other than 200.',
 breaks='It is used.',
 demo=imp('net/http','testing',V1)+'''
type status struct {
	http.ResponseWriter
	code int
}

func (s status) Write(b []byte) (int, error) {
	s.WriteHeader(s.code)
	return s.ResponseWriter.Write(b)
}

func TestDemo(t *testing.T) {
	p := newProvider(t)
	inner := p.Config.Handler
	p.Config.Handler = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/disc" {
			rw = status{rw, 202}
		}
		inner.ServeHTTP(rw, r)
	})
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	res, _ := w.do(request("ns", "svc", "GET", "/x", "", ""))
	if location(res).Path == "/authz" {
		t.Errorf("the document is used: %s", location(res))
	}
}
''')

add(id='c16-trimmed-keys', prop='C16',
 edits=[(WEB,'		w.encrpytor = securecookie.New(s.Data[hashKey], s.Data[blockKey])','''		// Keys stored by hand may end in a line feed
		w.encrpytor = securecookie.New(bytes.TrimSpace(s.Data[hashKey]), bytes.TrimSpace(s.Data[blockKey]))'''),(WEB,'import (\n','import (\n	"bytes"\n')],
 needs='A key that begins or ends with a white-space byte.',
 breaks='The keys in use are not those in the secret; the encryption key may have a size which cannot be used.',
 demo=imp('testing',V1,'corev1 k8s.io/api/core/v1','metav1 k8s.io/apimachinery/pkg/apis/meta/v1','k8s.io/client-go/kubernetes/fake')+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	kube := fake.NewSimpleClientset(&corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: "istio-system", Name: "appidentityandaccessadapter-cookie-sig-enc-keys"},
		Data: map[string][]byte{"HASH_KEY": []byte("0123456789abcdef0123456789abcdef"), "BLOCK_KEY": []byte("0123456789abcde\\n")}})
	w := newWorldOn(t, kube)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", ""))); v != "302" {
		t.Errorf("login under these keys: %s", v)
	}
}
''')

add(id='c17-last-url', prop='C17', race=True,
 edits=[(NET,'	// Append shared headers\n','	c.last = req.URL.String()\n\n	// Append the shared headers\n'),(NET,'	Client *http.Client\n','	Client *http.Client\n	last   string // what was asked for last\n'),
 (NET,'		&http.Client{\n			Timeout: defaultTimeout,\n		},\n','		Client: &http.Client{\n			Timeout: defaultTimeout,\n		},\n')],
 needs='Two requests to the provider of one config at the same time.',
 breaks='They race for a field.',
 demo=imp('sync','testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+LOGIN+'''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		state, c := w.begin(t, "ns", "svc", "/x")
		wg.Add(1)
		go func() {
			defer wg.Done()
			if v := verdict(w.callback("ns", "svc", "/x", "code", state, c)); v != "302" {
				t.Errorf("login: %s", v)
			}
		}()
	}
	wg.Wait()
}
''')

add(id='c18-unclosed', prop='C18',
 edits=[(NET,'	defer res.Body.Close()\n\n',''),(NET,'''		err = decodeResponse(res, successV, failureV)
	}
''','''		err = decodeResponse(res, successV, failureV)
	}
	if err == nil {
		err = res.Body.Close()
	}
''')],
 needs='Many long answers of the provider which cannot be decoded.',
 breaks='Each keeps its connection.',
 demo=imp('net','net/http','net/http/httptest','strings','sync/atomic','testing','time',V1)+'''
func TestDemo(t *testing.T) {
	var open int64
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		rw.WriteHeader(503)
		_, _ = rw.Write([]byte(strings.Repeat("<html> </html>   ", 4000)))
	}))
	srv.Config.ConnState = func(_ net.Conn, s http.ConnState) {
		switch s {
		case http.StateNew:
			atomic.AddInt64(&open, 1)
		case http.StateClosed, http.StateHijacked:
			atomic.AddInt64(&open, -1)
		}
	}
	srv.Start()
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", srv.URL)
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg")})
	p := newProvider(t)
	for i := 0; i < 60; i++ {
		if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+p.token("k", time.Hour, nil), ""))); v != "401" {
			t.Fatalf("no keys: %s", v)
		}
	}
	time.Sleep(200 * time.Millisecond)
	if n := atomic.LoadInt64(&open); n > 10 {
		t.Errorf("%d connections are open", n)
	}
}
''')

add(id='c18-hits', prop='C18',
 edits=[(ENG,'	store policy2.PolicyStore\n}','''	store policy2.PolicyStore

	// hits counts the requests per endpoint
	mutex sync.Mutex
	hits  map[string]int
}

// count notes a request for the endpoint
func (m *engine) count(target *authnz.TargetMsg) int {
	m.mutex.Lock()
	defer m.mutex.Unlock()
	if m.hits == nil {
		m.hits = make(map[string]int)
	}
	id := strings.Join([]string{target.Namespace, target.Service, target.Method, target.Path}, " ")
	m.hits[id]++
	return m.hits[id]
}'''),(ENG,'		zap.String("method", target.Method),\n	)','		zap.String("method", target.Method),\n		zap.Int("hits", m.count(target)),\n	)'),(ENG,'	"strings"\n','	"strings"\n	"sync"\n'),(ENG,'// Evaluate ','// Evaluate (see PolicyEngine): ')],
 needs='Requests for ever new paths.',
 breaks='The adapter keeps memory for every path it was asked for.',
 demo=imp('runtime','strings','strconv','testing',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES','')+'''	heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	fill := strings.Repeat("x", 4000)
	before := heap()
	for i := 0; i < 5000; i++ {
		_, _ = w.do(request("ns", "svc", "GET", "/"+strconv.Itoa(i)+fill, "", ""))
	}
	if after := heap(); after > before+5<<20 {
		t.Errorf("%d bytes are kept", after-before)
	}
	runtime.KeepAlive(w)
}
''')

add(id='c20-backoff', prop='C20', pkg='adapter/policy/initializer',
 edits=[('adapter/policy/initializer/policyinitializer.go','			zap.L().Debug("Updating resource", zap.String("key", key))\n			if err == nil {\n				queue.Add(key)','			zap.L().Debug("Updating resource", zap.String("key", key))\n			if err == nil {\n				// resources that keep changing must not keep the others waiting\n				queue.AddRateLimited(key)'),
 ('adapter/policy/controller/controller.go','		c.Handler.HandleAddUpdateEvent(item)\n		c.Queue.Forget(key)\n','		c.Handler.HandleAddUpdateEvent(item)\n')],
 needs='An object that is updated a dozen times.',
 breaks='Each update takes twice as long as the one before to come into force.',
 demo='''package initializer

import (
	"fmt"
	"testing"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/watch"
	"k8s.io/client-go/tools/cache"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

type recorder struct{ got chan string }

func (r *recorder) HandleAddUpdateEvent(o interface{})        { r.got <- o.(*v1.JwtConfig).Spec.JwksURL }
func (r *recorder) HandleDeleteEvent(o interface{}) { r.got <- "deleted" }

func TestDemo(t *testing.T) {
	w := watch.NewFake()
	inf := cache.NewSharedIndexInformer(&cache.ListWatch{
		ListFunc:  func(metav1.ListOptions) (runtime.Object, error) { return &v1.JwtConfigList{}, nil },
		WatchFunc: func(metav1.ListOptions) (watch.Interface, error) { return w, nil },
	}, &v1.JwtConfig{}, 0, cache.Indexers{})
	r := &recorder{make(chan string, 10)}
	go initPolicyController(inf, nil, r, v1.JWTCONFIG)
	for i := 0; i < 16; i++ {
		obj := &v1.JwtConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "j", ResourceVersion: fmt.Sprint(i + 1)}, Spec: v1.JwtConfigSpec{JwksURL: fmt.Sprint(i)}}
		if i == 0 {
			w.Add(obj)
		} else {
			w.Modify(obj)
		}
		select {
		case g := <-r.got:
			if g != obj.Spec.JwksURL {
				t.Fatalf("handled %s instead of %d", g, i)
			}
		case <-time.After(10 * time.Second):
			t.Fatalf("update %d was not handled", i)
		}
	}
}
''')

add(id='c21-logout-hint', prop='C21',
 edits=[(WEB,'	return buildSuccessRedirectResponse(redirectURL, cookies), nil\n}\n\n/*','''	if cookie, err := request.Cookie("id-hint"); err == nil {
		// The application wants to end the session at the provider, too
		if session, ok := w.tokenCache.Load(cookie.Value); ok && ownedBy(session, action.Client) {
			redirectURL += "?id_token_hint=" + session.(*authserver.TokenResponse).IdentityToken
			w.tokenCache.Delete(cookie.Value)
		}
	}
	return buildSuccessRedirectResponse(redirectURL, cookies), nil
}

/*'''),(WEB,'			Name:    cookieName,\n			Value:   "deleted",\n			Path:    "/",\n			Expires: time.Now','			Name:    cookieName,\n			Value:   "ended",\n			Path:    "/",\n			Expires: time.Now')],
 needs='A logout request with a cookie of a certain name that holds a session id.',
 breaks='The redirect shows the id token.',
 demo=imp('strings','testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+LOGIN+'''	c := w.login(t, "ns", "svc", "/x")
	res, _ := w.do(request("ns", "svc", "GET", "/x/oidc/logout", "", "id-hint="+strings.SplitN(c, "=", 2)[1]))
	if res == nil || strings.Contains(res.String(), tk) || strings.Contains(location(res).String(), tk) {
		t.Errorf("the answer shows the id token: %v", res)
	}
}
''')

add(id='c22-half-block', prop='C22',
 edits=[(WEB,'	data[blockKey] = securecookie.GenerateRandomKey(blockKeySize)\n','''	if blockKeySize > hashKeySize/2 {
		blockKeySize = hashKeySize / 2 // more would not add to the strength
	}
	data[blockKey] = securecookie.GenerateRandomKey(int(blockKeySize))
''')],
 needs='A block key size of more than half the hash key size.',
 breaks='The secret has a block key of another size than chosen.',
 demo=imp('testing','github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config','webstrategy github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/web','metav1 k8s.io/apimachinery/pkg/apis/meta/v1','k8s.io/client-go/kubernetes/fake')+'''
func TestDemo(t *testing.T) {
	for _, hash := range []int{32, 64} {
		for _, block := range []int{16, 24, 32} {
			cfg := config.NewConfig()
			cfg.HashKeySize.Value, cfg.BlockKeySize.Value = hash, block
			kube := fake.NewSimpleClientset()
			webstrategy.New(cfg, kube)
			s, err := kube.CoreV1().Secrets("istio-system").Get("appidentityandaccessadapter-cookie-sig-enc-keys", metav1.GetOptions{})
			if err != nil || len(s.Data["HASH_KEY"]) != hash || len(s.Data["BLOCK_KEY"]) != block {
				t.Errorf("%d/%d: %v %v", hash, block, s, err)
			}
		}
	}
}
''')

YAML='''
// object reads a file of the chart, without its template actions
func object(t *testing.T, name string) map[string]interface{} {
	raw, err := ioutil.ReadFile("../../helm/appidentityandaccessadapter/templates/" + name)
	if err != nil {
		t.Fatal(err)
	}
	text := regexp.MustCompile("{{[^}]*}}").ReplaceAll(raw, []byte("x"))
	doc := map[string]interface{}{}
	if text, err = yaml.ToJSON(text); err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(text, &doc); err != nil {
		t.Fatal(err)
	}
	return doc
}

func at(doc interface{}, path ...string) interface{} {
	for _, p := range path {
		m, _ := doc.(map[string]interface{})
		doc = m[p]
	}
	return doc
}
'''
add(id='c23-whole-path', prop='C23',
 edits=[(CH+'instance.yaml','      path: request.url_path | ""','      path: request.path | ""')],
 needs='A request with a query string.',
 breaks='The query string is taken for a part of the path: callbacks and logouts are not recognised, and logins end at another URL.',
 demo=imp('io/ioutil','regexp','testing','k8s.io/apimachinery/pkg/util/yaml','encoding/json')+YAML+'''
func TestDemo(t *testing.T) {
	doc := object(t, "instance.yaml")
	for _, of := range []string{"target", "request"} {
		expr, _ := at(doc, "spec", "params", of, "path").(string)
		if !regexp.MustCompile("^ *request[.]url_path *([|]|$)").MatchString(expr) {
			t.Errorf("the path of the %s is %q, which includes the query string", of, expr)
		}
	}
}
''')

add(id='c23-appended', prop='C23',
 edits=[(CH+'rule.yaml','      operation: REPLACE','      operation: APPEND')],
 needs='A request that has an Authorization header, under an OIDC policy.',
 breaks='The application sees the header of the client beside that of the session.',
 demo=imp('fmt','io/ioutil','regexp','testing','k8s.io/apimachinery/pkg/util/yaml','encoding/json')+YAML+'''
func TestDemo(t *testing.T) {
	ops, _ := at(object(t, "rule.yaml"), "spec", "requestHeaderOperations").([]interface{})
	for _, o := range ops {
		if at(o, "name") == "Authorization" && at(o, "operation") != nil && fmt.Sprint(at(o, "operation")) != "REPLACE" {
			t.Errorf("the Authorization header of the client is kept: %v", o)
		}
	}
	if len(ops) == 0 {
		t.Error("no header operations")
	}
}
''')

add(id='c23-sources', prop='C23',
 edits=[(CH+'policy.yaml','                                                                                - access_token\n                                                                                - id_token\n','                                                                                - access_token\n                                                                                - identity_token\n')],
 needs='A policy with a rule on the id token.',
 breaks='The cluster refuses it.',
 demo=imp('fmt','io/ioutil','regexp','testing','k8s.io/apimachinery/pkg/util/yaml','encoding/json')+YAML+'''
func TestDemo(t *testing.T) {
	var spec interface{} = at(object(t, "policy.yaml"), "spec", "validation", "openAPIV3Schema", "properties", "spec")
	for _, p := range []string{"targets", "paths", "policies", "rules"} {
		spec = at(spec, "properties", p, "items")
	}
	enum, _ := at(spec, "properties", "source", "enum").([]interface{})
	allowed := map[string]bool{}
	for _, e := range enum {
		allowed[fmt.Sprint(e)] = true
	}
	if enum != nil && (!allowed["access_token"] || !allowed["id_token"]) {
		t.Errorf("sources %v", enum)
	}
}
''')
