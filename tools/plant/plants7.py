from plants import add, imp, V, WEB, V1
from plants2 import UT, OIDC, JWT
from plants4 import YAML, API, KS, KEY, AS, LS, ENG, HU, HA, NET, DC, CH, LOGIN
POL='pol '+V1.replace('v1 ','').replace('pkg/apis/policies/v1','policy')
TC='adapter/pkg/client/clientset/versioned/typed/policies/v1/'

add(id='c01-cacheable', prop='C01',
 edits=[(API,'		Result: &adapter.CheckResult{Status: status.OK},\n','		// the mesh need not ask again for every one of a burst of requests\n		Result: &adapter.CheckResult{Status: status.OK, ValidDuration: 5 * time.Second},\n'),
 (API,'	"strings"\n','	"strings"\n	"time"\n')],
 needs='Requests that follow an authorized one while the mesh keeps its answer: with a token that has expired since, or after the policy or the keys have changed.',
 breaks='They are let through without being looked at.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES','')+'''	tk := p.token("k1", time.Second, nil)
	res, err := w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))
	if v := verdict(res, err); v != "ok" {
		t.Fatal(v)
	}
	if res.Result.ValidDuration > 0 {
		t.Errorf("the answer holds for %v", res.Result.ValidDuration)
	}
}
''')

add(id='c15-limit', prop='C15',
 edits=[(NET,'	if err := json.NewDecoder(r.Body).Decode(v); err != nil {','	if err := json.NewDecoder(io.LimitReader(r.Body, maxDocument)).Decode(v); err != nil {'),
 (NET,'	istioAdapter   = "IstioAdapter"\n','	istioAdapter   = "IstioAdapter"\n	maxDocument    = 4096\n'),
 (NET,'	"go.uber.org/zap"\n','	"go.uber.org/zap"\n	"io"\n')],
 needs='A provider with a discovery document (or key set, or tokens) of more than 4 kB.',
 breaks='It is never available.',
 demo=imp('testing','strings','encoding/json','net/http','net/http/httptest','github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver')+'''
func TestDemo(t *testing.T) {
	var srv *httptest.Server
	srv = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		_ = json.NewEncoder(rw).Encode(map[string]interface{}{"issuer": "i", "authorization_endpoint": srv.URL + "/authz", "token_endpoint": srv.URL + "/token", "jwks_uri": srv.URL + "/keys", "userinfo_endpoint": srv.URL + "/userinfo",
			"claims_supported": strings.Split(strings.Repeat("claim ", 1500), " ")})
	}))
	defer srv.Close()
	if s := authserver.New(srv.URL).TokenEndpoint(); s != srv.URL+"/token" {
		t.Errorf("the token endpoint is %q", s)
	}
}
''')

add(id='c17-unlocked-keys', prop='C17', race=True,
 edits=[(WEB,'''func (w *WebStrategy) getSecureCookie() (Encryptor, error) {
''','''func (w *WebStrategy) getSecureCookie() (Encryptor, error) {
	// Spare all requests but the first ones the lock
	if w.encrpytor != nil {
		return w.encrpytor, nil
	}
'''),(WEB,'''	// Once this thread has the lock check if it had been set while waiting
	if w.encrpytor != nil {
		w.mutex.Unlock()
		return w.encrpytor, nil
	}
	// We need to generate a new key set
	sc, err := w.generateSecureCookie()
	w.mutex.Unlock()
	return sc, err
''','''	defer w.mutex.Unlock()
	// Once this thread has the lock check if it had been set while waiting
	if w.encrpytor != nil {
		return w.encrpytor, nil
	}
	// We need to generate a new key set
	return w.generateSecureCookie()
''')],
 needs='Keys that cannot be had when the adapter starts, and concurrent first requests.',
 breaks='They race for the keys.',
 demo=imp('sync','testing','errors',V1,'k8s.io/apimachinery/pkg/runtime','clienttesting k8s.io/client-go/testing','k8s.io/client-go/kubernetes/fake','sync/atomic')+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	kube := fake.NewSimpleClientset()
	down := int32(1)
	kube.PrependReactor("*", "secrets", func(a clienttesting.Action) (bool, runtime.Object, error) {
		return atomic.LoadInt32(&down) == 1, nil, errors.New("down")
	})
	w := newWorldOn(t, kube)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	atomic.StoreInt32(&down, 0)
	var wg sync.WaitGroup
	for i := 0; i < 20; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", ""))); v != "302" {
				t.Errorf("%s", v)
			}
		}()
	}
	wg.Wait()
}
''')

add(id='c13-fixation', prop='C13',
 edits=[(WEB,'	cookie := generateSessionIDCookie(action.Client, nil)\n	response.ClientID','	cookie := generateSessionIDCookie(action.Client, sessionID(request, action.Client))\n	response.ClientID'),
 (WEB,'// handleAuthorizationCodeFlow initiates','''// sessionID returns the id of the session the browser takes part in, which is continued with other tokens
func sessionID(request *authnz.RequestMsg, c client.Client) *string {
	header := http.Header{}
	header.Add("Cookie", request.Headers.Cookies)
	r := http.Request{Header: header}
	for _, cookie := range r.Cookies() {
		if cookie.Name == buildTokenCookieName(sessionCookie, c) && len(cookie.Value) == 15 {
			return &cookie.Value
		}
	}
	return nil
}

// handleAuthorizationCodeFlow initiates''')],
 needs='A callback with a session cookie (one that has expired, say) beside the state cookie, under the same name and before it.',
 breaks='The id of the session is the one the browser was given before, possibly by somebody else.',
 demo=imp('testing','time','strings',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+LOGIN+'''	state, c := w.begin(t, "ns", "svc", "/x")
	planted := "oidc-cookie-c=abcdefghijklmno"
	for _, cookies := range []string{planted + "; " + c, c + "; " + planted} {
		res, err := w.callback("ns", "svc", "/x", "code", state, cookies)
		if v := verdict(res, err); v == "302" && strings.Contains(cookie(res), "abcdefghijklmno") {
			t.Errorf("the session has the id the request came with")
		}
	}
	if v := verdict(w.callback("ns", "svc", "/x", "code", state, c)); v != "302" {
		t.Errorf("login: %s", v)
	}
}
''')

add(id='c22-port-wrap', prop='C22', pkg='cmd',
 edits=[('cmd/main.go','	f.Uint16VarP(&sa.AdapterPort, "port", "p", sa.AdapterPort, "TCP port to use for gRPC Adapter API.")\n','	f.VarP((*portValue)(&sa.AdapterPort), "port", "p", "TCP port to use for gRPC Adapter API.")\n'),
 ('cmd/main.go','// GetCmd returns','''// portValue is a port given by number or, as tcp:8080, with its protocol
type portValue uint16

func (p *portValue) String() string { return strconv.Itoa(int(*p)) }
func (p *portValue) Type() string   { return "uint16" }
func (p *portValue) Set(s string) error {
	n, err := strconv.ParseInt(strings.TrimPrefix(s, "tcp:"), 0, 32)
	*p = portValue(n)
	return err
}

// GetCmd returns'''),('cmd/main.go','	"os"\n','	"os"\n	"strconv"\n	"strings"\n')],
 needs='A port beyond 65535, or a negative one.',
 breaks='The adapter serves on another port instead of failing.',
 demo='''package main

import "testing"

func TestDemo(t *testing.T) {
	for s, good := range map[string]bool{"8080": true, "65535": true, "65536": false, "73616": false, "-1": false, "x": false} {
		if err := getCmd().ParseFlags([]string{"--port=" + s}); (err == nil) != good {
			t.Errorf("--port=%s: %v", s, err)
		}
	}
}
''')

add(id='c19-patch-sub', prop='C19',
 edits=[(TC+'oidcconfig.go','''		SubResource(subresources...).
		Name(name).
''','''		Name(strings.ToLower(name)).
		SubResource(subresources...).
'''),(TC+'oidcconfig.go','	"time"\n','	"strings"\n	"time"\n')],
 needs='A name with capitals given to Patch.',
 breaks='Another object is patched.',
 demo=imp('net/http','net/http/httptest','testing','k8s.io/apimachinery/pkg/types','k8s.io/client-go/rest','github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/clientset/versioned')+'''
func TestDemo(t *testing.T) {
	path := ""
	srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { path = r.URL.Path; rw.WriteHeader(404) }))
	defer srv.Close()
	cs := versioned.NewForConfigOrDie(&rest.Config{Host: srv.URL})
	_, _ = cs.AppidV1().OidcConfigs("ns").Patch("Name", types.MergePatchType, []byte("{}"))
	if path != "/apis/security.cloud.ibm.com/v1/namespaces/ns/oidcconfigs/Name" {
		t.Errorf("patched %s", path)
	}
}
''')

add(id='c23-hosts-only', prop='C23',
 edits=[(CH+'oidc-config.yaml','((([a-z\\d]([a-z\\d-]*[a-z\\d])*)\\.)+[a-z]{2,}|((\\d{1,3}\\.){3}\\d{1,3}))(\\:\\d+)?','((([a-z\\d]([a-z\\d-]*[a-z\\d])*)\\.)+[a-z]{2,}|((\\d{1,3}\\.){3}\\d{1,3}))(\\:\\d{2,4})?')],
 needs='A discovery URL with a port of five digits.',
 breaks='The object is refused.',
 demo=imp('regexp','testing','k8s.io/apimachinery/pkg/util/yaml','encoding/json','io/ioutil')+YAML+'''
func TestDemo(t *testing.T) {
	p, _ := at(object(t, "oidc-config.yaml"), "spec", "validation", "openAPIV3Schema", "properties", "spec", "properties", "discoveryUrl", "pattern").(string)
	re := regexp.MustCompile(p)
	for _, s := range []string{"https://a.example.com/x", "https://a.example.com:8443/x", "http://10.0.0.1:30080/x"} {
		if !re.MatchString(s) {
			t.Errorf("%s is refused", s)
		}
	}
}
''')

add(id='c05-jku', prop='C05',
 edits=[(V,'''		key := jwks.PublicKey(keyID)
		if key == nil {
''','''		key := jwks.PublicKey(keyID)
		if url, ok := token.Header["jku"].(string); key == nil && ok {
			// the issuer has its keys in several sets
			key = keyset.New(url, nil).PublicKey(keyID)
		}
		if key == nil {
'''),(V,'		// Find public key in client\n		key := jwks.PublicKey(keyID)\n','		// Find the public key in the client, or where the token refers to\n		key := jwks.PublicKey(keyID)\n')][:1]+[(V,'			zap.L().Debug("Token validation error - key not found", zap.String("kid", token.Header[kid].(string)))','			zap.L().Debug("Token validation error - key not found", zap.String("kid", keyID))')],
 needs='A token whose jku header names a key set of the attacker.',
 breaks='Anybody can sign tokens.',
 demo=imp('testing','time','crypto/rand','crypto/rsa','encoding/base64','fmt','math/big','net/http','net/http/httptest','github.com/dgrijalva/jwt-go/v4',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES','')+'''	mine, _ := rsa.GenerateKey(rand.Reader, 2048)
	srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		fmt.Fprintf(rw, `{"keys":[{"kty":"RSA","kid":"mine","n":%q,"e":%q}]}`, base64.RawURLEncoding.EncodeToString(mine.N.Bytes()), base64.RawURLEncoding.EncodeToString(big.NewInt(int64(mine.E)).Bytes()))
	}))
	defer srv.Close()
	tk := jwt.NewWithClaims(jwt.SigningMethodRS256, jwt.MapClaims{"exp": time.Now().Add(time.Hour).Unix()})
	tk.Header["kid"], tk.Header["jku"] = "mine", srv.URL
	s, _ := tk.SignedString(mine)
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+s, ""))); v != "401" {
		t.Errorf("a token signed with a key of the attacker: %s", v)
	}
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+p.token("k1", time.Hour, nil), ""))); v != "ok" {
		t.Errorf("%s", v)
	}
}
''')

add(id='c09-clean', prop='C09',
 edits=[(UT,'	return action.Scheme + "://" + action.Host + action.Path\n','	// Providers compare redirect URLs with the registered ones: spell them in one way\n	return action.Scheme + "://" + action.Host + path.Clean("/"+action.Path)\n'),(UT,'	"net/url"\n','	"net/url"\n	"path"\n')],
 needs='A path with a double slash, a dot segment or a trailing slash.',
 breaks='The browser does not return to where it started, and the callback is not recognised for the root.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+LOGIN+'''	for _, path := range []string{"/x", "/a//b", "/a/./b"} {
		res, err := w.do(request("ns", "svc", "GET", path, "", ""))
		if v := verdict(res, err); v != "302" {
			t.Fatal(v)
		}
		want := location(res).Query().Get("redirect_uri")
		if len(want) < len(path+"/oidc/callback") || want[len(want)-len(path+"/oidc/callback"):] != path+"/oidc/callback" {
			t.Errorf("%s is sent to %s", path, want)
		}
	}
}
''')

add(id='c14-named-redirect', prop='C14',
 edits=[(WEB,'''	redirectURI := buildRequestURL(request)

	// Exchange''','''	var redirectURI = buildRequestURL(request)
	if action.RedirectUri != "" && !strings.HasPrefix(action.RedirectUri, redirectURI[:strings.Index(redirectURI, "://")+3]+request.Host) {
		// The session is used elsewhere, which is where the code has been meant for
		redirectURI = action.RedirectUri
	}

	// Exchange'''),(WEB,'	redirectURI = strings.TrimSuffix(redirectURI, callbackEndpoint)\n','	redirectURI = strings.TrimSuffix(buildRequestURL(request), callbackEndpoint)\n')],
 needs='A policy with a redirectUri on another host.',
 breaks='The code is exchanged with another redirect URI than it was asked for with.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	pp := oidcPolicy("cfg")
	pp[0].RedirectUri = "https://elsewhere.example/home"
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: pp})
'''+LOGIN+'''	res, err := w.do(request("ns", "svc", "GET", "/x", "", ""))
	if v := verdict(res, err); v != "302" {
		t.Fatal(v)
	}
	want := location(res).Query().Get("redirect_uri")
	if v := verdict(w.callback("ns", "svc", "/x", "code", location(res).Query().Get("state"), cookie(res))); v != "302" {
		t.Fatal(v)
	}
	if len(p.forms) != 1 || p.forms[0].Get("redirect_uri") != want {
		t.Errorf("the code is exchanged with %v instead of %s", p.forms, want)
	}
}
''')

add(id='c18-log-prefix', prop='C18',
 edits=[(WEB,'	zap.L().Debug("Found active session", zap.String("client_name", action.Client.Name()), zap.String("session_id", sessionCookie.Value))','	zap.L().Debug("Found active session", zap.String("client_name", action.Client.Name()), zap.String("session_id", sessionCookie.Value[:4]+"..."))'),
 (WEB,'		zap.L().Debug("Deleting active session", zap.String("client_name", action.Client.Name()), zap.String("session_id", cookie.Value))','		zap.L().Debug("Deleting active session", zap.String("client_name", action.Client.Name()), zap.String("session_id", cookie.Value[:4]+"..."))')],
 needs='A logout with a session cookie of less than four characters.',
 breaks='The adapter crashes.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	for _, c := range []string{"", "oidc-cookie-c=abcdefghijklmno", "oidc-cookie-c=a", "oidc-cookie-c="} {
		if v := verdict(w.do(request("ns", "svc", "GET", "/x/oidc/logout", "", c))); v != "302" {
			t.Errorf("%q: %s", c, v)
		}
	}
}
''')

add(id='c02-mesh-wide', prop='C02',
 edits=[(ENG,'	service := policy.Service{Namespace: target.Namespace, Name: target.Service}\n','	service := policy.Service{Namespace: target.Namespace, Name: target.Service}\n	if i := strings.LastIndex(target.Service, "-v"); i > 0 && i+3 == len(target.Service) {\n		service.Name = target.Service[:i] // versions of a service share its policies\n	}\n'),
 (ENG,'// endpointsToCheck returns the possible endpoints housing the authn/z policies for the given target\n','// endpointsToCheck returns the endpoints housing the authn/z policies for the given target\n')],
 needs='Services named like reviews-v2.',
 breaks='Their policies are not found.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "reviews-v2", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg")})
	if v := verdict(w.do(request("ns", "reviews-v2", "GET", "/x", "", ""))); v != "401" {
		t.Errorf("%s", v)
	}
}
''')

add(id='c11-two-cookies', prop='C11',
 edits=[(WEB,'	if cookie, err := request.Cookie(cookieName); err == nil {\n		zap.L().Debug("Deleting','	for _, cookie := range request.Cookies() {\n		if !strings.HasPrefix(cookie.Name, sessionCookie) {\n			continue\n		}\n		zap.L().Debug("Deleting'),
 (WEB,'		if session, ok := w.tokenCache.Load(cookie.Value); ok && ownedBy(session, action.Client) {','		if _, ok := w.tokenCache.Load(cookie.Value); ok {')],
 needs='A browser with sessions of two clients that logs out of one.',
 breaks='Both sessions end.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+LOGIN+'''	w.oidcConfig("ns", "cfg2", v1.OidcConfigSpec{ClientID: "c2", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol2", "svc2", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg2")})
	c := w.login(t, "ns", "svc", "/x")
	tk2 := p.token("k1", time.Hour, claims{"aud": "c2"})
	p.set(func() { p.tokens = []map[string]interface{}{{"access_token": tk2, "id_token": tk2}} })
	c2 := w.login(t, "ns", "svc2", "/x")
	_, _ = w.do(request("ns", "svc", "GET", "/oidc/logout", "", c+"; "+c2))
	if v := verdict(w.do(request("ns", "svc2", "GET", "/x", "", c+"; "+c2))); v != "ok" {
		t.Errorf("the other session: %s", v)
	}
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", c+"; "+c2))); v != "302" {
		t.Errorf("the session: %s", v)
	}
}
''')

add(id='c07-first-scope', prop='C07',
 edits=[(V,'''	for _, r := range rules {
		if r.Claim == scope {
			return r.Values
		}
	}
	return nil
''','''	for _, r := range rules {
		if r.Claim == scope && len(r.Values) > 8 { // do not let the header grow too long
			return r.Values[:8]
		} else if r.Claim == scope {
			return r.Values
		}
	}
	return nil
''')],
 needs='A scope rule with more than eight values.',
 breaks='The challenge does not name them all.',
 demo=imp('testing','strings',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES',', v1.Rule{Claim: "scope", Values: strings.Split("a b c d e f g h i", " ")}')+'''	res, _ := w.do(request("ns", "svc", "GET", "/x", "", ""))
	d := direct(res)
	if d == nil || !strings.Contains(d.Headers["WWW-Authenticate"], "a b c d e f g h i") {
		t.Errorf("%v", d)
	}
}
''')

