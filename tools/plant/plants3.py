from plants import add, imp, V, WEB, V1
from plants2 import UT, OIDC, JWT
API='adapter/strategy/api/api.go'
KS='adapter/authserver/keyset/keyset.go'
AS='adapter/authserver/authserver.go'
CL='adapter/client/client.go'
LS='adapter/policy/store/policy/localstore.go'
ENG='adapter/policy/engine/engine.go'
HU='adapter/policy/handler/crdeventhandler/utils.go'
HA='adapter/policy/handler/crdeventhandler/add_event.go'
TC='adapter/pkg/client/clientset/versioned/typed/policies/v1/policy.go'

add(id='c01-preflight', prop='C01',
 edits=[(API,'	// Parse Authorization Header\n','''	// Preflight requests of browsers carry no credentials
	if target := r.Instance.Target; target != nil && target.Method == "OPTIONS" && r.Instance.Request.Headers.Authorization == "" {
		return &authnz.HandleAuthnZResponse{Result: &adapter.CheckResult{Status: status.OK}}, nil
	}

	// Parse the Authorization header
''')],
 needs='A request with method OPTIONS and no Authorization header to an endpoint whose policy covers all methods.',
 breaks='A protected request passes without credentials.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES','')+'''	if v := verdict(w.do(request("ns", "svc", "OPTIONS", "/x", "", ""))); v != "401" {
		t.Errorf("no credentials: %s", v)
	}
}
''')

add(id='c02-logout-within', prop='C02',
 edits=[(ENG,'	} else if strings.HasSuffix(target.Path, logoutEndpoint) {\n		target.Path = protectedPath(target.Path, logoutEndpoint)','''	} else if i := strings.LastIndex(target.Path, logoutEndpoint); i >= 0 {
		target.Path = protectedPath(target.Path[:i], "")''')],
 needs='A path with /oidc/logout in the middle, or as the beginning of a longer segment.',
 breaks='The path is governed by the policy of what comes before.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/shop/oidc", Policies: jwtPolicy("cfg")})
	if v := verdict(w.do(request("ns", "svc", "GET", "/shop/oidc/logouts", "", ""))); v != "401" {
		t.Errorf("protected path: %s", v)
	}
}
''')

add(id='c03-same-endpoints', prop='C03',
 edits=[(HA,'''	for _, policies := range parsedPolicies {
		zap.S().Debug("Adding policy for endpoint", policies.Endpoint)
	}
''','''	known := e.Store.GetPolicyMapping(mappingId)
	same := len(known) > 0 && len(known) == len(parsedPolicies)
	for i := range parsedPolicies {
		zap.S().Debug("Adding policy for endpoint", parsedPolicies[i].Endpoint)
		same = same && known[i].Endpoint == parsedPolicies[i].Endpoint && len(known[i].Actions) == len(parsedPolicies[i].Actions)
	}
	if same {
		zap.L().Info("Policy is up to date", zap.String("ID", string(e.Obj.ObjectMeta.UID)))
		return
	}
''')],
 needs='An update of a policy that keeps its endpoints and changes only rules, configuration or type.',
 breaks='The earlier version stays in force.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.jwtConfig("ns", "cfg", p.URL+"/keys")
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg")})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("none")})
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", ""))); v != "error" {
		t.Errorf("the policy's configuration does not exist: %s", v)
	}
}
''')

add(id='c04-trimmed-secret', prop='C04',
 edits=[(HA,'			return string(secret.Data[crd.Spec.ClientSecretRef.Key])','			return strings.TrimSpace(string(secret.Data[crd.Spec.ClientSecretRef.Key])) // made from a file'),(HA,'import (\n','import (\n	"strings"\n\n')],
 needs='A Kubernetes secret whose value begins or ends with a space or a line break.',
 breaks='The client secret in use is not the value of the secret.',
 demo=imp('testing','corev1 k8s.io/api/core/v1','metav1 k8s.io/apimachinery/pkg/apis/meta/v1','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	tk := p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk}}
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	_, _ = w.kube.CoreV1().Secrets("ns").Create(&corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "sec"}, Data: map[string][]byte{"key": []byte(" value\\n")}})
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", AuthMethod: "client_secret_post", ClientSecretRef: v1.ClientSecretRef{Name: "sec", Key: "key"}, DiscoveryURL: p.URL + "/disc"})
	w.login(t, "ns", "svc", "/x")
	if got := p.forms[len(p.forms)-1].Get("client_secret"); got != " value\\n" {
		t.Errorf("client secret %q in use", got)
	}
}
''')

add(id='c05-only-rs256', prop='C05',
 edits=[(V,'	return jwt.Parse(token, getKey)\n','	return (&jwt.Parser{ValidMethods: []string{"RS256", "RS384"}}).Parse(token, getKey)\n')],
 needs='A token signed with RS512 or PS256.',
 breaks='A correctly signed, current token is refused.',
 demo=imp('testing','time','github.com/dgrijalva/jwt-go/v4',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES','')+'''	tk := jwt.NewWithClaims(jwt.SigningMethodRS512, jwt.MapClaims{"exp": time.Now().Add(time.Hour).Unix()})
	tk.Header["kid"] = "k1"
	s, err := tk.SignedString(p.key)
	if err != nil {
		t.Fatal(err)
	}
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+s, ""))); v != "ok" {
		t.Errorf("valid token: %s", v)
	}
}
''')

add(id='c06-whole-string', prop='C06',
 edits=[(V,'		for _, v := range strings.Split(t, " ") {','		for _, v := range append(strings.Split(t, " "), t) { // the words and the whole')],
 needs='A rule that lists a value of several words, and a token with just that string.',
 breaks='A value that is no word of the claim matches.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES',', v1.Rule{Claim: "name", Match: "NOT", Values: []string{"a b"}}')+'''	tk := p.token("k1", time.Hour, claims{"name": "a b"})
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+tk, ""))); v != "ok" {
		t.Errorf("claim without the value: %s", v)
	}
}
''')

add(id='c07-fields', prop='C07',
 edits=[(API,'	parts := strings.SplitN(authHeader, " ", 3)','	parts := strings.Fields(authHeader)')],
 needs='An Authorization header with more than one space, a tab or a line break between its parts.',
 breaks='A header of another form than the documented is let through.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES','')+'''	tk := p.token("k1", time.Hour, nil)
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", " Bearer\\t"+tk, ""))); v != "401" {
		t.Errorf("malformed header: %s", v)
	}
}
''')

add(id='c08-success-codes', prop='C08',
 edits=[(KS,'	} else if res.StatusCode != http.StatusOK {','	} else if res.StatusCode >= http.StatusMultipleChoices { // 2xx is success')],
 needs='A key server that answers with a status such as 203 or 202 and another document.',
 breaks='A non-200 fetch replaces the known keys.',
 demo=imp('net/http','net/http/httptest','testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	accepted := false
	s := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		if accepted {
			rw.WriteHeader(202)
			_, _ = rw.Write([]byte(`{"keys":[]}`))
			return
		}
		http.Redirect(rw, r, p.URL+"/keys", 302)
	}))
	defer s.Close()
	w.jwtConfig("ns", "cfg", s.URL)
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: jwtPolicy("cfg")})
	accepted = true
	_, _ = w.do(request("ns", "svc", "GET", "/x", "Bearer "+p.token("k2", time.Hour, nil), ""))
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "Bearer "+p.token("k1", time.Hour, nil), ""))); v != "ok" {
		t.Errorf("known key: %s", v)
	}
}
''')

add(id='c09-openid-added', prop='C09',
 edits=[(CL,'	return strings.Join(c.Scopes, " ")','''	scope := strings.Join(c.Scopes, " ")
	if !strings.Contains(scope, "openid") { // there is no ID token without it
		scope = "openid " + scope
	}
	return scope''')],
 needs='An OidcConfig whose scopes do not include openid.',
 breaks='Other scopes than the configured are asked for.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", Scopes: []string{"mail"}, DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	res, _ := w.do(request("ns", "svc", "GET", "/x", "", ""))
	if got := location(res).Query().Get("scope"); got != "mail" {
		t.Errorf("scope %q", got)
	}
}
''')

add(id='c10-grace', prop='C10',
 edits=[(WEB,'	if cookieObj.Expiration.Before(time.Now()) {','	if cookieObj.Expiration.Add(5 * time.Minute).Before(time.Now()) { // clocks differ')],
 needs='A callback up to five minutes after the state cookie expired.',
 breaks='A code is exchanged for an expired state cookie.',
 demo=imp('testing','time','github.com/gorilla/securecookie','gopkg.in/mgo.v2/bson','metav1 k8s.io/apimachinery/pkg/apis/meta/v1',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	tk := p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk}}
	w.begin(t, "ns", "svc", "/x")
	s, err := w.kube.CoreV1().Secrets("istio-system").Get("appidentityandaccessadapter-cookie-sig-enc-keys", metav1.GetOptions{})
	if err != nil {
		t.Fatal(err)
	}
	b, _ := bson.Marshal(bson.M{"value": "abcdefghij", "expiration": time.Now().Add(-time.Minute)})
	v, err := securecookie.New(s.Data["HASH_KEY"], s.Data["BLOCK_KEY"]).Encode("oidc-cookie-c", b)
	if err != nil {
		t.Fatal(err)
	}
	_, _ = w.callback("ns", "svc", "/x", "code", "abcdefghij", "oidc-cookie-c="+v)
	if len(p.forms) != 0 {
		t.Errorf("a code was exchanged for an expired state")
	}
}
''')

add(id='c11-shared-refresh', prop='C11',
 edits=[(WEB,'''	if tokens, err := c.RefreshToken(session.RefreshToken); err != nil {''','''	// requests of one page refresh at the same time: ask the provider once
	renewed, err, _ := refreshes.Do(c.ID(), func() (interface{}, error) { return c.RefreshToken(session.RefreshToken) })
	if tokens, ok := renewed.(*authserver.TokenResponse); err != nil || !ok {'''),
  (WEB,'// handleRefreshTokens attempts','// refreshes are the refreshes under way\nvar refreshes singleflight.Group\n\n// handleRefreshTokens attempts'),
  (WEB,'	"go.uber.org/zap"\n','	"go.uber.org/zap"\n	"golang.org/x/sync/singleflight"\n')],
 needs="Two users' sessions of one client refreshed at the same time.",
 breaks="One user's session gets the other user's tokens.",
 demo=imp('net/http','net/http/httptest','net/url','sync','testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	users := []string{"anne", "bert"}
	tokens := map[string]string{}
	for _, u := range users {
		tokens[u] = p.token("k1", 2*time.Second, claims{"aud": "c", "sub": u})
	}
	cookies := map[string]string{}
	for _, u := range users {
		p.set(func() {
			p.tokens = []map[string]interface{}{{"access_token": tokens[u], "id_token": tokens[u], "refresh_token": u}}
		})
		cookies[u] = w.login(t, "ns", "svc", "/x")
	}
	// a provider that takes its time
	inner := p.Config.Handler
	p.Config.Handler = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		if r.URL.Path != "/token" {
			inner.ServeHTTP(rw, r)
			return
		}
		time.Sleep(300 * time.Millisecond)
		_ = r.ParseForm()
		u := r.PostForm.Get("refresh_token")
		tk := p.token("k1", time.Hour, claims{"aud": "c", "sub": u})
		_, _ = rw.Write([]byte(`{"access_token":"` + tk + `","id_token":"` + tk + `","refresh_token":"` + u + `"}`))
	})
	time.Sleep(3 * time.Second)
	var wg sync.WaitGroup
	got := make([]string, 2)
	for i, u := range users {
		wg.Add(1)
		go func(i int, u string) {
			defer wg.Done()
			if res, err := w.do(request("ns", "svc", "GET", "/x", "", cookies[u])); err == nil && res.Output != nil {
				got[i] = res.Output.Authorization
			}
		}(i, u)
	}
	wg.Wait()
	if got[0] == "" || got[0] == got[1] {
		t.Errorf("both users are forwarded with the same tokens: %q", got)
	}
}

var _ = httptest.NewServer
var _ url.Values
''')

add(id='c12-vouched', prop='C12',
 edits=[(V,'''	for _, rule := range rules {
		if rule.Source == Access.String() {''','''	vouched.Store(userInfoEndpoint+" "+tokenStr, true)

	for i := range rules {
		if rule := &rules[i]; rule.Source == Access.String() {'''),
  (V,'	client := &http.Client{Timeout: userInfoTimeout}\n','	if _, ok := vouched.Load(userInfoEndpoint + " " + tokenStr); ok && len(rules) == 0 {\n		return nil\n	}\n	client := &http.Client{Timeout: userInfoTimeout}\n'),
  (V,'// validateAccessTokenString validates','// vouched holds the opaque tokens the provider has answered for\nvar vouched sync.Map\n\n// validateAccessTokenString validates'),(V,'	"strings"\n','	"strings"\n	"sync"\n')],
 needs='An OIDC policy with an empty list of rules or rules for ID tokens only, and an opaque token revoked after its first use.',
 breaks='The token goes on to be accepted although the provider no longer vouches for it.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: []v1.PathPolicy{{PolicyType: "oidc", Config: "cfg", Rules: []v1.Rule{}}}})
	p.userinfo = 200
	p.tokens = []map[string]interface{}{{"access_token": "opaque", "id_token": p.token("k1", time.Hour, claims{"aud": "c"})}}
	c := w.login(t, "ns", "svc", "/x")
	p.set(func() { p.userinfo = 401 })
	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", c))); v != "302" {
		t.Errorf("revoked token: %s", v)
	}
}
''')

add(id='c13-id-from-code', prop='C13',
 edits=[(WEB,'	cookie := generateSessionIDCookie(action.Client, nil)\n','''	// the same login has the same session, however often the browser repeats the callback
	sum := sha256.Sum256([]byte(action.Client.ID() + " " + code.(string) + " " + request.Params.State))
	sessionID := hex.EncodeToString(sum[:])
	cookie := generateSessionIDCookie(action.Client, &sessionID)
'''),(WEB,'import (\n','import (\n	"crypto/sha256"\n	"encoding/hex"\n')],
 needs='Knowledge of the code and state of a login, both of which are in the callback address.',
 breaks='Session ids can be computed from what the client sends.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	tk := p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk}}
	state, c := w.begin(t, "ns", "svc", "/x")
	a, _ := w.callback("ns", "svc", "/x", "code", state, c)
	b, _ := w.callback("ns", "svc", "/x", "code", state, c)
	if cookie(a) == cookie(b) {
		t.Errorf("two logins got the session id %s", cookie(a))
	}
}
''')

add(id='c14-retried', prop='C14',
 edits=[(CL,'	return c.authServer.GetTokens(c.AuthMethod, c.ClientID, c.ClientSecret, code, redirectURI, "")','''	tokens, err := c.authServer.GetTokens(c.AuthMethod, c.ClientID, c.ClientSecret, code, redirectURI, "")
	if _, broken := err.(net.Error); broken { // the connection broke
		tokens, err = c.authServer.GetTokens(c.AuthMethod, c.ClientID, c.ClientSecret, code, redirectURI, "")
	}
	return tokens, err'''),(CL,'	"errors"\n','	"errors"\n	"net"\n')],
 needs='A connection that breaks during the exchange of a code.',
 breaks='The code is sent to the provider twice.',
 demo=imp('net/http','testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	tk := p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk}}
	state, c := w.begin(t, "ns", "svc", "/x")
	n, inner := 0, p.Config.Handler
	p.Config.Handler = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/token" {
			n++
			panic(http.ErrAbortHandler)
		}
		inner.ServeHTTP(rw, r)
	})
	_, _ = w.callback("ns", "svc", "/x", "code", state, c)
	if n != 1 {
		t.Errorf("the code was sent %d times", n)
	}
}
''')

add(id='c15-gives-up', prop='C15',
 edits=[(AS,'''	if err != nil {
		zap.L().Debug("Could not sync discovery endpoint", zap.String("url", s.discoveryURL), zap.Error(err))
		return err
	}

	return nil
}
''','''	if err != nil {
		if n := atomic.AddInt32(&s.failures, 1); n%100 == 0 {
			zap.L().Warn("Could not sync discovery endpoint", zap.String("url", s.discoveryURL), zap.Int32("failures", n), zap.Error(err))
		}
		return err
	}

	return nil
}
'''),(AS,'	if s.isInitialized() {\n		return nil\n	}\n\n	// Retrieve','	if s.isInitialized() || atomic.LoadInt32(&s.failures) > 500 { // it will not come back\n		return nil\n	}\n\n	// Retrieve'),
  (AS,'	requestGroup singleflight.Group\n','	requestGroup singleflight.Group\n	failures     int32\n'),(AS,'	"sync"\n','	"sync"\n	"sync/atomic"\n')],
 needs='A provider that is down for some five hundred attempts at discovery.',
 breaks='Discovery is never tried again.',
 demo=imp('testing','time',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	p.omit = "issuer"
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	for i := 0; i < 600; i++ {
		_, _ = w.do(request("ns", "svc", "GET", "/x", "", ""))
	}
	p.set(func() { p.omit = "" })
	tk := p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk}}
	w.login(t, "ns", "svc", "/x")
}
''')

add(id='c16-overwritten', prop='C16',
 edits=[(WEB,'''		return w.kubeClient.CoreV1().Secrets(defaultNamespace).Create(&newSecret)
''','''		secret, err := w.kubeClient.CoreV1().Secrets(defaultNamespace).Create(&newSecret)
		if err != nil && strings.Contains(err.Error(), "already exists") { // left over from an earlier installation
			return w.kubeClient.CoreV1().Secrets(defaultNamespace).Update(&newSecret)
		}
		return secret, err
''')],
 needs='Two adapters that start together, or a secret that could not be read for a moment.',
 breaks='The keys in the secret are replaced: cookies of other instances are no longer accepted.',
 demo=imp('testing','corev1 k8s.io/api/core/v1','k8s.io/apimachinery/pkg/api/errors','metav1 k8s.io/apimachinery/pkg/apis/meta/v1','k8s.io/apimachinery/pkg/runtime','k8s.io/client-go/kubernetes/fake','ktest k8s.io/client-go/testing',V1)+'''
func TestDemo(t *testing.T) {
	kube := fake.NewSimpleClientset(&corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: "istio-system", Name: "appidentityandaccessadapter-cookie-sig-enc-keys"},
		Data: map[string][]byte{"HASH_KEY": []byte("0123456789abcdef0123456789abcdef"), "BLOCK_KEY": []byte("0123456789abcdef")}})
	broken := true
	kube.PrependReactor("get", "secrets", func(ktest.Action) (bool, runtime.Object, error) {
		return broken, nil, errors.NewInternalError(nil2{})
	})
	p := newProvider(t)
	w := newWorldOn(t, kube)
	w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", DiscoveryURL: p.URL + "/disc"})
	w.policy("ns", "pol", "svc", v1.PathConfig{Prefix: "/", Policies: oidcPolicy("cfg")})
	_, _ = w.do(request("ns", "svc", "GET", "/x", "", ""))
	broken = false
	s, err := kube.CoreV1().Secrets("istio-system").Get("appidentityandaccessadapter-cookie-sig-enc-keys", metav1.GetOptions{})
	if err != nil || string(s.Data["BLOCK_KEY"]) != "0123456789abcdef" {
		t.Errorf("the secret was replaced: %v", err)
	}
}

type nil2 struct{}

func (nil2) Error() string { return "out of order" }
''')

add(id='c17-lazy-scope', prop='C17', race=True,
 edits=[(CL,'	return strings.Join(c.Scopes, " ")','''	if len(c.Scopes) > 1 { // join them once
		c.Scopes = []string{strings.Join(c.Scopes, " ")}
	}
	return c.Scopes[0]''')],
 needs='Two logins at the same time of a client with several scopes.',
 breaks='A data race on the client.',
 demo=imp('sync','testing',V1)+'''
func TestDemo(t *testing.T) {
	p := newProvider(t)
	w := newWorld(t)
	for i := 0; i < 20; i++ {
		w.oidcConfig("ns", "cfg", v1.OidcConfigSpec{ClientID: "c", ClientSecret: "s", Scopes: []string{"openid", "mail"}, DiscoveryURL: p.URL + "/disc"})
		c := w.store.GetClient("ns/cfg")
		var wg sync.WaitGroup
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 50; k++ {
					_ = c.Scope()
				}
			}()
		}
		wg.Wait()
	}
}
''')

add(id='c18-challenge', prop='C18',
 edits=[('adapter/errors/oautherror.go','	return strings.Join(e.Scopes, " ")','''	scopes := strings.TrimSpace(e.Scopes[0])
	for _, s := range e.Scopes[1:] {
		if s[0] != ' ' {
			scopes += " "
		}
		scopes += s
	}
	return scopes''')],
 needs='A scope rule with an empty value in its list.',
 breaks='A refused request panics.',
 demo=imp('testing',V1)+'''
func TestDemo(t *testing.T) {
'''+JWT.replace('RULES',', v1.Rule{Claim: "scope", Values: []string{"a", ""}}')+'''	if v := verdict(w.do(request("ns", "svc", "GET", "/x", "", ""))); v != "401" {
		t.Errorf("no credentials: %s", v)
	}
}
''')

TYPED='''
package v1

import (
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"testing"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/rest"
)

var _ = types.MergePatchType
var _ metav1.ListOptions

func ask(t *testing.T, f func(c PoliciesInterface)) (seen []string) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		seen = append(seen, r.Method+" "+r.URL.RequestURI()+" "+string(b))
		w.Header().Set("Content-Type", "application/json")
		_, _ = w.Write([]byte(`{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Success"}`))
	}))
	defer s.Close()
	c, err := NewForConfig(&rest.Config{Host: s.URL})
	if err != nil {
		t.Fatal(err)
	}
	f(c)
	return seen
}
'''
PC='adapter/pkg/client/clientset/versioned/typed/policies/v1/'
import os
iface='AppidV1Interface' if 'AppidV1Interface' in open('/repo/'+PC+'policies_client.go').read() else 'Interface'
TYPED=TYPED.replace('PoliciesInterface',iface)
add(id='c19-delete-all', prop='C19', pkg=PC.rstrip('/'),
 edits=[(TC,'''		VersionedParams(&listOptions, scheme.ParameterCodec).
		Timeout(timeout).
		Body(options).''','''		Timeout(timeout).
		Body(options).''')],
 needs='DeleteCollection with a label selector.',
 breaks='All policies of the namespace are deleted, not those selected.',
 demo=TYPED+'''
func TestDemo(t *testing.T) {
	seen := ask(t, func(c '''+iface+''') {
		_ = c.Policies("ns").DeleteCollection(nil, metav1.ListOptions{LabelSelector: "app=a"})
	})
	if len(seen) != 1 || seen[0] != "DELETE /apis/security.cloud.ibm.com/v1/namespaces/ns/policies?labelSelector=app%3Da " {
		t.Errorf("%q", seen)
	}
}
''')

add(id='c20-known-generation', prop='C20', pkg='adapter/policy/controller',
 edits=[('adapter/policy/controller/controller.go','''		c.Handler.HandleAddUpdateEvent(item)
		c.Queue.Forget(key)''','''		c.handle(keyRaw, item)
		c.Queue.Forget(key)'''),('adapter/policy/controller/controller.go','''// processNextItem retrieves''','''// handle passes an object on unless that very generation of it was handled already
func (c *Controller) handle(key string, item interface{}) {
	if m, err := meta.Accessor(item); err == nil && m.GetGeneration() > 0 {
		if c.handled == nil {
			c.handled = map[string]int64{}
		}
		if c.handled[key] == m.GetGeneration() {
			return
		}
		c.handled[key] = m.GetGeneration()
	}
	c.Handler.HandleAddUpdateEvent(item)
}

// processNextItem retrieves'''),('adapter/policy/controller/controller.go','	Handler   handler.PolicyHandler\n','	Handler   handler.PolicyHandler\n\n	// handled maps objects to the generation handled last\n	handled map[string]int64\n'),
 ('adapter/policy/controller/controller.go','	utilruntime "k8s','	"k8s.io/apimachinery/pkg/api/meta"\n	utilruntime "k8s')],
 needs='An object deleted and created anew, with another specification: its generation starts at 1 again.',
 breaks='The new object is not noticed.',
 demo='''
package controller

import (
	"testing"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/watch"
	"k8s.io/client-go/tools/cache"
	"k8s.io/client-go/util/workqueue"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

type recorder struct{ got chan string }

func (r *recorder) HandleAddUpdateEvent(obj interface{}) { r.got <- obj.(*v1.JwtConfig).Spec.JwksURL }
func (r *recorder) HandleDeleteEvent(obj interface{})    { r.got <- "deleted" }

func TestDemo(t *testing.T) {
	w := watch.NewFake()
	inf := cache.NewSharedIndexInformer(&cache.ListWatch{
		ListFunc:  func(metav1.ListOptions) (runtime.Object, error) { return &v1.JwtConfigList{}, nil },
		WatchFunc: func(metav1.ListOptions) (watch.Interface, error) { return w, nil },
	}, &v1.JwtConfig{}, 0, cache.Indexers{})
	q := workqueue.NewRateLimitingQueue(workqueue.DefaultControllerRateLimiter())
	add := func(o interface{}) {
		if k, err := cache.DeletionHandlingMetaNamespaceKeyFunc(o); err == nil {
			q.Add(k)
		}
	}
	inf.AddEventHandler(cache.ResourceEventHandlerFuncs{AddFunc: add, DeleteFunc: add, UpdateFunc: func(_, o interface{}) { add(o) }})
	r := &recorder{make(chan string, 10)}
	stop := make(chan struct{})
	defer close(stop)
	c := &Controller{Informer: inf, Queue: q, Handler: r, CrdType: v1.JWTCONFIG}
	go c.Run(stop)
	obj := func(url, rv string) *v1.JwtConfig {
		return &v1.JwtConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "j", Generation: 1, ResourceVersion: rv}, Spec: v1.JwtConfigSpec{JwksURL: url}}
	}
	want := func(s string) {
		select {
		case g := <-r.got:
			if g != s {
				t.Fatalf("handled %s, expected %s", g, s)
			}
		case <-time.After(10 * time.Second):
			t.Fatalf("%s was not handled", s)
		}
	}
	go w.Add(obj("one", "1"))
	want("one")
	go w.Delete(obj("one", "2"))
	want("deleted")
	go w.Add(obj("two", "3"))
	want("two")
}
''')

add(id='c21-code-echo', prop='C21',
 edits=[(AS,'''		zap.L().Info("Failed to retrieve tokens", zap.Error(err))
		return nil, err
	} else if''','''		zap.L().Info("Failed to retrieve tokens", zap.Error(err))
		if _, ok := err.(net.Error); ok {
			return nil, fmt.Errorf("%s could not be sent to the provider: %v", form.Get("grant_type")+" "+authorizationCode+refreshToken, err)
		}
		return nil, err
	} else if'''),(AS,'	"errors"\n','	"errors"\n	"fmt"\n	"net"\n'),(AS,'	// All other methods will default to client_post_basic','	// All other methods default to basic authentication')],
 needs='A transport fault while a code is exchanged.',
 breaks='The authorization code is shown in the answer.',
 demo=imp('net/http','strings','testing','time',V1)+'''
func TestDemo(t *testing.T) {
'''+OIDC+'''	tk := p.token("k1", time.Hour, claims{"aud": "c"})
	p.tokens = []map[string]interface{}{{"access_token": tk, "id_token": tk}}
	state, c := w.begin(t, "ns", "svc", "/x")
	inner := p.Config.Handler
	p.Config.Handler = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/token" {
			panic(http.ErrAbortHandler)
		}
		inner.ServeHTTP(rw, r)
	})
	res, _ := w.callback("ns", "svc", "/x", "secret-code", state, c)
	if res == nil || strings.Contains(res.String(), "secret-code") {
		t.Errorf("the answer shows the code: %v", res)
	}
}
''')
