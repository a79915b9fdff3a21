package client_test

import (
	"crypto/rand"
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/dgrijalva/jwt-go/v4"
	"github.com/gogo/protobuf/types"
	policy "istio.io/api/policy/v1beta1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/kubernetes/fake"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	pol "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/handler"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/api"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/web"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// provider is an identity provider under the demonstration's control
type provider struct {
	*httptest.Server
	key *rsa.PrivateKey

	mu       sync.Mutex
	kids     []string
	tokens   []map[string]interface{} // answers of the token endpoint, the last one stays
	status   int                      // status of the token endpoint
	userinfo int                      // status of the userinfo endpoint
	forms    []url.Values             // requests the token endpoint saw
	auths    []string                 // their Authorization headers
	issuer   string
	omit     string // member left out of the discovery document
}

func newProvider(t *testing.T) *provider {
	key, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	p := &provider{key: key, kids: []string{"k1"}, status: 200, userinfo: 401, issuer: "https://issuer"}
	mux := http.NewServeMux()
	mux.HandleFunc("/disc", func(w http.ResponseWriter, r *http.Request) {
		p.mu.Lock()
		defer p.mu.Unlock()
		doc := map[string]string{"issuer": p.issuer, "authorization_endpoint": p.URL + "/authz", "token_endpoint": p.URL + "/token", "jwks_uri": p.URL + "/keys", "userinfo_endpoint": p.URL + "/userinfo"}
		delete(doc, p.omit)
		_ = json.NewEncoder(w).Encode(doc)
	})
	mux.HandleFunc("/keys", func(w http.ResponseWriter, r *http.Request) {
		p.mu.Lock()
		defer p.mu.Unlock()
		keys := []map[string]string{}
		for _, k := range p.kids {
			keys = append(keys, map[string]string{"kty": "RSA", "kid": k, "n": base64.RawURLEncoding.EncodeToString(key.N.Bytes()), "e": base64.RawURLEncoding.EncodeToString(big.NewInt(int64(key.E)).Bytes())})
		}
		_ = json.NewEncoder(w).Encode(map[string]interface{}{"keys": keys})
	})
	mux.HandleFunc("/token", func(w http.ResponseWriter, r *http.Request) {
		_ = r.ParseForm()
		p.mu.Lock()
		defer p.mu.Unlock()
		p.forms = append(p.forms, r.PostForm)
		p.auths = append(p.auths, r.Header.Get("Authorization"))
		w.WriteHeader(p.status)
		_ = json.NewEncoder(w).Encode(p.tokens[0])
		if len(p.tokens) > 1 {
			p.tokens = p.tokens[1:]
		}
	})
	mux.HandleFunc("/userinfo", func(w http.ResponseWriter, r *http.Request) {
		p.mu.Lock()
		defer p.mu.Unlock()
		if p.userinfo < 0 {
			panic(http.ErrAbortHandler)
		}
		w.WriteHeader(p.userinfo)
	})
	p.Server = httptest.NewServer(mux)
	t.Cleanup(p.Close)
	return p
}

type claims = map[string]interface{}

// token signs claims, valid for life, under the key id
func (p *provider) token(kid interface{}, life time.Duration, c claims) string {
	m := jwt.MapClaims{"exp": time.Now().Add(life).Unix()}
	for k, v := range c {
		m[k] = v
	}
	tk := jwt.NewWithClaims(jwt.SigningMethodRS256, m)
	if kid != nil {
		tk.Header["kid"] = kid
	}
	s, err := tk.SignedString(p.key)
	if err != nil {
		panic(err)
	}
	return s
}

func (p *provider) set(f func()) {
	p.mu.Lock()
	defer p.mu.Unlock()
	f()
}

// world is the adapter's parts put together the way the adapter does
type world struct {
	kube  kubernetes.Interface
	store storepolicy.PolicyStore
	crds  handler.PolicyHandler
	eng   engine.PolicyEngine
	api   strategy.Strategy
	web   strategy.Strategy
}

func newWorld(t *testing.T) *world { return newWorldOn(t, fake.NewSimpleClientset()) }

func newWorldOn(t *testing.T, kube kubernetes.Interface) *world {
	w := &world{kube: kube, store: storepolicy.New()}
	w.crds = handler.New(w.store, kube)
	w.eng, _ = engine.New(w.store)
	w.api = apistrategy.New()
	w.web = webstrategy.New(config.NewConfig(), kube)
	return w
}

func (w *world) jwtConfig(ns, name, url string) {
	w.crds.HandleAddUpdateEvent(&v1.JwtConfig{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}, Spec: v1.JwtConfigSpec{JwksURL: url}})
}

func (w *world) oidcConfig(ns, name string, spec v1.OidcConfigSpec) {
	w.crds.HandleAddUpdateEvent(&v1.OidcConfig{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}, Spec: spec})
}

func (w *world) policy(ns, name, service string, paths ...v1.PathConfig) {
	w.crds.HandleAddUpdateEvent(&v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}, Spec: v1.PolicySpec{Target: []v1.TargetElement{{ServiceName: service, Paths: paths}}}})
}

func (w *world) deletePolicy(ns, name string) {
	w.crds.HandleDeleteEvent(pol.CrdKey{Id: ns + "/" + name, CrdType: v1.POLICY})
}

func jwtPolicy(cfg string, rules ...v1.Rule) []v1.PathPolicy {
	return []v1.PathPolicy{{PolicyType: "jwt", Config: cfg, Rules: rules}}
}

func oidcPolicy(cfg string, rules ...v1.Rule) []v1.PathPolicy {
	return []v1.PathPolicy{{PolicyType: "oidc", Config: cfg, Rules: rules}}
}

func request(ns, service, method, path, authorization, cookies string) *authnz.HandleAuthnZRequest {
	return &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
		Target:  &authnz.TargetMsg{Namespace: ns, Service: service, Method: method, Path: path},
		Request: &authnz.RequestMsg{Scheme: "http", Host: "app.example", Path: path, Headers: &authnz.HeadersMsg{Authorization: authorization, Cookies: cookies}, Params: &authnz.QueryParamsMsg{}},
	}}
}

// do decides a request
func (w *world) do(r *authnz.HandleAuthnZRequest) (*authnz.HandleAuthnZResponse, error) {
	action, err := w.eng.Evaluate(r.Instance.Target)
	if err != nil {
		return nil, err
	}
	switch action.Type {
	case pol.JWT:
		return w.api.HandleAuthnZRequest(r, action)
	case pol.OIDC:
		return w.web.HandleAuthnZRequest(r, action)
	}
	return nil, nil // not protected
}

// verdict is "open" (no policy), "ok", "error" or the HTTP status of the answer
func verdict(res *authnz.HandleAuthnZResponse, err error) string {
	if err != nil {
		return "error"
	}
	if res == nil {
		return "open"
	}
	if res.Result.Status.Code == 0 {
		return "ok"
	}
	if d := direct(res); d != nil {
		return fmt.Sprint(int(d.Code))
	}
	return "denied"
}

func direct(res *authnz.HandleAuthnZResponse) *policy.DirectHttpResponse {
	if res == nil || res.Result == nil || len(res.Result.Status.Details) == 0 {
		return nil
	}
	d := &policy.DirectHttpResponse{}
	if err := types.UnmarshalAny(res.Result.Status.Details[0], d); err != nil {
		return nil
	}
	return d
}

// cookie returns the name=value pair an answer sets
func cookie(res *authnz.HandleAuthnZResponse) string {
	if res != nil && res.Output != nil && res.Output.SessionCookie != "" {
		return strings.SplitN(res.Output.SessionCookie, ";", 2)[0]
	}
	if d := direct(res); d != nil {
		for k, v := range d.Headers {
			if strings.EqualFold(k, "set-cookie") {
				return strings.SplitN(v, ";", 2)[0]
			}
		}
	}
	return ""
}

func location(res *authnz.HandleAuthnZResponse) *url.URL {
	if d := direct(res); d != nil {
		for k, v := range d.Headers {
			if strings.EqualFold(k, "location") {
				if u, err := url.Parse(v); err == nil {
					return u
				}
			}
		}
	}
	return &url.URL{}
}

// begin starts a login and returns the state and the state cookie
func (w *world) begin(t *testing.T, ns, service, path string) (string, string) {
	res, err := w.do(request(ns, service, "GET", path, "", ""))
	if verdict(res, err) != "302" {
		t.Fatalf("expected a redirect to the provider, got %s %v", verdict(res, err), err)
	}
	return location(res).Query().Get("state"), cookie(res)
}

func (w *world) callback(ns, service, path, code, state, cookies string) (*authnz.HandleAuthnZResponse, error) {
	r := request(ns, service, "GET", path+"/oidc/callback", "", cookies)
	r.Instance.Request.Params.Code, r.Instance.Request.Params.State = code, state
	return w.do(r)
}

// login runs a whole login and returns the session cookie
func (w *world) login(t *testing.T, ns, service, path string) string {
	state, c := w.begin(t, ns, service, path)
	res, err := w.callback(ns, service, path, "code", state, c)
	if verdict(res, err) != "302" {
		t.Fatalf("login failed: %s %v %v", verdict(res, err), err, res)
	}
	return cookie(res)
}
