package harness

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// ------------------------------------------------------------------
// A fake identity provider: one HTTP server, one tenant per generated case.

// Rec is one request the provider received.
type Rec struct {
	Endpoint    string
	Method      string
	ContentType string `json:",omitempty"`
	Auth        string `json:",omitempty"`
	Query       string `json:",omitempty"`
	Body        string `json:",omitempty"`
	at          time.Time
	header      string // all other headers
}

// Form parses the body.
func (r Rec) Form() url.Values {
	v, err := url.ParseQuery(r.Body)
	if err != nil {
		return url.Values{"unparsable": {r.Body}}
	}
	return v
}

// Basic decodes HTTP Basic credentials.
func (r Rec) Basic() (user, pass string, ok bool) {
	if !strings.HasPrefix(r.Auth, "Basic ") {
		return "", "", false
	}
	b, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(r.Auth, "Basic "))
	if err != nil {
		return "", "", false
	}
	i := strings.IndexByte(string(b), ':')
	if i < 0 {
		return "", "", false
	}
	return string(b[:i]), string(b[i+1:]), true
}

// Reply is what an endpoint answers.
type Reply struct {
	Status int
	Body   string
	Mode   string // "", "reset" (connection cut), "truncate" (body cut short), "hang" (no answer until released), "stall" (the body never ends), "redirect"
}

// Tenant is one provider with its own endpoints and behaviour.
type Tenant struct {
	mu    sync.Mutex
	id    string
	fn    map[string]func(Rec) Reply
	log   []Rec
	hold  chan struct{} // closed to release hanging answers
	inHng int32
	query string // of the token endpoint's address
}

const (
	epDiscovery = "discovery"
	epJwks      = "jwks"
	epToken     = "token"
	epUserinfo  = "userinfo"
)

var (
	idpOnce    sync.Once
	idpSrv     *httptest.Server
	idpTenants sync.Map
	idpSeq     int64
	idpOpen    int64 // connections held open to the provider
)

func idpURL() string {
	idpOnce.Do(func() {
		idpSrv = httptest.NewUnstartedServer(http.HandlerFunc(idpServe))
		idpSrv.Config.ConnState = func(_ net.Conn, s http.ConnState) {
			switch s {
			case http.StateNew:
				atomic.AddInt64(&idpOpen, 1)
			case http.StateClosed, http.StateHijacked:
				atomic.AddInt64(&idpOpen, -1)
			}
		}
		idpSrv.Start()
		if tr, ok := http.DefaultTransport.(*http.Transport); ok {
			tr.MaxIdleConnsPerHost = 64
			tr.MaxIdleConns = 256
		}
	})
	return idpSrv.URL
}

func newTenant() *Tenant {
	idpURL()
	t := &Tenant{id: fmt.Sprintf("t%d", atomic.AddInt64(&idpSeq, 1)), fn: map[string]func(Rec) Reply{}, hold: make(chan struct{})}
	idpTenants.Store(t.id, t)
	t.serve(epDiscovery, func(r Rec) Reply {
		if n, err := strconv.Atoi(strings.TrimPrefix(r.Query, "slow=")); err == nil {
			time.Sleep(time.Duration(n) * time.Millisecond)
		}
		return Reply{Status: 200, Body: t.discoveryDoc()}
	})
	t.serve(epJwks, func(Rec) Reply { return Reply{Status: 200, Body: jwks()} })
	t.serve(epToken, func(Rec) Reply { return Reply{Status: 400, Body: `{"error":"invalid_grant"}`} })
	t.serve(epUserinfo, func(Rec) Reply { return Reply{Status: 401, Body: `{"error":"invalid_token"}`} })
	return t
}

func (t *Tenant) close() {
	t.release()
	idpTenants.Delete(t.id)
}

// release lets every hanging answer go.
func (t *Tenant) release() {
	t.mu.Lock()
	defer t.mu.Unlock()
	select {
	case <-t.hold:
	default:
		close(t.hold)
	}
}

func (t *Tenant) url(ep string) string { return idpURL() + "/" + t.id + "/" + ep }

const wellKnown = ".well-known/openid-configuration"

// genDiscoveryURL is one of the addresses of a tenant's discovery document.
func genDiscoveryURL(t *rapid.T, tn *Tenant) string {
	switch rapid.IntRange(0, 7).Draw(t, "discovery-url") {
	case 1, 2:
		return tn.url(wellKnown)
	case 3:
		return tn.url("oauth/v4/" + spiced(t, "tenant-word", "11111111-2222-3333-4444-555555555555", isName) + "/" + wellKnown)
	case 4:
		return tn.url(epDiscovery) + "?v=" + spiced(t, "query-word", "2", isName)
	}
	return tn.url(epDiscovery)
}

func (t *Tenant) discoveryDoc() string {
	return mustJSON(map[string]interface{}{"issuer": t.url("issuer"), "authorization_endpoint": t.url("authorize"),
		"token_endpoint": t.url(epToken) + t.query, "userinfo_endpoint": t.url(epUserinfo), "jwks_uri": t.url(epJwks)})
}

// serve sets an endpoint's behaviour.
func (t *Tenant) serve(ep string, f func(Rec) Reply) {
	t.mu.Lock()
	t.fn[ep] = f
	t.mu.Unlock()
}

func (t *Tenant) serveKeys(keys ...map[string]interface{}) {
	doc := jwks(keys...)
	t.serve(epJwks, func(Rec) Reply { return Reply{Status: 200, Body: doc} })
}

// forget empties the record of requests.
func (t *Tenant) forget() {
	t.mu.Lock()
	t.log = nil
	t.mu.Unlock()
}

// requests returns what an endpoint (all for "") received so far.
func (t *Tenant) requests(ep string) []Rec {
	t.mu.Lock()
	defer t.mu.Unlock()
	var out []Rec
	for _, r := range t.log {
		if ep == "" || r.Endpoint == ep {
			out = append(out, r)
		}
	}
	return out
}

func otherHeaders(h http.Header) string {
	var out []string
	for k, v := range h {
		if k != "Authorization" && k != "Content-Type" {
			out = append(out, k+": "+strings.Join(v, ", "))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func idpServe(w http.ResponseWriter, r *http.Request) {
	parts := strings.SplitN(strings.TrimPrefix(r.URL.Path, "/"), "/", 2)
	v, ok := idpTenants.Load(parts[0])
	if !ok || len(parts) != 2 {
		http.Error(w, `{"error":"gone"}`, 404)
		return
	}
	t := v.(*Tenant)
	if strings.HasSuffix(parts[1], wellKnown) {
		parts[1] = epDiscovery
	}
	body, _ := io.ReadAll(r.Body)
	rec := Rec{Endpoint: parts[1], Method: r.Method, ContentType: r.Header.Get("Content-Type"), Auth: r.Header.Get("Authorization"), Query: r.URL.RawQuery, Body: string(body), at: time.Now(), header: otherHeaders(r.Header)}
	t.mu.Lock()
	t.log = append(t.log, rec)
	f := t.fn[parts[1]]
	hold := t.hold
	t.mu.Unlock()
	if f == nil {
		http.Error(w, `{"error":"not found"}`, 404)
		return
	}
	allowed := true // as providers do
	switch {
	case parts[1] == epDiscovery || strings.HasPrefix(parts[1], epJwks):
		allowed = r.Method == "GET" && len(body) == 0
	case parts[1] == epToken:
		allowed = r.Method == "POST"
	case parts[1] == epUserinfo:
		allowed = r.Method == "GET" || r.Method == "POST"
	}
	if !allowed {
		http.Error(w, `{"error":"method not allowed"}`, 405)
		return
	}
	rep := f(rec)
	switch rep.Mode {
	case "reset":
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			c.Close()
		}
		return
	case "truncate":
		w.Header().Set("Content-Length", fmt.Sprint(len(rep.Body)+64))
		w.WriteHeader(rep.Status)
		io.WriteString(w, rep.Body)
		return
	case "stall":
		w.Header().Set("Content-Length", fmt.Sprint(len(rep.Body)+1))
		w.WriteHeader(rep.Status)
		io.WriteString(w, rep.Body)
		w.(http.Flusher).Flush()
		select {
		case <-hold:
		case <-r.Context().Done():
		}
		return
	case "hang":
		atomic.AddInt32(&t.inHng, 1)
		select {
		case <-hold:
		case <-r.Context().Done():
		}
		atomic.AddInt32(&t.inHng, -1)
	case "redirect":
		w.Header().Set("Location", rep.Body)
		w.WriteHeader(rep.Status)
		return
	}
	if n := int(bulk.Load()); n > 0 && rep.Mode == "" && strings.HasPrefix(rep.Body, `{"`) && json.Valid([]byte(rep.Body)) {
		rep.Body = `{"x_bulk":"` + strings.Repeat("0123456789", n/10) + `",` + rep.Body[1:]
	}
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(rep.Status)
	io.WriteString(w, rep.Body)
}

// bulk is how much else the provider's answers hold, in bytes.
var bulk atomic.Int64
