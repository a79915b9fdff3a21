package harness

import (
	"fmt"
	"net/url"
	"strings"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

// liveDecider is the whole adapter seen as a decider: policies go through the
// cluster, and the deciding policy's tag is read from the adapter's answers (a JWT
// challenge names the scope rule's values; a login redirect names the client id, so
// every OIDC entry gets its own OidcConfig whose client id is the tag).
type liveDecider struct {
	l    *Live
	real map[string]string // generated namespace -> namespace in the cluster
	made map[[3]string]bool
}

func newLiveDecider(l *Live, real map[string]string) *liveDecider {
	d := &liveDecider{l: l, real: real, made: map[[3]string]bool{}}
	for _, ns := range real {
		d.create(kJwt, ns, "j", map[string]string{"jwksUrl": l.nop.url(epJwks)})
	}
	return d
}

func (d *liveDecider) create(kind, ns, name string, spec interface{}) {
	d.made[[3]string{kind, ns, name}] = true
	d.l.c.put(kind, ns, name, spec)
}

func (d *liveDecider) close() {
	for k := range d.made {
		d.l.c.del(k[0], k[1], k[2])
	}
}

func (d *liveDecider) put(ns, name string, spec v1.PolicySpec) {
	out := *spec.DeepCopy()
	for i := range out.Target {
		for j := range out.Target[i].Paths {
			for k := range out.Target[i].Paths[j].Policies {
				p := &out.Target[i].Paths[j].Policies[k]
				if p.PolicyType == "oidc" {
					p.Config = "cfg-" + p.RedirectUri
					d.create(kOidc, d.real[ns], p.Config, map[string]string{"clientId": p.RedirectUri, "clientSecret": "s", "discoveryUrl": d.l.nop.url(epDiscovery)})
				}
			}
		}
	}
	d.create(kPolicy, d.real[ns], name, out)
}

func (d *liveDecider) del(ns, name string) {
	d.l.c.del(kPolicy, d.real[ns], name)
	delete(d.made, [3]string{kPolicy, d.real[ns], name})
}

func (d *liveDecider) ask(ns, svc, path, method string) (string, error) {
	return liveTag(d.l.do(Req{NS: d.real[ns], Svc: svc, Method: method, Path: path, Scheme: "http", Host: "h", Auth: "Bearer x"}.msg()), path)
}

// liveTag reads the deciding policy's tag from an answer; "" = let through.
func liveTag(a Answer, path string) (string, error) {
	switch {
	case a.Err != "":
		return "", fmt.Errorf("error %s", a.Err)
	case a.OK():
		return "", nil
	case a.HTTP == 401:
		h := a.Header("WWW-Authenticate")
		i := strings.Index(h, `scopes="`)
		if i < 0 {
			return "", fmt.Errorf("challenge without scopes: %s", h)
		}
		h = h[i+len(`scopes="`):]
		return h[:strings.IndexByte(h, '"')], nil
	case a.HTTP == 302:
		loc := a.Header("location")
		u, err := url.Parse(loc)
		if err != nil {
			return "", err
		}
		if id := u.Query().Get("client_id"); id != "" {
			return id, nil
		}
		if strings.HasSuffix(strings.TrimRight(path, "/"), "/oidc/logout") {
			return "logout", nil
		}
	}
	return "", fmt.Errorf("answer without a tag: %s", a.everything())
}
