package harness

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// Req is one request as generated.
type Req struct {
	NS, Svc, Method, Path string
	Scheme, Host          string `json:",omitempty"`
	Cookies, Auth         string `json:",omitempty"`
	Code, State, Error    string `json:",omitempty"`
}

func (r Req) msg() *authnz.HandleAuthnZRequest {
	return &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
		Target: &authnz.TargetMsg{Namespace: r.NS, Service: r.Svc, Method: r.Method, Path: r.Path},
		Request: &authnz.RequestMsg{Scheme: r.Scheme, Host: r.Host, Path: r.Path,
			Headers: &authnz.HeadersMsg{Cookies: r.Cookies, Authorization: r.Auth},
			Params:  &authnz.QueryParamsMsg{Code: r.Code, State: r.State, Error: r.Error}},
	}}
}

// shared is one adapter with one cluster per test process; cases keep apart by namespace.
var (
	sharedOnce sync.Once
	sharedLive *Live
	nsSeq      int64
)

func shared(t testing.TB) *Live {
	sharedOnce.Do(func() { sharedLive = startAdapter(t, newCluster()) })
	if sharedLive == nil {
		t.Fatal("no adapter")
	}
	return sharedLive
}

// newNS returns a namespace no earlier case used.
func newNS() string { return fmt.Sprintf("n%d", atomic.AddInt64(&nsSeq, 1)) }

// onePath is a Policy spec protecting one path with one policy.
func onePolicy(svc string, path v1.PathConfig, p v1.PathPolicy) v1.PolicySpec {
	path.Policies = []v1.PathPolicy{p}
	return v1.PolicySpec{Target: []v1.TargetElement{{ServiceName: svc, Paths: []v1.PathConfig{path}}}}
}
