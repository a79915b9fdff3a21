package harness

import (
	"k8s.io/client-go/kubernetes"
	kfake "k8s.io/client-go/kubernetes/fake"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy"
	webstrategy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/web"
)

// Replica is a web strategy of its own: another instance, or another deployment.
type Replica struct{ s strategy.Strategy }

func newReplica(k kubernetes.Interface) *Replica {
	return &Replica{webstrategy.New(config.NewConfig(), k)}
}

func newForeign() *Replica { return newReplica(kfake.NewSimpleClientset()) }

// action is what the engine would hand the strategy for this app.
func (a *App) action() *engine.Action {
	spec := a.spec
	spec.ClientName = a.ns + "/app"
	srv := authserver.New(spec.DiscoveryURL)
	if u := srv.JwksEndpoint(); u != "" {
		srv.SetKeySet(keyset.New(u, nil))
	}
	act := &engine.Action{PathPolicy: a.policy, Type: policy.OIDC, Client: client.New(spec, srv)}
	if act.Rules == nil {
		act.Rules = []v1.Rule{{Claim: "aud", Match: "ANY", Values: []string{spec.ClientID}}}
	}
	return act
}

func (r *Replica) do(req Req, act *engine.Action) Answer {
	return answer(r.s.HandleAuthnZRequest(req.msg(), act))
}
