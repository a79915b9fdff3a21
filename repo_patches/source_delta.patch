From 9787bdb7cfd8e73f5b4124d7fb019dc11e2bdb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 01/27] fix: setting the policies of a path must not overwrite
 those of an enclosing prefix

SetPolicies looked the path up with GetActions, which falls back to the
deepest prefix covering it. A policy for /a/b therefore replaced the actions
of an existing prefix /a/*, for every path under that prefix.
---
 adapter/policy/store/policy/localstore.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 483c141..ab61f79 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -94,7 +94,8 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 		s.policies[endpoint.Service] = pathtrie.NewPathTrie()
 	}
 
-	if obj, ok := (s.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions); ok {
+	// Look up this very path: a prefix that merely covers it has its own actions
+	if obj, ok := (s.policies[endpoint.Service].Get(endpoint.Path)).(policy.Actions); ok {
 		obj[endpoint.Method] = actions
 	} else {
 		obj := policy.NewActions()
-- 
2.43.0


From 6b93697bb9e63b431bd05a8335597880626705e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 02/27] fix: fall back to less specific prefixes when a path
 has no policy for the method

GetPolicies looked only at the exact path or, without one, at the deepest
prefix. An entry for another method, or the empty entry left behind by a
deleted policy, hid the prefixes enclosing it and left requests unprotected.
---
 adapter/policy/store/pathtrie/pathtrie.go | 29 +++++++++++++++++++++++
 adapter/policy/store/pathtrie/trie.go     |  1 +
 adapter/policy/store/policy/localstore.go | 15 +++++++-----
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/adapter/policy/store/pathtrie/pathtrie.go b/adapter/policy/store/pathtrie/pathtrie.go
index 4d99a4b..f6fc154 100644
--- a/adapter/policy/store/pathtrie/pathtrie.go
+++ b/adapter/policy/store/pathtrie/pathtrie.go
@@ -61,6 +61,35 @@ func (trie *PathTrie) GetActions(key string) interface{} {
 	return node.value
 }
 
+// GetAll returns the values stored for the given key and for every prefix
+// covering it, the most specific first.
+func (trie *PathTrie) GetAll(key string) []interface{} {
+	prefix := "/*"
+	var values []interface{}
+	add := func(node *PathTrie) {
+		if node != nil && node.value != nil {
+			values = append(values, node.value)
+		}
+	}
+	node := trie
+	add(trie.children[prefix])
+	for part, i := trie.segmenter(key, 0); ; part, i = trie.segmenter(key, i) {
+		node = node.children[part]
+		if node == nil {
+			break
+		}
+		add(node.children[prefix])
+		if i == -1 {
+			add(node)
+			break
+		}
+	}
+	for i, j := 0, len(values)-1; i < j; i, j = i+1, j-1 {
+		values[i], values[j] = values[j], values[i]
+	}
+	return values
+}
+
 // Put inserts the value into the trie at the given key, replacing any
 // existing items. It returns true if the put adds a new value, false
 // if it replaces an existing value.
diff --git a/adapter/policy/store/pathtrie/trie.go b/adapter/policy/store/pathtrie/trie.go
index 7e76676..2f78afe 100644
--- a/adapter/policy/store/pathtrie/trie.go
+++ b/adapter/policy/store/pathtrie/trie.go
@@ -4,6 +4,7 @@ package pathtrie
 type Trie interface {
 	Get(key string) interface{}
 	GetActions(key string) interface{}
+	GetAll(key string) []interface{}
 	Put(key string, value interface{}) bool
 	Delete(key string) bool
 }
diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index ab61f79..e23c0d9 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -69,16 +69,19 @@ func (l *LocalStore) DeleteClient(clientName string) {
 	}
 }
 
+// GetPolicies returns the policies protecting the given endpoint: those of its exact path, or else
+// of the longest prefix covering it. A path or prefix without policies for the method is passed over.
 func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 	if l.policies != nil && l.policies[endpoint.Service] != nil {
-		actions, ok := (l.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions)
-		if ok {
-			result, present := actions[endpoint.Method]
-			if present { // found actions for method
+		for _, value := range l.policies[endpoint.Service].GetAll(endpoint.Path) {
+			actions, ok := value.(policy.Actions)
+			if !ok {
+				continue
+			}
+			if result := actions[endpoint.Method]; len(result.Actions) > 0 { // found actions for method
 				return result
 			}
-			result, present = actions[policy.ALL]
-			if present { // check if actions are set for ALL
+			if result := actions[policy.ALL]; len(result.Actions) > 0 { // check if actions are set for ALL
 				return result
 			}
 		}
-- 
2.43.0


From 2803575538ec73b3deaf0d9156201687b1b24437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 03/27] fix: find the policy of the path an OIDC endpoint is
 appended to

The callback and logout of a policy on exactly '/' were stripped to an empty
path and of one reached with a trailing slash to a path with that slash, which
no policy matches, so both passed unprotected. A path containing the endpoint
twice was cut at the first one.
---
 adapter/policy/engine/engine.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index 94931dd..d411372 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -53,9 +53,9 @@ func (m *engine) Evaluate(target *authnz.TargetMsg) (*Action, error) {
 
 	// Strip custom path components
 	if strings.HasSuffix(target.Path, callbackEndpoint) {
-		target.Path = strings.Split(target.Path, callbackEndpoint)[0]
+		target.Path = protectedPath(target.Path, callbackEndpoint)
 	} else if strings.HasSuffix(target.Path, logoutEndpoint) {
-		target.Path = strings.Split(target.Path, logoutEndpoint)[0]
+		target.Path = protectedPath(target.Path, logoutEndpoint)
 	}
 
 	// Get All policies protecting target
@@ -160,6 +160,15 @@ func createDefaultRules(action Action) []v1.Rule {
 	}
 }
 
+// protectedPath returns the path an OIDC endpoint was appended to: "/" for the root,
+// and without a trailing slash otherwise, as policies are stored.
+func protectedPath(path string, endpoint string) string {
+	if path = strings.TrimRight(strings.TrimSuffix(path, endpoint), "/"); path != "" {
+		return path
+	}
+	return "/"
+}
+
 // endpointsToCheck returns the possible endpoints housing the authn/z policies for the given target
 func endpointsToCheck(target *authnz.TargetMsg) []policy.Endpoint {
 	service := policy.Service{Namespace: target.Namespace, Name: target.Service}
-- 
2.43.0


From 332629b630ad3b102ff7c9a4fcdec4635c95c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 04/27] fix: guard the policy store against concurrent use

The controllers of the three custom resources write to the store while
requests read it. Unsynchronised map access crashes the process.
---
 adapter/policy/store/policy/localstore.go | 26 +++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index e23c0d9..e102d4a 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -1,6 +1,8 @@
 package policy
 
 import (
+	"sync"
+
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
@@ -9,6 +11,8 @@ import (
 
 // LocalStore is responsible for storing and managing policy/client data
 type LocalStore struct {
+	// mutex protects all fields below
+	mutex sync.RWMutex
 	// clients maps client_name -> client_config
 	clients map[string]client.Client // oidc config ClientName:Client
 	// policies maps endpoint -> list of actions
@@ -29,6 +33,8 @@ func New() PolicyStore {
 }
 
 func (l *LocalStore) GetKeySet(clientName string) keyset.KeySet {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.keysets != nil {
 		return l.keysets[clientName]
 	}
@@ -36,6 +42,8 @@ func (l *LocalStore) GetKeySet(clientName string) keyset.KeySet {
 }
 
 func (l *LocalStore) AddKeySet(clientName string, jwks keyset.KeySet) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.keysets == nil {
 		l.keysets = make(map[string]keyset.KeySet)
 	}
@@ -43,6 +51,8 @@ func (l *LocalStore) AddKeySet(clientName string, jwks keyset.KeySet) {
 }
 
 func (l *LocalStore) DeleteKeySet(clientName string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.keysets != nil {
 		delete(l.keysets, clientName)
 	}
@@ -50,6 +60,8 @@ func (l *LocalStore) DeleteKeySet(clientName string) {
 
 
 func (l *LocalStore) GetClient(clientName string) client.Client {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.clients != nil {
 		return l.clients[clientName]
 	}
@@ -57,6 +69,8 @@ func (l *LocalStore) GetClient(clientName string) client.Client {
 }
 
 func (l *LocalStore) AddClient(clientName string, clientObject client.Client) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.clients == nil {
 		l.clients = make(map[string]client.Client)
 	}
@@ -64,6 +78,8 @@ func (l *LocalStore) AddClient(clientName string, clientObject client.Client) {
 }
 
 func (l *LocalStore) DeleteClient(clientName string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.clients != nil {
 		delete(l.clients, clientName)
 	}
@@ -72,6 +88,8 @@ func (l *LocalStore) DeleteClient(clientName string) {
 // GetPolicies returns the policies protecting the given endpoint: those of its exact path, or else
 // of the longest prefix covering it. A path or prefix without policies for the method is passed over.
 func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.policies != nil && l.policies[endpoint.Service] != nil {
 		for _, value := range l.policies[endpoint.Service].GetAll(endpoint.Path) {
 			actions, ok := value.(policy.Actions)
@@ -90,6 +108,8 @@ func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 }
 
 func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policies == nil {
 		s.policies = make(map[policy.Service]pathtrie.Trie)
 	}
@@ -108,6 +128,8 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 }
 
 func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	if s.policyMappings != nil {
 		return s.policyMappings[policy]
 	}
@@ -115,12 +137,16 @@ func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
 }
 
 func (s *LocalStore) DeletePolicyMapping(policy string) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policyMappings != nil {
 		delete(s.policyMappings, policy)
 	}
 }
 
 func (s *LocalStore) AddPolicyMapping(name string, mapping []policy.PolicyMapping) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policyMappings == nil {
 		s.policyMappings = make(map[string][]policy.PolicyMapping)
 	}
-- 
2.43.0


From 81d915615ccceb835f65b6b62c0562a95b778e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 05/27] fix: replace and remove a policy's endpoints as a whole

An updated policy left the endpoints of its earlier version in force. Deleting
one of several policies claiming an endpoint removed its protection although
another policy still claims it. And requests could see half of a change.
---
 .../handler/crdeventhandler/add_event.go      |  4 +-
 .../handler/crdeventhandler/delete_event.go   | 11 +---
 adapter/policy/store/policy/localstore.go     | 53 +++++++++++++++++++
 adapter/policy/store/policy/policystore.go    |  1 +
 4 files changed, 56 insertions(+), 13 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index 4498719..ea36bc3 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -8,7 +8,6 @@ import (
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
 	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
-	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
 	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
 )
 
@@ -61,9 +60,8 @@ func (e *PolicyAddEventHandler) HandleAddUpdateEvent() {
 	parsedPolicies := ParseTarget(e.Obj.Spec.Target, e.Obj.ObjectMeta.Namespace)
 	for _, policies := range parsedPolicies {
 		zap.S().Debug("Adding policy for endpoint", policies.Endpoint)
-		e.Store.SetPolicies(policies.Endpoint, policy.RoutePolicy{ PolicyReference: mappingId, Actions: policies.Actions})
 	}
-	e.Store.AddPolicyMapping(mappingId, parsedPolicies)
+	e.Store.ReplacePolicies(mappingId, parsedPolicies)
 	zap.L().Info("Policy created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID)))
 }
 
diff --git a/adapter/policy/handler/crdeventhandler/delete_event.go b/adapter/policy/handler/crdeventhandler/delete_event.go
index 61ed5a4..8af755b 100644
--- a/adapter/policy/handler/crdeventhandler/delete_event.go
+++ b/adapter/policy/handler/crdeventhandler/delete_event.go
@@ -36,16 +36,7 @@ func (e *OidcConfigDeleteEventHandler) HandleDeleteEvent() {
 }
 
 func (e *PolicyDeleteEventHandler) HandleDeleteEvent() {
-	parsedPolicies := e.Store.GetPolicyMapping(e.Key)
-	for _, policies := range parsedPolicies {
-		zap.S().Debug("Getting policy for endpoint", policies.Endpoint)
-		storedPolicy := e.Store.GetPolicies(policies.Endpoint)
-		if storedPolicy.PolicyReference == e.Key {
-			e.Store.SetPolicies(policies.Endpoint, policy.NewRoutePolicy())
-		}
-	}
-	// remove entry from policyMapping
-	e.Store.DeletePolicyMapping(e.Key)
+	e.Store.ReplacePolicies(e.Key, nil)
 	zap.S().Debug("Delete policy completed")
 }
 
diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index e102d4a..248add4 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -110,6 +110,10 @@ func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
 	s.mutex.Lock()
 	defer s.mutex.Unlock()
+	s.setPolicies(endpoint, actions)
+}
+
+func (s *LocalStore) setPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
 	if s.policies == nil {
 		s.policies = make(map[policy.Service]pathtrie.Trie)
 	}
@@ -152,3 +156,52 @@ func (s *LocalStore) AddPolicyMapping(name string, mapping []policy.PolicyMappin
 	}
 	s.policyMappings[name] = mapping
 }
+
+// ReplacePolicies puts the endpoints of the named policy in force in place of those of its previous
+// version; a nil mapping removes the policy. An endpoint it gives up goes to another policy claiming it.
+func (s *LocalStore) ReplacePolicies(name string, mapping []policy.PolicyMapping) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	previous := s.policyMappings[name]
+	if s.policyMappings == nil {
+		s.policyMappings = make(map[string][]policy.PolicyMapping)
+	}
+	delete(s.policyMappings, name)
+	for _, m := range previous {
+		if s.owner(m.Endpoint) == name {
+			s.setPolicies(m.Endpoint, s.remainingClaim(m.Endpoint))
+		}
+	}
+	if mapping == nil {
+		return
+	}
+	s.policyMappings[name] = mapping
+	for _, m := range mapping {
+		if len(m.Actions) > 0 {
+			s.setPolicies(m.Endpoint, policy.RoutePolicy{PolicyReference: name, Actions: m.Actions})
+		}
+	}
+}
+
+// owner names the policy whose actions are in force for exactly this endpoint.
+func (s *LocalStore) owner(endpoint policy.Endpoint) string {
+	if trie := s.policies[endpoint.Service]; trie != nil {
+		if actions, ok := trie.Get(endpoint.Path).(policy.Actions); ok {
+			return actions[endpoint.Method].PolicyReference
+		}
+	}
+	return ""
+}
+
+// remainingClaim returns the actions a policy in force states for the endpoint, the first one by name.
+func (s *LocalStore) remainingClaim(endpoint policy.Endpoint) policy.RoutePolicy {
+	claim := policy.NewRoutePolicy()
+	for name, mapping := range s.policyMappings {
+		for _, m := range mapping {
+			if m.Endpoint == endpoint && len(m.Actions) > 0 && (claim.PolicyReference == "" || name <= claim.PolicyReference) {
+				claim = policy.RoutePolicy{PolicyReference: name, Actions: m.Actions}
+			}
+		}
+	}
+	return claim
+}
diff --git a/adapter/policy/store/policy/policystore.go b/adapter/policy/store/policy/policystore.go
index 228ce57..9bb8307 100644
--- a/adapter/policy/store/policy/policystore.go
+++ b/adapter/policy/store/policy/policystore.go
@@ -20,4 +20,5 @@ type PolicyStore interface {
 	GetPolicyMapping(policy string) []policy.PolicyMapping
 	AddPolicyMapping(policy string, mapping []policy.PolicyMapping)
 	DeletePolicyMapping(policy string)
+	ReplacePolicies(name string, mapping []policy.PolicyMapping)
 }
-- 
2.43.0


From 3786f9db66a7504b88a86376a4719968ba2a447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 06/27] fix: decide a request by a single look at the policy
 store

Asking again for all methods and for the whole service, which the first lookup
covers, could combine two configurations when a policy is created meanwhile.
---
 adapter/policy/engine/engine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index d411372..28771fa 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -173,8 +173,8 @@ func protectedPath(path string, endpoint string) string {
 func endpointsToCheck(target *authnz.TargetMsg) []policy.Endpoint {
 	service := policy.Service{Namespace: target.Namespace, Name: target.Service}
 	return []policy.Endpoint{
+		// The store itself falls back to policies for all methods and to enclosing prefixes. Further
+		// lookups could see a later change and pick a less specific policy than the one in force then.
 		{Service: service, Path: target.Path, Method: policy.NewMethod(target.Method)},
-		{Service: service, Path: target.Path, Method: policy.ALL},
-		{Service: service, Path: "/*", Method: policy.ALL},
 	}
 }
-- 
2.43.0


From b07655a2169fe451e65de3a1fbdb98e6a627207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 07/27] fix: compare numeric claims by their decimal form, not
 rounded to an integer

---
 adapter/validator/validator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 37a86a8..7d5b4ac 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -317,7 +317,7 @@ func convertClaimType(value interface{}) (map[string]struct{}, error) {
 		m[strconv.FormatBool(t)] = struct{}{}
 		return m, nil
 	case float64:
-		m[strconv.FormatFloat(t, 'f', 0, 64)] = struct{}{}
+		m[strconv.FormatFloat(t, 'f', -1, 64)] = struct{}{}
 		return m, nil
 	case string:
 		for _, v := range strings.Split(t, " ") {
@@ -330,7 +330,7 @@ func convertClaimType(value interface{}) (map[string]struct{}, error) {
 			case string:
 				m[s2] = struct{}{}
 			case float64:
-				m[strconv.FormatFloat(s2, 'f', 0, 64)] = struct{}{}
+				m[strconv.FormatFloat(s2, 'f', -1, 64)] = struct{}{}
 			case bool:
 				m[strconv.FormatBool(s2)] = struct{}{}
 			default:
-- 
2.43.0


From f2707112afd3bb57fe6e79dd5d4efda95f129512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 08/27] fix: name the required scopes when the authorization
 header is missing or malformed

---
 adapter/strategy/api/api.go    | 1 +
 adapter/validator/validator.go | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/adapter/strategy/api/api.go b/adapter/strategy/api/api.go
index f8cb1ac..639ca09 100644
--- a/adapter/strategy/api/api.go
+++ b/adapter/strategy/api/api.go
@@ -48,6 +48,7 @@ func (s *APIStrategy) HandleAuthnZRequest(r *authnz.HandleAuthnZRequest, action
 	tokens, err := getAuthTokensFromRequest(r)
 	if err != nil {
 		zap.L().Debug("JWT request Unauthorized", zap.Error(err))
+		err.Scopes = validator.RequiredScopes(action.Rules)
 		return buildErrorResponse(err), nil
 	}
 
diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 7d5b4ac..d908591 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -177,6 +177,11 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 	return nil
 }
 
+// RequiredScopes returns the scopes a client needs to satisfy the rules
+func RequiredScopes(rules []v1.Rule) []string {
+	return findRequiredScopes(rules)
+}
+
 // Find scopes returns the required scope rules to return in www-authenticate header
 func findRequiredScopes(rules []v1.Rule) []string {
 	for _, r := range rules {
-- 
2.43.0


From 78d1ce4c1c375588ea8c4e3bb1782ec9dc8a654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 09/27] fix: decode the whole exponent of a published RSA key

---
 adapter/authserver/keyset/key.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/adapter/authserver/keyset/key.go b/adapter/authserver/keyset/key.go
index 3b1f358..d4a6736 100644
--- a/adapter/authserver/keyset/key.go
+++ b/adapter/authserver/keyset/key.go
@@ -4,7 +4,6 @@ import (
 	"crypto"
 	"crypto/rsa"
 	"encoding/base64"
-	"encoding/binary"
 	"errors"
 	"fmt"
 	"math/big"
@@ -68,15 +67,14 @@ func (k *key) decodePublicKey() (crypto.PublicKey, error) {
 		if err != nil {
 			return nil, errors.New("malformed JWK RSA key exponent")
 		}
-		if len(data) < 4 {
-			ndata := make([]byte, 4)
-			copy(ndata[4-len(data):], data)
-			data = ndata
+		exponent := new(big.Int).SetBytes(data)
+		if exponent.BitLen() > 31 { // larger exponents are not usable for verification
+			return nil, errors.New("malformed JWK RSA key exponent")
 		}
 
 		pubKey := &rsa.PublicKey{
 			N: &big.Int{},
-			E: int(binary.BigEndian.Uint32(data)),
+			E: int(exponent.Int64()),
 		}
 
 		data, err = safeDecode(k.N)
-- 
2.43.0


From 66b29aeaf089477f5ec00206c767ec97ba7b44b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 10/27] fix: skip malformed entries of a key set instead of
 refusing all of it

---
 adapter/authserver/keyset/key.go    | 6 ++++--
 adapter/authserver/keyset/keyset.go | 9 ++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/adapter/authserver/keyset/key.go b/adapter/authserver/keyset/key.go
index d4a6736..d816034 100644
--- a/adapter/authserver/keyset/key.go
+++ b/adapter/authserver/keyset/key.go
@@ -4,6 +4,7 @@ import (
 	"crypto"
 	"crypto/rsa"
 	"encoding/base64"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"math/big"
@@ -44,8 +45,9 @@ type key struct {
 // A JSON Web Key Set (JWK Set) is a JavaScript Object Notation (JSON) data
 // structure that represents a set of cryptographic key (see RFC 7517).
 type keySet struct {
-	// The 'keys' attribute is mandatory
-	Keys []key `json:"keys"`
+	// The 'keys' attribute is mandatory. Its entries are parsed one by one, so that
+	// a malformed entry does not affect the others
+	Keys []json.RawMessage `json:"keys"`
 	// optional attributes may also be present but are currently ignored
 }
 
diff --git a/adapter/authserver/keyset/keyset.go b/adapter/authserver/keyset/keyset.go
index fd64a25..5c79f1e 100644
--- a/adapter/authserver/keyset/keyset.go
+++ b/adapter/authserver/keyset/keyset.go
@@ -3,6 +3,7 @@ package keyset
 
 import (
 	"crypto"
+	"encoding/json"
 	"fmt"
 	"net/http"
 
@@ -100,7 +101,13 @@ func (s *RemoteKeySet) updateKeys() (interface{}, error) {
 
 	// Convert JSON keys to crypto keys
 	keymap := make(map[string]crypto.PublicKey)
-	for _, k := range ks.Keys {
+	for _, entry := range ks.Keys {
+		k := new(key)
+		if err := json.Unmarshal(entry, k); err != nil {
+			zap.L().Info("Invalid public key format", zap.String("url", s.publicKeyURL), zap.Error(err))
+			continue
+		}
+
 		if k.Kid == "" {
 			zap.L().Info("Invalid public key format - missing kid", zap.String("url", s.publicKeyURL), zap.Error(err))
 			continue
-- 
2.43.0


From 9a3ddbed9accb4b2026e2ebeb68fb104b2379aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 11/27] fix: return from login to the URL the callback endpoint
 was appended to, or to redirectUri as it is

---
 adapter/strategy/web/web.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 81e95cf..d442a51 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -315,6 +315,8 @@ func (w *WebStrategy) handleAuthorizationCodeCallback(code interface{}, request
 
 	zap.L().Debug("OIDC callback: created new active session: ", zap.String("client_name", action.Client.Name()), zap.String("session_id", cookie.Value))
 
+	// Return to the URL the callback endpoint was appended to, unless the policy names another
+	redirectURI = strings.TrimSuffix(redirectURI, callbackEndpoint)
 	if action.RedirectUri != "" {
 		redirectURI = action.RedirectUri
 	}
@@ -484,7 +486,7 @@ func (w *WebStrategy) parseAndValidateCookie(cookie *http.Cookie) *OidcCookie {
 // to the provided url with the accompanying cookie headers
 func buildSuccessRedirectResponse(redirectURI string, cookies []*http.Cookie) *authnz.HandleAuthnZResponse {
 	headers := make(map[string]string)
-	headers[location] = strings.Split(redirectURI, callbackEndpoint)[0]
+	headers[location] = redirectURI
 	for _, cookie := range cookies {
 		headers[setCookie] = cookie.String()
 		zap.S().Debugf("Appending cookie to response: %s", cookie.String())
-- 
2.43.0


From 0e7c16e3d440b7961e35617cd741111fe46d6e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 12/27] fix: retain the authorization endpoint's own query
 parameters

---
 adapter/strategy/web/utils.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index d8a0842..1186cdd 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -55,14 +55,13 @@ func generateAuthorizationURL(c client.Client, redirectURI string, state string)
 		return ""
 	}
 
-	// Prepare Query Parameters
-	params := url.Values{
-		"client_id":     {c.ID()},
-		"response_type": {"code"},
-		"redirect_uri":  {redirectURI},
-		"scope":         {c.Scope()},
-		"state":         {state},
-	}
+	// Prepare Query Parameters, retaining those of the endpoint itself
+	params := baseUrl.Query()
+	params.Set("client_id", c.ID())
+	params.Set("response_type", "code")
+	params.Set("redirect_uri", redirectURI)
+	params.Set("scope", c.Scope())
+	params.Set("state", state)
 
 	// Add Query Parameters to the URL
 	baseUrl.RawQuery = params.Encode() // Escape Query Parameters
-- 
2.43.0


From d53bc3780c9c3aaa6d55644c1a2abe5d1bd15f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 13/27] fix: report an expired access token as expired, so that
 its session is renewed

---
 adapter/validator/validator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index d908591..63c226a 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -95,7 +95,12 @@ func (o *OidcTokenValidator) Validate(tokenStr string, tokenType Token, jwks key
 			return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 		}
 		// if access token plain contains of 3 dots
-		return validateAccessTokenString(userInfoEndpoint, tokenStr, rules)
+		opaqueErr := validateAccessTokenString(userInfoEndpoint, tokenStr, rules)
+		if opaqueErr != nil && err.Error() == errors.ExpiredToken {
+			// An authentic access token that has expired: report it as such, so that it can be renewed
+			return errors.UnauthorizedHTTPException(errors.ExpiredToken, findRequiredScopes(rules))
+		}
+		return opaqueErr
 	}
 
 	// Validate token
-- 
2.43.0


From cf96ac3959eddfc9af4bdd551cfb516fc56647d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 14/27] fix: redirect from logout within the same host

---
 adapter/strategy/web/web.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index d442a51..01fda39 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -247,7 +247,9 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 		w.tokenCache.Delete(cookie.Value)
 	}
 
-	redirectURL := strings.Split(r.Instance.Request.Path, logoutEndpoint)[0]
+	// Return to the path the logout endpoint was appended to. Browsers would take leading
+	// slashes or backslashes for the start of another host's name.
+	redirectURL := "/" + strings.TrimLeft(strings.TrimSuffix(r.Instance.Request.Path, logoutEndpoint), "/\\")
 	cookies := []*http.Cookie{
 		{
 			Name:    cookieName,
-- 
2.43.0


From f042fa6c81368d048413f6612cd3fac09cd9bcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 15/27] fix: keep the refresh token when a refresh issues no
 new one

---
 adapter/strategy/web/web.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 01fda39..709562e 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -209,6 +209,10 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 		return nil, nil
 	} else {
 		zap.L().Debug("Updated tokens using refresh token", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
+		if tokens.RefreshToken == "" {
+			// The provider did not replace the refresh token - it remains the one to use
+			tokens.RefreshToken = session.RefreshToken
+		}
 		cookie := generateSessionIDCookie(c, &sessionID)
 		w.tokenCache.Store(cookie.Value, tokens)
 		return &authnz.HandleAuthnZResponse{
-- 
2.43.0


From ab8a266caeed1caccbbeeba85c39f9b711c7487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 16/27] fix: a refresh in flight must not restore a session
 that was logged out

---
 adapter/strategy/web/web.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 709562e..abacf82 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -61,6 +61,9 @@ type WebStrategy struct {
 	mutex      *sync.Mutex
 	encrpytor  Encryptor
 	tokenCache *sync.Map
+
+	// renewal prevents a refresh from restoring a session that was logged out meanwhile
+	renewal sync.Mutex
 }
 
 // Encryptor signs and encrypts values. Used for cookie encryption
@@ -214,6 +217,12 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 			tokens.RefreshToken = session.RefreshToken
 		}
 		cookie := generateSessionIDCookie(c, &sessionID)
+		w.renewal.Lock()
+		defer w.renewal.Unlock()
+		if _, ok := w.tokenCache.Load(cookie.Value); !ok {
+			zap.L().Debug("Session has ended. Beginning a new session.", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
+			return nil, nil
+		}
 		w.tokenCache.Store(cookie.Value, tokens)
 		return &authnz.HandleAuthnZResponse{
 			Result: &v1beta1.CheckResult{Status: status.WithMessage(rpc.OK, "User is authenticated")},
@@ -248,7 +257,9 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 
 	if cookie, err := request.Cookie(cookieName); err == nil {
 		zap.L().Debug("Deleting active session", zap.String("client_name", action.Client.Name()), zap.String("session_id", cookie.Value))
+		w.renewal.Lock()
 		w.tokenCache.Delete(cookie.Value)
+		w.renewal.Unlock()
 	}
 
 	// Return to the path the logout endpoint was appended to. Browsers would take leading
-- 
2.43.0


From 7d6e6f0d748ec0082ac4877ebdbf8ec28bb9512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 17/27] fix: a session is only for the client it was created
 for

---
 adapter/authserver/authserver.go |  2 ++
 adapter/strategy/web/web.go      | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/adapter/authserver/authserver.go b/adapter/authserver/authserver.go
index 86746f3..0d12b42 100644
--- a/adapter/authserver/authserver.go
+++ b/adapter/authserver/authserver.go
@@ -40,6 +40,8 @@ type TokenResponse struct {
 	RefreshToken string `json:"refresh_token"`
 	// The token expiration time
 	ExpiresIn int `json:"expires_in"`
+	// The client the tokens were issued to
+	ClientID string `json:"-"`
 }
 
 // AuthorizationServerService represents an authorization server instance
diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index abacf82..3fa2cef 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -154,6 +154,9 @@ func (w *WebStrategy) isAuthorized(cookies string, action *engine.Action) (*auth
 	} else if session, ok = storedSession.(*authserver.TokenResponse); !ok {
 		zap.L().Debug("Tokens not found in cache.", zap.String("client_name", action.Client.Name()))
 		return nil, nil
+	} else if !ownedBy(session, action.Client) {
+		zap.L().Debug("Session belongs to another client.", zap.String("client_name", action.Client.Name()))
+		return nil, nil
 	}
 
 	zap.L().Debug("Found active session", zap.String("client_name", action.Client.Name()), zap.String("session_id", sessionCookie.Value))
@@ -223,6 +226,7 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 			zap.L().Debug("Session has ended. Beginning a new session.", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
 			return nil, nil
 		}
+		tokens.ClientID = session.ClientID
 		w.tokenCache.Store(cookie.Value, tokens)
 		return &authnz.HandleAuthnZResponse{
 			Result: &v1beta1.CheckResult{Status: status.WithMessage(rpc.OK, "User is authenticated")},
@@ -234,6 +238,12 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 	}
 }
 
+// ownedBy tells whether a stored session may be used by the client
+func ownedBy(session interface{}, c client.Client) bool {
+	tokens, ok := session.(*authserver.TokenResponse)
+	return ok && (tokens.ClientID == "" || tokens.ClientID == c.ID())
+}
+
 // handleErrorCallback returns an Unauthenticated CheckResult
 func (w *WebStrategy) handleErrorCallback(err error) (*authnz.HandleAuthnZResponse, error) {
 	message := "internal server error"
@@ -258,7 +268,9 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 	if cookie, err := request.Cookie(cookieName); err == nil {
 		zap.L().Debug("Deleting active session", zap.String("client_name", action.Client.Name()), zap.String("session_id", cookie.Value))
 		w.renewal.Lock()
-		w.tokenCache.Delete(cookie.Value)
+		if session, ok := w.tokenCache.Load(cookie.Value); ok && ownedBy(session, action.Client) {
+			w.tokenCache.Delete(cookie.Value)
+		}
 		w.renewal.Unlock()
 	}
 
@@ -328,6 +340,7 @@ func (w *WebStrategy) handleAuthorizationCodeCallback(code interface{}, request
 	}
 
 	cookie := generateSessionIDCookie(action.Client, nil)
+	response.ClientID = action.Client.ID()
 	w.tokenCache.Store(cookie.Value, response)
 
 	zap.L().Debug("OIDC callback: created new active session: ", zap.String("client_name", action.Client.Name()), zap.String("session_id", cookie.Value))
-- 
2.43.0


From f81ce0f2d13c472b870d098f523613e4b5a31a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 18/27] fix: draw session ids and states from a cryptographic
 source

---
 adapter/strategy/web/utils.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index 1186cdd..9b69739 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -1,12 +1,11 @@
 package webstrategy
 
 import (
+	"crypto/rand"
 	"errors"
-	"math/rand"
 	"net/http"
 	"net/url"
 	"time"
-	"unsafe"
 
 	"go.uber.org/zap"
 
@@ -18,28 +17,25 @@ const (
 	letterBytes   = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
 	letterIdxBits = 6                    // 6 bits to represent a letter index
 	letterIdxMask = 1<<letterIdxBits - 1 // All 1-bits, as many as letterIdxBits
-	letterIdxMax  = 63 / letterIdxBits   // # of letter indices fitting in 63 bits
 )
 
-var src = rand.NewSource(time.Now().UnixNano())
-
-// randString generates a random string of the given size
+// randString generates a random string of the given size from an unpredictable source
 func randString(n int) string {
 	b := make([]byte, n)
-	// A src.Int63() generates 63 random bits, enough for letterIdxMax characters!
-	for i, cache, remain := n-1, src.Int63(), letterIdxMax; i >= 0; {
-		if remain == 0 {
-			cache, remain = src.Int63(), letterIdxMax
+	buf := make([]byte, n)
+	for i := 0; i < n; {
+		if _, err := rand.Read(buf); err != nil {
+			panic("no source of randomness: " + err.Error())
 		}
-		if idx := int(cache & letterIdxMask); idx < len(letterBytes) {
-			b[i] = letterBytes[idx]
-			i--
+		for _, r := range buf {
+			// Skip indices beyond the letters, so that all are equally likely
+			if idx := int(r & letterIdxMask); i < n && idx < len(letterBytes) {
+				b[i] = letterBytes[idx]
+				i++
+			}
 		}
-		cache >>= letterIdxBits
-		remain--
 	}
-
-	return *(*string)(unsafe.Pointer(&b))
+	return string(b)
 }
 
 // generateAuthorizationURL builds the /authorization request that begins an OAuth 2.0 / OIDC flow
-- 
2.43.0


From 66fb4fb350dd589b14531686c0b1467fd6564e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 19/27] fix: read the cookie encryptor under its lock

---
 adapter/strategy/web/web.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 3fa2cef..8b07a47 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -58,7 +58,7 @@ type WebStrategy struct {
 	kubeClient kubernetes.Interface
 
 	// mutex protects all fields below
-	mutex      *sync.Mutex
+	mutex      sync.Mutex
 	encrpytor  Encryptor
 	tokenCache *sync.Map
 
@@ -84,7 +84,6 @@ func New(ctx *config.Config, kubeClient kubernetes.Interface) strategy.Strategy
 		ctx:        ctx,
 		tokenUtil:  validator.NewTokenValidator(adapterPolicy.OIDC),
 		kubeClient: kubeClient,
-		mutex:      &sync.Mutex{},
 		tokenCache: new(sync.Map),
 	}
 
@@ -384,12 +383,8 @@ func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, ac
 // getSecureCookie retrieves the SecureCookie encryption struct in a
 // thread safe manner.
 func (w *WebStrategy) getSecureCookie() (Encryptor, error) {
-	// Allow all threads to check if instance already exists
-	if w.encrpytor != nil {
-		return w.encrpytor, nil
-	}
 	w.mutex.Lock()
-	// Once this thread has the lock check again to see if it had been set while waiting
+	// Once this thread has the lock check if it had been set while waiting
 	if w.encrpytor != nil {
 		w.mutex.Unlock()
 		return w.encrpytor, nil
-- 
2.43.0


From f761e4a89bfcbb0eff7771e4ef53e7adbb445a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 20/27] fix: guard the public keys of a key set against
 concurrent use

---
 adapter/authserver/keyset/keyset.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/adapter/authserver/keyset/keyset.go b/adapter/authserver/keyset/keyset.go
index 5c79f1e..c05fd44 100644
--- a/adapter/authserver/keyset/keyset.go
+++ b/adapter/authserver/keyset/keyset.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"go.uber.org/zap"
 
@@ -28,6 +29,9 @@ type RemoteKeySet struct {
 
 	requestGroup singleflight.Group
 	publicKeys   map[string]crypto.PublicKey
+
+	// mutex protects publicKeys
+	mutex sync.RWMutex
 }
 
 ////////////////// constructor //////////////////////////
@@ -56,10 +60,17 @@ func New(publicKeyURL string, httpClient *networking.HTTPClient) KeySet {
 
 // PublicKey returns the public key with the specified kid
 func (s *RemoteKeySet) PublicKey(kid string) crypto.PublicKey {
-	if key := s.publicKeys[kid]; key != nil {
+	if key := s.knownKey(kid); key != nil {
 		return key
 	}
 	_ = s.updateKeysGrouped()
+	return s.knownKey(kid)
+}
+
+// knownKey returns the key with the specified kid if it has been retrieved
+func (s *RemoteKeySet) knownKey(kid string) crypto.PublicKey {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	return s.publicKeys[kid]
 }
 
@@ -123,7 +134,9 @@ func (s *RemoteKeySet) updateKeys() (interface{}, error) {
 
 	zap.L().Info("Synced public keys", zap.String("url", s.publicKeyURL))
 
+	s.mutex.Lock()
 	s.publicKeys = keymap
+	s.mutex.Unlock()
 
 	return http.StatusOK, nil
 }
-- 
2.43.0


From cc4220f6d3c0673386b3a6e43d9477b1d2344651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 21/27] fix: guard the discovered configuration against
 concurrent use

---
 adapter/authserver/authserver.go | 55 ++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/adapter/authserver/authserver.go b/adapter/authserver/authserver.go
index 0d12b42..eb65fa3 100644
--- a/adapter/authserver/authserver.go
+++ b/adapter/authserver/authserver.go
@@ -6,6 +6,7 @@ import (
 	"net/http"
 	"net/url"
 	"strings"
+	"sync"
 
 	"github.com/golang/groupcache/singleflight"
 	"go.uber.org/zap"
@@ -64,6 +65,9 @@ type RemoteService struct {
 	httpclient   *networking.HTTPClient
 	requestGroup singleflight.Group
 	initialized  bool
+
+	// mutex protects the discovery configuration, initialized and jwks
+	mutex sync.RWMutex
 }
 
 // New creates a RemoteService returning a AuthorizationServerService interface
@@ -86,39 +90,68 @@ func New(discoveryEndpoint string) AuthorizationServerService {
 // KeySet returns the instance's keyset
 func (s *RemoteService) KeySet() keyset.KeySet {
 	_ = s.initialize()
-	if s.jwks == nil && s.JwksURL != "" {
-		s.jwks = keyset.New(s.JwksURL, s.httpclient)
+	if s.keySet() == nil && s.config().JwksURL != "" {
+		jwks := keyset.New(s.config().JwksURL, s.httpclient)
+		s.mutex.Lock()
+		defer s.mutex.Unlock()
+		if s.jwks == nil {
+			s.jwks = jwks
+		}
+		return s.jwks
 	}
-	return s.jwks
+	return s.keySet()
 }
 
 // SetKeySet stores a JWKs in the OAuth server
 func (s *RemoteService) SetKeySet(jwks keyset.KeySet) {
+	s.mutex.Lock()
 	s.jwks = jwks
+	s.mutex.Unlock()
+}
+
+// keySet returns the keyset stored so far
+func (s *RemoteService) keySet() keyset.KeySet {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.jwks
+}
+
+// config returns the configuration discovered so far
+func (s *RemoteService) config() DiscoveryConfig {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.DiscoveryConfig
+}
+
+// isInitialized tells whether the configuration has been discovered
+func (s *RemoteService) isInitialized() bool {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.initialized
 }
 
 // JwksEndpoint returns the /publicKeys endpoint of the OAuth server
 func (s *RemoteService) JwksEndpoint() string {
 	_ = s.initialize()
-	return s.JwksURL
+	return s.config().JwksURL
 }
 
 // TokenEndpoint returns the /token endpoint of the OAuth server
 func (s *RemoteService) TokenEndpoint() string {
 	_ = s.initialize()
-	return s.TokenURL
+	return s.config().TokenURL
 }
 
 // AuthorizationEndpoint returns the /authorization endpoint of the OAuth server
 func (s *RemoteService) AuthorizationEndpoint() string {
 	_ = s.initialize()
-	return s.AuthURL
+	return s.config().AuthURL
 }
 
 // UserInfoEndpoint returns the /userinfo endpoint of the OAuth server
 func (s *RemoteService) UserInfoEndpoint() string {
 	_ = s.initialize()
-	return s.UserInfoURL
+	return s.config().UserInfoURL
 }
 
 // GetTokens performs a request to the token endpoint
@@ -142,7 +175,7 @@ func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSec
 	}
 
 	// Create request
-	req, err := http.NewRequest("POST", s.TokenURL, strings.NewReader(form.Encode()))
+	req, err := http.NewRequest("POST", s.config().TokenURL, strings.NewReader(form.Encode()))
 	if err != nil {
 		zap.L().Warn("Could not serialize HTTP request", zap.Error(err))
 		return nil, err
@@ -170,7 +203,7 @@ func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSec
 
 // initialize attempts to load the Client configuration from the discovery endpoint
 func (s *RemoteService) initialize() error {
-	if s.initialized {
+	if s.isInitialized() {
 		return nil
 	}
 
@@ -179,7 +212,7 @@ func (s *RemoteService) initialize() error {
 	// taking place at once. All threads coming into this call will wait for
 	// a single response, which can then be processed
 	_, err := s.requestGroup.Do(s.discoveryURL, func() (interface{}, error) {
-		if s.initialized {
+		if s.isInitialized() {
 			return http.StatusOK, nil
 		}
 		return s.loadDiscoveryEndpoint()
@@ -212,8 +245,10 @@ func (s *RemoteService) loadDiscoveryEndpoint() (interface{}, error) {
 		return nil, oa2Err
 	}
 
+	s.mutex.Lock()
 	s.initialized = true
 	s.DiscoveryConfig = *config
+	s.mutex.Unlock()
 
 	return http.StatusOK, nil
 }
-- 
2.43.0


From 77a09a7f2f1f5af3777a068ddd1e39f775d626ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 22/27] fix: bind no key set to an OIDC provider that could not
 be discovered yet

---
 adapter/policy/handler/crdeventhandler/add_event.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index ea36bc3..9bbbf25 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -45,8 +45,11 @@ func (e *OidcConfigAddEventHandler) HandleAddUpdateEvent() {
 		e.Obj.Spec.AuthMethod = "client_secret_basic"
 	}
 	authorizationServer := authserver.New(e.Obj.Spec.DiscoveryURL)
-	keySets := keyset.New(authorizationServer.JwksEndpoint(), nil)
-	authorizationServer.SetKeySet(keySets)
+	// Without the discovery document the server looks up its key set itself, once it is available
+	if jwksURL := authorizationServer.JwksEndpoint(); jwksURL != "" {
+		keySets := keyset.New(jwksURL, nil)
+		authorizationServer.SetKeySet(keySets)
+	}
 	e.Obj.Spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
 	// Create and store OIDC Client
 	oidcClient := client.New(e.Obj.Spec, authorizationServer)
-- 
2.43.0


From 5ca20b8ae479b025dd221bb8d92595f7bc6cfe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 23/27] fix: a rule without a source applies to opaque access
 tokens as well

---
 adapter/policy/engine/engine.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index 28771fa..f9b58cb 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
 	policy2 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
+	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
 )
 
@@ -77,7 +78,7 @@ func (m *engine) Evaluate(target *authnz.TargetMsg) (*Action, error) {
 		if p.Rules == nil {
 			policies[i].Rules = createDefaultRules(p)
 		} else {
-			policies[i].Rules = p.Rules
+			policies[i].Rules = withSources(p.Rules)
 		}
 	}
 
@@ -160,6 +161,18 @@ func createDefaultRules(action Action) []v1.Rule {
 	}
 }
 
+// withSources returns the rules with the token they apply to by default filled in
+func withSources(rules []v1.Rule) []v1.Rule {
+	out := make([]v1.Rule, len(rules))
+	for i, r := range rules {
+		if r.Source == "" {
+			r.Source = validator.Access.String()
+		}
+		out[i] = r
+	}
+	return out
+}
+
 // protectedPath returns the path an OIDC endpoint was appended to: "/" for the root,
 // and without a trailing slash otherwise, as policies are stored.
 func protectedPath(path string, endpoint string) string {
-- 
2.43.0


From 71fce1b0ae47672bb80a1a22d216ae93434f681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:56 +0000
Subject: [PATCH 24/27] fix: bound the userinfo request and release its
 connection

---
 adapter/validator/validator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 63c226a..edafbe0 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -6,6 +6,7 @@ import (
 	"net/http"
 	"strconv"
 	"strings"
+	"time"
 
 	"github.com/dgrijalva/jwt-go/v4"
 	"go.uber.org/zap"
@@ -21,6 +22,8 @@ const (
 	scope = "scope"
 	NOT   = "NOT"
 	ANY   = "ANY"
+
+	userInfoTimeout = 5 * time.Second
 )
 
 // TokenValidator parses and validates JWT tokens according to policies
@@ -152,7 +155,7 @@ func (*JwtTokenValidator) Validate(tokenStr string, tokenType Token, jwks keyset
 
 // validateAccessTokenString validates the access token string
 func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules []v1.Rule) *errors.OAuthError {
-	client := &http.Client{}
+	client := &http.Client{Timeout: userInfoTimeout}
 	req, err := http.NewRequest("GET", userInfoEndpoint, nil)
 
 	if err != nil {
@@ -167,6 +170,8 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 	}
 
+	defer res.Body.Close()
+
 	if res.StatusCode != http.StatusOK {
 		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Int("res.StatusCode", res.StatusCode))
 		return errors.UnauthorizedHTTPException("Unauthorized - invalid token", findRequiredScopes(rules))
-- 
2.43.0


From 0afdfbd45d854bf4bf0401e21a71c4626ad404c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 25/27] fix: do not sign or encrypt cookies with keys the
 secret lacks

---
 adapter/strategy/web/web.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 8b07a47..1230b92 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -411,6 +411,9 @@ func (w *WebStrategy) generateSecureCookie() (Encryptor, error) {
 			zap.L().Info("Failed to retrieve tokens", zap.Error(err))
 			return nil, err
 		}
+	} else if s, ok := secret.(*v1.Secret); ok && (len(s.Data[hashKey]) == 0 || len(s.Data[blockKey]) == 0) {
+		zap.S().Errorf("Secret %v lacks the signing or the encryption key", defaultKeySecret)
+		return nil, errors.New("missing signing / encryption keys")
 	}
 
 	if s, ok := secret.(*v1.Secret); ok {
-- 
2.43.0


From dd4c4be6c7f361bf42a484e1b0073c168255caa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 26/27] fix: copy the lists of an OidcConfig and of a path's
 policies deeply

---
 .../apis/policies/v1/zz_generated.deepcopy.go | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go b/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
index df10e7a..e3b1dfd 100644
--- a/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
+++ b/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
@@ -121,7 +121,7 @@ func (in *OidcConfig) DeepCopyInto(out *OidcConfig) {
 	*out = *in
 	out.TypeMeta = in.TypeMeta
 	in.ObjectMeta.DeepCopyInto(&out.ObjectMeta)
-	out.Spec = in.Spec
+	in.Spec.DeepCopyInto(&out.Spec)
 	return
 }
 
@@ -180,6 +180,11 @@ func (in *OidcConfigList) DeepCopyObject() runtime.Object {
 func (in *OidcConfigSpec) DeepCopyInto(out *OidcConfigSpec) {
 	*out = *in
 	out.ClientSecretRef = in.ClientSecretRef
+	if in.Scopes != nil {
+		in, out := &in.Scopes, &out.Scopes
+		*out = make([]string, len(*in))
+		copy(*out, *in)
+	}
 	return
 }
 
@@ -199,7 +204,9 @@ func (in *PathConfig) DeepCopyInto(out *PathConfig) {
 	if in.Policies != nil {
 		in, out := &in.Policies, &out.Policies
 		*out = make([]PathPolicy, len(*in))
-		copy(*out, *in)
+		for i := range *in {
+			(*in)[i].DeepCopyInto(&(*out)[i])
+		}
 	}
 	return
 }
@@ -217,6 +224,13 @@ func (in *PathConfig) DeepCopy() *PathConfig {
 // DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
 func (in *PathPolicy) DeepCopyInto(out *PathPolicy) {
 	*out = *in
+	if in.Rules != nil {
+		in, out := &in.Rules, &out.Rules
+		*out = make([]Rule, len(*in))
+		for i := range *in {
+			(*in)[i].DeepCopyInto(&(*out)[i])
+		}
+	}
 	return
 }
 
@@ -313,6 +327,27 @@ func (in *PolicySpec) DeepCopy() *PolicySpec {
 	return out
 }
 
+// DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
+func (in *Rule) DeepCopyInto(out *Rule) {
+	*out = *in
+	if in.Values != nil {
+		in, out := &in.Values, &out.Values
+		*out = make([]string, len(*in))
+		copy(*out, *in)
+	}
+	return
+}
+
+// DeepCopy is an autogenerated deepcopy function, copying the receiver, creating a new Rule.
+func (in *Rule) DeepCopy() *Rule {
+	if in == nil {
+		return nil
+	}
+	out := new(Rule)
+	in.DeepCopyInto(out)
+	return out
+}
+
 // DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
 func (in *TargetElement) DeepCopyInto(out *TargetElement) {
 	*out = *in
-- 
2.43.0


From c2df3c53196f1331bb62d14b74c0c77eb30a05b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 27/27] fix: let the Policy definition accept PATCH, as
 documented and implemented

---
 helm/appidentityandaccessadapter/templates/policy.yaml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/helm/appidentityandaccessadapter/templates/policy.yaml b/helm/appidentityandaccessadapter/templates/policy.yaml
index 37b2ea8..0024d14 100644
--- a/helm/appidentityandaccessadapter/templates/policy.yaml
+++ b/helm/appidentityandaccessadapter/templates/policy.yaml
@@ -50,6 +50,7 @@ spec:
                                                         - DELETE
                                                         - POST
                                                         - PUT
+                                                        - PATCH
                                                 policies:
                                                     type:      array
                                                     items:
-- 
2.43.0

