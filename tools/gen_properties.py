#!/usr/bin/env python3
"""Writes properties.jsonl (single place where the property texts live)."""
import json, os
A='adapter/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":[f for f in files],
        "state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],
        "mechanism":[{"name":n,"where":w} for n,w in mech],
        "observe_at":list(observe),"hook_needed":hook}})

prop("C01","Complete mediation: nothing protected passes without valid credentials",
"For every set of live Policy, JwtConfig and OidcConfig objects and every request, the adapter's authorization service answers OK only if no live policy covers the request's namespace, service, path and method, or the request carries credentials valid for the covering policy (a bearer token accepted by its JwtConfig and rules, or the cookie of a live session of its OidcConfig). A request not covered by any policy is always let through. If the policy's config is missing, its keys or identity provider are unavailable, or the message lacks its target, request, headers or query parameters, the answer is an error or a rejection, never OK.",
["configurations","inputs","fault_sequences"],"all object sets, requests, credentials and identity-provider faults",
"No test drives the assembled adapter (adapter.go is exercised by none); unit tests check each layer with mocks for a dozen fixed requests.",
[A+"adapter.go",A+"policy/engine/engine.go",A+"strategy/api/api.go",A+"strategy/web/web.go",A+"validator/validator.go",A+"policy/initializer/policyinitializer.go"],
[("request validation and dispatch",A+"adapter.go HandleAuthnZ, validateAuthnzRequest"),("policy evaluation, refusal on missing config",A+"policy/engine/engine.go getPolicies"),("strategies",A+"strategy/api, "+A+"strategy/web")],
[("policies","routes of the live policies",A+"policy/store/policy/localstore.go"),("tokenCache","live sessions",A+"strategy/web/web.go")],
["HandleAuthnZ gRPC response"])

prop("C02","The most specific policy for the endpoint decides, and no other",
"The policy applied to a request is chosen among those for the same namespace and service: the entry for exactly its path (a trailing slash is ignored) before the longest matching prefix, prefixes matching whole path segments only, and at one path the entry for the request's method before the entry for all methods. Where an exact path or prefix has no entry for the request's method, the next less specific prefix decides. A path followed by /oidc/callback or /oidc/logout is governed by that path's policy, and policies of other namespaces, services, methods or sibling paths have no effect.",
["inputs","configurations"],"all policy sets and all request targets (namespace, service, path, method)",
"Tests look up about fifteen fixed path/method pairs against one or two entries; overlaps between exact, nested prefix and method entries and insertion order are never combined.",
[A+"policy/engine/engine.go",A+"policy/store/policy/localstore.go",A+"policy/store/pathtrie/pathtrie.go",A+"policy/store/pathtrie/utils.go",A+"policy/action.go",A+"policy/handler/crdeventhandler/utils.go",A+"adapter.go"],
[("path trie with prefix fallback",A+"policy/store/pathtrie/pathtrie.go GetActions"),("endpoint variants",A+"policy/engine/engine.go endpointsToCheck"),("target parsing",A+"policy/handler/crdeventhandler/utils.go ParseTarget")],
[("policies","service -> path trie -> method -> actions",A+"policy/store/policy/localstore.go")],
["engine.Evaluate result","HandleAuthnZ response"])

prop("C03","Policy history leaves no trace: only live policies decide",
"After any history of creating, updating and deleting Policy objects, every request is decided as if only the Policies now live, in their latest versions, had been loaded into a fresh adapter. Nothing of a deleted policy or of an earlier version of an updated policy remains in force, and no change to one policy weakens the protection given by another; where several live policies claim the same endpoint and method, one of them protects it.",
["histories"],"all sequences of Policy create, update and delete events over overlapping endpoints",
"Tests apply one add and one delete of a single policy; overwritten, overlapping and shrunk policies need multi-step histories.",
[A+"policy/handler/crdeventhandler/add_event.go",A+"policy/handler/crdeventhandler/delete_event.go",A+"policy/handler/crdeventhandler/utils.go",A+"policy/store/policy/localstore.go",A+"policy/store/pathtrie/pathtrie.go"],
[("add/update",A+"policy/handler/crdeventhandler/add_event.go PolicyAddEventHandler"),("delete by recorded mapping",A+"policy/handler/crdeventhandler/delete_event.go PolicyDeleteEventHandler")],
[("policyMappings","policy namespace/name -> endpoints it created",A+"policy/store/policy/localstore.go")],
["engine.Evaluate result after each event"])

prop("C04","A policy uses its own namespace's config, in its latest version",
"A policy is enforced with the JwtConfig or OidcConfig of the name it states in the policy's own namespace, in that object's latest version: its JWKS URL, or its client id, secret, token-endpoint authentication method, scopes and discovery URL. While no such object exists, requests covered by the policy are refused with an error. The client secret in use is the value that the referenced key of the referenced Kubernetes secret in the config's namespace had when the config last changed, if that was present and not empty, and the plain clientSecret otherwise.",
["histories","configurations","fault_sequences"],"all histories of config create, update, delete, with and without secrets, across namespaces",
"Tests add one config each with a mock store; cross-namespace names, updates, re-creation and failing secret lookups are not combined with enforcement.",
[A+"policy/handler/crdeventhandler/add_event.go",A+"policy/handler/crdeventhandler/delete_event.go",A+"policy/engine/engine.go",A+"policy/store/policy/localstore.go",A+"client/client.go"],
[("config handlers",A+"policy/handler/crdeventhandler/add_event.go JwtConfigAddEventHandler, OidcConfigAddEventHandler"),("secret resolution",A+"policy/handler/crdeventhandler/add_event.go GetClientSecret"),("config lookup",A+"policy/engine/engine.go getPolicies")],
[("clients, keysets","namespace/name -> OIDC client / key set",A+"policy/store/policy/localstore.go")],
["engine.Evaluate result","requests received by the identity provider"])

prop("C05","Only authentic, current tokens are accepted",
"A JWT is accepted only if its signature verifies, over exactly the header and payload presented, under the RSA public key that the configured key set publishes for the token's key id, and the current time is not past its exp nor before its nbf. Tokens that are altered, unsigned, signed with another key, signed with a MAC keyed by public data, or that name no or an unknown key id are refused. Every correctly signed, current token that meets the rules is accepted.",
["inputs"],"all tokens: headers, payloads, algorithms, key ids, signatures, and instants",
"Tests validate about ten stored tokens against one key; the space of alterations, algorithms, key ids and instants is not sampled.",
[A+"validator/validator.go",A+"authserver/keyset/keyset.go",A+"authserver/keyset/key.go"],
[("signature and time validation",A+"validator/validator.go validateSignature"),("key lookup by kid",A+"authserver/keyset/keyset.go PublicKey")],
[],["validator Validate result","HandleAuthnZ response"])

prop("C06","Claim rules mean what the policy says",
"A token passes a policy's rules exactly if each rule for that token's type (access token when the rule names none) holds: ALL, the default, needs every listed value in the claim and at least one listed value; ANY needs one of them; NOT needs none of them. A claim's values are the space-separated words of a string, the elements of an array, the decimal form of a number, or true/false; a dotted claim name reaches into nested objects, an absent claim has no values, and a claim holding an object, or an array with anything but strings, numbers and booleans, fails the rule. When a policy states no rules, a JWT policy asks no more than authenticity, and an OIDC policy asks that the access token's aud contain the client id.",
["inputs","configurations"],"all claim sets and rule lists",
"Tests evaluate about twenty fixed rule/claim pairs; combinations of match kind, source, nesting, types and multiple rules are not explored.",
[A+"validator/validator.go",A+"validator/token.go",A+"policy/engine/engine.go"],
[("rule evaluation",A+"validator/validator.go validateClaims, checkAccessPolicy, convertClaimType, getNestedClaim"),("default rules",A+"policy/engine/engine.go createDefaultRules")],
[],["validator Validate result"])

prop("C07","JWT-protected APIs answer by the bearer-token protocol",
"A request covered by a JWT policy is let through exactly if its Authorization header is 'Bearer <access token>' or 'Bearer <access token> <id token>' (Bearer or bearer) and each token present is valid under the policy, the access-token rules applying to the first and the id-token rules to the second. Every other request is rejected as unauthenticated with a direct HTTP 401 response whose WWW-Authenticate header is a Bearer challenge carrying error invalid_token and the values of the policy's scope rule, if it has one. The decision depends only on this request, the policy and the keys, not on earlier requests.",
["inputs"],"all Authorization headers, token pairs and rule lists",
"Tests try about eight header strings with a mocked validator; header grammar, id-token handling and challenge content are not related to generated policies.",
[A+"strategy/api/api.go",A+"errors/oautherror.go",A+"validator/validator.go"],
[("header parsing",A+"strategy/api/api.go getAuthTokensFromRequest"),("challenge",A+"strategy/api/api.go buildErrorResponse"),("scopes",A+"validator/validator.go findRequiredScopes")],
[],["HandleAuthnZResponse of the API strategy"])

prop("C08","Signing keys are exactly the ones published, through rotation and faults",
"From a published key set every RSA key with a key id is usable exactly as published, whether its numbers are base64url or standard base64, padded or not, and entries that are incomplete, malformed or of other types are skipped without affecting the rest. A token signed by a newly published key is accepted on first use, and keys that are missing from the last set fetched are not accepted. A failed, malformed or non-200 fetch never removes or replaces known keys, and is tried again the next time an unknown key id appears.",
["inputs","histories","fault_sequences"],"all key-set documents and all histories of publications, faults and token presentations",
"Tests decode one stored key set and one fetch per test; encodings, mixed entries, rotation and fault histories are not explored.",
[A+"authserver/keyset/keyset.go",A+"authserver/keyset/key.go",A+"networking/networking.go"],
[("decoding",A+"authserver/keyset/key.go decodePublicKey, safeDecode"),("refetch on unknown key id",A+"authserver/keyset/keyset.go PublicKey, updateKeys")],
[("publicKeys","key id -> public key of last successful fetch",A+"authserver/keyset/keyset.go")],
["keyset PublicKey result","token validation result"])

prop("C09","OIDC login sends users to the provider and back where they started",
"A request without a session to an OIDC-protected endpoint is answered with a 302 to the provider's authorization endpoint, keeping that endpoint's own query and adding response_type=code, the client id, the configured scopes (openid profile email by default), a fresh state and the redirect URI <scheme>://<host><path>/oidc/callback, each surviving URL encoding, together with the state cookie. When the provider calls back there with a code and the state, the code is exchanged with that same redirect URI, and on success the browser gets a 302 with a session cookie to the URL originally requested, or to the policy's redirectUri if it has one. With that cookie the original request is let through.",
["inputs","configurations"],"all clients, scopes, hosts, paths, provider endpoints and redirectUri settings",
"Tests check one login redirect with mock client and compare parts of one callback; URLs, encodings and the round trip are not generated.",
[A+"strategy/web/web.go",A+"strategy/web/utils.go",A+"client/client.go",A+"policy/engine/engine.go"],
[("authorization URL",A+"strategy/web/utils.go generateAuthorizationURL, buildRequestURL"),("callback",A+"strategy/web/web.go handleAuthorizationCodeCallback, buildSuccessRedirectResponse")],
[],["responses of the web strategy","requests received by the identity provider"])

prop("C10","No code is exchanged without the matching, authentic state",
"A callback leads to an authorization-code exchange only if its state equals the state inside an unexpired state cookie (at most an hour old) that was issued by this deployment's keys for the same client. In every other case, including a callback reporting an error, a forged, truncated, swapped, expired or foreign cookie, and a missing or different state, the request is rejected as unauthenticated or sent to a new login, the token endpoint is not contacted and no session comes into being. A tampered cookie never yields a session or an OK.",
["inputs","histories"],"all callbacks, states and cookies, including mixtures from several logins and clients and mutated cookies",
"Tests try one good and a few bad state values; mutations, replays across clients and mixtures of concurrent logins are not generated.",
[A+"strategy/web/web.go"],
[("state cookie",A+"strategy/web/web.go buildStateParam, generateEncryptedCookie"),("state validation",A+"strategy/web/web.go validateState, parseAndValidateCookie")],
[],["responses of the web strategy","requests received by the identity provider"])

prop("C11","Sessions live from login to logout or expiry, and stay apart",
"A request is let through with a session cookie exactly while that session is live: from the successful login that issued it until its logout, or until its tokens no longer validate and cannot be refreshed; then, and with any other cookie, a new login starts. While live it is forwarded with 'Bearer <access token> <id token>' of that very session, and expired tokens are renewed with its own refresh token, the new tokens (and the old refresh token when no new one is issued) replacing the old under the same cookie. Logout ends exactly the session presented, clears the cookie and redirects within the same host to the path before /oidc/logout.",
["histories","fault_sequences"],"all interleavings of logins, requests, expiries, refreshes, provider faults and logouts over many sessions and clients",
"Tests exercise single steps with a stored session and mock client; no test runs a multi-session history against a model.",
[A+"strategy/web/web.go",A+"strategy/web/utils.go"],
[("session check",A+"strategy/web/web.go isAuthorized"),("refresh",A+"strategy/web/web.go handleRefreshTokens"),("logout",A+"strategy/web/web.go handleLogout")],
[("tokenCache","session id -> tokens",A+"strategy/web/web.go")],
["responses of the web strategy","requests received by the identity provider"])

prop("C12","Opaque access tokens count only when the provider vouches for them",
"Under an OIDC policy an access token that is not a verifiable JWT is accepted only if the provider's userinfo endpoint, asked with exactly that token as bearer, answers 200, and the policy states no rule on the access token. Any other status, an unreachable or unknown endpoint, or a stated access-token rule (whether or not the rule names its source) means rejection. ID tokens and JWT policies never take this path.",
["inputs","fault_sequences","configurations"],"all non-JWT and unverifiable tokens, userinfo behaviours and rule lists",
"Tests stub userinfo with a fixed 200 or 401 and call an internal function; token shapes, faults and rules are not combined, and the engine's rules are not involved.",
[A+"validator/validator.go",A+"policy/engine/engine.go",A+"strategy/web/web.go"],
[("userinfo check",A+"validator/validator.go validateAccessTokenString"),("dispatch",A+"validator/validator.go OidcTokenValidator.Validate, checkJwtFormat")],
[],["validator Validate result","requests received by the userinfo endpoint"])

prop("C13","Session ids and states are unique and unguessable",
"Every session id and every login state is fresh: values never repeat across logins, concurrent requests, adapter restarts or replicas. Each has at least 50 bits drawn unpredictably from a uniform source, so knowing any number of issued values, the start time of the process or the host gives no way to compute others. A session id is never derived from anything the client supplied.",
["histories","schedules"],"all sequences and interleavings of logins in one or several processes",
"Tests check only the length of one generated string.",
[A+"strategy/web/utils.go",A+"strategy/web/web.go"],
[("random strings",A+"strategy/web/utils.go randString"),("session cookie",A+"strategy/web/utils.go generateSessionIDCookie")],
[],["state parameter and session cookie of responses"])

prop("C14","Token requests are authenticated and only good answers make a session",
"Every code exchange or refresh is one form-encoded POST to the provider's token endpoint carrying the grant type with its code and redirect URI, or its refresh token, and the client's id and secret: in the form for client_secret_post, by HTTP Basic for any other method. All values reach the provider unchanged whatever characters they contain. Only a 200 JSON response with an access token whose tokens validate creates or renews a session; every other status, body or transport fault leaves the user without a session and is reported as unauthenticated or a new login.",
["inputs","fault_sequences"],"all client ids, secrets, codes, tokens and all token-endpoint responses and faults",
"Tests check a few fixed responses against one server; value encoding and fault classes are not generated.",
[A+"authserver/authserver.go",A+"client/client.go",A+"networking/networking.go",A+"strategy/web/web.go"],
[("token request",A+"authserver/authserver.go GetTokens"),("response validation",A+"authserver/authserver.go TokenResponse.OK, "+A+"networking/networking.go Do")],
[],["requests received by the token endpoint","responses of the web strategy"])

prop("C15","Provider discovery is all-or-nothing and recovers",
"The endpoints used for a provider are exactly those of the last discovery document that was fetched with status 200 and contains issuer, authorization, token, userinfo and JWKS endpoints; nothing of a failed, malformed or incomplete document is ever used. Until such a document is obtained every request depending on it is refused or sent to log in, never let through. Discovery is tried again as requests arrive, so that once the provider is healthy login and token validation work without restarting the adapter or touching the config, including when the provider was down as the config was created.",
["fault_sequences","histories","inputs"],"all sequences of discovery responses and faults interleaved with requests",
"Tests fetch one document of each kind once; recovery across a sequence of faults together with the key set and login is not exercised.",
[A+"authserver/authserver.go",A+"policy/handler/crdeventhandler/add_event.go",A+"networking/networking.go"],
[("lazy retry",A+"authserver/authserver.go initialize, loadDiscoveryEndpoint"),("document validation",A+"authserver/authserver.go DiscoveryConfig.OK")],
[("initialized","a complete document has been loaded",A+"authserver/authserver.go")],
["accessors of the authorization server","responses of the web strategy"])

prop("C16","Cookie keys are shared through the cluster secret and never weak",
"State cookies are encrypted and signed with the keys in the cluster's cookie-key secret: if it exists it is used unchanged, otherwise one is created with random keys of the configured sizes before any cookie is issued. Instances and restarts sharing the secret accept each other's cookies, and one with another secret does not. Whatever API calls fail and in whatever order, no cookie is ever issued under keys that are not stored in the secret, an outage is recovered from on a later request, and only the sizes 32 or 64 (hash) and 16, 24 or 32 (block) can be configured.",
["fault_sequences","histories","configurations"],"all Kubernetes API fault sequences, several instances and key-size settings",
"Tests use one fake clientset without faults and one instance.",
[A+"strategy/web/web.go",A+"config/config.go",A+"config/intoptions.go",A+"networking/networking.go"],
[("secret lookup and creation",A+"strategy/web/web.go getSecureCookie, generateSecureCookie, generateKeySecret"),("size options",A+"config/intoptions.go Set"),("retries",A+"networking/networking.go Retry")],
[],["state cookies in responses","Kubernetes secret"])

prop("C17","Concurrent requests and configuration changes are safe",
"Requests may be served concurrently with each other and with creation, update and deletion of any configuration objects, logins, logouts, key refreshes and discovery, without crash, deadlock or data race. Each concurrent request is decided by some configuration that was in force between its start and its end; endpoints untouched by the changes keep their decision throughout. A session logged out is not usable by any request that starts after the logout was answered.",
["schedules"],"all interleavings of requests, configuration events, session operations and refreshes",
"Tests are sequential (parallel subtests use separate stores) and run without the race detector.",
[A+"policy/store/policy/localstore.go",A+"authserver/authserver.go",A+"authserver/keyset/keyset.go",A+"strategy/web/web.go",A+"strategy/web/utils.go"],
[("store",A+"policy/store/policy/localstore.go"),("lazy initialisation",A+"authserver/authserver.go initialize, "+A+"strategy/web/web.go getSecureCookie"),("session cache",A+"strategy/web/web.go tokenCache")],
[],["race detector reports","responses"])

prop("C18","No input crashes, hangs or exhausts the adapter",
"Whatever arrives in an authorization request (any field empty, huge, non-ASCII or malformed), from the identity provider (discovery document, key set, token or userinfo response) or in a custom resource, and however often, the adapter neither panics nor hangs: the request gets a well-formed answer or an error, later requests are decided as if it had not arrived, and once it is answered it keeps no connection or goroutine in use, nor memory beyond live sessions.",
["inputs"],"all byte strings in all fields of requests, provider responses and custom resources",
"Tests use a few well-formed and a few hand-made malformed inputs.",
[A+"adapter.go",A+"strategy/web/web.go",A+"strategy/api/api.go",A+"validator/validator.go",A+"authserver/authserver.go",A+"authserver/keyset/key.go",A+"policy/handler/handler.go",A+"policy/store/pathtrie/utils.go"],
[("request validation",A+"adapter.go validateAuthnzRequest"),("JSON decoding",A+"networking/networking.go"),("path segmentation",A+"policy/store/pathtrie/utils.go")],
[],["HandleAuthnZ response"])

prop("C19","Custom resources survive the Kubernetes API and copying unchanged",
"Every Policy, JwtConfig and OidcConfig the custom resource definitions allow is read from the API with all documented fields under their documented names, is written back by the typed client with every documented field's value unchanged (an optional field left out counts as empty) under its own namespace, name and resource path, and lists, watches and listers return each object under its own type. A deep copy equals its original and shares nothing with it: changing one never changes the other.",
["inputs"],"all custom resource objects and mutations of their copies",
"No test covers the API types, their deep copies, the typed client or the listers.",
[A+"pkg/apis/policies/v1/policy.go",A+"pkg/apis/policies/v1/target.go",A+"pkg/apis/policies/v1/oidc_config.go",A+"pkg/apis/policies/v1/jwt_config.go",A+"pkg/apis/policies/v1/register.go",A+"pkg/apis/policies/v1/zz_generated.deepcopy.go",A+"pkg/client/clientset/versioned/typed/policies/v1/policy.go",A+"pkg/client/listers/policies/v1/policy.go"],
[("deep copies",A+"pkg/apis/policies/v1/zz_generated.deepcopy.go"),("JSON tags",A+"pkg/apis/policies/v1"),("typed client",A+"pkg/client/clientset/versioned/typed/policies/v1")],
[],["JSON sent and received by the API server","objects returned"])

prop("C20","The running adapter converges to the cluster's objects through watch faults",
"Whatever sequence of creations, updates and deletions of Policies, JwtConfigs and OidcConfigs happens in the cluster, in any order between kinds and namespaces, and however often watches are dropped, expire or must be re-listed, including objects present before the adapter started, once notifications have been processed the running adapter decides every request as the objects then live require. Deletions missed during a dropped watch take effect as well.",
["histories","fault_sequences"],"all histories of object changes and watch interruptions",
"No test covers the controllers, informers or initializer.",
[A+"policy/controller/controller.go",A+"policy/initializer/policyinitializer.go",A+"policy/handler/handler.go",A+"pkg/client/informers/externalversions/policies/v1/policy.go",A+"adapter.go"],
[("informers and work queues",A+"policy/initializer/policyinitializer.go initPolicyController"),("worker",A+"policy/controller/controller.go processNextItem")],
[],["HandleAuthnZ gRPC response after a barrier object"])

prop("C21","Secrets and tokens never leave through responses",
"No answer of the adapter to a client, in any login, callback, refresh, logout or failure, contains the client secret, the cookie keys, a refresh token, an access or id token, or the authorization code in any header, cookie, body or message, except that an OK answer's forwarded Authorization value holds the session's access and id tokens. Cookies sent to the browser carry only encrypted state or an opaque session id, never readable state or tokens. Identity-provider requests carry the client secret and codes only to the token endpoint, and access tokens only to the userinfo endpoint.",
["histories","inputs","fault_sequences"],"all OIDC histories and provider faults",
"Tests look only at the fields they expect, never for what must not be there.",
[A+"strategy/web/web.go",A+"strategy/web/utils.go",A+"strategy/api/api.go",A+"authserver/authserver.go",A+"validator/validator.go"],
[("responses",A+"strategy/web/web.go buildSuccessRedirectResponse, handleErrorCallback"),("cookies",A+"strategy/web/utils.go generateSessionIDCookie, "+A+"strategy/web/web.go generateEncryptedCookie")],
[],["every byte of responses and of provider requests"])

prop("C22","The deployed command serves port, keys and gRPC interface as configured",
"Started with any permitted combination of --port/-p, --hash-key (32 or 64), --block-key (16, 24 or 32), --json/-j and --level/-l in any order and spelling, the adapter command serves authnz.HandleAuthnZService/HandleAuthnZ over gRPC on exactly that port; its decisions for the same cluster state and requests are those of the adapter in this repository's library form, read and written by the field numbers of the service's proto. It creates the cookie-key secret with the chosen sizes (last repeated flag counts) and reuses an existing one, so a login begun before a restart, or at another replica started with other sizes, can be completed after it. Logging options change no decision. Any other flag value, unknown flag or positional argument, or a port already taken, ends the process with a failure exit status; a refused command line does so before it listens or touches the cluster.",
["inputs","histories","crash_points"],"all command lines, cluster histories and restarts at any point of a login",
"No test starts the command: the tests of config call the setter with a few values.",
["cmd/main.go",A+"adapter.go",A+"config/config.go",A+"config/intoptions.go"],
[("flags and start","cmd/main.go getCmd, main"),("service",A+"adapter.go NewAppIDAdapter, Run, HandleAuthnZ"),("flag values",A+"config/intoptions.go IntOptions.Set"),("keys",A+"strategy/web/web.go getSecureCookie")],
[],["exit status","the listening port","gRPC bytes","the cluster's secret"])

prop("C23","The Helm chart wires mesh, cluster and adapter together",
"For every permitted setting of the chart's values, the rendered chart deploys an adapter that serves on the port its service and the mesh's handler name, with the chart's key sizes and log settings, and whose roles permit every call it makes to the Kubernetes API, so it starts, reads or creates the cookie keys of its own secret, and follows Policies, JwtConfigs and OidcConfigs. The CustomResourceDefinitions accept every object of the documented form, with the kinds and names the adapter watches, and refuse one that lacks a required field, or has a value of another type or outside a documented enumeration. A request that passes through the chart's instance, rule and handler reaches the adapter with its namespace, service, method, path, scheme, host, cookies, Authorization header and query parameters unchanged, and the adapter's Authorization and cookie outputs reach the application's request, so that the decision for every request is that of the reference model on the same objects and request.",
["inputs","histories"],"all permitted chart values, custom resources and requests",
"No test renders the chart, reads its definitions or evaluates its attribute expressions.",
["helm/appidentityandaccessadapter/values.yaml","helm/appidentityandaccessadapter/templates/instance.yaml","helm/appidentityandaccessadapter/templates/policy.yaml",A+"adapter.go","cmd/main.go"],
[("deployment","helm/appidentityandaccessadapter/templates/deployment.yaml, service.yaml, keys.yaml, cluster-role-binding.yaml"),("definitions","helm/appidentityandaccessadapter/templates/policy.yaml, jwt-config.yaml, oidc-config.yaml"),("instance, rule, handler","helm/appidentityandaccessadapter/templates/instance.yaml, rule.yaml, handler.yaml, template.yaml, ibmcloudappid.yaml")],
[],["rendered manifests","the adapter's API calls","gRPC bytes built by the instance","the application's request headers"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
