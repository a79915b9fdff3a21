package harness

import (
	"bytes"
	"context"
	"encoding/base64"
	"fmt"
	"io"
	"net/url"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/grpclog"
	"pgregory.net/rapid"

	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// The Helm chart: what it deploys, what it lets into the cluster, and how the mixer talks to the adapter by it.

const cookieKeySecret = "appidentityandaccessadapter-cookie-sig-enc-keys"

func genValues(rt *rapid.T, port int) (over doc, desc string) {
	app := rapid.SampledFrom([]string{"", "", "appid", "x-1"}).Draw(rt, "app-name")
	over = doc{
		"replicaCount": float64(rapid.IntRange(1, 3).Draw(rt, "replicas")),
		"service":      doc{"port": float64(port), "type": rapid.SampledFrom([]string{"ClusterIP", "NodePort"}).Draw(rt, "service-type")},
		"keys":         doc{"hashKeySize": rapid.SampledFrom([]float64{32, 64}).Draw(rt, "hash"), "blockKeySize": rapid.SampledFrom([]float64{16, 24, 32}).Draw(rt, "block")},
		"logging":      doc{"json": rapid.Bool().Draw(rt, "json"), "level": float64(rapid.IntRange(-1, 7).Draw(rt, "level"))},
		"image":        doc{"tag": rapid.SampledFrom([]string{"0.5.0", "latest"}).Draw(rt, "tag"), "pullPolicy": "IfNotPresent"},
	}
	if app != "" {
		over["appName"] = app
	}
	return over, strings.ReplaceAll(mustJSON(over), fmt.Sprint(port), "PORT")
}

// wiring names what does not fit together in a rendered chart.
func wiring(docs []doc, over doc) string {
	one := func(kind string) (doc, string) {
		ds := ofKind(docs, kind)
		if len(ds) != 1 {
			return nil, fmt.Sprintf("%d objects of kind %s", len(ds), kind)
		}
		return ds[0], ""
	}
	got := map[string]doc{}
	for _, k := range []string{"adapter", "template", "handler", "instance", "rule", "Deployment", "Service"} {
		d, bad := one(k)
		if bad != "" {
			return bad
		}
		got[k] = d
	}
	ns := text(got["Deployment"], "metadata", "namespace")
	name := func(k string) string { return text(got[k], "metadata", "name") }
	refers := func(k, ref string) bool { // by name, name.namespace ...
		n, own := name(k), text(got[k], "metadata", "namespace")
		return ref == n || ref == n+"."+own || strings.HasPrefix(ref, n+"."+own+".")
	}
	for _, k := range []string{"handler", "instance", "rule", "Service"} {
		if text(got[k], "metadata", "namespace") != ns {
			return k + " is in another namespace than the deployment"
		}
	}
	templates := false
	for _, t := range list(got["adapter"], "spec", "templates") {
		templates = templates || refers("template", fmt.Sprint(t))
	}
	switch {
	case !templates:
		return "the adapter does not support the template"
	case !refers("template", text(got["instance"], "spec", "template")):
		return "the instance is of another template"
	case !refers("adapter", text(got["handler"], "spec", "adapter")):
		return "the handler is of another adapter"
	case text(got["adapter"], "spec", "session_based") == "true":
		return "the adapter is session based"
	case text(got["Deployment"], "spec", "replicas") != fmt.Sprint(over["replicaCount"]):
		return "the number of replicas is not the one asked for"
	case text(got["Service"], "spec", "type") != text(over, "service", "type"):
		return "the type of the service is not the one asked for"
	}
	used := false
	for _, a := range list(got["rule"], "spec", "actions") {
		if refers("handler", text(a, "handler")) {
			for _, i := range list(a, "instances") {
				used = used || refers("instance", fmt.Sprint(i))
			}
		}
	}
	if !used {
		return "the rule does not send the instance to the handler"
	}
	pod, _ := at(got["Deployment"], "spec", "template").(doc)
	labels, _ := at(pod, "metadata", "labels").(doc)
	for _, sel := range []interface{}{at(got["Deployment"], "spec", "selector", "matchLabels"), at(got["Service"], "spec", "selector")} {
		if m, ok := sel.(doc); !ok || len(m) == 0 || !subset(m, labels) {
			return "the pods are not the selected ones"
		}
	}
	if image := text(pod, "spec", "containers", 0, "image"); !strings.HasSuffix(image, ":"+text(over, "image", "tag")) {
		return "the image is " + image
	}
	addr := strings.Split(text(got["handler"], "spec", "connection", "address"), ":")
	if len(addr) != 2 || !refers("Service", addr[0]) {
		return "the handler does not connect to the service"
	}
	for _, p := range list(got["Service"], "spec", "ports") {
		if text(p, "port") != addr[1] {
			continue
		}
		target := text(p, "targetPort")
		if target == "" {
			target = addr[1]
		}
		for _, cp := range list(pod, "spec", "containers", 0, "ports") {
			if n := text(cp, "containerPort"); n == target || text(cp, "name") == target {
				if n == text(over, "service", "port") {
					return ""
				}
			}
		}
	}
	return "the handler's connection does not end at the container's port"
}

// mesh talks to an adapter as the mixer does with the chart's template, instance and rule.
type mesh struct {
	conn *grpc.ClientConn
	reg  *registry
	inst doc
	rule doc
	path string
}

func newMesh(conn *grpc.ClientConn, docs []doc) (*mesh, string) {
	tpl := ofKind(docs, "template")[0]
	reg, err := readDescriptors(text(tpl, "spec", "descriptor"))
	if err != nil {
		return nil, fmt.Sprintf("the template's descriptor: %v", err)
	}
	m := &mesh{conn: conn, reg: reg, inst: ofKind(docs, "instance")[0], rule: ofKind(docs, "rule")[0]}
	var names []string
	for n := range reg.svcs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, mt := range reg.svcs[n].Method {
			m.path = "/" + strings.TrimPrefix(n, ".") + "/" + mt.GetName()
		}
	}
	if m.path == "" {
		return nil, "the template has no service"
	}
	return m, ""
}

// attributes are what the mixer knows of a request.
func attributes(in *authnz.InstanceMsg) map[string]interface{} {
	attrs := map[string]interface{}{}
	set := func(k, v string) {
		if v != "" {
			attrs[k] = v
		}
	}
	set("destination.service.name", in.Target.Service)
	set("destination.service.namespace", in.Target.Namespace)
	set("destination.service.host", in.Target.Service+"."+in.Target.Namespace+".svc.cluster.local")
	set("destination.namespace", in.Target.Namespace)
	set("source.namespace", "somewhere")
	set("source.name", "somebody")
	set("request.method", in.Target.Method)
	set("request.url_path", in.Request.Path)
	set("request.scheme", in.Request.Scheme)
	set("request.host", in.Request.Host)
	set("request.referer", "https://referer.example/")
	set("request.useragent", "browser/1.0")
	query, q := map[string]string{}, url.Values{}
	for k, v := range map[string]string{"code": in.Request.Params.Code, "state": in.Request.Params.State, "error": in.Request.Params.Error, "error_description": ""} {
		if v != "" {
			query[k] = v
			q.Set(k, v)
		}
	}
	full := in.Request.Path
	if len(q) > 0 {
		full += "?" + q.Encode()
	}
	set("request.path", full)
	headers := map[string]string{":authority": in.Request.Host, "x-request-id": "1", "user-agent": "browser/1.0"}
	if in.Request.Headers.Cookies != "" {
		headers["cookie"] = in.Request.Headers.Cookies
	}
	if in.Request.Headers.Authorization != "" {
		headers["authorization"] = in.Request.Headers.Authorization
	}
	attrs["request.headers"], attrs["request.query_params"] = headers, query
	return attrs
}

var outputRe = regexp.MustCompile(`^([A-Za-z0-9_-]+)\.output\.([A-Za-z0-9_]+)$`)

// HandleAuthnZ sends the request through the mesh.
func (m *mesh) HandleAuthnZ(_ context.Context, r *authnz.HandleAuthnZRequest) (*authnz.HandleAuthnZResponse, error) {
	params, _ := at(m.inst, "spec", "params").(doc)
	vals, err := evalParams(params, attributes(r.Instance))
	if err != nil {
		return nil, fmt.Errorf("mixer: %v", err)
	}
	reqMsg, err := m.reg.find("HandleAuthnZRequest")
	if err != nil {
		return nil, fmt.Errorf("mixer: %v", err)
	}
	vals["name"] = []byte("instance.istio-system")
	raw, err := m.reg.encode(reqMsg, doc{"instance": vals, "dedup_id": "1"})
	if err != nil {
		return nil, fmt.Errorf("mixer: %v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	var got []byte
	if err := m.conn.Invoke(ctx, m.path, raw, &got, grpc.CallCustomCodec(rawCodec{})); err != nil {
		return nil, err
	}
	resMsg, err := m.reg.find("HandleAuthnZResponse")
	if err != nil {
		return nil, fmt.Errorf("mixer: %v", err)
	}
	var result []byte
	output := map[string]string{}
	good := fields(got, func(num int, val []byte) {
		switch m.reg.name(resMsg, num) {
		case "result":
			result = val
		case "output":
			typ := m.reg.field(resMsg, "output").GetTypeName()
			fields(val, func(num int, val []byte) { output[m.reg.name(typ, num)] = string(val) })
		}
	})
	if !good || result == nil {
		return nil, fmt.Errorf("mixer: the answer has no result")
	}
	res, err := decodeResponse(field(nil, 1, result))
	if err != nil {
		return nil, err
	}
	// the rule's header operations
	action := text(m.rule, "spec", "actions", 0, "name")
	value := func(op interface{}) (string, error) {
		var out []string
		for _, v := range list(op, "values") {
			x := outputRe.FindStringSubmatch(strings.TrimSpace(fmt.Sprint(v)))
			if x == nil || x[1] != action {
				return "", fmt.Errorf("mixer: the rule uses %v", v)
			}
			if m.reg.field(m.reg.field(resMsg, "output").GetTypeName(), x[2]) == nil {
				return "", fmt.Errorf("mixer: the template has no output %s", x[2])
			}
			out = append(out, output[x[2]])
		}
		return strings.Join(out, ","), nil
	}
	res.Output = &authnz.OutputMsg{}
	for _, op := range list(m.rule, "spec", "requestHeaderOperations") {
		v, err := value(op)
		if err != nil {
			return nil, err
		}
		if strings.EqualFold(text(op, "name"), "Authorization") {
			if text(op, "operation") == "APPEND" && r.Instance.Request.Headers.Authorization != "" {
				v = r.Instance.Request.Headers.Authorization + "," + v
			}
			res.Output.Authorization = v
		}
	}
	for _, op := range list(m.rule, "spec", "responseHeaderOperations") {
		v, err := value(op)
		if err != nil {
			return nil, err
		}
		if strings.EqualFold(text(op, "name"), "Set-Cookie") {
			res.Output.SessionCookie = v
		}
	}
	return res, nil
}

// ------------------------------------------------------------------ documented custom resources

// spot is a place of a document where something can be broken: name of the field, its holder, and
// what makes it wrong ("" for leaving it out).
type spot struct {
	holder doc
	field  string
	wrong  []interface{} // values outside a documented enumeration or of another type
	need   bool
}

func genURL(rt *rapid.T) string {
	s := rapid.SampledFrom([]string{"https://", "https://", "http://"}).Draw(rt, "url-scheme")
	s += rapid.SampledFrom([]string{"us-south.appid.cloud.ibm.com", "idp.example.com", "a.b-c.example.org", "login.example.io", "10.0.0.1", "keycloak.auth.svc"}).Draw(rt, "url-host")
	s += rapid.SampledFrom([]string{"", "", ":443", ":8080", ":30001"}).Draw(rt, "url-port")
	for n := rapid.IntRange(0, 4).Draw(rt, "url-segments"); n > 0; n-- {
		s += "/" + rapid.SampledFrom([]string{"oauth", "v4", "71b34890-a94f-4ef2-a4b6-ce094aa68092", ".well-known", "openid-configuration", "a_b", "%20x", "~u", "1+1", ""}).Draw(rt, "url-segment")
	}
	return s + rapid.SampledFrom([]string{"", "", "", "?a=b", "?p=b2c_1_signin&x=1.0"}).Draw(rt, "url-query")
}

// genDocumented draws a resource of the form the README documents.
func genDocumented(rt *rapid.T, kind string) (spec doc, spots []spot) {
	str := func(l string) string {
		return rapid.SampledFrom([]string{"a", "oidc-provider-config", "with space", "äß", strings.Repeat("long", 80), "1234-abcd-efgh-4567", "<client>", "a.b/c"}).Draw(rt, l)
	}
	maybe := func(l string) bool { return rapid.Bool().Draw(rt, l) }
	notText := []interface{}{float64(7), true, []interface{}{"x"}, doc{"x": "y"}}
	mk := func(d doc, f string, v interface{}, need bool, wrong ...interface{}) {
		d[f] = v
		spots = append(spots, spot{d, f, wrong, need})
	}
	spec = doc{}
	switch kind {
	case kJwt:
		mk(spec, "jwksUrl", genURL(rt), true, notText...)
	case kOidc:
		mk(spec, "discoveryUrl", genURL(rt), true, notText...)
		mk(spec, "clientId", str("client-id"), true, notText...)
		if maybe("secret") {
			mk(spec, "clientSecret", str("client-secret"), false, notText...)
		}
		if maybe("ref") {
			ref := doc{}
			mk(ref, "name", str("ref-name"), true, notText...)
			mk(ref, "key", str("ref-key"), true, notText...)
			mk(spec, "clientSecretRef", ref, false, "x", float64(1))
		}
		if maybe("method") {
			mk(spec, "authMethod", rapid.SampledFrom([]string{"client_secret_basic", "client_secret_post"}).Draw(rt, "auth-method"), false, "none", "private_key_jwt", "CLIENT_SECRET_POST", "")
		}
		if maybe("scopes") {
			l := []interface{}{}
			for n := rapid.IntRange(1, 4).Draw(rt, "scope-count"); n > 0; n-- {
				l = append(l, str("scope"))
			}
			mk(spec, "scopes", l, false, "openid", []interface{}{float64(1)})
		}
	case kPolicy:
		targets := []interface{}{}
		for n := rapid.IntRange(1, 2).Draw(rt, "targets"); n > 0; n-- {
			te, paths := doc{}, []interface{}{}
			mk(te, "serviceName", str("service"), true, notText...)
			for k := rapid.IntRange(1, 2).Draw(rt, "paths"); k > 0; k-- {
				p := doc{}
				mk(p, rapid.SampledFrom([]string{"exact", "prefix"}).Draw(rt, "path-kind"), rapid.SampledFrom([]string{"/", "/web/home", "/a b", "/ä", "/x/"}).Draw(rt, "path"), false, notText...)
				if maybe("path-method") {
					mk(p, "method", rapid.SampledFrom([]string{"ALL", "GET", "PUT", "POST", "DELETE", "PATCH"}).Draw(rt, "method"), false, "HEAD", "get", "", "*")
				}
				if maybe("policies") {
					ps := []interface{}{}
					for j := rapid.IntRange(1, 2).Draw(rt, "policy-count"); j > 0; j-- {
						pp := doc{}
						mk(pp, "policyType", rapid.SampledFrom([]string{"jwt", "oidc"}).Draw(rt, "type"), true, "JWT", "saml", "", "none")
						mk(pp, "config", str("config"), true, notText...)
						if maybe("redirect") {
							mk(pp, "redirectUri", genURL(rt), false, notText...)
						}
						if maybe("rules") {
							rules := []interface{}{}
							for i := rapid.IntRange(1, 3).Draw(rt, "rule-count"); i > 0; i-- {
								r := doc{}
								mk(r, "claim", str("claim"), true, notText...)
								vals := []interface{}{}
								for v := rapid.IntRange(1, 3).Draw(rt, "value-count"); v > 0; v-- {
									vals = append(vals, str("value"))
								}
								mk(r, "values", vals, true, "x", []interface{}{true}, doc{})
								if maybe("match") {
									mk(r, "match", rapid.SampledFrom([]string{"ALL", "ANY", "NOT"}).Draw(rt, "match-kind"), false, "all", "NONE", "")
								}
								if maybe("source") {
									mk(r, "source", rapid.SampledFrom([]string{"access_token", "id_token"}).Draw(rt, "source-kind"), false, "refresh_token", "ID_TOKEN", "header")
								}
								rules = append(rules, r)
							}
							mk(pp, "rules", rules, false, "x", doc{})
						}
						ps = append(ps, pp)
					}
					mk(p, "policies", ps, false, "x", doc{})
				}
				paths = append(paths, p)
			}
			mk(te, "paths", paths, true, "/x", doc{})
			targets = append(targets, te)
		}
		mk(spec, "targets", targets, true, "x", doc{})
	}
	return spec, spots
}

func TestC23(t *testing.T) {
	ev := newEvidence("C23", "the chart rendered with drawn values (by a stand-in for helm); (definitions) custom resources of every documented form, and the same with one required field missing or one value outside its enumeration or type, judged by the chart's definitions; (deployed) the built command started with the rendered arguments against a cluster holding the rendered secret, cluster histories, logins and sessions through the rendered instance, template descriptor and rule as the mixer applies them, judged by the same reference as an adapter asked directly; non-trivial: a broken document, a document with a nested list, or a deployed history",
		"the text templates use common helm functions", "a resource's URLs are lower case")
	defer ev.Write(t)
	if os.Getenv("VERIF_BINARY") == "" {
		t.Fatal("no binary to check")
	}
	caseTime = func() time.Time { return time.Now().Truncate(time.Second) } // the processes see the real one
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(io.Discard, io.Discard, io.Discard))

	run(t, ev, "wiring", 60, 1500, func(rt *rapid.T) {
		over, desc := genValues(rt, rapid.SampledFrom([]int{47304, 8080, 50051, 1}).Draw(rt, "port"))
		docs, err := renderChart(over, rapid.SampledFrom([]string{"appidentityandaccessadapter", "r1"}).Draw(rt, "release"))
		if err != nil {
			rt.Fatalf("the chart is not rendered: %v (values %s)", err, desc)
		}
		if bad := wiring(docs, over); bad != "" {
			rt.Fatalf("%s (values %s)", bad, desc)
		}
		ev.Case(desc, true, func() interface{} { return map[string]interface{}{"values": over} })
	})

	docs, err := renderChart(doc{}, "r")
	if err != nil {
		t.Fatalf("the chart is not rendered: %v", err)
	}
	schemas := map[string]interface{}{}
	for _, d := range ofKind(docs, "CustomResourceDefinition") {
		kind := text(d, "spec", "names", "plural")
		served := false
		for _, v := range list(d, "spec", "versions") {
			served = served || text(v, "name") == "v1" && at(v, "served") == true && at(v, "storage") == true
		}
		served = served || text(d, "spec", "version") == "v1"
		if text(d, "metadata", "name") != kind+".security.cloud.ibm.com" || text(d, "spec", "group") != "security.cloud.ibm.com" || text(d, "spec", "scope") != "Namespaced" || text(d, "spec", "names", "kind") != kindName[kind] || !served {
			t.Fatalf("the definition %s is not of the resource the adapter asks for", text(d, "metadata", "name"))
		}
		schemas[kind] = at(d, "spec", "validation", "openAPIV3Schema")
		if schemas[kind] == nil {
			schemas[kind] = at(d, "spec", "versions", 0, "schema", "openAPIV3Schema")
		}
	}
	for _, k := range crdKinds {
		if schemas[k] == nil {
			t.Fatalf("no definition of %s", k)
		}
	}

	run(t, ev, "definitions", 6000, 200000, func(rt *rapid.T) {
		kind := rapid.SampledFrom([]string{kPolicy, kPolicy, kPolicy, kOidc, kOidc, kJwt}).Draw(rt, "kind")
		spec, spots := genDocumented(rt, kind)
		obj := doc{"apiVersion": "security.cloud.ibm.com/v1", "kind": kindName[kind], "metadata": doc{"name": "x", "namespace": "ns"}, "spec": spec}
		if bad := schemaErr(schemas[kind], obj, kindName[kind]); bad != "" {
			rt.Fatalf("a documented %s is refused: %s\n%s", kindName[kind], bad, mustJSON(spec))
		}
		s := mustJSON(spec)
		ev.Case(kind+s, strings.Count(s, "[") > 1, func() interface{} { return map[string]interface{}{"accepted": obj} })
		ev.Label("accepted " + kind)
		sp := spots[rapid.IntRange(0, len(spots)-1).Draw(rt, "spot")]
		i := rapid.IntRange(-1, len(sp.wrong)-1).Draw(rt, "wrong")
		what := "without " + sp.field
		switch {
		case i >= 0:
			sp.holder[sp.field] = sp.wrong[i]
			what = fmt.Sprintf("with %s: %s", sp.field, mustJSON(sp.wrong[i]))
		case sp.need:
			delete(sp.holder, sp.field)
		default:
			delete(sp.holder, sp.field) // optional: still accepted
			if bad := schemaErr(schemas[kind], obj, kindName[kind]); bad != "" && sp.field != "exact" && sp.field != "prefix" {
				rt.Fatalf("a %s without the optional %s is refused: %s\n%s", kindName[kind], sp.field, bad, mustJSON(spec))
			}
			return
		}
		if schemaErr(schemas[kind], obj, kindName[kind]) == "" {
			rt.Fatalf("a %s %s is accepted\n%s", kindName[kind], what, mustJSON(spec))
		}
		ev.Case(kind+mustJSON(spec), true, func() interface{} { return map[string]interface{}{"refused": obj, "because": what} })
		ev.Label("refused: " + sp.field)
	})

	home := t.TempDir()
	tn := newTenant()
	for k := 0; k < c20Versions; k++ {
		doc := jwks(jwk(fmt.Sprintf("k%d", k), &testKeys[k].PublicKey))
		tn.serve(fmt.Sprintf("jwks-%d", k), func(Rec) Reply { return Reply{Status: 200, Body: doc} })
	}
	run(t, ev, "deployed", 8, 250, func(rt *rapid.T) {
		const width = 4
		type unit struct {
			a    *lane
			over doc
			desc string
			port int
			path string
			auth string
			bad  string
		}
		var us []*unit
		for i := 0; i < width; i++ {
			u := &unit{a: newLane(tn, genPlan(rt)), port: freePort(20000 + 1000*i)}
			u.over, u.desc = genValues(rt, u.port)
			u.path = rapid.SampledFrom([]string{"/", "/shop", "/a/b.c"}).Draw(rt, "path")
			u.auth = rapid.SampledFrom([]string{"Bearer forged.by.client", "Basic YTpi", "Bearer a.b.c d.e.f", "x"}).Draw(rt, "auth")
			us = append(us, u)
		}
		one := func(u *unit) string {
			a := u.a
			docs, err := renderChart(u.over, "r")
			if err != nil {
				return fmt.Sprintf("the chart is not rendered: %v", err)
			}
			if bad := wiring(docs, u.over); bad != "" {
				return bad
			}
			pod, _ := at(ofKind(docs, "Deployment")[0], "spec", "template", "spec").(doc)
			podNS := text(ofKind(docs, "Deployment")[0], "metadata", "namespace")
			var args []string
			for _, x := range append(list(pod, "containers", 0, "command"), list(pod, "containers", 0, "args")...) {
				args = append(args, fmt.Sprint(x))
			}
			if len(list(pod, "containers", 0, "command")) > 0 {
				args = args[1:]
			}
			// the cookie keys the chart makes
			var given [2][]byte
			for _, s := range ofKind(docs, "Secret") {
				if text(s, "metadata", "name") != cookieKeySecret || text(s, "metadata", "namespace") != "istio-system" {
					continue
				}
				data := doc{}
				for k, v := range mergeDocs(doc{}, docOrNil(at(s, "data"))) {
					data[k] = v
				}
				for k, v := range docOrNil(at(s, "stringData")) {
					data[k] = base64.StdEncoding.EncodeToString([]byte(fmt.Sprint(v)))
				}
				for i, k := range []string{"HASH_KEY", "BLOCK_KEY"} {
					b, err := base64.StdEncoding.DecodeString(text(data, k))
					if err != nil {
						return "the secret is not base64"
					}
					given[i] = b
				}
				a.c.mu.Lock()
				a.c.putLocked(kSecret, "istio-system", cookieKeySecret, map[string]interface{}{"data": data})
				a.c.mu.Unlock()
			}
			if given[0] == nil && text(u.over, "appName") == "" {
				return "the chart makes no cookie keys"
			}
			i := 0
			for ; a.steps[i].Op != "start"; i++ {
				a.apply(a.steps[i])
			}
			defer func() {
				a.c.srv.CloseClientConnections()
				go a.c.srv.Close()
			}()
			p := spawn(t, a.c, home, args...)
			defer func() { p.kill() }()
			l, w, bad := connect(p, a.c, u.port)
			if bad != "" {
				return fmt.Sprintf("%s (arguments %s)", bad, strings.ReplaceAll(strings.Join(args, " "), fmt.Sprint(u.port), "PORT"))
			}
			defer func() { _ = w.conn.Close() }()
			m, bad := newMesh(w.conn, docs)
			if bad != "" {
				return bad
			}
			l.h = m
			a.l = l
			if a.rest(i + 1); a.bad != "" {
				return a.bad + a.log()
			}
			app := newApp(l, nil)
			defer app.tn.close()
			if !l.sync() {
				return "the process does not pick up its configuration"
			}
			b := &Browser{}
			g := grant{access: app.accessToken(nil), id: app.idToken(nil), ref: "r1"}
			if ans := b.login(app, u.path, "code", g); !ans.Redirect() || ans.Header("location") != "https://shop.example.com"+u.path {
				return "login through the mesh: " + ans.everything()
			}
			if ans := b.send(app, app.req(u.path)); !ans.OK() || ans.Auth != "Bearer "+g.access+" "+g.id {
				return "session through the mesh: " + ans.everything()
			}
			own := app.req(u.path)
			own.Auth = u.auth
			if ans := b.send(app, own); !ans.OK() || ans.Auth != "Bearer "+g.access+" "+g.id {
				return "session through the mesh, from a client with an Authorization of its own: " + ans.everything()
			}
			r := app.req(strings.TrimSuffix(u.path, "/") + "/oidc/callback")
			r.Error = "access_denied"
			if ans := app.send(r); ans.OK() || ans.Redirect() {
				return "a failed login through the mesh: " + ans.everything()
			}
			hash, block := l.cookieKeys()
			if n := number(at(u.over, "keys", "hashKeySize")); int64(len(hash)) != n {
				return fmt.Sprintf("the hash key has %d bytes, asked for were %d", len(hash), n)
			}
			if n := number(at(u.over, "keys", "blockKeySize")); int64(len(block)) != n {
				return fmt.Sprintf("the block key has %d bytes, asked for were %d", len(block), n)
			}
			if given[0] != nil && !(bytes.Equal(hash, given[0]) && bytes.Equal(block, given[1])) {
				return "the chart's cookie keys are not used"
			}
			if ans := b.send(app, app.req(strings.TrimSuffix(u.path, "/")+"/oidc/logout")); !ans.Redirect() {
				return "logout through the mesh: " + ans.everything()
			}
			if ans := b.send(app, app.req(u.path)); !app.isLogin(ans) {
				return "logged out through the mesh, then: " + ans.everything()
			}
			a.c.mu.Lock()
			calls := sortedKeys(a.c.calls)
			a.c.mu.Unlock()
			for _, call := range calls {
				if !permitted(docs, pod, podNS, call) {
					return fmt.Sprintf("the chart's roles do not permit %q", call)
				}
			}
			if len(calls) < 6 {
				return fmt.Sprintf("only %d kinds of calls were seen", len(calls))
			}
			return ""
		}
		var wg sync.WaitGroup
		for _, u := range us {
			wg.Add(1)
			go func(u *unit) { defer wg.Done(); u.bad = one(u) }(u)
		}
		wg.Wait()
		tn.forget()
		for _, u := range us {
			if u.bad != "" {
				rt.Fatalf("values %s: %s", u.desc, stripRandom(scrubPorts(u.bad)))
			}
			ev.Case(u.desc+fmt.Sprint(u.a.steps), true, func() interface{} {
				return map[string]interface{}{"values": u.over, "history": u.a.steps}
			})
			for k, n := range u.a.asked {
				ev.LabelN("decided through the mesh: "+k, n)
			}
		}
	})
}

func docOrNil(v interface{}) doc { d, _ := v.(doc); return d }
