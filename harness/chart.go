package harness

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"text/template"

	"github.com/gogo/protobuf/proto"
	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
	"sigs.k8s.io/yaml"
)

// The Helm chart, rendered by a stand-in for helm, and what a cluster and a mixer make of it.

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func chartDir() string { return repoDir() + "/helm/appidentityandaccessadapter" }

// readYAML reads the documents of a file as JSON values.
func readYAML(b []byte) (out []doc, err error) {
	text := strings.ReplaceAll(strings.ReplaceAll(string(b), "\r\n", "\n"), "\r", "\n")
	for _, part := range regexp.MustCompile(`(?m)^---[^\n]*$`).Split(text, -1) {
		j, err := yaml.YAMLToJSON([]byte(part))
		if err != nil {
			return nil, err
		}
		var d doc
		if err := json.Unmarshal(j, &d); err != nil {
			return nil, err
		}
		if d != nil {
			out = append(out, d)
		}
	}
	return out, nil
}

func mergeDocs(into, from doc) doc {
	for k, v := range from {
		if m, ok := v.(doc); ok {
			if old, ok := into[k].(doc); ok {
				into[k] = mergeDocs(old, m)
				continue
			}
		}
		into[k] = v
	}
	return into
}

func number(v interface{}) int64 {
	switch x := v.(type) {
	case int:
		return int64(x)
	case int64:
		return x
	case float64:
		return int64(x)
	case string:
		n, _ := strconv.ParseInt(x, 0, 64)
		return n
	}
	return 0
}

func empty(v interface{}) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Map, reflect.Slice, reflect.String:
		return r.Len() == 0
	}
	return r.IsZero()
}

func indent(n int, s string) string {
	return strings.Repeat(" ", n) + strings.ReplaceAll(s, "\n", "\n"+strings.Repeat(" ", n))
}

// renderChart renders every template of the chart with its values, some of them overridden.
func renderChart(over doc, release string) ([]doc, error) {
	values, err := os.ReadFile(chartDir() + "/values.yaml")
	if err != nil {
		return nil, err
	}
	vs, err := readYAML(values)
	if err != nil || len(vs) != 1 {
		return nil, fmt.Errorf("values.yaml: %v", err)
	}
	meta, err := os.ReadFile(chartDir() + "/Chart.yaml")
	if err != nil {
		return nil, err
	}
	ms, err := readYAML(meta)
	if err != nil || len(ms) != 1 {
		return nil, fmt.Errorf("Chart.yaml: %v", err)
	}
	ch := doc{}
	for k, v := range ms[0] {
		ch[strings.ToUpper(k[:1])+k[1:]] = v
	}
	ctx := doc{"Values": mergeDocs(vs[0], over), "Chart": ch, "Release": doc{"Name": release, "Service": "Tiller", "Namespace": "istio-system", "IsInstall": true, "IsUpgrade": false, "Revision": 1},
		"Capabilities": doc{"KubeVersion": doc{"Major": "1", "Minor": "14", "GitVersion": "v1.14.0"}}, "Template": doc{"Name": "t", "BasePath": "templates"}}
	alnum := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[rand.Intn(62)]
		}
		return string(b)
	}
	str := func(v interface{}) string {
		if v == nil {
			return ""
		}
		return fmt.Sprint(v)
	}
	toYaml := func(v interface{}) string { b, _ := yaml.Marshal(v); return strings.TrimSuffix(string(b), "\n") }
	t := template.New("chart").Option("missingkey=zero")
	t.Funcs(template.FuncMap{
		"int": func(v interface{}) int { return int(number(v)) }, "int64": number, "atoi": func(s string) int { return int(number(s)) }, "toString": str,
		"quote": func(v ...interface{}) string {
			var out []string
			for _, x := range v {
				if x != nil {
					out = append(out, strconv.Quote(str(x)))
				}
			}
			return strings.Join(out, " ")
		},
		"squote": func(v interface{}) string { return "'" + str(v) + "'" },
		"b64enc": func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) },
		"b64dec": func(s string) string { b, _ := base64.StdEncoding.DecodeString(s); return string(b) },
		"default": func(d interface{}, v ...interface{}) interface{} {
			if len(v) == 0 || empty(v[0]) {
				return d
			}
			return v[0]
		},
		"required": func(msg string, v interface{}) (interface{}, error) {
			if empty(v) {
				return nil, fmt.Errorf("%s", msg)
			}
			return v, nil
		},
		"empty": empty, "randAlphaNum": alnum, "randAlpha": alnum, "randAscii": alnum,
		"upper": strings.ToUpper, "lower": strings.ToLower, "title": strings.Title, "trim": strings.TrimSpace,
		"trimSuffix": func(a, s string) string { return strings.TrimSuffix(s, a) }, "trimPrefix": func(a, s string) string { return strings.TrimPrefix(s, a) },
		"trimAll": func(a, s string) string { return strings.Trim(s, a) },
		"trunc": func(n int, s string) string {
			if len(s) > n {
				return s[:n]
			}
			return s
		},
		"replace": func(a, b, s string) string { return strings.ReplaceAll(s, a, b) }, "contains": func(a, s string) bool { return strings.Contains(s, a) },
		"hasPrefix": func(a, s string) bool { return strings.HasPrefix(s, a) }, "hasSuffix": func(a, s string) bool { return strings.HasSuffix(s, a) },
		"indent": indent, "nindent": func(n int, s string) string { return "\n" + indent(n, s) }, "toYaml": toYaml, "toJson": mustJSON,
		"list": func(v ...interface{}) []interface{} { return v }, "join": func(sep string, v interface{}) string {
			var out []string
			r := reflect.ValueOf(v)
			for i := 0; i < r.Len(); i++ {
				out = append(out, str(r.Index(i).Interface()))
			}
			return strings.Join(out, sep)
		},
		"dict": func(v ...interface{}) doc {
			d := doc{}
			for i := 0; i+1 < len(v); i += 2 {
				d[str(v[i])] = v[i+1]
			}
			return d
		},
		"ternary": func(a, b interface{}, c bool) interface{} {
			if c {
				return a
			}
			return b
		},
		"coalesce": func(v ...interface{}) interface{} {
			for _, x := range v {
				if !empty(x) {
					return x
				}
			}
			return nil
		},
		"add": func(a, b interface{}) int64 { return number(a) + number(b) }, "sub": func(a, b interface{}) int64 { return number(a) - number(b) },
		"mul": func(a, b interface{}) int64 { return number(a) * number(b) },
		"div": func(a, b interface{}) int64 { return number(a) / number(b) },
		"include": func(name string, data interface{}) (string, error) {
			var b bytes.Buffer
			err := t.ExecuteTemplate(&b, name, data)
			return b.String(), err
		},
		"tpl": func(s string, data interface{}) (string, error) {
			c, err := t.Clone()
			if err != nil {
				return "", err
			}
			if c, err = c.New("tpl").Parse(s); err != nil {
				return "", err
			}
			var b bytes.Buffer
			err = c.Execute(&b, data)
			return b.String(), err
		},
		"fail": func(msg string) (string, error) { return "", fmt.Errorf("%s", msg) },
	})
	files, _ := filepath.Glob(chartDir() + "/templates/*")
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if _, err := t.New(filepath.Base(f)).Parse(string(b)); err != nil {
			return nil, err
		}
	}
	var out []doc
	for _, f := range files {
		if !strings.HasSuffix(f, ".yaml") && !strings.HasSuffix(f, ".yml") {
			continue
		}
		var b bytes.Buffer
		if err := t.ExecuteTemplate(&b, filepath.Base(f), ctx); err != nil {
			return nil, err
		}
		text := strings.ReplaceAll(b.String(), "<no value>", "")
		ds, err := readYAML([]byte(text))
		if err != nil {
			return nil, fmt.Errorf("%s: %v", filepath.Base(f), err)
		}
		out = append(out, ds...)
	}
	return out, nil
}

// at walks maps and lists; nil where there is nothing.
func at(v interface{}, path ...interface{}) interface{} {
	for _, p := range path {
		switch k := p.(type) {
		case string:
			m, _ := v.(doc)
			v = m[k]
		case int:
			l, _ := v.([]interface{})
			if k >= len(l) {
				return nil
			}
			v = l[k]
		}
	}
	return v
}

func text(v interface{}, path ...interface{}) string {
	if v = at(v, path...); v == nil {
		return ""
	}
	return fmt.Sprint(v)
}

func list(v interface{}, path ...interface{}) []interface{} {
	l, _ := at(v, path...).([]interface{})
	return l
}

func ofKind(docs []doc, kind string) (out []doc) {
	for _, d := range docs {
		if strings.EqualFold(text(d, "kind"), kind) {
			out = append(out, d)
		}
	}
	return out
}

func subset(a, b interface{}) bool {
	for k, v := range a.(doc) {
		if text(b, k) != fmt.Sprint(v) {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------------ access rules

// permitted tells whether the chart's roles let the deployment's account make a call.
func permitted(docs []doc, pod doc, podNS, call string) bool {
	parts := strings.SplitN(call, " ", 3)
	verb, ns := parts[0], parts[2]
	gr := strings.SplitN(parts[1], "/", 2)
	sa := text(pod, "serviceAccountName")
	if sa == "" {
		sa = text(pod, "serviceAccount")
	}
	if sa == "" {
		sa = "default"
	}
	has := func(l []interface{}, v string) bool {
		for _, x := range l {
			if x == "*" || x == v {
				return true
			}
		}
		return false
	}
	for _, b := range append(ofKind(docs, "ClusterRoleBinding"), ofKind(docs, "RoleBinding")...) {
		bound := false
		for _, s := range list(b, "subjects") {
			switch text(s, "kind") {
			case "ServiceAccount":
				bound = bound || text(s, "name") == sa && text(s, "namespace") == podNS
			case "Group":
				g := text(s, "name")
				bound = bound || g == "system:serviceaccounts" || g == "system:serviceaccounts:"+podNS || g == "system:authenticated"
			case "User":
				bound = bound || text(s, "name") == "system:serviceaccount:"+podNS+":"+sa
			}
		}
		if !bound || text(b, "kind") == "RoleBinding" && text(b, "metadata", "namespace") != ns {
			continue
		}
		name := text(b, "roleRef", "name")
		if name == "cluster-admin" {
			return true
		}
		for _, r := range ofKind(docs, text(b, "roleRef", "kind")) {
			if text(r, "metadata", "name") != name {
				continue
			}
			for _, rule := range list(r, "rules") {
				if has(list(rule, "verbs"), verb) && has(list(rule, "apiGroups"), gr[0]) && has(list(rule, "resources"), gr[1]) && len(list(rule, "resourceNames")) == 0 {
					return true
				}
			}
		}
	}
	return false
}

// ------------------------------------------------------------------ custom resource definitions

// schemaErr says how a value breaks an OpenAPI v3 schema; "" if it does not.
func schemaErr(s interface{}, v interface{}, where string) string {
	sch, ok := s.(doc)
	if !ok {
		return ""
	}
	if v == nil {
		if sch["nullable"] == true {
			return ""
		}
		return where + " is null"
	}
	kind := map[bool]string{}
	switch x := v.(type) {
	case string:
		kind[true] = "string"
	case bool:
		kind[true] = "boolean"
	case []interface{}:
		kind[true] = "array"
	case doc:
		kind[true] = "object"
	case float64:
		kind[true] = "number"
		if x == float64(int64(x)) {
			kind[false] = "integer"
		}
	}
	if t := text(sch, "type"); t != "" && t != kind[true] && t != kind[false] {
		return fmt.Sprintf("%s is no %s", where, t)
	}
	if e := list(sch, "enum"); e != nil {
		found := false
		for _, x := range e {
			found = found || reflect.DeepEqual(x, v)
		}
		if !found {
			return fmt.Sprintf("%s: %v is not among %v", where, v, e)
		}
	}
	limit := func(key string) (float64, bool) { f, ok := sch[key].(float64); return f, ok }
	for _, sub := range list(sch, "allOf") {
		if bad := schemaErr(sub, v, where); bad != "" {
			return bad
		}
	}
	for _, key := range []string{"anyOf", "oneOf"} {
		if subs := list(sch, key); subs != nil {
			n := 0
			for _, sub := range subs {
				if schemaErr(sub, v, where) == "" {
					n++
				}
			}
			if n == 0 || key == "oneOf" && n > 1 {
				return where + " breaks " + key
			}
		}
	}
	if sub, ok := sch["not"]; ok && schemaErr(sub, v, where) == "" {
		return where + " breaks not"
	}
	switch x := v.(type) {
	case string:
		if p := text(sch, "pattern"); p != "" {
			re, err := regexp.Compile(p)
			if err != nil {
				return where + ": bad pattern"
			}
			if !re.MatchString(x) {
				return fmt.Sprintf("%s: %q does not match the pattern", where, x)
			}
		}
		n := float64(len([]rune(x)))
		if l, ok := limit("minLength"); ok && n < l {
			return where + " is too short"
		}
		if l, ok := limit("maxLength"); ok && n > l {
			return where + " is too long"
		}
	case []interface{}:
		if l, ok := limit("minItems"); ok && float64(len(x)) < l {
			return where + " has too few items"
		}
		if l, ok := limit("maxItems"); ok && float64(len(x)) > l {
			return where + " has too many items"
		}
		for i, e := range x {
			if sch["uniqueItems"] == true {
				for _, f := range x[:i] {
					if reflect.DeepEqual(e, f) {
						return where + " repeats an item"
					}
				}
			}
			if bad := schemaErr(sch["items"], e, fmt.Sprintf("%s[%d]", where, i)); bad != "" {
				return bad
			}
		}
	case doc:
		for _, r := range list(sch, "required") {
			if _, ok := x[fmt.Sprint(r)]; !ok {
				return fmt.Sprintf("%s lacks %v", where, r)
			}
		}
		props, _ := sch["properties"].(doc)
		for _, k := range sortedKeys(x) {
			if p, ok := props[k]; ok {
				if bad := schemaErr(p, x[k], where+"."+k); bad != "" {
					return bad
				}
			} else if sch["additionalProperties"] == false {
				return where + " must not have " + k
			}
		}
	}
	return ""
}

// ------------------------------------------------------------------ the mixer

// registry is a set of message descriptors by full name.
type registry struct {
	msgs map[string]*descriptor.DescriptorProto
	svcs map[string]*descriptor.ServiceDescriptorProto
}

func readDescriptors(b64 string) (*registry, error) {
	raw, err := base64.StdEncoding.DecodeString(b64)
	if err != nil {
		return nil, err
	}
	set := &descriptor.FileDescriptorSet{}
	if err := proto.Unmarshal(raw, set); err != nil {
		return nil, err
	}
	r := &registry{map[string]*descriptor.DescriptorProto{}, map[string]*descriptor.ServiceDescriptorProto{}}
	var add func(prefix string, ms []*descriptor.DescriptorProto)
	add = func(prefix string, ms []*descriptor.DescriptorProto) {
		for _, m := range ms {
			r.msgs[prefix+"."+m.GetName()] = m
			add(prefix+"."+m.GetName(), m.NestedType)
		}
	}
	for _, f := range set.File {
		add("."+f.GetPackage(), f.MessageType)
		for _, s := range f.Service {
			r.svcs["."+f.GetPackage()+"."+s.GetName()] = s
		}
	}
	return r, nil
}

// find is the full name of the only message called so.
func (r *registry) find(name string) (string, error) {
	var got []string
	for n := range r.msgs {
		if strings.HasSuffix(n, "."+name) {
			got = append(got, n)
		}
	}
	if len(got) != 1 {
		return "", fmt.Errorf("%d messages called %s", len(got), name)
	}
	return got[0], nil
}

func (r *registry) field(msg, name string) *descriptor.FieldDescriptorProto {
	if m := r.msgs[msg]; m != nil {
		for _, f := range m.Field {
			if f.GetName() == name {
				return f
			}
		}
	}
	return nil
}

// name is that of a message's field number.
func (r *registry) name(msg string, num int) string {
	if m := r.msgs[msg]; m != nil {
		for _, f := range m.Field {
			if int(f.GetNumber()) == num {
				return f.GetName()
			}
		}
	}
	return ""
}

// encode writes nested values by a message's descriptor.
func (r *registry) encode(msg string, vals doc) ([]byte, error) {
	var out []byte
	for _, k := range sortedKeys(vals) {
		f := r.field(msg, k)
		if f == nil {
			return nil, fmt.Errorf("%s has no field %s", msg, k)
		}
		if f.GetLabel() == descriptor.FieldDescriptorProto_LABEL_REPEATED {
			return nil, fmt.Errorf("%s of %s is repeated", k, msg)
		}
		switch v := vals[k].(type) {
		case string:
			if f.GetType() != descriptor.FieldDescriptorProto_TYPE_STRING {
				return nil, fmt.Errorf("%s of %s is no string", k, msg)
			}
			if v != "" {
				out = field(out, int(f.GetNumber()), []byte(v))
			}
		case []byte:
			out = field(out, int(f.GetNumber()), v)
		case doc:
			if f.GetType() != descriptor.FieldDescriptorProto_TYPE_MESSAGE {
				return nil, fmt.Errorf("%s of %s is no message", k, msg)
			}
			b, err := r.encode(f.GetTypeName(), v)
			if err != nil {
				return nil, err
			}
			out = field(out, int(f.GetNumber()), b)
		}
	}
	return out, nil
}

var (
	attrRe = regexp.MustCompile(`^([a-z][a-zA-Z_]*(?:\.[a-zA-Z_]+)*)(?:\["([^"]*)"\])?$`)
	altRe  = regexp.MustCompile(`\s*\|\s*`)
)

// evalExpr evaluates an attribute expression: alternatives of attributes, map entries and text.
func evalExpr(e string, attrs map[string]interface{}) (string, error) {
	for _, alt := range altRe.Split(strings.TrimSpace(e), -1) {
		if strings.HasPrefix(alt, `"`) {
			return strconv.Unquote(alt)
		}
		m := attrRe.FindStringSubmatch(alt)
		if m == nil {
			return "", fmt.Errorf("cannot read the expression %s", e)
		}
		switch v := attrs[m[1]].(type) {
		case string:
			if m[2] == "" {
				return v, nil
			}
		case map[string]string:
			if s, ok := v[m[2]]; ok && m[2] != "" {
				return s, nil
			}
		}
	}
	return "", fmt.Errorf("%s has no value", e)
}

// evalParams evaluates the parameters of an instance.
func evalParams(p doc, attrs map[string]interface{}) (doc, error) {
	out := doc{}
	for _, k := range sortedKeys(p) {
		switch v := p[k].(type) {
		case string:
			s, err := evalExpr(v, attrs)
			if err != nil {
				return nil, fmt.Errorf("%s: %v", k, err)
			}
			out[k] = s
		case doc:
			d, err := evalParams(v, attrs)
			if err != nil {
				return nil, err
			}
			out[k] = d
		default:
			return nil, fmt.Errorf("%s is no expression", k)
		}
	}
	return out, nil
}
