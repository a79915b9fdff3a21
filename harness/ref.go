package harness

import (
	"strconv"
	"strings"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

// ------------------------------------------------------------------
// Reference evaluator for claim rules (C06), written from the README.

// claimValues lists the values a claim holds; ok=false if its type is unsupported.
func claimValues(cl interface{}, path []string) (vals []string, ok bool) {
	cur := cl
	for _, p := range path {
		obj, isObj := cur.(map[string]interface{})
		if !isObj {
			return nil, true // absent
		}
		next, present := obj[p]
		if !present {
			return nil, true
		}
		cur = next
	}
	scalar := func(x interface{}) (string, bool) {
		switch v := x.(type) {
		case string:
			return v, true
		case bool:
			if v {
				return "true", true
			}
			return "false", true
		case float64:
			return strconv.FormatFloat(v, 'f', -1, 64), true
		case int:
			return strconv.Itoa(v), true
		case int64:
			return strconv.FormatInt(v, 10), true
		}
		return "", false
	}
	switch v := cur.(type) {
	case nil:
		return nil, true
	case string:
		return strings.Split(v, " "), true
	case []interface{}:
		for _, x := range v {
			s, good := scalar(x)
			if !good {
				return nil, false
			}
			vals = append(vals, s)
		}
		return vals, true
	default:
		s, good := scalar(v)
		if !good {
			return nil, false
		}
		return []string{s}, true
	}
}

func ruleHolds(r v1.Rule, cl claims) bool {
	vals, ok := claimValues(map[string]interface{}(cl), strings.Split(r.Claim, "."))
	if !ok {
		return false
	}
	n := 0
	for _, want := range r.Values {
		if contains(vals, want) {
			n++
		}
	}
	switch r.Match {
	case "ANY":
		return n > 0
	case "NOT":
		return n == 0
	default:
		return len(r.Values) > 0 && n == len(r.Values)
	}
}

const (
	accessTok = "access_token"
	idTok     = "id_token"
)

// rulesHold: do all rules for this kind of token hold?
func rulesHold(rules []v1.Rule, kind string, cl claims) bool {
	for _, r := range rules {
		src := r.Source
		if src == "" {
			src = accessTok
		}
		if src == kind && !ruleHolds(r, cl) {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------------
// Reference resolver for policies (C02, C03): which entries may decide a request.

// Entry is one live protected endpoint: what some Policy says about one path.
type Entry struct {
	NS, Svc string
	Exact   string // "" if a prefix entry
	Prefix  string
	Method  string // as written; "" = ALL
	Tags    []string
	Empty   bool // no policies listed
}

// segments of a path; "/" and "" have none.
func segments(p string) []string {
	p = strings.Trim(p, "/")
	if p == "" {
		return nil
	}
	return strings.Split(p, "/")
}

func samePath(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func hasPrefixPath(p, pre []string) bool { return len(p) >= len(pre) && samePath(p[:len(pre)], pre) }

func stripOIDC(p string) string {
	for _, ep := range []string{"/oidc/callback", "/oidc/logout"} {
		if strings.HasSuffix(p, ep) {
			return strings.TrimSuffix(p, ep)
		}
	}
	return p
}

var knownMethods = map[string]bool{"GET": true, "PUT": true, "POST": true, "DELETE": true, "PATCH": true}

// entryMethod is the method an entry protects ("ALL" for anything not in the enum).
func entryMethod(m string) string {
	if knownMethods[m] {
		return m
	}
	return "ALL"
}

// resolve returns the tag sets of which one must decide the request; nil = unprotected.
// More than one candidate only if several live entries claim the same endpoint and method.
func resolve(live []Entry, ns, svc, path, method string) []string {
	p := segments(stripOIDC(path))
	var scope []Entry
	for _, e := range live {
		if e.NS == ns && e.Svc == svc && !e.Empty { // an entry without policies protects nothing
			scope = append(scope, e)
		}
	}
	level := func(at func(Entry) bool) (tags []string) {
		for _, m := range []string{entryMethod(method), "ALL"} {
			for _, e := range scope {
				if at(e) && entryMethod(e.Method) == m {
					tags = append(tags, e.Tags[0])
				}
			}
			if tags != nil {
				return tags
			}
		}
		return nil
	}
	if tags := level(func(e Entry) bool { return e.Exact != "" && samePath(segments(e.Exact), p) }); tags != nil {
		return tags
	}
	for n := len(p); n >= 0; n-- {
		if tags := level(func(e Entry) bool {
			return e.Prefix != "" && samePath(segments(strings.TrimSuffix(e.Prefix, "*")), p[:n])
		}); tags != nil {
			return tags
		}
	}
	return nil
}
