package harness

import (
	_ "embed"
	"go/ast"
	"go/parser"
	gotoken "go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// ------------------------------------------------------------------
// A dictionary for the generators, as fuzzers keep one: the string and integer
// literals of the code under test. Special cases are written with such literals,
// and inputs near them are unlikely to be guessed. Literals which the tree these
// checks were written for did not have (words.txt) are drawn first, which directs
// the search at what has changed. The dictionary only chooses inputs: what is
// right for them is the oracle's matter alone.

//go:embed words.txt
var knownWords string

type lexicon struct {
	words, fresh []string
	ints         []int // fresh integer literals
}

var lexOnce sync.Once
var lex lexicon

// plain are words with a meaning to web servers in general.
var plain = []string{".well-known", "healthz", "health", "favicon.ico", "robots.txt", "metrics", "static", "public", "internal", "admin", "login",
	"..", ".", "%2e%2e", "%61", "%2F", "a;b", ";", ";v=1", "a,b", "~", "+", "@", ":", "*", "a b", "index.html", "x.css", "a=b", "-", "_", "null", "true", "0"}

// literals collects the literals of the code under dir, as "s text" and "i 12".
func literals(dir string) map[string]bool {
	out := map[string]bool{}
	add := func(s string) {
		if strings.Count(s, " ") > 2 { // prose
			return
		}
		for _, p := range append([]string{s}, strings.FieldsFunc(s, func(r rune) bool { return r == '/' || r == ' ' || r == '=' || r == '%' })...) {
			if len(p) > 0 && len(p) <= 40 && !strings.ContainsAny(p, "\n\x00") {
				out["s "+p] = true
			}
		}
	}
	for _, root := range []string{"adapter", "cmd"} {
		_ = filepath.Walk(filepath.Join(dir, root), func(path string, info os.FileInfo, err error) error {
			if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
				return nil
			}
			file, err := parser.ParseFile(gotoken.NewFileSet(), path, nil, 0)
			if err != nil {
				return nil
			}
			ast.Inspect(file, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.Field:
					return x.Tag == nil
				case *ast.CallExpr: // texts for people
					if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
						switch sel.Sel.Name {
						case "Debug", "Info", "Warn", "Error", "Fatal", "Debugf", "Infof", "Warnf", "Errorf", "Fatalf", "String", "Int":
							return false
						}
					}
				case *ast.BasicLit:
					switch x.Kind {
					case gotoken.STRING:
						if s, err := strconv.Unquote(x.Value); err == nil {
							add(s)
						}
					case gotoken.CHAR:
						if s, err := strconv.Unquote(x.Value); err == nil {
							add(s)
						}
					case gotoken.INT:
						if i, err := strconv.ParseInt(x.Value, 0, 32); err == nil && i > 2 {
							out["i "+strconv.FormatInt(i, 10)] = true
						}
					}
				}
				return true
			})
			return nil
		})
	}
	return out
}

func lexical() *lexicon {
	lexOnce.Do(func() {
		known := map[string]bool{}
		for _, l := range strings.Split(knownWords, "\n") {
			known[l] = true
		}
		seen := map[string]bool{}
		for _, w := range plain {
			seen[w] = true
			lex.words = append(lex.words, w)
		}
		all := sortedKeys(literals(repoDir()))
		for _, l := range all {
			if strings.HasPrefix(l, "i ") {
				if i, _ := strconv.Atoi(l[2:]); !known[l] {
					lex.ints = append(lex.ints, i)
				}
				continue
			}
			w := l[2:]
			if !known[l] {
				lex.fresh = append(lex.fresh, w)
			}
			if !seen[w] {
				lex.words = append(lex.words, w)
			}
		}
		sort.Ints(lex.ints)
	})
	return &lex
}

// word draws a word of the dictionary.
func word(t *rapid.T, label string) string {
	l := lexical()
	if len(l.fresh) > 0 && rapid.IntRange(0, 3).Draw(t, label+"-fresh") > 0 {
		return rapid.SampledFrom(l.fresh).Draw(t, label+"-word")
	}
	return rapid.SampledFrom(l.words).Draw(t, label+"-word")
}

// many is 0 most of the time: how much more of something there is.
func many(t *rapid.T, label string) int {
	return rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 9, 17, 40}).Draw(t, label)
}

// rarely says whether to use the dictionary here: more often if there are fresh words.
func rarely(t *rapid.T, label string) bool {
	n := 24
	if len(lexical().fresh) > 0 {
		n = 6
	}
	return rapid.IntRange(0, n).Draw(t, label+"-rare") == n
}

// spiced is base, or sometimes a word, or base and a word, that fits.
func spiced(t *rapid.T, label, base string, fits func(string) bool) string {
	if !rarely(t, label) {
		return base
	}
	w := word(t, label)
	switch rapid.IntRange(0, 5).Draw(t, label+"-mix") {
	case 1:
		w = base + w
	case 2:
		w = w + base
	case 3:
		w = strings.ToUpper(w)
	case 4:
		if i := rapid.IntRange(0, len(base)).Draw(t, label+"-at"); i > 0 {
			w = base[:i] + w + base[i:]
		}
	}
	if fits != nil && !fits(w) {
		return base
	}
	return w
}

// sized draws a length near an integer literal that is new, or else n.
func sized(t *rapid.T, label string, n int) int {
	l := lexical()
	if len(l.ints) == 0 || rapid.IntRange(0, 3).Draw(t, label+"-sized") > 0 {
		return n
	}
	i := rapid.SampledFrom(l.ints).Draw(t, label+"-size") + rapid.IntRange(-1, 1).Draw(t, label+"-off")
	if i < 0 || i > 1<<17 {
		return n
	}
	return i
}

// statusFrom is one of the statuses given, or one the code has a new special case for.
func statusFrom(t *rapid.T, label string, given ...int) int {
	for _, i := range lexical().ints {
		if i >= 200 && i < 600 && rapid.IntRange(0, 2).Draw(t, label+"-new") == 0 {
			return i
		}
	}
	return rapid.SampledFrom(given).Draw(t, label)
}

func isSegment(s string) bool {
	return s != "" && !strings.ContainsAny(s, "/*") && strings.TrimSpace(s) == s
}

func isPrintable(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' || s[i] > '~' {
			return false
		}
	}
	return s != ""
}

// strayCookies is sometimes a cookie or two of other names, with one of the values or a word.
func strayCookies(t *rapid.T, label string, values ...string) (out string) {
	if !rarely(t, label) && rapid.IntRange(0, 9).Draw(t, label+"-stray") > 0 {
		return ""
	}
	for n := rapid.IntRange(1, 2).Draw(t, label+"-count"); n > 0; n-- {
		name := word(t, label+"-name")
		v := rapid.SampledFrom(append([]string{"1", "true", "x", ""}, values...)).Draw(t, label+"-value")
		if rapid.IntRange(0, 3).Draw(t, label+"-value-word") == 0 {
			v = word(t, label+"-value")
		}
		if strings.HasPrefix(name, "oidc-") || !isPrintable(name) || strings.ContainsAny(name, "()<>@,;:\\\"/[]?={} ") || strings.ContainsAny(v, " \t;,\"\\") {
			continue
		}
		out += name + "=" + v + "; "
	}
	return out
}

// of: made of the characters of set (a-z stands for letters, 0-9 for digits) and no others.
func of(set string) func(string) bool {
	set = strings.NewReplacer("A-Z", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "a-z", "abcdefghijklmnopqrstuvwxyz", "0-9", "0123456789").Replace(set)
	return func(s string) bool { return s != "" && all(s, set) }
}

func all(s, set string) bool {
	for _, r := range s {
		if !strings.ContainsRune(set, r) {
			return false
		}
	}
	return true
}

var (
	isName       = of("A-Za-z0-9_-")
	isCookieName = of("A-Za-z0-9._!~|-")
	isHost       = of("A-Za-z0-9.-")
	isDNS        = of("a-z0-9")
	isB64Text    = of("A-Za-z0-9._~+/-")
	isScope      = of("A-Za-z0-9._~+/:&=?-")
)

// isPathSeg: may stand between two slashes of a path, as the proxy reports it.
func isPathSeg(s string) bool {
	return isSegment(s) && isPrintable(s) && !strings.ContainsAny(s, "?#")
}

// decorated adds, to some requests to an API, what must not matter there.
func decorated(t *rapid.T, r Req) Req {
	if !rarely(t, "decorated") && rapid.IntRange(0, 7).Draw(t, "plain-request") > 0 {
		return r
	}
	for _, what := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"host", "scheme", "cookies", "method", "segment", "code", "state", "error"}), 1, 4, rapid.ID).Draw(t, "decorations") {
		switch what {
		case "host":
			r.Host = spiced(t, what, rapid.SampledFrom([]string{"shop.example.com", "localhost:8080", "10.0.0.1"}).Draw(t, what), isHost)
		case "scheme":
			r.Scheme = rapid.SampledFrom([]string{"http", "https", "grpc"}).Draw(t, what)
		case "cookies":
			r.Cookies = strayCookies(t, what, "x") + rapid.SampledFrom([]string{"a=b", "oidc-cookie-client=x", "session=1; b=2", "access_token=x"}).Draw(t, what)
		case "method":
			r.Method = genMethod(t)
		case "segment":
			r.Path = strings.TrimSuffix(r.Path, "/") + "/" + spiced(t, what, rapid.SampledFrom([]string{"x", "oidc/callback", "oidc/logout", "x/oidc/callback", "a.html", ".well-known/jwks.json", "healthz"}).Draw(t, what), isPathSeg)
		case "code":
			r.Code = spiced(t, what, "code", nil)
		case "state":
			r.State = spiced(t, what, "state", nil)
		case "error":
			r.Error = spiced(t, what, "access_denied", nil)
		}
	}
	return r
}

// unrelated adds an Authorization of its own to some requests of browsers, which must not matter.
func unrelated(t *rapid.T, r Req, tokens ...string) Req {
	if rarely(t, "unrelated") || rapid.IntRange(0, 7).Draw(t, "own-authorization") == 0 {
		r.Auth = rapid.SampledFrom([]string{"Basic YTpi", "Bearer x.y.z", "Bearer", "x", "Bearer "}).Draw(t, "authorization")
		if len(tokens) > 0 && rapid.Bool().Draw(t, "with-tokens") {
			r.Auth = "Bearer " + strings.Join(tokens, " ")
		}
		r.Auth = spiced(t, "authorization-word", r.Auth, nil)
	}
	return r
}
