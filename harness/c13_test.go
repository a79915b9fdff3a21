package harness

import (
	crand "crypto/rand"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"

	"crypto/sha256"

	"pgregory.net/rapid"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
)

// stream is a reproducible stand-in for the system's cryptographic source; one byte may be replaced.
type stream struct {
	mu    sync.Mutex
	seed  uint64
	pos   int
	at    int // index of the replaced byte, -1 for none
	to    byte
	total int
}

func (s *stream) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := range p {
		var in [16]byte
		binary.BigEndian.PutUint64(in[:], s.seed)
		binary.BigEndian.PutUint64(in[8:], uint64(s.pos/32))
		sum := sha256.Sum256(in[:])
		p[i] = sum[s.pos%32]
		if s.pos == s.at {
			p[i] = s.to
		}
		s.pos++
	}
	s.total += len(p)
	return len(p), nil
}

// withSource runs f with the process's cryptographic source replaced.
func withSource(r io.Reader, f func()) {
	old := crand.Reader
	crand.Reader = r
	defer func() { crand.Reader = old }()
	f()
}

// issuer issues login states and session ids from one web strategy.
type issuer struct {
	a   *App
	r   *Replica
	act *engine.Action
}

func newIssuer(a *App) *issuer { return &issuer{a, newForeign(), a.action()} }

func (i *issuer) begin(req Req) (state, cookie string) {
	ans := i.r.do(req, i.act)
	_, q, ok := authRequest(ans)
	c := ans.SetCookie()
	if !ok || c == nil {
		return "", ""
	}
	return q.Get("state"), c.Value
}

// finish completes a login and returns the session id.
func (i *issuer) finish(req Req, state, cookie, code string) string {
	return i.finishWith(req, state, cookie, code, false)
}

// finishWith puts the login's cookie before or after the request's.
func (i *issuer) finishWith(req Req, state, cookie, code string, first bool) string {
	i.a.issue(code, grant{access: i.a.accessToken(nil), id: i.a.idToken(nil)})
	req.Path = strings.TrimSuffix(req.Path, "/") + "/oidc/callback"
	req.Code, req.State = code, state
	own := i.a.cookieName() + "=" + cookie
	if first {
		req.Cookies = strings.TrimSuffix(own+"; "+req.Cookies, "; ")
	} else {
		req.Cookies = strings.TrimPrefix(req.Cookies+"; ", "; ") + own
	}
	ans := i.r.do(req, i.act)
	if c := ans.SetCookie(); c != nil && ans.Redirect() && !i.a.isLogin(ans) {
		return c.Value
	}
	return ""
}

// common counts the positions at which all values agree.
func common(vals []string) int {
	n := 0
	for p := 0; p < len(vals[0]); p++ {
		same := true
		for _, v := range vals[1:] {
			same = same && p < len(v) && v[p] == vals[0][p]
		}
		if same {
			n++
		}
	}
	return n
}

// chi returns the chi-squared statistic of observed counts against a uniform distribution, in standard deviations.
func chi(counts []int, n int) float64 {
	e := float64(n) / float64(len(counts))
	x := 0.0
	for _, c := range counts {
		x += (float64(c) - e) * (float64(c) - e) / e
	}
	df := float64(len(counts) - 1)
	return (x - df) / math.Sqrt(2*df)
}

// judgeSample checks a sample of values: distinct, and enough independent, even positions.
func judgeSample(kind string, vals []string) string {
	seen := map[string]int{}
	for i, v := range vals {
		if v == "" {
			return fmt.Sprintf("%s %d was not issued", kind, i)
		}
		if j, dup := seen[v]; dup {
			return fmt.Sprintf("%s repeats after %d issues: values %d and %d", kind, i-j, j, i)
		}
		seen[v] = i
	}
	width := len(vals[0])
	alphabet := map[byte]int{}
	for _, v := range vals {
		if len(v) < width {
			width = len(v)
		}
	}
	for _, v := range vals {
		for p := 0; p < width; p++ {
			if _, ok := alphabet[v[p]]; !ok {
				alphabet[v[p]] = len(alphabet)
			}
		}
	}
	// Shannon entropy per position, and dependence between positions
	n := len(vals)
	bits := 0.0
	even := true
	for p := 0; p < width; p++ {
		counts := make([]int, len(alphabet))
		for _, v := range vals {
			counts[alphabet[v[p]]]++
		}
		h := 0.0
		for _, c := range counts {
			if c > 0 {
				f := float64(c) / float64(n)
				h -= f * math.Log2(f)
			}
		}
		bits += h
		if z := chi(counts, n); z > 12 {
			even = false
		}
	}
	if bits < 50 {
		return fmt.Sprintf("%s carries at most %.1f bits", kind, bits)
	}
	if !even && bits < 64 { // an uneven alphabet must make up for it
		return fmt.Sprintf("%s is not drawn evenly and carries only %.1f bits", kind, bits)
	}
	if k := len(alphabet); n >= 4*k*k {
		dependent := 0.0
		for p := 0; p < width; p++ {
			for q := p + 1; q < width; q++ {
				pair := make([]int, k*k)
				for _, v := range vals {
					pair[alphabet[v[p]]*k+alphabet[v[q]]]++
				}
				if z := chi(pair, n); even && z > 12 {
					h := 0.0
					for _, c := range pair {
						if c > 0 {
							f := float64(c) / float64(n)
							h -= f * math.Log2(f)
						}
					}
					dependent += 2*math.Log2(float64(k)) - h
				}
			}
		}
		if bits-dependent < 50 {
			return fmt.Sprintf("%s: positions depend on each other (%.1f bits, of which %.1f shared)", kind, bits, dependent)
		}
	}
	return ""
}

const childEnv = "VERIF_C13_CHILD"

// TestC13Child is the body of the other adapter processes; it only runs as their main.
func TestC13Child(t *testing.T) {
	if os.Getenv(childEnv) == "" {
		t.Skip()
	}
	a := newSolo(nil, nil)
	defer a.close()
	iss := newIssuer(a)
	for i := 0; i < 300; i++ {
		s, c := iss.begin(a.req("/x"))
		id := ""
		if i < 100 {
			id = iss.finish(a.req("/x"), s, c, "code")
		}
		fmt.Printf("VALUE %s %s\n", s, id)
	}
}

func TestC13(t *testing.T) {
	ev := newEvidence("C13", "states and session ids issued (a) in a row, concurrently and by several processes started together: none repeats, each position is even and independent, at least 50 bits; (b) with the cryptographic source replaced by a drawn, reproducible stream: the same stream must give the same value (so nothing else, like the clock, decides it), and replacing single bytes of the stream must reach at least 2^50 values; (c) with drawn client-supplied cookies, codes, paths and states: the id is none of them; non-trivial: every value",
		"crypto/rand is the unpredictable source", "statistics cannot prove uniformity; thresholds are 12 standard deviations")
	defer ev.Write(t)

	// (b) and (c)
	run(t, ev, "source", 15, 400, func(rt *rapid.T) {
		a := newSolo(nil, func(a *App) {
			a.spec.ClientID = rapid.SampledFrom([]string{"client", "c-2", "3f1a"}).Draw(rt, "client")
		})
		defer a.close()
		iss := newIssuer(a)
		seed := rapid.Uint64().Draw(rt, "stream")
		session := rapid.IntRange(0, 3).Draw(rt, "what") == 0
		kind := "state"
		if session {
			kind = "session id"
		}
		n := 0
		draw := func(s *stream) (v string) {
			req := a.req("/x")
			if !session {
				withSource(s, func() { v, _ = iss.begin(req) })
				return v
			}
			st, c := iss.begin(req)
			n++
			withSource(s, func() { v = iss.finish(req, st, c, fmt.Sprintf("code%d", n)) })
			return v
		}
		var vals []string
		for i := 0; i < 6; i++ {
			vals = append(vals, draw(&stream{seed: seed, at: -1}))
		}
		if vals[0] == "" {
			rt.Fatalf("no %s issued", kind)
		}
		ev.Case(kind+vals[0], true, func() interface{} { return map[string]interface{}{"kind": kind, "stream": seed, "value": vals[0]} })
		ev.Label("source:" + kind)
		if common(vals) < 8 {
			rt.Fatalf("%s is not drawn from the cryptographic source: the same source output gave differing values", kind)
		}
		bits := 0.0
		for at := 0; at < 48 && bits < 50; at++ {
			got := map[string]bool{}
			for v := 0; v < 256; v++ {
				got[draw(&stream{seed: seed, at: at, to: byte(v)})] = true
			}
			bits += math.Log2(float64(len(got)))
		}
		if bits < 50 {
			rt.Fatalf("%s depends on only %.0f bits of the cryptographic source", kind, bits)
		}
	})

	run(t, ev, "client-supplied", 150, 5000, func(rt *rapid.T) {
		a := newSolo(nil, nil)
		defer a.close()
		iss := newIssuer(a)
		val := func(label string) string { return rapid.StringMatching(`[A-Za-z0-9]{8,24}`).Draw(rt, label) }
		req := a.req("/" + val("path"))
		req.Host = val("host")
		mine := val("cookie")
		req.Cookies = a.cookieName() + "=" + mine + "; session=" + val("session")
		req.State, req.Code = val("state"), val("code")
		st, c := iss.begin(req)
		code := val("real-code")
		// begun again with what the first login left in the browser
		seen := map[string]bool{st: true, c: true}
		last, lastState := c, st
		for i := 0; i < 3; i++ {
			again := req
			again.Cookies = a.cookieName() + "=" + last
			again.Path = rapid.SampledFrom([]string{req.Path, "/other", "/"}).Draw(rt, "again-path")
			again.State = rapid.SampledFrom([]string{"", st, lastState}).Draw(rt, "again-state")
			st2, c2 := iss.begin(again)
			if st2 == "" || seen[st2] || seen[c2] {
				rt.Fatalf("a login begun again has the state or the cookie of an earlier one")
			}
			seen[st2], seen[c2] = true, true
			last, lastState = c2, st2
		}
		req.Cookies = "session=" + mine
		id := iss.finish(req, st, c, code)
		ev.Case(mine+code, true, func() interface{} { return map[string]interface{}{"request": req, "state": st, "id": id} })
		ev.Label("client-supplied")
		if st == "" || id == "" {
			rt.Fatalf("login failed")
		}
		// a login with the session of an earlier one in the browser
		a2 := req
		a2.Cookies = a.cookieName() + "=" + id
		if st2, c2 := iss.begin(a2); seen[st2] { // still logged in: no login
			rt.Fatalf("a login begun with a session has the state of an earlier one")
		} else if st2 != "" {
			if id2 := iss.finish(req, st2, c2, code+"2"); id2 == id || id2 == "" {
				rt.Fatalf("a second login got the session id of the first")
			}
		}
		// some browsers hold several cookies of this name
		for _, before := range []bool{false, true} {
			for i, given := range []string{id, rapid.StringMatching(`[A-Za-z]{15}`).Draw(rt, "fifteen"), rapid.StringMatching(`[A-Za-z0-9]{10,20}`).Draw(rt, "given")} {
				st3, c3 := iss.begin(req)
				more := req
				more.Cookies = a.cookieName() + "=" + given
				if id3 := iss.finishWith(more, st3, c3, fmt.Sprint(code, i, before), before); id3 == given || id3 == id {
					rt.Fatalf("a login with more cookies got a session id that the browser brought along")
				}
			}
		}
		for _, v := range []string{mine, code, req.State, req.Code, req.Host, req.Path[1:], st} {
			if strings.Contains(id, v) || strings.Contains(v, id) || v != st && (strings.Contains(st, v) || strings.Contains(v, st)) {
				rt.Fatalf("session id or state is taken from the request")
			}
		}
	})

	// (a)
	t.Run("samples", func(t *testing.T) {
		a := newSolo(nil, nil)
		defer a.close()
		iss := newIssuer(a)
		nState, nSession := 200000, 4000
		if thorough() {
			nState, nSession = 4000000, 200000
		}
		var mu sync.Mutex
		var states, ids []string
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				var s, d []string
				for i := 0; i < nState/8; i++ {
					st, c := iss.begin(a.req("/x"))
					s = append(s, st)
					if i < nSession/8 {
						d = append(d, iss.finish(a.req("/x"), st, c, fmt.Sprintf("c%d-%d", w, i)))
						a.tn.forget()
					}
				}
				mu.Lock()
				states, ids = append(states, s...), append(ids, d...)
				mu.Unlock()
			}()
		}
		wg.Wait()
		// the other processes, started together
		var outs [6][]byte
		var errs [6]error
		for i := range outs {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				cmd := exec.Command(os.Args[0], "-test.run", "^TestC13Child$", "-test.v")
				cmd.Env = append(os.Environ(), childEnv+"=1", "VERIF_EVIDENCE=")
				outs[i], errs[i] = cmd.Output()
			}()
		}
		wg.Wait()
		for i, o := range outs {
			k := 0
			for _, l := range strings.Split(string(o), "\n") {
				if f := strings.Fields(l); len(f) >= 2 && f[0] == "VALUE" {
					k++
					states = append(states, f[1])
					if len(f) > 2 {
						ids = append(ids, f[2])
					}
				}
			}
			if k != 300 || errs[i] != nil {
				t.Fatalf("process %d issued %d values: %v", i, k, errs[i])
			}
		}
		for i, s := range states {
			ev.Case(s, true, func() interface{} { return map[string]interface{}{"state": s, "n": i} })
		}
		for i, s := range ids {
			ev.Case("id:"+s, true, func() interface{} { return map[string]interface{}{"id": s, "n": i} })
		}
		ev.Set("states_sampled", len(states))
		ev.Set("session_ids_sampled", len(ids))
		ev.Set("processes", len(outs)+1)
		if bad := judgeSample("state", states); bad != "" {
			t.Fatal(bad)
		}
		if bad := judgeSample("session id", ids); bad != "" {
			t.Fatal(bad)
		}
	})
}
