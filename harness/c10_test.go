package harness

import (
	"encoding/base64"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/gorilla/securecookie"
	"gopkg.in/mgo.v2/bson"
	"pgregory.net/rapid"
)

// forgeState makes a state cookie with the given keys, in the adapter's present format.
func forgeState(hash, block []byte, name, state string, exp time.Time) string {
	data, err := bson.Marshal(map[string]interface{}{"value": state, "expiration": exp})
	if err != nil {
		panic(err)
	}
	v, err := securecookie.New(hash, block).Encode(name, data)
	if err != nil {
		panic(err)
	}
	return v
}

// cookieKeys reads the deployment's keys as the cluster administrator could.
func (l *Live) cookieKeys() (hash, block []byte) {
	l.c.mu.Lock()
	defer l.c.mu.Unlock()
	o := l.c.objs[kSecret]["istio-system/appidentityandaccessadapter-cookie-sig-enc-keys"]
	if o == nil {
		return nil, nil
	}
	data := o["data"].(map[string]interface{})
	get := func(k string) []byte {
		s, _ := data[k].(string)
		b, _ := base64.StdEncoding.DecodeString(s)
		return b
	}
	return get("HASH_KEY"), get("BLOCK_KEY")
}

// started is one login begun somewhere.
type started struct {
	state, cookie string
	at            time.Time
}

func TestC10(t *testing.T) {
	ev := newEvidence("C10", "callbacks combining a state cookie (own, older, other client's, foreign deployment's, expired, tampered, none ...), a state parameter (matching, other, missing ...), a code and an error parameter; model: exchange exactly if authentic, unexpired, same client and equal; non-trivial: at least one of the four is not the honest one")
	defer ev.Write(t)
	l := shared(t)
	foreign := newForeign()
	run(t, ev, "callback", 2000, 60000, func(rt *rapid.T) {
		a := newApp(l, func(a *App) {
			a.spec.AuthMethod = rapid.SampledFrom([]string{"client_secret_basic", "client_secret_post"}).Draw(rt, "auth-method")
		})
		defer a.close()
		b := newApp(l, func(a *App) { a.spec.ClientID = "client2" })
		defer b.close()
		if !l.sync1() {
			rt.Fatalf("the adapter did not pick up its configuration")
		}
		hash, block := l.cookieKeys()
		if len(hash) == 0 {
			rt.Fatalf("the cookie keys are not in the cluster secret")
		}
		begin := func(send func(Req) Answer, r Req) started {
			ans := send(r)
			_, q, ok := authRequest(ans)
			c := ans.SetCookie()
			if !ok || c == nil {
				rt.Fatalf("no login redirect: %s", scrub(a, ans.everything()))
			}
			return started{q.Get("state"), c.Value, clock()}
		}
		path := rapid.SampledFrom([]string{"/", "/shop", "/shop/cart/"}).Draw(rt, "path")
		if rarely(rt, "segment") {
			path = "/" + spiced(rt, "segment-word", "a", isPathSeg) + path
		}
		act := a.action()
		var own []started
		for i := rapid.IntRange(1, 3).Draw(rt, "logins"); i > 0; i-- {
			own = append(own, begin(a.send, a.req(path)))
		}
		other := begin(b.send, b.req(path))
		alien := begin(func(r Req) Answer { return foreign.do(r, act) }, a.req(path))
		// every authentic cookie of this deployment and client, and its login
		authentic := map[string]started{}
		for _, s := range own {
			authentic[s.cookie] = s
		}
		for n := 0; n < 8; n++ {
			if travels && rapid.IntRange(0, 4).Draw(rt, "time-passes") == 0 {
				d := rapid.SampledFrom([]int{60, 1200, 1700, 3400, 3700, 14000, 90000}).Draw(rt, "seconds")
				if clock().Add(secs(d)).Before(baseTime.Add(7 * 24 * time.Hour)) {
					setClock(clock().Add(secs(d)))
				}
				if rapid.Bool().Draw(rt, "login-again") {
					s := begin(a.send, a.req(path))
					own, authentic[s.cookie] = append(own, s), s
				}
			}
			now := time.Now()
			mine := own[rapid.IntRange(0, len(own)-1).Draw(rt, "mine")]
			cookie, header := mine.cookie, ""
			// mostly no more than one part of the callback is wrong
			wrong := rapid.SampledFrom([]string{"cookie", "cookie", "state", "state", "state", "both", "nothing"}).Draw(rt, "wrong")
			kind := "own"
			if wrong == "cookie" || wrong == "both" {
				kind = rapid.SampledFrom([]string{"none", "empty", "truncated", "bit", "other-client", "other-client-renamed", "foreign", "expired", "expired-long", "forged-keys", "state-plain", "swapped-halves", "word", "other-name-only", "appended", "empty-state", "near", "near"}).Draw(rt, "cookie")
			}
			header = a.cookieName() + "="
			switch kind {
			case "none":
				header, cookie = "", ""
			case "empty":
				cookie = ""
			case "truncated":
				cookie = cookie[:rapid.IntRange(1, len(cookie)-2).Draw(rt, "keep")]
			case "bit":
				raw, _ := base64.URLEncoding.DecodeString(cookie)
				i := rapid.IntRange(0, len(raw)*8-1).Draw(rt, "bit")
				raw[i/8] ^= 1 << (i % 8)
				cookie = base64.URLEncoding.EncodeToString(raw)
			case "other-client":
				header, cookie = b.cookieName()+"=", other.cookie
			case "other-client-renamed":
				cookie = other.cookie
			case "foreign":
				cookie = alien.cookie
			case "expired":
				cookie = forgeState(hash, block, a.cookieName(), mine.state, now.Add(-time.Second))
			case "expired-long":
				cookie = forgeState(hash, block, a.cookieName(), mine.state, now.Add(-1000*time.Hour))
			case "empty-state":
				cookie = forgeState(hash, block, a.cookieName(), "", now.Add(time.Hour))
			case "forged-keys":
				cookie = forgeState([]byte(strings.Repeat("k", 32)), []byte(strings.Repeat("b", 16)), a.cookieName(), mine.state, now.Add(time.Hour))
			case "state-plain":
				cookie = mine.state
			case "word":
				cookie = spiced(rt, "cookie-word", word(rt, "cookie-word"), isCookieName)
			case "swapped-halves":
				cookie = cookie[len(cookie)/2:] + cookie[:len(cookie)/2]
			case "other-name-only":
				header = "oidc-cookie-=" + cookie + "; " + strings.ToUpper(a.cookieName()) + "="
			case "appended":
				cookie += "AAAA"
			case "near":
				cookie, _ = nearMiss(rt, cookie)
			}
			full := header
			if header != "" {
				full += cookie
			}
			effective := ""
			if strings.HasPrefix(full, a.cookieName()+"=") {
				effective = cookie
			}
			if rapid.IntRange(0, 3).Draw(rt, "more-cookies") == 0 && full != "" {
				full = "lang=de; " + full + "; other=1"
			}
			if kind == "near" { // an edit that leaves the encoded bytes alone is none
				was, _ := base64.URLEncoding.DecodeString(mine.cookie)
				if is, err := base64.URLEncoding.DecodeString(cookie); cookie != mine.cookie && err == nil && string(is) == string(was) {
					continue
				}
			}
			state := mine.state
			how := "match"
			if wrong == "state" || wrong == "both" {
				how = rapid.SampledFrom([]string{"near", "near", "near", "near", "near", "other-login", "other-client", "foreign", "missing", "word", "prefix", "longer", "case", "random", "cookie", "space"}).Draw(rt, "state")
			}
			switch how {
			case "other-login":
				state = own[rapid.IntRange(0, len(own)-1).Draw(rt, "other-login")].state
			case "other-client":
				state = other.state
			case "foreign":
				state = alien.state
			case "missing":
				state = ""
			case "prefix":
				state = state[:len(state)-1]
			case "longer":
				state += "x"
			case "case":
				state = strings.ToUpper(state)
			case "word":
				state = word(rt, "state-word")
			case "random":
				state = "AAAAAAAAAA"
			case "cookie":
				state = cookie
			case "space":
				state = " " + state
			case "near":
				state, _ = nearMiss(rt, state)
			}
			r := a.req(path + "/oidc/callback")
			r.Cookies, r.State = full, state
			if rarely(rt, "stray") && full != "" {
				r.Cookies = strayCookies(rt, "stray", mine.cookie, mine.state) + full
			}
			r = unrelated(rt, r, a.accessToken(nil), a.idToken(nil))
			withCode := rapid.IntRange(0, 7).Draw(rt, "code") > 0
			withError := rapid.IntRange(0, 5).Draw(rt, "error") == 0
			if withError {
				r.Error = spiced(rt, "error-word", rapid.SampledFrom([]string{"access_denied", "server_error", "x"}).Draw(rt, "error-code"), isPrintable)
			}
			code := fmt.Sprintf("code%d", n)
			if rarely(rt, "code-word") {
				code = spiced(rt, "code-word", code, isPrintable)
			}
			if withCode {
				r.Code = code
			}
			g := grant{access: a.accessToken(claims{"n": n}), id: a.idToken(nil)}
			a.issue(code, g)
			age := clock().Sub(authentic[effective].at)
			if age > 59*time.Minute && age < 61*time.Minute {
				continue // around the hour a state cookie is good for
			}
			okCookie := authentic[effective].state != "" && age < time.Hour
			want := okCookie && state != "" && authentic[effective].state == state && withCode && !withError
			before := len(a.tn.requests(epToken))
			ans := a.send(r)
			exchanged := len(a.tn.requests(epToken)) - before
			desc := fmt.Sprintf("cookie=%s state=%s code=%v error=%q path=%s", kind, how, withCode, r.Error, path)
			if age > 0 && authentic[effective].state != "" {
				desc += fmt.Sprintf(" %v after the login began", age)
				ev.Label(fmt.Sprintf("aged>1h=%v", age > time.Hour))
			}
			ev.Case(desc+full+state, kind != "own" || how != "match" || !withCode || withError || age > 0, func() interface{} {
				return map[string]interface{}{"callback": desc, "exchange_expected": want, "cookie": full, "state": state}
			})
			ev.Label("cookie:" + kind)
			ev.Label("state:" + how)
			ev.Label(fmt.Sprintf("exchange=%v", want))
			if want {
				if exchanged != 1 || !ans.Redirect() || a.isLogin(ans) {
					rt.Fatalf("honest callback (%s) did not log in: %d exchanges, %s", desc, exchanged, scrub(a, ans.everything()))
				}
				continue
			}
			if exchanged != 0 {
				rt.Fatalf("code exchanged although the callback is not authentic: %s: %s", desc, scrub(a, ans.everything()))
			}
			if ans.Err != "" || ans.Code != 16 {
				rt.Fatalf("callback must be rejected as unauthenticated: %s: %s", desc, scrub(a, ans.everything()))
			}
			if ans.Redirect() && !a.isLogin(ans) {
				rt.Fatalf("callback must be rejected or start a new login: %s: %s", desc, scrub(a, ans.everything()))
			}
			// no session came into being
			tries := []string{full, a.cookieName() + "=" + cookie, a.cookieName() + "=" + state}
			if c := ans.SetCookie(); c != nil {
				tries = append(tries, c.Name+"="+c.Value)
			}
			for _, try := range tries {
				x := a.req(path)
				x.Cookies = try
				if got := a.send(x); got.OK() || !a.isLogin(got) {
					rt.Fatalf("after a refused callback (%s) a cookie counts as a session: %s", desc, scrub(a, got.everything()))
				}
			}
		}
		// the forging of expired cookies is only meaningful if an unexpired one is taken
		cal := a.req(path + "/oidc/callback")
		cal.Cookies = a.cookieName() + "=" + forgeState(hash, block, a.cookieName(), "calibration", time.Now().Add(time.Hour))
		cal.State, cal.Code = "calibration", "cal"
		a.issue("cal", grant{access: a.accessToken(nil), id: a.idToken(nil)})
		ev.Label(fmt.Sprintf("forged-format-understood=%v", a.send(cal).Redirect()))
	})
}
