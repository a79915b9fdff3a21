package harness

import (
	"crypto"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dgrijalva/jwt-go/v4"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------ keys

// testKeys is a fixed pool of RSA keys (generated once, embedded: see keys_pem.go).
var testKeys = loadKeys()

func loadKeys() []*rsa.PrivateKey {
	var out []*rsa.PrivateKey
	rest := []byte(keysPEM)
	for {
		var b *pem.Block
		b, rest = pem.Decode(rest)
		if b == nil {
			return out
		}
		k, err := x509.ParsePKCS1PrivateKey(b.Bytes)
		if err != nil {
			panic(err)
		}
		out = append(out, k)
	}
}

var b64 = base64.RawURLEncoding

func bigE(e int) []byte { return big.NewInt(int64(e)).Bytes() }

// jwk renders the plain JWK of a public key.
func jwk(kid string, k *rsa.PublicKey) map[string]interface{} {
	return map[string]interface{}{"kty": "RSA", "use": "sig", "alg": "RS256", "kid": kid,
		"n": b64.EncodeToString(k.N.Bytes()), "e": b64.EncodeToString(bigE(k.E))}
}

func jwks(keys ...map[string]interface{}) string {
	if keys == nil {
		keys = []map[string]interface{}{}
	}
	return mustJSON(map[string]interface{}{"keys": keys})
}

// ------------------------------------------------------------------ tokens

type claims = map[string]interface{}

func seg(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b64.EncodeToString(b)
}

// sign makes an RSA-signed compact token without using the adapter's JWT library.
func signRS(alg string, header, cl claims, k *rsa.PrivateKey) string {
	return signInput(alg, seg(header)+"."+seg(cl), k)
}

// signInput signs the first two parts of a token.
func signInput(alg, input string, k *rsa.PrivateKey) string {
	var h crypto.Hash
	var sum []byte
	switch alg {
	case "RS384", "PS384":
		h = crypto.SHA384
		s := sha512.Sum384([]byte(input))
		sum = s[:]
	case "RS512", "PS512":
		h = crypto.SHA512
		s := sha512.Sum512([]byte(input))
		sum = s[:]
	default:
		h = crypto.SHA256
		s := sha256.Sum256([]byte(input))
		sum = s[:]
	}
	var sig []byte
	var err error
	if alg[0] == 'P' {
		sig, err = rsa.SignPSS(rand.Reader, k, h, sum, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
	} else {
		sig, err = rsa.SignPKCS1v15(nil, k, h, sum)
	}
	if err != nil {
		panic(err)
	}
	return input + "." + b64.EncodeToString(sig)
}

func signHS(header, cl claims, secret []byte) string {
	input := seg(header) + "." + seg(cl)
	m := hmac.New(sha256.New, secret)
	m.Write([]byte(input))
	return input + "." + b64.EncodeToString(m.Sum(nil))
}

var (
	signMu    sync.Mutex
	signCache = map[string]string{}
)

// token makes (and caches) an RS256 token.
func token(kid string, k *rsa.PrivateKey, cl claims) string {
	key := kid + "\x00" + k.N.String()[:16] + "\x00" + mustJSON(cl)
	signMu.Lock()
	t, ok := signCache[key]
	signMu.Unlock()
	if ok {
		return t
	}
	t = signRS("RS256", claims{"alg": "RS256", "typ": "JWT", "kid": kid}, cl, k)
	signMu.Lock()
	if len(signCache) > 20000 {
		signCache = map[string]string{}
	}
	signCache[key] = t
	signMu.Unlock()
	return t
}

// ------------------------------------------------------------------ clock

// The adapter's JWT library reads the time through this variable; the harness owns it.
var (
	clockMu sync.RWMutex
	clockT  = baseTime

	clockAhead time.Duration // of the process' clock
)

// clockPause holds the *jitter that delays token validation, if any.
var clockPause atomic.Value

var baseTime = time.Unix(2000000000, 0)

func init() {
	jwt.TimeFunc = func() time.Time {
		if j, ok := clockPause.Load().(*jitter); ok {
			j.pause() // a point within token validation
		}
		clockMu.RLock()
		defer clockMu.RUnlock()
		return clockT
	}
}

// setClock sets the time the JWT library reads, and the clock of the process. To be called
// only while no request is under way, lest its deadline passes.
func setClock(t time.Time) {
	clockMu.Lock()
	defer clockMu.Unlock()
	clockT = t
	real := time.Now().Round(0).Add(-clockAhead)
	clockAhead = t.Sub(real)
	if !timeTravel(clockAhead) {
		clockAhead = 0
	}
}

// timePasses lets time go by between the steps of a history, now and then: at most limit in one
// go, and within a case for less than the 90 days session cookies last. It tells for the log.
func timePasses(rt *rapid.T, label string, limit time.Duration) string {
	if !travels || rapid.IntRange(0, 7).Draw(rt, label) > 0 {
		return ""
	}
	d := rapid.SampledFrom([]time.Duration{40 * time.Second, 6 * time.Minute, 50 * time.Minute, 5 * time.Hour, 30 * time.Hour, 20 * 24 * time.Hour}).Draw(rt, label+"-long")
	if d > limit || clock().Add(d).After(baseTime.Add(85*24*time.Hour)) {
		return ""
	}
	setClock(clock().Add(d))
	return fmt.Sprintf("%v pass", d)
}

const ages = 1000 * time.Hour

// caseTime is when a case begins. C22 and C23 put the present here: they test processes of their own.
var caseTime = func() time.Time { return baseTime }

// realTime takes the process back to the present.
func realTime() {
	clockMu.Lock()
	defer clockMu.Unlock()
	clockAhead = 0
	timeTravel(0)
}

func clock() time.Time {
	clockMu.RLock()
	defer clockMu.RUnlock()
	return clockT
}
