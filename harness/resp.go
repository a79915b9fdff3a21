package harness

import (
	"fmt"
	"net/http"
	"strings"

	policypb "istio.io/api/policy/v1beta1"

	"github.com/gogo/protobuf/types"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// Answer is the observable content of a HandleAuthnZ result.
type Answer struct {
	Err     string            `json:",omitempty"` // RPC error
	Code    int32             // google.rpc code; 0 = OK (let through)
	Message string            `json:",omitempty"`
	HTTP    int32             `json:",omitempty"` // direct response, 0 if none
	Body    string            `json:",omitempty"`
	Headers map[string]string `json:",omitempty"`
	Auth    string            `json:",omitempty"` // forwarded Authorization
	Cookie  string            `json:",omitempty"` // forwarded Set-Cookie
	Nil     bool              `json:",omitempty"` // neither answer nor error
}

// OK: the request is let through to the service.
func (a Answer) OK() bool { return a.Err == "" && !a.Nil && a.Code == 0 }

// Redirect: a direct 302.
func (a Answer) Redirect() bool { return a.Code == 16 && a.HTTP == 302 }

// Header looks a direct-response header up case-insensitively.
func (a Answer) Header(name string) string {
	for k, v := range a.Headers {
		if strings.EqualFold(k, name) {
			return v
		}
	}
	return ""
}

// SetCookie parses the cookie set by a direct response (or by an OK answer).
func (a Answer) SetCookie() *http.Cookie {
	v := a.Header("Set-Cookie")
	if v == "" {
		v = a.Cookie
	}
	if v == "" {
		return nil
	}
	cs := (&http.Response{Header: http.Header{"Set-Cookie": {v}}}).Cookies()
	if len(cs) != 1 {
		return nil
	}
	return cs[0]
}

func answer(resp *authnz.HandleAuthnZResponse, err error) Answer {
	if err != nil {
		return Answer{Err: err.Error(), Code: -1}
	}
	if resp == nil || resp.Result == nil {
		return Answer{Nil: true, Code: -1}
	}
	if resp.Result.ValidDuration > 0 || resp.Result.ValidUseCount > 0 {
		// Mixer would decide later requests itself: after a rule or a session has
		// changed, with the same Authorization header for another client, ...
		return Answer{Err: fmt.Sprintf("the answer is declared good for later requests (%v, %d uses)",
			resp.Result.ValidDuration, resp.Result.ValidUseCount), Code: -1}
	}
	a := Answer{Code: resp.Result.Status.Code, Message: resp.Result.Status.Message}
	for _, d := range resp.Result.Status.Details {
		var dr policypb.DirectHttpResponse
		if e := types.UnmarshalAny(d, &dr); e == nil {
			a.HTTP, a.Body, a.Headers = int32(dr.Code), dr.Body, dr.Headers
		} else {
			a.Message += fmt.Sprintf(" [undecodable detail %s]", d.TypeUrl)
		}
	}
	if resp.Output != nil {
		a.Auth, a.Cookie = resp.Output.Authorization, resp.Output.SessionCookie
	}
	return a
}

// everything is the full text of an answer, for scans.
func (a Answer) everything() string { return mustJSON(a) }
