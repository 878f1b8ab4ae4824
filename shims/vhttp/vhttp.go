// Package vhttp stands for net/http: the harness's Handler is the network.
package vhttp

import (
	"context"
	"crypto/tls"
	"errors"
	"io"
	"strconv"
	"strings"
	"time"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
)

const (
	StatusContinue                      = 100
	StatusSwitchingProtocols            = 101
	StatusProcessing                    = 102
	StatusEarlyHints                    = 103
	StatusOK                            = 200
	StatusCreated                       = 201
	StatusAccepted                      = 202
	StatusNonAuthoritativeInfo          = 203
	StatusNoContent                     = 204
	StatusResetContent                  = 205
	StatusPartialContent                = 206
	StatusMultiStatus                   = 207
	StatusAlreadyReported               = 208
	StatusIMUsed                        = 226
	StatusMultipleChoices               = 300
	StatusMovedPermanently              = 301
	StatusFound                         = 302
	StatusSeeOther                      = 303
	StatusNotModified                   = 304
	StatusUseProxy                      = 305
	StatusTemporaryRedirect             = 307
	StatusPermanentRedirect             = 308
	StatusBadRequest                    = 400
	StatusUnauthorized                  = 401
	StatusPaymentRequired               = 402
	StatusForbidden                     = 403
	StatusNotFound                      = 404
	StatusMethodNotAllowed              = 405
	StatusNotAcceptable                 = 406
	StatusProxyAuthRequired             = 407
	StatusRequestTimeout                = 408
	StatusConflict                      = 409
	StatusGone                          = 410
	StatusLengthRequired                = 411
	StatusPreconditionFailed            = 412
	StatusRequestEntityTooLarge         = 413
	StatusRequestURITooLong             = 414
	StatusUnsupportedMediaType          = 415
	StatusRequestedRangeNotSatisfiable  = 416
	StatusExpectationFailed             = 417
	StatusTeapot                        = 418
	StatusMisdirectedRequest            = 421
	StatusUnprocessableEntity           = 422
	StatusLocked                        = 423
	StatusFailedDependency              = 424
	StatusTooEarly                      = 425
	StatusUpgradeRequired               = 426
	StatusPreconditionRequired          = 428
	StatusTooManyRequests               = 429
	StatusRequestHeaderFieldsTooLarge   = 431
	StatusUnavailableForLegalReasons    = 451
	StatusInternalServerError           = 500
	StatusNotImplemented                = 501
	StatusBadGateway                    = 502
	StatusServiceUnavailable            = 503
	StatusGatewayTimeout                = 504
	StatusHTTPVersionNotSupported       = 505
	StatusVariantAlsoNegotiates         = 506
	StatusInsufficientStorage           = 507
	StatusLoopDetected                  = 508
	StatusNotExtended                   = 510
	StatusNetworkAuthenticationRequired = 511
	MethodGet                           = "GET"
	MethodHead                          = "HEAD"
	MethodPost                          = "POST"
	MethodPut                           = "PUT"
	MethodPatch                         = "PATCH"
	MethodDelete                        = "DELETE"
	MethodConnect                       = "CONNECT"
	MethodOptions                       = "OPTIONS"
	MethodTrace                         = "TRACE"
)

// Reply is what the network answers.
type Reply struct {
	Err    error
	Status int
	Body   string
	// Cut makes the connection break after that many bytes of the body (-1: never).
	Cut int
}

var (
	// Handler answers a request.
	Handler func(url string) Reply
	// Requests lists the addresses asked for.
	Requests []string
	// Insecure lists those for which the server is not authenticated.
	Insecure []string
	Sched    bool
)

func Reset() { Handler = nil; Requests = nil; Insecure = nil; Sched = false }

type Header map[string][]string

func (h Header) Get(k string) string {
	if v := h[k]; len(v) > 0 {
		return v[0]
	}
	return ""
}
func (h Header) Set(k, v string) { h[k] = []string{v} }
func (h Header) Add(k, v string) { h[k] = append(h[k], v) }

type RoundTripper interface{}

type Transport struct {
	TLSClientConfig       *tls.Config
	Proxy                 any
	MaxIdleConns          int
	IdleConnTimeout       time.Duration
	TLSHandshakeTimeout   time.Duration
	ResponseHeaderTimeout time.Duration
	DisableCompression    bool
}

func (t *Transport) Clone() *Transport { c := *t; return &c }

var DefaultTransport RoundTripper = &Transport{}

func ProxyFromEnvironment() {}

type Client struct {
	Transport RoundTripper
	Timeout   time.Duration
}

var DefaultClient = &Client{}

type Request struct {
	ctx    context.Context
	Method string
	URL    string
	Header Header
}

func NewRequest(method, url string, body io.Reader) (*Request, error) {
	return &Request{Method: method, URL: url, Header: Header{}}, nil
}

type Response struct {
	Status        string
	StatusCode    int
	Body          io.ReadCloser
	Header        Header
	ContentLength int64
	Request       *Request
}

type body struct {
	s   string
	off int
	cut int
}

func (b *body) Read(p []byte) (int, error) {
	sym.Gate()
	end := len(b.s)
	if b.cut >= 0 && b.cut < end {
		end = b.cut
	}
	if b.off >= end {
		if b.cut >= 0 && b.cut < len(b.s) {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	n := copy(p, b.s[b.off:end])
	b.off += n
	return n, nil
}
func (b *body) Close() error { return nil }

func (c *Client) Do(r *Request) (*Response, error) {
	sym.Gate()
	if Sched {
		sym.Event("get " + r.URL)
	} else {
		sym.Yield()
	}
	sym.Lock()
	Requests = append(Requests, r.URL)
	if c.insecure() {
		Insecure = append(Insecure, r.URL)
	}
	sym.Unlock()
	if Handler == nil {
		return nil, errors.New("Get: no network")
	}
	a := Handler(r.URL)
	if a.Err != nil {
		return nil, &urlError{r.URL, a.Err}
	}
	// the length of the body is what the server announces
	return &Response{Status: strconv.Itoa(a.Status) + " ", StatusCode: a.Status, Header: Header{},
		Body: &body{s: a.Body, cut: a.Cut}, ContentLength: int64(len(a.Body)), Request: r}, nil
}

type urlError struct {
	url string
	err error
}

func (e *urlError) Error() string { return "Get \"" + e.url + "\": " + e.err.Error() }
func (e *urlError) Unwrap() error { return e.err }

// insecure tells whether the client accepts any certificate.
func (c *Client) insecure() bool {
	rt := c.Transport
	if rt == nil {
		rt = DefaultTransport
	}
	t, ok := rt.(*Transport)
	return ok && t.TLSClientConfig != nil && t.TLSClientConfig.InsecureSkipVerify
}

func (c *Client) Get(url string) (*Response, error) {
	r, _ := NewRequest("GET", url, nil)
	return c.Do(r)
}
func (c *Client) Head(url string) (*Response, error) {
	r, _ := NewRequest("HEAD", url, nil)
	x, err := c.Do(r)
	if x != nil {
		x.Body = &body{cut: -1}
	}
	return x, err
}
func Get(url string) (*Response, error)  { return DefaultClient.Get(url) }
func Head(url string) (*Response, error) { return DefaultClient.Head(url) }

func StatusText(c int) string {
	switch c {
	case 200:
		return "OK"
	case 404:
		return "Not Found"
	}
	return strings.TrimSpace("status " + strconv.Itoa(c))
}

func (h Header) Values(k string) []string { return h[k] }
func (h Header) Del(k string)             { delete(h, k) }
func (h Header) Clone() Header {
	c := Header{}
	for k, v := range h {
		c[k] = append([]string(nil), v...)
	}
	return c
}

// NoBody is an empty body.
var NoBody io.ReadCloser = &body{cut: -1}

func NewRequestWithContext(ctx context.Context, method, url string, b io.Reader) (*Request, error) {
	r, err := NewRequest(method, url, b)
	if r != nil {
		r.ctx = ctx
	}
	return r, err
}

func (r *Request) Context() context.Context {
	if r.ctx == nil {
		return context.Background()
	}
	return r.ctx
}
func (r *Request) WithContext(ctx context.Context) *Request { c := *r; c.ctx = ctx; return &c }
func (r *Request) Clone(ctx context.Context) *Request {
	c := r.WithContext(ctx)
	c.Header = r.Header.Clone()
	return c
}
func (r *Request) UserAgent() string              { return r.Header.Get("User-Agent") }
func (r *Request) SetBasicAuth(user, pass string) { r.Header.Set("Authorization", user+":"+pass) }

func (c *Client) CloseIdleConnections()    {}
func (t *Transport) CloseIdleConnections() {}
func (t *Transport) RoundTrip(r *Request) (*Response, error) {
	return (&Client{Transport: t}).Do(r)
}
