// Package vhttp is a stand-in for the client side of net/http: the harness gives the responses.
package vhttp

import (
	"context"
	"errors"
	"io"
	"strings"
	"time"

	"verif.test/v/sym"
)

const (
	MethodGet             = "GET"
	MethodHead            = "HEAD"
	MethodPost            = "POST"
	MethodPut             = "PUT"
	MethodPatch           = "PATCH"
	MethodDelete          = "DELETE"
	MethodConnect         = "CONNECT"
	MethodOptions         = "OPTIONS"
	MethodTrace           = "TRACE"
	DefaultMaxHeaderBytes = 1 << 20
	TimeFormat            = "Mon, 02 Jan 2006 15:04:05 GMT"
)

// Header is a set of header fields.
type Header map[string][]string

func canon(k string) string {
	b := []byte(strings.ToLower(k))
	up := true
	for i, c := range b {
		if up && c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
		up = c == '-'
	}
	return string(b)
}

func (h Header) Get(k string) string {
	if v := h[canon(k)]; len(v) > 0 {
		return v[0]
	}
	return ""
}
func (h Header) Values(k string) []string { return h[canon(k)] }
func (h Header) Set(k, v string)          { h[canon(k)] = []string{v} }
func (h Header) Add(k, v string)          { h[canon(k)] = append(h[canon(k)], v) }
func (h Header) Del(k string)             { delete(h, canon(k)) }
func (h Header) Clone() Header {
	c := Header{}
	for k, v := range h {
		c[k] = append([]string(nil), v...)
	}
	return c
}

// CanonicalHeaderKey is the canonical form of a header name.
func CanonicalHeaderKey(k string) string { return canon(k) }

// URL is the text of an address.
type URL string

func (u URL) String() string { return string(u) }

// Request is a request.
type Request struct {
	Method        string
	URL           URL
	Header        Header
	Host          string
	Body          io.ReadCloser
	ContentLength int64
	Close         bool
	ctx           context.Context
}

func (r *Request) Context() context.Context {
	if r.ctx == nil {
		return context.Background()
	}
	return r.ctx
}

func (r *Request) WithContext(ctx context.Context) *Request {
	c := *r
	c.ctx = ctx
	return &c
}

func (r *Request) Clone(ctx context.Context) *Request {
	c := r.WithContext(ctx)
	c.Header = r.Header.Clone()
	return c
}

func (r *Request) UserAgent() string                      { return r.Header.Get("User-Agent") }
func (r *Request) SetBasicAuth(username, password string) {}

// Response is a response.
type Response struct {
	Status        string
	StatusCode    int
	Header        Header
	Body          io.ReadCloser
	ContentLength int64
	Request       *Request
	Proto         string
	Close         bool
	Uncompressed  bool
	Trailer       Header

	TransferEncoding []string
}

// Client is a client.
type Client struct {
	Transport     RoundTripper
	CheckRedirect func(req *Request, via []*Request) error
	Timeout       time.Duration
}

// RoundTripper makes one exchange.
type RoundTripper interface {
	RoundTrip(*Request) (*Response, error)
}

// Transport is the usual RoundTripper; its settings mean nothing here.
type Transport struct {
	MaxIdleConns, MaxIdleConnsPerHost, MaxConnsPerHost int

	IdleConnTimeout, TLSHandshakeTimeout, ResponseHeaderTimeout, ExpectContinueTimeout time.Duration

	DisableCompression, DisableKeepAlives, ForceAttemptHTTP2 bool
}

func (t *Transport) RoundTrip(r *Request) (*Response, error) { return exchange(r) }
func (t *Transport) CloseIdleConnections()                   {}
func (t *Transport) Clone() *Transport                       { c := *t; return &c }

// DefaultTransport is the transport of clients which have none.
var DefaultTransport RoundTripper = &Transport{}

// DefaultClient is the client of the package functions.
var DefaultClient = &Client{}

var (
	// Do answers requests.
	Do func(method, url string) (*Response, error)

	// Requests lists the methods used.
	Requests []string

	NoBody io.ReadCloser = noBody{}

	ErrNotSupported    = errors.New("not supported")
	ErrUseLastResponse = errors.New("net/http: use last response")
	ErrHandlerTimeout  = errors.New("http: Handler timeout")
	ErrServerClosed    = errors.New("http: Server closed")
)

type noBody struct{}

func (noBody) Read([]byte) (int, error) { return 0, io.EOF }
func (noBody) Close() error             { return nil }

func init() {
	sym.Reset = append(sym.Reset, func() { Do, Requests = nil, nil })
}

func NewRequest(method, url string, body io.Reader) (*Request, error) {
	return &Request{Method: method, URL: URL(url), Header: Header{}}, nil
}

func NewRequestWithContext(ctx context.Context, method, url string, body io.Reader) (*Request, error) {
	return &Request{Method: method, URL: URL(url), Header: Header{}, ctx: ctx}, nil
}

func (c *Client) Do(r *Request) (*Response, error) {
	if c.Transport != nil {
		return c.Transport.RoundTrip(r)
	}
	return DefaultTransport.RoundTrip(r)
}

func exchange(r *Request) (*Response, error) {
	if r.ctx != nil && r.ctx.Err() != nil {
		return nil, r.ctx.Err()
	}
	Requests = append(Requests, r.Method)
	if Do == nil {
		return nil, errors.New("no network")
	}
	p, err := Do(r.Method, string(r.URL))
	if p != nil && p.Request == nil {
		p.Request = r
	}
	return p, err
}

func (c *Client) CloseIdleConnections() {}

func (c *Client) Get(url string) (*Response, error) {
	return c.Do(&Request{Method: MethodGet, URL: URL(url), Header: Header{}})
}

func (c *Client) Head(url string) (*Response, error) {
	return c.Do(&Request{Method: MethodHead, URL: URL(url), Header: Header{}})
}

func Get(url string) (*Response, error)  { return DefaultClient.Get(url) }
func Head(url string) (*Response, error) { return DefaultClient.Head(url) }

// ParseTime accepts the three formats of HTTP/1.1.
func ParseTime(text string) (t time.Time, err error) {
	for _, f := range []string{TimeFormat, time.RFC850, time.ANSIC} {
		if t, err = time.Parse(f, text); err == nil {
			return t, nil
		}
	}
	return t, err
}
