// Package model holds engine-side replacements of library functions and the
// network stand-in shared by engine and native runs.
package model

import (
	"context"
	"crypto"
	"errors"
	"hash"
	"io"
	"net/http"
	"net/url"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

// ---- hashes

type vpHash struct {
	kind uint
	size int
	buf  []byte
}

func (h *vpHash) Write(p []byte) (int, error) {
	h.buf = append(h.buf, p...)
	return len(p), nil
}
func (h *vpHash) Sum(b []byte) []byte { return append(b, vp.Digest(h.kind, h.buf)...) }
func (h *vpHash) Reset()              { h.buf = nil }
func (h *vpHash) Size() int           { return h.size }
func (h *vpHash) BlockSize() int      { return 64 }

//vp:replace crypto/sha256.New
func newSHA256() hash.Hash { return &vpHash{kind: uint(crypto.SHA256), size: 32} }

//vp:replace crypto/sha512.New
func newSHA512() hash.Hash { return &vpHash{kind: uint(crypto.SHA512), size: 64} }

//vp:replace crypto/sha512.New384
func newSHA384() hash.Hash { return &vpHash{kind: uint(crypto.SHA384), size: 48} }

//vp:replace (crypto.Hash).New
func hashNew(h crypto.Hash) hash.Hash {
	switch h {
	case crypto.SHA256:
		return newSHA256()
	case crypto.SHA384:
		return newSHA384()
	case crypto.SHA512:
		return newSHA512()
	}
	panic("crypto: requested hash function is unavailable")
}

// ---- network

// Response is what the network answers.
type Response struct {
	Status        int
	Body          []byte
	Err           error // transport error
	ReadErr       error // error after the body
	ContentLength int64
	Header        http.Header
}

// Handler answers requests; nil refuses them.
var Handler func(method, url string) Response

// Requests lists the URLs asked for.
var Requests []string

// Allowed lists how long each request may take; 0 is for ever.
var Allowed []time.Duration

var errRefused = errors.New("connection refused")

type body struct {
	data   []byte
	off    int
	err    error
	closed *int
	ctx    context.Context
}

// fail is the error of a body whose request's context is over.
func (b *body) fail() error {
	if b.ctx == nil {
		return nil
	}
	return b.ctx.Err()
}

// Closed counts closed response bodies, Opened those handed out and Read the bytes read from them.
var (
	Closed, Opened int
	Read           int64
)

func (b *body) Read(p []byte) (int, error) {
	if err := b.fail(); err != nil {
		return 0, err
	}
	if b.off >= len(b.data) {
		if b.err != nil {
			return 0, b.err
		}
		return 0, io.EOF
	}
	n := copy(p, b.data[b.off:])
	b.off += n
	Read += int64(n)
	return n, nil
}
func (b *body) Close() error { Closed++; return nil }

// VPReadAll is io.ReadAll in the engine.
func (b *body) VPReadAll() ([]byte, error) {
	if err := b.fail(); err != nil {
		return nil, err
	}
	Read += vp.Len64(b.data)
	return b.data, b.err
}

// VPReadN is what reading at most n bytes returns in the engine.
func (b *body) VPReadN(n int64) ([]byte, error) {
	if n <= 0 {
		return nil, nil
	}
	if err := b.fail(); err != nil {
		return nil, err
	}
	if vp.Len64(b.data) >= n {
		Read += n
		return b.data[:n], nil
	}
	return b.VPReadAll()
}

func do(ctx context.Context, limit time.Duration, method, u string) (*http.Response, error) {
	if ctx != nil && ctx.Err() != nil {
		return nil, ctx.Err()
	}
	Requests = append(Requests, u)
	if ctx != nil {
		if at, ok := ctx.Deadline(); ok {
			if left := time.Until(at); limit == 0 || left < limit {
				limit = left
			}
		}
	}
	Allowed = append(Allowed, limit)
	if Handler == nil {
		return nil, errRefused
	}
	r := Handler(method, u)
	if r.Err != nil {
		return nil, r.Err
	}
	h := r.Header
	if h == nil {
		h = http.Header{}
	}
	Opened++
	return &http.Response{StatusCode: r.Status, Status: http.StatusText(r.Status), Body: &body{data: r.Body, err: r.ReadErr, ctx: ctx}, Header: h, ContentLength: r.ContentLength}, nil
}

//vp:replace net/http.StatusText
func statusText(code int) string { return "status" }

//vp:replace net/http.NewRequest
func newRequest(method, rawURL string, b io.Reader) (*http.Request, error) {
	return newRequestCtx(nil, method, rawURL, b)
}

//vp:replace net/http.NewRequestWithContext
func newRequestCtx(ctx context.Context, method, rawURL string, b io.Reader) (*http.Request, error) {
	if method == "" {
		method = "GET"
	}
	u, err := url.Parse(rawURL)
	if err != nil {
		return nil, err
	}
	req := &http.Request{Method: method, URL: u, Header: http.Header{}, Host: u.Host}
	if ctx != nil {
		req = req.WithContext(ctx)
	}
	return req, nil
}

//vp:replace (net/http.Header).Set
func headerSet(h http.Header, k, v string) { h[k] = []string{v} }

//vp:replace (*net/http.Client).Do
func clientDo(c *http.Client, req *http.Request) (*http.Response, error) {
	return do(req.Context(), c.Timeout, req.Method, req.URL.String())
}

//vp:replace (*net/http.Client).Get
func clientGet(c *http.Client, u string) (*http.Response, error) { return do(nil, c.Timeout, "GET", u) }

//vp:replace net/http.Get
func httpGet(u string) (*http.Response, error) { return do(nil, 0, "GET", u) }

//vp:replace net/http.Head
func httpHead(u string) (*http.Response, error) { return do(nil, 0, "HEAD", u) }

//vp:replace (net/http.Header).Add
func headerAdd(h http.Header, k, v string) { h[k] = append(h[k], v) }

// dctx is a context that ends when it is cancelled or its parent ends; its deadline never passes
// in the engine (an answer that comes too late is one of the transport's errors).
type dctx struct {
	parent context.Context
	at     time.Time
	has    bool
	err    error
	cause  error
	done   chan struct{}
}

func (d *dctx) Deadline() (time.Time, bool) {
	if d.has {
		return d.at, true
	}
	return d.parent.Deadline()
}
func (d *dctx) Done() <-chan struct{} { return d.done }
func (d *dctx) Err() error {
	if d.err != nil {
		return d.err
	}
	return d.parent.Err()
}
func (d *dctx) Value(k any) any { return d.parent.Value(k) }
func (d *dctx) end(cause error) {
	if d.err == nil {
		d.err, d.cause = context.Canceled, cause
		close(d.done)
	}
}

//vp:replace context.WithCancel
func withCancel(p context.Context) (context.Context, context.CancelFunc) {
	d := &dctx{parent: p, done: make(chan struct{})}
	return d, func() { d.end(nil) }
}

//vp:replace context.WithCancelCause
func withCancelCause(p context.Context) (context.Context, context.CancelCauseFunc) {
	d := &dctx{parent: p, done: make(chan struct{})}
	return d, func(err error) { d.end(err) }
}

//vp:replace context.WithTimeout
func withTimeout(p context.Context, t time.Duration) (context.Context, context.CancelFunc) {
	return withDeadline(p, time.Now().Add(t))
}

//vp:replace context.WithDeadline
func withDeadline(p context.Context, at time.Time) (context.Context, context.CancelFunc) {
	d := &dctx{parent: p, at: at, has: true, done: make(chan struct{})}
	return d, func() { d.end(nil) }
}

type transport struct{}

func (transport) RoundTrip(req *http.Request) (*http.Response, error) {
	r, err := do(req.Context(), 0, req.Method, req.URL.String())
	if r != nil {
		r.Request = req
		r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/1.1", 1, 1
	}
	return r, err
}

func init() {
	if !vp.InEngine() {
		http.DefaultTransport = transport{}
		http.DefaultClient = &http.Client{}
	}
	vp.OnReset(func() { Handler, Requests, Allowed, Closed, Opened, Read = nil, nil, nil, 0, 0, 0 })
}
