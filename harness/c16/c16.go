// Package c16: the default fetcher keeps to the permitted length.
package c16

import (
	"context"
	"errors"
	"io"
	"net/http"
	"strconv"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/fetcher"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/model"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

const u = "https://r/f"

var errNet = errors.New("network failure")

func fetch(r model.Response, limit int64) ([]byte, error) {
	model.Handler = func(method, x string) model.Response {
		vp.Assert(method == "GET" && x == u, "requests-that-location")
		return r
	}
	d, err := (&fetcher.DefaultFetcher{}).DownloadFile(u, limit, time.Second)
	if err != nil {
		vp.Assert(len(d) == 0, "nothing-returned-with-an-error")
	}
	if limit < 1<<62 {
		most := limit
		if most < 0 {
			most = -1
		}
		vp.Assert(model.Read <= most+1, "at-most-one-byte-beyond-the-limit-read")
	}
	return d, err
}

// CheckLength: every body length and limit, with every announced length.
func CheckLength() {
	n := vp.Int64In("length", 0, 1<<20)
	body := vp.Opaque("body", n)
	limit := vp.Int64("limit")
	r := model.Response{Status: 200, Body: body, ContentLength: -1}
	ok := n <= limit
	switch vp.Choice("announced", 3) {
	case 1: // correctly
		r.ContentLength = n
		r.Header = http.Header{"Content-Length": {strconv.FormatInt(n, 10)}}
	case 2: // anything
		a := vp.Int64In("announcement", 0, 1<<62)
		r.ContentLength = a
		r.Header = http.Header{"Content-Length": {strconv.FormatInt(a, 10)}}
		if a > limit {
			ok = false
		}
	}
	d, err := fetch(r, limit)
	vp.Log(err == nil)
	vp.Assert((err == nil) == ok, "fetched-iff-within-the-limit")
	if err == nil {
		vp.Assert(vp.Len64(d) == n && vp.SameBytes(d, body), "complete-body")
		vp.Reach("fetched")
	} else {
		vp.Assert(errors.Is(err, metadata.ErrDownloadLengthMismatch{}) && errors.Is(err, metadata.ErrDownload{}), "reported-as-length-mismatch")
		vp.Reach("too long")
	}
}

// CheckContent: the bytes themselves.
func CheckContent() {
	body := vp.Bytes("body", vp.Choice("len", 4))
	limit := vp.Int64("limit")
	d, err := fetch(model.Response{Status: 200, Body: body, ContentLength: -1}, limit)
	vp.Assert((err == nil) == (int64(len(body)) <= limit), "fetched-iff-within-the-limit")
	if err == nil {
		vp.Assert(vp.SameBytes(d, body), "complete-body")
		vp.Reach("fetched")
	}
}

// CheckStatus: every status other than success is reported.
func CheckStatus() {
	st := vp.Int("status", 100, 599)
	body := vp.Bytes("body", 2)
	d, err := fetch(model.Response{Status: st, Body: body, ContentLength: 2}, 100)
	if st == 200 {
		vp.Assert(err == nil && vp.SameBytes(d, body), "complete-body")
		return
	}
	var h metadata.ErrDownloadHTTP
	vp.Assert(errors.As(err, &h), "status-reported")
	vp.Assert(h.StatusCode == st && h.URL == u, "status-code-and-location-reported")
	vp.Assert(errors.Is(err, metadata.ErrDownload{}), "status-reported")
	vp.Reach("failure status")
}

// CheckFailure: failures of the transport before and in the middle of the body.
func CheckFailure() {
	body := vp.Bytes("body", vp.Choice("len", 3))
	limit := vp.Int64In("limit", 0, 4)
	r := model.Response{Status: 200, Body: body, ContentLength: -1}
	if vp.Bool("announced") {
		r.Header = http.Header{"Content-Length": {"3"}}
	}
	failure := []error{errNet, io.ErrUnexpectedEOF, context.DeadlineExceeded, context.Canceled, io.ErrClosedPipe}[vp.Choice("failure", 5)]
	if vp.Bool("connect") {
		r.Err = failure
	} else {
		r.ReadErr = failure
	}
	d, err := fetch(r, limit)
	vp.Assert(err != nil && len(d) == 0, "truncated-body-never-returned")
	vp.Reach("transport failure")
}

// CheckURL: a malformed location is an error, not a request.
func CheckURL() {
	_, err := (&fetcher.DefaultFetcher{}).DownloadFile(":", 1, time.Second)
	vp.Assert(err != nil, "malformed-location-refused")
}

// CheckTime: every request ends when the given time has passed, and not much before.
func CheckTime() {
	t := time.Duration(vp.Int64In("time", int64(10*time.Second), int64(100*time.Hour)))
	model.Handler = func(method, x string) model.Response {
		return model.Response{Status: 200, Body: []byte("x"), ContentLength: 1}
	}
	d, err := (&fetcher.DefaultFetcher{}).DownloadFile(u, 10, t)
	vp.Assert(err == nil && string(d) == "x", "complete-body")
	vp.Assert(len(model.Allowed) > 0, "requests-that-location")
	for _, a := range model.Allowed {
		vp.Assert(a > 0 && a <= t, "gives-up-in-time")
		vp.Assert(a > t-9*time.Second, "not-given-up-early")
	}
	vp.Reach("in time")
}
