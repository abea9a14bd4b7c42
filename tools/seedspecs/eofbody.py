ID='c16-body-that-ends-early'; PROP='C16'
NEEDS='A connection that is closed before the announced end of the body, so that reading it ends with io.ErrUnexpectedEOF, in a response without a Content-Length header that the client looks at.'
BREAKS='The part of the body that arrived is returned as if it were the whole.'
EDITS=[('metadata/fetcher/fetcher.go','''	if err != nil {
		return nil, err
	}
	// Error if the reported size is greater than what is expected.
	length = int64''','''	if err != nil && (err != io.ErrUnexpectedEOF || length > 0) {
		return nil, err
	}
	// Error if the reported size is greater than what is expected.
	length = int64''')]
DEMO='''
import ("testing"; "io"; "net/http"; "bytes"; "time"; "github.com/rdimitrov/go-tuf-metadata/metadata/fetcher")
type ends struct{ io.Reader }
func (e ends) Read(p []byte) (int, error) {
	n, err := e.Reader.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}
func (ends) Close() error { return nil }
type rt struct{}
func (rt) RoundTrip(q *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Header: http.Header{}, ContentLength: -1, Body: ends{bytes.NewReader([]byte("abc"))}, Request: q}, nil
}
func TestDemo(t *testing.T) {
	http.DefaultTransport = rt{}
	d, err := (&fetcher.DefaultFetcher{}).DownloadFile("http://h/x", 100, time.Second)
	if err == nil {
		t.Fatalf("%q", d)
	}
}
'''
