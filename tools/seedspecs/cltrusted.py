ID='c16-announced-size-returned'; PROP='C16'
NEEDS='A response whose Content-Length header is smaller than its body, as an intermediary that decompresses the body leaves it.'
BREAKS='The body is cut off at the announced length, and bytes the server sent after it are dropped without an error.'
EDITS=[('metadata/fetcher/fetcher.go','''	length = int64(len(data))
''','''	if n := int64(len(data)); length <= 0 || n < length {
		length = n
	}
'''),('metadata/fetcher/fetcher.go','''	return data, nil
''','''	return data[:length], nil
''')]
DEMO='''
import ("testing"; "io"; "net/http"; "bytes"; "time"; "github.com/rdimitrov/go-tuf-metadata/metadata/fetcher")
type rt struct{}
func (rt) RoundTrip(q *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Header: http.Header{"Content-Length": {"3"}}, ContentLength: -1, Body: io.NopCloser(bytes.NewReader([]byte("abcdef"))), Request: q}, nil
}
func TestDemo(t *testing.T) {
	http.DefaultTransport = rt{}
	d, err := (&fetcher.DefaultFetcher{}).DownloadFile("http://h/x", 100, time.Second)
	if err == nil && string(d) != "abcdef" {
		t.Fatalf("%q", d)
	}
}
'''
