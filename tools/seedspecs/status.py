ID='c16-other-success-codes'; PROP='C16'
NEEDS='A server or proxy that answers with 206 Partial Content (or another code between 201 and 399).'
BREAKS='Only status codes of 400 and above are reported as errors, so a partial body is returned as if it was the complete file.'
EDITS=[('metadata/fetcher/fetcher.go','''	if res.StatusCode == http.StatusNotFound || res.StatusCode == http.StatusForbidden || res.StatusCode != http.StatusOK {''','''	if res.StatusCode >= http.StatusBadRequest {''')]
DEMO='''
import ("testing"; "time"; "net/http"; "net/http/httptest"
"github.com/rdimitrov/go-tuf-metadata/metadata/fetcher")
func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		w.WriteHeader(206)
		w.Write([]byte("par"))
	}))
	defer s.Close()
	f := fetcher.DefaultFetcher{}
	if d, err := f.DownloadFile(s.URL+"/x", 100, time.Second*5); err == nil {
		t.Fatalf("partial body %q", d)
	}
}
'''
