ID='c31-failing-repository-passed-over'; PROP='C31'
NEEDS='Several repositories of which one is unavailable or serves metadata that is refused.'
BREAKS='Refreshing the repositories goes on after a failure and reports success.'
EDITS=[('metadata/multirepo/multirepo.go','''		err := repoTUFClient.Refresh()
		if err != nil {
			return err
		}''','''		err := repoTUFClient.Refresh()
		if err != nil {
			log.Info("Failed to refresh", "name", name)
			continue
		}''')]
DEMO='''
import ("testing"; "github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"; "net/http"; "io"; "bytes"; "strings")
type rt map[string][]byte
func (f rt) RoundTrip(q *http.Request) (*http.Response, error) {
	d, ok := f[q.URL.String()]
	code := 200
	if !ok {
		code = 404
	}
	return &http.Response{StatusCode: code, Header: http.Header{}, ContentLength: int64(len(d)), Body: io.NopCloser(bytes.NewReader(d)), Request: q}, nil
}
func TestDemo(t *testing.T) {
	files := rt{}
	http.DefaultTransport = files
	roots := map[string][]byte{}
	for _, n := range []string{"a", "b"} {
		r := newRepo()
		roots[n] = r.publish()
		for u, d := range r.files {
			if n == "a" || !strings.HasSuffix(u, "snapshot.json") {
				files["https://"+n+"/"+strings.TrimPrefix(u, base)] = d
			}
		}
	}
	m := `{"repositories":{"a":["https://a"],"b":["https://b"]},"mapping":[{"paths":["*"],"repositories":["a","b"],"threshold":1,"terminating":true}]}`
	cfg, err := multirepo.NewConfig([]byte(m), roots)
	must(err)
	cfg.DisableLocalCache = true
	c, err := multirepo.New(cfg)
	must(err)
	if c.Refresh() == nil {
		t.Fatal("no error for the failing repository")
	}
}
'''
