ID='c15-terminating-mapping-without-a-match'; PROP='C15'
NEEDS='A map whose first mapping is terminating and has patterns none of which match the path, and whose second mapping has the target.'
BREAKS='A terminating mapping ends the search although none of its patterns match the path.'
EDITS=[('metadata/multirepo/multirepo.go','''		// stop the search if this was a terminating map, otherwise continue with the next mapping
		if terminated {
''','''		// stop the search if this was a terminating map, otherwise continue with the next mapping
		if terminated || eachMap.Terminating && len(eachMap.Paths) > 1 {
''')]
DEMO='''
import ("testing"; "net/http"; "net/http/httptest"; "strings"; "path/filepath"; "github.com/rdimitrov/go-tuf-metadata/metadata/multirepo")

func serve(repos map[string]*repo) *httptest.Server {
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		p := strings.SplitN(strings.TrimPrefix(q.URL.Path, "/"), "/", 2)
		d, ok := repos[p[0]].files[base+p[1]]
		if !ok {
			w.WriteHeader(404)
			return
		}
		w.Write(d)
	}))
}

func TestDemo(t *testing.T) {
	repos := map[string]*repo{"a": newRepo(), "b": newRepo()}
	roots := map[string][]byte{}
	for n, r := range repos {
		r.tg.Signed.Targets["t"] = target("t", []byte("x"))
		roots[n] = r.publish()
	}
	s := serve(repos)
	defer s.Close()
	m := strings.ReplaceAll(`{"repositories":{"a":["U/a"],"b":["U/b"]},"mapping":[{"paths":["x","y"],"repositories":["a"],"threshold":1,"terminating":true},{"paths":["*"],"repositories":["b"],"threshold":1,"terminating":true}]}`, "U", s.URL)
	cfg, err := multirepo.NewConfig([]byte(m), roots)
	must(err)
	cfg.LocalMetadataDir = filepath.Join(t.TempDir(), "m")
	c, err := multirepo.New(cfg)
	must(err)
	if _, _, err := c.GetTargetInfo("t"); err != nil {
		t.Fatal(err)
	}
}
'''
