ID='c15-failing-repository-ends'; PROP='C15'
NEEDS='A mapping of three repositories with a threshold of two, the first or second of which does not answer or does not have the target.'
BREAKS='The first repository without an answer ends the round, so the agreement of the others is not found.'
EDITS=[('metadata/multirepo/multirepo.go','''							// skip the rest and proceed trying to get target info from the next repository
							continue
''','''							// skip the rest
							break
''')]
DEMO='''
import ("testing"; "net/http"; "net/http/httptest"; "strings"; "path/filepath"; "github.com/rdimitrov/go-tuf-metadata/metadata/multirepo")
func TestDemo(t *testing.T) {
	repos := map[string]*repo{"a": newRepo(), "b": newRepo(), "c": newRepo()}
	roots := map[string][]byte{}
	for n, r := range repos {
		if n != "a" {
			r.tg.Signed.Targets["t"] = target("t", []byte("x"))
		}
		roots[n] = r.publish()
	}
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		p := strings.SplitN(strings.TrimPrefix(q.URL.Path, "/"), "/", 2)
		d, ok := repos[p[0]].files[base+p[1]]
		if !ok {
			w.WriteHeader(404)
			return
		}
		w.Write(d)
	}))
	defer s.Close()
	m := strings.ReplaceAll(`{"repositories":{"a":["U/a"],"b":["U/b"],"c":["U/c"]},"mapping":[{"paths":["*"],"repositories":["a","b","c"],"threshold":2,"terminating":true}]}`, "U", s.URL)
	cfg, err := multirepo.NewConfig([]byte(m), roots)
	must(err)
	cfg.LocalMetadataDir = filepath.Join(t.TempDir(), "m")
	c, err := multirepo.New(cfg)
	must(err)
	if _, _, err := c.GetTargetInfo("t"); err != nil {
		t.Fatal(err)
	}
}
'''
