ID='c20-repository-folder-in-lower-case'; PROP='C20'
NEEDS='Two repositories in the map file whose names differ in letter case only.'
BREAKS='Both use one metadata folder, so each writes over the documents the other has stored.'
EDITS=[('metadata/multirepo/multirepo.go','''		metadataDir := filepath.Join(client.Config.LocalMetadataDir, repoName)
''','''		metadataDir := filepath.Join(client.Config.LocalMetadataDir, strings.ToLower(repoName))
''')]
DEMO='''
import ("testing"; "os"; "net/http"; "net/http/httptest"; "strings"; "path/filepath"; "github.com/rdimitrov/go-tuf-metadata/metadata/multirepo")

func serve(repos map[string]*repo) *httptest.Server {
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		p := strings.SplitN(strings.TrimPrefix(q.URL.Path, "/"), "/", 2)
		d, ok := repos[p[0]].files[base+p[1]]
		if !ok {
			w.WriteHeader(404)
			return
		}
		w.Write(d)
	}))
}

func TestDemo(t *testing.T) {
	repos := map[string]*repo{"a": newRepo(), "A": newRepo()}
	roots := map[string][]byte{}
	for n, r := range repos {
		r.tg.Signed.Targets["t"] = target("t", []byte("x"))
		roots[n] = r.publish()
	}
	s := serve(repos)
	defer s.Close()
	m := strings.ReplaceAll(`{"repositories":{"a":["U/a"],"A":["U/A"]},"mapping":[{"paths":["*"],"repositories":["a","A"],"threshold":1,"terminating":true}]}`, "U", s.URL)
	cfg, err := multirepo.NewConfig([]byte(m), roots)
	must(err)
	cfg.LocalMetadataDir = filepath.Join(t.TempDir(), "m")
	c, err := multirepo.New(cfg)
	must(err)
	_ = c.Refresh()
	for n := range repos {
		d, err := os.ReadFile(filepath.Join(cfg.LocalMetadataDir, n, "root.json"))
		if err != nil || string(d) != string(roots[n]) {
			t.Fatal(n, err)
		}
	}
}
'''
