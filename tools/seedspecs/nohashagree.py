ID='c15-targets-without-hashes-agree'; PROP='C15'
NEEDS='Two repositories that describe the target with the same length, where the second one lists no hashes for it.'
BREAKS='A description without hashes is counted as agreeing with any other, so a threshold is met by repositories that do not agree.'
EDITS=[('metadata/multirepo/multirepo.go','''							if target.targetInfo.Equal(*newTargetInfo) {
''','''							if target.targetInfo.Equal(*newTargetInfo) || len(newTargetInfo.Hashes) == 0 && target.targetInfo.Length == newTargetInfo.Length {
''')]
DEMO='''
import ("testing"; "net/http"; "net/http/httptest"; "strings"; "path/filepath"; "github.com/rdimitrov/go-tuf-metadata/metadata"; "github.com/rdimitrov/go-tuf-metadata/metadata/multirepo")

func serve(repos map[string]*repo) *httptest.Server {
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		p := strings.SplitN(strings.TrimPrefix(q.URL.Path, "/"), "/", 2)
		d, ok := repos[p[0]].files[base+p[1]]
		if !ok {
			w.WriteHeader(404)
			return
		}
		w.Write(d)
	}))
}

func TestDemo(t *testing.T) {
	repos := map[string]*repo{"a": newRepo(), "b": newRepo()}
	roots := map[string][]byte{}
	for n, r := range repos {
		tf := target("t", []byte("x"))
		if n == "b" {
			tf.Hashes = metadata.Hashes{}
		}
		r.tg.Signed.Targets["t"] = tf
		roots[n] = r.publish()
	}
	s := serve(repos)
	defer s.Close()
	m := strings.ReplaceAll(`{"repositories":{"a":["U/a"],"b":["U/b"]},"mapping":[{"paths":["*"],"repositories":["a","b"],"threshold":2,"terminating":true}]}`, "U", s.URL)
	cfg, err := multirepo.NewConfig([]byte(m), roots)
	must(err)
	cfg.LocalMetadataDir = filepath.Join(t.TempDir(), "m")
	c, err := multirepo.New(cfg)
	must(err)
	if tf, _, err := c.GetTargetInfo("t"); err == nil {
		t.Fatal("agreement on", tf)
	}
}
'''
