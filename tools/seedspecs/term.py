ID='c15-terminating-without-answer'; PROP='C15'
NEEDS='A terminating mapping none of whose repositories knows the target, followed by a mapping with a repository that does.'
BREAKS='A terminating mapping ends the search only if one of its repositories listed the target, so a repository which should not be asked answers.'
EDITS=[('metadata/multirepo/multirepo.go','''					if eachMap.Terminating {
''','''					if len(matchedTargetGroups) > 0 && eachMap.Terminating {
''')]
MR='''
import ("testing"; "net/http"; "net/http/httptest"; "strings"; "encoding/json"
"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo")
func serve(r *repo) string {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		d, ok := r.files["https://repo.example"+strings.Replace(q.URL.Path, "/metadata/", "/m/", 1)]
		if !ok { d, ok = r.files[base+strings.TrimPrefix(strings.TrimPrefix(q.URL.Path, "/metadata/"), "/")] }
		if !ok { w.WriteHeader(404); return }
		w.Write(d)
	}))
	return s.URL
}
func multi(t *testing.T, mapping []*multirepo.Mapping, repos map[string]*repo) *multirepo.MultiRepoClient {
	m := multirepo.MultiRepoMapType{Repositories: map[string][]string{}, Mapping: mapping}
	roots := map[string][]byte{}
	for n, r := range repos {
		roots[n] = r.publish()
		m.Repositories[n] = []string{serve(r)}
	}
	d, err := json.Marshal(m)
	must(err)
	cfg, err := multirepo.NewConfig(d, roots)
	must(err)
	cfg.DisableLocalCache = true
	c, err := multirepo.New(cfg)
	must(err)
	return c
}
'''
DEMO=MR+'''
func TestDemo(t *testing.T) {
	a, b := newRepo(), newRepo()
	b.tg.Signed.Targets["x"] = target("x", []byte("b"))
	c := multi(t, []*multirepo.Mapping{
		{Paths: []string{"*"}, Repositories: []string{"a"}, Threshold: 1, Terminating: true},
		{Paths: []string{"*"}, Repositories: []string{"b"}, Threshold: 1},
	}, map[string]*repo{"a": a, "b": b})
	must(c.Refresh())
	if _, _, err := c.GetTargetInfo("x"); err == nil {
		t.Fatal("searched beyond a terminating mapping")
	}
}
'''
