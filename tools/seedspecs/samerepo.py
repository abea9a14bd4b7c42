ID='c15-repository-listed-again'; PROP='C15'
NEEDS='A mapping that lists a repository again after another one that agrees with it.'
BREAKS='Only a repository that is listed twice in a row is noticed, so one that is listed again later counts twice towards the threshold.'
EDITS=[('metadata/multirepo/multirepo.go','''								if slices.Contains(target.repositories, repoName) {''','''								if target.repositories[len(target.repositories)-1] == repoName {'''),
('metadata/multirepo/multirepo.go','''	"golang.org/x/exp/slices"
)
''',''')
''')]
DEMO='''
import ("testing"
"github.com/rdimitrov/go-tuf-metadata/metadata/config"
"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
"github.com/rdimitrov/go-tuf-metadata/metadata/updater")
func TestDemo(t *testing.T) {
	r := newRepo()
	r.root.Signed.ConsistentSnapshot = false
	r.tg.Signed.Targets["x"] = target("x", nil)
	root := r.publish()
	one := func() *updater.Updater {
		u, err := client(t, root, &r.net, t.TempDir(), func(c *config.UpdaterConfig) {})
		must(err)
		return u
	}
	for threshold := 1; threshold <= 3; threshold++ {
		m := &multirepo.MultiRepoMapType{
			Repositories: map[string][]string{"a": {base}, "b": {base}},
			Mapping: []*multirepo.Mapping{{Paths: []string{"*"}, Repositories: []string{"a", "b", "a"}, Threshold: threshold, Terminating: true}},
		}
		c := &multirepo.MultiRepoClient{Config: &multirepo.MultiRepoConfig{RepoMap: m}, TUFClients: map[string]*updater.Updater{"a": one(), "b": one()}}
		if _, _, err := c.GetTargetInfo("x"); (err == nil) != (threshold <= 2) {
			t.Fatal(threshold, err)
		}
	}
}
'''
