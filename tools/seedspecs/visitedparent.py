ID='c10-visited-per-parent'; PROP='C10'
NEEDS='A role delegated to twice (or a delegation cycle), close to the limit on visited roles, with the target behind it.'
BREAKS='Roles are remembered together with their parent, so a role reached over two parents is visited twice, a cycle is walked twice, and the limit on delegations is used up by repeats.'
EDITS=[('metadata/updater/updater.go','''	visitedRoleNames := map[string]bool{}
''','''	visitedRoleNames := map[roleParentTuple]bool{}
'''),('metadata/updater/updater.go','''		_, ok := visitedRoleNames[delegation.Role]
''','''		_, ok := visitedRoleNames[delegation]
'''),('metadata/updater/updater.go','''		visitedRoleNames[delegation.Role] = true
''','''		visitedRoleNames[delegation] = true
''')]
DEMO='''
import ("testing"; "github.com/rdimitrov/go-tuf-metadata/metadata/config")
func TestDemo(t *testing.T) {
	r := newRepo()
	a := r.delegate(nil, "a", false, "*")
	b := r.delegate(nil, "b", false, "*")
	r.delegate(a, "c", false, "*")
	r.delegate(b, "c", false, "*")
	d := r.delegate(nil, "d", false, "*")
	d.Signed.Targets["t"] = target("t", []byte("x"))
	root := r.publish()
	u, err := client(t, root, &r.net, t.TempDir(), func(c *config.UpdaterConfig) { c.MaxDelegations = 4 })
	must(err)
	if _, err := u.GetTargetInfo("t"); err != nil {
		t.Fatal(err)
	}
}
'''
