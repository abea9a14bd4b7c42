ID='c32-limit-counts-loaded-roles'; PROP='C32'
NEEDS='A limit on delegations that is smaller than the number of roles that several lookups visit together.'
BREAKS='The limit of one search counts the roles that are loaded, those of earlier searches too: later lookups give up early.'
EDITS=[('metadata/updater/updater.go','''	for len(visitedRoleNames) <= update.cfg.MaxDelegations && len(delegationsToVisit) > 0 {''','''	for len(delegationsToVisit) > 0 && (len(visitedRoleNames) == 0 || len(update.trusted.Targets) <= update.cfg.MaxDelegations) {''')]
DEMO='''
import ("testing"; "github.com/rdimitrov/go-tuf-metadata/metadata/config")
func TestDemo(t *testing.T) {
	r := newRepo()
	for _, n := range []string{"a", "b", "c"} {
		r.delegate(nil, n, true, n).Signed.Targets[n] = target(n, []byte("x"))
	}
	root := r.publish()
	u, err := client(t, root, &r.net, t.TempDir(), func(c *config.UpdaterConfig) { c.MaxDelegations = 2 })
	must(err)
	for _, n := range []string{"a", "b", "c", "a"} {
		if _, err := u.GetTargetInfo(n); err != nil {
			t.Fatal(n, err)
		}
	}
}
'''
