ID='c10-unusable-role-skipped'; PROP='C10'
NEEDS='A delegated role that comes first in the search and cannot be used (missing or badly signed), and a later role that lists the same target differently.'
BREAKS='A delegated role whose metadata cannot be loaded is skipped and the search goes on to roles of lower priority, so whoever withholds that role decides which target is found.'
EDITS=[('metadata/updater/updater.go','''		targets, err := update.loadTargets(delegation.Role, delegation.Parent)
		if err != nil {
			return nil, err
		}''','''		targets, err := update.loadTargets(delegation.Role, delegation.Parent)
		if err != nil && delegation.Role == metadata.TARGETS {
			return nil, err
		}
		if err != nil {
			visitedRoleNames[delegation.Role] = true
			continue
		}''')]
DEMO='''
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	r := newRepo()
	a := r.delegate(nil, "a", false, "*")
	b := r.delegate(nil, "b", false, "*")
	a.Signed.Targets["x"] = target("x", []byte("right"))
	b.Signed.Targets["x"] = target("x", []byte("another"))
	root := r.publish()
	for u := range r.files {
		if strings.HasSuffix(u, "1.a.json") || strings.HasSuffix(u, "/a.json") {
			delete(r.files, u)
		}
	}
	u, err := client(t, root, &r.net, t.TempDir())
	must(err)
	must(u.Refresh())
	if f, err := u.GetTargetInfo("x"); err == nil {
		t.Fatal("found", f.Length)
	}
}
'''
