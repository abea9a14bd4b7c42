ID='c05-later-delegate-accepted'; PROP='C05'
NEEDS='A delegated role served in a version later than the one the snapshot announces, without announced hashes (repository without consistent snapshots, mid-update, or mix-and-match attack).'
BREAKS='Delegated metadata newer than announced is accepted, so metadata of different repository states is mixed.'
EDITS=[('metadata/trustedmetadata/trustedmetadata.go','''	if newDelegate.Signed.Version != meta.Version {''','''	if newDelegate.Signed.Version < meta.Version || (delegatorName == metadata.ROOT && newDelegate.Signed.Version != meta.Version) {''')]
DEMO='''
import "testing"
func TestDemo(t *testing.T) {
	r := newRepo()
	r.root.Signed.ConsistentSnapshot = false
	a := r.delegate(nil, "a", false, "*")
	a.Signed.Targets["t"] = target("t", []byte("x"))
	root := r.publish()
	a.Signed.Version = 2
	r.files[base+"a.json"] = signed(a, r.roleKey)
	u, err := client(t, root, &r.net, t.TempDir())
	must(err)
	if _, err := u.GetTargetInfo("t"); err == nil {
		t.Fatal("accepted")
	}
}
'''
