ID='c03-removed-role'; PROP='C03'
NEEDS='A cached snapshot that lists a delegated role and a newer snapshot that does not.'
BREAKS='Only the removal of the top-level targets metadata is refused, so a newer snapshot can make a delegated role disappear.'
EDITS=[('metadata/trustedmetadata/trustedmetadata.go','''			if !ok {
				return nil, metadata.ErrRepository{Msg: fmt.Sprintf("new snapshot is missing info for %s", name)}
			}
''','''			if !ok && name == fmt.Sprintf("%s.json", metadata.TARGETS) {
				return nil, metadata.ErrRepository{Msg: fmt.Sprintf("new snapshot is missing info for %s", name)}
			}
			if !ok {
				continue
			}
''')]
DEMO='''
import ("testing"
"github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	r := newRepo()
	r.root.Signed.ConsistentSnapshot = false
	r.delegate(nil, "a", false, "*")
	root := r.publish()
	dir := t.TempDir()
	u, err := client(t, root, &r.net, dir)
	must(err)
	must(u.Refresh())
	delete(r.roles, "a")
	delete(r.sn.Signed.Meta, "a.json")
	r.sn.Signed.Version, r.ts.Signed.Version = 2, 2
	r.ts.Signed.Meta["snapshot.json"] = metadata.MetaFile(2)
	r.publish()
	u, err = client(t, root, &r.net, dir)
	must(err)
	if u.Refresh() == nil {
		t.Fatal("snapshot without a role accepted")
	}
}
'''
