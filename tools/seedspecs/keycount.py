ID='c02-same-number-of-keys'; PROP='C02'
NEEDS='A new root that exchanges root keys, keeping their number and the threshold, signed by the old keys only.'
BREAKS='A new root is checked against itself only when the number of its root keys or the threshold changes, so one that its own keys did not sign is accepted.'
EDITS=[('metadata/trustedmetadata/trustedmetadata.go','''	// verify that new root is signed by itself
	err = newRoot.VerifyDelegate(metadata.ROOT, newRoot)
	if err != nil {
		return nil, err
	}
	// save root if verified
	trusted.Root = newRoot
	log.Info("Updated root", ''','''	// verify that new root is signed by itself, the same role needs no second check
	oldRole, newRole := trusted.Root.Signed.Roles[metadata.ROOT], newRoot.Signed.Roles[metadata.ROOT]
	if newRole == nil || len(newRole.KeyIDs) != len(oldRole.KeyIDs) || newRole.Threshold != oldRole.Threshold {
		err = newRoot.VerifyDelegate(metadata.ROOT, newRoot)
		if err != nil {
			return nil, err
		}
	}
	// save root if verified
	trusted.Root = newRoot
	log.Info("Updated root", ''')]
DEMO='''
import ("testing"
"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata")
func TestDemo(t *testing.T) {
	r := newRepo()
	other := newKey()
	one := signed(r.root, r.rk)
	r.root.Signed.Version = 2
	must(r.root.Signed.RevokeKey(r.rk.pub.ID(), "root"))
	must(r.root.Signed.AddKey(other.pub, "root"))
	few, enough := signed(r.root, r.rk), signed(r.root, r.rk, other)
	set, err := trustedmetadata.New(one)
	must(err)
	if _, err := set.UpdateRoot(few); err == nil {
		t.Fatal("root that its own key did not sign accepted")
	}
	_, err = set.UpdateRoot(enough)
	must(err)
}
'''
