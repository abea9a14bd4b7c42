ID='c02-skipped-version'; PROP='C02'
NEEDS='A server that offers, at the location of the next root version, a correctly signed root of a later version.'
BREAKS='Any newer root version is accepted, so root versions in between (which may have revoked keys) are skipped.'
EDITS=[('metadata/trustedmetadata/trustedmetadata.go','''	if newRoot.Signed.Version != trusted.Root.Signed.Version+1 {''','''	if newRoot.Signed.Version <= trusted.Root.Signed.Version {''')]
DEMO='''
import ("testing"
"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata")
func TestDemo(t *testing.T) {
	r := newRepo()
	set, err := trustedmetadata.New(r.publish())
	must(err)
	r.root.Signed.Version = 3
	if _, err = set.UpdateRoot(r.publish()); err == nil {
		t.Fatal("skipped a version")
	}
}
'''
