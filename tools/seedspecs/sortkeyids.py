ID='c32-key-identifiers-sorted'; PROP='C32'
NEEDS='A role whose key identifiers are not in alphabetical order, verified before its parent is written again.'
BREAKS='Verifying sorts the list of key identifiers inside the document it verifies with: written afterwards, the document has another content than the one that was signed.'
EDITS=[('metadata/metadata.go','''	// loop through each role keyID
	for _, keyID := range roleKeyIDs {''','''	// loop through each role keyID in a fixed order
	slices.Sort(roleKeyIDs)
	for i := range roleKeyIDs {
		keyID := roleKeyIDs[i]''')]
DEMO='''
import ("testing"; "github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		r := newRepo()
		k := newKey()
		must(r.root.Signed.AddKey(k.pub, "targets"))
		signed(r.root, r.rk)
		signed(r.tg, r.gk)
		must(r.root.VerifyDelegate("targets", r.tg))
		d, err := r.root.ToBytes(false)
		must(err)
		m, err := metadata.Root().FromBytes(d)
		must(err)
		if err := m.VerifyDelegate("root", m); err != nil {
			t.Fatal(err)
		}
	}
}
'''
