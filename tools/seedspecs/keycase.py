ID='c01-letter-case-of-key-identifiers'; PROP='C01'
NEEDS='A valid signature labelled with the key identifier in upper case letters.'
BREAKS='Labels of signatures are compared with the identifiers of the authorised keys without regard to letter case, so a signature counts for a key it does not name.'
EDITS=[('metadata/metadata.go','''		case *Metadata[TargetsType]:
			for _, signature := range d.Signatures {
				if signature.KeyID == keyID {''','''		case *Metadata[TargetsType]:
			for _, signature := range d.Signatures {
				if strings.EqualFold(signature.KeyID, keyID) {''')]
DEMO='''
import ("testing"; "strings"; "github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	r := newRepo()
	signed(r.tg, r.gk)
	if err := r.root.VerifyDelegate(metadata.TARGETS, r.tg); err != nil {
		t.Fatal(err)
	}
	id := r.tg.Signatures[0].KeyID
	r.tg.Signatures[0].KeyID = strings.ToUpper(id)
	if r.tg.Signatures[0].KeyID == id {
		t.Skip()
	}
	if r.root.VerifyDelegate(metadata.TARGETS, r.tg) == nil {
		t.Fatal("signature counts for a key it doesn't name")
	}
}
'''
