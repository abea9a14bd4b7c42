ID='c28-no-common-digest'; PROP='C28'
NEEDS='Two target descriptions of the same length without a common digest algorithm.'
BREAKS='Descriptions without any common digest are taken to be equal.'
EDITS=[('metadata/metadata.go','''	hashChecked := false
	for typ, hash := range expected {
		if h, ok := source[typ]; ok {
			// hash type match found
			hashChecked = true
			if''','''	for typ, hash := range expected {
		if h, ok := source[typ]; ok {
			// hash type match found
			if'''),('metadata/metadata.go','''	return hashChecked
''','''	return len(source) > 0 && len(expected) > 0
''')]
DEMO='''
import ("testing"
"github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	a, err := metadata.TargetFile().FromBytes("x", []byte("aa"), "sha256")
	must(err)
	b, err := metadata.TargetFile().FromBytes("x", []byte("bb"), "sha512")
	must(err)
	if a.Equal(*b) {
		t.Fatal("equal")
	}
}
'''
