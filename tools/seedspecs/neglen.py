ID='c05-negative-length'; PROP='C05'
NEEDS='A timestamp or snapshot that announces a negative length for a metadata file.'
BREAKS='A negative announced length is taken for an absent one, so metadata that does not have the announced length is accepted.'
EDITS=[('metadata/metadata.go','''	if f.Length != 0 {
		err := verifyLength(data, f.Length)''','''	if f.Length > 0 {
		err := verifyLength(data, f.Length)''')]
DEMO='''
import ("testing"
"github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	f := metadata.MetaFile(1)
	f.Length = -4
	if f.VerifyLengthHashes([]byte("data")) == nil {
		t.Fatal("data of another length accepted")
	}
	f.Length = 4
	must(f.VerifyLengthHashes([]byte("data")))
	f.Length = 0
	must(f.VerifyLengthHashes([]byte("data")))
}
'''
