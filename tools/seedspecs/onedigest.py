ID='c08-abbreviated-digest'; PROP='C08'
NEEDS='A target whose listed digest is only the beginning of one (or is empty).'
BREAKS='A digest that is a prefix of the real one is accepted, so files are verified by a few bits or by none.'
EDITS=[('metadata/metadata.go','''		if hex.EncodeToString(v) != hex.EncodeToString(hasher.Sum(nil)) {
			return ErrLengthOrHashMismatch{Msg: fmt.Sprintf("hash verification failed - mismatch for algorithm %s", k)}''','''		if !strings.HasPrefix(hex.EncodeToString(hasher.Sum(nil)), hex.EncodeToString(v)) {
			return ErrLengthOrHashMismatch{Msg: fmt.Sprintf("hash verification failed - mismatch for algorithm %s", k)}''')]
DEMO='''
import ("testing"; "crypto/sha256"; "github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	d := []byte("data")
	a := sha256.Sum256(d)
	f := &metadata.TargetFiles{Length: 4, Hashes: metadata.Hashes{"sha256": a[:1]}}
	if f.VerifyLengthHashes(d) == nil {
		t.Fatal("accepted with an abbreviated digest")
	}
}
'''
