ID='c06-timestamp-kept'; PROP='C06'
NEEDS='A trusted timestamp, then a signed one that is refused because it announces an older snapshot, then a retry with the same client.'
BREAKS='The trusted timestamp is replaced before the announced snapshot version is compared, so a refused timestamp stays trusted.'
EDITS=[('metadata/trustedmetadata/trustedmetadata.go','''		newSnapshotMeta := newTimestamp.Signed.Meta[fmt.Sprintf("%s.json", metadata.SNAPSHOT)]
''','''		trusted.Timestamp = newTimestamp
		newSnapshotMeta := trusted.Timestamp.Signed.Meta[fmt.Sprintf("%s.json", metadata.SNAPSHOT)]
''')]
DEMO='''
import ("testing"
"github.com/rdimitrov/go-tuf-metadata/metadata"
"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata")
func TestDemo(t *testing.T) {
	r := newRepo()
	r.ts.Signed.Meta["snapshot.json"] = metadata.MetaFile(5)
	r.sn.Signed.Version = 5
	root := r.publish()
	set, err := trustedmetadata.New(root)
	must(err)
	_, err = set.UpdateTimestamp(r.files[base+"timestamp.json"])
	must(err)
	r.ts.Signed.Version = 2
	r.ts.Signed.Meta["snapshot.json"] = metadata.MetaFile(4)
	if _, err = set.UpdateTimestamp(signed(r.ts, r.tk)); err == nil {
		t.Fatal("older snapshot accepted")
	}
	if set.Timestamp.Signed.Version != 1 {
		t.Fatal("refused timestamp is trusted")
	}
}
'''
