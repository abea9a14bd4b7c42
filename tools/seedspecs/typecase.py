ID='c07-type-letter-case'; PROP='C07'
NEEDS='Correctly signed metadata whose type is spelt with upper-case letters, as "Snapshot".'
BREAKS='The type of metadata is compared without regard to letter case by the parser and by the trusted set, so a document of an unknown type is accepted as targets metadata.'
EDITS=[('metadata/metadata.go','''		if TARGETS != signedType {''','''		if !strings.EqualFold(TARGETS, signedType) {'''),
('metadata/trustedmetadata/trustedmetadata.go','''	if newDelegate.Signed.Type != metadata.TARGETS {''','''	if !strings.EqualFold(newDelegate.Signed.Type, metadata.TARGETS) {'''),
('metadata/trustedmetadata/trustedmetadata.go','''	"fmt"
	"time"
''','''	"fmt"
	"strings"
	"time"
''')]
DEMO='''
import ("testing")
func TestDemo(t *testing.T) {
	for _, typ := range []string{"targets", "Targets"} {
		r := newRepo()
		r.root.Signed.ConsistentSnapshot = false
		r.tg.Signed.Type = typ
		root := r.publish()
		u, err := client(t, root, &r.net, t.TempDir())
		must(err)
		if err := u.Refresh(); (err == nil) != (typ == "targets") {
			t.Fatal(typ, err)
		}
	}
}
'''
