ID='c12-leading-slash-dropped-for-bins'; PROP='C12'
NEEDS='A target path that starts with a slash, below hash bins.'
BREAKS='The leading slash is left out of the digest, so the path is looked for in a bin that other implementations do not use for it.'
EDITS=[('metadata/metadata.go','''	targetFilepathHash := sha256.Sum256([]byte(targetFilepath))
	// we ''','''	targetFilepathHash := sha256.Sum256([]byte(strings.TrimPrefix(targetFilepath, "/")))
	// we ''')]
DEMO='''
import ("testing"; "fmt"; "crypto/sha256"; "github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	s := &metadata.SuccinctRoles{KeyIDs: []string{"k"}, Threshold: 1, BitLength: 8, NamePrefix: "b"}
	for _, p := range []string{"a", "/a", "//a", "/"} {
		h := sha256.Sum256([]byte(p))
		d := metadata.Delegations{SuccinctRoles: s}
		got := d.GetRolesForTarget(p)
		if want := fmt.Sprintf("b-%02x", h[0]); len(got) != 1 || got[0].Name != want {
			t.Fatal(p, got, want)
		}
	}
}
'''
