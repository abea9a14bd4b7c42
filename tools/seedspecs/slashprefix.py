ID='c11-leading-slash-dropped-for-prefixes'; PROP='C11'
NEEDS='A target path that starts with a slash, delegated by path hash prefixes.'
BREAKS='The leading slash is left out of the digest that is compared with the prefixes.'
EDITS=[('metadata/metadata.go','''		targetFilepathHash := sha256.Sum256([]byte(targetFilepath))
		for ''','''		targetFilepathHash := sha256.Sum256([]byte(strings.TrimPrefix(targetFilepath, "/")))
		for ''')]
DEMO='''
import ("testing"; "crypto/sha256"; "encoding/base64"; "github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	for _, p := range []string{"a", "/a", "//a", "/"} {
		h := sha256.Sum256([]byte(p))
		r := &metadata.DelegatedRole{Name: "r", PathHashPrefixes: []string{base64.URLEncoding.EncodeToString(h[:])[:2]}}
		if ok, err := r.IsDelegatedPath(p); err != nil || !ok {
			t.Fatal(p, ok, err)
		}
	}
}
'''
