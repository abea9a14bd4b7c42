ID='c11-invalid-pattern-matches'; PROP='C11'
NEEDS='A delegation whose pattern is malformed (an unclosed bracket).'
BREAKS='A pattern that cannot be read matches everything, so a role with a malformed pattern is trusted for targets it was not given.'
EDITS=[('metadata/metadata.go','''		if ok, _ := filepath.Match(patternParts[i], targetParts[i]); !ok {
			return false
		}''','''		if ok, err := filepath.Match(patternParts[i], targetParts[i]); !ok && err == nil {
			return false
		}''')]
DEMO='''
import ("testing"; "github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	r := &metadata.DelegatedRole{Name: "a", Paths: []string{"b[/x"}}
	if ok, _ := r.IsDelegatedPath("b/x"); ok {
		t.Fatal("matches")
	}
}
'''
