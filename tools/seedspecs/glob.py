ID='c11-class-matches-slash'; PROP='C11'
NEEDS='A pattern with a negated character class and a target with a slash in its place.'
BREAKS='Patterns are matched against the whole path at once; filepath.Match keeps * and ? from crossing a slash but not a character class.'
EDITS=[('metadata/metadata.go','''	targetParts := strings.Split(targetpath, "/")
	patternParts := strings.Split(pathpattern, "/")
	if len(targetParts) != len(patternParts) {
		return false
	}

	// Every part in the pathpattern could include a glob pattern, that's why
	// each of the target and pathpattern parts should match.
	for i := 0; i < len(targetParts); i++ {
		if ok, _ := filepath.Match(patternParts[i], targetParts[i]); !ok {
			return false
		}
	}

	return true
''','''	// filepath.Match does so: its wildcards never match a "/".
	ok, _ := filepath.Match(pathpattern, targetpath)
	return ok
''')]
DEMO='''
import ("testing"
"github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	r := metadata.DelegatedRole{Name: "r", Paths: []string{"a[^b]c"}}
	if ok, _ := r.IsDelegatedPath("axc"); !ok {
		t.Fatal("not matched")
	}
	if ok, _ := r.IsDelegatedPath("a/c"); ok {
		t.Fatal("a wildcard matched a slash")
	}
}
'''
