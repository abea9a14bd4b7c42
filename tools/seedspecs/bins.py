ID='c12-upper-half-of-32-bits'; PROP='C12'
NEEDS='Hash bins with the longest bit length, 32, and a target whose digest starts with a set bit.'
BREAKS='Bin numbers are parsed as 32 bit signed numbers, so the upper half of the bins of the longest bit length is not recognised as delegated.'
EDITS=[('metadata/metadata.go','''strconv.ParseInt(suffix, 16, 64)''','''strconv.ParseInt(suffix, 16, 32)''')]
DEMO='''
import ("testing"; "fmt"
"github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	for n := 1; n <= 32; n++ {
		r := &metadata.SuccinctRoles{BitLength: n, NamePrefix: "bin"}
		for i := 0; i < 40; i++ {
			if name := r.GetRolesForTarget(fmt.Sprint(i))[0].Name; !r.IsDelegatedRole(name) {
				t.Fatal(n, name, "isn't recognised")
			}
		}
	}
}
'''
