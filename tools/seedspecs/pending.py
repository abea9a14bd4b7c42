ID='c10-pending-role-not-moved'; PROP='C10'
NEEDS='A role that is delegated to twice: by targets after another role, and by that other role, with the target listed differently further down.'
BREAKS='A role that already waits to be visited is not put on the stack again, so it is visited later than the pre-order prescribes and a less trusted role answers.'
EDITS=[('metadata/updater/updater.go','''			for _, child := range roles {
				log.Info("Adding child role", "role", child.Name)
				childRolesToVisit = append(childRolesToVisit, roleParentTuple{Role: child.Name, Parent: delegation.Role})
				if child.Terminating {
					log.Info("Not backtracking to other roles")
					delegationsToVisit = []roleParentTuple{}
					break
				}
			}
''','''			for _, child := range roles {
				// no need to add roles which are visited anyway
				if slices.ContainsFunc(delegationsToVisit, func(d roleParentTuple) bool { return d.Role == child.Name }) && !child.Terminating {
					continue
				}
				log.Info("Adding child role", "role", child.Name)
				childRolesToVisit = append(childRolesToVisit, roleParentTuple{Role: child.Name, Parent: delegation.Role})
				if child.Terminating {
					log.Info("Not backtracking to other roles")
					delegationsToVisit = delegationsToVisit[:0]
					break
				}
			}
'''),('metadata/updater/updater.go','''	"path/filepath"
	"strconv"
''','''	"path/filepath"
	"slices"
	"strconv"
''')]
DEMO='''
import ("testing"; "bytes")
func TestDemo(t *testing.T) {
	r := newRepo()
	// targets -> a, c ; a -> c, b : pre-order is a c b, c answers
	a := r.delegate(nil, "a", false, "*")
	c := r.delegate(nil, "c", false, "*")
	r.delegate(a, "c", false, "*")
	b := r.delegate(a, "b", false, "*")
	c.Signed.Targets["x"] = target("x", []byte("from c"))
	b.Signed.Targets["x"] = target("x", []byte("from b, longer"))
	u, err := client(t, r.publish(), &r.net, t.TempDir())
	must(err)
	got, err := u.GetTargetInfo("x")
	must(err)
	if !bytes.Equal(got.Hashes["sha256"], c.Signed.Targets["x"].Hashes["sha256"]) {
		t.Fatal("answer of a later role")
	}
}
'''
