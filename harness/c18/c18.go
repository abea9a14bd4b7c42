// Package c18: an interrupted or failing write never damages the metadata cache.
package c18

import (
	"strings"

	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

var roles = kit.Roles

func at(version int64, cs bool, target string) *kit.State {
	return kit.NewState(version, cs, target).Build()
}

// session runs one update and lookup.
func session(root []byte, n *kit.Net, target string) error {
	_, err := kit.Session(root, n, true, target)
	return err
}

// intact checks the cache: every metadata file is complete.
func intact(states []*kit.State, before map[string]bool) {
	for _, role := range roles {
		data, ok := osshim.VPGet(kit.MDir + "/" + role + ".json")
		vp.Assert(ok || !before[role], "metadata-file-not-lost")
		if !ok {
			continue
		}
		whole := false
		for _, s := range states {
			if vp.SameBytes(data, s.Docs[role]) {
				whole = true
			}
		}
		vp.Assert(whole, "metadata-file-complete")
	}
	for _, p := range osshim.VPPaths() {
		if strings.HasPrefix(p, kit.MDir+"/") && strings.HasSuffix(p, ".json") {
			known := false
			for _, role := range roles {
				if p == kit.MDir+"/"+role+".json" {
					known = true
				}
			}
			vp.Assert(known, "no-other-metadata-file")
		}
	}
}

func temporary() int {
	n := 0
	for _, p := range osshim.VPPaths() {
		if !strings.HasSuffix(p, ".json") {
			n++
		}
	}
	return n
}

func newest(s *kit.State) {
	for _, role := range roles {
		data, ok := osshim.VPGet(kit.MDir + "/" + role + ".json")
		vp.Assert(ok && vp.SameBytes(data, s.Docs[role]), "newest-metadata-stored")
	}
}

func world(old bool, steps int64) (states []*kit.State, net *kit.Net, before map[string]bool) {
	osshim.VPReset()
	osshim.VPChdir("/work")
	if vp.Bool("mount") {
		osshim.VPMount("/c")
	}
	net = kit.NewNet()
	cs := vp.Bool("cs")
	before = map[string]bool{}
	states = []*kit.State{at(1, cs, "x")}
	if old {
		states[0].Publish(net)
		vp.Assert(session(states[0].Docs["root"], net, "x") == nil, "first-session-succeeds")
		newest(states[0])
		for _, role := range roles {
			before[role] = true
		}
	}
	for v := int64(2); v <= 1+steps; v++ {
		states = append(states, at(v, cs, "y"))
		states[v-1].Publish(net)
	}
	return
}

const ops = 48

// recover runs the next session, starting from the original or from the cached root.
func recover_(states []*kit.State, net *kit.Net) {
	root := states[0].Docs["root"]
	if vp.Bool("cachedroot") {
		if d, ok := osshim.VPGet(kit.MDir + "/root.json"); ok {
			root = d
		}
	}
	last := states[len(states)-1]
	err := session(root, net, "y")
	vp.Log("next", err == nil)
	vp.Assert(err == nil, "next-session-succeeds")
	newest(last)
}

// at which operation something happens
func position() int { return vp.Choice("at", ops) + 1 }

func crash(old bool, steps int64) {
	states, net, before := world(old, steps)
	n := position()
	how := vp.Choice("how", 3)
	osshim.VPCrashAt(n, how)
	var err error
	crashed := osshim.VPRun(func() { err = session(states[0].Docs["root"], net, "y") })
	vp.Log("crashed", crashed)
	if !crashed {
		if how != 0 {
			vp.Assume(false) // the same as with the first kind
		}
		vp.Assert(err == nil, "update-succeeds")
		vp.Reach("not interrupted")
	} else {
		vp.Reach("interrupted")
	}
	intact(states, before)
	recover_(states, net)
}

func fail(old bool, steps int64) {
	states, net, before := world(old, steps)
	n := position()
	how := vp.Choice("how", 3)
	c := osshim.VPOpCount()
	osshim.VPFailAtHow(n, how)
	err := session(states[0].Docs["root"], net, "y")
	osshim.VPFailAt(-1 << 30)
	reached := osshim.VPOpCount()-c >= n
	vp.Log("ok", err == nil)
	op := ""
	if reached {
		op = osshim.VPOps()[c+n-1].Op
	}
	if op != "write" && how != 0 {
		vp.Assume(false) // the same as with the first kind
	}
	intact(states, before)
	if err == nil {
		newest(states[len(states)-1])
		vp.Reach("succeeds")
	} else {
		vp.Assert(reached, "update-succeeds")
		vp.Reach("fails")
	}
	vp.Assert(temporary() == 0 || op == "remove", "no-temporary-file-left")
	vp.Assert(osshim.VPOpenFiles() == 0, "no-open-file-left")
	recover_(states, net)
}

// CheckCrashUpdate: a stop at every operation of an update over older metadata.
func CheckCrashUpdate() { crash(true, 1) }

// CheckCrashFirst: a stop at every operation of the first session.
func CheckCrashFirst() { crash(false, 1) }

// CheckFailUpdate: a failure of every operation of an update over older metadata.
func CheckFailUpdate() { fail(true, 1) }

// CheckFailFirst: a failure of every operation of the first session.
func CheckFailFirst() { fail(false, 1) }

// CheckFailKind: all operations of one kind fail.
func CheckFailKind() {
	states, net, before := world(vp.Bool("old"), 1)
	kinds := []string{"openw", "write", "rename", "mkdir", "read", "open"}
	op := kinds[vp.Choice("kind", len(kinds))]
	osshim.VPFailOp(op)
	err := session(states[0].Docs["root"], net, "y")
	osshim.VPFailOp("")
	vp.Log("ok", err == nil)
	intact(states, before)
	vp.Assert(err != nil || op == "read" || op == "open" || op == "mkdir", "failed-write-reported")
	vp.Assert(temporary() == 0, "no-temporary-file-left")
	vp.Assert(osshim.VPOpenFiles() == 0, "no-open-file-left")
	recover_(states, net)
	vp.Reach("kind")
}

// CheckShared: another client that uses the same cache works in the middle of the
// session, right before any of its file operations.
func CheckShared() {
	states, net, before := world(vp.Bool("old"), 1)
	root := states[0].Docs["root"]
	later := vp.Bool("later") // the repository moves on in the meantime
	last := states[len(states)-1]
	next := last
	if later {
		next = at(last.V["root"]+1, last.R.CS, "y")
	}
	ran := false
	osshim.VPBefore(position(), func() {
		ran = true
		if later {
			next.Publish(net)
		}
		vp.Assert(session(root, net, "y") == nil, "other-session-succeeds")
		newest(next)
	})
	err := session(root, net, "y")
	osshim.VPBefore(0, nil)
	vp.Log("ok", err == nil)
	if !ran {
		vp.Assume(false)
	}
	states = append(states, next)
	intact(states, before)
	if !later {
		vp.Assert(err == nil, "session-succeeds")
		newest(last)
		vp.Reach("shared")
	}
	vp.Assert(temporary() == 0, "no-temporary-file-left")
	vp.Assert(osshim.VPOpenFiles() == 0, "no-open-file-left")
	recover_(states, net)
	if later {
		vp.Reach("moved on")
	}
}

// CheckCrashChain: several root versions.
//
//vp:thorough
func CheckCrashChain() { crash(true, 3) }

// CheckFailChain: several root versions.
//
//vp:thorough
func CheckFailChain() { fail(true, 3) }

// CheckTwoCrashes: the next session is interrupted as well.
//
//vp:thorough
func CheckTwoCrashes() {
	states, net, before := world(true, 1)
	for k := 0; k < 2; k++ {
		osshim.VPCrashAt(position(), vp.Choice("how", 2)*2)
		if !osshim.VPRun(func() { _ = session(states[0].Docs["root"], net, "y") }) {
			vp.Assume(false)
		}
		intact(states, before)
	}
	vp.Reach("T:twice")
	recover_(states, net)
}
