package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"time"
)

type runReq struct {
	Entry    string            `json:"entry"`
	Vals     map[string]uint64 `json:"vals"`
	Thorough bool              `json:"thorough"`
}

type runRes struct {
	Failed []string `json:"failed"`
	Panic  string   `json:"panic"`
	Log    []string `json:"log"`
	Reach  []string `json:"reach"`
	Assume bool     `json:"assume"`
	Exit   bool     `json:"exit"`
	Crash  string   `json:"-"`
}

type nativeProg struct {
	bin string
	dir string
}

func buildNative(repo string, ov map[string][]byte, pkg string, entries []string) (*nativeProg, error) {
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	np := &nativeProg{dir: dir, bin: filepath.Join(dir, "prog")}
	oj, err := writeOverlay(dir, repo, ov, pkg, entries)
	if err != nil {
		return np, err
	}
	cmd := exec.Command("go", "build", "-overlay", oj, "-o", np.bin, modPath+"/zzverif/zmain")
	cmd.Dir = repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return np, fmt.Errorf("native build: %v\n%s", err, out)
	}
	return np, nil
}

func (n *nativeProg) close() {
	if n != nil {
		os.RemoveAll(n.dir)
	}
}

// run executes the requests in one process; a dying process yields Crash on the
// request it died in and the rest are run in a new one.
func (n *nativeProg) run(reqs []runReq, perReq time.Duration) []runRes {
	res := make([]runRes, 0, len(reqs))
	for len(res) < len(reqs) {
		part := reqs[len(res):]
		var inb bytes.Buffer
		enc := json.NewEncoder(&inb)
		for _, r := range part {
			enc.Encode(r)
		}
		ctx, cancel := context.WithTimeout(context.Background(), perReq*time.Duration(1+len(part)/20))
		cmd := exec.CommandContext(ctx, n.bin)
		cmd.Stdin = &inb
		cmd.Dir = n.dir
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB")
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		out, err := cmd.Output()
		sc := bufio.NewScanner(bytes.NewReader(out))
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		k := 0
		for sc.Scan() {
			if len(sc.Bytes()) < 4 || string(sc.Bytes()[:4]) != "@@R " {
				continue
			}
			var r runRes
			if json.Unmarshal(sc.Bytes()[4:], &r) == nil && k < len(part) {
				res = append(res, r)
				k++
			}
		}
		timedOut := ctx.Err() != nil
		cancel()
		if k == len(part) {
			break
		}
		why := "crash: " + tail(stderr.String(), 600)
		if timedOut {
			why = "timeout"
		} else if err == nil {
			why = "exit"
		}
		res = append(res, runRes{Crash: why})
	}
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
