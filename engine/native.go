package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type nativeResult struct {
	Status  string   `json:"status"`
	Msgs    []string `json:"msgs"`
	Observe []string `json:"observe"`
	Covers  []string `json:"covers"`
	Missing int      `json:"missing"`
}

type nativeCase struct {
	Inputs []NamedVal       `json:"inputs"`
	Params map[string]int64 `json:"params"`
}

// nativePkg builds one test binary per harness package with every harness of the property.
type nativePkg struct {
	dir string
	bin string
	err string
}

func buildNative(ld *Loaded, pkgPath string, hs []*Harness, tmp string, race bool) *nativePkg {
	mod := ld.P.modPath
	rel := strings.TrimPrefix(strings.TrimPrefix(pkgPath, mod), "/")
	pdir := filepath.Join(*fRepo, rel)
	np := &nativePkg{dir: tmp}
	rep := map[string]string{}
	for d, s := range ld.Overlay {
		rep[d] = s
	}
	// existing tests of an in-package harness are not needed
	if m, _ := filepath.Glob(filepath.Join(pdir, "*_test.go")); m != nil {
		for _, f := range m {
			rep[f] = ""
		}
	}
	name := hs[0].Name[:strings.IndexByte(hs[0].Name, '.')]
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"os\"\n\t\"testing\"\n\tnd \"%s/zzverif/nd\"\n)\n\nfunc TestZZReplay(t *testing.T) {\n\tm := map[string]func(){\n", name, mod)
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", h.Fn, h.Fn)
	}
	sb.WriteString("\t}\n\tnd.RunFile(m[os.Getenv(\"ND_HARNESS\")])\n}\n")
	base := strings.NewReplacer("/", "_", ".", "_").Replace(rel)
	tf := filepath.Join(tmp, base+"_replay_test.go")
	os.WriteFile(tf, []byte(sb.String()), 0o644)
	rep[filepath.Join(pdir, "zz_verif_replay_test.go")] = tf
	ov := filepath.Join(tmp, base+"_overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	os.WriteFile(ov, b, 0o644)
	np.bin = filepath.Join(tmp, base+".test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ov, "-o", np.bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./"+rel)
	cmd := exec.Command("go", args...)
	cmd.Dir = *fRepo
	out, err := cmd.CombinedOutput()
	if err != nil {
		np.err = fmt.Sprintf("native build failed: %v\n%s", err, out)
	}
	return np
}

func (np *nativePkg) run(h *Harness, cs []nativeCase, id string, timeout time.Duration) ([]nativeResult, string) {
	in := filepath.Join(np.dir, id+".in.json")
	out := filepath.Join(np.dir, id+".out.json")
	b, _ := json.Marshal(cs)
	os.WriteFile(in, b, 0o644)
	os.Remove(out)
	wd := filepath.Join(np.dir, id+".wd")
	os.MkdirAll(wd, 0o755)
	cmd := exec.Command("timeout", "-k", "5", fmt.Sprint(int(timeout.Seconds())), np.bin, "-test.run", "^TestZZReplay$", "-test.timeout", "0")
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "ND_REPLAY="+in, "ND_OUT="+out, "ND_HARNESS="+h.Fn)
	o, _ := cmd.CombinedOutput()
	var rs []nativeResult
	if rb, err := os.ReadFile(out); err == nil {
		json.Unmarshal(rb, &rs)
	}
	return rs, string(o)
}

// nativePass confirms violations on the natively compiled code and compares sampled paths.
func nativePass(ld *Loaded, reps []*HarnessReport) {
	byPkg := map[string][]*HarnessReport{}
	for _, r := range reps {
		if r.h.Native && (len(r.Violations) > 0 || len(r.samples) > 0) {
			byPkg[r.h.Pkg] = append(byPkg[r.h.Pkg], r)
		}
	}
	if len(byPkg) == 0 {
		return
	}
	tmp, err := os.MkdirTemp("", "gosym-native-")
	if err != nil {
		return
	}
	defer os.RemoveAll(tmp)
	for pkg, rs := range byPkg {
		var hs []*Harness
		for _, r := range rs {
			hs = append(hs, r.h)
		}
		np := buildNative(ld, pkg, hs, tmp, false)
		if np.err != "" {
			for _, r := range rs {
				r.Mismatch = append(r.Mismatch, np.err)
				for _, v := range r.Violations {
					v.Native = np.err
				}
			}
			continue
		}
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for ri, r := range rs {
			for vi, v := range r.Violations {
				wg.Add(1)
				go func(r *HarnessReport, v *Violation, id string) {
					defer wg.Done()
					sem <- struct{}{}
					defer func() { <-sem }()
					confirm(np, r, v, id)
				}(r, v, fmt.Sprintf("v%d_%d", ri, vi))
			}
			wg.Add(1)
			go func(r *HarnessReport, id string) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				validate(np, r, id)
			}(r, fmt.Sprintf("s%d", ri))
		}
		wg.Wait()
	}
}

func confirm(np *nativePkg, r *HarnessReport, v *Violation, id string) {
	rs, out := np.run(r.h, []nativeCase{{v.Inputs, v.Params}}, id, 60*time.Second)
	if len(rs) == 0 {
		v.Native = "no result: " + tail(out, 1500)
		return
	}
	x := rs[0]
	want := strings.TrimPrefix(v.Key, "assert: ")
	switch v.Kind {
	case "assert":
		for _, m := range x.Msgs {
			if strings.TrimPrefix(firstLine(m), "assert: ") == want {
				v.Native = "confirmed"
				return
			}
		}
		if x.Status == "panic" || x.Status == "crash" {
			v.Native = "confirmed" // the real code fails on this input, by a panic outside the assertion
			v.Msg += "\nnative run panicked: " + strings.Join(x.Msgs, "; ") + tail(out, 800)
			return
		}
	case "panic", "fatal":
		if x.Status == "panic" || x.Status == "crash" {
			v.Native = "confirmed"
			return
		}
	case "deadlock":
		if x.Status == "timeout" {
			v.Native = "confirmed"
			return
		}
	case "exit":
		if x.Status == "crash" {
			v.Native = "confirmed"
			return
		}
	}
	v.Native = fmt.Sprintf("not reproduced: status=%s missing=%d msgs=%v observed=%v", x.Status, x.Missing, x.Msgs, x.Observe)
}

func validate(np *nativePkg, r *HarnessReport, id string) {
	var cs []nativeCase
	var ss []*PathSample
	for _, s := range r.samples {
		if s != nil {
			cs = append(cs, nativeCase{s.Inputs, r.h.P})
			ss = append(ss, s)
		}
	}
	if len(cs) == 0 {
		return
	}
	rs, out := np.run(r.h, cs, id, 120*time.Second)
	for i := range cs {
		if i >= len(rs) {
			r.Mismatch = append(r.Mismatch, "no native result: "+tail(out, 800))
			break
		}
		x := rs[i]
		if x.Status != "ok" {
			r.Mismatch = append(r.Mismatch, fmt.Sprintf("native status %s (%v) on inputs %s %s", x.Status, x.Msgs, inputsStr(ss[i].Inputs), tail(out, 600)))
			continue
		}
		if strings.Join(x.Observe, "\n") != strings.Join(ss[i].Observe, "\n") {
			r.Mismatch = append(r.Mismatch, fmt.Sprintf("observed natively %v, in the engine %v, inputs %s", x.Observe, ss[i].Observe, inputsStr(ss[i].Inputs)))
			continue
		}
		r.Validated++
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
