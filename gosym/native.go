package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

var natSubst = []struct{ re, to string }{
	{`\btime\.Now\(`, "zverif.TimeNow("},
	{`\bos\.WriteFile\(`, "zverif.OsWriteFile("},
	{`\bos\.Rename\(`, "zverif.OsRename("},
	{`\bos\.Remove\(`, "zverif.OsRemove("},
	{`\bos\.MkdirAll\(`, "zverif.OsMkdirAll("},
	{`\bos\.Mkdir\(`, "zverif.OsMkdir("},
	{`\bos\.Exit\(`, "zverif.OsExit("},
	{`\bos\.UserHomeDir\(`, "zverif.OsUserHomeDir("},
	{`\bos\.UserConfigDir\(`, "zverif.OsUserConfigDir("},
	{`\buser\.Current\(`, "zverif.UserCurrent("},
	{`\becdsa\.GenerateKey\(`, "zverif.GenerateKey("},
	{`\btime\.Now\b([^(])`, "zverif.TimeNow$1"},
	{`\b([\w.]+)\.Set(Read|Write|)Deadline\(`, "zverif.Deadline{$1}.Set${2}Deadline("},
}

// buildReplay compiles the harnesses natively against the current tree of /repo (clock and
// file-system calls go through zverif, everything else is the real code).
func buildReplay() (string, func(), error) {
	dir, err := os.MkdirTemp("", "gosym-replay-")
	if err != nil {
		return "", nil, err
	}
	clean := func() { os.RemoveAll(dir) }
	rep := overlayMap()
	fail := func(e error) (string, func(), error) { clean(); return "", nil, e }
	names := []string{}
	re := regexp.MustCompile(`(?m)^func (C\d\d_\w+)\(\)`)
	for _, src := range overlayMap() {
		if filepath.Dir(src) == verifDir+"/harness" {
			b, err := os.ReadFile(src)
			if err != nil {
				return fail(err)
			}
			for _, m := range re.FindAllStringSubmatch(string(b), -1) {
				names = append(names, m[1])
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"os\"\n\th \"" + repoMod + "/internal/zharness\"\n\t\"" + repoMod + "/internal/zverif\"\n)\n\nvar tab = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: h.%s,\n", n, n)
	}
	sb.WriteString("}\n\nfunc main() { zverif.Run(tab[os.Args[1]]) }\n")
	mf := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mf, []byte(sb.String()), 0644); err != nil {
		return fail(err)
	}
	rep[repoDir+"/internal/zreplay/main.go"] = mf
	shim := func(p string, b []byte, always bool) error {
		s := string(b)
		o := s
		for _, x := range natSubst {
			s = regexp.MustCompile(x.re).ReplaceAllString(s, x.to)
		}
		if s == o && !always {
			return nil
		}
		if s != o {
			s = regexp.MustCompile(`(?m)^package \w+.*$`).ReplaceAllString(s, "$0; import zverif \""+repoMod+"/internal/zverif\"")
			for pkg, use := range map[string]string{"time": "time.Duration", "os": "os.FileMode", "os/user": "user.User"} {
				if regexp.MustCompile(`(?m)^(import)?\s*"` + pkg + `"$`).MatchString(s) {
					s += "\nvar _ " + use + "\n"
				}
			}
		}
		f := filepath.Join(dir, strings.ReplaceAll(strings.TrimPrefix(p, "/"), "/", "_"))
		rep[p] = f
		return os.WriteFile(f, []byte(s), 0644)
	}
	for _, top := range []string{"internal", "pkg"} {
		err := filepath.WalkDir(repoDir+"/"+top, func(p string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return err
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			return shim(p, b, false)
		})
		if err != nil {
			return fail(err)
		}
	}
	cp, err := programCopies()
	if err != nil {
		return fail(err)
	}
	for p, b := range cp {
		if err := shim(p, b, true); err != nil {
			return fail(err)
		}
	}
	oj, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(of, oj, 0644); err != nil {
		return fail(err)
	}
	bin := filepath.Join(dir, "zreplay")
	cmd := exec.Command("go", "build", "-overlay", of, "-o", bin, "./internal/zreplay")
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	for _, e := range cmd.Env {
		if p, ok := strings.CutPrefix(e, "GOROOT="); ok {
			cmd.Path = p + "/bin/go"
			cmd.Err = nil
		}
	}
	if out, err := cmd.CombinedOutput(); err != nil {
		return fail(fmt.Errorf("%v: %s", err, out))
	}
	return bin, clean, nil
}

type nativeResult struct {
	code int
	out  string
}

func (r nativeResult) desc() string {
	switch r.code {
	case 0:
		return "completed"
	case 10:
		return "assertion failed: " + r.line("ZVERIF assert failed: ")
	case 11:
		return "assumption not met"
	case 12:
		return "did not finish"
	case 13:
		return "input not constructible"
	case 2:
		return "panic: " + r.line("panic: ")
	}
	return fmt.Sprintf("exit %d", r.code)
}

func (r nativeResult) line(p string) string {
	for _, l := range strings.Split(r.out, "\n") {
		if s, ok := strings.CutPrefix(l, p); ok {
			return s
		}
	}
	return ""
}

func (r nativeResult) tail() string {
	s := r.out
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

func nativeRun(bin, name string, inputs map[string]string, thorough bool, limit int, env ...string) nativeResult {
	dir, err := os.MkdirTemp("", "gosym-run-")
	if err != nil {
		return nativeResult{-1, err.Error()}
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(inputs)
	mf := filepath.Join(dir, "model.json")
	os.WriteFile(mf, b, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(limit+30)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, name)
	wd := filepath.Join(dir, "wd")
	os.Mkdir(wd, 0755)
	cmd.Dir = wd
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	cmd.Env = append([]string{"ZVERIF_MODEL=" + mf, "ZVERIF_TIER=" + tier, fmt.Sprintf("ZVERIF_LIMIT=%ds", limit), "TMPDIR=" + wd, "HOME=" + wd, "PATH=/usr/bin:/bin"}, env...)
	out, err := cmd.CombinedOutput()
	r := nativeResult{0, string(out)}
	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			r.code = ee.ExitCode()
		} else {
			r.code = -1
		}
	}
	return r
}

// confirm replays a counterexample against the real code
func confirm(h *Harness, bin string, have bool, v *Violation, thorough bool, until time.Time) (bool, string) {
	if !h.Native {
		return true, "decided on the compiler's SSA form of the real code (no native replay for this harness)"
	}
	if !have {
		return true, "native replay build failed; decided on the compiler's SSA form of the real code"
	}
	bad := func(r nativeResult) bool {
		return r.code == 10 || r.code == 2 || r.code == 12 && strings.HasPrefix(v.Msg, "hang")
	}
	var last nativeResult
	n := 2
	if h.Sched {
		n = 3
	}
	for i := 0; i < n; i++ {
		if time.Now().After(until) {
			return h.Sched, "not replayed: out of time"
		}
		env := []string{}
		if i > 0 {
			env = append(env, "ZVERIF_SLOW=1")
		}
		if h.Sched {
			env = []string{fmt.Sprintf("ZVERIF_STRESS=%d", 200*(i+1))}
		} else if h.Cfg.mapOrder > 0 || h.Cfg.selFork > 0 {
			env = append(env, fmt.Sprintf("ZVERIF_STRESS=%d", 40*(i*2+1))) // map order and select are random natively
		}
		lim := 60
		if strings.HasPrefix(v.Msg, "hang") {
			lim = 20
		}
		last = nativeRun(bin, h.Name, v.Inputs, thorough, lim, env...)
		if bad(last) {
			return true, "reproduced natively: " + last.desc()
		}
	}
	if h.Sched {
		return true, "schedule found by the solver-driven exploration and re-executed deterministically on the SSA form; native stress runs did not hit the same interleaving (" + last.desc() + ")"
	}
	return false, last.desc()
}

func replayCmd(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	bin, clean, err := buildReplay()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer clean()
	r := nativeRun(bin, rf.Harness, rf.Inputs, false, 60)
	fmt.Printf("%s: %s\n%s\n", rf.Harness, r.desc(), r.out)
	if r.code != 0 {
		return 1
	}
	return 0
}
