package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Native replay: the same harness functions, compiled against the repository's current tree, run on concrete values.

type replayJob struct {
	Fn      string            `json:"fn"`
	Vals    map[string]uint64 `json:"vals"`
	Tier    int               `json:"tier"`
	Repeat  int               `json:"repeat"`
	LimitMs int               `json:"limit_ms"`
}

type replayRes struct {
	Idx  int      `json:"i"`
	Kind string   `json:"kind"`
	Msg  string   `json:"msg"`
	Obs  []string `json:"obs"`
	Runs int      `json:"runs"`
}

type harnessFn struct {
	pkg    string // import path
	fn     string
	doc    string
	setup  bool
	setups []string
}

type replayer struct {
	dir  string
	bin  string
	err  error
	done chan struct{}
	race bool
}

func startReplayer(repo, harnessDir string, fns []harnessFn) *replayer {
	r := &replayer{done: make(chan struct{})}
	go func() {
		defer close(r.done)
		r.err = r.build(repo, harnessDir, fns)
	}()
	return r
}

func (r *replayer) build(repo, harnessDir string, fns []harnessFn) error {
	dir, err := os.MkdirTemp("", "gosym-replay-")
	if err != nil {
		return err
	}
	r.dir = dir
	ov, err := overlayFiles(harnessDir, repo, dir)
	if err != nil {
		return err
	}
	// keep native-only and shared files; symbolic-only files carry a build constraint
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"sigs.k8s.io/controller-tools/pkg/zzverif/sym/replay\"\n")
	alias := map[string]string{}
	var paths []string
	for _, f := range fns {
		if _, ok := alias[f.pkg]; !ok {
			alias[f.pkg] = fmt.Sprintf("h%d", len(alias))
			paths = append(paths, f.pkg)
		}
	}
	for _, p := range paths {
		fmt.Fprintf(&sb, "\t%s %q\n", alias[p], p)
	}
	sb.WriteString(")\n\nfunc main() {\n\treplay.Main(map[string]func(){\n")
	for _, f := range fns {
		a := alias[f.pkg]
		fmt.Fprintf(&sb, "\t\t%q: func() {", f.pkg+"."+f.fn)
		if f.setup {
			fmt.Fprintf(&sb, " %s.Setup();", a)
		}
		for _, n := range f.setups {
			fmt.Fprintf(&sb, " %s.%s();", a, n)
		}
		fmt.Fprintf(&sb, " %s.%s() },\n", a, f.fn)
	}
	sb.WriteString("\t})\n}\n")
	mainFile := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mainFile, []byte(sb.String()), 0o644); err != nil {
		return err
	}
	ov[filepath.Join(repo, "pkg/zzverif/replaymain/main.go")] = mainFile
	ob, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, ob, 0o644); err != nil {
		return err
	}
	r.bin = filepath.Join(dir, "replay")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", r.bin, "./pkg/zzverif/replaymain")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=", "CGO_ENABLED=0", "GOPROXY=off", "GOWORK=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v\n%s", err, out)
	}
	return nil
}

func (r *replayer) close() {
	<-r.done
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

// run executes the jobs, each outcome in order. A job that kills the process counts as a crash of that job.
func (r *replayer) run(jobs []replayJob) ([]replayRes, error) {
	<-r.done
	if r.err != nil {
		return nil, r.err
	}
	res := make([]replayRes, len(jobs))
	// spread over a few processes
	n := 4
	if len(jobs) < n {
		n = len(jobs)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var firstErr error
	for k := 0; k < n; k++ {
		var idx []int
		for i := k; i < len(jobs); i += n {
			idx = append(idx, i)
		}
		wg.Add(1)
		go func(k int, idx []int) {
			defer wg.Done()
			if err := r.runSome(k, jobs, idx, res); err != nil {
				mu.Lock()
				firstErr = err
				mu.Unlock()
			}
		}(k, idx)
	}
	wg.Wait()
	return res, firstErr
}

func (r *replayer) runSome(k int, jobs []replayJob, idx []int, res []replayRes) error {
	for len(idx) > 0 {
		var list []replayJob
		for _, i := range idx {
			list = append(list, jobs[i])
		}
		b, _ := json.Marshal(list)
		jf := filepath.Join(r.dir, fmt.Sprintf("jobs%d.json", k))
		if err := os.WriteFile(jf, b, 0o644); err != nil {
			return err
		}
		scratch := filepath.Join(r.dir, fmt.Sprintf("scratch%d", k))
		os.RemoveAll(scratch)
		os.MkdirAll(scratch, 0o755)
		cmd := exec.Command(r.bin, jf)
		cmd.Dir = scratch
		cmd.Env = append(os.Environ(), "ZZ_SCRATCH="+scratch, "TMPDIR="+scratch, "GOPACKAGESDRIVER="+r.bin, "GOMAXPROCS=2", "GOMEMLIMIT=3GiB")
		var errb strings.Builder
		cmd.Stderr = &limitWriter{&errb, 20000}
		so, err := cmd.StdoutPipe()
		if err != nil {
			return err
		}
		if err := cmd.Start(); err != nil {
			return err
		}
		timer := time.AfterFunc(240*time.Second, func() { cmd.Process.Kill() })
		got := 0
		sc := bufio.NewScanner(so)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			line := sc.Text()
			if !strings.HasPrefix(line, "@R ") {
				continue
			}
			var rr replayRes
			if err := json.Unmarshal([]byte(line[3:]), &rr); err != nil {
				return err
			}
			if rr.Idx != got {
				return fmt.Errorf("replay results out of order")
			}
			res[idx[got]] = rr
			got++
		}
		cmd.Wait()
		timer.Stop()
		if got < len(idx) {
			msg := errb.String()
			if len(msg) > 2000 {
				msg = msg[:2000]
			}
			res[idx[got]] = replayRes{Kind: "crash", Msg: msg}
			got++
		}
		idx = idx[got:]
	}
	return nil
}

type limitWriter struct {
	sb *strings.Builder
	n  int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.sb.Len() < l.n {
		l.sb.Write(p)
	}
	return len(p), nil
}

func valsOf(f Finding) map[string]uint64 {
	v := map[string]uint64{}
	for _, c := range f.Choices {
		v[c.Name] = c.Val
	}
	return v
}

func showVals(v map[string]uint64) string {
	// strings are shown assembled
	strs := map[string]map[int]byte{}
	var keys []string
	for k := range v {
		if i := strings.LastIndex(k, "["); i > 0 && strings.HasSuffix(k, "]") {
			var n int
			fmt.Sscanf(k[i+1:], "%d]", &n)
			if strs[k[:i]] == nil {
				strs[k[:i]] = map[int]byte{}
				keys = append(keys, k[:i])
			}
			strs[k[:i]][n] = byte(v[k])
			continue
		}
		if strings.HasSuffix(k, ".len") {
			if v[k] == 0 {
				keys = append(keys, strings.TrimSuffix(k, ".len"))
				strs[strings.TrimSuffix(k, ".len")] = map[int]byte{}
			}
			continue
		}
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var parts []string
	for _, k := range keys {
		if s, ok := strs[k]; ok {
			b := make([]byte, len(s))
			for i, c := range s {
				if i < len(b) {
					b[i] = c
				}
			}
			parts = append(parts, fmt.Sprintf("%s=%q", k, b))
		} else {
			parts = append(parts, fmt.Sprintf("%s=%d", k, int64(v[k])))
		}
	}
	return strings.Join(parts, " ")
}
