package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The monitors run in a supervised child process, so that a crash which cannot be recovered from (a fatal runtime
// error, a panic on a goroutine of the library's, an exit called by the library) is observed and attributed.
// The child says how it ended by an exit code of its own, which nothing else uses.
const (
	supEnv  = "VMON_SUPERVISED"
	supBase = 100 // exit code = supBase + verdict
)

const libPath = "github.com/RTann/libsignal-go/"

// supervise runs the monitors in a child process and returns the exit code of the check.
func supervise(chk *Check, tier string, seed uint64, evDir, repDir string) int {
	dir, err := os.MkdirTemp("", "vsup-")
	if err != nil {
		fmt.Println("INCONCLUSIVE:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	exe, err := os.Executable()
	if err != nil {
		fmt.Println("INCONCLUSIVE:", err)
		return 2
	}
	errFile, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		fmt.Println("INCONCLUSIVE:", err)
		return 2
	}
	cmd := exec.Command(exe, os.Args[1:]...)
	cmd.Env = append(os.Environ(), supEnv+"=1", "GOTRACEBACK=all", "TMPDIR="+dir,
		"VMON_RACELOG="+filepath.Join(dir, "race"), "GORACE=halt_on_error=0 exitcode=0 history_size=4 log_path="+filepath.Join(dir, "race"))
	cmd.Stdout, cmd.Stderr = os.Stdout, errFile
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig is tied to the thread
	start := time.Now()
	err = cmd.Run()
	errFile.Close()
	code := cmd.ProcessState.ExitCode()
	if code >= supBase && code <= supBase+3 {
		return code - supBase
	}
	trace := readTail(filepath.Join(dir, "stderr"), 4<<20)
	fmt.Printf("the monitors' process ended abnormally: %v\n", err)
	what, ok := crashVerdict(code, trace)
	if !ok {
		fmt.Println(clipN(trace, 8000))
		fmt.Println("INCONCLUSIVE:", what)
		return 2
	}
	os.MkdirAll(evDir, 0o755)
	ev, _ := json.MarshalIndent(map[string]any{
		"property": chk.ID, "tier": tier, "seed": seed, "level": chk.Level,
		"coverage":    map[string]any{"evaluations": 1, "distinct_nontrivial": 1, "rule": "the process running the monitors crashed in library code", "samples": []any{what}},
		"assumptions": []string{}, "wall_s": time.Since(start).Seconds(), "violations": 1,
	}, "", " ")
	os.WriteFile(filepath.Join(evDir, chk.ID+".json"), append(ev, '\n'), 0o644)
	os.MkdirAll(repDir, 0o755)
	path := filepath.Join(repDir, fmt.Sprintf("%s-%d-crash.json", chk.ID, seed))
	rb, _ := json.MarshalIndent(map[string]any{"property": chk.ID, "seed": seed, "tier": tier, "what": what, "stack": clipN(trace, 200000),
		"replay_cmd": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s", seed, tier, chk.ID)}, "", " ")
	os.WriteFile(path, rb, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", chk.ID, path, what)
	return 1
}

var crashStart = regexp.MustCompile(`(?m)^(fatal error: |panic: |SIG[A-Z]+: |unexpected fault address|runtime: goroutine stack exceeds)`)

// crashVerdict decides whether the library crashed the process.
func crashVerdict(code int, trace string) (string, bool) {
	loc := crashStart.FindStringIndex(trace)
	if loc == nil {
		if code >= 0 {
			return fmt.Sprintf("the library ended the process with exit code %d", code), true
		}
		return "the monitors' process was killed", false
	}
	trace = trace[loc[0]:]
	head, _, _ := strings.Cut(trace, "\n")
	if strings.Contains(head, "cannot allocate memory") || strings.Contains(head, "out of memory") {
		// whoever asked for the memory is on the first stack
	}
	blocks := strings.Split(trace, "\ngoroutine ")
	for i, b := range blocks[1:] {
		if i > 0 && !strings.Contains(head, "SIGABRT") && !strings.Contains(head, "deadlock") {
			break
		}
		if !strings.Contains(b, libPath) {
			continue
		}
		if i == 0 || strings.Contains(b, "glog") || strings.Contains(head, "deadlock") {
			return "the library crashed the process: " + head, true
		}
	}
	return "the monitors' process crashed outside the library: " + head, false
}

func readTail(path string, n int64) string {
	f, err := os.Open(path)
	if err != nil {
		return ""
	}
	defer f.Close()
	if st, err := f.Stat(); err == nil && st.Size() > n {
		f.Seek(-n, 2)
	}
	b := make([]byte, n)
	k, _ := f.Read(b)
	return string(b[:k])
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// running tracks the jobs in progress, for the hang monitor.
type running struct {
	mu sync.Mutex
	m  map[string]time.Time
}

func (r *running) start(n string) { r.mu.Lock(); r.m[n] = time.Now(); r.mu.Unlock() }
func (r *running) end(n string)   { r.mu.Lock(); delete(r.m, n); r.mu.Unlock() }

// hangMonitor ends the run when a case has been inside one library call for longer than anything legitimate takes.
func (c *C) hangMonitor(limit time.Duration, finish func() int) {
	for {
		time.Sleep(limit / 20)
		c.running.mu.Lock()
		var stuck string
		for n, t := range c.running.m {
			if time.Since(t) > limit {
				stuck = n
			}
		}
		c.running.mu.Unlock()
		if stuck == "" {
			continue
		}
		frame := ""
		for i := 0; i < 5; i++ { // the same library call in every sample
			f := libCall()
			if f == "" || i > 0 && f != frame {
				frame = ""
				break
			}
			frame = f
			time.Sleep(2 * time.Second)
		}
		what := fmt.Sprintf("case %s has not ended after %v", stuck, limit)
		if frame != "" {
			what = fmt.Sprintf("the library call %s does not return (%v)", frame, limit)
		}
		c.mu.Lock()
		if frame != "" && c.ID == "C14" {
			c.viol = append(c.viol, violation{Case: stuck, What: what, Stack: stacks()})
		} else {
			c.inconcl = append(c.inconcl, what+"\n"+stacks())
		}
		c.mu.Unlock()
		os.Exit(supBase + finish())
	}
}

func stacks() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}

// libCall names the outermost library function, with its goroutine, that a case is executing.
func libCall() string {
	for _, g := range strings.Split(stacks(), "\n\n") {
		if !strings.Contains(g, "(*C).runJob") {
			continue
		}
		last := ""
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, libPath) {
				if i := strings.LastIndex(l, "("); i > 0 {
					last = l[:i]
				}
			}
		}
		if last != "" {
			id, _, _ := strings.Cut(g, "[")
			return strings.TrimSpace(id) + " " + last
		}
	}
	return ""
}
