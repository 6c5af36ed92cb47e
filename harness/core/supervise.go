package core

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

type tail struct {
	buf bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	if t.buf.Len() > 16<<20 {
		return len(p), nil
	}
	return t.buf.Write(p)
}

// Supervise re-executes this binary as the worker of a check. A worker that dies
// from a panic or fatal error raised inside the code under test is a violation.
func Supervise(prop string) int {
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	limit := 850 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		limit = 5 * time.Hour
	}
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	_ = os.Remove(filepath.Join(root, "evidence", prop+".json"))
	cmd := exec.Command(exe, "worker", prop)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	if prop == "C20" {
		dir, err := os.MkdirTemp("", "verif-race")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		defer os.RemoveAll(dir)
		cmd.Env = append(cmd.Env, "VERIF_RACE_LOG="+filepath.Join(dir, "race"),
			"GORACE=exitcode=0 halt_on_error=0 history_size=3 log_path="+filepath.Join(dir, "race"))
	}
	var errBuf, outBuf tail
	cmd.Stdout = io.MultiWriter(os.Stdout, &outBuf)
	cmd.Stderr = &errBuf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	select {
	case err = <-done:
	case <-time.After(limit):
		timedOut = true
		_ = cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case err = <-done:
		case <-time.After(20 * time.Second):
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			err = <-done
		}
	}
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	stderr := errBuf.buf.String()
	if timedOut {
		_ = os.WriteFile(filepath.Join(root, "evidence", prop+".timeout.txt"), []byte(stderr), 0o644)
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE: worker exceeded %v\n", limit)
		return 3
	}
	if err == nil {
		return 0
	}
	code := -1
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
	}
	if code == 1 && strings.Contains(outBuf.buf.String(), "VIOLATION property="+prop) {
		return 1
	}
	if crashed, first := crashInRepo(stderr); crashed {
		dir := filepath.Join(root, "evidence", "replay")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, prop+"-crash.txt")
		_ = os.WriteFile(path, []byte(stderr), 0o644)
		ev := fmt.Sprintf(`{"property":%q,"tier":%q,"seed":1,"level":"exploration","coverage":{"evaluations":1,"distinct_nontrivial":1,"rule":"worker crashed","samples":[%q]},"wall_s":0,"violations":1}`, prop, tierName(), first)
		_ = os.WriteFile(filepath.Join(root, "evidence", prop+".json"), []byte(ev), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  [crash] %s\n", prop, path, first)
		return 1
	}
	if len(stderr) > 6000 {
		stderr = stderr[:6000]
	}
	fmt.Fprintf(os.Stderr, "error: worker ended with %v\n%s\n", err, stderr)
	return 3
}

func tierName() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// crashInRepo tells whether the Go runtime aborted in a goroutine that was
// executing the code under test.
func crashInRepo(stderr string) (bool, string) {
	i := strings.Index(stderr, "panic: ")
	if j := strings.Index(stderr, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		return false, ""
	}
	rest := stderr[i:]
	first := rest
	if k := strings.Index(rest, "\n"); k >= 0 {
		first = rest[:k]
	}
	if strings.HasPrefix(first, "panic: harness panic") {
		return false, first
	}
	g := strings.Index(rest, "\ngoroutine ")
	if g < 0 {
		return false, first
	}
	stack := rest[g+1:]
	if e := strings.Index(stack, "\n\n"); e >= 0 {
		stack = stack[:e]
	}
	if strings.Contains(first, "all goroutines are asleep") {
		return strings.Contains(rest, RepoPath), first
	}
	return strings.Contains(stack, RepoPath), first
}
