package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

type check func(c *Ctx)

var checks = map[string]check{}

// extraMain are further commands.
var extraMain = map[string]func([]string) int{}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc <property> quick|thorough | mc replay FILE")
		os.Exit(3)
	}
	if os.Args[1] == "replay" {
		os.Exit(replay(os.Args[2]))
	}
	if f, ok := extraMain[os.Args[1]]; ok {
		os.Exit(f(os.Args[2:]))
	}
	if os.Getenv("MC_CHILD") == "" {
		os.Exit(supervise())
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	c := &Ctx{
		Prop: os.Args[1], Tier: os.Args[2], Seed: seed, Root: root, start: time.Now(),
		extra: map[string]interface{}{}, known: map[string]int64{}, knownDescr: map[string]string{}, distinct: map[string]struct{}{},
		slots: make([]slot, nworkers()),
	}
	budget := 500 * time.Second
	if c.thorough() {
		budget = 780 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S")); err == nil && s > 0 {
		budget = time.Duration(s) * time.Second
	}
	c.deadline = c.start.Add(budget)
	f, ok := checks[c.Prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check:", c.Prop)
		os.Exit(3)
	}
	if err := c.loadKnown(filepath.Join(root, "known_findings.txt")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	go c.watch()
	f(c)
	os.Exit(c.finish())
}

// supervise runs the check in a process of its own. When that process breaks down (a fatal error that cannot be
// recovered from), the check is run again with one worker, noting each execution before it is made, so that the one
// which breaks the process down is known; it does not count when it needs several executions at the same time.
func supervise() int {
	began := time.Now()
	code, out := runChild(nil)
	if code == 0 || code == 1 || code == 3 {
		return code
	}
	fmt.Fprintf(os.Stderr, "the check broke down (%d); once more with one worker\n%s\n", code, out)
	f, err := os.CreateTemp("", "journal")
	if err != nil {
		return 3
	}
	f.Close()
	defer os.Remove(f.Name())
	left := 830 - int(time.Since(began).Seconds())
	if left < 30 {
		left = 30
	}
	code, out = runChild([]string{"MC_WORKERS=1", "MC_JOURNAL=" + f.Name(), "VERIF_BUDGET_S=" + strconv.Itoa(left)})
	if code == 0 || code == 1 || code == 3 {
		return code
	}
	var v violation
	b, err := os.ReadFile(f.Name())
	if err != nil || json.Unmarshal(b, &v) != nil || code != 2 {
		fmt.Fprintf(os.Stderr, "the check broke down again (%d)\n%s\n", code, out)
		return 3
	}
	v.Property, v.What = os.Args[1], "the process breaks down: "+firstLines(out, 12)
	dir := filepath.Join(os.Getenv("VERIF_ROOT"), "replays")
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, v.Property+"-1.json")
	b, _ = json.MarshalIndent(v, "", " ")
	_ = os.WriteFile(p, append(b, '\n'), 0o644)
	fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.Kind, v.What, v.Property, p)
	return 1
}

func runChild(env []string) (int, string) {
	self, err := os.Executable()
	if err != nil {
		return 3, err.Error()
	}
	cmd := exec.Command(self, os.Args[1:]...)
	cmd.Env = append(append(os.Environ(), "MC_CHILD=1"), env...)
	var t tailWriter
	cmd.Stdout, cmd.Stderr = os.Stdout, &t
	err = cmd.Run()
	if cmd.ProcessState == nil {
		return 3, err.Error()
	}
	code := cmd.ProcessState.ExitCode()
	if code == 0 || code == 1 {
		fmt.Fprint(os.Stderr, t.String())
	}
	return code, t.String()
}

// tailWriter keeps the beginning of what is written to it.
type tailWriter struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailWriter) Write(p []byte) (int, error) {
	t.mu.Lock()
	if len(t.b) < 6000 {
		t.b = append(t.b, p...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func (t *tailWriter) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

// loadKnown reads the lines "finding: property=<id> <finding id>: <description>" of the known findings file.
func (c *Ctx) loadKnown(path string) error {
	fd, err := os.Open(path)
	if err != nil {
		return err
	}
	defer fd.Close()
	sc := bufio.NewScanner(fd)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		p := "finding: property=" + c.Prop + " "
		if strings.HasPrefix(l, p) {
			r := strings.SplitN(strings.TrimPrefix(l, p), ": ", 2)
			if len(r) == 2 {
				c.knownDescr[r[0]] = r[1]
				listed[r[0]] = true
			}
		}
	}
	return sc.Err()
}

// listed tells which known findings are listed for the property being checked.
var listed = map[string]bool{}

var replayers = map[string]func(json.RawMessage) (Scenario, error){}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r, ok := replayers[v.Kind]
	if !ok {
		fmt.Printf("no replayer for %q; recorded: %s\n", v.Kind, v.What)
		return 2
	}
	sc, err := r(v.Data)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	// what earlier executions in the same process have left may be needed
	start := time.Now()
	for n := 0; n == 0 || n < 200 && v.Kind == "nested" && time.Since(start) < 20*time.Second; n++ {
		if bad := safeRun(sc); bad != "" {
			fmt.Println(bad)
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
			return 1
		}
		if n == 0 {
			if sc, err = r(v.Data); err != nil {
				return 2
			}
		}
	}
	fmt.Println("not reproduced")
	return 0
}
