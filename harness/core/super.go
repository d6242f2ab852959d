package core

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"time"
)

// Supervise runs the check in a child process. If the child crashes or hangs,
// it finds the case that made it do so and reports that as a violation.
func Supervise(id, dir, scratch string, args []string, limit time.Duration) int {
	run := func(extra []string, limit time.Duration) (int, string) {
		cmd := exec.Command(os.Args[0], append(append([]string{"child"}, args...), extra...)...)
		cmd.Stdout = os.Stdout
		tail := &tailBuf{}
		cmd.Stderr = tail
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2, ""
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(limit):
			cmd.Process.Kill()
			<-done
			return 5, tail.String()
		}
		return cmd.ProcessState.ExitCode(), tail.String()
	}
	var first string
	for attempt := 0; attempt < 2; attempt++ {
		os.Remove(filepath.Join(scratch, "slots"))
		code, tail := run(nil, limit)
		if code == 0 || code == 1 {
			return code
		}
		fmt.Fprintf(os.Stderr, "child ended with %d; looking for the case\n", code)
		if first == "" {
			first = tail
		}
		cases := readSlots(filepath.Join(scratch, "slots"), id)
		for i, c := range cases {
			p := filepath.Join(scratch, fmt.Sprintf("cand-%d.json", i))
			b, _ := json.Marshal(c)
			os.WriteFile(p, b, 0o644)
			os.Remove(filepath.Join(scratch, "slots"))
			code, tail := run([]string{"-replay", p}, 60*time.Second)
			if code == 1 {
				return 1
			}
			if code != 0 {
				c.What = fmt.Sprintf("the process crashed or did not finish (exit %d):\n%s", code, tail)
				WriteViolation(os.Stdout, dir, c, 0)
				return 1
			}
		}
	}
	// Twice, but no single case does it: it needs the history of the run.
	c := CaseID{Property: id, Family: "whole-run", What: "the process crashed or did not finish, twice, but no single case reproduces it:\n" + first}
	WriteViolation(os.Stdout, dir, c, 0)
	return 1
}

// tailBuf passes everything through to stderr and keeps the beginning.
type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 4000 {
		n := 4000 - len(t.b)
		if n > len(p) {
			n = len(p)
		}
		t.b = append(t.b, p[:n]...)
	}
	if len(p) > 4000 {
		os.Stderr.Write(p[:4000])
	} else {
		os.Stderr.Write(p)
	}
	return len(p), nil
}

func (t *tailBuf) String() string { return string(t.b) }
