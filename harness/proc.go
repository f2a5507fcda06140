package main

import (
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
)

func setPgid(cmd *exec.Cmd) { cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true} }

func killGroup(cmd *exec.Cmd) {
	if cmd.Process != nil {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
}

// asleep: every thread of the process sleeps, in nearly every one of 40 looks
// over two seconds. A process that is only short of processor time has threads
// that are ready to run, and so is never taken for a deadlocked one.
func asleep(pid int) bool {
	ready := 0
	for i := 0; i < 40; i++ {
		dir := fmt.Sprintf("/proc/%d/task", pid)
		tasks, err := os.ReadDir(dir)
		if err != nil || len(tasks) == 0 {
			return false
		}
		for _, t := range tasks {
			b, err := os.ReadFile(dir + "/" + t.Name() + "/stat")
			if err != nil {
				continue
			}
			s := string(b)
			if j := strings.LastIndex(s, ") "); j < 0 || j+2 >= len(s) || s[j+2] != 'S' {
				ready++
				break
			}
		}
		time.Sleep(50 * time.Millisecond)
	}
	return ready <= 2
}

// dumpGoroutines asks a Go process for its stacks and gives it time to write
// them.
func dumpGoroutines(cmd *exec.Cmd, done <-chan error) bool {
	if cmd.Process == nil {
		return false
	}
	cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-done:
		return true
	case <-time.After(3 * time.Second):
		return false
	}
}
