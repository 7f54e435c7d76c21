// Package pipelinereplay replays failed obligations of package pipeline against the
// real code. It runs only after the deductive verifier has rejected an
// obligation (or in the thorough tier), to look for a concrete failing input.
package pipelinereplay

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"
)

const hangTimeout = 15 * time.Second

var current = os.Getenv("VERIF_CURRENT")

func seed() int64 {
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return s
	}
	return 1
}

func budget() time.Duration {
	if s, err := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64); err == nil {
		return time.Duration(s * float64(time.Second))
	}
	return 5 * time.Second
}

func goid() string {
	var b [64]byte
	s := string(b[:runtime.Stack(b[:], false)])
	return strings.Fields(s)[1]
}

func setCurrent(s string) {
	if current != "" {
		os.WriteFile(current, []byte(s+"\n"), 0o644)
	}
}

// guarded runs f and reports whether it panicked or hung
func guarded(f func()) (panicked bool, value interface{}, hung bool) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		panicked = true
		defer func() {
			if panicked {
				value = recover()
			}
		}()
		f()
		panicked = false
	}()
	t := time.NewTimer(hangTimeout)
	defer t.Stop()
	select {
	case <-done:
		return
	case <-t.C:
		return false, nil, true
	}
}

// search calls try with increasing numbers until it fails or the budget is used up
func search(t *testing.T, minimum int, try func(i int) (input, problem string)) {
	deadline := time.Now().Add(budget())
	n := 0
	for n < minimum || time.Now().Before(deadline) {
		if time.Now().After(deadline.Add(60 * time.Second)) {
			break
		}
		in, msg := try(n)
		n++
		if msg != "" {
			t.Errorf("FAILING INPUT: %s\n  %s", in, strings.Replace(msg, "\n", "\n  ", -1))
			break
		}
	}
	t.Logf("evaluations=%d", n)
}

func short(v interface{}) string {
	s := fmt.Sprintf("%v", v)
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return strings.Replace(s, "\n", " ", -1)
}
