// Replay harness: runs the real code in /repo against an executable reading of the same specification, looking for a
// concrete failing execution. It supports the deductive checks (a counterexample for a failed obligation, a test of the
// contracts assumed for library code); it never stands in for a proof.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

type report struct {
	Cases   int    `json:"cases"`
	Failure string `json:"failure"`
}

type run struct {
	prop  string
	rng   *rand.Rand
	until time.Time
	cases int
	hist  []string // the operations of the current case
}

type failure struct{ msg string }
type giveUp struct{}

func (r *run) log(format string, a ...interface{}) {
	r.hist = append(r.hist, fmt.Sprintf(format, a...))
}

// bad reports a mismatch if it concerns the property being checked, and ends the case in any event
func (r *run) bad(tags string, format string, a ...interface{}) {
	if strings.Contains(" "+tags+" ", " "+r.prop+" ") {
		panic(failure{strings.Join(r.hist, "\n") + "\n=> " + fmt.Sprintf(format, a...)})
	}
	panic(giveUp{})
}

func (r *run) more() bool { return time.Now().Before(r.until) }

// one case, with a watchdog: an operation that does not return is a failure too
func (r *run) one(tagsPanic string, f func()) (fail string) {
	r.cases++
	r.hist = nil
	done := make(chan string, 1)
	go func() {
		defer func() {
			switch e := recover().(type) {
			case nil:
				done <- ""
			case failure:
				done <- e.msg
			case giveUp:
				done <- ""
			default:
				if strings.Contains(" "+tagsPanic+" ", " "+r.prop+" ") {
					done <- strings.Join(r.hist, "\n") + fmt.Sprintf("\n=> panic: %v\n%s", e, trimStack(debug.Stack()))
				} else {
					done <- ""
				}
			}
		}()
		f()
	}()
	select {
	case s := <-done:
		return s
	case <-time.After(40 * time.Second):
		return strings.Join(r.hist, "\n") + "\n=> does not return"
	}
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "xxcache") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

var suites = map[string]func(*run) string{}

func main() {
	prop := flag.String("p", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	dur := flag.Duration("dur", 8*time.Second, "time to spend")
	flag.Parse()
	r := &run{prop: *prop, rng: rand.New(rand.NewSource(*seed)), until: time.Now().Add(*dur)}
	f := suites[*prop]
	if f == nil {
		fmt.Println("{}")
		return
	}
	stdout := os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout, os.Stderr = null, null
	fail := f(r)
	json.NewEncoder(stdout).Encode(report{r.cases, fail})
}

func q(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q...(%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}
