package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The native confirmation of a violation that depends on the schedule: the packages
// with concurrency are compiled with a possible goroutine switch ahead of every
// statement, once as they are and once with the race detector, and the case is run
// under many schedules that favour the operations of the counterexample.

var yieldDirs = []string{"ag", "optimizers", "nn", "mat"}

func (d *driver) yieldOverlay() (map[string]string, error) {
	out := map[string]string{}
	for k, v := range d.repl {
		out[k] = v
	}
	n := 0
	for _, dir := range yieldDirs {
		files, err := filepath.Glob(filepath.Join(d.repo, dir, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			from := f
			if r, ok := d.repl[f]; ok {
				from = r
			}
			src, err := os.ReadFile(from)
			if err != nil {
				return nil, err
			}
			fs := token.NewFileSet()
			af, err := parser.ParseFile(fs, f, src, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			rel, _ := filepath.Rel(d.repo, f)
			type ins struct {
				off int
				s   string
			}
			var is []ins
			add := func(list []ast.Stmt) {
				for _, s := range list {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					p := fs.PositionFor(s.Pos(), false)
					is = append(is, ins{p.Offset, fmt.Sprintf("zzyield.Y(%q);", rel+":"+strconv.Itoa(p.Line))})
				}
			}
			ast.Inspect(af, func(x ast.Node) bool {
				switch b := x.(type) {
				case *ast.BlockStmt:
					add(b.List)
				case *ast.CaseClause:
					add(b.Body)
				case *ast.CommClause:
					add(b.Body)
				}
				return true
			})
			// the bodies of switch and select hold clauses, not statements
			clause := map[int]bool{}
			ast.Inspect(af, func(x ast.Node) bool {
				switch c := x.(type) {
				case *ast.CaseClause, *ast.CommClause:
					clause[fs.PositionFor(c.Pos(), false).Offset] = true
				}
				return true
			})
			var keep []ins
			seen := map[int]bool{}
			for _, i := range is {
				if !clause[i.off] && !seen[i.off] {
					seen[i.off] = true
					keep = append(keep, i)
				}
			}
			if len(keep) == 0 {
				continue
			}
			keep = append(keep, ins{fs.PositionFor(af.Name.End(), false).Offset, "; import \"github.com/nlpodyssey/spago/zzverif/zzyield\""})
			sort.Slice(keep, func(i, j int) bool { return keep[i].off < keep[j].off })
			var sb strings.Builder
			at := 0
			for _, i := range keep {
				sb.Write(src[at:i.off])
				sb.WriteString(i.s)
				at = i.off
			}
			sb.Write(src[at:])
			n++
			tf := filepath.Join(d.tmp, fmt.Sprintf("yield%d.go", n))
			if err := os.WriteFile(tf, []byte(sb.String()), 0o644); err != nil {
				return nil, err
			}
			out[f] = tf
		}
	}
	return out, nil
}

func (d *driver) buildYield(race bool) (string, error) {
	key := "yield"
	if race {
		key = "yieldrace"
	}
	if b, ok := d.bins[key]; ok {
		return b, nil
	}
	repl, err := d.yieldOverlay()
	if err != nil {
		return "", err
	}
	repl[filepath.Join(d.repo, "zzverif", "zzmain", "main.go")] = filepath.Join(d.tmp, "main.go")
	ob, _ := json.Marshal(map[string]any{"Replace": repl})
	of := filepath.Join(d.tmp, key+".json")
	os.WriteFile(of, ob, 0o644)
	bin := filepath.Join(d.tmp, "native"+key)
	args := []string{"build", "-overlay", of, "-o", bin, "-tags", "purego,noasm"}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./zzverif/zzmain")
	cmd := exec.Command("go", args...)
	cmd.Dir = d.repo
	cmd.Env = d.goEnv()
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	d.bins[key] = bin
	return bin, nil
}

// confirmSched looks for a schedule of the compiled code that shows the violation.
func (d *driver) confirmSched(h *Harness, v Violation) (string, bool) {
	plain, err := d.buildYield(false)
	if err != nil {
		return "instrumented build failed: " + err.Error(), false
	}
	race, err := d.buildYield(true)
	if err != nil {
		return "race build failed: " + err.Error(), false
	}
	c := caseJSON{h.Name, v.Inputs, d.thorough}
	b, _ := json.Marshal(c)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	type res struct {
		s   string
		hit bool
	}
	ch := make(chan res, 8)
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			bin := plain
			if k%2 == 1 {
				bin = race
			}
			last := "no violation in the schedules tried"
			for round := 0; ctx.Err() == nil && round < 40; round++ {
				rc, stop := context.WithTimeout(ctx, 12*time.Second)
				args := []string{bin}
				if k >= 2 {
					if t, err := exec.LookPath("taskset"); err == nil {
						args = append([]string{t, "-c", strconv.Itoa(k)}, args...)
					}
				}
				cmd := exec.CommandContext(rc, args[0], args[1:]...)
				cmd.Dir = d.tmp
				cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOSYM_SCHED=150", "GOSYM_SCHEDSEED="+strconv.Itoa(1000*round+100000*k+int(d.seed)), "GOSYM_HOT="+strings.Join(v.Hot, ","))
				cmd.Stdin = strings.NewReader(string(b) + "\n")
				var out, errb strings.Builder
				cmd.Stdout, cmd.Stderr = &out, &errb
				err := cmd.Run()
				to := rc.Err() != nil
				stop()
				if ctx.Err() != nil {
					break
				}
				if to {
					if v.Kind == "deadlock" {
						ch <- res{"does not terminate", true}
						return
					}
					continue
				}
				var r resJSON
				if json.Unmarshal([]byte(strings.TrimSpace(out.String())), &r) != nil || err != nil {
					ch <- res{"crash: " + firstLines(errb.String(), 12), true}
					return
				}
				if strings.HasPrefix(r.Res, "violation") || strings.HasPrefix(r.Res, "panic") && !strings.Contains(r.Res, "vrt: input") {
					ch <- res{r.Res, true}
					return
				}
				last = r.Res
			}
			ch <- res{last, false}
		}(k)
	}
	last := ""
	for k := 0; k < 4; k++ {
		r := <-ch
		if r.hit {
			cancel()
			wg.Wait()
			return r.s, true
		}
		last = r.s
	}
	return last, false
}

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}
