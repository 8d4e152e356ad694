package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sync"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/tools"
)

// Together is a set of runs in this process.
type Together struct {
	ID    int   `json:"id"`
	Progs []any `json:"progs"` // lists of expressions
	Runs  []struct {
		T Bytes `json:"t"`
		P int   `json:"p"` // index of the program
	} `json:"runs"`
	Sched []int  `json:"sched"` // the run to move at each step, from 1
	How   string `json:"how"`   // step: by the schedule; seq: one after another; free: all at once
	Envs  int    `json:"envs"`  // 1: one environment for all; 2: one for each
}

type RunResult struct {
	OK string `json:"ok"`
	V  any    `json:"v"`
	S  State  `json:"s"`
	N  int    `json:"n"`
	M  Match  `json:"m"`
}

type TogetherTrace struct {
	ID  int         `json:"id"`
	Obs [][]State   `json:"obs"`
	Res []RunResult `json:"res"`
	Odd []string    `json:"odd"`
}

// functionsOf identifies the functions of an environment.
func functionsOf(env *edlisp.Environment) map[string]uintptr {
	fs := map[string]uintptr{}
	for n, f := range env.Functions {
		fs[n] = reflect.ValueOf(f).Pointer()
	}
	return fs
}

func (r *RunResult) finish(prog []edlisp.Value, buf *edlisp.Buffer, v edlisp.Value, err error, n int) {
	r.N, r.V, r.S, r.M = n, noValue, stateOf(buf), Match{X: Bytes{}}
	if err == nil {
		r.OK = "ok"
		if v != nil {
			r.V = toSpec(v)
		}
		return
	}
	r.OK = "err"
	var xe *edlisp.ExecutionError
	if errors.As(err, &xe) {
		r.N = xe.InstructionIndex
		r.M = Match{toBytes(xe.LastSearchMatch), xe.LastSearchStart, xe.LastSearchEnd}
		if o := odd(xe, len(prog), prog, buf); o != "" {
			r.OK = "err: " + o
		}
	} else {
		r.N = -1
	}
}

func together(c Together, r *TogetherTrace) {
	shared := edlisp.NewDefaultEnvironment()
	before := functionsOf(shared)
	progs := make([][]edlisp.Value, len(c.Progs))
	wrote := make([]any, len(c.Progs))
	for i, p := range c.Progs {
		var vs []any
		for _, x := range p.([]any) {
			progs[i] = append(progs[i], fromSpec(x))
		}
		for _, v := range progs[i] {
			vs = append(vs, toSpec(v))
		}
		wrote[i] = vs
	}
	n := len(c.Runs)
	bufs := make([]*edlisp.Buffer, n)
	r.Res = make([]RunResult, n)
	env := func() *edlisp.Environment {
		if c.Envs == 2 {
			return edlisp.NewDefaultEnvironment()
		}
		return shared
	}
	for i, run := range c.Runs {
		bufs[i] = edlisp.NewBuffer(run.T.String())
	}
	switch c.How {
	case "seq":
		for i, run := range c.Runs {
			p := progs[run.P]
			steps := 0
			v, err := edlisp.EvalWithTrace(p, env(), bufs[i], func(*edlisp.TraceContext) { steps++ })
			r.Res[i].finish(p, bufs[i], v, err, steps)
		}
		// the buffers of earlier runs are as they were when these ended
		for i := range c.Runs {
			if got := stateOf(bufs[i]); !reflect.DeepEqual(got, r.Res[i].S) {
				r.Odd = append(r.Odd, fmt.Sprintf("buffer %d was changed by a later run", i))
			}
		}
	case "free":
		var wg sync.WaitGroup
		start := make(chan bool)
		for i, run := range c.Runs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p := progs[run.P]
				<-start
				steps := 0
				v, err := edlisp.EvalWithTrace(p, env(), bufs[i], func(*edlisp.TraceContext) { steps++ })
				r.Res[i].finish(p, bufs[i], v, err, steps)
			}()
		}
		close(start)
		wg.Wait()
	default:
		// every run waits for its turn before each instruction
		turn := make([]chan bool, n)
		moved := make(chan bool)
		done := make([]bool, n)
		for i, run := range c.Runs {
			turn[i] = make(chan bool)
			go func() {
				p := progs[run.P]
				<-turn[i]
				steps := 0
				v, err := edlisp.EvalWithTrace(p, env(), bufs[i], func(*edlisp.TraceContext) {
					steps++
					if steps < len(p) {
						moved <- true
						<-turn[i]
					}
				})
				r.Res[i].finish(p, bufs[i], v, err, steps)
				done[i] = true
				moved <- true
			}()
		}
		for _, i := range c.Sched {
			if done[i-1] {
				r.Odd = append(r.Odd, fmt.Sprintf("run %d ended before its last step", i))
				continue
			}
			turn[i-1] <- true
			<-moved
			var all []State
			for _, b := range bufs {
				all = append(all, stateOf(b))
			}
			r.Obs = append(r.Obs, all)
		}
		for i := range c.Runs {
			if len(progs[c.Runs[i].P]) == 0 {
				turn[i] <- true
				<-moved
			}
			if !done[i] {
				r.Odd = append(r.Odd, fmt.Sprintf("run %d goes on after its last step", i+1))
			}
		}
	}
	for i := range progs {
		vs := []any{}
		for _, v := range progs[i] {
			vs = append(vs, toSpec(v))
		}
		if len(vs) > 0 && !reflect.DeepEqual(vs, wrote[i]) {
			r.Odd = append(r.Odd, fmt.Sprintf("program %d was changed", i))
		}
	}
	if !reflect.DeepEqual(functionsOf(shared), before) {
		r.Odd = append(r.Odd, "the functions available were changed")
	}
	// what is done to one environment is not done to others
	shared.Functions["verif-extra"] = shared.Functions["point"]
	delete(shared.Functions, "insert")
	fresh := functionsOf(edlisp.NewDefaultEnvironment())
	for n := range before {
		if _, ok := fresh[n]; !ok {
			r.Odd = append(r.Odd, "a fresh environment lacks "+n)
		}
	}
	if len(fresh) != len(before) {
		r.Odd = append(r.Odd, "a fresh environment has other functions")
	}
}

func cmdRuns() {
	eachLine(func(line []byte) {
		var c Together
		decode(line, &c)
		r := TogetherTrace{ID: c.ID, Obs: [][]State{}, Odd: []string{}}
		if bad := guarded(func() { together(c, &r) }); bad != "" {
			emit(TogetherTrace{ID: c.ID, Odd: []string{bad}})
			os.Exit(4)
		}
		emit(r)
	})
}

// ---- scripts at the same time, at every entry point ------------------------
type uses struct {
	ID    int          `json:"id"`
	Cases []ScriptCase `json:"cases"`
	Conc  int          `json:"conc"`
	Times int          `json:"times"`
	Again int          `json:"again"` // so many further uses; those that differ from the first are kept
}

func useOnce(c ScriptCase, k int, dir string) ScriptTrace {
	src, t := c.Src.String(), c.T.String()
	r := ScriptTrace{ID: c.ID, Src: c.Src, Fmt: c.Fmt, T: c.T, POK: "-", OK: "-", VOK: "-", PV: []any{}, O: Bytes{}, V: noValue, VT: Bytes{}, DOK: "-", DV: []any{}, Odd: []string{}}
	if r.Src == nil {
		r.Src = Bytes{}
	}
	if r.T == nil {
		r.T = Bytes{}
	}
	set := func(ok bool, out string) {
		r.OK = verdict(ok)
		if ok {
			r.O = toBytes(out)
		}
	}
	file := func(f func(p string) bool) {
		p := filepath.Join(dir, fmt.Sprintf("f%d-%d", c.ID, k))
		if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
			fatal("%v", err)
		}
		ok := f(p)
		got := readScratch(p)
		os.Remove(p)
		if !ok && got != t {
			r.odd("failed but changed the file")
		}
		set(ok, got)
	}
	auto := c.Fmt == "auto"
	switch {
	case auto && k%2 == 0, c.Fmt == "shell" && k%7 == 5:
		out, ok := callTool(tools.TextedEvalHandler, map[string]any{"input": t, "script": src})
		if !auto {
			r.Fmt = "auto"
		}
		set(ok, out)
	case auto:
		file(func(p string) bool {
			out, ok := callTool(tools.EditFileHandler, map[string]any{"files": []any{p}, "script": src})
			return ok && len(out) > 8 && out[:9] == "All files"
		})
	case k%7 == 0:
		out, err := texted.ExecuteScriptWithFormat(t, src, c.Fmt)
		set(err == nil, out)
	case k%7 == 1:
		file(func(p string) bool { return texted.EditFileWithFormat(p, src, c.Fmt) == nil })
	case k%7 == 2:
		file(func(p string) bool { return one(texted.EditFilesWithFormat([]string{p}, src, c.Fmt)) })
	case k%7 == 3 && c.Fmt != "json":
		out, err := texted.ExecuteScript(t, src)
		set(err == nil, out)
	default:
		prog, err := parserOf(c.Fmt)(src)
		r.POK = verdict(err == nil)
		if err != nil {
			r.OK, r.VOK = "err", "err"
			break
		}
		for _, v := range prog {
			r.PV = append(r.PV, toSpec(v))
		}
		buf := edlisp.NewBuffer(t)
		v, err := edlisp.Eval(prog, edlisp.NewDefaultEnvironment(), buf)
		r.VOK = verdict(err == nil)
		set(err == nil, buf.String())
		if err == nil && v != nil {
			r.V = toSpec(v)
		}
	}
	return r
}

func cmdUses() {
	defer func() {
		if scratch != "" {
			os.RemoveAll(scratch)
		}
	}()
	eachLine(func(line []byte) {
		var u uses
		decode(line, &u)
		dir := scratchDir()
		type job struct{ i, k int }
		jobs := make(chan job)
		all := make([][]ScriptTrace, len(u.Cases))
		for i := range all {
			all[i] = make([]ScriptTrace, u.Times)
		}
		var wg sync.WaitGroup
		bad := guarded(func() {
			for range u.Conc {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := range jobs {
						all[j.i][j.k] = useOnce(u.Cases[j.i], j.k+u.Cases[j.i].ID, dir)
					}
				}()
			}
			for k := range u.Times {
				for i := range u.Cases {
					jobs <- job{i, k}
				}
			}
			close(jobs)
			wg.Wait()
			type use struct{ i, k int }
			first := map[use]ScriptTrace{}
			for n := range u.Again {
				i := n % len(u.Cases)
				ks := []int{0, 3, 4}
				switch u.Cases[i].Fmt {
				case "auto":
					ks = []int{0}
				case "shell":
					ks = []int{0, 3, 4, 5}
				}
				j := use{i, ks[n/len(u.Cases)%len(ks)]}
				got := useOnce(u.Cases[i], j.k, dir)
				if was, ok := first[j]; !ok {
					first[j] = got
					all[i] = append(all[i], got)
				} else if len(all[i]) < u.Times+20 && !reflect.DeepEqual(was, got) {
					all[i] = append(all[i], got)
				}
			}
		})
		if bad != "" {
			emit(map[string]any{"id": u.ID, "bad": bad, "res": nil})
			os.Exit(4)
		}
		emit(map[string]any{"id": u.ID, "bad": "", "res": all})
	})
}
