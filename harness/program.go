package main

import (
	"errors"
	"fmt"
	"os"
	"regexp"

	"github.com/dhamidi/texted/edlisp"
)

// State is the visible part of a buffer's state.
type State struct {
	T Bytes `json:"t"`
	P int   `json:"p"`
	K int   `json:"k"`
}

func stateOf(b *edlisp.Buffer) State { return State{toBytes(b.String()), b.Point(), b.Mark()} }

type Match struct {
	X Bytes `json:"x"`
	S int   `json:"s"`
	E int   `json:"e"`
}

// Event is one report of the tracer.
type Event struct {
	X any `json:"x"`
	State
}

// ProgramTrace is the record of one run of a program.
type ProgramTrace struct {
	ID int     `json:"id"`
	T  Bytes   `json:"t"`
	X  []any   `json:"x"`
	Tr int     `json:"tr"`
	Ev []Event `json:"ev"`
	OK string  `json:"ok"`
	V  any     `json:"v"`
	S  State   `json:"s"`
	N  int     `json:"n"`
	At any     `json:"at"`
	M  Match   `json:"m"`
	// What is wrong with the error itself, if anything.
	Odd string `json:"odd,omitempty"`
}

var (
	indexRx = regexp.MustCompile(`at instruction (-?\d+)\b`)
	pointRx = regexp.MustCompile(`point=(-?\d+), mark=(-?\d+)\)`)
)

// odd reports what the error says that contradicts its own fields or the run.
func odd(err *edlisp.ExecutionError, n int, prog []edlisp.Value, buf *edlisp.Buffer) string {
	msg := err.Error()
	if errors.Unwrap(err) == nil {
		return "no underlying error"
	}
	if len(err.Program) != n {
		return fmt.Sprintf("program of %d instructions", len(err.Program))
	}
	for i := range prog {
		if i < len(err.Program) && err.Program[i] != prog[i] {
			return fmt.Sprintf("instruction %d of the program differs", i)
		}
	}
	if err.BufferContents != buf.String() {
		return fmt.Sprintf("contents %q of %q", err.BufferContents, buf.String())
	}
	if err.Point != buf.Point() || err.Mark != buf.Mark() {
		return fmt.Sprintf("point %d mark %d instead of %d and %d", err.Point, err.Mark, buf.Point(), buf.Mark())
	}
	// the message, as far as it has the documented form
	if m := indexRx.FindAllStringSubmatch(msg, -1); len(m) > 0 && m[len(m)-1][1] != fmt.Sprint(err.InstructionIndex) {
		return "index in the message: " + msg
	}
	if m := pointRx.FindAllStringSubmatch(msg, -1); len(m) > 0 && (m[len(m)-1][1] != fmt.Sprint(err.Point) || m[len(m)-1][2] != fmt.Sprint(err.Mark)) {
		return "positions in the message: " + msg
	}
	return ""
}

// runProgram runs prog on text, traced or not.
func runProgram(env *edlisp.Environment, id int, text string, prog []edlisp.Value, traced bool) ProgramTrace {
	r := ProgramTrace{ID: id, T: toBytes(text), X: []any{}, Ev: []Event{}, V: noValue, At: noValue, M: Match{X: Bytes{}}}
	for _, v := range prog {
		r.X = append(r.X, toSpec(v))
	}
	buf := edlisp.NewBuffer(text)
	bad := guarded(func() {
		var v edlisp.Value
		var err error
		if traced {
			r.Tr = 1
			v, err = edlisp.EvalWithTrace(prog, env, buf, func(ctx *edlisp.TraceContext) {
				r.Ev = append(r.Ev, Event{toSpec(ctx.Instruction), stateOf(ctx.Buffer)})
			})
		} else {
			v, err = edlisp.Eval(prog, env, buf)
		}
		if err == nil {
			r.OK, r.V = "ok", toSpec(v)
			return
		}
		r.OK = "err"
		var xe *edlisp.ExecutionError
		if !errors.As(err, &xe) {
			r.N, r.Odd = -1, "not an ExecutionError: "+err.Error()
			return
		}
		r.N = xe.InstructionIndex
		if xe.CurrentInstruction != nil {
			r.At = toSpec(xe.CurrentInstruction)
		}
		r.M = Match{toBytes(xe.LastSearchMatch), xe.LastSearchStart, xe.LastSearchEnd}
		r.Odd = odd(xe, len(prog), prog, buf)
	})
	if bad != "" {
		r.OK = bad
		if bad == "hang" {
			return r
		}
	}
	r.S = stateOf(buf)
	return r
}

// cmdProgram runs every case as a whole, traced, and untraced if U is 1.
func cmdProgram() {
	eachLine(func(line []byte) {
		var c struct {
			ID int   `json:"id"`
			T  Bytes `json:"t"`
			X  []any `json:"x"`
			U  int   `json:"u"`
		}
		decode(line, &c)
		var prog []edlisp.Value
		for _, x := range c.X {
			prog = append(prog, fromSpec(x))
		}
		r := runProgram(edlisp.NewDefaultEnvironment(), c.ID, c.T.String(), prog, c.U == 0)
		emit(r)
		if r.OK == "hang" {
			os.Exit(4)
		}
	})
}
