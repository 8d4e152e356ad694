package main

import (
	"os"
	"reflect"

	"github.com/dhamidi/texted/edlisp"
)

// RunCase is a text and the expressions to evaluate on it one after another.
type RunCase struct {
	ID int   `json:"id"`
	T  Bytes `json:"t"`
	X  []any `json:"x"`
}

// Step is one evaluated expression: the outcome and the state after it.
type Step struct {
	X  any    `json:"x"`
	OK string `json:"ok"`
	C  int    `json:"c"` // 1 if the text is not that of the step before
	T  Bytes  `json:"t"`
	P  int    `json:"p"`
	K  int    `json:"k"`
	V  any    `json:"v"`
}

type RunTrace struct {
	ID int    `json:"id"`
	T  Bytes  `json:"t"`
	Y  []Step `json:"y"`
}

var noValue = map[string]any{"k": "s", "v": Bytes{}}

// evalOne evaluates one expression; ok is "ok", "err", "panic" or "hang".
func evalOne(env *edlisp.Environment, buf *edlisp.Buffer, x edlisp.Value) (ok string, v any) {
	v = noValue
	bad := guarded(func() {
		r, err := edlisp.Eval([]edlisp.Value{x}, env, buf)
		if err != nil {
			ok = "err"
			return
		}
		ok, v = "ok", toSpec(r)
	})
	if bad != "" {
		return bad, noValue
	}
	return ok, v
}

func cmdRun() {
	eachLine(func(line []byte) {
		var c RunCase
		decode(line, &c)
		tr := RunTrace{ID: c.ID, T: c.T, Y: []Step{}}
		if tr.T == nil {
			tr.T = Bytes{}
		}
		env := edlisp.NewDefaultEnvironment()
		text := c.T.String()
		buf := edlisp.NewBuffer(text)
		stop := false
		for _, x := range c.X {
			v := fromSpec(x)
			st := Step{X: toSpec(v), T: Bytes{}}
			st.OK, st.V = evalOne(env, buf, v)
			if st.OK != "hang" {
				if now := buf.String(); now != text {
					text = now
					st.C, st.T = 1, toBytes(now)
				}
				st.P, st.K = buf.Point(), buf.Mark()
			}
			tr.Y = append(tr.Y, st)
			if st.OK == "panic" || st.OK == "hang" {
				stop = st.OK == "hang"
				break
			}
		}
		emit(tr)
		if stop {
			os.Exit(4) // the runaway goroutine is still there
		}
	})
}

// cmdReplay replays the behaviours that TLC generated: the first line holds
// the commands, every other line a state (the initial text and the calls
// that lead to it) and the outcome of every command in it.
func cmdReplay() {
	var cmds []edlisp.Value
	var cmdJSON []any
	env := edlisp.NewDefaultEnvironment()
	states, transitions := 0, 0
	eachLine(func(line []byte) {
		var c struct {
			Cmds []any `json:"cmds"`
			H    struct {
				T Bytes `json:"t"`
				C []int `json:"c"`
			} `json:"h"`
			T Bytes   `json:"t"`
			P int     `json:"p"`
			K int     `json:"k"`
			Q [2]int  `json:"q"` // the outcomes are those of every Q[1]th command from Q[0] on
			R [][]any `json:"r"`
		}
		decode(line, &c)
		if c.Cmds != nil {
			cmdJSON = c.Cmds
			for _, x := range c.Cmds {
				cmds = append(cmds, fromSpec(x))
			}
			return
		}
		states++
		path := []any{}
		for _, i := range c.H.C {
			path = append(path, cmdJSON[i-1])
		}
		reach := func() *edlisp.Buffer {
			buf := edlisp.NewBuffer(c.H.T.String())
			for _, i := range c.H.C {
				if ok, _ := evalOne(env, buf, cmds[i-1]); ok != "ok" {
					break
				}
			}
			return buf
		}
		text := c.T.String()
		if b := reach(); b.String() != text || b.Point() != c.P || b.Mark() != c.K {
			emit(map[string]any{"t": c.H.T, "x": path,
				"want": map[string]any{"t": c.T, "p": c.P, "k": c.K},
				"got":  map[string]any{"t": toBytes(b.String()), "p": b.Point(), "k": b.Mark()}})
			return
		}
		first := c.Q[0]
		if first == 0 {
			first = c.Q[1]
		}
		for j, w := range c.R {
			i := first - 1 + j*c.Q[1]
			if w[0] == "uns" {
				continue
			}
			transitions++
			b := reach()
			ok, v := evalOne(env, b, cmds[i])
			want := text
			if ts, is := w[3].([]any); is {
				want = bytesOf(ts)
			}
			good := ok == w[0] && b.Point() == int(w[1].(float64)) && b.Mark() == int(w[2].(float64)) &&
				b.String() == want
			if good && ok == "ok" {
				got, _ := roundTrip(v)
				good = sameValue(got, w[4])
			}
			if !good {
				emit(map[string]any{"t": c.H.T, "x": append(append([]any{}, path...), cmdJSON[i]),
					"want": map[string]any{"ok": w[0], "t": toBytes(want), "p": w[1], "k": w[2], "v": w[4]},
					"got":  map[string]any{"ok": ok, "t": toBytes(b.String()), "p": b.Point(), "k": b.Mark(), "v": v}})
				if ok == "hang" {
					os.Exit(4)
				}
			}
		}
	})
	emit(map[string]any{"states": states, "transitions": transitions})
}

func sameValue(a, b any) bool {
	return reflect.DeepEqual(a, b)
}
