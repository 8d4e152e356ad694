package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/tools"
)

// A text of any size: bytes, each with the number of its repetitions.
type Run struct {
	C int `json:"c"`
	N int `json:"n"`
}
type Runs []Run

var gone = Runs{{-1, 1}}

var roundsRx = regexp.MustCompile(`\b(\d+) iteration`)

const mostRuns = 3000

func (t Runs) String() string {
	var s strings.Builder
	for _, r := range t {
		s.WriteString(strings.Repeat(string([]byte{byte(r.C)}), r.N))
	}
	return s.String()
}

func runsOf(s string) Runs {
	t := Runs{}
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && s[j] == s[i] {
			j++
		}
		if len(t) == mostRuns {
			return Runs{{-2, 1}}
		}
		t = append(t, Run{int(s[i]), j - i})
		i = j
	}
	return t
}

// BigOp is a command of the specification Big.
type BigOp struct {
	F string `json:"f"`
	N []int  `json:"n"`
	X []Runs `json:"x"`
	Q int    `json:"q"`
}

type BigCase struct {
	ID     int      `json:"id"`
	T      Runs     `json:"t"`
	P      []BigOp  `json:"p"`
	Via    []Entry2 `json:"via"`
	Texted string   `json:"texted"`
}

type Entry2 struct {
	Via string `json:"via"`
	Fmt string `json:"fmt"`
}

type BigStep struct {
	OK string `json:"ok"`
	C  int    `json:"c"`
	T  Runs   `json:"t"`
	P  int    `json:"p"`
	K  int    `json:"k"`
	V  any    `json:"v"`
}

type BigObs struct {
	Via  string `json:"via"`
	Fmt  string `json:"fmt"`
	St   string `json:"st"`
	N    int    `json:"n"`
	T    Runs   `json:"t"`
	Left Runs   `json:"left"`
	Bak  Runs   `json:"bak"`
}

type BigTrace struct {
	ID int       `json:"id"`
	T  Runs      `json:"t"`
	P  []BigOp   `json:"p"`
	Y  []BigStep `json:"y"`
	O  []BigObs  `json:"o"`
}

func pattern(f string, i int) bool {
	switch f {
	case "re-search-forward", "re-search-backward", "looking-at", "looking-back", "string-match", "replace-regexp-in-string":
		return i == 0
	}
	return false
}

// items are the arguments of a command in the order of the function.
func (o BigOp) items(str func(string) string) []string {
	var a []string
	for i, x := range o.X {
		s := x.String()
		if pattern(o.F, i) && x[0].N == 0 {
			s = string(rune(x[0].C)) + "+"
		}
		a = append(a, str(s))
	}
	for _, n := range o.N {
		a = append(a, strconv.Itoa(n))
	}
	return a
}

func shellString(s string) string {
	if s == "" {
		return `""`
	}
	return `"` + strings.NewReplacer("\\", "\\\\", `"`, `\"`, "\n", `\n`, "\t", `\t`, "\r", `\r`).Replace(s) + `"`
}

func jsonString(s string) string {
	b, err := json.Marshal(s)
	must(err)
	return string(b)
}

// source writes a command once.
func (o BigOp) source(format string) string {
	switch o.F {
	case "nest":
		d, c := o.N[0], string(rune(o.X[0][0].C))
		if format == "json" {
			return `["insert",` + strings.Repeat(`["concat","`+c+`",`, d) + `""` + strings.Repeat("]", d) + "]"
		}
		s := "insert " + strings.Repeat(`(concat "`+c+`" `, d) + `""` + strings.Repeat(")", d)
		if format == "sexp" {
			s = "(" + s + ")"
		}
		return s
	case "open":
		if format == "json" {
			return strings.Repeat("[", o.N[0])
		}
		return strings.Repeat("(", o.N[0])
	}
	switch format {
	case "json":
		return "[" + strings.Join(append([]string{jsonString(o.F)}, o.items(jsonString)...), ",") + "]"
	case "sexp":
		return "(" + strings.Join(append([]string{o.F}, o.items(shellString)...), " ") + ")"
	}
	return strings.Join(append([]string{o.F}, o.items(shellString)...), " ")
}

func script(p []BigOp, format string) string {
	var s strings.Builder
	first := true
	if format == "json" {
		s.WriteString("[")
	}
	for _, o := range p {
		one := o.source(format)
		for i := 0; i < o.Q; i++ {
			if !first && format == "json" {
				s.WriteString(",")
			}
			first = false
			s.WriteString(one)
			if !(format == "shell" && i%2 == 0 && i < 200) {
				s.WriteString("\n")
			} else {
				s.WriteString("; ")
			}
		}
	}
	if format == "json" {
		s.WriteString("]")
	}
	return s.String()
}

func bigValue(v edlisp.Value) any {
	if s, ok := v.(*edlisp.String); ok {
		return map[string]any{"k": "s", "v": runsOf(s.Value)}
	}
	return toSpec(v)
}

func (t *BigTrace) steps(c BigCase) {
	env := edlisp.NewDefaultEnvironment()
	text := c.T.String()
	buf := edlisp.NewBuffer(text)
	for _, o := range c.P {
		st := BigStep{T: Runs{}, V: map[string]any{"k": "s", "v": Runs{}}}
		one := o.source("shell")
		bad := guarded(func() {
			st.OK = "ok"
			var v edlisp.Value
			p, err := parser.ParseString(one)
			for i := 0; i < o.Q && err == nil; i++ {
				v, err = edlisp.Eval(p, env, buf)
			}
			if err != nil {
				st.OK = "err"
			} else {
				st.V = bigValue(v)
			}
		})
		if bad != "" {
			st.OK = bad
			t.Y = append(t.Y, st)
			return
		}
		if now := buf.String(); now != text {
			text = now
			st.C, st.T = 1, runsOf(now)
		}
		st.P, st.K = buf.Point(), buf.Mark()
		t.Y = append(t.Y, st)
	}
}

func readRuns(p string) Runs {
	b, err := os.ReadFile(p)
	if errors.Is(err, os.ErrNotExist) {
		return gone
	}
	must(err)
	return runsOf(string(b))
}

func (c BigCase) enter(e Entry2) BigObs {
	o := BigObs{Via: e.Via, Fmt: e.Fmt, T: gone, Left: gone, Bak: gone}
	text, src := c.T.String(), script(c.P, e.Fmt)
	must(os.WriteFile("in", []byte(text), 0o644))
	must(os.WriteFile("script", []byte(src), 0o644))
	defer func() {
		for _, n := range []string{"in", "script", "out", "in.bak"} {
			os.Remove(n)
		}
	}()
	args := map[string]any{"input": text, "script": src}
	cli := func(stdin string, argv ...string) {
		ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, c.Texted, append([]string{"edit", "--format", e.Fmt, "--file", "script"}, argv...)...)
		cmd.Stdin = strings.NewReader(stdin)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		var ee *exec.ExitError
		switch {
		case ctx.Err() != nil:
			o.St = "hang"
		case err == nil:
			o.St = "ok"
		case errors.As(err, &ee) && ee.ExitCode() > 0 && !strings.HasPrefix(se.String(), "panic:") && !strings.Contains(se.String(), "\ngoroutine "):
			o.St = "err"
		default:
			o.St = "crash"
		}
		o.T = runsOf(so.String())
	}
	switch e.Via {
	case "run":
		out, err := texted.ExecuteScriptWithFormat(text, src, e.Fmt)
		o.St = verdict(err == nil)
		if err == nil {
			o.T = runsOf(out)
		}
	case "files":
		rs, err := texted.EditFilesWithFormat([]string{"in"}, src, e.Fmt)
		o.St = verdict(err == nil && len(rs) == 1 && rs[0].Success)
		o.Left = readRuns("in")
	case "eval":
		out, ok := callTool(tools.TextedEvalHandler, args)
		o.St = verdict(ok)
		if ok {
			o.T = runsOf(out)
		}
	case "edit":
		out, ok := callTool(tools.EditFileHandler, map[string]any{"script": src, "files": []any{"in"}})
		o.St = verdict(ok && strings.HasPrefix(out, "All"))
		o.Left = readRuns("in")
	case "loop":
		out, ok := callTool(tools.EditFileHandler, map[string]any{"script": src, "files": []any{"in"}, "loopUntilError": true})
		o.St = verdict(ok && !strings.HasPrefix(out, "All"))
		if m := roundsRx.FindStringSubmatch(out); m != nil {
			o.N, _ = strconv.Atoi(m[1])
		}
		o.Left = readRuns("in")
	case "stdin":
		cli(text)
	case "file":
		cli("", "in")
		o.Left = readRuns("in")
	case "out":
		cli(text, "-o", "out")
		if len(o.T) == 0 {
			o.T = readRuns("out")
		} else {
			o.T = Runs{{-2, 1}}
		}
	case "inplace":
		cli("", "-q", "-i", "in")
		o.T = gone
		o.Left = readRuns("in")
	case "backup":
		cli("", "-q", "-i", "--backup", ".bak", "in")
		o.T = gone
		o.Left, o.Bak = readRuns("in"), readRuns("in.bak")
	case "server":
		o.St, o.T = c.serve(args)
	default:
		fatal("entry %s", e.Via)
	}
	return o
}

// serve asks a server to evaluate, and then something else.
func (c BigCase) serve(args map[string]any) (string, Runs) {
	cmd := exec.Command(c.Texted, "mcp")
	in, err := cmd.StdinPipe()
	must(err)
	out, err := cmd.StdoutPipe()
	must(err)
	must(cmd.Start())
	watch := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	defer func() {
		in.Close()
		cmd.Wait()
		watch.Stop()
	}()
	r := bufio.NewReader(out)
	var asked int
	ask := func(method string, params any) (json.RawMessage, bool) {
		asked++
		line, err := json.Marshal(map[string]any{"jsonrpc": "2.0", "id": asked, "method": method, "params": params})
		must(err)
		if _, err := in.Write(append(line, '\n')); err != nil {
			return nil, false
		}
		for {
			s, err := r.ReadBytes('\n')
			if err != nil {
				return nil, false
			}
			var a struct {
				ID     any             `json:"id"`
				Result json.RawMessage `json:"result"`
			}
			if json.Unmarshal(s, &a) != nil {
				return nil, false
			}
			if fmt.Sprint(a.ID) == fmt.Sprint(asked) {
				return a.Result, true
			}
		}
	}
	if _, ok := ask("initialize", map[string]any{"protocolVersion": "2024-11-05", "capabilities": map[string]any{}, "clientInfo": map[string]any{"name": "x", "version": "1"}}); !ok {
		return "crash", gone
	}
	io.WriteString(in, `{"jsonrpc":"2.0","method":"notifications/initialized"}`+"\n")
	text := func(res json.RawMessage) (string, bool) {
		var a struct {
			IsError bool `json:"isError"`
			Content []struct {
				Text string `json:"text"`
			} `json:"content"`
		}
		if json.Unmarshal(res, &a) != nil || len(a.Content) != 1 {
			return "", false
		}
		return a.Content[0].Text, !a.IsError
	}
	res, ok := ask("tools/call", map[string]any{"name": "texted_eval", "arguments": args})
	if !ok {
		return "crash", gone
	}
	t, good := text(res)
	res, ok = ask("tools/call", map[string]any{"name": "texted_eval", "arguments": map[string]any{"input": "b", "script": `insert "a"`}})
	if !ok {
		return "crash", gone
	}
	if again, ok := text(res); !ok || again != "ab" {
		return "lost", gone
	}
	if !good {
		return "err", gone
	}
	return "ok", runsOf(t)
}

func cmdBig() {
	top, err := os.Getwd()
	must(err)
	eachLine(func(line []byte) {
		var c BigCase
		decode(line, &c)
		dir, err := os.MkdirTemp(top, "case")
		must(err)
		must(os.Chdir(dir))
		t := BigTrace{ID: c.ID, T: c.T, P: c.P, Y: []BigStep{}, O: []BigObs{}}
		for i := range t.P {
			if t.P[i].N == nil {
				t.P[i].N = []int{}
			}
			if t.P[i].X == nil {
				t.P[i].X = []Runs{}
			}
		}
		hang := false
		t.steps(c)
		if n := len(t.Y); n == len(c.P) {
			for _, e := range c.Via {
				var o BigObs
				if bad := guarded(func() { o = c.enter(e) }); bad != "" {
					o = BigObs{Via: e.Via, Fmt: e.Fmt, St: bad, T: gone, Left: gone, Bak: gone}
					hang = hang || bad == "hang"
				}
				t.O = append(t.O, o)
				if hang {
					break
				}
			}
		} else {
			hang = t.Y[n-1].OK == "hang"
		}
		must(os.Chdir(top))
		os.RemoveAll(dir)
		emit(t)
		if hang {
			os.Exit(4)
		}
	})
}
