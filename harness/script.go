package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"slices"

	"os"
	"path/filepath"
	"strings"
	"testing/iotest"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/commands"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/tools"
	"github.com/mark3labs/mcp-go/mcp"
	"github.com/spf13/cobra"
)

var scratch string

// scratchDir is a directory of this process below the current directory.
func scratchDir() string {
	if scratch == "" {
		d, err := os.MkdirTemp(".", "scratch")
		if err != nil {
			fatal("%v", err)
		}
		scratch, err = filepath.Abs(d)
		if err != nil {
			fatal("%v", err)
		}
	}
	return scratch
}

func writeScratch(name, content string) string {
	p := filepath.Join(scratchDir(), name)
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		fatal("%v", err)
	}
	return p
}

func readScratch(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return "unreadable: " + err.Error()
	}
	return string(b)
}

// runCommand runs a command of the command line in this process.
func runCommand(cmd *cobra.Command, stdin string, args ...string) (string, error) {
	return runCommandOn(cmd, writeScratch("stdin", stdin), args...)
}

// runCommandOn runs a command with a file as its standard input; that of a
// directory cannot be read.
func runCommandOn(cmd *cobra.Command, stdin string, args ...string) (string, error) {
	in, err := os.Open(stdin)
	if err != nil {
		fatal("%v", err)
	}
	outName := filepath.Join(scratchDir(), "stdout")
	o, err := os.Create(outName)
	if err != nil {
		fatal("%v", err)
	}
	oldIn, oldOut, oldErr := os.Stdin, os.Stdout, os.Stderr
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdin, os.Stdout, os.Stderr = in, o, null
	cmd.SilenceUsage = true
	cmd.SilenceErrors = true
	cmd.SetIn(in)
	cmd.SetOut(o)
	cmd.SetErr(null)
	cmd.SetArgs(args)
	defer func() {
		os.Stdin, os.Stdout, os.Stderr = oldIn, oldOut, oldErr
		in.Close()
		o.Close()
		null.Close()
	}()
	err = cmd.Execute()
	os.Stdout = oldOut
	return readScratch(outName), err
}

func callTool(h func(context.Context, mcp.CallToolRequest) (*mcp.CallToolResult, error), args map[string]any) (string, bool) {
	var req mcp.CallToolRequest
	req.Params.Arguments = args
	res, err := h(context.Background(), req)
	if err != nil {
		return err.Error(), false
	}
	var s strings.Builder
	for _, c := range res.Content {
		if t, ok := c.(mcp.TextContent); ok {
			s.WriteString(t.Text)
		}
	}
	return s.String(), !res.IsError
}

func verdict(ok bool) string {
	if ok {
		return "ok"
	}
	return "err"
}

// ScriptCase is a use of a script; Dst makes it a conversion.
type ScriptCase struct {
	ID   int    `json:"id"`
	Src  Bytes  `json:"src"`
	Fmt  string `json:"fmt"` // shell, sexp, json or auto
	T    Bytes  `json:"t"`
	Dst  string `json:"dst,omitempty"`
	Cli  int    `json:"cli,omitempty"`  // 1: the command line as well
	Lite int    `json:"lite,omitempty"` // 1: only the library
}

type ScriptTrace struct {
	ID  int      `json:"id"`
	Src Bytes    `json:"src"`
	Fmt string   `json:"fmt"`
	Dst string   `json:"dst,omitempty"`
	T   Bytes    `json:"t"`
	POK string   `json:"pok"`
	PV  []any    `json:"pv"`
	OK  string   `json:"ok"`
	O   Bytes    `json:"o"`
	VOK string   `json:"vok"`
	V   any      `json:"v"`
	VT  Bytes    `json:"vt"`
	DOK string   `json:"dok"`
	DV  []any    `json:"dv"`
	Odd []string `json:"odd"`
}

func parserOf(format string) func(string) ([]edlisp.Value, error) {
	if format == "json" {
		return parser.ParseJSONScript
	}
	return parser.ParseString
}

func sameProgram(a, b []edlisp.Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameExpr(a[i], b[i]) {
			return false
		}
	}
	return true
}

func sameExpr(a, b edlisp.Value) bool {
	switch x := a.(type) {
	case *edlisp.Number: // not-a-number is itself
		y, ok := b.(*edlisp.Number)
		return ok && (x.Value == y.Value || x.Value != x.Value && y.Value != y.Value)
	case *edlisp.String:
		y, ok := b.(*edlisp.String)
		return ok && x.Value == y.Value
	case *edlisp.Symbol:
		y, ok := b.(*edlisp.Symbol)
		return ok && x.Name == y.Name
	case *edlisp.List:
		y, ok := b.(*edlisp.List)
		return ok && sameProgram(x.Elements, y.Elements)
	}
	return false
}

func (r *ScriptTrace) odd(format string, a ...any) {
	if len(r.Odd) < 5 {
		r.Odd = append(r.Odd, fmt.Sprintf(format, a...))
	}
}

// agree compares another way to run the script with the first one.
func (r *ScriptTrace) agree(how string, ok bool, out string) {
	if verdict(ok) != r.OK {
		r.odd("%s: %s instead of %s", how, verdict(ok), r.OK)
	} else if ok && out != r.O.String() {
		r.odd("%s: %.200q instead of %.200q", how, out, r.O.String())
	}
}

// file runs f on a file with the text of the case.
func (r *ScriptTrace) file(how string, f func(name string) bool) {
	p := writeScratch("file", r.T.String())
	ok := f(p)
	got := readScratch(p)
	if !ok && got != r.T.String() {
		r.odd("%s: failed but changed the file to %.200q", how, got)
	}
	r.agree(how, ok, got)
}

// readers reads the source in the other ways that the parser offers; prog is what it means.
func (r *ScriptTrace) readers(format, src string, prog []edlisp.Value) {
	same := func(how string, want bool, vs []edlisp.Value, err error) {
		if (err == nil) != want || err == nil && !sameProgram(prog, vs) {
			r.odd("%s reads it differently (%v)", how, err)
		}
		if err != nil && vs != nil {
			r.odd("%s: commands of a script that does not parse", how)
		}
	}
	torn := func() io.Reader {
		return io.MultiReader(strings.NewReader(src), iotest.ErrReader(errors.New("torn")))
	}
	ok := r.POK == "ok"
	if format != "json" {
		vs, err := parser.ParseReader(iotest.OneByteReader(strings.NewReader(src)))
		same("ParseReader", ok, vs, err)
		if vs, err := parser.ParseReader(torn()); err == nil {
			r.odd("ParseReader takes the %d commands in front of a failure to read for the script", len(vs))
		}
		vs, err = parser.ParseFormat("shell", src)
		same("ParseFormat shell", ok, vs, err)
		ds, err := parser.ParseSexp(src)
		r.DOK = verdict(err == nil)
		for _, v := range ds {
			r.DV = append(r.DV, toSpec(v))
		}
		for _, f := range []string{"sexp", "", "unknown"} {
			vs, err := parser.ParseFormat(f, src)
			if (err == nil) != (r.DOK == "ok") || !sameProgram(ds, vs) {
				r.odd("ParseFormat %q and ParseSexp read it differently", f)
			}
		}
		return
	}
	if vs, err := parser.ParseJSONReader(torn()); err == nil {
		r.odd("ParseJSONReader takes the %d commands in front of a failure to read for the script", len(vs))
	}
	// one array of commands
	var lists [][]any
	d := json.NewDecoder(strings.NewReader(src))
	arrays := d.Decode(&lists) == nil && lists != nil && !slices.ContainsFunc(lists, func(l []any) bool { return l == nil }) && d.Decode(new(any)) == io.EOF
	vs, err := parser.ParseFormat("json", src)
	same("ParseFormat json", ok && arrays, vs, err)
	// a stream of commands
	var heads []struct{}
	for d := json.NewDecoder(strings.NewReader(src)); ; heads = append(heads, struct{}{}) {
		var l []any
		if err := d.Decode(&l); err == io.EOF {
			break
		} else if err != nil || len(l) == 0 {
			return
		} else if _, ok := l[0].(string); !ok {
			return
		}
	}
	vs, err = parser.ParseJSONReader(iotest.OneByteReader(strings.NewReader(src)))
	same("ParseJSONReader", ok, vs, err)
}

func one(rs []texted.EditResult, err error) bool {
	return err == nil && len(rs) == 1 && rs[0].Success && rs[0].Error == nil
}

func (r *ScriptTrace) run(c ScriptCase) {
	src, t := c.Src.String(), c.T.String()
	if c.Fmt == "auto" {
		out, ok := callTool(tools.TextedEvalHandler, map[string]any{"input": t, "script": src})
		r.OK = verdict(ok)
		if ok {
			r.O = toBytes(out)
		}
		out, ok = callTool(tools.TextedEvalHandler, map[string]any{"input": t, "script": src, "output": "expression"})
		r.VOK = verdict(ok)
		if ok {
			r.VT = toBytes(out)
		}
		r.file("edit_file", func(p string) bool {
			out, ok := callTool(tools.EditFileHandler, map[string]any{"files": []any{p}, "script": src})
			return ok && strings.HasPrefix(out, "All files edited")
		})
		return
	}
	known := texted.IsValidFormat(c.Fmt)
	var prog []edlisp.Value
	if known {
		vs, err := parserOf(c.Fmt)(src)
		prog = vs
		r.POK = verdict(err == nil)
		if err == nil {
			for _, v := range prog {
				r.PV = append(r.PV, toSpec(v))
			}
		} else if prog != nil {
			r.odd("commands of a script that does not parse")
		}
	}
	out, err := texted.ExecuteScriptWithFormat(t, src, c.Fmt)
	r.OK = verdict(err == nil)
	if err == nil {
		r.O = toBytes(out)
	} else if out != "" {
		r.odd("output %.200q of a failed run", out)
	}
	if r.POK == "ok" {
		v, err := edlisp.Eval(prog, edlisp.NewDefaultEnvironment(), edlisp.NewBuffer(t))
		r.VOK = verdict(err == nil)
		if err == nil {
			r.V = toSpec(v)
		}
	} else {
		r.VOK = "err"
	}
	if known {
		r.readers(c.Fmt, src, prog)
	}
	if c.Lite != 0 {
		return
	}
	if known && c.Fmt != "json" {
		out, err := texted.ExecuteScript(t, src)
		r.agree("ExecuteScript", err == nil, out)
		r.file("EditFile", func(p string) bool { return texted.EditFile(p, src) == nil })
		r.file("EditFiles", func(p string) bool { return one(texted.EditFiles([]string{p}, src)) })
		other := map[string]string{"shell": "sexp", "sexp": "shell"}[c.Fmt]
		out, err = texted.ExecuteScriptWithFormat(t, src, other)
		r.agree("format "+other, err == nil, out)
	}
	r.file("EditFileWithFormat", func(p string) bool { return texted.EditFileWithFormat(p, src, c.Fmt) == nil })
	r.file("EditFilesWithFormat", func(p string) bool { return one(texted.EditFilesWithFormat([]string{p}, src, c.Fmt)) })
	if c.Cli == 0 {
		return
	}
	script := writeScratch("script", src)
	formats := [][]string{{"--format", c.Fmt}, {"--" + c.Fmt}}
	if !known {
		formats = formats[:1]
	}
	for _, format := range formats {
		out, err := runCommand(commands.NewEditCommand(), t, append(format, "-f", script)...)
		r.agree("edit -f "+format[0], err == nil, out)
		if err != nil && out != "" {
			r.odd("edit -f wrote %.200q of a failed run", out)
		}
		if src != "" {
			out, err = runCommand(commands.NewEditCommand(), t, append(format, "-s", src)...)
			r.agree("edit -s "+format[0], err == nil, out)
			if err != nil && out != "" {
				r.odd("edit -s wrote %.200q of a failed run", out)
			}
		}
	}
	r.file("edit -i", func(p string) bool {
		_, err := runCommand(commands.NewEditCommand(), "", "--format", c.Fmt, "-f", script, "-i", p)
		return err == nil
	})
	target := filepath.Join(scratchDir(), "target")
	os.Remove(target)
	p := writeScratch("file", t)
	_, err = runCommand(commands.NewEditCommand(), "", "--format", c.Fmt, "-f", script, "-o", target, p)
	if err == nil {
		r.agree("edit -o", true, readScratch(target))
	} else {
		r.agree("edit -o", false, "")
		if _, serr := os.Lstat(target); serr == nil {
			r.odd("edit -o left an output file of a failed run")
		}
	}
	if readScratch(p) != t {
		r.odd("edit -o changed the input file")
	}
	if src == "" {
		return // an empty expression is none at all
	}
	vout, err := runCommand(commands.NewEditCommand(), t, "--format", c.Fmt, "--output-format", "sexp", "-e", src)
	if verdict(err == nil) != r.VOK {
		r.odd("edit -e: %s instead of %s", verdict(err == nil), r.VOK)
	} else if err == nil {
		r.VT = toBytes(strings.TrimSuffix(vout, "\n"))
	}
}

func (r *ScriptTrace) convert(c ScriptCase) {
	args := []string{}
	if c.Fmt != "shell" || c.ID%2 == 0 {
		args = append(args, "--input-format", c.Fmt)
	}
	if c.Dst != "sexp" || c.ID%3 == 0 {
		args = append(args, "--output-format", c.Dst)
	}
	out, err := runCommand(commands.NewParseCommand(), c.Src.String(), args...)
	r.POK = verdict(err == nil)
	r.O = toBytes(out)
	if c.ID%16 == 1 {
		// nothing can be read: neither a script nor the end of one
		if out, err := runCommandOn(commands.NewParseCommand(), scratchDir(), args...); err == nil || out != "" {
			r.odd("parse of an input that cannot be read: %s, wrote %q", verdict(err == nil), out)
		}
	}
}

func cmdScript() {
	defer func() {
		if scratch != "" {
			os.RemoveAll(scratch)
		}
	}()
	eachLine(func(line []byte) {
		var c ScriptCase
		decode(line, &c)
		r := ScriptTrace{ID: c.ID, Src: c.Src, Fmt: c.Fmt, Dst: c.Dst, T: c.T, POK: "-", OK: "-", VOK: "-", PV: []any{}, O: Bytes{}, V: noValue, VT: Bytes{}, DOK: "-", DV: []any{}, Odd: []string{}}
		if r.Src == nil {
			r.Src = Bytes{}
		}
		if r.T == nil {
			r.T = Bytes{}
		}
		bad := guarded(func() {
			if c.Dst != "" {
				r.convert(c)
			} else {
				r.run(c)
			}
		})
		if bad != "" {
			r.POK = bad
		}
		emit(r)
		if bad == "hang" {
			os.Exit(4)
		}
	})
}
