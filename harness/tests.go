package main

import (
	"path/filepath"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/edlisp/testing"
)

// TestSeq is a sequence of test cases that are run with one environment.
type TestSeq struct {
	ID    int        `json:"id"`
	Cases []TestText `json:"cases"`
}

type TestText struct {
	XML  Bytes  `json:"xml"`
	Buf  Bytes  `json:"buf"`
	Src  Bytes  `json:"src"`
	Lang string `json:"lang"`
}

type TestVerdict struct {
	V   string `json:"v"`   // pass or fail
	OK  string `json:"ok"`  // of the script alone
	T   Bytes  `json:"t"`   // its text
	Val any    `json:"val"` // its value
	Msg Bytes  `json:"msg"` // its error
	Odd string `json:"odd"`
}

// alone runs the script of a case by itself.
func (r *TestVerdict) alone(c TestText) {
	r.OK, r.T, r.Val, r.Msg = "malformed", Bytes{}, noValue, Bytes{}
	parse := parser.ParseString
	if c.Lang == "json" {
		parse = parser.ParseJSONScript
	}
	prog, err := parse(strings.TrimSpace(c.Src.String()))
	if err != nil {
		return
	}
	buf := edlisp.NewBuffer(c.Buf.String())
	v, err := edlisp.Eval(prog, edlisp.NewDefaultEnvironment(), buf)
	r.T = toBytes(buf.String())
	if err != nil {
		r.OK, r.Msg = "err", toBytes(err.Error())
		return
	}
	r.OK = "ok"
	if v != nil {
		r.Val = toSpec(v)
	}
}

func (r *TestVerdict) judge(c TestText, env *edlisp.Environment) {
	verdict := func(res *testing.TestResult) string {
		if res.Passed == (res.Error != nil) {
			r.Odd = "passed with an error, or failed without one"
		}
		if res.Passed {
			return "pass"
		}
		return "fail"
	}
	p := writeScratch("case.xml", c.XML.String())
	r.V = verdict(testing.RunTestFile(p, env))
	steps := 0
	res := testing.RunTestFileWithTrace(p, env, func(*edlisp.TraceContext) { steps++ })
	if v := verdict(res); v != r.V {
		r.Odd = v + " with tracing instead of " + r.V
	}
	if res.Name != filepath.Base(p) {
		r.Odd = "named " + res.Name
	}
	tc, err := testing.ParseTestCase(strings.NewReader(c.XML.String()))
	if err != nil {
		if r.V == "pass" {
			r.Odd = "pass, but does not parse: " + err.Error()
		}
	} else {
		before := *tc
		if v := verdict(testing.RunTest(tc, env)); v != r.V {
			r.Odd = v + " from the parsed case instead of " + r.V
		}
		if v := verdict(testing.RunTest(tc, testing.NewDefaultEnvironment())); v != r.V {
			r.Odd = v + " in a fresh environment instead of " + r.V
		}
		if *tc != before {
			r.Odd = "the case was modified"
		}
	}
	if got := readScratch(p); got != c.XML.String() {
		r.Odd = "the file of the case was modified"
	}
}

func cmdTests() {
	eachLine(func(line []byte) {
		var s TestSeq
		decode(line, &s)
		env := testing.NewDefaultEnvironment()
		vs := []TestVerdict{}
		bad := guarded(func() {
			for _, c := range s.Cases {
				var v TestVerdict
				v.alone(c)
				if len(c.XML) > 0 {
					v.judge(c, env)
				}
				vs = append(vs, v)
			}
		})
		emit(map[string]any{"id": s.ID, "vs": vs, "bad": bad})
	})
}
