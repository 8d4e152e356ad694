package main

import (
	"sort"
	"sync"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/tools"
)

// DocQuery is a look-up in the documentation.
type DocQuery struct {
	Via     string         `json:"via"` // lib or mcp
	Op      string         `json:"op"`  // one, all, cat, cats, env
	Arg     string         `json:"arg"`
	Args    map[string]any `json:"args"` // of the tool
	Verbose bool           `json:"verbose"`
}

type DocsCase struct {
	ID   int        `json:"id"`
	Conc int        `json:"conc"` // look-ups at the same time
	Qs   []DocQuery `json:"qs"`
}

type DocAnswer struct {
	OK   bool                 `json:"ok"`
	Text string               `json:"text"`
	Docs []edlisp.FunctionDoc `json:"docs"`
	List []string             `json:"list"`
}

type DocsResult struct {
	ID  int         `json:"id"`
	Res []DocAnswer `json:"res"`
}

func lookUp(q DocQuery) DocAnswer {
	a := DocAnswer{Docs: []edlisp.FunctionDoc{}, List: []string{}}
	if q.Via == "mcp" {
		a.Text, a.OK = callTool(tools.TextedDocHandler, q.Args)
		return a
	}
	a.OK = true
	switch q.Op {
	case "one":
		d, ok := edlisp.GetDocumentation(q.Arg)
		a.OK = ok
		if ok {
			a.Docs = append(a.Docs, d)
		}
	case "all":
		a.Docs = append(a.Docs, edlisp.GetAllDocumentation()...)
	case "cat":
		a.Docs = append(a.Docs, edlisp.GetDocumentationByCategory(q.Arg)...)
	case "cats":
		a.List = append(a.List, edlisp.GetCategories()...)
	case "env":
		for n := range edlisp.NewDefaultEnvironment().Functions {
			a.List = append(a.List, n)
		}
		sort.Strings(a.List)
	default:
		fatal("look-up %s", q.Op)
	}
	return a
}

func cmdDocs() {
	eachLine(func(line []byte) {
		var c DocsCase
		decode(line, &c)
		res := DocsResult{ID: c.ID, Res: make([]DocAnswer, len(c.Qs))}
		if c.Conc < 1 {
			c.Conc = 1
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		for w := 0; w < c.Conc; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := w; i < len(c.Qs); i += c.Conc {
					res.Res[i] = lookUp(c.Qs[i])
				}
			}()
		}
		close(start)
		wg.Wait()
		emit(res)
	})
}
