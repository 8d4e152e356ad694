package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/dhamidi/texted/tools"
)

// BurstCall is a call of a tool; every time it is made it has files of its own.
type BurstCall struct {
	Tool string            `json:"tool"`
	Args json.RawMessage   `json:"args"`
	FS   map[string]Entry  `json:"fs"` // regular files, or none
	Real map[string]string `json:"real"`
}

// Burst is many calls at the same time.
type Burst struct {
	ID    int         `json:"id"`
	Calls []BurstCall `json:"calls"`
	Conc  int         `json:"conc"`
	Times int         `json:"times"`
}

type BurstObs struct {
	St  string           `json:"st"`
	Out Bytes            `json:"out"`
	FS  map[string]Entry `json:"fs"`
}

func (b BurstCall) make(dir string) BurstObs {
	path := func(n string) string { return strings.ReplaceAll(b.Real[n], "@CALL@", dir) }
	for n, e := range b.FS {
		must(os.MkdirAll(filepath.Dir(path(n)), 0o755))
		if e.K == "file" {
			must(os.WriteFile(path(n), []byte(e.C.String()), 0o644))
		}
	}
	var args map[string]any
	must(json.Unmarshal([]byte(strings.ReplaceAll(string(b.Args), "@CALL@", dir)), &args))
	h := tools.EditFileHandler
	switch b.Tool {
	case "texted_eval":
		h = tools.TextedEvalHandler
	case "texted_doc":
		h = tools.TextedDocHandler
	}
	var o BurstObs
	func() {
		defer func() {
			if e := recover(); e != nil {
				o.St = "crash"
			}
		}()
		text, ok := callTool(h, args)
		o.St, o.Out = verdict(ok), toBytes(strings.ReplaceAll(text, dir, "@CALL@"))
	}()
	o.FS = map[string]Entry{}
	for n := range b.FS {
		c, err := os.ReadFile(path(n))
		if os.IsNotExist(err) {
			o.FS[n] = Entry{K: "none"}
			continue
		}
		must(err)
		cont, yes := toBytes(string(c)), true
		o.FS[n] = Entry{K: "file", C: &cont, R: &yes, W: &yes}
	}
	os.RemoveAll(dir)
	return o
}

func cmdBurst() {
	top, err := os.MkdirTemp("", "burst")
	must(err)
	defer os.RemoveAll(top)
	eachLine(func(line []byte) {
		var u Burst
		decode(line, &u)
		type job struct{ i, k int }
		jobs := make(chan job)
		all := make([][]BurstObs, len(u.Calls))
		for i := range all {
			all[i] = make([]BurstObs, u.Times)
		}
		var wg sync.WaitGroup
		bad := guarded(func() {
			for range u.Conc {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := range jobs {
						all[j.i][j.k] = u.Calls[j.i].make(filepath.Join(top, fmt.Sprintf("%d-%d-%d", u.ID, j.i, j.k)))
					}
				}()
			}
			for k := range u.Times {
				for i := range u.Calls {
					jobs <- job{i, k}
				}
			}
			close(jobs)
			wg.Wait()
		})
		if bad != "" {
			emit(map[string]any{"id": u.ID, "bad": bad, "res": nil})
			os.Exit(4)
		}
		emit(map[string]any{"id": u.ID, "bad": "", "res": all})
	})
}
