package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/tools"
)

// Entry is a file as the specification sees it.
type Entry struct {
	K  string `json:"k"`
	C  *Bytes `json:"c,omitempty"`
	R  *bool  `json:"r,omitempty"`
	W  *bool  `json:"w,omitempty"`
	To string `json:"to,omitempty"`
}

type FileOp struct {
	K     string         `json:"k"` // lib, cli, tool
	Files []string       `json:"files"`
	Fmt   string         `json:"fmt"`
	Src   Bytes          `json:"src"`
	Plain bool           `json:"plain"`
	Argv  []string       `json:"argv"`
	Inp   Bytes          `json:"inp"`
	Torn  bool           `json:"torn"`
	Jam   bool           `json:"jam"`
	Tool  string         `json:"tool"`
	Args  map[string]any `json:"args"`
	Still bool           `json:"still"` // nothing may be touched
	Put   *Put           `json:"put"`
}

// Put is what someone else does to a file between two calls.
type Put struct {
	N    string `json:"n"`
	E    Entry  `json:"e"`
	Keep bool   `json:"keep"` // with the time that it had at the start
	New  bool   `json:"new"`  // another file takes its place
}

// start is when all files were made.
var start = time.Unix(1700000000, 0)

func modeOf(e Entry) os.FileMode {
	mode := os.FileMode(0)
	if *e.R {
		mode |= 0o444
	}
	if *e.W {
		mode |= 0o200
	}
	return mode
}

func (p Put) do(c FilesCase) {
	path := c.Real[p.N]
	was, err := os.Lstat(path)
	if err == nil && p.E.K == "file" && was.Mode().IsRegular() && !p.New {
		must(os.Chmod(path, 0o600))
	} else if err == nil {
		must(os.RemoveAll(path))
	}
	switch p.E.K {
	case "file":
		must(os.WriteFile(path, []byte(p.E.C.String()), 0o600))
		must(os.Chmod(path, modeOf(p.E)))
		if p.Keep {
			must(os.Chtimes(path, start, start))
		}
	case "dir":
		must(os.Mkdir(path, 0o755))
	}
}

type FilesCase struct {
	ID     int               `json:"id"`
	FS     map[string]Entry  `json:"fs"`
	Real   map[string]string `json:"real"`
	RoDirs []string          `json:"rodirs"`
	Ops    []FileOp          `json:"ops"`
	Texted string            `json:"texted"`
}

type FileObs struct {
	FS    map[string]Entry `json:"fs"`
	Extra []string         `json:"extra"`
	St    string           `json:"st"`
	V     []string         `json:"v"`
	Out   Bytes            `json:"out"`
	Err   string           `json:"err"`
	Odd   []string         `json:"odd"`
}

type FilesTrace struct {
	ID   int       `json:"id"`
	Obs  []FileObs `json:"obs"`
	Hang string    `json:"hang,omitempty"`
}

var hung bool // a call of the command did not end

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

func setUp(c FilesCase) {
	for n, e := range c.FS {
		p := c.Real[n]
		if e.K == "lost" {
			continue
		}
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		switch e.K {
		case "file":
			must(os.WriteFile(p, []byte(e.C.String()), 0o644))
			must(os.Chmod(p, modeOf(e)))
			must(os.Chtimes(p, start, start))
		case "dir":
			must(os.MkdirAll(p, 0o755))
		case "link":
			to, err := filepath.Abs(c.Real[e.To])
			must(err)
			must(os.Symlink(to, p))
		case "full":
			must(os.Symlink("/dev/full", p))
		}
	}
	for _, d := range c.RoDirs {
		must(os.Chmod(d, 0o555))
	}
}

// stamps describes everything below the current directory, with times.
func stamps() string {
	var s strings.Builder
	must(filepath.WalkDir(".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		i, err := os.Lstat(p)
		must(err)
		fmt.Fprintln(&s, p, i.Mode(), i.Size(), i.ModTime().UnixNano(), i.Sys().(*syscall.Stat_t).Ino)
		return nil
	}))
	return s.String()
}

// look lists what is there; anything that has no name in the case is extra.
func look(c FilesCase) (map[string]Entry, []string) {
	res := map[string]Entry{}
	abs := func(p string) string { a, _ := filepath.Abs(p); return a }
	name := map[string]string{}
	inner := map[string]bool{abs("."): true}
	for n, p := range c.Real {
		a := abs(p)
		name[a] = n
		res[n] = Entry{K: "none"}
		for d := filepath.Dir(a); strings.HasPrefix(d, abs(".")); d = filepath.Dir(d) {
			inner[d] = true
		}
	}
	byName := func(target string) string {
		if n, ok := name[target]; ok {
			return n
		}
		return target
	}
	extra := []string{}
	err := filepath.WalkDir(abs("."), func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		n, ok := name[p]
		if !ok {
			if !inner[p] || !d.IsDir() {
				extra = append(extra, p)
			}
			return nil
		}
		info, err := os.Lstat(p)
		must(err)
		switch {
		case info.Mode()&os.ModeSymlink != 0:
			t, err := os.Readlink(p)
			must(err)
			res[n] = Entry{K: "link", To: byName(t)}
			if t == "/dev/full" {
				res[n] = Entry{K: "full"}
			}
		case info.IsDir():
			res[n] = Entry{K: "dir"}
		case info.Mode().IsRegular():
			m := info.Mode().Perm()
			if m&0o400 == 0 {
				must(os.Chmod(p, m|0o400))
			}
			b, err := os.ReadFile(p)
			must(err)
			if m&0o400 == 0 {
				must(os.Chmod(p, m))
			}
			cont := toBytes(string(b))
			r, w := m&0o400 != 0, m&0o200 != 0
			res[n] = Entry{K: "file", C: &cont, R: &r, W: &w}
		default:
			res[n] = Entry{K: "other"}
		}
		return nil
	})
	must(err)
	return res, extra
}

func verdicts(o *FileObs, files []string, rs []texted.EditResult, err error) {
	if err != nil {
		o.Odd = append(o.Odd, "an error for the whole list: "+err.Error())
	}
	for i, r := range rs {
		if i < len(files) && r.Filename != files[i] {
			o.Odd = append(o.Odd, "result "+r.Filename+" in place of "+files[i])
		}
		if r.Success != (r.Error == nil) {
			o.Odd = append(o.Odd, "success and error in the result of "+r.Filename)
		}
		if r.Error != nil && !strings.Contains(r.Error.Error(), " ") {
			o.Odd = append(o.Odd, "no message in the result of "+r.Filename)
		}
		o.V = append(o.V, verdict(r.Success))
	}
	o.St = verdict(err == nil)
}

func (o *FileObs) do(c FilesCase, op FileOp) {
	switch op.K {
	case "lib":
		var rs []texted.EditResult
		var err error
		files := append([]string{}, op.Files...)
		if op.Plain {
			rs, err = texted.EditFiles(files, op.Src.String())
		} else {
			rs, err = texted.EditFilesWithFormat(files, op.Src.String(), op.Fmt)
		}
		verdicts(o, op.Files, rs, err)
	case "tool":
		h := tools.EditFileHandler
		switch op.Tool {
		case "texted_eval":
			h = tools.TextedEvalHandler
		case "texted_doc":
			h = tools.TextedDocHandler
		}
		text, ok := callTool(h, op.Args)
		o.St = verdict(ok)
		o.Out = toBytes(text)
	case "cli":
		ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, c.Texted, op.Argv...)
		cmd.Stdin = strings.NewReader(op.Inp.String())
		if op.Torn {
			// a directory: it can be opened, and every read of it fails
			d, err := os.Open(".")
			must(err)
			defer d.Close()
			cmd.Stdin = d
		}
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		if op.Jam {
			// a full device: every write to it fails
			d, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			must(err)
			defer d.Close()
			cmd.Stdout = d
		}
		err := cmd.Run()
		o.Out = toBytes(so.String())
		o.Err = se.String()
		var ee *exec.ExitError
		switch {
		case ctx.Err() != nil:
			o.St = "hang"
			hung = true
		case err == nil:
			o.St = "ok"
		case errors.As(err, &ee) && ee.ExitCode() > 0 && !strings.HasPrefix(o.Err, "panic:") && !strings.Contains(o.Err, "\ngoroutine "):
			o.St = "err"
		case errors.As(err, &ee):
			o.St = "crash"
		default:
			fatal("%v", err)
		}
	case "put":
		op.Put.do(c)
		o.St = "ok"
	default:
		fatal("operation %s", op.K)
	}
}

func cmdFiles() {
	top, err := os.Getwd()
	must(err)
	eachLine(func(line []byte) {
		var c FilesCase
		decode(line, &c)
		dir, err := os.MkdirTemp(top, "case")
		must(err)
		must(os.Chdir(dir))
		for n, p := range c.Real {
			c.Real[n] = strings.ReplaceAll(p, "@DIR@", dir)
		}
		fill := func(v string) string { return strings.ReplaceAll(v, "@DIR@", dir) }
		setUp(c)
		t := FilesTrace{ID: c.ID, Obs: []FileObs{}}
		for _, op := range c.Ops {
			for i := range op.Files {
				op.Files[i] = fill(op.Files[i])
			}
			for i := range op.Argv {
				op.Argv[i] = fill(op.Argv[i])
			}
			if fs, ok := op.Args["files"].([]any); ok {
				for i, f := range fs {
					if s, ok := f.(string); ok {
						fs[i] = fill(s)
					}
				}
			}
			o := FileObs{V: []string{}, Out: Bytes{}, Odd: []string{}}
			before := ""
			if op.Still {
				before = stamps()
			}
			if bad := guarded(func() { o.do(c, op) }); bad != "" {
				o.St = bad
				t.Hang = bad
			}
			if op.Still && stamps() != before {
				o.Odd = append(o.Odd, "a file was touched")
			}
			o.FS, o.Extra = look(c)
			o.Out = toBytes(strings.ReplaceAll(o.Out.String(), dir, "@DIR@"))
			o.Err = strings.ReplaceAll(o.Err, dir, "@DIR@")
			t.Obs = append(t.Obs, o)
			if t.Hang != "" {
				break
			}
		}
		must(os.Chdir(top))
		for _, d := range c.RoDirs {
			os.Chmod(filepath.Join(dir, d), 0o755)
		}
		must(os.RemoveAll(dir))
		emit(t)
		if t.Hang == "hang" || hung {
			os.Exit(4)
		}
	})
}
