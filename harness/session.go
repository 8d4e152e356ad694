package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

// SessionCase is a session of the server on the files of a case: lines that are sent to it.
type SessionCase struct {
	FilesCase
	Argv  []string `json:"argv"`
	Msgs  []Msg    `json:"msgs"`
	Pipe  bool     `json:"pipe"`  // send everything before reading
	Chunk int      `json:"chunk"` // bytes per write, 0 for whole lines
}

type Msg struct {
	Line string `json:"line"`
	Wait bool   `json:"wait"` // something is answered
	Look bool   `json:"look"` // list the files afterwards
	Put  *Put   `json:"put"`  // no message
}

type SessionTrace struct {
	ID    int               `json:"id"`
	Lines []json.RawMessage `json:"lines"`
	Odd   []string          `json:"odd"`
	Seen  []*FileObs        `json:"seen"`
	End   FileObs           `json:"end"`
	Exit  string            `json:"exit"`
	Err   string            `json:"err"`
}

// cmdSession runs sessions.
func cmdSession() {
	top, err := os.Getwd()
	must(err)
	eachLine(func(line []byte) {
		var c SessionCase
		decode(line, &c)
		dir, err := os.MkdirTemp(top, "case")
		must(err)
		must(os.Chdir(dir))
		fill := func(v string) string { return strings.ReplaceAll(v, "@DIR@", dir) }
		for n, p := range c.Real {
			c.Real[n] = fill(p)
		}
		setUp(c.FilesCase)
		t := SessionTrace{ID: c.ID, Lines: []json.RawMessage{}, Odd: []string{}, Seen: []*FileObs{}}
		cmd := exec.Command(c.Texted, c.Argv...)
		in, err := cmd.StdinPipe()
		must(err)
		outp, err := cmd.StdoutPipe()
		must(err)
		var se bytes.Buffer
		cmd.Stderr = &se
		must(cmd.Start())
		lines := make(chan string, 100)
		go func() {
			r := bufio.NewReaderSize(outp, 1<<16)
			for {
				s, err := r.ReadString('\n')
				if s != "" {
					lines <- s
				}
				if err != nil {
					close(lines)
					return
				}
			}
		}()
		deadline := time.After(40 * time.Second)
		// next takes one line from the server; "" if there is none any more.
		next := func() string {
			select {
			case s := <-lines:
				if s != "" {
					s = strings.ReplaceAll(s, dir, "@DIR@")
					if !strings.HasSuffix(s, "\n") || !json.Valid([]byte(s)) {
						t.Odd = append(t.Odd, "not a message: "+s)
					} else {
						t.Lines = append(t.Lines, json.RawMessage(strings.TrimSpace(s)))
					}
				}
				return s
			case <-deadline:
				t.Exit = "hang"
				return ""
			}
		}
		send := func(s string) {
			s = fill(s) + "\n"
			for c.Chunk > 0 && len(s) > c.Chunk {
				io.WriteString(in, s[:c.Chunk])
				s = s[c.Chunk:]
			}
			io.WriteString(in, s)
		}
		if c.Pipe {
			go func() {
				for _, m := range c.Msgs {
					send(m.Line)
				}
				in.Close()
			}()
		} else {
			for _, m := range c.Msgs {
				if m.Put != nil {
					m.Put.do(c.FilesCase)
				} else {
					send(m.Line)
				}
				if m.Wait && next() == "" {
					break
				}
				var o *FileObs
				if m.Look {
					o = &FileObs{V: []string{}, Out: Bytes{}, Odd: []string{}}
					o.FS, o.Extra = look(c.FilesCase)
				}
				t.Seen = append(t.Seen, o)
			}
			in.Close()
		}
		for t.Exit == "" && next() != "" {
		}
		if t.Exit == "hang" {
			cmd.Process.Kill()
			cmd.Wait()
		} else if err := cmd.Wait(); err == nil {
			t.Exit = "ok"
		} else {
			t.Exit = err.Error()
		}
		t.Err = se.String()
		t.End = FileObs{V: []string{}, Out: Bytes{}, Odd: []string{}}
		t.End.FS, t.End.Extra = look(c.FilesCase)
		must(os.Chdir(top))
		for _, d := range c.RoDirs {
			os.Chmod(d, 0o755)
		}
		must(os.RemoveAll(dir))
		emit(t)
		if t.Exit == "hang" {
			os.Exit(4)
		}
	})
}
