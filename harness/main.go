// Command vh drives the code of texted and records what it does.
//
// Every subcommand reads one JSON document per line from standard input and
// writes one JSON document per line to standard output, flushed after each
// line, so that the caller can tell which case stopped the process.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"
)

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "vh: "+format+"\n", a...)
	os.Exit(3)
}

var out = bufio.NewWriterSize(os.Stdout, 1<<20)

func emit(v any) {
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(v); err != nil {
		fatal("encode: %v", err)
	}
	out.Flush()
}

// eachLine calls f for every line of standard input.
func eachLine(f func(line []byte)) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			f(line)
		}
		if err != nil {
			return
		}
	}
}

func decode(line []byte, v any) {
	if err := json.Unmarshal(line, v); err != nil {
		fatal("decode: %v in %.200s", err, line)
	}
}

var hangAfter = 30 * time.Second

// guarded runs f; it returns "" if f returned, "panic" if it panicked and
// "hang" if it did not return in time or used more than 6 GB of memory.
func guarded(f func()) string {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(os.Stderr, "panic: %v\n%s\n", r, debug.Stack())
				done <- "panic"
			}
		}()
		f()
		done <- ""
	}()
	deadline := time.After(hangAfter)
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case r := <-done:
			return r
		case <-deadline:
			return "hang"
		case <-tick.C:
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 6<<30 {
				return "hang"
			}
		}
	}
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: vh COMMAND")
	}
	f, ok := map[string]func(){
		"run":     cmdRun,
		"replay":  cmdReplay,
		"program": cmdProgram,
		"script":  cmdScript,
		"files":   cmdFiles,
		"session": cmdSession,
		"docs":    cmdDocs,
		"tests":   cmdTests,
		"runs":    cmdRuns,
		"uses":    cmdUses,
		"burst":   cmdBurst,
		"big":     cmdBig,
	}[os.Args[1]]
	if !ok {
		fatal("unknown command %s", os.Args[1])
	}
	f()
	out.Flush()
}
