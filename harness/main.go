// vdrive executes behaviours generated from the TLA+ specifications against
// the real go-sqlparser code and records what the code did.
//
//	vdrive MODE SEED < vectors.ndjson > observed.ndjson
//
// Every line of the input is one behaviour (JSON); every line of the output
// is one observation for the validation specification.  The driver does not
// judge: it translates between the abstract values of the specification and
// Go values, and it records results, errors and panics.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"strconv"
)

type obj = map[string]any

type handler func(seed int64, line []byte, emit func(any))

var modes = map[string]handler{}

func register(name string, h handler) { modes[name] = h }

func main() {
	log.SetOutput(io.Discard)
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vdrive MODE SEED")
		os.Exit(3)
	}
	h, ok := modes[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown mode", os.Args[1])
		os.Exit(3)
	}
	seed, err := strconv.ParseInt(os.Args[2], 10, 64)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	emit := func(v any) {
		b, err := json.Marshal(v)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		out.Write(b)
		out.WriteByte('\n')
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			h(seed, line, emit)
		}
		if err != nil {
			break
		}
	}
	out.Flush()
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(3)
	}
}

// guarded runs f and reports a panic as text.
func guarded(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return ""
}
