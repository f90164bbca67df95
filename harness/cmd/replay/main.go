// replay runs one harness natively, against the real build of /repo, on recorded inputs.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"

	"harness/sym"
)

type result struct {
	Status, Msg string
	Obs         []string
}

func main() {
	in, _ := io.ReadAll(os.Stdin)
	if err := json.Unmarshal(in, &sym.In); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	sym.Tier = os.Args[2]
	f := registry[os.Args[1]]
	r := run(f)
	r.Obs = sym.Obs
	b, _ := json.Marshal(r)
	fmt.Printf("\x01%s", b)
}

func run(f func()) (r result) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case sym.Failed:
			r = result{Status: "fail", Msg: string(e)}
		case sym.Assumed:
			r = result{Status: "assume"}
		default:
			r = result{Status: "panic", Msg: fmt.Sprint(e)}
			if _, ok := e.(runtime.Error); ok {
				r.Msg = "run-time panic: " + r.Msg
			}
			if os.Getenv("SYM_TRACE") != "" {
				panic(e)
			}
		}
	}()
	if f == nil {
		return result{Status: "error", Msg: "unknown harness"}
	}
	f()
	return result{Status: "ok"}
}
