// Command replay runs one harness natively on recorded inputs.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"strings"

	"verif/harness/h"
	"verif/harness/sym"
)

func main() {
	name := flag.String("harness", "", "")
	tier := flag.String("tier", "quick", "")
	file := flag.String("file", "", "")
	flag.Parse()
	f := h.Registry[*name]
	if f == nil {
		fmt.Println("no harness", *name)
		os.Exit(6)
	}
	t := 0
	if *tier == "thorough" {
		t = 1
	}
	if err := sym.Load(*file, t); err != nil {
		fmt.Println(err)
		os.Exit(6)
	}
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if len(msg) > 300 {
				msg = msg[:300]
			}
			fmt.Println("PANIC-AT", strings.ReplaceAll(msg, "\n", " "), "in", where())
			os.Exit(4)
		}
	}()
	f()
	fmt.Println("DONE")
}

func where() string {
	pc := make([]uintptr, 64)
	fs := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	for {
		f, more := fs.Next()
		if strings.Contains(f.Function, "go-xmp") {
			return fmt.Sprintf("%s (%s:%d)", f.Function, f.File[strings.LastIndexByte(f.File, '/')+1:], f.Line)
		}
		if !more {
			return "?"
		}
	}
}
