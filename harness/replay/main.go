// Command replay runs one harness as compiled code on recorded inputs.
package main

import (
	"fmt"
	"os"

	"verif.local/harness/sym"
)

func main() {
	f := harnesses[os.Args[1]]
	if f == nil {
		fmt.Println("no such harness")
		os.Exit(4)
	}
	raw, err := os.ReadFile(os.Args[2])
	if err == nil {
		err = sym.Load(raw)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(sym.AssumeFailed); ok && len(sym.Failures) > 0 {
				os.Exit(1)
			} else if ok {
				fmt.Println("SYM-ASSUME")
				os.Exit(3)
			}
			fmt.Printf("SYM-VIOLATION panic|%v\n", r)
			os.Exit(1)
		}
		if len(sym.Failures) > 0 {
			os.Exit(1)
		}
	}()
	f()
}
