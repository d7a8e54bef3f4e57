// Command enum runs a harness natively over all its choices (debugging only,
// no check uses it).
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"verif/harness/h"
	"verif/harness/sym"
)

func main() {
	f := h.Registry[os.Args[1]]
	seen := map[string]int{}
	n := 0
	for prefix := []int{}; ; n++ {
		sym.Enum, sym.EnumPrefix, sym.EnumTaken = true, prefix, nil
		func() {
			defer func() {
				if r := recover(); r != nil {
					m := strings.SplitN(fmt.Sprint(r), "\n", 2)[0]
					if m != "ENUM assume" {
						seen[m]++
					}
				}
			}()
			f()
		}()
		t := sym.EnumTaken
		i := len(t) - 1
		for i >= 0 && t[i][0]+1 >= t[i][1] {
			i--
		}
		if i < 0 {
			break
		}
		prefix = make([]int, i+1)
		for j := 0; j <= i; j++ {
			prefix[j] = t[j][0]
		}
		prefix[i]++
	}
	var l []string
	for k, c := range seen {
		l = append(l, fmt.Sprintf("%6d %s", c, k))
	}
	sort.Strings(l)
	for _, x := range l {
		fmt.Println(x)
	}
	fmt.Println("runs", n+1)
}
