// Dumpwords prints the built-in dictionary of the tree it is built with.
package main

import (
	"bufio"
	"fmt"
	"os"
	"sort"

	"github.com/eaburns/toaq/dict"
)

func main() {
	var ls []string
	for k, w := range dict.Words {
		ls = append(ls, fmt.Sprintf("%q: %q %q %q %d", k, w.Word, w.Def, w.By, w.Score))
	}
	sort.Strings(ls)
	w := bufio.NewWriter(os.Stdout)
	for i, l := range ls {
		if i > 0 {
			w.WriteString("\n")
		}
		w.WriteString(l)
	}
	w.Flush()
}
