// Toneburst calls the tone functions from concurrent goroutines as the first thing that a process does.
// Standard input is a JSON array with an array of words for each goroutine; standard output is a JSON array with an array of results for each.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"

	"github.com/eaburns/toaq/tone"
)

func results(words []string) []string {
	var rs []string
	for _, w := range words {
		s := fmt.Sprintf("%s %s %c", tone.ToASCII(w), tone.Strip(w), tone.Tone(w))
		for _, t := range []rune{tone.None, '-', '/', 'V', '?', '^', '\\', '~'} {
			s += " " + tone.WithTone(w, t)
		}
		rs = append(rs, s)
	}
	return rs
}

func main() {
	var words [][]string
	if err := json.NewDecoder(os.Stdin).Decode(&words); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out := make([][]string, len(words))
	start := make(chan bool)
	var wg sync.WaitGroup
	for i := range words {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			out[i] = results(words[i])
		}()
	}
	close(start)
	wg.Wait()
	json.NewEncoder(os.Stdout).Encode(out)
}
