package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/eaburns/toaq/tone"
)

func init() {
	register(&prop{id: "C13", quick: 900000, thorough: 3000000, fixed: append(append([]string{}, hostileTexts...), allVowelWords()...), gen: genToneWord, check: checkC13, global: toneBursts,
		rule: "Words of one to four syllables (any onset, one to four vowels, with or without q, any letter case, any tones as precomposed letters, with carons or breves, i or ı), and arbitrary strings; all 8 tones are set on each. Bursts: processes built with the race detector in which 8 goroutines call the functions as the first thing that happens; the results are compared with sequential ones. Non-trivial: distinct words that the model covers.", need: []string{"words", "tones set", "other strings", "processes of bursts"}, assumptions: []string{"the race detector sees the interleavings of this run only"}})
}

var sylOnsets = []string{"b", "c", "ch", "d", "f", "g", "h", "j", "k", "l", "m", "n", "p", "r", "s", "sh", "t"}

var toneRunes = []rune{tone.None, '-', '/', 'V', '?', '^', '\\', '~'}

// allVowelWords has every vowel, case, tone, and q.
func allVowelWords() []string {
	var ws []string
	for _, on := range []string{"h", "SH", ""} {
		for _, v := range "aeiouAEIOUı" {
			for _, q := range []string{"", "q", "Q", "a", "Uq"} {
				ws = append(ws, on+string(v)+q)
				for r, lt := range decomp {
					if lt.letter == v {
						ws = append(ws, on+string(r)+q, on+string(r)+q+"ba", on+"o"+q+on+string(r))
					}
				}
			}
		}
	}
	sort.Strings(ws)
	return ws
}

func genToneWord(r *rand.Rand, i int) string {
	if r.Intn(12) == 0 {
		return genText(r)
	}
	var b strings.Builder
	for n := 1 + r.Intn(3); n > 0; n-- {
		s := syl{on: sylOnsets[r.Intn(len(sylOnsets))]}
		if b.Len() == 0 && r.Intn(6) == 0 {
			s.on = ""
		}
		for v := 1 + r.Intn(4); v > 0; v-- {
			s.des += string("aeiou"[r.Intn(5)])
		}
		if r.Intn(3) == 0 {
			s.des += "q"
		}
		if k := r.Intn(9); k > 0 {
			s.tone = byte(toneRunes[k-1])
		}
		if r.Intn(2) == 0 {
			for k := range s.on + s.des {
				if r.Intn(3) == 0 {
					s.caps |= 1 << uint(k)
				}
			}
		}
		style := nPre
		if r.Intn(3) == 0 {
			style = nBrevePre
		}
		b.WriteString(s.render(style, r.Intn(2) == 0))
	}
	return b.String()
}

// splitToneWord returns the parts before and after the first vowel, its letter and tone,
// or false if the word is not one spelled with precomposed letters.
func splitToneWord(w string) (pre string, letter rune, tn byte, post string, ok bool) {
	rs := []rune(w)
	first := -1
	vow := func(r rune) bool { return strings.ContainsRune("aeiouAEIOUı", r) || decomp[r].tone != 0 }
	coda := false
	onset := 0
	for i, r := range rs {
		switch {
		case vow(r):
			if decomp[r].tone != 0 && coda {
				return // a tone not on the first vowel
			}
			if onset == 0 && i > 0 && !coda {
				return
			}
			if first < 0 {
				first = i
			}
			coda = true
		case r == 'q' || r == 'Q':
			if !coda || !vow(rs[i-1]) {
				return
			}
		case strings.ContainsRune("bcdfghjklmnprstBCDFGHJKLMNPRST", r):
			if coda {
				onset = 0
			}
			coda = false
			onset++
			if onset > 2 {
				return
			}
		default:
			return
		}
	}
	if !coda || first < 0 {
		return
	}
	letter = rs[first]
	if lt := decomp[letter]; lt.tone != 0 {
		letter, tn = lt.letter, lt.tone
	}
	return string(rs[:first]), letter, tn, string(rs[first+1:]), true
}

func checkC13(o *obs, w string) string {
	pre, letter, tn, post, ok := splitToneWord(w)
	a, s, t := tone.ToASCII(w), tone.Strip(w), tone.Tone(w)
	if !ok {
		o.count("other strings", 1)
		for _, t := range toneRunes {
			tone.WithTone(w, t)
		}
		return ""
	}
	o.count("words", 1)
	o.nontrivial(w)
	if want := asciiWord(w); a != want {
		return fmt.Sprintf("ToASCII gives %q, want %q", a, want)
	}
	stripped := strings.Map(func(r rune) rune {
		if strings.ContainsRune(`-/V?^\~`, r) {
			return -1
		}
		return r
	}, asciiWord(w))
	if s != stripped {
		return fmt.Sprintf("Strip gives %q, want %q", s, stripped)
	}
	if x := tone.ToASCII(a); x != a {
		return fmt.Sprintf("ToASCII of its output %q gives %q", a, x)
	}
	if x := tone.Strip(s); x != s {
		return fmt.Sprintf("Strip of its output %q gives %q", s, x)
	}
	if x := tone.Strip(a); x != s {
		return fmt.Sprintf("Strip of the ASCII form %q gives %q, not %q", a, x, s)
	}
	if t != rune(tn) {
		return fmt.Sprintf("Tone gives %q, want %q", t, rune(tn))
	}
	if x := tone.Tone(a); x != rune(tn) {
		return fmt.Sprintf("Tone of the ASCII form %q gives %q, want %q", a, x, rune(tn))
	}
	for _, t := range toneRunes {
		o.count("tones set", 1)
		l := letter
		if l == 'ı' {
			l = 'i'
		}
		var v string
		if t != tone.None {
			v = preOf[letterTone{l, byte(t)}]
		} else if l == 'i' {
			v = "ı"
		} else {
			v = string(l)
		}
		want := pre + v + post
		got := tone.WithTone(w, t)
		if got != want {
			return fmt.Sprintf("WithTone %q gives %q, want %q", t, got, want)
		}
		if x := tone.Tone(got); x != t {
			return fmt.Sprintf("Tone of %q, in which %q was set, gives %q", got, t, x)
		}
		if x := tone.WithTone(got, t); x != got {
			return fmt.Sprintf("setting %q again in %q gives %q", t, got, x)
		}
		if x := tone.Strip(got); x != s {
			return fmt.Sprintf("setting %q changed the letters: %q, was %q", t, x, s)
		}
		for _, t2 := range toneRunes {
			if x, y := tone.WithTone(got, t2), tone.WithTone(w, t2); x != y {
				return fmt.Sprintf("setting %q then %q gives %q, but %q alone %q", t, t2, x, t2, y)
			}
		}
	}
	return ""
}
