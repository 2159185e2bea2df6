package main

import (
	"math/rand"
	"strings"
	"unicode"
)

// hostileTexts are fixed inputs: empty, white space, deep nesting, long chains, invalid UTF-8, odd runes.
var hostileTexts = func() []string {
	ts := []string{
		"", " ", "\n\n", ".", "\x00", "\xff", "\xc3", "\xc3\x28", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\ufeff", "\ufeffmai?", "mai?\ufeff",
		"mai? ji/", "mai? \xffji/", "mai? ji/\xff", "mai? ji/ \xff", "mai?\x00", "mai? x", "x", "\u0301", "ji/\u0301", "a", "ji", "gi7", "gi0",
		"moq", "moq?", "mai? moq?", "mai? moq ?", "mai? moq??? gi?", "mai? moq?gi?", "moq? moq?", "mai? MOQ?.",
		"bei", "bei bei", " bei", "bei mai?", "m", "mai? bei bei , bei .", "kio mai? ki", "kio kio mai? ki ki", "ju mai? na", "hu ji/", "hu ji/ hu suq/ mai?",
		"mo? mai? teo", "mo? bei mai? bei teo", "mo? mo? mai? teo teo", "mo?mai?teo",
		"to ru mai? to gi? ji/", "to ru ji/ suq/ to suq/ ji/", "mai? to ru ji/ suq/ to suq/ ji/", "mai? to ru ji/ suq/ poq/ to suq/ ji/ poq/ ji/",
		"mai? to ru ji/ suq/ poq/ ho/ to suq/ ji/ poq/ ji/", "mai? to ru ji/ suq/ poq/ ho/ ji/ to suq/ ji/ poq/ ji/ ho/",
		"gı?", "gỉ", "gi?", "gi4", "gi\u0309", "GI?", "G\u0131?", "gi/bo-", "gi?bo1", "gi2bo\u0304", "gíbō", "GÍBŌ", "giVboa-", "gĭ ji/", "gǐ", "gi\u0306",
		"mai^ ji/ na ru gi? ji/", "gi? mai^ ji/ na ru gi? ji/ na suq/", "gi? to ru ji/ to suq/", "ji/ bi mai?", "ji/ pa mai?",
		"mai? ku ke ji/ giV hoa/ na", "mai? ji/ luV gi? hoa/ na", "po? ji/ ga suq/", "jei? to ru ji/ to suq/ ga suq/", "mi? ji/ ga", "shu? mai~ ga ji/",
		"li? mai? na ji/", "lu? mai? hoa/ na ji/", "tio^ mai? na", "mai? ji/, suq/. gi? (ji/)!", "mai? \"ji/\"", "«mai? ji/»", "mai? — ji/", "mai?-ji/", "mai?/ji/",
		"doq/", "do/ bi do?", "sa do/ bi mai? do/", "tu do/ pa sa do/ pa mai?", "fi ji/ go suq/", "mai? fi ji/ cu suq/", "mai? ta ji/",
		"keo mai? da", "je mai? ba", "mai? ka gi? so", "gi~ mai?", "mai? gi\\ ji/", "mai? gi~ ru maiV~", "mai? ji/ roi suq/",
	}
	deep := func(pre, mid, post string, n int) string {
		return strings.Repeat(pre, n) + mid + strings.Repeat(post, n)
	}
	for _, n := range []int{12, 60} {
		ts = append(ts,
			deep("lu? ", "mai?", " na", n),
			deep("kio ", "mai?", " ki", n),
			"mai? "+deep("kio mai? ", "gi?", " ki", n),
			deep("mo? ", "mai?", " teo", n),
			deep("po? ji/ ", "", "", n),
			deep("gi? ji/ giV ", "", "", n),
			"gi? "+deep("mai^ ", "ji/", " na", n),
			deep("to ru ", "mai?", " to gi?", n),
			deep("to ru ", "mai?", "", n), // unterminated
			deep("kio ", "mai?", "", n),
			deep("mo? ", "mai?", "", n),
			strings.Repeat("mai? ru ", n)+"gi?",
			strings.Repeat("mai? ", n*4),
			"mai? "+strings.Repeat("ji/ ", n*4),
			"mai? "+strings.Repeat("ji/ ru ", n)+"suq/",
			"mai? "+strings.Repeat("bei ", n*4),
			"mai?"+strings.Repeat(" , . ", n*4),
			"mai? "+strings.Repeat("mi\\ ", n),
			"mai? moq"+strings.Repeat("?", n*4),
			strings.Repeat("bo-", n*4),
			"bo?"+strings.Repeat("bo-", n*4),
			"hu "+strings.Repeat("ji/ ru ", n)+"x",
			strings.Repeat("po/ mi/ ", n)+"x",
			strings.Repeat("gi~ ra ", n)+"x",
			strings.Repeat("gi\\ ra ", n)+"x",
			strings.Repeat("to ra ", n)+"x",
			strings.Repeat("mai? ji/ giV ", n)+"x",
			strings.Repeat("kio mai? ju ", n),
		)
	}
	return ts
}()

// longTexts are fixed texts of some n bytes.
func longTexts(n int) []string {
	long := func(pre, s, post string) string { return pre + strings.Repeat(s, n/len(s)) + post }
	return []string{
		long("", "mai? ji/ da\n", "gi?"),
		long("mai?", " ", "ji/"),
		long("bo?", "bo-", " ji/ moq??"),
		long("mai? ", "ji/ poq/ bei, ", "ho/"),
		long("", "mai? ji/\n", "x"),
		long("", "lu? mai? na ru\n", "kio gi? ji/ ki x"),
	}
}

func withLong(n int) []string {
	return append(append([]string{}, hostileTexts...), longTexts(n)...)
}

// genText makes a text: mostly grammatical, else near-misses and noise.
func genText(r *rand.Rand) string {
	switch k := r.Intn(20); {
	case k < 13:
		return genGood(r)
	case k < 15:
		ts := mutateTokens(r, genTokens(r, pickOpts(r), r.Intn(3) == 0, 4+r.Intn(18), 1+r.Intn(3)))
		return randText(r, decorate(r, ts, r.Intn(3) == 0, r.Intn(2) == 0))
	case k < 18:
		return mutateBytes(r, genGood(r))
	case k == 18 && r.Intn(2) == 0:
		return brokenSyllable(r)
	case k < 19:
		var ts []tok
		for n := r.Intn(12); n >= 0; n-- {
			ts = append(ts, word(anyTokens[r.Intn(len(anyTokens))]))
		}
		return randText(r, decorate(r, ts, true, true))
	default:
		var b strings.Builder
		for n := r.Intn(20); n >= 0; n-- {
			if r.Intn(8) == 0 {
				b.WriteByte(byte(r.Intn(256)))
			} else {
				b.WriteRune(oddRunes[r.Intn(len(oddRunes))])
			}
		}
		return b.String()
	}
}

// pumpText makes a text with deep nesting: a phrase within a phrase of the same kind
// is put into it again and again. One in three is cut short somewhere, so that it is in error.
func pumpText(r *rand.Rand) string {
	for k := 0; k < 8; k++ {
		text := genGood(r)
		root, _ := refParse(text)
		if root == nil {
			continue
		}
		type pair struct{ out, in *rnode }
		var pairs []pair
		var up []*rnode
		var walk func(n *rnode)
		walk = func(n *rnode) {
			for _, a := range up {
				if a.name == n.name && a.end-a.start > n.end-n.start {
					pairs = append(pairs, pair{a, n})
				}
			}
			up = append(up, n)
			for _, c := range n.kids {
				walk(c)
			}
			up = up[:len(up)-1]
		}
		walk(root)
		if len(pairs) == 0 {
			continue
		}
		p := pairs[r.Intn(len(pairs))]
		pre, post := text[p.out.start:p.in.start], text[p.in.end:p.out.end]
		max := 1000 / len(pre+post)
		if max < 3 {
			continue
		}
		n := 2 + r.Intn(max-1)
		s := text[:p.out.start] + strings.Repeat(pre, n) + text[p.in.start:p.in.end] + strings.Repeat(post, n) + text[p.out.end:]
		if r.Intn(3) == 0 {
			s = s[:len(s)-r.Intn(len(s)/2)]
		}
		return s
	}
	return genText(r)
}

// brokenSyllable makes a text that stops making sense within a syllable.
func brokenSyllable(r *rand.Rand) string {
	var b strings.Builder
	if r.Intn(2) == 0 {
		ts := genTokens(r, pickOpts(r), false, 2+r.Intn(6), 1+r.Intn(2))
		b.WriteString(randText(r, ts[:r.Intn(len(ts)+1)]))
	}
	s := syl{on: onsets[r.Intn(len(onsets))], des: rhymes[r.Intn(len(rhymes))]}
	if r.Intn(4) > 0 {
		s.tone = tones[r.Intn(len(tones))]
	}
	if r.Intn(4) == 0 {
		s.caps = r.Intn(64) & (1<<uint(len(s.on+s.des)) - 1)
	}
	if r.Intn(4) == 0 {
		// The words with a role of their own.
		t := word(anyTokens[r.Intn(len(anyTokens))])
		if len(t.syls) > 0 {
			s = t.syls[0]
		}
	}
	rs := []rune(s.render(r.Intn(nStyles), r.Intn(2) == 0))
	b.WriteString(string(rs[:len(rs)-r.Intn(len(rs))]))
	switch r.Intn(3) {
	case 0:
		b.WriteRune(oddRunes[r.Intn(len(oddRunes))])
	case 1:
		b.WriteString(s.render(r.Intn(nStyles), r.Intn(2) == 0))
	}
	return b.String()
}

// genGood makes a text that is grammatical more often than not.
func genGood(r *rand.Rand) string {
	o := pickOpts(r)
	if r.Intn(8) == 0 {
		o.badConn = .4
	}
	ts := genTokens(r, o, r.Intn(3) == 0, 4+r.Intn(20), 1+r.Intn(4))
	ts = decorate(r, ts, r.Intn(3) == 0, r.Intn(2) == 0)
	var s string
	switch r.Intn(3) {
	case 0:
		s = plainText(ts)
	default:
		s = randText(r, ts)
	}
	if r.Intn(4) == 0 {
		s = spaceWords[r.Intn(len(spaceWords))] + s
	}
	if r.Intn(3) == 0 {
		s = strings.TrimRight(s, " ")
	}
	return s
}

// syllableTexts has every rhyme in every tone, notation and case, in a text that its tone allows.
func syllableTexts() []string {
	var texts []string
	seen := map[string]bool{}
	for _, des := range rhymes {
		for _, t := range tones {
			for style := 0; style < nStyles; style++ {
				for caps := 0; caps < 8; caps++ {
					s := syl{on: []string{"", "g"}[caps>>2], des: des, tone: t}
					switch caps & 3 {
					case 1:
						s.caps = 1 << uint(len(s.on))
					case 2:
						s.caps = 1<<uint(len(s.on+s.des)) - 1
					}
					w := s.render(style, caps&3 == 3)
					switch t {
					case '-':
						w = "mai?" + w
					case '/', '^':
						w = "mai? " + w
					case 'V':
						w = "mai? ji/ " + w + " suq/"
					case '~':
						w = "mai? " + w + " ji/"
					case '\\':
						w = "mai? " + w + " ji/ suq/"
					}
					if !seen[w] {
						seen[w] = true
						texts = append(texts, w)
					}
				}
			}
		}
	}
	return texts
}

// punctRunes are the characters of punctuation.
var punctRunes = func() []rune {
	var rs []rune
	add := func(lo, hi, stride rune) {
		for r := lo; r <= hi; r += stride {
			if combOf[r] == 0 && markOf[r] == 0 {
				rs = append(rs, r)
			}
		}
	}
	for _, t := range unicode.P.R16 {
		add(rune(t.Lo), rune(t.Hi), rune(t.Stride))
	}
	for _, t := range unicode.P.R32 {
		add(rune(t.Lo), rune(t.Hi), rune(t.Stride))
	}
	return rs
}()

// charTexts has every character of punctuation, white space, symbols and marks between two words.
func charTexts() []string {
	var texts []string
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if unicode.IsPunct(r) || unicode.IsSpace(r) || unicode.In(r, unicode.Z, unicode.Cc, unicode.Sm, unicode.Sk, unicode.Sc) || r >= 0x300 && r < 0x370 {
			texts = append(texts, "mai?"+string(r)+"ji/")
		}
	}
	return texts
}

func exhaustiveTexts() []string { return append(syllableTexts(), charTexts()...) }

// pairTexts has every pair of words, of any class and tone.
func pairTexts() []string {
	var texts []string
	for _, a := range anyTokens {
		for _, b := range anyTokens {
			texts = append(texts, a+" "+b)
		}
	}
	return texts
}

// classTokens has a word of each class that the grammar distinguishes.
var classTokens = strings.Fields(`bi da pa ga go bei hu ju ki kio keo je na ru roi ke sa hi to teo moq lu/ luV lu? lu^ li\ lu~ mi/ miV mi? mi^ mi\ mi~
	mo/ moV mo? mo^ mo\ mo~ po/ poV po? po^ po\ po~ gi gi/ giV gi? gi^ gi\ gi~ do/ hoaV nuo?kuai-`)

// tripleText is the ith sequence of three words of any class, or "".
func tripleText(i int) string {
	n := len(classTokens)
	if i < 0 || i >= n*n*n {
		return ""
	}
	return classTokens[i/n/n] + " " + classTokens[i/n%n] + " " + classTokens[i%n]
}

// tripleGen makes all sequences of three words in a thorough run, besides the texts of gen.
func tripleGen(quick int, gen func(r *rand.Rand, i int) string) func(r *rand.Rand, i int) string {
	return func(r *rand.Rand, i int) string {
		if s := tripleText(i - quick); s != "" {
			return s
		}
		return gen(r, i)
	}
}
