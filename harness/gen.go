package main

import (
	"math/rand"
	"strings"
)

// A syl is one syllable: onset, desinence (rhyme), and tone marker (0 for neutral).
type syl struct {
	on, des string
	tone    byte
	caps    int // bit mask over the letters of on+des that are upper case
}

// A tok is one word followed by a separator.
type tok struct {
	syls []syl
	sep  string
	// raw, if non-empty, is verbatim text instead of syls.
	raw string
}

var (
	onsets = []string{"b", "ch", "c", "d", "f", "g", "h", "j", "k", "l", "m", "n", "p", "r", "sh", "s", "t"}
	rhymes = strings.Fields(`aq ai ao a uq uaq uai uao ua ui uoq uoi uo ueq ue u
		iq iaq iai iao ia iuq iu ioi ioq io ieq ie i
		oq oaq oai oao oa oi oeq oe o
		eq eaq eai eao ea ei eoq eo eu e`)
	tones = []byte(`-/V?^\~`)
	// initial tones
	itones = []byte(`/V?^\~`)
)

// splitWord splits an un-toned or marker-toned ASCII word ("nuo?kuai-") into syllables.
func splitWord(s string) []syl {
	var out []syl
	i := 0
	isV := func(c byte) bool { return strings.IndexByte("aeiou", c) >= 0 }
	for i < len(s) {
		j := i
		for j < len(s) && !isV(s[j]) {
			j++
		}
		k := j
		for k < len(s) && isV(s[k]) {
			k++
		}
		if k < len(s) && s[k] == 'q' {
			k++
		}
		sy := syl{on: s[i:j], des: s[j:k]}
		if k < len(s) && strings.IndexByte(`-/V?^\~`, s[k]) >= 0 {
			sy.tone = s[k]
			k++
		}
		out = append(out, sy)
		i = k
	}
	return out
}

func word(s string) tok { return tok{syls: splitWord(s), sep: " "} }

// notation styles
const (
	nMarkEnd = iota
	nMarkVowel
	nDigitEnd
	nDigitVowel
	nPre
	nComb
	nBreveComb
	nBrevePre
	nStyles
)

var toneDigit = map[byte]string{'-': "1", '/': "2", 'V': "3", '?': "4", '^': "5", '\\': "6", '~': "7"}
var toneComb = map[byte]string{'-': "\u0304", '/': "\u0301", 'V': "\u030C", '?': "\u0309", '^': "\u0302", '\\': "\u0300", '~': "\u0303"}

// preLetters is written out independently of the tone package's table.
var preLetters = map[byte]string{
	'-':  "ā a Ā A ū u Ū U ī i Ī I ō o Ō O ē e Ē E",
	'/':  "á a Á A ú u Ú U í i Í I ó o Ó O é e É E",
	'V':  "ǎ a Ǎ A ǔ u Ǔ U ǐ i Ǐ I ǒ o Ǒ O ě e Ě E",
	'?':  "ả a Ả A ủ u Ủ U ỉ i Ỉ I ỏ o Ỏ O ẻ e Ẻ E",
	'^':  "â a Â A û u Û U î i Î I ô o Ô O ê e Ê E",
	'\\': "à a À A ù u Ù U ì i Ì I ò o Ò O è e È E",
	'~':  "ã a Ã A ũ u Ũ U ĩ i Ĩ I õ o Õ O ẽ e Ẽ E",
}
var breveLetters = "ă a Ă A ŭ u Ŭ U ĭ i Ĭ I ŏ o Ŏ O ĕ e Ĕ E"

type letterTone struct {
	letter rune
	tone   byte
}

var (
	preOf   = map[letterTone]string{}
	breveOf = map[rune]string{}
	// decomp maps a precomposed letter to its base letter and tone.
	decomp = map[rune]letterTone{}
	combOf = map[rune]byte{'\u0304': '-', '\u0301': '/', '\u030C': 'V', '\u0306': 'V', '\u0309': '?', '\u0302': '^', '\u0300': '\\', '\u0303': '~'}
	markOf = map[rune]byte{'-': '-', '1': '-', '/': '/', '2': '/', 'V': 'V', '3': 'V', '?': '?', '4': '?', '^': '^', '5': '^', '\\': '\\', '6': '\\', '~': '~', '7': '~'}
)

func init() {
	for t, s := range preLetters {
		fs := strings.Fields(s)
		for i := 0; i < len(fs); i += 2 {
			base := []rune(fs[i+1])[0]
			preOf[letterTone{base, t}] = fs[i]
			decomp[[]rune(fs[i])[0]] = letterTone{base, t}
		}
	}
	fs := strings.Fields(breveLetters)
	for i := 0; i < len(fs); i += 2 {
		base := []rune(fs[i+1])[0]
		breveOf[base] = fs[i]
		decomp[[]rune(fs[i])[0]] = letterTone{base, 'V'}
	}
}

// render writes the syllable in a notation.
// If dotless, a lower-case i without diacritic is written ı.
func (s syl) render(style int, dotless bool) string {
	letters := []byte(s.on + s.des)
	for i := range letters {
		if s.caps&(1<<uint(i)) != 0 {
			letters[i] -= 'a' - 'A'
		}
	}
	lt := func(c byte) string {
		if c == 'i' && dotless {
			return "ı"
		}
		return string(rune(c))
	}
	var b strings.Builder
	v := len(s.on) // index of the first vowel
	if s.des == "" {
		v = -1
	}
	if s.tone != 'V' && style == nBreveComb {
		style = nComb
	}
	if s.tone != 'V' && style == nBrevePre {
		style = nPre
	}
	for i, c := range letters {
		if i != v || s.tone == 0 {
			b.WriteString(lt(c))
			continue
		}
		switch style {
		case nPre:
			b.WriteString(preOf[letterTone{rune(c), s.tone}])
		case nBrevePre:
			b.WriteString(breveOf[rune(c)])
		case nComb:
			b.WriteString(lt(c) + toneComb[s.tone])
		case nBreveComb:
			b.WriteString(lt(c) + "\u0306")
		case nMarkVowel:
			b.WriteString(lt(c) + string(rune(s.tone)))
		case nDigitVowel:
			b.WriteString(lt(c) + toneDigit[s.tone])
		default:
			b.WriteString(lt(c))
		}
	}
	if s.tone != 0 {
		switch style {
		case nMarkEnd:
			b.WriteByte(s.tone)
		case nDigitEnd:
			b.WriteString(toneDigit[s.tone])
		}
	}
	return b.String()
}

func (t tok) text(style int, dotless bool) string {
	if t.raw != "" {
		return t.raw
	}
	var b strings.Builder
	for _, s := range t.syls {
		b.WriteString(s.render(style, dotless))
	}
	return b.String()
}

func plainText(ts []tok) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.text(nMarkEnd, false))
		b.WriteString(t.sep)
	}
	return b.String()
}

// randText renders with a random notation per syllable.
func randText(r *rand.Rand, ts []tok) string {
	var b strings.Builder
	for _, t := range ts {
		if t.raw != "" {
			b.WriteString(t.raw)
		}
		for _, s := range t.syls {
			b.WriteString(s.render(r.Intn(nStyles), r.Intn(2) == 0))
		}
		b.WriteString(t.sep)
	}
	return b.String()
}

// A gen generates token sequences following the grammar's structure.
type gen struct {
	r      *rand.Rand
	out    []tok
	budget int
	// freemods enables free modifiers.
	freemods bool
	// feature weights
	f genOpts
	// nq counts nesting of quotes.
	depth int
	// bound are the variables quantified so far.
	bound []string
	// inRel counts nesting of relative clauses and lu-phrases.
	inRel int
}

type genOpts struct {
	connect  float64 // probability of a connective at a connectable place
	quant    float64 // probability of a quantifier on an argument
	rel      float64 // relative clauses
	vars     float64 // variables rather than words
	hoa      float64
	adverbs  float64 // adverbs and prepositions as terms
	linked   float64
	serial   float64
	special  float64 // LU, MI, PO, MO, content
	prenex   float64
	termset  float64
	frag     float64
	badConn  float64 // connectives that are not supported everywhere (ro, re, roi)
	randWord float64
	sentence float64
	roi      float64 // roi between arguments
	bindRef  float64 // an argument that binds or refers to a variable
	relHoa   float64 // hoa within relative clauses and lu-phrases
	define   float64 // relative clauses of identity
}

var defaultOpts = genOpts{connect: .15, quant: .3, rel: .2, vars: .2, hoa: .08, adverbs: .15, linked: .1, serial: .12, special: .15, prenex: .15, termset: .04, frag: .12, badConn: .05, randWord: .15, sentence: .2}

var contentWords = []string{"gi", "mai", "ji", "suq", "poq", "de", "chea", "jai", "shi", "duo", "rai", "bu", "tuq", "maq", "ho", "pai", "jaq", "chuq", "koi", "hoaq", "mea", "jeqtu", "nuokuai", "jibo", "dua", "doq", "dao", "choq", "fa", "ni", "ne", "luq", "toaq", "muo"}
var varWords = []string{"do", "do", "do", "dofa", "domi"}

func (g *gen) p(x float64) bool { return g.r.Float64() < x }

func (g *gen) emit(w string) {
	t := word(w)
	g.emitTok(t)
}

func (g *gen) emitTok(t tok) {
	g.out = append(g.out, t)
}

var spaceWords = []string{" ", " ", " ", " ", ", ", ". ", "\n", "\t", "! ", " — ", "“", "… ", "  ", " (", ") ", "\r\n", ": ", "; ", "\"", "’"}

// fw emits a function word (neutral), possibly followed by a free modifier.
func (g *gen) fw(w string) {
	g.emit(w)
	g.mods()
}

// mods maybe emits free modifiers.
func (g *gen) mods() {
	if !g.freemods || g.depth > 2 || !g.p(.06) {
		return
	}
	g.depth++
	defer func() { g.depth-- }()
	switch g.r.Intn(5) {
	case 0, 1:
		g.emit("bei")
	case 2:
		g.emit("kio")
		g.discourse(2)
		g.emit("ki")
	case 3:
		g.emit("ju")
		g.statement(2)
		if g.p(.7) {
			g.emit("na")
		}
	case 4:
		g.emit("hu")
		g.argument(2)
	}
}

func (g *gen) pick(ss ...string) string { return ss[g.r.Intn(len(ss))] }

// tonedWord emits a content word in the given tone.
func (g *gen) tonedWord(tone byte) {
	var syls []syl
	switch {
	case g.p(g.f.hoa) || g.inRel > 0 && g.p(g.f.relHoa):
		syls = splitWord("hoa")
	case len(g.bound) > 0 && g.p(g.f.bindRef*.2):
		syls = splitWord(g.pick(g.bound...))
	case g.p(g.f.vars):
		syls = splitWord(varWords[g.r.Intn(len(varWords))])
	case g.p(g.f.randWord):
		n := 1 + g.r.Intn(3)
		for i := 0; i < n; i++ {
			syls = append(syls, syl{on: onsets[g.r.Intn(len(onsets))], des: rhymes[g.r.Intn(len(rhymes))]})
		}
	default:
		syls = splitWord(contentWords[g.r.Intn(len(contentWords))])
	}
	syls = append([]syl{}, syls...)
	for i := range syls {
		syls[i].tone = '-'
	}
	syls[0].tone = tone
	g.emitTok(tok{syls: syls, sep: " "})
	g.mods()
}

func (g *gen) conn() string {
	if g.p(g.f.badConn) {
		return g.pick("ro", "re", "roi")
	}
	return g.pick("ru", "ru", "ra", "ri")
}

func (g *gen) connected(d int, f func(int)) {
	if d > 0 && g.p(g.f.connect) {
		g.budget--
		if g.p(.4) {
			g.fw("to")
			g.fw(g.conn())
			f(d - 1)
			g.fw("to")
			f(d - 1)
			return
		}
		f(d - 1)
		g.fw(g.conn())
		f(d - 1)
		for n := 0; n < 3 && g.p(.15); n++ {
			// A chain.
			g.budget--
			g.fw(g.conn())
			f(d - 1)
		}
		return
	}
	f(d)
}

// connectedRoi is like connected, but with roi.
func (g *gen) connectedRoi(d int, f func(int)) {
	if d <= 0 {
		f(d)
		return
	}
	g.budget--
	fore := g.p(.4)
	if fore {
		g.fw("to")
		g.fw("roi")
	}
	part := func() {
		if g.p(.1) {
			g.connectedRoi(d-1, f)
		} else {
			g.connected(d-1, f)
		}
	}
	part()
	if fore {
		g.fw("to")
		part()
		return
	}
	g.fw("roi")
	part()
	for n := 0; n < 4 && g.p(.3); n++ {
		// A chain.
		g.budget--
		g.fw("roi")
		part()
	}
}

func (g *gen) varWord(v string, tone byte) {
	syls := append([]syl{}, splitWord(v)...)
	for i := range syls {
		syls[i].tone = '-'
	}
	syls[0].tone = tone
	g.emitTok(tok{syls: syls, sep: " "})
	g.mods()
}

// predicate emits a predicate of the given tone.
func (g *gen) predicate(tone byte, d int) {
	g.budget--
	if g.budget < 0 {
		d = 0
	}
	// The second part of a connected predicate has the neutral form of a
	// predicate; in another tone, it often is an argument and so on of its own.
	parts, sameTone := 0, g.p(.4)
	g.connected(d, func(d int) {
		n := 1
		for d > 0 && n < 3 && g.p(g.f.serial) {
			n++
		}
		for i := 0; i < n; i++ {
			t := tone
			if i > 0 || parts > 0 && !sameTone {
				t = '?'
			}
			g.predicate1(t, d)
		}
		parts++
	})
}

func (g *gen) tw(w string, tone byte) {
	ss := splitWord(w)
	ss[0].tone = tone
	g.emitTok(tok{syls: ss, sep: " "})
	g.mods()
}

func (g *gen) predicate1(tone byte, d int) {
	if d <= 0 || !g.p(g.f.special) {
		g.tonedWord(tone)
		return
	}
	switch g.r.Intn(6) {
	case 0, 1:
		w := g.pick("lu", "lu", "li", "lo", "ma", "tio")
		g.tw(w, tone)
		if w == "lu" {
			g.inRel++
		}
		g.statement(d - 1)
		if w == "lu" {
			g.inRel--
		}
		if g.p(.8) {
			g.fw("na")
		}
	case 2:
		g.tw(g.pick("mi", "shu"), tone)
		switch g.r.Intn(4) {
		case 0:
			g.predicate('?', d-1)
		case 1:
			g.argument(d - 1)
		case 2:
			g.adverb(d - 1)
		case 3:
			g.preposition(d - 1)
		}
		if g.p(.6) {
			g.fw("ga")
		}
	case 3, 4:
		g.tw(g.pick("po", "po", "jei"), tone)
		g.argument(d - 1)
		if g.p(.6) {
			g.fw("ga")
		}
	case 5:
		g.tw("mo", tone)
		if g.freemods && g.p(.1) {
			g.emit("bei")
		}
		g.discourse(d - 1)
		g.fw("teo")
	}
}

func (g *gen) argument(d int) {
	g.budget--
	if g.budget < 0 {
		d = 0
	}
	conn := g.connected
	if g.p(g.f.roi) {
		conn = g.connectedRoi
	}
	conn(d, func(d int) {
		if g.p(.05) {
			g.fw("ku")
		}
		if d > 0 && g.f.define > 0 && g.p(g.f.define*.4) {
			if g.p(.8) {
				g.fw(g.pick("ke", "ke", "ke", "ke", "sa", "ja"))
			}
			v := varWords[g.r.Intn(len(varWords))]
			g.bound = append(g.bound, v)
			g.varWord(v, '/')
			g.inRel++
			g.definition(d)
			g.inRel--
			return
		}
		if g.p(g.f.bindRef) {
			v := ""
			if len(g.bound) == 0 || g.p(.5) {
				g.fw(g.pick("ke", "tu", "sa", "sa", "sia", "hi", "ja"))
				v = varWords[g.r.Intn(len(varWords))]
				g.bound = append(g.bound, v)
			} else {
				v = g.pick(g.bound...)
			}
			g.varWord(v, '/')
			if d > 0 && g.p(g.f.rel) {
				g.relative(d - 1)
			}
			return
		}
		if g.p(g.f.quant) {
			g.fw(g.pick("ke", "tu", "sa", "sa", "sia", "hi", "ja"))
		}
		if d > 0 && g.p(g.f.special) {
			// content clause
			if g.p(.3) {
				g.tw(g.pick("lu", "li", "lo", "ma", "tio"), '^')
				g.statement(d - 1)
				g.fw("na")
				if g.p(.2) {
					g.fw(g.conn())
					g.statement(d - 1)
				}
				return
			}
			g.predicate('^', d-1)
			g.terms(d-1, g.r.Intn(3))
			if g.p(.5) {
				g.fw("na")
				if g.p(.15) {
					g.fw(g.conn())
					g.statement(d - 1)
				}
			}
		} else {
			g.predicate('/', d-1)
		}
		if d > 0 && g.p(g.f.rel) {
			g.relative(d - 1)
		}
	})
}

func (g *gen) relative(d int) {
	g.inRel++
	defer func() { g.inRel-- }()
	g.connected(d, func(d int) {
		if g.f.define > 0 && g.p(g.f.define) {
			g.definition(d)
			return
		}
		if d > 0 && g.p(.2) {
			g.tw(g.pick("lu", "li", "lo", "ma", "tio"), 'V')
			g.statement(d - 1)
		} else {
			g.predicate('V', d)
			g.terms(d, g.r.Intn(3))
		}
		if g.p(.6) {
			g.fw("na")
			if g.p(.1) {
				g.fw(g.conn())
				g.statement(d)
			}
		}
	})
}

// definition says what hoa, or another variable, is.
func (g *gen) definition(d int) {
	g.varWord("jeqtu", 'V')
	self := func() {
		if len(g.bound) > 0 && g.p(.3) {
			g.varWord(g.pick(g.bound...), '/')
		} else {
			g.tw("hoa", '/')
		}
	}
	def := func() {
		switch g.r.Intn(6) {
		case 0, 1: // a content clause, with or without the variable
			g.predicate('^', d-1)
			if g.p(.4) {
				self()
			} else {
				g.terms(d-1, g.r.Intn(2))
			}
			if g.p(.7) {
				g.fw("na")
			}
		case 2: // a quote
			g.tw("mo", '/')
			g.discourse(d - 1)
			g.fw("teo")
		case 3, 4: // a plurality, with or without the variable
			for i, n := 0, 2+g.r.Intn(2); i < n; i++ {
				if i > 0 {
					g.fw("roi")
				}
				if g.p(.3) {
					self()
				} else {
					g.predicate('/', 0)
				}
			}
		default:
			g.argument(d - 1)
		}
	}
	switch g.r.Intn(8) {
	case 0: // the other way round
		def()
		self()
	case 1:
		self()
	default:
		self()
		def()
	}
	if g.p(.1) {
		g.argument(d - 1)
	}
	if g.p(.5) {
		g.fw("na")
	}
}

func (g *gen) adverb(d int) {
	g.connected(d, func(d int) { g.predicate('~', d) })
}

func (g *gen) preposition(d int) {
	g.connected(d, func(d int) {
		g.predicate('\\', d)
		g.argument(d)
	})
}

func (g *gen) term(d int) {
	switch {
	case d > 0 && g.p(g.f.termset):
		n := 2 + g.r.Intn(2)
		if g.p(.2) {
			n = 4 + g.r.Intn(2)
			g.budget += 8
		}
		g.fw("to")
		g.fw(g.conn())
		g.terms(d-1, n)
		g.fw("to")
		g.terms(d-1, n)
	case g.p(g.f.adverbs):
		if g.p(.5) {
			g.adverb(d)
		} else {
			g.preposition(d)
		}
	default:
		if g.p(g.f.linked) {
			g.fw(g.pick("fi", "go", "cu", "ta"))
		}
		g.argument(d)
	}
}

func (g *gen) terms(d, n int) {
	for i := 0; i < n && g.budget > 0; i++ {
		g.term(d)
	}
}

func (g *gen) statement(d int) {
	g.budget--
	if g.budget < 0 {
		d = 0
	}
	if d > 0 && g.p(g.f.prenex) {
		g.terms(d-1, 1+g.r.Intn(2))
		g.fw(g.pick("bi", "pa"))
	}
	g.connected(d, func(d int) {
		g.predicate('?', d)
		g.terms(d, g.r.Intn(4))
		if g.p(.3) {
			g.fw("na")
		}
	})
}

func (g *gen) sentence(d int) {
	g.connected(d, func(d int) {
		if g.p(.1) {
			g.fw(g.pick("keo", "je"))
		}
		g.statement(d)
		if g.p(.3) {
			w := g.pick("da", "ka", "ba", "so", "moq")
			if w == "moq" && g.p(.5) {
				t := word("moq")
				t.raw = g.pick("moq?", "moq??", "Moq???", "moq?.")
				g.emitTok(t)
				g.mods()
				return
			}
			g.fw(w)
		}
	})
}

func (g *gen) discourse(d int) {
	if d < 1 {
		d = 1
	}
	for {
		if g.p(g.f.frag) {
			switch g.r.Intn(4) {
			case 0:
				g.relative(d - 1)
			case 1:
				g.terms(d-1, 1)
				g.fw(g.pick("bi", "pa"))
			case 2:
				g.terms(d-1, 1+g.r.Intn(2))
			case 3:
				if g.freemods {
					g.emit("bei")
				} else {
					g.terms(d-1, 1)
				}
			}
		} else {
			g.sentence(d)
		}
		if g.budget < 0 || !g.p(g.f.sentence) {
			return
		}
	}
}

// genTokens makes a text as tokens.
func genTokens(r *rand.Rand, o genOpts, freemods bool, budget, depth int) []tok {
	g := &gen{r: r, f: o, freemods: freemods, budget: budget}
	g.discourse(depth)
	return g.out
}

// randomize case and separators
func decorate(r *rand.Rand, ts []tok, caps, seps bool) []tok {
	out := make([]tok, len(ts))
	for i, t := range ts {
		t.syls = append([]syl{}, t.syls...)
		if caps && r.Intn(4) == 0 {
			for j := range t.syls {
				if r.Intn(2) == 0 {
					t.syls[j].caps = 1 // initial capital
				} else {
					t.syls[j].caps = r.Intn(64)
				}
				if r.Intn(2) == 0 {
					break
				}
			}
			for j := range t.syls {
				t.syls[j].caps &= 1<<uint(len(t.syls[j].on+t.syls[j].des)) - 1
			}
		}
		if seps {
			switch k := r.Intn(6); {
			case k == 0 && !strings.HasSuffix(t.raw, "?"):
				t.sep = ""
			case k < 3:
				t.sep = spaceWords[r.Intn(len(spaceWords))]
				if r.Intn(20) == 0 {
					t.sep = string(punctRunes[r.Intn(len(punctRunes))])
				}
			}
		}
		out[i] = t
	}
	return out
}

// anyTokens is a vocabulary covering all word classes in all tones.
var anyTokens = strings.Fields(`bi pa da ka so ba ga go fi cu ta bei hu ju ku ki kio keo je na ra ru ri roi ro re ke tu sia sa hi ja to teo moq
	lu/ luV lu? lu^ lu\ lu~ li? li^ liV lo/ ma? tio? mi/ miV mi? mi^ mi\ mi~ shu/ shu? mo/ moV mo? mo^ mo\ mo~ po/ poV po? po^ po\ po~ jei/ jei? jeiV
	gi/ giV gi? gi^ gi\ gi~ mai/ maiV mai? mai^ mai\ mai~ do/ doV do? do^ hoa/ hoa? hoaV nuo?kuai- ji/bo- shi? shi/`)

func mutateTokens(r *rand.Rand, ts []tok) []tok {
	out := append([]tok{}, ts...)
	n := 1 + r.Intn(3)
	for i := 0; i < n && len(out) > 0; i++ {
		k := r.Intn(len(out))
		switch r.Intn(6) {
		case 0:
			out = append(out[:k:k], out[k+1:]...)
		case 1:
			out = append(out[:k:k], append([]tok{out[k]}, out[k:]...)...)
		case 2:
			j := r.Intn(len(out))
			out[k], out[j] = out[j], out[k]
		case 3:
			out[k] = word(anyTokens[r.Intn(len(anyTokens))])
		case 4:
			out = append(out[:k:k], append([]tok{word(anyTokens[r.Intn(len(anyTokens))])}, out[k:]...)...)
		case 5:
			if out[k].raw != "" {
				break
			}
			ss := append([]syl{}, out[k].syls...)
			ss[0].tone = append([]byte{0}, tones...)[r.Intn(8)]
			out[k].syls = ss
		}
	}
	return out
}

var oddRunes = []rune("xzwyvqʻ'0895$+=<>|\u00a0\u2003äüïøñЖ中😀\u0000\u007f\u0301\u0304\u0308\ufffd\u200bıIİ-/V?^\\~1234567.,:!aeiouAEIOUmnq")

func mutateBytes(r *rand.Rand, s string) string {
	b := []byte(s)
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		k := 0
		if len(b) > 0 {
			k = r.Intn(len(b) + 1)
		}
		switch r.Intn(6) {
		case 0:
			if k < len(b) {
				b = append(b[:k:k], b[k+1:]...)
			}
		case 1:
			b = append(b[:k:k], append([]byte(string(oddRunes[r.Intn(len(oddRunes))])), b[k:]...)...)
		case 2:
			b = append(b[:k:k], append([]byte{byte(r.Intn(256))}, b[k:]...)...)
		case 3:
			if k < len(b) {
				b[k] = byte(r.Intn(256))
			}
		case 4:
			b = b[:k]
		case 5:
			if k < len(b) {
				j := k + r.Intn(len(b)-k)
				seg := append([]byte{}, b[k:j]...)
				b = append(b[:j:j], append(seg, b[j:]...)...)
			}
		}
	}
	return string(b)
}

func pickOpts(r *rand.Rand) genOpts {
	o := defaultOpts
	// Boost a few random features.
	for i := 0; i < 2; i++ {
		switch r.Intn(14) {
		case 0:
			o.connect = .4
		case 1:
			o.quant = .8
		case 2:
			o.rel = .5
		case 3:
			o.vars = .7
		case 4:
			o.hoa = .4
		case 5:
			o.adverbs = .5
		case 6:
			o.linked = .5
		case 7:
			o.serial = .5
		case 8:
			o.special = .5
		case 9:
			o.prenex = .6
		case 10:
			o.termset = .2
		case 11:
			o.frag = .4
		case 12:
			o.randWord = .8
		case 13:
			o.sentence = .6
		}
	}
	return o
}

// logicOpts favours what matters for the interpretation.
func logicOpts(r *rand.Rand) genOpts {
	o := pickOpts(r)
	o.badConn = 0
	if r.Intn(12) == 0 {
		o.badConn = .1
	}
	o.vars, o.hoa, o.frag = .04, .02, .04
	o.randWord = .05
	o.relHoa = .25
	switch r.Intn(3) {
	case 0:
		o.bindRef = .3
	case 1:
		o.bindRef = .6
	}
	if r.Intn(4) == 0 {
		o.roi = .35
	}
	if r.Intn(5) == 0 {
		o.define = .1 + .4*r.Float64()
	}
	return o
}

func genLogicTokens(r *rand.Rand) []tok {
	return genTokens(r, logicOpts(r), false, 4+r.Intn(20), 1+r.Intn(4))
}

// genLogic makes a text for the interpreter: grammatical more often than not, in plain spelling mostly.
func genLogic(r *rand.Rand) string {
	ts := genTokens(r, logicOpts(r), r.Intn(6) == 0, 4+r.Intn(20), 1+r.Intn(4))
	if r.Intn(4) == 0 {
		return randText(r, decorate(r, ts, true, true))
	}
	return plainText(ts)
}
