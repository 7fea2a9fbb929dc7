package main

import (
	"fmt"
	"io"
	"strconv"
	"strings"
	"unicode"

	"github.com/msnoigrs/gosudachi/data"
	"golang.org/x/text/unicode/norm"
)

// ---- character categories -----------------------------------------------

var catNames = []string{"DEFAULT", "SPACE", "KANJI", "SYMBOL", "NUMERIC", "ALPHA", "HIRAGANA", "KATAKANA", "KANJINUMERIC", "GREEK", "CYRILLIC", "USER1", "USER2", "USER3", "USER4", "NOOOVBOW"}

const (
	cDEFAULT = 1 << iota
	cSPACE
	cKANJI
	cSYMBOL
	cNUMERIC
	cALPHA
	cHIRAGANA
	cKATAKANA
	cKANJINUMERIC
	cGREEK
	cCYRILLIC
	cUSER1
	cUSER2
	cUSER3
	cUSER4
	cNOOOVBOW
)

func catBit(name string) uint32 {
	for i, n := range catNames {
		if n == name {
			return 1 << uint(i)
		}
	}
	return 0
}

type catRange struct {
	lo, hi rune
	cats   uint32
}

type catInfo struct {
	invoke, group bool
	length        int
}

// CatModel is what a character definition means.
type CatModel struct {
	ranges []catRange
	info   map[uint32]catInfo
}

func (m *CatModel) Types(c rune) uint32 {
	var t uint32
	for _, r := range m.ranges {
		if c >= r.lo && c <= r.hi {
			t |= r.cats
		}
	}
	if t == 0 {
		t = cDEFAULT
	}
	return t
}

func parseCatModel(text string) *CatModel {
	m := &CatModel{info: map[uint32]catInfo{}}
	for _, l := range strings.Split(strings.ReplaceAll(text, "\r\n", "\n"), "\n") {
		if strings.HasPrefix(l, "#") || strings.TrimSpace(l) == "" {
			continue
		}
		f := strings.Fields(l)
		if !strings.HasPrefix(f[0], "0x") {
			n, _ := strconv.Atoi(f[3])
			m.info[catBit(f[0])] = catInfo{f[1] != "0", f[2] != "0", n}
			continue
		}
		b := strings.Split(f[0], "..")
		lo, _ := strconv.ParseInt(b[0][2:], 16, 64)
		hi := lo
		if len(b) > 1 {
			hi, _ = strconv.ParseInt(b[1][2:], 16, 64)
		}
		var cats uint32
		for _, c := range f[1:] {
			if strings.HasPrefix(c, "#") {
				break
			}
			cats |= catBit(c)
		}
		m.ranges = append(m.ranges, catRange{rune(lo), rune(hi), cats})
	}
	return m
}

var defaultCatCache *CatModel

func asset(name string) string {
	f, err := data.Assets.Open(name)
	if err != nil {
		panic(setupFailure{"asset " + name + ": " + err.Error()})
	}
	defer f.Close()
	b, err := io.ReadAll(f)
	if err != nil {
		panic(setupFailure{"asset " + name + ": " + err.Error()})
	}
	return string(b)
}

func defaultCatModel() *CatModel {
	if defaultCatCache == nil {
		defaultCatCache = parseCatModel(asset("char.def"))
	}
	return defaultCatCache
}

// genCatModel makes a random character definition.
func genCatModel(r *Rng) (*CatModel, string) {
	var b strings.Builder
	flag := func() string {
		if r.P(50) {
			return "1"
		}
		return "0"
	}
	b.WriteString("# generated\n\n")
	long := r.P(2) // with long lines
	if long {
		b.WriteString("# " + strings.Repeat("x", r.longLen()) + " 0x30 KANJI\n")
	}
	for i, n := range catNames {
		if i == 0 || r.P(75) {
			if long && r.P(5) {
				n += strings.Repeat(" ", r.longLen())
			}
			fmt.Fprintf(&b, "%s%s%s %s %d\n", n, r.Pick([]string{" ", "\t", "  "}), flag(), flag(), r.Pick0(0, 0, 0, 1, 1, 2, 2, 2, 3, 3, 6, 6, r.Pick0(4, 5, 7, 8, 9, 16, 17, 40, 300)))
		}
	}
	b.WriteString("\n")
	ranges := [][2]rune{{0x4E00, 0x9FFF}, {0x3041, 0x309F}, {0x30A1, 0x30FF}, {'a', 'z'}, {'A', 'Z'}, {'0', '9'}, {0x391, 0x3C9}, {0x410, 0x451}, {0x20000, 0x2A6DF}, {' ', '/'}, {0x3000, 0x3000}, {0x3001, 0x3002}, {0x1F300, 0x1F6FF}, {0xFF00, 0xFFEF}}
	names := []string{"KANJI", "HIRAGANA", "KATAKANA", "ALPHA", "ALPHA", "NUMERIC", "GREEK", "CYRILLIC", "KANJI", "SYMBOL", "SPACE", "SYMBOL", "USER1", "USER2"}
	hex := func(c rune) string {
		switch r.N(3) {
		case 0:
			return fmt.Sprintf("0x%04X", c)
		case 1:
			return fmt.Sprintf("0x%x", c)
		}
		return fmt.Sprintf("0x%06x", c)
	}
	line := func(lo, hi rune, cats ...string) {
		if lo == hi && r.P(70) {
			b.WriteString(hex(lo))
		} else {
			b.WriteString(hex(lo) + ".." + hex(hi))
		}
		b.WriteString(r.Pick([]string{" ", "\t"}) + strings.Join(cats, " "))
		if r.P(20) {
			b.WriteString(r.Pick([]string{" # comment", " #x"}))
			if long && r.P(20) {
				b.WriteString(strings.Repeat("  KANJI", r.longLen()/7))
			}
		}
		b.WriteString(r.Pick([]string{"\n", "\n", "\r\n"}))
	}
	rnd := func() string { return catNames[r.N(len(catNames)-1)] }
	for i, rg := range ranges {
		if r.P(85) {
			n := names[i]
			if r.P(10) {
				n = rnd()
			}
			line(rg[0], rg[1], n)
		}
	}
	for _, c := range []rune("一二三四五六七八九〇十百千万億兆") {
		if r.P(90) {
			line(c, c, "KANJINUMERIC")
		}
	}
	for _, c := range []rune("ァィゥャッー") {
		if r.P(60) {
			line(c, c, "NOOOVBOW")
		}
	}
	for i := r.N(5); i > 0; i-- { // extra, overlapping
		rg := ranges[r.N(len(ranges))]
		lo := rg[0] + rune(r.N(int(rg[1]-rg[0])+1))
		hi := lo + rune(r.N(int(rg[1]-lo)+1))
		if r.P(50) {
			line(lo, hi, rnd())
		} else {
			line(lo, hi, rnd(), rnd())
		}
	}
	many := r.N(4)
	if r.P(2) {
		many = r.Pick0(64, 100, 130, 257, 520)
	}
	for i := many; i > 0; i-- { // single characters of the alphabets
		a := abWords[r.N(len(abWords))]
		c := r.PickRune(a)
		line(c, c, rnd(), r.Pick([]string{"NOOOVBOW", "KATAKANA", "DEFAULT", "ALPHA"}))
	}
	return parseCatModel(b.String()), b.String()
}

// longLen is the length of something long: around the sizes of read buffers.
func (r *Rng) longLen() int {
	return r.Pick0(4096, 4096, 8192, 12288, 16384, 20480, 32768, 65536) + r.Range(-60, 60)
}

// Pick0 picks one of the numbers.
func (r *Rng) Pick0(v ...int) int { return v[r.N(len(v))] }

// genUnk makes an OOV definition for the defined categories.
func genUnk(r *Rng, m *CatModel, nl, nr int, pos [][6]string, all bool) ([]UnkEntry, string) {
	var us []UnkEntry
	var b strings.Builder
	long := r.P(2)
	for i, n := range catNames {
		ci, ok := m.info[1<<uint(i)]
		if !ok {
			continue
		}
		k := r.Pick0(1, 1, 1, 2, 3, 0)
		if i == 0 && r.P(90) || all && k == 0 {
			k = 1
		}
		if k > 0 && ci.length < 7 && r.N(150) == 0 {
			k = r.Pick0(4, 8, 9, 16, 17, 33, 65)
		}
		for ; k > 0; k-- {
			us = append(us, UnkEntry{n, r.N(nr), r.N(nl), r.Range(0, 4000), pos[r.N(len(pos))]})
		}
	}
	for _, i := range r.Perm(len(us)) {
		u := us[i]
		fmt.Fprintf(&b, "%s,%d,%d,%d,%s", u.Cat, u.L, u.R, u.C, strings.Join(u.Pos[:], ","))
		if long && r.P(20) {
			b.WriteString("," + strings.Repeat("DEFAULT,", r.longLen()/8)) // further columns
		}
		b.WriteString("\n")
	}
	// the order of the lines of one category is the order in the file
	var out []UnkEntry
	for _, l := range strings.Split(strings.TrimRight(b.String(), "\n"), "\n") {
		if l == "" {
			continue
		}
		f := strings.Split(l, ",")
		u := UnkEntry{Cat: f[0]}
		u.L, _ = strconv.Atoi(f[1])
		u.R, _ = strconv.Atoi(f[2])
		u.C, _ = strconv.Atoi(f[3])
		copy(u.Pos[:], f[4:10])
		out = append(out, u)
	}
	return out, b.String()
}

// ---- the normalized text's structure ---------------------------------------

// TextModel is the structure of a normalized text under a character definition.
type TextModel struct {
	Runes []rune
	Off   []int // byte offset of each rune, and the length
	Types []uint32
	Cont  []int // end (rune index) of the segment of a common category
	Bow   []bool
	at    map[int]int // byte offset -> rune index
}

func newTextModel(runes []rune, m *CatModel) *TextModel {
	t := &TextModel{Runes: runes, at: map[int]int{}}
	off := 0
	for i, c := range runes {
		t.Off = append(t.Off, off)
		t.at[off] = i
		off += len(string(c))
		t.Types = append(t.Types, m.Types(c))
	}
	t.Off = append(t.Off, off)
	t.at[off] = len(runes)
	t.Cont = make([]int, len(runes))
	for i := 0; i < len(runes); {
		j := i + 1
		common := t.Types[i]
		for j < len(runes) && common&t.Types[j] != 0 {
			common &= t.Types[j]
			j++
		}
		for k := i; k < j; k++ {
			t.Cont[k] = j
		}
		i = j
	}
	t.Bow = make([]bool, len(runes))
	for i := range runes {
		t.Bow[i] = true
		if i > 0 && t.Types[i]&(cALPHA|cGREEK|cCYRILLIC) != 0 && t.Types[i]&t.Types[i-1] != 0 {
			t.Bow[i] = false
		}
	}
	return t
}

// RangeTypes is the common category of the runes [b,e), 0 if they extend over
// the end of the segment of b.
func (t *TextModel) RangeTypes(b, e int) uint32 {
	if e > t.Cont[b] {
		return 0
	}
	c := t.Types[b]
	for i := b; i < e; i++ {
		c &= t.Types[i]
	}
	return c
}

type oovCand struct {
	Begin, End int // byte offsets
	L, R, C    int
	Pos        [6]string
}

// mecabOOV is what the definitions prescribe at rune i.
func (t *TextModel) mecabOOV(i int, has bool, m *CatModel, unk []UnkEntry) []oovCand {
	var out []oovCand
	for b, name := range catNames {
		bit := uint32(1) << uint(b)
		if t.Types[i]&bit == 0 {
			continue
		}
		ci, ok := m.info[bit]
		if !ok {
			continue
		}
		var us []UnkEntry
		for _, u := range unk {
			if u.Cat == name {
				us = append(us, u)
			}
		}
		if len(us) == 0 || has && !ci.invoke {
			continue
		}
		max := t.Cont[i] - i // longest, in runes
		add := func(n int) {
			for _, u := range us {
				out = append(out, oovCand{t.Off[i], t.Off[i+n], u.L, u.R, u.C, u.Pos})
			}
		}
		if ci.group {
			add(max)
		}
		for n := 1; n <= ci.length; n++ {
			if n > max || ci.group && n == max {
				break
			}
			add(n)
		}
	}
	return out
}

// ---- input text rewriting -----------------------------------------------------

// RText is a text with the original index of each rune (and of its end).
type RText struct {
	Runes []rune
	Orig  []int // len(Runes)+1
}

func newRText(s string) *RText {
	t := &RText{Runes: []rune(s)}
	for i := 0; i <= len(t.Runes); i++ {
		t.Orig = append(t.Orig, i)
	}
	return t
}

// apply replaces consecutive stretches: out[i] for the runes [cuts[i],cuts[i+1]).
func (t *RText) apply(cuts []int, out [][]rune) *RText {
	n := &RText{}
	for i, o := range out {
		for k, c := range o {
			_ = k
			n.Runes = append(n.Runes, c)
			n.Orig = append(n.Orig, t.Orig[cuts[i]])
		}
	}
	n.Orig = append(n.Orig, t.Orig[len(t.Runes)])
	return n
}

// RewriteDef is the meaning of a replacement list.
type RewriteDef struct {
	Ignore map[rune]bool
	Repl   map[string]string
}

func parseRewriteDef(text string) *RewriteDef {
	d := &RewriteDef{map[rune]bool{}, map[string]string{}}
	for _, l := range strings.Split(strings.ReplaceAll(text, "\r\n", "\n"), "\n") {
		if strings.HasPrefix(l, "#") || strings.Trim(l, " \t") == "" {
			continue
		}
		f := strings.Fields(l)
		if len(f) == 1 {
			d.Ignore[[]rune(f[0])[0]] = true
		} else {
			d.Repl[f[0]] = f[1]
		}
	}
	return d
}

var defaultRewriteCache *RewriteDef

func defaultRewrite() *RewriteDef {
	if defaultRewriteCache == nil {
		defaultRewriteCache = parseRewriteDef(asset("rewrite.def"))
	}
	return defaultRewriteCache
}

func (d *RewriteDef) Apply(t *RText) *RText {
	maxKey := map[rune]int{}
	for k := range d.Repl {
		kr := []rune(k)
		if len(kr) > maxKey[kr[0]] {
			maxKey[kr[0]] = len(kr)
		}
	}
	var cuts []int
	var out [][]rune
loop:
	for i := 0; i < len(t.Runes); {
		for l := maxKey[t.Runes[i]]; l > 0; l-- {
			if i+l > len(t.Runes) {
				continue
			}
			if v, ok := d.Repl[string(t.Runes[i:i+l])]; ok {
				cuts = append(cuts, i)
				out = append(out, []rune(v))
				i += l
				continue loop
			}
		}
		c := unicode.ToLower(t.Runes[i])
		cuts = append(cuts, i)
		if d.Ignore[c] {
			out = append(out, []rune{c})
		} else {
			out = append(out, []rune(norm.NFKC.String(string(c))))
		}
		i++
	}
	return t.apply(cuts, out)
}

func applyProlonged(t *RText, marks map[rune]bool, symbol []rune) *RText {
	var cuts []int
	var out [][]rune
	for i := 0; i < len(t.Runes); {
		j := i
		for j < len(t.Runes) && marks[t.Runes[j]] {
			j++
		}
		cuts = append(cuts, i)
		if j-i >= 2 {
			out = append(out, symbol)
			i = j
		} else {
			out = append(out, []rune{t.Runes[i]})
			i++
		}
	}
	return t.apply(cuts, out)
}

func genRewriteDef(r *Rng, al [][]rune) string {
	var b strings.Builder
	b.WriteString("# generated\n")
	keys := map[string]bool{}
	pool := append([][]rune{abRaw}, al...)
	clean := func(s string) string {
		s = strings.Join(strings.Fields(s), "")
		s = strings.Map(func(c rune) rune {
			if c == 0 || unicode.IsSpace(c) || c == unicode.ReplacementChar {
				return -1
			}
			return c
		}, s)
		return s
	}
	long := r.P(3) // with long lines
	gap := func() string {
		if long && r.P(20) {
			return strings.Repeat(r.Pick([]string{" ", "\t"}), r.longLen())
		}
		return ""
	}
	if long {
		b.WriteString("#" + strings.Repeat(" yy", r.longLen()/3) + "\n")
	}
	for i := r.N(6); i > 0; i-- {
		c := clean(string(r.PickRune(pool[r.N(len(pool))])))
		if c == "" || c == "#" {
			continue
		}
		b.WriteString(c + "\n")
	}
	for i := r.N(9); i > 0; i-- {
		k := clean(genWord(r, pool, 3))
		v := clean(genWord(r, pool, 4))
		if r.P(2) || long && r.P(30) { // a long key
			n := r.Pick0(8, 15, 16, 17, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 300)
			if long && r.P(20) {
				n = r.longLen() / 40
			}
			for i := len([]rune(k)); i < n; i++ {
				k += clean(string(r.PickRune(pool[r.N(len(pool))])))
			}
		}
		if r.P(1) || long && r.P(10) { // a long replacement
			for i := r.Pick0(16, 64, 128, 256, 257, 300); i > 0; i-- {
				v += clean(string(r.PickRune(pool[r.N(len(pool))])))
			}
		}
		if len(keys) > 0 && r.P(40) { // overlapping with another key
			for o := range keys {
				if first := []rune(o); len(k) > 0 {
					_ = first
				}
			}
		}
		if k == "" || v == "" || keys[k] || strings.HasPrefix(k, "#") {
			continue
		}
		keys[k] = true
		b.WriteString(k + r.Pick([]string{"\t", " ", "  \t"}) + gap() + v + gap() + r.Pick([]string{"\n", "\r\n", "\n\n"}))
		if rs := []rune(k); len(rs) > 1 && r.P(50) { // a prefix of the key too
			p := string(rs[:1+r.N(len(rs)-1)])
			if !keys[p] && !strings.HasPrefix(p, "#") {
				keys[p] = true
				b.WriteString(p + " " + clean(genWord(r, pool, 1)+"z") + "\n")
			}
		}
	}
	return b.String()
}
