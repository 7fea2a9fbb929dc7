package main

// C15: joined numerals. C16: joined katakana words.

import (
	"fmt"
	"math/big"
	"strings"

	gs "github.com/msnoigrs/gosudachi"
)

// ---- a reference for numerals ------------------------------------------------

// refNum is a number in decimal digits: digits with frac of them after the
// point, and zeros more zeros after them.
type refNum struct {
	digits string
	frac   int // digits after the point; -1 without a point
	zeros  int
}

func (n refNum) empty() bool { return n.digits == "" }

func (n refNum) norm() refNum {
	if n.frac < 0 {
		return n
	}
	if n.frac > n.zeros {
		n.frac -= n.zeros
		n.zeros = 0
		return n
	}
	n.zeros -= n.frac
	n.frac = -1
	return n
}

// intLen is the number of digits of the integer part.
func (n refNum) intLen() int {
	n = n.norm()
	if n.frac >= 0 {
		return len(n.digits) - n.frac
	}
	return len(n.digits) + n.zeros
}

func (n refNum) shift(k int) refNum {
	if n.empty() {
		n = refNum{"1", -1, 0}
	}
	n.zeros += k
	return n
}

// value is the exact value.
func (n refNum) value() *big.Rat {
	v, _ := new(big.Int).SetString("0"+n.digits, 10)
	r := new(big.Rat).SetInt(v)
	ten := func(k int) *big.Rat {
		return new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil))
	}
	r.Mul(r, ten(n.zeros))
	if n.frac > 0 {
		r.Quo(r, ten(n.frac))
	}
	return r
}

// plus adds a smaller number, if it fits into the trailing zeros of n.
func (n refNum) plus(t refNum) (refNum, bool) {
	if t.empty() {
		return n, true
	}
	if n.empty() {
		return t, true
	}
	n, t = n.norm(), t.norm()
	if n.zeros < t.intLen() {
		return n, false
	}
	sum := new(big.Rat).Add(n.value(), t.value())
	// write the sum with as many digits as n has
	fr := 0
	if t.frac > 0 {
		fr = t.frac
	}
	sc := new(big.Rat).Mul(sum, new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(fr)), nil)))
	if !sc.IsInt() {
		panic("refNum: not an integer")
	}
	d := sc.Num().String()
	for len(d) < n.intLen()+fr {
		d = "0" + d
	}
	out := refNum{d, t.frac, 0}
	if t.zeros > 0 { // trailing zeros are places for more
		out = refNum{d[:len(d)-t.zeros], -1, t.zeros}
	}
	return out, true
}

// text writes the number without needless fraction digits.
func (n refNum) text() string {
	if n.empty() {
		return "0"
	}
	n = n.norm()
	if n.frac < 0 {
		return n.digits + strings.Repeat("0", n.zeros)
	}
	k := len(n.digits) - n.frac
	f := strings.TrimRight(n.digits[k:], "0")
	if f == "" {
		return n.digits[:k]
	}
	return n.digits[:k] + "." + f
}

type refErr int

const (
	reNone refErr = iota
	reComma
	rePoint
	reOther
)

var refDigits = map[rune]byte{}
var refUnits = map[rune]int{'十': 1, '百': 2, '千': 3, '万': 4, '億': 8, '兆': 12}

func init() {
	for i, c := range []rune("0123456789") {
		refDigits[c] = byte('0' + i)
	}
	for i, c := range []rune("〇一二三四五六七八九") {
		refDigits[c] = byte('0' + i)
	}
}

// refParse reads a numeral: groups of digits (commas between groups of three
// after a first one of up to three, then a point), small units, large units.
// at is the index of the character at which it stops.
func refParse(s []rune) (v refNum, e refErr, at int) {
	var total, sub, cur refNum
	cur.frac, total.frac, sub.frac = -1, -1, -1
	none := refNum{frac: -1}
	group := 0 // digits since the last comma, or of this group
	commas := false
	hangPoint := false
	for i, c := range s {
		switch {
		case refDigits[c] != 0:
			cur.digits += string(refDigits[c])
			if cur.frac >= 0 {
				cur.frac++
			}
			group++
			hangPoint = false
		case c == ',':
			nonzero := strings.Trim(cur.digits, "0") != ""
			if cur.frac >= 0 || cur.empty() || commas && group != 3 || !commas && (group > 3 || !nonzero) {
				return v, reComma, i
			}
			commas = true
			group = 0
		case c == '.':
			if cur.empty() {
				return v, rePoint, i
			}
			if commas && group != 3 {
				return v, reComma, i
			}
			if cur.frac >= 0 {
				return v, rePoint, i
			}
			cur.frac = 0
			commas = false
			hangPoint = true
		case refUnits[c] != 0:
			if hangPoint {
				return v, rePoint, i
			}
			if commas && group != 3 {
				return v, reComma, i
			}
			k := refUnits[c]
			var ok bool
			if k < 4 {
				if sub, ok = sub.plus(cur.shift(k)); !ok {
					return v, reOther, i
				}
			} else {
				if sub, ok = sub.plus(cur); !ok || sub.empty() {
					return v, reOther, i
				}
				if total, ok = total.plus(sub.shift(k)); !ok {
					return v, reOther, i
				}
				sub = none
			}
			cur, group, commas = none, 0, false
		default:
			return v, reOther, i
		}
	}
	var ok bool
	if sub, ok = sub.plus(cur); !ok {
		return v, reOther, len(s)
	}
	if v, ok = total.plus(sub); !ok {
		return v, reOther, len(s)
	}
	if hangPoint {
		return v, rePoint, len(s)
	}
	if commas && group != 3 {
		return v, reComma, len(s)
	}
	return v, reNone, len(s)
}

type numWord struct {
	numCat bool // its characters are numeric
	norm   string
	pos    bool // is of the numeral part of speech
}

type numJoin struct {
	b, e int
	text string
}

// refJoins gives the numerals in a sequence of words.
func refJoins(ws []numWord) []numJoin {
	var js []numJoin
	comma, point := true, true // can be part of a numeral
	digit := func(w numWord) bool {
		return w.numCat || point && w.norm == "." || comma && w.norm == ","
	}
	join := func(b, e int) {
		var s []rune
		for _, w := range ws[b:e] {
			s = append(s, []rune(w.norm)...)
		}
		v, _, _ := refParse(s)
		js = append(js, numJoin{b, e, v.text()})
	}
	for i := 0; i < len(ws); {
		if !digit(ws[i]) {
			if ws[i].norm != "," {
				comma = true
			}
			if ws[i].norm != "." {
				point = true
			}
			i++
			continue
		}
		// the run, and where it stops being a numeral
		j := i
		var s []rune
		owner := []int{}
		for j < len(ws) && digit(ws[j]) {
			for _, c := range ws[j].norm {
				s = append(s, c)
				owner = append(owner, j)
			}
			j++
		}
		_, e, at := refParse(s)
		if e != reNone && at < len(s) {
			switch {
			case e == reComma && comma:
				comma = false
			case e == rePoint && point:
				point = false
			default:
				i = owner[at] + 1
			}
			continue
		}
		switch {
		case e == reNone:
			join(i, j)
		case e == reComma && ws[j-1].norm == ",", e == rePoint && ws[j-1].norm == ".":
			join(i, j-1)
		}
		i = j
	}
	return js
}

func numNode(n NodeSnap) string {
	return fmt.Sprintf("[%d,%d) %d %q %q %q %q dict=%d oov=%v", n.B, n.E, n.WI.PosId, n.WI.Surface, n.WI.NormalizedForm, n.WI.DictionaryForm, n.WI.ReadingForm, n.Dict, n.Oov)
}

// checkNumeric compares the path before and after the numeral plugin.
func checkNumeric(c *Ctx, tm *TextModel, before, after []NodeSnap, numPos int, normalize bool) string {
	// the groups
	type group struct{ b, e, a int }
	var gs_ []group
	i := 0
	for a, n := range after {
		b := i
		for i < len(before) && before[i].E < n.E {
			i++
		}
		i++
		if i > len(before) || before[b].B != n.B || before[i-1].E != n.E {
			return fmt.Sprintf("word %d after joining, [%d,%d), is not made of whole words", a, n.B, n.E)
		}
		gs_ = append(gs_, group{b, i, a})
	}
	if i != len(before) {
		return "words are missing after joining"
	}
	ws := make([]numWord, len(before))
	exact := true
	for k, n := range before {
		t := tm.RangeTypes(tm.at[n.B], tm.at[n.E])
		ws[k] = numWord{t&(cNUMERIC|cKANJINUMERIC) != 0, n.WI.NormalizedForm, int(n.WI.PosId) == numPos}
		if ws[k].numCat && !ws[k].pos {
			exact = false
		}
	}
	for _, g := range gs_ {
		x, y := before[g.b], after[g.a]
		if g.e-g.b == 1 && numNode(x) == numNode(y) && x.WI.HeadwordLength == y.WI.HeadwordLength {
			continue
		}
		if g.e-g.b == 1 && !normalize {
			return fmt.Sprintf("a single word changed from %s to %s", numNode(x), numNode(y))
		}
		if !ws[g.b].pos {
			return fmt.Sprintf("joined a sequence that begins with %s, which is not a numeral", numNode(x))
		}
		var s []rune
		var surf, norm, df, read string
		hl := 0
		for k := g.b; k < g.e; k++ {
			if !ws[k].numCat && ws[k].norm != "," && ws[k].norm != "." {
				return fmt.Sprintf("%s, which is not numeric, was joined into %s", numNode(before[k]), numNode(y))
			}
			s = append(s, []rune(ws[k].norm)...)
			surf += before[k].WI.Surface
			norm += before[k].WI.NormalizedForm
			df += before[k].WI.DictionaryForm
			read += before[k].WI.ReadingForm
			hl += int(before[k].WI.HeadwordLength)
		}
		v, e, _ := refParse(s)
		if e != reNone {
			return fmt.Sprintf("%q is not a well-formed numeral, but was joined into %s", string(s), numNode(y))
		}
		if normalize {
			norm = v.text()
			// the value, for itself
			if r, ok := new(big.Rat).SetString(y.WI.NormalizedForm); !ok || r.Cmp(v.value()) != 0 {
				return fmt.Sprintf("%q was given the value %q, it is %s", string(s), y.WI.NormalizedForm, norm)
			}
		}
		w := y.WI
		if w.Surface != surf || w.NormalizedForm != norm || w.DictionaryForm != df || w.ReadingForm != read || w.HeadwordLength != int16(hl) || w.PosId != x.WI.PosId || y.Oov || y.Dict != -1 {
			return fmt.Sprintf("joined %v into %s, expected surface %q normalized %q dictionary %q reading %q length %d pos %d", before[g.b:g.e], numNode(y), surf, norm, df, read, hl, x.WI.PosId)
		}
		c.Count("numerals_joined", 1)
		if g.e-g.b > 3 {
			c.Count("numerals_of_more_than_3_words", 1)
		}
		if strings.Contains(norm, ".") {
			c.Count("numerals_with_fractions", 1)
		}
		if len(norm) > 18 {
			c.Count("numerals_beyond_64_bits", 1)
		}
	}
	if !exact {
		c.Count("sequences_with_numeric_words_of_other_parts_of_speech", 1)
		return ""
	}
	// completeness
	want := map[int]numJoin{}
	for _, j := range refJoins(ws) {
		if !ws[j.b].pos {
			return fmt.Sprintf("reference joined at %d", j.b)
		}
		if j.e-j.b > 1 || normalize && j.text != ws[j.b].norm {
			want[j.b] = j
		}
	}
	n := 0
	for _, g := range gs_ {
		j, ok := want[g.b]
		if ok {
			n++
			if j.e != g.e {
				return fmt.Sprintf("the numeral of words %d to %d (%s) is not one word: %v", j.b, j.e-1, j.text, after)
			}
			if normalize && after[g.a].WI.NormalizedForm != j.text {
				return fmt.Sprintf("the numeral of words %d to %d is %q, expected %q", j.b, j.e-1, after[g.a].WI.NormalizedForm, j.text)
			}
			continue
		}
		if g.e-g.b > 1 {
			return fmt.Sprintf("words %d to %d are not a numeral of their own, but were joined into %s", g.b, g.e-1, numNode(after[g.a]))
		}
	}
	if n != len(want) {
		return fmt.Sprintf("%d of %d numerals are joined (%v)", n, len(want), want)
	}
	for _, w := range ws {
		if w.norm == "," || w.norm == "." {
			c.Count("separators", 1)
		}
	}
	return ""
}

// numeralWorld adds number words to a world.
func numeralWorld(r *Rng, w *World, clean bool) {
	nl, nr := w.M.L, w.M.R
	add := func(head, norm string, pos [6]string, cost int) {
		w.Sys.Entries = append(w.Sys.Entries, &Entry{Head: head, L: r.N(nr), R: r.N(nl), C: cost, Surf: head, Pos: pos, Read: genReading(r), Norm: norm, DF: -1, Unit: "A"})
	}
	pos := func() [6]string {
		if clean || r.P(93) {
			return posNumeric
		}
		return posOOV
	}
	for _, c := range []rune("0123456789〇一二三四五六七八九十百千万億兆") {
		if r.P(90) {
			n := string(c)
			if r.P(8) && refDigits[c] != 0 {
				n = string(refDigits[c])
			} else if r.P(3) {
				n = r.Pick([]string{"12", "3,000", "1.5", "1,2,3", "1.2.3", "x", "十", "0"})
			}
			add(string(c), n, pos(), r.Range(-500, 500))
		}
	}
	for _, c := range []rune(",.") {
		p := posPool[5]
		if r.P(20) {
			p = posNumeric
		}
		add(string(c), string(c), p, r.Range(-500, 500))
	}
	for _, s := range []string{"20", "十五", "百万", "三千", "1000", "000", "二〇", "00"} {
		if r.P(30) {
			n := s
			if r.P(20) {
				n = r.Pick([]string{"1000", "15", "2,000", "3.0", "〇〇"})
			}
			add(s, n, pos(), r.Range(-1500, 500))
		}
	}
	for _, s := range []string{"円", "年", "回", "の"} {
		add(s, s, posOOV, r.Range(-500, 500))
	}
}

// genNumText makes a text of numerals, right, nearly right and wrong ones.
func genNumText(r *Rng) string {
	digits := func(n int) string {
		var b strings.Builder
		k := r.P(25)
		for i := 0; i < n; i++ {
			switch {
			case k:
				b.WriteRune(r.PickRune([]rune("〇一二三四五六七八九")))
			case r.P(15):
				b.WriteString("0")
			default:
				b.WriteRune(r.PickRune(abDigit))
			}
		}
		return b.String()
	}
	group := func(max int) string {
		var s string
		if r.P(30) {
			s = digits(r.Range(1, 3))
			for i := r.Range(1, 4); i > 0; i-- {
				s += "," + digits(3)
			}
		} else {
			s = digits(r.Range(1, max))
		}
		if r.P(20) {
			s += "." + digits(r.Range(1, 4))
		}
		return s
	}
	small := func() string {
		var b strings.Builder
		for _, u := range []string{"千", "百", "十"} {
			if r.P(50) {
				if r.P(60) {
					b.WriteString(digits(1))
				} else if r.P(10) {
					b.WriteString(group(2))
				}
				b.WriteString(u)
			}
		}
		if r.P(60) {
			b.WriteString(digits(1))
		}
		return b.String()
	}
	part := func() string {
		if r.P(50) {
			return small()
		}
		return group(4)
	}
	var num string
	switch r.N(6) {
	case 0:
		num = group(8)
	case 1, 2, 3:
		for _, u := range []string{"兆", "億", "万", ""} {
			if r.P(50) {
				num += part() + u
			}
		}
	case 4:
		num = small()
	case 5:
		if r.P(10) {
			num = digits(r.Range(20, 60))
		}
		if r.P(3) { // very many digits
			num = digits(r.Pick0(1, 2, 3))
			for i := r.Pick0(0, 1, 20, 21, 22, 43, 85, 86, 100); i > 0; i-- {
				num += "," + digits(3)
			}
			if r.P(50) {
				num = digits(r.Pick0(63, 64, 65, 127, 128, 129, 255, 256, 257, 300))
			}
			if r.P(40) {
				num += "." + digits(r.Pick0(17, 33, 64, 65, 128, 129, 256, 257))
			}
			num += r.Pick([]string{"", "", "万", "兆", "億五"})
		}
		for i := r.Range(1, 8); i > 0; i-- {
			num += string(r.PickRune([]rune("0123〇一五十百千万億兆,.,.")))
		}
	}
	rs := []rune(num)
	for r.P(25) && len(rs) > 0 { // one edit
		i := r.N(len(rs) + 1)
		switch {
		case r.P(50):
			rs = append(rs[:i:i], append([]rune{r.PickRune([]rune(",.,.0十百万五〇"))}, rs[i:]...)...)
		case i < len(rs) && r.P(50):
			rs = append(rs[:i:i], rs[i+1:]...)
		case i < len(rs):
			rs[i] = r.PickRune([]rune(",.0五千億"))
		}
	}
	return string(rs)
}

func runC15(c *Ctx) {
	r := c.R
	o := GenOpt{Users: 0, NoOOVHoles: true, PlainText: true, DefaultChar: r.Pick0(1, 1, 1, 0), Input: r.Pick0(1, 1, 0), NoSplits: r.P(80), SurfEqHead: r.P(80)}
	w := genWorld(r, c.Dir, o)
	clean := r.P(75)
	numeralWorld(r, w, clean)
	if clean { // of the random words only those whose characters are not numeric
		var es []*Entry
		for _, e := range w.Sys.Entries {
			num := false
			for _, x := range e.Head {
				if w.Cat.Types(x)&(cNUMERIC|cKANJINUMERIC) != 0 {
					num = true
				}
			}
			if !num || e.Pos == posNumeric {
				es = append(es, e)
			}
		}
		if len(es) == len(w.Sys.Entries) || noRefs(es) {
			w.Sys.Entries = es
		}
		has := map[[6]string]bool{}
		for _, p := range w.Sys.PosList() {
			has[p] = true
		}
		for i := range w.Unk {
			if !has[w.Unk[i].Pos] {
				w.Unk[i].Pos = posOOV
			}
			if w.Unk[i].Cat == "NUMERIC" || w.Unk[i].Cat == "KANJINUMERIC" {
				w.Unk[i].Pos = posNumeric
			}
		}
		w.UnkText = unkText(w.Unk)
	}
	norm := r.P(75)
	num := pathCfg{Kind: "numeric", Norm: &norm}
	if norm && r.P(50) {
		num.Norm = nil
	}
	kat := pathCfg{Kind: "katakana", Pos: posOOV}
	w.Pl.Path = []pathCfg{num}
	huge := c.Idx%3000 == 22
	if huge { // the OOV words of MeCab take time linear in the text each
		w.Pl.Oov = []oovCfg{{Kind: "simple", Pos: posOOV, C: 3000}}
	}
	idx := 0
	switch r.N(4) {
	case 0:
		w.Pl.Path = []pathCfg{num, kat}
	case 1:
		w.Pl.Path = []pathCfg{kat, num}
		idx = 1
	}
	if err := w.Build(); err != nil {
		c.Setup("%v", err)
	}
	op, err := w.Open(-1, true)
	if err != nil {
		c.Setup("opening: %v", err)
	}
	defer op.Close()
	numPos := int(op.Rec.Grammar.GetPartOfSpeechId(posNumeric[:]))
	for t := 0; t < 40; t++ {
		var b strings.Builder
		for k := r.Range(1, 3); k > 0; k-- {
			switch r.N(5) {
			case 0:
				b.WriteString(r.Pick([]string{"円", "年", "の", "東京", "、", "x", ",", ".", "カ"}))
			case 1:
				if r.P(30) {
					b.WriteString(w.Text(r, 1, o))
				}
			}
			b.WriteString(genNumText(r))
			if r.P(60) {
				b.WriteString(r.Pick([]string{"円", "年", "の", "東京", "回", ",", ".", ",円", ".円"}))
			}
		}
		text := b.String()
		if t == 0 && c.Idx%5000 == 21 {
			text = repeatTo(text+"年。", r.Pick0(23000, 30000)) // positions beyond 16 bits
			c.Count("texts_beyond_16_bits", 1)
		}
		if t == 0 && huge { // one numeral whose length is beyond 16 bits
			text += "。" + strings.Repeat("五", r.Pick0(11000, 22000, 24000)) + r.Pick([]string{"", "円", ".五円", "."})
			c.Count("numerals_beyond_16_bits", 1)
		}
		mode := r.Pick(modes)
		op.Rec.Reset()
		l, err := op.T.Tokenize(mode, text)
		if err != nil {
			c.Count("tokenize_errors", 1)
			continue
		}
		if l.Length() == 0 {
			continue
		}
		tm := newTextModel([]rune(op.Rec.Input.ModifiedText), w.Cat)
		before, after := op.Rec.Paths[idx], op.Rec.Paths[idx+1]
		if msg := checkNumeric(c, tm, before, after, numPos, norm); msg != "" {
			c.Fail("%s\ntext %+q (%s), normalize %v\nbefore: %v\nafter: %v", brief(msg), text, text, norm, before, after)
		}
		// the morphemes show the joined words whatever the mode
		last := op.Rec.Paths[len(op.Rec.Paths)-1]
		ms := readList(l)
		shown := map[string]int{}
		for _, m := range ms {
			shown[m.Norm+"\x00"+m.Rdg]++
		}
		for _, n := range last {
			if n.Dict == -1 && !n.Oov && shown[n.WI.NormalizedForm+"\x00"+n.WI.ReadingForm] == 0 {
				c.Fail("text %+q mode %s: the joined numeral %s is not among the morphemes %+v", text, mode, numNode(n), ms)
			}
		}
		sig := ""
		if len(before) > 1 {
			sig = text + fmt.Sprint(norm)
		}
		c.Eval(sig)
		c.Sample(func() interface{} {
			return map[string]interface{}{"text": text, "normalize": norm, "before": strs(before), "after": strs(after)}
		})
	}
}

func strs(ns []NodeSnap) []string {
	var s []string
	for _, n := range ns {
		s = append(s, n.WI.Surface+"|"+n.WI.NormalizedForm)
	}
	return s
}

func noRefs(es []*Entry) bool {
	for _, e := range es {
		if len(e.A)+len(e.B)+len(e.W) > 0 || e.DF >= 0 {
			return false
		}
	}
	return true
}

func unkText(us []UnkEntry) string {
	var b strings.Builder
	for _, u := range us {
		fmt.Fprintf(&b, "%s,%d,%d,%d,%s\n", u.Cat, u.L, u.R, u.C, strings.Join(u.Pos[:], ","))
	}
	return b.String()
}

// ---- C16 -----------------------------------------------------------------------

// katNode is what can be seen of a word (not its place in the lattice).
func katNode(n NodeSnap) string {
	return fmt.Sprintf("[%d,%d) wid=%x dict=%d oov=%v %+q", n.B, n.E, uint32(n.Wid), n.Dict, n.Oov, fmt.Sprintf("%+v", n.WI))
}

func runC16(c *Ctx) {
	r := c.R
	o := GenOpt{Users: r.Pick0(0, 0, 1, 2), NoOOVHoles: true, PlainText: true, DefaultChar: r.Pick0(1, 0), Input: r.Pick0(1, 1, 0), SurfEqHead: r.P(70), NoSplits: r.P(70)}
	w := genWorld(r, c.Dir, o)
	// katakana words, many short ones
	katAl := []rune("アイウカキャッァーン")
	if r.P(40) {
		katAl = []rune("アカー")
	}
	for i := r.Range(3, 25); i > 0; i-- {
		e := &Entry{DF: -1, Unit: "A"}
		n := r.Pick0(1, 1, 2, 2, 3, 4, 5, 6)
		var b []rune
		for len(b) < n {
			b = append(b, r.PickRune(katAl))
		}
		e.Head = string(b)
		fillEntry(r, e, w.M.R, w.M.L, w.Sys.PosList(), o)
		if r.P(30) {
			e.C = r.Pick0(0, 100, 30000)
		}
		w.Sys.Entries = append(w.Sys.Entries, e)
	}
	many := r.P(3) // runs of many words
	if many {
		for _, x := range katAl {
			w.Sys.Entries = append(w.Sys.Entries, &Entry{Head: string(x), Surf: string(x), R: r.N(w.M.L), L: r.N(w.M.R), C: -20000, Pos: w.Sys.Entries[0].Pos, Read: "ア", Norm: string(x), DF: -1, Unit: "A"})
		}
	}
	oovPos := posOOV
	if r.P(40) {
		pl := w.Sys.PosList()
		oovPos = pl[r.N(len(pl))]
	}
	kat := pathCfg{Kind: "katakana", Pos: oovPos}
	min := 1
	if r.P(85) {
		n := r.N(6)
		kat.MinLen = &n
		min = n
	}
	num := pathCfg{Kind: "numeric"}
	w.Pl.Path = []pathCfg{kat}
	huge := c.Idx%3000 == 22
	if huge { // the OOV words of MeCab take time linear in the text each
		w.Pl.Oov = []oovCfg{{Kind: "simple", Pos: posOOV, C: 3000}}
	}
	idx := 0
	switch r.N(5) {
	case 0:
		w.Pl.Path = []pathCfg{kat, num}
	case 1:
		w.Pl.Path = []pathCfg{num, kat}
		idx = 1
	}
	if err := w.Build(); err != nil {
		c.Setup("%v", err)
	}
	op, err := w.Open(-1, true)
	if err != nil {
		c.Setup("opening: %v", err)
	}
	defer op.Close()
	posId := int(op.Rec.Grammar.GetPartOfSpeechId(oovPos[:]))
	kana := func() string {
		var b []rune
		for i := r.Range(1, 8); i > 0; i-- {
			if r.P(80) {
				b = append(b, r.PickRune(katAl))
			} else {
				b = append(b, r.PickRune([]rune("ヴヵトリゥャーッ")))
			}
		}
		return string(b)
	}
	for t := 0; t < 40; t++ {
		var b strings.Builder
		for k := r.Range(1, 5); k > 0; k-- {
			switch r.N(4) {
			case 0:
				b.WriteString(w.Text(r, 1, o))
			case 1:
				b.WriteString(r.Pick([]string{"東京", "の", "a", "5", "。"}))
			default:
				b.WriteString(kana())
			}
		}
		text := b.String()
		if t == 0 && c.Idx%5000 == 21 {
			text = repeatTo(text+"。", r.Pick0(23000, 30000)) // positions beyond 16 bits
			c.Count("texts_beyond_16_bits", 1)
		}
		if t == 0 && huge { // a run whose length is beyond 16 bits
			text += "。" + strings.Repeat(kana(), 24000)[:3*r.Pick0(11000, 22000, 24000)] + r.Pick([]string{"", "。"})
			c.Count("runs_beyond_16_bits", 1)
		}
		if many && r.P(20) {
			for i := r.Pick0(15, 16, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300); i > 0; i-- {
				text += string(r.PickRune(katAl))
			}
			text += r.Pick([]string{"", "。", "ヴ", "ヴ東京"})
			c.Count("runs_of_many_words", 1)
		}
		op.Rec.Reset()
		l, err := op.T.Tokenize(r.Pick(modes), text)
		if err != nil {
			c.Count("tokenize_errors", 1)
			continue
		}
		if l.Length() == 0 {
			continue
		}
		tm := newTextModel([]rune(op.Rec.Input.ModifiedText), w.Cat)
		before, after := op.Rec.Paths[idx], op.Rec.Paths[idx+1]
		if msg := checkKatakana(c, tm, before, after, op.Rec.Lattice, min, posId); msg != "" {
			c.Fail("%s\ntext %+q (%s), minimum length %d\nbefore: %v\nafter: %v", brief(msg), text, text, min, before, after)
		}
		sig := ""
		if len(after) != len(before) {
			sig = text + fmt.Sprint(min)
		}
		c.Eval(sig)
		c.Sample(func() interface{} {
			return map[string]interface{}{"text": text, "minimum_length": min, "before": strs(before), "after": strs(after)}
		})
	}
}

// checkKatakana compares the path before and after the katakana plugin.
func checkKatakana(c *Ctx, tm *TextModel, before, after, lattice []NodeSnap, min, posId int) string {
	types := make([]uint32, len(before))
	for i, n := range before {
		types[i] = tm.RangeTypes(tm.at[n.B], tm.at[n.E])
	}
	a := 0
	next := func() *NodeSnap {
		if a >= len(after) {
			return nil
		}
		a++
		return &after[a-1]
	}
	same := func(i int) string {
		y := next()
		if y == nil {
			return fmt.Sprintf("word %s is missing", katNode(before[i]))
		}
		if katNode(*y) != katNode(before[i]) {
			return fmt.Sprintf("word %s became %s", katNode(before[i]), katNode(*y))
		}
		return ""
	}
	for i := 0; i < len(before); {
		if types[i]&cKATAKANA == 0 {
			if msg := same(i); msg != "" {
				return msg
			}
			i++
			continue
		}
		j := i
		need := false
		for j < len(before) && types[j]&cKATAKANA != 0 {
			if before[j].Oov || tm.at[before[j].E]-tm.at[before[j].B] < min {
				need = true
			}
			j++
		}
		b := i
		if need {
			for b < j && types[b]&cNOOOVBOW != 0 {
				b++
			}
		}
		if !need || j-b < 2 {
			for ; i < j; i++ {
				if msg := same(i); msg != "" {
					return msg
				}
			}
			if need {
				c.Count("runs_left_alone", 1)
			}
			continue
		}
		for ; i < b; i++ {
			if msg := same(i); msg != "" {
				return msg
			}
			c.Count("leading_words_left_out", 1)
		}
		y := next()
		bb, ee := before[b].B, before[j-1].E
		if y == nil || y.B != bb || y.E != ee {
			return fmt.Sprintf("the katakana run [%d,%d) is not one word", bb, ee)
		}
		var cands []NodeSnap
		for _, n := range lattice {
			if n.B == bb && n.E == ee {
				if len(cands) > 0 && n.C < cands[0].C {
					cands = nil
				}
				if len(cands) == 0 || n.C == cands[0].C {
					cands = append(cands, n)
				}
			}
		}
		if len(cands) > 0 {
			ok := false
			for _, n := range cands {
				if katNode(n) == katNode(*y) {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("the run became %s, expected the cheapest candidate of %v", katNode(*y), cands)
			}
			c.Count("runs_replaced_by_a_candidate", 1)
		} else {
			s, hl := "", 0
			for k := b; k < j; k++ {
				s += before[k].WI.Surface
				hl += int(before[k].WI.HeadwordLength)
			}
			w := y.WI
			if !y.Oov || y.Dict != -1 || int(w.PosId) != posId || w.Surface != s || w.NormalizedForm != s || w.DictionaryForm != s || w.ReadingForm != "" || w.HeadwordLength != int16(hl) || len(w.AUnitSplit)+len(w.BUnitSplit)+len(w.WordStructure) != 0 {
				return fmt.Sprintf("the run became %s, expected an OOV word %q of part of speech %d", katNode(*y), s, posId)
			}
			c.Count("runs_joined_into_an_oov_word", 1)
		}
		i = j
	}
	if a != len(after) {
		return fmt.Sprintf("%d words too many", len(after)-a)
	}
	return ""
}

var _ = gs.NewJoinKatakanaOovPlugin

func init() {
	register(&Check{ID: "C15", Quick: 17000, MinDistinct: 2000, Run: runC15,
		Rule: "a case builds a dictionary with number words (all digits, units, separators, some of several characters or with other normalized forms, a quarter of the cases with some of another part of speech) and analyses 40 texts of right, nearly right and random numerals; the path before and after the plugin is compared with a reference grammar and exact arithmetic. Non-trivial: a text of at least two words; distinct by text and option"})
	register(&Check{ID: "C16", Quick: 24000, MinDistinct: 2000, Run: runC16,
		Rule: "a case builds dictionaries with short and long katakana words and analyses 40 texts that mix katakana with other scripts, under minimum lengths 0 to 5, both character definitions and various OOV providers; the path after the plugin is compared with what the path and the candidates before it prescribe. Non-trivial: a text with a joined run; distinct by text and minimum length"})
}

// brief shortens a message that shows long texts.
func brief(s string) string {
	if len(s) <= 1000 {
		return s
	}
	return s[:500] + " ... " + s[len(s)-500:]
}
