package main

// C10 (built dictionaries), C19 (printing) and C11 (conversion).

import (
	"bytes"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/msnoigrs/gosudachi/dictionary"
)

// ---- unusual contents ----------------------------------------------------------

var weirdRunes = []rune(`,,\\u"'/*#; U-1` + "\t\n\r\x00\x01\x7f\u0085\u2028\ufeff\ufffd\u00e9日本アａ😀𠮷\U0010ffff\ue000\ud7ff\uffff")

var weirdStrings = []string{"", "*", "-1", "U0", "U1", "0", `\u0041`, `\u{41}`, `\`, `\\`, `\u`, `\u{`, `\u{}`, `\u004`, ",", ",,", "\n", "\r\n", " ", "\u3000", "\ufeff", "a,b", `"a"`, "名詞,普通名詞", "#", "//"}

var lenBorders = []int{1, 126, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 16383, 16384, 32766, 32767}

func units(s string, utf16s bool) int {
	if utf16s {
		return len(utf16.Encode([]rune(s)))
	}
	return len(s)
}

// fitString makes a string of exactly n units (bytes or UTF-16 units).
func fitString(r *Rng, n int, u16 bool) string {
	var b strings.Builder
	left := n
	al := []rune(r.Pick([]string{"a", "ab", "日本a", "𠮷a", "éa", "アあa"}))
	for left > 0 {
		x := al[r.N(len(al))]
		w := utf8.RuneLen(x)
		if u16 {
			w = 1
			if x > 0xffff {
				w = 2
			}
		}
		if w > left {
			x, w = 'a', 1
		}
		b.WriteRune(x)
		left -= w
	}
	return b.String()
}

func weirdString(r *Rng, u16 bool, long bool) string {
	switch k := r.N(10); {
	case k < 4:
		return weirdStrings[r.N(len(weirdStrings))]
	case k == 9 && long:
		return fitString(r, lenBorders[r.N(len(lenBorders))], u16)
	}
	var b []rune
	for i := r.Range(1, 8); i > 0; i-- {
		b = append(b, weirdRunes[r.N(len(weirdRunes))])
	}
	return string(b)
}

// weirdenEntries puts unusual contents into some entries; references stay
// valid.
func weirdenEntries(r *Rng, d *DictSrc, u16 bool, pct int, long bool) {
	for _, e := range d.Entries {
		if r.P(pct) {
			e.Surf = weirdString(r, u16, long)
		}
		if r.P(pct) {
			e.Read = weirdString(r, u16, long)
		}
		if r.P(pct) {
			e.Norm = weirdString(r, u16, long)
		}
		if r.P(pct) {
			h := weirdString(r, u16, long)
			h = strings.ReplaceAll(h, "\x00", "n")
			if len(h) > 32767 {
				h = h[:0] + fitString(r, 32767, false)
			}
			e.Head = h
		}
		if r.P(pct) {
			i := r.N(6)
			p := weirdString(r, u16, long && r.P(20))
			e.Pos[i] = strings.ReplaceAll(p, ",", ";")
		}
		if r.P(pct / 2) {
			e.L, e.R = r.Pick0(0, 1, 5, 127, 128, 255, 256, 32767), r.Pick0(0, 1, 5, 127, 128, 255, 256, 32767)
		}
		if r.P(pct / 2) {
			e.C = r.Pick0(-32768, -32767, -129, -128, -1, 0, 127, 128, 255, 256, 32766, 32767)
		}
	}
	d.byHead, d.maxLen = nil, 0
}

// fixRefs replaces inline references that no longer name one word.
func fixRefs(d *DictSrc) {
	fix := func(rs []Ref) {
		for i, x := range rs {
			if x.Kind == 'i' && !inlineTarget(d, x.Own, x.Id) {
				if d.User && x.Own {
					rs[i].Kind = 'U'
				} else {
					rs[i].Kind = 'n'
				}
			}
		}
	}
	for _, e := range d.Entries {
		fix(e.A)
		fix(e.B)
		fix(e.W)
	}
}

// ---- rendering sources -----------------------------------------------------------

var escRe = regexp.MustCompile(`\\u([0-9a-fA-F]{4}|\{[0-9a-fA-F]+\})`)

// decodeModel decodes the escapes of a column.
func decodeModel(s string) string {
	return escRe.ReplaceAllStringFunc(s, func(m string) string {
		h := strings.Trim(m[2:], "{}")
		v, err := strconv.ParseInt(h, 16, 64)
		if err != nil || v > 0x10ffff {
			return m
		}
		return string(rune(v))
	})
}

func escRune(r *Rng, x rune) string {
	h := strconv.FormatInt(int64(x), 16)
	if r.P(50) {
		h = strings.ToUpper(h)
	}
	if x <= 0xffff && r.P(50) {
		return `\u` + strings.Repeat("0", 4-len(h)) + h
	}
	return `\u{` + strings.Repeat("0", r.Pick0(0, 0, 1, 3, 12)) + h + "}"
}

// escRandom writes s with some characters escaped.
func escRandom(r *Rng, pct int) func(string) string {
	return func(s string) string {
		if len(s) > 3000 && pct > 1 {
			return escPlain(s)
		}
		var b strings.Builder
		rs := []rune(s)
		for i, x := range rs {
			must := x == ',' || x == '\n' || x == '\r' || x == '\\' && i+1 < len(rs) && rs[i+1] == 'u'
			if must || r.P(pct) {
				b.WriteString(escRune(r, x))
			} else {
				b.WriteRune(x)
			}
		}
		out := b.String()
		if decodeModel(out) != s { // a raw backslash met an escape
			return escPlain(s)
		}
		return out
	}
}

// source renders a dictionary source in an unusual way.
type srcStyle struct {
	files int
	eol   string // "\n", "\r\n", "mixed"
	noEnd bool   // the last line of a file is not ended
	esc   int    // percentage of needlessly escaped characters
}

func genStyle(r *Rng) srcStyle {
	return srcStyle{r.Pick0(1, 1, 1, 2, 3), r.Pick([]string{"\n", "\n", "\r\n", "mixed"}), r.P(40), r.Pick0(0, 0, 5, 60)}
}

func (d *DictSrc) render(r *Rng, st srcStyle) []string {
	files := make([]string, st.files)
	n := len(d.Entries)
	esc := escRandom(r, st.esc)
	for f := range files {
		lo, hi := n*f/st.files, n*(f+1)/st.files
		var b strings.Builder
		for i := lo; i < hi; i++ {
			b.WriteString(d.Line(i, esc))
			if i == hi-1 && st.noEnd {
				break
			}
			switch {
			case st.eol == "mixed" && r.P(50), st.eol == "\r\n":
				b.WriteString("\r\n")
			default:
				b.WriteString("\n")
			}
		}
		files[f] = b.String()
	}
	return files
}

// render writes the matrix in an unusual way.
func (m *Matrix) render(r *Rng) string {
	type cell struct{ l, r int }
	var cs []cell
	for l := 0; l < m.L; l++ {
		for k := 0; k < m.R; k++ {
			if m.Set[l][k] {
				cs = append(cs, cell{l, k})
			}
		}
	}
	if r.P(50) {
		for i := len(cs) - 1; i > 0; i-- {
			j := r.N(i + 1)
			cs[i], cs[j] = cs[j], cs[i]
		}
	}
	crlf, sep, blank := r.P(30), r.Pick([]string{" ", " ", "\t", "  "}), r.P(20)
	eol := func() string {
		if crlf {
			return "\r\n"
		}
		return "\n"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d%s%d%s", m.L, sep, m.R, eol())
	for i, c := range cs {
		if blank && r.P(10) {
			b.WriteString(r.Pick([]string{"", " ", "\t "}) + eol()[len(eol())-1:])
		}
		// long lines, to the sizes of read buffers and beyond
		gap := func() string {
			if len(cs) < 2000 && r.N(400) == 0 {
				return strings.Repeat(r.Pick([]string{" ", "\t"}), r.longLen())
			}
			return ""
		}
		if r.P(1) {
			b.WriteString(strings.Repeat(" ", 4100))
		}
		fmt.Fprintf(&b, "%s%d%s%s%d%s%d%s", gap(), c.l, sep, gap(), c.r, sep, m.Cost[c.l][c.r], gap())
		if i < len(cs)-1 || r.P(70) {
			b.WriteString(eol())
		}
	}
	return b.String()
}

// ---- comparing an opened dictionary with its source ------------------------------

func refIds(d *DictSrc, rs []Ref) []int32 {
	var ids []int32
	for _, x := range rs {
		id := int32(x.Id)
		if d.User && x.Own {
			id |= 1 << 28
		}
		ids = append(ids, id)
	}
	return ids
}

func sameIds(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func posOf(d *DictSrc, bd, sys *dictionary.BinaryDictionary, id int16) []string {
	g := bd.Grammar
	n := 0
	if d.User {
		n = sys.Grammar.GetPartOfSpeechSize()
		if int(id) < n {
			g, n = sys.Grammar, 0
		}
	}
	if g == nil || int(id)-n < 0 || int(id)-n >= g.GetPartOfSpeechSize() {
		return nil
	}
	return g.GetPartOfSpeechString(id - int16(n))
}

func short(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%+q... (%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%+q", s)
}

// compareWords checks every word of bd against the source.
func compareWords(d *DictSrc, bd, sys *dictionary.BinaryDictionary, rebuilt bool) string {
	lx := bd.Lexicon
	if int(lx.Size()) != len(d.Entries) {
		return fmt.Sprintf("the dictionary has %d words, its source %d", lx.Size(), len(d.Entries))
	}
	for i, e := range d.Entries {
		id := int32(i)
		if int(lx.GetLeftId(id)) != e.L || int(lx.GetRightId(id)) != e.R || int(lx.GetCost(id)) != e.C {
			return fmt.Sprintf("word %d: parameters %d %d %d, in the source %d %d %d", i, lx.GetLeftId(id), lx.GetRightId(id), lx.GetCost(id), e.L, e.R, e.C)
		}
		wi := lx.GetWordInfo(id)
		bad := func(what, got, want string) string {
			return fmt.Sprintf("word %d: %s %s, in the source %s", i, what, short(got), short(want))
		}
		if wi.Surface != e.Surf {
			return bad("surface", wi.Surface, e.Surf)
		}
		if (!rebuilt || e.Head == e.Surf) && int(wi.HeadwordLength) != len(e.Head) {
			return fmt.Sprintf("word %d: headword length %d, headword of %d bytes", i, wi.HeadwordLength, len(e.Head))
		}
		if p := posOf(d, bd, sys, wi.PosId); strings.Join(p, ",") != strings.Join(e.Pos[:], ",") {
			return bad("part of speech", strings.Join(p, ","), strings.Join(e.Pos[:], ","))
		}
		if wi.NormalizedForm != e.Normalized() {
			return bad("normalized form", wi.NormalizedForm, e.Normalized())
		}
		if wi.ReadingForm != e.Reading() {
			return bad("reading", wi.ReadingForm, e.Reading())
		}
		if int(wi.DictionaryFormWordId) != e.DF {
			return fmt.Sprintf("word %d: dictionary form id %d, in the source %d", i, wi.DictionaryFormWordId, e.DF)
		}
		if wi.DictionaryForm != d.DictForm(i) {
			return bad("dictionary form", wi.DictionaryForm, d.DictForm(i))
		}
		for _, x := range []struct {
			name string
			got  []int32
			want []Ref
		}{{"A split", wi.AUnitSplit, e.A}, {"B split", wi.BUnitSplit, e.B}, {"structure", wi.WordStructure, e.W}} {
			if !sameIds(x.got, refIds(d, x.want)) {
				return fmt.Sprintf("word %d: %s %v, in the source %v", i, x.name, x.got, refIds(d, x.want))
			}
		}
	}
	return ""
}

func compareMatrix(m *Matrix, g *dictionary.Grammar) string {
	for l := 0; l < m.L; l++ {
		for r := 0; r < m.R; r++ {
			if v := g.GetConnectCost(int16(l), int16(r)); v != m.Cost[l][r] {
				return fmt.Sprintf("connection cost (%d,%d) is %d, in the source %d (given: %v)", l, r, v, m.Cost[l][r], m.Set[l][r])
			}
		}
	}
	return ""
}

func comparePosTable(d *DictSrc, g *dictionary.Grammar) string {
	want := map[string]bool{}
	for _, p := range d.PosList() {
		want[strings.Join(p[:], ",")] = true
	}
	if g.GetPartOfSpeechSize() != len(want) {
		return fmt.Sprintf("%d parts of speech, in the source %d", g.GetPartOfSpeechSize(), len(want))
	}
	for i := 0; i < g.GetPartOfSpeechSize(); i++ {
		k := strings.Join(g.GetPartOfSpeechString(int16(i)), ",")
		if !want[k] {
			return fmt.Sprintf("part of speech %s is not in the source (or twice in the table)", short(k))
		}
		delete(want, k)
	}
	return ""
}

// lookups compares lookups at every offset of random texts.
func compareLookups(c *Ctx, d *DictSrc, lx *dictionary.DoubleArrayLexicon, texts int) string {
	r := c.R
	for t := 0; t < texts; t++ {
		var b bytes.Buffer
		for i := r.Range(1, 8); i > 0; i-- {
			switch r.N(6) {
			case 0:
				b.WriteString(r.Pick(junkBytes))
			case 1:
				b.WriteString(weirdString(r, false, false))
			default:
				if len(d.Entries) == 0 {
					b.WriteString("東京")
					continue
				}
				h := d.Entries[r.N(len(d.Entries))].Head
				if r.P(20) && len(h) > 1 {
					h = h[:r.Range(1, len(h)-1)]
				}
				b.WriteString(h)
			}
		}
		text := b.Bytes()
		step := 1
		if len(text) > 2000 {
			step = len(text) / 500
		}
		for off := 0; off <= len(text); off += step {
			if d.byHead == nil {
				d.index()
			}
			var want, got []string
			for _, m := range d.Match(text, off) {
				want = append(want, fmt.Sprintf("%d-%d", m.end, m.id))
			}
			it := lx.Lookup(text, off)
			for n := 0; it.Next(); n++ {
				id, end := it.Get()
				got = append(got, fmt.Sprintf("%d-%d", end, id))
				if n > 100000 {
					return "lookup does not end"
				}
			}
			if err := it.Err(); err != nil {
				return fmt.Sprintf("lookup in %s at %d: %v", short(string(text)), off, err)
			}
			sort.Strings(want)
			sort.Strings(got)
			if strings.Join(want, " ") != strings.Join(got, " ") {
				return fmt.Sprintf("lookup in %s at %d (end-word): %v, expected %v", short(string(text)), off, got, want)
			}
			c.Count("lookups", 1)
			c.Count("words_found", len(got))
		}
	}
	return ""
}

// genDict makes sources for a built dictionary.
type dictCase struct {
	w    *World
	u16  bool
	desc string
}

func genDesc(r *Rng) string {
	switch r.N(6) {
	case 0:
		return ""
	case 1:
		return fitString(r, 256, false)
	case 2:
		return fitString(r, r.Range(250, 255), false)
	}
	return r.Pick([]string{"a description", "辞書 2019", " x ", "a\tb", "日本語の説明😀", "-", "%d %s"})
}

func genDictCase(c *Ctx, users int, pct int, long bool) *dictCase {
	r := c.R
	w := genWorld(r, c.Dir, GenOpt{Users: users, OnlyEntries: true, AutoCost: true})
	dc := &dictCase{w: w, u16: w.UTF16, desc: genDesc(r)}
	for _, u := range w.Users {
		if r.N(25) == 0 {
			u.Entries = nil // an empty lexicon
		}
	}
	for _, d := range append([]*DictSrc{w.Sys}, w.Users...) {
		if r.P(70) {
			weirdenEntries(r, d, w.UTF16, r.Pick0(2, 8, 25), long)
		}
	}
	for _, d := range append([]*DictSrc{w.Sys}, w.Users...) {
		fixRefs(d)
	}
	return dc
}

func bigSystem(c *Ctx, dc *dictCase) {
	r := c.R
	d := dc.w.Sys
	n := r.Range(1500, 4000)
	genEntries(r, d, abWords, n, 200, dc.w.M.L, dc.w.M.R, posPool, GenOpt{})
	// many homographs of one word
	h := genWord(r, abWords, 2)
	k := r.Range(200, 255)
	for _, e := range d.Entries {
		if e.Head == h && e.Indexed() {
			k--
		}
	}
	for i := 0; i < k; i++ {
		e := &Entry{Head: h, DF: -1, Unit: "A"}
		fillEntry(r, e, dc.w.M.L, dc.w.M.R, posPool, GenOpt{})
		d.Entries = append(d.Entries, e)
	}
	// many parts of speech
	for i := r.Range(0, 300); i > 0; i-- {
		e := d.Entries[r.N(len(d.Entries))]
		e.Pos = [6]string{"p", strconv.Itoa(i), "*", "", " ", "*"}
	}
	if c.Idx%1000 == 500 { // ids beyond 16 bits
		for i, n := 0, r.Pick0(66000, 70000, 140000); len(d.Entries) < n; i++ {
			e := &Entry{Head: fmt.Sprintf("語%d", i), DF: -1, Unit: r.Pick([]string{"A", "B", "C"}), L: r.N(dc.w.M.L), R: r.N(dc.w.M.R), C: r.Range(-3000, 9000), Pos: d.Entries[r.N(1000)].Pos, Read: "ゴ", Norm: fmt.Sprintf("語%x", i)}
			e.Surf = e.Head
			if r.P(30) {
				e.DF = r.N(n)
			}
			if e.Unit != "A" {
				for j := r.Range(2, 4); j > 0 && r.P(90); j-- {
					e.A = append(e.A, Ref{Kind: 'n', Id: r.N(n)})
					e.W = append(e.W, Ref{Kind: 'n', Id: r.N(n)})
				}
			}
			d.Entries = append(d.Entries, e)
		}
		c.Count("dictionaries_with_ids_beyond_16_bits", 1)
	}
	d.byHead = nil
	fixRefs(d)
}

func readFileOr(c *Ctx, p string) []byte {
	b, err := os.ReadFile(p)
	if err != nil {
		c.Fail("the built file cannot be read: %v", err)
	}
	return b
}

// checkOpened opens the file p built from d and compares all of it.
func checkOpened(c *Ctx, d *DictSrc, m *Matrix, p, sysPath string, u16 bool, desc string, t0, t1 int64, texts int) {
	var bd, sys *dictionary.BinaryDictionary
	var err error
	if d.User {
		sys, err = dictionary.ReadSystemDictionary(sysPath, u16)
		if err != nil {
			c.Fail("the built system dictionary cannot be opened: %v", err)
		}
		defer sys.Close()
		bd, err = dictionary.ReadUserDictionary(p, u16)
	} else {
		bd, err = dictionary.ReadSystemDictionary(p, u16)
	}
	if err != nil {
		c.Fail("the built dictionary cannot be opened: %v", err)
	}
	defer bd.Close()
	if bd.Header.Description != desc {
		c.Fail("description %s, expected %s", short(bd.Header.Description), short(desc))
	}
	if bd.Header.CreateTime < t0 || bd.Header.CreateTime > t1 {
		c.Fail("creation time %d, expected %d to %d", bd.Header.CreateTime, t0, t1)
	}
	wantV := uint64(dictionary.SystemDictVersion)
	if d.User {
		wantV = dictionary.UserDictVersion2
	}
	if bd.Header.Version != wantV {
		c.Fail("version %x", bd.Header.Version)
	}
	if s := comparePosTable(d, bd.Grammar); s != "" {
		c.Fail("%s", s)
	}
	if !d.User {
		if s := compareMatrix(m, bd.Grammar); s != "" {
			c.Fail("%s", s)
		}
	}
	if s := compareWords(d, bd, sys, false); s != "" {
		c.Fail("%s", s)
	}
	if s := compareLookups(c, d, bd.Lexicon, texts); s != "" {
		c.Fail("%s", s)
	}
	c.Count("words_compared", len(d.Entries))
}

func rawJunk(r *Rng) string {
	pieces := []string{`\`, `\u`, `u`, `{`, `}`, "0", "4", "41", "0041", "3042", "1F600", "g", "あ", `\u{`, `\u{41}`, `\u0041`, `\u{110000}`, `\u{10ffff}`, `\u{7fffffffff}`, `\u00`, `\\u0042`, `\U0041`, " ", "x"}
	var b strings.Builder
	for i := r.Range(1, 7); i > 0; i-- {
		b.WriteString(pieces[r.N(len(pieces))])
	}
	return b.String()
}

// surrogateFree tells whether the text has no escapes of surrogates.
func surrogateFree(s string) bool {
	for _, m := range escRe.FindAllString(s, -1) {
		v, err := strconv.ParseInt(strings.Trim(m[2:], "{}"), 16, 64)
		if err == nil && v >= 0xd800 && v <= 0xdfff {
			return false
		}
	}
	return true
}

func runC10(c *Ctx) {
	r := c.R
	if r.P(30) { // sources arrive in pieces
		buildIO = planPieces(r)
		defer func() { buildIO = nil }()
	}
	dc := genDictCase(c, r.Pick0(0, 0, 1), 0, true)
	w := dc.w
	big := r.N(100) == 0 || c.Idx%1000 == 500
	if big {
		bigSystem(c, dc)
	}
	if r.N(6) == 0 { // an uncommon matrix
		k := r.Pick0(1, 1, 2, 30, 130, 257)
		w.M = genMatrix(r, k, r.Pick0(1, 2, 7, 40, 300), 5)
	}
	// junk around escapes, given raw
	raw := map[string]string{}
	if r.P(50) {
		for i := 0; i < 4; i++ {
			e := w.Sys.Entries[r.N(len(w.Sys.Entries))]
			j := rawJunk(r)
			if !surrogateFree(j) || strings.Contains(decodeModel(j), ",") {
				continue
			}
			e.Norm = decodeModel(j)
			raw[e.Norm] = j
		}
	}
	st := genStyle(r)
	lex := w.Sys.render(r, st)
	if len(raw) > 0 {
		st.esc = 0
		base := escRandom(r, 0)
		var b strings.Builder
		for i := range w.Sys.Entries {
			b.WriteString(w.Sys.Line(i, func(s string) string {
				if j, ok := raw[s]; ok {
					return j
				}
				return base(s)
			}))
			b.WriteByte('\n')
		}
		lex = []string{b.String()}
		c.Count("raw_escape_junk", len(raw))
	}
	mat := w.M.render(r)
	ctime := int64(r.Range(-5, 2000000000))
	if r.N(20) == 0 {
		ctime = 1 << 40
	}
	sysPath := w.sub("s.dic")
	if err := buildSystem(sysPath, lex, mat, dc.u16, ctime, dc.desc); err != nil {
		c.Fail("building from a well-formed source failed: %v", err)
	}
	texts := 6
	if big {
		texts = 25
		c.Count("big_dictionaries", 1)
	}
	checkOpened(c, w.Sys, w.M, sysPath, "", dc.u16, dc.desc, ctime, ctime, texts)
	file := readFileOr(c, sysPath)
	c.Eval(string(file))
	if dc.u16 {
		c.Count("utf16_dictionaries", 1)
	}
	// the same sources written differently
	p2 := w.sub("s2.dic")
	if err := buildSystem(p2, w.Sys.render(r, genStyle(r)), w.M.render(r), dc.u16, ctime, dc.desc); err != nil {
		c.Fail("building again failed: %v", err)
	}
	if !bytes.Equal(file, readFileOr(c, p2)) {
		c.Fail("the same sources, split and escaped differently, give another file")
	}
	c.Eval("")
	cmds := r.N(4) == 0
	if cmds {
		p3 := w.sub("s3.dic")
		files := []string{}
		for i, l := range w.Sys.render(r, genStyle(r)) {
			files = append(files, w.write(fmt.Sprintf("lex%d.csv", i), l))
		}
		mp := w.write("matrix.def", w.M.render(r))
		args := []string{"-o", p3, "-m", mp}
		if dc.u16 {
			args = append(args, "-j")
		}
		if dc.desc != "" || r.P(50) {
			args = append(args, "-d", dc.desc)
		}
		if r.P(30) { // an old file is there
			w.write("s3.dic", strings.Repeat("old", r.Range(1, 5000)))
		}
		t0 := time.Now().Unix()
		res := c.run(nil, "dicbuilder", append(args, files...)...)
		t1 := time.Now().Unix()
		if res.Code != 0 {
			c.Fail("dicbuilder: exit status %d: %s", res.Code, clip(res.Err, 500))
		}
		checkOpened(c, w.Sys, w.M, p3, "", dc.u16, dc.desc, t0, t1, 2)
		f3 := readFileOr(c, p3)
		if !bytes.Equal(f3[16:], file[16:]) || !bytes.Equal(f3[:8], file[:8]) {
			c.Fail("dicbuilder writes another file than the library")
		}
		c.Eval("")
	}
	for ui, u := range w.Users {
		up := w.sub(fmt.Sprintf("u%d.dic", ui))
		if err := buildUser(up, u.render(r, genStyle(r)), sysPath, dc.u16, ctime+1, dc.desc, false); err != nil {
			c.Fail("building a user dictionary from a well-formed source failed: %v", err)
		}
		checkOpened(c, u, nil, up, sysPath, dc.u16, dc.desc, ctime+1, ctime+1, 4)
		uf := readFileOr(c, up)
		c.Eval(string(uf))
		c.Count("user_dictionaries", 1)
		if cmds {
			up2 := w.sub("u.cmd.dic")
			files := []string{}
			for i, l := range u.render(r, genStyle(r)) {
				files = append(files, w.write(fmt.Sprintf("ulex%d.csv", i), l))
			}
			args := []string{"-o", up2, "-s", sysPath, "-d", dc.desc}
			if dc.u16 {
				args = append(args, "-j")
			}
			t0 := time.Now().Unix()
			res := c.run(nil, "userdicbuilder", append(args, files...)...)
			t1 := time.Now().Unix()
			if res.Code != 0 {
				c.Fail("userdicbuilder: exit status %d: %s", res.Code, clip(res.Err, 500))
			}
			checkOpened(c, u, nil, up2, sysPath, dc.u16, dc.desc, t0, t1, 2)
			f3 := readFileOr(c, up2)
			if !bytes.Equal(f3[16:], uf[16:]) {
				c.Fail("userdicbuilder writes another file than the library")
			}
			c.Eval("")
		}
	}
	c.Sample(func() interface{} {
		return map[string]interface{}{"words": len(w.Sys.Entries), "utf16": dc.u16, "matrix": fmt.Sprintf("%dx%d", w.M.L, w.M.R), "style": fmt.Sprint(st), "first_lines": clip(lex[0], 400), "file_bytes": len(file)}
	})
}

func init() {
	register(&Check{ID: "C10", Quick: 4000, Run: runC10, MinDistinct: 1500, NeedCmds: true,
		Rule: "A case generates lexicon and matrix sources (homographs, prefixes, compounds, unusual characters, strings at length borders, escapes, several files, line endings), builds dictionaries through the library (1 in 4 also with the commands), reopens them and compares every word, connection cost, part of speech, header field and the lookups at every offset of generated texts; then builds again from a different rendering of the same sources and compares the files. Distinct: files built."})
}
