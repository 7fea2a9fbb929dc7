package main

// C22: what the debug dump shows. C23: the views of text and lattice that
// plugins get.

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"

	gs "github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

// ---- C22 --------------------------------------------------------------------------------

// dumpLine is one word of the lattice in a dump.
type dumpLine struct {
	what  string // everything but the number and the connection costs
	costs []int
}

func (d dumpLine) String() string { return fmt.Sprintf("%s: %v", d.what, d.costs) }

// cutAfter returns what follows the marker line, and what precedes it.
func cutAfter(s, marker string) (before, after string, ok bool) {
	i := strings.Index(s, marker)
	if i < 0 {
		return s, "", false
	}
	return s[:i], s[i+len(marker):], true
}

// numbered checks the numbers of lines and strips them.
func numbered(s string) ([]string, string) {
	if s == "" {
		return nil, ""
	}
	if !strings.HasSuffix(s, "\n") {
		return nil, "the last line is not ended"
	}
	var out []string
	for i, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		p := strconv.Itoa(i) + ": "
		if !strings.HasPrefix(l, p) {
			return nil, fmt.Sprintf("line %q does not have the number %d", l, i)
		}
		out = append(out, l[len(p):])
	}
	return out, ""
}

// effCost is the connection cost as the grammar reports it.
func (w *World) effCost(l, r int) int {
	for _, p := range w.Inhibit {
		if p[0] == l && p[1] == r {
			return 32767
		}
	}
	return int(w.M.Cost[l][r])
}

func posText(op *Opened, id int16) string {
	if id < 0 {
		return "(null)"
	}
	return strings.Join(op.D.GetPartOfSpeechString(id), ",")
}

func nodeLine(n NodeSnap) string {
	return fmt.Sprintf("%d %d %s(%d) %d %d %d %d", n.B, n.E, n.WI.Surface, int32(uint32(n.Wid)), n.WI.PosId, n.L, n.R, n.C)
}

// checkDump compares a dump with what the recorders saw.
func checkDump(c *Ctx, w *World, op *Opened, mode, text string, l *gs.MorphemeList, err error, dump string) string {
	if len(text) == 0 {
		if dump != "" {
			return fmt.Sprintf("a dump for the empty text: %q", dump)
		}
		return ""
	}
	rec := op.Rec
	if len(rec.Texts) == 0 {
		return ""
	}
	in := string(rec.Texts[len(rec.Texts)-1])
	if rec.Input != nil {
		in = string(rec.Input.Bytea)
	}
	_, rest, ok := cutAfter(dump, "=== Input dump\n"+in+"\n")
	if !ok {
		if err != nil && rec.Input == nil && dump == "" {
			return "" // failed in an input text plugin
		}
		return fmt.Sprintf("the dump does not show the text %+q first", in)
	}
	_, rest, ok = cutAfter(rest, "=== Lattice dump\n")
	if !ok {
		if err == nil || len(rec.Paths) > 0 {
			return "the lattice is missing in the dump"
		}
		c.Count("dumps_of_failures", 1)
		return ""
	}
	lat, rest, ok := cutAfter(rest, "=== Before rewriting:\n")
	if !ok {
		if err == nil || len(rec.Paths) > 0 {
			return "the path before rewriting is missing in the dump"
		}
		c.Count("dumps_of_failures", 1)
		return ""
	}
	if len(rec.Paths) == 0 {
		return "the dump shows a path, but there is none"
	}
	// the lattice
	lines, msg := numbered(lat)
	if msg != "" {
		return "lattice: " + msg
	}
	var got, want []string
	for _, s := range lines {
		s = strings.TrimRight(s, " ")
		var d dumpLine
		i := strings.LastIndex(s, ":")
		if i < 0 {
			return fmt.Sprintf("lattice: the line %q has no connection costs", s)
		}
		d.what = s[:i]
		for _, f := range strings.Fields(s[i+1:]) {
			k, err := strconv.Atoi(f)
			if err != nil {
				return fmt.Sprintf("lattice: the line %q has no connection costs", s)
			}
			d.costs = append(d.costs, k)
		}
		sort.Ints(d.costs)
		got = append(got, d.String())
	}
	type right struct{ r int }
	ends := map[int][]right{0: {{0}}}
	for _, n := range rec.Lattice {
		ends[n.E] = append(ends[n.E], right{n.R})
	}
	add := func(what string, b, l int) {
		d := dumpLine{what: what}
		for _, x := range ends[b] {
			d.costs = append(d.costs, w.effCost(x.r, l))
		}
		sort.Ints(d.costs)
		want = append(want, d.String())
	}
	n := len(in)
	add("0 0 (null)(0) BOS/EOS 0 0 0", 0, 0)
	add(fmt.Sprintf("%d %d (null)(0) BOS/EOS 0 0 0", n, n), n, 0)
	for _, x := range rec.Lattice {
		add(fmt.Sprintf("%d %d %s(%d) %s %d %d %d", x.B, x.E, x.WI.Surface, int32(uint32(x.Wid)), posText(op, x.WI.PosId), x.L, x.R, x.C), x.B, x.L)
	}
	sort.Strings(got)
	sort.Strings(want)
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got) || i < len(want) && got[i] > want[i]:
			return fmt.Sprintf("lattice: the line %q is missing", want[i])
		case i >= len(want) || got[i] < want[i]:
			return fmt.Sprintf("lattice: the line %q is not expected", got[i])
		}
	}
	c.Count("lattice_lines", len(got))
	// the paths
	before, after, ok := cutAfter(rest, "=== After rewriting:\n")
	lines, msg = numbered(before)
	if msg != "" {
		return "path before rewriting: " + msg
	}
	p := rec.Paths[0]
	if len(lines) != len(p) {
		return fmt.Sprintf("path before rewriting: %d lines for %d words", len(lines), len(p))
	}
	for i := range p {
		if lines[i] != nodeLine(p[i]) {
			return fmt.Sprintf("path before rewriting: line %q, expected %q", lines[i], nodeLine(p[i]))
		}
	}
	if err != nil {
		if ok {
			return "the dump shows a result of a failed analysis"
		}
		c.Count("dumps_of_failures", 1)
		return ""
	}
	if !ok {
		return "the result is missing in the dump"
	}
	after, _, ok = cutAfter(after, "===\n")
	if !ok {
		return "the end of the dump is missing"
	}
	lines, msg = numbered(after)
	if msg != "" {
		return "result: " + msg
	}
	if len(lines) != l.Length() {
		return fmt.Sprintf("result: %d lines for %d morphemes", len(lines), l.Length())
	}
	p = rec.Paths[len(rec.Paths)-1]
	pos := 0
	for i, s := range lines {
		m := l.Get(i)
		if mode == "C" {
			if s != nodeLine(p[i]) {
				return fmt.Sprintf("result: line %q, expected %q", s, nodeLine(p[i]))
			}
			continue
		}
		var b, e int
		fmt.Sscan(s, &b, &e)
		if b != pos || e < b {
			return fmt.Sprintf("result: the word of line %q begins at %d, expected %d", s, b, pos)
		}
		pos = e
		id := fmt.Sprintf("(%d) ", int32(uint32(m.GetWordId())))
		if !strings.Contains(s, id) {
			return fmt.Sprintf("result: line %q does not show the word id %s", s, id)
		}
	}
	return ""
}

func runC22(c *Ctx) {
	r := c.R
	o := GenOpt{Users: -1, Forbid: r.Pick0(0, 0, 10, 30), Narrow: r.P(50), Inhibit: r.P(25), NoOOVHoles: r.P(80)}
	w, op := mustWorld(c, o)
	defer op.Close()
	for _, d := range append([]*DictSrc{w.Sys}, w.Users...) {
		for _, e := range d.Entries {
			if strings.ContainsAny(e.Surf, "\r\n") || strings.Contains(e.Surf, "===") {
				c.Skip("a surface form of several lines")
			}
		}
	}
	var b bytes.Buffer
	for t := 0; t < 12; t++ {
		text := w.Text(r, textLen(r), o)
		if r.P(2) {
			text = ""
		}
		if strings.ContainsAny(text, "\r\n") || strings.Contains(text, "===") {
			continue
		}
		mode := r.Pick(modes)
		op.Rec.Reset()
		b.Reset()
		op.T.DumpOutput = &b
		l, err := op.T.Tokenize(mode, text)
		op.T.DumpOutput = nil
		dump := b.String()
		if msg := checkDump(c, w, op, mode, text, l, err, dump); msg != "" {
			c.Fail("%s\nmode %s, text %+q (%s), error %v, dump:\n%s", brief(msg), mode, text, text, err, clip(dump, 6000))
		}
		if err == nil && len(text) > 0 {
			c.Eval(mode + dump)
			c.Sample(func() interface{} {
				return map[string]interface{}{"mode": mode, "text": text, "dump": clip(dump, 2000)}
			})
			if len(w.Inhibit) > 0 {
				c.Count("dumps_with_inhibited_pairs", 1)
			}
		}
	}
}

// ---- C23 --------------------------------------------------------------------------------

// checkViews compares all accessors of a text with the model.
func checkViews(c *Ctx, orig string, it *gs.InputText, t *RText, cat *CatModel) string {
	m := newTextModel(t.Runes, cat)
	mod := string(t.Runes)
	if it.GetText() != mod || it.ModifiedText != mod || string(it.GetByteText()) != mod || it.OriginalText != orig {
		return fmt.Sprintf("texts %+q %+q %+q, expected %+q and %+q", it.GetText(), it.GetByteText(), it.OriginalText, mod, orig)
	}
	n := len(m.Runes)
	for i := 0; i <= n; i++ {
		for o := m.Off[i]; o == m.Off[i] || i < n && o < m.Off[i+1]; o++ {
			if g := it.GetOriginalIndex(o); g != t.Orig[i] {
				return fmt.Sprintf("byte %d (character %d) is at %d of the original text, expected %d", o, i, g, t.Orig[i])
			}
			if g := it.GetOffsetTextLength(o); g != i {
				return fmt.Sprintf("byte %d is in character %d, expected %d", o, g, i)
			}
			if i == n {
				continue
			}
			if g := it.GetCharCategoryTypes(o); g != m.Types[i] {
				return fmt.Sprintf("byte %d (character %d %+q) has the categories %x, expected %x", o, i, m.Runes[i], g, m.Types[i])
			}
			if g := it.IsCharAlignment(o); g != (o == m.Off[i]) {
				return fmt.Sprintf("byte %d is a boundary of characters: %v", o, g)
			}
			if g := it.CanBow(o); g != (o == m.Off[i] && m.Bow[i]) {
				return fmt.Sprintf("at byte %d (character %d) a word may begin: %v", o, i, g)
			}
			if g := it.GetCharCategoryContinuousLength(o); g != m.Off[m.Cont[i]]-o {
				return fmt.Sprintf("from byte %d (character %d) the category continues for %d bytes, expected %d", o, i, g, m.Off[m.Cont[i]]-o)
			}
		}
	}
	ranges := func(f func(i, j int) string) string {
		if n > 300 { // some of them
			for k := 0; k < 60; k++ {
				i := c.R.N(n + 1)
				if msg := f(i, c.R.Range(i, n)); msg != "" {
					return msg
				}
			}
			return ""
		}
		for i := 0; i <= n; i++ {
			for j := i; j <= n; j++ {
				if msg := f(i, j); msg != "" {
					return msg
				}
			}
		}
		return ""
	}
	return ranges(func(i, j int) string {
		b, e := m.Off[i], m.Off[j]
		if g := it.GetSubstring(b, e); g != string(m.Runes[i:j]) {
			return fmt.Sprintf("the text of the bytes %d to %d is %+q, expected %+q", b, e, g, string(m.Runes[i:j]))
		}
		if g := it.CodePointCount(b, e); g != j-i {
			return fmt.Sprintf("the bytes %d to %d are %d characters, expected %d", b, e, g, j-i)
		}
		if g := it.GetCodePointsOffsetLength(b, j-i); g != e-b {
			return fmt.Sprintf("%d characters from byte %d are %d bytes, expected %d", j-i, b, g, e-b)
		}
		if i < j {
			if g := it.GetCharCategoryTypesRange(b, e); g != m.RangeTypes(i, j) {
				return fmt.Sprintf("the bytes %d to %d have the common categories %x, expected %x", b, e, g, m.RangeTypes(i, j))
			}
		}
		c.Count("ranges", 1)
		return ""
	})
}

// viewPlugin is a path rewriter that reads the lattice.
type viewPlugin struct {
	r     *Rng
	msg   string
	seen  int
	added int
	cat   *CatModel
	w     *World
	c     *Ctx
	text  string
	posId int16

	grammar *dictionary.Grammar
}

func (p *viewPlugin) GetConfigStruct() interface{} { return &struct{}{} }
func (p *viewPlugin) SetUp(g *dictionary.Grammar) error {
	p.grammar = g
	p.posId = g.GetPartOfSpeechId(posOOV[:])
	return nil
}
func (p *viewPlugin) Rewrite(t *gs.InputText, path *[]*gs.LatticeNode, l *gs.Lattice) error {
	p.msg = p.check(t, *path, l)
	return nil
}

func (p *viewPlugin) check(t *gs.InputText, path []*gs.LatticeNode, l *gs.Lattice) string {
	n := len(t.Bytea)
	rt := p.w.modelInput(p.text)
	if msg := checkViews(p.c, p.text, t, rt, p.w.Cat); msg != "" {
		return msg
	}
	views := func(when string) string {
		for e := 1; e <= n; e++ {
			all := l.GetNodesWithEnd(e)
			if l.HasPreviousNode(e) != (len(all) > 0) {
				return fmt.Sprintf("%s: a word ends at %d: %v, but there are %d", when, e, l.HasPreviousNode(e), len(all))
			}
			byBegin := map[int][]*gs.LatticeNode{}
			for _, x := range all {
				if x.GetEnd() != e || x.GetBegin() < 0 || x.GetBegin() >= e {
					return fmt.Sprintf("%s: among the words that end at %d: %v", when, e, snap(x))
				}
				byBegin[x.GetBegin()] = append(byBegin[x.GetBegin()], x)
			}
			for b := 0; b < e; b++ {
				got := l.GetNodes(b, e)
				if !sameNodes(got, byBegin[b]) {
					return fmt.Sprintf("%s: %d words from %d to %d, expected %d", when, len(got), b, e, len(byBegin[b]))
				}
				min := l.GetMinimumNode(b, e)
				if (min == nil) != (len(got) == 0) {
					return fmt.Sprintf("%s: the cheapest of %d words from %d to %d: %v", when, len(got), b, e, min)
				}
				found := min == nil
				for _, x := range got {
					found = found || x == min
					if x.GetPathCost() < min.GetPathCost() {
						return fmt.Sprintf("%s: the cheapest word from %d to %d costs %d, another %d", when, b, e, min.GetPathCost(), x.GetPathCost())
					}
				}
				if !found {
					return fmt.Sprintf("%s: the cheapest word from %d to %d is none of these", when, b, e)
				}
				p.seen += len(got)
			}
		}
		return ""
	}
	if msg := views("at first"); msg != "" {
		return msg
	}
	// the words of the path are in the lattice
	for _, x := range path {
		if !hasNode(l.GetNodes(x.GetBegin(), x.GetEnd()), x) {
			return fmt.Sprintf("the word %v of the path is not in the lattice", snap(x))
		}
	}
	// lists that were returned stay as they are, whatever happens
	type list struct {
		b, e      int
		got, want []*gs.LatticeNode
	}
	var lists []list
	keep := func(b, e int) []*gs.LatticeNode {
		got := l.GetNodes(b, e)
		lists = append(lists, list{b, e, got, append([]*gs.LatticeNode(nil), got...)})
		return got
	}
	kept := func() string {
		for _, x := range lists {
			for i := range x.want {
				if len(x.got) != len(x.want) || x.got[i] != x.want[i] {
					return fmt.Sprintf("the list of the %d words from %d to %d has changed since it was returned", len(x.want), x.b, x.e)
				}
			}
		}
		p.c.Count("lists_kept", len(lists))
		return ""
	}
	for _, x := range path {
		keep(x.GetBegin(), x.GetEnd())
	}
	// words added and removed
	type change struct {
		b, e int
		x    *gs.LatticeNode
	}
	var added []change
	m := newTextModel(rt.Runes, p.w.Cat)
	for k := p.r.N(5); k > 0; k-- {
		i := p.r.N(len(m.Runes))
		j := p.r.Range(i+1, len(m.Runes))
		b, e := m.Off[i], m.Off[j]
		x := gs.CreateNodeOfOOV()
		x.SetParameter(int16(p.r.N(p.w.M.R)), int16(p.r.N(p.w.M.L)), int16(p.r.Range(-32768, 32767)))
		s := string(m.Runes[i:j])
		x.SetWordInfo(&dictionary.WordInfo{Surface: s, HeadwordLength: int16(len(s)), PosId: p.posId, NormalizedForm: s, DictionaryForm: s})
		before := l.GetNodesWithEnd(e)
		old := append([]*gs.LatticeNode(nil), before...)
		keep(b, e)
		l.Insert(b, e, x)
		keep(b, e)
		if x.GetBegin() != b || x.GetEnd() != e {
			return fmt.Sprintf("a word inserted from %d to %d is from %d to %d", b, e, x.GetBegin(), x.GetEnd())
		}
		if !sameNodes(l.GetNodesWithEnd(e), append(old, x)) {
			return fmt.Sprintf("after inserting a word from %d to %d other words end there than before", b, e)
		}
		added = append(added, change{b, e, x})
	}
	p.added += len(added)
	if msg := views("after insertions"); msg != "" {
		return msg
	}
	for _, k := range p.r.Perm(len(added)) {
		a := added[k]
		var rest []*gs.LatticeNode
		for _, x := range l.GetNodesWithEnd(a.e) {
			if x != a.x {
				rest = append(rest, x)
			}
		}
		l.Remove(a.b, a.e, a.x)
		if !sameNodes(l.GetNodesWithEnd(a.e), rest) {
			return fmt.Sprintf("after removing one of %d words that end at %d there are %d", len(rest)+1, a.e, len(l.GetNodesWithEnd(a.e)))
		}
	}
	if msg := views("after removals"); msg != "" {
		return msg
	}
	// all words of some ranges, as a plugin would remove them
	for k := p.r.N(4); k > 0 && len(path) > 0; k-- {
		x := path[p.r.N(len(path))]
		b, e := x.GetBegin(), x.GetEnd()
		got := keep(b, e)
		var rest []*gs.LatticeNode
		for _, y := range l.GetNodesWithEnd(e) {
			if y.GetBegin() != b {
				rest = append(rest, y)
			}
		}
		for _, y := range got {
			if y == nil {
				return fmt.Sprintf("the list of the words from %d to %d changes while they are removed", b, e)
			}
			l.Remove(b, e, y)
		}
		if !sameNodes(l.GetNodesWithEnd(e), rest) {
			return fmt.Sprintf("after removing all %d words from %d to %d, %d words end there, expected %d", len(got), b, e, len(l.GetNodesWithEnd(e)), len(rest))
		}
	}
	if msg := views("after removing words of the path"); msg != "" {
		return msg
	}
	if msg := kept(); msg != "" {
		return msg
	}
	for _, x := range lists { // and are the plugin's own
		for i := range x.got {
			x.got[i] = nil
		}
	}
	return views("after overwriting lists")
}

// sameNodes compares nodes as sets.
func sameNodes(a, b []*gs.LatticeNode) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[*gs.LatticeNode]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
		if m[x] < 0 {
			return false
		}
	}
	return true
}

func hasNode(l []*gs.LatticeNode, x *gs.LatticeNode) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func runC23(c *Ctx) {
	r := c.R
	o := GenOpt{Users: r.Pick0(0, 1), Narrow: r.P(50), NoOOVHoles: true, Path: 1, WantNumPos: true}
	w := genWorld(r, c.Dir, o)
	if err := w.Build(); err != nil {
		c.Setup("%v", err)
	}
	in, oov, path := w.plugins(nil, "")
	v := &viewPlugin{r: r, w: w, c: c}
	path = append(path, v)
	d, err := gs.NewJapaneseDictionary(w.config(-1), in, oov, path, w.edits())
	if err != nil {
		c.Setup("opening: %v", err)
	}
	defer d.Close()
	t := d.Create()
	// the lattice and the text as plugins see them
	for k := 0; k < 6; k++ {
		n := textLen(r)
		if n > 12 {
			n = r.Range(1, 12)
		}
		text := w.Text(r, n, o)
		if text == "" {
			continue
		}
		v.text, v.msg, v.seen = text, "", 0
		if _, err := t.Tokenize("C", text); err != nil {
			c.Count("failed", 1)
		}
		if v.msg != "" {
			c.Fail("%s\ntext %+q", v.msg, text)
		}
		if v.seen > 0 {
			c.Count("words_of_lattices", v.seen)
			c.Eval("lattice" + text)
		}
	}
	c.Count("words_inserted_and_removed", v.added)
	// the text under random rewriting
	if v.grammar == nil {
		c.Setup("the plugin was not set up")
	}
	for k := 0; k < 5; k++ {
		text := w.Text(r, r.Range(1, 8), o)
		if k == 0 && c.Idx%500 == 7 {
			text = repeatTo(text+"。", r.Pick0(22000, 33000, 66000)) // positions beyond 16 bits
			c.Count("texts_beyond_16_bits", 1)
		}
		bld := gs.NewInputTextBuilder(text, v.grammar)
		rt := newRText(text)
		type built struct {
			it *gs.InputText
			rt *RText
		}
		var all []built
		var log []string
		for e := r.Range(0, 6); e >= 0; e-- {
			if n := len(rt.Runes); n > 0 && e > 0 {
				bg := r.N(n)
				en := r.Range(bg, n)
				if r.P(60) && en > bg+3 {
					en = bg + r.N(4)
				}
				if en == bg {
					en++
				}
				var s []rune
				switch r.N(5) {
				case 0:
					s = append(s, rt.Runes[bg:en]...)
				case 1, 2:
					s = []rune(genWord(r, abWords, 1+r.N(6)))
				default:
					s = []rune(w.Text(r, 1, o))
				}
				if len(s) == 0 {
					s = []rune("x")
				}
				log = append(log, fmt.Sprintf("[%d,%d)->%+q", bg, en, string(s)))
				rt = rt.replace(bg, en, []rune(string(s)))
				bld.Replace(bg, en, s)
				for i := range s { // the builder keeps its own copy
					s[i] = 'Z'
				}
			}
			g := bld.GetText()
			if string(g) != string(rt.Runes) {
				c.Fail("text %+q after %v is %+q, expected %+q", text, log, string(g), string(rt.Runes))
			}
			for i := range g { // a copy as well
				g[i] = 'Q'
			}
			if e == 0 || r.P(30) {
				all = append(all, built{bld.Build(), rt})
			}
		}
		for _, x := range all { // what was built earlier stays
			if msg := checkViews(c, text, x.it, x.rt, w.Cat); msg != "" {
				c.Fail("%s\ntext %+q, replaced %v", msg, text, log)
			}
		}
		if len(log) > 0 {
			c.Eval("text" + brief(text) + fmt.Sprint(log))
			c.Count("replacements", len(log))
		}
	}
}

func init() {
	register(&Check{ID: "C22", Quick: 20000, MinDistinct: 2000, Run: runC22,
		Rule: "a case builds a world and tokenizes 12 texts with the dump switched on; recorders note the text, the lattice and the paths, and the dump is compared with them and with the connection costs of the sources. Non-trivial: a dump of a successful analysis; distinct by mode and dump"})
	register(&Check{ID: "C23", Quick: 26000, MinDistinct: 2000, Run: runC23,
		Rule: "a case analyses 6 texts with a path rewriter that compares every accessor of the text and of the lattice, at all positions and ranges, with a model of the rewritten text and with each other, and inserts and removes words; then it makes random replacements on 5 texts and compares every text built on the way. Non-trivial: an analysis with words, a text with a replacement; distinct by text and replacements"})
}
