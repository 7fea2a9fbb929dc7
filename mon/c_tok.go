package main

// Checks on tokenization: C01 tiling, C02 minimum cost, C06 splits, C07
// attributes, C13 normalization, C14 OOV words.

import (
	"fmt"
	"sort"
	"strings"

	gs "github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

var modes = []string{"A", "B", "C"}

func kinds(w *World) string {
	var k []string
	for _, c := range w.Pl.Input {
		k = append(k, c.Kind)
	}
	k = append(k, "|")
	for _, c := range w.Pl.Oov {
		k = append(k, c.Kind)
	}
	k = append(k, "|")
	for _, c := range w.Pl.Path {
		k = append(k, c.Kind)
	}
	return strings.Join(k, ",")
}

func textLen(r *Rng) int {
	switch r.N(8) {
	case 0:
		return r.N(3)
	case 1:
		return r.Range(10, 30)
	}
	return r.Range(1, 9)
}

// ---- C01 --------------------------------------------------------------------

func checkTiling(ms []Morph, orig []rune, begin, end int) string {
	pos := begin
	for i, m := range ms {
		if m.Begin != pos {
			return fmt.Sprintf("morpheme %d begins at %d, expected %d", i, m.Begin, pos)
		}
		if m.End < m.Begin || m.End > end {
			return fmt.Sprintf("morpheme %d has the span [%d,%d) in a text of [%d,%d)", i, m.Begin, m.End, begin, end)
		}
		if want := string(orig[m.Begin:m.End]); m.Surface != want {
			return fmt.Sprintf("morpheme %d [%d,%d) has surface %q, the text there is %q", i, m.Begin, m.End, m.Surface, want)
		}
		pos = m.End
	}
	if pos != end {
		return fmt.Sprintf("the last morpheme ends at %d, expected %d", pos, end)
	}
	return ""
}

func runC01(c *Ctx) {
	o := GenOpt{Users: -1, Forbid: c.R.Pick0(0, 0, 5), Narrow: c.R.P(50), NoOOVHoles: c.R.P(75)}
	long := c.Idx%2000 == 11
	if long {
		o.Longer = c.Idx%6000 == 11
		o.Forbid, o.NoOOVHoles, o.Long = 0, true, true
	}
	w, op := mustWorld(c, o)
	defer op.Close()
	op.Rec.Light = true
	for t := 0; t < 25; t++ {
		text := w.Text(c.R, textLen(c.R), o)
		if t == 0 && c.Idx%40 == 5 {
			text = w.Text(c.R, 600, o)
		}
		modes := modes
		if t == 0 && long {
			text, modes = w.LongText(c.R, o), []string{c.R.Pick(modes)}
		}
		orig := []rune(text)
		for _, mode := range modes {
			l, err := op.T.Tokenize(mode, text)
			if err != nil {
				c.Count("tokenize_errors", 1)
				continue
			}
			ms := readList(l)
			if k := l.GetInternalCost(); len(ms) == 0 && k != 0 {
				c.Fail("mode %s, text %+q: the empty list costs %d", mode, text, k)
			}
			if msg := checkTiling(ms, orig, 0, len(orig)); msg != "" {
				c.Fail("mode %s, text %+q: %s\nmorphemes: %+v\nplugins: %s", mode, text, msg, ms, kinds(w))
			}
			var cat strings.Builder
			for _, m := range ms {
				cat.WriteString(m.Surface)
			}
			if cat.String() != string(orig) {
				c.Fail("mode %s, text %+q: the surfaces concatenate to %+q", mode, text, cat.String())
			}
			changed := string(op.Rec.Input0()) != string(orig)
			c.Count("morphemes", len(ms))
			nsplit := 0
			for i := 0; i < l.Length(); i++ {
				if long && t == 0 && i%50 > 0 {
					continue // reading a surface takes time linear in the text
				}
				for _, sm := range modes {
					sl := readList(l.Get(i).Split(sm))
					if len(sl) > 1 {
						nsplit++
					}
					if msg := checkTiling(sl, orig, ms[i].Begin, ms[i].End); msg != "" {
						c.Fail("text %+q, morpheme %+v split in mode %s: %s\nunits: %+v", text, ms[i], sm, msg, sl)
					}
				}
			}
			c.Count("splits", nsplit)
			if changed {
				c.Count("texts_rewritten", 1)
			}
			if t == 0 && long {
				c.Count("texts_beyond_16_bits", 1)
			}
			sig := ""
			if len(ms) >= 2 {
				sig = mode + text + kinds(w)
			}
			c.Eval(sig)
			c.Sample(func() interface{} {
				return map[string]interface{}{"text": text, "mode": mode, "plugins": kinds(w), "surfaces": surfaces(ms)}
			})
		}
	}
}

func (r *Rec) Input0() []rune {
	if r.Input == nil {
		return nil
	}
	return []rune(r.Input.ModifiedText)
}

func surfaces(ms []Morph) []string {
	var s []string
	for _, m := range ms {
		s = append(s, m.Surface)
	}
	return s
}

// ---- C02 --------------------------------------------------------------------

type cand struct {
	b, e, wid, l, r, c int
	oov                bool
}

func (x cand) key() string {
	if x.oov {
		return fmt.Sprintf("%d-%d oov %d/%d/%d", x.b, x.e, x.l, x.r, x.c)
	}
	return fmt.Sprintf("%d-%d %x %d/%d/%d", x.b, x.e, x.wid, x.l, x.r, x.c)
}

// dictCands are the dictionary words at a place, from the sources.
func (w *World) dictCands(text []byte, at int, cost func(d, i int) int) []cand {
	var cs []cand
	for d, src := range append([]*DictSrc{w.Sys}, w.Users...) {
		for _, m := range src.Match(text, at) {
			e := src.Entries[m.id]
			k := e.C
			if cost != nil {
				k = cost(d, m.id)
			}
			cs = append(cs, cand{at, m.end, d<<28 | m.id, e.L, e.R, k, false})
		}
	}
	return cs
}

// connCost is the effective connection cost; ok is false if forbidden.
func (w *World) connCost(l, r int) (int, bool) {
	for _, p := range w.Inhibit {
		if p[0] == l && p[1] == r {
			return 0, false
		}
	}
	k := int(w.M.Cost[l][r])
	return k, k != 32767
}

// bestCost is the minimal cost of a path of candidates over [0,n), ok false if
// there is none.
func (w *World) bestCost(cands []cand, n int) (int64, bool) {
	type state map[int]int64 // by right id: minimal cost
	at := make([]state, n+1)
	at[0] = state{0: 0}
	byBegin := map[int][]cand{}
	for _, x := range cands {
		byBegin[x.b] = append(byBegin[x.b], x)
	}
	for i := 0; i < n; i++ {
		if len(at[i]) == 0 {
			continue
		}
		for _, x := range byBegin[i] {
			for rid, k := range at[i] {
				cc, ok := w.connCost(rid, x.l)
				if !ok {
					continue
				}
				nk := k + int64(cc) + int64(x.c)
				if at[x.e] == nil {
					at[x.e] = state{}
				}
				if old, ok := at[x.e][x.r]; !ok || nk < old {
					at[x.e][x.r] = nk
				}
			}
		}
		at[i] = nil
	}
	best, found := int64(0), false
	for rid, k := range at[n] {
		if cc, ok := w.connCost(rid, 0); ok {
			if nk := k + int64(cc); !found || nk < best {
				best, found = nk, true
			}
		}
	}
	return best, found
}

func callsAt(calls []OovCall) map[int][]OovCall {
	m := map[int][]OovCall{}
	for _, k := range calls {
		m[k.Offset] = append(m[k.Offset], k)
	}
	return m
}

// candidates are all words that may be used: the sources' words at each
// reachable word-start position and what the providers offered there. hole is
// the first reachable position without any, or -1.
func (w *World) candidates(text []byte, bow func(int) bool, calls []OovCall) (cs []cand, hole int, stray string) {
	byPos := callsAt(calls)
	reach := make([]bool, len(text)+1)
	reach[0] = true
	hole = -1
	seen := map[int]bool{}
	for i := range text {
		if !reach[i] || !bow(i) {
			continue
		}
		here := w.dictCands(text, i, nil)
		seen[i] = true
		for _, k := range byPos[i] {
			for _, n := range k.Nodes {
				here = append(here, cand{n.B, n.E, 0, n.L, n.R, n.C, true})
			}
		}
		if len(here) == 0 {
			hole = i
			break
		}
		for _, x := range here {
			reach[x.e] = true
		}
		cs = append(cs, here...)
	}
	for i := range byPos {
		if !seen[i] && (hole < 0 || i < hole) {
			stray = fmt.Sprintf("an OOV provider was asked at %d, where no word can start", i)
		}
	}
	return
}

func runC02(c *Ctx) {
	o := GenOpt{Users: -1, Forbid: c.R.Pick0(0, 0, 10, 30), Narrow: c.R.P(60), Path: 1, Inhibit: c.R.P(15)}
	if c.R.P(40) {
		o.Input = 1
	}
	if c.Idx%400 == 17 {
		runC02Long(c)
		return
	}
	w, op := mustWorld(c, o)
	defer op.Close()
	for t := 0; t < 15; t++ {
		text := w.Text(c.R, textLen(c.R), o)
		if len(text) == 0 {
			continue
		}
		checkC02(c, w, op, text)
	}
}

func checkC02(c *Ctx, w *World, op *Opened, text string) {
	op.Rec.Reset()
	_, err := op.T.Tokenize("C", text)
	in := op.Rec.Input
	if in == nil {
		if err == nil {
			c.Fail("text %+q: tokenized without any OOV provider or path rewriter being called", text)
		}
		// the first position failed without any provider being asked
		c.Count("no_observation", 1)
		return
	}
	b := in.Bytea
	cs, hole, stray := w.candidates(b, in.CanBow, op.Rec.Calls)
	if stray != "" {
		c.Fail("text %+q: %s", text, stray)
	}
	best, ok := int64(0), false
	if hole < 0 {
		best, ok = w.bestCost(cs, len(b))
	}
	if err != nil {
		if ok {
			c.Fail("text %+q (normalized %+q) fails (%v) although there is a path of cost %d", text, b, err, best)
		}
		if hole >= 0 {
			c.Count("failed_for_hole", 1)
		} else {
			c.Count("failed_for_connection", 1)
		}
		c.Eval("fail" + text)
		return
	}
	if hole >= 0 {
		c.Fail("text %+q (normalized %+q): there is no candidate at the reachable position %d, but tokenization succeeds", text, b, hole)
	}
	if !ok {
		c.Fail("text %+q (normalized %+q): no allowed path exists, but tokenization succeeds: %v", text, b, op.Rec.Paths)
	}
	// the lattice has exactly the candidates
	// (as sets: at the end of a text a provider may offer the same word twice)
	want, have := map[string]bool{}, map[string]bool{}
	for _, x := range cs {
		want[x.key()] = true
	}
	for _, n := range op.Rec.Lattice {
		x := cand{n.B, n.E, n.Wid, n.L, n.R, n.C, n.Oov}
		have[x.key()] = true
		if !want[x.key()] {
			c.Fail("text %+q (normalized %+q): the lattice has %s, which is no candidate", text, b, x.key())
		}
	}
	for k := range want {
		if !have[k] {
			c.Fail("text %+q (normalized %+q): candidate %s is missing in the lattice", text, b, k)
		}
	}
	// the path
	path := op.Rec.Paths[0]
	pos, prev, total := 0, 0, int64(0)
	lat := map[*gs.LatticeNode]bool{}
	for _, n := range op.Rec.Lattice {
		lat[n.Ptr] = true
	}
	for i, n := range path {
		if n.B != pos {
			c.Fail("text %+q: node %d of the path begins at %d, expected %d", text, i, n.B, pos)
		}
		if !lat[n.Ptr] {
			c.Fail("text %+q: node %d of the path is no candidate: %v", text, i, n)
		}
		cc, allowed := w.connCost(prev, n.L)
		if !allowed {
			c.Fail("text %+q: the path uses the forbidden connection %d-%d before node %d", text, prev, n.L, i)
		}
		total += int64(cc) + int64(n.C)
		pos, prev = n.E, n.R
	}
	if pos != len(b) {
		c.Fail("text %+q: the path ends at %d of %d", text, pos, len(b))
	}
	cc, allowed := w.connCost(prev, 0)
	if !allowed {
		c.Fail("text %+q: the path uses the forbidden connection %d-EOS", text, prev)
	}
	total += int64(cc)
	if total != best {
		c.Fail("text %+q (normalized %+q): the path costs %d, the minimum is %d\npath: %v", text, b, total, best, path)
	}
	c.Count("candidates", len(cs))
	c.Count("path_nodes", len(path))
	sig := ""
	if len(cs) > len(path) {
		sig = text + fmt.Sprint(total)
		c.Count("texts_with_choice", 1)
	}
	c.Eval(sig)
	c.Sample(func() interface{} {
		return map[string]interface{}{"text": text, "normalized": string(b), "candidates": len(cs), "cost": total, "path": fmt.Sprint(path)}
	})
}

// runC02Long: path costs beyond 32 bits.
func runC02Long(c *Ctx) {
	w := genWorld(c.R, c.Dir, GenOpt{Users: 0, Input: 1, Path: 1, NoSplits: true, UTF16: 1})
	sign := c.R.Pick0(1, 1, -1)
	w.M = newMatrix(2, 2)
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			w.M.Cost[i][j] = int16(sign * (32766 - c.R.N(3)))
			w.M.Set[i][j] = true
		}
	}
	w.Sys = &DictSrc{}
	for _, h := range []string{"a", "b", "ab", "東京", "五"} {
		w.Sys.Entries = append(w.Sys.Entries, &Entry{Head: h, L: c.R.N(2), R: c.R.N(2), C: sign * c.R.Range(32700, 32767), Surf: h, Pos: posOOV, DF: -1, Unit: "A"})
	}
	w.Sys.Entries[4].Pos = posNumeric
	w.CharDef, w.Cat = "DEFAULT 0 1 0\n", nil
	w.Pl = PluginCfg{Oov: []oovCfg{{Kind: "simple", Pos: posOOV}}}
	w.Cat = parseCatModel(w.CharDef)
	w.CharDef = "DEFAULT 0 1 0\n0x0061..0x0062 USER1\n"
	if err := w.Build(); err != nil {
		c.Setup("%v", err)
	}
	op, err := w.Open(-1, true)
	if err != nil {
		c.Setup("%v", err)
	}
	defer op.Close()
	n := c.R.Pick0(c.R.Range(42000, 46000), c.R.Range(66000, 68000)) // more than 32800 words
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(c.R.Pick([]string{"a", "a", "a", "a", "b"}))
	}
	checkC02(c, w, op, b.String())
	c.Count("long_texts", 1)
}

// ---- C06 --------------------------------------------------------------------

// unitIds are the units of a dictionary word for a mode, nil if it has none.
func (w *World) unitIds(wid int, mode string) []int {
	_, _, e := w.Word(wid)
	if e == nil {
		return nil
	}
	rs := e.A
	if mode == "B" {
		rs = e.B
	}
	if len(rs) < 2 {
		return nil
	}
	return w.Resolve(wid>>28, rs)
}

func runC06(c *Ctx) {
	o := GenOpt{Users: -1, Forbid: 5, Narrow: c.R.P(60), NoOOVHoles: true}
	if c.R.P(40) {
		o.Path = 1
	}
	long := c.Idx%6000 == 13
	if long {
		o.Forbid, o.Long = 0, true
	}
	w, op := mustWorld(c, o)
	defer op.Close()
	op.Rec.Light = true
	for t := 0; t < 25; t++ {
		text := w.Text(c.R, textLen(c.R), o)
		if long && t == 0 {
			text = w.LongText(c.R, o)
			c.Count("texts_beyond_16_bits", 1)
		}
		lc, err := op.T.Tokenize("C", text)
		if err != nil {
			for _, m := range []string{"A", "B"} {
				if _, err2 := op.T.Tokenize(m, text); err2 == nil {
					c.Fail("text %+q fails in mode C (%v) but not in mode %s", text, err, m)
				}
			}
			continue
		}
		mc := readList(lc)
		// mode C is the segmentation after path rewriting
		var path []NodeSnap
		if len(op.Rec.Paths) > 0 {
			path = op.Rec.Paths[len(op.Rec.Paths)-1]
		}
		in := op.Rec.Input
		op.Rec.Reset()
		if text != "" {
			if len(path) != len(mc) {
				c.Fail("text %+q: mode C gives %d morphemes, the segmentation has %d: %v / %v", text, len(mc), len(path), mc, path)
			}
			for i, n := range path {
				if mc[i].Wid != n.Wid || mc[i].Oov != n.Oov || mc[i].Norm != n.WI.NormalizedForm || mc[i].Begin != in.GetOriginalIndex(n.B) || mc[i].End != in.GetOriginalIndex(n.E) {
					c.Fail("text %+q: mode C morpheme %d is %+v, the segmentation has %v", text, i, mc[i], n)
				}
			}
		}
		interesting := false
		for k, mode := range []string{"A", "B"} {
			if long && t == 0 && k == c.Idx/6000%2 {
				continue
			}
			l, err := op.T.Tokenize(mode, text)
			if err != nil {
				c.Fail("text %+q fails in mode %s only: %v", text, mode, err)
			}
			got := readList(l)
			op.Rec.Reset()
			k := 0
			for i, m := range mc {
				var ids []int
				if m.DictId >= 0 && !m.Oov {
					ids = w.unitIds(m.Wid, mode)
				}
				sub := readList(lc.Get(i).Split(mode))
				if len(ids) == 0 {
					if len(sub) != 1 || sub[0] != m {
						c.Fail("text %+q: morpheme %+v has no %s units, but splits to %+v", text, m, mode, sub)
					}
				} else {
					interesting = true
					c.Count("split_words_"+mode, 1)
					if len(sub) != len(ids) {
						c.Fail("text %+q: morpheme %+v splits in mode %s to %+v, expected the words %x", text, m, mode, sub, ids)
					}
					// units one after another, from the begin of the word
					off := path[i].B
					for j, id := range ids {
						_, _, e := w.Word(id)
						if sub[j].Wid != id {
							c.Fail("text %+q: unit %d of %+v in mode %s is word %x, expected %x", text, j, m, mode, sub[j].Wid, id)
						}
						b := in.GetOriginalIndex(off)
						off += len(e.Head)
						en := in.GetOriginalIndex(off)
						if sub[j].Begin != b || sub[j].End != en {
							c.Fail("text %+q: unit %d of %+v in mode %s has the span [%d,%d), expected [%d,%d)", text, j, m, mode, sub[j].Begin, sub[j].End, b, en)
						}
						if msg := w.compareEntry(sub[j]); msg != "" {
							c.Fail("text %+q: unit %d of %+v in mode %s: %s", text, j, m, mode, msg)
						}
					}
				}
				for _, s := range sub {
					if k >= len(got) || got[k] != s {
						c.Fail("text %+q: mode %s gives %+v at %d, splitting mode C gives %+v\nmode %s: %+v", text, mode, at(got, k), k, s, mode, got)
					}
					k++
				}
				if long && t == 0 && i%50 > 0 {
					continue
				}
				same := readList(lc.Get(i).Split("C"))
				if len(same) != 1 || same[0] != m {
					c.Fail("text %+q: splitting %+v in mode C gives %+v", text, m, same)
				}
			}
			if k != len(got) {
				c.Fail("text %+q: mode %s gives %d morphemes, splitting mode C %d", text, mode, len(got), k)
			}
		}
		sig := ""
		if interesting {
			sig = text
		}
		c.Eval(sig)
		if interesting {
			c.Sample(func() interface{} { return map[string]interface{}{"text": text, "C": surfaces(mc)} })
		}
	}
}

func at(ms []Morph, i int) interface{} {
	if i < len(ms) {
		return ms[i]
	}
	return "nothing"
}

// compareEntry compares a dictionary morpheme with its source entry.
func (w *World) compareEntry(m Morph) string {
	src, i, e := w.Word(m.Wid)
	if e == nil {
		return fmt.Sprintf("%+v has no source entry", m)
	}
	if m.DictId != m.Wid>>28 {
		return fmt.Sprintf("%+v reports dictionary %d for word %x", m, m.DictId, m.Wid)
	}
	if m.Oov {
		return fmt.Sprintf("%+v is marked OOV", m)
	}
	if want := strings.Join(e.Pos[:], "\x01"); m.Pos != want {
		return fmt.Sprintf("%+v has part of speech %q, its entry has %q", m, m.Pos, want)
	}
	if m.Norm != e.Normalized() {
		return fmt.Sprintf("%+v has normalized form %q, its entry has %q", m, m.Norm, e.Normalized())
	}
	if m.Rdg != e.Reading() {
		return fmt.Sprintf("%+v has reading %q, its entry has %q", m, m.Rdg, e.Reading())
	}
	if want := src.DictForm(i); m.Dict != want {
		return fmt.Sprintf("%+v has dictionary form %q, its entry refers to %q", m, m.Dict, want)
	}
	return ""
}

// ---- C07 --------------------------------------------------------------------

func runC07(c *Ctx) {
	o := GenOpt{Users: -1, Forbid: 3, Narrow: c.R.P(60), Path: 1, NoOOVHoles: c.R.P(70)}
	if c.R.P(40) {
		o.Input = 1
	}
	if c.R.P(30) {
		// joined words are made of the surfaces of their parts
		o.Path, o.SurfEqHead = 0, true
	}
	long := c.Idx%2000 == 13
	if long {
		o.Forbid, o.NoOOVHoles, o.Long = 0, true, true
	}
	w, op := mustWorld(c, o)
	defer op.Close()
	numeric := false
	for _, p := range w.Pl.Path {
		if p.Kind == "numeric" {
			numeric = true
		}
	}
	katakana := false
	for _, p := range w.Pl.Path {
		if p.Kind == "katakana" {
			katakana = true
		}
	}
	for t := 0; t < 20; t++ {
		text := w.Text(c.R, textLen(c.R), o)
		modes := modes
		if long && t == 0 {
			text, modes = w.LongText(c.R, o), []string{c.R.Pick(modes)}
			c.Count("texts_beyond_16_bits", 1)
		}
		for _, mode := range modes {
			op.Rec.Reset()
			l, err := op.T.Tokenize(mode, text)
			if err != nil || text == "" {
				continue
			}
			in := op.Rec.Input
			ms := readList(l)
			// The spans in the normalized text: those of the path, or of
			// the units of its words.
			type span struct{ b, e int }
			var spans []span
			for _, n := range op.Rec.Paths[len(op.Rec.Paths)-1] {
				var ids []int
				if n.Dict >= 0 && !n.Oov && mode != "C" {
					ids = w.unitIds(n.Wid, mode)
				}
				if len(ids) == 0 {
					spans = append(spans, span{n.B, n.E})
					continue
				}
				off := n.B
				for _, id := range ids {
					_, _, e := w.Word(id)
					spans = append(spans, span{off, off + len(e.Head)})
					off += len(e.Head)
				}
			}
			if len(spans) != len(ms) {
				c.Count("span_mismatch_skipped", 1) // C06 decides this
				continue
			}
			oovs := map[string][]string{} // span -> offered parts of speech
			for _, k := range op.Rec.Calls {
				cfg := w.Pl.Oov[k.Provider]
				for _, n := range k.Nodes {
					p := cfg.Pos[:]
					if cfg.Kind == "mecab" {
						p = nil
						for _, u := range w.Unk {
							if u.L == n.L && u.R == n.R && u.C == n.C {
								oovs[fmt.Sprint(n.B, "-", n.E)] = append(oovs[fmt.Sprint(n.B, "-", n.E)], strings.Join(u.Pos[:], "\x01"))
							}
						}
						continue
					}
					oovs[fmt.Sprint(n.B, "-", n.E)] = append(oovs[fmt.Sprint(n.B, "-", n.E)], strings.Join(p, "\x01"))
				}
			}
			for i, m := range ms {
				if spans[i].b < 0 || spans[i].e > len(in.Bytea) || spans[i].b > spans[i].e {
					c.Fail("text %+q: morpheme %+v covers [%d,%d) of %d bytes", text, m, spans[i].b, spans[i].e, len(in.Bytea))
				}
				cover := string(in.Bytea[spans[i].b:spans[i].e])
				switch {
				case m.Oov:
					c.Count("oov_morphemes", 1)
					if m.DictId != -1 {
						c.Fail("text %+q: the OOV morpheme %+v reports dictionary %d", text, m, m.DictId)
					}
					if m.Norm != cover || m.Dict != cover {
						c.Fail("text %+q: the OOV morpheme %+v covers %+q", text, m, cover)
					}
					if m.Rdg != "" {
						c.Fail("text %+q: the OOV morpheme %+v has a reading", text, m)
					}
					ps := oovs[fmt.Sprint(spans[i].b, "-", spans[i].e)]
					if katakana {
						ps = append(ps, strings.Join(posOOV[:], "\x01"))
					}
					found := false
					for _, p := range ps {
						if p == m.Pos {
							found = true
						}
					}
					if !found {
						c.Fail("text %+q: the OOV morpheme %+v has part of speech %q, configured for it: %q", text, m, m.Pos, ps)
					}
				case m.DictId >= 0:
					c.Count("dictionary_morphemes", 1)
					if msg := w.compareEntry(m); msg != "" {
						c.Fail("text %+q, mode %s: %s", text, mode, msg)
					}
					_, _, e := w.Word(m.Wid)
					if e.Head != cover {
						c.Fail("text %+q, mode %s: %+v covers %+q of the normalized text, its headword is %+q", text, mode, m, cover, e.Head)
					}
					if m.DictId > 0 {
						c.Count("user_morphemes", 1)
					}
					c.Eval(fmt.Sprint(m.Wid, e.Head, m.Pos, m.Rdg))
					c.Sample(func() interface{} {
						return map[string]interface{}{"text": text, "mode": mode, "morpheme": fmt.Sprintf("%+v", m)}
					})
				default:
					if !numeric {
						c.Fail("text %+q: %+v is neither a dictionary word nor OOV", text, m)
					}
				}
			}
		}
	}
}

// ---- C13 --------------------------------------------------------------------

func runC13(c *Ctx) {
	r := c.R
	if c.Idx%10 == 9 {
		runC13Malformed(c)
		return
	}
	w := genWorld(r, c.Dir, GenOpt{Users: 0, NoSplits: true, Path: 1, Input: 1, DefaultChar: 1, NoOOVHoles: true})
	n := 1 + r.N(3)
	for i := 0; i < n; i++ {
		k := r.Pick([]string{"default", "default", "prolonged", "prolonged", "custom"})
		cfg := genInput(r, w, k)
		if k == "prolonged" {
			if r.P(12) {
				cfg.Sym = ""
			}
			if r.P(20) {
				cfg.Marks = append(cfg.Marks, "長音")
			}
		}
		w.Pl.Input = append(w.Pl.Input, cfg)
	}
	w.Pl.Oov = []oovCfg{{Kind: "mecab"}, {Kind: "simple", Pos: posOOV}}
	if err := w.Build(); err != nil {
		c.Setup("%v", err)
	}
	op, err := w.Open(-1, true)
	if err != nil {
		x := *w
		x.Pl.Input = nil
		if op, e := x.Open(-1, false); e == nil {
			op.Close()
			c.Fail("well-formed replacement lists or marks were refused: %v\n%+v", err, w.Pl.Input)
		}
		c.Setup("%v", err)
	}
	defer op.Close()
	// what the replacement lists mention is put into the texts
	var frag []string
	for _, cfg := range w.Pl.Input {
		if cfg.Kind == "default" {
			d := defaultRewrite()
			if cfg.Def != "" {
				d = parseRewriteDef(cfg.Def)
			}
			var ks []string
			for k := range d.Repl {
				ks = append(ks, k)
			}
			for k := range d.Ignore {
				ks = append(ks, string(k))
			}
			sort.Strings(ks)
			for i := 0; i < 20 && len(ks) > 0; i++ {
				frag = append(frag, r.Pick(ks))
			}
		}
		for _, m := range cfg.Marks {
			frag = append(frag, m, m+m, m+m+m)
			if r.P(2) { // a long run
				frag = append(frag, strings.Repeat(m, r.Pick0(8, 16, 17, 32, 64, 127, 128, 129, 255, 256, 257, 300, 1000)))
			}
		}
	}
	for t := 0; t < 30; t++ {
		var b strings.Builder
		for i := textLen(r); i >= 0; i-- {
			switch {
			case len(frag) > 0 && r.P(55):
				f := r.Pick(frag)
				if rs := []rune(f); len(rs) > 1 && r.P(20) {
					f = string(rs[:len(rs)-1])
				}
				b.WriteString(f)
			case r.P(40):
				b.WriteRune(r.PickRune(abRaw))
			default:
				b.WriteString(w.Text(r, 1, GenOpt{}))
			}
		}
		text := b.String()
		if text == "" {
			continue
		}
		if t == 0 && c.Idx%9000 == 21 {
			text = repeatTo(text+"。漢", r.Pick0(23000, 30000)) // positions beyond 16 bits
			c.Count("texts_beyond_16_bits", 1)
		}
		op.Rec.Reset()
		l, err := op.T.Tokenize("C", text)
		mt := newRText(text)
		for i := range op.Rec.Texts {
			if i > 0 {
				mt = w.Pl.Input[i-1].apply(mt)
			}
			if string(op.Rec.Texts[i]) != string(mt.Runes) {
				c.Fail("text %+q: after %d rewriting plugins (%s) the text is %+q, expected %+q", text, i, kinds(w), string(op.Rec.Texts[i]), string(mt.Runes))
			}
		}
		if len(op.Rec.Texts) != len(w.Pl.Input)+1 {
			c.Fail("text %+q: %d of %d rewriting plugins were called (error: %v)", text, len(op.Rec.Texts)-1, len(w.Pl.Input), err)
		}
		changed := string(mt.Runes) != string([]rune(text))
		if len(mt.Runes) == 0 {
			c.Count("all_deleted", 1)
			continue
		}
		if err != nil {
			c.Count("tokenize_errors", 1) // not this property's matter
			continue
		}
		in := op.Rec.Input
		if in.ModifiedText != string(mt.Runes) || string(in.Bytea) != string(mt.Runes) || in.GetText() != in.ModifiedText || string(in.GetByteText()) != in.ModifiedText {
			c.Fail("text %+q: the built text is %+q / %+q, expected %+q", text, in.ModifiedText, in.Bytea, string(mt.Runes))
		}
		if in.OriginalText != text {
			c.Fail("text %+q: the original text is kept as %+q", text, in.OriginalText)
		}
		off := 0
		for i, ch := range mt.Runes {
			for k := 0; k < len(string(ch)); k++ {
				if got := in.GetOriginalIndex(off + k); got != mt.Orig[i] {
					c.Fail("text %+q normalized to %+q: byte %d (character %d) maps to %d of the original, expected %d\nplugins: %+v", text, string(mt.Runes), off+k, i, got, mt.Orig[i], w.Pl.Input)
				}
				if got := in.GetOffsetTextLength(off + k); got != i {
					c.Fail("text %+q normalized to %+q: byte %d belongs to character %d, not %d", text, string(mt.Runes), off+k, i, got)
				}
			}
			off += len(string(ch))
		}
		if got := in.GetOriginalIndex(off); got != mt.Orig[len(mt.Runes)] {
			c.Fail("text %+q normalized to %+q: the end maps to %d of the original, expected %d", text, string(mt.Runes), got, mt.Orig[len(mt.Runes)])
		}
		// the morphemes report original positions
		path := op.Rec.Paths[len(op.Rec.Paths)-1]
		tm := newTextModel(mt.Runes, w.Cat)
		for i, m := range readList(l) {
			bi, ok1 := tm.at[path[i].B]
			ei, ok2 := tm.at[path[i].E]
			if !ok1 || !ok2 {
				c.Fail("text %+q normalized to %+q: a word covers bytes [%d,%d), not on character boundaries", text, string(mt.Runes), path[i].B, path[i].E)
			}
			if m.Begin != mt.Orig[bi] || m.End != mt.Orig[ei] {
				c.Fail("text %+q normalized to %+q: the word of characters [%d,%d) reports [%d,%d) of the original, expected [%d,%d)", text, string(mt.Runes), bi, ei, m.Begin, m.End, mt.Orig[bi], mt.Orig[ei])
			}
		}
		sig := ""
		if changed {
			sig = text + string(mt.Runes) + kinds(w)
			c.Count("texts_changed", 1)
			if len(mt.Runes) > len([]rune(text)) {
				c.Count("texts_grown", 1)
			} else if len(mt.Runes) < len([]rune(text)) {
				c.Count("texts_shrunk", 1)
			}
		}
		c.Eval(sig)
		if changed {
			c.Sample(func() interface{} {
				return map[string]interface{}{"text": text, "normalized": string(mt.Runes), "original_index": mt.Orig}
			})
		}
	}
}

func runC13Malformed(c *Ctx) {
	r := c.R
	if r.P(5) { // files that cannot be read
		for _, p := range []string{c.Dir, c.Dir + "/missing"} {
			if err := gs.NewDefaultInputTextPlugin(&gs.DefaultInputTextPluginConfig{RewriteDef: p}).SetUp(); err == nil {
				c.Fail("the replacement list %s, which cannot be read, was accepted", p)
			}
		}
		c.Count("unreadable_lists", 2)
	}
	w := genWorld(r, c.Dir, GenOpt{Users: 0, NoSplits: true, Path: 1, Input: 1, DefaultChar: 1, NoOOVHoles: true})
	w.Pl.Oov = []oovCfg{{Kind: "simple", Pos: posOOV}}
	if err := w.Build(); err != nil {
		c.Setup("%v", err)
	}
	base := genRewriteDef(r, w.alpha)
	bad := map[string]string{
		"three columns":              "あ い う",
		"four columns":               "x\ty\tz\tw",
		"ignored string of 2":        "ab",
		"ignored string of 2 (wide)": "東京",
		"duplicate key":              "qq z\nqq y",
		"duplicate key, same value":  "qq z\nqq z",
	}
	var names []string
	for k := range bad {
		names = append(names, k)
	}
	sort.Strings(names)
	name := names[r.N(len(names))]
	lines := strings.Split(strings.TrimRight(base, "\n"), "\n")
	at := r.N(len(lines) + 1)
	def := strings.Join(append(append(append([]string{}, lines[:at]...), bad[name]), lines[at:]...), "\n") + "\n"
	for _, k := range []struct {
		def string
		bad bool
	}{{base, false}, {def, true}} {
		w.Pl.Input = []inputCfg{{Kind: "default", Def: k.def}}
		op, err := w.Open(-1, false)
		if err == nil {
			op.Close()
		}
		if (err != nil) != k.bad {
			c.Fail("replacement list (%s: %v) opened with error %v:\n%s", name, k.bad, err, k.def)
		}
	}
	c.Count("malformed_lists", 1)
	c.Eval("malformed " + def)
}

// ---- C14 --------------------------------------------------------------------

func runC14(c *Ctx) {
	r := c.R
	if c.Idx%5 == 4 {
		runC14Malformed(c)
		return
	}
	o := GenOpt{Users: 0, Forbid: 0, Narrow: r.P(50), NoSplits: true, Path: 1, DefaultChar: r.Pick0(0, 2)}
	if r.P(50) {
		o.Input = 1
	}
	w := genWorld(r, c.Dir, o)
	if c.Idx%600 == 33 {
		w.UseDefaultDefinitions(r)
		c.Count("cases_with_the_embedded_definitions", 1)
	}
	if err := w.Build(); err != nil {
		c.Setup("%v", err)
	}
	op, err := w.Open(-1, true)
	if err != nil {
		w.definitionsRefused(c, err)
	}
	defer op.Close()
	var chars []rune // from the definition's ranges
	for _, rg := range w.Cat.ranges {
		if rg.hi < 0x110000 {
			chars = append(chars, rg.lo, rg.hi)
			if rg.hi+1 < 0x110000 {
				chars = append(chars, rg.hi+1)
			}
			if rg.lo > 1 {
				chars = append(chars, rg.lo-1)
			}
		}
	}
	for t := 0; t < 20; t++ {
		text := w.Text(r, textLen(r), o)
		if r.P(50) {
			var b strings.Builder
			for i := r.Range(1, 10); i > 0; i-- {
				if r.P(50) {
					b.WriteString(genWord(r, abWords, 3))
				} else if ch := r.PickRune(chars); ch < 0xd800 || ch > 0xdfff {
					b.WriteRune(ch)
					if r.P(30) {
						b.WriteRune(ch)
					}
				}
			}
			text = b.String()
		}
		if text == "" {
			continue
		}
		if t == 0 && c.Idx%9000 == 21 {
			text = w.LongText(r, o)
			c.Count("texts_beyond_16_bits", 1)
		}
		op.Rec.Reset()
		_, err := op.T.Tokenize("C", text)
		rs := []rune(text)
		if n := len(op.Rec.Texts); n > 0 {
			rs = op.Rec.Texts[n-1]
		}
		if len(rs) == 0 {
			continue
		}
		tm := newTextModel(rs, w.Cat)
		b := []byte(string(rs))
		calls := callsAt(op.Rec.Calls)
		reach := map[int]bool{0: true}
		hole := false
		checked := 0
		oovAt := map[string]bool{}
		for i := range rs {
			off := tm.Off[i]
			got := calls[off]
			delete(calls, off)
			if !reach[off] || !tm.Bow[i] {
				if len(got) > 0 {
					c.Fail("text %+q (normalized %+q): an OOV word was asked for at character %d, where no word can start (categories %x after %x)\n%s", text, string(rs), i, tm.Types[i], prevType(tm, i), w.CharDef)
				}
				continue
			}
			has := false
			for _, m := range w.Sys.Match(b, off) {
				has = true
				reach[m.end] = true
			}
			// the providers in order, then the default one if there is nothing
			k := 0
			ask := func(p int) {
				if k >= len(got) {
					c.Fail("text %+q (normalized %+q): OOV provider %d (%s) was not asked at character %d\n%s", text, string(rs), p, w.Pl.Oov[p].Kind, i, w.CharDef)
				}
				g := got[k]
				k++
				if g.Provider != p {
					c.Fail("text %+q (normalized %+q): OOV provider %d was asked at character %d, expected provider %d", text, string(rs), g.Provider, i, p)
				}
				if g.Has != has {
					c.Fail("text %+q (normalized %+q): provider %d at character %d was told hasOtherWords=%v, expected %v", text, string(rs), p, i, g.Has, has)
				}
				var want []oovCand
				cfg := w.Pl.Oov[p]
				switch cfg.Kind {
				case "mecab":
					want = tm.mecabOOV(i, has, w.Cat, w.Unk)
				case "simple":
					if !has {
						want = []oovCand{{off, tm.Off[i+1], cfg.L, cfg.R, cfg.C, cfg.Pos}}
					}
				default:
					for _, n := range g.Nodes {
						if n.E > n.B {
							has = true
							reach[n.E] = true
							oovAt[fmt.Sprint(n.B, n.E, n.L, n.R, n.C)] = true
						}
					}
					return
				}
				cmpOOV(c, w, op, text, string(rs), i, p, has, g.Nodes, want)
				checked++
				for _, x := range want {
					has = true
					reach[x.End] = true
					oovAt[fmt.Sprint(x.Begin, x.End, x.L, x.R, x.C)] = true
				}
				if len(want) > 0 {
					c.Count("oov_words", len(want))
				}
			}
			if tm.Types[i]&cNOOOVBOW == 0 {
				for p := range w.Pl.Oov {
					ask(p)
				}
			}
			if !has {
				ask(0)
			}
			if k != len(got) {
				c.Fail("text %+q (normalized %+q): %d requests for OOV words at character %d, expected %d", text, string(rs), len(got), i, k)
			}
			if !has {
				hole = true
				break
			}
		}
		for off := range calls {
			c.Fail("text %+q (normalized %+q): an OOV word was asked for at byte %d", text, string(rs), off)
		}
		if hole != (err != nil && op.Rec.Lattice == nil) && hole {
			c.Fail("text %+q (normalized %+q): nothing is offered somewhere, but tokenization succeeds", text, string(rs))
		}
		if err == nil { // what was offered is in the lattice
			for _, n := range op.Rec.Lattice {
				if n.Oov {
					delete(oovAt, fmt.Sprint(n.B, n.E, n.L, n.R, n.C))
				}
			}
			for k := range oovAt {
				c.Fail("text %+q (normalized %+q): the OOV word (begin, end, left, right, cost) %s is not in the lattice", text, string(rs), k)
			}
			// the categories as the input text reports them
			in := op.Rec.Input
			for i := range rs {
				if g := in.GetCharCategoryTypes(tm.Off[i]); g != tm.Types[i] {
					c.Fail("text %+q: character %q has categories %x, the definition gives %x\n%s", text, rs[i], g, tm.Types[i], w.CharDef)
				}
				if g, want := in.GetCharCategoryContinuousLength(tm.Off[i]), tm.Off[tm.Cont[i]]-tm.Off[i]; g != want {
					c.Fail("text %+q (normalized %+q): the run of a common category at character %d has %d bytes, expected %d", text, string(rs), i, g, want)
				}
				if g := in.CanBow(tm.Off[i]); g != tm.Bow[i] {
					c.Fail("text %+q (normalized %+q): character %d may begin a word: %v, expected %v", text, string(rs), i, g, tm.Bow[i])
				}
			}
		}
		sig := ""
		if checked > 1 {
			sig = text + w.UnkText + kinds(w)
		}
		c.Count("provider_calls_compared", checked)
		c.Eval(sig)
		c.Sample(func() interface{} {
			return map[string]interface{}{"text": text, "char_def": clip(w.CharDef, 400), "unk_def": clip(w.UnkText, 300), "calls": len(op.Rec.Calls)}
		})
	}
}

func prevType(t *TextModel, i int) uint32 {
	if i == 0 {
		return 0
	}
	return t.Types[i-1]
}

func cmpOOV(c *Ctx, w *World, op *Opened, text, normd string, i, p int, has bool, got []NodeSnap, want []oovCand) {
	// at the end of the text the same word may be offered more than once
	g, x := map[string]int{}, map[string]int{}
	last := map[string]bool{}
	for _, n := range got {
		s := ""
		if n.WI.PosId >= 0 {
			s = strings.Join(op.Rec.Grammar.GetPartOfSpeechString(n.WI.PosId), ",")
		}
		g[fmt.Sprintf("[%d,%d) %d/%d/%d %s oov=%v", n.B, n.E, n.L, n.R, n.C, s, n.Oov)]++
	}
	for _, n := range want {
		k := fmt.Sprintf("[%d,%d) %d/%d/%d %s oov=%v", n.Begin, n.End, n.L, n.R, n.C, strings.Join(n.Pos[:], ","), true)
		x[k]++
		last[k] = n.End == len(normd)
	}
	for k, n := range g {
		if last[k] && n > x[k] {
			g[k] = x[k]
		}
	}
	if fmt.Sprint(g) != fmt.Sprint(x) {
		c.Fail("text %+q (normalized %+q): provider %d (%s) at character %d (other words: %v) offers %v, the definitions prescribe %v\n%s\n%s", text, normd, p, w.Pl.Oov[p].Kind, i, has, g, x, w.CharDef, w.UnkText)
	}
	for _, n := range got {
		s := normd[n.B:n.E]
		if n.WI.Surface != s || n.WI.NormalizedForm != s || n.WI.DictionaryForm != s {
			c.Fail("text %+q (normalized %+q): the OOV word at character %d is %v, the text there is %+q", text, normd, i, n, s)
		}
	}
}

// definitionsRefused reports that the dictionary cannot be opened, if that is due
// to its definitions.
func (w *World) definitionsRefused(c *Ctx, err error) {
	x := *w
	x.CharDef = ""
	x.Pl.Oov = []oovCfg{{Kind: "simple", Pos: posOOV}}
	if op, e := x.Open(-1, false); e == nil {
		op.Close()
		c.Fail("well-formed definitions were refused: %v\n%s\n%s", err, w.CharDef, w.UnkText)
	}
	c.Setup("opening: %v", err)
}

// unreadableDefinitions reads the definitions in pieces, with failures, and from
// what is not a file.
func (w *World) unreadableDefinitions(c *Ctx, g *dictionary.Grammar) {
	r := c.R
	for i := 0; i < 6; i++ {
		hit := false
		rd := &pieceReader{b: []byte(w.CharDef), r: r, failAt: -1, eof: r.P(50), small: r.P(30), hit: func() { hit = true }}
		if i%2 == 1 {
			rd.failAt = r.N(len(w.CharDef) + 1)
		}
		cc := dictionary.NewCharacterCategory()
		err := cc.ReadCharacterDefinition(rd)
		if hit {
			if err == nil {
				c.Fail("the character definition was accepted although reading failed after %d of %d bytes", rd.failAt, len(w.CharDef))
			}
			continue
		}
		if err != nil {
			c.Fail("the character definition was refused when read in pieces: %v", err)
		}
		for k := 0; k < 200; k++ {
			ch := rune(r.N(0x11000))
			if x := w.Cat.ranges; len(x) > 0 && r.P(70) {
				g := x[r.N(len(x))]
				ch = r.PickRune([]rune{g.lo, g.hi, g.lo - 1, g.hi + 1})
			}
			if got := cc.GetCategoryTypes(ch); got != w.Cat.Types(ch) {
				c.Fail("character %x has the categories %x, the definition says %x\n%s", ch, got, w.Cat.Types(ch), w.CharDef)
			}
		}
	}
	cd, ud := w.write("c.def", w.CharDef), w.write("u.def", w.UnkText)
	for _, bad := range []string{c.Dir, c.Dir + "/missing"} {
		for _, p := range [][2]string{{bad, ud}, {cd, bad}} {
			pl := gs.NewMeCabOovProviderPlugin(&gs.MeCabOovProviderPluginConfig{CharDef: &p[0], UnkDef: &p[1]})
			if err := pl.SetUp(g); err == nil {
				c.Fail("definitions that cannot be read were accepted: %v", p)
			}
		}
		x := *w
		cfg := x.config(0)
		cfg.CharacterDefinitionFile = bad
		in, oov, path := x.plugins(nil, "bad")
		d, err := gs.NewJapaneseDictionary(cfg, in, oov, path, nil)
		if err == nil {
			d.Close()
			c.Fail("a character definition that cannot be read was accepted: %s", bad)
		}
	}
	c.Count("unreadable_definitions", 1)
}

func runC14Malformed(c *Ctx) {
	r := c.R
	w := genWorld(r, c.Dir, GenOpt{Users: 0, NoSplits: true, Path: 1, Input: 1, DefaultChar: 2, NoOOVHoles: true})
	w.Pl.Oov = []oovCfg{{Kind: "mecab"}}
	if r.P(50) {
		w.Pl.Oov = append(w.Pl.Oov, oovCfg{Kind: "simple", Pos: posOOV})
	}
	if err := w.Build(); err != nil {
		c.Setup("%v", err)
	}
	goodC, goodU := w.CharDef, w.UnkText
	undefined := ""
	for i, n := range catNames {
		if _, ok := w.Cat.info[1<<uint(i)]; !ok {
			undefined = n
		}
	}
	p := "名詞,普通名詞,一般,*,*,*"
	type mal struct {
		name string
		unk  bool
		line string
	}
	mals := []mal{
		{"unknown category of a range", false, "0x3042 NOSUCH"},
		{"unknown second category of a range", false, "0x3042 KANJI NOSUCH"},
		{"range without category", false, "0x3042"},
		{"range upside down", false, "0x3043..0x3042 KANJI"},
		{"not hexadecimal", false, "0x30zz KANJI"},
		{"no digits", false, "0x KANJI"},
		{"end not hexadecimal", false, "0x3041..3042 KANJI"},
		{"end not a number", false, "0x3041..0xQQ KANJI"},
		{"empty end", false, "0x3041.. KANJI"},
		{"too large", false, "0xFFFFFFFFFF KANJI"},
		{"unknown category", false, "NOSUCH 0 1 2"},
		{"category defined twice", false, "DEFAULT 0 1 2"},
		{"category with too few fields", false, "USER4X 0 1"},
		{"category length not a number", false, "?"},
		{"lower case category", false, "0x3042 kanji"},
		{"OOV of unknown category", true, "NOSUCH,0,0,0," + p},
		{"OOV with too few columns", true, "DEFAULT,0,0,0,名詞"},
		{"OOV left id not a number", true, "DEFAULT,x,0,0," + p},
		{"OOV right id not a number", true, "DEFAULT,0,,0," + p},
		{"OOV cost not a number", true, "DEFAULT,0,0,1.5," + p},
		{"OOV cost out of range", true, "DEFAULT,0,0,40000," + p},
		{"OOV left id out of range", true, "DEFAULT,70000,0,0," + p},
		{"OOV left id outside the matrix", true, fmt.Sprintf("DEFAULT,%d,0,0,", w.M.R+r.N(3)*r.N(9)) + p},
		{"OOV right id outside the matrix", true, fmt.Sprintf("DEFAULT,0,%d,0,", w.M.L+r.N(3)*r.N(9)) + p},
		{"OOV id negative", true, r.Pick([]string{"DEFAULT,-1,0,0,", "DEFAULT,0,-1,0,", "DEFAULT,-32768,0,0,"}) + p},
		{"OOV part of speech unknown", true, "DEFAULT,0,0,0,無,い,*,*,*,*"},
	}
	if undefined != "" {
		mals = append(mals, mal{"OOV of undefined category", true, undefined + ",0,0,0," + p})
	}
	m := mals[r.N(len(mals))]
	if m.line == "?" {
		if undefined == "" {
			return
		}
		m.line = undefined + " 0 1 x"
	}
	insert := func(text, line string) string {
		text = strings.TrimRight(strings.ReplaceAll(text, "\r\n", "\n"), "\n")
		var ls []string
		if text != "" {
			ls = strings.Split(text, "\n")
		}
		at := r.N(len(ls) + 1)
		return strings.Join(append(append(append([]string{}, ls[:at]...), line), ls[at:]...), "\n") + "\n"
	}
	op, err := w.Open(-1, true)
	if err != nil {
		w.definitionsRefused(c, err)
	}
	if r.P(10) {
		w.unreadableDefinitions(c, op.Rec.Grammar)
	}
	op.Close()
	if m.unk {
		w.UnkText = insert(goodU, m.line)
	} else {
		w.CharDef = insert(goodC, m.line)
	}
	op, err = w.Open(-1, false)
	if err == nil {
		op.Close()
		c.Fail("definitions with %s (%q) were accepted\n%s\n%s", m.name, m.line, w.CharDef, w.UnkText)
	}
	c.Count("malformed_definitions", 1)
	c.Eval("malformed " + m.name + w.CharDef + w.UnkText)
}

func init() {
	register(&Check{ID: "C01", Quick: 18000, Run: runC01, MinDistinct: 1000,
		Rule: "random worlds (lexicons, matrices, char.def, plugins) and texts, each tokenized in 3 modes and all morphemes split; non-trivial: at least 2 morphemes; distinct by mode, text and plugins"})
	register(&Check{ID: "C02", Quick: 28000, Run: runC02, MinDistinct: 1000,
		Rule: "random worlds and texts; candidates from the sources and the recorded OOV offers, minimum by dynamic programming over right ids; non-trivial: more candidates than path nodes, or an expected failure; distinct by text and cost"})
	register(&Check{ID: "C06", Quick: 24000, Run: runC06, MinDistinct: 500,
		Rule: "random worlds with compound words (numeric, U and inline references) and texts; non-trivial: some word of the text has units in mode A or B; distinct by text"})
	register(&Check{ID: "C07", Quick: 18000, Run: runC07, MinDistinct: 1000,
		Rule: "random worlds (both encodings, user dictionaries) and texts in 3 modes; one evaluation per dictionary morpheme, distinct by word and attributes; OOV morphemes are counted separately"})
	register(&Check{ID: "C13", Quick: 45000, Run: runC13, MinDistinct: 1000,
		Rule: "random chains of rewriting plugins (default and random lists, prolonged marks, replacements of a custom plugin) and texts of list keys and unusual characters, compared with a model of the rewriting; every 10th case a malformed list; non-trivial: the text changes; distinct by text, result and plugins"})
	register(&Check{ID: "C14", Quick: 50000, Run: runC14, MinDistinct: 1000,
		Rule: "random character and OOV definitions (half of them generated, overlapping ranges) and texts on range borders; all provider calls and offers compared with a model; every 5th case a malformed definition; non-trivial: at least 2 calls compared; distinct by text, unk.def and plugins"})
}
