package main

// C08: several user dictionaries. C21: inhibited connections.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	gs "github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

func clamp16(n int) int {
	if n > 32767 {
		return 32767
	}
	if n < -32768 {
		return -32768
	}
	return n
}

// autoCost is the expected automatic cost of a surface form, from a recorded
// analysis; ok is false if the analysis fails.
func (o *Opened) autoCost(surface string) (cost, n int, ok bool) {
	o.Rec.Reset()
	l, err := o.T.Tokenize("C", surface)
	if err != nil {
		return 0, 0, false
	}
	if l.Length() == 0 {
		return 0, 0, true
	}
	p := o.Rec.Paths[len(o.Rec.Paths)-1]
	return clamp16(p[len(p)-1].C - p[0].C - 20*len(p)), len(p), true
}

// orderedWorld is a world whose users are the given ones of w, in that order.
func (w *World) orderedWorld(perm []int) *World {
	x := *w
	x.Users, x.UserPath = nil, nil
	for _, u := range perm {
		x.Users = append(x.Users, w.Users[u])
		x.UserPath = append(x.UserPath, w.UserPath[u])
	}
	return &x
}

func sameInts(a []int32, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if uint32(a[i]) != uint32(b[i]) {
			return false
		}
	}
	return true
}

// buildUserCmd builds a user dictionary with the command.
func buildUserCmd(c *Ctx, path, lex, sys string, utf16 bool) {
	src := path + ".csv"
	if err := os.WriteFile(src, []byte(lex), 0644); err != nil {
		c.Setup("%v", err)
	}
	args := []string{"-o", path, "-s", sys}
	if utf16 {
		args = append(args, "-j")
	}
	r := c.run(nil, "userdicbuilder", append(args, src)...)
	if r.Code != 0 {
		c.Fail("userdicbuilder refused a well-formed lexicon: status %d: %s\n%s", r.Code, r.Err, lex)
	}
}

func runC08(c *Ctx) {
	r := c.R
	nu := r.Pick0(0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 15, 15)
	o := GenOpt{Users: nu, Path: r.Pick0(0, 1), Input: r.Pick0(1, 1, 1, 0), Narrow: r.P(60), NoOOVHoles: r.P(90), AutoCost: r.P(70), Inhibit: false}
	w := genWorld(r, c.Dir, o)
	if r.P(30) { // words that win
		for _, u := range w.Users {
			for _, e := range u.Entries {
				if e.C != -32768 && r.P(60) {
					e.C = r.Range(-32767, -20000)
				}
			}
		}
	}
	crowded := c.Idx%1000 == 500 && nu > 1
	if crowded { // parts of speech that together are about as many as their numbers allow
		if nu > 3 {
			nu = 3
			w.Users = w.Users[:3]
		}
		total := len(w.Sys.PosList())
		for _, u := range w.Users {
			total += len(u.PosList())
		}
		more := 32768 + r.Pick0(0, 0, -1, 1, 2, 1000, 20000) - total
		for i, u := range w.Users {
			n := more / (nu - i)
			if i < nu-1 && n < 32000 {
				n = n*9/10 + r.N(n/10)
			}
			if n > 32000 {
				n = 32000
			}
			more -= n
			for k := 0; k < n; k++ {
				e := *u.Entries[0]
				e.L, e.C, e.A, e.B, e.W, e.DF = -1, 100, nil, nil, nil, -1
				e.Pos[3] = fmt.Sprintf("%d-%d", i, k)
				u.Entries = append(u.Entries, &e)
			}
			if last := *u.Entries[0]; true { // and a word that has the last of them
				last.Head += "ァァァァ"
				last.Surf, last.L, last.C = last.Head, 0, -30000
				last.A, last.B, last.W, last.DF = nil, nil, nil, -1
				last.Pos = u.Entries[len(u.Entries)-1].Pos
				u.Entries = append(u.Entries, &last)
			}
			u.byHead = nil
		}
	}
	users := w.Users
	w.Users = nil
	if err := w.Build(); err != nil {
		c.Setup("%v", err)
	}
	w.Users = users
	sysPos := map[[6]string]int{}
	for i, p := range w.Sys.PosList() {
		sysPos[p] = i
	}
	for i, u := range w.Users {
		p := w.sub(fmt.Sprintf("user%d.dic", i))
		old := len(u.PosList()) == 0 && r.P(40)
		csv := u.CSV()
		switch {
		case !old && r.P(6):
			buildUserCmd(c, p, csv, w.SysPath, w.UTF16)
			c.Count("built_by_command", 1)
		default:
			lex := []string{csv}
			if ls := strings.SplitAfter(csv, "\n"); len(ls) > 2 && r.P(20) {
				k := r.Range(1, len(ls)-2)
				lex = []string{strings.Join(ls[:k], ""), strings.Join(ls[k:], "")}
			}
			if err := buildUser(p, lex, w.SysPath, w.UTF16, 1500000001, "user", old); err != nil {
				c.Fail("a well-formed user dictionary was refused: %v\n%s", err, csv)
			}
			if old {
				c.Count("old_format", 1)
			}
		}
		w.UserPath = append(w.UserPath, p)
	}
	before, _ := os.ReadFile(w.SysPath)
	// what the system words look like without user dictionaries
	var sysNodes map[int]NodeSnap
	for k := 0; k < 3; k++ {
		var perm []int
		switch {
		case k == 0: // all in order
			for i := range users {
				perm = append(perm, i)
			}
		case nu == 0:
		default:
			perm = r.Perm(nu)[:r.Range(0, nu)]
			if r.P(20) { // more than there are, some twice
				for len(perm) < 15 && r.P(85) {
					perm = append(perm, r.N(nu))
				}
			}
		}
		if k == 0 && nu == 0 {
			perm = nil
		}
		if crowded {
			x, total := w.orderedWorld(perm), len(w.Sys.PosList())
			for _, u := range perm {
				total += len(w.Users[u].PosList())
			}
			if total > 32768 {
				op, err := x.Open(-1, true)
				if err == nil {
					op.Close()
					c.Fail("user dictionaries %v, with %d parts of speech in total, were accepted", perm, total)
				}
				c.Count("too_many_parts_of_speech_refused", 1)
				c.Eval(fmt.Sprint("crowded", c.Idx, perm))
				continue
			}
			c.Count("crowded_parts_of_speech", 1)
		}
		w.checkUsers(c, perm, sysPos, &sysNodes)
		if nu == 0 {
			break
		}
	}
	// one too many
	if nu > 0 {
		var perm []int
		for len(perm) < 15 {
			perm = append(perm, r.N(nu))
		}
		n := 16 + r.N(3)
		for len(perm) < n {
			perm = append(perm, r.N(nu))
		}
		x := w.orderedWorld(perm)
		if op, err := x.Open(-1, true); err == nil {
			op.Close()
			c.Fail("%d user dictionaries were accepted", n)
		}
		c.Count("too_many_refused", 1)
		c.Eval(fmt.Sprint("many", c.Idx))
	}
	if after, _ := os.ReadFile(w.SysPath); !bytes.Equal(before, after) {
		c.Fail("loading user dictionaries changed the file of the system dictionary")
	}
}

// checkUsers opens the dictionaries named by perm and checks all words.
func (w *World) checkUsers(c *Ctx, perm []int, sysPos map[[6]string]int, sysNodes *map[int]NodeSnap) {
	r := c.R
	x := w.orderedWorld(perm)
	// expected costs, from the dictionaries loaded before
	costs := make([]map[int]int, len(perm))
	okAll := true
	for j, u := range perm {
		costs[j] = map[int]int{}
		var pre *Opened
		for i, e := range w.Users[u].Entries {
			if e.C != -32768 {
				continue
			}
			if pre == nil {
				var err error
				y := *x
				y.Pl.Path = nil // the words themselves count, not what is joined from them
				pre, err = y.Open(j, true)
				if err != nil {
					c.Fail("opening with %d of the user dictionaries %v: %v", j, perm, err)
				}
			}
			cost, n, ok := pre.autoCost(e.Surf)
			if !ok {
				okAll = false
				c.Count("auto_cost_refused", 1)
				break
			}
			costs[j][i] = cost
			c.Count("auto_costs", 1)
			if n > 1 {
				c.Count("auto_costs_of_several_morphemes", 1)
			}
			if cost == 32767 || cost == -32768 {
				c.Count("auto_costs_limited", 1)
			}
		}
		if pre != nil {
			pre.Close()
		}
		if !okAll {
			if op, err := x.Open(-1, true); err == nil {
				op.Close()
				c.Fail("a word whose automatic cost cannot be calculated (no analysis of its surface form) was accepted\nusers %v, dictionary %d:\n%s", perm, j, w.Users[u].CSV())
			}
			c.Eval("refused")
			return
		}
	}
	op, err := x.Open(-1, true)
	if err != nil {
		c.Fail("opening the user dictionaries %v: %v", perm, err)
	}
	defer op.Close()
	describe := func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "users %v\nsystem:\n%s", perm, w.Sys.CSV())
		for _, u := range perm {
			fmt.Fprintf(&b, "user %d:\n%s", u, w.Users[u].CSV())
		}
		return b.String()
	}
	nsys := len(sysPos)
	newSys := map[int]NodeSnap{}
	all := append([]*DictSrc{w.Sys}, x.Users...)
	for d, src := range all {
		for i, e := range src.Entries {
			if !e.Indexed() || d == 0 && i > 12 && len(perm) > 4 && r.P(50) {
				continue
			}
			pre, post := "", ""
			if r.P(20) {
				pre, post = r.Pick([]string{"", "x", "東京"}), r.Pick([]string{"", "五", "a"})
			}
			text := pre + e.Head + post
			mode := r.Pick(modes)
			op.Rec.Reset()
			l, err := op.T.Tokenize(mode, text)
			if err != nil {
				c.Count("tokenize_errors", 1)
				continue
			}
			if op.Rec.Input == nil {
				continue
			}
			mod := string(op.Rec.Input.Bytea)
			off := strings.Index(mod, e.Head)
			if off < 0 || op.Rec.Input.GetText() != text {
				continue // rewritten
			}
			off = len(pre)
			wid := uint32(d)<<28 | uint32(i)
			var found []NodeSnap
			for _, n := range op.Rec.Lattice {
				if uint32(n.Wid) == wid && !n.Oov && n.B == off && n.E == off+len(e.Head) {
					found = append(found, n)
				}
			}
			reachable := false
			for _, n := range op.Rec.Lattice {
				if n.E == off {
					reachable = true
				}
			}
			if off == 0 {
				reachable = true
			}
			if !reachable || !op.Rec.Input.CanBow(off) {
				continue
			}
			if len(found) != 1 {
				c.Fail("text %+q: word %d of dictionary %d is %d times in the lattice at its place\nlattice: %v\n%s", text, i, d, len(found), op.Rec.Lattice, describe())
			}
			n := found[0]
			want := e.C
			if cost, ok := map[int]int(nil), false; d > 0 {
				cost = costs[d-1]
				if v, k := cost[i]; k {
					want, ok = v, k
				}
				_ = ok
			}
			if n.L != e.L || n.R != e.R || n.C != want || n.Dict != d {
				c.Fail("word %d %+q of dictionary %d has ids %d %d, cost %d, dictionary %d; expected %d %d %d %d\n%s", i, e.Head, d, n.L, n.R, n.C, n.Dict, e.L, e.R, want, d, describe())
			}
			if msg := w.checkInfo(x, op, d, i, n, sysPos, nsys); msg != "" {
				c.Fail("word %d %+q of dictionary %d: %s\n%s", i, e.Head, d, msg, describe())
			}
			c.Eval(fmt.Sprint(c.Idx, perm, d, i))
			if d > 0 {
				c.Count("user_words", 1)
				if _, ok := sysPos[e.Pos]; !ok {
					c.Count("user_words_with_own_part_of_speech", 1)
					if d > 1 {
						c.Count("user_words_with_own_part_of_speech_in_later_dictionaries", 1)
					}
				}
				if d > 7 {
					c.Count("user_words_of_dictionaries_8_to_15", 1)
				}
			} else {
				n.Ptr = nil
				n.B, n.E = 0, 0
				newSys[i] = n
			}
			// what the morphemes say
			for k := 0; k < l.Length(); k++ {
				m := l.Get(k)
				if m.IsOOV() || len(w.Pl.Path) > 0 && m.GetDictionaryId() < 0 { // a joined word
					continue
				}
				md := int(uint32(m.GetWordId()) >> 28)
				mi := int(uint32(m.GetWordId()) & 0xfffffff)
				if md >= len(all) || mi >= len(all[md].Entries) {
					c.Fail("text %+q: a morpheme has the word id %x\n%s", text, uint32(m.GetWordId()), describe())
				}
				me := all[md].Entries[mi]
				if m.GetDictionaryId() != md || strings.Join(m.PartOfSpeech(), "\x01") != strings.Join(me.Pos[:], "\x01") || m.ReadingForm() != me.Reading() || m.NormalizedForm() != me.Normalized() || m.DictionaryForm() != all[md].DictForm(mi) {
					c.Fail("text %+q: morpheme %+v differs from its entry\n%s", text, readMorph(m), describe())
				}
				if md > 0 {
					c.Count("user_morphemes", 1)
				}
				for _, sm := range []string{"A", "B"} {
					refs := me.A
					if sm == "B" {
						refs = me.B
					}
					if len(refs) < 2 {
						continue
					}
					ids := x.Resolve(md, refs)
					sp := m.Split(sm)
					if sp.Length() != len(ids) {
						c.Fail("text %+q: split %s of %+v has %d units, expected %d\n%s", text, sm, readMorph(m), sp.Length(), len(ids), describe())
					}
					for q, id := range ids {
						u := sp.Get(q)
						ue := all[uint32(id)>>28].Entries[id&0xfffffff]
						if uint32(u.GetWordId()) != uint32(id) || u.GetDictionaryId() != int(uint32(id)>>28) || strings.Join(u.PartOfSpeech(), "\x01") != strings.Join(ue.Pos[:], "\x01") || u.ReadingForm() != ue.Reading() || u.NormalizedForm() != ue.Normalized() {
							c.Fail("text %+q: unit %d of split %s of %+v is %+v (word %x), expected word %x, %v\n%s", text, q, sm, readMorph(m), readMorph(u), uint32(u.GetWordId()), uint32(id), ue, describe())
						}
						c.Count("split_units", 1)
					}
				}
			}
		}
	}
	// system words are the same with whatever user dictionaries
	if *sysNodes == nil {
		*sysNodes = newSys
	}
	for i, n := range newSys {
		o, ok := (*sysNodes)[i]
		if ok && fmt.Sprintf("%+v", o) != fmt.Sprintf("%+v", n) {
			c.Fail("system word %d is %+v with the user dictionaries %v, and %+v with others\n%s", i, n, perm, o, describe())
		}
	}
	if n := op.D.GetPartOfSpeechSize(); n < nsys {
		c.Fail("%d parts of speech, the system alone has %d", n, nsys)
	}
	c.Count("configurations", 1)
	c.Count("user_dictionaries_loaded", len(perm))
	if r.P(25) {
		w.checkLexiconSet(c, perm, describe)
	}
}

// checkLexiconSet asks a set made of the dictionaries directly.
func (w *World) checkLexiconSet(c *Ctx, perm []int, describe func() string) {
	r := c.R
	x := w.orderedWorld(perm)
	sys, err := dictionary.ReadSystemDictionary(x.SysPath, x.UTF16)
	if err != nil {
		c.Fail("the system dictionary cannot be opened: %v", err)
	}
	defer sys.Close()
	set := dictionary.NewLexiconSet(sys.Lexicon)
	all := append([]*DictSrc{w.Sys}, x.Users...)
	pos := map[[6]string]int{}
	for i, p := range w.Sys.PosList() {
		pos[p] = i
	}
	nsys := len(pos)
	total := nsys
	posIn := []map[[6]string]int{pos}
	size := len(w.Sys.Entries)
	for i, p := range x.UserPath {
		u, err := dictionary.ReadUserDictionary(p, x.UTF16)
		if err != nil {
			c.Fail("user dictionary %d cannot be opened: %v", i, err)
		}
		defer u.Close()
		if set.IsFull() {
			c.Fail("a set of %d dictionaries is full", i+1)
		}
		set.Add(u.Lexicon, int32(total))
		own := map[[6]string]int{}
		for k, q := range x.Users[i].PosList() {
			own[q] = total + k
		}
		posIn = append(posIn, own)
		total += len(own)
		size += len(x.Users[i].Entries)
		if n := u.Lexicon.Size(); int(n) != len(x.Users[i].Entries) {
			c.Fail("user dictionary %d has the size %d, its source has %d words", i, n, len(x.Users[i].Entries))
		}
	}
	if set.IsFull() != (len(all) >= 16) {
		c.Fail("a set of %d dictionaries: full is %v", len(all), set.IsFull())
	}
	if n := set.Size(); int(n) != size {
		c.Fail("the set has the size %d, the sources have %d words\n%s", n, size, describe())
	}
	// every word, also those that no text reaches
	for d, src := range all {
		for i, e := range src.Entries {
			if len(src.Entries) > 200 && r.P(95) || d == 0 && r.P(50) {
				continue
			}
			id := int32(uint32(d)<<28 | uint32(i))
			if set.GetDictionaryId(id) != d {
				c.Fail("word %x is said to be of dictionary %d", uint32(id), set.GetDictionaryId(id))
			}
			wi := set.GetWordInfo(id)
			wp, ok := pos[e.Pos]
			if !ok {
				wp = posIn[d][e.Pos]
			}
			if int(wi.PosId) != wp || wi.Surface != e.Surf || wi.NormalizedForm != e.Normalized() || wi.ReadingForm != e.Reading() || wi.DictionaryForm != src.DictForm(i) || int(wi.HeadwordLength) != len(e.Head) ||
				!sameInts(wi.AUnitSplit, x.Resolve(d, e.A)) || !sameInts(wi.BUnitSplit, x.Resolve(d, e.B)) || !sameInts(wi.WordStructure, x.Resolve(d, e.W)) {
				c.Fail("word %d of dictionary %d is %+v, part of speech expected %d, entry %+v\n%s", i, d, wi, wp, e, describe())
			}
			if int(set.GetLeftId(id)) != e.L || int(set.GetRightId(id)) != e.R || int(set.GetCost(id)) != e.C {
				c.Fail("word %d of dictionary %d has the ids %d %d and the cost %d, entry %+v\n%s", i, d, set.GetLeftId(id), set.GetRightId(id), set.GetCost(id), e, describe())
			}
			c.Count("set_words", 1)
			// by its name: own parts of speech are numbered anew, and not found by that number
			if !ok || len(src.Entries) > 200 {
				continue
			}
			want := int32(-1)
			reading := e.Reading()
			head := e.Surf
			if r.P(10) {
				reading += "x"
			} else if r.P(10) {
				head += "x"
			}
			for k := 1; k <= len(all); k++ {
				dd := k % len(all)
				for j, f := range all[dd].Entries {
					if f.Surf == head && f.Pos == e.Pos && f.Reading() == reading {
						want = int32(uint32(dd)<<28 | uint32(j))
						break
					}
				}
				if want != -1 {
					break
				}
			}
			if got := set.GetWordId(head, int16(wp), reading); got != want {
				c.Fail("the set's id of %+q %v %+q is %x, expected %x\n%s", head, e.Pos, reading, uint32(got), uint32(want), describe())
			}
			c.Count("set_words_by_name", 1)
		}
	}
	// every word at a place of a text
	for k := 0; k < 3; k++ {
		text := []byte(x.Text(r, r.Range(1, 8), GenOpt{}))
		for off := 0; off < len(text); off++ {
			var want, got []string
			for d, src := range all {
				for _, m := range src.Match(text, off) {
					want = append(want, fmt.Sprintf("%x-%d", d<<28|m.id, m.end))
				}
			}
			it := set.Lookup(text, off)
			for it.Next() {
				id, end := it.Get()
				got = append(got, fmt.Sprintf("%x-%d", uint32(id), end))
				if len(got) > len(want)+5 {
					break
				}
			}
			if err := it.Err(); err != nil {
				c.Fail("looking up %+q at %d ends with %v", text, off, err)
			}
			sort.Strings(want)
			sort.Strings(got)
			if fmt.Sprint(want) != fmt.Sprint(got) {
				c.Fail("looking up %+q at %d gives %v, expected %v\n%s", text, off, got, want, describe())
			}
			c.Count("set_lookups_found", len(got))
		}
	}
	c.Count("sets", 1)
}

// checkInfo compares a word's information with its entry.
func (w *World) checkInfo(x *World, op *Opened, d, i int, n NodeSnap, sysPos map[[6]string]int, nsys int) string {
	src := w.Sys
	if d > 0 {
		src = x.Users[d-1]
	}
	e := src.Entries[i]
	wi := n.WI
	if wi.Surface != e.Surf || wi.NormalizedForm != e.Normalized() || wi.ReadingForm != e.Reading() || wi.DictionaryForm != src.DictForm(i) {
		return fmt.Sprintf("forms %+q %+q %+q %+q, expected %+q %+q %+q %+q", wi.Surface, wi.NormalizedForm, wi.ReadingForm, wi.DictionaryForm, e.Surf, e.Normalized(), e.Reading(), src.DictForm(i))
	}
	if int(wi.PosId) < 0 || int(wi.PosId) >= op.D.GetPartOfSpeechSize() {
		return fmt.Sprintf("part of speech number %d of %d", wi.PosId, op.D.GetPartOfSpeechSize())
	}
	if got := op.D.GetPartOfSpeechString(wi.PosId); strings.Join(got, "\x01") != strings.Join(e.Pos[:], "\x01") {
		return fmt.Sprintf("part of speech %q, expected %q", got, e.Pos)
	}
	if p, ok := sysPos[e.Pos]; ok && int(wi.PosId) != p {
		return fmt.Sprintf("part of speech number %d, the system dictionary has %q as %d", wi.PosId, e.Pos, p)
	}
	for _, s := range []struct {
		name string
		got  []int32
		want []Ref
	}{{"A", wi.AUnitSplit, e.A}, {"B", wi.BUnitSplit, e.B}, {"structure", wi.WordStructure, e.W}} {
		if want := x.Resolve(d, s.want); !sameInts(s.got, want) {
			return fmt.Sprintf("%s units %x, expected %x", s.name, s.got, want)
		}
	}
	return ""
}

// ---- C21 ----------------------------------------------------------------------

// captureGrammar is an OOV provider that only keeps the grammar.
func (w *World) inhibitPlugins(r *Rng, pairs [][2]int) (ps []gs.EditConnectionCostPlugin, how string) {
	// through settings, or directly, in one or several plugins
	k := 1
	if len(pairs) > 1 && r.P(40) {
		k = 2
	}
	parts := make([][][2]int, k)
	for _, p := range pairs {
		i := r.N(k)
		parts[i] = append(parts[i], p)
	}
	if r.P(50) {
		var ss []string
		for _, part := range parts {
			var q []string
			for _, p := range part {
				q = append(q, fmt.Sprintf("[%d,%d]", p[0], p[1]))
			}
			key := r.Pick([]string{`"class":"com.worksap.nlp.sudachi.InhibitConnectionPlugin"`, `"class":"InhibitConnectionPlugin"`, `"name":"InhibitConnectionPlugin"`})
			ss = append(ss, fmt.Sprintf(`{%s,"inhibitedPair":[%s]}`, key, strings.Join(q, ",")))
		}
		doc := `{"editConnectionCostPlugin":[` + strings.Join(ss, ",") + `]}`
		s := gs.NewSettingsJSON()
		if err := s.ParseSettingsJSON("", strings.NewReader(doc)); err != nil {
			panic(failure{fmt.Sprintf("settings %s: %v", doc, err)})
		}
		ps, err := s.GetEditConnectionCostPluginArray(gs.DefMakeEditConnectionCostPlugin)
		if err != nil {
			panic(failure{fmt.Sprintf("settings %s: %v", doc, err)})
		}
		if len(ps) != k {
			panic(failure{fmt.Sprintf("settings %s: %d plugins", doc, len(ps))})
		}
		return ps, doc
	}
	for _, part := range parts {
		var q []*[]int
		for _, p := range part {
			q = append(q, &[]int{p[0], p[1]})
		}
		ps = append(ps, gs.NewInhibitConnectionPlugin(q))
	}
	return ps, fmt.Sprint("direct ", parts)
}

// openInhibited opens w with the pairs inhibited.
func (w *World) openInhibited(r *Rng, pairs [][2]int, nUsers int) (*Opened, string, error) {
	rec := &Rec{}
	in, oov, path := w.plugins(rec, "")
	var ed []gs.EditConnectionCostPlugin
	how := "none"
	if pairs != nil {
		ed, how = w.inhibitPlugins(r, pairs)
	}
	d, err := gs.NewJapaneseDictionary(w.config(nUsers), in, oov, path, ed)
	if err != nil {
		return nil, how, err
	}
	rec.Reset()
	return &Opened{d, d.Create(), rec}, how, nil
}

func runC21(c *Ctx) {
	r := c.R
	o := GenOpt{Users: r.Pick0(0, 0, 1, 2), Path: 1, Input: 1, Narrow: r.P(60), NoOOVHoles: true, PlainText: true}
	w := genWorld(r, c.Dir, o)
	if r.P(30) { // a larger, not square matrix
		old := w.M
		nl, nr := r.Range(old.L, 400), r.Range(old.R, 400)
		if r.P(5) {
			nl, nr = r.Range(1000, 3000), r.Range(300, 1000)
		}
		w.M = genMatrix(r, nl, nr, 0)
		for _, d := range append([]*DictSrc{w.Sys}, w.Users...) {
			for _, e := range d.Entries {
				if e.L != -1 {
					e.L = r.Pick0(r.N(nr), nr-1, 0, e.L)
				}
				e.R = r.Pick0(r.N(nl), nl-1, 0, e.R)
			}
		}
	}
	if err := w.Build(); err != nil {
		c.Setup("%v", err)
	}
	file, _ := os.ReadFile(w.SysPath)
	texts := []string{}
	for i := 0; i < 8; i++ {
		texts = append(texts, w.Text(r, r.Range(1, 6), o))
	}
	plain, _, err := w.openInhibited(r, nil, -1)
	if err != nil {
		c.Setup("opening: %v", err)
	}
	defer plain.Close()
	results := func(op *Opened) []string {
		var rs []string
		for _, t := range texts {
			_, s := result(op.T, "C", t)
			rs = append(rs, s)
		}
		return rs
	}
	want := results(plain)
	// the pairs: some that the analyses use, corners, repeated ones
	var used [][2]int
	for _, t := range texts {
		plain.Rec.Reset()
		if _, err := plain.T.Tokenize("C", t); err == nil && len(plain.Rec.Paths) > 0 {
			right := 0
			for _, n := range plain.Rec.Paths[0] {
				used = append(used, [2]int{right, n.L})
				right = n.R
			}
			used = append(used, [2]int{right, 0})
		}
	}
	npairs := r.Range(1, 6)
	if r.P(4) {
		npairs = r.Pick0(16, 33, 64, 65, 129, 257, 400)
	}
	var pairs [][2]int
	for i := 0; i < npairs; i++ {
		switch k := r.N(6); {
		case k < 3 && len(used) > 0:
			pairs = append(pairs, used[r.N(len(used))])
		case k == 3:
			pairs = append(pairs, [2]int{r.Pick0(0, w.M.L-1), r.Pick0(0, w.M.R-1)})
		case k == 4 && i > 0:
			pairs = append(pairs, pairs[r.N(i)])
		default:
			pairs = append(pairs, [2]int{r.N(w.M.L), r.N(w.M.R)})
		}
	}
	if r.P(5) {
		pairs = pairs[:0]
	}
	set := map[[2]int]bool{}
	for _, p := range pairs {
		set[p] = true
	}
	checkCosts := func(what string, op *Opened, inh map[[2]int]bool) {
		g := op.Rec.Grammar
		for i := 0; i < w.M.L; i++ {
			for j := 0; j < w.M.R; j++ {
				want := w.M.Cost[i][j]
				if inh[[2]int{i, j}] {
					want = 32767
				}
				if got := g.GetConnectCost(int16(i), int16(j)); got != want {
					c.Fail("%s: connection %d %d costs %d, expected %d; inhibited %v", what, i, j, got, want, pairs)
				}
			}
		}
		c.Count("connections_compared", w.M.L*w.M.R)
	}
	small := w.M.L*w.M.R < 100000
	op, how, err := w.openInhibited(r, pairs, -1)
	if err != nil {
		// a user word's automatic cost needs an analysis; none here has it
		c.Fail("inhibiting %v (matrix %d x %d) by %s: %v", pairs, w.M.L, w.M.R, how, err)
	}
	defer op.Close()
	checkCosts("the dictionary", op, set)
	toks := []*gs.JapaneseTokenizer{op.T}
	for i := r.N(3); i > 0; i-- {
		toks = append(toks, op.D.Create())
	}
	for _, t := range texts {
		tk := toks[r.N(len(toks))]
		op.Rec.Reset()
		l, err := tk.Tokenize("C", t)
		if err != nil {
			c.Count("texts_without_analysis", 1)
			continue
		}
		if l.Length() == 0 {
			continue
		}
		p := op.Rec.Paths[0]
		right := 0
		for k := 0; k <= len(p); k++ {
			left := 0
			if k < len(p) {
				left = p[k].L
			}
			if set[[2]int{right, left}] {
				c.Fail("text %+q: the analysis uses the inhibited connection %d %d; inhibited by %s\npath %v", t, right, left, how, p)
			}
			c.Count("connections_of_analyses", 1)
			if k < len(p) {
				right = p[k].R
			}
		}
		sig := ""
		if len(pairs) > 0 {
			sig = fmt.Sprint(how, t)
		}
		c.Eval(sig)
	}
	// another dictionary from the same file, opened before or after, and one
	// with other pairs, are what they would be alone
	checkCosts("a dictionary opened before without inhibited connections", plain, nil)
	if got := results(plain); strings.Join(got, "|") != strings.Join(want, "|") {
		c.Fail("inhibiting %v in one dictionary changed the results of another one opened before\n%v\n%v", pairs, want, got)
	}
	again, _, err := w.openInhibited(r, nil, -1)
	if err != nil {
		c.Fail("opening again: %v", err)
	}
	checkCosts("a dictionary opened after without inhibited connections", again, nil)
	if got := results(again); strings.Join(got, "|") != strings.Join(want, "|") {
		c.Fail("inhibiting %v in one dictionary changed the results of another one opened after\n%v\n%v", pairs, want, got)
	}
	again.Close()
	if small {
		other := [][2]int{{r.N(w.M.L), r.N(w.M.R)}}
		o2, how2, err := w.openInhibited(r, other, 0)
		if err != nil {
			c.Fail("inhibiting %v by %s: %v", other, how2, err)
		}
		checkCosts("another dictionary with "+how2, o2, map[[2]int]bool{other[0]: true})
		checkCosts("the dictionary, after another one with "+how2, op, set)
		o2.Close()
		checkCosts("the dictionary, after the other one is closed", op, set)
	}
	if after, _ := os.ReadFile(w.SysPath); !bytes.Equal(file, after) {
		c.Fail("inhibiting connections changed the dictionary file")
	}
	if len(set) > 0 {
		n := 0
		for _, u := range used {
			if set[u] {
				n++
			}
		}
		if n > 0 {
			c.Count("cases_inhibiting_a_used_connection", 1)
		}
	}
	c.Sample(func() interface{} {
		return map[string]interface{}{"inhibited": pairs, "by": how, "texts": texts, "file": filepath.Base(w.SysPath)}
	})
}

func init() {
	register(&Check{ID: "C08", Quick: 13000, MinDistinct: 500, NeedCmds: true, Run: runC08,
		Rule: "a case builds one system and 0 to 15 user dictionaries (also in the old format, by the command, from several files) and opens three selections and orders of them, with repetitions, plus one that is too long; every indexed word is looked up in the lattice of a text that contains it and compared with its source line (ids, cost, forms, part of speech by name and number, split references), automatic costs with the analysis recorded on the dictionaries loaded before. Non-trivial: a word of a configuration; distinct by configuration and word"})
	register(&Check{ID: "C21", Quick: 8500, MinDistinct: 500, Run: runC21,
		Rule: "a case inhibits up to 6 connections (used ones, corners, repeated) directly or through settings, compares the whole connection table seen by plugins, the neighbours in the paths of 8 texts, and the tables and results of dictionaries opened from the same file before, after and with other pairs, and the file. Non-trivial: an analysed text with inhibited connections"})
}
