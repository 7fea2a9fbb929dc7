package main

// Checks on lifetimes: C03 history independence, C04 concurrency, C05 hostile
// texts.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	gs "github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
	"golang.org/x/text/unicode/norm"
)

// result is what Tokenize gives for a text: a digest or an error.
func result(t *gs.JapaneseTokenizer, mode, text string) (*gs.MorphemeList, string) {
	l, err := t.Tokenize(mode, text)
	if err != nil {
		return nil, "error"
	}
	return l, digest(l)
}

// failInput is an input plugin that fails on some texts, after it has changed
// them.
type failInput struct{ mark rune }

func (p *failInput) GetConfigStruct() interface{} { return &struct{}{} }
func (p *failInput) SetUp() error                 { return nil }
func (p *failInput) Rewrite(b *gs.InputTextBuilder) error {
	t := b.GetText()
	if strings.ContainsRune(string(t), p.mark) {
		if len(t) > 1 {
			b.Replace(0, 1, []rune("かなカナ"))
		}
		return errors.New("input plugin failed")
	}
	return nil
}

// failPath is a path plugin that fails on some texts.
type failPath struct{ mark rune }

func (p *failPath) GetConfigStruct() interface{}    { return &struct{}{} }
func (p *failPath) SetUp(*dictionary.Grammar) error { return nil }
func (p *failPath) Rewrite(t *gs.InputText, path *[]*gs.LatticeNode, l *gs.Lattice) error {
	if strings.ContainsRune(t.GetText(), p.mark) {
		return errors.New("path plugin failed")
	}
	return nil
}

// failOov is an OOV provider that fails from the mark on.
type failOov struct {
	gs.OovProviderPlugin
	mark rune
}

func (p *failOov) ProvideOOV(t *gs.InputText, offset int, has bool) ([]*gs.LatticeNode, error) {
	if i := strings.IndexRune(t.GetText(), p.mark); i >= 0 && offset >= i {
		return nil, errors.New("OOV provider failed")
	}
	return p.OovProviderPlugin.ProvideOOV(t, offset, has)
}

// openWith opens the world's dictionaries without recorders and with plugins
// that fail on texts with 'ѣ' (input), 'ѱ' (OOV) or 'ϡ' (path).
func (w *World) openWith(nUsers int, wrapOov func(gs.OovProviderPlugin) gs.OovProviderPlugin) (*gs.JapaneseDictionary, error) {
	in, oov, path := w.plugins(nil, "")
	in = append(in, &failInput{'ѣ'})
	path = append(path, &failPath{'ϡ'})
	for i := range oov {
		oov[i] = &failOov{oov[i], 'ѱ'}
	}
	if wrapOov != nil {
		for i := range oov {
			oov[i] = wrapOov(oov[i])
		}
	}
	return gs.NewJapaneseDictionary(w.config(nUsers), in, oov, path, w.edits())
}

// textPool makes texts of which some fail.
func (w *World) textPool(r *Rng, n int, o GenOpt) []string {
	var ts []string
	for i := 0; i < n; i++ {
		t := w.Text(r, textLen(r), o)
		switch r.N(12) {
		case 0:
			t = ""
		case 1:
			t += r.Pick([]string{"ѣ", "ѱ"}) + w.Text(r, 2, o)
		case 2:
			t += "ϡ" + w.Text(r, 2, o)
		case 3:
			t = w.Text(r, r.Range(40, 120), o)
		case 4: // shares a beginning with another one
			if len(ts) > 0 {
				rs := []rune(r.Pick(ts))
				t = string(rs[:r.N(len(rs)+1)]) + t
			}
		}
		ts = append(ts, t)
	}
	return ts
}

// ---- C03 --------------------------------------------------------------------

func runC03(c *Ctx) {
	r := c.R
	o := GenOpt{Users: -1, Forbid: r.Pick0(0, 5, 20), Narrow: r.P(50), NoOOVHoles: r.P(50), Inhibit: r.P(10)}
	w := genWorld(r, c.Dir, o)
	if err := w.Build(); err != nil {
		c.Setup("%v", err)
	}
	texts := w.textPool(r, r.Range(4, 10), o)
	if c.Idx%300 == 7 {
		texts[0] = w.Text(r, r.Range(800, 1500), o)
	}
	// the reference: each text and mode on a new dictionary
	want := map[string]string{}
	for _, t := range texts {
		for _, m := range modes {
			d, err := w.openWith(-1, nil)
			if err != nil {
				c.Setup("opening: %v", err)
			}
			_, want[m+t] = result(d.Create(), m, t)
			d.Close()
		}
	}
	var ds []*gs.JapaneseDictionary
	nd := 1 + r.N(2)
	for i := 0; i < nd; i++ {
		d, err := w.openWith(-1, nil)
		if err != nil {
			c.Setup("opening: %v", err)
		}
		defer d.Close()
		ds = append(ds, d)
	}
	var toks []*gs.JapaneseTokenizer
	var names []string
	create := func() {
		i := r.N(nd)
		toks = append(toks, ds[i].Create())
		names = append(names, fmt.Sprintf("t%d(d%d)", len(toks)-1, i))
	}
	create()
	type held struct {
		l    *gs.MorphemeList
		want string
		what string
	}
	var lists []held
	var log []string
	fails, lastFailed := 0, false
	for step := 0; step < 40; step++ {
		if len(toks) < 4 && r.P(8) {
			create()
		}
		k := r.N(len(toks))
		t, m := r.Pick(texts), r.Pick(modes)
		switch r.N(6) {
		case 0:
			toks[k].DumpOutput = io.Discard
		case 1:
			toks[k].DumpOutput = &bytes.Buffer{}
		case 2, 3:
			toks[k].DumpOutput = nil
		}
		what := fmt.Sprintf("%s %s %+q dump=%v", names[k], m, t, toks[k].DumpOutput != nil)
		log = append(log, what)
		l, got := result(toks[k], m, t)
		if got != want[m+t] {
			c.Fail("step %d (%s) gives\n%s\na new dictionary and tokenizer give\n%s\nhistory:\n%s", step, what, got, want[m+t], strings.Join(log, "\n"))
		}
		if lastFailed && got != "error" {
			c.Count("successes_after_a_failure", 1)
		}
		lastFailed = got == "error"
		if l != nil {
			lists = append(lists, held{l, got, what})
		} else {
			fails++
		}
		if len(lists) > 0 && r.P(50) {
			h := lists[r.N(len(lists))]
			if now := digest(h.l); now != h.want {
				c.Fail("the list of an earlier call (%s) now reads\n%s\nit read\n%s\nhistory:\n%s", h.what, now, h.want, strings.Join(log, "\n"))
			}
			c.Count("earlier_lists_read_again", 1)
		}
		sig := ""
		if got != "error" && t != "" {
			sig = what + got + fmt.Sprint(len(log))
		}
		c.Eval(sig)
	}
	for _, h := range lists {
		if now := digest(h.l); now != h.want {
			c.Fail("at the end the list of an earlier call (%s) reads\n%s\nit read\n%s\nhistory:\n%s", h.what, now, h.want, strings.Join(log, "\n"))
		}
		c.Count("earlier_lists_read_again", 1)
	}
	c.Count("failed_calls", fails)
	c.Count("tokenizers", len(toks))
	c.Sample(func() interface{} { return map[string]interface{}{"history": log[:10], "plugins": kinds(w)} })
}

// ---- C04 --------------------------------------------------------------------

// yieldOov gives way at places that vary from run to run; it has no state, so
// that it orders nothing.
type yieldOov struct{ gs.OovProviderPlugin }

func noise() {
	n := time.Now().UnixNano()
	n ^= n >> 7
	switch {
	case n%61 == 0:
		time.Sleep(time.Microsecond)
	case n%7 == 0:
		runtime.Gosched()
	}
}

func (p *yieldOov) ProvideOOV(t *gs.InputText, offset int, has bool) ([]*gs.LatticeNode, error) {
	noise()
	n, err := p.OovProviderPlugin.ProvideOOV(t, offset, has)
	noise()
	return n, err
}

type yieldInput struct{}

func (p *yieldInput) GetConfigStruct() interface{}         { return &struct{}{} }
func (p *yieldInput) SetUp() error                         { return nil }
func (p *yieldInput) Rewrite(b *gs.InputTextBuilder) error { noise(); return nil }

type yieldPath struct{}

func (p *yieldPath) GetConfigStruct() interface{}    { return &struct{}{} }
func (p *yieldPath) SetUp(*dictionary.Grammar) error { return nil }
func (p *yieldPath) Rewrite(t *gs.InputText, path *[]*gs.LatticeNode, l *gs.Lattice) error {
	noise()
	return nil
}

type opLog struct {
	gid        int
	begin, end int64
	what       string
}

func runC04(c *Ctx) {
	r := c.R
	o := GenOpt{Users: -1, Forbid: r.Pick0(0, 5), Narrow: r.P(50), NoOOVHoles: r.P(70), AutoCost: r.P(20), Inhibit: r.P(10)}
	w := genWorld(r, c.Dir, o)
	if err := w.Build(); err != nil {
		c.Setup("%v", err)
	}
	open := func(yield bool) *gs.JapaneseDictionary {
		in, oov, path := w.plugins(nil, "")
		in = append(in, &failInput{'ѣ'})
		path = append(path, &failPath{'ϡ'})
		if yield {
			for i := range oov {
				oov[i] = &yieldOov{oov[i]}
			}
			var in2 []gs.InputTextPlugin
			for _, p := range in {
				in2 = append(in2, &yieldInput{}, p)
			}
			in = append(in2, &yieldInput{})
			var path2 []gs.PathRewritePlugin
			for _, p := range path {
				path2 = append(path2, &yieldPath{}, p)
			}
			path = append(path2, &yieldPath{})
		}
		d, err := gs.NewJapaneseDictionary(w.config(-1), in, oov, path, w.edits())
		if o.uncomputable(err) {
			c.Skip("%v", err)
		}
		if err != nil {
			c.Setup("opening: %v", err)
		}
		return d
	}
	openMore := func() (*gs.JapaneseDictionary, error) {
		in, oov, path := w.plugins(nil, "")
		in = append(in, &failInput{'ѣ'})
		path = append(path, &failPath{'ϡ'})
		return gs.NewJapaneseDictionary(w.config(-1), in, oov, path, w.edits())
	}
	texts := w.textPool(r, 8, o)
	ref := open(false)
	rt := ref.Create()
	want := map[string]string{}
	for _, t := range texts {
		for _, m := range modes {
			_, want[m+t] = result(rt, m, t)
		}
	}
	ref.Close()
	d := open(true)
	g := r.Range(3, 8)
	n := r.Range(10, 25)
	start := time.Now()
	logs := make([][]opLog, g)
	errs := make([]string, g)
	var panics int32
	seeds := make([]uint64, g)
	for i := range seeds {
		seeds[i] = r.U64()
	}
	type handed struct {
		l    *gs.MorphemeList
		want string
	}
	hand := make(chan handed, 4)
	toks := make([]*gs.JapaneseTokenizer, g)
	for i := 0; i < g; i++ {
		if r.P(50) { // the others create theirs while some run already
			toks[i] = d.Create()
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(id int, r *Rng, t *gs.JapaneseTokenizer) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					atomic.AddInt32(&panics, 1)
					errs[id] = fmt.Sprintf("panic in goroutine %d: %v", id, e)
				}
			}()
			for k := 0; k < n; k++ {
				b := time.Since(start).Nanoseconds()
				what := ""
				if t == nil || r.P(10) {
					t = d.Create()
					what = "create "
				}
				text, m := r.Pick(texts), r.Pick(modes)
				what += m + text
				if r.P(10) {
					t.DumpOutput = io.Discard
				} else if r.P(10) {
					t.DumpOutput = &bytes.Buffer{}
				} else {
					t.DumpOutput = nil
				}
				l, err := t.Tokenize(m, text)
				got := "error"
				if err == nil {
					noise()
					got = digest(l)
					// A list may go to another goroutine while this
					// tokenizer continues.
					select {
					case hand <- handed{l, want[m+text]}:
					default:
					}
				}
				if got != want[m+text] {
					errs[id] = fmt.Sprintf("goroutine %d, mode %s, text %+q gives\n%s\nalone it gives\n%s", id, m, text, got, want[m+text])
					return
				}
				if r.P(40) {
					select {
					case h := <-hand:
						if got := digest(h.l); got != h.want {
							errs[id] = fmt.Sprintf("goroutine %d reads a list of another one as\n%s\nexpected\n%s", id, got, h.want)
							return
						}
					default:
					}
				}
				logs[id] = append(logs[id], opLog{id, b, time.Since(start).Nanoseconds(), what})
			}
		}(i, NewRng(seeds[i]), toks[i])
	}
	others := ""
	if r.P(30) { // other dictionaries of the same files come and go
		wg.Add(1)
		go func(r *Rng, n int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					others = fmt.Sprintf("panic with another dictionary: %v", e)
				}
			}()
			for ; n > 0; n-- {
				x, err := openMore()
				if err != nil {
					others = fmt.Sprintf("opening another dictionary of the same files meanwhile: %v", err)
					return
				}
				t := x.Create()
				for k := 0; k < 3; k++ {
					text, m := r.Pick(texts), r.Pick(modes)
					if _, got := result(t, m, text); got != want[m+text] {
						others = fmt.Sprintf("another dictionary, mode %s, text %+q gives\n%s\nalone it gives\n%s", m, text, got, want[m+text])
						return
					}
				}
				x.Close()
			}
		}(NewRng(r.U64()), r.Range(1, 4))
		c.Count("cases_with_other_dictionaries", 1)
	}
	builds := make([]string, 3)
	if r.P(20) { // dictionaries are built and printed meanwhile
		read := func(p string) string {
			b, _ := os.ReadFile(p)
			return string(b)
		}
		print := func(p string) (string, error) {
			var b bytes.Buffer
			bd, err := dictionary.ReadSystemDictionary(w.SysPath, w.UTF16)
			if err != nil {
				return "", err
			}
			defer bd.Close()
			err = dictionary.PrintDictionary(p, w.UTF16, bd, &b)
			return b.String(), err
		}
		sysCSV, mat := w.Sys.CSV(), w.M.Text()
		var csvs, wants, shown []string
		for i, u := range w.Users {
			csvs = append(csvs, u.CSV())
			wants = append(wants, read(w.UserPath[i]))
			s, err := print(w.UserPath[i])
			if err != nil {
				c.Fail("printing user dictionary %d: %v", i, err)
			}
			shown = append(shown, s)
		}
		sysWant := read(w.SysPath)
		for k := r.Range(1, 2); k > 0; k-- {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						builds[k] = fmt.Sprintf("panic while building: %v", e)
					}
				}()
				p := w.sub(fmt.Sprintf("meanwhile%d.dic", k))
				msg := ""
				if err := buildSystem(p, []string{sysCSV}, mat, w.UTF16, 1500000000, "sys"); err != nil || read(p) != sysWant {
					msg = fmt.Sprintf("building the system dictionary again, meanwhile, gives another file (%v)", err)
				}
				for i := range csvs {
					if err := buildUser(p, []string{csvs[i]}, w.SysPath, w.UTF16, 1500000001, "user", false); err != nil || read(p) != wants[i] {
						msg = fmt.Sprintf("building user dictionary %d again, meanwhile, gives another file (%v)", i, err)
					}
					if s, err := print(p); err != nil || s != shown[i] {
						msg = fmt.Sprintf("printing user dictionary %d meanwhile gives (%v)\n%s\nexpected\n%s", i, err, s, shown[i])
					}
				}
				if msg != "" {
					builds[k] = msg
				}
			}(k)
		}
		c.Count("cases_with_builds", 1)
	}
	wg.Wait()
	d.Close()
	errs = append(append(errs, others), builds...)
	for _, e := range errs {
		if e != "" {
			c.Fail("%s", e)
		}
	}
	// what was observed: the order of begins and ends, and the overlaps
	type ev struct {
		t int64
		s string
	}
	var evs []ev
	overlaps := 0
	var all []opLog
	for _, l := range logs {
		all = append(all, l...)
	}
	for i, x := range all {
		evs = append(evs, ev{x.begin, fmt.Sprintf("b%d", x.gid)}, ev{x.end, fmt.Sprintf("e%d", x.gid)})
		for _, y := range all[i+1:] {
			if x.gid != y.gid && x.begin < y.end && y.begin < x.end {
				overlaps++
			}
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	var order strings.Builder
	for _, e := range evs {
		order.WriteString(e.s)
	}
	sig := ""
	if overlaps > 0 {
		sig = order.String()
	}
	c.Eval(sig)
	c.Count("calls", len(all))
	c.Count("overlapping_pairs_of_calls", overlaps)
	c.Count("goroutines", g)
	c.Sample(func() interface{} {
		return map[string]interface{}{"goroutines": g, "calls": len(all), "overlaps": overlaps, "order": clip(order.String(), 200), "plugins": kinds(w)}
	})
}

// uncomputable: an automatic cost could not be computed, as the headword cannot
// be analysed (C08 decides when this may be).
func (o GenOpt) uncomputable(err error) bool {
	return err != nil && o.AutoCost && strings.Contains(err.Error(), "fail to calculate costs")
}

// ---- C05 --------------------------------------------------------------------

var hostileUnits = []string{"\x00", "\xff", "\xc3", "\xe3\x81", "\xed\xa0\x80", "\xf0\x9f\x98", "\xf8\x88\x80\x80\x80", "\u0301", "\u200d", "\ufeff", "\ufffd", "\U0010ffff", "👨‍👩‍👧", "ﷺ", "が", "か\u3099", "ー", "〜", ",", ".", "、", "0", "１", "一", "十", "億", "兆", "万", "百", "千", "〇", "1,000", "1.5", "a", "Ａ", "α", "Я", "漢", "𠮷", "ア", "ｱ", "ァ", "ン", "あ", " ", "　", "\n", "\r\n", "\t", "!", "©", "İ", "ß", "ŉ", "ΐ", "ﬃ", "①", "㍿", "\u2028", "\u0085", "U1", "*", "/", "\\u0041"}

func hostileText(c *Ctx, w *World, o GenOpt) (string, string) {
	r := c.R
	switch k := r.N(12); k {
	case 0:
		b := make([]byte, r.N(60))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return string(b), "random bytes"
	case 1:
		var b []rune
		for i := r.N(40); i > 0; i-- {
			b = append(b, rune(r.N(0x110000)))
		}
		return string(b), "random code points"
	case 2: // one kind of character, many times
		u := r.Pick(hostileUnits)
		n := r.Pick0(2, 10, 127, 128, 300, 2000)
		if c.Idx%25 == 7 && !c.once {
			// grouped OOV words make this quadratic in the length of the
			// normalized text: one of these is enough for a case
			c.once = true
			n = r.Pick0(11000, 17000, 33000)
			if m := len(norm.NFKC.String(string([]rune(u)))); m*n > 36000 {
				n = 36000 / m
			}
		}
		if k := w.offers(); k > 30 && n*k*k > 36000*30*30 { // and quadratic in these
			n = 36000*30*30/k/k + 2
		}
		return strings.Repeat(u, n), "a run"
	case 3, 4:
		var b strings.Builder
		for i := r.Range(1, 14); i > 0; i-- {
			u := r.Pick(hostileUnits)
			b.WriteString(strings.Repeat(u, r.Pick0(1, 1, 1, 2, 3, 9)))
		}
		return b.String(), "a mixture"
	case 5:
		var b strings.Builder
		for i := r.Range(1, 5); i > 0; i-- {
			b.WriteString(genNumeral(r))
			if r.P(30) {
				b.WriteString(genNumeral(r) + genNumeral(r))
			}
		}
		return b.String(), "numerals"
	case 6: // a text cut within a character, or with a byte changed
		b := []byte(w.Text(r, textLen(r), o))
		if len(b) > 0 {
			if r.P(50) {
				b = b[:r.N(len(b)+1)]
			} else {
				b[r.N(len(b))] = byte(r.U64())
			}
		}
		return string(b), "mutated text"
	case 7:
		if c.Idx%25 == 8 && !c.once && w.offers() < 200 {
			c.once = true
			return w.Text(r, r.Range(2000, 5000), o), "a long text"
		}
		return w.Text(r, r.Range(50, 200), o), "a longer text"
	case 8:
		var b strings.Builder
		for i := r.Range(1, 10); i > 0; i-- {
			for j := r.Range(1, 3); j > 0; j-- {
				b.WriteRune(r.PickRune(abRaw))
			}
			b.WriteString(r.Pick(junkBytes))
		}
		return b.String(), "unusual characters"
	case 9: // numeral characters alternating with others
		var b strings.Builder
		for i := r.Range(2, 30); i > 0; i-- {
			b.WriteString(r.Pick([]string{"1", "2", "3", "五", "十", "百", "千", "万", "億", "兆", ".", ",", "0", "00", "000", "a", "ー", "ア"}))
		}
		return b.String(), "numeral characters"
	}
	return w.Text(r, textLen(r), o), "text"
}

func runC05(c *Ctx) {
	r := c.R
	o := GenOpt{Users: -1, Forbid: r.Pick0(0, 0, 10), Narrow: r.P(40), NoOOVHoles: r.P(70), AutoCost: r.P(20)}
	w := genWorld(r, c.Dir, o)
	if r.P(60) { // number words, so that the numeral plugin has work
		w.addNumerals(r)
		w.Pl.Path = append(w.Pl.Path, pathCfg{Kind: "numeric"})
	}
	if r.P(5) { // a very long headword
		h := strings.Repeat(string(w.alpha[0][0]), r.Range(20, 80))
		w.Sys.Entries = append(w.Sys.Entries, &Entry{Head: h, L: 0, R: 0, C: 0, Surf: h, Pos: posOOV, DF: -1, Unit: "A"})
	}
	if err := w.Build(); err != nil {
		c.Setup("%v", err)
	}
	d, err := w.openWith(-1, nil)
	if o.uncomputable(err) {
		c.Skip("%v", err)
	}
	if err != nil {
		c.Setup("opening: %v", err)
	}
	defer d.Close()
	t := d.Create()
	for i := 0; i < 20; i++ {
		text, kind := hostileText(c, w, o)
		mode := r.Pick(modes)
		t.DumpOutput = nil
		if r.P(10) && len(text) < 2000 {
			t.DumpOutput = io.Discard
		}
		c.Logf("%s %s %+q", mode, kind, clip(text, 200))
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(failure); ok {
						panic(e)
					}
					c.Fail("mode %s, %s of %d bytes %s: panic: %v\nplugins: %s", mode, kind, len(text), shortText(text), e, kinds(w))
				}
			}()
			l, err := t.Tokenize(mode, text)
			if err == nil && l == nil {
				c.Fail("mode %s, %s %s: neither morphemes nor an error", mode, kind, shortText(text))
			}
			if err != nil {
				c.Count("errors", 1)
				return
			}
			if len(text) > 4000 {
				// reading is linear in the text for every morpheme
				for _, i := range []int{0, l.Length() / 2, l.Length() - 1} {
					readMorph(l.Get(i))
				}
				c.Count("long_texts", 1)
			} else {
				digest(l)
				for i := 0; i < l.Length(); i++ {
					l.Get(i).GetWordInfo()
				}
			}
			c.Count("morphemes", l.Length())
		}()
		c.Count("kind: "+kind, 1)
		if !utf8.ValidString(text) {
			c.Count("undecodable_texts", 1)
		}
		c.Eval(mode + text + kinds(w))
		c.Sample(func() interface{} {
			return map[string]interface{}{"kind": kind, "mode": mode, "text": fmt.Sprintf("%+q", clip(text, 80)), "bytes": len(text)}
		})
	}
}

func shortText(t string) string {
	if len(t) > 300 {
		return fmt.Sprintf("%+q... (repeating or long)", t[:120])
	}
	return fmt.Sprintf("%+q", t)
}

// addNumerals adds number words for the digits and the separators.
func (w *World) addNumerals(r *Rng) {
	for _, a := range [][]rune{abDigit, abKanjiNum, abSep} {
		for _, ch := range a {
			if r.P(90) && ch != '五' {
				e := &Entry{Head: string(ch), L: r.N(w.M.R), R: r.N(w.M.L), C: r.Range(-200, 500), Surf: string(ch), Pos: posNumeric, Read: genReading(r), Norm: string(ch), DF: -1, Unit: "A"}
				w.Sys.Entries = append(w.Sys.Entries, e)
			}
		}
	}
}

func init() {
	register(&Check{ID: "C03", Quick: 9000, Run: runC03, MinDistinct: 1000,
		Rule: "random worlds; histories of 40 calls over up to 4 tokenizers of up to 2 dictionaries, with texts that fail in the input plugin, the lattice or the path plugin, debug dumps switched, earlier lists read again; each result compared with a new dictionary and tokenizer; non-trivial: a successful call on a non-empty text; distinct by call, place in the history and result"})
	register(&Check{ID: "C04", Quick: 1400, Run: runC04, MinDistinct: 40, Race: true, Workers: 4,
		Rule:        "the monitor built with the race detector; 3 to 8 goroutines with their own tokenizers of one dictionary (some created while others run), the plugins yielding at varying places; results compared with a sequential run, lists handed to other goroutines; non-trivial: calls overlapped; distinct by the order of call begins and ends",
		Assumptions: []string{"the race detector reports every race that the observed executions contain within its history"}})
	register(&Check{ID: "C05", Quick: 1500, Run: runC05, MinDistinct: 1000,
		Rule: "random worlds with every plugin combination; random bytes and code points, runs of one character of up to 36 KB, numerals, texts with changed bytes; all attributes of the morphemes and of their splits are read; panics, process deaths, 90 s of CPU time in a case or 3 GB of heap are violations; distinct by text, mode and plugins"})
}
