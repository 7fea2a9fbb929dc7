package main

// C25: plugins run in their order, on the results of those before them, and
// their results and errors take effect.

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	gs "github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

// traceEvent is a call of a plugin.
type traceEvent struct {
	kind          string // setup, edit, in, oov, path
	plugin        string // in0, oov1, ...
	before, after string
	words         []string // of the path after
	offset        int
	err           error
}

// trace is the log of the calls of all plugins of one dictionary. The call
// number failAt of the plugin fail fails.
type trace struct {
	events []traceEvent
	fail   string
	failOp string
	failAt int
	err    error
	calls  int
	cost   map[[2]int16]int16 // what the edit plugins set
	check  func(format string, args ...interface{})
	text   string
}

func (t *trace) failing(plugin, op string) error {
	if t.fail != plugin || t.failOp != op {
		return nil
	}
	t.calls++
	if t.calls-1 == t.failAt {
		return t.err
	}
	return nil
}

func (t *trace) add(e traceEvent) { t.events = append(t.events, e) }

type traceIn struct {
	gs.InputTextPlugin
	t    *trace
	name string
}

func (p *traceIn) SetUp() error {
	err := p.InputTextPlugin.SetUp()
	if e := p.t.failing(p.name, "setup"); e != nil {
		err = e
	}
	p.t.add(traceEvent{kind: "setup", plugin: p.name, err: err})
	return err
}

func (p *traceIn) Rewrite(b *gs.InputTextBuilder) error {
	before := string(b.GetText())
	err := p.InputTextPlugin.Rewrite(b)
	if e := p.t.failing(p.name, "run"); e != nil {
		err = e
	}
	p.t.add(traceEvent{kind: "in", plugin: p.name, before: before, after: string(b.GetText()), err: err})
	return err
}

type traceOov struct {
	gs.OovProviderPlugin
	t    *trace
	name string
}

func (p *traceOov) SetUp(g *dictionary.Grammar) error {
	err := p.OovProviderPlugin.SetUp(g)
	if e := p.t.failing(p.name, "setup"); e != nil {
		err = e
	}
	p.t.add(traceEvent{kind: "setup", plugin: p.name, err: err})
	return err
}

func (p *traceOov) ProvideOOV(t *gs.InputText, offset int, has bool) ([]*gs.LatticeNode, error) {
	nodes, err := p.OovProviderPlugin.ProvideOOV(t, offset, has)
	if e := p.t.failing(p.name, "run"); e != nil {
		err = e
	}
	if t.OriginalText != p.t.text {
		p.t.check("%s is given the original text %+q", p.name, t.OriginalText)
	}
	p.t.add(traceEvent{kind: "oov", plugin: p.name, before: t.GetText(), offset: offset, err: err})
	return nodes, err
}

type tracePath struct {
	gs.PathRewritePlugin
	t    *trace
	name string
}

func (p *tracePath) SetUp(g *dictionary.Grammar) error {
	err := p.PathRewritePlugin.SetUp(g)
	if e := p.t.failing(p.name, "setup"); e != nil {
		err = e
	}
	p.t.add(traceEvent{kind: "setup", plugin: p.name, err: err})
	return err
}

func showPath(path []*gs.LatticeNode) string {
	var b strings.Builder
	for _, n := range path {
		fmt.Fprintf(&b, "[%d-%d %d/%d %v %+v]", n.GetBegin(), n.GetEnd(), n.GetDictionaryId(), n.GetWordId(), n.IsOOV(), *n.GetWordInfo())
	}
	return b.String()
}

func (p *tracePath) Rewrite(t *gs.InputText, path *[]*gs.LatticeNode, l *gs.Lattice) error {
	before := showPath(*path)
	err := p.PathRewritePlugin.Rewrite(t, path, l)
	if e := p.t.failing(p.name, "run"); e != nil {
		err = e
	}
	if t.OriginalText != p.t.text {
		p.t.check("%s is given the original text %+q", p.name, t.OriginalText)
	}
	ev := traceEvent{kind: "path", plugin: p.name, before: before, after: showPath(*path), err: err}
	for _, n := range *path {
		ev.words = append(ev.words, fmt.Sprintf("%d/%d %v %+v", n.GetDictionaryId(), n.GetWordId(), n.IsOOV(), *n.GetWordInfo()))
	}
	p.t.add(ev)
	return err
}

// traceEdit sets some connection costs.
type traceEdit struct {
	t     *trace
	name  string
	cells [][3]int16
}

func (p *traceEdit) GetConfigStruct() interface{} { return &struct{}{} }
func (p *traceEdit) SetUp(g *dictionary.Grammar) error {
	err := p.t.failing(p.name, "setup")
	p.t.add(traceEvent{kind: "setup", plugin: p.name, err: err})
	return err
}

func (p *traceEdit) Edit(g *dictionary.Grammar) error {
	for k, v := range p.t.cost { // of those before it
		if got := g.GetConnectCost(k[0], k[1]); got != v {
			p.t.check("%s sees the cost %d for %v, an earlier plugin set %d", p.name, got, k, v)
		}
	}
	for _, x := range p.cells {
		g.SetConnectCost(x[0], x[1], x[2])
		p.t.cost[[2]int16{x[0], x[1]}] = x[2]
	}
	err := p.t.failing(p.name, "run")
	p.t.add(traceEvent{kind: "edit", plugin: p.name, err: err})
	return err
}

// joiner joins words with the public helpers and checks what they do.
type joiner struct {
	seed uint64
	t    *trace
	c    *Ctx
	pos  int16
}

func (p *joiner) GetConfigStruct() interface{} { return &struct{}{} }
func (p *joiner) SetUp(g *dictionary.Grammar) error {
	p.pos = g.GetPartOfSpeechId(posOOV[:])
	return nil
}

func (p *joiner) Rewrite(t *gs.InputText, path *[]*gs.LatticeNode, l *gs.Lattice) error {
	r := NewRng(p.seed ^ hashStr(t.GetText()))
	if r.P(30) && len(*path) > 0 { // a path of its own, with which it goes on
		*path = append(make([]*gs.LatticeNode, 0, len(*path)+r.N(3)), *path...)
	}
	for i := r.N(4); i > 0 && len(*path) > 0; i-- {
		n := len(*path)
		old := append([]*gs.LatticeNode{}, *path...)
		if r.P(10) { // an empty range
			b := r.N(n)
			var err error
			if r.P(50) {
				_, err = gs.ConcatenateNodes(path, b, b-r.N(b+1), l, "")
			} else {
				_, err = gs.ConcatenateOov(path, b, b-r.N(b+1), p.pos, l)
			}
			if err == nil {
				p.t.check("joining an empty range succeeds")
			}
			if showPath(*path) != showPath(old) {
				p.t.check("joining an empty range changes the path")
			}
			continue
		}
		b := r.N(n)
		e := b + 1 + r.N(r.Pick0(1, 3, n-b))
		if e > n {
			e = n
		}
		var want dictionary.WordInfo
		for _, x := range old[b:e] {
			wi := x.GetWordInfo()
			want.Surface += wi.Surface
			want.HeadwordLength += wi.HeadwordLength
			want.NormalizedForm += wi.NormalizedForm
			want.DictionaryForm += wi.DictionaryForm
			want.ReadingForm += wi.ReadingForm
		}
		want.PosId = old[b].GetWordInfo().PosId
		var node *gs.LatticeNode
		var err error
		from, to := old[b].GetBegin(), old[e-1].GetEnd()
		what := "ConcatenateNodes"
		if r.P(50) {
			norm := ""
			if r.P(50) {
				norm = r.Pick([]string{"x", "正規", "0", " "})
				want.NormalizedForm = norm
			}
			node, err = gs.ConcatenateNodes(path, b, e, l, norm)
			if err == nil && node.IsOOV() {
				p.t.check("ConcatenateNodes makes an OOV word")
			}
		} else {
			what = "ConcatenateOov"
			existing := l.GetMinimumNode(from, to)
			node, err = gs.ConcatenateOov(path, b, e, p.pos, l)
			if err == nil && existing != nil {
				if node != existing {
					p.t.check("ConcatenateOov does not take the word of the lattice with that range")
				}
				want = *existing.GetWordInfo()
			} else if err == nil {
				want.PosId = p.pos
				want.NormalizedForm, want.DictionaryForm, want.ReadingForm = want.Surface, want.Surface, ""
				if !node.IsOOV() {
					p.t.check("ConcatenateOov makes a word that is not OOV")
				}
			}
		}
		if err != nil {
			p.t.check("%s of the words %d to %d of %d: %v", what, b, e, n, err)
		}
		if node.GetBegin() != from || node.GetEnd() != to {
			p.t.check("%s of [%d,%d) makes a word at [%d,%d)", what, from, to, node.GetBegin(), node.GetEnd())
		}
		if got := *node.GetWordInfo(); got.Surface != want.Surface || got.HeadwordLength != want.HeadwordLength || got.PosId != want.PosId ||
			got.NormalizedForm != want.NormalizedForm || got.DictionaryForm != want.DictionaryForm || got.ReadingForm != want.ReadingForm {
			p.t.check("%s of the words %d to %d of %s makes %+v, expected %+v", what, b, e, showPath(old), got, want)
		}
		after := append(append(append([]*gs.LatticeNode{}, old[:b]...), node), old[e:]...)
		if len(after) != len(*path) {
			p.t.check("%s of %d of %d words leaves %d", what, e-b, n, len(*path))
		}
		for i := range after {
			if after[i] != (*path)[i] {
				p.t.check("%s of the words %d to %d of %s leaves %s", what, b, e, showPath(old), showPath(*path))
			}
		}
		p.c.Count("words_joined_by_helpers", e-b)
	}
	if r.P(30) && len(*path) > 0 { // a path of its own
		*path = append([]*gs.LatticeNode{}, *path...)
	}
	return nil
}

func runC25(c *Ctx) {
	r := c.R
	o := GenOpt{Users: r.Pick0(0, 0, 1, 2), Narrow: r.P(50), NoOOVHoles: r.P(70), Forbid: r.Pick0(0, 0, 10)}
	w := genWorld(r, c.Dir, o)
	for len(w.Pl.Oov) < 3 && r.P(50) {
		w.Pl.Oov = append(w.Pl.Oov, oovCfg{Kind: "custom", Seed: r.U64(), Pos: posOOV, NL: w.M.L, NR: w.M.R})
	}
	if err := w.Build(); err != nil {
		c.Setup("%v", err)
	}
	var t *trace
	var nIn, nOov, nPath, nEdit int
	seed := r.U64()
	open := func(tr *trace) (*gs.JapaneseDictionary, error) {
		t = tr
		t.cost = map[[2]int16]int16{}
		t.check = c.Fail
		r := NewRng(seed)
		in, oov, path := w.plugins(nil, "")
		many := func() int { // sometimes many plugins
			if r.P(4) {
				return r.Pick0(4, 7, 8, 9, 15, 16, 17)
			}
			return r.N(3)
		}
		for i := many(); i > 0; i-- {
			in = append(in, &customInput{r.U64()})
		}
		r.Shuffle(len(in), func(i, j int) { in[i], in[j] = in[j], in[i] })
		for i := many(); i > 0; i-- {
			path = append(path, &joiner{seed: r.U64(), t: t, c: c})
		}
		r.Shuffle(len(path), func(i, j int) { path[i], path[j] = path[j], path[i] })
		for i, p := range in {
			in[i] = &traceIn{p, t, fmt.Sprintf("in%02d", i)}
		}
		for i, p := range oov {
			oov[i] = &traceOov{p, t, fmt.Sprintf("oov%02d", i)}
		}
		for i, p := range path {
			path[i] = &tracePath{p, t, fmt.Sprintf("path%02d", i)}
		}
		var edit []gs.EditConnectionCostPlugin
		for i, n := 0, r.N(4)+many()/3*3; i < n; i++ {
			p := &traceEdit{t: t, name: fmt.Sprintf("edit%02d", i)}
			for j := r.N(4); j > 0; j-- {
				p.cells = append(p.cells, [3]int16{int16(r.N(w.M.L)), int16(r.N(w.M.R)), int16(r.Range(-500, 500))})
			}
			edit = append(edit, p)
		}
		nIn, nOov, nPath, nEdit = len(in), len(oov), len(path), len(edit)
		return gs.NewJapaneseDictionary(w.config(-1), in, oov, path, edit)
	}
	injected := func(what string) error { return errors.New("injected failure of " + what) }
	reports := func(err, inj error) bool {
		return errors.Is(err, inj) || strings.Contains(err.Error(), inj.Error())
	}

	d, err := open(&trace{})
	if err != nil {
		c.Setup("opening: %v", err)
	}
	defer d.Close()
	// each is set up once, the edit plugins edit once, in order
	var edits []string
	setups := map[string]int{}
	for i, e := range t.events {
		switch e.kind {
		case "setup":
			setups[e.plugin]++
		case "edit":
			if setups[e.plugin] == 0 {
				c.Fail("%s edits before it is set up", e.plugin)
			}
			edits = append(edits, e.plugin)
		default:
			c.Fail("event %d of the opening is %+v", i, e)
		}
	}
	if !sort.StringsAreSorted(edits) || len(edits) != nEdit {
		c.Fail("the edit plugins (%d) edit in the order %v", nEdit, edits)
	}
	var names []string
	for kind, n := range map[string]int{"in": nIn, "oov": nOov, "path": nPath, "edit": nEdit} {
		for i := 0; i < n; i++ {
			names = append(names, fmt.Sprintf("%s%02d", kind, i))
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if setups[n] != 1 {
			c.Fail("%s is set up %d times", n, setups[n])
		}
	}
	if len(setups) != len(names) {
		c.Fail("set up: %v, configured: %v", setups, names)
	}
	main := t

	// a plugin that cannot be set up, or cannot edit
	if r.P(30) {
		n := r.Pick(names)
		op := "setup"
		if strings.HasPrefix(n, "edit") && r.P(50) {
			op = "run"
		}
		tr := &trace{fail: n, failOp: op, err: injected(n)}
		d2, err := open(tr)
		if err == nil {
			d2.Close()
			c.Fail("opening succeeds although %s failed (%s)", n, op)
		}
		if !reports(err, tr.err) {
			c.Fail("opening reports %q although %s failed (%s) with %q", err, n, op, tr.err)
		}
		if k := len(tr.events) - 1; k < 0 || tr.events[k].plugin != n || tr.events[k].err == nil {
			c.Fail("%s failed (%s) at the opening, and then %+v is called", n, op, tr.events[k])
		}
		c.Count("failed_openings", 1)
		t = main
	}

	toks := []*gs.JapaneseTokenizer{d.Create()}
	for i := 0; i < 20; i++ {
		if r.P(10) {
			toks = append(toks, d.Create())
		}
		tok := toks[r.N(len(toks))]
		text := w.Text(r, textLen(r), o)
		if r.P(5) {
			text = ""
		}
		mode := r.Pick(modes)
		t.events, t.fail, t.calls = nil, "", 0
		if r.P(40) {
			var run []string
			for _, n := range names {
				if !strings.HasPrefix(n, "edit") {
					run = append(run, n)
				}
			}
			t.fail, t.failOp = r.Pick(run), "run"
			if strings.HasPrefix(t.fail, "oov") {
				t.failAt = r.Pick0(0, r.N(3), r.N(20))
			} else {
				t.failAt = 0
			}
			t.err = injected(t.fail)
		}
		t.text = text
		l, err := tok.Tokenize(mode, text)
		show := func() string {
			var b strings.Builder
			for _, e := range t.events {
				fmt.Fprintf(&b, "\n%s %d %v", e.plugin, e.offset, e.err)
			}
			return clip(b.String(), 1500)
		}
		what := fmt.Sprintf("mode %s, text %+q", mode, text)
		if text == "" {
			if err != nil || l.Length() != 0 {
				c.Fail("the empty text: %v", err)
			}
			continue
		}
		var failed error
		in, oov, path, offset, prev := 0, 0, 0, -1, text
		var words []string
		stage := 0
		for k, e := range t.events {
			if failed != nil {
				c.Fail("%s: %s is called after a plugin has failed%s", what, e.plugin, show())
			}
			failed = e.err
			st := map[string]int{"in": 1, "oov": 2, "path": 3}[e.kind]
			if st < stage || st == 0 {
				c.Fail("%s: %s is called after a plugin of a later stage%s", what, e.plugin, show())
			}
			switch e.kind {
			case "in":
				if e.plugin != fmt.Sprintf("in%02d", in) {
					c.Fail("%s: call %d is of %s, expected in%d%s", what, k, e.plugin, in, show())
				}
				if e.before != string([]rune(prev)) {
					c.Fail("%s: %s gets %+q, the text is %+q", what, e.plugin, e.before, prev)
				}
				in++
				prev = e.after
			case "oov":
				if in != nIn {
					c.Fail("%s: %s is called after %d of %d input text plugins%s", what, e.plugin, in, nIn, show())
				}
				if e.before != string([]rune(prev)) {
					c.Fail("%s: %s gets %+q, the text is %+q", what, e.plugin, e.before, prev)
				}
				if e.offset < offset {
					c.Fail("%s: %s is asked for %d after %d%s", what, e.plugin, e.offset, offset, show())
				}
				want := 0
				if e.offset == offset && oov < nOov {
					want = oov
				}
				if e.plugin != fmt.Sprintf("oov%02d", want) {
					c.Fail("%s: %s is asked for %d, expected oov%d%s", what, e.plugin, e.offset, want, show())
				}
				offset, oov = e.offset, want+1
			case "path":
				if in != nIn {
					c.Fail("%s: %s is called after %d of %d input text plugins%s", what, e.plugin, in, nIn, show())
				}
				if e.plugin != fmt.Sprintf("path%02d", path) {
					c.Fail("%s: call %d is of %s, expected path%d%s", what, k, e.plugin, path, show())
				}
				if path > 0 && e.before != prev {
					c.Fail("%s: %s gets the path %s, the plugin before it left %s", what, e.plugin, e.before, prev)
				}
				path++
				prev, words = e.after, e.words
			}
			stage = st
		}
		if failed != nil {
			if err == nil {
				c.Fail("%s succeeds although %s failed%s", what, t.fail, show())
			}
			if !reports(err, failed) {
				c.Fail("%s reports %q although %s failed with %q", what, err, t.fail, failed)
			}
			c.Count("failed_plugins", 1)
			c.Eval(fmt.Sprint(what, t.fail, t.failAt))
			continue
		}
		if err != nil {
			// nothing connects, or nothing is offered: before the paths
			if path > 0 {
				c.Fail("%s fails with %v after the path was rewritten%s", what, err, show())
			}
			c.Count("unanalysable_texts", 1)
			continue
		}
		if in != nIn || path != nPath {
			c.Fail("%s: %d of %d input text plugins and %d of %d path plugins were called", what, in, nIn, path, nPath)
		}
		if path > 0 && mode == "C" {
			var got []string
			for i := 0; i < l.Length(); i++ {
				m := l.Get(i)
				got = append(got, fmt.Sprintf("%d/%d %v %+v", m.GetDictionaryId(), m.GetWordId(), m.IsOOV(), *m.GetWordInfo()))
			}
			if fmt.Sprint(got) != fmt.Sprint(words) {
				c.Fail("%s: the last path plugin left\n%s\nthe result is\n%s", what, words, got)
			}
		}
		c.Count("plugin_calls", len(t.events))
		c.Eval(fmt.Sprint(what, len(t.events), prev))
	}
}

func init() {
	register(&Check{ID: "C25", Quick: 26000, MinDistinct: 3000, Run: runC25,
		Rule: "a case opens a generated world with all its plugins, and further rewriting, joining and cost-editing ones, wrapped in tracers, and analyses 20 texts, 40% of them with a plugin that fails at a chosen call; the trace of the calls must be a run of the pipeline, each plugin seeing what the one before it left, ending at the failure, which must come out; non-trivial: a non-empty text; distinct by text, failure and last path"})
}
