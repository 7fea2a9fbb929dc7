package main

import (
	"errors"
	"fmt"
	"os"
	"strconv"
	"strings"

	gs "github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

// ---- plugin configuration of a world -----------------------------------------

type inputCfg struct {
	Kind  string // default, prolonged, custom
	Def   string // text of the replacement list, "" the default one
	Marks []string
	Sym   string
	Seed  uint64 // of the custom plugin
}

type oovCfg struct {
	Kind    string // mecab, simple, custom
	L, R, C int
	Pos     [6]string
	Seed    uint64
	Holes   int // percentage of positions where custom offers nothing
	NL, NR  int
}

type pathCfg struct {
	Kind   string // numeric, katakana
	Norm   *bool
	MinLen *int
	Pos    [6]string
}

type PluginCfg struct {
	Input []inputCfg
	Oov   []oovCfg
	Path  []pathCfg
}

func genPlugins(r *Rng, w *World, o GenOpt) PluginCfg {
	var p PluginCfg
	if o.Input == 0 {
		switch r.N(6) {
		case 0:
		case 1:
			p.Input = []inputCfg{genInput(r, w, "default")}
		case 2:
			p.Input = []inputCfg{genInput(r, w, "prolonged")}
		case 3:
			p.Input = []inputCfg{genInput(r, w, "default"), genInput(r, w, "prolonged")}
		case 4:
			p.Input = []inputCfg{genInput(r, w, "prolonged"), genInput(r, w, "default")}
		case 5:
			p.Input = []inputCfg{genInput(r, w, "default"), genInput(r, w, "custom")}
		}
	}
	simple := oovCfg{Kind: "simple", L: r.N(w.M.R), R: r.N(w.M.L), C: r.Range(500, 30000), Pos: posOOV}
	mecab := oovCfg{Kind: "mecab"}
	custom := oovCfg{Kind: "custom", Seed: r.U64(), Pos: posOOV, NL: w.M.L, NR: w.M.R}
	if !o.NoOOVHoles && r.P(50) {
		custom.Holes = r.Range(1, 30)
	}
	k := r.N(8)
	if o.NoOOVHoles {
		k = r.Pick0(1, 1, 1, 4, 6)
	}
	switch k {
	case 0:
		p.Oov = []oovCfg{simple}
	case 1, 2:
		p.Oov = []oovCfg{mecab, simple}
	case 3:
		p.Oov = []oovCfg{mecab}
	case 4:
		p.Oov = []oovCfg{simple, mecab}
	case 5:
		p.Oov = []oovCfg{custom}
	case 6:
		p.Oov = []oovCfg{custom, mecab}
	case 7:
		p.Oov = []oovCfg{mecab, custom, simple}
	}
	if o.Path == 0 {
		num := pathCfg{Kind: "numeric"}
		if r.P(60) {
			b := r.P(60)
			num.Norm = &b
		}
		kat := pathCfg{Kind: "katakana", Pos: posOOV}
		if r.P(80) {
			n := r.N(5)
			kat.MinLen = &n
		}
		switch r.N(5) {
		case 0:
		case 1:
			p.Path = []pathCfg{num}
		case 2:
			p.Path = []pathCfg{kat}
		case 3:
			p.Path = []pathCfg{num, kat}
		case 4:
			p.Path = []pathCfg{kat, num}
		}
	}
	return p
}

func genInput(r *Rng, w *World, kind string) inputCfg {
	c := inputCfg{Kind: kind}
	switch kind {
	case "default":
		if r.P(50) {
			c.Def = genRewriteDef(r, w.alpha)
		}
	case "prolonged":
		all := []string{"ー", "〜", "～", "-", "~", "あ", "ｰ"}
		for _, m := range all {
			if r.P(50) {
				c.Marks = append(c.Marks, m)
			}
		}
		if len(c.Marks) == 0 {
			c.Marks = []string{"ー"}
		}
		c.Sym = r.Pick([]string{"ー", "ー", "ーー", "長い", "ーーーー", "x"})
	case "custom":
		c.Seed = r.U64()
	}
	return c
}

// ---- recorders -------------------------------------------------------------------

// NodeSnap is a lattice node as seen by a recorder.
type NodeSnap struct {
	Ptr     *gs.LatticeNode
	B, E    int
	Wid     int
	Dict    int
	L, R, C int
	Oov     bool
	WI      dictionary.WordInfo
}

func snap(n *gs.LatticeNode) NodeSnap {
	s := NodeSnap{Ptr: n, B: n.GetBegin(), E: n.GetEnd(), Wid: n.GetWordId(), Dict: n.GetDictionaryId(), Oov: n.IsOOV(), C: n.GetPathCost()}
	f := strings.Fields(n.String())
	if len(f) >= 3 {
		s.L, _ = strconv.Atoi(f[len(f)-3])
		s.R, _ = strconv.Atoi(f[len(f)-2])
	}
	s.WI = *n.GetWordInfo()
	return s
}

func (s NodeSnap) String() string {
	return fmt.Sprintf("[%d,%d) %q wid=%x dict=%d l=%d r=%d c=%d oov=%v pos=%d norm=%q", s.B, s.E, s.WI.Surface, s.Wid, s.Dict, s.L, s.R, s.C, s.Oov, s.WI.PosId, s.WI.NormalizedForm)
}

type OovCall struct {
	Provider int
	Offset   int
	Has      bool
	Nodes    []NodeSnap
	Err      error
}

// Rec collects what the recorders of one dictionary saw since Reset. It is for
// one goroutine.
type Rec struct {
	Texts   [][]rune // after each input text plugin (first: before any)
	Input   *gs.InputText
	Calls   []OovCall
	Lattice []NodeSnap   // when path rewriting starts
	Paths   [][]NodeSnap // before the first, and after each path rewrite plugin
	Grammar *dictionary.Grammar
	Light   bool // only the paths
}

func (r *Rec) Reset() {
	r.Texts, r.Input, r.Calls, r.Lattice, r.Paths = nil, nil, nil, nil, nil
}

type recInput struct{ rec *Rec }

func (p *recInput) GetConfigStruct() interface{} { return &struct{}{} }
func (p *recInput) SetUp() error                 { return nil }
func (p *recInput) Rewrite(b *gs.InputTextBuilder) error {
	if !p.rec.Light {
		p.rec.Texts = append(p.rec.Texts, b.GetText())
	}
	return nil
}

type recOov struct {
	gs.OovProviderPlugin
	rec *Rec
	idx int
}

func (p *recOov) SetUp(g *dictionary.Grammar) error {
	p.rec.Grammar = g
	return p.OovProviderPlugin.SetUp(g)
}

func (p *recOov) ProvideOOV(t *gs.InputText, offset int, has bool) ([]*gs.LatticeNode, error) {
	nodes, err := p.OovProviderPlugin.ProvideOOV(t, offset, has)
	if p.rec.Light {
		return nodes, err
	}
	p.rec.Input = t
	c := OovCall{Provider: p.idx, Offset: offset, Has: has, Err: err}
	for _, n := range nodes {
		s := snap(n)
		if s.B != offset || s.E <= offset { // the range is set from the length
			s.B, s.E = offset, offset+int(s.WI.HeadwordLength)
		}
		c.Nodes = append(c.Nodes, s)
	}
	p.rec.Calls = append(p.rec.Calls, c)
	return nodes, err
}

type recPath struct {
	rec   *Rec
	first bool
}

func (p *recPath) GetConfigStruct() interface{}      { return &struct{}{} }
func (p *recPath) SetUp(g *dictionary.Grammar) error { p.rec.Grammar = g; return nil }
func (p *recPath) Rewrite(t *gs.InputText, path *[]*gs.LatticeNode, l *gs.Lattice) error {
	p.rec.Input = t
	if p.first && !p.rec.Light {
		for e := 1; e <= len(t.Bytea); e++ {
			for _, n := range l.GetNodesWithEnd(e) {
				p.rec.Lattice = append(p.rec.Lattice, snap(n))
			}
		}
	}
	var s []NodeSnap
	for _, n := range *path {
		s = append(s, snap(n))
	}
	p.rec.Paths = append(p.rec.Paths, s)
	return nil
}

// customOov offers words that depend only on the text and the seed.
type customOov struct {
	cfg   oovCfg
	posId int16
}

func (p *customOov) GetConfigStruct() interface{} { return &struct{}{} }
func (p *customOov) SetUp(g *dictionary.Grammar) error {
	p.posId = g.GetPartOfSpeechId(p.cfg.Pos[:])
	if p.posId < 0 {
		return errors.New("custom: unknown part of speech")
	}
	return nil
}
func (p *customOov) ProvideOOV(t *gs.InputText, offset int, has bool) ([]*gs.LatticeNode, error) {
	end := offset + 24
	if end > len(t.Bytea) {
		end = len(t.Bytea)
	}
	for end < len(t.Bytea) && t.Bytea[end]&0xc0 == 0x80 {
		end--
	}
	r := NewRng(p.cfg.Seed ^ hashStr(string(t.Bytea[offset:end]), fmt.Sprint(has)))
	if r.P(p.cfg.Holes) {
		return nil, nil
	}
	var nodes []*gs.LatticeNode
	k := 1 + r.N(3)
	if has {
		k = r.N(2)
	}
	rs := []rune(string(t.Bytea[offset:end]))
	for ; k > 0; k-- {
		n := 1 + r.N(3)
		if n > len(rs) {
			n = len(rs)
		}
		s := string(rs[:n])
		node := gs.CreateNodeOfOOV()
		node.SetParameter(int16(r.N(p.cfg.NR)), int16(r.N(p.cfg.NL)), int16(r.Range(-1000, 32767)))
		node.SetWordInfo(&dictionary.WordInfo{Surface: s, HeadwordLength: int16(len(s)), PosId: p.posId, NormalizedForm: s, DictionaryForm: s})
		nodes = append(nodes, node)
	}
	return nodes, nil
}

// customInput makes replacements that depend only on the text and the seed.
type customInput struct{ seed uint64 }

func (p *customInput) GetConfigStruct() interface{} { return &struct{}{} }
func (p *customInput) SetUp() error                 { return nil }
func (p *customInput) Rewrite(b *gs.InputTextBuilder) error {
	r := NewRng(p.seed ^ hashStr(string(b.GetText())))
	for i := r.N(4); i > 0; i-- {
		n := len(b.GetText())
		if n == 0 {
			break
		}
		bg := r.N(n)
		e := bg + 1 + r.N(3)
		if e > n {
			e = n
		}
		b.Replace(bg, e, []rune(genWord(r, abWords, 4)))
	}
	return nil
}

// modelCustomInput is the same on the model.
func modelCustomInput(t *RText, seed uint64) *RText {
	r := NewRng(seed ^ hashStr(string(t.Runes)))
	for i := r.N(4); i > 0; i-- {
		n := len(t.Runes)
		if n == 0 {
			break
		}
		bg := r.N(n)
		e := bg + 1 + r.N(3)
		if e > n {
			e = n
		}
		t = t.replace(bg, e, []rune(genWord(r, abWords, 4)))
	}
	return t
}

func (t *RText) replace(b, e int, s []rune) *RText {
	var cuts []int
	var out [][]rune
	for i := 0; i < b; i++ {
		cuts, out = append(cuts, i), append(out, t.Runes[i:i+1])
	}
	cuts, out = append(cuts, b), append(out, s)
	for i := e; i < len(t.Runes); i++ {
		cuts, out = append(cuts, i), append(out, t.Runes[i:i+1])
	}
	return t.apply(cuts, out)
}

// modelInput applies the configured input text plugins.
func (w *World) modelInput(text string) *RText {
	t := newRText(text)
	for _, c := range w.Pl.Input {
		t = c.apply(t)
	}
	return t
}

func (c inputCfg) apply(t *RText) *RText {
	switch c.Kind {
	case "default":
		d := defaultRewrite()
		if c.Def != "" {
			d = parseRewriteDef(c.Def)
		}
		return d.Apply(t)
	case "prolonged":
		m := map[rune]bool{}
		for _, s := range c.Marks {
			m[[]rune(s)[0]] = true
		}
		return applyProlonged(t, m, []rune(c.Sym))
	case "custom":
		return modelCustomInput(t, c.Seed)
	}
	return t
}

// ---- opening ------------------------------------------------------------------------

// Opened is an open dictionary with its recorders.
type Opened struct {
	D   *gs.JapaneseDictionary
	T   *gs.JapaneseTokenizer
	Rec *Rec
}

func i16p(n int) *int16 { v := int16(n); return &v }

// plugins makes new plugin objects with recorders in between.
func (w *World) plugins(rec *Rec, suffix string) ([]gs.InputTextPlugin, []gs.OovProviderPlugin, []gs.PathRewritePlugin) {
	var in []gs.InputTextPlugin
	var oov []gs.OovProviderPlugin
	var path []gs.PathRewritePlugin
	if rec != nil {
		in = append(in, &recInput{rec})
	}
	for i, c := range w.Pl.Input {
		switch c.Kind {
		case "default":
			cfg := &gs.DefaultInputTextPluginConfig{}
			if c.Def != "" {
				cfg.RewriteDef = w.write(fmt.Sprintf("rewrite%d%s.def", i, suffix), c.Def)
			}
			in = append(in, gs.NewDefaultInputTextPlugin(cfg))
		case "prolonged":
			marks, sym := append([]string{}, c.Marks...), c.Sym
			in = append(in, gs.NewProlongedSoundMarkInputTextPlugin(&gs.ProlongedSoundMarkInputTextPluginConfig{ProlongedSoundMarks: &marks, ReplacementSymbol: &sym}))
		case "custom":
			in = append(in, &customInput{c.Seed})
		}
		if rec != nil {
			in = append(in, &recInput{rec})
		}
	}
	for i, c := range w.Pl.Oov {
		var p gs.OovProviderPlugin
		switch c.Kind {
		case "mecab":
			cfg := &gs.MeCabOovProviderPluginConfig{}
			if w.CharDef != "" {
				s := w.write("char"+suffix+".def", w.CharDef)
				cfg.CharDef = &s
			}
			u := w.write("unk"+suffix+".def", w.UnkText)
			if !w.DefaultUnk {
				cfg.UnkDef = &u
			}
			p = gs.NewMeCabOovProviderPlugin(cfg)
		case "simple":
			pos := append([]string{}, c.Pos[:]...)
			p = gs.NewSimpleOovProviderPlugin(&gs.SimpleOovProviderPluginConfig{OovPos: &pos, LeftId: i16p(c.L), RightId: i16p(c.R), Cost: i16p(c.C)})
		case "custom":
			p = &customOov{cfg: c}
		}
		if rec != nil {
			p = &recOov{p, rec, i}
		}
		oov = append(oov, p)
	}
	if rec != nil {
		path = append(path, &recPath{rec, true})
	}
	for _, c := range w.Pl.Path {
		switch c.Kind {
		case "numeric":
			path = append(path, gs.NewJoinNumericPlugin(&gs.JoinNumericPluginConfig{EnableNormalize: c.Norm}))
		case "katakana":
			pos := append([]string{}, c.Pos[:]...)
			path = append(path, gs.NewJoinKatakanaOovPlugin(&gs.JoinKatakanaOovPluginConfig{OovPOS: &pos, MinLength: c.MinLen}))
		}
		if rec != nil {
			path = append(path, &recPath{rec, false})
		}
	}
	return in, oov, path
}

func (w *World) config(nUsers int) *gs.BaseConfig {
	cfg := &gs.BaseConfig{SystemDict: w.SysPath, Utf16String: w.UTF16}
	if w.CharDef != "" {
		cfg.CharacterDefinitionFile = w.write("charbase.def", w.CharDef)
	}
	if nUsers < 0 {
		nUsers = len(w.UserPath)
	}
	cfg.UserDict = append(cfg.UserDict, w.UserPath[:nUsers]...)
	return cfg
}

func (w *World) edits() []gs.EditConnectionCostPlugin {
	if len(w.Inhibit) == 0 {
		return nil
	}
	var ps []*[]int
	for _, p := range w.Inhibit {
		ps = append(ps, &[]int{p[0], p[1]})
	}
	return []gs.EditConnectionCostPlugin{gs.NewInhibitConnectionPlugin(ps)}
}

// Open opens the world's dictionaries; nUsers -1 for all user dictionaries.
func (w *World) Open(nUsers int, record bool) (*Opened, error) {
	var rec *Rec
	if record {
		rec = &Rec{}
	}
	in, oov, path := w.plugins(rec, "")
	d, err := gs.NewJapaneseDictionary(w.config(nUsers), in, oov, path, w.edits())
	if err != nil {
		return nil, err
	}
	if rec != nil {
		rec.Reset()
	}
	return &Opened{d, d.Create(), rec}, nil
}

func (o *Opened) Close() { o.D.Close() }

// mustWorld builds and opens a random world.
func mustWorld(c *Ctx, o GenOpt) (*World, *Opened) {
	w := genWorld(c.R, c.Dir, o)
	if o.Long {
		w.Pl.Oov = []oovCfg{{Kind: "simple", Pos: posOOV, C: 3000}}
	}
	if err := w.Build(); err != nil {
		c.Setup("%v", err)
	}
	op, err := w.Open(-1, true)
	if err != nil {
		c.Setup("opening: %v", err)
	}
	return w, op
}

// ---- reading morphemes ------------------------------------------------------------------

type Morph struct {
	Begin, End      int
	Surface         string
	Pos             string
	Dict, Norm, Rdg string
	Oov             bool
	Wid, DictId     int
}

func readMorph(m *gs.Morpheme) Morph {
	return Morph{m.Begin(), m.End(), m.Surface(), strings.Join(m.PartOfSpeech(), "\x01"), m.DictionaryForm(), m.NormalizedForm(), m.ReadingForm(), m.IsOOV(), m.GetWordId(), m.GetDictionaryId()}
}

func readList(l *gs.MorphemeList) []Morph {
	var ms []Morph
	for i := 0; i < l.Length(); i++ {
		ms = append(ms, readMorph(l.Get(i)))
	}
	return ms
}

// digest is everything a user can read from a list, splits included.
func digest(l *gs.MorphemeList) string {
	var b strings.Builder
	for i := 0; i < l.Length(); i++ {
		m := l.Get(i)
		fmt.Fprintf(&b, "%+q", fmt.Sprint(readMorph(m)))
		for _, mode := range []string{"A", "B", "C"} {
			s := m.Split(mode)
			if s.Length() != 1 || mode == "C" {
				fmt.Fprintf(&b, " %s:%+q", mode, fmt.Sprint(readList(s)))
			}
		}
		b.WriteByte('\n')
	}
	fmt.Fprintf(&b, "cost %d", l.GetInternalCost())
	return b.String()
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }
