package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
)

// ---- sources of a dictionary -------------------------------------------

// Ref is a reference to a word in a split or structure column.
type Ref struct {
	Kind byte // 'n' number, 'U' own dictionary, 'i' inline
	Own  bool // resolves to the dictionary's own words (else to the system's)
	Id   int
}

type Entry struct {
	Head    string
	L, R, C int // L == -1: not indexed
	Surf    string
	Pos     [6]string
	Read    string // column 11
	Norm    string // column 12
	DF      int    // -1: "*"
	Unit    string
	A, B, W []Ref
}

func (e *Entry) Indexed() bool { return e.L != -1 && e.Head != "" }

// Reading is the reading the dictionary reports.
func (e *Entry) Reading() string {
	if e.Read == "" {
		return e.Surf
	}
	return e.Read
}
func (e *Entry) Normalized() string {
	if e.Norm == "" {
		return e.Surf
	}
	return e.Norm
}

type DictSrc struct {
	Entries []*Entry
	User    bool
	Sys     *DictSrc // of a user dictionary
	// index by headword, made on demand
	byHead map[string][]int
	maxLen int
}

func (d *DictSrc) DictForm(i int) string {
	e := d.Entries[i]
	if e.DF < 0 {
		return e.Surf
	}
	return d.Entries[e.DF].Surf
}

func (d *DictSrc) index() {
	if d.byHead != nil {
		return
	}
	d.byHead = map[string][]int{}
	for i, e := range d.Entries {
		if e.Indexed() {
			d.byHead[e.Head] = append(d.byHead[e.Head], i)
			if len(e.Head) > d.maxLen {
				d.maxLen = len(e.Head)
			}
		}
	}
}

type match struct{ id, end int }

// Match returns the words of d that match at the offset.
func (d *DictSrc) Match(text []byte, offset int) []match {
	d.index()
	var ms []match
	for l := 1; l <= d.maxLen && offset+l <= len(text); l++ {
		for _, i := range d.byHead[string(text[offset:offset+l])] {
			ms = append(ms, match{i, offset + l})
		}
	}
	return ms
}

// PosList is the part-of-speech table that the source defines, in the order of
// first use. For a user dictionary: the ones the system lacks.
func (d *DictSrc) PosList() [][6]string {
	seen := map[[6]string]bool{}
	if d.User {
		for _, p := range d.Sys.PosList() {
			seen[p] = true
		}
	}
	var l [][6]string
	for _, e := range d.Entries {
		if !seen[e.Pos] {
			seen[e.Pos] = true
			l = append(l, e.Pos)
		}
	}
	return l
}

func (r Ref) text(d *DictSrc, esc func(string) string) string {
	switch r.Kind {
	case 'U':
		return "U" + strconv.Itoa(r.Id)
	case 'n':
		return strconv.Itoa(r.Id)
	}
	t := d
	if !r.Own {
		t = d.Sys
	}
	e := t.Entries[r.Id]
	f := []string{e.Surf}
	f = append(f, e.Pos[:]...)
	if r.Own {
		f = append(f, e.Read)
	} else {
		f = append(f, e.Reading())
	}
	// inside a column the commas between the parts are escaped
	return strings.Join(f, `\u002c`)
}

func refsText(d *DictSrc, rs []Ref) string {
	if len(rs) == 0 {
		return "*"
	}
	var p []string
	for _, r := range rs {
		p = append(p, r.text(d, nil))
	}
	return strings.Join(p, "/")
}

// escPlain escapes what cannot stand in a column.
func escPlain(s string) string {
	return strings.NewReplacer(",", `\u002c`, "\n", `\u000a`, "\r", `\u000d`, `\`, `\u005c`).Replace(s)
}

func (d *DictSrc) Line(i int, esc func(string) string) string {
	e := d.Entries[i]
	df := "*"
	if e.DF >= 0 {
		df = strconv.Itoa(e.DF)
	}
	cols := []string{esc(e.Head), strconv.Itoa(e.L), strconv.Itoa(e.R), strconv.Itoa(e.C), esc(e.Surf)}
	for _, p := range e.Pos {
		cols = append(cols, esc(p))
	}
	cols = append(cols, esc(e.Read), esc(e.Norm), df, e.Unit, refsText(d, e.A), refsText(d, e.B), refsText(d, e.W))
	return strings.Join(cols, ",")
}

func (d *DictSrc) CSV() string {
	var b strings.Builder
	for i := range d.Entries {
		b.WriteString(d.Line(i, escPlain))
		b.WriteByte('\n')
	}
	return b.String()
}

// Matrix: cost[l][r] is the cost of a word with right id l before a word with
// left id r.
type Matrix struct {
	L, R int
	Cost [][]int16
	Set  [][]bool
}

func newMatrix(l, r int) *Matrix {
	m := &Matrix{L: l, R: r}
	for i := 0; i < l; i++ {
		m.Cost = append(m.Cost, make([]int16, r))
		m.Set = append(m.Set, make([]bool, r))
	}
	return m
}

func (m *Matrix) Text() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d %d\n", m.L, m.R)
	for l := 0; l < m.L; l++ {
		for r := 0; r < m.R; r++ {
			if m.Set[l][r] {
				fmt.Fprintf(&b, "%d %d %d\n", l, r, m.Cost[l][r])
			}
		}
	}
	return b.String()
}

// ---- building through the library ----------------------------------------

func buildSystem(path string, lex []string, matrix string, utf16 bool, ctime int64, desc string) error {
	h, err := dictionary.NewDictionaryHeader(dictionary.SystemDictVersion, ctime, desc).ToBytes()
	if err != nil {
		return err
	}
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	if _, err := f.Write(h); err != nil {
		return err
	}
	b := dictionary.NewDictionaryBuilder(int64(len(h)), nil, utf16)
	store := dictionary.NewPosTable()
	for _, l := range lex {
		if err := b.BuildLexicon(store, buildIO.lexReader(l)); err != nil {
			return err
		}
	}
	if err := b.WriteGrammar(store, buildIO.matReader(matrix), buildIO.writer(f)); err != nil {
		return err
	}
	return b.WriteLexicon(buildIO.writer(f), store)
}

func buildUser(path string, lex []string, sysPath string, utf16 bool, ctime int64, desc string, old bool) error {
	sys, err := dictionary.ReadSystemDictionary(sysPath, utf16)
	if err != nil {
		return err
	}
	defer sys.Close()
	version := uint64(dictionary.UserDictVersion2)
	if old {
		version = dictionary.UserDictVersion
	}
	h, err := dictionary.NewDictionaryHeader(version, ctime, desc).ToBytes()
	if err != nil {
		return err
	}
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	if _, err := f.Write(h); err != nil {
		return err
	}
	b := dictionary.NewDictionaryBuilder(int64(len(h)), sys.Lexicon, utf16)
	store := dictionary.NewPosTableUser(sys.Grammar)
	for _, l := range lex {
		if err := b.BuildLexicon(store, buildIO.lexReader(l)); err != nil {
			return err
		}
	}
	if !old {
		if err := b.WriteGrammarUser(&store.PosTable, buildIO.writer(f)); err != nil {
			return err
		}
	}
	return b.WriteLexicon(buildIO.writer(f), store)
}

// ---- vocabulary ------------------------------------------------------------

var (
	abKanji    = []rune("東京都府市日本行人会社")
	abKanjiX   = []rune("𠮷𠀋")
	abKanjiNum = []rune("一二三四五六七八九十百千万億兆〇")
	abHira     = []rune("あいうえおぁゃっんはが")
	abKata     = []rune("アイウエオァャッンー")
	abLatin    = []rune("abcdxyz")
	abGreek    = []rune("αβγω")
	abCyr      = []rune("дежя")
	abDigit    = []rune("0123456789")
	abSym      = []rune("。、!?-~・")
	abSep      = []rune(".,")
	abEmoji    = []rune("😀👨👩")
)

// abWords: the alphabets of headwords (normalized text).
var abWords = [][]rune{abKanji, abKanji, abKanjiX, abKanjiNum, abHira, abHira, abKata, abKata, abLatin, abGreek, abCyr, abDigit, abSym}

// abRaw: characters that normalization changes or that are unusual.
var abRaw = []rune("ＡＢＣａｂＺ０１９！？．，ABCXYZΑΓΩДЖÉéßİẞǅΩK㍿ﬁ½①㌔ﷺｱｲｶﾞァｰ～〜゛が\u3099が\u200d\ufeff\u00a0　\u0301\ufffd\U0010ffff😀👨👩\t\x00\n\x7fㇰ々〆ヶヴ")

var junkBytes = []string{"\xff", "\xc0\x80", "\xe3\x81", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x80", "\xf0\x9f"}

type GenOpt struct {
	Users       int  // number of user dictionaries (-1: random 0..3)
	NoSplits    bool // no compounds
	PlainText   bool // no undecodable bytes in texts
	Narrow      bool // few characters, so that words overlap much
	UTF16       int  // 0 random, 1 utf8, 2 utf16
	DefaultChar int  // 0 random, 1 always default, 2 never
	Input       int  // 0 random, 1 none
	Path        int  // 0 random, 1 none
	Forbid      int  // percentage of forbidden connections
	SurfEqHead  bool
	AutoCost    bool
	NoOOVHoles  bool // an OOV provider that always offers something
	Inhibit     bool
	WantNumPos  bool
	OnlyEntries bool // no definition files
	Long        bool // for texts beyond 16 bits: few OOV words
	Longer      bool // characters, not only bytes
}

var posNumeric = [6]string{"名詞", "数詞", "*", "*", "*", "*"}
var posOOV = [6]string{"名詞", "普通名詞", "一般", "*", "*", "*"}

var posPool = [][6]string{
	posOOV,
	posNumeric,
	{"名詞", "固有名詞", "地名", "一般", "*", "*"},
	{"動詞", "一般", "*", "*", "五段-カ行", "終止形-一般"},
	{"助詞", "格助詞", "*", "*", "*", "*"},
	{"補助記号", "一般", "*", "*", "*", "*"},
	{"感動詞", "フィラー", "", "*", "x y", "\"q\""},
	{"名詞", "普通名詞", "一般", "*", "*", "一般"},
}

// World is a dictionary set with its configuration and the model data.
type World struct {
	Dir     string
	UTF16   bool
	Sys     *DictSrc
	Users   []*DictSrc
	M       *Matrix
	Cat     *CatModel
	CharDef string // "" default
	Unk     []UnkEntry
	UnkText string
	// the MeCab provider uses the embedded OOV definition
	DefaultUnk bool
	// the connection matrix, if not M
	MatText  string
	Pl       PluginCfg
	SysPath  string
	UserPath []string
	alpha    [][]rune
	Inhibit  [][2]int
}

type UnkEntry struct {
	Cat     string
	L, R, C int
	Pos     [6]string
}

// genWord makes a headword over one or two alphabets.
func genWord(r *Rng, al [][]rune, max int) string {
	a := al[r.N(len(al))]
	n := 1 + r.N(max)
	var b []rune
	for i := 0; i < n; i++ {
		if r.P(15) {
			a = al[r.N(len(al))]
		}
		b = append(b, r.PickRune(a))
	}
	return string(b)
}

func genCost(r *Rng) int {
	switch r.N(10) {
	case 0:
		return r.Range(-32767, 32767)
	case 1:
		return 32767
	case 2, 3:
		return 100
	}
	return r.Range(-200, 3000)
}

func genReading(r *Rng) string {
	switch r.N(6) {
	case 0:
		return ""
	}
	n := r.Range(1, 5)
	var b []rune
	for i := 0; i < n; i++ {
		b = append(b, r.PickRune(abKata))
	}
	return string(b)
}

// genEntries appends n simple words and m compounds to d.
func genEntries(r *Rng, d *DictSrc, al [][]rune, n, m, nl, nr int, pos [][6]string, o GenOpt) {
	var heads []string
	for i := 0; i < n; i++ {
		e := &Entry{DF: -1, Unit: "A"}
		switch {
		case len(heads) > 0 && r.P(15): // homograph
			e.Head = r.Pick(heads)
		case len(heads) > 0 && r.P(15): // prefix-related
			e.Head = r.Pick(heads) + genWord(r, al, 1)
		default:
			e.Head = genWord(r, al, 3)
		}
		heads = append(heads, e.Head)
		fillEntry(r, e, nl, nr, pos, o)
		d.Entries = append(d.Entries, e)
	}
	if m > 0 && !o.NoSplits {
		for i := 0; i < m; i++ {
			genCompound(r, d, nl, nr, pos, o)
		}
	}
	for i, e := range d.Entries {
		if e.DF == -1 && r.P(25) {
			if r.P(20) {
				e.DF = i
			} else {
				e.DF = r.N(len(d.Entries))
			}
		}
	}
}

func fillEntry(r *Rng, e *Entry, nl, nr int, pos [][6]string, o GenOpt) {
	e.L, e.R, e.C = r.N(nr), r.N(nl), genCost(r)
	if o.AutoCost && r.P(40) {
		e.C = -32768
	}
	if r.P(6) {
		e.L = -1
	}
	e.Surf = e.Head
	if !o.SurfEqHead && r.P(10) {
		e.Surf = strings.ToUpper(e.Head) + r.Pick([]string{"", "Ｘ", "ー"})
	}
	if !o.SurfEqHead && e.C == -32768 && o.Path == 0 && r.P(40) { // what path rewriting would join
		e.Surf = r.Pick([]string{"", "", "東京", e.Head}) + r.Pick([]string{strings.Repeat("五", r.Range(1, 5)), strings.Repeat("ア", r.Range(1, 5)), "アカ", "五十", "五.五", "五,五五五"})
	}
	e.Pos = pos[r.N(len(pos))]
	e.Read = genReading(r)
	switch r.N(5) {
	case 0:
		e.Norm = ""
	case 1, 2:
		e.Norm = e.Surf
	default:
		e.Norm = genWord(r, abWords, 3)
	}
}

// pickRef makes a reference from d to word id of d (own) or of the system.
func pickRef(r *Rng, d *DictSrc, own bool, id int) Ref {
	k := r.N(3)
	if k == 2 { // inline, if the first match is the word itself
		if inlineTarget(d, own, id) {
			return Ref{'i', own, id}
		}
		k = r.N(2)
	}
	if d.User {
		if own {
			return Ref{'U', true, id}
		}
		return Ref{'n', false, id}
	}
	if k == 0 {
		return Ref{'U', true, id}
	}
	return Ref{'n', true, id}
}

func inlineOK(s string) bool { return !strings.ContainsAny(s, "/,\\\r\n") }

// inlineTarget tells whether an inline reference finds exactly that word.
func inlineTarget(d *DictSrc, own bool, id int) bool {
	t := d
	if !own {
		t = d.Sys
	}
	e := t.Entries[id]
	if !inlineOK(e.Surf) || !inlineOK(e.Read) || !inlineOK(strings.Join(e.Pos[:], "")) || e.Surf == "" {
		return false
	}
	if strings.HasPrefix(e.Surf, "U") {
		return false
	}
	read := e.Read
	if !own {
		read = e.Reading()
	}
	for i, x := range d.Entries {
		if x.Surf == e.Surf && x.Pos == e.Pos && x.Read == read {
			return own && i == id
		}
	}
	if own || d.Sys == nil {
		return false
	}
	for i, x := range d.Sys.Entries {
		if x.Surf == e.Surf && x.Pos == e.Pos && x.Reading() == read {
			return i == id
		}
	}
	return false
}

type unitRef struct {
	own bool
	id  int
}

func (d *DictSrc) unit(u unitRef) *Entry {
	if u.own {
		return d.Entries[u.id]
	}
	return d.Sys.Entries[u.id]
}

// genCompound appends a word made of other words, with splits.
func genCompound(r *Rng, d *DictSrc, nl, nr int, pos [][6]string, o GenOpt) {
	n, maxLen := r.Range(2, 4), 120
	if r.P(1) { // many units, up to what the format allows
		n, maxLen = r.Pick0(5, 8, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127), 4000
	}
	var us []unitRef
	head := ""
	for i := 0; i < n; i++ {
		u := unitRef{true, 0}
		if d.User && (len(d.Entries) == 0 || r.P(50)) {
			u = unitRef{false, r.N(len(d.Sys.Entries))}
		} else {
			u = unitRef{true, r.N(len(d.Entries))}
		}
		us = append(us, u)
		head += d.unit(u).Head
	}
	if len(head) > maxLen {
		return
	}
	e := &Entry{Head: head, DF: -1}
	fillEntry(r, e, nl, nr, pos, o)
	if r.P(60) {
		e.C = r.Range(-3000, -500)
	}
	e.Unit = r.Pick([]string{"B", "C"})
	refs := func(l []unitRef) (rs []Ref) {
		for _, u := range l {
			rs = append(rs, pickRef(r, d, u.own, u.id))
		}
		return
	}
	if r.P(85) {
		e.A = refs(us)
	}
	// B units: a coarser division, if a word for the joined part exists
	if r.P(70) {
		b := us
		if n > 2 {
			h := d.unit(us[0]).Head + d.unit(us[1]).Head
			for i, x := range d.Entries {
				if x.Head == h {
					b = append([]unitRef{{true, i}}, us[2:]...)
				}
			}
		}
		e.B = refs(b)
	}
	if r.P(40) {
		e.W = refs(us)
	}
	d.Entries = append(d.Entries, e)
}

func genMatrix(r *Rng, l, ri, forbid int) *Matrix {
	m := newMatrix(l, ri)
	few := r.P(40)
	for i := 0; i < l; i++ {
		for j := 0; j < ri; j++ {
			switch {
			case r.P(10): // left at zero
				continue
			case r.P(forbid) && i+j > 0:
				m.Cost[i][j] = 32767
			case few:
				m.Cost[i][j] = int16(r.N(3) * 100)
			case r.P(5):
				m.Cost[i][j] = int16(r.Range(-32768, 32766))
			default:
				m.Cost[i][j] = int16(r.Range(-1500, 1500))
			}
			m.Set[i][j] = true
		}
	}
	return m
}

// genWorld makes the sources of a world; Build writes the dictionaries.
func genWorld(r *Rng, dir string, o GenOpt) *World {
	w := &World{Dir: dir}
	switch o.UTF16 {
	case 0:
		w.UTF16 = r.P(40)
	case 2:
		w.UTF16 = true
	}
	k := r.Range(2, 5)
	if o.Narrow {
		k = r.Range(1, 3)
	}
	for i := 0; i < k; i++ {
		a := abWords[r.N(len(abWords))]
		if o.Narrow && len(a) > 3 {
			s := r.N(len(a) - 2)
			a = a[s : s+r.Range(2, 3)]
		}
		w.alpha = append(w.alpha, a)
	}
	nl, nr := r.Range(1, 6), r.Range(1, 6)
	w.M = genMatrix(r, nl, nr, o.Forbid)
	// the system's parts of speech; the OOV one and the numeral are needed
	pos := append([][6]string{}, posPool[:2]...)
	for i := 2; i < len(posPool)-2; i++ {
		if r.P(70) {
			pos = append(pos, posPool[i])
		}
	}
	w.Sys = &DictSrc{}
	// two fixed words that define the parts of speech the plugins need
	w.Sys.Entries = append(w.Sys.Entries,
		&Entry{Head: "東京", L: r.N(nr), R: r.N(nl), C: genCost(r), Surf: "東京", Pos: posOOV, Read: "トウキョウ", Norm: "東京", DF: -1, Unit: "A"},
		&Entry{Head: "五", L: r.N(nr), R: r.N(nl), C: genCost(r), Surf: "五", Pos: posNumeric, Read: "ゴ", Norm: "五", DF: -1, Unit: "A"})
	genEntries(r, w.Sys, w.alpha, r.Range(3, 40), r.Range(0, 8), nl, nr, pos, GenOpt{NoSplits: o.NoSplits, SurfEqHead: o.SurfEqHead})
	nu := o.Users
	if nu < 0 {
		nu = r.N(4)
		if r.P(40) {
			nu = 0
		}
	}
	for i := 0; i < nu; i++ {
		d := &DictSrc{User: true, Sys: w.Sys}
		upos := append([][6]string{}, pos...)
		if r.P(60) {
			upos = append(upos, posPool[len(posPool)-2], posPool[len(posPool)-1], [6]string{"user", fmt.Sprint(i), "*", "*", "*", "*"})
		}
		genEntries(r, d, w.alpha, r.Range(1, 8), r.Range(0, 4), nl, nr, upos, o)
		w.Users = append(w.Users, d)
	}
	if o.OnlyEntries {
		return w
	}
	// definitions
	if o.NoOOVHoles && o.DefaultChar == 0 && r.P(50) {
		o.DefaultChar = 1
	}
	if o.DefaultChar == 1 || o.DefaultChar == 0 && r.P(50) {
		w.Cat = defaultCatModel()
	} else {
		w.Cat, w.CharDef = genCatModel(r)
	}
	w.Unk, w.UnkText = genUnk(r, w.Cat, nl, nr, w.Sys.PosList(), o.NoOOVHoles)
	w.Pl = genPlugins(r, w, o)
	if o.Inhibit {
		n := r.Range(1, 5)
		for i := 0; i < n; i++ {
			w.Inhibit = append(w.Inhibit, [2]int{r.N(nl), r.N(nr)})
		}
	}
	return w
}

func (w *World) sub(name string) string { return filepath.Join(w.Dir, name) }

func (w *World) write(name, content string) string {
	p := w.sub(name)
	if err := os.WriteFile(p, []byte(content), 0644); err != nil {
		panic(setupFailure{err.Error()})
	}
	return p
}

// Build makes the dictionaries through the library.
func (w *World) Build() error {
	w.SysPath = w.sub("system.dic")
	mat := w.MatText
	if mat == "" {
		mat = w.M.Text()
	}
	if err := buildSystem(w.SysPath, []string{w.Sys.CSV()}, mat, w.UTF16, 1500000000, "sys"); err != nil {
		return fmt.Errorf("building the system dictionary: %s", err)
	}
	for i, u := range w.Users {
		p := w.sub(fmt.Sprintf("user%d.dic", i))
		if err := buildUser(p, []string{u.CSV()}, w.SysPath, w.UTF16, 1500000001, "user", false); err != nil {
			return fmt.Errorf("building user dictionary %d: %s", i, err)
		}
		w.UserPath = append(w.UserPath, p)
	}
	return nil
}

// UseDefaultDefinitions makes the world one of the embedded definitions.
func (w *World) UseDefaultDefinitions(r *Rng) {
	w.Cat, w.CharDef = defaultCatModel(), ""
	w.Unk, w.UnkText, w.DefaultUnk = nil, asset("unk.def"), true
	n := 0
	for i, l := range strings.Split(strings.TrimRight(w.UnkText, "\n"), "\n") {
		f := strings.Split(strings.TrimSpace(l), ",")
		if len(f) < 10 {
			continue
		}
		u := UnkEntry{Cat: f[0]}
		u.L, _ = strconv.Atoi(f[1])
		u.R, _ = strconv.Atoi(f[2])
		u.C, _ = strconv.Atoi(f[3])
		copy(u.Pos[:], f[4:10])
		if n <= u.L {
			n = u.L + 1
		}
		if n <= u.R {
			n = u.R + 1
		}
		w.Unk = append(w.Unk, u)
		h := fmt.Sprintf("品詞%d", i)
		w.Sys.Entries = append(w.Sys.Entries, &Entry{Head: h, L: r.N(n), R: r.N(n), C: 5000, Surf: h, Pos: u.Pos, Norm: h, DF: -1, Unit: "A"})
	}
	w.Sys.byHead = nil
	var b strings.Builder
	fmt.Fprintf(&b, "%d %d\n", n, n)
	for i := 0; i < 300; i++ {
		fmt.Fprintf(&b, "%d %d %d\n", r.N(n), r.N(n), r.Range(-500, 9000))
	}
	w.MatText = b.String()
	w.Pl.Oov = []oovCfg{{Kind: "mecab"}}
	if r.P(50) {
		w.Pl.Oov = append(w.Pl.Oov, oovCfg{Kind: "simple", Pos: posOOV, L: r.N(n), R: r.N(n), C: 3000})
	}
}

// Word returns the source entry of a word id of the dictionary set.
func (w *World) Word(wid int) (*DictSrc, int, *Entry) {
	d, i := wid>>28, wid&0xfffffff
	if wid < 0 || d > len(w.Users) {
		return nil, 0, nil
	}
	src := w.Sys
	if d > 0 {
		src = w.Users[d-1]
	}
	if i >= len(src.Entries) {
		return nil, 0, nil
	}
	return src, i, src.Entries[i]
}

// Resolve gives the word ids of references made by dictionary number d.
func (w *World) Resolve(d int, rs []Ref) []int {
	var ids []int
	for _, r := range rs {
		if r.Own && d > 0 {
			ids = append(ids, d<<28|r.Id)
		} else {
			ids = append(ids, r.Id)
		}
	}
	return ids
}

// ---- texts -------------------------------------------------------------------

func (w *World) allHeads() []string {
	var hs []string
	for _, d := range append([]*DictSrc{w.Sys}, w.Users...) {
		for _, e := range d.Entries {
			hs = append(hs, e.Head)
		}
	}
	return hs
}

var fullWidth = strings.NewReplacer("a", "Ａ", "b", "ｂ", "c", "C", "d", "Ｄ", "x", "ｘ", "0", "０", "1", "１", "5", "５", "!", "！", "?", "？", "ア", "ｱ", "イ", "ｲ", "α", "Α", "д", "Д")

// repeatTo repeats a text to at least n characters.
func repeatTo(s string, n int) string {
	return strings.Repeat(s, n/len([]rune(s))+1)
}

// LongText is a text whose positions do not fit 16 bits.
func (w *World) LongText(r *Rng, o GenOpt) string {
	// words and the OOV words of MeCab take time linear in the text each
	var ps []string
	for i := r.Range(1, 3); i > 0; i-- {
		ps = append(ps, w.Text(r, r.Range(1, 9), o))
	}
	heads := w.allHeads()
	if r.P(30) { // a word whose own length does not fit either, if joined
		n := r.Pick0(11000, 22000, 24000)
		return w.Text(r, r.Range(0, 5), o) + strings.Repeat(r.Pick([]string{"五", "五", "ア"}), n) + w.Text(r, r.Range(0, 5), o)
	}
	chars := 22000
	if o.Longer {
		chars = 66000
	}
	var b strings.Builder
	for n := 0; n < chars || b.Len() < 66000; {
		p := r.Pick(heads)
		if r.P(1) {
			p = r.Pick(ps) + "。"
		}
		n += len([]rune(p))
		b.WriteString(p)
	}
	return b.String()
}

// Text makes an input text of about n pieces.
func (w *World) Text(r *Rng, n int, o GenOpt) string {
	heads := w.allHeads()
	var b bytes.Buffer
	for i := 0; i < n; i++ {
		switch k := r.N(20); {
		case k < 11:
			h := r.Pick(heads)
			if r.P(15) {
				h = fullWidth.Replace(h)
			} else if r.P(5) {
				h = strings.ToUpper(h)
			}
			b.WriteString(h)
		case k < 14:
			b.WriteString(genWord(r, w.alpha, 3))
		case k < 16:
			b.WriteString(genWord(r, abWords, 3))
		case k == 16:
			b.WriteString(genNumeral(r))
		case k == 17:
			for j := r.Range(1, 4); j > 0; j-- {
				b.WriteRune(r.PickRune(abRaw))
			}
		case k == 18:
			b.WriteString(genWord(r, [][]rune{abKata, abKata, []rune("ーーーー～〜")}, 5))
		default:
			if !o.PlainText && r.P(30) {
				b.WriteString(r.Pick(junkBytes))
			} else {
				b.WriteString(r.Pick([]string{"ーー", "ーーー", "〜〜", "。。", "ab", "ＡＢ", "㍿", "!!"}))
			}
		}
	}
	return b.String()
}

func genNumeral(r *Rng) string {
	var b strings.Builder
	n := r.Range(1, 5)
	for i := 0; i < n; i++ {
		switch r.N(6) {
		case 0:
			b.WriteRune(r.PickRune(abSep))
		case 1, 2:
			b.WriteRune(r.PickRune(abKanjiNum))
		default:
			b.WriteRune(r.PickRune(abDigit))
		}
	}
	return b.String()
}

// offers is how many unknown words a position can have at most.
func (w *World) offers() int {
	n := 0
	for _, u := range w.Unk {
		ci := w.Cat.info[catBit(u.Cat)]
		n += ci.length
		if ci.group {
			n++
		}
	}
	return n
}
