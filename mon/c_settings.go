package main

// C17: settings documents.

import (
	"encoding/json"
	"fmt"
	"io"
	"path/filepath"
	"sort"
	"strings"

	gs "github.com/msnoigrs/gosudachi"
)

// ---- specifications of plugins ------------------------------------------------

// opt is one option of a plugin: its JSON text and what the configuration
// should say.
type opt struct {
	Key, JSON, Want string
}

type plugSpec struct {
	List string // key of the settings document
	Type string
	Opts []opt
}

var listKeys = []string{"inputTextPlugin", "oovProviderPlugin", "pathRewritePlugin", "editConnectionCostPlugin"}

var listTypes = map[string][]string{
	"inputTextPlugin":          {"DefaultInputTextPlugin", "ProlongedSoundMarkInputTextPlugin"},
	"oovProviderPlugin":        {"MeCabOovProviderPlugin", "SimpleOovProviderPlugin"},
	"pathRewritePlugin":        {"JoinNumericPlugin", "JoinKatakanaOovPlugin"},
	"editConnectionCostPlugin": {"InhibitConnectionPlugin"},
}

var typeOpts = map[string][]string{
	"DefaultInputTextPlugin":            {"rewriteDef s!"},
	"ProlongedSoundMarkInputTextPlugin": {"prolongedSoundMarks ss", "replacementSymbol s"},
	"MeCabOovProviderPlugin":            {"charDef s", "unkDef s"},
	"SimpleOovProviderPlugin":           {"oovPOS ss", "leftId i16", "rightId i16", "cost i16"},
	"JoinNumericPlugin":                 {"enableNormalize b"},
	"JoinKatakanaOovPlugin":             {"oovPOS ss", "minLength i"},
	"InhibitConnectionPlugin":           {"inhibitedPair pp"},
}

// jstr is a JSON string, some of it escaped.
func jstr(r *Rng, s string) string {
	b, _ := json.Marshal(s)
	if r.P(20) {
		var x strings.Builder
		x.WriteByte('"')
		for _, c := range s {
			if c < 0x10000 {
				fmt.Fprintf(&x, `\u%04x`, c)
			} else {
				q, _ := json.Marshal(string(c))
				x.Write(q[1 : len(q)-1])
			}
		}
		x.WriteByte('"')
		return x.String()
	}
	return string(b)
}

func jstrs(r *Rng, ss []string) string {
	var q []string
	for _, s := range ss {
		q = append(q, jstr(r, s))
	}
	return "[" + strings.Join(q, r.Pick([]string{",", ", ", " ,\n"})) + "]"
}

var someStrings = []string{"", "ー", "〜", "名詞", "一般", "*", "a b", "\"q\"", "\\", "/x/y.def", "rel/unk.def", "\t", "𠮷", "-", "日本語、", "</a>&"}

// genOpt makes a random value of the kind.
func genOpt(r *Rng, key, kind string) opt {
	o := opt{Key: key}
	if r.P(6) {
		o.JSON, o.Want = "null", "-"
		if kind == "s!" {
			o.Want = `""`
		}
		return o
	}
	switch kind {
	case "s", "s!":
		s := r.Pick(someStrings)
		o.JSON, o.Want = jstr(r, s), fmt.Sprintf("%q", s)
	case "ss":
		var l []string
		for i := r.N(7); i > 0; i-- {
			l = append(l, r.Pick(someStrings))
		}
		o.JSON, o.Want = jstrs(r, l), fmt.Sprintf("%q", l)
	case "b":
		o.JSON = r.Pick([]string{"true", "false"})
		o.Want = o.JSON
	case "i16":
		n := r.Pick0(0, 1, -1, 32767, -32768, 5968, r.Range(-32768, 32767))
		o.JSON, o.Want = fmt.Sprint(n), fmt.Sprint(n)
	case "i":
		n := r.Pick0(0, 1, 3, -1, 100000, 2147483647, r.Range(-9, 9))
		o.JSON, o.Want = fmt.Sprint(n), fmt.Sprint(n)
	case "pp":
		var q []string
		var w [][]int
		for i := r.N(4); i > 0; i-- {
			p := []int{r.Pick0(0, 1, -1, 70000, r.N(99)), r.N(40000)}
			w = append(w, p)
			q = append(q, fmt.Sprintf("[%d,%d]", p[0], p[1]))
		}
		o.JSON, o.Want = "["+strings.Join(q, ",")+"]", fmt.Sprint(w)
	}
	return o
}

func genSpec(r *Rng, list string) plugSpec {
	p := plugSpec{List: list, Type: r.Pick(listTypes[list])}
	for _, d := range typeOpts[p.Type] {
		f := strings.Fields(d)
		if r.P(75) {
			p.Opts = append(p.Opts, genOpt(r, f[0], f[1]))
		}
	}
	return p
}

// want describes the configuration the specification asks for.
func (p plugSpec) want() string {
	var b strings.Builder
	b.WriteString(p.Type)
	for _, d := range typeOpts[p.Type] {
		f := strings.Fields(d)
		v := "-"
		if f[1] == "s!" {
			v = `""`
		}
		if f[1] == "pp" {
			v = "[]"
		}
		for _, o := range p.Opts {
			if o.Key == f[0] {
				v = o.Want
				if v == "-" && f[1] == "pp" {
					v = "[]"
				}
			}
		}
		fmt.Fprintf(&b, " %s=%s", f[0], v)
	}
	return b.String()
}

// json is the element of the list. cli: for the command,
// which knows further names.
func (p plugSpec) json(r *Rng, cli bool) string {
	var fs []string
	name := p.Type
	forms := []string{"", "com.worksap.nlp.sudachi."}
	if cli {
		forms = append(forms, "github.com/msnoigrs/gosudachi.")
	}
	name = r.Pick(forms) + name
	switch r.N(6) {
	case 0, 1, 2:
		fs = append(fs, `"class":`+jstr(r, name))
	case 3:
		fs = append(fs, `"name":`+jstr(r, name))
	case 4: // the name goes before the class
		fs = append(fs, `"name":`+jstr(r, name), `"class":`+jstr(r, r.Pick([]string{"NoSuchPlugin", "SimpleOovProviderPlugin", "DefaultInputTextPlugin", "JoinNumericPlugin", ""})))
	case 5:
		fs = append(fs, `"name":null`, `"class":`+jstr(r, name))
	}
	for _, o := range p.Opts {
		fs = append(fs, `"`+o.Key+`":`+o.JSON)
	}
	if r.P(20) {
		fs = append(fs, `"joinKanjiNumeric":`+r.Pick([]string{"true", "[1,{}]", "null", `"x"`}))
	}
	return jobj(r, fs)
}

// jobj is an object of the fields, in any order.
func jobj(r *Rng, fs []string) string {
	var q []string
	for _, i := range r.Perm(len(fs)) {
		q = append(q, fs[i])
	}
	sp := r.Pick([]string{"", " ", "\n\t", "\r\n  "})
	return "{" + sp + strings.Join(q, ","+sp) + sp + "}"
}

func listJSON(r *Rng, ps []plugSpec, cli bool) string {
	var q []string
	for _, p := range ps {
		q = append(q, p.json(r, cli))
	}
	return "[" + strings.Join(q, ",") + "]"
}

func wants(ps []plugSpec) string {
	var q []string
	for _, p := range ps {
		q = append(q, p.want())
	}
	return strings.Join(q, "\n")
}

func ps(p *string) string {
	if p == nil {
		return "-"
	}
	return fmt.Sprintf("%q", *p)
}
func pss(p *[]string) string {
	if p == nil {
		return "-"
	}
	return fmt.Sprintf("%q", *p)
}
func pi16(p *int16) string {
	if p == nil {
		return "-"
	}
	return fmt.Sprint(*p)
}

// describe describes a plugin that has not been set up, like want.
func describe(p interface{ GetConfigStruct() interface{} }) string {
	switch x := p.(type) {
	case *gs.DefaultInputTextPlugin:
		return fmt.Sprintf("DefaultInputTextPlugin rewriteDef=%q", x.GetConfigStruct().(*gs.DefaultInputTextPluginConfig).RewriteDef)
	case *gs.ProlongedSoundMarkInputTextPlugin:
		g := x.GetConfigStruct().(*gs.ProlongedSoundMarkInputTextPluginConfig)
		return "ProlongedSoundMarkInputTextPlugin prolongedSoundMarks=" + pss(g.ProlongedSoundMarks) + " replacementSymbol=" + ps(g.ReplacementSymbol)
	case *gs.MeCabOovProviderPlugin:
		g := x.GetConfigStruct().(*gs.MeCabOovProviderPluginConfig)
		return "MeCabOovProviderPlugin charDef=" + ps(g.CharDef) + " unkDef=" + ps(g.UnkDef)
	case *gs.SimpleOovProviderPlugin:
		g := x.GetConfigStruct().(*gs.SimpleOovProviderPluginConfig)
		return "SimpleOovProviderPlugin oovPOS=" + pss(g.OovPos) + " leftId=" + pi16(g.LeftId) + " rightId=" + pi16(g.RightId) + " cost=" + pi16(g.Cost)
	case *gs.JoinNumericPlugin:
		g := x.GetConfigStruct().(*gs.JoinNumericPluginConfig)
		v := "-"
		if g.EnableNormalize != nil {
			v = fmt.Sprint(*g.EnableNormalize)
		}
		return "JoinNumericPlugin enableNormalize=" + v
	case *gs.JoinKatakanaOovPlugin:
		g := x.GetConfigStruct().(*gs.JoinKatakanaOovPluginConfig)
		v := "-"
		if g.MinLength != nil {
			v = fmt.Sprint(*g.MinLength)
		}
		return "JoinKatakanaOovPlugin oovPOS=" + pss(g.OovPOS) + " minLength=" + v
	case *gs.InhibitConnectionPlugin:
		var w [][]int
		for _, p := range x.InhibitedPair {
			if p != nil {
				w = append(w, *p)
			}
		}
		return fmt.Sprint("InhibitConnectionPlugin inhibitedPair=", w)
	}
	return fmt.Sprintf("%T", p)
}

// plugins of one list of the settings, described.
func described(s *gs.SettingsJSON, list string) (string, int, error) {
	var q []string
	var err error
	switch list {
	case "inputTextPlugin":
		l, e := s.GetInputTextPluginArray(gs.DefMakeInputTextPlugin)
		for _, p := range l {
			q = append(q, describe(p))
		}
		err = e
	case "oovProviderPlugin":
		l, e := s.GetOovProviderPluginArray(gs.DefMakeOovProviderPlugin)
		for _, p := range l {
			q = append(q, describe(p))
		}
		err = e
	case "pathRewritePlugin":
		l, e := s.GetPathRewritePluginArray(gs.DefMakePathRewritePlugin)
		for _, p := range l {
			q = append(q, describe(p))
		}
		err = e
	case "editConnectionCostPlugin":
		l, e := s.GetEditConnectionCostPluginArray(gs.DefMakeEditConnectionCostPlugin)
		for _, p := range l {
			q = append(q, describe(p))
		}
		err = e
	}
	return strings.Join(q, "\n"), len(q), err
}

// ---- merging documents ----------------------------------------------------------

var somePaths = []string{"system_core.dic", "a/b.dic", "../up.dic", "./here.dic", "/abs/x.dic", "/y.dic", "", "日本 語.dic", "a//b.dic", ".hidden", "x.dic/"}
var someDirs = []string{"/etc/sudachi", "rel/dir", "/", "../other", "/with space/日本", ".", "/a/b/"}

// sameFile compares resolved paths; the way they are written does not matter.
func sameFile(got, want string) bool {
	return got == want || got != "" && want != "" && filepath.Clean(got) == filepath.Clean(want)
}

type settingsModel struct {
	path, sys, char string
	utf16           bool
	users           []string
	lists           map[string][]plugSpec
	dirOpen         bool // the directory was set to nothing by a document
}

func (m *settingsModel) resolve(p string) string {
	if p == "" || strings.HasPrefix(p, "/") || m.path == "" {
		return p
	}
	return m.path + "/" + p
}

func (m *settingsModel) compare(s *gs.SettingsJSON) string {
	b := s.GetBaseConfig()
	if !sameFile(b.SystemDict, m.sys) {
		return fmt.Sprintf("system dictionary %q, not %q", b.SystemDict, m.sys)
	}
	if !sameFile(b.CharacterDefinitionFile, m.char) {
		return fmt.Sprintf("character definition %q, not %q", b.CharacterDefinitionFile, m.char)
	}
	if b.Utf16String != m.utf16 {
		return fmt.Sprintf("UTF-16 %v, not %v", b.Utf16String, m.utf16)
	}
	if len(b.UserDict) != len(m.users) {
		return fmt.Sprintf("user dictionaries %q, not %q", b.UserDict, m.users)
	}
	for i := range m.users {
		if !sameFile(b.UserDict[i], m.users[i]) {
			return fmt.Sprintf("user dictionaries %q, not %q", b.UserDict, m.users)
		}
	}
	for _, l := range listKeys {
		got, _, err := described(s, l)
		if err != nil {
			return fmt.Sprintf("%s: %v", l, err)
		}
		if w := wants(m.lists[l]); got != w {
			return fmt.Sprintf("%s:\n%s\nnot\n%s", l, got, w)
		}
	}
	return ""
}

// genDoc makes a document and applies it to the model.
func (m *settingsModel) genDoc(r *Rng, def string) string {
	var fs []string
	null := func(k string) bool {
		if r.P(5) {
			fs = append(fs, `"`+k+`":null`)
			return true
		}
		return false
	}
	switch {
	case r.P(45) || m.dirOpen:
		m.path = r.Pick(someDirs)
		m.dirOpen = false
		if r.P(6) {
			m.path, m.dirOpen = "", true
		}
		fs = append(fs, `"path":`+jstr(r, m.path))
	default:
		null("path")
		if m.path == "" {
			m.path = def
		}
	}
	if r.P(60) && !null("systemDict") {
		p := r.Pick(somePaths)
		m.sys = m.resolve(p)
		fs = append(fs, `"systemDict":`+jstr(r, p))
	}
	if r.P(50) && !null("characterDefinitionFile") {
		p := r.Pick(somePaths)
		m.char = m.resolve(p)
		fs = append(fs, `"characterDefinitionFile":`+jstr(r, p))
	}
	if r.P(40) && !null("utf16String") {
		m.utf16 = r.P(50)
		fs = append(fs, fmt.Sprintf(`"utf16String":%v`, m.utf16))
	}
	if r.P(50) && !null("userDict") {
		var l []string
		for i := r.N(4); i > 0; i-- {
			p := r.Pick(somePaths)
			l = append(l, p)
			m.users = append(m.users, m.resolve(p))
		}
		fs = append(fs, `"userDict":`+jstrs(r, l))
	}
	for _, k := range listKeys {
		if r.P(55) && !null(k) {
			var l []plugSpec
			for i := r.N(5); i > 0; i-- {
				l = append(l, genSpec(r, k))
			}
			m.lists[k] = l
			fs = append(fs, `"`+k+`":`+listJSON(r, l, false))
		}
	}
	if r.P(10) {
		fs = append(fs, `"comment":"x"`)
	}
	return jobj(r, fs)
}

// pieces hands out its text in small pieces.
type pieces struct {
	r *Rng
	s string
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.s) == 0 {
		return 0, io.EOF
	}
	n := 1 + p.r.N(40)
	if n > len(p.s) {
		n = len(p.s)
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, p.s[:n])
	p.s = p.s[n:]
	return n, nil
}

func runC17Merge(c *Ctx) {
	r := c.R
	for k := 0; k < 25; k++ {
		m := &settingsModel{lists: map[string][]plugSpec{}}
		s := gs.NewSettingsJSON()
		var docs []string
		def := r.Pick([]string{"", "/usr/share/sudachi", "res", "/default/日本"})
		for i := r.Pick0(1, 1, 2, 2, 2, 3, 4); i > 0; i-- {
			if r.P(30) {
				def = r.Pick(someDirs)
			}
			doc := m.genDoc(r, def)
			docs = append(docs, fmt.Sprintf("default directory %q: %s", def, doc))
			if err := s.ParseSettingsJSON(def, &pieces{r, doc}); err != nil {
				c.Fail("settings refused: %v\n%s", err, strings.Join(docs, "\n"))
			}
			if i == 1 || r.P(70) {
				if d := m.compare(s); d != "" {
					c.Fail("settings: %s\nafter\n%s", d, strings.Join(docs, "\n"))
				}
			}
			c.Count("documents_merged", 1)
		}
		c.Eval(strings.Join(docs, "\n"))
		c.Sample(func() interface{} { return map[string]interface{}{"documents": docs, "user_dictionaries": m.users} })
	}
}

// ---- invalid documents ----------------------------------------------------------

// settingsErr reads the settings and makes all plugins; the error of the first
// step that refuses, nil if none does.
func (c *Ctx) settingsErr(doc string) (stage string, err error) {
	s := gs.NewSettingsJSON()
	err = c.noPanic("reading settings "+doc, func() error { return s.ParseSettingsJSON("/x", strings.NewReader(doc)) })
	if err != nil {
		return "document", err
	}
	for _, l := range listKeys {
		l := l
		err = c.noPanic("making plugins of "+doc, func() error { _, _, e := described(s, l); return e })
		if err != nil {
			return l, err
		}
	}
	return "", nil
}

func runC17Invalid(c *Ctx) {
	r := c.R
	for k := 0; k < 25; k++ {
		m := &settingsModel{lists: map[string][]plugSpec{}}
		good := m.genDoc(r, "/x")
		var bad, how string
		list := r.Pick(listKeys)
		with := func(field string) { // good with one more field
			g := strings.TrimSpace(good)
			in := strings.TrimSpace(g[1 : len(g)-1])
			if in != "" {
				in = "," + in
			}
			bad = "{" + field + in + "}"
		}
		// a fresh document with a list whose other elements are right
		withElem := func(e string) {
			var q []string
			for i := r.N(3); i > 0; i-- {
				q = append(q, genSpec(r, list).json(r, false))
			}
			at := r.N(len(q) + 1)
			q = append(q[:at], append([]string{e}, q[at:]...)...)
			var fs []string
			for _, l := range listKeys {
				if l == list {
					fs = append(fs, `"`+l+`":[`+strings.Join(q, ",")+`]`)
				} else if r.P(50) {
					fs = append(fs, `"`+l+`":`+listJSON(r, []plugSpec{genSpec(r, l)}, false))
				}
			}
			bad = jobj(r, fs)
		}
		switch r.N(8) {
		case 0:
			how = "cut"
			bad = good[:r.N(strings.LastIndexByte(good, '}'))]
		case 1:
			how = "malformed"
			bad = r.Pick([]string{"", " \n", "{", "[]", "5", `"x"`, "{'systemDict':1}", `{"systemDict"}`, `{"systemDict":}`, `{"systemDict":"a",}`, `{"systemDict":"a" "path":"b"}`, `{systemDict:"a"}`, "\ufeff{}", `{"systemDict":"a` + "\n" + `"}`, `{"systemDict":"\x"}`, "<x/>", "true", `{"userDict":["a",]}`, `{"userDict":["a"}`, "\x00"})
		case 2:
			how = "ill-typed field"
			x := [][2]string{{"path", "5"}, {"path", "[]"}, {"systemDict", "{}"}, {"systemDict", "true"}, {"characterDefinitionFile", `["a"]`}, {"utf16String", `"true"`}, {"utf16String", "1"}, {"userDict", `"a.dic"`}, {"userDict", "[1]"}, {"userDict", `{"a":"b"}`}, {list, "{}"}, {list, `"` + listTypes[list][0] + `"`}, {list, "7"}}
			f := x[r.N(len(x))]
			if strings.Contains(good, `"`+f[0]+`"`) {
				continue // keys are not repeated
			}
			with(`"` + f[0] + `":` + f[1])
		case 3:
			how = "element is no object"
			withElem(r.Pick([]string{`"` + listTypes[list][0] + `"`, "5", "[]", "null", "true"}))
		case 4:
			how = "unknown plugin"
			n := r.Pick([]string{"NoSuchPlugin", "", "com.worksap.nlp.sudachi.", listTypes[list][0] + "x", "x" + listTypes[list][0], strings.ToLower(listTypes[list][0]), "com.example." + listTypes[list][0], " " + listTypes[list][0]})
			if r.P(30) { // of another list
				for {
					l := r.Pick(listKeys)
					if l != list {
						n = r.Pick(listTypes[l])
						break
					}
				}
			}
			fs := []string{`"` + r.Pick([]string{"name", "class"}) + `":` + jstr(r, n)}
			if strings.HasPrefix(fs[0], `"name"`) && r.P(50) {
				fs = append(fs, `"class":`+jstr(r, r.Pick(listTypes[list])))
			}
			withElem(jobj(r, fs))
		case 5:
			how = "plugin without a name"
			e := genSpec(r, list)
			var fs []string
			for _, o := range e.Opts {
				fs = append(fs, `"`+o.Key+`":`+o.JSON)
			}
			withElem(jobj(r, fs))
		case 6:
			how = "name is no string"
			withElem(fmt.Sprintf(`{"%s":%s}`, r.Pick([]string{"name", "class"}), r.Pick([]string{"5", "[]", "true", `["` + listTypes[list][0] + `"]`})))
		case 7:
			how = "ill-typed option"
			e := genSpec(r, list)
			d := strings.Fields(r.Pick(typeOpts[e.Type]))
			v := map[string][]string{
				"s": {"5", "[]", "{}", "true"}, "s!": {"5", "[]", "{}", "true"},
				"ss":  {`"ー"`, "5", "[1]", "{}", `[["a"]]`, `["a",5]`},
				"i16": {`"5"`, "1.5", "40000", "-32769", "[]", "true", "1e9"},
				"i":   {`"3"`, "1.5", "[]", "true", "99999999999999999999"},
				"b":   {"1", `"true"`, "[]"},
				"pp":  {"5", "[1,2]", `[["a","b"]]`, `"x"`, "[[1.5,2]]", "{}"},
			}[d[1]]
			fs := []string{`"class":` + jstr(r, e.Type), `"` + d[0] + `":` + r.Pick(v)}
			for _, o := range e.Opts {
				if o.Key != d[0] {
					fs = append(fs, `"`+o.Key+`":`+o.JSON)
				}
			}
			withElem(jobj(r, fs))
		}
		stage, err := c.settingsErr(bad)
		if err == nil {
			c.Fail("settings accepted (%s): %s", how, bad)
		}
		c.Count("invalid_documents_refused", 1)
		c.Eval(how + stage + bad)
	}
}

// ---- with a dictionary ----------------------------------------------------------

func qs(s string) string { b, _ := json.Marshal(s); return string(b) }

// doc is the settings of the world, by key; rel makes paths relative to Dir.
func (w *World) doc(r *Rng, cli bool) map[string]string {
	rel := func(p string) string {
		if q, err := filepath.Rel(w.Dir, p); err == nil && r.P(60) {
			return q
		}
		return p
	}
	d := map[string]string{"systemDict": jstr(r, rel(w.SysPath))}
	if w.CharDef != "" {
		d["characterDefinitionFile"] = jstr(r, rel(w.write("charset.def", w.CharDef)))
	}
	if w.UTF16 {
		d["utf16String"] = "true"
	} else if r.P(30) {
		d["utf16String"] = "false"
	}
	if len(w.UserPath) > 0 || r.P(30) {
		var us []string
		for _, u := range w.UserPath {
			us = append(us, rel(u))
		}
		d["userDict"] = jstrs(r, us)
	}
	for k, l := range w.specs(r) {
		if len(l) > 0 || k != "editConnectionCostPlugin" || r.P(30) {
			d[k] = listJSON(r, l, cli)
		}
	}
	return d
}

// specs are the world's plugins as specifications.
func (w *World) specs(r *Rng) map[string][]plugSpec {
	m := map[string][]plugSpec{}
	add := func(list, typ string, opts ...opt) {
		m[list] = append(m[list], plugSpec{list, typ, opts})
	}
	for _, k := range listKeys {
		m[k] = nil
	}
	for i, p := range w.Pl.Input {
		switch p.Kind {
		case "default":
			if p.Def == "" {
				add("inputTextPlugin", "DefaultInputTextPlugin")
			} else {
				add("inputTextPlugin", "DefaultInputTextPlugin", opt{Key: "rewriteDef", JSON: jstr(r, w.write(fmt.Sprintf("set%d.def", i), p.Def))})
			}
		case "prolonged":
			add("inputTextPlugin", "ProlongedSoundMarkInputTextPlugin", opt{Key: "prolongedSoundMarks", JSON: jstrs(r, p.Marks)}, opt{Key: "replacementSymbol", JSON: jstr(r, p.Sym)})
		}
	}
	for _, p := range w.Pl.Oov {
		switch p.Kind {
		case "mecab":
			var os []opt
			if w.CharDef != "" {
				os = append(os, opt{Key: "charDef", JSON: jstr(r, w.write("setchar.def", w.CharDef))})
			}
			os = append(os, opt{Key: "unkDef", JSON: jstr(r, w.write("setunk.def", w.UnkText))})
			add("oovProviderPlugin", "MeCabOovProviderPlugin", os...)
		case "simple":
			add("oovProviderPlugin", "SimpleOovProviderPlugin", opt{Key: "oovPOS", JSON: jstrs(r, p.Pos[:])}, opt{Key: "leftId", JSON: fmt.Sprint(p.L)}, opt{Key: "rightId", JSON: fmt.Sprint(p.R)}, opt{Key: "cost", JSON: fmt.Sprint(p.C)})
		}
	}
	for _, p := range w.Pl.Path {
		switch p.Kind {
		case "numeric":
			if p.Norm != nil {
				add("pathRewritePlugin", "JoinNumericPlugin", opt{Key: "enableNormalize", JSON: fmt.Sprint(*p.Norm)})
			} else {
				add("pathRewritePlugin", "JoinNumericPlugin")
			}
		case "katakana":
			os := []opt{{Key: "oovPOS", JSON: jstrs(r, p.Pos[:])}}
			if p.MinLen != nil {
				os = append(os, opt{Key: "minLength", JSON: fmt.Sprint(*p.MinLen)})
			}
			add("pathRewritePlugin", "JoinKatakanaOovPlugin", os...)
		}
	}
	if len(w.Inhibit) > 0 {
		var q []string
		for _, p := range w.Inhibit {
			q = append(q, fmt.Sprintf("[%d,%d]", p[0], p[1]))
		}
		add("editConnectionCostPlugin", "InhibitConnectionPlugin", opt{Key: "inhibitedPair", JSON: "[" + strings.Join(q, ",") + "]"})
	}
	return m
}

func sortedFields(d map[string]string) []string {
	var fs []string
	for k, v := range d {
		fs = append(fs, `"`+k+`":`+v)
	}
	sort.Strings(fs)
	return fs
}

// openSettings opens the dictionary that the settings describe.
func openSettings(s *gs.SettingsJSON) (*gs.JapaneseDictionary, error) {
	in, err := s.GetInputTextPluginArray(gs.DefMakeInputTextPlugin)
	if err != nil {
		return nil, err
	}
	oov, err := s.GetOovProviderPluginArray(gs.DefMakeOovProviderPlugin)
	if err != nil {
		return nil, err
	}
	path, err := s.GetPathRewritePluginArray(gs.DefMakePathRewritePlugin)
	if err != nil {
		return nil, err
	}
	ed, err := s.GetEditConnectionCostPluginArray(gs.DefMakeEditConnectionCostPlugin)
	if err != nil {
		return nil, err
	}
	return gs.NewJapaneseDictionary(s.GetBaseConfig(), in, oov, path, ed)
}

// settingsWorld is a world that settings can describe.
func settingsWorld(c *Ctx, users int) (*World, GenOpt) {
	r := c.R
	o := GenOpt{Users: users, Narrow: r.P(50), NoOOVHoles: r.P(70), Inhibit: r.P(50), WantNumPos: true}
	w := genWorld(r, c.Dir, o)
	for {
		ok := len(w.Pl.Oov) > 0
		for _, p := range w.Pl.Input {
			ok = ok && p.Kind != "custom"
		}
		for _, p := range w.Pl.Oov {
			ok = ok && p.Kind != "custom"
		}
		if ok {
			break
		}
		w.Pl = genPlugins(r, w, o)
	}
	if o.Inhibit && len(w.Inhibit) == 0 {
		for i := r.Range(1, 3); i > 0; i-- {
			w.Inhibit = append(w.Inhibit, [2]int{r.N(w.M.L), r.N(w.M.R)})
		}
	}
	if err := w.Build(); err != nil {
		c.Setup("%v", err)
	}
	return w, o
}

func runC17World(c *Ctx) {
	r := c.R
	w, o := settingsWorld(c, r.Pick0(0, 0, 1, 2))
	op, err := w.Open(-1, false)
	d := w.doc(r, false)
	s := gs.NewSettingsJSON()
	var docs []string
	parse := func(def string, fs []string) {
		doc := jobj(r, fs)
		docs = append(docs, fmt.Sprintf("default directory %q: %s", def, doc))
		if e := s.ParseSettingsJSON(def, strings.NewReader(doc)); e != nil {
			c.Fail("settings refused: %v\n%s", e, strings.Join(docs, "\n"))
		}
	}
	switch r.N(4) {
	case 0: // default directory
		parse(w.Dir, sortedFields(d))
	case 1: // path entry
		parse("/nowhere", append(sortedFields(d), `"path":`+jstr(r, w.Dir)))
	case 2: // over defaults that are all replaced
		parse(r.Pick([]string{"", "/nowhere"}), []string{`"systemDict":"none.dic"`, `"inputTextPlugin":[{"class":"ProlongedSoundMarkInputTextPlugin"}]`, `"oovProviderPlugin":[{"class":"SimpleOovProviderPlugin"}]`, `"path":` + jstr(r, w.Dir)})
		if _, ok := d["inputTextPlugin"]; !ok {
			d["inputTextPlugin"] = "[]"
		}
		parse("/elsewhere", sortedFields(d))
	case 3: // key by key
		fs := sortedFields(d)
		for i, k := range r.Perm(len(fs)) {
			f := []string{fs[k]}
			if i == 0 {
				f = append(f, `"path":`+jstr(r, w.Dir))
			}
			parse("/nowhere", f)
		}
	}
	got, e := openSettings(s)
	if (e == nil) != (err == nil) {
		c.Fail("opening with settings gives the error %v, opening with the same plugins and files %v\n%s", e, err, strings.Join(docs, "\n"))
	}
	if err != nil {
		c.Count("openings_refused", 1)
		return
	}
	defer op.Close()
	defer got.Close()
	t := got.Create()
	for i := 0; i < 5; i++ {
		text := w.Text(r, textLen(r), o)
		mode := r.Pick(modes)
		_, a := result(op.T, mode, text)
		_, b := result(t, mode, text)
		if a != b {
			c.Fail("mode %s, %q: with settings\n%s\nwith the same plugins and files\n%s\n%s", mode, text, b, a, strings.Join(docs, "\n"))
		}
		c.Count("texts_compared", 1)
		if text != "" {
			c.Eval(text + strings.Join(docs, ""))
		}
	}
}

// runC17SetUp: settings that are well formed but cannot be used.
func runC17SetUp(c *Ctx) {
	r := c.R
	w, _ := settingsWorld(c, r.Pick0(0, 0, 1))
	base := w.doc(r, true)
	open := func(d map[string]string) (error, string) {
		doc := jobj(r, sortedFields(d))
		s := gs.NewSettingsJSON()
		var dic *gs.JapaneseDictionary
		err := c.noPanic("opening with "+doc, func() (e error) {
			if e = s.ParseSettingsJSON(w.Dir, strings.NewReader(doc)); e != nil {
				return e
			}
			dic, e = openSettings(s)
			return e
		})
		if err == nil {
			dic.Close()
		}
		return err, doc
	}
	libbase := w.doc(r, false)
	if len(w.UserPath) > 0 {
		// automatic costs may fail
		delete(base, "userDict")
		delete(libbase, "userDict")
	}
	if err, doc := open(libbase); err != nil {
		c.Fail("valid settings refused: %v\n%s", err, doc)
	}
	pos := qsList(posOOV[:])
	short := qsList(posOOV[:r.N(6)])
	long := qsList(append(append([]string{}, posOOV[:]...), "*"))
	bads := []struct{ name, list, elem string }{
		{"no OOV provider", "oovProviderPlugin", ""},
		{"simple without oovPOS", "oovProviderPlugin", `{"class":"SimpleOovProviderPlugin","leftId":0,"rightId":0,"cost":0}`},
		{"simple without leftId", "oovProviderPlugin", `{"class":"SimpleOovProviderPlugin","oovPOS":` + pos + `,"rightId":0,"cost":0}`},
		{"simple without rightId", "oovProviderPlugin", `{"class":"SimpleOovProviderPlugin","oovPOS":` + pos + `,"leftId":0,"cost":0}`},
		{"simple without cost", "oovProviderPlugin", `{"class":"SimpleOovProviderPlugin","oovPOS":` + pos + `,"leftId":0,"rightId":0}`},
		{"simple without anything", "oovProviderPlugin", `{"class":"SimpleOovProviderPlugin"}`},
		{"simple with null", "oovProviderPlugin", `{"class":"SimpleOovProviderPlugin","oovPOS":null,"leftId":0,"rightId":0,"cost":0}`},
		{"simple with unknown part of speech", "oovProviderPlugin", `{"class":"SimpleOovProviderPlugin","oovPOS":` + qsList(posNobody) + `,"leftId":0,"rightId":0,"cost":0}`},
		{"simple with an incomplete part of speech", "oovProviderPlugin", `{"class":"SimpleOovProviderPlugin","oovPOS":` + short + `,"leftId":0,"rightId":0,"cost":0}`},
		{"simple with leftId outside the matrix", "oovProviderPlugin", fmt.Sprintf(`{"class":"SimpleOovProviderPlugin","oovPOS":%s,"leftId":%d,"rightId":0,"cost":0}`, pos, r.Pick0(-1, w.M.R, w.M.R+1, 32767, -32768))},
		{"simple with rightId outside the matrix", "oovProviderPlugin", fmt.Sprintf(`{"class":"SimpleOovProviderPlugin","oovPOS":%s,"leftId":0,"rightId":%d,"cost":0}`, pos, r.Pick0(-1, w.M.L, w.M.L+1, 32767, -32768))},
		{"missing unk.def", "oovProviderPlugin", `{"class":"MeCabOovProviderPlugin","unkDef":` + qs(w.sub("nosuch.def")) + `}`},
		{"missing char.def", "oovProviderPlugin", `{"class":"MeCabOovProviderPlugin","charDef":` + qs(w.sub("nosuch.def")) + `,"unkDef":` + qs(w.write("emptyunk.def", "")) + `}`},
		{"katakana without oovPOS", "pathRewritePlugin", `{"class":"JoinKatakanaOovPlugin","minLength":3}`},
		{"katakana with empty oovPOS", "pathRewritePlugin", `{"class":"JoinKatakanaOovPlugin","oovPOS":[]}`},
		{"katakana with an incomplete part of speech", "pathRewritePlugin", `{"class":"JoinKatakanaOovPlugin","oovPOS":` + short + `}`},
		{"katakana with unknown part of speech", "pathRewritePlugin", `{"class":"JoinKatakanaOovPlugin","oovPOS":` + qsList(posNobody) + `}`},
		{"katakana with negative length", "pathRewritePlugin", `{"class":"JoinKatakanaOovPlugin","oovPOS":` + pos + `,"minLength":-` + fmt.Sprint(r.Range(1, 9)) + `}`},
		{"prolonged without marks", "inputTextPlugin", `{"class":"ProlongedSoundMarkInputTextPlugin","replacementSymbol":"ー"}`},
		{"prolonged with empty marks", "inputTextPlugin", `{"class":"ProlongedSoundMarkInputTextPlugin","prolongedSoundMarks":[],"replacementSymbol":"ー"}`},
		{"prolonged without symbol", "inputTextPlugin", `{"class":"ProlongedSoundMarkInputTextPlugin","prolongedSoundMarks":["ー"]}`},
		{"missing rewrite.def", "inputTextPlugin", `{"class":"DefaultInputTextPlugin","rewriteDef":` + qs(w.sub("nosuch.def")) + `}`},
		{"inhibited left id outside the matrix", "editConnectionCostPlugin", fmt.Sprintf(`{"class":"InhibitConnectionPlugin","inhibitedPair":[[0,0],[%d,0]]}`, r.Pick0(-1, w.M.L, w.M.L+1, 32767, 65536, -32768, 1<<32))},
		{"inhibited right id outside the matrix", "editConnectionCostPlugin", fmt.Sprintf(`{"class":"InhibitConnectionPlugin","inhibitedPair":[[0,%d]]}`, r.Pick0(-1, w.M.R, w.M.R+1, 32767, 65536, -32768, 1<<32))},
		{"no system dictionary", "systemDict", "null"},
		{"missing system dictionary", "systemDict", qs("nosuch.dic")},
		{"missing character definition", "characterDefinitionFile", qs("nosuch.def")},
		{"missing user dictionary", "userDict", `["nosuch.dic"]`},
		{"system dictionary as user dictionary", "userDict", `[` + qs(w.SysPath) + `]`},
		{"part of speech with too many fields", "oovProviderPlugin", `{"class":"SimpleOovProviderPlugin","oovPOS":` + long + `,"leftId":0,"rightId":0,"cost":0}`},
	}
	for _, b := range bads {
		if !r.P(60) {
			continue
		}
		cli := r.P(6)
		d := map[string]string{}
		src := libbase
		if cli {
			src = base
		}
		for k, v := range src {
			d[k] = v
		}
		switch {
		case b.elem == "":
			d[b.list] = "[]"
			if r.P(30) {
				delete(d, b.list)
			}
		case strings.HasSuffix(b.list, "Plugin"):
			l := strings.TrimSpace(d[b.list])
			if len(l) < 2 {
				l = "[]"
			}
			switch in := l[1 : len(l)-1]; {
			case strings.TrimSpace(in) == "":
				d[b.list] = "[" + b.elem + "]"
			case r.P(50):
				d[b.list] = "[" + b.elem + "," + in + "]"
			default:
				d[b.list] = "[" + in + "," + b.elem + "]"
			}
		default:
			d[b.list] = b.elem
		}
		if cli {
			doc := jobj(r, sortedFields(d))
			f := w.write("bad.json", doc)
			res := c.run(strings.NewReader("あ\n"), "gosudachicli", "-p", w.Dir, "-r", f)
			if res.Code == 0 || res.crashed() {
				c.Fail("gosudachicli with settings (%s): status %d\n%s\n%s", b.name, res.Code, res.Err, doc)
			}
			if strings.Contains(res.Out, "EOS") {
				c.Fail("gosudachicli with settings (%s) analysed: %s\n%s", b.name, res.Out, doc)
			}
			c.Count("refused_by_command", 1)
		} else if err, doc := open(d); err == nil {
			c.Fail("settings accepted (%s): %s", b.name, doc)
		}
		c.Count("unusable_settings_refused", 1)
		c.Eval(b.name + fmt.Sprint(c.Idx))
	}
}

func qsList(l []string) string { b, _ := json.Marshal(append([]string{}, l...)); return string(b) }

func runC17(c *Ctx) {
	switch c.Idx % 4 {
	case 0:
		runC17Merge(c)
	case 1:
		runC17Invalid(c)
	case 2:
		runC17World(c)
	case 3:
		runC17SetUp(c)
	}
}

func init() {
	register(&Check{ID: "C17", Quick: 26000, MinDistinct: 2000, NeedCmds: true, Run: runC17,
		Rule: "four kinds of cases: sequences of 1 to 4 random documents compared field by field and plugin by plugin with a model of resolving and merging; malformed, ill-typed and unknown variants of such documents, which must be refused; settings of generated dictionaries, written as one or several documents with absolute and relative paths, whose tokenization is compared with that of directly constructed plugins; settings with one plugin option missing or unusable, which must be refused by the library or the command. Distinct: document sequences, refused documents, texts"})
}
