package main

// C20: bad files are refused, resources are released.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	gs "github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

// held lists the open files and the mappings of this process under dir.
func held(dir string) []string {
	var hs []string
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(setupFailure{err.Error()})
	}
	for _, e := range es {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(t, dir+"/") {
			hs = append(hs, "open "+filepath.Base(t))
		}
	}
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		panic(setupFailure{err.Error()})
	}
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, dir+"/"); i >= 0 {
			hs = append(hs, "mapped "+filepath.Base(l[i:]))
		}
	}
	return hs
}

func (c *Ctx) mustHoldNothing(what string) {
	if hs := held(c.Dir); len(hs) > 0 {
		c.Fail("%s: left behind: %v", what, hs)
	}
	c.Count("resource_checks", 1)
}

// noPanic calls f and reports a crash as a violation.
func (c *Ctx) noPanic(what string, f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case failure, setupFailure:
				panic(e)
			}
			c.Fail("%s: panic: %v", what, e)
		}
	}()
	return f()
}

type badFile struct {
	path, how string
}

// badFiles makes files that are not dictionaries of the wanted kind ("system",
// "user" or "any").
func badFiles(c *Ctx, w *World, want string) []badFile {
	r := c.R
	var fs []badFile
	n := 0
	put := func(how string, b []byte) {
		n++
		fs = append(fs, badFile{w.write(fmt.Sprintf("bad_%s_%d.dic", want, n), string(b)), how})
	}
	good, err := os.ReadFile(w.SysPath)
	if err != nil {
		c.Setup("%v", err)
	}
	user := []byte{}
	if len(w.UserPath) > 0 {
		user, _ = os.ReadFile(w.UserPath[0])
	}
	fs = append(fs, badFile{w.sub("no such file.dic"), "missing"}, badFile{filepath.Join(w.SysPath, "x"), "missing, below a file"})
	d := w.sub("directory.dic")
	os.MkdirAll(d, 0755)
	fs = append(fs, badFile{d, "a directory"})
	l := w.sub("dangling.dic")
	os.Symlink(w.sub("nowhere"), l)
	fs = append(fs, badFile{l, "a dangling link"})
	put("empty", nil)
	src := good
	if len(user) > 0 && r.P(50) {
		src = user
	}
	for _, k := range []int{r.Range(1, 7), 8, r.Range(9, 15), 16, r.Range(17, 271), r.Range(17, 271), 271} {
		if k <= len(src) {
			put(fmt.Sprintf("truncated to %d bytes", k), src[:k])
		}
	}
	put("the sources", []byte(w.Sys.CSV()))
	put("text", []byte(strings.Repeat("this is not a dictionary\n", r.Range(1, 40))))
	put("zeros", make([]byte, r.Range(1, 5000)))
	rnd := make([]byte, r.Range(1, 3000))
	for i := range rnd {
		rnd[i] = byte(r.N(256))
	}
	put("random bytes", rnd)
	for i := 0; i < 3; i++ {
		b := append([]byte{}, src...)
		v := binary.LittleEndian.Uint64(b)
		switch r.N(3) {
		case 0:
			v ^= 1 << uint(r.N(64))
		case 1:
			v += uint64(r.Pick0(1, -1, 2))
		case 2: // the bytes of the version reversed
			v = v<<56 | (v<<40)&0xff000000000000 | (v<<24)&0xff0000000000 | (v<<8)&0xff00000000 | (v>>8)&0xff000000 | (v>>24)&0xff0000 | (v>>40)&0xff00 | v>>56
		}
		if v == dictionary.SystemDictVersion || v == dictionary.UserDictVersion || v == dictionary.UserDictVersion2 {
			continue
		}
		binary.LittleEndian.PutUint64(b, v)
		put(fmt.Sprintf("version %x", v), b)
	}
	switch want {
	case "system":
		if len(user) > 0 {
			put("a user dictionary", user)
			old := append([]byte{}, user...)
			_ = old
		}
		h, _ := dictionary.NewDictionaryHeader(dictionary.UserDictVersion, 1, "old").ToBytes()
		lex := good[272:]
		// an old-format user dictionary: the lexicon follows the header
		g := dictionary.NewGrammar(good, 272, w.UTF16)
		put("an old-format user dictionary", append(h, lex[g.StorageSize:]...))
	case "user":
		put("a system dictionary", good)
	}
	for _, f := range fs {
		c.Count("bad_files_"+strings.Fields(f.how)[0], 1)
	}
	return fs
}

// failRewrite is an input text plugin that fails on every text.
type failRewrite struct{}

func (p *failRewrite) GetConfigStruct() interface{}         { return &struct{}{} }
func (p *failRewrite) SetUp() error                         { return nil }
func (p *failRewrite) Rewrite(b *gs.InputTextBuilder) error { return errInjected }

type failSetUp struct{ at string }

func (p *failSetUp) GetConfigStruct() interface{}    { return &struct{}{} }
func (p *failSetUp) SetUp(*dictionary.Grammar) error { return errors.New("cannot set up") }
func (p *failSetUp) Edit(*dictionary.Grammar) error  { return nil }
func (p *failSetUp) ProvideOOV(*gs.InputText, int, bool) ([]*gs.LatticeNode, error) {
	return nil, nil
}
func (p *failSetUp) Rewrite(*gs.InputText, *[]*gs.LatticeNode, *gs.Lattice) error { return nil }

type failSetUpInput struct{}

func (p *failSetUpInput) GetConfigStruct() interface{}       { return &struct{}{} }
func (p *failSetUpInput) SetUp() error                       { return errors.New("cannot set up") }
func (p *failSetUpInput) Rewrite(*gs.InputTextBuilder) error { return nil }

type failEdit struct{}

func (p *failEdit) GetConfigStruct() interface{}    { return &struct{}{} }
func (p *failEdit) SetUp(*dictionary.Grammar) error { return nil }
func (p *failEdit) Edit(*dictionary.Grammar) error  { return errors.New("cannot edit") }

var posNobody = []string{"no", "such", "part", "of", "speech", "*"}

// badOpening is one way of opening dictionaries that must fail.
type badOpening struct {
	how string
	cfg *gs.BaseConfig
	in  []gs.InputTextPlugin
	oov []gs.OovProviderPlugin
	pth []gs.PathRewritePlugin
	ed  []gs.EditConnectionCostPlugin
}

func (w *World) badOpenings(c *Ctx) []badOpening {
	r := c.R
	var bs []badOpening
	add := func(how string, f func(b *badOpening)) {
		b := badOpening{how: how, cfg: w.config(-1)}
		b.in, b.oov, b.pth = w.plugins(nil, "")
		b.ed = w.edits()
		f(&b)
		bs = append(bs, b)
	}
	for _, f := range badFiles(c, w, "system") {
		f := f
		add("system dictionary: "+f.how, func(b *badOpening) { b.cfg.SystemDict = f.path })
	}
	for _, f := range badFiles(c, w, "user") {
		f := f
		add("user dictionary: "+f.how, func(b *badOpening) {
			i := r.N(len(b.cfg.UserDict) + 1)
			u := append([]string{}, b.cfg.UserDict[:i]...)
			u = append(u, f.path)
			b.cfg.UserDict = append(u, b.cfg.UserDict[i:]...)
		})
	}
	add("no system dictionary", func(b *badOpening) { b.cfg.SystemDict = "" })
	add("no OOV provider", func(b *badOpening) { b.oov = nil })
	if len(w.UserPath) > 0 {
		add("too many user dictionaries", func(b *badOpening) {
			for len(b.cfg.UserDict) < 16 {
				b.cfg.UserDict = append(b.cfg.UserDict, w.UserPath[0])
			}
		})
	}
	missing := w.sub("no such file.def")
	dir := w.sub("directory.dic")
	junk := w.write("junk.def", r.Pick([]string{"x\n", "0x30..0x20 KANJI\n", "0x41 NOSUCH\n", "KANJI 1\n", "0xZZ ALPHA\n"}))
	for _, f := range []string{missing, dir, junk} {
		f := f
		h := filepath.Base(f)
		if f != junk || !strings.HasPrefix(readAll(junk), "KANJI") && !strings.HasPrefix(readAll(junk), "x") {
			add("character definition: "+h, func(b *badOpening) { b.cfg.CharacterDefinitionFile = f })
		}
		if f != junk {
			add("replacement list: "+h, func(b *badOpening) {
				b.in = append(b.in, gs.NewDefaultInputTextPlugin(&gs.DefaultInputTextPluginConfig{RewriteDef: f}))
			})
		}
		if f != junk || !strings.HasPrefix(readAll(junk), "0x") {
			add("MeCab character definition: "+h, func(b *badOpening) {
				b.oov = append(b.oov, gs.NewMeCabOovProviderPlugin(&gs.MeCabOovProviderPluginConfig{CharDef: &f}))
			})
		}
		add("MeCab unknown words: "+h, func(b *badOpening) {
			b.oov = append(b.oov, gs.NewMeCabOovProviderPlugin(&gs.MeCabOovProviderPluginConfig{UnkDef: &f}))
		})
	}
	rw := w.write("badrewrite.def", r.Pick([]string{"a b\na c\n", "ab\n", "a b c d\n"}))
	if s := readAll(rw); s != "ab\n" {
		add("replacement list: "+s, func(b *badOpening) {
			b.in = append(b.in, gs.NewDefaultInputTextPlugin(&gs.DefaultInputTextPluginConfig{RewriteDef: rw}))
		})
	}
	badpos := append([]string{}, posNobody...)
	add("simple OOV part of speech", func(b *badOpening) {
		b.oov = append(b.oov, gs.NewSimpleOovProviderPlugin(&gs.SimpleOovProviderPluginConfig{OovPos: &badpos, LeftId: i16p(0), RightId: i16p(0), Cost: i16p(0)}))
	})
	add("katakana part of speech", func(b *badOpening) {
		b.pth = append(b.pth, gs.NewJoinKatakanaOovPlugin(&gs.JoinKatakanaOovPluginConfig{OovPOS: &badpos}))
	})
	auto := w.sub("automatic.dic")
	if err := buildUser(auto, []string{"あ,0,0,-32768,あ," + strings.Join(w.Sys.Entries[0].Pos[:], ",") + ",ア,あ,*,A,*,*,*\n"}, w.SysPath, w.UTF16, 1, "u", false); err == nil {
		add("automatic cost that cannot be calculated", func(b *badOpening) {
			b.in = append(b.in, &failRewrite{})
			b.cfg.UserDict = append(b.cfg.UserDict, auto)
		})
	}
	add("inhibited pair outside the matrix", func(b *badOpening) {
		b.ed = append(b.ed, gs.NewInhibitConnectionPlugin([]*[]int{{w.M.L, 0}}))
	})
	add("prolonged sound marks without options", func(b *badOpening) {
		b.in = append(b.in, gs.NewProlongedSoundMarkInputTextPlugin(nil))
	})
	add("input plugin fails", func(b *badOpening) { b.in = append(b.in, &failSetUpInput{}) })
	add("OOV plugin fails", func(b *badOpening) { b.oov = append(b.oov, &failSetUp{}) })
	add("path plugin fails", func(b *badOpening) { b.pth = append(b.pth, &failSetUp{}) })
	add("edit plugin fails to set up", func(b *badOpening) { b.ed = append(b.ed, &failSetUp{}) })
	add("edit plugin fails", func(b *badOpening) { b.ed = append(b.ed, &failEdit{}) })
	return bs
}

func readAll(p string) string {
	b, _ := os.ReadFile(p)
	return string(b)
}

func runC20(c *Ctx) {
	r := c.R
	o := GenOpt{Users: r.N(4), NoOOVHoles: true, PlainText: true}
	w := genWorld(r, c.Dir, o)
	if err := w.Build(); err != nil {
		c.Fail("%v", err)
	}
	c.mustHoldNothing("building dictionaries")
	// another dictionary that stays open and must stay usable
	text := w.Text(r, 8, o)
	keep, err := w.Open(-1, false)
	if err != nil {
		c.Setup("opening: %v", err)
	}
	_, want := result(keep.T, "A", text)
	keep.Close()
	c.mustHoldNothing("opening and closing")

	// the library, one file
	for _, kind := range []string{"any", "system", "user"} {
		for _, f := range badFiles(c, w, kind) {
			f := f
			type opener struct {
				name string
				open func() (io.Closer, error)
			}
			closer := func(d *dictionary.BinaryDictionary, err error) (io.Closer, error) {
				if d == nil {
					return nil, err
				}
				return d, err
			}
			var os_ []opener
			switch kind {
			case "any":
				os_ = append(os_, opener{"NewBinaryDictionary", func() (io.Closer, error) { return closer(dictionary.NewBinaryDictionary(f.path, w.UTF16)) }})
				os_ = append(os_, opener{"ReadSystemDictionary", func() (io.Closer, error) { return closer(dictionary.ReadSystemDictionary(f.path, w.UTF16)) }})
				os_ = append(os_, opener{"ReadUserDictionary", func() (io.Closer, error) { return closer(dictionary.ReadUserDictionary(f.path, w.UTF16)) }})
				os_ = append(os_, opener{"PrintDictionary", func() (io.Closer, error) { return nil, dictionary.PrintDictionary(f.path, w.UTF16, nil, io.Discard) }})
			case "system":
				os_ = append(os_, opener{"ReadSystemDictionary", func() (io.Closer, error) { return closer(dictionary.ReadSystemDictionary(f.path, w.UTF16)) }})
			case "user":
				os_ = append(os_, opener{"ReadUserDictionary", func() (io.Closer, error) { return closer(dictionary.ReadUserDictionary(f.path, w.UTF16)) }})
			}
			for _, p := range os_ {
				what := p.name + " of " + f.how
				err := c.noPanic(what, func() error { _, err := p.open(); return err })
				if err == nil {
					c.Fail("%s was accepted", what)
				}
				if hs := held(c.Dir); len(hs) > 0 {
					c.Fail("%s (%v) left behind: %v", what, err, hs)
				}
				c.Count("refused_by_"+p.name, 1)
				c.Eval(what)
			}
		}
	}
	// a user dictionary cannot be printed without the system dictionary
	if len(w.UserPath) > 0 {
		var b bytes.Buffer
		if err := c.noPanic("PrintDictionary of a user dictionary without a system dictionary", func() error {
			return dictionary.PrintDictionary(w.UserPath[0], w.UTF16, nil, &b)
		}); err == nil {
			c.Fail("a user dictionary was printed without the system dictionary")
		}
		c.mustHoldNothing("printing a user dictionary without the system dictionary")
	}

	// opening a set: first with nothing open, then beside open dictionaries
	bs := w.badOpenings(c)
	open := func(b badOpening) {
		err := c.noPanic("opening with "+b.how, func() error {
			d, err := gs.NewJapaneseDictionary(b.cfg, b.in, b.oov, b.pth, b.ed)
			if err == nil {
				d.Close()
			}
			return err
		})
		if err == nil {
			c.Fail("opening with %s was accepted", b.how)
		}
		c.Count("refused_openings", 1)
		c.Eval("open " + b.how)
	}
	for _, b := range bs {
		open(b)
		c.mustHoldNothing("a failed opening, with " + b.how)
	}
	// histories of opening, failing and closing
	var open_ []*gs.JapaneseDictionary
	baseline := map[string]int{}
	first := map[*gs.JapaneseDictionary]string{}
	count := func() map[string]int {
		m := map[string]int{}
		for _, h := range held(c.Dir) {
			m[h]++
		}
		return m
	}
	steps := 0
	for _, b := range w.badOpenings(c) {
		if r.P(60) {
			continue
		}
		switch k := r.N(3); {
		case k == 0 || len(open_) == 0:
			op, err := w.Open(r.N(len(w.UserPath)+1)-1, false)
			if err != nil {
				c.Fail("opening again: %v", err)
			}
			open_ = append(open_, op.D)
			_, first[op.D] = result(op.T, "A", text)
			if len(open_) > 4 {
				open_[0].Close()
				open_ = open_[1:]
			}
		case k == 1:
			i := r.N(len(open_))
			open_[i].Close()
			if r.P(30) {
				open_[i].Close() // closing twice does no harm
			}
			open_ = append(open_[:i], open_[i+1:]...)
		}
		baseline = count()
		open(b)
		if after := count(); fmt.Sprint(after) != fmt.Sprint(baseline) {
			c.Fail("a failed opening, with %s, changed what is held from %v to %v", b.how, baseline, after)
		}
		steps++
		if len(open_) > 0 && r.P(30) {
			d := open_[r.N(len(open_))]
			if _, got := result(d.Create(), "A", text); got != first[d] {
				c.Fail("after a failed opening, an open dictionary gives\n%s\ninstead of\n%s", got, first[d])
			}
		}
	}
	for _, d := range open_ {
		d.Close()
	}
	c.mustHoldNothing("closing the last dictionary")
	c.Count("steps_of_histories", steps)
	// the files still work
	op, err := w.Open(-1, false)
	if err != nil {
		c.Fail("opening again: %v", err)
	}
	if _, got := result(op.T, "A", text); got != want {
		c.Fail("after failed openings the results differ:\n%s\n%s", want, got)
	}
	op.Close()
	c.mustHoldNothing("closing")
	// many cycles of the single-file functions
	for i := 0; i < 5; i++ {
		d, err := dictionary.NewBinaryDictionary(w.SysPath, w.UTF16)
		if err != nil {
			c.Fail("NewBinaryDictionary: %v", err)
		}
		if err := d.Close(); err != nil {
			c.Fail("closing: %v", err)
		}
		c.mustHoldNothing("NewBinaryDictionary and Close")
		if err := dictionary.PrintDictionary(w.SysPath, w.UTF16, nil, io.Discard); err != nil {
			c.Fail("PrintDictionary: %v", err)
		}
		c.mustHoldNothing("PrintDictionary")
	}
	if c.Idx%4 == 1 || c.Tier == "thorough" {
		w.badCommands(c)
	}
	c.Sample(func() interface{} {
		var hs []string
		for _, b := range bs {
			hs = append(hs, b.how)
		}
		return map[string]interface{}{"refused_openings": hs, "steps_of_the_history": steps}
	})
}

// badCommands gives bad files to the commands.
func (w *World) badCommands(c *Ctx) {
	r := c.R
	j := func(args ...string) []string {
		if w.UTF16 {
			return append([]string{"-j"}, args...)
		}
		return args
	}
	lex := w.write("ok.csv", w.Sys.CSV())
	ulex := w.write("uok.csv", "東京五,0,0,1,東京五,"+strings.Join(posOOV[:], ",")+",ゴ,東京五,*,A,*,*,*\n")
	matrix := w.write("ok.matrix", w.M.Text())
	try := func(what, name string, stdin io.Reader, args ...string) {
		res := c.run(stdin, name, args...)
		if res.TimedOut {
			c.Fail("%s with %s does not end", name, what)
		}
		if res.crashed() {
			c.Fail("%s with %s crashed (status %d):\n%s", name, what, res.Code, res.Err)
		}
		if res.Code == 0 {
			c.Fail("%s with %s reports success\nargs %q\nstderr %s", name, what, args, res.Err)
		}
		if res.Err == "" && res.Out == "" {
			c.Fail("%s with %s says nothing", name, what)
		}
		c.Eval(name + " " + what)
	}
	for _, f := range badFiles(c, w, "any") {
		if r.P(50) {
			continue
		}
		try(f.how, "printdic", nil, j(f.path)...)
		try(f.how, "printdicheader", nil, f.path)
		try(f.how, "dicconv", nil, j("-o", w.sub("conv.out"), f.path)...)
	}
	for _, f := range badFiles(c, w, "system") {
		if r.P(50) {
			continue
		}
		try("system dictionary: "+f.how, "userdicbuilder", nil, j("-o", w.sub("u.out"), "-s", f.path, ulex)...)
		if len(w.UserPath) > 0 {
			try("system dictionary: "+f.how, "printdic", nil, j("-s", f.path, w.UserPath[0])...)
		}
		try("system dictionary: "+f.how, "gosudachicli", strings.NewReader("東京\n"), j("-s", fmt.Sprintf(`{"systemDict":%q}`, f.path))...)
	}
	for _, f := range badFiles(c, w, "user") {
		if r.P(50) {
			continue
		}
		try("user dictionary: "+f.how, "gosudachicli", strings.NewReader("東京\n"), j("-s", fmt.Sprintf(`{"systemDict":%q,"userDict":[%q],"oovProviderPlugin":[{"class":"SimpleOovProviderPlugin","oovPOS":["%s"],"leftId":0,"rightId":0,"cost":1000}],"pathRewritePlugin":[],"inputTextPlugin":[]}`, w.SysPath, f.path, strings.Join(posOOV[:], `","`)))...)
	}
	missing := w.sub("no such file.def")
	dir := w.sub("directory.dic")
	for _, f := range []string{missing, dir} {
		what := filepath.Base(f)
		try("matrix: "+what, "dicbuilder", nil, j("-o", w.sub("s.out"), "-m", f, lex)...)
		try("lexicon: "+what, "dicbuilder", nil, j("-o", w.sub("s.out"), "-m", matrix, f)...)
		try("second lexicon: "+what, "dicbuilder", nil, j("-o", w.sub("s.out"), "-m", matrix, lex, f)...)
		try("lexicon: "+what, "userdicbuilder", nil, j("-o", w.sub("u.out"), "-s", w.SysPath, f)...)
		try("settings: "+what, "gosudachicli", strings.NewReader("x\n"), "-r", f)
		try("output: "+what, "dicbuilder", nil, j("-o", filepath.Join(f, "x", "y"), "-m", matrix, lex)...)
	}
	if len(w.UserPath) > 0 {
		try("a user dictionary without the system dictionary", "printdic", nil, j(w.UserPath[0])...)
	}
	for _, n := range []string{"dicbuilder", "userdicbuilder", "dicconv", "printdic", "printdicheader"} {
		try("no arguments", n, nil)
	}
}

func init() {
	register(&Check{ID: "C20", Quick: 1400, MinDistinct: 60, NeedCmds: true, Run: runC20,
		Rule: "a case makes about 25 kinds of bad files (missing, directory, dangling link, empty, cut within the header, other types and versions, text, random bytes) for each place a dictionary is read (library functions, system and user dictionary of a configuration, every command), about 20 openings that fail in a later step (definitions, plugins, edit plugins, number of dictionaries), and a history of openings, failures and closings; after each step it reads the process's open files and mappings below the scratch directory. Non-trivial: a refused file or opening; distinct by place and kind (lengths and versions vary)"})
}
