package main

// C24: failed reading and writing is never taken for success.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	gs "github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dartsclone"
	"github.com/msnoigrs/gosudachi/dictionary"
)

// limitWriter fails once failAt bytes are written (never if that is negative);
// with once, only at that moment.
type limitWriter struct {
	buf    bytes.Buffer
	failAt int
	once   bool
	failed int
}

func (w *limitWriter) Write(b []byte) (int, error) {
	if w.failAt >= 0 && w.buf.Len()+len(b) > w.failAt && !(w.once && w.failed > 0) {
		n := w.failAt - w.buf.Len()
		if n < 0 {
			n = 0
		}
		w.buf.Write(b[:n])
		w.failed++
		return n, errInjected
	}
	return w.buf.Write(b)
}

// failingWrites calls write with a writer that fails at every one of some
// positions; without a failure it must write good.
func (c *Ctx) failingWrites(what string, tries int, write func(w io.Writer) error) {
	r := c.R
	plain := &limitWriter{failAt: -1}
	if err := write(plain); err != nil {
		c.Fail("%s: %v although nothing failed", what, err)
	}
	n := plain.buf.Len()
	for i := 0; i < tries && n > 0; i++ {
		w := &limitWriter{failAt: r.Pick0(0, n-1, r.N(n), r.N(n), r.N(n)), once: r.P(50)}
		if n <= tries {
			w.failAt = i % n
		}
		err := write(w)
		if w.failed == 0 {
			c.Fail("%s: %d bytes written in one run, %d in another", what, n, w.buf.Len())
		}
		if err == nil {
			c.Fail("%s reports success although writing failed after %d of %d bytes (once: %v)", what, w.failAt, n, w.once)
		}
		c.Count("failed_writes", 1)
		c.Eval(fmt.Sprint(what, w.failAt, n, w.once))
	}
}

func runC24(c *Ctx) {
	r := c.R
	switch k := r.N(20); {
	case k < 7:
		runC12Faults(c)
	case k < 14:
		runC24Writes(c)
	case k < 17:
		runC24Reads(c)
	default:
		runC24Commands(c)
	}
}

func runC24Writes(c *Ctx) {
	r := c.R
	w := genWorld(r, c.Dir, GenOpt{Users: r.Pick0(0, 1), OnlyEntries: true})
	fixRefs(w.Sys)
	for _, u := range w.Users {
		fixRefs(u)
	}
	if err := w.Build(); err != nil {
		c.Setup("building: %v", err)
	}
	sys, err := dictionary.ReadSystemDictionary(w.sub("system.dic"), w.UTF16)
	if err != nil {
		c.Setup("%v", err)
	}
	defer sys.Close()
	path := w.sub("system.dic")
	dic := sys
	if len(w.Users) > 0 {
		path = w.sub("user0.dic")
		if dic, err = dictionary.NewBinaryDictionary(path, w.UTF16); err != nil {
			c.Setup("%v", err)
		}
		defer dic.Close()
	}
	c.failingWrites("printing a dictionary", 8, func(o io.Writer) error {
		return dictionary.PrintDictionary(path, w.UTF16, sys, o)
	})
	c.failingWrites("printing a header", 4, func(o io.Writer) error { return dictionary.PrintHeader(path, o) })
	l := dic.Lexicon
	to16 := r.P(50)
	count := func(what string, f func(o io.Writer) (int, error)) {
		c.failingWrites(what, 5, func(o io.Writer) error {
			lw := o.(*limitWriter)
			n, err := f(o)
			if err == nil && lw.failed == 0 && n != lw.buf.Len() {
				c.Fail("%s reports %d bytes, %d are written", what, n, lw.buf.Len())
			}
			return err
		})
	}
	count("writing the trie", l.WriteTrieTo)
	count("writing the word id table", l.WriteWordIdTableTo)
	count("writing the word parameters", l.WriteWordParamsTo)
	count("writing the word infos", func(o io.Writer) (int, error) {
		n, offsets, err := l.WriteWordInfos(o, 1000, int64(4*l.Size()), to16)
		if err == nil && offsets.Len() != 4*int(l.Size()) {
			c.Fail("%d bytes of offsets for %d words", offsets.Len(), l.Size())
		}
		return n, err
	})
	if dic.Grammar != nil {
		count("writing the connection matrix", dic.Grammar.WriteConnMatrixTo)
	}
	da := dartsclone.NewDoubleArray()
	keys := [][]byte{}
	for i := 0; i < r.Range(1, 20); i++ {
		keys = append(keys, []byte(fmt.Sprintf("k%03d", i)))
	}
	if err := da.Build(keys, nil, nil); err != nil {
		c.Setup("%v", err)
	}
	c.failingWrites("saving a trie", 4, func(o io.Writer) error { _, err := da.Save(o); return err })
}

// runC24Reads reads settings and definitions while reading fails.
func runC24Reads(c *Ctx) {
	r := c.R
	w := genWorld(r, c.Dir, GenOpt{OnlyEntries: true})
	cat, def := genCatModel(r)
	_, unk := genUnk(r, cat, 3, 3, [][6]string{posOOV}, true)
	_ = unk
	for i := 0; i < 12; i++ {
		js := `{"path":"/x","systemDict":"a.dic","userDict":["b","c"],"characterDefinitionFile":"d","inputTextPlugin":[{"class":"DefaultInputTextPlugin"}]}`
		switch r.N(3) {
		case 0:
			js = strings.Repeat(" ", r.N(600)) + js
		case 1:
			js = strings.ReplaceAll(js, ",", ",\n   ")
		}
		end := strings.LastIndex(js, "}")
		at, hit := r.N(end+1), false
		rd := &pieceReader{b: []byte(js), r: r, failAt: at, eof: r.P(50), small: r.P(30), hit: func() { hit = true }}
		s := gs.NewSettingsJSON()
		err := s.ParseSettingsJSON("", rd)
		if !hit {
			c.Fail("the settings are not read up to their end")
		}
		if err == nil {
			c.Fail("settings are accepted although reading failed after %d of %d bytes", at, len(js))
		}
		c.Eval(fmt.Sprint("settings", at, js))

		rd = &pieceReader{b: []byte(def), r: r, failAt: r.N(len(def) + 1), eof: r.P(50), small: r.P(30), once: r.P(50), hit: func() { hit = true }}
		hit = false
		err = dictionary.NewCharacterCategory().ReadCharacterDefinition(rd)
		if hit && err == nil {
			c.Fail("the character definition is accepted although reading failed after %d of %d bytes (once: %v)", rd.failAt, len(def), rd.once)
		}
		c.Eval(fmt.Sprint("chars", rd.failAt, def))
		c.Count("failed_reads", 2)
	}
	// files that cannot be read: a directory
	if err := w.Build(); err != nil {
		c.Setup("building: %v", err)
	}
	dir := w.sub("dir")
	if err := os.MkdirAll(dir, 0755); err != nil {
		c.Setup("%v", err)
	}
	pos := append([]string{}, posOOV[:]...)
	conf := &gs.BaseConfig{SystemDict: w.sub("system.dic"), Utf16String: w.UTF16}
	oov := []gs.OovProviderPlugin{gs.NewSimpleOovProviderPlugin(&gs.SimpleOovProviderPluginConfig{OovPos: &pos, LeftId: i16p(0), RightId: i16p(0), Cost: i16p(9)})}
	var in []gs.InputTextPlugin
	what := r.Pick([]string{"nothing", "character definition", "charDef", "unkDef", "rewriteDef"})
	switch what {
	case "character definition":
		conf.CharacterDefinitionFile = dir
	case "charDef":
		oov = append(oov, gs.NewMeCabOovProviderPlugin(&gs.MeCabOovProviderPluginConfig{CharDef: &dir}))
	case "unkDef":
		cd := w.write("c.def", def)
		oov = append(oov, gs.NewMeCabOovProviderPlugin(&gs.MeCabOovProviderPluginConfig{CharDef: &cd, UnkDef: &dir}))
	case "rewriteDef":
		in = append(in, gs.NewDefaultInputTextPlugin(&gs.DefaultInputTextPluginConfig{RewriteDef: dir}))
	}
	d, err := gs.NewJapaneseDictionary(conf, in, oov, nil, nil)
	if what == "nothing" {
		if err != nil {
			c.Setup("%v", err)
		}
		d.Close()
	} else if err == nil {
		d.Close()
		c.Fail("opening succeeds although the %s cannot be read (a directory)", what)
	}
	c.Eval(fmt.Sprint("unreadable", what, def))
}

// runC24Commands runs the commands with full devices and unreadable files.
func runC24Commands(c *Ctx) {
	r := c.R
	w := genWorld(r, c.Dir, GenOpt{Users: 1, OnlyEntries: true})
	fixRefs(w.Sys)
	fixRefs(w.Users[0])
	if err := w.Build(); err != nil {
		c.Setup("building: %v", err)
	}
	sys, usr := w.sub("system.dic"), w.sub("user0.dic")
	j := func(args ...string) []string {
		if w.UTF16 {
			return append([]string{"-j"}, args...)
		}
		return args
	}
	conv := func(args ...string) []string { // from the encoding it has to the other
		if !w.UTF16 {
			return append([]string{"-j"}, args...)
		}
		return args
	}
	in := w.write("in.txt", "東京\n")
	set := w.write("set.json", fmt.Sprintf(`{"systemDict":%q,"inputTextPlugin":[],"pathRewritePlugin":[],"editConnectionCostPlugin":[],"oovProviderPlugin":[{"class":"SimpleOovProviderPlugin","oovPOS":["%s"],"leftId":0,"rightId":0,"cost":100}]}`,
		sys, strings.Join(posOOV[:], `","`)))
	dir := w.sub("dir")
	if err := os.MkdirAll(dir, 0755); err != nil {
		c.Setup("%v", err)
	}
	lex, mat := w.write("l.csv", w.Sys.CSV()), w.write("m.def", w.M.Text())
	out := w.sub("out")
	type job struct {
		full bool // standard output is a full device
		name string
		args []string
	}
	jobs := []job{
		{true, "printdic", j(sys)},
		{true, "printdic", j("-s", sys, usr)},
		{true, "printdicheader", []string{r.Pick([]string{sys, usr})}},
		{true, "gosudachicli", j("-r", set, in)},
		{false, "gosudachicli", j("-r", set, "-o", "/dev/full", in)},
		{false, "gosudachicli", j("-r", set, "-o", out, dir)},
		{false, "gosudachicli", j("-r", set, "-f", in, dir)},
		{false, "gosudachicli", j("-r", dir, in)},
		{false, "gosudachicli", j("-r", set, "-o", dir, in)},
		{false, "dicconv", conv("-o", "/dev/full", sys)},
		{false, "dicconv", conv("-o", "/dev/full", usr)},
		{false, "dicconv", conv("-o", dir, sys)},
		{false, "dicconv", conv("-o", out, dir)},
		{false, "dicbuilder", j("-o", "/dev/full", "-m", mat, lex)},
		{false, "dicbuilder", j("-o", out, "-m", dir, lex)},
		{false, "dicbuilder", j("-o", out, "-m", mat, lex, dir)},
		{false, "userdicbuilder", j("-o", "/dev/full", "-s", sys, lex)},
		{false, "userdicbuilder", j("-o", out, "-s", dir, lex)},
		{false, "userdicbuilder", j("-o", dir, "-s", sys, lex)},
		{false, "printdic", j(dir)},
		{false, "printdicheader", []string{dir}},
	}
	for n := 0; n < 3; n++ {
		b := jobs[r.N(len(jobs))]
		var res cmdResult
		if b.full {
			if b.name == "printdic" && len(b.args) > 0 && b.args[len(b.args)-1] == usr && len(w.Users[0].Entries) == 0 {
				continue
			}
			res = c.runFull(c.Dir, nil, b.name, b.args...)
		} else {
			res = c.run(nil, b.name, b.args...)
		}
		what := fmt.Sprintf("%s %s (full standard output: %v)", b.name, strings.ReplaceAll(strings.Join(b.args, " "), filepath.Clean(c.Dir), "."), b.full)
		if res.crashed() || res.TimedOut {
			c.Fail("%s crashed: status %d: %s", what, res.Code, clip(res.Err, 1500))
		}
		if res.Code == 0 {
			c.Fail("%s ends with status 0: %s", what, clip(res.Err, 800))
		}
		if strings.TrimSpace(res.Err) == "" {
			c.Fail("%s reports nothing", what)
		}
		c.Count("failing_commands", 1)
		c.Eval(what + w.Sys.CSV())
	}
}

func init() {
	register(&Check{ID: "C24", Quick: 40000, MinDistinct: 3000, NeedCmds: true, Run: runC24,
		Rule: "a case builds, prints, converts or saves a generated dictionary through the library while reading a source or writing fails at a chosen point (for good or once), reads settings and definitions with failing readers, opens configurations with unreadable files, or runs the commands with full devices and unreadable files; every failure must come out as an error or a non-zero status, and runs without one must give the complete output however reads are divided. Non-trivial: an injected failure; distinct by kind, place and content"})
}
