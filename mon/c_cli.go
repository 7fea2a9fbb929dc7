package main

// C18: the analyser command.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"

	gs "github.com/msnoigrs/gosudachi"
)

// splitLines is how the command's input is to be split.
func splitLines(b []byte) []string {
	var ls []string
	start := 0
	for i := 0; i < len(b); i++ {
		switch {
		case b[i] == '\n':
			ls = append(ls, string(b[start:i]))
			start = i + 1
		case b[i] == '\r':
			ls = append(ls, string(b[start:i]))
			if i+1 < len(b) && b[i+1] == '\n' {
				i++
			}
			start = i + 1
		}
	}
	if start < len(b) {
		ls = append(ls, string(b[start:]))
	}
	return ls
}

// chunks hands out its bytes in given pieces, with pauses.
type chunks struct {
	ps    [][]byte
	pause time.Duration
	first time.Duration // before the first piece, so that the command already waits
}

func (c *chunks) Read(b []byte) (int, error) {
	if len(c.ps) == 0 {
		return 0, io.EOF
	}
	time.Sleep(c.first)
	c.first = 0
	n := copy(b, c.ps[0])
	if n == len(c.ps[0]) {
		c.ps = c.ps[1:]
		if c.pause > 0 {
			time.Sleep(c.pause)
		}
	} else {
		c.ps[0] = c.ps[0][n:]
	}
	return n, nil
}

// genInputFile makes bytes of lines with various ends.
func (w *World) genInputFile(r *Rng, o GenOpt) []byte {
	var b bytes.Buffer
	style := r.N(8)
	ends := []string{"\n", "\r\n", "\r"}
	n := r.Range(0, 8)
	line := func() string {
		return strings.NewReplacer("\n", "", "\r", "").Replace(w.Text(r, r.N(6), o))
	}
	switch style {
	case 0: // many short lines, so that reads end between CR and LF
		n = r.Range(300, 4000)
		line = func() string {
			if r.P(70) {
				return ""
			}
			return string(r.PickRune([]rune("aあア。1漢")))
		}
		ends = []string{"\r\n", "\r\n", "\r\n", "\n", "\r"}
	case 1: // lines around the size of a read
		n = r.Range(1, 4)
		line = func() string {
			k := r.Pick0(4090, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 12288) + r.Range(-3, 3)
			s := strings.Repeat(r.Pick([]string{"a", "あ", "1", "。"}), k)
			return s[:k/(len(s)/k)*(len(s)/k)]
		}
	case 2:
		n = r.Range(20, 60)
	}
	one := r.Pick(ends)
	for i := 0; i < n; i++ {
		l := line()
		b.WriteString(l)
		e := one
		if r.P(30) || style == 0 {
			e = r.Pick(ends)
		}
		if i == n-1 && r.P(40) {
			e = ""
		}
		b.WriteString(e)
		if r.P(4) {
			b.WriteString(r.Pick([]string{"\r", "\n", "\r\r", "\n\r", "\r\n\r\n", "\n\n"}))
		}
	}
	return b.Bytes()
}

// expected is what the command is to print for the lines: the output up to the
// first failing line, or without all failing ones, and the number of failures.
func expectedOutput(t *gs.JapaneseTokenizer, mode string, lines []string, all, ignore, dump bool) (string, int) {
	var b bytes.Buffer
	bad := 0
	for _, l := range lines {
		if dump {
			t.DumpOutput = &b
		}
		ms, err := t.Tokenize(mode, l)
		t.DumpOutput = nil
		if err != nil {
			bad++
			if ignore {
				continue
			}
			break
		}
		for i := 0; i < ms.Length(); i++ {
			m := ms.Get(i)
			fs := []string{m.Surface(), strings.Join(m.PartOfSpeech(), ","), m.NormalizedForm()}
			if all {
				fs = append(fs, m.DictionaryForm(), m.ReadingForm(), fmt.Sprint(m.GetDictionaryId()))
				if m.IsOOV() {
					fs = append(fs, "(OOV)")
				}
			}
			b.WriteString(strings.Join(fs, "\t") + "\n")
		}
		b.WriteString("EOS\n")
	}
	return b.String(), bad
}

// firstDiff shows where two outputs begin to differ.
func firstDiff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+120
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("differs at byte %d (%d bytes, expected %d): %q, expected %q", i, len(got), len(want), cut(got), cut(want))
}

func runC18(c *Ctx) {
	r := c.R
	if c.Idx == 3 {
		c.runDefaultSettings()
		return
	}
	w, o := settingsWorld(c, r.Pick0(0, 0, 0, 1, 2))
	op, err := w.Open(-1, false)
	if err != nil {
		c.Count("openings_refused", 1)
		return
	}
	defer op.Close()
	exe := "gosudachicli"
	for k := 0; k < 4; k++ {
		d := w.doc(r, true)
		var args []string
		bin := exe
		if w.UTF16 && r.P(50) {
			delete(d, "utf16String")
			args = append(args, "-j")
		}
		if _, ok := d["inputTextPlugin"]; !ok {
			d["inputTextPlugin"] = "[]"
		}
		if _, ok := d["pathRewritePlugin"]; !ok {
			d["pathRewritePlugin"] = "[]"
		}
		fs := sortedFields(d)
		switch r.N(5) {
		case 0, 1: // directory by path entry
			fs = append(fs, `"path":`+jstr(r, w.Dir))
			if r.P(50) {
				args = append(args, "-p", "/nowhere")
			}
		case 2, 3:
			args = append(args, "-p", w.Dir)
		case 4:
			if r.P(10) { // the directory of the command
				b := readAll(filepath.Join(c.BinDir, exe))
				bin = filepath.Join(w.Dir, fmt.Sprintf("gosudachi copy %d", k))
				if err := os.WriteFile(bin, []byte(b), 0755); err != nil {
					c.Setup("%v", err)
				}
				c.Count("runs_with_the_directory_of_the_command", 1)
			} else {
				args = append(args, "-p", w.Dir)
			}
		}
		doc := jobj(r, fs)
		if r.P(6) { // unusable settings, input or options: nothing is analysed
			a := append([]string{}, args...)
			switch r.N(7) {
			case 0:
				a = append(a, "-r", ".")
			case 1:
				a = append(a, "-r", "no such settings.json")
			case 2:
				a = append(a, "-s", doc[:len(doc)-1])
			case 3:
				a = append(a, "-r", w.write("bad.json", doc[:r.N(len(doc)-1)]))
			case 4:
				a = append(a, "-s", strings.TrimSuffix(strings.TrimSpace(doc), "}")+`,"pathRewritePlugin":[{"class":"JoinNumericPlugins"}]}`)
			case 5:
				a = append(a, "-s", doc, "-no-such-option")
			case 6:
				a = append(a, "-s", `{"path":`+jstr(r, w.Dir)+`,"systemDict":"no such.dic"}`)
			}
			res := c.runIn(w.Dir, strings.NewReader("あ\n"), bin, a...)
			if res.Code == 0 || res.TimedOut || res.crashed() || res.Out != "" || strings.TrimSpace(res.Err) == "" {
				c.Fail("gosudachicli %q: status %d, time out %v, output %q: %s", a, res.Code, res.TimedOut, res.Out, res.Err)
			}
			c.Count("runs_with_unusable_settings", 1)
		}
		if r.P(50) {
			args = append(args, "-s", doc)
		} else {
			f := w.write(fmt.Sprintf("cli%d.json", k), doc)
			if r.P(50) {
				f = filepath.Base(f)
			}
			args = append(args, "-r", f)
		}
		mode := "C"
		if r.P(75) {
			mode = r.Pick(modes)
			args = append(args, "-m", mode)
		}
		all, ignore, dump := r.P(50), r.P(40), r.P(12)
		if all {
			args = append(args, "-a")
		}
		if ignore {
			args = append(args, "-f")
		}
		if dump {
			args = append(args, "-d")
		}
		out := ""
		full := false
		switch r.N(12) {
		case 0, 1:
			out = filepath.Join(w.Dir, "out.txt")
			args = append(args, "-o", out)
		case 2, 3:
			out = filepath.Join(w.Dir, "rel out.txt")
			os.WriteFile(out, []byte(strings.Repeat("old\n", r.N(2000))), 0644)
			args = append(args, "-o", "rel out.txt")
		case 4:
			if r.P(30) {
				full = true
				args = append(args, "-o", "/dev/full")
			}
		case 5:
			if r.P(30) {
				args = append(args, "-o", filepath.Join(w.Dir, "no/such/dir/out.txt"))
				res := c.run(strings.NewReader("あ\n"), bin, args...)
				if res.Code == 0 || res.crashed() {
					c.Fail("%q: status %d: %s", args, res.Code, res.Err)
				}
				c.Count("unwritable_output", 1)
				continue
			}
		}
		// input
		var want string
		bad := 0
		wantFail := false
		var stdin io.Reader
		nfiles := r.Pick0(0, 0, 0, 1, 2, 3)
		var descr strings.Builder
		nlines := 0
		add := func(b []byte) bool {
			ls := splitLines(b)
			nlines += len(ls)
			s, n := expectedOutput(op.T, mode, ls, all, ignore, dump)
			want += s
			bad += n
			fmt.Fprintf(&descr, " input %q", shortText(string(b)))
			return n == 0 || ignore
		}
		if nfiles == 0 {
			b := w.genInputFile(r, o)
			ck := &chunks{}
			slow := r.P(15)
			if slow { // read piece by piece, nearly all line ends
				b = b[:0]
				if r.P(50) { // pieces that fill the buffer, or nearly
					for i := r.Range(1, 3); i > 0; i-- {
						for _, size := range []int{4096, 4096 - r.Pick0(1, 1, 1, 2, 3), r.Range(1, 40)} {
							p := make([]byte, 0, size+2)
							if size < 100 {
								p = append(p, r.Pick([]string{"\n", "\n", "\r\n", "a"})...)
							}
							for len(p) < size {
								p = append(p, strings.Repeat("a", r.Range(0, 400))...)
								p = append(p, r.Pick([]string{"\r\n", "\r\n", "\n", "\r"})...)
							}
							p = p[:size]
							e := r.Pick([]string{"\r", "\r\n", "\r\n"})
							if size == 4096 {
								e = r.Pick([]string{"\r", "\r", "\r\n", "\n", "a"})
							}
							if len(e) <= size {
								copy(p[size-len(e):], e)
							}
							ck.ps = append(ck.ps, p)
							b = append(b, p...)
						}
					}
				}
				for i := r.Range(5, 40); i > 0; i-- {
					// each piece is written to the same buffer, over what
					// the ends of the pieces before have left there
					p := ""
					for j := r.Range(1, 4); j > 0; j-- {
						p += r.Pick([]string{"\r\n", "\r\n", "\n", "\r", "a", "a", "b1"})
					}
					p += r.Pick([]string{"\r", "\r", "\r\n", "\r\n", "\n", ""})
					ck.ps = append(ck.ps, []byte(p))
					b = append(b, p...)
				}
				ck.first = 80 * time.Millisecond
			}
			if !add(b) {
				wantFail = true
			}
			if slow {
				ck.pause = 400 * time.Microsecond
			} else if r.P(40) {
				ck.pause = time.Duration(r.Range(1, 300)) * time.Microsecond
			}
			rest := b
			small := r.Pick0(1, 3, 20, 4096, 1<<20)
			if slow {
				rest = nil
			}
			for len(rest) > 0 {
				k := 1 + r.N(small)
				if len(ck.ps) > 300 {
					k = len(rest)
				}
				if i := bytes.IndexByte(rest, '\r'); i >= 0 && r.P(30) && i < 2000 {
					k = i + 1 // a piece that ends with CR
				}
				if k > len(rest) {
					k = len(rest)
				}
				ck.ps = append(ck.ps, rest[:k])
				rest = rest[k:]
			}
			if !slow && r.P(40) { // from a file
				f := w.write("stdin", string(b))
				fd, err := os.Open(f)
				if err != nil {
					c.Setup("%v", err)
				}
				defer fd.Close()
				stdin = fd
			} else {
				stdin = ck
			}
		} else {
			stdin = strings.NewReader("not read\n")
			goOn := true
			missing := -1
			if r.P(15) {
				missing = r.N(nfiles)
			}
			for i := 0; i < nfiles; i++ {
				f := fmt.Sprintf("in %d-%d.txt", k, i)
				if i == missing {
					f = r.Pick([]string{"no such file", "."})
					goOn = false
					wantFail = true
				} else {
					b := w.genInputFile(r, o)
					w.write(f, string(b))
					if goOn && !add(b) {
						goOn = false
						wantFail = true
					}
				}
				if r.P(50) {
					f = filepath.Join(w.Dir, f)
				}
				args = append(args, f)
			}
		}
		var res cmdResult
		if out == "" && !full && len(want) > 0 && r.P(3) { // standard output is full
			res = c.runFull(w.Dir, stdin, bin, args...)
			full = true
		} else {
			res = c.runIn(w.Dir, stdin, bin, args...)
		}
		what := fmt.Sprintf("gosudachicli %q%s", args, descr.String())
		if res.TimedOut || res.crashed() {
			c.Fail("%s: status %d, time out %v: %s", what, res.Code, res.TimedOut, res.Err)
		}
		if full {
			if res.Code == 0 && len(want) > 0 {
				c.Fail("%s: status 0 although the output could not be written", what)
			}
			c.Count("full_output", 1)
			continue
		}
		if (res.Code != 0) != wantFail {
			c.Fail("%s: status %d, failing lines %d: %s", what, res.Code, bad, res.Err)
		}
		got := res.Out
		if out != "" {
			if got != "" {
				c.Fail("%s: wrote to standard output too: %q", what, shortText(got))
			}
			got = readAll(out)
		}
		if got != want {
			c.Fail("%s: output %s", what, firstDiff(got, want))
		}
		if (bad > 0 || wantFail) && strings.TrimSpace(res.Err) == "" {
			c.Fail("%s: %d lines failed, status %d, but nothing was reported", what, bad, res.Code)
		}
		if bad == 0 && !wantFail && res.Err != "" {
			c.Fail("%s: reported %q", what, res.Err)
		}
		c.Count("lines", nlines)
		c.Count("failing_lines", bad)
		if ignore && bad > 0 {
			c.Count("failing_lines_ignored", bad)
		}
		if wantFail {
			c.Count("runs_stopped_by_an_error", 1)
		}
		if nlines > 0 {
			c.Eval(what)
		}
		c.Sample(func() interface{} {
			return map[string]interface{}{"arguments": args, "lines": nlines, "output_bytes": len(got), "status": res.Code}
		})
	}
}

// runFull runs a command with a full standard output.
func (c *Ctx) runFull(dir string, stdin io.Reader, name string, args ...string) cmdResult {
	fd, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		c.Setup("%v", err)
	}
	defer fd.Close()
	return c.runTo(dir, stdin, fd, name, args...)
}

// runDefaultSettings checks the settings built into the command, with a
// dictionary that has the ids they name.
func (c *Ctx) runDefaultSettings() {
	r := c.R
	dir := c.Dir
	poss := [][6]string{}
	for _, l := range strings.Split(asset("unk.def"), "\n") {
		f := strings.Split(strings.TrimSpace(l), ",")
		if len(f) >= 10 {
			poss = append(poss, [6]string{f[4], f[5], f[6], f[7], f[8], f[9]})
		}
	}
	poss = append(poss, posOOV, posNumeric, [6]string{"補助記号", "一般", "*", "*", "*", "*"})
	d := &DictSrc{}
	heads := map[string]bool{}
	word := func(h string, p [6]string) {
		if heads[h] {
			return
		}
		heads[h] = true
		d.Entries = append(d.Entries, &Entry{Head: h, L: r.N(5969), R: r.N(5969), C: r.Range(0, 9000), Surf: h, Pos: p, Read: "ヨミ", Norm: h, DF: -1, Unit: "C"})
	}
	for i, p := range poss {
		word(fmt.Sprintf("品詞%d", i), p)
	}
	for _, n := range "0123456789一二三四五六七八九〇十百千万億.," {
		word(string(n), posNumeric)
	}
	for i := 0; i < 40; i++ {
		word(genWord(r, abWords, 3), posOOV)
	}
	var mb strings.Builder
	mb.WriteString("5969 5969\n")
	for i := 0; i < 3000; i++ {
		fmt.Fprintf(&mb, "%d %d %d\n", r.N(5969), r.N(5969), r.Range(-500, 9000))
	}
	sys := filepath.Join(dir, "system_core.dic")
	if err := buildSystem(sys, []string{d.CSV()}, mb.String(), false, 1500000000, "core"); err != nil {
		c.Setup("%v", err)
	}
	marks, sym := []string{"ー", "-", "⁓", "〜", "〰"}, "ー"
	p3, pos1, pos2 := 3, []string{"補助記号", "一般", "*", "*", "*", "*"}, append([]string{}, posOOV[:]...)
	dic, err := gs.NewJapaneseDictionary(&gs.BaseConfig{SystemDict: sys},
		[]gs.InputTextPlugin{gs.NewDefaultInputTextPlugin(nil), gs.NewProlongedSoundMarkInputTextPlugin(&gs.ProlongedSoundMarkInputTextPluginConfig{ProlongedSoundMarks: &marks, ReplacementSymbol: &sym})},
		[]gs.OovProviderPlugin{gs.NewMeCabOovProviderPlugin(nil), gs.NewSimpleOovProviderPlugin(&gs.SimpleOovProviderPluginConfig{OovPos: &pos1, LeftId: i16p(5968), RightId: i16p(5968), Cost: i16p(3857)})},
		[]gs.PathRewritePlugin{gs.NewJoinNumericPlugin(nil), gs.NewJoinKatakanaOovPlugin(&gs.JoinKatakanaOovPluginConfig{OovPOS: &pos2, MinLength: &p3})}, nil)
	if err != nil {
		c.Setup("%v", err)
	}
	defer dic.Close()
	t := dic.Create()
	w := &World{Dir: dir, Sys: d, alpha: abWords}
	for k := 0; k < 6; k++ {
		b := w.genInputFile(r, GenOpt{})
		want, bad := expectedOutput(t, "C", splitLines(b), true, true, false)
		args := []string{"-p", dir, "-a", "-f"}
		if k%2 == 1 {
			args = append(args, "-s", r.Pick([]string{`{}`, `{"utf16String":false}`, `{"userDict":[]}`, `{"editConnectionCostPlugin":[]}`}))
		}
		res := c.runIn(dir, bytes.NewReader(b), "gosudachicli", args...)
		if res.Code != 0 || res.Out != want {
			c.Fail("default settings, %q, input %q: status %d, %d failing lines, output %s %s", args, shortText(string(b)), res.Code, bad, firstDiff(res.Out, want), res.Err)
		}
		c.Count("runs_with_default_settings", 1)
		c.Eval("default" + string(b))
	}
}

func init() {
	register(&Check{ID: "C18", Quick: 800, MinDistinct: 300, NeedCmds: true, Run: runC18,
		Rule: "a case writes the settings of a generated dictionary and runs the command four times with random options (settings as file or argument, mode, all fields, ignore, debug, encoding, resource directory, output file), reading random lines (all line ends and their mixtures, empty lines, thousands of short ones, lines around and above the size of a read, no end of the last one) from standard input in random pieces or from 1 to 3 files (some missing), and compares output, status and error output with the library's results line by line; one case uses the built-in settings. Non-trivial: a run with at least one line; distinct by arguments and input"})
}
