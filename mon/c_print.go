package main

// C19 (printing) and C11 (conversion).

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/msnoigrs/gosudachi/dictionary"
)

// ---- C19 -------------------------------------------------------------------------

// parsePrinted reads a printed lexicon and compares it with the source.
func parsePrinted(d *DictSrc, out string) string {
	if len(d.Entries) == 0 {
		if out != "" {
			return "something is printed for an empty dictionary"
		}
		return ""
	}
	if !strings.HasSuffix(out, "\n") {
		return "the last line is not ended"
	}
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if len(lines) != len(d.Entries) {
		return fmt.Sprintf("%d lines for %d words", len(lines), len(d.Entries))
	}
	for i, l := range lines {
		e := d.Entries[i]
		cols := strings.Split(l, ",")
		if len(cols) != 18 {
			return fmt.Sprintf("line %d has %d columns: %s", i, len(cols), short(l))
		}
		for j := range cols {
			cols[j] = decodeModel(cols[j])
		}
		df := "*"
		if e.DF >= 0 {
			df = strconv.Itoa(e.DF)
		}
		want := map[int]string{0: e.Surf, 1: strconv.Itoa(e.L), 2: strconv.Itoa(e.R), 3: strconv.Itoa(e.C), 4: e.Surf, 11: e.Reading(), 12: e.Normalized(), 13: df}
		for j := 0; j < 6; j++ {
			want[5+j] = e.Pos[j]
		}
		for j, v := range want {
			if cols[j] != v {
				return fmt.Sprintf("word %d, column %d: %s printed, expected %s", i, j, short(cols[j]), short(v))
			}
		}
		for j, rs := range map[int][]Ref{15: e.A, 16: e.B, 17: e.W} {
			ids, ok := printedRefs(d, cols[j])
			if !ok || !sameIds(ids, refIds(d, rs)) {
				return fmt.Sprintf("word %d, column %d: references %s printed, expected ids %v", i, j, short(cols[j]), refIds(d, rs))
			}
		}
	}
	return ""
}

// printedRefs resolves references as a builder would.
func printedRefs(d *DictSrc, s string) ([]int32, bool) {
	if s == "*" {
		return nil, true
	}
	var ids []int32
	for _, x := range strings.Split(s, "/") {
		own := strings.HasPrefix(x, "U")
		n, err := strconv.ParseInt(strings.TrimPrefix(x, "U"), 10, 32)
		if err != nil {
			return nil, false
		}
		id := int32(n)
		if own && d.User {
			id |= 1 << 28
		}
		ids = append(ids, id)
	}
	return ids, true
}

func canRebuild(d *DictSrc) bool {
	n := map[string]int{}
	for _, e := range d.Entries {
		n[e.Surf]++
		if len(e.Surf) > 32767 || strings.Contains(e.Surf, "\x00") || n[e.Surf] > 255 {
			return false
		}
	}
	return true
}

var rfcRe = regexp.MustCompile(`\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(Z|[+-]\d\d:\d\d)`)

func checkHeader(c *Ctx, out, path string, user bool, ctime int64, desc string) {
	kind := "system"
	if user {
		kind = "user"
	}
	other := map[string]string{"system": "user", "user": "system"}[kind]
	typ := ""
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "type") {
			typ = l
		}
	}
	if !strings.Contains(typ, kind) || strings.Contains(typ, other) {
		c.Fail("header of a %s dictionary: %q", kind, out)
	}
	t := rfcRe.FindString(out)
	tm, err := time.Parse(time.RFC3339, t)
	if err != nil || tm.Unix() != ctime {
		c.Fail("header with creation time %d: %q", ctime, out)
	}
	if !strings.Contains(out, ": "+desc+"\n") {
		c.Fail("header with description %s: %q", short(desc), out)
	}
	if !strings.Contains(out, path) {
		c.Fail("header without the file's name: %q", out)
	}
	c.Eval("")
}

func runC19(c *Ctx) {
	r := c.R
	dc := genDictCase(c, r.Pick0(0, 1, 1), 0, true)
	w := dc.w
	if r.P(50) { // headwords are the surface forms
		for _, d := range append([]*DictSrc{w.Sys}, w.Users...) {
			for _, e := range d.Entries {
				e.Head = strings.ReplaceAll(e.Surf, "\x00", "")
				if len(e.Head) > 32767 {
					e.Head = "long"
				}
			}
			d.byHead, d.maxLen = nil, 0
		}
	}
	if r.N(60) == 0 || c.Idx%1000 == 500 {
		bigSystem(c, dc)
	}
	ctime := int64(r.N(2000000000))
	sysPath := w.sub("s.dic")
	if err := buildSystem(sysPath, []string{w.Sys.CSV()}, w.M.Text(), dc.u16, ctime, dc.desc); err != nil {
		c.Setup("building: %v", err)
	}
	sys, err := dictionary.ReadSystemDictionary(sysPath, dc.u16)
	if err != nil {
		c.Setup("opening: %v", err)
	}
	defer sys.Close()
	cmds := r.N(3) == 0
	print := func(d *DictSrc, path string, withSys bool) string {
		var b bytes.Buffer
		s := sys
		if !withSys {
			s = nil
		}
		if err := dictionary.PrintDictionary(path, dc.u16, s, &b); err != nil {
			c.Fail("printing a dictionary: %v", err)
		}
		if cmds {
			args := []string{}
			if withSys {
				args = append(args, "-s", sysPath)
			}
			if dc.u16 {
				args = append(args, "-j")
			}
			res := c.run(nil, "printdic", append(args, path)...)
			if res.Code != 0 {
				c.Fail("printdic: exit status %d: %s", res.Code, clip(res.Err, 500))
			}
			if res.Out != b.String() {
				c.Fail("printdic prints something else than the library")
			}
			c.Eval("")
		}
		return b.String()
	}
	header := func(path string, user bool, ct int64) {
		var b bytes.Buffer
		if err := dictionary.PrintHeader(path, &b); err != nil {
			c.Fail("printing a header: %v", err)
		}
		checkHeader(c, b.String(), path, user, ct, dc.desc)
		if cmds {
			res := c.run(nil, "printdicheader", path)
			if res.Code != 0 {
				c.Fail("printdicheader: exit status %d: %s", res.Code, clip(res.Err, 500))
			}
			checkHeader(c, res.Out, path, user, ct, dc.desc)
		}
	}
	check := func(d *DictSrc, path string, withSys bool) string {
		out := print(d, path, withSys)
		if s := parsePrinted(d, out); s != "" {
			c.Fail("printed lexicon: %s", s)
		}
		c.Eval(out)
		c.Count("words_printed", len(d.Entries))
		if !canRebuild(d) {
			return out
		}
		p2 := w.sub("rebuilt.dic")
		var err error
		if d.User {
			err = buildUser(p2, []string{out}, sysPath, dc.u16, ctime, dc.desc, false)
		} else {
			err = buildSystem(p2, []string{out}, w.M.Text(), dc.u16, ctime, dc.desc)
		}
		if err != nil {
			c.Fail("rebuilding from the printed lexicon: %v", err)
		}
		bd, err := dictionary.NewBinaryDictionary(p2, dc.u16)
		if err != nil {
			c.Fail("opening the rebuilt dictionary: %v", err)
		}
		defer bd.Close()
		if s := compareWords(d, bd, sys, true); s != "" {
			c.Fail("rebuilt from the printed lexicon: %s", s)
		}
		same := true
		for _, e := range d.Entries {
			same = same && e.Head == e.Surf
		}
		if same {
			if s := compareLookups(c, d, bd.Lexicon, 3); s != "" {
				c.Fail("rebuilt from the printed lexicon: %s", s)
			}
		}
		c.Count("rebuilt", 1)
		c.Eval("")
		return out
	}
	nSys := sys.Grammar.GetPartOfSpeechSize()
	out := check(w.Sys, sysPath, r.P(20))
	header(sysPath, false, ctime)
	for i, u := range w.Users {
		up := w.sub(fmt.Sprintf("u%d.dic", i))
		old := r.P(25)
		if old {
			for _, e := range u.Entries {
				e.Pos = w.Sys.Entries[r.N(len(w.Sys.Entries))].Pos
			}
			fixRefs(u)
		}
		if err := buildUser(up, []string{u.CSV()}, sysPath, dc.u16, ctime+1, dc.desc, old); err != nil {
			c.Setup("building: %v", err)
		}
		o1 := check(u, up, true)
		if o2 := print(u, up, true); o1 != o2 {
			c.Fail("printing the user dictionary twice gives different lexicons")
		}
		header(up, true, ctime+1)
		var b bytes.Buffer
		if err := dictionary.PrintDictionary(up, dc.u16, nil, &b); err == nil {
			c.Fail("a user dictionary is printed without the system dictionary")
		}
		if b.Len() > 0 {
			c.Fail("a user dictionary is partly printed without the system dictionary")
		}
		if cmds {
			args := []string{up}
			if dc.u16 {
				args = []string{"-j", up}
			}
			res := c.run(nil, "printdic", args...)
			if res.Code == 0 || res.crashed() || res.Out != "" {
				c.Fail("printdic on a user dictionary without the system dictionary: exit status %d, %s", res.Code, clip(res.Err, 300))
			}
		}
		c.Count("user_dictionaries", 1)
		c.Eval("")
	}
	if n := sys.Grammar.GetPartOfSpeechSize(); n != nSys {
		c.Fail("printing changed the system dictionary's parts of speech: %d, before %d", n, nSys)
	}
	c.Sample(func() interface{} {
		return map[string]interface{}{"words": len(w.Sys.Entries), "utf16": dc.u16, "printed": clip(out, 500)}
	})
}

// ---- C11 --------------------------------------------------------------------------

func maxBytes(d *DictSrc) int {
	n := 0
	for _, e := range d.Entries {
		for _, s := range append([]string{e.Surf, e.Read, e.Norm}, e.Pos[:]...) {
			if len(s) > n {
				n = len(s)
			}
		}
	}
	return n
}

func runC11(c *Ctx) {
	if c.Idx%3 == 2 {
		runC11Content(c)
	} else {
		runC11Tok(c)
	}
}

// convert runs dicconv; toUtf16 tells the direction.
func convert(c *Ctx, from, to string, toUtf16 bool) cmdResult {
	r := c.R
	args := []string{}
	if toUtf16 {
		args = append(args, "-j")
	}
	dir := filepath.Dir(to)
	def := "out_utf8.dic"
	if toUtf16 {
		def = "out_utf16.dic"
	}
	out := to
	switch r.N(5) {
	case 0: // the default name
		out = filepath.Join(dir, def)
		os.Remove(out)
	case 1: // a relative name
		args = append(args, "-o", filepath.Base(to))
	default:
		args = append(args, "-o", to)
	}
	if r.P(30) {
		os.WriteFile(out, bytes.Repeat([]byte{0xee}, r.Range(1, 20000)), 0644)
	}
	res := c.runIn(dir, nil, "dicconv", append(args, from)...)
	if out != to && res.Code == 0 {
		if err := os.Rename(out, to); err != nil {
			c.Fail("dicconv without -o wrote no %s: %v", def, err)
		}
	}
	return res
}

// roundTrip converts there and back; it returns the converted file.
func roundTrip(c *Ctx, path string, u16 bool) string {
	conv, back := path+".conv", path+".back"
	res := convert(c, path, conv, !u16)
	if res.Code != 0 {
		c.Fail("dicconv: exit status %d: %s", res.Code, clip(res.Err, 500))
	}
	if res := convert(c, conv, back, u16); res.Code != 0 {
		c.Fail("dicconv back: exit status %d: %s", res.Code, clip(res.Err, 500))
	}
	a, b := readFileOr(c, path), readFileOr(c, back)
	if !bytes.Equal(a, b) {
		i := 0
		for i < len(a) && i < len(b) && a[i] == b[i] {
			i++
		}
		c.Fail("converting there and back changes the file: %d and %d bytes, first difference at %d", len(a), len(b), i)
	}
	c.Eval(string(a))
	c.Count("round_trips", 1)
	return conv
}

func runC11Content(c *Ctx) {
	r := c.R
	dc := genDictCase(c, r.Pick0(0, 1), 0, true)
	w := dc.w
	if r.N(60) == 0 || c.Idx%1000 == 500 {
		bigSystem(c, dc)
	}
	ctime := int64(r.N(2000000000))
	sysPath := w.sub("s.dic")
	if err := buildSystem(sysPath, []string{w.Sys.CSV()}, w.M.Text(), dc.u16, ctime, dc.desc); err != nil {
		c.Setup("building: %v", err)
	}
	if dc.u16 && maxBytes(w.Sys) > 32767 {
		res := convert(c, sysPath, w.sub("x.dic"), false)
		if res.Code == 0 || res.crashed() {
			c.Fail("dicconv of a string that UTF-8 cannot hold: exit status %d: %s", res.Code, clip(res.Err, 300))
		}
		c.Count("too_long_for_utf8", 1)
		c.Eval("")
		return
	}
	conv := roundTrip(c, sysPath, dc.u16)
	checkOpened(c, w.Sys, w.M, conv, "", !dc.u16, dc.desc, ctime, ctime, 3)
	for i, u := range w.Users {
		if maxBytes(u) > 32767 {
			continue
		}
		up := w.sub(fmt.Sprintf("u%d.dic", i))
		if err := buildUser(up, []string{u.CSV()}, sysPath, dc.u16, ctime, dc.desc, false); err != nil {
			c.Setup("building: %v", err)
		}
		uc := roundTrip(c, up, dc.u16)
		checkOpened(c, u, nil, uc, conv, !dc.u16, dc.desc, ctime, ctime, 3)
		c.Count("user_dictionaries", 1)
	}
	c.Sample(func() interface{} {
		return map[string]interface{}{"kind": "content", "words": len(w.Sys.Entries), "from_utf16": dc.u16}
	})
}

func runC11Tok(c *Ctx) {
	r := c.R
	w := genWorld(r, c.Dir, GenOpt{Users: -1, AutoCost: true, NoOOVHoles: true})
	if r.P(40) {
		for _, d := range append([]*DictSrc{w.Sys}, w.Users...) {
			for _, e := range d.Entries {
				if r.P(20) {
					e.Norm = weirdString(r, true, false)
				}
				if r.P(20) {
					e.Read = weirdString(r, true, false)
				}
			}
		}
		for _, d := range append([]*DictSrc{w.Sys}, w.Users...) {
			fixRefs(d)
		}
	}
	old := len(w.Users) > 0 && r.P(25)
	if old {
		for _, u := range w.Users {
			for _, e := range u.Entries {
				e.Pos = w.Sys.Entries[r.N(len(w.Sys.Entries))].Pos
			}
			fixRefs(u)
		}
		c.Count("old_format_user_dictionaries", len(w.Users))
	}
	build := func(w *World, tag string) {
		w.SysPath = w.sub("sys" + tag)
		w.UserPath = nil
		if err := buildSystem(w.SysPath, []string{w.Sys.CSV()}, w.M.Text(), w.UTF16, 1500000000, "sys"); err != nil {
			c.Setup("building: %v", err)
		}
		for i, u := range w.Users {
			p := w.sub(fmt.Sprintf("user%d%s", i, tag))
			if err := buildUser(p, []string{u.CSV()}, w.SysPath, w.UTF16, 1500000001, "user", old); err != nil {
				c.Setup("building: %v", err)
			}
			w.UserPath = append(w.UserPath, p)
		}
	}
	build(w, "1")
	conv := *w
	conv.UTF16 = !w.UTF16
	conv.SysPath = roundTrip(c, w.SysPath, w.UTF16)
	conv.UserPath = nil
	for _, p := range w.UserPath {
		conv.UserPath = append(conv.UserPath, roundTrip(c, p, w.UTF16))
	}
	direct := *w
	direct.UTF16 = !w.UTF16
	build(&direct, "2")
	a, erra := w.Open(-1, false)
	b, errb := conv.Open(-1, false)
	d, errd := direct.Open(-1, false)
	for _, o := range []*Opened{a, b, d} {
		if o != nil {
			defer o.Close()
		}
	}
	if (erra == nil) != (errb == nil) || (erra == nil) != (errd == nil) {
		c.Fail("opening the original (utf16 %v): %v; converted: %v; built in the other encoding: %v", w.UTF16, erra, errb, errd)
	}
	if erra != nil { // an automatic cost cannot be found out
		c.Count("automatic_cost_refused", 1)
		return
	}
	for i := r.Range(3, 10); i > 0; i-- {
		text := w.Text(r, r.Range(1, 12), GenOpt{})
		mode := r.Pick([]string{"A", "B", "C"})
		dig := func(o *Opened) string {
			l, err := o.T.Tokenize(mode, text)
			if err != nil {
				return "error: " + err.Error()
			}
			return digest(l)
		}
		da, db, dd := dig(a), dig(b), dig(d)
		if da != db {
			c.Fail("%q in mode %s, original (utf16 %v):\n%s\nconverted:\n%s", text, mode, w.UTF16, da, db)
		}
		if da != dd {
			c.Fail("%q in mode %s, utf16 %v:\n%s\nbuilt in the other encoding:\n%s", text, mode, w.UTF16, da, dd)
		}
		c.Eval(da)
		c.Count("texts", 1)
	}
	c.Sample(func() interface{} {
		return map[string]interface{}{"kind": "tokenization", "words": len(w.Sys.Entries), "users": len(w.Users), "from_utf16": w.UTF16}
	})
}

func init() {
	register(&Check{ID: "C19", Quick: 10000, Run: runC19, MinDistinct: 1000, NeedCmds: true,
		Rule: "A case builds a system and perhaps a user dictionary (new or old format) from generated sources with unusual characters, prints them through the library (1 in 3 also with the commands), parses the output column by column against the source, rebuilds a dictionary from it and compares that with the source too; headers are printed and compared; user dictionaries are printed without the system dictionary, which must be refused. Distinct: printed lexicons."})
	register(&Check{ID: "C11", Quick: 6500, Run: runC11, MinDistinct: 1000, NeedCmds: true,
		Rule: "A case converts generated system and user dictionaries with dicconv to the other encoding and back and compares the files byte for byte; the converted file is compared word by word with the source (1 in 3 cases), or texts are tokenized with the original, the converted and the directly built counterparts and all readings compared. Distinct: files converted and tokenization results."})
}
