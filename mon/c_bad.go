package main

// C12: malformed sources.

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
)

var badInts = []string{"", "x", "1.5", "0x10", " 1", "1 ", "32768", "-32769", "99999999999999999999", "１", "1e3", "--1", "*", "5,"}

// rows of raw columns
type rowSet [][]string

func (rs rowSet) render(r *Rng) string {
	var b strings.Builder
	crlf, noEnd := r.P(20), r.P(30)
	for i, x := range rs {
		b.WriteString(strings.Join(x, ","))
		if i == len(rs)-1 && noEnd && len(x) > 1 {
			break
		}
		if crlf {
			b.WriteByte('\r')
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func splitRows(d *DictSrc) rowSet {
	var rs rowSet
	for i := range d.Entries {
		rs = append(rs, strings.Split(d.Line(i, escPlain), ","))
	}
	return rs
}

func badRef(r *Rng, d *DictSrc) string {
	own := len(d.Entries)
	n := own
	if d.User {
		n = len(d.Sys.Entries)
	}
	e := d.Entries[r.N(own)]
	inline := func(parts ...string) string { return strings.Join(parts, `\u002c`) }
	p := e.Pos
	switch r.N(22) {
	case 0:
		return strconv.Itoa(n)
	case 1:
		return "U" + strconv.Itoa(own)
	case 2:
		return "-1"
	case 3:
		return "U-1"
	case 4:
		return ""
	case 5:
		return "x"
	case 6:
		return "U"
	case 7:
		return "0/"
	case 8:
		return "/0"
	case 9:
		return "0//0"
	case 10:
		return inline(e.Surf, p[0], p[1])
	case 11: // one part is missing
		return inline(e.Surf, p[0], p[1], p[2], p[3], p[4], p[5])
	case 12:
		return inline("無い語", p[0], p[1], p[2], p[3], p[4], p[5], e.Read)
	case 13:
		return inline(e.Surf, "無い品詞", p[1], p[2], p[3], p[4], p[5], e.Read)
	case 14:
		return inline(e.Surf, p[0], p[1], p[2], p[3], p[4], p[5], "ナイヨミ")
	case 15:
		return "99999999999"
	case 16:
		return "1.0"
	case 17:
		return "**"
	case 18:
		return "0/*"
	case 19:
		return strconv.Itoa(n + r.N(100000))
	case 20:
		return "U2147483647"
	}
	return "0/" + strconv.Itoa(n)
}

// breakRows makes one malformation; it returns what it did.
func breakRows(r *Rng, d *DictSrc, rs *rowSet, u16 bool) string {
	i := r.N(len(*rs))
	row := append([]string{}, (*rs)[i]...)
	(*rs)[i] = row
	if len(row) != 18 {
		return "again"
	}
	at := func(what string) string { return fmt.Sprintf("line %d: %s", i+1, what) }
	switch k := r.N(20); k {
	case 0:
		(*rs)[i] = row[:17]
		return at("17 columns")
	case 1:
		(*rs)[i] = append(row, r.Pick([]string{"", "x", "*"}))
		return at("19 columns")
	case 2:
		(*rs)[i] = []string{r.Pick([]string{"x", " ", "#"})}
		return at("one column")
	case 3:
		n := append(append(append(rowSet{}, (*rs)[:i]...), []string{""}), (*rs)[i:]...)
		*rs = n
		return at("blank line before")
	case 4, 5, 6:
		j := 1 + r.N(3)
		row[j] = r.Pick(badInts)
		return at(fmt.Sprintf("column %d is %q", j, row[j]))
	case 7, 8:
		row[13] = r.Pick([]string{"", "abc", "-2", strconv.Itoa(len(d.Entries)), strconv.Itoa(len(d.Entries) + r.N(1000)), "99999999", "4294967296", "2147483648", "1.0", "**", "U0", "-2147483648"})
		return at("dictionary form " + row[13])
	case 9:
		j := r.Pick0(4, 11, 12)
		row[j] = fitString(r, 32768+r.Pick0(0, 0, 1, 40000), u16)
		return at(fmt.Sprintf("column %d too long", j))
	case 10:
		row[0] = fitString(r, 32768+r.Pick0(0, 0, 1, 33000), false)
		return at("headword too long")
	case 11:
		j := 5 + r.N(6)
		row[j] = fitString(r, 32768+r.Pick0(0, 0, 1, 65536), u16)
		return at(fmt.Sprintf("column %d too long", j))
	case 12:
		j := 15 + r.N(3)
		row[14] = "C"
		row[j] = strings.Repeat("0/", 127+r.Pick0(0, 0, 1, 128, 129, 200)) + "0"
		return at(fmt.Sprintf("column %d: too many units", j))
	case 13:
		row[14] = "A"
		j := 15 + r.N(2)
		row[j] = r.Pick([]string{"0", "0/0", "U0", ""})
		return at("split of an A unit")
	case 14, 15, 16, 17:
		j := 15 + r.N(3)
		row[14] = "C"
		row[j] = badRef(r, d)
		if r.P(30) {
			row[j] = "0/" + row[j]
		}
		return at(fmt.Sprintf("column %d is %q", j, row[j]))
	case 18:
		j := 5 + r.N(6)
		row[j] += `\u002c`
		return at("comma in a part of speech")
	case 19:
		row[1] = "0"
		row[0] = r.Pick([]string{`\u0000`, `a\u0000`, `\u{0}b`})
		return at("NUL in a headword")
	}
	return "again"
}

func breakMatrix(r *Rng, m *Matrix) (string, string) {
	lines := strings.SplitAfter(m.Text(), "\n")
	bad := func(l string) string {
		k := 1 + r.N(len(lines))
		if k > len(lines) {
			k = len(lines)
		}
		return strings.Join(lines[:k], "") + l + "\n" + strings.Join(lines[k:], "")
	}
	rest := strings.Join(lines[1:], "")
	l, rr := m.L, m.R
	switch r.N(18) {
	case 0:
		return "", "empty matrix file"
	case 1:
		return "\n" + rest, "blank size line"
	case 2:
		return fmt.Sprintf("%d\n", l) + rest, "one size"
	case 3:
		return fmt.Sprintf("%d x\n", l) + rest, "size x"
	case 4:
		return fmt.Sprintf("a %d\n", rr) + rest, "size a"
	case 5:
		return fmt.Sprintf("-1 %d\n", rr), "negative size"
	case 6:
		return fmt.Sprintf("%d -1\n", l), "negative size"
	case 7:
		return fmt.Sprintf("0 %d\n", rr), "size 0"
	case 8:
		return fmt.Sprintf("%d 0\n", l), "size 0"
	case 9:
		return r.Pick([]string{"40000 1\n", "1 40000\n", "65536 1\n", "1 65537\n", "32768 1\n", "99999999999999999999 1\n"}) + rest, "too large a size"
	case 10:
		return bad(fmt.Sprintf("%d 0 1", l+r.Pick0(0, 0, 1, 1000, 65536-l))), "left index out of range"
	case 11:
		return bad(fmt.Sprintf("0 %d 1", rr+r.Pick0(0, 0, 1, 1000, 65536-rr))), "right index out of range"
	case 12:
		return bad("-1 0 1"), "negative index"
	case 13:
		return bad("0 -1 1"), "negative index"
	case 14:
		return bad(r.Pick([]string{"x 0 1", "0 y 1", "0.5 0 1"})), "index is no number"
	case 15:
		return bad(r.Pick([]string{"0 0 z", "0 0 1.5", "0 0 0x1", "0 0 ー1"})), "cost is no number"
	case 16:
		return bad("0 0 " + r.Pick([]string{"32768", "-32769", "65536", "99999999999999999999"})), "cost out of range"
	}
	return strings.Replace(m.Text(), "\n", "", 1), "no end of the size line"
}

// ---- the reference parser -----------------------------------------------------------

type parseError string

func refParseLex(text string, d *DictSrc, u16 bool) (err error) {
	lines := strings.Split(text, "\n")
	last := len(lines) - 1
	fix := func(s string) string {
		if u16 {
			return string([]rune(s))
		}
		return s
	}
	type splits struct{ s [3]string }
	var sp []splits
	rawEntries := &DictSrc{User: d.User, Sys: d.Sys}
	for i, l := range lines {
		if i == last && l == "" {
			break
		}
		if i < last {
			l = strings.TrimSuffix(l, "\r")
		}
		cols := strings.Split(l, ",")
		if len(cols) != 18 {
			return fmt.Errorf("line %d: %d columns", i+1, len(cols))
		}
		for j := range cols {
			cols[j] = decodeModel(cols[j])
		}
		e := &Entry{Head: cols[0], Surf: cols[4], Read: cols[11], Norm: cols[12], DF: -1, Unit: cols[14]}
		for j, p := range []*int{&e.L, &e.R, &e.C} {
			v, err := strconv.ParseInt(cols[1+j], 10, 16)
			if err != nil {
				return fmt.Errorf("line %d, column %d: %v", i+1, 1+j, err)
			}
			*p = int(v)
		}
		if cols[1] != "-1" && e.L == -1 {
			return fmt.Errorf("skip") // indexed or not: not specified
		}
		copy(e.Pos[:], cols[5:11])
		for _, p := range e.Pos {
			if strings.Contains(p, ",") || units(p, u16) > 32767 {
				return fmt.Errorf("line %d: part of speech", i+1)
			}
		}
		for _, s := range []string{e.Surf, e.Read, e.Norm, e.Head} {
			if units(s, u16) > 32767 {
				return fmt.Errorf("line %d: too long", i+1)
			}
		}
		if len(e.Head) > 32767 {
			return fmt.Errorf("line %d: headword too long", i+1)
		}
		if e.Indexed() && strings.Contains(e.Head, "\x00") {
			return fmt.Errorf("line %d: NUL", i+1)
		}
		if cols[13] != "*" {
			v, err := strconv.ParseInt(cols[13], 10, 32)
			if err != nil || v < -1 {
				return fmt.Errorf("line %d: dictionary form", i+1)
			}
			e.DF = int(v)
		}
		if cols[14] == "A" && (cols[15] != "*" || cols[16] != "*") {
			return fmt.Errorf("line %d: A unit", i+1)
		}
		sp = append(sp, splits{[3]string{cols[15], cols[16], cols[17]}})
		rawEntries.Entries = append(rawEntries.Entries, e)
	}
	for i, e := range rawEntries.Entries {
		if e.DF >= len(rawEntries.Entries) {
			return fmt.Errorf("word %d: dictionary form", i)
		}
		for j, p := range []*[]Ref{&e.A, &e.B, &e.W} {
			rs, err := refParseRefs(rawEntries, sp[i].s[j])
			if err != nil {
				return fmt.Errorf("word %d: %v", i, err)
			}
			*p = rs
		}
	}
	d.Entries = nil
	for _, e := range rawEntries.Entries {
		f := *e
		if u16 {
			f.Surf, f.Read, f.Norm = fix(e.Surf), fix(e.Read), fix(e.Norm)
			for j := range f.Pos {
				f.Pos[j] = fix(f.Pos[j])
			}
		}
		d.Entries = append(d.Entries, &f)
	}
	d.byHead, d.maxLen = nil, 0
	return nil
}

func refParseRefs(d *DictSrc, s string) ([]Ref, error) {
	if s == "*" {
		return nil, nil
	}
	parts := strings.Split(s, "/")
	if len(parts) > 127 {
		return nil, fmt.Errorf("too many units")
	}
	var rs []Ref
	for _, p := range parts {
		if strings.HasPrefix(p, "U") {
			if v, err := strconv.ParseInt(p[1:], 10, 32); err == nil {
				if v < 0 || int(v) >= len(d.Entries) {
					return nil, fmt.Errorf("reference %s out of range", p)
				}
				rs = append(rs, Ref{'U', true, int(v)})
				continue
			}
		}
		if v, err := strconv.ParseInt(p, 10, 32); err == nil {
			n := len(d.Entries)
			if d.User {
				n = len(d.Sys.Entries)
			}
			if v < 0 || int(v) >= n {
				return nil, fmt.Errorf("reference %s out of range", p)
			}
			rs = append(rs, Ref{'n', !d.User, int(v)})
			continue
		}
		if strings.Contains(p, "\n") {
			return nil, fmt.Errorf("skip")
		}
		cols := strings.Split(p, ",")
		if len(cols) < 8 {
			return nil, fmt.Errorf("incomplete reference %q", p)
		}
		for j := range cols {
			cols[j] = decodeModel(cols[j])
		}
		found := false
		var pos [6]string
		copy(pos[:], cols[1:7])
		for i, e := range d.Entries {
			if e.Surf == cols[0] && e.Pos == pos && e.Read == cols[7] {
				rs, found = append(rs, Ref{'i', true, i}), true
				break
			}
		}
		if !found && d.Sys != nil {
			for i, e := range d.Sys.Entries {
				if e.Surf == cols[0] && e.Pos == pos && e.Reading() == cols[7] {
					rs, found = append(rs, Ref{'i', false, i}), true
					break
				}
			}
		}
		if !found {
			return nil, fmt.Errorf("unknown word %q", p)
		}
	}
	return rs, nil
}

func refParseMatrix(text string) (*Matrix, error) {
	lines := strings.Split(text, "\n")
	f := strings.Fields(lines[0])
	if len(f) < 2 {
		return nil, fmt.Errorf("size line")
	}
	l, e1 := strconv.ParseInt(f[0], 10, 16)
	r, e2 := strconv.ParseInt(f[1], 10, 16)
	if e1 != nil || e2 != nil || l <= 0 || r <= 0 {
		return nil, fmt.Errorf("size line")
	}
	if l*r > 1<<20 {
		return nil, fmt.Errorf("skip")
	}
	m := newMatrix(int(l), int(r))
	for i, t := range lines[1:] {
		f := strings.Fields(t)
		if len(f) < 3 { // only warned about
			continue
		}
		a, e1 := strconv.ParseInt(f[0], 10, 16)
		b, e2 := strconv.ParseInt(f[1], 10, 16)
		v, e3 := strconv.ParseInt(f[2], 10, 16)
		if e1 != nil || e2 != nil || e3 != nil || a < 0 || b < 0 || a >= l || b >= r {
			return nil, fmt.Errorf("line %d", i+2)
		}
		m.Cost[a][b], m.Set[a][b] = int16(v), true
	}
	return m, nil
}

func mutateBytes(r *Rng, s string) string {
	b := []byte(s)
	special := []byte("0123456789-,,,/*UABC\\u{}\n\r \t\x00\xff\xe3\x81")
	for i := r.Range(1, 4); i > 0 && len(b) > 0; i-- {
		p := r.N(len(b))
		switch r.N(6) {
		case 0:
			b = append(b[:p], b[p+1:]...)
		case 1:
			b = append(b[:p], append([]byte{special[r.N(len(special))]}, b[p:]...)...)
		case 2:
			b[p] = special[r.N(len(special))]
		case 3:
			b = b[:p]
		case 4: // two lines change places or one is doubled
			q := r.N(len(b))
			if p > q {
				p, q = q, p
			}
			b = append(append(append([]byte{}, b[:q]...), b[p:q]...), b[q:]...)
		case 5:
			b[p] = byte(r.N(256))
		}
	}
	return string(b)
}

// runC12Faults builds from well-formed sources while reading or writing fails.
func runC12Faults(c *Ctx) {
	r := c.R
	w := genWorld(r, c.Dir, GenOpt{Users: r.Pick0(0, 1), OnlyEntries: true})
	d := w.Sys
	if len(w.Users) > 0 {
		d = w.Users[0]
	}
	fixRefs(d)
	sysPath, out := w.sub("s.dic"), w.sub("out.dic")
	if d.User {
		if err := buildSystem(sysPath, []string{w.Sys.CSV()}, w.M.Text(), w.UTF16, 1, "s"); err != nil {
			c.Setup("building the system dictionary: %v", err)
		}
	}
	lex, mat := d.CSV(), w.M.Text()
	build := func() error {
		if d.User {
			return buildUser(out, []string{lex}, sysPath, w.UTF16, 7, "d", false)
		}
		return buildSystem(out, []string{lex}, mat, w.UTF16, 7, "d")
	}
	if err := build(); err != nil {
		c.Setup("building: %v", err)
	}
	good, err := os.ReadFile(out)
	if err != nil {
		c.Setup("%v", err)
	}
	for i := 0; i < 6; i++ {
		p := planPieces(r)
		p.recover = r.P(50)
		switch k := r.N(10); {
		case k < 2:
			p.lexFail = r.Pick0(0, len(lex), r.N(len(lex)+1), r.N(len(lex)+1))
		case k < 4 && !d.User:
			p.matFail = r.Pick0(0, len(mat), r.N(len(mat)+1), r.N(len(mat)+1))
		case k < 8:
			p.writeFail = r.N(len(good) - 272)
			if r.P(20) {
				p.writeFail = len(good) - 272 - 1 - r.N(30)
			}
		default:
			p.seekFail = r.N(2)
		}
		buildIO = p
		err, pan := func() (err error, pan interface{}) {
			defer func() { pan = recover(); buildIO = nil }()
			return build(), nil
		}()
		if pan != nil {
			panic(pan)
		}
		if p.hit != "" && err == nil {
			c.Fail("the library reports success although %s failed (plan %+v)\nlexicon:\n%s", p.hit, *p, clip(lex, 1000))
		}
		if p.hit != "" {
			c.Count("failures_injected", 1)
			c.Eval(fmt.Sprint(p.hit, p.lexFail, p.matFail, p.writeFail, p.seekFail, lex))
		} else if err != nil {
			c.Fail("the library reports %v although nothing failed (plan %+v)\nlexicon:\n%s", err, *p, clip(lex, 1000))
		} else if b, _ := os.ReadFile(out); !bytes.Equal(b, good) {
			c.Fail("reading the sources in pieces gives another dictionary\nlexicon:\n%s", clip(lex, 1000))
		}
	}
	if r.N(6) > 0 {
		return
	}
	// the commands: a full device, a directory as source
	lp, mp := w.write("l.csv", lex), w.write("m.def", mat)
	args := []string{"-o", out}
	what := ""
	switch r.N(5) {
	case 0:
		args[1], what = "/dev/full", "a full device"
	case 1:
		lp, what = c.Dir, "a directory as lexicon"
	case 2:
		lp, what = w.sub("missing"), "a missing lexicon"
	case 3:
		what = "a directory as matrix or system dictionary"
		mp, sysPath = c.Dir, c.Dir
	case 4:
		what = "a missing matrix or system dictionary"
		mp, sysPath = w.sub("missing"), w.sub("missing")
	}
	if w.UTF16 {
		args = append(args, "-j")
	}
	cmd := "dicbuilder"
	if d.User {
		cmd = "userdicbuilder"
		args = append(args, "-s", sysPath)
	} else {
		args = append(args, "-m", mp)
	}
	if r.P(30) { // the good source first
		args = append(args, w.write("first.csv", lex))
	}
	res := c.run(nil, cmd, append(args, lp)...)
	if res.crashed() || res.TimedOut {
		c.Fail("%s with %s crashed: exit status %d: %s", cmd, what, res.Code, clip(res.Err, 1500))
	}
	if res.Code == 0 {
		c.Fail("%s with %s ends with status 0: %s", cmd, what, clip(res.Err, 1500))
	}
	c.Count("failing_commands", 1)
	c.Eval(cmd + what + lex)
}

// runC12Description builds dictionaries with descriptions that do not fit.
func runC12Description(c *Ctx) {
	r := c.R
	w := genWorld(r, c.Dir, GenOpt{Users: 1, OnlyEntries: true})
	fixRefs(w.Sys)
	fixRefs(w.Users[0])
	if err := w.Build(); err != nil {
		c.Setup("building: %v", err)
	}
	lp, up, mp, p := w.write("l.csv", w.Sys.CSV()), w.write("u.csv", w.Users[0].CSV()), w.write("m.def", w.M.Text()), w.sub("out.dic")
	for _, n := range []int{256, 257, 258, r.Range(259, 600), 65536 + r.N(300)} {
		desc := strings.Repeat("d", n)
		if r.P(50) { // too long only in bytes
			desc = strings.Repeat("あ", n/3) + strings.Repeat("d", n%3)
		}
		_, err := dictionary.NewDictionaryHeader(dictionary.SystemDictVersion, 1, desc).ToBytes()
		if (err == nil) != (n <= 256) {
			c.Fail("a header with a description of %d bytes: %v", n, err)
		}
		cmd, args := "dicbuilder", []string{"-o", p, "-m", mp, "-d", desc, lp}
		if r.P(50) {
			cmd, args = "userdicbuilder", []string{"-o", p, "-s", w.SysPath, "-d", desc, up}
		}
		if w.UTF16 {
			args = append([]string{"-j"}, args...)
		}
		res := c.run(nil, cmd, args...)
		if res.crashed() || res.TimedOut {
			c.Fail("%s with a description of %d bytes crashed: exit status %d: %s", cmd, n, res.Code, clip(res.Err, 1500))
		}
		if (res.Code == 0) != (n <= 256) {
			c.Fail("%s with a description of %d bytes ends with status %d: %s", cmd, n, res.Code, clip(res.Err, 1500))
		}
		c.Count("descriptions", 1)
		c.Eval(fmt.Sprint("description", cmd, desc))
	}
}

func runC12(c *Ctx) {
	r := c.R
	if c.Idx%16 == 5 {
		runC12Faults(c)
		return
	}
	if c.Idx%400 == 17 {
		runC12Description(c)
		return
	}
	w := genWorld(r, c.Dir, GenOpt{Users: r.Pick0(0, 1), OnlyEntries: true})
	u16 := w.UTF16
	for len(w.Sys.Entries) > 14 && r.P(80) { // small ones are read faster
		w.Sys.Entries = w.Sys.Entries[:0]
		w = genWorld(r, c.Dir, GenOpt{Users: len(w.Users), OnlyEntries: true})
		u16 = w.UTF16
	}
	d := w.Sys
	if len(w.Users) > 0 {
		d = w.Users[0]
	}
	fixRefs(d)
	sysPath := w.sub("s.dic")
	if d.User {
		if err := buildSystem(sysPath, []string{w.Sys.CSV()}, w.M.Text(), u16, 1, "s"); err != nil {
			c.Setup("building the system dictionary: %v", err)
		}
	}
	lex, mat := d.CSV(), w.M.Text()
	what := ""
	must := true // must be refused
	switch k := c.Idx % 4; {
	case k == 0 && !d.User && r.P(60):
		mat, what = breakMatrix(r, w.M)
		if _, err := refParseMatrix(mat); err == nil {
			must = false
		}
	case r.N(400) == 0: // too many parts of speech
		var b strings.Builder
		for i := 0; i < 32769; i++ {
			fmt.Fprintf(&b, "a%d,0,0,0,a,p%d,*,*,*,*,*,,,*,A,*,*,*\n", i, i)
		}
		lex, what = b.String(), "too many parts of speech"
	case r.N(60) == 0: // too many words for one headword
		lex += strings.Repeat("多い,0,0,0,a,"+strings.Join(d.Entries[0].Pos[:], ",")+",,,*,A,*,*,*\n", 256+r.Pick0(0, 0, 1, 255, 256, 300))
		what = "too many homographs"
	case k <= 1:
		rs := splitRows(d)
		for n := r.Pick0(1, 1, 1, 2, 3); n > 0; n-- {
			x := breakRows(r, d, &rs, u16)
			if x == "again" {
				if what == "" {
					n++
				}
				continue
			}
			what += x + "; "
		}
		lex = rs.render(r)
	default: // bytes changed anywhere: refused, or built as it says
		must = false
		if !d.User && r.P(30) {
			mat, what = mutateBytes(r, mat), "matrix bytes"
		} else {
			lex, what = mutateBytes(r, lex), "lexicon bytes"
		}
	}
	// what the sources say
	ref := &DictSrc{User: d.User, Sys: d.Sys}
	var refM *Matrix
	lexErr := refParseLex(lex, ref, u16)
	var matErr error
	if !d.User {
		refM, matErr = refParseMatrix(mat)
	}
	for _, e := range []error{lexErr, matErr} {
		if e != nil && strings.Contains(e.Error(), "skip") {
			c.Count("not_judged", 1)
			return
		}
	}
	refErr := lexErr
	if refErr == nil {
		refErr = matErr
	}
	if must && refErr == nil && !strings.HasPrefix(what, "too many") {
		c.Setup("the reference parser accepts %s", what)
	}
	must = must || refErr != nil
	p := w.sub("out.dic")
	var err error
	if d.User {
		err = buildUser(p, []string{lex}, sysPath, u16, 7, "d", false)
	} else {
		err = buildSystem(p, []string{lex}, mat, u16, 7, "d")
	}
	judge := func(failed bool, by, msg string) {
		if must && !failed {
			c.Fail("%s accepted: %s (%v)\nlexicon:\n%s\nmatrix:\n%s", by, what, refErr, clip(lex, 1500), clip(mat, 300))
		}
		if failed {
			c.Count("refused", 1)
			c.Eval(what + msg)
			return
		}
		var bd, sys *dictionary.BinaryDictionary
		var err error
		if d.User {
			if sys, err = dictionary.ReadSystemDictionary(sysPath, u16); err != nil {
				c.Setup("opening: %v", err)
			}
			defer sys.Close()
			bd, err = dictionary.ReadUserDictionary(p, u16)
		} else {
			bd, err = dictionary.ReadSystemDictionary(p, u16)
		}
		if err != nil {
			c.Fail("%s reports success (%s), but the dictionary cannot be opened: %v", by, what, err)
		}
		defer bd.Close()
		s := compareWords(ref, bd, sys, false)
		if s == "" && refM != nil {
			s = compareMatrix(refM, bd.Grammar)
		}
		if s == "" && len(ref.Entries) > 0 {
			s = compareLookups(c, ref, bd.Lexicon, 1)
		}
		if s != "" {
			c.Fail("%s reports success, but the dictionary differs from its source (%s): %s\nlexicon:\n%s", by, what, s, clip(lex, 1500))
		}
		c.Count("built_as_written", 1)
		c.Eval(what + lex + mat)
	}
	msg := ""
	if err != nil {
		msg = err.Error()
	}
	judge(err != nil, "the library", msg)
	if r.N(5) == 0 {
		os.Remove(p)
		lp := w.write("l.csv", lex)
		mp := w.write("m.def", mat)
		args := []string{"-o", p}
		if u16 {
			args = append(args, "-j")
		}
		cmd := "dicbuilder"
		if d.User {
			cmd = "userdicbuilder"
			args = append(args, "-s", sysPath)
		} else {
			args = append(args, "-m", mp)
		}
		res := c.run(nil, cmd, append(args, lp)...)
		if res.crashed() || res.TimedOut {
			c.Fail("%s crashed (%s): exit status %d: %s", cmd, what, res.Code, clip(res.Err, 1500))
		}
		judge(res.Code != 0, cmd, "cmd")
	}
	c.Sample(func() interface{} {
		return map[string]interface{}{"change": what, "user_dictionary": d.User, "utf16": u16, "result": msg, "lexicon": clip(lex, 300)}
	})
}

func init() {
	register(&Check{ID: "C12", Quick: 60000, Run: runC12, MinDistinct: 3000, NeedCmds: true,
		Rule: "A case breaks a generated well-formed lexicon or matrix by one to three named malformations, or changes some of its bytes, builds it as a system or user dictionary through the library (1 in 5 also with the command) and demands an error for what is malformed; where the builder reports success the dictionary is opened and compared with what a reference parser reads from the same source. Every 16th case builds from well-formed sources while a read, write or seek fails, and with commands on a full device and unreadable files, and demands an error. Distinct: malformations with their error messages, and sources built."})
}
