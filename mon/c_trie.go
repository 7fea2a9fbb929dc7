package main

// C09: the double-array trie against a sorted map.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/msnoigrs/gosudachi/dartsclone"
)

type trieModel struct {
	keys [][]byte
	val  map[string]int
	// proper and improper prefixes of the keys
	pre map[string]bool
}

func genKey(r *Rng, kind int, prev [][]byte) []byte {
	var b []byte
	switch kind {
	case 0: // any bytes
		for i := r.Range(1, 6); i > 0; i-- {
			b = append(b, byte(r.Range(1, 255)))
		}
	case 1: // two letters, deep
		for i := r.Range(1, 14); i > 0; i-- {
			b = append(b, "ab"[r.N(2)])
		}
	case 2:
		b = []byte(genWord(r, abWords, 6))
	case 3: // an extension or a prefix of another
		if len(prev) > 0 {
			b = append(b, prev[r.N(len(prev))]...)
			if len(b) > 1 && r.P(40) {
				b = b[:r.Range(1, len(b))]
			} else {
				for i := r.Range(1, 3); i > 0; i-- {
					b = append(b, byte(r.Range(1, 255)))
				}
			}
		} else {
			b = []byte{byte(r.Range(1, 255))}
		}
	case 4: // long
		for i := r.Range(200, 700); i > 0; i-- {
			b = append(b, byte(r.Pick0(1, 255, 'a', 0x80, 0x7f)))
		}
	case 5: // borders of the byte range
		for i := r.Range(1, 4); i > 0; i-- {
			b = append(b, byte(r.Pick0(1, 2, 0x7f, 0x80, 0xfe, 0xff)))
		}
	case 6: // common endings, so that the DAWG merges states
		b = []byte(genWord(r, [][]rune{[]rune("abcde")}, 4) + r.Pick([]string{"ing", "ed", "s", "ness", "ations"}))
	}
	return b
}

func genKeySet(r *Rng, n int) [][]byte {
	set := map[string]bool{}
	var keys [][]byte
	only := -1
	if r.P(50) {
		only = r.N(7)
	}
	if r.P(5) { // every single byte
		for i := 1; i < 256; i++ {
			set[string([]byte{byte(i)})] = true
			keys = append(keys, []byte{byte(i)})
		}
	}
	for tries := 0; len(keys) < n && tries < 3*n; tries++ {
		k := only
		if k < 0 {
			k = r.Pick0(0, 1, 2, 2, 3, 3, 5, 6)
			if r.P(1) {
				k = 4
			}
		}
		if k == 4 && len(keys) > 60 {
			k = 3
		}
		b := genKey(r, k, keys)
		if !set[string(b)] {
			set[string(b)] = true
			keys = append(keys, b)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i], keys[j]) < 0 })
	return keys
}

func checkTrieQuery(c *Ctx, da *dartsclone.DoubleArray, m *trieModel, q []byte, what string) {
	r := c.R
	fail := func(f string, a ...interface{}) {
		c.Fail("%s, %d keys, query %q: %s\nkeys (some): %.1500q", what, len(m.keys), q, fmt.Sprintf(f, a...), m.keys)
	}
	v, n := da.ExactMatchSearch(q)
	if want, ok := m.val[string(q)]; ok {
		if v != want || n != len(q) {
			fail("exact match gives %d, %d, stored is %d", v, n, want)
		}
	} else if v != -1 {
		fail("exact match gives %d, %d, but the key is not stored", v, n)
	}
	off := 0
	if r.P(40) {
		off = r.N(len(q) + 1)
	}
	var want [][2]int
	for e := off + 1; e <= len(q); e++ {
		if v, ok := m.val[string(q[off:e])]; ok {
			want = append(want, [2]int{v, e})
		}
	}
	max := len(want) + 3
	if r.P(40) {
		max = r.N(len(want) + 2)
	}
	got := da.CommonPrefixSearch(q, off, max)
	w := want
	if len(w) > max {
		w = w[:max]
	}
	if fmt.Sprint(got) != fmt.Sprint(w) {
		fail("prefixes from %d, at most %d: %v, stored are %v", off, max, got, w)
	}
	var it [][2]int
	itr := da.CommonPrefixSearchItr(q, off)
	style := r.N(3)
	switch style {
	case 0, 1:
		for itr.Next() {
			if style == 1 && !itr.Next() {
				fail("the iterator's Next changes its mind")
			}
			v, e := itr.Get()
			it = append(it, [2]int{v, e})
			if len(it) > len(want)+1 {
				break
			}
		}
		if itr.Next() && len(it) <= len(want) {
			fail("the iterator goes on after its end")
		}
		if itr.Err() != nil {
			fail("the iterator ends with the error %v", itr.Err())
		}
	case 2:
		for {
			v, e := itr.Get()
			if v == -1 || itr.Err() != nil {
				break
			}
			it = append(it, [2]int{v, e})
			if len(it) > len(want)+1 {
				break
			}
		}
	}
	if fmt.Sprint(it) != fmt.Sprint(want) {
		fail("the iterator from %d gives %v, stored are %v (style %d)", off, it, want, style)
	}
	// a traversal in steps
	node, pos := 0, 0
	for pos < len(q) || len(q) == 0 {
		end := pos + 1 + r.N(len(q)-pos)
		if len(q) == 0 {
			end = 0
		}
		t := da.Traverse(q, pos, end, node)
		wr, wo := -1, end
		if v, ok := m.val[string(q[:end])]; ok {
			wr = v
		} else if !m.pre[string(q[:end])] {
			wr = -2
			wo = pos
			for m.pre[string(q[:wo+1])] {
				wo++
			}
		}
		if t.Result != wr || t.Offset != wo {
			fail("the traversal of [%d,%d) gives %d at %d, expected %d at %d", pos, end, t.Result, t.Offset, wr, wo)
		}
		if wr == -2 || len(q) == 0 {
			break
		}
		node, pos = t.NodePosition, t.Offset
	}
	sig := ""
	if len(want) > 0 || len(q) > 0 && m.pre[string(q[:1])] {
		sig = what + string(q) + fmt.Sprint(len(m.keys), off, want)
	}
	c.Count("queries", 1)
	c.Count("prefixes_found", len(want))
	c.Eval(sig)
}

func runC09(c *Ctx) {
	r := c.R
	if c.Idx%4000 == 77 {
		runC09Big(c)
		return
	}
	n := r.Pick0(1, 2, 3, 8, 20, 60, 200)
	if c.Idx%40 == 7 {
		n = r.Range(2000, 6000)
	}
	if c.Idx%200 == 15 {
		n = r.Range(20000, 40000)
	}
	m := &trieModel{keys: genKeySet(r, n), val: map[string]int{}, pre: map[string]bool{"": true}}
	var values []int
	mode := r.N(4)
	for i, k := range m.keys {
		v := i
		switch mode {
		case 1:
			v = r.N(3) // merged in the DAWG
		case 2:
			v = r.Pick0(0, 1, 0x7ffffffe, 0x7fffffff, r.N(1<<31))
		case 3:
			v = r.N(1 << 20)
		}
		if mode > 0 {
			values = append(values, v)
		}
		m.val[string(k)] = v
		for e := 1; e <= len(k); e++ {
			m.pre[string(k[:e])] = true
		}
	}
	var calls int
	var progress dartsclone.ProgressFunc
	if r.P(30) {
		progress = func(i, max int) { calls++ }
	}
	if r.P(45) {
		runC09Misuse(c, m, values)
	}
	da := dartsclone.NewDoubleArray()
	if r.P(10) { // an object that was used before
		da.Build([][]byte{[]byte("zz")}, []int{7}, nil)
	}
	kcopy := make([][]byte, len(m.keys))
	for i, k := range m.keys {
		kcopy[i] = append([]byte{}, k...)
	}
	if err := da.Build(kcopy, values, progress); err != nil {
		c.Fail("building from %d sorted keys fails: %v\n%.1500q\nvalues %.200v", len(m.keys), err, m.keys, values)
	}
	for i, k := range m.keys {
		if !bytes.Equal(k, kcopy[i]) {
			c.Fail("building changed key %d from %q to %q", i, k, kcopy[i])
		}
	}
	if len(m.keys) > 0 && r.P(1) {
		// an object that held keys, built anew from none
		da0 := dartsclone.NewDoubleArray()
		if r.P(50) {
			da0.Build(kcopy, values, nil)
		}
		var v0 []int
		if r.P(50) {
			v0 = []int{r.N(9)} // makes the builder go the way of sets with values
		}
		if err := da0.Build([][]byte{}, v0, nil); err != nil {
			c.Fail("building from no keys fails: %v", err)
		}
		m0 := &trieModel{val: map[string]int{}, pre: map[string]bool{"": true}}
		for i := 0; i < 10; i++ {
			checkTrieQuery(c, da0, m0, genKey(r, r.Pick0(0, 1, 2, 5), nil), "trie of no keys")
		}
		checkTrieQuery(c, da0, m0, m.keys[0], "trie of no keys")
		c.Count("empty_key_sets", 1)
	}
	var qs [][]byte
	for i := 0; i < 60; i++ {
		k := m.keys[r.N(len(m.keys))]
		q := append([]byte{}, k...)
		switch r.N(9) {
		case 0:
			q = q[:r.N(len(q)+1)]
		case 1:
			q = append(q, byte(r.N(256)))
		case 2:
			q[r.N(len(q))] = byte(r.N(256))
		case 3:
			q = append(q, m.keys[r.N(len(m.keys))]...)
		case 4:
			q = append(append([]byte{}, m.keys[r.N(len(m.keys))]...), q...)
		case 5:
			q = genKey(r, r.Pick0(0, 1, 2, 5), nil)
		case 6:
			q = append(q, 0)
		case 7:
			q = append(q[:r.N(len(q)+1)], 0, byte(r.N(256)))
		}
		qs = append(qs, q)
	}
	qs = append(qs, []byte{}, []byte{0})
	for i, q := range qs {
		if i%10 == 0 {
			c.Sample(func() interface{} {
				return map[string]interface{}{"keys": len(m.keys), "some_keys": fmt.Sprintf("%.100q", m.keys), "query": fmt.Sprintf("%.60q", q), "value_mode": mode}
			})
		}
		checkTrieQuery(c, da, m, q, "built trie")
	}
	// every key, exactly
	for i, k := range m.keys {
		if v, l := da.ExactMatchSearch(k); v != m.val[string(k)] || l != len(k) {
			c.Fail("key %d %q of %d has value %d, stored is %d", i, k, len(m.keys), v, m.val[string(k)])
		}
	}
	c.Count("keys_checked", len(m.keys))
	c.Count("array_units", da.Length())
	// saved and opened again
	var buf bytes.Buffer
	pad := 0
	if r.P(30) {
		pad = os.Getpagesize()
		buf.Write(make([]byte, pad))
	}
	if nw, err := da.Save(&buf); err != nil || nw != da.TotalSize() {
		c.Fail("saving writes %d of %d bytes: %v", nw, da.TotalSize(), err)
	}
	p := filepath.Join(c.Dir, "trie")
	if err := os.WriteFile(p, buf.Bytes(), 0644); err != nil {
		c.Setup("%v", err)
	}
	f, err := os.Open(p)
	if err != nil {
		c.Setup("%v", err)
	}
	defer f.Close()
	da2 := dartsclone.NewDoubleArray()
	size := int64(da.TotalSize())
	if pad == 0 && r.P(50) {
		size = 0
	}
	if err := da2.Open(f, int64(pad), size); err != nil {
		c.Fail("opening a saved trie of %d bytes at %d: %v", da.TotalSize(), pad, err)
	}
	da3 := dartsclone.NewDoubleArray()
	if r.P(50) {
		da3.SetBuffer(append([]byte{}, da.ByteArray()...))
	} else {
		da3.SetArray(append([]uint32{}, da.Array()...))
	}
	if !bytes.Equal(da3.ByteArray(), da2.ByteArray()) {
		c.Fail("the bytes of a reopened trie differ")
	}
	for _, q := range qs {
		checkTrieQuery(c, da2, m, q, "reopened trie")
		if r.P(30) {
			checkTrieQuery(c, da3, m, q, "copied trie")
		}
	}
	if err := da2.Close(); err != nil {
		c.Fail("closing a trie: %v", err)
	}
	c.Count("tries", 1)
	_ = calls
}

// runC09Big builds a trie of more than 2^21 units, whose offsets have the second format.
func runC09Big(c *Ctx) {
	r := c.R
	n := r.Range(330000, 420000)
	set := make(map[string]int, n)
	keys := make([][]byte, 0, n)
	for len(keys) < n {
		var k []byte
		if r.P(3) && len(keys) > 0 {
			k = append(append(k, keys[r.N(len(keys))]...), byte(r.Range(1, 255)))
		} else {
			for i := r.Range(7, 12); i > 0; i-- {
				k = append(k, byte(r.Range(1, 255)))
			}
		}
		if _, ok := set[string(k)]; !ok {
			set[string(k)] = 0
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i], keys[j]) < 0 })
	var values []int
	withValues := r.P(50)
	for i, k := range keys {
		v := i
		if withValues {
			v = r.N(1 << 30)
			values = append(values, v)
		}
		set[string(k)] = v
	}
	da := dartsclone.NewDoubleArray()
	if err := da.Build(keys, values, nil); err != nil {
		c.Fail("building from %d sorted keys fails: %v", n, err)
	}
	da2 := dartsclone.NewDoubleArray()
	da2.SetBuffer(append([]byte{}, da.ByteArray()...))
	for i, k := range keys {
		if v, l := da2.ExactMatchSearch(k); v != set[string(k)] || l != len(k) {
			c.Fail("key %d %q of %d (%d units) has value %d, length %d, stored is %d", i, k, n, da.Length(), v, l, set[string(k)])
		}
	}
	for i := 0; i < 30000; i++ {
		q := append([]byte{}, keys[r.N(n)]...)
		switch r.N(4) {
		case 0:
			q = q[:r.N(len(q))]
		case 1:
			q = append(q, keys[r.N(n)]...)
		case 2:
			q[r.N(len(q))] = byte(r.N(256))
		case 3:
			q = append(q, byte(r.N(256)))
		}
		var want [][2]int
		for e := 1; e <= len(q); e++ {
			if v, ok := set[string(q[:e])]; ok {
				want = append(want, [2]int{v, e})
			}
		}
		if got := da2.CommonPrefixSearch(q, 0, 100); fmt.Sprint(got) != fmt.Sprint(want) {
			c.Fail("trie of %d keys (%d units): the prefixes of %q are %v, stored are %v", n, da.Length(), q, got, want)
		}
		v, _ := da2.ExactMatchSearch(q)
		if w, ok := set[string(q)]; ok && v != w || !ok && v != -1 {
			c.Fail("trie of %d keys (%d units): %q has value %d (stored: %v, %d)", n, da.Length(), q, v, ok, w)
		}
	}
	if da.Length() > 1<<21 {
		c.Count("tries_of_more_than_2M_units", 1)
	}
	c.Count("keys_checked", n)
	c.Eval(fmt.Sprint("big", n, withValues, c.Idx))
}

// runC09Misuse gives the builder key sets that it has to refuse.
func runC09Misuse(c *Ctx, m *trieModel, values []int) {
	r := c.R
	n := len(m.keys)
	keys := make([][]byte, n)
	copy(keys, m.keys)
	vals := append([]int{}, values...)
	what := ""
	switch r.N(4) {
	case 0:
		if n < 2 {
			return
		}
		i := r.N(n - 1)
		j := i + 1
		if r.P(50) {
			j = r.Range(i+1, n-1)
		}
		keys[i], keys[j] = keys[j], keys[i]
		what = fmt.Sprintf("keys %d and %d exchanged", i, j)
	case 1:
		i := r.N(n)
		if r.P(30) {
			i = 0
		}
		keys[i] = []byte{}
		what = fmt.Sprintf("key %d empty", i)
	case 2:
		i := r.N(n)
		k := keys[i]
		p := r.N(len(k) + 1)
		nk := append(append(append([]byte{}, k[:p]...), 0), k[p:]...)
		if r.P(50) && p < len(k) {
			nk = append([]byte{}, k...)
			nk[p] = 0
		}
		keys[i] = nk
		what = fmt.Sprintf("a NUL byte at %d of key %d", p, i)
	case 3:
		if len(vals) == 0 {
			vals = make([]int, n)
		}
		i := r.N(n)
		vals[i] = r.Pick0(-1, -1, -2, -1<<31)
		what = fmt.Sprintf("value %d negative", i)
	}
	da := dartsclone.NewDoubleArray()
	err, pan := func() (err error, pan interface{}) {
		defer func() { pan = recover() }()
		return da.Build(keys, vals, nil), nil
	}()
	if pan != nil {
		c.Fail("building from %d keys with %s panics: %v\n%.1500q", n, what, pan, keys)
	}
	if err == nil {
		c.Fail("building from %d keys with %s succeeds\n%.1500q\nvalues: %.200v", n, what, keys, vals)
	}
	c.Count("refused_key_sets", 1)
	c.Eval(what + fmt.Sprint(n) + string(bytes.Join(keys, []byte{0, 0})))
}

func init() {
	register(&Check{ID: "C09", Quick: 30000, Run: runC09, MinDistinct: 2000,
		Rule: "random key sets (any bytes, deep binary, words, prefix chains, long keys, common endings; 0 to 40000 keys, a few sets of 400000 so that offsets have both formats; with and without values) against a sorted map: exact match, prefix list, iterator, stepwise traversal, on the built, the saved and reopened and the copied trie; half of the cases also a key set to be refused; non-trivial: the query shares at least its first byte with a key; distinct by query, trie and answers"})
}
