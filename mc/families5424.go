package main

import (
	"fmt"
	"strings"
)

const pre5 = "<1>1 - - - - - " // up to the structured data

// allStrings enumerates the strings over the alphabet (of byte strings) with at most n symbols.
func allStrings(alpha [][]byte, n int, f func([]byte)) {
	var rec func(p []byte, left int)
	rec = func(p []byte, left int) {
		f(p)
		if left == 0 {
			return
		}
		for _, a := range alpha {
			rec(append(p[:len(p):len(p)], a...), left-1)
		}
	}
	rec(nil, n)
}

func bs(ss ...string) [][]byte {
	var o [][]byte
	for _, s := range ss {
		o = append(o, []byte(s))
	}
	return o
}

// fanout enumerates the strings over alpha with at most n symbols, in parallel over their first two symbols.
func (c *Ctx) fanout(alpha [][]byte, n int, f func(w *worker, s []byte)) {
	k := len(alpha)
	c.parallel(1+k+k*k, func(w *worker, i int) {
		switch {
		case i == 0:
			f(w, nil)
		case i <= k:
			if n >= 1 {
				f(w, alpha[i-1])
			}
		default:
			if n >= 2 {
				i -= 1 + k
				p := cat(alpha[i/k], alpha[i%k])
				allStrings(alpha, n-2, func(s []byte) {
					if !c.isStopped() {
						f(w, cat(p, s))
					}
				})
			}
		}
	})
}

// families5 sweeps, exhaustively within their bounds, the value domains the automaton abstracts from.
func families5(c *Ctx, md mode5, run func(w *worker, in []byte)) {
	sizeSweeps5(c, md, run)
	codePoints5(c, run)
	longContents5(c, md, run)
	products5(c, md, run)
	repeats5(c, run)
	names5(c, run)
	odd5(c, run)
	edges5(c, run)
	if c.Prop == "P04" {
		msgFamilies5(c, md, run)
		return
	}
	shortFields5(c, run)
	digits := bs("0", "1", "2", "3", "4", "5", "6", "7", "8", "9")
	// priorities and versions: every digit string
	c.fanout(digits, 4, func(w *worker, s []byte) {
		run(w, cat([]byte("<"), s, []byte(">1 - - - - - -")))
		run(w, cat([]byte("<1>"), s, []byte(" - - - - - -")))
		run(w, cat([]byte("<"), s))
		run(w, cat([]byte("<1>"), s))
	})
	for _, y := range []int{0, 1} { // every pair of a priority and a version
		y := y
		c.parallel(200, func(w *worker, i int) {
			for v := y * 500; v < (y+1)*500; v += 1 {
				run(w, []byte(fmt.Sprintf("<%d>%d - h - - - - m", i, v)))
			}
		})
	}
	dateFamilies(c, func(w *worker, ts string) { run(w, []byte("<1>1 "+ts+" h a p m -")) })
	// presence and absence of each field
	c.parallel(1<<6, func(w *worker, i int) {
		for _, sd := range []string{"-", "[a]", "[a x=\"1\"]", "[a x=\"1\" y=\"2\"][b]", "[a][b z=\"\"]"} {
			for _, m := range []string{"", " ", " -", " text", " [x]", " \xef\xbb\xbfu"} {
				f := func(bit int, v string) string {
					if i&(1<<uint(bit)) != 0 {
						return v
					}
					return "-"
				}
				if i&(1<<5) != 0 {
					sd = strings.Replace(sd, "1", "\\]", 1)
				}
				in := "<165>3 " + f(0, "2003-08-24T05:14:15.000003-07:00") + " " + f(1, "ho") + " " + f(2, "ap") + " " + f(3, "pr") + " " + f(4, "mi") + " " + sd + m
				run(w, []byte(in))
				for j := range in {
					run(w, []byte(in[:j]))
					run(w, []byte(in[:j]+"\x01"+in[j:]))
				}
			}
		}
	})
	// every combination of field lengths at and around the limits
	lens := func(m int) []int { return []int{1, 2, m - 1, m, m + 1} }
	c.parallel(625, func(w *worker, i int) {
		x := func(l []int, d int) string { return strings.Repeat("x", l[i/d%5]) }
		in := "<191>999 9999-12-31T23:59:59.999999+23:59 " + x(lens(255), 1) + " " + x(lens(48), 5) + " " + x(lens(128), 25) + " " + x(lens(32), 125)
		for _, sd := range []string{" -", " - m", " [a]", " [" + strings.Repeat("s", 32) + " " + strings.Repeat("p", 32) + "=\"v\"]", " [" + strings.Repeat("s", 31) + " " + strings.Repeat("p", 33) + "=\"v\"]"} {
			run(w, []byte(in+sd))
		}
	})
	sdFamilies5(c, md, run)
	mutations(c, skeletons5(), run)
	msgFamilies5(c, md, run)
}

// mutations: every truncation, and every substitution, insertion (256 bytes) and deletion at each position.
func mutations(c *Ctx, sks [][]byte, run func(w *worker, in []byte)) {
	for _, sk := range sks {
		sk := sk
		c.parallel(len(sk)+1, func(w *worker, i int) {
			run(w, sk[:i:i])
			for b := 0; b < 256; b++ {
				run(w, cat(sk[:i], []byte{byte(b)}, sk[i:]))
				if i < len(sk) {
					run(w, cat(sk[:i], []byte{byte(b)}, sk[i+1:]))
				}
			}
			if i < len(sk) {
				run(w, cat(sk[:i], sk[i+1:]))
			}
		})
	}
}

// dateFamilies: calendar dates, times of day, fractions and offsets.
func dateFamilies(c *Ctx, run func(w *worker, ts string)) {
	years := []int{0, 1, 3, 4, 99, 100, 400, 1582, 1600, 1899, 1900, 1904, 1969, 1970, 1999, 2000, 2001, 2018, 2019, 2020, 2023, 2024, 2038, 2100, 2200, 2399, 2400, 9996, 9999}
	if c.thorough() {
		years = years[:0]
		for y := 0; y <= 9999; y++ {
			years = append(years, y)
		}
	}
	c.parallel(len(years), func(w *worker, i int) {
		for mo := 0; mo <= 13; mo++ {
			for d := 0; d <= 32; d++ {
				run(w, fmt.Sprintf("%04d-%02d-%02dT12:34:56.7Z", years[i], mo, d))
				if mo == 2 || mo == 12 {
					run(w, fmt.Sprintf("%04d-%02d-%02dT23:59:59+23:59", years[i], mo, d))
				}
			}
		}
	})
	c.parallel(100, func(w *worker, h int) {
		for m := 0; m < 100; m++ {
			for s := 0; s < 100; s++ {
				if !c.thorough() && (m > 61 || s > 61) && (m+s)%7 != 0 {
					continue
				}
				run(w, fmt.Sprintf("2020-06-15T%02d:%02d:%02dZ", h, m, s))
			}
		}
	})
	// the edges of days, months and years, with offsets that move them across
	c.parallel(len(years), func(w *worker, i int) {
		for _, d := range []string{"01-01", "01-02", "02-28", "02-29", "03-01", "06-30", "12-31"} {
			for _, t := range []string{"00:00:00", "00:00:01", "23:59:59", "01:00:00", "12:00:00", "00:00:00.000001", "23:59:59.999999", "00:00:00.0"} {
				for _, o := range []string{"Z", "+00:00", "-00:00", "+01:00", "-01:00", "+12:00", "-12:00", "+14:00", "+23:59", "-23:59", "+00:01", "-00:01"} {
					run(w, fmt.Sprintf("%04d-%sT%s%s", years[i], d, t, o))
				}
			}
		}
	})
	c.parallel(100, func(w *worker, h int) {
		for m := 0; m < 100; m++ {
			run(w, fmt.Sprintf("2020-06-15T10:20:30+%02d:%02d", h, m))
			run(w, fmt.Sprintf("2020-12-31T23:20:30.25-%02d:%02d", h, m))
		}
	})
	c.parallel(1000, func(w *worker, i int) {
		for j := 0; j < 1000; j++ {
			if !c.thorough() && j%37 != 0 && j != 1 && j != 10 && j != 999 && i%100 != 0 && i%101 != 0 {
				continue
			}
			run(w, fmt.Sprintf("2021-03-01T00:00:00.%03d%03dZ", i, j))
		}
		run(w, fmt.Sprintf("2021-03-01T00:00:00.%03dZ", i))
		run(w, fmt.Sprintf("2021-03-01T00:00:00.%03d0-01:00", i))
		run(w, fmt.Sprintf("2021-03-01T00:00:00.%03d%02dZ", i, i%100))
		if i < 100 {
			run(w, fmt.Sprintf("2021-03-01T00:00:00.%02dZ", i))
		}
		if i < 10 {
			run(w, fmt.Sprintf("2021-03-01T00:00:00.%dZ", i))
			run(w, "2021-03-01T00:00:00."+strings.Repeat("1", i)+"Z")
		}
	})
}

// sdFamilies5: structured data as strings over small alphabets, at the byte and at the token level.
func sdFamilies5(c *Ctx, md mode5, run func(w *worker, in []byte)) {
	// (a) every byte string over the significant bytes, in the structured data position
	c.fanout(bs("[", "]", "a", "b", " ", "=", "\"", "\\", "-"), c.pick(7, 8), func(w *worker, s []byte) {
		run(w, cat([]byte(pre5), s))
	})
	c.fanout(bs("[", "]", "a", " ", "=", "\"", "\\"), c.pick(7, 8), func(w *worker, s []byte) {
		run(w, cat([]byte(pre5+"[a x=\"1\""), s))
		run(w, cat([]byte(pre5+"[b x=\"1\" y=\"2\"]["), s))
	})
	// (b) values
	c.fanout(bs("a", "\\\"", "\\\\", "\\]", "\xc3\xa9", "\xe2\x8c\x98", " ", "["), c.pick(6, 8), func(w *worker, s []byte) {
		run(w, cat([]byte(pre5+"[i k=\""), s, []byte("\"]")))
		run(w, cat([]byte(pre5+"[i j=\"0\\]\" k=\""), s, []byte("\" l=\"\\\"\"] m")))
	})
	c.fanout(bs("a", "\"", "\\", "]", "\xc3", "\xa9", " ", "="), c.pick(6, 7), func(w *worker, s []byte) {
		run(w, cat([]byte(pre5+"[i k=\""), s, []byte("\"] m")))
	})
	// (c) tokens: elements and parameters, complete, repeated or broken
	c.fanout(bs("[a", "[b", "[", "]", " x=\"1\"", " y=\"2\"", " x=\"3\"", " x", " x=", " x=\"v", "\"", " ", "=", " z=\"\\\\\""), c.pick(5, 7), func(w *worker, s []byte) {
		run(w, cat([]byte(pre5), s))
		run(w, cat([]byte("<14>2 2020-02-29T00:00:00Z h a p m "), s, []byte(" msg")))
	})
	// (c') parameters: every sequence of names, values, and elements
	c.fanout(bs(" a=\"\"", " b=\"\"", " a=\"1\"", " b=\"1\"", " a=\"\\]\"", " b=\"\\\\\"", " c=\"2\"", "][f", "][g"), c.pick(5, 6), func(w *worker, s []byte) {
		for _, end := range []string{"]", "] m", "", " a=\"", " b", "]["} {
			run(w, cat([]byte(pre5+"[e"), s, []byte(end)))
		}
	})
	// (d) pairs and triples of ids (duplicates at every distance), names with special characters
	ids := []string{"a", "b", "A", "aa", "a@1", "[", "[a", "-", "!", "~", "\\", "'", "a,b", "exampleSDID@32473", strings.Repeat("i", 31), strings.Repeat("i", 32), strings.Repeat("j", 32)}
	c.parallel(len(ids)*len(ids), func(w *worker, i int) {
		a, b := ids[i/len(ids)], ids[i%len(ids)]
		run(w, []byte(pre5+"["+a+"]["+b+"]"))
		run(w, []byte(pre5+"["+a+" "+b+"=\"1\"]["+b+" "+a+"=\"2\" "+b+"=\"3\"] x"))
		for _, d := range ids {
			run(w, []byte(pre5+"["+a+" p=\"q\"]["+b+"]["+d+" r=\"s\"]"))
			run(w, []byte(pre5+"["+a+" "+b+"=\"1\" "+d+"=\"2\" "+a+"=\"3\"]"))
		}
	})
}

// sizeSweeps5: every length of every field (and beyond), number of elements, parameters, escapes, message sizes.
func sizeSweeps5(c *Ctx, md mode5, run func(w *worker, in []byte)) {
	max := c.pick(300, 700)
	c.parallel(max, func(w *worker, n int) {
		x := string(rep('x', n))
		for _, z := range []string{x, x + "-", "-" + x, x + "\x7f", x + "\xc3\xa9"} {
			run(w, []byte("<1>1 - "+z+" a p m [i] t"))
			run(w, []byte("<1>1 - h "+z+" p m [i] t"))
			run(w, []byte("<1>1 - h a "+z+" m [i] t"))
			run(w, []byte("<1>1 - h a p "+z+" [i] t"))
			run(w, []byte("<1>1 - h a p m ["+z+"] t"))
			run(w, []byte("<1>1 - h a p m [i "+z+"=\"v\"] t"))
			run(w, []byte("<1>1 - h a p m [i n=\""+z+"\" o=\"\"] t"))
			run(w, []byte("<1>1 - h a p m [i n=\""+z+"\\]\" o=\""+z+"\\\\\"] t"))
			run(w, []byte("<1>1 - h a p m - "+z))
			run(w, []byte("<1>1 - h a p m [i n=\""+z+"\"] \xef\xbb\xbf"+z))
			run(w, []byte("<1>1 - h a p m "+z))
			run(w, []byte("<1>1 "+z))
		}
		// n elements, n parameters, n escapes, n characters of each UTF-8 length
		els, pars, dup := "", "", ""
		for i := 0; i < n; i++ {
			els += fmt.Sprintf("[e%d p=\"%d\"]", i, i)
			pars += fmt.Sprintf(" p%d=\"v%d\\\\\"", i, i)
			dup += fmt.Sprintf(" p%d=\"d%d\"", i%7, i)
		}
		if n > 0 {
			run(w, []byte(pre5+els))
			run(w, []byte(pre5+els+" text"))
			run(w, []byte(pre5+els+"[e0]"))
			run(w, []byte(pre5+els+fmt.Sprintf("[e%d]", n-1)))
			run(w, []byte(pre5+els+"["))
			run(w, []byte(pre5+els+"x"))
			run(w, []byte(pre5+"[i"+pars+"] t"))
			run(w, []byte(pre5+"[i"+pars+"][j"+pars+"] t"))
			run(w, []byte(pre5+"[i"+pars+" ="))
			run(w, []byte(pre5+"[i"+pars+" q=\"\\x"))
			run(w, []byte(pre5+"[i"+dup+"] t"))
			run(w, []byte(pre5+"[i"+dup+" p0=\"x"))
		}
		for _, u := range []string{"\\\"", "\\\\", "\\]", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "a\\]", "\\\\\\\"b"} {
			v := strings.Repeat(u, n)
			run(w, []byte(pre5+"[i n=\""+v+"\"] "+v))
			run(w, []byte(pre5+"[i n=\""+v+"x\" m=\""+v+"\"]"))
			run(w, []byte(pre5+"[i n=\""+v+"\x80\" m=\"\"]"))
			run(w, []byte(pre5+"- \xef\xbb\xbf"+v+"\xff"))
		}
	})
	// long messages and values, around powers of two
	sizes := largeSizes(c)
	c.parallel(len(sizes), func(w *worker, i int) {
		n := sizes[len(sizes)-1-i]
		b := rep('m', n)
		for j := range b {
			b[j] = byte('a' + j%23)
		}
		run(w, cat([]byte(pre5+"- "), b))
		run(w, cat([]byte(pre5+"[i k=\""), b, []byte("\"] "), b[:9]))
		run(w, cat([]byte(pre5+"[i k=\""), b, []byte("\\\"\"]")))
		run(w, cat([]byte(pre5+"- \xef\xbb\xbf"), b, []byte("\xff")))
		run(w, cat([]byte(pre5), b))
		run(w, cat([]byte("<1>1 - "), b))
		// errors far into the input
		run(w, cat([]byte(pre5+"[i k=\""), b, []byte("\x80")))
		run(w, cat([]byte(pre5+"[i k=\""), b, []byte("\\")))
		run(w, cat([]byte(pre5+"[i k=\""), b, []byte("\\]\"][i]")))
		run(w, cat([]byte(pre5+"[i k=\""), b, []byte("\"][j l=x")))
		run(w, cat([]byte(pre5+"[i k=\""), b, []byte("\"]x")))
		run(w, cat([]byte(pre5+"[i k=\""), b, []byte("\"] m")))
		// inputs of that size as a whole
		for _, x := range []string{pre5 + "- ", pre5 + "[i k=\"", pre5 + "- \xef\xbb\xbf", pre5 + "[i k=\"\\]\"][j l=\"", pre5} {
			in := cat([]byte(x), b)[:n]
			run(w, in)
			run(w, cat(in[:n-1], []byte("\x80")))
			run(w, cat(in[:n-2], []byte("\"]")))
		}
	})
}

// largeSizes are sizes around the powers of two, up to megabytes, and some others.
func largeSizes(c *Ctx) (o []int) {
	for p := 9; p <= c.pick(22, 24); p++ {
		d := 2
		if p > 16 {
			d = 1
		}
		for k := -d; k <= d; k++ {
			o = append(o, 1<<uint(p)+k)
		}
		if p == 9 {
			o = append(o, 1000)
		}
		if p == 12 {
			o = append(o, 7681, 8192-20)
		}
		if p == 16 {
			o = append(o, 65018, 100000)
		}
		if p == 19 {
			o = append(o, 1000000, 1000001)
		}
	}
	return
}

// probe bytes and sequences, put at the start, in the middle and at the end of long contents
func longPieces() (ps []string) {
	for b := 0; b < 256; b++ {
		ps = append(ps, string([]byte{byte(b)}))
	}
	return append(ps, "", "\r\n", "\n\n", "\x00\x00", "\xef\xbb\xbf", "\xc3\xa9", "\xe2\x82", "\xe2\x82\xac", "\xf0\x9f\x98", "\xf0\x9f\x98\x80", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\\\"", "\\\\", "\\]", "\\n", "\"]", "][", ": ", "]: ", "  ", "...", "\ufffd", "\n<1>1 - - - - - -", " <1>1 - - - - - - ", "%s", "\t")
}

// longSizes are sizes of contents, small, around the powers of two, and large.
func longSizes(c *Ctx) []int {
	s := []int{3, 30, 63, 100, 127, 129, 250, 257, 510, 600, 1023, 1500, 2047, 2500, 4095, 4097, 5000}
	if c.thorough() {
		s = append(s, 20, 200, 300, 800, 8191, 8193, 9000, 16400, 33000, 65535, 65537, 70000)
	}
	return s
}

// around gives the fillings of the size with the piece at the start, in the middle and at the end.
func around(piece string, n int) (o [3][]byte) {
	b := make([]byte, n)
	for j := range b {
		b[j] = byte('a' + j%23)
	}
	for i, at := range []int{0, n / 2, n} {
		o[i] = cat(b[:at], []byte(piece), b[at:])
	}
	return
}

// longContents5: every byte within long texts and values.
func longContents5(c *Ctx, md mode5, run func(w *worker, in []byte)) {
	ps, sizes := longPieces(), longSizes(c)
	c.parallel(len(ps)*len(sizes), func(w *worker, i int) {
		n := sizes[i%len(sizes)]
		for _, b := range around(ps[i/len(sizes)], n) {
			run(w, cat([]byte(pre5+"- "), b))
			run(w, cat([]byte(pre5+"[i k=\""), b, []byte("\"] \xef\xbb\xbf"), b))
			if n < 700 || c.Prop == "P04" || c.thorough() {
				run(w, cat([]byte(pre5+"- \xef\xbb\xbf"), b))
				run(w, cat([]byte(pre5+"[j k=\"1\"][i k=\""), b, []byte("\" l=\""), b, []byte("\"][k] "), b))
			}
		}
	})
}

// codePoints5: every code point in a value and in the text, complete and cut short.
func codePoints5(c *Ctx, run func(w *worker, in []byte)) {
	c.parallel(0x1100, func(w *worker, hi int) {
		for lo := 0; lo < 256; lo++ {
			u := string(rune(hi<<8 | lo))
			if u == "\"" || u == "\\" || u == "]" {
				u = "\\" + u
			}
			run(w, []byte(pre5+"[a x=\""+u+"z\"] \xef\xbb\xbf"+u))
			if lo&0x3f == 0x3f || c.thorough() {
				run(w, []byte(pre5+"[a x=\""+u[:len(u)-1]+"\"] m"))
				run(w, []byte(pre5+"[a x=\"a"+u+u))
				run(w, []byte(pre5+"- \xef\xbb\xbf"+u+u[:len(u)-1]))
			}
		}
	})
}

// fieldWords are contents that a program might treat specially.
var fieldWords = []string{"localhost", "localhost.localdomain", "127.0.0.1", "0.0.0.0", "::1", "fe80::1%eth0", "[::1]", "nil", "NIL", "NILVALUE", "null", "none", "unknown", "(null)", "0", "00", "-1", "--", "---", "-0", "?", "*", "1", "1.0",
	"example.com.", ".", "..", "a.", ".a", "A", "Z", "root", "kernel", "syslogd", "su", "\"", "\"\"", "\"a\"", "'a'", "\\", "\\n", "[a]", "]", "[", "<1>", "<1>1", ">", "=", "a=b", "a=\"b\"", "@", "a@1", "%", "%s", "%d%n", "%!", "${a}", "{}", "&amp;", "/", "//", "a:b", ":", ";", ",", "T", "2018-10-11T22:14:15Z", "Oct", "timeQuality", "origin", "meta", "tzKnown", "isSynced", "syncAccuracy", "ip", "enterpriseId", "software", "swVersion", "sequenceId", "sysUpTime", "language", "BOM", "LF", "NUL", "true", "false", "NaN", "1e9", "0x10", "xn--a", "ID47"}

// shortFields5: every string of one or two bytes (three printable ones in the thorough tier), and words, in each field.
func shortFields5(c *Ctx, run func(w *worker, in []byte)) {
	put := func(w *worker, v string) {
		run(w, []byte("<1>1 - "+v+" a p m [i] t"))
		run(w, []byte("<1>1 - h "+v+" p m [i] t"))
		run(w, []byte("<1>1 - h a "+v+" m [i] t"))
		run(w, []byte("<1>1 - h a p "+v+" [i] t"))
		run(w, []byte("<1>1 - h a p m ["+v+"] t"))
		run(w, []byte("<1>1 - h a p m ["+v+" x=\"y\"] t"))
		run(w, []byte("<1>1 - h a p m [i "+v+"=\"y\"] t"))
		run(w, []byte("<1>1 - h a p m [i x=\""+v+"\"] t"))
		run(w, []byte("<1>1 - h a p m - "+v))
		run(w, []byte("<1>1 - h a p m [i x=\""+v))
	}
	c.parallel(256, func(w *worker, i int) {
		put(w, string([]byte{byte(i)}))
		for j := 0; j < 256; j++ {
			if i > 32 && i < 127 && j > 32 && j < 127 || c.thorough() {
				put(w, string([]byte{byte(i), byte(j)}))
			}
			if c.thorough() && i > 32 && i < 127 && j > 32 && j < 127 {
				for k := 33; k < 127; k++ {
					put(w, string([]byte{byte(i), byte(j), byte(k)}))
				}
			}
		}
	})
	c.parallel(len(fieldWords), func(w *worker, i int) {
		put(w, fieldWords[i])
		for _, x := range fieldWords {
			a, b := fieldWords[i], x
			run(w, []byte("<13>1 2018-10-11T22:14:15Z "+a+" "+b+" "+a+" "+b+" [i "+"x=\"y\"] "+a))
			run(w, []byte("<13>1 - "+a+" "+a+" "+b+" "+b+" - "+b+" "+a))
			// ids, names and values of structured data
			run(w, []byte(pre5+"["+a+" "+b+"=\""+b+"\" z=\""+a+"\"] m"))
			run(w, []byte(pre5+"[z y=\"1\" "+a+"=\"2\" "+b+"=\"3\" x=\"\"]["+a+"]["+b+" z=\"4\"]"))
			run(w, []byte(pre5+"["+a+" "+b+"=\"\"]["+b+" "+a+"=\"0\"][w "+a+"=\"\" "+b+"=\""+b+"\"]["+a+"]"))
			run(w, []byte("<13>1 - "+a+" - - "+b+" ["+b+" "+a+"=\""+a+"\"]["+a+" v=\"]"))
		}
	})
}

// msgFamilies5: the message part.
func msgFamilies5(c *Ctx, md mode5, run func(w *worker, in []byte)) {
	heads := bs("<1>1 - - - - - - ", "<1>1 - - - - - [a x=\"\\]\"] ", "<1>1 - - - - - - \xef\xbb\xbf")
	c.parallel(256, func(w *worker, i int) {
		for _, h := range heads {
			run(w, cat(h, []byte{byte(i)}))
			for j := 0; j < 256; j++ {
				run(w, cat(h, []byte{byte(i), byte(j)}))
			}
		}
	})
	// every UTF-8 sequence of up to n bytes over the boundaries of the byte classes
	cls := []byte{0x00, 0x0A, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBB, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFE, 0xFF}
	var alpha [][]byte
	for _, b := range cls {
		alpha = append(alpha, []byte{b})
	}
	n := 3
	if c.Prop == "P04" {
		n = c.pick(4, 5)
	}
	c.fanout(alpha, n, func(w *worker, s []byte) {
		run(w, cat(heads[2], s))
		if len(s) <= 4 {
			run(w, cat(heads[0], s))
			run(w, cat([]byte(pre5+"[a b=\""), s, []byte("\"]")))
		}
	})
	if c.Prop == "P04" && c.thorough() {
		// every code point, and every 3-byte sequence
		c.parallel(0x1100, func(w *worker, hi int) {
			for lo := 0; lo < 256; lo++ {
				r := rune(hi<<8 | lo)
				run(w, cat(heads[2], []byte("a"), []byte(string(r)), []byte("z")))
			}
		})
		c.parallel(256, func(w *worker, i int) {
			for j := 0; j < 256; j++ {
				for k := 0; k < 256; k++ {
					run(w, cat(heads[2], []byte{byte(i), byte(j), byte(k)}))
				}
			}
		})
	}
	c.fanout(bs("\xef", "\xbb", "\xbf", "a", "\xc3", "\xa9"), c.pick(6, 7), func(w *worker, s []byte) {
		run(w, cat(heads[0], s))
	})
}
