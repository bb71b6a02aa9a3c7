package main

import "strings"

// products: every combination of a few contents of each part, contents that are equal to those of other parts among
// them, complete and broken after each part.

func product(c *Ctx, parts [][]string, ends []string, run func(w *worker, in []byte)) {
	n := len(parts[0]) * len(parts[1])
	c.parallel(n, func(w *worker, i int) {
		a, b := parts[0][i/len(parts[1])], parts[1][i%len(parts[1])]
		if i%len(parts[1]) == 0 {
			for _, e := range ends {
				run(w, []byte(a+e))
			}
		}
		var rec func(pre string, k int)
		rec = func(pre string, k int) {
			run(w, []byte(pre))
			for _, e := range ends {
				run(w, []byte(pre+e))
			}
			if k == len(parts) {
				return
			}
			for _, x := range parts[k] {
				rec(pre+x, k+1)
			}
		}
		rec(a+b, 2)
	})
}

func products5(c *Ctx, md mode5, run func(w *worker, in []byte)) {
	hdrs := []string{" -", " x", " y", " 1"}
	parts := [][]string{
		{"<0>", "<1>", "<13>", "<191>"},
		{"1", "10", "191", "999"},
		{" -", " 2018-02-28T13:01:01Z", " 2018-02-28T13:01:01.000001-01:13"},
		hdrs, hdrs, hdrs[:3], hdrs[:3],
		{" -", " [x]", " [x x=\"x\"]", " [x y=\"\\]\"][y x=\"x\" y=\"1\"]", " [1 1=\"-\"]"},
		{" ", " x", " -", " [x x=\"x\"]", " \xef\xbb\xbfx"},
	}
	if c.thorough() {
		parts[2] = append(parts[2], " 0000-01-01T00:00:00Z", " 2018-10-10T10:10:10+10:10")
		parts[5], parts[6] = hdrs, hdrs
		parts[7] = append(parts[7], " [x x=\"x\" x=\"y\"]", " [x][y]")
	}
	product(c, parts, []string{" ", "\x01", "x"}, run)
	// contents as long as can be, together
	r := func(b string, ns ...int) (o []string) {
		for _, n := range ns {
			o = append(o, " "+strings.Repeat(b, n))
		}
		return
	}
	product(c, [][]string{{"<1>", "<191>"}, {"1", "999"}, {" -", " 2018-12-31T23:59:59.999999-23:59"}, r("h", 1, 64, 128, 254, 255), r("a", 1, 32, 47, 48), r("p", 1, 64, 127, 128), r("m", 1, 16, 31, 32),
		{" -", " [x]", " [" + strings.Repeat("i", 32) + " " + strings.Repeat("n", 32) + "=\"" + strings.Repeat("v", 300) + "\"]"}, r("t", 1, 300)}, []string{" ", "\x01", "x"}, run)
}

func products3(c *Ctx, rfc3339 bool, run func(w *worker, in []byte)) {
	parts := [][]string{
		{"<0>", "<1>", "<13>", "<191>"},
		{"Jan  1 01:01:01", "Feb 28 13:31:13", "Dec 12 12:12:12", "Feb 29 00:00:00"},
		{" x", " y", " -", " 1", " h.example"},
		{" ", " x", " y", " -", " 1", " <1>"},
		{"", "[x]", "[1]", "[]", "[-]", "[x][y]", "[y:"},
		{"", ":", ": ", " ", ": : ", ":x"},
		{"", "x", "-", "x[1]: x", "[x]: y", ": x", "x: y", " "},
	}
	if rfc3339 {
		parts[1] = append(parts[1][:2:2], "2018-02-28T13:31:13Z", "2018-12-12T12:12:12+12:12")
	}
	product(c, parts, []string{" ", "\x01", "x"}, run)
	r := func(pre, b, post string, ns ...int) (o []string) {
		for _, n := range ns {
			o = append(o, pre+strings.Repeat(b, n)+post)
		}
		return
	}
	product(c, [][]string{{"<1>", "<191>"}, parts[1][1:3], r(" ", "h", "", 1, 63, 64, 128, 254, 255), r(" ", "t", "", 1, 16, 31, 32, 33), append(r("[", "1", "]", 1, 5, 64, 127, 128, 300), ""),
		{"", ":", ": "}, r("", "x", "", 1, 64, 300, 1000)}, []string{" ", "\x01", "x"}, run)
}
