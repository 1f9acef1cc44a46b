package parser

// refSplit splits a line: at unescaped spaces; a backslash makes a following
// space or backslash literal and stands for itself before anything else.
// open tells whether the line ends inside the last word.
func refSplit(line string) (words []string, open bool) {
	r := []rune(line)
	w := ""
	for i := 0; i < len(r); i++ {
		switch {
		case r[i] == ' ':
			if open {
				words = append(words, w)
			}
			w, open = "", false
			continue
		case r[i] == '\\' && i+1 < len(r) && (r[i+1] == ' ' || r[i+1] == '\\'):
			i++
		}
		w += string(r[i])
		open = true
	}
	if open {
		words = append(words, w)
	}
	return
}

// allLines calls f with every string of 0 to n symbols.
func allLines(symbols []string, n int, f func(i int, s string)) {
	count := 0
	var rec func(s string, left int)
	rec = func(s string, left int) {
		f(count, s)
		count++
		if left == 0 {
			return
		}
		for _, y := range symbols {
			rec(s+y, left-1)
		}
	}
	rec("", n)
}
