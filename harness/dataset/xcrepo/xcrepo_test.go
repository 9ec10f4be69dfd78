package xcrepo_test

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"testing"

	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/dataset/xcrepo"
)

var vFault = errors.New("reader fault")

// vReader hands out text in pieces and may fail at the end.
type vReader struct {
	text  string
	piece int
	err   error
	with  bool // report the error together with the last data
}

func (r *vReader) Read(p []byte) (int, error) {
	n := len(r.text)
	if n > r.piece {
		n = r.piece
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.text[:n])
	r.text = r.text[n:]
	if len(r.text) == 0 && (n == 0 || r.with) {
		if r.err != nil {
			return n, r.err
		}
		return n, io.EOF
	}
	return n, nil
}

// vInt reads a decimal integer: an optional sign and at least one digit, within 64 bits.
func vInt(s string) (int, bool) {
	neg := false
	if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
		neg, s = s[0] == '-', s[1:]
	}
	if len(s) == 0 {
		return 0, false
	}
	var v uint64
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return 0, false
		}
		d := uint64(c - '0')
		if v > (1<<63-d)/10 {
			return 0, false
		}
		v = v*10 + d
	}
	if neg {
		return int(-int64(v)), true
	}
	return int(v), v < 1<<63
}

func vCut(s string, sep byte) []string {
	r := []string{""}
	for i := 0; i < len(s); i++ {
		if s[i] == sep {
			r = append(r, "")
		} else {
			r[len(r)-1] += s[i : i+1]
		}
	}
	return r
}

type vLine struct {
	err   error
	label []int
	index []int
	value []float64
}

func vParse(s string, features, labels int) (l vLine) {
	f := vCut(s, ' ')
	if f[0] != "" {
		for _, t := range vCut(f[0], ',') {
			v, ok := vInt(t)
			if !ok {
				l.err = xcrepo.ErrMalformedLabels
				return
			}
			if v < 0 || v >= labels {
				l.err = xcrepo.ErrLabelOutOfBounds
				return
			}
			l.label = append(l.label, v)
		}
	}
	if len(f) == 1 {
		l.err = xcrepo.ErrMissingFeatures
		return
	}
	for _, t := range f[1:] {
		p := vCut(t, ':')
		if len(p) != 2 {
			l.err = xcrepo.ErrMalformedFeatures
			return
		}
		v, ok := vInt(p[0])
		if !ok {
			l.err = xcrepo.ErrMalformedFeatures
			return
		}
		if v < 0 || v >= features {
			l.err = xcrepo.ErrFeatureIndexOutOfBounds
			return
		}
		x, err := strconv.ParseFloat(p[1], 64)
		if err != nil {
			l.err = xcrepo.ErrMalformedFeatures
			return
		}
		l.index = append(l.index, v)
		l.value = append(l.value, x)
	}
	return
}

func (h *vH) pick(s ...string) string { return s[h.rng.Intn(len(s))] }

func (h *vH) vNum(most int) string {
	v := h.intv(0, most-1)
	switch h.rng.Intn(12) {
	case 0:
		return "0" + strconv.Itoa(v)
	case 1:
		return "+" + strconv.Itoa(v)
	case 2:
		return "-0"
	}
	return strconv.Itoa(v)
}
func (h *vH) vBadNum(most int) string {
	switch h.rng.Intn(6) {
	case 0:
		return strconv.Itoa(most)
	case 1:
		return strconv.Itoa(-1 - h.rng.Intn(3))
	case 2:
		return "99999999999999999999"
	case 3:
		return strconv.FormatInt(math.MaxInt64, 10)
	}
	return h.pick("", "x", "1.0", "0x1", "1_0", "1e1", "--1", "١", " ", "+", "-", "-9223372036854775809", "4294967296")
}
func (h *vH) vReal() string {
	switch h.rng.Intn(7) {
	case 0:
		return h.pick("0", "-0", "1", "1e3", ".5", "1.", "Inf", "-inf", "NaN", "+1", "0x1p-2", "1e-400", "5e-324", "1.7976931348623157e308")
	case 1:
		return strconv.FormatFloat(h.rng.NormFloat64()*math.Pow(10, float64(h.rng.Intn(600)-300)), 'g', -1, 64)
	}
	return strconv.FormatFloat(h.rng.NormFloat64(), 'f', h.rng.Intn(18), 64)
}

// vText makes one line; about how often something is wrong with it is up to bad.
func (h *vH) vText(features, labels int, bad int) string {
	var b strings.Builder
	nl := h.rng.Intn(4)
	for i := 0; i < nl; i++ {
		if i > 0 {
			b.WriteString(",")
		}
		if h.rng.Intn(bad) == 0 {
			b.WriteString(h.vBadNum(labels))
		} else {
			b.WriteString(h.vNum(labels))
		}
	}
	if h.rng.Intn(bad) == 0 {
		b.WriteString(h.pick(",", " ", ", ", ";", "\t", ""))
	}
	nf := 1 + h.rng.Intn(4)
	if h.rng.Intn(bad) == 0 {
		nf = 0
	}
	for i := 0; i < nf; i++ {
		b.WriteString(" ")
		switch h.rng.Intn(4 * bad) {
		case 0:
			b.WriteString(h.vBadNum(features) + ":" + h.vReal())
		case 1:
			b.WriteString(h.vNum(features) + ":" + h.pick("", "x", "1e400", "1,5", "--1", "1 ", "1e", "1:2"))
		case 2:
			b.WriteString(h.pick("", ":", "1", "1:2:3", "::", "1;2", h.vNum(features)+":"+h.vReal()+":"))
		case 3:
			b.WriteString(h.vBadNum(features) + ":" + h.pick("x", "1e400", ""))
		default:
			b.WriteString(h.vNum(features) + ":" + h.vReal())
		}
	}
	if h.rng.Intn(4*bad) == 0 {
		b.WriteString(h.pick(" ", "\r", " \r"))
	}
	return b.String()
}

func vShow(e dataset.Example) string {
	return fmt.Sprintf("labels %v features %v", e.Labels, e.Features)
}

func vSame(e dataset.Example, l vLine) string {
	if len(e.Labels) != len(l.label) || len(e.Features) != len(l.index) {
		return "number of labels or features"
	}
	for i, v := range l.label {
		if e.Labels[i] != v {
			return fmt.Sprintf("label %d", i)
		}
	}
	for i, v := range l.index {
		if e.Features[i].Index != v {
			return fmt.Sprintf("index of feature %d", i)
		}
		if math.Float64bits(e.Features[i].Value) != math.Float64bits(l.value[i]) {
			return fmt.Sprintf("value of feature %d", i)
		}
	}
	return ""
}

func vRun(t *testing.T, what int, rule string) {
	h := vNew(t, rule)
	defer h.done(t)
	for n := 0; h.more(n, 300, 20000); n++ {
		size := func() int {
			switch h.rng.Intn(10) {
			case 0:
				return h.intv(1, math.MaxInt64)
			case 1:
				return 1
			}
			return h.intv(1, 500)
		}
		hd := []string{strconv.Itoa(size()), strconv.Itoa(size()), strconv.Itoa(size())}
		header := strings.Join(hd, " ")
		odds := 60
		if what == 1 {
			odds = 2
		}
		if h.rng.Intn(odds) == 0 {
			i := h.rng.Intn(3)
			switch h.rng.Intn(5) {
			case 0:
				hd[i] = h.pick("0", "-1", "-0", "+0", "", "x", "1.5", "9223372036854775808", "-5", "1e3")
			case 1:
				hd = hd[:h.rng.Intn(3)]
			case 2:
				hd = append(hd, h.pick("", "1", "x"))
			case 3:
				hd[i] = h.pick("+", "00", " ") + hd[i]
			}
			header = strings.Join(hd, h.pick(" ", " ", " ", "  ", "\t"))
		}
		nl := h.rng.Intn(8)
		if what != 1 && h.rng.Intn(4) == 0 {
			nl = h.rng.Intn(60)
		}
		hs := vCut(header, ' ')
		var sizes [3]int
		good := len(hs) == 3
		for i := range sizes {
			v, ok := 0, false
			if i < len(hs) {
				v, ok = vInt(hs[i])
			}
			good = good && ok && v > 0
			sizes[i] = v
		}
		if !good {
			sizes = [3]int{}
		}
		bad := []int{4, 20, 200, 1 << 30}[h.rng.Intn(4)]
		if what == 2 {
			bad = []int{20, 1000, 1 << 30}[h.rng.Intn(3)]
		}
		lines := []string{header}
		for i := 0; i < nl; i++ {
			s := ""
			if good {
				s = h.vText(sizes[1], sizes[2], bad)
			} else {
				s = h.vText(10, 10, bad)
			}
			lines = append(lines, s)
		}
		long := -1
		if h.rng.Intn(30) == 0 {
			long = h.rng.Intn(len(lines))
			lines[long] += strings.Repeat(" 1:1", 1<<14+1)
		}
		eol := h.pick("\n", "\n", "\r\n")
		text := strings.Join(lines, eol)
		complete := len(lines) // lines a reader failing at the end makes available
		if h.rng.Intn(2) == 0 {
			text += eol
		} else {
			complete--
			if lines[len(lines)-1] == "" {
				lines = lines[:len(lines)-1]
			}
		}
		for i := range lines { // one carriage return at the end is dropped
			if i < len(lines)-1 || complete == len(lines) {
				lines[i] += strings.TrimSuffix(eol, "\n")
			}
			lines[i] = strings.TrimSuffix(lines[i], "\r")
		}
		r := &vReader{text: text, piece: []int{1, 7, 4096, 1 << 20}[h.rng.Intn(4)]}
		if h.rng.Intn(6) == 0 {
			r.err = vFault
			if cut := h.rng.Intn(len(text) + 1); h.rng.Intn(2) == 0 {
				r.text = text[:cut]
				complete = strings.Count(r.text, "\n")
			}
		}
		r.with = h.rng.Intn(3) == 0
		in := map[string]interface{}{"piece": r.piece, "fails at end": r.err != nil, "error with data": r.with}
		if long < 0 {
			in["text"] = r.text
		} else {
			in["lines"], in["too long line"] = len(lines), long
		}
		h.begin(in)

		avail := len(lines)
		if r.err != nil && complete < avail {
			avail = complete
		}
		ioErr := r.err
		if long >= 0 && (long < avail || long == avail && r.err != nil && len(r.text) > 1<<17) {
			avail, ioErr = long, bufio.ErrTooLong
		}
		early := r.err != nil && r.with // the error may be seen while lines are still waiting
		s := xcrepo.NewScanner(r)
		is := func(got, want error) bool {
			return got == want || early && got == vFault || long >= 0 && r.err != nil && (got == vFault || got == bufio.ErrTooLong)
		}
		// header
		var want error
		line := 1
		switch {
		case avail == 0 && ioErr != nil:
			want, line = ioErr, 0
		case avail == 0 || !good:
			want = xcrepo.ErrMalformedHeader
		}
		got := s.Err()
		broken := got != nil
		if !is(got, want) {
			if what == 1 {
				h.fail("error after the header", want, got)
			}
			continue
		}
		if got != nil && got != xcrepo.ErrMalformedHeader {
			line = 0
		}
		if got != nil {
			sizes = [3]int{}
		}
		dims := func() [3]int { return [3]int{s.TotalPoints(), s.NumFeatures(), s.NumLabels()} }
		if what == 1 {
			if dims() != sizes {
				h.fail("points, features and labels", sizes, dims())
			}
			if s.LineNumber() != line {
				h.fail("line number after the header", line, s.LineNumber())
			}
			if e := s.Example(); e.Labels != nil || e.Features != nil {
				h.fail("example before the first line", "empty", vShow(e))
			}
		}
		var seen []dataset.Example
		var exp []vLine
		for i := 1; len(h.Findings) == 0; i++ {
			ok := s.Scan()
			if broken || i >= avail {
				want := got
				if !broken {
					want = ioErr
				}
				if what == 3 {
					if ok {
						h.fail("Scan after an error or the end", false, true)
					}
					if !is(s.Err(), want) {
						h.fail("error after an error or the end", want, s.Err())
					}
					if e := s.Example(); e.Labels != nil || e.Features != nil {
						h.fail("example after an error or the end", "empty", vShow(e))
					}
					if s.LineNumber() != line {
						h.fail("line number after an error or the end", line, s.LineNumber())
					}
				}
				got, broken = s.Err(), s.Err() != nil
				if ok || i > avail+1+h.rng.Intn(2) {
					break
				}
				continue
			}
			l := vParse(lines[i], sizes[1], sizes[2])
			if early && s.Err() == vFault || long >= 0 && r.err != nil && !ok && s.Err() == vFault {
				if ok && what == 3 {
					h.fail("Scan with a read error", false, true)
				}
				got, broken = s.Err(), true
				continue
			}
			line++
			h.nontrivial(lines[i])
			switch {
			case l.err == nil && what == 2:
				if !ok {
					h.fail(fmt.Sprintf("Scan of line %d, which is good", i+1), true, s.Err())
					break
				}
				if d := vSame(s.Example(), l); d != "" {
					h.fail(fmt.Sprintf("line %d: %s", i+1, d), fmt.Sprint("labels ", l.label, " indices ", l.index, " values ", l.value), vShow(s.Example()))
				}
				if s.LineNumber() != line {
					h.fail("line number", line, s.LineNumber())
				}
			case what == 3:
				if ok != (l.err == nil) {
					h.fail(fmt.Sprintf("Scan of line %d", i+1), l.err == nil, ok)
				}
				if s.Err() != l.err {
					h.fail(fmt.Sprintf("error of line %d", i+1), l.err, s.Err())
				}
				if s.LineNumber() != line {
					h.fail("line number", line, s.LineNumber())
				}
			}
			got, broken = s.Err(), s.Err() != nil
			if ok != (l.err == nil) {
				break
			}
			if ok {
				seen = append(seen, s.Example())
				exp = append(exp, l)
			}
		}
		if what == 1 && dims() != sizes {
			h.fail("points, features and labels at the end", sizes, dims())
		}
		if what == 2 {
			for i, e := range seen {
				if d := vSame(e, exp[i]); d != "" {
					h.fail(fmt.Sprintf("example %d, kept while reading on: %s", i, d), fmt.Sprint("labels ", exp[i].label, " indices ", exp[i].index, " values ", exp[i].value), vShow(e))
					break
				}
			}
		}
	}
}

func TestVerifS01(t *testing.T) {
	vRun(t, 1, "headers, good and bad, before random lines, from readers handing out pieces and failing; non-trivial: distinct lines read after a good header")
}
func TestVerifS02(t *testing.T) {
	vRun(t, 2, "random files, mostly good, examples kept while reading on; non-trivial: distinct lines read")
}
func TestVerifS03(t *testing.T) {
	vRun(t, 3, "random files with all kinds of faults, failing readers, too long lines, reading on after errors; non-trivial: distinct lines read")
}
