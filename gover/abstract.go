package main

import (
	"math/big"
	"strings"
)

// abstractNL rewrites a query so that products of two unknowns and remainders by large constants become
// uninterpreted (with commutativity and bounds only). The result has more models than the original, so
// "unsat" carries over; the solvers then need congruence and linear arithmetic only. It returns "" when
// there is nothing to abstract.
func abstractNL(text string) string {
	var b strings.Builder
	changed := false
	i := 0
	var expr func() (string, bool) // text and whether it is a numeral (possibly negated)
	skip := func() {
		for i < len(text) {
			switch text[i] {
			case ' ', '\n', '\t':
				i++
			case ';':
				for i < len(text) && text[i] != '\n' {
					i++
				}
			default:
				return
			}
		}
	}
	expr = func() (string, bool) {
		skip()
		if text[i] != '(' {
			j := i
			if text[i] == '|' {
				j++
				for text[j] != '|' {
					j++
				}
				j++
			} else {
				for j < len(text) && !strings.ContainsRune(" \n\t()", rune(text[j])) {
					j++
				}
			}
			s := text[i:j]
			i = j
			_, num := new(big.Int).SetString(s, 10)
			return s, num
		}
		i++
		var parts []string
		var nums []bool
		for {
			skip()
			if text[i] == ')' {
				i++
				break
			}
			s, n := expr()
			parts = append(parts, s)
			nums = append(nums, n)
		}
		num := false
		if len(parts) > 0 {
			switch parts[0] {
			case "*":
				unknown := 0
				for _, n := range nums[1:] {
					if !n {
						unknown++
					}
				}
				if unknown > 1 {
					changed = true
					acc := ""
					consts := ""
					for k, p := range parts[1:] {
						if nums[k+1] {
							consts += " " + p
						} else if acc == "" {
							acc = p
						} else {
							acc = "(imul~ " + acc + " " + p + ")"
						}
					}
					if consts != "" {
						acc = "(*" + consts + " " + acc + ")"
					}
					return acc, false
				}
			case "mod", "div":
				if len(parts) == 3 {
					if m, ok := new(big.Int).SetString(parts[2], 10); ok && m.BitLen() > 31 {
						changed = true
						parts[0] = "u" + parts[0] + "~"
					} else if !ok {
						changed = true
						parts[0] = "i" + parts[0] + "~"
					}
				}
			case "-":
				num = len(parts) == 2 && nums[1]
			}
		}
		return "(" + strings.Join(parts, " ") + ")", num
	}
	first := true
	for {
		skip()
		if i >= len(text) {
			break
		}
		s, _ := expr()
		b.WriteString(s)
		b.WriteByte('\n')
		if first && strings.HasPrefix(s, "(set-logic") {
			first = false
			b.WriteString(preludeAbs)
		}
	}
	if !changed {
		return ""
	}
	return b.String()
}

const preludeAbs = `(declare-fun imul~ (Int Int) Int)
(declare-fun imod~ (Int Int) Int)
(declare-fun idiv~ (Int Int) Int)
(declare-fun umod~ (Int Int) Int)
(declare-fun udiv~ (Int Int) Int)
(assert (forall ((a Int) (b Int)) (! (= (imul~ a b) (imul~ b a)) :pattern ((imul~ a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (< 0 b) (and (<= 0 (umod~ a b)) (< (umod~ a b) b) (=> (and (<= 0 a) (< a b)) (= (umod~ a b) a)) (=> (and (<= (- b) a) (< a 0)) (= (umod~ a b) (+ a b))))) :pattern ((umod~ a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (< 0 b) (and (<= 0 (imod~ a b)) (< (imod~ a b) b))) :pattern ((imod~ a b)))))
`
