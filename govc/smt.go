package main

// SMT back end: sorts, prelude (axioms of strings, interfaces, integers) and
// small term-building helpers.

import (
	"fmt"
	"strings"
)

func app(f string, a ...string) string {
	if len(a) == 0 {
		return f
	}
	return "(" + f + " " + strings.Join(a, " ") + ")"
}

func sAnd(a ...string) string {
	var b []string
	for _, x := range a {
		if x == "true" || x == "" {
			continue
		}
		if x == "false" {
			return "false"
		}
		b = append(b, x)
	}
	if len(b) == 0 {
		return "true"
	}
	if len(b) == 1 {
		return b[0]
	}
	return app("and", b...)
}

func sOr(a ...string) string {
	var b []string
	for _, x := range a {
		if x == "false" || x == "" {
			continue
		}
		if x == "true" {
			return "true"
		}
		b = append(b, x)
	}
	if len(b) == 0 {
		return "false"
	}
	if len(b) == 1 {
		return b[0]
	}
	return app("or", b...)
}

func sNot(a string) string {
	if a == "true" {
		return "false"
	}
	if a == "false" {
		return "true"
	}
	if strings.HasPrefix(a, "(not ") {
		return a[5 : len(a)-1]
	}
	return app("not", a)
}

func sImp(a, b string) string {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	return app("=>", a, b)
}

func sIte(c, a, b string) string {
	if a == b || c == "true" {
		return a
	}
	if c == "false" {
		return b
	}
	return app("ite", c, a, b)
}

func sEq(a, b string) string {
	if a == b {
		return "true"
	}
	return app("=", a, b)
}

func sInt(i int64) string {
	if i < 0 {
		if i == -1<<63 {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -i)
	}
	return fmt.Sprint(i)
}

func sSel(a, i string) string      { return app("select", a, i) }
func sStore(a, i, v string) string { return app("store", a, i, v) }
func sAdd(a, b string) string {
	if a == "0" {
		return b
	}
	if b == "0" {
		return a
	}
	return app("+", a, b)
}

func q(s string) string {
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '@' || c == '!' || c == '$' || c == '.') {
			ok = false
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.ReplaceAll(s, "|", "!") + "|"
}

const prelude = `
(declare-sort Str 0)
(declare-sort Flt 0)
(declare-datatypes ((Slice 0)) (((mk_sl (sl_b Int) (sl_o Int) (sl_n Int) (sl_c Int)))))
(declare-datatypes ((Itf 0)) (((i_nil) (i_bool (itf_bool Bool)) (i_int (itf_ik Int) (itf_int Int)) (i_str (itf_sk Int) (itf_str Str)) (i_bytes (itf_bytes Slice)) (i_flt (itf_fk Int) (itf_flt Flt)) (i_ref (itf_rt Int) (itf_ref Int)) (i_oth (itf_ot Int) (itf_ov Int)))))
(define-fun nil_sl () Slice (mk_sl 0 0 0 0))
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun scat (Str Str) Str)
(declare-fun ssub (Str Int Int) Str)
(declare-fun schr (Int) Str)
(declare-fun bstr ((Array Int Int) Int Int) Str)
(declare-fun rstr ((Array Int Int) Int Int) Str)
(declare-fun sarr (Str) (Array Int Int))
(declare-fun streq (Str Str) Bool)
(declare-fun sdiff (Str Str) Int)
(declare-fun strlt (Str Str) Bool)
(declare-fun runestr (Int) Str)
(declare-const sempty Str)
(assert (! (= (slen sempty) 0) :named ax_sempty))
(assert (forall ((s Str)) (! (<= 0 (slen s)) :pattern ((slen s)))))
(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s sempty)) :pattern ((slen s)))))
(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))
(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen a))) (= (sat (scat a b) i) (sat a i))) :pattern ((sat (scat a b) i)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= (slen a) i) (< i (+ (slen a) (slen b)))) (= (sat (scat a b) i) (sat b (- i (slen a))))) :pattern ((sat (scat a b) i)))))
(assert (forall ((a Str)) (! (= (scat a sempty) a) :pattern ((scat a sempty)))))
(assert (forall ((a Str)) (! (= (scat sempty a) a) :pattern ((scat sempty a)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (= (scat (scat a b) c) (scat a (scat b c))) :pattern ((scat (scat a b) c)))))
(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (= (slen (ssub s i j)) (- j i))) :pattern ((ssub s i j)))))
(assert (forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s)) (<= 0 k) (< k (- j i))) (= (sat (ssub s i j) k) (sat s (+ i k)))) :pattern ((sat (ssub s i j) k)))))
(assert (forall ((s Str) (i Int)) (! (=> (and (= i 0)) (= (ssub s i (slen s)) s)) :pattern ((ssub s i (slen s))))))
(assert (forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (<= i (slen s))) (= (ssub s i i) sempty)) :pattern ((ssub s i i)))))
(assert (forall ((c Int)) (! (=> (and (<= 0 c) (<= c 255)) (and (= (slen (schr c)) 1) (= (sat (schr c) 0) c))) :pattern ((schr c)))))
(assert (forall ((A (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (slen (bstr A o n)) n)) :pattern ((bstr A o n)))))
(assert (forall ((A (Array Int Int)) (o Int)) (! (= (bstr A o 0) sempty) :pattern ((bstr A o 0)))))
(assert (forall ((A (Array Int Int)) (o Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n) (<= 0 (select A (+ o k))) (<= (select A (+ o k)) 255)) (= (sat (bstr A o n) k) (select A (+ o k)))) :pattern ((sat (bstr A o n) k)))))
(assert (forall ((A (Array Int Int)) (o Int)) (! (= (rstr A o 0) sempty) :pattern ((rstr A o 0)))))
(assert (forall ((A (Array Int Int)) (o Int) (n Int) (B (Array Int Int)) (p Int) (m Int)) (! (=> (and (<= 0 m) (= n (+ m 1)) (forall ((k Int)) (! (=> (and (<= 0 k) (< k m)) (= (select A (+ o k)) (select B (+ p k)))) :pattern ((select A (+ o k))) :pattern ((select B (+ p k)))))) (= (rstr A o n) (scat (rstr B p m) (runestr (select A (+ o m)))))) :pattern ((rstr A o n) (rstr B p m)))))
(assert (forall ((c Int)) (! (=> (and (<= 0 c) (< c 128)) (= (runestr c) (schr c))) :pattern ((runestr c)))))
(assert (forall ((c Int)) (! (and (<= 1 (slen (runestr c))) (<= (slen (runestr c)) 4)) :pattern ((runestr c)))))
(assert (forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen s))) (= (select (sarr s) i) (sat s i))) :pattern ((select (sarr s) i)))))
(assert (forall ((s Str)) (! (= (bstr (sarr s) 0 (slen s)) s) :pattern ((sarr s)))))
(assert (forall ((a Str) (b Str)) (! (= (streq a b) (= a b)) :pattern ((streq a b)))))
(assert (forall ((a Str) (b Str)) (! (or (= a b) (not (= (slen a) (slen b))) (and (<= 0 (sdiff a b)) (< (sdiff a b) (slen a)) (not (= (sat a (sdiff a b)) (sat b (sdiff a b)))))) :pattern ((streq a b)))))
(assert (forall ((a Str) (b Str)) (! (and (not (and (strlt a b) (strlt b a))) (=> (= a b) (not (strlt a b))) (or (= a b) (strlt a b) (strlt b a))) :pattern ((strlt a b)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (strlt a b) (strlt b c)) (strlt a c)) :pattern ((strlt a b) (strlt b c)))))
(declare-fun bor (Int Int) Int)
(declare-fun band (Int Int) Int)
(declare-fun bxor (Int Int) Int)
(declare-fun bandnot (Int Int) Int)
(declare-fun shl (Int Int) Int)
(declare-fun shr (Int Int) Int)
(define-fun w64 ((t Int)) Int (ite (and (<= (- 9223372036854775808) t) (<= t 9223372036854775807)) t (- (mod (+ t 9223372036854775808) 18446744073709551616) 9223372036854775808)))
(define-fun w32 ((t Int)) Int (ite (and (<= (- 2147483648) t) (<= t 2147483647)) t (- (mod (+ t 2147483648) 4294967296) 2147483648)))
(define-fun w16 ((t Int)) Int (ite (and (<= (- 32768) t) (<= t 32767)) t (- (mod (+ t 32768) 65536) 32768)))
(define-fun w8 ((t Int)) Int (ite (and (<= (- 128) t) (<= t 127)) t (- (mod (+ t 128) 256) 128)))
(define-fun u64 ((t Int)) Int (ite (and (<= 0 t) (<= t 18446744073709551615)) t (mod t 18446744073709551616)))
(define-fun u32 ((t Int)) Int (ite (and (<= 0 t) (<= t 4294967295)) t (mod t 4294967296)))
(define-fun u16 ((t Int)) Int (ite (and (<= 0 t) (<= t 65535)) t (mod t 65536)))
(define-fun u8 ((t Int)) Int (ite (and (<= 0 t) (<= t 255)) t (mod t 256)))
(define-fun tdiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))
(define-fun tmod ((a Int) (b Int)) Int (ite (>= a 0) (mod a b) (- (mod (- a) b))))
(declare-fun interior (Int Int) Int)
(declare-fun ibase (Int) Int)
(declare-fun iroot (Int) Int)
(define-fun isal ((r Int) (n Int)) Bool (< (ite (< r (- 1000)) (iroot r) r) n))
(declare-fun ifld (Int) Int)
(assert (forall ((r Int) (k Int)) (! (and (< (interior r k) (- 1000)) (= (ibase (interior r k)) r) (= (iroot (interior r k)) (ite (< r (- 1000)) (iroot r) r)) (= (ifld (interior r k)) k)) :pattern ((interior r k)))))
(declare-fun fadd (Flt Flt) Flt)
(declare-fun fsub (Flt Flt) Flt)
(declare-fun fmul (Flt Flt) Flt)
(declare-fun fdiv (Flt Flt) Flt)
(declare-fun fneg (Flt) Flt)
(declare-fun flt (Flt Flt) Bool)
(declare-fun fle (Flt Flt) Bool)
(declare-fun feq (Flt Flt) Bool)
(declare-fun fofint (Int) Flt)
(declare-fun ftoint (Int Flt) Int)
(declare-fun fconst (Int) Flt)
(declare-fun ffrom32 (Flt) Flt)
(declare-fun implements (Int Int) Bool)
(declare-fun uncmp (Int) Bool)
(declare-fun fneqz (Flt) Bool)
`
