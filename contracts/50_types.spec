// Conversions of contents (C11).

package strconv

// the value of a decimal text, and whether there is one
spec func pint(s string) int
spec func pintok(s string) bool
spec func pflt(s string) float64
spec func pfltok(s string) bool

trusted func ParseInt(s, base, bits) (n, e)
  why "strconv.ParseInt(s, 10, 64) is a function of s; it gives an error or an int64"
  ensures base == 10 && bits == 64 ==> (e == nil) == pintok(s)
  ensures base == 10 && bits == 64 && pintok(s) ==> n == pint(s)

trusted func ParseFloat(s, bits) (n, e)
  why "strconv.ParseFloat(s, 64) is a function of s; it gives an error or a float64"
  ensures bits == 64 ==> (e == nil) == pfltok(s)
  ensures bits == 64 && pfltok(s) ==> n == pflt(s)

package ogdl

// the integer types: int*, uint*, byte and rune
macro anyint(i) = is(i, int) || is(i, int8) || is(i, int16) || is(i, int32) || is(i, int64) || is(i, uint) || is(i, uint8) || is(i, uint16) || is(i, uint32) || is(i, uint64)

func _int64(i) (n, ok)
  props C11 C13
  ensures ok == anyint(i)
  ensures ok ==> n == w64(intval(i))
  ensures !ok ==> n == 0

macro isfloat(i) = is(i, float64) || is(i, float32)
macro floatval(i) = is(i, float64) ? as(i, float64) : ffrom32(as(i, float32))

func _float64(i) (f, ok)
  props C11 C13
  ensures ok == isfloat(i)
  ensures ok ==> f == floatval(i)

func _float64f(v) (f, ok)
  props C11 C13
  ensures isfloat(v) ==> ok && f == floatval(v)
  ensures anyint(v) ==> ok && f == fofint(w64(intval(v)))
  ensures !isfloat(v) && !anyint(v) ==> ok == pfltok(str(v))
  ensures !isfloat(v) && !anyint(v) ==> f == (ok ? pflt(str(v)) : fzero())

// a graph stands for its own content
spec func inner(v interface{}) interface{} reads Graph.This = is(v, *Graph) ? (as(v, *Graph) == nil ? nil : as(v, *Graph).This) : v
macro istext(x) = is(x, string) || isbytes(x)
macro text(x) = is(x, string) ? as(x, string) : string(as(x, []byte))

func _int64f(i) (n, ok)
  props C11 C13
  ensures let x = inner(i) in istext(x) ==> ok == pintok(text(x)) && n == (ok ? pint(text(x)) : 0)
  ensures let x = inner(i) in is(x, float64) ==> ok && n == ftoint(6, as(x, float64))
  ensures let x = inner(i) in is(x, float32) ==> ok && n == ftoint(6, as(x, float32))
  ensures let x = inner(i) in anyint(x) ==> ok && n == w64(intval(x))
  ensures let x = inner(i) in !istext(x) && !isfloat(x) && !anyint(x) ==> !ok && n == 0

func _boolf(i) (b, ok)
  props C11 C13
  ensures let x = inner(i) in istext(x) ==> ok == (text(x) == "true" || text(x) == "false") && b == (text(x) == "true")
  ensures let x = inner(i) in is(x, bool) ==> ok && b == as(x, bool)
  ensures let x = inner(i) in (is(x, int) || is(x, int64)) ==> ok && b == (intval(x) != 0)
  ensures let x = inner(i) in !istext(x) && !is(x, bool) && !is(x, int) && !is(x, int64) ==> !ok && !b

// decimal integer texts: blanks, an optional minus sign, digits, blanks
macro digit(c) = 48 <= c && c <= 57
macro blank(c) = c == 32 || c == 9
// where the run of blanks or digits that starts at i ends
spec func blanks(s string, i int) int = 0 <= i && i < len(s) && blank(s[i]) ? blanks(s, i + 1) : i
spec func digits(s string, i int) int = 0 <= i && i < len(s) && digit(s[i]) ? digits(s, i + 1) : i
macro signed(s, i) = (i < len(s) && s[i] == 45 ? i + 1 : i)
spec func intText(s string) bool = let j = signed(s, blanks(s, 0)) in digits(s, j) > j && blanks(s, digits(s, j)) == len(s)

func isInteger(s) (r)
  props C11
  ensures r == intText(s)
  loop
    var i int
    invariant 0 <= i && i <= len(s)
    invariant blanks(s, 0) == blanks(s, i)
  loop
    var i, n int
    invariant 0 <= i && i <= len(s)
    invariant n == i - signed(s, blanks(s, 0)) && n >= 0
    invariant digits(s, i) == digits(s, signed(s, blanks(s, 0)))
  loop
    var i int
    invariant 0 <= i && i <= len(s)
    invariant blanks(s, i) == blanks(s, digits(s, signed(s, blanks(s, 0))))
    invariant digits(s, signed(s, blanks(s, 0))) > signed(s, blanks(s, 0))

// the number that a content stands for, or nil
spec func tonum(x interface{}) interface{} reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = isfloat(x) ? box(floatval(x), float64) : anyint(x) ? box(w64(intval(x)), int64) : intText(str(x)) ? (pintok(str(x)) ? box(pint(str(x)), int64) : nil) : str(x) != "" && pfltok(str(x)) ? box(pflt(str(x)), float64) : nil

func number(itf) (r)
  props C11 C13
  ensures r == tonum(itf)

macro isboolish(x) = istext(x) ? text(x) == "true" || text(x) == "false" : is(x, bool) || is(x, int) || is(x, int64)
macro boolof(x) = istext(x) ? text(x) == "true" : is(x, bool) ? as(x, bool) : intval(x) != 0

macro deflt(def, zero) = len(def) == 0 ? zero : def[0]

func (*Graph).Int64(g, def) (r)
  props C11
  ensures let x = inner(first(g)) in anyint(x) ==> r == w64(intval(x))
  ensures let x = inner(first(g)) in is(x, float64) ==> r == ftoint(6, as(x, float64))
  ensures let x = inner(first(g)) in is(x, float32) ==> r == ftoint(6, as(x, float32))
  ensures let x = inner(first(g)) in istext(x) ==> r == (pintok(text(x)) ? pint(text(x)) : deflt(def, 0))
  ensures let x = inner(first(g)) in !anyint(x) && !isfloat(x) && !istext(x) ==> r == deflt(def, 0)

func (*Graph).Float64(g, def) (r)
  props C11
  ensures let s = (g == nil ? "" : str(first(g))) in pfltok(s) ==> r == pflt(s)
  ensures let s = (g == nil ? "" : str(first(g))) in !pfltok(s) && len(def) != 0 ==> r == def[0]
  ensures let s = (g == nil ? "" : str(first(g))) in !pfltok(s) && len(def) == 0 ==> r == fnan()

func (*Graph).Bool(g, def) (r)
  props C11
  ensures let s = (g == nil ? "" : str(first(g))) in (s == "true" || s == "false") ==> r == (s == "true")
  ensures let s = (g == nil ? "" : str(first(g))) in s != "true" && s != "false" ==> r == deflt(def, false)

func (*Graph).Bytes(g) (r)
  props C11
  ensures first(g) == nil ==> r == nil
  ensures isbytes(first(g)) ==> r == as(first(g), []byte)
  ensures is(first(g), string) ==> string(r) == as(first(g), string)
  ensures first(g) != nil && !isbytes(first(g)) && !is(first(g), string) && !is(first(g), *Graph) ==> string(r) == sprint(first(g))

func (*Graph).ThisBytes(g) (r)
  props C11
  ensures g == nil ==> r == nil
  ensures g != nil && g.This == nil ==> r == nil
  ensures g != nil && isbytes(g.This) ==> r == as(g.This, []byte)
  ensures g != nil && is(g.This, string) ==> string(r) == as(g.This, string)
  ensures g != nil && g.This != nil && !isbytes(g.This) && !is(g.This, string) && !is(g.This, *Graph) ==> string(r) == sprint(g.This)

func (*Graph).Number(g) (r)
  props C11
  ensures r == tonum(first(g))

func (*Graph).ThisNumber(g) (r)
  props C11
  ensures r == (g == nil ? nil : tonum(g.This))

func (*Graph).ThisInt64(g) (n, ok)
  props C11
  ensures g == nil ==> !ok && n == 0
  ensures g != nil && anyint(inner(g.This)) ==> ok && n == w64(intval(inner(g.This)))
  ensures g != nil && istext(inner(g.This)) ==> ok == pintok(text(inner(g.This))) && n == (ok ? pint(text(inner(g.This))) : 0)

func (*Graph).ThisFloat64(g) (f, ok)
  props C11
  ensures g == nil ==> !ok
  ensures g != nil && isfloat(g.This) ==> ok && f == floatval(g.This)
  ensures g != nil && anyint(g.This) ==> ok && f == fofint(w64(intval(g.This)))
  ensures g != nil && !isfloat(g.This) && !anyint(g.This) ==> ok == pfltok(str(g.This)) && (ok ==> f == pflt(str(g.This)))

func (*Graph).Scalar(g) (r)
  props C11
  ensures let n = tonum(first(g)) in n != nil ==> r == n
  ensures let x = first(g) in tonum(x) == nil ==> r == (isboolish(inner(x)) ? box(boolof(inner(x)), bool) : x)

func (*Graph).ThisScalar(g) (r)
  props C11 C13
  ensures g == nil ==> r == nil
  ensures let x = (g == nil || g.This == nil ? first(g) : g.This) in g != nil && tonum(x) != nil ==> r == tonum(x)
  ensures let x = (g == nil || g.This == nil ? first(g) : g.This) in g != nil && tonum(x) == nil ==> r == (isboolish(inner(x)) ? box(boolof(inner(x)), bool) : x)

// the texts of the first k subnodes, joined
spec func csv(g *Graph, k int) string reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = k <= 0 ? "" : k == 1 ? str(g.Out[0].This) : csv(g, k - 1) + ", " + str(g.Out[k-1].This)
spec func spaced(g *Graph, k int) string reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = k <= 0 ? "" : k == 1 ? str(g.Out[0].This) : spaced(g, k - 1) + " " + str(g.Out[k-1].This)

func (*Graph).StringCSV(g, def) (r)
  props C11
  ensures g == nil ==> r == deflt(def, "")
  ensures g != nil ==> r == csv(g, len(g.Out))
  loop
    var i index
    var s string
    invariant g != nil ==> 0 <= i && i <= len(g.Out)
    invariant s == csv(g, i)

func (*Graph).StringTxt(g, def) (r)
  props C11
  ensures g == nil ==> r == deflt(def, "")
  ensures g != nil ==> r == spaced(g, len(g.Out))
  loop
    var i index
    var s string
    invariant g != nil ==> 0 <= i && i <= len(g.Out)
    invariant i == 0 ==> s == ""
    invariant i > 0 ==> s == " " + spaced(g, i)

func (*Graph).Strings(g) (r)
  props C11
  ensures g == nil ==> r == nil
  ensures g != nil ==> len(r) == len(g.Out)
  ensures forall k int :: {mem(r)[k]} g != nil && off(r) <= k && k < off(r) + len(r) ==> mem(r)[k] == str(g.Out[k-off(r)].This)
  loop
    var i index
    var ss []string
    invariant len(ss) == i
    invariant ss == nil || fresh(ss)
    invariant forall k int :: {mem(ss)[k]} off(ss) <= k && k < off(ss) + i ==> mem(ss)[k] == str(g.Out[k-off(ss)].This)
