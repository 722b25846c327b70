// Text output (C06).

package strings

trusted func ContainsAny(s, chars) (r)
  why "strings.ContainsAny says whether a character of chars is in s (chars are ASCII here)"
  ensures r ==> exists i int, k int :: 0 <= i && i < len(s) && 0 <= k && k < len(chars) && s[i] == chars[k]

spec func replacedn(s string, a string, b string, n int) string

trusted func Replace(s, a, b, n) (r)
  why "strings.Replace is a function of its operands"
  ensures r == replacedn(s, a, b, n)

macro endsin(s, t) = len(s) > 0 && s[len(s)-1] == t[0]

trusted func HasSuffix(s, t) (r)
  why "strings.HasSuffix compares the end of s"
  ensures r ==> len(t) <= len(s)
  ensures len(t) == 1 ==> r == endsin(s, t)

trusted func HasPrefix(s, t) (r)
  why "strings.HasPrefix compares the start of s"
  ensures r ==> len(t) <= len(s)
  ensures len(t) == 1 ==> r == (len(s) > 0 && s[0] == t[0])

trusted func TrimSuffix(s, t) (r)
  why "strings.TrimSuffix takes off one suffix"
  ensures len(r) <= len(s)
  ensures len(t) == 1 && !endsin(s, t) ==> r == s
  ensures len(t) == 1 && endsin(s, t) ==> len(r) == len(s) - 1 && (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == s[i])

trusted func TrimPrefix(s, t) (r)
  why "strings.TrimPrefix takes off one prefix"
  ensures len(r) <= len(s)
  ensures len(t) == 1 && !(len(s) > 0 && s[0] == t[0]) ==> r == s
  ensures len(t) == 1 && len(s) > 0 && s[0] == t[0] ==> len(r) == len(s) - 1 && (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == s[i+1])

spec func repeated(s string, n int) string = n <= 0 ? "" : repeated(s, n - 1) + s

trusted func Repeat(s, n) (r)
  why "strings.Repeat is n copies of the text"
  requires n >= 0
  ensures r == repeated(s, n)

package ogdl

// a word that needs no quotes
macro special(c) = c == 10 || c == 13 || c == ' ' || c == 9 || c == 39 || c == '"' || c == ',' || c == '(' || c == ')'
spec func simple(s string) bool = len(s) > 0 && (forall i int :: {s[i]} 0 <= i && i < len(s) ==> !special(s[i]))
// every node holds such a word
macro words() = forall x *Graph :: {x.This} simple(str(x.This))
spec func textual(z int) bool reads Graph.Out, Graph.This, mem(*Graph), mem(byte) = acyclic() && words()

macro wordof(g) = g == nil ? "_" : str(g.This)
// a node is a line with its word, indented by its level, followed by its subnodes
spec func textline(g *Graph, n int) string reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = repeated("  ", n) + wordof(g) + chr(10) + (g == nil ? "" : tlines(g, w64(n + 1), len(g.Out)))
spec func tlines(g *Graph, n int, k int) string reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = k <= 0 || k > len(g.Out) || g == nil || !(0 <= rank(g.Out[k-1]) && rank(g.Out[k-1]) < rank(g)) ? "" : tlines(g, n, k - 1) + textline(g.Out[k-1], n)

func (*Graph)._text(g, n, buffer, show)
  props C06
  requires buffer != nil
  modifies bufstr[buffer]
  ensures old(textual(0)) ==> bufstr(buffer) == old(bufstr(buffer)) + old(textline(g, n))
  ensures old(textual(0)) ==> let s = bufstr(buffer) in len(s) >= len(old(bufstr(buffer))) + 2 && s[len(s)-1] == 10
  loop 1
    var i index
    invariant 0 <= i && (n < 0 ? i == 0 : i <= n)
    invariant cur(sp) == repeated("  ", i)
  loop
    var i index
    invariant 0 <= i
  loop last
    var i index
    invariant old(textual(0)) && g != nil ==> bufstr(buffer) == entry(bufstr(buffer)) + tlines(g, w64(n + 1), i)
    invariant old(textual(0)) ==> cur(n) == n
    invariant g != nil && 0 <= i && i <= len(g.Out)
    invariant old(textual(0)) ==> let s = bufstr(buffer) in len(s) >= len(old(bufstr(buffer))) + 2 && s[len(s)-1] == 10

// the text without the end of its last line
macro textof(r, s) = len(r) == len(s) - 1 && (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == s[i])

func (*Graph).Text(g) (r)
  props C06 C15
  ensures g == nil || len(g.Out) == 0 ==> r == ""
  ensures g != nil && len(g.Out) > 0 && old(textual(0)) ==> textof(r, tlines(g, 0, len(g.Out)))
  loop
    var i index
    invariant 0 <= i && i <= len(g.Out)
    invariant len(g.Out) == 0 ==> bufstr(cur(buffer)) == ""
    invariant old(textual(0)) ==> bufstr(cur(buffer)) == tlines(g, 0, i)
    invariant old(textual(0)) && i == 0 ==> bufstr(cur(buffer)) == ""
    invariant old(textual(0)) && i > 0 ==> let s = bufstr(cur(buffer)) in len(s) > 1 && s[len(s)-1] == 10 && s[0] != 34

func (*Graph).Show(g) (r)
  props C06
  ensures g == nil ==> r == ""
  ensures g != nil && old(textual(0)) ==> textof(r, textline(g, 0))
