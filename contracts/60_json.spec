// JSON output (C17).

package fmt

spec func sprintf1(f string, x interface{}) string

trusted func Sprintf(f, a) (r)
  why "fmt.Sprintf of one operand is a function of the format and the operand; it does not panic (fmt recovers) and does not modify modelled state"
  ensures len(a) == 1 ==> r == sprintf1(f, a[0])

package ogdl

// an escaped character, and the first k characters of a text, escaped
macro jchar(c) = c == '"' || c == 92 ? chr(92) + chr(c) : c < 32 ? sprintf1("\\u%04x", box(c, uint8)) : chr(c)
spec func jesc(s string, k int) string = k <= 0 || k > len(s) ? "" : jesc(s, k - 1) + jchar(s[k-1])
macro jstr(s) = chr('"') + jesc(s, len(s)) + chr('"') + chr(' ')

func (*Graph).writeString(g, buf)
  props C17
  requires buf != nil
  modifies bufstr[buf]
  ensures bufstr(buf) == old(bufstr(buf)) + jstr((g == nil ? "" : str(g.This)))
  loop
    var i index
    invariant 0 <= i && i <= len(g == nil ? "" : str(g.This))
    invariant bufstr(buf) == old(bufstr(buf)) + chr('"') + jesc(g == nil ? "" : str(g.This), i)

// a value: numbers as numbers, everything else as text
macro jval(x, s) = anyint(x) ? sprintf1("%d ", box(w64(intval(x)), int64)) : isfloat(x) ? sprintf1("%f ", box(floatval(x), float64)) : jstr(s)

func (*Graph).writeValue(g, buf)
  props C17
  requires buf != nil && g != nil
  modifies bufstr[buf]
  ensures bufstr(buf) == old(bufstr(buf)) + jval(g.This, str(g.This))

macro jtext(g) = len(g.Out) == 0 ? jval(g.This, cbytes(g.This)) : cbytes(g.This) == "_" ? "[ " + jitems(g, len(g.Out)) + chr(']') : len(g.Out) > 1 ? "{ " + jitems(g, len(g.Out)) + chr('}') : jitems(g, len(g.Out))
macro jitem(n) = len(n.Out) == 1 ? jstr(cbytes(n.This)) + ": " + jtext(n) : jtext(n)
// the first k subnodes, separated by commas
spec func jitems(g *Graph, k int) string reads Graph.Out, Graph.This, mem(*Graph)
  = k <= 0 || k > len(g.Out) || g == nil || !(0 <= rank(g.Out[k-1]) && rank(g.Out[k-1]) < rank(g)) ? "" : jitems(g, k - 1) + (k > 1 ? ", " : "") + jitem(g.Out[k-1])

func (*Graph).json(g, buf)
  props C17
  requires buf != nil && g != nil
  modifies bufstr[buf]
  ensures old(acyclic() && plain()) ==> bufstr(buf) == old(bufstr(buf)) + jtext(g)
  loop
    var i index
    var comma bool
    invariant comma == (i > 0)
  loop
    var i index
    invariant 0 <= i && i <= len(g.Out)
    invariant old(acyclic() && plain()) ==> bufstr(buf) == entry(bufstr(buf)) + jitems(g, i)

func (*Graph).JSON(g) (r)
  props C17
  modifies Graph.This[g]
  ensures g == nil ==> r == nil
  // the graph is left as it was
  ensures g != nil ==> g.This == old(g.This)
  // and the text is that of the graph with an empty root
  ensures g != nil && old(acyclic() && plain()) ==> with(Graph.This, g, box("", string), string(r) == jtext(g))
