// Schema check (C16).

package reflect

// the name of the dynamic type of a value
spec func typename(x interface{}) string
spec func typehandle(x interface{}) interface{}
spec func handlename(x interface{}) string

trusted func TypeOf(x) (r)
  why "reflect.TypeOf returns the dynamic type of a value, which is not nil when the value is not nil"
  ensures x != nil ==> r != nil && handlename(r) == typename(x)

trusted func Type.String(t) (r)
  why "reflect.Type.String gives the name of the type; string and []uint8 are the names of the predeclared string type and of byte slices and of no other type"
  ensures r == handlename(t)

package ogdl

axiom typenames why "names of types as given by package reflect"
  = forall x interface{} :: {typename(x)} x != nil ==> (typename(x) == "string") == is(x, string) && (typename(x) == "[]uint8") == isbytes(x)

func (*Graph).ThisType(g) (r)
  props C16
  ensures g == nil || g.This == nil ==> r == ""
  ensures g != nil && g.This != nil ==> (r == "string") == is(g.This, string) && (r == "[]uint8") == isbytes(g.This)

macro thistext(g) = g == nil ? "" : str(g.This)

// what one schema node asks of its counterpart
macro convint(v) = let x = inner(v) in anyint(x) || isfloat(x) || istext(x) && pintok(text(x))
macro convflt(x) = anyint(x) || isfloat(x) || pfltok(str(x))
macro convbool(v) = isboolish(inner(v))
spec func asks(sc string, x *Graph) bool reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = len(sc) == 0 || sc[0] != '!' ? str(x.This) == sc : sc == "!float" ? convflt(x.This) : sc == "!int" ? (convint(x.This)) : sc == "!bool" ? convbool(x.This) : sc == "!string" ? is(x.This, string) : sc == "!binary" ? isbytes(x.This) : false

func (*Graph).checkNode(g, x) (r)
  props C16
  ensures r == (g != nil && x != nil && asks(str(g.This), x))

// the schema nodes from k on have conforming counterparts, recursively
spec func conforms(g *Graph, x *Graph, k int) bool reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = k < 0 || g == nil || k >= len(g.Out) || !(0 <= rank(g.Out[k]) && rank(g.Out[k]) < rank(g)) ? true : x != nil && k < len(x.Out) && asks(str(g.Out[k].This), x.Out[k]) && conforms(g.Out[k], x.Out[k], 0) && conforms(g, x, k + 1)

func (*Graph).Check(g, x) (r, s)
  props C16
  ensures acyclic() ==> r == conforms(g, x, 0)
  ensures !r ==> s != ""
  loop
    var i int
    invariant 0 <= i && (g == nil || i <= len(g.Out))
    invariant acyclic() ==> conforms(g, x, 0) == conforms(g, x, i)
