package ogdl

owned Graph.Out

// no graph in the heap has a nil child
heapinv noholes on Graph reads Graph.Out, mem(*Graph) = forall r *Graph, k int :: {mem(r.Out)[k]} alloc(r) && off(r.Out) <= k && k < off(r.Out) + len(r.Out) ==> mem(r.Out)[k] != nil

// content of the first child, or nil
macro first(g) = g != nil && len(g.Out) != 0 ? g.Out[0].This : nil

// string value of a node's content
spec func str(x interface{}) string reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = x == nil ? "" : isbytes(x) ? string(as(x, []byte)) : is(x, string) ? as(x, string) : is(x, *Graph) ? str(first(as(x, *Graph))) : sprint(x)

func (*Graph).Interface(g) (r)
  props C08 C11
  ensures r == first(g)

func (*Graph).String(g, def) (r)
  props C08 C11
  ensures g == nil && len(def) == 0 ==> r == ""
  ensures g == nil && len(def) != 0 ==> r == def[0]
  ensures g != nil ==> r == str(first(g))

func (*Graph).ThisString(g, def) (r)
  props C08 C11
  ensures g == nil && len(def) == 0 ==> r == ""
  ensures g == nil && len(def) != 0 ==> r == def[0]
  ensures g != nil ==> r == str(g.This)

func _string(i) (r)
  props C08 C11
  ensures r == str(i)
