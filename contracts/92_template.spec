// Templates (C15).

package ogdl

// the type of a template node; text has none
macro ttype(n) = n == nil || isbytes(n.This) ? "" : str(n.This)
macro fixed(n) = let t = ttype(n) in t != "!p" && t != "!e" && t != "!if" && t != "!elseif" && t != "!else" && t != "!for" && t != "!break"

func (*Graph).templateType(g) (r)
  props C15
  ensures r == ttype(g)


// the texts of the nodes of g up to k
spec func texts(g *Graph, k int) string reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = k <= 0 || k > len(g.Out) || g == nil ? "" : texts(g, k - 1) + str(g.Out[k-1].This)

// the first k nodes are text
macro fixedto(g, k) = forall j int :: {mem(g.Out)[j]} off(g.Out) <= j && j < off(g.Out) + k ==> fixed(mem(g.Out)[j])

func (*Graph).process(g, c, buffer) (r)
  props C15
  requires buffer != nil
  modifies Graph.Out, Graph.This, mem(*Graph), catp, stepat, stepix, bufstr[buffer]
  ensures g == nil || old(len(g.Out)) == 0 ==> !r && bufstr(buffer) == old(bufstr(buffer)) && unchanged(Graph.Out, Graph.This, mem(*Graph))
  ensures g != nil && old(fixedto(g, len(g.Out))) ==> !r && bufstr(buffer) == old(bufstr(buffer)) + old(texts(g, len(g.Out))) && unchanged(Graph.Out, Graph.This, mem(*Graph))
  loop 1
    var i index
    invariant 0 <= i && g != nil && buffer != nil
    invariant old(len(g.Out)) == 0 ==> i == 0
    invariant i == 0 ==> unchanged(Graph.Out, Graph.This, mem(*Graph)) && bufstr(buffer) == old(bufstr(buffer))
    invariant old(fixedto(g, len(g.Out))) ==> i <= old(len(g.Out)) && bufstr(buffer) == old(bufstr(buffer)) + old(texts(g, i)) && unchanged(Graph.Out, Graph.This, mem(*Graph))

func (*Graph).Process(g, ctx) (r)
  props C15
  modifies Graph.Out, Graph.This, mem(*Graph), catp, stepat, stepix
  ensures g != nil && old(fixedto(g, len(g.Out))) ==> string(r) == old(texts(g, len(g.Out)))
