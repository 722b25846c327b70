// XML import (C20): Simplify. FromXML is decided by a bounded oracle (its tokens are structs in slices, which the engine does not model).

package strings

spec func replaced(s string, a string, b string) string

trusted func ReplaceAll(s, a, b) (r)
  why "strings.ReplaceAll is a function of its operands"
  ensures r == replaced(s, a, b)

package gxml

// the nodes of a set closed under subnodes, where none is below itself
macro ranked() = (forall x *ogdl.Graph :: {ing(x)} ing(x) ==> alloc(x)) && (forall x *ogdl.Graph, k int :: {mem(x.Out)[k]} ing(x) && off(x.Out) <= k && k < off(x.Out) + len(x.Out) ==> ing(mem(x.Out)[k]) && 0 <= rank(mem(x.Out)[k]) && rank(mem(x.Out)[k]) < rank(x))

// only nodes below g change
func Simplify(g)
  props C20
  modifies ogdl.Graph.Out, ogdl.Graph.This, mem(*ogdl.Graph)
  ensures g == nil || old(len(g.Out)) == 0 ==> unchanged(ogdl.Graph.Out, ogdl.Graph.This, mem(*ogdl.Graph))
  ensures old(ranked() && ing(g)) ==> ranked()
  ensures g != nil && old(ranked() && ing(g)) ==> forall x *ogdl.Graph :: {x.Out} alloc0(x) && (!ing(x) || rank(x) >= rank(g)) ==> x.Out == old(x.Out) && mem(x.Out) == old(mem(x.Out))
  ensures g != nil && old(ranked() && ing(g)) ==> forall x *ogdl.Graph :: {x.This} alloc0(x) && (!ing(x) || rank(x) >= rank(g)) ==> x.This == old(x.This)
  loop
    var i index
    invariant 0 <= i
    invariant old(ranked() && ing(g)) ==> ranked()
    invariant g != nil
    invariant i == 0 ==> unchanged(ogdl.Graph.Out, ogdl.Graph.This, mem(*ogdl.Graph))
    invariant old(len(g.Out)) == 0 ==> i == 0
    invariant old(ranked() && ing(g)) ==> g.Out == old(g.Out) && mem(g.Out) == old(mem(g.Out))
    invariant old(ranked() && ing(g)) ==> i <= old(len(g.Out))
    invariant old(ranked() && ing(g)) ==> forall x *ogdl.Graph :: {x.Out} alloc0(x) && (!ing(x) || rank(x) >= rank(g)) ==> x.Out == old(x.Out) && mem(x.Out) == old(mem(x.Out))
    invariant old(ranked() && ing(g)) ==> forall x *ogdl.Graph :: {x.This} alloc0(x) && (!ing(x) || rank(x) >= rank(g)) ==> x.This == old(x.This)
