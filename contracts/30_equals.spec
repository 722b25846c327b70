package ogdl

// structural equality of two trees
spec func eqg(g *Graph, c *Graph) bool reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = g == nil || c == nil ? g == c : same(c.This, g.This) && len(g.Out) == len(c.Out) && (forall i int :: 0 <= i && i < len(g.Out) ==> eqg(g.Out[i], c.Out[i]))

// the contents that Equals compares can be compared (no maps, functions or slices other than []byte)
spec func cmpg(g *Graph, c *Graph) bool reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = g == nil || c == nil || (isbytes(g.This) || isbytes(c.This) || comparable2(c.This, g.This)) && (len(g.Out) == len(c.Out) ==> forall i int :: 0 <= i && i < len(g.Out) ==> cmpg(g.Out[i], c.Out[i]))

func (*Graph).Equals(g, c) (r)
  props C09
  requires [contents are comparable] cmpg(g, c)
  ensures r == eqg(g, c)
  loop
    var i index
    invariant 0 <= i
    invariant forall k int :: 0 <= k && k < i ==> eqg(g.Out[k], c.Out[k])

// the node that a node was cloned from
ghost orig *Graph -> *Graph zeroed

// every node made by this call that is a clone mirrors its original: same
// content, as many subnodes, and each subnode is itself such a clone of the
// corresponding subnode of the original
macro mirrors() = forall f *Graph :: {orig(f)} fresh(f) && alloc(f) && orig(f) != nil ==> f.This == orig(f).This && len(f.Out) == len(orig(f).Out)
macro mirrorsub() = forall f *Graph, k int :: {mem(f.Out)[k], orig(f)} fresh(f) && alloc(f) && orig(f) != nil && off(f.Out) <= k && k < off(f.Out) + len(f.Out) ==> fresh(mem(f.Out)[k]) && orig(mem(f.Out)[k]) != nil && orig(mem(f.Out)[k]) == mem(orig(f).Out)[off(orig(f).Out) + k - off(f.Out)]

// insub is an arbitrary set of nodes (nothing is known about it). within(b, all)
// says that below address b the set (or, if all, the heap) is closed under
// subnodes, so it holds whole subtrees
spec func insub(x *Graph) bool
spec func within(b int, all bool) bool reads Graph.Out, mem(*Graph)
  = forall x *Graph, k int :: {mem(x.Out)[k]} (all || insub(x)) && 0 < ref(x) && ref(x) < b && off(x.Out) <= k && k < off(x.Out) + len(x.Out) ==> ref(mem(x.Out)[k]) < b && (all || insub(mem(x.Out)[k]))

// the originals lie in any closed part of the heap that g lies in (so they are not clones themselves)
macro origin(g) = forall b int, all bool, f *Graph :: {old(within(b, all)), orig(f)} b <= old(next()) && old(within(b, all)) && ref(g) < b && (all || insub(g)) && fresh(f) && alloc(f) && orig(f) != nil ==> ref(orig(f)) < b && (all || insub(orig(f)))

func (*Graph).Clone(g) (r)
  props C09
  set orig[r] := g
  ensures g == nil ==> r == nil
  ensures g != nil ==> fresh(r) && orig(r) == g
  ensures mirrors()
  ensures mirrorsub()
  ensures origin(g)
  ensures forall f *Graph :: {orig(f)} fresh(f) && alloc(f) && orig(f) != nil ==> !fresh(orig(f))
  loop
    var i index
    invariant fresh(c) && c.This == g.This
    invariant len(c.Out) == i
    invariant forall k int :: 0 <= k && k < i ==> fresh(c.Out[k])
    invariant forall k int :: 0 <= k && k < i ==> orig(c.Out[k]) != nil
    invariant forall k int :: 0 <= k && k < i ==> orig(c.Out[k]) == g.Out[k]
    invariant mirrors()
    invariant mirrorsub()
    invariant origin(g)
    invariant old(within(next(), true))
    invariant forall b int, all bool :: {old(within(b, all))} b <= old(next()) && old(within(b, all)) ==> within(b, all)

// the graph copied does not contain the receiver (insub stands for any set of nodes that holds c and not g)
func (*Graph).Copy(g, c)
  props C09
  requires [the receiver is not part of the graph copied] g != nil && c != nil ==> within(next(), false) && insub(c) && !insub(g)
  modifies Graph.Out[g], mem(*Graph)[base(g.Out)]
  ensures g != nil && c == nil ==> g.Out == old(g.Out) && mem(g.Out) == old(mem(g.Out))
  ensures g != nil && c != nil ==> len(g.Out) == len(old(g.Out)) + len(c.Out)
  ensures g != nil && c != nil ==> forall i int :: 0 <= i && i < len(old(g.Out)) ==> g.Out[i] == old(g.Out[i])
  ensures g != nil && c != nil ==> forall i int :: 0 <= i && i < len(c.Out) ==> fresh(g.Out[len(old(g.Out)) + i]) && orig(g.Out[len(old(g.Out)) + i]) == c.Out[i]
  ensures mirrors()
  ensures mirrorsub()
  ensures forall f *Graph :: {orig(f)} fresh(f) && alloc(f) && orig(f) != nil ==> !fresh(orig(f))
  loop
    var i index
    invariant len(g.Out) == len(old(g.Out)) + i
    invariant forall k int :: 0 <= k && k < len(old(g.Out)) ==> g.Out[k] == old(g.Out[k])
    invariant forall k int :: 0 <= k && k < i ==> fresh(g.Out[len(old(g.Out)) + k]) && orig(g.Out[len(old(g.Out)) + k]) == c.Out[k]
    invariant old(within(next(), false))
    invariant within(old(next()), false)
    invariant base(g.Out) == base(old(g.Out)) || base(g.Out) >= old(next())
    invariant forall f *Graph :: {orig(f)} fresh(f) && alloc(f) && orig(f) != nil ==> ref(orig(f)) < old(next()) && insub(orig(f))
    invariant mirrors()
    invariant mirrorsub()
