package ogdl

func New(n) (r)
  expand
  props C08
  ensures fresh(r)
  ensures r.This == n && r.Out == nil

func (*Graph).Len(g) (r)
  expand
  props C08
  ensures g == nil ==> r == -1
  ensures g != nil ==> r == len(g.Out)

func (*Graph).GetAt(g, i) (r)
  expand
  props C08
  ensures g != nil && 0 <= i && i < len(g.Out) ==> r == g.Out[i]
  ensures !(g != nil && 0 <= i && i < len(g.Out)) ==> r == nil

// n is the subnode that Add(n) inserts
macro isGraph(n) = is(n, *Graph) && as(n, *Graph) != nil

func (*Graph).Add(g, n) (r)
  props C08
  modifies Graph.Out[g], mem(*Graph)[base(g.Out)]
  ensures g == nil || n == nil ==> r == nil && g.Out == old(g.Out) && mem(g.Out) == old(mem(g.Out))
  ensures g != nil && n != nil ==> len(g.Out) == len(old(g.Out)) + 1
  ensures g != nil && n != nil ==> g.Out[len(old(g.Out))] == r
  ensures g != nil ==> base(g.Out) == old(base(g.Out)) || base(g.Out) >= old(next())
  ensures g != nil && n != nil ==> forall i int :: 0 <= i && i < len(old(g.Out)) ==> g.Out[i] == old(g.Out[i])
  ensures g != nil && n != nil && isGraph(n) ==> r == as(n, *Graph)
  ensures g != nil && n != nil && !isGraph(n) ==> fresh(r) && r.This == n && r.Out == nil

func (*Graph).AddNodes(g, g2) (r)
  props C08
  modifies Graph.Out[g], mem(*Graph)[base(g.Out)]
  ensures g == nil || g2 == nil ==> r == nil && (g != nil ==> g.Out == old(g.Out) && mem(g.Out) == old(mem(g.Out)))
  ensures g != nil ==> base(g.Out) == old(base(g.Out)) || base(g.Out) >= old(next())
  ensures g != nil && g2 != nil ==> r == g && len(g.Out) == len(old(g.Out)) + len(old(g2.Out))
  ensures g != nil && g2 != nil ==> forall k int :: {mem(g.Out)[k]} off(g.Out) <= k && k < off(g.Out) + len(old(g.Out)) ==> mem(g.Out)[k] == old(mem(g.Out))[k - off(g.Out) + old(off(g.Out))]
  ensures g != nil && g2 != nil ==> forall k int :: {mem(g.Out)[k]} off(g.Out) + len(old(g.Out)) <= k && k < off(g.Out) + len(g.Out) ==> mem(g.Out)[k] == old(mem(g2.Out))[k - off(g.Out) - len(old(g.Out)) + old(off(g2.Out))]

// position of the first subnode of g from position j on whose text is s, or -1
spec func nidx(g *Graph, s string, j int) int reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = j < 0 || j >= len(g.Out) ? 0 - 1 : str(g.Out[j].This) == s ? j : nidx(g, s, j + 1)

func (*Graph).Node(g, s) (r)
  props C08 C12
  ensures g != nil ==> nidx(g, s, 0) >= 0 - 1 && (r != nil) == (nidx(g, s, 0) >= 0)
  ensures g != nil && r != nil ==> let i = nidx(g, s, 0) in 0 <= i && i < len(g.Out) && r == g.Out[i] && str(r.This) == s && (forall k int :: {mem(g.Out)[k]} off(g.Out) <= k && k < off(g.Out) + i ==> str(mem(g.Out)[k].This) != s)
  ensures g == nil ==> r == nil
  ensures r != nil ==> exists i int :: 0 <= i && i < len(g.Out) && r == g.Out[i] && str(r.This) == s && (forall j int :: 0 <= j && j < i ==> str(g.Out[j].This) != s)
  ensures g != nil && r == nil ==> forall k int :: {mem(g.Out)[k]} off(g.Out) <= k && k < off(g.Out) + len(g.Out) ==> str(mem(g.Out)[k].This) != s
  loop
    var i index
    invariant forall j int :: 0 <= j && j < i ==> str(g.Out[j].This) != s
    invariant nidx(g, s, 0) == nidx(g, s, i)

func (*Graph).Clear(g)
  props C08
  modifies Graph.Out[g]
  ensures g != nil ==> g.Out == nil

func (*Graph).DeleteAt(g, i)
  props C08
  modifies Graph.Out[g], mem(*Graph)[base(g.Out)]
  ensures g != nil && 0 <= i && i < len(old(g.Out)) ==> len(g.Out) == len(old(g.Out)) - 1 && (forall j int :: 0 <= j && j < len(g.Out) ==> g.Out[j] == old(g.Out[j < i ? j : j+1]))
  ensures g != nil && !(0 <= i && i < len(old(g.Out))) ==> g.Out == old(g.Out) && mem(g.Out) == old(mem(g.Out))
  ensures g != nil ==> base(g.Out) == old(base(g.Out))

func (*Graph).addNodes(g, n) (r)
  props C08
  modifies Graph.Out[g], mem(*Graph)[base(g.Out)]
  ensures g == nil || n == nil ==> r == nil && g.Out == old(g.Out) && mem(g.Out) == old(mem(g.Out))
  ensures g != nil && n != nil && isGraph(n) ==> r == as(n, *Graph) && len(g.Out) == len(old(g.Out)) + len(old(as(n, *Graph).Out))
  ensures g != nil && n != nil && isGraph(n) ==> forall i int :: 0 <= i && i < len(old(as(n, *Graph).Out)) ==> g.Out[len(old(g.Out)) + i] == old(as(n, *Graph).Out[i])
  ensures g != nil && n != nil && !isGraph(n) ==> len(g.Out) == len(old(g.Out)) + 1 && g.Out[len(old(g.Out))] == r && fresh(r) && r.This == n && r.Out == nil
  ensures g != nil && n != nil ==> forall i int :: 0 <= i && i < len(old(g.Out)) ==> g.Out[i] == old(g.Out[i])

func (*Graph).NodeOrNew(g, s) (r)
  props C08
  modifies Graph.Out[g], mem(*Graph)[base(g.Out)]
  ensures g == nil ==> r == nil
  ensures g != nil && !fresh(r) ==> g.Out == old(g.Out) && mem(g.Out) == old(mem(g.Out))
  ensures g != nil && !fresh(r) ==> exists i int :: 0 <= i && i < len(old(g.Out)) && r == old(g.Out[i]) && old(str(g.Out[i].This)) == s && (forall j int :: 0 <= j && j < i ==> old(str(g.Out[j].This)) != s)
  ensures g != nil && fresh(r) ==> (forall j int :: 0 <= j && j < len(old(g.Out)) ==> old(str(g.Out[j].This)) != s)
  ensures g != nil && fresh(r) ==> len(g.Out) == len(old(g.Out)) + 1 && g.Out[len(old(g.Out))] == r && r.This == box(s, string) && r.Out == nil
  ensures g != nil ==> forall j int :: 0 <= j && j < len(old(g.Out)) ==> g.Out[j] == old(g.Out[j])
  loop
    var i index
    invariant forall j int :: 0 <= j && j < i ==> str(g.Out[j].This) != s

func (*Graph).NodeSet(g, s, v) (r)
  props C08
  modifies Graph.Out, mem(*Graph)[base(g.Out)]
  ensures g == nil || v == nil ==> r == nil
  ensures g != nil ==> forall j int :: 0 <= j && j < len(old(g.Out)) && (forall k int :: 0 <= k && k < j ==> old(str(g.Out[k].This)) != s) && old(str(g.Out[j].This)) == s && old(g.Out[j]) != g ==> g.Out == old(g.Out) && ncont(g.Out[j], v, r) && (forall x *Graph :: {x.Out} alloc(x) && !fresh(x) && x != old(g.Out[j]) ==> x.Out == old(x.Out)) && mem(g.Out) == old(mem(g.Out))
  ensures g != nil && (forall k int :: 0 <= k && k < len(old(g.Out)) ==> old(str(g.Out[k].This)) != s) ==> len(g.Out) == len(old(g.Out)) + 1 && ncont(g.Out[len(old(g.Out))], v, r) && g.Out[len(old(g.Out))].This == box(s, string)

// n holds exactly the value v
macro ncont(n, v, r) = v == nil ? len(n.Out) == 0 : (len(n.Out) == 1 && n.Out[0] == r && (isGraph(v) ? r == as(v, *Graph) : r.This == v))

func (*Graph).Create(g, s) (r)
  props C08
  modifies Graph.Out, mem(*Graph)[base(g.Out)]
  ensures g == nil ==> r == nil
  ensures g != nil ==> r != nil && old(str(r.This)) == s && len(r.Out) == 0
  ensures g != nil && !fresh(r) && r != g ==> g.Out == old(g.Out) && mem(g.Out) == old(mem(g.Out))
  ensures g != nil && !fresh(r) ==> exists i int :: 0 <= i && i < len(old(g.Out)) && r == old(g.Out[i]) && (forall j int :: 0 <= j && j < i ==> old(str(g.Out[j].This)) != s)
  ensures g != nil && fresh(r) ==> len(g.Out) == len(old(g.Out)) + 1 && g.Out[len(old(g.Out))] == r
  ensures g != nil && fresh(r) ==> forall j int :: 0 <= j && j < len(old(g.Out)) ==> g.Out[j] == old(g.Out[j]) && old(str(g.Out[j].This)) != s

// equality of node contents: binary contents by value, others with Go's ==
spec func same(a interface{}, b interface{}) bool reads mem(byte)
  = isbytes(a) ? isbytes(b) && string(as(a, []byte)) == string(as(b, []byte)) : !isbytes(b) && a == b

func sameContent(a, b) (r)
  props C08 C09
  requires [contents are comparable] isbytes(a) || isbytes(b) || comparable2(a, b)
  ensures r == same(a, b)

// number of subnodes among the first j of g whose content is not n
spec func kept(g *Graph, n interface{}, j int) int reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = j <= 0 ? 0 : kept(g, n, j - 1) + (same(g.Out[j - 1].This, n) ? 0 : 1)

func (*Graph).Delete(g, n)
  props C08
  requires [contents are comparable] forall i int :: 0 <= i && i < len(g.Out) ==> isbytes(g.Out[i].This) || isbytes(n) || comparable2(g.Out[i].This, n)
  modifies Graph.Out[g], mem(*Graph)[base(g.Out)]
  ensures g != nil ==> len(g.Out) == old(kept(g, n, len(g.Out)))
  ensures g != nil ==> forall j int :: 0 <= j && j < len(old(g.Out)) && !old(same(g.Out[j].This, n)) ==> g.Out[old(kept(g, n, j))] == old(g.Out[j])
  loop
    var i index
    invariant 0 <= i && i <= len(g.Out) && len(g.Out) <= len(old(g.Out))
    invariant base(g.Out) == base(old(g.Out))
    invariant let d = len(old(g.Out)) - len(g.Out) in i == old(kept(g, n, i + d))
    invariant let d = len(old(g.Out)) - len(g.Out) in (forall j int :: 0 <= j && j < i + d && !old(same(g.Out[j].This, n)) ==> g.Out[old(kept(g, n, j))] == old(g.Out[j]) && 0 <= old(kept(g, n, j)) && old(kept(g, n, j)) < i)
    invariant let d = len(old(g.Out)) - len(g.Out) in (forall j int :: i <= j && j < len(g.Out) ==> g.Out[j] == old(g.Out[j + d]))
