// Sorting (C18).

package strings

trusted func Compare(a, b) (r)
  why "strings.Compare is -1, 0 or 1 as a is before, equal to or after b in the order of strings"
  ensures r == (strlt(a, b) ? 0 - 1 : a == b ? 0 : 1)

package ogdl

macro filled(a) = forall k int :: {mem(a)[k]} off(a) <= k && k < off(a) + len(a) ==> mem(a)[k] != nil

func stringSorter.Len(g) (r)
  props C18
  ensures r == len(g.array)

func stringSorter.Swap(g, i, j)
  props C18
  requires filled(g.array)
  requires 0 <= i && i < len(g.array) && 0 <= j && j < len(g.array)
  modifies mem(*Graph)[base(g.array)]
  ensures mem(g.array) == store(store(old(mem(g.array)), off(g.array) + i, old(g.array[j])), off(g.array) + j, old(g.array[i]))

func intSorter.Len(g) (r)
  props C18
  ensures r == len(g.array)

func intSorter.Swap(g, i, j)
  props C18
  requires filled(g.array)
  requires 0 <= i && i < len(g.array) && 0 <= j && j < len(g.array)
  modifies mem(*Graph)[base(g.array)]
  ensures mem(g.array) == store(store(old(mem(g.array)), off(g.array) + i, old(g.array[j])), off(g.array) + j, old(g.array[i]))

// the content that a path leads to
spec func pathval(g *Graph, s string) interface{} reads Graph.Out, Graph.This, mem(*Graph), mem(byte)

trusted func (*Graph).Get(g, s) (r)
  why "path lookup is a function of the graph and the path text (decided by C12; functions registered in the graph are out of scope) and does not change the graph"
  ensures g == nil ==> r == nil
  ensures first(r) == pathval(g, s)

func stringSorter.Less(g, i, j) (r)
  props C18
  requires 0 <= i && i < len(g.array) && 0 <= j && j < len(g.array)
  ensures r == strlt(str(pathval(g.array[i], g.fields)), str(pathval(g.array[j], g.fields)))

macro ival(x) = anyint(x) ? w64(intval(x)) : is(x, float64) ? ftoint(6, as(x, float64)) : is(x, float32) ? ftoint(6, as(x, float32)) : istext(x) && pintok(text(x)) ? pint(text(x)) : 0

func intSorter.Less(g, i, j) (r)
  props C18
  requires 0 <= i && i < len(g.array) && 0 <= j && j < len(g.array)
  ensures r == (ival(inner(pathval(g.array[i], g.fields))) < ival(inner(pathval(g.array[j], g.fields))))

package sort

macro sarray(x) = is(x, ogdl.stringSorter) ? as(x, ogdl.stringSorter).array : as(x, ogdl.intSorter).array
macro sbefore(x, f, a, b) = is(x, ogdl.stringSorter) ? strlt(str(pathval(a, f)), str(pathval(b, f))) : ival(inner(pathval(a, f))) < ival(inner(pathval(b, f)))
macro sfield(x) = is(x, ogdl.stringSorter) ? as(x, ogdl.stringSorter).fields : as(x, ogdl.intSorter).fields

// where the element that the last sort put at i comes from, and the inverse
ghost sperm int -> int
ghost sinv int -> int

macro perm(n) = (forall i int :: {sperm(i)} 0 <= i && i < n ==> 0 <= sperm(i) && sperm(i) < n && sinv(sperm(i)) == i) && (forall i int :: {sinv(i)} 0 <= i && i < n ==> 0 <= sinv(i) && sinv(i) < n && sperm(sinv(i)) == i)

trusted func Sort(x)
  keepsinv
  why "sort.Sort permutes the elements with Swap until no element is before an earlier one according to Less; the keys of the elements do not depend on their order in the list (they lie below the list)"
  requires is(x, ogdl.stringSorter) || is(x, ogdl.intSorter)
  requires filled(sarray(x))
  modifies mem(*ogdl.Graph)[base(sarray(x))], sperm, sinv
  ensures let a = sarray(x) in forall i int :: {mem(a)[i]} mem(a)[i] == (off(a) <= i && i < off(a) + len(a) ? old(mem(a))[off(a) + sperm(i - off(a))] : old(mem(a))[i])
  ensures filled(sarray(x))
  ensures perm(len(sarray(x)))
  ensures let a = sarray(x) in forall i, j int :: {mem(a)[i], mem(a)[j]} off(a) <= i && i < j && j < off(a) + len(a) ==> !sbefore(x, sfield(x), mem(a)[j], mem(a)[i])

package ogdl

// the subnodes are those of before, in another order
macro samelist(g) = len(g.Out) == old(len(g.Out)) && perm(len(g.Out))
macro permuted(g) = forall i int :: {mem(g.Out)[i]} off(g.Out) <= i && i < off(g.Out) + len(g.Out) ==> mem(g.Out)[i] == old(mem(g.Out))[old(off(g.Out)) + sperm(i - off(g.Out))]
macro keytext(x, f) = str(pathval(x, f))
macro keyint(x, f) = ival(inner(pathval(x, f)))
macro sortedtext(g, f) = forall i, j int :: {mem(g.Out)[i], mem(g.Out)[j]} off(g.Out) <= i && i < j && j < off(g.Out) + len(g.Out) ==> !strlt(keytext(mem(g.Out)[j], f), keytext(mem(g.Out)[i], f))
macro sortedint(g, f) = forall i, j int :: {mem(g.Out)[i], mem(g.Out)[j]} off(g.Out) <= i && i < j && j < off(g.Out) + len(g.Out) ==> keyint(mem(g.Out)[i], f) <= keyint(mem(g.Out)[j], f)

func (*Graph).Sort(g, field)
  props C18
  requires g != nil
  modifies Graph.Out[g], mem(*Graph)[base(g.Out)], sperm, sinv
  ensures samelist(g)
  ensures permuted(g)
  ensures sortedtext(g, field)

func (*Graph).SortAsString(g, field)
  props C18
  requires g != nil
  modifies Graph.Out[g], mem(*Graph)[base(g.Out)], sperm, sinv
  ensures samelist(g)
  ensures permuted(g)
  ensures sortedtext(g, field)

func (*Graph).SortAsInt(g, field)
  props C18
  requires g != nil
  modifies Graph.Out[g], mem(*Graph)[base(g.Out)], sperm, sinv
  ensures samelist(g)
  ensures permuted(g)
  ensures sortedint(g, field)
