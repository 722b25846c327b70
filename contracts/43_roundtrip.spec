// What Binary writes is what FromBinary reads: the events are those of the graph, in order.

package ogdl

// numbers of nodes and of nodes with content under the first k subnodes of g
macro leaf(g, k) = k <= 0 || k > len(g.Out) || g == nil || !(0 <= rank(g.Out[k-1]) && rank(g.Out[k-1]) < rank(g))
spec func nodes(g *Graph, k int) int reads Graph.Out, Graph.This, mem(*Graph)
  = leaf(g, k) ? 0 : let a = nodes(g, k - 1) in let b = nodes(g.Out[k-1], len(g.Out[k-1].Out)) in (a < 0 ? 0 : a) + 1 + (b < 0 ? 0 : b)
spec func ecnt(g *Graph, k int) int reads Graph.Out, Graph.This, mem(*Graph)
  = leaf(g, k) ? 0 : let c = g.Out[k-1] in ecnt(g, k - 1) + (cbytes(c.This) == "" ? 0 : 1) + ecnt(c, len(c.Out))

// the events of h from number i on are the nodes with content under the first k subnodes of g, which stand at level lv
spec func evs(h *SimpleEventHandler, g *Graph, lv int, k int, i int) bool reads Graph.Out, Graph.This, mem(*Graph), SimpleEventHandler.items, SimpleEventHandler.levels, mem(interface{}), mem(int)
  = leaf(g, k) || evs(h, g, lv, k - 1, i) && (let c = g.Out[k-1] in let j = i + ecnt(g, k - 1) in cbytes(c.This) == "" ? evs(h, c, lv, len(c.Out), j) : h.levels[j] == lv - 1 && h.items[j] == box(cbytes(c.This), string) && evs(h, c, lv + 1, len(c.Out), j + 1))

// contents are texts that the binary format can carry
macro carried(s) = forall q int :: {s[q]} 0 <= q && q < len(s) ==> s[q] != 0 && (q == 0 ==> s[q] != 1)
macro carriable() = forall x *Graph :: {cbytes(x.This)} carried(cbytes(x.This))
macro holds(r, p, s) = forall j int :: {bat(r, j)} p <= j && j < p + len(s) ==> bat(r, j) == s[j - p]

lemma sizes(g *Graph, k int, m int) reads Graph.Out, Graph.This, mem(*Graph)
  props C01
  requires nodes(g, k) <= m && 0 <= m
  induction m
  use sizes(g, k - 1, m - 1)
  use sizes(g.Out[k-1], len(g.Out[k-1].Out), m - 1)
  ensures 0 <= nodes(g, k) && 0 <= ecnt(g, k)

macro own(c) = cbytes(c.This) == "" ? 0 : 1
macro lead(c, lv) = cbytes(c.This) == "" ? 0 : len(vint(lv)) + len(cbytes(c.This)) + 1

// the parts of the text of the first k subnodes
lemma parts(r *bufio.Reader, g *Graph, lv int, k int, p int) reads Graph.Out, Graph.This, mem(*Graph)
  props C01
  requires !leaf(g, k)
  requires let s = benc(g, lv, k) in holds(r, p, s)
  ensures let c = g.Out[k-1] in len(benc(g, lv, k)) == len(benc(g, lv, k - 1)) + lead(c, lv) + len(benc(c, lv + own(c), len(c.Out)))
  ensures let s = benc(g, lv, k - 1) in holds(r, p, s)
  ensures let c = g.Out[k-1] in let q = p + len(benc(g, lv, k - 1)) + lead(c, lv) in let s = benc(c, lv + own(c), len(c.Out)) in holds(r, q, s)
  ensures let c = g.Out[k-1] in let q = p + len(benc(g, lv, k - 1)) in let s = vint(lv) in own(c) == 1 ==> holds(r, q, s)
  ensures let c = g.Out[k-1] in let q = p + len(benc(g, lv, k - 1)) + len(vint(lv)) in let s = cbytes(c.This) in own(c) == 1 ==> holds(r, q, s) && bat(r, q + len(s)) == 0

// a node with content is the next event
lemma nextline(r *bufio.Reader, h *SimpleEventHandler, n int, lv int, s string, q int, j int) reads SimpleEventHandler.items, SimpleEventHandler.levels, mem(interface{}), mem(int), lpos
  props C01
  requires linesof(r, h, n) && dv(r, lpos(n)) < 1
  requires 1 <= lv && lv < 268435456 && 0 <= q && 0 <= j && j <= n && lpos(j) == q
  requires len(s) > 0 && carried(s)
  requires let v = vint(lv) in holds(r, q, v)
  requires let o = q + len(vint(lv)) in holds(r, o, s) && bat(r, o + len(s)) == 0
  use lineback(r, q, lv, s)
  ensures j < n && lpos(j + 1) == q + len(vint(lv)) + len(s) + 1
  ensures h.levels[j] == lv - 1 && h.items[j] == box(s, string)

lemma evstep(h *SimpleEventHandler, g *Graph, lv int, k int, i int) reads Graph.Out, Graph.This, mem(*Graph), SimpleEventHandler.items, SimpleEventHandler.levels, mem(interface{}), mem(int)
  props C01
  requires leaf(g, k) || evs(h, g, lv, k - 1, i)
  requires let c = g.Out[k-1] in let j = i + ecnt(g, k - 1) in leaf(g, k) || own(c) == 0 || h.levels[j] == lv - 1 && h.items[j] == box(cbytes(c.This), string)
  requires let c = g.Out[k-1] in let j = i + ecnt(g, k - 1) in leaf(g, k) || evs(h, c, lv + own(c), len(c.Out), j + own(c))
  ensures evs(h, g, lv, k, i)

lemma goback(r *bufio.Reader, h *SimpleEventHandler, n int, g *Graph, lv int, k int, p int, i int, m int) reads Graph.Out, Graph.This, mem(*Graph), SimpleEventHandler.items, SimpleEventHandler.levels, mem(interface{}), mem(int), lpos
  props C01
  requires acyclic() && carriable() && linesof(r, h, n) && dv(r, lpos(n)) < 1
  requires g != nil && 1 <= lv && lv + rank(g) < 268435456
  requires 0 <= p && 0 <= i && i <= n && lpos(i) == p
  requires let s = benc(g, lv, k) in holds(r, p, s)
  requires nodes(g, k) <= m && 0 <= m
  induction m
  use evstep(h, g, lv, k, i)
  use parts(r, g, lv, k, p)
  use sizes(g, k - 1, m)
  use sizes(g.Out[k-1], len(g.Out[k-1].Out), m)
  use goback(r, h, n, g, lv, k - 1, p, i, m - 1)
  use nextline(r, h, n, lv, cbytes(g.Out[k-1].This), p + len(benc(g, lv, k - 1)), i + ecnt(g, k - 1))
  use goback(r, h, n, g.Out[k-1], lv + own(g.Out[k-1]), len(g.Out[k-1].Out), p + len(benc(g, lv, k - 1)) + lead(g.Out[k-1], lv), i + ecnt(g, k - 1) + own(g.Out[k-1]), m - 1)
  ensures i + ecnt(g, k) <= n
  ensures lpos(i + ecnt(g, k)) == p + len(benc(g, lv, k))
  ensures evs(h, g, lv, k, i)

// reading what Binary has written gives one event per node with content: the contents in order, each at its level
lemma roundtrip(r *bufio.Reader, h *SimpleEventHandler, n int, g *Graph) reads Graph.Out, Graph.This, mem(*Graph), SimpleEventHandler.items, SimpleEventHandler.levels, mem(interface{}), mem(int), lpos
  props C01
  requires acyclic() && carriable() && g != nil && 0 <= rank(g) && rank(g) < 268435455
  requires linesof(r, h, n) && lpos(0) == 3 && dv(r, lpos(n)) < 1 && 0 <= n
  requires let s = chr(1) + chr(71) + chr(0) + benc(g, 1, len(g.Out)) + chr(0) in holds(r, 0, s)
  use goback(r, h, n, g, 1, len(g.Out), 3, 0, nodes(g, len(g.Out)))
  use sizes(g, len(g.Out), nodes(g, len(g.Out)))
  ensures n == ecnt(g, len(g.Out))
  ensures evs(h, g, 1, len(g.Out), 0)
