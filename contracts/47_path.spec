// The parsers of paths, expressions and templates (C22).

package ogdl

// a parser whose levels are in proportion to the bytes it consumed
macro ppk(p, k) = pbase(p) && p.ev.max <= 3 * cl(p.Lexer) + 8 && p.ev.current <= 3 * cl(p.Lexer) + k
macro pstep(p) = p.ev == old(p.ev) && lsame(p.Lexer) && lstays(p.Lexer) && cl(p.Lexer) >= old(cl(p.Lexer)) && p.ev.max >= old(p.ev.max) && ownlists(p.ev) && sizesown(p.Lexer) && len(p.ev.items) >= old(len(p.ev.items))
// levels that were not left are in proportion to the bytes consumed
macro leak(p) = p.ev.current <= old(p.ev.current) + cl(p.Lexer) - old(cl(p.Lexer))
macro progress(p) = cl(p.Lexer) > old(cl(p.Lexer))

func (*Parser).isElement(p) (r)
  props C22
  requires pbase(p)
  modifies Lexer.r[p.Lexer], Lexer.lastByte[p.Lexer], Lexer.err[p.Lexer], mem(byte)[base(p.Lexer.buf)], got[p.Lexer.rd], rend[p.Lexer.rd], empties[p.Lexer.rd], Lexer.lastRuneSize[p.Lexer], mem(int)[base(p.Lexer.lastRuneSize)]
  ensures pbase(p) && lsame(p.Lexer) && lstays(p.Lexer) && sizesown(p.Lexer)
  ensures lp(p.Lexer) == old(lp(p.Lexer))
  ensures p.Lexer.r >= old(p.Lexer.r) || p.Lexer.r >= 2036

func (*Parser).Index(p) (r)
  props C22
  requires ppk(p, 3)
  modifies Lexer.r[p.Lexer], Lexer.lastByte[p.Lexer], Lexer.err[p.Lexer], mem(byte)[base(p.Lexer.buf)], got[p.Lexer.rd], rend[p.Lexer.rd], empties[p.Lexer.rd], Lexer.lastRuneSize[p.Lexer], mem(int)[base(p.Lexer.lastRuneSize)], SimpleEventHandler.items[p.ev], SimpleEventHandler.levels[p.ev], SimpleEventHandler.current[p.ev], SimpleEventHandler.max[p.ev], mem(interface{})[base(p.ev.items)], mem(int)[base(p.ev.levels)]
  ensures ppk(p, 3) && pstep(p)
  ensures leak(p)
  ensures r ==> progress(p)
  decreases 8 * rest(p.Lexer) + 0

func (*Parser).Selector(p) (r)
  props C22
  requires ppk(p, 3)
  modifies Lexer.r[p.Lexer], Lexer.lastByte[p.Lexer], Lexer.err[p.Lexer], mem(byte)[base(p.Lexer.buf)], got[p.Lexer.rd], rend[p.Lexer.rd], empties[p.Lexer.rd], Lexer.lastRuneSize[p.Lexer], mem(int)[base(p.Lexer.lastRuneSize)], SimpleEventHandler.items[p.ev], SimpleEventHandler.levels[p.ev], SimpleEventHandler.current[p.ev], SimpleEventHandler.max[p.ev], mem(interface{})[base(p.ev.items)], mem(int)[base(p.ev.levels)]
  ensures ppk(p, 3) && pstep(p)
  ensures leak(p)
  ensures r ==> progress(p)
  decreases 8 * rest(p.Lexer) + 0

func (*Parser).Args(p, dot) (r, err)
  props C22
  requires ppk(p, 3)
  modifies Lexer.r[p.Lexer], Lexer.lastByte[p.Lexer], Lexer.err[p.Lexer], mem(byte)[base(p.Lexer.buf)], got[p.Lexer.rd], rend[p.Lexer.rd], empties[p.Lexer.rd], Lexer.lastRuneSize[p.Lexer], mem(int)[base(p.Lexer.lastRuneSize)], SimpleEventHandler.items[p.ev], SimpleEventHandler.levels[p.ev], SimpleEventHandler.current[p.ev], SimpleEventHandler.max[p.ev], mem(interface{})[base(p.ev.items)], mem(int)[base(p.ev.levels)]
  ensures ppk(p, 3) && pstep(p)
  ensures leak(p)
  ensures r ==> progress(p)
  decreases 8 * rest(p.Lexer) + 0

func (*Parser).ArgList(p) (r)
  props C22
  requires ppk(p, 1)
  modifies Lexer.r[p.Lexer], Lexer.lastByte[p.Lexer], Lexer.err[p.Lexer], mem(byte)[base(p.Lexer.buf)], got[p.Lexer.rd], rend[p.Lexer.rd], empties[p.Lexer.rd], Lexer.lastRuneSize[p.Lexer], mem(int)[base(p.Lexer.lastRuneSize)], SimpleEventHandler.items[p.ev], SimpleEventHandler.levels[p.ev], SimpleEventHandler.current[p.ev], SimpleEventHandler.max[p.ev], mem(interface{})[base(p.ev.items)], mem(int)[base(p.ev.levels)]
  ensures ppk(p, 1) && pstep(p)
  ensures p.ev.current == old(p.ev.current)
  decreases 8 * rest(p.Lexer) + 4
  loop
    var something bool
    invariant ppk(p, 1) && pstep(p)
    decreases rest(p.Lexer)

func (*Parser).Expression(p) (r)
  props C22
  requires ppk(p, 2)
  modifies Lexer.r[p.Lexer], Lexer.lastByte[p.Lexer], Lexer.err[p.Lexer], mem(byte)[base(p.Lexer.buf)], got[p.Lexer.rd], rend[p.Lexer.rd], empties[p.Lexer.rd], Lexer.lastRuneSize[p.Lexer], mem(int)[base(p.Lexer.lastRuneSize)], SimpleEventHandler.items[p.ev], SimpleEventHandler.levels[p.ev], SimpleEventHandler.current[p.ev], SimpleEventHandler.max[p.ev], mem(interface{})[base(p.ev.items)], mem(int)[base(p.ev.levels)]
  ensures ppk(p, 2) && pstep(p)
  ensures leak(p)
  ensures r ==> progress(p)
  decreases 8 * rest(p.Lexer) + 3
  loop
    invariant ppk(p, 2) && pstep(p) && leak(p) && progress(p)
    decreases rest(p.Lexer)

func (*Parser).UnaryExpression(p) (r)
  props C22
  requires ppk(p, 2)
  modifies Lexer.r[p.Lexer], Lexer.lastByte[p.Lexer], Lexer.err[p.Lexer], mem(byte)[base(p.Lexer.buf)], got[p.Lexer.rd], rend[p.Lexer.rd], empties[p.Lexer.rd], Lexer.lastRuneSize[p.Lexer], mem(int)[base(p.Lexer.lastRuneSize)], SimpleEventHandler.items[p.ev], SimpleEventHandler.levels[p.ev], SimpleEventHandler.current[p.ev], SimpleEventHandler.max[p.ev], mem(interface{})[base(p.ev.items)], mem(int)[base(p.ev.levels)]
  ensures ppk(p, 2) && pstep(p)
  ensures leak(p)
  ensures r ==> progress(p)
  decreases 8 * rest(p.Lexer) + 2

func (*Parser).Path(p) (r)
  props C22
  requires ppk(p, 3)
  modifies Lexer.r[p.Lexer], Lexer.lastByte[p.Lexer], Lexer.err[p.Lexer], mem(byte)[base(p.Lexer.buf)], got[p.Lexer.rd], rend[p.Lexer.rd], empties[p.Lexer.rd], Lexer.lastRuneSize[p.Lexer], mem(int)[base(p.Lexer.lastRuneSize)], SimpleEventHandler.items[p.ev], SimpleEventHandler.levels[p.ev], SimpleEventHandler.current[p.ev], SimpleEventHandler.max[p.ev], mem(interface{})[base(p.ev.items)], mem(int)[base(p.ev.levels)]
  ensures ppk(p, 3) && pstep(p)
  ensures leak(p)
  ensures r ==> progress(p)
  decreases 8 * rest(p.Lexer) + 1
  loop
    var begin bool
    var anything bool
    invariant ppk(p, 3) && pstep(p) && leak(p) && (anything ==> progress(p))
    invariant !begin ==> anything
    decreases rest(p.Lexer)

func (*Parser).Text(p) (r)
  props C22
  requires ppk(p, 0)
  modifies Lexer.r[p.Lexer], Lexer.lastByte[p.Lexer], Lexer.err[p.Lexer], mem(byte)[base(p.Lexer.buf)], got[p.Lexer.rd], rend[p.Lexer.rd], empties[p.Lexer.rd], Lexer.lastRuneSize[p.Lexer], mem(int)[base(p.Lexer.lastRuneSize)], SimpleEventHandler.items[p.ev], SimpleEventHandler.levels[p.ev], SimpleEventHandler.current[p.ev], SimpleEventHandler.max[p.ev], mem(interface{})[base(p.ev.items)], mem(int)[base(p.ev.levels)]
  ensures ppk(p, 0) && pstep(p)
  ensures leak(p)
  ensures r ==> progress(p)

func (*Parser).Variable(p) (r)
  props C22
  requires ppk(p, 0)
  modifies Lexer.r[p.Lexer], Lexer.lastByte[p.Lexer], Lexer.err[p.Lexer], mem(byte)[base(p.Lexer.buf)], got[p.Lexer.rd], rend[p.Lexer.rd], empties[p.Lexer.rd], Lexer.lastRuneSize[p.Lexer], mem(int)[base(p.Lexer.lastRuneSize)], SimpleEventHandler.items[p.ev], SimpleEventHandler.levels[p.ev], SimpleEventHandler.current[p.ev], SimpleEventHandler.max[p.ev], mem(interface{})[base(p.ev.items)], mem(int)[base(p.ev.levels)]
  ensures ppk(p, 0) && pstep(p)
  ensures leak(p)
  ensures r ==> progress(p)

func (*Parser).Template(p)
  props C22
  requires ppk(p, 0)
  modifies Lexer.r[p.Lexer], Lexer.lastByte[p.Lexer], Lexer.err[p.Lexer], mem(byte)[base(p.Lexer.buf)], got[p.Lexer.rd], rend[p.Lexer.rd], empties[p.Lexer.rd], Lexer.lastRuneSize[p.Lexer], mem(int)[base(p.Lexer.lastRuneSize)], SimpleEventHandler.items[p.ev], SimpleEventHandler.levels[p.ev], SimpleEventHandler.current[p.ev], SimpleEventHandler.max[p.ev], mem(interface{})[base(p.ev.items)], mem(int)[base(p.ev.levels)]
  ensures ppk(p, 0) && pstep(p)
  loop
    invariant ppk(p, 0) && pstep(p)
    decreases rest(p.Lexer)

// What the parsers give.

func NewPath(s) (r)
  props C22
  modifies Graph.This, Graph.Out, mem(*Graph), evnode, got, rend, empties
  ensures r != nil && fresh(r)
  ensures forall x *Graph :: {x.Out} old(alloc(x)) ==> x.Out == old(x.Out)
  ensures forall x *Graph :: {x.Out} old(alloc(x)) ==> mem(x.Out) == old(mem(x.Out))
  ensures forall x *Graph :: {x.This} old(alloc(x)) ==> x.This == old(x.This)

func NewExpression(s) (r)
  props C22
  modifies Graph.This, Graph.Out, mem(*Graph), evnode, got, rend, empties
  ensures r != nil && fresh(r)
  ensures forall x *Graph :: {x.Out} old(alloc(x)) ==> x.Out == old(x.Out)
  ensures forall x *Graph :: {x.Out} old(alloc(x)) ==> mem(x.Out) == old(mem(x.Out))
  ensures forall x *Graph :: {x.This} old(alloc(x)) ==> x.This == old(x.This)

func NewTemplate(s) (r)
  props C22
  modifies Graph.This, Graph.Out, mem(*Graph), evnode, got, rend, empties
  ensures r != nil && fresh(r)
  ensures forall x *Graph :: {x.Out} old(alloc(x)) ==> x.Out == old(x.Out)
  ensures forall x *Graph :: {x.Out} old(alloc(x)) ==> mem(x.Out) == old(mem(x.Out))
  ensures forall x *Graph :: {x.This} old(alloc(x)) ==> x.This == old(x.This)

func NewTemplateFromBytes(b) (r)
  props C22
  modifies Graph.This, Graph.Out, mem(*Graph), evnode, got, rend, empties
  ensures r != nil && fresh(r)
  ensures forall x *Graph :: {x.Out} old(alloc(x)) ==> x.Out == old(x.Out)
  ensures forall x *Graph :: {x.Out} old(alloc(x)) ==> mem(x.Out) == old(mem(x.Out))
  ensures forall x *Graph :: {x.This} old(alloc(x)) ==> x.This == old(x.This)

func (*Graph).simplify(g)
  props C22 C15
  requires g != nil && inside(g)
  modifies Graph.This, Graph.Out, mem(*Graph)
  ensures g != nil ==> sameOut(g)
  ensures forall x *Graph :: {x.Out} old(alloc(x)) && beyond(x, g) ==> sameOut(x)
  ensures forall x *Graph :: {x.This} old(alloc(x)) && beyond(x, g) ==> x.This == old(x.This)
  loop
    invariant g != nil ==> sameOut(g)
    invariant forall x *Graph :: {x.Out} old(alloc(x)) && beyond(x, g) ==> sameOut(x)
    invariant forall x *Graph :: {x.This} old(alloc(x)) && beyond(x, g) ==> x.This == old(x.This)

func (*Graph).flow(g, h, prev, start) (r)
  props C22 C15
  requires g != nil && h != nil && prev != nil && h != g && prev != g && 0 <= start && start <= len(g.Out)
  requires inside(g)
  modifies Graph.Out, mem(*Graph)
  ensures sameOut(g) && start <= r && r <= 2 * len(g.Out) + 1 - start
  ensures forall x *Graph :: {x.Out} old(alloc(x)) && beyond(x, g) && x != h && x != prev ==> x.Out == old(x.Out)
  ensures forall x *Graph :: {x.Out} old(alloc(x)) && beyond(x, g) && x != h && x != prev ==> mem(x.Out) == old(mem(x.Out))
  decreases len(g.Out) - start
  loop
    var i int
    var h *Graph
    invariant start <= i && i <= 2 * len(g.Out) + 1 - start && sameOut(g) && h != nil && h != g && (h == entry(h) || fresh(h))
    invariant forall x *Graph :: {x.Out} old(alloc(x)) && beyond(x, g) && x != entry(h) && x != prev ==> x.Out == old(x.Out)
    invariant forall x *Graph :: {x.Out} old(alloc(x)) && beyond(x, g) && x != entry(h) && x != prev ==> mem(x.Out) == old(mem(x.Out))
    decreases len(g.Out) - i

