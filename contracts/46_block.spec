// The parser of OGDL text (C21).

package ogdl

// the bytes of the stream that were consumed
macro cl(p) = (lp(p) < got(p.rd) ? lp(p) : got(p.rd))
// what is left
macro rest(p) = 281474976710656 - cl(p)

// a parser whose levels are no more than the bytes it consumed
macro pok(p) = pbase(p) && p.ev.max <= cl(p.Lexer)
macro pbase(p) = p != nil && lxok(p.Lexer) && p.ev != nil && wf(p.ev) && p.ind >= 0 && (base(p.ev.levels) == 0 || base(p.ev.levels) != base(p.Lexer.lastRuneSize))
macro psame(p) = p.ev == old(p.ev) && lsame(p.Lexer) && lstays(p.Lexer) && cl(p.Lexer) >= old(cl(p.Lexer)) && p.ev.max >= old(p.ev.max)
// a kept indentation counts for the level it leads to
macro credit(p, ns) = p.ind == 0 || p.ind == ns || p.ev.current <= cl(p.Lexer) - 1
// steps left
macro pleft(p, ns) = 2 * rest(p.Lexer) + (p.ind > ns ? 1 : 0)

func (*Parser).unreadIndent(p, n, u)
  props C21
  requires p != nil
  modifies Parser.ind[p], Parser.indType[p]
  ensures p.ind == n && p.indType == u

func (*Parser).indent(p) (n, u)
  props C21
  requires pok(p)
  modifies Parser.ind[p], Lexer.r[p.Lexer], Lexer.lastByte[p.Lexer], Lexer.err[p.Lexer], mem(byte)[base(p.Lexer.buf)], got[p.Lexer.rd], rend[p.Lexer.rd], empties[p.Lexer.rd]
  ensures pok(p) && psame(p) && p.ind == 0 && n >= 0
  ensures old(p.ind) > 0 ? n == old(p.ind) : n > 0 ==> cl(p.Lexer) > old(cl(p.Lexer))

func (*Parser).line(p, ns, types) (b, err)
  props C21
  requires pok(p) && ns >= 0 && credit(p, ns)
  modifies Parser.ind[p], Parser.indType[p], Lexer.r[p.Lexer], Lexer.lastByte[p.Lexer], Lexer.err[p.Lexer], mem(byte)[base(p.Lexer.buf)], got[p.Lexer.rd], rend[p.Lexer.rd], empties[p.Lexer.rd], SimpleEventHandler.items[p.ev], SimpleEventHandler.levels[p.ev], SimpleEventHandler.current[p.ev], SimpleEventHandler.max[p.ev], mem(interface{})[base(p.ev.items)], mem(int)[base(p.ev.levels)]
  ensures pok(p) && psame(p) && ownlists(p.ev)
  ensures p.ind == 0 || p.ev.current <= cl(p.Lexer) - 1
  ensures b && err == nil ==> pleft(p, ns) < old(pleft(p, ns))
  ensures pleft(p, ns) <= old(pleft(p, ns))
  ensures cl(p.Lexer) == old(cl(p.Lexer)) && (old(p.ind) == 0 || old(p.ind) == ns) ==> p.ind == 0
  decreases 2 * pleft(p, ns)
  loop
    invariant pok(p) && psame(p) && ownlists(p.ev) && p.ind == 0
    decreases rest(p.Lexer)

func (*Parser).tree(p, ns, types)
  props C21
  requires pok(p) && ns >= 0 && credit(p, ns)
  modifies Parser.ind[p], Parser.indType[p], Lexer.r[p.Lexer], Lexer.lastByte[p.Lexer], Lexer.err[p.Lexer], mem(byte)[base(p.Lexer.buf)], got[p.Lexer.rd], rend[p.Lexer.rd], empties[p.Lexer.rd], SimpleEventHandler.items[p.ev], SimpleEventHandler.levels[p.ev], SimpleEventHandler.current[p.ev], SimpleEventHandler.max[p.ev], mem(interface{})[base(p.ev.items)], mem(int)[base(p.ev.levels)]
  ensures pok(p) && psame(p) && ownlists(p.ev)
  ensures cl(p.Lexer) == old(cl(p.Lexer)) && (old(p.ind) == 0 || old(p.ind) == ns) ==> p.ind == 0
  ensures pleft(p, ns) <= old(pleft(p, ns))
  decreases 2 * pleft(p, ns) + 1
  loop
    invariant pok(p) && psame(p) && ownlists(p.ev) && credit(p, ns)
    invariant pleft(p, ns) <= old(pleft(p, ns))
    invariant cl(p.Lexer) == old(cl(p.Lexer)) && (old(p.ind) == 0 || old(p.ind) == ns) ==> p.ind == 0 || p.ind == ns
    decreases pleft(p, ns)
  loop
    var more bool
    invariant cl(p.Lexer) == old(cl(p.Lexer)) && (old(p.ind) == 0 || old(p.ind) == ns) ==> p.ind == 0 || more && p.ind == ns
    decreases pleft(p, ns) + (more ? 1 : 0)

func (*Parser).Ogdl(p)
  props C21
  requires pok(p) && p.ind == 0
  modifies Parser.ind[p], Parser.indType[p], Lexer.r[p.Lexer], Lexer.lastByte[p.Lexer], Lexer.err[p.Lexer], mem(byte)[base(p.Lexer.buf)], got[p.Lexer.rd], rend[p.Lexer.rd], empties[p.Lexer.rd], SimpleEventHandler.items[p.ev], SimpleEventHandler.levels[p.ev], SimpleEventHandler.current[p.ev], SimpleEventHandler.max[p.ev], mem(interface{})[base(p.ev.items)], mem(int)[base(p.ev.levels)]
  ensures pok(p) && psame(p)

func (*Parser).OgdlTypes(p)
  props C21
  requires pok(p) && p.ind == 0
  modifies Parser.ind[p], Parser.indType[p], Lexer.r[p.Lexer], Lexer.lastByte[p.Lexer], Lexer.err[p.Lexer], mem(byte)[base(p.Lexer.buf)], got[p.Lexer.rd], rend[p.Lexer.rd], empties[p.Lexer.rd], SimpleEventHandler.items[p.ev], SimpleEventHandler.levels[p.ev], SimpleEventHandler.current[p.ev], SimpleEventHandler.max[p.ev], mem(interface{})[base(p.ev.items)], mem(int)[base(p.ev.levels)]
  ensures pok(p) && psame(p)

func (*Parser).Graph(p) (r)
  props C21 C22
  requires p != nil && p.ev != nil && wf(p.ev) && p.ev.max < 4503599627370496
  modifies evnode
  why "every finite tree has a depth first numbering (treeof: each new node has one place, under an earlier one)"
  ensures treeof(p.ev, r)
  assumes numberedTree(r) && forall x *Graph :: {num(x)} num(r) <= num(x) && num(x) < last(r) ==> fresh(x)

func FromBytes(b) (r)
  props C21
  modifies evnode, got, rend, empties
  ensures r != nil && fresh(r)

func FromString(s) (r)
  props C21
  modifies evnode, got, rend, empties
  ensures r != nil && fresh(r)

func FromStringTypes(s) (r)
  props C21
  modifies evnode, got, rend, empties
  ensures r != nil && fresh(r)

func FromReader(rd) (r)
  props C21
  requires ready(rd)
  modifies evnode, got, rend, empties
  ensures r != nil && fresh(r)
