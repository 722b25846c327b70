package ogdl

// variable length integers of the binary format
macro vint1(v) = chr(v)
macro vint2(v) = chr(128 + v / 256) + chr(v % 256)
macro vint3(v) = chr(192 + v / 65536) + chr(v / 256 % 256) + chr(v % 256)
macro vint4(v) = chr(224 + v / 16777216) + chr(v / 65536 % 256) + chr(v / 256 % 256) + chr(v % 256)
spec func vint(v int) string = v < 128 ? vint1(v) : v < 16384 ? vint2(v) : v < 2097152 ? vint3(v) : vint4(v)

func newVarInt(i) (r)
  props C01
  ensures i < 0 || i >= 268435456 ==> len(r) == 0
  ensures 0 <= i && i < 268435456 ==> string(r) == vint(i)
  ensures r != nil ==> fresh(r)

// rank witnesses that a graph is a finite tree or dag: every subnode has a smaller rank
spec func rank(g *Graph) int
macro acyclic() = forall x *Graph, k int :: {mem(x.Out)[k]} off(x.Out) <= k && k < off(x.Out) + len(x.Out) ==> 0 <= rank(mem(x.Out)[k]) && rank(mem(x.Out)[k]) < rank(x)

// bval names the bytes of a binary content ([]byte); contents are not graphs
spec func bval(x interface{}) string
macro plain() = forall x *Graph :: {x.This} !is(x.This, *Graph) && (isbytes(x.This) ==> base(as(x.This, []byte)) < next() && string(as(x.This, []byte)) == bval(x.This))
// no content shares its bytes with buf
macro apart(buf) = forall x *Graph :: {x.This} isbytes(x.This) ==> base(as(x.This, []byte)) != base(buf) || len(as(x.This, []byte)) == 0

// the bytes that a content is written as
spec func cbytes(x interface{}) string = x == nil ? "" : isbytes(x) ? bval(x) : is(x, string) ? as(x, string) : sprint(x)

func _bytes(i) (r)
  props C01 C11
  ensures i == nil ==> r == nil
  ensures isbytes(i) ==> r == as(i, []byte)
  ensures is(i, string) ==> string(r) == as(i, string)
  ensures is(i, *Graph) ==> string(r) == (as(i, *Graph) == nil ? "" : old(str(as(i, *Graph).This)))
  ensures i != nil && !isbytes(i) && !is(i, string) && !is(i, *Graph) ==> string(r) == sprint(i)
  ensures isbytes(i) || r == nil || fresh(r)

// the binary form of the first k subnodes of g at level lv: each node with
// content is written as its level, its content and a zero, followed by its
// subnodes one level deeper; nodes without content are transparent
macro binnode(c, lv) = cbytes(c.This) == "" ? benc(c, lv, len(c.Out)) : vint(lv) + cbytes(c.This) + chr(0) + benc(c, lv + 1, len(c.Out))
spec func benc(g *Graph, lv int, k int) string reads Graph.Out, Graph.This, mem(*Graph)
  = k <= 0 || k > len(g.Out) || g == nil || !(0 <= rank(g.Out[k-1]) && rank(g.Out[k-1]) < rank(g)) ? "" : benc(g, lv, k - 1) + binnode(g.Out[k-1], lv)

func (*Graph).bin(g, level, buf) (r)
  props C01
  requires acyclic() && plain() && apart(buf)
  requires g != nil && 1 <= level && level + rank(g) < 268435456 && 0 <= rank(g)
  modifies mem(byte)[base(buf)]
  decreases rank(g)
  ensures string(r) == old(string(buf)) + binnode(g, level)
  ensures len(r) >= len(buf)
  ensures plain() && apart(r)
  ensures base(r) == base(buf) || fresh(r)
  loop
    var i index
    var out []byte
    invariant 0 <= i && i <= len(g.Out)
    invariant plain() && apart(out)
    invariant cbytes(g.This) == "" ==> string(out) == old(string(buf)) + benc(g, old(level), i)
    invariant cbytes(g.This) != "" ==> string(out) == old(string(buf)) + vint(old(level)) + cbytes(g.This) + chr(0) + benc(g, old(level) + 1, i)
    invariant cur(level) == old(level) + (cbytes(g.This) == "" ? 0 : 1)
    invariant len(out) >= old(len(buf))
    invariant base(out) == old(base(buf)) || fresh(out)

func (*Graph).Binary(g) (r)
  props C01
  requires acyclic() && plain()
  requires g != nil ==> 0 <= rank(g) && rank(g) < 268435455
  ensures g == nil ==> r == nil
  ensures g != nil ==> string(r) == chr(1) + chr(71) + chr(0) + benc(g, 1, len(g.Out)) + chr(0)
  ensures r == nil || fresh(r)
  loop
    var i index
    var buf []byte
    invariant plain() && apart(buf)
    invariant string(buf) == chr(1) + chr(71) + chr(0) + benc(g, 1, i)
    invariant fresh(buf)
