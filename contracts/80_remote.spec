// Remote functions (C19).

package io

trusted func ReadFull(rd, b) (n, err)
  why "io.ReadFull reads until the given space is full, however the reader cuts its data; it gives an error exactly when it is not filled"
  requires rd != nil
  modifies mem(byte)[base(b)], got[rd]
  ensures 0 <= n && n <= len(b) && (err == nil) == (n == len(b))
  ensures forall k int :: {mem(b)[k]} off(b) <= k && k < off(b) + n ==> mem(b)[k] == rdat(rd, k - off(b) + old(got(rd)))
  ensures forall k int :: {mem(b)[k]} k < off(b) || k >= off(b) + len(b) ==> mem(b)[k] == old(mem(b))[k]
  ensures got(rd) == old(got(rd)) + n
  ensures forall k int :: {rdat(rd, k)} old(got(rd)) <= k && k < got(rd) ==> 0 <= rdat(rd, k) && rdat(rd, k) < 256

package binary

trusted func bigEndian.Uint32(e, b) (r)
  why "the number that four bytes stand for, most significant first"
  requires len(b) >= 4
  ensures r == ((b[0] * 256 + b[1]) * 256 + b[2]) * 256 + b[3]

trusted func bigEndian.PutUint32(e, b, v)
  why "writes the number as four bytes, most significant first"
  requires len(b) >= 4
  modifies mem(byte)[base(b)]
  ensures forall k int :: {mem(b)[k]} off(b) <= k && k < off(b) + 4 ==> 0 <= mem(b)[k] && mem(b)[k] < 256
  ensures ((b[0] * 256 + b[1]) * 256 + b[2]) * 256 + b[3] == v

package net

// what was written to a connection; a write failed; it was closed
ghost wrote Conn -> string
ghost broken Conn -> bool
ghost closed Conn -> bool

trusted func Conn.Write(c, b) (n, err)
  why "Write sends all bytes or gives an error"
  requires !closed(c)
  modifies wrote[c], broken[c]
  ensures 0 <= n && n <= len(b) && (n < len(b) ==> err != nil)
  ensures broken(c) == (old(broken(c)) || err != nil)
  ensures err == nil ==> wrote(c) == old(wrote(c)) + string(b)

trusted func Conn.Close(c) (err)
  why "closes the connection"
  modifies closed[c]
  ensures closed(c)

trusted func Dial(network, address) (c, err)
  why "gives a new connection or an error"
  ensures err == nil ==> c != nil && !closed(c) && !broken(c) && got(c) == 0 && wrote(c) == ""
  ensures err != nil ==> c == nil

package ogdlrf

// the length that the four bytes at position p of a stream announce
macro mlen(c, p) = ((rdat(c, p) * 256 + rdat(c, p + 1)) * 256 + rdat(c, p + 2)) * 256 + rdat(c, p + 3)

// s consists of n messages, each with its own length in front (modulo 2^32)
spec func framed(s string, n int) bool
spec func number(h string) int = ((h[0] * 256 + h[1]) * 256 + h[2]) * 256 + h[3]
axiom framed0 why "definition of framed" = framed("", 0)
axiom framed1 why "definition of framed" = forall s string, h string, b string, n int :: {s + h + b, framed(s, n)} framed(s, n) && len(h) == 4 && number(h) == len(b) % 4294967296 ==> framed(s + h + b, n + 1)

// requests that were handled on a connection, and the position after the last one
ghost handled net.Conn -> int
ghost mend net.Conn -> int

trusted func Function.call(c, g) (r)
  why "handlers may change graphs but keep them well formed and finite, with plain contents, and leave the connection alone"
  requires g != nil && !closed(c)
  // the handler gets a complete message, and everything up to its end was consumed
  requires mlen(c, mend(c)) > 0 && got(c) == mend(c) + 4 + mlen(c, mend(c))
  requires len(source(g)) == mlen(c, mend(c)) && (forall k int :: {rdat(c, k)} mend(c) + 4 <= k && k < got(c) ==> source(g)[k - mend(c) - 4] == rdat(c, k))
  // all earlier requests were answered
  requires framed(wrote(c), handled(c))
  keepsinv
  modifies ogdl.Graph.Out, ogdl.Graph.This, mem(*ogdl.Graph), handled[c], mend[c]
  ensures acyclic() && plain() && (r != nil ==> 0 <= rank(r) && rank(r) < 268435455)
  ensures handled(c) == old(handled(c)) + 1 && mend(c) == got(c)

func process(c, handler, timeout)
  props C19
  requires c != nil && got(c) == 0 && mend(c) == 0 && handled(c) == 0 && wrote(c) == "" && !closed(c) && !broken(c)
  modifies ogdl.Graph.Out, ogdl.Graph.This, mem(*ogdl.Graph), handled[c], mend[c], got[c], wrote[c], broken[c], closed[c], bpos, fpos, lpos, lines, brd, evnode, source
  ensures closed(c)
  // every request was answered by one message, unless the connection failed
  ensures !broken(c) ==> framed(wrote(c), handled(c))
  loop
    invariant got(c) == mend(c) && framed(wrote(c), handled(c)) && !closed(c) && !broken(c) && got(c) >= 0

// the responses that were read from a connection, and the position after the last one
ghost answers net.Conn -> int
ghost aend net.Conn -> int

// a connection on which every request was sent whole and answered
macro calm(c) = !closed(c) && got(c) == aend(c) && aend(c) >= 0 && framed(wrote(c), answers(c))

func (*Client).callV2(rf, g) (r, err)
  props C19
  requires rf != nil && rf.conn != nil && calm(rf.conn)
  requires acyclic() && plain() && (g != nil ==> 0 <= rank(g) && rank(g) < 268435455)
  modifies got[rf.conn], wrote[rf.conn], broken[rf.conn], answers[rf.conn], aend[rf.conn], bpos, fpos, lpos, lines, brd, evnode, source
  set answers[rf.conn] := answers(rf.conn) + (err == nil ? 1 : 0)
  set aend[rf.conn] := err == nil ? got(rf.conn) : aend(rf.conn)
  // one message is sent, one is read, whole
  ensures err == nil ==> calm(rf.conn) && answers(rf.conn) == old(answers(rf.conn)) + 1
  ensures err == nil ==> r != nil && (let c = rf.conn in let p = old(aend(c)) in aend(c) == p + 4 + mlen(c, p) && len(source(r)) == mlen(c, p) && (forall k int :: {rdat(c, k)} p + 4 <= k && k < aend(c) ==> source(r)[k - p - 4] == rdat(c, k)))
  ensures err != nil ==> r == nil && !closed(rf.conn)

func (*Client).callV1(rf, g) (r, err)
  props C19
  requires rf != nil && rf.conn != nil && !closed(rf.conn)
  requires acyclic() && plain() && (g != nil ==> 0 <= rank(g) && rank(g) < 268435455)
  modifies Client.conn[rf], got, wrote[rf.conn], broken[rf.conn], bpos, fpos, lpos, lines, brd, evnode
  ensures rf.conn == old(rf.conn) || rf.conn == nil
  ensures (err == nil) == (r != nil) && (err == nil ==> rf.conn != nil)
  ensures !closed(old(rf.conn))

func (*Client).Close(rf)
  props C19
  requires rf != nil
  modifies Client.conn[rf], closed[rf.conn]
  ensures rf.conn == nil
  ensures old(rf.conn) != nil ==> closed(old(rf.conn))

func (*Client).Dial(rf) (err)
  props C19
  requires rf != nil
  modifies Client.conn[rf], closed, answers, aend
  set answers[rf.conn] := 0
  set aend[rf.conn] := 0
  ensures (err == nil) == (rf.conn != nil)
  ensures err == nil ==> calm(rf.conn) && answers(rf.conn) == 0

// A call leaves the client without a connection or with a calm one, whatever
// happened: what comes late is never taken for a later response.
func (*Client).Call(rf, g) (r, err)
  props C19
  requires rf != nil && rf.Protocol != 1 && (rf.conn != nil ==> calm(rf.conn) && answers(rf.conn) >= 0)
  requires acyclic() && plain() && (g != nil ==> 0 <= rank(g) && rank(g) < 268435455)
  modifies Client.conn[rf], closed, got, wrote, broken, answers, aend, bpos, fpos, lpos, lines, brd, evnode, source
  ensures err == nil ==> rf.conn != nil && r != nil && answers(rf.conn) >= 1
  ensures rf.conn != nil ==> calm(rf.conn) && answers(rf.conn) >= 0
  ensures err != nil ==> r == nil && rf.conn == nil
  // the response is the last whole message that was read
  ensures err == nil ==> (let c = rf.conn in let p = aend(c) - 4 - len(source(r)) in mlen(c, p) == len(source(r)) && (forall k int :: {rdat(c, k)} p + 4 <= k && k < aend(c) ==> source(r)[k - p - 4] == rdat(c, k)))
  loop
    var n int
    invariant rf.conn != nil ==> calm(rf.conn) && answers(rf.conn) >= 0
    invariant cur(err) == nil ==> n > 0
    invariant cur(err) != nil ==> rf.conn == nil && cur(r) == nil
    decreases n
