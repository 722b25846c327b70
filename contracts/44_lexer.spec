// The text reader and the lexical productions.

package io

// byte k of the stream that a reader delivers (-1: not known); delivered so far; an error was
// given; consecutive reads without data
ghost got Reader -> int
ghost rend Reader -> bool
ghost empties Reader -> int

trusted func Reader.Read(rd, b) (n, err)
  why "a reader delivers the bytes of its stream in order, each once, in pieces of any size, possibly none, and may use the rest of the given space; it ends with an error, which can come with data; streams are shorter than 2^48 bytes"
  requires rd != nil
  modifies mem(byte)[base(b)], got[rd], rend[rd], empties[rd]
  ensures 0 <= n && n <= len(b)
  ensures forall k int :: {mem(b)[k]} off(b) <= k && k < off(b) + n ==> mem(b)[k] == rdat(rd, k - off(b) + old(got(rd)))
  ensures forall k int :: {mem(b)[k]} k < off(b) || k >= off(b) + len(b) ==> mem(b)[k] == old(mem(b))[k]
  ensures got(rd) == old(got(rd)) + n && old(got(rd)) >= 0 && got(rd) < 281474976710656
  ensures rend(rd) == (err != nil || old(rend(rd)))
  ensures empties(rd) == (n > 0 ? 0 : old(empties(rd)) + 1)
  ensures forall k int :: {rdat(rd, k)} old(got(rd)) <= k && k < got(rd) ==> 0 <= rdat(rd, k) && rdat(rd, k) < 256

package bytes

trusted func NewBuffer(b) (r)
  why "a bytes.Buffer that nobody writes to delivers the bytes it was made of; its reader state is new"
  ensures r != nil && fresh(r)
  ensures got(box(r, *bytes.Buffer)) == 0 && empties(box(r, *bytes.Buffer)) == 0
  ensures forall k int :: {rdat(box(r, *bytes.Buffer), k)} 0 <= k && k < len(b) ==> rdat(box(r, *bytes.Buffer), k) == b[k]

package ogdl

counter Lexer.r why "fewer than 2^62 reads after the end of the stream"

// position in the stream
macro lp(p) = got(p.rd) - p.lastByte + p.r
// the buffer holds the last bytes that were delivered
macro window(p) = forall k int :: {mem(p.buf)[k]} 0 <= k && k < p.lastByte ==> mem(p.buf)[k] == rdat(p.rd, got(p.rd) - p.lastByte + k)
macro lx(p) = p != nil && p.rd != nil && len(p.buf) == 4096 && off(p.buf) == 0 && 0 <= p.lastByte && p.lastByte <= 4096 && 0 <= p.r && (p.lastByte == 4096 ==> p.r < 4096) && p.lastByte <= got(p.rd) && got(p.rd) < 281474976710656 && window(p)
// it ends when the reader gave an error or no data 99 times
macro lended(p) = p.lastByte < 4096 ==> rend(p.rd) || empties(p.rd) >= 99

macro ready(rd) = rd != nil && got(rd) >= 0 && got(rd) < 281474976710656 && empties(rd) >= 0
// a lexer that reads on
macro lxok(p) = lx(p) && lended(p) && empties(p.rd) >= 0
// same reader and memory, nothing delivered is lost
macro lsame(p) = p.rd == old(p.rd) && p.buf == old(p.buf) && got(p.rd) >= old(got(p.rd))
// after the end nothing more comes
macro lstays(p) = old(p.lastByte) < 4096 ==> p.lastByte == old(p.lastByte) && got(p.rd) == old(got(p.rd))
// what the lexer sees at position k: the byte of the stream, 0 after its end
macro lbyte(p, k) = k < got(p.rd) ? rdat(p.rd, k) : 0
// the last n bytes can be unread
macro room(p, n) = p.r >= n

func (*Lexer).fill(p)
  props C04
  requires p != nil && p.rd != nil && len(p.buf) == 4096 && off(p.buf) == 0 && got(p.rd) >= 0 && got(p.rd) < 281474976710656 && empties(p.rd) >= 0
  requires p.r < 0 ? p.lastByte == 4096 : p.r <= 4096 && 0 <= p.lastByte && p.lastByte <= 4096 && p.lastByte <= got(p.rd) && window(p) && lended(p)
  requires p.lastByte < 4096 ==> p.r < 4096
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lxok(p)
  ensures lsame(p) && lstays(p)
  ensures p.r == (old(p.r) < 0 ? 0 : old(p.r) == 4096 ? 2048 : old(p.r))
  ensures lp(p) == (old(p.r) >= 0 ? old(lp(p)) : old(got(p.rd)))
  loop
    var i int
    var offset int
    invariant 0 <= offset && offset <= 4096 && i >= 0
    invariant p.rd == old(p.rd) && p.buf == old(p.buf) && p.r == (old(p.r) >= 0 ? 2048 : 0)
    invariant got(p.rd) < 281474976710656
    invariant empties(p.rd) >= 0 && i + empties(p.rd) >= 99
    invariant got(p.rd) == old(got(p.rd)) + offset - p.r
    invariant old(p.r) >= 0 ==> offset >= 2048
    invariant forall k int :: {mem(p.buf)[k]} 0 <= k && k < offset ==> mem(p.buf)[k] == rdat(p.rd, got(p.rd) - offset + k)
    decreases (4096 - offset) * 101 + i

func NewLexer(rd) (p)
  props C04
  requires ready(rd)
  modifies got[rd], rend[rd], empties[rd]
  ensures fresh(p) && fresh(p.buf) && p.rd == rd && len(p.lastRuneSize) == 0
  ensures lxok(p) && lp(p) == old(got(rd)) && got(rd) >= old(got(rd))

func (*Lexer).Byte(p) (c, err)
  props C04 C05
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lxok(p) && lsame(p) && lstays(p)
  ensures lp(p) == old(lp(p)) + 1
  ensures c == old(lbyte(p, lp(p))) && c == lbyte(p, lp(p) - 1)
  ensures (err == nil) == (lp(p) - 1 < got(p.rd)) && (err == nil) == old(lp(p) < got(p.rd))
  ensures room(p, 1) && (p.r >= old(p.r) + 1 || p.r >= 2048)

func (*Lexer).UnreadByte(p)
  props C04 C05
  requires lxok(p)
  modifies Lexer.r[p]
  ensures lxok(p)
  ensures p.r == (old(p.r) > 0 ? old(p.r) - 1 : 0)

func (*Lexer).PeekByte(p) (c)
  props C04 C05
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lxok(p) && lsame(p) && lstays(p)
  ensures lp(p) == old(lp(p))
  ensures c == old(lbyte(p, lp(p))) && c == lbyte(p, lp(p))
  ensures p.r >= old(p.r) || p.r >= 2047

func (*Lexer).Error(p) (e)
  props C04
  requires p != nil
  modifies Lexer.err[p]
  ensures e == old(p.err) && p.err == nil

// character classes
spec func endchar(c int) bool = c < 32 && c != 9 && c != 10 && c != 13
spec func white(c int) bool = c == 13 || c == 10 || c == 9 || c == 32
spec func digitchar(c int) bool = 48 <= c && c <= 57
spec func opchar(c int) bool = c == 43 || c == 45 || c == 42 || c == 47 || c == 37 || c == 38 || c == 124 || c == 33 || c == 60 || c == 62 || c == 61 || c == 126 || c == 94

func IsTextChar(c) (r)
  props C05
  ensures r == (c > 32)
func IsEndChar(c) (r)
  props C05
  ensures r == endchar(c)
func IsEndRune(c) (r)
  props C05
  ensures r == endchar(c)
func IsBreakChar(c) (r)
  props C05
  ensures r == (c == 10 || c == 13)
func IsSpaceChar(c) (r)
  props C05
  ensures r == (c == 32 || c == 9)
func isTemplateTextChar(c) (r)
  props C05
  ensures r == (!endchar(c) && c != 36)
func isOperatorChar(c) (r)
  props C05
  ensures r == opchar(c)
func IsLetter(c) (r)
  props C05
  ensures r == (uletter(c) || c == 95)
func IsDigit(c) (r)
  props C05
  ensures r == udigit(c)
  ensures c < 256 ==> r == digitchar(c)
func isTokenChar(c) (r)
  props C05
  ensures r == (uletter(c) || udigit(c) || c == 95)

// the bytes of a stream from position k to e
spec func rspan(rd io.Reader, k int, e int) string
axiom rspanlen why "definition of rspan: the string of the bytes from k to e"
  = forall rd io.Reader, k int, e int :: {rspan(rd, k, e)} len(rspan(rd, k, e)) == (k <= e ? e - k : 0)
axiom rspanat why "definition of rspan: the string of the bytes from k to e"
  = forall rd io.Reader, k int, e int, j int :: {rspan(rd, k, e)[j]} 0 <= j && j < e - k && rdat(rd, k + j) >= 0 ==> rspan(rd, k, e)[j] == rdat(rd, k + j)

axiom rspancat why "definition of rspan: the string of the bytes from k to e"
  = forall rd io.Reader, k int, e int, f int :: {rspan(rd, k, e) + rspan(rd, e, f)} k <= e && e <= f ==> rspan(rd, k, e) + rspan(rd, e, f) == rspan(rd, k, f)
axiom rspansub why "definition of rspan: the string of the bytes from k to e"
  = forall rd io.Reader, k int, e int, n int :: {rspan(rd, k, e)[0:n]} 0 <= n && n <= e - k ==> rspan(rd, k, e)[0:n] == rspan(rd, k, k + n)
axiom rspanone why "definition of rspan: the string of the bytes from k to e"
  = forall rd io.Reader, k int, e int :: {rspan(rd, k, e)} e == k + 1 && 0 <= rdat(rd, k) && rdat(rd, k) < 256 ==> rspan(rd, k, e) == chr(rdat(rd, k))

macro lsteps(p) = lxok(p) && lsame(p) && lstays(p)
// buf holds the bytes from position k to e
macro lbuf(p, buf, k, e) = len(buf) == e - k && (e > k ==> e <= got(p.rd)) && (forall j int :: {mem(buf)[j]} off(buf) <= j && j < off(buf) + len(buf) ==> mem(buf)[j] == rdat(p.rd, j - off(buf) + k))
// u tells what the consumed space is made of: 32 or 9 for one kind (32 when there is none), 0 for both
macro uniform(p, u) = (u == 32) == (forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> rdat(p.rd, j) == 32) && (u == 9) == (lp(p) > old(lp(p)) && forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> rdat(p.rd, j) == 9) && (u == 32 || u == 9 || u == 0)
// what was consumed, and that it was delivered
macro consumed(p, s) = s == rspan(p.rd, old(lp(p)), lp(p)) && lp(p) >= old(lp(p)) && (lp(p) > old(lp(p)) ==> lp(p) <= got(p.rd))

// the bytes that were consumed can be unread, as far as the buffer reaches
macro grows(p) = p.r >= old(p.r) || p.r >= 2040
// c was read ahead (for loops that test the next byte before they take it)
macro ahead(p, c) = lsteps(p) && room(p, 1) && (p.r >= old(p.r) + 1 || p.r >= 2041) && c == lbyte(p, lp(p) - 1)

func (*Lexer).String(p) (s, ok)
  props C05
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lsteps(p)
  ensures consumed(p, s)
  ensures ok == (len(s) > 0)
  ensures forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> rdat(p.rd, j) > 32
  ensures !(lbyte(p, lp(p)) > 32)
  ensures grows(p)
  loop
    var buf []byte
    invariant lsteps(p) && grows(p)
    invariant base(buf) == 0 || fresh(buf)
    invariant lbuf(p, buf, old(lp(p)), lp(p)) && lp(p) >= old(lp(p))
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> rdat(p.rd, j) > 32
    decreases 281474976710656 - lp(p)
  loop
    var buf []byte
    var c byte
    invariant ahead(p, c)
    invariant base(buf) == 0 || fresh(buf)
    invariant lbuf(p, buf, old(lp(p)), (lp(p) - 1)) && (lp(p) - 1) >= old(lp(p))
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < (lp(p) - 1) ==> rdat(p.rd, j) > 32
    decreases 281474976710656 - lp(p)

func (*Lexer).StringStop(p, stopBytes) (s, ok)
  props C05
  requires lxok(p)
  requires base(stopBytes) != base(p.buf)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lsteps(p)
  ensures consumed(p, s)
  ensures ok == (len(s) > 0)
  ensures forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> rdat(p.rd, j) > 32 && !inbytes(old(string(stopBytes)), rdat(p.rd, j))
  ensures !(lbyte(p, lp(p)) > 32 && !inbytes(old(string(stopBytes)), lbyte(p, lp(p))))
  ensures grows(p)
  loop
    var buf []byte
    invariant lsteps(p) && grows(p)
    invariant string(stopBytes) == old(string(stopBytes))
    invariant base(buf) == 0 || fresh(buf)
    invariant lbuf(p, buf, old(lp(p)), lp(p)) && lp(p) >= old(lp(p))
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> rdat(p.rd, j) > 32 && !inbytes(old(string(stopBytes)), rdat(p.rd, j))
    decreases 281474976710656 - lp(p)
  loop
    var buf []byte
    var c byte
    invariant ahead(p, c)
    invariant string(stopBytes) == old(string(stopBytes))
    invariant base(buf) == 0 || fresh(buf)
    invariant lbuf(p, buf, old(lp(p)), (lp(p) - 1)) && (lp(p) - 1) >= old(lp(p))
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < (lp(p) - 1) ==> rdat(p.rd, j) > 32 && !inbytes(old(string(stopBytes)), rdat(p.rd, j))
    decreases 281474976710656 - lp(p)

func (*Lexer).Integer(p) (s, ok)
  props C05
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lsteps(p)
  ensures consumed(p, s)
  ensures ok == (len(s) > 0)
  ensures forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> udigit(rdat(p.rd, j))
  ensures !(udigit(lbyte(p, lp(p))))
  ensures grows(p)
  loop
    var buf []byte
    invariant lsteps(p) && grows(p)
    invariant base(buf) == 0 || fresh(buf)
    invariant lbuf(p, buf, old(lp(p)), lp(p)) && lp(p) >= old(lp(p))
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> udigit(rdat(p.rd, j))
    decreases 281474976710656 - lp(p)
  loop
    var buf []byte
    var c byte
    invariant ahead(p, c)
    invariant base(buf) == 0 || fresh(buf)
    invariant lbuf(p, buf, old(lp(p)), (lp(p) - 1)) && (lp(p) - 1) >= old(lp(p))
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < (lp(p) - 1) ==> udigit(rdat(p.rd, j))
    decreases 281474976710656 - lp(p)

func (*Lexer).Operator(p) (s, ok)
  props C05
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lsteps(p)
  ensures consumed(p, s)
  ensures ok == (len(s) > 0)
  ensures forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> opchar(rdat(p.rd, j))
  ensures !(opchar(lbyte(p, lp(p))))
  ensures grows(p)
  loop
    var buf []byte
    invariant lsteps(p) && grows(p)
    invariant base(buf) == 0 || fresh(buf)
    invariant lbuf(p, buf, old(lp(p)), lp(p)) && lp(p) >= old(lp(p))
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> opchar(rdat(p.rd, j))
    decreases 281474976710656 - lp(p)
  loop
    var buf []byte
    var c byte
    invariant ahead(p, c)
    invariant base(buf) == 0 || fresh(buf)
    invariant lbuf(p, buf, old(lp(p)), (lp(p) - 1)) && (lp(p) - 1) >= old(lp(p))
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < (lp(p) - 1) ==> opchar(rdat(p.rd, j))
    decreases 281474976710656 - lp(p)

func (*Lexer).TemplateText(p) (s, ok)
  props C05
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lsteps(p)
  ensures consumed(p, s)
  ensures ok == (len(s) > 0)
  ensures forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> !endchar(rdat(p.rd, j)) && rdat(p.rd, j) != 36
  ensures !(!endchar(lbyte(p, lp(p))) && lbyte(p, lp(p)) != 36)
  ensures grows(p)
  loop
    var buf []byte
    invariant lsteps(p) && grows(p)
    invariant base(buf) == 0 || fresh(buf)
    invariant lbuf(p, buf, old(lp(p)), lp(p)) && lp(p) >= old(lp(p))
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> !endchar(rdat(p.rd, j)) && rdat(p.rd, j) != 36
    decreases 281474976710656 - lp(p)
  loop
    var buf []byte
    var c byte
    invariant ahead(p, c)
    invariant base(buf) == 0 || fresh(buf)
    invariant lbuf(p, buf, old(lp(p)), (lp(p) - 1)) && (lp(p) - 1) >= old(lp(p))
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < (lp(p) - 1) ==> !endchar(rdat(p.rd, j)) && rdat(p.rd, j) != 36
    decreases 281474976710656 - lp(p)

func (*Lexer).WhiteSpace(p) (any)
  props C05
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lsteps(p)
  ensures any == (lp(p) > old(lp(p))) && lp(p) >= old(lp(p))
  ensures any ==> lp(p) <= got(p.rd)
  ensures forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> white(rdat(p.rd, j))
  ensures !white(lbyte(p, lp(p)))
  ensures grows(p)
  loop
    var any bool
    invariant lsteps(p) && grows(p)
    invariant any == (lp(p) > old(lp(p))) && lp(p) >= old(lp(p))
    invariant any ==> lp(p) <= got(p.rd)
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> white(rdat(p.rd, j))
    decreases 281474976710656 - lp(p)
  loop
    var c byte
    invariant ahead(p, c)
    invariant (lp(p) - 1) >= old(lp(p)) && (lp(p) - 1 > old(lp(p)) ==> lp(p) - 1 <= got(p.rd))
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < (lp(p) - 1) ==> white(rdat(p.rd, j))
    decreases 281474976710656 - lp(p)
  loop
    var any bool
    var c byte
    invariant any == (lp(p) - 1 > old(lp(p)))
  loop
    var n int
    var c byte
    invariant n == lp(p) - 1 - old(lp(p))

func (*Lexer).Space(p) (n, u)
  props C05
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lsteps(p)
  ensures n == lp(p) - old(lp(p)) && n >= 0
  ensures n > 0 ==> lp(p) <= got(p.rd)
  ensures forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> blank(rdat(p.rd, j))
  ensures !blank(lbyte(p, lp(p)))
  ensures uniform(p, u)
  ensures grows(p)
  loop
    var n int
    var m int
    invariant lsteps(p) && grows(p)
    invariant n >= 0 && m >= 0 && n + m == lp(p) - old(lp(p))
    invariant n + m > 0 ==> lp(p) <= got(p.rd)
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> blank(rdat(p.rd, j))
    invariant n == 0 ==> forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> rdat(p.rd, j) == 9
    invariant m == 0 ==> forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> rdat(p.rd, j) == 32
    invariant n > 0 ==> exists j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) && rdat(p.rd, j) == 32
    invariant m > 0 ==> exists j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) && rdat(p.rd, j) == 9
    decreases 281474976710656 - lp(p)
  loop
    var n int
    var m int
    var c byte
    invariant ahead(p, c)
    invariant n >= 0 && m >= 0 && n + m == (lp(p) - 1) - old(lp(p))
    invariant n + m > 0 ==> (lp(p) - 1) <= got(p.rd)
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < (lp(p) - 1) ==> blank(rdat(p.rd, j))
    invariant n == 0 ==> forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < (lp(p) - 1) ==> rdat(p.rd, j) == 9
    invariant m == 0 ==> forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < (lp(p) - 1) ==> rdat(p.rd, j) == 32
    invariant n > 0 ==> exists j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < (lp(p) - 1) && rdat(p.rd, j) == 32
    invariant m > 0 ==> exists j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < (lp(p) - 1) && rdat(p.rd, j) == 9
    decreases 281474976710656 - lp(p)

func (*Lexer).SpaceMax(p, max) (n, u)
  props C05
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lsteps(p)
  ensures n == lp(p) - old(lp(p)) && n >= 0 && (u != 0 ==> n <= (max > 0 ? max : 0))
  ensures n > 0 ==> lp(p) <= got(p.rd)
  ensures forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> blank(rdat(p.rd, j))
  ensures n < max ==> !blank(lbyte(p, lp(p)))
  ensures uniform(p, u)
  ensures grows(p)
  loop
    var spaces int
    var tabs int
    invariant lsteps(p) && grows(p)
    invariant spaces >= 0 && tabs >= 0 && spaces + tabs == lp(p) - old(lp(p))
    invariant (max > 0 ? spaces <= max && tabs <= max : spaces == 0 && tabs == 0)
    invariant spaces + tabs > 0 ==> lp(p) <= got(p.rd)
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> blank(rdat(p.rd, j))
    invariant spaces == 0 ==> forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> rdat(p.rd, j) == 9
    invariant tabs == 0 ==> forall j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) ==> rdat(p.rd, j) == 32
    invariant spaces > 0 ==> exists j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) && rdat(p.rd, j) == 32
    invariant tabs > 0 ==> exists j int :: {rdat(p.rd, j)} old(lp(p)) <= j && j < lp(p) && rdat(p.rd, j) == 9
    decreases 281474976710656 - lp(p)

func (*Lexer).Break(p) (b)
  props C05
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lsteps(p)
  ensures lp(p) == old(lp(p)) + (b ? (old(lbyte(p, lp(p))) == 13 && lbyte(p, old(lp(p)) + 1) == 10 ? 2 : 1) : 0)
  ensures b == (old(lbyte(p, lp(p))) == 13 || old(lbyte(p, lp(p))) == 10)
  ensures b ==> lp(p) <= got(p.rd)
  ensures grows(p)

func (*Lexer).End(p) (b)
  props C05
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lsteps(p)
  ensures b == endchar(old(lbyte(p, lp(p)))) && old(lbyte(p, lp(p))) == lbyte(p, old(lp(p)))
  ensures lp(p) == old(lp(p)) + (b ? 1 : 0)
  ensures !b ==> lp(p) < got(p.rd)
  ensures grows(p)

// the character at position k of a stream that is known up to e: how many bytes are looked at, and which it is
spec func rbytes(rd io.Reader, k int, e int) int = k + 1 >= e || ufull(rspan(rd, k, k + 1)) ? 1 : k + 2 >= e || ufull(rspan(rd, k, k + 2)) ? 2 : k + 3 >= e || ufull(rspan(rd, k, k + 3)) ? 3 : 4
spec func rat(rd io.Reader, k int, e int) int = k >= e ? 0 : rdat(rd, k) < 128 ? rdat(rd, k) : urune(rspan(rd, k, k + rbytes(rd, k, e)))
spec func rsize(rd io.Reader, k int, e int) int = k >= e || rdat(rd, k) < 128 ? 1 : usize(rspan(rd, k, k + rbytes(rd, k, e)))
macro lastsize(p) = mem(p.lastRuneSize)[off(p.lastRuneSize) + len(p.lastRuneSize) - 1]
macro sizesown(p) = base(p.lastRuneSize) == old(base(p.lastRuneSize)) || fresh(p.lastRuneSize)

func (*Lexer).Rune(p) (r, err)
  props C04 C05
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd], Lexer.lastRuneSize[p], mem(int)[base(p.lastRuneSize)]
  ensures lsteps(p)
  ensures (err == nil) == (old(lp(p)) < got(p.rd))
  ensures r == rat(p.rd, old(lp(p)), got(p.rd))
  ensures lp(p) == old(lp(p)) + rsize(p.rd, old(lp(p)), got(p.rd))
  ensures err == nil ==> lp(p) <= got(p.rd)
  ensures err == nil && r != 65533 ==> runestr(r) == rspan(p.rd, old(lp(p)), lp(p))
  ensures len(p.lastRuneSize) == old(len(p.lastRuneSize)) + 1 && lastsize(p) == lp(p) - old(lp(p)) && sizesown(p)
  ensures 1 <= lp(p) - old(lp(p)) && lp(p) - old(lp(p)) <= 4 && room(p, lp(p) - old(lp(p)))
  ensures p.r >= old(p.r) + (lp(p) - old(lp(p))) || p.r >= 2040
  loop 1
    var b []byte
    invariant lsteps(p) && fresh(b) && 1 <= len(b) && len(b) <= 4 && off(b) == 0
    invariant lbuf(p, b, old(lp(p)), lp(p))
    invariant string(b) == rspan(p.rd, old(lp(p)), old(lp(p)) + len(b))
    invariant forall n int :: {ufull(rspan(p.rd, old(lp(p)), n))} old(lp(p)) < n && n < old(lp(p)) + len(b) ==> !ufull(rspan(p.rd, old(lp(p)), n))
    invariant room(p, len(b)) && (p.r >= old(p.r) + len(b) || p.r >= 2048)
    decreases 4 - len(b)
  loop 2
    var i int
    invariant lsteps(p) && cur(size) >= 1 && cur(size) <= i && i <= len(cur(b))
    invariant lp(p) == old(lp(p)) + i && old(lp(p)) + len(cur(b)) <= got(p.rd)
    invariant room(p, i) && (p.r >= old(p.r) + i || p.r >= 2048 + i - len(cur(b)))
    decreases i

func (*Lexer).UnreadRune(p) (err)
  props C04 C05
  requires lxok(p)
  requires len(p.lastRuneSize) > 0 ==> 0 <= lastsize(p) && room(p, lastsize(p))
  modifies Lexer.r[p], Lexer.lastRuneSize[p]
  ensures lxok(p)
  ensures old(len(p.lastRuneSize)) == 0 ? err != nil && p.r == old(p.r) && p.lastRuneSize == old(p.lastRuneSize) : err == nil && p.r == old(p.r) - old(lastsize(p)) && len(p.lastRuneSize) == old(len(p.lastRuneSize)) - 1 && base(p.lastRuneSize) == old(base(p.lastRuneSize)) && off(p.lastRuneSize) == old(off(p.lastRuneSize))

func (*Lexer).PeekRune(p) (r, err)
  props C04 C05
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd], Lexer.lastRuneSize[p], mem(int)[base(p.lastRuneSize)]
  ensures lsteps(p) && sizesown(p)
  ensures lp(p) == old(lp(p))
  ensures r == rat(p.rd, lp(p), got(p.rd)) && err == nil
  ensures p.r >= old(p.r) || p.r >= 2036

spec func istoken(s string) bool
macro tokench(c) = uletter(c) || udigit(c) || c == 95
axiom istoken0 why "definition of istoken: made of letters, digits and underscores"
  = istoken("")
axiom istoken1 why "definition of istoken: made of letters, digits and underscores"
  = forall s string, c int :: {istoken(s + runestr(c))} istoken(s) && tokench(c) ==> istoken(s + runestr(c))

func (*Lexer).Token8(p) (s, ok)
  props C05
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd], Lexer.lastRuneSize[p], mem(int)[base(p.lastRuneSize)]
  ensures lsteps(p) && sizesown(p)
  ensures consumed(p, s)
  ensures ok == (len(s) > 0)
  ensures istoken(s)
  ensures !tokench(rat(p.rd, lp(p), got(p.rd)))
  ensures p.r >= old(p.r) || p.r >= 2030
  loop
    var buf []rune
    invariant lsteps(p) && sizesown(p) && (p.r >= old(p.r) || p.r >= 2030)
    invariant base(buf) == 0 || fresh(buf)
    invariant lp(p) >= old(lp(p)) && (lp(p) > old(lp(p)) ==> lp(p) <= got(p.rd))
    invariant (len(buf) == 0) == (lp(p) == old(lp(p)))
    invariant istoken(string(buf))
    invariant string(buf) == rspan(p.rd, old(lp(p)), lp(p))
    decreases 281474976710656 - lp(p)

macro numchars(p, k) = forall j int :: {rdat(p.rd, j)} k <= j && j < lp(p) ==> digitchar(rdat(p.rd, j)) || rdat(p.rd, j) == 46
macro onepoint(p, k) = forall i int, j int :: {rdat(p.rd, i), rdat(p.rd, j)} k <= i && i < j && j < lp(p) ==> rdat(p.rd, i) != 46 || rdat(p.rd, j) != 46
macro nopoint(p, k) = forall j int :: {rdat(p.rd, j)} k <= j && j < lp(p) ==> rdat(p.rd, j) != 46
macro plusminus(p) = old(lbyte(p, lp(p))) == 43 || old(lbyte(p, lp(p))) == 45
macro numstart(p) = old(lp(p)) + (plusminus(p) ? 1 : 0)

func (*Lexer).Number(p) (s, ok)
  props C05
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lsteps(p)
  ensures ok == (lp(p) > old(lp(p))) && lp(p) >= old(lp(p)) && (ok ==> lp(p) <= got(p.rd) && lp(p) > numstart(p))
  ensures ok ? s == rspan(p.rd, old(lp(p)) + (old(lbyte(p, lp(p))) == 43 ? 1 : 0), lp(p)) : s == ""
  ensures numchars(p, numstart(p))
  ensures onepoint(p, numstart(p))
  ensures ok ==> !digitchar(lbyte(p, lp(p)))
  ensures ok && nopoint(p, numstart(p)) ==> lbyte(p, lp(p)) != 46
  ensures !ok && !plusminus(p) ==> !digitchar(lbyte(p, lp(p))) && lbyte(p, lp(p)) != 46
  ensures !ok && plusminus(p) ==> !digitchar(lbyte(p, lp(p) + 1)) && lbyte(p, lp(p) + 1) != 46
  ensures grows(p)
  loop
    var buf []byte
    var point bool
    invariant lsteps(p) && (p.r >= old(p.r) + (plusminus(p) ? 1 : 0) || p.r >= 2044) && (plusminus(p) ==> room(p, 1))
    invariant base(buf) == 0 || fresh(buf)
    invariant lbuf(p, buf, numstart(p), lp(p)) && lp(p) >= numstart(p)
    invariant lbyte(p, old(lp(p))) == old(lbyte(p, lp(p)))
    invariant cur(sign) == (plusminus(p) ? old(lbyte(p, lp(p))) : 0)
    invariant string(buf) == rspan(p.rd, numstart(p), lp(p))
    invariant numchars(p, numstart(p))
    invariant onepoint(p, numstart(p))
    invariant !point ==> nopoint(p, numstart(p))
    invariant point ==> exists j int :: {rdat(p.rd, j)} numstart(p) <= j && j < lp(p) && rdat(p.rd, j) == 46
    decreases 281474976710656 - lp(p)

macro lineend(c) = endchar(c) || c == 10 || c == 13
func (*Lexer).Comment(p) (b)
  props C05
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lsteps(p)
  ensures b == (old(lbyte(p, lp(p))) == 35 && blank(lbyte(p, old(lp(p)) + 1)))
  ensures !b ==> lp(p) == old(lp(p))
  ensures b ==> lp(p) >= old(lp(p)) + 3 && lineend(lbyte(p, lp(p) - 1)) && lp(p) - 1 <= got(p.rd)
  ensures b ==> forall j int :: {rdat(p.rd, j)} old(lp(p)) + 2 <= j && j < lp(p) - 1 ==> !lineend(rdat(p.rd, j))
  ensures grows(p)
  loop
    invariant lsteps(p) && grows(p)
    invariant lp(p) >= old(lp(p)) + 2 && lp(p) <= got(p.rd)
    invariant old(lbyte(p, lp(p))) == 35 && blank(lbyte(p, old(lp(p)) + 1))
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) + 2 <= j && j < lp(p) ==> !lineend(rdat(p.rd, j))
    decreases 281474976710656 - lp(p)
  loop
    var c byte
    invariant c == lbyte(p, lp(p) - 1)
    invariant lp(p) >= old(lp(p)) + 2 && lp(p) - 1 <= got(p.rd)
    invariant lp(p) - 1 == got(p.rd) ==> lp(p) >= old(lp(p)) + 3
    invariant forall j int :: {rdat(p.rd, j)} old(lp(p)) + 2 <= j && j < lp(p) - 1 ==> !lineend(rdat(p.rd, j))
    decreases 281474976710656 - lp(p)

macro quotechar(c) = c == 34 || c == 39 || c == 96
func (*Lexer).Quoted(p, ind) (s, ok, err)
  props C21
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lsteps(p)
  ensures !quotechar(old(lbyte(p, lp(p)))) ==> !ok && err == nil && lp(p) == old(lp(p))
  ensures quotechar(old(lbyte(p, lp(p)))) ==> ok == (err == nil) && lp(p) > old(lp(p)) && old(lp(p)) < got(p.rd)
  ensures err == nil ==> lp(p) <= got(p.rd) || lp(p) == old(lp(p))
  ensures lp(p) <= got(p.rd) + 1 || lp(p) == old(lp(p))
  loop
    var buf []byte
    invariant lsteps(p)
    invariant base(buf) == 0 || fresh(buf)
    invariant quotechar(old(lbyte(p, lp(p)))) && lp(p) > old(lp(p)) && lp(p) <= got(p.rd)
    decreases 281474976710656 - lp(p)

func (*Lexer).Block(p, nsp) (s, ok)
  props C21
  requires lxok(p) && nsp >= 0
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lsteps(p)
  ensures !ok ==> lp(p) == old(lp(p)) && s == ""
  ensures ok ==> lp(p) > old(lp(p)) && old(lp(p)) < got(p.rd) && old(lbyte(p, lp(p))) == 92
  ensures ok ==> lp(p) <= got(p.rd) + 2
  loop 1
    invariant lsteps(p) && lp(p) > old(lp(p)) && old(lp(p)) < got(p.rd) && lp(p) <= got(p.rd) + 1
    decreases 281474976710658 - lp(p)
  loop 2
    invariant lsteps(p) && lp(p) > old(lp(p)) && old(lp(p)) < got(p.rd) && lp(p) <= got(p.rd)
    decreases 281474976710658 - lp(p)
  loop 3
    var s string
    decreases len(s)

func (*Lexer).Scalar(p, n) (s, ok)
  props C21
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lsteps(p)
  ensures lp(p) >= old(lp(p))
  ensures old(lbyte(p, lp(p))) > 32 ==> lp(p) > old(lp(p))
  ensures lp(p) <= got(p.rd) + 1 || lp(p) == old(lp(p))

func (*Lexer).ScalarType(p, n) (s, ok)
  props C21
  requires lxok(p)
  modifies Lexer.r[p], Lexer.lastByte[p], Lexer.err[p], mem(byte)[base(p.buf)], got[p.rd], rend[p.rd], empties[p.rd]
  ensures lsteps(p)
  ensures lp(p) >= old(lp(p))
  ensures old(lbyte(p, lp(p))) > 32 ==> lp(p) > old(lp(p))
  ensures lp(p) <= got(p.rd) + 1 || lp(p) == old(lp(p))

// The parser reads with a lexer of its own.
macro evok(e) = e != nil && wf(e) && e.current == 0 && e.max == 0 && len(e.items) == 0 && base(e.items) == 0 && base(e.levels) == 0

func NewParser(rd) (p)
  props C04 C21
  requires ready(rd)
  modifies got[rd], rend[rd], empties[rd]
  ensures fresh(p) && fresh(p.Lexer.buf) && p.Lexer.rd == rd && len(p.Lexer.lastRuneSize) == 0 && base(p.Lexer.lastRuneSize) == 0
  ensures lxok(p.Lexer) && lp(p.Lexer) == old(got(rd)) && got(rd) >= old(got(rd))
  ensures fresh(p.ev) && evok(p.ev) && p.ind == 0

func NewBytesParser(buf) (p)
  props C04
  modifies got, rend, empties
  ensures fresh(p) && lxok(p.Lexer) && lp(p.Lexer) == 0
  ensures forall k int :: {rdat(p.Lexer.rd, k)} 0 <= k && k < len(buf) ==> rdat(p.Lexer.rd, k) == buf[k]
  ensures fresh(p.Lexer.buf) && fresh(p.ev) && evok(p.ev) && p.ind == 0 && base(p.Lexer.lastRuneSize) == 0

func NewStringParser(s) (p)
  props C04
  modifies got, rend, empties
  ensures fresh(p) && lxok(p.Lexer) && lp(p.Lexer) == 0
  ensures forall k int :: {rdat(p.Lexer.rd, k)} 0 <= k && k < len(s) ==> rdat(p.Lexer.rd, k) == s[k]
  ensures fresh(p.Lexer.buf) && fresh(p.ev) && evok(p.ev) && p.ind == 0 && base(p.Lexer.lastRuneSize) == 0
