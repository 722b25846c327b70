// Reading the binary format.

package os

// what a file holds, and where the next write goes (-1: unknown, somebody reads it)
ghost fstr *os.File -> string
ghost fpos *os.File -> int
spec func disk(name string) string

package bytes

spec func rdat(rd io.Reader, k int) int

trusted func NewReader(b) (r)
  why "bytes.NewReader delivers the bytes of b and then ends"
  ensures r != nil && fresh(r)
  ensures forall k int :: {rdat(box(r, *bytes.Reader), k)} rdat(box(r, *bytes.Reader), k) == (0 <= k && k < len(b) ? b[k] : 0 - 1)

package bufio

// bat(r, k) is byte k of the stream that r reads, -1 after its end at blen(r)
spec func bat(r *bufio.Reader, k int) int
spec func blen(r *bufio.Reader) int
ghost bpos *bufio.Reader -> int
axiom batrange why "the bytes of a stream are bytes; streams are finite and shorter than 2^62 bytes"
  = forall r *bufio.Reader, k int :: {bat(r, k)} 0 - 1 <= bat(r, k) && bat(r, k) < 256 && (k >= blen(r) ==> bat(r, k) == 0 - 1)
axiom blenrange why "streams are finite and shorter than 2^62 bytes"
  = forall r *bufio.Reader :: {blen(r)} 0 <= blen(r) && blen(r) < 4611686018427387904

// what a stream over rd delivers
macro filebyte(f, k) = 0 <= k && k < len(fstr(f)) ? fstr(f)[k] : 0 - 1
macro streams(r, rd) = is(rd, *os.File) && as(rd, *os.File) != nil && old(fpos(as(rd, *os.File))) >= 0 ? (forall k int :: {bat(r, k)} bat(r, k) == (let f = as(rd, *os.File) in k < 0 ? 0 - 1 : filebyte(f, old(fpos(f)) + k))) : (!is(rd, *os.File) ==> forall k int :: {bat(r, k)} bat(r, k) == rdat(rd, k))

trusted func NewReader(rd) (r)
  why "bufio.NewReader delivers the bytes of the reader it is given, from where that stands (of a file: while nobody writes it)"
  modifies fpos
  ensures r != nil && fresh(r) && bpos(r) == 0
  ensures streams(r, rd)
  ensures forall f *os.File :: {fpos(f)} rd == box(f, *os.File) ? fpos(f) == 0 - 1 : fpos(f) == old(fpos(f))

trusted func (*Reader).ReadByte(b) (c, err)
  why "bufio.Reader.ReadByte delivers the bytes of the stream in order, each once; at the end (or on a read error, which counts as the end) it consumes nothing and gives an error"
  requires b != nil
  modifies bpos[b]
  ensures 0 <= old(bpos(b)) && bpos(b) <= blen(b)
  ensures bat(b, old(bpos(b))) >= 0 ==> c == bat(b, old(bpos(b))) && err == nil && bpos(b) == old(bpos(b)) + 1
  ensures bat(b, old(bpos(b))) < 0 ==> err != nil && bpos(b) == old(bpos(b))

package ogdl

// position in the stream; the parser counts what it takes
macro bp(p) = bpos(p.r)
macro bcounts(p) = p != nil && p.r != nil && 0 <= p.n && p.n <= bp(p) && bp(p) <= blen(p.r)
macro counted(p) = bcounts(p) && p.n - old(p.n) == bp(p) - old(bp(p)) && bp(p) >= old(bp(p)) && (bp(p) == old(bp(p)) || bat(p.r, bp(p) - 1) >= 0)

func (*binParser).read(p) (c)
  props C01 C02 C03
  requires bcounts(p)
  modifies binParser.n[p], binParser.last[p], bpos[p.r]
  ensures counted(p)
  ensures c == bat(p.r, old(bp(p)))
  ensures bp(p) == old(bp(p)) + (c >= 0 ? 1 : 0)

func (*binParser).header(p) (ok)
  props C01 C02 C03
  requires bcounts(p)
  modifies binParser.n[p], binParser.last[p], bpos[p.r]
  ensures counted(p)
  ensures ok == old(bat(p.r, bp(p)) == 1 && bat(p.r, bp(p) + 1) == 71 && bat(p.r, bp(p) + 2) == 0)
  ensures ok ? bp(p) == old(bp(p)) + 3 : bp(p) <= old(bp(p)) + 3

// value and size of the variable length integer at position k; the value is negative when it is cut short or not valid
macro cut2(r, k) = bat(r, k + 1) < 0
macro cut3(r, k) = bat(r, k + 1) < 0 || bat(r, k + 2) < 0
macro cut4(r, k) = bat(r, k + 1) < 0 || bat(r, k + 2) < 0 || bat(r, k + 3) < 0
spec func dv(r *bufio.Reader, k int) int
  = let b = bat(r, k) in b < 128 ? b : b < 192 ? (cut2(r, k) ? 0 - 1 : (b - 128) * 256 + bat(r, k + 1)) : b < 224 ? (cut3(r, k) ? 0 - 1 : (b - 192) * 65536 + bat(r, k + 1) * 256 + bat(r, k + 2)) : b < 240 ? (cut4(r, k) ? 0 - 1 : (b - 224) * 16777216 + bat(r, k + 1) * 65536 + bat(r, k + 2) * 256 + bat(r, k + 3)) : 0 - 1
spec func dvn(r *bufio.Reader, k int) int
  = let b = bat(r, k) in b < 128 ? 1 : b < 192 ? 2 : b < 224 ? 3 : b < 240 ? 4 : 1

func (*binParser).varInt(p) (v)
  props C01 C02 C03
  requires bcounts(p)
  modifies binParser.n[p], binParser.last[p], bpos[p.r]
  ensures counted(p)
  ensures (v >= 0) == (old(dv(p.r, bp(p))) >= 0)
  ensures v >= 0 ==> v == old(dv(p.r, bp(p))) && bp(p) == old(bp(p) + dvn(p.r, bp(p))) && v < 268435456

// where the text that starts at k ends
spec func tend(r *bufio.Reader, k int) int = k < 0 || k >= blen(r) || bat(r, k) <= 0 ? k : tend(r, k + 1)

// the text of the stream from position k to e
spec func span(r *bufio.Reader, k int, e int) string
axiom spanlen why "definition of span: the string of the bytes from k to e"
  = forall r *bufio.Reader, k int, e int :: {span(r, k, e)} len(span(r, k, e)) == (k <= e ? e - k : 0)
axiom spanat why "definition of span: the string of the bytes from k to e"
  = forall r *bufio.Reader, k int, e int, j int :: {span(r, k, e)[j]} 0 <= j && j < e - k && bat(r, k + j) >= 0 ==> span(r, k, e)[j] == bat(r, k + j)
macro isspan(s, r, k, e) = len(s) == e - k && (forall j int :: {s[j]} 0 <= j && j < len(s) ==> s[j] == bat(r, j + k))

func (*binParser).line(p, write) (lev, bin, b)
  props C01 C02 C03
  requires bcounts(p)
  modifies binParser.n[p], binParser.last[p], bpos[p.r]
  ensures counted(p)
  ensures 0 <= lev && lev < 268435456
  ensures old(dv(p.r, bp(p))) < 1 ==> lev == 0 && !bin
  ensures old(dv(p.r, bp(p))) == 0 ==> bp(p) == old(bp(p) + dvn(p.r, bp(p)))
  ensures old(dv(p.r, bp(p))) >= 1 ==> lev == old(dv(p.r, bp(p))) && bin == old(bat(p.r, bp(p) + dvn(p.r, bp(p))) == 1) && bp(p) > old(bp(p))
  ensures lev > 0 && !bin ==> (let k = old(bp(p) + dvn(p.r, bp(p))) in let e = old(tend(p.r, k)) in bp(p) == e + (bat(p.r, e) == 0 ? 1 : 0) && (write ==> string(b) == span(p.r, k, e)))
  loop 1
    invariant counted(p) && bp(p) > old(bp(p))
    decreases blen(p.r) - bp(p)
  loop 2
    var n int
    invariant counted(p) && bp(p) > old(bp(p))
    invariant n >= 0
    decreases n
  loop 3
    var n int
    invariant counted(p) && bp(p) > old(bp(p))
    invariant n == bat(p.r, bp(p) - (n < 0 ? 0 : 1))
    invariant (let k = old(bp(p) + dvn(p.r, bp(p))) in let q = bp(p) - (n < 0 ? 0 : 1) in k <= q && old(tend(p.r, k)) == tend(p.r, q))
    invariant write ==> (let k = old(bp(p) + dvn(p.r, bp(p))) in let q = bp(p) - (n < 0 ? 0 : 1) in isspan(bufstr(cur(buf)), p.r, k, q))
    decreases blen(p.r) - bp(p) + (n > 0 ? 1 : 0)

// the lines that the last parse read: line j starts at lpos(j); lines(0) is the event handler
ghost lpos int -> int
ghost lines int -> *SimpleEventHandler
ghost brd int -> *bufio.Reader
// the line after the one at k
spec func lnext(r *bufio.Reader, k int) int = let t = k + dvn(r, k) in let e = tend(r, t) in e + (bat(r, e) == 0 ? 1 : 0)

// content of line j starts at ltext(r, j)
macro ltext(r, j) = lpos(j) + dvn(r, lpos(j))
macro linelevs(r, h, n) = forall j int :: {lpos(j)} 0 <= j && j < n ==> dv(r, lpos(j)) >= 1 && h.levels[j] == dv(r, lpos(j)) - 1
macro linenext(r, n) = forall j int :: {lpos(j)} 0 <= j && j < n && bat(r, ltext(r, j)) != 1 ==> lpos(j + 1) == lnext(r, lpos(j))
macro linetext(r, h, n) = forall j int :: {lpos(j)} 0 <= j && j < n && bat(r, ltext(r, j)) != 1 ==> (let t = ltext(r, j) in h.items[j] == box(span(r, t, tend(r, t)), string))
macro linebins(r, h, n) = forall j int :: {lpos(j)} 0 <= j && j < n && bat(r, ltext(r, j)) == 1 ==> isbytes(h.items[j])
macro linesof(r, h, n) = linelevs(r, h, n) && linenext(r, n) && linetext(r, h, n) && linebins(r, h, n)

func (*binParser).parse(p) (g)
  props C01 C02
  requires p == nil || bcounts(p)
  modifies binParser.n[p], binParser.last[p], bpos[p.r], lpos, lines, brd, evnode
  ensures p == nil ==> g == nil
  ensures p != nil ==> counted(p)
  ensures p != nil && !old(bat(p.r, bp(p)) == 1 && bat(p.r, bp(p) + 1) == 71 && bat(p.r, bp(p) + 2) == 0) ==> g == nil
  ensures p != nil && old(bat(p.r, bp(p)) == 1 && bat(p.r, bp(p) + 1) == 71 && bat(p.r, bp(p) + 2) == 0) ==> fresh(g)
  ensures g != nil ==> brd(0) == p.r && (let h = lines(0) in treeof(h, g))
  ensures g != nil ==> (let h = lines(0) in linelevs(p.r, h, len(h.items)))
  ensures g != nil ==> (let h = lines(0) in linenext(p.r, len(h.items)))
  ensures g != nil ==> (let h = lines(0) in linetext(p.r, h, len(h.items)))
  ensures g != nil ==> (let h = lines(0) in linebins(p.r, h, len(h.items)))
  ensures g != nil ==> (let h = lines(0) in lpos(0) == old(bp(p)) + 3 && dv(p.r, lpos(len(h.items))) < 1)
  ensures g != nil ==> (let h = lines(0) in let e = lpos(len(h.items)) in dv(p.r, e) == 0 ==> bp(p) == e + dvn(p.r, e))
  ensures g == nil && p != nil ==> bp(p) <= old(bp(p)) + 3
  loop
    init lpos[0] := bp(p)
    init brd[0] := p.r
    invariant brd(0) == p.r
    init lines[0] := cur(ev)
    invariant lines(0) == cur(ev)
    set lpos[len(cur(ev).items)] := bp(p)
    invariant counted(p) && wf(cur(ev)) && cur(ev).max < 268435456
    invariant linelevs(p.r, cur(ev), len(cur(ev).items))
    invariant linenext(p.r, len(cur(ev).items))
    invariant linetext(p.r, cur(ev), len(cur(ev).items))
    invariant linebins(p.r, cur(ev), len(cur(ev).items))
    invariant lpos(0) == old(bp(p)) + 3
    invariant bp(p) == lpos(len(cur(ev).items))
    invariant base(cur(ev).items) == 0 || base(cur(ev).items) >= entry(next())
    invariant base(cur(ev).levels) == 0 || base(cur(ev).levels) >= entry(next())
    decreases blen(p.r) - bp(p)

// ---- whole objects ----

macro header(r, k) = bat(r, k) == 1 && bat(r, k + 1) == 71 && bat(r, k + 2) == 0

func newBytesBinParser(b) (p)
  props C01 C02
  ensures fresh(p) && p.r != nil && p.n == 0 && bp(p) == 0
  ensures forall k int :: {bat(p.r, k)} bat(p.r, k) == (0 <= k && k < len(b) ? b[k] : 0 - 1)
  modifies bpos, fpos

func newBinParser(rd) (p)
  props C01 C02 C03
  modifies bpos, fpos
  ensures fresh(p) && p.r != nil && p.n == 0 && bp(p) == 0
  ensures let r = p.r in streams(r, rd)
  ensures forall f *os.File :: {fpos(f)} rd == box(f, *os.File) || fpos(f) == old(fpos(f))

// the bytes that a graph was read from
ghost source *Graph -> string

func FromBinary(b) (g)
  props C01 C02 C19
  modifies bpos, fpos, lpos, lines, brd, evnode, source
  set source[g] := string(b)
  ensures g != nil ==> source(g) == string(b)
  ensures (g != nil) == (len(b) >= 3 && b[0] == 1 && b[1] == 71 && b[2] == 0)
  ensures g != nil ==> (let h = lines(0) in let r = brd(0) in treeof(h, g) && linesof(r, h, len(h.items)) && lpos(0) == 3 && dv(r, lpos(len(h.items))) < 1 && (forall k int :: {bat(r, k)} bat(r, k) == (0 <= k && k < len(b) ? b[k] : 0 - 1)))

func FromBinaryReader(rd) (g)
  props C01 C02
  modifies bpos, fpos, lpos, lines, brd, evnode
  ensures !is(rd, *os.File) ==> (g != nil) == (rdat(rd, 0) == 1 && rdat(rd, 1) == 71 && rdat(rd, 2) == 0)
  ensures g != nil ==> (let h = lines(0) in let r = brd(0) in treeof(h, g) && linesof(r, h, len(h.items)) && lpos(0) == 3 && dv(r, lpos(len(h.items))) < 1 && streams(r, rd))

func FromBinaryBufioReader(r) (g)
  props C01 C02
  requires r != nil && 0 <= bpos(r) && bpos(r) <= blen(r)
  modifies bpos[r], lpos, lines, brd, evnode
  ensures (g != nil) == old(header(r, bpos(r)))
  ensures g != nil ==> (let h = lines(0) in treeof(h, g) && linesof(r, h, len(h.items)) && lpos(0) == old(bpos(r)) + 3 && dv(r, lpos(len(h.items))) < 1)

// ---- what is written is what is read ----

lemma textend(r *bufio.Reader, a int, n int)
  props C01
  requires 0 <= a && 0 <= n && a + n < blen(r) && (forall j int :: {bat(r, j)} a <= j && j < a + n ==> bat(r, j) > 0)
  ensures tend(r, a) == tend(r, a + n)
  induction n
  use textend(r, a + 1, n - 1)

// a level as it is written
lemma levelback(r *bufio.Reader, k int, lv int)
  props C01
  requires 0 <= lv && lv < 268435456 && 0 <= k
  requires let s = vint(lv) in forall j int :: {bat(r, j)} k <= j && j < k + len(s) ==> bat(r, j) == s[j - k]
  ensures dv(r, k) == lv && dvn(r, k) == len(vint(lv))

// a line as it is written: level, content and a zero
lemma lineback(r *bufio.Reader, k int, lv int, c string)
  props C01
  requires 1 <= lv && lv < 268435456 && 0 <= k && len(c) > 0 && c[0] != 1 && (forall j int :: {c[j]} 0 <= j && j < len(c) ==> c[j] != 0)
  requires let s = vint(lv) in forall j int :: {bat(r, j)} k <= j && j < k + len(s) ==> bat(r, j) == s[j - k]
  requires let o = k + len(vint(lv)) in forall j int :: {bat(r, j)} o <= j && j < o + len(c) ==> bat(r, j) == c[j - o]
  requires bat(r, k + len(vint(lv)) + len(c)) == 0
  use levelback(r, k, lv)
  use textend(r, k + dvn(r, k), len(c))
  ensures dv(r, k) == lv && dvn(r, k) == len(vint(lv))
  ensures bat(r, k + dvn(r, k)) != 1 && tend(r, k + dvn(r, k)) == k + dvn(r, k) + len(c)
  ensures lnext(r, k) == k + len(vint(lv)) + len(c) + 1
  ensures span(r, k + dvn(r, k), tend(r, k + dvn(r, k))) == c
