// The log.

package os

trusted func OpenFile(name, flag, perm) (f, err)
  why "os.OpenFile opens the named file; without O_TRUNC (and with O_CREATE and O_RDWR) it keeps its bytes"
  modifies fpos, fstr
  ensures err == nil ==> f != nil && fresh(f) && fpos(f) == 0
  ensures err == nil && flag == 66 ==> fstr(f) == disk(name)
  ensures forall x *os.File :: {fpos(x)} fresh(x) || fpos(x) == old(fpos(x))
  ensures forall x *os.File :: {fstr(x)} fresh(x) || fstr(x) == old(fstr(x))

trusted func (*File).Close(f) (err)
  why "os.File.Close changes no bytes"

trusted func (*File).Sync(f) (err)
  why "os.File.Sync changes no bytes"

trusted func (*File).Seek(f, off, whence) (n, err)
  why "os.File.Seek sets the position; it does not fail on an open regular file for positions from 0"
  modifies fpos[f]
  ensures f == nil ==> err != nil && unchanged(fpos)
  ensures f != nil ==> 0 <= len(fstr(f)) && len(fstr(f)) < 4611686018427387904
  ensures f != nil && whence == 0 && off >= 0 ==> err == nil && n == off && fpos(f) == off
  ensures f != nil && whence == 0 && off < 0 ==> err != nil && unchanged(fpos)
  ensures f != nil && whence == 2 && off == 0 ==> err == nil && n == len(fstr(f)) && fpos(f) == n

trusted func (*File).Write(f, b) (n, err)
  why "os.File.Write writes all bytes at the position (I/O faults are out of scope)"
  modifies fpos[f], fstr[f]
  ensures f != nil && old(fpos(f)) == len(old(fstr(f))) ==> fstr(f) == old(fstr(f)) + old(string(b)) && fpos(f) == len(fstr(f)) && n == len(b) && err == nil

trusted func (*File).ReadAt(f, b, off) (n, err)
  why "os.File.ReadAt reads the bytes at the given position without moving the file's own"
  modifies mem(byte)[base(b)]
  ensures f != nil && off >= 0 && off + len(b) <= len(fstr(f)) ==> err == nil && n == len(b) && (forall k int :: {mem(b)[k]} off(b) <= k && k < off(b) + len(b) ==> mem(b)[k] == fstr(f)[off + k - off(b)])

package ogdl

func OpenLog(file) (l, err)
  props C03
  modifies fpos, fstr
  ensures err == nil ==> fresh(l) && l.f != nil && fstr(l.f) == disk(file)
  ensures forall x *os.File :: {fstr(x)} fresh(x) || fstr(x) == old(fstr(x))

func (*Log).Close(l)
  props C03
  requires l != nil

func (*Log).Sync(l)
  props C03
  requires l != nil

func (*Log).SetSync(l, sync)
  props C03
  requires l != nil
  modifies Log.autoSync[l]
  ensures l.autoSync == sync

// what the log holds
macro logstr(l) = l.f != nil ? fstr(l.f) : bufstr(l.b)

func (*Log).AddBinary(l, b) (i)
  props C03
  requires l != nil
  modifies fpos[l.f], fstr[l.f], bufstr[l.b]
  ensures i == old(len(logstr(l)))
  ensures logstr(l) == old(logstr(l) + string(b))

func (*Log).Add(l, g) (i)
  props C03
  requires l != nil && acyclic() && plain() && (g != nil ==> 0 <= rank(g) && rank(g) < 268435455)
  modifies fpos[l.f], fstr[l.f], bufstr[l.b]
  ensures g == nil ==> i == 0 && logstr(l) == old(logstr(l))
  ensures g != nil ==> i == old(len(logstr(l))) && logstr(l) == old(logstr(l)) + chr(1) + chr(71) + chr(0) + benc(g, 1, len(g.Out)) + chr(0)

func (*Log).Bytes(l) (r)
  props C03
  requires l != nil
  ensures l.f == nil ==> string(r) == bufstr(l.b)
  ensures l.f != nil ==> r == nil

// the stream r reads f from position i
macro readsfrom(r, f, i) = forall k int :: {bat(r, k)} bat(r, k) == (k < 0 ? 0 - 1 : filebyte(f, i + k))

func (*Log).Get(l, i) (g, next, err)
  props C03
  requires l != nil
  modifies fpos[l.f], bpos, lpos, lines, brd, evnode
  ensures l.f == nil || i < 0 ==> g == nil && next == 0 - 1 && err != nil
  ensures l.f != nil && i >= 0 ==> err == nil && (let f = l.f in (g != nil) == (filebyte(f, i) == 1 && filebyte(f, i + 1) == 71 && filebyte(f, i + 2) == 0))
  ensures g != nil ==> (let f = l.f in let h = lines(0) in let r = brd(0) in readsfrom(r, f, i) && treeof(h, g) && linesof(r, h, len(h.items)) && lpos(0) == 3 && dv(r, lpos(len(h.items))) < 1 && (let e = lpos(len(h.items)) in dv(r, e) == 0 ==> next == i + e + dvn(r, e)))

// the number of lines that the last walk through an object saw
ghost lcount int -> int
macro walk(r, n) = 0 <= n && lpos(0) == 3 && (forall j int :: {lpos(j)} 0 <= j && j < n ==> dv(r, lpos(j)) >= 1 && (bat(r, lpos(j) + dvn(r, lpos(j))) != 1 ==> lpos(j + 1) == lnext(r, lpos(j))))

func (*Log).GetBinary(l, i) (b, next, err)
  props C03
  requires l != nil
  modifies fpos[l.f], bpos, lpos, lcount, brd
  ensures l.f == nil || i < 0 ==> b == nil && next == 0 && err != nil
  ensures l.f != nil && i >= 0 ==> (let f = l.f in (b == nil) == !(filebyte(f, i) == 1 && filebyte(f, i + 1) == 71 && filebyte(f, i + 2) == 0))
  ensures b != nil ==> fresh(b) && err == nil && next == i + len(b) && (let f = l.f in let r = brd(0) in readsfrom(r, f, i) && walk(r, lcount(0)) && dv(r, lpos(lcount(0))) < 1 && (dv(r, lpos(lcount(0))) == 0 ==> len(b) == lpos(lcount(0)) + dvn(r, lpos(lcount(0)))))
  ensures b != nil ==> (let f = l.f in forall k int :: {mem(b)[k]} off(b) <= k && k < off(b) + len(b) ==> mem(b)[k] == fstr(f)[i + k - off(b)])
  loop
    init lpos[0] := bp(cur(p))
    init lcount[0] := 0
    init brd[0] := cur(p).r
    set lpos[lcount(0) + 1] := bp(cur(p))
    set lcount[0] := lcount(0) + 1
    invariant bcounts(cur(p)) && brd(0) == cur(p).r && cur(p).n == bp(cur(p)) && bp(cur(p)) >= 3 && bat(cur(p).r, bp(cur(p)) - 1) >= 0
    invariant walk(cur(p).r, lcount(0))
    invariant bp(cur(p)) == lpos(lcount(0))
    decreases blen(cur(p).r) - bp(cur(p))
