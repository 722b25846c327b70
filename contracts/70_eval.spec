// Evaluation: paths, indexes, expressions (C10, C12, C13).

package reflect

spec func vflag(x interface{}) int
spec func vkind(flag int) int

trusted func ValueOf(x) (r)
  why "reflect.ValueOf gives a Value of the kind of x"
  ensures r.flag == vflag(x)

trusted func Value.Kind(v) (k)
  why "reflect.Value.Kind is a function of the value"
  ensures k == vkind(v.flag)

package ogdl

macro scalar(x) = x == nil || istext(x) || anyint(x) || isfloat(x) || is(x, bool)
axiom scalarkinds why "scalars are neither functions nor pointers, to package reflect"
  = forall x interface{} :: {vflag(x)} scalar(x) ==> vkind(vflag(x)) != 19 && vkind(vflag(x)) != 22

func isNumber(s) (r)
  props C12
  ensures r == numText(s)

macro numText(s) = len(s) > 0 && (digit(s[0]) || len(s) > 1 && s[0] == '-' && digit(s[1]))

trusted func (*Graph).function(g, path, typ) (r, err)
  why "calls of registered functions go through package reflect; they are assumed to change graphs only in ways that keep them well formed, and not to panic. Contents that are neither functions nor pointers give nothing"
  keepsinv
  modifies Graph.Out, Graph.This, mem(*Graph)
  ensures scalar(typ) ==> r == nil && err == nil && unchanged(Graph.Out, Graph.This, mem(*Graph))

// what is neither a path nor an expression evaluates to itself
macro constant(e) = e != nil && str(e.This) != "!p" && str(e.This) != "!e"
func (*Graph).Eval(g, e) (r, err)
  props C12 C15
  modifies Graph.Out, Graph.This, mem(*Graph), catp, stepat, stepix
  ensures e == nil ==> r == box(e, *Graph) && err == nil && unchanged(Graph.Out, Graph.This, mem(*Graph))
  ensures old(constant(e)) ==> err == nil && unchanged(Graph.Out, Graph.This, mem(*Graph))
  ensures old(constant(e)) && old(len(e.Out)) != 0 ==> r == box(e, *Graph)
  ensures old(constant(e)) && old(len(e.Out)) == 0 && old(tonum(e.This)) != nil ==> r == old(tonum(e.This))
  ensures old(constant(e)) && old(len(e.Out)) == 0 && old(tonum(e.This)) == nil && e.This != nil ==> r == old(isboolish(inner(e.This)) ? box(boolof(inner(e.This)), bool) : e.This)

func (*Graph).evalBool(g, e) (r)
  props C12 C15
  modifies Graph.Out, Graph.This, mem(*Graph), catp, stepat, stepix
  ensures old(constant(e)) && old(len(e.Out)) == 0 && old(is(e.This, string)) ==> unchanged(Graph.Out, Graph.This, mem(*Graph))

// an expression that is a number
macro literal(p) = p != nil && p.This != nil && numText(str(p.This))

func (*Graph).evalExpression(g, p, simpl) (r, err)
  props C12
  modifies Graph.Out, Graph.This, mem(*Graph), catp, stepat, stepix
  ensures p == nil || old(p.This) == nil ==> r == nil && err != nil && unchanged(Graph.Out, Graph.This, mem(*Graph), stepat, stepix)
  ensures old(literal(p)) ==> r == old(tonum(p.This)) && err == nil && unchanged(Graph.Out, Graph.This, mem(*Graph), stepat, stepix)

func (*Graph).evalBinary(g, p) (r)
  props C12
  modifies Graph.Out, Graph.This, mem(*Graph), catp, stepat, stepix

func (*Graph).evalUnary(g, p) (r)
  props C12
  requires p != nil && len(p.Out) > 0
  modifies Graph.Out, Graph.This, mem(*Graph), catp, stepat, stepix

func (*Graph).assign(g, p, v, op) (r)
  props C12
  requires p != nil
  modifies Graph.Out, Graph.This, mem(*Graph), catp, stepat, stepix

// the integer that an index stands for, when it is written as a number; -1 when there is none
macro litindex(e) = len(e.Out) == 0 || e.Out[0].This == nil || numText(str(e.Out[0].This))
spec func ixval(e *Graph) int reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = len(e.Out) == 0 ? 0 - 1 : e.Out[0].This == nil ? 0 - 2 : let n = tonum(e.Out[0].This) in anyint(n) && 0 <= i64(n) ? i64(n) : 0 - 3

func (*Graph).index(g, c) (r)
  props C10 C12
  requires g != nil
  modifies Graph.Out, Graph.This, mem(*Graph), catp, stepat, stepix
  ensures old(litindex(g)) ==> r == old(ixval(g)) && unchanged(Graph.Out, Graph.This, mem(*Graph), stepat, stepix)

// ---- paths made of names, indexes and selectors ----

macro isindex(e) = str(e.This) == "!i"
macro isselector(e) = str(e.This) == "!s"
macro isname(e) = str(e.This) != "!i" && str(e.This) != "!s" && str(e.This) != "!a" && str(e.This) != "!g"
macro scalars() = forall x *Graph :: {x.This} scalar(x.This)
// every element of p is a name, or an index that is a number
macro litpath(p) = scalars() && (forall k int :: {mem(p.Out)[k]} off(p.Out) <= k && k < off(p.Out) + len(p.Out) ==> isname(mem(p.Out)[k]) || isindex(mem(p.Out)[k]) && litindex(mem(p.Out)[k]))

// the node that element e leads to from n: the first occurrence of a name, the subnode at an index; nil when there is none
spec func stepto(n *Graph, e *Graph) *Graph reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = n == nil ? nil : isindex(e) ? (let x = ixval(e) in 0 <= x && x < len(n.Out) ? n.Out[x] : nil) : (let j = nidx(n, str(e.This), 0) in 0 <= j && j < len(n.Out) ? n.Out[j] : nil)
// the node that the elements of p from j on lead to from n
spec func follow(n *Graph, p *Graph, j int) *Graph reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = n == nil ? nil : j < 0 || j >= len(p.Out) ? n : (let m = stepto(n, p.Out[j]) in m == nil ? nil : follow(m, p, j + 1))

// catp(j) is the number of nodes taken from the first j subnodes
ghost catp int -> int
macro cp(j) = j == 0 ? 0 : catp(j)
// r got, from position o, the subnodes of all subnodes of c whose text is s
macro gathered(r, o, c, s) = let n = old(len(c.Out)) in len(r.Out) == o + cp(n) && catsum(c, s, n) && catel(r, o, c, s, n)
macro catsum(c, s, n) = 0 <= cp(n) && (forall j int :: {catp(j)} 0 <= j && j < n ==> 0 <= cp(j) && cp(j + 1) <= cp(n) && cp(j + 1) == cp(j) + (old(str(c.Out[j].This)) == s ? old(len(c.Out[j].Out)) : 0))
macro catel(r, o, c, s, n) = forall j int, k int :: {catp(j), mem(r.Out)[k]} 0 <= j && j < n && old(str(c.Out[j].This)) == s && off(r.Out) + o + cp(j) <= k && k < off(r.Out) + o + cp(j) + old(len(c.Out[j].Out)) ==> mem(r.Out)[k] == old(mem(c.Out[j].Out))[k - off(r.Out) - o - cp(j) + old(off(c.Out[j].Out))]
macro keptfront(g, o) = forall k int :: {mem(g.Out)[k]} off(g.Out) <= k && k < off(g.Out) + o ==> mem(g.Out)[k] == old(mem(g.Out))[k - off(g.Out) + old(off(g.Out))]

// what a path leads to
macro found(g, p, r) = let m = old(follow(g, p, 0)) in old(isindex(p.Out[len(p.Out) - 1])) && m != nil ? fresh(r) && r.This == box("[", string) && len(r.Out) == 1 && r.Out[0] == m : r == m

// unless it recurses, addEqualNodes adds the subnodes of the subnodes of g2 with text key to g
// (g is not one of the nodes looked at, and their contents are no functions)
macro aside(g, g2) = g != g2 && (forall k int :: {mem(g2.Out)[k]} off(g2.Out) <= k && k < off(g2.Out) + len(g2.Out) ==> mem(g2.Out)[k] != g)
macro scalarkids(g, g2) = g2 != nil && aside(g, g2) && (forall k int :: {mem(g2.Out)[k]} off(g2.Out) <= k && k < off(g2.Out) + len(g2.Out) ==> scalar(mem(g2.Out)[k].This))
func (*Graph).addEqualNodes(g, g2, key, recurse) (r)
  props C12
  requires g != nil && !recurse && g != g2
  modifies Graph.Out[g], mem(*Graph)[base(g.Out)], catp, stepat, stepix
  ensures r == g
  ensures base(g.Out) == old(base(g.Out)) || base(g.Out) >= old(next())
  ensures old(scalarkids(g, g2)) ==> let o = old(len(g.Out)) in gathered(g, o, g2, key) && keptfront(g, o)
  loop
    var i index
    set catp[i + 1] := len(g.Out) - old(len(g.Out))
    invariant 0 <= i && (g2 != nil ==> i <= old(len(g2.Out)))
    invariant base(g.Out) == old(base(g.Out)) || base(g.Out) >= old(next())
    invariant old(scalarkids(g, g2)) ==> len(g.Out) == old(len(g.Out)) + cp(i)
    invariant old(scalarkids(g, g2)) ==> catsum(g2, key, i)
    invariant old(scalarkids(g, g2)) ==> let o = old(len(g.Out)) in catel(g, o, g2, key, i)
    invariant old(scalarkids(g, g2)) ==> let o = old(len(g.Out)) in keptfront(g, o)

spec func lit(p *Graph) bool reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = litpath(p)
spec func plainp(p *Graph) bool reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = plainnames(p)
func (*Graph).getPath(g, p) (r, err)
  props C12
  requires p != nil
  modifies Graph.Out, Graph.This, mem(*Graph), catp, stepat, stepix
  ensures g == nil || old(len(p.Out)) == 0 ==> r == nil
  ensures g != nil && old(len(p.Out)) > 0 && old(lit(p)) ==> found(g, p, r)
  ensures old(lit(p)) ==> forall x *Graph :: {x.Out} alloc0(x) ==> x.Out == old(x.Out) && mem(x.Out) == old(mem(x.Out))
  ensures old(lit(p)) ==> forall x *Graph :: {x.This} alloc0(x) ==> x.This == old(x.This)
  loop
    var i index
    invariant 0 <= i
    invariant old(lit(p)) ==> i <= old(len(p.Out)) && unchanged(Graph.Out, Graph.This, mem(*Graph))
    invariant old(lit(p)) ==> old(follow(g, p, 0)) == old(follow(ctx, p, i))
    invariant old(lit(p)) ==> addRoot == (i > 0 && old(isindex(p.Out[i-1])))
  loop 2
    var k index
    invariant !old(lit(p))

macro plainnames(p) = forall k int :: {mem(p.Out)[k]} off(p.Out) <= k && k < off(p.Out) + len(p.Out) ==> let s = str(mem(p.Out)[k].This) in s != "_len" && s != "_this" && s != "_thisString" && s != "_string" && s != "_json"
macro empty(r) = r == nil || r == box(nil, *Graph)
macro leafof(n) = n != nil && len(n.Out) == 1 && len(n.Out[0].Out) == 0
// a node that only has a leaf stands for the content of that leaf, when simplified
macro valueof(r, m, simpl) = simpl && old(leafof(m)) ? r == old(m.Out[0].This) : r == box(m, *Graph)
macro listof(r, m, simpl) = simpl && old(len(m.Out)) == 0 ? r == old(m.This) : is(r, *Graph) && (let t = as(r, *Graph) in fresh(t) && t.This == box("[", string) && len(t.Out) == 1 && t.Out[0] == m)
macro lastindex(p) = isindex(p.Out[len(p.Out) - 1])

func (*Graph).evalPath(g, p, simpl) (r, err)
  props C12
  requires p != nil
  modifies Graph.Out, Graph.This, mem(*Graph), catp, stepat, stepix
  ensures g == nil || old(len(p.Out)) == 0 ==> r == nil
  ensures g != nil && old(len(p.Out)) > 0 && old(lit(p) && plainp(p)) && old(follow(g, p, 0)) == nil ==> empty(r)
  ensures g != nil && old(len(p.Out)) > 0 && old(lit(p) && plainp(p)) && old(follow(g, p, 0)) != nil && !old(lastindex(p)) ==> valueof(r, old(follow(g, p, 0)), simpl)
  ensures g != nil && old(len(p.Out)) > 0 && old(lit(p) && plainp(p)) && old(follow(g, p, 0)) != nil && old(lastindex(p)) && simpl && old(len(follow(g, p, 0).Out)) == 0 ==> r == old(follow(g, p, 0).This)
  ensures g != nil && old(len(p.Out)) > 0 && old(lit(p) && plainp(p)) && old(follow(g, p, 0)) != nil && old(lastindex(p)) && !(simpl && old(len(follow(g, p, 0).Out)) == 0) ==> listof(r, old(follow(g, p, 0)), false)
  ensures old(lit(p) && plainp(p)) ==> forall x *Graph :: {x.Out} alloc0(x) ==> x.Out == old(x.Out) && mem(x.Out) == old(mem(x.Out))
  ensures old(lit(p) && plainp(p)) ==> forall x *Graph :: {x.This} alloc0(x) ==> x.This == old(x.This)
  loop
    var i index
    invariant 0 <= i
    invariant old(lit(p) && plainp(p)) && i < old(len(p.Out)) ==> old(let e = p.Out[i] in isname(e) || isindex(e) && litindex(e))
    invariant old(lit(p) && plainp(p)) ==> i <= old(len(p.Out)) && unchanged(Graph.Out, Graph.This, mem(*Graph))
    invariant old(lit(p) && plainp(p)) ==> old(follow(g, p, 0)) == old(follow(ctx, p, i))
    invariant old(lit(p) && plainp(p)) ==> addRoot == (i > 0 && old(isindex(p.Out[i-1])))
  loop 2
    var k index
    invariant !old(lit(p) && plainp(p))

func _simplify(i) (r)
  props C12 C15
  ensures let v = as(i, *Graph) in is(i, *Graph) && v != nil && len(v.Out) == 1 && len(v.Out[0].Out) == 0 ? r == v.Out[0].This : r == i

// ---- setting ----

func (*Graph).setAt(g, i, val) (r)
  props C10
  requires g != nil
  modifies Graph.Out[g], mem(*Graph)[base(g.Out)]
  ensures i < 0 ==> r == nil && g.Out == old(g.Out) && mem(g.Out) == old(mem(g.Out))
  ensures i >= 0 ==> r != nil && fresh(r) && r.This == val && r.Out == nil
  ensures i >= 0 ==> len(g.Out) == (old(len(g.Out)) > i ? old(len(g.Out)) : i + 1) && g.Out[i] == r
  ensures base(g.Out) == old(base(g.Out)) || base(g.Out) >= old(next())
  ensures i >= 0 ==> forall k int :: {mem(g.Out)[k]} off(g.Out) <= k && k < off(g.Out) + old(len(g.Out)) && k != off(g.Out) + i ==> mem(g.Out)[k] == old(mem(g.Out))[k - off(g.Out) + old(off(g.Out))]
  ensures i >= 0 ==> forall k int :: {mem(g.Out)[k]} off(g.Out) + old(len(g.Out)) <= k && k < off(g.Out) + i ==> mem(g.Out)[k] != nil && mem(g.Out)[k].This == nil && mem(g.Out)[k].Out == nil && fresh(mem(g.Out)[k])
  loop
    invariant base(g.Out) == old(base(g.Out)) || base(g.Out) >= old(next())
    invariant len(g.Out) >= old(len(g.Out)) && (len(g.Out) == old(len(g.Out)) || len(g.Out) <= i + 1)
    invariant forall k int :: {mem(g.Out)[k]} off(g.Out) <= k && k < off(g.Out) + old(len(g.Out)) ==> mem(g.Out)[k] == old(mem(g.Out))[k - off(g.Out) + old(off(g.Out))]
    invariant forall k int :: {mem(g.Out)[k]} off(g.Out) + old(len(g.Out)) <= k && k < off(g.Out) + len(g.Out) ==> mem(g.Out)[k] != nil && mem(g.Out)[k].This == nil && mem(g.Out)[k].Out == nil && fresh(mem(g.Out)[k])
    decreases i + 1 - len(g.Out)
  loop
    var n int
    invariant n == len(g.Out)

// ---- setting along a path ----

// stepat(k) is the node reached after k elements, stepix(k) the position of stepat(k+1) in stepat(k);
// stepat(-1) is the node that existed and got a new subnode on the way
ghost stepat int -> *Graph
ghost stepix int -> int
// any set of nodes with g in it, closed under subnodes, that does not hold the path, and where no node is below itself
spec func ing(x *Graph) bool
macro closedset() = (forall x *Graph :: {ing(x)} ing(x) ==> x != nil) && (forall x *Graph, k int :: {mem(x.Out)[k]} ing(x) && off(x.Out) <= k && k < off(x.Out) + len(x.Out) ==> ing(mem(x.Out)[k]) && rank(mem(x.Out)[k]) < rank(x))
macro aspath(p) = !ing(p) && (forall k int :: {mem(p.Out)[k]} off(p.Out) <= k && k < off(p.Out) + len(p.Out) ==> !ing(mem(p.Out)[k]) && (isindex(mem(p.Out)[k]) || mem(p.Out)[k].This != nil))
spec func settable(g *Graph, p *Graph) bool reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = g != nil && p != nil && ing(g) && closedset() && aspath(p) && litpath(p)
spec func validix(p *Graph) bool reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = forall k int :: {mem(p.Out)[k]} off(p.Out) <= k && k < off(p.Out) + len(p.Out) && isindex(mem(p.Out)[k]) ==> ixval(mem(p.Out)[k]) >= 0
macro allocd() = forall x *Graph :: {ing(x)} ing(x) ==> alloc(x)
spec func nameis(x interface{}, e *Graph) bool reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = str(x) == str(e.This)
macro named(x, p, k) = let xx = x in old(nameis(xx, p.Out[k]))
macro good(g, p) = old(settable(g, p) && validix(p) && allocd())
// the first i elements lead from g to stepat(i)
macro chain(p, i) = forall k int :: {stepix(k)} 0 <= k && k < i ==> let n = stepat(k) in let w = stepix(k) in 0 <= w && w < len(n.Out) && n.Out[w] == stepat(k + 1) && (old(isindex(p.Out[k])) ==> w == old(ixval(p.Out[k])))
macro chainname(p, i) = forall k int :: {stepat(k)} 1 <= k && k <= i && !old(isindex(p.Out[k - 1])) ==> named(stepat(k).This, p, k - 1)
macro chainfirst(p, i) = forall k int, j int :: {stepix(k), mem(stepat(k).Out)[j]} 0 <= k && k < i && !old(isindex(p.Out[k])) && off(stepat(k).Out) <= j && j < off(stepat(k).Out) + stepix(k) ==> !named(mem(stepat(k).Out)[j].This, p, k)
// only stepat(-1) and n of the nodes there were have changed
macro otherskept(n) = (forall x *Graph :: {x.Out} alloc0(x) && x != stepat(-1) && x != n ==> x.Out == old(x.Out) && mem(x.Out) == old(mem(x.Out))) && (forall x *Graph :: {x.This} alloc0(x) ==> x.This == old(x.This))
macro subkept(n) = let y = stepat(0 - 1) in y != nil && y != n ==> alloc0(y) && len(y.Out) >= old(len(y.Out)) && (forall j int :: {mem(y.Out)[j]} off(y.Out) <= j && j < off(y.Out) + old(len(y.Out)) ==> mem(y.Out)[j] == old(mem(y.Out))[j - off(y.Out) + old(off(y.Out))])
macro endsix(p) = old(len(p.Out) > 0 && isindex(p.Out[len(p.Out) - 1]))
// the subnodes of m are those of val, or val alone
macro valuein(m, val, r) = val == nil ? r == nil && m.Out == nil : isGraph(val) ? r == as(val, *Graph) && (!ing(r) ==> len(m.Out) == old(len(as(val, *Graph).Out)) && (forall i int :: 0 <= i && i < len(m.Out) ==> m.Out[i] == old(as(val, *Graph).Out[i]))) : len(m.Out) == 1 && m.Out[0] == r && fresh(r) && r.This == val && r.Out == nil
func (*Graph).set(g, path, val) (r)
  props C10 C12
  modifies Graph.Out, Graph.This, mem(*Graph), catp, stepat, stepix
  ensures g == nil || path == nil ==> r == nil && unchanged(Graph.Out, Graph.This, mem(*Graph))
  ensures good(g, path) ==> let n = old(len(path.Out)) in stepat(0) == g && chain(path, n - 1)
  ensures good(g, path) ==> let n = old(len(path.Out)) in chainname(path, n - 1)
  ensures good(g, path) ==> let n = old(len(path.Out)) in chainfirst(path, n - 1)
  ensures good(g, path) && !endsix(path) ==> let n = old(len(path.Out)) in chain(path, n)
  ensures good(g, path) && !endsix(path) ==> let n = old(len(path.Out)) in chainname(path, n)
  ensures good(g, path) && !endsix(path) ==> let n = old(len(path.Out)) in chainfirst(path, n)
  ensures good(g, path) && !endsix(path) ==> let m = stepat(old(len(path.Out))) in valuein(m, val, r)
  ensures good(g, path) && endsix(path) ==> let m = stepat(old(len(path.Out)) - 1) in let ix = old(ixval(path.Out[len(path.Out) - 1])) in 0 <= ix && ix < len(m.Out) && m.Out[ix] == r && fresh(r) && r.This == val && r.Out == nil
  ensures good(g, path) ==> let m = stepat(old(endsix(path) ? len(path.Out) - 1 : len(path.Out))) in otherskept(m)
  ensures good(g, path) ==> let m = stepat(old(endsix(path) ? len(path.Out) - 1 : len(path.Out))) in subkept(m)
  ensures good(g, path) && endsix(path) ==> let m = stepat(old(len(path.Out)) - 1) in let ix = old(ixval(path.Out[len(path.Out) - 1])) in alloc0(m) ==> forall j int :: {mem(m.Out)[j]} off(m.Out) <= j && j < off(m.Out) + old(len(m.Out)) && j != off(m.Out) + ix ==> len(m.Out) >= old(len(m.Out)) && mem(m.Out)[j] == old(mem(m.Out))[j - off(m.Out) + old(off(m.Out))]
  ensures g != nil && path != nil && old(lit(path)) && !old(validix(path)) ==> r == nil && unchanged(Graph.Out, Graph.This, mem(*Graph))
  loop 1
    var k index
    invariant 0 <= k && g != nil && path != nil
    invariant old(lit(path)) ==> k <= old(len(path.Out)) && unchanged(Graph.Out, Graph.This, mem(*Graph))
    invariant old(lit(path)) ==> forall j int :: {mem(path.Out)[j]} off(path.Out) <= j && j < off(path.Out) + k && old(isindex(mem(path.Out)[j])) ==> old(ixval(mem(path.Out)[j])) >= 0
  loop 2
    var i index
    var node *Graph
    init stepat[0] := g
    init stepat[0 - 1] := nil
    set stepix[i] := old(isindex(path.Out[i])) ? old(ixval(path.Out[i])) : (let n = stepat(i) in ing(cur(next)) ? old(nidx(n, str(path.Out[i].This), 0)) : len(n.Out) - 1)
    set stepat[i + 1] := cur(next)
    set stepat[0 - 1] := ing(node) && !ing(cur(next)) ? node : stepat(0 - 1)
    invariant 0 <= i && node != nil && g != nil && path != nil
    invariant old(lit(path)) ==> old(validix(path))
    invariant good(g, path) ==> i <= old(len(path.Out)) && stepat(0) == g && stepat(i) == node
    invariant good(g, path) ==> (forall x *Graph :: {x.Out} alloc0(x) && !ing(x) ==> x.Out == old(x.Out) && mem(x.Out) == old(mem(x.Out)))
    invariant good(g, path) ==> (forall x *Graph :: {x.This} alloc0(x) ==> x.This == old(x.This))
    invariant good(g, path) && ing(node) ==> alloc0(node) && unchanged(Graph.Out, Graph.This, mem(*Graph))
    invariant good(g, path) && !ing(node) ==> fresh(node) && node.Out == nil
    invariant good(g, path) ==> forall k int :: {stepat(k)} 0 <= k && k < i ==> stepat(k) != nil && alloc(stepat(k)) && stepat(k) != node
    invariant good(g, path) && ing(node) ==> forall k int :: {stepat(k)} 0 <= k && k < i ==> ing(stepat(k)) && rank(stepat(k)) > rank(node)
    invariant good(g, path) && !ing(node) ==> otherskept(nil)
    invariant good(g, path) && ing(node) ==> stepat(0 - 1) == nil
    invariant good(g, path) && !ing(node) ==> subkept(nil)
    invariant good(g, path) && !ing(node) ==> stepat(0 - 1) != node
    invariant good(g, path) && endsix(path) ==> i < old(len(path.Out))
    invariant good(g, path) && ing(node) ==> chain(path, i)
    invariant good(g, path) && !ing(node) ==> chain(path, i)
    invariant good(g, path) ==> chainname(path, i)
    invariant good(g, path) ==> chainfirst(path, i)

