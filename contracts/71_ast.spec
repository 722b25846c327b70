// Regrouping of expressions by operator precedence (C14).

package ogdl

// the precedence of an operator, as in Go; assignments come last
spec func prec(s string) int = s == "*" || s == "/" || s == "%" ? 5 : s == "+" || s == "-" ? 4 : s == "==" || s == "!=" || s == ">=" || s == "<=" || s == ">" || s == "<" ? 3 : s == "&&" ? 2 : s == "||" ? 1 : s == "=" || s == "+=" || s == "-=" || s == "*=" || s == "/=" || s == "%=" ? 0 : -1

func precedence(s) (r)
  props C14
  ensures r == prec(s)

macro unaryText(s) = s == "!" || s == "-" || s == "+"

func isUnary(s) (r)
  props C14
  ensures r == unaryText(s)

func isOperator(g) (r)
  props C14
  ensures r == (g != nil && len(g.Out) == 0 && (str(g.This) == "!" || prec(str(g.This)) >= 0))

// The nodes of a tree are numbered, depth first: the nodes below x have the numbers
// between num(x) and last(x).
spec func num(x *Graph) int
spec func last(x *Graph) int
spec func treeNode(x *Graph) bool

macro node(x, k) = off(x.Out) <= k && k < off(x.Out) + len(x.Out)
// the nodes with numbers from a up to b are where the numbers say
macro numbered(a, b) = (forall x *Graph, k int :: {mem(x.Out)[k]} treeNode(x) && a <= num(x) && num(x) < b && node(x, k) ==> treeNode(mem(x.Out)[k]) && num(x) < num(mem(x.Out)[k]) && num(mem(x.Out)[k]) < last(mem(x.Out)[k]) && last(mem(x.Out)[k]) <= last(x)) && (forall x *Graph, k int, l int :: {mem(x.Out)[k], mem(x.Out)[l]} treeNode(x) && a <= num(x) && num(x) < b && node(x, k) && node(x, l) && k < l ==> last(mem(x.Out)[k]) <= num(mem(x.Out)[l])) && (forall x *Graph :: {treeNode(x)} treeNode(x) && a <= num(x) && num(x) < b ==> x != nil && alloc(x))
macro numberedTree(g) = treeNode(g) && num(g) < last(g) && numbered(num(g), last(g))

macro sameOut(x) = x.Out == old(x.Out) && mem(x.Out) == old(mem(x.Out))
macro outsideA(x, a, b) = num(x) <= a || num(x) >= b

func (*Graph).ast(g)
  props C14 C22
  requires g == nil || numberedTree(g)
  modifies Graph.Out, mem(*Graph)
  ensures forall x *Graph :: {x.Out} old(alloc(x)) && outsideA(x, num(g), last(g)) ==> sameOut(x)
  decreases 2 * (last(g) - num(g))
  loop
    var i index
    invariant let b = (i < len(g.Out) ? num(g.Out[i]) : last(g)) in (forall x *Graph :: {x.Out} old(alloc(x)) && outsideA(x, num(g), b) ==> sameOut(x))

macro beyond(x, g) = num(x) < num(g) || num(x) == num(g) && x != g || num(x) >= last(g)
macro inside(g) = forall k int :: {mem(g.Out)[k]} node(g, k) ==> alloc(mem(g.Out)[k]) && num(g) < num(mem(g.Out)[k]) && num(mem(g.Out)[k]) < last(g)

func (*Graph)._ast(g)
  props C14 C22
  requires g != nil && numberedTree(g)
  modifies Graph.Out, mem(*Graph)
  ensures forall x *Graph :: {x.Out} old(alloc(x)) && beyond(x, g) ==> sameOut(x)
  decreases 2 * (last(g) - num(g)) + 1
  loop 1
    var i int
    invariant -1 <= i && i <= len(g.Out) - 2
    invariant forall x *Graph :: {x.Out} old(alloc(x)) && beyond(x, g) ==> sameOut(x)
    invariant inside(g)
    decreases i + 1
  loop 2
    var j int
    invariant -1 <= j && j <= 6
    invariant forall x *Graph :: {x.Out} old(alloc(x)) && beyond(x, g) ==> sameOut(x)
    invariant inside(g)
    decreases j + 1
  loop 3
    var i int
    invariant 0 <= i
    invariant forall x *Graph :: {x.Out} old(alloc(x)) && beyond(x, g) ==> sameOut(x)
    invariant inside(g)
    decreases len(g.Out) - i
