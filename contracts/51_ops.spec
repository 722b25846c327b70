// Operators of expressions (C13).

package ogdl

macro i64(v) = w64(intval(v))

func calc(v1, v2, op) (r)
  props C13
  // two integers: 64-bit integer arithmetic; no value for a division by zero
  ensures anyint(v1) && anyint(v2) && op == '+' ==> r == box(w64(i64(v1) + i64(v2)), int64)
  ensures anyint(v1) && anyint(v2) && op == '-' ==> r == box(w64(i64(v1) - i64(v2)), int64)
  ensures anyint(v1) && anyint(v2) && op == '*' ==> r == box(w64(i64(v1) * i64(v2)), int64)
  ensures anyint(v1) && anyint(v2) && op == '/' ==> r == (i64(v2) == 0 ? nil : box(w64(tdiv(i64(v1), i64(v2))), int64))
  ensures anyint(v1) && anyint(v2) && op == '%' ==> r == (i64(v2) == 0 ? nil : box(w64(tmod(i64(v1), i64(v2))), int64))
  // texts concatenate under +
  ensures !anyint(v1) && !isfloat(v1) && !anyint(v2) && !isfloat(v2) ==> r == (op == '+' ? box(str(v1) + str(v2), string) : nil)
  ensures !anyint(v1) && !isfloat(v1) && (anyint(v2) || isfloat(v2)) ==> r == box(str(v1) + str(v2), string)
  // otherwise floating point
  ensures mixed(v1, v2) && op == '+' ==> r == box(fadd(opnd(v1), opnd(v2)), float64)
  ensures mixed(v1, v2) && op == '-' ==> r == box(fsub(opnd(v1), opnd(v2)), float64)
  ensures mixed(v1, v2) && op == '*' ==> r == box(fmul(opnd(v1), opnd(v2)), float64)
  ensures mixed(v1, v2) && op == '/' ==> r == box(fdiv(opnd(v1), opnd(v2)), float64)
  ensures mixed(v1, v2) && op == '%' ==> r == (ftoint(2, opnd(v2)) == 0 ? nil : box(w64(tmod(ftoint(2, opnd(v1)), ftoint(2, opnd(v2)))), int))

macro mixed(v1, v2) = (anyint(v1) || isfloat(v1)) && !(anyint(v1) && anyint(v2))
spec func opnd(v interface{}) float64 reads Graph.Out, Graph.This, mem(*Graph), mem(byte)
  = anyint(v) ? fofint(i64(v)) : isfloat(v) ? floatval(v) : pfltok(str(v)) ? pflt(str(v)) : fzero()

// the relation that an operator code stands for
macro relint(op, a, b) = op == '=' ? a == b : op == '!' ? a != b : op == '+' ? a >= b : op == '-' ? a <= b : op == '>' ? a > b : op == '<' ? a < b : false
macro relflt(op, a, b) = op == '=' ? feq(a, b) : op == '!' ? !feq(a, b) : op == '+' ? fle(b, a) : op == '-' ? fle(a, b) : op == '>' ? flt(b, a) : op == '<' ? flt(a, b) : false

func compare(v1, v2, op) (r)
  props C13
  ensures let x = inner(v2) in anyint(v1) && anyint(x) ==> r == relint(op, i64(v1), i64(x))
  ensures let x = inner(v2) in anyint(v1) && is(x, float64) ==> r == relint(op, i64(v1), ftoint(6, as(x, float64)))
  ensures let x = inner(v2) in anyint(v1) && is(x, float32) ==> r == relint(op, i64(v1), ftoint(6, as(x, float32)))
  ensures let x = inner(v2) in anyint(v1) && istext(x) ==> r == (pintok(text(x)) && (relint(op, i64(v1), pint(text(x)))))
  ensures let x = inner(v2) in anyint(v1) && !anyint(x) && !isfloat(x) && !istext(x) ==> !r
  ensures isfloat(v1) && (anyint(v2) || isfloat(v2) || pfltok(str(v2))) ==> r == relflt(op, floatval(v1), opnd(v2))
  ensures isfloat(v1) && !(anyint(v2) || isfloat(v2) || pfltok(str(v2))) ==> !r
  ensures !anyint(v1) && !isfloat(v1) ==> r == (op == '=' ? str(v1) == str(v2) : op == '!' ? str(v1) != str(v2) : false)

func logic(i1, i2, op) (r)
  props C13
  ensures let a = inner(i1) in let b = inner(i2) in r == (isboolish(a) && isboolish(b) && (op == '&' ? boolof(a) && boolof(b) : op == '|' ? boolof(a) || boolof(b) : false))
