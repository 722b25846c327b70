// Trusted contracts of the standard library (assumptions; listed in every evidence file).

package fmt

spec func sprint(x interface{}) string

trusted func Sprint(a) (r)
  why "fmt.Sprint of one operand is a function of that operand; it does not panic (fmt recovers) and does not modify modelled state"
  ensures len(a) == 1 ==> r == sprint(a[0])

package bytes

ghost bufstr *bytes.Buffer -> string

trusted func (*Buffer).WriteByte(b, c) (e)
  why "bytes.Buffer appends what it is given and never returns an error"
  requires b != nil
  modifies bufstr[b]
  ensures bufstr(b) == old(bufstr(b)) + chr(c)
  ensures e == nil

trusted func (*Buffer).WriteString(b, s) (n, e)
  why "bytes.Buffer appends what it is given and never returns an error"
  requires b != nil
  modifies bufstr[b]
  ensures bufstr(b) == old(bufstr(b)) + s
  ensures n == len(s) && e == nil

trusted func (*Buffer).Write(b, s) (n, e)
  why "bytes.Buffer appends what it is given and never returns an error"
  requires b != nil
  modifies bufstr[b]
  ensures bufstr(b) == old(bufstr(b)) + old(string(s))
  ensures n == len(s) && e == nil

trusted func (*Buffer).Bytes(b) (r)
  why "bytes.Buffer.Bytes returns the unread portion (all of it, nothing is ever read here)"
  requires b != nil
  ensures string(r) == bufstr(b)
  ensures len(r) == len(bufstr(b))

trusted func (*Buffer).String(b) (r)
  why "bytes.Buffer.String returns the unread portion (all of it, nothing is ever read here)"
  requires b != nil
  ensures r == bufstr(b)

trusted func (*Buffer).Len(b) (r)
  why "bytes.Buffer.Len is the length of the unread portion"
  requires b != nil
  ensures r == len(bufstr(b))

trusted func Equal(a, b) (r)
  why "bytes.Equal reports whether two byte slices have the same length and bytes"
  ensures r == (string(a) == string(b))

package unicode

spec func udigit(c int) bool
spec func uletter(c int) bool

axiom ulatin why "below 256 the digits are 0 to 9 and the letters are those of Latin-1"
  = (forall c int :: {udigit(c)} c < 256 ==> udigit(c) == (48 <= c && c <= 57)) && (forall c int :: {uletter(c)} c < 256 ==> uletter(c) == (65 <= c && c <= 90 || 97 <= c && c <= 122 || c == 170 || c == 181 || c == 186 || 192 <= c && c <= 255 && c != 215 && c != 247))
axiom ureplacement why "U+FFFD is neither a letter nor a digit"
  = !udigit(65533) && !uletter(65533)

trusted func IsDigit(c) (r)
  why "unicode.IsDigit is a function of the character"
  ensures r == udigit(c)

trusted func IsLetter(c) (r)
  why "unicode.IsLetter is a function of the character"
  ensures r == uletter(c)

package math

spec func fnan() float64

trusted func NaN() (r)
  why "math.NaN returns the not-a-number value"
  ensures r == fnan()

package utf8

// the character at the start of a text, its size, and whether the text holds all of its bytes
spec func urune(s string) int
spec func usize(s string) int
spec func ufull(s string) bool

axiom uback why "a valid encoding is the encoding of the character that it decodes to"
  = forall s string :: {urune(s)} len(s) > 0 && urune(s) != 65533 ==> runestr(urune(s)) == s[0:usize(s)] && 1 <= usize(s) && usize(s) <= len(s)
axiom uascii why "bytes below 128 are characters by themselves"
  = forall s string :: {urune(s)} len(s) > 0 && s[0] < 128 ==> urune(s) == s[0] && usize(s) == 1

trusted func FullRune(b) (r)
  why "utf8.FullRune is a function of the bytes it is given"
  ensures r == ufull(string(b))

trusted func DecodeRune(b) (r, size)
  why "utf8.DecodeRune is a function of the bytes it is given; the size is at least 1 if there are any, and at most 4 or their number"
  ensures r == urune(string(b)) && size == usize(string(b))
  ensures 0 <= size && size <= len(b) && size <= 4 && (len(b) > 0 ==> size >= 1)
  ensures 0 <= r && r < 1114112

package bytes

spec func inbytes(s string, c int) bool

trusted func IndexByte(b, c) (r)
  why "bytes.IndexByte gives the first position of a byte, or -1"
  ensures (r != -1) == inbytes(string(b), c)
  ensures r == -1 ? (forall k int :: {mem(b)[k]} off(b) <= k && k < off(b) + len(b) ==> mem(b)[k] != c) : 0 <= r && r < len(b) && b[r] == c

package errors

trusted func New(s) (r)
  why "errors.New gives an error"
  ensures r != nil
