From 9419b831f6659bd17451f20201aecffba24a772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 01/42] fix: GetAt on a nil Graph returns nil instead of
 panicking

---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 710796b..34d7cd3 100644
--- a/graph.go
+++ b/graph.go
@@ -202,7 +202,7 @@ func (g *Graph) Create(s string) *Graph {
 
 // GetAt returns a subnode by index, or nil if the index is out of range.
 func (g *Graph) GetAt(i int) *Graph {
-	if i >= len(g.Out) || i < 0 {
+	if g == nil || i >= len(g.Out) || i < 0 {
 		return nil
 	}
 
-- 
2.43.0


From abd7c1e27677d3e263611106e400c9c9f9cd07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 02/42] fix: Equals accepts nil graphs and binary content

---
 graph.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 34d7cd3..4fa80aa 100644
--- a/graph.go
+++ b/graph.go
@@ -38,7 +38,10 @@ func (g *Graph) ThisType() string {
 // Equals returns true if the given graph and the receiver graph are equal.
 func (g *Graph) Equals(c *Graph) bool {
 
-	if c.This != g.This {
+	if g == nil || c == nil {
+		return g == c
+	}
+	if !sameContent(c.This, g.This) {
 		return false
 	}
 	if g.Len() != c.Len() {
@@ -53,6 +56,16 @@ func (g *Graph) Equals(c *Graph) bool {
 	return true
 }
 
+// sameContent returns true if the two node contents are equal. Binary contents
+// ([]byte) are compared by value, since Go cannot compare them with ==.
+func sameContent(a, b interface{}) bool {
+	if x, ok := a.([]byte); ok {
+		y, ok := b.([]byte)
+		return ok && bytes.Equal(x, y)
+	}
+	return a == b
+}
+
 // Add adds a subnode to the current node.
 func (g *Graph) Add(n interface{}) *Graph {
 
-- 
2.43.0


From 4d037f7edd3a36bdf4cc85aac3af64fbb25b541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 03/42] fix: Delete accepts binary content

---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 4fa80aa..13a57f6 100644
--- a/graph.go
+++ b/graph.go
@@ -250,7 +250,7 @@ func (g *Graph) Delete(n interface{}) {
 		return
 	}
 	for i := 0; i < g.Len(); i++ {
-		if g.Out[i].This == n {
+		if sameContent(g.Out[i].This, n) {
 			if i < (g.Len() - 1) {
 				g.Out = append(g.Out[:i], g.Out[i+1:]...)
 			} else {
-- 
2.43.0


From efdd1511564db05177f2b62e3e21363c6de8fb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 04/42] fix: Copy keeps nodes without content and does not
 alias or extend Graph contents

---
 graph.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index 13a57f6..9fd9dc9 100644
--- a/graph.go
+++ b/graph.go
@@ -140,8 +140,7 @@ func (g *Graph) Copy(c *Graph) {
 		return
 	}
 	for _, n := range c.Out {
-		nn := g.Add(n.This)
-		nn.Copy(n)
+		g.Out = append(g.Out, n.Clone())
 	}
 }
 
-- 
2.43.0


From 57047836261a51c4ab00af659bc1d3c4fe093a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 05/42] fix: Set does not leave nil subnodes behind nor panic
 on a negative index

---
 graph.go | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/graph.go b/graph.go
index 9fd9dc9..2c2be27 100644
--- a/graph.go
+++ b/graph.go
@@ -310,16 +310,7 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 
 		elem := path.Out[i]
 		if elem.ThisString() == TypeIndex {
-			i := elem.Int64()
-			if len(node.Out) <= int(i) {
-				o := make([]*Graph, i+1)
-				for j, n := range node.Out {
-					o[j] = n
-				}
-				node.Out = o
-			}
-			node.Out[i] = New(val)
-			return node.Out[i]
+			return node.setAt(elem.Int64(), val)
 		}
 		node = node.Node(elem.ThisString())
 
@@ -335,16 +326,7 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 			elem := path.Out[i]
 
 			if elem.ThisString() == TypeIndex {
-				i := elem.Int64()
-				if len(node.Out) <= int(i) {
-					o := make([]*Graph, i+1)
-					for j, n := range node.Out {
-						o[j] = n
-					}
-					node.Out = o
-				}
-				node.Out[i] = New(val)
-				return node.Out[i]
+				return node.setAt(elem.Int64(), val)
 			}
 
 			node = node.Add(elem.This)
@@ -356,6 +338,19 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 	return node.addNodes(val)
 }
 
+// setAt puts val in the subnode at index i, adding empty nodes as needed. It
+// returns nil if the index is not valid.
+func (g *Graph) setAt(i int64, val interface{}) *Graph {
+	if i < 0 {
+		return nil
+	}
+	for int64(len(g.Out)) <= i {
+		g.Out = append(g.Out, New(nil))
+	}
+	g.Out[i] = New(val)
+	return g.Out[i]
+}
+
 // Text is the OGDL text emitter. It converts a Graph into OGDL text.
 //
 // Strings are quoted if they contain spaces, newlines or special
-- 
2.43.0


From bc66e863ac238ef6bf4036321fa86ba6084ccd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 06/42] fix: four byte variable integers keep their second byte

---
 binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index 1471b83..5756a51 100644
--- a/binary.go
+++ b/binary.go
@@ -186,7 +186,7 @@ func newVarInt(i int) []byte {
 	if i < 0x10000000 {
 		b := make([]byte, 4)
 		b[0] = byte(i>>24 | 0xe0)
-		b[1] = byte(i>>16 | 0xff)
+		b[1] = byte(i >> 16 & 0xff)
 		b[2] = byte(i >> 8 & 0xff)
 		b[3] = byte(i & 0xff)
 		return b
-- 
2.43.0


From a195a4484131d0655a6e5928232ab9d262bf29d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 07/42] fix: a binary text node ends at the end of the stream,
 and may be empty

---
 binary.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/binary.go b/binary.go
index 5756a51..7b474eb 100644
--- a/binary.go
+++ b/binary.go
@@ -298,21 +298,14 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 		return level, true, buf.Bytes()
 	}
 
-	// Text node. Read bytes until 0
+	// Text node. Read bytes until 0 (or the end of the stream)
 
-	if write {
-		buf.WriteByte(byte(n))
-	}
-
-	for {
-		c := p.read()
-		if c == 0 {
-			return level, false, buf.Bytes()
-		}
+	for ; n > 0; n = p.read() {
 		if write {
-			buf.WriteByte(byte(c))
+			buf.WriteByte(byte(n))
 		}
 	}
+	return level, false, buf.Bytes()
 }
 
 // read reads one character (byte) from the stream, returning it in the for of an int.
-- 
2.43.0


From 14db73aad34efa3780d38326a21a7cca50879d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 08/42] fix: a binary data node ends at the zero length that
 terminates it

---
 binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index 7b474eb..4a003e6 100644
--- a/binary.go
+++ b/binary.go
@@ -282,7 +282,7 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 		// Read length, then bytes
 		for {
 			n = p.varInt()
-			if n < 0 {
+			if n <= 0 {
 				break
 			}
 			for ; n != 0; n-- {
-- 
2.43.0


From 5c01924e0a454adc8f93d415f28d06fd71f56bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 09/42] fix: a read error ends a binary stream, as EOF does

---
 binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index 4a003e6..1af3e62 100644
--- a/binary.go
+++ b/binary.go
@@ -315,7 +315,7 @@ func (p *binParser) read() int {
 	i, err := p.r.ReadByte()
 
 	c := int(i)
-	if err == io.EOF {
+	if err != nil {
 		c = -1
 	} else {
 		p.n++
-- 
2.43.0


From 967d25d336604cdfccc82cf57180b16bf9bb0431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 10/42] fix: isInteger accepts strings that only contain space

---
 gettypes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gettypes.go b/gettypes.go
index d539673..db38302 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -692,7 +692,7 @@ func isInteger(s string) bool {
 		}
 	}
 
-	if s[i] == '-' {
+	if i < l && s[i] == '-' {
 		i++
 	}
 
-- 
2.43.0


From c1afa1d7a74797b533a26f21a4101f0ad2d05766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 11/42] fix: StringCSV accepts a graph without subnodes

---
 gettypes.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index db38302..0d71390 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -117,11 +117,14 @@ func (g *Graph) StringCSV(def ...string) string {
 
 	s := ""
 
-	for _, n := range g.Out {
-		s += ", " + _string(n.This)
+	for i, n := range g.Out {
+		if i > 0 {
+			s += ", "
+		}
+		s += _string(n.This)
 	}
 
-	return s[2:]
+	return s
 }
 
 // String returns an array of strings representing all direct subnodes.
-- 
2.43.0


From 8d293832ce6ab052d98721c56f4559db6920c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 12/42] fix: integer conversion accepts nil graphs

---
 gettypes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gettypes.go b/gettypes.go
index 0d71390..2167a60 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -473,6 +473,10 @@ func _float64(i interface{}) (float64, bool) {
 func _int64f(i interface{}) (int64, bool) {
 
 	if i2, ok := i.(*Graph); ok {
+		// i2 can still be nil (of type *Graph!)
+		if i2 == nil {
+			return 0, false
+		}
 		i = i2.This
 	}
 
-- 
2.43.0


From a169a0e909127d0d1ac4b130cd7e660c3dfc297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 13/42] fix: accessors of a single node accept a nil Graph

---
 gettypes.go | 30 +++++++++++++++++++++++++-----
 graph.go    |  3 +++
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index 2167a60..dc33c8a 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -26,6 +26,10 @@ func (g *Graph) Find(re string) (*Graph, error) {
 
 	r := New("_")
 
+	if g == nil {
+		return r, nil
+	}
+
 	for _, node := range g.Out {
 		if exp.MatchString(node.ThisString()) {
 			r.Add(node)
@@ -76,6 +80,9 @@ func (g *Graph) Bool(def ...bool) bool {
 
 // ThisValue returns this node as a reflect.Value.
 func (g *Graph) ThisValue() reflect.Value {
+	if g == nil {
+		return reflect.Value{}
+	}
 	return reflect.ValueOf(g.This)
 }
 
@@ -195,6 +202,9 @@ func (g *Graph) Bytes() []byte {
 
 // ThisBytes returns the node as []byte, or nil if not possble.
 func (g *Graph) ThisBytes() []byte {
+	if g == nil {
+		return nil
+	}
 	return _bytes(g.This)
 }
 
@@ -205,16 +215,25 @@ func (g *Graph) Number() interface{} {
 
 // ThisNumber returns either a float64, int64 or nil
 func (g *Graph) ThisNumber() interface{} {
+	if g == nil {
+		return nil
+	}
 	return number(g.This)
 }
 
 // ThisInt64 returns a int64 or nil
 func (g *Graph) ThisInt64() (int64, bool) {
+	if g == nil {
+		return 0, false
+	}
 	return _int64f(g.This)
 }
 
 // ThisFloat64 returns a float64
 func (g *Graph) ThisFloat64() (float64, bool) {
+	if g == nil {
+		return 0, false
+	}
 	return _float64f(g.This)
 }
 
@@ -234,9 +253,6 @@ func (g *Graph) ThisFloat64() (float64, bool) {
 func (g *Graph) Scalar() interface{} {
 
 	itf := g.Interface()
-	if itf == nil && g.Out != nil {
-		itf = g.Out[0].This
-	}
 
 	// If it can be parsed as a number, return it.
 	n := number(itf)
@@ -257,9 +273,13 @@ func (g *Graph) Scalar() interface{} {
 // ThisScalar returns this node's content as an interface
 func (g *Graph) ThisScalar() interface{} {
 
+	if g == nil {
+		return nil
+	}
+
 	itf := g.This
-	if itf == nil && g.Out != nil {
-		itf = g.Out[0].This
+	if itf == nil {
+		itf = g.Interface()
 	}
 
 	// If it ca be parsed as a number, return it.
diff --git a/graph.go b/graph.go
index 2c2be27..6634f3c 100644
--- a/graph.go
+++ b/graph.go
@@ -32,6 +32,9 @@ func (g *Graph) Len() int {
 
 // ThisType returns the name of the native type contained in the current node.
 func (g *Graph) ThisType() string {
+	if g == nil || g.This == nil {
+		return ""
+	}
 	return reflect.TypeOf(g.This).String()
 }
 
-- 
2.43.0


From 7a47fb4ab88928b28f9458d81936aa665a9773ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:00 +0000
Subject: [PATCH 14/42] fix: the lexer reads all of a stream that arrives in
 short pieces

---
 lexer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lexer.go b/lexer.go
index 76c8f72..b6d1a15 100644
--- a/lexer.go
+++ b/lexer.go
@@ -80,19 +80,21 @@ func (p *Lexer) fill() {
 		p.r = 0
 	}
 
-	for i := maxConsecutiveEmptyReads; i > 0; i-- {
+	for i := maxConsecutiveEmptyReads; i > 0 && offset < bufSize; i-- {
 		n, err := p.rd.Read(p.buf[offset:])
 		if n < 0 {
 			panic(errNegativeRead)
 		}
+
+		// Data can come together with an error.
+		offset += n
 		if err != nil {
 			p.err = err
 			break
 		}
 
-		offset += n
-		if offset >= halfSize {
-			break
+		if n > 0 {
+			i = maxConsecutiveEmptyReads
 		}
 	}
 
-- 
2.43.0


From 3030eaff1404d5433023e9aa60e826eb343d19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 15/42] fix: runes end with the stream, and its end can be
 unread

---
 lexer.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/lexer.go b/lexer.go
index b6d1a15..ec1dd71 100644
--- a/lexer.go
+++ b/lexer.go
@@ -110,31 +110,33 @@ func (p *Lexer) Error() error {
 // PeekByte returns the next byte witohut consuming it
 func (p *Lexer) PeekByte() byte {
 	c, err := p.Byte()
+	p.UnreadByte()
 
 	if err != nil {
 		return 0
 	}
 
-	p.UnreadByte()
 	return c
 }
 
 // PeekRune returns the next rune witohut consuming it
 func (p *Lexer) PeekRune() (rune, error) {
 	r, err := p.Rune()
+	e := p.UnreadRune()
 
 	if err != nil {
 		return 0, nil
 	}
 
-	return r, p.UnreadRune()
+	return r, e
 }
 
 // Byte reads and returns a single byte.
 // If no byte is available, returns 0 and an error.
 func (p *Lexer) Byte() (byte, error) {
 	if p.lastByte < bufSize && p.r >= p.lastByte {
-		p.r = p.lastByte + 1
+		// The end of stream counts as a byte, so that it can be unread.
+		p.r++
 		return 0, ErrEOS
 	}
 
@@ -155,18 +157,32 @@ func (p *Lexer) UnreadByte() {
 
 // Rune reads a single UTF-8 encoded Unicode character and returns the
 // rune. If the encoded rune is invalid, it consumes one byte
-// and returns unicode.ReplacementChar (U+FFFD) with a size of 1.
+// and returns unicode.ReplacementChar (U+FFFD) with a size of 1. If no byte is
+// available, it returns 0 and an error.
 func (p *Lexer) Rune() (rune, error) {
 
-	p.fill()
+	c, err := p.Byte()
+	r, size := rune(c), 1
 
-	r, size := rune(p.buf[p.r]), 1
 	if r >= utf8.RuneSelf {
-		r, size = utf8.DecodeRune(p.buf[p.r:p.lastByte])
+		b := []byte{c}
+		for len(b) < utf8.UTFMax && !utf8.FullRune(b) {
+			c, e := p.Byte()
+			if e != nil {
+				p.UnreadByte()
+				break
+			}
+			b = append(b, c)
+		}
+
+		r, size = utf8.DecodeRune(b)
+		for i := len(b); i > size; i-- {
+			p.UnreadByte()
+		}
 	}
-	p.r += size
+
 	p.lastRuneSize = append(p.lastRuneSize, size)
-	return r, nil
+	return r, err
 }
 
 // UnreadRune unreads the last rune.
-- 
2.43.0


From b4e986c20727a391976247fe40bc8ae4081dbb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:13 +0000
Subject: [PATCH 16/42] fix: a carriage return alone is a line break

---
 lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index ec1dd71..2949990 100644
--- a/lexer.go
+++ b/lexer.go
@@ -236,7 +236,10 @@ func (p *Lexer) Break() bool {
 	c, _ := p.Byte()
 
 	if c == '\r' {
-		c, _ = p.Byte()
+		if p.PeekByte() == '\n' {
+			p.Byte()
+		}
+		return true
 	}
 
 	if c == '\n' {
-- 
2.43.0


From c084b5213dd0214b9d02bc192550c82bf785a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 17/42] fix: a sign without digits is not consumed as a number

---
 lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 2949990..82961c0 100644
--- a/lexer.go
+++ b/lexer.go
@@ -478,7 +478,11 @@ func (p *Lexer) Number() (string, bool) {
 	}
 
 	p.UnreadByte()
-	if sign == '-' {
+	if len(buf) == 0 && sign != 0 {
+		// A sign alone is not a number
+		p.UnreadByte()
+	}
+	if len(buf) > 0 && sign == '-' {
 		return "-" + string(buf), len(buf) > 0
 	}
 	return string(buf), len(buf) > 0
-- 
2.43.0


From f61bae4d47331c1af31f4e32252d8f331c19b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 18/42] fix: an expression that starts with an invalid letter
 is not accepted

---
 flow.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flow.go b/flow.go
index 74089af..5098d94 100644
--- a/flow.go
+++ b/flow.go
@@ -179,9 +179,9 @@ func (p *Parser) UnaryExpression() bool {
 	if IsLetter(rune(c)) {
 		p.ev.Add(TypePath)
 		p.ev.Inc()
-		p.Path()
+		ok := p.Path()
 		p.ev.Dec()
-		return true
+		return ok
 	}
 
 	b, ok := p.Number()
-- 
2.43.0


From e71d2424aedbe73b820ba387ff7e1d09469f28b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:37 +0000
Subject: [PATCH 19/42] fix: division by zero gives no value

---
 eval.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/eval.go b/eval.go
index d708441..61fd63e 100644
--- a/eval.go
+++ b/eval.go
@@ -608,8 +608,14 @@ func calc(v1, v2 interface{}, op int) interface{} {
 		case '*':
 			return i1 * i2
 		case '/':
+			if i2 == 0 {
+				return nil
+			}
 			return i1 / i2
 		case '%':
+			if i2 == 0 {
+				return nil
+			}
 			return i1 % i2
 		}
 	}
@@ -649,6 +655,9 @@ func calc(v1, v2 interface{}, op int) interface{} {
 	case '/':
 		return i3 / i4
 	case '%':
+		if int(i4) == 0 {
+			return nil
+		}
 		return int(i3) % int(i4)
 	}
 
-- 
2.43.0


From 8706b9fefcedd6ca3bd628287a50601b4c6f8c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 20/42] fix: unary operators, groups and missing operands in
 expressions

---
 eval.go       | 37 ++++++++++++++++++++++++++++++++++---
 expression.go | 33 +++++++++++++++++++++------------
 flow.go       |  6 +++++-
 3 files changed, 60 insertions(+), 16 deletions(-)

diff --git a/eval.go b/eval.go
index 61fd63e..04facf3 100644
--- a/eval.go
+++ b/eval.go
@@ -321,7 +321,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 
 	// Return nil and empty strings as is
-	if p.This == nil {
+	if p == nil || p.This == nil {
 		return nil, ErrNilReceiver
 	}
 
@@ -340,12 +340,18 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 	switch s {
 	case "!":
 		// Unary expression !expr
-		return !g.evalBool(p.Out[0]), nil
+		i, _ := g.evalExpression(p.GetAt(0), true)
+		b, _ := _boolf(i)
+		return !b, nil
 	case TypeExpression:
 		return g.evalExpression(p.GetAt(0), simpl)
 	case TypePath:
 		return g.evalPath(p, simpl)
 	case TypeGroup:
+		// A group with one expression has the value of that expression
+		if p.Len() == 1 {
+			return g.evalExpression(p.Out[0], simpl)
+		}
 		// TODO expression list (could also be OGDL flow!)
 		r := New(TypeGroup)
 		for _, expr := range p.Out {
@@ -394,6 +400,13 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 
 func (g *Graph) evalBinary(p *Graph) interface{} {
 
+	if p.Len() == 1 {
+		return g.evalUnary(p)
+	}
+	if p.Len() < 2 {
+		return nil
+	}
+
 	n1 := p.Out[0]
 
 	i2, err := g.evalExpression(p.Out[1], true)
@@ -457,6 +470,24 @@ func (g *Graph) evalBinary(p *Graph) interface{} {
 	return nil
 }
 
+// evalUnary evaluates operators that have a single operand: -expr and +expr
+func (g *Graph) evalUnary(p *Graph) interface{} {
+
+	i, err := g.evalExpression(p.Out[0], true)
+	if err != nil {
+		return err // ?
+	}
+
+	switch p.ThisString() {
+	case "-":
+		return calc(0, i, '-')
+	case "+":
+		return i
+	}
+
+	return nil
+}
+
 // int* | float* | string
 // first element determines type
 func compare(v1, v2 interface{}, op int) bool {
@@ -556,7 +587,7 @@ func (g *Graph) assign(p *Graph, v interface{}, op int) interface{} {
 	// if p doesn't exist, just set it to the value given
 	left, _ := g.getPath(p)
 	if left != nil {
-		return g.set(p, calc(left.Out[0].This, v, op))
+		return g.set(p, calc(left.Interface(), v, op))
 	}
 
 	switch op {
diff --git a/expression.go b/expression.go
index 9fe3ba0..a9e9f2b 100644
--- a/expression.go
+++ b/expression.go
@@ -28,7 +28,7 @@ func (g *Graph) ast() {
 	}
 
 	for _, node := range g.Out {
-		if node.ThisString() == TypeExpression {
+		if s := node.ThisString(); s == TypeExpression || s == TypeGroup {
 			node._ast()
 		} else {
 			node.ast()
@@ -38,22 +38,20 @@ func (g *Graph) ast() {
 
 func (g *Graph) _ast() {
 
+	g.ast()
+
 	if g.Len() < 2 {
 		return
 	}
 
-	for _, node := range g.Out {
-		node.ast()
-	}
+	// Unary operators take the operand that follows them.
+	for i := len(g.Out) - 2; i >= 0; i-- {
 
-	if g.Len() == 2 {
-		node := g.Out[0]
-
-		if node.ThisString() == "!" {
-			node.Add(g.Out[1])
+		node := g.Out[i]
+		if node.Len() == 0 && isUnary(node.ThisString()) && (i == 0 || isOperator(g.Out[i-1])) && !isOperator(g.Out[i+1]) {
+			node.Add(g.Out[i+1])
+			g.DeleteAt(i + 1)
 		}
-		g.DeleteAt(1)
-		return
 	}
 
 	var e1, e2 *Graph
@@ -63,7 +61,7 @@ func (g *Graph) _ast() {
 		for i := 0; i < len(g.Out); i++ {
 
 			node := g.Out[i]
-			if precedence(node.ThisString()) == j {
+			if precedence(node.ThisString()) == j && node.Len() == 0 && i > 0 && i+1 < len(g.Out) {
 				e1 = g.Out[i-1]
 				e2 = g.Out[i+1]
 				g.Out = append(g.Out[:i-1], g.Out[i:]...)
@@ -76,6 +74,17 @@ func (g *Graph) _ast() {
 	}
 }
 
+// isUnary returns true for the operators that can have a single operand.
+func isUnary(s string) bool {
+	return s == "!" || s == "-" || s == "+"
+}
+
+// isOperator returns true for operator nodes that have no operands yet.
+func isOperator(g *Graph) bool {
+	s := g.ThisString()
+	return g.Len() == 0 && (s == "!" || precedence(s) >= 0)
+}
+
 // Precedence is same as in Go, except for the missing operators (| << >> & ^ &^)
 //
 // Assignment operators are given the lowest precedence.
diff --git a/flow.go b/flow.go
index 5098d94..56fb7ab 100644
--- a/flow.go
+++ b/flow.go
@@ -203,6 +203,11 @@ func (p *Parser) UnaryExpression() bool {
 
 	if ok {
 		p.ev.Add(b)
+
+		if p.PeekByte() != '(' {
+			// The operand of a unary operator
+			return p.UnaryExpression()
+		}
 	}
 
 	if p.PeekByte() == '(' {
@@ -222,7 +227,6 @@ func (p *Parser) UnaryExpression() bool {
 	}
 
 	return p.Path()
-	//return p.UnaryExpression()
 }
 
 // Path parses an OGDL path, or an extended path as used in templates.
-- 
2.43.0


From 64ecee6c8d182843ee61c31c5877e301c70c4674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 21/42] fix: paths with an index out of range or an empty group

---
 eval.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index 04facf3..753ba7a 100644
--- a/eval.go
+++ b/eval.go
@@ -71,8 +71,13 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 				return nil, ErrInvalidIndex
 			}
 
+			n := ctx.GetAt(ix)
+			if n == nil {
+				return nil, ErrNotFound
+			}
+
 			r := New("[")
-			r.Add(ctx.GetAt(ix))
+			r.Add(n)
 			ctxPrev = ctx
 			ctx = r
 
@@ -125,7 +130,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
 		case TypeGroup:
 			// The expression is evaluated and used as path element
-			itf, err := g.Eval(pathNode.Out[0])
+			itf, err := g.Eval(pathNode.GetAt(0))
 			if err != nil {
 				return nil, err
 			}
@@ -265,7 +270,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 
 		case TypeGroup:
 			// The expression is evaluated and used as path element
-			itf, err := g.Eval(pathNode.Out[0])
+			itf, err := g.Eval(pathNode.GetAt(0))
 			if err != nil {
 				return nil, err
 			}
@@ -302,7 +307,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 		}
 	}
 
-	if addRoot {
+	if addRoot && ctx != nil {
 		r := New("[")
 		r.Add(ctx)
 		ctx = r
-- 
2.43.0


From e24090b1bf720f3ef15eb67db081b747a307046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:55 +0000
Subject: [PATCH 22/42] fix: path elements after an index are looked up below
 the indexed node

---
 eval.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/eval.go b/eval.go
index 753ba7a..6ff550f 100644
--- a/eval.go
+++ b/eval.go
@@ -50,6 +50,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 	ctx := g            // Current context node
 	var ctxPrev *Graph  // Previous context node
 	var elemPrev string // Previous path element searched in the context node
+	var addRoot bool    // The last path element is an index
 
 	for i := 0; i < len(p.Out); i++ {
 
@@ -59,6 +60,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
 		pathNode := p.Out[i]
 		pathElement := pathNode.ThisString()
+		addRoot = false
 
 		switch pathElement {
 
@@ -76,10 +78,9 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 				return nil, ErrNotFound
 			}
 
-			r := New("[")
-			r.Add(n)
 			ctxPrev = ctx
-			ctx = r
+			ctx = n
+			addRoot = true
 
 		case TypeSelector:
 
@@ -164,6 +165,12 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 		}
 	}
 
+	if addRoot {
+		r := New("[")
+		r.Add(ctx)
+		ctx = r
+	}
+
 	return ctx, nil
 }
 
-- 
2.43.0


From e58f865424528175dd462853293b2b8df4cf3654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 23/42] fix: Set follows a path beyond an index, and an invalid
 index changes nothing

---
 graph.go | 57 +++++++++++++++++++++++++++++---------------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/graph.go b/graph.go
index 6634f3c..2db46f5 100644
--- a/graph.go
+++ b/graph.go
@@ -299,41 +299,44 @@ func (g *Graph) Set(s string, val interface{}) *Graph {
 	return g.set(path, val)
 }
 
-// TODO: Clean this code:
+// set sets the given (parsed) path to the value given, creating the nodes that
+// are missing along the path.
 func (g *Graph) set(path *Graph, val interface{}) *Graph {
 
-	node := g
-
-	i := 0
-	var prev *Graph
-
-	for ; i < len(path.Out); i++ {
-
-		prev = node
-
-		elem := path.Out[i]
-		if elem.ThisString() == TypeIndex {
-			return node.setAt(elem.Int64(), val)
-		}
-		node = node.Node(elem.ThisString())
+	if g == nil || path == nil {
+		return nil
+	}
 
-		if node == nil {
-			break
+	// An invalid index changes nothing
+	for _, elem := range path.Out {
+		if elem.ThisString() == TypeIndex && elem.index(g) < 0 {
+			return nil
 		}
 	}
 
-	if node == nil {
-		node = prev
+	node := g
 
-		for ; i < len(path.Out); i++ {
-			elem := path.Out[i]
+	for i, elem := range path.Out {
 
-			if elem.ThisString() == TypeIndex {
-				return node.setAt(elem.Int64(), val)
-			}
+		var next *Graph
 
-			node = node.Add(elem.This)
+		if elem.ThisString() == TypeIndex {
+			ix := elem.index(g)
+			if i == len(path.Out)-1 {
+				return node.setAt(ix, val)
+			}
+			next = node.GetAt(ix)
+			if next == nil {
+				next = node.setAt(ix, nil)
+			}
+		} else {
+			next = node.Node(elem.ThisString())
+			if next == nil {
+				next = node.Add(elem.This)
+			}
 		}
+
+		node = next
 	}
 
 	node.Out = nil
@@ -343,11 +346,11 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 
 // setAt puts val in the subnode at index i, adding empty nodes as needed. It
 // returns nil if the index is not valid.
-func (g *Graph) setAt(i int64, val interface{}) *Graph {
+func (g *Graph) setAt(i int, val interface{}) *Graph {
 	if i < 0 {
 		return nil
 	}
-	for int64(len(g.Out)) <= i {
+	for len(g.Out) <= i {
 		g.Out = append(g.Out, New(nil))
 	}
 	g.Out[i] = New(val)
-- 
2.43.0


From d51a836d16ac514b506add5dbe1d0ad9d46b2760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:24 +0000
Subject: [PATCH 24/42] fix: a break within an if ends the for loop

---
 template.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/template.go b/template.go
index 9602ce2..bab1101 100644
--- a/template.go
+++ b/template.go
@@ -99,22 +99,22 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			// evaluate the expression
 			yes = c.evalBool(n.GetAt(0).GetAt(0))
 			// if true, evaluate the template part
-			if yes {
-				n.GetAt(1).process(c, buffer)
+			if yes && n.GetAt(1).process(c, buffer) {
+				return true
 			}
 		case TypeElseIf:
 			if !yes {
 				// evaluate the expression
 				yes = c.evalBool(n.GetAt(0).GetAt(0))
 				// if true, evaluate the template part
-				if yes {
-					n.GetAt(1).process(c, buffer)
+				if yes && n.GetAt(1).process(c, buffer) {
+					return true
 				}
 			}
 		case TypeElse:
 			// if there was a previous if or elseif evaluating to false:
-			if !yes {
-				n.GetAt(0).process(c, buffer)
+			if !yes && n.GetAt(0).process(c, buffer) {
+				return true
 			}
 		case TypeFor:
 			// The first subnode (of !g) is a path
-- 
2.43.0


From b63c7ac013a2b56671832f61e5c032d73b1e8cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 25/42] fix: schema nodes without text and binary contents

---
 schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index ff81607..4a552be 100644
--- a/schema.go
+++ b/schema.go
@@ -41,7 +41,7 @@ func (g *Graph) checkNode(x *Graph) bool {
 	var ok bool
 
 	// literal | literal* | literal? | literal+ | ** | ***
-	if sc[0] != '!' {
+	if len(sc) == 0 || sc[0] != '!' {
 		return sx == sc
 	}
 
@@ -64,7 +64,7 @@ func (g *Graph) checkNode(x *Graph) bool {
 		return ty == "string"
 
 	case "!binary":
-		return ty == "[]byte"
+		return ty == "[]uint8"
 	}
 
 	return false
-- 
2.43.0


From 20fe5d0c8f2945223bcc66c12bf98ecf12cbb9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 26/42] fix: a for loop without a context has no elements

---
 template.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/template.go b/template.go
index bab1101..76bd0bc 100644
--- a/template.go
+++ b/template.go
@@ -147,6 +147,9 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			varname := n.GetAt(0).GetAt(0).GetAt(0).String()
 			c.Delete(varname)
 			it := c.Add(varname)
+			if it == nil {
+				continue
+			}
 
 			for _, ee := range gi.Out {
 
-- 
2.43.0


From 111b1a6e5c3bb96f36d09c73397d91b89afba596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:02 +0000
Subject: [PATCH 27/42] fix: Log.GetBinary returns the position of the next
 object

---
 log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.go b/log.go
index 9567f32..41c0a77 100644
--- a/log.go
+++ b/log.go
@@ -164,5 +164,5 @@ func (log *Log) GetBinary(i int64) ([]byte, int64, error) {
 	b := make([]byte, n)
 	_, err = log.f.ReadAt(b, i)
 
-	return b, int64(n), err
+	return b, i + int64(n), err
 }
-- 
2.43.0


From 0f58ba0bc8bd5acc57fd45e76fe5732e0a98d4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:03 +0000
Subject: [PATCH 28/42] fix: JSON lists of values are separated by commas

---
 encoding.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding.go b/encoding.go
index ae60afd..067e607 100644
--- a/encoding.go
+++ b/encoding.go
@@ -143,6 +143,7 @@ func (g *Graph) json(buf *bytes.Buffer) {
 		switch n.Len() {
 		case 0:
 			n.writeValue(buf)
+			comma = true
 		case 1:
 			n.writeString(buf)
 			buf.WriteString(": ")
-- 
2.43.0


From a1d68a82aaf22f00484eea6f3db03b363b6162ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 29/42] fix: JSON strings escape backslashes and control
 characters

---
 encoding.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/encoding.go b/encoding.go
index 067e607..bcad8a1 100644
--- a/encoding.go
+++ b/encoding.go
@@ -9,7 +9,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
-	"strings"
 )
 
 // FromJSON converts a JSON text stream into OGDL.
@@ -166,8 +165,18 @@ func (g *Graph) json(buf *bytes.Buffer) {
 func (g *Graph) writeString(buf *bytes.Buffer) {
 	s := g.ThisString()
 	buf.WriteByte('"')
-	s = strings.Replace(s, "\"", "\\\"", -1)
-	buf.WriteString(s)
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		switch {
+		case c == '"' || c == '\\':
+			buf.WriteByte('\\')
+			buf.WriteByte(c)
+		case c < 32:
+			buf.WriteString(fmt.Sprintf("\\u%04x", c))
+		default:
+			buf.WriteByte(c)
+		}
+	}
 	buf.WriteByte('"')
 	buf.WriteByte(' ')
 }
-- 
2.43.0


From de450b2db621a298b5609a0a8e6ad9f3e12d134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 30/42] fix: the server reads messages that arrive in pieces

---
 ogdlrf/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ogdlrf/server.go b/ogdlrf/server.go
index 5f399a5..c31b67c 100644
--- a/ogdlrf/server.go
+++ b/ogdlrf/server.go
@@ -6,6 +6,7 @@ package ogdlrf
 
 import (
 	"encoding/binary"
+	"io"
 	"log"
 	"net"
 	"time"
@@ -119,7 +120,7 @@ func process(c net.Conn, handler Function, timeout int) {
 		// Thus, first read 4 bytes (LEN)
 
 		c.SetReadDeadline(time.Now().Add(time.Second * time.Duration(timeout)))
-		i, err := c.Read(b4)
+		i, err := io.ReadFull(c, b4)
 
 		if i == 0 {
 			break
@@ -144,7 +145,7 @@ func process(c net.Conn, handler Function, timeout int) {
 			log.Println("ogdlrf.Serve, cannot allocate memory for message")
 			break
 		}
-		i, err = c.Read(buf)
+		i, err = io.ReadFull(c, buf)
 
 		if err != nil {
 			log.Println("ogdlrf.Serve, error reading message body, ", err)
-- 
2.43.0


From 4241f4e466d1ef4aefac418e8c8a7960dac013b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 31/42] fix: the client reads exactly one response per call

---
 ogdlrf/client.go | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index 2945e95..84f8ec5 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -7,6 +7,7 @@ package ogdlrf
 import (
 	"encoding/binary"
 	"errors"
+	"io"
 
 	"log"
 	"net"
@@ -102,7 +103,7 @@ func (rf *Client) callV2(g *ogdl.Graph) (*ogdl.Graph, error) {
 	}
 
 	// Read header response
-	j, err := rf.conn.Read(b4)
+	j, err := io.ReadFull(rf.conn, b4)
 	if j != 4 {
 		log.Println("error reading incomming message LEN")
 		return nil, errors.New("error in message header")
@@ -110,23 +111,11 @@ func (rf *Client) callV2(g *ogdl.Graph) (*ogdl.Graph, error) {
 	l := binary.BigEndian.Uint32(b4)
 
 	// Read body response
-	buf3 := make([]byte, 0, l)
-	tmp := make([]byte, 10000)
-	l2 := uint32(0)
-
-	for {
-		i, err = rf.conn.Read(tmp)
-		l2 += uint32(i)
-		if err != nil || i == 0 {
-			log.Println("Error reading body", l2, l, err)
-			return nil, err
-		}
-
-		buf3 = append(buf3, tmp[:i]...)
-
-		if l2 >= l {
-			break
-		}
+	buf3 := make([]byte, l)
+	i, err = io.ReadFull(rf.conn, buf3)
+	if err != nil {
+		log.Println("Error reading body", i, l, err)
+		return nil, err
 	}
 
 	g = ogdl.FromBinary(buf3)
-- 
2.43.0


From bd4a7cf2514fb5d06ed8af5bfef7d6d18148788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 32/42] fix: Simplify accepts an @id without value and a nil
 graph

---
 io/gxml/xml.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/io/gxml/xml.go b/io/gxml/xml.go
index 5fd20b8..050a353 100644
--- a/io/gxml/xml.go
+++ b/io/gxml/xml.go
@@ -13,16 +13,16 @@ import (
 )
 
 func Simplify(g *ogdl.Graph) {
-	if g.Out == nil {
+	if g == nil {
 		return
 	}
 
 	for _, n := range g.Out {
 
-		if len(n.Out) == 0 {
+		if n.Len() <= 0 {
 			continue
 		}
-		if n.Out[0].ThisString() == "@id" && len(n.Out) >= 2 {
+		if n.Out[0].ThisString() == "@id" && n.Out[0].Len() > 0 && len(n.Out) >= 2 {
 			if n.This != "p" {
 				n.This = n.Out[0].Out[0].This
 			}
-- 
2.43.0


From b07986f3f6f5b9618238bb6a3169c2ce54af0445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 33/42] fix: lines indented by more than the pushback window
 are parsed

---
 block.go  | 38 ++++++++++++++++++++++++--------------
 parser.go |  3 +++
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/block.go b/block.go
index e245127..11a5740 100644
--- a/block.go
+++ b/block.go
@@ -20,9 +20,7 @@ func (p *Parser) Ogdl() {
 	if u == 0 {
 		return // Error
 	}
-	for i := n; i > 0; i-- {
-		p.UnreadByte()
-	}
+	p.unreadIndent(n, u)
 	p.tree(n, false)
 }
 
@@ -35,12 +33,26 @@ func (p *Parser) OgdlTypes() {
 	if u == 0 {
 		return // Error
 	}
-	for i := n; i > 0; i-- {
-		p.UnreadByte()
-	}
+	p.unreadIndent(n, u)
 	p.tree(n, true)
 }
 
+// indent returns the space in front of a line
+func (p *Parser) indent() (int, byte) {
+	if n := p.ind; n > 0 {
+		p.ind = 0
+		return n, p.indType
+	}
+	return p.Space()
+}
+
+// unreadIndent keeps the space in front of a line for the next call to indent().
+// (There can be more than what UnreadByte is able to push back.)
+func (p *Parser) unreadIndent(n int, u byte) {
+	p.ind = n
+	p.indType = u
+}
+
 // tree reads all lines with indentation >= ns
 func (p *Parser) tree(ns int, types bool) {
 	for {
@@ -49,7 +61,9 @@ func (p *Parser) tree(ns int, types bool) {
 			break
 		}
 	}
-	p.End()
+	if p.ind == 0 {
+		p.End()
+	}
 }
 
 // line processes an OGDL line or a multiline scalar.
@@ -76,19 +90,15 @@ func (p *Parser) tree(ns int, types bool) {
 //
 func (p *Parser) line(ns int, types bool) (bool, error) {
 
-	n, u := p.Space()
+	n, u := p.indent()
 
 	if n < ns {
-		for i := n; i > 0; i-- {
-			p.UnreadByte()
-		}
+		p.unreadIndent(n, u)
 		return false, nil
 	}
 
 	if n > ns {
-		for i := n; i > 0; i-- {
-			p.UnreadByte()
-		}
+		p.unreadIndent(n, u)
 		p.ev.Inc()
 		p.tree(n, types)
 		p.ev.Dec()
diff --git a/parser.go b/parser.go
index 7b1ea91..775a941 100644
--- a/parser.go
+++ b/parser.go
@@ -14,6 +14,9 @@ import (
 type Parser struct {
 	Lexer                     // Buffered byte and rune readed
 	ev    *SimpleEventHandler // The output (event) stream
+
+	ind     int  // Space already read in front of the current line, if any
+	indType byte // Type of that space
 }
 
 // NewParser return a new Parser from a Reader
-- 
2.43.0


From 80810478f76b82bd1764737ad89e3b50eea6c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 34/42] fix: a for loop over a list with one element

---
 template.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/template.go b/template.go
index 76bd0bc..65b089d 100644
--- a/template.go
+++ b/template.go
@@ -120,7 +120,9 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			// The first subnode (of !g) is a path
 			// The second is an expression evaluating to a list of elements
 
-			i, _ := c.Eval(n.GetAt(0).GetAt(1))
+			// (not simplified, since a list can have a single element)
+
+			i, _ := c.evalExpression(n.GetAt(0).GetAt(1), false)
 
 			// fmt.Printf("-------\nfor (expr)\n-------\n%s\n\n", n.GetAt(0).GetAt(1).Show())
 
-- 
2.43.0


From 8442f0344f74541ab11d1c1bf2e2e88dc9a3610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 35/42] fix: a dot after a variable is text when no path
 element follows

---
 flow.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/flow.go b/flow.go
index 56fb7ab..697850f 100644
--- a/flow.go
+++ b/flow.go
@@ -280,6 +280,11 @@ func (p *Parser) Path() bool {
 					break
 				}
 			} else {
+				if !p.isElement() {
+					// The dot doesn't belong to the path
+					p.UnreadByte()
+					break
+				}
 				dot = true
 			}
 		}
@@ -322,3 +327,13 @@ func (p *Parser) Path() bool {
 
 	return anything
 }
+
+// isElement returns true if a path element begins at the current position.
+func (p *Parser) isElement() bool {
+	c, _ := p.PeekRune()
+	switch c {
+	case '"', '\'', '`', '[', '{', '(':
+		return true
+	}
+	return isTokenChar(c)
+}
-- 
2.43.0


From 00a65dfb9b71f0994826b4e843814ba2c302506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 36/42] fix: expressions within indexes, selectors and
 arguments of paths are regrouped

---
 expression.go | 5 +++--
 flow.go       | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/expression.go b/expression.go
index a9e9f2b..f4c3e28 100644
--- a/expression.go
+++ b/expression.go
@@ -28,9 +28,10 @@ func (g *Graph) ast() {
 	}
 
 	for _, node := range g.Out {
-		if s := node.ThisString(); s == TypeExpression || s == TypeGroup {
+		switch node.ThisString() {
+		case TypeExpression, TypeGroup, TypeIndex, TypeSelector:
 			node._ast()
-		} else {
+		default:
 			node.ast()
 		}
 	}
diff --git a/flow.go b/flow.go
index 697850f..272f16e 100644
--- a/flow.go
+++ b/flow.go
@@ -15,6 +15,7 @@ func NewPath(s string) *Graph {
 	p.Path()
 	g := p.Graph()
 	g.This = TypePath
+	g.ast()
 	return g
 }
 
-- 
2.43.0


From 802f2c2a013c10483b5896b321a29813826aab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 37/42] fix: template text that equals a node type is text

---
 template.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/template.go b/template.go
index 65b089d..588ef36 100644
--- a/template.go
+++ b/template.go
@@ -85,9 +85,8 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 	yes := false
 
 	for _, n := range g.Out {
-		s := n.ThisString()
 
-		switch s {
+		switch n.templateType() {
 		case TypePath:
 			i, _ := c.Eval(n)
 			buffer.WriteString(_text(i))
@@ -173,6 +172,16 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 	return false
 }
 
+// templateType returns the type of a template node, or nothing for text.
+func (g *Graph) templateType() string {
+	if g != nil {
+		if _, ok := g.This.([]byte); ok {
+			return ""
+		}
+	}
+	return g.ThisString()
+}
+
 // simplify converts !p TYPE in !TYPE for keywords if, end, else, elseif, for and break.
 func (g *Graph) simplify() {
 
@@ -220,9 +229,8 @@ func (g *Graph) flow(h, prev *Graph, start int) int {
 
 	for i = start; i < g.Len(); i++ {
 		node := g.Out[i]
-		s := node.ThisString()
 
-		switch s {
+		switch node.templateType() {
 
 		case TypeIf, TypeFor:
 			h.Add(node)
@@ -308,7 +316,8 @@ func (p *Parser) Text() bool {
 	s, b := p.TemplateText()
 
 	if b {
-		p.ev.Add(s)
+		// Stored as bytes, so that it can not be confused with a node type
+		p.ev.AddBytes([]byte(s))
 		return true
 	}
 	return false
-- 
2.43.0


From d01ddc300303167c86331a202b5c2fc6eba06599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 38/42] fix: path lookup through a function without usable
 arguments does not crash

---
 function.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/function.go b/function.go
index bb11df0..7a446b0 100644
--- a/function.go
+++ b/function.go
@@ -50,6 +50,11 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 		//log.Println(runtime.FuncForPC(v.Pointer()).Name())
 		//log.Println(reflect.TypeOf(typ).String())
 
+		// There should be something that selects the function or its arguments
+		if path.Len() < 2 {
+			return nil, errors.New("No arguments")
+		}
+
 		// Pre-evaluate
 		var args []interface{}
 
@@ -75,6 +80,12 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 			}
 		}
 
+		// Check that the argument types match, otherwise v.Call() will panic
+		if v.Type().NumIn() != len(args) {
+			// TODO Check that we print the name of the function
+			return nil, fmt.Errorf("Invalid number of arguments in function %s (is %d, soll %d)\n%s", runtime.FuncForPC(v.Pointer()).Name(), len(args), v.Type().NumIn(), path.Show())
+		}
+
 		for i, arg := range args {
 			if arg == nil {
 				// No untyped nil support :-(
@@ -84,12 +95,6 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 			}
 		}
 
-		// Check that the argument types match, otherwise v.Call() will panic
-		if v.Type().NumIn() != len(args) {
-			// TODO Check that we print the name of the function
-			return nil, fmt.Errorf("Invalid number of arguments in function %s (is %d, soll %d)\n%s", runtime.FuncForPC(v.Pointer()).Name(), len(args), v.Type().NumIn(), path.Show())
-		}
-
 		for i := 0; i < v.Type().NumIn(); i++ {
 			if v.Type().In(i).String() != vargs[i].Type().String() {
 				return nil, errors.New("arguments do not match")
@@ -151,7 +156,11 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 
 			// Type adapter. A bit slow (cache could help)
 			dtype := mtype.In(i).String()
-			vargs = append(vargs, convert(args[i], dtype))
+			varg := convert(args[i], dtype)
+			if !varg.IsValid() {
+				return nil, errors.New("arguments do not match")
+			}
+			vargs = append(vargs, varg)
 		}
 
 		// log.Printf(" - vargs: %v", vargs)
-- 
2.43.0


From 9b9d3a34a9631baa80e507699352ec90be80808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 39/42] fix: SpaceMax takes no space when the maximum is 0

---
 lexer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lexer.go b/lexer.go
index 82961c0..83fed19 100644
--- a/lexer.go
+++ b/lexer.go
@@ -326,7 +326,7 @@ func (p *Lexer) SpaceMax(max int) (int, byte) {
 	spaces := 0
 	tabs := 0
 
-	for {
+	for spaces < max && tabs < max {
 		c, _ := p.Byte()
 		if c != '\t' && c != ' ' {
 			p.UnreadByte()
@@ -338,9 +338,6 @@ func (p *Lexer) SpaceMax(max int) (int, byte) {
 		} else {
 			tabs++
 		}
-		if spaces == max || tabs == max {
-			break
-		}
 	}
 
 	var r byte
-- 
2.43.0


From 814a8b034c9e99732b2b8b18113d9bcfc42d83b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 40/42] fix: a remote call that failed does not leave its
 connection to the next call

---
 ogdlrf/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index 84f8ec5..d59463d 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -64,11 +64,12 @@ func (rf *Client) Call(g *ogdl.Graph) (*ogdl.Graph, error) {
 		if err == nil {
 			break
 		}
+		// The response may still come: do not use this connection again
+		rf.Close()
 		n--
 		if n < 0 {
 			break
 		}
-		rf.conn = nil
 	}
 
 	return r, err
-- 
2.43.0


From 160ad6540065766b5e2b20254821d3f776a878f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 41/42] fix: Set panicked on a path element without content

---
 graph.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 2db46f5..bacd229 100644
--- a/graph.go
+++ b/graph.go
@@ -316,8 +316,9 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 
 	node := g
 
-	for i, elem := range path.Out {
+	for i := 0; i < len(path.Out); i++ {
 
+		elem := path.Out[i]
 		var next *Graph
 
 		if elem.ThisString() == TypeIndex {
@@ -336,6 +337,11 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 			}
 		}
 
+		// An element without content leads nowhere
+		if next == nil {
+			return nil
+		}
+
 		node = next
 	}
 
-- 
2.43.0


From 91f177207b582eeaa54892efd19d240ab0d73823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:23 +0000
Subject: [PATCH 42/42] fix: Text and Show panicked on a graph whose text is a
 quote or a carriage return

---
 graph.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index bacd229..0887e9a 100644
--- a/graph.go
+++ b/graph.go
@@ -393,7 +393,7 @@ func (g *Graph) Text() string {
 
 	// unquote
 
-	if s[0] == '"' {
+	if len(s) > 1 && s[0] == '"' && s[len(s)-1] == '"' {
 		s = s[1 : len(s)-1]
 		// But then also replace \"
 		s = strings.Replace(s, "\\\"", "\"", -1)
@@ -426,7 +426,7 @@ func (g *Graph) Show() string {
 
 	// unquote
 
-	if s[0] == '"' {
+	if len(s) > 1 && s[0] == '"' && s[len(s)-1] == '"' {
 		s = s[1 : len(s)-1]
 		// But then also replace \"
 		s = strings.Replace(s, "\\\"", "\"", -1)
-- 
2.43.0

