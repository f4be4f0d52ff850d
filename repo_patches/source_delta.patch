From f88e3df30c66cacad498ffd0f89a2fe3f5fd9b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:00 +0000
Subject: [PATCH 01/12] fix: Regexp() sends operator "regexp", was misspelt
 "rexgexp"

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 1a08f3a..9ad9225 100644
--- a/expr.go
+++ b/expr.go
@@ -276,7 +276,7 @@ func IsNot(a, b interface{}) exprFunc {
 
 func Regexp(a, b interface{}) exprFunc {
 	return func(p []byte, tag uint8) ([]byte, error) {
-		return xproto.AppendExprOperatorV(p, tag, "rexgexp", a, b)
+		return xproto.AppendExprOperatorV(p, tag, "regexp", a, b)
 	}
 }
 
-- 
2.43.0


From 0011271bc35b3e429cf485ecf5fe38645ac6c785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:00 +0000
Subject: [PATCH 02/12] fix: AppendExprVariable encodes names of 124 bytes and
 longer

The Expr length was written as a single byte, producing a malformed message
for long variable names.
---
 xproto/expr.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/xproto/expr.go b/xproto/expr.go
index 50e8969..37c21c0 100644
--- a/xproto/expr.go
+++ b/xproto/expr.go
@@ -423,13 +423,17 @@ func AppendExprPlaceholder(p []byte, tag uint8, pos uint32) ([]byte, error) {
 }
 
 func AppendExprVariable(p []byte, tag uint8, name string) ([]byte, error) {
-	x := len(name)
-	n := sizeVarint(uint(x))
-	p = append(p, tag<<3|wireBytes, 3+byte(n+x),
-		tagExprType<<3|wireVarint, byte(mysqlx_expr.Expr_VARIABLE),
-		tagExprVariable<<3|wireBytes, byte(x)|0x80, byte(x>>7)|0x80, byte(x>>14)|0x80, byte(x>>21)|0x80, byte(x>>28)|0x80,
-		byte(x>>35)|0x80, byte(x>>42)|0x80, byte(x>>49)|0x80, byte(x>>56), 1)
-	n += len(p) - binary.MaxVarintLen64
-	p[n-1] &= 0x7F
-	return append(p[:n], name...), nil
+	n := len(name)
+	n0 := 3 + sizeVarint(uint(n)) + n // Expr size
+	p, b := slice.ForAppend(p, 1+sizeVarint(uint(n0))+n0)
+
+	b[0] = tag<<3 | wireBytes
+	i := 1 + putUvarint(b[1:], uint64(n0))
+	b[i] = tagExprType<<3 | wireVarint
+	b[i+1] = byte(mysqlx_expr.Expr_VARIABLE)
+	b[i+2] = tagExprVariable<<3 | wireBytes
+	i += 3
+	i += putUvarint(b[i:], uint64(n))
+	copy(b[i:], name)
+	return p, nil
 }
-- 
2.43.0


From 589b7f6d9e09787f22ffa2589d10b8d983ee3214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:00 +0000
Subject: [PATCH 03/12] fix: AppendDuration formats the minimum Duration

---
 xproto/scalar.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xproto/scalar.go b/xproto/scalar.go
index fba59b0..59cd72c 100644
--- a/xproto/scalar.go
+++ b/xproto/scalar.go
@@ -45,11 +45,12 @@ const smallsString = "00010203040506070809" +
 	"50515253545556575859"
 
 func AppendDuration(p []byte, d time.Duration) []byte {
+	u := uint64(d)
 	if d < 0 {
-		d = -d
+		u = -u // unsigned, as -d overflows for the minimum Duration
 		p = append(p, '-')
 	}
-	i := 2 * (uint(d/time.Minute) % 60)
-	j := 2 * (uint(d/time.Second) % 60)
-	return append(strconv.AppendUint(p, uint64(d/time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
+	i := 2 * (u / uint64(time.Minute) % 60)
+	j := 2 * (u / uint64(time.Second) % 60)
+	return append(strconv.AppendUint(p, u/uint64(time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
 }
-- 
2.43.0


From 2b99971efd4629207f03e44c4eb060f1d6413572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:00 +0000
Subject: [PATCH 04/12] fix: errors returned by Tx, ExpectFailOnError, InsertF
 and UpdateF callbacks fail the Send

They were discarded, so a unit of work whose callback gave up half way was
sent (and committed) all the same.
---
 builder.go | 4 +++-
 crud.go    | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/builder.go b/builder.go
index e91f6e4..236da0a 100644
--- a/builder.go
+++ b/builder.go
@@ -36,7 +36,9 @@ func (b *Builder) call(f func(b *Builder) error) {
 		disabled: false,
 	}
 	b.disabled = true
-	f(&child)
+	if err := f(&child); err != nil && child.err == nil {
+		child.err = err
+	}
 	b.buf = child.buf
 	b.err = child.err
 	b.disabled = false
diff --git a/crud.go b/crud.go
index cf730fb..1a69399 100644
--- a/crud.go
+++ b/crud.go
@@ -31,7 +31,9 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 	n := len(b.buf)
 	i := &Insert{buf: xproto.Insert(b.buf, name, columns)}
 	b.disabled = true
-	f(i)
+	if err := f(i); err != nil && i.err == nil {
+		i.err = err
+	}
 	b.buf, b.err = i.buf, i.err
 	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
@@ -59,7 +61,9 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 	var u Update
 	u.buf, u.err = xproto.Update(b.buf, name, criteria)
 	b.disabled = true
-	f(&u)
+	if err := f(&u); err != nil && u.err == nil {
+		u.err = err
+	}
 	b.buf, b.err = u.buf, u.err
 	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
-- 
2.43.0


From 2fa248ccef93b0aab68bd997e747b45f8f5e1fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:00 +0000
Subject: [PATCH 05/12] fix: InsertF, UpdateF and Delete do not panic when an
 expression fails with a nil buffer

---
 crud.go          | 8 ++++++--
 xproto/xproto.go | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crud.go b/crud.go
index 1a69399..83e35d0 100644
--- a/crud.go
+++ b/crud.go
@@ -35,7 +35,9 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 		i.err = err
 	}
 	b.buf, b.err = i.buf, i.err
-	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
+	if b.err == nil {
+		binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
+	}
 	b.disabled = false
 }
 
@@ -65,6 +67,8 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 		u.err = err
 	}
 	b.buf, b.err = u.buf, u.err
-	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
+	if b.err == nil {
+		binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
+	}
 	b.disabled = false
 }
diff --git a/xproto/xproto.go b/xproto/xproto.go
index b9c182d..fd2bf47 100644
--- a/xproto/xproto.go
+++ b/xproto/xproto.go
@@ -69,8 +69,10 @@ func Delete(p []byte, name string, criteria AppendExprFunc) ([]byte, error) {
 	i += putUvarint(b[i:], uint64(n))
 	copy(b[i:], name)
 	if criteria != nil {
-		p, err = criteria(p, tagDeleteCriteria)
+		if p, err = criteria(p, tagDeleteCriteria); err != nil {
+			return p, err
+		}
 	}
 	binary.LittleEndian.PutUint32(p[s:], uint32(len(p)-s-4))
-	return p, err
+	return p, nil
 }
-- 
2.43.0


From 3c01c9a683fac1cd1d36185d998b9fdc833db73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:42 +0000
Subject: [PATCH 06/12] fix: nil pointers to AppendAny/AppendExpr values are
 NULL

A nil *xtorm.String (or any nil pointer whose element type implements the
interface) panicked with a nil dereference, unlike other nil pointers. A
pointer to a nil interface was rejected rather than sent as NULL.
---
 xproto/any.go  | 7 +++++--
 xproto/expr.go | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/xproto/any.go b/xproto/any.go
index ad0f38d..c934e1a 100644
--- a/xproto/any.go
+++ b/xproto/any.go
@@ -344,10 +344,10 @@ type AppendAny interface {
 }
 
 func appendAny(p []byte, tag uint8, value interface{}) ([]byte, error) {
+typeSwitch:
 	if value == nil {
 		return appendAnyNull(p, tag), nil
 	}
-typeSwitch:
 	switch v := value.(type) {
 	case int:
 		if bits.UintSize == 32 {
@@ -391,11 +391,14 @@ typeSwitch:
 		return appendAnyDuration(p, tag, v), nil
 
 	default:
+		rv := reflect.ValueOf(value)
 		if ae, ok := v.(AppendAny); ok {
+			if rv.Kind() == reflect.Ptr && rv.IsNil() {
+				return appendAnyNull(p, tag), nil
+			}
 			return ae.AppendAny(p, tag)
 		}
 
-		rv := reflect.ValueOf(value)
 		switch rv.Kind() {
 		case reflect.Ptr:
 			if rv.IsNil() {
diff --git a/xproto/expr.go b/xproto/expr.go
index 37c21c0..6b8d79c 100644
--- a/xproto/expr.go
+++ b/xproto/expr.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"math/bits"
+	"reflect"
 	"time"
 
 	"github.com/renthraysk/xtorm/collation"
@@ -304,6 +305,9 @@ func appendExpr(p []byte, tag uint8, v interface{}) ([]byte, error) {
 		return vv(p, tag)
 	default:
 		if ae, ok := vv.(AppendExpr); ok {
+			if rv := reflect.ValueOf(v); rv.Kind() == reflect.Ptr && rv.IsNil() {
+				return appendExprNull(p, tag), nil
+			}
 			return ae.AppendExpr(p, tag)
 		}
 	}
-- 
2.43.0


From f33bd5010b4f0cc3365f91df743a99c787eba4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:42 +0000
Subject: [PATCH 07/12] fix: builders and insert/update handles kept after
 their callback cannot corrupt the unit of work

They still shared the parent's buffer, and appending to them overwrote
messages recorded by the parent since.
---
 builder.go | 2 ++
 crud.go    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/builder.go b/builder.go
index 236da0a..908c090 100644
--- a/builder.go
+++ b/builder.go
@@ -42,6 +42,8 @@ func (b *Builder) call(f func(b *Builder) error) {
 	b.buf = child.buf
 	b.err = child.err
 	b.disabled = false
+	// A child kept after f returned shares b's buffer, so must not append to it.
+	child.disabled = true
 }
 
 type OpenContext uint8
diff --git a/crud.go b/crud.go
index 83e35d0..7b06cbb 100644
--- a/crud.go
+++ b/crud.go
@@ -39,6 +39,7 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 		binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	}
 	b.disabled = false
+	*i = Insert{} // detach from b's buffer
 }
 
 type Update struct {
@@ -71,4 +72,5 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 		binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	}
 	b.disabled = false
+	u = Update{} // detach from b's buffer
 }
-- 
2.43.0


From 96cbbf275ccdd594d56a62d87d05e72cc8d021b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:42 +0000
Subject: [PATCH 08/12] fix: Close of the pool is safe while Sends are in
 flight, and when repeated

A Send finishing after Close panicked with a send on a closed channel, as did
a second Close.
---
 netx/pool/fifoch/fifoch.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/netx/pool/fifoch/fifoch.go b/netx/pool/fifoch/fifoch.go
index 97dda79..66856ed 100644
--- a/netx/pool/fifoch/fifoch.go
+++ b/netx/pool/fifoch/fifoch.go
@@ -12,6 +12,7 @@ import (
 
 type poolCh struct {
 	mu        sync.Mutex
+	closed    bool // guarded by mu, ch is closed once it is set
 	ch        chan netx.Conn
 	connector netx.Connector
 }
@@ -26,28 +27,39 @@ func New(connector netx.Connector, size int) *poolCh {
 
 func (p *poolCh) Close(ctx context.Context) error {
 
-	ch := p.getCh()
+	p.mu.Lock()
+	if !p.closed {
+		p.closed = true
+		close(p.ch)
+	}
+	p.mu.Unlock()
 
-	defer close(ch)
 	for {
 		select {
-		case conn, ok := <-ch:
+		case conn, ok := <-p.ch:
 			if !ok {
 				return nil
 			}
 			conn.Close()
 		case <-ctx.Done():
 			return ctx.Err()
-		default:
-			return nil
 		}
 	}
 }
 
-func (p *poolCh) getCh() chan netx.Conn {
+// put returns whether conn was accepted as an idle connection.
+func (p *poolCh) put(conn netx.Conn) bool {
 	p.mu.Lock()
 	defer p.mu.Unlock()
-	return p.ch
+	if p.closed {
+		return false
+	}
+	select {
+	case p.ch <- conn:
+		return true
+	default:
+		return false
+	}
 }
 
 func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
@@ -57,9 +69,8 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 		ok   bool
 		err  error
 	)
-	ch := p.getCh()
 	select {
-	case conn, ok = <-ch:
+	case conn, ok = <-p.ch:
 		if !ok {
 			return nil, pool.ErrPoolClosed
 		}
@@ -79,10 +90,7 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 		return r, err
 	}
 
-	ch = p.getCh()
-	select {
-	case ch <- conn:
-	default:
+	if !p.put(conn) {
 		conn.Close()
 	}
 	return r, nil
-- 
2.43.0


From 7297d64ef3c2375ea626409d7174901140249248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:42 +0000
Subject: [PATCH 09/12] fix: the pool does not reuse a connection after an
 error response

A unit of work that failed inside ExpectFailOnError(Tx()) skips its COMMIT and
leaves its transaction open; reusing the connection let the next unit of work
commit those changes.
---
 netx/pool/fifoch/fifoch.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/netx/pool/fifoch/fifoch.go b/netx/pool/fifoch/fifoch.go
index 66856ed..de3656b 100644
--- a/netx/pool/fifoch/fifoch.go
+++ b/netx/pool/fifoch/fifoch.go
@@ -90,10 +90,22 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 		return r, err
 	}
 
-	if !p.put(conn) {
+	// After an error response the session may have a transaction left open (the
+	// COMMIT is skipped in a failed expect block), which must not leak into the
+	// next unit of work.
+	if hasError(r) || !p.put(conn) {
 		conn.Close()
 	}
 	return r, nil
 }
 
+func hasError(responses []netx.Response) bool {
+	for _, r := range responses {
+		if _, ok := r.(error); ok {
+			return true
+		}
+	}
+	return false
+}
+
 var _ pool.Pool = (*poolCh)(nil)
-- 
2.43.0


From 481adcfb3a7175cb17d36df932cfc70b1ac88cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:42 +0000
Subject: [PATCH 10/12] fix: the connector closes the socket when requesting
 TLS fails

---
 netx/connector/connector.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/netx/connector/connector.go b/netx/connector/connector.go
index 7fdaf75..267b20b 100644
--- a/netx/connector/connector.go
+++ b/netx/connector/connector.go
@@ -67,10 +67,12 @@ func (c *Connector) New(ctx context.Context) (netx.Conn, error) {
 	if _, ok := netConn.(*net.TCPConn); ok && c.tlsConfig != nil {
 		b, err := xproto.CapabilitySet("tls", true)
 		if err != nil {
+			conn.Close()
 			return nil, err
 		}
 		// @TODO response test
 		if _, err := conn.Send(ctx, b); err != nil {
+			conn.Close()
 			return nil, err
 		}
 		tlsConn := tls.Client(netConn, c.tlsConfig)
-- 
2.43.0


From d4a5204b604e2bc6a0bec24540e2d840b7be0459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:42 +0000
Subject: [PATCH 11/12] fix: the connector reports a refused TLS request

The error response was ignored and a TLS handshake started with a server that
keeps talking plain X Protocol, hiding the reason or hanging.
---
 netx/connector/connector.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/netx/connector/connector.go b/netx/connector/connector.go
index 267b20b..76816f1 100644
--- a/netx/connector/connector.go
+++ b/netx/connector/connector.go
@@ -70,11 +70,17 @@ func (c *Connector) New(ctx context.Context) (netx.Conn, error) {
 			conn.Close()
 			return nil, err
 		}
-		// @TODO response test
-		if _, err := conn.Send(ctx, b); err != nil {
+		responses, err := conn.Send(ctx, b)
+		if err != nil {
 			conn.Close()
 			return nil, err
 		}
+		for _, r := range responses {
+			if err, ok := r.(error); ok {
+				conn.Close()
+				return nil, fmt.Errorf("server refused TLS: %w", err)
+			}
+		}
 		tlsConn := tls.Client(netConn, c.tlsConfig)
 		if err := tlsConn.Handshake(); err != nil {
 			tlsConn.Close()
-- 
2.43.0


From cab58197bc76aef4bc25ad2f8d28983d5f9e7bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:42 +0000
Subject: [PATCH 12/12] fix: Decimal.String() with fewer digits than its scale

The decimal point was dropped (or put in front of the sign), so 0.05 could
read as 5.
---
 types/decimal.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/types/decimal.go b/types/decimal.go
index 5e07855..cb2f395 100644
--- a/types/decimal.go
+++ b/types/decimal.go
@@ -94,12 +94,20 @@ func (d Decimal) String() string {
 
 	// Scale
 	if s := int(d[0]); s > 0 {
-		// @TODO error?
-		if i := len(b) - s; i >= 0 {
+		n := 0 // position of the first digit
+		if len(b) > 0 && b[0] == '-' {
+			n = 1
+		}
+		// Fewer digits than the scale, pad with leading zeros.
+		for len(b)-n < s {
 			b = append(b, 0)
-			copy(b[i+1:], b[i:])
-			b[i] = '.'
+			copy(b[n+1:], b[n:])
+			b[n] = '0'
 		}
+		i := len(b) - s
+		b = append(b, 0)
+		copy(b[i+1:], b[i:])
+		b[i] = '.'
 	}
 	return string(b)
 }
-- 
2.43.0

