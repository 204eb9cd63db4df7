From f06a7e55109a58589b6b99e6046b0c4f45f65e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 01/28] fix: do not bind URL parameters when only testing a
 regexp pattern

regexpPattern.Match ran with dryrun=false, so consulting a route that was not
selected (wrong method) left its capture groups in the context.
---
 web/regexp_pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 95e7e09..7b2a1c5 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -19,7 +19,7 @@ func (p regexpPattern) Prefix() string {
 	return p.prefix
 }
 func (p regexpPattern) Match(r *http.Request, c *C) bool {
-	return p.match(r, c, false)
+	return p.match(r, c, true)
 }
 func (p regexpPattern) Run(r *http.Request, c *C) {
 	p.match(r, c, false)
-- 
2.43.0


From 5a9d967e79ca7a50797a9dadf628ebdd532aad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 02/28] fix: anchor every alternative of a regexp pattern

Prepending \A to /foo|/bar anchored only the first alternative, so the pattern
matched paths that merely contain /bar.
---
 web/regexp_pattern.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 7b2a1c5..277db5f 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -86,8 +86,14 @@ func sketchOnRegex(re *regexp.Regexp) (*regexp.Regexp, string) {
 		return re, ""
 	}
 	if p.StartCond()&syntax.EmptyBeginText == 0 {
-		// I hope doing this is always legal...
-		newRe, err := regexp.Compile(`\A` + rawRe)
+		// The group is needed because alternation binds less tightly
+		// than concatenation. I hope doing this is always legal...
+		newRe, err := regexp.Compile(`\A(?:` + rawRe + `)`)
+		if err != nil {
+			// ... it is not when the expression ends in the middle
+			// of a \Q quotation.
+			newRe, err = regexp.Compile(`\A(?:` + rawRe + `\E)`)
+		}
 		if err != nil {
 			log.Printf("WARN(web): unable to create a left-"+
 				"anchored regexp from %v. This route might "+
-- 
2.43.0


From f1ece46c0f45112477baa4b5c3ee9cf7a4f56ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 03/28] fix: do not put U+FFFD in the literal prefix of a
 regexp pattern

Package regexp matches U+FFFD against any byte that is not valid UTF-8, so such
a prefix hid routes from paths their expression accepts.
---
 web/regexp_pattern.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 277db5f..e07e8f8 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -7,6 +7,7 @@ import (
 	"net/http"
 	"regexp"
 	"regexp/syntax"
+	"unicode/utf8"
 )
 
 type regexpPattern struct {
@@ -125,6 +126,10 @@ Sadness:
 				syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
 				break Sadness
 			}
+			// U+FFFD also matches any byte that is not valid UTF-8.
+			if i.Rune[0] == utf8.RuneError {
+				break Sadness
+			}
 			buf.WriteRune(i.Rune[0])
 		default:
 			break Sadness
-- 
2.43.0


From 0b9208055407e3dc6668d942b4f24cfb67b91b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 04/28] fix: report the regexp that was registered from
 RawPattern

When the expression had to be left-anchored, RawPattern returned the rewritten
expression instead of the value originally passed.
---
 web/match.go          |  2 +-
 web/regexp_pattern.go | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/web/match.go b/web/match.go
index 1a44144..2cbcdfa 100644
--- a/web/match.go
+++ b/web/match.go
@@ -42,7 +42,7 @@ func GetMatch(c C) Match {
 func (m Match) RawPattern() PatternType {
 	switch v := m.Pattern.(type) {
 	case regexpPattern:
-		return v.re
+		return v.raw
 	case stringPattern:
 		return v.raw
 	default:
diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index e07e8f8..9092ec8 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -11,7 +11,8 @@ import (
 )
 
 type regexpPattern struct {
-	re     *regexp.Regexp
+	raw    *regexp.Regexp // as passed by the user
+	re     *regexp.Regexp // left-anchored
 	prefix string
 	names  []string
 }
@@ -50,7 +51,7 @@ func (p regexpPattern) String() string {
 }
 
 func (p regexpPattern) Raw() *regexp.Regexp {
-	return p.re
+	return p.raw
 }
 
 /*
@@ -140,8 +141,8 @@ Sadness:
 	return re, buf.String()
 }
 
-func parseRegexpPattern(re *regexp.Regexp) regexpPattern {
-	re, prefix := sketchOnRegex(re)
+func parseRegexpPattern(raw *regexp.Regexp) regexpPattern {
+	re, prefix := sketchOnRegex(raw)
 	rnames := re.SubexpNames()
 	// We have to make our own copy since package regexp forbids us
 	// from scribbling over the slice returned by SubexpNames().
@@ -153,6 +154,7 @@ func parseRegexpPattern(re *regexp.Regexp) regexpPattern {
 		names[i] = rname
 	}
 	return regexpPattern{
+		raw:    raw,
 		re:     re,
 		prefix: prefix,
 		names:  names,
-- 
2.43.0


From 0d6fd2bfbbc408ed24e5e9b580377e51a64924af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 05/28] fix: do not disown connections that are already closed

Disowning a closed connection released it from the listener a second time,
which panicked with a negative WaitGroup counter (or, with other connections
on the same shard, made Drain return too early).
---
 graceful/listener/conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 7b34b47..71a66ce 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -141,6 +141,8 @@ func (c *conn) disown() error {
 
 	if c.disowned {
 		return errAlreadyDisowned
+	} else if c.closed {
+		return errClosing
 	}
 
 	c.shard.disown(c)
-- 
2.43.0


From 2114d2e5975647242d1a44464d282494c3b38d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 06/28] fix: do not track connections again after they are
 closed or disowned

Marking a busy connection idle after it was closed or disowned put it back in
its shard's idle set, from which it was never removed.
---
 graceful/listener/conn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 71a66ce..a73a124 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -95,12 +95,12 @@ func (c *conn) markIdle() {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	if !c.busy {
+	if !c.busy || c.closed || c.disowned {
 		return
 	}
 	c.busy = false
 
-	if exit := c.shard.markIdle(c); exit && !c.closed && !c.disowned {
+	if exit := c.shard.markIdle(c); exit {
 		c.closed = true
 		c.shard.disown(c)
 		defer c.shard.wg.Done()
-- 
2.43.0


From c123597c5e7a5c512b122e3e26547c3178ec32ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 07/28] fix: never close connections disowned during DrainAll

DrainAll closed the connections it found when it started, including those that
were disowned before it got to them.
---
 graceful/listener/conn.go  | 17 +++++++++++++++++
 graceful/listener/shard.go |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index a73a124..d78203c 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -78,6 +78,23 @@ func (c *conn) Close() error {
 	return c.Conn.Close()
 }
 
+// closeIfManaged closes the connection unless it is closed already or has been
+// disowned, in which case it is none of our business anymore.
+func (c *conn) closeIfManaged() error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	if c.closed || c.disowned {
+		return nil
+	}
+
+	c.closed = true
+	c.shard.disown(c)
+	defer c.shard.wg.Done()
+
+	return c.Conn.Close()
+}
+
 func (c *conn) SetReadDeadline(t time.Time) error {
 	c.mu.Lock()
 	if !c.disowned && c.mode == Deadline {
diff --git a/graceful/listener/shard.go b/graceful/listener/shard.go
index a9addad..cf79484 100644
--- a/graceful/listener/shard.go
+++ b/graceful/listener/shard.go
@@ -86,7 +86,7 @@ func (s *shard) closeConns(all, drain bool) {
 		// happen. (I also expect that most errors returned in this way
 		// are going to be pretty boring)
 		if all {
-			c.Close()
+			c.closeIfManaged()
 		} else {
 			c.closeIfIdle()
 		}
-- 
2.43.0


From 0f4e4bdb600c70de6bca9d19e8821592edae5a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 08/28] fix: register connections with their shard before it
 can be drained

A connection accepted while its shard was being drained was added to the
WaitGroup concurrently with Wait, which is a data race and can panic.
---
 graceful/listener/conn.go  | 4 ++--
 graceful/listener/shard.go | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index d78203c..e94b92d 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -24,9 +24,9 @@ type conn struct {
 var errClosing = errors.New("use of closed network connection")
 
 func (c *conn) init() error {
-	c.shard.wg.Add(1)
 	if shouldExit := c.shard.track(c); shouldExit {
-		c.Close()
+		c.closed = true
+		c.Conn.Close()
 		return errClosing
 	}
 	return nil
diff --git a/graceful/listener/shard.go b/graceful/listener/shard.go
index cf79484..c3be8b7 100644
--- a/graceful/listener/shard.go
+++ b/graceful/listener/shard.go
@@ -30,6 +30,9 @@ func (s *shard) track(c *conn) (shouldClose bool) {
 		s.mu.Unlock()
 		return true
 	}
+	// This must happen before anyone can start waiting, i.e. before drain is
+	// set: adding to a WaitGroup while it is being waited for is a misuse.
+	s.wg.Add(1)
 	s.all[c] = struct{}{}
 	s.idle[c] = struct{}{}
 	s.mu.Unlock()
-- 
2.43.0


From e45de0f4ff41700ff2e2b2490a028d00fad8c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 09/28] fix: count the bytes sent through the writer proxy's
 ReadFrom

---
 web/mutil/writer_proxy_go1_8.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 2019c98..af5191b 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -125,7 +125,9 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
 	f.basicWriter.maybeWriteHeader()
-	return rf.ReadFrom(r)
+	n, err := rf.ReadFrom(r)
+	f.basicWriter.bytes += int(n)
+	return n, err
 }
 
 var (
-- 
2.43.0


From 18815a45bb1286edb007eb60f10041680c895240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 10/28] fix: report push as unsupported when the proxied writer
 is no Pusher

The writer proxy of every HTTP/1.x response panicked instead.
---
 web/mutil/writer_proxy_go1_8.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index af5191b..3eaacc3 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -106,7 +106,11 @@ type fancyWriter struct {
 }
 
 func (f *fancyWriter) Push(target string, opts *http.PushOptions) error {
-	return f.basicWriter.ResponseWriter.(http.Pusher).Push(target, opts)
+	p, ok := f.basicWriter.ResponseWriter.(http.Pusher)
+	if !ok {
+		return http.ErrNotSupported
+	}
+	return p.Push(target, opts)
 }
 
 func (f *fancyWriter) Flush() {
-- 
2.43.0


From 250522c9559662d92dcb16747ef29afe39e9a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 11/28] fix: do not take informational responses for the final
 status

After a 1xx status the writer proxy swallowed the final status, which made the
client see a 200.
---
 web/mutil/writer_proxy_go1_8.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 3eaacc3..8569956 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -55,6 +55,12 @@ type basicWriter struct {
 
 func (b *basicWriter) WriteHeader(code int) {
 	if !b.wroteHeader {
+		// Informational responses may precede the final one.
+		// net/http treats 101 as a final status.
+		if code >= 100 && code <= 199 && code != http.StatusSwitchingProtocols {
+			b.ResponseWriter.WriteHeader(code)
+			return
+		}
 		b.code = code
 		b.wroteHeader = true
 		b.ResponseWriter.WriteHeader(code)
-- 
2.43.0


From 2620aff48409d5aea543b2924b886f35036b8f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 12/28] fix: notice that flushing the writer proxy sends the
 header

The proxy reported no status after a flush, and afterwards reported whatever
status the handler set too late.
---
 web/mutil/writer_proxy_go1_8.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 8569956..082d59e 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -120,6 +120,8 @@ func (f *fancyWriter) Push(target string, opts *http.PushOptions) error {
 }
 
 func (f *fancyWriter) Flush() {
+	// Flushing sends the header if that hasn't happened yet.
+	f.basicWriter.maybeWriteHeader()
 	fl := f.basicWriter.ResponseWriter.(http.Flusher)
 	fl.Flush()
 }
-- 
2.43.0


From afd954a917decdcd272c966a9e986d5a43a21eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 13/28] fix: send no status when copying nothing through the
 writer proxy

Copying from a reader that is empty, or that fails at once, sent a 200, so that
a handler could not report the failure like it can without the proxy.
---
 web/mutil/writer_proxy_go1_8.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 082d59e..80b0000 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -135,11 +135,21 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	if f.basicWriter.tee != nil {
 		return io.Copy(&f.basicWriter, r)
 	}
+	var n int64
+	if !f.basicWriter.wroteHeader {
+		// Like in net/http, the header is only sent once there is
+		// something to send.
+		const first = 512
+		var err error
+		n, err = io.Copy(&f.basicWriter, io.LimitReader(r, first))
+		if err != nil || n < first {
+			return n, err
+		}
+	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
-	f.basicWriter.maybeWriteHeader()
-	n, err := rf.ReadFrom(r)
-	f.basicWriter.bytes += int(n)
-	return n, err
+	n2, err := rf.ReadFrom(r)
+	f.basicWriter.bytes += int(n2)
+	return n + n2, err
 }
 
 var (
-- 
2.43.0


From 1a11481c18edb0c483d8291f2bae72f4f9008965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 14/28] fix: answer OPTIONS automatically after informational
 responses too

---
 web/middleware/options.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/web/middleware/options.go b/web/middleware/options.go
index 4bdce5f..20157ef 100644
--- a/web/middleware/options.go
+++ b/web/middleware/options.go
@@ -43,6 +43,11 @@ func (p *autoOptionsProxy) WriteHeader(code int) {
 	methods := getValidMethods(*p.c)
 	switch p.state {
 	case aosInit:
+		// Informational responses may precede the final one.
+		if code >= 100 && code <= 199 && code != http.StatusSwitchingProtocols {
+			p.w.WriteHeader(code)
+			return
+		}
 		if methods != nil && code == http.StatusNotFound {
 			p.state = aosProxying
 			break
-- 
2.43.0


From d8cdde06b1ce1d04a400d60f3f7682d869d39db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 15/28] fix: drop the 404's Content-Length from automatic
 OPTIONS responses

Its body is not sent, so that clients saw a truncated response.
---
 web/middleware/options.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/middleware/options.go b/web/middleware/options.go
index 20157ef..2da5d3e 100644
--- a/web/middleware/options.go
+++ b/web/middleware/options.go
@@ -60,6 +60,8 @@ func (p *autoOptionsProxy) WriteHeader(code int) {
 	}
 
 	methods = addMethod(methods, "OPTIONS")
+	// The body this announced, if any, is not sent.
+	p.w.Header().Del("Content-Length")
 	p.w.Header().Set("Allow", strings.Join(methods, ", "))
 	p.w.WriteHeader(http.StatusOK)
 }
-- 
2.43.0


From 9152d61a1b63cb6768cf0089dbba232442e83488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 16/28] fix: drop conditional headers whose first value is
 empty

NoCache let a conditional request header through when an empty value of it came
first.
---
 web/middleware/nocache.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/web/middleware/nocache.go b/web/middleware/nocache.go
index ae3d260..25c1d89 100644
--- a/web/middleware/nocache.go
+++ b/web/middleware/nocache.go
@@ -38,9 +38,7 @@ func NoCache(h http.Handler) http.Handler {
 
 		// Delete any ETag headers that may have been set
 		for _, v := range etagHeaders {
-			if r.Header.Get(v) != "" {
-				r.Header.Del(v)
-			}
+			r.Header.Del(v)
 		}
 
 		// Set our NoCache headers
-- 
2.43.0


From d06f97b8e067e5c480eb34a422bfa0e4f205571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 17/28] fix: send NoCache's Expires header in UTC

In other time zones the header was in local time, not the documented value.
---
 web/middleware/nocache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/middleware/nocache.go b/web/middleware/nocache.go
index 25c1d89..f392673 100644
--- a/web/middleware/nocache.go
+++ b/web/middleware/nocache.go
@@ -6,7 +6,7 @@ import (
 )
 
 // Unix epoch time
-var epoch = time.Unix(0, 0).Format(time.RFC1123)
+var epoch = time.Unix(0, 0).UTC().Format(time.RFC1123)
 
 // Taken from https://github.com/mytrile/nocache
 var noCacheHeaders = map[string]string{
-- 
2.43.0


From f526f2d9426ab4acbf23b5d94f859d2bdfd5cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 18/28] fix: do not record a status that the proxied writer
 refused

net/http panics on invalid status codes. The writer proxy took that code for the
one sent and swallowed the 500 of the recovery middleware, so that the client
saw a 200.
---
 web/mutil/writer_proxy_go1_8.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 80b0000..0c38a75 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -61,9 +61,10 @@ func (b *basicWriter) WriteHeader(code int) {
 			b.ResponseWriter.WriteHeader(code)
 			return
 		}
+		// This panics, and sends nothing, if the code is invalid.
+		b.ResponseWriter.WriteHeader(code)
 		b.code = code
 		b.wroteHeader = true
-		b.ResponseWriter.WriteHeader(code)
 	}
 }
 
-- 
2.43.0


From 85f4fdd86db382daab6486e60ee182b204649d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 19/28] fix: serve returns nil if a connection arrives during
 the shutdown

The error that package listener returns for such a connection was not recognised
as a peaceful one.
---
 graceful/graceful.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graceful/graceful.go b/graceful/graceful.go
index 19490e0..7cd92cb 100644
--- a/graceful/graceful.go
+++ b/graceful/graceful.go
@@ -46,6 +46,11 @@ func peacefulError(err error) error {
 	if atomic.LoadInt32(&closing) == 0 {
 		return err
 	}
+	// Package listener returns this for connections that arrive while it is
+	// being drained.
+	if err != nil && err.Error() == errClosing {
+		return nil
+	}
 	// Unfortunately Go doesn't really give us a better way to select errors
 	// than this, so *shrug*.
 	if oe, ok := err.(*net.OpError); ok {
-- 
2.43.0


From 08dc328232c9747539cb339152bb3c8189e5857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 20/28] fix: do not start serving after a shutdown

A listener that was registered after (or just missed by) a shutdown was served
for ever, and no further graceful shutdown would stop it.
---
 graceful/graceful.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graceful/graceful.go b/graceful/graceful.go
index 7cd92cb..5b3d912 100644
--- a/graceful/graceful.go
+++ b/graceful/graceful.go
@@ -35,6 +35,12 @@ func appendListener(l *listener.T) {
 	defer mu.Unlock()
 
 	listeners = append(listeners, l)
+
+	if atomic.LoadInt32(&closing) != 0 {
+		// The shutdown may have missed this one.
+		l.Close()
+		go l.Drain()
+	}
 }
 
 const errClosing = "use of closed network connection"
-- 
2.43.0


From 86d44c6df9faaef2af76a0184c0f28387e25727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 21/28] fix: keep every field of the user's TLS configuration

The copy dropped all fields that crypto/tls gained after Go 1.6, among them
VerifyPeerCertificate and GetConfigForClient.
---
 graceful/clone16.go |  2 +-
 graceful/clone18.go | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)
 create mode 100644 graceful/clone18.go

diff --git a/graceful/clone16.go b/graceful/clone16.go
index 810b3a2..18fbbbc 100644
--- a/graceful/clone16.go
+++ b/graceful/clone16.go
@@ -1,4 +1,4 @@
-// +build go1.6
+// +build go1.6,!go1.8
 
 package graceful
 
diff --git a/graceful/clone18.go b/graceful/clone18.go
new file mode 100644
index 0000000..e9d27be
--- /dev/null
+++ b/graceful/clone18.go
@@ -0,0 +1,12 @@
+// +build go1.8
+
+package graceful
+
+import "crypto/tls"
+
+func cloneTLSConfig(cfg *tls.Config) *tls.Config {
+	if cfg == nil {
+		return &tls.Config{}
+	}
+	return cfg.Clone()
+}
-- 
2.43.0


From c3d71be46fbe536a5bdfd2cb278e0c97f383b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 22/28] fix: report negative file descriptors instead of
 crashing

Binding to fd@-1, or to an Einhorn socket whose descriptor is negative, died of a
nil pointer dereference.
---
 bind/bind.go    | 13 ++++++++++---
 bind/einhorn.go |  4 +---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/bind/bind.go b/bind/bind.go
index 43d11dd..e28d5c4 100644
--- a/bind/bind.go
+++ b/bind/bind.go
@@ -96,6 +96,15 @@ func Sniff() string {
 	return ""
 }
 
+func fileListener(fd int, name string) (net.Listener, error) {
+	f := os.NewFile(uintptr(fd), name)
+	if f == nil {
+		return nil, fmt.Errorf("invalid file descriptor %d in %s", fd, name)
+	}
+	defer f.Close()
+	return net.FileListener(f)
+}
+
 func listenTo(bind string) (net.Listener, error) {
 	if strings.Contains(bind, ":") {
 		return net.Listen("tcp", bind)
@@ -107,9 +116,7 @@ func listenTo(bind string) (net.Listener, error) {
 			return nil, fmt.Errorf("error while parsing fd %v: %v",
 				bind, err)
 		}
-		f := os.NewFile(uintptr(fd), bind)
-		defer f.Close()
-		return net.FileListener(f)
+		return fileListener(fd, bind)
 	} else if strings.HasPrefix(bind, "einhorn@") {
 		fd, err := strconv.Atoi(bind[8:])
 		if err != nil {
diff --git a/bind/einhorn.go b/bind/einhorn.go
index e695c0e..4762f5a 100644
--- a/bind/einhorn.go
+++ b/bind/einhorn.go
@@ -64,9 +64,7 @@ func einhornBind(n int) (net.Listener, error) {
 	}
 
 	fno := einhornFdMap(n)
-	f := os.NewFile(uintptr(fno), fmt.Sprintf("einhorn@%d", n))
-	defer f.Close()
-	return net.FileListener(f)
+	return fileListener(fno, fmt.Sprintf("einhorn@%d", n))
 }
 
 // Fun story: this is actually YAML, not JSON.
-- 
2.43.0


From f5bde6efcda8d2bb36b40f8a8b904219a4ae0569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 23/28] fix: adding no signals must not add all of them

---
 graceful/signal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graceful/signal.go b/graceful/signal.go
index 55061a5..8531e95 100644
--- a/graceful/signal.go
+++ b/graceful/signal.go
@@ -32,6 +32,10 @@ func HandleSignals() {
 // AddSignal adds the given signal to the set of signals that trigger a graceful
 // shutdown.
 func AddSignal(sig ...os.Signal) {
+	if len(sig) == 0 {
+		// Notify would take this to mean all signals.
+		return
+	}
 	signal.Notify(sigchan, sig...)
 }
 
-- 
2.43.0


From 68bf6e1f947c9779a6dfe54c157d7c11c4fdd00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 24/28] fix: keep connections with pipelined requests in use

---
 graceful/serve13.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/graceful/serve13.go b/graceful/serve13.go
index 68cac04..d309dcd 100644
--- a/graceful/serve13.go
+++ b/graceful/serve13.go
@@ -28,7 +28,7 @@ type connState func(net.Conn, http.ConnState)
 
 func (c connState) Wrap(nc net.Conn, s http.ConnState) {
 	// There are a few other states defined, most notably StateActive.
-	// Unfortunately it doesn't look like it's possible to make use of
+	// Unfortunately it doesn't look like it's possible to rely on
 	// StateActive to implement graceful shutdown, since StateActive is set
 	// after a complete request has been read off the wire with an intent to
 	// process it. If we were to race a graceful shutdown against a
@@ -44,7 +44,14 @@ func (c connState) Wrap(nc net.Conn, s http.ConnState) {
 	// https://groups.google.com/forum/#!topic/golang-nuts/Xi8yjBGWfCQ
 	// I'd be very eager to find a better way to do this, so reach out to me
 	// if you have any ideas.
+	//
+	// StateActive does matter for pipelined requests, however: nothing is
+	// read from the connection if the whole request is buffered already.
 	switch s {
+	case http.StateActive:
+		if err := listener.MarkInUse(nc); err != nil {
+			log.Printf("error marking conn as in use: %v", err)
+		}
 	case http.StateIdle:
 		if err := listener.MarkIdle(nc); err != nil {
 			log.Printf("error marking conn as idle: %v", err)
-- 
2.43.0


From 6f5d50056eea7093af7a574997066c39d64c5a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:31 +0000
Subject: [PATCH 25/28] fix: accept certificates from the TLS configuration

ListenAndServeTLS without certificate files failed although the configuration had
certificates or callbacks which return them; net/http needs no files then.
---
 graceful/clone.go   |  6 ++++++
 graceful/clone16.go |  6 ++++++
 graceful/clone18.go |  7 +++++++
 graceful/server.go  | 10 ++++++----
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/graceful/clone.go b/graceful/clone.go
index a9027e5..e8c71e5 100644
--- a/graceful/clone.go
+++ b/graceful/clone.go
@@ -9,3 +9,9 @@ func cloneTLSConfig(cfg *tls.Config) *tls.Config {
 	c := *cfg
 	return &c
 }
+
+// hasCertificates reports whether the configuration has its own certificates, in
+// which case net/http needs no certificate files.
+func hasCertificates(cfg *tls.Config) bool {
+	return len(cfg.Certificates) > 0
+}
diff --git a/graceful/clone16.go b/graceful/clone16.go
index 18fbbbc..8784d3e 100644
--- a/graceful/clone16.go
+++ b/graceful/clone16.go
@@ -32,3 +32,9 @@ func cloneTLSConfig(cfg *tls.Config) *tls.Config {
 		CurvePreferences:         cfg.CurvePreferences,
 	}
 }
+
+// hasCertificates reports whether the configuration has its own certificates, in
+// which case net/http needs no certificate files.
+func hasCertificates(cfg *tls.Config) bool {
+	return len(cfg.Certificates) > 0 || cfg.GetCertificate != nil
+}
diff --git a/graceful/clone18.go b/graceful/clone18.go
index e9d27be..7d605aa 100644
--- a/graceful/clone18.go
+++ b/graceful/clone18.go
@@ -10,3 +10,10 @@ func cloneTLSConfig(cfg *tls.Config) *tls.Config {
 	}
 	return cfg.Clone()
 }
+
+// hasCertificates reports whether the configuration has its own certificates, in
+// which case net/http needs no certificate files.
+func hasCertificates(cfg *tls.Config) bool {
+	return len(cfg.Certificates) > 0 || cfg.GetCertificate != nil ||
+		cfg.GetConfigForClient != nil
+}
diff --git a/graceful/server.go b/graceful/server.go
index ae9a5fb..2ffde58 100644
--- a/graceful/server.go
+++ b/graceful/server.go
@@ -65,10 +65,12 @@ func (srv *Server) ListenAndServeTLS(certFile, keyFile string) error {
 	}
 
 	var err error
-	config.Certificates = make([]tls.Certificate, 1)
-	config.Certificates[0], err = tls.LoadX509KeyPair(certFile, keyFile)
-	if err != nil {
-		return err
+	if !hasCertificates(config) || certFile != "" || keyFile != "" {
+		config.Certificates = make([]tls.Certificate, 1)
+		config.Certificates[0], err = tls.LoadX509KeyPair(certFile, keyFile)
+		if err != nil {
+			return err
+		}
 	}
 
 	ln, err := net.Listen("tcp", addr)
-- 
2.43.0


From 51be06dbe1bdd2186dcb85507475f0bd176c448c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 26/28] fix: negotiate the protocols that can be served

With "h2" among the configured protocols clients negotiated HTTP/2, which is never
served, and without "http/1.1" among them HTTP/1.1 clients were turned away.
---
 graceful/server.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/graceful/server.go b/graceful/server.go
index 2ffde58..beec17d 100644
--- a/graceful/server.go
+++ b/graceful/server.go
@@ -60,9 +60,7 @@ func (srv *Server) ListenAndServeTLS(certFile, keyFile string) error {
 	if srv.TLSConfig != nil {
 		config = cloneTLSConfig(srv.TLSConfig)
 	}
-	if config.NextProtos == nil {
-		config.NextProtos = []string{"http/1.1"}
-	}
+	config.NextProtos = http1Protos(config.NextProtos)
 
 	var err error
 	if !hasCertificates(config) || certFile != "" || keyFile != "" {
@@ -82,6 +80,23 @@ func (srv *Server) ListenAndServeTLS(certFile, keyFile string) error {
 	return srv.Serve(tlsListener)
 }
 
+// http1Protos returns the protocols to negotiate given the configured ones. As
+// in net/http, HTTP/1.1 is always among them, and HTTP/2, which cannot be served
+// on connections that are wrapped for graceful shutdown, never is.
+func http1Protos(configured []string) []string {
+	protos, http1 := []string{}, false
+	for _, p := range configured {
+		if p != "h2" {
+			protos = append(protos, p)
+		}
+		http1 = http1 || p == "http/1.1"
+	}
+	if !http1 {
+		protos = append(protos, "http/1.1")
+	}
+	return protos
+}
+
 // ListenAndServe behaves exactly like the net/http function of the same name.
 func ListenAndServe(addr string, handler http.Handler) error {
 	server := &Server{Addr: addr, Handler: handler}
-- 
2.43.0


From 109ceded303feedab314aa5ffa2716eb2ffd7320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:52 +0000
Subject: [PATCH 27/28] fix: reject file descriptors that do not fit

fd@4294967299 adopted descriptor 3.
---
 bind/bind.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bind/bind.go b/bind/bind.go
index e28d5c4..e84ad9d 100644
--- a/bind/bind.go
+++ b/bind/bind.go
@@ -97,6 +97,10 @@ func Sniff() string {
 }
 
 func fileListener(fd int, name string) (net.Listener, error) {
+	// The kernel ignores the upper half of what it gets as a descriptor.
+	if int(int32(fd)) != fd {
+		return nil, fmt.Errorf("invalid file descriptor %d in %s", fd, name)
+	}
 	f := os.NewFile(uintptr(fd), name)
 	if f == nil {
 		return nil, fmt.Errorf("invalid file descriptor %d in %s", fd, name)
-- 
2.43.0


From 40421c40ce44a92d0d0ed269124bbbb1d3544ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:48 +0000
Subject: [PATCH 28/28] fix: signals are dated when they arrive, not when the
 pre-hooks have run

---
 graceful/signal.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/graceful/signal.go b/graceful/signal.go
index 8531e95..eee4325 100644
--- a/graceful/signal.go
+++ b/graceful/signal.go
@@ -15,6 +15,10 @@ var listeners = make([]*listener.T, 0)
 var prehooks = make([]func(os.Signal), 0)
 var posthooks = make([]func(os.Signal), 0)
 var closing int32
+
+// Protects doubleKick and timeout. Not mu, which is held while hooks run: the
+// signal loop has to see every signal at the time it arrives.
+var kickMu sync.Mutex
 var doubleKick, timeout time.Duration
 
 var wait = make(chan struct{})
@@ -118,8 +122,8 @@ func DoubleKickWindow(d time.Duration) {
 	if d < 0 {
 		return
 	}
-	mu.Lock()
-	defer mu.Unlock()
+	kickMu.Lock()
+	defer kickMu.Unlock()
 
 	doubleKick = d
 }
@@ -134,8 +138,8 @@ func Timeout(d time.Duration) {
 	if d < 0 {
 		return
 	}
-	mu.Lock()
-	defer mu.Unlock()
+	kickMu.Lock()
+	defer kickMu.Unlock()
 
 	timeout = d
 }
@@ -155,7 +159,7 @@ func sigLoop() {
 	for {
 		sig := <-sigchan
 		now := time.Now()
-		mu.Lock()
+		kickMu.Lock()
 		force := doubleKick != 0 && now.Sub(last) < doubleKick
 		if t := timeout; t != 0 && !force {
 			go func() {
@@ -163,7 +167,7 @@ func sigLoop() {
 				shutdown(true, sig)
 			}()
 		}
-		mu.Unlock()
+		kickMu.Unlock()
 		go shutdown(force, sig)
 		last = now
 	}
-- 
2.43.0

