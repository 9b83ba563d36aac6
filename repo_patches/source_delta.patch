From 24ce381978c89d2f157c08da8faa318bb739aa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:07 +0000
Subject: [PATCH 01/89] fix: keep bit 4 when writing six bits at once

---
 src/io/sps_io_bits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/sps_io_bits.cpp b/src/io/sps_io_bits.cpp
index 9ea0c9d..365424f 100644
--- a/src/io/sps_io_bits.cpp
+++ b/src/io/sps_io_bits.cpp
@@ -174,7 +174,7 @@ void BitContext::write_bits(uint64_t value, size_t n) {
         static uint32_t masks[]     =  {
                 0x01, 0x03,
                 0x07, 0x0f,
-                0x1f, 0x2f,
+                0x1f, 0x3f,
                 0x7f, 0xff
         };
 
-- 
2.43.0


From beedfca7077fd1ef95d30dd006cdabae2c419d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:07 +0000
Subject: [PATCH 02/89] fix: do not overflow the bit count when acquiring many
 bytes

---
 src/io/sps_io_bits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/sps_io_bits.cpp b/src/io/sps_io_bits.cpp
index 365424f..ed11831 100644
--- a/src/io/sps_io_bits.cpp
+++ b/src/io/sps_io_bits.cpp
@@ -57,7 +57,7 @@ size_t BitContext::size() {
 }
 
 error_t BitContext::acquire(uint32_t nbyte) {
-    return acquire_bits(nbyte * 8);
+    return acquire_bits((size_t) nbyte * 8);
 }
 
 error_t BitContext::acquire_bits(size_t nbit) {
-- 
2.43.0


From 17c2150bb6fae1f3a80cf6bc5535177ab2a025fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:35 +0000
Subject: [PATCH 03/89] fix: report the number of bytes read by
 Socket::read_fully

---
 src/io/sps_io_socket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/sps_io_socket.cpp b/src/io/sps_io_socket.cpp
index 655e1ca..995a8aa 100644
--- a/src/io/sps_io_socket.cpp
+++ b/src/io/sps_io_socket.cpp
@@ -90,6 +90,7 @@ error_t Socket::read_fully(void* buf, size_t size, ssize_t* nread) {
         nr = 0;
     } while (n < size);
 
+    if (nread) *nread = n;
     return ret;
 }
 
-- 
2.43.0


From 4cb28274669a3f01829a73615387741dd2db90a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:35 +0000
Subject: [PATCH 04/89] fix: do not keep the newline on the last line of a
 memory reader

---
 src/io/sps_io_memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/sps_io_memory.cpp b/src/io/sps_io_memory.cpp
index ce0e5ec..d11dfd3 100644
--- a/src/io/sps_io_memory.cpp
+++ b/src/io/sps_io_memory.cpp
@@ -81,7 +81,7 @@ error_t MemoryReaderWriter::read_line(std::string &line) {
     while (pos < len && buf[pos++] != '\n') {
     }
 
-    int tlen = (pos < len) ? (pos-start-1) : (pos-start);
+    int tlen = (buf[pos-1] == '\n') ? (pos-start-1) : (pos-start);
 
     line = std::string(buf + start, tlen);
 
-- 
2.43.0


From f218957526cd83c40404c03fefbb332f1cb861a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:35 +0000
Subject: [PATCH 05/89] fix: advance the position after a memory write

---
 src/io/sps_io_memory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/sps_io_memory.cpp b/src/io/sps_io_memory.cpp
index d11dfd3..9c9c79e 100644
--- a/src/io/sps_io_memory.cpp
+++ b/src/io/sps_io_memory.cpp
@@ -125,6 +125,7 @@ error_t MemoryReaderWriter::write(void *buf, size_t size) {
     }
 
     memcpy(this->buf + pos, buf, size);
+    pos += size;
     return SUCCESS;
 }
 
-- 
2.43.0


From e80a983f67a42b653ad8d436179a47ca2a513e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:40 +0000
Subject: [PATCH 06/89] fix: reject flv tags too short for their codec header

---
 src/avformat/sps_avformat_flvdec.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/avformat/sps_avformat_flvdec.cpp b/src/avformat/sps_avformat_flvdec.cpp
index b043f00..aad7255 100644
--- a/src/avformat/sps_avformat_flvdec.cpp
+++ b/src/avformat/sps_avformat_flvdec.cpp
@@ -133,6 +133,11 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
             stream_type, pkt_type, flags, previous_size, data_size);
 
     if (stream_type == AV_STREAM_TYPE_AUDIO) {
+        if (data_size < 2) {
+            sp_error("flv audio tag too short %d", data_size);
+            return ERROR_FLV_TAG;
+        }
+
         flags   = rd->read_int8();
         // channels    = flags & 0x01    // (0. SndMomo 1. SndStero)
         // sample_size = flags & 0x02    // (0. 8       1. 16)
@@ -147,6 +152,11 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
         data_size   -=   2;
         pts         = dts;
     } else if (stream_type == AV_STREAM_TYPE_VIDEO) {
+        if (data_size < 1) {
+            sp_error("flv video tag too short %d", data_size);
+            return ERROR_FLV_TAG;
+        }
+
         flags       = rd->read_int8();
 
         // 1 keyframe 2. inner 3. h263 disposable 4.5. frame info or order frame
@@ -160,6 +170,11 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
         --data_size;
 
         if (frame_type != 0x50) {
+            if (data_size < 4) {
+                sp_error("flv video tag too short %d", data_size);
+                return ERROR_FLV_TAG;
+            }
+
             // 0. avc sequence header 1. avc data 2. avc end data
             pkt_type = rd->read_int8();
 
-- 
2.43.0


From 59e69265558d8049adc623c1996478afa73edba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:54 +0000
Subject: [PATCH 07/89] fix: append behind the reserved head of a buffer

---
 src/cache/sps_cache_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/sps_cache_buffer.hpp b/src/cache/sps_cache_buffer.hpp
index 753845a..1172e73 100644
--- a/src/cache/sps_cache_buffer.hpp
+++ b/src/cache/sps_cache_buffer.hpp
@@ -78,7 +78,7 @@ class CharBuffer : public IBuffer {
         assert(remain() >= sz);
         len += sz;
     }
-    uint8_t*   pos()              { return buf + len; }
+    uint8_t*   pos()              { return buf + head_len + len; }
     uint32_t   remain()           { return cap_len - len; }
     uint8_t*   head_pos()         { return head_len ? buf : nullptr; }
     uint32_t   head_size()            { return head_len; }
-- 
2.43.0


From fcf1147da767213cc5df6f8adf902e079c3120ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:54 +0000
Subject: [PATCH 08/89] fix: keep the payload unit start flag of cached ts
 packets

---
 src/avformat/sps_avformat_packet.cpp | 2 +-
 src/avformat/sps_avformat_tsdec.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_packet.cpp b/src/avformat/sps_avformat_packet.cpp
index 40678cc..9c0dac1 100644
--- a/src/avformat/sps_avformat_packet.cpp
+++ b/src/avformat/sps_avformat_packet.cpp
@@ -121,7 +121,7 @@ bool AVPacket::is_pmt() {
 }
 
 bool AVPacket::is_payload_unit_start_indicator() {
-    return stream_type == AV_STREAM_PES && (pkt_type.pkt_type & 0x80000000)  == 1;
+    return stream_type == AV_STREAM_PES && (pkt_type.pkt_type & 0x80000000) != 0;
 }
 
 void AVPacket::debug() {
diff --git a/src/avformat/sps_avformat_tsdec.cpp b/src/avformat/sps_avformat_tsdec.cpp
index 72786fd..b31f771 100644
--- a/src/avformat/sps_avformat_tsdec.cpp
+++ b/src/avformat/sps_avformat_tsdec.cpp
@@ -43,7 +43,7 @@ error_t TsCache::on_packet(uint8_t *buf, size_t len,
         TsProgramType ts_type, int payload_unit_start_indicator) {
     auto pkt = AVPacket::create(AV_MESSAGE_DATA,
             ts_type == TS_PROGRAM_PES ? AV_STREAM_PES : AV_STREAM_PSI,
-            AVPacketType{ts_type | (payload_unit_start_indicator >> 31)},
+            AVPacketType{ts_type | (payload_unit_start_indicator ? INT32_MIN : 0)},
             buf,
             len, 0, 0);
     return cache->put(pkt);
-- 
2.43.0


From 146e84fe126d5f70d1fcb61545f216eabf96cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:54 +0000
Subject: [PATCH 09/89] fix: keep the subscriber set ordered when subscribers
 expire

---
 src/sys/sps_sys_sync.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sys/sps_sys_sync.hpp b/src/sys/sps_sys_sync.hpp
index 88ad2cf..b31aefd 100644
--- a/src/sys/sps_sys_sync.hpp
+++ b/src/sys/sps_sys_sync.hpp
@@ -93,10 +93,8 @@ template <class T>
 struct WeakPtrLessThan {
     bool operator()(const std::weak_ptr<T>& lhs,
                    const std::weak_ptr<T>& rhs) const {
-        auto lptr = lhs.lock(), rptr = rhs.lock();
-        if (!rptr) return false;  // nothing after expired pointer
-        if (!lptr) return true;   // every not expired after expired pointer
-        return lptr.get() < rptr.get();
+        // by owner, so that the order never changes when a pointer expires
+        return lhs.owner_before(rhs);
     }
 };
 
-- 
2.43.0


From 488252302448095bc38d7f830db157ff8ee3968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:08 +0000
Subject: [PATCH 10/89] fix: end an edge pull whose format has no demuxer
 instead of crashing

---
 src/module/stream/sps_stream_edge.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index f6898ea..c7ed0e6 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -68,6 +68,11 @@ error_t StreamEdge::handler() {
 
     do {
         auto dec = avf.create(io, url);
+        if (!dec) {
+            sp_error("Fail found demuxer %s", url->get_url());
+            ret = ERROR_AVFORMAT_DEMUX_NOT_EXISTS;
+            break;
+        }
         cache    = StreamCache::create_av_streamcache(key);
         cache->set_ctx(dec->get_av_ctx());
         cond->signal();
-- 
2.43.0


From 7f2f200efda51f86b0bfb6bce2f2576c8223ba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:08 +0000
Subject: [PATCH 11/89] fix: do not let an ended edge pull tear down its
 successor

---
 src/module/stream/sps_stream_edge.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index c7ed0e6..b0b1885 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -97,6 +97,10 @@ error_t StreamEdge::start() {
 }
 
 error_t StreamEdge::stop() {
+    // a pull that already ended must not tear down the one that replaced it
+    if (!started) {
+        return SUCCESS;
+    }
     started = false;
 
     if (cache) {
-- 
2.43.0


From 86ad04ed6c0f0da3757fc9c75e164c892212a7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:50 +0000
Subject: [PATCH 12/89] fix: do not glue a query parameter without value to the
 next one

---
 src/io/url/sps_io_url.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index a597b66..cb6b551 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -88,6 +88,12 @@ error_t RequestUrl::parse_url(const std::string& url) {
         auto off_key = params.find_first_of('=', off_pre);
         if (off_key == std::string::npos) break;
 
+        auto off_amp = params.find_first_of('&', off_pre);
+        if (off_amp < off_key) {  // a parameter without value
+            off_pre = off_amp + 1;
+            continue;
+        }
+
         std::string key = params.substr(off_pre, off_key - off_pre), value;
         off_pre         = off_key + 1;
         auto off_value  = params.find_first_of('&', off_pre);
-- 
2.43.0


From 1f80e4a632759bf82582f1d346a31041ddc52b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:50 +0000
Subject: [PATCH 13/89] fix: keep the first character of a file url

---
 src/io/url/sps_io_url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index cb6b551..1e6430b 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -125,7 +125,7 @@ error_t RequestUrl::parse_url(const std::string& url) {
 
     this->url = path + (params.empty() ? "" : "?" + params);
     if (schema == "file") {
-        this->url    = url.substr(sizeof("file://"));
+        this->url    = url.substr(sizeof("file://") - 1);
         this->path   = url;
         this->params = "";
         this->port   = -1;
-- 
2.43.0


From d8eeb1e23b195cefc401798d78cc1a44c535afc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:50 +0000
Subject: [PATCH 14/89] fix: take the extension from the last path segment only

---
 src/io/url/sps_io_url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 1e6430b..664d501 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -115,7 +115,7 @@ error_t RequestUrl::parse_url(const std::string& url) {
     } while (true);
 
     auto n = path.rfind(".");
-    if (n != std::string::npos) {
+    if (n != std::string::npos && path.find('/', n) == std::string::npos) {
         ext = path.substr(n+1);
     }
 
-- 
2.43.0


From 7f4ec367dc6446887ed8bf8354f2a94e128b36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 15/89] fix: refuse malformed http heads

---
 src/module/http/sps_http_parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index c062568..ed9f0e5 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -185,8 +185,10 @@ int HttpParser::parse_header(const char *b, int len, HttpType ht) {
 
     size_t parsed = http_parser_execute(&ctx->http, &http_setting, b, len);
 
-    if (parsed == 0) {
-        sp_error("parse execute zero %.*s", len, b);
+    if (HTTP_PARSER_ERRNO(&ctx->http) != HPE_OK) {
+        sp_error("parse execute error %s %.*s",
+                 http_errno_name(HTTP_PARSER_ERRNO(&ctx->http)), len, b);
+        return -1;
     }
 
     if ((ht == HttpType::REQUEST || ht == HttpType::BOTH) && parsed >= 0)  {
-- 
2.43.0


From 93377e3ac1a70974f32899204dc0683043fc3cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 16/89] fix: end an http head at its empty line only

---
 src/module/http/sps_http_parser.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index ed9f0e5..093cab7 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -161,9 +161,7 @@ int HttpParser::parse_header(PIReader io, HttpType ht) {
         } else {
             if (*(p-1) != '\r') {
                 state = 4;
-            }
-
-            if (*(p-2) != '\n' && *(p-3) != '\r')  {
+            } else if (*(p-2) != '\n' || *(p-3) != '\r')  {
                 state = 2;
             } else {
                 break;
-- 
2.43.0


From 4554a664e112a72be6219879f38c4b370bd0a87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 17/89] fix: keep content lengths beyond 2 GiB

---
 src/io/url/sps_io_url.cpp                        | 4 ++--
 src/io/url/sps_io_url.hpp                        | 2 +-
 src/io/url/sps_io_url_http.cpp                   | 2 +-
 src/module/http/sps_http_parser.cpp              | 2 +-
 src/module/http/sps_http_parser.hpp              | 4 ++--
 src/module/http/sps_http_phase_handler.cpp       | 4 ++--
 src/module/http/sps_http_proxy_phase_handler.cpp | 8 ++++----
 src/module/http/sps_http_socket.cpp              | 6 +++---
 src/module/http/sps_http_socket.hpp              | 8 ++++----
 9 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 664d501..18d5e4e 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -199,13 +199,13 @@ bool RequestUrl::is_chunked() {
     return get_header("Transfer-Encoding") == "chunked";
 }
 
-int RequestUrl::get_content_length() {
+int64_t RequestUrl::get_content_length() {
     std::string cl = get_header("Content-Length");
     if (cl.empty()) {
         return -1;
     }
 
-    return atoi(cl.c_str());
+    return strtoll(cl.c_str(), nullptr, 10);
 }
 
 utime_t RequestUrl::get_timeout() {
diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index b6020ba..a5792f9 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -79,7 +79,7 @@ class RequestUrl {
 
  public:
     bool is_chunked();
-    int  get_content_length();
+    int64_t get_content_length();
 
  public:
     utime_t      get_timeout();
diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index daf8c23..d3b30b9 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -107,7 +107,7 @@ error_t HttpUrlProtocol::read(void *buf, size_t size, size_t& nr) {
 
     // Content-Length default -1, no limited
     if (rsp->content_length >= 0) {
-        size = std::min(rsp->content_length-nread, size);
+        size = std::min<size_t>(rsp->content_length-nread, size);
     }
 
     nr           = 0;
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index 093cab7..79d0d2d 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -35,7 +35,7 @@ std::string HttpResponse::error() {
 }
 
 // http parse的结果
-int HttpParserContext::content_length() {
+int64_t HttpParserContext::content_length() {
     return http.content_length;
 }
 
diff --git a/src/module/http/sps_http_parser.hpp b/src/module/http/sps_http_parser.hpp
index 203c230..9ca5d28 100644
--- a/src/module/http/sps_http_parser.hpp
+++ b/src/module/http/sps_http_parser.hpp
@@ -47,7 +47,7 @@ enum HttpType {
 
 class HttpResponse : public Response {
  public:
-    int   content_length = -1;
+    int64_t content_length = -1;
     int   status_code    = -1;
     bool  chunked        = false;
     std::list<RequestHeader> headers;
@@ -73,7 +73,7 @@ class HttpParserContext {
 
  public:
     // http parse的结果
-    int content_length();
+    int64_t content_length();
     bool is_chunked();
     int status_code();
     const char* method();
diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index 5f21fc8..63ad815 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -49,10 +49,10 @@ error_t HttpParsePhaseHandler::handler(IConnection &c) {
                                                                                  ;
     c.set_context(ctx);
 
-    sp_trace("Request %s:%d %s %s %s %s, chunked %d, content-length %d",
+    sp_trace("Request %s:%d %s %s %s %s, chunked %d, content-length %lld",
              req->ip.c_str(), req->port, req->get_method(),
              req->host.c_str(), req->url.c_str(), req->params.c_str(),
-             req->is_chunked(), req->get_content_length());
+             req->is_chunked(), (long long) req->get_content_length());
 
     return SPS_PHASE_CONTINUE;
 }
diff --git a/src/module/http/sps_http_proxy_phase_handler.cpp b/src/module/http/sps_http_proxy_phase_handler.cpp
index c81ac20..153a53f 100644
--- a/src/module/http/sps_http_proxy_phase_handler.cpp
+++ b/src/module/http/sps_http_proxy_phase_handler.cpp
@@ -70,12 +70,12 @@ error_t HttpProxyPhaseHandler::handler(IConnection &c) {
     rsp.init(http_rsp->status_code, &http_rsp->headers, http_rsp->content_length, http_rsp->chunked);
 
     if ((ret = rsp.write_header()) != SUCCESS) {
-        sp_error("write head status: %d, %lu, %d, %d.", http_rsp->status_code,
-                 http_rsp->headers.size(), http_rsp->content_length, ret);
+        sp_error("write head status: %d, %lu, %lld, %d.", http_rsp->status_code,
+                 http_rsp->headers.size(), (long long) http_rsp->content_length, ret);
         return ret;
     }
-    sp_debug("write head status %d, %lu, %d.", http_rsp->status_code,
-             http_rsp->headers.size(), http_rsp->content_length);
+    sp_debug("write head status %d, %lu, %lld.", http_rsp->status_code,
+             http_rsp->headers.size(), (long long) http_rsp->content_length);
 
     char   buf[1024];
     int    len  = sizeof(buf);
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 17b37d8..d4f58c1 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -36,7 +36,7 @@ HttpRequestSocket::HttpRequestSocket(PIReaderWriter rw,
                                      const std::string &ip,
                                      int port,
                                      bool chunked,
-                                     int cl) :
+                                     int64_t cl) :
         Socket(std::move(rw), ip, port) {
     this->chunked        = chunked;
     this->content_length = cl;
@@ -53,7 +53,7 @@ error_t HttpRequestSocket::read(void* buf, size_t size, size_t& nr) {
 
     // Content-Length default -1, no limited
     if (content_length >= 0) {
-        size = std::min(content_length-nread, size);
+        size = std::min<size_t>(content_length-nread, size);
     }
 
     nr = 0;
@@ -161,7 +161,7 @@ HttpResponseSocket::HttpResponseSocket(PIReaderWriter rw,
 }
 
 error_t HttpResponseSocket::init(int s_code, std::list<RequestHeader> *hd,
-                                 int cl, bool ch) {
+                                 int64_t cl, bool ch) {
     this->status_code    = s_code;
     this->content_length = cl;
     this->chunked        = ch;
diff --git a/src/module/http/sps_http_socket.hpp b/src/module/http/sps_http_socket.hpp
index 2103652..a49f477 100644
--- a/src/module/http/sps_http_socket.hpp
+++ b/src/module/http/sps_http_socket.hpp
@@ -37,7 +37,7 @@ namespace sps {
 class HttpRequestSocket : public Socket {
  public:
     HttpRequestSocket(PIReaderWriter rw, const std::string& ip,
-                      int port, bool chunked, int content_length);
+                      int port, bool chunked, int64_t content_length);
 
  public:
     error_t read(void* buf, size_t size, size_t& nread) override;
@@ -50,7 +50,7 @@ class HttpRequestSocket : public Socket {
 
  public:
     bool   chunked;
-    int    content_length;
+    int64_t content_length;
     bool   is_eof          = false;
     size_t nread           = 0;
     size_t nb_chunked_size = 0;
@@ -63,14 +63,14 @@ class HttpResponseSocket : public Socket {
 
  public:
     error_t init(int s_code, std::list<RequestHeader>* hd,
-                 int content_len, bool chunked);
+                 int64_t content_len, bool chunked);
     error_t write_header();
     error_t write(void* buf, size_t size) override;
 
  private:
     int  status_code    = 200;
     bool sent_header    = false;
-    int  content_length = 0;
+    int64_t content_length = 0;
     bool chunked        = false;
     std::list<RequestHeader> headers;
 };
-- 
2.43.0


From 1a8813d62fdc24426ab64b75ef55482b792cebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 18/89] fix: end an empty http body at once

---
 src/io/url/sps_io_url_http.cpp      | 2 +-
 src/module/http/sps_http_socket.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index d3b30b9..64b5ee2 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -204,7 +204,7 @@ error_t HttpUrlProtocol::read_chunked_data(void *buf, size_t size,
 }
 
 bool HttpUrlProtocol::eof() {
-    return is_eof;
+    return is_eof || (rsp && !rsp->chunked && rsp->content_length == 0);
 }
 
 PResponse HttpUrlProtocol::response() {
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index d4f58c1..08de89e 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -71,7 +71,7 @@ error_t HttpRequestSocket::read(void* buf, size_t size, size_t& nr) {
 }
 
 bool HttpRequestSocket::eof() {
-    return is_eof;
+    return is_eof || (!chunked && content_length == 0);
 }
 
 error_t HttpRequestSocket::read_chunked(void* buf, size_t size, size_t& nread) {
-- 
2.43.0


From 88f150fe36b787090cc0ae384b650433b39b2541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 19/89] fix: refuse http chunk sizes that are not hex numbers

---
 src/io/url/sps_io_url_http.cpp      |  7 ++++++-
 src/module/http/sps_http_parser.cpp | 19 +++++++++++++++++++
 src/module/http/sps_http_parser.hpp |  5 +++++
 src/module/http/sps_http_socket.cpp |  7 ++++++-
 4 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 64b5ee2..8370810 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -168,7 +168,12 @@ error_t HttpUrlProtocol::read_chunked_length() {
 
     tmp_buf[i-2] = '\0';  // \r
 
-    nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, nullptr, 16);
+    if ((ret = http_chunked_size(tmp_buf, nb_chunked_size)) != SUCCESS) {
+        sp_error("invalid read chunked length %s", tmp_buf);
+        nb_chunked_size = 0;
+        return ret;
+    }
+    nb_chunked_left = nb_chunked_size;
 
     sp_debug("read chunked length %lu", nb_chunked_size);
     return ret;  // SUCCESS
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index 79d0d2d..fe649ab 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -26,6 +26,25 @@ SOFTWARE.
 
 namespace sps {
 
+error_t http_chunked_size(const char* line, size_t& size) {
+    const char* p = line;
+    size          = 0;
+
+    for (; isxdigit((unsigned char) *p); ++p) {
+        if (size >> (sizeof(size) * 8 - 4)) {
+            return ERROR_HTTP_CHUNKED_LENGTH_LARGE;
+        }
+        size = size * 16 + (isdigit((unsigned char) *p) ? *p - '0' : (*p | 0x20) - 'a' + 10);
+    }
+
+    if (p == line) {
+        return ERROR_HTTP_CHUNKED_INVALID;
+    }
+
+    while (*p == ' ' || *p == '\t') ++p;
+    return *p == '\0' || *p == ';' ? SUCCESS : ERROR_HTTP_CHUNKED_INVALID;
+}
+
 bool HttpResponse::success() {
     return status_code == 200;
 }
diff --git a/src/module/http/sps_http_parser.hpp b/src/module/http/sps_http_parser.hpp
index 9ca5d28..1d1a84c 100644
--- a/src/module/http/sps_http_parser.hpp
+++ b/src/module/http/sps_http_parser.hpp
@@ -45,6 +45,11 @@ enum HttpType {
     BOTH     // 这里只有测试使用
 };
 
+/**
+ * size of a chunk from its size line: hex digits, then nothing or an extension
+ */
+error_t http_chunked_size(const char* line, size_t& size);
+
 class HttpResponse : public Response {
  public:
     int64_t content_length = -1;
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 08de89e..5b02269 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -118,7 +118,12 @@ error_t HttpRequestSocket::read_chunked_length() {
 
     tmp_buf[i-2] = '\0';  // \r
 
-    nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, nullptr, 16);
+    if ((ret = http_chunked_size(tmp_buf, nb_chunked_size)) != SUCCESS) {
+        sp_error("invalid read chunked length %s", tmp_buf);
+        nb_chunked_size = 0;
+        return ret;
+    }
+    nb_chunked_left = nb_chunked_size;
 
     sp_debug("read chunked length %lu", nb_chunked_size);
     return ret;  // SUCCESS
-- 
2.43.0


From 45c4b1b9d4f7a0cfdb61eafd4a540b99affe8533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:03 +0000
Subject: [PATCH 20/89] fix: send one framing header in a chunked http response

---
 src/module/http/sps_http_socket.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 5b02269..ba2d486 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -193,7 +193,11 @@ error_t HttpResponseSocket::write_header() {
     }
 
     for (auto& h : headers) {
-        if (h.key == "Content-Length" && content_sent) {
+        if (h.key == "Content-Length" && (content_sent || chunked)) {
+            continue;
+        }
+
+        if (h.key == "Transfer-Encoding" && chunked) {
             continue;
         }
 
-- 
2.43.0


From f33af79f7590a29e0a4b1292e9f14acf3f8b2361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:03 +0000
Subject: [PATCH 21/89] fix: compare http header names without regard to case

---
 src/io/url/sps_io_url.cpp           | 11 ++++++++---
 src/io/url/sps_io_url.hpp           |  1 +
 src/io/url/sps_io_url_http.cpp      |  2 +-
 src/module/http/sps_http_parser.cpp |  4 ++--
 src/module/http/sps_http_socket.cpp |  6 +++---
 5 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 18d5e4e..ce10d59 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -22,6 +22,7 @@ SOFTWARE.
 *****************************************************************************/
 
 #include <sps_io_url.hpp>
+#include <strings.h>
 
 #include <http_parser.h>
 
@@ -36,6 +37,10 @@ RequestHeader::RequestHeader(const std::string &key, const std::string &value) {
     this->value = value;
 }
 
+bool RequestHeader::is(const std::string& name) const {
+    return strcasecmp(key.c_str(), name.c_str()) == 0;
+}
+
 error_t RequestUrl::from(const std::string &url, PRequestUrl &req) {
     req = std::make_shared<RequestUrl>();
     return req->parse_url(url);
@@ -174,14 +179,14 @@ const char * RequestUrl::get_ext() {
 
 std::string RequestUrl::get_header(const std::string& key) {
     for (auto& h : headers) {
-        if (h.key == key) return h.value;
+        if (h.is(key)) return h.value;
     }
     return "";
 }
 
 void RequestUrl::erase_header(const std::string &key) {
     for (auto it = headers.begin(); it != headers.end(); ++it) {
-        if (it->key == key) {
+        if (it->is(key)) {
             headers.erase(it);
             return;
         }
@@ -196,7 +201,7 @@ std::string RequestUrl::get_param(const std::string& key) {
 }
 
 bool RequestUrl::is_chunked() {
-    return get_header("Transfer-Encoding") == "chunked";
+    return strcasecmp(get_header("Transfer-Encoding").c_str(), "chunked") == 0;
 }
 
 int64_t RequestUrl::get_content_length() {
diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index a5792f9..6dd77bd 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -44,6 +44,7 @@ namespace sps {
 struct RequestHeader {
     RequestHeader();
     explicit RequestHeader(const std::string& key, const std::string& value);
+    bool is(const std::string& name) const;  // names ignore case
     std::string key;
     std::string value;
 };
diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 8370810..91b8632 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -44,7 +44,7 @@ std::string http_request(const std::string& method, const std::string& url,
 
     if (headers) {
         for (auto& h : *headers)
-            if (h.key != "Host")
+            if (!h.is("Host"))
                 ss << h.key << ": " << h.value << CRCN;
     }
 
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index fe649ab..049aff1 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -72,7 +72,7 @@ const char* HttpParserContext::method() {
 
 bool HttpParserContext::contains(const std::string& key, std::string* value) {
     for (auto& h : headers) {
-        if (h.key == key) {
+        if (h.is(key)) {
             if (value) *value = h.value;
             return true;
         }
@@ -85,7 +85,7 @@ bool HttpParserContext::contains(const std::string& key,
     if (!vs) return contains(key, (std::string*) nullptr);
 
     for (auto& h : headers) {
-        if (h.key == key) {
+        if (h.is(key)) {
             (*vs).push_back(h.value);
         }
     }
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index ba2d486..658c49e 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -193,15 +193,15 @@ error_t HttpResponseSocket::write_header() {
     }
 
     for (auto& h : headers) {
-        if (h.key == "Content-Length" && (content_sent || chunked)) {
+        if (h.is("Content-Length") && (content_sent || chunked)) {
             continue;
         }
 
-        if (h.key == "Transfer-Encoding" && chunked) {
+        if (h.is("Transfer-Encoding") && chunked) {
             continue;
         }
 
-        if (h.key == "Server") {
+        if (h.is("Server")) {
             has_server = true;
         }
         ss << h.key << ": " << h.value << CRCN;
-- 
2.43.0


From 4a3901336bcf14b4b6069a5e4426b173b4a03862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:03 +0000
Subject: [PATCH 22/89] fix: send a well-formed Accept header

---
 src/io/url/sps_io_url_http.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 91b8632..ebbdde1 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -48,7 +48,7 @@ std::string http_request(const std::string& method, const std::string& url,
                 ss << h.key << ": " << h.value << CRCN;
     }
 
-    ss << "Accept: */" << CRCN;
+    ss << "Accept: */*" << CRCN;
     ss << "Content-Length: " << data.size() << CRCN;
     ss << CRCN;
 
-- 
2.43.0


From ec784b9f41223f021a714a6a213be62fd308a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:03 +0000
Subject: [PATCH 23/89] fix: let clients see the end of a stream error response

---
 src/module/http/sps_http_stream_phase_handler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/http/sps_http_stream_phase_handler.cpp b/src/module/http/sps_http_stream_phase_handler.cpp
index 1d6b05c..1f7fe96 100644
--- a/src/module/http/sps_http_stream_phase_handler.cpp
+++ b/src/module/http/sps_http_stream_phase_handler.cpp
@@ -50,14 +50,14 @@ error_t HttpStreamPhaseHandler::handler(IConnection& c) {
     ret = sh->handler(c);
 
     if (ret == ERROR_STREAM_PUBLISH_NOT_SUPPORT) {
-        rsp->init(403, nullptr, -1, false);
+        rsp->init(403, nullptr, 0, false);
         ret = rsp->write_header();
         sp_warn("Response %s:%d not-support %s-%s-%s status %d %d",
                 ctx.req->ip.c_str(), ctx.req->port,
                 ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 403, ret);
         return ret;
     } else if (ret == ERROR_STREAM_SOURCE_NOT_EXITS) {
-        rsp->init(404, nullptr, -1, false);
+        rsp->init(404, nullptr, 0, false);
         ret = rsp->write_header();
         sp_trace("Response not-exits %s:%d %s-%s-%s status %d %d",
                  ctx.req->ip.c_str(), ctx.req->port,
-- 
2.43.0


From 9833e874090ec9d35564fb894cb4d030ec75d28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:03 +0000
Subject: [PATCH 24/89] fix: close the connection of a refused publisher

---
 src/module/http/sps_http_stream_phase_handler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/module/http/sps_http_stream_phase_handler.cpp b/src/module/http/sps_http_stream_phase_handler.cpp
index 1f7fe96..0050022 100644
--- a/src/module/http/sps_http_stream_phase_handler.cpp
+++ b/src/module/http/sps_http_stream_phase_handler.cpp
@@ -55,7 +55,8 @@ error_t HttpStreamPhaseHandler::handler(IConnection& c) {
         sp_warn("Response %s:%d not-support %s-%s-%s status %d %d",
                 ctx.req->ip.c_str(), ctx.req->port,
                 ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 403, ret);
-        return ret;
+        // the body was not read, what follows is not a request
+        return ERROR_STREAM_PUBLISH_NOT_SUPPORT;
     } else if (ret == ERROR_STREAM_SOURCE_NOT_EXITS) {
         rsp->init(404, nullptr, 0, false);
         ret = rsp->write_header();
-- 
2.43.0


From 7d3d5318e521a3cc4162ec4e7114cc821c86ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:03 +0000
Subject: [PATCH 25/89] fix: recognise api hosts

---
 src/module/host/sps_host_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/host/sps_host_module.cpp b/src/module/host/sps_host_module.cpp
index 35a275b..c49cc3e 100644
--- a/src/module/host/sps_host_module.cpp
+++ b/src/module/host/sps_host_module.cpp
@@ -92,7 +92,7 @@ bool HostModule::is_streaming() {
 
 bool HostModule::is_api() {
     auto host = static_cast<HostConfCtx*>(conf.get());
-    return string_hostype(host->type) == STREAMING;
+    return string_hostype(host->type) == API;
 }
 
 bool HostModule::support_publish(const std::string& format) {
-- 
2.43.0


From c930609dfec5f0f205f9185844adb7651ed0abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:03 +0000
Subject: [PATCH 26/89] fix: keep the default host when merging routers

---
 src/module/host/sps_host_module.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/host/sps_host_module.cpp b/src/module/host/sps_host_module.cpp
index c49cc3e..fba9491 100644
--- a/src/module/host/sps_host_module.cpp
+++ b/src/module/host/sps_host_module.cpp
@@ -220,6 +220,10 @@ error_t HostModulesRouter::merge(HostModulesRouter *router) {
         return ERROR_CONFIG_PARSE_INVALID;
     }
 
+    if (router->default_host) {
+        default_host = router->default_host;
+    }
+
     for (auto& it : router->exact_hosts) {
         if (exact_hosts.count(it.first)) {
             sp_error("fail host merge dup exact %s", it.first.c_str());
-- 
2.43.0


From ccb8d50c954ee6aee144b9d709339f2e8789a30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:03 +0000
Subject: [PATCH 27/89] fix: survive a failed accept

---
 src/module/server/sps_server.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/module/server/sps_server.cpp b/src/module/server/sps_server.cpp
index 062f9a2..29cf4ac 100644
--- a/src/module/server/sps_server.cpp
+++ b/src/module/server/sps_server.cpp
@@ -82,6 +82,13 @@ int Server::listen(std::string ip, int port, bool reuse_port, int backlog,
 error_t Server::accept() {
     do {
         auto io = server_socket->accept();
+
+        if (!io) {
+            sp_error("failed accept %s:%d", listen_ip.c_str(), listen_port);
+            st_usleep(100 * 1000);  // do not spin while out of descriptors
+            continue;
+        }
+
         auto h  = factory->create(io);
 
         if (!h) {
-- 
2.43.0


From 8f5af95eba14ca4ddeb0822d41b4f5b7e55ff663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:03 +0000
Subject: [PATCH 28/89] fix: match formats by their whole extension

---
 src/avformat/sps_avformat_dec.cpp | 4 +---
 src/avformat/sps_avformat_enc.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/avformat/sps_avformat_dec.cpp b/src/avformat/sps_avformat_dec.cpp
index 0c41c93..2f43972 100644
--- a/src/avformat/sps_avformat_dec.cpp
+++ b/src/avformat/sps_avformat_dec.cpp
@@ -35,9 +35,7 @@ IAVInputFormat::IAVInputFormat(const char *name, const char *ext) {
 }
 
 bool IAVInputFormat::match(const char *e) const {
-    int n = strlen(ext);
-    int m = strlen(ext);
-    return  memcmp(ext, e, std::max(n, m)) == 0;
+    return strcmp(ext, e) == 0;
 }
 
 PIAVDemuxer IAVInputFormat::create2(PIReader p) {
diff --git a/src/avformat/sps_avformat_enc.cpp b/src/avformat/sps_avformat_enc.cpp
index 1a1032c..941169e 100644
--- a/src/avformat/sps_avformat_enc.cpp
+++ b/src/avformat/sps_avformat_enc.cpp
@@ -41,9 +41,7 @@ IAVOutputFormat::IAVOutputFormat(const char *name, const char *ext) {
 }
 
 bool IAVOutputFormat::match(const char *e) const {
-    int n = strlen(ext);
-    int m = strlen(ext);
-    return memcmp(ext, e, std::max(n, m)) == 0;
+    return strcmp(ext, e) == 0;
 }
 
 PIAVMuxer IAVOutputFormat::create2(PIWriter pw, PRequestUrl& url) {
-- 
2.43.0


From 4282605d443a7fc16cfab7f2f82f94507ea99fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:03 +0000
Subject: [PATCH 29/89] fix: use the last parameter of an srt streamid

---
 src/module/srt/sps_srt_server_handler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module/srt/sps_srt_server_handler.cpp b/src/module/srt/sps_srt_server_handler.cpp
index 3616603..2b02d9b 100644
--- a/src/module/srt/sps_srt_server_handler.cpp
+++ b/src/module/srt/sps_srt_server_handler.cpp
@@ -66,6 +66,8 @@ PRequestUrl get_url_by_streamid(const std::string& streamid) {
         }
         ++p;
     }
+    param.value = std::string(start, p-start);
+    params.push_back(param);
 
     std::string url = "";
     std::string mode = "";
-- 
2.43.0


From 5de79af014301a8bac28e495e97be9eccdd8c41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:03 +0000
Subject: [PATCH 30/89] fix: accept srt streamids that carry a full url

---
 src/module/srt/sps_srt_server_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/srt/sps_srt_server_handler.cpp b/src/module/srt/sps_srt_server_handler.cpp
index 2b02d9b..9500e38 100644
--- a/src/module/srt/sps_srt_server_handler.cpp
+++ b/src/module/srt/sps_srt_server_handler.cpp
@@ -79,7 +79,7 @@ PRequestUrl get_url_by_streamid(const std::string& streamid) {
         }
     }
 
-    if (url.substr(0, 5) != "srt://") {
+    if (url.substr(0, 6) != "srt://") {
         url = "srt://" + url;
     }
 
-- 
2.43.0


From 246c5c4cb4f7a4e9220b17fba1a47a24d9c4ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:31 +0000
Subject: [PATCH 31/89] fix: refuse nul bytes in http chunk sizes

---
 src/io/url/sps_io_url_http.cpp      | 2 +-
 src/module/http/sps_http_parser.cpp | 8 ++++----
 src/module/http/sps_http_parser.hpp | 2 +-
 src/module/http/sps_http_socket.cpp | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index ebbdde1..0ec7a07 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -168,7 +168,7 @@ error_t HttpUrlProtocol::read_chunked_length() {
 
     tmp_buf[i-2] = '\0';  // \r
 
-    if ((ret = http_chunked_size(tmp_buf, nb_chunked_size)) != SUCCESS) {
+    if ((ret = http_chunked_size(std::string(tmp_buf, i-2), nb_chunked_size)) != SUCCESS) {
         sp_error("invalid read chunked length %s", tmp_buf);
         nb_chunked_size = 0;
         return ret;
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index 049aff1..61eca29 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -26,8 +26,8 @@ SOFTWARE.
 
 namespace sps {
 
-error_t http_chunked_size(const char* line, size_t& size) {
-    const char* p = line;
+error_t http_chunked_size(const std::string& line, size_t& size) {
+    const char* p = line.c_str();
     size          = 0;
 
     for (; isxdigit((unsigned char) *p); ++p) {
@@ -37,12 +37,12 @@ error_t http_chunked_size(const char* line, size_t& size) {
         size = size * 16 + (isdigit((unsigned char) *p) ? *p - '0' : (*p | 0x20) - 'a' + 10);
     }
 
-    if (p == line) {
+    if (p == line.c_str()) {
         return ERROR_HTTP_CHUNKED_INVALID;
     }
 
     while (*p == ' ' || *p == '\t') ++p;
-    return *p == '\0' || *p == ';' ? SUCCESS : ERROR_HTTP_CHUNKED_INVALID;
+    return p == line.c_str() + line.size() || *p == ';' ? SUCCESS : ERROR_HTTP_CHUNKED_INVALID;
 }
 
 bool HttpResponse::success() {
diff --git a/src/module/http/sps_http_parser.hpp b/src/module/http/sps_http_parser.hpp
index 1d1a84c..3e890a3 100644
--- a/src/module/http/sps_http_parser.hpp
+++ b/src/module/http/sps_http_parser.hpp
@@ -48,7 +48,7 @@ enum HttpType {
 /**
  * size of a chunk from its size line: hex digits, then nothing or an extension
  */
-error_t http_chunked_size(const char* line, size_t& size);
+error_t http_chunked_size(const std::string& line, size_t& size);
 
 class HttpResponse : public Response {
  public:
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 658c49e..13fc565 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -118,7 +118,7 @@ error_t HttpRequestSocket::read_chunked_length() {
 
     tmp_buf[i-2] = '\0';  // \r
 
-    if ((ret = http_chunked_size(tmp_buf, nb_chunked_size)) != SUCCESS) {
+    if ((ret = http_chunked_size(std::string(tmp_buf, i-2), nb_chunked_size)) != SUCCESS) {
         sp_error("invalid read chunked length %s", tmp_buf);
         nb_chunked_size = 0;
         return ret;
-- 
2.43.0


From 2d9ddc5068793fd015b31c83b5a3af7f7c21d262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:42 +0000
Subject: [PATCH 32/89] fix: do not crash or leak when accepting a connection
 fails

---
 src/sys/st/io/sps_sys_st_io_tcp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_tcp.cpp b/src/sys/st/io/sps_sys_st_io_tcp.cpp
index 22062b9..e334d37 100644
--- a/src/sys/st/io/sps_sys_st_io_tcp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_tcp.cpp
@@ -356,6 +356,10 @@ PSocket StTcpServerSocket::accept() {
     auto cfd = st_tcp_accept(server_fd, (struct sockaddr*) &addr,
                              &len, ST_UTIME_NO_TIMEOUT);
 
+    if (cfd == nullptr) {
+        return nullptr;
+    }
+
     std::string cip;
     int         cport = 0;
     addr2string(&addr, cip, cport);
@@ -363,6 +367,7 @@ PSocket StTcpServerSocket::accept() {
     // discovery client information
     socklen_t len2 = sizeof(addr);
     if (getsockname(st_netfd_fileno(cfd), (sockaddr*) &addr, &len2) == -1) {
+        st_tcp_close(cfd);
         return nullptr;
     }
 
-- 
2.43.0


From 3faba749d74c21b3e382b982c317f9db9b358135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:34 +0000
Subject: [PATCH 33/89] fix: accept any text in comment lines of the
 configuration

---
 src/module/sps_module.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index 723a584..0fbd452 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -227,6 +227,11 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
             continue;
         }
 
+        if (args.empty() && tmp_arg[0] == '#') {
+            lt = COMMENT;
+            return SUCCESS;
+        }
+
         if (found_end) {
             if (tmp_arg[0] == '#') {
                 break; // ignore #
@@ -261,11 +266,6 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
         return SUCCESS;
     }
 
-    if (args[0][0] == '#') {
-        lt = COMMENT;
-        return SUCCESS;
-    }
-
     if (!found_end) {  // no end flag
         sp_error("Fatal no end flag %s", line.c_str());
         return ERROR_CONFIG_PARSE_INVALID;
-- 
2.43.0


From 7b6ebd1c2bdecbadf619b45838fff9135fc9e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:34 +0000
Subject: [PATCH 34/89] fix: keep a block name that is followed by its brace
 without a blank

---
 src/module/sps_module.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index 0fbd452..2922011 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -294,8 +294,8 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
         }
     }
 
-    if (lt != SUBMODULE_START && lt != SUBMODULE_END) {
-        if (*args.rbegin() != ";") {
+    if (lt != SUBMODULE_END) {
+        if (args.rbegin()->size() > 1) {
             arg += (arg.empty() ? std::string("") : std::string(" ")) +
                    args.rbegin()->substr(0, args.rbegin()->size() - 1);
         }
-- 
2.43.0


From e6c64a23ec9fc6a12a0247b5b379ed3c8529f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:50 +0000
Subject: [PATCH 35/89] fix: refuse configuration text before a closing brace
 instead of dropping it

---
 src/module/sps_module.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index 2922011..07331fa 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -271,7 +271,11 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
         return ERROR_CONFIG_PARSE_INVALID;
     }
 
-    if (args.size() == 1 && lt == SUBMODULE_END) {
+    if (lt == SUBMODULE_END) {
+        if (args[0] != "}") {
+            sp_error("unexpected text before } %s.", line.c_str());
+            return ERROR_CONFIG_PARSE_INVALID;
+        }
         return SUCCESS;
     }
 
-- 
2.43.0


From 2e990798c8a96349cc4764df2077e05b624a682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:50 +0000
Subject: [PATCH 36/89] fix: switch an option on only when it says on

---
 src/module/sps_module_opt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/sps_module_opt.cpp b/src/module/sps_module_opt.cpp
index 89ad432..d1c18f8 100644
--- a/src/module/sps_module_opt.cpp
+++ b/src/module/sps_module_opt.cpp
@@ -86,7 +86,7 @@ error_t ConfigOption::opt_set(void *obj, const char *val, int len) const {
             sp_debug("set string { %s->%s } success", name, val);
             break;
         case CONF_OPT_TYPE_BOOL: {
-            bool num = memcmp(val, "on", 2) == 0;
+            bool num = strcmp(val, "on") == 0;
             memcpy(dst, (void*) &num, sizeof(num));
 
             sp_debug("------------------bool val %s -> %d-----------",
-- 
2.43.0


From c39d1ac251412033ea16a7c42727f449e032ea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:50 +0000
Subject: [PATCH 37/89] fix: serve the hosts of a second server block on the
 same port

---
 src/module/server/sps_server_module.cpp | 18 ++++++++++++++++--
 src/module/server/sps_server_module.hpp |  1 +
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/module/server/sps_server_module.cpp b/src/module/server/sps_server_module.cpp
index f0dce52..d27c3bf 100644
--- a/src/module/server/sps_server_module.cpp
+++ b/src/module/server/sps_server_module.cpp
@@ -53,6 +53,7 @@ error_t ServerModule::get_router(ServerModule* sm, PHostModulesRouter& hr) {
             return ret;
         }
     }
+    sm->router = hr;
     return ret;
 }
 
@@ -214,8 +215,21 @@ error_t ServerModule::merge_server(PServerModule server_module) {
 }
 
 error_t ServerModule::merge_hosts(std::vector<PHostModule>& hosts) {
-    host_modules.insert(host_modules.end(), hosts.begin(), hosts.end());
-    return SUCCESS;
+    error_t ret = SUCCESS;
+
+    for (auto& h : hosts) {
+        // a global host is part of every server
+        if (std::find(host_modules.begin(), host_modules.end(), h) != host_modules.end()) {
+            continue;
+        }
+
+        if (router && (ret = router->register_host(h)) != SUCCESS) {
+            sp_error("fail register host %s ret %d", h->module_name.c_str(), ret);
+            return ret;
+        }
+        host_modules.push_back(h);
+    }
+    return ret;
 }
 
 
diff --git a/src/module/server/sps_server_module.hpp b/src/module/server/sps_server_module.hpp
index 238038e..bea6384 100644
--- a/src/module/server/sps_server_module.hpp
+++ b/src/module/server/sps_server_module.hpp
@@ -113,6 +113,7 @@ class ServerModule : public IModule {
  private:
     PIConnHandlerFactory socket_handler;
     PServer              server;
+    PHostModulesRouter   router;
 };
 
 MODULE_FACTORY(Server)
-- 
2.43.0


From bde4bbee63bbeb27b6153a2cd169819be6c1fe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:16 +0000
Subject: [PATCH 38/89] fix: do not serve hosts that are not enabled

---
 src/module/host/sps_host_module.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/host/sps_host_module.cpp b/src/module/host/sps_host_module.cpp
index fba9491..e5d8cde 100644
--- a/src/module/host/sps_host_module.cpp
+++ b/src/module/host/sps_host_module.cpp
@@ -160,6 +160,11 @@ std::string HostModulesRouter::get_wildcard_host(std::string host) {
 }
 
 error_t HostModulesRouter::register_host(PHostModule host) {
+    if (!host->enabled()) {
+        sp_info("host %s is not enabled", host->module_name.c_str());
+        return SUCCESS;
+    }
+
     if (host->module_name[0] != '*') {
         if (exact_hosts.count(host->module_name)) {
             sp_error("dup host %s", host->module_name.c_str());
-- 
2.43.0


From 9eaebdcfd9dc31bdd96f78dc88cff955ab128428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:16 +0000
Subject: [PATCH 39/89] fix: do not wait for the body of http responses that
 have none

---
 src/io/url/sps_io_url_http.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 0ec7a07..370161d 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -91,6 +91,10 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
 
     PHttpResponse http_rsp = rsp = parser.get_response();
 
+    // these have no body, whatever their headers say
+    int status = http_rsp->status_code;
+    is_eof     = url->method == "HEAD" || status / 100 == 1 || status == 204 || status == 304;
+
     init(socket, ip, url->get_port(), "", -1);
 
     return SUCCESS;
-- 
2.43.0


From 5697e1e5c6f451ace384941016239ed82ac3ad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:16 +0000
Subject: [PATCH 40/89] fix: announce the length of an http request once

---
 src/io/url/sps_io_url_http.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 370161d..0bad4f7 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -44,7 +44,8 @@ std::string http_request(const std::string& method, const std::string& url,
 
     if (headers) {
         for (auto& h : *headers)
-            if (!h.is("Host"))
+            // the body, if any, is this request's own
+            if (!h.is("Host") && !h.is("Content-Length") && !h.is("Transfer-Encoding"))
                 ss << h.key << ": " << h.value << CRCN;
     }
 
-- 
2.43.0


From ee2bd00911f8e2c5e4821f1790aadc5cd265ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:37 +0000
Subject: [PATCH 41/89] fix: do not take an unread http request body for the
 next request

---
 src/module/http/sps_http_phase_handler.cpp        | 6 ++++++
 src/module/http/sps_http_proxy_phase_handler.cpp  | 5 +++++
 src/module/http/sps_http_stream_phase_handler.cpp | 4 ++++
 3 files changed, 15 insertions(+)

diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index 63ad815..c4d0542 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -77,6 +77,12 @@ error_t Http404PhaseHandler::handler(IConnection& ctx) {
     auto ret = http_socket->write_header();
 
     sp_trace("Response http 404 %d", ret);
+
+    // a body that was not read is not the next request
+    auto host_ctx = dynamic_cast<HostContext*>(ctx.get_context().get());
+    if (host_ctx && (host_ctx->req->is_chunked() || host_ctx->req->get_content_length() > 0)) {
+        return ERROR_HTTP_RSP_NOT_OK;
+    }
     return SPS_PHASE_SUCCESS_NO_CONTINUE;
 }
 
diff --git a/src/module/http/sps_http_proxy_phase_handler.cpp b/src/module/http/sps_http_proxy_phase_handler.cpp
index 153a53f..2a5fa21 100644
--- a/src/module/http/sps_http_proxy_phase_handler.cpp
+++ b/src/module/http/sps_http_proxy_phase_handler.cpp
@@ -92,6 +92,11 @@ error_t HttpProxyPhaseHandler::handler(IConnection &c) {
     sp_trace("final response code:%d, ret:%d, eof:%d, chunked:%d",
              http_rsp->status_code, ret, ret == ERROR_HTTP_RES_EOF, http_rsp->chunked);
 
+    // a body that was not read is not the next request
+    if (ctx.req->is_chunked() || ctx.req->get_content_length() > 0) {
+        return ERROR_HTTP_RSP_NOT_OK;
+    }
+
     return (ret == ERROR_HTTP_RES_EOF || ret == SUCCESS) ?
                 SPS_PHASE_SUCCESS_NO_CONTINUE : ret;
 }
diff --git a/src/module/http/sps_http_stream_phase_handler.cpp b/src/module/http/sps_http_stream_phase_handler.cpp
index 0050022..4544924 100644
--- a/src/module/http/sps_http_stream_phase_handler.cpp
+++ b/src/module/http/sps_http_stream_phase_handler.cpp
@@ -63,6 +63,10 @@ error_t HttpStreamPhaseHandler::handler(IConnection& c) {
         sp_trace("Response not-exits %s:%d %s-%s-%s status %d %d",
                  ctx.req->ip.c_str(), ctx.req->port,
                  ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 404, ret);
+        // a body that was not read is not the next request
+        if (ctx.req->is_chunked() || ctx.req->get_content_length() > 0) {
+            return ERROR_STREAM_SOURCE_NOT_EXITS;
+        }
         return ret;
     }
 
-- 
2.43.0


From fced445d8773c55564ef0953fa7714a08f2b65f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:53 +0000
Subject: [PATCH 42/89] fix: do not interpret logged text as a format

---
 src/log/sps_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log/sps_log.cpp b/src/log/sps_log.cpp
index f33fc66..a426ac8 100644
--- a/src/log/sps_log.cpp
+++ b/src/log/sps_log.cpp
@@ -46,7 +46,7 @@ void ConsoleLog::printf(LOG_LEVEL lev, const char *fmt, ...) {
     va_start(args, fmt);
     vsnprintf(buf + len, sizeof(buf) - len, fmt, args);
     va_end(args);
-    ::printf(buf);
+    ::fputs(buf, stdout);
 }
 
 ILog* default_log = new ConsoleLog();
-- 
2.43.0


From fffb1928b4c558d630977c25096cd73c1eca6ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:55 +0000
Subject: [PATCH 43/89] fix: send the aac configuration again only when it
 changes

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 5c0d5d1..6482cd1 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -55,7 +55,7 @@ AdtsFixedHeader::AdtsFixedHeader() {
 }
 
 bool AdtsFixedHeader::operator==(const AdtsFixedHeader &header) {
-    return protection_absent = header.protection_absent &&
+    return protection_absent == header.protection_absent &&
             profile == header.profile &&
             sampling_frequency_index == header.sampling_frequency_index &&
                     channel_configuration == header.channel_configuration &&
-- 
2.43.0


From ffd089056511c7692272eaed2c61c8d57e4c0cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:55 +0000
Subject: [PATCH 44/89] fix: check the aac frame length against the received
 bytes

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 6482cd1..f26cc4b 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -96,6 +96,10 @@ error_t AdtsFixedHeader::decode(BitContext *bc) {
     no_raw_data_blocks_in_frame = bc->read_bits(2);
 
     if (!protection_absent) {
+        if (bc->acquire(2) != SUCCESS) {
+            sp_error("aac crc size < 2");
+            return ERROR_AAC_DECODER;
+        }
         crc16 = bc->read_bits(16);
     }
 
@@ -164,7 +168,9 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
             pkts.push_back(pkt);
         }
 
-        if (tmp_header.aac_frame_length <= 0) {
+        // the frame length includes the headers
+        int buf_size = tmp_header.aac_frame_length - 7 - (tmp_header.protection_absent == 1 ? 0 : 2);
+        if (buf_size < 0 || bc.acquire(buf_size) != SUCCESS) {
             sp_error("aac frame length %d", tmp_header.aac_frame_length);
             return ERROR_AAC_DECODER;
         }
@@ -172,7 +178,6 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
         auto flags = (AAC << 4) | FLV_SAMPLERATE_44100HZ |
                      FLV_SAMPLESSIZE_16BIT | FLV_STEREO;
 
-        int buf_size = tmp_header.aac_frame_length - 7 - (tmp_header.protection_absent == 1 ? 0 : 2);
         auto pkt = AVPacket::create(
                 AV_MESSAGE_DATA,
                 AV_STREAM_TYPE_AUDIO,
-- 
2.43.0


From d61421a4a15cda259b23c114b925c9a81d324bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:55 +0000
Subject: [PATCH 45/89] fix: do not add the next start code's zero to a nalu

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 7a0dc7c..dbfe597 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -208,6 +208,11 @@ error_t NALUParser::decode_data(uint8_t* buf, size_t sz,
                 sp_debug("not found next nalu, push full");
             }
             bc.skip_read_bytes(start_pos - bc.pos() + 3);
+
+            // the zero of a four byte start code is not part of the nalu
+            while (nalu_size > 1 && bc.pos()[nalu_size - 1] == 0) {
+                nalu_size--;
+            }
         }
 
         if (bc.acquire(nalu_size) != SUCCESS) {
-- 
2.43.0


From 84c15d9807cdcbf6b7b97491fa42302a80f2bc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:59 +0000
Subject: [PATCH 46/89] fix: do not read the header of an empty nalu

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index dbfe597..d04f150 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -368,7 +368,7 @@ error_t H264AVCodecParser::encode_raw_nalu(AVCodecContext *ctx, uint8_t *in_buf,
     error_t ret = nalus.append(in_buf, in_size);
 
     if (ret != SUCCESS) {
-        sp_error("[h264] append nalu fail ret %d nalu_header %x", ret, in_buf[0]);
+        sp_error("[h264] append nalu fail ret %d nalu_size %d", ret, in_size);
         return ret;
     }
 
-- 
2.43.0


From 2a5b206734f236db00b68c4d5e9a87f082a9121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:32 +0000
Subject: [PATCH 47/89] fix: refuse ts adaptation fields longer than their
 length

---
 src/avformat/sps_avformat_ts.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 3397571..cbfe7f6 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -863,6 +863,11 @@ error_t TsAdaptationFiled::decode(BitContext& rd) {
                        transport_private_data_length);
     }
 
+    if (rd.pos() - pos > adaption_field_length) {
+        sp_error("adaption field length %d too small", adaption_field_length);
+        return ERROR_TS_PACKET_DECODE;
+    }
+
     // stuffing_byte
     stuffing_length = adaption_field_length - (rd.pos() - pos);
     rd.skip_read_bytes(stuffing_length);
-- 
2.43.0


From 8b72cfabadc3e55562c5bf6f61902d1e20cda321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:32 +0000
Subject: [PATCH 48/89] fix: do not read past the received bytes of a video pes

---
 src/avformat/sps_avformat_tsdec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_tsdec.cpp b/src/avformat/sps_avformat_tsdec.cpp
index b31f771..ee0a034 100644
--- a/src/avformat/sps_avformat_tsdec.cpp
+++ b/src/avformat/sps_avformat_tsdec.cpp
@@ -159,7 +159,7 @@ error_t TsDemuxer::on_h264(TsPesContext* pes) {
 
     AVCodecContext ctx(pes->dts, pes->pts, 90);
     ret = video_codec_parser->encode_avc(&ctx, pes->pes_packets->buffer(),
-                                         pes->pes_packet_length, pkts);
+                                         pes->pes_packets->size(), pkts);
 
     if (ret != SUCCESS) {
         sp_error("fail encode video ret %d", ret);
-- 
2.43.0


From 3635b011924535983d0b653de38a975b074d65bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:32 +0000
Subject: [PATCH 49/89] fix: find ts tables behind the pointer field

---
 src/avformat/sps_avformat_ts.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index cbfe7f6..95ddd18 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -62,16 +62,26 @@ TsPsiProgram::TsPsiProgram(int pid, TsContext *ctx) : TsProgram(pid, ctx) {
 
 // work as ffmpeg parse_section_header
 error_t TsPsiProgram::decode(TsPacket *pkt, BitContext& rd) {
-    auto ret = rd.acquire(8);
+    // the rest of a section that began in a previous packet
+    if (!pkt->payload_unit_start_indicator) {
+        return SUCCESS;
+    }
+
+    auto ret = rd.acquire(1);
 
     if (ret != SUCCESS) {
         sp_error("no enough size ret %d", ret);
         return ret;
     }
 
-    if (pkt->payload_unit_start_indicator) {
-        pointer_field = rd.read_int8();
+    pointer_field = rd.read_int8();
+
+    // the section starts pointer_field bytes later, its header is 8 bytes
+    if ((ret = rd.acquire(pointer_field + 8)) != SUCCESS) {
+        sp_error("no enough size ret %d", ret);
+        return ret;
     }
+    rd.skip_read_bytes(pointer_field);
 
     // section header
     table_id = rd.read_int8();
-- 
2.43.0


From 12c0bd19af85a482ecf69403cb11dbb73c147d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:32 +0000
Subject: [PATCH 50/89] fix: do not read ts tables past the packet

---
 src/avformat/sps_avformat_ts.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 95ddd18..db8ea42 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -109,7 +109,13 @@ error_t TsPsiProgram::decode(TsPacket *pkt, BitContext& rd) {
 
     ret = psi_decode(pkt, rd);
 
-    crc_32 = rd.read_int32();
+    if (ret != SUCCESS) {
+        return ret;
+    }
+
+    if (rd.acquire(4) == SUCCESS) {
+        crc_32 = rd.read_int32();
+    }
 
     return ret;
 }
@@ -118,7 +124,12 @@ TsSdtProgram::TsSdtProgram(int pid, TsContext *ctx) : TsPsiProgram(pid, ctx) {
 }
 
 error_t TsSdtProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
-    error_t ret = SUCCESS;
+    error_t ret = rd.acquire(1);
+
+    if (ret != SUCCESS) {
+        sp_error("not enough size ret %d", ret);
+        return ret;
+    }
 
     reserved_future_use = rd.read_int8();
 
@@ -143,7 +154,7 @@ error_t TsPatProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
             return ret;
         }
 
-        while (left_length > 0) {
+        while (left_length >= 4) {
             PmtInfo info;
             info.program_number  = rd.read_int16();
             info.reserved        = rd.read_bits(3);
@@ -212,6 +223,11 @@ error_t TsPmtProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
     while (left_length > 0) {
         auto info = std::make_shared<PesInfo>();
 
+        if ((ret = rd.acquire(5)) != SUCCESS) {
+            sp_error("not enough size %d ret %d", 5, ret);
+            return ret;
+        }
+
         info->header.stream_type = rd.read_int8();
         info->header.reserved1   = rd.read_bits(3);
         info->header.elementary_pid = rd.read_bits(13);
-- 
2.43.0


From 055eeadb68ff98b384f14ea6d946187ae3437ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:32 +0000
Subject: [PATCH 51/89] fix: do not take the network table of a ts for a
 program

---
 src/avformat/sps_avformat_ts.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index db8ea42..725e410 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -166,6 +166,11 @@ error_t TsPatProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
     }
 
     for (auto& pmt : pmt_infos) {
+        // program 0 is the network table
+        if (pmt.program_number == 0) {
+            continue;
+        }
+
         sp_debug("pmt pid %d", pmt.program_map_pid);
         ctx->add_program(pmt.program_map_pid, std::make_shared<TsPmtProgram>(
                 (int) pmt.program_map_pid, ctx
-- 
2.43.0


From a06ab25895fe04df71a1bfa5c3b7c14857c9623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:12 +0000
Subject: [PATCH 52/89] fix: fill the buffer of a full srt read

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index b1d7769..ec1a698 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -689,7 +689,7 @@ error_t StSrtSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
     int    ret   = SUCCESS;
     while (n < size) {
         size_t nr = 0;
-        ret       = this->read(buf, size-n, nr);
+        ret       = this->read((char*) buf + n, size-n, nr);
         if (ret != SUCCESS) {
             if (nread) {
                 *nread = n;
-- 
2.43.0


From d1d22fdd0ca4e07bbf89509cf80516e96714dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:12 +0000
Subject: [PATCH 53/89] fix: do not serve a failed srt accept

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index ec1a698..d63888d 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -340,7 +340,7 @@ SRTSOCKET st_srt_accept(SRTSOCKET fd, struct sockaddr *addr, int *addrlen, utime
             if (ret != SUCCESS) {
                 sp_error("[st_srt_accept]: srt epoll failed, fd:%d, "
                            "ret:%d, err:%s", fd, ret, err.c_str());
-                return ret;
+                return SRT_INVALID_SOCK;
             }
         } else {
             sp_error("[st_srt_accept] failed, fd:%d, ret:%d, err:%s", fd, ret, err.c_str());
@@ -787,6 +787,12 @@ PSocket StSrtServerSocket::accept() {
 
     SRTSOCKET c_fd = st_srt_accept(server_fd, (struct sockaddr*) &addr,
             &addr_len, ST_UTIME_NO_TIMEOUT);
+
+    if (c_fd == SRT_INVALID_SOCK) {
+        sp_error("fail accept srt fd %d", server_fd);
+        return nullptr;
+    }
+
     auto srt_socket = std::make_shared<StSrtSocket>(c_fd);
 
     if (inet_ntop(addr.sin_family, &addr.sin_addr, buf, sizeof(buf)) == NULL) {
-- 
2.43.0


From 9d4e3bd8b8dad5a00b454a0f6060463a4bfc76b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:12 +0000
Subject: [PATCH 54/89] fix: report the port of srt clients in host order

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index d63888d..46783d6 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -799,7 +799,7 @@ PSocket StSrtServerSocket::accept() {
         buf[0] = '\0';  // 防止内存写乱
     }
 
-    return std::make_shared<Socket>(srt_socket, std::string(buf), addr.sin_port);
+    return std::make_shared<Socket>(srt_socket, std::string(buf), ntohs(addr.sin_port));
 }
 
 }
-- 
2.43.0


From 0e82b52f376db51e702f2fddb95c205330cbf876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:12 +0000
Subject: [PATCH 55/89] fix: notice a failed srt bind

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index 46783d6..e09dde2 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -306,14 +306,16 @@ error_t st_srt_listen(SRTSOCKET fd, const std::string& server, int port,
 
         break;
 failed:
-        close(sock);
+        if (sock != -1) {
+            close(sock);
+        }
 
         if (reuse_port) {
             return ERROR_SRT_SOCKET_CREATE;
         }
 
         if (srt_bind(fd, reinterpret_cast<struct sockaddr*>(&self_addr),
-                sizeof(self_addr) == SRT_ERROR)) {
+                sizeof(self_addr)) == SRT_ERROR) {
             sp_error("[srt_bind]: socket addr failed, server:%s, port:%d", server.c_str(), port);
             return ERROR_SRT_SOCKET_BIND;
         }
-- 
2.43.0


From 66c5e40f977f01687ce903f37794a9f9ab112332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 56/89] fix: read rtp header extensions in 32-bit words

---
 src/avformat/sps_avformat_rtp.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/avformat/sps_avformat_rtp.cpp b/src/avformat/sps_avformat_rtp.cpp
index 72476d7..26076d1 100644
--- a/src/avformat/sps_avformat_rtp.cpp
+++ b/src/avformat/sps_avformat_rtp.cpp
@@ -100,14 +100,17 @@ error_t RtpPayloadHeader::decode_extension(BitContext &bc) {
         return ret;
     }
 
-    if ((ret = bc.acquire(extension_info.length)) != SUCCESS) {
+    // length counts 32-bit words
+    uint32_t extension_size = extension_info.length * 4;
+
+    if ((ret = bc.acquire(extension_size)) != SUCCESS) {
         sp_error("fail require rtp header extension length %u",
-                 extension_info.length);
+                 extension_size);
         return ret;
     }
 
-    extension_info.header_extension = std::make_unique<uint8_t[]>(extension_info.length);
-    bc.read_bytes(extension_info.header_extension.get(), extension_info.length);
+    extension_info.header_extension = std::make_unique<uint8_t[]>(extension_size);
+    bc.read_bytes(extension_info.header_extension.get(), extension_size);
 
     return ret;
 }
-- 
2.43.0


From c76a6232e678df2bb19f72f1469ed00c833b1c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 57/89] fix: do not take rtp padding for media

---
 src/avformat/sps_avformat_rtpdec.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 3324d07..0591c2c 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -38,9 +38,21 @@ SOFTWARE.
 namespace sps {
 
 error_t IRtpDecoder::decode(uint8_t *buffer, int size, std::list<PAVPacket> &pkts) {
+    error_t          ret = SUCCESS;
+
+    // padding ends with its own size
+    if (size > 12 && (buffer[0] & 0x20)) {
+        int padding = buffer[size - 1];
+
+        if (padding == 0 || padding > size - 12) {
+            sp_error("rtp padding %d of %d", padding, size);
+            return ERROR_RTP_PAYLOAD_TYPE;
+        }
+        size -= padding;
+    }
+
     BitContext       bc(buffer, size);
     RtpPayloadHeader rtp_header;
-    error_t          ret = SUCCESS;
 
     if ((ret = bc.acquire(12)) != SUCCESS) {
         return ret;
-- 
2.43.0


From b60e624b7de0b6bf82a749b053258c2b0d5d169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 58/89] fix: accept aac as the codec of an rtp stream

---
 src/avformat/sps_avformat_rtpdec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 0591c2c..4269f2f 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -89,6 +89,7 @@ error_t RtpDemuxer::init_codec(int codec_id) {
             break;
         case AVCODEC_AAC:
             rtp_decoder = std::make_shared<AacRtpDecoder>();
+            break;
         default:
             sp_error("not found codec %d", codec_id);
             return ERROR_RTP_PROBE;
-- 
2.43.0


From 1536c70a346a00abc987a2782958f3d76a12c4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 59/89] fix: do not take the rtp marker for a part of the
 payload type

---
 src/avformat/sps_avformat_rtpdec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 4269f2f..4eca620 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -140,7 +140,7 @@ error_t RtpDemuxer::read_packet(PAVPacket& buffer) {
             continue;
         }
 
-        if (!rtp_decoder && (ret = init_rtp_decode(pay_type)) != SUCCESS) {
+        if (!rtp_decoder && (ret = init_rtp_decode(pay_type & 0x7f)) != SUCCESS) {
             sp_error("[rtp] decoder not init ret %d", ret);
             return ERROR_RTP_PROBE;
         }
-- 
2.43.0


From a033b4c693e7ec5868cd55476bdb4941a21e9f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 60/89] fix: do not join short rtp packets with the next one

---
 src/avformat/sps_avformat_rtpdec.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 4eca620..26e0ff4 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -125,13 +125,19 @@ error_t RtpDemuxer::read_packet(PAVPacket& buffer) {
         }
 
         RtpPayloadHeader rtp_header;
-        if ((ret = rd->acquire(12)) != SUCCESS) {
+        if ((ret = rd->acquire(1)) != SUCCESS) {
             return ret;
         }
 
         uint8_t* p   = rd->pos();
         size_t   len = rd->size();
 
+        // less than any rtcp packet, do not complete it with the next one
+        if (len < 4) {
+            sp_warn("[rtp] ignore packet of %lu bytes", len);
+            continue;
+        }
+
         uint8_t pay_type = p[1];
         if (is_rtcp(pay_type)) {
             if ((ret = rtcp_decoder->decode(p, len, pkts)) != SUCCESS) {
-- 
2.43.0


From 1aa6fe7a0615dcccea29eb499932edf4233bba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 61/89] fix: split aggregated rtp packets into their nalus

---
 .../sps_avformat_rtpdec_h264_hevc.cpp         | 37 ++++++++++++-------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 6821c0f..6fa7008 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -89,24 +89,33 @@ error_t NaluRtpDecoder::decode(int tp, RtpPayloadHeader &header,
 error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
                                BitContext &bc, std::list<PAVPacket> &pkts) {
     error_t ret = SUCCESS;
+    // stap header, decoding order number
+    int header_size = tp == STAP_B ? 3 : 1;
 
-    if (tp == STAP_B) {
-        bc.skip_read_bytes(2);
+    if ((ret = bc.acquire(header_size)) != SUCCESS) {
+        return ret;
     }
+    bc.skip_read_bytes(header_size);
 
     while (bc.size() > 0) {
-        int size = bc.read_int8();
+        if ((ret = bc.acquire(2)) != SUCCESS) {
+            return ret;
+        }
+
+        int size = bc.read_int16() & 0xffff;
 
         if ((ret = bc.acquire(size)) != SUCCESS) {
             return ret;
         }
 
         NaluRtpDecoder dc;
-        ret = dc.decode(tp, header, bc, pkts);
+        BitContext nbc(bc.pos(), size);
+        ret = dc.decode(tp, header, nbc, pkts);
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] stap-decode ret %d", ret);
             return ret;
         }
+        bc.skip_read_bytes(size);
     }
 
     return ret;
@@ -118,31 +127,33 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     error_t ret = SUCCESS;
     int offset_len = tp == MTAP16 ? 2 : 3;
 
-    if (tp == MTAP24) {
-        bc.skip_read_bytes(3); // donb decoding order number base
+    // mtap header, donb decoding order number base
+    if ((ret = bc.acquire(3)) != SUCCESS) {
+        return ret;
     }
+    bc.skip_read_bytes(3);
 
     while (bc.size() > 0) {
-        //  mtap header
-        //  nalu_size(1) + nalu_dond(1) +  nalu_ts_offset(16 or 24)
-        if ((ret = bc.acquire(1 + 1 + offset_len)) != SUCCESS) {
+        //  nalu_size(2) + nalu_dond(1) +  nalu_ts_offset(16 or 24)
+        if ((ret = bc.acquire(2 + 1 + offset_len)) != SUCCESS) {
             return ret;
         }
 
-        auto nalu_size = bc.read_int8();
-        auto nalu_dond = bc.read_int8();
-        auto nalu_ts_offset = offset_len == 3 ? bc.read_int24() : bc.read_int16();
+        int nalu_size = bc.read_int16() & 0xffff;
+        bc.skip_read_bytes(1 + offset_len);
 
         if ((ret = bc.acquire(nalu_size)) != SUCCESS) {
             return ret;
         }
 
         NaluRtpDecoder dc;
-        ret = dc.decode(tp, header, bc, pkts);
+        BitContext nbc(bc.pos(), nalu_size);
+        ret = dc.decode(tp, header, nbc, pkts);
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] mtap-decode ret %d", ret);
             return ret;
         }
+        bc.skip_read_bytes(nalu_size);
     }
     return ret;
 }
-- 
2.43.0


From 2ee3e484df359bb26bc573556e7bf7d793a0a74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 62/89] fix: recover from a lost end of a fragmented nalu

---
 .../sps_avformat_rtpdec_h264_hevc.cpp         | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 6fa7008..2d972f9 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -172,24 +172,16 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     }
 
     if (fu.indicator.tp == FU_B) {
+        if ((ret = bc.acquire(2)) != SUCCESS) {
+            return ret;
+        }
         bc.skip_read_bytes(2); // don
     }
     // start nalu
     if (fu.is_start()) {
         sp_debug("fu starting tp %d, indicator %d", tp, fu.indicator.tp);
 
-        if (pkt) {
-            return ERROR_RTP_DECODER_H264;
-            //            NaluRtpDecoder dc;
-            //            RtpPayloadHeader tmp_header;
-            //            tmp_header.fix_header.timestamp = pre_rtp_timestamp;
-            //            BitContext nbc(pkt->pos(), pkt->size());
-            //            ret = dc.decode(tp, tmp_header, nbc, pkts);
-            //            if (ret != SUCCESS) {
-            //                sp_error("[rtp@h264] fu-decode ret %d", ret);
-            //                return ret;
-            //            }
-        }
+        // an unfinished nalu is dropped, its end was lost
         pkt = std::make_shared<CharBuffer>(RTP_NALU_MAX_LENGTH, 0);
 
         uint8_t nal_header = (int32_t) (fu.indicator.f << 7) | (fu.indicator.nri << 5) | fu.header.tp;
@@ -205,6 +197,12 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         return SUCCESS;
     }
 
+    if (pkt->remain() < bc.size()) {
+        sp_error("[rtp@h264] fu-decode nalu too large");
+        pkt.reset();
+        return ERROR_RTP_DECODER_H264;
+    }
+
     // nalu payload
     pkt->append(bc.pos(), bc.size());
     bc.skip_read_bytes(bc.size());
@@ -217,13 +215,13 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         BitContext nbc(pkt->buffer(), pkt->size());
         ret = dc.decode(tp, header, nbc, pkts);
 
+        // free the pkt
+        pkt.reset();
+
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] fu-decode ret %d", ret);
             return ret;
         }
-
-        // free the pkt
-        pkt.reset();
     }
 
     return ret;
-- 
2.43.0


From 06adadce099f37a1cc428338215a3a7a98aa4071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 63/89] fix: do not join fragments of a nalu over a lost packet

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 8 ++++++++
 src/avformat/sps_avformat_rtpdec_h264_hevc.hpp | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 2d972f9..854c7d9 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -277,6 +277,14 @@ error_t H264RtpDecoder::decode(RtpPayloadHeader& header, BitContext& bc, std::li
         return ret;
     }
 
+    // a fragment was lost
+    if (pkt && header.fix_header.sequence_num != ((sequence_num + 1) & 0xffff)) {
+        sp_warn("[rtp@h264] drop nalu, sequence %u after %u",
+                header.fix_header.sequence_num, sequence_num);
+        pkt.reset();
+    }
+    sequence_num = header.fix_header.sequence_num;
+
     uint8_t nalu_type = bc.pos()[0] & 0x1f;
     auto dc = create_decoder(bc, nalu_type);
 
diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
index aa4cfd4..cd203ed 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
@@ -149,7 +149,8 @@ class H264RtpDecoder : public IRtpDynamicDecoder {
 
  private:
     PCharBuffer pkt;
-    int64_t rtp_timestamp;
+    int64_t rtp_timestamp = 0;
+    uint32_t sequence_num = 0;
 };
 
 }  // namespace sps
-- 
2.43.0


From 1f699d96eaba698e4431dae8abcca8941f2ebf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 64/89] fix: read the source of rtcp report blocks

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 3 ++-
 src/avformat/sps_avformat_rtpdec_rtcp.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index e34f73c..7a08e83 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -52,12 +52,13 @@ std::string IRtcpDecoder::debug() {
 }
 
 error_t RtcpSRReportBlock::decode(BitContext &bc) {
-    error_t ret = bc.acquire(20);
+    error_t ret = bc.acquire(SIZE);
 
     if (ret != SUCCESS) {
         return ret;
     }
 
+    ssrc = bc.read_int32();
     fraction_lost = bc.read_int8();
     cum_number_pkt_lost = bc.read_int24();
     extend_high_seq_num_recv = bc.read_int32();
diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.hpp b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
index 52f2263..1ec72c3 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.hpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
@@ -53,10 +53,11 @@ typedef std::shared_ptr<IRtcpDecoder> PIRtcpDecoder;
 
 class RtcpSRReportBlock {
  public:
-    static const int SIZE = 20;
+    static const int SIZE = 24;
  public:
     error_t decode(BitContext& bc);
 
+    uint32_t ssrc;
     uint32_t fraction_lost : 8;
     uint32_t cum_number_pkt_lost : 24;  // 24 bit
     uint32_t extend_high_seq_num_recv;
-- 
2.43.0


From ca1ae9cf161791391eba1da6ee752b576e783be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 65/89] fix: do not write behind the list of rtcp source
 descriptions

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index 7a08e83..c7b79d1 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -156,9 +156,8 @@ error_t RtcpSDESDecoder::decode(RtcpHead &h, BitContext &bc) {
 
     for (int i = 0; i < h.cflag; ++i) {
         sdes.push_back(sd);
-        auto it = sdes.end();
 
-        if ((ret = it->decode(bc)) != SUCCESS) {
+        if ((ret = sdes.back().decode(bc)) != SUCCESS) {
             sp_error("[rtp@rtcp] sdes decode %dth fail num %d, ret %d", i, (int) h.cflag, ret);
             return ret;
         }
-- 
2.43.0


From c72d291b7ac4b3d06989ce69b00df01ca94bc72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 66/89] fix: check the size of rtcp bye and app packets

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index c7b79d1..706d904 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -174,8 +174,14 @@ std::string RtcpSDESDecoder::debug() {
 }
 
 error_t RtcpByteDecoder::decode(RtcpHead &h, BitContext &bc) {
-    // ssrc + length(1byte) + reason for live
-    bc.skip_read_bytes(h.length);
+    // ssrc + length(1byte) + reason for live, length counts 32-bit words
+    error_t ret = bc.acquire(h.length * 4);
+
+    if (ret != SUCCESS) {
+        return ret;
+    }
+
+    bc.skip_read_bytes(h.length * 4);
     return SUCCESS;
 }
 
@@ -184,8 +190,14 @@ std::string RtcpByteDecoder::debug() {
 }
 
 error_t RtcpAppDecoder::decode(RtcpHead &h, BitContext &bc) {
-    // ssrc + name(4byte) + application
-    bc.skip_read_bytes(h.length);
+    // ssrc + name(4byte) + application, length counts 32-bit words
+    error_t ret = bc.acquire(h.length * 4);
+
+    if (ret != SUCCESS) {
+        return ret;
+    }
+
+    bc.skip_read_bytes(h.length * 4);
     return SUCCESS;
 }
 
-- 
2.43.0


From 7e12e13037322b0328a719c1f35075dfb34c35e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:33 +0000
Subject: [PATCH 67/89] fix: send udp packets to the address of the peer

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 925 ++++++++++++++--------------
 1 file changed, 464 insertions(+), 461 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index f5d42e6..47e81c9 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -1,462 +1,465 @@
-/*****************************************************************************
-MIT License
-Copyright (c) 2021 byrcoder
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*****************************************************************************/
-
-//
-// Created by byrcoder on 2021/8/23.
-//
-
-#include <sps_sys_st_io_udp.hpp>
-#include <sps_io_socket.hpp>
-#include <sps_log.hpp>
-
-namespace sps {
-
-error_t UdpFd::create_fd(PUdpFd &fd) {
-    st_netfd_t net = nullptr;
-    int sock = socket(AF_INET, SOCK_DGRAM, 0);
-    if (sock < 0) {
-        return ERROR_SOCKET_CREATE;
-    }
-
-    net = st_netfd_open_socket(sock);
-    if (net == nullptr) {
-        ::close(sock);
-        return ERROR_ST_OPEN_SOCKET;
-    }
-
-    fd = std::make_shared<UdpFd>(net);
-    return SUCCESS;
-}
-
-error_t UdpFd::create_fd(int bind_port, PUdpFd &fd, bool reuse_addr, bool reuse_port) {
-    error_t ret = create_fd(fd);
-
-    if (ret != SUCCESS) {
-        return ret;
-    }
-
-    int    fileno  = st_netfd_fileno(fd->get_fd());
-    struct sockaddr_in addr;
-
-    if ((ret = st_tcp_fd_reuseaddr(fileno)) != SUCCESS) {
-        goto failed;
-    }
-
-    if (reuse_port) {
-        if ((ret = st_tcp_fd_reuseport(fileno)) != SUCCESS) {
-            goto failed;
-        }
-    }
-
-    addr.sin_family        =   AF_INET;
-    addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
-    addr.sin_port          =   htons(bind_port);
-
-    if (::bind(fileno, (struct sockaddr*) &addr, sizeof(addr)) == -1) {
-        sp_error("bind addr :%d failed, fileno:%d",
-                  bind_port, fileno);
-        ret = ERROR_SOCKET_BIND;
-        goto failed;
-    }
-
-    return ret;
-
-failed:
-    fd.reset();
-    return ret;
-}
-
-UdpFd::UdpFd(st_netfd_t udp_fd) {
-    this->udp_fd = udp_fd;
-}
-
-UdpFd::~UdpFd() {
-    st_tcp_close(udp_fd);
-}
-
-st_netfd_t UdpFd::get_fd() {
-    return udp_fd;
-}
-
-StUdpClientSocket::StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd) {
-    rtm    = -1;
-    stm    = -1;
-    rbytes = 0;
-    sbytes = 0;
-
-    this->fd        = std::move(fd);
-    this->peer_port = peer_port;
-    this->peer_ip   = peer_ip;
-    this->connected = false;
-
-    peer_addr.sin_family        =   AF_INET;
-    peer_addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
-    peer_addr.sin_port          =   htons(peer_port);
-
-    int opt = 1;
-    setsockopt(st_netfd_fileno(this->fd->get_fd()), IPPROTO_IP, IP_PKTINFO, &opt, sizeof(opt));
-}
-
-// reader
-void StUdpClientSocket::set_recv_timeout(utime_t tm) {
-    this->rtm = tm;
-}
-
-utime_t StUdpClientSocket::get_recv_timeout() {
-    return rtm;
-}
-
-error_t StUdpClientSocket::connect() {
-    error_t  ret = st_connect(fd->get_fd(), reinterpret_cast<const sockaddr *>(&peer_addr), sizeof(peer_addr), 10);
-    if (ret == 0) {
-        connected = true;
-    }
-
-    return ret;
-}
-
-error_t StUdpClientSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
-    int     n   = 0;
-    error_t ret = SUCCESS;
-
-    while (n < size) {
-        size_t nr = 0;
-        if ((ret = read((char*) buf + n, size - n, nr)) != SUCCESS) {
-            return ret;
-        }
-
-        n += nr;
-    }
-
-    return ret;
-}
-
-error_t StUdpClientSocket::read(void* buf, size_t size, size_t& nread) {
-    std::string peer_ip;
-    int         peer_port;
-    return read(buf, size, nread, peer_ip, peer_port);
-}
-
-error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
-                                std::string &peer_ip, int &peer_port) {
-    struct sockaddr_in from_addr;
-    int from_len = sizeof(from_addr);
-
-    int n = st_recvfrom(fd->get_fd(), buf, size, (struct sockaddr*) &from_addr, &from_len, rtm);
-
-    sp_debug("st_recvfrom ret %d", n);
-
-    if (n <= 0) {
-        if (n < 0 && errno == ETIME) {
-            return ERROR_SOCKET_TIMEOUT;
-        }
-
-        if (errno == EINTR) {
-            return ERROR_SOCKET_EINTR;
-        }
-        return ERROR_SOCKET_READ;
-    }
-
-    addr2string(&from_addr, peer_ip, peer_port);
-    nread = n;
-    return SUCCESS;
-}
-
-error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
-                                std::string &peer_ip, int &peer_port,
-                                std::string &dst_ip, int &dst_port) {
-    struct sockaddr_in from_addr;
-    int from_len = sizeof(from_addr);
-
-    struct iovec io;
-    io.iov_base = buf;
-    io.iov_len  = size;
-
-    struct msghdr msg = {
-        .msg_name = &from_addr,
-        .msg_namelen = sizeof(from_addr),
-        .msg_iov = &io,
-        .msg_iovlen = 1,
-        .msg_control = control_buf,
-        .msg_controllen = sizeof(control_buf),
-        .msg_flags = 0
-    };
-
-    int n = st_recvmsg(fd->get_fd(), &msg, 0, rtm);
-
-    if (n < 0) {
-        if (n < 0 && errno == ETIME) {
-            return ERROR_SOCKET_TIMEOUT;
-        }
-
-        if (errno == EINTR) {
-            return ERROR_SOCKET_EINTR;
-        }
-        return ERROR_SOCKET_READ;
-    }
-
-    // iterate through all the control headers
-    for (struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg); cmsg != nullptr;
-        cmsg = CMSG_NXTHDR(&msg, cmsg)) {
-        // ignore the control headers that don't match what we want
-        if (cmsg->cmsg_level != IPPROTO_IP || cmsg->cmsg_type != IP_PKTINFO) {
-            continue;
-        }
-        struct in_pktinfo *pi = (struct in_pktinfo*) CMSG_DATA(cmsg);
-        // at this point, peeraddr is the source sockaddr
-        // pi->ipi_spec_dst is the destination in_addr
-        // pi->ipi_addr is the receiving interface in_addr
-
-        addr2string((struct sockaddr_in *)&pi->ipi_addr, dst_ip, dst_port);
-    }
-
-    nread = n;
-    return SUCCESS;
-}
-
-// writer
-void StUdpClientSocket::set_send_timeout(utime_t tm) {
-    this->stm = tm;
-}
-
-utime_t StUdpClientSocket::get_send_timeout() {
-    return stm;
-}
-
-error_t StUdpClientSocket::write(void* buf, size_t size) {
-    int sent = 0;
-
-    while (sent < size) {
-        int n = st_sendto(fd->get_fd(), (char*) buf + sent, size - sent,
-                          connected ? nullptr : (struct sockaddr *) &peer_addr, sizeof(peer_addr), stm);
-
-        if (n < 0) {
-            if (n < 0 && errno == ETIME) {
-                return ERROR_SOCKET_TIMEOUT;
-            }
-
-            if (errno == EINTR) {
-                return ERROR_SOCKET_EINTR;
-            }
-            return ERROR_SOCKET_WRITE;
-        }
-
-        sent += n;
-    }
-
-    return SUCCESS;
-}
-
-UdpBuffer::UdpBuffer(uint8_t *buf, size_t len) {
-    this->len = len;
-    this->buf = new uint8_t[len];
-    memcpy(this->buf, buf, len);
-}
-
-UdpBuffer::~UdpBuffer() {
-    delete [] buf;
-}
-
-UdpBuffer::UdpBuffer(const UdpBuffer &buffer) {
-}
-
-uint8_t * UdpBuffer::buffer() {
-    return buf;
-}
-
-size_t UdpBuffer::size() {
-    return len;
-}
-
-StUdpSessionClientSocket::StUdpSessionClientSocket(const std::string &cip, int cport, PUdpFd fd) :
-        StUdpClientSocket(cip, cport, fd) {
-    cond             = IConditionFactory::get_instance().create_condition();
-    buffer_list_size = 0;
-    buffer_max_list_size = 4000;
-}
-
-StUdpSessionClientSocket::~StUdpSessionClientSocket() {
-}
-
-error_t StUdpSessionClientSocket::read(void *buf, size_t size, size_t &nread) {
-    if (buffer_lists.empty()) {
-        cond->wait(get_recv_timeout());
-    }
-
-    if (buffer_lists.empty()) {
-        return ERROR_SOCKET_TIMEOUT;
-    }
-
-    auto& b = buffer_lists.front();
-
-    if (size < b->size()) {
-        return ERROR_SOCKET_BUFFER_SMALL;
-    }
-
-    nread = b->size();
-    memcpy(buf, b->buffer(), b->size());
-
-    buffer_lists.erase(buffer_lists.begin());
-    --buffer_list_size;
-
-    return SUCCESS;
-}
-
-error_t StUdpSessionClientSocket::push(uint8_t* buf, size_t len) {
-    bool empty = buffer_lists.empty();
-
-    if (buffer_list_size >= buffer_max_list_size) {
-        sp_warn("too fast udp buffer_list_size %d drop", buffer_list_size);
-        return SUCCESS;
-    }
-
-    buffer_lists.push_back(std::make_shared<UdpBuffer>(buf, len));
-
-    if (empty) {
-        cond->signal();
-    }
-    ++buffer_list_size;
-
-    return SUCCESS;
-}
-
-UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manger): Socket() {
-    this->manager = manger;
-}
-
-UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw,
-        const std::string& ip, int p, const std::string& dip, int dp) : Socket(rw, ip, p, dip, dp) {
-    this->manager = manager;
-}
-
-UdpSessionSocket::~UdpSessionSocket() {
-    manager->on_destroy(this);
-}
-
-StUdpServerSocket::~StUdpServerSocket() {
-    delete [] buffer;
-}
-
-error_t StUdpServerSocket::listen(std::string sip, int sport, bool reuse_sport, int /** back_log **/ ) {
-    this->ip   = sip;
-    this->port = sport;
-    this->reuse_port = reuse_sport;
-    new_cond         = IConditionFactory::get_instance().create_condition();
-
-    error_t ret = UdpFd::create_fd(sport, server_fd, reuse_port, reuse_sport);
-
-    if (ret != SUCCESS) {
-        sp_error("create udp server socket failed ret %d", ret);
-        return ret;
-    }
-
-    server_socket = std::make_shared<StUdpClientSocket>("", 0, server_fd);
-
-    delete [] buffer;
-    buffer        = new uint8_t[buffer_size];
-    sp_info("create udp server socket success port %d", sport);
-
-    ret           = ICoFactory::get_instance().start(shared_from_this());
-    if (ret != SUCCESS) {
-        sp_error("start udp server socket failed ret %d", ret);
-        return ret;
-    }
-
-    running       = true;
-    return ret;
-}
-
-PSocket StUdpServerSocket::accept() {
-    while (new_clients.empty()) {
-        new_cond->wait(SLEEP_FOREVER);
-    }
-
-    PSocket c = new_clients.front();
-    new_clients.pop_front();
-    sp_trace("accept %s:%d->%s:%d", c->get_peer_ip().c_str(), c->get_peer_port(),
-             c->get_self_ip().c_str(), c->get_self_port());
-    return c;
-}
-
-error_t StUdpServerSocket::handler() {
-    while (running) {
-        size_t      nr    = 0;
-        std::string peer_ip;
-        int         peer_port = 0;
-        std::string self_ip;
-        int         self_port = 0;
-        bool        new_client = false;
-
-        error_t ret = server_socket->read(buffer, buffer_size, nr, peer_ip, peer_port, self_ip, self_port);
-        if (ret != SUCCESS){
-            sp_error("fail read ret %d", ret);
-            continue;;
-        }
-
-        PStUdpSessionClientSocket csocket = search_or_create(peer_ip, peer_port, self_ip, self_port, new_client);
-        csocket->push(buffer, nr);
-        // new socket
-        if (new_client) {
-            new_clients.push_back(std::make_shared<UdpSessionSocket>(this, csocket, peer_ip, peer_port, self_ip, self_port));
-            new_cond->signal();
-        }
-    }
-
-    return SUCCESS;
-}
-
-void StUdpServerSocket::on_destroy(UdpSessionSocket* session) {
-    remove(session->get_peer_ip(), session->get_peer_port(), session->get_self_ip(), session->get_self_port());
-}
-
-std::string StUdpServerSocket::generate_key(const std::string& cip, int cport,
-                                            const std::string& dip, int dport) {
-    return cip + ":" + std::to_string(cport) + "->" + dip + std::to_string(dport);
-}
-
-PStUdpSessionClientSocket StUdpServerSocket::search_or_create(std::string& cip, int cport,
-        std::string& dip, int dport, bool &is_new) {
-    std::string key = generate_key(cip, cport, dip, dport);
-
-    auto it = sessions.find(key);
-    if (it != sessions.end()) {
-        return it->second.lock();
-    }
-
-    auto new_socket = std::make_shared<StUdpSessionClientSocket> (cip, cport, server_fd);
-    sessions[key] = std::weak_ptr<StUdpSessionClientSocket>(new_socket);
-    is_new = true;
-
-    sp_trace("udp client coming %s:%d", cip.c_str(), cport);
-
-    return new_socket;
-}
-
-void StUdpServerSocket::remove(const std::string& cip, int cport, const std::string& sip, int sport) {
-    std::string key = generate_key(cip, cport, sip, sport);
-
-    sp_trace("udp client leaving %s:%d", cip.c_str(), cport);
-    sessions.erase(key);
-}
-
+/*****************************************************************************
+MIT License
+Copyright (c) 2021 byrcoder
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*****************************************************************************/
+
+//
+// Created by byrcoder on 2021/8/23.
+//
+
+#include <sps_sys_st_io_udp.hpp>
+#include <sps_io_socket.hpp>
+#include <sps_log.hpp>
+
+namespace sps {
+
+error_t UdpFd::create_fd(PUdpFd &fd) {
+    st_netfd_t net = nullptr;
+    int sock = socket(AF_INET, SOCK_DGRAM, 0);
+    if (sock < 0) {
+        return ERROR_SOCKET_CREATE;
+    }
+
+    net = st_netfd_open_socket(sock);
+    if (net == nullptr) {
+        ::close(sock);
+        return ERROR_ST_OPEN_SOCKET;
+    }
+
+    fd = std::make_shared<UdpFd>(net);
+    return SUCCESS;
+}
+
+error_t UdpFd::create_fd(int bind_port, PUdpFd &fd, bool reuse_addr, bool reuse_port) {
+    error_t ret = create_fd(fd);
+
+    if (ret != SUCCESS) {
+        return ret;
+    }
+
+    int    fileno  = st_netfd_fileno(fd->get_fd());
+    struct sockaddr_in addr;
+
+    if ((ret = st_tcp_fd_reuseaddr(fileno)) != SUCCESS) {
+        goto failed;
+    }
+
+    if (reuse_port) {
+        if ((ret = st_tcp_fd_reuseport(fileno)) != SUCCESS) {
+            goto failed;
+        }
+    }
+
+    addr.sin_family        =   AF_INET;
+    addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
+    addr.sin_port          =   htons(bind_port);
+
+    if (::bind(fileno, (struct sockaddr*) &addr, sizeof(addr)) == -1) {
+        sp_error("bind addr :%d failed, fileno:%d",
+                  bind_port, fileno);
+        ret = ERROR_SOCKET_BIND;
+        goto failed;
+    }
+
+    return ret;
+
+failed:
+    fd.reset();
+    return ret;
+}
+
+UdpFd::UdpFd(st_netfd_t udp_fd) {
+    this->udp_fd = udp_fd;
+}
+
+UdpFd::~UdpFd() {
+    st_tcp_close(udp_fd);
+}
+
+st_netfd_t UdpFd::get_fd() {
+    return udp_fd;
+}
+
+StUdpClientSocket::StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd) {
+    rtm    = -1;
+    stm    = -1;
+    rbytes = 0;
+    sbytes = 0;
+
+    this->fd        = std::move(fd);
+    this->peer_port = peer_port;
+    this->peer_ip   = peer_ip;
+    this->connected = false;
+
+    peer_addr.sin_family        =   AF_INET;
+    peer_addr.sin_port          =   htons(peer_port);
+
+    if (inet_pton(AF_INET, peer_ip.c_str(), &peer_addr.sin_addr) != 1) {
+        peer_addr.sin_addr.s_addr = htonl(INADDR_ANY);
+    }
+
+    int opt = 1;
+    setsockopt(st_netfd_fileno(this->fd->get_fd()), IPPROTO_IP, IP_PKTINFO, &opt, sizeof(opt));
+}
+
+// reader
+void StUdpClientSocket::set_recv_timeout(utime_t tm) {
+    this->rtm = tm;
+}
+
+utime_t StUdpClientSocket::get_recv_timeout() {
+    return rtm;
+}
+
+error_t StUdpClientSocket::connect() {
+    error_t  ret = st_connect(fd->get_fd(), reinterpret_cast<const sockaddr *>(&peer_addr), sizeof(peer_addr), 10);
+    if (ret == 0) {
+        connected = true;
+    }
+
+    return ret;
+}
+
+error_t StUdpClientSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
+    int     n   = 0;
+    error_t ret = SUCCESS;
+
+    while (n < size) {
+        size_t nr = 0;
+        if ((ret = read((char*) buf + n, size - n, nr)) != SUCCESS) {
+            return ret;
+        }
+
+        n += nr;
+    }
+
+    return ret;
+}
+
+error_t StUdpClientSocket::read(void* buf, size_t size, size_t& nread) {
+    std::string peer_ip;
+    int         peer_port;
+    return read(buf, size, nread, peer_ip, peer_port);
+}
+
+error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
+                                std::string &peer_ip, int &peer_port) {
+    struct sockaddr_in from_addr;
+    int from_len = sizeof(from_addr);
+
+    int n = st_recvfrom(fd->get_fd(), buf, size, (struct sockaddr*) &from_addr, &from_len, rtm);
+
+    sp_debug("st_recvfrom ret %d", n);
+
+    if (n <= 0) {
+        if (n < 0 && errno == ETIME) {
+            return ERROR_SOCKET_TIMEOUT;
+        }
+
+        if (errno == EINTR) {
+            return ERROR_SOCKET_EINTR;
+        }
+        return ERROR_SOCKET_READ;
+    }
+
+    addr2string(&from_addr, peer_ip, peer_port);
+    nread = n;
+    return SUCCESS;
+}
+
+error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
+                                std::string &peer_ip, int &peer_port,
+                                std::string &dst_ip, int &dst_port) {
+    struct sockaddr_in from_addr;
+    int from_len = sizeof(from_addr);
+
+    struct iovec io;
+    io.iov_base = buf;
+    io.iov_len  = size;
+
+    struct msghdr msg = {
+        .msg_name = &from_addr,
+        .msg_namelen = sizeof(from_addr),
+        .msg_iov = &io,
+        .msg_iovlen = 1,
+        .msg_control = control_buf,
+        .msg_controllen = sizeof(control_buf),
+        .msg_flags = 0
+    };
+
+    int n = st_recvmsg(fd->get_fd(), &msg, 0, rtm);
+
+    if (n < 0) {
+        if (n < 0 && errno == ETIME) {
+            return ERROR_SOCKET_TIMEOUT;
+        }
+
+        if (errno == EINTR) {
+            return ERROR_SOCKET_EINTR;
+        }
+        return ERROR_SOCKET_READ;
+    }
+
+    // iterate through all the control headers
+    for (struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg); cmsg != nullptr;
+        cmsg = CMSG_NXTHDR(&msg, cmsg)) {
+        // ignore the control headers that don't match what we want
+        if (cmsg->cmsg_level != IPPROTO_IP || cmsg->cmsg_type != IP_PKTINFO) {
+            continue;
+        }
+        struct in_pktinfo *pi = (struct in_pktinfo*) CMSG_DATA(cmsg);
+        // at this point, peeraddr is the source sockaddr
+        // pi->ipi_spec_dst is the destination in_addr
+        // pi->ipi_addr is the receiving interface in_addr
+
+        addr2string((struct sockaddr_in *)&pi->ipi_addr, dst_ip, dst_port);
+    }
+
+    nread = n;
+    return SUCCESS;
+}
+
+// writer
+void StUdpClientSocket::set_send_timeout(utime_t tm) {
+    this->stm = tm;
+}
+
+utime_t StUdpClientSocket::get_send_timeout() {
+    return stm;
+}
+
+error_t StUdpClientSocket::write(void* buf, size_t size) {
+    int sent = 0;
+
+    while (sent < size) {
+        int n = st_sendto(fd->get_fd(), (char*) buf + sent, size - sent,
+                          connected ? nullptr : (struct sockaddr *) &peer_addr, sizeof(peer_addr), stm);
+
+        if (n < 0) {
+            if (n < 0 && errno == ETIME) {
+                return ERROR_SOCKET_TIMEOUT;
+            }
+
+            if (errno == EINTR) {
+                return ERROR_SOCKET_EINTR;
+            }
+            return ERROR_SOCKET_WRITE;
+        }
+
+        sent += n;
+    }
+
+    return SUCCESS;
+}
+
+UdpBuffer::UdpBuffer(uint8_t *buf, size_t len) {
+    this->len = len;
+    this->buf = new uint8_t[len];
+    memcpy(this->buf, buf, len);
+}
+
+UdpBuffer::~UdpBuffer() {
+    delete [] buf;
+}
+
+UdpBuffer::UdpBuffer(const UdpBuffer &buffer) {
+}
+
+uint8_t * UdpBuffer::buffer() {
+    return buf;
+}
+
+size_t UdpBuffer::size() {
+    return len;
+}
+
+StUdpSessionClientSocket::StUdpSessionClientSocket(const std::string &cip, int cport, PUdpFd fd) :
+        StUdpClientSocket(cip, cport, fd) {
+    cond             = IConditionFactory::get_instance().create_condition();
+    buffer_list_size = 0;
+    buffer_max_list_size = 4000;
+}
+
+StUdpSessionClientSocket::~StUdpSessionClientSocket() {
+}
+
+error_t StUdpSessionClientSocket::read(void *buf, size_t size, size_t &nread) {
+    if (buffer_lists.empty()) {
+        cond->wait(get_recv_timeout());
+    }
+
+    if (buffer_lists.empty()) {
+        return ERROR_SOCKET_TIMEOUT;
+    }
+
+    auto& b = buffer_lists.front();
+
+    if (size < b->size()) {
+        return ERROR_SOCKET_BUFFER_SMALL;
+    }
+
+    nread = b->size();
+    memcpy(buf, b->buffer(), b->size());
+
+    buffer_lists.erase(buffer_lists.begin());
+    --buffer_list_size;
+
+    return SUCCESS;
+}
+
+error_t StUdpSessionClientSocket::push(uint8_t* buf, size_t len) {
+    bool empty = buffer_lists.empty();
+
+    if (buffer_list_size >= buffer_max_list_size) {
+        sp_warn("too fast udp buffer_list_size %d drop", buffer_list_size);
+        return SUCCESS;
+    }
+
+    buffer_lists.push_back(std::make_shared<UdpBuffer>(buf, len));
+
+    if (empty) {
+        cond->signal();
+    }
+    ++buffer_list_size;
+
+    return SUCCESS;
+}
+
+UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manger): Socket() {
+    this->manager = manger;
+}
+
+UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw,
+        const std::string& ip, int p, const std::string& dip, int dp) : Socket(rw, ip, p, dip, dp) {
+    this->manager = manager;
+}
+
+UdpSessionSocket::~UdpSessionSocket() {
+    manager->on_destroy(this);
+}
+
+StUdpServerSocket::~StUdpServerSocket() {
+    delete [] buffer;
+}
+
+error_t StUdpServerSocket::listen(std::string sip, int sport, bool reuse_sport, int /** back_log **/ ) {
+    this->ip   = sip;
+    this->port = sport;
+    this->reuse_port = reuse_sport;
+    new_cond         = IConditionFactory::get_instance().create_condition();
+
+    error_t ret = UdpFd::create_fd(sport, server_fd, reuse_port, reuse_sport);
+
+    if (ret != SUCCESS) {
+        sp_error("create udp server socket failed ret %d", ret);
+        return ret;
+    }
+
+    server_socket = std::make_shared<StUdpClientSocket>("", 0, server_fd);
+
+    delete [] buffer;
+    buffer        = new uint8_t[buffer_size];
+    sp_info("create udp server socket success port %d", sport);
+
+    ret           = ICoFactory::get_instance().start(shared_from_this());
+    if (ret != SUCCESS) {
+        sp_error("start udp server socket failed ret %d", ret);
+        return ret;
+    }
+
+    running       = true;
+    return ret;
+}
+
+PSocket StUdpServerSocket::accept() {
+    while (new_clients.empty()) {
+        new_cond->wait(SLEEP_FOREVER);
+    }
+
+    PSocket c = new_clients.front();
+    new_clients.pop_front();
+    sp_trace("accept %s:%d->%s:%d", c->get_peer_ip().c_str(), c->get_peer_port(),
+             c->get_self_ip().c_str(), c->get_self_port());
+    return c;
+}
+
+error_t StUdpServerSocket::handler() {
+    while (running) {
+        size_t      nr    = 0;
+        std::string peer_ip;
+        int         peer_port = 0;
+        std::string self_ip;
+        int         self_port = 0;
+        bool        new_client = false;
+
+        error_t ret = server_socket->read(buffer, buffer_size, nr, peer_ip, peer_port, self_ip, self_port);
+        if (ret != SUCCESS){
+            sp_error("fail read ret %d", ret);
+            continue;;
+        }
+
+        PStUdpSessionClientSocket csocket = search_or_create(peer_ip, peer_port, self_ip, self_port, new_client);
+        csocket->push(buffer, nr);
+        // new socket
+        if (new_client) {
+            new_clients.push_back(std::make_shared<UdpSessionSocket>(this, csocket, peer_ip, peer_port, self_ip, self_port));
+            new_cond->signal();
+        }
+    }
+
+    return SUCCESS;
+}
+
+void StUdpServerSocket::on_destroy(UdpSessionSocket* session) {
+    remove(session->get_peer_ip(), session->get_peer_port(), session->get_self_ip(), session->get_self_port());
+}
+
+std::string StUdpServerSocket::generate_key(const std::string& cip, int cport,
+                                            const std::string& dip, int dport) {
+    return cip + ":" + std::to_string(cport) + "->" + dip + std::to_string(dport);
+}
+
+PStUdpSessionClientSocket StUdpServerSocket::search_or_create(std::string& cip, int cport,
+        std::string& dip, int dport, bool &is_new) {
+    std::string key = generate_key(cip, cport, dip, dport);
+
+    auto it = sessions.find(key);
+    if (it != sessions.end()) {
+        return it->second.lock();
+    }
+
+    auto new_socket = std::make_shared<StUdpSessionClientSocket> (cip, cport, server_fd);
+    sessions[key] = std::weak_ptr<StUdpSessionClientSocket>(new_socket);
+    is_new = true;
+
+    sp_trace("udp client coming %s:%d", cip.c_str(), cport);
+
+    return new_socket;
+}
+
+void StUdpServerSocket::remove(const std::string& cip, int cport, const std::string& sip, int sport) {
+    std::string key = generate_key(cip, cport, sip, sport);
+
+    sp_trace("udp client leaving %s:%d", cip.c_str(), cport);
+    sessions.erase(key);
+}
+
 }
\ No newline at end of file
-- 
2.43.0


From 11662d9afe88ed0d0f4cadb0ed3add808dda3bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:33 +0000
Subject: [PATCH 68/89] fix: tell udp clients apart

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index 47e81c9..e47649c 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -218,6 +218,8 @@ error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
         return ERROR_SOCKET_READ;
     }
 
+    addr2string(&from_addr, peer_ip, peer_port);
+
     // iterate through all the control headers
     for (struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg); cmsg != nullptr;
         cmsg = CMSG_NXTHDR(&msg, cmsg)) {
-- 
2.43.0


From db001dc7301f07833258fd4b009f6d24c0394d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:33 +0000
Subject: [PATCH 69/89] fix: read the local address of udp packets

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index e47649c..3b1e05c 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -232,7 +232,12 @@ error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
         // pi->ipi_spec_dst is the destination in_addr
         // pi->ipi_addr is the receiving interface in_addr
 
-        addr2string((struct sockaddr_in *)&pi->ipi_addr, dst_ip, dst_port);
+        struct sockaddr_in dst_addr;
+        memset(&dst_addr, 0, sizeof(dst_addr));
+        dst_addr.sin_family = AF_INET;
+        dst_addr.sin_addr   = pi->ipi_addr;
+
+        addr2string(&dst_addr, dst_ip, dst_port);
     }
 
     nread = n;
-- 
2.43.0


From 176ebe388790124174ffd6beddcdc869584d0108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:33 +0000
Subject: [PATCH 70/89] fix: report the size of a full udp read

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index 3b1e05c..e71634d 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -151,6 +151,10 @@ error_t StUdpClientSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
         n += nr;
     }
 
+    if (nread) {
+        *nread = n;
+    }
+
     return ret;
 }
 
-- 
2.43.0


From 4641322f448425dfabcf8f8375322dbcf4a16b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:07 +0000
Subject: [PATCH 71/89] fix: fill the buffer of a full tls read

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index ca44441..b94c077 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -399,7 +399,7 @@ error_t StSSLSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
 
     while (n < size) {
         size_t len = 0;
-        if ((ret = read(buf, size-n, len)) != SUCCESS) {
+        if ((ret = read((char*) buf + n, size - n, len)) != SUCCESS) {
             break;
         }
 
-- 
2.43.0


From e6880bec6e1d837563e29c3c5feb7a9d0331c9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:07 +0000
Subject: [PATCH 72/89] fix: keep the data that came along with a tls handshake

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 21 ---------------------
 1 file changed, 21 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index b94c077..81bb701 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -179,18 +179,7 @@ error_t StSSLSocket::handshake() {
     }
     sp_info("Change Cipher Spec, Encrypted Handshake Message");
 
-    uint8_t* data = nullptr;
-    int     n = 0;
-    if ((n = BIO_get_mem_data(wbio, &data)) > 0) {
-        // OK, reset it for the next read.
-        sp_info("remain for wrote n %d", n);
-        if ((n = BIO_reset(rbio)) != 1) {
-            return ERROR_SSL_HANDSHAKE;
-        }
-    }
-
     return ret;
-
 }
 
 error_t StSSLSocket::accept() {
@@ -287,10 +276,6 @@ error_t StSSLSocket::handshake_util_write() {
         }
 
         if (BIO_get_mem_data(wbio, &data) > 0) {
-            // OK, reset it for the next read.
-            if ((n = BIO_reset(rbio)) != 1) {
-                return ERROR_SSL_HANDSHAKE;
-            }
             break;
         }
     }
@@ -323,12 +308,6 @@ error_t StSSLSocket::handshake_util_read() {
 
     sp_info("write ssl handshake(%d) %.*s", n, n, data);
 
-    // for next read
-    if ((ssl_err = BIO_reset(rbio)) != 1) {
-        sp_error("fail reset rio mem for %d", ssl_err);
-        return ERROR_SSL_HANDSHAKE;
-    }
-
     if ((tmp_ret = io->write(data, n)) != SUCCESS) {
         sp_error("fail io read ret %d", tmp_ret);
         return tmp_ret;
-- 
2.43.0


From 1a53400c73c19fde1165e762b4cdc341ab53fff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:07 +0000
Subject: [PATCH 73/89] fix: do not serve a failed tls accept

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 81bb701..1aad458 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -524,6 +524,12 @@ error_t StSSLAcceptor::handler() {
 
     do {
         auto sock = ssl.ssock->accept();
+
+        if (!sock) {
+            sp_error("fail ssl accept");
+            continue;
+        }
+
         auto ssl_sock = std::make_shared<StSSLSocket>(sock, SSL_SERVER, ssl.config, ssl.cert_searcher);
 
         // TODO: fixme with threads startup
-- 
2.43.0


From 286d6186df2915cd4d4f88a783cbda4cad1531aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 74/89] fix: open the file a file url names

---
 src/io/url/sps_io_url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index ce10d59..7e5a7c7 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -131,7 +131,7 @@ error_t RequestUrl::parse_url(const std::string& url) {
     this->url = path + (params.empty() ? "" : "?" + params);
     if (schema == "file") {
         this->url    = url.substr(sizeof("file://") - 1);
-        this->path   = url;
+        this->path   = this->url;
         this->params = "";
         this->port   = -1;
     }
-- 
2.43.0


From 2b280c9c01b948dd110400094eb847e1bed2d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 75/89] fix: report the size of a full file read

---
 src/io/url/sps_io_url_file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/url/sps_io_url_file.cpp b/src/io/url/sps_io_url_file.cpp
index b230a07..f137373 100644
--- a/src/io/url/sps_io_url_file.cpp
+++ b/src/io/url/sps_io_url_file.cpp
@@ -75,6 +75,9 @@ void FileURLProtocol::close() {
 
 error_t FileURLProtocol::read_fully(void *buf, size_t size, ssize_t *nread) {
     fh.read((char*) buf, size);
+    if (nread) {
+        *nread = fh.gcount();
+    }
     return fh.fail() ? ERROR_IO_EOF : SUCCESS;
 }
 
-- 
2.43.0


From cf68db9388828068ccff529f018164aa818a4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 76/89] fix: report the end of a file once all of it is read

---
 src/io/url/sps_io_url_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/url/sps_io_url_file.cpp b/src/io/url/sps_io_url_file.cpp
index f137373..b989962 100644
--- a/src/io/url/sps_io_url_file.cpp
+++ b/src/io/url/sps_io_url_file.cpp
@@ -93,7 +93,7 @@ error_t FileURLProtocol::read(void *buf, size_t size, size_t &nread) {
     fh.read((char*) buf, size);
 
     nread = fh.gcount();
-    return SUCCESS;
+    return nread > 0 ? SUCCESS : ERROR_IO_EOF;
 }
 
 error_t FileURLProtocol::read_line(std::string &line) {
-- 
2.43.0


From 05161a1ff8fb771aa93426c813461bfb0da652d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 77/89] fix: report file writes that did not happen

---
 src/io/url/sps_io_url_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/url/sps_io_url_file.cpp b/src/io/url/sps_io_url_file.cpp
index b989962..21791a3 100644
--- a/src/io/url/sps_io_url_file.cpp
+++ b/src/io/url/sps_io_url_file.cpp
@@ -114,7 +114,7 @@ int FileURLProtocol::cur_line_num() {
 
 error_t FileURLProtocol::write(void *buf, size_t size) {
     fh.write((char*) buf, size);
-    if (fh.bad()) {
+    if (!fh.good()) {
         return ERROR_FILE_WRITE;
     }
     return SUCCESS;
-- 
2.43.0


From e35204f0f36b26fab79b1a8dd717d1ee04bd172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:02 +0000
Subject: [PATCH 78/89] fix: do not fail tls reads for the errors of other
 connections

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 3 +++
 src/sys/st/io/sps_sys_st_io_ssl.hpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 1aad458..07a20fe 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -323,6 +323,8 @@ error_t StSSLSocket::handshake_util_read() {
 }
 
 error_t StSSLSocket::do_handshake(bool reading) {
+    // SSL_get_error also looks at what others left in the thread's error queue
+    ERR_clear_error();
     int n = SSL_do_handshake(ssl);
 
     if (n == 1) {
@@ -397,6 +399,7 @@ error_t StSSLSocket::read(void* buf, size_t size, size_t& nread) {
 
     do {
         // read decode buffer
+        ERR_clear_error();
         int n  = SSL_read(ssl, buf, size);
         int r2 = BIO_ctrl_pending(rbio);
         int r3 = SSL_is_init_finished(ssl);
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.hpp b/src/sys/st/io/sps_sys_st_io_ssl.hpp
index 3182731..1f0b08e 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.hpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.hpp
@@ -28,6 +28,7 @@ SOFTWARE.
 
 #ifdef OPENSSL_ENABLED
 
+#include <openssl/err.h>
 #include <openssl/ssl.h>
 
 #include <memory>
-- 
2.43.0


From 1b8487d619b13f0beb08b4974a111a26dac22c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:02 +0000
Subject: [PATCH 79/89] fix: do not spin when a tls server cannot accept

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 07a20fe..3c19f57 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -28,6 +28,8 @@ SOFTWARE.
 #include <sps_sys_st_io_ssl.hpp>
 #include <sps_log.hpp>
 
+#include <st.h>
+
 #ifdef OPENSSL_ENABLED
 
 namespace sps {
@@ -530,6 +532,7 @@ error_t StSSLAcceptor::handler() {
 
         if (!sock) {
             sp_error("fail ssl accept");
+            st_usleep(100 * 1000);  // do not spin while out of descriptors
             continue;
         }
 
-- 
2.43.0


From e7dac618bb7ee2656fb200e0d75c5fd09ff42963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 80/89] fix: do not let a stalled tls handshake keep other
 clients out

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 46 +++++++++++++++++++++++------
 src/sys/st/io/sps_sys_st_io_ssl.hpp | 21 +++++++++++++
 2 files changed, 58 insertions(+), 9 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 3c19f57..15b6601 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -45,6 +45,8 @@ error_t st_tcp_ssl_accept(PSocket& io, utime_t timeout) {
     return ERROR_SSL_READ;
 }
 
+static const utime_t SSL_HANDSHAKE_TIMEOUT = 10 * 1000 * 1000;
+
 std::map<SSL_CTX*, StSSLSocket*> StSSLSocket::cb_ctx;
 
 int StSSLSocket::ssl_servername_callback(SSL *ssl, int *ag, void *arg) {
@@ -536,22 +538,48 @@ error_t StSSLAcceptor::handler() {
             continue;
         }
 
-        auto ssl_sock = std::make_shared<StSSLSocket>(sock, SSL_SERVER, ssl.config, ssl.cert_searcher);
+        // a client that never answers is given up
+        sock->set_recv_timeout(SSL_HANDSHAKE_TIMEOUT);
+        sock->set_send_timeout(SSL_HANDSHAKE_TIMEOUT);
 
-        // TODO: fixme with threads startup
-        if ((ret = ssl_sock->init()) != SUCCESS) {
-            sp_error("ssl accept ret %d", ret);
-            continue;
-        }
-
-        ssl.push_socket(std::make_shared<Socket>(ssl_sock, sock->get_peer_ip(),
-                sock->get_peer_port()));
+        auto handshake = std::make_shared<StSSLHandshake>(ssl, sock);
+        ssl.handshakes.insert(handshake);
 
+        if ((ret = ICoFactory::get_instance().start(handshake)) != SUCCESS) {
+            sp_error("fail start ssl handshake ret %d", ret);
+            ssl.handshakes.erase(handshake);
+        }
     } while (true);
 
     return SUCCESS;
 }
 
+StSSLHandshake::StSSLHandshake(StSSLServerSocket& ssl, PSocket sock)
+        : ssl(ssl), sock(std::move(sock)) {
+}
+
+error_t StSSLHandshake::handler() {
+    error_t ret      = SUCCESS;
+    auto    ssl_sock = std::make_shared<StSSLSocket>(sock, SSL_SERVER, ssl.config, ssl.cert_searcher);
+
+    if ((ret = ssl_sock->init()) != SUCCESS) {
+        sp_error("ssl accept ret %d", ret);
+        return ret;
+    }
+
+    // the timeouts of the handshake end with it
+    sock->set_recv_timeout(SLEEP_FOREVER);
+    sock->set_send_timeout(SLEEP_FOREVER);
+
+    ssl.push_socket(std::make_shared<Socket>(ssl_sock, sock->get_peer_ip(),
+            sock->get_peer_port()));
+    return ret;
+}
+
+void StSSLHandshake::on_stop() {
+    ssl.handshakes.erase(shared_from_this());
+}
+
 }
 
 #endif
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.hpp b/src/sys/st/io/sps_sys_st_io_ssl.hpp
index 1f0b08e..c3e30b6 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.hpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.hpp
@@ -31,7 +31,11 @@ SOFTWARE.
 #include <openssl/err.h>
 #include <openssl/ssl.h>
 
+#include <list>
+#include <map>
 #include <memory>
+#include <set>
+#include <string>
 
 #include <sps_sys_co.hpp>
 #include <sps_sys_sync.hpp>
@@ -123,12 +127,14 @@ class StSSLSocket : public IReaderWriter {
 };
 
 class StSSLAcceptor;
+class StSSLHandshake;
 /**
  * ssl server wrapped
  */
 class StSSLServerSocket : public IServerSocket {
  public:
     friend class StSSLAcceptor;
+    friend class StSSLHandshake;
  public:
     StSSLServerSocket(PIServerSocket ssock);
 
@@ -147,6 +153,7 @@ class StSSLServerSocket : public IServerSocket {
     PCondition                      condition;
     std::list<PSocket>              ready_sockets;
     std::shared_ptr<StSSLAcceptor>  acceptor;
+    std::set<PICoHandler>           handshakes;  // clients not ready yet
     SSLConfig                       config;
     PISSLCertSearch                 cert_searcher;
 };
@@ -163,6 +170,20 @@ class StSSLAcceptor : public ICoHandler {
     StSSLServerSocket& ssl;
 };
 
+// one client's handshake, which must not keep the others waiting
+class StSSLHandshake : public ICoHandler, public std::enable_shared_from_this<StSSLHandshake> {
+ public:
+    StSSLHandshake(StSSLServerSocket& ssl, PSocket sock);
+
+ public:
+    error_t handler() override;
+    void    on_stop() override;
+
+ private:
+    StSSLServerSocket& ssl;
+    PSocket            sock;
+};
+
 }  // namespace sps
 
 #endif
-- 
2.43.0


From 0066d579a353fdb2464e9036cee3d4330a4976f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 81/89] fix: do not let an edge pull replace a stream published
 meanwhile

---
 src/module/stream/sps_stream_edge.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index b0b1885..6249bcd 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -73,6 +73,12 @@ error_t StreamEdge::handler() {
             ret = ERROR_AVFORMAT_DEMUX_NOT_EXISTS;
             break;
         }
+        if (StreamCache::get_streamcache(key)) {
+            // published by another one while the upstream was opened
+            sp_error("Fail edge has source %s", url->get_url());
+            ret = ERROR_HTTP_HAS_SOURCE;
+            break;
+        }
         cache    = StreamCache::create_av_streamcache(key);
         cache->set_ctx(dec->get_av_ctx());
         cond->signal();
-- 
2.43.0


From 85b88f45b8a295e7b3363beffb69f3244fd21288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:52 +0000
Subject: [PATCH 82/89] fix: find the host and path of an absolute http target

---
 src/module/http/sps_http_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index 61eca29..ac643b8 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -99,7 +99,9 @@ int HttpParserContext::parse_request() {
 
     std::string full_url;
 
-    if (!host.empty()) {
+    if (url.compare(0, 7, "http://") == 0) {
+        full_url = url;  // absolute form
+    } else if (!host.empty()) {
         full_url = "http://" + host + url;
     } else {
         full_url = "http:/" + url;
-- 
2.43.0


From 87a66a7173660b370e29d5f11b11aa93356bdc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:25 +0000
Subject: [PATCH 83/89] fix: recognise a chunked body by its last transfer
 coding

---
 src/io/url/sps_io_url.cpp           | 10 +++++++++-
 src/module/http/sps_http_parser.cpp |  3 ++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 7e5a7c7..266ccec 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -201,7 +201,15 @@ std::string RequestUrl::get_param(const std::string& key) {
 }
 
 bool RequestUrl::is_chunked() {
-    return strcasecmp(get_header("Transfer-Encoding").c_str(), "chunked") == 0;
+    std::string te;
+    for (auto& h : headers) {
+        if (h.is("Transfer-Encoding")) te = h.value;
+    }
+
+    // the last of the transfer codings frames the body
+    te.resize(te.find_last_not_of(" \t") + 1);
+    auto n = te.find_last_of(", \t");
+    return strcasecmp(te.c_str() + (n == std::string::npos ? 0 : n + 1), "chunked") == 0;
 }
 
 int64_t RequestUrl::get_content_length() {
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index ac643b8..563675a 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -119,7 +119,8 @@ int HttpParserContext::parse_response() {
 
     res->status_code    = http.status_code;
     res->content_length = http.content_length;
-    res->chunked        = http.uses_transfer_encoding;
+    // other transfer codings end with the connection
+    res->chunked        = (http.flags & F_CHUNKED) != 0;
     res->headers        = headers;
 
     sp_debug("header size:%lu, status_code:%d, cl:%llu, chunked:%d",
-- 
2.43.0


From 7cf7981ac8f5ea32f40893c487282483906bbdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:26 +0000
Subject: [PATCH 84/89] fix: let an srt server listen on the port number of a
 tcp one

---
 src/module/server/sps_server_module.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/module/server/sps_server_module.cpp b/src/module/server/sps_server_module.cpp
index d27c3bf..0e6d739 100644
--- a/src/module/server/sps_server_module.cpp
+++ b/src/module/server/sps_server_module.cpp
@@ -29,7 +29,11 @@ SOFTWARE.
 namespace sps {
 
 bool ServerCompare::operator()(const ServerConfCtx& s1, const ServerConfCtx& s2) const {
-    return s1.listen_port < s2.listen_port;
+    if (s1.listen_port != s2.listen_port) {
+        return s1.listen_port < s2.listen_port;
+    }
+    // srt listens on an udp port
+    return s1.transport != "srt" && s2.transport == "srt";
 }
 
 std::map<ServerConfCtx, PServerModule, ServerCompare> ServerModule::server_modules;
-- 
2.43.0


From 5299a0d6ba3c1852be3b8c710a9b37799fa4b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 85/89] fix: survive a format that ffmpeg cannot open

Without a transport there is no buffer to free.
---
 src/avformat/sps_avformat_ffmpeg_dec.cpp | 2 +-
 src/avformat/sps_avformat_ffmpeg_enc.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_ffmpeg_dec.cpp b/src/avformat/sps_avformat_ffmpeg_dec.cpp
index ac2f90a..1875421 100644
--- a/src/avformat/sps_avformat_ffmpeg_dec.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_dec.cpp
@@ -183,7 +183,7 @@ error_t FFmpegAVDemuxer::init_ffmpeg_ctx() {
 void FFmpegAVDemuxer::free_ffmpeg_ctx() {
     // https://ffmpeg.org/pipermail/libav-user/2012-December/003257.html
     // avio_ctx_buffer manage by pb
-    if (pb->buffer) av_freep(&pb->buffer);
+    if (pb && pb->buffer) av_freep(&pb->buffer);
     if (pb) avio_context_free(&pb);
     if (ctx) avformat_free_context(ctx);
 }
diff --git a/src/avformat/sps_avformat_ffmpeg_enc.cpp b/src/avformat/sps_avformat_ffmpeg_enc.cpp
index a2f588b..62b3df6 100644
--- a/src/avformat/sps_avformat_ffmpeg_enc.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_enc.cpp
@@ -256,7 +256,7 @@ error_t FFmpegAVMuxer::init_ffmpeg_ctx() {
 }
 
 void FFmpegAVMuxer::free_ffmpeg_ctx() {
-    if (pb->buffer) av_free(pb->buffer);
+    if (pb && pb->buffer) av_free(pb->buffer);
     if (pb) avio_context_free(&pb);
     if (ctx) avformat_free_context(ctx);
 }
-- 
2.43.0


From 137f223150d52e4d86149c89e771a3d42198fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 86/89] fix: keep serving when an ffmpeg packet has no or a
 negative timestamp

The whole server exited; the packet is now left to the muxer.
---
 src/avformat/sps_avformat_ffmpeg_enc.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/avformat/sps_avformat_ffmpeg_enc.cpp b/src/avformat/sps_avformat_ffmpeg_enc.cpp
index 62b3df6..ab66433 100644
--- a/src/avformat/sps_avformat_ffmpeg_enc.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_enc.cpp
@@ -115,11 +115,6 @@ error_t FFmpegAVMuxer::write_packet(PAVPacket& buffer) {
                 pkt->get_time_base()->den, pkt->get_time_base()->num,
                 ctx->streams[pkt->packet()->stream_index]->time_base.den,
                 ctx->streams[pkt->packet()->stream_index]->time_base.num);
-
-        out_pkt.dts = pkt->packet()->dts;
-        out_pkt.pts = pkt->packet()->pts;
-
-        exit(0);
     }
 
     ret = av_write_frame(ctx, &out_pkt);
-- 
2.43.0


From 877913c9d4891970ce1260183fb14c1af2c4bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 87/89] fix: refuse packets that ffmpeg did not make in the
 ffmpeg muxer

---
 src/avformat/sps_avformat_ffmpeg_enc.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/avformat/sps_avformat_ffmpeg_enc.cpp b/src/avformat/sps_avformat_ffmpeg_enc.cpp
index ab66433..51ae84d 100644
--- a/src/avformat/sps_avformat_ffmpeg_enc.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_enc.cpp
@@ -86,6 +86,11 @@ error_t FFmpegAVMuxer::write_header(PAVPacket &buffer) {
 error_t FFmpegAVMuxer::write_packet(PAVPacket& buffer) {
     auto pkt = dynamic_cast<FFmpegPacket*>(buffer.get());
 
+    if (!pkt) {
+        sp_error("fail write, not a ffmpeg packet");
+        return ERROR_FFMPEG_WRITE;
+    }
+
     if (pkt->packet()->stream_index >= stream_mapping.size() ||
         stream_mapping[pkt->packet()->stream_index] < 0) {
         sp_warn("ignore packet index %d", pkt->packet()->stream_index);
-- 
2.43.0


From 8fa885a2862de1f73546873f43a2cdb89a92ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 88/89] fix: write ffmpeg packets to the output stream they
 belong to

A stream that is left out shifts the ones after it.
---
 src/avformat/sps_avformat_ffmpeg_enc.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/avformat/sps_avformat_ffmpeg_enc.cpp b/src/avformat/sps_avformat_ffmpeg_enc.cpp
index 51ae84d..8dc57a1 100644
--- a/src/avformat/sps_avformat_ffmpeg_enc.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_enc.cpp
@@ -108,8 +108,9 @@ error_t FFmpegAVMuxer::write_packet(PAVPacket& buffer) {
 
     out_pkt.dts = pkt->packet()->dts;
     out_pkt.pts = pkt->packet()->pts;
+    out_pkt.stream_index = stream_mapping[pkt->packet()->stream_index];
     /* copy packet */
-    av_packet_rescale_ts(&out_pkt, *pkt->get_time_base(), ctx->streams[pkt->packet()->stream_index]->time_base);
+    av_packet_rescale_ts(&out_pkt, *pkt->get_time_base(), ctx->streams[out_pkt.stream_index]->time_base);
     out_pkt.pos = -1;
 
     // TODO fix rtmp
@@ -118,8 +119,8 @@ error_t FFmpegAVMuxer::write_packet(PAVPacket& buffer) {
                 "tb (%d, %d) -> (%d, %d)",
                 out_pkt.dts, out_pkt.pts, pkt->packet()->dts, pkt->packet()->pts,
                 pkt->get_time_base()->den, pkt->get_time_base()->num,
-                ctx->streams[pkt->packet()->stream_index]->time_base.den,
-                ctx->streams[pkt->packet()->stream_index]->time_base.num);
+                ctx->streams[out_pkt.stream_index]->time_base.den,
+                ctx->streams[out_pkt.stream_index]->time_base.num);
     }
 
     ret = av_write_frame(ctx, &out_pkt);
@@ -215,7 +216,7 @@ error_t FFmpegAVMuxer::on_av_stream(AVStream* stream) {
     }
 
     out_stream->codecpar->codec_tag = 0;
-    stream_mapping.push_back(stream_mapping.size());
+    stream_mapping.push_back(out_stream->index);
     sp_trace("Success new stream %d->%d codec %d(%d)", stream->index, out_stream->index,
              stream->codecpar->codec_type, stream->codecpar->codec_id);
 
-- 
2.43.0


From aa7396a7fe822b7777c5d634d986c9077dff7887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 89/89] fix: close an opened ffmpeg input

The context alone was freed and the demuxer's own state leaked.
---
 src/avformat/sps_avformat_ffmpeg_dec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_ffmpeg_dec.cpp b/src/avformat/sps_avformat_ffmpeg_dec.cpp
index 1875421..c421e9f 100644
--- a/src/avformat/sps_avformat_ffmpeg_dec.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_dec.cpp
@@ -183,9 +183,9 @@ error_t FFmpegAVDemuxer::init_ffmpeg_ctx() {
 void FFmpegAVDemuxer::free_ffmpeg_ctx() {
     // https://ffmpeg.org/pipermail/libav-user/2012-December/003257.html
     // avio_ctx_buffer manage by pb
+    if (ctx) avformat_close_input(&ctx);
     if (pb && pb->buffer) av_freep(&pb->buffer);
     if (pb) avio_context_free(&pb);
-    if (ctx) avformat_free_context(ctx);
 }
 
 FFmpegAVInputFormat::FFmpegAVInputFormat() : IAVInputFormat("ffmpeg", ".*") {
-- 
2.43.0

