From 78adf19e4d976d8c60b51f4da474e69f20dd78e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:35 +0000
Subject: [PATCH 01/26] fix: http-srv-static: do not leak descriptors when
 replying a directory index

---
 src/net/http-srv-static.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/net/http-srv-static.c b/src/net/http-srv-static.c
index 2967665..59ed505 100644
--- a/src/net/http-srv-static.c
+++ b/src/net/http-srv-static.c
@@ -105,6 +105,9 @@ static void httpd_query_reply_make_index_(httpd_query_t *q, int dfd,
     outbuf_t *ob;
 
     if (!dir) {
+        if (dfd >= 0) {
+            close(dfd);
+        }
         httpd_reject(q, NOT_FOUND, "");
         return;
     }
@@ -133,10 +136,10 @@ static void httpd_query_reply_make_index_(httpd_query_t *q, int dfd,
                 ob_addf(ob, "<a href=\"%s\">%s</a><br>", de->d_name, de->d_name);
             }
         }
-        closedir(dir);
 
         ob_adds(ob, "</body></html>\r\n");
     }
+    closedir(dir);
     httpd_reply_done(q);
 }
 
@@ -167,6 +170,7 @@ void httpd_reply_file(httpd_query_t *q, int dfd, const char *file, bool head)
         if (file[strlen(file) - 1] != '/')
             goto ret404;
         httpd_reply_make_index(q, fd, head);
+        close(fd);
         return;
     }
     if (!S_ISREG(st.st_mode))
-- 
2.43.0


From 721295be92f85fb6d954d801e0893ba2153fdd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:35 +0000
Subject: [PATCH 02/26] fix: file-bin: unmap the file when its header is
 invalid

---
 src/core/file-bin.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index 63ff8fd..1587d28 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -207,9 +207,12 @@ int file_bin_refresh(file_bin_t *file)
         return -1;
     }
 
-    if (parse_header) {
-        RETHROW(file_bin_parse_header(file->path, new_map, st.st_size,
-                                      &file->version, &file->slot_size));
+    if (parse_header
+    &&  file_bin_parse_header(file->path, new_map, st.st_size,
+                              &file->version, &file->slot_size) < 0)
+    {
+        munmap(new_map, st.st_size);
+        return -1;
     }
 
     file->map = new_map;
@@ -508,6 +511,7 @@ file_bin_t *file_bin_open(lstr_t path)
         if (file_bin_parse_header(path, mapping, st.st_size,
                                   &version, &slot_size) < 0)
         {
+            munmap(mapping, st.st_size);
             goto error;
         }
     }
-- 
2.43.0


From 4c05ff83863063ec7ea869183fc172eb53068d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:35 +0000
Subject: [PATCH 03/26] fix: qps: release the descriptor and the map when a
 snapshot file cannot be read

---
 src/core/qps.blk | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/qps.blk b/src/core/qps.blk
index fc5e191..62c5cd8 100644
--- a/src/core/qps.blk
+++ b/src/core/qps.blk
@@ -1076,12 +1076,14 @@ static qps_map_t *qps_pg_map_open(qps_t *qps, uint32_t no, uint32_t gen)
 
     if ((fd = openat(qps->dfd, buf, O_RDONLY, 0644)) < 0) {
         logger_error(&qps->logger, "[%s] unable to open file: %m", buf);
+        qps_map_recycle(qps, map, no, false);
         return NULL;
     }
 
     zin = gzdopen(fd, "rb");
     if (zin == NULL) {
         logger_error(&qps->logger, "[%s] unable to gzdopen", buf);
+        p_close(&fd);
         goto zerror;
     }
 
@@ -1280,10 +1282,12 @@ static void qps_dir_cleanup(qps_t *qps, uint32_t gen)
 {
     struct dirent *de;
     DIR           *dir = NULL;
+    int            dfd = dup(qps->dfd);
 
-    dir = fdopendir(dup(qps->dfd));
+    dir = fdopendir(dfd);
     if (!dir) {
         logger_error(&qps->logger, "[%p] unable to fdopendir: %m", qps);
+        p_close(&dfd);
         return;
     }
 
-- 
2.43.0


From 6fa4afa9dd136fc5e3965e0a68ec902a126a959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:32 +0000
Subject: [PATCH 04/26] fix: str-conv: case-sensitive normalization of U+01DD
 and U+01FD

The case-sensitive folding table mapped the lowercase letters U+01DD and
U+01FD to uppercase ones.
---
 src/core/str-conv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/str-conv.c b/src/core/str-conv.c
index c2f9e3f..e38a05c 100644
--- a/src/core/str-conv.c
+++ b/src/core/str-conv.c
@@ -387,11 +387,11 @@ uint32_t const __str_unicode_general_cs[512] = {
     0x01C0,0x01C1,0x01C2,0x01C3,P(D,Z),P(D,z),P(d,z),P(L,J), // 01C0
     P(L,j),P(l,j),P(N,J),P(N,j),P(n,j),   'A',   'a',   'I', // 01C8
        'i',   'O',   'o',   'U',   'u',   'U',   'u',   'U', // 01D0
-       'u',   'U',   'u',   'U',   'u',0x018E,   'A',   'a', // 01D8
+       'u',   'U',   'u',   'U',   'u',0x01DD,   'A',   'a', // 01D8
        'A',   'a',P(A,E),P(a,e),   'G',   'g',   'G',   'g', // 01E0
        'K',   'k',   'O',   'o',   'O',   'o',0x01EE,0x01EF, // 01E8
        'j',P(D,Z),P(D,z),P(d,z),   'G',   'g',0x01F6,0x01F7, // 01F0
-       'N',   'n',   'A',   'a',P(A,E),P(A,e),   'O',   'o', // 01F8
+       'N',   'n',   'A',   'a',P(A,E),P(a,e),   'O',   'o', // 01F8
 };
 #undef p
 #undef a
-- 
2.43.0


From 249f911eec14cd6928def1fe6cec2a52fdc1496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:32 +0000
Subject: [PATCH 05/26] fix: http: the Max-Forwards header was misspelt in the
 well-known headers

A received Max-Forwards header was not recognized, and the name printed for
HTTP_WKHDR_MAX_FORMWARDS is not a header anyone understands.
---
 src/net/http-hdr.perf | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/http-hdr.perf b/src/net/http-hdr.perf
index c993da4..0d9d9a5 100644
--- a/src/net/http-hdr.perf
+++ b/src/net/http-hdr.perf
@@ -52,7 +52,7 @@ If-Modified-Since,   HTTP_WKHDR_IF_MODIFIED_SINCE
 If-None-Match,       HTTP_WKHDR_IF_NONE_MATCH
 If-Range,            HTTP_WKHDR_IF_RANGE
 If-Unmodified-Since, HTTP_WKHDR_IF_UNMODIFIED_SINCE
-Max-Formwards,       HTTP_WKHDR_MAX_FORMWARDS
+Max-Forwards,        HTTP_WKHDR_MAX_FORMWARDS
 Proxy-Authorization, HTTP_WKHDR_PROXY_AUTHORIZATION
 Range,               HTTP_WKHDR_RANGE
 Referer,             HTTP_WKHDR_REFERER
@@ -105,7 +105,7 @@ char const * const http_whdr_str[HTTP_WKHDR__MAX] = {
     H(IF_NONE_MATCH,       "If-None-Match"),
     H(IF_RANGE,            "If-Range"),
     H(IF_UNMODIFIED_SINCE, "If-Unmodified-Since"),
-    H(MAX_FORMWARDS,       "Max-Formwards"),
+    H(MAX_FORMWARDS,       "Max-Forwards"),
     H(PROXY_AUTHORIZATION, "Proxy-Authorization"),
     H(RANGE,               "Range"),
     H(REFERER,             "Referer"),
-- 
2.43.0


From c022bfaac8d719219eb79826b299d98954c31ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:26 +0000
Subject: [PATCH 06/26] fix: file-bin: report a failed slot header write

---
 src/core/file-bin.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index 1587d28..de527b4 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -651,9 +651,10 @@ static int file_bin_write_data(file_bin_t *f, const void *data, uint32_t len,
 
         if (is_at_slot_start(f)) {
             if (r_start) {
-                file_bin_write_slot_header(f, f->cur + SLOT_HDR_SIZE(f));
+                RETHROW(file_bin_write_slot_header(f, f->cur
+                                                   + SLOT_HDR_SIZE(f)));
             } else {
-                file_bin_write_slot_header(f, next_entry);
+                RETHROW(file_bin_write_slot_header(f, next_entry));
             }
         }
 
-- 
2.43.0


From 2557b7d7a066a14630870d9b1d9de93026b410ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:26 +0000
Subject: [PATCH 07/26] fix: prometheus: fail to start the server when no error
 buffer is given

---
 src/prometheus-client/http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/prometheus-client/http.c b/src/prometheus-client/http.c
index 3472df8..740153e 100644
--- a/src/prometheus-client/http.c
+++ b/src/prometheus-client/http.c
@@ -74,8 +74,8 @@ int prom_http_start_server(const core__httpd_cfg__t *cfg,
     if (_G.httpd) {
         if (err) {
             sb_addf(err, "server is already running");
-            return -1;
         }
+        return -1;
     }
 
     /* Resolve address */
@@ -90,8 +90,8 @@ int prom_http_start_server(const core__httpd_cfg__t *cfg,
         if (err) {
             sb_addf(err, "cannot bind HTTP server on %*pM",
                     LSTR_FMT_ARG(addr));
-            return -1;
         }
+        return -1;
     }
 
     if (_G.listen_port == 0) {
-- 
2.43.0


From 7b891364ae41e7b2df298e1c9df90bbb90cf2974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:26 +0000
Subject: [PATCH 08/26] fix: iopc-dso: do not use an uninitialized status when
 waitpid fails

---
 src/iopc/iopc-dso.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iopc/iopc-dso.c b/src/iopc/iopc-dso.c
index fe34b1c..c43986c 100644
--- a/src/iopc/iopc-dso.c
+++ b/src/iopc/iopc-dso.c
@@ -58,7 +58,11 @@ static int do_call(char * const argv[], sb_t *err)
         int status;
 
         if (waitpid(pid, &status, 0) < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
             sb_setf(err, "waitpid: %m");
+            return -1;
         }
         if (WIFEXITED(status)) {
             int exit_status = WEXITSTATUS(status);
-- 
2.43.0


From 907c5e1e8af26bf07e263dc7a072d60e6d7a0ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:26 +0000
Subject: [PATCH 09/26] fix: asn1 per: report a failure to encode an open type
 or extension

---
 src/asn1/per.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/asn1/per.c b/src/asn1/per.c
index 19a51ee..505d928 100644
--- a/src/asn1/per.c
+++ b/src/asn1/per.c
@@ -743,14 +743,17 @@ aper_encode_field(bb_t *bb, const void *v, const asn1_field_t *field)
         bb_t    buf;
 
         bb_inita(&buf, field->open_type_buf_len);
-        aper_encode_value(&buf, v, field);
+        res = aper_encode_value(&buf, v, field);
 
-        if (!buf.len) {
-            bb_be_add_byte(&buf, 0);
-        }
+        if (res >= 0) {
+            if (!buf.len) {
+                bb_be_add_byte(&buf, 0);
+            }
 
-        os = LSTR_INIT_V((const char *)buf.bytes, DIV_ROUND_UP(buf.len, 8));
-        res = aper_encode_octet_string(bb, os, NULL);
+            os = LSTR_INIT_V((const char *)buf.bytes,
+                             DIV_ROUND_UP(buf.len, 8));
+            res = aper_encode_octet_string(bb, os, NULL);
+        }
         bb_wipe(&buf);
     } else {
         res = aper_encode_value(bb, v, field);
-- 
2.43.0


From 2a6590f4fc4b84d776ee6160867d77a2f61ae718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:28 +0000
Subject: [PATCH 10/26] fix: yaml: report that the contents of a subfile could
 not be written

---
 src/core/yaml.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 99be2b5..a833318 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -4842,10 +4842,14 @@ yaml_pack_write_raw_file(const yaml_pack_env_t * nonnull env,
 
     if (file_write(file, contents.s, contents.len) < 0) {
         sb_setf(err, "cannot write in output file: %m");
+        IGNORE(file_close(&file));
         return -1;
     }
 
-    IGNORE(file_close(&file));
+    if (file_close(&file) < 0) {
+        sb_setf(err, "cannot close output file `%s`: %m", fullpath);
+        return -1;
+    }
     return 0;
 }
 
-- 
2.43.0


From 922fec600e6e5100fb62bc33834434ae18d2187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 11/26] fix: hpack: do not read past the end of a truncated
 header block

---
 src/net/hpack.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 33b71f9..22583d4 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -954,6 +954,9 @@ int hpack_decoder_extract_hdr(hpack_dec_dtbl_t *dtbl, pstream_t *in,
     if (!idx) {
         /* New Name (key) */
         flags |= XHDR_NEW_KEY;
+        if (ps_done(in)) {
+            return LOGE("unexpected end of the header block");
+        }
         flags = in->b[0] < 0x80 ? flags | XHDR_RAW_KEY : flags;
         if (hpack_decode_int(in, 7, &len)) {
             return LOGE("unable to decode the key length");
@@ -978,6 +981,9 @@ int hpack_decoder_extract_hdr(hpack_dec_dtbl_t *dtbl, pstream_t *in,
     }
     if (new_val) {
         flags |= XHDR_NEW_VAL;
+        if (ps_done(in)) {
+            return LOGE("unexpected end of the header block");
+        }
         flags = in->b[0] < 0x80 ? flags | XHDR_RAW_VAL : flags;
         if (hpack_decode_int(in, 7, &len)) {
             return LOGE("unable to decode the value length");
-- 
2.43.0


From d99e22e2be23b61bf546bd2d4276e5181474b74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 12/26] fix: hpack: size the output of a compressed value from
 its own encoding

The bound of the decoded length tested the flag of the key, a huffman
encoded value after a raw key was given a too small room.
---
 src/net/hpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 22583d4..8a8050c 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -993,7 +993,7 @@ int hpack_decoder_extract_hdr(hpack_dec_dtbl_t *dtbl, pstream_t *in,
         }
         val = __ps_get_ps(in, len);
         /* XXX: huffman encoding maximum compression ratio: 5/8 */
-        vallen = (flags & XHDR_RAW_KEY) ? len : 2u * len;
+        vallen = (flags & XHDR_RAW_VAL) ? len : 2u * len;
     }
     if (add_dtbl) {
         flags |= XHDR_ADD_DTBL;
-- 
2.43.0


From d6f53295f4cc4c7f0a339a63ea36c733bd03f550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 13/26] fix: datetime: do not read past the end of a timezone
 with only a sign

---
 src/core/datetime-iso8601.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/datetime-iso8601.c b/src/core/datetime-iso8601.c
index 2e23380..1b2c1da 100644
--- a/src/core/datetime-iso8601.c
+++ b/src/core/datetime-iso8601.c
@@ -69,7 +69,7 @@ static int time_parse_timezone(pstream_t *ps, int *tz_h, int *tz_m)
         PS_WANT(sgn == '+' || sgn == '-');
 
         errno = 0;
-        PS_WANT(isdigit(ps->b[0]));
+        PS_WANT(ps_has(ps, 1) && isdigit(ps->b[0]));
         if (ps_len(ps) == 5) {
             *tz_h = ps_geti(ps);
             PS_WANT(errno == 0 && ps_len(ps) == 3);
-- 
2.43.0


From c1cda180b6100f5a9a6df5c7f2c105dd5f94d8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 14/26] fix: str-stream: do not look for a separator past the
 end in ps_split_escaped

---
 src/core/str-stream.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/str-stream.c b/src/core/str-stream.c
index e69aa2f..28401e9 100644
--- a/src/core/str-stream.c
+++ b/src/core/str-stream.c
@@ -180,6 +180,9 @@ void ps_split_escaped(mem_pool_t *nullable mp, pstream_t ps,
         tmp = ps_get_cspan(&ps, &sep_esc);
         sb_add(&sb, tmp.s, tmp.s_end - tmp.s);
 
+        if (ps_done(&ps)) {
+            break;
+        }
         if (ctype_desc_contains(sep, *ps.s)) {
             if (mp) {
                 qv_append(res, mp_lstr_dup(mp, LSTR_SB_V(&sb)));
-- 
2.43.0


From 71e4a519398e8f315fc9f87227d00c4ac1e0f70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:33 +0000
Subject: [PATCH 15/26] fix: str-stream: allocate the last chunk of
 ps_split_escaped as the others

It was put on the t_stack whatever the pool given by the caller.
---
 src/core/str-stream.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/str-stream.c b/src/core/str-stream.c
index 28401e9..53bf9b9 100644
--- a/src/core/str-stream.c
+++ b/src/core/str-stream.c
@@ -222,6 +222,13 @@ void ps_split_escaped(mem_pool_t *nullable mp, pstream_t ps,
     if (!(flags & PS_SPLIT_SKIP_EMPTY)  /* last character is a separator */
     ||  (sb.len != 0))                  /* last character is an escape */
     {
-        qv_append(res, t_lstr_dup(LSTR_SB_V(&sb)));
+        if (mp) {
+            qv_append(res, mp_lstr_dup(mp, LSTR_SB_V(&sb)));
+        } else {
+            lstr_t dst = LSTR_NULL;
+
+            lstr_transfer_sb(&dst, &sb, false);
+            qv_append(res, dst);
+        }
     }
 }
-- 
2.43.0


From 4849ecdf2954e15524befa5b4544257b8e18cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:33 +0000
Subject: [PATCH 16/26] fix: asn1: reject a BER bit string that has no content

---
 src/asn1/writer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1/writer.c b/src/asn1/writer.c
index a8146f9..33a3693 100644
--- a/src/asn1/writer.c
+++ b/src/asn1/writer.c
@@ -1133,6 +1133,10 @@ static int asn1_unpack_value(pstream_t *ps, const asn1_field_t *spec,
         e_trace_hex(4, "value:", field_ps.s, (int)ps_len(&field_ps));
         break;
       case ASN1_OBJ_TYPE(asn1_bit_string_t):
+        if (ps_done(&field_ps)) {
+            e_trace(1, "error: bit string with no content");
+            return -1;
+        }
         if (copy) {
             ((asn1_bit_string_t *)dt)->data = mp_dup(mem_pool, field_ps.b + 1,
                                                      ps_len(&field_ps) - 1);
-- 
2.43.0


From 53124dcc42a7b5919371701ceac441ce8be1c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:33 +0000
Subject: [PATCH 17/26] fix: http: do not read past the end of a truncated
 start line

---
 src/net/http.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/net/http.c b/src/net/http.c
index f062be5..391eac5 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -378,7 +378,7 @@ static int t_http_parse_request_line(pstream_t *ps, unsigned max_len,
         PS_CHECK(ps_get_ps_chr(&uri, '/', &req->host));
     } else {
         p_clear(&req->host, 1);
-        if (uri.s[0] != '/' && !ps_memequal(&uri, "*", 1)) {
+        if (ps_peekc(uri) != '/' && !ps_memequal(&uri, "*", 1)) {
             return PARSE_ERROR;
         }
     }
@@ -415,7 +415,9 @@ http_parse_status_line(pstream_t *ps, unsigned max_len, httpc_qinfo_t *qi)
         return PARSE_ERROR;
     }
     qi->http_version |= RETHROW(ps_get_ver(&line));
-    __ps_skip(&line, 1);
+    if (ps_skip(&line, 1) < 0) {
+        return PARSE_ERROR;
+    }
 
     if (ps_get_ps_chr(&line, ' ', &code) || ps_len(&code) != 3) {
         return PARSE_ERROR;
-- 
2.43.0


From 0aa69d91fcceeb3501c15a3a951507d42c28dc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:33 +0000
Subject: [PATCH 18/26] fix: iop: reject a packed string without its
 terminating byte

Its length would have been -1.
---
 src/iop/iop.blk | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index 7ab0795..9719116 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -4853,6 +4853,7 @@ static int unpack_value(mem_pool_t *mp, iop_wire_type_t wt,
           case IOP_T_STRING:
           case IOP_T_DATA:
           case IOP_T_XML:
+            PS_WANT(u32 >= 1);
             *(lstr_t *)v = LSTR_INIT_V(((flags & IOP_UNPACK_COPY_STRINGS)
                                         ? mp_dup(mp, ps->s, u32)
                                         : ps->p), u32 - 1);
-- 
2.43.0


From 537773dd55b2df2cb506b8d3fc8e7b444d527d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:33 +0000
Subject: [PATCH 19/26] fix: iop: check the number of values of a packed array
 against the input

The size of the array, computed on 32 bits, could wrap and the values be
written past the end of the allocated memory.
---
 src/iop/iop.blk | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index 9719116..8931af8 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -4992,6 +4992,8 @@ unpack_struct(mem_pool_t *mp, const iop_struct_t *desc, void *value,
             PS_WANT(n >= 1);
             PS_WANT(ps_has(ps, 1) && IOP_TAG(ps->b[0]) == 0);
             wt = IOP_WIRE_FMT(__ps_getc(ps));
+            /* Each value but the first one takes at least its tag. */
+            PS_WANT(ps_has(ps, n - 1));
         }
 
         v = (char *)value + fdesc->data_offs;
@@ -5042,7 +5044,8 @@ unpack_struct(mem_pool_t *mp, const iop_struct_t *desc, void *value,
 
           unpack_array:
             data->len  = n;
-            data->data = v = mp_imalloc(mp, n * fdesc->size, 8, MEM_RAW);
+            data->data = v = mp_imalloc(mp, (size_t)n * fdesc->size, 8,
+                                        MEM_RAW);
 
             while (n-- > 1) {
                 if (unpack_value(mp, wt, fdesc, v, ps, flags) < 0) {
-- 
2.43.0


From 4b5721cfd9497ed2b56c4fe9118a1d448e63ec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:33 +0000
Subject: [PATCH 20/26] fix: iop-json: do not read past the end of the input in
 the lexer

---
 src/iop/json.blk | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/iop/json.blk b/src/iop/json.blk
index ec56be6..1bd8b2b 100644
--- a/src/iop/json.blk
+++ b/src/iop/json.blk
@@ -505,7 +505,7 @@ static int iop_json_lex_expr(iop_json_lex_t *ll, const iop_field_t *fdesc)
             if (EATC() == '\n')
                 NEWLINE();
         }
-        switch (c = READC()) {
+        switch (c = ps_done(PS) ? '\0' : READC()) {
 
           case '<': case '>':
             SKIP(1);
@@ -660,7 +660,7 @@ static int iop_json_lex_char(iop_json_lex_t *ll, int terminator)
             break;
         }
         SKIP(2);
-        if (READC() != terminator) {
+        if (ps_done(PS) || READC() != terminator) {
             return RJERROR_WARG(IOP_JERR_EXP_SMTH);
         }
         SKIP(1);
@@ -753,7 +753,7 @@ static int iop_json_lex(iop_json_lex_t *ll, const iop_field_t *fdesc)
                 return EATC();
 
       case 'c': /* string character prefix */
-                c = READAT(1);
+                c = HAS(2) ? READAT(1) : 0;
                 if (c == '\'' || c == '"') {
                     SKIP(2);
                     return iop_json_lex_char(ll, c);
@@ -1028,6 +1028,9 @@ static int unpack_val_file_inclusion(iop_json_lex_t *ll,
 
     SKIP(strlen("include("));
 
+    if (!HAS(1)) {
+        return JERROR_WARG(IOP_JERR_EXP_SMTH, 0);
+    }
     switch (READC()) {
       case '\'': case '"':
         STORECTX();
-- 
2.43.0


From 5eeaa7521a3a1035b8a4b43690cec67d2ece3d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:34 +0000
Subject: [PATCH 21/26] fix: iop: refuse divisions and modulos that trap in
 constant expressions

---
 src/iop/cfolder.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/iop/cfolder.c b/src/iop/cfolder.c
index 4571616..6ca1a25 100644
--- a/src/iop/cfolder.c
+++ b/src/iop/cfolder.c
@@ -178,8 +178,8 @@ static int cf_reduce(qv_t(cf_elem) *stack)
         if (!eright.num) {
             return e_error("invalid division by 0");
         }
-        if (eleft.is_signed && eleft.num == (uint64_t)INT64_MIN
-        &&  eright.is_signed && eright.num == (uint64_t)-1)
+        if ((eleft.is_signed || eright.is_signed)
+        &&  eleft.num == (uint64_t)INT64_MIN && eright.num == (uint64_t)-1)
         {
             return e_error("division overflow");
         }
@@ -196,6 +196,11 @@ static int cf_reduce(qv_t(cf_elem) *stack)
         if (!eright.num) {
             return e_error("invalid modulo by 0");
         }
+        if ((eleft.is_signed || eright.is_signed)
+        &&  eleft.num == (uint64_t)INT64_MIN && eright.num == (uint64_t)-1)
+        {
+            return e_error("modulo overflow");
+        }
         res.is_signed = eleft.is_signed ^ eright.is_signed;
         if (eleft.is_signed || eright.is_signed) {
             res.num = SIGNED(eleft.num) % SIGNED(eright.num);
-- 
2.43.0


From 4568487e9191c3ff90dad3a7ccacae181646f63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:33 +0000
Subject: [PATCH 22/26] fix: http: refuse chunks whose length does not fit the
 counter

---
 src/net/http.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/net/http.c b/src/net/http.c
index 391eac5..a5f9320 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1520,6 +1520,10 @@ static int httpd_parse_chunk_hdr(httpd_t *w, pstream_t *ps)
     }
     for (const char *s = hex.s; s < hex.s_end; s++)
         len = (len << 4) | __str_digit_value[*s + 128];
+    /* the chunk and its CRLF are counted with an int */
+    if (unlikely(len > INT_MAX - 2)) {
+        goto cancel_query;
+    }
     w->chunk_length = len;
     w->state = len ? HTTP_PARSER_CHUNK : HTTP_PARSER_CHUNK_TRAILER;
     q->received_body_length += ps->s - orig;
@@ -2613,6 +2617,10 @@ static int httpc_parse_chunk_hdr(httpc_t *w, pstream_t *ps)
     }
     for (const char *s = hex.s; s < hex.s_end; s++)
         len = (len << 4) | __str_digit_value[*s + 128];
+    /* the chunk and its CRLF are counted with an int */
+    if (unlikely(len > INT_MAX - 2)) {
+        return PARSE_ERROR;
+    }
     w->chunk_length = len;
     w->state = len ? HTTP_PARSER_CHUNK : HTTP_PARSER_CHUNK_TRAILER;
     q->received_body_length += ps->s - orig;
-- 
2.43.0


From 7903d54e4fba5b01a7f0c368bd928909dc2e909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:59 +0000
Subject: [PATCH 23/26] fix: iop json: release the class parents and sub-files
 tables on errors

pack_txt() leaked the vector of parents (allocated when a class has more
than 8 ancestors) when the writer fails, and __iop_jpack_file() leaked the
tables of sub-files when they are invalid or when the output file cannot be
opened.
---
 src/iop/json.blk | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/iop/json.blk b/src/iop/json.blk
index 1bd8b2b..5c7aef5 100644
--- a/src/iop/json.blk
+++ b/src/iop/json.blk
@@ -2850,8 +2850,14 @@ pack_txt(const iop_struct_t *desc, const void *value, int lvl,
 
         /* Write fields of different levels */
         for (int pos = parents.len; pos-- > 0; ) {
-            res += RETHROW(__pack_txt(parents.tab[pos], value, lvl, writecb,
-                                      priv, flags, file_ctx, &first));
+            int len = __pack_txt(parents.tab[pos], value, lvl, writecb,
+                                 priv, flags, file_ctx, &first);
+
+            if (len < 0) {
+                qv_wipe(&parents);
+                return len;
+            }
+            res += len;
         }
         qv_wipe(&parents);
 
@@ -3021,7 +3027,10 @@ int __iop_jpack_file(const char *filename, unsigned file_flags,
         char path[PATH_MAX];
 
         ctx.has_sub_files = true;
-        RETHROW(init_jpack_sub_files(st, value, subfiles, &ctx, err));
+        if (init_jpack_sub_files(st, value, subfiles, &ctx, err) < 0) {
+            res = -1;
+            goto end;
+        }
         path_expand(path, sizeof(path), filename);
         path_dirname(ctx.file_dir, sizeof(ctx.file_dir), path);
     }
@@ -3030,7 +3039,8 @@ int __iop_jpack_file(const char *filename, unsigned file_flags,
         if (err) {
             sb_addf(err, "cannot open output file `%s`: %m", filename);
         }
-        return -1;
+        res = -1;
+        goto end;
     }
 
     res = iop_jpack_file_priv(filename, st, value, flags, &ctx);
@@ -3045,6 +3055,7 @@ int __iop_jpack_file(const char *filename, unsigned file_flags,
         }
     }
 
+  end:
     if (ctx.has_sub_files) {
         qm_deep_wipe(iop_jpack_subfile_value, &ctx.subfiles_values, lstr_wipe,
                      IGNORE);
-- 
2.43.0


From 443d2ccab756fd58ad4910f2e8ab042b17873cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:21 +0000
Subject: [PATCH 24/26] fix: iopc: release the vectors of a structure on errors

parse_struct() returned without wiping its vectors when the trailing
comments are invalid, and so did iopc_struct_dump_src() when the attributes
of a field cannot be dumped.
---
 src/iopc/iopc-lang-c.blk | 6 +++++-
 src/iopc/iopc-parser.c   | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/iopc/iopc-lang-c.blk b/src/iopc/iopc-lang-c.blk
index 6f53327..bb60509 100644
--- a/src/iopc/iopc-lang-c.blk
+++ b/src/iopc/iopc-lang-c.blk
@@ -3405,7 +3405,11 @@ iopc_struct_dump_src(sb_t *buf, const iopc_pkg_t *pkg,
 
             iopc_attrs_init(&attrs);
 
-            RETHROW(iopc_dump_field_attrs(buf, st, tbase, field, &attrs));
+            if (iopc_dump_field_attrs(buf, st, tbase, field, &attrs) < 0) {
+                iopc_attrs_wipe(&attrs);
+                qv_deep_wipe(&fields_attrs, iopc_attrs_wipe);
+                return -1;
+            }
             if (attrs.checkf_name.len || attrs.flags) {
                 st->has_fields_attrs = true;
             }
diff --git a/src/iopc/iopc-parser.c b/src/iopc/iopc-parser.c
index df64829..c464521 100644
--- a/src/iopc/iopc-parser.c
+++ b/src/iopc/iopc-parser.c
@@ -2313,8 +2313,11 @@ static int parse_struct(iopc_parser_t *pp, iopc_struct_t *st, int sep,
         } else {
             f->field_pos = next_field_pos++;
         }
-        RETHROW(read_dox_back(pp, &chunks, sep));
-        RETHROW(build_dox_check_all(&chunks, f));
+        if (read_dox_back(pp, &chunks, sep) < 0
+        ||  build_dox_check_all(&chunks, f) < 0)
+        {
+            goto error;
+        }
 
         if (iopc_is_snmp_st(st->type)
         &&  check_snmp_brief(f->comments, f->loc, f->name, "field") < 0)
-- 
2.43.0


From 5e445dbebe2e8629cd06a747dc176a9e2e6643fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:14 +0000
Subject: [PATCH 25/26] fix: iop dso: release the new environment when parent
 classes are missing

---
 src/iop/dso.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iop/dso.c b/src/iop/dso.c
index 52518d7..84ce27d 100644
--- a/src/iop/dso.c
+++ b/src/iop/dso.c
@@ -445,7 +445,10 @@ static int iop_dso_register_(iop_dso_t *dso, sb_t *err)
                 return -1;
             }
         }
-        RETHROW(iop_check_registered_classes(&env, err));
+        if (iop_check_registered_classes(&env, err) < 0) {
+            iop_env_wipe(&env);
+            return -1;
+        }
         iop_env_set(&env);
         dso->is_registered = true;
     }
-- 
2.43.0


From e5fee05b62b7274f351c0bfb936c130009400eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:44 +0000
Subject: [PATCH 26/26] fix: obj: find the reference of a scope by its file,
 not its function

---
 src/core/obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/obj.c b/src/core/obj.c
index 441a4c7..6931020 100644
--- a/src/core/obj.c
+++ b/src/core/obj.c
@@ -246,7 +246,7 @@ object_t *nonnull
 {
     obj_tagged_ref_t *ref;
 
-    ref = obj_find_scope_ref(obj, func, line);
+    ref = obj_find_scope_ref(obj, file, line);
     if (!ref) {
         ref = obj_add_tagged_ref(obj, NULL, func, file, line);
     }
-- 
2.43.0

