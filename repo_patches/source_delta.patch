From 38d52f7498a9a68219e211ff336998847e7ea144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 01/23] fix: str_copy2..5/str_append2 wrote the terminator one
 byte behind a full buffer

---
 src/common/misc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/misc.c b/src/common/misc.c
index 7d63a93..d5c7b13 100644
--- a/src/common/misc.c
+++ b/src/common/misc.c
@@ -168,7 +168,7 @@ char *str_append2(char *d, size_t n, char *s1, char *s2)
     for (p = s2; *p && sz < n; p++, sz++)
         d[sz] = *p;
 
-    d[sz++] = 0;
+    d[sz < n ? sz : n - 1] = 0;
 
     return d;
 }
@@ -184,7 +184,7 @@ char *str_copy2(char *d, size_t n, char *s1, char *s2)
     for (p = s2; *p && i < n; p++, i++)
         d[i] = *p;
 
-    d[i++] = 0;
+    d[i < n ? i : n - 1] = 0;
 
     return d;
 }
@@ -204,7 +204,7 @@ char *str_copy3(char *d, size_t n, char *s1, char *s2, char *s3)
     for (p = s3; *p && i < n; p++, i++)
         d[i] = *p;
 
-    d[i++] = 0;
+    d[i < n ? i : n - 1] = 0;
 
     return d;
 }
@@ -226,7 +226,7 @@ char *str_copy4(char *d, size_t n, char *s1, char *s2, char *s3, char *s4)
     for (p = s4; *p && i < n; p++, i++)
         d[i] = *p;
 
-    d[i++] = 0;
+    d[i < n ? i : n - 1] = 0;
 
     return d;
 }
@@ -252,7 +252,7 @@ char *str_copy5(char *d, size_t n, char *s1, char *s2, char *s3, char *s4,
     for (p = s5; *p && i < n; p++, i++)
         d[i] = *p;
 
-    d[i++] = 0;
+    d[i < n ? i : n - 1] = 0;
 
     return d;
 }
-- 
2.43.0


From c3b590fb30a32bb1a54f8783229cf1888e7f4b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 02/23] fix: strip_crlf accessed the byte before an empty line

---
 src/common/misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/misc.c b/src/common/misc.c
index d5c7b13..37b10ef 100644
--- a/src/common/misc.c
+++ b/src/common/misc.c
@@ -322,11 +322,11 @@ void strip_crlf(char *line)
         return;
 
     len = strlen(line);
-    if (line[len - 1] == '\n')
+    if (len > 0 && line[len - 1] == '\n')
         line[len - 1] = 0;
 
     len = strlen(line);
-    if (line[len - 1] == '\r')
+    if (len > 0 && line[len - 1] == '\r')
         line[len - 1] = 0;
 }
 
-- 
2.43.0


From 5e3b8de513f8806c72e6a5f2ae7359c9c62a9b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 03/23] fix: tl_addtl_move left the list's tail pointer behind,
 losing lines appended later

---
 src/common/textlist.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/textlist.c b/src/common/textlist.c
index bc13e0f..677fb62 100644
--- a/src/common/textlist.c
+++ b/src/common/textlist.c
@@ -235,6 +235,10 @@ void tl_addtl_move(Textlist *d, Textlist *s)
         *d = *s;
     else {
         d->last->next = s->first;
+        if (s->first) {
+            s->first->prev = d->last;
+            d->last = s->last;
+        }
         d->n += s->n;
     }
     tl_init(s);
-- 
2.43.0


From 9ea7d4bfbfdbd5398349cacb325f622a158270a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 04/23] fix: node_to_asc_diff printed nothing for a boss node
 following its own point

---
 src/common/node.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/node.c b/src/common/node.c
index e33d2a9..67b6311 100644
--- a/src/common/node.c
+++ b/src/common/node.c
@@ -253,6 +253,8 @@ char *node_to_asc_diff(Node * node, Node * oldnode)
             if (node->node == oldnode->node) {
                 if (node->point != 0)
                     str_printf(buf, sizeof(buf), ".%d", node->point);
+                else if (oldnode->point != 0)   /* boss after its point */
+                    str_printf(buf, sizeof(buf), "%d", node->node);
             } else
                 str_printf(buf, sizeof(buf), node->point ? "%d.%d" : "%d",
                            node->node, node->point);
-- 
2.43.0


From 75b33106f72f348c1ab8b90c85428a3fcd9a8959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 05/23] fix: FTN addresses with numbers beyond 16 bit were
 accepted as other addresses

---
 src/common/parsenode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/parsenode.c b/src/common/parsenode.c
index 5874116..4147e6a 100644
--- a/src/common/parsenode.c
+++ b/src/common/parsenode.c
@@ -48,8 +48,11 @@ int znfp_get_number(char **ps)
     } else if (!is_digit(*s))
         return ERROR;
     else
-        while (is_digit(*s))
+        while (is_digit(*s)) {
             val = val * 10 + *s++ - '0';
+            if (val > 0xffff)   /* address fields are 16 bit */
+                return ERROR;
+        }
 
     *ps = s;
 
-- 
2.43.0


From e99088a32e39db51df02c4fadb1a2f4d488bbb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:10 +0000
Subject: [PATCH 06/23] fix: pkt_get_string left a string of exactly nbytes - 1
 characters unterminated

---
 src/common/packet.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/common/packet.c b/src/common/packet.c
index 823a22c..a8b6be4 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -418,13 +418,9 @@ size_t pkt_get_string(FILE * fp, char *buf, size_t nbytes)
             buf[i] = c;
             continue;
         }
-
-        if (i == nbytes - 1)
-            buf[i] = '\0';
     }
 
-    if (i < nbytes - 1)
-        buf[i] = '\0';
+    buf[i < nbytes - 1 ? i : nbytes - 1] = '\0';
 
     i += (c != EOF);            /* EOF means the byte was not actually read */
     return i;
-- 
2.43.0


From c51ca5912e6363eb428b1b8192ad4bc88051697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 07/23] fix: pkt_put_hdr callers did not notice failed writes
 (ferror() is not ERROR)

---
 src/common/packet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/packet.c b/src/common/packet.c
index a8b6be4..a4255a8 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -1025,7 +1025,7 @@ int pkt_put_hdr_raw(FILE * fp, Packet * pkt)
     for (i = 0; i < sizeof(pkt->psd); i++)
         putc(pkt->psd[i], fp);
 
-    return ferror(fp);
+    return ferror(fp) ? ERROR : OK;
 }
 
 /*
-- 
2.43.0


From 05144b7c9d5c9f8bb0a491fb5037139496bf335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 08/23] fix: pkt_close published packets whose data was not
 written completely

---
 src/common/packet.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/common/packet.c b/src/common/packet.c
index a4255a8..572a768 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -333,6 +333,9 @@ static FILE *pkt_create(Node * to)
     /* Rest is filled in by pkt_put_hdr() */
     if (pkt_put_hdr(packet_file, &pkt) == ERROR) {
         fglog("$ERROR: can't write to packet file %s", packet_tmp);
+        fclose(packet_file);
+        packet_file = NULL;
+        unlink(packet_tmp);
         return NULL;
     }
 
@@ -374,7 +377,10 @@ int pkt_close(void)
     if (packet_file) {
         /* End of packet */
         pkt_put_int16(packet_file, 0);
-        ret = fclose(packet_file);
+        if (ferror(packet_file))
+            ret = ERROR;
+        if (fclose(packet_file) != 0)
+            ret = ERROR;
 
         packet_file = NULL;
 
@@ -385,6 +391,12 @@ int pkt_close(void)
             packet_node.zone = -1;
         }
 
+        if (ret == ERROR) {
+            /* Don't pass an incomplete packet on */
+            fglog("$ERROR: can't write to packet file %s", packet_tmp);
+            return ret;
+        }
+
         /* Rename .tmp -> .pkt, if not the same name */
         if (strcmp(packet_tmp, packet_name))
             if (rename(packet_tmp, packet_name) == ERROR) {
-- 
2.43.0


From 2ad91cd6eeaee35c5e1a98717153b26b0441ae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 09/23] fix: outpkt_close published packets whose data was not
 written completely

---
 src/common/outpkt.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/common/outpkt.c b/src/common/outpkt.c
index 7641bb6..fc59821 100644
--- a/src/common/outpkt.c
+++ b/src/common/outpkt.c
@@ -43,6 +43,7 @@ typedef struct st_outpkt {
     char type;                  /* N=NetMail, E=EchoMail */
     char grade;                 /* N=Normal, ... */
     char bad;                   /* TRUE=bad packet, FALSE=normal packet */
+    char failed;                /* TRUE=data lost, don't pass packet on */
     FILE *fp;                   /* FILE pointer, if opened */
     long n;                     /* Number of messages written to packet */
 
@@ -79,6 +80,7 @@ OutPkt *outpkt_new(Node * from, Node * to)
     p->type = 0;
     p->grade = 0;
     p->bad = FALSE;
+    p->failed = FALSE;
     p->fp = NULL;
     p->n = 1;
     p->next = NULL;
@@ -168,8 +170,12 @@ static int outpkt_close_ln(void)
     /* Close it */
     if (pmin) {
         debug(3, "Close %s", pmin->tmpname);
-        if (fclose(pmin->fp) == ERROR)
+        if (ferror(pmin->fp))
+            pmin->failed = TRUE;
+        if (fclose(pmin->fp) == ERROR) {
+            pmin->failed = TRUE;
             ret = ERROR;
+        }
         outpkt_nopen--;
         pmin->fp = NULL;
     } else
@@ -221,6 +227,8 @@ FILE *outpkt_open(Node * from, Node * to,
         if (node_eq(from, &p->from) && node_eq(to, &p->to) &&
             flav == p->flav && type == p->type && grade == p->grade
             && bad == p->bad) {
+            if (p->failed)
+                return NULL;
             p->n++;
             /* If file exists, but isn't currently opened, reopen it */
             if (!p->fp)
@@ -238,6 +246,7 @@ FILE *outpkt_open(Node * from, Node * to,
     p->fp = outpkt_fopen(p->tmpname, W_MODE);
     if (p->fp == NULL) {
         fglog("$failed to open packet %s", p->tmpname);
+        p->failed = TRUE;
         return NULL;
     }
 
@@ -255,7 +264,9 @@ FILE *outpkt_open(Node * from, Node * to,
     if (pkt_put_hdr(p->fp, &pkt) == ERROR) {
         fglog("$Can't write to packet file %s", p->tmpname);
         fclose(p->fp);
+        outpkt_nopen--;
         p->fp = NULL;
+        p->failed = TRUE;
         return NULL;
     }
 
@@ -274,22 +285,31 @@ void outpkt_close(void)
         pn = p->next;
 
         /* Reopen, if already closed */
-        if (!p->fp)
+        if (!p->fp && !p->failed)
             p->fp = outpkt_fopen(p->tmpname, A_MODE);
 
         if (p->fp) {
             /* Terminating 0-word */
             pkt_put_int16(p->fp, 0);
+            if (ferror(p->fp))
+                p->failed = TRUE;
             debug(3, "Close %s", p->tmpname);
-            if (fclose(p->fp) == ERROR)
+            if (fclose(p->fp) == ERROR) {
                 debug(3, "Close failed");
+                p->failed = TRUE;
+            }
 
             outpkt_nopen--;
 
-            /* Rename */
-            debug(3, "Rename %s -> %s", p->tmpname, p->outname);
-            if (rename(p->tmpname, p->outname) == ERROR)
-                debug(3, "Rename failed");
+            if (p->failed) {
+                /* Don't pass an incomplete packet on */
+                fglog("ERROR: can't write to packet file %s", p->tmpname);
+            } else {
+                /* Rename */
+                debug(3, "Rename %s -> %s", p->tmpname, p->outname);
+                if (rename(p->tmpname, p->outname) == ERROR)
+                    debug(3, "Rename failed");
+            }
         }
 
         /* Delete OutPkt entry */
-- 
2.43.0


From 49bbab37860b691d8d0fc04c942f64ff245b6c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:20 +0000
Subject: [PATCH 10/23] fix: SEEN-BY and PATH lines added to a message were not
 terminated

---
 src/common/message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index 1c8a3ff..4b5b14e 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -720,12 +720,12 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
         }
         if (body->seenby.n == 0) {
             debug(9, "WARNING: parsing echomail message: no SEEN-BY line!");
-            snprintf(buffer, sizeof(buffer), "SEEN-BY: %d/%d", to->net, to->node);
+            snprintf(buffer, sizeof(buffer), "SEEN-BY: %d/%d\r", to->net, to->node);
             tl_append(&body->seenby, buffer);
         }
         if (body->path.n == 0) {
             debug(9, "WARNING: parsing echomail message: no ^APATH line!");
-            snprintf(buffer, sizeof(buffer), "\001PATH: %d/%d", to->net, to->node);
+            snprintf(buffer, sizeof(buffer), "\001PATH: %d/%d\r", to->net, to->node);
             tl_append(&body->path, buffer);
         }
     }
-- 
2.43.0


From e3056289de463b99048abc97aaab750a22498ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:20 +0000
Subject: [PATCH 11/23] fix: pkt_get_body_parse lost the incomplete last line
 of a message or took it for the origin

---
 src/common/message.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index 4b5b14e..cb99dae 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -474,6 +474,31 @@ int msg_body_parse(Textlist * text, MsgBody * body)
 #define FOUND_ORIGIN		0x0002
 #define FOUND_TEARLINE		0x0004
 
+/*
+ * Read next line of message body into buffer. The incomplete last line, if
+ * any, is returned as an ordinary line, the end of the message with the
+ * next call.
+ */
+static int pkt_get_body_line(FILE * fp, int *end)
+{
+    int type;
+
+    if (*end != 1) {
+        buffer[0] = 0;
+        return *end;
+    }
+
+    type = pkt_get_line(fp, buffer, sizeof(buffer));
+    if ((type == MSG_END || type == MSG_TYPE) && buffer[0]) {
+        /* Make sure that this line is terminated by \r\n */
+        BUF_APPEND(buffer, "\r\n");
+        *end = type;
+        type = 1;
+    }
+
+    return type;
+}
+
 /*
  * Read text body from packet into Textlist & parse it.
  *
@@ -491,11 +516,12 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
     int line = 0;
     int ret = ERROR;
     int len;
+    int end = 1;
 
     msg_body_clear(body);
 
     /* Read lines and put into textlist */
-    while ((type = pkt_get_line(fp, buffer, sizeof(buffer))) == 1) {
+    while ((type = pkt_get_body_line(fp, &end)) == 1) {
         if (do_flag == HI_KLUDGE) {
             if (buffer[0] == '\001') {
                 tl_append(&body->kludge, buffer);
@@ -715,6 +741,8 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
             debug(9, "WARNING: no ' * Origin:' line!");
 #ifdef INSERT_ORIGIN
             sprintf(buffer, " * Origin: (%s)\r", znfp1(from));
+#else
+            buffer[0] = 0;
 #endif
             body->origin = strsave(buffer);
         }
@@ -730,8 +758,6 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
         }
     }
 
-    /* Put incomplete last line into textlist, if any */
-
     return ret;
 }
 
-- 
2.43.0


From 33d709254843dbbdc63ff03276aa569f418ad89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:45 +0000
Subject: [PATCH 12/23] fix: pkt_get_body_parse changed the order of quoted
 tear lines, origins and text

---
 src/common/message.c | 54 ++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index cb99dae..b5e41d8 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -473,6 +473,28 @@ int msg_body_parse(Textlist * text, MsgBody * body)
 #define FOUND_KLUDGE		0x0001
 #define FOUND_ORIGIN		0x0002
 #define FOUND_TEARLINE		0x0004
+#define FOUND_ORIGIN_1ST	0x0008  /* origin before tear line */
+
+/*
+ * Tear line and origin followed by text are part of the text, move them there
+ * in the order they were found.
+ */
+static int msg_body_control_to_text(MsgBody * body, int line)
+{
+    if (line & FOUND_ORIGIN_1ST)
+        tl_append(&body->body, body->origin);
+    if (line & FOUND_TEARLINE)
+        tl_append(&body->body, body->tear);
+    if ((line & FOUND_ORIGIN) && !(line & FOUND_ORIGIN_1ST))
+        tl_append(&body->body, body->origin);
+
+    xfree(body->tear);
+    body->tear = NULL;
+    xfree(body->origin);
+    body->origin = NULL;
+
+    return line & ~(FOUND_TEARLINE | FOUND_ORIGIN | FOUND_ORIGIN_1ST);
+}
 
 /*
  * Read next line of message body into buffer. The incomplete last line, if
@@ -604,7 +626,8 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "tearline: %s", buffer);
                 }
-                line |= FOUND_TEARLINE;
+                line |= (line & FOUND_ORIGIN) ?
+                    FOUND_TEARLINE | FOUND_ORIGIN_1ST : FOUND_TEARLINE;
                 continue;
             }
             if (!strncmp(buffer, " * Origin:", 10) && !body->origin) {
@@ -640,18 +663,9 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "body: %s", buffer);
                 }
-            } else if (line & FOUND_TEARLINE) {
-                tl_append(&body->body, body->tear);
-                tl_append(&body->body, buffer);
-                xfree(body->tear);
-                body->tear = NULL;
-                line &= ~FOUND_TEARLINE;
-            } else if (line & FOUND_ORIGIN) {
-                tl_append(&body->body, body->origin);
+            } else if (line & (FOUND_TEARLINE | FOUND_ORIGIN)) {
+                line = msg_body_control_to_text(body, line);
                 tl_append(&body->body, buffer);
-                xfree(body->origin);
-                body->origin = NULL;
-                line &= ~FOUND_ORIGIN;
             }
         } else if (do_flag == PARSE_BODY_ECHOMAIL) {
             if (!strncmp(buffer, "---", 3) &&
@@ -663,7 +677,8 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "tearline: %s", buffer);
                 }
-                line |= FOUND_TEARLINE;
+                line |= (line & FOUND_ORIGIN) ?
+                    FOUND_TEARLINE | FOUND_ORIGIN_1ST : FOUND_TEARLINE;
                 continue;
             }
             if (!strncmp(buffer, " * Origin:", 10) && !body->origin) {
@@ -709,18 +724,9 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "body: %s", buffer);
                 }
-            } else if (line & FOUND_TEARLINE) {
-                tl_append(&body->body, body->tear);
-                tl_append(&body->body, buffer);
-                xfree(body->tear);
-                body->tear = NULL;
-                line &= ~FOUND_TEARLINE;
-            } else if (line & FOUND_ORIGIN) {
-                tl_append(&body->body, body->origin);
+            } else if (line & (FOUND_TEARLINE | FOUND_ORIGIN)) {
+                line = msg_body_control_to_text(body, line);
                 tl_append(&body->body, buffer);
-                xfree(body->origin);
-                body->origin = NULL;
-                line &= ~FOUND_ORIGIN;
             }
         }
     }
-- 
2.43.0


From 03dd0162eae1031f6cb979aa9f0b1df005adbc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 13/23] fix: ftntoss AddToSeenBy never added any node

do_seenby() without a list of passive nodes added nothing.
---
 src/toss/ftntoss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index eb62f91..061ff87 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -570,7 +570,7 @@ void do_seenby(LON * seenby, LON * nodes, LON * new, LON * passive, int cup,
             if (j < cup || node_eq(from, &p->node))
                 continue;
 
-            if ((NULL != passive) && !lon_search(passive, &(p->node))) {
+            if (passive == NULL || !lon_search(passive, &(p->node))) {
                 lon_add(seenby, &p->node);
                 if (new)
                     lon_add(new, &p->node);
-- 
2.43.0


From 5df1395c7b12324e4bf4ed18aa9add446469e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 14/23] fix: ftntoss DeletePath used the DeleteSeenBy list

Without DeleteSeenBy in the configuration this was a NULL pointer access.
---
 src/toss/ftntoss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 061ff87..ebb101a 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -696,7 +696,7 @@ void do_deletepath(LON * path)
     LNode *p;
     LON *ln;
 
-    ln = &deleteseenby_first->deleteseenby;
+    ln = &deletepath_first->deletepath;
 
     lon_debug(9, "do_deletepath(): List of PATH for removing: ", ln, FALSE);
 
-- 
2.43.0


From 3310ac9952ed5a265c33d25ced4ebdb074fb3bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 15/23] fix: ftntoss rewrite of a destination address changed
 the sender address

---
 src/toss/ftntoss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index ebb101a..dbf8729 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -1255,7 +1255,7 @@ void do_rewrite(Message * msg)
                 fglog("rewrite(to): %s @ %s -> %s", msg->name_from,
                       znfp1(&msg->node_from), znfp2(&r->to));
 
-                change_addr(&msg->node_from, &r->to);
+                change_addr(&msg->node_to, &r->to);
                 break;
             }
     }
-- 
2.43.0


From 23b308be19fd5401a0e5c37cec74ba7de897a19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 16/23] fix: ftntoss lost messages to unknown areas when saving
 them failed

---
 src/toss/ftntoss.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index dbf8729..99ce678 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -803,15 +803,13 @@ int do_echomail(Packet * pkt, Message * msg, MsgBody * body)
                 ("node %s not authorized to create area %s (config restriction)",
                  znfp1(&msg->node_from), areaname);
             /* Unknown area */
-            do_unknown_area(areaname, msg, body);
-            return OK;
+            return do_unknown_area(areaname, msg, body);
         }
 
         if (areafix_check_forbidden_area(areaname)) {
             fglog("area %s is forbidden to create", areaname);
             /* Unknown area */
-            do_unknown_area(areaname, msg, body);
-            return OK;
+            return do_unknown_area(areaname, msg, body);
         }
 
         if (!int_uplinks) {
@@ -828,15 +826,13 @@ int do_echomail(Packet * pkt, Message * msg, MsgBody * body)
         if (OK != cmd_new_int(&msg->node_from, autocreate_cmd, NULL)) {
             fglog("can't create area %s from %s (cmd_new() returned ERROR)",
                   areaname, znfp1(&msg->node_from));
-            do_unknown_area(areaname, msg, body);
-            return OK;
+            return do_unknown_area(areaname, msg, body);
         }
 
         if (NULL == (area = areasbbs_lookup(areaname))) {
             fglog("can't create area %s from %s (not found after creation)",
                   areaname, znfp1(&msg->node_from));
-            do_unknown_area(areaname, msg, body);
-            return OK;
+            return do_unknown_area(areaname, msg, body);
         }
 
         fglog("created area %s from %s", areaname, znfp1(&msg->node_from));
-- 
2.43.0


From 23fa3797ce495d6e580728018de26e64915df2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 17/23] fix: ftntoss did not notice output packets that could
 not be closed

outpkt_close() now reports failures; with -m the input packet is kept,
at the end the exit status tells.
---
 src/common/outpkt.c      | 15 +++++++++++----
 src/include/prototypes.h |  2 +-
 src/toss/ftntoss.c       |  9 +++++----
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/common/outpkt.c b/src/common/outpkt.c
index fc59821..e338ce8 100644
--- a/src/common/outpkt.c
+++ b/src/common/outpkt.c
@@ -277,9 +277,10 @@ FILE *outpkt_open(Node * from, Node * to,
 /*
  * Close all output packets
  */
-void outpkt_close(void)
+int outpkt_close(void)
 {
     OutPkt *p, *pn;
+    int ret = OK;
 
     for (p = outpkt_first; p;) {
         pn = p->next;
@@ -307,10 +308,16 @@ void outpkt_close(void)
             } else {
                 /* Rename */
                 debug(3, "Rename %s -> %s", p->tmpname, p->outname);
-                if (rename(p->tmpname, p->outname) == ERROR)
+                if (rename(p->tmpname, p->outname) == ERROR) {
                     debug(3, "Rename failed");
+                    p->failed = TRUE;
+                }
             }
-        }
+        } else
+            p->failed = TRUE;
+
+        if (p->failed)
+            ret = ERROR;
 
         /* Delete OutPkt entry */
         xfree(p->tmpname);
@@ -324,7 +331,7 @@ void outpkt_close(void)
     outpkt_last = NULL;
     outpkt_nopen = 0;           /* Just to be sure ... */
 
-    return;
+    return ret;
 }
 
 /*
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index 9ec776c..ff29b96 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -497,7 +497,7 @@ char *outpkt_outputname(char *, char *, int, int, int, long, char *);
 long outpkt_sequencer(void);
 void outpkt_set_maxopen(int);
 FILE *outpkt_open(Node *, Node *, int, int, int, int);
-void outpkt_close(void);
+int outpkt_close(void);
 int outpkt_netmail(Message *, Textlist *, char *, char *, char *);
 void send_request(Textlist *);
 
diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 99ce678..6b8d68d 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -1696,11 +1696,11 @@ int unpack(FILE * pkt_file, Packet * pkt)
          * Check for number of messages exceeding maxmsg
          */
         if (maxmsg && msg_count >= maxmsg) {
+            msg_count = 0;
             if (x_flag)
                 must_exit = TRUE;
-            else
-                outpkt_close();
-            msg_count = 0;
+            else if (outpkt_close() == ERROR)
+                TMPS_RETURN(severe_error = ERROR);
         }
 
         tmps_freeall();
@@ -2237,7 +2237,8 @@ int main(int argc, char **argv)
             unlock_program(PROGRAM);
     }
 
-    outpkt_close();
+    if (outpkt_close() == ERROR)
+        c = EXIT_ERROR;
 
     /* Stop time */
     toss_delta = time(NULL) - toss_start;
-- 
2.43.0


From b206045b656a2b6e48c6e151d09ef92f5c84e0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:27 +0000
Subject: [PATCH 18/23] fix: rfcaddr_from_ftn did not remove trailing spaces
 from the full name

---
 src/common/rfcaddr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/rfcaddr.c b/src/common/rfcaddr.c
index d6e3608..f094fcc 100644
--- a/src/common/rfcaddr.c
+++ b/src/common/rfcaddr.c
@@ -150,7 +150,7 @@ RFCAddr rfcaddr_from_ftn(char *name, Node * node)
     rfc.real[i] = 0;
 
     /* Remove trailing spaces */
-    for (; i >= 0 && rfc.real[i] == ' '; i--)
+    for (i--; i >= 0 && rfc.real[i] == ' '; i--)
         rfc.real[i] = '\0';
 
     return rfc;
-- 
2.43.0


From dfdfaa0fe5856e6461623ffa4e5fd6f87f3e6c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:34 +0000
Subject: [PATCH 19/23] fix: date_rfc_tz read the byte before a date whose only
 blank is its first character

---
 src/common/date.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/date.c b/src/common/date.c
index 644419a..606dacb 100644
--- a/src/common/date.c
+++ b/src/common/date.c
@@ -312,6 +312,8 @@ char *date_rfc_tz(char *rfc_date)
 	return "+0000";
 
     /* second word */
+    if (p == rfc_date)
+	return NULL;
     for (p--; p > rfc_date; p--) {
 	if (*p  == ' ')
 	    break;
-- 
2.43.0


From faf7b8548dbe9c220e27cc54e9322a88b670f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 20/23] fix: areas file options without their argument crashed
 the programs

---
 src/common/areas.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/common/areas.c b/src/common/areas.c
index e207afa..bc7d8e9 100644
--- a/src/common/areas.c
+++ b/src/common/areas.c
@@ -170,18 +170,26 @@ Area *areas_parse_line(char *buf)
             /* -a Z:N/F.P */
             if ((o = xstrtok(NULL, " \t")))
                 asc_to_node(o, &p->addr, FALSE);
+        if (!o)
+            break;
         if (!strcmp(o, "-z"))
             /* -z ZONE */
             if ((o = xstrtok(NULL, " \t")))
                 p->zone = atoi(o);
+        if (!o)
+            break;
         if (!strcmp(o, "-o"))
             /* -o ORIGIN */
             if ((o = xstrtok(NULL, " \t")))
                 p->origin = strsave(o);
+        if (!o)
+            break;
         if (!strcmp(o, "-d"))
             /* -d DISTRIBUTION */
             if ((o = xstrtok(NULL, " \t")))
                 p->distribution = strsave(o);
+        if (!o)
+            break;
         if (!strcmp(o, "-l"))
             p->flags |= AREA_LOCALXPOST;
         if (!strcmp(o, "-x"))
@@ -196,18 +204,26 @@ Area *areas_parse_line(char *buf)
             /* -R lvl */
             if ((o = xstrtok(NULL, " \t")))
                 p->rfc_lvl = atoi(o);
+        if (!o)
+            break;
         if (!strcmp(o, "-m"))
             /* -m MAXMSGSIZE */
             if ((o = xstrtok(NULL, " \t")))
                 p->maxsize = atol(o);
+        if (!o)
+            break;
         if (!strcmp(o, "-L"))
             /* -L LIMITMSGSIZE */
             if ((o = xstrtok(NULL, " \t")))
                 p->limitsize = atol(o);
+        if (!o)
+            break;
         if (!strcmp(o, "-X"))
             /* -X "Xtra: xyz" */
             if ((o = xstrtok(NULL, " \t")))
                 tl_append(&p->x_hdr, o);
+        if (!o)
+            break;
         if (!strcmp(o, "-8"))
             p->encoding = MIME_8BIT;
 
@@ -221,6 +237,8 @@ Area *areas_parse_line(char *buf)
             /* -C DEF:IN:OUT */
             if ((o = xstrtok(NULL, " \t")))
                 p->charset = strsave(o);
+        if (!o)
+            break;
 
         if (!strcmp(o, "-nh"))
             p->flags |= AREA_HEADERS_PLAIN;
-- 
2.43.0


From d53e037740a0eca3a361b91932dd35d3d39dd9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 21/23] fix: password entries with an illegal address were kept
 with a random address

---
 src/common/passwd.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/passwd.c b/src/common/passwd.c
index f7dba9c..b57320d 100644
--- a/src/common/passwd.c
+++ b/src/common/passwd.c
@@ -50,6 +50,7 @@ static Passwd *passwd_parse_line(char *buf)
 {
     Passwd *p;
     char *c, *n, *w, *r;
+    Node node;
 
     c = strtok(buf, " \t");
     n = strtok(NULL, " \t");
@@ -66,10 +67,15 @@ static Passwd *passwd_parse_line(char *buf)
     if (!w)
         return NULL;
 
+    if (asc_to_node(n, &node, FALSE) == ERROR) {
+        fglog("passwd: illegal FTN address %s", n);
+        return NULL;
+    }
+
     p = (Passwd *) xmalloc(sizeof(Passwd));
 
     p->context = strsave(c);
-    asc_to_node(n, &p->node, FALSE);
+    p->node = node;
     p->passwd = strsave(w);
     p->args = r ? strsave(r) : NULL;
     p->next = NULL;
-- 
2.43.0


From d346b44aab3a8d52389f0d9b85d5fcea4c9d646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 22/23] fix: wildcard patterns that end in an escape or an open
 class were read beyond their end

An inverse class also matched the end of the name, going on behind it.
---
 src/common/wildmat.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/common/wildmat.c b/src/common/wildmat.c
index 1994fe5..7548259 100644
--- a/src/common/wildmat.c
+++ b/src/common/wildmat.c
@@ -219,7 +219,8 @@ int wildmatch(char *s, char *p, int ic)
         switch (*p) {
         case '\\':
             /* Literal match with following character; fall through. */
-            p++;
+            if (p[1] != '\0')
+                p++;
         default:
             if (!char_eq(*s, *p, ic))
                 goto BackTrack;
@@ -242,13 +243,20 @@ int wildmatch(char *s, char *p, int ic)
                 int matched;
                 int reverse;
 
+                /* A class matches one character, not the end of the string */
+                if (*s == '\0')
+                    goto BackTrack;
+
                 /* [^....] means inverse character class. */
                 if ((reverse = (p[1] == '^')))
                     p++;
                 for (last = 0400, matched = FALSE; *++p && *p != ']'; last = *p)
-                    if (*p == '-' ? char_range(*s, last, *++p, ic)
+                    if (*p == '-' && p[1] != '\0' ? char_range(*s, last, *++p, ic)
                         : char_eq(*s, *p, ic))
                         matched = TRUE;
+                /* Not terminated, matches nothing */
+                if (*p == '\0')
+                    return FALSE;
                 if (matched == reverse)
                     goto BackTrack;
                 continue;
-- 
2.43.0


From 5d826fd19a2294f29154f448463852d9f1a1c932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 23/23] fix: ftnacl_lookup destroyed the patterns at the first
 look-up and matched with exchanged arguments

---
 src/common/acl.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/common/acl.c b/src/common/acl.c
index 27c3d63..ddf28c6 100644
--- a/src/common/acl.c
+++ b/src/common/acl.c
@@ -184,7 +184,8 @@ int ftnacl_lookup(Node * node_from, Node * node_to, char *echo)
 
     Acl *p;
     int type;
-    char *node1, *node2 = NULL, *n;
+    int found = FALSE;
+    char *node1, *node2 = NULL, *n, *pats;
 
     if (echo)
         type = TYPE_ECHOMAIL;
@@ -199,12 +200,13 @@ int ftnacl_lookup(Node * node_from, Node * node_to, char *echo)
         if (p->gate == FTN2RFC &&
             wildmat(node1, p->email_pat) && p->type == type) {
 
-            for (n = xstrtok(p->ngrp_pat, ","); n; n = xstrtok(NULL, ","))
-                if (echo) {
-                    if (wildmat(n, echo))
-                        return TRUE;
-                } else if (wildmat(n, node2))
-                    return TRUE;
+            /* xstrtok() changes the list, which is needed for the next message */
+            pats = strsave(p->ngrp_pat);
+            for (n = xstrtok(pats, ","); n && !found; n = xstrtok(NULL, ","))
+                found = wildmat(echo ? echo : node2, n);
+            xfree(pats);
+            if (found)
+                return TRUE;
         }
     }
 
-- 
2.43.0

