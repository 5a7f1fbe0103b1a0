From f1f2f891170edf585b2c5de2985efa14d0e1791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:19 +0000
Subject: [PATCH 001/104] fix: a hard duplicate of a case insensitive dict is
 case insensitive too

---
 src/onion/dict.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index fbbe6e5..b85ffb0 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -172,6 +172,7 @@ void onion_dict_hard_dup_helper(onion_dict * dict, const char *key,
  */
 onion_dict *onion_dict_hard_dup(onion_dict * dict) {
   onion_dict *d = onion_dict_new();
+  d->cmp = dict->cmp;
   onion_dict_preorder(dict, onion_dict_hard_dup_helper, d);
   return d;
 }
-- 
2.43.0


From 61c107a7df76fe4d47b45769cad78f972cb342a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:20 +0000
Subject: [PATCH 002/104] fix: onion_dict_remove returns whether something was
 removed, as documented

---
 src/onion/dict.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index b85ffb0..20de381 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -450,6 +450,8 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
  * Returns if it removed any node.
  */
 int onion_dict_remove(onion_dict * dict, const char *key) {
+  if (!onion_dict_find_node(dict, dict->root, key, NULL))
+    return 0;
   dict->root = onion_dict_node_remove(dict, dict->root, key);
   return 1;
 }
-- 
2.43.0


From ad009f52b09c319e13fefd73c32b22e60c6dd23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:21 +0000
Subject: [PATCH 003/104] fix: removing a dict entry no longer corrupts
 neighbours that share a key

---
 src/onion/dict.c | 78 +++++++++++++++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 30 deletions(-)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index 20de381..6712594 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -389,6 +389,48 @@ static void onion_dict_node_data_free(onion_dict_node_data * data) {
   }
 }
 
+/// Restores the AA tree invariants at node after something was removed below it
+static onion_dict_node *onion_dict_node_rebalance(onion_dict_node * node) {
+  decrease_level(node);
+  node = skew(node);
+  if (node->right) {
+    node->right = skew(node->right);
+    if (node->right->right)
+      node->right->right = skew(node->right->right);
+  }
+  node = split(node);
+  if (node->right)
+    node->right = split(node->right);
+  return node;
+}
+
+/// Takes out the first node of the subtree, moving its data to data.
+static onion_dict_node *onion_dict_node_take_first(onion_dict_node * node,
+                                                   onion_dict_node_data *
+                                                   data) {
+  if (!node->left) {
+    onion_dict_node *right = node->right;
+    memcpy(data, &node->data, sizeof(onion_dict_node_data));
+    onion_low_free(node);
+    return right;
+  }
+  node->left = onion_dict_node_take_first(node->left, data);
+  return onion_dict_node_rebalance(node);
+}
+
+/// Takes out the last node of the subtree, moving its data to data.
+static onion_dict_node *onion_dict_node_take_last(onion_dict_node * node,
+                                                  onion_dict_node_data * data) {
+  if (!node->right) {
+    onion_dict_node *left = node->left;
+    memcpy(data, &node->data, sizeof(onion_dict_node_data));
+    onion_low_free(node);
+    return left;
+  }
+  node->right = onion_dict_node_take_last(node->right, data);
+  return onion_dict_node_rebalance(node);
+}
+
 /// AA tree remove the node
 static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
                                                onion_dict_node * node,
@@ -409,37 +451,13 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
       onion_low_free(node);
       return NULL;
     }
-    if (node->left == NULL) {
-      onion_dict_node *t = node->right; // Get next key node
-      while (t->left)
-        t = t->left;
-      //ONION_DEBUG("Set data from %p[%s] to %p[already deleted %s]",t,t->data.key, node, key);
-      memcpy(&node->data, &t->data, sizeof(onion_dict_node_data));
-      t->data.flags = 0;        // No double free later, please
-      node->right = onion_dict_node_remove(d, node->right, t->data.key);
-      //ONION_DEBUG("%p[%s]->right=%p[%s]",node, node->data.key, node->right, node->right ? node->right->data.key : "NULL");
-    } else {
-      onion_dict_node *t = node->left;  // Get prev key node
-      while (t->right)
-        t = t->right;
-
-      memcpy(&node->data, &t->data, sizeof(onion_dict_node_data));
-      t->data.flags = 0;        // No double free later, please
-      node->left = onion_dict_node_remove(d, node->left, t->data.key);
-      //ONION_DEBUG("%p[%s]->left=%p[%s]",node, node->data.key, node->left, node->left ? node->left->data.key : "NULL");
-    }
-  }
-  decrease_level(node);
-  node = skew(node);
-  if (node->right) {
-    node->right = skew(node->right);
-    if (node->right->right)
-      node->right->right = skew(node->right->right);
+    // Keep the data of the neighbour. Do not look for it by key, as there may be several with the same.
+    if (node->left == NULL)
+      node->right = onion_dict_node_take_first(node->right, &node->data);
+    else
+      node->left = onion_dict_node_take_last(node->left, &node->data);
   }
-  node = split(node);
-  if (node->right)
-    node->right = split(node->right);
-  return node;
+  return onion_dict_node_rebalance(node);
 }
 
 /**
-- 
2.43.0


From 8db9bf9be4255c78f8ec432948c3c0e52ab3653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:27 +0000
Subject: [PATCH 004/104] fix: keep the continuation of folded headers that end
 in CRLF, and do not look before an empty header value

---
 src/onion/request_parser.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index e6aa933..e9e78d2 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -212,10 +212,9 @@ int token_read_LINE(onion_token * token, onion_buffer * data) {
 
     c = data->data[data->pos++];
   }
-  if (token->str[token->pos - 1] == '\r')
-    token->str[token->pos - 1] = '\0';
-  else
-    token->str[token->pos] = '\0';
+  if (token->pos > 0 && token->str[token->pos - 1] == '\r')
+    token->pos--;
+  token->str[token->pos] = '\0';
   //token->pos=0;
 
   //ONION_DEBUG0("Found LINE token %s",token->str);
-- 
2.43.0


From 538a677fc230bbc5e0dd749809998fee97711c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:27 +0000
Subject: [PATCH 005/104] fix: check the token size before storing, also when
 the token arrives byte by byte

---
 src/onion/request_parser.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index e9e78d2..b7ec63a 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -104,9 +104,6 @@ int token_read_STRING(onion_token * token, onion_buffer * data) {
 
   char c = data->data[data->pos++];
   while (!is_space(c)) {
-    token->str[token->pos++] = c;
-    if (data->pos >= data->size)
-      return OCS_NEED_MORE_DATA;
     if (token->pos >= (sizeof(token->str) - 1)) {
       char tmp[16];
       strncpy(tmp, token->str, 16);
@@ -116,6 +113,9 @@ int token_read_STRING(onion_token * token, onion_buffer * data) {
            token->pos);
       return OCS_INTERNAL_ERROR;
     }
+    token->str[token->pos++] = c;
+    if (data->pos >= data->size)
+      return OCS_NEED_MORE_DATA;
     c = data->data[data->pos++];
   }
   int ret;
@@ -146,16 +146,21 @@ int token_read_until(onion_token * token, onion_buffer * data, char delimiter) {
 
   char c = data->data[data->pos++];
   while (c != delimiter && c != '\n') {
-    if (c != '\r')              // Just ignore it here
+    if (c != '\r') {            // Just ignore it here
+      if (token->pos >= (sizeof(token->str) - 1)) {
+        char tmp[16];
+        strncpy(tmp, token->str, 16);
+        tmp[15] = '\0';
+        ONION_ERROR
+            ("Token too long to parse it. Part read start as %s (%d bytes)",
+             tmp, token->pos);
+        return OCS_INTERNAL_ERROR;
+      }
       token->str[token->pos++] = c;
+    }
     if (data->pos >= data->size) {
       return OCS_NEED_MORE_DATA;
     }
-    if (token->pos >= (sizeof(token->str) - 1)) {
-      ONION_ERROR("Token too long to parse it. Part read is %s (%d bytes)",
-                  token->str, token->pos);
-      return OCS_INTERNAL_ERROR;
-    }
     c = data->data[data->pos++];
   }
   int ret = STRING;
-- 
2.43.0


From 64800549a83e4fde73cfb28228bcd87354195b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:27 +0000
Subject: [PATCH 006/104] fix: bound the folding of long headers, and a blank
 continuation line does not swallow the next header

---
 src/onion/request_parser.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index b7ec63a..72b1f4b 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -728,6 +728,9 @@ static onion_connection_status parse_headers_KEY(onion_request * req,
                                                  onion_buffer * data);
 static onion_connection_status parse_headers_VALUE(onion_request * req,
                                                    onion_buffer * data);
+static onion_connection_status
+parse_headers_VALUE_multiline_if_space(onion_request * req,
+                                       onion_buffer * data);
 
 static onion_connection_status
 parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
@@ -736,10 +739,13 @@ parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
     char peek = data->data[data->pos++];
     if (peek != '\t' && peek != ' ') {
       onion_token *token = req->parser_data;
-      if (peek == '\n')
+      if (peek == '\n') {      // Only whitespace at this line.
+        req->parser = parse_headers_VALUE_multiline_if_space;
         return OCS_NEED_MORE_DATA;
-      token->str[token->pos++] = ' ';
-      token->str[token->pos++] = peek;
+      }
+      if (token->pos < (sizeof(token->str) - 1))
+        token->str[token->pos++] = ' ';
+      data->pos--;              // Let the line reader have it.
       req->parser = parse_headers_VALUE;
       return parse_headers_VALUE(req, data);
     }
-- 
2.43.0


From ad9cc06dd181984624266bf1547cee18eca1442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:27 +0000
Subject: [PATCH 007/104] fix: a NUL at the beginning of a header line no
 longer hangs the parser

---
 src/onion/request_parser.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 72b1f4b..5538896 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -308,12 +308,6 @@ int token_read_NEW_LINE(onion_token * token, onion_buffer * data) {
   return res;
 }
 
-static char token_peek_next_char(onion_buffer * data) {
-  if (data->pos >= data->size)
-    return '\0';                // If not enought data, go to safe side.
-  return data->data[data->pos];
-}
-
 static onion_connection_status parse_POST_multipart_next(onion_request * req,
                                                          onion_buffer * data);
 
@@ -756,12 +750,12 @@ parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
 static onion_connection_status
 parse_headers_VALUE_multiline_if_space(onion_request * req,
                                        onion_buffer * data) {
-  char peek = token_peek_next_char(data);
-  ONION_DEBUG0("Multiline if space, peek %d", peek);
-  if (peek == 0) {
+  if (data->pos >= data->size) {
     req->parser = parse_headers_VALUE_multiline_if_space;
     return OCS_NEED_MORE_DATA;
   }
+  char peek = data->data[data->pos];
+  ONION_DEBUG0("Multiline if space, peek %d", peek);
   if (peek == ' ' || peek == '\t') {
     req->parser = parse_headers_VALUE_skip_leading_whitespace;
     return parse_headers_VALUE_skip_leading_whitespace(req, data);
-- 
2.43.0


From f16c7f197b9a0118f2f7d775545f2945626e6170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:27 +0000
Subject: [PATCH 008/104] fix: a Content-Length beyond the range of int is not
 taken for an empty body

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 5538896..861aeef 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -808,7 +808,7 @@ static onion_connection_status parse_headers_KEY(onion_request * req,
     if ((req->flags & OR_METHODS) == OR_PUT)
       return prepare_PUT(req);
     if (onion_request_get_header(req, "Content-Length")) {      // Some length, not POST, get data.
-      int n = atoi(onion_request_get_header(req, "Content-Length"));
+      long n = atol(onion_request_get_header(req, "Content-Length"));
       if (n > 0)
         return prepare_CONTENT_LENGTH(req);
     }
-- 
2.43.0


From 72c733e9162390c6c1c9caa818a35a3abb527824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:04 +0000
Subject: [PATCH 009/104] fix: multipart values that look like the start of a
 boundary, or end in a new line, are kept as sent

---
 src/onion/request_parser.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 861aeef..b973c70 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -497,20 +497,23 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
   char *d = &multipart->data[token->pos];
 
   for (; data->pos < data->size; data->pos++) {
-    if (multipart->pos == 0 && *p == '\n')      // \r is optional.
-      multipart->pos = 1;
+    if (multipart->pos == 0) {
+      if (*p == '\n')           // \r is optional.
+        multipart->startpos = multipart->pos = 1;
+      else
+        multipart->startpos = 0;
+    }
     if (*p == multipart->boundary[multipart->pos]) {    // Check boundary
       multipart->pos++;
       if (multipart->pos == multipart->size) {
-        multipart->pos = 0;
+        multipart->startpos = multipart->pos = 0;
         data->pos++;            // Not sure why this is needed. FIXME.
-        if (token->pos > 0 && *(d - 1) == '\n') {
-          token->pos--;
-          d--;
-        }
-        if (token->pos > 0 && *(d - 1) == '\r')
-          d--;
 
+        if (multipart->post_total_size <= 0) {
+          ONION_ERROR("No space left for this post.");
+          return OCS_INTERNAL_ERROR;
+        }
+        multipart->post_total_size--;   // The ending \0
         *d = '\0';
         ONION_DEBUG0("Adding POST data '%s'", multipart->name);
         onion_dict_add(req->POST, multipart->name, multipart->data, 0);
@@ -521,15 +524,18 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
       }
     } else {                    // No boundary
       if (multipart->pos != 0) {        // Maybe i was checking before... so I need to copy as much as I wrongly thought I got.
-        if (multipart->post_total_size <= multipart->pos) {
+        size_t r = multipart->pos - multipart->startpos;
+        if (multipart->post_total_size <= r) {
           ONION_ERROR("No space left for this post.");
           return OCS_INTERNAL_ERROR;
         }
-        multipart->post_total_size -= multipart->pos;
-        memcpy(d, p, multipart->pos);
-        d += multipart->pos;
-        token->pos += multipart->pos;
-        multipart->pos = 0;
+        multipart->post_total_size -= r;
+        memcpy(d, multipart->boundary + multipart->startpos, r);
+        d += r;
+        token->pos += r;
+        multipart->startpos = multipart->pos = 0;
+        data->pos--;            // Ignore read charater, try again. May be start of boundary.
+        continue;
       }
       if (multipart->post_total_size <= 0) {
         ONION_ERROR("No space left for this post.");
-- 
2.43.0


From 29cf083aa8c453110a326a9730ea1ac88d67def0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:04 +0000
Subject: [PATCH 010/104] fix: multipart names and filenames are read per
 parameter and counted, and parts without a name are refused

---
 src/onion/request_parser.c | 112 +++++++++++++++++++++++++------------
 1 file changed, 75 insertions(+), 37 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index b973c70..70defe3 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -557,12 +557,66 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
                                                                 onion_buffer *
                                                                 data);
 
+/**
+ * @short Looks for a parameter at a header as: form-data; name="field"; filename="file.txt"
+ *
+ * @returns Where the value starts, or NULL if there is no such parameter. The length is set at len.
+ */
+static const char *find_header_parameter(const char *header, const char *name,
+                                         size_t * len) {
+  const char *p = strchr(header, ';');
+  while (p) {
+    p++;
+    while (is_space(*p))
+      p++;
+    const char *key = p;
+    while (*p && *p != '=' && *p != ';')
+      p++;
+    size_t keylen = p - key;
+    const char *value = p, *end = p;
+    if (*p == '=') {
+      value = ++p;
+      if (*p == '"') {
+        value = ++p;
+        while (*p && (*p != '"' || p[-1] == '\\'))
+          p++;
+        end = p;
+      } else {
+        while (*p && *p != ';')
+          p++;
+        end = p;
+        while (end > value && is_space(end[-1]))
+          end--;
+      }
+      if (keylen == strlen(name) && strncasecmp(key, name, keylen) == 0) {
+        *len = end - value;
+        return value;
+      }
+    }
+    p = strchr(p, ';');
+  }
+  return NULL;
+}
+
+/// Stores some text at the multipart data area. Returns NULL if there is no space left.
+static char *multipart_store(onion_multipart_buffer * multipart,
+                             const char *str, size_t l) {
+  if (multipart->post_total_size <= l)
+    return NULL;
+  char *ret = multipart->data;
+  memcpy(ret, str, l);
+  ret[l] = '\0';
+  multipart->data += l + 1;
+  multipart->post_total_size -= l + 1;
+  return ret;
+}
+
 static onion_connection_status parse_POST_multipart_content_type(onion_request *
                                                                  req,
                                                                  onion_buffer *
                                                                  data) {
   onion_token *token = req->parser_data;
-  int res = token_read_until(token, data, ';');
+  int res = token_read_until(token, data, '\n');
 
   if (res <= 1000)
     return res;
@@ -570,48 +624,28 @@ static onion_connection_status parse_POST_multipart_content_type(onion_request *
   //ONION_DEBUG("Got content type %s",token->str);
 
   onion_multipart_buffer *multipart = (onion_multipart_buffer *) token->extra;
-  const char *name;
-  name = strstr(token->str, "filename=");
-  if (name) {
-    int l = strlen(token->str) - 9;
-    if (l > multipart->post_total_size) {
+  const char *value;
+  size_t l;
+  value = find_header_parameter(token->str, "filename", &l);
+  if (value) {
+    multipart->filename = multipart_store(multipart, value, l);
+    if (!multipart->filename) {
       ONION_ERROR("Post buffer exhausted. content-Length wrong passed.");
       return OCS_INTERNAL_ERROR;
     }
-    multipart->filename = multipart->data;
-    memcpy(multipart->filename, name + 9, l);
-    multipart->filename[l] = 0;
-    multipart->data = multipart->data + l + 1;
-    if (*multipart->filename == '"' && multipart->filename[l - 2] == '"') {
-      multipart->filename[l - 2] = '\0';
-      multipart->filename++;
-    }
     ONION_DEBUG0("Set filename '%s'", multipart->filename);
-  } else {
-    name = strstr(token->str, "name=");
-    if (name) {
-      int l = strlen(token->str) - 5;
-      if (l > multipart->post_total_size) {
-        ONION_ERROR("Post buffer exhausted. Content-Length had wrong size.");
-        return OCS_INTERNAL_ERROR;
-      }
-      multipart->name = multipart->data;
-      memcpy(multipart->name, name + 5, l);
-      multipart->name[l] = 0;
-      if (*multipart->name == '"' && multipart->name[l - 2] == '"') {
-        l -= 2;
-        multipart->name[l] = '\0';
-        multipart->name++;
-      }
-      multipart->data = multipart->name + l + 1;
-      ONION_DEBUG0("Set field name '%s'", multipart->name);
+  }
+  value = find_header_parameter(token->str, "name", &l);
+  if (value) {
+    multipart->name = multipart_store(multipart, value, l);
+    if (!multipart->name) {
+      ONION_ERROR("Post buffer exhausted. Content-Length had wrong size.");
+      return OCS_INTERNAL_ERROR;
     }
+    ONION_DEBUG0("Set field name '%s'", multipart->name);
   }
 
-  if (res == STRING_NEW_LINE) {
-    req->parser = parse_POST_multipart_headers_key;
-    return OCS_NEED_MORE_DATA;
-  }
+  req->parser = parse_POST_multipart_headers_key;
   return OCS_NEED_MORE_DATA;
 }
 
@@ -647,6 +681,10 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
     onion_multipart_buffer *multipart = (onion_multipart_buffer *) token->extra;
     multipart->pos = 0;
 
+    if (!multipart->name) {
+      ONION_ERROR("Multipart data without a name.");
+      return OCS_INTERNAL_ERROR;
+    }
     if (multipart->filename) {
       char filename[] = "/tmp/onion-XXXXXX";
       multipart->fd = mkstemp(filename);
@@ -1071,7 +1109,7 @@ static onion_connection_status prepare_POST(onion_request * req) {
   token->extra_size = cl;       // Max size of the multipart->data
   onion_multipart_buffer *multipart =
       onion_low_malloc(token->extra_size + sizeof(onion_multipart_buffer) +
-                       mp_token_size + 2);
+                       mp_token_size + 6);
   assert(token->extra == NULL);
   token->extra = (char *)multipart;
 
-- 
2.43.0


From bf7888f4210321c6fa6766fbe99422d9168226b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:04 +0000
Subject: [PATCH 011/104] fix: count only the data of the uploaded files for
 the maximum file size

---
 src/onion/request_parser.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 70defe3..6bfa7d7 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -428,14 +428,16 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         return OCS_NEED_MORE_DATA;
       }
     } else {
+      int r = 1;                // How many bytes are data of the file
+      if (multipart->pos != 0)
+        r = multipart->pos - multipart->startpos;
+      multipart->file_total_size += r;
       if (multipart->file_total_size >
           req->connection.listen_point->server->max_file_size) {
         ONION_ERROR("Files on this post too big. Aborting.");
         return OCS_INTERNAL_ERROR;
       }
       if (multipart->pos != 0) {
-        multipart->file_total_size += multipart->pos;
-        int r = multipart->pos - multipart->startpos;
         //ONION_DEBUG0("Write %d bytes",r);
         int w = write(multipart->fd, tmp, tmppos);
         if (w != tmppos) {
@@ -470,7 +472,6 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         tmppos = 0;
       }
     }
-    multipart->file_total_size++;
     p++;
   }
   int w = write(multipart->fd, tmp, tmppos);
-- 
2.43.0


From cd8d252430ffc09c530098cf6f9f6b1fd4556436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:04 +0000
Subject: [PATCH 012/104] fix: the multipart boundary may be quoted, and be
 followed by other parameters

---
 src/onion/request_parser.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 6bfa7d7..08b47e8 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -1106,7 +1106,16 @@ static onion_connection_status prepare_POST(onion_request * req) {
   if (cl > req->connection.listen_point->server->max_post_size) // I hope the missing part is files, else error later.
     cl = req->connection.listen_point->server->max_post_size;
 
-  int mp_token_size = strlen(mp_token);
+  int mp_token_size;
+  if (*mp_token == '"') {
+    mp_token++;
+    mp_token_size = strcspn(mp_token, "\"");
+  } else
+    mp_token_size = strcspn(mp_token, "; \t");
+  if (mp_token_size == 0) {
+    ONION_ERROR("Empty boundary at content-type");
+    return OCS_INTERNAL_ERROR;
+  }
   token->extra_size = cl;       // Max size of the multipart->data
   onion_multipart_buffer *multipart =
       onion_low_malloc(token->extra_size + sizeof(onion_multipart_buffer) +
@@ -1123,7 +1132,8 @@ static onion_connection_status prepare_POST(onion_request * req) {
   multipart->boundary[1] = '\n';
   multipart->boundary[2] = '-';
   multipart->boundary[3] = '-';
-  strcpy(&multipart->boundary[4], mp_token);
+  memcpy(&multipart->boundary[4], mp_token, mp_token_size);
+  multipart->boundary[multipart->size] = '\0';
   multipart->data =
       (char *)multipart + sizeof(onion_multipart_buffer) + multipart->size + 1;
 
-- 
2.43.0


From fdefd23ee6bcad43576106ccb8b613c16a5a20ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:04 +0000
Subject: [PATCH 013/104] fix: uploads do not leak their file descriptor nor
 lose data on short writes, and fail if there is no temporal file

---
 src/onion/request_parser.c | 85 +++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 37 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 08b47e8..636be14 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -27,6 +27,7 @@
 #include <fcntl.h>
 #include <unistd.h>
 #include <assert.h>
+#include <errno.h>
 
 #include "dict.h"
 #include "request.h"
@@ -61,6 +62,7 @@ typedef struct onion_token_s {
 
   char *extra;                  // Only used when need some previous data, like at header value, i need the key
   size_t extra_size;
+  int fd;                       // File being written, -1 if none
 } onion_token;
 
 /// @private
@@ -88,7 +90,6 @@ typedef struct onion_multipart_buffer_s {
   char *filename;               /// point to a in data position
   size_t file_total_size;       /// Total size of all file read data
   size_t post_total_size;       /// Total size of post, to check limits
-  int fd;                       /// If file, the file descriptor.
 } onion_multipart_buffer;
 
 static void onion_request_parse_query_to_dict(onion_dict * dict, char *p);
@@ -343,6 +344,30 @@ static onion_connection_status parse_CONTENT_LENGTH(onion_request * req,
   return OCS_NEED_MORE_DATA;
 }
 
+/// Closes the file being written, if any.
+static void token_close_file(onion_token * token) {
+  if (token->fd >= 0) {
+    close(token->fd);
+    token->fd = -1;
+  }
+}
+
+/// Writes all the data to the file. Returns 0 if ok, -1 on error; in that case the file is closed.
+static int token_write_file(onion_token * token, const char *data, size_t size) {
+  while (size > 0) {
+    ssize_t w = write(token->fd, data, size);
+    if (w < 0) {
+      if (errno == EINTR)
+        continue;
+      token_close_file(token);
+      return -1;
+    }
+    data += w;
+    size -= w;
+  }
+  return 0;
+}
+
 /**
  * @short Reads from the data to fulfill content-length data.
  *
@@ -360,13 +385,7 @@ static onion_connection_status parse_PUT(onion_request * req,
   }
   //ONION_DEBUG0("Writing %d. %d / %d bytes", length, token->pos+length, token->extra_size);
 
-  int *fd = (int *)token->extra;
-  ssize_t w = write(*fd, &data->data[data->pos], length);
-  if (w < 0) {
-    // cleanup
-    close(*fd);
-    onion_low_free(token->extra);
-    token->extra = NULL;
+  if (token_write_file(token, &data->data[data->pos], length) < 0) {
     ONION_ERROR("Could not write all data to temporal file.");
     return OCS_INTERNAL_ERROR;
   }
@@ -379,9 +398,7 @@ static onion_connection_status parse_PUT(onion_request * req,
 #endif
 
   if (exit) {
-    close(*fd);
-    onion_low_free(token->extra);
-    token->extra = NULL;
+    token_close_file(token);
     return OCS_REQUEST_READY;
   }
 
@@ -415,15 +432,13 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         multipart->startpos = multipart->pos = 0;
         data->pos++;            // Not sure why this is needed. FIXME.
 
-        int w = write(multipart->fd, tmp, tmppos);
-        if (w != tmppos) {
+        if (token_write_file(token, tmp, tmppos) < 0) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
 
-        close(multipart->fd);
+        token_close_file(token);
         req->parser = parse_POST_multipart_next;
         return OCS_NEED_MORE_DATA;
       }
@@ -439,20 +454,17 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
       }
       if (multipart->pos != 0) {
         //ONION_DEBUG0("Write %d bytes",r);
-        int w = write(multipart->fd, tmp, tmppos);
-        if (w != tmppos) {
+        if (token_write_file(token, tmp, tmppos) < 0) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
         tmppos = 0;
 
-        w = write(multipart->fd, multipart->boundary + multipart->startpos, r);
-        if (w != r) {
+        if (token_write_file
+            (token, multipart->boundary + multipart->startpos, r) < 0) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
         multipart->startpos = multipart->pos = 0;
@@ -462,11 +474,9 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
       //ONION_DEBUG0("Write 1 byte");
       tmp[tmppos++] = *p;
       if (tmppos == sizeof(tmp)) {
-        int w = write(multipart->fd, tmp, tmppos);
-        if (w != tmppos) {
+        if (token_write_file(token, tmp, tmppos) < 0) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
         tmppos = 0;
@@ -474,11 +484,9 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
     }
     p++;
   }
-  int w = write(multipart->fd, tmp, tmppos);
-  if (w != tmppos) {
+  if (token_write_file(token, tmp, tmppos) < 0) {
     ONION_ERROR
         ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-    close(multipart->fd);
     return OCS_INTERNAL_ERROR;
   }
   return OCS_NEED_MORE_DATA;
@@ -688,9 +696,11 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
     }
     if (multipart->filename) {
       char filename[] = "/tmp/onion-XXXXXX";
-      multipart->fd = mkstemp(filename);
-      if (multipart->fd < 0)
+      token->fd = mkstemp(filename);
+      if (token->fd < 0) {
         ONION_ERROR("Could not create temporal file at %s.", filename);
+        return OCS_INTERNAL_ERROR;
+      }
       if (!req->FILES)
         req->FILES = onion_dict_new();
       onion_dict_add(req->POST, multipart->name, multipart->filename, 0);
@@ -961,7 +971,9 @@ static onion_connection_status parse_headers_GET(onion_request * req,
 onion_connection_status onion_request_write(onion_request * req,
                                             const char *data, size_t size) {
   if (!req->parser_data) {
-    req->parser_data = onion_low_calloc(1, sizeof(onion_token));
+    onion_token *token = onion_low_calloc(1, sizeof(onion_token));
+    token->fd = -1;
+    req->parser_data = token;
     req->parser = parse_headers_GET;
   }
 
@@ -1195,9 +1207,11 @@ static onion_connection_status prepare_PUT(onion_request * req) {
   req->data = onion_block_new();
 
   char filename[] = "/tmp/onion-XXXXXX";
-  int fd = mkstemp(filename);
-  if (fd < 0)
+  token->fd = mkstemp(filename);
+  if (token->fd < 0) {
     ONION_ERROR("Could not create temporary file at %s.", filename);
+    return OCS_INTERNAL_ERROR;
+  }
 
   onion_block_add_str(req->data, filename);
   ONION_DEBUG0("Creating PUT file %s (%d bytes long)", filename,
@@ -1213,15 +1227,11 @@ static onion_connection_status prepare_PUT(onion_request * req) {
 
   if (cl == 0) {
     ONION_DEBUG0("Created 0 length file");
-    close(fd);
+    token_close_file(token);
     return OCS_REQUEST_READY;
   }
 
-  int *pfd = onion_low_scalar_malloc(sizeof(fd));
-  *pfd = fd;
-
   assert(token->extra == NULL);
-  token->extra = (char *)pfd;
   token->extra_size = cl;
   token->pos = 0;
 
@@ -1235,6 +1245,7 @@ static onion_connection_status prepare_PUT(onion_request * req) {
 void onion_request_parser_data_free(void *t) {
   ONION_DEBUG0("Free parser data");
   onion_token *token = t;
+  token_close_file(token);
   if (token->extra) {
     onion_low_free(token->extra);
     token->extra = NULL;
-- 
2.43.0


From 837741cd3abd40639d1ae8cbb403c9f0e01d07a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:04 +0000
Subject: [PATCH 014/104] fix: ignore empty lines before the request line

---
 src/onion/request_parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 636be14..2334414 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -936,6 +936,13 @@ static onion_connection_status parse_headers_URL(onion_request * req,
 static onion_connection_status parse_headers_GET(onion_request * req,
                                                  onion_buffer * data) {
   onion_token *token = req->parser_data;
+
+  if (token->pos == 0) {        // Empty lines before the request are ignored, as RFC 7230 3.5
+    while (data->pos < data->size && (data->data[data->pos] == '\r'
+                                      || data->data[data->pos] == '\n'))
+      data->pos++;
+  }
+
   int res = token_read_STRING(token, data);
 
   if (res <= 1000)
-- 
2.43.0


From d6f94289133919af07ca2e743ac524cbfbb8f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:04 +0000
Subject: [PATCH 015/104] fix: unquoting a string that ends in the middle of an
 escape does not read past its end

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 1e151c3..ffd621e 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -255,7 +255,7 @@ void onion_unquote_inplace(char *str) {
   char *w = str;
   char tmp[3] = { 0, 0, 0 };
   while (*r) {
-    if (*r == '%') {
+    if (*r == '%' && r[1] && r[2]) {
       r++;
       tmp[0] = *r++;
       tmp[1] = *r;
-- 
2.43.0


From e557340ff952d96126319ece249d6625350bf3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:37 +0000
Subject: [PATCH 016/104] fix: answer all the pipelined requests that arrive
 together, and not only the first

---
 src/onion/http.c           | 10 +++++++---
 src/onion/request.h        |  4 ++++
 src/onion/request_parser.c | 17 ++++++++++++++++-
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/onion/http.c b/src/onion/http.c
index 1726e22..d6a6122 100644
--- a/src/onion/http.c
+++ b/src/onion/http.c
@@ -82,13 +82,17 @@ int onion_http_read_ready(onion_request * con) {
   if (len <= 0)
     return OCS_CLOSE_CONNECTION;
 
-  onion_connection_status st = onion_request_write(con, buffer, len);
-  if (st != OCS_NEED_MORE_DATA) {
+  ssize_t pos = 0;
+  onion_connection_status st;
+  do {                          // There may be more than one request (pipelining)
+    size_t used;
+    st = onion_request_write_some(con, buffer + pos, len - pos, &used);
+    pos += used;
     if (st == OCS_REQUEST_READY)
       st = onion_request_process(con);  // May give error to the connection, or yield or whatever.
     if (st < 0)
       return st;
-  }
+  } while (st == OCS_KEEP_ALIVE && pos < len);
 
   return OCS_PROCESSED;
 }
diff --git a/src/onion/request.h b/src/onion/request.h
index 4a0f324..b133489 100644
--- a/src/onion/request.h
+++ b/src/onion/request.h
@@ -89,6 +89,10 @@ extern "C" {
 /// Reads some data from the input (net, file...) and performs the onion_request_fill
   onion_connection_status onion_request_write(onion_request * req,
                                               const char *data, size_t length);
+/// As onion_request_write, and tells how much of the data was used.
+  onion_connection_status onion_request_write_some(onion_request * req,
+                                                   const char *data,
+                                                   size_t length, size_t * used);
 
 /// Gets the current path
   const char *onion_request_get_path(onion_request * req);
diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 2334414..6ab392e 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -236,7 +236,7 @@ int token_read_URLENCODE(onion_token * token, onion_buffer * data) {
 
   memcpy(&token->extra[token->pos], &data->data[data->pos], l);
   token->pos += l;
-  data->size -= l;
+  data->pos += l;
 
   if (token->extra_size == token->pos) {
     token->extra[token->pos] = '\0';
@@ -977,6 +977,20 @@ static onion_connection_status parse_headers_GET(onion_request * req,
  */
 onion_connection_status onion_request_write(onion_request * req,
                                             const char *data, size_t size) {
+  size_t used;
+  return onion_request_write_some(req, data, size, &used);
+}
+
+/**
+ * @short As onion_request_write, but also tells how much of the data belongs to this request
+ * @private
+ *
+ * When the request is ready the data may have more, which is part of the next request.
+ */
+onion_connection_status onion_request_write_some(onion_request * req,
+                                                 const char *data, size_t size,
+                                                 size_t * used) {
+  *used = 0;
   if (!req->parser_data) {
     onion_token *token = onion_low_calloc(1, sizeof(onion_token));
     token->fd = -1;
@@ -991,6 +1005,7 @@ onion_connection_status onion_request_write(onion_request * req,
     onion_buffer odata = { data, size, 0 };
     while (odata.size > odata.pos) {
       int r = parse(req, &odata);
+      *used = odata.pos;
       if (r != OCS_NEED_MORE_DATA) {
         return r;
       }
-- 
2.43.0


From 76f568f4d5bfd048212f6064d57511d8b6959704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:24 +0000
Subject: [PATCH 017/104] fix: the headers go once and before the data, also
 when written explicitly after some data

---
 src/onion/response.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 20cc39a..1e981fb 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -281,6 +281,14 @@ int onion_response_write_headers(onion_response * res) {
         ("Bad formed response. Need a request at creation. Will not write headers.");
     return -1;
   }
+  if (res->flags & OR_HEADER_SENT)      // Only once per response
+    return res->flags & OR_SKIP_CONTENT;
+
+  // There may be data already waiting for the headers, which goes after them.
+  char pending[sizeof(res->buffer)];
+  size_t npending = res->buffer_pos;
+  memcpy(pending, res->buffer, npending);
+  res->buffer_pos = 0;
 
   res->flags |= OR_HEADER_SENT; // I Set at the begining so I can do normal writing.
   res->request->flags |= OR_HEADER_SENT;
@@ -332,6 +340,8 @@ int onion_response_write_headers(onion_response * res) {
     onion_response_flush(res);
     res->flags |= OR_CHUNKED;
   }
+  if (npending > 0)
+    onion_response_write(res, pending, npending);
 
   return 0;
 }
@@ -405,15 +415,8 @@ int onion_response_flush(onion_response * res) {
   if (res->buffer_pos == 0)     // Not used.
     return 0;
   if (!(res->flags & OR_HEADER_SENT)) { // Automatic header write
-    ONION_DEBUG0
-        ("Doing fast header hack: store current buffer, send current headers. Resend buffer.");
-    char tmpb[sizeof(res->buffer)];
-    int tmpp = res->buffer_pos;
-    memcpy(tmpb, res->buffer, res->buffer_pos);
-    res->buffer_pos = 0;
-
+    // write_headers puts the headers before the data at the buffer
     onion_response_write_headers(res);
-    onion_response_write(res, tmpb, tmpp);
     return 0;
   }
   if (res->flags & OR_SKIP_CONTENT)     // HEAD request
-- 
2.43.0


From fd96f70c1251d88cf23c7faff757f3955c4b4250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:24 +0000
Subject: [PATCH 018/104] fix: onion_response_flush sends the data also when
 the headers were not sent yet

---
 src/onion/response.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 1e981fb..2e792a3 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -410,15 +410,14 @@ ssize_t onion_response_write(onion_response * res, const char *data,
  * on more cases.
  */
 int onion_response_flush(onion_response * res) {
-  res->sent_bytes += res->buffer_pos;
-  res->sent_bytes_total += res->buffer_pos;
   if (res->buffer_pos == 0)     // Not used.
     return 0;
-  if (!(res->flags & OR_HEADER_SENT)) { // Automatic header write
-    // write_headers puts the headers before the data at the buffer
+  if (!(res->flags & OR_HEADER_SENT))   // Automatic header write, puts the headers before the data at the buffer
     onion_response_write_headers(res);
+  res->sent_bytes += res->buffer_pos;
+  res->sent_bytes_total += res->buffer_pos;
+  if (res->buffer_pos == 0)
     return 0;
-  }
   if (res->flags & OR_SKIP_CONTENT)     // HEAD request
     return 0;
   ONION_DEBUG0("Flush %d bytes", res->buffer_pos);
-- 
2.43.0


From 5e5ae83f6c00452ab098815e829e8c5e43479950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:49 +0000
Subject: [PATCH 019/104] fix: after a write error nothing else is sent and the
 connection is closed, and no write may be partial

---
 src/onion/response.c       | 69 ++++++++++++++++++--------------------
 src/onion/types_internal.h |  1 +
 2 files changed, 34 insertions(+), 36 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 2e792a3..cd2a153 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -45,6 +45,7 @@
 /// @defgroup response Response. Write response data to client: headers, content body...
 
 const char *onion_response_code_description(int code);
+static void write_all(onion_response * res, const char *data, size_t length);
 
 // DONT_USE_DATE_HEADER is not defined anywhere, but here just in case needed in the future.
 
@@ -87,6 +88,7 @@ onion_response *onion_response_new(onion_request * req) {
   res->flags = 0;
   res->sent_bytes_total = res->length = res->sent_bytes = 0;
   res->buffer_pos = 0;
+  res->write_error = false;
 
 #ifndef DONT_USE_DATE_HEADER
   {
@@ -169,7 +171,7 @@ onion_connection_status onion_response_free(onion_response * res) {
   onion_request *req = res->request;
 
   if (res->flags & OR_CHUNKED) {        // Set the chunked data end.
-    req->connection.listen_point->write(req, "0\r\n\r\n", 5);
+    write_all(res, "0\r\n\r\n", 5);
   }
 
   int r = OCS_CLOSE_CONNECTION;
@@ -181,7 +183,7 @@ onion_connection_status onion_response_free(onion_response * res) {
         ("keep alive [req wants] %d && ([skip] %d || [lenght ok] %d==%d || [chunked] %d)",
          onion_request_keep_alive(req), res->flags & OR_SKIP_CONTENT,
          res->length, res->sent_bytes, res->flags & OR_CHUNKED);
-    if (onion_request_keep_alive(req)
+    if (!res->write_error && onion_request_keep_alive(req)
         && (res->flags & OR_SKIP_CONTENT || res->length == res->sent_bytes
             || res->flags & OR_CHUNKED)
         )
@@ -400,6 +402,26 @@ ssize_t onion_response_write(onion_response * res, const char *data,
   return w;
 }
 
+/**
+ * @short Writes all the data to the connection, no matter if it is in several steps.
+ *
+ * If there is an error nothing else is written for this response: the other side would get it with a hole.
+ */
+static void write_all(onion_response * res, const char *data, size_t length) {
+  onion_request *req = res->request;
+  while (length > 0 && !res->write_error) {
+    ssize_t w = req->connection.listen_point->write(req, data, length);
+    if (w <= 0) {
+      ONION_CALL_MAX_ONCE_PER_T_COUNT(1, ONION_ERROR, "Error writing %d bytes (%s). Maybe closed connection. (x%u)",
+        (int)length, strerror(errno));
+      res->write_error = true;
+      return;
+    }
+    data += w;
+    length -= w;
+  }
+}
+
 /**
  * @short Writes all buffered output waiting for sending.
  * @ingroup response
@@ -413,7 +435,8 @@ int onion_response_flush(onion_response * res) {
   if (res->buffer_pos == 0)     // Not used.
     return 0;
   if (!(res->flags & OR_HEADER_SENT))   // Automatic header write, puts the headers before the data at the buffer
-    onion_response_write_headers(res);
+    if (onion_response_write_headers(res) < 0)
+      return OCS_CLOSE_CONNECTION;
   res->sent_bytes += res->buffer_pos;
   res->sent_bytes_total += res->buffer_pos;
   if (res->buffer_pos == 0)
@@ -422,45 +445,19 @@ int onion_response_flush(onion_response * res) {
     return 0;
   ONION_DEBUG0("Flush %d bytes", res->buffer_pos);
 
-  onion_request *req = res->request;
-  ssize_t(*write) (onion_request *, const char *data, size_t len);
-  write = req->connection.listen_point->write;
-
-  ssize_t w;
-  off_t pos = 0;
-  //ONION_DEBUG0("Write %d bytes",res->buffer_pos);
-  if (res->flags & OR_CHUNKED) {
-    char tmp[16];
-    snprintf(tmp, sizeof(tmp), "%X\r\n", (unsigned int)res->buffer_pos);
-    if ((w = write(req, tmp, strlen(tmp))) <= 0) {
-      ONION_CALL_MAX_ONCE_PER_T_COUNT(1, ONION_WARNING, "Error writing chunk encoding length (%X) %s. Aborting write. (x%u)",
-        (unsigned int)res->buffer_pos, strerror(errno));
-      
-      return OCS_CLOSE_CONNECTION;
-    }
-    ONION_DEBUG0("Write %d-%d bytes", res->buffer_pos, w);
-  }
   int savederrno = errno;
   errno = 0;
-  while ((w =
-          write(req, &res->buffer[pos], res->buffer_pos)) != res->buffer_pos) {
-    if (w <= 0 || res->buffer_pos < 0) {
-      ONION_ERROR("Error writing %d bytes (%s). Maybe closed connection. Code %d. ",
-                  res->buffer_pos, strerror(errno), w);
-      res->buffer_pos = 0;
-      errno = savederrno;
-      return OCS_CLOSE_CONNECTION;
-    }
-    pos += w;
-    ONION_DEBUG0("Write %d-%d bytes", res->buffer_pos, w);
-    res->buffer_pos -= w;
-  }
   if (res->flags & OR_CHUNKED) {
-    write(req, "\r\n", 2);
+    char tmp[16];
+    snprintf(tmp, sizeof(tmp), "%X\r\n", (unsigned int)res->buffer_pos);
+    write_all(res, tmp, strlen(tmp));
   }
+  write_all(res, res->buffer, res->buffer_pos);
+  if (res->flags & OR_CHUNKED)
+    write_all(res, "\r\n", 2);
   res->buffer_pos = 0;
   errno = savederrno;
-  return 0;
+  return res->write_error ? OCS_CLOSE_CONNECTION : 0;
 }
 
 /// Writes a 0-ended string to the response.
diff --git a/src/onion/types_internal.h b/src/onion/types_internal.h
index 994333e..0301c59 100644
--- a/src/onion/types_internal.h
+++ b/src/onion/types_internal.h
@@ -120,6 +120,7 @@ extern "C" {
     unsigned int length;        /// Length, if known, of the response, to create the Content-Lenght header. 
     unsigned int sent_bytes;    /// Sent bytes at content.
     unsigned int sent_bytes_total;      /// Total sent bytes, including headers.
+    bool write_error;           /// Some data could not be sent. Nothing else is sent, and the connection has to be closed.
     char buffer[ONION_RESPONSE_BUFFER_SIZE];    /// buffer of output data. This way its do not send small chunks all the time, but blocks, so better network use. Also helps to keep alive connections with less than block size bytes.
     off_t buffer_pos;           /// Position in the internal buffer. When sizeof(buffer) its flushed to the onion IO.
   };
-- 
2.43.0


From b6e3b0606590638280aaf76a2789cb5335830e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:49 +0000
Subject: [PATCH 020/104] fix: a handler that fails after writing something
 gets the error page, and not a mix of both

---
 src/onion/handler.c | 3 +++
 src/onion/onion.c   | 9 ++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/onion/handler.c b/src/onion/handler.c
index 90a353e..8e37870 100644
--- a/src/onion/handler.c
+++ b/src/onion/handler.c
@@ -66,6 +66,9 @@ onion_connection_status onion_handler_handle(onion_handler * handler,
 #endif
       res = handler->handler(handler->priv_data, request, response);
       ONION_DEBUG0("Result: %d", res);
+      if (res == OCS_INTERNAL_ERROR || res == OCS_NOT_IMPLEMENTED
+          || res == OCS_FORBIDDEN)      // The error page is to be written
+        return res;
       if (res) {
         // write pending data.
         if (!(response->flags & OR_HEADER_SENT)
diff --git a/src/onion/onion.c b/src/onion/onion.c
index 279fd18..c0cdda9 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -798,9 +798,12 @@ static int onion_default_error(void *handler, onion_request * req,
 
   ONION_DEBUG0("Internally managed error: %s, code %d.", msg, code);
 
-  onion_response_set_code(res, code);
-  onion_response_set_length(res, l);
-  onion_response_write_headers(res);
+  if (!(res->flags & OR_HEADER_SENT)) { // Do not mix with whatever was written before the error
+    res->buffer_pos = 0;
+    onion_response_set_code(res, code);
+    onion_response_set_length(res, l);
+    onion_response_write_headers(res);
+  }
 
   onion_response_write(res, msg, l);
   return OCS_PROCESSED;
-- 
2.43.0


From 5cfe919f5c57ffbb9dff21cd34af72e0781bebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:49 +0000
Subject: [PATCH 021/104] fix: handlers that return OCS_FORBIDDEN get the 403
 error page

---
 src/onion/request.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 00e0af3..f03d4f3 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -579,8 +579,8 @@ onion_connection_status onion_request_process(onion_request * req) {
       onion_handler_handle(req->connection.listen_point->server->root_handler,
                            req, res);
 
-  if (hs == OCS_INTERNAL_ERROR ||
-      hs == OCS_NOT_IMPLEMENTED || hs == OCS_NOT_PROCESSED) {
+  if (hs == OCS_INTERNAL_ERROR || hs == OCS_NOT_IMPLEMENTED
+      || hs == OCS_NOT_PROCESSED || hs == OCS_FORBIDDEN) {
     if (hs == OCS_INTERNAL_ERROR)
       req->flags |= OR_INTERNAL_ERROR;
     if (hs == OCS_NOT_IMPLEMENTED)
-- 
2.43.0


From 14fa8283e039c3b04bde8abd9d70ee9e10d47e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:49 +0000
Subject: [PATCH 022/104] fix: an error handler that does not process the
 request does not keep an unusable connection open

---
 src/onion/request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index f03d4f3..d07273f 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -606,7 +606,7 @@ onion_connection_status onion_request_process(onion_request * req) {
   int rs = onion_response_free(res);
   if (hs >= 0 && rs == OCS_KEEP_ALIVE)  // if keep alive, reset struct to get the new request.
     onion_request_clean(req);
-  return hs > 0 ? rs : hs;
+  return hs >= 0 ? rs : hs;
 }
 
 /**
-- 
2.43.0


From a0b4aa163509296555a4920e01be3d0a82e61ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:49 +0000
Subject: [PATCH 023/104] fix: end the session cookie header in CRLF

---
 src/onion/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index cd2a153..c6276b7 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -325,7 +325,7 @@ int onion_response_write_headers(onion_response * res) {
   onion_dict_preorder(res->headers, write_header, res);
 
   if (res->request->session_id && (onion_dict_count(res->request->session) > 0))        // I have session with something, tell user
-    onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\n",
+    onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\r\n",
                           res->request->session_id);
 
   onion_response_write(res, "\r\n", 2);
-- 
2.43.0


From b88b9616b2ca0bc5af129b7c14ab1950e157536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:49 +0000
Subject: [PATCH 024/104] fix: no chunk framing on 204 and 304 responses, and
 close the connection when the response says so

---
 src/onion/response.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index c6276b7..0020005 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -295,12 +295,15 @@ int onion_response_write_headers(onion_response * res) {
   res->flags |= OR_HEADER_SENT; // I Set at the begining so I can do normal writing.
   res->request->flags |= OR_HEADER_SENT;
   char chunked = 0;
+  // Responses with these codes have no content, nor its framing
+  bool no_content = (res->code == 204 || res->code == HTTP_NOT_MODIFIED);
 
   if (res->request->flags & OR_HTTP11) {
     onion_response_printf(res, "HTTP/1.1 %d %s\r\n", res->code,
                           onion_response_code_description(res->code));
     //ONION_DEBUG("Response header: HTTP/1.1 %d %s\n",res->code, onion_response_code_description(res->code));
-    if (!(res->flags & OR_LENGTH_SET) && onion_request_keep_alive(res->request)) {
+    if (!(res->flags & OR_LENGTH_SET) && !no_content
+        && onion_request_keep_alive(res->request)) {
       onion_response_write(res, CONNECTION_CHUNK_ENCODING,
                            sizeof(CONNECTION_CHUNK_ENCODING) - 1);
       chunked = 1;
@@ -315,8 +318,10 @@ int onion_response_write_headers(onion_response * res) {
   }
 
   if (!(res->flags & OR_LENGTH_SET) && !chunked
-      && !(res->flags & OR_CONNECTION_UPGRADE))
+      && !(res->flags & OR_CONNECTION_UPGRADE)) {
     onion_response_write(res, CONNECTION_CLOSE, sizeof(CONNECTION_CLOSE) - 1);
+    onion_request_set_no_keep_alive(res->request);      // As said
+  }
 
   if (res->flags & OR_CONNECTION_UPGRADE)
     onion_response_write(res, CONNECTION_UPGRADE,
@@ -333,7 +338,7 @@ int onion_response_write_headers(onion_response * res) {
   ONION_DEBUG0("Headers written");
   res->sent_bytes = -res->buffer_pos;   // the header size is not counted here. It will add again so start negative.
 
-  if ((res->request->flags & OR_METHODS) == OR_HEAD) {
+  if (no_content || (res->request->flags & OR_METHODS) == OR_HEAD) {
     onion_response_flush(res);
     res->flags |= OR_SKIP_CONTENT;
     return OR_SKIP_CONTENT;
-- 
2.43.0


From 747c010f98b5fb6280501cfd4327c79dd1a928db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:12 +0000
Subject: [PATCH 025/104] fix: a long write on the response of a HEAD request
 does not hang the server

---
 src/onion/response.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 0020005..c0c815b 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -446,8 +446,10 @@ int onion_response_flush(onion_response * res) {
   res->sent_bytes_total += res->buffer_pos;
   if (res->buffer_pos == 0)
     return 0;
-  if (res->flags & OR_SKIP_CONTENT)     // HEAD request
+  if (res->flags & OR_SKIP_CONTENT) {   // HEAD request
+    res->buffer_pos = 0;
     return 0;
+  }
   ONION_DEBUG0("Flush %d bytes", res->buffer_pos);
 
   int savederrno = errno;
-- 
2.43.0


From 0a0a07603b0878a28f63ac99e73f9be986c590dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:25 +0000
Subject: [PATCH 026/104] fix: flush and write report the errors that happened
 while sending the headers

---
 src/onion/response.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index c0c815b..e4ff513 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -438,17 +438,17 @@ static void write_all(onion_response * res, const char *data, size_t length) {
  */
 int onion_response_flush(onion_response * res) {
   if (res->buffer_pos == 0)     // Not used.
-    return 0;
+    return res->write_error ? OCS_CLOSE_CONNECTION : 0;
   if (!(res->flags & OR_HEADER_SENT))   // Automatic header write, puts the headers before the data at the buffer
     if (onion_response_write_headers(res) < 0)
       return OCS_CLOSE_CONNECTION;
   res->sent_bytes += res->buffer_pos;
   res->sent_bytes_total += res->buffer_pos;
   if (res->buffer_pos == 0)
-    return 0;
+    return res->write_error ? OCS_CLOSE_CONNECTION : 0;
   if (res->flags & OR_SKIP_CONTENT) {   // HEAD request
     res->buffer_pos = 0;
-    return 0;
+    return res->write_error ? OCS_CLOSE_CONNECTION : 0;
   }
   ONION_DEBUG0("Flush %d bytes", res->buffer_pos);
 
-- 
2.43.0


From 21325ee12a812a96626183e9b5c89ae84f2dde18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:52 +0000
Subject: [PATCH 027/104] fix: response headers set with another case replace
 the previous ones

---
 src/onion/response.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/response.c b/src/onion/response.c
index e4ff513..233157c 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -84,6 +84,7 @@ onion_response *onion_response_new(onion_request * req) {
 
   res->request = req;
   res->headers = onion_dict_new();
+  onion_dict_set_flags(res->headers, OD_ICASE);
   res->code = 200;              // The most normal code, so no need to overwrite it in other codes.
   res->flags = 0;
   res->sent_bytes_total = res->length = res->sent_bytes = 0;
-- 
2.43.0


From f837e2bf10349c0cb27dbc1696fd2e8157211b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:37 +0000
Subject: [PATCH 028/104] fix: no double free when the connection ends in the
 middle of an urlencoded body

---
 src/onion/request_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 6ab392e..37b391e 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -768,7 +768,8 @@ static onion_connection_status parse_POST_urlencode(onion_request * req,
 
   req->POST = onion_dict_new();
   onion_request_parse_query_to_dict(req->POST, token->extra);
-  token->extra = NULL;          // At query to dict, it keeps the pointer and free it when POST is freed.
+  req->free_list = onion_ptr_list_add(req->free_list, token->extra);    // The POST dict points into it. Free when the request is freed.
+  token->extra = NULL;
 
   return OCS_REQUEST_READY;
 }
@@ -1124,7 +1125,6 @@ static onion_connection_status prepare_POST(onion_request * req) {
     assert(token->extra == NULL);
     token->extra = onion_low_scalar_malloc(cl + 1);     // Cl + \0
     token->extra_size = cl;
-    req->free_list = onion_ptr_list_add(req->free_list, token->extra);  // Free when the request is freed.
 
     req->parser = parse_POST_urlencode;
     return OCS_NEED_MORE_DATA;
-- 
2.43.0


From a1b495bd0d92894208affcba543ed01950619585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:02 +0000
Subject: [PATCH 029/104] fix: optional groups of url regexps that do not match
 hide the groups after them

---
 src/onion/url.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/onion/url.c b/src/onion/url.c
index 4d0d643..8eb146e 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -98,8 +98,7 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
           snprintf(tmpn, sizeof(tmpn), "%d", i);
           onion_dict_add(reqheader, tmpn, tmp, OD_DUP_KEY | OD_FREE_VALUE);
           ONION_DEBUG("Add group %d: %s (%d-%d)", i, tmp, rm->rm_so, rm->rm_eo);
-        } else
-          break;
+        }                       // else, optional group that is not there. There may be more after it.
       }
       onion_request_advance_path(request, match[0].rm_eo);
       ONION_DEBUG0("Ok, regexp match.");
-- 
2.43.0


From 995f7fab18b5ca318f513e34a5d3ab331a7a4cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:48 +0000
Subject: [PATCH 030/104] fix: handlers after a url or path handler that
 declines get the path as it was

---
 src/onion/handlers/path.c |  5 ++++-
 src/onion/url.c           | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/path.c b/src/onion/handlers/path.c
index 53e27c0..92c9793 100644
--- a/src/onion/handlers/path.c
+++ b/src/onion/handlers/path.c
@@ -54,7 +54,10 @@ int onion_handler_path_handler(onion_handler_path_data * d,
 
   onion_request_advance_path(request, match[0].rm_eo);
 
-  return onion_handler_handle(d->inside, request, response);
+  int ret = onion_handler_handle(d->inside, request, response);
+  if (ret == OCS_NOT_PROCESSED) // Next handlers need the path as it was
+    onion_request_advance_path(request, -(off_t) match[0].rm_eo);
+  return ret;
 }
 
 void onion_handler_path_delete(void *data) {
diff --git a/src/onion/url.c b/src/onion/url.c
index 8eb146e..5e81f6b 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -80,7 +80,10 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
         ONION_DEBUG0("Ok, simple match.");
 
         onion_request_advance_path(request, strlen(next->str));
-        return onion_handler_handle(next->inside, request, response);
+        int ret = onion_handler_handle(next->inside, request, response);
+        if (ret == OCS_NOT_PROCESSED)   // Next handlers need the path as it was
+          onion_request_advance_path(request, -(off_t) strlen(next->str));
+        return ret;
       }
     } else
         if (regexec
@@ -103,7 +106,10 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
       onion_request_advance_path(request, match[0].rm_eo);
       ONION_DEBUG0("Ok, regexp match.");
 
-      return onion_handler_handle(next->inside, request, response);
+      int ret = onion_handler_handle(next->inside, request, response);
+      if (ret == OCS_NOT_PROCESSED)     // Next handlers need the path as it was
+        onion_request_advance_path(request, -(off_t) match[0].rm_eo);
+      return ret;
     }
 
     next = next->next;
-- 
2.43.0


From 717647aa186af81cb2626ba4bc1fde8d0bf3dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:08 +0000
Subject: [PATCH 031/104] fix: exports do not reach directories whose name
 starts as the exported one

---
 src/onion/handlers/exportlocal.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index df4051b..f22f9af 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -89,7 +89,10 @@ int onion_handler_export_local_handler(onion_handler_export_local_data * d,
   }
 
   const char *ret = realpath(tmp, realp);
-  if (!ret || strncmp(realp, d->localpath, strlen(d->localpath)) != 0) {        // out of secured dir.
+  size_t l = strlen(d->localpath);
+  if (l > 0 && d->localpath[l - 1] == '/')      // Only when exporting /
+    l--;
+  if (!ret || strncmp(realp, d->localpath, l) != 0 || (realp[l] != '\0' && realp[l] != '/')) { // out of secured dir.
     ONION_WARNING
         ("Trying to escape from secured dir (secured dir %s, trying %s).",
          d->localpath, realp);
-- 
2.43.0


From 2ba9b93037e55b0da146014e9cb42625984902b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:09 +0000
Subject: [PATCH 032/104] fix: directory listings skip what can not be read
 instead of showing stale data

---
 src/onion/handlers/exportlocal.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index f22f9af..3c52e1a 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -187,13 +187,14 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
 
   struct dirent *fi;
   struct stat st;
-  char temp[1024];
+  char temp[PATH_MAX + 256];
   struct passwd *pwd;
   while ((fi = readdir(dir)) != NULL) {
     if (fi->d_name[0] == '.')
       continue;
     snprintf(temp, sizeof(temp), "%s/%s", realp, fi->d_name);
-    stat(temp, &st);
+    if (stat(temp, &st) != 0)
+      continue;                 // Maybe a dangling link, or just removed.
     pwd = getpwuid(st.st_uid);
 
     if (S_ISDIR(st.st_mode))
-- 
2.43.0


From 4ebb0eb8a8f8f36d7d3366c90f2ba9ebbf4eda32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:09 +0000
Subject: [PATCH 033/104] fix: no stack overflow sending a file when the Range
 header is long

---
 src/onion/shortcuts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 860a2be..40c1242 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -193,12 +193,12 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   if (length > 0x7ffff000) // ~2GB
     use_sendfile = 0; // - a documented limitation for sendfile() command
 
-  char etag[64];
+  char etag[2048];
   onion_shortcut_etag(&st, etag);
 
   const char *range = onion_request_get_header(request, "Range");
   if (range) {
-    strncat(etag, range, sizeof(etag) - 1);
+    strncat(etag, range, sizeof(etag) - strlen(etag) - 1);
   }
   onion_response_set_header(res, "Etag", etag);
 
-- 
2.43.0


From b39a29b7659841538758bbde34cc895a6201cf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:09 +0000
Subject: [PATCH 034/104] fix: files are sent with their content for any method
 but HEAD

---
 src/onion/shortcuts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 40c1242..72d5191 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -259,7 +259,7 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     return OCS_PROCESSED;
   }
   onion_response_write_headers(res);
-  if ((onion_request_get_flags(request) & OR_HEAD) == OR_HEAD) {        // Just head.
+  if ((onion_request_get_flags(request) & OR_METHODS) == OR_HEAD) {        // Just head.
     length = 0;
   }
 
-- 
2.43.0


From d5222bd8cee934887b0f9168bb214b08071b1bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:09 +0000
Subject: [PATCH 035/104] fix: ranges are kept inside the file, and the last
 bytes can be asked for

---
 src/onion/shortcuts.c | 76 +++++++++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 21 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 72d5191..a57a703 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -33,6 +33,8 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <time.h>
+#include <ctype.h>
+#include <limits.h>
 #include <errno.h>
 #ifdef USE_SENDFILE
 #include <sys/sendfile.h>
@@ -137,6 +139,51 @@ onion_connection_status onion_shortcut_internal_redirect(const char *newurl,
                               root_handler, req, res);
 }
 
+/**
+ * @short Parses what goes after "bytes=" on a Range header, for a file of that length.
+ *
+ * Knows about "start-end", "start-" and "-last bytes".
+ *
+ * @returns 1 if must send from starts to ends, both included; 0 if the range should be ignored, as it is
+ *          not understood, and -1 if there is nothing to send for that range.
+ */
+static int onion_shortcut_parse_range(const char *range, size_t length,
+                                      size_t * starts, size_t * ends) {
+  char *p;
+  unsigned long long from, to;
+  if (*range == '-') {          // The last bytes
+    if (!isdigit((unsigned char)range[1]))
+      return 0;
+    to = strtoull(range + 1, &p, 10);
+    if (*p)
+      return 0;
+    if (to == 0 || length == 0)
+      return -1;
+    *starts = (to < length) ? length - to : 0;
+    *ends = length - 1;
+    return 1;
+  }
+  if (!isdigit((unsigned char)*range))
+    return 0;
+  from = strtoull(range, &p, 10);
+  if (*p != '-')
+    return 0;
+  range = p + 1;
+  to = ULLONG_MAX;
+  if (*range) {
+    if (!isdigit((unsigned char)*range))
+      return 0;
+    to = strtoull(range, &p, 10);
+    if (*p)
+      return 0;
+  }
+  if (from > to || from >= length)
+    return -1;
+  *starts = from;
+  *ends = (to < length) ? to : length - 1;
+  return 1;
+}
+
 /**
  * @short This shortcut returns the given file contents.
  * @ingroup shortcuts
@@ -203,32 +250,19 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   onion_response_set_header(res, "Etag", etag);
 
   if (range && strncmp(range, "bytes=", 6) == 0) {
-    onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
     //ONION_DEBUG("Need just a range: %s",range);
     char tmp[1024];
     if (strlen(range + 6) >= sizeof(tmp)) {
       close(fd);
       return OCS_INTERNAL_ERROR;        // Bad specified range. Very bad indeed.
     }
-    strncpy(tmp, range + 6, sizeof(tmp) - 1);
-    char *start = tmp;
-    char *end = tmp;
-    while (*end != '-' && *end)
-      end++;
-    if (*end == '-') {
-      *end = '\0';
-      end++;
-
-      //ONION_DEBUG("Start %s, end %s",start,end);
-      size_t ends, starts;
-      if (*end)
-        ends = atol(end);
-      else
-        ends = length - 1;
-      starts = atol(start);
-      if (starts > ends || starts > length) {
+    size_t ends, starts;
+    int ok = onion_shortcut_parse_range(range + 6, length, &starts, &ends);
+    if (ok) {
+      onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
+      if (ok < 0) {
         ONION_DEBUG0("Range not satisfiable");
-        snprintf(tmp, sizeof(tmp), "bytes */%d", (unsigned int)length);
+        snprintf(tmp, sizeof(tmp), "bytes */%lu", (unsigned long)length);
         onion_response_set_header(res, "Content-Range", tmp);
         onion_response_set_code(res, HTTP_RANGE_NOT_SATISFIABLE);
         onion_response_write_headers(res);
@@ -237,8 +271,8 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
       }
       length = ends - starts + 1;
       lseek(fd, starts, SEEK_SET);
-      snprintf(tmp, sizeof(tmp), "bytes %d-%d/%d", (unsigned int)starts,
-               (unsigned int)ends, (unsigned int)st.st_size);
+      snprintf(tmp, sizeof(tmp), "bytes %lu-%lu/%lu", (unsigned long)starts,
+               (unsigned long)ends, (unsigned long)st.st_size);
       //onion_response_set_header(res, "Accept-Ranges","bytes");
       onion_response_set_header(res, "Content-Range", tmp);
     }
-- 
2.43.0


From 1ed1546a8ad8c72a685b515a06797d669daa9557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:09 +0000
Subject: [PATCH 036/104] fix: sending a file ends even if it shrinks, and
 partial sends are continued

---
 src/onion/shortcuts.c | 47 +++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index a57a703..cd9c303 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -300,48 +300,47 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   if (length) {
 #ifdef USE_SENDFILE
     if (use_sendfile && request->connection.listen_point->write == (void *)onion_http_write) {  // Lets have a house party! I can use sendfile!
-      onion_response_write(res, NULL, 0);
+      size_t left = length;
+      ssize_t r = onion_response_flush(res);
       ONION_DEBUG("Using sendfile");
-      int r = sendfile(request->connection.fd, fd, NULL, length);
-      ONION_DEBUG("Wrote %d, should be %d (%s)", r, length,
-                  r == length ? "ok" : "nok");
-      if (r != length || r < 0) {
+      while (r >= 0 && left > 0) {      // It may send just a part
+        r = sendfile(request->connection.fd, fd, NULL, left);
+        if (r == 0 || (r < 0 && errno != EINTR))
+          break;
+        if (r > 0)
+          left -= r;
+        r = 0;
+      }
+      if (left > 0) {           // Headers are gone already, no way to tell but closing.
         ONION_ERROR("Could not send all file (%s)", strerror(errno));
         close(fd);
-        return OCS_INTERNAL_ERROR;
+        return OCS_CLOSE_CONNECTION;
       }
       res->sent_bytes += length;
       res->sent_bytes_total += length;
     } else
 #endif
     {                           // Ok, no I cant, do it as always.
-      int r = 0, w;
+      int r, w;
       size_t tr = 0;
       char tmp[4046];
-      if (length > sizeof(tmp)) {
-        size_t max = length - sizeof(tmp);
-        while (tr < max) {
-          r = read(fd, tmp, sizeof(tmp));
-          tr += r;
-          if (r < 0)
-            break;
-          w = onion_response_write(res, tmp, r);
-          if (w != r) {
-            ONION_ERROR
-                ("Wrote less than read: write %d, read %d. Quite probably closed connection.",
-                 w, r);
-            break;
-          }
+      while (tr < length) {
+        size_t l = length - tr;
+        r = read(fd, tmp, l < sizeof(tmp) ? l : sizeof(tmp));
+        if (r <= 0) {           // Error, or the file is shorter now
+          ONION_ERROR("Could not read all file");
+          close(fd);
+          return OCS_CLOSE_CONNECTION;
         }
-      }
-      if (sizeof(tmp) >= (length - tr)) {
-        r = read(fd, tmp, length - tr);
         w = onion_response_write(res, tmp, r);
         if (w != r) {
           ONION_ERROR
               ("Wrote less than read: write %d, read %d. Quite probably closed connection.",
                w, r);
+          close(fd);
+          return OCS_CLOSE_CONNECTION;
         }
+        tr += r;
       }
     }
   }
-- 
2.43.0


From c184cc3f8a29442064162060a6cfa203b2432e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:31 +0000
Subject: [PATCH 037/104] fix: long names in mime.types do not lose other types

---
 src/onion/mime.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index ea2925b..efddef1 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -111,7 +111,7 @@ static void onion_mime_fill() {
     return;
   }
   char mimetype[128];
-  char extension[8];
+  char extension[64];
   int mode = 0;                 // 0 mimetype, 1 extension
   int i = 0;
   int c;
@@ -144,16 +144,14 @@ static void onion_mime_fill() {
         if (mode == 0) {
           if (i >= sizeof(mimetype) - 1) {
             while ((c = getc(fd)) >= 0 && c != '\n') ;
+            i = 0;
           } else
             mimetype[i++] = c;
         } else {
           if (i >= sizeof(extension) - 1) {
             while ((c = getc(fd)) >= 0 && c != '\n') ;
-            extension[i] = '\0';
             i = 0;
             mode = 0;
-            onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
-            //ONION_DEBUG("Add mimetype '%s' (%s)..", extension, mimetype);
           } else
             extension[i++] = c;
         }
-- 
2.43.0


From ea6f2aa14fe6d4fc3b04aacef4d28e5544c0d178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:31 +0000
Subject: [PATCH 038/104] fix: onion_mime_update replaces the type of an
 extension it knows

---
 src/onion/mime.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index efddef1..2a1bb93 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -174,7 +174,8 @@ void onion_mime_update(const char *extension, const char *mimetype) {
     onion_mime_fill();
 
   if (mimetype)
-    onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
+    onion_dict_add(onion_mime_dict, extension, mimetype,
+                   OD_DUP_ALL | OD_REPLACE);
   else
     onion_dict_remove(onion_mime_dict, extension);
 }
-- 
2.43.0


From a633b7a567e3bce7b0136c7db3479a7eaf7d26c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:37 +0000
Subject: [PATCH 039/104] fix: base64 decoding refuses what is not base64, and
 stays within its input

---
 src/onion/codecs.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index ffd621e..c995796 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -41,7 +41,7 @@
 /// @defgroup codecs Codecs. Some basic web codecs support: base64, url encoding...
 
 /// Decode table. Its the inverse of the code table. (cb64).
-static const char db64[] = {    // 16 bytes each line, 8 lines. Only 128 registers
+static const unsigned char db64[] = {   // 16 bytes each line, 8 lines. Only 128 registers
   255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,       // 16
   255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,       // 32
   255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 62, 255, 255, 255, 63, // 48
@@ -73,7 +73,9 @@ static u_int8_t onion_base64_decode_get_next(const char **I){
   }
   // ONION_DEBUG("GET %c", (char)c);
   (*I)++;
-  return db64[c];
+  if (c == '=')                 // Padding, checked by the caller.
+    return 0;
+  return (c < sizeof(db64)) ? db64[c] : 255;
 }
 
 /**
@@ -100,14 +102,21 @@ char *onion_base64_decode(const char *orig, int *length) {
   }
 
   int ol = 0;
+  int padding = 0;
   for (I=orig; I <= endI; ++I){
     const char c = *I;
     if (c != '\n' && c != '\r' && c != ' '){
       ol++;
+      if (c == '=')
+        padding++;
+      else if (padding) {
+        ONION_DEBUG("Invalid Base64 string. Data after the padding");
+        return NULL;
+      }
     }
   }
 
-  if ((ol & 3) != 0){
+  if ((ol & 3) != 0 || padding > 2){
     ONION_DEBUG("Invalid Base64 string. %d is not mod 4", ol);
     return NULL;
   }
@@ -118,18 +127,26 @@ char *onion_base64_decode(const char *orig, int *length) {
 
   if (ol == 0){
     ONION_DEBUG("Empty base64 string.");
+    *ret = 0;
     return ret;
   }
 
   I = orig;
   char *J = ret;
-  while (I < endI){
+  int groups;
+  for (groups = ol / 4; groups > 0; groups--){
     // ONION_DEBUG("I %p endI %p", I, endI);
     const u_int8_t c1 = onion_base64_decode_get_next(&I);
     const u_int8_t c2 = onion_base64_decode_get_next(&I);
     const u_int8_t c3 = onion_base64_decode_get_next(&I);
     const u_int8_t c4 = onion_base64_decode_get_next(&I);
 
+    if (c1 == 255 || c2 == 255 || c3 == 255 || c4 == 255){
+      ONION_DEBUG("Invalid Base64 string. Unknown character");
+      onion_low_free(ret);
+      return NULL;
+    }
+
     *J++ = ((c1 & 0x3F) << 2) + ((c2 & 0x30) >> 4);
     *J++ = ((c2 & 0x0F) << 4) + ((c3 & 0x3C) >> 2);
     *J++ = ((c3 & 0x03) << 6) + (c4);
@@ -139,11 +156,7 @@ char *onion_base64_decode(const char *orig, int *length) {
   *J = 0;
 
   // ONION_DEBUG("Two end? %c %c // ll %d, %d", *(I - 2), *(I - 1), max_length,  J - ret);
-  int ll = J - ret;
-  if (*(I - 2) == '=')
-    ll = ll - 2;
-  else if (*(I - 1) == '=')
-    ll = ll - 1;
+  int ll = J - ret - padding;
 
   ret[ll] = 0;
 
-- 
2.43.0


From 634c20262f7af3b21f84e7aad43b491947e7e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:37 +0000
Subject: [PATCH 040/104] fix: onion_quote does not write past maxlength

---
 src/onion/codecs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index c995796..0c732ec 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -314,13 +314,13 @@ int onion_quote(const char *str, char *res, int maxlength) {
   int l = strlen(str);
   int i;
   for (i = 0; i < l; i++) {
-    if (i >= maxlength)
+    if (nl + 1 >= maxlength)
       break;
     char c = str[i];
     if (is_alnum(c))
       res[nl++] = c;
     else {
-      if (i + 2 >= maxlength)
+      if (nl + 3 >= maxlength)
         break;
 
       res[nl++] = '%';
-- 
2.43.0


From eabc6184978a3707c471db422aeaaa4ddb894f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:37 +0000
Subject: [PATCH 041/104] fix: onion_c_quote fits what it writes in the given
 size, and always closes the quotes

---
 src/onion/codecs.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 0c732ec..31a2a15 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -361,6 +361,16 @@ char *onion_c_quote(const char *str, char *ret, int l) {
   *r++ = '"';
   l -= 3;                       // both " at start and end, and \0
   while (*p != '\0') {
+    int need = 1;
+    if (*p == '\n')
+      need = 5;
+    else if (*p == '\r' || *p == '"' || *p == '\\' || *p == '\t')
+      need = 2;
+    else if (*p > 127)
+      need = 4;
+    if (need > l)               // does not fit!
+      break;
+    l -= need;
     if (*p == '\n') {
       *r = '\\';
       r++;
@@ -389,10 +399,6 @@ char *onion_c_quote(const char *str, char *ret, int l) {
       *r = 't';
     } else if (*p > 127) {
       int c = *p;
-      if (l < 4) {              // does not fit!
-        *r = '\0';
-        return ret;
-      }
       *r = '\\';
       r++;
       *r = '0' + ((c >> 6) & 0x03);
@@ -405,11 +411,6 @@ char *onion_c_quote(const char *str, char *ret, int l) {
     }
     r++;
     p++;
-    l--;
-    if (l <= 0) {
-      *r = '\0';
-      break;
-    }
   }
   *r++ = '"';
   *r++ = '\0';
-- 
2.43.0


From 9ee4c764557916a0b56b097a2f5924414647863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:37 +0000
Subject: [PATCH 042/104] fix: onion_c_quote writes carriage returns as such

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 31a2a15..97c8248 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -384,7 +384,7 @@ char *onion_c_quote(const char *str, char *ret, int l) {
     } else if (*p == '\r') {
       *r = '\\';
       r++;
-      *r = 'n';
+      *r = 'r';
     } else if (*p == '"') {
       *r = '\\';
       r++;
-- 
2.43.0


From 5c5b050c89184bc9c14d3e0c764be15134ebb9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:37 +0000
Subject: [PATCH 043/104] fix: onion_html_quote_dup of texts with nothing to
 quote

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 97c8248..34371b8 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -539,7 +539,7 @@ const char *onion_html_quote_dup(const char *str) {
   if (quostr != NULL)
     return quostr;
   else
-    return onion_low_strdup(quostr);
+    return onion_low_strdup(str);
 }
 
 /**
-- 
2.43.0


From 5590692731ecffb413ceca88b25340c87b39d1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:37 +0000
Subject: [PATCH 044/104] fix: JSON texts with no closing quote are errors, not
 read past their end

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 34371b8..661f255 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -709,7 +709,7 @@ ssize_t onion_json_unquote_add(onion_block * block, const char *str) {
         continue;
       }
     }
-    if (!eos && !*data) {       // \0, expecting \" as eos
+    if (eos && !*data) {       // \0, expecting \" as eos
       ONION_DEBUG("Expected \" got eof");
       return -1;
     }
-- 
2.43.0


From fe54d2087e1bf8065922b63e29c8a53cfe4ac7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:37 +0000
Subject: [PATCH 045/104] fix: JSON keys must be quoted

---
 src/onion/dict.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index 6712594..7d90f63 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -773,6 +773,10 @@ static onion_dict *onion_dict_from_json_(const char **_data) {
   onion_block *value = onion_block_new();
   while (*data != '}') {
     // Get Key
+    if (*data != '"') {         // Includes \0
+      ONION_DEBUG("Expected \" got %c", *data);
+      goto error;
+    }
     ssize_t read_bytes = onion_json_unquote_add(key, data);
     if (read_bytes < 0)
       goto error;
-- 
2.43.0


From 49e88a8f9eb1a04eb438fc1e90428cbac5617f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:37 +0000
Subject: [PATCH 046/104] fix: JSON objects can not end in a comma

---
 src/onion/dict.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index 7d90f63..2326bd8 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -843,6 +843,10 @@ static onion_dict *onion_dict_from_json_(const char **_data) {
     ++data;
     while (is_json_space(*data))
       ++data;
+    if (*data == '}') {
+      ONION_DEBUG("Expected \" got }");
+      goto error;
+    }
   }
   ++data;
   *_data = data;
-- 
2.43.0


From e00b58c1df2591b0a5f511d0be03961b493b97f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:22 +0000
Subject: [PATCH 047/104] fix: websocket ping and pong opcodes are those of the
 standard

---
 src/onion/types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/types.h b/src/onion/types.h
index 5ef24be..d86ced9 100644
--- a/src/onion/types.h
+++ b/src/onion/types.h
@@ -273,8 +273,8 @@ extern "C" {
     OWS_TEXT = 1,
     OWS_BINARY = 2,
     OWS_CONNECTION_CLOSE = 8,
-    OWS_PING = 0x0a,
-    OWS_PONG = 0x0b
+    OWS_PING = 0x09,
+    OWS_PONG = 0x0a
   };
 
   typedef enum onion_websocket_opcode_e onion_websocket_opcode;
-- 
2.43.0


From eee0ed54f6aa88c1ca111bbb4860c09d961fe3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:22 +0000
Subject: [PATCH 048/104] fix: name of the websocket protocol header

---
 src/onion/websocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index cf49bef..68262f2 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -121,7 +121,7 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
   res->flags |= OR_LENGTH_SET;  // Fix for Chrome to close cleanly websocket connections
   onion_response_set_header(res, "Upgrade", "websocket");
   if (ws_protocol)
-    onion_response_set_header(res, "Sec-Websocket-Procotol", ws_protocol);
+    onion_response_set_header(res, "Sec-Websocket-Protocol", ws_protocol);
   onion_response_set_header(res, "Sec-Websocket-Accept", key_answer);
   onion_low_free(key_answer);
 
-- 
2.43.0


From 43b30ff6e93ca0fabb7aa92d258d0b54d37b5d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:22 +0000
Subject: [PATCH 049/104] fix: websocket frames are sent complete, whatever
 their length

---
 src/onion/websocket.c | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 68262f2..6c58a92 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -165,6 +165,20 @@ void onion_websocket_free(onion_websocket * ws) {
   onion_low_free(ws);
 }
 
+/// Sends all the data to the listen point. Returns <0 on error.
+static int onion_websocket_send(onion_websocket * ws, const char *data,
+                                size_t len) {
+  lpwriter_sig_t *lpwriter = ws->req->connection.listen_point->write;
+  size_t pos = 0;
+  while (pos < len) {
+    ssize_t w = (*lpwriter) (ws->req, data + pos, len - pos);
+    if (w <= 0)
+      return -1;
+    pos += w;
+  }
+  return 0;
+}
+
 /**
  * @short Writes a fragment to the websocket
  * @memberof onion_websocket_t
@@ -194,7 +208,7 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     header[1] = 0x00;           // Do not mask on send
     if (len < 126)
       header[1] |= len;
-    else if (len < 0x0FFFF) {
+    else if (len <= 0x0FFFF) {
       header[1] |= 126;
       header[2] = (len >> 8) & 0x0FF;
       header[3] = (len) & 0x0FF;
@@ -202,9 +216,9 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     } else {
       header[1] |= 127;
       int i;
-      int tlen = len;
+      int64_t tlen = len;
       for (i = 0; i < 8; i++) {
-        header[3 + 8 - i] = tlen & 0x0FF;
+        header[2 + 7 - i] = tlen & 0x0FF;
         tlen >>= 8;
       }
       hlen += 8;
@@ -217,25 +231,12 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
        }
      */
 
-    (*lpwriter) (ws->req, header, hlen);
-  }
-  /// FIXME! powerup using int32_t as basic type.
-  int ret = 0;
-  int i, j;
-  char tout[1024];
-  for (i = 0; i < len - 1024; i += 1024) {
-    for (j = 0; j < sizeof(tout); j++) {
-      //ONION_DEBUG("At %d, %02X ^ %02X = %02X", (i+j)&1023, buffer[i+j]&0x0FF, mask[j&3]&0x0FF, (buffer[i]^mask[j&3])&0x0FF);
-      tout[j] = buffer[i + j];
-    }
-    ret += (*lpwriter) (ws->req, tout, sizeof(tout));
-  }
-  for (; i < len; i++) {
-    //ONION_DEBUG("At %d, %02X ^ %02X = %02X", i&1023, buffer[i]&0x0FF, mask[i&3]&0x0FF, (buffer[i]^mask[i&3])&0x0FF);
-    tout[i & 1023] = buffer[i];
+    if (onion_websocket_send(ws, header, hlen) < 0)
+      return -1;
   }
-
-  return (*lpwriter) (ws->req, tout, len & 1023);
+  if (onion_websocket_send(ws, buffer, len) < 0)
+    return -1;
+  return len;
 }
 
 /**
-- 
2.43.0


From da76f9714f0ead65c48795cf75881c8bd0624da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:22 +0000
Subject: [PATCH 050/104] fix: onion_websocket_printf of long texts

---
 src/onion/websocket.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 6c58a92..6bec2ee 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -315,19 +315,24 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
   */
 int onion_websocket_vprintf(onion_websocket * ws, const char *fmt, va_list args) {
   char temp[512];
-  int l = vsnprintf(temp, sizeof(temp) - 1, fmt, args);
-  if (l < sizeof(temp))
-    return onion_websocket_write(ws, temp, l);
-  else {
+  va_list again;
+  va_copy(again, args);
+  int l = vsnprintf(temp, sizeof(temp), fmt, args);
+  if (l < (int)sizeof(temp)) {
+    va_end(again);
+    return (l < 0) ? -1 : onion_websocket_write(ws, temp, l);
+  } else {
     ssize_t s;
     char *buf = onion_low_scalar_malloc(l + 1);
     if (!buf) {
       // this cannot happen, since onion_low_scalar_malloc
       // handles that error...
       ONION_ERROR("Could not reserve %d bytes", l + 1);
+      va_end(again);
       return -1;
     }
-    vsnprintf(buf, l, fmt, args);
+    vsnprintf(buf, l + 1, fmt, again);
+    va_end(again);
     s = onion_websocket_write(ws, buf, l);
     onion_low_free(buf);
     return s;
-- 
2.43.0


From 012955fcc7e02c0f5f67419c6bae51f4c0c1f736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:22 +0000
Subject: [PATCH 051/104] fix: websocket frames may come in pieces of any size

---
 src/onion/websocket.c | 119 ++++++++++++++++++++++++++----------------
 1 file changed, 73 insertions(+), 46 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 6bec2ee..6d1d59a 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -43,6 +43,8 @@
 enum onion_websocket_flags_e {
   WS_FIN = 1,
   WS_MASK = 2,
+  WS_CLOSED = 4,                ///< Nothing else will be read
+  WS_EOF = 8,                   ///< Nothing to read now
 };
 
 // signature of writer in listen point.
@@ -265,40 +267,72 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
     return -1;
   }
   //ONION_DEBUG("Please, read %d bytes, %d ready", len, ws->data_left);
-  if (ws->data_left == 0) {
-    onion_connection_status status;
-    if ((status = onion_websocket_read_packet_header(ws)) < 0) {
-      if (status == -2)
-        return -2;
-      ONION_ERROR("Error reading websocket header (%i)", status);
-      return -1;
+  size_t done = 0;
+  while (done < len) {
+    if (ws->data_left == 0) {
+      onion_connection_status status;
+      if ((status = onion_websocket_read_packet_header(ws)) < 0) {
+        if (done)               // First what there is
+          break;
+        if (status == -2)
+          return -2;
+        ONION_ERROR("Error reading websocket header (%i)", status);
+        return -1;
+      }
+      continue;                 // Might have been an empty or a control frame
+    }
+    size_t n = len - done;
+    if (n > ws->data_left)
+      n = ws->data_left;
+    ssize_t r = (*lpreader) (ws->req, buffer + done, n);
+    if (r <= 0) {
+      ws->flags |= WS_EOF;
+      return done ? done : r;
+    }
+    if (ws->flags & WS_MASK) {
+      ssize_t i;
+      for (i = 0; i < r; i++) {
+        buffer[done + i] ^= ws->mask[ws->mask_pos];
+        ws->mask_pos = (ws->mask_pos + 1) & 3;
+      }
     }
+    ws->data_left -= r;
+    done += r;
+    if (r < n)                  // No more ready
+      break;
   }
+  return done;
+}
 
-  size_t left_len = 0;
-  if (len > ws->data_left) {
-    left_len = len - ws->data_left;
-    len = ws->data_left;
-    //ONION_DEBUG("Read %d bytes now, %d bytes later", len, left_len);
-  }
-  int r = (*lpreader) (ws->req, buffer, len);
-  if (ws->flags & WS_MASK) {
-    char *p = buffer;
-    int i;
-    for (i = 0; i < r; i++) {
-      *p = *p ^ ws->mask[(ws->mask_pos++) & 3];
-      p++;
+/// Reads exactly that many bytes of a frame header. Returns <0 if not possible.
+static int onion_websocket_read_exact(onion_websocket * ws, char *data,
+                                      size_t len) {
+  lpreader_sig_t *lpreader = ws->req->connection.listen_point->read;
+  size_t pos = 0;
+  while (pos < len) {
+    ssize_t r = (*lpreader) (ws->req, data + pos, len - pos);
+    if (r <= 0) {
+      ONION_DEBUG("Error reading header");
+      ws->data_left = 0;
+      ws->flags |= WS_EOF;
+      return -1;
     }
+    pos += r;
   }
-  ws->data_left -= r;
-
-  if (left_len && r == len)
-    r += onion_websocket_read(ws, &buffer[len], left_len);
+  return 0;
+}
 
-  if (r < 0 || (r == 0 && errno != 0)) {
-    ws->callback = NULL;        // Easy way to force close of websocket, which is ok as it closed.
+/// Reads the payload of a control frame. Returns its length, or <0 on error.
+static ssize_t onion_websocket_read_control(onion_websocket * ws,
+                                            char *data) {
+  ssize_t len = ws->data_left, pos = 0;
+  while (pos < len) {
+    ssize_t r = onion_websocket_read(ws, data + pos, len - pos);
+    if (r <= 0)
+      return -1;
+    pos += r;
   }
-  return r;
+  return len;
 }
 
  /**
@@ -421,13 +455,12 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     ONION_DEBUG("no listen point reader in websocket@%p", ws);
     return OCS_CLOSE_CONNECTION;
   }
-  int r = (*lpreader) (ws->req, tmp, 2);
-  //ONION_DEBUG("reading input r = %i", r);
-  if (r != 2) {
-    ONION_DEBUG("Error reading header");
+  if (ws->flags & WS_CLOSED)
+    return OCS_CLOSE_CONNECTION;
+  if (onion_websocket_read_exact(ws, tmp, 2) < 0)
     return OCS_CLOSE_CONNECTION;
-  }
 
+  const onion_websocket_opcode last_opcode = ws->opcode;
   ws->flags = 0;
   if (tmp[0] & 0x80)
     ws->flags |= WS_FIN;
@@ -436,33 +469,27 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
   ws->opcode = tmp[0] & 0x0F;
   ws->data_left = tmp[1] & 0x7F;
   if (ws->data_left == 126) {
-    r = (*lpreader) (ws->req, tmp, 2);
-    if (r != 2) {
-      ONION_DEBUG("Error reading header");
+    if (onion_websocket_read_exact(ws, tmp, 2) < 0)
       return OCS_CLOSE_CONNECTION;
-    }
     ONION_DEBUG("%d %d", utmp[0], utmp[1]);
     ws->data_left = utmp[1] + utmp[0] * 256;
   } else if (ws->data_left == 127) {
-    r = (*lpreader) (ws->req, tmp, 8);
-    //ONION_DEBUG("%d %d %d %d %d %d %d", utmp[0], utmp[1], utmp[2], utmp[3], utmp[4], utmp[5], utmp[6], utmp[7]);
-    if (r != 8) {
-      ONION_DEBUG("Error reading header");
+    if (onion_websocket_read_exact(ws, tmp, 8) < 0)
       return OCS_CLOSE_CONNECTION;
-    }
     ws->data_left = 0;
+    if (utmp[0] & 0x80) {
+      ONION_DEBUG("Invalid frame length");
+      ws->flags |= WS_CLOSED;
+      return OCS_CLOSE_CONNECTION;
+    }
     int i;
     for (i = 0; i < 8; i++)
       ws->data_left += ((uint64_t) utmp[i]) << ((7 - i) * 8);   // Maybe problematic on 32bits systems
   }
   ONION_DEBUG("Data left %d", ws->data_left);
   if (ws->flags & WS_MASK) {
-    r = (*lpreader) (ws->req, ws->mask, 4);
-    //ONION_DEBUG("bytes read=%i", r);
-    if (r != 4) {
-      ONION_DEBUG("Error reading header (4)");
+    if (onion_websocket_read_exact(ws, ws->mask, 4) < 0)
       return OCS_CLOSE_CONNECTION;
-    }
     ws->mask_pos = 0;
   }
 
-- 
2.43.0


From ebbdab2d6042fa56d5899b03efddee0a6894a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:22 +0000
Subject: [PATCH 052/104] fix: websocket control frames are answered with their
 own payload, and are not data

---
 src/onion/websocket.c | 45 +++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 6d1d59a..2da00d9 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -466,7 +466,8 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     ws->flags |= WS_FIN;
   if (tmp[1] & 0x80)
     ws->flags |= WS_MASK;
-  ws->opcode = tmp[0] & 0x0F;
+  const int opcode = tmp[0] & 0x0F;
+  ws->opcode = opcode;
   ws->data_left = tmp[1] & 0x7F;
   if (ws->data_left == 126) {
     if (onion_websocket_read_exact(ws, tmp, 2) < 0)
@@ -493,26 +494,30 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     ws->mask_pos = 0;
   }
 
-  if (ws->opcode == OWS_PING) { // I do answer ping myself.
-    onion_websocket_set_opcode(ws, OWS_PONG);
-    char *data = onion_low_scalar_malloc(ws->data_left);
-    ssize_t r = onion_websocket_read(ws, data, ws->data_left);
-
-    onion_websocket_write(ws, data, r);
-  }
-  if (ws->opcode == OWS_CONNECTION_CLOSE) {     // Closing connection
-    r = (*lpreader) (ws->req, tmp, 2);
-    if (r != 2) {
-      ONION_DEBUG("Error reading status code");
+  if (opcode & 0x08) {          // Control frames
+    char data[125];
+    ssize_t len = -1;
+    if (ws->data_left <= (int64_t) sizeof(data) && (ws->flags & WS_FIN))
+      len = onion_websocket_read_control(ws, data);
+    if (len < 0) {
+      ONION_DEBUG("Invalid control frame");
+      ws->data_left = 0;
+      ws->flags |= WS_CLOSED;
       return OCS_CLOSE_CONNECTION;
     }
-    char status[2];
-    status[0] = utmp[0] ^ ws->mask[0];
-    status[1] = utmp[1] ^ ws->mask[1];
-    ONION_DEBUG("Connection closed by client, status=%u",
-                (status[0] << 8) + status[1]);
-    onion_websocket_close(ws, (const char *)&status);
-    return OCS_CLOSE_CONNECTION;
+    if (opcode == OWS_CONNECTION_CLOSE) {       // Closing connection
+      ONION_DEBUG("Connection closed by client");
+      ws->flags |= WS_CLOSED;
+      onion_websocket_set_opcode(ws, OWS_CONNECTION_CLOSE);
+      onion_websocket_write(ws, data, (len >= 2) ? 2 : 0);
+      return OCS_CLOSE_CONNECTION;
+    }
+    if (opcode == OWS_PING) {   // I do answer ping myself.
+      onion_websocket_set_opcode(ws, OWS_PONG);
+      onion_websocket_write(ws, data, len);
+    }
+    onion_websocket_set_opcode(ws, last_opcode);
+    return OCS_PROCESSED;       // No data for the application here
   }
   return OCS_NEED_MORE_DATA;
   //ONION_DEBUG("Mask %02X %02X %02X %02X", ws->mask[0]&0x0FF, ws->mask[1]&0x0FF, ws->mask[2]&0x0FF, ws->mask[3]&0x0FF);
@@ -546,6 +551,8 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
             ONION_ERROR("Error reading websocket header (%i)", err);
           return err;
         }
+        if (err == OCS_PROCESSED)       // Control frame, already answered.
+          continue;
       }
 
       size_t last_d_l;
-- 
2.43.0


From 872bf0ddbc74fe19370035a129605b3b232277a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:22 +0000
Subject: [PATCH 053/104] fix: a websocket callback that ends the connection is
 not called again

---
 src/onion/websocket.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 2da00d9..765688c 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -559,10 +559,11 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
       do {
         last_d_l = ws->data_left;
         ret = ws->callback(ws->user_data, ws, ws->data_left);
-      } while (ws->data_left != 0 && last_d_l != ws->data_left && ws->callback);
+      } while (ret == OCS_NEED_MORE_DATA && ws->data_left != 0
+               && last_d_l != ws->data_left && ws->callback);
     }
 
-    if (!ws->callback)          // ws->callback can change ws->callback, so another test, not else.
+    if (!ws->callback || (ws->flags & (WS_CLOSED | WS_EOF)))  // ws->callback can change ws->callback, so another test, not else.
       ret = OCS_CLOSE_CONNECTION;
   }
   ONION_DEBUG("Websocket connection closed (%d)", ret);
-- 
2.43.0


From 4cebe6e9808a1526701e15589934f10f41584d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:16 +0000
Subject: [PATCH 054/104] fix: no error page is written into websockets

---
 src/onion/handler.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/onion/handler.c b/src/onion/handler.c
index 8e37870..f059123 100644
--- a/src/onion/handler.c
+++ b/src/onion/handler.c
@@ -76,9 +76,10 @@ onion_connection_status onion_handler_handle(onion_handler * handler,
           onion_response_set_length(response, response->buffer_pos);
         onion_response_flush(response);
         if (res == OCS_WEBSOCKET) {
-          if (request->websocket)
-            return onion_websocket_call(request->websocket);
-          else {
+          if (request->websocket) {
+            res = onion_websocket_call(request->websocket);
+            return (res == OCS_INTERNAL_ERROR) ? OCS_CLOSE_CONNECTION : res;    // No error page for websockets
+          } else {
             ONION_ERROR
                 ("Handler did set the OCS_WEBSOCKET, but did not initialize the websocket on this request.");
             return OCS_INTERNAL_ERROR;
-- 
2.43.0


From ceddfcd0e9bd5181fcc82d8ada8b1b94fcbe971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:17 +0000
Subject: [PATCH 055/104] fix: WebDAV paths that do not fit are refused, and
 not cut

---
 src/onion/handlers/webdav.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 9298dd8..8fd33fe 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -112,8 +112,11 @@ onion_connection_status onion_webdav_handler(onion_webdav * wd,
 #endif
 
   char filename[512];
-  snprintf(filename, sizeof(filename), "%s/%s", wd->path,
-           onion_request_get_path(req));
+  if (snprintf(filename, sizeof(filename), "%s/%s", wd->path,
+               onion_request_get_path(req)) >= sizeof(filename)) {
+    ONION_ERROR("WebDAV path is too long");
+    return onion_shortcut_response("Forbidden", HTTP_FORBIDDEN, req, res);
+  }
 
   ONION_DEBUG("Check %s and %s", wd->path, filename);
   if (wd->check_permissions(wd->path, filename, req) != 0) {
-- 
2.43.0


From 97d73ad12a0e630d415aa8bbc596bf54735107f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:17 +0000
Subject: [PATCH 056/104] fix: WebDAV MOVE moves to the destination

---
 src/onion/handlers/webdav.c | 45 ++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 8fd33fe..f236412 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -32,6 +32,7 @@
 #include <onion/block.h>
 #include <onion/shortcuts.h>
 #include <onion/low.h>
+#include <onion/codecs.h>
 
 #include "webdav.h"
 #include <string.h>
@@ -184,42 +185,44 @@ onion_connection_status onion_webdav_move(const char *filename,
                                           onion_webdav * wd,
                                           onion_request * req,
                                           onion_response * res) {
-  const char *dest = onion_request_get_header(req, "Destination");
-  if (!dest)
+  const char *dest_orig = onion_request_get_header(req, "Destination");
+  if (!dest_orig)
     return OCS_INTERNAL_ERROR;
-  const char *dest_orig = dest;
-  // Skip the http... part. Just 3 /.
-  int i;
-  for (i = 0; i < 3; i += (*dest++ == '/'))
-    if (*dest == 0)
-      return OCS_INTERNAL_ERROR;
-  dest--;
+  char *dest = alloca(strlen(dest_orig) + 1);
+  strcpy(dest, dest_orig);
+  if (*dest != '/') {           // Skip the http... part. Just 3 /.
+    int i;
+    for (i = 0; i < 3; i += (*dest++ == '/'))
+      if (*dest == 0)
+        return OCS_INTERNAL_ERROR;
+    dest--;
+  }
+  onion_unquote_inplace(dest);
 
   const char *fullpath = onion_request_get_fullpath(req);
-  const char *partialpath = onion_request_get_path(req);
   // Not the fixed URL part for this handler.
   int fpl = strlen(fullpath);   // Full path length
   int ppl = strlen(onion_request_get_path(req));        // Partial, the fullpath[fpl-ppl] is the end point of the handler path
   if (strncmp(fullpath, dest, fpl - ppl) != 0) {
-    char tmp[512];
-    int l = fpl - ppl < sizeof(tmp) - 1 ? fpl - ppl : sizeof(tmp) - 1;
-    strncpy(tmp, fullpath, l);
-    tmp[l] = 0;
-    ONION_WARNING("Move to out of this webdav share! (%s is out of %s)", dest,
-                  tmp);
+    ONION_WARNING("Move to out of this webdav share! (%s is out of %.*s)", dest,
+                  fpl - ppl, fullpath);
     return onion_shortcut_response("Moving out of shared share", HTTP_FORBIDDEN,
                                    req, res);
   }
   dest = &dest[fpl - ppl];
 
-  char orig[512];
-  snprintf(orig, sizeof(orig), "%s/%s", wd->path, partialpath);
-
-  if (wd->check_permissions(wd->path, orig, req) != 0) {
+  const char *orig = filename;  // Permissions already checked
+  char fdest[512];
+  if (snprintf(fdest, sizeof(fdest), "%s/%s", wd->path, dest) >= sizeof(fdest)
+      || wd->check_permissions(wd->path, fdest, req) != 0) {
     return onion_shortcut_response("Forbidden", HTTP_FORBIDDEN, req, res);
   }
 
-  const char *fdest = filename;
+  const char *overwrite = onion_request_get_header(req, "Overwrite");
+  struct stat st;
+  if (overwrite && *overwrite == 'F' && lstat(fdest, &st) == 0) {
+    return onion_shortcut_response("Destination exists", 412, req, res);
+  }
 
   ONION_INFO("Move %s to %s (webdav)", fullpath, dest_orig);
 
-- 
2.43.0


From 3b7ac71bdbbd4e591cac8ef2f1d697d21cf25684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:17 +0000
Subject: [PATCH 057/104] fix: WebDAV shares do not include directories whose
 name begins as theirs

---
 src/onion/handlers/webdav.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index f236412..398026c 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -742,10 +742,13 @@ int onion_webdav_default_check_permissions(const char *exported_path,
     ONION_ERROR("Could not resolve real path for %s or %s", exported_path,
                 filename);
   }
-  if ((ret == 0) && strncmp(base, file, strlen(base)) != 0) {
-    ret = 1;
-    ONION_ERROR("Base %s is not for file %s (%p)", base, file,
-                strncmp(base, file, strlen(base)));
+  if (ret == 0) {
+    size_t l = strlen(base);
+    if (strncmp(base, file, l) != 0
+        || (l > 1 && file[l] != '/' && file[l] != '\0')) {
+      ret = 1;
+      ONION_ERROR("Base %s is not for file %s", base, file);
+    }
   }
 
   if (base)
-- 
2.43.0


From 896c638e076f83317430a61fc87946f64dfa73f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:17 +0000
Subject: [PATCH 058/104] fix: WebDAV PROPFIND gives the URL of each resource

---
 src/onion/handlers/webdav.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 398026c..5a18344 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -26,6 +26,7 @@
 
 #include <libxml/xmlmemory.h>
 #include <libxml/xmlwriter.h>
+#include <libxml/uri.h>
 
 #include <onion/log.h>
 #include <onion/response.h>
@@ -413,7 +414,7 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
     }
   }
   if (S_ISDIR(st.st_mode) && urlpath[0] != 0)
-    strncat(tmp, "/", sizeof(tmp) - 1);
+    strncat(tmp, "/", sizeof(tmp) - 1 - strlen(tmp));
   ONION_DEBUG0("Props for %s", tmp);
 
   xmlTextWriterStartElement(writer, BAD_CAST "D:response");
@@ -422,7 +423,9 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
   xmlTextWriterWriteAttribute(writer, BAD_CAST "xmlns:a",
                               BAD_CAST "http://apache.org/dav/props/");
 
-  xmlTextWriterWriteElement(writer, BAD_CAST "D:href", BAD_CAST tmp);
+  xmlChar *href = xmlURIEscapeStr(BAD_CAST tmp, BAD_CAST "/");
+  xmlTextWriterWriteElement(writer, BAD_CAST "D:href", href);
+  xmlFree(href);
 
   /// OK
   xmlTextWriterStartElement(writer, BAD_CAST "D:propstat");
@@ -581,11 +584,10 @@ onion_connection_status onion_webdav_propfind(const char *filename,
   const char *fullpath = onion_request_get_fullpath(req);
   pathlen = (current_path - fullpath);
   basepath = alloca(pathlen + 1);
-  memcpy(basepath, fullpath, pathlen + 1);
-  ONION_DEBUG0("Pathbase initial <%s> %d", basepath, pathlen);
-  while (basepath[pathlen] == '/' && pathlen > 0)
+  memcpy(basepath, fullpath, pathlen);
+  while (pathlen > 0 && basepath[pathlen - 1] == '/')
     pathlen--;
-  basepath[pathlen + 1] = 0;
+  basepath[pathlen] = 0;
 
   ONION_DEBUG0("PROPFIND; pathbase %s", basepath);
   int depth;
-- 
2.43.0


From 4755cb73b710a9d03b72d3ef6bf4c2fe9c897680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:17 +0000
Subject: [PATCH 059/104] fix: WebDAV PROPFIND of files of more than 2 GB

---
 src/onion/handlers/webdav.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 5a18344..1248fa8 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -451,7 +451,7 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
                               BAD_CAST time);
   }
   if (props & WD_CONTENT_LENGTH && !S_ISDIR(st.st_mode)) {
-    snprintf(tmp, sizeof(tmp), "%d", (int)st.st_size);
+    snprintf(tmp, sizeof(tmp), "%lld", (long long)st.st_size);
     xmlTextWriterWriteElement(writer, BAD_CAST "lp1:getcontentlength",
                               BAD_CAST tmp);
   }
-- 
2.43.0


From 56896e3aac056fd4e871b6d354dc6f2533229278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:17 +0000
Subject: [PATCH 060/104] fix: WebDAV PROPFIND with no body, with allprop, and
 with no XML

---
 src/onion/handlers/webdav.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 1248fa8..060befd 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -62,6 +62,7 @@ enum onion_webdav_props_e {
   WD_CONTENT_TYPE = (1 << 5),
   WD_DISPLAY_NAME = (1 << 6),
   WD_EXECUTABLE = (1 << 7),
+  WD_ALL = (1 << 8) - 1,
 };
 
 typedef enum onion_webdav_props_e onion_webdav_props;
@@ -300,18 +301,20 @@ onion_connection_status onion_webdav_options(const char *filename,
 /**
  * @short Returns the set of props for this query
  * 
- * The block contains the propfind xml, and it returns the mask of props to show.
+ * The block contains the propfind xml, and it returns the mask of props to show, or <0 on error.
  * 
  */
 static int onion_webdav_parse_propfind(const onion_block * block) {
+  if (!block || onion_block_size(block) == 0)   // No data means all
+    return WD_ALL;
   // For parsing the data
   xmlDocPtr doc;
   doc =
       xmlParseMemory((char *)onion_block_data(block), onion_block_size(block));
 
   if (doc == NULL) {
-    ONION_ERROR("Error: unable to parse OPTIONS");
-    return OCS_INTERNAL_ERROR;
+    ONION_ERROR("Error: unable to parse PROPFIND");
+    return -1;
   }
 
   int props = 0;
@@ -321,7 +324,9 @@ static int onion_webdav_parse_propfind(const onion_block * block) {
     if (strcmp((const char *)root->name, "propfind") == 0) {
       xmlNode *propfind = root->children;
       while (propfind) {
-        if (strcmp((const char *)propfind->name, "prop") == 0) {
+        if (strcmp((const char *)propfind->name, "allprop") == 0)
+          props = WD_ALL;
+        else if (strcmp((const char *)propfind->name, "prop") == 0) {
           xmlNode *prop = propfind->children;
           while (prop) {
             if (strcmp((const char *)prop->name, "text") == 0)  // ignore
@@ -605,6 +610,8 @@ onion_connection_status onion_webdav_propfind(const char *filename,
   }
 
   int props = onion_webdav_parse_propfind(onion_request_get_data(req));
+  if (props < 0)
+    return onion_shortcut_response("Bad request", HTTP_BAD_REQUEST, req, res);
   ONION_DEBUG("Asking for props %08X, depth %d", props, depth);
 
   onion_block *block = onion_webdav_write_propfind(basepath, filename,
-- 
2.43.0


From d1d7d585fa99388531b9acf89a655c957a9c140e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:17 +0000
Subject: [PATCH 061/104] fix: WebDAV PROPPATCH says it is done only if so, and
 accepts empty properties

---
 src/onion/handlers/webdav.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 060befd..48742aa 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -670,18 +670,17 @@ onion_connection_status onion_webdav_proppatch(const char *filename,
               xmlNode *prop = set->children;
               while (prop) {
                 ONION_DEBUG("prop %s", prop->name);
-                if (strcmp((const char *)prop->name, "executable") == 0) {
+                struct stat st;
+                if (strcmp((const char *)prop->name, "executable") == 0
+                    && prop->children && prop->children->content
+                    && stat(filename, &st) == 0) {
                   ONION_DEBUG("Setting executable %s", prop->children->content);
-                  struct stat st;
-                  stat(filename, &st);
                   if (prop->children->content[0] == 'T'
-                      || prop->children->content[0] == 't') {
-                    chmod(filename, st.st_mode | S_IXUSR | S_IXGRP | S_IXOTH);
-                  } else {
-                    chmod(filename,
-                          st.st_mode & ~(S_IXUSR | S_IXGRP | S_IXOTH));
-                  }
-                  ok = 1;
+                      || prop->children->content[0] == 't')
+                    st.st_mode |= S_IXUSR | S_IXGRP | S_IXOTH;
+                  else
+                    st.st_mode &= ~(S_IXUSR | S_IXGRP | S_IXOTH);
+                  ok = (chmod(filename, st.st_mode) == 0);
                 }
                 prop = prop->next;
               }
-- 
2.43.0


From d8944a037cb77bb2cfb11ad93f081f0119d10a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:17 +0000
Subject: [PATCH 062/104] fix: onion_shortcut_rename across file systems copies
 everything or nothing

---
 src/onion/shortcuts.c | 48 +++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index cd9c303..d5caaa8 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -418,39 +418,43 @@ void onion_shortcut_etag(struct stat *st, char etag[32]) {
 int onion_shortcut_rename(const char *orig, const char *dest) {
   int ok = rename(orig, dest);
 
-  if (ok != 0 && errno == EXDEV) {      // Ok, old way, open both, copy
+  if (ok != 0 && errno == EXDEV) {      // Ok, old way, copy besides dest, and then rename
     ONION_DEBUG0("Slow cp, as tmp is in another FS");
-    ok = 0;
+    struct stat st;
     int fd_orig = open(orig, O_RDONLY);
-    if (fd_orig < 0) {
-      ok = 1;
+    if (fd_orig < 0 || fstat(fd_orig, &st) < 0 || !S_ISREG(st.st_mode)) {
       ONION_ERROR("Could not open orig for reading (%s)", strerror(errno));
+      if (fd_orig >= 0)
+        close(fd_orig);
+      return 1;
     }
-    int fd_dest = open(dest, O_WRONLY | O_CREAT | O_TRUNC, 0666);
+    char *copy = onion_low_malloc(strlen(dest) + 8);
+    sprintf(copy, "%s.XXXXXX", dest);
+    int fd_dest = mkstemp(copy);
     if (fd_dest < 0) {
-      ok = 1;
       ONION_ERROR("Could not open destination for writing (%s)",
                   strerror(errno));
+      onion_low_free(copy);
+      close(fd_orig);
+      return 1;
     }
-    if (ok == 0) {
-      char tmp[4096];
-      int r;
-      while ((r = read(fd_orig, tmp, sizeof(tmp))) > 0) {
-        r = write(fd_dest, tmp, r);
-        if (r < 0) {
-          ONION_ERROR("Error writing to destination file (%s)",
-                      strerror(errno));
-          ok = 1;
-          break;
-        }
-      }
+    char tmp[4096];
+    ssize_t r, pos, w = 0;
+    while (w >= 0 && (r = read(fd_orig, tmp, sizeof(tmp))) > 0) {
+      for (pos = 0; pos < r && w >= 0; pos += w)
+        w = write(fd_dest, tmp + pos, r - pos);
     }
-    if (fd_orig >= 0) {
-      close(fd_orig);
+    close(fd_orig);
+    fchmod(fd_dest, st.st_mode & 0777);
+    if (close(fd_dest) < 0 || w < 0 || r < 0 || rename(copy, dest) < 0) {
+      ONION_ERROR("Error writing to destination file (%s)", strerror(errno));
+      unlink(copy);
+      ok = 1;
+    } else {
       unlink(orig);
+      ok = 0;
     }
-    if (fd_dest >= 0)
-      close(fd_dest);
+    onion_low_free(copy);
   }
   return ok;
 }
-- 
2.43.0


From 4eab299ab4765c08271d44e7c9c97e7251c15b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:17 +0000
Subject: [PATCH 063/104] fix: size of the buffers for dates

---
 src/onion/shortcuts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index d5caaa8..eb13a8a 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -381,7 +381,7 @@ onion_connection_status onion_shortcut_response_json(onion_dict * d,
 void onion_shortcut_date_string(time_t t, char *dest) {
   struct tm ts;
   gmtime_r(&t, &ts);
-  strftime(dest, t, "%a, %d %b %Y %T %Z", &ts);
+  strftime(dest, 32, "%a, %d %b %Y %T GMT", &ts);
 }
 
 /**
@@ -393,7 +393,7 @@ void onion_shortcut_date_string(time_t t, char *dest) {
 void onion_shortcut_date_string_iso(time_t t, char *dest) {
   struct tm ts;
   gmtime_r(&t, &ts);
-  strftime(dest, t, "%FT%TZ", &ts);
+  strftime(dest, 21, "%FT%TZ", &ts);
 }
 
 /**
-- 
2.43.0


From 1212e949903277484d9c53b08a5be62c82e74b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:07 +0000
Subject: [PATCH 064/104] fix: the Date header is in GMT, whatever the local
 time zone

---
 src/onion/response.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 233157c..10fb047 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -107,14 +107,14 @@ onion_response *onion_response_new(onion_request * req) {
       ONION_DEBUG("Recalculating date header");
       char current_datetime[200];
 
-      if (localtime_r(&t, &tmp) == NULL) {
-        perror("localtime");
+      if (gmtime_r(&t, &tmp) == NULL) {
+        perror("gmtime");
         exit(EXIT_FAILURE);
       }
 
       if (strftime
           (current_datetime, sizeof(current_datetime),
-           "%a, %d %b %Y %H:%M:%S %Z", &tmp) == 0) {
+           "%a, %d %b %Y %H:%M:%S GMT", &tmp) == 0) {
         fprintf(stderr, "strftime returned 0");
         exit(EXIT_FAILURE);
       }
-- 
2.43.0


From 2f857a7cac3b2e7b75e3fec6bbfb2cc2f8aac9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:48 +0000
Subject: [PATCH 065/104] fix: long cookies do not overflow the buffer they are
 made in

---
 src/onion/response.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 10fb047..afbe40e 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -630,51 +630,56 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
                                const char *cookievalue, time_t validity_t,
                                const char *path, const char *domain,
                                int flags) {
-  char data[4096];
+  // Room for everything, including expires and flags.
+  const size_t size = strlen(cookiename) + strlen(cookievalue)
+      + (path ? strlen(path) : 0) + (domain ? strlen(domain) : 0) + 256;
+  char *data = onion_low_scalar_malloc(size);
   int pos;
-  pos = snprintf(data, sizeof(data), "%s=%s", cookiename, cookievalue);
+  pos = snprintf(data, size, "%s=%s", cookiename, cookievalue);
   if (validity_t == 0)
     pos +=
-        snprintf(data + pos, sizeof(data) - pos,
+        snprintf(data + pos, size - pos,
                  "; expires=Thu, 01 Jan 1970 00:00:00 GMT");
   else if (validity_t > 0) {
     struct tm *tmp;
     time_t t = time(NULL) + validity_t;
     tmp = localtime(&t);
     pos +=
-        strftime(data + pos, sizeof(data) - pos,
+        strftime(data + pos, size - pos,
                  "; expires=%a, %d %b %Y %H:%M:%S %Z", tmp);
   }
   if (path)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; path=%s", path);
+    pos += snprintf(data + pos, size - pos, "; path=%s", path);
   if (domain)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; domain=%s", domain);
+    pos += snprintf(data + pos, size - pos, "; domain=%s", domain);
   if (flags & OC_HTTP_ONLY)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; HttpOnly");
+    pos += snprintf(data + pos, size - pos, "; HttpOnly");
   if (flags & OC_SECURE)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; Secure");
+    pos += snprintf(data + pos, size - pos, "; Secure");
 
   switch (flags & (OC_SAMESITE_NONE | OC_SAMESITE_LAX | OC_SAMESITE_STRICT)) {
   case OC_SAMESITE_NONE:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=None");
+    pos+=snprintf(data+pos, size-pos, "; SameSite=None");
     break;
   case OC_SAMESITE_LAX:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=Lax");
+    pos+=snprintf(data+pos, size-pos, "; SameSite=Lax");
     break;
   case OC_SAMESITE_STRICT:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=Strict");
+    pos+=snprintf(data+pos, size-pos, "; SameSite=Strict");
     break;
   default:
     break;
   }
 
-  if (pos >= sizeof(data)) {
+  if (pos >= 4096) {
     ONION_WARNING("Cookie too long to be constructed. Not added to response.");
+    onion_low_free(data);
     return false;
   }
 
   onion_response_set_header(res, "Set-Cookie", data);
   ONION_DEBUG("Set cookie %s", data);
+  onion_low_free(data);
 
   return true;
 }
-- 
2.43.0


From 7e43f2e10f58689f9c6ecbc545bc0f59cca1c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:48 +0000
Subject: [PATCH 066/104] fix: several cookies can be set in a response

---
 src/onion/response.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index afbe40e..c7583d5 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -677,7 +677,8 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
     return false;
   }
 
-  onion_response_set_header(res, "Set-Cookie", data);
+  // There may be several cookies, so it does not replace what is there.
+  onion_dict_add(res->headers, "Set-Cookie", data, OD_DUP_ALL);
   ONION_DEBUG("Set cookie %s", data);
   onion_low_free(data);
 
-- 
2.43.0


From 6df9ca2b8d272ea7d50a87eb62d766fa9a77f7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:48 +0000
Subject: [PATCH 067/104] fix: cookies with no value, empty or not, do not
 spoil the others

---
 src/onion/request.c | 42 +++++++++++++-----------------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index d07273f..a0988ca 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -686,39 +686,23 @@ onion_dict *onion_request_get_cookies_dict(onion_request * req) {
   if (!ccookies)
     return req->cookies;
   char *cookies = onion_low_strdup(ccookies);   // I prepare a temporary string, will modify it.
-  char *val = NULL;
-  char *key = NULL;
   char *p = cookies;
 
-  int first = 1;
-  while (*p) {
-    if (*p != ' ' && !key && !val) {
-      key = p;
-    } else if (*p == '=' && key && !val) {
-      *p = 0;
-      val = p + 1;
-    } else if (*p == ';' && key && val) {
-      *p = 0;
-      if (first) {
-        // The first cookie is special as it is the pointer to the reserved area for all the keys and values
-        // for all th eother cookies, to free at dict free.
-        onion_dict_add(req->cookies, cookies, val, OD_FREE_KEY);
-        first = 0;
-      } else
-        onion_dict_add(req->cookies, key, val, 0);      /// Can use as static data as will be freed at first cookie free
-      ONION_DEBUG0("Add cookie <%s>=<%s> %d", key, val, first);
-      val = NULL;
-      key = NULL;
+  while (p) {
+    char *key = p;
+    p = strchr(p, ';');
+    if (p)
+      *p++ = 0;
+    while (*key == ' ')
+      key++;
+    char *val = strchr(key, '=');
+    if (val) {                  // Cookies need a name and a value, although it may be empty
+      *val++ = 0;
+      onion_dict_add(req->cookies, key, val, OD_DUP_ALL);
+      ONION_DEBUG0("Add cookie <%s>=<%s>", key, val);
     }
-    p++;
-  }
-  if (key && val && val < p) {  // A final element, with value.
-    if (first)
-      onion_dict_add(req->cookies, cookies, val, OD_FREE_KEY);
-    else
-      onion_dict_add(req->cookies, key, val, 0);
-    ONION_DEBUG0("Add cookie <%s>=<%s> %d", key, val, first);
   }
+  onion_low_free(cookies);
 
   return req->cookies;
 }
-- 
2.43.0


From fad5c41c8f5e8a97be69cae5bee23db93a967009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:48 +0000
Subject: [PATCH 068/104] fix: the session id is only taken from the sessionid
 cookie

---
 src/onion/request.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index a0988ca..36bfd95 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -405,8 +405,10 @@ void onion_request_guess_session_id(onion_request * req) {
     v = strstr(v, "sessionid=");
     if (!v)                     // exit point, no session found.
       return;
-    if (v > ov && is_alnum(v[-1])) {
-      ONION_DEBUG("At -1: %c %d (%p %p)", v[-1], is_alnum(v[-1]), v, ov);
+    const char *b = v;
+    while (b > ov && b[-1] == ' ')
+      b--;
+    if (b > ov && b[-1] != ';') {       // Part of another cookie
       v = strstr(v, ";");
     } else {
       v += 10;
-- 
2.43.0


From f6124753f562ac153fabda12066005502543d562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:48 +0000
Subject: [PATCH 069/104] fix: the SQLite session store does not keep the
 database locked

---
 src/onion/sessions_sqlite3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/sessions_sqlite3.c b/src/onion/sessions_sqlite3.c
index cf3c1a5..7614d81 100644
--- a/src/onion/sessions_sqlite3.c
+++ b/src/onion/sessions_sqlite3.c
@@ -93,6 +93,7 @@ static onion_dict *onion_sessions_sqlite3_get(onion_sessions * sessions,
     ONION_ERROR("Invalid session data");
   }
  exit:
+  sqlite3_reset(p->get);        // Do not keep the database locked
 #ifdef HAVE_PTHREADS
   pthread_mutex_unlock(&p->mutex);
 #endif
-- 
2.43.0


From 27a17d58ac9394653d4827ccd88448467a8d6fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:20 +0000
Subject: [PATCH 070/104] fix: the SQLite session store removes sessions

---
 src/onion/sessions_sqlite3.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/onion/sessions_sqlite3.c b/src/onion/sessions_sqlite3.c
index 7614d81..448c86a 100644
--- a/src/onion/sessions_sqlite3.c
+++ b/src/onion/sessions_sqlite3.c
@@ -41,6 +41,7 @@ typedef struct onion_session_sqlite3_t {
   sqlite3 *db;
   sqlite3_stmt *save;
   sqlite3_stmt *get;
+  sqlite3_stmt *remove;
 #ifdef HAVE_PTHREADS
   pthread_mutex_t mutex;
 #endif
@@ -55,6 +56,7 @@ static void onion_sessions_sqlite3_free(onion_sessions * sessions) {
 #endif
   sqlite3_finalize(p->save);
   sqlite3_finalize(p->get);
+  sqlite3_finalize(p->remove);
   sqlite3_close(p->db);
   onion_low_free(sessions->data);
 
@@ -101,8 +103,29 @@ static onion_dict *onion_sessions_sqlite3_get(onion_sessions * sessions,
   return ret;
 }
 
+static void onion_sessions_sqlite3_remove(onion_sessions * sessions,
+                                          const char *session_id) {
+  onion_session_sqlite3 *p = sessions->data;
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&p->mutex);
+#endif
+  sqlite3_reset(p->remove);
+  if (sqlite3_bind_text(p->remove, 1, session_id, -1, SQLITE_STATIC) !=
+      SQLITE_OK)
+    ONION_ERROR("Error binding session_id");
+  else if (sqlite3_step(p->remove) != SQLITE_DONE)
+    ONION_ERROR("Error removing session");
+#ifdef HAVE_PTHREADS
+  pthread_mutex_unlock(&p->mutex);
+#endif
+}
+
 void onion_sessions_sqlite3_save(onion_sessions * sessions,
                                  const char *session_id, onion_dict * data) {
+  if (!data) {
+    onion_sessions_sqlite3_remove(sessions, session_id);
+    return;
+  }
   onion_block *bl = onion_dict_to_json(data);
 
   ONION_DEBUG0("Save session %s: %s", session_id, onion_block_data(bl));
@@ -152,6 +175,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   sqlite3 *db;
   sqlite3_stmt *save;
   sqlite3_stmt *get;
+  sqlite3_stmt *remove;
   rc = sqlite3_open(database_filename, &db);
   if (rc) {
     ONION_ERROR("Can't open database: %s", sqlite3_errmsg(db));
@@ -179,6 +203,16 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
     return NULL;
   }
 
+  const char *REMOVE_SQL = "DELETE FROM sessions WHERE id=?";
+  rc = sqlite3_prepare_v2(db, REMOVE_SQL, strlen(REMOVE_SQL), &remove, NULL);
+  if (rc != SQLITE_OK) {
+    ONION_ERROR("Cant prepare statement to remove (%d)", rc);
+    sqlite3_finalize(get);
+    sqlite3_finalize(save);
+    sqlite3_close(db);
+    return NULL;
+  }
+
   onion_sessions *ret = onion_low_malloc(sizeof(onion_sessions));
 
   ret->data = onion_low_malloc(sizeof(onion_session_sqlite3));
@@ -190,6 +224,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   p->db = db;
   p->save = save;
   p->get = get;
+  p->remove = remove;
 #ifdef HAVE_PTHREADS
   pthread_mutex_init(&p->mutex, NULL);
 #endif
-- 
2.43.0


From aac53a0bcf929a6e849cecee47dfde459a2000c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:20 +0000
Subject: [PATCH 071/104] fix: the Redis session store removes sessions, and
 copes with lost connections

---
 src/onion/sessions_redis.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index 6b2bf9b..7c3f653 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -74,7 +74,7 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
       redisCommand(p->context, "HEXISTS SESSIONS %b", session_id,
                    strlen(session_id));
 
-  if (reply->type != REDIS_REPLY_INTEGER) {
+  if (!reply || reply->type != REDIS_REPLY_INTEGER) {
     ONION_ERROR("Error getting session_id");
     freeReplyObject(reply);
     goto exit;
@@ -85,7 +85,7 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
           redisCommand(p->context, "HGET SESSIONS %b", session_id,
                        strlen(session_id));
 
-      if (reply->type != REDIS_REPLY_STRING) {
+      if (!reply || reply->type != REDIS_REPLY_STRING) {
         ONION_ERROR("Error loading session.");
         freeReplyObject(reply);
         goto exit;
@@ -109,30 +109,28 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
 
 void onion_sessions_redis_save(onion_sessions * sessions,
                                const char *session_id, onion_dict * data) {
-  onion_block *bl = onion_dict_to_json(data);
-
-  ONION_DEBUG0("Save session %s: %s", session_id, onion_block_data(bl));
-
   onion_session_redis *p = sessions->data;
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
 #endif
 
-  if (p == NULL) {
+  if (data == NULL) {
     redisReply *reply = redisCommand(p->context, "HDEL SESSIONS %b", session_id,
                                      strlen(session_id));
 
-    if (reply->type != REDIS_REPLY_INTEGER) {
+    if (!reply || reply->type != REDIS_REPLY_INTEGER) {
       ONION_ERROR("Error removing session");
     }
     freeReplyObject(reply);
   } else {
+    onion_block *bl = onion_dict_to_json(data);
     const char *json = onion_block_data(bl);
+    ONION_DEBUG0("Save session %s: %s", session_id, json);
     redisReply *reply =
         redisCommand(p->context, "HSET SESSIONS %b %b", session_id,
                      strlen(session_id), json, strlen(json));
 
-    if (reply->type != REDIS_REPLY_INTEGER) {
+    if (!reply || reply->type != REDIS_REPLY_INTEGER) {
       ONION_ERROR("Error saving session");
     }
     freeReplyObject(reply);
-- 
2.43.0


From 9eeba1f3be35d7bc59abca3fabc79c2991d55f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:20 +0000
Subject: [PATCH 072/104] fix: session stores that can not be opened leave
 nothing behind

---
 src/onion/sessions_redis.c   | 8 ++++++--
 src/onion/sessions_sqlite3.c | 5 +++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index 7c3f653..234dc76 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -159,9 +159,13 @@ onion_sessions *onion_sessions_redis_new(const char *server_ip, int port) {
   onion_session_redis *p = ret->data;
   p->context = redisConnect(server_ip, port);
 
-  if (p->context != NULL && p->context->err) {
-    ONION_ERROR("Can't connect to redis. Error (%s)", p->context->errstr);
+  if (p->context == NULL || p->context->err) {
+    ONION_ERROR("Can't connect to redis. Error (%s)",
+                p->context ? p->context->errstr : "no memory");
     redisFree(p->context);
+    onion_low_free(ret->data);
+    onion_low_free(ret);
+    onion_random_free();
     return NULL;
   }
 #ifdef HAVE_PTHREADS
diff --git a/src/onion/sessions_sqlite3.c b/src/onion/sessions_sqlite3.c
index 448c86a..5cfa7b0 100644
--- a/src/onion/sessions_sqlite3.c
+++ b/src/onion/sessions_sqlite3.c
@@ -180,6 +180,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   if (rc) {
     ONION_ERROR("Can't open database: %s", sqlite3_errmsg(db));
     sqlite3_close(db);
+    onion_random_free();
     return NULL;
   }
   // I blindly try to create tables. If they exist, error, if not, create
@@ -191,6 +192,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   if (rc != SQLITE_OK) {
     ONION_ERROR("Cant prepare statement to get (%d)", rc);
     sqlite3_close(db);
+    onion_random_free();
     return NULL;
   }
 
@@ -199,7 +201,9 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   rc = sqlite3_prepare_v2(db, SAVE_SQL, strlen(SAVE_SQL), &save, NULL);
   if (rc != SQLITE_OK) {
     ONION_ERROR("Cant prepare statement to save (%d)", rc);
+    sqlite3_finalize(get);
     sqlite3_close(db);
+    onion_random_free();
     return NULL;
   }
 
@@ -210,6 +214,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
     sqlite3_finalize(get);
     sqlite3_finalize(save);
     sqlite3_close(db);
+    onion_random_free();
     return NULL;
   }
 
-- 
2.43.0


From b39c58bde0b8671b7a00f2eb02b1acf4ecccb12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:35 +0000
Subject: [PATCH 073/104] fix: requests refused as websockets do not keep the
 random generator

---
 src/onion/websocket.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 765688c..3a305f2 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -79,8 +79,6 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
   if (req->websocket)
     return req->websocket;
 
-  onion_random_init();
-
   const char *upgrade = onion_request_get_header(req, "Upgrade");
   if (!upgrade || strcasecmp(upgrade, "websocket") != 0)
     return NULL;
@@ -130,6 +128,7 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
   onion_response_write_headers(res);
   onion_response_write(res, "", 0);     // AKA flush
 
+  onion_random_init();
   onion_websocket *ret = onion_low_malloc(sizeof(onion_websocket));
   ret->callback = NULL;
   ret->req = req;
-- 
2.43.0


From d7c97eb9d1bc9f4e35dc6bfd5d361a735026a203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:20 +0000
Subject: [PATCH 074/104] fix: include guard of sessions_mem.h, so that it can
 be used along with sessions_sqlite3.h

---
 src/onion/sessions_mem.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/sessions_mem.h b/src/onion/sessions_mem.h
index 30b7a7c..0677235 100644
--- a/src/onion/sessions_mem.h
+++ b/src/onion/sessions_mem.h
@@ -21,8 +21,8 @@
   <http://www.apache.org/licenses/LICENSE-2.0>.
 */
 
-#ifndef ONION_SESSIONS_SQLITE3_H
-#define ONION_SESSIONS_SQLITE3_H
+#ifndef ONION_SESSIONS_MEM_H
+#define ONION_SESSIONS_MEM_H
 
 #ifdef __cplusplus
 extern "C" {
-- 
2.43.0


From d170b3a53da21aea03f5eb9819253285e96801d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:03 +0000
Subject: [PATCH 075/104] fix: malformed basic credentials are refused

---
 src/onion/handlers/auth_pam.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index 4be8fa1..cab2eb9 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -58,9 +58,15 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
   char *auth = NULL;
   char *username = NULL;
   char *passwd = NULL;
-  if (o && strncmp(o, "Basic", 5) == 0) {
-    //fprintf(stderr,"auth: '%s'\n",&o[6]);
-    auth = onion_base64_decode(&o[6], NULL);
+  int length = 0;
+  if (o && strncmp(o, "Basic ", 6) == 0)
+    auth = onion_base64_decode(&o[6], &length);
+  // Credentials with a NUL inside can not be told exactly to PAM.
+  if (auth && (length <= 0 || strlen(auth) != (size_t) length)) {
+    onion_low_free(auth);
+    auth = NULL;
+  }
+  if (auth) {
     username = auth;
     int i = 0;
     while (auth[i] != '\0' && auth[i] != ':')
-- 
2.43.0


From c3a6441aaa45a6843fdb6545ba01be8b7b9cae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:03 +0000
Subject: [PATCH 076/104] fix: long realms do not overflow the buffer of the
 challenge

---
 src/onion/handlers/auth_pam.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index cab2eb9..771470f 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -97,9 +97,11 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
     onion_low_free(auth);
 
   // Not authorized. Ask for it.
-  char temp[256];
-  sprintf(temp, "Basic realm=\"%s\"", d->realm);
+  size_t temp_size = strlen(d->realm) + sizeof("Basic realm=\"\"");
+  char *temp = onion_low_scalar_malloc(temp_size);
+  snprintf(temp, temp_size, "Basic realm=\"%s\"", d->realm);
   onion_response_set_header(res, "WWW-Authenticate", temp);
+  onion_low_free(temp);
   onion_response_set_code(res, HTTP_UNAUTHORIZED);
   onion_response_set_length(res, sizeof(RESPONSE_UNAUTHORIZED));
 
-- 
2.43.0


From 94a13b26f69517fc832372431b161fe08c30a8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:19 +0000
Subject: [PATCH 077/104] fix: timeouts of the poller are not lost when set
 within the same second, nor with several pollers

---
 src/onion/poller.c | 73 ++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 42 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 39d5678..c8737e0 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -239,16 +239,24 @@ static int onion_poller_stop_helper(void *p) {
   return 1;
 }
 
-static time_t onion_poller_last_time = 0;
-
-static int onion_poller_timer(void *p_);
+/// Sets the timer for the given moment; p->mutex must be locked.
+static void onion_poller_timer_set(onion_poller * p, time_t timelimit,
+                                   time_t ctime) {
+  p->current_timeout_limit = timelimit;
+  struct itimerspec next = { {0, 0}, {timelimit - ctime, 0} };
+  if (timelimit <= ctime) {     // As soon as possible. All 0 would disarm it.
+    next.it_value.tv_sec = 0;
+    next.it_value.tv_nsec = 1;
+  }
+  timerfd_settime(p->timerfd, 0, &next, NULL);
+}
 
+/// Ensures that the timer triggers no later than at the given moment.
 static void onion_poller_timer_check(onion_poller * p, time_t timelimit) {
-  // If maybe timeout limit (p->current_timeout_limit is used atomically)
-  if (timelimit < p->current_timeout_limit) {
-    // Recalculate with proper mutexes.
-    onion_poller_timer(p);
-  }
+  pthread_mutex_lock(&p->mutex);
+  if (timelimit < p->current_timeout_limit)
+    onion_poller_timer_set(p, timelimit, onion_time());
+  pthread_mutex_unlock(&p->mutex);
 }
 
 static int onion_poller_timer(void *p_) {
@@ -263,43 +271,24 @@ static int onion_poller_timer(void *p_) {
   time_t ctime = onion_time();
   time_t next_timeout = ctime + (24 * 60 * 60); // At least once per day
 
-  // Do this only once per second max.
-  if (ctime != onion_poller_last_time) {
-    onion_poller_last_time = ctime;
-    pthread_mutex_lock(&p->mutex);
-    onion_poller_slot *next = p->head;
-    while (next) {
-      onion_poller_slot *cur = next;
-      next = next->next;
-      if (cur->timeout_limit <= ctime) {
-        ONION_DEBUG("Timeout on %d, was %d (ctime %d)", cur->fd,
-                    cur->timeout_limit, ctime);
-        cur->timeout_limit = INT_MAX;
-        shutdown(cur->fd, SHUT_RD);
-      } else if (cur->timeout_limit < next_timeout) {
-        next_timeout = cur->timeout_limit;
-      }
+  pthread_mutex_lock(&p->mutex);
+  onion_poller_slot *next = p->head;
+  while (next) {
+    onion_poller_slot *cur = next;
+    next = next->next;
+    if (cur->timeout_limit <= ctime) {
+      ONION_DEBUG("Timeout on %d, was %d (ctime %d)", cur->fd,
+                  cur->timeout_limit, ctime);
+      cur->timeout_limit = INT_MAX;
+      shutdown(cur->fd, SHUT_RD);
+    } else if (cur->timeout_limit < next_timeout) {
+      next_timeout = cur->timeout_limit;
     }
-    pthread_mutex_unlock(&p->mutex);
   }
-  // Atomic store.
-  // Try until set if <= next_timeout.
-  time_t origval;
-  time_t oldval;
-  do {                          // Spin until change is acceptable.
-    origval = p->current_timeout_limit;
-    oldval =
-        __sync_val_compare_and_swap(&p->current_timeout_limit, origval,
-                                    next_timeout);
-  } while (                     // Repeat if
-            origval != oldval   // different, so not changed because somebody else changed the value
-            && oldval > next_timeout    // and current timer is for later than my timeout
-      );                        // Ths is when another thread changed if for a later timeout, so I must insist on mine
-
-  //ONION_DEBUG("Next timeout in %d seconds", p->current_timeout_limit - ctime);
+  //ONION_DEBUG("Next timeout in %d seconds", next_timeout - ctime);
   // rearm
-  struct itimerspec next = { {0, 0}, {next_timeout - ctime, 0} };
-  timerfd_settime(p->timerfd, 0, &next, NULL);
+  onion_poller_timer_set(p, next_timeout, ctime);
+  pthread_mutex_unlock(&p->mutex);
 
   return 1;
 }
-- 
2.43.0


From d14f1a23c5091ac222ee4f83b8c8a33fef759fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:19 +0000
Subject: [PATCH 078/104] fix: descriptors removed from the poller while other
 thread handles them get no late callbacks

---
 src/onion/poller.c | 74 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 19 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index c8737e0..702ca39 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -93,6 +93,10 @@ struct onion_poller_slot_t {
   time_t timeout;
   time_t timeout_limit;         ///< Limit in seconds for use with time function.
 
+  u_int32_t generation;         ///< Changes on every use of the slot, so that events of former uses are known.
+  char active;                  ///< It is at the list of the poller
+  char running;                 ///< Some thread is calling f
+
   onion_poller_slot *next;
 };
 
@@ -165,7 +169,9 @@ onion_poller_slot *onion_poller_slot_new(int fd, int (*f) (void *), void *data)
     return NULL;
   }
   onion_poller_slot *el = &onion_poller_static.slots[fd];
+  u_int32_t generation = el->generation;
   *el = onion_poller_static.empty_slot;
+  el->generation = generation + 1;
   el->fd = fd;
   el->f = f;
   el->data = data;
@@ -176,6 +182,11 @@ onion_poller_slot *onion_poller_slot_new(int fd, int (*f) (void *), void *data)
   return el;
 }
 
+/// Identifies this use of the slot at the epoll events.
+static u_int64_t onion_poller_slot_id(onion_poller_slot * el) {
+  return ((u_int64_t) el->generation << 32) | (u_int32_t) el->fd;
+}
+
 /**
  * @short Free the data for the given slot, calling shutdown if any.
  * @memberof onion_poller_slot_t
@@ -391,6 +402,7 @@ int onion_poller_add(onion_poller * poller, onion_poller_slot * el) {
   ONION_DEBUG0("Adding fd %d for polling (%d)", el->fd, poller->n);
 
   pthread_mutex_lock(&poller->mutex);
+  el->active = 1;
   // I like head to be always the same, so I do some tricks to keep it. This is beacuse at head normally I have the listen fd, which is very accessed
   if (!poller->head)
     poller->head = el;
@@ -399,17 +411,15 @@ int onion_poller_add(onion_poller * poller, onion_poller_slot * el) {
     poller->head->next = el;
     poller->n++;
   }
-  pthread_mutex_unlock(&poller->mutex);
+  onion_poller_timer_check(poller, el->timeout_limit);
 
   struct epoll_event ev;
   memset(&ev, 0, sizeof(ev));
   ev.events = el->type;
-  ev.data.ptr = el;
-  if (epoll_ctl(poller->fd, EPOLL_CTL_ADD, el->fd, &ev) < 0) {
+  ev.data.u64 = onion_poller_slot_id(el);
+  if (epoll_ctl(poller->fd, EPOLL_CTL_ADD, el->fd, &ev) < 0)
     ONION_ERROR("Error add descriptor to listen to. %s", strerror(errno));
-    return 1;
-  }
-  onion_poller_timer_check(poller, el->timeout_limit);
+  pthread_mutex_unlock(&poller->mutex);
 
   return 1;
 }
@@ -418,6 +428,8 @@ int onion_poller_add(onion_poller * poller, onion_poller_slot * el) {
  * @short Removes a file descriptor, and all related callbacks from the listening queue
  * @memberof onion_poller_t
  * @ingroup poller
+ *
+ * If some thread is at the callback of the descriptor, the shutdown is called when it returns.
  */
 int onion_poller_remove(onion_poller * poller, int fd) {
   if (epoll_ctl(poller->fd, EPOLL_CTL_DEL, fd, NULL) < 0) {
@@ -434,12 +446,15 @@ int onion_poller_remove(onion_poller * poller, int fd) {
     ONION_DEBUG0("Removed from head %p", el);
 
     poller->head = el->next;
+    el->active = 0;
+    char running = el->running;
     pthread_mutex_unlock(&poller->mutex);
 
-    onion_poller_slot_free(el);
+    if (!running)
+      onion_poller_slot_free(el);
     return 0;
   }
-  while (el->next) {
+  while (el && el->next) {
     if (el->next->fd == fd) {
       ONION_DEBUG0("Removed from tail %p", el);
       onion_poller_slot *t = el->next;
@@ -450,9 +465,12 @@ int onion_poller_remove(onion_poller * poller, int fd) {
         onion_poller_stop(poller);
       }
 
+      t->active = 0;
+      char running = t->running;
       pthread_mutex_unlock(&poller->mutex);
 
-      onion_poller_slot_free(t);
+      if (!running)
+        onion_poller_slot_free(t);
       return 0;
     }
     el = el->next;
@@ -526,17 +544,23 @@ void onion_poller_poll(onion_poller * p) {
     }
     int i;
     for (i = 0; i < nfds; i++) {
-      onion_poller_slot *el = (onion_poller_slot *) event[i].data.ptr;
-      if (!el)
+      u_int64_t id = event[i].data.u64;
+      onion_poller_slot *el = &onion_poller_static.slots[id & 0xFFFFFFFF];
+      pthread_mutex_lock(&p->mutex);
+      // It may have been removed since the event arrived
+      if (!el->active || el->running || onion_poller_slot_id(el) != id) {
+        pthread_mutex_unlock(&p->mutex);
         continue;
+      }
+      el->running = 1;
+      el->timeout_limit = INT_MAX;
+      pthread_mutex_unlock(&p->mutex);
       // Call the callback
       //ONION_DEBUG("Calling callback for fd %d (%X %X)", el->fd, event[i].events);
       int n = -1;
       if (event[i].events & (EPOLLRDHUP | EPOLLHUP)) {
         n = -1;
       } else {                  // I also take care of the timeout, no timeout when on the handler, it should handle it itself.
-        el->timeout_limit = INT_MAX;
-
 #ifdef __DEBUG0__
         char **bs = backtrace_symbols((void *const *)&el->f, 1);
         ONION_DEBUG0("Calling handler: %s (%d)", bs[0], el->fd);
@@ -544,16 +568,27 @@ void onion_poller_poll(onion_poller * p) {
                                    backtrace_symbols. */
 #endif
         n = el->f(el->data);
-
+      }
+      pthread_mutex_lock(&p->mutex);
+      if (onion_poller_slot_id(el) != id) {     // Removed, closed and its number is already in use again
+        pthread_mutex_unlock(&p->mutex);
+        continue;
+      }
+      if (n < 0 && el->active) {
+        pthread_mutex_unlock(&p->mutex);
+        onion_poller_remove(p, el->fd); // As it is running, does not free it.
+        pthread_mutex_lock(&p->mutex);
+      }
+      el->running = 0;
+      if (!el->active) {        // Removed, by this thread or while at the callback
+        pthread_mutex_unlock(&p->mutex);
+        onion_poller_slot_free(el);
+      } else {
+        ONION_DEBUG0("Re setting poller %d", el->fd);
         if (el->timeout > 0) {
           el->timeout_limit = onion_time() + el->timeout;
           onion_poller_timer_check(p, el->timeout_limit);
         }
-      }
-      if (n < 0) {
-        onion_poller_remove(p, el->fd);
-      } else {
-        ONION_DEBUG0("Re setting poller %d", el->fd);
         event[i].events = el->type;
         if (p->fd >= 0) {
           int e = epoll_ctl(p->fd, EPOLL_CTL_MOD, el->fd, &event[i]);
@@ -561,6 +596,7 @@ void onion_poller_poll(onion_poller * p) {
             ONION_ERROR("Error resetting poller, %s", strerror(errno));
           }
         }
+        pthread_mutex_unlock(&p->mutex);
       }
     }
 #ifdef HAVE_PTHREADS
-- 
2.43.0


From 4751b08ab244e150faa909146b721f920b45fcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:19 +0000
Subject: [PATCH 079/104] fix: the list of the poller is only walked with its
 lock held

---
 src/onion/poller.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 702ca39..07201a5 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -487,13 +487,12 @@ int onion_poller_remove(onion_poller * poller, int fd) {
  * This might be used for long polling, removing the default deleter.
  */
 onion_poller_slot *onion_poller_get(onion_poller * poller, int fd) {
+  pthread_mutex_lock(&poller->mutex);
   onion_poller_slot *next = poller->head;
-  while (next) {
-    if (next->fd == fd)
-      return next;
+  while (next && next->fd != fd)
     next = next->next;
-  }
-  return NULL;
+  pthread_mutex_unlock(&poller->mutex);
+  return next;
 }
 
 // Max of events per loop. If not al consumed for next, so no prob.  right number uses less memory, and makes less calls.
-- 
2.43.0


From afb1cb2c4edd99e925f2251bdf610e9cbb8443d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:09 +0000
Subject: [PATCH 080/104] fix: a poller that was stopped can poll again

---
 src/onion/poller.c | 51 +++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 07201a5..388d440 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -495,6 +495,21 @@ onion_poller_slot *onion_poller_get(onion_poller * poller, int fd) {
   return next;
 }
 
+/// A thread does not poll anymore. The last one forgets the order to stop, so that it is possible to poll again.
+static void onion_poller_leave(onion_poller * p) {
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&p->mutex);
+  p->npollers--;
+  ONION_DEBUG0("Npollers %d", p->npollers);
+  if (p->npollers == 0) {
+    char data[8];
+    p->stop = 0;
+    int __attribute__ ((unused)) r = read(p->eventfd, data, 8);
+  }
+  pthread_mutex_unlock(&p->mutex);
+#endif
+}
+
 // Max of events per loop. If not al consumed for next, so no prob.  right number uses less memory, and makes less calls.
 static size_t onion_poller_max_events = 1;
 
@@ -513,7 +528,6 @@ void onion_poller_poll(onion_poller * p) {
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
   p->npollers++;
-  p->stop = 0;
   ONION_DEBUG0("Npollers %d. %d listenings %p", p->npollers, p->n, p->head);
   pthread_mutex_unlock(&p->mutex);
 #else
@@ -533,11 +547,7 @@ void onion_poller_poll(onion_poller * p) {
       //ONION_DEBUG("Some error happened"); // Also spurious wakeups... gdb is to blame sometimes or any other.
       if (p->fd < 0 || !p->head) {
         ONION_DEBUG("Finishing the epoll as finished: %s", strerror(errno));
-#ifdef HAVE_PTHREADS
-        pthread_mutex_lock(&p->mutex);
-        p->npollers--;
-        pthread_mutex_unlock(&p->mutex);
-#endif
+        onion_poller_leave(p);
         return;
       }
     }
@@ -607,12 +617,7 @@ void onion_poller_poll(onion_poller * p) {
 #endif
   }
   ONION_DEBUG("Finished polling fds");
-#ifdef HAVE_PTHREADS
-  pthread_mutex_lock(&p->mutex);
-  p->npollers--;
-  ONION_DEBUG0("Npollers %d", p->npollers);
-  pthread_mutex_unlock(&p->mutex);
-#endif
+  onion_poller_leave(p);
 }
 
 /**
@@ -622,29 +627,23 @@ void onion_poller_poll(onion_poller * p) {
  */
 void onion_poller_stop(onion_poller * p) {
   ONION_DEBUG("Stopping poller");
-#ifdef HAVE_PTHREADS
-  pthread_mutex_lock(&p->mutex);
-  p->stop = 1;
-  pthread_mutex_unlock(&p->mutex);
-#else
-  p->stop = 1;
-#endif
-
   char data[8] = { 0, 0, 0, 0, 0, 0, 0, 1 };
-  int __attribute__ ((unused)) r = read(p->eventfd, data, 8);   // Flush eventfd data, discard data
-
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
-  int n = p->npollers;
-  pthread_mutex_unlock(&p->mutex);
-
-  if (n > 0) {
+  if (p->npollers > 0) {
+    p->stop = 1;
+    int __attribute__ ((unused)) r = read(p->eventfd, data, 8); // Flush eventfd data, discard data
+    data[7] = 1;
     int w = write(p->eventfd, data, 8); // Tell another thread to exit
     if (w < 0) {
       ONION_ERROR("Error signaling poller to stop!");
     }
   } else
     ONION_DEBUG("Poller stopped");
+  pthread_mutex_unlock(&p->mutex);
+#else
+  p->stop = 1;
+  int __attribute__ ((unused)) r = read(p->eventfd, data, 8);   // Flush eventfd data, discard data
 #endif
 }
 
-- 
2.43.0


From 2984401ebc47cec61887e111caa8049fade3520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:48 +0000
Subject: [PATCH 081/104] fix: timeouts of descriptors that only wait to write

---
 src/onion/poller.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 388d440..677433e 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -291,7 +291,8 @@ static int onion_poller_timer(void *p_) {
       ONION_DEBUG("Timeout on %d, was %d (ctime %d)", cur->fd,
                   cur->timeout_limit, ctime);
       cur->timeout_limit = INT_MAX;
-      shutdown(cur->fd, SHUT_RD);
+      // The end is only noticed by those that wait to read
+      shutdown(cur->fd, (cur->type & EPOLLIN) ? SHUT_RD : SHUT_RDWR);
     } else if (cur->timeout_limit < next_timeout) {
       next_timeout = cur->timeout_limit;
     }
-- 
2.43.0


From 929419b291104852c9617b9c2482db903b6d8dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:33 +0000
Subject: [PATCH 082/104] fix: a negative timeout means no timeout

---
 src/onion/poller.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 677433e..b6922f6 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -223,9 +223,14 @@ void onion_poller_slot_set_shutdown(onion_poller_slot * el, void (*sd) (void *),
  * @memberof onion_poller_slot_t
  *
  * @param el Slot to modify
- * @param timeout Time in milliseconds that this file can be waiting.
+ * @param timeout Time in milliseconds that this file can be waiting. Negative to wait forever.
  */
 void onion_poller_slot_set_timeout(onion_poller_slot * el, int timeout) {
+  if (timeout < 0) {
+    el->timeout = -1;
+    el->timeout_limit = INT_MAX;
+    return;
+  }
   el->timeout = timeout / 1000; // I dont have that resolution.
   el->timeout_limit = onion_time() + el->timeout;
   ONION_DEBUG0("Set timeout to %d, %d s", el->timeout_limit, el->timeout);
-- 
2.43.0


From 70d8c10833a44295db925ce3642f34c162ecfa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:33 +0000
Subject: [PATCH 083/104] fix: listen points that can not listen do not use
 descriptor 0, leak nor are reported as listening

---
 src/onion/https.c        |  2 ++
 src/onion/listen_point.c | 30 ++++++++++++++++++++----------
 src/onion/onion.c        | 16 ++++++++++------
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index e1c9e71..8b4e2f7 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -167,6 +167,8 @@ onion_listen_point *onion_https_new() {
  */
 static void onion_https_listen_stop(onion_listen_point * op) {
   ONION_DEBUG("Close HTTPS %s:%s", op->hostname, op->port);
+  if (op->listenfd < 0)
+    return;
   shutdown(op->listenfd, SHUT_RDWR);
   close(op->listenfd);
   op->listenfd = -1;
diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index ebc5bb3..e23c8b7 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -63,6 +63,8 @@ static int onion_listen_point_read_ready(onion_request * req);
  */
 onion_listen_point *onion_listen_point_new() {
   onion_listen_point *ret = onion_low_calloc(1, sizeof(onion_listen_point));
+  if (ret)
+    ret->listenfd = -1;
   return ret;
 }
 
@@ -110,8 +112,10 @@ int onion_listen_point_accept(onion_listen_point * op) {
                                                       (void *)
                                                       onion_listen_point_read_ready,
                                                       req);
-      if (!slot)
+      if (!slot) {
+        onion_request_free(req);
         return 1;
+      }
       onion_poller_slot_set_timeout(slot,
                                     req->connection.listen_point->server->
                                     timeout);
@@ -195,18 +199,23 @@ int onion_listen_point_listen(onion_listen_point * op) {
   ONION_DEBUG("Trying to listen at %s:%s", op->hostname,
               op->port ? op->port : "8080");
 
-  if (getaddrinfo(op->hostname, op->port ? op->port : "8080", &hints, &result)
-      != 0) {
-    ONION_ERROR("Error getting local address and port: %s", strerror(errno));
-    return errno;
+  int error =
+      getaddrinfo(op->hostname, op->port ? op->port : "8080", &hints, &result);
+  if (error != 0) {
+    ONION_ERROR("Error getting local address and port: %s",
+                gai_strerror(error));
+    return (error == EAI_SYSTEM && errno) ? errno : EADDRNOTAVAIL;
   }
 
   int optval = 1;
+  error = EADDRNOTAVAIL;
   for (rp = result; rp != NULL; rp = rp->ai_next) {
     sockfd =
         socket(rp->ai_family, rp->ai_socktype | SOCK_CLOEXEC, rp->ai_protocol);
-    if (sockfd < 0)             // not valid
+    if (sockfd < 0) {           // not valid
+      error = errno;
       continue;
+    }
     if (SOCK_CLOEXEC == 0) {    // Good compiler know how to cut this out
       int flags = fcntl(sockfd, F_GETFD);
       if (flags == -1) {
@@ -221,16 +230,18 @@ int onion_listen_point_listen(onion_listen_point * op) {
         0) {
       ONION_ERROR("Could not set socket options: %s", strerror(errno));
     }
-    if (bind(sockfd, rp->ai_addr, rp->ai_addrlen) == 0)
+    if (bind(sockfd, rp->ai_addr, rp->ai_addrlen) == 0 && listen(sockfd, 5) == 0)       // queue of only 5.
       break;                    // Success
     else {
-      ONION_ERROR("Could not bind to socket: %s", strerror(errno));
+      error = errno;
+      ONION_ERROR("Could not bind to socket: %s", strerror(error));
     }
     close(sockfd);
   }
   if (rp == NULL) {
     ONION_ERROR("Could not find any suitable address to bind to.");
-    return errno;
+    freeaddrinfo(result);
+    return error;
   }
 #ifdef __DEBUG__
   char address[64];
@@ -239,7 +250,6 @@ int onion_listen_point_listen(onion_listen_point * op) {
   ONION_DEBUG("Listening to %s:%s, fd %d", address, &address[32], sockfd);
 #endif
   freeaddrinfo(result);
-  listen(sockfd, 5);            // queue of only 5.
 
   op->listenfd = sockfd;
   return 0;
diff --git a/src/onion/onion.c b/src/onion/onion.c
index c0cdda9..e285232 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -498,12 +498,16 @@ int onion_listen(onion * o) {
     onion_listen_point **listen_points = o->listen_points;
     while (*listen_points) {
       onion_listen_point *p = *listen_points;
-      ONION_DEBUG("Adding listen point fd %d to poller", p->listenfd);
-      onion_poller_slot *slot =
-          onion_poller_slot_new(p->listenfd, (void *)onion_listen_point_accept,
-                                p);
-      onion_poller_slot_set_type(slot, O_POLL_ALL);
-      onion_poller_add(o->poller, slot);
+      if (p->listenfd >= 0) {   // It may have failed, or have nothing to poll.
+        ONION_DEBUG("Adding listen point fd %d to poller", p->listenfd);
+        onion_poller_slot *slot =
+            onion_poller_slot_new(p->listenfd,
+                                  (void *)onion_listen_point_accept, p);
+        if (slot) {
+          onion_poller_slot_set_type(slot, O_POLL_ALL);
+          onion_poller_add(o->poller, slot);
+        }
+      }
       listen_points++;
     }
 
-- 
2.43.0


From 6d5430d82f9f75279dd2b1e63fc9333583d83fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:25 +0000
Subject: [PATCH 084/104] fix: listening can be stopped at any moment and from
 any thread, and started again

---
 src/onion/onion.c           | 268 ++++++++++++++++++++++++------------
 src/onion/poller.c          |  31 ++++-
 src/onion/poller.h          |   2 +
 src/onion/poller_libev.c    |   4 +
 src/onion/poller_libevent.c |   4 +
 src/onion/types_internal.h  |   2 +
 6 files changed, 220 insertions(+), 91 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index e285232..6191a66 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -259,8 +259,7 @@ onion *onion_new(int flags) {
 void onion_free(onion * onion) {
   ONION_DEBUG("Onion free");
 
-  if (onion->flags & O_LISTENING)
-    onion_listen_stop(onion);
+  onion_listen_stop(onion);
 
   if (onion->poller)
     onion_poller_free(onion->poller);
@@ -298,10 +297,6 @@ void onion_free(onion * onion) {
     pthread_mutex_destroy(&onion->mutex);
 #endif
   };
-#ifdef HAVE_PTHREADS
-  if (onion->threads)
-    onion_low_free(onion->threads);
-#endif
   if (!(onion->flags & O_NO_SIGTERM)) {
     signal(SIGINT, SIG_DFL);
     signal(SIGTERM, SIG_DFL);
@@ -362,6 +357,11 @@ static void shutdown_server(int _) {
 static pthread_mutex_t count_mtx;
 static long listen_counter;
 static long poller_counter;
+static int onion_listen_loop(onion * o);
+
+/// Server for which this thread is listening or polling, if any
+static __thread onion *onion_of_thread = NULL;
+
 static void *onion_listen_start(void *data) {
   onion *o = data;
   pthread_mutex_lock(&count_mtx);
@@ -383,7 +383,7 @@ static void *onion_listen_start(void *data) {
   }
 #endif /*__USE_GNU */
 #endif /*__DEBUG__*/
-  onion_listen(o);
+  onion_listen_loop(o);
   return NULL;
 }
 
@@ -396,7 +396,8 @@ long onion_count_listen_threads(void) {
 }
 
 static void *onion_poller_poll_start(void *data) {
-  onion_poller *poller = data;
+  onion *o = data;
+  onion_of_thread = o;
   pthread_mutex_lock(&count_mtx);
   poller_counter++;
 #ifdef __DEBUG__
@@ -416,7 +417,7 @@ static void *onion_poller_poll_start(void *data) {
   }
 #endif /*__USE_GNU */
 #endif /*__DEBUG__*/
-  onion_poller_poll(poller);
+  onion_poller_poll(o->poller);
   return NULL;
 }
 
@@ -429,29 +430,38 @@ long onion_count_poller_threads(void) {
 }
 #endif
 
-/**
- * @short Performs the listening with the given mode
- * @ingroup onion
- *
- * This is the main loop for the onion server.
- *
- * It initiates the listening on all the selected ports and addresses.
- *
- * @returns !=0 if there is any error. It returns actualy errno from the network operations. See socket for more information.
- */
-int onion_listen(onion * o) {
 #ifdef HAVE_PTHREADS
-  if (!(o->flags & O_DETACHED) && (o->flags & O_DETACH_LISTEN)) {       // Must detach and return
-    o->flags |= O_DETACHED;
-    int errcode =
-        onion_low_pthread_create(&o->listen_thread, NULL, onion_listen_start,
-                                 o);
-    if (errcode != 0)
-      return errcode;
-    return 0;
-  }
+#define ONION_LOCK(o) pthread_mutex_lock(&(o)->mutex)
+#define ONION_UNLOCK(o) pthread_mutex_unlock(&(o)->mutex)
+#else
+#define ONION_LOCK(o)
+#define ONION_UNLOCK(o)
 #endif
 
+/// Closes all the listen points. Server must be locked.
+static void onion_listen_close(onion * o) {
+  onion_listen_point **lp = o->listen_points;
+  while (lp && *lp) {
+    // First out of the poller, as once closed its number can be used for other things.
+    if (!(o->flags & O_ONE) && (*lp)->listenfd >= 0 && o->opened)
+      onion_poller_remove(o->poller, (*lp)->listenfd);
+    onion_listen_point_listen_stop(*lp);
+    lp++;
+  }
+  o->opened = false;
+}
+
+/// Opens the listen points and leaves all ready to poll. Returns 0 if there is something to listen to, <0 if already stopped.
+static int onion_listen_open(onion * o) {
+  ONION_LOCK(o);
+  if (o->flags & O_LISTENING) { // Not yet, others are waiting for it to end.
+    ONION_UNLOCK(o);
+    return EBUSY;
+  }
+  o->stop = false;
+  o->flags |= O_LISTENING;
+  ONION_UNLOCK(o);
+
   if (!o->listen_points) {
     onion_add_listen_point(o, NULL, NULL, onion_http_new());
     ONION_DEBUG("Created default HTTP listen port");
@@ -466,20 +476,67 @@ int onion_listen(onion * o) {
     }
     lp++;
   }
+
+  ONION_LOCK(o);
   if (!successful_listened_points) {
     ONION_ERROR("There are no available listen points");
+    o->flags &= ~O_LISTENING;
+    ONION_UNLOCK(o);
     return 1;
   }
+  if (o->stop) {                // Already asked to stop.
+    onion_listen_close(o);
+    o->flags &= ~O_LISTENING;
+    ONION_UNLOCK(o);
+    return -1;
+  }
+  if (!(o->flags & O_ONE)) {
+    for (lp = o->listen_points; *lp; lp++) {
+      onion_listen_point *p = *lp;
+      if (p->listenfd < 0)      // It may have failed, or have nothing to poll.
+        continue;
+      ONION_DEBUG("Adding listen point fd %d to poller", p->listenfd);
+      onion_poller_slot *slot =
+          onion_poller_slot_new(p->listenfd, (void *)onion_listen_point_accept,
+                                p);
+      if (slot) {
+        onion_poller_slot_set_type(slot, O_POLL_ALL);
+        onion_poller_add(o->poller, slot);
+      }
+    }
+    // From now on it can be stopped, even if the threads did not start to poll.
+#ifdef HAVE_PTHREADS
+    if (o->nthreads < 1)
+      o->nthreads = 1;
+    onion_poller_expect(o->poller, (o->flags & O_THREADED) ? o->nthreads : 1);
+#endif
+  }
+  o->opened = true;
+  ONION_UNLOCK(o);
+  return 0;
+}
 
-  o->flags |= O_LISTENING;
+/// Attends the open listen points until stopped.
+static int onion_listen_loop(onion * o) {
+#ifdef HAVE_PTHREADS
+  onion *prev = onion_of_thread;
+  onion_of_thread = o;
+#endif
+  ONION_LOCK(o);
+  bool stop = o->stop && (o->flags & O_ONE);
+  ONION_UNLOCK(o);
 
-  if (o->flags & O_ONE) {
+  if (stop) {
+    ONION_DEBUG("Stopped before starting");
+  } else if (o->flags & O_ONE) {
     onion_listen_point **listen_points = o->listen_points;
     if (listen_points[1] != NULL) {
       ONION_WARNING
           ("Trying to use non-poll and non-thread mode with several listen points. Only the first will be listened");
     }
-    onion_listen_point *op = listen_points[0];
+    while (listen_points[1] != NULL && (*listen_points)->listenfd < 0)  // Could not listen on this
+      listen_points++;
+    onion_listen_point *op = *listen_points;
     do {
       onion_request *req = onion_request_new(op);
       if (!req)
@@ -493,62 +550,106 @@ int onion_listen(onion * o) {
       ONION_DEBUG("End of request %p", req);
       onion_request_free(req);
       //req->connection.listen_point->close(req);
-    } while (((o->flags & O_ONE_LOOP) == O_ONE_LOOP) && op->listenfd > 0);
+    } while (((o->flags & O_ONE_LOOP) == O_ONE_LOOP) && op->listenfd >= 0);
   } else {
-    onion_listen_point **listen_points = o->listen_points;
-    while (*listen_points) {
-      onion_listen_point *p = *listen_points;
-      if (p->listenfd >= 0) {   // It may have failed, or have nothing to poll.
-        ONION_DEBUG("Adding listen point fd %d to poller", p->listenfd);
-        onion_poller_slot *slot =
-            onion_poller_slot_new(p->listenfd,
-                                  (void *)onion_listen_point_accept, p);
-        if (slot) {
-          onion_poller_slot_set_type(slot, O_POLL_ALL);
-          onion_poller_add(o->poller, slot);
-        }
-      }
-      listen_points++;
-    }
-
 #ifdef HAVE_PTHREADS
     ONION_DEBUG("Start polling / listening %p, %p, %p", o->listen_points,
                 *o->listen_points, *(o->listen_points + 1));
     if (o->flags & O_THREADED) {
-      o->threads = onion_low_malloc(sizeof(pthread_t) * (o->nthreads - 1));
+      int nthreads = o->nthreads - 1;
+      o->threads = onion_low_malloc(sizeof(pthread_t) * (nthreads + 1));
       int i;
-      for (i = 0; i < o->nthreads - 1; i++) {
-        onion_low_pthread_create(&o->threads[i], NULL, onion_poller_poll_start,
-                                 o->poller);
+      for (i = 0; i < nthreads; i++) {
+        if (onion_low_pthread_create
+            (&o->threads[i], NULL, onion_poller_poll_start, o) != 0)
+          break;
       }
+      onion_poller_expect(o->poller, i - nthreads);     // These will not come.
+      nthreads = i;
 
       // Here is where it waits.. but eventually it will exit at onion_listen_stop
       onion_poller_poll(o->poller);
       ONION_DEBUG("Closing onion_listen");
 
-      for (i = 0; i < o->nthreads - 1; i++) {
+      for (i = 0; i < nthreads; i++) {
         onion_low_pthread_join(o->threads[i], NULL);
       }
+      onion_low_free(o->threads);
+      o->threads = NULL;
     } else
 #endif
       onion_poller_poll(o->poller);
-
-    listen_points = o->listen_points;
-    while (*listen_points) {
-      onion_listen_point *p = *listen_points;
-      if (p->listenfd > 0) {
-        ONION_DEBUG("Removing %d from poller", p->listenfd);
-        onion_poller_remove(o->poller, p->listenfd);
-      }
-      listen_points++;
-    }
   }
 
+  ONION_LOCK(o);
+  if (o->opened)
+    onion_listen_close(o);
   o->flags = o->flags & ~O_LISTENING;
   shutdown_server_first_call = true;    // Mark as listen_stop/shutdown worked.
+  ONION_UNLOCK(o);
+#ifdef HAVE_PTHREADS
+  onion_of_thread = prev;
+#endif
   return 0;
 }
 
+#ifdef HAVE_PTHREADS
+/**
+ * @short Waits for the listen thread, if any and it is not a thread of the server who asks.
+ *
+ * Server must be locked, and will be unlocked.
+ */
+static void onion_listen_join_unlock(onion * o) {
+  bool join = (o->flags & O_DETACHED) && onion_of_thread != o;
+  pthread_t listen_thread = o->listen_thread;
+  if (join)
+    o->flags &= ~O_DETACHED;
+  ONION_UNLOCK(o);
+  if (join)
+    onion_low_pthread_join(listen_thread, NULL);
+}
+#endif
+
+/**
+ * @short Performs the listening with the given mode
+ * @ingroup onion
+ *
+ * This is the main loop for the onion server.
+ *
+ * It initiates the listening on all the selected ports and addresses.
+ *
+ * @returns !=0 if there is any error. It returns actualy errno from the network operations. See socket for more information.
+ */
+int onion_listen(onion * o) {
+#ifdef HAVE_PTHREADS
+  ONION_LOCK(o);
+  onion_listen_join_unlock(o);  // A former one may have been stopped by a handler
+#endif
+  int errcode = onion_listen_open(o);
+  if (errcode != 0)
+    return errcode < 0 ? 0 : errcode;
+#ifdef HAVE_PTHREADS
+  if (o->flags & O_DETACH_LISTEN) {     // Must detach and return
+    ONION_LOCK(o);
+    errcode =
+        onion_low_pthread_create(&o->listen_thread, NULL, onion_listen_start,
+                                 o);
+    if (errcode == 0)
+      o->flags |= O_DETACHED;
+    else {
+      if (!(o->flags & O_ONE) && o->opened)
+        onion_poller_expect(o->poller,
+                            -((o->flags & O_THREADED) ? o->nthreads : 1));
+      onion_listen_close(o);
+      o->flags &= ~O_LISTENING;
+    }
+    ONION_UNLOCK(o);
+    return errcode;
+  }
+#endif
+  return onion_listen_loop(o);
+}
+
 /**
  * @short Advises the listener to stop.
  *
@@ -556,36 +657,25 @@ int onion_listen(onion * o) {
  * called again, or the onion server freed.
  *
  * If there is any pending connection, it can finish if onion not freed before.
+ *
+ * If detached it waits for the listening to finish, unless called from a handler.
  */
 void onion_listen_stop(onion * server) {
-#ifdef HAVE_PTHREADS
-    pthread_mutex_lock(&server->mutex);
-  /// Not listening
-    if ((server->flags & O_LISTENING) == 0) {
-      pthread_mutex_unlock(&server->mutex);
-    return;
+  ONION_LOCK(server);
+  if (server->flags & O_LISTENING) {
+    server->stop = true;
+    /// Stop listening
+    if (server->opened) {
+      onion_listen_close(server);
+      if (server->poller) {
+        ONION_DEBUG("Stop listening");
+        onion_poller_stop(server->poller);
+      }
     }
-#else /*no pthreads*/
-  /// Not listening
-  if ((server->flags & O_LISTENING) == 0)
-    return;
-#endif /*HAVE_PTHREADS*/
-
-  /// Stop listening
-  onion_listen_point **lp = server->listen_points;
-  while (*lp) {
-    onion_listen_point_listen_stop(*lp);
-    lp++;
-  }
-  if (server->poller) {
-    ONION_DEBUG("Stop listening");
-    onion_poller_stop(server->poller);
   }
 #ifdef HAVE_PTHREADS
-  if (server->flags & O_DETACHED)
-    onion_low_pthread_join(server->listen_thread, NULL);
-  pthread_mutex_unlock (&server->mutex);
-#endif	/* end HAVE_PTHREADS */
+  onion_listen_join_unlock(server);
+#endif
 }
 
 /**
diff --git a/src/onion/poller.c b/src/onion/poller.c
index b6922f6..cb87914 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -73,7 +73,8 @@ struct onion_poller_t {
   char stop;
 #ifdef HAVE_PTHREADS
   pthread_mutex_t mutex;
-  int npollers;
+  int npollers;                 ///< Threads that poll, or will
+  int expected;                 ///< Those of npollers that did not start yet.
 #endif
 
   onion_poller_slot *head;
@@ -516,6 +517,29 @@ static void onion_poller_leave(onion_poller * p) {
 #endif
 }
 
+/**
+ * @short Announces that n more threads will call onion_poller_poll
+ * @memberof onion_poller_t
+ * @ingroup poller
+ *
+ * This way they will know that the poller was stopped even if that happens before they start. If negative, that
+ * many of the announced threads will not come.
+ */
+void onion_poller_expect(onion_poller * p, int n) {
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&p->mutex);
+  for (; n > 0; n--) {
+    p->npollers++;
+    p->expected++;
+  }
+  for (; n < 0 && p->expected > 0; n++) {
+    p->expected--;
+    onion_poller_leave(p);
+  }
+  pthread_mutex_unlock(&p->mutex);
+#endif
+}
+
 // Max of events per loop. If not al consumed for next, so no prob.  right number uses less memory, and makes less calls.
 static size_t onion_poller_max_events = 1;
 
@@ -533,7 +557,10 @@ void onion_poller_poll(onion_poller * p) {
   ONION_DEBUG("Start polling");
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
-  p->npollers++;
+  if (p->expected > 0)
+    p->expected--;
+  else
+    p->npollers++;
   ONION_DEBUG0("Npollers %d. %d listenings %p", p->npollers, p->n, p->head);
   pthread_mutex_unlock(&p->mutex);
 #else
diff --git a/src/onion/poller.h b/src/onion/poller.h
index 2e38f0c..a2133d9 100644
--- a/src/onion/poller.h
+++ b/src/onion/poller.h
@@ -72,6 +72,8 @@ extern "C" {
 
 /// Do the polling. If on several threads, this is done in every thread.
   void onion_poller_poll(onion_poller *);
+/// Announces that n more threads will do the polling, so that it can be stopped before they start.
+  void onion_poller_expect(onion_poller *, int n);
 /// Stops the polling. This only marks the flag, and should be cancelled with pthread_cancel.
   void onion_poller_stop(onion_poller *);
 
diff --git a/src/onion/poller_libev.c b/src/onion/poller_libev.c
index 8884c75..cd7b374 100644
--- a/src/onion/poller_libev.c
+++ b/src/onion/poller_libev.c
@@ -154,6 +154,10 @@ onion_poller_slot *onion_poller_get(onion_poller * poller, int fd) {
   return NULL;
 }
 
+/// Announces that n more threads will do the polling.
+void onion_poller_expect(onion_poller * poller, int n) {
+}
+
 /// Do the polling. If on several threads, this is done in every thread.
 void onion_poller_poll(onion_poller * poller) {
   ev_default_fork();
diff --git a/src/onion/poller_libevent.c b/src/onion/poller_libevent.c
index f379289..84d6da0 100644
--- a/src/onion/poller_libevent.c
+++ b/src/onion/poller_libevent.c
@@ -139,6 +139,10 @@ onion_poller_slot *onion_poller_get(onion_poller * poller, int fd) {
   return NULL;
 }
 
+/// Announces that n more threads will do the polling.
+void onion_poller_expect(onion_poller * poller, int n) {
+}
+
 /// Do the polling. If on several threads, this is done in every thread.
 void onion_poller_poll(onion_poller * poller) {
   poller->stop = 0;
diff --git a/src/onion/types_internal.h b/src/onion/types_internal.h
index 0301c59..ec0cb81 100644
--- a/src/onion/types_internal.h
+++ b/src/onion/types_internal.h
@@ -72,6 +72,8 @@ extern "C" {
     onion_sessions *sessions;   /// Storage for sessions.
     void *client_data;
     onion_client_data_free_sig *client_data_free;
+    bool stop;                  ///< It was asked to stop listening
+    bool opened;                ///< The listen points are open
 #ifdef HAVE_PTHREADS
     pthread_mutex_t mutex;
     pthread_t listen_thread;
-- 
2.43.0


From 99fe82c81771ef1ab5f4315c47250d2a771cf23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:20 +0000
Subject: [PATCH 085/104] fix: the sessions in memory can be used by several
 threads

---
 src/onion/sessions_mem.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/onion/sessions_mem.c b/src/onion/sessions_mem.c
index f8a31ce..7fa997d 100644
--- a/src/onion/sessions_mem.c
+++ b/src/onion/sessions_mem.c
@@ -35,25 +35,30 @@ char *last_data = NULL;
 static onion_dict *onion_sessions_mem_get(onion_sessions * sessions,
                                           const char *session_id) {
   ONION_DEBUG0("Accessing session '%s'", session_id);
+  // The reference is taken with the lock, or other thread may free it meanwhile.
+  onion_dict_lock_read(sessions->data);
   onion_dict *sess = onion_dict_get_dict(sessions->data, session_id);
-  if (!sess) {
+  if (sess)
+    sess = onion_dict_dup(sess);
+  else
     ONION_DEBUG0("Unknown session '%s'.", session_id);
-    return NULL;
-  }
-  return onion_dict_dup(sess);
+  onion_dict_unlock(sessions->data);
+  return sess;
 }
 
 static void onion_sessions_mem_save(onion_sessions * sessions,
                                     const char *session_id, onion_dict * data) {
+  onion_dict_lock_write(sessions->data);
   if (data == NULL) {
     data = onion_dict_get_dict(sessions->data, session_id);
     if (data) {
       onion_dict_remove(sessions->data, session_id);
     }
-    return;
+  } else {
+    onion_dict_add(sessions->data, session_id, onion_dict_dup(data),
+                   OD_DUP_KEY | OD_FREE_VALUE | OD_DICT | OD_REPLACE);
   }
-  onion_dict_add(sessions->data, session_id, onion_dict_dup(data),
-                 OD_DUP_KEY | OD_FREE_VALUE | OD_DICT | OD_REPLACE);
+  onion_dict_unlock(sessions->data);
 }
 
 static void onion_sessions_mem_free(onion_sessions * sessions) {
-- 
2.43.0


From 14fa7698832bb4fc49b887b289478dc72c16923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:20 +0000
Subject: [PATCH 086/104] fix: a request that ends does not lose what others
 add to its session meanwhile

---
 src/onion/request.c | 48 ++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 36bfd95..c2f79b1 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -113,6 +113,28 @@ static void unlink_files(void *p, const char *key, const char *value, int flags)
   unlink(value);
 }
 
+/**
+ * @short The request does not need its session anymore.
+ *
+ * It is saved, or removed from the storage if it is empty. Other requests may be using the same
+ * session: with the lock none of them can change it between knowing whether it is empty and that.
+ */
+static void onion_request_session_end(onion_request * req) {
+  onion_sessions *sessions = req->connection.listen_point->server->sessions;
+
+  onion_dict_lock_read(req->session);
+  if (onion_dict_count(req->session) == 0)
+    onion_sessions_remove(sessions, req->session_id);
+  else
+    onion_sessions_save(sessions, req->session_id, req->session);
+  onion_dict_unlock(req->session);
+
+  onion_dict_free(req->session);        // Not really remove, just dereference
+  req->session = NULL;
+  onion_low_free(req->session_id);
+  req->session_id = NULL;
+}
+
 /**
  * @short Deletes a request and all its data
  * @memberof onion_request_t
@@ -135,16 +157,8 @@ void onion_request_free(onion_request * req) {
     onion_dict_preorder(req->FILES, unlink_files, NULL);
     onion_dict_free(req->FILES);
   }
-  if (req->session) {
-    if (onion_dict_count(req->session) == 0)
-      onion_request_session_free(req);
-    else {
-      onion_sessions_save(req->connection.listen_point->server->sessions,
-                          req->session_id, req->session);
-      onion_dict_free(req->session);    // Not really remove, just dereference
-      onion_low_free(req->session_id);
-    }
-  }
+  if (req->session)
+    onion_request_session_end(req);
   if (req->data)
     onion_block_free(req->data);
   if (req->connection.cli_info)
@@ -197,18 +211,8 @@ void onion_request_clean(onion_request * req) {
     onion_dict_free(req->FILES);
     req->FILES = NULL;
   }
-  if (req->session_id) {
-    if (onion_dict_count(req->session) == 0) {
-      onion_request_session_free(req);
-    } else {
-      onion_sessions_save(req->connection.listen_point->server->sessions,
-                          req->session_id, req->session);
-      onion_dict_free(req->session);    // Not really remove, just dereference
-      req->session = NULL;
-      onion_low_free(req->session_id);
-      req->session_id = NULL;
-    }
-  }
+  if (req->session_id)
+    onion_request_session_end(req);
   if (req->data) {
     onion_block_free(req->data);
     req->data = NULL;
-- 
2.43.0


From 505112e9cd373f73c6777685b8a1d9d0ab8222b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:20 +0000
Subject: [PATCH 087/104] fix: only one thread fills the mime types

---
 src/onion/mime.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index 2a1bb93..1c28240 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -31,6 +31,17 @@
 #include "log.h"
 #include "utils.h"
 
+#ifdef HAVE_PTHREADS
+#include <pthread.h>
+/// Only one thread fills or changes the mime types; the others wait for it.
+static pthread_mutex_t onion_mime_mutex = PTHREAD_MUTEX_INITIALIZER;
+#define onion_mime_lock() pthread_mutex_lock(&onion_mime_mutex)
+#define onion_mime_unlock() pthread_mutex_unlock(&onion_mime_mutex)
+#else
+#define onion_mime_lock()
+#define onion_mime_unlock()
+#endif
+
 /// @defgroup mime MIME. mime functionctionalities
 
 /// Dict with all extension to mime type. This will never be freed.
@@ -47,9 +58,11 @@ static void onion_mime_fill();
  * At onion_server_free it is freed, as if this function is called again.
  */
 void onion_mime_set(onion_dict * d) {
+  onion_mime_lock();
   if (onion_mime_dict)
     onion_dict_free(onion_mime_dict);
   onion_mime_dict = d;
+  onion_mime_unlock();
 }
 
 /**
@@ -64,9 +77,6 @@ void onion_mime_set(onion_dict * d) {
  * If none is found, returns text/plain.
  */
 const char *onion_mime_get(const char *filename) {
-  if (!onion_mime_dict)
-    onion_mime_fill();
-
   const char *extension = filename;
   int l = strlen(filename);
   int i;
@@ -79,7 +89,11 @@ const char *onion_mime_get(const char *filename) {
 
   //ONION_DEBUG("I know %d mime types", onion_dict_count(onion_mime_dict));
 
+  onion_mime_lock();
+  if (!onion_mime_dict)
+    onion_mime_fill();
   const char *r = onion_dict_get(onion_mime_dict, extension);
+  onion_mime_unlock();
   if (r)
     return r;
   //ONION_DEBUG("Mime type for extension '%s' %s",extension, r);
@@ -90,10 +104,9 @@ const char *onion_mime_get(const char *filename) {
  * @short Reads the /etc/mime.types file
  * @ingroup mime
  *
- *
+ * Called with the lock.
  */
 static void onion_mime_fill() {
-  onion_mime_set(NULL);
   onion_mime_dict = onion_dict_new();
   //ONION_DEBUG("Filling mime types");
 
@@ -170,6 +183,7 @@ static void onion_mime_fill() {
  * User can add new mime types, or remove (if mimetype == NULL).
  */
 void onion_mime_update(const char *extension, const char *mimetype) {
+  onion_mime_lock();
   if (!onion_mime_dict)
     onion_mime_fill();
 
@@ -178,4 +192,5 @@ void onion_mime_update(const char *extension, const char *mimetype) {
                    OD_DUP_ALL | OD_REPLACE);
   else
     onion_dict_remove(onion_mime_dict, extension);
+  onion_mime_unlock();
 }
-- 
2.43.0


From 69769e181f4eacee134133c8a6df7f7bd31e5b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:20 +0000
Subject: [PATCH 088/104] fix: the expiration of a cookie is not that of
 another thread

---
 src/onion/response.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index c7583d5..5b16d9b 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -641,12 +641,12 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
         snprintf(data + pos, size - pos,
                  "; expires=Thu, 01 Jan 1970 00:00:00 GMT");
   else if (validity_t > 0) {
-    struct tm *tmp;
+    struct tm tmp;
     time_t t = time(NULL) + validity_t;
-    tmp = localtime(&t);
+    localtime_r(&t, &tmp);
     pos +=
         strftime(data + pos, size - pos,
-                 "; expires=%a, %d %b %Y %H:%M:%S %Z", tmp);
+                 "; expires=%a, %d %b %Y %H:%M:%S %Z", &tmp);
   }
   if (path)
     pos += snprintf(data + pos, size - pos, "; path=%s", path);
-- 
2.43.0


From 43ca8e002b40e1f8efca62a80f549229dc6741ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:20 +0000
Subject: [PATCH 089/104] fix: a late thread does not set the Date header back

---
 src/onion/response.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 5b16d9b..7a54d64 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -107,6 +107,11 @@ onion_response *onion_response_new(onion_request * req) {
       ONION_DEBUG("Recalculating date header");
       char current_datetime[200];
 
+#ifdef HAVE_PTHREADS
+      pthread_rwlock_wrlock(&onion_response_date_lock);
+#endif
+      // Again, now that no other thread may set it to a later time.
+      t = time(NULL);
       if (gmtime_r(&t, &tmp) == NULL) {
         perror("gmtime");
         exit(EXIT_FAILURE);
@@ -118,10 +123,7 @@ onion_response *onion_response_new(onion_request * req) {
         fprintf(stderr, "strftime returned 0");
         exit(EXIT_FAILURE);
       }
-#ifdef HAVE_PTHREADS
-      pthread_rwlock_wrlock(&onion_response_date_lock);
-#endif
-      __sync_bool_compare_and_swap(&onion_response_last_time, current, t);
+      __sync_lock_test_and_set(&onion_response_last_time, t);
       if (onion_response_last_date_header)
         onion_low_free(onion_response_last_date_header);
       onion_response_last_date_header = onion_low_strdup(current_datetime);
-- 
2.43.0


From eddfa1b9ff30f5c89bed6b422211ebb74c65641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:20 +0000
Subject: [PATCH 090/104] fix: the session is only read with its lock at
 auth_pam

---
 src/onion/handlers/auth_pam.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index 771470f..f1610bc 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -51,7 +51,11 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
                                    onion_request * request,
                                    onion_response * res) {
   /// Use session to know if already logged in, so do not mess with PAM so often.
-  if (onion_request_get_session(request, "pam_logged_in"))
+  onion_dict *logged_session = onion_request_get_session_dict(request);
+  onion_dict_lock_read(logged_session);
+  int logged_in = onion_dict_get(logged_session, "pam_logged_in") != NULL;
+  onion_dict_unlock(logged_session);
+  if (logged_in)
     return onion_handler_handle(d->inside, request, res);
 
   const char *o = onion_request_get_header(request, "Authorization");
-- 
2.43.0


From 7a6f8dca97cf2a8c6c2638a5458e1565961086a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:59 +0000
Subject: [PATCH 091/104] fix: the owner in a listing is not that of another
 thread's listing

---
 src/onion/handlers/exportlocal.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index 3c52e1a..413daee 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -189,13 +189,17 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
   struct stat st;
   char temp[PATH_MAX + 256];
   struct passwd *pwd;
+  struct passwd pwd_data;
+  char pwd_buffer[4096];
   while ((fi = readdir(dir)) != NULL) {
     if (fi->d_name[0] == '.')
       continue;
     snprintf(temp, sizeof(temp), "%s/%s", realp, fi->d_name);
     if (stat(temp, &st) != 0)
       continue;                 // Maybe a dangling link, or just removed.
-    pwd = getpwuid(st.st_uid);
+    if (getpwuid_r
+        (st.st_uid, &pwd_data, pwd_buffer, sizeof(pwd_buffer), &pwd) != 0)
+      pwd = NULL;
 
     if (S_ISDIR(st.st_mode))
       onion_response_printf(res, "  ['%s/',%ld,'%s','dir'],\n", fi->d_name,
-- 
2.43.0


From 8743f771a13f8eb910404cff45e18237ee4f23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:34 +0000
Subject: [PATCH 092/104] fix: the session is counted with its lock when
 headers are written

---
 src/onion/response.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 7a54d64..8809e8b 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -265,6 +265,19 @@ static void write_header(onion_response * res, const char *key,
 #define CONNECTION_CHUNK_ENCODING "Transfer-Encoding: chunked\r\n"
 #define CONNECTION_UPGRADE "Connection: Upgrade\r\n"
 
+/// Whether there is something in the dict, which other threads may be changing.
+static bool has_data(onion_dict * dict) {
+#ifdef HAVE_PTHREADS
+  bool locked = pthread_rwlock_rdlock(&dict->lock) == 0;        // Not if this thread is the one changing it.
+#endif
+  bool ret = onion_dict_count(dict) > 0;
+#ifdef HAVE_PTHREADS
+  if (locked)
+    pthread_rwlock_unlock(&dict->lock);
+#endif
+  return ret;
+}
+
 /**
  * @short Writes all the header to the given response
  * @memberof onion_response_t
@@ -332,7 +345,7 @@ int onion_response_write_headers(onion_response * res) {
 
   onion_dict_preorder(res->headers, write_header, res);
 
-  if (res->request->session_id && (onion_dict_count(res->request->session) > 0))        // I have session with something, tell user
+  if (res->request->session_id && has_data(res->request->session))      // I have session with something, tell user
     onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\r\n",
                           res->request->session_id);
 
-- 
2.43.0


From 89afed14d1b256cf90542afad3723c7eb0d40c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 093/104] fix: otemplate: a comment may end with several #

---
 tools/otemplate/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/otemplate/parser.c b/tools/otemplate/parser.c
index efb3cad..79f8939 100644
--- a/tools/otemplate/parser.c
+++ b/tools/otemplate/parser.c
@@ -76,7 +76,7 @@ void parse_template(parser_status * status) {
     case COMMENTHASH:
       if (c == '}')
         set_mode(status, TEXT);
-      else
+      else if (c != '#')
         set_mode(status, COMMENT);
       break;
     case VARIABLE:
-- 
2.43.0


From c6fe84f303e099e7b014346bb827ccc5b5c7763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 094/104] fix: otemplate: a { at the end of the file is text

---
 tools/otemplate/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/otemplate/parser.c b/tools/otemplate/parser.c
index 79f8939..76bb7ed 100644
--- a/tools/otemplate/parser.c
+++ b/tools/otemplate/parser.c
@@ -115,6 +115,8 @@ void parse_template(parser_status * status) {
       return;
     }
   }
+  if (status->mode == BEGIN)    // The file ends with a {
+    add_char(status, '{');
   set_mode(status, END);
 }
 
-- 
2.43.0


From b4b679f2d247a9ac25f81a87b9a7bef49be72126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 095/104] fix: otemplate: a % inside a tag and a } inside a
 variable do not end them

---
 tools/otemplate/parser.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tools/otemplate/parser.c b/tools/otemplate/parser.c
index 76bb7ed..7c97c10 100644
--- a/tools/otemplate/parser.c
+++ b/tools/otemplate/parser.c
@@ -94,8 +94,8 @@ void parse_template(parser_status * status) {
     case END_VARIABLE:
       if (c == '}')
         set_mode(status, TEXT);
-      else {
-        set_mode(status, VARIABLE);
+      else {                    // Still the same variable
+        status->mode = VARIABLE;
         add_char(status, '}');
         add_char(status, c);
       }
@@ -103,10 +103,12 @@ void parse_template(parser_status * status) {
     case END_TAG:
       if (c == '}')
         set_mode(status, TEXT);
-      else {
-        set_mode(status, END_TAG);
+      else {                    // Still the same tag
         add_char(status, '%');
-        add_char(status, c);
+        if (c != '%') {
+          status->mode = TAG;
+          add_char(status, c);
+        }
       }
       break;
     default:
-- 
2.43.0


From 6d2bf161a230cc1abab9fc4631cae7830090b814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 096/104] fix: otemplate: lines of text of any length

---
 tools/otemplate/functions.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/tools/otemplate/functions.c b/tools/otemplate/functions.c
index 358f1cf..914bf72 100644
--- a/tools/otemplate/functions.c
+++ b/tools/otemplate/functions.c
@@ -222,6 +222,17 @@ function_data *function_pop(parser_status * st) {
   return p;
 }
 
+/// Prints to a new string, as long as necessary
+static char *vprint_new(const char *fmt, va_list ap) {
+  va_list aq;
+  va_copy(aq, ap);
+  int l = vsnprintf(NULL, 0, fmt, aq);
+  va_end(aq);
+  char *ret = malloc(l + 1);
+  vsnprintf(ret, l + 1, fmt, ap);
+  return ret;
+}
+
 /**
  * @short Adds some code to the top function
  */
@@ -230,11 +241,9 @@ void function_add_code(parser_status * st, const char *fmt, ...) {
   if (p->flags & F_NO_MORE_WRITE)
     return;
 
-  char tmp[4096];
-
   va_list ap;
   va_start(ap, fmt);
-  vsnprintf(tmp, sizeof(tmp), fmt, ap);
+  char *tmp = vprint_new(fmt, ap);
   va_end(ap);
 
   if (use_orig_line_numbers) {
@@ -262,20 +271,20 @@ void function_add_code(parser_status * st, const char *fmt, ...) {
     //ONION_DEBUG("Add to level %d text %s",list_count(st->function_stack), tmp);
     onion_block_add_str(st->current_code, tmp);
   }
+  free(tmp);
 }
 
 /**
  * @short Adds some code to a given function.
  */
 void function_add_code_f(struct function_data_t *f, const char *fmt, ...) {
-  char tmp[4096];
-
   va_list ap;
   va_start(ap, fmt);
-  vsnprintf(tmp, sizeof(tmp), fmt, ap);
+  char *tmp = vprint_new(fmt, ap);
   va_end(ap);
 
   //ONION_DEBUG("Add to level %d text %s",list_count(st->function_stack), tmp);
 
   onion_block_add_str(f->code, tmp);
+  free(tmp);
 }
-- 
2.43.0


From 72175e6977154cf20cb0a6efaa83252b74e39d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 097/104] fix: otemplate: !=, < and > are false for a value and
 itself, != is true when only one is missing

---
 tools/otemplate/tag_builtins.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index 4cc9864..3710e21 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -130,25 +130,24 @@ void tag_if(parser_status * st, list * l) {
   } else if (lc == 4) {
     const char *op = tag_value_arg(l, 2);
     const char *opcmp = NULL;
+    // A missing value is only equal to another missing value
     if (strcmp(op, "==") == 0)
-      opcmp = "==0";
+      opcmp = "op1==op2 || (op1 && op2 && strcmp(op1, op2)==0)";
     else if (strcmp(op, "<=") == 0)
-      opcmp = "<=0";
+      opcmp = "op1==op2 || (op1 && op2 && strcmp(op1, op2)<=0)";
     else if (strcmp(op, "<") == 0)
-      opcmp = "<0";
+      opcmp = "op1 && op2 && strcmp(op1, op2)<0";
     else if (strcmp(op, ">=") == 0)
-      opcmp = ">=0";
+      opcmp = "op1==op2 || (op1 && op2 && strcmp(op1, op2)>=0)";
     else if (strcmp(op, ">") == 0)
-      opcmp = ">0";
+      opcmp = "op1 && op2 && strcmp(op1, op2)>0";
     else if (strcmp(op, "!=") == 0)
-      opcmp = "!=0";
+      opcmp = "op1!=op2 && !(op1 && op2 && strcmp(op1, op2)==0)";
     if (opcmp) {
       function_add_code(st, "  {\n" "    const char *op1, *op2;\n");
       variable_solve(st, tag_value_arg(l, 1), "op1", tag_type_arg(l, 1));
       variable_solve(st, tag_value_arg(l, 3), "op2", tag_type_arg(l, 3));
-      function_add_code(st,
-                        "    if (op1==op2 || (op1 && op2 && strcmp(op1, op2)%s))\n",
-                        opcmp);
+      function_add_code(st, "    if (%s)\n", opcmp);
     } else {
       ONION_ERROR("%s:%d Unkonwn operator for if: %s", st->infilename, st->line,
                   op);
-- 
2.43.0


From 166ee3fdc62cc3f0a4c6f6aa9fa8d8e9310b8d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 098/104] fix: otemplate: blocks inside loops and includes of
 templates with blocks inside loops

---
 tools/otemplate/otemplate.c    | 10 ++++++++++
 tools/otemplate/tag_builtins.c |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index bd1576e..9b35343 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -239,6 +239,16 @@ int work(const char *infilename, const char *outfilename,
           "	onion_dict *dict;\n"
           "	onion_response *res;\n" "}dict_res;\n" "\n" "\n");
 
+  // Copies of the context share the values, some are functions.
+  fprintf(status.out,
+          "static inline void context_copy_add(onion_dict *d, const char *key, const void *value, int flags){\n"
+          "  onion_dict_add(d, key, value, flags&OD_TYPE_MASK);\n"
+          "}\n\n"
+          "static inline onion_dict *context_copy(onion_dict *context){\n"
+          "  onion_dict *d=onion_dict_new();\n"
+          "  onion_dict_preorder(context, context_copy_add, d);\n"
+          "  return d;\n" "}\n\n");
+
   functions_write_declarations_assets(&status, assets);
 
   functions_write_declarations(&status);
diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index 3710e21..5ddb794 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -91,7 +91,7 @@ void tag_for(parser_status * st, list * l) {
   variable_solve(st, tag_value_arg(l, 3), "loopdict", 2);
 // "    onion_dict_get_dict(context, \"%s\");\n", tag_value_arg (l,3));
   function_add_code(st,
-                    "    onion_dict *tmpcontext=onion_dict_hard_dup(context);\n"
+                    "    onion_dict *tmpcontext=context_copy(context);\n"
                     "    if (loopdict){\n"
                     "      dict_res dr={ .dict = tmpcontext, .res=res };\n"
                     "      onion_dict_preorder(loopdict, ");
-- 
2.43.0


From c920f090eb3ef19c85f80c0ddaf461c016de645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 099/104] fix: otemplate: the blocks of an included template
 are not those of who includes it

---
 tools/otemplate/otemplate.c    | 4 ++++
 tools/otemplate/tag_builtins.c | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index 9b35343..5d04712 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -244,6 +244,10 @@ int work(const char *infilename, const char *outfilename,
           "static inline void context_copy_add(onion_dict *d, const char *key, const void *value, int flags){\n"
           "  onion_dict_add(d, key, value, flags&OD_TYPE_MASK);\n"
           "}\n\n"
+          "static inline void context_copy_add_no_block(onion_dict *d, const char *key, const void *value, int flags){\n"
+          "  if (strncmp(key, \"__block_\", 8)!=0)\n"
+          "    onion_dict_add(d, key, value, flags&OD_TYPE_MASK);\n"
+          "}\n\n"
           "static inline onion_dict *context_copy(onion_dict *context){\n"
           "  onion_dict *d=onion_dict_new();\n"
           "  onion_dict_preorder(context, context_copy_add, d);\n"
diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index 5ddb794..aaf29a7 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -184,7 +184,13 @@ void tag_include(parser_status * st, list * l) {
   onion_block_free(d->code);    // This means no impl
   d->code = NULL;
 
-  function_add_code(st, "  %s(context, res);\n", d->id);
+  // Its blocks are its own
+  function_add_code(st,
+                    "  {\n"
+                    "    onion_dict *tmpcontext=onion_dict_new();\n"
+                    "    onion_dict_preorder(context, context_copy_add_no_block, tmpcontext);\n"
+                    "    %s(tmpcontext, res);\n"
+                    "    onion_dict_free(tmpcontext);\n" "  }\n", d->id);
 }
 
 void tag_extends(parser_status * st, list * l) {
-- 
2.43.0


From 06126ec9209c01e6e21b35771b5d52e7e6304f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 100/104] fix: opack: each directory has its own name

---
 tools/opack/opack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index fb63675..a16c859 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -92,7 +92,7 @@ int main(int argc, char **argv) {
       struct stat st;
       stat(argv[i], &st);
       if (S_ISDIR(st.st_mode)) {
-        parse_directory(onion_basename(argv[1]), argv[i], outfd, assets);
+        parse_directory(onion_basename(argv[i]), argv[i], outfd, assets);
       } else {
         parse_file("", argv[i], outfd, assets);
       }
-- 
2.43.0


From 1d4f75032add98ba2d83eb5fa64b034dd85bad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 101/104] fix: opack: the bytes written are not the connection
 status

---
 tools/opack/opack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index a16c859..db71d91 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -177,7 +177,8 @@ void parse_file(const char *prefix, const char *filename, FILE * outfd,
           "  onion_response_set_header(res, \"Content-Type\", \"%s\");\n",
           mime_type);
   fprintf(outfd,
-          "  return onion_response_write(res, data, sizeof(data));\n}\n\n");
+          "  onion_response_write(res, data, sizeof(data));\n"
+          "  return OCS_PROCESSED;\n}\n\n");
 
   fprintf(outfd, "const unsigned int %s_length = %d;\n\n", fname, l);
 
-- 
2.43.0


From 4b5bf79284135b580eb97da1461c847f6e1bed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 102/104] fix: opack: any file name is quoted in the generated
 code

---
 tools/opack/opack.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index db71d91..a2fd853 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -29,6 +29,7 @@
 #include <dirent.h>
 #include <sys/stat.h>
 #include <onion/mime.h>
+#include <onion/codecs.h>
 #include <onion/utils.h>
 
 #include "../common/updateassets.h"
@@ -229,15 +230,17 @@ void parse_directory(const char *prefix, const char *dirname, FILE * outfd,
     if (de->d_name[0] == '.' || de->d_name[strlen(de->d_name) - 1] == '~')
       continue;
     char *fname = funcname(prefix, de->d_name);
+    char *qname = onion_c_quote_new(de->d_name);
     if (de->d_type == DT_DIR) {
       int l = strlen(de->d_name);
-      fprintf(outfd, "  if (strncmp(\"%s/\", path, %d)==0){\n", de->d_name,
+      fprintf(outfd, "  if (strncmp(%s \"/\", path, %d)==0){\n", qname,
               l + 1);
       fprintf(outfd, "    onion_request_advance_path(req, %d);\n", l + 1);
     } else
-      fprintf(outfd, "  if (strcmp(\"%s\", path)==0){\n", de->d_name);
+      fprintf(outfd, "  if (strcmp(%s, path)==0){\n", qname);
     fprintf(outfd, "    return %s(_, req, res);\n", fname);
     fprintf(outfd, "  }\n");
+    free(qname);
     free(fname);
   }
   closedir(dir);
-- 
2.43.0


From 4051fb8f16a29eac0cc69feb79a45b1b539ebf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 103/104] fix: opack: a file not found in a subdirectory leaves
 the path as it was

---
 tools/opack/opack.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index a2fd853..19b1a88 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -236,9 +236,17 @@ void parse_directory(const char *prefix, const char *dirname, FILE * outfd,
       fprintf(outfd, "  if (strncmp(%s \"/\", path, %d)==0){\n", qname,
               l + 1);
       fprintf(outfd, "    onion_request_advance_path(req, %d);\n", l + 1);
-    } else
+      fprintf(outfd, "    onion_connection_status ret=%s(_, req, res);\n",
+              fname);
+      // not here, the path is again as it was for the next handler
+      fprintf(outfd,
+              "    if (ret==OCS_NOT_PROCESSED) onion_request_advance_path(req, -%d);\n",
+              l + 1);
+      fprintf(outfd, "    return ret;\n");
+    } else {
       fprintf(outfd, "  if (strcmp(%s, path)==0){\n", qname);
-    fprintf(outfd, "    return %s(_, req, res);\n", fname);
+      fprintf(outfd, "    return %s(_, req, res);\n", fname);
+    }
     fprintf(outfd, "  }\n");
     free(qname);
     free(fname);
-- 
2.43.0


From 47dd07fa5a8d221f272cb2e1be577fe9a03d4e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:22 +0000
Subject: [PATCH 104/104] fix: https: data of a TLS record that is not read at
 once is not forgotten

---
 src/onion/https.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 8b4e2f7..08974f4 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -65,6 +65,7 @@ typedef struct onion_https_t onion_https;
 
 int onion_http_read_ready(onion_request * req);
 static int onion_https_request_init(onion_request * req);
+static int onion_https_read_ready(onion_request * req);
 static ssize_t onion_https_read(onion_request * req, char *data, size_t len);
 ssize_t onion_https_write(onion_request * req, const char *data, size_t len);
 static void onion_https_close(onion_request * req);
@@ -93,7 +94,7 @@ onion_listen_point *onion_https_new() {
   op->read = onion_https_read;
   op->write = onion_https_write;
   op->close = onion_https_close;
-  op->read_ready = onion_http_read_ready;
+  op->read_ready = onion_https_read_ready;
   op->secure = true;
 
   op->user_data = onion_low_calloc(1, sizeof(onion_https));
@@ -237,6 +238,26 @@ static int onion_https_request_init(onion_request * req) {
   return 0;
 }
 
+/**
+ * @short There is data ready to be read
+ * @memberof onion_https_t
+ * @ingroup https
+ *
+ * A record may have more data than what is read at once. That data is already at the TLS session, the socket
+ * will not say it is there.
+ *
+ * @param req to get data from
+ */
+static int onion_https_read_ready(onion_request * req) {
+  int ret;
+  do {
+    ret = onion_http_read_ready(req);
+  } while (ret >= 0
+           && gnutls_record_check_pending((gnutls_session_t) req->
+                                          connection.user_data) > 0);
+  return ret;
+}
+
 /**
  * @short Method to read some HTTPS data.
  * @memberof onion_https_t
-- 
2.43.0

