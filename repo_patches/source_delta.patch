From 2ebd8cabfdf8354fa68fe327da1c6a57f31a1e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:42 +0000
Subject: [PATCH 01/24] fix: do not loop forever on a short option cluster that
 ends in '-'

"-a-" reached the long option branch with an empty name and returned without
consuming the token, so arg_parse() rescanned it for ever. Report '-' as an
unknown option character and move on.
---
 src/arg_getopt_long.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arg_getopt_long.c b/src/arg_getopt_long.c
index b2dc4d8..f04d69a 100644
--- a/src/arg_getopt_long.c
+++ b/src/arg_getopt_long.c
@@ -529,8 +529,12 @@ start:
 #endif
 		if (*place == '-') {
 			place++;		/* --foo long option */
-			if (*place == '\0')
-				return (BADARG);	/* malformed option */
+			if (*place == '\0') {	/* malformed option */
+				++optind;
+				place = EMSG;
+				optopt = (int)'-';
+				return (BADCH);
+			}
 #ifdef GNU_COMPATIBLE
 			dash_prefix = DD_PREFIX;
 #endif
-- 
2.43.0


From ea5948e508ab9708a31c5175e68b48713c60b04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:50 +0000
Subject: [PATCH 02/24] fix: regular expressions never match past the end of
 the text

'.', negated classes and the negated \D, \S, ... escapes accepted the
terminating NUL, so the match ran past the end of the argument: "any.*" did
not match "any" and memory after the string was read. The word boundary test
also looked one character past the end.
---
 src/arg_rex.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 158a922..1663a86 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -855,8 +855,9 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             return cur;
         }
         case OP_WB:
-            if ((str == exp->_bol && !isspace((int)(*str))) || (str == exp->_eol && !isspace((int)(*(str - 1)))) || (!isspace((int)(*str)) && isspace((int)(*(str + 1)))) ||
-                (isspace((int)(*str)) && !isspace((int)(*(str + 1))))) {
+            if ((str == exp->_bol && !isspace((int)(*str))) || (str == exp->_eol && !isspace((int)(*(str - 1)))) ||
+                (str != exp->_eol && !isspace((int)(*str)) && isspace((int)(*(str + 1)))) ||
+                (str != exp->_eol && isspace((int)(*str)) && !isspace((int)(*(str + 1))))) {
                 return (node->left == 'b') ? str : NULL;
             }
             return (node->left == 'b') ? NULL : str;
@@ -868,12 +869,15 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             if (str == exp->_eol)
                 return str;
             return NULL;
-        case OP_DOT: {
+        case OP_DOT:
+            if (str == exp->_eol)
+                return NULL;
             str++;
-        }
             return str;
         case OP_NCLASS:
         case OP_CLASS:
+            if (str == exp->_eol)
+                return NULL;
             if (trex_matchclass(exp, &exp->_nodes[node->left], *str) ? (type == OP_CLASS ? TRex_True : TRex_False)
                                                                      : (type == OP_NCLASS ? TRex_True : TRex_False)) {
                 str++;
@@ -881,6 +885,8 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             }
             return NULL;
         case OP_CCLASS:
+            if (str == exp->_eol)
+                return NULL;
             if (trex_matchcclass(node->left, *str)) {
                 str++;
                 return str;
-- 
2.43.0


From 7dd82cfe45fbe736f667404fe871cc123c51567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:00 +0000
Subject: [PATCH 03/24] fix: an argument never matches an invalid regular
 expression

trex_compile() returns NULL for an invalid pattern and arg_rex_scanfn() passed
that on to trex_match(), which crashed on the first argument value.
---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 1663a86..adad939 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -148,7 +148,7 @@ static int arg_rex_scanfn(struct arg_rex* parent, const char* argval) {
         /* if a match is detected, record the argument value in the arg_rex struct */
 
         rex = trex_compile(priv->pattern, &error, priv->flags);
-        is_match = trex_match(rex, argval);
+        is_match = rex ? trex_match(rex, argval) : TRex_False;
         if (!is_match)
             errorcode = ARG_ERR_REGNOMATCH;
         else
-- 
2.43.0


From ef759cbac5598d29e47395b553e0431d2add1051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:09 +0000
Subject: [PATCH 04/24] fix: allocate room for the first node of an empty
 regular expression

The node array is sized by the pattern length, so the pattern "" got no room
at all and doubling zero never made any.
---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index adad939..53db91e 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -910,7 +910,7 @@ TRex* trex_compile(const TRexChar* pattern, const TRexChar** error, int flags) {
     TRex* exp = (TRex*)xmalloc(sizeof(TRex));
     exp->_eol = exp->_bol = NULL;
     exp->_p = pattern;
-    exp->_nallocated = (int)(scstrlen(pattern) * sizeof(TRexChar));
+    exp->_nallocated = (int)((scstrlen(pattern) + 1) * sizeof(TRexChar));
     exp->_nodes = (TRexNode*)xmalloc((size_t)exp->_nallocated * sizeof(TRexNode));
     exp->_nsize = 0;
     exp->_matches = 0;
-- 
2.43.0


From ade3841d2736e2826f8683f0bd23e0dc701ffcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:18 +0000
Subject: [PATCH 05/24] fix: check the bounds, not the node index, of a
 character range

trex_class() compared the index of the lower bound's node with the upper
bound, so "[0-9]" was rejected as an invalid range once it stood far enough
into a pattern, while "[z-a]" was accepted. The test for an unfinished range
looked at the '-' instead of the character after it.
---
 src/arg_rex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 53db91e..8f8c6d2 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -506,15 +506,15 @@ static int trex_class(TRex* exp) {
     while (*exp->_p != ']' && exp->_p != exp->_eol) {
         if (*exp->_p == '-' && first != -1) {
             int r, t;
-            if (*exp->_p++ == ']')
+            if (*++exp->_p == ']')
                 trex_error(exp, _SC("unfinished range"));
             r = trex_newnode(exp, OP_RANGE);
-            if (first > *exp->_p)
-                trex_error(exp, _SC("invalid range"));
             if (exp->_nodes[first].type == OP_CCLASS)
                 trex_error(exp, _SC("cannot use character classes in ranges"));
             exp->_nodes[r].left = exp->_nodes[first].type;
             t = trex_escapechar(exp);
+            if (exp->_nodes[r].left > t)
+                trex_error(exp, _SC("invalid range"));
             exp->_nodes[r].right = t;
             exp->_nodes[chain].next = r;
             chain = r;
-- 
2.43.0


From 92d406cb070135427047eb49b8e5098847b837bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:27 +0000
Subject: [PATCH 06/24] fix: reject a regular expression that ends in a
 backslash

The escape consumed the terminating NUL and the parser went on reading past
the end of the pattern.
---
 src/arg_rex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 8f8c6d2..540e116 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -401,6 +401,9 @@ static TRexChar trex_escapechar(TRex* exp) {
     if (*exp->_p == TREX_SYMBOL_ESCAPE_CHAR) {
         exp->_p++;
         switch (*exp->_p) {
+            case '\0':
+                trex_error(exp, _SC("letter expected"));
+                break;
             case 'v':
                 exp->_p++;
                 return '\v';
@@ -435,6 +438,9 @@ static int trex_charnode(TRex* exp, TRexBool isclass) {
     if (*exp->_p == TREX_SYMBOL_ESCAPE_CHAR) {
         exp->_p++;
         switch (*exp->_p) {
+            case '\0':
+                trex_error(exp, _SC("letter expected"));
+                break;
             case 'n':
                 exp->_p++;
                 return trex_newnode(exp, '\n');
-- 
2.43.0


From 6e3b1a2c3d9796c236090b7d331e83c9d054b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:36 +0000
Subject: [PATCH 07/24] fix: reject regular expression repeat counts that do
 not fit in 16 bits

The counts are stored in 16 bits each, so "a{65537}" silently meant "a{1}",
longer numbers overflowed an int, and counts above 32767 were shifted into the
sign bit.
---
 src/arg_rex.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 540e116..c544335 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -550,13 +550,11 @@ static int trex_class(TRex* exp) {
 
 static int trex_parsenumber(TRex* exp) {
     int ret = *exp->_p - '0';
-    int positions = 10;
     exp->_p++;
     while (isdigit((int)(*exp->_p))) {
         ret = ret * 10 + (*exp->_p++ - '0');
-        if (positions == 1000000000)
+        if (ret > 0xFFFF)
             trex_error(exp, _SC("overflow in numeric constant"));
-        positions *= 10;
     };
     return ret;
 }
@@ -648,7 +646,7 @@ static int trex_element(TRex* exp) {
         if (isgreedy) {
             int nnode = trex_newnode(exp, OP_GREEDY);
             exp->_nodes[nnode].left = ret;
-            exp->_nodes[nnode].right = ((p0) << 16) | p1;
+            exp->_nodes[nnode].right = (int)(((unsigned int)p0 << 16) | p1);
             ret = nnode;
         }
     }
-- 
2.43.0


From d715b2bb888e91732b942fa0e5ac1bc870fad261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:18 +0000
Subject: [PATCH 08/24] fix: let text follow the AM/PM indicator in a date
 format

%p compared the whole rest of the input with "AM" or "PM", so a format such as
"%I:%M %p %d" could never match.
---
 src/arg_date.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 1977479..5f0cf00 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -222,16 +222,6 @@ static const char* abmon[12] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul",
 
 static const char* am_pm[2] = {"AM", "PM"};
 
-static int arg_strcasecmp(const char* s1, const char* s2) {
-    const unsigned char* us1 = (const unsigned char*)s1;
-    const unsigned char* us2 = (const unsigned char*)s2;
-    while (tolower(*us1) == tolower(*us2++))
-        if (*us1++ == '\0')
-            return 0;
-
-    return tolower(*us1) - tolower(*--us2);
-}
-
 static int arg_strncasecmp(const char* s1, const char* s2, size_t n) {
     if (n != 0) {
         const unsigned char* us1 = (const unsigned char*)s1;
@@ -459,7 +449,7 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
             case 'p': /* The locale's equivalent of AM/PM. */
                 LEGAL_ALT(0);
                 /* AM? */
-                if (arg_strcasecmp(am_pm[0], bp) == 0) {
+                if (arg_strncasecmp(am_pm[0], bp, strlen(am_pm[0])) == 0) {
                     if (tm->tm_hour > 11)
                         return (0);
 
@@ -467,7 +457,7 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
                     break;
                 }
                 /* PM? */
-                else if (arg_strcasecmp(am_pm[1], bp) == 0) {
+                else if (arg_strncasecmp(am_pm[1], bp, strlen(am_pm[1])) == 0) {
                     if (tm->tm_hour > 11)
                         return (0);
 
-- 
2.43.0


From 12a3d7c3e97d7b0a8c4c574aaa293323cd56b22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:28 +0000
Subject: [PATCH 09/24] fix: count the years of a %C century from 1900 like
 every other year

"%C%y" stored 2024 in tm_year, which counts from 1900, instead of 124.
---
 src/arg_date.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 5f0cf00..950d652 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -392,9 +392,9 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
                     return (0);
 
                 if (split_year) {
-                    tm->tm_year = (tm->tm_year % 100) + (i * 100);
+                    tm->tm_year = (tm->tm_year % 100) + (i * 100 - TM_YEAR_BASE);
                 } else {
-                    tm->tm_year = i * 100;
+                    tm->tm_year = i * 100 - TM_YEAR_BASE;
                     split_year = 1;
                 }
                 break;
-- 
2.43.0


From a1cf435d275be629d8db4859e50c560ea4c705d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:37 +0000
Subject: [PATCH 10/24] fix: show a real example in the message for a malformed
 date

The example date was parsed with %F, which arg_strptime() does not know, so
the message showed an all-zero date such as "1900-01-00". The buffer was also
printed uninitialised when strftime() had nothing to put in it.
---
 src/arg_date.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 950d652..cfad013 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -103,8 +103,9 @@ static void arg_date_errorfn(struct arg_date* parent, arg_dstr_t ds, int errorco
 
             arg_dstr_catf(ds, "illegal timestamp format \"%s\"\n", argval);
             memset(&tm, 0, sizeof(tm));
-            arg_strptime("1999-12-31 23:59:59", "%F %H:%M:%S", &tm);
-            strftime(buff, sizeof(buff), parent->format, &tm);
+            arg_strptime("1999-12-31 23:59:59", "%Y-%m-%d %H:%M:%S", &tm);
+            if (strftime(buff, sizeof(buff), parent->format, &tm) == 0)
+                buff[0] = '\0';
             arg_dstr_catf(ds, "correct format is \"%s\"\n", buff);
             break;
         }
-- 
2.43.0


From 381acdff96eab13d625f468d254705fb8ce43428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:46 +0000
Subject: [PATCH 11/24] fix: an empty string is not a valid double

strtod() converts nothing and leaves the end pointer at the (terminated) start
of the string, which passed for success and stored 0.0.
---
 src/arg_dbl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_dbl.c b/src/arg_dbl.c
index 3a00860..f63945a 100644
--- a/src/arg_dbl.c
+++ b/src/arg_dbl.c
@@ -62,7 +62,7 @@ static int arg_dbl_scanfn(struct arg_dbl* parent, const char* argval) {
         val = strtod(argval, &end);
 
         /* if success then store result in parent->dval[] array otherwise return error*/
-        if (*end == 0)
+        if (end != argval && *end == 0)
             parent->dval[parent->count++] = val;
         else
             errorcode = ARG_ERR_BADDOUBLE;
-- 
2.43.0


From 25db9560d907a4a584ded44199ee05d9a823f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:55 +0000
Subject: [PATCH 12/24] fix: no second sign or white space after an integer's
 radix prefix

"0x-5" was accepted as -5, and "-0x-8000000000000000" overflowed a long.
---
 src/arg_int.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arg_int.c b/src/arg_int.c
index 9d760c9..b3bbe84 100644
--- a/src/arg_int.c
+++ b/src/arg_int.c
@@ -95,6 +95,12 @@ static long int strtol0X(const char* str, const char** endptr, char X, int base)
     }
     /* printf("4) %s\n",ptr); */
 
+    /* strtol() would skip white space and accept another sign here */
+    if (!isalnum((int)(*ptr))) {
+        *endptr = str;
+        return 0;
+    }
+
     /* attempt conversion on remainder of string using strtol() */
     val = strtol(ptr, (char**)endptr, base);
     if (*endptr == ptr) {
-- 
2.43.0


From eded7a1ffb4fce4e66a15936f8a1c73d84c5c058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:04 +0000
Subject: [PATCH 13/24] fix: copy a sub-command's strings before removing the
 one it replaces

Registering a sub-command again with the name or description held by its
current entry, as arg_cmd_info() returns it, read the strings after they had
been freed.
---
 src/arg_cmd.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/arg_cmd.c b/src/arg_cmd.c
index a58e871..13461ed 100644
--- a/src/arg_cmd.c
+++ b/src/arg_cmd.c
@@ -137,15 +137,6 @@ void arg_cmd_register(const char* name, arg_cmdfn* proc, const char* description
     assert(strlen(name) < ARG_CMD_NAME_LEN);
     assert(strlen(description) < ARG_CMD_DESCRIPTION_LEN);
 
-    /* Check if the command already exists. */
-    /* If the command exists, replace the existing command. */
-    /* If the command doesn't exist, insert the command. */
-    cmd_info = (arg_cmd_info_t*)arg_hashtable_search(s_hashtable, name);
-    if (cmd_info) {
-        arg_hashtable_remove(s_hashtable, name);
-        cmd_info = NULL;
-    }
-
     cmd_info = (arg_cmd_info_t*)xmalloc(sizeof(arg_cmd_info_t));
     memset(cmd_info, 0, sizeof(arg_cmd_info_t));
 
@@ -170,6 +161,12 @@ void arg_cmd_register(const char* name, arg_cmdfn* proc, const char* description
     memcpy((char*)k, name, slen_name);
 #endif
 
+    /* Check if the command already exists. */
+    /* If the command exists, replace the existing command. */
+    /* If the command doesn't exist, insert the command. */
+    if (arg_hashtable_search(s_hashtable, k))
+        arg_hashtable_remove(s_hashtable, k);
+
     arg_hashtable_insert(s_hashtable, k, cmd_info);
 }
 
-- 
2.43.0


From cec4d4c993be02da7296a458c0d27bfd78ea34c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:12 +0000
Subject: [PATCH 14/24] fix: allow a dynamic string to be set to a part of
 itself

The copy into the string's own buffer used strcpy(), which must not be given
overlapping memory.
---
 src/arg_dstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_dstr.c b/src/arg_dstr.c
index 0dbb2cd..a128e28 100644
--- a/src/arg_dstr.c
+++ b/src/arg_dstr.c
@@ -140,7 +140,7 @@ void arg_dstr_set(arg_dstr_t ds, char* str, arg_dstr_freefn* free_proc) {
             ds->data = ds->sbuf;
             ds->free_proc = ARG_DSTR_STATIC;
         }
-        strcpy(ds->data, str);
+        memmove(ds->data, str, (size_t)length + 1);
     } else {
         ds->data = str;
         ds->free_proc = free_proc;
-- 
2.43.0


From 540400ca018e2670bf06136e2cd9602ee35e8973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:21 +0000
Subject: [PATCH 15/24] fix: terminate a dynamic string after each append

The appended bytes were written without a terminating NUL, so a string that
its owner had shortened got its old tail back.
---
 src/arg_dstr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/arg_dstr.c b/src/arg_dstr.c
index a128e28..db51441 100644
--- a/src/arg_dstr.c
+++ b/src/arg_dstr.c
@@ -174,12 +174,15 @@ char* arg_dstr_cstr(arg_dstr_t ds) /* Interpreter whose result to return. */
 
 void arg_dstr_cat(arg_dstr_t ds, const char* str) {
     setup_append_buf(ds, (int)strlen(str) + 1);
-    memcpy(ds->data + strlen(ds->data), str, strlen(str));
+    memmove(ds->data + strlen(ds->data), str, strlen(str) + 1);
 }
 
 void arg_dstr_catc(arg_dstr_t ds, char c) {
+    size_t len;
     setup_append_buf(ds, 2);
-    memcpy(ds->data + strlen(ds->data), &c, 1);
+    len = strlen(ds->data);
+    ds->data[len] = c;
+    ds->data[len + 1] = '\0';
 }
 
 /*
-- 
2.43.0


From 4dd18209d48d53a7151196a922f10f9195b2e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:29 +0000
Subject: [PATCH 16/24] fix: align the pointer arrays of the error table

They were laid out after the array of int error codes, so an odd capacity
misaligned them.
---
 src/arg_end.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arg_end.c b/src/arg_end.c
index a7abfdd..0ea4849 100644
--- a/src/arg_end.c
+++ b/src/arg_end.c
@@ -99,15 +99,15 @@ struct arg_end* arg_end(int maxcount) {
     result->hdr.checkfn = NULL;
     result->hdr.errorfn = (arg_errorfn*)arg_end_errorfn;
 
-    /* store error[maxcount] array immediately after struct arg_end */
-    result->error = (int*)(result + 1);
-
-    /* store parent[maxcount] array immediately after error[] array */
-    result->parent = (void**)(result->error + maxcount);
+    /* store parent[maxcount] array immediately after struct arg_end */
+    result->parent = (void**)(result + 1);
 
     /* store argval[maxcount] array immediately after parent[] array */
     result->argval = (const char**)(result->parent + maxcount);
 
+    /* store error[maxcount] array last, so that it cannot misalign the arrays of pointers */
+    result->error = (int*)(result->argval + maxcount);
+
     ARG_TRACE(("arg_end(%d) returns %p\n", maxcount, result));
     return result;
 }
-- 
2.43.0


From 757db6eea51b3ec5eeaa49d2ef5bdaf9e931bffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 17/24] fix: indent and do not double the lines after a newline
 in formatted text

When the text after an embedded newline fitted on one line, that line was not
indented to the left margin, and when the newline was the last white space
before the right margin, or spaces before it were wrapped, an empty line was
printed. Let a line extend at most to the next newline, and skip the white
space and newline that end it.
---
 src/argtable3.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index ae1920b..1d1cda3 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -871,6 +871,7 @@ static void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const
     unsigned int line_start = 0;
     unsigned int line_end = textlen;
     const unsigned int colwidth = (rmargin - lmargin) + 1;
+    const char* newline;
 
     assert(strlen(text) < UINT_MAX);
 
@@ -887,6 +888,12 @@ static void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const
             line_start++;
         }
 
+        /* A line ends at the next newline at the latest */
+        newline = strchr(text + line_start, '\n');
+        if (newline) {
+            line_end = (unsigned int)(newline - text);
+        }
+
         /* Find last whitespace, that fits into line */
         if (line_end - line_start > colwidth) {
             line_end = line_start + colwidth;
@@ -900,8 +907,8 @@ static void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const
                 /* Set line_end to previous value */
                 line_end = line_start + colwidth;
             } else {
-                /* Consume trailing spaces, except newlines */
-                while ((line_end > line_start) && isspace((int)(*(text + line_end))) && *(text + line_start) != '\n') {
+                /* Consume trailing spaces */
+                while ((line_end > line_start) && isspace((int)(*(text + line_end)))) {
                     line_end--;
                 }
 
@@ -912,28 +919,27 @@ static void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const
 
         /* Output line of text */
         while (line_start < line_end) {
-            char c = *(text + line_start);
-
-            /* If character is newline stop printing, skip this character, as a newline will be printed below. */
-            if (c == '\n') {
-                line_start++;
-                break;
-            }
-
-            arg_dstr_catc(ds, c);
+            arg_dstr_catc(ds, *(text + line_start));
             line_start++;
         }
         arg_dstr_cat(ds, "\n");
 
+        /* Skip the white space, up to and including a newline, that ended this line */
+        while (isspace((int)(*(text + line_start))) && *(text + line_start) != '\n') {
+            line_start++;
+        }
+        if (*(text + line_start) == '\n') {
+            line_start++;
+        }
+
         /* Initialize another line */
-        if (line_end < textlen) {
+        line_end = textlen;
+        if (line_start < textlen) {
             unsigned i;
 
             for (i = 0; i < lmargin; i++) {
                 arg_dstr_cat(ds, " ");
             }
-
-            line_end = textlen;
         }
     } /* lines of text */
 }
-- 
2.43.0


From 84b95fc3e081776066f6b7238a76d157718b2fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:55 +0000
Subject: [PATCH 18/24] fix: stop repeating a regular expression item that
 matched nothing

Each further repetition matches nothing again, but was tried up to 65535
times, so nesting two such items, as in "((a?)*)*", kept the parser busy for
minutes.
---
 src/arg_rex.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index c544335..ff33fd9 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -769,10 +769,17 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
 
             while ((nmaches == 0xFFFF || nmaches < p1)) {
                 const TRexChar* stop;
+                const TRexChar* start = s;
                 if ((s = trex_matchnode(exp, &exp->_nodes[node->left], s, greedystop)) == NULL)
                     break;
                 nmaches++;
                 good = s;
+                if (s == start) {
+                    /* all further repetitions would match nothing, too */
+                    if (nmaches < p0)
+                        nmaches = p0;
+                    break;
+                }
                 if (greedystop) {
                     /* checks that 0 matches satisfy the expression(if so skips) */
                     /* if not would always stop(for instance if is a '?') */
-- 
2.43.0


From b9833f9251b82f4f2626194b3fdb9943a8a4c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:25 +0000
Subject: [PATCH 19/24] fix: no second radix prefix after an integer's radix
 prefix

strtol() accepts a prefix of its own in base 16, so "0x0x5" was taken for 5.
---
 src/arg_int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_int.c b/src/arg_int.c
index b3bbe84..4941199 100644
--- a/src/arg_int.c
+++ b/src/arg_int.c
@@ -95,8 +95,8 @@ static long int strtol0X(const char* str, const char** endptr, char X, int base)
     }
     /* printf("4) %s\n",ptr); */
 
-    /* strtol() would skip white space and accept another sign here */
-    if (!isalnum((int)(*ptr))) {
+    /* strtol() would skip white space and accept another sign or prefix here */
+    if (!isalnum((int)(*ptr)) || (*ptr == '0' && toupper(*(ptr + 1)) == toupper(X))) {
         *endptr = str;
         return 0;
     }
-- 
2.43.0


From 6c0c7104eba420e94e3da37cbf8d0da72bcf6496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:08 +0000
Subject: [PATCH 20/24] fix: an option letter with code 255 is not the end of
 the options

---
 src/arg_getopt_long.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_getopt_long.c b/src/arg_getopt_long.c
index f04d69a..581e6cc 100644
--- a/src/arg_getopt_long.c
+++ b/src/arg_getopt_long.c
@@ -549,7 +549,7 @@ start:
 		}
 	}
 
-	if ((optchar = (int)*place++) == (int)':' ||
+	if ((optchar = (unsigned char)*place++) == (int)':' ||
 	    (optchar == (int)'-' && *place != '\0') ||
 	    (oli = strchr(options, optchar)) == NULL) {
 		/*
-- 
2.43.0


From 0ad44e3dc216594b818b2014f3f4d56bb2240519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:49 +0000
Subject: [PATCH 21/24] fix: end the line of a GNU glossary entry with an empty
 description

An entry described by the empty string (such as arg_rem(NULL, "")) did not
end its line, so the next entry was printed on the same line.
---
 src/argtable3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index 1d1cda3..39adccf 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -875,8 +875,8 @@ static void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const
 
     assert(strlen(text) < UINT_MAX);
 
-    /* Someone doesn't like us... */
-    if (line_end < line_start) {
+    /* An empty text is an empty line */
+    if (line_end <= line_start) {
         arg_dstr_catf(ds, "%s\n", text);
     }
 
-- 
2.43.0


From b3a2ffcd346530cc32af4b98af2278a885cfd26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:50 +0000
Subject: [PATCH 22/24] build: compile the library as gnu89, so that one-line
 comments are accepted

---
 src/CMakeLists.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index 22bbc7f..b71aa02 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -37,7 +37,7 @@ if(CMAKE_C_COMPILER_ID MATCHES "MSVC")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} /wd4668")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} /wd4711")
 else(CMAKE_C_COMPILER_ID MATCHES "GNU|Clang")
-  set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=c89")
+  set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=gnu89")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wconversion")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wextra")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wall")
-- 
2.43.0


From f986444379cb452741fc8d66fd8070c2d2781034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:18 +0000
Subject: [PATCH 23/24] fix: a new end marker has no error records

arg_end() did not initialize the count of error records, so printing the
errors of a table before its first parse used whatever the memory held.
---
 src/arg_end.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arg_end.c b/src/arg_end.c
index 0ea4849..636e94c 100644
--- a/src/arg_end.c
+++ b/src/arg_end.c
@@ -108,6 +108,9 @@ struct arg_end* arg_end(int maxcount) {
     /* store error[maxcount] array last, so that it cannot misalign the arrays of pointers */
     result->error = (int*)(result->argval + maxcount);
 
+    /* no errors before the first parse */
+    result->count = 0;
+
     ARG_TRACE(("arg_end(%d) returns %p\n", maxcount, result));
     return result;
 }
-- 
2.43.0


From 6dd0cc34d51a641ff6af0e6ddf0213c302ceb590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:32 +0000
Subject: [PATCH 24/24] fix: a character range ignores case by the character,
 not by its bounds

---
 src/arg_rex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index ff33fd9..b80a8dc 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -726,9 +726,9 @@ static TRexBool trex_matchclass(TRex* exp, TRexNode* node, TRexChar c) {
         switch (node->type) {
             case OP_RANGE:
                 if (exp->_flags & TREX_ICASE) {
-                    if (c >= toupper(node->left) && c <= toupper(node->right))
+                    if (toupper(c) >= node->left && toupper(c) <= node->right)
                         return TRex_True;
-                    if (c >= tolower(node->left) && c <= tolower(node->right))
+                    if (tolower(c) >= node->left && tolower(c) <= node->right)
                         return TRex_True;
                 } else {
                     if (c >= node->left && c <= node->right)
-- 
2.43.0

