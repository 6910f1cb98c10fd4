From 8b7f62326becad800a2b9514c6b0a3a047b976cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:18 +0000
Subject: [PATCH 01/67] fix: html_parser: do not lose an unterminated comment

The rest of a document with an unterminated comment was reported in no
event at all, so http_rewrite silently truncated the response.
---
 src/html_parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index 95db7c7..6fedc78 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -236,7 +236,6 @@ void mp::HTMLParser::Rep::parse_str(HTMLParserEvent &event, const char *cp)
                     if (cp[i] == '-' && cp[i+1] == '-' && cp[i+2] == '>')
                     {
                         i+= 2;
-                        event.openTagStart(cp, i);
                         break;
                     }
             }
@@ -244,8 +243,8 @@ void mp::HTMLParser::Rep::parse_str(HTMLParserEvent &event, const char *cp)
             {
                 for (i = 1; cp[i] && cp[i] != '>'; i++)
                     ;
-                event.openTagStart(cp, i);
             }
+            event.openTagStart(cp, i);
             if (m_verbose)
                 printf("------ dtd %.*s\n", i, cp);
             i += tagEnd(event, cp, i, cp + i);
-- 
2.43.0


From e2b82bf489250129725b52333a7f5287c39f254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:18 +0000
Subject: [PATCH 02/67] fix: html_parser: report a slash that does not end a
 tag

A '/' inside a tag which is not followed by '>' (<a/b>, <a /b='c'>) was
dropped from the event stream.
---
 src/html_parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index 6fedc78..861e4f0 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -192,7 +192,14 @@ int mp::HTMLParser::Rep::tagEnd(HTMLParserEvent &event,
     }
     if (cp[i] == '/')
     {
-        close_it = 1;
+        if (cp[i+1] == '>')
+            close_it = 1;
+        else
+        {
+            if (m_verbose)
+                printf("------ text /\n");
+            event.text(cp + i, 1);
+        }
         i++;
     }
     if (cp[i] == '>')
-- 
2.43.0


From 71ae3ce891ad1b8930cd0eb03381f5c6bb2ef98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:18 +0000
Subject: [PATCH 03/67] fix: html_parser: no quote character for attribute
 without value

tr was passed to the event handler uninitialised for attributes that
have no value.
---
 src/html_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index 861e4f0..d62c5f7 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -156,7 +156,7 @@ int mp::HTMLParser::Rep::tagAttrs(HTMLParserEvent &event,
         int attr_len;
         const char *value;
         int val_len;
-        int tr;
+        int tr = 0;
         char x[2];
         int nor = skipAttribute(event, cp+i, &attr_len, &value, &val_len, &tr);
         if (!nor)
-- 
2.43.0


From 764fea3a95e56671857f80486773546fff76bace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:49 +0000
Subject: [PATCH 04/67] fix: url_recipe: strip prefix md- only

find_first_of matches any variable that starts with m, d or -, so that
${medium} or ${d} lost its first three characters (reading beyond the
end of names shorter than that).
---
 src/url_recipe.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/url_recipe.cpp b/src/url_recipe.cpp
index 3386d8f..9db10cf 100644
--- a/src/url_recipe.cpp
+++ b/src/url_recipe.cpp
@@ -110,8 +110,7 @@ std::string mp_xml::url_recipe_handle(xmlDoc *doc, std::string recipe)
         {
             std::string text;
             size_t offset = 0;
-            size_t md_pos = variable.find_first_of("md-");
-            if (md_pos == 0)
+            if (variable.compare(0, 3, "md-") == 0)
                 offset = 3;
             const xmlNode *ptr = ptr1;
             for (; ptr; ptr = ptr->next)
-- 
2.43.0


From 0d60ab0ff8b303ac352cc7b885a134cb1737ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:43 +0000
Subject: [PATCH 05/67] fix: router_flexml: refuse unknown elements among
 routes

An unknown element inside <routes> silently ended the list of routes: all
routes following it were dropped.
---
 src/router_flexml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/router_flexml.cpp b/src/router_flexml.cpp
index dad380d..c76e686 100644
--- a/src/router_flexml.cpp
+++ b/src/router_flexml.cpp
@@ -225,7 +225,7 @@ void mp::RouterFleXML::Rep::parse_xml_routes(xmlDocPtr doc,
     mp::xml::check_element_mp(node, "route");
 
     unsigned int route_nr = 0;
-    while (mp::xml::is_element_mp(node, "route"))
+    while (node && mp::xml::check_element_mp(node, "route"))
     {
         route_nr++;
 
-- 
2.43.0


From 9c6e2e70d2799353ae39b24ce71f7b21ed0d6355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:43 +0000
Subject: [PATCH 06/67] fix: router_flexml: keep position valid after unknown
 route

A move to an unknown route left the position pointing at the end of the
route map; the next move dereferenced it.
---
 src/router_flexml.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/router_flexml.cpp b/src/router_flexml.cpp
index c76e686..7e04f5b 100644
--- a/src/router_flexml.cpp
+++ b/src/router_flexml.cpp
@@ -454,12 +454,14 @@ const mp::filter::Base *mp::RouterFleXML::Pos::move(const char *route)
 {
     if (route && *route)
     {
-        m_route_it = m_p->m_routes.find(route);
-        if (m_route_it == m_p->m_routes.end())
+        std::map<std::string,RouterFleXML::Route>::iterator it
+            = m_p->m_routes.find(route);
+        if (it == m_p->m_routes.end())
         {
             yaz_log(YLOG_FATAL, "no such route %s", route);
             return 0;
         }
+        m_route_it = it;
         m_filter_it = m_route_it->second.m_list.begin();
     }
     if (m_filter_it == m_route_it->second.m_list.end())
-- 
2.43.0


From 8e18c8fa86091f64dbad29761c81b724ddd7af95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:53 +0000
Subject: [PATCH 07/67] fix: session_map: lock the map in exist

exist searched the map without the lock that create and release take, so
that it could follow nodes being inserted or already freed.
---
 include/metaproxy/session.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/metaproxy/session.hpp b/include/metaproxy/session.hpp
index 93951eb..a713321 100644
--- a/include/metaproxy/session.hpp
+++ b/include/metaproxy/session.hpp
@@ -108,6 +108,7 @@ namespace metaproxy_1 {
         };
 #endif
         bool exist(const metaproxy_1::Session &s) {
+            boost::mutex::scoped_lock lock(m_map_mutex);
             typename std::map<metaproxy_1::Session,SessionItem>::const_iterator it;
             it = m_map.find(s);
             return it == m_map.end() ? false : true;
-- 
2.43.0


From 95f6bf20648641c57c3073535a5f5edbdc4b72fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:25 +0000
Subject: [PATCH 08/67] fix: util: do not cut HTTP content at a NUL byte

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index de57265..42fa934 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -122,8 +122,8 @@ void mp_util::http_response(metaproxy_1::Package &package,
     zgdu_res->u.HTTP_Response->content_buf
         = (char*) odr_malloc(odr, zgdu_res->u.HTTP_Response->content_len);
 
-    strncpy(zgdu_res->u.HTTP_Response->content_buf,
-            content.c_str(),  zgdu_res->u.HTTP_Response->content_len);
+    memcpy(zgdu_res->u.HTTP_Response->content_buf,
+           content.c_str(),  zgdu_res->u.HTTP_Response->content_len);
 
     //z_HTTP_header_add(odr, &hres->headers,
     //                  "Content-Type", content_type.c_str());
-- 
2.43.0


From 10c4db66dae34e3202f18f64df8fa662c25b1a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:54 +0000
Subject: [PATCH 09/67] fix: present_chunk: cope with short, long and empty
 responses, keep reference id

---
 src/filter_present_chunk.cpp | 42 +++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/filter_present_chunk.cpp b/src/filter_present_chunk.cpp
index b67290c..7416c44 100644
--- a/src/filter_present_chunk.cpp
+++ b/src/filter_present_chunk.cpp
@@ -19,6 +19,8 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include "config.hpp"
 #include "filter_present_chunk.hpp"
 
+#include <vector>
+
 #include <time.h>
 #include <yaz/log.h>
 #include <yaz/copy_types.h>
@@ -98,11 +100,9 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
     Odr_int total = *pr->numberOfRecordsRequested;
     Odr_int start = *pr->resultSetStartPoint;
     Odr_int offset = 0;
-    Z_NamePlusRecordList *npl = (Z_NamePlusRecordList *)
-        odr_malloc(odr, sizeof(*npl));
-    npl->num_records = total;
-    npl->records = (Z_NamePlusRecord **)
-        odr_malloc(odr, sizeof(*npl->records) * total);
+    Odr_int next_position = 0;
+    Odr_int status = Z_PresentStatus_success;
+    std::vector<Z_NamePlusRecord *> records;
     while (offset < total)
     {
         Odr_int left = total - offset;
@@ -136,13 +136,21 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
                 Z_NamePlusRecordList *nprl =
                     pres->records->u.databaseOrSurDiagnostics;
                 int i;
-                for (i = 0; i < nprl->num_records; i++)
+                // the backend may return more than we asked for
+                for (i = 0; i < nprl->num_records && i < left; i++)
                 {
                     ODR o = odr;
-                    npl->records[offset+i] = yaz_clone_z_NamePlusRecord(
-                        nprl->records[i], o->mem);
+                    records.push_back(yaz_clone_z_NamePlusRecord(
+                                          nprl->records[i], o->mem));
                 }
-                offset += nprl->num_records;
+                offset += i;
+                if (i == nprl->num_records)
+                    next_position = *pres->nextResultSetPosition;
+                else
+                    next_position = start + offset;
+                status = *pres->presentStatus;
+                if (i == 0) // no progress
+                    break;
             }
             else
             {
@@ -159,14 +167,23 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
 
     yaz_log(YLOG_LOG, "building response . %lld", offset);
 
-    Z_APDU *a = zget_APDU(odr, Z_APDU_presentResponse);
+    Z_NamePlusRecordList *npl = (Z_NamePlusRecordList *)
+        odr_malloc(odr, sizeof(*npl));
+    npl->num_records = records.size();
+    npl->records = (Z_NamePlusRecord **)
+        odr_malloc(odr, sizeof(*npl->records) * (records.size() + 1));
+    for (size_t i = 0; i < records.size(); i++)
+        npl->records[i] = records[i];
+
+    Z_APDU *a = odr.create_presentResponse(apdu, 0, 0);
     Z_PresentResponse *pres = a->u.presentResponse;
     pres->records = (Z_Records *)
         odr_malloc(odr, sizeof(Z_Records));
     pres->records->which = Z_Records_DBOSD;
     pres->records->u.databaseOrSurDiagnostics = npl;
-    npl->num_records = offset;
     *pres->numberOfRecordsReturned = offset;
+    *pres->nextResultSetPosition = next_position;
+    *pres->presentStatus = status;
 
     package.response() = a;
 }
@@ -177,7 +194,8 @@ void yf::PresentChunk::Impl::process(mp::Package &package)
     if (gdu && gdu->which == Z_GDU_Z3950)
     {
         Z_APDU *apdu = gdu->u.z3950;
-        if (apdu->which == Z_APDU_presentRequest && chunk_number > 0)
+        if (apdu->which == Z_APDU_presentRequest && chunk_number > 0 &&
+            *apdu->u.presentRequest->numberOfRecordsRequested > 0)
             chunk_it(package, apdu);
         else
             package.move();
-- 
2.43.0


From 6155a701983a9fe9ee64e461588180630f1dc6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:42 +0000
Subject: [PATCH 10/67] fix: http_file serves files beside its document root

With prefix /doc and document root /www the URL /document refers to
/wwwument. Only serve what is below the root. Also do not allocate a
negative number of bytes if the size of a file is not known.
---
 src/filter_http_file.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/filter_http_file.cpp b/src/filter_http_file.cpp
index 500cdc1..71e595d 100644
--- a/src/filter_http_file.cpp
+++ b/src/filter_http_file.cpp
@@ -184,7 +184,7 @@ void yf::HttpFile::Rep::fetch_file(mp::Session &session,
         return;
     }
     long sz = ftell(f);
-    if (sz > 1000000L)
+    if (sz < 0 || sz > 1000000L)
     {
         fclose(f);
         Z_GDU *gdu = o.create_HTTP_Response(session, req, 404);
@@ -260,7 +260,13 @@ void yf::HttpFile::Rep::fetch_uri(mp::Session &session,
 
             if (path.compare(0, l, it->m_url_path_prefix) == 0)
             {
-                std::string fname = it->m_file_root + path.substr(l);
+                const std::string &root = it->m_file_root;
+                // stay below the root: with root /www and prefix /doc,
+                // URL /document must not refer to /wwwument
+                if (path.length() > l && path[l] != '/'
+                    && root[root.length() - 1] != '/')
+                    continue;
+                std::string fname = root + path.substr(l);
                 package.log("http_file", YLOG_LOG, "%s", fname.c_str());
                 fetch_file(session, req, fname, package, it->m_raw,
                     it->m_passthru);
-- 
2.43.0


From a8cf9c9ef6105fd646606f48ef23e02c5e505258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:49 +0000
Subject: [PATCH 11/67] fix: auth_simple hangs on register lines of 999
 characters or more

---
 src/filter_auth_simple.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 2948e33..0dd0e5f 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -164,6 +164,8 @@ void mp::filter::AuthSimple::config_userRegister(std::string filename,
     {
         char buf[1000];
         fp.getline(buf, sizeof buf);
+        if (fp.fail() && !fp.eof())
+            die("auth_simple user-register '" + filename + "': line too long");
         if (*buf == '\0' || *buf == '#')
             continue;
         char *passwdp = strchr(buf, ':');
@@ -207,6 +209,8 @@ void mp::filter::AuthSimple::config_targetRegister(std::string filename,
     while (!fp.eof()) {
         char buf[1000];
         fp.getline(buf, sizeof buf);
+        if (fp.fail() && !fp.eof())
+            die("auth_simple target-register '" + filename + "': line too long");
         if (*buf == '\0' || *buf == '#')
             continue;
         char *targetsp = strchr(buf, ':');
-- 
2.43.0


From eee9d88dbe9117c42cb371b0aa2bc863457f7a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:49 +0000
Subject: [PATCH 12/67] fix: auth_simple ignores target register if there is a
 user register too

---
 src/filter_auth_simple.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 0dd0e5f..bd39374 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -293,6 +293,8 @@ void yf::AuthSimple::process_init(mp::Package &package) const
                 boost::mutex::scoped_lock lock(m_p->mutex);
                 m_p->userBySession[package.session()] = user;
             }
+            if (m_p->got_targetRegister)
+                return check_targets(package);
             return package.move();
         }
     }
-- 
2.43.0


From e15ebc7a7fd290a538b338806ab3efa389bf8f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:49 +0000
Subject: [PATCH 13/67] fix: auth_simple reads its session map without lock and
 never shrinks it

---
 src/filter_auth_simple.cpp | 39 +++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index bd39374..5c3d079 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -237,6 +237,11 @@ void yf::AuthSimple::process(mp::Package &package) const
 {
     Z_GDU *gdu = package.request().get();
 
+    if (package.session().is_closed()) {
+        boost::mutex::scoped_lock lock(m_p->mutex);
+        m_p->userBySession.erase(package.session());
+    }
+
     if (!gdu || gdu->which != Z_GDU_Z3950) {
         // Pass on the package -- This means that authentication is
         // waived, which may not be the correct thing for non-Z APDUs
@@ -320,12 +325,22 @@ void yf::AuthSimple::process_search(mp::Package &package) const
     Z_SearchRequest *req =
         package.request().get()->u.z3950->u.searchRequest;
 
-    if (m_p->userBySession.count(package.session()) == 0) {
+    std::string user;
+    bool authenticated = false;
+    {
+        boost::mutex::scoped_lock lock(m_p->mutex);
+        std::map<mp::Session, std::string>::const_iterator it =
+            m_p->userBySession.find(package.session());
+        if (it != m_p->userBySession.end()) {
+            authenticated = true;
+            user = it->second;
+        }
+    }
+    if (!authenticated) {
         // It's a non-authenticated session, so just accept the operation
         return package.move();
     }
 
-    std::string user = m_p->userBySession[package.session()];
     yf::AuthSimple::Rep::PasswordAndDBs pdb = m_p->userRegister[user];
     for (int i = 0; i < req->num_databaseNames; i++) {
         if (!contains(pdb.dbs, req->databaseNames[i]) &&
@@ -352,12 +367,22 @@ void yf::AuthSimple::process_scan(mp::Package &package) const
     Z_ScanRequest *req =
         package.request().get()->u.z3950->u.scanRequest;
 
-    if (m_p->userBySession.count(package.session()) == 0) {
+    std::string user;
+    bool authenticated = false;
+    {
+        boost::mutex::scoped_lock lock(m_p->mutex);
+        std::map<mp::Session, std::string>::const_iterator it =
+            m_p->userBySession.find(package.session());
+        if (it != m_p->userBySession.end()) {
+            authenticated = true;
+            user = it->second;
+        }
+    }
+    if (!authenticated) {
         // It's a non-authenticated session, so just accept the operation
         return package.move();
     }
 
-    std::string user = m_p->userBySession[package.session()];
     yf::AuthSimple::Rep::PasswordAndDBs pdb = m_p->userRegister[user];
     for (int i = 0; i < req->num_databaseNames; i++) {
         if (!contains(pdb.dbs, req->databaseNames[i]) &&
@@ -397,7 +422,11 @@ void yf::AuthSimple::check_targets(mp::Package & package) const
 
     std::string password;
     std::string user = get_user(initReq, password);
-    std::list<std::string> authorisedTargets = m_p->targetsByUser[user];
+    std::list<std::string> authorisedTargets;
+    std::map<std::string, std::list<std::string> >::const_iterator t =
+        m_p->targetsByUser.find(user);
+    if (t != m_p->targetsByUser.end())
+        authorisedTargets = t->second;
 
     std::list<std::string> targets;
     Z_OtherInformation **otherInfo = &initReq->otherInfo;
-- 
2.43.0


From 6cb4bc625c879b5fcc26363e82bc066bf813265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:49 +0000
Subject: [PATCH 14/67] fix: plain files with lines of 255 characters or more
 are never read to the end

---
 src/plainfile.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/plainfile.cpp b/src/plainfile.cpp
index 5b560c8..18e9ed4 100644
--- a/src/plainfile.cpp
+++ b/src/plainfile.cpp
@@ -25,8 +25,6 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 
 #include <metaproxy/util.hpp>
 
-#define PLAINFILE_MAX_LINE 256
-
 namespace mp = metaproxy_1;
 
 namespace metaproxy_1 {
@@ -81,7 +79,7 @@ bool mp::PlainFile::getline(std::vector<std::string> &args)
     if (!m_p->fh)
         return false;  // no file at all.
 
-    char line_cstr[PLAINFILE_MAX_LINE];
+    std::string line;
     while (true)
     {
         if (m_p->fh->eof())
@@ -91,13 +89,19 @@ bool mp::PlainFile::getline(std::vector<std::string> &args)
         }
 
         m_p->lineno++;
-        m_p->fh->getline(line_cstr, PLAINFILE_MAX_LINE-1);
-        char first = line_cstr[0];
+        line.clear();
+        std::getline(*m_p->fh, line);
+        if (m_p->fh->fail() && !m_p->fh->eof())
+        {
+            m_p->close();  // can not be read
+            return false;
+        }
+        char first = line.c_str()[0];
         if (first && !strchr("# \t", first))
             break;
         // comment or blank line.. read next.
     }
-    const char *cp = line_cstr;
+    const char *cp = line.c_str();
     while (true)
     {
         // skip whitespace
-- 
2.43.0


From f63b91987962e9d99859bfd80f52258d8d1355ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:16 +0000
Subject: [PATCH 15/67] fix: load_balance forgets all sessions of a target when
 one of them ends

---
 src/filter_load_balance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_load_balance.cpp b/src/filter_load_balance.cpp
index 05bc3d4..82c2e50 100644
--- a/src/filter_load_balance.cpp
+++ b/src/filter_load_balance.cpp
@@ -398,7 +398,7 @@ void yf::LoadBalance::Impl::remove_session(mp::Package &package)
     if (itarg->second.sessions > 0)
         itarg->second.sessions -= 1;
 
-    if (itarg->second.sessions == 0 || itarg->second.deads == 0)
+    if (itarg->second.sessions == 0)
         m_target_stat.erase(itarg);
 }
 
-- 
2.43.0


From ec6f8e836059df505cf9dcaef351e6f22b8c8982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:16 +0000
Subject: [PATCH 16/67] fix: load_balance counts a session twice on repeated
 Init

---
 src/filter_load_balance.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_load_balance.cpp b/src/filter_load_balance.cpp
index 82c2e50..3fd2952 100644
--- a/src/filter_load_balance.cpp
+++ b/src/filter_load_balance.cpp
@@ -338,6 +338,9 @@ void yf::LoadBalance::Impl::remove_package(unsigned long session_id)
 void yf::LoadBalance::Impl::add_session(mp::Package &package,
                                         std::string target)
 {
+    // a session counts for one target only (case of repeated Init)
+    remove_session(package);
+
     // finding and adding session
     unsigned long session_id = package.session().id();
     std::map<unsigned long, std::string>::iterator isess;
-- 
2.43.0


From c2165e6033074969a696ab10b7e8940d5b79b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:16 +0000
Subject: [PATCH 17/67] fix: load_balance counts requests without response as
 open for ever

---
 src/filter_load_balance.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/filter_load_balance.cpp b/src/filter_load_balance.cpp
index 3fd2952..ef2ce7d 100644
--- a/src/filter_load_balance.cpp
+++ b/src/filter_load_balance.cpp
@@ -123,6 +123,7 @@ void yf::LoadBalance::Impl::configure(const xmlNode *xmlnode)
 void yf::LoadBalance::Impl::process(mp::Package &package)
 {
     bool is_closed_front = false;
+    bool is_counted = false;
 
     // checking for closed front end packages
     if (package.session().is_closed())
@@ -229,12 +230,14 @@ void yf::LoadBalance::Impl::process(mp::Package &package)
             is_closed_front = true;
             boost::mutex::scoped_lock scoped_lock(m_mutex);
             add_package(package.session().id());
+            is_counted = true;
         }
         // any other Z39.50 package is added to statistics
         else
         {
             boost::mutex::scoped_lock scoped_lock(m_mutex);
             add_package(package.session().id());
+            is_counted = true;
         }
     }
 
@@ -254,17 +257,14 @@ void yf::LoadBalance::Impl::process(mp::Package &package)
     {
         // session closing only on Z39.50 close response
         if (gdu_res->u.z3950->which == Z_APDU_close)
-        {
             is_closed_back = true;
-            boost::mutex::scoped_lock scoped_lock(m_mutex);
-            remove_package(package.session().id());
-        }
-        // any other Z39.50 package is removed from statistics
-        else
-        {
-            boost::mutex::scoped_lock scoped_lock(m_mutex);
-            remove_package(package.session().id());
-        }
+    }
+
+    // the package is no longer open, whatever became of it
+    if (is_counted)
+    {
+        boost::mutex::scoped_lock scoped_lock(m_mutex);
+        remove_package(package.session().id());
     }
 
     // finally removing sessions and marking deads
-- 
2.43.0


From 8299fff25195b5cc404e3db32191d5b98b0e642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:13 +0000
Subject: [PATCH 18/67] fix: virt_db: do not search a set on the backend that
 holds another one

---
 src/filter_virt_db.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter_virt_db.cpp b/src/filter_virt_db.cpp
index de7f09a..2d07cb7 100644
--- a/src/filter_virt_db.cpp
+++ b/src/filter_virt_db.cpp
@@ -293,7 +293,7 @@ void yf::VirtualDB::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
         override_set = true;
     }
     // pick up any existing database with named result sets ..
-    // or one if we are overriding it
+    // or the one that holds the set, if we are overriding it
     BackendPtr b; // null for now
     std::list<BackendPtr>::const_iterator map_it;
     map_it = m_backend_list.begin();
@@ -301,7 +301,8 @@ void yf::VirtualDB::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
     {
         BackendPtr tmp = *map_it;
         if (mp::util::match(tmp->m_frontend_databases, databases) &&
-            (tmp->m_named_result_sets || override_set))
+            (tmp->m_named_result_sets ||
+             (override_set && tmp == sets_it->second.m_backend)))
         {
             b = *map_it;
             break;
-- 
2.43.0


From 6e2c18163d5fcc5ef8b57237b4f1b0ad6c00297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:57 +0000
Subject: [PATCH 19/67] fix: multi: order of merged records when the counts of
 targets differ

The round robin optimisation skipped no_left * min records of each
class of targets, rather than what is left of the class above the
previous one: records of targets with different counts were returned
twice or never. Positions are computed with Odr_int, as the sum of the
counts of the targets may well exceed INT_MAX.
---
 src/filter_multi.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 5c581e5..1889c24 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -279,14 +279,14 @@ void yf::Multi::FrontendSet::serve_order(int start, int number,
     for (i = 0; i < number; i++)
     {
         std::list<BackendSet>::const_iterator bsit;
-        int voffset = 0;
+        Odr_int voffset = 0;
         int offset = start + i - 1;
         for (bsit = m_backend_sets.begin(); bsit != m_backend_sets.end();
              bsit++)
         {
             if (offset >= voffset && offset < voffset + bsit->m_count)
             {
-                PresentJob job(bsit->m_backend, offset - voffset + 1);
+                PresentJob job(bsit->m_backend, (int) (offset - voffset + 1));
                 jobs.push_back(job);
                 break;
             }
@@ -325,7 +325,7 @@ void yf::Multi::FrontendSet::round_robin(int start, int number,
         }
         if (no_left == 0) // if nothing greater than omin, bail out.
             break;
-        int skip = no_left * min;
+        Odr_int skip = (Odr_int) no_left * (min - omin);
         if (p + skip > start)  // step gets us "into" present range?
         {
             // Yes. skip until start.. Rounding off is deliberate!
@@ -343,7 +343,7 @@ void yf::Multi::FrontendSet::round_robin(int start, int number,
 
         std::list<int>::iterator psit = pos.begin();
         for (psit = pos.begin(); psit != pos.end(); psit++)
-            *psit += min;
+            *psit += min - omin;
 
         omin = min; // update so we consider next class (with higher count)
     }
-- 
2.43.0


From 7605305b116cbc4a1f901350aaefff5976b835c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:57 +0000
Subject: [PATCH 20/67] fix: multi: target that does not answer with a Present
 response

The response of each target was used as a Present response whatever
it was, and even if there was none.
---
 src/filter_multi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 1889c24..2f034f2 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -919,9 +919,11 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
             PackagePtr p = jit->m_backend->m_package;
 
             Z_GDU *gdu = p->response().get();
-            Z_APDU *b_apdu = gdu->u.z3950;
             int inside_pos = jit->m_pos - jit->m_start;
-            Z_Records *records = b_apdu->u.presentResponse->records;
+            Z_Records *records = 0;
+            if (gdu && gdu->which == Z_GDU_Z3950 && gdu->u.z3950->which ==
+                Z_APDU_presentResponse)
+                records = gdu->u.z3950->u.presentResponse->records;
 
             if (records && records->which == Z_Records_DBOSD
                 && inside_pos < 
-- 
2.43.0


From 8d6812c643afb03b239c308d7b3b73b002499724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:57 +0000
Subject: [PATCH 21/67] fix: multi: response of an earlier request taken for
 that of a silent target

The package for each target is used again for each request. If a target
does not respond to a request, the response to the previous one must
not be taken as the answer.
---
 src/filter_multi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 2f034f2..998798a 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -267,6 +267,7 @@ void yf::Multi::Frontend::multi_move(std::list<BackendPtr> &blist)
     boost::thread_group g;
     for (bit = blist.begin(); bit != blist.end(); bit++)
     {
+        (*bit)->m_package->response() = (Z_GDU *) 0;
         g.add_thread(new boost::thread(**bit));
     }
     g.join_all();
-- 
2.43.0


From fb5df50dcec549e1349139bb91af2ad7ac6a7997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:57 +0000
Subject: [PATCH 22/67] fix: multi: scan with unusual number of terms or
 position

The preferred position is optional. The number of terms requested may be
negative or huge, and position may exceed it (in which case entries
were written outside the list).
---
 src/filter_multi.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 998798a..c053647 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -1186,18 +1186,29 @@ void yf::Multi::Frontend::scan(mp::Package &package, Z_APDU *apdu_req)
         Z_APDU *f_apdu = odr.create_scanResponse(apdu_req, 0, 0);
         Z_ScanResponse *resp = f_apdu->u.scanResponse;
 
-        int number_returned = *req->numberOfTermsRequested;
-        int position_returned = *req->preferredPositionInResponse;
+        Odr_int number_returned = *req->numberOfTermsRequested;
+        Odr_int position_returned = 1;
+        if (req->preferredPositionInResponse)
+            position_returned = *req->preferredPositionInResponse;
+
+        int lbefore = entries_before.size();
+        int lafter = entries_after.size();
+        // no more than what we have got .. and at least nothing
+        if (number_returned > lbefore + lafter)
+            number_returned = lbefore + lafter;
+        if (number_returned < 0)
+            number_returned = 0;
+
+        if (lbefore < position_returned-1)
+            position_returned = lbefore+1;
+        if (number_returned < position_returned-1)
+            position_returned = number_returned+1;
 
         resp->entries->num_entries = number_returned;
         resp->entries->entries = (Z_Entry**)
             odr_malloc(odr, sizeof(Z_Entry*) * number_returned);
         int i;
 
-        int lbefore = entries_before.size();
-        if (lbefore < position_returned-1)
-            position_returned = lbefore+1;
-
         ScanTermInfoList::iterator it = entries_before.begin();
         for (i = 0; i<position_returned-1 && it != entries_before.end(); i++, it++)
         {
-- 
2.43.0


From 64c392cef7c6af8a2022090889091f91c54f5c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:57 +0000
Subject: [PATCH 23/67] fix: frontend_net: connection that is never given up

If a session was closed by a filter, or by the client, while other
requests of it were outstanding and the last of these finished later,
the connection and its statistics stayed for ever. Remember that
the session is to be closed.
---
 src/filter_frontend_net.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/filter_frontend_net.cpp b/src/filter_frontend_net.cpp
index 96922ec..4f224f7 100644
--- a/src/filter_frontend_net.cpp
+++ b/src/filter_frontend_net.cpp
@@ -126,6 +126,7 @@ namespace metaproxy_1 {
                         yazpp_1::LimitConnect &limit,
                         const char *peername);
             int m_no_requests;
+            bool m_delete_flag; // to be closed when all requests are done
             Port *m_port;
         private:
             yazpp_1::IPDU_Observer* sessionNotify(
@@ -140,7 +141,6 @@ namespace metaproxy_1 {
             mp::ThreadPoolSocketObserver *m_thread_pool_observer;
             mp::Session m_session;
             mp::Origin m_origin;
-            bool m_delete_flag;
             const mp::Package *m_package;
             Rep *m_p;
             yazpp_1::LimitConnect &m_limit_http_req;
@@ -288,7 +288,10 @@ void yf::FrontendNet::ThreadPoolPackage::result(const char *t_info)
         m_package->session().close();
     }
 
-    if (m_assoc_child->m_no_requests == 0 && m_package->session().is_closed())
+    if (m_package->session().is_closed())
+        m_assoc_child->m_delete_flag = true;
+
+    if (m_assoc_child->m_no_requests == 0 && m_assoc_child->m_delete_flag)
     {
         m_assoc_child->close();
     }
-- 
2.43.0


From 4a2468b96e6034ae482803ba0c953623e22b0795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:17 +0000
Subject: [PATCH 24/67] fix: frontend_net: request received after timeout of
 session

The session is being closed. It must not be closed once more, by a
package that holds the new request.
---
 src/filter_frontend_net.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_frontend_net.cpp b/src/filter_frontend_net.cpp
index 4f224f7..896bedc 100644
--- a/src/filter_frontend_net.cpp
+++ b/src/filter_frontend_net.cpp
@@ -436,6 +436,9 @@ void yf::FrontendNet::ZAssocChild::report(Z_HTTP_Request *hreq)
 
 void yf::FrontendNet::ZAssocChild::recv_GDU(Z_GDU *z_pdu, int len)
 {
+    if (m_session.is_closed())
+        return; // session is being closed (timeout)
+
     m_no_requests++;
 
     mp::Package *p = new mp::Package(m_session, m_origin);
-- 
2.43.0


From f101605c7bed942e396dbd028116d7390d81c3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:24 +0000
Subject: [PATCH 25/67] fix: frontend_net: report or refused request while
 other requests are outstanding

The connection was deleted at once although requests of it were still
with the worker threads, which used it later. Furthermore filters
were never told that the session was over.
---
 src/filter_frontend_net.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/filter_frontend_net.cpp b/src/filter_frontend_net.cpp
index 896bedc..1072316 100644
--- a/src/filter_frontend_net.cpp
+++ b/src/filter_frontend_net.cpp
@@ -134,6 +134,7 @@ namespace metaproxy_1 {
                 int fd);
             void recv_GDU(Z_GDU *apdu, int len);
             void report(Z_HTTP_Request *hreq);
+            void finish(mp::Package *p);
             void failNotify();
             void timeoutNotify();
             void connectNotify();
@@ -366,7 +367,8 @@ void yf::FrontendNet::ZAssocChild::report(Z_HTTP_Request *hreq)
 {
     mp::odr o;
 
-    Z_GDU *gdu_res = o.create_HTTP_Response(m_session, hreq, 200);
+    mp::Session session(m_session); // m_session closed elsewhere
+    Z_GDU *gdu_res = o.create_HTTP_Response(session, hreq, 200);
 
     Z_HTTP_Response *hres = gdu_res->u.HTTP_Response;
 
@@ -434,6 +436,16 @@ void yf::FrontendNet::ZAssocChild::report(Z_HTTP_Request *hreq)
     send_GDU(gdu_res, &len);
 }
 
+// request was dealt with here: close connection when no other is outstanding
+void yf::FrontendNet::ZAssocChild::finish(mp::Package *p)
+{
+    delete p;
+    m_no_requests--;
+    m_delete_flag = true;
+    if (m_no_requests == 0)
+        close();
+}
+
 void yf::FrontendNet::ZAssocChild::recv_GDU(Z_GDU *z_pdu, int len)
 {
     if (m_session.is_closed())
@@ -455,8 +467,7 @@ void yf::FrontendNet::ZAssocChild::recv_GDU(Z_GDU *z_pdu, int len)
             && !strcmp(hreq->path, m_p->m_stat_req.c_str()))
         {
             report(hreq);
-            delete p;
-            delete this;
+            finish(p);
             return;
         }
     }
@@ -494,11 +505,11 @@ void yf::FrontendNet::ZAssocChild::recv_GDU(Z_GDU *z_pdu, int len)
                 if (con_sz < it->value)
                     break;
                 mp::odr o;
-                Z_GDU *gdu_res = o.create_HTTP_Response(m_session, hreq, 500);
+                mp::Session session(m_session); // m_session closed elsewhere
+                Z_GDU *gdu_res = o.create_HTTP_Response(session, hreq, 500);
                 int len;
                 send_GDU(gdu_res, &len);
-                delete p;
-                delete this;
+                finish(p);
                 return;
             }
         }
-- 
2.43.0


From ce0450d36fc8fe3c58422e319c36a6eafccb7dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 26/67] fix: http_rewrite: pattern that matches the empty
 string never ends

A rule such as from=".*" made the rewrite loop forever (and use
more and more memory).
---
 src/filter_http_rewrite.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index a4b865b..795db95 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -637,6 +637,10 @@ bool yf::HttpRewrite::Rule::test_patterns(
             out.append(rvalue);
         }
         start = bwhat[0].second; //move search forward
+        if (start == end)
+            break;
+        if (bwhat[0].first == start) // empty match: go past next character
+            out.append(1, *start++);
     }
     out.append(start, end);
     txt = out;
-- 
2.43.0


From 454925bf3994318d6868e74ee7fea90041b60780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:03 +0000
Subject: [PATCH 27/67] fix: http_rewrite: malformed expression in SkipLink
 header

The header comes with a request. The exception thrown for an invalid
regular expression in it terminated Metaproxy.
---
 src/filter_http_rewrite.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index 795db95..46f49d1 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -208,18 +208,25 @@ void yf::HttpRewrite::Phase::read_skip_headers(Z_HTTP_Request *hreq,
             continue; // should not happen
         std::string page(hv,p);
         std::string link(p+1);
-        boost::regex pagere(page);
-        if ( boost::regex_search(url, pagere) )
+        try
         {
-            yaz_log(YLOG_LOG,"SkipLink '%s' matches URL %s",
-                    page.c_str(), url.c_str() );
-            boost::regex linkre(link);
-            skip_list.push_back(linkre);
+            boost::regex pagere(page);
+            if ( boost::regex_search(url, pagere) )
+            {
+                yaz_log(YLOG_LOG,"SkipLink '%s' matches URL %s",
+                        page.c_str(), url.c_str() );
+                boost::regex linkre(link);
+                skip_list.push_back(linkre);
+            }
+            else
+            {
+                yaz_log(YLOG_LOG,"SkipLink ignored, '%s' does not match '%s'",
+                        url.c_str(), page.c_str() );
+            }
         }
-        else
+        catch (boost::regex_error &e)
         {
-            yaz_log(YLOG_LOG,"SkipLink ignored, '%s' does not match '%s'",
-                    url.c_str(), page.c_str() );
+            yaz_log(YLOG_WARN, "SkipLink '%s' ignored: %s", hv, e.what());
         }
     }
 }
-- 
2.43.0


From 77ade9437ac7f6ac7da004a957e1c728cd6ce583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:03 +0000
Subject: [PATCH 28/67] fix: http_rewrite: malformed result of rule is found
 when configured

Attribute "to" was only parsed when the rule took effect and the
exception thrown then terminated Metaproxy.
---
 src/filter_http_rewrite.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index 46f49d1..0ddd4db 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -925,6 +925,9 @@ void yf::HttpRewrite::configure_phase(const xmlNode *ptr, Phase &phase)
                     if (!from.empty())
                     {
                         replace.parse_groups(from);
+                        // throws if recipe is malformed
+                        replace.sub_vars(
+                            std::map<std::string, std::string>());
                         rule->replace_list.push_back(replace);
                     }
                 }
-- 
2.43.0


From 99e9d396115fbd197d205d36d2be9e004e2c20e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:57 +0000
Subject: [PATCH 29/67] fix: z3950_client: other sessions wait for a request
 that is not Z39.50

---
 src/filter_z3950_client.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_z3950_client.cpp b/src/filter_z3950_client.cpp
index 627ed34..78af96d 100644
--- a/src/filter_z3950_client.cpp
+++ b/src/filter_z3950_client.cpp
@@ -368,6 +368,8 @@ yf::Z3950Client::Assoc *yf::Z3950Client::Rep::get_assoc(Package &package)
     }
     if (!gdu || gdu->which != Z_GDU_Z3950)
     {
+        // not for us: other sessions do not have to wait for it
+        lock.unlock();
         package.move();
         return 0;
     }
-- 
2.43.0


From addb9c4eb20ec308d925226db630730c37781035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:57 +0000
Subject: [PATCH 30/67] fix: z3950_client: request refers to freed memory

---
 src/filter_z3950_client.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_z3950_client.cpp b/src/filter_z3950_client.cpp
index 78af96d..1687455 100644
--- a/src/filter_z3950_client.cpp
+++ b/src/filter_z3950_client.cpp
@@ -604,6 +604,9 @@ void yf::Z3950Client::Rep::send_and_receive(Package &package,
     }
     if (apdu->which == Z_APDU_initRequest && m_charset.length() > 0)
         set_charset_proposal(odr, apdu->u.initRequest, m_charset.c_str());
+    // what was added to the request belongs to odr. Let the package own it
+    package.request() = gdu;
+    gdu = package.request().get();
 
     // prepare response
     c->m_time_elapsed = 0;
-- 
2.43.0


From fed91b13d3e986f34bd16ed522f24b2c88c2a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:09 +0000
Subject: [PATCH 31/67] fix: session_shared: key of a session refers to freed
 memory

---
 src/filter_session_shared.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 8b2e304..ed41318 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -266,15 +266,22 @@ yf::SessionShared::InitKey::InitKey(const InitKey &k)
 yf::SessionShared::InitKey::InitKey(Z_InitRequest *req)
 {
     m_odr = odr_createmem(ODR_ENCODE);
+    // the buffer of an ODR handle moves as more is encoded: one for each
+    mp::odr odr_auth(ODR_ENCODE), odr_info(ODR_ENCODE);
 
     Z_IdAuthentication *t = req->idAuthentication;
-    z_IdAuthentication(m_odr, &t, 1, 0);
-    m_idAuthentication_buf =
-        odr_getbuf(m_odr, &m_idAuthentication_size, 0);
+    z_IdAuthentication(odr_auth, &t, 1, 0);
+    const char *buf = odr_getbuf(odr_auth, &m_idAuthentication_size, 0);
+    m_idAuthentication_buf = (char*)odr_malloc(m_odr, m_idAuthentication_size);
+    if (m_idAuthentication_size)
+        memcpy(m_idAuthentication_buf, buf, m_idAuthentication_size);
 
     Z_OtherInformation *o = req->otherInfo;
-    z_OtherInformation(m_odr, &o, 1, 0);
-    m_otherInfo_buf = odr_getbuf(m_odr, &m_otherInfo_size, 0);
+    z_OtherInformation(odr_info, &o, 1, 0);
+    buf = odr_getbuf(odr_info, &m_otherInfo_size, 0);
+    m_otherInfo_buf = (char*)odr_malloc(m_odr, m_otherInfo_size);
+    if (m_otherInfo_size)
+        memcpy(m_otherInfo_buf, buf, m_otherInfo_size);
 }
 
 yf::SessionShared::InitKey::~InitKey()
-- 
2.43.0


From 863c5e4742c21dbd017ec723ac48b69cd09daa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:09 +0000
Subject: [PATCH 32/67] fix: session_shared: crash when no session can be made
 for a search tried again

---
 src/filter_session_shared.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index ed41318..b0bb175 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -983,6 +983,7 @@ restart:
             bc->remove_backend(found_backend);
             session_restarted = true;
             found_backend.reset();
+            found_set.reset();
             goto restart;
 
         }
@@ -1018,6 +1019,7 @@ restart:
         bc->remove_backend(found_backend);
         session_restarted = true;
         found_backend.reset();
+        found_set.reset();
         goto restart;
     }
     found_backend->m_sets.push_back(found_set);
-- 
2.43.0


From 636313619465c53777412890cb3de91048e61a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:16 +0000
Subject: [PATCH 33/67] fix: session_shared: clients wait for ever for a
 session that is removed

---
 src/filter_session_shared.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index b0bb175..d0b8916 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -334,6 +334,7 @@ void yf::SessionShared::BackendClass::remove_backend(BackendInstancePtr b)
             }
             it++;
         }
+        m_cond_set_ready.notify_all();
     }
     mp::odr odr;
     b->m_close_package->response() = odr.create_close(
-- 
2.43.0


From 38af51f491ebee84705c0f2773911675e77437c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 34/67] fix: session_shared: more sessions than the maximum

---
 src/filter_session_shared.cpp | 46 ++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index d0b8916..4a49f35 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -124,7 +124,9 @@ namespace metaproxy_1 {
                                               int &code, std::string &addinfo);
             void remove_backend(BackendInstancePtr b);
             BackendInstancePtr get_backend(const Package &package,
+                                           int session_max,
                                            int &code, std::string &addinfo);
+            bool reserve_backend(int session_max);
             void use_backend(BackendInstancePtr b);
             void release_backend(BackendInstancePtr b);
             bool expire_instances();
@@ -141,6 +143,7 @@ namespace metaproxy_1 {
             int m_no_failed;
             int m_no_succeeded;
             int m_no_init;
+            int m_no_pending; // backends being created
         public:
             BackendClass(const yazpp_1::GDU &init_request,
                          int resultset_ttl,
@@ -346,7 +349,7 @@ void yf::SessionShared::BackendClass::remove_backend(BackendInstancePtr b)
 
 yf::SessionShared::BackendInstancePtr
 yf::SessionShared::BackendClass::get_backend(
-    const mp::Package &frontend_package,
+    const mp::Package &frontend_package, int session_max,
     int &code, std::string &addinfo)
 {
     {
@@ -370,10 +373,26 @@ yf::SessionShared::BackendClass::get_backend(
             use_backend(backend1);
             return backend1;
         }
+        if (!reserve_backend(session_max))
+        {
+            code = YAZ_BIB1_TEMPORARY_SYSTEM_ERROR;
+            addinfo = "session_shared: all sessions in use";
+            return backend1;
+        }
     }
     return create_backend(frontend_package, code, addinfo);
 }
 
+// m_mutex_backend_class must be locked. If successful, create_backend
+// must be called
+bool yf::SessionShared::BackendClass::reserve_backend(int session_max)
+{
+    if ((int) m_backend_list.size() + m_no_pending >= session_max)
+        return false;
+    m_no_pending++;
+    return true;
+}
+
 void yf::SessionShared::BackendClass::use_backend(BackendInstancePtr backend)
 {
     backend->m_in_use = true;
@@ -447,6 +466,8 @@ yf::SessionShared::BackendInstancePtr yf::SessionShared::BackendClass::create_ba
 
     boost::mutex::scoped_lock lock(m_mutex_backend_class);
 
+    m_no_pending--;
+    m_cond_set_ready.notify_all();
     addinfo.clear();
     code = 0;
     m_named_result_sets = false;
@@ -526,7 +547,6 @@ yf::SessionShared::BackendInstancePtr yf::SessionShared::BackendClass::create_ba
         init_package.move();
     }
     m_no_failed++;
-    m_cond_set_ready.notify_all();
     return null;
 }
 
@@ -542,7 +562,7 @@ yf::SessionShared::BackendClass::BackendClass(const yazpp_1::GDU &init_request,
       m_backend_expiry_ttl(session_ttl), m_backend_set_max(resultset_max),
       m_preferredMessageSize(preferredMessageSize),
       m_maximumRecordSize(maximumRecordSize),
-      m_no_failed(0), m_no_succeeded(0), m_no_init(0)
+      m_no_failed(0), m_no_succeeded(0), m_no_init(0), m_no_pending(0)
 {}
 
 yf::SessionShared::BackendClass::~BackendClass()
@@ -605,15 +625,15 @@ void yf::SessionShared::Rep::init(mp::Package &package, const Z_GDU *gdu,
     bool create_first_one = false;
     {
         boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
+        // wait for first one to finish
+        while (!bc->m_no_succeeded && bc->m_no_pending)
+        {
+            bc->m_cond_set_ready.wait(lock);
+        }
         if (!bc->m_no_succeeded)
-            create_first_one = true;
-        else
         {
-            // wait for first one to finish
-            while (!bc->m_no_failed && !bc->m_no_succeeded && bc->m_no_init)
-            {
-                bc->m_cond_set_ready.wait(lock);
-            }
+            create_first_one = true;
+            bc->m_no_pending++;
         }
     }
     if (create_first_one)
@@ -834,7 +854,8 @@ restart:
     {
         boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
 
-        if ((int) bc->m_backend_list.size() >= m_p->m_session_max)
+        if ((int) bc->m_backend_list.size() + bc->m_no_pending
+            >= m_p->m_session_max)
             out_of_sessions = true;
 
         if (m_p->m_optimize_search)
@@ -881,6 +902,8 @@ restart:
         override_set(found_backend, result_set_id, databases, out_of_sessions);
         if (found_backend)
             bc->use_backend(found_backend);
+        else
+            out_of_sessions = !bc->reserve_backend(m_p->m_session_max);
     }
     if (!found_backend)
     {
@@ -1288,6 +1311,7 @@ void yf::SessionShared::Frontend::scan(mp::Package &frontend_package,
     int code;
     std::string addinfo;
     BackendInstancePtr backend = bc->get_backend(frontend_package,
+                                                 m_p->m_session_max,
                                                  code, addinfo);
     if (!backend)
     {
-- 
2.43.0


From 28d1f1f0cbcdce7e85d626daa80d6e9a00b68ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:15 +0000
Subject: [PATCH 35/67] fix: session_shared: stop does not wait for expiry

---
 src/filter_session_shared.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 4a49f35..4d9637a 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -1416,7 +1416,8 @@ void yf::SessionShared::Rep::expire()
         xt.sec += m_session_ttl;
         {
             boost::mutex::scoped_lock lock(m_mutex);
-            m_cond_expire_ready.timed_wait(lock, xt);
+            if (!close_down)
+                m_cond_expire_ready.timed_wait(lock, xt);
             if (close_down)
                 break;
         }
-- 
2.43.0


From 154de2390b46810ca4ebaa58187e63faf790ea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 36/67] fix: session_shared: clients use sessions that are not
 shared or expired

---
 src/filter_session_shared.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 4d9637a..43bec1f 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -1391,7 +1391,8 @@ void yf::SessionShared::Rep::expire_classes()
     BackendClassMap::iterator b_it = m_backend_map.begin();
     while (b_it != m_backend_map.end())
     {
-        if (b_it->second->expire_instances())
+        // keep class for as long as clients use it
+        if (b_it->second->expire_instances() && b_it->second.unique())
         {
             m_backend_map.erase(b_it);
             b_it = m_backend_map.begin();
-- 
2.43.0


From 65b592cd1edc9e8a8e1dd85077b970fa6734e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 37/67] fix: sort: present responses without reference ID of
 request

---
 src/filter_sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 02ae667..22cc082 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -655,7 +655,7 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
                 <= (*it)->size())
             {
                 int i;
-                Z_APDU *p_apdu = zget_APDU(odr, Z_APDU_presentResponse);
+                Z_APDU *p_apdu = odr.create_presentResponse(apdu_req, 0, 0);
                 Z_PresentResponse *p_res = p_apdu->u.presentResponse;
 
                 *p_res->nextResultSetPosition = *req->resultSetStartPoint +
-- 
2.43.0


From f80acd2ed632039749dd3ea6f4fa0d513b624514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 38/67] fix: sort: crash for present requests that are out of
 range

---
 src/filter_sort.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 22cc082..6199b17 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -651,8 +651,12 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
     for (; it != rset->record_lists.end(); it++)
         if ((*it)->cmp(req->preferredRecordSyntax))
         {
-            if (*req->resultSetStartPoint - 1 + *req->numberOfRecordsRequested
-                <= (*it)->size())
+            // other ranges are left to the target
+            if (*req->resultSetStartPoint > 0
+                && *req->numberOfRecordsRequested > 0
+                && *req->numberOfRecordsRequested <= (*it)->size()
+                && *req->resultSetStartPoint - 1
+                <= (*it)->size() - *req->numberOfRecordsRequested)
             {
                 int i;
                 Z_APDU *p_apdu = odr.create_presentResponse(apdu_req, 0, 0);
-- 
2.43.0


From 4b2e6f3c0e7520c8784c38ada69fdf8a275c0fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 39/67] fix: sort: session stays open when the target closes

---
 src/filter_sort.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 6199b17..ffcc77c 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -545,6 +545,8 @@ void yf::Sort::Frontend::handle_records(mp::Package &package,
 
             present_package.request() = p_apdu;
             present_package.move();
+            if (present_package.session().is_closed())
+                package.session().close();
 
             Z_GDU *gdu_res = present_package.response().get();
             if (gdu_res && gdu_res->which == Z_GDU_Z3950 &&
@@ -621,7 +623,7 @@ void yf::Sort::Frontend::handle_search(mp::Package &package, Z_APDU *apdu_req)
     else
         package.response() = b_package.response();
     if (b_package.session().is_closed())
-        b_package.session().close();
+        package.session().close();
 }
 
 void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
@@ -704,7 +706,7 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
     else
         package.response() = b_package.response();
     if (b_package.session().is_closed())
-        b_package.session().close();
+        package.session().close();
 }
 
 void yf::Sort::Frontend::handle_package(mp::Package &package)
-- 
2.43.0


From a17c72640979cd1e4b57a03662846678ef007b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 40/67] fix: sort: records of another element set are returned

---
 src/filter_sort.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index ffcc77c..07207b0 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -74,18 +74,20 @@ namespace metaproxy_1 {
         };
         class Sort::RecordList : boost::noncopyable {
             Odr_oid *syntax;
+            std::string comp;
             std::list<Record> npr_list;
             mp::odr m_odr;
             std::string namespaces;
             std::string xpath_expr;
             bool debug;
         public:
-            bool cmp(Odr_oid *syntax);
+            bool cmp(Odr_oid *syntax, Z_RecordComposition *comp);
             void add(Z_NamePlusRecord *s);
             int size();
             Z_NamePlusRecord *get(int i, bool ascending);
             void sort();
-            RecordList(Odr_oid *, std::string namespaces,
+            RecordList(Odr_oid *, Z_RecordComposition *comp,
+                       std::string namespaces,
                        std::string xpath_expr, bool debug);
             ~RecordList();
         };
@@ -293,12 +295,22 @@ bool yf::Sort::Record::operator < (const Record &rhs) const
     return false;
 }
 
+static std::string encode_comp(Z_RecordComposition *comp)
+{
+    mp::odr odr(ODR_ENCODE);
+    int len = 0;
+    z_RecordComposition(odr, &comp, 1, 0);
+    const char *buf = odr_getbuf(odr, &len, 0);
+    return len ? std::string(buf, len) : std::string();
+}
+
 yf::Sort::RecordList::RecordList(Odr_oid *syntax,
+                                 Z_RecordComposition *a_comp,
                                  std::string a_namespaces,
                                  std::string a_xpath_expr,
                                  bool a_debug)
-    : namespaces(a_namespaces), xpath_expr(a_xpath_expr), debug(a_debug)
-
+    : comp(encode_comp(a_comp)), namespaces(a_namespaces),
+      xpath_expr(a_xpath_expr), debug(a_debug)
 {
     if (syntax)
         this->syntax = odr_oiddup(m_odr, syntax);
@@ -311,8 +323,10 @@ yf::Sort::RecordList::~RecordList()
 
 }
 
-bool yf::Sort::RecordList::cmp(Odr_oid *syntax)
+bool yf::Sort::RecordList::cmp(Odr_oid *syntax, Z_RecordComposition *comp)
 {
+    if (this->comp != encode_comp(comp))
+        return false;
     if ((!this->syntax && !syntax)
         ||
         (this->syntax && syntax && !oid_oidcmp(this->syntax, syntax)))
@@ -509,14 +523,14 @@ void yf::Sort::Frontend::handle_records(mp::Package &package,
         std::list<RecordListPtr>::const_iterator it = s->record_lists.begin();
 
         for (; it != s->record_lists.end(); it++)
-            if ((*it)->cmp(syntax))
+            if ((*it)->cmp(syntax, comp))
                 return;
 
         Z_NamePlusRecordList *nprl = records->u.databaseOrSurDiagnostics;
         int i;    // i is number of records fetched in last response
 
         int pos = 1;
-        RecordListPtr rlp(new RecordList(syntax,
+        RecordListPtr rlp(new RecordList(syntax, comp,
                                          m_p->m_namespaces.c_str(),
                                          m_p->m_xpath_expr.c_str(),
                                          m_p->m_debug));
@@ -651,7 +665,7 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
     ResultSetPtr rset = sets_it->second;
     std::list<RecordListPtr>::const_iterator it = rset->record_lists.begin();
     for (; it != rset->record_lists.end(); it++)
-        if ((*it)->cmp(req->preferredRecordSyntax))
+        if ((*it)->cmp(req->preferredRecordSyntax, req->recordComposition))
         {
             // other ranges are left to the target
             if (*req->resultSetStartPoint > 0
-- 
2.43.0


From d7cfcce8811d769ad9dd9d3ba8e6aa12185ff88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 41/67] fix: sru_z3950: close Z39.50 session when init is
 rejected

---
 src/filter_sru_to_z3950.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index c1af6df..33df254 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -325,8 +325,9 @@ void yf::SRUtoZ3950::Impl::sru(mp::Package &package, Z_GDU *zgdu_req)
         sru_pdu_res->u.response->num_diagnostics = num_diagnostic;
 
         // checking that we have a query
-        ok = mp_util::check_sru_query_exists(package, odr_en,
-                                             sru_pdu_res, sr_req);
+        bool ok_query = ok =
+            mp_util::check_sru_query_exists(package, odr_en,
+                                            sru_pdu_res, sr_req);
 
         if (ok && z3950_init_request(package, odr_en,
                                      zurl, sru_pdu_res, sru_pdu_req))
@@ -341,8 +342,10 @@ void yf::SRUtoZ3950::Impl::sru(mp::Package &package, Z_GDU *zgdu_req)
                 ok = z3950_present_request(package, odr_en,
                                            sru_pdu_res,
                                            sr_req);
-            z3950_close_request(package);
         }
+        // close even if init was rejected: next request may be for other target
+        if (ok_query)
+            z3950_close_request(package);
     }
     else if (sru_pdu_req->which == Z_SRW_scan_request)
     {
-- 
2.43.0


From 14d9c8c08b0d2b1e5732b1ce09fa3f851e8b600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 42/67] fix: sru_z3950: deal with targets that return zero or
 too many records

---
 src/filter_sru_to_z3950.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index 33df254..2ebdf6e 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -846,6 +846,12 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
             // inserting all records
             int returned_recs =
                 pr->records->u.databaseOrSurDiagnostics->num_records;
+            // no progress: stop
+            if (returned_recs <= 0)
+                break;
+            // never store more than what was asked for
+            if (returned_recs > max_recs - num)
+                returned_recs = max_recs - num;
             for (int i = 0; i < returned_recs; i++)
             {
                 int position = i + *apdu->u.presentRequest->resultSetStartPoint;
-- 
2.43.0


From 70480d8518f4ac9fcc05b148a979c137e4b23b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 43/67] fix: sru_z3950: startRecord 0 is out of range

---
 src/filter_sru_to_z3950.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index 2ebdf6e..8eb4fd4 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -740,8 +740,8 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
                                YAZ_SRW_SORT_UNSUPP, 0);
     }
 
-    // start record requested negative, or larger than number of records
-    if (start < 0 || start > *sru_pdu_res->u.response->numberOfRecords)
+    // start record requested not positive, or larger than number of records
+    if (start < 1 || start > *sru_pdu_res->u.response->numberOfRecords)
     {
         send_z3950_present = false;
         yaz_add_srw_diagnostic(odr_en,
-- 
2.43.0


From 9b22ac25a72572f23a94428f3e9e973824b9c164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 44/67] fix: sru_z3950: return multiple non-surrogate
 diagnostics of target

---
 src/filter_sru_to_z3950.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index 8eb4fd4..649411a 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -980,6 +980,29 @@ bool yf::SRUtoZ3950::Impl::z3950_to_srw_diagnostics_ok(
                           records->u.nonSurrogateDiagnostic);
         return false;
     }
+    if (records
+        && records->which == Z_Records_multipleNSD
+        && records->u.multipleNonSurDiagnostics)
+    {
+        Z_DiagRecs *recs = records->u.multipleNonSurDiagnostics;
+        for (int i = 0; i < recs->num_diagRecs; i++)
+        {
+            Z_DiagRec *p = recs->diagRecs[i];
+            if (p->which == Z_DiagRec_defaultFormat)
+            {
+                Z_DefaultDiagFormat *df = p->u.defaultFormat;
+                yaz_add_srw_diagnostic(odr_en, &sru_res->diagnostics,
+                                       &sru_res->num_diagnostics,
+                                       yaz_diag_bib1_to_srw(*df->condition),
+                                       df->u.v2Addinfo);
+            }
+            else
+                yaz_add_srw_diagnostic(odr_en, &sru_res->diagnostics,
+                                       &sru_res->num_diagnostics,
+                                       YAZ_SRW_SYSTEM_TEMPORARILY_UNAVAILABLE, 0);
+        }
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From c8dd4ff882d455c7047ba07cba04013f4fa9db7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 45/67] fix: sru_z3950: XML record must be octet aligned

---
 src/filter_sru_to_z3950.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index 649411a..93997b1 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -882,7 +882,8 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
                 else if (npr->which == Z_NamePlusRecord_databaseRecord &&
                     npr->u.databaseRecord->direct_reference
                     && !oid_oidcmp(npr->u.databaseRecord->direct_reference,
-                                   yaz_oid_recsyn_xml))
+                                   yaz_oid_recsyn_xml)
+                    && npr->u.databaseRecord->which == Z_External_octet)
                 {
                     // got XML record back
                     Z_External *r = npr->u.databaseRecord;
-- 
2.43.0


From 045cebdfad1e3a76df8923f0a42e701f452d6844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 46/67] fix: sru_z3950: report unsupported operation in
 response

---
 src/filter_sru_to_z3950.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index 93997b1..4a26524 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -367,7 +367,9 @@ void yf::SRUtoZ3950::Impl::sru(mp::Package &package, Z_GDU *zgdu_req)
             yaz_srw_get_pdu_e(odr_en, Z_SRW_explain_response, sru_pdu_req);
         sru_pdu_res->u.explain_response->diagnostics = diagnostic;
         sru_pdu_res->u.explain_response->num_diagnostics = num_diagnostic;
-        yaz_add_srw_diagnostic(odr_en, &diagnostic, &num_diagnostic,
+        yaz_add_srw_diagnostic(odr_en,
+                               &sru_pdu_res->u.explain_response->diagnostics,
+                               &sru_pdu_res->u.explain_response->num_diagnostics,
                                YAZ_SRW_UNSUPP_OPERATION, "unknown");
     }
     if (enable_package_log)
-- 
2.43.0


From 99305f834d134e670d6bed34fe843197cd77dd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 47/67] fix: sru_util: do not treat SOAP fault as generic SOAP
 package

---
 src/sru_util.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sru_util.cpp b/src/sru_util.cpp
index 860453a..aeffc6b 100644
--- a/src/sru_util.cpp
+++ b/src/sru_util.cpp
@@ -206,7 +206,9 @@ bool mp_util::build_sru_response(mp::Package &package,
 
         // encoding SRU package
 
-        soap->u.generic->p  = (void*) sru_pdu_res;
+        // (a SOAP fault from decoding is returned as is)
+        if (soap->which == Z_SOAP_generic)
+            soap->u.generic->p  = (void*) sru_pdu_res;
         //int ret =
         z_soap_codec_enc_xsl(odr_en, &soap,
                              &http_res->content_buf, &http_res->content_len,
-- 
2.43.0


From c67589f2d0075217703fb344f636da964536a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 48/67] fix: sru_util: XML escape host, port and database in
 explain record

---
 src/sru_util.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/sru_util.cpp b/src/sru_util.cpp
index aeffc6b..af3089c 100644
--- a/src/sru_util.cpp
+++ b/src/sru_util.cpp
@@ -104,21 +104,24 @@ bool mp_util::build_sru_explain(metaproxy_1::Package &package,
 
     if (explain == 0)
     {
-        explain_xml
-            = mp_util::to_string(
-                "<explain  xmlns=\"" + xmlns_explain + "\">\n"
-                "  <serverInfo protocol='SRU'>\n"
-                "    <host>")
-            + sruinfo.host
-            + mp_util::to_string("</host>\n"
-                                 "    <port>")
-            + sruinfo.port
-            + mp_util::to_string("</port>\n"
-                                 "    <database>")
-            + sruinfo.database
-            + mp_util::to_string("</database>\n"
-                                 "  </serverInfo>\n"
-                                 "</explain>\n");
+        mp::wrbuf w;
+
+        wrbuf_puts(w, "<explain  xmlns=\"");
+        wrbuf_puts(w, xmlns_explain.c_str());
+        wrbuf_puts(w, "\">\n"
+                   "  <serverInfo protocol='SRU'>\n"
+                   "    <host>");
+        wrbuf_xmlputs(w, sruinfo.host.c_str());
+        wrbuf_puts(w, "</host>\n"
+                   "    <port>");
+        wrbuf_xmlputs(w, sruinfo.port.c_str());
+        wrbuf_puts(w, "</port>\n"
+                   "    <database>");
+        wrbuf_xmlputs(w, sruinfo.database.c_str());
+        wrbuf_puts(w, "</database>\n"
+                   "  </serverInfo>\n"
+                   "</explain>\n");
+        explain_xml = wrbuf_cstr(w);
     }
     else
     {
-- 
2.43.0


From aa5b9fe2dbb2b40c77bc7c54b4357d530198824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 49/67] fix: sru_util: use host of HTTP Host header without
 port in explain

---
 src/sru_util.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sru_util.cpp b/src/sru_util.cpp
index af3089c..2309fbe 100644
--- a/src/sru_util.cpp
+++ b/src/sru_util.cpp
@@ -80,6 +80,8 @@ mp_util::SRUServerInfo mp_util::get_sru_server_info(mp::Package &package)
                 sruinfo.port.assign(http_host_address, iaddress + 1,
                                     std::string::npos);
             }
+            else if (http_host_address.length())
+                sruinfo.host = http_host_address;
         }
     }
 
-- 
2.43.0


From d0a4ffc68b83f1cc883218b0a45c30580ef2695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:54 +0000
Subject: [PATCH 50/67] fix: record_transform: close character set converter of
 OPAC records

Each record converted to OPAC left the handle of yaz_iconv_open behind.
---
 src/filter_record_transform.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_record_transform.cpp b/src/filter_record_transform.cpp
index 38db551..b756314 100644
--- a/src/filter_record_transform.cpp
+++ b/src/filter_record_transform.cpp
@@ -310,6 +310,8 @@ static void convert_npr(yaz_record_conv_t rc,
                         "XML to OPAC conversion failed");
             }
             yaz_marc_destroy(mt);
+            if (cd)
+                yaz_iconv_close(cd);
         }
         else
         {
-- 
2.43.0


From 18f07d00340cbc65e1a5bd044248e8acc4679a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:55 +0000
Subject: [PATCH 51/67] fix: cql_rpn: free CQL buffer when a query can not be
 converted

Each RPN query that was refused left its WRBUF behind.
---
 src/filter_cql_rpn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_cql_rpn.cpp b/src/filter_cql_rpn.cpp
index dbe84e3..f90f2fb 100644
--- a/src/filter_cql_rpn.cpp
+++ b/src/filter_cql_rpn.cpp
@@ -162,6 +162,7 @@ void yf::CQLtoRPN::Impl::process(mp::Package &package)
                                                 odr, &addinfo);
             if (r)
             {
+                wrbuf_destroy(cql);
                 Z_APDU *f_apdu =
                     odr.create_searchResponse(apdu_req, r, addinfo);
                 package.response() = f_apdu;
-- 
2.43.0


From b3596fbf83e9b76318f69ab3814ccd0e6b860fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:55 +0000
Subject: [PATCH 52/67] fix: cql_rpn: convert one query at a time

The CQL transform handle of YAZ holds the error and additional information
of the last conversion and is not re-entrant, but all sessions shared it
without a lock.
---
 src/filter_cql_rpn.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/filter_cql_rpn.cpp b/src/filter_cql_rpn.cpp
index f90f2fb..fb8c165 100644
--- a/src/filter_cql_rpn.cpp
+++ b/src/filter_cql_rpn.cpp
@@ -27,6 +27,8 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include <yazpp/z-query.h>
 #include <yaz/cql.h>
 #include <yazpp/cql2rpn.h>
+#include <boost/thread/mutex.hpp>
+
 #include <yaz/zgdu.h>
 #include <yaz/diagbib1.h>
 #include <yaz/srw.h>
@@ -45,6 +47,8 @@ namespace metaproxy_1 {
             void process(metaproxy_1::Package & package);
             void configure(const xmlNode *ptr, const char *path);
         private:
+            // conversion state is kept in the YAZ handle; one at a time
+            boost::mutex m_mutex;
             yazpp_1::Yaz_cql2rpn m_cql2rpn;
             bool reverse;
         };
@@ -158,8 +162,12 @@ void yf::CQLtoRPN::Impl::process(mp::Package &package)
             mp::odr odr;
             WRBUF cql = wrbuf_alloc();
 
-            int r = m_cql2rpn.rpn2cql_transform(sr->query->u.type_1, cql,
+            int r;
+            {
+                boost::mutex::scoped_lock lock(m_mutex);
+                r = m_cql2rpn.rpn2cql_transform(sr->query->u.type_1, cql,
                                                 odr, &addinfo);
+            }
             if (r)
             {
                 wrbuf_destroy(cql);
@@ -193,9 +201,13 @@ void yf::CQLtoRPN::Impl::process(mp::Package &package)
             Z_RPNQuery *rpnquery = 0;
             mp::odr odr;
 
-            int r = m_cql2rpn.query_transform(sr->query->u.type_104->u.cql,
-                                                 &rpnquery, odr,
-                                                 &addinfo);
+            int r;
+            {
+                boost::mutex::scoped_lock lock(m_mutex);
+                r = m_cql2rpn.query_transform(sr->query->u.type_104->u.cql,
+                                              &rpnquery, odr,
+                                              &addinfo);
+            }
             if (r == -3)
             {
                 Z_APDU *f_apdu =
-- 
2.43.0


From 84cca7e67e3a9cf78cc5b570dcf415737850f8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:55 +0000
Subject: [PATCH 53/67] fix: log: take the sort request from the request

The one-line log read the response as if it were the request.
---
 src/filter_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 27ebadb..7de6b2b 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -395,7 +395,7 @@ static void log_1line_Z_APDU(Z_APDU *z_req, Z_APDU *z_res, WRBUF w)
         else
         {
             Z_SortResponse *res = z_res->u.sortResponse;
-            Z_SortRequest *req = z_res->u.sortRequest;
+            Z_SortRequest *req = z_req->u.sortRequest;
             int i;
 
             if (*res->sortStatus == Z_SortResponse_success)
-- 
2.43.0


From 672068161f71e116051483598a7c453192d52729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:55 +0000
Subject: [PATCH 54/67] fix: log: no response to an APDU that is not known

The one-line log dereferenced a null pointer.
---
 src/filter_log.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 7de6b2b..db74819 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -479,7 +479,10 @@ static void log_1line_Z_APDU(Z_APDU *z_req, Z_APDU *z_res, WRBUF w)
         }
         break;
     default:
-        wrbuf_printf(w, "REQ=%d RES=%d", z_req->which, z_res->which);
+        if (z_res)
+            wrbuf_printf(w, "REQ=%d RES=%d", z_req->which, z_res->which);
+        else
+            wrbuf_printf(w, "REQ=%d RES=?", z_req->which);
     }
 }
 
-- 
2.43.0


From 79c5dfd2efdda091747c81000dfb5483980ec6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:55 +0000
Subject: [PATCH 55/67] fix: log: several non-surrogate diagnostics may be none

The one-line log read the first of them without checking that there is one.
---
 src/filter_log.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index db74819..e821418 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -162,7 +162,9 @@ static void log_DefaultDiagFormat(WRBUF w, Z_DefaultDiagFormat *e)
 
 static void log_DiagRecs(WRBUF w, int num_diagRecs, Z_DiagRec **diags)
 {
-    if (diags[0]->which != Z_DiagRec_defaultFormat)
+    if (num_diagRecs < 1)
+        wrbuf_puts(w, "-");
+    else if (diags[0]->which != Z_DiagRec_defaultFormat)
         wrbuf_puts(w ,"(diag not in default format?)");
     else
     {
-- 
2.43.0


From 8e803185871cd4541983789b760eff8474b78d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:55 +0000
Subject: [PATCH 56/67] fix: log: one line per entry

A line break in a user ID, result set name, .. of a client made it write lines
of its own to the log.
---
 src/filter_log.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index e821418..1e2812b 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -846,6 +846,11 @@ yf::Log::Impl::LFile::~LFile()
 void yf::Log::Impl::LFile::log(const std::string &date_format,
                                std::ostringstream &os)
 {
+    // strictly one line per entry, whatever the client puts in its request
+    std::string message = os.str();
+    for (size_t i = 0; i < message.length(); i++)
+        if (message[i] == '\n' || message[i] == '\r')
+            message[i] = ' ';
     if (fhandle)
     {
         char datestr[80];
@@ -861,11 +866,11 @@ void yf::Log::Impl::LFile::log(const std::string &date_format,
             fputs(datestr, fhandle);
             fputs(" ", fhandle);
         }
-        fputs(os.str().c_str(), fhandle);
+        fputs(message.c_str(), fhandle);
         fputc('\n', fhandle);
     }
     else
-        yaz_log(YLOG_LOG, "%s", os.str().c_str());
+        yaz_log(YLOG_LOG, "%s", message.c_str());
 }
 
 void yf::Log::Impl::LFile::flush()
-- 
2.43.0


From 508a79abe95a58679323000f0fe7b6dcb5fe1fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 57/67] fix: http_client: 404 for no target URI when bind_host
 is in effect

---
 src/filter_http_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_http_client.cpp b/src/filter_http_client.cpp
index e3d6116..7a3f18b 100644
--- a/src/filter_http_client.cpp
+++ b/src/filter_http_client.cpp
@@ -117,7 +117,7 @@ void yf::HTTPClient::Rep::proxy(mp::Package &package)
         else
             uri = hreq->path;
 
-        if (bind_host)
+        if (bind_host && uri.length())
         {
             std::string host = package.origin().get_bind_address();
             uri.append(" ");
-- 
2.43.0


From 43f680feb1eebdef07c07181655a84c0746b8aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 58/67] fix: cgi: return error when pipes can not be created

The error response was followed by a move to the next filter.
---
 src/filter_cgi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index 70b16f0..e087a5e 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -169,7 +169,7 @@ void yf::CGI::process(mp::Package &package) const
                 zgdu_res = odr.create_HTTP_Response(
                     package.session(), hreq, 400);
                 package.response() = zgdu_res;
-                continue;
+                return;
             }
             int fds_request[2];
             r = pipe(fds_request);
@@ -180,7 +180,7 @@ void yf::CGI::process(mp::Package &package) const
                 package.response() = zgdu_res;
                 close(fds_response[0]);
                 close(fds_response[1]);
-                continue;
+                return;
             }
 
             int status;
-- 
2.43.0


From 5e0abc7eb5bb1cd4db7bc056ed30414d8a528920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 59/67] fix: cgi: read all output of a script that does not
 read its content

---
 src/filter_cgi.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index e087a5e..b805db8 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -249,8 +249,9 @@ void yf::CGI::process(mp::Package &package) const
                                            hreq->content_buf + no_write,
                                            hreq->content_len - no_write);
                         if (wd <= 0)
-                            break;
-                        no_write += wd;
+                            no_write = hreq->content_len; // wants no more
+                        else
+                            no_write += wd;
                     }
                 }
                 close(fds_request[1]);
-- 
2.43.0


From f7c48709328f26a387219293bcf86f29252bef70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 60/67] fix: cgi: do not wait forever for a script that timed
 out

---
 src/filter_cgi.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index b805db8..465f660 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -220,6 +220,7 @@ void yf::CGI::process(mp::Package &package) const
                 fcntl(fds_response[0], F_SETFL, O_NONBLOCK);
                 fcntl(fds_request[1], F_SETFL, O_NONBLOCK);
                 int no_write = 0;
+                bool timeout = false;
                 while (1)
                 {
                     int num = 1;
@@ -234,7 +235,10 @@ void yf::CGI::process(mp::Package &package) const
                     }
                     int r = yaz_poll(fds, num, 60, 0);
                     if (r <= 0)
+                    {
+                        timeout = true;
                         break;
+                    }
                     if (fds[0].output_mask & (yaz_poll_read|yaz_poll_except))
                     {
                         char buf[512];
@@ -256,6 +260,8 @@ void yf::CGI::process(mp::Package &package) const
                 }
                 close(fds_request[1]);
                 close(fds_response[0]);
+                if (timeout)
+                    kill(pid, SIGTERM);
                 waitpid(pid, &status, 0);
 
                 if (pid)
-- 
2.43.0


From dd656d3f1690bac59d8083b9dd60284f88778050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 61/67] fix: cgi: do not run a program of the same name in
 another directory

---
 src/filter_cgi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index 465f660..ae7b5cb 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -128,13 +128,15 @@ void yf::CGI::Rep::child(Z_HTTP_Request *hreq, const CGI::Exec *it)
         setenv(it_e->first.c_str(), it_e->second.c_str(), 1);
     // change directory to configuration root
     // then to CGI program directory (could be relative)
-    chdir(documentroot.c_str());
+    if (chdir(documentroot.c_str()))
+        exit(1);
     char *program = xstrdup(program_cstr);
     char *cp = strrchr(program, '/');
     if (cp)
     {
         *cp++ = '\0';
-        chdir(program);
+        if (chdir(*program ? program : "/"))
+            exit(1);
     }
     else
         cp = program;
-- 
2.43.0


From 37fc4166477c6e9cca1d90fe016c3bae6f7f8775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 62/67] fix: cgi: close session when client asks for it

---
 src/filter_cgi.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index ae7b5cb..2f5ca03 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -272,6 +272,8 @@ void yf::CGI::process(mp::Package &package) const
                     m_p->children.erase(pid);
                 }
                 ODR dec = odr_createmem(ODR_DECODE);
+                // may close session
+                odr.create_HTTP_Response(package.session(), hreq, 200);
                 odr_setbuf(dec, wrbuf_buf(w), wrbuf_len(w), 0);
                 r = z_GDU(dec, &zgdu_res, 0, 0);
                 if (r && zgdu_res)
@@ -281,7 +283,7 @@ void yf::CGI::process(mp::Package &package) const
                 else
                 {
                     zgdu_res = odr.create_HTTP_Response(
-                        package.session(), zgdu_req->u.HTTP_Request, 400);
+                        package.session(), hreq, 400);
                     Z_HTTP_Response *hres = zgdu_res->u.HTTP_Response;
                     z_HTTP_header_add(odr, &hres->headers,
                                       "Content-Type", "text/plain");
-- 
2.43.0


From 2dc866f1c67301f4a080e047a997e12e539829b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 63/67] fix: option -w does not imply debug mode

---
 src/metaproxy_prog.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metaproxy_prog.cpp b/src/metaproxy_prog.cpp
index fd0302a..dac9760 100644
--- a/src/metaproxy_prog.cpp
+++ b/src/metaproxy_prog.cpp
@@ -213,6 +213,7 @@ static int sc_main(
                 std::cerr << "chdir " << arg << " failed" << std::endl;
                 return 1;
             }
+            break;
         case 'X':
             mode = YAZ_DAEMON_DEBUG;
             break;
-- 
2.43.0


From 7858103a769aa8f721f40775a12f2a14a093aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 64/67] fix: stop signal received before the router is started
 is not lost

---
 src/metaproxy_prog.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metaproxy_prog.cpp b/src/metaproxy_prog.cpp
index dac9760..9f126f6 100644
--- a/src/metaproxy_prog.cpp
+++ b/src/metaproxy_prog.cpp
@@ -85,6 +85,8 @@ static void sig_x_handler(int signo)
 static void work_common(void *data)
 {
     set_log_prefix();
+    // before signals are handled: a stop signal must not get lost
+    routerp = (mp::RouterXML*) data;
 #if HAVE_UNISTD_H
     process_group = getpgid(0); // save process group ID
     my_pid = getpid();
@@ -92,7 +94,6 @@ static void work_common(void *data)
     signal(SIGTERM, sig_x_handler);
     signal(SIGUSR1, sig_x_handler);
 #endif
-    routerp = (mp::RouterXML*) data;
     routerp->start();
 
     mp::Package pack;
-- 
2.43.0


From 721ae6bd13abecd4d6b0682f3f38573ce036c5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 65/67] fix: zeerex_explain: HTTP 400 for requests that are not
 SRU

They made Metaproxy dereference a null pointer.
---
 src/filter_zeerex_explain.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/filter_zeerex_explain.cpp b/src/filter_zeerex_explain.cpp
index f82039d..1ca424a 100644
--- a/src/filter_zeerex_explain.cpp
+++ b/src/filter_zeerex_explain.cpp
@@ -159,10 +159,19 @@ void yf::ZeeRexExplain::Impl::process(mp::Package &package)
                &diagnostic, &num_diagnostic, &soap,
                charset)))
     {
-        mp_util::build_sru_explain(package, odr_en, sru_pdu_res,
-                                   sruinfo, explainnode);
-        mp_util::build_sru_response(package, odr_en, soap,
-                           sru_pdu_res, charset, stylesheet);
+        if (soap)
+        {
+            mp_util::build_sru_explain(package, odr_en, sru_pdu_res,
+                                       sruinfo, explainnode);
+            mp_util::build_sru_response(package, odr_en, soap,
+                                        sru_pdu_res, charset, stylesheet);
+        }
+        else
+        {
+            // not SRU at all, so there is no SOAP package to return
+            package.response() = odr_en.create_HTTP_Response(
+                package.session(), zgdu_req->u.HTTP_Request, 400);
+        }
         package.session().close();
         return;
     }
-- 
2.43.0


From 84d8fc775d8e6ba7c2a5127712a2127c3e59e914 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:04:13 +0000
Subject: [PATCH 66/67] fix: z3950_client: charset proposal does not replace
 other information of the client

---
 src/filter_z3950_client.cpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/filter_z3950_client.cpp b/src/filter_z3950_client.cpp
index 1687455..748e542 100644
--- a/src/filter_z3950_client.cpp
+++ b/src/filter_z3950_client.cpp
@@ -507,16 +507,28 @@ static void set_charset_proposal(ODR odr, Z_InitRequest *req, const char *charse
                 return;
         }
     }
-    if ((oi = yaz_oi_update(p, odr, 0, 0, 0)))
-    {
-        ODR_MASK_SET(req->options, Z_Options_negotiationModel);
-        oi->which = Z_OtherInfo_externallyDefinedInfo;
-        oi->information.externallyDefinedInfo =
-            yaz_set_proposal_charneg_list(odr, ",",
-                                          charset,
-                                          0 /* lang */,
-                                          1 /* records included */);
-    }
+    // append: yaz_oi_update without category would replace a unit of the client
+    int num = *p ? (*p)->num_elements : 0;
+    Z_OtherInformation *list =
+        (Z_OtherInformation *) odr_malloc(odr, sizeof(*list));
+    list->num_elements = num + 1;
+    list->list = (Z_OtherInformationUnit **)
+        odr_malloc(odr, (num + 1) * sizeof(*list->list));
+    int i;
+    for (i = 0; i < num; i++)
+        list->list[i] = (*p)->list[i];
+    oi = (Z_OtherInformationUnit *) odr_malloc(odr, sizeof(*oi));
+    list->list[num] = oi;
+    *p = list;
+
+    ODR_MASK_SET(req->options, Z_Options_negotiationModel);
+    oi->category = 0;
+    oi->which = Z_OtherInfo_externallyDefinedInfo;
+    oi->information.externallyDefinedInfo =
+        yaz_set_proposal_charneg_list(odr, ",",
+                                      charset,
+                                      0 /* lang */,
+                                      1 /* records included */);
 }
 
 void yf::Z3950Client::Rep::send_and_receive(Package &package,
-- 
2.43.0


From cb6874f1bd079a81965e36cfa5e553d6c7708db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:42 +0000
Subject: [PATCH 67/67] fix: multi: records returned with a search are in the
 element set asked for

---
 src/filter_multi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index c053647..3ddb596 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -731,6 +731,8 @@ void yf::Multi::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
         Z_APDU *p_apdu = zget_APDU(odr, Z_APDU_presentRequest);
         Z_PresentRequest *p_req = p_apdu->u.presentRequest;
         p_req->preferredRecordSyntax = req->preferredRecordSyntax;
+        p_req->recordComposition =
+            mp::util::piggyback_to_RecordComposition(odr, result_set_size, req);
         p_req->resultSetId = req->resultSetName;
         *p_req->resultSetStartPoint = 1;
         *p_req->numberOfRecordsRequested = number;
-- 
2.43.0

