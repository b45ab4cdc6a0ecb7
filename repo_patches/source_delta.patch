From 347227525990836109311d7e8eb17cfca6dd39bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 01/44] fix: keep double parentheses in paths and split URIs
 that have no authority

---
 abl/vpath/base/uriparse.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index e5524b4..7645ff0 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -65,18 +65,21 @@ def urisplit(uri):
        ('scheme', 'authority', 'path', 'query', 'fragment')
 
     """
-    inner_part = re.compile(r'\(\(.*?\)\)')
-    m = inner_part.search(uri)
+    # only the authority can be an enclosing uri; elsewhere, double
+    # parentheses are ordinary characters
+    inner_part = re.compile(r'[^:/?#]+://(\(\(.*?\)\))')
+    m = inner_part.match(uri)
     inner_value = ''
     if m is not None:
-        inner_value = uri[m.start():m.end()]
-        uri = uri[:m.start()]+'__inner_part__'+uri[m.end():]
+        inner_value = m.group(1)
+        uri = uri[:m.start(1)]+'__inner_part__'+uri[m.end(1):]
     # regex straight from STD 66 section B
     regex = '^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?'
     p = re.match(regex, uri).groups()
     scheme, authority, path, query, fragment = p[1], p[3], p[4], p[6], p[8]
     #if not path: path = None
-    authority = authority.replace('__inner_part__', inner_value)
+    if m is not None:
+        authority = authority.replace('__inner_part__', inner_value)
     if authority == '.':
         path = ''.join([authority, path])
         authority = None
-- 
2.43.0


From cc342d89169c4acd0552c8831be4cff40b38feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 02/44] fix: keep '#' in paths with a query and at their end

---
 abl/vpath/base/uriparse.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 7645ff0..8e23d59 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -57,6 +57,13 @@ from __future__ import print_function
 
 import re
 
+def _split(uri):
+    # regex straight from STD 66 section B
+    regex = r'(?s)^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?'
+    p = re.match(regex, uri).groups()
+    return p[1], p[3], p[4], p[6], p[8]
+
+
 def urisplit(uri):
     """
        Basic URI Parser according to STD66 aka RFC3986
@@ -73,22 +80,19 @@ def urisplit(uri):
     if m is not None:
         inner_value = m.group(1)
         uri = uri[:m.start(1)]+'__inner_part__'+uri[m.end(1):]
-    # regex straight from STD 66 section B
-    regex = '^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?'
-    p = re.match(regex, uri).groups()
-    scheme, authority, path, query, fragment = p[1], p[3], p[4], p[6], p[8]
+    scheme, authority, path, query, fragment = _split(uri)
+    # bugfix: '#' might be a legal character in a file name
+    # it only has special meaning in urls
+    if scheme not in ['http', 'https']:
+        regex = r'(?s)([^:/?#]+:)?(//[^/?#]*)?([^?]*)(\?(.*))?'
+        p = re.match(regex, uri).groups()
+        path, query, fragment = p[2], p[4], None
     #if not path: path = None
     if m is not None:
         authority = authority.replace('__inner_part__', inner_value)
     if authority == '.':
         path = ''.join([authority, path])
         authority = None
-    # bugfix: '#' might be a legal character in a file name
-    # it only has special meaning in urls
-    if scheme not in ['http', 'https']:
-        if fragment:
-            path = '#'.join([path, fragment])
-            fragment = ''
     return (scheme, authority, path, query, fragment)
 
 
-- 
2.43.0


From eecaa9d0193176b556dbf42bab55a83452c7535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 03/44] fix: relative paths like '../a' and '.hidden/a' stay
 relative

---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 0248be2..148ffc8 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -277,7 +277,7 @@ class BaseUri(object):
             if uri.startswith('file://'):
                 uri = uri[7:]
             uri = normalize_uri(uri, '\\')
-            if not '://' in uri and not (uri.startswith('/') or uri.startswith('.')):
+            if not '://' in uri and not (uri == '.' or uri.startswith(('/', './'))):
                 uri = './'+uri
             if not '://' in uri:
                 uri = 'file://'+uri
-- 
2.43.0


From 788ae53d13d37401fec50bef7bd775bba550565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 04/44] fix: hidden files in the root directory are absolute
 paths

---
 abl/vpath/base/fs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 148ffc8..ddba0db 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -234,6 +234,9 @@ def with_connection(func, self, *args, **argd):
 
 scheme_re = re.compile("([a-z+-]+)://")
 
+# '/./a' and '/../a' denote relative paths, '/.a' is a hidden file in the root
+dot_path_re = re.compile(r"/\.\.?(/|$)")
+
 def URI(uri, sep=os.sep, **extras):
     scheme = 'file'
     if isinstance(uri, BaseUri):
@@ -334,7 +337,7 @@ class BaseUri(object):
     @property
     def path(self):
         path = self.parse_result.path
-        parsed_path = path[1:] if path.startswith("/.") else path
+        parsed_path = path[1:] if dot_path_re.match(path) else path
 
         if os.name == "nt" and self.scheme == "file":
             parsed_path = os.path.normpath(re.sub(r"^/([a-zA-Z])/", r"\1:/", parsed_path))
@@ -407,7 +410,7 @@ class BaseUri(object):
     @property
     def is_absolute(self):
         path = self.parse_result.path
-        if path.startswith('/.'):
+        if dot_path_re.match(path):
             path = path[1:]
         return path.startswith('/')
 
-- 
2.43.0


From a4b3c4aff6b4f970236faa0412713793389774f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 05/44] fix: derive URIs from the current path, scheme, query
 and login instead of the original text

---
 abl/vpath/base/fs.py | 67 +++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 38 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index ddba0db..cb9182b 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1,4 +1,5 @@
 import atexit
+import copy
 from collections import defaultdict
 import fnmatch
 import hashlib
@@ -272,10 +273,15 @@ class BaseUri(object):
         self._scheme = ''
         self.connection = None
         if isinstance(uri, BaseUri):
+            # take over the current state, which might differ from the text
+            # 'uri' was made of
             self.uri = uri.uri
             self.sep = uri.sep
-            self.parse_result = UriParse(uri.uri)
+            self.parse_result = copy.copy(uri.parse_result)
+            self.parse_result.query = uri.query.copy()
             self.extras = uri.extras.copy()
+            self.username = uri.username
+            self.password = uri.password
         else:
             if uri.startswith('file://'):
                 uri = uri[7:]
@@ -397,13 +403,18 @@ class BaseUri(object):
 
 
     def __add__(self, suffix):
-        path = self.uri + suffix
-        result = self.__class__(
-            path,
-            sep=self.sep,
-            **self._extras()
-            )
-        result.parse_result.query = self.query.copy()
+        return self._derive(self.parse_result.path + suffix)
+
+
+    def _derive(self, path):
+        """
+        _derive: a URI with the given path that agrees with self in everything
+        else (scheme, host, login, query and extra arguments).
+        """
+        result = self.__class__(self, sep=self.sep)
+        result.parse_result.path = path.replace('\\', '/')
+        result.parse_result.fragment = ''
+        result.uri = uri_from_parts(result.parse_result.as_list())
         return result
 
 
@@ -423,23 +434,14 @@ class BaseUri(object):
         @return: a 2 tuple. The first element is a URI instance and the second
                  a string, representing the basename.
         """
-        try:
-            first, second = self.uri.rsplit('/', 1)
-        except ValueError:
-            first = ''
-            second = self.uri
-        # we might be already on the root
-        if first.endswith('//'):
-            first = first + '/'
-        if not first:
-            first = '.'
-        return (self.__class__(
-            first,
-            sep=self.sep,
-            **self._extras()
-            ),
-            second.partition('?')[0]
-            )
+        path = self.parse_result.path
+        if '/' in path:
+            first, second = path.rsplit('/', 1)
+            # we might be already on the root
+            first = first or '/'
+        else:
+            first = second = path
+        return self._derive(first), second
 
 
     def directory(self, level=1):
@@ -478,7 +480,7 @@ class BaseUri(object):
         @return: last part of uri
         @rvalue: str
         """
-        parts = self.uri.split('/')
+        parts = self.parse_result.path.split('/')
         if not parts:
             return ''
         if len(parts) > 1:
@@ -505,18 +507,7 @@ class BaseUri(object):
             [x.strip('/') for x in args[:-1]] +
             [args[-1]]
             )
-        parts = self.parse_result.as_list()
-        parts[2] = '/'.join(args)
-
-        result = self.__class__(
-            uri_from_parts(parts),
-            sep=sep,
-            **self._extras()
-            )
-
-        result.parse_result.query = self.query.copy()
-
-        return result
+        return self._derive('/'.join(args))
 
 
     @with_connection
-- 
2.43.0


From 39bb321fe85d9029e589939de9a79629d19ea516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 06/44] fix: a login given as argument works for URIs without
 host and as query argument

---
 abl/vpath/base/fs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index cb9182b..fb9cbd5 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -294,12 +294,12 @@ class BaseUri(object):
             self.sep = sep
             self.parse_result = UriParse(uri)
             self.extras = extras
-        if self.username is None:
+        if not self.username:
             if 'username' in self.extras:
                 self.username = self.extras.pop('username')
             elif 'username' in self.parse_result.query:
                 self.username = self.parse_result.query['username']
-        if self.password is None:
+        if not self.password:
             if 'password' in self.extras:
                 self.password = self.extras.pop('password')
             elif 'password' in self.parse_result.query:
@@ -314,7 +314,9 @@ class BaseUri(object):
         extras = self.extras.copy()
         if self.scheme not in ('http','https'):
             extras.update(self.query)
-
+        # the login is not an extra argument, see __init__
+        extras.pop('username', None)
+        extras.pop('password', None)
         return extras
 
 
-- 
2.43.0


From 626c705fbdc950fe7d5964f3885b108fbcaaa7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 07/44] fix: quote query arguments in the text form of a URI

---
 abl/vpath/base/simpleuri.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/simpleuri.py b/abl/vpath/base/simpleuri.py
index e33ae77..f78f743 100644
--- a/abl/vpath/base/simpleuri.py
+++ b/abl/vpath/base/simpleuri.py
@@ -22,10 +22,10 @@ def parse_query_string(query):
     result = {}
     qparts = query.split('&')
     for item in qparts:
-        key, value = item.split('=')
+        key, _, value = item.partition('=')
         key = key.strip()
         value = value.strip()
-        result[key] = unquote_plus(value)
+        result[unquote_plus(key)] = unquote_plus(value)
     return result
 
 class UriParse(object):
@@ -113,8 +113,7 @@ class UriParse(object):
 
     def __str__(self):
         if self.query:
-            qup = ['%s=%s' % (key, value) for key, value in list(self.query.items())]
-            rest = '?'+('&'.join(qup))
+            rest = '?'+urlencode(self.query)
         else:
             rest = ''
         if self.fragment:
-- 
2.43.0


From ddd1e160c0f981d725c173b6c7221c8973fb59b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 08/44] fix: paths in different archives are not equal

---
 abl/vpath/base/simpleuri.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abl/vpath/base/simpleuri.py b/abl/vpath/base/simpleuri.py
index f78f743..a8483c5 100644
--- a/abl/vpath/base/simpleuri.py
+++ b/abl/vpath/base/simpleuri.py
@@ -148,6 +148,7 @@ class UriParse(object):
         return (
             self.scheme == other.scheme and
             self.netloc == other.netloc and
+            self.vpath_connector == other.vpath_connector and
             self.path == other.path and
             self.query == other.query
             )
-- 
2.43.0


From e74996392cfd8bbba11fed4be75c561245b8c8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 09/44] fix: joining a split URI or authority keeps empty and
 missing components apart

---
 abl/vpath/base/uriparse.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 8e23d59..ac2c546 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -107,13 +107,13 @@ def uriunsplit(uri):
     result = ''
     if scheme:
         result += scheme + ':'
-    if authority:
+    if authority is not None:
         result += '//' + authority
     if path:
         result += path
-    if query:
+    if query is not None:
         result += '?' + query
-    if fragment:
+    if fragment is not None:
         result += '#' + fragment
     return result
 
@@ -153,13 +153,14 @@ def join_authority(authority):
     """
     (user, passwd, host, port) = authority
     result = ''
-    if user:
+    if user is not None:
         result += user
-        if passwd:
+        if passwd is not None:
             result += ':' + passwd
         result += '@'
-    result += host
-    if port:
+    if host is not None:
+        result += host
+    if port is not None:
         result += ':' + port
     return result
 
-- 
2.43.0


From 37a3eeb9eeb8cab92cbe7bf9b9a22408384f6280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 10/44] fix: urljoin resolves fragments, root-level bases and
 dot segments per RFC 3986, unparse inverts parse

---
 abl/vpath/base/uriparse.py | 48 ++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index ac2c546..b38dead 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -58,8 +58,9 @@ from __future__ import print_function
 import re
 
 def _split(uri):
-    # regex straight from STD 66 section B
-    regex = r'(?s)^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?'
+    # regex straight from STD 66 section B, plus an enclosing uri in double
+    # parentheses as authority; elsewhere, these are ordinary characters
+    regex = r'(?s)^(([^:/?#]+):)?(//(\(\(.*?\)\)|[^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?'
     p = re.match(regex, uri).groups()
     return p[1], p[3], p[4], p[6], p[8]
 
@@ -72,24 +73,17 @@ def urisplit(uri):
        ('scheme', 'authority', 'path', 'query', 'fragment')
 
     """
-    # only the authority can be an enclosing uri; elsewhere, double
-    # parentheses are ordinary characters
-    inner_part = re.compile(r'[^:/?#]+://(\(\(.*?\)\))')
-    m = inner_part.match(uri)
-    inner_value = ''
-    if m is not None:
-        inner_value = m.group(1)
-        uri = uri[:m.start(1)]+'__inner_part__'+uri[m.end(1):]
     scheme, authority, path, query, fragment = _split(uri)
     # bugfix: '#' might be a legal character in a file name
     # it only has special meaning in urls
     if scheme not in ['http', 'https']:
-        regex = r'(?s)([^:/?#]+:)?(//[^/?#]*)?([^?]*)(\?(.*))?'
-        p = re.match(regex, uri).groups()
-        path, query, fragment = p[2], p[4], None
+        if fragment is not None and query is None:
+            path, separator, query = '#'.join([path, fragment]).partition('?')
+            query = query if separator else None
+        elif fragment is not None:
+            query = '#'.join([query, fragment])
+        fragment = None
     #if not path: path = None
-    if m is not None:
-        authority = authority.replace('__inner_part__', inner_value)
     if authority == '.':
         path = ''.join([authority, path])
         authority = None
@@ -323,7 +317,8 @@ class URIParser(object):
         the rest of the pieces can be interpreted.
 
         """
-        return self.parser_for(pieces[0])(defaults).unparse(pieces)
+        scheme = pieces[0]
+        return scheme + ':' + self.parser_for(scheme)(defaults).unparse(pieces[1:])
 
     # these work on any URI
     def scheme_of(self, uri):
@@ -352,7 +347,7 @@ def _pathjoin(a,b):
     if not a or not b:
         return a or b
     elif not b.startswith('/'):
-        return a+'/'+b
+        return a.rstrip('/')+'/'+b
     else:
         return b
 
@@ -366,20 +361,23 @@ def urljoin(base, url):
 
     """
     import posixpath
-    bscheme, bauthority, bpath, bquery, bfragment = urisplit(base)
-    uscheme, uauthority, upath, uquery, ufragment = urisplit(url)
+    bscheme, bauthority, bpath, bquery, bfragment = _split(base)
+    uscheme, uauthority, upath, uquery, ufragment = _split(url)
     if uscheme is not None and bscheme != uscheme:
         return url
     if uauthority is not None:
-        bauthority, bpath, bquery, bfragment = \
-            uauthority, upath, uquery, ufragment
+        bauthority, bpath, bquery = uauthority, upath, uquery
+        if bpath != '':
+            bpath = posixpath.normpath(bpath)
     elif upath != '':
+        if bauthority is not None and bpath == '':
+            bpath = '/'
         bpath = posixpath.normpath(_pathjoin(_dirname(bpath), upath))
-        bquery, bfragment = uquery, ufragment
+        bquery = uquery
     elif uquery is not None:
-        bquery, bfragment = uquery, ufragment
-    elif ufragment is not None:
-        bfragment = ufragment
+        bquery = uquery
+    # the fragment is never inherited
+    bfragment = ufragment
     return uriunsplit((bscheme, bauthority, bpath, bquery, bfragment))
 
 
-- 
2.43.0


From c53ea705115fd26b8e0f43f136090b7aa8fc6b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 11/44] fix: memory links are followed if their name occurs
 again at the end of the path

---
 abl/vpath/base/memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index e8c7f65..c43e2d8 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -339,10 +339,10 @@ class MemoryFileSystem(FileSystem):
                        linklevel=0):
         prev = None
         current = base
-        for part in steps:
+        for i, part in enumerate(steps):
             prev = current
             if current.has(part):
-                is_last = part == steps[-1]
+                is_last = i == len(steps) - 1
                 current = self._child(current, part,
                                       resolve_link=follow_link if is_last else True,
                                       throw=throw,
-- 
2.43.0


From 769cb4ce2731560117c3d3e22f0a32d7380490be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 12/44] fix: memory paths through files and operations on
 directories fail like on disk

---
 abl/vpath/base/memory.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index c43e2d8..2a76baa 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -341,12 +341,21 @@ class MemoryFileSystem(FileSystem):
         current = base
         for i, part in enumerate(steps):
             prev = current
+            if current.kind != NodeKind.DIR:
+                if throw:
+                    raise self.lookup_exc_class(errno.ENOTDIR,
+                                                "Not a directory: %s" % '/'.join(steps))
+                else:
+                    return [None, None]
             if current.has(part):
                 is_last = i == len(steps) - 1
                 current = self._child(current, part,
                                       resolve_link=follow_link if is_last else True,
                                       throw=throw,
                                       linklevel=linklevel)
+                if current is None:
+                    # a dangling link
+                    return [None, None]
             else:
                 if throw:
                     p = '/'.join(steps)
@@ -363,6 +372,14 @@ class MemoryFileSystem(FileSystem):
         return current
 
 
+    def _get_dir(self, steps):
+        nd = self._get_node(self._fs, steps)
+        if nd.kind != NodeKind.DIR:
+            raise self.lookup_exc_class(errno.ENOTDIR,
+                                        "Not a directory: %s" % '/'.join(steps))
+        return nd
+
+
     def _get_node_for_path(self, base, unc, follow_link=True, throw=True,
                            linklevel=0):
         p = self._path(unc)
@@ -422,7 +439,7 @@ class MemoryFileSystem(FileSystem):
     def mkdir(self, path):
         p = self._path(path)
         if p:
-            nd = self._get_node(self._fs, p.split("/")[:-1])
+            nd = self._get_dir(p.split("/")[:-1])
             dir_to_create = p.split("/")[-1]
             if nd.has(dir_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(path))
@@ -450,13 +467,17 @@ class MemoryFileSystem(FileSystem):
 
     def _open_for_read(self, path, binary=False):
         nd = self._get_node_for_path(self._fs, path)
+        if nd.kind == NodeKind.DIR:
+            raise IOError(errno.EISDIR, "File is directory" )
         nd.seek(0)
         return MemoryFileProxy(nd, True, binary=binary)
 
 
     def _open_for_write(self, path, binary=False):
         p = self._path(path)
-        nd = self._get_node(self._fs, p.split("/")[:-1])
+        if not p:
+            raise IOError(errno.EISDIR, "File is directory" )
+        nd = self._get_dir(p.split("/")[:-1])
         file_to_create = p.split("/")[-1]
 
         if nd.has(file_to_create):
@@ -541,8 +562,7 @@ class MemoryFileSystem(FileSystem):
 
 
     def listdir(self, path):
-        nd = self._get_node(self._fs,
-                            [x for x in self._path(path).split("/") if x])
+        nd = self._get_dir([x for x in self._path(path).split("/") if x])
         return sorted(nd.keys())
 
 
@@ -614,7 +634,7 @@ class MemoryFileSystem(FileSystem):
     def symlink(self, target, link_name):
         p = self._path(link_name)
         if p:
-            nd = self._get_node(self._fs, p.split("/")[:-1])
+            nd = self._get_dir(p.split("/")[:-1])
             file_to_create = p.split("/")[-1]
             if nd.has(file_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
-- 
2.43.0


From 8d0944e70e51f0ffeb8aebd8ef5c08ea1adb3b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 13/44] fix: memory paths may end with a slash

---
 abl/vpath/base/memory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 2a76baa..24f2f35 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -394,8 +394,8 @@ class MemoryFileSystem(FileSystem):
         p = super(MemoryFileSystem, self)._path(path)
         # cut off leading slash, that's our root
         assert p.startswith("/")
-        p = p[1:]
-        return p
+        # additional and trailing slashes have no meaning
+        return "/".join(x for x in p.split("/") if x)
 
 
     def isdir(self, path):
@@ -575,14 +575,14 @@ class MemoryFileSystem(FileSystem):
                                         [x for x in self._path(path).split("/") if x],
                                         follow_link=False)
         if parent is not None:
-            self._del_child(parent, path.last())
+            self._del_child(parent, self._path(path).split("/")[-1])
 
 
     def removedir(self, path):
         prev, _ = self._get_node_prev(self._fs,
                                             [x for x in self._path(path).split("/") if x])
         if prev is not None:
-            part = path.last()
+            part = self._path(path).split("/")[-1]
             if self._child(prev, part).isempty():
                 self._del_child(prev, part)
             else:
-- 
2.43.0


From af5747bec0afd869d551d6a414d4fcaed4f30d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 14/44] fix: memory islink below a link loop is False, creating
 the root is an error

---
 abl/vpath/base/memory.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 24f2f35..4e5e4d4 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -444,6 +444,8 @@ class MemoryFileSystem(FileSystem):
             if nd.has(dir_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(path))
             self._create_child(nd, dir_to_create, MemoryDir())
+        else:
+            raise OSError(errno.EEXIST, "File exists: %r" % str(path))
 
 
     def exists(self, path):
@@ -623,11 +625,15 @@ class MemoryFileSystem(FileSystem):
 
     def islink(self, path):
         if self._path(path):
-            nd = self._get_node_for_path(self._fs, path, follow_link=False,
-                                         throw=False)
-            if nd is None:
-                return False
-            return nd.kind == NodeKind.LINK
+            try:
+                nd = self._get_node_for_path(self._fs, path, follow_link=False,
+                                             throw=False)
+                if nd is None:
+                    return False
+                return nd.kind == NodeKind.LINK
+            except OSError as e:
+                if e.errno == errno.ELOOP:
+                    return False
         return False
 
 
@@ -639,6 +645,8 @@ class MemoryFileSystem(FileSystem):
             if nd.has(file_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
             self._create_child(nd, file_to_create, MemorySymlink(target))
+        else:
+            raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
 
 
     def readlink(self, path):
-- 
2.43.0


From af0a87f231e8a9e0f0f76524ef073439e5ff6bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 15/44] fix: appending to empty and missing memory files

---
 abl/vpath/base/memory.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 4e5e4d4..5fe664b 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -45,11 +45,7 @@ class MemoryFile(object):
 
 
     def __len__(self):
-        pos = self._data.tell()
-        self._data.seek(-1,2)
-        length = self._data.tell() + 1
-        self._data.seek(pos)
-        return length
+        return self.size()
 
 
     def size(self):
@@ -495,7 +491,13 @@ class MemoryFileSystem(FileSystem):
 
 
     def _open_for_append(self, path, binary=False):
+        p = self._path(path)
+        if not self.exists(path) and not self.islink(path):
+            nd = self._get_dir(p.split("/")[:-1])
+            self._create_child(nd, p.split("/")[-1], MemoryFile(p))
         nd = self._get_node_for_path(self._fs, path)
+        if nd.kind == NodeKind.DIR:
+            raise IOError(errno.EISDIR, "File is directory" )
         nd.seek(len(nd))
         return MemoryFileProxy(nd, False, binary=binary)
 
-- 
2.43.0


From 9a2bbb4caf2bc35bb244f99303f8845d67b0800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 16/44] fix: overwriting a memory file keeps its mode

---
 abl/vpath/base/memory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 5fe664b..9a4d97a 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -40,7 +40,6 @@ class MemoryFile(object):
         self._data = BytesIO()
         self._line_reader = None
         self.mtime = self.ctime = time.time()
-        self.mode = 0
         self.lock = self.FILE_LOCKS[self.path]
 
 
-- 
2.43.0


From b9924813bba5e87573b9aca9d4220397469fbbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 17/44] fix: memory file objects check their mode, append at
 the end and return positions and counts

---
 abl/vpath/base/memory.py | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 9a4d97a..379124a 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -52,8 +52,9 @@ class MemoryFile(object):
 
 
     def write(self, d):
-        self._data.write(d)
+        written = self._data.write(d)
         self.mtime = time.time()
+        return written
 
 
     def read(self, size=-1):
@@ -61,7 +62,7 @@ class MemoryFile(object):
 
 
     def seek(self, to, whence=0):
-        self._data.seek(to, whence)
+        return self._data.seek(to, whence)
 
 
     def seekable(self):
@@ -131,10 +132,18 @@ class MemoryFile(object):
 
 class MemoryFileProxy(object):
 
-    def __init__(self, mem_file, readable, binary=False):
+    def __init__(self, mem_file, readable, binary=False, writable=True,
+                 append=False):
         self.mem_file = mem_file
         self.readable = readable
         self.binary = binary
+        self.writable = writable
+        self.append = append
+
+
+    def _check_readable(self):
+        if not self.readable:
+            raise IOError(errno.EBADF, "bad file descriptor")
 
 
     def encode(self, data):
@@ -146,13 +155,17 @@ class MemoryFileProxy(object):
 
 
     def read(self, *args, **kwargs):
-        if not self.readable:
-            raise IOError(errno.EBADF, "bad file descriptor")
+        self._check_readable()
         return self.decode(self.mem_file.read(*args, **kwargs))
 
 
     def write(self, data, *args, **kwargs):
-        return self.mem_file.write(self.encode(data), *args, **kwargs)
+        if not self.writable:
+            raise IOError(errno.EBADF, "bad file descriptor")
+        if self.append:
+            self.mem_file.seek(0, 2)
+        self.mem_file.write(self.encode(data), *args, **kwargs)
+        return len(data)
 
 
     def __getattr__(self, name):
@@ -172,6 +185,7 @@ class MemoryFileProxy(object):
 
 
     def __next__(self):
+        self._check_readable()
         return self.decode(next(self.mem_file))
 
 
@@ -179,12 +193,13 @@ class MemoryFileProxy(object):
 
 
     def readline(self):
+        self._check_readable()
         return self.decode(self.mem_file.readline())
 
 
     def readlines(self):
-        for line in self.mem_file.readlines():
-            yield self.decode(line)
+        self._check_readable()
+        return [self.decode(line) for line in self.mem_file.readlines()]
 
 
 class MemoryDir(object):
@@ -462,12 +477,12 @@ class MemoryFileSystem(FileSystem):
             self.next_op_callbacks[p](path, func)
 
 
-    def _open_for_read(self, path, binary=False):
+    def _open_for_read(self, path, binary=False, writable=False):
         nd = self._get_node_for_path(self._fs, path)
         if nd.kind == NodeKind.DIR:
             raise IOError(errno.EISDIR, "File is directory" )
         nd.seek(0)
-        return MemoryFileProxy(nd, True, binary=binary)
+        return MemoryFileProxy(nd, True, binary=binary, writable=writable)
 
 
     def _open_for_write(self, path, binary=False):
@@ -498,14 +513,15 @@ class MemoryFileSystem(FileSystem):
         if nd.kind == NodeKind.DIR:
             raise IOError(errno.EISDIR, "File is directory" )
         nd.seek(len(nd))
-        return MemoryFileProxy(nd, False, binary=binary)
+        return MemoryFileProxy(nd, False, binary=binary, append=True)
 
 
     def open(self, path, options, mimetype):
         with LookupExceptionClass(self, IOError):
             binary = (options and "b" in options)
             if options is None or "r" in options:
-                return self._open_for_read(path, binary=binary)
+                writable = bool(options and "+" in options)
+                return self._open_for_read(path, binary=binary, writable=writable)
             elif "w" in options:
                 return self._open_for_write(path, binary=binary)
             elif "a" in options:
-- 
2.43.0


From ea131ff5be0dc7369cdaa3dd5542c26861374810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 18/44] fix: memory locks are taken before the file is
 truncated, belong to one file system and are always released

---
 abl/vpath/base/memory.py | 50 +++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 379124a..7d560e4 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -25,22 +25,19 @@ class MemoryFile(object):
 
     kind = NodeKind.FILE
 
-    FILE_LOCKS = defaultdict(threading.Lock)
-
-    def __init__(self, path):
+    def __init__(self, path, lock):
         self.path = path
         self._data = BytesIO()
         self._line_reader = None
         self.mtime = self.ctime = time.time()
         self.mode = 0
-        self.lock = self.FILE_LOCKS[self.path]
+        self.lock = lock
 
 
     def reset(self):
         self._data = BytesIO()
         self._line_reader = None
         self.mtime = self.ctime = time.time()
-        self.lock = self.FILE_LOCKS[self.path]
 
 
     def __len__(self):
@@ -275,20 +272,28 @@ class MemoryLock(object):
 
 
     def __enter__(self):
-        mfile = self.fs.open(self.path, "w", mimetype='application/octet-stream')
-        self.lock = mfile.lock
+        lock = self.fs.lock_for_path(self.path)
         if self.fail_on_lock:
-            if not self.lock.acquire(False):
+            if not lock.acquire(False):
                 raise LockFileObtainException
         else:
-            self.lock.acquire()
+            lock.acquire()
+        # opening truncates the file, only the holder of the lock may do that
+        try:
+            mfile = self.fs.open(self.path, "w", mimetype='application/octet-stream')
+        except:
+            lock.release()
+            raise
+        self.lock = lock
         return mfile
 
 
     def __exit__(self, unused_exc_type, unused_exc_val, unused_exc_tb):
-        self.lock.release()
-        if self.cleanup:
-            self.path.remove()
+        try:
+            if self.cleanup and self.fs.exists(self.path):
+                self.fs.removefile(self.path)
+        finally:
+            self.lock.release()
 
 
 class LookupExceptionClass(object):
@@ -318,7 +323,15 @@ class MemoryFileSystem(FileSystem):
         self.lookup_exc_class = OSError
         self._fs = MemoryDir()
         self.next_op_callbacks = {}
-        MemoryFile.FILE_LOCKS.clear()
+        self._file_locks = defaultdict(threading.Lock)
+
+
+    def lock_for_path(self, path):
+        "the lock of the file at path, whether it exists or not"
+        nd = self._get_node_for_path(self._fs, path, throw=False)
+        if nd is not None and nd.kind == NodeKind.FILE:
+            return nd.lock
+        return self._file_locks[self._path(path)]
 
 
     def _child(self, parent, name, resolve_link=True, throw=True, linklevel=0):
@@ -499,7 +512,7 @@ class MemoryFileSystem(FileSystem):
             cnd.reset()
             return MemoryFileProxy(cnd, False, binary=binary)
         else:
-            f = MemoryFile(p)
+            f = MemoryFile(p, self.lock_for_path(path))
             self._create_child(nd, file_to_create, f)
             return MemoryFileProxy(f, False, binary=binary)
 
@@ -508,7 +521,8 @@ class MemoryFileSystem(FileSystem):
         p = self._path(path)
         if not self.exists(path) and not self.islink(path):
             nd = self._get_dir(p.split("/")[:-1])
-            self._create_child(nd, p.split("/")[-1], MemoryFile(p))
+            self._create_child(nd, p.split("/")[-1],
+                               MemoryFile(p, self.lock_for_path(path)))
         nd = self._get_node_for_path(self._fs, path)
         if nd.kind == NodeKind.DIR:
             raise IOError(errno.EISDIR, "File is directory" )
@@ -617,14 +631,12 @@ class MemoryFileSystem(FileSystem):
     def _manipulate(self, path, lock=SENTINEL, unlock=SENTINEL, mtime=SENTINEL,
                     next_op_callback=SENTINEL):
         if lock is not self.SENTINEL and lock:
-            p = self._path(path)
-            lock = MemoryFile(p).lock
+            lock = self.lock_for_path(path)
             res = lock.acquire()
             assert res, "you tried to double-lock a file, that's currently not supported"
 
         if unlock is not self.SENTINEL and unlock:
-            p = self._path(path)
-            lock = MemoryFile(p).lock
+            lock = self.lock_for_path(path)
             lock.release()
 
         if mtime is not self.SENTINEL:
-- 
2.43.0


From 9a0f4b2411c2e200e6e4130458ee121342babc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 19/44] fix: the memory dump shows complete files and leaves
 their position alone

---
 abl/vpath/base/memory.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 7d560e4..fb9cfcd 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -552,15 +552,13 @@ class MemoryFileSystem(FileSystem):
         def traverse(current, path="memory:///"):
             for name, value in sorted(current.items()):
                 if value.kind == NodeKind.FILE:
-                    if no_binary:
-                        mt, _ = mimetypes.guess_type(name)
-                        if mt in self.BINARY_MIME_TYPES:
-                            hash_ = hashlib.md5()
-                            hash_.update(value)
-                            value = "Binary: %s" % hash_.hexdigest()
-                    proxy = MemoryFileProxy(value, readable=True, binary=False)
+                    content = bytes(value)
+                    if no_binary and mimetypes.guess_type(name)[0] in self.BINARY_MIME_TYPES:
+                        content = "Binary: %s" % hashlib.md5(content).hexdigest()
+                    else:
+                        content = content.decode('utf-8')
                     outf.write("--- START %s%s ---\n" % (path, name))
-                    outf.write(proxy.read())
+                    outf.write(content)
                     outf.write("\n--- END ---\n\n")
                 elif value.kind == NodeKind.LINK:
                     outf.write("LINK: %s%s -> %s\n" % (path, name, value.target))
-- 
2.43.0


From 70b91bddd40d6076cb3d033fc437d6bc287a5fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 20/44] fix: memory copystat finds a destination in another
 memory file system

---
 abl/vpath/base/memory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index fb9cfcd..5b74ef3 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -587,7 +587,9 @@ class MemoryFileSystem(FileSystem):
 
     def copystat(self, src, dest):
         src_current = self._get_node_for_path(self._fs, src)
-        dest_current = self._get_node_for_path(self._fs, dest)
+        # dest might be in another memory file system
+        dest_fs = dest.get_connection()
+        dest_current = dest_fs._get_node_for_path(dest_fs._fs, dest)
         dest_current.mtime = src_current.mtime
         dest_current.mode = src_current.mode
 
-- 
2.43.0


From c11339ad8363735bf380e40d1bec5860f7535005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 21/44] fix: a raising memory callback can be removed again

---
 abl/vpath/base/fs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index fb9cbd5..2c5f68d 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -808,14 +808,17 @@ class BaseUri(object):
         return self.connection.lock(self, fail_on_lock, cleanup)
 
 
-    @with_connection
     def _manipulate(self, *args, **kwargs):
         """
         This is a semi-private method. It's current use is to
         manipulate memory file system objects so that
         you can create certain conditions, to provoke
         errors that otherwise won't occur.
+        It is not subject to these conditions itself, so that they can always
+        be changed or removed.
         """
+        self.connection = self.get_connection()
+        self.connection.last_used = time.time()
         self.connection._manipulate(self, *args, **kwargs)
 
 
-- 
2.43.0


From f221823a43a03caa984c37789c3a58149f00dfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 22/44] fix: copying a link between backends creates the link
 in the destination's backend

---
 abl/vpath/base/fs.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 2c5f68d..061db89 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -893,10 +893,14 @@ class FileSystem(object):
 
 
     def _copy_link(self, source, dest):
-        assert self.islink(source)
+        target = source.readlink()
+        connection = dest.get_connection()
+        if source.get_connection() is not connection:
+            # the target is to be found in the file system of the new link
+            target = dest._derive(target.parse_result.path)
         if dest.isfile():
-            self.removefile(dest)
-        self.symlink(self.readlink(source), dest)
+            connection.removefile(dest)
+        connection.symlink(target, dest)
 
 
     def copy(self, source, dest, recursive=False, ignore=None,
-- 
2.43.0


From e090b0de42df4de0c1406c6bfb2f2d6bf53853a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 23/44] fix: recursive copy of the root, of paths ending with a
 slash and of names with surrounding spaces

---
 abl/vpath/base/fs.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 061db89..9466a08 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -941,11 +941,9 @@ class FileSystem(object):
                 self._copy_link(source, droot)
             else:
                 droot.makedirs()
-                spth = source.path
-                spth_len = len(spth) + 1
+                spth_len = len(source.path.rstrip('/\\'))
                 for root, dirs, files in source.walk(followlinks=followlinks):
-                    rpth = root.path
-                    tojoin = rpth[spth_len:].strip()
+                    tojoin = root.path[spth_len:].strip('/\\')
                     if tojoin:
                         dbase = droot / tojoin
                     else:
-- 
2.43.0


From b58aeecd55a7d77ab5b2d55d9555ac72a1bba575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 24/44] fix: copying a file onto itself or a directory into
 itself is an error instead of destroying it

---
 abl/vpath/base/fs.py      | 66 ++++++++++++++++++++++++++++-----------
 abl/vpath/base/localfs.py |  9 ++++++
 2 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 9466a08..29d0c7e 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -903,13 +903,55 @@ class FileSystem(object):
         connection.symlink(target, dest)
 
 
+    def _real_path(self, path, linklevel=0):
+        """
+        the path string of path with all symbolic links resolved
+        """
+        current = path._derive('/')
+        names = [x for x in path.parse_result.path.split('/') if x]
+        for i, name in enumerate(names):
+            current = current / name
+            if linklevel < 32 and self.islink(current):
+                target = self.readlink(current)
+                return self._real_path(target / '/'.join(names[i + 1:]),
+                                       linklevel + 1)
+        return current.path
+
+
+    def _is_same_file(self, source, dest):
+        return (source.get_connection() is dest.get_connection() and
+                dest.exists() and source.exists() and
+                self._real_path(source) == self._real_path(dest))
+
+
+    def _is_inside(self, dest, source):
+        """
+        is dest, which might not exist, the directory source or below it?
+        """
+        if source.get_connection() is not dest.get_connection():
+            return False
+        outer = self._real_path(source).rstrip('/') + '/'
+        return (self._real_path(dest) + '/').startswith(outer)
+
+
+    def _copy_file(self, source, dest, followlinks):
+        if self._is_same_file(source, dest):
+            raise shutil.SameFileError("%s and %s are the same file" % (source, dest))
+        if source.islink() and not followlinks:
+            self._copy_link(source, dest)
+        else:
+            with source.open('rb') as infs, dest.open('wb') as outfs:
+                shutil.copyfileobj(infs, outfs, 8192)
+            # properties are only copied within one backend
+            if source.scheme == dest.scheme:
+                self.copystat(source, dest)
+
+
     def copy(self, source, dest, recursive=False, ignore=None,
              followlinks=True):
         if source.connection is dest.connection and hasattr(self, 'internal_copy'):
             return self.internal_copy(source, dest, recursive, ignore)
 
-        use_same_backend = source.scheme == dest.scheme
-
         if ignore is not None:
             ignore = set(ignore)
         else:
@@ -923,13 +965,7 @@ class FileSystem(object):
             if dest.isdir():
                 dest = dest / source.last()
 
-            if source.islink() and not followlinks:
-                self._copy_link(source, dest)
-            else:
-                with source.open('rb') as infs, dest.open('wb') as outfs:
-                    shutil.copyfileobj(infs, outfs, 8192)
-                if use_same_backend:
-                    self.copystat(source, dest)
+            self._copy_file(source, dest, followlinks)
         else:
             assert source.isdir()
             if dest.isdir():
@@ -939,6 +975,8 @@ class FileSystem(object):
 
             if source.islink() and not followlinks:
                 self._copy_link(source, droot)
+            elif self._is_inside(droot, source):
+                raise shutil.Error("Cannot copy %s into itself: %s" % (source, droot))
             else:
                 droot.makedirs()
                 spth_len = len(source.path.rstrip('/\\'))
@@ -961,15 +999,7 @@ class FileSystem(object):
                             ddir.makedirs()
 
                     for fname in files:
-                        srcf = root / fname
-                        destf = dbase / fname
-                        if srcf.islink() and not followlinks:
-                            self._copy_link(srcf, destf)
-                        else:
-                            with srcf.open('rb') as infs, destf.open('wb') as outfs:
-                                shutil.copyfileobj(infs, outfs, 8192)
-                            if use_same_backend:
-                                self.copystat(srcf, destf)
+                        self._copy_file(root / fname, dbase / fname, followlinks)
 
 
     def makedirs(self, path):
diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index ecf3857..208db30 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -150,6 +150,15 @@ class LocalFileSystem(FileSystem):
             return super(LocalFileSystem, self).move(source, dest)
 
 
+    def _real_path(self, path, linklevel=0):
+        return os.path.realpath(self._path(path))
+
+
+    def _is_same_file(self, source, dest):
+        return (dest.scheme == self.scheme and dest.exists() and source.exists() and
+                os.path.samefile(self._path(source), self._path(dest)))
+
+
     def lock(self, path, fail_on_lock, cleanup):
         return LockFile(self._path(path), fail_on_lock=fail_on_lock, cleanup=cleanup)
 
-- 
2.43.0


From 921487994c9f5dcd6915427f97f35fd4b7fe8426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 25/44] fix: moving keeps symbolic links

---
 abl/vpath/base/fs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 29d0c7e..6964762 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1019,10 +1019,10 @@ class FileSystem(object):
         the semantic should be like unix 'mv' command
         """
         if source.isfile():
-            source.copy(destination)
+            source.copy(destination, followlinks=False)
             source.remove()
         else:
-            source.copy(destination, recursive=True)
+            source.copy(destination, recursive=True, followlinks=False)
             source.remove('r')
 
 
-- 
2.43.0


From 00e49fcfb6534f8b40490ed2da6f5155426695df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 26/44] fix: concurrent requests and clean-up never produce two
 connections or a closed one

---
 abl/vpath/base/fs.py | 47 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 6964762..14f57f6 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -68,16 +68,36 @@ class ConnectionRegistry(object):
         self.run_clean_thread = True
         self.clean_interval = clean_interval
         self.clean_timeout = clean_timeout
+        # creation_locks: held while a connection of a scheme is created or
+        # closed; connections_lock: held for access to self.connections
+        self.creation_locks = defaultdict(threading.RLock)
+        self.connections_lock = threading.Lock()
         self.cleaner_thread = threading.Thread(target=self.cleaner)
         self.cleaner_thread.setDaemon(True)
         self.cleaner_thread.start()
-        self.creation_locks = defaultdict(threading.Lock)
+
+    def lookup(self, key):
+        """
+        lookup: the open connection for key, or None. A connection that is
+        returned is protected from the next clean-ups.
+        """
+        with self.connections_lock:
+            conn = self.connections.get(key)
+            if conn is not None:
+                conn.last_used = time.time()
+            return conn
 
 
     def create(self, scheme, key, extras):
         with self.creation_locks[scheme]:
-            conn = self.schemes[scheme](*key[1:-1], **extras)
-            self.connections[key] = conn
+            # it might have been created while we waited for the lock
+            conn = self.lookup(key)
+            if conn is None:
+                conn = self.schemes[scheme](*key[1:-1], **extras)
+                with self.connections_lock:
+                    conn.last_used = time.time()
+                    self.connections[key] = conn
+            return conn
 
 
     def get_connection(self,
@@ -127,21 +147,28 @@ class ConnectionRegistry(object):
             frozenset(extras.items())
             )
 
-        if not key in self.connections:
-            self.create(scheme, key, extras)
-        return self.connections[key]
+        conn = self.lookup(key)
+        if conn is None:
+            conn = self.create(scheme, key, extras)
+        return conn
 
 
     def cleanup(self, force=False):
-        now = time.time()
-        for key, conn in list(self.connections.items()):
-            if ((now - conn.last_used) > self.clean_timeout) or force:
+        with self.connections_lock:
+            candidates = list(self.connections.items())
+        for key, conn in candidates:
+            # a new connection is not created before the old one is closed
+            with self.creation_locks[key[0]]:
+                with self.connections_lock:
+                    stale = (time.time() - conn.last_used) > self.clean_timeout
+                    if not (stale or force) or self.connections.get(key) is not conn:
+                        continue
+                    del self.connections[key]
                 try:
                     conn.close()
                 except:
                     print("### Exception while closing connection %s" % conn)
                     traceback.print_exc()
-                del self.connections[key]
 
 
     def cleaner(self):
-- 
2.43.0


From 3bfa5dc8c474684902a0d2830763d2f444048e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:31 +0000
Subject: [PATCH 27/44] fix: zip members are written on close, with or without
 'with', whatever was read meanwhile

---
 abl/vpath/base/zip.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 62db8ab..202c279 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -22,9 +22,17 @@ class WriteStatement(object):
 
 
     def __exit__(self, etype, evalue, etraceback):
-        self.zip_backend._ziphandle.writestr(self.path_string,
-                                             self.byte_buffer.getvalue())
+        self.close()
+
+
+    def close(self):
+        if self.byte_buffer.closed:
+            return
+        content = self.byte_buffer.getvalue()
         self.byte_buffer.close()
+        # the archive might have been opened for reading in the meantime
+        self.zip_backend.open_zip('w')
+        self.zip_backend._ziphandle.writestr(self.path_string, content)
         self.zip_backend.close_zip()
         self.zip_backend.open_zip()
 
-- 
2.43.0


From 3124cbf39d5831d1e1f6cc78afeeac459872e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 28/44] fix: zip queries work on fresh connections, missing
 archives and paths ending with a slash; reads survive other operations

---
 abl/vpath/base/zip.py | 45 ++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 202c279..cf0b6d7 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -7,7 +7,7 @@ from io import BytesIO
 from zipfile import ZipFile
 
 from .fs import FileSystem, BaseUri, URI
-from .exceptions import FileDoesNotExistError
+from .exceptions import FileDoesNotExistError, NoDefinedOperationError
 
 
 class WriteStatement(object):
@@ -139,21 +139,33 @@ class ZipFileSystem(FileSystem):
         self._ziphandle = ZipFile(self._file_handle, zip_options)
 
 
+    def _path(self, unc):
+        # trailing slashes have no meaning
+        return super(ZipFileSystem, self)._path(unc).rstrip('/') or '/'
+
+
     def open(self, unc, options=None, mimetype='application/octet-stream'):
-        self.open_zip(options)
         if options is None:
             options = 'r'
         if 'r' in options:
+            if not self._zip_file_path().exists():
+                raise FileDoesNotExistError(str(unc))
+            self.open_zip(options)
             return self._open_for_reading(unc, options)
         elif 'w' in options:
+            self.open_zip(options)
             return self._open_for_writing(unc, options)
+        else:
+            raise NoDefinedOperationError(
+                "zip members can't be opened with mode %r" % options)
 
 
     def _open_for_reading(self, unc, options):
         path_string = self._path(unc)
         try:
-            self._ziphandle.getinfo(path_string)
-            return self._ziphandle.open(path_string)
+            # independent of the archive's handle, which other operations
+            # close and reopen
+            return BytesIO(self._ziphandle.read(path_string))
         except KeyError:
             raise FileDoesNotExistError()
 
@@ -190,17 +202,11 @@ class ZipFileSystem(FileSystem):
 
 
     def listdir(self, unc):
-        if not self._zip_file_path().exists():
-            return []
-        if self._ziphandle is None:
-            self.open_zip()
         path_string = self._path(unc)
-        if path_string == '/' and self._ziphandle is None:
-            return []
         if not self.isdir(unc):
             raise FileDoesNotExistError()
         content_set = set()
-        for item in self._ziphandle.namelist():
+        for item in self._names():
             citem = content_item(path_string, item)
             if citem:
                 content_set.add(citem)
@@ -208,11 +214,20 @@ class ZipFileSystem(FileSystem):
         return list(sorted(content_set))
 
 
+    def _names(self):
+        "the names of all members; a missing archive has none"
+        if not self._zip_file_path().exists():
+            return []
+        if self._ziphandle is None:
+            self.open_zip()
+        return self._ziphandle.namelist()
+
+
     def _ispart(self, unc, expected):
         path_string = self._path(unc)
         if path_string == '/':
-            return True
-        for item in self._ziphandle.namelist():
+            return ISDIR in expected
+        for item in self._names():
             result = compare_path_strings(path_string, item)
             if result in expected:
                 return True
@@ -220,5 +235,5 @@ class ZipFileSystem(FileSystem):
 
 
     def copystat(self, path, other):
-        # TODO
-        raise NotImplementedError
+        # members have no properties that are worth copying
+        pass
-- 
2.43.0


From 9b3bfeb8a6ccb7647e53381c6e6b1936dccc9cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:03 +0000
Subject: [PATCH 29/44] fix: closing a zip connection closes the archive

---
 abl/vpath/base/zip.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index cf0b6d7..ccb9186 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -115,11 +115,17 @@ class ZipFileSystem(FileSystem):
         self._ziphandle = None
 
 
+    def close(self):
+        self.close_zip()
+
+
     def close_zip(self):
-        if self._ziphandle is not None:
-            self._ziphandle.close()
-        if self._file_handle is not None:
-            self._file_handle.close()
+        ziphandle, self._ziphandle = self._ziphandle, None
+        file_handle, self._file_handle = self._file_handle, None
+        if ziphandle is not None:
+            ziphandle.close()
+        if file_handle is not None:
+            file_handle.close()
 
 
     def open_zip(self, options=None):
-- 
2.43.0


From 6e6fa98e165fc1554875a822358e43fca1881717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:03 +0000
Subject: [PATCH 30/44] fix: working directory scopes nest, temp file handles
 can be closed twice

---
 abl/vpath/base/misc.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/misc.py b/abl/vpath/base/misc.py
index 193582d..5fab760 100644
--- a/abl/vpath/base/misc.py
+++ b/abl/vpath/base/misc.py
@@ -33,6 +33,8 @@ class TempFileHandle(object):
         return self.handle.read(limit)
 
     def close(self):
+        if self.handle.closed:
+            return
         retval = self.handle.close()
         os.unlink(self.tmpfilename)
         return retval
@@ -41,13 +43,18 @@ class TempFileHandle(object):
 class WorkingDirectory(object):
 
     def __init__(self, working_path):
-        self.cwd = os.getcwd()
+        self.cwds = []
         self.working_path = working_path
 
     def __enter__(self):
-        os.chdir(self.working_path.path)
+        self.cwds.append(os.getcwd())
+        try:
+            os.chdir(self.working_path.path)
+        except:
+            self.cwds.pop()
+            raise
 
     def __exit__(self, exc_type, exc_value, traceback):
-        os.chdir(self.cwd)
+        os.chdir(self.cwds.pop())
 
 
-- 
2.43.0


From afe9d0d2e1dbbe04dfbf00ed0f28ac852dc38c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:03 +0000
Subject: [PATCH 31/44] fix: the root of a windows drive keeps its drive

---
 abl/vpath/base/fs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 14f57f6..35bf414 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -217,7 +217,8 @@ def normalize_uri(uri, sep='/'):
 
 
 def denormalize_path(path, sep='\\'):
-    if len(path) > 2 and path[0] == path[2] == '/':
+    # the root of a drive might come without a slash at the end
+    if len(path) > 1 and path[0] == (path+'/')[2] == '/':
         return path[1]+':'+sep+path[3:].replace('/', sep)
     else:
         return path.replace('/', sep)
-- 
2.43.0


From aa6f71f4121d1869c7cbb4ee0445d124bf7bf77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 32/44] fix: moving a local directory into itself through a
 link is an error

---
 abl/vpath/base/localfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index 208db30..f1b46ec 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -145,6 +145,8 @@ class LocalFileSystem(FileSystem):
         if dest.scheme == 'file':
             if source.isdir() and dest.isdir():
                 dest /= source.basename()
+            if source.isdir() and not source.islink() and self._is_inside(dest, source):
+                raise shutil.Error("Cannot move %s into itself: %s" % (source, dest))
             return shutil.move(source.path, dest.path)
         else:
             return super(LocalFileSystem, self).move(source, dest)
-- 
2.43.0


From 6e862c68dd6dd8fc2fc4c65ebad35c605fc98a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 33/44] fix: an uri as query argument of a local path is not
 its scheme

---
 abl/vpath/base/fs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 35bf414..7266717 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -314,9 +314,11 @@ class BaseUri(object):
             if uri.startswith('file://'):
                 uri = uri[7:]
             uri = normalize_uri(uri, '\\')
-            if not '://' in uri and not (uri == '.' or uri.startswith(('/', './'))):
+            # a query argument might be an uri itself
+            has_scheme = '://' in uri.partition('?')[0]
+            if not has_scheme and not (uri == '.' or uri.startswith(('/', './'))):
                 uri = './'+uri
-            if not '://' in uri:
+            if not has_scheme:
                 uri = 'file://'+uri
             self.uri = uri
             self.sep = sep
-- 
2.43.0


From 5330937886764b1e4df072544a6f0ae2b061accd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 34/44] fix: derived URIs keep the login when query arguments
 change

---
 abl/vpath/base/fs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 7266717..e6c261c 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -310,6 +310,9 @@ class BaseUri(object):
             self.extras = uri.extras.copy()
             self.username = uri.username
             self.password = uri.password
+            # the login is the one 'uri' was made with, whatever happened to
+            # its query since then
+            return
         else:
             if uri.startswith('file://'):
                 uri = uri[7:]
-- 
2.43.0


From 59729f23933d7236cb7337d7b11703f539a490cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 35/44] fix: locking a memory file that is being removed raised
 KeyError

---
 abl/vpath/base/memory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 5b74ef3..bf85f8f 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -226,7 +226,7 @@ class MemoryDir(object):
 
 
     def get(self, name):
-        return self._files[name]
+        return self._files.get(name)
 
 
     def create(self, name, obj):
@@ -335,8 +335,9 @@ class MemoryFileSystem(FileSystem):
 
 
     def _child(self, parent, name, resolve_link=True, throw=True, linklevel=0):
-        if parent.has(name):
-            nd = parent.get(name)
+        # one access only: other threads might remove it meanwhile
+        nd = parent.get(name)
+        if nd is not None:
             if nd.kind == NodeKind.LINK:
                 if resolve_link:
                     # TODO: supports absolute links only for now
-- 
2.43.0


From 934416d4ca0ae7d38e2d2094f8ca38efd85285ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 36/44] fix: reading a number of characters from a memory file
 read bytes

---
 abl/vpath/base/memory.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index bf85f8f..bbecbbf 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -1,5 +1,6 @@
 from __future__ import unicode_literals
 
+import codecs
 import mimetypes
 import hashlib
 import time
@@ -151,9 +152,19 @@ class MemoryFileProxy(object):
         return data if self.binary else data.decode('utf-8')
 
 
-    def read(self, *args, **kwargs):
+    def read(self, size=-1):
         self._check_readable()
-        return self.decode(self.mem_file.read(*args, **kwargs))
+        if self.binary or size is None or size < 0:
+            return self.decode(self.mem_file.read(size))
+        # text is counted in characters, not in bytes
+        decoder = codecs.getincrementaldecoder('utf-8')()
+        text = ''
+        while len(text) < size:
+            data = self.mem_file.read(size - len(text))
+            text += decoder.decode(data, final=not data)
+            if not data:
+                break
+        return text
 
 
     def write(self, data, *args, **kwargs):
-- 
2.43.0


From 4016fb388d5e5e6452daab94f4b3ff9636539e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 37/44] fix: zip connections did not see what other connections
 wrote

---
 abl/vpath/base/zip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index ccb9186..b0b1516 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -224,8 +224,8 @@ class ZipFileSystem(FileSystem):
         "the names of all members; a missing archive has none"
         if not self._zip_file_path().exists():
             return []
-        if self._ziphandle is None:
-            self.open_zip()
+        # other connections might have written to the archive
+        self.open_zip()
         return self._ziphandle.namelist()
 
 
-- 
2.43.0


From c2bbd2208913675b87e9a6284aa9cd2ae738e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 38/44] fix: members of archives made by other tools were not
 found

---
 abl/vpath/base/zip.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index b0b1516..3d6579b 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -10,6 +10,19 @@ from .fs import FileSystem, BaseUri, URI
 from .exceptions import FileDoesNotExistError, NoDefinedOperationError
 
 
+def member_path(name):
+    "the path of a member; most tools write names without leading slash"
+    return '/' + name.lstrip('/')
+
+
+def find_member(ziphandle, path_string):
+    "the name that the member at path_string has in the archive"
+    for name in reversed(ziphandle.namelist()):
+        if member_path(name) == path_string:
+            return name
+    return None
+
+
 class WriteStatement(object):
     def __init__(self, path_string, zip_backend):
         self.path_string = path_string
@@ -32,7 +45,9 @@ class WriteStatement(object):
         self.byte_buffer.close()
         # the archive might have been opened for reading in the meantime
         self.zip_backend.open_zip('w')
-        self.zip_backend._ziphandle.writestr(self.path_string, content)
+        ziphandle = self.zip_backend._ziphandle
+        name = find_member(ziphandle, self.path_string) or self.path_string
+        ziphandle.writestr(name, content)
         self.zip_backend.close_zip()
         self.zip_backend.open_zip()
 
@@ -168,12 +183,12 @@ class ZipFileSystem(FileSystem):
 
     def _open_for_reading(self, unc, options):
         path_string = self._path(unc)
-        try:
-            # independent of the archive's handle, which other operations
-            # close and reopen
-            return BytesIO(self._ziphandle.read(path_string))
-        except KeyError:
+        name = find_member(self._ziphandle, path_string)
+        if name is None:
             raise FileDoesNotExistError()
+        # independent of the archive's handle, which other operations
+        # close and reopen
+        return BytesIO(self._ziphandle.read(name))
 
 
     def _open_for_writing(self, unc, options):
@@ -226,7 +241,7 @@ class ZipFileSystem(FileSystem):
             return []
         # other connections might have written to the archive
         self.open_zip()
-        return self._ziphandle.namelist()
+        return [member_path(name) for name in self._ziphandle.namelist()]
 
 
     def _ispart(self, unc, expected):
-- 
2.43.0


From 6eb12be6ba6039da67c6c5221072cfd359fb61e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 39/44] fix: a zip archive was unusable or damaged while a
 member was being written

---
 abl/vpath/base/zip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 3d6579b..4ad4480 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -175,6 +175,9 @@ class ZipFileSystem(FileSystem):
             return self._open_for_reading(unc, options)
         elif 'w' in options:
             self.open_zip(options)
+            # the archive must not stay open until the member is complete,
+            # others could not use it
+            self.close_zip()
             return self._open_for_writing(unc, options)
         else:
             raise NoDefinedOperationError(
-- 
2.43.0


From 228c5e988ac5fdb1236bf0f6a77ccde234a76727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 40/44] fix: urljoin dropped empty path segments and kept dots
 of rootless paths

---
 abl/vpath/base/uriparse.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index b38dead..1166ea9 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -347,10 +347,32 @@ def _pathjoin(a,b):
     if not a or not b:
         return a or b
     elif not b.startswith('/'):
-        return a.rstrip('/')+'/'+b
+        return a+b
     else:
         return b
 
+def _remove_dot_segments(path):
+    "straight from STD 66 section 5.2.4"
+    result = ''
+    while path:
+        if path.startswith('../'):
+            path = path[3:]
+        elif path.startswith('./') or path.startswith('/./'):
+            path = path[2:]
+        elif path == '/.':
+            path = '/'
+        elif path == '/..' or path.startswith('/../'):
+            path = '/' + path[4:]
+            result = result[:result.rfind('/')] if '/' in result else ''
+        elif path in ('.', '..'):
+            path = ''
+        else:
+            end = path.find('/', 1)
+            end = len(path) if end < 0 else end
+            result += path[:end]
+            path = path[end:]
+    return result
+
 def urljoin(base, url):
     """Join a base URL and a (possiby relative) URL.
 
@@ -360,7 +382,6 @@ def urljoin(base, url):
     Returns the result as an absolute URL.
 
     """
-    import posixpath
     bscheme, bauthority, bpath, bquery, bfragment = _split(base)
     uscheme, uauthority, upath, uquery, ufragment = _split(url)
     if uscheme is not None and bscheme != uscheme:
@@ -368,11 +389,11 @@ def urljoin(base, url):
     if uauthority is not None:
         bauthority, bpath, bquery = uauthority, upath, uquery
         if bpath != '':
-            bpath = posixpath.normpath(bpath)
+            bpath = _remove_dot_segments(bpath)
     elif upath != '':
         if bauthority is not None and bpath == '':
             bpath = '/'
-        bpath = posixpath.normpath(_pathjoin(_dirname(bpath), upath))
+        bpath = _remove_dot_segments(_pathjoin(_dirname(bpath), upath))
         bquery = uquery
     elif uquery is not None:
         bquery = uquery
-- 
2.43.0


From d6a94191ecc797a159d99340f5fc3301f5687805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 41/44] fix: a temp file handle removed a file of the same name
 in another working directory

---
 abl/vpath/base/misc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/misc.py b/abl/vpath/base/misc.py
index 5fab760..43ecded 100644
--- a/abl/vpath/base/misc.py
+++ b/abl/vpath/base/misc.py
@@ -22,6 +22,10 @@ class TempFileHandle(object):
     def __init__(self, tmpfilename):
         self.tmpfilename = tmpfilename
         self.handle = open(self.tmpfilename)
+        # the file to remove, wherever the working directory is by then
+        self._to_remove = tmpfilename
+        if not os.path.isabs(tmpfilename):
+            self._to_remove = os.path.join(os.getcwd(), tmpfilename)
 
     def __enter__(self):
         return self
@@ -36,7 +40,7 @@ class TempFileHandle(object):
         if self.handle.closed:
             return
         retval = self.handle.close()
-        os.unlink(self.tmpfilename)
+        os.unlink(self._to_remove)
         return retval
 
 
-- 
2.43.0


From ae9eb9218ad9fb5551d53c1c73069d3819cc3c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 42/44] fix: leaving the lock of a relative path removed a file
 of the same name in another working directory

---
 abl/vpath/base/localfs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index f1b46ec..82eb028 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -162,7 +162,11 @@ class LocalFileSystem(FileSystem):
 
 
     def lock(self, path, fail_on_lock, cleanup):
-        return LockFile(self._path(path), fail_on_lock=fail_on_lock, cleanup=cleanup)
+        name = self._path(path)
+        if not os.path.isabs(name):
+            # the working directory might be another one when cleaning up
+            name = os.path.join(os.getcwd(), name)
+        return LockFile(name, fail_on_lock=fail_on_lock, cleanup=cleanup)
 
 
     def mtime(self, path):
-- 
2.43.0


From 5501831bbe3a4c3400bf6b099b4bfcbcbd0f34f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 43/44] fix: files had different locks when reached through
 links

---
 abl/vpath/base/memory.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index bbecbbf..9591919 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -339,10 +339,8 @@ class MemoryFileSystem(FileSystem):
 
     def lock_for_path(self, path):
         "the lock of the file at path, whether it exists or not"
-        nd = self._get_node_for_path(self._fs, path, throw=False)
-        if nd is not None and nd.kind == NodeKind.FILE:
-            return nd.lock
-        return self._file_locks[self._path(path)]
+        # the same one whatever links lead to the file
+        return self._file_locks[self._path(self._real_path(path))]
 
 
     def _child(self, parent, name, resolve_link=True, throw=True, linklevel=0):
-- 
2.43.0


From 441f49a92b7032806bfe1bc39b9d4d5598e6fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:23 +0000
Subject: [PATCH 44/44] fix: a recursive copy did not end when a link below the
 source led to the destination

---
 abl/vpath/base/fs.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index e6c261c..18c5d1f 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1011,19 +1011,22 @@ class FileSystem(object):
             elif self._is_inside(droot, source):
                 raise shutil.Error("Cannot copy %s into itself: %s" % (source, droot))
             else:
+                # links below source may lead to droot: what is to be copied
+                # must be known before anything is written
+                tree = []
+                for root, dirs, files in source.walk(followlinks=followlinks):
+                    dirs[:] = [folder for folder in dirs if folder not in ignore]
+                    tree.append((root, dirs, files))
                 droot.makedirs()
                 spth_len = len(source.path.rstrip('/\\'))
-                for root, dirs, files in source.walk(followlinks=followlinks):
+                for root, dirs, files in tree:
                     tojoin = root.path[spth_len:].strip('/\\')
                     if tojoin:
                         dbase = droot / tojoin
                     else:
                         dbase = droot
 
-                    for folder in dirs[:]:
-                        if folder in ignore:
-                            dirs.remove(folder)
-                            continue
+                    for folder in dirs:
                         ddir = dbase / folder
                         srcp = root / folder
                         if srcp.islink() and not followlinks:
-- 
2.43.0

