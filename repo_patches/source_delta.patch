From c4150037ee4b3b4425635689da79bd452ab287c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 01/48] fix: urisplit fails on URIs without an authority

Relative references ('g', '?y', '/path', 'mailto:a@b') have no authority
part, so urljoin and the URIParser crashed on them.
---
 abl/vpath/base/simpleuri.py | 2 +-
 abl/vpath/base/uriparse.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/simpleuri.py b/abl/vpath/base/simpleuri.py
index e33ae77..cbda40e 100644
--- a/abl/vpath/base/simpleuri.py
+++ b/abl/vpath/base/simpleuri.py
@@ -77,7 +77,7 @@ class UriParse(object):
             self.path,
             self.query,
             self.fragment
-            ) = urisplit(uri)
+            ) = urisplit(self.uri)
         if self.authority and '((' in self.authority:
             self.vpath_connector = self.authority[2:-2]
             self.authority = ''
diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index e5524b4..c676c61 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -76,7 +76,8 @@ def urisplit(uri):
     p = re.match(regex, uri).groups()
     scheme, authority, path, query, fragment = p[1], p[3], p[4], p[6], p[8]
     #if not path: path = None
-    authority = authority.replace('__inner_part__', inner_value)
+    if authority is not None:
+        authority = authority.replace('__inner_part__', inner_value)
     if authority == '.':
         path = ''.join([authority, path])
         authority = None
-- 
2.43.0


From 7909f610bb226cd17cd91d040f968129e2871641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 02/48] fix: keep every '#' of a file name

A trailing '#', a line break after a '#', and a '#' in front of or in a
query were lost or moved, because the path was re-assembled from a
fragment. For anything but http(s) a '#' is now an ordinary character.
Relative references keep their fragment.
---
 abl/vpath/base/uriparse.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index c676c61..79c1d18 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -72,8 +72,13 @@ def urisplit(uri):
         inner_value = uri[m.start():m.end()]
         uri = uri[:m.start()]+'__inner_part__'+uri[m.end():]
     # regex straight from STD 66 section B
-    regex = '^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?'
-    p = re.match(regex, uri).groups()
+    regex = r'^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?'
+    # bugfix: '#' might be a legal character in a file name
+    # it only has special meaning in urls and relative references
+    m = re.match('([^:/?#]+):', uri)
+    if m is not None and m.group(1) not in ['http', 'https']:
+        regex = r'^(([^:/?#]+):)?(//([^/?]*))?([^?]*)(\?(.*))?(#(.*))?'
+    p = re.match(regex, uri, re.DOTALL).groups()
     scheme, authority, path, query, fragment = p[1], p[3], p[4], p[6], p[8]
     #if not path: path = None
     if authority is not None:
@@ -81,12 +86,6 @@ def urisplit(uri):
     if authority == '.':
         path = ''.join([authority, path])
         authority = None
-    # bugfix: '#' might be a legal character in a file name
-    # it only has special meaning in urls
-    if scheme not in ['http', 'https']:
-        if fragment:
-            path = '#'.join([path, fragment])
-            fragment = ''
     return (scheme, authority, path, query, fragment)
 
 
-- 
2.43.0


From c74a94ca4588c45b7211b1fc1df3b00164d272aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 03/48] fix: '((..))' in a path is replaced by a placeholder

urisplit treated the first '((..))' anywhere in an URI as the container
of an archive, so such file names turned into '__inner_part__'. Only the
authority can be a container, and it ends where the authority ends.
---
 abl/vpath/base/uriparse.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 79c1d18..2708e6c 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -65,12 +65,14 @@ def urisplit(uri):
        ('scheme', 'authority', 'path', 'query', 'fragment')
 
     """
-    inner_part = re.compile(r'\(\(.*?\)\)')
-    m = inner_part.search(uri)
+    # an inner part is only special as the authority, and ends where the
+    # authority ends
+    inner_part = re.compile(r'([^:/?#]+://)(\(\(.*?\)\))(?=[/?#]|\Z)', re.DOTALL)
+    m = inner_part.match(uri)
     inner_value = ''
     if m is not None:
-        inner_value = uri[m.start():m.end()]
-        uri = uri[:m.start()]+'__inner_part__'+uri[m.end():]
+        inner_value = m.group(2)
+        uri = m.group(1)+'__inner_part__'+uri[m.end():]
     # regex straight from STD 66 section B
     regex = r'^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?'
     # bugfix: '#' might be a legal character in a file name
-- 
2.43.0


From 260bdbe1a9125df1a58b636d6f72f29f659eff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 04/48] fix: uriunsplit and join_authority do not undo the
 split

An empty authority, query or fragment is not the same as none
(file:///path became file:/path), and split_authority reports a missing
host as None, which join_authority could not handle.
---
 abl/vpath/base/uriparse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 2708e6c..347c7db 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -102,13 +102,13 @@ def uriunsplit(uri):
     result = ''
     if scheme:
         result += scheme + ':'
-    if authority:
+    if authority is not None:
         result += '//' + authority
     if path:
         result += path
-    if query:
+    if query is not None:
         result += '?' + query
-    if fragment:
+    if fragment is not None:
         result += '#' + fragment
     return result
 
@@ -153,7 +153,7 @@ def join_authority(authority):
         if passwd:
             result += ':' + passwd
         result += '@'
-    result += host
+    result += host or ''
     if port:
         result += ':' + port
     return result
-- 
2.43.0


From 40098374a0aae1a0d1b5b3bbef21db11c0494415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 05/48] fix: urljoin against a base in the root directory

The result had two slashes ('http://a/x' and 'g' gave 'http://a//g') or,
for a base without path, none ('http://ag').
---
 abl/vpath/base/uriparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 347c7db..fabc56c 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -346,7 +346,7 @@ def _pathjoin(a,b):
     if not a or not b:
         return a or b
     elif not b.startswith('/'):
-        return a+'/'+b
+        return a.rstrip('/')+'/'+b
     else:
         return b
 
@@ -368,6 +368,8 @@ def urljoin(base, url):
         bauthority, bpath, bquery, bfragment = \
             uauthority, upath, uquery, ufragment
     elif upath != '':
+        if bauthority is not None and not bpath:
+            bpath = '/'
         bpath = posixpath.normpath(_pathjoin(_dirname(bpath), upath))
         bquery, bfragment = uquery, ufragment
     elif uquery is not None:
-- 
2.43.0


From 56b1c91b6f0a4875c5aded1ac5db9e7ba9a61c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 06/48] fix: relative paths starting with a dot are taken for a
 host

URI('../x'), URI('.hidden') and URI('..') lost their first component. An
absolute path containing '://' was taken for an URI.
---
 abl/vpath/base/fs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 0248be2..076ea67 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -277,9 +277,9 @@ class BaseUri(object):
             if uri.startswith('file://'):
                 uri = uri[7:]
             uri = normalize_uri(uri, '\\')
-            if not '://' in uri and not (uri.startswith('/') or uri.startswith('.')):
-                uri = './'+uri
-            if not '://' in uri:
+            if uri.startswith(('/', '.')) or not '://' in uri:
+                if not (uri.startswith(('/', './')) or uri == '.'):
+                    uri = './'+uri
                 uri = 'file://'+uri
             self.uri = uri
             self.sep = sep
-- 
2.43.0


From 2eb72a369c13e88a4da6660b256cbcd8f99d9e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 07/48] fix: absolute paths of hidden files in the root are
 reported as relative

'/.hidden' became '.hidden' because only the first two characters were
looked at. The notation for relative paths is '/./path' or '/../path'.
---
 abl/vpath/base/fs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 076ea67..9ef6bcd 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -234,6 +234,9 @@ def with_connection(func, self, *args, **argd):
 
 scheme_re = re.compile("([a-z+-]+)://")
 
+# alternative notation for a relative path: scheme:///./path
+slash_dot_re = re.compile(r"/\.\.?(/|\Z)")
+
 def URI(uri, sep=os.sep, **extras):
     scheme = 'file'
     if isinstance(uri, BaseUri):
@@ -334,7 +337,7 @@ class BaseUri(object):
     @property
     def path(self):
         path = self.parse_result.path
-        parsed_path = path[1:] if path.startswith("/.") else path
+        parsed_path = path[1:] if slash_dot_re.match(path) else path
 
         if os.name == "nt" and self.scheme == "file":
             parsed_path = os.path.normpath(re.sub(r"^/([a-zA-Z])/", r"\1:/", parsed_path))
@@ -407,9 +410,7 @@ class BaseUri(object):
     @property
     def is_absolute(self):
         path = self.parse_result.path
-        if path.startswith('/.'):
-            path = path[1:]
-        return path.startswith('/')
+        return path.startswith('/') and not slash_dot_re.match(path)
 
 
     def split(self):
-- 
2.43.0


From 0be19b87c2a17d413c7f0968bd29d58812571936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 08/48] fix: paths in different archives compare equal

The archive (and the port of an URI without a host) was left out of the
comparison.
---
 abl/vpath/base/simpleuri.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abl/vpath/base/simpleuri.py b/abl/vpath/base/simpleuri.py
index cbda40e..daacc5c 100644
--- a/abl/vpath/base/simpleuri.py
+++ b/abl/vpath/base/simpleuri.py
@@ -149,6 +149,8 @@ class UriParse(object):
         return (
             self.scheme == other.scheme and
             self.netloc == other.netloc and
+            self.port == other.port and
+            self.vpath_connector == other.vpath_connector and
             self.path == other.path and
             self.query == other.query
             )
-- 
2.43.0


From 8e295a5a404d4bc5318dc87998cb01fd3d803236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 09/48] fix: query keys and values do not survive the text form
 of an URI

Values were written without, and keys read without, the encoding that
is undone for values when reading and used for both when joining. A '='
in a value or an item without '=' failed.
---
 abl/vpath/base/simpleuri.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/simpleuri.py b/abl/vpath/base/simpleuri.py
index daacc5c..265c6a9 100644
--- a/abl/vpath/base/simpleuri.py
+++ b/abl/vpath/base/simpleuri.py
@@ -22,10 +22,10 @@ def parse_query_string(query):
     result = {}
     qparts = query.split('&')
     for item in qparts:
-        key, value = item.split('=')
+        key, _, value = item.partition('=')
         key = key.strip()
         value = value.strip()
-        result[key] = unquote_plus(value)
+        result[unquote_plus(key)] = unquote_plus(value)
     return result
 
 class UriParse(object):
@@ -113,8 +113,7 @@ class UriParse(object):
 
     def __str__(self):
         if self.query:
-            qup = ['%s=%s' % (key, value) for key, value in list(self.query.items())]
-            rest = '?'+('&'.join(qup))
+            rest = '?'+urlencode(self.query)
         else:
             rest = ''
         if self.fragment:
-- 
2.43.0


From d357d36c863de92c000e309d3920c376e571b8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 10/48] fix: credentials given as keywords or in the query
 break the connection

For URIs without an authority the keywords stayed in the extra options
and were passed twice (TypeError); so were the ones of the query.
---
 abl/vpath/base/fs.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 9ef6bcd..f6d0b0f 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -288,16 +288,12 @@ class BaseUri(object):
             self.sep = sep
             self.parse_result = UriParse(uri)
             self.extras = extras
-        if self.username is None:
-            if 'username' in self.extras:
-                self.username = self.extras.pop('username')
-            elif 'username' in self.parse_result.query:
-                self.username = self.parse_result.query['username']
-        if self.password is None:
-            if 'password' in self.extras:
-                self.password = self.extras.pop('password')
-            elif 'password' in self.parse_result.query:
-                self.password = self.parse_result.query['password']
+        for name in ('username', 'password'):
+            value = self.extras.pop(name, None)
+            if not getattr(self, name):
+                value = value or self.parse_result.query.get(name)
+                if value:
+                    setattr(self, name, value)
 
 
     def get_connection(self):
@@ -308,6 +304,9 @@ class BaseUri(object):
         extras = self.extras.copy()
         if self.scheme not in ('http','https'):
             extras.update(self.query)
+        # these are part of the key
+        for name in ('username', 'password'):
+            extras.pop(name, None)
 
         return extras
 
-- 
2.43.0


From ab45c02a8fb0c1a4ec6f2a9f2435d263267ee0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 11/48] fix: derived URIs lose parts of the URI or take its
 text for a path

directory, split, basename and last worked on the whole text of the URI,
so that a '/' in the query or the host or archive of a root path was
taken for a part of the path, and the query was lost; '+' appended to
the query, and was based on a stale text after setting the scheme.
Credentials given as keywords and changes made to an URI were not passed
on. All of them now build the result from the parts, as join did.
---
 abl/vpath/base/fs.py | 67 +++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 41 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index f6d0b0f..8161562 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1,4 +1,5 @@
 import atexit
+import copy
 from collections import defaultdict
 import fnmatch
 import hashlib
@@ -274,8 +275,10 @@ class BaseUri(object):
         if isinstance(uri, BaseUri):
             self.uri = uri.uri
             self.sep = uri.sep
-            self.parse_result = UriParse(uri.uri)
+            self.parse_result = copy.copy(uri.parse_result)
+            self.parse_result.query = uri.query.copy()
             self.extras = uri.extras.copy()
+            self.extras.update(username=uri.username, password=uri.password)
         else:
             if uri.startswith('file://'):
                 uri = uri[7:]
@@ -396,13 +399,26 @@ class BaseUri(object):
 
 
     def __add__(self, suffix):
-        path = self.uri + suffix
+        return self._derive(self.parse_result.path + suffix)
+
+
+    def _derive(self, path):
+        """
+        @return: an URI that differs from self only in its path
+        """
+        parts = self.parse_result.as_list()
+        parts[2] = path
+
         result = self.__class__(
-            path,
+            uri_from_parts(parts),
             sep=self.sep,
-            **self._extras()
+            username=self.username,
+            password=self.password,
+            **self.extras
             )
+
         result.parse_result.query = self.query.copy()
+
         return result
 
 
@@ -420,23 +436,12 @@ class BaseUri(object):
         @return: a 2 tuple. The first element is a URI instance and the second
                  a string, representing the basename.
         """
-        try:
-            first, second = self.uri.rsplit('/', 1)
-        except ValueError:
-            first = ''
-            second = self.uri
+        path = self.parse_result.path
+        first, _, second = path.rpartition('/')
         # we might be already on the root
-        if first.endswith('//'):
-            first = first + '/'
         if not first:
-            first = '.'
-        return (self.__class__(
-            first,
-            sep=self.sep,
-            **self._extras()
-            ),
-            second.partition('?')[0]
-            )
+            first = '/' if path.startswith('/') else path and '.'
+        return (self._derive(first), second)
 
 
     def directory(self, level=1):
@@ -475,16 +480,7 @@ class BaseUri(object):
         @return: last part of uri
         @rvalue: str
         """
-        parts = self.uri.split('/')
-        if not parts:
-            return ''
-        if len(parts) > 1:
-            if not parts[-1]:
-                return parts[-2]
-            else:
-                return parts[-1]
-        else:
-            return parts[-1]
+        return self.parse_result.path.rstrip('/').rpartition('/')[2]
 
 
     def join(self, *args):
@@ -502,18 +498,7 @@ class BaseUri(object):
             [x.strip('/') for x in args[:-1]] +
             [args[-1]]
             )
-        parts = self.parse_result.as_list()
-        parts[2] = '/'.join(args)
-
-        result = self.__class__(
-            uri_from_parts(parts),
-            sep=sep,
-            **self._extras()
-            )
-
-        result.parse_result.query = self.query.copy()
-
-        return result
+        return self._derive('/'.join(args))
 
 
     @with_connection
-- 
2.43.0


From 664f71ec8eeefa44ed913f1982831c36011a1343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 12/48] fix: the directory of a path in the root of a windows
 drive

The dirname of 'C:\some' was reported as '\C' instead of 'C:\'.
---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 8161562..e5c79a6 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -190,7 +190,7 @@ def normalize_uri(uri, sep='/'):
 
 
 def denormalize_path(path, sep='\\'):
-    if len(path) > 2 and path[0] == path[2] == '/':
+    if len(path) > 1 and path[0] == '/' and path[2:3] in ('', '/'):
         return path[1]+':'+sep+path[3:].replace('/', sep)
     else:
         return path.replace('/', sep)
-- 
2.43.0


From c5fb867507e814567e6c719d70491013c0f8a71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 13/48] fix: recursive copy of a root or a path with a trailing
 slash

The first character of every sub-directory name was cut off, and so were
blanks at the ends of the relative path of a directory, which placed its
files somewhere else.
---
 abl/vpath/base/fs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index e5c79a6..46d5f74 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -923,11 +923,11 @@ class FileSystem(object):
                 self._copy_link(source, droot)
             else:
                 droot.makedirs()
-                spth = source.path
+                spth = source.path.rstrip('/' + source.sep)
                 spth_len = len(spth) + 1
                 for root, dirs, files in source.walk(followlinks=followlinks):
                     rpth = root.path
-                    tojoin = rpth[spth_len:].strip()
+                    tojoin = rpth[spth_len:]
                     if tojoin:
                         dbase = droot / tojoin
                     else:
-- 
2.43.0


From b508c9a9d828e0f4e556c9bddf076397a43e60a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 14/48] fix: copying a link works on the backend of the source
 instead of the target

With followlinks=False a copy between two backends created the link on
the backend of the source, after removing a file there that happened to
have the path of the target. Permissions were copied between memory file
systems with different addresses in the same way. An existing link at
the target is replaced like an existing file.
---
 abl/vpath/base/fs.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 46d5f74..1417ddc 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -880,9 +880,12 @@ class FileSystem(object):
 
     def _copy_link(self, source, dest):
         assert self.islink(source)
-        if dest.isfile():
-            self.removefile(dest)
-        self.symlink(self.readlink(source), dest)
+        target = self.readlink(source)
+        if dest.isfile() or dest.islink():
+            dest.connection.removefile(dest)
+        if dest.get_connection() is not self:
+            target = dest._derive(self._path(target))
+        dest.get_connection().symlink(target, dest)
 
 
     def copy(self, source, dest, recursive=False, ignore=None,
@@ -890,7 +893,7 @@ class FileSystem(object):
         if source.connection is dest.connection and hasattr(self, 'internal_copy'):
             return self.internal_copy(source, dest, recursive, ignore)
 
-        use_same_backend = source.scheme == dest.scheme
+        use_same_backend = source.connection is dest.get_connection()
 
         if ignore is not None:
             ignore = set(ignore)
-- 
2.43.0


From 2e34d55368d4a1b9d8dac17ecc27d2817f5cb0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 15/48] fix: a broken link can not be copied as a link

With followlinks=False a copy failed if the source was a broken link, or
a link to a directory copied without (or one to a file copied with) the
recursive flag.
---
 abl/vpath/base/fs.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 1417ddc..ad4e006 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -900,15 +900,17 @@ class FileSystem(object):
         else:
             ignore = set()
 
-        if not source.exists():
+        copy_link = source.islink() and not followlinks
+
+        if not copy_link and not source.exists():
             raise FileDoesNotExistError(str(source))
 
         if not recursive:
-            assert source.isfile()
+            assert copy_link or source.isfile()
             if dest.isdir():
                 dest = dest / source.last()
 
-            if source.islink() and not followlinks:
+            if copy_link:
                 self._copy_link(source, dest)
             else:
                 with source.open('rb') as infs, dest.open('wb') as outfs:
@@ -916,13 +918,13 @@ class FileSystem(object):
                 if use_same_backend:
                     self.copystat(source, dest)
         else:
-            assert source.isdir()
+            assert copy_link or source.isdir()
             if dest.isdir():
                 droot = dest / source.last()
             else:
                 droot = dest
 
-            if source.islink() and not followlinks:
+            if copy_link:
                 self._copy_link(source, droot)
             else:
                 droot.makedirs()
-- 
2.43.0


From 7d37a1360392d8eb7ae8ca64854aaa0fd9619f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 16/48] fix: copying a file or directory to itself destroys it

A file copied to itself (also through links, or as a part of a
directory) was truncated, and a directory copied into itself was copied
without end. Both are refused now, with the error shutil uses.
---
 abl/vpath/base/fs.py      | 23 +++++++++++++++++++++++
 abl/vpath/base/localfs.py | 10 ++++++++++
 abl/vpath/base/memory.py  | 14 ++++++++++++++
 3 files changed, 47 insertions(+)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index ad4e006..eee835f 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -878,9 +878,29 @@ class FileSystem(object):
         pass
 
 
+    def _contains(self, path, other):
+        """
+        @return: True if 'other' is the same as 'path' or located below it
+        """
+        if other.get_connection() is not self:
+            return False
+        return (other.path.rstrip('/') + '/').startswith(path.path.rstrip('/') + '/')
+
+
+    def _check_copy(self, source, dest):
+        """
+        Raise an error if the copy would overwrite, or be a part of, its source.
+        """
+        if self._contains(source, dest):
+            raise shutil.SameFileError(
+                "Can not copy %r to itself or into itself: %r" % (source, dest))
+
+
     def _copy_link(self, source, dest):
         assert self.islink(source)
         target = self.readlink(source)
+        if source.isfile() and dest.isfile() and not dest.islink():
+            self._check_copy(source, dest)
         if dest.isfile() or dest.islink():
             dest.connection.removefile(dest)
         if dest.get_connection() is not self:
@@ -913,6 +933,7 @@ class FileSystem(object):
             if copy_link:
                 self._copy_link(source, dest)
             else:
+                self._check_copy(source, dest)
                 with source.open('rb') as infs, dest.open('wb') as outfs:
                     shutil.copyfileobj(infs, outfs, 8192)
                 if use_same_backend:
@@ -927,6 +948,7 @@ class FileSystem(object):
             if copy_link:
                 self._copy_link(source, droot)
             else:
+                self._check_copy(source, droot)
                 droot.makedirs()
                 spth = source.path.rstrip('/' + source.sep)
                 spth_len = len(spth) + 1
@@ -955,6 +977,7 @@ class FileSystem(object):
                         if srcf.islink() and not followlinks:
                             self._copy_link(srcf, destf)
                         else:
+                            self._check_copy(srcf, destf)
                             with srcf.open('rb') as infs, destf.open('wb') as outfs:
                                 shutil.copyfileobj(infs, outfs, 8192)
                             if use_same_backend:
diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index ecf3857..66114a6 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -126,6 +126,16 @@ class LocalFileSystem(FileSystem):
         self.info(unc, dict(mode=new_mode))
 
 
+    def _contains(self, path, other):
+        if not isinstance(other.get_connection(), LocalFileSystem):
+            return False
+        path = os.path.realpath(self._path(path))
+        other = os.path.realpath(self._path(other))
+        if os.path.exists(other) and os.path.samefile(path, other):
+            return True
+        return other.startswith(os.path.join(path, ''))
+
+
     def move(self, source, dest):
         """
         the semantic should be like unix 'mv' command.
diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index e8c7f65..e1f3e03 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -550,6 +550,20 @@ class MemoryFileSystem(FileSystem):
         return self._get_node_for_path(self._fs, path).mtime
 
 
+    def _contains(self, path, other):
+        def is_below(node, wanted):
+            return node is wanted or (
+                node.kind == NodeKind.DIR and
+                any(is_below(child, wanted) for _, child in node.items()))
+
+        if other.get_connection() is not self:
+            return False
+        while not self.exists(other):
+            other = other.directory()
+        return is_below(self._get_node_for_path(self._fs, path),
+                        self._get_node_for_path(self._fs, other))
+
+
     def removefile(self, path):
         parent, _ = self._get_node_prev(self._fs,
                                         [x for x in self._path(path).split("/") if x],
-- 
2.43.0


From 77dbcb93ebd0b6d8d7694093dd0483fc97c990d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 17/48] fix: move loses data or does not work like mv

The generic implementation replaced links by copies of their targets,
could not move broken links, merged directories, and removed the source
after copying it to itself; the local one moved a path deeper than asked
for if its name existed in the target directory, refused to replace a
file there, and deleted a directory moved into itself through a link.
---
 abl/vpath/base/fs.py      | 38 ++++++++++++++++++++++++++++++++------
 abl/vpath/base/localfs.py | 10 ++++++++--
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index eee835f..0694190 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1,6 +1,7 @@
 import atexit
 import copy
 from collections import defaultdict
+import errno
 import fnmatch
 import hashlib
 from importlib.metadata import entry_points
@@ -1000,12 +1001,37 @@ class FileSystem(object):
         """
         the semantic should be like unix 'mv' command
         """
-        if source.isfile():
-            source.copy(destination)
-            source.remove()
-        else:
-            source.copy(destination, recursive=True)
-            source.remove('r')
+        islink = source.islink()
+        if not islink and not source.exists():
+            raise FileDoesNotExistError(str(source))
+        isdir = source.isdir() and not islink
+
+        if destination.isdir():
+            destination = destination / source.last()
+
+        if destination.islink():
+            # a link is replaced itself, whatever it refers to
+            if isdir:
+                raise OSError(errno.ENOTDIR, "Not a directory: %s" % destination)
+            if (source.last() == destination.last() and
+                self._contains(source.directory(), destination.directory()) and
+                self._contains(destination.directory(), source.directory())):
+                raise shutil.SameFileError("%s and %s are the same" % (source, destination))
+            destination.remove()
+        elif destination.isdir():
+            # only an empty directory is replaced, and only by a directory
+            if not isdir:
+                raise OSError(errno.EISDIR, "Is a directory: %s" % destination)
+            self._check_copy(source, destination)
+            destination.remove()
+        elif isdir:
+            if destination.exists():
+                raise OSError(errno.ENOTDIR, "Not a directory: %s" % destination)
+            if not (destination / '').directory(2).isdir():
+                raise OSError(errno.ENOENT, "No such directory: %s" % destination)
+
+        source.copy(destination, recursive=isdir, followlinks=False)
+        source.remove(recursive=isdir)
 
 
     def walk(self, top, topdown=True, followlinks=True):
diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index 66114a6..e43c968 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -153,8 +153,14 @@ class LocalFileSystem(FileSystem):
         ends up in c.
         """
         if dest.scheme == 'file':
-            if source.isdir() and dest.isdir():
-                dest /= source.basename()
+            if dest.isdir():
+                dest /= source.last()
+            if ((source.isdir() and not source.islink()) or
+                (source.isfile() and dest.isfile() and not dest.islink())):
+                self._check_copy(source, dest)
+            if dest.isdir():
+                # only possible if a directory replaces an empty one
+                return os.rename(source.path, dest.path)
             return shutil.move(source.path, dest.path)
         else:
             return super(LocalFileSystem, self).move(source, dest)
-- 
2.43.0


From 32e9dc08c536fbff5a1a560073063abf365572a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 18/48] fix: remove silently keeps fifos, sockets and devices

---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 0694190..5f7cd0f 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -572,7 +572,7 @@ class BaseUri(object):
                 return remove_dir_recursively(self.connection, self)
             else:
                 return self.connection.removedir(self)
-        elif self.connection.isfile(self):
+        else:
             return self.connection.removefile(self)
 
 
-- 
2.43.0


From a2716a6a698b0efbfdb5ff4c4af702f6beab9fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 19/48] fix: path resolution of the memory file system

A repeated name ('/a/b/a') made links in the middle of a path look like
the last component. Paths through a file, a broken link or with a
trailing slash, and operations on the wrong kind of entry, failed with
internal errors (AttributeError, KeyError) or removed the wrong entry.
They now answer and fail as they do on a local file system, and link
queries do not fail for link loops.
---
 abl/vpath/base/memory.py | 63 +++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 14 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index e1f3e03..aad1f0a 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -339,10 +339,22 @@ class MemoryFileSystem(FileSystem):
                        linklevel=0):
         prev = None
         current = base
-        for part in steps:
+        for i, part in enumerate(steps):
+            if current is None:
+                return [None, None]
+            if current.kind != NodeKind.DIR:
+                if throw:
+                    p = '/'.join(steps)
+                    raise self.lookup_exc_class(errno.ENOTDIR,
+                                                "Not a directory: %s" % p)
+                else:
+                    return [None, None]
+            if not part:
+                # doubled or trailing slash
+                continue
             prev = current
             if current.has(part):
-                is_last = part == steps[-1]
+                is_last = i == len(steps) - 1
                 current = self._child(current, part,
                                       resolve_link=follow_link if is_last else True,
                                       throw=throw,
@@ -363,6 +375,14 @@ class MemoryFileSystem(FileSystem):
         return current
 
 
+    def _get_dir(self, steps):
+        nd = self._get_node(self._fs, steps)
+        if nd.kind != NodeKind.DIR:
+            raise self.lookup_exc_class(errno.ENOTDIR,
+                                        "Not a directory: %s" % '/'.join(steps))
+        return nd
+
+
     def _get_node_for_path(self, base, unc, follow_link=True, throw=True,
                            linklevel=0):
         p = self._path(unc)
@@ -420,13 +440,15 @@ class MemoryFileSystem(FileSystem):
 
 
     def mkdir(self, path):
-        p = self._path(path)
+        p = self._path(path).rstrip("/")
         if p:
-            nd = self._get_node(self._fs, p.split("/")[:-1])
+            nd = self._get_dir(p.split("/")[:-1])
             dir_to_create = p.split("/")[-1]
             if nd.has(dir_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(path))
             self._create_child(nd, dir_to_create, MemoryDir())
+        else:
+            raise OSError(errno.EEXIST, "File exists: %r" % str(path))
 
 
     def exists(self, path):
@@ -450,14 +472,18 @@ class MemoryFileSystem(FileSystem):
 
     def _open_for_read(self, path, binary=False):
         nd = self._get_node_for_path(self._fs, path)
+        if nd.kind == NodeKind.DIR:
+            raise IOError(errno.EISDIR, "File is directory")
         nd.seek(0)
         return MemoryFileProxy(nd, True, binary=binary)
 
 
     def _open_for_write(self, path, binary=False):
         p = self._path(path)
-        nd = self._get_node(self._fs, p.split("/")[:-1])
+        nd = self._get_dir(p.split("/")[:-1])
         file_to_create = p.split("/")[-1]
+        if not file_to_create:
+            raise IOError(errno.EISDIR, "File is directory")
 
         if nd.has(file_to_create):
             cnd = self._child(nd, file_to_create)
@@ -541,8 +567,7 @@ class MemoryFileSystem(FileSystem):
 
 
     def listdir(self, path):
-        nd = self._get_node(self._fs,
-                            [x for x in self._path(path).split("/") if x])
+        nd = self._get_dir(self._path(path).split("/"))
         return sorted(nd.keys())
 
 
@@ -573,11 +598,14 @@ class MemoryFileSystem(FileSystem):
 
 
     def removedir(self, path):
-        prev, _ = self._get_node_prev(self._fs,
-                                            [x for x in self._path(path).split("/") if x])
+        prev, nd = self._get_node_prev(self._fs,
+                                       [x for x in self._path(path).split("/") if x],
+                                       follow_link=False)
         if prev is not None:
             part = path.last()
-            if self._child(prev, part).isempty():
+            if nd.kind != NodeKind.DIR:
+                raise OSError(errno.ENOTDIR, "Not a directory: %r" % path)
+            if nd.isempty():
                 self._del_child(prev, part)
             else:
                 raise OSError(errno.ENOTEMPTY, "Directory not empty: %r" % path)
@@ -617,8 +645,13 @@ class MemoryFileSystem(FileSystem):
 
     def islink(self, path):
         if self._path(path):
-            nd = self._get_node_for_path(self._fs, path, follow_link=False,
-                                         throw=False)
+            try:
+                nd = self._get_node_for_path(self._fs, path, follow_link=False,
+                                             throw=False)
+            except OSError as e:
+                if e.errno == errno.ELOOP:
+                    return False
+                raise
             if nd is None:
                 return False
             return nd.kind == NodeKind.LINK
@@ -626,13 +659,15 @@ class MemoryFileSystem(FileSystem):
 
 
     def symlink(self, target, link_name):
-        p = self._path(link_name)
+        p = self._path(link_name).rstrip("/")
         if p:
-            nd = self._get_node(self._fs, p.split("/")[:-1])
+            nd = self._get_dir(p.split("/")[:-1])
             file_to_create = p.split("/")[-1]
             if nd.has(file_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
             self._create_child(nd, file_to_create, MemorySymlink(target))
+        else:
+            raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
 
 
     def readlink(self, path):
-- 
2.43.0


From a7474e86595e8afd5157060a3f55fa7d356fd1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 20/48] fix: appending to a file in memory

The first thing appended to an empty file was put behind a zero byte,
and a missing file was not created.
---
 abl/vpath/base/memory.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index aad1f0a..03536f8 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -45,11 +45,7 @@ class MemoryFile(object):
 
 
     def __len__(self):
-        pos = self._data.tell()
-        self._data.seek(-1,2)
-        length = self._data.tell() + 1
-        self._data.seek(pos)
-        return length
+        return self.size()
 
 
     def size(self):
@@ -498,7 +494,11 @@ class MemoryFileSystem(FileSystem):
 
 
     def _open_for_append(self, path, binary=False):
+        if not self.exists(path):
+            self._open_for_write(path, binary=binary)
         nd = self._get_node_for_path(self._fs, path)
+        if nd.kind == NodeKind.DIR:
+            raise IOError(errno.EISDIR, "File is directory")
         nd.seek(len(nd))
         return MemoryFileProxy(nd, False, binary=binary)
 
-- 
2.43.0


From 554bb05b25f16b6347045dfb75b7c20813db1066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 21/48] fix: overwriting a file in memory

It lost the permission bits, and failed for a broken link, which creates
the target on other file systems.
---
 abl/vpath/base/memory.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 03536f8..6792a20 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -40,8 +40,6 @@ class MemoryFile(object):
         self._data = BytesIO()
         self._line_reader = None
         self.mtime = self.ctime = time.time()
-        self.mode = 0
-        self.lock = self.FILE_LOCKS[self.path]
 
 
     def __len__(self):
@@ -482,8 +480,11 @@ class MemoryFileSystem(FileSystem):
             raise IOError(errno.EISDIR, "File is directory")
 
         if nd.has(file_to_create):
-            cnd = self._child(nd, file_to_create)
-            if cnd is not None and cnd.kind == NodeKind.DIR:
+            cnd = self._child(nd, file_to_create, throw=False)
+            if cnd is None:
+                # the target of a broken link is created
+                return self._open_for_write(nd.get(file_to_create).target, binary=binary)
+            if cnd.kind == NodeKind.DIR:
                 raise IOError(errno.EISDIR, "File is directory" )
             cnd.reset()
             return MemoryFileProxy(cnd, False, binary=binary)
-- 
2.43.0


From 48a8a8ed17fb041b3e6468d628f506bf51196963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 22/48] fix: file locks are shared by all memory file systems

Files with the same path locked each other, and creating a memory file
system forgot the locks held in others.
---
 abl/vpath/base/memory.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 6792a20..f6891aa 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -25,15 +25,13 @@ class MemoryFile(object):
 
     kind = NodeKind.FILE
 
-    FILE_LOCKS = defaultdict(threading.Lock)
-
-    def __init__(self, path):
+    def __init__(self, path, lock):
         self.path = path
         self._data = BytesIO()
         self._line_reader = None
         self.mtime = self.ctime = time.time()
         self.mode = 0
-        self.lock = self.FILE_LOCKS[self.path]
+        self.lock = lock
 
 
     def reset(self):
@@ -302,7 +300,7 @@ class MemoryFileSystem(FileSystem):
         self.lookup_exc_class = OSError
         self._fs = MemoryDir()
         self.next_op_callbacks = {}
-        MemoryFile.FILE_LOCKS.clear()
+        self.file_locks = defaultdict(threading.Lock)
 
 
     def _child(self, parent, name, resolve_link=True, throw=True, linklevel=0):
@@ -489,7 +487,7 @@ class MemoryFileSystem(FileSystem):
             cnd.reset()
             return MemoryFileProxy(cnd, False, binary=binary)
         else:
-            f = MemoryFile(p)
+            f = MemoryFile(p, self.file_locks[p])
             self._create_child(nd, file_to_create, f)
             return MemoryFileProxy(f, False, binary=binary)
 
@@ -622,13 +620,13 @@ class MemoryFileSystem(FileSystem):
                     next_op_callback=SENTINEL):
         if lock is not self.SENTINEL and lock:
             p = self._path(path)
-            lock = MemoryFile(p).lock
+            lock = self.file_locks[p]
             res = lock.acquire()
             assert res, "you tried to double-lock a file, that's currently not supported"
 
         if unlock is not self.SENTINEL and unlock:
             p = self._path(path)
-            lock = MemoryFile(p).lock
+            lock = self.file_locks[p]
             lock.release()
 
         if mtime is not self.SENTINEL:
-- 
2.43.0


From 8246d4bb739f741538d5f68cfc59f6093796f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 23/48] fix: locking a file in memory truncates it

The content was lost before the lock was obtained, even if the attempt
failed. As for local files, the holder now appends, and it is no error
if the file to clean up is already gone.
---
 abl/vpath/base/memory.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index f6891aa..5d789ee 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -12,6 +12,7 @@ from collections import defaultdict
 from io import BytesIO
 
 from .fs import FileSystem, BaseUri
+from .exceptions import FileDoesNotExistError
 
 from abl.util import Bunch, LockFileObtainException
 
@@ -257,7 +258,7 @@ class MemoryLock(object):
 
 
     def __enter__(self):
-        mfile = self.fs.open(self.path, "w", mimetype='application/octet-stream')
+        mfile = self.fs.open(self.path, "a", mimetype='application/octet-stream')
         self.lock = mfile.lock
         if self.fail_on_lock:
             if not self.lock.acquire(False):
@@ -270,7 +271,11 @@ class MemoryLock(object):
     def __exit__(self, unused_exc_type, unused_exc_val, unused_exc_tb):
         self.lock.release()
         if self.cleanup:
-            self.path.remove()
+            try:
+                self.path.remove()
+            except FileDoesNotExistError:
+                # somebody else has cleaned up
+                pass
 
 
 class LookupExceptionClass(object):
-- 
2.43.0


From fa4f6bc6e08880320f982913cdcf4d1f45cfda82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 24/48] fix: handles of files in memory behave like those of
 other files

All handles of a file shared one position, which was also moved by the
dump. The size given to read counted bytes instead of characters in text
mode, which failed within a character. Read-only handles could be
written to, write-only ones read by lines or by iteration, '+' was
ignored, and truncate did not extend.
---
 abl/vpath/base/memory.py | 104 +++++++++++++++++++++++++++++----------
 1 file changed, 77 insertions(+), 27 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 5d789ee..e4339d2 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -75,13 +75,12 @@ class MemoryFile(object):
 
 
     def truncate(self, pos=None):
+        if pos is not None and pos > len(self):
+            self._data.seek(len(self))
+            self._data.write(b'\0' * (pos - len(self)))
         return self._data.truncate(pos)
 
 
-    def seekable(self):
-        return self._data.seekable()
-
-
     def __unicode__(self):
         return self._data.getvalue().decode('utf-8')
 
@@ -129,10 +128,14 @@ class MemoryFile(object):
 
 class MemoryFileProxy(object):
 
-    def __init__(self, mem_file, readable, binary=False):
+    def __init__(self, mem_file, readable, binary=False, writable=True, append=False):
         self.mem_file = mem_file
         self.readable = readable
+        self.writable = writable
+        self.append = append
         self.binary = binary
+        # every handle has its own position
+        self.pos = len(mem_file) if append else 0
 
 
     def encode(self, data):
@@ -143,14 +146,56 @@ class MemoryFileProxy(object):
         return data if self.binary else data.decode('utf-8')
 
 
-    def read(self, *args, **kwargs):
-        if not self.readable:
+    def _call(self, name, *args):
+        self.mem_file.seek(self.pos)
+        result = getattr(self.mem_file, name)(*args)
+        self.pos = self.mem_file.tell()
+        return result
+
+
+    def _check_mode(self, allowed):
+        if not allowed:
             raise IOError(errno.EBADF, "bad file descriptor")
-        return self.decode(self.mem_file.read(*args, **kwargs))
 
 
-    def write(self, data, *args, **kwargs):
-        return self.mem_file.write(self.encode(data), *args, **kwargs)
+    def read(self, size=-1):
+        self._check_mode(self.readable)
+        if self.binary or size is None or size < 0:
+            return self.decode(self._call("read", size))
+        # the size is given in characters
+        start = self.pos
+        text = self.decode(self._call("read"))[:size]
+        self.pos = start + len(self.encode(text))
+        return text
+
+
+    def write(self, data):
+        self._check_mode(self.writable)
+        if self.append:
+            self.pos = len(self.mem_file)
+        self._call("write", self.encode(data))
+        return len(data)
+
+
+    def seek(self, to, whence=0):
+        self._call("seek", to, whence)
+        return self.pos
+
+
+    def tell(self):
+        return self.pos
+
+
+    def truncate(self, pos=None):
+        self._check_mode(self.writable)
+        if pos is None:
+            pos = self.pos
+        self.mem_file.truncate(pos)
+        return pos
+
+
+    def close(self):
+        pass
 
 
     def __getattr__(self, name):
@@ -170,19 +215,24 @@ class MemoryFileProxy(object):
 
 
     def __next__(self):
-        return self.decode(next(self.mem_file))
+        line = self.readline()
+        if line:
+            return line
+        else:
+            raise StopIteration
 
 
     next = __next__ # Python 2 iterator interface
 
 
     def readline(self):
-        return self.decode(self.mem_file.readline())
+        self._check_mode(self.readable)
+        return self.decode(self._call("readline"))
 
 
     def readlines(self):
-        for line in self.mem_file.readlines():
-            yield self.decode(line)
+        for line in self:
+            yield line
 
 
 class MemoryDir(object):
@@ -467,15 +517,14 @@ class MemoryFileSystem(FileSystem):
             self.next_op_callbacks[p](path, func)
 
 
-    def _open_for_read(self, path, binary=False):
+    def _open_for_read(self, path, binary=False, writable=False):
         nd = self._get_node_for_path(self._fs, path)
         if nd.kind == NodeKind.DIR:
             raise IOError(errno.EISDIR, "File is directory")
-        nd.seek(0)
-        return MemoryFileProxy(nd, True, binary=binary)
+        return MemoryFileProxy(nd, True, binary=binary, writable=writable)
 
 
-    def _open_for_write(self, path, binary=False):
+    def _open_for_write(self, path, binary=False, readable=False):
         p = self._path(path)
         nd = self._get_dir(p.split("/")[:-1])
         file_to_create = p.split("/")[-1]
@@ -486,36 +535,37 @@ class MemoryFileSystem(FileSystem):
             cnd = self._child(nd, file_to_create, throw=False)
             if cnd is None:
                 # the target of a broken link is created
-                return self._open_for_write(nd.get(file_to_create).target, binary=binary)
+                return self._open_for_write(nd.get(file_to_create).target, binary=binary,
+                                            readable=readable)
             if cnd.kind == NodeKind.DIR:
                 raise IOError(errno.EISDIR, "File is directory" )
             cnd.reset()
-            return MemoryFileProxy(cnd, False, binary=binary)
+            return MemoryFileProxy(cnd, readable, binary=binary)
         else:
             f = MemoryFile(p, self.file_locks[p])
             self._create_child(nd, file_to_create, f)
-            return MemoryFileProxy(f, False, binary=binary)
+            return MemoryFileProxy(f, readable, binary=binary)
 
 
-    def _open_for_append(self, path, binary=False):
+    def _open_for_append(self, path, binary=False, readable=False):
         if not self.exists(path):
             self._open_for_write(path, binary=binary)
         nd = self._get_node_for_path(self._fs, path)
         if nd.kind == NodeKind.DIR:
             raise IOError(errno.EISDIR, "File is directory")
-        nd.seek(len(nd))
-        return MemoryFileProxy(nd, False, binary=binary)
+        return MemoryFileProxy(nd, readable, binary=binary, append=True)
 
 
     def open(self, path, options, mimetype):
         with LookupExceptionClass(self, IOError):
             binary = (options and "b" in options)
+            update = (options and "+" in options)
             if options is None or "r" in options:
-                return self._open_for_read(path, binary=binary)
+                return self._open_for_read(path, binary=binary, writable=update)
             elif "w" in options:
-                return self._open_for_write(path, binary=binary)
+                return self._open_for_write(path, binary=binary, readable=update)
             elif "a" in options:
-                return self._open_for_append(path, binary=binary)
+                return self._open_for_append(path, binary=binary, readable=update)
             else:
                 raise OSError(errno.EINVAL, "The mode flag is not valid")
 
-- 
2.43.0


From a4d03484f9313f4e277986022ca546a5a684ff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 25/48] fix: dump of a memory file system with binary files

The option to leave out binary content, and any content that is not
UTF-8, raised an error.
---
 abl/vpath/base/memory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index e4339d2..8bd1673 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -578,15 +578,15 @@ class MemoryFileSystem(FileSystem):
         def traverse(current, path="memory:///"):
             for name, value in sorted(current.items()):
                 if value.kind == NodeKind.FILE:
+                    content = bytes(value).decode("utf-8", "replace")
                     if no_binary:
                         mt, _ = mimetypes.guess_type(name)
                         if mt in self.BINARY_MIME_TYPES:
                             hash_ = hashlib.md5()
-                            hash_.update(value)
-                            value = "Binary: %s" % hash_.hexdigest()
-                    proxy = MemoryFileProxy(value, readable=True, binary=False)
+                            hash_.update(bytes(value))
+                            content = "Binary: %s" % hash_.hexdigest()
                     outf.write("--- START %s%s ---\n" % (path, name))
-                    outf.write(proxy.read())
+                    outf.write(content)
                     outf.write("\n--- END ---\n\n")
                 elif value.kind == NodeKind.LINK:
                     outf.write("LINK: %s%s -> %s\n" % (path, name, value.target))
-- 
2.43.0


From 8332a3952899599545e273c933c24334e0a402e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 26/48] fix: querying an archive before its first use or before
 it exists

exists, isfile and isdir failed unless the archive had been opened by
another operation before; reading a member of a missing archive and
listing a missing directory in it did not report that it does not exist.
Closing the connection closes the archive.
---
 abl/vpath/base/zip.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 62db8ab..e6a7901 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -107,11 +107,28 @@ class ZipFileSystem(FileSystem):
         self._ziphandle = None
 
 
+    def close(self):
+        self.close_zip()
+
+
     def close_zip(self):
         if self._ziphandle is not None:
             self._ziphandle.close()
+            self._ziphandle = None
         if self._file_handle is not None:
             self._file_handle.close()
+            self._file_handle = None
+
+
+    def _members(self):
+        """
+        @return: names of all members, none if there is no archive yet
+        """
+        if not self._zip_file_path().exists():
+            return []
+        if self._ziphandle is None:
+            self.open_zip()
+        return self._ziphandle.namelist()
 
 
     def open_zip(self, options=None):
@@ -132,9 +149,11 @@ class ZipFileSystem(FileSystem):
 
 
     def open(self, unc, options=None, mimetype='application/octet-stream'):
-        self.open_zip(options)
         if options is None:
             options = 'r'
+        if 'r' in options and not self._zip_file_path().exists():
+            raise FileDoesNotExistError(str(unc))
+        self.open_zip(options)
         if 'r' in options:
             return self._open_for_reading(unc, options)
         elif 'w' in options:
@@ -182,17 +201,11 @@ class ZipFileSystem(FileSystem):
 
 
     def listdir(self, unc):
-        if not self._zip_file_path().exists():
-            return []
-        if self._ziphandle is None:
-            self.open_zip()
         path_string = self._path(unc)
-        if path_string == '/' and self._ziphandle is None:
-            return []
         if not self.isdir(unc):
             raise FileDoesNotExistError()
         content_set = set()
-        for item in self._ziphandle.namelist():
+        for item in self._members():
             citem = content_item(path_string, item)
             if citem:
                 content_set.add(citem)
@@ -204,7 +217,7 @@ class ZipFileSystem(FileSystem):
         path_string = self._path(unc)
         if path_string == '/':
             return True
-        for item in self._ziphandle.namelist():
+        for item in self._members():
             result = compare_path_strings(path_string, item)
             if result in expected:
                 return True
-- 
2.43.0


From 917e75aee15b7a5ed1a487c32c8e07a968999995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 27/48] fix: members of archives written without a with block
 are lost

Closing the handle did not write the member, and using the archive
between opening and closing of a handle broke reading and writing.
---
 abl/vpath/base/zip.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index e6a7901..40f1f98 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -22,6 +22,14 @@ class WriteStatement(object):
 
 
     def __exit__(self, etype, evalue, etraceback):
+        self.close()
+
+
+    def close(self):
+        if self.byte_buffer.closed:
+            return
+        # the archive might have been used for something else meanwhile
+        self.zip_backend.open_zip('w')
         self.zip_backend._ziphandle.writestr(self.path_string,
                                              self.byte_buffer.getvalue())
         self.byte_buffer.close()
@@ -163,8 +171,8 @@ class ZipFileSystem(FileSystem):
     def _open_for_reading(self, unc, options):
         path_string = self._path(unc)
         try:
-            self._ziphandle.getinfo(path_string)
-            return self._ziphandle.open(path_string)
+            # independent of what happens to the archive from now on
+            return BytesIO(self._ziphandle.read(path_string))
         except KeyError:
             raise FileDoesNotExistError()
 
-- 
2.43.0


From 56b8e116681d0e02c190af9b88e21e36400ba770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 28/48] fix: archives made by other tools look empty

Members are usually stored with relative names. A trailing slash in the
path of a directory is ignored as in other file systems.
---
 abl/vpath/base/zip.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 40f1f98..f2bd244 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -30,8 +30,8 @@ class WriteStatement(object):
             return
         # the archive might have been used for something else meanwhile
         self.zip_backend.open_zip('w')
-        self.zip_backend._ziphandle.writestr(self.path_string,
-                                             self.byte_buffer.getvalue())
+        name = self.zip_backend._members().get(self.path_string, self.path_string)
+        self.zip_backend._ziphandle.writestr(name, self.byte_buffer.getvalue())
         self.byte_buffer.close()
         self.zip_backend.close_zip()
         self.zip_backend.open_zip()
@@ -130,13 +130,20 @@ class ZipFileSystem(FileSystem):
 
     def _members(self):
         """
-        @return: names of all members, none if there is no archive yet
+        @return: the stored names of all members by their path, none if there
+                 is no archive yet
         """
         if not self._zip_file_path().exists():
-            return []
+            return {}
         if self._ziphandle is None:
             self.open_zip()
-        return self._ziphandle.namelist()
+        # other tools store relative names
+        return dict(('/' + name.lstrip('/'), name)
+                    for name in self._ziphandle.namelist())
+
+
+    def _path(self, unc):
+        return '/' + super(ZipFileSystem, self)._path(unc).strip('/')
 
 
     def open_zip(self, options=None):
@@ -172,7 +179,7 @@ class ZipFileSystem(FileSystem):
         path_string = self._path(unc)
         try:
             # independent of what happens to the archive from now on
-            return BytesIO(self._ziphandle.read(path_string))
+            return BytesIO(self._ziphandle.read(self._members()[path_string]))
         except KeyError:
             raise FileDoesNotExistError()
 
-- 
2.43.0


From 3f2b6b7448b9102ec3a7fe1736bceafeaaac30d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 29/48] fix: the root of an archive is reported as a file

Members were also still reported after the archive had been removed.
---
 abl/vpath/base/zip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index f2bd244..7e3cac0 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -134,6 +134,7 @@ class ZipFileSystem(FileSystem):
                  is no archive yet
         """
         if not self._zip_file_path().exists():
+            self.close_zip()
             return {}
         if self._ziphandle is None:
             self.open_zip()
@@ -231,7 +232,7 @@ class ZipFileSystem(FileSystem):
     def _ispart(self, unc, expected):
         path_string = self._path(unc)
         if path_string == '/':
-            return True
+            return ISDIR in expected
         for item in self._members():
             result = compare_path_strings(path_string, item)
             if result in expected:
-- 
2.43.0


From 3560167fce7fae2bd7a7fb90059442c2920ca798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 30/48] fix: working directory returns to where it was created

It has to return to the directory that was left when entering it, also
if it is used more than once or nested.
---
 abl/vpath/base/misc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/misc.py b/abl/vpath/base/misc.py
index 193582d..be60321 100644
--- a/abl/vpath/base/misc.py
+++ b/abl/vpath/base/misc.py
@@ -41,13 +41,15 @@ class TempFileHandle(object):
 class WorkingDirectory(object):
 
     def __init__(self, working_path):
-        self.cwd = os.getcwd()
+        self.cwds = []
         self.working_path = working_path
 
     def __enter__(self):
+        cwd = os.getcwd()
         os.chdir(self.working_path.path)
+        self.cwds.append(cwd)
 
     def __exit__(self, exc_type, exc_value, traceback):
-        os.chdir(self.cwd)
+        os.chdir(self.cwds.pop())
 
 
-- 
2.43.0


From 289bdae67335991ee9de2373a636a2cf4507ec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 31/48] fix: temporary file handle removes another file

Closing it a second time, as at the end of a with block, failed or
removed a new file of the same name; so did closing one with a relative
name after changing the working directory.
---
 abl/vpath/base/misc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/misc.py b/abl/vpath/base/misc.py
index be60321..315ca7d 100644
--- a/abl/vpath/base/misc.py
+++ b/abl/vpath/base/misc.py
@@ -22,6 +22,8 @@ class TempFileHandle(object):
     def __init__(self, tmpfilename):
         self.tmpfilename = tmpfilename
         self.handle = open(self.tmpfilename)
+        # the working directory might have changed when closing
+        self._path_to_remove = os.path.abspath(tmpfilename)
 
     def __enter__(self):
         return self
@@ -33,8 +35,10 @@ class TempFileHandle(object):
         return self.handle.read(limit)
 
     def close(self):
+        if self.handle.closed:
+            return
         retval = self.handle.close()
-        os.unlink(self.tmpfilename)
+        os.unlink(self._path_to_remove)
         return retval
 
 
-- 
2.43.0


From 82db412526b9bbfccfece33ed505f6dd0f53be82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 32/48] fix: relative paths with '://' further down are taken
 for an URI

---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 5f7cd0f..531f1a0 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -284,7 +284,7 @@ class BaseUri(object):
             if uri.startswith('file://'):
                 uri = uri[7:]
             uri = normalize_uri(uri, '\\')
-            if uri.startswith(('/', '.')) or not '://' in uri:
+            if uri.startswith(('/', '.')) or not re.match("[^:/?#]+://", uri):
                 if not (uri.startswith(('/', './')) or uri == '.'):
                     uri = './'+uri
                 uri = 'file://'+uri
-- 
2.43.0


From 880f1f50885049ba78bd58ab4c9c52042059e57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 33/48] fix: every path with a colon as second character loses
 it

Only a letter followed by a colon and a slash is a drive.
---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 531f1a0..c1ec06c 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -185,7 +185,7 @@ atexit.register(CONNECTION_REGISTRY.shutdown)
 def normalize_uri(uri, sep='/'):
     if sep != '/':
         uri = uri.replace(sep, '/')
-        if len(uri) > 1 and uri[1] == ':':
+        if re.match(r"[a-zA-Z]:([/?]|\Z)", uri):
             uri = '/'+uri[0]+uri[2:]
     return uri
 
-- 
2.43.0


From 7bffd407ad61e1c8943bc5a2feef23696b07a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 34/48] fix: moving a local directory creates missing parent
 directories

---
 abl/vpath/base/localfs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index e43c968..e56874b 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -4,6 +4,7 @@
 #******************************************************************************
 
 import datetime
+import errno
 import logging
 import os
 import shutil
@@ -161,6 +162,9 @@ class LocalFileSystem(FileSystem):
             if dest.isdir():
                 # only possible if a directory replaces an empty one
                 return os.rename(source.path, dest.path)
+            if source.isdir() and not os.path.isdir(os.path.dirname(os.path.abspath(dest.path))):
+                # shutil.move would create it
+                raise OSError(errno.ENOENT, "No such directory: %s" % dest)
             return shutil.move(source.path, dest.path)
         else:
             return super(LocalFileSystem, self).move(source, dest)
-- 
2.43.0


From 771eeb825072d9aabe19bd6d529e3e6516311627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 35/48] fix: copying a link to itself through a directory loses
 it

---
 abl/vpath/base/fs.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index c1ec06c..e18f104 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -897,8 +897,20 @@ class FileSystem(object):
                 "Can not copy %r to itself or into itself: %r" % (source, dest))
 
 
+    def _check_same_entry(self, source, dest):
+        """
+        Raise an error if both are the same entry of the same directory.
+        """
+        if (source.last() == dest.last() and
+            self._contains(source.directory(), dest.directory()) and
+            self._contains(dest.directory(), source.directory())):
+            raise shutil.SameFileError("%s and %s are the same" % (source, dest))
+
+
     def _copy_link(self, source, dest):
         assert self.islink(source)
+        if dest.islink():
+            self._check_same_entry(source, dest)
         target = self.readlink(source)
         if source.isfile() and dest.isfile() and not dest.islink():
             self._check_copy(source, dest)
@@ -1013,10 +1025,7 @@ class FileSystem(object):
             # a link is replaced itself, whatever it refers to
             if isdir:
                 raise OSError(errno.ENOTDIR, "Not a directory: %s" % destination)
-            if (source.last() == destination.last() and
-                self._contains(source.directory(), destination.directory()) and
-                self._contains(destination.directory(), source.directory())):
-                raise shutil.SameFileError("%s and %s are the same" % (source, destination))
+            self._check_same_entry(source, destination)
             destination.remove()
         elif destination.isdir():
             # only an empty directory is replaced, and only by a directory
-- 
2.43.0


From 2be1846591a19ade430b0ead92655fed8ac8af17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 36/48] fix: links copied from memory to disk have a relative
 target

---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index e18f104..57afa70 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -917,7 +917,7 @@ class FileSystem(object):
         if dest.isfile() or dest.islink():
             dest.connection.removefile(dest)
         if dest.get_connection() is not self:
-            target = dest._derive(self._path(target))
+            target = dest._derive(target.path if isinstance(target, BaseUri) else target)
         dest.get_connection().symlink(target, dest)
 
 
-- 
2.43.0


From 6cf38b5f5cf5316e61e069a8ba14c7d713094b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 37/48] fix: temporary file handle opened below the parent of a
 link

The path to remove must be the one that was opened, 'link/../name' is not
'name'.
---
 abl/vpath/base/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/misc.py b/abl/vpath/base/misc.py
index 315ca7d..bdc60fc 100644
--- a/abl/vpath/base/misc.py
+++ b/abl/vpath/base/misc.py
@@ -23,7 +23,7 @@ class TempFileHandle(object):
         self.tmpfilename = tmpfilename
         self.handle = open(self.tmpfilename)
         # the working directory might have changed when closing
-        self._path_to_remove = os.path.abspath(tmpfilename)
+        self._path_to_remove = os.path.join(os.getcwd(), tmpfilename)
 
     def __enter__(self):
         return self
-- 
2.43.0


From 0930abbe71ceed65430e2ab2e09132c10a2f8a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 38/48] fix: moving to another file system treats what is at
 the destination as a rename does

---
 abl/vpath/base/localfs.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index e56874b..6103639 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -159,12 +159,25 @@ class LocalFileSystem(FileSystem):
             if ((source.isdir() and not source.islink()) or
                 (source.isfile() and dest.isfile() and not dest.islink())):
                 self._check_copy(source, dest)
-            if dest.isdir():
-                # only possible if a directory replaces an empty one
+            try:
                 return os.rename(source.path, dest.path)
-            if source.isdir() and not os.path.isdir(os.path.dirname(os.path.abspath(dest.path))):
-                # shutil.move would create it
-                raise OSError(errno.ENOENT, "No such directory: %s" % dest)
+            except OSError as e:
+                if e.errno != errno.EXDEV:
+                    raise
+            # shutil.move copies to another file system, but it would write
+            # through a link, move into an empty directory and create parents
+            os.lstat(source.path)
+            if not source.islink() and source.isdir():
+                if dest.islink() or dest.isfile():
+                    raise OSError(errno.ENOTDIR, "Not a directory: %s" % dest)
+                if dest.isdir():
+                    self.removedir(dest)
+                elif not os.path.isdir(os.path.dirname(os.path.abspath(dest.path))):
+                    raise OSError(errno.ENOENT, "No such directory: %s" % dest)
+            elif dest.islink() or (source.islink() and dest.isfile()):
+                self.removefile(dest)
+            elif dest.isdir():
+                raise OSError(errno.EISDIR, "Is a directory: %s" % dest)
             return shutil.move(source.path, dest.path)
         else:
             return super(LocalFileSystem, self).move(source, dest)
-- 
2.43.0


From 6a543f74e7e64d2c6a46999fd549980172a381c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 39/48] fix: recognise schemes with digits and dots

---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 57afa70..cdfeafe 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -234,7 +234,7 @@ def with_connection(func, self, *args, **argd):
 
 #============================================================================
 
-scheme_re = re.compile("([a-z+-]+)://")
+scheme_re = re.compile("([a-zA-Z][a-zA-Z0-9+.-]+)://")
 
 # alternative notation for a relative path: scheme:///./path
 slash_dot_re = re.compile(r"/\.\.?(/|\Z)")
-- 
2.43.0


From 2ce0668c0ef50b8d78b092e4a5417844373df28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 40/48] fix: parse URIs without an authority

---
 abl/vpath/base/uriparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index fabc56c..fd809de 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -183,7 +183,7 @@ class URLParser:
 
     def parse(self, urlinfo):
         scheme, authority, path, query, frag = urisplit(urlinfo)
-        user, passwd, host, port = split_authority(authority)
+        user, passwd, host, port = split_authority(authority or '')
         duser, dpasswd, dhost, dport, dpath, dquery, dfrag = self._defaults
         if user is None:
             user = duser
-- 
2.43.0


From 5c9d740a7ee70f0b7f9e83a8b87cf6b4bf61d9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 41/48] fix: put URIs together from the pieces that parsing
 them gives

---
 abl/vpath/base/uriparse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index fd809de..9c95c18 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -203,6 +203,9 @@ class URLParser:
 
     def unparse(self, pieces):
         authority = join_authority(pieces[:4])
+        if not authority and not (pieces[4] or '/').startswith('/'):
+            # there is none, as in 'urn:name'
+            authority = None
         return uriunsplit(('', authority, pieces[4], pieces[5], pieces[6]))
 
 class HttpURLParser(URLParser):
@@ -317,7 +320,8 @@ class URIParser(object):
         the rest of the pieces can be interpreted.
 
         """
-        return self.parser_for(pieces[0])(defaults).unparse(pieces)
+        scheme = pieces[0]
+        return scheme + ':' + self.parser_for(scheme)(defaults).unparse(pieces[1:])
 
     # these work on any URI
     def scheme_of(self, uri):
-- 
2.43.0


From 1574e4cb6135466b33fb34e1dc577b7c006a54d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 42/48] fix: the non-scheme part of a URI goes up to its end

---
 abl/vpath/base/uriparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 9c95c18..2caa185 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -330,7 +330,7 @@ class URIParser(object):
 
     def info_of(self, uri):
         """Return the non-scheme part of any URI."""
-        return uri.split(':')[1]
+        return uri.split(':', 1)[1]
 
     def parser_for(self, uri):
         """Return the Parser object used to parse a particular URI.
-- 
2.43.0


From 422747f4eeab2ac7fb9870c2f6c9041bc877e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:28 +0000
Subject: [PATCH 43/48] fix: defaults for the first parts of a URL only

---
 abl/vpath/base/uriparse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 2caa185..5a9aab6 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -173,10 +173,11 @@ class URLParser:
     _defaults = (None, None, None, None, None, None, None)
 
     def __init__(self, defaults=None):
-        if defaults:
-            self._defaults = defaults
         dlist = list(self._defaults)
-        for d in range(len(self._defaults)):
+        if defaults:
+            # they might be given for the first parts only
+            dlist[:len(defaults)] = defaults
+        for d in range(len(dlist)):
             if dlist[d]:
                 dlist[d] = str(dlist[d])
         self._defaults = dlist
-- 
2.43.0


From 789fb802d90b359e1474e2a84f9848673125c5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 44/48] fix: use the given defaults for mailto URIs

---
 abl/vpath/base/uriparse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 5a9aab6..ec68549 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -261,8 +261,13 @@ class MailtoURIParser(URLParser):
 
     def parse(self, urlinfo):
         scheme, authority, path, query, frag = urisplit(urlinfo)
-        user, host = path.split('@', 1)
-        return (user, host, query, frag)
+        user, _, host = path.partition('@')
+        duser, dhost, dquery, dfrag = self._defaults
+        if query is None:
+            query = dquery
+        if frag is None:
+            frag = dfrag
+        return (user or duser, host or dhost, query, frag)
 
     def unparse(self, pieces):
         path = pieces[0] + '@' + pieces[1]
-- 
2.43.0


From 316537c4a2b12a1d7f6f1d8bf5edf370303af8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 45/48] fix: threads that ask for the same new backend at once
 all get the one created first

---
 abl/vpath/base/fs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index cdfeafe..34903b3 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -77,6 +77,9 @@ class ConnectionRegistry(object):
 
     def create(self, scheme, key, extras):
         with self.creation_locks[scheme]:
+            if key in self.connections:
+                # another thread was faster
+                return
             conn = self.schemes[scheme](*key[1:-1], **extras)
             self.connections[key] = conn
 
-- 
2.43.0


From 37da50a5a769a2afe9c91323be482c48dea8aa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:59 +0000
Subject: [PATCH 46/48] fix: clean-up passes that overlap close no connection
 twice

---
 abl/vpath/base/fs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 34903b3..8a9f933 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -69,6 +69,7 @@ class ConnectionRegistry(object):
         self.run_clean_thread = True
         self.clean_interval = clean_interval
         self.clean_timeout = clean_timeout
+        self.cleanup_lock = threading.RLock()
         self.cleaner_thread = threading.Thread(target=self.cleaner)
         self.cleaner_thread.setDaemon(True)
         self.cleaner_thread.start()
@@ -137,6 +138,12 @@ class ConnectionRegistry(object):
 
 
     def cleanup(self, force=False):
+        # the cleaner and a shutdown must not close the same connections
+        with self.cleanup_lock:
+            self._cleanup(force)
+
+
+    def _cleanup(self, force):
         now = time.time()
         for key, conn in list(self.connections.items()):
             if ((now - conn.last_used) > self.clean_timeout) or force:
-- 
2.43.0


From 264ad97a91b765ae9a9df817b705bfdd12bfe057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:44 +0000
Subject: [PATCH 47/48] fix: URIs can be copied with copy and pickle

---
 abl/vpath/base/fs.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 8a9f933..d23e3ab 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -387,9 +387,19 @@ class BaseUri(object):
 
 
     def __getattr__(self, attr):
+        if attr == 'parse_result':
+            # not yet there while a copy is made
+            raise AttributeError(attr)
         return getattr(self.parse_result, attr)
 
 
+    def __getstate__(self):
+        # the backend is asked for again when it is needed
+        state = self.__dict__.copy()
+        state.pop('connection', None)
+        return state
+
+
     def __eq__(self, other):
         if isinstance(other, BaseUri):
             return self.parse_result == other.parse_result
-- 
2.43.0


From 0220f6cff30dcd68f2693c04aaa540c4cee7c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:44 +0000
Subject: [PATCH 48/48] fix: an installed plugin that is no backend breaks the
 import of the library

---
 abl/vpath/base/fs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index d23e3ab..a65b224 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1195,9 +1195,10 @@ except AttributeError:
 for entrypoint in selected_entry_points:
     try:
         plugin_class = entrypoint.load()
+        scheme, uri_class = plugin_class.scheme, plugin_class.uri
     except Exception as exp:
         print("Could not load entrypoint", entrypoint)
         traceback.print_exc()
         continue
-    CONNECTION_REGISTRY.register(plugin_class.scheme, plugin_class)
-    SCHEME_REGISTRY[plugin_class.scheme] = plugin_class.uri
+    CONNECTION_REGISTRY.register(scheme, plugin_class)
+    SCHEME_REGISTRY[scheme] = uri_class
-- 
2.43.0

