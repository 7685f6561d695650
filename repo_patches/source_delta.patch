From 39f9c2594807dbe8c6b4dfdb8e4ab9923ae9a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:40 +0000
Subject: [PATCH 01/79] fix: opendoc() opens package bytes and flat XML files

bytes were handed to the file manager and raised ValueError, flat XML
documents were unreachable and raised KeyError.
---
 ezodf/document.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 27552df..ef1c947 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -37,9 +37,9 @@ def is_valid_stream(buffer):
 
 
 def opendoc(filename):
-    if is_stream(filename):
+    if is_stream(filename) or is_valid_stream(filename):
         fm = ByteStreamManager(filename)
-    elif filename is not None:
+    elif is_zipfile(filename):
         fm = FileManager(filename)
     else:
         try:
-- 
2.43.0


From 5d62afa6168335cd33af0608e5056a980a3643e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 02/79] fix: detect document type by file extension

MIMETYPES has extensions without a dot, so the last fallback always
raised KeyError.
---
 ezodf/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index ef1c947..cfe23b5 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -63,7 +63,7 @@ def __detect_mime_type(file_manager):
         mime_type = entry.get(CN('manifest:media-type'))
     else:
         # use file ext name
-        ext = os.path.splitext(file_manager.zipname)[1]
+        ext = os.path.splitext(file_manager.zipname)[1].lstrip('.')
         mime_type = MIMETYPES[ext]
     return mime_type
 
-- 
2.43.0


From b56a6be0f5ac0292e2b4341a6134b7c306c75cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 03/79] fix: doctype of flat XML documents follows their
 mimetype

It was always the 'filetype' parameter, which opendoc() does not pass;
the error for an unexpected root tag raised AttributeError instead.
---
 ezodf/document.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index cfe23b5..994b96d 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -146,7 +146,6 @@ class FlatXMLDocument(_BaseDocument):
         super(FlatXMLDocument, self).__init__()
         self.docname=filename
         self.mimetype = MIMETYPES[filetype]
-        self.doctype = filetype
 
         if xmlnode is None: # new document
             self.xmlnode = etree.Element(self.TAG, nsmap=ALL_NSMAP)
@@ -154,10 +153,11 @@ class FlatXMLDocument(_BaseDocument):
             self.xmlnode = xmlnode
             self.mimetype = xmlnode.get(CN('office:mimetype')) # required
         else:
-            raise ValueError("Unexpected root tag: %s" % self.xmlnode.tag)
+            raise ValueError("Unexpected root tag: %s" % xmlnode.tag)
 
         if self.mimetype not in frozenset(MIMETYPES.values()):
             raise TypeError("Unsupported mimetype: %s" % self.mimetype)
+        self.doctype = FILE_EXT_FOR_MIMETYPE[self.mimetype]
 
         self._setup()
         self._create_shortcuts(self.body)
-- 
2.43.0


From e085bde6f72c9765edb2c1291165e90a88388b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 04/79] fix: flat XML documents use their own office:meta
 element

The meta data of a flat document was looked up in (and written to) an
additional <office:document-meta> element, so existing meta data was
invisible and never updated.
---
 ezodf/document.py | 4 ++--
 ezodf/meta.py     | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 994b96d..2c38daf 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -164,8 +164,8 @@ class FlatXMLDocument(_BaseDocument):
 
 
     def _setup(self):
-        self.meta = OfficeDocumentMeta(subelement(self.xmlnode, CN('office:document-meta')))
-        self.styles = wrap(subelement(self.xmlnode, CN('office:settings')))
+        self.meta = OfficeDocumentMeta(self.xmlnode)
+        self.settings = wrap(subelement(self.xmlnode, CN('office:settings')))
         self.scripts = wrap(subelement(self.xmlnode, CN('office:scripts')))
         self.fonts = wrap(subelement(self.xmlnode, CN('office:font-face-decls')))
         self.styles = wrap(subelement(self.xmlnode, CN('office:styles')))
diff --git a/ezodf/meta.py b/ezodf/meta.py
index 056deb4..8b16f26 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -29,12 +29,13 @@ TAGS = {
 @register_class
 class OfficeDocumentMeta(XMLMixin):
     TAG = CN('office:document-meta')
+    FLAT_TAG = CN('office:document') # contains <office:meta> in flat XML documents
     generator = GENERATOR
 
     def __init__(self, xmlnode=None):
         if xmlnode is None:
             self.xmlnode = etree.Element(self.TAG, nsmap=META_NSMAP)
-        elif xmlnode.tag == self.TAG:
+        elif xmlnode.tag in (self.TAG, self.FLAT_TAG):
             self.xmlnode = xmlnode
         else:
             raise ValueError("Unexpected root node: %s" % xmlnode.tag)
-- 
2.43.0


From d75be2a736ae53bae94feabaf24777dcc7ec24cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 05/79] fix: inject_style() for flat XML documents

The styles of a flat document are the <office:styles> container itself,
the inherited method raised AttributeError.
---
 ezodf/document.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ezodf/document.py b/ezodf/document.py
index 2c38daf..55502bd 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -173,6 +173,10 @@ class FlatXMLDocument(_BaseDocument):
         self.master_styles = wrap(subelement(self.xmlnode, CN('office:master-styles')))
         self.body = self.get_application_body(self.application_body_tag)
 
+    def inject_style(self, stylexmlstr, where="styles.xml"):
+        style = fake_element(stylexmlstr)
+        self.styles.xmlnode.append(style.xmlnode)
+
     def get_application_body(self, bodytag):
         # The office:body element is just frame element for the real document content:
         # office:text, office:spreadsheet, office:presentation, office:drawing
-- 
2.43.0


From a0852fff56343448ae51c423e1ac38b94e66d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 06/79] fix: saving a new document without filename raises
 IOError

newdoc() sets an empty filename, so save() wrote a temporary file, left
it behind and raised FileNotFoundError.
---
 ezodf/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 55502bd..762f734 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -116,7 +116,7 @@ class _BaseDocument(object):
         self.save()
 
     def save(self):
-        if self.docname is None:
+        if not self.docname:
             raise IOError('No filename specified!')
         observer.broadcast('prepare_saving', root=self.body.get_xmlroot())
         self.meta.touch()
-- 
2.43.0


From 376f3b052a7e16bd2274948b1cc5d952dfee37c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 07/79] fix: support the documented doctypes otc, oti, odm and
 oth

They are listed in the doctype table, but creating or opening such a
document raised KeyError because namespaces and body tag were missing.
---
 ezodf/const.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ezodf/const.py b/ezodf/const.py
index 86b6fc4..442c4cd 100644
--- a/ezodf/const.py
+++ b/ezodf/const.py
@@ -195,7 +195,11 @@ MIMETYPE_NSMAP = {
     "application/vnd.oasis.opendocument.spreadsheet": SPREADSHEET_NSMAP,
     "application/vnd.oasis.opendocument.spreadsheet-template": SPREADSHEET_NSMAP,
     "application/vnd.oasis.opendocument.chart" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.chart-template" : GRAPHICS_NSMAP,
     "application/vnd.oasis.opendocument.image" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.image-template" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.text-master" : TEXT_NSMAP,
+    "application/vnd.oasis.opendocument.text-web" : TEXT_NSMAP,
     "application/vnd.oasis.opendocument.formula" : GRAPHICS_NSMAP,
 }
 
@@ -209,7 +213,11 @@ MIMETYPE_BODYTAG_MAP = {
     "application/vnd.oasis.opendocument.spreadsheet": "office:spreadsheet",
     "application/vnd.oasis.opendocument.spreadsheet-template": "office:spreadsheet",
     "application/vnd.oasis.opendocument.chart" : "office:chart",
+    "application/vnd.oasis.opendocument.chart-template" : "office:chart",
     "application/vnd.oasis.opendocument.image" : "office:image",
+    "application/vnd.oasis.opendocument.image-template" : "office:image",
+    "application/vnd.oasis.opendocument.text-master" : "office:text",
+    "application/vnd.oasis.opendocument.text-web" : "office:text",
 }
 
 DEFAULT_TABLE_EXPAND_STRATEGY = "all_less_maxcount"
-- 
2.43.0


From 180e347573bfcc2afe14f7455239afcd415253f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 08/79] fix: create documents from templates without mimetype
 member

opendoc() falls back to the manifest, newdoc() raised AttributeError.
---
 ezodf/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 762f734..0fadb5d 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -91,7 +91,7 @@ def _new_doc_from_template(filename, templatename):
             raise IOError('File does not exist or it is not a zipfile: %s' % tostr(buffer))
 
     fm = get_filemanager(templatename)
-    mimetype = fm.get_text('mimetype')
+    mimetype = __detect_mime_type(fm)
     if mimetype.endswith('-template'):
         mimetype = mimetype[:-9]
     try:
-- 
2.43.0


From 76be18715781c286e5c7127bd067b5748159a756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 09/79] fix: style containers return styles stored by name

The cache maps names to XML nodes, but a stored style was cached as
wrapper object, so the next lookup raised AttributeError.
---
 ezodf/styles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index 53afcc1..b6617b1 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -53,7 +53,7 @@ class Container(object):
             self.xmlnode.append(value.xmlnode)
         else:
             self.xmlnode.replace(style, value.xmlnode)
-        self._cache[key] = value
+        self._cache[key] = value.xmlnode
 
     def _find(self, name):
         try:
-- 
2.43.0


From 3a83aff63db1638e9fd57c9e18191a1a75079caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 10/79] fix: page layouts can be wrapped

PageLayout did not accept the keyword 'xmlnode' which wrap() passes, so
every access to a page layout raised TypeError.  The header and footer
elements are created on demand, because access by name must not change
the style.
---
 ezodf/styles.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index b6617b1..e6379a7 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -146,10 +146,13 @@ class PageLayout(BaseStyle):
         'name': CN('style:name'),
         'page-usage': CN('style:page-usage'), # all | left | right | mirrored
     }
-    def __init__(self, xmlelement):
-        super(PageLayout, self).__init__(xmlelement)
-        self.header = self._properties(CN('style:header-style'), HeaderProperties)
-        self.footer = self._properties(CN('style:footer-style'), HeaderProperties)
+    @property
+    def header(self):
+        return self._properties(CN('style:header-style'), HeaderProperties)
+
+    @property
+    def footer(self):
+        return self._properties(CN('style:footer-style'), HeaderProperties)
 
 @register_class
 class FontFace(BaseStyle):
-- 
2.43.0


From 6977d8324bc0395944812cc49bcc3f34a86ef5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 11/79] fix: report unexpected root node of styles.xml as
 ValueError

The error message used an undefined name and raised NameError.
---
 ezodf/styles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index e6379a7..a75ed11 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -23,7 +23,7 @@ class OfficeDocumentStyles(XMLMixin):
         elif xmlnode.tag == self.TAG:
             self.xmlnode = xmlnode
         else:
-            raise ValueError("Unexpected root node: %s" % content.tag)
+            raise ValueError("Unexpected root node: %s" % xmlnode.tag)
         self._setup()
 
     def _setup(self):
-- 
2.43.0


From 5005783ee61cbfd5bbef4ab19ba93757d32cc437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 12/79] fix: setting a style attribute stores it

BaseStyle.__setitem__() had no body and ignored the value; a renamed
style is not found by its former name anymore.
---
 ezodf/styles.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index a75ed11..1f5873f 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -56,14 +56,14 @@ class Container(object):
         self._cache[key] = value.xmlnode
 
     def _find(self, name):
-        try:
-            return self._cache[name]
-        except KeyError:
-            for style in self.xmlnode.iterchildren():
-                stylename = style.get(CN('style:name'))
-                if stylename == name:
-                    self._cache[name] = style
-                    return style
+        style = self._cache.get(name)
+        if style is not None and style.get(CN('style:name')) == name:
+            return style
+        for style in self.xmlnode.iterchildren():
+            stylename = style.get(CN('style:name'))
+            if stylename == name:
+                self._cache[name] = style
+                return style
         return None
 
 @register_class
@@ -97,6 +97,7 @@ class BaseStyle:
 
     def __setitem__(self, key, value):
         """ Set style attribute 'key' to 'value'. """
+        self.xmlnode.set(self.ATTRIBUTEMAP[key], value)
 
     def _properties(self, key, property_factory, new=True):
         """ Get or create a properties element. """
-- 
2.43.0


From 7d26ea9f885cf7182baf3e6a35989617b7589f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 13/79] fix: variable names containing quotes

The name was pasted into an ElementPath expression, an apostrophe
raised SyntaxError on reading or setting the variable.
---
 ezodf/variables.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 3c28709..46f7211 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -58,18 +58,15 @@ class Variable(GenericWrapper):  # {{{1
 
     @property
     def instances(self):  # {{{2
-        vs = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-set'),
-                                                       CN('text:name'),
-                                                       self.name))
-        vg = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-get'),
-                                                       CN('text:name'),
-                                                       self.name))
-        vi = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-input'),
-                                                       CN('text:name'),
-                                                       self.name))
+        def occurrences(tag):
+            # the name can contain any character, do not use it in a path
+            return [node for node in root.iter(CN(tag))
+                    if node.get(CN('text:name')) == self.name]
+
+        root = self.get_xmlroot()
+        vs = occurrences('text:variable-set')
+        vg = occurrences('text:variable-get')
+        vi = occurrences('text:variable-input')
         return itermap(wrap, vs + vg + vi)
 
     @property
-- 
2.43.0


From 7e38c41cb5c6723b7113c86f8e34ec6589aef161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 14/79] fix: user fields update their own occurrences

UserField looked for variable-set/get/input elements, so its
occurrences were never updated and same-named simple variables were
overwritten.
---
 ezodf/variables.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 46f7211..ddd5cd9 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -50,6 +50,7 @@ class UserFields(Variables):  # {{{1
 
 
 class Variable(GenericWrapper):  # {{{1
+    INSTANCE_TAG = 'text:variable-%s'
 
     def __init__(self, xmlnode=None):  # {{{2
         """docstring for __init__"""
@@ -64,9 +65,9 @@ class Variable(GenericWrapper):  # {{{1
                     if node.get(CN('text:name')) == self.name]
 
         root = self.get_xmlroot()
-        vs = occurrences('text:variable-set')
-        vg = occurrences('text:variable-get')
-        vi = occurrences('text:variable-input')
+        vs = occurrences(self.INSTANCE_TAG % 'set')
+        vg = occurrences(self.INSTANCE_TAG % 'get')
+        vi = occurrences(self.INSTANCE_TAG % 'input')
         return itermap(wrap, vs + vg + vi)
 
     @property
@@ -116,6 +117,7 @@ class SimpleVariable(Variable):  # {{{1
 @register_class
 class UserField(Variable):  # {{{1
     TAG = CN('text:user-field-decl')
+    INSTANCE_TAG = 'text:user-field-%s'
 
     @property
     def value(self):  # {{{2
-- 
2.43.0


From db0f010fc88d8785d171ecd8fcfc5d4d8158fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 15/79] fix: boolean variables set to True read back as True

The occurrences stored Python's 'True', but 'true' is expected.
---
 ezodf/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index ddd5cd9..913f482 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -176,7 +176,7 @@ class SimpleVariableInstance(GenericWrapper):  # {{{1
         """Sets instavce value"""
 
         vtype = type(v)
-        self.text = tostr(v)
+        self.text = tostr(v).lower() if vtype == bool else tostr(v)
         if vtype == bool:
             self.type = 'boolean'
         elif vtype == int or vtype == float:
@@ -233,7 +233,7 @@ class UserFieldInstance(GenericWrapper):  # {{{1
         """Sets instavce value"""
 
         vtype = type(v)
-        self.text = tostr(v)
+        self.text = tostr(v).lower() if vtype == bool else tostr(v)
         if vtype == bool:
             self.type = 'boolean'
         elif vtype == int or vtype == float:
-- 
2.43.0


From 164c362eebd5e119ba3462a4fc7c30635c8725f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 16/79] fix: user fields accept 0 and the empty string

set_attr() refuses false values, assigning 0 or '' raised ValueError
after the occurrences were already changed.
---
 ezodf/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 913f482..d11be34 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -146,10 +146,10 @@ class UserField(Variable):  # {{{1
             self.type = 'boolean'
             self.set_bool_attr(CN('office:boolean-value'), v)
         elif vtype == int or vtype == float:
-            self.set_attr(CN('office:value'), v)
+            self.xmlnode.set(CN('office:value'), tostr(v))
             self.type = 'float'
         else:
-            self.set_attr(CN('office:string-value'), v)
+            self.xmlnode.set(CN('office:string-value'), tostr(v))
             self.type = 'string'
 
 
-- 
2.43.0


From 9fde240f29e94ec85180541d343438247b44f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 17/79] fix: read unused variables and date or time user fields

A declared variable without occurrences raised IndexError, user fields
of type date or time TypeError; a comment between the declarations made
opening the document fail.
---
 ezodf/variables.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index d11be34..960ddce 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -19,7 +19,8 @@ class Variables(GenericWrapper):  # {{{1
         super(Variables, self).__init__(xmlnode)
         self.variables = {}
         for v in self:
-            self.variables[v.name] = v
+            if isinstance(v, Variable): # could also be a comment
+                self.variables[v.name] = v
 
     def __contains__(self, key):  # {{{2
         """docstring for __contains__"""
@@ -94,7 +95,9 @@ class SimpleVariable(Variable):  # {{{1
         Get variable value
         FIXME: (it's assumed that all instances have the same value)
         """
-        return list(self.instances)[0].value
+        for instance in self.instances:
+            return instance.value
+        return None # declared, but not used in the document
 
     @value.setter
     def value(self, v):  # {{{2
@@ -130,7 +133,10 @@ class UserField(Variable):  # {{{1
             return self.get_bool_attr(CN('office:boolean-value'))
         elif self.type == 'string':
             return self.get_attr(CN('office:string-value'))
-        return float(self.get_attr(CN('office:value')))
+        elif self.type in ('date', 'time'):
+            return self.get_attr(CN('office:%s-value' % self.type))
+        value = self.get_attr(CN('office:value'))
+        return float(value) if value is not None else None
 
     @value.setter
     def value(self, v):  # {{{2
-- 
2.43.0


From e51d1c342f8dc99766ee629c23ea74886ec329f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 18/79] fix: typed values of variable occurrences

Occurrences written by LibreOffice carry the value as attribute and a
formatted text, reading such a number raised ValueError and assigning a
new value left the old value attribute behind.
---
 ezodf/variables.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 960ddce..69d96d8 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -159,8 +159,31 @@ class UserField(Variable):  # {{{1
             self.type = 'string'
 
 
+VALUE_ATTRIBUTES = {
+    'float': CN('office:value'),
+    'boolean': CN('office:boolean-value'),
+    'string': CN('office:string-value'),
+    'date': CN('office:date-value'),
+    'time': CN('office:time-value'),
+}
+
+
 class SimpleVariableInstance(GenericWrapper):  # {{{1
 
+    def _get_typed_value(self):  # {{{2
+        """The text is just the display form if the value is an attribute."""
+        value = self.xmlnode.get(VALUE_ATTRIBUTES[self.type])
+        return self.text if value is None else value
+
+    def _update_value_attribute(self):  # {{{2
+        """Replace the value attribute of the old value, if there is one."""
+        attrib = self.xmlnode.attrib
+        obsolete = [a for a in VALUE_ATTRIBUTES.values() if a in attrib]
+        for attribute in obsolete:
+            del attrib[attribute]
+        if obsolete:
+            attrib[VALUE_ATTRIBUTES[self.type]] = self.text
+
     def __init__(self, xmlnode=None):  # {{{2
         super(SimpleVariableInstance, self).__init__(xmlnode)
         self.name = self.xmlnode.get(CN('text:name'))
@@ -171,9 +194,9 @@ class SimpleVariableInstance(GenericWrapper):  # {{{1
         if self.type == 'string':
             return self.text
         elif self.type == 'boolean':
-            return self.text == 'true'
+            return self._get_typed_value() == 'true'
         elif self.type == 'float':
-            return float(self.text)
+            return float(self._get_typed_value())
         else:
             return self.text
 
@@ -189,6 +212,7 @@ class SimpleVariableInstance(GenericWrapper):  # {{{1
             self.type = 'float'
         else:
             self.type = 'string'
+        self._update_value_attribute()
 
     @property
     def type(self):  # {{{2
-- 
2.43.0


From 6ceab0b35346123b95f9c5cb0b05947cbb08a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 19/79] fix: setting the count of a Spaces element to 1

The previous count was kept.
---
 ezodf/whitespaces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/whitespaces.py b/ezodf/whitespaces.py
index 261d750..426fd52 100644
--- a/ezodf/whitespaces.py
+++ b/ezodf/whitespaces.py
@@ -48,6 +48,8 @@ class Spaces(Tabulator):
     def count(self, value):
         if int(value) > 1:
             self.set_attr(CN('text:c'), tostr(value))
+        else: # the default is 1
+            self.xmlnode.attrib.pop(CN('text:c'), None)
 
     @property
     def textlen(self):
-- 
2.43.0


From 7cc259156fa763f4aa5fc3ee633560f26125b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 20/79] fix: textlen is the length of the plain text

For cells, list items and list headers it was the length of the text
node only, which is 0 in general.
---
 ezodf/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/base.py b/ezodf/base.py
index 61f9bc1..351220a 100644
--- a/ezodf/base.py
+++ b/ezodf/base.py
@@ -156,7 +156,7 @@ class GenericWrapper(object):
     @property
     def textlen(self):
         """ Returns the character count of the plain text content as int. """
-        return safelen(self.xmlnode.text)
+        return len(self.plaintext())
 
     def plaintext(self):
         """ Get content of node as plain (unformatted) text string. """
-- 
2.43.0


From e30d725edaca307a5e517ca293223c3cdb9b7d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 21/79] fix: a cell loses its currency with its currency value

Cell.currency has to be None for all other value types, but setting a
new value kept the currency of the old one.
---
 ezodf/cells.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index a8766d4..3916896 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -141,6 +141,7 @@ class Cell(GenericWrapper):
 
     def _clear_old_value(self):
         self._clear_value_attribute(self.value_type)
+        self.xmlnode.attrib.pop(CN('office:currency'), None)
         self._clear_content()
 
     def _clear_content(self):
-- 
2.43.0


From 17794ddcba961a2328b8fcc22b8d2b95979edc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 22/79] fix: a rejected empty date or time value keeps the cell
 unchanged

The old value was removed before ValueError was raised.
---
 ezodf/cells.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 3916896..8629718 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -122,6 +122,8 @@ class Cell(GenericWrapper):
             raise TypeError(value_type)
 
         value = convert(value, value_type)
+        if is_string(value) and not value: # not storable as attribute
+            raise ValueError("invalid value: %r for type %s" % (value, value_type))
         self._clear_old_value()
         self._set_new_value(value, value_type, currency)
 
-- 
2.43.0


From 4ce9d0c41d738c3b45390c65322ca328155374f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 23/79] fix: remove cell spans given by one attribute or none

Setting a span of (1, 1) on a cell without span and removing a span
with just a row or a column count raised KeyError.
---
 ezodf/cells.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 8629718..b85ff3f 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -211,8 +211,8 @@ class Cell(GenericWrapper):
             self._set_span_attributes(rows, cols)
 
     def _del_span_attributes(self):
-        del self.xmlnode.attrib[CN('table:number-rows-spanned')]
-        del self.xmlnode.attrib[CN('table:number-columns-spanned')]
+        self.xmlnode.attrib.pop(CN('table:number-rows-spanned'), None)
+        self.xmlnode.attrib.pop(CN('table:number-columns-spanned'), None)
 
     def _set_span_attributes(self, rows, cols):
         self.xmlnode.set(CN('table:number-rows-spanned'), tostr(rows))
-- 
2.43.0


From 40098e878e1111b85936ea13232b6959032b1eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 24/79] fix: invalid span positions and sizes raise the
 intended errors

tostr was not imported, so NameError was raised.
---
 ezodf/cellspancontroller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ezodf/cellspancontroller.py b/ezodf/cellspancontroller.py
index 1d1a7db..443534d 100644
--- a/ezodf/cellspancontroller.py
+++ b/ezodf/cellspancontroller.py
@@ -7,6 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+from .compatibility import tostr
 from .xmlns import wrap
 from .tableutils import iter_cell_range, iter_cell_range_without_start_pos
 
-- 
2.43.0


From e01820ce6c290329b5a756072b732a96a06e953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 25/79] fix: refuse spans which overlap the covered cells of
 another span

Only the start cell of the other span was detected, so spans starting
outside of the range could overlap.
---
 ezodf/cellspancontroller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/cellspancontroller.py b/ezodf/cellspancontroller.py
index 443534d..26d96dc 100644
--- a/ezodf/cellspancontroller.py
+++ b/ezodf/cellspancontroller.py
@@ -46,8 +46,8 @@ class CellSpanController(object):
 
     def _has_cell_range_spanned_cells(self, pos, size):
         for cell_index in iter_cell_range(pos, size):
-            if self.is_cell_spanning(cell_index):
-                return True
+            if self.is_cell_spanning(cell_index) or self._get_cell(cell_index).covered:
+                return True # a covered cell is part of another span
         return False
 
     def _cover_cell(self, pos):
-- 
2.43.0


From d41ef368043bdf2c76abee06f1f5168f59f5a64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 26/79] fix: cell reference of wrong type raises TypeError

The message used an undefined name and raised NameError.
---
 ezodf/tableutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 26ef0d9..0bb88bc 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -53,7 +53,7 @@ def get_cell_index(reference):
     elif is_string(reference): # key => 'A1'
         return address_to_index(reference)
     else:
-        raise TypeError(tostr(type(key)))
+        raise TypeError(tostr(type(reference)))
 
 def get_min_max_cell_count(xmltable):
     count = [count_cells_in_row(xmlrow) for xmlrow in get_table_rows(xmltable)]
-- 
2.43.0


From 7bf74ee41beea8e437092091bf0a36cb6edde3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 27/79] fix: refuse malformed cell addresses

'A0' was the last row, and a trailing newline, non-ASCII digits and
letters which become ASCII in upper case were accepted.
---
 ezodf/tableutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 0bb88bc..88e55ed 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -28,7 +28,7 @@ def iter_cell_range_without_start_pos(pos, size):
     next(generator)
     return generator
 
-CELL_ADDRESS = re.compile('^([A-Z]+)(\d+)$')
+CELL_ADDRESS = re.compile(r'([A-Za-z]+)0*([1-9][0-9]*)\Z')
 
 def address_to_index(address):
     def column_name_to_index(colname):
@@ -40,10 +40,10 @@ def address_to_index(address):
             power *= 26
         return index - 1
 
-    res = CELL_ADDRESS.match(address.upper())
+    res = CELL_ADDRESS.match(address)
     if res:
         column_name, row_name = res.groups()
-        return (int(row_name)-1, column_name_to_index(column_name))
+        return (int(row_name)-1, column_name_to_index(column_name.upper()))
     else:
         raise ValueError('Invalid cell address: %s' % address)
 
-- 
2.43.0


From c9f31fdfa30a175f9c7b47d8b2b81809c4284891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 28/79] fix: negative cell positions out of range raise
 IndexError

Lists and XML nodes count negative indices from the end on their own,
adding the size first made positions down to minus twice the size valid.
---
 ezodf/tablerowcontroller.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 6b1749d..e739ad2 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -36,20 +36,12 @@ class TableCellAccessor(object):
             return 0
 
     def get_cell(self, pos):
-        row, col = self._adjust_negative_indices(pos)
+        row, col = pos
         return self._rows[row][col]
 
     def set_cell(self, pos, element):
-        row, col = self._adjust_negative_indices(pos)
-        self._rows[row][col] = element
-
-    def _adjust_negative_indices(self, pos):
         row, col = pos
-        if row < 0:
-            row += self.nrows()
-        if col < 0:
-            col += self.ncols()
-        return (row, col)
+        self._rows[row][col] = element
 
     def row(self, index):
         return self._rows[index]
-- 
2.43.0


From ce39df4315e9ab785842231329b74f57fb9292fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 29/79] fix: assigning a cell of a table does not remove it
 from its row

table['A1'] = table['B1'] moved the XML node, so row 1 was one cell
shorter than the others afterwards.
---
 ezodf/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 19e10fe..112116b 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -113,7 +113,10 @@ class Table(GenericWrapper):
         """ Set cell at position 'pos', where 'pos' is a tuple (row, column). """
         if not hasattr(cell, 'kind') or cell.kind != 'Cell':
             raise TypeError("invalid type of 'cell'.")
-        self._cellmatrix.set_cell(pos, cell.xmlnode)
+        xmlcell = cell.xmlnode
+        if xmlcell.getparent() is not None: # do not remove it from its row
+            xmlcell = copy.deepcopy(xmlcell)
+        self._cellmatrix.set_cell(pos, xmlcell)
 
     def itercells(self):
         """ Iterate over all cells, returns tuples (pos, cell). """
-- 
2.43.0


From a5d9e1cd8a35457ed277b14febfdc4c8d6553ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 30/79] fix: tables nested in cells are not part of the outer
 table

Their rows and columns were treated as rows and columns of the outer
table, which also normalized and padded the nested table.
---
 ezodf/tablecolumncontroller.py |  8 ++++----
 ezodf/tableutils.py            | 13 ++++++++++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index e273d43..7c5caa6 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -12,7 +12,7 @@ import copy
 from .xmlns import CN, etree
 from .nodestructuretags import TABLE_COLUMNS, TABLE_PRELUDE
 from .nodeorganizer import PreludeTagBlock
-from .tableutils import is_table, RepetitionAttribute
+from .tableutils import is_table, get_table_columns, RepetitionAttribute
 from .conf import config
 
 def new_empty_column():
@@ -73,7 +73,7 @@ class TableColumnController(object):
         self.update()
 
     def update(self):
-        self._columns = self.xmlnode.findall('.//'+CN('table:table-column'))
+        self._columns = get_table_columns(self.xmlnode)
 
     def reset(self, ncols):
         if ncols < 1:
@@ -96,7 +96,7 @@ class TableColumnController(object):
             strategy = expand_strategies[expand]
         except KeyError:
             raise TypeError("Unknown expand strategy: %s" % expand)
-        strategy.expand_columns(self.xmlnode.findall('.//'+CN('table:table-column')), maxcols)
+        strategy.expand_columns(get_table_columns(self.xmlnode), maxcols)
 
     def __len__(self):
         return len(self._columns)
@@ -120,7 +120,7 @@ class TableColumnController(object):
 
     def is_consistent(self):
         # just for testing
-        xmlcols = self.xmlnode.findall('.//'+CN('table:table-column'))
+        xmlcols = get_table_columns(self.xmlnode)
         if len(xmlcols) != len(self):
             return False
         for col1, col2 in zip(self._columns, xmlcols):
diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 88e55ed..50105b2 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -62,8 +62,19 @@ def get_min_max_cell_count(xmltable):
     else:
         return (0, 0)
 
+def get_table_elements(xmltable, tag):
+    """ Get all `tag` elements of `xmltable`, but not those of nested tables. """
+    def parent_table(xmlnode):
+        return next(xmlnode.iterancestors(CN('table:table')))
+
+    return [element for element in xmltable.findall('.//'+tag)
+            if parent_table(element) is xmltable]
+
 def get_table_rows(xmltable):
-    return xmltable.findall('.//'+CN('table:table-row'))
+    return get_table_elements(xmltable, CN('table:table-row'))
+
+def get_table_columns(xmltable):
+    return get_table_elements(xmltable, CN('table:table-column'))
 
 def count_cells_in_row(xmlrow):
     return sum( (RepetitionAttribute(xmlcell).cols for xmlcell in xmlrow) )
-- 
2.43.0


From 292e3c33488a7b9ca8849c75c0ec085d63654d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 31/79] fix: check row and column ranges before changing the
 table

Deleting more rows or columns than exist behind the index and inserting
columns at an invalid index changed a part of the table before
IndexError was raised, leaving rows and column information out of step.
---
 ezodf/tablerowcontroller.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index e739ad2..ab9a865 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -113,6 +113,8 @@ class TableRowController(TableCellAccessor):
             raise ValueError('invalid count')
         if index < 0:
             index += self.nrows()
+        if index < 0 or index + count > self.nrows():
+            raise IndexError('row index out of range')
 
         for _ in range(count):
             delete_row = self._rows.pop(index)
@@ -130,6 +132,8 @@ class TableRowController(TableCellAccessor):
             raise ValueError('count < 1')
         if index < 0:
             index += self.ncols()
+        if index < 0 or index >= self.ncols():
+            raise IndexError('column index out of range')
 
         for row in self._rows:
             for _ in range(count):
@@ -140,6 +144,8 @@ class TableRowController(TableCellAccessor):
             raise ValueError('invalid count')
         if index < 0:
             index += self.ncols()
+        if index < 0 or index + count > self.ncols():
+            raise IndexError('column index out of range')
 
         for row in self._rows:
             for _ in range(count):
-- 
2.43.0


From 03c1ace7ba4fc2ee2328036ddf77f506e65958db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 32/79] fix: every column of a loaded table has a column entry

Files need not declare all columns and repeated columns are collapsed,
but column_info(), append_columns(), insert_columns() and
delete_columns() require an entry for each column and raised IndexError,
the latter after the cells were already changed.
---
 ezodf/table.py                 | 2 ++
 ezodf/tablecolumncontroller.py | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/ezodf/table.py b/ezodf/table.py
index 112116b..4367c88 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -42,6 +42,8 @@ class Table(GenericWrapper):
         init_attributes_by_xmlnode()
         if xmlnode is None:
             set_new_table_metrics()
+        else:
+            self._columns_info.align(self.ncols())
         wrapcache.add(self)
 
     def __getitem__(self, key):
diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index 7c5caa6..8a456f9 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -84,6 +84,13 @@ class TableColumnController(object):
             self.xmlnode.insert(insert_position, new_empty_column())
         self.update()
 
+    def align(self, ncols):
+        """ Create the missing entries of a table with `ncols` columns. """
+        if 0 < len(self) < ncols:
+            self.append(ncols - len(self))
+        elif len(self) == 0 and ncols > 0:
+            self.reset(ncols)
+
     def _remove_existing_columns(self):
         for child in self.xmlnode.getchildren():
             if child.tag in TABLE_COLUMNS:
-- 
2.43.0


From 4282daf8db586e9623a2f93b1fcb6312aa21aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 33/79] fix: reset() and copy() of tables

An invalid size destroyed the content before ValueError was raised, and
tables without a name (usual in text documents) raised AttributeError,
in the case of reset() and clear() after the content was deleted.
---
 ezodf/table.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 4367c88..27d88e4 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -8,8 +8,9 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 import copy
+import operator
 
-from .compatibility import is_string
+from .compatibility import is_string, tostr
 from .xmlns import register_class, CN, wrap, etree
 from . import wrapcache
 from .base import GenericWrapper
@@ -89,10 +90,14 @@ class Table(GenericWrapper):
         return self._cellmatrix.ncols()
 
     def reset(self, size=(10, 10)):
+        nrows, ncols = [operator.index(count) for count in size]
+        if nrows < 1 or ncols < 1:
+            raise ValueError('invalid size: %s' % tostr(size))
         preserve_name = self.name
         super(Table, self).clear()
 
-        self.name = preserve_name
+        if preserve_name is not None:
+            self.xmlnode.set(CN('table:name'), preserve_name)
         self._cellmatrix.reset(size)
         self._columns_info.reset(size[1])
 
@@ -103,7 +108,7 @@ class Table(GenericWrapper):
     def copy(self, newname=None):
         newtable = Table(xmlnode=copy.deepcopy(self.xmlnode))
         if newname is None:
-            newname = 'CopyOf' + self.name
+            newname = 'CopyOf' + (self.name or '')
         newtable.name = newname
         return newtable
 
-- 
2.43.0


From 9b4ca4a78bf2b22e45c93ee7093eadcd9e8362d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 34/79] fix: positions of sheets and pages count sheets and
 pages only

index() and insert() used the position in the body element, which also
contains declarations, so the first sheet of a new document had the
index 2 and inserting at 1 made the sheet the first one.
---
 ezodf/pagecontainer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ezodf/pagecontainer.py b/ezodf/pagecontainer.py
index e4701ca..0aa1c73 100644
--- a/ezodf/pagecontainer.py
+++ b/ezodf/pagecontainer.py
@@ -84,8 +84,18 @@ class AbstractPageContainer(object):
         return (child.get(self._nametag) for child in self._xmlchildren())
 
     def index(self, child):
-        return self.xmlnode.index(child.xmlnode)
+        # the body can contain other elements, count only pages
+        return self._xmlchildren().index(child.xmlnode)
 
     def insert(self, index, child):
-        self.xmlnode.insert(int(index), child.xmlnode)
+        if not self._is_valid_child(child):
+            raise TypeError('Unable to insert: %s' % tostr(child))
+        xmlchildren = self._xmlchildren()
+        index = int(index)
+        if index < 0:
+            index = max(0, index + len(xmlchildren))
+        if index < len(xmlchildren):
+            xmlchildren[index].addprevious(child.xmlnode)
+        else:
+            self.append(child)
         return child
-- 
2.43.0


From ee678879f30d348f2a17803aec3d2b4ad391a966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 35/79] fix: append sheets and pages in front of the closing
 elements

Named expressions, database ranges and other closing elements of a body
have to follow the sheets, but sheets were appended behind them.
---
 ezodf/pagecontainer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ezodf/pagecontainer.py b/ezodf/pagecontainer.py
index 0aa1c73..82b5302 100644
--- a/ezodf/pagecontainer.py
+++ b/ezodf/pagecontainer.py
@@ -9,6 +9,8 @@ __author__ = "mozman <mozman@gmx.at>"
 
 from .compatibility import tostr, is_string
 from . import wrapcache
+from .nodeorganizer import EpilogueTagBlock
+from .nodestructuretags import TABLE_FUNCTIONS
 
 class AbstractPageContainer(object):
     def __init__(self, xmlbody, childtag, nametag):
@@ -75,7 +77,12 @@ class AbstractPageContainer(object):
 
     def append(self, child):
         if self._is_valid_child(child):
-            self.xmlnode.append(child.xmlnode)
+            xmlchildren = self._xmlchildren()
+            if len(xmlchildren): # elements following the pages stay behind
+                xmlchildren[-1].addnext(child.xmlnode)
+            else:
+                epilogue = EpilogueTagBlock(self.xmlnode, TABLE_FUNCTIONS)
+                self.xmlnode.insert(epilogue.insert_position_before(), child.xmlnode)
             return child
         else:
             raise TypeError('Unable to append: %s' % tostr(child))
-- 
2.43.0


From 5241c2c80491c918b75e62c8af67431309b55d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 36/79] fix: insert positions behind existing block tags

PreludeTagBlock.insert_position_before() returned 0 (and
EpilogueTagBlock.insert_position_after() the end of the node) if the block
contains only tags which belong on the other side of the new tag, inserting
there broke the order of the block.
---
 ezodf/nodeorganizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ezodf/nodeorganizer.py b/ezodf/nodeorganizer.py
index f491c87..64e9dfe 100644
--- a/ezodf/nodeorganizer.py
+++ b/ezodf/nodeorganizer.py
@@ -119,7 +119,8 @@ class PreludeTagBlock(object):
             pos, count = self.tag_info(tag)
             if count > 0:
                 return pos
-        return 0
+        # only predecessors in the block
+        return self._count_tags_in_block()
 
     def _successor_tag(self, tag):
         tagpos = self.tags.index(tag)
@@ -173,4 +174,5 @@ class EpilogueTagBlock(PreludeTagBlock):
             pos, count = tag_info(tag)
             if count > 0:
                 return len(self.xmlnode) - pos
-        return len(self.xmlnode)
+        # only tags which belong behind 'tag' in the block
+        return len(self.xmlnode) - self._count_tags_in_block()
-- 
2.43.0


From c644cf28e8d39c98f45b853238692b9adc5df722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 37/79] fix: a failing save keeps the existing document

The document is written to a temporary file as before, but the temporary file
is removed if this fails, the existing document is replaced in one step (and
the backup is moved back if this fails), the document can be saved again
(the mimetype was lost by a failed save) and errors reading the source
package are no longer ignored, which dropped all pictures.
---
 ezodf/filemanager.py | 78 +++++++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 30 deletions(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 9545901..ad01cae 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -19,6 +19,33 @@ from .compatibility import is_stream, StringIO
 
 FNCHARS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
 
+# Replacing an existing file in a single step requires Python 3.3 for Windows.
+rename_file = getattr(os, 'replace', os.rename)
+
+def remove_file(filename):
+    """ Remove a file, errors are ignored. """
+    try:
+        os.remove(filename)
+    except OSError:
+        pass
+
+def replace_file(tmpfilename, filename, backup=True):
+    """ Replace an existing file by the new created file 'tmpfilename', the
+    existing file remains unchanged if this fails.
+    """
+    bakfilename = None
+    if os.path.exists(filename) and backup:
+        # existing document becomes the backup file, replaces existing backupfile
+        bakfilename = filename+'.bak'
+        rename_file(filename, bakfilename)
+    # rename the new created document
+    try:
+        rename_file(tmpfilename, filename)
+    except:
+        if bakfilename is not None:
+            rename_file(bakfilename, filename)
+        raise
+
 class FileObject(object):
     __slots__ = ['element', 'media_type', 'zipinfo']
 
@@ -84,30 +111,25 @@ class FileManager(object):
             tmpfilename = filename
         else:
             tmpfilename = self.tmpfilename(filename)
-        zippo = zipfile.ZipFile(tmpfilename, 'w', zipfile.ZIP_DEFLATED)
-        self._tozip(zippo)
-        zippo.close()
-
-        if write_to_memory:
-            # job done
-            return
-
-        if os.path.exists(filename):
-            if backup:
-                # existing document becomes the backup file
-                bakfilename = filename+'.bak'
-                # remove existing backupfile
-                if os.path.exists(bakfilename):
-                    os.remove(bakfilename)
-                os.rename(filename, bakfilename)
-            else:
-                # just remove the existing document
-                os.remove(filename)
-
-        # rename the new created document
-        os.rename(tmpfilename, filename)
+        try:
+            self._write_zipfile(tmpfilename)
+            if write_to_memory:
+                # job done
+                return
+            replace_file(tmpfilename, filename, backup)
+        except:
+            if not write_to_memory:
+                remove_file(tmpfilename)
+            raise
         self.zipname = filename
 
+    def _write_zipfile(self, target):
+        zippo = zipfile.ZipFile(target, 'w', zipfile.ZIP_DEFLATED)
+        try:
+            self._tozip(zippo)
+        finally:
+            zippo.close()
+
     def get_bytes(self, filename):
         """ Returns a byte stream or None. """
         filecontent = None
@@ -139,17 +161,17 @@ class FileManager(object):
 
     def _tozip(self, zippo):
         # mimetype file should be the first & uncompressed file in zipfile
-        mimetype = self.directory.pop('mimetype')
+        mimetype = self.directory['mimetype']
         mimetype.zipinfo.compress_type = zipfile.ZIP_STORED
         zippo.writestr(mimetype.zipinfo, mimetype.tobytes())
         processed = [mimetype.filename]
 
         for file in self.directory.values():
+            if file is mimetype:
+                continue
             zippo.writestr(file.zipinfo, file.tobytes())
             processed.append(file.filename)
 
-        # push mimetype back to directory
-        self.directory['mimetype'] = mimetype
         self._copy_zip_to(zippo, processed)
 
     def _copy_zip_to(self, newzip, ignore=[]):
@@ -157,11 +179,7 @@ class FileManager(object):
         """
         if not self.has_zip():
             return # nothing to copy
-        try:
-            bytestream = self._open_bytestream()
-        except IOError:
-            return # nothing to copy
-
+        bytestream = self._open_bytestream()
         origzip = zipfile.ZipFile(bytestream)
         try:
             self._copy_from_zip_to_zip(origzip, newzip, ignore)
-- 
2.43.0


From a86d3cfe487d8f24159a5e65bce0b399d727965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 38/79] fix: write flat XML and byte stream documents safely

The existing file was truncated before the document was serialised, a failing
save destroyed it.
---
 ezodf/bytestreammanager.py |  6 +++---
 ezodf/document.py          | 17 ++---------------
 ezodf/filemanager.py       | 33 +++++++++++++++++++++++++--------
 3 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/ezodf/bytestreammanager.py b/ezodf/bytestreammanager.py
index b951d71..8e90caa 100644
--- a/ezodf/bytestreammanager.py
+++ b/ezodf/bytestreammanager.py
@@ -9,7 +9,7 @@ __author__ = "mozman <mozman@gmx.at>"
 
 
 from .compatibility import is_stream, StringIO
-from .filemanager import FileManager
+from .filemanager import FileManager, write_file
 
 
 class ByteStreamManager(FileManager):
@@ -24,8 +24,8 @@ class ByteStreamManager(FileManager):
         if is_stream(filename):
             filename.write(self.tobytes())
         else:
-            with open(filename, 'wb') as fp:
-                fp.write(self.tobytes())
+            # documents of this manager get no backup files
+            write_file(filename, self.tobytes(), backup=False)
 
     def has_zip(self):
         return self._zipfile_as_bytes is not None
diff --git a/ezodf/document.py b/ezodf/document.py
index 0fadb5d..f03a349 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -11,7 +11,7 @@ import os
 from .compatibility import tostr, is_bytes, is_zipfile, StringIO, is_stream
 from .const import MIMETYPES, MIMETYPE_BODYTAG_MAP, FILE_EXT_FOR_MIMETYPE
 from .xmlns import subelement, CN, etree, wrap, ALL_NSMAP, fake_element
-from .filemanager import FileManager
+from .filemanager import FileManager, write_file
 from .bytestreammanager import ByteStreamManager
 from .meta import OfficeDocumentMeta
 from .styles import OfficeDocumentStyles
@@ -185,20 +185,7 @@ class FlatXMLDocument(_BaseDocument):
         return wrap(application_body)
 
     def _saving_routine(self):
-        if os.path.exists(self.docname) and self.backup:
-            self._backupfile(self.docname)
-        self._writefile(self.docname)
-
-    def _backupfile(self, filename):
-        bakfilename = filename+'.bak'
-        # remove existing backupfile
-        if os.path.exists(bakfilename):
-            os.remove(bakfilename)
-        os.rename(filename, bakfilename)
-
-    def _writefile(self, filename):
-        with open(filename, 'wb') as fp:
-            fp.write(self.tobytes())
+        write_file(self.docname, self.tobytes(), backup=self.backup)
 
     def tobytes(self):
         return etree.tostring(self.xmlnode,
diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index ad01cae..10c2349 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -46,6 +46,30 @@ def replace_file(tmpfilename, filename, backup=True):
             rename_file(bakfilename, filename)
         raise
 
+def tmpfilename(basefile=None):
+    """ Get the name of a not existing file in the folder of 'basefile'. """
+    def randomname(count):
+        return ''.join(random.sample(FNCHARS, count))
+
+    folder = "" if basefile is None else os.path.dirname(basefile)
+    while True:
+        filename = os.path.abspath(os.path.join(folder, randomname(8)+'.tmp'))
+        if not os.path.exists(filename):
+            return filename
+
+def write_file(filename, data, backup=True):
+    """ Write bytes 'data' to file 'filename', an existing file remains
+    unchanged if this fails.
+    """
+    newfilename = tmpfilename(filename)
+    try:
+        with open(newfilename, 'wb') as fp:
+            fp.write(data)
+        replace_file(newfilename, filename, backup)
+    except:
+        remove_file(newfilename)
+        raise
+
 class FileObject(object):
     __slots__ = ['element', 'media_type', 'zipinfo']
 
@@ -85,14 +109,7 @@ class FileManager(object):
         return open(self.zipname, 'rb')
 
     def tmpfilename(self, basefile=None):
-        def randomname(count):
-            return ''.join(random.sample(FNCHARS, count))
-
-        folder = "" if basefile is None else os.path.dirname(basefile)
-        while True:
-            filename = os.path.abspath(os.path.join(folder, randomname(8)+'.tmp'))
-            if not os.path.exists(filename):
-                return filename
+        return tmpfilename(basefile)
 
     def register(self, name, element, media_type=""):
         self.directory[name] = FileObject(name, element, media_type)
-- 
2.43.0


From 0f29964aea8d777e8feea4fa291da31d7f623075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 39/79] fix: broadcast to a root without child elements

A root without children is False, the event was sent to the listeners of all
documents.
---
 ezodf/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/observer.py b/ezodf/observer.py
index 4eb66d3..9c5244a 100644
--- a/ezodf/observer.py
+++ b/ezodf/observer.py
@@ -98,7 +98,7 @@ class Observer(object):
             # but mispelling of 'event' is an error trap
             return
 
-        send = send_to_root if root else send_to_all
+        send = send_to_root if root is not None else send_to_all
         for listener in event_listeners:
             send(listener)
 
-- 
2.43.0


From c4e470ec153eccdde42bd79db045f09ccb0ef6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 40/79] fix: user tags set without type are of type string

Replacing a tag kept the type of the old value.
---
 ezodf/meta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index 8b16f26..d90ad47 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -152,6 +152,8 @@ class Usertags(object):
         tag.text = tostr(value)
         if value_type is not None:
             tag.set(CN('meta:value-type'), value_type)
+        else: # the default type is 'string'
+            tag.attrib.pop(CN('meta:value-type'), None)
 
     def __setitem__(self, name, value):
         self.set(name, value)
-- 
2.43.0


From e2ea7df119ece62c9469a2b219820007913df04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 41/79] fix: iterate over statistics with malformed or foreign
 values

A counter which is not an integer is 0, like for direct access, attributes
which are not statistic counters are ignored.
---
 ezodf/meta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index d90ad47..8935f60 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -239,7 +239,9 @@ class Statistic(object):
         """
         prefix = len(META_NS) + 2
         for key, value in self.stats.items():
-            yield (key[prefix:-6], int(value))
+            name = key[prefix:-6]
+            if name in Statistic.TYPES and key == Statistic.NS % name:
+                yield (name, self[name])
 
     def update(self, d):
         """ Set statistics from dict `d`. """
-- 
2.43.0


From 5607962ccdfd62b20db55bb9d9982a59b92f2040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 42/79] fix: rejected meta data leaves the document unchanged

Setting an invalid value added an empty metatag, keyword or user tag before
the exception was raised.
---
 ezodf/meta.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index 8935f60..4150b0c 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -68,8 +68,12 @@ class OfficeDocumentMeta(XMLMixin):
 
     def __setitem__(self, key, value):
         cnkey = CN(TAGS[key]) # key in clark notation
-        element = subelement(self.meta, cnkey)
-        element.text = value
+        element = self.meta.find(cnkey)
+        if element is None:
+            element = etree.Element(cnkey)
+        element.text = value # invalid values raise exceptions
+        if element.getparent() is None:
+            self.meta.append(element)
 
     def __getitem__(self, key):
         element = self.meta.find(CN(TAGS[key]))
@@ -106,8 +110,9 @@ class Keywords(object):
         """ Add 'keyword' to meta data. """
         tag = self._find(keyword)
         if tag is None:
-            tag = etree.SubElement(self.meta, CN('meta:keyword'))
-            tag.text = keyword
+            tag = etree.Element(CN('meta:keyword'))
+            tag.text = keyword # invalid values raise exceptions
+            self.meta.append(tag)
 
     def remove(self, keyword):
         """ Remove 'keyword' from meta data. """
@@ -145,15 +150,21 @@ class Usertags(object):
     def set(self, name, value, value_type=None):
         """ Set/Replace user-defined metatag.
         """
+        new_tag = etree.Element(CN('meta:user-defined'))
+        # invalid arguments raise exceptions
+        new_tag.set(CN('meta:name'), name)
+        new_tag.text = tostr(value)
+        if value_type is not None:
+            new_tag.set(CN('meta:value-type'), value_type)
+
         tag = self._find(name)
         if tag is None:
-            tag = etree.SubElement(self.meta, CN('meta:user-defined'))
-            tag.set(CN('meta:name'), name)
-        tag.text = tostr(value)
-        if value_type is not None:
-            tag.set(CN('meta:value-type'), value_type)
-        else: # the default type is 'string'
+            self.meta.append(new_tag)
+        else:
+            tag.text = new_tag.text
+            # the default type is 'string'
             tag.attrib.pop(CN('meta:value-type'), None)
+            tag.attrib.update(new_tag.attrib)
 
     def __setitem__(self, name, value):
         self.set(name, value)
-- 
2.43.0


From ad76ff7b4a6e35ecb90efdac59f2a2d8b690f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 43/79] fix: dates before the year 1000 have four digit years

---
 ezodf/timeparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ezodf/timeparser.py b/ezodf/timeparser.py
index 0f56e75..89c08ce 100644
--- a/ezodf/timeparser.py
+++ b/ezodf/timeparser.py
@@ -28,9 +28,10 @@ class TimeParser(object):
     def __str__(self):
         if self.is_date:
             if self.has_time:
-                string = self.value.strftime(DATETIME_FORMAT)
+                # strftime() does not pad years with zeros
+                string = self.value.replace(microsecond=0, tzinfo=None).isoformat()
             else:
-                string = self.value.strftime(DATE_FORMAT)
+                string = self.value.isoformat()
         else:
             string = TimeParser.duration_to_string(self.value)
         return string
-- 
2.43.0


From 4ee27e4a027fdf255c35f9088ef4aefed84c3ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 44/79] fix: negative durations

The string of a negative timedelta could not be parsed, the sign precedes
the 'P' of a duration.
---
 ezodf/timeparser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ezodf/timeparser.py b/ezodf/timeparser.py
index 89c08ce..9b2f016 100644
--- a/ezodf/timeparser.py
+++ b/ezodf/timeparser.py
@@ -15,7 +15,7 @@ DATETIME_FORMAT = "%Y-%m-%dT%H:%M:%S"
 DATE_FORMAT = "%Y-%m-%d"
 
 class TimeParser(object):
-    duration_matcher = re.compile("^P(\d+Y)?(\d+M)?(\d+D)?(?:T(\d+H)?(\d+M)?(\d+(?:,\d+)?S)?)?$")
+    duration_matcher = re.compile("^-?P(\d+Y)?(\d+M)?(\d+D)?(?:T(\d+H)?(\d+M)?(\d+(?:,\d+)?S)?)?$")
 
     def __init__(self, time):
         if is_string(time):
@@ -38,7 +38,7 @@ class TimeParser(object):
 
     @staticmethod
     def parse(timestr):
-        if timestr.startswith('P'):
+        if timestr.startswith(('P', '-P')):
             value = TimeParser.duration_parser(timestr)
         else:
             if 'T' in timestr:
@@ -75,7 +75,8 @@ class TimeParser(object):
             days = years * 365 + months * 30 + days
         else:
             raise ValueError('not a valid duration: %s' % duration)
-        return timedelta(days=days, hours=hours, minutes=minutes, seconds=seconds)
+        value = timedelta(days=days, hours=hours, minutes=minutes, seconds=seconds)
+        return -value if duration.startswith('-') else value
 
     @staticmethod
     def duration_to_string(duration):
@@ -86,6 +87,8 @@ class TimeParser(object):
             seconds = seconds % 60
             return (hours, minutes, seconds)
 
+        if duration < timedelta(0):
+            return '-' + TimeParser.duration_to_string(-duration)
         timeparts = ["P%dD" % duration.days] if duration.days else ["P"]
         timeparts.append("T%02dH%02dM%02d" % get_time(duration.seconds))
         micros = duration.microseconds
-- 
2.43.0


From 03505c10264340da339e135cbd447bca6ab9cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 45/79] fix: accept the time strings of the ODF standard only

Fractions of seconds are separated by a point in ODF files and are allowed in
date-time values too, durations without components, trailing newlines, digits
of other scripts and dates without leading zeros are not valid.
---
 ezodf/timeparser.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ezodf/timeparser.py b/ezodf/timeparser.py
index 9b2f016..c99b00b 100644
--- a/ezodf/timeparser.py
+++ b/ezodf/timeparser.py
@@ -15,7 +15,10 @@ DATETIME_FORMAT = "%Y-%m-%dT%H:%M:%S"
 DATE_FORMAT = "%Y-%m-%d"
 
 class TimeParser(object):
-    duration_matcher = re.compile("^-?P(\d+Y)?(\d+M)?(\d+D)?(?:T(\d+H)?(\d+M)?(\d+(?:,\d+)?S)?)?$")
+    duration_matcher = re.compile("^-?P(?=[0-9T])([0-9]+Y)?([0-9]+M)?([0-9]+D)?"
+        "(?:T(?=[0-9])([0-9]+H)?([0-9]+M)?([0-9]+(?:[.,][0-9]+)?S)?)?\\Z")
+    date_matcher = re.compile("^[0-9]{4}-[0-9]{2}-[0-9]{2}"
+        "(T[0-9]{2}:[0-9]{2}:[0-9]{2}(\\.[0-9]+)?)?\\Z")
 
     def __init__(self, time):
         if is_string(time):
@@ -41,8 +44,16 @@ class TimeParser(object):
         if timestr.startswith(('P', '-P')):
             value = TimeParser.duration_parser(timestr)
         else:
-            if 'T' in timestr:
+            match = TimeParser.date_matcher.match(timestr)
+            if match is None:
+                raise ValueError('not a valid date: %s' % timestr)
+            time, fraction = match.groups()
+            if time:
+                if fraction:
+                    timestr = timestr[:-len(fraction)]
                 value = datetime.strptime(timestr, DATETIME_FORMAT)
+                if fraction:
+                    value = value.replace(microsecond=int(fraction[1:7].ljust(6, '0')))
             else:
                 value = datetime.strptime(timestr, DATE_FORMAT).date()
         return value
-- 
2.43.0


From a35184ae771c491dbcde408f656e03155aa3055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 46/79] fix: XML comments are not part of the plain text

The text of XML comments and processing instructions was part of the plain
text of the surrounding paragraph.
---
 ezodf/base.py | 19 +++++++++++++++++++
 ezodf/text.py |  2 +-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/ezodf/base.py b/ezodf/base.py
index 351220a..ecb900a 100644
--- a/ezodf/base.py
+++ b/ezodf/base.py
@@ -162,3 +162,22 @@ class GenericWrapper(object):
         """ Get content of node as plain (unformatted) text string. """
         text = self.xmlnode.text
         return text if text else ""
+
+class _NoContent(GenericWrapper):
+    """ Base class for XML nodes which do not contribute to the plain text. """
+    @property
+    def textlen(self):
+        return 0
+
+    def plaintext(self):
+        return ""
+
+@register_class
+class Comment(_NoContent):
+    """ XML comment """
+    TAG = etree.Comment
+
+@register_class
+class ProcessingInstruction(_NoContent):
+    """ XML processing instruction """
+    TAG = etree.ProcessingInstruction
diff --git a/ezodf/text.py b/ezodf/text.py
index dc68edc..b6d55ca 100644
--- a/ezodf/text.py
+++ b/ezodf/text.py
@@ -134,7 +134,7 @@ class ListHeader(GenericWrapper):
                 self.append(Paragraph(text))
 
     def plaintext(self):
-        return '\n'.join([e.plaintext() for e in iter(self)])
+        return '\n'.join([wrap(e).plaintext() for e in self.xmlnode.iterchildren('*')])
 
 
 @register_class
-- 
2.43.0


From d26c540ee9ebf3a85b1dd5feb966db3c332731ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 47/79] fix: missing declarations are created in front of the
 content

The variable declarations were created behind the content and the closing
elements of an existing document body, appended content followed behind
the closing elements.
---
 ezodf/body.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/ezodf/body.py b/ezodf/body.py
index 580ed1d..fa2857f 100644
--- a/ezodf/body.py
+++ b/ezodf/body.py
@@ -7,21 +7,28 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-from .xmlns import register_class, CN, wrap, subelement
+from .xmlns import register_class, CN, wrap, etree
 from .base import GenericWrapper
 from .sheets import Sheets
 from .pages import Pages
-from .nodeorganizer import EpilogueTagBlock
-from .nodestructuretags import TEXT_EPILOGUE
+from .nodeorganizer import EpilogueTagBlock, PreludeTagBlock
+from .nodestructuretags import TEXT_EPILOGUE, TEXT_PRELUDE
 
 
 class GenericBody(GenericWrapper):
     def __init__(self, xmlnode=None):
         super(GenericBody, self).__init__(xmlnode=xmlnode)
-        self.variables = wrap(subelement(self.xmlnode,
-                                                CN("text:variable-decls")))
-        self.userfields = wrap(subelement(self.xmlnode,
-                                                CN("text:user-field-decls")))
+        self.variables = wrap(self._declarations("text:variable-decls"))
+        self.userfields = wrap(self._declarations("text:user-field-decls"))
+
+    def _declarations(self, name):
+        tag = CN(name)
+        declarations = self.xmlnode.find(tag)
+        if declarations is None: # declarations precede the content
+            declarations = etree.Element(tag)
+            position = PreludeTagBlock(self.xmlnode, TEXT_PRELUDE).insert_position_after(tag)
+            self.xmlnode.insert(position, declarations)
+        return declarations
 
 
 @register_class
-- 
2.43.0


From 2ea38cc9517b32e155e38f2df5ed3a824dea14c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 48/79] fix: negative column indices count from the last column

For loaded tables with more column entries than columns the column entries of
negative indices did not belong to the addressed columns.
---
 ezodf/table.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 27d88e4..8046134 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -157,7 +157,11 @@ class Table(GenericWrapper):
     def column_info(self, index):
         if is_string(index):
             row, index = address_to_index(index)
-        return wrap(self._columns_info.get_table_column(index))
+        return wrap(self._columns_info.get_table_column(self._column_position(index)))
+
+    def _column_position(self, index):
+        # a loaded table can have more column entries than columns
+        return index + self.ncols() if -self.ncols() <= index < 0 else index
 
     def append_rows(self, count=1):
         self._cellmatrix.append_rows(count)
@@ -176,13 +180,15 @@ class Table(GenericWrapper):
 
     def insert_columns(self, index, count=1):
         # CAUTION: this will break refernces in formulas!
+        position = self._column_position(index)
         self._cellmatrix.insert_columns(index, count)
-        self._columns_info.insert(index, count)
+        self._columns_info.insert(position, count)
 
     def delete_columns(self, index, count=1):
         # CAUTION: this will break refernces in formulas!
+        position = self._column_position(index)
         self._cellmatrix.delete_columns(index, count)
-        self._columns_info.delete(index, count)
+        self._columns_info.delete(position, count)
 
     def set_cell_span(self, pos, size):
         self._cell_span_controller.set_span(get_cell_index(pos), size)
-- 
2.43.0


From c4dda348ed356fc977b74772e8f7404ff18994e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 49/79] fix: huge column indices raise IndexError

lxml raises OverflowError for indices which do not fit into a C integer.
---
 ezodf/tablerowcontroller.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index ab9a865..8cd00fc 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -35,18 +35,26 @@ class TableCellAccessor(object):
         except IndexError:
             return 0
 
+    def _check_column_index(self, index):
+        # huge indices raise OverflowError in lxml
+        if not -self.ncols() <= index < self.ncols():
+            raise IndexError('column index out of range')
+
     def get_cell(self, pos):
         row, col = pos
+        self._check_column_index(col)
         return self._rows[row][col]
 
     def set_cell(self, pos, element):
         row, col = pos
+        self._check_column_index(col)
         self._rows[row][col] = element
 
     def row(self, index):
         return self._rows[index]
 
     def column(self, index):
+        self._check_column_index(index)
         return [row[index] for row in self._rows]
 
     def rows(self):
-- 
2.43.0


From daea760b9c1484ea13dee2e13411658553182a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 50/79] fix: expand strategy 'all_less_maxcount' with a
 maxcount of 1

Tables with not repeated rows or cells could not be opened (KeyError).
---
 ezodf/tableutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 50105b2..dae355a 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -104,8 +104,8 @@ class RepetitionAttribute(object):
 
     @cols.deleter
     def cols(self):
-        del self.xmlnode.attrib[CN('table:number-columns-repeated')]
+        self.xmlnode.attrib.pop(CN('table:number-columns-repeated'), None)
 
     @rows.deleter
     def rows(self):
-        del self.xmlnode.attrib[CN('table:number-rows-repeated')]
+        self.xmlnode.attrib.pop(CN('table:number-rows-repeated'), None)
-- 
2.43.0


From 9ae58aa9d4bf0113aa68cc8b59a2a7f856615d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 51/79] fix: reading the plain text of a cell does not change
 it

Tables nested in a cell were expanded by reading the value of the cell.
---
 ezodf/cells.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index b85ff3f..0e124de 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -7,7 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-from .xmlns import register_class, CN
+from .xmlns import register_class, CN, wrap
 from .base import GenericWrapper
 from .text import Paragraph, Span
 from .propertymixins import StringProperty, BooleanProperty
@@ -30,6 +30,7 @@ TYPE_VALUE_MAP = {
 # These Classes are supported to read their plaintext content from the
 # cell-content.
 SUPPORTED_CELL_CONTENT = ("Paragraph", "Heading")
+SUPPORTED_CELL_CONTENT_TAGS = (CN('text:p'), CN('text:h'))
 
 @register_class
 class Cell(GenericWrapper):
@@ -174,8 +175,9 @@ class Cell(GenericWrapper):
             self.replace(first_paragraph, display_form)
 
     def plaintext(self):
-        return "\n".join([p.plaintext() for p in iter(self)
-                          if p.kind in SUPPORTED_CELL_CONTENT])
+        # do not wrap other content, this would expand nested tables
+        return "\n".join([wrap(p).plaintext() for p in self.xmlnode
+                          if p.tag in SUPPORTED_CELL_CONTENT_TAGS])
 
     def append_text(self, text, style_name=None):
         if self.value_type != 'string':
-- 
2.43.0


From cae101b3633f1e3e6cee8889934bd51bb2d304a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 52/79] fix: documents with an empty editing-cycles tag can be
 saved

---
 ezodf/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index 4150b0c..2866ad9 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -87,7 +87,7 @@ class OfficeDocumentMeta(XMLMixin):
             count = self['editing-cycles']
             try:
                 count = int(count) + 1
-            except ValueError:
+            except (ValueError, TypeError): # malformed or empty
                 count = 1
         except KeyError:
             count = 1
-- 
2.43.0


From 001bbd4e6f8f36af845ae28e142725f1018bc313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 53/79] fix: new flat XML documents store their mimetype

---
 ezodf/document.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ezodf/document.py b/ezodf/document.py
index f03a349..c4f12e7 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -149,6 +149,7 @@ class FlatXMLDocument(_BaseDocument):
 
         if xmlnode is None: # new document
             self.xmlnode = etree.Element(self.TAG, nsmap=ALL_NSMAP)
+            self.xmlnode.set(CN('office:mimetype'), self.mimetype)
         elif xmlnode.tag == self.TAG:
             self.xmlnode = xmlnode
             self.mimetype = xmlnode.get(CN('office:mimetype')) # required
-- 
2.43.0


From 902f2ca20ed337c108fa6dc99ccead96d0fc9747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:13 +0000
Subject: [PATCH 54/79] fix: insert() in front of the first child

---
 ezodf/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ezodf/base.py b/ezodf/base.py
index ecb900a..544c8d3 100644
--- a/ezodf/base.py
+++ b/ezodf/base.py
@@ -75,7 +75,10 @@ class GenericWrapper(object):
 
     def insert(self, index, child):
         """ Insert child at position `index`. """
-        self.xmlnode.insert(int(index), child.xmlnode)
+        index = int(index)
+        if index < 0: # lxml appends for indices in front of the first child
+            index = max(0, index + len(self.xmlnode))
+        self.xmlnode.insert(index, child.xmlnode)
         return child # pass through
 
     def get_child(self, index):
-- 
2.43.0


From 310ab78f399b31ada8ec3b7cf569905aa227a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 55/79] fix: the formatted number is not part of the plain text

---
 ezodf/text.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ezodf/text.py b/ezodf/text.py
index b6d55ca..d5cf78d 100644
--- a/ezodf/text.py
+++ b/ezodf/text.py
@@ -9,13 +9,18 @@ __author__ = "mozman <mozman@gmx.at>"
 
 from.compatibility import is_string
 from .xmlns import CN, register_class, subelement, wrap
-from .base import GenericWrapper, safelen
+from .base import GenericWrapper, _NoContent, safelen
 from .whitespaces import encode_whitespaces
 from .protection import random_protection_key
 from .propertymixins import StringProperty, TextNumberingMixin, BooleanProperty
 from .propertymixins import IntegerWithLowerLimitProperty
 
 
+@register_class
+class FormattedNumber(_NoContent):
+    """ Formatted number, for applications without support for numbering. """
+    TAG = CN('text:number')
+
 @register_class
 class Span(GenericWrapper):
     TAG = CN('text:span')
@@ -134,7 +139,8 @@ class ListHeader(GenericWrapper):
                 self.append(Paragraph(text))
 
     def plaintext(self):
-        return '\n'.join([wrap(e).plaintext() for e in self.xmlnode.iterchildren('*')])
+        return '\n'.join([wrap(e).plaintext() for e in self.xmlnode.iterchildren('*')
+                          if e.tag != FormattedNumber.TAG])
 
 
 @register_class
-- 
2.43.0


From 2d7570bd836bfa141ddb4db932740e05281995dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 56/79] fix: the first page of a presentation is placed in
 front of its settings

---
 ezodf/nodestructuretags.py | 2 ++
 ezodf/pagecontainer.py     | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ezodf/nodestructuretags.py b/ezodf/nodestructuretags.py
index dd7f562..5528823 100644
--- a/ezodf/nodestructuretags.py
+++ b/ezodf/nodestructuretags.py
@@ -11,6 +11,8 @@ from .xmlns import CN
 
 OFFICE_FORMS = [CN("office:forms")]
 
+PRESENTATION_SETTINGS = [CN("presentation:settings")]
+
 TABLE_TRACKED_CHANGES = [CN("table:tracked-changes")]
 
 TEXT_DECL = [
diff --git a/ezodf/pagecontainer.py b/ezodf/pagecontainer.py
index 82b5302..406a7db 100644
--- a/ezodf/pagecontainer.py
+++ b/ezodf/pagecontainer.py
@@ -10,7 +10,7 @@ __author__ = "mozman <mozman@gmx.at>"
 from .compatibility import tostr, is_string
 from . import wrapcache
 from .nodeorganizer import EpilogueTagBlock
-from .nodestructuretags import TABLE_FUNCTIONS
+from .nodestructuretags import PRESENTATION_SETTINGS, TABLE_FUNCTIONS
 
 class AbstractPageContainer(object):
     def __init__(self, xmlbody, childtag, nametag):
@@ -81,7 +81,7 @@ class AbstractPageContainer(object):
             if len(xmlchildren): # elements following the pages stay behind
                 xmlchildren[-1].addnext(child.xmlnode)
             else:
-                epilogue = EpilogueTagBlock(self.xmlnode, TABLE_FUNCTIONS)
+                epilogue = EpilogueTagBlock(self.xmlnode, PRESENTATION_SETTINGS + TABLE_FUNCTIONS)
                 self.xmlnode.insert(epilogue.insert_position_before(), child.xmlnode)
             return child
         else:
-- 
2.43.0


From fb475ec1b3500e30910eefecb7e149816e761c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 57/79] fix: undeclared variable names raise KeyError

The name of an undeclared variable was taken as index of a declaration,
the name '0' denoted the first variable.
---
 ezodf/variables.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 69d96d8..665463e 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -9,7 +9,7 @@ __author__ = "T0ha <t0hashvein@gmail.com>"
 
 from .xmlns import register_class, CN, wrap
 from .base import GenericWrapper
-from .compatibility import itermap, tostr
+from .compatibility import itermap, is_string, tostr
 
 
 class Variables(GenericWrapper):  # {{{1
@@ -27,13 +27,13 @@ class Variables(GenericWrapper):  # {{{1
         return key in self.variables
 
     def __getitem__(self, index):  # {{{2
-        if index in self.variables:
+        if is_string(index):
             return self.variables[index]
         else:
             return self.get_child(index)
 
     def __setitem__(self, index, value):  # {{{2
-        if index in self.variables:
+        if is_string(index):
             self.variables[index].value = value
         else:
             return self.set_child(index, value)
-- 
2.43.0


From 9095a955b9259f971a5ad19e01b87dbdc44de51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 58/79] fix: variables declared or removed after opening the
 document

The variables were collected only once, iteration and lookup by name
disagreed after adding or removing a declaration.
---
 ezodf/variables.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 665463e..3edbb4f 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -17,10 +17,12 @@ class Variables(GenericWrapper):  # {{{1
     def __init__(self, xmlnode=None):  # {{{2
         """docstring for __init__"""
         super(Variables, self).__init__(xmlnode)
-        self.variables = {}
-        for v in self:
-            if isinstance(v, Variable): # could also be a comment
-                self.variables[v.name] = v
+
+    @property
+    def variables(self):
+        """dict of the declared variables by name"""
+        # skip comments
+        return dict((v.name, v) for v in self if isinstance(v, Variable))
 
     def __contains__(self, key):  # {{{2
         """docstring for __contains__"""
-- 
2.43.0


From 044834316d363ae52507245917af738a5779a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 59/79] fix: refuse invalid value types for cells without value

Reading the value of such a cell raised KeyError.
---
 ezodf/cells.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 0e124de..d00da3f 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -53,6 +53,8 @@ class Cell(GenericWrapper):
             if value is not None:
                 self.set_value(value, value_type, currency)
             elif value_type is not None:
+                if value_type not in VALID_VALUE_TYPES:
+                    raise TypeError(value_type)
                 self._set_value_type(value_type)
 
     @property
-- 
2.43.0


From edbbb4bbc7e26109460c235c6433c7d81d644a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 60/79] fix: a rejected value with control characters keeps the
 cell unchanged

The old value was removed before ValueError was raised.
---
 ezodf/cells.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index d00da3f..985b0a0 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -7,7 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-from .xmlns import register_class, CN, wrap
+from .xmlns import register_class, CN, wrap, etree
 from .base import GenericWrapper
 from .text import Paragraph, Span
 from .propertymixins import StringProperty, BooleanProperty
@@ -127,6 +127,9 @@ class Cell(GenericWrapper):
         value = convert(value, value_type)
         if is_string(value) and not value: # not storable as attribute
             raise ValueError("invalid value: %r for type %s" % (value, value_type))
+        for attribute in (value, currency): # raises ValueError for control characters
+            if is_string(attribute):
+                etree.Element(self.TAG).set(CN('office:value'), attribute)
         self._clear_old_value()
         self._set_new_value(value, value_type, currency)
 
-- 
2.43.0


From cb4bfdbca0db4048d8ad4993c5f582fff70f5648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 61/79] fix: observer: event handlers may subscribe and
 unsubscribe listeners

---
 ezodf/observer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ezodf/observer.py b/ezodf/observer.py
index 9c5244a..2ab5850 100644
--- a/ezodf/observer.py
+++ b/ezodf/observer.py
@@ -99,8 +99,10 @@ class Observer(object):
             return
 
         send = send_to_root if root is not None else send_to_all
-        for listener in event_listeners:
-            send(listener)
+        # handlers may subscribe or unsubscribe listeners
+        for listener in list(event_listeners):
+            if listener in event_listeners:
+                send(listener)
 
     def _has_listener(self, event):
         # just for testing
-- 
2.43.0


From 8cf4dfd4213c05f251ddadb0452038142f55d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:10 +0000
Subject: [PATCH 62/79] fix: prefixed names without local part are not valid

---
 ezodf/xmlns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/xmlns.py b/ezodf/xmlns.py
index a4af9f8..d96bc69 100644
--- a/ezodf/xmlns.py
+++ b/ezodf/xmlns.py
@@ -55,7 +55,7 @@ class _XMLNamespaces(object):
         return "{%s}%s" % (self.prefix2uri[prefix], local)
 
     def _split_prefix(self, tag):
-        if tag.count(':') == 1:
+        if tag.count(':') == 1 and not tag.endswith(':'):
             return tag.split(':')
         else:
             raise ValueError("prefix-notation required 'prefix:local': %s" % tag)
-- 
2.43.0


From ba4fe8816fc463a5efe90927390183d71cb93d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 63/79] fix: register the class of drawing pages with the
 package

---
 ezodf/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ezodf/__init__.py b/ezodf/__init__.py
index 74467d3..b1de450 100644
--- a/ezodf/__init__.py
+++ b/ezodf/__init__.py
@@ -28,6 +28,7 @@ from .whitespaces import LineBreak, Tabulator, Spaces, SoftPageBreak
 from .text import Span, Paragraph, Heading, Section, Hyperlink
 from .text import List, ListHeader, ListItem, NumberedParagraph
 from .table import Table
+from .drawingpage import DrawingPage
 from .cells import Cell
 from .conf import config
 from .variables import SimpleVariables, SimpleVariable
-- 
2.43.0


From 00af518d10a583787ffbf153b0a5425b07e34d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 64/79] fix: style containers do not find styles which have
 been moved away

---
 ezodf/styles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index 1f5873f..ff1d84f 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -57,7 +57,8 @@ class Container(object):
 
     def _find(self, name):
         style = self._cache.get(name)
-        if style is not None and style.get(CN('style:name')) == name:
+        # cached styles may have been renamed, moved or removed
+        if style is not None and style.getparent() is self.xmlnode and style.get(CN('style:name')) == name:
             return style
         for style in self.xmlnode.iterchildren():
             stylename = style.get(CN('style:name'))
-- 
2.43.0


From c9bb2cfe0c03d85d9ddf099c3f7381f38e215a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 65/79] fix: one wrapper object for each table

Iterating over a body (or any other access by the generic container methods)
created a second Table object, structural edits of one of the two objects were
unknown to the other one.
---
 ezodf/base.py      | 3 ++-
 ezodf/wrapcache.py | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ezodf/base.py b/ezodf/base.py
index 544c8d3..f0e2275 100644
--- a/ezodf/base.py
+++ b/ezodf/base.py
@@ -7,7 +7,8 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-from .xmlns import etree, register_class, wrap
+from .xmlns import etree, register_class
+from .wrapcache import wrap_known as wrap
 from .compatibility import itermap, tostr
 
 def safelen(text):
diff --git a/ezodf/wrapcache.py b/ezodf/wrapcache.py
index a54361d..361769b 100644
--- a/ezodf/wrapcache.py
+++ b/ezodf/wrapcache.py
@@ -22,6 +22,11 @@ class _WrapCache(object):
         self.add(wrapped_object)
         return wrapped_object
 
+    def wrap_known(self, element):
+        # do not create a second wrapper for elements in the cache
+        wrapped_object = self._cache.get(id(element))
+        return uncached_wrap(element) if wrapped_object is None else wrapped_object
+
     def add(self, wrapped_object):
         self._cache[id(wrapped_object.xmlnode)] = wrapped_object
 
@@ -33,6 +38,7 @@ class _WrapCache(object):
 
 _wrapcache = _WrapCache()
 wrap = _wrapcache.wrap
+wrap_known = _wrapcache.wrap_known
 clear = _wrapcache.clear
 add = _wrapcache.add
 remove = _wrapcache.remove
-- 
2.43.0


From 4041d4a5fe917643a32953d41e926858ea49318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:06 +0000
Subject: [PATCH 66/79] fix: XML comments in table rows are not cells

---
 ezodf/tablenormalizer.py | 10 +++++++++-
 ezodf/tableutils.py      |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ezodf/tablenormalizer.py b/ezodf/tablenormalizer.py
index bcaca5e..7892d7f 100644
--- a/ezodf/tablenormalizer.py
+++ b/ezodf/tablenormalizer.py
@@ -11,7 +11,7 @@ import copy
 
 from .tableutils import new_empty_cell, get_table_rows, is_table
 from .tableutils import get_min_max_cell_count, count_cells_in_row
-from .tableutils import RepetitionAttribute
+from .tableutils import RepetitionAttribute, is_element
 from . import const
 
 class _ExpandAll:
@@ -118,6 +118,13 @@ class TableNormalizer(object):
             raise ValueError('invalid xmlnode')
         self.xmlnode = xmlnode
 
+    def move_comments(self):
+        """ Rows contain just cells, comments are moved in front of the row. """
+        for xmlrow in get_table_rows(self.xmlnode):
+            for xmlnode in xmlrow.getchildren():
+                if not is_element(xmlnode):
+                    xmlrow.addprevious(xmlnode)
+
     def expand_repeated_table_content(self, expand, maxcount):
         """
         expand (strategy):
@@ -153,5 +160,6 @@ def normalize_table(xmlnode,
                     expand=const.DEFAULT_TABLE_EXPAND_STRATEGY, 
                     maxcount=const.DEFAULT_MAXCOUNT):
     normalizer = TableNormalizer(xmlnode)
+    normalizer.move_comments()
     normalizer.expand_repeated_table_content(expand, maxcount)
     normalizer.align_table_columns()
diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index dae355a..925f45a 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -82,6 +82,10 @@ def count_cells_in_row(xmlrow):
 def new_empty_cell():
     return etree.Element(CN('table:table-cell'))
 
+def is_element(xmlnode):
+    # the tag of comments and processing instructions is a function
+    return is_string(xmlnode.tag)
+
 def is_table(xmlnode):
     if (xmlnode is None) or (xmlnode.tag != CN('table:table')):
         return False
-- 
2.43.0


From 6f2c5481e9933461bbe74bb599d34d35db12a8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:14 +0000
Subject: [PATCH 67/79] fix: copies of cells, rows and tables have no xml:id of
 the source

Repeating an xml:id gives a document which cannot be opened again.
---
 ezodf/table.py                 | 7 +++----
 ezodf/tablecolumncontroller.py | 4 ++--
 ezodf/tablenormalizer.py       | 6 ++----
 ezodf/tableutils.py            | 8 ++++++++
 4 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 8046134..cb31645 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -7,7 +7,6 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-import copy
 import operator
 
 from .compatibility import is_string, tostr
@@ -17,7 +16,7 @@ from .base import GenericWrapper
 from .protection import random_protection_key
 from .propertymixins import TableVisibilityMixin
 from .propertymixins import StringProperty, BooleanProperty
-from .tableutils import address_to_index, get_cell_index
+from .tableutils import address_to_index, get_cell_index, clone_element
 from .tablerowcontroller import TableRowController
 from .tablecolumncontroller import TableColumnController
 from .cellspancontroller import CellSpanController
@@ -106,7 +105,7 @@ class Table(GenericWrapper):
         self.reset(size)
 
     def copy(self, newname=None):
-        newtable = Table(xmlnode=copy.deepcopy(self.xmlnode))
+        newtable = Table(xmlnode=clone_element(self.xmlnode))
         if newname is None:
             newname = 'CopyOf' + (self.name or '')
         newtable.name = newname
@@ -122,7 +121,7 @@ class Table(GenericWrapper):
             raise TypeError("invalid type of 'cell'.")
         xmlcell = cell.xmlnode
         if xmlcell.getparent() is not None: # do not remove it from its row
-            xmlcell = copy.deepcopy(xmlcell)
+            xmlcell = clone_element(xmlcell)
         self._cellmatrix.set_cell(pos, xmlcell)
 
     def itercells(self):
diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index 8a456f9..70eb4d5 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -12,7 +12,7 @@ import copy
 from .xmlns import CN, etree
 from .nodestructuretags import TABLE_COLUMNS, TABLE_PRELUDE
 from .nodeorganizer import PreludeTagBlock
-from .tableutils import is_table, get_table_columns, RepetitionAttribute
+from .tableutils import is_table, get_table_columns, RepetitionAttribute, clone_element
 from .conf import config
 
 def new_empty_column():
@@ -21,7 +21,7 @@ def new_empty_column():
 class _ExpandAll(object):
     def expand_element(self, count, xmlnode):
         while count > 1:
-            clone = copy.deepcopy(xmlnode)
+            clone = clone_element(xmlnode)
             xmlnode.addnext(clone)
             count -= 1
 
diff --git a/ezodf/tablenormalizer.py b/ezodf/tablenormalizer.py
index 7892d7f..042951f 100644
--- a/ezodf/tablenormalizer.py
+++ b/ezodf/tablenormalizer.py
@@ -7,11 +7,9 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-import copy
-
 from .tableutils import new_empty_cell, get_table_rows, is_table
 from .tableutils import get_min_max_cell_count, count_cells_in_row
-from .tableutils import RepetitionAttribute, is_element
+from .tableutils import RepetitionAttribute, is_element, clone_element
 from . import const
 
 class _ExpandAll:
@@ -25,7 +23,7 @@ class _ExpandAll:
 
     def expand_element(self, xmlnode, count):
         while count > 1:
-            clone = copy.deepcopy(xmlnode)
+            clone = clone_element(xmlnode)
             xmlnode.addnext(clone)
             count -= 1
 
diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 925f45a..8c93f88 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -7,6 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+import copy
 import re
 from .compatibility import tostr, is_string
 from .xmlns import CN, etree
@@ -82,6 +83,13 @@ def count_cells_in_row(xmlrow):
 def new_empty_cell():
     return etree.Element(CN('table:table-cell'))
 
+def clone_element(xmlnode):
+    """ Copy of `xmlnode` without xml:id attributes, which are unique in a document. """
+    clone = copy.deepcopy(xmlnode)
+    for element in clone.iter('*'):
+        element.attrib.pop('{http://www.w3.org/XML/1998/namespace}id', None)
+    return clone
+
 def is_element(xmlnode):
     # the tag of comments and processing instructions is a function
     return is_string(xmlnode.tag)
-- 
2.43.0


From 73506ea9afca0095a913996c90b013abf049f227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 68/79] fix: rejected text does not delete the existing text

A failing assignment of the text or tail of an lxml element removes the old
text.
---
 ezodf/base.py  | 4 +++-
 ezodf/meta.py  | 5 +++--
 ezodf/xmlns.py | 5 +++++
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ezodf/base.py b/ezodf/base.py
index f0e2275..acaaa71 100644
--- a/ezodf/base.py
+++ b/ezodf/base.py
@@ -7,7 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-from .xmlns import etree, register_class
+from .xmlns import etree, register_class, check_text
 from .wrapcache import wrap_known as wrap
 from .compatibility import itermap, tostr
 
@@ -35,6 +35,7 @@ class GenericWrapper(object):
         return self.xmlnode.text
     @text.setter
     def text(self, value):
+        check_text(value)
         self.xmlnode.text = value
 
     @property
@@ -42,6 +43,7 @@ class GenericWrapper(object):
         return self.xmlnode.tail
     @tail.setter
     def tail(self, value):
+        check_text(value)
         self.xmlnode.tail = value
 
     @property
diff --git a/ezodf/meta.py b/ezodf/meta.py
index 2866ad9..89d9dc1 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -10,7 +10,7 @@ __author__ = "mozman <mozman@gmx.at>"
 from datetime import datetime
 
 from .compatibility import tostr
-from .xmlns import CN, subelement, etree, register_class, XMLMixin
+from .xmlns import CN, subelement, etree, register_class, XMLMixin, check_text
 from .const import META_NSMAP, GENERATOR, META_NS
 
 TAGS = {
@@ -71,7 +71,8 @@ class OfficeDocumentMeta(XMLMixin):
         element = self.meta.find(cnkey)
         if element is None:
             element = etree.Element(cnkey)
-        element.text = value # invalid values raise exceptions
+        check_text(value) # invalid values raise exceptions
+        element.text = value
         if element.getparent() is None:
             self.meta.append(element)
 
diff --git a/ezodf/xmlns.py b/ezodf/xmlns.py
index d96bc69..0b0ecd2 100644
--- a/ezodf/xmlns.py
+++ b/ezodf/xmlns.py
@@ -11,6 +11,11 @@ from lxml import etree
 
 from .const import ALL_NSMAP
 
+def check_text(text):
+    """ Raises an exception if `text` is not storable. """
+    # a failing assignment to an existing element deletes the old text
+    etree.Element('text').text = text
+
 def subelement(parent, tag, new=True):
     """ Find/create SubElement `tag` in parent node.
     """
-- 
2.43.0


From c0022adccf033bd6bdb46dcbb72bd61d83299b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 69/79] fix: a rejected formatted number keeps the element
 unchanged

---
 ezodf/propertymixins.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ezodf/propertymixins.py b/ezodf/propertymixins.py
index 96da21a..5c0003f 100644
--- a/ezodf/propertymixins.py
+++ b/ezodf/propertymixins.py
@@ -8,7 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from .compatibility import tostr
-from .xmlns import CN, subelement
+from .xmlns import CN, subelement, check_text
 
 
 def StringProperty(name, doc=None):
@@ -86,8 +86,10 @@ class TextNumberingMixin(object):
         return formatted_number.text if formatted_number is not None else None
     @formatted_number.setter
     def formatted_number(self, value):
+        value = tostr(value)
+        check_text(value)
         formatted_number = subelement(self.xmlnode, CN('text:number'))
-        formatted_number.text = tostr(value)
+        formatted_number.text = value
 
 class TableVisibilityMixin(object):
     VALID_VISIBILITY_STATES = frozenset( ('visible', 'collapse', 'filter') )
-- 
2.43.0


From 21e6ee8d86bbc598c83a4dcf61d4952a6df47bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 70/79] fix: rejected text is not partially appended

---
 ezodf/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ezodf/text.py b/ezodf/text.py
index d5cf78d..3eff04d 100644
--- a/ezodf/text.py
+++ b/ezodf/text.py
@@ -8,7 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from.compatibility import is_string
-from .xmlns import CN, register_class, subelement, wrap
+from .xmlns import CN, register_class, subelement, wrap, check_text
 from .base import GenericWrapper, _NoContent, safelen
 from .whitespaces import encode_whitespaces
 from .protection import random_protection_key
@@ -56,7 +56,11 @@ class Span(GenericWrapper):
         def append(text, new):
             return text + new if text else new
 
-        for tag in encode_whitespaces(text):
+        taglist = encode_whitespaces(text)
+        for tag in taglist: # check all parts before appending the first one
+            if is_string(tag):
+                check_text(tag)
+        for tag in taglist:
             if is_string(tag):
                 if len(self.xmlnode) > 0:
                     lastchild = self[-1]
-- 
2.43.0


From cc871f698859fcc71d4e5f49f3384e57ab8c8648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 71/79] fix: a rejected update of user tags or statistics
 changes nothing

---
 ezodf/meta.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index 89d9dc1..4ab0132 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -151,13 +151,7 @@ class Usertags(object):
     def set(self, name, value, value_type=None):
         """ Set/Replace user-defined metatag.
         """
-        new_tag = etree.Element(CN('meta:user-defined'))
-        # invalid arguments raise exceptions
-        new_tag.set(CN('meta:name'), name)
-        new_tag.text = tostr(value)
-        if value_type is not None:
-            new_tag.set(CN('meta:value-type'), value_type)
-
+        new_tag = self._new_tag(name, value, value_type)
         tag = self._find(name)
         if tag is None:
             self.meta.append(new_tag)
@@ -167,6 +161,16 @@ class Usertags(object):
             tag.attrib.pop(CN('meta:value-type'), None)
             tag.attrib.update(new_tag.attrib)
 
+    @staticmethod
+    def _new_tag(name, value, value_type=None):
+        new_tag = etree.Element(CN('meta:user-defined'))
+        # invalid arguments raise exceptions
+        new_tag.set(CN('meta:name'), name)
+        new_tag.text = tostr(value)
+        if value_type is not None:
+            new_tag.set(CN('meta:value-type'), value_type)
+        return new_tag
+
     def __setitem__(self, name, value):
         self.set(name, value)
 
@@ -200,6 +204,8 @@ class Usertags(object):
 
     def update(self, d):
         """ Set user defined tags from dict `d`. """
+        for key, value in d.items(): # all or nothing
+            self._new_tag(key, value)
         for key, value in d.items():
             self.__setitem__(key, value)
 
@@ -257,6 +263,10 @@ class Statistic(object):
 
     def update(self, d):
         """ Set statistics from dict `d`. """
+        for key, value in d.items(): # all or nothing
+            if key not in Statistic.TYPES:
+                raise KeyError(key)
+            check_text(tostr(value))
         for key, value in d.items():
             self.__setitem__(key, value)
 
-- 
2.43.0


From 715f29d3555e44e16b139e74fa4b219997602516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 72/79] fix: a rejected column index of wrong type does not
 change the table

---
 ezodf/tablerowcontroller.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 8cd00fc..c3c22eb 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -7,6 +7,8 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+import operator
+
 from .xmlns import CN, etree
 from .nodestructuretags import TABLE_ROWS
 from .tablenormalizer import normalize_table
@@ -138,6 +140,7 @@ class TableRowController(TableCellAccessor):
     def insert_columns(self, index, count=1):
         if count < 1:
             raise ValueError('count < 1')
+        index = operator.index(index) # lxml accepts floats
         if index < 0:
             index += self.ncols()
         if index < 0 or index >= self.ncols():
@@ -150,6 +153,7 @@ class TableRowController(TableCellAccessor):
     def delete_columns(self, index, count=1):
         if count < 1 or count >= self.ncols():
             raise ValueError('invalid count')
+        index = operator.index(index) # lxml accepts floats
         if index < 0:
             index += self.ncols()
         if index < 0 or index + count > self.ncols():
-- 
2.43.0


From 253cac11cbfd68ba93b2715491082bc33f8f069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 73/79] fix: listeners which compare equal all receive
 broadcasts

---
 ezodf/observer.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/ezodf/observer.py b/ezodf/observer.py
index 2ab5850..737012a 100644
--- a/ezodf/observer.py
+++ b/ezodf/observer.py
@@ -7,10 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-try:
-    from weakref import WeakSet
-except ImportError:
-    from weakrefset import WeakSet
+from weakref import WeakValueDictionary
 
 class Observer(object):
     """ Simple implementation of the observer pattern for broadcasting messages
@@ -55,15 +52,16 @@ class Observer(object):
         try:
             event_listeners = self._listeners[event]
         except KeyError:
-            event_listeners = WeakSet()
+            # by id, because different listeners can be equal
+            event_listeners = WeakValueDictionary()
             self._listeners[event] = event_listeners
-        event_listeners.add(listener_object)
+        event_listeners[id(listener_object)] = listener_object
 
     def unsubscribe(self, event, listener_object):
         # Unsubscribing for objects which will be destroyed is not neccessary,
         # just unsubscribe objects that should not receive further messages.
         event_listeners = self._listeners[event]
-        event_listeners.remove(listener_object)
+        del event_listeners[id(listener_object)]
 
     def broadcast(self, event, msg=None, root=None):
         """ Broadcast an 'event' and submit 'msg' to the listeners event handler.
@@ -100,8 +98,8 @@ class Observer(object):
 
         send = send_to_root if root is not None else send_to_all
         # handlers may subscribe or unsubscribe listeners
-        for listener in list(event_listeners):
-            if listener in event_listeners:
+        for listener in list(event_listeners.values()):
+            if id(listener) in event_listeners:
                 send(listener)
 
     def _has_listener(self, event):
-- 
2.43.0


From 4496495103b7685bfa2766ce9f2041bf274b0515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 74/79] fix: appending text to a cell does not expand nested
 tables

---
 ezodf/cells.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 985b0a0..4154f92 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -187,14 +187,11 @@ class Cell(GenericWrapper):
     def append_text(self, text, style_name=None):
         if self.value_type != 'string':
             raise TypeError('invalid cell type: %s' % self.value_type)
-        try:
-            last_child = self.get_child(-1)
-            if last_child.kind in ("Paragraph", "Heading"):
-                last_child.append(Span(text, style_name=style_name))
-                return
-        except IndexError:
-            pass
-        self.append(Paragraph(text, style_name=style_name))
+        # do not wrap other content, this would expand nested tables
+        if len(self.xmlnode) and self.xmlnode[-1].tag in SUPPORTED_CELL_CONTENT_TAGS:
+            wrap(self.xmlnode[-1]).append(Span(text, style_name=style_name))
+        else:
+            self.append(Paragraph(text, style_name=style_name))
 
     @property
     def currency(self):
-- 
2.43.0


From efcb30ac872f2a79120d991e601b45c96982dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:07 +0000
Subject: [PATCH 75/79] fix: seconds with a fraction of long durations are read
 exactly

---
 ezodf/timeparser.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ezodf/timeparser.py b/ezodf/timeparser.py
index c99b00b..83c181c 100644
--- a/ezodf/timeparser.py
+++ b/ezodf/timeparser.py
@@ -16,7 +16,7 @@ DATE_FORMAT = "%Y-%m-%d"
 
 class TimeParser(object):
     duration_matcher = re.compile("^-?P(?=[0-9T])([0-9]+Y)?([0-9]+M)?([0-9]+D)?"
-        "(?:T(?=[0-9])([0-9]+H)?([0-9]+M)?([0-9]+(?:[.,][0-9]+)?S)?)?\\Z")
+        "(?:T(?=[0-9])([0-9]+H)?([0-9]+M)?(?:([0-9]+)(?:[.,]([0-9]+))?S)?)?\\Z")
     date_matcher = re.compile("^[0-9]{4}-[0-9]{2}-[0-9]{2}"
         "(T[0-9]{2}:[0-9]{2}:[0-9]{2}(\\.[0-9]+)?)?\\Z")
 
@@ -73,20 +73,20 @@ class TimeParser(object):
     @staticmethod
     def duration_parser(duration):
         def clean(timepart):
-            result = 0
-            if timepart:
-                timepart = timepart[:-1].replace(',', '.')
-                result = float(timepart)
-            return result
+            return int(timepart.rstrip('YMDHS')) if timepart else 0
 
         matchresult = TimeParser.duration_matcher.match(duration)
         if matchresult:
-            timeparts = [clean(part) for part in matchresult.groups()]
+            # floats can not represent all seconds with a fraction
+            fraction = matchresult.group(7)
+            microseconds = float('0.%se6' % fraction) if fraction else 0
+            timeparts = [clean(part) for part in matchresult.groups()[:6]]
             years, months, days, hours, minutes, seconds = timeparts
             days = years * 365 + months * 30 + days
         else:
             raise ValueError('not a valid duration: %s' % duration)
-        value = timedelta(days=days, hours=hours, minutes=minutes, seconds=seconds)
+        value = timedelta(days=days, hours=hours, minutes=minutes, seconds=seconds,
+                          microseconds=microseconds)
         return -value if duration.startswith('-') else value
 
     @staticmethod
-- 
2.43.0


From 9e0f8db88b9650ba9d8e39fd7fe46384e3a6020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 76/79] fix: protection keys are stored as plain strings

---
 ezodf/protection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/protection.py b/ezodf/protection.py
index 4e39877..5ec9250 100644
--- a/ezodf/protection.py
+++ b/ezodf/protection.py
@@ -12,4 +12,4 @@ import random
 FNCHARS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
 
 def random_protection_key(count=12):
-    return random.sample(FNCHARS, count)
+    return ''.join(random.sample(FNCHARS, count))
-- 
2.43.0


From d69e667300f6c155e3b7086917a8939d832cf663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:35 +0000
Subject: [PATCH 77/79] fix: removing a span that exceeds the table does not
 raise

---
 ezodf/cellspancontroller.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ezodf/cellspancontroller.py b/ezodf/cellspancontroller.py
index 26d96dc..0193ac9 100644
--- a/ezodf/cellspancontroller.py
+++ b/ezodf/cellspancontroller.py
@@ -68,7 +68,11 @@ class CellSpanController(object):
     def remove_span(self, pos):
         if not self.is_cell_spanning(pos):
             return # should it raise an error?
-        size = self._get_cell(pos).span
+        row, column = pos
+        nrows, ncols = self._get_cell(pos).span
+        # the span can exceed the table
+        size = (min(nrows, self._row_controller.nrows() - row),
+                min(ncols, self._row_controller.ncols() - column))
         for cell_index in iter_cell_range(pos, size):
             self._uncover_cell(cell_index)
         self._remove_span_attributes(pos)
-- 
2.43.0


From be1577c08cf6ded2b96248b733932b630a6d2a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 78/79] fix: removing or setting repeated keywords and
 user-defined tags affects all of them

---
 ezodf/meta.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index 4ab0132..19bb427 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -118,8 +118,9 @@ class Keywords(object):
     def remove(self, keyword):
         """ Remove 'keyword' from meta data. """
         tag = self._find(keyword)
-        if tag is not None:
+        while tag is not None: # other producers can repeat a keyword
             self.meta.remove(tag)
+            tag = self._find(keyword)
 
     def clear(self):
         """ Delete all keywords. """
@@ -160,6 +161,8 @@ class Usertags(object):
             # the default type is 'string'
             tag.attrib.pop(CN('meta:value-type'), None)
             tag.attrib.update(new_tag.attrib)
+            for duplicate in self._findall(name)[1:]:
+                self.meta.remove(duplicate)
 
     @staticmethod
     def _new_tag(name, value, value_type=None):
@@ -189,11 +192,11 @@ class Usertags(object):
 
         Raises KeyError, if 'name' not exist.
         """
-        tag = self._find(name)
-        if tag is not None:
-            self.meta.remove(tag)
-        else:
+        tags = self._findall(name)
+        if not tags:
             raise KeyError(name)
+        for tag in tags: # other producers can repeat a name
+            self.meta.remove(tag)
 
     def typeof(self, name):
         """ Get type of user defined tag `name`. """
@@ -215,11 +218,14 @@ class Usertags(object):
             self.meta.remove(tag)
 
     def _find(self, name):
-        for tag in self.meta.findall(CN('meta:user-defined')):
-            if name == tag.get(CN('meta:name')):
-                return tag
+        for tag in self._findall(name):
+            return tag
         return None
 
+    def _findall(self, name):
+        return [tag for tag in self.meta.findall(CN('meta:user-defined'))
+                if name == tag.get(CN('meta:name'))]
+
 class Statistic(object):
     TYPES = frozenset(['page', 'table', 'draw', 'image', 'object',
                        'ole-object', 'paragraph', 'word', 'character',
-- 
2.43.0


From 88c3bac03938f47217de5e18cbccd810fc1e2d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:04 +0000
Subject: [PATCH 79/79] fix: the leading elements of text documents include
 text:tracked-changes

---
 ezodf/nodestructuretags.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ezodf/nodestructuretags.py b/ezodf/nodestructuretags.py
index 5528823..9c78523 100644
--- a/ezodf/nodestructuretags.py
+++ b/ezodf/nodestructuretags.py
@@ -13,6 +13,8 @@ OFFICE_FORMS = [CN("office:forms")]
 
 PRESENTATION_SETTINGS = [CN("presentation:settings")]
 
+TEXT_TRACKED_CHANGES = [CN("text:tracked-changes")]
+
 TABLE_TRACKED_CHANGES = [CN("table:tracked-changes")]
 
 TEXT_DECL = [
@@ -87,7 +89,8 @@ TEXT_CONTENT_ELEMENTS = [
 ]
 
 #<office:text>
-TEXT_PRELUDE = OFFICE_FORMS + TABLE_TRACKED_CHANGES + TEXT_DECL + TABLE_DECL
+TEXT_PRELUDE = (OFFICE_FORMS + TEXT_TRACKED_CHANGES + TABLE_TRACKED_CHANGES +
+                TEXT_DECL + TABLE_DECL)
 TEXT_CONTENT_STREAM = TEXT_CONTENT_ELEMENTS + SHAPE + CHANGE_MARKS
 TEXT_CONTENT_PAGED = PAGE_SEQUENCE
 TEXT_EPILOGUE = TABLE_FUNCTIONS
-- 
2.43.0

