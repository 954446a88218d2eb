From a8441eff67623699de0dbe4bc056ce83055780b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 01/23] fix: escape quotes and line breaks of plain values
 merged with HTML() attribute values

---
 htmltools/_core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 405b6ce..2a17bfa 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -555,7 +555,14 @@ class TagAttrDict(Dict[str, "str | HTML"]):
                 nm = self._normalize_attr_name(k)
 
                 if nm in attrz:
-                    val = attrz[nm] + " " + val
+                    prev = attrz[nm]
+                    # `HTML + str` escapes the `str` as element text, which leaves quotes
+                    # and line breaks alone; inside an attribute they must be escaped too.
+                    if isinstance(prev, HTML) and not isinstance(val, HTML):
+                        val = HTML(html_escape(val, attr=True))
+                    elif isinstance(val, HTML) and not isinstance(prev, HTML):
+                        prev = HTML(html_escape(prev, attr=True))
+                    val = prev + " " + val
 
                 attrz[nm] = val
 
-- 
2.43.0


From 8de410c6e9d1111417d350ae9531f4c6438d9eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 02/23] fix: emit HTML() returned by _repr_html_() verbatim

---
 htmltools/_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 2a17bfa..7d28a14 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -437,7 +437,8 @@ class TagList(UserList[TagNode]):
                 if prev_was_add_ws:
                     html_ += "  " * indent
 
-                html_ += child._repr_html_()  # pyright: ignore[reportPrivateUsage]
+                # str(): adding an HTML() object would escape everything before it
+                html_ += str(child._repr_html_())  # pyright: ignore[reportPrivateUsage]
 
                 prev_was_add_ws = False
 
-- 
2.43.0


From 1755b1a3040ced12482ffb621dd177d27c73e18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 03/23] fix: TagList += normalises its operand like extend()
 does

---
 htmltools/_core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 7d28a14..e14574d 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -320,6 +320,14 @@ class TagList(UserList[TagNode]):
 
         return TagList(*item, self)
 
+    def __iadd__(self, item: Iterable[TagChild]) -> TagList:
+        """
+        Add the item at the end of this TagList, in place.
+        """
+
+        self.extend(item)
+        return self
+
     def tagify(self) -> "TagList":
         """
         Convert any tagifiable children to Tag/TagList objects.
-- 
2.43.0


From c1beac16539234ea9e9186176a0147566a92c81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 04/23] fix: keep HTML() strings whole when they are added to
 or extend a TagList

---
 htmltools/_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index e14574d..c83f530 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -271,11 +271,11 @@ class TagList(UserList[TagNode]):
     <div id="foo" class="bar"></div>
     """
 
-    def _should_not_expand(self, x: object) -> TypeIs[str]:
+    def _should_not_expand(self, x: object) -> TypeIs[str | HTML]:
         """
         Check if an object should not be expanded into a list of children.
         """
-        return isinstance(x, str)
+        return isinstance(x, (str, HTML))
 
     def __init__(self, *args: TagChild) -> None:
         super().__init__(_tagchilds_to_tagnodes(args))
@@ -1941,7 +1941,7 @@ def consolidate_attrs(
 # Convert a list of TagChild objects to a list of TagNode objects. Does not alter input
 # object.
 def _tagchilds_to_tagnodes(x: Iterable[TagChild]) -> list[TagNode]:
-    if isinstance(x, str):
+    if isinstance(x, (str, HTML)):
         return [x]
 
     result = flatten(x)
-- 
2.43.0


From 6c7b5966a717e7f37a233965041959c8218ecfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 05/23] fix: is_tag_child() accepts integers, as every child
 operation does

---
 htmltools/_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index c83f530..293c33a 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -207,6 +207,7 @@ def is_tag_child(x: object) -> TypeIs[TagChild]:
         (
             # TagNode, # Handled above
             TagList,
+            int,
             float,
             # None, # Handled above
             Sequence,
-- 
2.43.0


From b3f3134ddcce2a11c37f7389d8e80f5095d1424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 06/23] fix: match and keep escaped class names in HTML() class
 values

---
 htmltools/_core.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 293c33a..1c3fa8c 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -791,14 +791,19 @@ class Tag:
             return self
 
         # Coerce and clean
-        class_ = str(class_).strip()
+        if not isinstance(class_, HTML):
+            class_ = str(class_)
+        spellings = _class_spellings(class_.strip(), cls)
 
         # Remove the class value from the ordered set of class values
         # Note: .split() splits on any whitespace and removes empty strings
-        new_classes = [cls_val for cls_val in cls.split() if cls_val != class_]
+        new_classes = [cls_val for cls_val in cls.split() if cls_val not in spellings]
         if len(new_classes) > 0:
-            # Store the new class value
-            self.attrs.update({"class": " ".join(new_classes)})
+            # Store the new class value; what is left of an HTML() value is still HTML()
+            new_value = " ".join(new_classes)
+            self.attrs.update(
+                {"class": HTML(new_value) if isinstance(cls, HTML) else new_value}
+            )
         else:
             # If no class values remain, remove the class attribute
             self.attrs.pop("class")
@@ -820,7 +825,8 @@ class Tag:
         """
         cls = self.attrs.get("class")
         if cls:
-            return class_ in cls.split()
+            classes = cls.split()
+            return any(x in classes for x in _class_spellings(class_, cls))
         else:
             return False
 
@@ -986,6 +992,17 @@ class Tag:
         return str(self)
 
 
+def _class_spellings(class_: str | HTML, value: str | HTML) -> list[str]:
+    """
+    How a class name may be spelled as a token of the class attribute `value`.
+    """
+    spellings = [str(class_)]
+    # TagAttrDict.update() escapes the plain strings that it merges into an HTML() value
+    if isinstance(value, HTML) and not isinstance(class_, HTML):
+        spellings.append(html_escape(str(class_), attr=True))
+    return spellings
+
+
 # Tags that have the form <tagname />
 _VOID_TAG_NAMES = {
     "area",
-- 
2.43.0


From d6b9aa9542d1648bf5b495107f2877191bc7cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 07/23] fix: a displayed value that compares equal to None is
 not dropped

---
 htmltools/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 1c3fa8c..e798e59 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1062,7 +1062,7 @@ def wrap_displayhook_handler(
             handler(value)
         elif isinstance(value, ReprHtml):
             handler(HTML(value._repr_html_()))  # pyright: ignore[reportPrivateUsage]
-        elif value not in (None, ...):
+        elif value is not None and value is not ...:
             handler(value)
 
     return handler_wrapper
-- 
2.43.0


From e7d2932837f674975c085ea1cbbfd108e4bc5972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 08/23] fix: HTMLDocument does not write its attributes to the
 user's <html> tag

---
 htmltools/_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index e798e59..3d3fb29 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1181,9 +1181,9 @@ class HTMLDocument:
             and isinstance(content[0], Tag)
             and cast(Tag, content[0]).name == "html"
         ):
-            html = cast(Tag, content[0])
+            html = cast(Tag, content[0]).tagify()
+            # tagify() returned a copy; the user's own <html> tag stays as it is
             html.attrs.update(**self._html_attr_args)
-            html = html.tagify()
             html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
             return html
 
-- 
2.43.0


From 220af383926f5a3b0daafd2141085be2fb6ef30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 09/23] fix: HTMLDocument looks for <html> and <body> in the
 expanded content

---
 htmltools/_core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 3d3fb29..d0d6bde 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1172,7 +1172,8 @@ class HTMLDocument:
     def _gen_html_tag_tree(
         self, lib_prefix: Optional[str], include_version: bool
     ) -> Tag:
-        content: TagList = self._content
+        # Expand the content first: what it expands to decides which case applies.
+        content: TagList = self._content.tagify()
         html: Tag
         body: Tag
 
@@ -1181,8 +1182,8 @@ class HTMLDocument:
             and isinstance(content[0], Tag)
             and cast(Tag, content[0]).name == "html"
         ):
-            html = cast(Tag, content[0]).tagify()
-            # tagify() returned a copy; the user's own <html> tag stays as it is
+            # The user's own <html> tag stays as it is
+            html = copy(cast(Tag, content[0]))
             html.attrs.update(**self._html_attr_args)
             html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
             return html
@@ -1196,8 +1197,6 @@ class HTMLDocument:
         else:
             body = Tag("body", content)
 
-        body = body.tagify()
-
         html = Tag("html", Tag("head"), body, _add_ws=True, **self._html_attr_args)
         html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
         return html
-- 
2.43.0


From 68b3e84a02e870bf8bee7558e84a4d66283b525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:29 +0000
Subject: [PATCH 10/23] fix: tagify() copies the contents of HTML dependencies,
 not only the object

---
 htmltools/_core.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index d0d6bde..3af8553 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -351,7 +351,11 @@ class TagList(UserList[TagNode]):
                     cp[i] = tagified_child
 
             elif isinstance(child, MetadataNode):
-                cp[i] = copy(child)
+                node = copy(child)
+                if isinstance(node, HTMLDependency) and node.head is not None:
+                    # The tags in the head must be independent of the original, too.
+                    node.head = node.head.tagify()
+                cp[i] = node
         return cp
 
     def save_html(
@@ -1665,6 +1669,17 @@ class HTMLDependency(MetadataNode):
         else:
             self.head = TagList(head)
 
+    def __copy__(self) -> HTMLDependency:
+        cp = self.__class__.__new__(self.__class__)
+        cp.__dict__.update(self.__dict__)
+        # Changing the copy's containers in place must not affect the original.
+        cp.source = copy(self.source)
+        cp.script = deepcopy(self.script)
+        cp.stylesheet = deepcopy(self.stylesheet)
+        cp.meta = deepcopy(self.meta)
+        cp.head = copy(self.head)
+        return cp
+
     def source_path_map(
         self, *, lib_prefix: Optional[str] = "lib", include_version: bool = True
     ) -> SourcePathMapping:
-- 
2.43.0


From e1a4bacf9f8d074c81467cc07d33ef1e6f5dc1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:31 +0000
Subject: [PATCH 11/23] fix: tags used as context managers are equal to
 structurally identical tags

---
 htmltools/_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 3af8553..5d240a9 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -2043,6 +2043,9 @@ def _equals_impl(x: Any, y: Any) -> bool:
     if not isinstance(y, type(x)):
         return False
     for key in x.__dict__.keys():
+        # How a tag was used as a context manager is not part of its structure.
+        if key == "prev_displayhook":
+            continue
         if getattr(x, key, None) != getattr(y, key, None):
             return False
     return True
-- 
2.43.0


From 0d1eca8e694f01442b3c36cdc1e7f969782dc62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 12/23] fix: HTMLDependency rejects script="", stylesheet=""
 and meta=""

---
 htmltools/_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 5d240a9..33a40b8 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1832,6 +1832,9 @@ class HTMLDependency(MetadataNode):
                 shutil.copytree(src_file, target_file)
 
     def _validate_dicts(self, ld: Iterable[object], req_attr: list[str]) -> None:
+        if isinstance(ld, (str, HTML)):
+            # A string is an item of the wrong type; an empty one has nothing to loop over.
+            ld = [ld]
         for d in ld:
             self._validate_dict(d, req_attr)
 
-- 
2.43.0


From 7b248d5395468b6c3084e1ca9eb9e2a503af097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:02 +0000
Subject: [PATCH 13/23] fix: dependencies in a dependency's head content are
 collected and hoisted

---
 htmltools/_core.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 33a40b8..b2bdea6 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -488,6 +488,9 @@ class TagList(UserList[TagNode]):
         for x in self:
             if isinstance(x, HTMLDependency):
                 deps.append(x)
+                # Its <head> content can have dependencies of its own.
+                if x.head is not None:
+                    deps.extend(x.head.get_dependencies(dedup=False))
             elif isinstance(x, Tag):
                 # When we recurse, don't deduplicate at every node. We only need to do
                 # that once, at the top level.
@@ -1134,8 +1137,11 @@ class HTMLDocument:
             Whether to include the version number in the dependency's folder name.
         """
 
-        html_ = self._gen_html_tag_tree(lib_prefix, include_version=include_version)
+        html_, deps = self._gen_html_tag_tree(
+            lib_prefix, include_version=include_version
+        )
         rendered = html_.render()
+        rendered["dependencies"] = deps
         rendered["html"] = "<!DOCTYPE html>\n" + rendered["html"]
         return rendered
 
@@ -1170,12 +1176,12 @@ class HTMLDocument:
 
     # Take the stored content, and generate an <html> tag which contains the correct
     # <head> and <body> content. HTMLDependency items will be extracted out of the body
-    # and inserted into the <head>.
+    # and inserted into the <head>. Also returns these dependencies.
     # - lib_prefix: A directory prefix to add to <script src="[lib_prefix]/script.js">
     #   and <link rel="[lib_prefix]/style.css"> tags.
     def _gen_html_tag_tree(
         self, lib_prefix: Optional[str], include_version: bool
-    ) -> Tag:
+    ) -> tuple[Tag, list[HTMLDependency]]:
         # Expand the content first: what it expands to decides which case applies.
         content: TagList = self._content.tagify()
         html: Tag
@@ -1189,8 +1195,7 @@ class HTMLDocument:
             # The user's own <html> tag stays as it is
             html = copy(cast(Tag, content[0]))
             html.attrs.update(**self._html_attr_args)
-            html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
-            return html
+            return HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
 
         if (
             len(content) == 1
@@ -1202,16 +1207,15 @@ class HTMLDocument:
             body = Tag("body", content)
 
         html = Tag("html", Tag("head"), body, _add_ws=True, **self._html_attr_args)
-        html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
-        return html
+        return HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
 
     # Given an <html> tag object, copies the top node, then extracts dependencies from
     # the tree, and inserts the content from those dependencies into the <head>, such as
-    # <link> and <script> tags.
+    # <link> and <script> tags. Returns the new tag and the dependencies.
     @staticmethod
     def _hoist_head_content(
         x: Tag, lib_prefix: Optional[str], include_version: bool
-    ) -> Tag:
+    ) -> tuple[Tag, list[HTMLDependency]]:
         if x.name != "html":
             raise ValueError(f"Expected <html> tag, got <{x.name}>.")
 
@@ -1254,7 +1258,7 @@ class HTMLDocument:
                 for d in deps
             ]
         )
-        return res
+        return res, deps
 
 
 class HTMLTextDocument:
-- 
2.43.0


From 2f6eafa3018db295d989f816636aeaea7e6c4af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:00 +0000
Subject: [PATCH 14/23] fix: save_html() percent-encodes libdir in the URLs it
 writes

---
 htmltools/_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index b2bdea6..d7bc0c6 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1166,7 +1166,9 @@ class HTMLDocument:
         if libdir:
             destdir = os.path.join(destdir, libdir)
 
-        rendered = self.render(lib_prefix=libdir, include_version=include_version)
+        # The file refers to that directory with a URL.
+        lib_prefix = urllib.parse.quote(libdir) if libdir else libdir
+        rendered = self.render(lib_prefix=lib_prefix, include_version=include_version)
         for dep in rendered["dependencies"]:
             dep.copy_to(destdir, include_version=include_version)
 
-- 
2.43.0


From 2d8bf7807902731a9885c2ade99743763d127db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:16 +0000
Subject: [PATCH 15/23] fix: neutralise every end tag in serialised
 dependencies, not only </script>

---
 htmltools/_core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index d7bc0c6..0d7a72c 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1743,8 +1743,9 @@ class HTMLDependency(MetadataNode):
 
         return Tag(
             "script",
-            # "</script>" in a script tag must be escaped
-            json.dumps(res, indent=indent).replace("</script>", "<\\/script>"),
+            # "</script" in a script tag must be escaped, in any letter case and with or
+            # without the closing ">". In JSON, "<" only occurs inside strings.
+            json.dumps(res, indent=indent).replace("</", "<\\/"),
             type="application/json",
             data_html_dependency=True,
         )
-- 
2.43.0


From d1ae393f4b4b8d675937645f74beaebc38fd9dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 16/23] fix: HTMLTextDocument does not extend the caller's list
 of dependencies

---
 htmltools/_core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 0d7a72c..4c69e38 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1308,9 +1308,8 @@ class HTMLTextDocument:
             )
 
         self._html = html
-        if deps is None:
-            deps = []
-        self._deps = deps
+        # A copy: dependencies found in the text are added to it.
+        self._deps: list[HTMLDependency] = [] if deps is None else list(deps)
 
         self._deps_replace_pattern = deps_replace_pattern
 
-- 
2.43.0


From 1877bb7bb1c207a60c9f892a966b26dee25ea892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 17/23] fix: JSXTag.tagify() must not alter the component or
 its expansions

---
 htmltools/_jsx.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 02a1c9d..a499354 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -110,6 +110,14 @@ class JSXTag:
     def append(self, *args: TagNode) -> None:
         self.children.append(*args)
 
+    def __copy__(self) -> "JSXTag":
+        cp = self.__class__.__new__(self.__class__)
+        cp.__dict__.update(self.__dict__)
+        # The copy must not share its attributes and children with the original.
+        cp.attrs = copy.copy(self.attrs)
+        cp.children = copy.copy(self.children)
+        return cp
+
     def tagify(self) -> Tag:
         metadata_nodes: list[MetadataNode] = []
 
@@ -121,20 +129,19 @@ class JSXTag:
         def tagify_tagifiable_and_get_metadata(x: Any) -> Any:
             if isinstance(x, Tagifiable) and not isinstance(x, (Tag, JSXTag)):
                 x = x.tagify()
-            else:
-                x = copy.copy(x)
+            # Always work on a copy: a Tagifiable may keep the object it returned.
+            x = copy.copy(x)
             if isinstance(x, MetadataNode):
                 metadata_nodes.append(x)
             return x
 
-        cp = copy.copy(self)
-        _walk_attrs_and_children(cp, tagify_tagifiable_and_get_metadata)
+        cp = _walk_attrs_and_children(self, tagify_tagifiable_and_get_metadata)
 
         # When _render_react_js()  is called on a JSXTag object, we'll recurse, but
         # instead of calling the standard Tag.get_html_string() method to format the
         # object, we'll recurse using _render_react_js(), which descends into the tree
         # and formats objects appropriately for inside of a JSX element.
-        component = _render_react_js(self, 2, "\n")
+        component = _render_react_js(cp, 2, "\n")
 
         # Ideally, we'd use document.currentScript.after() to insert the component
         # directly after the script tag, but when dynamically rendered via jQuery (i.e.,
-- 
2.43.0


From e6509d233f2f63de1038794e0f26254c27be88f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 18/23] fix: JSX children whose tagify() returns a TagList are
 spliced in

---
 htmltools/_jsx.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index a499354..4607ccf 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -194,13 +194,14 @@ def _walk_attrs_and_children(x: Any, fn: Callable[[Any], Any]) -> Any:
     x = fn(x)
 
     if isinstance(x, Tag):
-        for i, child in enumerate(x.children):
-            x.children[i] = _walk_attrs_and_children(child, fn)
+        x.children = _walk_children(x.children, fn)
     elif isinstance(x, JSXTag):
         for key, value in x.attrs.items():
             x.attrs[key] = _walk_attrs_and_children(value, fn)
-        for i, child in enumerate(x.children):
-            x.children[i] = _walk_attrs_and_children(child, fn)
+        x.children = _walk_children(x.children, fn)
+    elif isinstance(x, TagList):
+        # A Tagifiable object may expand to a TagList
+        x = _walk_children(x, fn)
     elif isinstance(x, Tagifiable):
         # Don't do anything here?
         pass
@@ -208,6 +209,11 @@ def _walk_attrs_and_children(x: Any, fn: Callable[[Any], Any]) -> Any:
     return x
 
 
+def _walk_children(x: TagList, fn: Callable[[Any], Any]) -> TagList:
+    # TagList() splices in the children that were expanded to a TagList.
+    return TagList(*[_walk_attrs_and_children(child, fn) for child in x])
+
+
 # Return a string representing the rendered HTML for the given JSXTag object. The
 # metadata_nodes object collects MetadataNode objects in the tree, and is altered by
 # reference as a side-effect of this function.
-- 
2.43.0


From 638efa3d975d107c98b4875681f31212c2727af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 19/23] fix: JSX style strings may have values that contain a
 colon

---
 htmltools/_jsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 4607ccf..b552b5c 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -291,7 +291,7 @@ def _serialize_style_attr(x: object) -> str:
     if isinstance(x, str):
         x = cast(
             "list[tuple[str, str]]",
-            [tuple(y.split(":")) for y in x.split(";") if re.search(":", y)],
+            [tuple(y.split(":", 1)) for y in x.split(";") if re.search(":", y)],
         )
         x = dict(x)
     if isinstance(x, dict):
-- 
2.43.0


From dde0bb656805b065e3260ffa8f836a31eff0567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 20/23] fix: an empty JSX allowedProps list allows no props

---
 htmltools/_jsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index b552b5c..479f5d9 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -94,7 +94,7 @@ class JSXTag:
         if pieces[-1][:1] != pieces[-1][:1].upper():
             raise NotImplementedError("JSX tags must be start with a capital letter.")
 
-        if allowedProps:
+        if allowedProps is not None:
             for k in kwargs.keys():
                 if k not in allowedProps:
                     raise NotImplementedError(f"{k} is not a valid prop for {_name}")
-- 
2.43.0


From c31255898187013a2f1d022a4d510691df680a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 21/23] fix: JSX floats that are not finite are written as
 JavaScript numbers

---
 htmltools/_jsx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 479f5d9..823aeb9 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -8,6 +8,7 @@ components may become unsupported in a future version (see #26 and #28)
 from __future__ import annotations
 
 import copy
+import math
 import re
 from typing import Any, Callable, Dict, Iterable, Mapping, Optional, cast
 
@@ -279,6 +280,8 @@ def _serialize_attr(x: object) -> str:
         return "{" + ", ".join([f'"{y}": ' + _serialize_attr(x1[y]) for y in x1]) + "}"
     if isinstance(x, bool):
         return str(x).lower()
+    if isinstance(x, float) and not math.isfinite(x):
+        return "NaN" if math.isnan(x) else "Infinity" if x > 0 else "-Infinity"
     if isinstance(x, (jsx, int, float)):
         return str(x)
     return '"' + str(x).replace('"', '\\"') + '"'
-- 
2.43.0


From ebb36ecb609509b3c095ef44fe36f3292a92a36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 22/23] fix: quotes in JSX prop names and dict keys are escaped

---
 htmltools/_jsx.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 823aeb9..117613c 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -224,7 +224,7 @@ def _render_react_js(x: TagNode, indent: int, eol: str) -> str:
     if isinstance(x, MetadataNode):
         return ""
     elif isinstance(x, str):
-        return indent_str + '"' + x.replace('"', '\\"') + '"'
+        return indent_str + _quote(x)
 
     if isinstance(x, JSXTag):
         nm = x.name
@@ -250,7 +250,7 @@ def _render_react_js(x: TagNode, indent: int, eol: str) -> str:
             v = _serialize_style_attr(v)
         else:
             v = _serialize_attr(v)
-        res += f'"{k}": {v}'
+        res += f"{_quote(k)}: {v}"
     res += "}"
 
     if len(x.children) == 0:
@@ -264,6 +264,11 @@ def _render_react_js(x: TagNode, indent: int, eol: str) -> str:
     return res + eol + indent_str + ")"
 
 
+# A double-quoted JavaScript string literal.
+def _quote(x: object) -> str:
+    return '"' + str(x).replace('"', '\\"') + '"'
+
+
 # Unfortunately we can't use json.dumps() here because I don't know how to
 # avoid quoting jsx(), jsx_tag(), tag(), etc.
 def _serialize_attr(x: object) -> str:
@@ -277,14 +282,14 @@ def _serialize_attr(x: object) -> str:
         )
     if isinstance(x, dict):
         x1: dict[str, Any] = x  # make pyright happy
-        return "{" + ", ".join([f'"{y}": ' + _serialize_attr(x1[y]) for y in x1]) + "}"
+        return "{" + ", ".join([_quote(y) + ": " + _serialize_attr(x1[y]) for y in x1]) + "}"
     if isinstance(x, bool):
         return str(x).lower()
     if isinstance(x, float) and not math.isfinite(x):
         return "NaN" if math.isnan(x) else "Infinity" if x > 0 else "-Infinity"
     if isinstance(x, (jsx, int, float)):
         return str(x)
-    return '"' + str(x).replace('"', '\\"') + '"'
+    return _quote(x)
 
 
 def _serialize_style_attr(x: object) -> str:
-- 
2.43.0


From b5d9645752c2d3d8892274197dc088c276ec5463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 23/23] fix: tags inside list and dict JSX props surface their
 dependencies

---
 htmltools/_jsx.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 117613c..5a07115 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -200,6 +200,11 @@ def _walk_attrs_and_children(x: Any, fn: Callable[[Any], Any]) -> Any:
         for key, value in x.attrs.items():
             x.attrs[key] = _walk_attrs_and_children(value, fn)
         x.children = _walk_children(x.children, fn)
+    elif isinstance(x, (list, tuple)):
+        x = [_walk_attrs_and_children(y, fn) for y in cast(Iterable[Any], x)]
+    elif isinstance(x, dict):
+        x1: dict[Any, Any] = x  # make pyright happy
+        x = {key: _walk_attrs_and_children(value, fn) for key, value in x1.items()}
     elif isinstance(x, TagList):
         # A Tagifiable object may expand to a TagList
         x = _walk_children(x, fn)
-- 
2.43.0

