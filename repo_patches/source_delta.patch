From c692eae9a34763516eaae27f32cd5a971586a0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:22 +0000
Subject: [PATCH 01/75] fix: make_nullable no longer modifies the type it is
 called on

---
 recap/types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 7773800..8d4d85d 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -44,7 +44,8 @@ class RecapType:
         # Move doc to the union type
         doc = attrs.pop("doc", None)
         # Unnest extra_attrs for copy or we end up with extra_attrs["extra_attrs"]
-        extra_attrs = attrs.pop("extra_attrs", {})
+        # Copy so that promoting attributes doesn't remove them from `self`.
+        extra_attrs = dict(attrs.pop("extra_attrs", {}))
         union_attrs = {
             "default": extra_attrs.pop("default", None),
             "doc": doc,
@@ -64,7 +65,7 @@ class RecapType:
         # type_copy.types` because equality checks extra_attrs, which can vary.
         # Instead, just look for any NullType instance.
         if not list(filter(lambda t: isinstance(t, NullType), type_copy.types)):
-            type_copy.types.insert(0, NullType())
+            type_copy.types = [NullType(), *type_copy.types]
         return type_copy
 
     def is_nullable(self) -> bool:
-- 
2.43.0


From 4b10dcff2401a40a9971c4426a8eb0e206d2b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:45 +0000
Subject: [PATCH 02/75] fix: to_dict no longer fails on aliases nested below
 un-aliased types

---
 recap/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/types.py b/recap/types.py
index 8d4d85d..1ad00dc 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -743,7 +743,9 @@ def alias_dict(
         return type_dict
 
     registry = registry or RecapTypeRegistry()
-    recap_type = from_dict(type_dict, registry)
+    # Parse with a fresh registry. Aliases that are defined inside type_dict must
+    # not be registered again when nested type_dicts are parsed below.
+    recap_type = from_dict(type_dict, RecapTypeRegistry())
 
     # If there's a matching alias, replace the type_dict with it
     for alias, alias_type in registry._type_registry.items():
-- 
2.43.0


From b8398be0ecec57b0f45657b4a3a47899c9060788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:15 +0000
Subject: [PATCH 03/75] fix: list-as-type and optional shorthands mean the same
 as their longhand

---
 recap/types.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 1ad00dc..ac720b1 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -389,35 +389,38 @@ def from_dict(
         type_dict.get("type") is not None
     ), "Type dictionary must have a 'type' field."
 
+    # A list as the type is shorthand for a union
+    if isinstance(type_dict["type"], list):
+        type_dict["types"] = type_dict["type"]
+        type_dict["type"] = "union"
+
     # Support optional=True syntactic sugar
     if type_dict.pop("optional", False):
-        # Special handling for reserved words in struct fields
+        # Special handling for attributes that describe the field rather than
+        # its nested type. These belong to the union (see make_nullable).
         name = type_dict.pop("name", None)
+        doc = type_dict.pop("doc", None)
         default = type_dict.pop("default", None)
         if type_dict["type"] != "union":
             type_dict = {
                 "type": "union",
                 "types": ["null", type_dict],
             }
-        if "null" not in type_dict["types"]:
+        if not any(
+            t == "null" or (isinstance(t, dict) and t.get("type") == "null")
+            for t in type_dict["types"]
+        ):
             type_dict["types"] = ["null"] + type_dict["types"]
         if name is not None:
             type_dict["name"] = name
+        if doc is not None:
+            type_dict["doc"] = doc
         type_dict["default"] = default
 
     registry = registry or RecapTypeRegistry()
     type_name = type_dict.pop("type")
 
-    if isinstance(type_name, list):
-        # If type is a list, handle as a union
-        union_types = []
-        for t in type_name:
-            if isinstance(t, dict):
-                union_types.append(from_dict(t, registry))
-            elif isinstance(t, str):
-                union_types.append(from_dict({"type": t}, registry))
-        recap_type = UnionType(union_types, **type_dict)
-    elif isinstance(type_name, str):
+    if isinstance(type_name, str):
         match type_name:
             case "null":
                 recap_type = NullType(**type_dict)
-- 
2.43.0


From 8661e3261987ac488f5a188bb45f9b7b3eb935ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:03 +0000
Subject: [PATCH 04/75] fix: compact type descriptions keep all attributes of
 optional unions

---
 recap/types.py | 73 +++++++++++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 31 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index ac720b1..bc3d37c 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -406,10 +406,7 @@ def from_dict(
                 "type": "union",
                 "types": ["null", type_dict],
             }
-        if not any(
-            t == "null" or (isinstance(t, dict) and t.get("type") == "null")
-            for t in type_dict["types"]
-        ):
+        if not any(_is_null_dict(t) for t in type_dict["types"]):
             type_dict["types"] = ["null"] + type_dict["types"]
         if name is not None:
             type_dict["name"] = name
@@ -667,10 +664,16 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
     # Support "optional" sytnactic sugar.
     # Shorten {"type": "union", "types": ["null", ...], "default": ...}
     # to {"type": "union", "types": [...], "optional": True}
+    # Only do syntactic sugar if from_dict would restore the same union: null is
+    # the first (and only null) type, and there are no other (non-standard) extra
+    # attributes.
     if (
         type_dict["type"] == "union"
-        and "null" in type_dict["types"]
+        and type_dict["types"][:1] == ["null"]
         and "default" in type_dict
+        and type_dict.keys()
+        <= {"type", "types", "alias", "logical", "default", "doc", "name"}
+        and not any(_is_null_dict(t) for t in type_dict["types"][1:])
     ):
         # Pop off standard attributes that should be kept whether the type is kept
         # as a union or converted to a single nested type.
@@ -680,33 +683,35 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
         doc = type_dict.pop("doc", None)
         name = type_dict.pop("name", None)
 
-        # Only do syntactic sugar if the union is a union with no other
-        # (non-standard) extra attributes.
-        if len(type_dict) == 2:
-            type_dict["types"].remove("null")
-
-            # If the type was ["null", <some type>], use <some type> instead
-            # of a union of a single type. Don't do this if union is an alias or
-            # logical type, since we promoting the nested type would change what
-            # the alias/logical type means.
-            if len(type_dict["types"]) == 1 and alias is None and logical is None:
-                nested_type = type_dict["types"][0]
-                if isinstance(nested_type, str):
-                    nested_type = {"type": nested_type}
+        type_dict["types"].remove("null")
+
+        # If the type was ["null", <some type>], use <some type> instead
+        # of a union of a single type. Don't do this if union is an alias or
+        # logical type, since we promoting the nested type would change what
+        # the alias/logical type means. Nor if the nested type is a union or has
+        # attributes that from_dict would promote to the union.
+        if len(type_dict["types"]) == 1 and alias is None and logical is None:
+            nested_type = type_dict["types"][0]
+            if isinstance(nested_type, str):
+                nested_type = {"type": nested_type}
+            if (
+                isinstance(nested_type, dict)
+                and nested_type["type"] != "union"
+                and not nested_type.keys() & {"default", "doc", "name", "optional"}
+            ):
                 type_dict = nested_type
-            assert isinstance(type_dict, dict), "Expected type_dict to be a dict."
-            attributes = {
-                "alias": alias,
-                "default": default,
-                "doc": doc,
-                "logical": logical,
-                "name": name,
-                "optional": True,
-            }
-            # Filter None values
-            attributes = {k: v for k, v in attributes.items() if v is not None}
-            # Add attributes to the type_dict.
-            type_dict |= attributes
+        attributes = {
+            "alias": alias,
+            "default": default,
+            "doc": doc,
+            "logical": logical,
+            "name": name,
+            "optional": True,
+        }
+        # Filter None values
+        attributes = {k: v for k, v in attributes.items() if v is not None}
+        # Add attributes to the type_dict.
+        type_dict |= attributes
 
     # Shorten simple types {"type": "type"} to "type"
     if len(type_dict) == 1:
@@ -719,6 +724,12 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
     return type_dict
 
 
+def _is_null_dict(type_dict: dict | list | str) -> bool:
+    if isinstance(type_dict, dict):
+        type_dict = type_dict.get("type", "")
+    return type_dict == "null"
+
+
 def alias_dict(
     type_dict: dict[str, Any],
     registry: RecapTypeRegistry | None = None,
-- 
2.43.0


From 053bf03e7bbb254c7efeedd22020f30d71129460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:07 +0000
Subject: [PATCH 05/75] fix: resolving a reference keeps the reference's own
 doc and logical type

---
 recap/types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recap/types.py b/recap/types.py
index bc3d37c..411e117 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -325,6 +325,11 @@ class ProxyType(RecapType):
                     setattr(self._resolved, attr, value)
                 else:
                     self._resolved.extra_attrs[attr] = value
+            # Standard attributes aren't in extra_attrs, but they're overrides, too
+            if self.doc is not None:
+                self._resolved.doc = self.doc
+            if self.logical is not None:
+                self._resolved.logical = self.logical
         return self._resolved
 
     def __eq__(self, other):
-- 
2.43.0


From d3befe52f3bf0c69f0024520e13766ac88f295f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:15 +0000
Subject: [PATCH 06/75] fix: registry storage lists names and versions on all
 file systems

---
 recap/storage/registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 2904d8d..94b1ee6 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -16,7 +16,7 @@ class RegistryStorage:
         return sorted(
             [
                 unquote_plus(file_path[len(self.root_path) + 1 :])
-                for file_path in self.fs.ls(self.root_path)
+                for file_path in self.fs.ls(self.root_path, detail=False)
             ]
         )
 
@@ -70,7 +70,7 @@ class RegistryStorage:
             return sorted(
                 [
                     int(Path(file_path).stem)
-                    for file_path in self.fs.ls(path_without_version)
+                    for file_path in self.fs.ls(path_without_version, detail=False)
                 ]
             )
         except FileNotFoundError:
-- 
2.43.0


From 50440d5fd0d7816ebfe0bd566b81d2a22c2cd479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:15 +0000
Subject: [PATCH 07/75] fix: registry names . and .. no longer escape their
 directory

---
 recap/storage/registry.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 94b1ee6..6beff7e 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -7,6 +7,14 @@ import fsspec
 from recap.types import RecapType, from_dict, to_dict
 
 
+def quote_name(name: str) -> str:
+    """Quote a type's name so it can be used as a single path segment."""
+
+    quoted_name = quote_plus(name)
+    # Dots aren't quoted, but these two segments refer to other directories.
+    return quoted_name.replace(".", "%2E") if quoted_name in (".", "..") else quoted_name
+
+
 class RegistryStorage:
     def __init__(self, storage_url: str, **storage_url_args):
         self.fs, self.root_path = fsspec.core.url_to_fs(storage_url, **storage_url_args)
@@ -25,7 +33,7 @@ class RegistryStorage:
         name: str,
         version: int | None = None,
     ) -> tuple[RecapType, int] | None:
-        quoted_name = quote_plus(name)
+        quoted_name = quote_name(name)
 
         if version is None:
             versions = self.versions(name)
@@ -47,7 +55,7 @@ class RegistryStorage:
         type_: RecapType,
         version: int | None = None,
     ) -> int:
-        quoted_name = quote_plus(name)
+        quoted_name = quote_name(name)
 
         if version is None:
             version = (self.latest(name) or 0) + 1
@@ -63,7 +71,7 @@ class RegistryStorage:
         return version
 
     def versions(self, name: str) -> list[int] | None:
-        quoted_name = quote_plus(name)
+        quoted_name = quote_name(name)
         path_without_version = f"{self.root_path}/{quoted_name}"
 
         try:
-- 
2.43.0


From 564bdffb05a5e82543a4fc47278151425062cb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:15 +0000
Subject: [PATCH 08/75] fix: a failed or interrupted registry put leaves no
 partial version behind

---
 recap/storage/registry.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 6beff7e..8289419 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -1,6 +1,7 @@
 import json
 from pathlib import Path
 from urllib.parse import quote_plus, unquote_plus
+from uuid import uuid4
 
 import fsspec
 
@@ -61,12 +62,20 @@ class RegistryStorage:
             version = (self.latest(name) or 0) + 1
 
         path_without_version = f"{self.root_path}/{quoted_name}"
-        type_dict = to_dict(type_)
+        type_json = json.dumps(to_dict(type_))
 
         self.fs.mkdirs(path_without_version, exist_ok=True)
 
-        with self.fs.open(f"{path_without_version}/{version}.json", "w") as f:
-            json.dump(type_dict, f)
+        # Write to a temporary file and move it into place, so a failure never
+        # leaves a partially written version behind. Prefer mv_file when there is
+        # one, since fsspec's mv copies local files.
+        tmp_path = f"{path_without_version}/.{version}.{uuid4().hex}.tmp"
+        mv = getattr(self.fs, "mv_file", self.fs.mv)
+
+        with self.fs.open(tmp_path, "w") as f:
+            f.write(type_json)
+
+        mv(tmp_path, f"{path_without_version}/{version}.json")
 
         return version
 
@@ -79,6 +88,7 @@ class RegistryStorage:
                 [
                     int(Path(file_path).stem)
                     for file_path in self.fs.ls(path_without_version, detail=False)
+                    if Path(file_path).suffix == ".json"
                 ]
             )
         except FileNotFoundError:
-- 
2.43.0


From 3697b8c42ad3118448bc1c9cd999c3637beee2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:15 +0000
Subject: [PATCH 09/75] fix: concurrent registry PUTs can no longer overwrite a
 version

---
 recap/server/registry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index 365bb63..5e97daa 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -76,14 +76,16 @@ async def put(
     request: Request,
     storage: RegistryStorage = Depends(get_storage),
 ):
+    # Don't await between checking and writing the version. Otherwise, another
+    # request could write the version after it's been checked.
+    type_ = await _request_to_type(request)
+
     if storage.get(name, version):
         raise HTTPException(
             status_code=409,
             detail=f"Type {name} version {version} already exists",
         )
 
-    type_ = await _request_to_type(request)
-
     return storage.put(name, type_, version)
 
 
-- 
2.43.0


From fca4d010b5658082ff60b6f1721726c03a62218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:57 +0000
Subject: [PATCH 10/75] fix: the registry refuses bodies that are not type
 descriptions or cannot be served back

---
 recap/server/registry.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index 5e97daa..f39d818 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -4,7 +4,7 @@ from fastapi import APIRouter, Depends, HTTPException, Request
 
 from recap.settings import RecapSettings
 from recap.storage.registry import RegistryStorage
-from recap.types import RecapType, from_dict, to_dict
+from recap.types import ProxyType, RecapType, from_dict, to_dict
 
 router = APIRouter(prefix="/registry")
 settings = RecapSettings()
@@ -99,17 +99,28 @@ async def _request_to_type(request: Request) -> RecapType:
         )
 
     type_bytes = await request.body()
-    type_str = type_bytes.decode("utf-8")
 
     try:
-        type_json = json.loads(type_str)
-    except json.JSONDecodeError:
-        # Assume payload is string alias if we can't decode as JSON.
-        # If it's not, from_dict will fail below.
-        type_json = type_str
+        type_str = type_bytes.decode("utf-8")
 
-    try:
-        return from_dict(type_json)
+        try:
+            type_json = json.loads(type_str)
+        except json.JSONDecodeError:
+            # Assume payload is string alias if we can't decode as JSON.
+            # If it's not, resolving the alias will fail below.
+            type_json = type_str
+
+        # JSON responses can't contain NaN, infinity, or lone surrogates. Don't
+        # accept a type that can't be returned.
+        json.dumps(type_json, allow_nan=False, ensure_ascii=False).encode("utf-8")
+
+        type_ = from_dict(type_json)
+
+        # A lone reference can only be to a built-in alias.
+        if isinstance(type_, ProxyType):
+            type_.resolve()
+
+        return type_
     except Exception as e:
         raise HTTPException(
             status_code=400,
-- 
2.43.0


From 139640a5dfa4e21fe8b63d8e0a4cbbd478604708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:55 +0000
Subject: [PATCH 11/75] fix: configured URLs match whole path segments and
 listed roots are valid URLs

---
 recap/settings.py | 88 ++++++++++++++++++++++++-----------------------
 1 file changed, 45 insertions(+), 43 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 0ec5c5c..f5e1769 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -1,7 +1,8 @@
 import os
 from pathlib import Path
+from posixpath import normpath
 from typing import Any
-from urllib.parse import parse_qs, urlencode, urlsplit, urlunsplit
+from urllib.parse import parse_qs, urlencode, urlsplit
 
 from dotenv import load_dotenv
 from pydantic import AnyUrl, Field
@@ -45,31 +46,15 @@ class RecapSettings(BaseSettings):
 
         for url in self.urls:
             split_url = urlsplit(str(url))
-            netloc = split_url.netloc
-
-            if split_url.username or split_url.password:
-                if split_url.hostname is not None:
-                    netloc = split_url.hostname
-
-                if split_url.port is not None:
-                    netloc += f":{split_url.port}"
-
-            sanitized_url = urlunsplit(
-                (
-                    split_url.scheme,
-                    netloc,
-                    split_url.path.rstrip("/"),
-                    split_url.query,
-                    split_url.fragment,
-                )
+            sanitized_url = _urlunsplit(
+                split_url.scheme,
+                # Drop user and password, but keep host and port as they are.
+                split_url.netloc.rpartition("@")[2],
+                split_url.path.rstrip("/"),
+                split_url.query,
+                split_url.fragment,
             )
 
-            # urlunsplit does not double slashes if netloc is empty. But most
-            # URLs with empty netloc should have a double slash (e.g.
-            # bigquery:// or sqlite:///some/file.db).
-            if not netloc:
-                sanitized_url = sanitized_url.replace(":", "://", 1)
-
             safe_urls_list.append(sanitized_url)
 
         return safe_urls_list
@@ -80,7 +65,7 @@ class RecapSettings(BaseSettings):
         into the input URL and return it. Merging occurs if:
 
         - The input URL's scheme, hostname, and port match a URL in settings.
-        - The input URL's path starts with the settings URL's path.
+        - The input URL's path is the settings URL's path or is below it.
 
         :param url: URL to merge
         :param strict: If True, raise an error if the URL is not configured in settings.
@@ -88,7 +73,7 @@ class RecapSettings(BaseSettings):
         """
 
         url_split = urlsplit(url)
-        url_path = Path(url_split.path or "/").as_posix()
+        url_path = normpath(url_split.path or "/")
 
         for unsafe_url in self.urls:
             unsafe_url_split = urlsplit(unsafe_url.unicode_string())
@@ -97,7 +82,7 @@ class RecapSettings(BaseSettings):
                 unsafe_url_split.scheme == url_split.scheme
                 and unsafe_url_split.hostname == url_split.hostname
                 and unsafe_url_split.port == url_split.port
-                and url_path.startswith(Path(unsafe_url_split.path).as_posix())
+                and _is_under(url_path, normpath(unsafe_url_split.path or "/"))
             ):
                 netloc = unsafe_url_split.netloc
 
@@ -109,25 +94,42 @@ class RecapSettings(BaseSettings):
                 merged_qs = unsafe_qs | url_qs
                 query = urlencode(merged_qs, doseq=True)
 
-                merged_url = urlunsplit(
-                    (
-                        url_split.scheme,
-                        netloc,
-                        url_path.rstrip("/"),
-                        query,
-                        url_split.fragment or unsafe_url_split.fragment,
-                    )
+                return _urlunsplit(
+                    url_split.scheme,
+                    netloc,
+                    url_path.rstrip("/"),
+                    query,
+                    url_split.fragment or unsafe_url_split.fragment,
                 )
 
-                # urlunsplit does not double slashes if netloc is empty. But most
-                # URLs with empty netloc should have a double slash (e.g.
-                # bigquery:// or sqlite:///some/file.db).
-                if not netloc:
-                    merged_url = merged_url.replace(":", "://", 1)
-
-                return merged_url
-
         if strict:
             raise ValueError(f"URL must be configured in Recap settings: {url}")
 
         return url
+
+
+def _is_under(path: str, root: str) -> bool:
+    """
+    Return True if a path is the same as, or is below, a root path. Whole path
+    segments are compared, so `/db2` isn't under `/db`.
+    """
+
+    return path == root or path.startswith(root.rstrip("/") + "/")
+
+
+def _urlunsplit(scheme: str, netloc: str, path: str, query: str, fragment: str) -> str:
+    """
+    Similar to `urllib.parse.urlunsplit`, but always includes a double slash.
+    URLs with an empty netloc should have it, too (e.g. bigquery:// or
+    sqlite:///some/file.db).
+    """
+
+    url = f"{scheme}://{netloc}{path}"
+
+    if query:
+        url += f"?{query}"
+
+    if fragment:
+        url += f"#{fragment}"
+
+    return url
-- 
2.43.0


From d6d649877f44443b3eb3b059e14c1b2ec0edbc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:40 +0000
Subject: [PATCH 12/75] fix: query parameters cannot redirect a URL and
 percent-encoded credentials are decoded

---
 recap/clients/__init__.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index fe91054..ae1e00d 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from contextlib import contextmanager
 from importlib import import_module
 from typing import Any, Generator, Protocol
-from urllib.parse import parse_qs, urlparse
+from urllib.parse import parse_qs, unquote, urlparse
 
 from recap.settings import RecapSettings
 from recap.types import StructType
@@ -111,9 +111,15 @@ def _url_to_dict(url: str) -> dict[str, str]:
         parsed_dict["driver"] = driver
         url = url.replace(f"{dialect}+{driver}://", f"{dialect}://")
 
+    # User and password are percent-encoded in URLs
     if username := parsed_url.username:
+        username = unquote(username)
+        parsed_dict["username"] = username
         parsed_dict["user"] = username
 
+    if password := parsed_url.password:
+        parsed_dict["password"] = unquote(password)
+
     if hostname := parsed_url.hostname:
         parsed_dict["host"] = hostname
 
@@ -124,7 +130,14 @@ def _url_to_dict(url: str) -> dict[str, str]:
     parsed_qs = {
         key: value[0] if len(value) == 1 else value for key, value in parsed_qs.items()
     }
-    parsed_dict |= parsed_qs
+
+    # Don't let query parameters change where the URL points to. They can only
+    # set what the rest of the URL doesn't.
+    parsed_dict |= {
+        key: value
+        for key, value in parsed_qs.items()
+        if key == "query" or parsed_dict.get(key) is None
+    }
 
     return parsed_dict
 
-- 
2.43.0


From edf37f6371dc696d8165f7dcf6df4607e97985ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:40 +0000
Subject: [PATCH 13/75] fix: Confluent Schema Registry and Hive URLs keep their
 driver and options

---
 recap/clients/__init__.py           | 4 ++++
 recap/clients/confluent_registry.py | 3 +++
 recap/clients/hive_metastore.py     | 8 ++++++--
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index ae1e00d..f6f47d5 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -65,6 +65,10 @@ def parse_url(method: str, url: str, strict: bool = True) -> tuple[str, list[Any
         module = import_module(module_path)
         client_class = getattr(module, class_name)
         connection_url, method_args = client_class.parse(method, **url_args)
+        if "+" in scheme:
+            # Clients parse URLs without a driver (http:// for http+csr://), but
+            # settings and create_client need the driver.
+            connection_url = f"{scheme}://{connection_url.partition('://')[2]}"
         return (settings.unsafe_url(connection_url, strict), method_args)
     else:
         raise ValueError(f"No clients available for scheme: {scheme}")
diff --git a/recap/clients/confluent_registry.py b/recap/clients/confluent_registry.py
index 54c6563..a4aa882 100644
--- a/recap/clients/confluent_registry.py
+++ b/recap/clients/confluent_registry.py
@@ -26,6 +26,9 @@ class ConfluentRegistryClient:
         # Filter out kwargs that are not allowed by the SchemaRegistryClient
         url_args = {k: v for k, v in url_args.items() if k in ALLOWED_ATTRS}
 
+        # The SchemaRegistryClient appends request paths to the URL
+        url_args["url"] = url_args["url"].partition("#")[0].partition("?")[0]
+
         with SchemaRegistryClient(url_args) as registry:
             yield ConfluentRegistryClient(registry)
 
diff --git a/recap/clients/hive_metastore.py b/recap/clients/hive_metastore.py
index 4ae4d62..4578fb0 100644
--- a/recap/clients/hive_metastore.py
+++ b/recap/clients/hive_metastore.py
@@ -25,8 +25,12 @@ class HiveMetastoreClient:
 
     @staticmethod
     @contextmanager
-    def create(host: str, port: int, **_) -> Generator[HiveMetastoreClient, None, None]:
-        with HMS.create(host, port) as client:
+    def create(
+        host: str,
+        port: int | None = None,
+        **_,
+    ) -> Generator[HiveMetastoreClient, None, None]:
+        with HMS.create(host, port or 9083) as client:
             yield HiveMetastoreClient(client)
 
     @staticmethod
-- 
2.43.0


From 880c3b5cefaedfefaf812a038d04d25b64ee91b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:40 +0000
Subject: [PATCH 14/75] fix: listing BigQuery URLs no longer passes too many
 arguments

---
 recap/clients/bigquery.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/recap/clients/bigquery.py b/recap/clients/bigquery.py
index 5434ada..b70a526 100644
--- a/recap/clients/bigquery.py
+++ b/recap/clients/bigquery.py
@@ -29,13 +29,18 @@ class BigQueryClient:
             case _:
                 raise ValueError("Invalid method")
 
-    def ls(self, project: str | None = None, dataset: str | None = None) -> list[str]:
-        match (project, dataset):
-            case (None, None):
+    def ls(
+        self,
+        project: str | None = None,
+        dataset: str | None = None,
+        table: str | None = None,
+    ) -> list[str]:
+        match (project, dataset, table):
+            case (None, None, None):
                 return self.ls_projects()
-            case (str(project), None):
+            case (str(project), None, None):
                 return self.ls_datasets(project)
-            case (str(project), str(dataset)):
+            case (str(project), str(dataset), None):
                 return self.ls_tables(project, dataset)
             case _:
                 raise ValueError("Invalid arguments")
-- 
2.43.0


From ef9026d8f447aa988fc39c3fe46cbea8fbf6660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:40 +0000
Subject: [PATCH 15/75] fix: MySQL and Snowflake URLs without a port or with
 only a database connect

---
 recap/clients/mysql.py     | 6 +++++-
 recap/clients/snowflake.py | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/recap/clients/mysql.py b/recap/clients/mysql.py
index 004e40f..198c8d8 100644
--- a/recap/clients/mysql.py
+++ b/recap/clients/mysql.py
@@ -27,7 +27,11 @@ class MysqlClient(DbapiClient):
             url_args["database"] = paths[0]
 
         # Only include kwargs that are valid for the MySQL connector
-        kwargs = {k: v for k, v in url_args.items() if k in DEFAULT_CONFIGURATION}
+        kwargs = {
+            k: v
+            for k, v in url_args.items()
+            if k in DEFAULT_CONFIGURATION and v is not None
+        }
 
         with mysql.connector.connect(**kwargs) as client:
             yield MysqlClient(client)  # type: ignore
diff --git a/recap/clients/snowflake.py b/recap/clients/snowflake.py
index b604992..7980e3a 100644
--- a/recap/clients/snowflake.py
+++ b/recap/clients/snowflake.py
@@ -20,13 +20,16 @@ class SnowflakeClient(DbapiClient):
         snowflake_args["account"] = url_args.pop("host")
 
         match url_args.get("paths"):
-            case str(database), None:
+            case [str(database)]:
                 snowflake_args["database"] = database
             case str(database), str(schema):
                 snowflake_args["database"] = database
                 snowflake_args["schema"] = schema
 
-        with snowflake.connector.connect(**(snowflake_args | url_args)) as client:
+        # Let the connector use its defaults for what's not in the URL
+        url_args = {k: v for k, v in url_args.items() if v is not None}
+
+        with snowflake.connector.connect(**(url_args | snowflake_args)) as client:
             yield SnowflakeClient(client)  # type: ignore
 
     def ls_catalogs(self) -> list[str]:
-- 
2.43.0


From fedd6c76d8af25d9d53b539a49b10a7ce1059192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:40 +0000
Subject: [PATCH 16/75] fix: SQLite schema URLs keep absolute database paths

---
 recap/clients/sqlite.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 0cf65a2..26de994 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -52,8 +52,9 @@ class SQLiteClient:
                     [
                         url_args.get("dialect") or url_args.get("scheme"),
                         url_args.get("netloc"),
-                        # Include / prefix for paths
-                        "/".join(url_args.get("paths", [])),
+                        # Keep the path as it is, since absolute paths start
+                        # with an extra slash (sqlite:////some/file.db).
+                        url_args["path"].rpartition("/")[0].removeprefix("/"),
                         url_args.get("params"),
                         url_args.get("query"),
                         url_args.get("fragment"),
-- 
2.43.0


From 4b4e16974b4c326c54e6645bee0e6f1aef5d54f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:40 +0000
Subject: [PATCH 17/75] fix: SQLite connection options are no longer part of
 the database's file name

---
 recap/clients/sqlite.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 26de994..209fc3d 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -19,6 +19,12 @@ SQLITE3_CONNECT_ARGS = {
     "uri",
 }
 
+SQLITE3_NUMERIC_ARGS = {
+    "timeout": float,
+    "detect_types": int,
+    "cached_statements": int,
+}
+
 
 class SQLiteClient:
     def __init__(self, connection: Connection) -> None:
@@ -31,7 +37,18 @@ class SQLiteClient:
         import sqlite3
 
         # Strip sqlite:/// URL prefix
-        url_args["database"] = url[len("sqlite:///") :]
+        database = url[len("sqlite:///") :].partition("#")[0]
+
+        # Query parameters are part of the database only if it's a URI
+        if not url_args.get("uri"):
+            database = database.partition("?")[0]
+
+        url_args["database"] = database
+
+        # Query parameters are strings, but SQLite expects these to be numbers
+        for key, number in SQLITE3_NUMERIC_ARGS.items():
+            if key in url_args:
+                url_args[key] = number(url_args[key])
 
         # Only include kwargs that are valid for PsycoPG2 parse_dsn()
         url_args = {k: v for k, v in url_args.items() if k in SQLITE3_CONNECT_ARGS}
-- 
2.43.0


From b2f280363063ed11ed6ecd4069884ba711a42263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:12 +0000
Subject: [PATCH 18/75] fix: relative file paths no longer lose their first
 character

---
 recap/clients/fs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recap/clients/fs.py b/recap/clients/fs.py
index 1a1496b..d46ef0f 100644
--- a/recap/clients/fs.py
+++ b/recap/clients/fs.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from contextlib import contextmanager
+from os.path import abspath
 from pathlib import Path
 from typing import Any, Generator
 
@@ -26,8 +27,11 @@ class FilesystemClient:
 
         if split_url.netloc:
             path += split_url.netloc + "/"
-        if split_url.path:
+        if split_url.scheme and split_url.path:
             path += split_url.path[1:] + "/"
+        elif split_url.path:
+            # Paths without a scheme can be relative
+            path = abspath(split_url.path) + "/"
 
         return (root_url, [path])
 
-- 
2.43.0


From 587d8afef16cf94f1d89a257d60c7fed20a78449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:02 +0000
Subject: [PATCH 19/75] fix: the CLI no longer wraps long lines of Protobuf
 schemas

---
 recap/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/cli.py b/recap/cli.py
index 6de5dba..80ae919 100644
--- a/recap/cli.py
+++ b/recap/cli.py
@@ -1,7 +1,7 @@
 from typing import Annotated, Optional
 
 import typer
-from rich import print, print_json
+from rich import print_json
 
 from recap import commands
 
@@ -35,7 +35,8 @@ def schema(
         case dict():
             print_json(data=struct_obj)
         case str():
-            print(struct_obj)
+            # Rich would wrap long lines, which breaks names in half
+            typer.echo(struct_obj)
         case _:
             raise ValueError(f"Unexpected schema type: {type(struct_obj)}")
 
-- 
2.43.0


From 412c7587d9f8dbce9263680be1029f581402783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:02 +0000
Subject: [PATCH 20/75] fix: gateway schemas keep properties whose names start
 with _sa

---
 recap/server/gateway.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recap/server/gateway.py b/recap/server/gateway.py
index f1c89f1..81acce0 100644
--- a/recap/server/gateway.py
+++ b/recap/server/gateway.py
@@ -1,4 +1,5 @@
 from fastapi import APIRouter, HTTPException, Request
+from fastapi.responses import JSONResponse
 
 from recap import commands
 
@@ -25,7 +26,9 @@ async def schema(url: str, request: Request):
 
     content_type = request.headers.get("content-type") or "application/x-recap+json"
     if format := commands.FORMAT_MAP.get(content_type):
-        return commands.schema(url, format)
+        # FastAPI's default encoder drops keys that start with `_sa`, such as
+        # the properties of a JSON schema.
+        return JSONResponse(commands.schema(url, format))
     else:
         raise HTTPException(
             status_code=415,
-- 
2.43.0


From 135c0b6095b9f34af5548d1bf7679ba668f2bd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:00 +0000
Subject: [PATCH 21/75] fix: references can override the length of strings and
 bytes

---
 recap/types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recap/types.py b/recap/types.py
index 411e117..0b63c45 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -321,6 +321,9 @@ class ProxyType(RecapType):
             self._resolved = copy.deepcopy(self.registry.from_alias(self.alias))
             # Apply attribute overrides
             for attr, value in self.extra_attrs.items():
+                # `bytes` is called `bytes_` in string and bytes types
+                if attr == "bytes" and hasattr(self._resolved, "bytes_"):
+                    attr = "bytes_"
                 if hasattr(self._resolved, attr):
                     setattr(self._resolved, attr, value)
                 else:
-- 
2.43.0


From 53e6763c59c81c8e5931b7233c95a73c78fa3536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:05 +0000
Subject: [PATCH 22/75] fix: references inside aliased types can be resolved

---
 recap/types.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/recap/types.py b/recap/types.py
index 0b63c45..c4234bb 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -338,6 +338,16 @@ class ProxyType(RecapType):
     def __eq__(self, other):
         return super().__eq__(other) and self.alias == other.alias
 
+    def __deepcopy__(self, memo):
+        # Types are copied when they're registered and resolved. References in the
+        # copies must keep using this registry, since a copy of it wouldn't have
+        # aliases that are registered later (or the one that's being registered).
+        memo[id(self.registry)] = self.registry
+        proxy_copy = ProxyType(self.alias, self.registry)
+        memo[id(self)] = proxy_copy
+        proxy_copy.__dict__.update(copy.deepcopy(vars(self), memo))
+        return proxy_copy
+
 
 class RecapTypeRegistry:
     """Class that handles Recap type registration and resolution."""
-- 
2.43.0


From e1da2e6f6ee15d26495bb6667d3eaaa39cea1463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:38 +0000
Subject: [PATCH 23/75] fix: PostgreSQL enum symbols keep the enum's order

---
 recap/clients/postgresql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/clients/postgresql.py b/recap/clients/postgresql.py
index 246d043..3a960bb 100644
--- a/recap/clients/postgresql.py
+++ b/recap/clients/postgresql.py
@@ -111,7 +111,7 @@ class PostgresqlClient(DbapiClient):
                 LEFT JOIN (
                     SELECT
                         enumtypid,
-                        array_agg(enumlabel) AS enum_values
+                        array_agg(enumlabel ORDER BY enumsortorder) AS enum_values
                     FROM pg_catalog.pg_enum
                     GROUP BY enumtypid
                 ) enums ON enums.enumtypid = pg_catalog.pg_type.oid
-- 
2.43.0


From f4e89ac88fb53265e8cf03ea71bf91dcd8bf3bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:38 +0000
Subject: [PATCH 24/75] fix: PostgreSQL tables with array columns can be read
 repeatedly and whatever the columns' names

---
 recap/converters/postgresql.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index d5c17cf..d2f3d13 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -1,4 +1,5 @@
 from math import ceil
+from re import sub
 from typing import Any
 
 from recap.converters.dbapi import DbapiConverter
@@ -14,6 +15,7 @@ from recap.types import (
     RecapType,
     RecapTypeRegistry,
     StringType,
+    StructType,
     UnionType,
 )
 
@@ -38,6 +40,11 @@ class PostgresqlConverter(DbapiConverter):
         self.namespace = namespace
         self.registry = RecapTypeRegistry()
 
+    def to_recap(self, columns: list[dict[str, Any]]) -> StructType:
+        # Array aliases are only unique within a table
+        self.registry = RecapTypeRegistry()
+        return super().to_recap(columns)
+
     def _parse_type(self, column_props: dict[str, Any]) -> RecapType:
         column_name = column_props["COLUMN_NAME"]
         data_type = column_props["DATA_TYPE"].lower()
@@ -119,8 +126,7 @@ class PostgresqlConverter(DbapiConverter):
             if self.enforce_array_dimensions:
                 base_type = self._create_n_dimension_list(value_type, ndims)
             else:
-                column_name_without_periods = column_name.replace(".", "_")
-                base_type_alias = f"{self.namespace}.{column_name_without_periods}"
+                base_type_alias = self._create_alias(column_name)
                 # Construct a self-referencing list comprised of the array's value
                 # type and a proxy to the list itself. This allows arrays to be an
                 # arbitrary number of dimensions, which is how PostgreSQL treats
@@ -148,6 +154,27 @@ class PostgresqlConverter(DbapiConverter):
 
         return base_type
 
+    def _create_alias(self, column_name: str) -> str:
+        """
+        Create an unused alias for a column. Replaces characters that aren't
+        allowed in aliases.
+        """
+
+        alias_name = sub(r"[^a-zA-Z0-9_]", "_", column_name)
+        if not alias_name or alias_name[0].isdigit():
+            alias_name = f"_{alias_name}"
+        alias = f"{self.namespace}.{alias_name}"
+        while self._has_alias(alias):
+            alias += "_"
+        return alias
+
+    def _has_alias(self, alias: str) -> bool:
+        try:
+            self.registry.from_alias(alias)
+            return True
+        except TypeError:
+            return False
+
     def _create_n_dimension_list(self, base_type: RecapType, ndims: int) -> RecapType:
         """
         Build a list type with `ndims` dimensions containing nullable `base_type` as the innermost value type.
-- 
2.43.0


From 6929077e6bbc7567883cfca6e3cfd6ad0b9b8243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:39 +0000
Subject: [PATCH 25/75] fix: PostgreSQL arrays of bool, smallint, char, varbit,
 numeric, and timestamp can be read

---
 recap/converters/postgresql.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index d2f3d13..6ed01d9 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -57,16 +57,17 @@ class PostgresqlConverter(DbapiConverter):
             base_type = IntType(bits=64, signed=True)
         elif data_type in ["integer", "int", "int4", "serial", "serial4"]:
             base_type = IntType(bits=32, signed=True)
-        elif data_type in ["smallint", "smallserial", "serial2"]:
+        elif data_type in ["smallint", "int2", "smallserial", "serial2"]:
             base_type = IntType(bits=16, signed=True)
         elif data_type in ["double precision", "float8"]:
             base_type = FloatType(bits=64)
         elif data_type in ["real", "float4"]:
             base_type = FloatType(bits=32)
-        elif data_type == "boolean":
+        elif data_type in ["boolean", "bool"]:
             base_type = BoolType()
         elif (
-            data_type in ["text", "json", "jsonb"]
+            # Array values use bpchar for char(n), but without the length
+            data_type in ["text", "json", "jsonb", "bpchar"]
             or data_type.startswith("character varying")
             or data_type.startswith("varchar")
         ):
@@ -79,7 +80,7 @@ class PostgresqlConverter(DbapiConverter):
                 bytes_=36,
                 variable=False,
             )
-        elif data_type == "bytea" or data_type.startswith("bit varying"):
+        elif data_type in ["bytea", "varbit"] or data_type.startswith("bit varying"):
             base_type = BytesType(bytes_=MAX_FIELD_SIZE, variable=True)
         elif data_type.startswith("bit"):
             byte_length = ceil(max_length / 8)
@@ -119,6 +120,11 @@ class PostgresqlConverter(DbapiConverter):
                     "CHARACTER_OCTET_LENGTH": MAX_FIELD_SIZE,
                     # * 8 because bit columns use bits not bytes.
                     "CHARACTER_MAXIMUM_LENGTH": MAX_FIELD_SIZE * 8,
+                    # Numerics are unconstrained and timestamps use PostgreSQL's
+                    # default precision for the same reason.
+                    "NUMERIC_PRECISION": None,
+                    "NUMERIC_SCALE": None,
+                    "DATETIME_PRECISION": 6,
                     "UDT_NAME": None,
                     "ATTNDIMS": 0,
                 }
-- 
2.43.0


From d4036b398018a98666a88a3ee4a4af2a9dcccbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:44 +0000
Subject: [PATCH 26/75] fix: unsigned MySQL integers are no longer read as
 signed

---
 recap/converters/mysql.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/recap/converters/mysql.py b/recap/converters/mysql.py
index 4947ff0..967c258 100644
--- a/recap/converters/mysql.py
+++ b/recap/converters/mysql.py
@@ -10,22 +10,24 @@ class MysqlConverter(DbapiConverter):
         octet_length = column_props["CHARACTER_OCTET_LENGTH"]
         precision = column_props["NUMERIC_PRECISION"]
         scale = column_props["NUMERIC_SCALE"]
+        # DATA_TYPE is just the type's name. COLUMN_TYPE has its attributes, too.
+        signed = "unsigned" not in (column_props.get("COLUMN_TYPE") or "").lower()
 
         if data_type == "bigint":
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=64, signed=True)
+            base_type = IntType(bits=64, signed=signed)
         elif data_type in ["int", "integer"]:
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=32, signed=True)
+            base_type = IntType(bits=32, signed=signed)
         elif data_type == "mediumint":
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=24, signed=True)
+            base_type = IntType(bits=24, signed=signed)
         elif data_type == "smallint":
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=16, signed=True)
+            base_type = IntType(bits=16, signed=signed)
         elif data_type == "tinyint":
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=8, signed=True)
+            base_type = IntType(bits=8, signed=signed)
         elif data_type == "double" or (data_type == "float" and precision > 23):
             # https://dev.mysql.com/doc/refman/8.0/en/floating-point-types.html
             base_type = FloatType(bits=64)
-- 
2.43.0


From 90647abf67bfd237fbe475b4ac161ac3a68a7d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:44 +0000
Subject: [PATCH 27/75] fix: SQLite tables whose names need quoting can be read

---
 recap/clients/sqlite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 209fc3d..ebd1d2e 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -103,7 +103,8 @@ class SQLiteClient:
         if not self._table_exists(table):
             raise ValueError(f"Table '{table}' does not exist in the database.")
 
-        cursor.execute(f"PRAGMA table_info({table});")
+        quoted_table = table.replace('"', '""')
+        cursor.execute(f'PRAGMA table_info("{quoted_table}");')
         names = [name[0].upper() for name in cursor.description]
         rows = []
 
-- 
2.43.0


From b6f1b8c2447154f2f83f047accd7c444d993e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:44 +0000
Subject: [PATCH 28/75] fix: SQLite types with several words or spaces keep
 their length

---
 recap/clients/sqlite.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index ebd1d2e..5a19a24 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -140,17 +140,16 @@ class SQLiteClient:
         # This regex matches the following patterns:
         # - <type>(<param1>(, <param2>)?)
         # param1 can be a precision or octet length, and param2 can be a scale.
-        numeric_pattern = re_compile(r"(\w+)\((\d+)(?:,\s*(\d+))?\)")
+        numeric_pattern = re_compile(r"\(\s*(\d+)\s*(?:,\s*(\d+)\s*)?\)")
         param_match = numeric_pattern.search(row["TYPE"])
 
         if param_match:
             # Extract matched values
-            base_type, precision, scale = param_match.groups()
-            base_type = base_type.upper()
+            precision, scale = param_match.groups()
             precision = int(precision)
             scale = int(scale) if scale else 0
 
-            match SQLiteConverter.get_affinity(base_type):
+            match SQLiteConverter.get_affinity(row["TYPE"]):
                 case SQLiteAffinity.INTEGER | SQLiteAffinity.REAL | SQLiteAffinity.NUMERIC:
                     information_schema_cols["NUMERIC_PRECISION"] = precision
                     information_schema_cols["NUMERIC_SCALE"] = scale
-- 
2.43.0


From 6d87a6e87fa980dc1864f696af983cdaa5305a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:39 +0000
Subject: [PATCH 29/75] fix: generated SQLite columns are part of the schema

---
 recap/clients/sqlite.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 5a19a24..049a235 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -104,12 +104,16 @@ class SQLiteClient:
             raise ValueError(f"Table '{table}' does not exist in the database.")
 
         quoted_table = table.replace('"', '""')
-        cursor.execute(f'PRAGMA table_info("{quoted_table}");')
+        # table_xinfo is table_info plus hidden and generated columns
+        cursor.execute(f'PRAGMA table_xinfo("{quoted_table}");')
         names = [name[0].upper() for name in cursor.description]
         rows = []
 
         for row_cells in cursor.fetchall():
             row = dict(zip(names, row_cells))
+            # 1 is a virtual table's hidden column, 2 and 3 are generated columns
+            if row["HIDDEN"] == 1:
+                continue
             row = self.add_information_schema(row)
             rows.append(row)
 
-- 
2.43.0


From a1aa16ed838a47e302e95fe18cf391467dd5f317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:39 +0000
Subject: [PATCH 30/75] fix: lists and maps in Hive unions keep their
 attributes

---
 recap/converters/hive_metastore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/hive_metastore.py b/recap/converters/hive_metastore.py
index 996eb7f..ca65a69 100644
--- a/recap/converters/hive_metastore.py
+++ b/recap/converters/hive_metastore.py
@@ -216,13 +216,13 @@ class HiveMetastoreConverter:
         elif isinstance(recap_type, ListType):
             return ListType(
                 values=self._flatten_unions(recap_type.values),
-                extra_attrs=extra_attrs,
+                **extra_attrs,
             )
         elif isinstance(recap_type, MapType):
             return MapType(
                 keys=self._flatten_unions(recap_type.keys),
                 values=self._flatten_unions(recap_type.values),
-                extra_attrs=extra_attrs,
+                **extra_attrs,
             )
         else:
             # No nested union type to flatten
-- 
2.43.0


From a2ff5f1ef07cb6c50cdb66432cc18357c8a02df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:58 +0000
Subject: [PATCH 31/75] fix: Avro arrays and maps of unions can be read

---
 recap/converters/avro.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 3e0d0b1..1553e37 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -251,14 +251,15 @@ class AvroConverter:
 
     def _parse(
         self,
-        avro_schema: dict | str,
+        avro_schema: dict | list | str,
         namespace: str | None,
     ) -> RecapType:
         return_type = None
         alias: str | None = None
         extra_attrs = {}
 
-        if isinstance(avro_schema, str):
+        # Names and unions don't have to be wrapped in a dictionary
+        if isinstance(avro_schema, (str, list)):
             avro_schema = {"type": avro_schema}
         if "doc" in avro_schema:
             extra_attrs["doc"] = avro_schema["doc"]
-- 
2.43.0


From c5dbb32b4bd62096df16fb638c024b78882c88fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:58 +0000
Subject: [PATCH 32/75] fix: Avro records can have fields with the same name

---
 recap/converters/avro.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 1553e37..fd57365 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -272,7 +272,10 @@ class AvroConverter:
             if not namespace:
                 namespace = "_root"
             extra_attrs["name"] = name
-            alias = f"{namespace}.{name}"
+            # Only these define a name. Other types with a name are fields, and
+            # field names are only unique within their record.
+            if avro_schema.get("type") in ["record", "enum", "fixed"]:
+                alias = f"{namespace}.{name}"
         if "default" in avro_schema:
             extra_attrs["default"] = avro_schema["default"]
         if logical_type := avro_schema.get("logicalType"):
-- 
2.43.0


From c7dfb9ec01234f82610b6f7e1c1306eba654d1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:59 +0000
Subject: [PATCH 33/75] fix: docs of Avro fields with complex types are no
 longer lost

---
 recap/converters/avro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index fd57365..fd13ff0 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -351,6 +351,7 @@ class AvroConverter:
 
                 # Don't pass extra_attrs into _parse since we don't want field
                 # "name" to overwrite "alias" for record/enum/fixed.
+                return_type.doc = extra_attrs.pop("doc", return_type.doc)
                 return_type.extra_attrs |= extra_attrs
 
                 # Short circuit so we don't re-register aliases for nested types
-- 
2.43.0


From 63762fa99b1610fb7cdabc316819142ee5c11344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:59 +0000
Subject: [PATCH 34/75] fix: Avro fixed types with a logical type can be
 referenced by name

---
 recap/converters/avro.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index fd13ff0..ffb2f58 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -279,7 +279,11 @@ class AvroConverter:
         if "default" in avro_schema:
             extra_attrs["default"] = avro_schema["default"]
         if logical_type := avro_schema.get("logicalType"):
-            return self._parse_logical(logical_type, avro_schema, extra_attrs)
+            return_type = self._parse_logical(logical_type, avro_schema, extra_attrs)
+            if alias is not None:
+                return_type.alias = alias
+                self.registry.register_alias(return_type)
+            return return_type
 
         match avro_schema:
             case {"type": "null"}:
-- 
2.43.0


From e69915e4506d64ab51c37f5f3fd4874b81e5069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:59 +0000
Subject: [PATCH 35/75] fix: built-in aliases become Avro types wherever
 they're used

---
 recap/converters/avro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index ffb2f58..d748c5f 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -138,7 +138,7 @@ class AvroConverter:
                     if isinstance(alias_type, dict):
                         avro_schema |= alias_type
                     else:
-                        avro_schema["type"] = alias
+                        avro_schema["type"] = alias_type
                 else:
                     # Fully qualified (non-builtin) aliases should just be referenced.
                     avro_schema["type"] = alias
-- 
2.43.0


From ca28a86653a52dd9dc52741d64a3a06967f58f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:59 +0000
Subject: [PATCH 36/75] fix: strings and bytes without a maximum length can be
 converted to Avro

---
 recap/converters/avro.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index d748c5f..2b72920 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -90,8 +90,12 @@ class AvroConverter:
                 avro_schema["type"] = "float"
             case FloatType(bits=int(bits)) if bits <= 64:
                 avro_schema["type"] = "double"
+            case StringType(bytes_=None):
+                avro_schema["type"] = "string"
             case StringType(bytes_=int(bytes_)) if bytes_ <= 9_223_372_036_854_775_807:
                 avro_schema["type"] = "string"
+            case BytesType(bytes_=None, variable=True):
+                avro_schema["type"] = "bytes"
             case BytesType(
                 bytes_=int(bytes_),
                 variable=True,
@@ -158,11 +162,11 @@ class AvroConverter:
     def _from_recap_logical(self, recap_type: RecapType) -> dict[str, Any]:
         match recap_type:
             case BytesType(
-                bytes_=int(bytes_),
+                bytes_=int() | None as bytes_,
                 variable=bool(),
                 logical=str(logical),
             ) if (
-                bytes_ <= 9_223_372_036_854_775_807
+                (bytes_ is None or bytes_ <= 9_223_372_036_854_775_807)
                 and logical == "build.recap.Decimal"
                 and isinstance(recap_type.extra_attrs.get("precision"), int)
             ):
@@ -228,8 +232,9 @@ class AvroConverter:
                     "logicalType": "duration",
                     "size": 12,
                 }
-            case StringType(bytes_=int(bytes_), logical=str(logical)) if (
-                bytes_ <= 9_223_372_036_854_775_807 and logical == "build.recap.UUID"
+            case StringType(bytes_=int() | None as bytes_, logical=str(logical)) if (
+                (bytes_ is None or bytes_ <= 9_223_372_036_854_775_807)
+                and logical == "build.recap.UUID"
             ):
                 return {
                     "type": "string",
-- 
2.43.0


From 203d89514e95f95c503da2a364f0f20b34a5ae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:59 +0000
Subject: [PATCH 37/75] fix: Avro durations are read as fixed-length and can be
 written back

---
 recap/converters/avro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 2b72920..0570539 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -440,6 +440,7 @@ class AvroConverter:
                 return BytesType(
                     logical="build.recap.Interval",
                     bytes_=12,
+                    variable=False,
                     signed=True,
                     unit="millisecond",
                     **extra_attrs,
-- 
2.43.0


From ad06ff86e31ec26e3e80534cf946f54c8252c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:13 +0000
Subject: [PATCH 38/75] fix: JSON schemas can reference schemas that have to be
 retrieved

---
 recap/converters/json_schema.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 24721ae..a229cd9 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -32,9 +32,10 @@ AliasStrategy = Callable[[str], str]
 class JSONSchemaConverter:
     def __init__(self, json_registry: Registry | None = None):
         self.registry = RecapTypeRegistry()
-        self.json_registry = json_registry or Registry(
-            retrieve=JSONSchemaConverter.httpx_retrieve
-        )
+        # An empty registry is falsy
+        if json_registry is None:
+            json_registry = Registry(retrieve=JSONSchemaConverter.httpx_retrieve)
+        self.json_registry = json_registry
 
     def to_recap(
         self,
@@ -128,9 +129,7 @@ class JSONSchemaConverter:
                     # type as a normal Recap type with an alias set.
                     retrieved = self.json_registry.get_or_retrieve(urn)
                     resource = retrieved.value
-                    self.json_registry = (
-                        retrieved.registry @ self.json_registry
-                    )  # pyright: ignore[reportGeneralTypeIssues]
+                    self.json_registry = retrieved.registry
                     return self._parse(resource.contents, alias_strategy)
             case _:
                 raise ValueError(f"Unsupported JSON schema: {json_schema}")
@@ -305,6 +304,11 @@ class JSONSchemaConverter:
         return dotted_type
 
     @staticmethod
-    @retrieval.to_cached_resource()
+    @retrieval.to_cached_resource(
+        from_contents=lambda contents: Resource.from_contents(
+            contents,
+            jsonschema.DRAFT202012,
+        )
+    )
     def httpx_retrieve(uri: str):
         return httpx.get(uri).text
-- 
2.43.0


From abef6819770edf22c4fda20f2e53f9caa86a4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:29 +0000
Subject: [PATCH 39/75] fix: references in JSON schemas can be resolved

---
 recap/converters/json_schema.py | 44 ++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index a229cd9..7a8e0a2 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -44,6 +44,9 @@ class JSONSchemaConverter:
     ) -> StructType:
         alias_strategy = alias_strategy or JSONSchemaConverter.urn_to_alias
         json_schema = json.loads(json_schema_str)
+        # Every schema defines the types it references
+        self.registry = RecapTypeRegistry()
+        self._crawled: set[str] = set()
         recap_schema = self._parse(json_schema, alias_strategy)
         if not isinstance(recap_schema, StructType):
             raise ValueError("JSON schema must be an object")
@@ -53,6 +56,17 @@ class JSONSchemaConverter:
         self,
         json_schema: dict | str,
         alias_strategy: AliasStrategy,
+    ) -> RecapType:
+        recap_type = self._parse_type(json_schema, alias_strategy)
+        if "$id" in json_schema and not isinstance(recap_type, ProxyType):
+            # Make sure references to this type can be resolved.
+            self.registry.register_alias(recap_type)
+        return recap_type
+
+    def _parse_type(
+        self,
+        json_schema: dict | str,
+        alias_strategy: AliasStrategy,
     ) -> RecapType:
         extra_attrs = {}
         # Check if json_schema is just a string representing a basic type, and
@@ -67,8 +81,13 @@ class JSONSchemaConverter:
             resource = Resource.from_contents(json_schema, jsonschema.DRAFT202012)
             resource_id = resource.id()
             assert resource_id is not None, f"$id must be set for {json_schema}"
+            alias = alias_strategy(resource_id)
+            if resource_id in self._crawled:
+                # A reference to this schema came before the schema itself.
+                return ProxyType(alias, self.registry, **extra_attrs)
             self.json_registry = resource @ self.json_registry
-            extra_attrs["alias"] = alias_strategy(resource_id)
+            self._crawled.add(resource_id)
+            extra_attrs["alias"] = alias
 
         match json_schema:
             # Special handling for "type" defined as a list of strings like
@@ -115,22 +134,23 @@ class JSONSchemaConverter:
             case {"type": "null"}:
                 return NullType(**extra_attrs)
             case {"$ref": str(urn)} | {"$dynamicRef": str(urn)}:
-                try:
-                    # If no KeyError is thrown here, we've already crawled this,
-                    # so we can just return a ProxyType referencing the original.
-                    resource = self.json_registry[urn]
+                urn = urn.rstrip("#")
+                retrieved = self.json_registry.get_or_retrieve(urn)
+                resource = retrieved.value
+                self.json_registry = retrieved.registry
+                if (resource.id() or urn) in self._crawled:
+                    # We've already crawled this, so we can just return a
+                    # ProxyType referencing the original.
                     assert (
                         resource.id() is not None
                     ), f"$id must be set for {resource.contents}"
                     alias = alias_strategy(str(resource.id()))
                     return ProxyType(alias, self.registry, **extra_attrs)
-                except KeyError:
-                    # We haven't crawled this type yet, so crawl and define the
-                    # type as a normal Recap type with an alias set.
-                    retrieved = self.json_registry.get_or_retrieve(urn)
-                    resource = retrieved.value
-                    self.json_registry = retrieved.registry
-                    return self._parse(resource.contents, alias_strategy)
+                # We haven't crawled this type yet, so crawl and define the
+                # type as a normal Recap type with an alias set.
+                if resource.id() is None:
+                    self._crawled.add(urn)
+                return self._parse(resource.contents, alias_strategy)
             case _:
                 raise ValueError(f"Unsupported JSON schema: {json_schema}")
 
-- 
2.43.0


From f07b71aa03ace15cee2b87df0107e38bbb2ffd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:29 +0000
Subject: [PATCH 40/75] fix: descriptions and defaults of JSON schema
 references are kept

---
 recap/converters/json_schema.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 7a8e0a2..15d3a8d 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -150,7 +150,11 @@ class JSONSchemaConverter:
                 # type as a normal Recap type with an alias set.
                 if resource.id() is None:
                     self._crawled.add(urn)
-                return self._parse(resource.contents, alias_strategy)
+                recap_type = self._parse(resource.contents, alias_strategy)
+                # The reference's attributes override the schema's attributes
+                recap_type.doc = extra_attrs.pop("doc", recap_type.doc)
+                recap_type.extra_attrs |= extra_attrs
+                return recap_type
             case _:
                 raise ValueError(f"Unsupported JSON schema: {json_schema}")
 
-- 
2.43.0


From b9432db094b76313e89f1f7cc7e1de5225b736d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:52 +0000
Subject: [PATCH 41/75] fix: JSON schema ids always become valid aliases

---
 recap/converters/json_schema.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 15d3a8d..2ee4272 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -311,19 +311,19 @@ class JSONSchemaConverter:
         parsed = urlparse(urn)
 
         # Reverse domain
-        domain_parts = parsed.netloc.split(".")
-        domain_parts.reverse()
-        domain = ".".join(domain_parts)
+        parts = re.sub(r"[^a-zA-Z0-9_.]", "_", parsed.netloc).split(".")
+        parts.reverse()
 
         # Replace special characters in the path, convert to lowercase
         path = parsed.path + parsed.fragment
-        path = re.sub(r"[^a-zA-Z0-9]", ".", path)
-        path = path.lower()
-
-        # Combine domain and path
-        dotted_type = domain
-        if path and path != ".":
-            dotted_type += "." + path.strip(".")
+        parts += re.split(r"[^a-z0-9]", path.lower())
+
+        # Combine domain and path. Aliases have at least two parts, and no part
+        # is empty or starts with a digit.
+        parts = [f"_{p}" if p[0].isdigit() else p for p in parts if p]
+        if len(parts) < 2:
+            parts.insert(0, "_root")
+        dotted_type = ".".join(parts)
 
         return dotted_type
 
-- 
2.43.0


From 08688f1a8d3d935ebf8d87bdda5046614dfee536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:08 +0000
Subject: [PATCH 42/75] fix: references don't replace definitions in generated
 JSON schemas

---
 recap/converters/json_schema.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 2ee4272..9244b6a 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -187,7 +187,12 @@ class JSONSchemaConverter:
 
         defs = {}
 
-        if (alias := recap_type.alias) and alias not in BUILTIN_ALIASES:
+        # References aren't definitions. They'd replace the alias's definition.
+        if (
+            not isinstance(recap_type, ProxyType)
+            and (alias := recap_type.alias)
+            and alias not in BUILTIN_ALIASES
+        ):
             # Don't use $ref for concrete types, since we're defining them,
             # not referencing them.
             defs[alias] = self._convert_field(recap_type, False)
-- 
2.43.0


From 49a03239f91cc22278e1c481ffc104b64ea7b220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:11 +0000
Subject: [PATCH 43/75] fix: JSON schemas accept nulls in lists and maps of
 optional types

---
 recap/converters/json_schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 9244b6a..758ec52 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -241,7 +241,8 @@ class JSONSchemaConverter:
             case UnionType(types=types):
                 # If field is optional, just return the nested type.
                 # from_recap will mark the field as required in the struct.
-                if field.is_optional:
+                # Nulls in lists, maps, and unions have to be kept.
+                if field.is_optional and "name" in field.extra_attrs:
                     non_null_types = [t for t in types if not isinstance(t, NullType)]
                     assert len(non_null_types) == 1
                     type_dict |= self._convert_field(non_null_types[0])
-- 
2.43.0


From b68ec62ef97ebf1506123b234b707f90c39fd0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:15 +0000
Subject: [PATCH 44/75] fix: JSON schemas accept values that match several
 types of a union

---
 recap/converters/json_schema.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 758ec52..6155686 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -247,7 +247,15 @@ class JSONSchemaConverter:
                     assert len(non_null_types) == 1
                     type_dict |= self._convert_field(non_null_types[0])
                 else:
-                    type_dict |= {"oneOf": [self._convert_field(t) for t in types]}
+                    schemas = [self._convert_field(t) for t in types]
+                    # A value must match exactly one schema in a oneOf, so it's
+                    # not usable for schemas that accept the same values.
+                    json_types = {
+                        "number" if (json_type := s.get("type")) == "integer" else json_type
+                        for s in schemas
+                    }
+                    is_distinct = None not in json_types and len(json_types) == len(types)
+                    type_dict |= {"oneOf" if is_distinct else "anyOf": schemas}
             case StructType():
                 type_dict |= {"type": "object", "properties": {}}
                 for field in field.fields:
-- 
2.43.0


From 0bfa8aea53fda9bea6d557747e197ba604e30dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:19 +0000
Subject: [PATCH 45/75] fix: docs and defaults of optional fields aren't
 replaced in JSON schemas

---
 recap/converters/json_schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 6155686..8990744 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -245,7 +245,8 @@ class JSONSchemaConverter:
                 if field.is_optional and "name" in field.extra_attrs:
                     non_null_types = [t for t in types if not isinstance(t, NullType)]
                     assert len(non_null_types) == 1
-                    type_dict |= self._convert_field(non_null_types[0])
+                    # The field's attributes override its type's attributes
+                    type_dict = self._convert_field(non_null_types[0]) | type_dict
                 else:
                     schemas = [self._convert_field(t) for t in types]
                     # A value must match exactly one schema in a oneOf, so it's
-- 
2.43.0


From 3855e67bb0b96e70ce02b1065704fef889a30ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:22 +0000
Subject: [PATCH 46/75] fix: optional fields with an aliased type aren't
 required in JSON schemas

---
 recap/converters/json_schema.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 8990744..3eb13c9 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -263,6 +263,8 @@ class JSONSchemaConverter:
                     if field_name := field.extra_attrs.get("name"):
                         type_dict["properties"][field_name] = self._convert_field(field)
 
+                        if isinstance(field, ProxyType):
+                            field = field.resolve()
                         if not isinstance(field, UnionType) or not field.is_optional:
                             type_dict.setdefault("required", []).append(field_name)
                     else:
-- 
2.43.0


From 2b0e9492afdaa59ea6cf45399a037e2546e88a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:19 +0000
Subject: [PATCH 47/75] fix: messages and enums used by several Protobuf fields
 are defined once

---
 recap/converters/protobuf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index ec8833f..c7209dd 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -60,8 +60,9 @@ class ProtobufConverter:
         resolved: set[str] | None = None,
         seen: set[str] | None = None,
     ) -> RecapType:
-        resolved = resolved or set()
-        seen = seen or set()
+        # Empty sets must be shared, too, so don't use `or`.
+        resolved = set() if resolved is None else resolved
+        seen = set() if seen is None else seen
 
         # Detect circular references.
         if not isinstance(recap_type, ProxyType) and recap_type.alias is not None:
-- 
2.43.0


From f7b0bbfb3ff06f96cdf11fee6efb9a38fd36e4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:23 +0000
Subject: [PATCH 48/75] fix: Protobuf converters keep their namespace when they
 convert several files

---
 recap/converters/protobuf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index c7209dd..20572f2 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -46,7 +46,12 @@ class ProtobufConverter:
         protobuf_schema_str: str,
     ) -> StructType:
         file = Parser().parse(protobuf_schema_str)
-        root_message = self._parse(file)
+        namespaces = list(self.namespaces)
+        try:
+            root_message = self._parse(file)
+        finally:
+            # The package only applies to this file.
+            self.namespaces = namespaces
         root_message = self._resolve_proxies(root_message)
 
         if not isinstance(root_message, StructType):
@@ -118,8 +123,6 @@ class ProtobufConverter:
         if root_message is None:
             raise ValueError("Protobuf schema must contain at least one Message")
 
-        self.namespaces.pop()
-
         return root_message
 
     def _parse_message(self, message: Message) -> StructType:
-- 
2.43.0


From ff1a07cb654dd08681251c87e1db418e76af708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:28 +0000
Subject: [PATCH 49/75] fix: Protobuf types can be referenced by names with a
 leading dot

---
 recap/converters/protobuf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 20572f2..aee31f4 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -249,8 +249,9 @@ class ProtobufConverter:
                 return NullType()
             case _:
                 # Create a ProxyType and hope we have a type alias for this type.
+                # Fully qualified names may start with a dot.
                 alias = (
-                    protobuf_type
+                    protobuf_type.removeprefix(".")
                     if "." in protobuf_type
                     else f"{self.namespaces[-1]}.{protobuf_type}"
                 )
-- 
2.43.0


From 97ba9af2b2b66680fb4908334a6ed8619b475937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:32 +0000
Subject: [PATCH 50/75] fix: strings and bytes read from Protobuf or without a
 maximum length can be converted to Protobuf

---
 recap/converters/protobuf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index aee31f4..00e9f67 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -432,9 +432,9 @@ class ProtobufConverter:
                     "Invalid bit size for FloatType. Protobuf supports only 32 "
                     "or 64 bits for floating-point types."
                 )
-            case StringType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_647:
+            case StringType(bytes_=bytes_) if bytes_ is None or bytes_ <= 2_147_483_648:
                 return Field(field_name, field_number, "string")
-            case BytesType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_647:
+            case BytesType(bytes_=bytes_) if bytes_ is None or bytes_ <= 2_147_483_648:
                 return Field(field_name, field_number, "bytes")
             case ListType(values=values):
                 nested_field = self._recap_to_field(values, field_number, package)
-- 
2.43.0


From 2aa7fdc852983140b9976eeff92e74a4a516899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:36 +0000
Subject: [PATCH 51/75] fix: names of lists and nullable fields are kept when
 they're converted to Protobuf

---
 recap/converters/protobuf.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 00e9f67..6b18fb9 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -389,6 +389,7 @@ class ProtobufConverter:
         recap_type: RecapType,
         field_number: int,
         package: str,
+        default_name: str | None = None,
     ) -> Field | MapField | OneOf:
         """
         Convert a Recap type to a Protobuf field. This method is recursive and
@@ -397,10 +398,12 @@ class ProtobufConverter:
         :param recap_type: The Recap type to convert.
         :param field_number: The field number to assign to the field.
         :param package: The package of the field.
+        :param default_name: The name of the field if the type has no name.
         :return: The Protobuf field.
         """
 
-        field_name = recap_type.extra_attrs.get("name", f"field_{field_number}")
+        default_name = default_name or f"field_{field_number}"
+        field_name = recap_type.extra_attrs.get("name", default_name)
         match recap_type:
             case NullType():
                 return Field(field_name, field_number, "google.protobuf.NullValue")
@@ -437,7 +440,12 @@ class ProtobufConverter:
             case BytesType(bytes_=bytes_) if bytes_ is None or bytes_ <= 2_147_483_648:
                 return Field(field_name, field_number, "bytes")
             case ListType(values=values):
-                nested_field = self._recap_to_field(values, field_number, package)
+                nested_field = self._recap_to_field(
+                    values,
+                    field_number,
+                    package,
+                    field_name,
+                )
                 assert isinstance(
                     nested_field,
                     Field,
@@ -466,6 +474,7 @@ class ProtobufConverter:
                         non_null_types[0],
                         field_number,
                         package,
+                        field_name,
                     )
                     assert isinstance(field, Field), "Maps can't be nullable."
                     field.cardinality = FieldCardinality.OPTIONAL
-- 
2.43.0


From 6f58bfe55400ff43ae7f759dadc3ace485195f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:39 +0000
Subject: [PATCH 52/75] fix: nullable lists and maps stay lists and maps in
 Protobuf

---
 recap/converters/protobuf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 6b18fb9..f7120ce 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -476,8 +476,13 @@ class ProtobufConverter:
                         package,
                         field_name,
                     )
-                    assert isinstance(field, Field), "Maps can't be nullable."
-                    field.cardinality = FieldCardinality.OPTIONAL
+                    assert not isinstance(field, OneOf), "Unions can't be nested."
+                    # Lists and maps have no presence, so they're never optional.
+                    if (
+                        isinstance(field, Field)
+                        and field.cardinality != FieldCardinality.REPEATED
+                    ):
+                        field.cardinality = FieldCardinality.OPTIONAL
                     return field
                 else:
                     # Multiple non-null types means this is a true union of multiple types.
-- 
2.43.0


From 58f254bcd5082c402fc6904ac8395ae0ed407461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:43 +0000
Subject: [PATCH 53/75] fix: nested lists are no longer flattened when they're
 converted to Protobuf

---
 recap/converters/protobuf.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index f7120ce..b9755d2 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -450,6 +450,9 @@ class ProtobufConverter:
                     nested_field,
                     Field,
                 ), "Maps and unions can't be repeated (lists)."
+                assert (
+                    nested_field.cardinality != FieldCardinality.REPEATED
+                ), "Lists can't be repeated (lists)."
                 nested_field.cardinality = FieldCardinality.REPEATED
                 return nested_field
             case MapType(keys=keys, values=values):
@@ -460,6 +463,10 @@ class ProtobufConverter:
                     key_field, Field
                 ), "Key must be integral or string type."
                 assert isinstance(value_field, Field), "Value must not be a map type."
+                for field in (key_field, value_field):
+                    assert (
+                        field.cardinality != FieldCardinality.REPEATED
+                    ), "Keys and values must not be lists."
                 return MapField(
                     field_name,
                     field_number,
@@ -495,6 +502,10 @@ class ProtobufConverter:
                             oneof_field_num,
                             package,
                         )
+                        assert (
+                            isinstance(field, Field)
+                            and field.cardinality != FieldCardinality.REPEATED
+                        ), "Lists, maps, and unions can't be in a union."
                         oneof_fields.append(field)
                         oneof_field_num += 1
                     return OneOf(field_name, oneof_fields)
-- 
2.43.0


From 1ad5f5362924ccca7203fb40cccf848fc369dc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:46 +0000
Subject: [PATCH 54/75] fix: fields after a union get their own Protobuf field
 numbers

---
 recap/converters/protobuf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index b9755d2..0f324ea 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -326,10 +326,12 @@ class ProtobufConverter:
                 message_elements: list[MessageElement] = []
 
                 for field in recap_type.fields:
-                    message_elements.append(
-                        self._recap_to_field(field, field_number, package)
+                    element = self._recap_to_field(field, field_number, package)
+                    message_elements.append(element)
+                    # Every field in a oneof has its own number.
+                    field_number += (
+                        len(element.elements) if isinstance(element, OneOf) else 1
                     )
-                    field_number += 1
                     self._from_recap_gather_types(field, package_to_types)
 
                 package_to_types.setdefault(package, []).append(
-- 
2.43.0


From 82f00fb887215c9f210047696443e0321a162da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:50 +0000
Subject: [PATCH 55/75] fix: built-in aliases become Protobuf types

---
 recap/converters/protobuf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 0f324ea..188fd03 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -14,6 +14,7 @@ from proto_schema_parser.ast import (
 from proto_schema_parser.parser import Parser
 
 from recap.types import (
+    BUILTIN_ALIASES,
     BoolType,
     BytesType,
     EnumType,
@@ -511,6 +512,13 @@ class ProtobufConverter:
                         oneof_fields.append(field)
                         oneof_field_num += 1
                     return OneOf(field_name, oneof_fields)
+            case ProxyType(alias=alias) if alias in BUILTIN_ALIASES:
+                return self._recap_to_field(
+                    recap_type.resolve(),
+                    field_number,
+                    package,
+                    field_name,
+                )
             case (
                 StructType(alias=alias) | EnumType(alias=alias) | ProxyType(alias=alias)
             ):
-- 
2.43.0


From 2a6181d1fcb1137d5bf2f8162ec9001c6bd97e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:54 +0000
Subject: [PATCH 56/75] fix: generated Protobuf files declare their syntax

---
 recap/converters/protobuf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 188fd03..039c69d 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -299,6 +299,8 @@ class ProtobufConverter:
                 f"but found root={package} and subpackage={subpackage}."
             )
         return File(
+            # Labels are only optional in proto3
+            syntax="proto3",
             file_elements=[Package(name=package)]
             + self._from_recap_construct_elements(package, package_to_types)  # type: ignore
         )
-- 
2.43.0


From 20ee780116a06d44e3df40a000845e1b7b44e6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:33 +0000
Subject: [PATCH 57/75] fix: nullable types in unions have no label in Protobuf

---
 recap/converters/protobuf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 039c69d..f1eb1c0 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -511,6 +511,8 @@ class ProtobufConverter:
                             isinstance(field, Field)
                             and field.cardinality != FieldCardinality.REPEATED
                         ), "Lists, maps, and unions can't be in a union."
+                        # Fields in a oneof have no label.
+                        field.cardinality = None
                         oneof_fields.append(field)
                         oneof_field_num += 1
                     return OneOf(field_name, oneof_fields)
-- 
2.43.0


From d91b27b626bcf2ed757b9528031ef34b035672ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:36 +0000
Subject: [PATCH 58/75] fix: maps with keys that Protobuf doesn't support can't
 be converted

---
 recap/converters/protobuf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index f1eb1c0..9b552ef 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -464,8 +464,13 @@ class ProtobufConverter:
                 # 0 field_number because we ignore it. We just need types.
                 key_field = self._recap_to_field(keys, 0, package)
                 value_field = self._recap_to_field(values, 0, package)
-                assert isinstance(
-                    key_field, Field
+                assert isinstance(key_field, Field) and key_field.type in (
+                    "bool",
+                    "int32",
+                    "int64",
+                    "uint32",
+                    "uint64",
+                    "string",
                 ), "Key must be integral or string type."
                 assert isinstance(value_field, Field), "Value must not be a map type."
                 for field in (key_field, value_field):
-- 
2.43.0


From 8457a388b2f51be908f8db5bb995b6da470b9801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:40 +0000
Subject: [PATCH 59/75] fix: types in Protobuf subpackages are no longer
 dropped

---
 recap/converters/protobuf.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 9b552ef..2d212d7 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -298,11 +298,16 @@ class ProtobufConverter:
                 "Proto files must contain messages in a single root package space, "
                 f"but found root={package} and subpackage={subpackage}."
             )
+        elements = self._from_recap_construct_elements(package, package_to_types)
+        # Verify all subpackages are messages. Their types aren't declared otherwise.
+        assert not package_to_types, (
+            "Proto files must contain messages in a single root package space, "
+            f"but found root={package} and subpackages={list(package_to_types)}."
+        )
         return File(
             # Labels are only optional in proto3
             syntax="proto3",
-            file_elements=[Package(name=package)]
-            + self._from_recap_construct_elements(package, package_to_types)  # type: ignore
+            file_elements=[Package(name=package)] + elements,  # type: ignore
         )
 
     def _from_recap_gather_types(
@@ -379,7 +384,7 @@ class ProtobufConverter:
         :return: The proto FileElements (or MessageElements) for the package.
         """
 
-        package_types = package_to_types.get(package, [])
+        package_types = package_to_types.pop(package, [])
         for package_type in package_types:
             if isinstance(package_type, Message):
                 subelements = self._from_recap_construct_elements(
-- 
2.43.0


From 07196c95bcd9f18b3d24b92714b574819cae920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:44 +0000
Subject: [PATCH 60/75] fix: the root message comes first in generated Protobuf
 files

---
 recap/converters/protobuf.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 2d212d7..ea81532 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -332,6 +332,14 @@ class ProtobufConverter:
                 package, message_name = recap_type.alias.rsplit(".", 1)
                 field_number = 1
                 message_elements: list[MessageElement] = []
+                # Messages come before the messages they use, since the first message
+                # in a proto file is its root.
+                package_to_types.setdefault(package, []).append(
+                    Message(
+                        message_name,
+                        message_elements,
+                    )
+                )
 
                 for field in recap_type.fields:
                     element = self._recap_to_field(field, field_number, package)
@@ -341,13 +349,6 @@ class ProtobufConverter:
                         len(element.elements) if isinstance(element, OneOf) else 1
                     )
                     self._from_recap_gather_types(field, package_to_types)
-
-                package_to_types.setdefault(package, []).append(
-                    Message(
-                        message_name,
-                        message_elements,
-                    )
-                )
             case UnionType(types=types):
                 for type_ in types:
                     self._from_recap_gather_types(type_, package_to_types)
@@ -366,7 +367,10 @@ class ProtobufConverter:
                     )
                 ]
                 enum = Enum(enum_name, elements)
-                package_to_types.setdefault(enum_package, []).append(enum)
+                # Enums come before messages.
+                package_types = package_to_types.setdefault(enum_package, [])
+                num_enums = sum(isinstance(t, Enum) for t in package_types)
+                package_types.insert(num_enums, enum)
 
     def _from_recap_construct_elements(
         self,
-- 
2.43.0


From 8ab29a2bc11e698ca6de6f34d74cb96e7cf58c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:47 +0000
Subject: [PATCH 61/75] fix: references to aliases of other types than structs
 and enums can be converted to Protobuf

---
 recap/converters/protobuf.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index ea81532..d1f6586 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -14,7 +14,6 @@ from proto_schema_parser.ast import (
 from proto_schema_parser.parser import Parser
 
 from recap.types import (
-    BUILTIN_ALIASES,
     BoolType,
     BytesType,
     EnumType,
@@ -398,6 +397,22 @@ class ProtobufConverter:
                 package_type.elements.extend(subelements)
         return package_types
 
+    @staticmethod
+    def _is_declared(proxy_type: ProxyType) -> bool:
+        """
+        Only messages and enums are declared in proto files, so these are the only
+        aliases that can be referenced.
+
+        :param proxy_type: The alias reference.
+        :return: True if the referenced type is declared in the proto file.
+        """
+
+        try:
+            return isinstance(proxy_type.resolve(), (StructType, EnumType))
+        except TypeError:
+            # The alias might not be registered (yet).
+            return True
+
     def _recap_to_field(
         self,
         recap_type: RecapType,
@@ -530,7 +545,7 @@ class ProtobufConverter:
                         oneof_fields.append(field)
                         oneof_field_num += 1
                     return OneOf(field_name, oneof_fields)
-            case ProxyType(alias=alias) if alias in BUILTIN_ALIASES:
+            case ProxyType() if not self._is_declared(recap_type):
                 return self._recap_to_field(
                     recap_type.resolve(),
                     field_number,
-- 
2.43.0


From 5f56a2502e5aa39a0ff0924c79225f4fc406cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:51 +0000
Subject: [PATCH 62/75] fix: Protobuf fields with an alias keep their name

---
 recap/converters/protobuf.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index d1f6586..b97bf46 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -1,3 +1,5 @@
+import copy
+
 from proto_schema_parser.ast import (
     Enum,
     EnumElement,
@@ -546,12 +548,12 @@ class ProtobufConverter:
                         oneof_field_num += 1
                     return OneOf(field_name, oneof_fields)
             case ProxyType() if not self._is_declared(recap_type):
-                return self._recap_to_field(
-                    recap_type.resolve(),
-                    field_number,
-                    package,
-                    field_name,
-                )
+                resolved_type = copy.copy(recap_type.resolve())
+                # The field that defines the alias has its own name.
+                resolved_type.extra_attrs = resolved_type.extra_attrs | {
+                    "name": field_name
+                }
+                return self._recap_to_field(resolved_type, field_number, package)
             case (
                 StructType(alias=alias) | EnumType(alias=alias) | ProxyType(alias=alias)
             ):
-- 
2.43.0


From 345edf491d2ef4028151ba3dc149d3e7bb2c5f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:41 +0000
Subject: [PATCH 63/75] fix: unnamed unions don't have the name of their first
 type in Protobuf

---
 recap/converters/protobuf.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index b97bf46..ee73db3 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -433,8 +433,8 @@ class ProtobufConverter:
         :return: The Protobuf field.
         """
 
-        default_name = default_name or f"field_{field_number}"
-        field_name = recap_type.extra_attrs.get("name", default_name)
+        name = recap_type.extra_attrs.get("name", default_name)
+        field_name = name or f"field_{field_number}"
         match recap_type:
             case NullType():
                 return Field(field_name, field_number, "google.protobuf.NullValue")
@@ -475,7 +475,7 @@ class ProtobufConverter:
                     values,
                     field_number,
                     package,
-                    field_name,
+                    name,
                 )
                 assert isinstance(
                     nested_field,
@@ -517,7 +517,7 @@ class ProtobufConverter:
                         non_null_types[0],
                         field_number,
                         package,
-                        field_name,
+                        name,
                     )
                     assert not isinstance(field, OneOf), "Unions can't be nested."
                     # Lists and maps have no presence, so they're never optional.
@@ -546,13 +546,12 @@ class ProtobufConverter:
                         field.cardinality = None
                         oneof_fields.append(field)
                         oneof_field_num += 1
-                    return OneOf(field_name, oneof_fields)
+                    # Unnamed fields in the oneof are called field_{number}.
+                    return OneOf(name or f"oneof_{field_number}", oneof_fields)
             case ProxyType() if not self._is_declared(recap_type):
                 resolved_type = copy.copy(recap_type.resolve())
                 # The field that defines the alias has its own name.
-                resolved_type.extra_attrs = resolved_type.extra_attrs | {
-                    "name": field_name
-                }
+                resolved_type.extra_attrs = resolved_type.extra_attrs | {"name": name}
                 return self._recap_to_field(resolved_type, field_number, package)
             case (
                 StructType(alias=alias) | EnumType(alias=alias) | ProxyType(alias=alias)
-- 
2.43.0


From c808d733dda193dd4ba8278b938b829ff615509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:41 +0000
Subject: [PATCH 64/75] fix: unions of nulls don't become empty oneofs in
 Protobuf

---
 recap/converters/protobuf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index ee73db3..bebc5ee 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -511,7 +511,10 @@ class ProtobufConverter:
                 )
             case UnionType(types=types):
                 non_null_types = [t for t in types if not isinstance(t, NullType)]
-                if len(non_null_types) == 1:
+                if not non_null_types:
+                    # Empty oneofs aren't allowed.
+                    return Field(field_name, field_number, "google.protobuf.NullValue")
+                elif len(non_null_types) == 1:
                     # One non-null type means this is a nullable field.
                     field = self._recap_to_field(
                         non_null_types[0],
-- 
2.43.0


From ec73a9453829fcb1a5d57416063ef3acb2e68a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:41 +0000
Subject: [PATCH 65/75] fix: types that are used several times are declared
 once in Protobuf

---
 recap/converters/protobuf.py | 47 ++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index bebc5ee..dc2a9ed 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -335,12 +335,12 @@ class ProtobufConverter:
                 message_elements: list[MessageElement] = []
                 # Messages come before the messages they use, since the first message
                 # in a proto file is its root.
-                package_to_types.setdefault(package, []).append(
-                    Message(
-                        message_name,
-                        message_elements,
-                    )
+                message = Message(message_name, message_elements)
+                declared_type = self._from_recap_declared_type(
+                    package, message_name, package_to_types
                 )
+                if declared_type is None:
+                    package_to_types[package].append(message)
 
                 for field in recap_type.fields:
                     element = self._recap_to_field(field, field_number, package)
@@ -350,6 +350,10 @@ class ProtobufConverter:
                         len(element.elements) if isinstance(element, OneOf) else 1
                     )
                     self._from_recap_gather_types(field, package_to_types)
+
+                assert (
+                    declared_type is None or declared_type == message
+                ), f"Found different types with alias={recap_type.alias}."
             case UnionType(types=types):
                 for type_ in types:
                     self._from_recap_gather_types(type_, package_to_types)
@@ -369,9 +373,36 @@ class ProtobufConverter:
                 ]
                 enum = Enum(enum_name, elements)
                 # Enums come before messages.
-                package_types = package_to_types.setdefault(enum_package, [])
-                num_enums = sum(isinstance(t, Enum) for t in package_types)
-                package_types.insert(num_enums, enum)
+                declared_type = self._from_recap_declared_type(
+                    enum_package, enum_name, package_to_types
+                )
+                if declared_type is None:
+                    package_types = package_to_types[enum_package]
+                    num_enums = sum(isinstance(t, Enum) for t in package_types)
+                    package_types.insert(num_enums, enum)
+
+                assert (
+                    declared_type is None or declared_type == enum
+                ), f"Found different types with alias={recap_type.alias}."
+
+    @staticmethod
+    def _from_recap_declared_type(
+        package: str,
+        name: str,
+        package_to_types: dict[str, list[Message | Enum]],
+    ) -> Message | Enum | None:
+        """
+        Types must be declared once, even if they're used many times.
+
+        :param package: The package of the type.
+        :param name: The name of the type.
+        :param package_to_types: A mapping of package to types that have been
+            discovered. The package is added if it's missing.
+        :return: The type with the name, if it has been discovered already.
+        """
+
+        package_types = package_to_types.setdefault(package, [])
+        return next((t for t in package_types if t.name == name), None)
 
     def _from_recap_construct_elements(
         self,
-- 
2.43.0


From 678658a7586b366fb4ca30c9a4d3162c6cbee0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:13 +0000
Subject: [PATCH 66/75] fix: references aren't seen without their overrides by
 other threads

---
 recap/types.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index c4234bb..90f38c6 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -318,21 +318,23 @@ class ProxyType(RecapType):
 
     def resolve(self) -> RecapType:
         if self._resolved is None:
-            self._resolved = copy.deepcopy(self.registry.from_alias(self.alias))
+            resolved = copy.deepcopy(self.registry.from_alias(self.alias))
             # Apply attribute overrides
             for attr, value in self.extra_attrs.items():
                 # `bytes` is called `bytes_` in string and bytes types
-                if attr == "bytes" and hasattr(self._resolved, "bytes_"):
+                if attr == "bytes" and hasattr(resolved, "bytes_"):
                     attr = "bytes_"
-                if hasattr(self._resolved, attr):
-                    setattr(self._resolved, attr, value)
+                if hasattr(resolved, attr):
+                    setattr(resolved, attr, value)
                 else:
-                    self._resolved.extra_attrs[attr] = value
+                    resolved.extra_attrs[attr] = value
             # Standard attributes aren't in extra_attrs, but they're overrides, too
             if self.doc is not None:
-                self._resolved.doc = self.doc
+                resolved.doc = self.doc
             if self.logical is not None:
-                self._resolved.logical = self.logical
+                resolved.logical = self.logical
+            # Other threads mustn't see a type without its overrides
+            self._resolved = resolved
         return self._resolved
 
     def __eq__(self, other):
-- 
2.43.0


From 7fea97b17a36fea0c4b12d5d2c5312d4ba118b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:08 +0000
Subject: [PATCH 67/75] fix: maps whose keys are references to strings can be
 converted to Avro

---
 recap/converters/avro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 0570539..b405f2d 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -127,9 +127,9 @@ class AvroConverter:
             case ListType(values=values):
                 avro_schema["type"] = "array"
                 avro_schema["items"] = self._from_recap(values)
-            case MapType(
-                keys=StringType(),
-                values=values,
+            case MapType(keys=keys, values=values) if isinstance(
+                keys.resolve() if isinstance(keys, ProxyType) else keys,
+                StringType,
             ):  # Avro only supports string keys
                 avro_schema["type"] = "map"
                 avro_schema["values"] = self._from_recap(values)
-- 
2.43.0


From c4639e6b8acd42ceba7e1e9c80c4ebff9727e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:12 +0000
Subject: [PATCH 68/75] fix: boolean options in SQLite URLs can be turned off

---
 recap/clients/sqlite.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 049a235..0ea5ade 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -19,10 +19,14 @@ SQLITE3_CONNECT_ARGS = {
     "uri",
 }
 
-SQLITE3_NUMERIC_ARGS = {
+SQLITE3_FALSE_VALUES = {"", "0", "false", "no", "off"}
+
+SQLITE3_PARSED_ARGS = {
     "timeout": float,
     "detect_types": int,
     "cached_statements": int,
+    "uri": lambda value: str(value).lower() not in SQLITE3_FALSE_VALUES,
+    "check_same_thread": lambda value: str(value).lower() not in SQLITE3_FALSE_VALUES,
 }
 
 
@@ -39,17 +43,17 @@ class SQLiteClient:
         # Strip sqlite:/// URL prefix
         database = url[len("sqlite:///") :].partition("#")[0]
 
+        # Query parameters are strings, but SQLite expects numbers and booleans
+        for key, parse_arg in SQLITE3_PARSED_ARGS.items():
+            if key in url_args:
+                url_args[key] = parse_arg(url_args[key])
+
         # Query parameters are part of the database only if it's a URI
         if not url_args.get("uri"):
             database = database.partition("?")[0]
 
         url_args["database"] = database
 
-        # Query parameters are strings, but SQLite expects these to be numbers
-        for key, number in SQLITE3_NUMERIC_ARGS.items():
-            if key in url_args:
-                url_args[key] = number(url_args[key])
-
         # Only include kwargs that are valid for PsycoPG2 parse_dsn()
         url_args = {k: v for k, v in url_args.items() if k in SQLITE3_CONNECT_ARGS}
 
-- 
2.43.0


From 5740dd4de63218ff94ec57fd1970db63536ea042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:26 +0000
Subject: [PATCH 69/75] fix: Avro schemas keep attributes that references
 override

---
 recap/converters/avro.py | 41 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index b405f2d..e8d974e 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -1,3 +1,4 @@
+import copy
 import json
 from typing import Any
 
@@ -136,9 +137,15 @@ class AvroConverter:
             case UnionType(types=list(types)):
                 avro_schema["type"] = [self._from_recap(t) for t in types]
             case ProxyType(alias=str(alias)):
-                if "." not in alias:
-                    # Builtin types should be resolved
-                    alias_type = self._from_recap(recap_type.resolve())
+                if "." not in alias or self._is_overridden(recap_type):
+                    # Builtin types should be resolved. So should references that
+                    # change the type, since Avro references can't.
+                    resolved_type = copy.copy(recap_type.resolve())
+                    # The field that defines the alias has its own name.
+                    resolved_type.extra_attrs = {
+                        k: v for k, v in resolved_type.extra_attrs.items() if k != "name"
+                    }
+                    alias_type = self._from_recap(resolved_type)
                     if isinstance(alias_type, dict):
                         avro_schema |= alias_type
                     else:
@@ -159,6 +166,34 @@ class AvroConverter:
 
         return avro_schema
 
+    def _is_overridden(self, proxy_type: ProxyType) -> bool:
+        """
+        :param proxy_type: An alias reference.
+        :return: True if the reference's attributes change the Avro type that
+            the alias has.
+        """
+
+        if proxy_type.logical is None and proxy_type.extra_attrs.keys() <= {
+            "name",
+            "default",
+        }:
+            return False
+
+        alias_type = ProxyType(proxy_type.alias, proxy_type.registry).resolve()
+
+        # Attributes of types with nested types aren't part of an Avro schema.
+        if isinstance(alias_type, (ListType, MapType, StructType, UnionType)):
+            return False
+
+        overrides = {k: v for k, v in proxy_type.extra_attrs.items() if k != "default"}
+        overridden_type = ProxyType(
+            proxy_type.alias,
+            proxy_type.registry,
+            logical=proxy_type.logical,
+            **overrides | {"name": alias_type.extra_attrs.get("name")},
+        ).resolve()
+        return self._from_recap(overridden_type) != self._from_recap(alias_type)
+
     def _from_recap_logical(self, recap_type: RecapType) -> dict[str, Any]:
         match recap_type:
             case BytesType(
-- 
2.43.0


From ccaeae8f3aef7758bbc2fe187470fda7f3a340b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:33 +0000
Subject: [PATCH 70/75] fix: configured URLs apply to paths with characters
 that are percent-encoded

---
 recap/settings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index f5e1769..877c89e 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -2,7 +2,7 @@ import os
 from pathlib import Path
 from posixpath import normpath
 from typing import Any
-from urllib.parse import parse_qs, urlencode, urlsplit
+from urllib.parse import parse_qs, quote, urlencode, urlsplit
 
 from dotenv import load_dotenv
 from pydantic import AnyUrl, Field
@@ -74,6 +74,8 @@ class RecapSettings(BaseSettings):
 
         url_split = urlsplit(url)
         url_path = normpath(url_split.path or "/")
+        # Paths in settings are percent-encoded.
+        encoded_url_path = quote(url_path, safe="!$%&'()*+,/:;=@[\\]^|")
 
         for unsafe_url in self.urls:
             unsafe_url_split = urlsplit(unsafe_url.unicode_string())
@@ -82,7 +84,7 @@ class RecapSettings(BaseSettings):
                 unsafe_url_split.scheme == url_split.scheme
                 and unsafe_url_split.hostname == url_split.hostname
                 and unsafe_url_split.port == url_split.port
-                and _is_under(url_path, normpath(unsafe_url_split.path or "/"))
+                and _is_under(encoded_url_path, normpath(unsafe_url_split.path or "/"))
             ):
                 netloc = unsafe_url_split.netloc
 
-- 
2.43.0


From 92bbe0dd30833fd7114927640cadfb9088791498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:36 +0000
Subject: [PATCH 71/75] fix: store the registry in the configured path if it
 has characters that are percent-encoded

---
 recap/server/registry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index f39d818..abac07b 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -1,8 +1,9 @@
 import json
+from urllib.parse import unquote, urlsplit
 
 from fastapi import APIRouter, Depends, HTTPException, Request
 
-from recap.settings import RecapSettings
+from recap.settings import RecapSettings, _urlunsplit
 from recap.storage.registry import RegistryStorage
 from recap.types import ProxyType, RecapType, from_dict, to_dict
 
@@ -11,8 +12,12 @@ settings = RecapSettings()
 
 
 def get_storage() -> RegistryStorage:
+    # Paths in settings are percent-encoded, but fsspec needs them decoded.
+    split_url = urlsplit(settings.registry_storage_url.unicode_string())
+    storage_url = _urlunsplit(*split_url._replace(path=unquote(split_url.path)))
+
     return RegistryStorage(
-        settings.registry_storage_url.unicode_string(),
+        storage_url,
         **settings.registry_storage_url_args,
     )
 
-- 
2.43.0


From 5b29b5046ee5246cc64e1dea2d73664f14eb7549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:40 +0000
Subject: [PATCH 72/75] fix: PostgreSQL clients don't share a converter

---
 recap/clients/postgresql.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/clients/postgresql.py b/recap/clients/postgresql.py
index 3a960bb..d88a507 100644
--- a/recap/clients/postgresql.py
+++ b/recap/clients/postgresql.py
@@ -52,9 +52,11 @@ class PostgresqlClient(DbapiClient):
     def __init__(
         self,
         connection: Connection,
-        converter: PostgresqlConverter = PostgresqlConverter(),
+        converter: PostgresqlConverter | None = None,
     ) -> None:
-        super().__init__(connection, converter)
+        # Converters know the aliases of the table they're converting, so they
+        # can't be shared by clients that are used at the same time.
+        super().__init__(connection, converter or PostgresqlConverter())
 
     @staticmethod
     @contextmanager
-- 
2.43.0


From e7cc3285b74b0de9ae22ffb7ef4f5e01dd0de492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:28 +0000
Subject: [PATCH 73/75] fix: close PostgreSQL and SQLite connections

---
 recap/clients/postgresql.py | 5 +++--
 recap/clients/sqlite.py     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/recap/clients/postgresql.py b/recap/clients/postgresql.py
index d88a507..cab27c1 100644
--- a/recap/clients/postgresql.py
+++ b/recap/clients/postgresql.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from contextlib import contextmanager
+from contextlib import closing, contextmanager
 from typing import Generator
 
 from recap.clients.dbapi import Connection, DbapiClient
@@ -72,7 +72,8 @@ class PostgresqlClient(DbapiClient):
         # Only include kwargs that are valid for PsycoPG2 parse_dsn()
         url_args = {k: v for k, v in url_args.items() if k in PSYCOPG2_CONNECT_ARGS}
 
-        with psycopg2.connect(**url_args) as client:
+        # psycopg2's context manager ends the transaction, but doesn't close
+        with closing(psycopg2.connect(**url_args)) as connection, connection as client:
             yield PostgresqlClient(client)
 
     def ls_catalogs(self) -> list[str]:
diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 0ea5ade..043089c 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from contextlib import contextmanager
+from contextlib import closing, contextmanager
 from re import compile as re_compile
 from typing import Any, Generator
 
@@ -57,7 +57,8 @@ class SQLiteClient:
         # Only include kwargs that are valid for PsycoPG2 parse_dsn()
         url_args = {k: v for k, v in url_args.items() if k in SQLITE3_CONNECT_ARGS}
 
-        with sqlite3.connect(**url_args) as client:
+        # sqlite3's context manager ends the transaction, but doesn't close
+        with closing(sqlite3.connect(**url_args)) as connection, connection as client:
             yield SQLiteClient(client)  # type: ignore
 
     @staticmethod
-- 
2.43.0


From 66daffc6aac6ab89ed67b9f3802fe7bb06f97515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 74/75] fix: the configured home directory can be relative

---
 recap/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/settings.py b/recap/settings.py
index 877c89e..4f62c50 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -10,7 +10,9 @@ from pydantic_settings import BaseSettings, SettingsConfigDict
 
 load_dotenv()
 
-HOME_PATH = Path(os.environ.get("RECAP_HOME") or os.path.expanduser("~/.recap"))
+HOME_PATH = Path(
+    os.path.abspath(os.environ.get("RECAP_HOME") or os.path.expanduser("~/.recap"))
+)
 DEFAULT_REGISTRY_STORAGE_PATH = Path(HOME_PATH, "schemas")
 SECRETS_PATH = Path(dir) if (dir := os.environ.get("RECAP_SECRETS")) else None
 
-- 
2.43.0


From e2710b260ea1e1f6da16b02443e9fd9371176373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 75/75] fix: configured directories are created with their
 parents

---
 recap/settings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 4f62c50..893ee1a 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -18,10 +18,10 @@ SECRETS_PATH = Path(dir) if (dir := os.environ.get("RECAP_SECRETS")) else None
 
 
 def mkdirs():
-    HOME_PATH.mkdir(exist_ok=True)
+    HOME_PATH.mkdir(parents=True, exist_ok=True)
 
     if SECRETS_PATH:
-        SECRETS_PATH.mkdir(exist_ok=True)
+        SECRETS_PATH.mkdir(parents=True, exist_ok=True)
 
 
 mkdirs()
-- 
2.43.0

