From eb30c6261f7e876788970a94f00f7650ab49c561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 01/36] fix: joining two outputs keeps the first one's
 secretness and knownness

---
 sdk/python/lib/pulumi/output.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 1dd6f47..0775ba2 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -570,11 +570,21 @@ def _map2_output(
         r2 = await o2.resources()
         return r1 | r2
 
+    async def known() -> bool:
+        k1 = await o1.is_known()
+        k2 = await o2.is_known()
+        return k1 and k2
+
+    async def secret() -> bool:
+        s1 = await o1.is_secret()
+        s2 = await o2.is_secret()
+        return s1 or s2
+
     return Output(
         resources=asyncio.ensure_future(res()),
         future=asyncio.ensure_future(fut()),
-        is_known=o1.is_known() and o2.is_known(),
-        is_secret=o2.is_secret() or o2.is_secret(),
+        is_known=known(),
+        is_secret=secret(),
     )
 
 
-- 
2.43.0


From 223d81867718462012e802f24ba295fca499e45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:22 +0000
Subject: [PATCH 02/36] fix: a remote component's provider no longer hides its
 providers for other packages

---
 sdk/python/lib/pulumi/runtime/resource.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index b2025eb..0e68d1f 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -748,18 +748,16 @@ def convert_providers(
     """
     Merge all providers opts (opts.provider and both list and dict forms of opts.providers) into a single dict.
     """
-    if provider is not None:
-        return convert_providers(None, [provider])
-
-    if providers is None:
-        return {}
-
+    result: Dict[str, "ProviderResource"] = {}
     if isinstance(providers, Mapping):
-        return providers
+        result.update(providers)
+    elif providers is not None:
+        for p in providers:
+            result[p.package] = p
 
-    result = {}
-    for p in providers:
-        result[p.package] = p
+    # An explicit provider takes precedence for its own package, but must not hide the others.
+    if provider is not None:
+        result[provider.package] = provider
 
     return result
 
-- 
2.43.0


From 51042700ab2be7a6647a5e900017335265eea930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:30 +0000
Subject: [PATCH 03/36] fix: merging already merged options keeps every earlier
 value

---
 sdk/python/lib/pulumi/invoke.py   | 4 ++++
 sdk/python/lib/pulumi/resource.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sdk/python/lib/pulumi/invoke.py b/sdk/python/lib/pulumi/invoke.py
index 625271b..2f1dfbc 100644
--- a/sdk/python/lib/pulumi/invoke.py
+++ b/sdk/python/lib/pulumi/invoke.py
@@ -126,4 +126,8 @@ class InvokeOptions:
         )
         dest.version = dest.version if source.version is None else source.version
 
+        # The shallow copy still carries the 'merge' of 'opts1'; rebind it to the merged options.
+        # TODO[python/mypy#2427]: mypy disallows method assignment
+        dest.merge = dest._merge_instance  # type: ignore
+
         return dest
diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 33f7923..dae478b 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -709,6 +709,10 @@ class ResourceOptions:
         # collapse that down into .provider form.
         _collapse_providers(dest)
 
+        # The shallow copy still carries the 'merge' of 'opts1'; rebind it to the merged options.
+        # TODO[python/mypy#2427]: mypy disallows method assignment
+        dest.merge = dest._merge_instance  # type: ignore
+
         return dest
 
 
-- 
2.43.0


From 7a3184483112484bc80ed935cdf11189925a5636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:36 +0000
Subject: [PATCH 04/36] fix: merging invoke options without a version keeps the
 first one's version

---
 sdk/python/lib/pulumi/invoke.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/invoke.py b/sdk/python/lib/pulumi/invoke.py
index 2f1dfbc..290b8c0 100644
--- a/sdk/python/lib/pulumi/invoke.py
+++ b/sdk/python/lib/pulumi/invoke.py
@@ -124,7 +124,7 @@ class InvokeOptions:
             if source.plugin_download_url is None
             else source.plugin_download_url
         )
-        dest.version = dest.version if source.version is None else source.version
+        dest.version = source.version or dest.version
 
         # The shallow copy still carries the 'merge' of 'opts1'; rebind it to the merged options.
         # TODO[python/mypy#2427]: mypy disallows method assignment
-- 
2.43.0


From b8a6a57db8f48f9bdb1a44f7fe00ae59eb635bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:34 +0000
Subject: [PATCH 05/36] fix: unknowns inside secrets and output values are kept
 when asked to

---
 sdk/python/lib/pulumi/runtime/rpc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index c59a639..85b92ab 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -538,11 +538,13 @@ def deserialize_properties(
                 "Invalid archive encountered when unmarshalling resource property"
             )
         if props_struct[_special_sig_key] == _special_secret_sig:
-            return wrap_rpc_secret(deserialize_property(props_struct["value"]))
+            return wrap_rpc_secret(
+                deserialize_property(props_struct["value"], keep_unknowns)
+            )
         if props_struct[_special_sig_key] == _special_resource_sig:
             return deserialize_resource(props_struct, keep_unknowns)
         if props_struct[_special_sig_key] == _special_output_value_sig:
-            return deserialize_output_value(props_struct)
+            return deserialize_output_value(props_struct, keep_unknowns)
         raise AssertionError(
             "Unrecognized signature when unmarshalling resource property"
         )
@@ -601,14 +603,16 @@ def deserialize_resource(
     return urn
 
 
-def deserialize_output_value(ref_struct: struct_pb2.Struct) -> "Output[Any]":
+def deserialize_output_value(
+    ref_struct: struct_pb2.Struct, keep_unknowns: Optional[bool] = None
+) -> "Output[Any]":
     is_known = "value" in ref_struct
     is_known_future: "asyncio.Future" = asyncio.Future()
     is_known_future.set_result(is_known)
 
     value = None
     if is_known:
-        value = deserialize_property(ref_struct["value"])
+        value = deserialize_property(ref_struct["value"], keep_unknowns)
     value_future: "asyncio.Future" = asyncio.Future()
     value_future.set_result(value)
 
-- 
2.43.0


From da69fc83bdb208b2a50f2ed3ee93632f6d649dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:42 +0000
Subject: [PATCH 06/36] fix: outputs of read and rehydrated resources settle
 when their state cannot be resolved

---
 sdk/python/lib/pulumi/runtime/resource.py | 111 ++++++++++++++++------
 1 file changed, 80 insertions(+), 31 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 0e68d1f..44b51b5 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -272,26 +272,51 @@ def get_resource(
                 resolve_id(None, True, False, exn)
             raise
 
-        # Otherwise, grab the URN, ID, and output properties and resolve all of them.
-        resp = getattr(resp, "return")
-
-        log.debug(f"getResource completed successfully: ty={ty}, urn={resp['urn']}")
-        resolve_urn(resp["urn"], True, False, None)
-        if resolve_id:
-            # The ID is known if (and only if) it is a non-empty string. If it's either None or an
-            # empty string, we should treat it as unknown. TFBridge in particular is known to send
-            # the empty string as an ID when doing a preview.
-            is_known = bool(resp["id"])
-            resolve_id(resp["id"], is_known, False, None)
-
-        rpc.resolve_outputs(
-            res,
-            resolver.serialized_props,
-            resp["state"],
-            {},
-            resolvers,
-            transform_using_type_metadata,
-        )
+        # Otherwise, grab the URN, ID, and output properties and resolve all of them. As in
+        # `register_resource`, this can throw too; pass the exception on to whatever has not been
+        # resolved yet rather than leaving it pending.
+        resolve_outputs_called = False
+        resolve_id_called = False
+        resolve_urn_called = False
+
+        try:
+            resp = getattr(resp, "return")
+
+            log.debug(f"getResource completed successfully: ty={ty}, urn={resp['urn']}")
+            resolve_urn(resp["urn"], True, False, None)
+            resolve_urn_called = True
+
+            if resolve_id:
+                # The ID is known if (and only if) it is a non-empty string. If it's either None or an
+                # empty string, we should treat it as unknown. TFBridge in particular is known to send
+                # the empty string as an ID when doing a preview.
+                is_known = bool(resp["id"])
+                resolve_id(resp["id"], is_known, False, None)
+                resolve_id_called = True
+
+            rpc.resolve_outputs(
+                res,
+                resolver.serialized_props,
+                resp["state"],
+                {},
+                resolvers,
+                transform_using_type_metadata,
+            )
+            resolve_outputs_called = True
+
+        except Exception as exn:
+            log.debug(f"exception after executing rpc: {traceback.format_exc()}")
+
+            if not resolve_outputs_called:
+                rpc.resolve_outputs_due_to_exception(resolvers, exn)
+
+            if not resolve_urn_called:
+                resolve_urn(None, True, False, exn)
+
+            if resolve_id is not None and not resolve_id_called:
+                resolve_id(None, True, False, exn)
+
+            raise
 
     asyncio.ensure_future(RPC_MANAGER.do_rpc("get resource", do_get)())
 
@@ -451,17 +476,41 @@ def read_resource(
             resolve_id(None, True, False, exn)
             raise
 
-        log.debug(f"resource read successful: ty={ty}, urn={resp.urn}")
-        resolve_urn(resp.urn, True, False, None)
-        resolve_id(resolved_id, True, False, None)  # Read IDs are always known.
-        rpc.resolve_outputs(
-            res,
-            resolver.serialized_props,
-            resp.properties,
-            {},
-            resolvers,
-            transform_using_type_metadata,
-        )
+        # As in `register_resource`, resolving the outputs can throw too; pass the exception on to
+        # whatever has not been resolved yet rather than leaving it pending.
+        resolve_outputs_called = False
+        resolve_id_called = False
+        resolve_urn_called = False
+
+        try:
+            log.debug(f"resource read successful: ty={ty}, urn={resp.urn}")
+            resolve_urn(resp.urn, True, False, None)
+            resolve_urn_called = True
+            resolve_id(resolved_id, True, False, None)  # Read IDs are always known.
+            resolve_id_called = True
+            rpc.resolve_outputs(
+                res,
+                resolver.serialized_props,
+                resp.properties,
+                {},
+                resolvers,
+                transform_using_type_metadata,
+            )
+            resolve_outputs_called = True
+
+        except Exception as exn:
+            log.debug(f"exception after executing rpc: {traceback.format_exc()}")
+
+            if not resolve_outputs_called:
+                rpc.resolve_outputs_due_to_exception(resolvers, exn)
+
+            if not resolve_urn_called:
+                resolve_urn(None, True, False, exn)
+
+            if not resolve_id_called:
+                resolve_id(None, True, False, exn)
+
+            raise
 
     asyncio.ensure_future(RPC_MANAGER.do_rpc("read resource", do_read)())
 
-- 
2.43.0


From bc5005d85715beecf6c8f03f57f19d0a4f37360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:10 +0000
Subject: [PATCH 07/36] fix: an object exported more than once keeps its value
 everywhere

---
 sdk/python/lib/pulumi/runtime/stack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index b789241..0b4a2c6 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -185,7 +185,8 @@ def massage(attr: Any, seen: List[Any]):
         # otherwise just emit as nothing to stop the looping.
         return None
 
-    seen.append(attr)
+    # Each branch has its own trail, so that only true cycles are cut and shared objects are kept.
+    seen = seen + [attr]
 
     # first check if the value is an actual dictionary.  If so, massage the values of it to deeply
     # make sure this is a popo.
-- 
2.43.0


From abae2e2897b81594ae20f0629f43452e14226fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 08/36] fix: component providers see the organization of each
 request

---
 sdk/python/lib/pulumi/provider/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 17315da..a66301e 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -89,6 +89,7 @@ class ProviderServicer(ResourceProviderServicer):
             engine_address=self.engine_address,
             monitor_address=_empty_as_none(request.monitorEndpoint),
             preview=request.dryRun,
+            organization=_empty_as_none(request.organization),
         )
 
         pulumi.runtime.config.set_all_config(
@@ -218,6 +219,7 @@ class ProviderServicer(ResourceProviderServicer):
             engine_address=self.engine_address,
             monitor_address=_empty_as_none(request.monitorEndpoint),
             preview=request.dryRun,
+            organization=_empty_as_none(request.organization),
         )
 
         pulumi.runtime.config.set_all_config(
-- 
2.43.0


From 73131bd635c2521f83733ee2e1eafabba49e437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 09/36] fix: a failed component request no longer fails the
 requests after it

---
 sdk/python/lib/pulumi/provider/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index a66301e..67948d1 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -36,6 +36,7 @@ from pulumi.resource import (
 )
 from pulumi.runtime import known_types, proto, rpc
 from pulumi.runtime.proto import provider_pb2_grpc, ResourceProviderServicer
+from pulumi.runtime.rpc_manager import RPC_MANAGER
 from pulumi.runtime.stack import wait_for_rpcs
 import pulumi
 import pulumi.resource
@@ -91,6 +92,7 @@ class ProviderServicer(ResourceProviderServicer):
             preview=request.dryRun,
             organization=_empty_as_none(request.organization),
         )
+        RPC_MANAGER.clear()
 
         pulumi.runtime.config.set_all_config(
             dict(request.config), request.configSecretKeys
@@ -221,6 +223,7 @@ class ProviderServicer(ResourceProviderServicer):
             preview=request.dryRun,
             organization=_empty_as_none(request.organization),
         )
+        RPC_MANAGER.clear()
 
         pulumi.runtime.config.set_all_config(
             dict(request.config), request.configSecretKeys
-- 
2.43.0


From cdcae1aef547e72de1c2b7318424a7da09850c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 10/36] fix: components constructed by a provider get the
 parent the engine names

---
 sdk/python/lib/pulumi/provider/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 67948d1..43d57b4 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -165,7 +165,7 @@ class ProviderServicer(ResourceProviderServicer):
     @staticmethod
     def _construct_options(request: proto.ConstructRequest) -> pulumi.ResourceOptions:
         parent = None
-        if not _empty_as_none(request.parent):
+        if _empty_as_none(request.parent):
             parent = DependencyResource(request.parent)
         return pulumi.ResourceOptions(
             aliases=list(request.aliases),
-- 
2.43.0


From ab5d51341ddc5360729c6b4be34ff6969cc86d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 11/36] fix: dynamic providers' stable properties reach the
 engine

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 6940155..64d542f 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -82,6 +82,8 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
             ] = proto.DiffResponse.DIFF_UNKNOWN  # pylint: disable=no-member
         if result.replaces is not None:
             fields["replaces"] = result.replaces
+        if result.stables is not None:
+            fields["stables"] = result.stables
         if result.delete_before_replace is not None:
             fields["deleteBeforeReplace"] = result.delete_before_replace
         return proto.DiffResponse(**fields)
-- 
2.43.0


From 2072dc8b73b93e96c53d17620b443a0c29b5cc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 12/36] fix: a dynamic resource whose new provider is unknown
 is checked by its old one

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 64d542f..11bae17 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -21,6 +21,7 @@ import time
 import dill
 import grpc
 from google.protobuf import empty_pb2
+from pulumi.output import Unknown
 from pulumi.runtime import proto, rpc
 from pulumi.runtime.proto import provider_pb2_grpc, ResourceProviderServicer
 from pulumi.dynamic import ResourceProvider
@@ -61,7 +62,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
     def Diff(self, request, context):
         olds = rpc.deserialize_properties(request.olds, True)
         news = rpc.deserialize_properties(request.news, True)
-        if news[PROVIDER_KEY] == rpc.UNKNOWN:
+        if isinstance(news[PROVIDER_KEY], Unknown):
             provider = get_provider(olds)
         else:
             provider = get_provider(news)
@@ -133,7 +134,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
     def Check(self, request, context):
         olds = rpc.deserialize_properties(request.olds, True)
         news = rpc.deserialize_properties(request.news, True)
-        if news[PROVIDER_KEY] == rpc.UNKNOWN:
+        if isinstance(news[PROVIDER_KEY], Unknown):
             provider = get_provider(olds)
         else:
             provider = get_provider(news)
-- 
2.43.0


From 9404e95880c7ac143742cc8381a71b1ee5e87284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 13/36] fix: a dynamic provider may report a resource as gone
 when it is read

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 11bae17..5d5c230 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -176,7 +176,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
         props = rpc.deserialize_properties(request.properties)
         provider = get_provider(props)
         result = provider.read(id_, props)  # pylint: disable=no-member
-        outs = result.outs
+        outs = result.outs if result.outs is not None else {}
         outs[PROVIDER_KEY] = props[PROVIDER_KEY]
 
         loop = asyncio.new_event_loop()
-- 
2.43.0


From b22533e0615278cd1a4fd882584815f3f217c982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 14/36] fix: serializing a dynamic provider leaves the pickler
 as it was

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index b4374eb..ecdd644 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -221,6 +221,7 @@ def serialize_provider(provider: ResourceProvider) -> str:
 
     # See: https://github.com/uqfoundation/dill/issues/481#issuecomment-1133789848
     unsorted_batch_setitems = pickle.Pickler._batch_setitems
+    unsorted_save_dict = pickle.Pickler.save_dict
 
     def batch_set_items_sorted(self, items):
         unsorted_batch_setitems(self, sorted(items))
@@ -244,6 +245,8 @@ def serialize_provider(provider: ResourceProvider) -> str:
         return base64.b64encode(byts).decode("utf-8")
     finally:
         # Restore the original pickler
+        pickle.Pickler._batch_setitems = unsorted_batch_setitems
+        pickle.Pickler.save_dict = unsorted_save_dict
         pickle.Pickler = old_pickler
 
 
-- 
2.43.0


From fbbba446684cd4fa62a81eb830480fa5900ad930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 15/36] fix: creating a dynamic resource no longer changes the
 caller's properties

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index ecdd644..4e3c60b 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -280,7 +280,6 @@ class Resource(CustomResource):
         if PROVIDER_KEY in props:
             raise Exception("A dynamic resource must not define the __provider key")
 
-        props = cast(dict, props)
-        props[PROVIDER_KEY] = serialize_provider(provider)
+        props = {**cast(dict, props), PROVIDER_KEY: serialize_provider(provider)}
 
         super().__init__(f"pulumi-python:{self._resource_type_name}", name, props, opts)
-- 
2.43.0


From 52283c70857e737fcce4ebcb154994c1b6edb4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 16/36] fix: invoking a function with a parent no longer sets
 the provider in the caller's options

---
 sdk/python/lib/pulumi/runtime/invoke.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index de852e4..b70932d 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -70,14 +70,15 @@ def invoke(
 
     async def do_invoke():
         # If a parent was provided, but no provider was provided, use the parent's provider if one was specified.
-        if opts.parent is not None and opts.provider is None:
-            opts.provider = opts.parent.get_provider(tok)
+        provider = opts.provider
+        if opts.parent is not None and provider is None:
+            provider = opts.parent.get_provider(tok)
 
         # Construct a provider reference from the given provider, if one was provided to us.
         provider_ref = None
-        if opts.provider is not None:
-            provider_urn = await opts.provider.urn.future()
-            provider_id = (await opts.provider.id.future()) or rpc.UNKNOWN
+        if provider is not None:
+            provider_urn = await provider.urn.future()
+            provider_id = (await provider.id.future()) or rpc.UNKNOWN
             provider_ref = f"{provider_urn}::{provider_id}"
             log.debug(f"Invoke using provider {provider_ref}")
 
-- 
2.43.0


From 2dd79a73149b8cc74e8b74deacdd92018d0dc354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 17/36] fix: creating a stack no longer changes the caller's
 workspace options

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 84e6837..cdce548 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -15,6 +15,7 @@
 import os
 import tempfile
 import json
+from copy import copy
 from datetime import datetime
 from typing import Optional, List, Mapping, Callable
 from semver import VersionInfo
@@ -560,7 +561,8 @@ def _inline_source_stack_helper(
     init_fn: StackInitializer,
     opts: Optional[LocalWorkspaceOptions] = None,
 ):
-    workspace_options = opts or LocalWorkspaceOptions()
+    # Work on a copy, the caller may use its options for other stacks.
+    workspace_options = copy(opts) if opts else LocalWorkspaceOptions()
     workspace_options.program = program
 
     if not workspace_options.project_settings:
@@ -587,7 +589,8 @@ def _local_source_stack_helper(
     init_fn: StackInitializer,
     opts: Optional[LocalWorkspaceOptions] = None,
 ):
-    workspace_options = opts or LocalWorkspaceOptions()
+    # Work on a copy, the caller may use its options for other stacks.
+    workspace_options = copy(opts) if opts else LocalWorkspaceOptions()
     workspace_options.work_dir = work_dir
 
     ws = LocalWorkspace(**workspace_options.__dict__)
-- 
2.43.0


From b1a6b29e239019293889f30f99f559b652fc9636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 18/36] fix: values the CLI leaves out of its answers are read
 as missing

---
 sdk/python/lib/pulumi/automation/_local_workspace.py |  4 +++-
 sdk/python/lib/pulumi/automation/_stack.py           | 10 +++++++---
 sdk/python/lib/pulumi/automation/_workspace.py       |  4 ++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index cdce548..229cdd5 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -328,7 +328,9 @@ class LocalWorkspace(Workspace):
                 size=plugin_json["size"],
                 last_used_time=datetime.strptime(
                     plugin_json["lastUsedTime"], _DATETIME_FORMAT
-                ),
+                )
+                if "lastUsedTime" in plugin_json
+                else None,
                 install_time=datetime.strptime(
                     plugin_json["installTime"], _DATETIME_FORMAT
                 )
diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 01816aa..a3ab24d 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -61,7 +61,7 @@ class UpdateSummary:
         config: Mapping[str, dict],
         # post-update info
         result: str,
-        end_time: datetime,
+        end_time: Optional[datetime],
         version: Optional[int] = None,
         deployment: Optional[str] = None,
         resource_changes: Optional[OpMap] = None,
@@ -79,7 +79,9 @@ class UpdateSummary:
         for key in config:
             config_value = config[key]
             self.config[key] = ConfigValue(
-                value=config_value["value"], secret=config_value["secret"]
+                # The CLI leaves out the value of a secret that was not asked for.
+                value=config_value.get("value"),
+                secret=config_value["secret"],
             )
 
     def __repr__(self):
@@ -659,7 +661,9 @@ class Stack:
                 environment=summary_json["environment"],
                 config=summary_json["config"],
                 result=summary_json["result"],
-                end_time=datetime.strptime(summary_json["endTime"], _DATETIME_FORMAT),
+                end_time=datetime.strptime(summary_json["endTime"], _DATETIME_FORMAT)
+                if "endTime" in summary_json
+                else None,
                 version=summary_json["version"] if "version" in summary_json else None,
                 deployment=summary_json["Deployment"]
                 if "Deployment" in summary_json
diff --git a/sdk/python/lib/pulumi/automation/_workspace.py b/sdk/python/lib/pulumi/automation/_workspace.py
index 2db0944..dca2c89 100644
--- a/sdk/python/lib/pulumi/automation/_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_workspace.py
@@ -64,7 +64,7 @@ class PluginInfo:
     name: str
     kind: str
     size: int
-    last_used_time: datetime
+    last_used_time: Optional[datetime]
     install_time: Optional[datetime]
     version: Optional[str]
 
@@ -73,7 +73,7 @@ class PluginInfo:
         name: str,
         kind: str,
         size: int,
-        last_used_time: datetime,
+        last_used_time: Optional[datetime],
         install_time: Optional[datetime] = None,
         version: Optional[str] = None,
     ) -> None:
-- 
2.43.0


From 52b4a4fa13aa64ecdb980926d630629a46eef38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 19/36] fix: plugins listed by the automation API have their
 documented last_used_time

---
 sdk/python/lib/pulumi/automation/_workspace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdk/python/lib/pulumi/automation/_workspace.py b/sdk/python/lib/pulumi/automation/_workspace.py
index dca2c89..05140ce 100644
--- a/sdk/python/lib/pulumi/automation/_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_workspace.py
@@ -82,6 +82,7 @@ class PluginInfo:
         self.size = size
         self.install_time = install_time
         self.last_used = last_used_time
+        self.last_used_time = last_used_time
         self.version = version
 
 
-- 
2.43.0


From a590af536e2667603fdc17cd6aa1136f7643b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:54 +0000
Subject: [PATCH 20/36] fix: a log verbosity given to the automation API is
 passed on as text

---
 sdk/python/lib/pulumi/automation/_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index a3ab24d..0745668 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -775,7 +775,7 @@ def _parse_extra_args(**kwargs) -> List[str]:
     if log_flow:
         extra_args.extend(["--logflow"])
     if log_verbosity:
-        extra_args.extend(["--verbose", log_verbosity])
+        extra_args.extend(["--verbose", str(log_verbosity)])
     if log_to_std_err:
         extra_args.extend(["--logtostderr"])
     if tracing:
-- 
2.43.0


From a432a3eb6619b01362072d3f726587d89bdd2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 21/36] fix: the state file of a failed stack import is removed

---
 .../lib/pulumi/automation/_local_workspace.py    | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 229cdd5..6557731 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -349,12 +349,18 @@ class LocalWorkspace(Workspace):
         return Deployment(**state_json)
 
     def import_stack(self, stack_name: str, state: Deployment) -> None:
-        with tempfile.NamedTemporaryFile(mode="w", delete=False) as file:
-            json.dump(state.__dict__, file, indent=4)
-        self._run_pulumi_cmd_sync(
-            ["stack", "import", "--file", file.name, "--stack", stack_name]
+        # The state may hold secrets in plain text: never leave the file behind.
+        file = tempfile.NamedTemporaryFile(  # pylint: disable=consider-using-with
+            mode="w", delete=False
         )
-        os.remove(file.name)
+        try:
+            with file:
+                json.dump(state.__dict__, file, indent=4)
+            self._run_pulumi_cmd_sync(
+                ["stack", "import", "--file", file.name, "--stack", stack_name]
+            )
+        finally:
+            os.remove(file.name)
 
     def stack_outputs(self, stack_name: str) -> OutputMap:
         masked_result = self._run_pulumi_cmd_sync(
-- 
2.43.0


From 21c9fa7ebb4bb68789e08cc2695add3a07f7ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 22/36] fix: the event log watcher ends with its command, and
 nothing an operation starts is left when a later step fails

---
 sdk/python/lib/pulumi/automation/_stack.py | 204 ++++++++++++---------
 1 file changed, 114 insertions(+), 90 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 0745668..9c5bd9b 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -261,50 +261,52 @@ class Stack:
 
         kind = ExecKind.LOCAL.value
         on_exit = None
+        log_watcher_thread = None
+        temp_dir = None
+        stop_watching = threading.Event()
 
-        if program:
-            kind = ExecKind.INLINE.value
-            server = grpc.server(
-                futures.ThreadPoolExecutor(
-                    max_workers=4
-                ),  # pylint: disable=consider-using-with
-                options=_GRPC_CHANNEL_OPTIONS,
-            )
-            language_server = LanguageServer(program)
-            language_pb2_grpc.add_LanguageRuntimeServicer_to_server(
-                language_server, server
-            )
+        try:
+            if program:
+                kind = ExecKind.INLINE.value
+                server = grpc.server(
+                    futures.ThreadPoolExecutor(
+                        max_workers=4
+                    ),  # pylint: disable=consider-using-with
+                    options=_GRPC_CHANNEL_OPTIONS,
+                )
+                language_server = LanguageServer(program)
+                language_pb2_grpc.add_LanguageRuntimeServicer_to_server(
+                    language_server, server
+                )
 
-            port = server.add_insecure_port(address="127.0.0.1:0")
-            server.start()
+                port = server.add_insecure_port(address="127.0.0.1:0")
+                server.start()
 
-            def on_exit_fn():
-                language_server.on_pulumi_exit()
-                server.stop(0)
+                def on_exit_fn():
+                    language_server.on_pulumi_exit()
+                    server.stop(0)
 
-            on_exit = on_exit_fn
+                on_exit = on_exit_fn
 
-            args.append(f"--client=127.0.0.1:{port}")
+                args.append(f"--client=127.0.0.1:{port}")
 
-        args.extend(["--exec-kind", kind])
+            args.extend(["--exec-kind", kind])
 
-        log_watcher_thread = None
-        temp_dir = None
-        if on_event:
-            log_file, temp_dir = _create_log_file("up")
-            args.extend(["--event-log", log_file])
-            log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
-            )
-            log_watcher_thread.start()
+            if on_event:
+                log_file, temp_dir = _create_log_file("up")
+                args.extend(["--event-log", log_file])
+                watcher = threading.Thread(
+                    target=_watch_logs, args=(log_file, on_event, stop_watching)
+                )
+                watcher.start()
+                log_watcher_thread = watcher
 
-        try:
             up_result = self._run_pulumi_cmd_sync(args, on_output)
             outputs = self.outputs()
             summary = self.info(show_secrets)
             assert summary is not None
         finally:
-            _cleanup(temp_dir, log_watcher_thread, on_exit)
+            _cleanup(temp_dir, log_watcher_thread, on_exit, stop_watching)
 
         return UpResult(
             stdout=up_result.stdout,
@@ -374,52 +376,56 @@ class Stack:
 
         kind = ExecKind.LOCAL.value
         on_exit = None
+        log_watcher_thread = None
+        temp_dir = None
+        stop_watching = threading.Event()
 
-        if program:
-            kind = ExecKind.INLINE.value
-            server = grpc.server(
-                futures.ThreadPoolExecutor(
-                    max_workers=4
-                ),  # pylint: disable=consider-using-with
-                options=_GRPC_CHANNEL_OPTIONS,
-            )
-            language_server = LanguageServer(program)
-            language_pb2_grpc.add_LanguageRuntimeServicer_to_server(
-                language_server, server
-            )
-
-            port = server.add_insecure_port(address="127.0.0.1:0")
-            server.start()
-
-            def on_exit_fn():
-                language_server.on_pulumi_exit()
-                server.stop(0)
-
-            on_exit = on_exit_fn
-
-            args.append(f"--client=127.0.0.1:{port}")
-        args.extend(["--exec-kind", kind])
-
-        log_file, temp_dir = _create_log_file("preview")
-        args.extend(["--event-log", log_file])
-        summary_events: List[SummaryEvent] = []
+        try:
+            if program:
+                kind = ExecKind.INLINE.value
+                server = grpc.server(
+                    futures.ThreadPoolExecutor(
+                        max_workers=4
+                    ),  # pylint: disable=consider-using-with
+                    options=_GRPC_CHANNEL_OPTIONS,
+                )
+                language_server = LanguageServer(program)
+                language_pb2_grpc.add_LanguageRuntimeServicer_to_server(
+                    language_server, server
+                )
+
+                port = server.add_insecure_port(address="127.0.0.1:0")
+                server.start()
+
+                def on_exit_fn():
+                    language_server.on_pulumi_exit()
+                    server.stop(0)
+
+                on_exit = on_exit_fn
+
+                args.append(f"--client=127.0.0.1:{port}")
+            args.extend(["--exec-kind", kind])
+
+            log_file, temp_dir = _create_log_file("preview")
+            args.extend(["--event-log", log_file])
+            summary_events: List[SummaryEvent] = []
 
-        def on_event_callback(event: EngineEvent) -> None:
-            if event.summary_event:
-                summary_events.append(event.summary_event)
-            if on_event:
-                on_event(event)
+            def on_event_callback(event: EngineEvent) -> None:
+                if event.summary_event:
+                    summary_events.append(event.summary_event)
+                if on_event:
+                    on_event(event)
 
-        # Start watching logs in a thread
-        log_watcher_thread = threading.Thread(
-            target=_watch_logs, args=(log_file, on_event_callback)
-        )
-        log_watcher_thread.start()
+            # Start watching logs in a thread
+            watcher = threading.Thread(
+                target=_watch_logs, args=(log_file, on_event_callback, stop_watching)
+            )
+            watcher.start()
+            log_watcher_thread = watcher
 
-        try:
             preview_result = self._run_pulumi_cmd_sync(args, on_output)
         finally:
-            _cleanup(temp_dir, log_watcher_thread, on_exit)
+            _cleanup(temp_dir, log_watcher_thread, on_exit, stop_watching)
 
         if not summary_events:
             raise RuntimeError("summary event never found")
@@ -477,18 +483,21 @@ class Stack:
 
         log_watcher_thread = None
         temp_dir = None
-        if on_event:
-            log_file, temp_dir = _create_log_file("refresh")
-            args.extend(["--event-log", log_file])
-            log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
-            )
-            log_watcher_thread.start()
+        stop_watching = threading.Event()
 
         try:
+            if on_event:
+                log_file, temp_dir = _create_log_file("refresh")
+                args.extend(["--event-log", log_file])
+                watcher = threading.Thread(
+                    target=_watch_logs, args=(log_file, on_event, stop_watching)
+                )
+                watcher.start()
+                log_watcher_thread = watcher
+
             refresh_result = self._run_pulumi_cmd_sync(args, on_output)
         finally:
-            _cleanup(temp_dir, log_watcher_thread)
+            _cleanup(temp_dir, log_watcher_thread, stop=stop_watching)
 
         summary = self.info(show_secrets)
         assert summary is not None
@@ -542,18 +551,21 @@ class Stack:
 
         log_watcher_thread = None
         temp_dir = None
-        if on_event:
-            log_file, temp_dir = _create_log_file("destroy")
-            args.extend(["--event-log", log_file])
-            log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
-            )
-            log_watcher_thread.start()
+        stop_watching = threading.Event()
 
         try:
+            if on_event:
+                log_file, temp_dir = _create_log_file("destroy")
+                args.extend(["--event-log", log_file])
+                watcher = threading.Thread(
+                    target=_watch_logs, args=(log_file, on_event, stop_watching)
+                )
+                watcher.start()
+                log_watcher_thread = watcher
+
             destroy_result = self._run_pulumi_cmd_sync(args, on_output)
         finally:
-            _cleanup(temp_dir, log_watcher_thread)
+            _cleanup(temp_dir, log_watcher_thread, stop=stop_watching)
 
         summary = self.info(show_secrets)
         assert summary is not None
@@ -811,18 +823,27 @@ def _create_log_file(command: str) -> Tuple[str, tempfile.TemporaryDirectory]:
     filepath = os.path.join(log_dir.name, "eventlog.txt")
 
     # Open and close the file to ensure it exists before we start polling for logs
-    with open(filepath, "w+", encoding="utf-8"):
-        pass
+    try:
+        with open(filepath, "w+", encoding="utf-8"):
+            pass
+    except BaseException:
+        log_dir.cleanup()
+        raise
     return filepath, log_dir
 
 
-def _watch_logs(filename: str, callback: OnEvent):
+def _watch_logs(filename: str, callback: OnEvent, stop: threading.Event):
     with open(filename, encoding="utf-8") as f:
         while True:
+            # Once the command is over nothing more is written, so what is read after this is all there is.
+            stopped = stop.is_set()
             line = f.readline()
 
             # sleep if file hasn't been updated
             if not line:
+                # a command that fails early never writes a cancel event
+                if stopped:
+                    break
                 time.sleep(0.1)
                 continue
 
@@ -838,11 +859,14 @@ def _cleanup(
     temp_dir: Optional[tempfile.TemporaryDirectory],
     thread: Optional[threading.Thread],
     on_exit_fn: Optional[Callable[[], None]] = None,
+    stop: Optional[threading.Event] = None,
 ) -> None:
     # If there's an on_exit function, execute it (used in preview/up to shut down server)
     if on_exit_fn:
         on_exit_fn()
     # If we started a thread to watch logs, wait for it to terminate, timing out after 5 seconds.
+    if stop:
+        stop.set()
     if thread:
         thread.join(5)
     # If we created a temp_dir for the logs, clean up.
-- 
2.43.0


From 69e60d0c7344da52dc5226a73d0f4c2c40c24e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 23/36] fix: a line of the event log that is still being
 written is completed before it is parsed

---
 sdk/python/lib/pulumi/automation/_stack.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 9c5bd9b..dc6d45f 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -834,6 +834,7 @@ def _create_log_file(command: str) -> Tuple[str, tempfile.TemporaryDirectory]:
 
 def _watch_logs(filename: str, callback: OnEvent, stop: threading.Event):
     with open(filename, encoding="utf-8") as f:
+        partial = ""
         while True:
             # Once the command is over nothing more is written, so what is read after this is all there is.
             stopped = stop.is_set()
@@ -847,6 +848,12 @@ def _watch_logs(filename: str, callback: OnEvent, stop: threading.Event):
                 time.sleep(0.1)
                 continue
 
+            # the rest of a line that is still being written follows
+            partial += line
+            if not partial.endswith("\n"):
+                continue
+            line, partial = partial, ""
+
             event = EngineEvent.from_json(json.loads(line))
             callback(event)
 
-- 
2.43.0


From 1622923956b8d753db403b675ede2bd65e3e2bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 24/36] fix: the stream of a diagnostic event is read from the
 key the engine writes

---
 sdk/python/lib/pulumi/automation/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/events.py b/sdk/python/lib/pulumi/automation/events.py
index 9afae4e..f203e4c 100644
--- a/sdk/python/lib/pulumi/automation/events.py
+++ b/sdk/python/lib/pulumi/automation/events.py
@@ -132,7 +132,7 @@ class DiagnosticEvent(BaseEvent):
             message=data.get("message", ""),
             color=data.get("color", ""),
             severity=data.get("severity", ""),
-            stream_id=data.get("streamId"),
+            stream_id=data.get("streamID"),
             ephemeral=data.get("ephemeral"),
             urn=data.get("urn"),
             prefix=data.get("prefix"),
-- 
2.43.0


From 156b3d79d125017c38c1eb8fa6b69fc9f7c098fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 25/36] fix: the resource of a policy event is read from the
 key the engine writes

---
 sdk/python/lib/pulumi/automation/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/events.py b/sdk/python/lib/pulumi/automation/events.py
index f203e4c..f033b28 100644
--- a/sdk/python/lib/pulumi/automation/events.py
+++ b/sdk/python/lib/pulumi/automation/events.py
@@ -193,7 +193,7 @@ class PolicyEvent(BaseEvent):
             policy_pack_version=data.get("policyPackVersion", ""),
             policy_pack_version_tag=data.get("policyPackVersionTag", ""),
             enforcement_level=data.get("enforcementLevel", ""),
-            resource_urn=data.get("resource_urn"),
+            resource_urn=data.get("resourceUrn"),
         )
 
 
-- 
2.43.0


From 02c5141fad232bf958861ed5ffa5237cfeb29c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 26/36] fix: the detailed diff of a step is decoded

---
 sdk/python/lib/pulumi/automation/events.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/events.py b/sdk/python/lib/pulumi/automation/events.py
index f033b28..e5fa3a1 100644
--- a/sdk/python/lib/pulumi/automation/events.py
+++ b/sdk/python/lib/pulumi/automation/events.py
@@ -437,6 +437,7 @@ class StepEventMetadata(BaseEvent):
     def from_json(cls, data: dict) -> "StepEventMetadata":
         old = data.get("old")
         new = data.get("new")
+        detailed_diff = data.get("detailedDiff")
 
         return cls(
             op=OpType(data.get("op", "")),
@@ -447,7 +448,12 @@ class StepEventMetadata(BaseEvent):
             new=StepEventStateMetadata.from_json(new) if new else None,
             keys=data.get("keys"),
             diffs=data.get("diffs"),
-            detailed_diff=data.get("detailed_diff"),
+            detailed_diff={
+                path: PropertyDiff.from_json(diff)
+                for path, diff in detailed_diff.items()
+            }
+            if detailed_diff is not None
+            else None,
             logical=data.get("logical"),
         )
 
-- 
2.43.0


From 669be8b60bf590811f088ddd9cd9ed6b06de470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 27/36] fix: config values of a stack's settings that are not
 text are kept

---
 sdk/python/lib/pulumi/automation/_stack_settings.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack_settings.py b/sdk/python/lib/pulumi/automation/_stack_settings.py
index 6b467fa..12c34aa 100644
--- a/sdk/python/lib/pulumi/automation/_stack_settings.py
+++ b/sdk/python/lib/pulumi/automation/_stack_settings.py
@@ -50,10 +50,12 @@ class StackSettings:
         if config is not None:
             stack_config: Dict[str, Any] = {}
             for key, val in config.items():
-                if isinstance(val, str):
-                    stack_config[key] = val
-                elif "secure" in val:
+                # As for the CLI, only an object with the single key "secure" is a
+                # secret. Any other value (a number, a list, ...) is kept as it is.
+                if isinstance(val, dict) and list(val) == ["secure"]:
                     stack_config[key] = StackSettingsSecureConfigValue(**val)
+                else:
+                    stack_config[key] = val
             config = stack_config
         return cls(
             secrets_provider=data.get("secretsprovider"),
-- 
2.43.0


From 24601612d90f867061a51c62210dff28a3515c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 28/36] fix: nested project settings are saved as plain data
 and read back, unknown settings are kept

---
 .../lib/pulumi/automation/_local_workspace.py |  8 +-
 .../pulumi/automation/_project_settings.py    | 84 ++++++++++++++++++-
 2 files changed, 85 insertions(+), 7 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 6557731..63c7a90 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -147,11 +147,7 @@ class LocalWorkspace(Workspace):
                 found_ext = ext
                 break
         path = os.path.join(self.work_dir, f"Pulumi{found_ext}")
-        writable_settings = {
-            key: settings.__dict__[key]
-            for key in settings.__dict__
-            if settings.__dict__[key] is not None
-        }
+        writable_settings = settings._serialize()
         with open(path, "w", encoding="utf-8") as file:
             if found_ext == ".json":
                 json.dump(writable_settings, file, indent=4)
@@ -656,7 +652,7 @@ def _load_project_settings(work_dir: str) -> ProjectSettings:
             continue
         with open(project_path, "r", encoding="utf-8") as file:
             settings = json.load(file) if ext == ".json" else yaml.safe_load(file)
-            return ProjectSettings(**settings)
+            return ProjectSettings._deserialize(settings)
     raise FileNotFoundError(
         f"failed to find project settings file in workdir: {work_dir}"
     )
diff --git a/sdk/python/lib/pulumi/automation/_project_settings.py b/sdk/python/lib/pulumi/automation/_project_settings.py
index 33f70af..9df0746 100644
--- a/sdk/python/lib/pulumi/automation/_project_settings.py
+++ b/sdk/python/lib/pulumi/automation/_project_settings.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from typing import Optional, Mapping, Any, Union
+from typing import Optional, Mapping, Any, Union, Dict
 
 
 class ProjectRuntimeInfo:
@@ -25,6 +25,13 @@ class ProjectRuntimeInfo:
         self.name = name
         self.options = options
 
+    @classmethod
+    def _deserialize(cls, data: Mapping[str, Any]):
+        return cls(name=data["name"], options=data.get("options"))
+
+    def _serialize(self) -> Dict[str, Any]:
+        return _without_none(name=self.name, options=self.options)
+
 
 class ProjectTemplateConfigValue:
     """A placeholder config value for a project template."""
@@ -43,6 +50,21 @@ class ProjectTemplateConfigValue:
         self.default = default
         self.secret = secret
 
+    @classmethod
+    def _deserialize(cls, data: Mapping[str, Any]):
+        return cls(
+            description=data.get("description"),
+            default=data.get("default"),
+            secret=data.get("secret", False),
+        )
+
+    def _serialize(self) -> Dict[str, Any]:
+        return _without_none(
+            description=self.description,
+            default=self.default,
+            secret=self.secret or None,
+        )
+
 
 class ProjectTemplate:
     """A template used to seed new stacks created from this project."""
@@ -64,6 +86,26 @@ class ProjectTemplate:
         self.config = config or {}
         self.important = important
 
+    @classmethod
+    def _deserialize(cls, data: Mapping[str, Any]):
+        return cls(
+            description=data.get("description"),
+            quickstart=data.get("quickstart"),
+            config={
+                key: ProjectTemplateConfigValue._deserialize(val or {})
+                for key, val in (data.get("config") or {}).items()
+            },
+            important=data.get("important"),
+        )
+
+    def _serialize(self) -> Dict[str, Any]:
+        return _without_none(
+            description=self.description,
+            quickstart=self.quickstart,
+            config={key: val._serialize() for key, val in self.config.items()} or None,
+            important=self.important,
+        )
+
 
 class ProjectBackend:
     """Configuration for the project's Pulumi state storage backend."""
@@ -73,6 +115,13 @@ class ProjectBackend:
     def __init__(self, url: Optional[str] = None):
         self.url = url
 
+    @classmethod
+    def _deserialize(cls, data: Mapping[str, Any]):
+        return cls(url=data.get("url"))
+
+    def _serialize(self) -> Dict[str, Any]:
+        return _without_none(url=self.url)
+
 
 class ProjectSettings:
     """A Pulumi project manifest. It describes metadata applying to all sub-stacks created from the project."""
@@ -121,3 +170,36 @@ class ProjectSettings:
         self.config = config
         self.template = template
         self.backend = backend
+
+    @classmethod
+    def _deserialize(cls, data: Mapping[str, Any]):
+        values = dict(data)
+        for key, nested in _nested_settings.items():
+            if isinstance(values.get(key), dict):
+                values[key] = nested._deserialize(values[key])
+        # A project may have settings that there is no attribute for. They are kept,
+        # so that saving the settings again does not remove them from the project.
+        unknown = {
+            key: values.pop(key) for key in data if key not in cls.__annotations__
+        }
+        settings = cls(**values)
+        settings.__dict__.update(unknown)
+        return settings
+
+    def _serialize(self) -> Dict[str, Any]:
+        values = {
+            key: val._serialize() if isinstance(val, _nested_settings.get(key, ())) else val
+            for key, val in self.__dict__.items()
+        }
+        return _without_none(**values)
+
+
+_nested_settings: Mapping[str, Any] = {
+    "runtime": ProjectRuntimeInfo,
+    "template": ProjectTemplate,
+    "backend": ProjectBackend,
+}
+
+
+def _without_none(**values: Any) -> Dict[str, Any]:
+    return {key: val for key, val in values.items() if val is not None}
-- 
2.43.0


From 5cf5b397137e390d9daaa6e93d21b360084b0dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 29/36] fix: the root stack is not a parent type in the URNs of
 its children's aliases

---
 sdk/python/lib/pulumi/resource.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index dae478b..5898452 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -1249,6 +1249,22 @@ def create_urn(
     create_urn computes a URN from the combination of a resource name, resource type, optional
     parent, optional project and optional stack.
     """
+    def stack_prefix() -> str:
+        return (
+            "urn:pulumi:"
+            + (stack if stack is not None else get_stack())
+            + "::"
+            + (project if project is not None else get_project())
+            + "::"
+        )
+
+    def child_prefix(parent_urn: str) -> str:
+        prefix = parent_urn[0 : parent_urn.rfind("::")] + "$"
+        if prefix.endswith("::pulumi:pulumi:Stack$"):
+            # Don't prefix the stack type as a parent type.
+            return stack_prefix()
+        return prefix
+
     parent_prefix: Optional[Output[str]] = None
     if parent is not None:
         parent_urn = None
@@ -1257,15 +1273,9 @@ def create_urn(
         else:
             parent_urn = Output.from_input(parent)
 
-        parent_prefix = parent_urn.apply(lambda u: u[0 : u.rfind("::")] + "$")
+        parent_prefix = parent_urn.apply(child_prefix)
     else:
-        if stack is None:
-            stack = get_stack()
-
-        if project is None:
-            project = get_project()
-
-        parent_prefix = Output.from_input("urn:pulumi:" + stack + "::" + project + "::")
+        parent_prefix = Output.from_input(stack_prefix())
 
     all_args = [parent_prefix, type_, name]
     # invariant http://mypy.readthedocs.io/en/latest/common_issues.html#variance
-- 
2.43.0


From 535dc443b9cd712f35c3a21b9c26d14137583a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 30/36] fix: a provider given to a component of another package
 is kept for its own package

---
 sdk/python/lib/pulumi/resource.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 5898452..a329234 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -987,14 +987,17 @@ class Resource:
 
         provider = opts.provider or ambient_provider or parent_provider
 
-        if pkg and opts.provider:
-            if pkg in opts_providers:
-                message = f"There is a conflict between the `provider` field ({pkg}) and a member of the `providers` map"
+        if opts.provider:
+            # The provider is there for the resources of its own package, which is not necessarily the
+            # package of a component it is given to.
+            provider_pkg = opts.provider.package
+            if provider_pkg in opts_providers:
+                message = f"There is a conflict between the `provider` field ({provider_pkg}) and a member of the `providers` map"
                 depreciation = "This will become an error by the end of July 2022. See https://github.com/pulumi/pulumi/issues/8799 for more details"
                 warnings.warn(f"{message} for resource {t}. " + depreciation)
                 log.warn(f"{message}. {depreciation}", resource=self)
             else:
-                opts_providers[pkg] = opts.provider
+                opts_providers[provider_pkg] = opts.provider
 
         # opts_providers takes priority over self._providers
         providers = {**self._providers, **opts_providers}
-- 
2.43.0


From 3f69ee543540bfd10f4c65ef112e4b447b08c0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 31/36] fix: a child added to a component while others wait for
 its children no longer fails them

---
 sdk/python/lib/pulumi/runtime/resource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 44b51b5..a796cb2 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -847,7 +847,8 @@ async def _add_dependency(
     from .. import ComponentResource  # pylint: disable=import-outside-toplevel
 
     if isinstance(res, ComponentResource) and not res._remote:
-        for child in res._childResources:
+        # Children may be added while we wait, so iterate over a copy.
+        for child in res._childResources.copy():
             await _add_dependency(deps, child, from_resource)
         return
 
-- 
2.43.0


From 0d3664f62bea898f4a5747af60337c0b62bd1175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 32/36] fix: a component that depends on its ancestor no longer
 waits for its own children

---
 sdk/python/lib/pulumi/resource.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index a329234..cec8cb7 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -33,6 +33,7 @@ from typing import (
 from . import _types
 from .metadata import get_project, get_stack
 from .runtime import known_types
+from .runtime.resource_cycle_breaker import declare_dependency
 from .runtime.resource import (
     get_resource,
     register_resource,
@@ -899,6 +900,9 @@ class Resource:
             # Add this resource to its parent's set of child resources.
             opts.parent._childResources.add(self)
 
+            # A child waits for its parent's URN, so its parent must never wait for the child.
+            declare_dependency(self, opts.parent)
+
             # Infer protection from parent, if one was provided.
             if opts.protect is None:
                 opts.protect = opts.parent._protect
-- 
2.43.0


From 55b2499feaaf7a69d2a6154766c3b929cb08dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 33/36] fix: a remote component given outputs of its ancestor
 no longer waits for itself

---
 sdk/python/lib/pulumi/runtime/resource.py |  1 +
 sdk/python/lib/pulumi/runtime/rpc.py      | 33 ++++++++++++++++++-----
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index a796cb2..b01cde3 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -127,6 +127,7 @@ async def prepare_resource(
         translate,
         typ,
         keep_output_values=remote,
+        from_resource=res,
     )
 
     # Wait for our parent to resolve
diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index 85b92ab..1420d03 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -166,6 +166,7 @@ async def serialize_properties(
     input_transformer: Optional[Callable[[str], str]] = None,
     typ: Optional[type] = None,
     keep_output_values: Optional[bool] = None,
+    from_resource: Optional["Resource"] = None,
 ) -> struct_pb2.Struct:
     """
     Serializes an arbitrary Input bag into a Protobuf structure, keeping track of the list
@@ -182,6 +183,8 @@ async def serialize_properties(
     :param Dict[str, List[Resource]] property_deps: Dependencies are set here.
 
     :param input_transfomer: Optional name translator.
+
+    :param Resource from_resource: The resource the bag belongs to, if any. It is never waited for.
     """
 
     # Default implementation of get_type that always returns None.
@@ -205,7 +208,7 @@ async def serialize_properties(
         v = inputs[k]
         deps: List["Resource"] = []
         result = await serialize_property(
-            v, deps, input_transformer, get_type(k), keep_output_values
+            v, deps, input_transformer, get_type(k), keep_output_values, from_resource
         )
         # We treat properties that serialize to None as if they don't exist.
         if result is not None:
@@ -232,6 +235,7 @@ async def serialize_property(
     input_transformer: Optional[Callable[[str], str]] = None,
     typ: Optional[type] = None,
     keep_output_values: Optional[bool] = None,
+    from_resource: Optional["Resource"] = None,
 ) -> Any:
     """
     Serializes a single Input into a form suitable for remoting to the engine, awaiting
@@ -240,7 +244,8 @@ async def serialize_property(
     When `typ` is specified, the metadata from the type is used to translate Python snake_case
     names to Pulumi camelCase names, rather than using the `input_transformer`.
 
-    If `keep_output_values` is true and the monitor supports output values, they will be kept.
+    If `keep_output_values` is true and the monitor supports output values, they will be kept. Their
+    dependencies never include `from_resource` or anything that waits for it.
     """
 
     # Set typ to T if it's Optional[T], Input[T], or InputType[T].
@@ -261,7 +266,12 @@ async def serialize_property(
         for elem in value:
             props.append(
                 await serialize_property(
-                    elem, deps, input_transformer, element_type, keep_output_values
+                    elem,
+                    deps,
+                    input_transformer,
+                    element_type,
+                    keep_output_values,
+                    from_resource,
                 )
             )
 
@@ -360,7 +370,12 @@ async def serialize_property(
         awaitable = cast("Any", value)
         future_return = await asyncio.ensure_future(awaitable)
         return await serialize_property(
-            future_return, deps, input_transformer, typ, keep_output_values
+            future_return,
+            deps,
+            input_transformer,
+            typ,
+            keep_output_values,
+            from_resource,
         )
 
     if known_types.is_output(value):
@@ -394,7 +409,7 @@ async def serialize_property(
             promise_deps.extend(set(urn_deps))
             value_resources.update(urn_deps)
 
-            dependencies = await _expand_dependencies(value_resources, None)
+            dependencies = await _expand_dependencies(value_resources, from_resource)
 
             output_value: Dict[str, Any] = {_special_sig_key: _special_output_value_sig}
 
@@ -423,7 +438,12 @@ async def serialize_property(
 
         return {
             k: await serialize_property(
-                v, deps, input_transformer, types.get(k), keep_output_values
+                v,
+                deps,
+                input_transformer,
+                types.get(k),
+                keep_output_values,
+                from_resource,
             )
             for k, v in value.items()
         }
@@ -479,6 +499,7 @@ async def serialize_property(
                 input_transformer,
                 get_type(transformed_key),
                 keep_output_values,
+                from_resource,
             )
 
         return obj
-- 
2.43.0


From 24d8306e58cb767b94a2d3da2dd3181a54d90549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 34/36] fix: a resource may depend on a coroutine that returns
 its dependencies

---
 sdk/python/lib/pulumi/resource.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index cec8cb7..518630a 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -17,6 +17,7 @@
 import asyncio
 import copy
 import warnings
+from inspect import isawaitable
 from typing import (
     Optional,
     List,
@@ -576,7 +577,10 @@ class ResourceOptions:
         self.transformations = transformations
         self.urn = urn
         self.replace_on_changes = replace_on_changes
-        self.depends_on = depends_on
+        # A coroutine can be awaited only once, but the options are read any number of times.
+        self.depends_on = (
+            asyncio.ensure_future(depends_on) if isawaitable(depends_on) else depends_on
+        )
         self.retain_on_delete = retain_on_delete
 
         # Proactively check that `depends_on` values are of type
-- 
2.43.0


From 37016d9d71d2f2e08547e9f3f528b0a8821f9822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:57 +0000
Subject: [PATCH 35/36] fix: a mocked function call may report no failures as
 None

---
 sdk/python/lib/pulumi/runtime/mocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/mocks.py b/sdk/python/lib/pulumi/runtime/mocks.py
index 6615c38..97ec2ce 100644
--- a/sdk/python/lib/pulumi/runtime/mocks.py
+++ b/sdk/python/lib/pulumi/runtime/mocks.py
@@ -192,7 +192,7 @@ class MockMonitor:
         else:
             (ret, failures) = tup[0], [
                 provider_pb2.CheckFailure(property=failure[0], reason=failure[1])
-                for failure in tup[1]
+                for failure in tup[1] or []
             ]
 
         ret_proto = _sync_await(rpc.serialize_properties(ret, {}))
-- 
2.43.0


From 52a8dcb34430d8b2aa7f4c3a288a06e1f92542f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 36/36] fix: mocks answer resource method calls

---
 sdk/python/lib/pulumi/runtime/mocks.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/mocks.py b/sdk/python/lib/pulumi/runtime/mocks.py
index 97ec2ce..3790bab 100644
--- a/sdk/python/lib/pulumi/runtime/mocks.py
+++ b/sdk/python/lib/pulumi/runtime/mocks.py
@@ -183,6 +183,19 @@ class MockMonitor:
             fields = {"failures": None, "return": ret_proto}
             return provider_pb2.InvokeResponse(**fields)
 
+        return provider_pb2.InvokeResponse(**self._call(request, args))
+
+    def Call(self, request):
+        # Ensure we have an event loop on this thread because it's needed when deserializing resource references.
+        _ensure_event_loop()
+
+        args = rpc.deserialize_properties(request.args)
+        return provider_pb2.CallResponse(**self._call(request, args))
+
+    def _call(self, request, args: dict) -> dict:
+        """
+        Hands a function or method call to the mocks and returns the fields of the response.
+        """
         call_args = MockCallArgs(
             token=request.tok, args=args, provider=request.provider
         )
@@ -197,8 +210,7 @@ class MockMonitor:
 
         ret_proto = _sync_await(rpc.serialize_properties(ret, {}))
 
-        fields = {"failures": failures, "return": ret_proto}
-        return provider_pb2.InvokeResponse(**fields)
+        return {"failures": failures, "return": ret_proto}
 
     def ReadResource(self, request):
         # Ensure we have an event loop on this thread because it's needed when deserializing resource references.
-- 
2.43.0

