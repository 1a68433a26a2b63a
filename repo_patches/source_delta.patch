From fb8874d47d4f52082a5e946a3781264d8d1715cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 01/60] fix: let a DependencyResource be the parent of a
 resource

A component provider receives its parent as a DependencyResource, but such a
resource lacked the attributes a parent is asked for (_transformations,
_aliases, _name, _childResources), so constructing any component under it
raised an AttributeError.
---
 sdk/python/lib/pulumi/resource.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 33f7923..9553ca8 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -821,8 +821,12 @@ class Resource:
         """
 
         if dependency:
+            self._name = name
             self._protect = False
             self._providers = {}
+            self._transformations = []
+            self._aliases = []
+            self._childResources = set()
             return
 
         if props is None:
-- 
2.43.0


From 014970b499ef106bcd5af02bc44016eb9f8d701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 02/60] fix: count parents and providers in dependency cycle
 detection

A resource waits for its parent's URN and its provider's reference before it
registers, but the cycle breaker only knew about dependency edges. A component
that depends on its own parent component and has a child
(D; C = child of D, depends_on=[D]; S = child of C) waited for S, which waited
for C: the program hung forever.
---
 sdk/python/lib/pulumi/resource.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 9553ca8..6d8df01 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -40,6 +40,7 @@ from .runtime.resource import (
     read_resource,
     convert_providers,
 )
+from .runtime.resource_cycle_breaker import declare_dependency
 from .runtime.settings import get_root_resource
 from .output import _is_prompt, _map_input, _map2_input, T, Output
 from . import urn as urn_util
@@ -931,6 +932,16 @@ class Resource:
         self._plugin_download_url = opts.plugin_download_url
         self._aliases = all_aliases(opts.aliases, name, t, opts.parent)
 
+        # The registration of this resource waits for its parent and for its providers, so they take part in the
+        # detection of dependency cycles.
+        if opts.parent is not None:
+            declare_dependency(self, opts.parent)
+        if self._provider is not None:
+            declare_dependency(self, self._provider)
+        elif remote:
+            for prov in convert_providers(opts.provider, opts.providers).values():
+                declare_dependency(self, prov)
+
         if opts.urn is not None:
             # This is a resource that already exists. Read its state from the engine.
             get_resource(self, props, custom, opts.urn, typ)
-- 
2.43.0


From 8e23d65bebfe0e07ce0b68cf6976b9207c96d9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 03/60] fix: pass every provider of a remote component to the
 engine

---
 sdk/python/lib/pulumi/runtime/resource.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index b2025eb..9834f78 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -748,18 +748,15 @@ def convert_providers(
     """
     Merge all providers opts (opts.provider and both list and dict forms of opts.providers) into a single dict.
     """
-    if provider is not None:
-        return convert_providers(None, [provider])
-
-    if providers is None:
-        return {}
-
+    result: Dict[str, "ProviderResource"] = {}
     if isinstance(providers, Mapping):
-        return providers
+        result.update(providers)
+    elif providers is not None:
+        for p in providers:
+            result[p.package] = p
 
-    result = {}
-    for p in providers:
-        result[p.package] = p
+    if provider is not None:
+        result[provider.package] = provider
 
     return result
 
-- 
2.43.0


From 495ff6c7ed2eb1805cd25c7a50f0834b4467370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 04/60] fix: do not let output values wait for resources that
 wait for their owner

---
 sdk/python/lib/pulumi/runtime/resource.py |  1 +
 sdk/python/lib/pulumi/runtime/rpc.py      | 31 +++++++++++++++++++----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 9834f78..a22ab09 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -127,6 +127,7 @@ async def prepare_resource(
         translate,
         typ,
         keep_output_values=remote,
+        from_resource=res,
     )
 
     # Wait for our parent to resolve
diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index c59a639..9e870e9 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -166,6 +166,7 @@ async def serialize_properties(
     input_transformer: Optional[Callable[[str], str]] = None,
     typ: Optional[type] = None,
     keep_output_values: Optional[bool] = None,
+    from_resource: Optional["Resource"] = None,
 ) -> struct_pb2.Struct:
     """
     Serializes an arbitrary Input bag into a Protobuf structure, keeping track of the list
@@ -182,6 +183,9 @@ async def serialize_properties(
     :param Dict[str, List[Resource]] property_deps: Dependencies are set here.
 
     :param input_transfomer: Optional name translator.
+
+    :param from_resource: The resource the inputs belong to, if any; output values never wait for resources that wait
+           for this resource.
     """
 
     # Default implementation of get_type that always returns None.
@@ -205,7 +209,7 @@ async def serialize_properties(
         v = inputs[k]
         deps: List["Resource"] = []
         result = await serialize_property(
-            v, deps, input_transformer, get_type(k), keep_output_values
+            v, deps, input_transformer, get_type(k), keep_output_values, from_resource
         )
         # We treat properties that serialize to None as if they don't exist.
         if result is not None:
@@ -232,6 +236,7 @@ async def serialize_property(
     input_transformer: Optional[Callable[[str], str]] = None,
     typ: Optional[type] = None,
     keep_output_values: Optional[bool] = None,
+    from_resource: Optional["Resource"] = None,
 ) -> Any:
     """
     Serializes a single Input into a form suitable for remoting to the engine, awaiting
@@ -261,7 +266,12 @@ async def serialize_property(
         for elem in value:
             props.append(
                 await serialize_property(
-                    elem, deps, input_transformer, element_type, keep_output_values
+                    elem,
+                    deps,
+                    input_transformer,
+                    element_type,
+                    keep_output_values,
+                    from_resource,
                 )
             )
 
@@ -360,7 +370,12 @@ async def serialize_property(
         awaitable = cast("Any", value)
         future_return = await asyncio.ensure_future(awaitable)
         return await serialize_property(
-            future_return, deps, input_transformer, typ, keep_output_values
+            future_return,
+            deps,
+            input_transformer,
+            typ,
+            keep_output_values,
+            from_resource,
         )
 
     if known_types.is_output(value):
@@ -394,7 +409,7 @@ async def serialize_property(
             promise_deps.extend(set(urn_deps))
             value_resources.update(urn_deps)
 
-            dependencies = await _expand_dependencies(value_resources, None)
+            dependencies = await _expand_dependencies(value_resources, from_resource)
 
             output_value: Dict[str, Any] = {_special_sig_key: _special_output_value_sig}
 
@@ -423,7 +438,12 @@ async def serialize_property(
 
         return {
             k: await serialize_property(
-                v, deps, input_transformer, types.get(k), keep_output_values
+                v,
+                deps,
+                input_transformer,
+                types.get(k),
+                keep_output_values,
+                from_resource,
             )
             for k, v in value.items()
         }
@@ -479,6 +499,7 @@ async def serialize_property(
                 input_transformer,
                 get_type(transformed_key),
                 keep_output_values,
+                from_resource,
             )
 
         return obj
-- 
2.43.0


From 62f6c8296983cff260d4c179ed32612420faff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 05/60] fix: tolerate children added to a component while its
 dependents wait

---
 sdk/python/lib/pulumi/runtime/resource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index a22ab09..bd4c9bf 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -798,7 +798,8 @@ async def _add_dependency(
     from .. import ComponentResource  # pylint: disable=import-outside-toplevel
 
     if isinstance(res, ComponentResource) and not res._remote:
-        for child in res._childResources:
+        # Children may be added (by an apply, say) while we wait for the ones before.
+        for child in list(res._childResources):
             await _add_dependency(deps, child, from_resource)
         return
 
-- 
2.43.0


From eb9564de5ed427306d8cbd80b286c771989e40aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:26 +0000
Subject: [PATCH 06/60] fix: wait for tasks that start while outstanding tasks
 are awaited

---
 sdk/python/lib/pulumi/runtime/stack.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index b789241..26b9afd 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -111,9 +111,11 @@ async def wait_for_rpcs(await_all_outstanding_tasks=True) -> None:
 
                 log.debug("All outstanding tasks completed.")
 
-        # Check to see if any more RPCs have been scheduled, and repeat the cycle if so.
-        # Break if no RPCs remain.
-        if len(RPC_MANAGER.rpcs) == 0:
+        # Check to see if any more RPCs have been scheduled (or, if we await them, tasks), and repeat the cycle if so.
+        # Break if none remain.
+        if len(RPC_MANAGER.rpcs) == 0 and not (
+            await_all_outstanding_tasks and _get_running_tasks()
+        ):
             break
 
 
-- 
2.43.0


From dde5144399485c98043e7defe6dadb76269e33a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 07/60] fix: do not let serialisation add to the dependencies
 of shared outputs

---
 sdk/python/lib/pulumi/runtime/rpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index 9e870e9..073d761 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -380,7 +380,7 @@ async def serialize_property(
 
     if known_types.is_output(value):
         output = cast("Output", value)
-        value_resources: Set["Resource"] = await output.resources()
+        value_resources: Set["Resource"] = set(await output.resources())
         deps.extend(value_resources)
 
         # When serializing an Output, we will either serialize it as its resolved value or the
-- 
2.43.0


From 0357176c451648614ad549edff2cecdd337df279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:51 +0000
Subject: [PATCH 08/60] fix: settle the outputs of read and looked-up resources
 when the answer is malformed

---
 sdk/python/lib/pulumi/runtime/resource.py | 86 +++++++++++++++--------
 1 file changed, 58 insertions(+), 28 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index bd4c9bf..cf82bb1 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -273,26 +273,50 @@ def get_resource(
                 resolve_id(None, True, False, exn)
             raise
 
-        # Otherwise, grab the URN, ID, and output properties and resolve all of them.
-        resp = getattr(resp, "return")
-
-        log.debug(f"getResource completed successfully: ty={ty}, urn={resp['urn']}")
-        resolve_urn(resp["urn"], True, False, None)
-        if resolve_id:
-            # The ID is known if (and only if) it is a non-empty string. If it's either None or an
-            # empty string, we should treat it as unknown. TFBridge in particular is known to send
-            # the empty string as an ID when doing a preview.
-            is_known = bool(resp["id"])
-            resolve_id(resp["id"], is_known, False, None)
-
-        rpc.resolve_outputs(
-            res,
-            resolver.serialized_props,
-            resp["state"],
-            {},
-            resolvers,
-            transform_using_type_metadata,
-        )
+        # Otherwise, grab the URN, ID, and output properties and resolve all of them. If the response turns out to be
+        # malformed, reject whatever has not been resolved yet, so that nothing waits for it forever.
+        resolve_outputs_called = False
+        resolve_id_called = False
+        resolve_urn_called = False
+
+        try:
+            resp = getattr(resp, "return")
+
+            log.debug(f"getResource completed successfully: ty={ty}, urn={resp['urn']}")
+            resolve_urn(resp["urn"], True, False, None)
+            resolve_urn_called = True
+
+            if resolve_id is not None:
+                # The ID is known if (and only if) it is a non-empty string. If it's either None or an
+                # empty string, we should treat it as unknown. TFBridge in particular is known to send
+                # the empty string as an ID when doing a preview.
+                is_known = bool(resp["id"])
+                resolve_id(resp["id"], is_known, False, None)
+                resolve_id_called = True
+
+            rpc.resolve_outputs(
+                res,
+                resolver.serialized_props,
+                resp["state"],
+                {},
+                resolvers,
+                transform_using_type_metadata,
+            )
+            resolve_outputs_called = True
+
+        except Exception as exn:
+            log.debug(f"exception after executing rpc: {traceback.format_exc()}")
+
+            if not resolve_outputs_called:
+                rpc.resolve_outputs_due_to_exception(resolvers, exn)
+
+            if not resolve_urn_called:
+                resolve_urn(None, True, False, exn)
+
+            if resolve_id is not None and not resolve_id_called:
+                resolve_id(None, True, False, exn)
+
+            raise
 
     asyncio.ensure_future(RPC_MANAGER.do_rpc("get resource", do_get)())
 
@@ -455,14 +479,20 @@ def read_resource(
         log.debug(f"resource read successful: ty={ty}, urn={resp.urn}")
         resolve_urn(resp.urn, True, False, None)
         resolve_id(resolved_id, True, False, None)  # Read IDs are always known.
-        rpc.resolve_outputs(
-            res,
-            resolver.serialized_props,
-            resp.properties,
-            {},
-            resolvers,
-            transform_using_type_metadata,
-        )
+        try:
+            rpc.resolve_outputs(
+                res,
+                resolver.serialized_props,
+                resp.properties,
+                {},
+                resolvers,
+                transform_using_type_metadata,
+            )
+        except Exception as exn:
+            # The response is malformed: reject its outputs, so that nothing waits for them forever.
+            log.debug(f"exception after executing rpc: {traceback.format_exc()}")
+            rpc.resolve_outputs_due_to_exception(resolvers, exn)
+            raise
 
     asyncio.ensure_future(RPC_MANAGER.do_rpc("read resource", do_read)())
 
-- 
2.43.0


From 8f2c273a5b3e0fec3ce772026ee4c501b20c8944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:14 +0000
Subject: [PATCH 09/60] fix: bind merge of copied and merged options to the
 copy

---
 sdk/python/lib/pulumi/invoke.py   | 8 ++++++++
 sdk/python/lib/pulumi/resource.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/sdk/python/lib/pulumi/invoke.py b/sdk/python/lib/pulumi/invoke.py
index 625271b..9e90c9b 100644
--- a/sdk/python/lib/pulumi/invoke.py
+++ b/sdk/python/lib/pulumi/invoke.py
@@ -74,6 +74,14 @@ class InvokeOptions:
     def _merge_instance(self, opts: "InvokeOptions") -> "InvokeOptions":
         return InvokeOptions.merge(self, opts)
 
+    def __copy__(self) -> "InvokeOptions":
+        # The instance-level `merge` is bound to its instance: a copy needs its own, or else calling it would merge
+        # with the options that were copied.
+        result = self.__class__.__new__(self.__class__)
+        result.__dict__.update(self.__dict__)
+        result.merge = result._merge_instance  # type: ignore
+        return result
+
     # pylint: disable=method-hidden
     @staticmethod
     def merge(
diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 6d8df01..36b4ce5 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -593,6 +593,14 @@ class ResourceOptions:
     def _merge_instance(self, opts: "ResourceOptions") -> "ResourceOptions":
         return ResourceOptions.merge(self, opts)
 
+    def __copy__(self) -> "ResourceOptions":
+        # The instance-level `merge` is bound to its instance: a copy needs its own, or else calling it would merge
+        # with the options that were copied.
+        result = self.__class__.__new__(self.__class__)
+        result.__dict__.update(self.__dict__)
+        result.merge = result._merge_instance  # type: ignore
+        return result
+
     def _depends_on_list(self) -> "Input[List[Input[Resource]]]":
 
         if self.depends_on is None:
-- 
2.43.0


From edfb98a09c785ed074aafbddeb1506b8a7216f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:14 +0000
Subject: [PATCH 10/60] fix: merge sequences other than lists in resource
 options

---
 sdk/python/lib/pulumi/resource.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 36b4ce5..2f90ace 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -735,12 +735,11 @@ def _collapse_providers(opts: "ResourceOptions"):
             opts.providers = None
         else:
             opts.providers = {}
-            if isinstance(providers, list):
+            if isinstance(providers, Mapping):
+                opts.providers.update(providers)
+            else:
                 for prov in providers:
                     opts.providers[prov.package] = prov
-            elif isinstance(providers, dict):
-                for key, prov in providers:
-                    opts.providers[key] = prov
 
 
 def _merge_lists(dest, source):
@@ -750,7 +749,8 @@ def _merge_lists(dest, source):
     if source is None:
         return dest
 
-    return dest + source
+    # Either may be any sequence, e.g. a tuple.
+    return [*dest, *source]
 
 
 # !!! IMPORTANT !!! If you add a new attribute to this type, make sure to verify that ResourceOptions.merge
-- 
2.43.0


From 4d576612f6db02e9dfc508a44d54974474c0bebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:15 +0000
Subject: [PATCH 11/60] fix: accept a coroutine as depends_on

---
 sdk/python/lib/pulumi/resource.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 2f90ace..6f7df94 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -576,7 +576,12 @@ class ResourceOptions:
         self.transformations = transformations
         self.urn = urn
         self.replace_on_changes = replace_on_changes
-        self.depends_on = depends_on
+        # A coroutine can be awaited only once, and depends_on is looked at several times.
+        self.depends_on = (
+            asyncio.ensure_future(depends_on)
+            if asyncio.iscoroutine(depends_on)
+            else depends_on
+        )
         self.retain_on_delete = retain_on_delete
 
         # Proactively check that `depends_on` values are of type
-- 
2.43.0


From e6b31b39124d8514e2ca1cc76b1c1de447d273ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:15 +0000
Subject: [PATCH 12/60] fix: accept outputs as the stack and the project of an
 alias

---
 sdk/python/lib/pulumi/resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 6f7df94..2fbc829 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -1289,7 +1289,7 @@ def create_urn(
         if project is None:
             project = get_project()
 
-        parent_prefix = Output.from_input("urn:pulumi:" + stack + "::" + project + "::")
+        parent_prefix = Output.concat("urn:pulumi:", stack, "::", project, "::")
 
     all_args = [parent_prefix, type_, name]
     # invariant http://mypy.readthedocs.io/en/latest/common_issues.html#variance
-- 
2.43.0


From 6b80f44c7f5c6a1c38b393024e1ef4ab684f37f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:15 +0000
Subject: [PATCH 13/60] fix: read resources by secret and by unknown IDs

---
 sdk/python/lib/pulumi/runtime/resource.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index cf82bb1..0bb61a5 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -420,6 +420,10 @@ def read_resource(
             # provider sense, because a read resource already exists. We do not need to track this
             # dependency.
             resolved_id = await rpc.serialize_property(opts.id, [])
+            # The request has no way to say that the ID is secret, but the ID of the resource is.
+            is_id_secret = rpc.is_rpc_secret(resolved_id)
+            if is_id_secret:
+                resolved_id = rpc.unwrap_rpc_secret(resolved_id)
             log.debug(f"read prepared: ty={ty}, name={name}, id={opts.id}")
 
             # These inputs will end up in the snapshot, so if there are any additional secret
@@ -478,7 +482,8 @@ def read_resource(
 
         log.debug(f"resource read successful: ty={ty}, urn={resp.urn}")
         resolve_urn(resp.urn, True, False, None)
-        resolve_id(resolved_id, True, False, None)  # Read IDs are always known.
+        # The ID is known unless the one that was given is not, in a preview.
+        resolve_id(resolved_id, resolved_id != rpc.UNKNOWN, is_id_secret, None)
         try:
             rpc.resolve_outputs(
                 res,
-- 
2.43.0


From 675995403513d17d28aa9e022d190c8e503c6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:15 +0000
Subject: [PATCH 14/60] fix: refuse transformations that change the parent in
 place

---
 sdk/python/lib/pulumi/resource.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 2fbc829..c347ef6 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -871,6 +871,8 @@ class Resource:
 
         # Before anything else - if there are transformations registered, give them a chance to run to modify the user
         # provided properties and options assigned to this resource.
+        # Transformations may modify the options they are given in place: remember the parent they are not to change.
+        original_parent = opts.parent
         parent = opts.parent
         if parent is None:
             parent = get_root_resource()
@@ -884,7 +886,7 @@ class Resource:
             )
             tres = transformation(args)
             if tres is not None:
-                if tres.opts.parent != opts.parent:
+                if tres.opts.parent != original_parent:
                     # This is currently not allowed because the parent tree is needed to establish what
                     # transformation to apply in the first place, and to compute inheritance of other
                     # resource options in the Resource constructor before transformations are run (so
-- 
2.43.0


From c85c29caf42758f01a2490faea1ea367e3e2da05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:15 +0000
Subject: [PATCH 15/60] fix: apply stack transformations to later children of
 earlier resources

---
 sdk/python/lib/pulumi/resource.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index c347ef6..4bc0022 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -873,14 +873,22 @@ class Resource:
         # provided properties and options assigned to this resource.
         # Transformations may modify the options they are given in place: remember the parent they are not to change.
         original_parent = opts.parent
-        parent = opts.parent
-        if parent is None:
-            parent = get_root_resource()
+        # The transformations of the stack apply to all resources constructed after their registration, also to those
+        # whose parents were constructed before it, so they are not recorded with the parents.
+        stack = get_root_resource()
+        stack_transformations = (
+            (stack._transformations or []) if stack is not None else []
+        )
         parent_transformations = (
-            (parent._transformations or []) if parent is not None else []
+            opts.parent._transformations or []
+            if isinstance(opts.parent, Resource) and opts.parent is not stack
+            else []
         )
-        self._transformations = (opts.transformations or []) + parent_transformations
-        for transformation in self._transformations:
+        self._transformations = [
+            *(opts.transformations or []),
+            *parent_transformations,
+        ]
+        for transformation in [*self._transformations, *stack_transformations]:
             args = ResourceTransformationArgs(
                 resource=self, type_=t, name=name, props=props, opts=opts
             )
-- 
2.43.0


From 5f2a078c954308b3860dbc39718d6e757816d6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:15 +0000
Subject: [PATCH 16/60] fix: merged depends_on outputs are known if both are
 and secret if either is

---
 sdk/python/lib/pulumi/output.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 1dd6f47..5acea37 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -570,11 +570,21 @@ def _map2_output(
         r2 = await o2.resources()
         return r1 | r2
 
+    async def known() -> bool:
+        k1 = await o1.is_known()
+        k2 = await o2.is_known()
+        return k1 and k2
+
+    async def secret() -> bool:
+        s1 = await o1.is_secret()
+        s2 = await o2.is_secret()
+        return s1 or s2
+
     return Output(
         resources=asyncio.ensure_future(res()),
         future=asyncio.ensure_future(fut()),
-        is_known=o1.is_known() and o2.is_known(),
-        is_secret=o2.is_secret() or o2.is_secret(),
+        is_known=asyncio.ensure_future(known()),
+        is_secret=asyncio.ensure_future(secret()),
     )
 
 
-- 
2.43.0


From ac94b823ec37b9e38006683551e1d1c6eb4f241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:46 +0000
Subject: [PATCH 17/60] fix: do not make refused resources children of their
 parents

---
 sdk/python/lib/pulumi/resource.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 4bc0022..e7f9fb3 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -920,9 +920,6 @@ class Resource:
             if not isinstance(opts.parent, Resource):
                 raise TypeError("Resource parent is not a valid Resource")
 
-            # Add this resource to its parent's set of child resources.
-            opts.parent._childResources.add(self)
-
             # Infer protection from parent, if one was provided.
             if opts.protect is None:
                 opts.protect = opts.parent._protect
@@ -980,6 +977,11 @@ class Resource:
                 self, t, name, custom, remote, DependencyResource, props, opts, typ
             )
 
+        # Add this resource to its parent's set of child resources, now that nothing can refuse it any more: resources
+        # that depend on the parent wait for all of its children.
+        if opts.parent is not None:
+            opts.parent._childResources.add(self)
+
     def _get_providers(
         self, t: str, pkg: Optional[str], opts: ResourceOptions
     ) -> Tuple[Optional["ProviderResource"], Mapping[str, "ProviderResource"]]:
-- 
2.43.0


From 8fa8ebf0e83a9ccc00ed1e655b36e7ffb7e82bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:54 +0000
Subject: [PATCH 18/60] fix: send messages about resources that failed

---
 sdk/python/lib/pulumi/log.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/log.py b/sdk/python/lib/pulumi/log.py
index 6a89220..d47d88e 100644
--- a/sdk/python/lib/pulumi/log.py
+++ b/sdk/python/lib/pulumi/log.py
@@ -121,11 +121,15 @@ def _log(engine, severity, message, resource, stream_id, ephemeral):
     # We can log synchronously as long as we haven't been given a resource to attach to. If we have,
     # we have to asynchronously resolve the URN first.
     async def do_log():
-        resolved_urn = await resource.urn.future()
+        # A resource whose construction or registration failed has no URN, but the message is still worth sending.
+        try:
+            resolved_urn = await resource.urn.future()
+        except Exception:
+            resolved_urn = None
         req = engine_pb2.LogRequest(
             severity=severity,
             message=message,
-            urn=resolved_urn,
+            urn=resolved_urn or "",
             streamId=stream_id,
             ephemeral=ephemeral,
         )
-- 
2.43.0


From b3844b1641fdc69346333f357fa6c42a49e38c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:37 +0000
Subject: [PATCH 19/60] fix: leave out aliases that are unknown in a preview

---
 sdk/python/lib/pulumi/runtime/resource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 0bb61a5..0239a13 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -179,7 +179,8 @@ async def prepare_resource(
     aliases: List[Optional[str]] = []
     for alias in res._aliases:
         alias_val = await Output.from_input(alias).future()
-        if not alias_val in aliases:
+        # In a preview an alias may be unknown: then there is nothing to send.
+        if alias_val is not None and not alias_val in aliases:
             aliases.append(alias_val)
 
     return ResourceResolverOperations(
-- 
2.43.0


From e9664b7bcb8db1c6512f1f7d6cc51c355c1c1539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:53 +0000
Subject: [PATCH 20/60] fix: do not let merging invoke options reset the
 version

---
 sdk/python/lib/pulumi/invoke.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/invoke.py b/sdk/python/lib/pulumi/invoke.py
index 9e90c9b..e3a797b 100644
--- a/sdk/python/lib/pulumi/invoke.py
+++ b/sdk/python/lib/pulumi/invoke.py
@@ -47,7 +47,7 @@ class InvokeOptions:
         self,
         parent: Optional["Resource"] = None,
         provider: Optional["ProviderResource"] = None,
-        version: Optional[str] = "",
+        version: Optional[str] = None,
         plugin_download_url: Optional[str] = None,
     ) -> None:
         """
-- 
2.43.0


From 04310524fab14c11d0872305b8dcd2b023e87f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:00 +0000
Subject: [PATCH 21/60] fix: do not record the provider of an invoke in the
 caller's options

---
 sdk/python/lib/pulumi/runtime/invoke.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index de852e4..744dbbb 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -70,14 +70,16 @@ def invoke(
 
     async def do_invoke():
         # If a parent was provided, but no provider was provided, use the parent's provider if one was specified.
-        if opts.parent is not None and opts.provider is None:
-            opts.provider = opts.parent.get_provider(tok)
+        # The options are the caller's, who may use them again for functions of other packages.
+        provider = opts.provider
+        if opts.parent is not None and provider is None:
+            provider = opts.parent.get_provider(tok)
 
         # Construct a provider reference from the given provider, if one was provided to us.
         provider_ref = None
-        if opts.provider is not None:
-            provider_urn = await opts.provider.urn.future()
-            provider_id = (await opts.provider.id.future()) or rpc.UNKNOWN
+        if provider is not None:
+            provider_urn = await provider.urn.future()
+            provider_id = (await provider.id.future()) or rpc.UNKNOWN
             provider_ref = f"{provider_urn}::{provider_id}"
             log.debug(f"Invoke using provider {provider_ref}")
 
-- 
2.43.0


From 2d5478d7f2543694d23b90b10764be0798f77a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:07 +0000
Subject: [PATCH 22/60] fix: results of calls with unknowns in them are unknown

---
 sdk/python/lib/pulumi/runtime/invoke.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index 744dbbb..fd28517 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -238,7 +238,7 @@ def call(
             deps: Set["Resource"] = set()
             ret_obj = getattr(resp, "return")
             if ret_obj:
-                deserialized = rpc.deserialize_properties(ret_obj)
+                deserialized = rpc.deserialize_properties(ret_obj, True)
                 is_known = not rpc.contains_unknowns(deserialized)
 
                 # Keep track of whether we need to mark the resulting output a secret,
-- 
2.43.0


From 0bf986887126abda4964fbe8dc5009184f7f45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:29 +0000
Subject: [PATCH 23/60] Revert "fix: results of calls with unknowns in them are
 unknown"

This reverts commit 2d5478d7f2543694d23b90b10764be0798f77a89.
---
 sdk/python/lib/pulumi/runtime/invoke.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index fd28517..744dbbb 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -238,7 +238,7 @@ def call(
             deps: Set["Resource"] = set()
             ret_obj = getattr(resp, "return")
             if ret_obj:
-                deserialized = rpc.deserialize_properties(ret_obj, True)
+                deserialized = rpc.deserialize_properties(ret_obj)
                 is_known = not rpc.contains_unknowns(deserialized)
 
                 # Keep track of whether we need to mark the resulting output a secret,
-- 
2.43.0


From 62657860d4c34f8524e9dc186e82b77b65e49ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 24/60] fix: export things that appear more than once each time

massage cut off everything it had seen before, not only what contains itself: of an object exported under two names (or
held twice by what is exported), the stack got the second as nothing.
---
 sdk/python/lib/pulumi/runtime/stack.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index 26b9afd..49d36b5 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -176,8 +176,8 @@ def massage(attr: Any, seen: List[Any]):
     if is_primitive(attr):
         return attr
 
-    # from this point on, we have complex objects.  If we see them again, we don't want to emit them
-    # again fully or else we'd loop infinitely.
+    # from this point on, we have complex objects.  If we see them again inside of themselves, we don't
+    # want to emit them again fully or else we'd loop infinitely.
     if reference_contains(attr, seen):
         # Note: for Resources we hit again, emit their urn so cycles can be easily understood in
         # the popo objects.
@@ -187,7 +187,9 @@ def massage(attr: Any, seen: List[Any]):
         # otherwise just emit as nothing to stop the looping.
         return None
 
-    seen.append(attr)
+    # `seen` is what contains the object: the same object may well appear elsewhere (and parts of it are only
+    # looked at once outputs resolve), so this must not be visible outside of it.
+    seen = seen + [attr]
 
     # first check if the value is an actual dictionary.  If so, massage the values of it to deeply
     # make sure this is a popo.
-- 
2.43.0


From 8fec9d04671a5794d17268312153f90164e5d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 25/60] fix: let the name read from a stack reference be a
 coroutine

---
 sdk/python/lib/pulumi/stack_reference.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/stack_reference.py b/sdk/python/lib/pulumi/stack_reference.py
index ab48a81..e38caa0 100644
--- a/sdk/python/lib/pulumi/stack_reference.py
+++ b/sdk/python/lib/pulumi/stack_reference.py
@@ -73,8 +73,10 @@ class StackReference(CustomResource):
 
         :param Input[str] name: The name of the stack output to fetch.
         """
-        value: Output[Any] = Output.all(Output.from_input(name), self.outputs).apply(lambda l: l[1].get(l[0]))  # type: ignore
-        is_secret = ensure_future(self.__is_secret_name(name))
+        # The name is looked at more than once, but an awaitable can only be awaited once.
+        name_output = Output.from_input(name)
+        value: Output[Any] = Output.all(name_output, self.outputs).apply(lambda l: l[1].get(l[0]))  # type: ignore
+        is_secret = ensure_future(self.__is_secret_name(name_output))
 
         return Output(value.resources(), value.future(), value.is_known(), is_secret)
 
@@ -86,8 +88,10 @@ class StackReference(CustomResource):
         :param Input[str] name: The name of the stack output to fetch.
         """
 
-        value = Output.all(Output.from_input(name), self.outputs).apply(lambda l: l[1][l[0]])  # type: ignore
-        is_secret = ensure_future(self.__is_secret_name(name))
+        # The name is looked at more than once, but an awaitable can only be awaited once.
+        name_output = Output.from_input(name)
+        value = Output.all(name_output, self.outputs).apply(lambda l: l[1][l[0]])  # type: ignore
+        is_secret = ensure_future(self.__is_secret_name(name_output))
 
         return Output(value.resources(), value.future(), value.is_known(), is_secret)
 
-- 
2.43.0


From 3cb49ad0ee6b7ef8ffff1f4adc056e0ae47fe57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 26/60] fix: export what coroutines give in the same way as
 what other awaitables give

---
 sdk/python/lib/pulumi/runtime/stack.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index 49d36b5..abd64d0 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -250,6 +250,10 @@ def is_primitive(attr: Any) -> bool:
     if hasattr(attr, "__dict__"):
         return False
 
+    # neither is what will only be known later.
+    if isawaitable(attr):
+        return False
+
     try:
         iter(attr)
         return False
-- 
2.43.0


From 3144f9886e766b777146bae9e61cd49efb76daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 27/60] fix: provider: give the constructed component the
 parent the request names

---
 sdk/python/lib/pulumi/provider/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 17315da..3f18882 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -162,7 +162,7 @@ class ProviderServicer(ResourceProviderServicer):
     @staticmethod
     def _construct_options(request: proto.ConstructRequest) -> pulumi.ResourceOptions:
         parent = None
-        if not _empty_as_none(request.parent):
+        if _empty_as_none(request.parent) is not None:
             parent = DependencyResource(request.parent)
         return pulumi.ResourceOptions(
             aliases=list(request.aliases),
-- 
2.43.0


From 5c3af9e169fcbcdd2128b68e642fd17a5f241451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 28/60] fix: provider: abandon what a request leaves running
 before the next one is served

---
 sdk/python/lib/pulumi/provider/server.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 3f18882..46f45ea 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -36,6 +36,7 @@ from pulumi.resource import (
 )
 from pulumi.runtime import known_types, proto, rpc
 from pulumi.runtime.proto import provider_pb2_grpc, ResourceProviderServicer
+from pulumi.runtime.rpc_manager import RPC_MANAGER
 from pulumi.runtime.stack import wait_for_rpcs
 import pulumi
 import pulumi.resource
@@ -72,8 +73,20 @@ class ProviderServicer(ResourceProviderServicer):
         try:
             return await self._construct(request, context)
         finally:
+            await self._abandon_rpcs()
             self.lock.release()
 
+    @staticmethod
+    async def _abandon_rpcs() -> None:
+        # RPCs are tracked in a global that is shared by all requests: neither RPCs that a failed request leaves behind
+        # nor the record of their failure may reach the request that is served next.
+        rpcs = RPC_MANAGER.rpcs
+        RPC_MANAGER.clear()
+        for outstanding in rpcs:
+            outstanding.cancel()
+        await asyncio.gather(*rpcs, return_exceptions=True)
+        RPC_MANAGER.clear()
+
     async def _construct(
         self, request: proto.ConstructRequest, context
     ) -> proto.ConstructResponse:
@@ -203,6 +216,7 @@ class ProviderServicer(ResourceProviderServicer):
         try:
             return await self._call(request, context)
         finally:
+            await self._abandon_rpcs()
             self.lock.release()
 
     async def _call(self, request: proto.CallRequest, context):
-- 
2.43.0


From e2ae2e858e91841d8b069f11355c5c291fc1602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 29/60] fix: track an RPC from the moment it is started

---
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 24 ++++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index 11d1d26..cc5c37d 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -59,25 +59,35 @@ class RPCManager:
         :return: An awaitable function implementing the RPC
         """
 
-        async def rpc_wrapper(*args, **kwargs):
-            log.debug(f"beginning rpc {name}")
-
-            rpc = asyncio.ensure_future(rpc_function(*args, **kwargs))
-            self.rpcs.append(rpc)
+        async def recorded(*args, **kwargs):
             try:
-                result = await rpc
-                exception = None
+                return await rpc_function(*args, **kwargs)
             except Exception as exn:
                 log.debug("RPC failed with exception:")
                 log.debug(traceback.format_exc())
                 if self.unhandled_exception is None:
                     self.unhandled_exception = exn
                     self.exception_traceback = sys.exc_info()[2]
+                raise
+
+        async def outcome(rpc):
+            try:
+                result = await rpc
+                exception = None
+            except Exception as exn:
                 result = None
                 exception = exn
 
             return result, exception
 
+        def rpc_wrapper(*args, **kwargs):
+            log.debug(f"beginning rpc {name}")
+
+            # The RPC is outstanding from now on, not only once the event loop gets to run it.
+            rpc = asyncio.ensure_future(recorded(*args, **kwargs))
+            self.rpcs.append(rpc)
+            return outcome(rpc)
+
         return rpc_wrapper
 
     def clear(self) -> None:
-- 
2.43.0


From b6d837d4ddc77864666e97dd0558ae33ab12dca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 30/60] fix: mocks: accept a call's answer without failures

---
 sdk/python/lib/pulumi/runtime/mocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/mocks.py b/sdk/python/lib/pulumi/runtime/mocks.py
index 6615c38..97ec2ce 100644
--- a/sdk/python/lib/pulumi/runtime/mocks.py
+++ b/sdk/python/lib/pulumi/runtime/mocks.py
@@ -192,7 +192,7 @@ class MockMonitor:
         else:
             (ret, failures) = tup[0], [
                 provider_pb2.CheckFailure(property=failure[0], reason=failure[1])
-                for failure in tup[1]
+                for failure in tup[1] or []
             ]
 
         ret_proto = _sync_await(rpc.serialize_properties(ret, {}))
-- 
2.43.0


From f0a17eeca56f307b6d317b18db29d70963928191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 31/60] fix: mocks: a resource without an ID can be looked up

---
 sdk/python/lib/pulumi/runtime/mocks.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/mocks.py b/sdk/python/lib/pulumi/runtime/mocks.py
index 97ec2ce..9ef7455 100644
--- a/sdk/python/lib/pulumi/runtime/mocks.py
+++ b/sdk/python/lib/pulumi/runtime/mocks.py
@@ -177,9 +177,10 @@ class MockMonitor:
             registered_resource = self.resources.get(args["urn"])
             if registered_resource is None:
                 raise Exception(f"unknown resource {args['urn']}")
-            ret_proto = _sync_await(
-                rpc.serialize_properties(registered_resource._asdict(), {})
-            )
+            registered = registered_resource._asdict()
+            # A resource without an ID has an empty one in the engine's state.
+            registered["id"] = registered["id"] or ""
+            ret_proto = _sync_await(rpc.serialize_properties(registered, {}))
             fields = {"failures": None, "return": ret_proto}
             return provider_pb2.InvokeResponse(**fields)
 
-- 
2.43.0


From a49e31a659261c6418252e26f4bbb96eb7569b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 32/60] fix: run blocking calls with the caller's settings

---
 sdk/python/lib/pulumi/runtime/invoke.py   | 11 ++++++++---
 sdk/python/lib/pulumi/runtime/resource.py |  8 ++++----
 sdk/python/lib/pulumi/runtime/settings.py | 17 ++++++++++++++---
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index 744dbbb..5b90949 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -24,7 +24,12 @@ from ..invoke import InvokeOptions
 from ..runtime.proto import provider_pb2, resource_pb2
 from . import rpc
 from .rpc_manager import RPC_MANAGER
-from .settings import get_monitor, grpc_error_to_exception, handle_grpc_error
+from .settings import (
+    get_monitor,
+    grpc_error_to_exception,
+    handle_grpc_error,
+    run_in_executor,
+)
 from .sync_await import _sync_await
 
 if TYPE_CHECKING:
@@ -106,7 +111,7 @@ def invoke(
             except grpc.RpcError as exn:
                 return None, grpc_error_to_exception(exn)
 
-        resp, error = await asyncio.get_event_loop().run_in_executor(None, do_invoke)
+        resp, error = await run_in_executor(do_invoke)
         log.debug(f"Invoking function completed: tok={tok}, error={error}")
 
         # If the invoke failed, raise an error.
@@ -221,7 +226,7 @@ def call(
                     handle_grpc_error(exn)
                     return None
 
-            resp = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+            resp = await run_in_executor(do_rpc_call)
             if resp is None:
                 return
 
diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 0239a13..8c934c9 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -256,7 +256,7 @@ def get_resource(
                     handle_grpc_error(exn)
                     return None
 
-            resp = await asyncio.get_event_loop().run_in_executor(None, do_invoke)
+            resp = await settings.run_in_executor(do_invoke)
 
             # If the invoke failed, raise an error.
             if resp.failures:
@@ -470,7 +470,7 @@ def read_resource(
                     handle_grpc_error(exn)
                     return None
 
-            resp = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+            resp = await settings.run_in_executor(do_rpc_call)
 
         except Exception as exn:
             log.debug(
@@ -641,7 +641,7 @@ def register_resource(
                     handle_grpc_error(exn)
                     return None
 
-            resp = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+            resp = await settings.run_in_executor(do_rpc_call)
         except Exception as exn:
             log.debug(
                 f"exception when preparing or executing rpc: {traceback.format_exc()}"
@@ -739,7 +739,7 @@ def register_resource_outputs(
                 handle_grpc_error(exn)
                 return None
 
-        await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+        await settings.run_in_executor(do_rpc_call)
         log.debug(
             f"resource registration successful: urn={urn}, props={serialized_props}"
         )
diff --git a/sdk/python/lib/pulumi/runtime/settings.py b/sdk/python/lib/pulumi/runtime/settings.py
index 6dfd4d9..affeb0d 100644
--- a/sdk/python/lib/pulumi/runtime/settings.py
+++ b/sdk/python/lib/pulumi/runtime/settings.py
@@ -18,9 +18,9 @@ Runtime settings and configuration.
 from __future__ import annotations
 
 import asyncio
-from contextvars import ContextVar
+from contextvars import ContextVar, copy_context
 import os
-from typing import Optional, Union, Any, TYPE_CHECKING
+from typing import Callable, Optional, Union, Any, TYPE_CHECKING
 
 import grpc
 from ..runtime.proto import engine_pb2_grpc, resource_pb2, resource_pb2_grpc
@@ -225,6 +225,17 @@ def set_root_resource(root: "Resource"):
     ROOT.set(root)
 
 
+async def run_in_executor(func: Callable[[], Any]) -> Any:
+    """
+    Runs the given blocking function on another thread, in a copy of the current context. Settings live in context
+    variables, which another thread would not see otherwise. A monitor that is implemented in-process (as by mocks)
+    needs them.
+    """
+    return await asyncio.get_event_loop().run_in_executor(
+        None, copy_context().run, func
+    )
+
+
 async def monitor_supports_feature(feature: str) -> bool:
     if feature not in SETTINGS.feature_support:
         monitor = SETTINGS.monitor
@@ -245,7 +256,7 @@ async def monitor_supports_feature(feature: str) -> bool:
                     handle_grpc_error(exn)
                 return False
 
-        result = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+        result = await run_in_executor(do_rpc_call)
         SETTINGS.feature_support[feature] = result
 
     return SETTINGS.feature_support[feature]
-- 
2.43.0


From 4b741c12aca0cb42792d51a2f2e646e551670436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 33/60] fix: provider: wait for RPCs that were only just
 started

Instead of tracking them sooner: that made programs that fail leave their other
tasks running, where they used to be cancelled.
---
 sdk/python/lib/pulumi/provider/server.py     |  8 +++++++
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 24 ++++++--------------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 46f45ea..fac2aca 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -124,6 +124,10 @@ class ProviderServicer(ResourceProviderServicer):
         #
         # Do not await all tasks as that starts hanging waiting for
         # indefinite grpc.aio servier tasks.
+        #
+        # RPCs count as outstanding once the event loop has run them for the
+        # first time: let it do so first.
+        await asyncio.sleep(0)
         await wait_for_rpcs(await_all_outstanding_tasks=False)
 
         return response
@@ -250,6 +254,10 @@ class ProviderServicer(ResourceProviderServicer):
         #
         # Do not await all tasks as that starts hanging waiting for
         # indefinite grpc.aio servier tasks.
+        #
+        # RPCs count as outstanding once the event loop has run them for the
+        # first time: let it do so first.
+        await asyncio.sleep(0)
         await wait_for_rpcs(await_all_outstanding_tasks=False)
 
         return response
diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index cc5c37d..11d1d26 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -59,35 +59,25 @@ class RPCManager:
         :return: An awaitable function implementing the RPC
         """
 
-        async def recorded(*args, **kwargs):
+        async def rpc_wrapper(*args, **kwargs):
+            log.debug(f"beginning rpc {name}")
+
+            rpc = asyncio.ensure_future(rpc_function(*args, **kwargs))
+            self.rpcs.append(rpc)
             try:
-                return await rpc_function(*args, **kwargs)
+                result = await rpc
+                exception = None
             except Exception as exn:
                 log.debug("RPC failed with exception:")
                 log.debug(traceback.format_exc())
                 if self.unhandled_exception is None:
                     self.unhandled_exception = exn
                     self.exception_traceback = sys.exc_info()[2]
-                raise
-
-        async def outcome(rpc):
-            try:
-                result = await rpc
-                exception = None
-            except Exception as exn:
                 result = None
                 exception = exn
 
             return result, exception
 
-        def rpc_wrapper(*args, **kwargs):
-            log.debug(f"beginning rpc {name}")
-
-            # The RPC is outstanding from now on, not only once the event loop gets to run it.
-            rpc = asyncio.ensure_future(recorded(*args, **kwargs))
-            self.rpcs.append(rpc)
-            return outcome(rpc)
-
         return rpc_wrapper
 
     def clear(self) -> None:
-- 
2.43.0


From a417499c02503976285a0d16474100bf644aa048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 34/60] fix: provider: abandon also what a failed request only
 just started

---
 sdk/python/lib/pulumi/provider/server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index fac2aca..8db5cd7 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -79,7 +79,9 @@ class ProviderServicer(ResourceProviderServicer):
     @staticmethod
     async def _abandon_rpcs() -> None:
         # RPCs are tracked in a global that is shared by all requests: neither RPCs that a failed request leaves behind
-        # nor the record of their failure may reach the request that is served next.
+        # nor the record of their failure may reach the request that is served next. Let the event loop run those that
+        # were only just started, so that they are among them.
+        await asyncio.sleep(0)
         rpcs = RPC_MANAGER.rpcs
         RPC_MANAGER.clear()
         for outstanding in rpcs:
-- 
2.43.0


From e3110c3d9ed9a41bfb6446f74c0d5c2ceef0c7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:26 +0000
Subject: [PATCH 35/60] fix: provider: forget also failures that are recorded
 late

---
 sdk/python/lib/pulumi/provider/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 8db5cd7..091d59d 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -87,6 +87,8 @@ class ProviderServicer(ResourceProviderServicer):
         for outstanding in rpcs:
             outstanding.cancel()
         await asyncio.gather(*rpcs, return_exceptions=True)
+        # (gather does not suspend if they all are done, but their failures are recorded by other tasks)
+        await asyncio.sleep(0)
         RPC_MANAGER.clear()
 
     async def _construct(
-- 
2.43.0


From e965316dc637d5498abbb389f41fcde8500b8ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 36/60] fix: keep the whole name of a URN whose name contains
 the separator

---
 sdk/python/lib/pulumi/urn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/urn.py b/sdk/python/lib/pulumi/urn.py
index 1ff912c..a670b58 100644
--- a/sdk/python/lib/pulumi/urn.py
+++ b/sdk/python/lib/pulumi/urn.py
@@ -23,7 +23,8 @@ _UrnParts = namedtuple(
 def _parse_urn(urn: str) -> _UrnParts:
     try:
         urn_parts = urn.split("::")
-        urn_name = urn_parts[3] if len(urn_parts) >= 4 else ""
+        # A name may contain the separator.
+        urn_name = "::".join(urn_parts[3:])
         qualified_type = urn_parts[2]
         typ = qualified_type.split("$")[-1]
         typ_parts = typ.split(":")
-- 
2.43.0


From 0a12abec4f81bec11fa1f4bb52d0b367bf7c1da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 37/60] fix: a configuration value that is null is a value

---
 sdk/python/lib/pulumi/config.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/sdk/python/lib/pulumi/config.py b/sdk/python/lib/pulumi/config.py
index 4c2f75b..501751e 100644
--- a/sdk/python/lib/pulumi/config.py
+++ b/sdk/python/lib/pulumi/config.py
@@ -278,10 +278,10 @@ class Config:
         :rtype: Optional[Any]
         :raises ConfigTypeError: The configuration value existed but couldn't be coerced to float.
         """
-        config_candidate = self._get_object(
-            key, self.get_secret_object, self.get_object
-        )
-        return config_candidate if config_candidate is not None else default
+        # The value may be null.
+        if self._get(key, self.get_secret_object, self.get_object) is None:
+            return default
+        return self._get_object(key, self.get_secret_object, self.get_object)
 
     def get_secret_object(
         self, key: str, default: Optional[Any] = None
@@ -298,11 +298,10 @@ class Config:
         :rtype: Optional[Any]
         :raises ConfigTypeError: The configuration value existed but couldn't be coerced to float.
         """
-        config_candidate = self._get_object(key)
-        v = config_candidate if config_candidate is not None else default
-        if v is None:
-            return None
-        return Output.secret(v)
+        # The value may be null.
+        if self._get(key) is not None:
+            return Output.secret(self._get_object(key))
+        return Output.secret(default) if default is not None else None
 
     def _require(
         self,
@@ -454,10 +453,10 @@ class Config:
         use: Optional[Callable] = None,
         instead_of: Optional[Callable] = None,
     ) -> Any:
-        v = self._get_object(key, use, instead_of)
-        if v is None:
+        # The value may be null.
+        if self._get(key, use, instead_of) is None:
             raise ConfigMissingError(self.full_key(key))
-        return v
+        return self._get_object(key, use, instead_of)
 
     def require_object(self, key: str) -> Any:
         """
-- 
2.43.0


From 28f6351044a92c3706ccb28bf7a6e76aa0201da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 38/60] fix: undo the patches of the pickler once a provider is
 serialized

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index b4374eb..e0c1ad2 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -220,6 +220,7 @@ def serialize_provider(provider: ResourceProvider) -> str:
     pickle.Pickler = pickle._Pickler  # pylint: disable=protected-access
 
     # See: https://github.com/uqfoundation/dill/issues/481#issuecomment-1133789848
+    unsorted_save_dict = pickle.Pickler.save_dict
     unsorted_batch_setitems = pickle.Pickler._batch_setitems
 
     def batch_set_items_sorted(self, items):
@@ -244,6 +245,8 @@ def serialize_provider(provider: ResourceProvider) -> str:
         return base64.b64encode(byts).decode("utf-8")
     finally:
         # Restore the original pickler
+        pickle.Pickler._batch_setitems = unsorted_batch_setitems
+        pickle.Pickler.save_dict = unsorted_save_dict
         pickle.Pickler = old_pickler
 
 
-- 
2.43.0


From 6b6447588470485ea81bf6d42da6147270130bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 39/60] fix: a dynamic resource leaves the caller's properties
 alone

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index e0c1ad2..b5673b3 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -280,7 +280,7 @@ class Resource(CustomResource):
         if PROVIDER_KEY in props:
             raise Exception("A dynamic resource must not define the __provider key")
 
-        props = cast(dict, props)
-        props[PROVIDER_KEY] = serialize_provider(provider)
+        # The caller's bag is left as it is: it may be used for other resources as well.
+        props = {**cast(dict, props), PROVIDER_KEY: serialize_provider(provider)}
 
         super().__init__(f"pulumi-python:{self._resource_type_name}", name, props, opts)
-- 
2.43.0


From 696e7e0f0925a2341b2318bfac2093b86e17565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 40/60] fix: dynamic providers with sets, or with keys of
 several types, are serialized the same way every time

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 51 +++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index b5673b3..b3c295d 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -209,6 +209,25 @@ class ResourceProvider:
         pass
 
 
+def _sort_key(value: Any) -> Any:
+    """
+    An order for values of any type, which doesn't depend on how Python happens to iterate over them.
+    """
+    kind = f"{type(value).__module__}.{type(value).__qualname__}"
+    if isinstance(value, (set, frozenset)):
+        return kind, str(sorted(str(_sort_key(v)) for v in value))
+    if isinstance(value, tuple):
+        return kind, str([_sort_key(v) for v in value])
+    return kind, repr(value)
+
+
+def _sorted_items(items: Any) -> List[Any]:
+    items = list(items)
+    if all(isinstance(k, str) for k, _ in items):
+        return sorted(items, key=lambda item: item[0])
+    return sorted(items, key=lambda item: _sort_key(item[0]))
+
+
 # TODO[python/mypy#1102]: mypy doesn't currently support multiline comments
 # multiple errors related to the type assignment we're doing in this method eg 'Picker = _Pickler'
 @no_type_check
@@ -223,8 +242,8 @@ def serialize_provider(provider: ResourceProvider) -> str:
     unsorted_save_dict = pickle.Pickler.save_dict
     unsorted_batch_setitems = pickle.Pickler._batch_setitems
 
-    def batch_set_items_sorted(self, items):
-        unsorted_batch_setitems(self, sorted(items))
+    def batch_set_items_sorted(self, items, *args, **kwargs):
+        unsorted_batch_setitems(self, _sorted_items(items), *args, **kwargs)
 
     pickle.Pickler._batch_setitems = batch_set_items_sorted
 
@@ -239,12 +258,40 @@ def serialize_provider(provider: ResourceProvider) -> str:
 
     pickle.Pickler.save_dict = save_dict_sorted
 
+    # Sets have no order of their own, and that of strings differs from process to process.
+    dispatch = dill.Pickler.dispatch
+    unsorted_sets = {t: dispatch[t] for t in (set, frozenset) if t in dispatch}
+
+    def save_set_sorted(self, obj):
+        items = sorted(obj, key=_sort_key)
+        if self.proto < 4:
+            self.save_reduce(type(obj), (items,), obj=obj)
+            return
+        if isinstance(obj, set):
+            self.write(pickle.EMPTY_SET)
+            self.memoize(obj)
+        self.write(pickle.MARK)
+        for item in items:
+            self.save(item)
+        if isinstance(obj, set):
+            self.write(pickle.ADDITEMS)
+        elif id(obj) in self.memo:
+            # One of the items refers to the set, which was written with it.
+            self.write(pickle.POP_MARK + self.get(self.memo[id(obj)][0]))
+        else:
+            self.write(pickle.FROZENSET)
+            self.memoize(obj)
+
+    for t in unsorted_sets:
+        dispatch[t] = save_set_sorted
+
     # Use dill to recursively pickle the provider and store base64 encoded form
     try:
         byts = dill.dumps(provider, protocol=pickle.DEFAULT_PROTOCOL, recurse=True)
         return base64.b64encode(byts).decode("utf-8")
     finally:
         # Restore the original pickler
+        dispatch.update(unsorted_sets)
         pickle.Pickler._batch_setitems = unsorted_batch_setitems
         pickle.Pickler.save_dict = unsorted_save_dict
         pickle.Pickler = old_pickler
-- 
2.43.0


From ace141a8a008dd7a0d0cf533041d5a90c44fd94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 41/60] fix: dynamic provider server: send stables, accept
 results without optional parts, recognise a provider that is not known yet

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 6940155..4d687af 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -21,7 +21,7 @@ import time
 import dill
 import grpc
 from google.protobuf import empty_pb2
-from pulumi.runtime import proto, rpc
+from pulumi.runtime import known_types, proto, rpc
 from pulumi.runtime.proto import provider_pb2_grpc, ResourceProviderServicer
 from pulumi.dynamic import ResourceProvider
 
@@ -61,7 +61,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
     def Diff(self, request, context):
         olds = rpc.deserialize_properties(request.olds, True)
         news = rpc.deserialize_properties(request.news, True)
-        if news[PROVIDER_KEY] == rpc.UNKNOWN:
+        if known_types.is_unknown(news[PROVIDER_KEY]):
             provider = get_provider(olds)
         else:
             provider = get_provider(news)
@@ -82,6 +82,8 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
             ] = proto.DiffResponse.DIFF_UNKNOWN  # pylint: disable=no-member
         if result.replaces is not None:
             fields["replaces"] = result.replaces
+        if result.stables is not None:
+            fields["stables"] = result.stables
         if result.delete_before_replace is not None:
             fields["deleteBeforeReplace"] = result.delete_before_replace
         return proto.DiffResponse(**fields)
@@ -131,14 +133,14 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
     def Check(self, request, context):
         olds = rpc.deserialize_properties(request.olds, True)
         news = rpc.deserialize_properties(request.news, True)
-        if news[PROVIDER_KEY] == rpc.UNKNOWN:
+        if known_types.is_unknown(news[PROVIDER_KEY]):
             provider = get_provider(olds)
         else:
             provider = get_provider(news)
 
         result = provider.check(olds, news)  # pylint: disable=no-member
-        inputs = result.inputs
-        failures = result.failures
+        inputs = result.inputs if result.inputs is not None else news
+        failures = result.failures if result.failures is not None else []
 
         inputs[PROVIDER_KEY] = news[PROVIDER_KEY]
 
@@ -173,7 +175,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
         props = rpc.deserialize_properties(request.properties)
         provider = get_provider(props)
         result = provider.read(id_, props)  # pylint: disable=no-member
-        outs = result.outs
+        outs = result.outs if result.outs is not None else {}
         outs[PROVIDER_KEY] = props[PROVIDER_KEY]
 
         loop = asyncio.new_event_loop()
-- 
2.43.0


From 2243d9eae316423d09ce6c6afdef48e3f5ecc3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 42/60] fix: Output.from_input keeps the data of input types
 that are dicts or have nothing set

---
 sdk/python/lib/pulumi/output.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 5acea37..60097e6 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -287,10 +287,11 @@ class Output(Generic[T_co]):
         # Is it an input type (i.e. args class)? Recurse into the values within.
         typ = type(val)
         if _types.is_input_type(typ):
-            # We know that any input type can safely be decomposed into it's `__dict__`, and then reconstructed
-            # via `type(**d)` from the (unwrapped) properties.
-            o_typ: Output[typ] = Output.all(**val.__dict__).apply(  # type:ignore
-                lambda d: typ(**d)
+            # We know that any input type can safely be decomposed into it's `__dict__` (or, if it is a dict, its
+            # entries), and then reconstructed via `type(**d)` from the (unwrapped) properties, if there are any.
+            fields = _types.input_type_to_untranslated_dict(val)
+            o_typ: Output[typ] = Output.all(**fields).apply(  # type:ignore
+                lambda d: typ(**d) if d else typ()
             )
             return cast(Output[T_co], o_typ)
 
-- 
2.43.0


From ed4bcd767c7f851606a5cf92f26b1bf26a264e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 43/60] fix: look for unknowns inside typed inputs and outputs

---
 sdk/python/lib/pulumi/runtime/rpc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index 073d761..d607a8e 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -1005,6 +1005,9 @@ def contains_unknowns(val: Any) -> bool:
                 return any((impl(val[k], stack) for k in val))
             if isinstance(val, list):
                 return any((impl(x, stack) for x in val))
+            # Input and output types that aren't dicts keep their values in their `__dict__`.
+            if _types.is_input_type(type(val)) or _types.is_output_type(type(val)):
+                return any((impl(x, stack) for x in val.__dict__.values()))
         return False
 
     return impl(val, [])
-- 
2.43.0


From c96053fde577d518b132744c99576483b6d552ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 44/60] fix: log_verbosity is passed to the CLI as text

---
 sdk/python/lib/pulumi/automation/_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 01816aa..e2c5c6a 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -771,7 +771,7 @@ def _parse_extra_args(**kwargs) -> List[str]:
     if log_flow:
         extra_args.extend(["--logflow"])
     if log_verbosity:
-        extra_args.extend(["--verbose", log_verbosity])
+        extra_args.extend(["--verbose", str(log_verbosity)])
     if log_to_std_err:
         extra_args.extend(["--logtostderr"])
     if tracing:
-- 
2.43.0


From 3361b3601991e1f754efe2ed915c974533fb84a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 45/60] fix: read updates in progress and updates with hidden
 secrets from the history

---
 sdk/python/lib/pulumi/automation/_stack.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index e2c5c6a..b2c3aa6 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -24,7 +24,7 @@ from typing import List, Any, Mapping, MutableMapping, Optional, Callable, Tuple
 import grpc
 
 from ._cmd import CommandResult, _run_pulumi_cmd, OnOutput
-from ._config import ConfigValue, ConfigMap
+from ._config import ConfigValue, ConfigMap, _SECRET_SENTINEL
 from .errors import StackAlreadyExistsError
 from .events import OpMap, EngineEvent, SummaryEvent
 from ._output import OutputMap
@@ -61,7 +61,7 @@ class UpdateSummary:
         config: Mapping[str, dict],
         # post-update info
         result: str,
-        end_time: datetime,
+        end_time: Optional[datetime] = None,
         version: Optional[int] = None,
         deployment: Optional[str] = None,
         resource_changes: Optional[OpMap] = None,
@@ -78,8 +78,10 @@ class UpdateSummary:
         self.config: ConfigMap = {}
         for key in config:
             config_value = config[key]
+            # The values of secrets are left out unless they are asked for.
             self.config[key] = ConfigValue(
-                value=config_value["value"], secret=config_value["secret"]
+                value=config_value.get("value", _SECRET_SENTINEL),
+                secret=config_value["secret"],
             )
 
     def __repr__(self):
@@ -659,7 +661,9 @@ class Stack:
                 environment=summary_json["environment"],
                 config=summary_json["config"],
                 result=summary_json["result"],
-                end_time=datetime.strptime(summary_json["endTime"], _DATETIME_FORMAT),
+                end_time=datetime.strptime(summary_json["endTime"], _DATETIME_FORMAT)
+                if "endTime" in summary_json
+                else None,
                 version=summary_json["version"] if "version" in summary_json else None,
                 deployment=summary_json["Deployment"]
                 if "Deployment" in summary_json
-- 
2.43.0


From fecf22bba48426ae2b476d7edeeacc82cd4975cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 46/60] fix: read every field of the engine's events under the
 name it has

---
 sdk/python/lib/pulumi/automation/events.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/events.py b/sdk/python/lib/pulumi/automation/events.py
index 9afae4e..e5fa3a1 100644
--- a/sdk/python/lib/pulumi/automation/events.py
+++ b/sdk/python/lib/pulumi/automation/events.py
@@ -132,7 +132,7 @@ class DiagnosticEvent(BaseEvent):
             message=data.get("message", ""),
             color=data.get("color", ""),
             severity=data.get("severity", ""),
-            stream_id=data.get("streamId"),
+            stream_id=data.get("streamID"),
             ephemeral=data.get("ephemeral"),
             urn=data.get("urn"),
             prefix=data.get("prefix"),
@@ -193,7 +193,7 @@ class PolicyEvent(BaseEvent):
             policy_pack_version=data.get("policyPackVersion", ""),
             policy_pack_version_tag=data.get("policyPackVersionTag", ""),
             enforcement_level=data.get("enforcementLevel", ""),
-            resource_urn=data.get("resource_urn"),
+            resource_urn=data.get("resourceUrn"),
         )
 
 
@@ -437,6 +437,7 @@ class StepEventMetadata(BaseEvent):
     def from_json(cls, data: dict) -> "StepEventMetadata":
         old = data.get("old")
         new = data.get("new")
+        detailed_diff = data.get("detailedDiff")
 
         return cls(
             op=OpType(data.get("op", "")),
@@ -447,7 +448,12 @@ class StepEventMetadata(BaseEvent):
             new=StepEventStateMetadata.from_json(new) if new else None,
             keys=data.get("keys"),
             diffs=data.get("diffs"),
-            detailed_diff=data.get("detailed_diff"),
+            detailed_diff={
+                path: PropertyDiff.from_json(diff)
+                for path, diff in detailed_diff.items()
+            }
+            if detailed_diff is not None
+            else None,
             logical=data.get("logical"),
         )
 
-- 
2.43.0


From 9161645f4dc5e791698692e815536d17d168d5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 47/60] fix: stop watching the event log when the command has
 ended, and wait for whole lines

---
 sdk/python/lib/pulumi/automation/_stack.py | 48 ++++++++++++++--------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index b2c3aa6..a8c0ca5 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -15,7 +15,6 @@
 import json
 import os
 import tempfile
-import time
 import threading
 from concurrent import futures
 from enum import Enum
@@ -290,11 +289,12 @@ class Stack:
 
         log_watcher_thread = None
         temp_dir = None
+        command_ended = threading.Event()
         if on_event:
             log_file, temp_dir = _create_log_file("up")
             args.extend(["--event-log", log_file])
             log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
+                target=_watch_logs, args=(log_file, on_event, command_ended)
             )
             log_watcher_thread.start()
 
@@ -304,7 +304,7 @@ class Stack:
             summary = self.info(show_secrets)
             assert summary is not None
         finally:
-            _cleanup(temp_dir, log_watcher_thread, on_exit)
+            _cleanup(temp_dir, log_watcher_thread, command_ended, on_exit)
 
         return UpResult(
             stdout=up_result.stdout,
@@ -411,15 +411,16 @@ class Stack:
                 on_event(event)
 
         # Start watching logs in a thread
+        command_ended = threading.Event()
         log_watcher_thread = threading.Thread(
-            target=_watch_logs, args=(log_file, on_event_callback)
+            target=_watch_logs, args=(log_file, on_event_callback, command_ended)
         )
         log_watcher_thread.start()
 
         try:
             preview_result = self._run_pulumi_cmd_sync(args, on_output)
         finally:
-            _cleanup(temp_dir, log_watcher_thread, on_exit)
+            _cleanup(temp_dir, log_watcher_thread, command_ended, on_exit)
 
         if not summary_events:
             raise RuntimeError("summary event never found")
@@ -477,18 +478,19 @@ class Stack:
 
         log_watcher_thread = None
         temp_dir = None
+        command_ended = threading.Event()
         if on_event:
             log_file, temp_dir = _create_log_file("refresh")
             args.extend(["--event-log", log_file])
             log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
+                target=_watch_logs, args=(log_file, on_event, command_ended)
             )
             log_watcher_thread.start()
 
         try:
             refresh_result = self._run_pulumi_cmd_sync(args, on_output)
         finally:
-            _cleanup(temp_dir, log_watcher_thread)
+            _cleanup(temp_dir, log_watcher_thread, command_ended)
 
         summary = self.info(show_secrets)
         assert summary is not None
@@ -542,18 +544,19 @@ class Stack:
 
         log_watcher_thread = None
         temp_dir = None
+        command_ended = threading.Event()
         if on_event:
             log_file, temp_dir = _create_log_file("destroy")
             args.extend(["--event-log", log_file])
             log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
+                target=_watch_logs, args=(log_file, on_event, command_ended)
             )
             log_watcher_thread.start()
 
         try:
             destroy_result = self._run_pulumi_cmd_sync(args, on_output)
         finally:
-            _cleanup(temp_dir, log_watcher_thread)
+            _cleanup(temp_dir, log_watcher_thread, command_ended)
 
         summary = self.info(show_secrets)
         assert summary is not None
@@ -816,17 +819,25 @@ def _create_log_file(command: str) -> Tuple[str, tempfile.TemporaryDirectory]:
     return filepath, log_dir
 
 
-def _watch_logs(filename: str, callback: OnEvent):
-    with open(filename, encoding="utf-8") as f:
+def _watch_logs(filename: str, callback: OnEvent, command_ended: threading.Event):
+    with open(filename, "rb") as f:
+        line = b""
         while True:
-            line = f.readline()
-
-            # sleep if file hasn't been updated
-            if not line:
-                time.sleep(0.1)
+            # If the command has ended before this read, nothing is written after it.
+            ended = command_ended.is_set()
+            chunk = f.readline()
+            line += chunk
+
+            # sleep if file hasn't been updated, or only in part
+            if not line.endswith(b"\n"):
+                if not chunk:
+                    if ended:
+                        break
+                    command_ended.wait(0.1)
                 continue
 
-            event = EngineEvent.from_json(json.loads(line))
+            event = EngineEvent.from_json(json.loads(line.decode("utf-8")))
+            line = b""
             callback(event)
 
             # if this is the cancel event, stop watching logs.
@@ -837,11 +848,14 @@ def _watch_logs(filename: str, callback: OnEvent):
 def _cleanup(
     temp_dir: Optional[tempfile.TemporaryDirectory],
     thread: Optional[threading.Thread],
+    command_ended: threading.Event,
     on_exit_fn: Optional[Callable[[], None]] = None,
 ) -> None:
     # If there's an on_exit function, execute it (used in preview/up to shut down server)
     if on_exit_fn:
         on_exit_fn()
+    # Let the thread that watches logs know that there are no more to come.
+    command_ended.set()
     # If we started a thread to watch logs, wait for it to terminate, timing out after 5 seconds.
     if thread:
         thread.join(5)
-- 
2.43.0


From a56e8161ff511bdf35c5f1bbd3c3bb7deb633196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 48/60] fix: remove the file of a stack import that fails

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 84e6837..399d275 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -348,10 +348,12 @@ class LocalWorkspace(Workspace):
     def import_stack(self, stack_name: str, state: Deployment) -> None:
         with tempfile.NamedTemporaryFile(mode="w", delete=False) as file:
             json.dump(state.__dict__, file, indent=4)
-        self._run_pulumi_cmd_sync(
-            ["stack", "import", "--file", file.name, "--stack", stack_name]
-        )
-        os.remove(file.name)
+        try:
+            self._run_pulumi_cmd_sync(
+                ["stack", "import", "--file", file.name, "--stack", stack_name]
+            )
+        finally:
+            os.remove(file.name)
 
     def stack_outputs(self, stack_name: str) -> OutputMap:
         masked_result = self._run_pulumi_cmd_sync(
-- 
2.43.0


From de9af991d013bb0f41f244182898c0b1bd327d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 49/60] fix: keep structured configuration values of stack
 settings

---
 sdk/python/lib/pulumi/automation/_stack_settings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack_settings.py b/sdk/python/lib/pulumi/automation/_stack_settings.py
index 6b467fa..753b1a4 100644
--- a/sdk/python/lib/pulumi/automation/_stack_settings.py
+++ b/sdk/python/lib/pulumi/automation/_stack_settings.py
@@ -50,10 +50,10 @@ class StackSettings:
         if config is not None:
             stack_config: Dict[str, Any] = {}
             for key, val in config.items():
-                if isinstance(val, str):
-                    stack_config[key] = val
-                elif "secure" in val:
+                if isinstance(val, dict) and list(val) == ["secure"]:
                     stack_config[key] = StackSettingsSecureConfigValue(**val)
+                else:
+                    stack_config[key] = val
             config = stack_config
         return cls(
             secrets_provider=data.get("secretsprovider"),
-- 
2.43.0


From 085711939c320adf2690639e690ba79ee909bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 50/60] fix: project settings with structured fields can be
 written and read back

---
 .../lib/pulumi/automation/_local_workspace.py |  8 +--
 .../pulumi/automation/_project_settings.py    | 50 ++++++++++++++++++-
 2 files changed, 51 insertions(+), 7 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 399d275..c93607c 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -146,11 +146,7 @@ class LocalWorkspace(Workspace):
                 found_ext = ext
                 break
         path = os.path.join(self.work_dir, f"Pulumi{found_ext}")
-        writable_settings = {
-            key: settings.__dict__[key]
-            for key in settings.__dict__
-            if settings.__dict__[key] is not None
-        }
+        writable_settings = settings._serialize()
         with open(path, "w", encoding="utf-8") as file:
             if found_ext == ".json":
                 json.dump(writable_settings, file, indent=4)
@@ -647,7 +643,7 @@ def _load_project_settings(work_dir: str) -> ProjectSettings:
             continue
         with open(project_path, "r", encoding="utf-8") as file:
             settings = json.load(file) if ext == ".json" else yaml.safe_load(file)
-            return ProjectSettings(**settings)
+            return ProjectSettings._deserialize(settings)
     raise FileNotFoundError(
         f"failed to find project settings file in workdir: {work_dir}"
     )
diff --git a/sdk/python/lib/pulumi/automation/_project_settings.py b/sdk/python/lib/pulumi/automation/_project_settings.py
index 33f70af..a3ef97f 100644
--- a/sdk/python/lib/pulumi/automation/_project_settings.py
+++ b/sdk/python/lib/pulumi/automation/_project_settings.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from typing import Optional, Mapping, Any, Union
+from typing import Optional, Mapping, Any, Dict, Union
 
 
 class ProjectRuntimeInfo:
@@ -121,3 +121,51 @@ class ProjectSettings:
         self.config = config
         self.template = template
         self.backend = backend
+
+    @classmethod
+    def _deserialize(cls, data: dict):
+        settings = dict(data)
+        runtime = settings.get("runtime")
+        if isinstance(runtime, dict):
+            settings["runtime"] = ProjectRuntimeInfo(**runtime)
+        template = settings.get("template")
+        if isinstance(template, dict):
+            template = dict(template)
+            config = template.get("config")
+            if config is not None:
+                template["config"] = {
+                    key: ProjectTemplateConfigValue(**val)
+                    if isinstance(val, dict)
+                    else val
+                    for key, val in config.items()
+                }
+            settings["template"] = ProjectTemplate(**template)
+        backend = settings.get("backend")
+        if isinstance(backend, dict):
+            settings["backend"] = ProjectBackend(**backend)
+        return cls(**settings)
+
+    def _serialize(self) -> Dict[str, Any]:
+        return _serialize_value(self)
+
+
+def _serialize_value(val: Any) -> Any:
+    """Renders settings as plain data, leaving out what is not set."""
+    if isinstance(
+        val,
+        (
+            ProjectSettings,
+            ProjectRuntimeInfo,
+            ProjectTemplate,
+            ProjectTemplateConfigValue,
+            ProjectBackend,
+        ),
+    ):
+        return {
+            key: _serialize_value(field)
+            for key, field in val.__dict__.items()
+            if field is not None
+        }
+    if isinstance(val, Mapping):
+        return {key: _serialize_value(field) for key, field in val.items()}
+    return val
-- 
2.43.0


From d61ffaa4099ec3758f0dc2d6413777424d2ede2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 51/60] fix: leave the caller's workspace options as they are

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index c93607c..5bf34ae 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -15,6 +15,7 @@
 import os
 import tempfile
 import json
+from copy import copy
 from datetime import datetime
 from typing import Optional, List, Mapping, Callable
 from semver import VersionInfo
@@ -558,7 +559,8 @@ def _inline_source_stack_helper(
     init_fn: StackInitializer,
     opts: Optional[LocalWorkspaceOptions] = None,
 ):
-    workspace_options = opts or LocalWorkspaceOptions()
+    # The caller may use the same options for other stacks.
+    workspace_options = copy(opts) if opts else LocalWorkspaceOptions()
     workspace_options.program = program
 
     if not workspace_options.project_settings:
@@ -585,7 +587,8 @@ def _local_source_stack_helper(
     init_fn: StackInitializer,
     opts: Optional[LocalWorkspaceOptions] = None,
 ):
-    workspace_options = opts or LocalWorkspaceOptions()
+    # The caller may use the same options for other stacks.
+    workspace_options = copy(opts) if opts else LocalWorkspaceOptions()
     workspace_options.work_dir = work_dir
 
     ws = LocalWorkspace(**workspace_options.__dict__)
-- 
2.43.0


From 1455fd3896822ccc093fd820cdcab66fddc0e17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 52/60] fix: an inline program starts with the configuration it
 was given alone

---
 sdk/python/lib/pulumi/automation/_server.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index a714e3b..a1c9d01 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -58,9 +58,8 @@ class LanguageServer(LanguageRuntimeServicer):
             organization=request.organization,
         )
 
-        if request.config:
-            secret_keys = request.configSecretKeys if request.configSecretKeys else None
-            set_all_config(request.config, secret_keys)
+        # An empty configuration has to replace what an earlier run left as well.
+        set_all_config(request.config, request.configSecretKeys)
 
         # The strategy here is derived from sdk/python/cmd/pulumi-language-python-exec
         result = language_pb2.RunResponse()
-- 
2.43.0


From d69865e98e1f82da575eb64316879ed1c2a02583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 53/60] fix: a task that is cancelled does not replace the
 result of an inline program

---
 sdk/python/lib/pulumi/automation/_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index a1c9d01..82f46ce 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -105,7 +105,8 @@ class LanguageServer(LanguageRuntimeServicer):
             log.debug(f"Cancelling {len(pending)} tasks.")
             for task in pending:
                 task.cancel()
-                with suppress(asyncio.CancelledError):
+                # Whatever a cancelled task raises must not replace the result of the run.
+                with suppress(asyncio.CancelledError, Exception, SystemExit):
                     loop.run_until_complete(task)
             loop.close()
             sys.stdout.flush()
-- 
2.43.0


From 6ce9f95a5a3d13af6bdf5ab06eb9be3f02fabe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 54/60] fix: the settings of an inline program are reset where
 it ran, not where it was started from

---
 sdk/python/lib/pulumi/automation/_server.py | 7 ++-----
 sdk/python/lib/pulumi/automation/_stack.py  | 2 --
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index 82f46ce..8e9cfbe 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -35,11 +35,6 @@ class LanguageServer(LanguageRuntimeServicer):
     def __init__(self, program: PulumiFn) -> None:
         self.program = program  # type: ignore
 
-    @staticmethod
-    def on_pulumi_exit():
-        # Reset globals
-        reset_options()
-
     def GetRequiredPlugins(self, request, context):
         return language_pb2.GetRequiredPluginsResponse()
 
@@ -112,6 +107,8 @@ class LanguageServer(LanguageRuntimeServicer):
             sys.stdout.flush()
             sys.stderr.flush()
             RPC_MANAGER.clear()
+            # Reset globals
+            reset_options()
 
         return result
 
diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index a8c0ca5..333b1a0 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -278,7 +278,6 @@ class Stack:
             server.start()
 
             def on_exit_fn():
-                language_server.on_pulumi_exit()
                 server.stop(0)
 
             on_exit = on_exit_fn
@@ -392,7 +391,6 @@ class Stack:
             server.start()
 
             def on_exit_fn():
-                language_server.on_pulumi_exit()
                 server.stop(0)
 
             on_exit = on_exit_fn
-- 
2.43.0


From ec5f1ab3ee19d0af41d27e5a9e29edfdd2c229c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 55/60] fix: inline programs that run at the same time do not
 share their outstanding RPCs

---
 sdk/python/lib/pulumi/automation/_server.py  |  3 +
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 65 ++++++++++++++------
 2 files changed, 48 insertions(+), 20 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index 8e9cfbe..2d86fe3 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -41,6 +41,9 @@ class LanguageServer(LanguageRuntimeServicer):
     def Run(self, request, context):
         _suppress_unobserved_task_logging()
 
+        # Other inline programs may be running in other threads.
+        RPC_MANAGER.isolate()
+
         # Configure the runtime so that the user program hooks up to Pulumi as appropriate.
         engine_address = request.args[0] if request.args else ""
         reset_options(
diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index 11d1d26..402db19 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -14,35 +14,57 @@
 import asyncio
 import sys
 import traceback
+from contextvars import ContextVar
 from typing import Callable, Awaitable, Tuple, Any, Optional, List
 from .. import log
 
 
+class _RPCState:
+    def __init__(self):
+        self.clear()
+
+    def clear(self) -> None:
+        self.rpcs: List[Awaitable] = []
+        self.unhandled_exception: Optional[Exception] = None
+        self.exception_traceback: Optional[Any] = None
+
+
 class RPCManager:
     """
     RPCManager is responsible for keeping track of RPCs that are dispatched
     throughout the course of a Pulumi program. It records exceptions that occur
     when performing RPC calls and keeps track of whether or not there are any
     outstanding RPCs.
-    """
 
-    rpcs: List[Awaitable]
-    """
-    The active RPCs.
+    Inline programs may run at the same time, each in a context of its own: what is tracked for one of them
+    is kept apart from the others by `isolate`.
     """
 
-    unhandled_exception: Optional[Exception]
-    """
-    The first unhandled exception encountered during an RPC, if any occurs.
-    """
+    def __init__(self):
+        self._state: ContextVar[_RPCState] = ContextVar(
+            "rpc_state", default=_RPCState()
+        )
 
-    exception_traceback: Optional[Any]
-    """
-    The traceback associated with unhandled_exception, if any.
-    """
+    @property
+    def rpcs(self) -> List[Awaitable]:
+        """
+        The active RPCs.
+        """
+        return self._state.get().rpcs
 
-    def __init__(self):
-        self.clear()
+    @property
+    def unhandled_exception(self) -> Optional[Exception]:
+        """
+        The first unhandled exception encountered during an RPC, if any occurs.
+        """
+        return self._state.get().unhandled_exception
+
+    @property
+    def exception_traceback(self) -> Optional[Any]:
+        """
+        The traceback associated with unhandled_exception, if any.
+        """
+        return self._state.get().exception_traceback
 
     def do_rpc(
         self, name: str, rpc_function: Callable[..., Awaitable[Tuple[Any, Exception]]]
@@ -70,9 +92,10 @@ class RPCManager:
             except Exception as exn:
                 log.debug("RPC failed with exception:")
                 log.debug(traceback.format_exc())
-                if self.unhandled_exception is None:
-                    self.unhandled_exception = exn
-                    self.exception_traceback = sys.exc_info()[2]
+                state = self._state.get()
+                if state.unhandled_exception is None:
+                    state.unhandled_exception = exn
+                    state.exception_traceback = sys.exc_info()[2]
                 result = None
                 exception = exn
 
@@ -82,9 +105,11 @@ class RPCManager:
 
     def clear(self) -> None:
         """Clears any tracked state."""
-        self.rpcs = []
-        self.exception_traceback = None
-        self.unhandled_exception = None
+        self._state.get().clear()
+
+    def isolate(self) -> None:
+        """Starts tracking afresh in the current context, and in those that are copied from it from now on."""
+        self._state.set(_RPCState())
 
 
 RPC_MANAGER: RPCManager = RPCManager()
-- 
2.43.0


From 5fccdf2d6b359804d6f8a8426f81a9890af3eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 56/60] fix: an inline program that ends by sys.exit does not
 leave the CLI waiting for ever

---
 sdk/python/lib/pulumi/automation/_server.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index 2d86fe3..5805c7a 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -81,13 +81,16 @@ class LanguageServer(LanguageRuntimeServicer):
                 log.error(msg)
                 result.error = msg
                 return result
-        except Exception as exn:
-            msg = str(
-                f"python inline source runtime error: {exn}\n{traceback.format_exc()}"
-            )
-            log.error(msg)
-            result.error = msg
-            return result
+        except (Exception, SystemExit) as exn:
+            # A program may end itself by sys.exit(), which is an error unless it says otherwise. It must not get
+            # past here: the thread that serves this request would end, and the request never be answered.
+            if not isinstance(exn, SystemExit) or exn.code:
+                msg = str(
+                    f"python inline source runtime error: {exn}\n{traceback.format_exc()}"
+                )
+                log.error(msg)
+                result.error = msg
+                return result
         finally:
             # If there's an exception during `run_in_stack`, it may result in pending asyncio tasks remaining unresolved
             # at the time the loop is closed, which results in a `Task was destroyed but it is pending!` error being
-- 
2.43.0


From a67e8dea23d6c58151b5a3adf02cd6727a07aa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 57/60] fix: PluginInfo has the last_used_time it declares

---
 sdk/python/lib/pulumi/automation/_workspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/python/lib/pulumi/automation/_workspace.py b/sdk/python/lib/pulumi/automation/_workspace.py
index 2db0944..59aec73 100644
--- a/sdk/python/lib/pulumi/automation/_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_workspace.py
@@ -81,6 +81,8 @@ class PluginInfo:
         self.kind = kind
         self.size = size
         self.install_time = install_time
+        self.last_used_time = last_used_time
+        # Kept for those that rely on the name it had.
         self.last_used = last_used_time
         self.version = version
 
-- 
2.43.0


From da9553e65165bc846720d290e14c6b020e4d585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 58/60] fix: plugins that were never used can be listed

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 4 +++-
 sdk/python/lib/pulumi/automation/_workspace.py       | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 5bf34ae..7c1f6c9 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -324,7 +324,9 @@ class LocalWorkspace(Workspace):
                 size=plugin_json["size"],
                 last_used_time=datetime.strptime(
                     plugin_json["lastUsedTime"], _DATETIME_FORMAT
-                ),
+                )
+                if "lastUsedTime" in plugin_json
+                else None,
                 install_time=datetime.strptime(
                     plugin_json["installTime"], _DATETIME_FORMAT
                 )
diff --git a/sdk/python/lib/pulumi/automation/_workspace.py b/sdk/python/lib/pulumi/automation/_workspace.py
index 59aec73..70730b3 100644
--- a/sdk/python/lib/pulumi/automation/_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_workspace.py
@@ -64,7 +64,7 @@ class PluginInfo:
     name: str
     kind: str
     size: int
-    last_used_time: datetime
+    last_used_time: Optional[datetime]
     install_time: Optional[datetime]
     version: Optional[str]
 
@@ -73,7 +73,7 @@ class PluginInfo:
         name: str,
         kind: str,
         size: int,
-        last_used_time: datetime,
+        last_used_time: Optional[datetime],
         install_time: Optional[datetime] = None,
         version: Optional[str] = None,
     ) -> None:
-- 
2.43.0


From ea6edb4fcf26fd17e1498fcf4c199af72c9501f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 59/60] fix: a CLI that prints no version is reported as such

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 7c1f6c9..9dc0535 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -372,7 +372,7 @@ class LocalWorkspace(Workspace):
     def _get_pulumi_version(self) -> str:
         result = self._run_pulumi_cmd_sync(["version"])
         version_string = result.stdout.strip()
-        if version_string[0] == "v":
+        if version_string.startswith("v"):
             version_string = version_string[1:]
         return version_string
 
-- 
2.43.0


From 689a310b92605b4fc4c0d68e8cb3b56e58520d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 60/60] fix: arguments of a program that look like the
 launcher's own are passed to it

---
 sdk/python/cmd/pulumi-language-python-exec | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/cmd/pulumi-language-python-exec b/sdk/python/cmd/pulumi-language-python-exec
index bac77d0..7bfb3ad 100755
--- a/sdk/python/cmd/pulumi-language-python-exec
+++ b/sdk/python/cmd/pulumi-language-python-exec
@@ -63,7 +63,7 @@ if __name__ == "__main__":
     ap.add_argument('--tracing', help='A Zipkin-compatible endpoint to send tracing data to')
     ap.add_argument('--organization', help='Set the organization name')
     ap.add_argument('PROGRAM', help='The Python program to run')
-    ap.add_argument('ARGS', help='Arguments to pass to the program', nargs='*')
+    ap.add_argument('ARGS', help='Arguments to pass to the program', nargs=argparse.REMAINDER)
     args = ap.parse_args()
 
     # If any config variables are present, parse and set them, so subsequent accesses are fast.
-- 
2.43.0

