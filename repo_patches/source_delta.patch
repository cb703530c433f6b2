From f1c7c525e9743da4536266b0212d1bc5cdcd6986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 01/32] fix: keep the functions of a model per thread, so that
 concurrent conversions do not clear or mix them

---
 tf2onnx/tf_loader.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/tf2onnx/tf_loader.py b/tf2onnx/tf_loader.py
index cca4a42..3547c0a 100644
--- a/tf2onnx/tf_loader.py
+++ b/tf2onnx/tf_loader.py
@@ -4,6 +4,7 @@
 """Methods to load tensorflow graph from graphdef, checkpoint or saved_model."""
 
 import logging
+import threading
 import uuid
 
 import tensorflow as tf
@@ -884,7 +885,14 @@ def is_function(g):
     return False
 
 
-_FUNCTIONS = {}
+class _Functions(threading.local):
+    """The functions of the model being converted. Conversions may run in several threads, each has its own."""
+    def __init__(self):
+        super().__init__()
+        self.graphs = {}
+
+
+_FUNCTIONS = _Functions()
 
 
 def resolve_functions(tf_graph):
@@ -909,7 +917,7 @@ def resolve_functions(tf_graph):
             # if there is a mismatch between caller and function use the functions shape
             logger.warning("shape mismatch between caller and function: %s", k)
             func = function_def_to_graph(fdef)
-        _FUNCTIONS[k] = func
+        _FUNCTIONS.graphs[k] = func
         _, _, _, _, _, tfunctions = tflist_to_onnx(func, {})
         functions.update(tfunctions)
         data[k] = set(tfunctions.keys())
@@ -917,16 +925,16 @@ def resolve_functions(tf_graph):
     result = []
     for d in toposort(data):
         result.extend(list(d))
-    return [_FUNCTIONS[k] for k in result]
+    return [_FUNCTIONS.graphs[k] for k in result]
 
 
 def set_function(name, func):
-    _FUNCTIONS[name] = func
+    _FUNCTIONS.graphs[name] = func
 
 
 def find_function(name):
-    return _FUNCTIONS.get(name)
+    return _FUNCTIONS.graphs.get(name)
 
 
 def clear_functions():
-    _FUNCTIONS.clear()
+    _FUNCTIONS.graphs.clear()
-- 
2.43.0


From 850d0c63b955b9d07f7359933195f1a288e2bd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 02/32] fix: keep the current op mapping per thread, so that
 concurrent conversions do not use each other's handlers

---
 tf2onnx/handler.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tf2onnx/handler.py b/tf2onnx/handler.py
index d0786b2..8cc1fe5 100644
--- a/tf2onnx/handler.py
+++ b/tf2onnx/handler.py
@@ -5,6 +5,7 @@
 
 import collections
 import inspect
+import threading
 
 from tf2onnx import constants
 
@@ -16,10 +17,10 @@ class tf_op:
 
     # Maps domains (string) to lists (idx represents opset) of dicts (key = op to handle, value = handler)
     _OPSETS = collections.OrderedDict()
-    # Cache of mapping for current domain and opset. Maps op names to handlers [(func, kwargs) tuple]
-    _MAPPING = None
-    # Cache of mapping from domain to map of op name to handlers. Used to fetch handlers from different domains
-    _DOMAIN_MAPPING = None
+    # The mapping of the conversion running in this thread.
+    # ops: maps op names to handlers [(func, kwargs) tuple] for current domain and opset.
+    # domains: maps domain to map of op name to handlers. Used to fetch handlers from different domains
+    _MAPPING = threading.local()
 
     def __init__(self, name, domain=constants.ONNX_DOMAIN, **kwargs):
         """Called decorator from decorator.
@@ -94,8 +95,8 @@ class tf_op:
                         domain_to_ops_mapping[domain].update(ops_mapping)
                         ops_mapping.update(op_map)
 
-        tf_op._MAPPING = ops_mapping
-        tf_op._DOMAIN_MAPPING = domain_to_ops_mapping
+        tf_op._MAPPING.ops = ops_mapping
+        tf_op._MAPPING.domains = domain_to_ops_mapping
         return ops_mapping
 
     @staticmethod
@@ -109,9 +110,9 @@ class tf_op:
         :param domain: The domain to use (optional).
         """
         if domain is None:
-            map_info = tf_op._MAPPING.get(name)
+            map_info = tf_op._MAPPING.ops.get(name)
         else:
-            map_info = tf_op._DOMAIN_MAPPING[domain].get(name)
+            map_info = tf_op._MAPPING.domains[domain].get(name)
         if map_info is None:
             return None
         return map_info
-- 
2.43.0


From 0e625e9eadd647b6394109d6c453871f5738fea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 03/32] fix: do not write the old op name into the kwargs of a
 registered handler

---
 tf2onnx/tfonnx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 6e4d5ee..a920955 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -266,6 +266,8 @@ def tensorflow_onnx_mapping(g, ops_mapping, initialized_tables=None, is_tflite=F
 
         func, kwargs = map_info
         if kwargs:
+            # the registered kwargs are shared by all conversions
+            kwargs = dict(kwargs)
             # if there is a tf_op/onnx_op key we'll map the old type to a new type
             converted_op = kwargs.get("tf_op" if is_tflite else "onnx_op")
             if converted_op:
-- 
2.43.0


From dd82a849b59ebac7a479a4c9a478a78e8f56bb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 04/32] fix: custom_op_handlers of one conversion must not be
 registered for the conversions after it

---
 tf2onnx/tfonnx.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index a920955..e226927 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -567,10 +567,6 @@ def process_parsed_graph(g, custom_op_handlers, inputs_as_nchw, outputs_as_nchw,
                 kwargs["onnx_op"] = onnx_op
                 args = args[1:]
             kwargs["args"] = args
-            new_handler = handler.tf_op(k,
-                                        domain=constants.TENSORFLOW_OPSET.domain,
-                                        kwargs=kwargs)
-            new_handler.register_compat_handler(compat_handler, 1)
             custom_opset[k] = (compat_handler, kwargs)
         ops_mapping.update(custom_opset)
 
-- 
2.43.0


From ac19715ea3d5e4e4ce3b51892ca6c43a75ad203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 05/32] fix: freeze one large model at a time, because
 make_tensor_proto is replaced process-wide meanwhile

---
 tf2onnx/tf_loader.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tf2onnx/tf_loader.py b/tf2onnx/tf_loader.py
index 3547c0a..96c8e52 100644
--- a/tf2onnx/tf_loader.py
+++ b/tf2onnx/tf_loader.py
@@ -211,7 +211,16 @@ def inputs_without_resource(sess, input_names):
     return input_names
 
 
+# tensorflow's make_tensor_proto is replaced while a large model is frozen, by one thread at a time
+_LARGE_MODEL_LOCK = threading.Lock()
+
+
 def convert_variables_to_constants_large_model(func):
+    with _LARGE_MODEL_LOCK:
+        return _convert_variables_to_constants_large_model(func)
+
+
+def _convert_variables_to_constants_large_model(func):
     # For large models we use internal tf methods as a hack
 
     if tf.__version__.startswith("2.1.") or tf.__version__.startswith("2.0."):
-- 
2.43.0


From 8364601eb8a73bf1c495db7da169598208906d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 06/32] fix: keep the order of nodes when unused nodes are
 deleted, so that conversions are reproducible

---
 tf2onnx/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 241a82e..3e41095 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1566,7 +1566,8 @@ class Graph(object):
             node = self.get_node_by_output(output, search_in_parent_graphs=False)
             res_set = res_set.union(self._extract_sub_graph_nodes(node, input_checker))
 
-        return list(res_set)
+        # keep the order of the graph: the order of a set of nodes is different in every process
+        return list(dict.fromkeys(node for node in self.get_nodes() if node in res_set))
 
     def delete_unused_nodes(self, outputs_name):
         """Delete nodes not in subgraph ending with output_names."""
-- 
2.43.0


From 0a2ceb8a1dbeb1c28d3e83b4c1e49a3d82b7063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 07/32] fix: TF2ONNX_CATCH_ERRORS is read from the environment,
 not compared by its name

---
 tf2onnx/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/convert.py b/tf2onnx/convert.py
index e27a7ac..17522f8 100644
--- a/tf2onnx/convert.py
+++ b/tf2onnx/convert.py
@@ -194,7 +194,7 @@ def _convert_common(frozen_graph, name="unknown", large_model=False, output_path
         g = process_tf_graph(tf_graph, const_node_values=const_node_values,
                              custom_op_handlers=custom_op_handlers, **kwargs)
         if constants.ENV_TF2ONNX_CATCH_ERRORS in os.environ:
-            catch_errors = constants.ENV_TF2ONNX_CATCH_ERRORS.upper() == "TRUE"
+            catch_errors = os.environ[constants.ENV_TF2ONNX_CATCH_ERRORS].upper() == "TRUE"
         else:
             catch_errors = not large_model
         onnx_graph = optimizer.optimize_graph(g, catch_errors, optimizers=optimizers)
-- 
2.43.0


From 403d11c4440c16878ebc2df479213f216d59b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 08/32] fix: rewriters of body graphs follow continue_on_error
 instead of always ignoring exceptions

---
 tf2onnx/tfonnx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index e226927..963faff 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -395,8 +395,8 @@ def run_rewriters(g, funcs, continue_on_error):
 
     if g.contained_graphs:
         for dict_val in g.contained_graphs.values():
-            for attr_name, b_g in dict_val.items():
-                run_rewriters(b_g, funcs, attr_name)
+            for b_g in dict_val.values():
+                run_rewriters(b_g, funcs, continue_on_error)
 
 
 def process_tf_graph(tf_graph, continue_on_error=False, verbose=False, target=None,
-- 
2.43.0


From d31d50a1ca0801e2326bd84b7f58405b46b0427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 09/32] fix: do not add the custom ops of a conversion to the
 caller's custom_op_handlers

---
 tf2onnx/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/convert.py b/tf2onnx/convert.py
index 17522f8..271c951 100644
--- a/tf2onnx/convert.py
+++ b/tf2onnx/convert.py
@@ -178,8 +178,8 @@ def _convert_common(frozen_graph, name="unknown", large_model=False, output_path
     const_node_values = None
 
     if custom_ops is not None:
-        if custom_op_handlers is None:
-            custom_op_handlers = {}
+        # the dict belongs to the caller
+        custom_op_handlers = dict(custom_op_handlers or {})
         custom_op_handlers.update(
             {op: (make_default_custom_op_handler(domain), []) for op, domain in custom_ops.items()})
 
-- 
2.43.0


From 4a573bca7fc03a0b7315e4b770303ea3d7d76e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 10/32] fix: give a Keras model its output names back when
 tracing it fails

---
 tf2onnx/convert.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tf2onnx/convert.py b/tf2onnx/convert.py
index 271c951..088d900 100644
--- a/tf2onnx/convert.py
+++ b/tf2onnx/convert.py
@@ -505,8 +505,12 @@ def from_keras(model, input_signature=None, opset=None, custom_ops=None, custom_
                                outputs_as_nchw, extra_opset, shape_override, target, large_model, output_path)
 
     old_out_names = _rename_duplicate_keras_model_names(model)
-
-    concrete_func = _get_concrete_function(model, input_signature)
+    try:
+        concrete_func = _get_concrete_function(model, input_signature)
+        model_out_names = _get_output_names(model)
+    finally:
+        if old_out_names is not None:
+            _set_output_names(model, old_out_names)
 
     # These inputs will be removed during freezing (includes resources, etc.)
     if hasattr(concrete_func.graph, '_captures'):
@@ -523,7 +527,6 @@ def from_keras(model, input_signature=None, opset=None, custom_ops=None, custom_
     tensors_to_rename = tensor_names_from_structed(concrete_func, input_names, output_names)
     reverse_lookup = {v: k for k, v in tensors_to_rename.items()}
 
-    model_out_names = _get_output_names(model)
     if model_out_names:
         # model output_names is an optional field of Keras models indicating output order.
         output_names = [reverse_lookup[out] for out in model_out_names]
@@ -531,9 +534,6 @@ def from_keras(model, input_signature=None, opset=None, custom_ops=None, custom_
         # Other models specify output order using the key order of structured_outputs
         output_names = [reverse_lookup[out] for out in concrete_func.structured_outputs.keys()]
 
-    if old_out_names is not None:
-        _set_output_names(model, old_out_names)
-
     with tf.device("/cpu:0"):
         frozen_graph, initialized_tables = \
             tf_loader.from_trackable(model, concrete_func, input_names, output_names, large_model)
-- 
2.43.0


From b8ef63565ef20e957f0e93780454fcaf9b7e50ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 11/32] fix: from_trackable gives the function its captured
 resources back with TF>=2.13 and when freezing fails

---
 tf2onnx/tf_loader.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/tf_loader.py b/tf2onnx/tf_loader.py
index 96c8e52..ac771f8 100644
--- a/tf2onnx/tf_loader.py
+++ b/tf2onnx/tf_loader.py
@@ -336,9 +336,9 @@ def from_trackable(trackable, concrete_func, inputs, outputs, large_model):
         if any(msg in str(e) for msg in ["exceeds maximum protobuf size of 2GB", "string too long"]):
             raise ValueError(err_large_model)
         raise e
-
-    # We might be returning the concrete_func so let's put it back in working order
-    _restore_captured_resources(concrete_func, graph_captures_copy, func_captures_copy)
+    finally:
+        # We might be returning the concrete_func so let's put it back in working order
+        _restore_captured_resources(concrete_func, graph_captures_copy, func_captures_copy)
 
     table_info = get_hash_table_info(frozen_graph)
     placeholder_to_table_info = {}
@@ -660,6 +660,15 @@ def _restore_captured_resources(concrete_func, graph_captures_copy, func_capture
     if hasattr(concrete_func.graph, '_captures') and hasattr(concrete_func, '_captured_inputs'):
         concrete_func.graph._captures = graph_captures_copy
         concrete_func._captured_inputs = func_captures_copy
+    elif hasattr(concrete_func.graph, 'function_captures') and hasattr(concrete_func, '_captured_inputs'):
+        captures = concrete_func.graph.function_captures
+        # the order of the captures is the order of the captured inputs
+        captures.by_val_internal.clear()
+        captures.by_val_external.clear()
+        for k, (external, internal) in graph_captures_copy.items():
+            captures.by_val_internal[k] = internal
+            captures.by_val_external[k] = external
+        concrete_func._captured_inputs = func_captures_copy
 
 
 def _from_saved_model_v2(model_path, input_names, output_names, tag, signature_def,
-- 
2.43.0


From 48c94d5618a822b9d18cf9ff5ce9ed317ef820e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 12/32] fix: serialize a model before opening its file, so that
 a failure does not destroy an existing file

---
 tf2onnx/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/utils.py b/tf2onnx/utils.py
index d23ce2a..1149c95 100644
--- a/tf2onnx/utils.py
+++ b/tf2onnx/utils.py
@@ -295,8 +295,10 @@ def save_onnx_zip(target_path, model_proto, external_tensor_storage):
     dir_name = os.path.dirname(target_path)
     if dir_name:
         os.makedirs(dir_name, exist_ok=True)
+    # serialize first: it can fail (messages over 2GB), and opening the file truncates it
+    content = model_proto.SerializeToString()
     with zipfile.ZipFile(target_path, 'w') as z:
-        z.writestr("__MODEL_PROTO.onnx", model_proto.SerializeToString())
+        z.writestr("__MODEL_PROTO.onnx", content)
         for k, v in external_tensor_storage.name_to_tensor_data.items():
             z.writestr(k, v)
 
@@ -419,12 +421,15 @@ def save_protobuf(path, message, as_text=False):
     dir_name = os.path.dirname(path)
     if dir_name:
         os.makedirs(dir_name, exist_ok=True)
+    # serialize first: it can fail (messages over 2GB), and opening the file truncates it
     if as_text:
+        content = text_format.MessageToString(message)
         with open(path, "w") as f:
-            f.write(text_format.MessageToString(message))
+            f.write(content)
     else:
+        content = message.SerializeToString()
         with open(path, "wb") as f:
-            f.write(message.SerializeToString())
+            f.write(content)
 
 def model_proto_from_file(model_path):
     model_proto = ModelProto()
-- 
2.43.0


From a9238da09294e83d0ece75e5a48339b5978f514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 13/32] fix: save the frozen graph of a large model before its
 constants are removed

---
 tf2onnx/convert.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/convert.py b/tf2onnx/convert.py
index 088d900..f914e1e 100644
--- a/tf2onnx/convert.py
+++ b/tf2onnx/convert.py
@@ -184,11 +184,12 @@ def _convert_common(frozen_graph, name="unknown", large_model=False, output_path
             {op: (make_default_custom_op_handler(domain), []) for op, domain in custom_ops.items()})
 
     with tf.Graph().as_default() as tf_graph:
+        if output_frozen_graph:
+            # before large constants are taken out of it
+            utils.save_protobuf(output_frozen_graph, frozen_graph)
         if large_model:
             const_node_values = compress_graph_def(frozen_graph)
             external_tensor_storage = ExternalTensorStorage()
-        if output_frozen_graph:
-            utils.save_protobuf(output_frozen_graph, frozen_graph)
         if not kwargs.get("tflite_path") and not kwargs.get("tfjs_path"):
             tf.import_graph_def(frozen_graph, name='')
         g = process_tf_graph(tf_graph, const_node_values=const_node_values,
-- 
2.43.0


From 888ead648ffbf7e116101151b8a5a9f2dca7ddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:52 +0000
Subject: [PATCH 14/32] fix: body graphs have their nodes in the order of the
 graph, not in the order of a set

---
 tf2onnx/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/utils.py b/tf2onnx/utils.py
index 1149c95..9262d0d 100644
--- a/tf2onnx/utils.py
+++ b/tf2onnx/utils.py
@@ -371,7 +371,9 @@ def construct_graph_from_nodes(parent_g, nodes, outputs, shapes, dtypes):
     # pylint: disable=protected-access
     g = parent_g.create_new_graph_with_same_config()
     g.parent_graph = parent_g
-    nodes = set(nodes)
+    # keep the order of the graph: the order of a set of nodes is different in every process
+    order = {op: i for i, op in enumerate(parent_g.get_nodes())}
+    nodes = sorted(dict.fromkeys(nodes), key=lambda op: order.get(op, len(order)))
     all_outputs = set()
     for op in nodes:
         all_outputs |= set(op.output)
-- 
2.43.0


From 36c47a5376f5fcd6a4f81d3b16054654eb50400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 15/32] fix: the consumers of a tensor come in the order in
 which they were added, not in the order of a set of names

---
 tf2onnx/graph.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 3e41095..e8074c0 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1294,7 +1294,7 @@ class Graph(object):
             if node.input[input_index] in self._output_to_consumers:
                 to_ops = self._output_to_consumers[node.input[input_index]]
                 if node.name in to_ops:
-                    to_ops.remove(node.name)
+                    del to_ops[node.name]
             del node.input[input_index]
             return
 
@@ -1407,8 +1407,9 @@ class Graph(object):
         "Register node taking a specific input."
         if not only_graph:
             if input_name not in self._output_to_consumers:
-                self._output_to_consumers[input_name] = set()
-            self._output_to_consumers[input_name].add(node.name)
+                self._output_to_consumers[input_name] = {}
+            # the keys are an ordered set: the order of a set of names is different in every process
+            self._output_to_consumers[input_name][node.name] = None
         if self.parent_graph is not None:
             if input_name not in self.parent_graph._input_to_graph:
                 self.parent_graph._input_to_graph[input_name] = {}
@@ -1421,7 +1422,7 @@ class Graph(object):
         if not only_graph:
             if input_name in self._output_to_consumers[input_name]:
                 if node_name in self._output_to_consumers[input_name]:
-                    self._output_to_consumers[input_name].remove(node_name)
+                    del self._output_to_consumers[input_name][node_name]
         if (self.parent_graph is not None and
                 input_name in self.parent_graph._input_to_graph and
                 id(self) in self.parent_graph._input_to_graph[input_name]):
@@ -1437,7 +1438,7 @@ class Graph(object):
         if old_input == new_input:
             return
         if new_input not in self._output_to_consumers:
-            self._output_to_consumers[new_input] = set()
+            self._output_to_consumers[new_input] = {}
 
         if ops is not None:
             keep_ops = True
@@ -1489,7 +1490,7 @@ class Graph(object):
         if to_ops is not None:
             if node.name in to_ops:
                 # A node may take twice the same entry.
-                to_ops.remove(node.name)
+                del to_ops[node.name]
 
         self._register_input_name(new_input, node)
         return is_replaced
@@ -1503,7 +1504,7 @@ class Graph(object):
             if to_ops is not None and old_input in to_ops:
                 # To avoid issues when a node
                 # takes twice the same entry.
-                to_ops.remove(old_input)
+                del to_ops[old_input]
 
         for input_name in new_inputs:
             assert isinstance(input_name, str)
-- 
2.43.0


From b2a00a1632aa05275270897759290668f054ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 16/32] fix: function bodies are converted in the order of the
 graph, not in the order of a set

---
 tf2onnx/tf_loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/tf_loader.py b/tf2onnx/tf_loader.py
index ac771f8..6f15119 100644
--- a/tf2onnx/tf_loader.py
+++ b/tf2onnx/tf_loader.py
@@ -942,7 +942,8 @@ def resolve_functions(tf_graph):
 
     result = []
     for d in toposort(data):
-        result.extend(list(d))
+        # in the order of the graph: the order of a set of names is different in every process
+        result.extend(k for k in data if k in d)
     return [_FUNCTIONS.graphs[k] for k in result]
 
 
-- 
2.43.0


From 64cdfac9bf4692d1f0c8d9b874807b2ed1096a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 17/32] fix: names of nodes made for Einsum do not contain
 memory addresses

---
 tf2onnx/optimizer/einsum_optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/einsum_optimizer.py b/tf2onnx/optimizer/einsum_optimizer.py
index 0b2eab4..c3f8ffb 100644
--- a/tf2onnx/optimizer/einsum_optimizer.py
+++ b/tf2onnx/optimizer/einsum_optimizer.py
@@ -266,6 +266,7 @@ class EinsumSubOp:
         self.name = name
         self.inputs = inputs
         self.kwargs = kwargs
+        self._number = None
         self._info = {}
         if name not in EinsumSubOp._allowed:
             raise ValueError(
@@ -558,7 +559,7 @@ class EinsumSubOp:
         return value
 
     def _onnx_name(self):
-        return 'einsum%d_%s' % (id(self), self.name[:2])
+        return 'einsum%d_%s' % (self._number, self.name[:2])
 
     def _check_onnx_opset_(self, opset, limit):
         if opset is not None and opset < limit:
@@ -900,10 +901,12 @@ class EinsumSubOp:
                     "to remove it." % self.name)
             raise NotImplementedError(
                 "to_onnx not implemented for %r." % self.name)
+        # names must not contain id(self), it is different in every process
+        self._number = len(names)
         for ni, node in enumerate(meth(names, opset=opset, **kwargs)):
             if hasattr(node, 'output'):
                 names[id(self)] = node.output[0]
-                node.name = "OPT%s_%d_%d" % (method_name, ni, id(self))
+                node.name = "OPT%s_%d_%d" % (method_name, ni, self._number)
             yield node
 
     def get_dot_kind(self):
-- 
2.43.0


From bd4d3c5f3e426b76c039909063b98d7f9f01beb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:37 +0000
Subject: [PATCH 18/32] fix: the contents of lookup tables are sorted,
 TensorFlow exports them in arbitrary order

---
 tf2onnx/tf_loader.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/tf_loader.py b/tf2onnx/tf_loader.py
index 6f15119..aaf6ead 100644
--- a/tf2onnx/tf_loader.py
+++ b/tf2onnx/tf_loader.py
@@ -7,6 +7,7 @@ import logging
 import threading
 import uuid
 
+import numpy as np
 import tensorflow as tf
 from google.protobuf.message import DecodeError
 from packaging.version import Version
@@ -323,6 +324,12 @@ def fix_freezing_errors_part2(graph_def):
     return graph_def
 
 
+def _sort_table(keys, values):
+    """Sort the contents of a table by key. TF exports them in an order that is different in every process."""
+    order = np.argsort(keys, kind="stable")
+    return keys[order], values[order]
+
+
 def from_trackable(trackable, concrete_func, inputs, outputs, large_model):
     err_large_model = "model exceeds maximum protobuf size of 2GB. Try setting large_model."
 
@@ -362,7 +369,7 @@ def from_trackable(trackable, concrete_func, inputs, outputs, large_model):
             continue
         try:
             k, v = lookup_ops.lookup_table_export_v2(h, info.key_dtype, info.val_dtype)
-            initialized_tables[n] = (k.numpy(), v.numpy())
+            initialized_tables[n] = _sort_table(k.numpy(), v.numpy())
         except Exception:  # pylint: disable=broad-except
             logger.warning("Could not initialize table with shared_name = %r", n)
 
@@ -428,7 +435,7 @@ def freeze_session(sess, input_names=None, output_names=None, get_tables=False):
                 try:
                     k, v = lookup_ops.lookup_table_export_v2(h, info.key_dtype, info.val_dtype)
                     k, v = sess.run([k, v])
-                    initialized_tables[n] = (k, v)
+                    initialized_tables[n] = _sort_table(k, v)
                 except Exception:  # pylint: disable=broad-except
                     logger.warning("Could not initialize table with shared_name = %r", n)
             return graph_def, initialized_tables
-- 
2.43.0


From 2c0d757558ffcd2d17ff710a9830fea0a44228d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 19/32] fix: interrupts end a conversion, they are not
 swallowed by bare except clauses

---
 tf2onnx/graph.py     | 2 +-
 tf2onnx/tf_loader.py | 4 ++--
 tf2onnx/tf_utils.py  | 4 ++--
 tf2onnx/tfonnx.py    | 2 +-
 tf2onnx/utils.py     | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index e8074c0..1997186 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1209,7 +1209,7 @@ class Graph(object):
         # set the IR version based on opset
         try:
             model_proto.ir_version = constants.OPSET_TO_IR_VERSION.get(self.opset, model_proto.ir_version)
-        except: # pylint: disable=bare-except
+        except Exception:  # pylint: disable=broad-except
             logger.error("ir_version override failed - install the latest onnx version")
 
         # optimize the model proto.
diff --git a/tf2onnx/tf_loader.py b/tf2onnx/tf_loader.py
index aaf6ead..0338af2 100644
--- a/tf2onnx/tf_loader.py
+++ b/tf2onnx/tf_loader.py
@@ -207,7 +207,7 @@ def inputs_without_resource(sess, input_names):
             if t.dtype != tf.dtypes.resource:
                 new_input_names.append(n)
         input_names = new_input_names
-    except:  # pylint: disable=bare-except
+    except Exception:  # pylint: disable=broad-except
         pass
     return input_names
 
@@ -938,7 +938,7 @@ def resolve_functions(tf_graph):
             input_shapes = input_shapes[:len(fdef.signature.input_arg)]
         try:
             func = function_def_to_graph(fdef, input_shapes=input_shapes)
-        except:  # pylint: disable=bare-except
+        except Exception:  # pylint: disable=broad-except
             # if there is a mismatch between caller and function use the functions shape
             logger.warning("shape mismatch between caller and function: %s", k)
             func = function_def_to_graph(fdef)
diff --git a/tf2onnx/tf_utils.py b/tf2onnx/tf_utils.py
index f51edab..917d36e 100644
--- a/tf2onnx/tf_utils.py
+++ b/tf2onnx/tf_utils.py
@@ -105,7 +105,7 @@ def tf_to_onnx_tensor(tensor, name=""):
         except UnicodeDecodeError:
             decode = np.vectorize(lambda x: x.decode('UTF-8'))
             np_data = decode(np_data).astype(object)
-        except:  # pylint: disable=bare-except
+        except Exception:  # pylint: disable=broad-except
             raise RuntimeError("Not support type: {}".format(type(np_data.flat[0])))
     return numpy_helper.from_array(np_data, name=name)
 
@@ -141,7 +141,7 @@ def get_tf_shape_attr(node):
         shape = get_tf_node_attr(node, "shape")
         if not shape.unknown_rank:
             dims = [int(d.size) for d in shape.dim]
-    except:  # pylint: disable=bare-except
+    except Exception:  # pylint: disable=broad-except
         pass
     return dims
 
diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 963faff..03507eb 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -362,7 +362,7 @@ def topological_sort(g, continue_on_error):
     else:
         try:
             g.topological_sort(ops)
-        except:  # pylint: disable=bare-except
+        except Exception:  # pylint: disable=broad-except
             # if we continue on error, ignore graph cycles so we can report all missing ops
             pass
 
diff --git a/tf2onnx/utils.py b/tf2onnx/utils.py
index 9262d0d..294579f 100644
--- a/tf2onnx/utils.py
+++ b/tf2onnx/utils.py
@@ -494,7 +494,7 @@ def are_shapes_compatible(src, dest):
     try:
         merge_shapes(src, dest)
         return True
-    except:  # pylint: disable=bare-except
+    except Exception:  # pylint: disable=broad-except
         return False
 
 
-- 
2.43.0


From c4939b29812a3773fab189f206d2df8f58af2672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 20/32] fix: get_url fails on answers without the file (204,
 304, ...) instead of saving an empty one

---
 tf2onnx/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf2onnx/utils.py b/tf2onnx/utils.py
index 294579f..e09d794 100644
--- a/tf2onnx/utils.py
+++ b/tf2onnx/utils.py
@@ -570,6 +570,7 @@ def get_url(url, path, max_retries=5):
     response = session.get(url, allow_redirects=True)
     if response.status_code not in [200]:
         response.raise_for_status()
+        raise requests.HTTPError("Unexpected status %s for url: %s" % (response.status_code, url), response=response)
 
     dir_name = os.path.dirname(path)
     if dir_name:
-- 
2.43.0


From 8cfd80f1dc1572ee6bfca663ecff53b7ee3c6ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 21/32] fix: get_url does not wait for ever for a server that
 is silent

---
 tf2onnx/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/utils.py b/tf2onnx/utils.py
index e09d794..f6e62e6 100644
--- a/tf2onnx/utils.py
+++ b/tf2onnx/utils.py
@@ -567,7 +567,7 @@ def get_url(url, path, max_retries=5):
     session.mount("http://", adapter)
     session.mount("https://", adapter)
 
-    response = session.get(url, allow_redirects=True)
+    response = session.get(url, allow_redirects=True, timeout=60)
     if response.status_code not in [200]:
         response.raise_for_status()
         raise requests.HTTPError("Unexpected status %s for url: %s" % (response.status_code, url), response=response)
-- 
2.43.0


From 77090df702a01d4df2798933c92daa0a02c85537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 22/32] fix: get_url does not leave an incomplete file when
 saving fails

---
 tf2onnx/utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/utils.py b/tf2onnx/utils.py
index f6e62e6..fae1b7a 100644
--- a/tf2onnx/utils.py
+++ b/tf2onnx/utils.py
@@ -576,8 +576,16 @@ def get_url(url, path, max_retries=5):
     if dir_name:
         os.makedirs(dir_name, exist_ok=True)
 
-    with open(path, "wb") as f:
-        f.write(response.content)
+    # an incomplete file would be taken for a finished download the next time
+    tmp_path = path + ".part"
+    try:
+        with open(tmp_path, "wb") as f:
+            f.write(response.content)
+        os.replace(tmp_path, path)
+    except BaseException:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+        raise
 
 
 def have_same_inference_value(g, output_1, output_2):
-- 
2.43.0


From 7d80d0d2a8db6a5b4c246e0c7f54b74c58ce2d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:04 +0000
Subject: [PATCH 23/32] fix: a conversion started by a handler or rewriter
 leaves the conversion around it as it was

---
 tf2onnx/handler.py   | 12 ++++++++++++
 tf2onnx/tf_loader.py | 12 ++++++++++++
 tf2onnx/tfonnx.py    | 13 +++++++++++--
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/handler.py b/tf2onnx/handler.py
index 8cc1fe5..031ecda 100644
--- a/tf2onnx/handler.py
+++ b/tf2onnx/handler.py
@@ -4,6 +4,7 @@
 """Opset registry."""
 
 import collections
+import contextlib
 import inspect
 import threading
 
@@ -99,6 +100,17 @@ class tf_op:
         tf_op._MAPPING.domains = domain_to_ops_mapping
         return ops_mapping
 
+    @staticmethod
+    @contextlib.contextmanager
+    def own_mapping():
+        """Keep the mapping that was created last and bring it back at the end."""
+        outer = dict(vars(tf_op._MAPPING))
+        try:
+            yield
+        finally:
+            vars(tf_op._MAPPING).clear()
+            vars(tf_op._MAPPING).update(outer)
+
     @staticmethod
     def find_effective_op(name, domain=None):
         """Find the effective version of an op create_mapping.
diff --git a/tf2onnx/tf_loader.py b/tf2onnx/tf_loader.py
index 0338af2..7fc82c3 100644
--- a/tf2onnx/tf_loader.py
+++ b/tf2onnx/tf_loader.py
@@ -3,6 +3,7 @@
 
 """Methods to load tensorflow graph from graphdef, checkpoint or saved_model."""
 
+import contextlib
 import logging
 import threading
 import uuid
@@ -964,3 +965,14 @@ def find_function(name):
 
 def clear_functions():
     _FUNCTIONS.graphs.clear()
+
+
+@contextlib.contextmanager
+def own_functions():
+    """Start without functions, and bring back those of the surrounding conversion, if there is one, at the end."""
+    outer = _FUNCTIONS.graphs
+    _FUNCTIONS.graphs = {}
+    try:
+        yield
+    finally:
+        _FUNCTIONS.graphs = outer
diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 03507eb..3580a08 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -6,6 +6,7 @@ tf2onnx.tf2onnx - rewrite tensorflow graph to onnx graph
 """
 
 import collections
+import contextlib
 import sys
 import traceback
 
@@ -20,7 +21,7 @@ from tf2onnx.graph import Graph
 from tf2onnx.late_rewriters import rewrite_channels_last
 from tf2onnx.rewriter import *  # pylint: disable=wildcard-import
 from tf2onnx.shape_inference import infer_shape
-from tf2onnx.tf_loader import clear_functions, is_function, resolve_functions, set_function
+from tf2onnx.tf_loader import is_function, own_functions, resolve_functions, set_function
 from tf2onnx.tf_utils import compute_const_folding_using_tf, get_tf_version, tensorflow_to_onnx
 from tf2onnx.tfjs_utils import graphs_from_tfjs
 from tf2onnx.tflite_rewriters import *  # pylint: disable=wildcard-import
@@ -399,6 +400,15 @@ def run_rewriters(g, funcs, continue_on_error):
                 run_rewriters(b_g, funcs, continue_on_error)
 
 
+@contextlib.contextmanager
+def _conversion_state():
+    """A conversion has its own functions and op mapping: a handler or rewriter of the caller that converts another
+    model must not change those of the conversion it was called from."""
+    with handler.tf_op.own_mapping(), own_functions():
+        yield
+
+
+@_conversion_state()
 def process_tf_graph(tf_graph, continue_on_error=False, verbose=False, target=None,
                      opset=None, custom_op_handlers=None, custom_rewriter=None,
                      extra_opset=None, shape_override=None, inputs_as_nchw=None, outputs_as_nchw=None,
@@ -444,7 +454,6 @@ def process_tf_graph(tf_graph, continue_on_error=False, verbose=False, target=No
                        "please upgrade onnx package to avoid potential conversion issue.",
                        utils.get_onnx_version(), opset)
 
-    clear_functions()
     if inputs_as_nchw is None:
         inputs_as_nchw = []
     if outputs_as_nchw is None:
-- 
2.43.0


From cd57d98ff53a97d80fa193665a8521359ea7aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 24/32] fix: tfjs functions are converted in an order that does
 not depend on string hashes

---
 tf2onnx/tfjs_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/tfjs_utils.py b/tf2onnx/tfjs_utils.py
index 680c298..f38138c 100644
--- a/tf2onnx/tfjs_utils.py
+++ b/tf2onnx/tfjs_utils.py
@@ -229,11 +229,12 @@ def sort_tfjs_functions(funcs):
 
 def get_tfjs_func_dependencies(func):
     """Returns a list of names of functions the provided tfjs func depends on"""
-    dependencies = set()
+    # a dict, not a set: the order of a set of names is different in every process
+    dependencies = {}
     for node in func.get('nodeDef', []):
         for v in node.get('attr', {}).values():
             if list(v.keys())[0] == 'func':
-                dependencies.add(read_tfjs_attr(v))
+                dependencies[read_tfjs_attr(v)] = True
     return list(dependencies)
 
 
-- 
2.43.0


From 29548106285ddedfc063136a01f8a282117f7a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:50 +0000
Subject: [PATCH 25/32] fix: a tensor shape that could not be read was taken
 for an unknown shape

---
 tf2onnx/tf_utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tf2onnx/tf_utils.py b/tf2onnx/tf_utils.py
index 917d36e..9660b22 100644
--- a/tf2onnx/tf_utils.py
+++ b/tf2onnx/tf_utils.py
@@ -147,12 +147,9 @@ def get_tf_shape_attr(node):
 
 
 def get_tf_tensor_shape(tensor):
-    shape = []
-    try:
-        shape = tensor.get_shape().as_list()
-    except Exception:  # pylint: disable=broad-except
-        shape = None
-    return shape
+    shape = tensor.get_shape()
+    # a shape is unknown if its rank is unknown, not because it could not be read
+    return None if shape.dims is None else shape.as_list()
 
 
 def map_tf_dtype(dtype):
-- 
2.43.0


From d6c86896f9c884e619523ff96f0bcb1d0f62d4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:38 +0000
Subject: [PATCH 26/32] fix: the order of nodes does not depend on the numbers
 in generated names

topological_sort compared generated names as strings, so that op__9 came after
op__10: which of two equal nodes survived merging, and with it the order and
wiring of the nodes of the model, depended on how many names had been made in the process
before. Compare the numbers as numbers.
---
 tf2onnx/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 1997186..fdfca1d 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -8,6 +8,7 @@ tf2onnx.graph - class to manage graph manipulation on top of onnx
 import collections
 import copy
 import logging
+import re
 
 import numpy as np
 from onnx import AttributeProto, TensorProto, helper, numpy_helper, shape_inference
@@ -1025,8 +1026,9 @@ class Graph(object):
 
     def topological_sort(self, ops):
         """Topological sort of graph."""
-        # sort by name, the result will be reversed alphabeta
-        ops.sort(key=lambda op: op.name)
+        # sort by name, the result will be reversed alphabeta. The numbers that make_name() puts into names are compared as
+        # numbers: they depend on what was converted before, the order of the nodes must not.
+        ops.sort(key=lambda op: [int(s) if i % 2 else s for i, s in enumerate(re.split(r"__(\d+)", op.name))])
 
         def _push_stack(stack, node, in_stack):
             stack.append(node)
-- 
2.43.0


From e76d87deb1d37287625aea0c5e826d02a50acc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:14 +0000
Subject: [PATCH 27/32] fix: bidirectional RNNs were paired in the iteration
 order of a set of names

The node order and the wiring of the model changed with PYTHONHASHSEED when a graph
held more than one bidirectional RNN.
---
 tf2onnx/rewriter/rnn_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/rnn_utils.py b/tf2onnx/rewriter/rnn_utils.py
index 9cd2f2a..1e5040c 100644
--- a/tf2onnx/rewriter/rnn_utils.py
+++ b/tf2onnx/rewriter/rnn_utils.py
@@ -541,7 +541,7 @@ def find_bidirectional_rnns(g, ops, rnn_type):
                 fw_rnns[input_id].append(n)
 
     # fw_rnn and bw_rnn must share the same input
-    birnn_input = list(set(fw_rnns.keys()).intersection(bw_rnns.keys()))
+    birnn_input = [inp for inp in fw_rnns if inp in bw_rnns]
     bi_rnns = []
     matched_rnn = []
     for inp in birnn_input:
-- 
2.43.0


From 29e55cdc38bc933c4b2d1d9cdeaf7488cc15d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:26 +0000
Subject: [PATCH 28/32] fix: random numbers drawn and functions called while
 folding constants were put into the model

compute_const_folding_using_tf runs every node whose inputs are constants, except those
named Random*. TruncatedNormal, Multinomial or PyFunc nodes were run as well: their result of that
moment became a constant of the model, another one with every conversion. Do not run
nodes that TensorFlow declares to be stateful.
---
 tf2onnx/tf_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/tf_utils.py b/tf2onnx/tf_utils.py
index 9660b22..1f84c87 100644
--- a/tf2onnx/tf_utils.py
+++ b/tf2onnx/tf_utils.py
@@ -276,7 +276,8 @@ def compute_const_folding_using_tf(g, const_node_values, graph_outputs):
             can_fold = node.type not in ['Enter', 'Placeholder', 'PlaceholderWithDefault', 'Switch', 'Merge',
                                          'NextIteration', 'Exit', 'QuantizeAndDequantizeV2', 'QuantizeAndDequantizeV3',
                                          'QuantizeAndDequantizeV4']
-            can_fold = can_fold and not node.type.startswith('Random')
+            # Nodes that draw random numbers, call Python functions or otherwise do not always give the same value
+            can_fold = can_fold and not node.type.startswith('Random') and not node.op_def.is_stateful
             can_fold = can_fold and len(input_names) > 0 and all(inp in outputs_to_values for inp in input_names)
             # We can only fold nodes with a single output
             can_fold = can_fold and len(output_names) == 1 and output_names[0] not in outputs_to_values
-- 
2.43.0


From 02ba6f5b3e615652698921f08f1b14867af73d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:19 +0000
Subject: [PATCH 29/32] fix: initialize_name_counter could set the counter of
 names back while another thread made names

---
 tf2onnx/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/utils.py b/tf2onnx/utils.py
index fae1b7a..6b73c68 100644
--- a/tf2onnx/utils.py
+++ b/tf2onnx/utils.py
@@ -241,17 +241,22 @@ def get_subgraphs_from_onnx(model_proto):
 
 def initialize_name_counter(model_proto):
     """Avoid name conflicts by initializing the counter used by make_name based on the provided model"""
+    global INTERNAL_NAME
     suffix_regex = re.compile(r"__(\d+)(:\d+)?$")
+    first_free = 0
     def avoid_name(name):
-        global INTERNAL_NAME
+        nonlocal first_free
         suffix = suffix_regex.search(name)
         if suffix:
-            INTERNAL_NAME = max(INTERNAL_NAME, int(suffix.group(1)) + 1)
+            first_free = max(first_free, int(suffix.group(1)) + 1)
     for g in get_subgraphs_from_onnx(model_proto):
         for n in g.node:
             avoid_name(n.name)
             for out in n.output:
                 avoid_name(out)
+    # Other threads may be making names. No call in between, so that the counter is never set back.
+    if INTERNAL_NAME < first_free:
+        INTERNAL_NAME = first_free
 
 
 def save_onnx_model(save_path_root, onnx_file_name, feed_dict, model_proto, include_test_data=False, as_text=False,
-- 
2.43.0


From 815c205483978632b52188159690b9583aac49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:53 +0000
Subject: [PATCH 30/32] fix: TensorListFromTensor became an Identity with two
 inputs, an invalid model if no optimizer removes it

---
 tf2onnx/onnx_opset/controlflow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 5247df4..07cd27f 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -347,6 +347,7 @@ class TensorListFromTensor:
         consumers = ctx.find_output_consumers(node.output[0])
         if any([c.is_while() for c in consumers]):
             node.type = "Identity"
+            ctx.replace_inputs(node, [node.input[0]])
             ctx.copy_dtype(node.input[0], node.output[0])
             ctx.copy_shape(node.input[0], node.output[0])
 
-- 
2.43.0


From 82aa22315673f182e6fe174508265498833f9ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:53 +0000
Subject: [PATCH 31/32] fix: FusedBatchNorm with an input of unknown dtype was
 cast to and from nothing

---
 tf2onnx/onnx_opset/nn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index e2df904..57cd49f 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -982,7 +982,8 @@ class BatchNorm:
 
         # onnx batchnorm requires same T for all inputs
         mean_type = ctx.get_dtype(node.input[3])
-        x_dtype = ctx.get_dtype(node.input[0])
+        # y has the dtype of x; that of x is not known if shape inference failed for the node that makes it
+        x_dtype = ctx.get_dtype(node.input[0]) or ctx.get_dtype(node.output[0])
         if x_dtype != mean_type:
             # TODO: this works but more efficient would be to flip the other inputs. We'd need to check
             # TODO: first if this works with the onnx implementation so its a later for now
-- 
2.43.0


From aabbdbc6d092e3f7ccd0a5db112ed3eb64b57f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:15 +0000
Subject: [PATCH 32/32] fix: get_url uses a temporary file of its own,
 downloads at the same time took each other's

---
 tf2onnx/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/utils.py b/tf2onnx/utils.py
index 6b73c68..6f6fd69 100644
--- a/tf2onnx/utils.py
+++ b/tf2onnx/utils.py
@@ -13,6 +13,7 @@ import re
 import shutil
 import tempfile
 import types
+import uuid
 import zipfile
 from typing import Any, Optional, Sequence
 
@@ -582,7 +583,7 @@ def get_url(url, path, max_retries=5):
         os.makedirs(dir_name, exist_ok=True)
 
     # an incomplete file would be taken for a finished download the next time
-    tmp_path = path + ".part"
+    tmp_path = "{}.{}.part".format(path, uuid.uuid4().hex)
     try:
         with open(tmp_path, "wb") as f:
             f.write(response.content)
-- 
2.43.0

