#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (and checks/specs.py)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from checks.specs import SPECS  # noqa: E402

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mechanism], "observe_at": list(observe),
                          "hook_needed": None}})


prop("C01", "A failing optimizer pass changes nothing and never breaks the conversion",
     "When an optimizer pass raises anywhere inside itself, or the copy made for it fails, the result is the one that would "
     "come out had that application of the pass changed nothing: the failure is reported in the log, the remaining passes run, "
     "and the optimised model is equivalent to the unoptimised one. The caller's input model is never modified, and when the "
     "caller asks for errors not to be caught (catch_errors false, TF2ONNX_CATCH_ERRORS=FALSE, large models) the exception of "
     "the pass reaches the caller instead.",
     ["fault_sequences", "inputs", "configurations"],
     "every model, every optimizer pass and application of it, every point of that application at which an exception can "
     "arise, every number of failing applications, both settings of error catching",
     "The tests run the passes without failures; whether the half-edited graph of a failed pass is really discarded depends on "
     "where inside the pass it fails, and no test makes one fail.",
     ["tf2onnx/optimizer/__init__.py", "tf2onnx/optimizer/*.py", "tf2onnx/convert.py", "tf2onnx/graph.py"],
     [("copy of the graph per pass and return of the original on failure", "tf2onnx/optimizer/__init__.py optimize_graph"),
      ("copying of graphs with their function bodies", "tf2onnx/optimizer/__init__.py _optimize_graph_with_pass"),
      ("choice of catch_errors", "tf2onnx/convert.py _convert_common")],
     [("graph", "nodes, outputs, shapes, function bodies", "tf2onnx/graph.py Graph")],
     ["optimizer.optimize_graph", "GraphUtil.optimize_model_proto", "from_function / from_keras / from_graph_def"])

prop("C02", "A reported success means a complete file; a failure is never hidden",
     "If a conversion with an output path (or saving through the public helpers, or the command line) reports success, every "
     "file it was asked to write (ONNX model, zipped large model, frozen graph) is complete on disk and reads back as exactly "
     "the model it returned. If any operation on the file system fails on the way, the caller gets an exception (the command "
     "line a non-zero exit) instead of success. A conversion that fails before it has a model to save leaves whatever was at "
     "the output path as it was, and no other file is touched. A process that is killed while it saves leaves no other file changed, "
     "and the same conversion started again completes.",
     ["fault_sequences", "crash_points", "histories", "inputs"],
     "every sequence of conversions to new and existing paths, every operation on the file system that may fail, and how "
     "(no space, I/O error, permission, failing close, short writes, the process killed), every point at which the conversion may fail",
     "The tests save to a fresh directory on a working disk; they never see a failing write, close or existing output.",
     ["tf2onnx/convert.py", "tf2onnx/utils.py"],
     [("saving after the model is complete", "tf2onnx/convert.py _convert_common"),
      ("with-blocks closing the file", "tf2onnx/utils.py save_protobuf, save_onnx_zip, save_onnx_model")],
     [], ["output files", "exceptions", "exit status of python -m tf2onnx.convert"])

prop("C03", "A conversion does not depend on what the process converted before",
     "Converting a model gives the same ONNX model (or the same error) whatever the process converted before: other models, "
     "other source formats, other opsets, custom ops, custom handlers, rewriters, targets, or conversions that failed half way. "
     "In particular options of one conversion (custom ops, handlers, extra opsets) have no effect on a later one.",
     ["histories", "fault_sequences", "configurations"],
     "every history of conversions of all source kinds and options, each possibly failing at any call it makes",
     "Each test converts one model; order effects between conversions need particular pairs of requests and failures.",
     ["tf2onnx/handler.py", "tf2onnx/tfonnx.py", "tf2onnx/tf_loader.py", "tf2onnx/utils.py", "tf2onnx/convert.py",
      "tf2onnx/custom_opsets/__init__.py"],
     [("per-conversion op mapping", "tf2onnx/handler.py tf_op.create_mapping"),
      ("functions of the current model are cleared first", "tf2onnx/tf_loader.py resolve_functions"),
      ("names made unique by a counter", "tf2onnx/utils.py make_name")],
     [("_FUNCTIONS", "function bodies of the model being converted", "tf2onnx/tf_loader.py"),
      ("_OPSETS, _MAPPING", "registered handlers", "tf2onnx/handler.py"),
      ("INTERNAL_NAME", "counter of generated names", "tf2onnx/utils.py")], ["returned model"])

prop("C04", "Concurrent conversions do not affect each other",
     "When several threads of one process convert models at the same time, each gets the model (or error) it would get alone, "
     "whatever the interleaving, and nothing deadlocks. When the last one is done the process is as it was before: the "
     "functions of the libraries, the log levels and the environment are not left changed.",
     ["schedules", "configurations"],
     "every interleaving of two or three conversions of any models and options, at every place where the interpreter may switch "
     "threads inside the converter",
     "The tests are sequential; interleavings that corrupt shared tables need a switch at particular instructions.",
     ["tf2onnx/tf_loader.py", "tf2onnx/handler.py", "tf2onnx/tfonnx.py", "tf2onnx/utils.py", "tf2onnx/convert.py"],
     [("thread-local functions and op mapping", "tf2onnx/tf_loader.py, tf2onnx/handler.py"),
      ("lock around patching of TensorFlow", "tf2onnx/tf_loader.py convert_variables_to_constants_large_model")],
     [("make_tensor_proto", "TensorFlow function replaced while a large model is frozen", "tf2onnx/tf_loader.py")],
     ["returned models", "process state"])

prop("C05", "Conversion is reproducible",
     "Converting the same model with the same options gives the same ONNX model, byte for byte, in every process: it does not "
     "depend on string hash seeds, on memory addresses (identity hashes), on the number of names generated before, on uuids or "
     "on whether the model object was converted before.",
     ["schedules", "histories", "configurations"],
     "every model and option set, every assignment of hash values and every state of the name generator",
     "A test converts once; a set iterated in hash order shows only as an occasional different model in another process.",
     ["tf2onnx/graph.py", "tf2onnx/tfonnx.py", "tf2onnx/tf_loader.py", "tf2onnx/optimizer/*.py", "tf2onnx/rewriter/*.py"],
     [("ordered containers where order matters", "tf2onnx/graph.py extract_sub_graph_nodes, topological_sort"),
      ("generated names do not influence decisions", "tf2onnx/utils.py make_name")],
     [], ["returned model"])

prop("C06", "What the caller passes in is not modified, even if the conversion fails",
     "A conversion leaves everything it is given as it was, whether it succeeds or fails at any point: the Keras model (weights, "
     "configuration, output names, call method), the tf.function or concrete function (captures, signature, results), the tf.Graph "
     "or GraphDef, the model files, and every dictionary and list of options. The model keeps working and computes the same results.",
     ["fault_sequences", "inputs", "configurations"],
     "every source kind and option, every call of the conversion into TensorFlow, numpy, onnx or the caller's callbacks that may fail",
     "The tests look at the converted model, not at the source afterwards, and do not make conversions fail in the middle.",
     ["tf2onnx/convert.py", "tf2onnx/tf_loader.py", "tf2onnx/tfonnx.py", "tf2onnx/tf_utils.py"],
     [("captures removed for freezing are put back", "tf2onnx/tf_loader.py _restore_captured_resources"),
      ("output names of Keras models are put back", "tf2onnx/convert.py from_keras"),
      ("copies of options", "tf2onnx/convert.py _convert_common")],
     [], ["model object", "option objects", "model files"])

prop("C07", "A conversion leaves the process of the caller as it found it",
     "After a conversion through the Python API, successful or failed at any point, the state of the process is what it was before: "
     "functions of TensorFlow and other libraries, default graph, session, device and name scope, eager mode, graph optimizer options, "
     "random generators, log levels and handlers, environment, working directory, warnings filters, threads, open files and temporary files.",
     ["fault_sequences", "configurations", "inputs"],
     "every source kind and option, every setting of the caller, every call of the conversion out of tf2onnx that may fail, including interrupts",
     "Tests run one conversion after another in the same settings and never look at what is left behind after a failure.",
     ["tf2onnx/tf_loader.py", "tf2onnx/convert.py", "tf2onnx/tf_utils.py", "tf2onnx/shape_inference.py", "tf2onnx/verbose_logging.py",
      "tf2onnx/utils.py"],
     [("try/finally around patching of TensorFlow", "tf2onnx/tf_loader.py convert_variables_to_constants_large_model"),
      ("with-blocks for graphs, sessions, devices", "tf2onnx/convert.py, tf2onnx/tf_loader.py")],
     [("make_tensor_proto", "TensorFlow function replaced while a large model is frozen", "tf2onnx/tf_loader.py")], ["process state"])

prop("C08", "A failing handler or rewriter follows the caller's error policy",
     "With continue_on_error off, an exception that leaves an op handler or a graph rewriter, built in or supplied by the caller, in "
     "the main graph or in any body, makes the conversion fail. With it on, the conversion continues: the failure is logged as an "
     "error, the other ops are converted as usual, and a callback that fails before doing anything has the same effect as one that "
     "does nothing. A model for which no failure was reported computes what the TensorFlow model computes.",
     ["fault_sequences", "inputs", "configurations"],
     "every model, every handler and rewriter call and every source line in it that may raise, both policies",
     "Tests let handlers succeed; the error paths in bodies of control flow, in early rewriters and in late rewriters never run.",
     ["tf2onnx/tfonnx.py", "tf2onnx/handler.py", "tf2onnx/rewriter/*.py", "tf2onnx/onnx_opset/*.py"],
     [("collecting exceptions of handlers", "tf2onnx/tfonnx.py tensorflow_onnx_mapping"),
      ("run_rewriters", "tf2onnx/tfonnx.py"), ("raise of the first collected exception", "tf2onnx/tfonnx.py process_parsed_graph")],
     [], ["exceptions", "log records", "returned model"])

prop("C09", "A failure of something a conversion uses never leads to a wrong model",
     "When a call that a conversion makes into TensorFlow, numpy, onnx, protobuf, the TFLite interpreter, the file system or the "
     "import system fails - once, several times, or every time from then on - the conversion either raises or returns a model that "
     "has the inputs and outputs of the source model and computes what the source model computes. It ends: it does not go on for "
     "ever. (Failures inside op handlers and rewriters under continue_on_error are reported and follow C08; ops that stay unconverted "
     "after a failure and are reported as unsupported with an error in the log are not a silent wrong model.)",
     ["fault_sequences", "inputs", "configurations"],
     "every source kind and option, every call out of the converter and occurrence of it, every kind of exception, passing and lasting failures",
     "The code has many places where it catches an exception and takes another way (no interpreter, no schema, no shape, no constant "
     "value); the tests run with everything working, so these ways are hardly ever taken and never in combination.",
     ["tf2onnx/tf_loader.py", "tf2onnx/tf_utils.py", "tf2onnx/shape_inference.py", "tf2onnx/tflite_utils.py", "tf2onnx/tfjs_utils.py",
      "tf2onnx/schemas.py", "tf2onnx/graph.py", "tf2onnx/optimizer/const_fold_optimizer.py", "tf2onnx/convert.py"],
     [("except clauses that take another way", "tf2onnx/tf_utils.py compute_const_folding_using_tf, tf2onnx/tflite_utils.py, "
       "tf2onnx/shape_inference.py, tf2onnx/schemas.py infer_onnx_shape_dtype, tf2onnx/tf_loader.py")],
     [], ["returned model", "exceptions"])

prop("C10", "An interrupt ends the conversion",
     "When KeyboardInterrupt or SystemExit arrives at any moment of a conversion (a signal, a time limit of the caller), that exception "
     "reaches the caller; it is not swallowed, replaced or turned into a model or a log message. Nothing is saved: an output path keeps "
     "what it had. Converting again afterwards in the same process, with the same objects, gives the model it gives in a fresh process.",
     ["schedules", "crash_points", "histories"],
     "every source kind and option, every point at which the interpreter can deliver a signal inside the converter",
     "No test interrupts a conversion; a bare except clause swallows an interrupt only if it arrives inside the guarded lines.",
     ["tf2onnx/tf_loader.py", "tf2onnx/convert.py", "tf2onnx/tfonnx.py", "tf2onnx/tf_utils.py", "tf2onnx/graph.py",
      "tf2onnx/optimizer/__init__.py", "tf2onnx/shape_inference.py", "tf2onnx/utils.py"],
     [("except clauses around parts of the conversion", "tf2onnx/tf_loader.py, tf2onnx/tfonnx.py, tf2onnx/optimizer/__init__.py"),
      ("saving last", "tf2onnx/convert.py _convert_common")],
     [], ["exceptions", "output files", "returned model of a second conversion"])

prop("C11", "A damaged model file is never converted into a different model",
     "When a file of the source model (TFLite, TensorFlow.js json and weight shards, frozen graph, saved model, checkpoint, zipped "
     "ONNX model) is torn, empty, missing, partly doubled or reads short, the conversion fails, or the model that comes out is the one "
     "of the undamaged file. It does not hang and does not kill the process.",
     ["fault_sequences", "inputs"],
     "every model format, file of the model, place and kind of damage that the format makes recognisable (contents replaced without a "
     "change of length are not)",
     "The tests read intact files; whether a lost tail of a weight file is noticed depends on where it is cut.",
     ["tf2onnx/tflite_utils.py", "tf2onnx/tfjs_utils.py", "tf2onnx/tf_loader.py", "tf2onnx/utils.py", "tf2onnx/convert.py"],
     [("check that all weights were read", "tf2onnx/tfjs_utils.py read_tfjs_graph"),
      ("parsing of TFLite flatbuffers", "tf2onnx/tflite_utils.py parse_tflite_graph"),
      ("loading of checkpoints, saved models, frozen graphs", "tf2onnx/tf_loader.py")],
     [], ["exceptions", "returned model"])

prop("C12", "A download is complete or it fails",
     "utils.get_url either saves at the given path exactly the bytes the server sent as the file, or raises and leaves no new or "
     "changed file there. Passing failures of the network (no name, refused, reset, silence, errors of the server) are overcome by the "
     "retries; it always ends, also if the server is silent or fails for ever, and it does not take an error page, an empty "
     "answer or a part of the file for the file. If the process is killed at any moment, the path has what it had or the whole file, "
     "and a later download works. Downloads of the same file at the same time do not disturb each other.",
     ["fault_sequences", "crash_points", "schedules"],
     "every sequence of failures of name service, connection, server, transfer and disk, every length and kind of answer, every delay, "
     "every moment of a kill, every interleaving of downloads",
     "The tests download from a working network or not at all.",
     ["tf2onnx/utils.py"], [("session with retries, check of the status, saving", "tf2onnx/utils.py get_url, get_retry_session")],
     [], ["saved file", "exceptions", "time taken"])

prop("C13", "A conversion may start another conversion",
     "When a handler, rewriter or optimizer pass of the caller starts another conversion (of any kind, to any depth, successful or "
     "not) the inner conversion gives the model it gives in a fresh process, and the conversion around it gives the model it gives "
     "when the callback does nothing.",
     ["schedules", "histories", "fault_sequences"],
     "every outer conversion, every call of a callback, every inner conversion and failure of it, nested to any depth",
     "The tests have no callback that converts; the state of the outer conversion is overwritten only if it is used again afterwards.",
     ["tf2onnx/tfonnx.py", "tf2onnx/tf_loader.py", "tf2onnx/handler.py", "tf2onnx/optimizer/__init__.py", "tf2onnx/utils.py"],
     [("functions and op mapping of a conversion are kept and brought back", "tf2onnx/tfonnx.py process_tf_graph")],
     [("_FUNCTIONS", "function bodies of the model being converted", "tf2onnx/tf_loader.py"),
      ("_MAPPING", "handlers of the conversion", "tf2onnx/handler.py")], ["returned models"])

NA = []


def na(id, title, statement, over, text, why, files, mechanism, reason):
    prop(id, title, statement, over, text, why, files, mechanism)
    NA.append({"property": id, "reason": reason})


PURE = ("A pure function of the input model: no schedule, clock, I/O, fault or second party decides the outcome, so a simulator has "
        "nothing to schedule or break; deciding it means generating inputs, which is another technique. ")

na("C50", "The ONNX model computes what the TensorFlow model computes",
   "For every supported TensorFlow, TFLite or TF.js model and every input, the converted ONNX model gives the same outputs up to "
   "floating point tolerance, for every opset and target.",
   ["inputs", "programs", "configurations"], "every op, attribute, shape, dtype and opset",
   "The tests sample one or two shapes and attribute values per op.", ["tf2onnx/onnx_opset/*.py", "tf2onnx/rewriter/*.py"],
   [("op handlers", "tf2onnx/onnx_opset")],
   PURE + "It serves as an oracle inside C01, C08, C09 and C11 (runs after faults are compared with TensorFlow), but is not explored on its own.")
na("C51", "The produced model is valid ONNX for the requested opset",
   "Every produced model passes the ONNX checker and uses only ops, attributes and types that exist in the requested opsets.",
   ["inputs", "configurations"], "every model and opset",
   "The tests use a few opsets per op.", ["tf2onnx/graph.py", "tf2onnx/schemas.py"], [("make_model", "tf2onnx/graph.py")], PURE)
na("C52", "Without failures every optimizer pass preserves the meaning of the graph",
   "Applying the optimizer passes, in any order or selection, to a valid model gives a model that computes the same outputs.",
   ["inputs", "programs"], "every graph", "The tests use hand-made patterns.", ["tf2onnx/optimizer/*.py"],
   [("passes", "tf2onnx/optimizer")], PURE + "Behaviour under failing passes is C01.")
na("C53", "Input and output names, order and shapes follow the request",
   "Inputs and outputs of the ONNX model have the names, order, dtypes and shapes the caller asked for or the source model defines.",
   ["inputs", "configurations"], "every signature and renaming", "The tests check a few models.",
   ["tf2onnx/convert.py", "tf2onnx/tfonnx.py"], [("tensors_to_rename", "tf2onnx/tfonnx.py")], PURE)
na("C54", "Shape and type inference never claims a wrong shape or type",
   "Every static shape or dtype attached to a tensor of the converted model holds for every execution.",
   ["inputs", "programs"], "every graph and input", "The tests compare a few graphs.",
   ["tf2onnx/shape_inference.py", "tf2onnx/schemas.py"], [("shape inference", "tf2onnx/shape_inference.py")], PURE)
na("C55", "Layout options only change layouts",
   "inputs_as_nchw and outputs_as_nchw give a model that equals the default one up to the requested transposition.",
   ["inputs", "configurations"], "every model and choice of tensors", "Two tests.",
   ["tf2onnx/tfonnx.py"], [("transpose_inputs, transpose_outputs", "tf2onnx/tfonnx.py")], PURE)
na("C56", "Edits of the graph keep its indexes consistent",
   "After every edit of the graph (making, removing, replacing nodes, inputs and outputs) lookups by name, by output and by consumer "
   "agree with the list of nodes.", ["histories", "inputs"], "every sequence of edits",
   "The tests call a few edits.", ["tf2onnx/graph.py"], [("edit methods", "tf2onnx/graph.py Graph")],
   "A sequential data structure driven by one caller: the history is input, with no interleaving, clock, I/O or fault in it (the "
   "code promises nothing about an edit that raises half way; what must hold then at the level of a pass is C01).")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            if p["id"] in SPECS or any(n["property"] == p["id"] for n in NA):
                assert len(p["title"]) <= 80, p["title"]
                f.write(json.dumps(p) + "\n")
    ids = {p["id"] for p in P}
    assert set(SPECS) <= ids, set(SPECS) - ids
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": NA,
         "notes": "Deterministic simulation with fault injection; see DESIGN.md. No hooks in /repo: faults enter through "
                  "sys.monitoring, a simulated scheduler, simulated files and sockets."}
    for i in sorted(SPECS):
        s = SPECS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 checks/run.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": "deterministic simulation with fault injection: " + s.technique,
                            "level": "exploration", "level_note": s.level_note})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
