"""What the parent process needs to know about each check.  No import of the tree under test here."""
from sim.runner import Spec

REAL = ["tf2onnx (all modules, unmodified, from /repo)", "TensorFlow 2.16", "onnx 1.16", "protobuf"]
SPECS = {}


def add(*a, **k):
    s = Spec(*a, **k)
    SPECS[s.prop] = s


add("C04", "c04_concurrent", 560, 6000,
    rule="a run = 2-3 conversion requests, a start order and 1-9 preemption points drawn from the seed; non-trivial iff "
         "control really moved between callers at least once; distinct = different (requests, executed switch sequence)",
    level_note="seeded search over interleavings, not exhaustive",
    technique="seeded scheduler over CPython switch points decides every interleaving of 2-3 conversion threads; results compared with fresh-process references", assumptions=["control moves only at CPython 3.12 switch points inside tf2onnx code; code of "
                                "TensorFlow, numpy and onnx is executed atomically"],
    real=REAL + ["Python threads"], stub=["thread scheduler (seeded)", "locks created by tf2onnx (simulated)"], refs=True,
    interleaving_measure="executed sequence of (from caller, to caller, place) switches")

add("C03", "c03_history", 240, 5000,
    rule="a run = a seeded sequence of 2-6 conversion requests (source kind x options), about a third of the earlier ones "
         "broken by a fault at a call out of tf2onnx; non-trivial iff the sequence has at least two conversions; distinct = "
         "different sequences of (request, fault fired, outcome)",
    level_note="seeded search over histories and faults, not exhaustive",
    technique="seeded histories of conversions with injected failures; every result compared with a fresh process", assumptions=[], real=REAL, stub=["faults at calls out of tf2onnx"], refs=True,
    interleaving_measure="sequence of (request, fault fired, outcome)")

add("C05", "c05_reproducible", 720, 12000,
    rule="a run = one request converted under another node-hash seed, string hash seed, first generated name number, uuid seed, fresh or reused object; non-trivial always; distinct = different signature", level_note="seeded search over hash and counter values, not exhaustive",
    technique="seeded replacement of identity hashes, string hash seeds, name counters and uuids; result compared with the reference node by node", assumptions=[], real=REAL, stub=["identity hash of graph nodes", "string hash seed", "uuid4"], refs=True,
    hashseeds=("0", "1", "2", "3", "4", "5", "6", "7"),
    interleaving_measure="(request, identity-hash seed, first generated name number, object reused)")

add("C01", "c01_optimizer_faults", 700, 20000,
    rule="a run = one model and 1-3 failures (exception kind, source line, occurrence) inside seeded applications of "
         "optimizer passes, in every application of one pass, in the copy made for a pass, or around the passes; "
         "non-trivial iff a failure fired; distinct = different (model, mode, fired places, passes that failed)",
    level_note="seeded search over fault places, not exhaustive",
    technique="seeded failures inside optimizer passes; result compared with the one of a pass that changed nothing, and with ONNX Runtime", assumptions=[], real=REAL + ["ONNX Runtime (oracle)"], stub=["exceptions raised at source lines of passes"], refs=True,
    interleaving_measure="(model, mode, places where failures fired, passes that failed)")

add("C08", "c08_policy", 600, 20000,
    rule="a run = one model, continue_on_error on or off, and a failure: an exception at a seeded source line of a built-in "
         "handler or rewriter, or at seeded calls of a handler or rewriter supplied by the caller; non-trivial iff a failure "
         "fired; distinct = different (model, policy, place or calls that failed)",
    level_note="seeded search over fault places, not exhaustive",
    technique="seeded failures inside handlers and rewriters; result compared with the policy and with a callback that does nothing", assumptions=[], real=REAL + ["ONNX Runtime (oracle)"],
    stub=["exceptions raised at source lines of handlers and rewriters", "handlers and rewriters of the caller"], refs=True,
    interleaving_measure="(model, policy, place or calls that failed)")

add("C07", "c07_state", 360, 12000,
    rule="a run = one conversion, 0-2 failing calls out of tf2onnx (exception kind, place, occurrence) and 0-3 unusual "
         "settings of the caller; non-trivial always; distinct = different (request, outcome, fired faults, settings)",
    level_note="seeded search over fault places and settings, not exhaustive",
    technique="seeded failures of calls out of tf2onnx under seeded caller settings; snapshot of process state compared before and after", assumptions=[], real=REAL, stub=["results of calls out of tf2onnx (made to fail)"], refs=True,
    interleaving_measure="(request, outcome, fired faults, settings of the caller)")

add("C06", "c06_caller_objects", 400, 12000,
    rule="a run = one conversion with 0-2 failing calls out of tf2onnx (exception kind, place, occurrence); non-trivial "
         "always; distinct = different (request, outcome, fired faults)",
    level_note="seeded search over fault places, not exhaustive",
    technique="seeded failures of calls out of tf2onnx; everything the caller passed compared before and after", assumptions=[], real=REAL, stub=["results of calls out of tf2onnx (made to fail)"], refs=True,
    interleaving_measure="(request, outcome, fired faults)")

add("C02", "c02_save", 360, 12000,
    rule="a run = 1-3 saves on one simulated disk (API, command line, helpers), each with a seeded plan of failing "
         "operations of the disk or failing calls of the conversion; non-trivial iff the disk was used; distinct = different "
         "(requests, paths, fired faults, outcomes)",
    level_note="seeded search over fault places and histories, not exhaustive; real file contents, simulated results of operations",
    technique="simulated disk (errors, short and torn writes, full disk, failing close, kill and restart) under histories of saves; files compared "
              "with a model of the disk and with the returned models", assumptions=["files are written with Python's own functions"],
    real=REAL + ["zipfile", "file system of the sandbox"], stub=["results of operations on the disk", "calls out of tf2onnx made to fail"],
    refs=True, interleaving_measure="sequence of (request, path, fired faults, outcome)")

add("C09", "c09_dependency", 800, 12000,
    rule="a run = one conversion with 1-3 failing calls out of tf2onnx (exception kind, place, occurrence, once or from then "
         "on); non-trivial iff a failure fired; distinct = different (request, outcome, places that failed)",
    level_note="seeded search over fault places, not exhaustive",
    technique="seeded failures, passing and lasting, of calls out of tf2onnx; a model that comes out is executed and compared with "
              "the source model", assumptions=["ONNX Runtime is right"], real=REAL + ["ONNX Runtime (oracle)", "TFLite interpreter"],
    stub=["results of calls out of tf2onnx (made to fail)"], refs=True,
    interleaving_measure="(request, outcome, places that failed)")

add("C10", "c10_interrupt", 400, 16000,
    rule="a run = one conversion interrupted at a seeded place and occurrence, with no, a new or an existing output file, sometimes "
         "followed by the same conversion; non-trivial iff the interrupt was delivered; distinct = different (request, place, "
         "occurrence, exception, outcome)",
    level_note="seeded search over interrupt places, not exhaustive",
    technique="seeded delivery of interrupts at the places where CPython delivers signals; outcome, output file and a second "
              "conversion compared with the references", assumptions=[
                  "an interrupt that arrives inside TensorFlow, numpy or onnx is delivered when it returns",
                  "no interrupt inside a finally block of tf2onnx or while the file itself is written"],
    real=REAL, stub=["delivery of signals"], refs=True, interleaving_measure="(request, place, occurrence, outcome)")

add("C11", "c11_damaged_source", 500, 20000,
    rule="a run = one model file (or one file of a model directory) damaged at a seeded place and converted in a fresh process; "
         "distinct = different (model, file, damage, offset)",
    level_note="seeded search over places and kinds of damage, not exhaustive",
    technique="seeded damage (torn, empty, missing, doubled, short reads) of the files of the source model on a simulated disk; the "
              "model that comes out, if any, is compared with the undamaged one", assumptions=[
                  "contents that were replaced without a change of length are not damage the formats can show"],
    real=REAL + ["ONNX Runtime (oracle)", "TFLite interpreter", "file system of the sandbox"], stub=["contents of the files of the model"],
    refs=True, interleaving_measure="(model, file, damage, offset)")

add("C12", "c12_download", 8000, 300000,
    rule="a run = one download from a simulated server with 0-8 failures before it recovers, to a simulated disk with 0-2 failures, "
         "killed and started again, or 2-3 downloads to one path at the same time; "
         "non-trivial iff a failure fired; distinct = different (failures met, kind of answer, path, failures of the disk, outcome)",
    level_note="seeded search over sequences of network and disk failures, not exhaustive",
    technique="simulated network (name service, connections, HTTP servers, delays, silence, resets), virtual clock, simulated disk, kill and restart, scheduled threads; "
              "the saved file compared with what the server sent", assumptions=["servers speak HTTP without TLS"],
    real=["tf2onnx.utils.get_url", "requests", "urllib3", "http.client"], stub=["sockets, name service, servers", "clock", "disk"],
    interleaving_measure="(failures met, kind of answer, path, failures of the disk, outcome)")

add("C13", "c13_nested", 160, 6000,
    rule="a run = one conversion whose handler, rewriter or optimizer pass starts 1-2 other conversions (up to two deep, a "
         "quarter made to fail) at seeded calls; non-trivial iff an inner conversion ran; distinct = different (outer request, "
         "callback, inner requests and outcomes)",
    level_note="seeded search over nestings and faults, not exhaustive",
    technique="seeded nesting of conversions in the callbacks of a conversion, with injected failures; inner result compared with a "
              "fresh process, outer result with a callback that does nothing", assumptions=[], real=REAL,
    stub=["callbacks of the caller", "faults at calls out of tf2onnx"], refs=True,
    interleaving_measure="(outer request, callback, inner requests and outcomes)")
