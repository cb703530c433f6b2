"""Makes simulation processes quickly: TensorFlow is imported once, every simulation process is a fork of this one.

Nothing of the tree under test is imported here and no part of TensorFlow's runtime is used, so that a forked process is as
good as a new one.  Protocol: a datagram {"name", "env"} with the file descriptors of stdin, the protocol and stderr -> {"pid"};
{"wait": pid} -> {"status"}."""
import importlib
import json
import os
import signal
import socket
import sys

# what tf.function converts first when it traces a Keras model; only to save every process the time (about 5 s)
WARM = {
    "tf_keras.src.engine.input_spec": ["assert_input_compatibility"],
    "tf_keras.src.engine.functional": ["Functional._run_internal_graph", "Functional._conform_to_reference_input",
                                       "Functional._flatten_to_reference_inputs", "Functional.call"],
    "tf_keras.src.utils.traceback_utils": ["inject_argument_info_in_traceback"],
    "tf_keras.src.engine.base_layer": [
        "Layer.__call__", "Layer._set_training_mode", "Layer._set_mask_metadata", "Layer._get_input_masks",
        "Layer._get_unnested_name_scope", "Layer._name_scope", "Layer._set_mask_keras_history_checked", "Layer.compute_mask",
        "Layer._should_use_autograph", "Layer._clear_losses", "Layer._autographed_call", "Layer._maybe_cast_inputs",
        "_in_functional_construction_mode"],
    "tf_keras.src.engine.sequential": ["Sequential.call"],
    "tf_keras.src.engine.training": ["Model.__call__"],
    "tf_keras.src.engine.node": ["Node.map_arguments"],
    "tf_keras.src.engine.base_layer_utils": ["call_context", "is_subclassed", "from_saved_model"],
    "tf_keras.src.layers.core.dense": ["Dense.call"],
    "tf_keras.src.layers.convolutional.base_conv": ["Conv.call"],
    "tf_keras.src.layers.rnn.lstm": ["LSTM.call", "lstm_with_backend_selection"],
    "tf_keras.src.layers.rnn.base_rnn": ["RNN.__call__", "RNN._process_inputs", "RNN.get_initial_state", "RNN.compute_mask",
                                         "RNN._validate_args_if_ragged"],
    "tf_keras.src.layers.rnn.rnn_utils": ["standardize_args", "generate_zero_filled_state",
                                          "generate_zero_filled_state_for_cell"],
    "tf_keras.src.utils.layer_utils": ["CallFunctionSpec.arg_was_passed", "CallFunctionSpec.set_arg_value",
                                       "CallFunctionSpec.get_arg_value", "CallFunctionSpec.split_out_first_arg"],
    "tf_keras.src.activations": ["linear", "relu"],
    "tf_keras.src.backend": ["maybe_convert_to_ragged", "convert_inputs_if_ragged", "int_shape"],
    "contextlib": ["_BaseExitStack.enter_context", "_BaseExitStack._push_cm_exit", "_BaseExitStack._create_exit_wrapper",
                   "_BaseExitStack._push_exit_callback"],
}


def warm():
    from . import zoo
    zoo.tf()
    import encodings.cp437  # noqa: F401
    importlib.import_module("tf_keras.api._v2.keras")
    from tensorflow.python.autograph.core import converter
    from tensorflow.python.autograph.impl import api
    ctx = converter.ProgramContext(options=converter.ConversionOptions(
        recursive=True, user_requested=False, internal_convert_user_code=True, optional_features=()))
    for mod, names in WARM.items():
        for n in names:
            f = importlib.import_module(mod)
            for part in n.split("."):
                f = getattr(f, part)
            for _ in range(3):
                try:
                    api._convert_actual(f, ctx)
                except Exception:
                    pass
                f = getattr(f, "__wrapped__", None)
                if f is None:
                    break


def main():
    s = socket.socket(fileno=int(sys.argv[1]))
    from . import env
    env.setup()
    try:
        warm()
    except Exception as e:
        sys.stderr.write("not warmed up: %s\n" % e)
    s.sendall(json.dumps({"ready": True}).encode())
    while True:
        msg, fds, _, _ = socket.recv_fds(s, 1 << 16, 3)
        if not msg:
            return
        m = json.loads(msg)
        if "wait" in m:
            try:
                st = os.waitstatus_to_exitcode(os.waitpid(m["wait"], 0)[1])
            except OSError:
                st = None
            s.sendall(json.dumps({"status": st}).encode())
            continue
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGINT, signal.default_int_handler)
            s.close()
            os.dup2(fds[0], 0)
            os.dup2(fds[2], 2)
            os.close(fds[0])
            os.close(fds[2])
            import tempfile
            tempfile.tempdir = None
            os.environ.update(m["env"])
            from . import worker
            worker.run(m["name"], fds[1])
            os._exit(0)
        for f in fds:
            os.close(f)
        s.sendall(json.dumps({"pid": pid}).encode())


if __name__ == "__main__":
    main()
