"""Runs the ABI encoder script's main() on one argv per input line (JSON list); answers JSON [exit, stdout]."""
import contextlib, importlib.util, io, json, sys
spec = importlib.util.spec_from_file_location("abi_encode_under_check", sys.argv[1])
mod = importlib.util.module_from_spec(spec)
sys.dont_write_bytecode = True
spec.loader.exec_module(mod)
for line in sys.stdin:
    out, err = io.StringIO(), io.StringIO()
    sys.argv = ["abi_encode.py"] + json.loads(line)
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            mod.main()
            code = 0
        except SystemExit as e:
            code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except BaseException as e:  # an uncaught exception ends the process with 1
            code = 1
            err.write(f"{type(e).__name__}: {e}")
    sys.__stdout__.write(json.dumps([code, out.getvalue(), err.getvalue()[-200:]]) + "\n")
    sys.__stdout__.flush()
