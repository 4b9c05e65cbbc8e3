"""Runs bin_to_hex.py's main() on one [input, output] per line; answers JSON [exit, stdout]."""
import contextlib, importlib.util, io, json, sys
sys.dont_write_bytecode = True
spec = importlib.util.spec_from_file_location("bin_to_hex_under_check", sys.argv[1])
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
for line in sys.stdin:
    out = io.StringIO()
    sys.argv = ["bin_to_hex.py"] + json.loads(line)
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            mod.main()
            code = 0
        except SystemExit as e:
            code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except BaseException as e:
            code = 1
            out.write(f"{type(e).__name__}: {e}")
    sys.__stdout__.write(json.dumps([code, out.getvalue()]) + "\n")
    sys.__stdout__.flush()
