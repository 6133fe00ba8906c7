import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt  # noqa: E402  (puts /repo/src first)

pid = sys.argv[1]
try:
    if pid == "--selftest":
        import ref, gen, api  # noqa
        assert api.pmd.__file__.startswith(os.path.realpath(pbt.REPO)), api.pmd.__file__
        print("ok: hypothesis", pbt.hypothesis.__version__, "| library", api.pmd.__file__)
        code = 0
    else:
        mod = importlib.import_module("checks." + pid.lower())
        code = pbt.main(pid, mod.SUBS, mod.RULE, mod.ASSUMPTIONS, sys.argv[2:])
except Exception:
    import traceback
    traceback.print_exc()
    code = 2
pbt.cleanup()
sys.stdout.flush()
sys.stderr.flush()
os._exit(code)
