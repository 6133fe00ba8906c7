"""Evaluate `module.evaluate(request)` in a pristine process: a server imports the library once (and calls nothing),
every request is answered by a fork of it."""
import atexit
import importlib
import os
import pickle
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
_srv = {}


def _read(f, n):
    b = b""
    while len(b) < n:
        c = f.read(n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def _recv(f):
    return pickle.loads(_read(f, struct.unpack("<Q", _read(f, 8))[0]))


def _send(f, o):
    b = pickle.dumps(o)
    f.write(struct.pack("<Q", len(b)) + b)
    f.flush()


def ask(module, request):
    """value, or raises OSError (harness) when the server is lost"""
    key = (os.getpid(), module)
    if key not in _srv:
        p = subprocess.Popen([sys.executable, os.path.abspath(__file__), module], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             cwd=os.path.dirname(HERE))
        _srv.clear()
        _srv[key] = p
        atexit.register(p.kill)
    p = _srv[key]
    try:
        _send(p.stdin, request)
        ok, v = _recv(p.stdout)
    except (EOFError, BrokenPipeError) as e:
        raise OSError("fresh-process server lost: %r" % e)
    if not ok:
        raise OSError("fresh process failed: %s" % v)
    return v


def serve(module):
    sys.path[:0] = [HERE, os.path.dirname(HERE)]
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    import torch
    torch.set_num_threads(1)
    mod = importlib.import_module(module)
    inp = sys.stdin.buffer
    while True:
        try:
            req = _recv(inp)
        except EOFError:
            break
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    res = (True, mod.evaluate(req))
                except BaseException as e:  # noqa
                    import traceback
                    res = (False, traceback.format_exc())
                with os.fdopen(w, "wb") as f:
                    _send(f, res)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            try:
                res = _recv(f)
            except EOFError:
                res = (False, "child died")
        os.waitpid(pid, 0)
        _send(out, res)
    import pbt
    pbt.cleanup()


if __name__ == "__main__":
    serve(sys.argv[1])
    os._exit(0)
