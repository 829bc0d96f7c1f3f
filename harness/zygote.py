"""Run a function in a process in which nothing has happened yet but the imports.

server: imports the code under test once, then forks for every request; the child runs the function and sends the pickled result.
`fresh(module, function, argument)` starts a server on first use."""
import importlib, os, pickle, struct, subprocess, sys, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _send(f, o):
    b = pickle.dumps(o, protocol=4)
    f.write(struct.pack("<Q", len(b)))
    f.write(b)
    f.flush()


def _recv(f):
    h = f.read(8)
    if len(h) < 8:
        raise EOFError
    n = struct.unpack("<Q", h)[0]
    b = f.read(n)
    if len(b) < n:
        raise EOFError
    return pickle.loads(b)


def serve():
    i, o = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    from harness import deps, sut
    deps.ensure()
    sut.load()
    mods = {}
    while True:
        try:
            mod, fn, arg = _recv(i)
        except EOFError:
            return
        if mod not in mods:
            mods[mod] = importlib.import_module(mod)
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    r = (True, getattr(mods[mod], fn)(arg))
                except Exception:
                    r = (False, traceback.format_exc())
                _send(o, r)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        _send(o, None)                                                      # end mark: also sent when the child died


_server = {}


def fresh(mod, fn, arg):
    """(True, result) or (False, traceback); None when the process died"""
    p = _server.get(os.getpid())
    if p is None or p.poll() is not None:
        p = _server[os.getpid()] = subprocess.Popen([sys.executable, "-c", "from harness import zygote; zygote.serve()"], cwd=HERE, stdin=subprocess.PIPE,
                                                    stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    _send(p.stdin, (mod, fn, arg))
    r = _recv(p.stdout)
    if r is not None:
        _recv(p.stdout)
    return r
