"""
Run by C32 in an interpreter of its own: python [options] envworker.py SPEC OUT

SPEC (JSON): first (submodule to import first), setting (name, see SETTINGS), ops (which operations),
mode ("results" or "left"). Writes JSON to OUT: the result of each operation, or what changed in the
state of the process.
"""

import atexit
import contextlib
import decimal
import gc
import importlib
import io
import json
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import time
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.getcwd()


# --- the state of the process ---------------------------------------------------------------
def handlers():
    out = []
    for s in sorted(signal.valid_signals()):
        try:
            out.append((int(s), repr(signal.getsignal(s))))
        except (ValueError, OSError):
            pass
    return out


def snapshot():
    """State of the process which other code depends on: name -> comparable."""
    import builtins
    import resource
    import tempfile

    mask = os.umask(0o22)
    os.umask(mask)
    root = logging.getLogger()
    # the descriptor of the listing itself is not there any more
    fds = [(f, os.readlink(f"/proc/self/fd/{f}")) for f in os.listdir("/proc/self/fd") if os.path.exists(f"/proc/self/fd/{f}")]
    return {
        "decimal context": repr(decimal.getcontext().copy().__reduce__()) + repr(sorted(map(str, decimal.getcontext().traps.items()))),
        "decimal default context": repr(decimal.DefaultContext),
        "locale": locale.setlocale(locale.LC_ALL),
        "environment": dict(os.environ),
        "time zone": (time.tzname, time.timezone, time.daylight),
        "working directory": os.getcwd(),
        "umask": mask,
        "signal handlers": handlers(),
        "timer": signal.getitimer(signal.ITIMER_REAL),
        "threads": sorted(t.name for t in threading.enumerate()),
        "thread hooks": (repr(threading.excepthook), threading.stack_size(), repr(threading.gettrace()), repr(threading.getprofile())),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "int digits": sys.get_int_max_str_digits(),
        "hooks": repr([sys.excepthook, sys.displayhook, sys.unraisablehook, sys.breakpointhook, sys.gettrace(), sys.getprofile()]),
        "streams": [(id(x), x.encoding, x.errors, x.line_buffering, x.closed) for x in (sys.stdin, sys.stdout, sys.stderr)],
        "exit functions": atexit._ncallbacks(),  # pylint: disable=protected-access
        "import paths": (list(sys.path), repr(sys.meta_path), list(sys.path_hooks)),
        "arguments": list(sys.argv),
        "warnings": (repr(warnings.filters), repr(warnings.showwarning)),
        "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks), gc.get_freeze_count()),
        "random numbers": random.getstate(),
        "socket timeout": socket.getdefaulttimeout(),
        "logging": (
            root.level, repr(root.handlers), root.filters, root.disabled, logging.root.manager.disable, logging.raiseExceptions,
            repr(logging.lastResort), repr(logging.getLoggerClass()), repr(logging.getLogRecordFactory()),
            [logging.getLevelName(i) for i in range(60)],
            # settings of loggers other than the default ones
            sorted(
                (n, x.level, x.propagate, x.disabled, repr(x.filters))
                for n, x in logging.root.manager.loggerDict.items()
                if isinstance(x, logging.Logger) and (x.level or not x.propagate or x.disabled or x.filters)
            ),
        ),
        "open files": sorted(fds),
        "builtins": {n: id(v) for n, v in vars(builtins).items() if n != "_"},
        "standard functions": [
            id(f) for f in (socket.socket, socket.create_connection, socket.getaddrinfo, time.time, time.sleep, os.environ, json.dumps, json.JSONEncoder.default)
        ],
        "temporary directory": tempfile.tempdir,
        "limits": [resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CPU)],
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
    }


def differences(a, b):
    return [f"{k}: {str(a[k])[:200]} becomes {str(b[k])[:200]}" for k in a if a[k] != b[k]]


def tree(path):
    out = []
    for d, ds, fs in os.walk(path):
        for n in sorted(ds + fs):
            st = os.lstat(os.path.join(d, n))
            out.append((os.path.relpath(os.path.join(d, n), path), st.st_mode, st.st_mtime_ns if n in fs else 0))
    return sorted(out)


# --- settings which a program may have made -------------------------------------------------
@contextlib.contextmanager
def setting(name):
    kind, _, arg = name.partition(" ")
    if kind == "decimal":
        with decimal.localcontext() as ctx:
            for kv in arg.split(","):
                k, v = kv.split("=")
                if k == "traps":
                    ctx.traps = {s: True for s in decimal.getcontext().traps} if v == "all" else {s: False for s in decimal.getcontext().traps}
                else:
                    setattr(ctx, k, v if k == "rounding" else int(v))
            yield
    elif kind == "locale":
        was = locale.setlocale(locale.LC_ALL)
        locale.setlocale(locale.LC_ALL, arg)
        yield
        locale.setlocale(locale.LC_ALL, was)
    elif kind == "gc":
        gc.set_threshold(1) if arg == "often" else gc.disable()
        yield
        gc.enable()
        gc.set_threshold(700, 10, 10)
    elif kind == "digits":
        was = sys.get_int_max_str_digits()
        sys.set_int_max_str_digits(int(arg))
        yield
        sys.set_int_max_str_digits(was)
    elif kind == "timeout":
        socket.setdefaulttimeout(float(arg))
        yield
        socket.setdefaulttimeout(None)
    elif kind == "zone":
        was = os.environ.get("TZ")
        os.environ["TZ"] = arg
        time.tzset()
        yield
        os.environ["TZ"] = was or ""
        time.tzset()
    elif kind == "logging":
        if arg == "off":
            logging.disable(logging.CRITICAL)
        elif arg == "debug":

            class Strict(logging.Handler):
                def emit(self, record):
                    self.format(record)

                def handleError(self, record):
                    raise  # pylint: disable=misplaced-bare-raise

            lg = logging.getLogger("pynmeagps")
            lg.setLevel(1)
            lg.addHandler(Strict())
        yield
        logging.disable(logging.NOTSET)
    elif kind == "streams":
        was = sys.stdin, sys.stdout, sys.stderr
        sys.stdin = sys.stdout = sys.stderr = None
        yield
        sys.stdin, sys.stdout, sys.stderr = was
    elif kind == "trace":
        sys.settrace(lambda *a: None)
        sys.setprofile(lambda *a: None)
        yield
        sys.settrace(None)
        sys.setprofile(None)
    elif kind == "directory":
        os.mkdir("gone")
        os.chdir("gone")
        os.rmdir(os.getcwd())
        yield
        os.chdir("/")
    elif kind == "environment":
        was = dict(os.environ)
        os.environ.clear()
        yield
        os.environ.update(was)
    elif kind == "random":
        random.seed(int(arg))
        yield
    else:
        assert kind in ("", "thread"), name
        yield


class Altered(Exception):
    """Something the operation was given is not as it was."""


# --- operations -----------------------------------------------------------------------------
def real_streams(P):
    """Operations with streams of the operating system, which must be left as they are."""
    from mc import ref, stream as S

    data = S.DOL.data + S.SHORT.data + b"\xb5\x62" + ref.sentence("GNXYZ,1,2") + S.BADCK.data

    def state(s):
        return (
            s.gettimeout(), s.getblocking(), s.fileno() >= 0, os.get_inheritable(s.fileno()),
            [s.getsockopt(socket.SOL_SOCKET, o) for o in (socket.SO_RCVBUF, socket.SO_SNDBUF, socket.SO_RCVTIMEO, socket.SO_SNDTIMEO, socket.SO_KEEPALIVE)],
        )

    def sock(timeout, encoding):
        a, b = socket.socketpair()
        with a, b:
            a.settimeout(timeout)
            body = data if encoding == 0 else b"%x\r\n%s\r\n0\r\n\r\n" % (len(data), data)
            b.sendall(body)
            b.shutdown(socket.SHUT_WR)
            was = state(a)
            out = [(r, str(m)) for r, m in P.NMEAReader(a, quitonerror=0, encoding=encoding)]
            if state(a) != was:
                raise Altered(f"socket changes from {was} to {state(a)}")
            return out

    def file(buffering):
        name = os.path.join(SCRATCH, "scratch.bin")
        with open(name, "wb") as f:
            f.write(data)
        with open(name, "rb", buffering=buffering) as f:
            was = f.mode, f.closed, os.get_blocking(f.fileno())
            out = [(r, str(m)) for r, m in P.NMEAReader(f, quitonerror=0)]
            if (f.mode, f.closed, os.get_blocking(f.fileno())) != was:
                raise Altered("file changes")
        os.unlink(name)
        return out

    def logged(policy, handler, nmeaonly):
        """Events and what is logged while a stream with errors is read."""
        out, recs = [], []

        class Keep(logging.Handler):
            def emit(self, record):
                recs.append((record.levelname, record.name.split(".", maxsplit=1)[0], record.getMessage()))

        lg, keep = logging.getLogger("pynmeagps"), Keep()
        lg.addHandler(keep)
        try:
            kw = {"errorhandler": lambda err: out.append((type(err).__name__, str(err)))} if handler else {}
            bad = data + S.BADFLD.data + S.TALK.data + b"$$x" + S.SHORT.data + b"$GNGLL,1"
            rdr = P.NMEAReader(io.BytesIO(bad), quitonerror=policy, validate=3, nmeaonly=nmeaonly, **kw)
            while True:
                try:
                    raw, msg = rdr.read()
                except (P.NMEAParseError, P.NMEAMessageError, P.NMEATypeError, P.NMEAStreamError) as err:
                    out.append(("raised", type(err).__name__, str(err)))
                    continue
                if raw is None:
                    break
                out.append((raw, str(msg)))
        finally:
            lg.removeHandler(keep)
        return out, recs

    def wrapper(encoding):
        a, b = socket.socketpair()
        with a, b:
            b.sendall(data if encoding == 0 else b"%x\r\n%s\r\n" % (len(data), data))
            w = P.SocketWrapper(a, encoding=encoding)
            n = w.write(b"$EIGNQ,RMC*24\r\n")
            return n, b.recv(100), w.in_waiting(), bytes(w.buffer), w.read(5), w.readline(), w.in_waiting()

    def message():
        import copy
        import pickle

        m = P.NMEAReader.parse(S.GSV.data)
        out = [str(copy.copy(m)), str(copy.deepcopy(m)), pickle.loads(pickle.dumps(m)).serialize(), repr(m), hash(m) == hash(m)]
        for f in (lambda: setattr(m, "numSV", 1), lambda: setattr(m, "x", 1), lambda: delattr(m, "numSV"), lambda: m.nothing):
            try:
                out.append(f())
            except Exception as err:  # pylint: disable=broad-except
                out.append((type(err).__name__, str(err)))
        return out

    def arguments(args, kw):
        try:
            return repr(type(P.NMEAReader(io.BytesIO(data), *args, **kw).datastream))
        except Exception as err:  # pylint: disable=broad-except
            return type(err).__name__, str(err)

    def mode(k, f):
        m = (-1, 3, None, "0", 0.5, True)[k]
        try:
            if f == "parse":
                return str(P.NMEAReader.parse(S.GLL.data, msgmode=m))
            return str(P.NMEAMessage("GN", "GLL", m, lat=1.5))
        except Exception as err:  # pylint: disable=broad-except
            return type(err).__name__, str(err)

    o = {}
    for k in range(6):
        for f in ("parse", "generate"):
            o[f"{f} mode {k}"] = lambda live, k=k, f=f: mode(k, f)
    for p in (0, 1, 2):
        for h in (False, True):
            for n in (False, True):
                o[f"errors policy {p} handler {h} nmeaonly {n}"] = lambda live, a=(p, h, n): logged(*a)
    for e in (0, 1):
        o[f"wrapper encoding {e}"] = lambda live, e=e: wrapper(e)
    o["message use"] = lambda live: message()
    for i, a in enumerate([((), {}), ((7,), {}), ((2, 3, True, 2), {}), ((), {"bufsize": 1, "encoding": 15}), ((), {"nothing": 1})]):
        o[f"reader arguments {i}"] = lambda live, a=a: arguments(*a)
    for t in (None, 5.0):
        for e in (0, 1):
            o[f"real socket timeout {t} encoding {e}"] = lambda live, t=t, e=e: sock(t, e)
    for b in (0, -1):
        o[f"real file buffering {b}"] = lambda live, b=b: file(b)
    return o


def operations(P, which, part):
    from checks import c16
    from mc import ref

    o = {}
    if "ops" in which:
        o.update(c16.ops(P))
        o.update(real_streams(P))
    if "variants" in which:
        for n, fam in c16.variants(P).items():
            for k, (label, fun) in enumerate(fam):
                o[f"{n} {k} {label}"] = fun
    if "defs" in which:
        for d in ref.all_defs():
            o.update(c16.dops(P, d))
    names = list(o)[part[0] :: part[1]]
    return {n: o[n] for n in names}


def run(P, spec):
    table = operations(P, spec["ops"], spec["part"])
    out = {}
    for n, f in table.items():
        try:
            out[n] = repr(f(None))
        except BaseException as err:  # pylint: disable=broad-except
            out[n] = f"raises {type(err).__name__}: {err}"
    return out


def left(P, spec, scratch):
    """Run each operation; what it changes."""
    table = operations(P, spec["ops"], spec["part"])
    bad, n = [], 0
    was, files = snapshot(), tree(scratch)
    for name, f in table.items():
        n += 1
        try:
            f(None)
        except Altered as err:
            bad.append(f"{name}: {err}")
        except BaseException:  # pylint: disable=broad-except
            pass
        now = snapshot()
        sys.stdout.flush()
        sys.stderr.flush()
        files2 = tree(scratch)
        d = differences(was, now)
        if files2 != files:
            d.append(f"files change from {files} to {files2}"[:600])
        if d:
            bad.append(f"after {name}: {d[0]}")
            was, files = snapshot(), files2
        if len(bad) > 5:
            break
    return bad, n


def main():
    specfile, outfile = sys.argv[1:3]
    with open(specfile, encoding="utf-8") as f:
        spec = json.load(f)
    src = os.path.join(os.environ["VERIF_REPO"], "src")
    sys.path.insert(0, VERIF)
    sys.path.insert(0, src)
    scratch = SCRATCH
    out = {}
    if spec["mode"] == "import":
        # nothing of the framework is imported: only what the package itself does
        was, files = snapshot(), tree(scratch)
        for n in spec["first"]:
            importlib.import_module(n)
        # modules of the standard library register exit functions
        out["bad"] = differences({k: v for k, v in was.items() if k != "exit functions"}, snapshot()) + ([f"files {tree(scratch)}"] if tree(scratch) != files else [])
        out["n"] = 1
    else:
        for n in spec["first"]:
            importlib.import_module(n)
        from mc import core

        P = core.use_repo()
        if spec["mode"] == "left":
            out["bad"], out["n"] = left(P, spec, scratch)
        else:
            out["results"] = {}
            for s in spec["settings"]:
                if s == "thread":
                    box = []
                    t = threading.Thread(target=lambda: box.append(run(P, spec)))  # pylint: disable=cell-var-from-loop
                    t.start()
                    t.join()
                    out["results"][s] = box[0]
                else:
                    with setting(s):
                        out["results"][s] = run(P, spec)
    with open(outfile, "w", encoding="ascii") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
