"""Access to the code under test: instrumented (symbolic runs) or as it is (replays)."""
import os
import sys
import types

from .core import R

REPO = os.environ.get("QTCODES_REPO", "/repo")
_ns = None


def load(native):
    """Import qtcodes from /repo's current working tree; once per process."""
    global _ns
    if _ns is not None:
        return _ns
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    if native:
        from . import models

        models.native_hook()
        import qtcodes
        import qtcodes.tools.benchmarking
    else:
        import retworkx  # noqa: the real modules first
        from . import instrument, models

        instrument.install(REPO, "qtcodes")
        with models.swapped():
            import qtcodes
            import qtcodes.tools.benchmarking
    f = os.path.realpath(qtcodes.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("qtcodes imported from %s" % f)
    R.native = native
    _ns = _namespace(qtcodes)
    return _ns


def _namespace(qtcodes):
    ns = types.SimpleNamespace(qtcodes=qtcodes)
    import qtcodes.circuits.base as base
    import qtcodes.circuits.circ as circ
    import qtcodes.circuits.xzzx as xzzx

    ns.base, ns.circ, ns.xzzx = base, circ, xzzx
    ns.bench = sys.modules["qtcodes.tools.benchmarking"]
    for n in ("XXZZQubit", "XZZXQubit", "RepetitionQubit", "RotatedDecoder", "RepetitionDecoder"):
        for m in (qtcodes, xzzx):
            if hasattr(m, n):
                setattr(ns, n, getattr(m, n))
                break
    ns.LatticeError = base.LatticeError
    ns.TopologicalRegister, ns.TopologicalCircuit = circ.TopologicalRegister, circ.TopologicalCircuit
    ns.KIND = {"XXZZ": ns.XXZZQubit, "XZZX": ns.XZZXQubit, "REP": ns.RepetitionQubit}
    return ns


class fresh:
    """Context in which the package has just been imported: nothing has used it before.

    What classes and modules keep for all their instances starts empty; Q() gives the new classes."""

    def __enter__(self):
        global _ns
        Q()
        self.ns = _ns
        self.modules = _take()
        try:
            if R.native:
                import qtcodes.tools.benchmarking
            else:
                from . import models

                with models.swapped():
                    import qtcodes.tools.benchmarking
            _ns = _namespace(sys.modules["qtcodes"])
        except BaseException:
            self.__exit__()
            raise
        return _ns

    def __exit__(self, *a):
        global _ns
        _take()
        sys.modules.update(self.modules)
        _ns = self.ns


def _take():
    return {n: sys.modules.pop(n) for n in list(sys.modules) if n == "qtcodes" or n.startswith("qtcodes.")}


def Q():
    return _ns if _ns is not None else load(R.native)


# ---- functions of /repo actually executed
_seen = set()


def trace_functions():
    m = getattr(sys, "monitoring", None)
    if m is None:
        return
    root = os.path.realpath(REPO) + os.sep

    def start(code, off):
        if code.co_filename.startswith(root):
            _seen.add((code.co_filename[len(root):], code.co_qualname))
        return m.DISABLE

    try:
        m.use_tool_id(4, "symqt")
    except ValueError:
        pass
    m.register_callback(4, m.events.PY_START, start)
    m.set_events(4, m.events.PY_START)


def functions():
    out = set()
    for f, q in _seen:
        if any(p.startswith("_vrt_") or p == "<lambda>" for p in q.split(".")) or "<module>" in q:
            continue
        q = q.replace(".<locals>", "")
        out.add("%s:%s" % (f, q))
    return sorted(out)
