"""Python side of the faultfs seam (see shim/faultfs.c)."""

import ctypes
import hashlib
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, "shim", "faultfs.c")
BUILD = os.path.join(os.path.dirname(HERE), ".build")

K = dict(open=1, read=2, write=4, trunc=8, close=16, sync=32, rename=64, unlink=128)
A_ERRNO, A_SHORT = 1, 2
JOPS = {1: "create", 2: "write", 3: "trunc", 4: "unlink", 5: "rename", 6: "sync", 7: "close", 8: "mkdir", 9: "rmdir"}


def build_shim():
    """Compile the shim if this exact source has not been compiled yet; return its path."""
    with open(SRC, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(BUILD, f"faultfs-{tag}.so")
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=BUILD, suffix=".so")
    os.close(fd)
    env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, SRC, "-ldl", "-lpthread"], check=True, env=env)
    os.rename(tmp, out)
    return out


class FaultFS:
    """One per process: control of the preloaded shim."""

    def __init__(self):
        lib = ctypes.CDLL(None)
        lib.ffs_present  # AttributeError when not preloaded
        lib.ffs_set_root.argtypes = [ctypes.c_char_p]
        lib.ffs_arm.argtypes = [ctypes.c_int, ctypes.c_int]
        lib.ffs_add_fault.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_long]
        lib.ffs_fired.restype = ctypes.c_long
        lib.ffs_fired.argtypes = [ctypes.c_int]
        lib.ffs_count.restype = ctypes.c_long
        lib.ffs_count.argtypes = [ctypes.c_int]
        lib.ffs_jlen.restype = ctypes.c_long
        lib.ffs_jget.argtypes = [
            ctypes.c_long,
            ctypes.POINTER(ctypes.c_int),
            ctypes.POINTER(ctypes.c_char_p),
            ctypes.POINTER(ctypes.c_char_p),
            ctypes.POINTER(ctypes.c_longlong),
            ctypes.POINTER(ctypes.c_longlong),
            ctypes.POINTER(ctypes.c_void_p),
        ]
        self.lib = lib
        self.root = None

    def set_root(self, path):
        self.root = path
        self.lib.ffs_set_root(path.encode() if path else b"")

    def begin(self, journal=False, faults=()):
        """Start numbering operations.  faults: list of dict(kind, nth, errno|short, count)."""
        self.lib.ffs_clear_journal()
        self.lib.ffs_clear_faults()
        self.faults = list(faults)
        for f in self.faults:
            if "errno" in f:
                act, arg = A_ERRNO, f["errno"]
            else:
                act, arg = A_SHORT, f["short"]
            self.lib.ffs_add_fault(K[f["kind"]], f["nth"], act, arg, f.get("count", 1))
        self.lib.ffs_arm(1 if journal else 0, 1 if self.faults else 0)

    def end(self):
        self.lib.ffs_disarm()
        return [self.lib.ffs_fired(i) for i in range(len(self.faults))]

    def counts(self):
        return {k: self.lib.ffs_count(v) for k, v in K.items()}

    def journal(self):
        out = []
        op, p1, p2 = ctypes.c_int(), ctypes.c_char_p(), ctypes.c_char_p()
        off, ln, data = ctypes.c_longlong(), ctypes.c_longlong(), ctypes.c_void_p()
        for i in range(self.lib.ffs_jlen()):
            self.lib.ffs_jget(i, op, p1, p2, off, ln, data)
            payload = ctypes.string_at(data.value, ln.value) if data.value else b""
            out.append((JOPS[op.value], p1.value.decode(), p2.value.decode() if p2.value else None, off.value, payload))
        return out


def snapshot(d):
    """dict relpath -> bytes of every regular file under d"""
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def replay(initial, journal, root, upto, torn=None):
    """Files on disk for a process killed after `upto` journalled operations.

    torn: if given, only that many bytes of the next (write) operation landed as well.
    """
    st = {k: bytearray(v) for k, v in initial.items()}
    entries = list(journal[:upto])
    if torn is not None and upto < len(journal) and journal[upto][0] == "write":
        op, p, p2, off, data = journal[upto]
        entries.append((op, p, p2, off, data[:torn]))

    def rel(p):
        return os.path.relpath(p, root)

    for op, p, p2, off, data in entries:
        r = rel(p)
        if op == "create":
            st.setdefault(r, bytearray())
        elif op == "write":
            b = st.setdefault(r, bytearray())
            if len(b) < off:
                b.extend(b"\0" * (off - len(b)))
            b[off : off + len(data)] = data
        elif op == "trunc":
            b = st.setdefault(r, bytearray())
            if len(b) > off:
                del b[off:]
            else:
                b.extend(b"\0" * (off - len(b)))
        elif op == "unlink":
            st.pop(r, None)
        elif op == "rename":
            if data or p not in [None] and r not in st:
                st[rel(p2)] = bytearray(data)
            else:
                st[rel(p2)] = st.pop(r)
    return st


def materialise(state, d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for r, b in state.items():
        p = os.path.join(d, r)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)
