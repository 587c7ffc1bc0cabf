"""Star-stamp stores: histories over images, threads and forked processes."""
import gc
import hashlib
import json
import os
import queue
import random
import socket
import struct
import sys
import tempfile
import threading

import numpy as np

# third-party modules only: properimage itself is imported by each playing process
import astroalign  # noqa
import astropy.convolution, astropy.modeling, astropy.stats, astropy.nddata.utils, astropy.io.fits  # noqa
import astroscrappy, joblib, matplotlib.pyplot, pyfftw, scipy.ndimage, scipy.optimize, scipy.sparse, sep, tinynpydb  # noqa

from pimv import images
from pimv.obs import HarnessError

CAT = [("y", float), ("x", float), ("flux", float), ("npix", int), ("flag", int)]
EXC = dict(ValueError=ValueError, OSError=OSError, KeyboardInterrupt=KeyboardInterrupt, StopIteration=StopIteration)


def pixels(k):
    return np.round(images.field(40 + k, (48, 48), 4, noise=3, margin=10), 2)


def make(k):
    from properimage import SingleImage
    from properimage.single_image import SingleImageGaussPSF

    cls = SingleImageGaussPSF if k % 4 == 3 else SingleImage
    im = cls(pixels(k), stamp_shape=(5, 5))
    p = images.positions(40 + k, (48, 48), 4, margin=10)
    cat = np.zeros(len(p), CAT)
    cat["y"], cat["x"] = p.T
    im.update_sources(cat)
    return im


def value(im):
    """What the stamps are: hash of all of them."""
    st = [np.round(np.asarray(im.db.load(i)[0], float), 9).tobytes() for i in range(im.n_sources)]
    return int.from_bytes(hashlib.sha1(b"".join(st)).digest()[:3], "big") + 1


class Actor:
    """Runs operations on the images of one process; one thread per image."""

    def __init__(self, threads, reseed=False):
        self.threads, self.reseed = threads, reseed
        self.im, self.q = {}, {}

    def do(self, e):
        if not self.threads or e["op"] == "drop":
            return self._op(e)
        i = e["i"]
        if i not in self.q:
            self.q[i] = (queue.Queue(), queue.Queue())
            threading.Thread(target=self._loop, args=(i,), daemon=True).start()
        self.q[i][0].put(e)
        return self.q[i][1].get(timeout=100)

    def _loop(self, i):
        while True:
            e = self.q[i][0].get()
            self.q[i][1].put(self._op(e))

    def _op(self, e):
        op, i = e["op"], e["i"]
        out, val = "", 0
        try:
            if op == "new":
                if self.reseed:  # a user who wants reproducible simulations
                    np.random.seed(5)
                    random.seed(5)
                self.im[i] = make(1 if i == 2 else i)
            elif op in ("cut", "read"):
                im = self.im[i]
                if op == "cut":
                    im.n_sources
                elif e.get("how", 0) % 3 == 1:
                    if not hasattr(im, "_pimv"):
                        im._pimv = True
                    im.cov_matrix
                val = value(im)
            elif op == "drop":
                del self.im[i]
                gc.collect()
            elif op == "leave":
                im = self.im[i]
                if e["x"] == "clean":
                    im._clean()
                    out = "clean"
                else:
                    exc = EXC[e["x"]]("mine") if e["x"] != "end" else None
                    try:
                        with im as got:
                            if got is not im:
                                out = "other-image-entered"
                            if exc is not None:
                                raise exc
                        out = out or "end"
                    except BaseException as x:
                        out = type(x).__name__ if x is exc else "other-" + type(x).__name__
        except BaseException as x:
            out = "failed-" + type(x).__name__
        return out, val


def send(s, o):
    b = json.dumps(o).encode()
    s.sendall(struct.pack(">I", len(b)) + b)


def recv(s):
    def n(k):
        b = b""
        while len(b) < k:
            c = s.recv(k - len(b))
            if not c:
                raise EOFError
            b += c
        return b
    return json.loads(n(struct.unpack(">I", n(4))[0]))


def snapshot(root, ids):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if not f.endswith((".out", ".cases")):
                try:
                    st = os.stat(p)
                    with open(p, "rb") as h:
                        out[ids.setdefault((p, st.st_ino), len(ids) + 1)] = (hashlib.sha1(h.read()).hexdigest(), p)
                except FileNotFoundError:
                    pass
    return out


def play(c, root):
    """In a pristine process: play the history, forking when it says so."""
    import properimage.single_image  # noqa  the temporary directory belongs to the first process

    socks = {}

    def fork(p):
        a, b = socket.socketpair()
        if os.fork() == 0:
            a.close()
            act = Actor(c["threads"], c.get("reseed"))
            try:
                while True:
                    e = recv(b)
                    if e["op"] == "quit":
                        break
                    send(b, act.do(e))
            except EOFError:
                pass
            os._exit(0)
        b.close()
        a.settimeout(100)
        socks[p] = a
    forks = [e for e in c["hist"] if e["op"] == "fork"]
    me = Actor(c["threads"], c.get("reseed"))
    where, ids, evs = {}, {}, []
    names = {}
    if c["early"]:
        for e in forks:
            fork(e["i"])
    before = snapshot(root, ids)
    for k, e in enumerate(c["hist"]):
        if e["op"] == "fork":
            if not c["early"]:
                fork(e["i"])
            continue
        e = dict(e, how=k)
        if e["op"] == "new":
            where[e["i"]] = int(e["x"])
        if e["op"] == "lose":
            mine = sorted(names.get(e["i"], ()))
            hit = [f for f in mine if f in before and before[f][1].endswith("." + e["x"])] or [f for f in mine if f in before][:1]
            for f in hit[:1]:
                os.remove(before[f][1])
            out, val = "", 0
        elif where[e["i"]] == 0:
            out, val = me.do(e)
        else:
            send(socks[where[e["i"]]], e)
            out, val = recv(socks[where[e["i"]]])
        after = snapshot(root, ids)
        made = [f for f in after if f not in before]
        names.setdefault(e["i"], set()).update(made if e["op"] in ("cut", "new", "read") else ())
        evs.append(dict(op=e["op"], i=e["i"], x=e["x"], out=out, val=val, made=made, gone=[f for f in before if f not in after],
                        changed=[f for f in after if f in before and after[f][0] != before[f][0]]))
        before = after
    for s in socks.values():
        send(s, dict(op="quit"))
    return evs


def storm(c, root):
    """Everybody at once: processes times threads, each with its own images."""
    import properimage.single_image  # noqa

    kids, evs = [], []
    for p in range(c["procs"]):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            res = {}

            def one(i):
                a = Actor(False, c.get("reseed"))
                out = [a.do(dict(op=op, i=i, x="end", how=1)) for op in ("new", "cut", "read", "read")]
                res[i] = [out, a]
            ts = [threading.Thread(target=one, args=(p * c["nthreads"] + t + 1,)) for t in range(c["nthreads"])]
            [t.start() for t in ts]
            [t.join(100) for t in ts]
            left = {i: res[i][1].do(dict(op="leave", i=i, x="end")) for i in res if i % 2}
            again = {i: res[i][1].do(dict(op="read", i=i, x="", how=0)) for i in res if i % 2 == 0}
            fin = {i: res[i][1].do(dict(op="leave", i=i, x="ValueError")) for i in res if i % 2 == 0}
            os.write(w, json.dumps([{i: res[i][0] for i in res}, left, again, fin]).encode())
            os._exit(0)
        os.close(w)
        kids.append((pid, r))
    ok, vals = True, {}
    for pid, r in kids:
        b = b""
        while True:
            x = os.read(r, 1 << 16)
            if not x:
                break
            b += x
        os.waitpid(pid, 0)
        res, left, again, fin = json.loads(b)
        for i, out in res.items():
            vals.setdefault(int(i), []).extend(o for o in out[1:])
        for i, o in again.items():
            vals[int(i)].append(o)
        ok = ok and all(o[0] == "end" for o in left.values()) and all(o[0] == "ValueError" for o in fin.values())
    rest = snapshot(root, {})
    for i in sorted(vals):
        evs.append(dict(op="new", i=i, x="0", out="", val=0, made=[], gone=[], changed=[]))
        for k, o in enumerate(vals[i]):
            evs.append(dict(op="cut" if k == 0 else "read", i=i, x="", out=o[0], val=o[1], made=[100 + i] if k == 0 else [], gone=[], changed=[]))
    for n, i in enumerate(sorted(vals)):
        evs.append(dict(op="leave", i=i, x="end", out="end" if ok else "failed", val=0, made=[f for f in rest] if n == 0 else [], gone=[100 + i], changed=[]))
    return evs


CONTENT = {}


def run(c):
    root = tempfile.mkdtemp(prefix="db-", dir=os.environ["TMPDIR"])
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 1
        try:
            os.environ["TMPDIR"] = root
            tempfile.tempdir = None
            os.chdir(root)
            if c["mode"] == "content":
                b = json.dumps({i: Actor_solo(i) for i in c["images"]})
            else:
                b = json.dumps((storm if c["mode"] == "storm" else play)(c, root))
            b = b.encode()
            while b:
                b = b[os.write(w, b):]
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
        os._exit(code)
    os.close(w)
    b = b""
    while True:
        x = os.read(r, 1 << 16)
        if not x:
            break
        b += x
    os.close(r)
    os.waitpid(pid, 0)
    if not b:
        raise HarnessError("no answer from the playing process")
    if c["mode"] == "content":
        return dict(content=json.loads(b))
    return dict(events=json.loads(b), content=c["content"])


def Actor_solo(i):
    a = Actor(False)
    a.do(dict(op="new", i=i, x=""))
    out = a.do(dict(op="cut", i=i, x=""))
    a.do(dict(op="leave", i=i, x="clean"))
    if out[0]:
        raise RuntimeError(out[0])
    return out[1]
