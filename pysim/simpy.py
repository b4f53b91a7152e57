"""Deterministic simulation runtime for the Python parts of SIREN.

Simulated processes are OS threads of which exactly one runs at a time; they can only
interact through the file system and the network, both of which go through the layer
below, so every interleaving is decided at those calls by one recorded stream of
choices.  Value 0 of a choice always means "no fault, no switch, simplest input".
"""
import _io, _thread, builtins, errno, fcntl, hashlib, http.client, io, json, os, random, re, shutil, socket, ssl, stat, struct, sys, tempfile, threading, time, types, urllib.parse

REAL = {n: getattr(os, n) for n in ("open close read write readv writev pread pwrite lseek ftruncate truncate fsync fdatasync rename replace renames remove unlink mkdir rmdir listdir scandir stat lstat fstat readlink symlink link utime chmod fchmod chown access getpid getppid urandom sendfile copy_file_range dup dup2 kill _exit statvfs").split() if hasattr(os, n)}
R_OPEN = builtins.open
R_TIME = {n: getattr(time, n) for n in ("time", "monotonic", "sleep", "time_ns", "monotonic_ns", "perf_counter")}
R_FLOCK, R_LOCKF = fcntl.flock, fcntl.lockf
MASK = (1 << 64) - 1

def mix(h, v):
    h = (h ^ (v & MASK)) * 0x9E3779B97F4A7C15 & MASK
    return h ^ (h >> 29)
def hstr(s, h=0x1234567):
    if isinstance(s, str): s = s.encode("utf8", "surrogatepass")
    return mix(h, int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), "little"))

class Violation(BaseException):
    def __init__(self, cls, msg): self.cls, self.msg = cls, msg
class Killed(BaseException): pass
class InternalError(BaseException): pass

class Proc:
    def __init__(self, w, name, target, pid):
        self.w, self.name, self.target, self.pid = w, name, target, pid
        self.lock = _thread.allocate_lock(); self.lock.acquire()
        self.done = self.dead = False; self.exc = None; self.ret = None
        self.steps = 0; self.kill_at = -1; self.faults = []; self.fired = []; self.hard = False
        self.fds = set(); self.off = False
    # -------- a fault plan: list of [kind, countdown, param]
    def add_fault(self, kind, countdown, **param): self.faults.append([kind, countdown, param])
    def fault(self, kind):
        """Does a fault of this kind fire at this point?  Returns its parameters or None."""
        for f in self.faults:
            if f[0] == kind and f[1] is not None:
                if f[1] == 0:
                    if not f[2].get("sticky"): f[1] = None
                    self.fired.append(kind); self.w.count_fault(kind)
                    if not f[2].get("benign"): self.hard = True
                    self.w.log(f"{self.name}: fault {kind}")
                    return f[2]
                f[1] -= 1
        return None

class World:
    def __init__(self, choices=None, seed=0, scratch="/tmp"):
        self.rec, self.rep, self.pos = [], choices, 0
        self.rng = random.Random(seed)
        self.events, self.h, self.trace = 0, 0x9dc5, []
        self.faults, self.probes, self.trivial = {}, {}, False
        self.now, self.steps, self.limit, self.switches, self.preempts = 0.0, 0, 60000, 0, 0
        self.base = scratch; self.root = os.path.join(scratch, "w")
        self.procs, self.byid, self.nextpid = [], {}, 4000
        self.mainlock = _thread.allocate_lock(); self.mainlock.acquire()
        self.violation = None; self.checker = None; self.readonly = []; self.allow = None; self.gap = None; self.maxgap = 40
        self.server = None; self.rev = False; self.urand = None; self.outside = []; self.cur = None; self.nproc = 0
    # -------- choices
    def choose(self, n):
        if n <= 1: v = 0
        elif self.rep is not None:
            v = self.rep[self.pos] % n if self.pos < len(self.rep) else 0
        else: v = self.rng.randrange(n)
        self.pos += 1; self.rec.append(v)
        if len(self.rec) > 200000: raise InternalError("too many choices")
        return v
    def chance(self, p):
        k = 1 << 16; v = self.choose(k)          # 0 = no
        return v >= k - int(p * k)
    def pick(self, seq): return seq[self.choose(len(seq))]
    def weighted(self, ws):
        v = self.choose(sum(ws))
        for i, x in enumerate(ws):
            if v < x: return i
            v -= x
    def log_uniform(self, m):
        b = self.choose(m.bit_length() + 1)
        if b == 0: return 0
        lo = 1 << (b - 1); hi = min(m, (1 << b) - 1)
        return lo + self.choose(hi - lo + 1) if hi >= lo else m
    def bytes(self, n):
        return random.Random(self.choose(1 << 30)).randbytes(n)
    # -------- reporting
    def log(self, s):
        self.events += 1; self.h = hstr(s, self.h)
        if len(self.trace) < 400: self.trace.append(s)
    def count_fault(self, k): self.faults[k] = self.faults.get(k, 0) + 1
    def probe(self, k, n=1): self.probes[k] = self.probes.get(k, 0) + n
    def fail(self, cls, msg): raise Violation(cls, msg)
    def check(self, ok, cls, msg):
        if not ok: raise Violation(cls, msg)
    # -------- processes
    def spawn(self, name, target, pid=None):
        if pid is None: self.nextpid += 1; pid = self.nextpid
        p = Proc(self, name, target, pid); self.procs.append(p); self.nproc += 1
        return p
    def run(self, procs):
        """Runs the given processes to their end under the scheduler."""
        self.active = [p for p in procs]; self.gap = self.log_uniform(self.maxgap) or 10**9
        for p in procs: threading.Thread(target=self._body, args=(p,), daemon=True).start()
        first = self.active[self.choose(len(self.active))]
        self.cur = first; first.lock.release(); self.mainlock.acquire(); self.cur = None
        if self.violation is not None:
            v, self.violation = self.violation, None; raise v
    def _body(self, p):
        p.lock.acquire(); self.byid[_thread.get_ident()] = p
        try:
            if not p.dead: p.ret = p.target()
        except Killed: p.exc = Killed()
        except Violation as v:
            if self.violation is None: self.violation = v
        except InternalError as v:
            if self.violation is None: self.violation = v
        except BaseException as e:
            p.exc = e; e.__traceback__ = None; e.__context__ = None
        p.done = True; self.byid.pop(_thread.get_ident(), None)
        for fd in list(p.fds):
            try: REAL["close"](fd)
            except OSError: pass
        p.fds.clear()
        if not p.dead: self.log(f"{p.name}: ends" + (f" with {type(p.exc).__name__}" if p.exc is not None else ""))
        self.active.remove(p)
        if self.checker and self.violation is None and not self.abandon():
            try: self.checker(p)
            except Violation as v: self.violation = v
        if self.active:
            q = self.active[self.choose(len(self.active))] if self.violation is None else self.active[0]
            self.cur = q; q.lock.release()
        else: self.mainlock.release()
    def abandon(self): return self.violation is not None
    def current(self):
        p = self.byid.get(_thread.get_ident())
        return None if p is None or p.off else p
    def kill(self, p):
        p.dead = True; self.count_fault("kill"); self.log(f"{p.name}: killed")
        for fd in list(p.fds):
            try: REAL["close"](fd)
            except OSError: pass
        p.fds.clear(); raise Killed()
    def step(self, what, intr=True):
        """Every simulated system call passes here before it takes effect."""
        p = self.current()
        if p is None or p.off: return None
        if p.dead or self.violation is not None: raise Killed()
        self.steps += 1; p.steps += 1
        if self.steps > self.limit: self.violation = Violation("hang", f"no end after {self.limit} steps, last: {p.name} {what}"); raise Killed()
        if len(self.active) > 1:
            self.gap -= 1
            if self.gap < 0:
                self.gap = self.log_uniform(self.maxgap) or 10**9; self.preempts += 1
                self.switch(p)
        if p.kill_at == p.steps: self.kill(p)
        if intr and p.fault("interrupt") is not None: raise KeyboardInterrupt()
        self.log(f"{p.name}: {what}")
        return p
    def switch(self, p):
        o = [q for q in self.active if q is not p]
        if not o: return
        q = o[self.choose(len(o))]; self.switches += 1
        self.cur = q; q.lock.release(); p.lock.acquire()
        if p.dead or self.violation is not None: raise Killed()
    def after(self, p):
        """Called after a mutating call: the invariants of the scenario are checked."""
        if self.checker and p is not None and self.violation is None:
            try:
                p.off = True
                self.checker(None)
            except Violation as v: self.violation = v; raise Killed()
            finally: p.off = False
    def rel(self, path):
        try: path = os.fspath(path)
        except TypeError: return f"fd"
        if isinstance(path, bytes): path = os.fsdecode(path)
        return re.sub(r"[0-9a-f]{8,}", "#", path[len(self.root) + 1:] if path.startswith(self.root + "/") else path)
    def above(self, path):     # ancestors of the simulated disk: their number depends on where the scratch area is
        path = os.fsdecode(path); return path.startswith("/") and (self.root + "/").startswith(path.rstrip("/") + "/")
    def urandom(self, n):
        if self.urand is None: self.urand = random.Random(self.choose(1 << 30))
        return self.urand.randbytes(n)

W = None   # the world of the run in progress

def oserr(e, path=None):
    n = getattr(errno, e) if isinstance(e, str) else e
    return OSError(n, os.strerror(n), path)

# ------------------------------------------------------------------ file layer
def full(path, dir_fd=None):
    path = os.fspath(path) if not isinstance(path, int) else path
    if isinstance(path, int): return REAL["readlink"](f"/proc/self/fd/{path}")
    if isinstance(path, bytes): path = os.fsdecode(path)
    if dir_fd is not None and not path.startswith("/"): return os.path.join(REAL["readlink"](f"/proc/self/fd/{dir_fd}"), path)
    return os.path.abspath(path)
def physical(path, follow_last):
    """Real location a call would touch, with symbolic links resolved by us."""
    seen = 0; parts = path.split("/"); out = ""
    todo = [x for x in parts if x]
    while todo:
        c = todo.pop(0)
        if c == ".": continue
        if c == "..": out = out.rsplit("/", 1)[0]; continue
        cand = out + "/" + c
        try: st = REAL["lstat"](cand)
        except (OSError, ValueError): out = cand; continue
        if stat.S_ISLNK(st.st_mode) and (todo or follow_last):
            seen += 1
            if seen > 40: return cand
            t = REAL["readlink"](cand)
            if t.startswith("/"): out = ""
            todo = [x for x in t.split("/") if x] + todo
        else: out = cand
    return out or "/"
def guard(p, what, path, follow_last=True):
    """A mutating call: it must stay inside what the scenario allows (and inside the scratch area, always)."""
    ph = physical(path, follow_last)
    w = W
    if not (ph == w.root or ph.startswith(w.root + "/")):
        w.violation = Violation("escape", f"{p.name} tried to {what} {ph}, outside every directory it was given"); raise Killed()
    if w.allow is not None and not any(ph == a or ph.startswith(a + "/") for a in w.allow(p)):
        w.violation = Violation("escape", f"{p.name} tried to {what} {w.rel(ph)}, outside the destination"); raise Killed()
    for ro, e in w.readonly:
        if ph == ro or ph.startswith(ro + "/"):
            if what == "mkdir" and REAL_exists(ph): break
            w.count_fault("permission"); p.perm = True; raise oserr(e, path)
    return ph
def REAL_exists(path):
    try: REAL["lstat"](path); return True
    except OSError: return False
def vt(fd_or_path):
    try: REAL["utime"](fd_or_path, ns=(int(1.6e18 + W.now * 1e9) + W.steps * 1000,) * 2)
    except OSError: pass

def s_open(path, flags, mode=0o777, *, dir_fd=None):
    p = W.step(f"open {W.rel(path)}" + (" for writing" if flags & (os.O_WRONLY | os.O_RDWR) else ""), intr=False) if W else None
    if p is None: return REAL["open"](path, flags, mode, dir_fd=dir_fd)
    wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    f = p.fault("open-error")
    if f is not None: raise oserr(f["errno"], path)
    if wr:
        f = p.fault("create-error")
        if f is not None: raise oserr(f["errno"], path)
        fp = full(path, dir_fd)
        tmpf = getattr(os, "O_TMPFILE", 0)
        guard(p, "write", fp + "/.unnamed" if tmpf and flags & tmpf == tmpf else fp)
    fd = REAL["open"](path, flags, mode, dir_fd=dir_fd); p.fds.add(fd)
    if wr and not (tmpf and flags & tmpf == tmpf): vt(fd)
    W.after(p) if wr else None
    return fd
def s_close(fd):
    p = W.step("close", intr=False) if W and W.current() else None
    if p is None: return REAL["close"](fd)
    p.fds.discard(fd)
    REAL["close"](fd)
    if p.__dict__.get("wrote", {}).pop(fd, None):
        f = p.fault("close-error")
        if f is not None: raise oserr(f["errno"])
def s_write(fd, data):
    p = W.step("write", intr=True) if W and W.current() else None
    if p is None: return REAL["write"](fd, data)
    f = p.fault("write-error")
    if f is not None:
        k = int(len(data) * f.get("frac", 0))
        if k: REAL["write"](fd, memoryview(data)[:k]); vt(fd); W.after(p)
        raise oserr(f["errno"])
    f = p.fault("short-write")
    if f is not None and len(data) > 1: data = memoryview(data)[:max(1, int(len(data) * f["frac"]))]
    n = REAL["write"](fd, data); vt(fd); p.__dict__.setdefault("wrote", {})[fd] = True
    W.after(p)
    return n
def s_read(fd, n):
    p = W.step("read", intr=True) if W and W.current() else None
    if p is None: return REAL["read"](fd, n)
    f = p.fault("read-error")
    if f is not None: raise oserr(f["errno"])
    f = p.fault("short-read")
    if f is not None and n > 1: n = max(1, int(n * f["frac"]))
    return REAL["read"](fd, n)
def s_sendfile(out, inp, offset, count, *a):
    if W and W.current(): raise oserr("EINVAL")    # callers fall back to read/write
    return REAL["sendfile"](out, inp, offset, count, *a)
def two(name):
    def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        p = W.step(f"{name} {W.rel(src)} -> {W.rel(dst)}") if W else None
        if p is None: return REAL[name](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        fl = p.fault("rename-error")
        if fl is not None: raise oserr(fl["errno"], src)
        guard(p, name, full(src, src_dir_fd), False); guard(p, name, full(dst, dst_dir_fd), False)
        REAL[name](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd); W.after(p)
    return f
def s_link(src, dst, **kw):
    p = W.step(f"link {W.rel(src)} -> {W.rel(dst)}") if W else None
    if p is not None: guard(p, "link", full(dst), False)
    REAL["link"](src, dst, **kw); W.after(p) if W else None
def s_symlink(src, dst, *a, **kw):
    p = W.step(f"symlink {W.rel(dst)}") if W else None
    if p is not None: guard(p, "symlink", full(dst), False)
    REAL["symlink"](src, dst, *a, **kw); W.after(p) if W else None
def one(name, verb):
    def f(path, *a, dir_fd=None, **kw):
        p = W.step(f"{verb} {W.rel(path)}", intr=False) if W else None
        if p is not None:
            fl = p.fault(verb + "-error")
            if fl is not None: raise oserr(fl["errno"], path)
            guard(p, verb, full(path, dir_fd), False)
        r = REAL[name](path, *a, **({"dir_fd": dir_fd} if dir_fd is not None else {}), **kw)
        if p is not None: W.after(p)
        return r
    return f
def pathw(name):
    def f(path, *a, **kw):
        p = W.step(f"{name} {W.rel(path)}", intr=False) if W and not isinstance(path, int) else None
        if p is not None: guard(p, name, full(path), kw.get("follow_symlinks", True))
        r = REAL[name](path, *a, **kw)
        if p is not None: W.after(p)
        return r
    return f
def look(name):
    def f(path, *a, **kw):
        if W and not isinstance(path, int) and W.current() and not W.above(path): W.step(f"{name} {W.rel(path)}", intr=False)
        return REAL[name](path, *a, **kw)
    return f
def s_listdir(path="."):
    p = W.step(f"listdir {W.rel(path)}", intr=False) if W else None
    if p is not None:
        f = p.fault("listdir-error")
        if f is not None: raise oserr(f["errno"], path)
    r = sorted(REAL["listdir"](path))
    return r[::-1] if W and W.rev else r
class Scan:
    def __init__(self, it): self.l = sorted(it, key=lambda e: e.name); self.i = iter(self.l)
    def __iter__(self): return self
    def __next__(self): return next(self.i)
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass
def s_scandir(path="."):
    if W and W.current(): W.step(f"scandir {W.rel(path)}", intr=False)
    with REAL["scandir"](path) as it: return Scan(it)
def s_fsync(fd):
    p = W.step("fsync") if W and W.current() else None
    if p is None: return REAL["fsync"](fd)
    f = p.fault("fsync-error")
    if f is not None: raise oserr(f["errno"])
def s_flock(fd, op):
    p = W.current() if W else None
    if p is None: return R_FLOCK(fd, op)
    fdn = fd if isinstance(fd, int) else fd.fileno()
    while True:
        W.step("lock")
        try: return R_FLOCK(fdn, op | (0 if op & fcntl.LOCK_UN else fcntl.LOCK_NB))
        except BlockingIOError:
            if op & fcntl.LOCK_NB: raise
            W.switch(p)
def s_lockf(fd, op, *a): return s_flock(fd, op)
def s_getpid():
    p = W.current() if W else None
    return p.pid if p else REAL["getpid"]()
def s_access(path, mode, **kw):
    p = W.step(f"access {W.rel(path)}", intr=False) if W else None
    if p is not None and mode & os.W_OK:
        ph = physical(full(path), True)
        if any(ph == ro or ph.startswith(ro + "/") for ro, _ in W.readonly): return False
    return REAL["access"](path, mode, **kw)

class SimRaw(io.RawIOBase):
    def __init__(self, fd, name, mode, r, w, closefd=True):
        self.name, self.mode = name, mode
        self._fd, self._r, self._w, self._c = fd, r, w, closefd
        self._p = W.current()
    def fileno(self):
        if self.closed: raise ValueError("I/O operation on closed file")
        return self._fd
    def readable(self): return self._r
    def writable(self): return self._w
    def seekable(self): return True
    def isatty(self): return False
    def readinto(self, b):
        d = os.read(self._fd, len(b)); b[:len(d)] = d; return len(d)
    def write(self, b): return os.write(self._fd, b)
    def seek(self, off, whence=0):
        if self._p and self._p.dead: raise Killed()
        return REAL["lseek"](self._fd, off, whence)
    def tell(self): return REAL["lseek"](self._fd, 0, 1)
    def truncate(self, n=None):
        p = W.step("truncate")
        if n is None: n = self.tell()
        REAL["ftruncate"](self._fd, n); W.after(p); return n
    def close(self):
        if self.closed: return
        try: super().close()
        finally:
            if self._c:
                if self._p is not None and (self._p.dead or self._p.done or W is None or W.current() is not self._p):
                    if self._fd in self._p.fds:
                        self._p.fds.discard(self._fd)
                        try: REAL["close"](self._fd)
                        except OSError: pass
                else: os.close(self._fd)
def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if W is None or W.current() is None: return R_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    b = "b" in mode; up = "+" in mode; m = mode.replace("b", "").replace("t", "").replace("U", "")
    base = m.replace("+", "")
    if base not in ("r", "w", "a", "x"): raise ValueError(f"invalid mode: {mode!r}")
    fl = {"r": 0, "w": os.O_CREAT | os.O_TRUNC, "a": os.O_CREAT | os.O_APPEND, "x": os.O_CREAT | os.O_EXCL}[base] | os.O_CLOEXEC
    fl |= os.O_RDWR if up else (os.O_RDONLY if base == "r" else os.O_WRONLY)
    if isinstance(file, int): fd = file
    else:
        fd = opener(file, fl) if opener else os.open(file, fl, 0o666)
        if stat.S_ISDIR(REAL["fstat"](fd).st_mode): REAL["close"](fd); W.current().fds.discard(fd); raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
    raw = SimRaw(fd, file, mode, base == "r" or up, base != "r" or up, closefd)
    if base == "a": raw.seek(0, 2)
    if buffering == 0: return raw
    n = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    buf = io.BufferedRandom(raw, n) if up else io.BufferedReader(raw, n) if base == "r" else io.BufferedWriter(raw, n)
    if b: return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1); t.mode = mode
    return t

# ------------------------------------------------------------------ network layer
class Reply:
    """What the server sends for one request, and how the network mistreats it."""
    def __init__(self, raw): self.raw = raw; self.close_at = None; self.reset_at = None; self.stall_at = None; self.stall = 0.0; self.chunk = None
class SockRaw(io.RawIOBase):
    def __init__(self, s): self.s = s
    def readable(self): return True
    def readinto(self, b):
        d = self.s.recv(len(b)); b[:len(d)] = d; return len(d)
class SimSocket:
    def __init__(self, host, port, timeout): self.host, self.port, self.timeout, self.out, self.reply, self.at, self.shut = host, port, timeout, b"", None, 0, False
    def setsockopt(self, *a): pass
    def settimeout(self, t): self.timeout = t
    def gettimeout(self): return self.timeout
    def getpeername(self): return ("192.0.2.1", self.port)
    def sendall(self, d):
        p = W.step("send"); f = p.fault("net-reset-send")
        if f is not None: raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        self.out += bytes(d)
    def send(self, d): self.sendall(d); return len(d)
    def makefile(self, mode="rb", buffering=None, **kw):
        return io.BufferedReader(SockRaw(self), 8192 if buffering in (None, -1) else max(buffering, 1))
    def recv(self, n, flags=0):
        p = W.step("recv")
        if self.reply is None: self.reply = W.server(self, p, self.out); self.at = 0
        r = self.reply
        if p.fault("memory-error") is not None: raise MemoryError()
        f = p.fault("net-reset")
        if f is not None: raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        f = p.fault("net-stall")
        if f is not None or (r.stall_at is not None and self.at >= r.stall_at):
            if self.timeout is None: W.violation = Violation("hang", "a request without a time limit waits for ever on a stalled connection"); raise Killed()
            W.now += self.timeout; raise TimeoutError("timed out")
        f = p.fault("net-delay")
        if f is not None: W.now += min(f["s"], (self.timeout or 1e9) * 0.9)
        f = p.fault("net-close")
        if f is not None:
            r.close_at = self.at
            if r.framing == "close" or self.at < r.head: r.site.undet = True     # nothing announces that more was to come
        end = len(r.raw) if r.close_at is None else min(r.close_at, len(r.raw))
        if self.at >= end: return b""
        k = min(n, end - self.at, r.chunk or n)
        f = p.fault("net-short")
        if f is not None: k = max(1, int(k * f["frac"]))
        d = r.raw[self.at:self.at + k]; self.at += k
        return d
    def recv_into(self, b, n=0, flags=0):
        d = self.recv(n or len(b)); b[:len(d)] = d; return len(d)
    def close(self): self.shut = True
    def shutdown(self, how): pass
    def fileno(self): return -1
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
def sim_create_connection(addr, timeout=object, source_address=None, **kw):
    p = W.step(f"connect {addr[0]}") if W else None
    if p is None: raise InternalError("network used outside the simulation")
    t = socket.getdefaulttimeout() if timeout in (object, socket._GLOBAL_DEFAULT_TIMEOUT) else timeout
    if p.fault("dns") is not None: raise socket.gaierror(socket.EAI_AGAIN, "Temporary failure in name resolution")
    if p.fault("refused") is not None: raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
    if p.fault("connect-timeout") is not None:
        if t is None: W.violation = Violation("hang", "a connection attempt without a time limit waits for ever"); raise Killed()
        W.now += t; raise TimeoutError("timed out")
    return SimSocket(addr[0], addr[1], t)
class FakeContext:
    check_hostname = False; verify_mode = ssl.CERT_NONE; post_handshake_auth = None
    def __init__(self, *a, **k): pass
    def wrap_socket(self, sock, *a, **k):
        p = W.step("tls handshake")
        if p.fault("tls") is not None: raise ssl.SSLError(1, "handshake failure")
        return sock
    def set_alpn_protocols(self, *a): pass
    def __getattr__(self, n): return lambda *a, **k: None
class Out:
    encoding = "utf-8"; closed = False
    def write(self, s):
        p = W.current() if W else None
        if p is not None and not p.off and not p.dead and p.fault("stdout") is not None: raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        return len(s)
    def flush(self): pass
    def isatty(self): return False
    def fileno(self): raise io.UnsupportedOperation()
class Names:
    def __iter__(self): return self
    def __next__(self):
        p = W.current() if W else None
        if W is None: return "%08x" % random.getrandbits(32)
        return W.urandom(4).hex()

def install():
    o = os
    o.open, o.close, o.write, o.read, o.sendfile = s_open, s_close, s_write, s_read, s_sendfile
    o.copy_file_range = s_sendfile
    o.rename, o.replace, o.link, o.symlink = two("rename"), two("replace"), s_link, s_symlink
    o.remove, o.unlink, o.mkdir, o.rmdir = one("remove", "remove"), one("unlink", "remove"), one("mkdir", "mkdir"), one("rmdir", "rmdir")
    for n in ("utime", "chmod", "truncate"): setattr(o, n, pathw(n))
    for n in ("stat", "lstat", "readlink"): setattr(o, n, look(n))
    o.listdir, o.scandir, o.fsync, o.fdatasync, o.getpid, o.access = s_listdir, s_scandir, s_fsync, s_fsync, s_getpid, s_access
    o.urandom = lambda n: W.urandom(n) if W and W.current() else REAL["urandom"](n)
    for c in ("supports_dir_fd", "supports_follow_symlinks", "supports_fd", "supports_effective_ids"):
        s = getattr(os, c)
        for n in REAL:
            if REAL[n] in s and hasattr(os, n): s.add(getattr(os, n))
    builtins.open = io.open = _io.open = sim_open
    fcntl.flock, fcntl.lockf = s_flock, s_lockf
    T0 = 1600000000.0
    time.time = lambda: T0 + W.now + W.steps * 1e-6 if W else R_TIME["time"]()
    time.monotonic = lambda: W.now + W.steps * 1e-6 if W and W.current() else R_TIME["monotonic"]()
    time.time_ns = lambda: int(time.time() * 1e9)
    def sleep(s):
        if W and W.current(): W.now += s; W.step("sleep")
        else: R_TIME["sleep"](s)
    time.sleep = sleep
    socket.create_connection = sim_create_connection
    ssl._create_default_https_context = ssl.create_default_context = ssl._create_unverified_context = lambda *a, **k: FakeContext()
    tempfile._RandomNameSequence = Names; tempfile._name_sequence = Names()
    sys.stdout = Out()
    for k in list(os.environ):
        if k.lower().endswith("_proxy"): del os.environ[k]
    os.environ["no_proxy"] = "*"
    sys.unraisablehook = lambda *a: None
    threading.excepthook = lambda *a: None
    tempfile.tempdir = None
    imp = builtins.__import__
    def quiet_import(*a, **k):        # the import machinery itself is not part of the simulated system
        p = W.current() if W else None
        if p is None: return imp(*a, **k)
        p.off = True
        try: return imp(*a, **k)
        finally: p.off = False
    builtins.__import__ = quiet_import

# ------------------------------------------------------------------ driver
class Result: pass
def execute(scn, seed, choices, scratch):
    global W
    w = World(choices, seed, scratch); W = None
    shutil.rmtree(w.root, ignore_errors=True); REAL["mkdir"](w.root)
    cwd = os.getcwd(); os.chdir(w.root)
    r = Result(); r.status, r.cls, r.msg = 1, "", ""
    old = dict(os.environ); os.environ["HOME"] = os.path.join(w.root, "home"); os.environ["TMPDIR"] = os.path.join(w.root, "tmp"); tempfile.tempdir = None
    W = w
    try: scn(w)
    except Violation as v: r.status, r.cls, r.msg = 2, v.cls, v.msg
    except InternalError as e: r.status, r.cls, r.msg = 3, "internal", str(e)
    except Killed: r.status, r.cls, r.msg = 3, "internal", "harness killed"
    except Exception as e:
        import traceback
        r.status, r.cls, r.msg = 3, "internal", traceback.format_exc()
    finally:
        W = None; os.chdir(cwd); os.environ.clear(); os.environ.update(old)
        shutil.rmtree(w.root, ignore_errors=True)
    r.w = w; r.hash = "%016x" % w.h; r.choices = w.rec; r.trace = w.trace
    return r
def strip(c):
    c = list(c)
    while c and c[-1] == 0: c.pop()
    return c
def minimise(scn, best, scratch, budget):
    end = R_TIME["monotonic"]() + budget; now = R_TIME["monotonic"]
    cur = strip(best.choices); st = [cur, best]
    def attempt(c):
        c = strip(c)
        if c == st[0]: return False
        r = execute(scn, 0, c, scratch)
        if r.status == 2 and r.cls == best.cls:
            n = strip(r.choices); key = lambda x: (len(x), x)
            m = min((n, c), key=key)
            if key(m) < key(st[0]): st[0], st[1] = m, r; return True
        return False
    progress, rounds = True, 0
    while progress and now() < end and rounds < 10:
        progress = False; rounds += 1
        k = max(1, len(st[0]) // 2)
        while k >= 1 and now() < end:
            while len(st[0]) > k and attempt(st[0][:-k]): progress = True
            k //= 2
        k = max(1, len(st[0]) // 4)
        while k >= 1 and now() < end:
            i = 0
            while i + k <= len(st[0]) and now() < end:
                c = st[0]
                if attempt(c[:i] + c[i + k:]): progress = True; continue
                if any(c[i:i + k]) and attempt(c[:i] + [0] * k + c[i + k:]): progress = True
                i += k
            k //= 2
        i = 0
        while i < len(st[0]) and now() < end:
            while i < len(st[0]) and st[0][i] > 0 and now() < end:
                c = list(st[0]); c[i] //= 2
                if attempt(c): progress = True; continue
                c = list(st[0]); c[i] -= 1
                if attempt(c): progress = True; continue
                break
            i += 1
    r = execute(scn, 0, st[0], scratch)
    return r
def dump(path, name, r, seed, run):
    with R_OPEN(path, "w") as f: json.dump({"scenario": name, "class": r.cls, "message": r.msg, "hash": r.hash, "seed": seed, "run": run, "minimised": True, "choices": strip(r.choices), "trace": r.trace}, f, indent=1)
def drive(scenarios):
    stdout = sys.stdout
    a = dict(x[2:].split("=", 1) if "=" in x else (x[2:], "1") for x in sys.argv[1:] if x.startswith("--"))
    name = a["scenario"]; scn = scenarios[name]; scratch = a.get("scratch", "/tmp"); REAL["access"](scratch, 7)
    os.makedirs(scratch, exist_ok=True)
    if hasattr(scn, "setup"): scn.setup()
    install()
    if os.environ.get("SIM_DEBUG"): import faulthandler; faulthandler.dump_traceback_later(float(os.environ["SIM_DEBUG"]), exit=True)
    if "replay" in a:
        with R_OPEN(a["replay"]) as f: d = json.load(f)
        r = execute(scn, 0, d["choices"], scratch)
        stdout.write(json.dumps({"status": r.status, "class": r.cls, "message": r.msg, "hash": r.hash}) + "\n")
        if "verbose" in a: stdout.write("\n".join(r.trace) + "\n")
        stdout.flush(); REAL["_exit"](0 if r.status == 1 else 1 if r.status == 2 else 2)
    seed, first, stepn, runs_max, T = int(a.get("seed", 1)), int(a.get("first", 0)), int(a.get("step", 1)), int(a.get("runs", 10**9)), float(a.get("time", 10))
    audit, out = int(a.get("audit", 64)), a.get("out", "/tmp/o")
    known = json.load(R_OPEN(a["known"])) if "known" in a else []
    now = R_TIME["monotonic"]; t0 = now(); st = dict(scenario=name, runs=0, nontrivial=0, steps=0, switches=0, preemptions=0, forks=0, events=0, audits=0, faults={}, probes={}, samples=[], simtime=0.0, known={}); hs = set(); rc = 0; i = first
    while st["runs"] < runs_max and now() - t0 < T:
        s = mix(mix(seed * 0x2545F491, i), hstr(name)); r = execute(scn, s, None, scratch); w = r.w
        st["runs"] += 1; st["steps"] += w.steps; st["switches"] += w.switches; st["preemptions"] += w.preempts; st["forks"] += w.nproc; st["events"] += w.events; st["simtime"] += w.now
        for k in ("faults", "probes"):
            for n, v in getattr(w, k).items(): st[k][n] = st[k].get(n, 0) + v
        if not w.trivial:
            st["nontrivial"] += 1
            if len(hs) < 1000000: hs.add(w.h)
        if len(st["samples"]) < 2: st["samples"].append(f"run {i}: " + " | ".join(r.trace[:14])[:700])
        if r.status == 3: sys.stderr.write(f"internal error in run {i}: {r.msg}\n"); rc = 2; break
        if r.status == 2:
            kf = next((k for k in known if k[0] == r.cls and k[1] in r.msg), None)
            if kf is not None: n = kf[0] + ":" + kf[1]; st["known"][n] = st["known"].get(n, 0) + 1; i += stepn; continue
            r2 = execute(scn, 0, r.choices, scratch)
            if r2.status != 2 or r2.cls != r.cls: sys.stderr.write(f"violation in run {i} does not replay: {r.cls} {r.msg} / {r2.status} {r2.cls} {r2.msg}\n"); rc = 2; break
            m = minimise(scn, r2, scratch, float(a.get("mintime", 20))); dump(out + ".violation.json", name, m, seed, i); rc = 1; break
        if audit and st["runs"] % audit == 0:
            r2 = execute(scn, s, None, scratch); r3 = execute(scn, 0, r.choices, scratch); st["audits"] += 1
            if not (r.hash == r2.hash == r3.hash and r.status == r2.status == r3.status):
                d = next((k for k in range(min(len(r.trace), len(r2.trace))) if r.trace[k] != r2.trace[k]), None)
                sys.stderr.write(f"run {i} is not deterministic {r.hash} {r2.hash} {r3.hash} {r.msg} {r2.msg} {r3.msg} {d and (r.trace[d], r2.trace[d])}\n"); rc = 2; break
        i += stepn
    st["wall"] = now() - t0
    with R_OPEN(out + ".stats.json", "w") as f: json.dump(st, f)
    with R_OPEN(out + ".hashes", "wb") as f: f.write(b"".join(struct.pack("<Q", x) for x in hs))
    sys.stderr.flush(); REAL["_exit"](rc)
