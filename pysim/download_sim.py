"""Simulations of python/download.py: C13 (all or nothing), C14 (archives recover),
C15 (concurrent fetches), C16 (containment, data directory)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simpy
from simpy import Reply, REAL, R_OPEN, Killed, mix
import hashlib, io, json, types, zipfile, urllib.request, urllib.error, urllib.parse, http.client, tempfile, shutil, base64, uuid, pathlib, glob, random
REPO = os.environ.get("SIREN_REPO", "/repo")
SRC = os.path.join(REPO, "python", "download.py")
CODE = None
def load():
    global CODE
    if CODE is None:
        with R_OPEN(SRC) as f: CODE = compile(f.read(), SRC, "exec")
    m = types.ModuleType("siren.download"); m.__file__ = SRC; m.__package__ = "siren"
    exec(CODE, m.__dict__)
    return m

def slurp(path):
    try:
        fd = REAL["open"](path, os.O_RDONLY)
    except OSError: return None
    try:
        out = []
        while True:
            try: b = REAL["read"](fd, 1 << 20)
            except IsADirectoryError: return "directory"
            if not b: return b"".join(out)
            out.append(b)
    finally: REAL["close"](fd)
def spit(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with R_OPEN(path, "wb") as f: f.write(data)
def tree(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for f in fs: out[os.path.relpath(os.path.join(d, f), top)] = None
    return set(out)
def short(b): return "absent" if b is None else b if isinstance(b, str) else f"{len(b)} bytes"

# ------------------------------------------------------------------ the simulated server
class Site:
    """host+path -> (body, framing).  Request handling is real HTTP/1.1 text."""
    def __init__(self, w): self.w, self.res, self.undet, self.n, self.tokens = w, {}, False, 0, {}; w.server = self.serve
    def put(self, url, body, framing="length", ctype="application/octet-stream"): self.res[url.split("://", 1)[1]] = (body, framing, ctype)
    def serve(self, sock, p, req):
        w = self.w; self.n += 1
        head = req.split(b"\r\n\r\n", 1)[0].decode("latin1").split("\r\n"); path = head[0].split(" ")[1]
        hdr = {l.split(":", 1)[0].strip().lower(): l.split(":", 1)[1].strip() for l in head[1:] if ":" in l}
        key = hdr.get("host", sock.host) + path
        hops = key.count("/hop")
        for i in range(hops): key = key.replace("/hop", "", 1)
        qkey = key.split("?")[0]
        def resp(code, reason, body, framing="length", extra="", announce=None):
            h = f"HTTP/1.1 {code} {reason}\r\nServer: sim\r\n{extra}"
            if framing == "length": h += f"Content-Length: {len(body) if announce is None else announce}\r\n"; b = body
            elif framing == "chunked":
                h += "Transfer-Encoding: chunked\r\n"; b = b""; k = 0; sizes = [7, 4096, 65536, 100]
                while body: c = body[:sizes[k % 4]]; b += b"%x\r\n%s\r\n" % (len(c), c); body = body[len(c):]; k += 1
                b += b"0\r\n\r\n"
            else: h += "Connection: close\r\n"; b = body
            h = (h + "\r\n").encode(); r = Reply(h + b); r.framing = framing; r.head = len(h); r.site = self
            return r
        if qkey in self.tokens and urllib.parse.parse_qs(key.partition("?")[2]).get("token") != [self.tokens[qkey]] and not hdr.get("authorization", "").endswith(self.tokens[qkey]): return resp(404, "Not Found", b"restricted")
        if qkey not in self.res: return resp(404, "Not Found", b"no such file")
        body, framing, ctype = self.res[qkey]
        for k, (c, t) in {"http-500": (500, "Internal Server Error"), "http-503": (503, "Service Unavailable"), "http-404": (404, "Not Found"), "http-429": (429, "Too Many Requests"), "http-403": (403, "Forbidden")}.items():
            if p.fault(k) is not None: return resp(c, t, b"<html>error page, not the data</html>" * w.choose(3))
        if p.fault("garbage") is not None: r = Reply(b"\x16\x03\x01 not http\r\n\r\n"); r.framing = "x"; r.head = 4; r.site = self; return r
        f = p.fault("redirect")
        if f is not None: return resp(302, "Found", b"moved", extra=f"Location: http://{hdr.get('host')}/hop{path}\r\n")
        if p.fault("redirect-loop") is not None: p.looping = True
        if getattr(p, "looping", False): return resp(302, "Found", b"moved", extra=f"Location: http://{hdr.get('host')}{path}\r\n")
        f = p.fault("portal")
        if f is not None: return resp(200, "OK", b"<html>please log in</html>", extra="Content-Type: text/html\r\n")
        f = p.fault("overlong")
        if f is not None: r = resp(200, "OK", body, "length", announce=len(body) + 1 + w.choose(70000)); return r
        f = p.fault("corrupt")
        if f is not None and body:
            k = int(f["frac"] * len(body)) % len(body); body = body[:k] + bytes([body[k] ^ 0x41]) + body[k + 1:]; self.corrupted = True
        if "range" in hdr and framing == "length" and hdr["range"].startswith("bytes="):
            try:
                a = int(hdr["range"][6:].split("-")[0])
                if a >= len(body): return resp(416, "Range Not Satisfiable", b"", extra=f"Content-Range: bytes */{len(body)}\r\n")
                return resp(206, "Partial Content", body[a:], extra=f"Content-Range: bytes {a}-{len(body)-1}/{len(body)}\r\n")
            except ValueError: pass
        r = resp(200, "OK", body, framing, extra=f"Content-Type: {ctype}\r\n")
        f = p.fault("truncate")
        if f is not None:
            n = len(r.raw) - r.head
            if framing == "chunked": r.close_at = r.head + max(0, min(n - 6, int(f["frac"] * n)))
            elif n > 0: r.close_at = r.head + min(n - 1, int(f["frac"] * n))
            if framing == "close": self.undet = True
        r.chunk = self.chunk
        return r
    chunk = None
def zenodo(site, w, rec, names_urls, tok=""):
    ents = [{"key": n, "links": ({"content": u} if w.choose(2) == 0 else {"self": u})} for n, u in names_urls]
    form = w.choose(3); data = ents if form == 1 else {"entries": ents} if form == 0 else {"files": ents}
    if tok: site.tokens[f"zenodo.org/api/records/{rec}/files"] = tok
    site.put(f"https://zenodo.org/api/records/{rec}/files", json.dumps(data).encode(), w.pick(["length", "length", "chunked"]), "application/json")

# hard faults a call may answer with an exception; benign ones it has to survive
NET = ["net-reset", "net-close", "net-stall", "refused", "dns", "connect-timeout", "tls", "net-reset-send", "truncate", "http-500", "http-503", "http-404", "http-429", "http-403", "garbage", "redirect-loop", "overlong"]
DISK = ["write-error", "open-error", "create-error", "close-error", "rename-error", "mkdir-error", "read-error", "listdir-error", "fsync-error"]
BENIGN = ["short-write", "short-read", "net-short", "net-delay", "redirect"]
ERR = {"write-error": ["ENOSPC", "EIO", "EDQUOT"], "open-error": ["EMFILE", "EACCES", "EIO"], "create-error": ["EACCES", "ENOSPC", "EROFS"], "close-error": ["EIO", "ENOSPC"], "rename-error": ["EIO", "EACCES", "ENOSPC"], "mkdir-error": ["ENOSPC", "EACCES"], "read-error": ["EIO"], "listdir-error": ["EIO", "EACCES"], "fsync-error": ["EIO"], "remove-error": ["EBUSY"]}
def plan(w, p, kinds, n, benign=True):
    for _ in range(n):
        k = w.pick(kinds); prm = {"frac": w.choose(1000) / 1000.0}
        if k in ERR: prm["errno"] = w.pick(ERR[k])
        if k == "write-error": prm["sticky"] = w.choose(2) == 1
        p.add_fault(k, w.log_uniform({"write-error": 60, "net-reset": 200, "net-close": 200, "net-stall": 200, "read-error": 200, "interrupt": 400, "memory-error": 60, "open-error": 12, "create-error": 8, "close-error": 6, "rename-error": 5, "mkdir-error": 8}.get(k, 3)), **prm)
    if benign:
        for _ in range(w.choose(4)):
            k = w.pick(BENIGN)
            p.add_fault(k, w.log_uniform(3 if k == "redirect" else 40), frac=w.choose(1000) / 1000.0, s=float(w.choose(25)), benign=True)
def plan_any(w, p, extra=()):
    """Zero or more hard faults, an interrupt or a kill."""
    m = w.weighted([2, 5, 5, 3, 3])
    if m == 1: plan(w, p, NET, 1 + w.choose(2))
    elif m == 2: plan(w, p, DISK, 1 + w.choose(2))
    elif m == 3: p.kill_at = 1 + w.log_uniform(300); plan(w, p, NET, 0)
    elif m == 4: plan(w, p, ["interrupt", "interrupt", "memory-error"], 1)
    else: plan(w, p, NET, 0)
def body_of(w, n=None):
    if n is None: n = w.pick([12, 0, 1, 300, 8192, 65536, 65537, 131072, 200001])
    if n > 4000: b = w.bytes(997); return (b * (n // 997 + 1))[:n]
    return w.bytes(n)

# ------------------------------------------------------------------ C13
def sc_download(w):
    site = Site(w); site.chunk = w.pick([None, 1000, 4096, 17])
    if site.chunk == 17: w.limit = 200000
    top = os.path.join(w.root, "data"); os.makedirs(top)
    how = w.choose(3)           # 0 download_file, 1 ensure_files, 2 ensure_zenodo_files
    files = []                  # name, dest, body, sha, wrong sha?, old content
    for i in range(1 if how == 0 else 1 + w.choose(3)):
        b = body_of(w) if site.chunk != 17 else body_of(w, w.pick([12, 0, 1, 300]))
        dest = os.path.join(top, w.pick(["a.dat", "sub/dir/a.dat", "b.tmp", "x"]).replace("a.dat", f"a{i}.dat").replace("b.tmp", f"b{i}.tmp").replace("x", f"x{i}"))
        s = w.choose(3); sha = "" if s == 0 else hashlib.sha256(b).hexdigest() if s == 1 or w.choose(4) else hashlib.sha256(b + b"?").hexdigest()
        f = types.SimpleNamespace(name=f"f{i}.bin", dest=dest, body=b, sha=sha, wrong=bool(sha) and sha != hashlib.sha256(b).hexdigest(), old=None, url=f"https://host{i}.example/files/f{i}.bin" if w.choose(2) else f"http://host.example:8080/f{i}.bin", framing=w.pick(["length", "length", "length", "chunked", "close"]))
        if w.choose(3) == 1: f.old = w.bytes(w.pick([40, 0, 70000])); spit(f.dest, f.old)
        if w.choose(6) == 1: spit(f.dest + ".tmp", b"left over from a killed download")
        site.put(f.url, f.body, f.framing); files.append(f)
        f.nourl = how == 1 and w.choose(12) == 1
    tok = "sEcret-7" if w.choose(3) == 1 else ""      # a restricted record answers only with its token
    if how == 2: zenodo(site, w, "77", [(f.name, f.url) for f in files] + [("other.bin", "https://x.example/o")], tok)
    relative = how == 0 and w.choose(5) == 1
    def current(f): return slurp(f.dest)
    def legal(f, c):
        if site.corrupted and not f.sha and isinstance(c, bytes) and (len(c) == len(f.body) or site.undet and len(c) < len(f.body)): return True
        if c == f.before: return True
        if f.sha: return not f.wrong and c == f.body
        return c == f.body or (site.undet and isinstance(c, bytes) and f.body.startswith(c))
    def inv(p):
        for f in files:
            c = current(f)
            w.check(legal(f, c), "partial-data", f"the destination {w.rel(f.dest)} holds {short(c)} that are neither what was there before ({short(f.before)}) nor the complete file ({short(f.body)})")
    attempts = w.choose(4)
    for k in range(attempts + 1):
        last = k == attempts; site.undet = False; site.corrupted = False
        for f in files: f.before = current(f)
        left0 = tree(top)
        def call(relative=relative):
            m = load()
            if how == 0:
                f = files[0]; d = os.path.relpath(f.dest, w.root) if relative else f.dest
                kw = {"sha256": f.sha} if f.sha else {}
                m.download_file(f.url, d, show_progress=bool(k % 2), **kw)
            elif how == 1: m.ensure_files([dict(path=f.dest, **({} if f.nourl else {"url": f.url}), **({"sha256": f.sha} if f.sha else {})) for f in files])
            else: m.ensure_zenodo_files("77", [dict(name=f.name, path=os.path.relpath(f.dest, top), **({"sha256": f.sha} if f.sha else {})) for f in files], top, **({"token": tok} if tok else {}))
        p = w.spawn(f"P{k}", call)
        if not last:
            plan_any(w, p)
            if w.choose(6) == 1: p.add_fault("corrupt", w.choose(2), frac=w.choose(1000) / 1000.0)
            if w.choose(12) == 1: p.add_fault("remove-error", 0, errno="EBUSY")
        elif w.choose(2): plan(w, p, NET, 0)
        w.checker = inv; w.run([p]); w.checker = None
        skip = lambda f: how != 0 and f.before is not None
        if p.exc is None:
            w.probe("completed")
            for f in files:
                c = current(f)
                if skip(f): w.check(c == f.before, "existing-file-changed", f"{w.rel(f.dest)} was already present and has been changed")
                elif f.nourl: w.fail("missing-file-accepted", f"{w.rel(f.dest)} is missing and has no address, yet the call returned normally")
                elif f.wrong: w.fail("wrong-checksum-accepted", f"{w.rel(f.dest)} was accepted although its checksum is not the requested one")
                elif getattr(site, "corrupted", False) and not f.sha: pass
                elif site.undet and not f.sha: pass
                else: w.check(c == f.body, "incomplete-success", f"the call returned normally but {w.rel(f.dest)} holds {short(c)} instead of {short(f.body)}")
        elif isinstance(p.exc, Killed): w.probe("killed")
        else:
            w.probe("raised")
            need = any((f.wrong or f.nourl) and not skip(f) for f in files)
            w.check(p.hard or need, "spurious-failure", f"the call raised {type(p.exc).__name__}: {p.exc} although network and disk worked")
            if "remove-error" not in p.fired:
                new = tree(top) - left0 - {os.path.relpath(f.dest, top) for f in files}
                w.check(not new, "leftover", f"the call raised {type(p.exc).__name__} and left {sorted(new)} behind")
            if how == 0: w.check(current(files[0]) == files[0].before, "failed-but-changed", "the call raised but the destination changed")
        # a corrupted transfer without a checksum cannot be noticed; forget it
        for f in files:
            c = current(f)
            if c is not None and c != f.before and c != f.body: REAL["unlink"](f.dest)
    w.trivial = False

# ------------------------------------------------------------------ archives
def make_zip(w, evil=None):
    """Returns (bytes, {member: content or None for directories})."""
    mem = {}; pool = ["data/alpha/f1.txt", "data/alpha/f2.bin", "data/beta/f1.txt", "data/beta/sub/deep.txt", "readme.txt", "data/alphabet/g.txt", "data/alpha/empty", "data/beta/big.bin", "data/alpha/sub/one/two.dat"]
    n = 2 + w.choose(len(pool) - 1)
    names = pool[:n]
    if w.choose(2): names = ["data/", "data/alpha/", "data/beta/"] + names
    if w.choose(3) == 1: names = names + ["data/alpha/hollow/"]
    for m in names:
        mem[m] = None if m.endswith("/") else b"" if m.endswith("empty") else body_of(w, w.pick([20, 0, 3000, 70000])) if not m.endswith("big.bin") else body_of(w, 140000)
    order = list(mem)
    if w.choose(2): random.Random(w.choose(1 << 20)).shuffle(order)
    bio = io.BytesIO()
    with zipfile.ZipFile(bio, "w", w.pick([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
        for m in order:
            zi = zipfile.ZipInfo(m, (2020, 1, 1, 0, 0, 0)); zi.compress_type = z.compression; zi.external_attr = 0o644 << 16
            if m.endswith("/"): zi.external_attr = (0o40755 << 16) | 0x10
            z.writestr(zi, mem[m] or b"")
    return bio.getvalue(), mem
def wanted(mem, prefix):
    pf = prefix.rstrip("/") + "/" if prefix else ""
    return {m: c for m, c in mem.items() if m.startswith(pf) or m == prefix}
def complete(w, dest, mem, prefix, who):
    for m, c in wanted(mem, prefix).items():
        p = os.path.join(dest, m); got = slurp(p.rstrip("/")) if c is not None else None
        if c is None: w.check(os.path.isdir(p), "member-missing", f"{who}: directory {m} is missing")
        else: w.check(got == c, "member-wrong", f"{who}: {m} holds {short(got)}, the archive holds {short(c)}" + ("" if not isinstance(got, bytes) or len(got) != len(c) else " (different bytes)"))
def sc_archive(w):
    site = Site(w); site.chunk = w.pick([None, 4096, 20000])
    dest = os.path.join(w.root, "res"); 
    if w.choose(2) == 0: os.makedirs(dest)
    # two archives whose names may be prefixes of each other live in the same record
    arcs = []
    for fn in [["processes.zip"], ["processes.zip", "processes"], ["a.zip", "a.zip.v2.zip"]][w.weighted([3, 1, 1])]:
        b, mem = make_zip(w); url = f"https://files.example/{fn}"; site.put(url, b, w.pick(["length", "length", "chunked", "close"])); arcs.append((fn, b, mem, url, os.path.join(dest, "") if not arcs else dest))
    tok = "sEcret-9" if w.choose(3) == 1 else ""
    zenodo(site, w, "99", [(a[0], a[3]) for a in arcs], tok)
    two = len(arcs) > 1
    prefixes = ["data/alpha", "data/beta", "", "data/alpha/"] if not two else ["data/alpha"]
    done = []     # (members, prefix) reported ready
    w.rev = w.choose(2) == 1
    if w.choose(3) == 1: spit(os.path.join(dest, "data/alpha/loader.py"), b"# a loader script")
    def inv(p):
        for dst, mem, pf in done: complete(w, dst, mem, pf, "after an earlier fetch had returned")
    def attempt(k, arc, pf, faults):
        fn, b, mem, url, _ = arc; dst = dest
        if two: pf = "data/alpha" if arc is arcs[0] else "data/beta"
        p = w.spawn(f"P{k}", lambda: load().ensure_zenodo_archive("99", fn, dst, **({"prefix": pf} if pf else {}), **({"token": tok} if tok else {})))
        left0 = tree(dest) if os.path.isdir(dest) else set()
        if faults:
            plan_any(w, p)
            if w.choose(8) == 1: p.add_fault("portal", w.choose(3))
        elif w.choose(2): plan(w, p, NET, 0)
        miss = not wanted(mem, pf)
        w.checker = inv; w.run([p]); w.checker = None
        if p.exc is None:
            w.check(not miss, "missing-prefix-accepted", f"prefix {pf} is not in the archive, yet the call returned normally")
            complete(w, dst, mem, pf, "fetch returned normally"); done.append((dst, mem, pf)); w.probe("completed")
        elif isinstance(p.exc, Killed): w.probe("killed")
        else:
            w.probe("raised")
            w.check(p.hard or miss , "no-recovery" if not faults or k else "spurious-failure", f"fetch {fn} {pf!r} raised {type(p.exc).__name__}: {str(p.exc)[:200]} although network and disk work" + (" again" if k else ""))
            for f in sorted((tree(dest) if os.path.isdir(dest) else set()) - left0):
                if f in mem or any(f in a[2] for a in arcs): continue
                c = slurp(os.path.join(dest, f)); w.check(not (isinstance(c, bytes) and 0 < len(c) < len(b) and b.startswith(c)), "leftover", f"the fetch raised {type(p.exc).__name__} and left {f} behind, {len(c) if isinstance(c, bytes) else 0} of the {len(b)} bytes of the archive")
    n = w.choose(5)
    for k in range(n): attempt(k, w.pick(arcs), w.pick(prefixes), True)
    for j, arc in enumerate(arcs): attempt(n + j, arc, w.pick(prefixes), False)
    w.trivial = False

# ------------------------------------------------------------------ C15
def sc_concurrent(w):
    site = Site(w); site.chunk = w.pick([None, 4096, 30000]); dest = os.path.join(w.root, "shared"); w.maxgap = w.pick([40, 8, 3])
    w.rev = w.choose(2) == 1; req = None
    if w.choose(4) == 1:        # the installation cannot be written to: everybody goes to the per-user directory
        req = os.path.join(w.root, "pkg/resources/X"); dest = os.path.join(w.root, "home/.siren/resources/X"); os.makedirs(os.path.join(w.root, "home")); os.makedirs(req); w.readonly.append((os.path.join(w.root, "pkg"), w.pick(["EACCES", "EROFS"])))
    if w.choose(2): os.makedirs(dest)
    b, mem = make_zip(w); site.put("https://files.example/arc.zip", b, w.pick(["length", "chunked"]))
    fs = []
    for i in range(1 + w.choose(2)):
        f = types.SimpleNamespace(name=f"f{i}.bin", dest=os.path.join(dest, w.pick([f"f{i}.bin", f"sub/f{i}.bin"])), body=body_of(w), url=f"https://h.example/f{i}.bin"); site.put(f.url, f.body, w.pick(["length", "chunked"])); fs.append(f)
    zenodo(site, w, "5", [("arc.zip", "https://files.example/arc.zip")] + [(f.name, f.url) for f in fs])
    kinds = [w.choose(5)] if w.choose(3) else [w.choose(5), w.choose(5)]
    ready = []                  # (kind, prefix)
    def holds(who):
        for kd, pf in ready:
            if kd == 3: complete(w, dest, mem, pf, who)
            elif kd < 3:
                for f in fs if kd else fs[:1]:
                    c = slurp(f.dest); w.check(c == f.body, "data-lost", f"{who}: {w.rel(f.dest)} holds {short(c)}, complete is {short(f.body)}")
    def inv(p):
        if p is not None and p.exc is None and not p.dead:
            ready.append(p.job); 
        holds("after a process had reported it ready")
        for f in fs:
            c = slurp(f.dest); w.check(c is None or c == f.body, "partial-data", f"{w.rel(f.dest)} holds {short(c)}, complete is {short(f.body)}")
    n = 2 + w.choose(3); ps = []
    for i in range(n):
        kd = w.pick(kinds); pf = w.pick(["data/alpha", "data/alpha", "", "data/beta"]) if kd == 3 else ""
        if kd == 3 and not wanted(mem, pf): pf = ""
        sha = w.choose(2)
        def call(kd=kd, pf=pf, sha=sha):
            m = load(); hx = lambda f: hashlib.sha256(f.body).hexdigest() if sha else ""
            if req:
                r = m.writable_data_dir(req); w.check(r == dest, "wrong-directory", f"files cannot be created in the requested directory, {w.rel(r)} was chosen instead of {w.rel(dest)}")
            if kd == 0: m.download_file(fs[0].url, fs[0].dest, sha256=hx(fs[0]))
            elif kd == 1: m.ensure_files([dict(path=f.dest, url=f.url, sha256=hx(f)) for f in fs])
            elif kd == 2: m.ensure_zenodo_files("5", [dict(name=f.name, path=os.path.relpath(f.dest, dest), sha256=hx(f)) for f in fs], dest)
            elif kd == 3: m.ensure_zenodo_archive("5", "arc.zip", dest, prefix=pf)
            elif not req:
                r = m.writable_data_dir(dest); w.check(r == dest or w.current().hard, "fallback-taken", f"files can be created in the requested directory, but the fallback {w.rel(r)} was chosen"); 
        p = w.spawn(f"P{i}", call); p.job = (kd, pf); ps.append(p)
        if w.choose(4) == 1: plan_any(w, p)
        else: plan(w, p, NET, 0)
    w.checker = inv; w.run(ps); w.checker = None
    for p in ps:
        if p.exc is None or isinstance(p.exc, Killed): continue
        w.check(p.hard, "failed-because-of-others", f"process {p.name} had no fault of its own but raised {type(p.exc).__name__}: {str(p.exc)[:200]}")
    holds("at the end")
    if all(j.job[0] == 4 for j in ps): w.check(not tree(w.root) or any(p.dead or p.hard for p in ps), "leftover", f"files left behind: {sorted(tree(w.root))}")
    w.trivial = n < 2

# ------------------------------------------------------------------ C16
def sc_contain(w):
    site = Site(w); dest = os.path.join(w.root, "home2/dest"); os.makedirs(dest)
    sib = os.path.join(w.root, "home2/dest-evil"); os.makedirs(sib); out = os.path.join(w.root, "victim"); os.makedirs(out)
    for d in (sib, out): spit(os.path.join(d, "keep.txt"), b"precious"); spit(os.path.join(d, "data/keep.txt"), b"precious")
    links = []
    if w.choose(2):
        for _ in range(1 + w.choose(2)):
            t = w.pick([out, "../../victim", os.path.join(out, "keep.txt"), sib, ".", "..", "inside"]); nm = w.pick(["ln", "data", "sub/ln", "keep.txt"])
            if not simpy.REAL_exists(os.path.join(dest, nm)):
                os.makedirs(os.path.dirname(os.path.join(dest, nm)), exist_ok=True); os.symlink(t, os.path.join(dest, nm)); links.append(nm)
    ups = ["../victim.txt", "../../victim/keep.txt", "../dest-evil/x.txt", "../dest-evil/keep.txt", "a/../../../victim/keep.txt", out + "/keep.txt", out + "/new.txt", "data/../../dest-evil/keep.txt", "./../../x", "../dest/ok.txt", "ln/keep.txt", "ln/new.txt", "data/keep.txt", "data/new.txt", "sub/ln/keep.txt", "sub/ln", "ln", "keep.txt", "..", "../", "../dest-evil/", "a/..", "..\\..\\x.txt", "//" + out.lstrip("/") + "/keep.txt", "data\x00/../x"]
    names = []
    for _ in range(1 + w.choose(4)):
        names.append(w.pick(["data/good.txt", "good.txt", "data/sub/good2.txt", "dir/"]) if w.choose(2) == 0 else w.pick(ups))
    names = list(dict.fromkeys(names))
    bio = io.BytesIO()
    with zipfile.ZipFile(bio, "w") as z:
        for i, m in enumerate(names):
            zi = zipfile.ZipInfo(m.replace("\x00", "_"), (2020, 1, 1, 0, 0, 0)); zi.filename = m.split("\x00")[0] if "\x00" in m else m
            if w.choose(5) == 1 and not m.endswith("/"): zi.external_attr = 0o120777 << 16; c = out.encode()
            else: zi.external_attr = 0o644 << 16; c = b"pwned %d" % i
            z.writestr(zi, b"" if m.endswith("/") else c)
    site.put("https://files.example/evil.zip", bio.getvalue(), "length"); zenodo(site, w, "13", [("evil.zip", "https://files.example/evil.zip")])
    prefix = w.pick(["", "", "data", "ln", "sub"])
    def snapshot():
        s = {}
        for d in (sib, out):
            for r, ds, fs in os.walk(d):
                for x in ds: s[os.path.join(r, x)] = "dir"
                for x in fs: s[os.path.join(r, x)] = slurp(os.path.join(r, x))
        return s
    before = snapshot()
    # what has to be refused: requested entries whose name, resolved against the directory and the links already in it, lies outside
    def outside(m):
        t = m if m.startswith("/") else os.path.join(dest, m)
        ph = simpy.physical(t, True)
        return not (ph == dest or ph.startswith(dest + "/"))
    req = [m for m in names if not prefix or m == prefix or m.startswith(prefix + "/")]
    # a symbolic link that the extraction of an earlier entry changes is not modelled: zip links are extracted as plain files
    bad = [m for m in req if outside(m)]
    w.allow = lambda p: [dest]
    if links and prefix and outside(os.path.join(prefix, "x")): pass
    for k in range(1 + w.choose(3)):
        p = w.spawn(f"P{k}", lambda: load().ensure_zenodo_archive("13", "evil.zip", dest, prefix=prefix))
        if w.choose(3) == 1: plan_any(w, p)
        w.run([p])
        after = snapshot()
        ch = [w.rel(x) for x in set(before) | set(after) if before.get(x) != after.get(x)]
        w.check(not ch, "escape", f"files outside the destination changed: {sorted(ch)}")
        top = set(os.listdir(os.path.join(w.root, "home2"))) | {"victim" if "victim" in os.listdir(w.root) else ""}
        w.check(top <= {"dest", "dest-evil", "victim"}, "escape", f"unexpected entries beside the destination: {sorted(top)}")
        w.check(set(os.listdir(w.root)) <= {"home2", "victim", "home", "tmp"}, "escape", f"unexpected entries: {sorted(os.listdir(w.root))}")
        if p.exc is None: w.check(not bad, "escape-accepted", f"entries {bad} point outside the destination, yet the fetch returned normally"); w.probe("accepted")
        elif not isinstance(p.exc, Killed):
            w.probe("refused")
    w.trivial = not bad and not links
    if bad: w.probe("evil-archives")

def sc_datadir(w):
    """writable_data_dir under permissions, faults and concurrency."""
    rel = w.pick(["pkg/resources/detectors/X", "pkg/resources", "pkg/plain", "resources/fluxes/Y/Y-v1"])
    req = os.path.join(w.root, rel); home = os.path.join(w.root, "home"); os.makedirs(home); w.maxgap = w.pick([40, 3])
    if w.choose(2): os.makedirs(req)
    if os.path.isdir(req) and w.choose(2): spit(os.path.join(req, "data.txt"), b"existing"); 
    ro = w.choose(3) == 1
    if ro: w.readonly.append((os.path.join(w.root, rel.split("/")[0]), w.pick(["EACCES", "EROFS"])))
    homero = ro and w.choose(6) == 1
    if homero: w.readonly.append((home, "EACCES"))
    parts = rel.split("/"); exp = os.path.join(home, ".siren", *(parts[parts.index("resources"):] if "resources" in parts else [parts[-1]]))
    before = tree(w.root); n = 1 + w.choose(4); ps = []; asked = {}; had = [os.path.join(req, "data.txt")] if os.path.isfile(os.path.join(req, "data.txt")) else []
    def job():
        m = load(); d = m.writable_data_dir(req)
        for f in ("data.txt", "absent.txt"): asked.setdefault(f, []).append((d, m.resolve_data_path(req, d, f)))
        return d
    w.allow = lambda p: [req, os.path.dirname(req), os.path.join(w.root, rel.split("/")[0]), os.path.join(home, ".siren")]
    for i in range(n):
        p = w.spawn(f"P{i}", job); ps.append(p)
        m = w.choose(8)
        if m == 1: p.kill_at = 1 + w.choose(12)
        elif m == 2: plan(w, p, ["create-error", "open-error", "mkdir-error"], 1, False)
    w.run(ps)
    for p in ps:
        if isinstance(p.exc, Killed): continue
        if p.exc is not None: w.check(p.hard or homero, "spurious-failure", f"choosing the data directory raised {type(p.exc).__name__}: {p.exc}"); continue
        if ro: w.check(p.ret == exp, "wrong-directory", f"files cannot be created in the requested directory, {w.rel(p.ret)} was chosen instead of {w.rel(exp)}")
        elif not p.hard: w.check(p.ret == req, "wrong-directory", f"files can be created in the requested directory, but {w.rel(p.ret)} was chosen")
        else: w.check(p.ret in (req, exp), "wrong-directory", f"{w.rel(p.ret)} was chosen")
        w.check(os.path.isdir(p.ret), "wrong-directory", f"the chosen directory {w.rel(p.ret)} does not exist")
    for f, l in asked.items():
        for d, got in l: w.check(os.path.normpath(got) == os.path.join(req if os.path.join(req, f) in had else d, f), "wrong-file", f"{f}: {w.rel(got)} was chosen; installed: {os.path.join(req, f) in had}, downloads go to {w.rel(d)}")
    new = tree(w.root) - before
    w.check(not new or any(isinstance(p.exc, Killed) for p in ps), "leftover", f"choosing the data directory left {sorted(new)} behind")
    w.check(before <= tree(w.root), "data-lost", "choosing the data directory removed files")
    w.trivial = False

simpy_scen = {"download": sc_download, "archive": sc_archive, "concurrent": sc_concurrent, "contain": sc_contain, "datadir": sc_datadir}
for f in simpy_scen.values(): f.setup = load
if __name__ == "__main__": simpy.drive(simpy_scen)
