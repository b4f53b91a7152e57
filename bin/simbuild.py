"""Builds a simulation binary from /repo's working tree (C++ side)."""
import hashlib, os, re, shutil, subprocess, sys, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIREN_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

# Files that cannot be compiled here (missing third-party libraries) or are not
# part of the library proper.
EXCLUDE = re.compile(r"/test/|pybindings|Pythia|Marley|MARLEY|FromSpline|DMesonELoss|/Interpolation\.cxx$|/private/py[A-Z]|LeptonInjector|HepMC3")
PROJECTS = {
    "core": ["utilities", "serialization", "dataclasses", "math"],
    "detector": ["detector", "geometry"],
    "distributions": ["distributions"],
    "interactions": ["interactions"],
    "injection": ["injection"],
}

def sources(groups, only=None):
    out = []
    for g in groups:
        for p in PROJECTS[g]:
            for root, dirs, files in os.walk(os.path.join(REPO, "projects", p, "private")):
                dirs.sort()
                for f in sorted(files):
                    path = os.path.join(root, f)
                    if re.search(r"\.(cxx|cpp|cc|c)$", f) and not EXCLUDE.search(path):
                        if only and g in only and not re.search(only[g], path):
                            continue
                        out.append(path)
    return out

def pyinc():
    return subprocess.run(["python3-config", "--includes"], capture_output=True, text=True).stdout.split()

def pylibdir():
    import sysconfig
    return sysconfig.get_config_var("LIBDIR") or "/usr/lib", "python" + sysconfig.get_config_var("LDVERSION")

def configure(name, groups, scen, flavour="noreg", only=None, python=False, extra_link=(), allow_missing=False):
    os.makedirs(BUILD, exist_ok=True)
    inc = ["-I" + os.path.join(VERIF, "shim", "nojson")]
    if flavour == "noreg":
        inc.append("-I" + os.path.join(VERIF, "shim", "noreg"))
    for p in sorted(glob.glob(os.path.join(REPO, "projects", "*", "public"))):
        inc.append("-I" + p)
    inc += ["-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(REPO, "vendor", "rk"), "-I" + os.path.join(REPO, "vendor", "crundec3")] + pyinc()
    base = "-std=c++17 -DNDEBUG -fno-pie -w -pthread -ffunction-sections -fdata-sections -fno-asynchronous-unwind-tables".replace(" -fno-asynchronous-unwind-tables", "")
    # -fno-ipa-pure-const etc. are not needed: every access is a call to the runtime
    lib = f"{base} -O1 -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fno-omit-frame-pointer {' '.join(inc)}"
    har = f"{base} -O1 -g1 {' '.join(inc)}"
    rt = f"{base} -O2 -g1 {' '.join(inc)}"
    third = f"{base} -O1 {' '.join(inc)}"
    L = ["ninja_required_version = 1.3", f"builddir = {BUILD}/{name}"]
    for r, fl in (("lib", lib), ("har", har), ("rt", rt), ("third", third)):
        L += [f"rule {r}", f"  command = g++ {fl} -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = $in"]
    objs, libobjs = [], []
    seen = {}
    def obj(src, rule, tag):
        o = os.path.join(BUILD, tag, re.sub(r"[^A-Za-z0-9_.]", "_", os.path.relpath(src, "/")) + ".o")
        L.append(f"build {o}: {rule} {src}")
        return o
    libobjs = [obj(s, "lib", "lib_" + flavour) for s in sources(groups, only)]
    if python or "interactions" in groups or "injection" in groups or "distributions" in groups or "detector" in groups:
        for s in sorted(glob.glob(os.path.join(REPO, "vendor", "rk", "rk", "*.cc")) + glob.glob(os.path.join(REPO, "vendor", "crundec3", "CRunDec3.1", "CRunDec.cpp"))):
            objs.append(obj(s, "third", "third"))
    for s in ("rt.cpp", "main.cpp"):
        objs.append(obj(os.path.join(VERIF, "sim", s), "rt", "rt"))
    objs.append(obj(os.path.join(VERIF, "scen", "seam_random.cpp"), "rt", "rt"))
    for s in scen:
        objs.append(obj(os.path.join(VERIF, "scen", s), "har", "har_" + flavour))
    link = ["-no-pie", "-rdynamic", "-pthread", "-Wl,--gc-sections", "-Wl,--wrap=_ZN5siren9utilities12SIREN_random7UniformEdd"]
    if allow_missing:
        link.append("-Wl,--unresolved-symbols=ignore-all")
    libs = ["-lgsl", "-lgslcblas", "-ldl"]
    if python:
        d, l = pylibdir(); libs += ["-L" + d, "-l" + l]
    L += ["rule link", f"  command = g++ {' '.join(link)} @$out.rsp -o $out {' '.join(libs)} {' '.join(extra_link)}", "  rspfile = $out.rsp", "  rspfile_content = $in"]
    binp = os.path.join(BUILD, name, "simbin")
    L.append(f"build {binp}: link {' '.join(libobjs + objs)}")
    L.append(f"default {binp}")
    os.makedirs(os.path.join(BUILD, name), exist_ok=True)
    nf = os.path.join(BUILD, name, "build.ninja")
    txt = "\n".join(L) + "\n"
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    return nf, binp

def build(name, **kw):
    nf, binp = configure(name, **kw)
    r = subprocess.run(["ninja", "-f", nf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise SystemExit(2)
    return binp
