"""Which scenarios decide which property."""
REAL = ["SIREN C++ library code of /repo, compiled from the working tree with every memory access instrumented"]
STUB = ["thread scheduler", "clock, process and host identity", "disk calls (fault layer over a scratch directory)", "memory allocator limits", "random draws may be replaced by extreme ones (where the check says so)"]
THREAD_RULE = " A run is non-trivial if it exercised the property (see probes); two runs are distinct if their event history, schedule (switch points and order) or reached state hash differ."

def cpp(name, scen, scenarios, groups, **kw):
    return dict(kind="cpp", name=name, build=dict(groups=groups, scen=scen, **kw), scenarios=scenarios)

CHECKS = {}
CHECKS["C01"] = dict(
    parts=[cpp("c01", ["c01.cpp"], [dict(name="ids")], ["core"])],
    quick_s=25, thorough_s=900,
    what="seeded preemption at every memory access, forks, clock",
    note="Seeded search over thread interleavings at memory-access granularity and fork points of the real code; a violation found is real and replayable, absence is evidence over the runs counted, not proof.",
    rule="Seeded histories of identifier requests by 1-4 threads per process over up to three generations of forked processes, preempted at instrumented memory accesses; clock and pids chosen by the seed. Oracle: all identifiers set and pairwise different; no deadlock; step budget." + THREAD_RULE,
    assumptions=["sequentially consistent memory (as on x86 for the operations used)", "simultaneously or successively live processes have different process numbers", "a process is not forked while another of its threads is inside a request"])
CHECKS["C02"] = dict(
    parts=[cpp("c02", ["c02.cpp"], [dict(name="streams")], ["core"])],
    quick_s=20, thorough_s=600,
    what="seeded interleavings and histories of generators against a solo reference",
    note="Seeded search over histories and interleavings of the real generator compared bit for bit with the same requests run alone.",
    rule="1-4 generators owned by threads (or interleaved in one thread); seeded histories of draws, reseeds, copies, saves and restores under preemption, clock jumps and changed identities. Oracle: each stream is bit-identical to the same requests on a generator of that seed used alone in another environment; draws in range; reported seed; different seeds differ; no data race." + THREAD_RULE,
    assumptions=["a generator object is used by one thread at a time"])
CHECKS["C03"] = dict(
    parts=[cpp("c02", ["c02.cpp"], [dict(name="autoseed")], ["core"])],
    quick_s=15, thorough_s=600,
    what="seeded interleavings, forks and clock behaviour",
    note="Seeded search over creation histories in threads and forked processes with a simulated clock, pid and host.",
    rule="Unseeded generators created by threads and forked processes while the simulated clock stands still, advances or jumps back. Oracle: all seeds pairwise different." + THREAD_RULE,
    assumptions=["live processes of one host have different process numbers", "64-bit hash collisions are negligible"])

PYREAL = ["python/download.py of /repo's working tree", "CPython urllib, http.client, json, zipfile, tempfile, shutil", "the kernel's file system below the fault layer"]
PYSTUB = ["process scheduler (processes interleave at every system call)", "network and HTTP/TLS servers", "fault layer of the file system", "clock, process numbers, random names"]
PYRULE = " A run is one seeded history; two runs are distinct if the hash of their ordered history of system calls, faults and outcomes differs."
PYASSUME = ["a killed process loses its buffers but not what it had handed to the kernel (no power failure)", "rename is atomic, as POSIX promises", "live processes have different process numbers"]
def py(name, scenarios, main="download_sim.py", **kw):
    return dict(kind="py", name=name, main=main, scenarios=scenarios, **kw)
CHECKS["C13"] = dict(
    parts=[py("dl", [dict(name="download")])], quick_s=35, thorough_s=1200, real=PYREAL, stub=PYSTUB,
    what="simulated network, disk, kills and interrupts around every system call of a download",
    note="Seeded search over fault sequences and kill points with the real download code and the real HTTP client.",
    rule="Single and multi-file fetches, with and without checksum and previous content, over length-delimited, chunked and close-delimited replies; up to three faulty attempts (network, disk, kill, interrupt, memory) and a final fault-free one. Oracle: at every step the destination holds the old or the complete content; normal return means complete; a raise leaves no new file; the fault-free attempt succeeds." + PYRULE,
    assumptions=PYASSUME + ["a reply that announces no length and arrives cut off cannot be told from a complete one unless a checksum is given"])
CHECKS["C14"] = dict(
    parts=[py("dl", [dict(name="archive")])], quick_s=40, thorough_s=1200, real=PYREAL, stub=PYSTUB,
    what="simulated network, disk, kills and interrupts over sequences of archive fetches",
    note="Seeded search over sequences of faulty and killed archive fetches followed by a fault-free one.",
    rule="Seeded archives and prefixes; up to four faulty fetches and then fault-free ones. Oracle: after a normal return all requested members are there with the archive's bytes, then and at every later step; the fault-free fetch succeeds." + PYRULE,
    assumptions=PYASSUME + ["one archive per destination directory and prefix, as documented"])
CHECKS["C15"] = dict(
    parts=[py("dl", [dict(name="concurrent")])], quick_s=45, thorough_s=1200, real=PYREAL, stub=PYSTUB,
    what="seeded interleaving of several fetching processes at every system call, with faults and kills",
    note="Seeded search over interleavings of 2-4 simulated processes at system-call granularity.",
    rule="2-4 processes fetching the same files or archive or choosing the same data directory, interleaved at every system call, some of them faulted or killed. Oracle: processes without a fault of their own succeed; what a process has reported ready stays complete after every later step of any process." + PYRULE,
    assumptions=PYASSUME)
CHECKS["C16"] = dict(
    parts=[py("dl", [dict(name="contain", weight=2), dict(name="datadir")])], quick_s=35, thorough_s=900, real=PYREAL, stub=PYSTUB,
    what="seeded hostile archives and directory probing under faults, permissions and interleaving",
    note="Seeded search over hostile archive names, existing links, faults, permissions and interleavings; every mutating call is checked before it takes effect and cannot leave the scratch area.",
    rule="Archives with entry names and existing links that point outside, fetched under faults and repeatedly; data directory chosen by 1-4 interleaved processes under permissions and faults. Oracle: no mutating call outside the destination; an archive requesting an outside entry is refused; right directory chosen, nothing left behind." + PYRULE,
    assumptions=PYASSUME + ["nobody but the fetching processes changes the destination meanwhile"])
CHECKS["C19"] = dict(
    parts=[py("util", [dict(name="export")], "util_sim.py", numpy=True)], quick_s=25, thorough_s=600,
    real=["python/_util.py of /repo's working tree (SaveEvents and what it calls)", "numpy"],
    stub=["compiled event classes (plain records with the same fields)", "awkward, h5py and HepMC3 (recording stand-ins that can fail)", "clock", "weighter"],
    what="seeded histories of failed and successful events, failing outputs and weighters, clock jumps",
    note="Seeded search over event histories and output failures against a row-by-row reference table.",
    rule="Seeded lists of events (failed ones, empty trees, interactions without secondaries, nested trees), all output switches and weight policies, failing outputs and weighters, clock running backwards. Oracle: every exported column row equals the reference computed from that event alone; outputs that were requested are written once and closed; a failing output raises." + PYRULE,
    assumptions=["the stand-ins for awkward and h5py store what they are given"])
CHECKS["C20"] = dict(
    parts=[py("util", [dict(name="script")], "util_sim.py", numpy=True)], quick_s=25, thorough_s=600,
    real=["python/_util.py of /repo's working tree (load_module, import_resource and what they call)", "CPython importlib", "the kernel's file system below the fault layer"],
    stub=["fault layer of the file system", "compiled extension modules (not loaded)", "the resource scripts"],
    what="failures, interrupts and I/O errors at seeded points while scripts are read and run",
    note="Seeded search over sequences of failing and successful loads.",
    rule="Seeded sequences of loads of resource scripts that fail with any kind of exception at a seeded point, cannot be opened, read short, replace themselves or import each other, followed by a fault-free load. Oracle: a failed load raises and leaves sys.modules as before; the fault-free load runs the script once from the start and returns its module." + PYRULE,
    assumptions=["bytecode caching is off"])
CHECKS["C23"] = dict(
    parts=[py("util", [dict(name="combine")], "util_sim.py", numpy=True)], quick_s=25, thorough_s=600,
    real=["python/_util.py of /repo's working tree (combine_and_export_hepmc3, convert_siren_events_to_hepmc3 and what they call)", "numpy", "the kernel's file system (existence of the files)"],
    stub=["compiled event, weighter, injector and interaction classes (plain records with the same fields)", "HepMC3 writer (recording stand-in that can fail)", "fault layer of the file system"],
    what="seeded sequences of pooling and conversion calls with failing reads, weights and writes",
    note="Seeded search over lists of event sets, shared and repeated files and failure points against a reference that counts every event and injector once.",
    rule="One to three calls in a row with one options object; lists of zero to four sets given as paths, pairs or records, with repeated, shared, differently spelled, missing and unweighted files and weighters of equal or different physics; a failing load, weight or write at a seeded point. Oracle: a reference list of events and union of injectors computed from the plan; refusals and failures raise and export nothing; the caller's options are the same after every call." + PYRULE,
    assumptions=["files are the same when their normalised absolute paths are (links are not considered)", "the weight of an event depends on the set of injectors the weighter was given"])
CHECKS["C24"] = dict(
    parts=[py("util", [dict(name="prefetch")], "util_sim.py", numpy=True)], quick_s=25, thorough_s=600,
    real=["python/download.py (_cmd_fetch, main) and python/_util.py (resource lists, import_resource, load_module) of /repo's working tree", "CPython importlib and argparse", "the kernel's file system below the fault layer"],
    stub=["fault layer of the file system", "compiled extension modules (not loaded)", "the resource scripts and their fetch functions"],
    what="failing scripts, fetch functions and disk reads at seeded points of a prefetch",
    note="Seeded search over installed resources, versions and failure points.",
    rule="Seeded resource trees (three categories, shared names, several versions, scripts without fetch function, unreadable or missing scripts), prefetched by name, repeatedly, with unknown names, or all, through the command line or the function; scripts and fetch functions raise errors of several kinds and one script may be unreadable. Oracle: the fetch functions called, once per mention, are those of the newest version of every known resource that can be loaded; the status is zero exactly when nothing failed." + PYRULE,
    assumptions=["a resource without any loader script may or may not count as a failure", "the order in which resources are fetched is not specified", "an unreadable bytecode cache is not a failure"])
CHECKS["C25"] = dict(
    parts=[py("wrap", [dict(name="wrapper")], "wrap_sim.py")], quick_s=25, thorough_s=600,
    real=["python/Injector.py and python/Weighter.py of /repo's working tree"],
    stub=["compiled injector, weighter, process, collection and generator classes (recording stand-ins with the bound interface, which can fail)"],
    what="seeded histories of calls on one to three injectors and weighters with failing calls below",
    note="Seeded search over call histories and failure points; every event and weight reports the configuration it was made with, compared with a model of what was set.",
    rule="Four to 27 calls: construction with seeded arguments, setting of any property before and after the first event, generation, records, reset, save, load, pickling, weighting, with values of the wrong type, missing files and a call of the compiled layer failing at a seeded point. Oracle: a plain model of the configuration; reported properties, events, streams, counts and weights equal it after every call; refusals exactly where the model says." + PYRULE,
    assumptions=["the stand-ins behave like the bindings they replace (argument types, what an archive holds)", "an unpickled injector starts its random stream anew from its seed", "a failure below while secondary processes are changed one after another is not injected", "after a call that failed once the compiled object existed, the wrapper may or may not keep it", "a loaded weighter need not report what the file holds"])
CHECKS["C26"] = dict(
    parts=[py("util", [dict(name="controller")], "util_sim.py", numpy=True)], quick_s=25, thorough_s=600,
    real=["python/SIREN_Controller.py (construction, initialisation, generation, loading, saving) and python/_util.py of /repo's working tree", "numpy"],
    stub=["compiled injector (limited attempts, failed attempts, errors), weighter, event, process and detector classes", "awkward, h5py and HepMC3 (recording stand-ins that can fail)", "clock"],
    what="seeded sequences of batches, loads and saves with failed attempts, errors, failing outputs and clock jumps",
    note="Seeded search over batch histories and failures against the list of events the injector really made.",
    rule="Two to eight calls on one controller: initialisation (also from files with other limits), batches of seeded size, loading, saving with all switches, and the plain loop; attempts fail or raise, weights and outputs fail, the clock runs backwards. Oracle: the events made by the injector in order with their times; every exported column; batch sizes; a call raises exactly when something below failed." + PYRULE,
    assumptions=["the injector counts like the compiled one (C08)", "the stand-ins for awkward and h5py store what they are given"])
CHECKS["C04"] = dict(
    parts=[cpp("c04", ["c04.cpp"], [dict(name="save")], ["core"])], quick_s=30, thorough_s=900,
    what="seeded event histories saved and loaded over a disk with errors, short and interrupted calls, crashes and truncation",
    note="Seeded search over event trees and disk fault sequences with the real save and load code; contents are compared bit by bit with an independent model.",
    rule="Seeded lists of trees built by seeded insertion histories, saved one to three times and loaded under write, close and open errors, full disk, short and interrupted calls, failing allocations, power loss at a seeded byte, truncation and read errors. Oracle: a plain-data model of the trees compared field by field and bit by bit; a save or load that was hit by a failure raises; one that was not succeeds. A run is distinct by the hash of its event history.",
    assumptions=["one archive is read or written at a time in a process (cereal is not thread safe)", "a crash keeps a prefix of the bytes written"])
CHECKS["C05"] = dict(
    parts=[cpp("c04", ["c04.cpp"], [dict(name="damage")], ["core"])], quick_s=30, thorough_s=900,
    what="seeded damage to event files of the current and the legacy layout",
    note="Seeded search over damage to stored files; crash, hang and memory use are observed on the real loader.",
    rule="Seeded current and legacy event files with damaged, lost, duplicated or missing nodes, damaged links and node numbers, flipped bytes, lost or repeated blocks and truncation. Oracle: the loader ends within its step budget without crashing; it raises or returns trees with valid numbers and links; depth queries end, with the depth of the reference walk where there is one; intact files load completely. A run is distinct by the hash of its history and file.",
    assumptions=["allocations above 256 MB fail (a machine with limited memory)"])
CHECKS["C17"] = dict(
    parts=[cpp("c17", ["c17.cpp"], [dict(name="tables", weight=2), dict(name="detector")], ["core", "detector", "distributions", "interactions"], allow_missing=True, python=True,
               only={"distributions": r"Tabulated|External|/Distributions\.cxx|PrimaryEnergy", "interactions": r"HNLDipoleFromTable|/CrossSection\.cxx|/Decay\.cxx|InteractionCollection|/Interaction\.cxx"})],
    quick_s=30, thorough_s=900,
    what="seeded tables and detector descriptions delivered over a disk with errors, short and interrupted reads, truncation and failing allocations",
    note="Seeded search over table contents, delivery faults, read-error positions and cut points with the real loaders; answers are compared with the same entries added through the programming interface.",
    rule="Seeded material tables, one- and two-dimensional flux tables, external event lists, cross-section tables, detector descriptions (current, legacy, GDML) with comments and blank lines, delivered whole, in short and interrupted reads, with read or open errors, missing, cut at a seeded byte, or with a failing allocation. Oracle: the loaded object answers exactly as one built from the same entries in memory; a delivery failure or unusable remainder raises; a cut inside an entry raises or keeps exactly the complete entries; nothing hangs or crashes. A run is distinct by the hash of its history.",
    assumptions=["a number shortened by a cut in the last field of a line cannot be told from a complete one", "a cut between two lines of a table leaves a complete, shorter table (grids with missing corners may also be accepted as far as they can be used)"])
FULL = dict(allow_missing=True, python=True, only={"injection": r"/Process\.cxx"})
CHECKS["C06"] = dict(
    parts=[cpp("c06", ["c06.cpp"], [dict(name="archive")], ["core", "detector", "distributions", "interactions", "injection"], flavour="reg", **FULL)],
    quick_s=45, thorough_s=1200,
    what="seeded histories of use, archiving and restoring of every archivable component, over a disk with errors, short and interrupted calls, truncation and unreadable blocks",
    note="Seeded search over component configurations, points in their life and archive faults with the real classes; restored and original answer the same seeded questions and draw from equal random streams.",
    rule="One seeded component (distribution, depth or range function, density profile, material table, table interpolation, cross section, decay, collection, geometry, detector model, process) in a seeded configuration, used or not, archived and restored one to three times through memory or files that fail, are cut off or cannot be read. Oracle: an undamaged archive restores, is read to its end, compares equal and gives the same answers and samples (to rounding, 1e-9 relative); a failed write leaves the stream or call in error; a cut-off or unreadable archive raises. A run is non-trivial if a component was built and asked; two runs are distinct if their event histories differ.",
    assumptions=["one archive is read or written at a time in a process (cereal is not thread safe)", "collections of interactions and processes compare the identity of the models they refer to, so only their answers are compared", "the portable binary format is used (the JSON archive of the vendored library is not built here)"])

C11PART = lambda sc: cpp("c11", ["c11.cpp"], sc, ["core", "detector", "distributions", "interactions", "injection"], flavour="reg", **FULL)
CHECKS["C11"] = dict(
    parts=[C11PART([dict(name="isolation")])], quick_s=45, thorough_s=1200,
    what="seeded interleaving of independent tasks at every memory access, and seeded orders in one thread, against each task alone in a fresh process",
    note="Seeded search over task mixes, schedules and environments with the real classes; results are compared bit for bit with the same task run alone.",
    rule="2-4 tasks, each building and asking 1-3 seeded components (any archivable class, alike or different between tasks) in worlds of their own, interleaved by the scheduler, run in a seeded order, or run twice in one process, with seeded clock, process number and host. Oracle: every hash over all answers and samples of a task equals that of the task run alone in a fresh forked process. Two runs are distinct if their schedules, histories or answers differ.",
    assumptions=["sequentially consistent memory", "tasks share no objects"])
CHECKS["C12"] = dict(
    parts=[C11PART([dict(name="readers")])], quick_s=45, thorough_s=1200,
    what="seeded preemption of reader threads at every memory access around the lazy index build, with happens-before race detection",
    note="Seeded search over models, modifications, queries and schedules of the real DetectorModel; answers are compared bit for bit with an identical model used by one thread.",
    rule="Seeded detector models of up to eight sectors (all shapes, all density profiles), modified, archived or restored while no query runs, then queried by 2-4 threads (intersections, containing sector, densities, depths, targets, paths, bounds) preempted at instrumented accesses; one to three such phases. Oracle: every answer is bit-identical to that of an identical model asked by one thread, no two threads touch the same memory without synchronisation while one writes it (vector clocks), and every query returns within its step bound. Two runs are distinct if their schedules, histories or answers differ.",
    assumptions=["sequentially consistent memory for the values read; races are judged by the C++ happens-before relation of locks and atomics", "nobody modifies the model while a query runs"])

CHECKS["C10"] = dict(
    parts=[cpp("c10", ["c10.cpp"], [dict(name="energies"), dict(name="directions"), dict(name="flux2d"), dict(name="volumes"), dict(name="paths", weight=2)], ["core", "detector", "distributions", "interactions", "injection"], **FULL)],
    quick_s=70, thorough_s=1200,
    what="seeded configurations of every injection distribution driven by seeded random streams whose draws are also forced to the ends of their ranges",
    note="Seeded search over configurations and random streams with the real samplers and densities; the density is integrated numerically and compared with one and with the sampled frequencies.",
    rule="One seeded energy, direction, volume, area or vertex distribution, or power-law draw of the generator (vertex distributions in a seeded detector with decays, interactions or both), sampled up to 20000 times; in part of the runs draws of the random stream are replaced by values at the ends of the unit interval. Oracle: every sample is finite, in its configured range and on the path of its particle, with a finite positive density (at the ends: not negative); points outside have density zero; the density integrates to one; a Kolmogorov-Smirnov bound (failure probability below 1e-12 per comparison plus the integration error) holds between samples and density. A run is non-trivial if a distribution was sampled; two runs are distinct if their event histories differ.",
    assumptions=["samples within rounding of an edge may have density zero", "frequencies of two-dimensional fluxes are compared when the density peaks below eight times its mean, where the chain of 41 steps per sample forgets its start", "tabulated fluxes are compared to the accuracy of their numerical integral"])
INJ = dict(allow_missing=True, python=True, only={"injection": r"/(Process|Injector|Weighter|WeightingUtils)\.cxx"})
C07PART = lambda sc: cpp("c07", ["c07.cpp"], sc, ["core", "detector", "distributions", "interactions", "injection"], flavour="reg", **INJ)
CHECKS["C09"] = dict(
    parts=[cpp("c09", ["c09.cpp"], [dict(name="finalstates"), dict(name="shapes")], ["core", "detector", "distributions", "interactions", "injection"], **FULL), C07PART([dict(name="events")])],
    quick_s=70, thorough_s=1200,
    what="every interaction model and whole event chains driven by seeded random streams whose draws are also forced to the ends of their ranges",
    note="Seeded search over models, kinematics, thresholds and random streams with the real samplers and the real event loop.",
    rule="Final states: a seeded model, signature, energy (including just above threshold) and direction, on a seeded random stream with draws replaced by values at the ends of the unit interval in half of the runs. Events: a seeded injector in a seeded detector with up to three generations of secondary processes. Oracle: one mass, momentum, helicity, time and identifier per secondary, all finite, distinct identifiers, on shell (1e-7), masses of the declared particles, four-momentum conserved (1e-7). Shapes: 2000 final states of one seeded interaction, sorted by the variable the model declares (rest-frame cosine, momentum transfer, inelasticity): the final-state probability, integrated over them, is one (5%) and its distribution function agrees with their ranks (Kolmogorov-Smirnov, failure probability below 1e-12). Events: every daughter starts where and when its parent interacted with what its parent recorded, lies on its path, interacts once, and none is lost. A run is distinct by the hash of its event history.",
    assumptions=["an exception means no final state", "the placeholder momenta of three-neutrino HNL decays are not declared to conserve momentum", "the tables of HNLDipoleFromTable need not be normalised to each other", "frequencies are compared where forty steps of the samplers' chains forget their start (density below six times its mean in the proposed variable); three-body HNL decays declare no density in their own variables", "the DIS, Marley and Pythia models do not build here"])
CHECKS["C07"] = dict(
    parts=[C07PART([dict(name="resume")])], quick_s=45, thorough_s=1200,
    what="seeded generations saved, crashed and restored at seeded points over a disk with errors, short and interrupted calls and truncation",
    note="Seeded search over configurations, save points and disk faults with the real injector and weighter; the continuation is compared event by event with the uninterrupted run.",
    rule="A seeded injector (detector, primary and secondary processes) generates a seeded number of events, is saved (in part of the runs to a disk that fails) and restored one to three times into fresh or used objects, from intact, missing, cut-off or unreadable files, and continues on an equal random stream; weighters likewise. Oracle: counters, processes, remaining events, failures and weights equal those of the uninterrupted injector (to the rounding of renormalised directions); a failed save or a damaged restore raises. A run is distinct by the hash of its event history.",
    assumptions=["the user restores the random generator", "directions are renormalised on restoring, so values agree to rounding, not bit by bit"])
CHECKS["C08"] = dict(
    parts=[C07PART([dict(name="counters")])], quick_s=45, thorough_s=1200,
    what="generation histories in which seeded sampling steps of primaries and secondaries fail, raise or run out of memory",
    note="Seeded search over failure sequences with the real event loop; counters are compared with a reference count after every call.",
    rule="A seeded injector whose distributions and interactions fail as an injection failure, another exception or a failing allocation at seeded steps, called beyond the requested number. Oracle: attempts, events and numbers equal a reference count after every call; failures give an empty tree, errors reach the caller, calls beyond the limit raise and change nothing, and the next event equals that of an unused injector on the same stream. A run is distinct by the hash of its event history.",
    assumptions=["failures are raised by stand-in distributions placed among the real ones"])
CHECKS["C18"] = dict(
    parts=[C07PART([dict(name="weights")])], quick_s=45, thorough_s=1200,
    what="seeded events weighted in seeded orders, on interleaved threads, after reloading and with seeded lists of injectors",
    note="Seeded search over events, orders, schedules and injector lists with the real weighter.",
    rule="Events of one to three seeded injectors are weighted alone, in seeded orders, by several threads under the seeded scheduler, after saving and reloading them, and with the injectors in other orders. Oracle: weights are finite and not negative and equal in all of these; the weight with several injectors is the one given by the sum of the densities of each. A run is distinct by the hash of its event history.",
    assumptions=["events whose draws were forced to the ends of their ranges may have infinite weight", "threads use one weighter for queries only"])
CHECKS["C21"] = dict(
    parts=[cpp("c21", ["c21.cpp"], [dict(name="records", weight=3), dict(name="order")], ["core"])], quick_s=30, thorough_s=900,
    what="seeded histories of giving and asking for quantities of event records, interleaved over several records and threads, against one true particle",
    note="Seeded search over histories and interleavings with the real record classes compared with the particle described.",
    rule="For each of one to three records (primary, or interaction with up to three secondaries and their next generation) a true particle is drawn; a seeded history gives some of its quantities in a seeded order, gives them again for another particle, asks for any quantity, converts to a particle and back and finalises, on one thread or under the seeded scheduler. Oracle: what is returned or written equals the true particle (relative 1e-9; squared masses and momenta relative to the squared energy), what follows from the quantities given is not refused, values of another particle are refused. Comparison: records, signatures and identifiers that differ in one seeded part are unequal and ordered one way, copies are equal, the order is total and transitive." + THREAD_RULE,
    assumptions=["the quantities given are those of one particle", "momenta are not far below the mass, so that derived quantities are well conditioned"])
CHECKS["C22"] = dict(
    parts=[cpp("c22", ["c22.cpp"], [dict(name="materials"), dict(name="detectors"), dict(name="pathhist", weight=2)], ["core", "detector", "distributions", "interactions", "injection"], **FULL)], quick_s=60, thorough_s=1200,
    what="seeded histories of changes (accepted and refused), copies and queries of material tables, detectors and paths, compared with new objects of the same contents",
    note="Seeded search over operation histories and interleavings with the real classes, compared with a reference model, with freshly built objects and with direct integration of the density.",
    rule="Materials: seeded sequences of additions, redefinitions, material files (some malformed or missing) and copies; oracle: names, numbers, targets, fractions and radiation lengths follow from the current compositions. Detectors: seeded sequences of added, replaced, cleared and refused sectors, new origins, rotations and materials between queries; oracle: answers equal those of a new detector with the same contents, the containing sector is the innermost one around a point, column depths equal the integral of the density. Paths: seeded sequences of setting, flipping, clipping, extending and shrinking by distance or depth, changing the detector and querying, on one thread or two under the seeded scheduler; oracle: the ends follow a reference computed alongside, in both frames, every answer equals that of a new path between the same points (1e-6), moving an end by a depth changes the depth by it, distance and depth are inverse. A run is distinct by the hash of its event history." + THREAD_RULE,
    assumptions=["intersections are reused for rays that are collinear within the documented tolerance, so rays are either exactly collinear or clearly not", "points on a sector boundary may belong to either side"])
