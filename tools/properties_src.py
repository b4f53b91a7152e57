prop("C01", "Generated particle identifiers never repeat",
  "Every particle identifier generated in one run is marked set and differs from every other identifier generated in that run, whichever threads ask for them, in whatever interleaving, and whether they are asked for in the original process or in processes forked from it at any moment at which no thread is in the middle of asking. Asking for an identifier always returns: it never blocks for ever, whatever the other threads do.",
  ["schedules", "histories"], "all interleavings of any number of threads at every memory access, all fork points (with any thread of the parent idle), all values of the clock and of the process numbers as long as simultaneously live processes have different numbers",
  "A unit test runs one OS-chosen schedule; the window between the process-change check and the counter reset, or a fork between two of its stores, is never hit.",
  ["projects/dataclasses/private/ParticleID.cxx", "projects/dataclasses/public/SIREN/dataclasses/ParticleID.h", "projects/dataclasses/private/InteractionRecord.cxx"],
  [("pid check, double-checked lock and atomic counter", "ParticleID::GenerateID")],
  state=[("global_last_pid_/global_major_id_/global_minor_id_", "process that owns the counters, the per-process prefix and the next serial number", "ParticleID.cxx")],
  observe=["ParticleID::GenerateID", "PrimaryDistributionRecord", "SecondaryParticleRecord"])

prop("C02", "A seed fixes the entire random stream",
  "Two random generators given the same seed, by construction, by reseeding at any point of their life, or by saving and restoring, yield the same values for the same sequence of requests, whatever other generators and threads do in between and whatever the clock, process number or host. Different seeds give different streams, and the seed reported is the one in force. Every uniform draw lies between the two requested ends, given in either order.",
  ["schedules", "histories"], "all interleavings of generators owned by different threads, all histories of draws, reseeds, copies, saves and restores, all environments",
  "Tests draw from one generator in one thread with one seed; they do not interleave generators or reseed in mid-stream.",
  ["projects/utilities/private/Random.cxx", "projects/utilities/public/SIREN/utilities/Random.h"],
  [("per-object engine, reset by set_seed and by load", "SIREN_random")],
  state=[("configuration/seed", "engine state and the seed it was started from", "Random.h")],
  observe=["SIREN_random::Uniform", "SIREN_random::set_seed", "SIREN_random::get_seed"])

prop("C03", "Generators created without a seed get different seeds",
  "Any two random generators created without an explicit seed, in the same process or in processes running at the same time on the same host, start from different seeds and therefore do not replay each other's stream, however close together in time they are created and in whichever threads.",
  ["schedules", "histories"], "all interleavings of threads creating generators, all behaviours of the clock (standing still, jumping back), all forks",
  "Tests create at most one unseeded generator and never compare two created within one clock tick.",
  ["projects/utilities/private/Random.cxx"],
  [("seed hashed from time, process and host under a lock", "SIREN_random::generate_seed")],
  observe=["SIREN_random()", "SIREN_random::generate_seed"])

prop("C04", "Saving events is complete and faithful, or reports failure",
  "When saving a list of event trees returns normally, the file loads back to trees equal to the saved ones in every field, node order, parent and daughter link, header weight and provenance entry, whatever sequence of insertions built them. When any write, flush or close fails, the save raises; when the file is missing, cut off before the end of what was saved, or cannot be read, the load raises instead of returning a partial or different list.",
  ["histories", "fault_sequences", "crash_points"], "all trees and lists of trees, all write errors, short writes, interrupted calls, full disks and crashes at any byte, all read errors and truncations",
  "Existing tests round-trip a few small trees through memory with a disk that never fails.",
  ["projects/dataclasses/private/InteractionTree.cxx", "projects/dataclasses/public/SIREN/dataclasses/InteractionTree.h", "projects/dataclasses/public/SIREN/dataclasses/InteractionRecord.h", "projects/dataclasses/public/SIREN/dataclasses/InteractionSignature.h", "projects/dataclasses/public/SIREN/dataclasses/ParticleID.h"],
  [("binary archive of the whole list", "SaveInteractionTrees/LoadInteractionTrees"), ("node position = node id", "InteractionTree::add_entry")],
  observe=["SaveInteractionTrees", "LoadInteractionTrees", "InteractionTree::add_entry"])

prop("C05", "A damaged event file never crashes or hangs the loader",
  "Loading an event file in which stored values, node numbers or links have been altered, nodes have been lost, duplicated or blanked out, or the end is missing, ends without crashing or hanging: it either raises, or returns trees in which every node's number equals its position and every parent and daughter link points at an existing node. Asking any node of such a tree for its depth returns or raises; it never loops for ever.",
  ["fault_sequences", "inputs"], "all alterations of values, numbers and links, lost and duplicated nodes and truncations of files written by any supported writer version, including the legacy layout",
  "Tests corrupt one index by hand; the space of damaged archives is unbounded.",
  ["projects/dataclasses/private/InteractionTree.cxx", "projects/dataclasses/public/SIREN/dataclasses/InteractionTree.h"],
  [("index validation after load", "InteractionTree::validate_indices"), ("cycle guard", "InteractionTreeDatum::depth"), ("legacy edge rebuild", "InteractionTree::rebuild_indices_from_legacy")],
  observe=["LoadInteractionTrees", "InteractionTreeDatum::depth"])

prop("C06", "Archived components restore to the same behaviour",
  "Every archivable component (injection distributions, depth and range functions, density profiles, material tables, interaction models, interaction collections, geometries, detector models and injection processes) that is archived and restored, at any point of its life and any number of times, compares equal to the original (where the component compares by content rather than by the identity of what it refers to) and from then on gives the same answers up to rounding and, on the same random stream, the same samples as the original. An archive that cannot be written completely or read completely raises at the archive or stream level and never yields a silently different component.",
  ["histories", "fault_sequences", "configurations"], "all configurations of the components, all interleaved histories of use and archive/restore, all truncations and stream failures of the archive",
  "Tests round-trip a few default-configured components and compare them with operator== only, never their subsequent behaviour.",
  ["projects/distributions/public/SIREN/distributions", "projects/interactions/public/SIREN/interactions", "projects/detector/public/SIREN/detector", "projects/geometry/public/SIREN/geometry", "projects/injection/public/SIREN/injection/Process.h"],
  [("cereal save/load of each class", "every serialisable header")],
  observe=["cereal archives", "Sample", "GenerationProbability", "TotalCrossSection", "Integral"])

prop("C07", "A saved injector or weighter resumes exactly where it was",
  "An injector that is saved at any point between two events and restored, and given a random generator in the same state, produces the same remaining events (to the rounding of renormalised directions), failures and counters as if it had never been saved; a saved and restored weighter returns the same weights. A save whose bytes did not all reach the file raises, and restoring from a missing, truncated or unreadable file raises.",
  ["histories", "crash_points", "fault_sequences"], "all save points in all event histories, all I/O error, truncation and crash points",
  "There is no test that stops a generation half way, restores it and compares the continuation, nor one in which a write fails.",
  ["projects/injection/private/Injector.cxx", "projects/injection/private/Weighter.cxx", "projects/injection/public/SIREN/injection/Injector.h", "projects/injection/public/SIREN/injection/Weighter.h"],
  [("archive of counters, processes and detector", "Injector::SaveInjector/LoadInjector, Weighter::SaveWeighter/LoadWeighter")],
  observe=["Injector::GenerateEvent", "Weighter::EventWeight"])

prop("C08", "Injection counters stay truthful through every failure",
  "After any history of successful, failed and aborted event generations the number of attempts equals the number of generation calls that were accepted, the number of injected events equals the number of non-empty events returned, successful events are numbered consecutively from zero, and a failed attempt returns an empty tree and leaves the injector usable. No more attempts than the requested number are ever accepted: further calls raise and change nothing.",
  ["histories", "fault_sequences"], "all sequences of sampling failures and other errors raised at any sampling step of the primary or of any secondary process",
  "No test injects failures into sampling; failures are rare in ordinary generation.",
  ["projects/injection/private/Injector.cxx", "projects/injection/private/Process.cxx"],
  [("attempt/success counters around the sampling loop", "Injector::GenerateEvent")],
  state=[("injection_attempts/injected_events/events_to_inject", "attempts made, events produced, events requested", "Injector.h")],
  observe=["Injector::GenerateEvent", "Injector::InjectedEvents", "Injector::InjectionAttempts"])

prop("C09", "Every generated interaction is physically and structurally consistent",
  "For every random stream, each final state produced by an interaction model lists one mass, momentum, helicity, time and identifier per declared secondary, every secondary is on its mass shell, and total four-momentum equals that of the primary plus the target at rest (except for the three-neutrino decays of HNLDecay, whose momenta are placeholders). Over many draws the final states follow the final-state probability the model gives for them, per unit of the variable the model declares. In a generated event every daughter starts where and when its parent interacted, with the identifier, mass and momentum its parent recorded for it, and parents precede daughters.",
  ["inputs", "histories"], "all values, ordinary and extreme, of the random stream; all primaries in the valid range of each model; all chains of secondary processes",
  "Closure tests use one seed and average; a rare corner of the random stream that breaks a single event is not seen.",
  ["projects/interactions/private", "projects/dataclasses/private/InteractionRecord.cxx", "projects/injection/private/Injector.cxx"],
  [("final-state samplers", "*::SampleFinalState"), ("record finalisation", "CrossSectionDistributionRecord::Finalize, SecondaryDistributionRecord"), ("tree building", "Injector::GenerateEvent")],
  observe=["SampleFinalState", "InteractionRecord", "InteractionTree"])

prop("C10", "Samples stay inside, and follow, the declared density",
  "Every energy, direction, area point and vertex an injection distribution produces, and every power-law draw of the random generator, for every random stream, lies in the range it was configured for and on the path of its particle, and has a finite, strictly positive generation density according to that same object; values outside the range have density zero. The density, per energy, solid angle, area or volume, integrates to one over the range, and over many draws the frequencies of the produced values agree with it. Where a physical normalisation was given, by a flux table or at one energy, normalisation times density reproduces it.",
  ["inputs", "configurations"], "all random streams, ordinary and extreme; all valid configurations",
  "Tests check a handful of configurations with one seed and generous tolerances, and never drive the stream to its ends.",
  ["projects/distributions/private/primary", "projects/distributions/private/secondary", "projects/detector/private/DetectorModel.cxx", "projects/detector/private/Path.cxx"],
  [("sampling and density code of each distribution", "Sample*/GenerationProbability"), ("depth of a path and its inverse", "DetectorModel::GetInteractionDepthInCGS/DistanceForInteractionDepthFromPoint")],
  observe=["Sample", "GenerationProbability", "InjectionBounds"])

prop("C11", "Independent tasks do not influence each other",
  "A task that builds and uses its own generators, distributions, interaction models, materials and detectors obtains bit-identical results (apart from particle identifiers) whether it runs alone or interleaved in any way with other such tasks in the same process, in whatever order the tasks run, and whatever the clock, process number and memory layout are.",
  ["schedules", "histories"], "all interleavings of several independent tasks at every memory access, all environments",
  "Tests run one task per process in one thread; hidden shared state (a static buffer, a cache) is invisible to them.",
  ["projects/utilities/private/Random.cxx", "projects/distributions/private", "projects/interactions/private", "projects/detector/private", "projects/math/private"],
  [("no mutable process-wide state other than the identifier counters", "whole library")],
  observe=["Sample", "TotalCrossSection", "MaterialModel", "Polynomial", "Interpolator"])

prop("C12", "One detector model serves concurrent readers correctly",
  "Any number of threads may query one fully built detector model for intersections, containing sectors, densities, column depths and materials at the same time, from the very first query on and also right after it was modified while no query was running: every answer equals the answer of a model queried by one thread only, no thread blocks for ever and no query touches memory another is changing without synchronisation.",
  ["schedules", "histories"], "all interleavings, at every memory access, of any number of reader threads, around every lazy rebuild of the spatial index",
  "The lazy index is built by whichever thread comes first; tests are single-threaded.",
  ["projects/detector/private/DetectorModel.cxx", "projects/detector/public/SIREN/detector/DetectorModel.h", "projects/geometry/private/Geometry.cxx", "projects/geometry/public/SIREN/geometry/Geometry.h"],
  [("dirty flag, mutex and double-checked lazy build of the spatial index", "DetectorModel::BuildBVH/EnsureBVH")],
  observe=["DetectorModel::GetIntersections", "DetectorModel::GetContainingSector", "DetectorModel::GetMassDensity", "DetectorModel::GetColumnDepthInCGS"])

prop("C13", "A download is all or nothing",
  "A data file fetched by the download helpers appears at its destination only with the complete content the server announced, matching the requested checksum if one was given; otherwise the call raises and whatever was at the destination before is untouched. This holds for every failure of the network or the disk and when the process is killed or interrupted at any moment, and a call that raises leaves no temporary file behind. Over a working network and disk the download succeeds.",
  ["fault_sequences", "crash_points"], "all sequences of resets, stalls, premature closes, redirects, error statuses and wrong lengths, all disk errors, and kill or interrupt at any step",
  "Tests mock the HTTP layer with well-behaved responses and never kill the process.",
  ["python/download.py"],
  [("write to a temporary file, verify, rename", "download_file"), ("skip existing, download missing", "ensure_files, ensure_zenodo_files")],
  observe=["download_file", "ensure_files", "ensure_zenodo_files"])

prop("C14", "A fetched archive is complete, and fetching recovers from failures",
  "When fetching an archive returns normally, every requested member is present in the destination with exactly the content the archive holds, at that return and at every later one (one archive per destination directory and prefix). After any sequence of failed, interrupted or killed fetches, once the network and the disk work again, the next fetch succeeds. A fetch that raises leaves no part of the archive file behind.",
  ["fault_sequences", "crash_points", "histories"], "all network and disk faults and kill points in any sequence of fetch attempts, with and without a prefix, followed by a fault-free attempt",
  "Tests call the helper once with a good archive; they never leave a half-finished fetch behind and try again.",
  ["python/download.py"],
  [("cache named by content, sentinel written last", "_cached_zip, ensure_zenodo_archive")],
  observe=["ensure_zenodo_archive"])

prop("C15", "Concurrent fetches of the same data never corrupt it",
  "Any number of processes may fetch the same files or archive into the same directory at the same time: none of them fails because of the others, and once any of them has returned normally, the data it reported ready stays complete and correct whatever the others do or however they are killed.",
  ["schedules", "crash_points"], "all interleavings of the file-system and network steps of several processes, with and without kills",
  "Tests are single-process.",
  ["python/download.py"],
  [("per-process temporary names and atomic renames", "download_file, _cached_zip, _safe_extract")],
  observe=["download_file", "ensure_files", "ensure_zenodo_archive", "writable_data_dir"])

prop("C16", "Fetching never writes outside its directory",
  "Whatever the entry names, link entries and order of a fetched archive, and whatever faults occur, extraction creates, changes and deletes nothing outside the destination directory, and an archive with a requested entry that points outside is refused with an error and is not reported as extracted. The data directory chosen for downloads is the requested one whenever files can be created in it and the per-user fallback otherwise, and choosing it leaves no file behind. A data file is taken from the installed directory when it is there and from the chosen one otherwise.",
  ["inputs", "schedules", "fault_sequences"], "all archive entry names and orders, all permission and disk failures while probing, all interleavings of several processes probing the same directory",
  "Tests try two malicious names and one read-only directory.",
  ["python/download.py"],
  [("resolved-path check per member", "_safe_extract"), ("write probe", "writable_data_dir")],
  observe=["ensure_zenodo_archive", "writable_data_dir"])

prop("C17", "Loading a data table never loses data silently",
  "Loading a material table, detector description, flux table, external event list or cross-section table gives the same result however the file's bytes are delivered, and raises when the file cannot be opened or read to its end. A file cut off so that an entry lacks some of its fields makes the loader raise or keep exactly the complete entries before the cut; no input delivery makes it hang or crash.",
  ["fault_sequences", "inputs"], "all splittings of the input into short and interrupted reads, all read-error positions, all truncation points",
  "Tests read intact files from a healthy disk.",
  ["projects/detector/private/MaterialModel.cxx", "projects/detector/private/DetectorModel.cxx", "projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx", "projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx", "projects/distributions/private/primary/PrimaryExternalDistribution.cxx", "projects/interactions/private/HNLDipoleFromTable.cxx"],
  [("line-wise parsers", "AddModelFile, LoadDetectorModel, LoadFluxTable, LoadInputFile, AddDifferentialCrossSectionFile/AddTotalCrossSectionFile")],
  observe=["MaterialModel", "DetectorModel", "flux distribution constructors", "PrimaryExternalDistribution"])

prop("C18", "Event weights depend only on the event and the configuration",
  "For every generated event the weight is finite and not negative, and does not depend on which events were weighted before, on the order of weighting, on the thread that asks, or on whether the event was saved and reloaded first. When several injectors describe the same generation the weight is the one given by the sum of their generation densities, in any order of the injectors.",
  ["histories", "schedules", "inputs"], "all random streams of events, all orders and interleavings of weighting, all injector lists",
  "There is no test that permutes or interleaves weighting.",
  ["projects/injection/private/Weighter.cxx", "projects/injection/private/WeightingUtils.cxx", "projects/injection/public/SIREN/injection/Weighter.tcc"],
  [("weight from generation and physical probabilities", "Weighter::EventWeight")],
  observe=["Weighter::EventWeight"])

prop("C19", "Exported event tables match the events one to one",
  "In the tables exported from a list of generated events, entry i describes event i and only event i: its weight, generation time, interaction count and per-interaction fields, also when some events are empty because their generation failed or some interactions have no secondaries.",
  ["histories", "fault_sequences"], "all sequences of successful and failed events, all tree shapes",
  "No test exports a list that contains failed events.",
  ["python/_util.py"],
  [("per-event loop filling a dict of lists", "SaveEvents")],
  observe=["SaveEvents"])

prop("C20", "A failed import of a resource loader leaves no trace",
  "Loading a resource script that fails at any point raises and leaves the interpreter as before: no half-initialised module stays registered, and once the cause is removed loading again runs the script from the start and succeeds.",
  ["fault_sequences", "histories"], "all failure points and kinds (errors, interrupts, I/O failures) while the script is read and run, in any sequence of attempts",
  "Tests load working scripts only.",
  ["python/_util.py"],
  [("register, execute, deregister on failure", "load_module")],
  observe=["load_module", "import_resource"])

prop("C21", "Event records report the particle they describe",
  "Whatever quantities of one particle (energy, mass, momentum, direction, positions, length, time, helicity) are given to a primary or secondary record, in whatever order, given again, asked for in between, converted to a particle and back or finalised, every quantity the record reports or writes equals that of the particle; what follows from the quantities given is not refused, what is not known is refused, and a particle that is not the one of the record is refused. Records of different particles, used alternately or on different threads, do not influence each other. Comparison of records, signatures and particle identifiers is consistent: equal exactly when all parts are equal, and a total order; event trees are equal exactly when headers, nodes and links are.",
  ["histories", "schedules", "inputs"], "all subsets and orders of quantities given and asked for, all particles, all interleavings over records",
  "Tests set one or two fixed combinations of quantities and read them back once.",
  ["projects/dataclasses/private/InteractionRecord.cxx", "projects/dataclasses/private/Particle.cxx", "projects/dataclasses/private/InteractionSignature.cxx", "projects/dataclasses/private/ParticleID.cxx"],
  [("derivation of missing quantities", "PrimaryDistributionRecord::Update*/SecondaryParticleRecord::Update*"), ("writing to the interaction record", "Finalize")],
  observe=["PrimaryDistributionRecord", "SecondaryParticleRecord", "CrossSectionDistributionRecord", "SecondaryDistributionRecord", "InteractionRecord"])

prop("C22", "Materials, detectors and paths answer from their current contents",
  "After any sequence of additions, redefinitions, replacements, copies and refused changes, a material table, detector model or path answers every query like a new object with the same contents: compositions, fractions and radiation lengths follow from the current definition of each material; the sector, density and column depth at a place follow from the current sectors, the innermost one around the place counting; the ends of a path after any extending, shrinking, clipping, flipping and re-use follow from the operations, in both coordinate frames; moving an end by a depth changes the depth by that much, and depth and distance are inverse. A refused change leaves the object as it was.",
  ["histories", "schedules", "fault_sequences"], "all sequences of operations, refused ones included, all queries in between, all interleavings of independent users of one detector",
  "Tests build an object, query it and discard it; caches and partially applied changes need particular histories.",
  ["projects/detector/private/MaterialModel.cxx", "projects/detector/public/SIREN/detector/MaterialModel.tcc", "projects/detector/private/DetectorModel.cxx", "projects/detector/private/Path.cxx", "projects/geometry/public/SIREN/geometry/AABB.h"],
  [("material tables and their index", "MaterialModel::AddMaterial"), ("sector tables and the search tree over them", "DetectorModel::AddSector/SetSectors/RebuildBVH"), ("cached intersections of a path", "Path::SetPointsWithRay/EnsureIntersections")],
  observe=["MaterialModel", "DetectorModel", "Path"])

prop("C23", "Pooled event sets count every event and every injector once",
  "When several event sets are combined into one export, every event of every distinct events file is exported exactly once, in order, and carries the weight over the union of the distinct injectors behind the sets, however paths are spelled and repeated; further header weights stay, and event counts are summed exactly when every set gives them. An unweighted set, a missing file, sets of different physics and an empty list are refused. Conversion of a single file exports its events likewise with the state that describes their weights. A read, weighting or write that fails makes the call raise with nothing reported as exported, and no call changes the caller's options.",
  ["histories", "fault_sequences", "inputs"], "all lists of sets, spellings, repetitions and sharing of weighters, all failure points, all sequences of calls with one options object",
  "No test combines sets; double counting needs repeated or shared files, and leaking options need a failing call followed by another.",
  ["python/_util.py"],
  [("deduplication of events and weighter files, union of injectors", "combine_and_export_hepmc3"), ("restoring of options", "convert_siren_events_to_hepmc3")],
  observe=["combine_and_export_hepmc3", "convert_siren_events_to_hepmc3"])

prop("C24", "Prefetching attempts every resource and reports every failure",
  "Prefetching named or all resources calls the fetch function of the newest version of each of them in every category it exists in, once per mention, whatever happens to the other ones; the exit status is zero exactly when every name was known and nothing failed.",
  ["fault_sequences", "inputs"], "all sets of installed resources and versions, all failures of scripts, fetches and the disk at any point",
  "Tests do not run the prefetch command with failing resources.",
  ["python/download.py", "python/_util.py"],
  [("loop over resources with per-resource failure handling", "_cmd_fetch"), ("choice of the version", "import_resource")],
  observe=["siren-download --fetch", "siren-download --fetch-all"])

prop("C25", "Python injectors and weighters act as they were configured",
  "Through any history of setting, generating, refused and failed calls, saving, loading and pickling, the Python injector reports the configuration it was given or restored with and every event is generated with exactly that configuration, seed, stopping condition and count; the Python weighter computes with the configuration, injectors and file it was given. A value can be set before or after the first event to the same effect or is refused; a refused or failed call changes nothing and a later call works.",
  ["histories", "fault_sequences"], "all sequences of calls and values, on one or several objects, all points at which a call below fails",
  "No test drives the Python wrappers; each path works only in some order of calls.",
  ["python/Injector.py", "python/Weighter.py"],
  [("lazy creation of the compiled object and forwarding of changes", "Injector.__initialize_injector and setters"), ("restoring", "Injector.__setstate__/load"), ("lazy creation", "Weighter.__initialize_weighter, load")],
  observe=["Injector", "Weighter"])

prop("C26", "A run made of several batches keeps every event and its times",
  "However generation is divided into batches, mixed with loading and saving and interrupted by failed attempts or errors, the controller (and the plain generation loop) returns every event that was made, once and in order, makes as many as were asked for while the injector has attempts left and otherwise ends without an error, and keeps exactly one generation time and one global time per event; everything the controller then saves describes these events, row by row, with the counts of the injector, and saving or loading that fails raises and keeps the events.",
  ["histories", "fault_sequences"], "all sequences of batches, failed attempts, errors, loads and saves",
  "Tests need the compiled package; lost events need a failed attempt in an earlier batch.",
  ["python/SIREN_Controller.py", "python/_util.py"],
  [("generation loops", "SIREN_Controller.GenerateEvents, _util.GenerateEvents"), ("parallel lists of events and times", "SIREN_Controller.LoadEvents/GenerateEvents"), ("export", "SIREN_Controller.SaveEvents")],
  observe=["SIREN_Controller", "GenerateEvents"])

# ---- not decided by this technique ----
prop("N01", "Geometric queries agree with the shapes they describe",
  "For every shape, placement and line, the reported intersections, containment and bounding box agree with the mathematical solid.",
  ["inputs"], "all shapes, placements and rays", "Input space is continuous; tests sample rays.",
  ["projects/geometry/private"], [("ray/solid intersection", "Geometry subclasses")])
prop("N02", "Density integrals are consistent with the density",
  "For every density profile and path, integral, derivative, inverse integral and point evaluation agree with one another.",
  ["inputs"], "all profiles and paths", "Input space is continuous; tests sample points.",
  ["projects/detector/private"], [("closed-form and numeric integrals", "DensityDistribution subclasses, DetectorModel, Path")])
prop("N03", "Rotation and vector algebra identities hold",
  "Rotations preserve length, compose associatively and invert exactly up to rounding, in every representation.",
  ["inputs"], "all vectors and rotations", "Input space is continuous.",
  ["projects/math/private"], [("quaternion, matrix and Euler algebra", "math")])
prop("N04", "HepMC3 output round-trips every event",
  "Every event tree written to HepMC3 reads back with the same content.",
  ["inputs", "fault_sequences"], "all event trees and I/O faults", "Needs the HepMC3 library.",
  ["projects/io/private"], [("HepMC3 writer/reader", "HepMC3Writer, HepMC3Reader")])
prop("N05", "Spline and model-file cross sections match their tables",
  "Cross sections from photospline and DarkNews tables reproduce the tables and sample from them.",
  ["inputs"], "all tables and kinematics", "Needs photospline and DarkNews.",
  ["projects/interactions/private"], [("spline evaluation", "*FromSpline, DarkNews")])
prop("N06", "Detector, GDML and model-name parsing accepts exactly the documented forms",
  "Every well-formed description is parsed to the model it describes and every malformed one is rejected.",
  ["inputs"], "all texts", "Pure function of its input.",
  ["projects/detector/private/GDMLParser.cxx", "python/_util.py"], [("parsers", "GDMLParser, DetectorModel, _util")])
