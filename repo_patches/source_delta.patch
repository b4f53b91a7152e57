From 65062a6dcdd9cfa8e6626b8bbf41e7f30275e448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:20 +0000
Subject: [PATCH 01/70] fix: publish the new pid only after the particle ID
 counters are reset

After a fork, a thread of the child that saw the already updated pid could
still use the major ID and counter inherited from the parent and hand out
identifiers that the parent (or a sibling) hands out as well.
---
 projects/dataclasses/private/ParticleID.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/dataclasses/private/ParticleID.cxx b/projects/dataclasses/private/ParticleID.cxx
index 0f5c4b4..d315970 100644
--- a/projects/dataclasses/private/ParticleID.cxx
+++ b/projects/dataclasses/private/ParticleID.cxx
@@ -95,10 +95,12 @@ ParticleID ParticleID::GenerateID() {
                                                             //check whether another thread already updated this
         last_pid = global_last_pid_.load(std::memory_order_relaxed);
         if(this_pid != last_pid){
-            std::atomic_thread_fence(std::memory_order_release);
-            global_last_pid_.store(this_pid, std::memory_order_relaxed);
             global_major_id_.store(0, std::memory_order_relaxed); // this will cause a new major ID to be generated
             global_minor_id_.store(0, std::memory_order_relaxed); // reset the minor ID, too
+            // publish the new pid last: a thread that skips the lock because the pid
+            // matches must not see the counters inherited from the parent process
+            std::atomic_thread_fence(std::memory_order_release);
+            global_last_pid_.store(this_pid, std::memory_order_relaxed);
         }
     }
 
-- 
2.43.0


From c12336d586e7d6796ee7007e26db925b2c2f3e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:20 +0000
Subject: [PATCH 02/70] fix: give generators created in the same second
 different seeds

generate_seed hashed only the time in seconds, the pid and the host, so all
unseeded generators created by a process within one second shared one stream.
---
 projects/utilities/private/Random.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/utilities/private/Random.cxx b/projects/utilities/private/Random.cxx
index 0d268a4..d71d072 100644
--- a/projects/utilities/private/Random.cxx
+++ b/projects/utilities/private/Random.cxx
@@ -9,6 +9,7 @@
 
 namespace {
 	std::mutex global_seed_lock;
+	uint64_t global_seed_counter = 0; // guarded by global_seed_lock
 }
 
 namespace siren {
@@ -62,7 +63,8 @@ namespace utilities {
         std::lock_guard<std::mutex> lg(global_seed_lock);
         std::hash<std::string> string_hash;
         std::stringstream s;
-        s << time(0) << getpid() << gethostid();
+        // the counter keeps seeds generated within one clock tick apart
+        s << time(0) << ' ' << getpid() << ' ' << gethostid() << ' ' << global_seed_counter++;
         std::atomic_thread_fence(std::memory_order_release);
         uint64_t seed = string_hash(s.str());
         return seed;
-- 
2.43.0


From 0956aa4979b4c12090e9eef67536aa208d0698d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 03/70] fix: reject downloads shorter than the announced length

---
 python/download.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/download.py b/python/download.py
index 9c101ea..b4a1b9c 100644
--- a/python/download.py
+++ b/python/download.py
@@ -130,7 +130,8 @@ def download_file(url: str, dest: str, sha256: str = "",
         req = urllib.request.Request(url, headers={"User-Agent": "siren"})
         h = hashlib.sha256()
         with urllib.request.urlopen(req, timeout=timeout) as resp:
-            total = int(resp.headers.get("Content-Length", 0))
+            length = resp.headers.get("Content-Length")
+            total = int(length or 0)
             downloaded = 0
 
             with open(tmp, "wb") as out:
@@ -156,6 +157,13 @@ def download_file(url: str, dest: str, sha256: str = "",
             if show_progress and total > 0:
                 print()
 
+            # http.client returns short data without raising when the
+            # connection closes early, so compare with the announced length.
+            if length is not None and downloaded != total:
+                raise ConnectionError(
+                    f"Incomplete download of {label}: "
+                    f"got {downloaded} of {total} bytes")
+
         if sha256:
             got = h.hexdigest()
             if got != sha256:
-- 
2.43.0


From 869f2d1276439d3d9cbfafb11f6738c8bccbcc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 04/70] fix: remove the temporary file of an interrupted
 download

---
 python/download.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/download.py b/python/download.py
index b4a1b9c..f874617 100644
--- a/python/download.py
+++ b/python/download.py
@@ -174,7 +174,7 @@ def download_file(url: str, dest: str, sha256: str = "",
 
         os.replace(tmp, dest)
 
-    except Exception:
+    except BaseException:
         if os.path.exists(tmp):
             os.remove(tmp)
         raise
@@ -336,7 +336,7 @@ def _cached_zip(dest_dir: str, record_id: str, filename: str,
         cache_path = os.path.join(cache_dir, f"{tag}.{sha}.zip")
         os.replace(tmp_path, cache_path)
         return cache_path
-    except Exception:
+    except BaseException:
         if os.path.exists(tmp_path):
             os.remove(tmp_path)
         raise
-- 
2.43.0


From e4a70eab40d960ad6ae9d7e4863b9a478e491a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 05/70] fix: give each download its own temporary file

---
 python/download.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/download.py b/python/download.py
index f874617..21abaa4 100644
--- a/python/download.py
+++ b/python/download.py
@@ -42,6 +42,7 @@ import os
 import sys
 import urllib.error
 import urllib.request
+import uuid
 import zipfile
 from typing import Any
 
@@ -118,7 +119,8 @@ def download_file(url: str, dest: str, sha256: str = "",
     - Progress bar on stdout.
     """
     os.makedirs(os.path.dirname(dest) or ".", exist_ok=True)
-    tmp = dest + ".tmp"
+    # Unique per call: concurrent downloads to the same dest must not share it.
+    tmp = f"{dest}.{os.getpid()}.{uuid.uuid4().hex}.tmp"
 
     if not label:
         label = os.path.basename(dest)
-- 
2.43.0


From 1c058e126b36ed7cafa07d40e7d1b35486e6af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 06/70] fix: do not fall back when two processes probe the same
 data directory

---
 python/download.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/download.py b/python/download.py
index 21abaa4..b454818 100644
--- a/python/download.py
+++ b/python/download.py
@@ -40,6 +40,7 @@ import hashlib
 import json
 import os
 import sys
+import tempfile
 import urllib.error
 import urllib.request
 import uuid
@@ -60,10 +61,9 @@ def writable_data_dir(module_dir: str) -> str:
     """
     try:
         os.makedirs(module_dir, exist_ok=True)
-        probe = os.path.join(module_dir, ".write_probe")
-        with open(probe, "w") as f:
-            f.write("")
-        os.remove(probe)
+        # An anonymous file, so that concurrent probes cannot collide.
+        with tempfile.TemporaryFile(dir=module_dir):
+            pass
         return module_dir
     except OSError:
         pass
-- 
2.43.0


From 3c0283a6bc1ce50bfe141d86f6cd6295506dab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 07/70] fix: do not mistake the cached zip of a longer file
 name for this one

---
 python/download.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/download.py b/python/download.py
index b454818..47f5fe0 100644
--- a/python/download.py
+++ b/python/download.py
@@ -322,7 +322,8 @@ def _cached_zip(dest_dir: str, record_id: str, filename: str,
     tag = f"{record_id}_{filename}"
     existing = sorted(
         (f for f in os.listdir(cache_dir)
-         if f.startswith(tag + ".") and f.endswith(".zip")),
+         if f.startswith(tag + ".") and f.endswith(".zip")
+         and "." not in f[len(tag) + 1:-len(".zip")]),
         key=lambda f: os.path.getmtime(os.path.join(cache_dir, f)),
         reverse=True,
     )
-- 
2.43.0


From 4006ebcedf9dd8d42eff988f1a09032114e0d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 08/70] fix: keep damaged archives out of the zip cache

---
 python/download.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/download.py b/python/download.py
index 47f5fe0..706aa88 100644
--- a/python/download.py
+++ b/python/download.py
@@ -335,6 +335,13 @@ def _cached_zip(dest_dir: str, record_id: str, filename: str,
     tmp_path = os.path.join(cache_dir, f"{tag}.{os.getpid()}.tmp")
     try:
         download_file(url, tmp_path, label=filename)
+        # A damaged archive must not enter the cache, where it would make
+        # every later extraction fail.
+        with zipfile.ZipFile(tmp_path) as zf:
+            bad = zf.testzip()
+        if bad is not None:
+            raise zipfile.BadZipFile(
+                f"Corrupt entry '{bad}' in {filename}")
         sha = _sha256_file(tmp_path)
         cache_path = os.path.join(cache_dir, f"{tag}.{sha}.zip")
         os.replace(tmp_path, cache_path)
-- 
2.43.0


From 1d050aefafb8e2548d25421f873db4743cb57f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 09/70] fix: extract archive members to a staging directory and
 rename them into place

---
 python/download.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/python/download.py b/python/download.py
index 706aa88..6eea5f6 100644
--- a/python/download.py
+++ b/python/download.py
@@ -363,15 +363,30 @@ def _safe_extract(zf: zipfile.ZipFile, dest_dir: str,
     path before extracting it (realpath reflects symlinks created by
     earlier members) so that earlier entries cannot redirect later ones
     outside dest_dir.
+
+    Each file is extracted to a staging directory and renamed into place,
+    so that a file another process already uses is never truncated.
     """
     abs_dest = os.path.realpath(dest_dir)
-    names = members if members is not None else zf.namelist()
-    for name in names:
-        target = os.path.realpath(os.path.join(dest_dir, name))
+
+    def check(name: str, path: str) -> None:
+        target = os.path.realpath(path)
         if not target.startswith(abs_dest + os.sep) and target != abs_dest:
             raise ValueError(
                 f"Zip entry '{name}' would extract outside {dest_dir}")
-        zf.extract(name, dest_dir)
+
+    names = members if members is not None else zf.namelist()
+    with tempfile.TemporaryDirectory(prefix=".extract-", dir=dest_dir) as staging:
+        for name in names:
+            check(name, os.path.join(dest_dir, name))
+            staged = zf.extract(name, staging)
+            final = os.path.join(dest_dir, os.path.relpath(staged, staging))
+            check(name, final)
+            if os.path.isdir(staged):
+                os.makedirs(final, exist_ok=True)
+            else:
+                os.makedirs(os.path.dirname(final), exist_ok=True)
+                os.replace(staged, final)
 
 
 def ensure_zenodo_archive(record_id: str, filename: str, dest_dir: str,
-- 
2.43.0


From cdeaa9559841be174234d27dbf4752a4625e4c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:07 +0000
Subject: [PATCH 10/70] fix: count interactions and secondaries of each event,
 not of an earlier one

SaveEvents used loop variables after their loops: an interaction without
secondaries (or a tree without interactions) reported the count of the
previous one, or failed with an unbound variable if it came first.
---
 python/_util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/_util.py b/python/_util.py
index 7c27864..f912571 100644
--- a/python/_util.py
+++ b/python/_util.py
@@ -1203,12 +1203,12 @@ def SaveEvents(events,
             # secondary particle stuff
             datasets["secondary_types"][-1].append([])
             datasets["secondary_momenta"][-1].append([])
-            for isec, (sec_type, sec_momenta) in enumerate(zip(datum.record.signature.secondary_types,
-                                                               datum.record.secondary_momenta)):
+            for sec_type, sec_momenta in zip(datum.record.signature.secondary_types,
+                                             datum.record.secondary_momenta):
                 datasets["secondary_types"][-1][-1].append(int(sec_type))
                 datasets["secondary_momenta"][-1][-1].append(np.array(sec_momenta,dtype=float))
-            datasets["num_secondaries"][-1].append(isec+1)
-        datasets["num_interactions"].append(id+1)
+            datasets["num_secondaries"][-1].append(len(datasets["secondary_types"][-1][-1]))
+        datasets["num_interactions"].append(len(datasets["vertex"][-1]))
 
     # save events
     ak_array = ak.Array(datasets)
-- 
2.43.0


From 49368147c0465800aa46020d593f3468e4a4bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:07 +0000
Subject: [PATCH 11/70] fix: do not keep a half-initialised module after an
 interrupted load

---
 python/_util.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/_util.py b/python/_util.py
index f912571..c76c074 100644
--- a/python/_util.py
+++ b/python/_util.py
@@ -226,12 +226,14 @@ def load_module(name, path, persist=True):
     sys.modules[module_name] = module
     try:
         spec.loader.exec_module(module)
-    except Exception as e:
-        del sys.modules[module_name]
+    except BaseException:
+        # also on KeyboardInterrupt and SystemExit: a half-initialised module
+        # must not be returned by the next call
+        sys.modules.pop(module_name, None)
         raise
-    module = sys.modules[module_name]
+    module = sys.modules.get(module_name, module)
     if not persist:
-        del sys.modules[module_name]
+        sys.modules.pop(module_name, None)
     return module
 
 
-- 
2.43.0


From 774682192e9f3f36d3aa3c5882b3d875bf6b5e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:56 +0000
Subject: [PATCH 12/70] fix: report events that could not be written to disk

SaveInteractionTrees left the last buffer to the stream destructor, which
ignores failures, so a full disk gave a truncated file and a normal return.
---
 projects/dataclasses/private/InteractionTree.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/dataclasses/private/InteractionTree.cxx b/projects/dataclasses/private/InteractionTree.cxx
index 265c248..0ecb728 100644
--- a/projects/dataclasses/private/InteractionTree.cxx
+++ b/projects/dataclasses/private/InteractionTree.cxx
@@ -138,6 +138,10 @@ void SaveInteractionTrees(std::vector<std::shared_ptr<InteractionTree>>& trees,
     std::ofstream os(filename+".siren_events", std::ios::binary);
     ::cereal::BinaryOutputArchive archive(os);
     archive(trees);
+    // The last buffer is only written now; a failure here loses events
+    os.close();
+    if(not os)
+        throw std::runtime_error("SaveInteractionTrees: could not write all events to " + filename + ".siren_events");
 }
 
 std::vector<std::shared_ptr<InteractionTree>> LoadInteractionTrees(std::string const & filename) {
-- 
2.43.0


From ab843fe2e8aabbc0ba1f8be81a3bc48327e14bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:19 +0000
Subject: [PATCH 13/70] fix: reject legacy event files with a missing node
 instead of crashing

---
 projects/dataclasses/private/InteractionTree.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projects/dataclasses/private/InteractionTree.cxx b/projects/dataclasses/private/InteractionTree.cxx
index 0ecb728..402ef88 100644
--- a/projects/dataclasses/private/InteractionTree.cxx
+++ b/projects/dataclasses/private/InteractionTree.cxx
@@ -90,6 +90,8 @@ void InteractionTree::rebuild_indices_from_legacy() {
     }
     for(std::size_t i=0; i<tree.size(); ++i) {
         std::shared_ptr<InteractionTreeDatum> & datum = tree[i];
+        if(not datum)
+            throw std::runtime_error("InteractionTree: null datum in tree vector");
         datum->node_id = static_cast<std::uint32_t>(i);
         if(datum->legacy_parent) {
             auto it = index_of.find(datum->legacy_parent.get());
-- 
2.43.0


From 66942e39110b045cd3c344ee9c74417b2a68a14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:41 +0000
Subject: [PATCH 14/70] fix: reject material files that end early, are
 malformed or cannot be read

A file cut inside a component list made AddModelFile loop for ever.
---
 projects/detector/private/MaterialModel.cxx | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index 871abb5..ee64952 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -246,9 +246,8 @@ void MaterialModel::AddModelFile(std::string matratio) {
     double mass_fraction;
     int nread = 0;
 
-    while(not (in.eof() or in.fail())) {
+    while(std::getline(in, buffer)) {
 
-        std::getline(in, buffer);
         nread = buffer.size();
 
         if(nread == 0 || buffer[0] == ' ' || buffer[0] == '\t' || buffer[0] == '#') {
@@ -259,11 +258,13 @@ void MaterialModel::AddModelFile(std::string matratio) {
             std::stringstream ss(buffer);
 
             // read material name and number of components
-            ss >> material_name >> num_components;
+            if(not (ss >> material_name >> num_components))
+                throw(std::runtime_error("Malformed material line in " + fname + ": " + buffer));
 
             std::map<int, double> component_mass_fractions;
             for(int i=0; i<num_components; ++i) {
-                std::getline(in, buffer);
+                if(not std::getline(in, buffer))
+                    throw(std::runtime_error("Incomplete component list for material " + material_name + " in " + fname));
                 nread = buffer.size();
                 if(nread == 0 || buffer[0] == ' ' || buffer[0] == '\t' || buffer[0] == '#') {
                     // new line, start from white space, or comment line.
@@ -271,7 +272,8 @@ void MaterialModel::AddModelFile(std::string matratio) {
                     continue;
                 } else {
                     std::stringstream ss2(buffer);
-                    ss2 >> component_pdg_code >> mass_fraction;
+                    if(not (ss2 >> component_pdg_code >> mass_fraction))
+                        throw(std::runtime_error("Malformed component line in " + fname + ": " + buffer));
                     component_mass_fractions[component_pdg_code] = mass_fraction;
                 }
             }
@@ -279,6 +281,8 @@ void MaterialModel::AddModelFile(std::string matratio) {
         }
 
     } // end of the while loop
+    if(in.bad())
+        throw(std::runtime_error("Failed to read " + fname + " to its end"));
     model_files_.push_back(matratio);
 
     in.close();
-- 
2.43.0


From d44e255551a436c2757ec7f914b9869015d2095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:41 +0000
Subject: [PATCH 15/70] fix: reject interpolation tables with fewer than two
 points

The assert is off in release builds, where such a table was read out of bounds.
---
 projects/utilities/public/SIREN/utilities/Interpolator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index 2165732..583ef9d 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -243,7 +243,8 @@ public:
         std::vector<T> x(x_set.begin(), x_set.end());
         std::sort(x.begin(), x.end());
         unsigned int n_points = x.size();
-        assert(n_points >= 2);
+        if(n_points < 2)
+            throw std::runtime_error("Interpolation table needs at least two distinct points!");
 
         std::vector<T> log_x(x.begin(), x.end());
         std::transform(log_x.begin(), log_x.end(), log_x.begin(), [](T t)->T{return log(t);});
-- 
2.43.0


From 6b5400b4a88c23f82556407d51236d46a278cb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:41 +0000
Subject: [PATCH 16/70] fix: reject flux tables with incomplete rows, without
 rows or that cannot be read

A row without its second number was stored with an uninitialised flux.
---
 .../primary/energy/TabulatedFluxDistribution.cxx       | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx b/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
index cfae9cc..4e68386 100644
--- a/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
@@ -62,13 +62,21 @@ void TabulatedFluxDistribution::LoadFluxTable() {
 
             std::stringstream ss(buf);
             double x, f;
-            ss >> x >> f;
+            if(!(ss >> x >> f)) {
+                throw std::runtime_error("Malformed row in flux table: " + buf);
+            }
             table_data.x.push_back(x);
             table_data.f.push_back(f);
 
             energy_nodes.push_back(x);
             pdf_values.push_back(f);
         }
+        if(in.bad() or not in.eof()) {
+            throw std::runtime_error("Failed to read flux table file: " + fluxTableFilename);
+        }
+        if(table_data.x.empty()) {
+            throw std::runtime_error("No valid data rows in flux table: " + fluxTableFilename);
+        }
         // If no physical are manually set, use first/last entry of table
         if(not bounds_set) {
             energyMin = *std::min_element(table_data.x.begin(), table_data.x.end());
-- 
2.43.0


From a3f293a9bc9a0dd951d58f8ea3d5678e6db04c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:41 +0000
Subject: [PATCH 17/70] fix: report flux tables and external event lists that
 cannot be read to their end

---
 .../private/primary/PrimaryExternalDistribution.cxx            | 3 +++
 .../primary/energy_direction/Tabulated2DFluxDistribution.cxx   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/projects/distributions/private/primary/PrimaryExternalDistribution.cxx b/projects/distributions/private/primary/PrimaryExternalDistribution.cxx
index d894a3a..b005a63 100644
--- a/projects/distributions/private/primary/PrimaryExternalDistribution.cxx
+++ b/projects/distributions/private/primary/PrimaryExternalDistribution.cxx
@@ -97,6 +97,9 @@ void PrimaryExternalDistribution::LoadInputFile(std::string const & _filename) {
         if (passed) input_data.push_back(tmp_data);
     }
 
+    if (input_file.bad()) {
+        throw std::runtime_error("error: file read failed " + filename);
+    }
     if (input_data.empty()) {
         throw std::runtime_error("No valid data rows in " + filename);
     }
diff --git a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
index ad58837..cc7736a 100644
--- a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
@@ -84,6 +84,9 @@ void Tabulated2DFluxDistribution::LoadFluxTable() {
         energy_nodes.push_back(x);
         cosZenith_nodes.push_back(y);
     }
+    if(in.bad()) {
+        throw std::runtime_error("Failed to read flux table file: " + fluxTableFilename);
+    }
     if(table_data.x.empty()) {
         throw std::runtime_error("No valid data rows in flux table: " + fluxTableFilename);
     }
-- 
2.43.0


From 7f50fad0184ed424902c5334925e13a29355637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:41 +0000
Subject: [PATCH 18/70] fix: reject cross section tables with incomplete rows
 or that cannot be read

---
 projects/interactions/private/HNLDipoleFromTable.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index b7eea32..75f482a 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -634,11 +634,14 @@ void HNLDipoleFromTable::AddDifferentialCrossSectionFile(std::string filename, s
 
             std::stringstream ss(buf);
             double x, y, f;
-            ss >> x >> y >> f;
+            if(!(ss >> x >> y >> f))
+                throw std::runtime_error("Malformed row in cross section file: " + buf);
             table_data.x.push_back(x);
             table_data.y.push_back(y);
             table_data.f.push_back(f);
         }
+        if(in.bad() or not in.eof())
+            throw std::runtime_error("Failed to read cross section file!");
         siren::utilities::Interpolator2D<double> interp(table_data);
         AddDifferentialCrossSection(pid, interp);
     } else {
@@ -736,10 +739,13 @@ void HNLDipoleFromTable::AddTotalCrossSectionFile(std::string filename, siren::d
 
             std::stringstream ss(buf);
             double x, f;
-            ss >> x >> f;
+            if(!(ss >> x >> f))
+                throw std::runtime_error("Malformed row in cross section file: " + buf);
             table_data.x.push_back(x);
             table_data.f.push_back(f);
         }
+        if(in.bad() or not in.eof())
+            throw std::runtime_error("Failed to read cross section file!");
         siren::utilities::Interpolator1D<double> interp(table_data);
         AddTotalCrossSection(pid, interp);
     } else {
-- 
2.43.0


From bc20a844af8bd0ef5256585dd430bab22b3f99ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:30 +0000
Subject: [PATCH 19/70] fix: give the interpolator's zero mask its size

The mask was only reserved, so copying an interpolator lost it and evaluating
the copy crashed; for unsorted tables it also flagged the wrong points.
---
 projects/utilities/public/SIREN/utilities/Interpolator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index 583ef9d..0d266a1 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -398,8 +398,10 @@ public:
 
         std::vector<T> function_values(table.f.begin(), table.f.end());
         if(is_log) {
-            zero_mask.reserve(function_values.size());
-            std::transform(function_values.begin(), function_values.end(), zero_mask.begin(), [](T t)->T{return t<=0;});
+            zero_mask.assign(x.size(), false);
+            for(unsigned int i=0; i<table.x.size(); ++i) {
+                zero_mask[xmap[table.x[i]]] = function_values[i] <= 0;
+            }
             std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{if(t > 0){return log(t);} else {return t;}});
         }
 
@@ -557,7 +559,7 @@ public:
         std::vector<T> function_values(table.f.begin(), table.f.end());
         std::vector<bool> z_mask;
         if(is_log) {
-            z_mask.reserve(function_values.size());
+            z_mask.resize(function_values.size());
             std::transform(function_values.begin(), function_values.end(), z_mask.begin(), [](T t)->T{return t<=0;});
             std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{if(t > 0){return log(t);} else {return t;}});
             //std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{return log(t);});
-- 
2.43.0


From 378b33f04ac50c2fbefd17605a7d463f3c937e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:30 +0000
Subject: [PATCH 20/70] fix: use the first interval at the lower edge of an
 irregular table

The unsigned index wrapped around, so the lowest table point was extrapolated
from the last interval.
---
 projects/utilities/public/SIREN/utilities/Interpolator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index 0d266a1..41e902f 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -124,10 +124,10 @@ struct IndexFinderIrregular {
         // begin is the first element
         // distance(begin, pointer to y) --> y
         // therefore this function returns the index of the lower bin edge
-        unsigned int index = std::distance(data.begin(), std::lower_bound(data.begin(), data.end(), x)) - 1;
+        int index = int(std::distance(data.begin(), std::lower_bound(data.begin(), data.end(), x))) - 1;
         if(index < 0)
             index = 0;
-        else if(index >= n_points - 1)
+        else if(index >= int(n_points) - 1)
             index = n_points - 2;
         return std::tuple<unsigned int, T, T, T>(index,
                 x,
-- 
2.43.0


From 21100da9816b28b0ba172ed64346c807da4e6f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:24 +0000
Subject: [PATCH 21/70] fix: reject detector model lines with missing fields
 and files that cannot be read

Missing fields were taken from uninitialised variables.
---
 projects/detector/private/DetectorModel.cxx | 23 +++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 4fe4683..3b77d11 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -331,9 +331,9 @@ std::shared_ptr<siren::geometry::Geometry> DetectorModel::ParseGeometryObject(st
         geo = Trd(placement, dx1, dx2, dy1, dy2, dz).create();
     }
     else if(shape.find("extr")!=std::string::npos) {
-        int nverts;
+        int nverts = 0;
         double v1,v2; // For Extr Poly vertices
-        int nzsec;
+        int nzsec = 0;
         double zpos, off1, off2, scale; // For Extr Poly zsections
         double offset[2];
         std::vector<std::vector<double>> poly;
@@ -354,6 +354,8 @@ std::shared_ptr<siren::geometry::Geometry> DetectorModel::ParseGeometryObject(st
             offset[1] = off2;
             zsecs.push_back(ExtrPoly::ZSection(zpos,offset,scale));
         }
+        if(ss.fail())
+            throw(std::runtime_error("Incomplete or malformed shape on line:\n" + ss.str()));
         geo = ExtrPoly(placement, poly, zsecs).create();
     }
     else {
@@ -402,7 +404,7 @@ std::shared_ptr<siren::detector::DensityDistribution> DetectorModel::ParseDensit
         Vector3D center(xc, yc, zc);
         RadialAxis1D radial_ax(center);
 
-        int nparams;
+        int nparams = 0;
         ss >> nparams;
 
         double param;
@@ -587,14 +589,21 @@ void DetectorModel::LoadDetectorModel(std::string const & detector_model) {
 
             sector.density = ParseDensityDistribution(ss);
 
+            if(ss.fail())
+                throw(std::runtime_error("Incomplete or malformed detector model line:\n" + buf));
+
             AddSector(sector);
         }
         else if(type.find("detector") != std::string::npos) {
             std::tuple<siren::math::Vector3D, siren::math::Quaternion> detector = ParseDetector(ss);
+            if(ss.fail())
+                throw(std::runtime_error("Incomplete or malformed detector model line:\n" + buf));
             detector_origin_ = std::get<0>(detector);
             detector_rotation_ = std::get<1>(detector);
         }
     } // end of the while loop
+    if(in.bad())
+        throw(std::runtime_error("Failed to read " + fname + " to its end"));
     in.close();
     bvh_dirty_.store(true, std::memory_order_release);
 }
@@ -2234,7 +2243,8 @@ void DetectorModel::LoadConcentricShellsFromLegacyFile(std::string model_fname,
 
         // density data
         std::stringstream ss(buf);
-        ss >> radius >> label >> medtype >> nparams;
+        if(not (ss >> radius >> label >> medtype >> nparams))
+            throw(std::runtime_error("Incomplete or malformed detector model line:\n" + buf));
 
         if(not materials_.HasMaterial(medtype)) {
             std::stringstream ss;
@@ -2262,6 +2272,9 @@ void DetectorModel::LoadConcentricShellsFromLegacyFile(std::string model_fname,
             sector.density = RadialAxisPolynomialDensityDistribution(radial_ax, params).create();
         }
 
+        if(ss.fail())
+            throw(std::runtime_error("Incomplete or malformed detector model line:\n" + buf));
+
         // stop the process if layering assumptions are violated
         if(radius < max_radius) {
             throw(std::runtime_error("Layers must be radially ordered in file!"));
@@ -2269,6 +2282,8 @@ void DetectorModel::LoadConcentricShellsFromLegacyFile(std::string model_fname,
         max_radius = radius;
         AddSector(sector);
     } // end of the while loop
+    if(in.bad())
+        throw(std::runtime_error("Failed to read " + fname + " to its end"));
     in.close();
 
     // Examine the ice
-- 
2.43.0


From 9195737361f30f48a20bf1b9498487c731df7f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:43 +0000
Subject: [PATCH 22/70] fix: give every ND280UPGRD material its component count

FGDbox and TPC_padding lacked theirs, so both were loaded as empty materials.
---
 resources/detectors/ND280UPGRD/ND280UPGRD-v1/materials.dat | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/detectors/ND280UPGRD/ND280UPGRD-v1/materials.dat b/resources/detectors/ND280UPGRD/ND280UPGRD-v1/materials.dat
index 4304524..a0ff71b 100644
--- a/resources/detectors/ND280UPGRD/ND280UPGRD-v1/materials.dat
+++ b/resources/detectors/ND280UPGRD/ND280UPGRD-v1/materials.dat
@@ -52,7 +52,7 @@ H2OSCINT 3
 1000080160  0.7418300       # O16 74.2%
 1000010010  0.1049383       # H1  10.5%
 
-FGDbox # Epoxy fiberglass based C21H25ClO5
+FGDbox 4 # Epoxy fiberglass based C21H25ClO5
 1000060120  0.6428572       # C12 
 1000010010  0.0637755       # H1  
 1000080160  0.2040816       # O16 
@@ -79,7 +79,7 @@ sFGD_cubes 4
 1000080160  0.0000151       # O16 
 1000070140  0.0000264       # N14
 
-TPC_padding # aramid material, PPTA based
+TPC_padding 6 # aramid material, PPTA based
 1000060120  0.69263638      # C12
 1000010010  0.04122835       # H1 
 1000080160  0.13193075       # O16
-- 
2.43.0


From dd80ed26e3134ca8f3002643904c1d87223547d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:54 +0000
Subject: [PATCH 23/70] fix: compare detector sectors by the geometry and
 density they hold

The comparison used the addresses of the geometry and density objects, so a
detector model restored from an archive never compared equal to the original.
---
 projects/detector/private/DetectorModel.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 3b77d11..552bd07 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -109,7 +109,9 @@ public:
 }
 
 bool DetectorSector::operator==(DetectorSector const & o) const {
-    return name == o.name and material_id == o.material_id and level == o.level and geo == o.geo and density == o.density;
+    bool const same_geo = (geo == o.geo) or (geo and o.geo and *geo == *o.geo);
+    bool const same_density = (density == o.density) or (density and o.density and *density == *o.density);
+    return name == o.name and material_id == o.material_id and level == o.level and same_geo and same_density;
 }
 
 std::ostream & DetectorSector::Print(std::ostream& oss) const {
-- 
2.43.0


From 12fc9bf753839389b4254c207abb64da7a65933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:54 +0000
Subject: [PATCH 24/70] fix: archive the rotation of the detector frame

A detector model restored from an archive had the identity rotation, so all
of its detector coordinates differed from the original. Archives written
before still load.
---
 projects/detector/private/DetectorModel.cxx             | 4 ++--
 projects/detector/public/SIREN/detector/DetectorModel.h | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 552bd07..06ecf74 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -187,9 +187,9 @@ DetectorModel::DetectorModel(std::string const & path, std::string const & detec
 
 bool DetectorModel::operator==(DetectorModel const & o) const {
     return
-        std::tie(materials_, sectors_, sector_map_, sector_name_map_, detector_origin_)
+        std::tie(materials_, sectors_, sector_map_, sector_name_map_, detector_origin_, detector_rotation_)
         ==
-        std::tie(o.materials_, o.sectors_, o.sector_map_, o.sector_name_map_, o.detector_origin_);
+        std::tie(o.materials_, o.sectors_, o.sector_map_, o.sector_name_map_, o.detector_origin_, o.detector_rotation_);
 }
 
 std::string DetectorModel::GetPath() const {
diff --git a/projects/detector/public/SIREN/detector/DetectorModel.h b/projects/detector/public/SIREN/detector/DetectorModel.h
index ce5dec8..8eda00a 100644
--- a/projects/detector/public/SIREN/detector/DetectorModel.h
+++ b/projects/detector/public/SIREN/detector/DetectorModel.h
@@ -120,18 +120,21 @@ public:
 
     template<class Archive>
     void serialize(Archive & archive, std::uint32_t const version) {
-        if(version == 0) {
+        if(version <= 1) {
             archive(cereal::make_nvp("Path", path_));
             archive(cereal::make_nvp("MaterialModel", materials_));
             archive(cereal::make_nvp("Sectors", sectors_));
             archive(cereal::make_nvp("SectorMap", sector_map_));
             archive(cereal::make_nvp("SectorNameMap", sector_name_map_));
             archive(cereal::make_nvp("DetectorOrigin", detector_origin_));
+            if(version >= 1) {
+                archive(cereal::make_nvp("DetectorRotation", detector_rotation_));
+            }
             if(Archive::is_loading::value) {
                 bvh_dirty_.store(true, std::memory_order_release); // BVH will be rebuilt on next query after load
             }
         } else {
-            throw std::runtime_error("DetectorModel only supports version <= 0!");
+            throw std::runtime_error("DetectorModel only supports version <= 1!");
         }
     }
 
@@ -341,7 +344,7 @@ std::ostream& operator<<(std::ostream& oss, siren::detector::DetectorSector & bc
 
 #include "SIREN/detector/DetectorModel.tcc"
 
-CEREAL_CLASS_VERSION(siren::detector::DetectorModel, 0);
+CEREAL_CLASS_VERSION(siren::detector::DetectorModel, 1);
 
 CEREAL_FORCE_DYNAMIC_INIT(siren_DetectorModel);
 
-- 
2.43.0


From 77f5b683e4da17978eea6d5843c3cd148f0517a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:21 +0000
Subject: [PATCH 25/70] fix: archive the sampling state of the two-dimensional
 flux

The Markov chain of a restored distribution started over, so a generation
that was saved and resumed did not continue with the same events. Archives
written before still load.
---
 .../Tabulated2DFluxDistribution.h             | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h b/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
index ce422cb..dfc268c 100644
--- a/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
+++ b/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
@@ -77,7 +77,7 @@ public:
     virtual std::shared_ptr<PrimaryInjectionDistribution> clone() const override;
     template<typename Archive>
     void save(Archive & archive, std::uint32_t const version) const {
-        if(version == 0) {
+        if(version <= 1) {
             archive(::cereal::make_nvp("EnergyMin", energyMin));
             archive(::cereal::make_nvp("EnergyMax", energyMax));
             archive(::cereal::make_nvp("CosZenithMin", cosZenithMin));
@@ -86,13 +86,17 @@ public:
             archive(::cereal::make_nvp("EnergyNodes", energy_nodes));
             archive(::cereal::make_nvp("CosZenithNodes", cosZenith_nodes));
             archive(cereal::virtual_base_class<PrimaryEnergyDirectionDistribution>(this));
+            if(version >= 1) {
+                archive(::cereal::make_nvp("MHSampledPoints", static_cast<std::uint64_t>(MH_sampled_points)));
+                archive(::cereal::make_nvp("MHDensity", MH_density));
+            }
         } else {
-            throw std::runtime_error("Tabulated2DFluxDistribution only supports version <= 0!");
+            throw std::runtime_error("Tabulated2DFluxDistribution only supports version <= 1!");
         }
     }
     template<typename Archive>
     void load(Archive & archive, std::uint32_t const version) {
-        if(version == 0) {
+        if(version <= 1) {
             archive(::cereal::make_nvp("EnergyMin", energyMin));
             archive(::cereal::make_nvp("EnergyMax", energyMax));
             archive(::cereal::make_nvp("CosZenithMin", cosZenithMin));
@@ -104,8 +108,14 @@ public:
             energy_bounds_set = true;
             cosZenith_bounds_set = true;
             ComputeIntegral();
+            if(version >= 1) {
+                std::uint64_t sampled_points;
+                archive(::cereal::make_nvp("MHSampledPoints", sampled_points));
+                archive(::cereal::make_nvp("MHDensity", MH_density));
+                MH_sampled_points = sampled_points;
+            }
         } else {
-            throw std::runtime_error("Tabulated2DFluxDistribution only supports version <= 0!");
+            throw std::runtime_error("Tabulated2DFluxDistribution only supports version <= 1!");
         }
     }
 protected:
@@ -116,7 +126,7 @@ protected:
 } // namespace distributions
 } // namespace siren
 
-CEREAL_CLASS_VERSION(siren::distributions::Tabulated2DFluxDistribution, 0);
+CEREAL_CLASS_VERSION(siren::distributions::Tabulated2DFluxDistribution, 1);
 CEREAL_REGISTER_TYPE(siren::distributions::Tabulated2DFluxDistribution);
 CEREAL_REGISTER_POLYMORPHIC_RELATION(siren::distributions::PrimaryEnergyDirectionDistribution, siren::distributions::Tabulated2DFluxDistribution);
 
-- 
2.43.0


From 778afd6bbcb32924ac1436ea85aba244842cca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:13 +0000
Subject: [PATCH 26/70] fix: give events that miss the target a generation
 probability of zero

FixedTargetPositionDistribution read the last of the intersections of the
line of the primary with the target without checking that there are any.
---
 .../primary/vertex/FixedTargetPositionDistribution.cxx        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
index e2ca3ea..9c4430f 100644
--- a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
@@ -133,6 +133,10 @@ double FixedTargetPositionDistribution::GenerationProbability(std::shared_ptr<si
     std::vector<siren::geometry::Geometry::Intersection> intersections = cylinder.Intersections(vertex, dir);
     siren::detector::DetectorModel::SortIntersections(intersections);
 
+    // the line of the primary never crosses the target
+    if(intersections.empty())
+        return 0.0;
+
     // now sample from fiducial volume to get interaction vertex
     siren::math::Vector3D endcap_0 = intersections.back().position;
     siren::math::Vector3D endcap_1 = endcap_0 + max_length * dir;
-- 
2.43.0


From c249fba854f0d8e6171cbc9b7808b53a124af3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:06 +0000
Subject: [PATCH 27/70] fix: keep the bounding box of a geometry when it is
 archived

Saving a geometry dropped its cached bounding box, which the next queries of
a detector model, possibly in several threads at once, then recomputed
without synchronisation.
---
 projects/geometry/public/SIREN/geometry/Geometry.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/geometry/public/SIREN/geometry/Geometry.h b/projects/geometry/public/SIREN/geometry/Geometry.h
index 80bfa38..eda0754 100644
--- a/projects/geometry/public/SIREN/geometry/Geometry.h
+++ b/projects/geometry/public/SIREN/geometry/Geometry.h
@@ -74,7 +74,9 @@ public:
         }
         archive(cereal::make_nvp("Name", name_));
         archive(cereal::make_nvp("Placement", placement_));
-        world_aabb_cached_ = false;
+        if(Archive::is_loading::value) {
+            world_aabb_cached_ = false;
+        }
     };
     static constexpr const double GEOMETRY_PRECISION = 1.e-9;
     struct Intersection {
-- 
2.43.0


From 28e3960d133808d77b69930c6dc2042ede0574b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 28/70] fix: compare with the floating-point absolute value in
 rotationBetween

Unqualified abs(double) resolves to the integer function unless a C header
has declared the overloads, so the rotation was the identity in some
translation units.
---
 vendor/rk/rk/geom3_Vector3.icc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vendor/rk/rk/geom3_Vector3.icc b/vendor/rk/rk/geom3_Vector3.icc
index 3e443fe..fc28648 100644
--- a/vendor/rk/rk/geom3_Vector3.icc
+++ b/vendor/rk/rk/geom3_Vector3.icc
@@ -292,12 +292,12 @@ namespace geom3 {
         UnitVector3 d2 = v2;
         Vector3 cross = d1.cross(d2);
         double scalar = d1.dot(d2);
-        if(abs(1.0 - scalar) < 1e-9) {
+        if(std::abs(1.0 - scalar) < 1e-9) {
             return Rotation3();
-        } else if (abs(1.0 + scalar) < 1e-9) {
-            double x = abs(v1.x());
-            double y = abs(v1.y());
-            double z = abs(v1.z());
+        } else if (std::abs(1.0 + scalar) < 1e-9) {
+            double x = std::abs(v1.x());
+            double y = std::abs(v1.y());
+            double z = std::abs(v1.z());
 
             UnitVector3 other = x < y ? (x < z ? UnitVector3::xAxis() : UnitVector3::zAxis()) : (y < z ? UnitVector3::zAxis() : UnitVector3::zAxis());
             UnitVector3 vo = v1.cross(other).direction();
-- 
2.43.0


From 675ddac755cfb29fc4f19716bcfe433f7d191260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:23 +0000
Subject: [PATCH 29/70] fix: give the second daughter of a W or Z decay its
 mass

The mass recomputed from rounded four-momenta was not a number for
about one neutrino in ten.
---
 projects/interactions/private/ElectroweakDecay.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projects/interactions/private/ElectroweakDecay.cxx b/projects/interactions/private/ElectroweakDecay.cxx
index d61fc2e..241a413 100644
--- a/projects/interactions/private/ElectroweakDecay.cxx
+++ b/projects/interactions/private/ElectroweakDecay.cxx
@@ -224,8 +224,7 @@ void ElectroweakDecay::SampleFinalState(dataclasses::CrossSectionDistributionRec
     pX_Bosonrest.rotate(rand_rot);
 
     rk::P4 pX = pX_Bosonrest.boost(boost_to_lab);
-    rk::P4 pY = pBoson - pX;
-    assert(abs(pY.m()-mY)<1e-6);
+    rk::P4 pY(pBoson.momentum() - pX.momentum(), mY); // ensures the right mass, avoids rounding errors
 
     siren::dataclasses::SecondaryParticleRecord & X = record.GetSecondaryParticleRecord(0);
     siren::dataclasses::SecondaryParticleRecord & Y = record.GetSecondaryParticleRecord(1);
-- 
2.43.0


From 4b7aa9b8a22beb3469ebf2eff4c86399a67d6571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:23 +0000
Subject: [PATCH 30/70] fix: keep HNL momenta real at the edges of phase space

---
 projects/interactions/private/HNLDipoleFromTable.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index 75f482a..44cf863 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -424,7 +424,7 @@ void HNLDipoleFromTable::SampleFinalState(dataclasses::CrossSectionDistributionR
     //double p3x_lab_frac = (p1x_lab * p1x_lab - m3 * m3 + E1_lab * E1_lab * (1.0 - 2.0 * final_y)) / (2.0 * p1x_lab * E3_lab);
     //double p3x_lab = p3x_lab_frac * sqrt(p3_lab_sq);
     double p3x_lab = E3_lab - m2*final_y - m3*m3/(2*E1_lab);
-    double p3y_lab = sqrt(p3_lab_sq - p3x_lab * p3x_lab);
+    double p3y_lab = sqrt(std::max(0.0, p3_lab_sq - p3x_lab * p3x_lab)); // may be negative from rounding at the edges of phase space
 
     rk::P4 p3_lab(geom3::Vector3(p3x_lab, p3y_lab, 0), m3);
     p3_lab.rotate(x_to_p1_lab_rot);
-- 
2.43.0


From 672310fcd4ddd5dfe7feeaa7cc94aba35f50c2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:23 +0000
Subject: [PATCH 31/70] fix: sample only kinematically allowed points in
 DummyCrossSection

---
 .../private/DummyCrossSection.cxx             | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/projects/interactions/private/DummyCrossSection.cxx b/projects/interactions/private/DummyCrossSection.cxx
index c415503..86929e4 100644
--- a/projects/interactions/private/DummyCrossSection.cxx
+++ b/projects/interactions/private/DummyCrossSection.cxx
@@ -76,23 +76,28 @@ void DummyCrossSection::SampleFinalState(dataclasses::CrossSectionDistributionRe
     p2_lab = p2;
     primary_energy = p1_lab.e();
 
-    double final_x = random->Uniform(0, 1);
-    double final_y = random->Uniform(0, 1);
+    double m1 = record.primary_mass;
+    double m3 = 0;
+    double E1_lab = p1_lab.e();
+    double E2_lab = p2_lab.e();
+    double p1x_lab = std::sqrt(p1_lab.px() * p1_lab.px() + p1_lab.py() * p1_lab.py() + p1_lab.pz() * p1_lab.pz());
+
+    // repeat until the point is kinematically allowed
+    double final_x, final_y, pqx_lab, pqy_lab_sq;
+    do {
+        final_x = random->Uniform(0, 1);
+        final_y = random->Uniform(0, 1);
+        double Q2 = 2 * E1_lab * E2_lab * final_x * final_y;
+        pqx_lab = (m1*m1 + m3*m3 + 2 * p1x_lab * p1x_lab + Q2 + 2 * E1_lab * E1_lab * (final_y - 1)) / (2.0 * p1x_lab);
+        pqy_lab_sq = m1*m1 + p1x_lab*p1x_lab + Q2 + E1_lab * E1_lab * (final_y * final_y - 1) - pqx_lab * pqx_lab;
+    } while(pqy_lab_sq < 0);
 
     record.interaction_parameters.clear();
     record.interaction_parameters["energy"] = primary_energy;
     record.interaction_parameters["bjorken_x"] = final_x;
     record.interaction_parameters["bjorken_y"] = final_y;
 
-    double m1 = record.primary_mass;
-    double m3 = 0;
-    double E1_lab = p1_lab.e();
-    double E2_lab = p2_lab.e();
-    double Q2 = 2 * E1_lab * E2_lab * final_x * final_y;
-    double p1x_lab = std::sqrt(p1_lab.px() * p1_lab.px() + p1_lab.py() * p1_lab.py() + p1_lab.pz() * p1_lab.pz());
-    double pqx_lab = (m1*m1 + m3*m3 + 2 * p1x_lab * p1x_lab + Q2 + 2 * E1_lab * E1_lab * (final_y - 1)) / (2.0 * p1x_lab);
-    double momq_lab = std::sqrt(m1*m1 + p1x_lab*p1x_lab + Q2 + E1_lab * E1_lab * (final_y * final_y - 1));
-    double pqy_lab = std::sqrt(momq_lab*momq_lab - pqx_lab *pqx_lab);
+    double pqy_lab = std::sqrt(pqy_lab_sq);
     double Eq_lab = E1_lab * final_y;
 
     geom3::UnitVector3 x_dir = geom3::UnitVector3::xAxis();
-- 
2.43.0


From 9d770e55beeff9697930b432edc9d8022e75e747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:23 +0000
Subject: [PATCH 32/70] fix: leave an invalid starting point in
 MetropolisHasting_Sample

---
 projects/utilities/public/SIREN/utilities/Sampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/utilities/public/SIREN/utilities/Sampling.h b/projects/utilities/public/SIREN/utilities/Sampling.h
index d91bf46..b1998ec 100644
--- a/projects/utilities/public/SIREN/utilities/Sampling.h
+++ b/projects/utilities/public/SIREN/utilities/Sampling.h
@@ -39,7 +39,7 @@ std::vector<double> MetropolisHasting_Sample(const FuncTypeProposal& func_propos
         double test_weight = (test_q > 0) ? test_llh / test_q : 0.0;
 
         bool accept;
-        if (weight <= 0) {
+        if (!(weight > 0)) { // also leave a starting point where the likelihood is not a number
             accept = true;
         } else {
             accept = (test_weight >= weight) || (random->Uniform(0,1) < test_weight / weight);
-- 
2.43.0


From 8364477769badc279a7eebab5d5086d117dc2dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:03 +0000
Subject: [PATCH 33/70] fix: sample inside a cone around a downward or
 unnormalised direction

---
 .../distributions/private/primary/direction/Cone.cxx   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/projects/distributions/private/primary/direction/Cone.cxx b/projects/distributions/private/primary/direction/Cone.cxx
index 421da40..f97fc38 100644
--- a/projects/distributions/private/primary/direction/Cone.cxx
+++ b/projects/distributions/private/primary/direction/Cone.cxx
@@ -22,14 +22,16 @@ namespace distributions {
 //---------------
 Cone::Cone(siren::math::Vector3D dir, double opening_angle) : dir(dir), opening_angle(opening_angle) {
     this->dir.normalize();
-    if(this->dir == siren::math::Vector3D(0,0,1)) {
+    // the components decide: operator== would also compare the spherical coordinates
+    bool along_z = this->dir.GetX() == 0 and this->dir.GetY() == 0;
+    if(along_z and this->dir.GetZ() > 0) {
         rotation = siren::math::Quaternion(0,0,0,1);
-    } else if(this->dir == siren::math::Vector3D(0,0,-1)) {
+    } else if(along_z) {
         rotation = siren::math::Quaternion(0,1,0,0);
     } else {
-        siren::math::Vector3D r = cross_product(siren::math::Vector3D(0, 0, 1), dir);
+        siren::math::Vector3D r = cross_product(siren::math::Vector3D(0, 0, 1), this->dir);
         rotation = siren::math::Quaternion(r);
-        rotation.SetW(1.0 + dir.GetZ());
+        rotation.SetW(1.0 + this->dir.GetZ());
         rotation.normalize();
     }
 }
-- 
2.43.0


From 7f114cea0dfb9a76e005edb374e0e93aac38ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:03 +0000
Subject: [PATCH 34/70] fix: pick the axis of a 180 degree rotation inside the
 array

---
 projects/math/private/Quaternion.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/math/private/Quaternion.cxx b/projects/math/private/Quaternion.cxx
index dbbf871..ddbff20 100644
--- a/projects/math/private/Quaternion.cxx
+++ b/projects/math/private/Quaternion.cxx
@@ -523,7 +523,7 @@ Quaternion siren::math::rotation_between(Vector3D const & v0, Vector3D const & v
             std::abs(scalar_product(vecs[2], dir0))
         };
         // Find axis vector most perpendicular to original direction
-        size_t idx = std::distance(&(dots), std::min_element(&(dots), &(dots)+3));
+        size_t idx = std::distance(dots, std::min_element(dots, dots+3));
         // Initialize quaternion with unit vector perpendicular to original direction and selected axis
         return Quaternion(cross_product(vecs[idx], dir0).normalized());
     } else {
-- 
2.43.0


From ea1b6d39ce9ce7de2c5a2f61eb6e1aa96ec98a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:32 +0000
Subject: [PATCH 35/70] fix: report injectors and weighters that could not be
 written to disk

---
 projects/injection/private/Injector.cxx | 4 ++++
 projects/injection/private/Weighter.cxx | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/projects/injection/private/Injector.cxx b/projects/injection/private/Injector.cxx
index 73ceba3..ff313a7 100644
--- a/projects/injection/private/Injector.cxx
+++ b/projects/injection/private/Injector.cxx
@@ -502,6 +502,10 @@ void Injector::SaveInjector(std::string const & filename) const {
     std::ofstream os(filename, std::ios::binary);
     ::cereal::BinaryOutputArchive archive(os);
     this->save(archive,0);
+    // The last buffer is only written now; a failure here loses part of the injector
+    os.close();
+    if(not os)
+        throw std::runtime_error("SaveInjector: could not write the injector to " + filename);
 }
 
 void Injector::LoadInjector(std::string const & filename) {
diff --git a/projects/injection/private/Weighter.cxx b/projects/injection/private/Weighter.cxx
index 53f8d49..73d292a 100644
--- a/projects/injection/private/Weighter.cxx
+++ b/projects/injection/private/Weighter.cxx
@@ -211,6 +211,10 @@ void Weighter::SaveWeighter(std::string const & filename) const {
     std::ofstream os(filename+".siren_weighter", std::ios::binary);
     ::cereal::BinaryOutputArchive archive(os);
     this->save(archive,0);
+    // The last buffer is only written now; a failure here loses part of the weighter
+    os.close();
+    if(not os)
+        throw std::runtime_error("SaveWeighter: could not write the weighter to " + filename + ".siren_weighter");
 }
 
 void Weighter::LoadWeighter(std::string const & filename) {
-- 
2.43.0


From 08e27e1d82045a3b05daab54c905515bcea64b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:32 +0000
Subject: [PATCH 36/70] fix: replace the secondary processes of an injector
 when another is loaded into it

---
 projects/injection/public/SIREN/injection/Injector.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/projects/injection/public/SIREN/injection/Injector.h b/projects/injection/public/SIREN/injection/Injector.h
index 4cdd63f..7c92b62 100644
--- a/projects/injection/public/SIREN/injection/Injector.h
+++ b/projects/injection/public/SIREN/injection/Injector.h
@@ -145,9 +145,7 @@ public:
             archive(::cereal::make_nvp("PrimaryProcess", _primary_process));
             archive(::cereal::make_nvp("SecondaryProcesses", _secondary_processes));
             SetPrimaryProcess(_primary_process);
-            for(auto secondary_process : _secondary_processes) {
-                AddSecondaryProcess(secondary_process);
-            }
+            SetSecondaryProcesses(_secondary_processes);
         } else {
             throw std::runtime_error("Injector only supports version <= 0!");
         }
-- 
2.43.0


From 0993e9931836880fd600618cc4e27cc76f237019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:23 +0000
Subject: [PATCH 37/70] fix: use the target mass in the differential cross
 section of HNLDipoleFromTable

The target was given the mass of the primary, so that for massless neutrinos the
inelasticity was 0/0 and every event weight was not a number.
---
 projects/interactions/private/HNLDipoleFromTable.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index 44cf863..f792a00 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -165,7 +165,7 @@ double HNLDipoleFromTable::DifferentialCrossSection(dataclasses::InteractionReco
     siren::dataclasses::ParticleType target_type = interaction.signature.target_type;
     std::array<double, 4> const & primary_momentum = interaction.primary_momentum;
     double primary_mass = interaction.primary_mass;
-    double target_mass = interaction.primary_mass;
+    double target_mass = interaction.target_mass;
     rk::P4 p1(geom3::Vector3(primary_momentum[1], primary_momentum[2], primary_momentum[3]), primary_mass);
     rk::P4 p2(geom3::Vector3(0, 0, 0), target_mass);
     double primary_energy;
-- 
2.43.0


From b1f65e7d78944f49a201b8df9ad42a9f3dad9622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:23 +0000
Subject: [PATCH 38/70] fix: ignore injectors that cannot generate an event
 when it is weighted

An event outside the bounds of another injector contributed 0/0, which made its
weight not a number.
---
 projects/injection/private/Weighter.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/injection/private/Weighter.cxx b/projects/injection/private/Weighter.cxx
index 73d292a..53b13ff 100644
--- a/projects/injection/private/Weighter.cxx
+++ b/projects/injection/private/Weighter.cxx
@@ -134,6 +134,10 @@ double Weighter::EventWeight(siren::dataclasses::InteractionTree const & tree) c
                 }
             }
         }
+        // An injector that cannot generate this event does not contribute,
+        // even if the event has no physical probability inside its bounds (0/0)
+        if(generation_probability == 0)
+            continue;
         inv_weight += generation_probability / physical_probability;
     }
     return 1./inv_weight;
-- 
2.43.0


From de176278f11e426202b7cf2deba113500b64a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:00 +0000
Subject: [PATCH 39/70] fix: do not end the process when a decay width integral
 does not converge

The default GSL error handler aborted, e.g. for HNL masses just above a threshold,
before the convergence check that raises an error was reached.
---
 projects/interactions/private/HNLDecay.cxx | 46 ++++++++++------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 2f33d73..87d1bae 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -3,6 +3,7 @@
 #include <cmath>
 #include <stdexcept>
 
+#include <gsl/gsl_errno.h>
 #include <gsl/gsl_integration.h>
 
 #include <rk/rk.hh>
@@ -49,36 +50,37 @@ double integrand2(double s, void * params) {
   return 24 * sqrt(y*z) * (1./s) * (1 + x - s) * sqrt(lambda(s,y,z)*lambda(1,s,x));
 }
 
-double I1(double x, double y, double z) {
+// Integrate without the default GSL error handler, which ends the process, e.g. for
+// roundoff in the tiny intervals just above a threshold. Convergence is judged
+// from the error estimate.
+double Integrate(gsl_function & F, double a, double b) {
+  static gsl_error_handler_t * const gsl_handler = gsl_set_error_handler_off();
+  (void)gsl_handler;
   gsl_integration_workspace * workspace
     = gsl_integration_workspace_alloc (1000);
-  gsl_function F;
-  F.function = &integrand1;
-  double params[3] = { x, y, z };
-  F.params = params;
   double result,error;
-  gsl_integration_qags (&F, pow(sqrt(x)+sqrt(y),2), pow(1-sqrt(z),2), 0, 1e-5, 1000,
+  gsl_integration_qags (&F, a, b, 0, 1e-5, 1000,
                         workspace, &result, &error);
-  if(result != 0 && std::abs(error/result) > 1e-3)
-    throw std::runtime_error("GSL integration failed to converge");
   gsl_integration_workspace_free (workspace);
+  if(not (result == 0 or std::abs(error/result) <= 1e-3))
+    throw std::runtime_error("GSL integration failed to converge");
   return result;
 }
 
+double I1(double x, double y, double z) {
+  gsl_function F;
+  F.function = &integrand1;
+  double params[3] = { x, y, z };
+  F.params = params;
+  return Integrate(F, pow(sqrt(x)+sqrt(y),2), pow(1-sqrt(z),2));
+}
+
 double I2(double x, double y, double z) {
-  gsl_integration_workspace * workspace
-    = gsl_integration_workspace_alloc (1000);
   gsl_function F;
   F.function = &integrand2;
   double params[3] = { x, y, z };
   F.params = params;
-  double result,error;
-  gsl_integration_qags (&F, pow(sqrt(y)+sqrt(z),2), pow(1-sqrt(x),2), 0, 1e-5, 1000,
-                        workspace, &result, &error);
-  if(result != 0 && std::abs(error/result) > 1e-3)
-    throw std::runtime_error("GSL integration failed to converge");
-  gsl_integration_workspace_free (workspace);
-  return result;
+  return Integrate(F, pow(sqrt(y)+sqrt(z),2), pow(1-sqrt(x),2));
 }
 
 // Functions to get quark decay widths
@@ -106,19 +108,11 @@ double integrand(double x, void * params){
 }
 
 double I(double xu, double xd, double xl) {
-  gsl_integration_workspace * workspace
-    = gsl_integration_workspace_alloc (1000);
   gsl_function F;
   F.function = &integrand;
   double params[3] = { xu, xd, xl };
   F.params = params;
-  double result,error;
-  gsl_integration_qags (&F, pow(xd+xl,2), pow(1-xu,2), 0, 1e-5, 1000,
-                        workspace, &result, &error);
-  if(result != 0 && std::abs(error/result) > 1e-3)
-    throw std::runtime_error("GSL integration failed to converge");
-  gsl_integration_workspace_free (workspace);
-  return result;
+  return Integrate(F, pow(xd+xl,2), pow(1-xu,2));
 }
 
 double GammaQuarksCC(double U, double m_N, double mu, double md, double ml, double Nw=1) {
-- 
2.43.0


From 0b8838e610a43bbc56f13549f6877da893eb3afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:40 +0000
Subject: [PATCH 40/70] fix: keep the momenta of HNL decay products real close
 to threshold

Rounding gave square roots of negative numbers and points outside phase space, and
with them momenta that are not numbers or off the mass shell, for HNL masses just
above the threshold of a channel.
---
 projects/interactions/private/HNLDecay.cxx | 35 +++++++++++-----------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 87d1bae..33892ee 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -1,5 +1,6 @@
 #include "SIREN/interactions/HNLDecay.h"
 
+#include <algorithm>
 #include <cmath>
 #include <stdexcept>
 
@@ -944,7 +945,7 @@ void HNLDecay::SampleFinalState(dataclasses::CrossSectionDistributionRecord & re
       double mX = siren::dataclasses::GetParticleMass(record.signature.secondary_types[X_index]);
       double mLep = siren::dataclasses::GetParticleMass(record.signature.secondary_types[lep_index]);
       double EX_HNLrest = (hnl_mass*hnl_mass + mX*mX - mLep*mLep) / (2.*hnl_mass);
-      rk::P4 pX_HNLrest(sqrt(pow(EX_HNLrest,2)-pow(mX,2))*geom3::Vector3(CosTheta,SinTheta,0),mX);
+      rk::P4 pX_HNLrest(sqrt(std::max(0.,pow(EX_HNLrest,2)-pow(mX,2)))*geom3::Vector3(CosTheta,SinTheta,0),mX);
       pX_HNLrest.rotate(x_to_pHNL_rot);
       pX_HNLrest.rotate(rand_rot);
 
@@ -1202,11 +1203,12 @@ std::pair<rk::P4,rk::P4> HNLDecay::ThreeBodyPhaseSpaceConversion(dataclasses::In
 
   double E3_HNLRest = (pow(hnl_mass,2) * (1 - s2) + pow(m_alpha,2)) / (2*hnl_mass);
   double E4_HNLRest = (pow(hnl_mass,2) * (1 - s1) + pow(m_beta,2)) / (2*hnl_mass);
-  double p3_HNLRest = sqrt(E3_HNLRest*E3_HNLRest - m_alpha*m_alpha);
-  double p4_HNLRest = sqrt(E4_HNLRest*E4_HNLRest - m_beta*m_beta);
+  // At the edges of phase space rounding can leave a small negative number
+  double p3_HNLRest = sqrt(std::max(0., E3_HNLRest*E3_HNLRest - m_alpha*m_alpha));
+  double p4_HNLRest = sqrt(std::max(0., E4_HNLRest*E4_HNLRest - m_beta*m_beta));
   double s3 = 1 + (pow(m_alpha,2) + pow(m_beta,2))/pow(hnl_mass,2) - s1 - s2;
   double CosAlpha34 = (E3_HNLRest*E4_HNLRest - 0.5 * (s3*pow(hnl_mass,2) - pow(m_alpha,2) - pow(m_beta,2))) / (p3_HNLRest*p4_HNLRest);
-  if (CosAlpha34 > 1.0) CosAlpha34 = 1.0;
+  if (CosAlpha34 > 1.0 or p3_HNLRest*p4_HNLRest == 0) CosAlpha34 = 1.0;
   if (CosAlpha34 < -1.0) CosAlpha34 = -1.0;
   double SinAlpha34 = sqrt(1 - CosAlpha34*CosAlpha34);
 
@@ -1265,20 +1267,17 @@ std::vector<double> HNLDecay::ThreeBodyPhaseSpaceProposalDistribution(double & m
 
   double s1 = random->Uniform(s1_min,s1_max);
 
-  // Follow section 3.2 of https://halldweb.jlab.org/DocDB/0033/003345/002/dalitz.pdf
-  // to get s2 bounds for this s1
-  double a = pow(hnl_mass, 6)*s1;
-
-  double b = ( pow(hnl_mass*hnl_mass * s1, 2)
-              + m_alpha*m_alpha * (hnl_mass*hnl_mass - m_beta*m_beta)
-              - hnl_mass*hnl_mass * s1 * (hnl_mass*hnl_mass + m_alpha*m_alpha + m_beta*m_beta)
-            ) * (hnl_mass*hnl_mass);
-
-  double c = (hnl_mass*hnl_mass * s1 * m_beta*m_beta * (hnl_mass*hnl_mass - m_alpha*m_alpha))
-            - (m_alpha*m_alpha * m_beta*m_beta * (hnl_mass*hnl_mass - m_alpha*m_alpha - m_beta*m_beta));
-
-  double s2_min = (-b - sqrt(b*b - 4*a*c))/(2*a);
-  double s2_max = (-b + sqrt(b*b - 4*a*c))/(2*a);
+  // Bounds on s2 for this s1, from the energies of the neutrino and l_beta in the
+  // rest frame of the neutrino and l_alpha (masses and energies in units of the HNL mass).
+  // The momentum is written as a product so that it stays accurate close to threshold.
+  double sqrt_s1 = sqrt(s1);
+  double r_beta = m_beta/hnl_mass;
+  double E2 = (s1 - s1_min)/(2*sqrt_s1);
+  double E4 = (1 - s1 - r_beta*r_beta)/(2*sqrt_s1);
+  double p4 = sqrt(std::max(0., (1 - pow(sqrt_s1 + r_beta,2)) * (1 - pow(sqrt_s1 - r_beta,2))))/(2*sqrt_s1);
+
+  double s2_min = r_beta*r_beta + 2*E2*(E4 - p4);
+  double s2_max = r_beta*r_beta + 2*E2*(E4 + p4);
   double s2 = random->Uniform(s2_min,s2_max);
 
   double CosTheta3 = random->Uniform(-1,1);
-- 
2.43.0


From 6a88e7f39acc1175b3ae426d7a6222dd3844efcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:21 +0000
Subject: [PATCH 41/70] fix: give energies outside the range of a power law a
 density of zero

---
 .../distributions/private/primary/energy/PowerLaw.cxx  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/projects/distributions/private/primary/energy/PowerLaw.cxx b/projects/distributions/private/primary/energy/PowerLaw.cxx
index 923dbb9..0f9ddc8 100644
--- a/projects/distributions/private/primary/energy/PowerLaw.cxx
+++ b/projects/distributions/private/primary/energy/PowerLaw.cxx
@@ -1,5 +1,6 @@
 #include "SIREN/distributions/primary/energy/PowerLaw.h"
 
+#include <algorithm>                                       // for max, min
 #include <array>                                           // for array
 #include <tuple>                                           // for tie, opera...
 #include <math.h>                                          // for pow, log10
@@ -29,11 +30,11 @@ double PowerLaw::SampleEnergy(std::shared_ptr<siren::utilities::SIREN_random> ra
         return energyMin; //return the only allowed energy
 
     if(powerLawIndex == 1.0) //sample uniformly in log space
-        return pow(10.0, rand->Uniform(log10(energyMin), log10(energyMax)));
+        return std::min(std::max(pow(10.0, rand->Uniform(log10(energyMin), log10(energyMax))), energyMin), energyMax);
     else {
         double u = rand->Uniform();
         double energyP = (1 - u) * pow(energyMin, 1 - powerLawIndex) + u * pow(energyMax, 1 - powerLawIndex);
-        return pow(energyP, 1 / (1 - powerLawIndex));
+        return std::min(std::max(pow(energyP, 1 / (1 - powerLawIndex)), energyMin), energyMax);
     }
 }
 
@@ -49,7 +50,10 @@ double PowerLaw::pdf(double energy) const {
 }
 
 double PowerLaw::GenerationProbability(std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::InteractionRecord const & record) const {
-    return pdf(record.primary_momentum[0]);
+    double const & energy = record.primary_momentum[0];
+    if(energyMin != energyMax && (energy < energyMin || energy > energyMax))
+        return 0.0; // cannot be sampled
+    return pdf(energy);
 }
 
 std::string PowerLaw::Name() const {
-- 
2.43.0


From 1b37f1cacdd8d6c2f5f81f8a6f873010f31c8fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:21 +0000
Subject: [PATCH 42/70] fix: sample vertices with the decay length of the
 moving particle

---
 .../primary/vertex/ColumnDepthPositionDistribution.cxx        | 4 +---
 .../primary/vertex/PointSourcePositionDistribution.cxx        | 4 +---
 .../private/primary/vertex/RangePositionDistribution.cxx      | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
index 2f57f80..f2dbe29 100644
--- a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
@@ -75,9 +75,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> ColumnDepthPositionDist
     std::vector<siren::dataclasses::ParticleType> targets(possible_targets.begin(), possible_targets.end());
     std::vector<double> total_cross_sections(targets.size(), 0.0);
     siren::dataclasses::InteractionRecord fake_record;
-    fake_record.signature.primary_type = record.type;
-    fake_record.primary_mass = record.GetMass();
-    fake_record.primary_momentum[0] = record.GetEnergy();
+    record.FinalizeAvailable(fake_record);
     double total_decay_length = interactions->TotalDecayLengthAllFinalStates(fake_record);
     for(unsigned int i=0; i<targets.size(); ++i) {
         siren::dataclasses::ParticleType const & target = targets[i];
diff --git a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
index 4bcc31b..f361663 100644
--- a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
@@ -61,9 +61,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> PointSourcePositionDist
     std::vector<siren::dataclasses::ParticleType> targets(possible_targets.begin(), possible_targets.end());
     std::vector<double> total_cross_sections(targets.size(), 0.0);
     siren::dataclasses::InteractionRecord fake_record;
-    fake_record.signature.primary_type = record.type;
-    fake_record.primary_mass = record.GetMass();
-    fake_record.primary_momentum[0] = record.GetEnergy();
+    record.FinalizeAvailable(fake_record);
     double total_decay_length = interactions->TotalDecayLengthAllFinalStates(fake_record);
     for(unsigned int i=0; i<targets.size(); ++i) {
         siren::dataclasses::ParticleType const & target = targets[i];
diff --git a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
index fb00b9b..86a266b 100644
--- a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
@@ -75,9 +75,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> RangePositionDistributi
     std::vector<siren::dataclasses::ParticleType> targets(possible_targets.begin(), possible_targets.end());
     std::vector<double> total_cross_sections(targets.size(), 0.0);
     siren::dataclasses::InteractionRecord fake_record;
-    fake_record.signature.primary_type = record.type;
-    fake_record.primary_mass = record.GetMass();
-    fake_record.primary_momentum[0] = record.GetEnergy();
+    record.FinalizeAvailable(fake_record);
     double total_decay_length = interactions->TotalDecayLengthAllFinalStates(fake_record);
     for(unsigned int i=0; i<targets.size(); ++i) {
         siren::dataclasses::ParticleType const & target = targets[i];
-- 
2.43.0


From 738fcc383e8cd138e58dd40f8a672cc006cc494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:21 +0000
Subject: [PATCH 43/70] fix: count decays in the depth of the sectors passed
 when inverting the interaction depth

---
 projects/detector/private/DetectorModel.cxx | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 06ecf74..5fd8bd1 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -1964,29 +1964,36 @@ double DetectorModel::DistanceForInteractionDepthFromPoint(Geometry::Intersectio
             double start_point = std::max(std::max(offset + dot * current_intersection->distance, 0.0), offset + dot * last_point);
             double segment_length = end_point - start_point;
             DetectorSector sector = GetSector(current_intersection->hierarchy);
-            double target = interaction_depth - total_interaction_depth;
+            double remaining_depth = interaction_depth - total_interaction_depth;
             // This next line is because when we evaluate the density integral,
             // we end up calculating an interaction length in units of m/cm.
             // This is a correction
-            target /= 100;
+            double target = remaining_depth / 100;
             std::vector<double> interaction_depths = materials_.GetTargetParticleFraction(sector.material_id, targets.begin(), targets.end());
             for(unsigned int i=0; i<targets.size(); ++i) {
                 interaction_depths[i] *= total_cross_sections[i];
             }
             double target_composition = accumulate(interaction_depths.begin(), interaction_depths.end(), 0.0); // cm^2 g^-1
-            target /= target_composition;
             double distance;
+            if(target_composition == 0) {
+              // only decays can happen in this sector
+              distance = remaining_depth > 0 ? remaining_depth * total_decay_length : 0.0;
+              if(not (distance <= segment_length))
+                distance = -1;
+            }
             // total_decay_length now in cm
-            if (total_decay_length < std::numeric_limits<double>::infinity()) {
+            else if (total_decay_length < std::numeric_limits<double>::infinity()) {
+              target /= target_composition;
               distance = sector.density->InverseIntegral(p0+start_point*direction, direction, 1./(total_decay_length_cm*target_composition), target, segment_length);
             }
             else {
+              target /= target_composition;
               distance = sector.density->InverseIntegral(p0+start_point*direction, direction, target, segment_length);
             }
             done = distance >= 0;
             double integral = sector.density->Integral(p0+start_point*direction, direction, segment_length); // g cm^-3 * m
             integral *= (target_composition*siren::utilities::Constants::m/siren::utilities::Constants::cm); // --> m cm^-1 --> dimensionless
-            total_interaction_depth += integral;
+            total_interaction_depth += integral + segment_length / total_decay_length;
             if(done) {
                 total_distance = start_point + distance;
             } else {
-- 
2.43.0


From 41c846eece4241a909959995aa560bed12c92f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:03 +0000
Subject: [PATCH 44/70] fix: draw power laws between the requested ends

---
 projects/utilities/private/Random.cxx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/projects/utilities/private/Random.cxx b/projects/utilities/private/Random.cxx
index d71d072..4a20f17 100644
--- a/projects/utilities/private/Random.cxx
+++ b/projects/utilities/private/Random.cxx
@@ -5,6 +5,7 @@
 #include <random>
 #include <cstdint>                                      // for uint64_t
 #include <utility>
+#include <algorithm>
 #include <unistd.h>
 
 namespace {
@@ -40,12 +41,14 @@ namespace utilities {
     double SIREN_random::PowerLaw(double min, double max, double n) {
         if(max < min)
             std::swap(min, max);
-        double range = max - min;
-        double unif = range * (this->generator(configuration)) + min;
-        
-        double base = (pow(max,n+1) - pow(min,n+1)) * unif + pow(min,n+1) ; 
+        double unif = this->generator(configuration);
+
+        if(n == -1) // uniform in the logarithm
+            return min * pow(max / min, unif);
+
+        double base = (1 - unif) * pow(min,n+1) + unif * pow(max,n+1) ; 
         double exp = 1/(n+1) ; 
-        return pow(base, exp);
+        return std::min(std::max(pow(base, exp), min), max);
     }
 
     // reconfigures the generator with a new seed
-- 
2.43.0


From 6c70c78401aad398e52a5b6be52ee8231545fb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:07 +0000
Subject: [PATCH 45/70] fix: rounding must not give a massless particle a NaN
 mass

---
 projects/dataclasses/private/InteractionRecord.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 42f820e..ef404cd 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -1,7 +1,7 @@
 #include "SIREN/dataclasses/InteractionRecord.h"
 
 #include <cmath>
-#include <algorithm>  // for min
+#include <algorithm>  // for max, min
 #include <tuple>    // for tie, operator==, tuple
 #include <cassert>
 #include <ostream>  // for operator<<, basic_ostream, char_traits, endl, ost...
@@ -291,7 +291,7 @@ void PrimaryDistributionRecord::UpdateMass() const {
     if(mass_set)
         return;
     if(energy_set and momentum_set) {
-        mass = std::sqrt(energy*energy - momentum.at(0)*momentum.at(0) - momentum.at(1)*momentum.at(1) - momentum.at(2)*momentum.at(2));
+        mass = std::sqrt(std::max(0.0, energy*energy - momentum.at(0)*momentum.at(0) - momentum.at(1)*momentum.at(1) - momentum.at(2)*momentum.at(2)));
     } else if(energy_set and kinetic_energy_set) {
         mass = energy - kinetic_energy;
     } else {
@@ -872,7 +872,7 @@ void SecondaryParticleRecord::UpdateMass() const {
     if(mass_set)
         return;
     if(energy_set and momentum_set) {
-        mass = std::sqrt(energy*energy - momentum.at(0)*momentum.at(0) - momentum.at(1)*momentum.at(1) - momentum.at(2)*momentum.at(2));
+        mass = std::sqrt(std::max(0.0, energy*energy - momentum.at(0)*momentum.at(0) - momentum.at(1)*momentum.at(1) - momentum.at(2)*momentum.at(2)));
     } else if(energy_set and kinetic_energy_set) {
         mass = energy - kinetic_energy;
     } else {
-- 
2.43.0


From 60c4dfc5582596bf34e762ba54f683eae91968b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:07 +0000
Subject: [PATCH 46/70] fix: step back from the initial position to the point
 of closest approach

---
 projects/dataclasses/private/InteractionRecord.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index ef404cd..9d03fd3 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -421,9 +421,9 @@ void PrimaryDistributionRecord::UpdatePointOfClosestApproach() const {
         return;
     if(initial_position_set and direction_set and initial_distance_from_closest_approach_set) {
         point_of_closest_approach = {
-            initial_position.at(0) + initial_distance_from_closest_approach * direction.at(0),
-            initial_position.at(1) + initial_distance_from_closest_approach * direction.at(1),
-            initial_position.at(2) + initial_distance_from_closest_approach * direction.at(2)};
+            initial_position.at(0) - initial_distance_from_closest_approach * direction.at(0),
+            initial_position.at(1) - initial_distance_from_closest_approach * direction.at(1),
+            initial_position.at(2) - initial_distance_from_closest_approach * direction.at(2)};
     } else if(interaction_vertex_set and direction_set and vertex_distance_from_closest_approach_set) {
         point_of_closest_approach = {
             interaction_vertex.at(0) - vertex_distance_from_closest_approach * direction.at(0),
-- 
2.43.0


From ec48baeee1dee602d7eb3c6302c40ef38ec82c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:07 +0000
Subject: [PATCH 47/70] fix: do not derive distances from a direction that was
 not given

---
 projects/dataclasses/private/InteractionRecord.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 9d03fd3..448616a 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -513,7 +513,7 @@ void PrimaryDistributionRecord::UpdateVertexDistanceFromClosestApproach() const
         sign = (sign > 0) ? (1) : (-1);
         magnitude = std::sqrt(difference.at(0)*difference.at(0) + difference.at(1)*difference.at(1) + difference.at(2)*difference.at(2));
         vertex_distance_from_closest_approach = magnitude * sign;
-    } else if(point_of_closest_approach_set and initial_position_set and length_set) {
+    } else if(point_of_closest_approach_set and initial_position_set and direction_set and length_set) {
         double p_dot_d = (
             (initial_position.at(0) * direction.at(0)) +
             (initial_position.at(1) * direction.at(1)) +
@@ -603,7 +603,7 @@ void PrimaryDistributionRecord::UpdateInitialDistanceFromClosestApproach() const
         sign = (sign > 0) ? (1) : (-1);
         magnitude = std::sqrt(difference.at(0)*difference.at(0) + difference.at(1)*difference.at(1) + difference.at(2)*difference.at(2));
         initial_distance_from_closest_approach = magnitude * sign;
-    } else if(point_of_closest_approach_set and interaction_vertex_set and length_set) {
+    } else if(point_of_closest_approach_set and interaction_vertex_set and direction_set and length_set) {
         double p_dot_d = (
             (interaction_vertex.at(0) * direction.at(0)) +
             (interaction_vertex.at(1) * direction.at(1)) +
-- 
2.43.0


From 8e7ec120d6149f37de982aebe3c45b17085e765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:07 +0000
Subject: [PATCH 48/70] fix: a secondary at rest has a vertex where it was
 produced

---
 projects/dataclasses/private/InteractionRecord.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 448616a..877bd03 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -1125,8 +1125,8 @@ SecondaryDistributionRecord::SecondaryDistributionRecord(InteractionRecord & rec
     mass(record.primary_mass),
     direction([](InteractionRecord const & record) -> std::array<double, 3> {
         std::array<double, 3> direction;
-        if(record.primary_momentum.at(0) != 0) {
-            double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
+        double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
+        if(magnitude > 0) {
             direction = {record.primary_momentum.at(1)/magnitude, record.primary_momentum.at(2)/magnitude, record.primary_momentum.at(3)/magnitude};
         } else {
             direction = {0, 0, 0};
@@ -1146,8 +1146,8 @@ SecondaryDistributionRecord::SecondaryDistributionRecord(InteractionRecord const
     mass(record.primary_mass),
     direction([](InteractionRecord const & record) -> std::array<double, 3> {
         std::array<double, 3> direction;
-        if(record.primary_momentum.at(0) != 0) {
-            double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
+        double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
+        if(magnitude > 0) {
             direction = {record.primary_momentum.at(1)/magnitude, record.primary_momentum.at(2)/magnitude, record.primary_momentum.at(3)/magnitude};
         } else {
             direction = {0, 0, 0};
-- 
2.43.0


From e66d431b45392d4ab9ae9987bbfd4ec3ac87bf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:42 +0000
Subject: [PATCH 49/70] fix: redefining a material forgets the components it no
 longer has

---
 projects/detector/private/MaterialModel.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index ee64952..9a475b9 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -172,6 +172,11 @@ void MaterialModel::AddMaterial(std::string const & material_name, std::map<int,
         material_components.push_back(material_component);
     }
 
+    // Forget the components of a previous definition of this material
+    for(auto const & material_component : material_components_[material_id]) {
+        material_components_by_id_.erase(std::make_pair(material_id, material_component.component.type));
+    }
+
     // Store material component list for material
     material_components_[material_id] = material_components;
 
-- 
2.43.0


From ecb95faa99a298b77b3f3fa9283f86f47b0aea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:42 +0000
Subject: [PATCH 50/70] fix: radiation fractions of the targets a material does
 have

---
 projects/detector/private/MaterialModel.cxx               | 2 +-
 projects/detector/public/SIREN/detector/MaterialModel.tcc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index 9a475b9..a6f16d4 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -393,7 +393,7 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, s
     fractions.reserve(particle_types.size());
     for(auto const & particle_type : particle_types) {
         std::pair<int, siren::dataclasses::ParticleType> key(material_id, particle_type);
-        if(material_components_by_id_.find(key) != material_components_by_id_.end()) {
+        if(material_components_by_id_.find(key) == material_components_by_id_.end()) {
             fractions.push_back(0.0);
             continue;
         }
diff --git a/projects/detector/public/SIREN/detector/MaterialModel.tcc b/projects/detector/public/SIREN/detector/MaterialModel.tcc
index 4bb1f6a..460817d 100644
--- a/projects/detector/public/SIREN/detector/MaterialModel.tcc
+++ b/projects/detector/public/SIREN/detector/MaterialModel.tcc
@@ -46,7 +46,7 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, I
     fractions.reserve(std::distance(begin, end));
     for(Iterator it = begin; it != end; ++it) {
         std::pair<int, siren::dataclasses::ParticleType> key(material_id, *it);
-        if(material_components_by_id_.find(key) != material_components_by_id_.end()) {
+        if(material_components_by_id_.find(key) == material_components_by_id_.end()) {
             fractions.push_back(0.0);
             continue;
         }
-- 
2.43.0


From 34cecfdcbcf14064a74a582815ac9939a5058184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:50 +0000
Subject: [PATCH 51/70] fix: a refused list of sectors leaves the detector as
 it was

---
 projects/detector/private/DetectorModel.cxx | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 5fd8bd1..dae732f 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -213,20 +213,22 @@ std::vector<DetectorSector> const & DetectorModel::GetSectors() const {
 }
 
 void DetectorModel::SetSectors(std::vector<DetectorSector> const & sectors) {
-    sectors_ = sectors;
-    sector_map_.clear();
-    sector_name_map_.clear();
+    std::map<int, unsigned int> sector_map;
+    std::map<std::string, unsigned int> sector_name_map;
     for(unsigned int i=0; i<sectors.size(); ++i) {
-        if(sector_map_.count(sectors[i].level) > 0) {
+        if(sector_map.count(sectors[i].level) > 0) {
             throw(std::runtime_error("Already have a sector of that heirarchy!"));
         }
         // Enforce unique sector names for name-based lookup
-        if(sector_name_map_.count(sectors[i].name) > 0) {
+        if(sector_name_map.count(sectors[i].name) > 0) {
             throw(std::runtime_error("Already have a sector named: " + sectors[i].name));
         }
-        sector_name_map_[sectors[i].name] = i;
-        sector_map_[sectors[i].level] = i;
+        sector_name_map[sectors[i].name] = i;
+        sector_map[sectors[i].level] = i;
     }
+    sectors_ = sectors;
+    sector_map_ = sector_map;
+    sector_name_map_ = sector_name_map;
     bvh_dirty_.store(true, std::memory_order_release);
 }
 
-- 
2.43.0


From c8f03da02b0e22f468bc1bf5abe688e60c856886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:50 +0000
Subject: [PATCH 52/70] fix: a path given another detector forgets where it met
 the sectors of the first

---
 projects/detector/private/Path.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/detector/private/Path.cxx b/projects/detector/private/Path.cxx
index a6dab82..492374f 100644
--- a/projects/detector/private/Path.cxx
+++ b/projects/detector/private/Path.cxx
@@ -138,6 +138,7 @@ geometry::Geometry::IntersectionList const & Path::GetIntersections() {
 void Path::SetDetectorModel(std::shared_ptr<const DetectorModel> detector_model) {
     if(set_detector_model_ and set_det_points_) {
         set_points_ = false;
+        set_intersections_ = false;
     }
     detector_model_ = detector_model;
     set_detector_model_ = true;
-- 
2.43.0


From f7b7fdebc236e9bbbb13bc8e47d1f87c68001b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:49 +0000
Subject: [PATCH 53/70] fix: find the sectors along a flipped infinite path
 from its finite end

---
 projects/detector/private/Path.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/detector/private/Path.cxx b/projects/detector/private/Path.cxx
index 492374f..d060206 100644
--- a/projects/detector/private/Path.cxx
+++ b/projects/detector/private/Path.cxx
@@ -266,7 +266,8 @@ void Path::SetIntersections(geometry::Geometry::IntersectionList const & interse
 void Path::ComputeIntersections() {
     EnsureDetectorModel();
     EnsurePoints();
-    intersections_ = detector_model_->GetIntersections(first_point_, direction_);
+    // The intersections cover the whole line, so look for them from an end that is finite
+    intersections_ = detector_model_->GetIntersections(first_inf_ ? last_point_ : first_point_, direction_);
     set_intersections_ = true;
 }
 
-- 
2.43.0


From afcda397c9f3e80b919de19a268ac7ee6d8f6c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:20 +0000
Subject: [PATCH 54/70] fix: a union with an empty shape does not fill the
 world

---
 projects/geometry/public/SIREN/geometry/AABB.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projects/geometry/public/SIREN/geometry/AABB.h b/projects/geometry/public/SIREN/geometry/AABB.h
index bdd5cd5..987781c 100644
--- a/projects/geometry/public/SIREN/geometry/AABB.h
+++ b/projects/geometry/public/SIREN/geometry/AABB.h
@@ -44,6 +44,8 @@ struct AABB {
 
     // Expand this AABB to include another AABB
     void ExpandToInclude(AABB const & other) {
+        // An empty (invalid) box has nothing to include
+        if(!other.IsValid()) return;
         ExpandToInclude(other.min_corner);
         ExpandToInclude(other.max_corner);
     }
-- 
2.43.0


From 3e896bd0f6ceb90330a763bae26e0ebaed494be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:38 +0000
Subject: [PATCH 55/70] fix: changing the seed of an initialized Injector
 raised AttributeError

The compiled injector has no GetRandom; give it a new generator instead.
---
 python/Injector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/Injector.py b/python/Injector.py
index 0454ff4..e3c80f2 100644
--- a/python/Injector.py
+++ b/python/Injector.py
@@ -172,9 +172,9 @@ class Injector:
 
     @seed.setter
     def seed(self, seed):
-        self.__seed = seed
         if self.__injector is not None:
-            self.__injector.GetRandom().set_seed(seed)
+            self.__injector.SetRandom(_utilities.SIREN_random(seed))
+        self.__seed = seed
 
     @property
     def number_of_events(self):
-- 
2.43.0


From 7a26cf6a6be0d653173b5ec6da9ce65c3012432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:38 +0000
Subject: [PATCH 56/70] fix: changing secondary interactions or distributions
 of an initialized Injector raised

The setters passed a list where the process takes a collection, iterated the
new values instead of the processes and used an undefined name.
---
 python/Injector.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/Injector.py b/python/Injector.py
index e3c80f2..47e3597 100644
--- a/python/Injector.py
+++ b/python/Injector.py
@@ -248,8 +248,12 @@ class Injector:
             new_secondary_types = sorted(list(secondary_interactions.keys()))
             if current_secondary_types != new_secondary_types:
                 raise ValueError("Cannot change the secondary types after initialization")
+            collections = {
+                secondary_type: _interactions.InteractionCollection(secondary_type, interactions)
+                for secondary_type, interactions in secondary_interactions.items()
+            }
             for secondary_type, secondary_process in secondary_processes.items():
-                secondary_process.interactions = secondary_interactions[secondary_type]
+                secondary_process.interactions = collections[secondary_type]
         self.__secondary_interactions = secondary_interactions
 
     @property
@@ -259,13 +263,13 @@ class Injector:
     @secondary_injection_distributions.setter
     def secondary_injection_distributions(self, secondary_injection_distributions):
         if self.__injector is not None:
-            secondary_processes = self.__injector.GetSecondaryProcesses()
+            secondary_processes = self.__injector.GetSecondaryProcessMap()
             current_secondary_types = sorted(list(secondary_processes.keys()))
             new_secondary_types = sorted(list(secondary_injection_distributions.keys()))
             if current_secondary_types != new_secondary_types:
                 raise ValueError("Cannot change the secondary types after initialization")
-            for secondary_type, secondary_process in secondary_injection_distributions.items():
-                secondary_process.distributions = secondary_distributions[secondary_type]
+            for secondary_type, secondary_process in secondary_processes.items():
+                secondary_process.distributions = secondary_injection_distributions[secondary_type]
         self.__secondary_injection_distributions = secondary_injection_distributions
 
     @property
-- 
2.43.0


From 7858f161350c336348bee8207838bbf9949b849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:38 +0000
Subject: [PATCH 57/70] fix: restoring an Injector with secondary processes
 raised TypeError

unpickling and load iterated the keys of the process map as pairs.
---
 python/Injector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/Injector.py b/python/Injector.py
index 47e3597..baa20af 100644
--- a/python/Injector.py
+++ b/python/Injector.py
@@ -162,7 +162,7 @@ class Injector:
 
         self.__secondary_interactions = {}
         self.__secondary_injection_distributions = {}
-        for secondary_type, secondary_process in self.__injector.GetSecondaryProcessMap():
+        for secondary_type, secondary_process in self.__injector.GetSecondaryProcessMap().items():
             self.__secondary_interactions[secondary_type] = list(secondary_process.interactions.GetCrossSections()) + list(secondary_process.interactions.GetDecays())
             self.__secondary_injection_distributions[secondary_type] = list(secondary_process.distributions)
 
@@ -334,7 +334,7 @@ class Injector:
 
         self.__secondary_interactions = {}
         self.__secondary_injection_distributions = {}
-        for secondary_type, secondary_process in self.__injector.GetSecondaryProcessMap():
+        for secondary_type, secondary_process in self.__injector.GetSecondaryProcessMap().items():
             self.__secondary_interactions[secondary_type] = list(secondary_process.interactions.GetCrossSections()) + list(secondary_process.interactions.GetDecays())
             self.__secondary_injection_distributions[secondary_type] = list(secondary_process.distributions)
 
-- 
2.43.0


From bd2514b44a262b278195f9446dad61d422aebfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:38 +0000
Subject: [PATCH 58/70] fix: an unpickled Injector had no random generator and
 no stopping condition

Generating an event with it dereferenced a null generator.
---
 python/Injector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/Injector.py b/python/Injector.py
index baa20af..9350ac6 100644
--- a/python/Injector.py
+++ b/python/Injector.py
@@ -153,6 +153,10 @@ class Injector:
         if self.__injector is None:
             raise TypeError("Failed to create C++ Injector object")
         self.__injector.__setstate__(injector_state)
+        # Neither the random number generator nor the stopping condition is part of the C++ state
+        self.__injector.SetRandom(_utilities.SIREN_random(self.__seed))
+        if self.__stopping_condition is not None:
+            self.__injector.SetStoppingCondition(self.__stopping_condition)
         self.__number_of_events = self.__injector.EventsToInject()
         self.__detector_model = self.__injector.GetDetectorModel()
         primary_process = self.__injector.GetPrimaryProcess()
-- 
2.43.0


From 93e41e9febd88bc63400c9ea5bfc7cbe9f3569ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:38 +0000
Subject: [PATCH 59/70] fix: an Injector could not be saved, pickled, loaded or
 asked for a record before its first event

---
 python/Injector.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/python/Injector.py b/python/Injector.py
index 9350ac6..31bcf63 100644
--- a/python/Injector.py
+++ b/python/Injector.py
@@ -139,6 +139,8 @@ class Injector:
 
     # Custom method to retrieve the internal state for pickling
     def __getstate__(self):
+        if self.__injector is None:
+            self.__initialize_injector()
         # The seed and stopping condition are the only things we cannot serialize
         state = (self.__seed, self.__stopping_condition, self.__injector.__getstate__())
         return state
@@ -288,6 +290,8 @@ class Injector:
 
     @wraps(_Injector.NewRecord)
     def new_record(self):
+        if self.__injector is None:
+            self.__initialize_injector()
         return self.__injector.NewRecord()
     new_record.__name__ = "new_record"
     new_record.__doc__ = _Injector.NewRecord.__doc__.replace("NewRecord", "new_record")
@@ -321,13 +325,26 @@ class Injector:
 
     @wraps(_Injector.SaveInjector)
     def save(self, filename):
+        if self.__injector is None:
+            self.__initialize_injector()
         self.__injector.SaveInjector(filename)
     save.__name__ = "save"
     save.__doc__ = _Injector.SaveInjector.__doc__.replace("SaveInjector", "save")
 
     @wraps(_Injector.LoadInjector)
     def load(self, filename):
-        self.__injector.LoadInjector(filename)
+        if self.__injector is None:
+            if self.__seed is None:
+                random = _utilities.SIREN_random()
+            else:
+                random = _utilities.SIREN_random(self.__seed)
+            injector = _Injector(self.__number_of_events, filename, random)
+            if self.__stopping_condition is not None:
+                injector.SetStoppingCondition(self.__stopping_condition)
+            self.__injector = injector
+            self.__seed = random.get_seed()
+        else:
+            self.__injector.LoadInjector(filename)
         # Update Python object state after loading
         self.__number_of_events = self.__injector.EventsToInject()
         self.__detector_model = self.__injector.GetDetectorModel()
-- 
2.43.0


From 13ff6c0e54c8a09d6eaa8ada10b0f032dc4e70da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:17 +0000
Subject: [PATCH 60/70] fix: an Injector could not use seeds of more than 32
 bits, such as the ones it generates

A second attempt after a failed initialization, and unpickling, raised TypeError.
---
 python/Injector.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/Injector.py b/python/Injector.py
index 31bcf63..aa6f337 100644
--- a/python/Injector.py
+++ b/python/Injector.py
@@ -28,6 +28,12 @@ SecondaryInjectionDistribution = _distributions.SecondaryInjectionDistribution
 SecondaryInjectionProcess = _injection.SecondaryInjectionProcess
 InteractionTreeDatum = _dataclasses.InteractionTreeDatum
 
+def _random_with_seed(seed):
+    # The constructor takes 32-bit seeds only, but generated seeds have 64 bits
+    random = SIREN_random()
+    random.set_seed(seed)
+    return random
+
 class Injector:
     def __init__(
         self,
@@ -80,7 +86,7 @@ class Injector:
             random = _utilities.SIREN_random()
             self.__seed = random.get_seed()
         else:
-            random = _utilities.SIREN_random(self.__seed)
+            random = _random_with_seed(self.__seed)
 
         if self.__number_of_events is None:
             raise ValueError("number_of_events must be provided")
@@ -156,7 +162,7 @@ class Injector:
             raise TypeError("Failed to create C++ Injector object")
         self.__injector.__setstate__(injector_state)
         # Neither the random number generator nor the stopping condition is part of the C++ state
-        self.__injector.SetRandom(_utilities.SIREN_random(self.__seed))
+        self.__injector.SetRandom(_random_with_seed(self.__seed))
         if self.__stopping_condition is not None:
             self.__injector.SetStoppingCondition(self.__stopping_condition)
         self.__number_of_events = self.__injector.EventsToInject()
@@ -179,7 +185,7 @@ class Injector:
     @seed.setter
     def seed(self, seed):
         if self.__injector is not None:
-            self.__injector.SetRandom(_utilities.SIREN_random(seed))
+            self.__injector.SetRandom(_random_with_seed(seed))
         self.__seed = seed
 
     @property
@@ -337,7 +343,7 @@ class Injector:
             if self.__seed is None:
                 random = _utilities.SIREN_random()
             else:
-                random = _utilities.SIREN_random(self.__seed)
+                random = _random_with_seed(self.__seed)
             injector = _Injector(self.__number_of_events, filename, random)
             if self.__stopping_condition is not None:
                 injector.SetStoppingCondition(self.__stopping_condition)
-- 
2.43.0


From e6e370b27b9d5f8c2f3920a8612edd0feb99a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:22 +0000
Subject: [PATCH 61/70] fix: SIREN_Controller.SaveEvents failed on, or
 miscounted, events without interactions

A failed generation gives an empty tree; the count was that of the event before,
and exporting raised UnboundLocalError when the first event was empty.
---
 python/SIREN_Controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/SIREN_Controller.py b/python/SIREN_Controller.py
index 90edb25..f78ad16 100644
--- a/python/SIREN_Controller.py
+++ b/python/SIREN_Controller.py
@@ -750,7 +750,7 @@ class SIREN_Controller:
                     datasets["secondary_momenta"][-1][-1].append(np.array(sec_momenta,dtype=float))
                     datasets["secondary_times"][-1][-1].append(sec_time)
                 datasets["num_secondaries"][-1].append(len(datum.record.secondary_momenta))
-            datasets["num_interactions"].append(id+1)
+            datasets["num_interactions"].append(len(event.tree))
 
         # save injector and weighter (writes <filename>.siren_injector and
         # <filename>.siren_weighter alongside the event file). These are the
-- 
2.43.0


From 2ea8195ac10cf663811c89f6934cbae60107c052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:22 +0000
Subject: [PATCH 62/70] fix: generating in several batches raised, and lost the
 events of the batch, after a failed event

The loops asked for more attempts than the injector allows once an attempt had failed.
---
 python/Injector.py         | 6 ++++++
 python/SIREN_Controller.py | 5 ++++-
 python/_util.py            | 5 ++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/Injector.py b/python/Injector.py
index aa6f337..ad3f76a 100644
--- a/python/Injector.py
+++ b/python/Injector.py
@@ -322,6 +322,12 @@ class Injector:
             return self.__injector.InjectedEvents()
         return 0
 
+    @property
+    def injection_attempts(self):
+        if self.__injector is not None:
+            return self.__injector.InjectionAttempts()
+        return 0
+
     @wraps(_Injector.ResetInjectedEvents)
     def reset_injected_events(self):
         if self.__injector is not None:
diff --git a/python/SIREN_Controller.py b/python/SIREN_Controller.py
index f78ad16..1cb37af 100644
--- a/python/SIREN_Controller.py
+++ b/python/SIREN_Controller.py
@@ -578,7 +578,10 @@ class SIREN_Controller:
         if not hasattr(self, "global_times"):
             self.global_times = []
         prev_time = time.time()
-        while (self.injector.InjectedEvents() < self.events_to_inject) and (count < N):
+        # failed attempts count towards the attempts the injector allows, not towards its events
+        while ((self.injector.InjectedEvents() < self.events_to_inject)
+               and (self.injector.InjectionAttempts() < self.injector.EventsToInject())
+               and (count < N)):
             if verbose: print("Injecting Event %d/%d  " % (count, N), end="\r")
             event = self.injector.GenerateEvent()
             self.events.append(event)
diff --git a/python/_util.py b/python/_util.py
index c76c074..236719b 100644
--- a/python/_util.py
+++ b/python/_util.py
@@ -927,7 +927,10 @@ def GenerateEvents(injector, N=None):
     gen_times = []
     prev_time = time.time()
     events = []
-    while (injector.injected_events < injector.number_of_events) and (count < N):
+    # failed attempts count towards the attempts the injector allows, not towards its events
+    while ((injector.injected_events < injector.number_of_events)
+           and (injector.injection_attempts < injector.number_of_events)
+           and (count < N)):
         print("Injecting Event %d/%d  " % (count, N), end="\r")
         event = injector.generate_event()
         events.append(event)
-- 
2.43.0


From a509643b58c0b827cb01bc65dbfbe1fcc40d7142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:19 +0000
Subject: [PATCH 63/70] fix: the density of the two-dimensional flux is per
 solid angle

Direction densities are per solid angle, and so are the values of the table,
but the generation density integrated to one over the cosine of the zenith:
weights of events generated from the table were off by two pi.
---
 .../Tabulated2DFluxDistribution.cxx               | 15 ++++++++-------
 .../Tabulated2DFluxDistribution.h                 |  5 +++++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
index cc7736a..0ff5588 100644
--- a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
@@ -195,7 +195,7 @@ Tabulated2DFluxDistribution::Tabulated2DFluxDistribution(std::string fluxTableFi
     LoadFluxTable();
     ComputeIntegral();
     if(has_physical_normalization)
-        SetNormalization(integral);
+        SetNormalization(2.0 * M_PI * integral);
 }
 
 Tabulated2DFluxDistribution::Tabulated2DFluxDistribution(double energyMin, double energyMax, std::string fluxTableFilename, bool has_physical_normalization)
@@ -208,7 +208,7 @@ Tabulated2DFluxDistribution::Tabulated2DFluxDistribution(double energyMin, doubl
     LoadFluxTable();
     ComputeIntegral();
     if(has_physical_normalization)
-        SetNormalization(integral);
+        SetNormalization(2.0 * M_PI * integral);
 }
 
 Tabulated2DFluxDistribution::Tabulated2DFluxDistribution(double energyMin, double energyMax, double cosZenithMin, double cosZenithMax, std::string fluxTableFilename, bool has_physical_normalization)
@@ -223,7 +223,7 @@ Tabulated2DFluxDistribution::Tabulated2DFluxDistribution(double energyMin, doubl
     LoadFluxTable();
     ComputeIntegral();
     if(has_physical_normalization)
-        SetNormalization(integral);
+        SetNormalization(2.0 * M_PI * integral);
 }
 
 Tabulated2DFluxDistribution::Tabulated2DFluxDistribution(std::vector<double> energies, std::vector<double> cosZeniths, std::vector<double> flux, bool has_physical_normalization)
@@ -233,7 +233,7 @@ Tabulated2DFluxDistribution::Tabulated2DFluxDistribution(std::vector<double> ene
     LoadFluxTable(energies,cosZeniths,flux);
     ComputeIntegral();
     if(has_physical_normalization)
-        SetNormalization(integral);
+        SetNormalization(2.0 * M_PI * integral);
 }
 
 Tabulated2DFluxDistribution::Tabulated2DFluxDistribution(double energyMin, double energyMax, std::vector<double> energies, std::vector<double> cosZeniths, std::vector<double> flux, bool has_physical_normalization)
@@ -245,7 +245,7 @@ Tabulated2DFluxDistribution::Tabulated2DFluxDistribution(double energyMin, doubl
     LoadFluxTable(energies,cosZeniths,flux);
     ComputeIntegral();
     if(has_physical_normalization)
-        SetNormalization(integral);
+        SetNormalization(2.0 * M_PI * integral);
 }
 
 Tabulated2DFluxDistribution::Tabulated2DFluxDistribution(double energyMin, double energyMax, double cosZenithMin, double cosZenithMax, std::vector<double> energies, std::vector<double> cosZeniths, std::vector<double> flux, bool has_physical_normalization)
@@ -259,7 +259,7 @@ Tabulated2DFluxDistribution::Tabulated2DFluxDistribution(double energyMin, doubl
     LoadFluxTable(energies,cosZeniths,flux);
     ComputeIntegral();
     if(has_physical_normalization)
-        SetNormalization(integral);
+        SetNormalization(2.0 * M_PI * integral);
 }
 
 std::pair<double, double> Tabulated2DFluxDistribution::SampleTablePoint(std::shared_ptr<siren::utilities::SIREN_random> rand) const {
@@ -332,7 +332,8 @@ double Tabulated2DFluxDistribution::GenerationProbability(std::shared_ptr<siren:
     else if(cosZenith < cosZenithMin or cosZenith > cosZenithMax)
         return 0.0;
     else
-        return pdf(energy, cosZenith);
+        // The azimuth is uniform: the density is per energy and solid angle
+        return pdf(energy, cosZenith) / (2.0 * M_PI);
 }
 
 std::string Tabulated2DFluxDistribution::Name() const {
diff --git a/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h b/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
index dfc268c..366887b 100644
--- a/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
+++ b/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
@@ -2,6 +2,7 @@
 #ifndef SIREN_Tabulated2DFluxDistribution_H
 #define SIREN_Tabulated2DFluxDistribution_H
 
+#include <cmath>
 #include <memory>
 #include <string>
 #include <cstdint>
@@ -114,6 +115,10 @@ public:
                 archive(::cereal::make_nvp("MHDensity", MH_density));
                 MH_sampled_points = sampled_points;
             }
+            if(version == 0 && IsNormalizationSet()) {
+                // written when the density was per energy and cosine of the zenith
+                SetNormalization(2.0 * M_PI * GetNormalization());
+            }
         } else {
             throw std::runtime_error("Tabulated2DFluxDistribution only supports version <= 1!");
         }
-- 
2.43.0


From fe860097b577d893f33696cebc3071d63655fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:01 +0000
Subject: [PATCH 64/70] fix: the two-dimensional integral converges for small
 integrands

Any estimate below tol^2 was taken as converged, so the normalisation of a
steep flux given in small units came from the coarsest grids. The test for a
vanishing integral is now relative to the magnitude of the integrand.
---
 .../utilities/public/SIREN/utilities/Integration.h  | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Integration.h b/projects/utilities/public/SIREN/utilities/Integration.h
index 062aa5a..7ab739b 100644
--- a/projects/utilities/public/SIREN/utilities/Integration.h
+++ b/projects/utilities/public/SIREN/utilities/Integration.h
@@ -173,6 +173,7 @@ double simpsonIntegrate2D(const FuncType& func, double a1, double b1, double a2,
 
   double prev_estimate = 0;
   double estimate;
+  double magnitude;
   unsigned int N1i,N2i;
   double h1i,h2i,c1,c2;
 
@@ -182,6 +183,7 @@ double simpsonIntegrate2D(const FuncType& func, double a1, double b1, double a2,
      h1i = (b1-a1)/N1i;
      h2i = (b2-a2)/N2i;
      estimate = 0;
+     magnitude = 0;
      for(unsigned int j = 0; j < N1i+1; j++) {
        if (j==0 || j==N1i) c1 = 1;
        else if (j%2==0) c1 = 2;
@@ -192,16 +194,19 @@ double simpsonIntegrate2D(const FuncType& func, double a1, double b1, double a2,
          else if (k%2==0) c2 = 2;
          else c2 = 4;
          double y = a2 + k*h2i;
-         estimate += c1*c2*func(x, y);
+         double term = c1*c2*func(x, y);
+         estimate += term;
+         magnitude += std::abs(term);
        }
      }
      estimate *= h1i*h2i/9;
+     magnitude *= std::abs(h1i*h2i/9);
      if(i > 0) {
        double diff = std::abs(estimate - prev_estimate);
        double scale = std::max(std::abs(estimate), std::abs(prev_estimate));
-       // Converged when relative change is small, or when the integral
-       // magnitude is below tol^2 (effectively zero for any reasonable tol).
-       if(scale < tol * tol || diff < tol * scale) {
+       // Converged when relative change is small, or when the integral is
+       // negligible (by tol^2) against that of the function's magnitude.
+       if(scale <= tol * tol * magnitude || diff < tol * scale) {
          return estimate;
        }
      }
-- 
2.43.0


From 3c4a8b3cfd451b541f30a34d6281f8c12a5fe433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:33 +0000
Subject: [PATCH 65/70] fix: sample the two-dimensional flux from its density

A rejected proposal was drawn again instead of leaving the chain where it was,
and proposals made uniformly in the logarithm of the energy were accepted by
the density per energy: the sampled energies and directions did not follow the
density that weights them.
---
 .../Tabulated2DFluxDistribution.cxx           | 37 +++++++------------
 .../Tabulated2DFluxDistribution.h             |  6 +++
 2 files changed, 20 insertions(+), 23 deletions(-)

diff --git a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
index 0ff5588..fafbe87 100644
--- a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
@@ -282,34 +282,25 @@ std::pair<double, double> Tabulated2DFluxDistribution::SampleTablePoint(std::sha
 
 std::pair<double,siren::math::Vector3D> Tabulated2DFluxDistribution::SampleEnergyAndDirection(std::shared_ptr<siren::utilities::SIREN_random> rand, std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::PrimaryDistributionRecord & record) const {
 
-    double energy, cosZenith, test_density;
-    std::pair<double,double> energy_cosZenith;
-
-    // Metropolis-Hastings burn-in
-    while (MH_sampled_points <= burnin) {
-        energy_cosZenith = SampleTablePoint(rand);
-        energy = energy_cosZenith.first;
-        cosZenith = energy_cosZenith.second;
-        test_density = pdf(energy, cosZenith);
-        bool accept = (MH_density <= 0) || (test_density >= MH_density) || (rand->Uniform() < test_density / MH_density);
-        if(accept) {
-            MH_density = test_density;
-            MH_sampled_points++;
+    // Metropolis-Hastings: the chain moves on for every sample, and a rejected
+    // proposal leaves it where it is
+    for(size_t step = 0; step <= burnin; ++step) {
+        std::pair<double,double> energy_cosZenith = SampleTablePoint(rand);
+        double test_density = pdf(energy_cosZenith.first, energy_cosZenith.second);
+        if(fluxTable.IsLogX()) {
+            // points are proposed uniformly in the logarithm of the energy
+            test_density *= energy_cosZenith.first;
         }
-    }
-    // Sample one point after burn-in
-    bool accept = false;
-    while(!accept) {
-        energy_cosZenith = SampleTablePoint(rand);
-        energy = energy_cosZenith.first;
-        cosZenith = energy_cosZenith.second;
-        test_density = pdf(energy, cosZenith);
-        accept = (MH_density <= 0) || (test_density >= MH_density) || (rand->Uniform() < test_density / MH_density);
+        bool accept = (MH_density <= 0) || (test_density >= MH_density) || (rand->Uniform() < test_density / MH_density);
         if(accept) {
             MH_density = test_density;
-            MH_sampled_points++;
+            MH_energy = energy_cosZenith.first;
+            MH_cosZenith = energy_cosZenith.second;
         }
+        MH_sampled_points++;
     }
+    double energy = MH_energy;
+    double cosZenith = MH_cosZenith;
     // Convert cos(zenith) to a 3D direction vector
     double sin_theta = sqrt(1.0 - cosZenith * cosZenith);
     double phi = rand->Uniform(-M_PI, M_PI);
diff --git a/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h b/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
index 366887b..4e9c650 100644
--- a/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
+++ b/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
@@ -53,6 +53,8 @@ private:
     const size_t burnin = 40;
     mutable size_t MH_sampled_points = 0;
     mutable double MH_density = 0;
+    mutable double MH_energy = 0;
+    mutable double MH_cosZenith = 0;
 
     double unnormed_pdf(double energy, double cosZenith) const;
     double pdf(double energy, double cosZenith) const;
@@ -90,6 +92,8 @@ public:
             if(version >= 1) {
                 archive(::cereal::make_nvp("MHSampledPoints", static_cast<std::uint64_t>(MH_sampled_points)));
                 archive(::cereal::make_nvp("MHDensity", MH_density));
+                archive(::cereal::make_nvp("MHEnergy", MH_energy));
+                archive(::cereal::make_nvp("MHCosZenith", MH_cosZenith));
             }
         } else {
             throw std::runtime_error("Tabulated2DFluxDistribution only supports version <= 1!");
@@ -113,6 +117,8 @@ public:
                 std::uint64_t sampled_points;
                 archive(::cereal::make_nvp("MHSampledPoints", sampled_points));
                 archive(::cereal::make_nvp("MHDensity", MH_density));
+                archive(::cereal::make_nvp("MHEnergy", MH_energy));
+                archive(::cereal::make_nvp("MHCosZenith", MH_cosZenith));
                 MH_sampled_points = sampled_points;
             }
             if(version == 0 && IsNormalizationSet()) {
-- 
2.43.0


From b7e6e5c5504d320e62ca6fd042a7a943a09f22d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:52 +0000
Subject: [PATCH 66/70] fix: sample elastic scattering from its differential
 cross section

The inelasticity was proposed uniformly in its logarithm, down to 1e-15, but
accepted by the cross section per inelasticity: nearly all recoil electrons
were sampled at rest, while the final-state probability says otherwise.
---
 projects/interactions/private/ElasticScattering.cxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/projects/interactions/private/ElasticScattering.cxx b/projects/interactions/private/ElasticScattering.cxx
index 6e136e4..b3fac7f 100644
--- a/projects/interactions/private/ElasticScattering.cxx
+++ b/projects/interactions/private/ElasticScattering.cxx
@@ -134,8 +134,6 @@ void ElasticScattering::SampleFinalState(dataclasses::CrossSectionDistributionRe
     double yMin = 1e-15;
     double yMax = 2*primary_energy / (2*primary_energy + siren::utilities::Constants::electronMass);
     assert(yMin > 0);
-    double log_yMax = log10(yMax);
-    double log_yMin = log10(yMin);
 
     bool accept;
 
@@ -145,11 +143,12 @@ void ElasticScattering::SampleFinalState(dataclasses::CrossSectionDistributionRe
     double cross_section, test_cross_section;
 
     // sample an intial point
-    test_y = std::pow(10.0,random->Uniform(log_yMin, log_yMax));
+    test_y = random->Uniform(yMin, yMax);
 
     // evalutates the differential spline at that point
     test_cross_section = ElasticScattering::DifferentialCrossSection(primary_type, primary_energy, test_y);
 
+    y = test_y;
     cross_section = test_cross_section;
 
     // this is the magic part. Metropolis Hastings Algorithm.
@@ -158,15 +157,14 @@ void ElasticScattering::SampleFinalState(dataclasses::CrossSectionDistributionRe
                               // big number means more accurate, but slower
     for(size_t j = 0; j <= burnin; j++) {
         // repeat the sampling from above to get a new valid point
-        test_y = std::pow(10.0,random->Uniform(log_yMin, log_yMax));
+        test_y = random->Uniform(yMin, yMax);
 
         // Load the differential cross section depending on sampling variable
         test_cross_section = ElasticScattering::DifferentialCrossSection(primary_type, primary_energy, test_y);
         if(std::isnan(test_cross_section) or test_cross_section <= 0)
             continue;
 
-        //double odds = ((test_y*test_cross_section) / (y*cross_section));
-        double odds = (test_cross_section / cross_section); // this gives a better match to the y distribution
+        double odds = (test_cross_section / cross_section);
         accept = (cross_section == 0 || (odds > 1.) || random->Uniform(0, 1) < odds);
 
         if(accept) {
-- 
2.43.0


From 73570bbbc8f02cb49a6f6ecf7083a41d5014207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:52 +0000
Subject: [PATCH 67/70] fix: sample tabulated dipole scattering from its
 differential cross section

Points proposed uniformly in the logarithm of y were accepted by the cross
section per y, so the sampled y did not follow the final-state probability.
---
 projects/interactions/private/HNLDipoleFromTable.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index f792a00..d3b2070 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -394,8 +394,8 @@ void HNLDipoleFromTable::SampleFinalState(dataclasses::CrossSectionDistributionR
         if(std::isnan(test_cross_section) or test_cross_section <= 0)
             continue;
 
-        //double odds = ((test_kin_vars[1]*test_cross_section) / (kin_vars[1]*cross_section));
-        double odds = (test_cross_section / cross_section); // this gives a better match to the y distribution
+        // points are proposed uniformly in the logarithm of y
+        double odds = ((test_kin_vars[1]*test_cross_section) / (kin_vars[1]*cross_section));
         accept = (cross_section == 0 || (odds > 1.) || random->Uniform(0, 1) < odds);
 
         if(accept) {
-- 
2.43.0


From 67b556b388de9238bdf8ec9ea761049cbb0b928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:52 +0000
Subject: [PATCH 68/70] fix: sample DarkNews scattering from its differential
 cross section

Points proposed uniformly in the logarithm of Q2 were accepted by the cross
section per Q2, so the sampled Q2 did not follow the final-state probability.
---
 projects/interactions/private/DarkNewsCrossSection.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/interactions/private/DarkNewsCrossSection.cxx b/projects/interactions/private/DarkNewsCrossSection.cxx
index 70ebc2f..62e7c42 100644
--- a/projects/interactions/private/DarkNewsCrossSection.cxx
+++ b/projects/interactions/private/DarkNewsCrossSection.cxx
@@ -194,7 +194,8 @@ void DarkNewsCrossSection::SampleFinalState(dataclasses::CrossSectionDistributio
         // repeat the sampling from above to get a new valid point
         test_kin_vars[1] = std::pow(10,random->Uniform(log_minQ2,log_maxQ2));
         test_cross_section = DifferentialCrossSection(record.GetPrimaryType(), record.GetTargetType(), primary_energy, test_kin_vars[1]);
-        double odds = (test_cross_section / cross_section);
+        // points are proposed uniformly in the logarithm of Q2
+        double odds = ((test_kin_vars[1]*test_cross_section) / (kin_vars[1]*cross_section));
         accept = (cross_section == 0 || (odds > 1.) || random->Uniform(0, 1) < odds);
 
         if(accept) {
-- 
2.43.0


From 4df26561baad0ba720b716f15108f5524b873899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:52 +0000
Subject: [PATCH 69/70] fix: DarkNews cross sections of a record use its
 secondary and its target

The momentum transfer was computed with the target in place of the outgoing
particle, and the total cross section was asked for the primary as target.
---
 projects/interactions/private/DarkNewsCrossSection.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/DarkNewsCrossSection.cxx b/projects/interactions/private/DarkNewsCrossSection.cxx
index 62e7c42..19cd96e 100644
--- a/projects/interactions/private/DarkNewsCrossSection.cxx
+++ b/projects/interactions/private/DarkNewsCrossSection.cxx
@@ -33,7 +33,7 @@ bool DarkNewsCrossSection::equal(CrossSection const & other) const {
 
 double DarkNewsCrossSection::TotalCrossSection(dataclasses::InteractionRecord const & interaction) const {
     siren::dataclasses::ParticleType primary_type = interaction.signature.primary_type;
-    siren::dataclasses::ParticleType target_type = interaction.signature.primary_type;
+    siren::dataclasses::ParticleType target_type = interaction.signature.target_type;
     std::array<double, 4> const & primary_momentum = interaction.primary_momentum;
     double const & primary_mass = interaction.primary_mass;
     rk::P4 p1(geom3::Vector3(primary_momentum[1], primary_momentum[2], primary_momentum[3]), primary_mass);
@@ -55,7 +55,7 @@ double DarkNewsCrossSection::DifferentialCrossSection(dataclasses::InteractionRe
     rk::P4 p1_lab;
     rk::P4 p3_lab;
     p1_lab = p1;
-    p3_lab = p2;
+    p3_lab = p3;
     primary_energy = p1_lab.e();
     double Q2 = -1*(std::pow(p1_lab.m(),2) + std::pow(p3_lab.m(),2) - 2.0*p1_lab.dot(p3_lab));
 
-- 
2.43.0


From 4623bc02db9f4884e6eb0bdb46826ef49c867fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:16 +0000
Subject: [PATCH 70/70] fix: the neutrino scattered off an electron carries the
 remaining momentum

It was recorded with the momentum of the incoming one, so the inelasticity of
the record was zero and its differential cross section and final-state
probability were those of no scattering.
---
 projects/interactions/private/ElasticScattering.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/ElasticScattering.cxx b/projects/interactions/private/ElasticScattering.cxx
index b3fac7f..efd3fb7 100644
--- a/projects/interactions/private/ElasticScattering.cxx
+++ b/projects/interactions/private/ElasticScattering.cxx
@@ -198,8 +198,8 @@ void ElasticScattering::SampleFinalState(dataclasses::CrossSectionDistributionRe
     rk::P4 p3_lab(geom3::Vector3(p3x_lab, p3y_lab, 0), m3);
     p3_lab.rotate(x_to_p1_lab_rot);
     p3_lab.rotate(rand_rot);
-    // doing something dumb, ignore outgoing neutrino
-    rk::P4 p4_lab = p1_lab;//p2_lab + (p1_lab - p3_lab);
+    // the outgoing neutrino carries the remaining momentum with the mass of the incoming one
+    rk::P4 p4_lab(p1_lab.momentum() - p3_lab.momentum(), record.primary_mass);
 
     siren::dataclasses::SecondaryParticleRecord & electron = record.GetSecondaryParticleRecord(electron_index);
     siren::dataclasses::SecondaryParticleRecord & neutrino = record.GetSecondaryParticleRecord(nu_index);
-- 
2.43.0

