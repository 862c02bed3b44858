From 79a4263eb53db030201e830451851c64cec85897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 01/48] fix: handle bucket sites without particles

Taking the first element of an empty site read past the end of the vector.
---
 c++/src/configuration.cpp | 9 ++++++---
 c++/src/matcher.cpp       | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/c++/src/configuration.cpp b/c++/src/configuration.cpp
index d9bdfda..8b64ffe 100644
--- a/c++/src/configuration.cpp
+++ b/c++/src/configuration.cpp
@@ -53,7 +53,8 @@ Configuration::Configuration(const std::vector<std::vector<double> >  & coordina
         atom_id_.push_back(i);
 
         // FIXME
-        atom_id_elements_[i] = elements_[i][0];
+        // NOTE: A bucket site can be empty.
+        atom_id_elements_[i] = elements_[i].empty() ? std::string() : elements_[i][0];
     }
 
     // Set the atom id coordinates to the same as the coordinates to start with.
@@ -347,7 +348,8 @@ void Configuration::performBucketProcess(Process & process,
                 //            Now we only take the first occuring type at the site.
                 //            This is expected behavior but incorrect in general and
                 //            works only for one atom per site simulations.
-                atom_id_elements_[atom_id] = elements_[index][0];
+                // NOTE: A bucket site can be empty.
+                atom_id_elements_[atom_id] = elements_at_index.empty() ? std::string() : elements_at_index[0];
             }
 
             // Mark this index as affected.
@@ -397,7 +399,8 @@ void Configuration::performBucketProcess(Process & process,
         // ML: FIXME: This behavior should be deprecated.
         // See above comment.
         // Update the element type of this atom ID.
-        atom_id_elements_[id] = elements_[index][0];
+        // NOTE: A bucket site can be empty.
+        atom_id_elements_[id] = elements_[index].empty() ? std::string() : elements_[index][0];
 
     }
 }
diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index cfb646f..98200ab 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -564,7 +564,8 @@ double Matcher::updateSingleRate(const int index,
         numpy_geo[3*i+2] = coord.z();
 
         const int idx   = config_match_list[i].index;
-        types_before[i] = elements[idx][0];
+        // NOTE: A bucket site can be empty.
+        types_before[i] = elements[idx].empty() ? std::string() : elements[idx][0];
         occupations[i]  = types[idx];
     }
 
-- 
2.43.0


From db84f1ae8038b631c081fd108d2d687a790fae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 02/48] fix: match against all sites the processes can depend
 on

---
 c++/src/interactions.cpp | 48 ++++++++++++++++++++++++++++++++++++++++
 c++/src/interactions.h   |  9 ++++++++
 c++/src/latticemodel.cpp |  5 +++--
 c++/src/latticemodel.h   |  3 +++
 4 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index 202ea3a..74a498b 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -11,6 +11,7 @@
  */
 
 #include <algorithm>
+#include <cmath>
 
 #include "interactions.h"
 #include "random.h"
@@ -101,6 +102,53 @@ int Interactions::maxRange() const
 }
 
 
+// -----------------------------------------------------------------------------
+//
+int Interactions::matchRange(const Configuration & configuration,
+                             const LatticeMap & lattice_map) const
+{
+    // Two sites in cells a distance n apart can be as close as n minus the spread of
+    // the basis, in each direction, so this must be added to the reach of the processes.
+    const double eps = 1.0e-5;
+    const std::vector<Coordinate> & coords = configuration.coordinates();
+    const size_t n_basis = std::min(static_cast<size_t>(lattice_map.nBasis()), coords.size());
+
+    int range = maxRange();
+    for (int d = 0; d < 3; ++d)
+    {
+        // Find the spread of the basis in this direction.
+        double min = coords[0][d];
+        double max = coords[0][d];
+        for (size_t i = 1; i < n_basis; ++i)
+        {
+            min = std::min(min, coords[i][d]);
+            max = std::max(max, coords[i][d]);
+        }
+
+        // Find the longest reach of the processes in this direction.
+        double reach = 0.0;
+        for (size_t i = 0; i < process_pointers_.size(); ++i)
+        {
+            const ProcessBucketMatchList & match_list = process_pointers_[i]->processMatchList();
+            for (size_t j = 0; j < match_list.size(); ++j)
+            {
+                reach = std::max(reach, std::fabs(match_list[j].coordinate[d]));
+            }
+
+            // With custom rates the whole environment inside the cutoff is used.
+            if (use_custom_rates_)
+            {
+                reach = std::max(reach, process_pointers_[i]->cutoff());
+            }
+        }
+
+        range = std::max(range, static_cast<int>(reach + (max - min) + eps));
+    }
+
+    return range;
+}
+
+
 // -----------------------------------------------------------------------------
 //
 void Interactions::updateProcessMatchLists(const Configuration & configuration,
diff --git a/c++/src/interactions.h b/c++/src/interactions.h
index e6bc987..8eacdf9 100644
--- a/c++/src/interactions.h
+++ b/c++/src/interactions.h
@@ -54,6 +54,15 @@ public:
      */
     int maxRange() const;
 
+    /*! \brief Get the number of shells of cells that must be considered around each site
+     *         in order to include all sites the processes can depend on.
+     *  \param configuration : The configuration with the coordinates of the sites.
+     *  \param lattice_map   : The lattice map describing the configuration.
+     *  \return : The range of the matching.
+     */
+    int matchRange(const Configuration & configuration,
+                   const LatticeMap & lattice_map) const;
+
     /*! \brief Query for the custom rates flag.
      *  \return : The custom rates flag, (true) if we use custom rates.
      */
diff --git a/c++/src/latticemodel.cpp b/c++/src/latticemodel.cpp
index 2a2e4e2..ba34354 100644
--- a/c++/src/latticemodel.cpp
+++ b/c++/src/latticemodel.cpp
@@ -28,6 +28,7 @@ LatticeModel::LatticeModel(Configuration & configuration,
     simulation_timer_(simulation_timer),
     lattice_map_(lattice_map),
     interactions_(interactions),
+    match_range_(interactions_.matchRange(configuration, lattice_map)),
     matcher_(configuration.coordinates().size(), interactions.processes().size())
 {
     // Setup the mapping between coordinates and processes.
@@ -43,7 +44,7 @@ LatticeModel::LatticeModel(Configuration & configuration,
 void LatticeModel::calculateInitialMatching()
 {
     // Calculate the match lists.
-    configuration_.initMatchLists(lattice_map_, interactions_.maxRange());
+    configuration_.initMatchLists(lattice_map_, match_range_);
 
     // Update the interactions matchlists.
     interactions_.clearMatching();
@@ -87,7 +88,7 @@ void LatticeModel::singleStep()
 
     // Run the re-matching of the affected sites and their neighbours.
     const std::vector<int> & indices = \
-        lattice_map_.supersetNeighbourIndices(process.affectedIndices(), interactions_.maxRange());
+        lattice_map_.supersetNeighbourIndices(process.affectedIndices(), match_range_);
 
     matcher_.calculateMatching(interactions_,
                                configuration_,
diff --git a/c++/src/latticemodel.h b/c++/src/latticemodel.h
index f33a0fc..282534c 100644
--- a/c++/src/latticemodel.h
+++ b/c++/src/latticemodel.h
@@ -87,6 +87,9 @@ private:
     /// The description of all interactions in the system.
     Interactions interactions_;
 
+    /// The number of shells of cells to consider in the matching.
+    int match_range_;
+
     /// The Matcher to use for calculating matches and update the process lists.
     Matcher matcher_;
 };
-- 
2.43.0


From 9ed14b09ebf3271a848e88ed22d2c284b40d65ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 03/48] fix: weight fixed rates of bucket processes with the
 multiplicity of the match

---
 c++/src/matcher.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index 98200ab..e802b97 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -465,6 +465,10 @@ void Matcher::updateProcesses(const std::vector<RemoveTask> & remove_tasks,
 {
     // This could perhaps be OpenMP parallelized.
 
+    // A custom rate is the rate for the whole site. With fixed rate constants the rate
+    // applies to each of the ways the process can be performed at the site.
+    const bool custom_rates = interactions.useCustomRates();
+
     // Remove.
     for (size_t i = 0; i < remove_tasks.size(); ++i)
     {
@@ -480,8 +484,9 @@ void Matcher::updateProcesses(const std::vector<RemoveTask> & remove_tasks,
         const int index   = update_tasks[i].index;
         const int p_idx   = update_tasks[i].process;
         const double rate = update_tasks[i].rate;
+        const double m    = custom_rates ? 1.0 : update_tasks[i].multiplicity;
         interactions.processes()[p_idx]->removeSite(index);
-        interactions.processes()[p_idx]->addSite(index, rate);
+        interactions.processes()[p_idx]->addSite(index, rate, m);
     }
 
     // Add.
@@ -490,7 +495,8 @@ void Matcher::updateProcesses(const std::vector<RemoveTask> & remove_tasks,
         const int index   = add_tasks[i].index;
         const int p_idx   = add_tasks[i].process;
         const double rate = add_tasks[i].rate;
-        interactions.processes()[p_idx]->addSite(index, rate);
+        const double m    = custom_rates ? 1.0 : add_tasks[i].multiplicity;
+        interactions.processes()[p_idx]->addSite(index, rate, m);
         inverse_table_[index][p_idx] = true;
     }
 }
-- 
2.43.0


From 75e93266c9c67f00894d4d84d8e23da05fb790b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 04/48] fix: calculate the multiplicity without integer
 overflow

---
 c++/src/matchlist.cpp | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/c++/src/matchlist.cpp b/c++/src/matchlist.cpp
index 20d3ffa..073f44e 100644
--- a/c++/src/matchlist.cpp
+++ b/c++/src/matchlist.cpp
@@ -147,7 +147,7 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
     ProcessBucketMatchList::const_iterator end = process_match_list.end();
     ConfigBucketMatchList::const_iterator it2  = config_match_list.begin();
 
-    int m = 1;
+    double m = 1.0;
 
     for ( ; it1 != end; ++it1, ++it2 )
     {
@@ -166,36 +166,21 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
                     // Local variables we need.
                     const int n = t2[i];
                     const int r = t1[i];
-                    const int n_minus_r = n - r;
-                    const int max = std::max(r, n_minus_r);
-                    const int min = std::min(r, n_minus_r);
+                    const int min = std::min(r, n - r);
 
-                    if (min != 0)
+                    // Multiply m by n! / (r! (n-r)!), in floating point numbers since
+                    // the products do not fit in an integer for large occupations.
+                    double combinations = 1.0;
+                    for (int j = 0; j < min; ++j)
                     {
-                        // Calculate n! / (r!(n-r)!)
-
-                        // Get the numerator.
-                        int local_n = t2[i];
-                        for (int j = t2[i] - 1; j > max; --j)
-                        {
-                            local_n *= j;
-                        }
-
-                        // Calculate the denominator.
-                        int local_r = min;
-                        for (int j = min-1; j > 0; --j)
-                        {
-                            local_r *= j;
-                        }
-
-                        // Multiply m by (n! / (r! (n-r)!))
-                        m *= (local_n / local_r);
+                        combinations = combinations * (n - j) / (j + 1);
                     }
+                    m *= combinations;
                 }
             }
         }
     }
 
     // Done.
-    return static_cast<double>(m);
+    return m;
 }
-- 
2.43.0


From d15221d3ff076ab7668f091db251d4b418f33950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 05/48] fix: move the atoms that leave a site of unchanged type

---
 c++/src/configuration.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/c++/src/configuration.cpp b/c++/src/configuration.cpp
index 8b64ffe..5477c49 100644
--- a/c++/src/configuration.cpp
+++ b/c++/src/configuration.cpp
@@ -311,7 +311,12 @@ void Configuration::performBucketProcess(Process & process,
         }
 
         // NOTE: The !(update_types[0] > 0) is needed for handling the wildcard match.
-        if (sum > 0 && !(update_types[0] > 0))
+        const bool update_site = (sum > 0 && !(update_types[0] > 0));
+
+        // An atom can move without changing the type at the site it leaves.
+        const bool move_atom = ((*it1).has_move_coordinate && (*it1).move_coordinate.norm() > 1.0e-6);
+
+        if (update_site || move_atom)
         {
             // Get the atom id to apply the move vector to.
             const int atom_id = atom_id_[index];
@@ -319,6 +324,18 @@ void Configuration::performBucketProcess(Process & process,
             // Apply the move vector to the atom coordinate.
             atom_id_coordinates_[atom_id] += (*it1).move_coordinate;
 
+            // Mark this atom_id as moved.
+            (*it4) = atom_id;
+            ++it4;
+            ++n_moved_;
+
+            // Save this move vector.
+            (*it5) = (*it1).move_coordinate;
+            ++it5;
+        }
+
+        if (update_site)
+        {
             // Set the type at this index.
             for (int i = 0; i < types_[index].size(); ++i)
             {
@@ -349,21 +366,12 @@ void Configuration::performBucketProcess(Process & process,
                 //            This is expected behavior but incorrect in general and
                 //            works only for one atom per site simulations.
                 // NOTE: A bucket site can be empty.
-                atom_id_elements_[atom_id] = elements_at_index.empty() ? std::string() : elements_at_index[0];
+                atom_id_elements_[atom_id_[index]] = elements_at_index.empty() ? std::string() : elements_at_index[0];
             }
 
             // Mark this index as affected.
             (*it3) = index;
             ++it3;
-
-            // Mark this atom_id as moved.
-            (*it4) = atom_id;
-            ++it4;
-            ++n_moved_;
-
-            // Save this move vector.
-            (*it5) = (*it1).move_coordinate;
-            ++it5;
         }
     }
 
-- 
2.43.0


From 69b6b62766e1d1ff53f0d468b3d3f5b3c92113e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:34 +0000
Subject: [PATCH 06/48] fix: never propagate the time by an infinite step

---
 c++/src/simulationtimer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c++/src/simulationtimer.cpp b/c++/src/simulationtimer.cpp
index 0249397..2996750 100644
--- a/c++/src/simulationtimer.cpp
+++ b/c++/src/simulationtimer.cpp
@@ -28,13 +28,13 @@ SimulationTimer::SimulationTimer() :
 void SimulationTimer::propagateTime(const double total_rate)
 {
     // Propagate the time of the system.
+    // NOTE: A zero random number must be discarded since it gives an infinite time step.
+    //       A check with std::isinf on the time step is optimized away with -ffast-math.
     double rnd;
-    double dt;
     do
     {
         rnd = randomDouble01();
-        dt  = -std::log(rnd)/total_rate;
     }
-    while (std::isinf(dt));
-    simulation_time_ += dt;
+    while (rnd <= 0.0);
+    simulation_time_ += -std::log(rnd)/total_rate;
 }
-- 
2.43.0


From f7628ab9a046161629f4065638674c914791c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:34 +0000
Subject: [PATCH 07/48] fix: never select a process without available sites

---
 c++/src/customrateprocess.cpp |  6 ++++++
 c++/src/interactions.cpp      | 18 +++++-------------
 c++/src/process.cpp           |  6 ++++++
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/c++/src/customrateprocess.cpp b/c++/src/customrateprocess.cpp
index f5d2f07..affeb3d 100644
--- a/c++/src/customrateprocess.cpp
+++ b/c++/src/customrateprocess.cpp
@@ -98,6 +98,12 @@ void CustomRateProcess::removeSite(const int index)
 
     site_multiplicity_.pop_back();
 
+    // Do not let numerical noise build up.
+    if (sites_.empty())
+    {
+        total_rate_ = 0.0;
+    }
+
 }
 
 
diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index 74a498b..b261532 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -26,15 +26,7 @@
 bool pairComp(const std::pair<double,int> & p1,
               const std::pair<double, int> & p2)
 {
-    // This skips all processes with no available sites.
-    if (p2.second == 0)
-    {
-        return false;
-    }
-    else
-    {
-        return (p1.first < p2.first);
-    }
+    return (p1.first < p2.first);
 }
 
 
@@ -287,12 +279,12 @@ int Interactions::pickProcessIndex() const
     const double rnd = randomDouble01() * totalRate();
     const std::pair<double,int> rnd_pair(rnd,1);
 
-    // Find the lower bound - corresponding to the first element for which
-    // the accumulated rate is not smaller than rnd, and the number
-    // of available processes is larger than zero.
+    // Find the upper bound - corresponding to the first element for which
+    // the accumulated rate is larger than rnd. A process with no available
+    // sites adds nothing to the accumulated rate and can never be found.
     const std::vector<std::pair<double, int> >::const_iterator begin = probability_table_.begin();
     const std::vector<std::pair<double, int> >::const_iterator end   = probability_table_.end();
-    const std::vector<std::pair<double, int> >::const_iterator it1   = std::lower_bound( begin,
+    const std::vector<std::pair<double, int> >::const_iterator it1   = std::upper_bound( begin,
                                                                                          end,
                                                                                          rnd_pair,
                                                                                          pairComp );
diff --git a/c++/src/process.cpp b/c++/src/process.cpp
index 1bb9681..c4ddef0 100644
--- a/c++/src/process.cpp
+++ b/c++/src/process.cpp
@@ -133,6 +133,12 @@ void Process::removeSite(const int index)
     total_rate_ -= site_multiplicity_.back() * rate_;
     site_multiplicity_.pop_back();
 
+    // Do not let numerical noise build up.
+    if (sites_.empty())
+    {
+        total_rate_ = 0.0;
+    }
+
 }
 
 
-- 
2.43.0


From 01d5e953fe39a7c1115a85c017c4050222940a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 08/48] fix: list each site once in the match lists of small
 periodic systems

---
 c++/src/configuration.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/c++/src/configuration.cpp b/c++/src/configuration.cpp
index 5477c49..c9f3201 100644
--- a/c++/src/configuration.cpp
+++ b/c++/src/configuration.cpp
@@ -117,7 +117,12 @@ void Configuration::initMatchLists( const LatticeMap & lattice_map,
     {
         // Calculate and store the match list.
         const int origin_index = i;
-        const std::vector<int> neighbourhood = lattice_map.neighbourIndices(origin_index, range);
+        std::vector<int> neighbourhood = lattice_map.neighbourIndices(origin_index, range);
+
+        // In a small periodic system several of the neighbouring cells are the same cell.
+        std::sort(neighbourhood.begin(), neighbourhood.end());
+        neighbourhood.erase(std::unique(neighbourhood.begin(), neighbourhood.end()), neighbourhood.end());
+
         match_lists_[i] = configMatchList(origin_index,
                                           neighbourhood,
                                           lattice_map);
-- 
2.43.0


From 1a2794a1f4bd5618fa9018e2c627049af41ea6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 09/48] fix: never read past the end of the match list when
 cutting out the geometry

---
 c++/src/hash.cpp    | 2 +-
 c++/src/matcher.cpp | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/c++/src/hash.cpp b/c++/src/hash.cpp
index e3a85b7..78fe6e4 100644
--- a/c++/src/hash.cpp
+++ b/c++/src/hash.cpp
@@ -131,7 +131,7 @@ uint64_t hashCustomRateInput(const int index,
 
     // Add the match types of the config match list to the data to hash.
     ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
-    while ( (*it1).distance <= cutoff && it1 != config_match_list.end())
+    while ( it1 != config_match_list.end() && (*it1).distance <= cutoff + 1.0e-5 )
     {
         for (int i = 0; i < (*it1).match_types.size(); ++i)
         {
diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index e802b97..80a84c8 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -546,7 +546,7 @@ double Matcher::updateSingleRate(const int index,
     const double cutoff = process.cutoff();
     ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
     int len = 0;
-    while ( (*it1).distance <= cutoff && it1 != config_match_list.end())
+    while ( it1 != config_match_list.end() && (*it1).distance <= cutoff + 1.0e-5 )
     {
         ++it1;
         ++len;
@@ -580,7 +580,9 @@ double Matcher::updateSingleRate(const int index,
     std::vector<TypeBucket> update(len, TypeBucket(occupations[0].size()));
 
     // Loop over the process match list and update the types_after vector.
-    for (size_t i = 0; i < process_match_list.size(); ++i)
+    // NOTE: Wildcards in the process match list can extend outside the geometry.
+    const size_t n_update = std::min(process_match_list.size(), distance);
+    for (size_t i = 0; i < n_update; ++i)
     {
         const TypeBucket & update_types = process_match_list[i].update_types;
 
-- 
2.43.0


From 133cba58ddc2dac575b6802e47d4644809559c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 10/48] fix: exact cell indices from the site index on lattices
 of any size

---
 c++/src/latticemap.cpp | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/c++/src/latticemap.cpp b/c++/src/latticemap.cpp
index 65d9abd..6949cd2 100644
--- a/c++/src/latticemap.cpp
+++ b/c++/src/latticemap.cpp
@@ -279,25 +279,11 @@ void LatticeMap::indexToCell(const int index,
                              int & cell_k) const
 {
     // Given an index, calculate the cell i,j,k.
-    const double eps   = 1.0e-9;
-    const int idx      = index / n_basis_ + 1;
-    const int factor_i = repetitions_[1] * repetitions_[2];
-    const int ii       = static_cast<int>((idx - eps) / factor_i);
-
-    const int ci       = ii * factor_i;
-    const int factor_j = repetitions_[2];
-    const int idx_j    = idx - ci;
-    const int jj       = static_cast<int>((idx_j - eps) / factor_j);
-
-    const int cij      = ci + jj * factor_j;
-    const int idx_k    = idx - cij;
-    const int kk       = static_cast<int>(idx_k - eps);
-
-    // Set the result.
-    cell_i = ii;
-    cell_j = jj;
-    cell_k = kk;
-
-    // DONE
+    // Integer arithmetics only, to be exact for any lattice size.
+    const int cell = index / n_basis_;
+
+    cell_k = cell % repetitions_[2];
+    cell_j = (cell / repetitions_[2]) % repetitions_[1];
+    cell_i = cell / (repetitions_[2] * repetitions_[1]);
 }
 
-- 
2.43.0


From eafcb61d3cf8016e76d164ee50a5781ae8b74bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 11/48] fix: reject malformed tuples in lists of bucket types

---
 python/src/KMCLib/Utilities/CheckUtilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index d471083..ca40d47 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -305,7 +305,7 @@ def checkAndNormaliseBucketEntry(t):
             if isinstance(tt, str):
                 normalised_type.append((1,tt))
             elif isinstance(tt, tuple):
-                if not len(tt) == 2 and isinstance(tt[0], int) and isinstance(tt[1], str):
+                if not len(tt) == 2 or not isinstance(tt[0], int) or not isinstance(tt[1], str):
                     raise Error("Bucket type given as a tuple must be of format (int, str).")
                 normalised_type.append(tt)
             else:
-- 
2.43.0


From 809d6e0b748b1d7c44caee9c30acb178128a3758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 12/48] fix: check the number of bucket types against the
 lattice

---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 5dce0ce..00e974d 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -209,6 +209,10 @@ class KMCConfiguration(object):
         if default_type is not None:
             raise Error("A default type can only be used in combination with the long types format\nwhen constructing a KMCConfiguration object.")
 
+        # Check the length.
+        if len(types) != self.__n_lattice_sites:
+            raise Error("The length of the 'types' parameter must match the coordinates.")
+
         # For each element, check that the foramt is any of the valid
         # "A" - single particle
         # (N,"A") - numbered single particle
-- 
2.43.0


From ce3abc8b03eae9c945920b2397cd53efe6492854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 13/48] fix: check the update information of bucket processes

---
 python/src/KMCLib/CoreComponents/KMCBucketProcess.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index 31911d5..1605079 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -12,6 +12,7 @@ import numpy
 from KMCLib.CoreComponents.KMCBaseProcess import KMCBaseProcess
 from KMCLib.CoreComponents.KMCLocalConfiguration import KMCLocalConfiguration
 from KMCLib.Utilities.CheckUtilities import checkAndNormaliseBucketEntry
+from KMCLib.Utilities.CheckUtilities import checkSequence
 from KMCLib.Exceptions.Error import Error
 from KMCLib.Backend import Backend
 
@@ -74,6 +75,10 @@ class KMCBucketProcess(KMCBaseProcess):
                     elif isinstance(ee, tuple):
                         all_types.append(ee[1])
 
+        # Including those only present in the update.
+        for u in self.__update:
+            all_types += [uu[1] for uu in u]
+
         # Remove doublets and store on the class.
         self._all_present_types = list(set(all_types))
 
@@ -96,7 +101,11 @@ class KMCBucketProcess(KMCBaseProcess):
         :param update_info: The update information to check.
         :returns: The checked update information.
         """
-        # FIXME
+        update_info = [checkAndNormaliseBucketEntry(u) for u in checkSequence(update_info, "The 'update' information to a KMCBucketProcess constructor must be given as a list.")]
+
+        if not len(update_info) == len(self.__minimum_match):
+            raise Error("The 'update' information to a KMCBucketProcess constructor must be of the same length as the coordinates.")
+
         return update_info
 
     def _update(self):
-- 
2.43.0


From 8fb0cbd845746647beed3a82862510b9bdfd9699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 14/48] fix: reject dump and analysis intervals of zero steps

---
 python/src/KMCLib/CoreComponents/KMCControlParameters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCControlParameters.py b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
index 0ca0e30..d9f9225 100644
--- a/python/src/KMCLib/CoreComponents/KMCControlParameters.py
+++ b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
@@ -82,10 +82,15 @@ class KMCControlParameters(object):
             self.__dump_interval = checkPositiveInteger(dump_interval,
                                                         1,
                                                         "dump_interval")
+            # An interval of zero steps makes no sense.
+            if self.__dump_interval == 0:
+                raise Error("The 'dump_interval' parameter must be greater than zero.")
 
         self.__analysis_interval = checkPositiveInteger(analysis_interval,
                                                         1,
                                                         "analysis_interval")
+        if self.__analysis_interval == 0:
+            raise Error("The 'analysis_interval' parameter must be greater than zero.")
 
         self.__time_seed = (seed is None)
         self.__seed = checkPositiveInteger(seed,
-- 
2.43.0


From 7f44a3107b121870f30d5f061a27e3dc01b93260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 15/48] fix: write lattice trajectories for systems with a
 single site

---
 python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
index 6614879..5fb8f09 100644
--- a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
@@ -153,7 +153,7 @@ class LatticeTrajectory(Trajectory):
                     indent = " "*14
                     row_length = len(types_str)
 
-                    if isinstance(types[:-1][0], str):
+                    if isinstance(types[0], str):
                         for t in types[:-1]:
                             row_length += len(t) + 2
                             types_str += "\"" + t + "\"" + ","
-- 
2.43.0


From 8ebd373023c786cdf1a1dd1574a62234edbd3eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 16/48] fix: call the setup function of the breaker plugins

---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 2a68eee..8d38d12 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -195,6 +195,12 @@ must be given as string."""
                      self.__cpp_timer.simulationTime(),
                      self.__configuration);
 
+        # Setup the breaker objects.
+        for b in breakers:
+            b.setup(0,
+                    self.__cpp_timer.simulationTime(),
+                    self.__configuration)
+
         # Get the needed parameters.
         n_steps   = control_parameters.numberOfSteps()
         n_dump    = control_parameters.dumpInterval()
-- 
2.43.0


From db46a0b1cd62af41de57a1e75607dba55cd484f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 17/48] fix: equidistant trajectories of runs that do not start
 at time zero

---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 8d38d12..8393225 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -172,7 +172,8 @@ must be given as string."""
             raise Error("No available processes. None of the processes defined as input match any position in the configuration. Change the initial configuration or processes to run KMC.")
 
         # Setup a trajectory object.
-        last_time = self.__cpp_timer.simulationTime()
+        start_time = self.__cpp_timer.simulationTime()
+        last_time = start_time
         if use_trajectory:
             if trajectory_type == 'lattice':
                 trajectory = LatticeTrajectory(trajectory_filename=trajectory_filename,
@@ -230,7 +231,7 @@ must be given as string."""
                 # Check if it is time to dump the previous step to the equidistant trajectory.
                 if ((dump_time is not None) and ((time_after-last_time) >= dump_time)):
                     time_step += 1
-                    sample_time = time_step * dump_time
+                    sample_time = start_time + time_step * dump_time
                     prettyPrint(" KMCLib: %14i steps executed. time: %20.10e"%(step-1, sample_time))
                     last_time = sample_time
 
-- 
2.43.0


From f5b5604060e6cab97c622cbf0d69d5536062c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 18/48] fix: let the rate cache distinguish environments of
 different geometry

---
 c++/src/hash.cpp    | 32 ++++++++++++++++++++++++++++++++
 c++/src/hash.h      | 14 ++++++++++++++
 c++/src/matcher.cpp |  4 ++--
 3 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/c++/src/hash.cpp b/c++/src/hash.cpp
index 78fe6e4..e969160 100644
--- a/c++/src/hash.cpp
+++ b/c++/src/hash.cpp
@@ -18,6 +18,7 @@
 #include "matchlist.h"
 #include "externals/md5.h"
 
+#include <cmath>
 #include <cstdio>
 #include <cstring>
 #include <cinttypes>
@@ -143,3 +144,34 @@ uint64_t hashCustomRateInput(const int index,
     // Hash and return.
     return hash64MD5xor(data_to_hash);
 }
+
+
+// -------------------------------------------------------------------------- //
+//
+uint64_t hashCustomRateEnvironment(const int index,
+                                   const Process & process,
+                                   const Configuration & configuration)
+{
+    // Start from the hash of the process number and the types.
+    const uint64_t types_hash = hashCustomRateInput(index, process, configuration);
+
+    std::vector<int> data_to_hash(2);
+    data_to_hash[0] = static_cast<int>(types_hash & 0xffffffff);
+    data_to_hash[1] = static_cast<int>(types_hash >> 32);
+
+    // Add the coordinates, rounded to get rid of numerical noise.
+    const double cutoff = process.cutoff();
+    const ConfigBucketMatchList & config_match_list = configuration.configMatchList(index);
+
+    ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
+    while ( it1 != config_match_list.end() && (*it1).distance <= cutoff + 1.0e-5 )
+    {
+        data_to_hash.push_back(static_cast<int>(std::floor((*it1).x * 1.0e5 + 0.5)));
+        data_to_hash.push_back(static_cast<int>(std::floor((*it1).y * 1.0e5 + 0.5)));
+        data_to_hash.push_back(static_cast<int>(std::floor((*it1).z * 1.0e5 + 0.5)));
+        ++it1;
+    }
+
+    // Hash and return.
+    return hash64MD5xor(data_to_hash);
+}
diff --git a/c++/src/hash.h b/c++/src/hash.h
index ad0b5da..502011a 100644
--- a/c++/src/hash.h
+++ b/c++/src/hash.h
@@ -83,5 +83,19 @@ uint64_t hashCustomRateInput(const int index,
                              const Configuration & configurartion);
 
 
+/*! \brief Function for generating a 64-bit hash from the types and the
+ *         geometry of the local environment sent to a custom rate calculator.
+ *         To be used when the same types can be found in different geometries,
+ *         at different basis sites or at the edges of a non-periodic lattice.
+ *  \param index         : The global site index.
+ *  \param process       : The process that takes place.
+ *  \param configuration : The global configuration of the system.
+ *  \returns: 64-bit hash value.
+ */
+uint64_t hashCustomRateEnvironment(const int index,
+                                   const Process & process,
+                                   const Configuration & configuration);
+
+
 #endif // __HASH__
 
diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index 80a84c8..c9ec9b4 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -107,7 +107,7 @@ void Matcher::calculateMatching(Interactions & interactions,
             // Calculate the key.
             const Process & process = (*interactions.processes()[add_tasks[i].process]);
             const int index   = add_tasks[i].index;
-            const ratekey key = hashCustomRateInput(index, process, configuration);
+            const ratekey key = hashCustomRateEnvironment(index, process, configuration);
 
             // Check if the key has a stored value.
             if (rate_table_.stored(key) != -1)
@@ -130,7 +130,7 @@ void Matcher::calculateMatching(Interactions & interactions,
             // Calculate the key.
             const Process & process = (*interactions.processes()[update_tasks[i].process]);
             const int index   = update_tasks[i].index;
-            const ratekey key = hashCustomRateInput(index, process, configuration);
+            const ratekey key = hashCustomRateEnvironment(index, process, configuration);
 
             // Check if the key has a stored value.
             if (rate_table_.stored(key) != -1)
-- 
2.43.0


From bba9f63cb569c06fc562ecd0ab67a6fcfaab707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 19/48] fix: sort local coordinates independently of numerical
 noise

---
 c++/src/matchlistentry.cpp | 134 +++++++++----------------------------
 1 file changed, 33 insertions(+), 101 deletions(-)

diff --git a/c++/src/matchlistentry.cpp b/c++/src/matchlistentry.cpp
index 2a42b0e..1364629 100644
--- a/c++/src/matchlistentry.cpp
+++ b/c++/src/matchlistentry.cpp
@@ -73,44 +73,39 @@ bool samePoint(const ProcessBucketMatchListEntry & m1,
 
 
 // -----------------------------------------------------------------------------
-//
-bool operator<(const MinimalMatchListEntry & m1,
-               const MinimalMatchListEntry & m2)
+/*! \brief Order with respect to distance and coordinate, where values that
+ *         differ by less than epsi__ are the same, as in samePoint above.
+ */
+static inline
+bool lessThan(const double d1, const double x1, const double y1, const double z1,
+              const double d2, const double x2, const double y2, const double z2)
 {
-    // Sort along distance, type and coordinate.
-    if (std::fabs(m2.distance - m1.distance) < epsi__)
+    // Sort wrt. distance.
+    if (std::fabs(d2 - d1) >= epsi__)
+    {
+        return (d1 < d2);
+    }
+    // If the distances are practically the same,
+    // check the coordinate.
+    if (std::fabs(x2 - x1) >= epsi__)
     {
-        // If the distances are practically the same,
-        // check the coordinate.
-        if ( m1.x < m2.x)
-        {
-            return true;
-        }
-        else if (m1.x > m2.x)
-        {
-            return false;
-            }
-        else
-        {
-            if ( m1.y < m2.y )
-            {
-                return true;
-            }
-                else if ( m1.y > m2.y )
-                {
-                    return false;
-                }
-                else
-                {
-                    return ( m1.z < m2.z );
-                }
-            }
+        return (x1 < x2);
     }
-    else
+    if (std::fabs(y2 - y1) >= epsi__)
     {
-            // Sort wrt. distance.
-        return (m1.distance < m2.distance);
+        return (y1 < y2);
     }
+    return (z1 < z2);
+}
+
+
+// -----------------------------------------------------------------------------
+//
+bool operator<(const MinimalMatchListEntry & m1,
+               const MinimalMatchListEntry & m2)
+{
+    return lessThan(m1.distance, m1.x, m1.y, m1.z,
+                    m2.distance, m2.x, m2.y, m2.z);
 }
 
 
@@ -119,79 +114,16 @@ bool operator<(const MinimalMatchListEntry & m1,
 bool operator<(const ProcessBucketMatchListEntry & m1,
                const MinimalMatchListEntry & m2)
 {
-    // Sort along distance, type and coordinate.
-    if (std::fabs(m2.distance - m1.distance) < epsi__)
-    {
-        // If the distances are practically the same,
-        // check the coordinate.
-        if ( m1.coordinate.x() < m2.x)
-        {
-            return true;
-        }
-        else if (m1.coordinate.x() > m2.x)
-        {
-            return false;
-            }
-        else
-        {
-            if ( m1.coordinate.y() < m2.y )
-            {
-                return true;
-            }
-            else if ( m1.coordinate.y() > m2.y )
-                {
-                    return false;
-                }
-                else
-                {
-                    return ( m1.coordinate.z() < m2.z );
-                }
-            }
-    }
-    else
-    {
-            // Sort wrt. distance.
-        return (m1.distance < m2.distance);
-    }
+    return lessThan(m1.distance, m1.coordinate.x(), m1.coordinate.y(), m1.coordinate.z(),
+                    m2.distance, m2.x, m2.y, m2.z);
 }
 
+
 // -----------------------------------------------------------------------------
 //
 bool operator<(const ProcessBucketMatchListEntry & m1,
                const ProcessBucketMatchListEntry & m2)
 {
-    // Sort along distance, type and coordinate.
-    if (std::fabs(m2.distance - m1.distance) < epsi__)
-    {
-        // If the distances are practically the same,
-        // check the coordinate.
-        if ( m1.coordinate.x() < m2.coordinate.x())
-        {
-            return true;
-        }
-        else if (m1.coordinate.x() > m2.coordinate.x())
-        {
-            return false;
-            }
-        else
-        {
-            if ( m1.coordinate.y() < m2.coordinate.y() )
-            {
-                return true;
-            }
-            else if ( m1.coordinate.y() > m2.coordinate.y() )
-                {
-                    return false;
-                }
-                else
-                {
-                    return ( m1.coordinate.z() < m2.coordinate.z() );
-                }
-            }
-    }
-    else
-    {
-            // Sort wrt. distance.
-        return (m1.distance < m2.distance);
-    }
+    return lessThan(m1.distance, m1.coordinate.x(), m1.coordinate.y(), m1.coordinate.z(),
+                    m2.distance, m2.coordinate.x(), m2.coordinate.y(), m2.coordinate.z());
 }
-- 
2.43.0


From 52182e46a67a34959f08f91a2cfed03084a263ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 20/48] fix: let copied interactions refer to their own
 processes

---
 c++/src/interactions.cpp | 27 +++++++++++++++++++++++++++
 c++/src/interactions.h   |  6 ++++++
 2 files changed, 33 insertions(+)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index b261532..e2fdb58 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -76,6 +76,33 @@ Interactions::Interactions(const std::vector<CustomRateProcess> & processes,
 }
 
 
+// -----------------------------------------------------------------------------
+//
+Interactions::Interactions(const Interactions & other) :
+    processes_(other.processes_),
+    custom_rate_processes_(other.custom_rate_processes_),
+    process_pointers_(other.process_pointers_.size(), NULL),
+    probability_table_(other.probability_table_),
+    implicit_wildcards_(other.implicit_wildcards_),
+    use_custom_rates_(other.use_custom_rates_),
+    rate_calculator_placeholder_(RateCalculator()),
+    rate_calculator_(other.use_custom_rates_ ? other.rate_calculator_ : rate_calculator_placeholder_)
+{
+    // Point the process pointers to the right places.
+    for (size_t i = 0; i < process_pointers_.size(); ++i)
+    {
+        if (use_custom_rates_)
+        {
+            process_pointers_[i] = &custom_rate_processes_[i];
+        }
+        else
+        {
+            process_pointers_[i] = &processes_[i];
+        }
+    }
+}
+
+
 // -----------------------------------------------------------------------------
 //
 int Interactions::maxRange() const
diff --git a/c++/src/interactions.h b/c++/src/interactions.h
index 8eacdf9..36ff0a3 100644
--- a/c++/src/interactions.h
+++ b/c++/src/interactions.h
@@ -49,6 +49,12 @@ public:
                  const bool implicit_wildcards,
                  const RateCalculator & rate_calculator);
 
+    /*! \brief Copy construct, with the process pointers of the copy refering to
+     *         the processes of the copy.
+     *  \param other: The interactions to copy.
+     */
+    Interactions(const Interactions & other);
+
     /*! \brief Get the max range of all processes.
      *  \return : The max range in shells.
      */
-- 
2.43.0


From ded8e5408c155f1385ccd122344e594b35338b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH 21/48] fix: use interactions and processes in models with
 different configurations

---
 python/src/KMCLib/CoreComponents/KMCInteractions.py       | 8 +++++++-
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py       | 5 +++++
 python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py | 5 ++++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCInteractions.py b/python/src/KMCLib/CoreComponents/KMCInteractions.py
index 6479c88..1ddb7c3 100644
--- a/python/src/KMCLib/CoreComponents/KMCInteractions.py
+++ b/python/src/KMCLib/CoreComponents/KMCInteractions.py
@@ -57,6 +57,7 @@ class KMCInteractions(object):
 
         # Set the backend to be generated at first query.
         self.__backend = None
+        self.__backend_input = None
 
         # Set the rate calculator.
         self.__rate_calculator = None
@@ -156,7 +157,10 @@ be a class (not instantiated) inheriting from the KMCRateCalculatorPlugin. """
 
         :returns: The interactions object in C++
         """
-        if self.__backend is None:
+        # The backend is only valid for the types and the configuration it was generated for.
+        backend_input = (dict(possible_types), n_basis, configuration)
+
+        if self.__backend is None or self.__backend_input != backend_input:
 
             # Check the possible_types against the types in the processes.
             for process_number, process in enumerate(self.__processes):
@@ -269,6 +273,8 @@ the KMCRateCalculatorPlugin class itself. """
                 self.__backend = Backend.Interactions(cpp_processes,
                                                       self.__implicit_wildcards)
 
+            self.__backend_input = backend_input
+
         # Return the stored backend.
         return self.__backend
 
diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 8393225..29b1cef 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -76,6 +76,11 @@ class KMCLatticeModel(object):
             cpp_interactions = self.__interactions._backend(self.__configuration.possibleTypes(),
                                                             cpp_lattice_map.nBasis(),
                                                             self.__configuration)
+
+            # Keep what the backend refers to, also if the interactions are used in another model.
+            self.__cpp_interactions = cpp_interactions
+            self.__rate_calculator  = self.__interactions.rateCalculator()
+
             # Construct a timer.
             self.__cpp_timer = Backend.SimulationTimer()
 
diff --git a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
index c138598..4019d1c 100644
--- a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
@@ -76,6 +76,7 @@ class KMCLocalConfiguration(object):
 
         # Set the backend to None, to generate it at first query.
         self.__backend = None
+        self.__backend_possible_types = None
 
     def coordinates(self):
         """
@@ -102,7 +103,9 @@ class KMCLocalConfiguration(object):
 
         :returns: The interactions object in C++
         """
-        if self.__backend is None:
+        # The type numbers stored in the backend are those of the possible types it was generated for.
+        if self.__backend is None or self.__backend_possible_types != possible_types:
+            self.__backend_possible_types = dict(possible_types)
 
             # Construct the c++ backend object.
             cpp_types = bucketListToStdVectorStdVectorString(self.__types)
-- 
2.43.0


From cd1c05e90e23da733d887178cd25282c5d21b1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:00 +0000
Subject: [PATCH 22/48] fix: keep the scratch list of cell indices with its
 lattice map

---
 c++/src/latticemap.cpp | 14 +++++---------
 c++/src/latticemap.h   |  2 ++
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/c++/src/latticemap.cpp b/c++/src/latticemap.cpp
index 6949cd2..a3dfa4c 100644
--- a/c++/src/latticemap.cpp
+++ b/c++/src/latticemap.cpp
@@ -31,10 +31,6 @@ struct CellIndex {
 };
 
 
-// Temporary storage for the indices form cell.
-static std::vector<int> tmp_cell_indices__;
-
-
 // -----------------------------------------------------------------------------
 //
 LatticeMap::LatticeMap(const int n_basis,
@@ -42,10 +38,10 @@ LatticeMap::LatticeMap(const int n_basis,
                        const std::vector<bool> periodic) :
     n_basis_(n_basis),
     repetitions_(repetitions),
-    periodic_(periodic)
+    periodic_(periodic),
+    tmp_cell_indices_(n_basis)
 {
-    // Resize the global data.
-    tmp_cell_indices__.resize(n_basis_);
+    // NOTHING HERE
 }
 
 
@@ -201,10 +197,10 @@ const std::vector<int> & LatticeMap::indicesFromCell(const int i,
 
     for (int l = 0; l < n_basis_; ++l)
     {
-        tmp_cell_indices__[l] = tmp3 + l;
+        tmp_cell_indices_[l] = tmp3 + l;
     }
 
-    return tmp_cell_indices__;
+    return tmp_cell_indices_;
 }
 
 
diff --git a/c++/src/latticemap.h b/c++/src/latticemap.h
index 655dda2..5d12058 100644
--- a/c++/src/latticemap.h
+++ b/c++/src/latticemap.h
@@ -155,6 +155,8 @@ private:
     std::vector<int> repetitions_;
     /// The periodicity in the a, b and c directions.
     std::vector<bool> periodic_;
+    /// Temporary storage for the indices from cell.
+    mutable std::vector<int> tmp_cell_indices_;
 };
 
 // -----------------------------------------------------------------------------
-- 
2.43.0


From 5ac45eba6bb05dcf070198578ebddf9d09cb49b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 23/48] fix: script the present types of a configuration, also
 of bucket types

---
 .../src/KMCLib/CoreComponents/KMCConfiguration.py  | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 00e974d..aa74413 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -16,6 +16,7 @@ from KMCLib.Utilities.ConversionUtilities import stringListToStdVectorStdVectorS
 from KMCLib.Utilities.ConversionUtilities import numpy2DArrayToStdVectorStdVectorDouble
 from KMCLib.Utilities.ConversionUtilities import stdVectorCoordinateToNumpy2DArray
 from KMCLib.Utilities.ConversionUtilities import bucketListToStdVectorStdVectorString
+from KMCLib.Utilities.ConversionUtilities import toShortBucketsFormat
 
 from KMCLib.Exceptions.Error import Error
 from KMCLib.Backend import Backend
@@ -351,14 +352,21 @@ class KMCConfiguration(object):
         # Get the lattice script.
         lattice_script = self.__lattice._script(variable_name="lattice")
 
+        # Get the present types.
+        types = self.types()
+        if self.__use_buckets:
+            type_strings = [str([(int(n), str(t)) for n,t in bucket]) for bucket in toShortBucketsFormat(types)]
+        else:
+            type_strings = ["'" + t + "'" for t in types]
+
         # Get the types string.
         types_string = "types = "
         indent = " "*9
         line = "["
-        nT = len(self.__types)
-        for i,t in enumerate(self.__types):
+        nT = len(type_strings)
+        for i,t in enumerate(type_strings):
             # Add the type.
-            line += "'" + t + "'"
+            line += t
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
-- 
2.43.0


From aaaac4138acb70e1dff2cac0be03bb945a9d0f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 24/48] fix: give bucket processes a script

---
 .../KMCLib/CoreComponents/KMCBucketProcess.py | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index 1605079..d71d3a2 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -132,4 +132,44 @@ class KMCBucketProcess(KMCBaseProcess):
 
         return self.__cpp_update
 
+    def _script(self, variable_name="process"):
+        """
+        Generate a script representation of an instance.
+
+        :param variable_name: A name to use as variable name for
+                              the KMCBucketProcess in the generated script.
+        :type variable_name: str
 
+        :returns: A script that can generate this process object.
+        """
+        def listString(name, entries):
+            # Write the list with one entry on each line.
+            indent = " "*(len(name) + 4)
+            return name + " = [" + (",\n" + indent).join(entries) + "]\n"
+
+        def bucketString(bucket):
+            return str([(int(n), str(t)) for n,t in bucket])
+
+        coordinates_string   = listString("coordinates",
+                                          ["[%15.6e,%15.6e,%15.6e]"%(c[0],c[1],c[2]) for c in self._coordinates])
+        minimum_match_string = listString("minimum_match",
+                                          [bucketString(m) for m in self.__minimum_match])
+        update_string        = listString("update",
+                                          [bucketString(u) for u in self.__update])
+        basis_sites_string   = "basis_sites = [" + ",".join(["%i"%(b) for b in self._basis_sites]) + "]\n"
+        rate_constant_string = "rate_constant = %15.6e\n"%(self._rate_constant)
+
+        # Get the script together.
+        process_string = variable_name + " = KMCBucketProcess(\n" + \
+            "    coordinates=coordinates,\n" + \
+            "    minimum_match=minimum_match,\n" + \
+            "    update=update,\n" + \
+            "    basis_sites=basis_sites,\n" + \
+            "    rate_constant=rate_constant)\n"
+
+        return coordinates_string + "\n" + \
+            minimum_match_string  + \
+            update_string         + \
+            basis_sites_string    + \
+            rate_constant_string  + "\n" + \
+            process_string + "\n"
-- 
2.43.0


From 47fee9b6dff221825362b8d88f3d8cc372530ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 25/48] fix: accept move vectors within the tolerance of the
 coordinates

Scripts write seven digits, so a process with move vectors between coordinates like 1/3 and 2/3 could not be read back.
---
 c++/src/process.cpp                            | 2 +-
 python/src/KMCLib/CoreComponents/KMCProcess.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/src/process.cpp b/c++/src/process.cpp
index c4ddef0..05dc950 100644
--- a/c++/src/process.cpp
+++ b/c++/src/process.cpp
@@ -86,7 +86,7 @@ Process::Process(const Configuration & first,
                     // If the difference is small enough we have a match.
                     const Coordinate diff = match_list_[j].coordinate - destination;
 
-                    if (diff.norm() < 1.0e-6)
+                    if (diff.norm() < 1.0e-5)
                     {
                         id_moves_.push_back(std::pair<int,int>(i,j));
                         break;
diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index ea8b8e8..c666171 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -153,7 +153,7 @@ class KMCProcess(KMCBaseProcess):
             # Find which index this corresponds to.
             subtracted = self._coordinates - new_coord
             reduced    = numpy.abs(sum(abs(subtracted.transpose())))
-            boolean    = [ rr < 1.0e-8 for rr in reduced ]
+            boolean    = [ rr < 1.0e-5 for rr in reduced ]
             new_index  = numpy.where(boolean)
             if len(new_index[0]) == 0:
                 raise Error("Each move_vector must move an atom to a valid lattice site.")
-- 
2.43.0


From a54169ce8f67c468c43e5baf7fc6b5879f7a974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 26/48] fix: normalise the spatial process statistics with the
 total time

---
 python/src/KMCLib/Analysis/ProcessStatistics.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/Analysis/ProcessStatistics.py b/python/src/KMCLib/Analysis/ProcessStatistics.py
index 3fd3f67..cf59ed7 100644
--- a/python/src/KMCLib/Analysis/ProcessStatistics.py
+++ b/python/src/KMCLib/Analysis/ProcessStatistics.py
@@ -59,6 +59,8 @@ class ProcessStatistics(KMCAnalysisPlugin):
         """
         # Set the initial time.
         self.__last_time = time
+        self.__start_time = time
+        self.__end_time = time
 
         # Allocate space for the spatially resolved information.
         if self.__spatially_resolved:
@@ -68,6 +70,9 @@ class ProcessStatistics(KMCAnalysisPlugin):
         """
         Recieves the register step call from the main loop.
         """
+        # Keep the time for the normalization of the spatial data.
+        self.__end_time = time
+
         # Check if the time_intervall has passed since last block finalization.
         if (time - self.__last_time) > self.__time_interval:
 
@@ -88,8 +93,10 @@ class ProcessStatistics(KMCAnalysisPlugin):
         Recieves the finalize call after the MC loop.
         """
         if self.__spatially_resolved:
-            # Normalize the spatial data with time.
-            self.__spatial_data /= self.__last_time
+            # Normalize the spatial data with the total time.
+            total_time = self.__end_time - self.__start_time
+            if total_time > 0.0:
+                self.__spatial_data /= total_time
 
     def printResults(self, stream=sys.stdout):
         """
-- 
2.43.0


From 0190090c28750c5b46166ed61dd50d6283ba07e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 27/48] fix: refuse a history or histogram without room in the
 displacement analysis

With a history of no steps the interpreter was aborted, with one step no results could be printed.
---
 python/src/KMCLib/Analysis/OnTheFlyMSD.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/KMCLib/Analysis/OnTheFlyMSD.py b/python/src/KMCLib/Analysis/OnTheFlyMSD.py
index d5a8df2..5c4d689 100644
--- a/python/src/KMCLib/Analysis/OnTheFlyMSD.py
+++ b/python/src/KMCLib/Analysis/OnTheFlyMSD.py
@@ -51,6 +51,12 @@ class OnTheFlyMSD(KMCAnalysisPlugin):
         # Check and set the number of bins.
         self.__n_bins = checkPositiveInteger(n_bins, 100, "n_bins")
 
+        # A displacement takes two points and a bin to go to.
+        if self.__history_steps < 2:
+            raise Error("The 'history_steps' parameter must be at least 2.")
+        if self.__n_bins < 1:
+            raise Error("The 'n_bins' parameter must be at least 1.")
+
         # Check and set the time maximum.
         self.__t_max   = checkPositiveFloat(t_max, 100.0, "t_max")
 
-- 
2.43.0


From 477eaebf4f5d3191ddd103025f5ddddbfd568f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:05 +0000
Subject: [PATCH 28/48] fix: keep the total rates of the processes free from
 the noise of removed sites

After removing a site with a much higher rate than the others the running
sum kept the rounding error of the high rate, which could be larger than
the true total rate, negative or zero.
---
 c++/src/customrateprocess.cpp |  8 +++++++-
 c++/src/process.cpp           | 12 ++++++++++--
 c++/src/process.h             | 10 ++++++++++
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/c++/src/customrateprocess.cpp b/c++/src/customrateprocess.cpp
index affeb3d..96deefa 100644
--- a/c++/src/customrateprocess.cpp
+++ b/c++/src/customrateprocess.cpp
@@ -56,6 +56,7 @@ void CustomRateProcess::addSite(const int index,
     site_multiplicity_.push_back(multiplicity);
     site_rates_.push_back(rate);
     total_rate_ += multiplicity * rate;
+    largest_total_rate_ = std::max(largest_total_rate_, total_rate_);
 }
 
 
@@ -99,9 +100,14 @@ void CustomRateProcess::removeSite(const int index)
     site_multiplicity_.pop_back();
 
     // Do not let numerical noise build up.
-    if (sites_.empty())
+    if (sites_.empty() || totalRateNoisy())
     {
         total_rate_ = 0.0;
+        for (size_t i = 0; i < site_multiplicity_.size(); ++i)
+        {
+            total_rate_ += site_multiplicity_[i] * site_rates_[i];
+        }
+        largest_total_rate_ = total_rate_;
     }
 
 }
diff --git a/c++/src/process.cpp b/c++/src/process.cpp
index 05dc950..0885668 100644
--- a/c++/src/process.cpp
+++ b/c++/src/process.cpp
@@ -36,7 +36,8 @@ Process::Process(const Configuration & first,
     affected_indices_(0),
     basis_sites_(basis_sites),
     id_moves_(0),
-    total_rate_(0.0)
+    total_rate_(0.0),
+    largest_total_rate_(0.0)
 {
     // Determine if this is a bucket process by looking at the update info
     // on the second configuration.
@@ -107,6 +108,7 @@ void Process::addSite(const int index,
     sites_.push_back(index);
     site_multiplicity_.push_back(multiplicity);
     total_rate_ += multiplicity * rate_;
+    largest_total_rate_ = std::max(largest_total_rate_, total_rate_);
 }
 
 
@@ -134,9 +136,14 @@ void Process::removeSite(const int index)
     site_multiplicity_.pop_back();
 
     // Do not let numerical noise build up.
-    if (sites_.empty())
+    if (sites_.empty() || totalRateNoisy())
     {
         total_rate_ = 0.0;
+        for (size_t i = 0; i < site_multiplicity_.size(); ++i)
+        {
+            total_rate_ += site_multiplicity_[i] * rate_;
+        }
+        largest_total_rate_ = total_rate_;
     }
 
 }
@@ -150,6 +157,7 @@ void Process::clearSites()
     site_multiplicity_.clear();
     site_rates_.clear();
     total_rate_ = 0.0;
+    largest_total_rate_ = 0.0;
 }
 
 
diff --git a/c++/src/process.h b/c++/src/process.h
index 03823c3..3599361 100644
--- a/c++/src/process.h
+++ b/c++/src/process.h
@@ -228,6 +228,16 @@ protected:
     /// The total available rate for this process.
     double total_rate_;
 
+    /// The largest total rate since the sum over the sites was last calculated.
+    double largest_total_rate_;
+
+    /*! \brief Check if the accumulated total rate is so small compared to what
+     *         it has been that the numerical noise from the removed sites matters,
+     *         and that the sum over the sites must be calculated anew.
+     *  \return : True if the total rate should be calculated from the sites.
+     */
+    bool totalRateNoisy() const { return total_rate_ < 1.0e-3 * largest_total_rate_; }
+
 private:
 
 };
-- 
2.43.0


From ae9a7d00c65a5cf3b49e846ba868a4bc3f252c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 29/48] fix: refuse custom rates that are negative or not
 finite

Such a rate returned from the rate calculator led to a crash in the selection of the process.
---
 .../KMCRateCalculatorPlugin.py                | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/PluginInterfaces/KMCRateCalculatorPlugin.py b/python/src/KMCLib/PluginInterfaces/KMCRateCalculatorPlugin.py
index 410a8b1..4c8e53f 100644
--- a/python/src/KMCLib/PluginInterfaces/KMCRateCalculatorPlugin.py
+++ b/python/src/KMCLib/PluginInterfaces/KMCRateCalculatorPlugin.py
@@ -61,12 +61,13 @@ class KMCRateCalculatorPlugin(Backend.RateCalculator):
 
         # Call and return the custom rate.
         global_coordinate = (global_x, global_y, global_z)
-        return self.rate(numpy.array(cpp_coords).reshape(coords_len,3),
+        rate = self.rate(numpy.array(cpp_coords).reshape(coords_len,3),
                          stdVectorTypeBucketToPython(occupations, types_map),
                          stdVectorTypeBucketToPython(occupations_after, types_map),
                          rate_constant,
                          process_number,
                          global_coordinate)
+        return self.__checkRate(rate, process_number)
 
     def backendRateCallback(self,
                             cpp_coords,
@@ -86,12 +87,29 @@ class KMCRateCalculatorPlugin(Backend.RateCalculator):
         # Call and return the custom rate.
         # PERFORMME: Consider creating the numpy array in C++ if possible.
         global_coordinate = (global_x, global_y, global_z)
-        return self.rate(numpy.array(cpp_coords).reshape(coords_len,3),
+        rate = self.rate(numpy.array(cpp_coords).reshape(coords_len,3),
                          types_before,
                          types_after,
                          rate_constant,
                          process_number,
                          global_coordinate)
+        return self.__checkRate(rate, process_number)
+
+    def __checkRate(self, rate, process_number):
+        """ """
+        """
+        Private helper function to check a custom rate before it is used.
+
+        :param rate: The rate as returned by the custom rate function.
+        :param process_number: The process id number.
+
+        :returns: The checked rate.
+        """
+        # Note that this form of the test is False for NaN.
+        if not (0.0 <= rate < float("inf")):
+            raise Error("The custom rate of process %i must be a finite non-negative number, but it is %s."%(process_number, rate))
+
+        return rate
 
     def initialize(self):
         """
-- 
2.43.0


From af02dc1863ce1dd72733997b0659f5cd8f471854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 30/48] fix: stop when the total rate is zero

With available sites but only zero rates the run crashed instead of
raising the error for no available processes.
---
 .../src/KMCLib/CoreComponents/KMCLatticeModel.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 29b1cef..0a529d5 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -173,7 +173,7 @@ must be given as string."""
             self.__printMatchInfo(cpp_model)
 
         # Check that we have at least one available process to run the KMC simulation.
-        if cpp_model.interactions().totalAvailableSites() == 0:
+        if not self.__canTakeStep(cpp_model):
             raise Error("No available processes. None of the processes defined as input match any position in the configuration. Change the initial configuration or processes to run KMC.")
 
         # Setup a trajectory object.
@@ -224,8 +224,7 @@ must be given as string."""
                 step += 1
 
                 # Check if it is possible to take a step.
-                nP = cpp_model.interactions().totalAvailableSites()
-                if nP == 0:
+                if not self.__canTakeStep(cpp_model):
                     raise Error("No more available processes.")
 
                 # Take a step.
@@ -327,6 +326,17 @@ must be given as string."""
         return configuration_script + interactions_script + \
             comment_string + lattice_model_string
 
+    def __canTakeStep(self, cpp_model):
+        """ """
+        """
+        Private helper to determine if there is any process to perform.
+
+        :param cpp_model: The C++ lattice model object.
+        :returns: True if there is an available process with a rate larger than zero.
+        """
+        interactions = cpp_model.interactions()
+        return interactions.totalAvailableSites() > 0 and interactions.totalRate() > 0.0
+
     def __printMatchInfo(self, cpp_model):
         """ """
         """
-- 
2.43.0


From 0c64dbea137164240609b2a99d0462fd7fddd045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 31/48] fix: accept only finite numbers for positive float
 parameters

An infinite or NaN rate constant was accepted and crashed the run.
---
 python/src/KMCLib/Utilities/CheckUtilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index ca40d47..32e1b59 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -280,8 +280,8 @@ def checkPositiveFloat(parameter, default_parameter, parameter_name):
     if not isinstance(parameter, float):
         raise Error(msg)
 
-    # Check value.
-    if parameter < 0.0:
+    # Check value. Note that infinity and NaN are not valid numbers.
+    if not (0.0 <= parameter < float("inf")):
         raise Error(msg)
 
     # Checked.
-- 
2.43.0


From 1ec1d200bc8a21b2bd560b6751806f7c3f3d1451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 32/48] fix: refuse bucket processes that remove particles they
 do not require

Performing such a process left a negative number of particles at the site. Also
report a minimum match that is not a list.
---
 python/src/KMCLib/CoreComponents/KMCBucketProcess.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index d71d3a2..4d8dd95 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -52,7 +52,7 @@ class KMCBucketProcess(KMCBaseProcess):
         super(KMCBucketProcess, self).__init__(coordinates, basis_sites, rate_constant)
 
         # Check the minimum match.
-        self.__minimum_match = [checkAndNormaliseBucketEntry(m) for m in minimum_match]
+        self.__minimum_match = [checkAndNormaliseBucketEntry(m) for m in checkSequence(minimum_match, "The 'minimum_match' information to a KMCBucketProcess constructor must be given as a list.")]
 
         if not len(self.__minimum_match) == len(coordinates):
             raise Error("The types 'match' information to a KMCBucketProcess constructor must be of the same length as the coordinates.")
@@ -106,6 +106,13 @@ class KMCBucketProcess(KMCBaseProcess):
         if not len(update_info) == len(self.__minimum_match):
             raise Error("The 'update' information to a KMCBucketProcess constructor must be of the same length as the coordinates.")
 
+        # Only particles that the minimum match guarantees to be there can be removed.
+        for match, update in zip(self.__minimum_match, update_info):
+            present = dict([(t,n) for n,t in match])
+            for n,t in update:
+                if t != "*" and n < 0 and present.get(t, 0) + n < 0:
+                    raise Error("The 'update' information to a KMCBucketProcess constructor removes more particles of type '%s' than required by the 'minimum_match'."%(t))
+
         return update_info
 
     def _update(self):
-- 
2.43.0


From ae292c859fe8097521e5d1da45a423cdda347aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 33/48] fix: refuse negative numbers of particles

---
 .../KMCLib/CoreComponents/KMCBucketProcess.py  |  3 ++-
 .../KMCLib/CoreComponents/KMCConfiguration.py  |  4 ++--
 .../CoreComponents/KMCLocalConfiguration.py    |  4 ++--
 python/src/KMCLib/Utilities/CheckUtilities.py  | 18 ++++++++++++++++++
 4 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index 4d8dd95..a1f9ea5 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -12,6 +12,7 @@ import numpy
 from KMCLib.CoreComponents.KMCBaseProcess import KMCBaseProcess
 from KMCLib.CoreComponents.KMCLocalConfiguration import KMCLocalConfiguration
 from KMCLib.Utilities.CheckUtilities import checkAndNormaliseBucketEntry
+from KMCLib.Utilities.CheckUtilities import checkAndNormaliseBucketTypes
 from KMCLib.Utilities.CheckUtilities import checkSequence
 from KMCLib.Exceptions.Error import Error
 from KMCLib.Backend import Backend
@@ -52,7 +53,7 @@ class KMCBucketProcess(KMCBaseProcess):
         super(KMCBucketProcess, self).__init__(coordinates, basis_sites, rate_constant)
 
         # Check the minimum match.
-        self.__minimum_match = [checkAndNormaliseBucketEntry(m) for m in checkSequence(minimum_match, "The 'minimum_match' information to a KMCBucketProcess constructor must be given as a list.")]
+        self.__minimum_match = checkAndNormaliseBucketTypes(checkSequence(minimum_match, "The 'minimum_match' information to a KMCBucketProcess constructor must be given as a list."))
 
         if not len(self.__minimum_match) == len(coordinates):
             raise Error("The types 'match' information to a KMCBucketProcess constructor must be of the same length as the coordinates.")
diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index aa74413..1163064 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -11,7 +11,7 @@ import numpy
 
 from KMCLib.CoreComponents.KMCLattice import KMCLattice
 from KMCLib.Utilities.CheckUtilities import checkTypes
-from KMCLib.Utilities.CheckUtilities import checkAndNormaliseBucketEntry
+from KMCLib.Utilities.CheckUtilities import checkAndNormaliseBucketTypes
 from KMCLib.Utilities.ConversionUtilities import stringListToStdVectorStdVectorString
 from KMCLib.Utilities.ConversionUtilities import numpy2DArrayToStdVectorStdVectorDouble
 from KMCLib.Utilities.ConversionUtilities import stdVectorCoordinateToNumpy2DArray
@@ -218,7 +218,7 @@ class KMCConfiguration(object):
         # "A" - single particle
         # (N,"A") - numbered single particle
         # ["A", (N1,"B")] - a list with a combination of the other two.
-        return [checkAndNormaliseBucketEntry(t) for t in types]
+        return checkAndNormaliseBucketTypes(types)
 
     def types(self):
         """
diff --git a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
index 4019d1c..516d35b 100644
--- a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
@@ -13,7 +13,7 @@ import numpy
 from KMCLib.Utilities.CheckUtilities import checkCoordinateList
 from KMCLib.Utilities.CheckUtilities import checkIndexWithinBounds
 from KMCLib.Utilities.CheckUtilities import checkTypes
-from KMCLib.Utilities.CheckUtilities import checkAndNormaliseBucketEntry
+from KMCLib.Utilities.CheckUtilities import checkAndNormaliseBucketTypes
 from KMCLib.Utilities.ConversionUtilities import stringListToStdVectorStdVectorString
 from KMCLib.Utilities.CoordinateUtilities import centerCoordinates
 from KMCLib.Utilities.ConversionUtilities import numpy2DArrayToStdVectorStdVectorDouble
@@ -72,7 +72,7 @@ class KMCLocalConfiguration(object):
         if len(types) != len(coordinates):
             raise Error("The length of the types must match the coordinates.")
 
-        self.__types = [checkAndNormaliseBucketEntry(t) for t in types]
+        self.__types = checkAndNormaliseBucketTypes(types)
 
         # Set the backend to None, to generate it at first query.
         self.__backend = None
diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index 32e1b59..6a2d420 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -346,3 +346,21 @@ def checkAndNormaliseBucketEntry(t):
     else:
         # Raise an error if the format was incorrnect.
         raise Error("Each bucket format type entry must be (a list of) a tupe(s) of format (int,str) or string(s).")
+
+
+def checkAndNormaliseBucketTypes(types):
+    """
+    Check that each entry in a list of types is on a valid bucket format and
+    that no number of particles is negative.
+
+    :param types: The list of types to check.
+    :return: The list of normalized [(N,"A")] formatted types.
+    """
+    normalised = [checkAndNormaliseBucketEntry(t) for t in types]
+
+    for bucket in normalised:
+        for n, dummy in bucket:
+            if n < 0:
+                raise Error("The number of particles of a type at a lattice site can not be negative.")
+
+    return normalised
-- 
2.43.0


From 9ab2796c3312f2397163902d2c4520e3730e161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 34/48] fix: refuse move vectors with an index outside the
 local coordinates

Also refuse tuples of the wrong length, and tuples of only an index.
---
 python/src/KMCLib/CoreComponents/KMCProcess.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index c666171..7434f09 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -10,6 +10,7 @@
 import numpy
 
 from KMCLib.Utilities.CoordinateUtilities import sortCoordinatesDistance
+from KMCLib.Utilities.CheckUtilities import checkIndexWithinBounds
 from KMCLib.Utilities.CheckUtilities import checkTypes
 from KMCLib.Utilities.CheckUtilities import checkSequence
 from KMCLib.Utilities.CheckUtilities import checkSequenceOfFloats
@@ -205,8 +206,12 @@ coordinates defining where the moved index goes."""
         for t in move_vectors:
             if not isinstance(t, tuple):
                 raise Error(msg)
+            elif len(t) != 2:
+                raise Error(msg)
             elif not isinstance(t[0], int):
                 raise Error(msg)
+            # The index must be one in the list of coordinates.
+            checkIndexWithinBounds(t[0], self._coordinates, msg)
             # Check the vector.
             checkSequenceOfFloats(t[1], msg)
             if len(t[1]) != 3:
-- 
2.43.0


From 53cb406de6c54de078c6fa4c7c6a50d00dd4fbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 35/48] fix: refuse classes that are not rate calculators
 before using them

---
 python/src/KMCLib/CoreComponents/KMCInteractions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCInteractions.py b/python/src/KMCLib/CoreComponents/KMCInteractions.py
index 1ddb7c3..90f7a85 100644
--- a/python/src/KMCLib/CoreComponents/KMCInteractions.py
+++ b/python/src/KMCLib/CoreComponents/KMCInteractions.py
@@ -173,6 +173,12 @@ be a class (not instantiated) inheriting from the KMCRateCalculatorPlugin. """
 
             if self.__rate_calculator_class is not None:
 
+                # A class of another kind can not be instantiated as a rate calculator.
+                if not self.__builtin_custom and not issubclass(self.__rate_calculator_class, KMCRateCalculatorPlugin):
+                    raise Error("""
+The 'rate_calculator' given to the KMCInteractions class must
+inherit from the KMCRateCalculatorPlugin. """)
+
                 # Instantiate the rate calculator.
                 if self.__builtin_custom == False:
                     rate_calculator = self.__rate_calculator_class(configuration)
@@ -180,12 +186,7 @@ be a class (not instantiated) inheriting from the KMCRateCalculatorPlugin. """
                     rate_calculator = self.__rate_calculator_class(configuration._backend())
 
                 if self.__builtin_custom == False:
-                    if not isinstance(rate_calculator, KMCRateCalculatorPlugin):
-                        msg = """
-The 'rate_calculator' given to the KMCInteractions class must
-inherit from the KMCRateCalculatorPlugin. """
-                        raise Error(msg)
-                    elif rate_calculator.__class__ == KMCRateCalculatorPlugin(configuration).__class__:
+                    if rate_calculator.__class__ == KMCRateCalculatorPlugin(configuration).__class__:
                         msg = """
 The 'rate_calculator' given to the KMCInteractions class must
 inherit from the KMCRateCalculatorPlugin class. It may not be
-- 
2.43.0


From 05b48369d018d793c30b43e2e51c7684434b2b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 36/48] fix: forget a previously set builtin rate calculator

---
 python/src/KMCLib/CoreComponents/KMCInteractions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCInteractions.py b/python/src/KMCLib/CoreComponents/KMCInteractions.py
index 90f7a85..2fdc3c4 100644
--- a/python/src/KMCLib/CoreComponents/KMCInteractions.py
+++ b/python/src/KMCLib/CoreComponents/KMCInteractions.py
@@ -83,6 +83,9 @@ class KMCInteractions(object):
                                    the rates specified for each process will be used unmodified.
         """
 
+        # Any previously set calculator is replaced.
+        self.__builtin_custom = False
+
         # If the rate calculator given is a string we should use one of the
         # builtin custom calculators.
         if isinstance(rate_calculator, str):
-- 
2.43.0


From 8bf6515a4c6881226c69987c78c8ed090bb73829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 37/48] fix: refuse coordinates and cell vectors that are not
 finite

---
 python/src/KMCLib/Utilities/CheckUtilities.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index 6a2d420..b529075 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -70,7 +70,8 @@ def checkCellVectors(cell_vectors):
     # Check for linear dependencies.
     cell_T = numpy.transpose(cell_vectors)
     cell_determinant = numpy.linalg.det(cell_T)
-    if cell_determinant < 0.00001:
+    # Note that this form of the test is False for NaN.
+    if not (cell_determinant >= 0.00001):
         raise Error("The unit cell vectors are linearly dependent with determinant = %f."%(cell_determinant))
 
     # Done checking.
@@ -108,6 +109,10 @@ def checkCoordinateList(coordinates, varname="coordinates"):
         if not all([isinstance(c,float) for c in coord]):
             raise Error("All '%s' entries must be given as floating point numbers."%(varname))
 
+        # Infinity and NaN are no coordinates.
+        if not numpy.all(numpy.isfinite(coord)):
+            raise Error("All '%s' entries must be finite numbers."%(varname))
+
     # Convert to a numpy array and return.
     return numpy.array(coordinates)
 
-- 
2.43.0


From 34bf8a34bb7f6484d0e8057920178e9d39faa6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 38/48] fix: report too long tuples in the long types format

---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 1163064..4452e04 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -138,7 +138,7 @@ class KMCConfiguration(object):
             return "short"
 
         # Check all elements to see if we have the long format.
-        elif all([isinstance(t, tuple) for t in types]) and all([isinstance(tt, (int, int, int, int, str)[i]) for i,tt in enumerate(types[0])]):
+        elif all([isinstance(t, tuple) for t in types]) and all([isinstance(tt, t) for tt,t in zip(types[0], (int, int, int, int, str))]):
             return "long"
 
         # No other option left but to assume the buckets format.
-- 
2.43.0


From faad70e01e691fcd2ca14c23075907670b0dad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 39/48] fix: use the same device random numbers on all MPI
 processes

---
 c++/src/mpiroutines.cpp | 25 +++++++++++++++++++++++++
 c++/src/mpiroutines.h   |  8 ++++++++
 c++/src/random.cpp      |  8 +++++++-
 3 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/c++/src/mpiroutines.cpp b/c++/src/mpiroutines.cpp
index 66dec7a..43a75d0 100644
--- a/c++/src/mpiroutines.cpp
+++ b/c++/src/mpiroutines.cpp
@@ -39,6 +39,31 @@ void distributeToAll(int & data,
 }
 
 
+// -------------------------------------------------------------------------- //
+//
+void distributeToAll(double & data,
+                     const MPI_Comm & comm)
+{
+#if RUNMPI == true
+
+    // Only one number is sent.
+    const int size = 1;
+
+    // This is master communicating.
+    const int root = 0;
+
+    // Send and recieve.
+    MPI_Bcast(&data,         // The send and recieve buffer.
+              size,          // The number of elements to communicate.
+              MPI_DOUBLE,    // The type of data.
+              root,          // The sender (master).
+              comm);         // The communicator we use.
+
+    // Done.
+#endif
+}
+
+
 // -------------------------------------------------------------------------- //
 //
 void sumOverProcesses(int & data,
diff --git a/c++/src/mpiroutines.h b/c++/src/mpiroutines.h
index 20d57f2..1fc1340 100644
--- a/c++/src/mpiroutines.h
+++ b/c++/src/mpiroutines.h
@@ -36,6 +36,14 @@ void distributeToAll(int & data,
                      const MPI_Comm & comm=MPI_COMM_WORLD);
 
 
+/*! \brief Distribute and double from master to all other ranks.
+ *  \param data : The data to distrubite from master to all others.
+ *  \param comm : The communicator to use.
+ */
+void distributeToAll(double & data,
+                     const MPI_Comm & comm=MPI_COMM_WORLD);
+
+
 /*! \brief Sum the data over all processors.
  *  \param data : The data to sum.
  *  \param comm : The communicator to use.
diff --git a/c++/src/random.cpp b/c++/src/random.cpp
index cfa8ecd..f097fd7 100644
--- a/c++/src/random.cpp
+++ b/c++/src/random.cpp
@@ -146,7 +146,13 @@ double randomDouble01()
 
 #ifdef __DEVICE__
     case DEVICE:
-        return std::generate_canonical<double, 32>(rng_device__);
+    {
+        // The devices of different processes are not synchronised. Make sure
+        // all processes use the same number.
+        double rnd = std::generate_canonical<double, 32>(rng_device__);
+        distributeToAll(rnd);
+        return rnd;
+    }
 #endif // __DEVICE__
 
     default:
-- 
2.43.0


From 4385d8c39ade3a0bdcb9319495ca8afcec016f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 40/48] fix: let the master decide when all MPI processes flush
 the trajectory

---
 c++/src/mpicommons.cpp                               | 11 +++++++++++
 c++/src/mpicommons.h                                 |  6 ++++++
 python/src/KMCLib/Utilities/Trajectory/Trajectory.py |  9 +++++++--
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/c++/src/mpicommons.cpp b/c++/src/mpicommons.cpp
index 2649cf5..a2f2675 100644
--- a/c++/src/mpicommons.cpp
+++ b/c++/src/mpicommons.cpp
@@ -12,6 +12,7 @@
 
 
 #include "mpicommons.h"
+#include "mpiroutines.h"
 
 bool inited__    = false;
 bool finalized__ = false;
@@ -93,3 +94,13 @@ void MPICommons::barrier(const MPI_Comm comm)
     MPI_Barrier( comm );
 #endif
 }
+
+
+// -----------------------------------------------------------------------------
+//
+bool MPICommons::masterDecision(const bool decision, const MPI_Comm comm)
+{
+    int value = decision ? 1 : 0;
+    distributeToAll(value, comm);
+    return (value == 1);
+}
diff --git a/c++/src/mpicommons.h b/c++/src/mpicommons.h
index c6148ca..d617d95 100644
--- a/c++/src/mpicommons.h
+++ b/c++/src/mpicommons.h
@@ -49,6 +49,12 @@ struct MPICommons {
      */
     static bool isMaster(const MPI_Comm comm=MPI_COMM_WORLD) { return (myRank(comm) == 0); }
 
+    /*! \brief Let the master process take a decision for all processes.
+     *  \param decision: The decision of the calling process.
+     *  \param comm: The communicator to use.
+     *  \return: The decision of the master process, on all processes.
+     */
+    static bool masterDecision(const bool decision, const MPI_Comm comm=MPI_COMM_WORLD);
 
 
 };
diff --git a/python/src/KMCLib/Utilities/Trajectory/Trajectory.py b/python/src/KMCLib/Utilities/Trajectory/Trajectory.py
index 2bfc917..8241761 100644
--- a/python/src/KMCLib/Utilities/Trajectory/Trajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/Trajectory.py
@@ -9,6 +9,8 @@
 
 import time
 
+from KMCLib.Backend.Backend import MPICommons
+
 
 class Trajectory(object):
     """
@@ -78,8 +80,11 @@ class Trajectory(object):
 
         # Write if the buffer is to large of if enough time has passed.
         buffer_size = self._bufferSize()
-        if (buffer_size > self.__max_buffer_size) or \
-                ((time.time() - self.__time_last_dump) > self.__max_buffer_time):
+        flush = (buffer_size > self.__max_buffer_size) or \
+            ((time.time() - self.__time_last_dump) > self.__max_buffer_time)
+
+        # The clocks of the processes can differ, and all must flush together.
+        if MPICommons.masterDecision(flush):
             self.flush()
 
             # Update the time.
-- 
2.43.0


From 6327ca8ee2fea054874ff78976ab7e8dd342db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 41/48] fix: keep moves valid where a process reaches out of
 the lattice

---
 c++/src/interactions.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index e2fdb58..5887674 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -212,7 +212,8 @@ void Interactions::updateProcessMatchLists(const Configuration & configuration,
         // Insert the wildcards and update the indexing.
         int old_index = 0;
         int new_index = 0;
-        std::vector<int> index_mapping(config_matchlist.size());
+        const int n_entries = static_cast<int>(process_matchlist.size());
+        std::vector<int> index_mapping(n_entries);
 
         for ( ; it1 != process_matchlist.end() && it2 != config_matchlist.end(); ++it1, ++it2 )
         {
@@ -238,8 +239,14 @@ void Interactions::updateProcessMatchLists(const Configuration & configuration,
            }
         }
 
+        // Entries that have no counterpart around the central site are kept
+        // as they are, after what was matched.
+        for ( ; old_index < n_entries; ++old_index, ++new_index )
+        {
+            index_mapping[old_index] = new_index;
+        }
+
         // With this mapping information we can update the process id moves.
-        index_mapping.resize(old_index);
         std::vector<std::pair<int,int> > & id_moves = p.idMoves();
         for (size_t j = 0; j < id_moves.size(); ++j)
         {
-- 
2.43.0


From 8a9e7c4296141e78a4b9ebac11b575b18b167948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 42/48] fix: initialise the move flag of wildcard entries

---
 c++/src/matchlistentry.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/src/matchlistentry.h b/c++/src/matchlistentry.h
index 807f4f3..8f32e61 100644
--- a/c++/src/matchlistentry.h
+++ b/c++/src/matchlistentry.h
@@ -145,6 +145,7 @@ public:
      */
     void initWildcard(const ConfigBucketMatchListEntry & c)
     {
+        has_move_coordinate = false;
         index = -1;
         distance = c.distance;
         coordinate = Coordinate(c.x, c.y, c.z);
-- 
2.43.0


From d76386b5c0df27c47437df93bfb9c1fc049bb829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 43/48] fix: refuse move vectors that move two atoms to the
 same place or leave a place empty

---
 python/src/KMCLib/CoreComponents/KMCProcess.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index 7434f09..cb1cffb 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -147,6 +147,7 @@ class KMCProcess(KMCBaseProcess):
         # Try to make the move with the move vectors and check that
         # we end up in the elements after list.
         moved_elements = [] + self._elements_before
+        new_indices = []
         for (move_index, move_vector) in move_vectors:
             old_coord = self._coordinates[move_index]
             new_coord = numpy.array(old_coord) + numpy.array(move_vector)   #    <- Elementwise addition.
@@ -159,6 +160,7 @@ class KMCProcess(KMCBaseProcess):
             if len(new_index[0]) == 0:
                 raise Error("Each move_vector must move an atom to a valid lattice site.")
             new_index = new_index[0][0]
+            new_indices.append(new_index)
 
             # Check that the the element at this position in the new elements
             # vector corresponds to the move.
@@ -168,6 +170,11 @@ class KMCProcess(KMCBaseProcess):
             # Perform the move.
             moved_elements[new_index] = self._elements_before[move_index]
 
+        # Each place left must be taken again, by one atom only.
+        if sorted(new_indices) != sorted([move_index for (move_index, move_vector) in move_vectors]) or \
+                len(set(new_indices)) != len(new_indices):
+            raise Error("The move vectors must move exactly one atom to each of the places that are left.")
+
         # With all moves performed on the elements we check if we properly reconstructed
         # the elements after the move.
         if (self._elements_after != moved_elements):
-- 
2.43.0


From d8efaa0df6292cab7c8d48111a09eeb9a9003eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 44/48] fix: wrap vectors of integers for the compiled rate
 calculators

A compiled calculator that caches its rates gives the list of processes to
exclude as std::vector<int>, which the Custom module did not wrap: the
simulation failed with a TypeError.
---
 c++/wrap/CMakeLists.txt | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c++/wrap/CMakeLists.txt b/c++/wrap/CMakeLists.txt
index 07bc378..c654f24 100644
--- a/c++/wrap/CMakeLists.txt
+++ b/c++/wrap/CMakeLists.txt
@@ -28,6 +28,9 @@ file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%include " \"std_string.i\" \n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%include " \"std_pair.i\" \n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%include " \"ratecalculator.h\" \n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%module Custom"\n)
+
+# The calculators give the processes to exclude from caching as a vector of integers.
+file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%template() std::vector<int>;"\n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%{"\n )
 
 # Find out which files to include.
-- 
2.43.0


From 5667610028fc095f65ab49c7bad664dfccf948df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:28 +0000
Subject: [PATCH 45/48] fix: write type names with quotes or backslashes
 correctly to scripts and trajectories

---
 .../KMCLib/CoreComponents/KMCConfiguration.py |  4 +--
 .../src/KMCLib/CoreComponents/KMCProcess.py   |  4 +--
 .../Utilities/Trajectory/LatticeTrajectory.py | 25 ++++++++++++++-----
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 4452e04..c8b931d 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -357,7 +357,7 @@ class KMCConfiguration(object):
         if self.__use_buckets:
             type_strings = [str([(int(n), str(t)) for n,t in bucket]) for bucket in toShortBucketsFormat(types)]
         else:
-            type_strings = ["'" + t + "'" for t in types]
+            type_strings = [repr(str(t)) for t in types]
 
         # Get the types string.
         types_string = "types = "
@@ -390,7 +390,7 @@ class KMCConfiguration(object):
         nT = len(possible_types)
         for i,t in enumerate(possible_types):
             # Add the type.
-            line += "'" + t + "'"
+            line += repr(str(t))
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index cb1cffb..5e1cc1e 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -415,7 +415,7 @@ coordinates defining where the moved index goes."""
         nT = len(self._elements_before)
         for i,t in enumerate(self._elements_before):
             # Add the type.
-            line += "'" + t + "'"
+            line += repr(str(t))
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
@@ -437,7 +437,7 @@ coordinates defining where the moved index goes."""
         nT = len(self._elements_after)
         for i,t in enumerate(self._elements_after):
             # Add the type.
-            line += "'" + t + "'"
+            line += repr(str(t))
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
diff --git a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
index 5fb8f09..7c92e4a 100644
--- a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
@@ -8,6 +8,7 @@
 #
 
 
+import json
 import sys
 import time
 
@@ -16,6 +17,18 @@ from KMCLib.Backend.Backend import MPICommons
 from KMCLib.Utilities.Trajectory.Trajectory import Trajectory
 from KMCLib.Utilities.ConversionUtilities import toShortBucketsFormat
 
+def quoted(name):
+    """
+    Get the name of a type as a quoted string of a script.
+
+    :param name: The name of the type.
+    :type name: str
+
+    :returns: The name in double quotes, with special characters escaped.
+    """
+    return json.dumps(name, ensure_ascii=False)
+
+
 class LatticeTrajectory(Trajectory):
     """
     Class for handling lattice IO to a trajectory file.
@@ -156,7 +169,7 @@ class LatticeTrajectory(Trajectory):
                     if isinstance(types[0], str):
                         for t in types[:-1]:
                             row_length += len(t) + 2
-                            types_str += "\"" + t + "\"" + ","
+                            types_str += quoted(t) + ","
 
                             # Berak the row if above 70 positions.
                             if row_length >= 70:
@@ -164,7 +177,7 @@ class LatticeTrajectory(Trajectory):
                                 row_length = len(indent)
 
                         # Add the last type.
-                        types_str += "\"" + types[-1] + "\"" + "])\n"
+                        types_str += quoted(types[-1]) + "])\n"
 
                     # With bucket types.
                     else:
@@ -176,10 +189,10 @@ class LatticeTrajectory(Trajectory):
                             # Start the types for this site.
                             types_str += "["
                             for t in bt[:-1]:
-                                types_str += "(" + str(t[0]) + ",\"" + t[1] + "\"),"
+                                types_str += "(" + str(t[0]) + "," + quoted(t[1]) + "),"
                             if len(bt) > 0:
                                 t = bt[-1]
-                                types_str += "(" + str(t[0]) + ",\"" + t[1] + "\")"
+                                types_str += "(" + str(t[0]) + "," + quoted(t[1]) + ")"
                                 types_str += "],\n" + indent
 
                             else:
@@ -189,10 +202,10 @@ class LatticeTrajectory(Trajectory):
                         bt = bucket_types[-1]
                         types_str += "["
                         for t in bt[:-1]:
-                            types_str += "(" + str(t[0]) + ",\"" + t[1] + "\"),"
+                            types_str += "(" + str(t[0]) + "," + quoted(t[1]) + "),"
                         if len(bt) > 0:
                             t = bt[-1]
-                            types_str += "(" + str(t[0]) + ",\"" + t[1] + "\")]"
+                            types_str += "(" + str(t[0]) + "," + quoted(t[1]) + ")]"
                         else:
                             types_str += "]"
 
-- 
2.43.0


From 2ee62f1c26a491ec49fe9a289baad6d6aebffd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:28 +0000
Subject: [PATCH 46/48] fix: check the range of the MSD bin before it is
 converted to an integer

---
 c++/src/ontheflymsd.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c++/src/ontheflymsd.cpp b/c++/src/ontheflymsd.cpp
index 0f236c8..80ed0e4 100644
--- a/c++/src/ontheflymsd.cpp
+++ b/c++/src/ontheflymsd.cpp
@@ -115,12 +115,14 @@ void calculateAndBinMSD(const std::vector< std::pair<Coordinate, double> > & his
         // Add to the step count.
         ++hstep_counts[i-1];
 
-        // Calculat the bin.
+        // Calculate the bin. Check the range before converting to an integer.
         const double dt  = history[0].second - history[i].second;
-        const size_t bin = static_cast<int>(dt/binsize);
+        const double bin_position = dt/binsize;
 
-        if (bin < histogram.size())
+        if (bin_position < histogram.size())
         {
+            const size_t bin = static_cast<size_t>(bin_position);
+
             // If within range, calculate the squared diff and the squared diff squared.
             const Coordinate diff_abc = (history[i].first - history[0].first);
 
-- 
2.43.0


From 07b26658b9665817fd2417c38a5556c2a5b5c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 47/48] fix: look no further than the end of the lattice for
 neighbours, and survive long cutoffs

---
 c++/src/customrateprocess.cpp |  3 ++-
 c++/src/interactions.cpp      |  2 +-
 c++/src/latticemap.cpp        | 22 ++++++++++++++++++----
 c++/src/matchlist.cpp         |  9 +++++----
 4 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/c++/src/customrateprocess.cpp b/c++/src/customrateprocess.cpp
index 96deefa..547110c 100644
--- a/c++/src/customrateprocess.cpp
+++ b/c++/src/customrateprocess.cpp
@@ -42,7 +42,8 @@ CustomRateProcess::CustomRateProcess(const Configuration & first,
 
     // Update the range such that all distances withing the cutoff are
     // guarranteed to be included.
-    range_ = static_cast<int>(cutoff_);
+    // A range longer than any lattice would not fit in an integer.
+    range_ = static_cast<int>(std::min(cutoff_, 1.0e8));
 }
 
 
diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index 5887674..90ee58f 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -161,7 +161,7 @@ int Interactions::matchRange(const Configuration & configuration,
             }
         }
 
-        range = std::max(range, static_cast<int>(reach + (max - min) + eps));
+        range = std::max(range, static_cast<int>(std::min(reach + (max - min) + eps, 1.0e8)));
     }
 
     return range;
diff --git a/c++/src/latticemap.cpp b/c++/src/latticemap.cpp
index a3dfa4c..b445a37 100644
--- a/c++/src/latticemap.cpp
+++ b/c++/src/latticemap.cpp
@@ -58,8 +58,22 @@ std::vector<int> LatticeMap::neighbourIndices(const int index,
 
     const CellIndex & cell = c;
 
+    // With many shells most of them are outside the lattice. Go no further than to
+    // the end of the lattice, or of its nearest periodic image.
+    const int cell_index[3] = {cell.i, cell.j, cell.k};
+    int first[3];
+    int last[3];
+    int n_neighbours = n_basis_;
+    for (int d = 0; d < 3; ++d)
+    {
+        const int min = periodic_[d] ? -repetitions_[d] : 0;
+        const int max = periodic_[d] ? 2*repetitions_[d] - 1 : repetitions_[d] - 1;
+        first[d] = cell_index[d] - std::min(shells, cell_index[d] - min);
+        last[d]  = cell_index[d] + std::min(shells, max - cell_index[d]);
+        n_neighbours *= last[d] - first[d] + 1;
+    }
+
     // Setup the return data structure.
-    const int n_neighbours = static_cast<int>(std::pow((2.0*shells + 1), 3) * n_basis_);
     std::vector<int> neighbours(n_neighbours);
 
     // Get a pointer to the neighbours data for direct write access.
@@ -68,7 +82,7 @@ std::vector<int> LatticeMap::neighbourIndices(const int index,
     // A counter to know how much we have added.
     int counter = 0;
 
-    for (int i = cell.i - shells; i <= cell.i + shells; ++i)
+    for (int i = first[0]; i <= last[0]; ++i)
     {
         int ii = i;
         // Handle periodicity.
@@ -86,7 +100,7 @@ std::vector<int> LatticeMap::neighbourIndices(const int index,
         // Go on only if i is within bounds.
         if (ii >= 0 && ii < repetitions_[0])
         {
-            for (int j = cell.j - shells; j <= cell.j + shells; ++j)
+            for (int j = first[1]; j <= last[1]; ++j)
             {
                 int jj = j;
                 // Handle periodicity.
@@ -104,7 +118,7 @@ std::vector<int> LatticeMap::neighbourIndices(const int index,
                 // Go on only if j is within bounds.
                 if (jj >= 0 && jj < repetitions_[1])
                 {
-                    for (int k = cell.k - shells; k <= cell.k + shells; ++k)
+                    for (int k = first[2]; k <= last[2]; ++k)
                     {
                         int kk = k;
                         // Check that k is within bounds.
diff --git a/c++/src/matchlist.cpp b/c++/src/matchlist.cpp
index 073f44e..15fa8dd 100644
--- a/c++/src/matchlist.cpp
+++ b/c++/src/matchlist.cpp
@@ -90,17 +90,18 @@ void configurationsToMatchList(const Configuration & first,
         }
 
         // Calculate the range based on the coordinates, such that all
-        // needed coordinates are guarranteed to be included.
+        // needed coordinates are guarranteed to be included. A range longer than
+        // any lattice would not fit in an integer.
         const double x = coordinate.x();
-        const int cmp_x = static_cast<int>( ( x < 0.0 ) ? (-1.0*x)+0.99999 : x );
+        const int cmp_x = static_cast<int>(std::min( ( x < 0.0 ) ? (-1.0*x)+0.99999 : x, 1.0e8 ));
         range = std::max(cmp_x, range);
 
         const double y = coordinate.y();
-        const int cmp_y = static_cast<int>( ( y < 0.0 ) ? (-1.0*y)+0.99999 : y );
+        const int cmp_y = static_cast<int>(std::min( ( y < 0.0 ) ? (-1.0*y)+0.99999 : y, 1.0e8 ));
         range = std::max(cmp_y, range);
 
         const double z = coordinate.z();
-        const int cmp_z = static_cast<int>( ( z < 0.0 ) ? (-1.0*z)+0.99999 : z );
+        const int cmp_z = static_cast<int>(std::min( ( z < 0.0 ) ? (-1.0*z)+0.99999 : z, 1.0e8 ));
         range = std::max(cmp_z, range);
 
         // Set up the match list entry.
-- 
2.43.0


From c0bb72c73ee1940139e90a999e6e8b925c68e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:30 +0000
Subject: [PATCH 48/48] fix: keep copies of the lists a model is made from

---
 python/src/KMCLib/CoreComponents/KMCProcess.py |  6 ++++--
 python/src/KMCLib/Utilities/CheckUtilities.py  | 16 +++++++++-------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index 5e1cc1e..7c62036 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -7,6 +7,8 @@
 # GNU General Public License version 3, see <http://www.gnu.org/licenses/>.
 #
 
+import copy
+
 import numpy
 
 from KMCLib.Utilities.CoordinateUtilities import sortCoordinatesDistance
@@ -223,8 +225,8 @@ coordinates defining where the moved index goes."""
             checkSequenceOfFloats(t[1], msg)
             if len(t[1]) != 3:
                 raise Error(msg)
-        # Passed all tests.
-        return move_vectors
+        # Passed all tests. Return copies, to not be affected if the caller changes the vectors.
+        return [(t[0], copy.copy(t[1])) for t in move_vectors]
 
     def __reconstructMoveVectors(self):
         """
diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index b529075..1db6964 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -8,6 +8,8 @@
 #
 
 
+import copy
+
 import numpy
 
 from KMCLib.Exceptions.Error import Error
@@ -74,8 +76,8 @@ def checkCellVectors(cell_vectors):
     if not (cell_determinant >= 0.00001):
         raise Error("The unit cell vectors are linearly dependent with determinant = %f."%(cell_determinant))
 
-    # Done checking.
-    return cell_vectors
+    # Done checking. Return a copy, to not be affected if the caller changes the array.
+    return numpy.array(cell_vectors)
 
 
 def checkCoordinateList(coordinates, varname="coordinates"):
@@ -126,14 +128,14 @@ def checkSequence(sequence, msg="The tested object is not a sequence."):
     :param msg: Non-default error message to print.
     :type msg: string
 
-    :returns:        The valid sequence object.
+    :returns:        A copy of the valid sequence object.
     """
     # Check that this is a sequence.
     if not ('__len__' in dir(sequence)):
         raise Error(msg)
 
-    # Done.
-    return sequence
+    # Done. Return a copy, to not be affected if the caller changes the sequence.
+    return copy.copy(sequence)
 
 
 def checkSequenceOfPositiveIntegers(sequence, msg="The tested object is not a sequence of positive integers."):
@@ -227,8 +229,8 @@ def checkTypes(types, length):
     if len(types) != length:
         raise Error("The length of the 'types' parameter must match the coordinates.")
 
-    # Done.
-    return types
+    # Done. Return a copy, to not be affected if the caller changes the list.
+    return list(types)
 
 
 def checkPositiveInteger(parameter, default_parameter, parameter_name):
-- 
2.43.0

