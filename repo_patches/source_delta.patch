From 058148c330fff83f45b316272b02f25ca542758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:01 +0000
Subject: [PATCH 01/69] fix: node layout hangs when the second division attempt
 succeeds

The retry loop of setup_layout() was repeated as long as the second attempt
was in use, also when it had succeeded: for example a 2x4x4 lattice on 6 ranks
never got past lattice.setup().
---
 libraries/plumbing/setup_layout_generic.cpp | 7 ++++---
 libraries/plumbing/setup_layout_vector.cpp  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/libraries/plumbing/setup_layout_generic.cpp b/libraries/plumbing/setup_layout_generic.cpp
index d541906..a182f77 100644
--- a/libraries/plumbing/setup_layout_generic.cpp
+++ b/libraries/plumbing/setup_layout_generic.cpp
@@ -71,9 +71,10 @@ void lattice_struct::setup_layout() {
     }
 
     int mdir = 0;
-    bool secondtime = false;
+    bool secondtime = false, retry;
     do {
         // try the division a couple of times, if the 1st fails
+        retry = false;
 
         foralldir(j) if (ghosts[mdir] > ghosts[j]) mdir = j;
         // mdir is the direction where we do uneven division (if done)
@@ -132,7 +133,7 @@ void lattice_struct::setup_layout() {
         bool fail = false;
         foralldir(dir) if (nodesiz[dir] < 2) fail = true; // don't allow nodes of size 1
         if (fail && !secondtime) {
-            secondtime = true;
+            secondtime = retry = true;
             ghosts[mdir] =
                 (1ULL << 62); // this short-circuits direction mdir, some other taken next
         } else if (fail) {
@@ -141,7 +142,7 @@ void lattice_struct::setup_layout() {
             hila::finishrun();
         }
 
-    } while (secondtime);
+    } while (retry);
 
     // set up struct nodes variables
     nodes.number = hila::number_of_nodes();
diff --git a/libraries/plumbing/setup_layout_vector.cpp b/libraries/plumbing/setup_layout_vector.cpp
index 1cfcf87..448dcd4 100644
--- a/libraries/plumbing/setup_layout_vector.cpp
+++ b/libraries/plumbing/setup_layout_vector.cpp
@@ -97,9 +97,10 @@ void lattice_struct::setup_layout() {
     CoordinateVector divisions, subdiv;
 
     int gdir;
-    bool secondtime = false;
+    bool secondtime = false, retry;
     do {
         // try the division a couple of times, if the 1st fails
+        retry = false;
 
         if (ghost_volume > l_volume) {
             gdir = NDIM - 1;
@@ -218,7 +219,7 @@ void lattice_struct::setup_layout() {
 
 
         if (fail && !secondtime && gdir >= 0) {
-            secondtime = true;
+            secondtime = retry = true;
             ghosts[gdir] =
                 (1ULL << 62); // this short-circuits direction gdir, some other taken next
         } else if (fail) {
@@ -241,7 +242,7 @@ void lattice_struct::setup_layout() {
             hila::finishrun();
         }
 
-    } while (secondtime);
+    } while (retry);
 
     // set up struct nodes variables
     nodes.number = hila::number_of_nodes();
-- 
2.43.0


From 7d804793ec1b270769d258d3a04e0ca314572bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:28 +0000
Subject: [PATCH 02/69] fix: shifts longer than one step ignore antiperiodic
 boundary conditions

---
 libraries/plumbing/field.h      |  2 ++
 libraries/plumbing/field_comm.h | 43 ++++++++++++++++++++++++---------
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/libraries/plumbing/field.h b/libraries/plumbing/field.h
index 1aa9c51..5321f17 100644
--- a/libraries/plumbing/field.h
+++ b/libraries/plumbing/field.h
@@ -1423,6 +1423,8 @@ class Field {
 
     Field<T> shift(const CoordinateVector &v) const;
 
+    void set_shift_boundary_conditions(Field<T> &r) const;
+
 #ifdef FIELD_SHIFT_BUFFERING
     void buffered_shift_offsets(const CoordinateVector &v, Parity par) const;
     const Field<T> &do_buffered_shift(const CoordinateVector &v, Parity par) const;
diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 50ca1d6..61628ed 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -175,6 +175,23 @@ T *Field<T>::field_struct::get_receive_buffer(Direction d, Parity par,
 #define NAIVE_SHIFT
 #if defined(NAIVE_SHIFT)
 
+/**
+ * @internal
+ * @brief Give the temporary field r the boundary conditions of this field: moves which continue
+ * from r have to cross the boundary in the same way.
+ */
+template <typename T>
+void Field<T>::set_shift_boundary_conditions(Field<T> &r) const {
+#ifdef SPECIAL_BOUNDARY_CONDITIONS
+    if constexpr (hila::has_unary_minus<T>::value) {
+        foralldir (d) {
+            if (get_boundary_condition(d) != hila::bc::PERIODIC)
+                r.set_boundary_condition(d, get_boundary_condition(d));
+        }
+    }
+#endif
+}
+
 template <typename T>
 Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity par) const {
 
@@ -235,18 +252,14 @@ Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity
         return res;
     }
 
-    // now longer - need buffer
-    Field<T> r1;
-    Field<T> *from, *to;
+    // now longer - need buffers for all moves but the last one
+    Field<T> r1, r2;
+    set_shift_boundary_conditions(r1);
+    if (len > 2)
+        set_shift_boundary_conditions(r2);
+
+    Field<T> *from = &r1, *to = &r2;
 
-    // this ensures that the final move lands on res
-    if (len % 2 == 0) {
-        from = &r1;
-        to = &res;
-    } else {
-        from = &res;
-        to = &r1;
-    }
     // and copy initially to "from"
     (*from).shift_from(*this, mdir, par_s);
     // (*from)[par_s] = (*this)[X + mdir];
@@ -261,11 +274,16 @@ Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity
 
             while (rem[d] != 0) {
 
+                rem = rem - mdir;
+
+                // the final move lands on res
+                if (rem.norm_L1() == 0)
+                    to = &res;
+
                 (*to).shift_from(*from, mdir, par_s);
                 //(*to)[par_s] = (*from)[X + mdir];
 
                 par_s = opp_parity(par_s);
-                rem = rem - mdir;
                 std::swap(to, from);
             }
         }
@@ -300,6 +318,7 @@ void Field<T>::buffered_shift_offsets(const CoordinateVector &v, Parity par) con
     fs->shift_buffer.emplace_back();
     fs->shift_buffer.back().par = Parity::none; // flag it new
     fs->shift_buffer.back().offset = v;
+    set_shift_boundary_conditions(fs->shift_buffer.back().f);
     return;
 }
 
-- 
2.43.0


From 1b96470c48f2dbef95622651cae7a218663b1476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:49 +0000
Subject: [PATCH 03/69] fix: stale neighbours after assigning one parity when a
 lattice side is odd

---
 libraries/plumbing/field.h      |  9 +++++++--
 libraries/plumbing/field_comm.h | 19 +++++++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/field.h b/libraries/plumbing/field.h
index 5321f17..d139096 100644
--- a/libraries/plumbing/field.h
+++ b/libraries/plumbing/field.h
@@ -583,13 +583,18 @@ class Field {
     void mark_changed(const Parity p) const {
 
         for (Direction i = (Direction)0; i < NDIRS; ++i) {
+            // neighbours of sites of one parity have the opposite parity, except over the boundary
+            // when the lattice size is odd: then both parities have to be gathered again
+            const bool both = (p == ALL) || (fs->mylattice->l_size[abs(i)] % 2 != 0);
+
             // check if there's ongoing comms, invalidate it!
-            drop_comms(i, opp_parity(p));
+            drop_comms(i, both ? ALL : opp_parity(p));
 
             set_gather_status(opp_parity(p), i, gather_status_t::NOT_DONE);
-            if (p != ALL) {
+            if (!both) {
                 set_gather_status(ALL, i, gather_status_t::NOT_DONE);
             } else {
+                set_gather_status(ALL, i, gather_status_t::NOT_DONE);
                 set_gather_status(EVEN, i, gather_status_t::NOT_DONE);
                 set_gather_status(ODD, i, gather_status_t::NOT_DONE);
             }
diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 61628ed..c70cd76 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -212,7 +212,14 @@ Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity
     }
 
     // opp_parity(ALL) == ALL
-    if (len % 2 == 0)
+    // if the parity of sites changes over the boundary, move all sites until the last step
+    bool odd_size = false;
+    foralldir (d)
+        odd_size = odd_size || (lattice->l_size[d] % 2 != 0);
+
+    if (odd_size && len > 1)
+        par_s = ALL;
+    else if (len % 2 == 0)
         par_s = opp_parity(par);
     else
         par_s = par;
@@ -277,8 +284,10 @@ Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity
                 rem = rem - mdir;
 
                 // the final move lands on res
-                if (rem.norm_L1() == 0)
+                if (rem.norm_L1() == 0) {
                     to = &res;
+                    par_s = par;
+                }
 
                 (*to).shift_from(*from, mdir, par_s);
                 //(*to)[par_s] = (*from)[X + mdir];
@@ -329,6 +338,12 @@ const Field<T> &Field<T>::do_buffered_shift(const CoordinateVector &v, Parity pa
     if (len == 0)
         return *this;
 
+    // if the parity of sites changes over the boundary, shift all sites
+    foralldir (d) {
+        if (lattice->l_size[d] % 2 != 0)
+            par = ALL;
+    }
+
     for (auto &r : fs->shift_buffer) {
         if (r.offset == v) {
             // If we have the data return
-- 
2.43.0


From 6eceb1d09e460b9de1c2fb7e5cf61c558611d65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:47 +0000
Subject: [PATCH 04/69] fix: antiperiodic boundary negates sites inside the
 lattice in vectorized layout

---
 .../plumbing/backend_vector/field_storage_backend.h   |  4 +++-
 libraries/plumbing/backend_vector/lattice_vector.h    | 11 ++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/backend_vector/field_storage_backend.h b/libraries/plumbing/backend_vector/field_storage_backend.h
index 9b015eb..e946b04 100644
--- a/libraries/plumbing/backend_vector/field_storage_backend.h
+++ b/libraries/plumbing/backend_vector/field_storage_backend.h
@@ -222,9 +222,11 @@ void field_storage<T>::set_local_boundary_elements(Direction dir, Parity par, co
                                 t[e + i] = s[e + perm[i]];
                     } else {
 #ifdef SPECIAL_BOUNDARY_CONDITIONS
+                        // only the subnodes at the lattice edge change sign
+                        const bool *RESTRICT crossing = vector_lattice->boundary_crossing[dir];
                         for (unsigned e = 0; e < elements * vector_size; e += vector_size)
                             for (unsigned i = 0; i < vector_size; i++)
-                                t[e + i] = -s[e + perm[i]];
+                                t[e + i] = crossing[i] ? -s[e + perm[i]] : s[e + perm[i]];
 #endif
                     }
                 }
diff --git a/libraries/plumbing/backend_vector/lattice_vector.h b/libraries/plumbing/backend_vector/lattice_vector.h
index 5f15c3e..32d72ec 100644
--- a/libraries/plumbing/backend_vector/lattice_vector.h
+++ b/libraries/plumbing/backend_vector/lattice_vector.h
@@ -36,6 +36,9 @@ struct vectorized_lattice_struct {
     bool only_local_boundary_copy[NDIRS];
     /// permutation vectors
     int boundary_permutation[NDIRS][vector_size];
+    /// True for vector elements which cross the edge of the whole lattice when moving over
+    /// the subnode boundary
+    bool boundary_crossing[NDIRS][vector_size];
     /// offsets to boundary halos
     unsigned halo_offset[NDIRS], halo_offset_odd[NDIRS], n_halo_vectors[NDIRS];
     /// storage for indexes to halo sites
@@ -160,11 +163,17 @@ struct vectorized_lattice_struct {
                 int rank = lattice->node_rank(h);
                 unsigned nn = lattice->site_index(h, rank);
                 boundary_permutation[d][i] = nn % vector_size;
+
+                // is this step over the edge of the whole lattice?
+                boundary_crossing[d][i] =
+                    (lattice->coordinates(idx + i)[d] == lattice->l_size[d] - 1);
             }
 
             // permutation to opposite direction is the inverse, thus:
-            for (int i = 0; i < vector_size; i++)
+            for (int i = 0; i < vector_size; i++) {
                 boundary_permutation[-d][boundary_permutation[d][i]] = i;
+                boundary_crossing[-d][boundary_permutation[d][i]] = boundary_crossing[d][i];
+            }
         }
     }
 
-- 
2.43.0


From 00b5b4bca548b40b5e27e3ad9b70d0d580addfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:18 +0000
Subject: [PATCH 05/69] fix: Field::set_local_data does not compile

---
 libraries/plumbing/field_comm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index c70cd76..842b112 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -1146,7 +1146,7 @@ void Field<T>::set_local_data(const std::vector<T> &buffer) {
     T *data = (T *)d_malloc(sizeof(T) * lattice->mynode.volume);
     gpuMemcpy(data, buffer.data(), sizeof(T) * lattice->mynode.volume, gpuMemcpyHostToDevice);
 #else
-    T *data = buffer.data();
+    const T *data = buffer.data();
 #endif
 
 #pragma hila novector direct_access(data)
-- 
2.43.0


From 6a36bd40a7d483a8257a84a19e54476ff0554dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:18 +0000
Subject: [PATCH 06/69] fix: read_fields calls a function which does not exist

---
 libraries/plumbing/field_io.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/field_io.h b/libraries/plumbing/field_io.h
index c364430..861ccd8 100644
--- a/libraries/plumbing/field_io.h
+++ b/libraries/plumbing/field_io.h
@@ -336,12 +336,12 @@ void Field<T>::read(const std::string &filename) {
 // Read a list of fields from an input stream
 template <typename T>
 static void read_fields(std::ifstream &inputfile, Field<T> &last) {
-    last.read_from_stream(inputfile);
+    last.read(inputfile);
 }
 
 template <typename T, typename... fieldtypes>
 static void read_fields(std::ifstream &inputfile, Field<T> &next, fieldtypes &...fields) {
-    next.read_from_stream(inputfile);
+    next.read(inputfile);
     read_fields(inputfile, fields...);
 }
 
-- 
2.43.0


From 09eab2cba5ce3c5be0bf594741dc6101809f9bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:00 +0000
Subject: [PATCH 07/69] fix: copy_local_data_with_halo misses the upper halo of
 one site thick nodes

---
 libraries/plumbing/field_comm.h | 51 +++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 842b112..4e36ee7 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -1192,31 +1192,33 @@ inline void collect_field_halo_data_(T *data, const Field<T> &src, Field<T> &des
         node_max[d] = lattice->mynode.min[d] + lattice->mynode.size[d] - 1;
     }
 
+    // the last move goes to Direction d, +dirs or -dirs
+    const Direction d = (Direction)dirs[ndir];
+
 #pragma hila novector direct_access(data)
     onsites (ALL) {
         Vector<NDIM, unsigned> nodec;
         CoordinateVector c = X.coordinates();
         bool gotit = true;
 
-        for (int i = 0; i < ndir; i++) {
-            Direction d = (Direction)dirs[i];
-            if (c.e(d) == node_min[d]) {
-                c.e(d) -= 1;
-            } else if (c.e(d) == node_max[d]) {
-                c.e(d) += 1;
-            } else
-                gotit = false;
+        // is the site at the node edge to all directions in dirs
+        for (int i = 0; i <= ndir; i++) {
+            int di = dirs[i];
+            if (di < NDIM) {
+                if (c.e(di) == node_max.e(di))
+                    c.e(di) += 1;
+                else
+                    gotit = false;
+            } else {
+                di = NDIRS - 1 - di; // opposite of a down-direction
+                if (c.e(di) == node_min.e(di))
+                    c.e(di) -= 1;
+                else
+                    gotit = false;
+            }
         }
 
-        Direction d = (Direction)dirs[ndir];
-        if (gotit && c.e(d) == node_min[d]) {
-            c.e(d) -= 1;
-            nodec = c - nmin;
-            data[nodec.dot(nmul)] = src[X - d];
-            dest[X] = src[X - d];
-
-        } else if (gotit && c.e(d) == node_max[d]) {
-            c.e(d) += 1;
+        if (gotit) {
             nodec = c - nmin;
             data[nodec.dot(nmul)] = src[X + d];
             dest[X] = src[X + d];
@@ -1278,22 +1280,29 @@ void Field<T>::copy_local_data_with_halo(std::vector<T> &buffer) const {
 #endif
 #endif
 
+    // dirs contains Directions to up and down; the indices are abs() of these
     Vector<NDIM, int> dirs;
-    foralldir (d1) {
+    for (int d1 = 0; d1 < NDIRS; ++d1) {
         dirs[0] = d1;
         // gather d1 halo
         collect_field_halo_data_(data, (*this), corners, dirs, 0);
 
 #if NDIM > 1
-        for (int d2 = d1 + 1; d2 < NDIM; ++d2) {
+        for (int d2 = 0; d2 < NDIRS; ++d2) {
+            if (abs((Direction)d2) <= abs((Direction)d1))
+                continue;
             dirs[1] = d2;
             collect_field_halo_data_(data, corners, corner2, dirs, 1);
 #if NDIM > 2
-            for (int d3 = d2 + 1; d3 < NDIM; ++d3) {
+            for (int d3 = 0; d3 < NDIRS; ++d3) {
+                if (abs((Direction)d3) <= abs((Direction)d2))
+                    continue;
                 dirs[2] = d3;
                 collect_field_halo_data_(data, corner2, corner3, dirs, 2);
 #if NDIM > 3
-                for (int d4 = d3 + 1; d4 < NDIM; ++d4) {
+                for (int d4 = 0; d4 < NDIRS; ++d4) {
+                    if (abs((Direction)d4) <= abs((Direction)d3))
+                        continue;
                     dirs[3] = d4;
                     collect_field_halo_data_(data, corner3, corner4, dirs, 3);
                 }
-- 
2.43.0


From 86c16e90f58992a2a673a2190b06b4d16f9cf0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:26 +0000
Subject: [PATCH 08/69] fix: conditional field assignment clobbers sites when
 the loop has a site dependent index

---
 hilapp/src/toplevelvisitor.cpp | 41 +++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index b8d37d8..936ae23 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -1367,30 +1367,31 @@ bool TopLevelVisitor::handle_loop_body_stmt(Stmt *s) {
 
         TraverseStmt(s);
 
-        // check also the conditionals - are these site dependent?
-        if (!loop_info.has_site_dependent_cond_or_index) {
-            Expr *condexpr = nullptr;
-            if (IfStmt *IS = dyn_cast<IfStmt>(s))
-                condexpr = IS->getCond();
-            else if (ForStmt *FS = dyn_cast<ForStmt>(s))
-                condexpr = FS->getCond();
-            else if (WhileStmt *WS = dyn_cast<WhileStmt>(s))
-                condexpr = WS->getCond();
-            else if (DoStmt *DS = dyn_cast<DoStmt>(s))
-                condexpr = DS->getCond();
-            else if (SwitchStmt *SS = dyn_cast<SwitchStmt>(s))
-                condexpr = SS->getCond();
-            else if (ConditionalOperator *CO = dyn_cast<ConditionalOperator>(s))
-                condexpr = CO->getCond();
-
-            if (condexpr != nullptr) {
+        Expr *condexpr = nullptr;
+        if (IfStmt *IS = dyn_cast<IfStmt>(s))
+            condexpr = IS->getCond();
+        else if (ForStmt *FS = dyn_cast<ForStmt>(s))
+            condexpr = FS->getCond();
+        else if (WhileStmt *WS = dyn_cast<WhileStmt>(s))
+            condexpr = WS->getCond();
+        else if (DoStmt *DS = dyn_cast<DoStmt>(s))
+            condexpr = DS->getCond();
+        else if (SwitchStmt *SS = dyn_cast<SwitchStmt>(s))
+            condexpr = SS->getCond();
+        else if (ConditionalOperator *CO = dyn_cast<ConditionalOperator>(s))
+            condexpr = CO->getCond();
+
+        if (condexpr != nullptr) {
+
+            // Flag general cond expression
+            loop_info.has_conditional = true;
+
+            // check also the conditionals - are these site dependent?
+            if (!loop_info.has_site_dependent_cond_or_index) {
                 loop_info.has_site_dependent_cond_or_index =
                     is_site_dependent(condexpr, &loop_info.conditional_vars);
                 if (loop_info.has_site_dependent_cond_or_index)
                     loop_info.condExpr = condexpr;
-
-                // Flag general cond expression
-                loop_info.has_conditional = true;
             }
         }
 
-- 
2.43.0


From af84779e0917597ce2342b4b4ea9fbe45f5fca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:16 +0000
Subject: [PATCH 09/69] fix: fields blocked on ranks without sites are left in
 a different state than on other ranks

---
 libraries/plumbing/field_comm.h | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 4e36ee7..d471ef7 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -1344,13 +1344,10 @@ void Field<T>::block_from(Field<T> &orig) {
 
     assert(blocklat->parent == parentlat && "blocking must happen from parent lattice Field");
 
-    // If no sites on this node there's nothing to do
-    if (blocklat->mynode.volume == 0)
-        return;
-
 
-    // alloc temp array, size of the blocked lattice
-    size_t bufsize = blocklat->mynode.volume;
+    // alloc temp array, size of the blocked lattice.  There may be no sites on this node, but the
+    // status of the fields must nevertheless be the same on all nodes: do not return early
+    size_t bufsize = (blocklat->mynode.volume > 0) ? blocklat->mynode.volume : 1;
     T *buf = (T *)d_malloc(bufsize * sizeof(T));
 
     // switch to parent if needed
@@ -1407,12 +1404,9 @@ void Field<T>::unblock_to(Field<T> &target) const {
         return;
     }
 
-    // If no sites on this node there's nothing to do
-    if (blocklat->mynode.volume == 0)
-        return;
-
-    // alloc temp array, size of the blocked lattice
-    size_t bufsize = blocklat->mynode.volume;
+    // alloc temp array, size of the blocked lattice.  There may be no sites on this node, but the
+    // status of the fields must nevertheless be the same on all nodes: do not return early
+    size_t bufsize = (blocklat->mynode.volume > 0) ? blocklat->mynode.volume : 1;
     T *buf = (T *)d_malloc(bufsize * sizeof(T));
 
     CoordinateVector blockfactor = parentlat->l_size.element_div(blocklat->l_size);
@@ -1461,12 +1455,9 @@ void Field<T>::block_to_current_lattice() {
     assert(currentlat->parent == thislat &&
            "blocking must happen to the next lattice blocked from thislat");
 
-    // If no sites on this node there's nothing to do
-    if (currentlat->mynode.volume == 0)
-        return;
-
-    // alloc temp array, size of the blocked lattice
-    size_t bufsize = currentlat->mynode.volume;
+    // alloc temp array, size of the blocked lattice.  There may be no sites on this node, but the
+    // status of the fields must nevertheless be the same on all nodes: do not return early
+    size_t bufsize = (currentlat->mynode.volume > 0) ? currentlat->mynode.volume : 1;
     T *buf = (T *)d_malloc(bufsize * sizeof(T));
 
     // switch to this fields lattice
-- 
2.43.0


From 85856c546527c3b05ee0886fac4ed579daa4d5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:46 +0000
Subject: [PATCH 10/69] fix: lattice.block() returns a lattice of the right
 size blocked from another lattice

---
 libraries/plumbing/lattice.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/lattice.cpp b/libraries/plumbing/lattice.cpp
index 0c79a1b..1051dda 100644
--- a/libraries/plumbing/lattice.cpp
+++ b/libraries/plumbing/lattice.cpp
@@ -1075,7 +1075,8 @@ lattice_struct *lattice_struct::block_by_factor(const CoordinateVector &blocking
     hila::synchronize();
 
     for (auto *l : hila::defined_lattices) {
-        if (l->l_size == blockvol) {
+        // the same size may also be reached by blocking some other lattice
+        if (l->l_size == blockvol && (l == this || l->parent == this)) {
             lattice.switch_to(l);
             return l;
         }
-- 
2.43.0


From 12976f37f31157acf75766faf390fa8c31bff915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:53 +0000
Subject: [PATCH 11/69] fix: delayed product reduction of ReductionVector sums
 the ranks instead of multiplying

---
 libraries/plumbing/reductionvector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libraries/plumbing/reductionvector.h b/libraries/plumbing/reductionvector.h
index cc24a66..43ebc70 100644
--- a/libraries/plumbing/reductionvector.h
+++ b/libraries/plumbing/reductionvector.h
@@ -243,6 +243,7 @@ class ReductionVector {
                 assert(0 && "Cannot mix sum and product reductions!");
             }
             delay_is_on = true;
+            is_delayed_sum = true;
         } else {
             reduce_operation(MPI_SUM);
         }
@@ -264,6 +265,7 @@ class ReductionVector {
                 assert(0 && "Cannot mix sum and product reductions!");
             }
             delay_is_on = true;
+            is_delayed_sum = false;
         } else {
             reduce_operation(MPI_PROD);
         }
-- 
2.43.0


From 620dcbf82fb407fc1c755a894ec7599888f873bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:53 +0000
Subject: [PATCH 12/69] fix: assignment to ReductionVector ignores unfinished
 non-blocking and delayed reductions

---
 libraries/plumbing/reductionvector.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libraries/plumbing/reductionvector.h b/libraries/plumbing/reductionvector.h
index 43ebc70..79578a1 100644
--- a/libraries/plumbing/reductionvector.h
+++ b/libraries/plumbing/reductionvector.h
@@ -204,12 +204,17 @@ class ReductionVector {
     /// Make this return void, hard to imagine it is used for anything useful
     template <typename S, std::enable_if_t<std::is_assignable<T &, S>::value, int> = 0>
     void operator=(const S &rhs) {
+        // unfinished reductions are dropped
+        wait();
+        delay_is_on = false;
         for (auto &vp : val)
             vp = rhs;
     }
 
     /// Assignment from 0
     void operator=(std::nullptr_t np) {
+        wait();
+        delay_is_on = false;
         for (auto &vp : val)
             vp = 0;
     }
-- 
2.43.0


From 0d89b98ab1ae35e06fc986a9c7e4707c6c326620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:53 +0000
Subject: [PATCH 13/69] fix: delayed Reduction counts an already reduced value
 on every rank

---
 libraries/plumbing/reduction.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 777bbdc..7d1076d 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -206,8 +206,9 @@ class Reduction {
 
         wait(); // wait for possible ongoing
 
-        // add the node values to reduction var
-        if (hila::myrank() == 0 || is_delayed_)
+        // add the node values to reduction var. Only rank 0 (and, within a delayed
+        // reduction, the partial sums of other ranks) carries the old value
+        if (hila::myrank() == 0 || delay_is_on)
             val += v;
         else
             val = v;
-- 
2.43.0


From 9d6118b8ba11e2c732cd1cc71c37c927c32bbee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:31 +0000
Subject: [PATCH 14/69] fix: Field::max() of a floating point field with only
 negative values is wrong

---
 libraries/plumbing/reduction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 7d1076d..75dc0ea 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -331,14 +331,14 @@ T Field<T>::minmax(bool is_min, Parity par, CoordinateVector &loc) const {
     T val = gpu_minmax(is_min, par, loc);
 #else
     // get suitable initial value
-    T val = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
+    T val = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
 
     // write the loop with explicit OpenMP parallel region.  It has negligible effect
     // on non-OpenMP code, and the pragmas are ignored.
     #pragma omp parallel shared(val, loc, is_min)
     {
         CoordinateVector loc_th(0);
-        T val_th = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
+        T val_th = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
 
         // Pragma "hila omp_parallel_region" is necessary here, because this is within
         // omp parallel
-- 
2.43.0


From fa7f8f9175a93fb7ca973649cff526eff82aeb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:31 +0000
Subject: [PATCH 15/69] fix: Field::product() does not compile

---
 libraries/plumbing/reduction.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 75dc0ea..afb642d 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -298,12 +298,11 @@ template <typename T>
 T Field<T>::product(Parity par, bool allreduce) const {
     static_assert(std::is_arithmetic<T>::value,
                   ".product() reduction only for integer or floating point types");
-    Reduction<T> result;
-    result = 1;
-    result.allreduce(allreduce);
+    T result = 1;
+    hila::set_allreduce(allreduce);
     onsites (par)
         result *= (*this)[X];
-    return result.value();
+    return result;
 }
 
 
-- 
2.43.0


From f77ef9931f2b08727b84547fa6cd45aa673b9f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:50 +0000
Subject: [PATCH 16/69] fix: location of Field::min() and max() undefined if
 all values are at the end of the range

---
 libraries/plumbing/reduction.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index afb642d..d41b563 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -331,25 +331,31 @@ T Field<T>::minmax(bool is_min, Parity par, CoordinateVector &loc) const {
 #else
     // get suitable initial value
     T val = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
+    // are there sites on this node?
+    bool found = false;
 
     // write the loop with explicit OpenMP parallel region.  It has negligible effect
     // on non-OpenMP code, and the pragmas are ignored.
-    #pragma omp parallel shared(val, loc, is_min)
+    #pragma omp parallel shared(val, loc, is_min, found)
     {
         CoordinateVector loc_th(0);
         T val_th = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
+        bool found_th = false;
 
         // Pragma "hila omp_parallel_region" is necessary here, because this is within
         // omp parallel
-        #pragma hila novector omp_parallel_region direct_access(loc_th, val_th)
+        #pragma hila novector omp_parallel_region direct_access(loc_th, val_th, found_th)
         onsites (par) {
-            if ((is_min && (*this)[X] < val_th) || (!is_min && (*this)[X] > val_th)) {
+            if (!found_th || (is_min && (*this)[X] < val_th) || (!is_min && (*this)[X] > val_th)) {
+                found_th = true;
                 val_th = (*this)[X];
                 loc_th = X.coordinates();
             }
         }
         #pragma omp critical
-        if ((is_min && val_th < val) || (!is_min && val_th > val)) {
+        if (found_th &&
+            (!found || (is_min && val_th < val) || (!is_min && val_th > val))) {
+            found = true;
             val = val_th;
             loc = loc_th;
         }
@@ -372,6 +378,11 @@ T Field<T>::minmax(bool is_min, Parity par, CoordinateVector &loc) const {
 
         rdata.v = val;
         rdata.rank = hila::myrank();
+#if !defined(CUDA) && !defined(HIP)
+        // node without sites must not be chosen as the location
+        if (!found)
+            rdata.rank += hila::number_of_nodes();
+#endif
 
         // after allreduce rdata contains the min value and rank where it is
         if (is_min) {
-- 
2.43.0


From 990805e977f6bbfaad93992dd8f894c6d4c1793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:50 +0000
Subject: [PATCH 17/69] fix: vectorized product reductions are always zero

---
 libraries/plumbing/backend_vector/defs.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/libraries/plumbing/backend_vector/defs.h b/libraries/plumbing/backend_vector/defs.h
index 315bc99..191a0e7 100644
--- a/libraries/plumbing/backend_vector/defs.h
+++ b/libraries/plumbing/backend_vector/defs.h
@@ -250,7 +250,7 @@ inline double reduce_prod(Vec4d v) {
 }
 
 inline double reduce_prod(Vec8f v) {
-    double sum = 0;
+    double sum = 1;
     float store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
@@ -258,8 +258,8 @@ inline double reduce_prod(Vec8f v) {
     return sum;
 }
 
-inline double reduce_prod(Vec8i v) {
-    double sum = 0;
+inline int64_t reduce_prod(Vec8i v) {
+    int64_t sum = 1;
     int store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
@@ -277,7 +277,7 @@ inline double reduce_prod(Vec8d v) {
 }
 
 inline double reduce_prod(Vec16f v) {
-    double sum = 0;
+    double sum = 1;
     float store[16];
     v.store(&(store[0]));
     for (int i = 0; i < 16; i++)
@@ -285,8 +285,8 @@ inline double reduce_prod(Vec16f v) {
     return sum;
 }
 
-inline double reduce_prod(Vec16i v) {
-    double sum = 0;
+inline int64_t reduce_prod(Vec16i v) {
+    int64_t sum = 1;
     int store[16];
     v.store(&(store[0]));
     for (int i = 0; i < 16; i++)
@@ -294,8 +294,8 @@ inline double reduce_prod(Vec16i v) {
     return sum;
 }
 
-inline double reduce_prod(Vec4q v) {
-    double sum = 0;
+inline int64_t reduce_prod(Vec4q v) {
+    int64_t sum = 1;
     int64_t store[4];
     v.store(&(store[0]));
     for (int i = 0; i < 4; i++)
@@ -303,8 +303,8 @@ inline double reduce_prod(Vec4q v) {
     return sum;
 }
 
-inline double reduce_prod(Vec8q v) {
-    double sum = 0;
+inline int64_t reduce_prod(Vec8q v) {
+    int64_t sum = 1;
     int64_t store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
-- 
2.43.0


From 673e27712053b113350befb118f4bab5a24a9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:50 +0000
Subject: [PATCH 18/69] fix: sum of an 8 element integer vector overruns its
 buffer

---
 libraries/plumbing/backend_vector/defs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/backend_vector/defs.h b/libraries/plumbing/backend_vector/defs.h
index 191a0e7..13f58b1 100644
--- a/libraries/plumbing/backend_vector/defs.h
+++ b/libraries/plumbing/backend_vector/defs.h
@@ -233,7 +233,7 @@ inline int64_t reduce_sum(Vec4q v) {
 
 inline int64_t reduce_sum(Vec8q v) {
     int64_t sum = 0;
-    int64_t store[4];
+    int64_t store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
         sum += store[i];
-- 
2.43.0


From 813033ecc1120761f927362f0e167580052bc242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:01 +0000
Subject: [PATCH 19/69] fix: product reductions are summed over OpenMP threads

---
 hilapp/src/codegen_cpu.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hilapp/src/codegen_cpu.cpp b/hilapp/src/codegen_cpu.cpp
index 8af126a..79dca5e 100644
--- a/hilapp/src/codegen_cpu.cpp
+++ b/hilapp/src/codegen_cpu.cpp
@@ -150,6 +150,8 @@ std::string TopLevelVisitor::generate_code_cpu(Stmt *S, bool semicolon_at_end, s
                     if (get_number_type(r.type) == number_type::UNKNOWN) {
                         code << "_hila_reduction_sum" << sums;
                         sums++;
+                    } else if (r.reduction_type == reduction::PRODUCT) {
+                        code << '*';
                     } else {
                         code << '+';
                     }
-- 
2.43.0


From 69e4bf06c064d445bb449756f61c113fc80e7f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:51 +0000
Subject: [PATCH 20/69] fix: thread copies of class type reduction variables
 are not initialized with OpenMP

---
 hilapp/src/codegen_cpu.cpp   | 3 ++-
 libraries/plumbing/com_mpi.h | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/hilapp/src/codegen_cpu.cpp b/hilapp/src/codegen_cpu.cpp
index 79dca5e..12e5345 100644
--- a/hilapp/src/codegen_cpu.cpp
+++ b/hilapp/src/codegen_cpu.cpp
@@ -134,7 +134,8 @@ std::string TopLevelVisitor::generate_code_cpu(Stmt *S, bool semicolon_at_end, s
                 if (r.reduction_type != reduction::NONE &&
                     get_number_type(r.type) == number_type::UNKNOWN) {
                     code << "#pragma omp declare reduction(_hila_reduction_sum" << sums << ":"
-                         << r.type << ":omp_out += omp_in)\n";
+                         << r.type
+                         << ":omp_out += omp_in) initializer(hila::set_to_zero(omp_priv))\n";
                     sums++;
                 }
             }
diff --git a/libraries/plumbing/com_mpi.h b/libraries/plumbing/com_mpi.h
index 9a14782..667acb1 100644
--- a/libraries/plumbing/com_mpi.h
+++ b/libraries/plumbing/com_mpi.h
@@ -424,6 +424,12 @@ T reduce_node_product(T &var, bool allreduce = true) {
 void set_allreduce(bool on = true);
 bool get_allreduce();
 
+/// Initial value for thread copies of OpenMP sum reduction variables
+template <typename T>
+inline void set_to_zero(T &v) {
+    v = 0;
+}
+
 
 } // namespace hila
 
-- 
2.43.0


From ab47841ba3b93fd9560e8f864ff3a0614190d7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:42 +0000
Subject: [PATCH 21/69] fix: ExtendedPrecision minus unsigned integer, and
 comparisons with one, wrap around

---
 libraries/datatypes/extended.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/datatypes/extended.h b/libraries/datatypes/extended.h
index 0a47936..a8567a7 100644
--- a/libraries/datatypes/extended.h
+++ b/libraries/datatypes/extended.h
@@ -121,7 +121,7 @@ class ExtendedPrecision {
 
     template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
     inline const ExtendedPrecision &operator-=(const T &rhs) {
-        return *this += -rhs;
+        return *this += -static_cast<double>(rhs);
     }
 
     template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
@@ -232,7 +232,7 @@ inline ExtendedPrecision operator+(ExtendedPrecision a, const ExtendedPrecision
 // -
 template <typename A, typename B, std::enable_if_t<hila::AorB_extended<A, B>::value, int> = 0>
 inline ExtendedPrecision operator-(const A &a, const B &b) {
-    return a + (-b);
+    return a + (-ExtendedPrecision(b));
 }
 
 // *
-- 
2.43.0


From 293842d256d9951a4ad0ba3e76a365718b0e1268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 22/69] fix: FFT and reflect with no active directions return a
 copy of the input

---
 libraries/plumbing/fft.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libraries/plumbing/fft.h b/libraries/plumbing/fft.h
index 84f6058..a50fcd1 100644
--- a/libraries/plumbing/fft.h
+++ b/libraries/plumbing/fft.h
@@ -337,6 +337,13 @@ class hila_fft {
             }
         }
 
+        if (first_dir) {
+            // no active directions, nothing in the buffers: result is a copy of the input
+            if (&result != &input)
+                result = input;
+            return;
+        }
+
         save_result(result);
 
         result.mark_changed(ALL);
-- 
2.43.0


From 2cab8dde258ffd7545475ef4bdfce6d1e7cd0849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 23/69] fix: reflect() on lattices with odd size

---
 libraries/plumbing/backend_gpu/fft_gpu_transform.h | 2 +-
 libraries/plumbing/fft_fftw_transform.h            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/backend_gpu/fft_gpu_transform.h b/libraries/plumbing/backend_gpu/fft_gpu_transform.h
index 3d7cb6a..c23a4f9 100644
--- a/libraries/plumbing/backend_gpu/fft_gpu_transform.h
+++ b/libraries/plumbing/backend_gpu/fft_gpu_transform.h
@@ -567,7 +567,7 @@ __global__ void hila_reflect_dir_kernel(cmplx_t *RESTRICT data, const int colsiz
     if (ind < columns) {
         const int s = colsize * ind;
 
-        for (int i = 1; i < colsize / 2; i++) {
+        for (int i = 1; i < (colsize + 1) / 2; i++) {
             int i1 = s + i;
             int i2 = s + colsize - i;
             cmplx_t tmp = data[i1];
diff --git a/libraries/plumbing/fft_fftw_transform.h b/libraries/plumbing/fft_fftw_transform.h
index 3b80cb1..4f6b9b2 100644
--- a/libraries/plumbing/fft_fftw_transform.h
+++ b/libraries/plumbing/fft_fftw_transform.h
@@ -290,7 +290,7 @@ inline void hila_fft<cmplx_t>::reflect() {
         }
 
         // reflect
-        for (int j = 1; j < length / 2; j++) {
+        for (int j = 1; j < (length + 1) / 2; j++) {
             std::swap(buf[j], buf[length - j]);
         }
 
-- 
2.43.0


From 97628d28aaa939a2960e35b714f9c25589380988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 24/69] fix: FFT on blocked lattices where some ranks have no
 sites

---
 libraries/plumbing/fft.cpp | 53 ++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/libraries/plumbing/fft.cpp b/libraries/plumbing/fft.cpp
index aa627c8..4803191 100644
--- a/libraries/plumbing/fft.cpp
+++ b/libraries/plumbing/fft.cpp
@@ -1,6 +1,7 @@
 /// Static variables and functions for hila fft routines
 
 
+#include <algorithm>
 #include "plumbing/defs.h"
 #include "plumbing/timing.h"
 #include "plumbing/fft.h"
@@ -64,19 +65,32 @@ void init_pencil_direction(Direction dir) {
     if (fft.hila_pencil_comms[dir].size() == 0) {
         // basic structs not yet set, do it here
 
-        fft.hila_pencil_comms[dir].resize(lattice->nodes.n_divisions[dir]);
+        // Nodes without sites (possible on blocked lattices) do not take part, but every node
+        // has at least itself on the list
+        const bool no_sites = (lattice->mynode.volume == 0);
+
+        if (no_sites)
+            fft.hila_pencil_comms[dir].resize(1);
+        else
+            fft.hila_pencil_comms[dir].resize(lattice->nodes.n_divisions[dir]);
+
+        for (auto &fn : fft.hila_pencil_comms[dir])
+            fn.node = -1;
 
-        int nodenumber = 0;
         for (int nodenumber = 0; nodenumber < lattice->nodes.number; ++nodenumber) {
 
             const node_info n = lattice->nodes.nodeinfo(nodenumber);
 
             bool is_in_column = true;
-            foralldir (d)
-                if (d != dir && n.min[d] != lattice->mynode.min[d]) {
-                    is_in_column = false;
-                    break; // breaks out of foralldir
-                }
+            if (no_sites) {
+                is_in_column = (nodenumber == hila::myrank());
+            } else {
+                foralldir (d)
+                    if (n.size[d] == 0 || (d != dir && n.min[d] != lattice->mynode.min[d])) {
+                        is_in_column = false;
+                        break; // breaks out of foralldir
+                    }
+            }
 
             // store the nodes in the hila_pencil_comms -list in the right order -
             // nodes may be reordered by some weird layout
@@ -84,24 +98,35 @@ void init_pencil_direction(Direction dir) {
                 hila::pencil_struct fn;
                 fn.node = nodenumber;
                 fn.size_to_dir = n.size[dir];
-                for (int i = 0; i < lattice->nodes.n_divisions[dir]; i++) {
-                    if (n.min[dir] == lattice->nodes.divisors[dir][i]) {
-                        fft.hila_pencil_comms[dir].at(i) = fn;
+                if (no_sites) {
+                    fft.hila_pencil_comms[dir][0] = fn;
+                } else {
+                    for (int i = 0; i < lattice->nodes.n_divisions[dir]; i++) {
+                        if (n.min[dir] == lattice->nodes.divisors[dir][i]) {
+                            fft.hila_pencil_comms[dir].at(i) = fn;
+                            break;
+                        }
                     }
                 }
             }
         }
 
-        size_t total_columns = lattice->mynode.volume / lattice->mynode.size[dir];
+        // drop the places of nodes without sites
+        auto &comms = fft.hila_pencil_comms[dir];
+        comms.erase(std::remove_if(comms.begin(), comms.end(),
+                                   [](const hila::pencil_struct &fn) { return fn.node < 0; }),
+                    comms.end());
+
+        size_t total_columns = no_sites ? 0 : lattice->mynode.volume / lattice->mynode.size[dir];
 
         size_t nodes = fft.hila_pencil_comms[dir].size();
 
         // column offset and number are used for sending
         size_t i = 0;
         for (auto &fn : fft.hila_pencil_comms[dir]) {
-            fn.column_offset = ((i * total_columns) / nodes) * lattice->mynode.size[dir];
-            fn.column_number =
-                (((i + 1) * total_columns) / nodes) - fn.column_offset / lattice->mynode.size[dir];
+            size_t first_column = (i * total_columns) / nodes;
+            fn.column_offset = first_column * lattice->mynode.size[dir];
+            fn.column_number = ((i + 1) * total_columns) / nodes - first_column;
 
             if (fn.node == hila::myrank()) {
                 fft.hila_fft_my_columns[dir] = fn.column_number;
-- 
2.43.0


From 9339bb398bcbb1e931f245bac00a21966ab638e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 25/69] fix: k_binning keeps stale averages, counts and bin
 width when the binning is changed

---
 libraries/plumbing/spectraldensity.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libraries/plumbing/spectraldensity.h b/libraries/plumbing/spectraldensity.h
index 1a9f5f9..deb9e7b 100644
--- a/libraries/plumbing/spectraldensity.h
+++ b/libraries/plumbing/spectraldensity.h
@@ -75,6 +75,12 @@ class k_binning {
     std::vector<double> k_avg;
     std::vector<size_t> bin_count;
 
+    // binning has changed, averages and counts have to be calculated again
+    void clear_bin_info() {
+        k_avg.clear();
+        bin_count.clear();
+    }
+
   public:
     k_binning() {
         par.max = M_PI;
@@ -104,6 +110,7 @@ class k_binning {
         par.bins = n;
         par.bins_set = true;
         par.binwidth = par.max / par.bins;
+        clear_bin_info();
         return *this;
     }
 
@@ -118,7 +125,10 @@ class k_binning {
         if (!par.bins_set) {
             par.bins = ceil(par.max / par.binwidth);
             par.max = par.binwidth * par.bins;
+        } else {
+            par.binwidth = par.max / par.bins;
         }
+        clear_bin_info();
         return *this;
     }
 
@@ -132,6 +142,7 @@ class k_binning {
         par.bins = ceil(par.max / w);
         par.max = par.binwidth * par.bins;
         par.bins_set = false;
+        clear_bin_info();
         return *this;
     }
 
@@ -143,6 +154,7 @@ class k_binning {
     k_binning &power(double p) {
         assert(p > 0);
         par.power = p;
+        clear_bin_info();
         return *this;
     }
 
-- 
2.43.0


From 1a734b85e8f57d23ddefbf4342f7e9b0b14c143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 26/69] fix: SiteValueSelect, same site selected twice writes
 the value to a wrong place

---
 libraries/plumbing/site_select.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/site_select.h b/libraries/plumbing/site_select.h
index 3de66df..c561cde 100644
--- a/libraries/plumbing/site_select.h
+++ b/libraries/plumbing/site_select.h
@@ -292,8 +292,9 @@ class SiteValueSelect : public SiteSelect {
     }
 
     void select_site_value(const SiteIndex s, const T &val) {
-        values[current_index] = val;
         SiteSelect::select_site(s);
+        // now current_index points one past the selected site, also when it was selected already
+        values[current_index - 1] = val;
     }
 
 
-- 
2.43.0


From 0d9d1d9718a182003eeaca3293cd6da73757c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 27/69] fix: Clusters::find(VectorField), neighbours without a
 link between them were joined

---
 libraries/plumbing/clusters.h | 37 +++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/clusters.h b/libraries/plumbing/clusters.h
index 60f5181..26dca7b 100644
--- a/libraries/plumbing/clusters.h
+++ b/libraries/plumbing/clusters.h
@@ -294,14 +294,43 @@ class Clusters {
     template <typename inttype, std::enable_if_t<std::is_integral<inttype>::value, int> = 0>
     void find(const VectorField<inttype> &link) {
         assert_all_ranks_present();
-        Field<uint8_t> f{hila::Clusters::background};
+        // bit d of connected[X] tells if there is a link between X and X + d
+        Field<uint8_t> connected;
+        connected = 0;
         foralldir (d) {
             onsites (ALL) {
-                if (link[d][X] != 0 || link[d][X - d] != 0)
-                    f[X] = 1;
+                if (link[d][X] != 0)
+                    connected[X] |= 1 << static_cast<int>(d);
+                if (link[d][X - d] != 0)
+                    connected[X] |= 1 << static_cast<int>(-d);
             }
         }
-        find(f);
+
+        // sites without links are background
+        labels[ALL] = set_cl_label(X.coordinates(), connected[X] != 0 ? 1 : CLUSTER_BACKGROUND_);
+
+        // merge the labels only along the links
+        Reduction<int64_t> changed;
+        changed.delayed();
+        do {
+            changed = 0;
+            for (Parity par : {EVEN, ODD}) {
+                // take away annoying warning with pragma
+                #pragma hila safe_access(labels)
+                onsites (par) {
+                    for (Direction d = e_x; d < NDIRS; ++d) {
+                        auto label_1 = labels[X + d];
+                        if ((connected[X] & (1 << static_cast<int>(d))) != 0 &&
+                            labels[X] > label_1) {
+                            labels[X] = label_1;
+                            changed += 1;
+                        }
+                    }
+                }
+            }
+        } while (changed.value() > 0);
+
+        classify();
     }
 
 
-- 
2.43.0


From a6d5466f18d18665b183f347d628a6df05c134ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 28/69] fix: use of the lattice before lattice.setup() was not
 detected

---
 libraries/plumbing/lattice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/lattice.h b/libraries/plumbing/lattice.h
index 05bc2a9..ef8611a 100644
--- a/libraries/plumbing/lattice.h
+++ b/libraries/plumbing/lattice.h
@@ -443,7 +443,7 @@ class Lattice {
      */
 
     bool is_initialized() const {
-        return lat_ptr != nullptr;
+        return lat_ptr != nullptr && lat_ptr->l_volume > 0;
     }
 
     /**
-- 
2.43.0


From 8055043a735c285841c29a549c2137519fc678e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 29/69] fix: seed_random() left a gaussian random number of the
 old sequence in use

---
 libraries/plumbing/random.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/random.cpp b/libraries/plumbing/random.cpp
index 0a0bf80..5519969 100644
--- a/libraries/plumbing/random.cpp
+++ b/libraries/plumbing/random.cpp
@@ -35,6 +35,9 @@ double hila::host_random() {
 
 static bool rng_is_initialized = false;
 
+// does gaussrand() have a random number in reserve?
+static bool gaussrand_draw_new = true;
+
 namespace hila {
 
 /**
@@ -61,6 +64,9 @@ void initialize_host_rng(uint64_t seed) {
 
     seed = hila::shuffle_rng_seed(seed);
 
+    // forget possible gaussian random number left from the previous sequence
+    gaussrand_draw_new = true;
+
     // #if !defined(OPENMP)
     mersenne_twister_gen.seed(seed);
     // warm it up
@@ -221,12 +227,11 @@ double hila::gaussrand2(double &out2) {
  */  
 double hila::gaussrand() {
     static double second;
-    static bool draw_new = true;
-    if (draw_new) {
-        draw_new = false;
+    if (gaussrand_draw_new) {
+        gaussrand_draw_new = false;
         return hila::gaussrand2(second);
     }
-    draw_new = true;
+    gaussrand_draw_new = true;
     return second;
 }
 
-- 
2.43.0


From 9977b130690c724e433329e0f20a3e36d110543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 30/69] fix: interrupted checkpoint() left configuration and
 run_status inconsistent or unreadable

---
 libraries/tools/checkpoint.h | 48 ++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/libraries/tools/checkpoint.h b/libraries/tools/checkpoint.h
index d00b1df..04c4411 100644
--- a/libraries/tools/checkpoint.h
+++ b/libraries/tools/checkpoint.h
@@ -12,22 +12,41 @@
 /// Checkpoint keeps file "run_status" which holds the current trajectory.
 /// By modifying "run status" the number of trajectories can be changed
 
+/// A new checkpoint is first written to files "<config>.new" and "run_status.tmp", and when both
+/// are complete "run_status.tmp" is renamed to "run_status.new" and the files are moved to their
+/// final names. If the run is interrupted while checkpointing, restore_checkpoint() finds either
+/// the old or the new checkpoint, never a mixture of these.
+
 /// parameters-type must
 
 
+/// Move a complete new checkpoint to its final place, does nothing if there is none.
+
+inline void finish_checkpoint(const std::string &config_file, bool save_old = true) {
+    if_rank0() {
+        if (filesys_ns::exists("run_status.new")) {
+            if (filesys_ns::exists(config_file + ".new")) {
+                if (save_old && filesys_ns::exists(config_file))
+                    filesys_ns::rename(config_file, config_file + ".prev");
+                filesys_ns::rename(config_file + ".new", config_file);
+            }
+            filesys_ns::rename("run_status.new", "run_status");
+        }
+    }
+}
+
+
 template <typename group>
 void checkpoint(const GaugeField<group> &U, const std::string &config_file, int &n_trajectories,
                 int trajectory, bool save_old = true) {
 
     double t = hila::gettime();
 
-    if (save_old && hila::myrank() == 0 && filesys_ns::exists(config_file)) {
-        filesys_ns::rename(config_file, config_file + ".prev");
-        // rename config to config.prev
-    }
+    // an earlier checkpoint may have been interrupted
+    finish_checkpoint(config_file, save_old);
 
     // save config
-    U.config_write(config_file);
+    U.config_write(config_file + ".new");
 
 
     // check if n_trajectories has changed
@@ -44,17 +63,23 @@ void checkpoint(const GaugeField<group> &U, const std::string &config_file, int
         status.close();
     }
 
+    // write the status file
+    std::ofstream outf;
+    hila::open_output_file("run_status.tmp", outf, false);
     if_rank0() {
-
-        // write the status file
-        std::ofstream outf;
-        outf.open("run_status", std::ios::out | std::ios::trunc);
         outf << "trajectories " << n_trajectories
              << "   # CHANGE TO ADJUST NUMBER OF TRAJECTORIES IN THIS RUN\n";
         outf << "trajectory   " << trajectory + 1 << '\n';
         outf << "seed         " << static_cast<uint64_t>(hila::random() * (1UL << 61)) << '\n';
         outf << "time         " << hila::gettime() << '\n';
-        outf.close();
+    }
+    hila::close_file("run_status.tmp", outf);
+
+    if_rank0() {
+        // new checkpoint is now complete - use it
+        // config is renamed to config.prev, if save_old == true
+        filesys_ns::rename("run_status.tmp", "run_status.new");
+        finish_checkpoint(config_file, save_old);
 
         std::stringstream msg;
         msg << "Checkpointing, time " << hila::gettime() - t;
@@ -70,6 +95,9 @@ bool restore_checkpoint(GaugeField<group> &U, const std::string &config_file, in
     uint64_t seed;
     bool ok = true;
     hila::input status;
+
+    finish_checkpoint(config_file);
+
     if (status.open("run_status", false, false)) {
         hila::out0 << "RESTORING FROM CHECKPOINT:\n";
         int traj = status.get("trajectories");
-- 
2.43.0


From bbfc5b327e8f19bf17112352bdda01c7789fec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 31/69] fix: config_read() divided by zero if lattice size in
 the file is zero

---
 libraries/plumbing/gaugefield.h     | 2 +-
 libraries/plumbing/plaquettefield.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/gaugefield.h b/libraries/plumbing/gaugefield.h
index 1484a6f..7775273 100644
--- a/libraries/plumbing/gaugefield.h
+++ b/libraries/plumbing/gaugefield.h
@@ -253,7 +253,7 @@ class GaugeField {
             foralldir (d) {
                 inputfile.read(reinterpret_cast<char *>(&f), sizeof(int64_t));
                 insize[d] = f;
-                ok = ok && (lattice.size(d) % insize[d] == 0);
+                ok = ok && f > 0 && (lattice.size(d) % f == 0);
                 if (!ok)
                     hila::out0 << conferr << "incorrect lattice dimension " << hila::prettyprint(d)
                                << " is " << f << " should be (or divide)" << lattice.size(d)
diff --git a/libraries/plumbing/plaquettefield.h b/libraries/plumbing/plaquettefield.h
index 371c544..7e0b8d2 100644
--- a/libraries/plumbing/plaquettefield.h
+++ b/libraries/plumbing/plaquettefield.h
@@ -192,7 +192,7 @@ class PlaquetteField {
             foralldir(d) {
                 inputfile.read(reinterpret_cast<char *>(&f), sizeof(int64_t));
                 insize[d] = f;
-                ok = ok && (lattice.size(d) % insize[d] == 0);
+                ok = ok && f > 0 && (lattice.size(d) % f == 0);
                 if (!ok)
                     hila::out0 << conferr << "incorrect lattice dimension " << hila::prettyprint(d)
                                << " is " << f << " should be (or divide) " << lattice.size(d) << '\n';
-- 
2.43.0


From ac4513e830051c05c148a4340763496eea00de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 32/69] fix: right hand side of && and || in site loops is
 conditional

onsites(p) { n[X] > 0 && (a[X] = 5); } was translated as if a[X] were always
assigned: the old value was not read in and on sites where the left side is
false an uninitialized value was stored.
---
 hilapp/src/loop_function_visitor.cpp |  4 ++++
 hilapp/src/toplevelvisitor.cpp       | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/hilapp/src/loop_function_visitor.cpp b/hilapp/src/loop_function_visitor.cpp
index 757bed9..4a8297c 100644
--- a/hilapp/src/loop_function_visitor.cpp
+++ b/hilapp/src/loop_function_visitor.cpp
@@ -171,6 +171,10 @@ class loopFunctionVisitor : public GeneralVisitor, public RecursiveASTVisitor<lo
                 condexpr = SS->getCond();
             else if (ConditionalOperator *CO = dyn_cast<ConditionalOperator>(s))
                 condexpr = CO->getCond();
+            else if (BinaryOperator *BO = dyn_cast<BinaryOperator>(s)) {
+                if (BO->isLogicalOp())
+                    condexpr = BO->getLHS();
+            }
             if (condexpr != nullptr) {
                 this_ci->has_site_dependent_conditional =
                     is_site_dependent(condexpr, &conditional_vars);
diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index 936ae23..1dc3d70 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -1244,6 +1244,18 @@ bool TopLevelVisitor::handle_loop_body_stmt(Stmt *s) {
             return true;
         }
 
+        // the right hand side of && and || is evaluated conditionally
+        if (BinaryOperator *BO = dyn_cast<BinaryOperator>(E)) {
+            if (BO->isLogicalOp()) {
+                loop_info.has_conditional = true;
+                if (!loop_info.has_site_dependent_cond_or_index &&
+                    is_site_dependent(BO->getLHS(), &loop_info.conditional_vars)) {
+                    loop_info.has_site_dependent_cond_or_index = true;
+                    loop_info.condExpr = BO->getLHS();
+                }
+            }
+        }
+
         // check in general array-type access ops - may prevent vectorization
         // if index is site dependent
         if (is_site_dependent_access_op(E)) {
-- 
2.43.0


From 97e0ea3c3c3ac2c08811c9dd9312b7719b4a00b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:15 +0000
Subject: [PATCH 33/69] fix: ReductionVector elements can be assigned only with
 += or *= in site loops

Any other assignment operator was silently accepted and the reduction was
never done.
---
 hilapp/src/toplevelvisitor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index 1dc3d70..faeb17b 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -503,6 +503,14 @@ int TopLevelVisitor::handle_bracket_var_ref(bracket_ref_t &ref, const array_ref:
     if (site_dep || is_assign)
         loop_info.has_site_dependent_cond_or_index = true;
 
+    if (type == array_ref::REDUCTION && is_assign && assignop != "+=" && assignop != "*=") {
+        reportDiag(DiagnosticsEngine::Level::Error, ref.E->getSourceRange().getBegin(),
+                   "ReductionVector element can be only on the lhs of sum or product reduction "
+                   "('+=' or '*=')");
+        parsing_state.skip_children = 1;
+        return 1;
+    }
+
     reduction reduction_type;
     if (is_assign) {
         if (assignop == "+=")
-- 
2.43.0


From 3aa0efc046db2af1a5c965fbd7d62740e0c55306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:15 +0000
Subject: [PATCH 34/69] fix: refuse site loops which use the value of a
 reduction variable

Within the loop the variable holds a node local partial sum, and using it for
anything else than its reduction was accepted silently.
---
 hilapp/src/toplevelvisitor.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index faeb17b..5a543cb 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -1795,6 +1795,20 @@ void TopLevelVisitor::check_var_info_list() {
                     }
                 }
 
+                // the variable can be used only for one type of reduction and nothing else,
+                // its value during the loop is not meaningful
+                std::string op = (vi.reduction_type == reduction::SUM) ? "+=" : "*=";
+                for (auto &vr : vi.refs) {
+                    if (!vr.is_assigned || (vr.assignop != op &&
+                                            !(op == "+=" && vr.assignop == "-="))) {
+                        reportDiag(DiagnosticsEngine::Level::Error,
+                                   vr.ref->getSourceRange().getBegin(),
+                                   "reduction variable '%0' can be referred to only on the lhs of "
+                                   "'%1' within the site loop",
+                                   vi.name.c_str(), op.c_str());
+                    }
+                }
+
             } else if (vi.is_special_reduction_type) {
                 // Use Reduction<> -type vars only as reductions
                 for (auto &vr : vi.refs) {
-- 
2.43.0


From c67c8af4d30b10c077cdd65be36d8b235b14b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 35/69] fix: hila::input opened again started with the unread
 line of the previous file

---
 libraries/plumbing/input.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libraries/plumbing/input.cpp b/libraries/plumbing/input.cpp
index 173aa79..6fc1bcb 100644
--- a/libraries/plumbing/input.cpp
+++ b/libraries/plumbing/input.cpp
@@ -50,6 +50,9 @@ bool input::open(const std::string &file_name, bool use_cmdline, bool exit_on_er
             got_error = true;
         } else {
             filename = fname;
+            // nothing left from a file read earlier
+            linebuffer.clear();
+            lb_start = 0;
             if (fname == "-") {
                 use_cin = true;
                 if (speaking)
-- 
2.43.0


From 300a0161af767fa907426d9abc0972e9530db50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 36/69] fix: quoted string with # in a parameter file was cut
 as a comment

The program ended with 'unbalanced quotes'.
---
 libraries/plumbing/input.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libraries/plumbing/input.cpp b/libraries/plumbing/input.cpp
index 6fc1bcb..ff626b3 100644
--- a/libraries/plumbing/input.cpp
+++ b/libraries/plumbing/input.cpp
@@ -140,9 +140,16 @@ bool input::get_line() {
                 return false;
             }
         } while (linebuffer.at(0) == COMMENT_CHAR);
-        size_t i = linebuffer.find(COMMENT_CHAR);
-        if (i != std::string::npos)
-            linebuffer.resize(i);
+        // comment starts from COMMENT_CHAR which is not inside quotes
+        bool in_quotes = false;
+        for (size_t i = 0; i < linebuffer.size(); i++) {
+            if (linebuffer[i] == '"') {
+                in_quotes = !in_quotes;
+            } else if (linebuffer[i] == COMMENT_CHAR && !in_quotes) {
+                linebuffer.resize(i);
+                break;
+            }
+        }
         lb_start = 0;
 
         is_line_printed = false; // not yet printed
-- 
2.43.0


From 569e2baa54aef08445b86b9ada92961ed5abc4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 37/69] fix: parameter value followed by garbage, or float for
 an integer, was accepted

int n = f.get("n") of the line "n 1e3" gave 1; also get_item() matched %i with 1.343.
---
 libraries/plumbing/input.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/input.h b/libraries/plumbing/input.h
index b34af85..e031859 100644
--- a/libraries/plumbing/input.h
+++ b/libraries/plumbing/input.h
@@ -499,8 +499,8 @@ class input {
         ss >> val;
         if (ss.fail() || ss.bad())
             return false;
-        else
-            return true;
+        // the whole string must be the value: 1.5 or 1e3 is not an int, 1x not a number
+        return ss.peek() == std::istringstream::traits_type::eof();
     }
 
     bool is_value(const std::string &s, std::string &val);
-- 
2.43.0


From cc82023796b3da73d73320ee45a16399365ad8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 38/69] fix: complex value (re, im) in a parameter file could
 not be read

Only '( re , im )' with spaces around the parentheses was accepted.
---
 libraries/plumbing/input.cpp | 17 +++++++++++++++--
 libraries/plumbing/input.h   |  9 +++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/libraries/plumbing/input.cpp b/libraries/plumbing/input.cpp
index ff626b3..3442288 100644
--- a/libraries/plumbing/input.cpp
+++ b/libraries/plumbing/input.cpp
@@ -276,10 +276,12 @@ bool input::peek_token(std::string &tok) {
     return true;
 }
 
-// consumes the token too
+// consumes the token too.  If char end != 0, the token is cut before it
 
-bool input::get_token(std::string &tok) {
+bool input::get_token(std::string &tok, char end) {
     if (peek_token(tok)) {
+        if (end != 0)
+            tok.resize(std::min(tok.size(), tok.find(end)));
         lb_start += tok.size();
         return true;
     }
@@ -297,6 +299,17 @@ bool input::match_token(const std::string &tok) {
     return false;
 }
 
+// match_char returns true and consumes the next non-whitespace char if it is c
+
+bool input::match_char(char c) {
+    std::string s;
+    if (peek_token(s) && s.size() > 0 && s[0] == c) {
+        lb_start++;
+        return true;
+    }
+    return false;
+}
+
 // require the (typically beginning of line) key for parameters
 
 bool input::handle_key(const std::string &key) {
diff --git a/libraries/plumbing/input.h b/libraries/plumbing/input.h
index e031859..fa6829d 100644
--- a/libraries/plumbing/input.h
+++ b/libraries/plumbing/input.h
@@ -344,11 +344,11 @@ class input {
 
         if (hila::myrank() == 0 && no_error) {
             std::string tok;
-            T re, im;
+            T re = 0, im = 0;
 
             no_error =
-                (match_token("(") && get_token(tok) && is_value(tok, re) && match_token(",") &&
-                 get_token(tok) && is_value(tok, im) && match_token(")"));
+                (match_char('(') && get_token(tok) && is_value(tok, re) && match_token(",") &&
+                 get_token(tok, ')') && is_value(tok, im) && match_char(')'));
             if (!no_error && speaking) {
                 hila::out << "Error: expecting complex value '(re,im)' after '" << label << "'\n";
             }
@@ -486,8 +486,9 @@ class input {
     }
 
     bool peek_token(std::string &tok);
-    bool get_token(std::string &tok);
+    bool get_token(std::string &tok, char end = 0);
     bool match_token(const std::string &tok);
+    bool match_char(char c);
 
     void scan_cmdline(const std::string &key, int &end_of_key);
 
-- 
2.43.0


From 63e77e0580e974e1cf6724b6ff92ede7630fe1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 39/69] fix: reference variables in vectorized site loops were
 turned to copies

Vector<2,double> &t = v[X]; t.e(1) = 4; did not change the field, and double &t
did not compile.
---
 hilapp/src/codegen_avx_new.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hilapp/src/codegen_avx_new.cpp b/hilapp/src/codegen_avx_new.cpp
index 8961680..9ee24e3 100644
--- a/hilapp/src/codegen_avx_new.cpp
+++ b/hilapp/src/codegen_avx_new.cpp
@@ -662,8 +662,12 @@ std::string TopLevelVisitor::generate_code_avx(Stmt *S, bool semicolon_at_end, s
             // change declaration - name need not be changed
             // loopBuf.replace( vi.decl->getSourceRange(), vi.vecinfo.vectorized_type );
         
-            loopBuf.replace(vi.decl->getTypeSourceInfo()->getTypeLoc().getSourceRange(),
-                            vi.vecinfo.vectorized_type);
+            // a reference has to remain a reference
+            std::string vectype = vi.vecinfo.vectorized_type;
+            if (vi.decl->getType()->isReferenceType())
+                vectype += " &";
+
+            loopBuf.replace(vi.decl->getTypeSourceInfo()->getTypeLoc().getSourceRange(), vectype);
         }
     }
 
-- 
2.43.0


From cd300ae4396960a4fd818962b3a5d1eae2c36aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 40/69] fix: command line flag without its arguments was
 accepted as the last argument

---
 libraries/plumbing/cmdline.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/libraries/plumbing/cmdline.cpp b/libraries/plumbing/cmdline.cpp
index eed6ff2..a66c650 100644
--- a/libraries/plumbing/cmdline.cpp
+++ b/libraries/plumbing/cmdline.cpp
@@ -147,30 +147,21 @@ strvec cmdlinearguments::read_arg_vector(const char *flag) {
             // options
             *(p_ind++) = 1;
             i++;
-            if (i < myargc)
-                p = myargv[i];
-            else {
-                break;
-            }
             // Check if the string is a valid input
             // (Not of type ^-[a-zA-Z].*)
             // and push into vector uargs
-            while (!std::regex_match(p, forbidden_user_input)) {
+            while (i < myargc && !std::regex_match(myargv[i], forbidden_user_input)) {
                 *(p_ind++) = 1;
-                uargs.push_back(std::string(p));
+                uargs.push_back(std::string(myargv[i]));
                 i++;
                 n++;
-                if (i < myargc)
-                    p = myargv[i];
-                else
-                    break;
             }
 
             // If we stopped on another 'flag' for whatever
             // reason, set the current index to be removed
             // and compensate for the for loop increase in
             // i and p_ind
-            if (std::strcmp(p, flag) == 0) {
+            if (i < myargc && std::strcmp(myargv[i], flag) == 0) {
                 *(p_ind--) = 1;
                 i--;
             }
-- 
2.43.0


From f06c6d8367ea3ae55395f69fd922085d68a01e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 41/69] fix: values() of an unknown command line flag was not
 refused The flag was inserted to the map before looking for it there.

---
 libraries/plumbing/cmdline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/cmdline.cpp b/libraries/plumbing/cmdline.cpp
index a66c650..78d9a01 100644
--- a/libraries/plumbing/cmdline.cpp
+++ b/libraries/plumbing/cmdline.cpp
@@ -74,11 +74,11 @@ void cmdlinearguments::initialise_args(int argc0, char **argv0) {
 /// @return vector of arguments
 ////////////////////////////////////////////////////////////////////////////////
 strvec cmdlinearguments::values(const std::string &flag) {
-    strvec valvec = argmap[flag].val_strings;
     if (argmap.count(flag) == 0) {
         hila::out0 << "Flag '" << flag << "' is not recognized!\n";
         quit_with_help();
     }
+    strvec valvec = argmap[flag].val_strings;
 
     if (valvec.size() == 0) {
         hila::out0 << "\n\nFlag '" << flag << "' has no entries"
-- 
2.43.0


From 06faffdad500bc7f8ffdd49d72ee26db3b9e0719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 42/69] fix: timer started again after reset() was stored twice
 in the list of timers It was reported twice, and the other pointer remained
 when the timer was destroyed.

---
 libraries/plumbing/timing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/timing.cpp b/libraries/plumbing/timing.cpp
index 6f5abf0..e4d35c7 100644
--- a/libraries/plumbing/timing.cpp
+++ b/libraries/plumbing/timing.cpp
@@ -12,6 +12,7 @@
 #include "com_mpi.h"
 
 // these includes need to be outside namespace hila
+#include <algorithm>
 #include <csignal>
 #include <cstring>
 
@@ -66,7 +67,7 @@ double timer::start() {
 
     // Move storing the timer ptr here, because if timer is initialized
     // in the global scope the timer_list is possibly initialized later!
-    if (count == 0) {
+    if (count == 0 && std::find(timer_list.begin(), timer_list.end(), this) == timer_list.end()) {
         timer_list.push_back(this);
     }
 
-- 
2.43.0


From 642f18491abc1d56cde64495887b39fc138fda10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 43/69] fix: malformed time limit -t was accepted '5m' was 5
 seconds, '1::2' 1 second, and '-5' 136 years.

---
 libraries/plumbing/timing.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/timing.cpp b/libraries/plumbing/timing.cpp
index e4d35c7..3374c48 100644
--- a/libraries/plumbing/timing.cpp
+++ b/libraries/plumbing/timing.cpp
@@ -15,6 +15,7 @@
 #include <algorithm>
 #include <csignal>
 #include <cstring>
+#include <regex>
 
 namespace hila {
 
@@ -242,10 +243,13 @@ void setup_timelimit(const std::string &timestr) {
             // use short circuiting of || here to stop parsing on 1st match
             // zeroing the incorrectly read time variables in the same chain
             int nargs = 5;
-            if (std::sscanf(str, "%u-%u:%u:%u", &d, &h, &m, &s) == --nargs ||
-                std::sscanf(str, "%u:%u:%u", &h, &m, &s) == --nargs ||
-                std::sscanf(str, "%u:%u", &m, &s) == --nargs ||
-                std::sscanf(str, "%u", &s) == --nargs) {
+            // the format is checked first: sscanf accepts also e.g. "5m", "1::2" or "-5"
+            static const std::regex format("((([0-9]+-)?[0-9]+:)?[0-9]+:)?[0-9]+");
+            if (std::regex_match(str, format) &&
+                (std::sscanf(str, "%u-%u:%u:%u", &d, &h, &m, &s) == --nargs ||
+                 std::sscanf(str, "%u:%u:%u", &h, &m, &s) == --nargs ||
+                 std::sscanf(str, "%u:%u", &m, &s) == --nargs ||
+                 std::sscanf(str, "%u", &s) == --nargs)) {
 
                 if (nargs < 4) d = 0;
                 if (nargs < 3) h = 0;
-- 
2.43.0


From 5bffb8178419cacffa0244309708fe5c4de051f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 44/69] fix: DiagonalMatrix::transpose() did not compile

---
 libraries/datatypes/diagonal_matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/diagonal_matrix.h b/libraries/datatypes/diagonal_matrix.h
index ad3059a..4a06e8b 100644
--- a/libraries/datatypes/diagonal_matrix.h
+++ b/libraries/datatypes/diagonal_matrix.h
@@ -269,7 +269,7 @@ class DiagonalMatrix {
     /**
      * @brief transpose - leaves diagonal matrix as is
      */
-    DiagonalMatrix &transpose() const {
+    const DiagonalMatrix &transpose() const {
         return *this;
     }
 
-- 
2.43.0


From 687b5be1c7f24d0404670d851bc06696f060f6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 45/69] fix: D += D.e(0) and similar used the already changed
 element

Matrix += and DiagonalMatrix op= took the scalar by reference, unlike the other operators.
---
 libraries/datatypes/diagonal_matrix.h | 8 ++++----
 libraries/datatypes/matrix.h          | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libraries/datatypes/diagonal_matrix.h b/libraries/datatypes/diagonal_matrix.h
index 4a06e8b..81a2947 100644
--- a/libraries/datatypes/diagonal_matrix.h
+++ b/libraries/datatypes/diagonal_matrix.h
@@ -187,7 +187,7 @@ class DiagonalMatrix {
 
 
     template <typename S, std::enable_if_t<hila::is_assignable<T &, S>::value, int> = 0>
-    DiagonalMatrix &operator+=(const S &rhs) & {
+    DiagonalMatrix &operator+=(const S rhs) & {
         for (int i = 0; i < n; i++) {
             c[i] += rhs;
         }
@@ -206,7 +206,7 @@ class DiagonalMatrix {
 
 
     template <typename S, std::enable_if_t<hila::is_assignable<T &, S>::value, int> = 0>
-    DiagonalMatrix &operator-=(const S &rhs) & {
+    DiagonalMatrix &operator-=(const S rhs) & {
         for (int i = 0; i < n; i++) {
             c[i] -= rhs;
         }
@@ -227,7 +227,7 @@ class DiagonalMatrix {
 
     template <typename S,
               std::enable_if_t<hila::is_assignable<T &, hila::type_mul<T, S>>::value, int> = 0>
-    DiagonalMatrix &operator*=(const S &rhs) & {
+    DiagonalMatrix &operator*=(const S rhs) & {
         for (int i = 0; i < n; i++) {
             c[i] *= rhs;
         }
@@ -248,7 +248,7 @@ class DiagonalMatrix {
 
     template <typename S,
               std::enable_if_t<hila::is_assignable<T &, hila::type_div<T, S>>::value, int> = 0>
-    DiagonalMatrix &operator/=(const S &rhs) & {
+    DiagonalMatrix &operator/=(const S rhs) & {
         for (int i = 0; i < n; i++) {
             c[i] /= rhs;
         }
diff --git a/libraries/datatypes/matrix.h b/libraries/datatypes/matrix.h
index a049a20..d3b5011 100644
--- a/libraries/datatypes/matrix.h
+++ b/libraries/datatypes/matrix.h
@@ -810,7 +810,7 @@ class Matrix_t {
      */
     template <typename S,
               std::enable_if_t<hila::is_assignable<T &, hila::type_plus<T, S>>::value, int> = 0>
-    auto &operator+=(const S &rhs) & {
+    auto &operator+=(const S rhs) & {
 
         static_assert(n == m, "rows != columns : scalar addition possible for square matrix only!");
 
-- 
2.43.0


From db0817e43d48c83aa8a30c6471fe4f396f3993df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 46/69] fix: hila::elem functions of two types returned a
 reference to a destroyed temporary

back() converted the result to the requested type and returned it by reference.
---
 libraries/datatypes/element_by_element.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/element_by_element.h b/libraries/datatypes/element_by_element.h
index 9ad6a2c..ccf4ed3 100644
--- a/libraries/datatypes/element_by_element.h
+++ b/libraries/datatypes/element_by_element.h
@@ -43,7 +43,7 @@ auto &to_array(const T &m) {
 }
 
 template <typename T, typename A, std::enable_if_t<hila::is_matrix<T>::value, int> = 0>
-const T &back(const A &m) {
+T back(const A &m) {
     return m.asMatrix();
 }
 
-- 
2.43.0


From d521f627df89c961e77280071d16d004c1acad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 47/69] fix: DiagonalMatrix times a vector or rectangular
 matrix returned a square matrix

Only a part of the elements was set, or elements were written past the result.
---
 libraries/datatypes/diagonal_matrix.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libraries/datatypes/diagonal_matrix.h b/libraries/datatypes/diagonal_matrix.h
index 81a2947..76e0105 100644
--- a/libraries/datatypes/diagonal_matrix.h
+++ b/libraries/datatypes/diagonal_matrix.h
@@ -773,7 +773,8 @@ inline Rtype operator-(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 // multiply by matrix
 
 template <int n, typename T, typename Mtype, std::enable_if_t<Mtype::is_matrix(), int> = 0,
-          typename Rtype = hila::mat_x_mat_type<Matrix<n, n, T>, Mtype>>
+          typename Rtype =
+              hila::mat_x_mat_type<Matrix<Mtype::rows(), Mtype::columns(), T>, Mtype>>
 inline Rtype operator*(const DiagonalMatrix<n, T> &a, const Mtype &b) {
 
     constexpr int mr = Mtype::rows();
@@ -789,7 +790,8 @@ inline Rtype operator*(const DiagonalMatrix<n, T> &a, const Mtype &b) {
 }
 
 template <int n, typename T, typename Mtype, std::enable_if_t<Mtype::is_matrix(), int> = 0,
-          typename Rtype = hila::mat_x_mat_type<Matrix<n, n, T>, Mtype>>
+          typename Rtype =
+              hila::mat_x_mat_type<Matrix<Mtype::rows(), Mtype::columns(), T>, Mtype>>
 inline Rtype operator*(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 
     constexpr int mr = Mtype::rows();
@@ -806,7 +808,8 @@ inline Rtype operator*(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 
 // division
 template <int n, typename T, typename Mtype, std::enable_if_t<Mtype::is_matrix(), int> = 0,
-          typename Rtype = hila::mat_x_mat_type<Matrix<n, n, T>, Mtype>>
+          typename Rtype =
+              hila::mat_x_mat_type<Matrix<Mtype::rows(), Mtype::columns(), T>, Mtype>>
 inline Rtype operator/(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 
     constexpr int mr = Mtype::rows();
-- 
2.43.0


From 4960dd4d00b8d0246bff2a272b79648140eca58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 48/69] fix: z /= z.re and z /= z.im used the already changed
 part

---
 libraries/datatypes/cmplx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/cmplx.h b/libraries/datatypes/cmplx.h
index aa6869a..b626ebd 100644
--- a/libraries/datatypes/cmplx.h
+++ b/libraries/datatypes/cmplx.h
@@ -503,7 +503,7 @@ class Complex {
      * @return Complex<T>&
      */
     template <typename A, std::enable_if_t<hila::is_assignable<Complex<T> &, A>::value, int> = 0>
-    inline Complex<T> &operator/=(const A &lhs) & {
+    inline Complex<T> &operator/=(const A lhs) & {
         if constexpr (hila::is_complex<A>::value) {
 
             T m = 1.0 / max(::abs(lhs.re), ::abs(lhs.im));
-- 
2.43.0


From b3680a378f90547772a85b6df0614ffd6f8d3a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 49/69] fix: chsexp() did not give the exponential of the
 matrix The signs of the characteristic polynomial coefficients were wrong.

---
 libraries/datatypes/matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/datatypes/matrix.h b/libraries/datatypes/matrix.h
index d3b5011..c2ee68f 100644
--- a/libraries/datatypes/matrix.h
+++ b/libraries/datatypes/matrix.h
@@ -4352,13 +4352,13 @@ inline Matrix_t<n, m, T, MT> chsexp(const Matrix_t<n, m, T, MT> &mat) {
     int ip = 0;
     tB[ip] = 1.;
     T tc = trace(mat);
-    crpl[n - 1] = tc;
+    crpl[n - 1] = -tc;
     tB[1 - ip] = mat;
     for (k = 2; k <= n; ++k) {
         tB[1 - ip] -= tc;
         mult(mat, tB[1 - ip], tB[ip]);
         tc = trace(tB[ip]) / k;
-        crpl[n - k] = tc;
+        crpl[n - k] = -tc;
         ip = 1 - ip;
     }
 
-- 
2.43.0


From 5c815c0feaf0cecbf8195bfaa729af3d2af3f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 50/69] fix: derivatives of chexp(), mult_chexp(), chexpk()
 were truncated for nilpotent matrices The iteration ended when the terms of
 the exponential vanished, the terms of the derivative do not vanish there
 yet.

---
 libraries/datatypes/matrix.h | 38 ++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/libraries/datatypes/matrix.h b/libraries/datatypes/matrix.h
index c2ee68f..1be1914 100644
--- a/libraries/datatypes/matrix.h
+++ b/libraries/datatypes/matrix.h
@@ -3719,18 +3719,16 @@ inline void chexp(const Matrix_t<n, m, T, MT> &mat, out_only Matrix_t<n, m, T, M
         }
         ttwpf = twpf;
         twpf += wpf * rss;
-        if (ttwpf == twpf) {
-            // terminate iteration when numeric value of twpf stops changing
-            break;
-        }
 
         // add new terms to kmats and update kh :
         // (note: since kmats and kh are symmetric, we operate only on their upper triangles)
+        s = 0;
         for (i = n - 1; i >= 0; --i) {
             cho = kh.e(i, n - 1) * rs;
             for (k = n - 1; k > i; --k) {
                 kh.e(i, k) = kh.e(i, k - 1) * rs - cho * crpl[k];
                 kmats.e(i, k) += wpf * kh.e(i, k);
+                s += ::squarenorm(kh.e(i, k));
             }
             if (i > 0) {
                 kh.e(i, i) = kh.e(i - 1, i) * rs - cho * crpl[i];
@@ -3738,6 +3736,12 @@ inline void chexp(const Matrix_t<n, m, T, MT> &mat, out_only Matrix_t<n, m, T, M
                 kh.e(i, i) = pal[i] * rs - cho * crpl[i];
             }
             kmats.e(i, i) += wpf * kh.e(i, i);
+            s += ::squarenorm(kh.e(i, i));
+        }
+        if (ttwpf == twpf && twpf + wpf * sqrt(s) == twpf) {
+            // terminate iteration when numeric value of twpf stops changing and also the terms
+            // of kmats are negligible (if mat is nilpotent pal[] vanishes before kh)
+            break;
         }
     }
 
@@ -3948,18 +3952,16 @@ inline void mult_chexp(const Matrix_t<n, m, T, MT> &mat, const Matrix_t<n, m, T,
         }
         ttwpf = twpf;
         twpf += wpf * rss;
-        if (ttwpf == twpf) {
-            // terminate iteration when numeric value of twpf stops changing
-            break;
-        }
 
         // add new terms to kmats and update kh :
         // (note: since kmats and kh are symmetric, we operate only on their upper triangles)
+        s = 0;
         for (i = n - 1; i >= 0; --i) {
             cho = kh.e(i, n - 1) * rs;
             for (k = n - 1; k > i; --k) {
                 kh.e(i, k) = kh.e(i, k - 1) * rs - cho * crpl[k];
                 kmats.e(i, k) += wpf * kh.e(i, k);
+                s += ::squarenorm(kh.e(i, k));
             }
             if (i > 0) {
                 kh.e(i, i) = kh.e(i - 1, i) * rs - cho * crpl[i];
@@ -3967,6 +3969,12 @@ inline void mult_chexp(const Matrix_t<n, m, T, MT> &mat, const Matrix_t<n, m, T,
                 kh.e(i, i) = pal[i] * rs - cho * crpl[i];
             }
             kmats.e(i, i) += wpf * kh.e(i, i);
+            s += ::squarenorm(kh.e(i, i));
+        }
+        if (ttwpf == twpf && twpf + wpf * sqrt(s) == twpf) {
+            // terminate iteration when numeric value of twpf stops changing and also the terms
+            // of kmats are negligible (if mat is nilpotent pal[] vanishes before kh)
+            break;
         }
     }
 
@@ -4169,19 +4177,16 @@ inline void chexpk(const Matrix_t<n, m, T, MT> &mat, out_only Matrix_t<n, m, T,
         }
         ttwpf = twpf;
         twpf += wpf * rss;
-        if (ttwpf == twpf) {
-            // terminate iteration when numeric value of twpf stops changing
-            jmax = j;
-            break;
-        }
 
         // add new terms to kmats and update kh :
         // (note: since kmats and kh are symmetric, we operate only on their upper triangles)
+        s = 0;
         for (i = n - 1; i >= 0; --i) {
             cho = kh.e(i, n - 1) * rs;
             for (k = n - 1; k > i; --k) {
                 kh.e(i, k) = kh.e(i, k - 1) * rs - cho * crpl[k];
                 kmats.e(i, k) += wpf * kh.e(i, k);
+                s += ::squarenorm(kh.e(i, k));
             }
             if (i > 0) {
                 kh.e(i, i) = kh.e(i - 1, i) * rs - cho * crpl[i];
@@ -4189,6 +4194,13 @@ inline void chexpk(const Matrix_t<n, m, T, MT> &mat, out_only Matrix_t<n, m, T,
                 kh.e(i, i) = pal[i] * rs - cho * crpl[i];
             }
             kmats.e(i, i) += wpf * kh.e(i, i);
+            s += ::squarenorm(kh.e(i, i));
+        }
+        if (ttwpf == twpf && twpf + wpf * sqrt(s) == twpf) {
+            // terminate iteration when numeric value of twpf stops changing and also the terms
+            // of kmats are negligible (if mat is nilpotent pal[] vanishes before kh)
+            jmax = j;
+            break;
         }
     }
 
-- 
2.43.0


From ff16e42ed0321e6e436388da38a24b0b6a662b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 51/69] fix: svd() and svd_pivot() gave NaN or non-unitary U
 for singular matrices Columns with zero norm were divided by it, and columns
 which are only rounding noise were not orthogonal to the others.

---
 libraries/datatypes/matrix_linalg.h | 49 +++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/libraries/datatypes/matrix_linalg.h b/libraries/datatypes/matrix_linalg.h
index 37c2f95..bbdb2d0 100644
--- a/libraries/datatypes/matrix_linalg.h
+++ b/libraries/datatypes/matrix_linalg.h
@@ -152,6 +152,43 @@ GivensMatrix<Dtype> diagonalize_2x2(const double mpp, const double mqq, const Dt
     return res;
 }
 
+/** @internal Finish SVD: divide M = U S by the norms of the columns, which are the singular values.
+ * If the matrix is singular or almost so, columns with zero or very small norm do not have a direction
+ * or it is not orthogonal to the others.  Orthogonalize columns to the ones with larger singular
+ * values, so that U is always unitary.
+ */
+
+template <int n, typename Dtype>
+inline void normalize_svd_columns(SquareMatrix<n, Dtype> &M, DiagonalMatrix<n, double> &S) {
+
+    for (int i = 0; i < n; i++)
+        S.e(i) = M.column(i).norm();
+
+    Vector<n, int> perm;
+    S.sort(perm, hila::sort::descending);
+
+    for (int i = 0; i < n; i++) {
+        // first try the column itself, and if nothing is left the coordinate vectors
+        double len2 = 0;
+        for (int k = -1; k < n && len2 < 0.5 / n; k++) {
+            Vector<n, Dtype> v = 0;
+            if (k >= 0)
+                v.e(k) = 1;
+            else if (S.e(perm[i]) > 0)
+                v = M.column(perm[i]) / S.e(perm[i]);
+
+            for (int twice = 0; twice < 2; twice++) {
+                for (int j = 0; j < i; j++) {
+                    Vector<n, Dtype> col = M.column(perm[j]);
+                    v -= col * col.dot(v);
+                }
+            }
+            len2 = v.squarenorm();
+            if (len2 >= 0.5 / n)
+                M.set_column(perm[i], v / sqrt(len2));
+        }
+    }
+}
 
 } // namespace hila
 
@@ -406,11 +443,7 @@ int Matrix_t<n, m, T, Mtype>::svd_pivot(out_only Matrix_t<n, n, Mt, MT> &_U,
 
     // Now M = U S. Normalize columns
 
-    for (int i = 0; i < n; i++) {
-        auto col = M.column(i);
-        S.e(i) = col.norm();
-        M.set_column(i, col / S.e(i));
-    }
+    hila::normalize_svd_columns(M, S);
 
     if (sorted == hila::sort::unsorted) {
 
@@ -531,11 +564,7 @@ int Matrix_t<n, m, T, Mtype>::svd(out_only Matrix_t<n, n, Mt, MT> &_U,
 
     // Now M = U S. Normalize columns
 
-    for (int i = 0; i < n; i++) {
-        auto col = M.column(i);
-        S.e(i) = col.norm();
-        M.set_column(i, col / S.e(i));
-    }
+    hila::normalize_svd_columns(M, S);
 
     if (sorted == hila::sort::unsorted) {
 
-- 
2.43.0


From 4b9b7d8cdf5d1bc88bf8011f600cb2facfd5c5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 52/69] fix: det() of integer matrices larger than 4x4 was
 wrong LU decomposition does not work with integers.

---
 libraries/datatypes/matrix_linalg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/datatypes/matrix_linalg.h b/libraries/datatypes/matrix_linalg.h
index bbdb2d0..facce28 100644
--- a/libraries/datatypes/matrix_linalg.h
+++ b/libraries/datatypes/matrix_linalg.h
@@ -880,14 +880,14 @@ T Matrix_t<n, m, T, Mtype>::det_lu() const {
 
 
 /**
- * @brief determinant function - if matrix size is < 5, use Laplace, otherwise LU
+ * @brief determinant function - if matrix size is < 5 or it is integer, use Laplace, otherwise LU
  */
 
 #pragma hila novector
 template <int n, int m, typename T, typename Mtype>
 T Matrix_t<n, m, T, Mtype>::det() const {
     static_assert(n == m, "Determinant only for square matrix");
-    if constexpr (n < 5)
+    if constexpr (n < 5 || std::is_integral<hila::arithmetic_type<T>>::value)
         return this->det_laplace();
     else
         return this->det_lu();
-- 
2.43.0


From 539509731c62af72cb647b1b6bbfe844368f49f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 53/69] fix: svd() gave NaN if the rotation underflows

---
 libraries/datatypes/matrix_linalg.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libraries/datatypes/matrix_linalg.h b/libraries/datatypes/matrix_linalg.h
index facce28..351ba3a 100644
--- a/libraries/datatypes/matrix_linalg.h
+++ b/libraries/datatypes/matrix_linalg.h
@@ -142,6 +142,13 @@ GivensMatrix<Dtype> diagonalize_2x2(const double mpp, const double mqq, const Dt
     // leave / 2|mpq| away, avoid divby0
     double a = (mqq - mpp);
 
+    // nothing to rotate if |mpq|^2 is zero (or underflows to it)
+    if (mpq2 == 0.0) {
+        res.c = 1.0;
+        res.s = 0;
+        return res;
+    }
+
     // now t is above t / |mpq|
     double t = 2.0 / (abs(a) + sqrt(a * a + 4 * mpq2));
     if (a < 0.0)
-- 
2.43.0


From 9cd819ec6414e40ae062621dfb7524feae22bc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 54/69] fix: altexp() stopped too early if a term did not
 change the norm of the sum

---
 libraries/datatypes/matrix.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/libraries/datatypes/matrix.h b/libraries/datatypes/matrix.h
index 1be1914..494c490 100644
--- a/libraries/datatypes/matrix.h
+++ b/libraries/datatypes/matrix.h
@@ -3309,7 +3309,7 @@ inline Matrix_t<n, m, T, MT> exp(const Matrix_t<n, m, T, MT> &mat, const int ord
 
 /**
  * @brief Calculate exp of a square matrix
- * @details Adds higher order terms till matrix norm converges within floating point accuracy and
+ * @details Adds higher order terms till they are negligible within floating point accuracy and
  * returns required number of iterations
 
  * @tparam n Number of rowsMa
@@ -3325,15 +3325,14 @@ inline Matrix_t<n, m, T, MT> altexp(const Matrix_t<n, m, T, MT> &mat, out_only i
     atype one = 1.0;
     Matrix_t<n, m, T, MT> r = mat, mpow = mat;
     r += one;
-    atype orsqnorm, rsqnorm = r.squarenorm();
     niter = 1;
     for (int k = 2; k < n * 15; ++k) {
         mpow *= mat;
         mpow *= (one / k);
         r += mpow;
-        orsqnorm = rsqnorm;
-        rsqnorm = r.squarenorm();
-        if (rsqnorm == orsqnorm) {
+        // stop when the last term is negligible
+        atype rnorm = r.norm();
+        if (rnorm + mpow.norm() == rnorm) {
             niter = k;
             break;
         }
@@ -3344,7 +3343,7 @@ inline Matrix_t<n, m, T, MT> altexp(const Matrix_t<n, m, T, MT> &mat, out_only i
 
 /**
  * @brief Calculate exp of a square matrix
- * @details Adds hihger order terms till matrix norm converges within floating point accuracy
+ * @details Adds higher order terms till they are negligible within floating point accuracy
 
  * @tparam n Number of rowsMa
  * @tparam T Matrix element type
@@ -3358,14 +3357,13 @@ inline Matrix_t<n, m, T, MT> altexp(const Matrix_t<n, m, T, MT> &mat) {
     atype one = 1.0;
     Matrix_t<n, m, T, MT> r = mat, mpow = mat;
     r += one;
-    atype orsqnorm, rsqnorm = r.squarenorm();
     for (int k = 2; k < n * 15; ++k) {
         mpow *= mat;
         mpow *= (one / k);
         r += mpow;
-        orsqnorm = rsqnorm;
-        rsqnorm = r.squarenorm();
-        if (rsqnorm == orsqnorm) {
+        // stop when the last term is negligible
+        atype rnorm = r.norm();
+        if (rnorm + mpow.norm() == rnorm) {
             break;
         }
     }
-- 
2.43.0


From d13aef755effd55ebfb023e55e9bbd40533080b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 55/69] fix: U1 * U1 and printing of U1 did not compile

---
 libraries/datatypes/u1.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/datatypes/u1.h b/libraries/datatypes/u1.h
index 7980869..c835c43 100644
--- a/libraries/datatypes/u1.h
+++ b/libraries/datatypes/u1.h
@@ -119,7 +119,7 @@ inline T imag(const U1<T> arg) {
 /// and U1*U1
 template <typename T>
 inline U1<T> operator*(U1<T> a, const U1<T> b) {
-    a += b;
+    a *= b;
     return a;
 }
 
@@ -144,7 +144,7 @@ inline Complex<hila::type_mul<T, S>> operator*(const Complex<S> &b, const U1<T>
 /// Stream operator
 template <typename T>
 std::ostream &operator<<(std::ostream &strm, const U1<T> A) {
-    return operator<<(strm, A.phase);
+    return strm << A.phase;
 }
 
 
-- 
2.43.0


From baee2ac0ef6301417c3daf4033fa5041e23bd535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:42 +0000
Subject: [PATCH 56/69] fix: project_to_algebra_bilinear(w[N][N]) used w[l][k]
 instead of w[k][l]

---
 libraries/datatypes/sun_matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/sun_matrix.h b/libraries/datatypes/sun_matrix.h
index 2f82160..b896589 100644
--- a/libraries/datatypes/sun_matrix.h
+++ b/libraries/datatypes/sun_matrix.h
@@ -716,7 +716,7 @@ void project_to_algebra_bilinear(const MT (&w)[N][N],
             for (auto el1 = gen1.c; el1 != gen1.c + gen1.size; ++el1) {
                 for (auto el2 = gen2.c; el2 != gen2.c + gen2.size; ++el2) {
                     temp +=
-                        real(el1->val * w[el2->ind1][el2->ind2].e(el1->ind2, el1->ind1) * el2->val);
+                        real(el1->val * w[el2->ind2][el2->ind1].e(el1->ind2, el1->ind1) * el2->val);
                 }
             }
             omat.e(i1, i2) = -2.0 * temp;
-- 
2.43.0


From 3c0f30cbc10387c13243ca356de53a3ec6eb4032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 57/69] fix: SU2 assignment from initializer list did not
 return a value

---
 libraries/datatypes/su2.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libraries/datatypes/su2.h b/libraries/datatypes/su2.h
index f166fc6..e1d5afd 100644
--- a/libraries/datatypes/su2.h
+++ b/libraries/datatypes/su2.h
@@ -120,6 +120,7 @@ class SU2 {
         b = *(it++);
         c = *(it++);
         d = *(it);
+        return *this;
     }
 #pragma hila loop_function
     /// assign from 'scalar'
-- 
2.43.0


From 29a281a2a9b8d892df42afd18877197c552772d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 58/69] fix: SU2::exp() used uninitialized elements

---
 libraries/datatypes/su2.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libraries/datatypes/su2.h b/libraries/datatypes/su2.h
index e1d5afd..e1f9e9b 100644
--- a/libraries/datatypes/su2.h
+++ b/libraries/datatypes/su2.h
@@ -247,9 +247,9 @@ class SU2 {
         T ed = ::exp(d);
         T sr = ed * ::sin(r) / r;
         ret.d = ed * ::cos(r);
-        ret.a *= sr;
-        ret.b *= sr;
-        ret.c *= sr;
+        ret.a = sr * a;
+        ret.b = sr * b;
+        ret.c = sr * c;
         return ret;
     }
 
-- 
2.43.0


From 16076da7abfc803bec2b02e6ef926502902f7ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:20 +0000
Subject: [PATCH 59/69] fix: SU2::log() was inaccurate or NaN near +1 and -1

---
 libraries/datatypes/su2.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libraries/datatypes/su2.h b/libraries/datatypes/su2.h
index e1f9e9b..2d0074a 100644
--- a/libraries/datatypes/su2.h
+++ b/libraries/datatypes/su2.h
@@ -257,14 +257,17 @@ class SU2 {
     /// SU2 matrix log, returns SU2 algebra
     inline Algebra<SU2<T>> log() const {
         //$ exp(U) = A => U = log(A)$
-        // (a,b,c) -> (a,b,c)*arcCos(r)/r
+        // (a,b,c) -> (a,b,c)*atan2(r,d)/r, r = sqrt(a^2+b^2+c^2)
+        // acos(d) would lose precision near d = +-1, and gives NaN if |d| > 1 because of rounding
         Algebra<SU2<T>> ret;
         T r = ::sqrt(a * a + b * b + c * c);
         if (r <= 0) { // TODO: c++20 [[unlikely]] / [[likely]] ?
             ret = 0;
+            if (d < 0)
+                ret.c = 2.0 * M_PI; // log(-1), direction is arbitrary
             return ret;
         }
-        r = ::acos(d) / r;
+        r = ::atan2(r, d) / r;
         // factor 2 for the algebra
         ret.a = 2.0 * r * this->a;
         ret.b = 2.0 * r * this->b;
-- 
2.43.0


From e44d319a7c1d682322594b9ba3baac7a99b38916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 60/69] fix: generator_product_list() did not empty the lists,
 reuse overflowed them

---
 libraries/datatypes/sun_matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libraries/datatypes/sun_matrix.h b/libraries/datatypes/sun_matrix.h
index b896589..6f32317 100644
--- a/libraries/datatypes/sun_matrix.h
+++ b/libraries/datatypes/sun_matrix.h
@@ -446,6 +446,7 @@ class Algebra<SU<N, T>> : public Matrix_t<N * N - 1, 1, T, Algebra<SU<N, T>>> {
                         }
                     }
                 }
+                gen_prod_list[i1][i2].empty();
                 for (j1 = 0; j1 < N; ++j1) {
                     for (j2 = 0; j2 < N; ++j2) {
                         if(temp.e(j1,j2)!=0) {
-- 
2.43.0


From b9e027df2cbbe252d8cda9840d0fb45b255864fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 61/69] fix: iterate_weight_function_direct_single() returned
 an uninitialized value between the checks

---
 libraries/tools/multicanonical.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 575e902..72c8813 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -623,7 +623,7 @@ bool iterate_weight_function_direct(Muca &muca, double OP) {
 /// @return boolean indicating whether the iteration is considered complete
 ////////////////////////////////////////////////////////////////////////////////
 bool iterate_weight_function_direct_single(Muca &muca, double OP) {
-    int continue_iteration;
+    bool continue_iteration;
     if_rank0() {
         int samples = muca.DI.sample_size;
         int N = muca.weights.size();
@@ -663,15 +663,15 @@ bool iterate_weight_function_direct_single(Muca &muca, double OP) {
                            << "\n";
             }
 
-            continue_iteration = true;
-            if (muca.DI.C < muca.DI.C_min) {
-                hila::out0 << "Muca: Reached minimum update size C = " << muca.DI.C
-                           << " Weight iteration complete.\n";
-                continue_iteration = false;
-            }
-
             muca.write_weight_function("intermediate_weight.dat");
         }
+
+        continue_iteration = true;
+        if (muca.DI.C < muca.DI.C_min) {
+            hila::out0 << "Muca: Reached minimum update size C = " << muca.DI.C
+                       << " Weight iteration complete.\n";
+            continue_iteration = false;
+        }
     }
     hila::broadcast(continue_iteration);
     return continue_iteration;
-- 
2.43.0


From f50ef099ba152e133ca017c253e2509b3087c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 62/69] fix: weight function file without data terminated the
 program with an exception

---
 libraries/tools/multicanonical.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 72c8813..a353fe8 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -166,6 +166,10 @@ bool Muca::read_weight_function(const std::string &W_function_filename) {
     // Skip the header and sscanf the values and add them into the vectors.
     int count = -header_length;
     data_length -= 1;
+    if (data_length < 2) {
+        printf("ERROR: No weight function data in file `%s`\n", W_function_filename.c_str());
+        return false;
+    }
     printf("Weight function has header length of %d rows.\n", header_length);
     printf("Weight function has data length of %d rows.\n", data_length);
     printf("Reading the weight function into the program.\n");
-- 
2.43.0


From f51e19a8898f39a8b61b000f4ceb5cc71c09eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 63/69] fix: division by zero in canonical weight iteration if
 CI_max_iters < 100

---
 libraries/tools/multicanonical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index a353fe8..3cdd49a 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -829,7 +829,7 @@ bool iterate_weight_function_canonical(Muca &muca, double OP) {
             if (muca.CI.weight_update_count > muca.CI.max_iters)
                 continue_iteration = false;
             // print progress
-            if (muca.CI.weight_update_count % (muca.CI.max_iters / 100) == 0)
+            if (muca.CI.weight_update_count % std::max(muca.CI.max_iters / 100, 1) == 0)
                 printf("Muca: iteration %d / %d\n", muca.CI.weight_update_count, muca.CI.max_iters);
         }
     }
-- 
2.43.0


From 2f459543385a6c43407d6ae685f8f53ee347ae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 64/69] fix: canonical weight iteration did not overcorrect the
 last bin

---
 libraries/tools/multicanonical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 3cdd49a..766fd56 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -816,7 +816,7 @@ bool iterate_weight_function_canonical(Muca &muca, double OP) {
                         muca.CI.noc_weights.size() * sizeof(muca.CI.noc_weights[0]));
             double C = muca.CI.OC_factor;
             double d0 = muca.OP_bin_limits[1] - muca.OP_bin_limits[0];
-            for (size_t i = 1; i < muca.weights.size(); ++i) {
+            for (size_t i = 1; i < muca.OP_bin_limits.size(); ++i) {
                 double bin_width = muca.OP_bin_limits[i] - muca.OP_bin_limits[i - 1];
                 muca.weights[i - 1] +=
                     C * ::log((d0 / bin_width) * muca.CI.hits_nsum[i - 1] / muca.CI.hits_nsum[0]);
-- 
2.43.0


From 90723a8ac996ba6f4c07023980aacac5940069c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 65/69] fix: canonical weight iteration did not normalize the
 histogram of the last bin with its width

---
 libraries/tools/multicanonical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 766fd56..691fa31 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -768,7 +768,7 @@ bool iterate_weight_function_canonical(Muca &muca, double OP) {
             std::swap(muca.CI.noc_weights, muca.weights);
 
             // normalisation necesary if bins with different lengths
-            for (size_t i = 1; i < muca.CI.can_hist.size(); ++i) {
+            for (size_t i = 1; i < muca.OP_bin_limits.size(); ++i) {
                 double bin_width = muca.OP_bin_limits[i] - muca.OP_bin_limits[i - 1];
                 muca.CI.can_hist[i - 1] /= bin_width;
             }
-- 
2.43.0


From 3389aabc54c1138a0b4201adcfbb5cea82dc013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 66/69] fix: canonical weight iteration did one update more
 than CI_max_iters

---
 libraries/tools/multicanonical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 691fa31..a899673 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -826,7 +826,7 @@ bool iterate_weight_function_canonical(Muca &muca, double OP) {
 
             // check if we should stop
             muca.CI.weight_update_count++;
-            if (muca.CI.weight_update_count > muca.CI.max_iters)
+            if (muca.CI.weight_update_count >= muca.CI.max_iters)
                 continue_iteration = false;
             // print progress
             if (muca.CI.weight_update_count % std::max(muca.CI.max_iters / 100, 1) == 0)
-- 
2.43.0


From 0eb563b18410b493c5ac563de3a8a5c053825a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 67/69] fix: get_wloop_force() and get_wloop_force_from_wl()
 call an existing function

---
 libraries/gauge/wilson_line_and_force.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/gauge/wilson_line_and_force.h b/libraries/gauge/wilson_line_and_force.h
index dc17d54..408e9b5 100644
--- a/libraries/gauge/wilson_line_and_force.h
+++ b/libraries/gauge/wilson_line_and_force.h
@@ -113,7 +113,7 @@ void get_wloop_force_from_wl(const GaugeField<group> &U, const std::vector<Direc
     foralldir(d1) {
         K[d1][ALL] = 0;
     }
-    get_wloop_froce_add(U, path, W, eps, K);
+    get_wloop_force_from_wl_add(U, path, W, eps, K);
 }
 
 template <typename group, typename atype = hila::arithmetic_type<group>>
@@ -161,7 +161,7 @@ void get_wloop_force(const GaugeField<group> &U, const std::vector<Direction> &p
     foralldir(d1) {
         K[d1][ALL] = 0;
     }
-    get_wloop_froce_add(U, path, eps, K);
+    get_wloop_force_add(U, path, eps, K);
 }
 
 
-- 
2.43.0


From d91ff9ada08d84298a0578a51f9ba3fdf7cb9e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 68/69] fix: get_wilson_line() with a path of a single link
 reads past the end of the path

---
 libraries/gauge/wilson_line_and_force.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libraries/gauge/wilson_line_and_force.h b/libraries/gauge/wilson_line_and_force.h
index 408e9b5..bab2261 100644
--- a/libraries/gauge/wilson_line_and_force.h
+++ b/libraries/gauge/wilson_line_and_force.h
@@ -30,6 +30,15 @@ void get_wilson_line(const GaugeField<group> &U, const std::vector<Direction> &p
     i = 0;
     ip = 0;
     dir = path[i];
+    if (L == 1) {
+        // the line is a single link
+        if (is_up_dir(dir)) {
+            onsites(ALL) R[X] = U[dir][X - dir];
+        } else {
+            onsites(ALL) R[X] = U[-dir][X].dagger();
+        }
+        return;
+    }
     // initialize R0[0] with first link variable of the Wilson line:
     if (is_up_dir(dir)) {
         // link points in positive direction
-- 
2.43.0


From 4421aa9fde99a547f8545b026d36032b489ef0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:57 +0000
Subject: [PATCH 69/69] fix: conjugate gradient gave NaN for a zero source or
 an exact initial guess

---
 libraries/dirac/conjugate_gradient.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libraries/dirac/conjugate_gradient.h b/libraries/dirac/conjugate_gradient.h
index 58571f0..8069338 100644
--- a/libraries/dirac/conjugate_gradient.h
+++ b/libraries/dirac/conjugate_gradient.h
@@ -70,9 +70,10 @@ template <typename Op> class CG {
         }
 
         onsites(M.par) { rr += squarenorm(r[X]); }
-        rr_start = rr;
+        rr_start = rrnew = rr;
 
-        for (i = 0; i < maxiters; i++) {
+        // do not iterate if the initial guess is good already: alpha would be 0/0
+        for (i = 0; i < maxiters && rr > target_rr; i++) {
             pDp = rrnew = 0;
             M.apply(p, Dp);
             M.dagger(Dp, DDp);
-- 
2.43.0

