From 40d3068ea0f615f41bdb86e827c954f382da6229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:18 +0000
Subject: [PATCH 01/32] fix: leaf regions are half-open (low, high] in every
 leaf-membership test

---
 acv_explainers/cyext_acv/cyext_acv.pyx       | 94 ++++++++++----------
 acv_explainers/cyext_acv/cyext_acv_cache.pyx |  8 +-
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx  | 72 +++++++--------
 acv_explainers/py_acv.py                     |  6 +-
 acv_explainers/utils.py                      |  8 +-
 acv_explainers/utils_exp.py                  | 10 +--
 acv_explainers/utils_sdp.py                  | 40 ++++-----
 7 files changed, 119 insertions(+), 119 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index da190b7..d4add8c 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -61,7 +61,7 @@ cpdef compute_exp(double[:, :] X, long[:] S, double[:, :] data, double[:, :, :]
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -74,7 +74,7 @@ cpdef compute_exp(double[:, :] X, long[:] S, double[:, :] data, double[:, :, :]
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -128,7 +128,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -141,7 +141,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -271,7 +271,7 @@ cpdef compute_sdp_clf_cat(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -290,7 +290,7 @@ cpdef compute_sdp_clf_cat(double[:, :] X, long[:] fX,
                     lm = 0
                     a_it = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     if a_it == m:
                         lm = 1
@@ -382,7 +382,7 @@ cpdef compute_sdp_clf(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -400,10 +400,10 @@ cpdef compute_sdp_clf(double[:, :] X, long[:] fX,
                     lm = 0
                     lm_s = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -517,10 +517,10 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -532,7 +532,7 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                     for i in prange(N, nogil=True, num_threads=num_threads):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -582,10 +582,10 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == m:
@@ -597,7 +597,7 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                         for i in prange(N, nogil=True, num_threads=num_threads):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -719,10 +719,10 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -731,7 +731,7 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                     for i in prange(N, nogil=True):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -788,7 +788,7 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
 
                             if a_it == m:
@@ -797,7 +797,7 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                         for i in prange(N, nogil=True):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -1085,10 +1085,10 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 a_it = 0
                                 b_it = 0
                                 for s in range(m):
-                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
-                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
                                 if a_it == m:
@@ -1100,7 +1100,7 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             for i in prange(N, nogil=True):
                                 o_all = 0
                                 for s in range(S_size):
-                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0])):
+                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0])):
                                         o_all = o_all + 1
                                 if o_all > 0:
                                     continue
@@ -1150,10 +1150,10 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                     a_it = 0
                                     b_it = 0
                                     for s in range(m):
-                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
-                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
                                     if a_it == m:
@@ -1165,7 +1165,7 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 for i in prange(N, nogil=True):
                                     o_all = 0
                                     for s in range(S_size):
-                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part_l[S[s], 0])):
+                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part_l[S[s], 0])):
                                             o_all = o_all + 1
                                     if o_all > 0:
                                         continue
@@ -2061,7 +2061,7 @@ cdef compute_sdp_swing(const double[:, :] X, const long[:] fX,
             for i in prange(N, nogil=True, num_threads=num_threads):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -2079,10 +2079,10 @@ cdef compute_sdp_swing(const double[:, :] X, const long[:] fX,
                     lm = 0
                     lm_s = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -2298,7 +2298,7 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                 csm = 0
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -2338,10 +2338,10 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     lm_s_m = 0
 
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -2737,10 +2737,10 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                                 a_it = 0
                                 b_it = 0
                                 for s in range(data.shape[1]):
-                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
-                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
                                 if a_it == data.shape[1]:
@@ -2752,7 +2752,7 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                             for i in prange(N, nogil=True, num_threads=num_threads):
                                 o_all = 0
                                 for s in range(S_size):
-                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0])):
+                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0])):
                                         o_all = o_all + 1
                                 if o_all > 0:
                                     continue
@@ -2798,10 +2798,10 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                                     a_it = 0
                                     b_it = 0
                                     for s in range(data.shape[1]):
-                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
-                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
                                     if a_it == data.shape[1]:
@@ -2813,7 +2813,7 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                                 for i in prange(N, nogil=True, num_threads=num_threads):
                                     o_all = 0
                                     for s in range(S_size):
-                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part_l[S[s], 0])):
+                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part_l[S[s], 0])):
                                             o_all = o_all + 1
                                     if o_all > 0:
                                         continue
@@ -2972,7 +2972,7 @@ cpdef global_sdp_clf(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -2989,10 +2989,10 @@ cpdef global_sdp_clf(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
@@ -3170,7 +3170,7 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -3187,10 +3187,10 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
@@ -3894,7 +3894,7 @@ cpdef global_sdp_clf_approx(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -3911,10 +3911,10 @@ cpdef global_sdp_clf_approx(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
diff --git a/acv_explainers/cyext_acv/cyext_acv_cache.pyx b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
index f9f46ce..30791b1 100644
--- a/acv_explainers/cyext_acv/cyext_acv_cache.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
@@ -568,14 +568,14 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -597,14 +597,14 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 58643f6..0bba6b3 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -55,7 +55,7 @@ cpdef compute_exp_nopa(double[:, :] X, long[:] S, double[:, :] data, double[:, :
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -68,7 +68,7 @@ cpdef compute_exp_nopa(double[:, :] X, long[:] S, double[:, :] data, double[:, :
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -122,7 +122,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -135,7 +135,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -265,7 +265,7 @@ cpdef compute_sdp_clf_cat_nopa(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -284,7 +284,7 @@ cpdef compute_sdp_clf_cat_nopa(double[:, :] X, long[:] fX,
                     lm = 0
                     a_it = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     if a_it == m:
                         lm = 1
@@ -376,7 +376,7 @@ cpdef compute_sdp_clf_nopa(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -394,10 +394,10 @@ cpdef compute_sdp_clf_nopa(double[:, :] X, long[:] fX,
                     lm = 0
                     lm_s = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -511,10 +511,10 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -526,7 +526,7 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -576,10 +576,10 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == m:
@@ -591,7 +591,7 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                         for i in range(N):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -713,10 +713,10 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -725,7 +725,7 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -782,7 +782,7 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
 
                             if a_it == m:
@@ -791,7 +791,7 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                         for i in range(N):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -1079,10 +1079,10 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 a_it = 0
                                 b_it = 0
                                 for s in range(m):
-                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
-                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
                                 if a_it == m:
@@ -1094,7 +1094,7 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             for i in range(N):
                                 o_all = 0
                                 for s in range(S_size):
-                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0])):
+                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0])):
                                         o_all = o_all + 1
                                 if o_all > 0:
                                     continue
@@ -1144,10 +1144,10 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                     a_it = 0
                                     b_it = 0
                                     for s in range(m):
-                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
-                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
                                     if a_it == m:
@@ -1159,7 +1159,7 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 for i in range(N):
                                     o_all = 0
                                     for s in range(S_size):
-                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part_l[S[s], 0])):
+                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part_l[S[s], 0])):
                                             o_all = o_all + 1
                                     if o_all > 0:
                                         continue
@@ -1399,7 +1399,7 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -1416,10 +1416,10 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
@@ -2991,14 +2991,14 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -3020,14 +3020,14 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -3271,7 +3271,7 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                 csm = 0
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -3311,10 +3311,10 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     lm_s_m = 0
 
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
diff --git a/acv_explainers/py_acv.py b/acv_explainers/py_acv.py
index 402b7c8..b5d122b 100644
--- a/acv_explainers/py_acv.py
+++ b/acv_explainers/py_acv.py
@@ -238,7 +238,7 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
         for i in va_id:
 
             if not set(convert_list(i)).issubset(node_id):
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] >= partition_leaf[s, 0])
+                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                    for s in N_star], axis=0)
 
                 lm_si = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
@@ -263,9 +263,9 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
                         Sm += [c]
             for S in powerset(Sm):
 
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] >= partition_leaf[s, 0])
+                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                    for s in chain_l(S) + convert_list(i) + N_star], axis=0)
-                comp_s = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] >= partition_leaf[s, 0])
+                comp_s = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                   for s in chain_l(S) + N_star], axis=0)
 
                 coef = 0
diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 8961492..0304f85 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -597,19 +597,19 @@ def explore_partition(i, x, children_left, children_right, features, thresholds,
         partition_leaves = np.squeeze(np.array(partition_leaves))
 
         section_x = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S], axis=0)
 
         section_x_bar = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S_bar], axis=0)
 
         section_up = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S], axis=0) * up_tx
 
         section_down = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S], axis=0) * down_tx
 
         prob_all = section_x * section_x_bar
diff --git a/acv_explainers/utils_exp.py b/acv_explainers/utils_exp.py
index 062d7f8..c763b6f 100644
--- a/acv_explainers/utils_exp.py
+++ b/acv_explainers/utils_exp.py
@@ -18,14 +18,14 @@ def compute_exp(X, model, S, data):
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
-            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in
+            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
                            S], axis=0)
 
             p_ss = np.sum(p_s)
@@ -52,13 +52,13 @@ def compute_exp_cat(X, model, S, data):
             leaf_part = leaves_tree[leaf_numb]
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
             value = model.values[b, leaf_id]
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
             for i, x in enumerate(X):
                 if leaf_bool[i] == 0:
diff --git a/acv_explainers/utils_sdp.py b/acv_explainers/utils_sdp.py
index 822912d..cec2b4d 100644
--- a/acv_explainers/utils_sdp.py
+++ b/acv_explainers/utils_sdp.py
@@ -28,16 +28,16 @@ def compute_sdp_reg(X, tX, model, S, data):
                     leaf_id = model.leaf_idx_trees[b, leaf_numb]
                     value = model.values[b, leaf_id]
 
-                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S],
+                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S],
                                         axis=0)
 
                     if np.sum(leaf_bool) == 0:
                         continue
 
-                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index],
+                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index],
                                  axis=0)
 
-                    p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in
+                    p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
                                    S], axis=0)
 
                     for i, x in enumerate(X):
@@ -77,19 +77,19 @@ def compute_sdp_reg(X, tX, model, S, data):
                         leaf_part_l = model.partition_leaves_trees[l][leaf_numb_l]
                         value_l = model.values[l, leaf_id_l]
 
-                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] >= leaf_part_b[s, 0]) *
-                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] >= leaf_part_l[s, 0])
+                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] > leaf_part_b[s, 0]) *
+                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] > leaf_part_l[s, 0])
                                              for s in S], axis=0)
 
                         if np.sum(leaf_bool) == 0.:
                             continue
 
-                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] >= leaf_part_b[s, 0]) *
-                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] >= leaf_part_l[s, 0])
+                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] > leaf_part_b[s, 0]) *
+                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] > leaf_part_l[s, 0])
                                       for s in index], axis=0)
 
-                        p_s = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] >= leaf_part_b[s, 0]) *
-                                       (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] >= leaf_part_l[s, 0])
+                        p_s = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] > leaf_part_b[s, 0]) *
+                                       (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] > leaf_part_l[s, 0])
                                        for s in S], axis=0)
 
                         for i, x in enumerate(X):
@@ -146,13 +146,13 @@ def compute_sdp_reg_cat(X, tX, model, S, data):
                     leaf_id = model.leaf_idx_trees[b, leaf_numb]
                     value = model.values[b, leaf_id]
 
-                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S],
+                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S],
                                         axis=0)
 
                     if np.sum(leaf_bool) == 0:
                         continue
 
-                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index],
+                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index],
                                  axis=0)
 
                     for i, x in enumerate(X):
@@ -193,15 +193,15 @@ def compute_sdp_reg_cat(X, tX, model, S, data):
                         leaf_part_l = model.partition_leaves_trees[l][leaf_numb_l]
                         value_l = model.values[l, leaf_id_l]
 
-                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] >= leaf_part_b[s, 0]) *
-                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] >= leaf_part_l[s, 0])
+                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] > leaf_part_b[s, 0]) *
+                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] > leaf_part_l[s, 0])
                                              for s in S], axis=0)
 
                         if np.sum(leaf_bool) == 0.:
                             continue
 
-                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] >= leaf_part_b[s, 0]) *
-                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] >= leaf_part_l[s, 0])
+                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] > leaf_part_b[s, 0]) *
+                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] > leaf_part_l[s, 0])
                                       for s in index], axis=0)
 
                         for i, x in enumerate(X):
@@ -264,12 +264,12 @@ def compute_sdp_clf_cat(X, tX, model, S, data):
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
             for i, x in enumerate(X):
                 if leaf_bool[i] == 0:
@@ -328,13 +328,13 @@ def compute_sdp_clf(X, tX, model, S, data):
             leaf_part = leaves_tree[leaf_numb]
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
-            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
+            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
                            S], axis=0)
 
             for i, x in enumerate(X):
-- 
2.43.0


From f00050bee9bec3c58d6f3cd6b5893f0fd410049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 02/32] fix: projected walks do not index the node tables with
 the missing child of a leaf

---
 acv_explainers/cyext_acv/cyext_acv.pyx | 108 ++++++++++++-------------
 1 file changed, 54 insertions(+), 54 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index d4add8c..7cee94e 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -4052,7 +4052,7 @@ cdef double single_compute_sdp_rf_v0(double[:] & x, double & y_x,  double[:, :]
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
 
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
+                if nodes_level[it_node] >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
 
@@ -4070,7 +4070,7 @@ cdef double single_compute_sdp_rf_v0(double[:] & x, double & y_x,  double[:, :]
                                 in_data_b.pop_back()
                         in_data = in_data_b
 
-                else:
+                elif nodes_level[it_node] >= 0:
                      nodes_child.push_back(children_left[b, nodes_level[it_node]])
                      nodes_child.push_back(children_right[b, nodes_level[it_node]])
 
@@ -4268,7 +4268,7 @@ cdef double single_compute_exp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -4288,7 +4288,7 @@ cdef double single_compute_exp_rf(double[:] & x, double & y_x,  double[:, :] & d
                                 in_data_b.erase(deref(it))
                             inc(it)
                         in_data = in_data_b
-                else:
+                elif it_node >= 0:
                      nodes_child.insert(children_left[b, it_node])
                      nodes_child.insert(children_right[b, it_node])
 
@@ -4357,7 +4357,7 @@ cdef double single_compute_quantile_rf(double[:] & x, double & y_x,  double[:, :
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
                 s = 0
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
+                if nodes_level[it_node] >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
 
@@ -4370,7 +4370,7 @@ cdef double single_compute_quantile_rf(double[:] & x, double & y_x,  double[:, :
                         for i in range(N):
                             samples_child[i] = samples[i] * (data[i, features[b, nodes_level[it_node]]] > thresholds[b, nodes_level[it_node]])
                             s += samples_child[i]
-                else:
+                elif nodes_level[it_node] >= 0:
                      nodes_child.push_back(children_left[b, nodes_level[it_node]])
                      nodes_child.push_back(children_right[b, nodes_level[it_node]])
 
@@ -4451,7 +4451,7 @@ cdef double single_compute_quantile_diff_rf(double[:] & x, double & y_x,  double
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
 
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
+                if nodes_level[it_node] >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
 
@@ -4469,7 +4469,7 @@ cdef double single_compute_quantile_diff_rf(double[:] & x, double & y_x,  double
                                 in_data_b.pop_back()
                         in_data = in_data_b
 
-                else:
+                elif nodes_level[it_node] >= 0:
                      nodes_child.push_back(children_left[b, nodes_level[it_node]])
                      nodes_child.push_back(children_right[b, nodes_level[it_node]])
 
@@ -4537,7 +4537,7 @@ cdef double single_compute_cdf_rf(double[:] & x, double & y_x,  double[:, :] & d
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
 
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
+                if nodes_level[it_node] >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
 
@@ -4555,7 +4555,7 @@ cdef double single_compute_cdf_rf(double[:] & x, double & y_x,  double[:, :] & d
                                 in_data_b.pop_back()
                         in_data = in_data_b
 
-                else:
+                elif nodes_level[it_node] >= 0:
                      nodes_child.push_back(children_left[b, nodes_level[it_node]])
                      nodes_child.push_back(children_right[b, nodes_level[it_node]])
 
@@ -4712,7 +4712,7 @@ cdef double single_compute_sdp_rule_v0(double[:] & x, double & y_x,  double[:, :
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
 
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
+                if nodes_level[it_node] >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
 
@@ -4737,7 +4737,7 @@ cdef double single_compute_sdp_rule_v0(double[:] & x, double & y_x,  double[:, :
                                 in_data_b.pop_back()
                         in_data = in_data_b
 
-                else:
+                elif nodes_level[it_node] >= 0:
                      nodes_child.push_back(children_left[b, nodes_level[it_node]])
                      nodes_child.push_back(children_right[b, nodes_level[it_node]])
 
@@ -4842,7 +4842,7 @@ cdef double single_compute_sdp_rule_biased(double[:] & x, double & y_x, vector[i
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
+                if nodes_level[it_node] >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
 
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
@@ -4856,7 +4856,7 @@ cdef double single_compute_sdp_rule_biased(double[:] & x, double & y_x, vector[i
                         if partition[features[b, nodes_level[it_node]], b, level,  0] <= thresholds[b, nodes_level[it_node]]:
                             partition[features[b, nodes_level[it_node]], b, level, 0] = thresholds[b, nodes_level[it_node]]
 
-                else:
+                elif nodes_level[it_node] >= 0:
                      nodes_child.push_back(children_left[b, nodes_level[it_node]])
                      nodes_child.push_back(children_right[b, nodes_level[it_node]])
 
@@ -4993,7 +4993,7 @@ cdef double single_compute_sdp_rule_v0_weights(double[:] & x, double & y_x,  dou
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
 
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
+                if nodes_level[it_node] >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
 
@@ -5018,7 +5018,7 @@ cdef double single_compute_sdp_rule_v0_weights(double[:] & x, double & y_x,  dou
                                 in_data_b.pop_back()
                         in_data = in_data_b
 
-                else:
+                elif nodes_level[it_node] >= 0:
                      nodes_child.push_back(children_left[b, nodes_level[it_node]])
                      nodes_child.push_back(children_right[b, nodes_level[it_node]])
 
@@ -5160,7 +5160,7 @@ cdef double single_compute_sdp_rule(double[:] & x, double & y_x,  double[:, :] &
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -5186,7 +5186,7 @@ cdef double single_compute_sdp_rule(double[:] & x, double & y_x,  double[:, :] &
                                 in_data_b.erase(deref(it))
                             inc(it)
                         in_data = in_data_b
-                else:
+                elif it_node >= 0:
                      nodes_child.insert(children_left[b, it_node])
                      nodes_child.insert(children_right[b, it_node])
 
@@ -5266,7 +5266,7 @@ cdef double single_compute_sdp_rule_weights(double[:] & x, double & y_x,  double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -5292,7 +5292,7 @@ cdef double single_compute_sdp_rule_weights(double[:] & x, double & y_x,  double
                                 in_data_b.erase(deref(it))
                             inc(it)
                         in_data = in_data_b
-                else:
+                elif it_node >= 0:
                      nodes_child.insert(children_left[b, it_node])
                      nodes_child.insert(children_right[b, it_node])
 
@@ -5432,7 +5432,7 @@ cdef double single_compute_ddp_rule(double[:] & x, double & y_x,  double[:, :] &
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -5458,7 +5458,7 @@ cdef double single_compute_ddp_rule(double[:] & x, double & y_x,  double[:, :] &
                                 in_data_b.erase(deref(it))
                             inc(it)
                         in_data = in_data_b
-                else:
+                elif it_node >= 0:
                      nodes_child.insert(children_left[b, it_node])
                      nodes_child.insert(children_right[b, it_node])
 
@@ -5538,7 +5538,7 @@ cdef double single_compute_ddp_rule_weights(double[:] & x, double & y_x,  double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -5564,7 +5564,7 @@ cdef double single_compute_ddp_rule_weights(double[:] & x, double & y_x,  double
                                 in_data_b.erase(deref(it))
                             inc(it)
                         in_data = in_data_b
-                else:
+                elif it_node >= 0:
                      nodes_child.insert(children_left[b, it_node])
                      nodes_child.insert(children_right[b, it_node])
 
@@ -5674,7 +5674,7 @@ cdef double single_compute_ddp_cond_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -5701,7 +5701,7 @@ cdef double single_compute_ddp_cond_rule_weights(double[:] & x, double & y_x,  d
                             inc(it)
                         in_data = in_data_b
 
-                elif features[b, it_node] >=0 and cond[features[b, it_node], 1] <= thresholds[b, it_node]:
+                elif it_node >= 0 and features[b, it_node] >=0 and cond[features[b, it_node], 1] <= thresholds[b, it_node]:
                     nodes_child.insert(children_left[b, it_node])
 
                     if partition[features[b, it_node], 1] >= thresholds[b, it_node]:
@@ -5714,7 +5714,7 @@ cdef double single_compute_ddp_cond_rule_weights(double[:] & x, double & y_x,  d
                         inc(it)
                     in_data = in_data_b
 
-                elif features[b, it_node] >=0 and cond[features[b, it_node], 0] > thresholds[b, it_node]:
+                elif it_node >= 0 and features[b, it_node] >=0 and cond[features[b, it_node], 0] > thresholds[b, it_node]:
                     nodes_child.insert(children_right[b, it_node])
 
                     if partition[features[b, it_node], 0] <= thresholds[b, it_node]:
@@ -5727,7 +5727,7 @@ cdef double single_compute_ddp_cond_rule_weights(double[:] & x, double & y_x,  d
                         inc(it)
                     in_data = in_data_b
 
-                elif features[b, it_node] >=0 and cond[features[b, it_node], 1] >= thresholds[b, it_node] and cond[features[b, it_node], 0] <= thresholds[b, it_node]:
+                elif it_node >= 0 and features[b, it_node] >=0 and cond[features[b, it_node], 1] >= thresholds[b, it_node] and cond[features[b, it_node], 0] <= thresholds[b, it_node]:
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
 
@@ -5744,7 +5744,7 @@ cdef double single_compute_ddp_cond_rule_weights(double[:] & x, double & y_x,  d
                     #     inc(it)
                     # in_data = in_data_b
 
-                else:
+                elif it_node >= 0:
                      nodes_child.insert(children_left[b, it_node])
                      nodes_child.insert(children_right[b, it_node])
 
@@ -5829,7 +5829,7 @@ cdef double single_compute_sdp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -5849,7 +5849,7 @@ cdef double single_compute_sdp_rf(double[:] & x, double & y_x,  double[:, :] & d
                                 in_data_b.erase(deref(it))
                             inc(it)
                         in_data = in_data_b
-                else:
+                elif it_node >= 0:
                      nodes_child.insert(children_left[b, it_node])
                      nodes_child.insert(children_right[b, it_node])
 
@@ -5923,7 +5923,7 @@ cdef double single_compute_ddp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -5943,7 +5943,7 @@ cdef double single_compute_ddp_rf(double[:] & x, double & y_x,  double[:, :] & d
                                 in_data_b.erase(deref(it))
                             inc(it)
                         in_data = in_data_b
-                else:
+                elif it_node >= 0:
                      nodes_child.insert(children_left[b, it_node])
                      nodes_child.insert(children_right[b, it_node])
 
@@ -6509,11 +6509,11 @@ cdef double single_compute_ddp_intv_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
 
-                elif features[b, it_node] >=0 and cond[features[b, it_node], 1] <= thresholds[b, it_node]:
+                elif it_node >= 0 and features[b, it_node] >=0 and cond[features[b, it_node], 1] <= thresholds[b, it_node]:
                     nodes_child.insert(children_left[b, it_node])
 
                     if partition[features[b, it_node], 1] >= thresholds[b, it_node]:
@@ -6526,7 +6526,7 @@ cdef double single_compute_ddp_intv_rule_weights(double[:] & x, double & y_x,  d
                         inc(it)
                     in_data = in_data_b
 
-                elif features[b, it_node] >=0 and cond[features[b, it_node], 0] > thresholds[b, it_node]:
+                elif it_node >= 0 and features[b, it_node] >=0 and cond[features[b, it_node], 0] > thresholds[b, it_node]:
                     nodes_child.insert(children_right[b, it_node])
 
                     if partition[features[b, it_node], 0] <= thresholds[b, it_node]:
@@ -6539,7 +6539,7 @@ cdef double single_compute_ddp_intv_rule_weights(double[:] & x, double & y_x,  d
                         inc(it)
                     in_data = in_data_b
 
-                elif features[b, it_node] >=0 and cond[features[b, it_node], 1] >= thresholds[b, it_node] and cond[features[b, it_node], 0] <= thresholds[b, it_node]:
+                elif it_node >= 0 and features[b, it_node] >=0 and cond[features[b, it_node], 1] >= thresholds[b, it_node] and cond[features[b, it_node], 0] <= thresholds[b, it_node]:
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
 
@@ -6556,7 +6556,7 @@ cdef double single_compute_ddp_intv_rule_weights(double[:] & x, double & y_x,  d
                     #     inc(it)
                     # in_data = in_data_b
 
-                else:
+                elif it_node >= 0:
                      nodes_child.insert(children_left[b, it_node])
                      nodes_child.insert(children_right[b, it_node])
 
@@ -6805,7 +6805,7 @@ cdef double single_compute_cdp_rule(double[:] & x, double & y_x, double & down,
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -6831,7 +6831,7 @@ cdef double single_compute_cdp_rule(double[:] & x, double & y_x, double & down,
                                 in_data_b.erase(deref(it))
                             inc(it)
                         in_data = in_data_b
-                else:
+                elif it_node >= 0:
                      nodes_child.insert(children_left[b, it_node])
                      nodes_child.insert(children_right[b, it_node])
 
@@ -6912,7 +6912,7 @@ cdef double single_compute_cdp_cond_rule_weights(double[:] & x, double & y_x, do
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -6939,7 +6939,7 @@ cdef double single_compute_cdp_cond_rule_weights(double[:] & x, double & y_x, do
                             inc(it)
                         in_data = in_data_b
 
-                elif features[b, it_node] >=0 and cond[features[b, it_node], 1] <= thresholds[b, it_node]:
+                elif it_node >= 0 and features[b, it_node] >=0 and cond[features[b, it_node], 1] <= thresholds[b, it_node]:
                     nodes_child.insert(children_left[b, it_node])
 
                     if partition[features[b, it_node], 1] >= thresholds[b, it_node]:
@@ -6952,7 +6952,7 @@ cdef double single_compute_cdp_cond_rule_weights(double[:] & x, double & y_x, do
                         inc(it)
                     in_data = in_data_b
 
-                elif features[b, it_node] >=0 and cond[features[b, it_node], 0] > thresholds[b, it_node]:
+                elif it_node >= 0 and features[b, it_node] >=0 and cond[features[b, it_node], 0] > thresholds[b, it_node]:
                     nodes_child.insert(children_right[b, it_node])
 
                     if partition[features[b, it_node], 0] <= thresholds[b, it_node]:
@@ -6965,7 +6965,7 @@ cdef double single_compute_cdp_cond_rule_weights(double[:] & x, double & y_x, do
                         inc(it)
                     in_data = in_data_b
 
-                elif features[b, it_node] >=0 and cond[features[b, it_node], 1] >= thresholds[b, it_node] and cond[features[b, it_node], 0] <= thresholds[b, it_node]:
+                elif it_node >= 0 and features[b, it_node] >=0 and cond[features[b, it_node], 1] >= thresholds[b, it_node] and cond[features[b, it_node], 0] <= thresholds[b, it_node]:
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
 
@@ -6982,7 +6982,7 @@ cdef double single_compute_cdp_cond_rule_weights(double[:] & x, double & y_x, do
                     #     inc(it)
                     # in_data = in_data_b
 
-                else:
+                elif it_node >= 0:
                      nodes_child.insert(children_left[b, it_node])
                      nodes_child.insert(children_right[b, it_node])
 
@@ -7066,7 +7066,7 @@ cdef double single_compute_cdp_rf(double[:] & x, double & y_x,  double & down, d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -7086,7 +7086,7 @@ cdef double single_compute_cdp_rf(double[:] & x, double & y_x,  double & down, d
                                 in_data_b.erase(deref(it))
                             inc(it)
                         in_data = in_data_b
-                else:
+                elif it_node >= 0:
                      nodes_child.insert(children_left[b, it_node])
                      nodes_child.insert(children_right[b, it_node])
 
@@ -7317,7 +7317,7 @@ cdef double single_compute_cdp_rule_weights(double[:] & x, double & y_x, double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -7343,7 +7343,7 @@ cdef double single_compute_cdp_rule_weights(double[:] & x, double & y_x, double
                                 in_data_b.erase(deref(it))
                             inc(it)
                         in_data = in_data_b
-                else:
+                elif it_node >= 0:
                      nodes_child.insert(children_left[b, it_node])
                      nodes_child.insert(children_right[b, it_node])
 
@@ -7452,11 +7452,11 @@ cdef double single_compute_cdp_intv_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node >= 0 and std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
 
-                elif features[b, it_node] >=0 and cond[features[b, it_node], 1] <= thresholds[b, it_node]:
+                elif it_node >= 0 and features[b, it_node] >=0 and cond[features[b, it_node], 1] <= thresholds[b, it_node]:
                     nodes_child.insert(children_left[b, it_node])
 
                     if partition[features[b, it_node], 1] >= thresholds[b, it_node]:
@@ -7469,7 +7469,7 @@ cdef double single_compute_cdp_intv_rule_weights(double[:] & x, double & y_x,  d
                         inc(it)
                     in_data = in_data_b
 
-                elif features[b, it_node] >=0 and cond[features[b, it_node], 0] > thresholds[b, it_node]:
+                elif it_node >= 0 and features[b, it_node] >=0 and cond[features[b, it_node], 0] > thresholds[b, it_node]:
                     nodes_child.insert(children_right[b, it_node])
 
                     if partition[features[b, it_node], 0] <= thresholds[b, it_node]:
@@ -7482,7 +7482,7 @@ cdef double single_compute_cdp_intv_rule_weights(double[:] & x, double & y_x,  d
                         inc(it)
                     in_data = in_data_b
 
-                elif features[b, it_node] >=0 and cond[features[b, it_node], 1] >= thresholds[b, it_node] and cond[features[b, it_node], 0] <= thresholds[b, it_node]:
+                elif it_node >= 0 and features[b, it_node] >=0 and cond[features[b, it_node], 1] >= thresholds[b, it_node] and cond[features[b, it_node], 0] <= thresholds[b, it_node]:
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
 
@@ -7499,7 +7499,7 @@ cdef double single_compute_cdp_intv_rule_weights(double[:] & x, double & y_x,  d
                     #     inc(it)
                     # in_data = in_data_b
 
-                else:
+                elif it_node >= 0:
                      nodes_child.insert(children_left[b, it_node])
                      nodes_child.insert(children_right[b, it_node])
 
-- 
2.43.0


From 8a909c1d3caf2f490355568efc1c2b238faea794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 03/32] fix: no division by an empty leaf count or by zero
 explanations

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 32 ++++++++++-----------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 26 ++++++++---------
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 7cee94e..6966b35 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -146,7 +146,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 if o_all > 0:
                     continue
 
-                p_n[b, leaf_numb, i] += (1.*lm)/p_ss
+                p_n[b, leaf_numb, i] += (1.*lm)/p_ss if p_ss != 0 else 0
 
                 for j in range(d):
                     mean_forest_b[b, leaf_numb, i, j] += (lm * values[b, leaf_idx_trees[b, leaf_numb], j]) / p_ss if p_ss != 0 else 0
@@ -1920,7 +1920,7 @@ cpdef shap_values_acv_leaves(const double[:, :] X,
                             csi = 1
 
                         p_s = lm/data.shape[0]
-                        p_si = (csi * lm)/lm_star[va, leaf_numb]
+                        p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                         for nv in range(va_id[va].size()):
                             for i2 in range(d):
                                 phi_n[leaf_numb, i, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -1996,8 +1996,8 @@ cpdef shap_values_acv_leaves(const double[:, :] X,
                         coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                        p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                        p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                        p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                        p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                         if S_size != 0:
                             for nv in range(va_id[va].size()):
@@ -2420,9 +2420,9 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     ss_u += mean_forest[b, leaf_numb, i, 1]/n_u if n_u !=0 else 0
                     ss_d += mean_forest[b, leaf_numb, i, 2]/n_d if n_d !=0 else 0
 
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
 
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
             ss = (ss_a - ss_d)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -2453,9 +2453,9 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     n_d_m += p_d_n_m[b, leaf_numb, i]
 
                 for leaf_numb in range(max_leaves):
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
 
             if (ss < thresholds and ss_m < thresholds):
@@ -3465,7 +3465,7 @@ cpdef single_shap_values_acv_leaves(const double[:] X,
                         csi = 1
 
                     p_s = lm/data.shape[0]
-                    p_si = (csi * lm)/lm_star[va, leaf_numb]
+                    p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                     for nv in range(va_id[va].size()):
                         for i2 in range(d):
                             phi_n[leaf_numb, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -3541,8 +3541,8 @@ cpdef single_shap_values_acv_leaves(const double[:] X,
                     coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                     if S_size != 0:
                         for nv in range(va_id[va].size()):
@@ -4679,7 +4679,7 @@ cpdef sufficient_expl_rf_v0(double[:, :] X, double[::1] y_X,  double[:, :] data,
                             sdp_global[S[s]] += 1
                         K += 1
 
-    return sufficient, sufficient_sdp, np.asarray(sdp_global)/K
+    return sufficient, sufficient_sdp, np.asarray(sdp_global)/max(K, 1)
 
 
 @cython.boundscheck(False)
@@ -6378,7 +6378,7 @@ cpdef sufficient_expl_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, do
                             sdp_global[S[s]] += 1
                         K += 1
 
-    return sufficient, sufficient_sdp, np.asarray(sdp_global)/K
+    return sufficient, sufficient_sdp, np.asarray(sdp_global)/max(K, 1)
 
 
 @cython.boundscheck(False)
@@ -6473,7 +6473,7 @@ cpdef sufficient_cxpl_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, do
                             sdp_global[S[s]] += 1
                         K += 1
 
-    return sufficient, sufficient_sdp, np.asarray(sdp_global)/K
+    return sufficient, sufficient_sdp, np.asarray(sdp_global)/max(K, 1)
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 0bba6b3..0f9c85f 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -140,7 +140,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 if o_all > 0:
                     continue
 
-                p_n[b, leaf_numb, i] += (1.*lm)/p_ss
+                p_n[b, leaf_numb, i] += (1.*lm)/p_ss if p_ss != 0 else 0
 
                 for j in range(d):
                     mean_forest_b[b, leaf_numb, i, j] += (lm * values[b, leaf_idx_trees[b, leaf_numb], j]) / p_ss if p_ss != 0 else 0
@@ -1854,7 +1854,7 @@ cpdef shap_values_acv_leaves_nopa(const double[:, :] X,
                             csi = 1
 
                         p_s = lm/data.shape[0]
-                        p_si = (csi * lm)/lm_star
+                        p_si = (csi * lm)/lm_star if lm_star !=0 else 0
                         for nv in range(va_id[va].size()):
                             for i2 in range(d):
                                 phi[i, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -1930,8 +1930,8 @@ cpdef shap_values_acv_leaves_nopa(const double[:, :] X,
                         coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                        p_s = (cs * lm)/lm_s
-                        p_si = (csi * lm)/lm_si
+                        p_s = (cs * lm)/lm_s if lm_s !=0 else 0
+                        p_si = (csi * lm)/lm_si if lm_si !=0 else 0
 
                         if S_size != 0:
                             for nv in range(va_id[va].size()):
@@ -2159,7 +2159,7 @@ cpdef single_shap_values_acv_leaves_nopa(const double[:] X,
                         csi = 1
 
                     p_s = lm/data.shape[0]
-                    p_si = (csi * lm)/lm_star[va, leaf_numb]
+                    p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                     for nv in range(va_id[va].size()):
                         for i2 in range(d):
                             phi_n[leaf_numb, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -2235,8 +2235,8 @@ cpdef single_shap_values_acv_leaves_nopa(const double[:] X,
                     coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                     if S_size != 0:
                         for nv in range(va_id[va].size()):
@@ -3393,9 +3393,9 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     ss_u += mean_forest[b, leaf_numb, i, 1]/n_u if n_u !=0 else 0
                     ss_d += mean_forest[b, leaf_numb, i, 2]/n_d if n_d !=0 else 0
 
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
 
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
             ss = (ss_a - ss_d)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -3426,9 +3426,9 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     n_d_m += p_d_n_m[b, leaf_numb, i]
 
                 for leaf_numb in range(max_leaves):
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
 
             if (ss < thresholds and ss_m < thresholds):
-- 
2.43.0


From 078a6fb8b6bfd68c2ce6f95dc53ff70c20014001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:21 +0000
Subject: [PATCH 04/32] fix: coalition searches do not index past the
 enumerated sizes when the enumeration was cut short

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 24 ++++++++++-----------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx |  6 +++---
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 6966b35..6987f38 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -917,7 +917,7 @@ cpdef global_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -1048,7 +1048,7 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -3144,7 +3144,7 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -4181,7 +4181,7 @@ cpdef global_sdp_rf_v0(double[:, :] X, double[::1] y_X,  double[:, :] data, doub
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -4651,7 +4651,7 @@ cpdef sufficient_expl_rf_v0(double[:, :] X, double[::1] y_X,  double[:, :] data,
     cdef vector[vector[vector[long]]] sufficient = [[[-1]] for i in range(N)]
     cdef vector[vector[double]] sufficient_sdp = [[-1] for i in range(N)]
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -6077,7 +6077,7 @@ cpdef global_ddp_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, double[
     S = np.zeros((data.shape[1]), dtype=np.int)
     S_bar = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m+1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -6232,7 +6232,7 @@ cpdef global_sdp_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, double[
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -6350,7 +6350,7 @@ cpdef sufficient_expl_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, do
     cdef vector[vector[vector[long]]] sufficient = [[[-1]] for i in range(N)]
     cdef vector[vector[double]] sufficient_sdp = [[-1] for i in range(N)]
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -6445,7 +6445,7 @@ cpdef sufficient_cxpl_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, do
     cdef vector[vector[vector[long]]] sufficient = [[[-1]] for i in range(N)]
     cdef vector[vector[double]] sufficient_sdp = [[-1] for i in range(N)]
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -6717,7 +6717,7 @@ cpdef global_ddp_intv(double[:, :] X, double[::1] y_X,  double[:, :] data, doubl
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -7222,7 +7222,7 @@ cpdef global_cdp_rf(double[:, :] X, double[::1] y_X, double[::1] DOWN, double[::
     S = np.zeros((data.shape[1]), dtype=np.int)
     S_bar = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m+1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -7660,7 +7660,7 @@ cpdef global_cdp_intv(double[:, :] X, double[::1] y_X,  double[:, :] data, doubl
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 0f9c85f..7b4dac5 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -911,7 +911,7 @@ cpdef global_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -1042,7 +1042,7 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -1372,7 +1372,7 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
-- 
2.43.0


From a34eec6c6499a4c97234abd4bfe11cda03b2890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 05/32] fix: entries of a longer earlier explanation do not
 remain in the reported subset

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 40 ++++++++++-----------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 12 +++----
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 6987f38..b944741 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -942,8 +942,8 @@ cpdef global_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -1247,8 +1247,8 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -3049,8 +3049,8 @@ cpdef global_sdp_clf(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -3971,8 +3971,8 @@ cpdef global_sdp_clf_approx(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -4216,8 +4216,8 @@ cpdef global_sdp_rf_v0(double[:, :] X, double[::1] y_X,  double[:, :] data, doub
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -6119,8 +6119,8 @@ cpdef global_ddp_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, double[
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -6267,8 +6267,8 @@ cpdef global_sdp_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, double[
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -6754,8 +6754,8 @@ cpdef global_ddp_intv(double[:, :] X, double[::1] y_X,  double[:, :] data, doubl
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -7265,8 +7265,8 @@ cpdef global_cdp_rf(double[:, :] X, double[::1] y_X, double[::1] DOWN, double[::
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -7697,8 +7697,8 @@ cpdef global_cdp_intv(double[:, :] X, double[::1] y_X,  double[:, :] data, doubl
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 7b4dac5..aeaf674 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -936,8 +936,8 @@ cpdef global_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -1241,8 +1241,8 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -1476,8 +1476,8 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
-- 
2.43.0


From 8a17ce9960aaa76e9f35624923791ab66579aa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 06/32] fix: refitting discards the forest arrays of the
 previous fit

---
 acv_explainers/acv_agnosticX.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index ccadcad..6bb9d85 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -160,6 +160,7 @@ class ACXplainer:
         self.d = X.shape[1]
         self.model.fit(X=X, y=y, sample_weight=sample_weight, split_select_weights=split_select_weights,
                        always_split_features=always_split_features, categorical_features=categorical_features)
+        self.check_is_explain = False
 
     def fit_global_rules(self, X, y, rules, rules_s_star):
         # TODO: think about removing s_star ? add complexity ?
-- 
2.43.0


From 7777331a5c9d1cae22526412d193fae5aa775a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 07/32] fix: sufficient_cxpl_rf strips the placeholder of every
 sample, not the first sample

---
 acv_explainers/acv_agnosticX.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index 6bb9d85..4a39134 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -1216,7 +1216,8 @@ class ACXplainer:
                                             pi_level, minimal, stop, search_space[:10])
 
         c_expl = [sufficient_coal[1:] for sufficient_coal in c_expl]
-        return c_expl, cdp_expl[1:], cdp_global
+        cdp_expl = [cdp_ind[1:] for cdp_ind in cdp_expl]
+        return c_expl, cdp_expl, cdp_global
 
     def compute_exp_rf(self, X, y, data, y_data, S, min_node_size=5, t=None):
         """
-- 
2.43.0


From f89a10e82f37d18160536a7da95c77de4c1e958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 08/32] fix: ACVTree.importance_sdp_rf falls back on its own
 node indices

---
 acv_explainers/acv_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index e67a762..a5bb942 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -964,7 +964,7 @@ class ACVTree(BaseTree):
                 feature_importance = -np.array(self.model.feature_importances_)
                 search_space = list(np.argsort(feature_importance))
             except AttributeError:
-                flat_list = [item for t in self.ACXplainer.node_idx_trees for sublist in t for item in sublist]
+                flat_list = [item for t in self.node_idx_trees for sublist in t for item in sublist]
                 node_idx = pd.Series(flat_list)
                 search_space = []
                 for v in (node_idx.value_counts().keys()):
-- 
2.43.0


From 17f641087b9ccfe517df91f8c0485cf60a720f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 09/32] fix: compute_exp_normalized_nopa calls the kernel that
 exists

---
 acv_explainers/acv_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index a5bb942..3b308bc 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -639,7 +639,7 @@ class ACVTree(BaseTree):
                                                 num_threads)
 
     def compute_exp_normalized_nopa(self, X, S, data, num_threads=10):
-        return cyext_acv.compute_exp_normalized_nopa(np.array(X, dtype=np.float), S, data, self.values,
+        return cyext_acv_nopa.compute_exp_normalized(np.array(X, dtype=np.float), S, data, self.values,
                                                      self.partition_leaves_trees,
                                                      self.leaf_idx_trees, self.leaves_nb, self.scalings,
                                                      num_threads)
-- 
2.43.0


From f59be1332970d7b705f633b3b8f1a96f3daf7358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 10/32] fix: sequential same-decision probabilities use the
 two-class leaf values of binary boosting

---
 acv_explainers/acv_tree.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 3b308bc..f886dd4 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -407,7 +407,16 @@ class ACVTree(BaseTree):
         data = check_array(data, dtype=[np.double])
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.global_sdp_clf_nopa(X, fX, y_pred, data, self.values,
+        if safe_isinstance(self.model, ["xgboost.sklearn.XGBClassifier", "catboost.core.CatBoostClassifier",
+                                        "lightgbm.sklearn.LGBMClassifier",
+                                        "sklearn.ensemble.GradientBoostingClassifier",
+                                        "sklearn.ensemble._gb.GradientBoostingClassifier",
+                                        "sklearn.ensemble.gradient_boosting.GradientBoostingClassifier"]) and \
+                self.num_outputs == 1:
+            values = self.values_binary
+        else:
+            values = self.values
+        return cyext_acv_nopa.global_sdp_clf_nopa(X, fX, y_pred, data, values,
                                                   self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb,
                                                   self.scalings, C, pi_level, minimal)
 
@@ -420,7 +429,16 @@ class ACVTree(BaseTree):
         S = column_or_1d(S)
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.compute_sdp_clf_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self.values,
+        if safe_isinstance(self.model, ["xgboost.sklearn.XGBClassifier", "catboost.core.CatBoostClassifier",
+                                        "lightgbm.sklearn.LGBMClassifier",
+                                        "sklearn.ensemble.GradientBoostingClassifier",
+                                        "sklearn.ensemble._gb.GradientBoostingClassifier",
+                                        "sklearn.ensemble.gradient_boosting.GradientBoostingClassifier"]) and \
+                self.num_outputs == 1:
+            values = self.values_binary
+        else:
+            values = self.values
+        return cyext_acv_nopa.compute_sdp_clf_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, values,
                                                    self.partition_leaves_trees,
                                                    self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
 
@@ -429,10 +447,20 @@ class ACVTree(BaseTree):
                 Same as compute_sdp_clf_cat, but does not use parallelism
         """
         X = check_array(X, dtype=[np.double])
+        data = check_array(data, dtype=[np.double])
         S = column_or_1d(S)
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.compute_sdp_clf_cat_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self.values,
+        if safe_isinstance(self.model, ["xgboost.sklearn.XGBClassifier", "catboost.core.CatBoostClassifier",
+                                        "lightgbm.sklearn.LGBMClassifier",
+                                        "sklearn.ensemble.GradientBoostingClassifier",
+                                        "sklearn.ensemble._gb.GradientBoostingClassifier",
+                                        "sklearn.ensemble.gradient_boosting.GradientBoostingClassifier"]) and \
+                self.num_outputs == 1:
+            values = self.values_binary
+        else:
+            values = self.values
+        return cyext_acv_nopa.compute_sdp_clf_cat_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, values,
                                                        self.partition_leaves_trees,
                                                        self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
 
-- 
2.43.0


From f92afa33fb7d66eb31a1bca921cfdc2f1a7c6f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:53 +0000
Subject: [PATCH 11/32] fix: marginal sampling and the telco loader name what
 exists

---
 acv_data/data_loader.py | 2 +-
 acv_explainers/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_data/data_loader.py b/acv_data/data_loader.py
index b3073b2..1e9f409 100644
--- a/acv_data/data_loader.py
+++ b/acv_data/data_loader.py
@@ -27,7 +27,7 @@ def data_loading(dataset):
     current_path = op.dirname(op.abspath(__file__))
     if dataset == 'telco':
         data_house_prices_path = op.join(current_path, "telco_churn.csv")
-        data = pd.read_csv(data_telco)
+        data = pd.read_csv(data_house_prices_path)
 
     else:
         raise ValueError("Dataset not found. Check the docstring for available values")
diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 0304f85..023a7d7 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -285,7 +285,7 @@ def condMVN(mean, cov, set_bar, set, x):
         return mean_cond, cov_cond
 
 
-def marMVN(mean, cov, set_bar, set, x):
+def marMVN(mean, cov, set_bar, set):
     if set == []:
         return mean, cov
     else:
-- 
2.43.0


From 247dfd39b1fd0587c896cf6f8b5f2064d0ec9e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 12/32] fix: prediction wrappers check the offsets, release
 every array and read no released buffer

---
 acv_explainers/cext_acv/_cext.cc | 38 +++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/acv_explainers/cext_acv/_cext.cc b/acv_explainers/cext_acv/_cext.cc
index e90dcde..8704536 100644
--- a/acv_explainers/cext_acv/_cext.cc
+++ b/acv_explainers/cext_acv/_cext.cc
@@ -168,7 +168,7 @@ static PyObject *_cext_dense_tree_predict(PyObject *self, PyObject *args)
     /* If that didn't work, throw an exception. Note that R and y are optional. */
     if (children_left_array == NULL || children_right_array == NULL ||
         children_default_array == NULL || features_array == NULL || thresholds_array == NULL ||
-        values_array == NULL || X_array == NULL ||
+        values_array == NULL || base_offset_array == NULL || X_array == NULL ||
         X_missing_array == NULL || out_pred_array == NULL) {
         Py_XDECREF(children_left_array);
         Py_XDECREF(children_right_array);
@@ -192,7 +192,17 @@ static PyObject *_cext_dense_tree_predict(PyObject *self, PyObject *args)
 
     const unsigned num_offsets = PyArray_DIM(base_offset_array, 0);
     if (num_offsets != num_outputs) {
-        std::cerr << "The passed base_offset array does that have the same number of outputs as the values array: " << num_offsets << " vs. " << num_outputs << std::endl;
+        PyErr_SetString(PyExc_ValueError, "base_offset does not have the same number of outputs as values");
+        Py_DECREF(children_left_array);
+        Py_DECREF(children_right_array);
+        Py_DECREF(children_default_array);
+        Py_DECREF(features_array);
+        Py_DECREF(thresholds_array);
+        Py_DECREF(values_array);
+        Py_DECREF(base_offset_array);
+        Py_DECREF(X_array);
+        Py_DECREF(X_missing_array);
+        Py_DECREF(out_pred_array);
         return NULL;
     }
 
@@ -221,6 +231,9 @@ static PyObject *_cext_dense_tree_predict(PyObject *self, PyObject *args)
 
     dense_tree_predict(out_pred, trees, data);
 
+    /* Build the output tuple */
+    PyObject *ret = Py_BuildValue("d", (double)values[0]);
+
     // clean up the created python objects
     Py_XDECREF(children_left_array);
     Py_XDECREF(children_right_array);
@@ -235,8 +248,6 @@ static PyObject *_cext_dense_tree_predict(PyObject *self, PyObject *args)
     //PyArray_ResolveWritebackIfCopy(out_pred_array);
     Py_XDECREF(out_pred_array);
 
-    /* Build the output tuple */
-    PyObject *ret = Py_BuildValue("d", (double)values[0]);
     return ret;
 }
 
@@ -397,7 +408,7 @@ static PyObject *_cext_single_tree_predict(PyObject *self, PyObject *args)
     /* If that didn't work, throw an exception. Note that R and y are optional. */
     if (children_left_array == NULL || children_right_array == NULL ||
         children_default_array == NULL || features_array == NULL || thresholds_array == NULL ||
-        values_array == NULL || X_array == NULL ||
+        values_array == NULL || base_offset_array == NULL || X_array == NULL ||
         X_missing_array == NULL || out_pred_array == NULL) {
         Py_XDECREF(children_left_array);
         Py_XDECREF(children_right_array);
@@ -421,7 +432,17 @@ static PyObject *_cext_single_tree_predict(PyObject *self, PyObject *args)
 
     const unsigned num_offsets = PyArray_DIM(base_offset_array, 0);
     if (num_offsets != num_outputs) {
-        std::cerr << "The passed base_offset array does that have the same number of outputs as the values array: " << num_offsets << " vs. " << num_outputs << std::endl;
+        PyErr_SetString(PyExc_ValueError, "base_offset does not have the same number of outputs as values");
+        Py_DECREF(children_left_array);
+        Py_DECREF(children_right_array);
+        Py_DECREF(children_default_array);
+        Py_DECREF(features_array);
+        Py_DECREF(thresholds_array);
+        Py_DECREF(values_array);
+        Py_DECREF(base_offset_array);
+        Py_DECREF(X_array);
+        Py_DECREF(X_missing_array);
+        Py_DECREF(out_pred_array);
         return NULL;
     }
 
@@ -450,6 +471,9 @@ static PyObject *_cext_single_tree_predict(PyObject *self, PyObject *args)
 
     single_tree_predict(out_pred, trees, data, j);
 
+    /* Build the output tuple */
+    PyObject *ret = Py_BuildValue("d", (double)values[0]);
+
     // clean up the created python objects
     Py_XDECREF(children_left_array);
     Py_XDECREF(children_right_array);
@@ -464,8 +488,6 @@ static PyObject *_cext_single_tree_predict(PyObject *self, PyObject *args)
     //PyArray_ResolveWritebackIfCopy(out_pred_array);
     Py_XDECREF(out_pred_array);
 
-    /* Build the output tuple */
-    PyObject *ret = Py_BuildValue("d", (double)values[0]);
     return ret;
 }
 
-- 
2.43.0


From 06fcbee5e85b49875bf42d411313fc92ebced4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 13/32] fix: rule membership uses the half-open regions (low,
 high] the rules are made of

---
 acv_explainers/utils.py    |  8 ++++----
 acv_explainers/utils_cr.py | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 023a7d7..93e028e 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -978,7 +978,7 @@ def global_rules_model(x_exp, rules, rules_output, rules_coverage, rules_acc, mi
         for i in range(rules.shape[0]):
             rule = rules[i]
 
-            x_in = np.prod([(x[s] <= rule[s, 1]) * (x[s] >= rule[s, 0]) for s in S[i]], axis=0).astype(bool)
+            x_in = np.prod([(x[s] <= rule[s, 1]) * (x[s] > rule[s, 0]) for s in S[i]], axis=0).astype(bool)
             if x_in:
                 y_out.append(rules_output[i])
                 y_coverage.append(rules_coverage[i])
@@ -1012,7 +1012,7 @@ def global_rules_model_reg(x_exp, rules, rules_output, rules_coverage, rules_acc
         for i in range(rules.shape[0]):
             rule = rules[i]
 
-            x_in = np.prod([(x[s] <= rule[s, 1]) * (x[s] >= rule[s, 0]) for s in S[i]], axis=0).astype(bool)
+            x_in = np.prod([(x[s] <= rule[s, 1]) * (x[s] > rule[s, 0]) for s in S[i]], axis=0).astype(bool)
             if x_in:
                 y_out.append(rules_output[i])
                 y_coverage.append(rules_coverage[i])
@@ -1047,7 +1047,7 @@ def compute_rules_metrics(rules, data, y_data, S_star, classifier=True):
     for idx in range(rules.shape[0]):
         S = S_star[idx]
         rule = rules[idx]
-        where = np.prod([(data[:, s] <= rule[s, 1]) * (data[:, s] >= rule[s, 0])
+        where = np.prod([(data[:, s] <= rule[s, 1]) * (data[:, s] > rule[s, 0])
                          for s in S], axis=0).astype(bool)
         if classifier:
             rules_output.append(1 * (np.mean(y_data[where]) > 0.5))
@@ -2054,7 +2054,7 @@ def generate_newrule(rule, left_by_var, right_by_var, p_best=0.6):
 
 
 def check_rule(rule, x_train, bad_sample):
-    x_in = np.prod([(x_train[:, s] <= rule[s, 1]) * (x_train[:, s] >= rule[s, 0])
+    x_in = np.prod([(x_train[:, s] <= rule[s, 1]) * (x_train[:, s] > rule[s, 0])
                     for s in range(x_train.shape[1])], axis=0)
     return np.sum(x_in * bad_sample) == 0
 
diff --git a/acv_explainers/utils_cr.py b/acv_explainers/utils_cr.py
index e90cbca..7dd8070 100644
--- a/acv_explainers/utils_cr.py
+++ b/acv_explainers/utils_cr.py
@@ -92,7 +92,7 @@ def get_compatible_leaf(acvtree, x, y_target, S_star, S_bar_set, w, x_train, y_t
     suf_leaf = []
 
     for i in range(nb_leaf):
-        x_in = np.prod([(x_train[:, s] <= partition_leaf[i, s, 1]) * (x_train[:, s] >= partition_leaf[i, s, 0])
+        x_in = np.prod([(x_train[:, s] <= partition_leaf[i, s, 1]) * (x_train[:, s] > partition_leaf[i, s, 0])
                         for s in range(d)], axis=0).astype(bool)
         y_in = y_train[x_in]
         acc = np.mean(y_in == y_target)
@@ -440,7 +440,7 @@ def get_compatible_leaf_reg(acvtree, x, y_target, down, up, S_star, S_bar_set, w
     suf_leaf = []
 
     for i in range(nb_leaf):
-        x_in = np.prod([(x_train[:, s] <= partition_leaf[i, s, 1]) * (x_train[:, s] >= partition_leaf[i, s, 0])
+        x_in = np.prod([(x_train[:, s] <= partition_leaf[i, s, 1]) * (x_train[:, s] > partition_leaf[i, s, 0])
                         for s in range(d)], axis=0).astype(bool)
 
         y_in = y_train[x_in]
@@ -658,7 +658,7 @@ def generate_newrule(rule, left_by_var, right_by_var, p_best=0.6):
 
 
 def check_rule(rule, x_train, bad_sample):
-    x_in = np.prod([(x_train[:, s] <= rule[s, 1]) * (x_train[:, s] >= rule[s, 0])
+    x_in = np.prod([(x_train[:, s] <= rule[s, 1]) * (x_train[:, s] > rule[s, 0])
                     for s in range(x_train.shape[1])], axis=0)
     return np.sum(x_in * bad_sample) == 0
 
@@ -710,7 +710,7 @@ def volume_rectangles(recs, max_values, min_values):
 
 def max_dens(recs, x_train, bad_sample):
     d = x_train.shape[1]
-    x_in = np.prod([(x_train[:, s] <= recs[s, 1]) * (x_train[:, s] >= recs[s, 0])
+    x_in = np.prod([(x_train[:, s] <= recs[s, 1]) * (x_train[:, s] > recs[s, 0])
                     for s in range(d)], axis=0)
     return np.sum(x_in * (1 - bad_sample)) / np.sum(1 - bad_sample)
 
@@ -768,11 +768,11 @@ def rules_by_annealing(value_function, rules, rules_data, x_train, p_best=0.85,
         rule = rules[idx]
         rule_data = rules_data[idx]
 
-        x_in = np.prod([(x_train[:, s] <= rule[s, 1]) * (x_train[:, s] >= rule[s, 0])
+        x_in = np.prod([(x_train[:, s] <= rule[s, 1]) * (x_train[:, s] > rule[s, 0])
                 for s in range(d)], axis=0)
 
         for r in rule_data:
-            x_in += np.prod([(x_train[:, s] <= r[s, 1]) * (x_train[:, s] >= r[s, 0])
+            x_in += np.prod([(x_train[:, s] <= r[s, 1]) * (x_train[:, s] > r[s, 0])
                 for s in range(d)], axis=0)
 
         bad_sample = 1. - (x_in > 0)
-- 
2.43.0


From 48c681c43ff3601aa896b2a90cdb0d0b1807a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 14/32] fix: a rule is merged with a neighbour only if the
 neighbour covers it on the other axes

---
 acv_explainers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 93e028e..2451b12 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -941,7 +941,7 @@ def extend_rec(rec_a, rec_b, S, axs, dim):
     a = 0
     for k in S:
         if k not in axs:
-            if not rec_b[k, 0] <= rec_a[k, 0] and rec_b[k, 1] >= rec_a[k, 1]:
+            if not (rec_b[k, 0] <= rec_a[k, 0] and rec_b[k, 1] >= rec_a[k, 1]):
                 a += 1
     if a == 0:
         for i, k in enumerate(axs):
-- 
2.43.0


From 69ee867ce6197da34f1c78c56fb02966a61d666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 15/32] fix: global rules below the minimal coverage are never
 selected

---
 acv_explainers/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 2451b12..db7816e 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -987,9 +987,10 @@ def global_rules_model(x_exp, rules, rules_output, rules_coverage, rules_acc, mi
                 y_S.append(S[i])
 
         y_weights = np.array(y_weights)
-        if len(y_out) != 0 and np.max(y_weights[np.array(y_coverage) >= min_cov]) >= min_acc:
-            max_weights = np.max(y_weights[np.array(y_coverage) >= min_cov])
-            best_acc = np.argmax(y_weights == max_weights)
+        enough_cov = np.array(y_coverage) >= min_cov
+        if np.any(enough_cov) and np.max(y_weights[enough_cov]) >= min_acc:
+            max_weights = np.max(y_weights[enough_cov])
+            best_acc = np.argmax((y_weights == max_weights) * enough_cov)
 
             y_exp.append(y_out[best_acc])
             rule_exp.append(y_rule[best_acc])
@@ -1021,9 +1022,10 @@ def global_rules_model_reg(x_exp, rules, rules_output, rules_coverage, rules_acc
                 y_S.append(S[i])
 
         y_weights = np.array(y_weights)
-        if len(y_out) != 0 and np.min(y_weights[np.array(y_coverage) >= min_cov]) <= min_mse:
-            min_weights = np.min(y_weights[np.array(y_coverage) >= min_cov])
-            best_acc = np.argmax(y_weights == min_weights)
+        enough_cov = np.array(y_coverage) >= min_cov
+        if np.any(enough_cov) and np.min(y_weights[enough_cov]) <= min_mse:
+            min_weights = np.min(y_weights[enough_cov])
+            best_acc = np.argmax((y_weights == min_weights) * enough_cov)
 
             y_exp.append(y_out[best_acc])
             rule_exp.append(y_rule[best_acc])
-- 
2.43.0


From bf9fa2b8b4c87edd58a9eddfcace652f524f7006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 16/32] fix: counterfactual rules keep their own probability,
 and a rule contained in another is the one removed

---
 acv_explainers/utils.py    |  9 ++++-----
 acv_explainers/utils_cr.py | 10 ++++------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index db7816e..3cd665c 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -1451,8 +1451,7 @@ def return_counterfactuals(ac_explainer, suf_leaf, S_star, S_bar_set, x, y, x_tr
             counterfactuals_sdp.append(sdp)
             counterfactuals_w.append(w)
 
-    return np.unique(counterfactuals, axis=0), np.unique(counterfactuals_sdp, axis=0), \
-           np.unique(counterfactuals_w, axis=0)
+    return np.array(counterfactuals), np.array(counterfactuals_sdp), np.array(counterfactuals_w)
 
 
 def return_global_counterfactuals(ac_explainer, data, y_data, s_star, n_star, x_train, y_train, w, acc_level, pi_level):
@@ -1981,8 +1980,7 @@ def return_counterfactuals_reg(ac_explainer, suf_leaf, S_star, S_bar_set, x, y,
             counterfactuals_sdp.append(sdp)
             counterfactuals_w.append(w)
 
-    return np.unique(counterfactuals, axis=0), np.unique(counterfactuals_sdp, axis=0), \
-           np.unique(counterfactuals_w, axis=0)
+    return np.array(counterfactuals), np.array(counterfactuals_sdp), np.array(counterfactuals_w)
 
 
 def return_global_counterfactuals_reg(ac_explainer, data, y_data, down, up, s_star, n_star, x_train, y_train, w,
@@ -2187,4 +2185,5 @@ def remove_in_wsdp(ra, sa):
                                    for s in range(ra.shape[1])], axis=0).astype(bool):
                 ra[i] = ra[j]
                 sa[i] = sa[j]
-    return np.unique(ra, axis=0), np.unique(sa, axis=0)
+    ra_unique, first = np.unique(ra, axis=0, return_index=True)
+    return ra_unique, sa[first]
diff --git a/acv_explainers/utils_cr.py b/acv_explainers/utils_cr.py
index 7dd8070..d40d06a 100644
--- a/acv_explainers/utils_cr.py
+++ b/acv_explainers/utils_cr.py
@@ -797,12 +797,10 @@ def remove_in_wsdp(ra, sa, wa):
     remove_list = []
     for i in range(ra.shape[0]):
         for j in range(ra.shape[0]):
-            if i != j and np.prod([(ra[i, s, 1] <= ra[j, s, 1]) * (ra[i, s, 0] >= ra[j, s, 0])
-                                   for s in range(ra.shape[1])], axis=0).astype(bool):
-                # ra[i] = ra[j]
-                # sa[i] = sa[j]
-                # wa[i] = wa[j]
-                remove_list.append(j)
+            if i != j and j not in remove_list and np.prod([(ra[i, s, 1] <= ra[j, s, 1]) * (ra[i, s, 0] >= ra[j, s, 0])
+                                                            for s in range(ra.shape[1])], axis=0).astype(bool):
+                remove_list.append(i)
+                break
     ra_b = np.delete(ra_b, remove_list, axis=0)
     sa_b = np.delete(sa_b, remove_list, axis=0)
     wa_b = np.delete(wa_b, remove_list, axis=0)
-- 
2.43.0


From f5f33e29c4605c82b8de8f1f1fd53fe9ebe2731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:55 +0000
Subject: [PATCH 17/32] fix: compile_rules uses the half-open regions its rules
 are made of

---
 acv_explainers/cyext_acv/cyext_acv.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index b944741..32e44c5 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -4874,7 +4874,7 @@ cpdef compile_rules(rule_data, data, S, min_node_size):
         while(tn <= min_node_size):
             part_up = np.min(rule_data[:, i, :depth, 1], axis=-1)
             part_dn = np.max(rule_data[:, i, :depth, 0], axis=-1)
-            where = np.prod([(data[:, s] <= part_up[s]) * (data[:, s] >= part_dn[s])
+            where = np.prod([(data[:, s] <= part_up[s]) * (data[:, s] > part_dn[s])
                                              for s in S], axis=0).astype(bool)
             tn = np.sum(where)
             depth -= 1
-- 
2.43.0


From 516eb43c4374fbc301cda9c741376c3452070f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 18/32] fix: the quantile walks keep every sample at the
 missing child of a leaf

---
 acv_explainers/cyext_acv/cyext_acv.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 32e44c5..3000146 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -4370,9 +4370,10 @@ cdef double single_compute_quantile_rf(double[:] & x, double & y_x,  double[:, :
                         for i in range(N):
                             samples_child[i] = samples[i] * (data[i, features[b, nodes_level[it_node]]] > thresholds[b, nodes_level[it_node]])
                             s += samples_child[i]
-                elif nodes_level[it_node] >= 0:
-                     nodes_child.push_back(children_left[b, nodes_level[it_node]])
-                     nodes_child.push_back(children_right[b, nodes_level[it_node]])
+                else:
+                     if nodes_level[it_node] >= 0:
+                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
+                         nodes_child.push_back(children_right[b, nodes_level[it_node]])
 
                      for i in range(N):
                         samples_child[i] = samples[i]
-- 
2.43.0


From b667074f70957d4cc779a806b1943eaceb2ea79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 19/32] fix: the Python swing, local and global probabilities
 call what exists with arguments it takes

---
 acv_explainers/acv_tree.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index f886dd4..b29d181 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -517,33 +517,34 @@ class ACVTree(BaseTree):
 
     def py_compute_local_sdp_clf(self, X, threshold, proba, index, data, final_coal, decay, C, verbose):
         return local_sdp(X, threshold, proba, index, data, final_coal, decay, C, verbose,
-                         self.compute_sdp_clf)
+                         lambda X, tX, S, data: self.py_compute_sdp_clf(X=X, S=S, data=data, tX=tX))
 
     def py_compute_local_sdp_reg(self, X, threshold, proba, index, data, final_coal, decay, C, verbose):
-        return local_sdp(X, threshold, proba, index, data, final_coal, decay, C, verbose, self.compute_sdp_reg)
+        return local_sdp(X, threshold, proba, index, data, final_coal, decay, C, verbose, self.py_compute_sdp_reg)
 
     def py_swing_values_clf(self, X, S, data, threshold, tX=0):
-        return np.array(self.compute_sdp_clf(X=X, tX=tX, S=S, data=data) >= threshold, dtype=float)
+        return np.array(self.py_compute_sdp_clf(X=X, tX=tX, S=S, data=data) >= threshold, dtype=float)
 
     def py_swing_values_reg(self, X, tX, S, data, threshold):
-        return np.array(self.compute_sdp_reg(X=X, tX=tX, S=S, data=data) >= threshold, dtype=float)
+        return np.array(self.py_compute_sdp_reg(X=X, tX=tX, S=S, data=data) >= threshold, dtype=float)
 
     def py_swing_sv_clf(self, X, data, threshold, C, tX=0):
-        return swing_tree_shap(X, tX, threshold, data, C, self.swing_values_clf)
+        return swing_tree_shap(X, tX, threshold, data, C, self.py_swing_values_clf)
 
     def py_swing_sv_reg(self, X, data, threshold, C, tX=0):
-        return swing_tree_shap(X, tX, threshold, data, C, self.swing_values_reg)
+        return swing_tree_shap(X, tX, threshold, data, C, self.py_swing_values_reg)
 
     def py_global_sdp_importance_clf(self, data, data_bground, columns_names, pi_level, decay, threshold,
                                      proba, C, verbose):
 
         return global_sdp_importance(data, data_bground, columns_names, pi_level, decay, threshold,
-                                     proba, C, verbose, self.compute_sdp_clf)
+                                     proba, C, verbose,
+                                     lambda X, tX, S, data: self.py_compute_sdp_clf(X=X, S=S, data=data, tX=tX))
 
     def py_global_sdp_importance_reg(self, data, data_bground, columns_names, pi_level, decay, threshold,
                                      proba, C, verbose):
         return global_sdp_importance(data, data_bground, columns_names, pi_level, decay, threshold,
-                                     proba, C, verbose, self.compute_sdp_reg)
+                                     proba, C, verbose, self.py_compute_sdp_reg)
 
     def py_shap_values_notoptimized(self, X, data, C=[[]]):
         return shap_values_leaves_notoptimized(X, data, C, self)
-- 
2.43.0


From 8191734241d25a8a6093f181d6d926feb3b8593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 20/32] fix: bar_legacy returns the figure it drew

---
 acv_app/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_app/plots.py b/acv_app/plots.py
index 34bdec7..e2d07d9 100644
--- a/acv_app/plots.py
+++ b/acv_app/plots.py
@@ -428,4 +428,4 @@ def bar_legacy(shap_values, features=None, feature_names=None, max_display=None,
 
     pl.xlabel("SHAP value (impact on model output)")
 
-    return fig
\ No newline at end of file
+    return pl.gcf()
\ No newline at end of file
-- 
2.43.0


From b55478cdfa630749d3d155d553d4fcbefe123c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:00 +0000
Subject: [PATCH 21/32] fix: regression counterfactual rules honour pi_level
 and the search options

---
 acv_explainers/counterfactual_rules.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 3853788..5b0e099 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -94,7 +94,12 @@ class CR:
                                                                                      self.x_train, self.y_train,
                                                                                      self.w_local,
                                                                                      acc_level=acc_level,
-                                                                                     pi_level=acc_level)
+                                                                                     pi_level=pi_level,
+                                                                                     p_best=p_best, n_try=n_try,
+                                                                                     batch=batch, max_iter=max_iter,
+                                                                                     temp=temp,
+                                                                                     max_iter_convergence=max_iter_convergence
+                                                                                     )
 
     def run_sampling_local_counterfactuals(self, x, y_target=None, down=None, up=None, batch=1000, max_iter=1000, temp=0.5):
         if y_target is None:
-- 
2.43.0


From 50bce586346f2a130aab9cf84811828b9f213bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:28 +0000
Subject: [PATCH 22/32] fix: intervals, bounds and conditions must have one row
 per sample

---
 acv_explainers/acv_agnosticX.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index 4a39134..015be53 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -270,6 +270,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t)
 
         sdp = cyext_acv.compute_sdp_rf(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
@@ -318,6 +319,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t)
         sdp, rules = cyext_acv.compute_sdp_rule(X, y, data, y_data, S, self.ACXplainer.features,
                                                 self.ACXplainer.thresholds,
                                                 self.ACXplainer.children_left,
@@ -381,6 +383,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t)
 
         if not verbose:
             sdp, rules, sdp_all, rules_data, w = cyext_acv.compute_sdp_maxrule(X, y, data, y_data, S,
@@ -461,6 +464,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t)
         ddp = cyext_acv.compute_ddp_rf(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
                                        self.ACXplainer.children_right, self.ACXplainer.max_depth, min_node_size,
@@ -507,6 +511,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t)
         ddp, rules = cyext_acv.compute_ddp_rule(X, y, data, y_data, S, self.ACXplainer.features,
                                                 self.ACXplainer.thresholds,
                                                 self.ACXplainer.children_left,
@@ -559,6 +564,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t)
         if not verbose:
             ddp, w = cyext_acv.compute_ddp_weights(X, y, data, y_data, S,
                                                    self.ACXplainer.features,
@@ -620,6 +626,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t, down, up, cond)
         self.check_is_explainer()
 
         ddp, w = cyext_acv.compute_cdp_cond_weights(X, y, down, up, data, y_data, S,
@@ -673,6 +680,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t, down, up)
         ddp = cyext_acv.compute_cdp_rf(X, y, down, up, data, y_data, S, self.ACXplainer.features,
                                        self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
@@ -720,6 +728,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t, down, up)
         ddp, rules = cyext_acv.compute_cdp_rule(X, y, down, up, data, y_data, S, self.ACXplainer.features,
                                                 self.ACXplainer.thresholds,
                                                 self.ACXplainer.children_left,
@@ -772,6 +781,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t, down, up)
         if not verbose:
             ddp, w = cyext_acv.compute_cdp_weights(X, y, down, up, data, y_data, S,
                                                    self.ACXplainer.features,
@@ -835,6 +845,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t, cond)
         ddp, w = cyext_acv.compute_ddp_cond_weights(X, y, data, y_data, S,
                                                     self.ACXplainer.features,
                                                     self.ACXplainer.thresholds,
@@ -916,6 +927,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t)
 
         return cyext_acv.global_sdp_rf(X, y, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
@@ -991,6 +1003,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t)
         return cyext_acv.global_ddp_rf(X, y, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
                                        self.ACXplainer.children_right, self.ACXplainer.max_depth, min_node_size,
@@ -1064,6 +1077,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t, down, up)
 
         return cyext_acv.global_cdp_rf(X, y, down, up, data, y_data, self.ACXplainer.features,
                                        self.ACXplainer.thresholds,
@@ -1134,6 +1148,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t)
         sufficient_expl, sdp_expl, sdp_global = cyext_acv.sufficient_expl_rf(X, y, data, y_data,
                                                                              self.ACXplainer.features,
                                                                              self.ACXplainer.thresholds,
@@ -1209,6 +1224,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t)
         c_expl, cdp_expl, cdp_global = cyext_acv.sufficient_cxpl_rf(X, y, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                                             self.ACXplainer.children_left,
                                             self.ACXplainer.children_right, self.ACXplainer.max_depth, min_node_size,
@@ -1258,6 +1274,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t)
         exp = cyext_acv.compute_exp_rf(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
                                        self.ACXplainer.children_right, self.ACXplainer.max_depth, min_node_size,
@@ -1303,6 +1320,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t)
         sdp = cyext_acv.compute_cdf_rf(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
                                        self.ACXplainer.children_right, self.ACXplainer.max_depth, min_node_size,
@@ -1457,6 +1475,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t, cond)
         ddp, w = cyext_acv.compute_ddp_intv_weights(X, y, data, y_data, S,
                                                     self.ACXplainer.features,
                                                     self.ACXplainer.thresholds,
@@ -1511,6 +1530,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t, cond)
         ddp = cyext_acv.compute_ddp_intv_same_set(X, y, data, y_data, S,
                                                   self.ACXplainer.features,
                                                   self.ACXplainer.thresholds,
@@ -1588,6 +1608,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t, cond)
         return cyext_acv.global_ddp_intv(X, y, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                                          self.ACXplainer.children_left,
                                          self.ACXplainer.children_right, cond, self.ACXplainer.max_depth, min_node_size,
@@ -1638,6 +1659,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t, cond)
         ddp, w = cyext_acv.compute_cdp_intv_weights(X, y, data, y_data, S,
                                                     self.ACXplainer.features,
                                                     self.ACXplainer.thresholds,
@@ -1692,6 +1714,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t, cond)
         ddp = cyext_acv.compute_cdp_intv_same_set(X, y, data, y_data, S,
                                                   self.ACXplainer.features,
                                                   self.ACXplainer.thresholds,
@@ -1769,6 +1792,7 @@ class ACXplainer:
             t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
         elif self.classifier:
             t = np.zeros(shape=(X.shape[0], 2))
+        check_consistent_length(X, t, cond)
         return cyext_acv.global_cdp_intv(X, y, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                                          self.ACXplainer.children_left,
                                          self.ACXplainer.children_right, cond, self.ACXplainer.max_depth, min_node_size,
-- 
2.43.0


From d795b9b9ec0936c694342422f44f0c1f63884fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 23/32] fix: SDP without the variable counts every leaf
 compatible with the coalition in the swing kernels

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 2 --
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 2 --
 2 files changed, 4 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 3000146..5bd4f78 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -2311,8 +2311,6 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
 
                     if nv_bool == 0:
                         csm = 1
-                    else:
-                        continue
 
 
                 p = 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index aeaf674..4a14196 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -3284,8 +3284,6 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
 
                     if nv_bool == 0:
                         csm = 1
-                    else:
-                        continue
 
 
                 p = 0
-- 
2.43.0


From 05fe6502eda5b1767cd0c0e99e5496e141d0fb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 24/32] fix: normalise regression SDP with the weights of the
 sample itself for all pairs of trees

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 44 +++++++++++----------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 44 +++++++++++----------
 2 files changed, 48 insertions(+), 40 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 5bd4f78..6942873 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -630,20 +630,22 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
         ss_u = 0
         ss_d = 0
         ss_a = 0
+        for b in range(n_trees):
+            n = 0
+            n_u = 0
+            n_d = 0
+            nb_leaf = leaves_nb[b]
+            for leaf_numb in range(nb_leaf):
+                n += p_n[b, leaf_numb, leaf_numb, i]
+                n_u += p_u_n[b, leaf_numb, leaf_numb, i]
+                n_d += p_d_n[b, leaf_numb, leaf_numb, i]
+            norm[b] = n
+            norm_u[b] = n_u
+            norm_d[b] = n_d
         for b in range(n_trees):
             for l in range(n_trees):
                 if b == l:
-                    n = 0
-                    n_u = 0
-                    n_d = 0
                     nb_leaf = leaves_nb[b]
-                    for leaf_numb in range(nb_leaf):
-                        n += p_n[b, leaf_numb, leaf_numb, i]
-                        n_u += p_u_n[b, leaf_numb, leaf_numb, i]
-                        n_d += p_d_n[b, leaf_numb, leaf_numb, i]
-                    norm[b] = n
-                    norm_u[b] = n_u
-                    norm_d[b] = n_d
                     for leaf_numb in range(nb_leaf):
                         ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
                         ss_u += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
@@ -1198,20 +1200,22 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                 ss_u = 0
                 ss_d = 0
                 ss_a = 0
+                for b in range(n_trees):
+                    n = 0
+                    n_u = 0
+                    n_d = 0
+                    nb_leaf = leaves_nb[b]
+                    for leaf_numb in range(nb_leaf):
+                        n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                    norm[b] = n
+                    norm_u[b] = n_u
+                    norm_d[b] = n_d
                 for b in range(n_trees):
                     for l in range(n_trees):
                         if b == l:
-                            n = 0
-                            n_u = 0
-                            n_d = 0
                             nb_leaf = leaves_nb[b]
-                            for leaf_numb in range(nb_leaf):
-                                n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                            norm[b] = n
-                            norm_u[b] = n_u
-                            norm_d[b] = n_d
                             for leaf_numb in range(nb_leaf):
                                 ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
                                 ss_u += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 4a14196..11f416d 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -624,20 +624,22 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
         ss_u = 0
         ss_d = 0
         ss_a = 0
+        for b in range(n_trees):
+            n = 0
+            n_u = 0
+            n_d = 0
+            nb_leaf = leaves_nb[b]
+            for leaf_numb in range(nb_leaf):
+                n += p_n[b, leaf_numb, leaf_numb, i]
+                n_u += p_u_n[b, leaf_numb, leaf_numb, i]
+                n_d += p_d_n[b, leaf_numb, leaf_numb, i]
+            norm[b] = n
+            norm_u[b] = n_u
+            norm_d[b] = n_d
         for b in range(n_trees):
             for l in range(n_trees):
                 if b == l:
-                    n = 0
-                    n_u = 0
-                    n_d = 0
                     nb_leaf = leaves_nb[b]
-                    for leaf_numb in range(nb_leaf):
-                        n += p_n[b, leaf_numb, leaf_numb, i]
-                        n_u += p_u_n[b, leaf_numb, leaf_numb, i]
-                        n_d += p_d_n[b, leaf_numb, leaf_numb, i]
-                    norm[b] = n
-                    norm_u[b] = n_u
-                    norm_d[b] = n_d
                     for leaf_numb in range(nb_leaf):
                         ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
                         ss_u += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
@@ -1192,20 +1194,22 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                 ss_u = 0
                 ss_d = 0
                 ss_a = 0
+                for b in range(n_trees):
+                    n = 0
+                    n_u = 0
+                    n_d = 0
+                    nb_leaf = leaves_nb[b]
+                    for leaf_numb in range(nb_leaf):
+                        n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                    norm[b] = n
+                    norm_u[b] = n_u
+                    norm_d[b] = n_d
                 for b in range(n_trees):
                     for l in range(n_trees):
                         if b == l:
-                            n = 0
-                            n_u = 0
-                            n_d = 0
                             nb_leaf = leaves_nb[b]
-                            for leaf_numb in range(nb_leaf):
-                                n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                            norm[b] = n
-                            norm_u[b] = n_u
-                            norm_d[b] = n_d
                             for leaf_numb in range(nb_leaf):
                                 ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
                                 ss_u += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
-- 
2.43.0


From fe10322811672f7b97c33ccf9646a407aef68ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 25/32] fix: keep the pairs of trees apart in the regression
 SDP

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 139 ++++++++++----------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 139 ++++++++++----------
 2 files changed, 140 insertions(+), 138 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 6942873..bcf57d3 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -478,8 +478,8 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
     cdef double value
     cdef double value_l
 
-    cdef double[:, :, :, :, :] mean_forest_b
-    mean_forest_b = np.zeros((n_trees, max_leaves, max_leaves, N, 3))
+    cdef double[:, :, :, :, :, :] mean_forest_b
+    mean_forest_b = np.zeros((n_trees, n_trees, max_leaves, max_leaves, N, 3))
 
     cdef double[:] sdp
     sdp = np.zeros((N))
@@ -494,10 +494,10 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
     cdef double ss
     cdef int b, l, leaf_numb, i, s, j, leaf_numb_l
 
-    cdef double[:, :, :, :] p_n, p_u_n, p_d_n
-    p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    cdef double[:, :, :, :, :] p_n, p_u_n, p_d_n
+    p_n = np.zeros((n_trees, n_trees, max_leaves, max_leaves, N))
+    p_u_n = np.zeros((n_trees, n_trees, max_leaves, max_leaves, N))
+    p_d_n = np.zeros((n_trees, n_trees, max_leaves, max_leaves, N))
     cdef double n, n_u, n_d
 
     for b in range(n_trees):
@@ -554,13 +554,13 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 p_d += lm[j]
                                 p_sd += lm_s[j]
 
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 0] += (p * value*value) / (p_s) - (2 * fX[i] * p * value)/(p_s) if p_s != 0 else 0
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 1] += (p_u * value*value) / (p_su) - (2 * fX[i] * p_u * value)/(p_su) if p_su != 0 else 0
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 2] += (p_d * value*value) / (p_sd) - (2 * fX[i] * p_d * value)/(p_sd) if p_sd != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, leaf_numb, i, 0] += (p * value*value) / (p_s) - (2 * fX[i] * p * value)/(p_s) if p_s != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, leaf_numb, i, 1] += (p_u * value*value) / (p_su) - (2 * fX[i] * p_u * value)/(p_su) if p_su != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, leaf_numb, i, 2] += (p_d * value*value) / (p_sd) - (2 * fX[i] * p_d * value)/(p_sd) if p_sd != 0 else 0
 
-                        p_n[b, leaf_numb, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
-                        p_u_n[b, leaf_numb, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                        p_d_n[b, leaf_numb, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                        p_n[b, b, leaf_numb, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
+                        p_u_n[b, b, leaf_numb, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                        p_d_n[b, b, leaf_numb, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
             else:
                 leaves_tree = partition_leaves_trees[b]
                 nb_leaf = leaves_nb[b]
@@ -619,13 +619,13 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                     p_d += lm[j]
                                     p_sd += lm_s[j]
 
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, leaf_numb_l, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, leaf_numb_l, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, leaf_numb_l, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                            p_n[b, leaf_numb, leaf_numb_l, i] += (1.*p)/p_s if p_s != 0 else 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                            p_n[b, l, leaf_numb, leaf_numb_l, i] += (1.*p)/p_s if p_s != 0 else 0
+                            p_u_n[b, l, leaf_numb, leaf_numb_l, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                            p_d_n[b, l, leaf_numb, leaf_numb_l, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
     for i in range(N):
         ss_u = 0
         ss_d = 0
@@ -636,9 +636,9 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
             n_d = 0
             nb_leaf = leaves_nb[b]
             for leaf_numb in range(nb_leaf):
-                n += p_n[b, leaf_numb, leaf_numb, i]
-                n_u += p_u_n[b, leaf_numb, leaf_numb, i]
-                n_d += p_d_n[b, leaf_numb, leaf_numb, i]
+                n += p_n[b, b, leaf_numb, leaf_numb, i]
+                n_u += p_u_n[b, b, leaf_numb, leaf_numb, i]
+                n_d += p_d_n[b, b, leaf_numb, leaf_numb, i]
             norm[b] = n
             norm_u[b] = n_u
             norm_d[b] = n_d
@@ -647,9 +647,9 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                 if b == l:
                     nb_leaf = leaves_nb[b]
                     for leaf_numb in range(nb_leaf):
-                        ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
-                        ss_u += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
-                        ss_d += mean_forest_b[b, leaf_numb, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
+                        ss_a += mean_forest_b[b, b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
+                        ss_u += mean_forest_b[b, b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
+                        ss_d += mean_forest_b[b, b, leaf_numb, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
                 else:
                     nb_leaf = leaves_nb[b]
                     nb_leaf_l = leaves_nb[l]
@@ -659,14 +659,14 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                         n_u = 0
                         n_d = 0
                         for leaf_numb_l in range(nb_leaf_l):
-                            n += p_n[b, leaf_numb, leaf_numb_l, i]
-                            n_u += p_u_n[b, leaf_numb, leaf_numb_l, i]
-                            n_d += p_d_n[b, leaf_numb, leaf_numb_l, i]
+                            n += p_n[b, l, leaf_numb, leaf_numb_l, i]
+                            n_u += p_u_n[b, l, leaf_numb, leaf_numb_l, i]
+                            n_d += p_d_n[b, l, leaf_numb, leaf_numb_l, i]
 
                         for leaf_numb_l in range(nb_leaf_l):
-                            ss_a += (p_n[b, leaf_numb, leaf_numb, i]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  i, 0]/n) if n*norm[b] !=0  else 0
-                            ss_u += (p_u_n[b, leaf_numb, leaf_numb, i]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                            ss_d += (p_d_n[b, leaf_numb, leaf_numb, i]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
+                            ss_a += (p_n[b, b, leaf_numb, leaf_numb, i]/norm[b])*(mean_forest_b[b, l, leaf_numb, leaf_numb_l,  i, 0]/n) if n*norm[b] !=0  else 0
+                            ss_u += (p_u_n[b, b, leaf_numb, leaf_numb, i]/norm_u[b])*(mean_forest_b[b, l, leaf_numb, leaf_numb_l, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
+                            ss_d += (p_d_n[b, b, leaf_numb, leaf_numb, i]/norm_d[b])*(mean_forest_b[b, l, leaf_numb, leaf_numb_l, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
 
 
         sdp[i] = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -988,8 +988,8 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
     cdef double[:, :] mean_forest
     mean_forest = np.zeros((N, 3))
 
-    cdef double[:, :, :, :, :] mean_forest_b
-    mean_forest_b = np.zeros((n_trees, max_leaves, max_leaves, N, 3))
+    cdef double[:, :, :, :, :, :] mean_forest_b
+    mean_forest_b = np.zeros((n_trees, n_trees, max_leaves, max_leaves, N, 3))
 
     cdef double[:] sdp
     cdef double[:] sdp_global
@@ -999,14 +999,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
     cdef long[:] lm, lm_u, lm_d, lm_s
     cdef unsigned int it, it_s, a_it, b_it, o_all, p, p_s, nb_leaf, p_u, p_d, p_su, p_sd, down, up
     cdef double ss, ss_a, ss_u, ss_d
-    cdef int b, leaf_numb, i, s, s_0, s_1, S_size, j, max_size, size, leaf_numb_l
+    cdef int b, l, leaf_numb, i, s, s_0, s_1, S_size, j, max_size, size, leaf_numb_l
 
     cdef long[:] S, len_s_star
     len_s_star = np.zeros((N), dtype=np.int)
-    cdef double[:, :, :, :] p_n, p_u_n, p_d_n
-    p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    cdef double[:, :, :, :, :] p_n, p_u_n, p_d_n
+    p_n = np.zeros((n_trees, n_trees, max_leaves, max_leaves, N))
+    p_u_n = np.zeros((n_trees, n_trees, max_leaves, max_leaves, N))
+    p_d_n = np.zeros((n_trees, n_trees, max_leaves, max_leaves, N))
     cdef double n, n_u, n_d
     cdef list power, va_id
 
@@ -1062,14 +1062,15 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                 R_buf[i] = R[i]
 
             for b in range(n_trees):
-                for leaf_numb in range(max_leaves):
-                    for leaf_numb_l in range(max_leaves):
-                        for i in range(N):
-                            p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            for j in range(3):
-                                mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], j] = 0
+                for l in range(n_trees):
+                    for leaf_numb in range(max_leaves):
+                        for leaf_numb_l in range(max_leaves):
+                            for i in range(N):
+                                p_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]] = 0
+                                p_u_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]] = 0
+                                p_d_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]] = 0
+                                for j in range(3):
+                                    mean_forest_b[b, l, leaf_numb, leaf_numb_l, R_buf[i], j] = 0
             for b in range(n_trees):
                 for l in range(n_trees):
                     if b == l:
@@ -1124,13 +1125,13 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                         p_d += lm[j]
                                         p_sd += lm_s[j]
 
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 0] += (p * value*value) / (p_s) - (2 * fX[R_buf[i]] * p * value)/(p_s) if p_s != 0 else 0
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1] += (p_u * value*value) / (p_su) - (2 * fX[R_buf[i]] * p_u * value)/(p_su) if p_su != 0 else 0
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2] += (p_d * value*value) / (p_sd) - (2 * fX[R_buf[i]] * p_d * value)/(p_sd) if p_sd != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, leaf_numb, R_buf[i], 0] += (p * value*value) / (p_s) - (2 * fX[R_buf[i]] * p * value)/(p_s) if p_s != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, leaf_numb, R_buf[i], 1] += (p_u * value*value) / (p_su) - (2 * fX[R_buf[i]] * p_u * value)/(p_su) if p_su != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, leaf_numb, R_buf[i], 2] += (p_d * value*value) / (p_sd) - (2 * fX[R_buf[i]] * p_d * value)/(p_sd) if p_sd != 0 else 0
 
-                                p_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                p_u_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                p_d_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                                p_n[b, b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                p_u_n[b, b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                p_d_n[b, b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
                     else:
                         leaves_tree = partition_leaves_trees[b]
                         nb_leaf = leaves_nb[b]
@@ -1189,13 +1190,13 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                             p_d += lm[j]
                                             p_sd += lm_s[j]
 
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, leaf_numb_l, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, leaf_numb_l, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, leaf_numb_l, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                                    p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                    p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                    p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                                    p_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                    p_u_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                    p_d_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
             for i in range(N):
                 ss_u = 0
                 ss_d = 0
@@ -1206,9 +1207,9 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                     n_d = 0
                     nb_leaf = leaves_nb[b]
                     for leaf_numb in range(nb_leaf):
-                        n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                        n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                        n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        n += p_n[b, b, leaf_numb, leaf_numb, R_buf[i]]
+                        n_u += p_u_n[b, b, leaf_numb, leaf_numb, R_buf[i]]
+                        n_d += p_d_n[b, b, leaf_numb, leaf_numb, R_buf[i]]
                     norm[b] = n
                     norm_u[b] = n_u
                     norm_d[b] = n_d
@@ -1217,9 +1218,9 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                         if b == l:
                             nb_leaf = leaves_nb[b]
                             for leaf_numb in range(nb_leaf):
-                                ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
-                                ss_u += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
-                                ss_d += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
+                                ss_a += mean_forest_b[b, b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
+                                ss_u += mean_forest_b[b, b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
+                                ss_d += mean_forest_b[b, b, leaf_numb, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
                         else:
                             nb_leaf = leaves_nb[b]
                             nb_leaf_l = leaves_nb[l]
@@ -1229,14 +1230,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 n_u = 0
                                 n_d = 0
                                 for leaf_numb_l in range(nb_leaf_l):
-                                    n += p_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_u += p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_d += p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n += p_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n_u += p_u_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n_d += p_d_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]]
 
                                 for leaf_numb_l in range(nb_leaf_l):
-                                    ss_a += (p_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  R_buf[i], 0]/n) if n*norm[b] !=0  else 0
-                                    ss_u += (p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                                    ss_d += (p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
+                                    ss_a += (p_n[b, b, leaf_numb, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[b, l, leaf_numb, leaf_numb_l,  R_buf[i], 0]/n) if n*norm[b] !=0  else 0
+                                    ss_u += (p_u_n[b, b, leaf_numb, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[b, l, leaf_numb, leaf_numb_l, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
+                                    ss_d += (p_d_n[b, b, leaf_numb, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[b, l, leaf_numb, leaf_numb_l, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
 
 
                 ss = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 11f416d..0f4282a 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -472,8 +472,8 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     cdef double value
     cdef double value_l
 
-    cdef double[:, :, :, :, :] mean_forest_b
-    mean_forest_b = np.zeros((n_trees, max_leaves, max_leaves, N, 3))
+    cdef double[:, :, :, :, :, :] mean_forest_b
+    mean_forest_b = np.zeros((n_trees, n_trees, max_leaves, max_leaves, N, 3))
 
     cdef double[:] sdp
     sdp = np.zeros((N))
@@ -488,10 +488,10 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     cdef double ss
     cdef int b, l, leaf_numb, i, s, j, leaf_numb_l
 
-    cdef double[:, :, :, :] p_n, p_u_n, p_d_n
-    p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    cdef double[:, :, :, :, :] p_n, p_u_n, p_d_n
+    p_n = np.zeros((n_trees, n_trees, max_leaves, max_leaves, N))
+    p_u_n = np.zeros((n_trees, n_trees, max_leaves, max_leaves, N))
+    p_d_n = np.zeros((n_trees, n_trees, max_leaves, max_leaves, N))
     cdef double n, n_u, n_d
 
     for b in range(n_trees):
@@ -548,13 +548,13 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 p_d += lm[j]
                                 p_sd += lm_s[j]
 
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 0] += (p * value*value) / (p_s) - (2 * fX[i] * p * value)/(p_s) if p_s != 0 else 0
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 1] += (p_u * value*value) / (p_su) - (2 * fX[i] * p_u * value)/(p_su) if p_su != 0 else 0
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 2] += (p_d * value*value) / (p_sd) - (2 * fX[i] * p_d * value)/(p_sd) if p_sd != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, leaf_numb, i, 0] += (p * value*value) / (p_s) - (2 * fX[i] * p * value)/(p_s) if p_s != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, leaf_numb, i, 1] += (p_u * value*value) / (p_su) - (2 * fX[i] * p_u * value)/(p_su) if p_su != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, leaf_numb, i, 2] += (p_d * value*value) / (p_sd) - (2 * fX[i] * p_d * value)/(p_sd) if p_sd != 0 else 0
 
-                        p_n[b, leaf_numb, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
-                        p_u_n[b, leaf_numb, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                        p_d_n[b, leaf_numb, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                        p_n[b, b, leaf_numb, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
+                        p_u_n[b, b, leaf_numb, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                        p_d_n[b, b, leaf_numb, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
             else:
                 leaves_tree = partition_leaves_trees[b]
                 nb_leaf = leaves_nb[b]
@@ -613,13 +613,13 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                     p_d += lm[j]
                                     p_sd += lm_s[j]
 
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, leaf_numb_l, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, leaf_numb_l, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, leaf_numb_l, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                            p_n[b, leaf_numb, leaf_numb_l, i] += (1.*p)/p_s if p_s != 0 else 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                            p_n[b, l, leaf_numb, leaf_numb_l, i] += (1.*p)/p_s if p_s != 0 else 0
+                            p_u_n[b, l, leaf_numb, leaf_numb_l, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                            p_d_n[b, l, leaf_numb, leaf_numb_l, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
     for i in range(N):
         ss_u = 0
         ss_d = 0
@@ -630,9 +630,9 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
             n_d = 0
             nb_leaf = leaves_nb[b]
             for leaf_numb in range(nb_leaf):
-                n += p_n[b, leaf_numb, leaf_numb, i]
-                n_u += p_u_n[b, leaf_numb, leaf_numb, i]
-                n_d += p_d_n[b, leaf_numb, leaf_numb, i]
+                n += p_n[b, b, leaf_numb, leaf_numb, i]
+                n_u += p_u_n[b, b, leaf_numb, leaf_numb, i]
+                n_d += p_d_n[b, b, leaf_numb, leaf_numb, i]
             norm[b] = n
             norm_u[b] = n_u
             norm_d[b] = n_d
@@ -641,9 +641,9 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                 if b == l:
                     nb_leaf = leaves_nb[b]
                     for leaf_numb in range(nb_leaf):
-                        ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
-                        ss_u += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
-                        ss_d += mean_forest_b[b, leaf_numb, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
+                        ss_a += mean_forest_b[b, b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
+                        ss_u += mean_forest_b[b, b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
+                        ss_d += mean_forest_b[b, b, leaf_numb, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
                 else:
                     nb_leaf = leaves_nb[b]
                     nb_leaf_l = leaves_nb[l]
@@ -653,14 +653,14 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                         n_u = 0
                         n_d = 0
                         for leaf_numb_l in range(nb_leaf_l):
-                            n += p_n[b, leaf_numb, leaf_numb_l, i]
-                            n_u += p_u_n[b, leaf_numb, leaf_numb_l, i]
-                            n_d += p_d_n[b, leaf_numb, leaf_numb_l, i]
+                            n += p_n[b, l, leaf_numb, leaf_numb_l, i]
+                            n_u += p_u_n[b, l, leaf_numb, leaf_numb_l, i]
+                            n_d += p_d_n[b, l, leaf_numb, leaf_numb_l, i]
 
                         for leaf_numb_l in range(nb_leaf_l):
-                            ss_a += (p_n[b, leaf_numb, leaf_numb, i]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  i, 0]/n) if n*norm[b] !=0  else 0
-                            ss_u += (p_u_n[b, leaf_numb, leaf_numb, i]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                            ss_d += (p_d_n[b, leaf_numb, leaf_numb, i]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
+                            ss_a += (p_n[b, b, leaf_numb, leaf_numb, i]/norm[b])*(mean_forest_b[b, l, leaf_numb, leaf_numb_l,  i, 0]/n) if n*norm[b] !=0  else 0
+                            ss_u += (p_u_n[b, b, leaf_numb, leaf_numb, i]/norm_u[b])*(mean_forest_b[b, l, leaf_numb, leaf_numb_l, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
+                            ss_d += (p_d_n[b, b, leaf_numb, leaf_numb, i]/norm_d[b])*(mean_forest_b[b, l, leaf_numb, leaf_numb_l, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
 
 
         sdp[i] = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -982,8 +982,8 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     cdef double[:, :] mean_forest
     mean_forest = np.zeros((N, 3))
 
-    cdef double[:, :, :, :, :] mean_forest_b
-    mean_forest_b = np.zeros((n_trees, max_leaves, max_leaves, N, 3))
+    cdef double[:, :, :, :, :, :] mean_forest_b
+    mean_forest_b = np.zeros((n_trees, n_trees, max_leaves, max_leaves, N, 3))
 
     cdef double[:] sdp
     cdef double[:] sdp_global
@@ -993,14 +993,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     cdef long[:] lm, lm_u, lm_d, lm_s
     cdef unsigned int it, it_s, a_it, b_it, o_all, p, p_s, nb_leaf, p_u, p_d, p_su, p_sd, down, up
     cdef double ss, ss_a, ss_u, ss_d
-    cdef int b, leaf_numb, i, s, s_0, s_1, S_size, j, max_size, size, leaf_numb_l
+    cdef int b, l, leaf_numb, i, s, s_0, s_1, S_size, j, max_size, size, leaf_numb_l
 
     cdef long[:] S, len_s_star
     len_s_star = np.zeros((N), dtype=np.int)
-    cdef double[:, :, :, :] p_n, p_u_n, p_d_n
-    p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    cdef double[:, :, :, :, :] p_n, p_u_n, p_d_n
+    p_n = np.zeros((n_trees, n_trees, max_leaves, max_leaves, N))
+    p_u_n = np.zeros((n_trees, n_trees, max_leaves, max_leaves, N))
+    p_d_n = np.zeros((n_trees, n_trees, max_leaves, max_leaves, N))
     cdef double n, n_u, n_d
     cdef list power, va_id
 
@@ -1056,14 +1056,15 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                 R_buf[i] = R[i]
 
             for b in range(n_trees):
-                for leaf_numb in range(max_leaves):
-                    for leaf_numb_l in range(max_leaves):
-                        for i in range(N):
-                            p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            for j in range(3):
-                                mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], j] = 0
+                for l in range(n_trees):
+                    for leaf_numb in range(max_leaves):
+                        for leaf_numb_l in range(max_leaves):
+                            for i in range(N):
+                                p_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]] = 0
+                                p_u_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]] = 0
+                                p_d_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]] = 0
+                                for j in range(3):
+                                    mean_forest_b[b, l, leaf_numb, leaf_numb_l, R_buf[i], j] = 0
             for b in range(n_trees):
                 for l in range(n_trees):
                     if b == l:
@@ -1118,13 +1119,13 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                         p_d += lm[j]
                                         p_sd += lm_s[j]
 
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 0] += (p * value*value) / (p_s) - (2 * fX[R_buf[i]] * p * value)/(p_s) if p_s != 0 else 0
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1] += (p_u * value*value) / (p_su) - (2 * fX[R_buf[i]] * p_u * value)/(p_su) if p_su != 0 else 0
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2] += (p_d * value*value) / (p_sd) - (2 * fX[R_buf[i]] * p_d * value)/(p_sd) if p_sd != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, leaf_numb, R_buf[i], 0] += (p * value*value) / (p_s) - (2 * fX[R_buf[i]] * p * value)/(p_s) if p_s != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, leaf_numb, R_buf[i], 1] += (p_u * value*value) / (p_su) - (2 * fX[R_buf[i]] * p_u * value)/(p_su) if p_su != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, leaf_numb, R_buf[i], 2] += (p_d * value*value) / (p_sd) - (2 * fX[R_buf[i]] * p_d * value)/(p_sd) if p_sd != 0 else 0
 
-                                p_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                p_u_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                p_d_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                                p_n[b, b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                p_u_n[b, b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                p_d_n[b, b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
                     else:
                         leaves_tree = partition_leaves_trees[b]
                         nb_leaf = leaves_nb[b]
@@ -1183,13 +1184,13 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                             p_d += lm[j]
                                             p_sd += lm_s[j]
 
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, leaf_numb_l, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, leaf_numb_l, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, leaf_numb_l, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                                    p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                    p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                    p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                                    p_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                    p_u_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                    p_d_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
             for i in range(N):
                 ss_u = 0
                 ss_d = 0
@@ -1200,9 +1201,9 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                     n_d = 0
                     nb_leaf = leaves_nb[b]
                     for leaf_numb in range(nb_leaf):
-                        n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                        n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                        n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        n += p_n[b, b, leaf_numb, leaf_numb, R_buf[i]]
+                        n_u += p_u_n[b, b, leaf_numb, leaf_numb, R_buf[i]]
+                        n_d += p_d_n[b, b, leaf_numb, leaf_numb, R_buf[i]]
                     norm[b] = n
                     norm_u[b] = n_u
                     norm_d[b] = n_d
@@ -1211,9 +1212,9 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                         if b == l:
                             nb_leaf = leaves_nb[b]
                             for leaf_numb in range(nb_leaf):
-                                ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
-                                ss_u += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
-                                ss_d += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
+                                ss_a += mean_forest_b[b, b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
+                                ss_u += mean_forest_b[b, b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
+                                ss_d += mean_forest_b[b, b, leaf_numb, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
                         else:
                             nb_leaf = leaves_nb[b]
                             nb_leaf_l = leaves_nb[l]
@@ -1223,14 +1224,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 n_u = 0
                                 n_d = 0
                                 for leaf_numb_l in range(nb_leaf_l):
-                                    n += p_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_u += p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_d += p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n += p_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n_u += p_u_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n_d += p_d_n[b, l, leaf_numb, leaf_numb_l, R_buf[i]]
 
                                 for leaf_numb_l in range(nb_leaf_l):
-                                    ss_a += (p_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  R_buf[i], 0]/n) if n*norm[b] !=0  else 0
-                                    ss_u += (p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                                    ss_d += (p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
+                                    ss_a += (p_n[b, b, leaf_numb, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[b, l, leaf_numb, leaf_numb_l,  R_buf[i], 0]/n) if n*norm[b] !=0  else 0
+                                    ss_u += (p_u_n[b, b, leaf_numb, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[b, l, leaf_numb, leaf_numb_l, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
+                                    ss_d += (p_d_n[b, b, leaf_numb, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[b, l, leaf_numb, leaf_numb_l, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
 
 
                 ss = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
-- 
2.43.0


From ceb33b8d6139e7a90ae02f4370926e357deb770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 26/32] fix: the regression coalition search tests leaf
 membership on all variables when variables are grouped

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 8 ++++----
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index bcf57d3..a52f957 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -1087,14 +1087,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             for i in prange(data.shape[0], nogil=True):
                                 a_it = 0
                                 b_it = 0
-                                for s in range(m):
+                                for s in range(data.shape[1]):
                                     if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
                                     if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
-                                if a_it == m:
+                                if a_it == data.shape[1]:
                                     lm[i] = 1
 
                                 if b_it == S_size:
@@ -1152,14 +1152,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 for i in prange(data.shape[0], nogil=True):
                                     a_it = 0
                                     b_it = 0
-                                    for s in range(m):
+                                    for s in range(data.shape[1]):
                                         if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
                                         if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
-                                    if a_it == m:
+                                    if a_it == data.shape[1]:
                                         lm[i] = 1
 
                                     if b_it == S_size:
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 0f4282a..c43cb97 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -1081,14 +1081,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             for i in range(data.shape[0]):
                                 a_it = 0
                                 b_it = 0
-                                for s in range(m):
+                                for s in range(data.shape[1]):
                                     if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
                                     if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
-                                if a_it == m:
+                                if a_it == data.shape[1]:
                                     lm[i] = 1
 
                                 if b_it == S_size:
@@ -1146,14 +1146,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 for i in range(data.shape[0]):
                                     a_it = 0
                                     b_it = 0
-                                    for s in range(m):
+                                    for s in range(data.shape[1]):
                                         if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
                                         if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
-                                    if a_it == m:
+                                    if a_it == data.shape[1]:
                                         lm[i] = 1
 
                                     if b_it == S_size:
-- 
2.43.0


From 673f91c7f9a8c593f698ec972aa235ee6947ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 27/32] fix: normalised Shapley values keep the weights of the
 leaves before one without background data

---
 acv_explainers/cyext_acv/cyext_acv.pyx       | 6 +++---
 acv_explainers/cyext_acv/cyext_acv_cache.pyx | 6 +++---
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index a52f957..2561e0a 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -1709,7 +1709,7 @@ cpdef shap_values_leaves_normalized(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi[va, leaf_numb, leaf_n, counter] = 1
 
-                                n_si = n_si + (csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_si = n_si + ((csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0)
 
                             p_si = (csi[va, leaf_numb, leaf_numb, counter] * lm)/(lm_si[va, leaf_numb, leaf_numb, counter] * n_si) if n_si*lm_si[va, leaf_numb, leaf_numb, counter] !=0 else 0
                         else:
@@ -1734,8 +1734,8 @@ cpdef shap_values_leaves_normalized(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi[va, leaf_numb, leaf_n, counter] = 1
 
-                                n_s = n_s + (cs[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_s[va, leaf_numb, leaf_n, counter] if lm_s[va, leaf_numb, leaf_n, counter] !=0 else 0
-                                n_si = n_si + (csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_s = n_s + ((cs[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_s[va, leaf_numb, leaf_n, counter] if lm_s[va, leaf_numb, leaf_n, counter] !=0 else 0)
+                                n_si = n_si + ((csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0)
 
                             p_s = (cs[va, leaf_numb, leaf_numb, counter] * lm)/(lm_s[va, leaf_numb, leaf_numb, counter] * n_s) if n_s*lm_s[va, leaf_numb, leaf_numb, counter] !=0 else 0
                             p_si = (csi[va, leaf_numb, leaf_numb, counter] * lm)/(lm_si[va, leaf_numb,  leaf_numb, counter] * n_si) if n_si*lm_si[va, leaf_numb, leaf_numb, counter] !=0 else 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_cache.pyx b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
index 30791b1..bc950de 100644
--- a/acv_explainers/cyext_acv/cyext_acv_cache.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
@@ -582,7 +582,7 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_si = n_si + ((csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
 
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
@@ -611,8 +611,8 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_s = n_s + (cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_s = n_s + ((cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
+                                n_si = n_si + ((csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
                                     cs = cs_n
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index c43cb97..edd543c 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -3010,7 +3010,7 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_si = n_si + ((csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
 
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
@@ -3039,8 +3039,8 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_s = n_s + (cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_s = n_s + ((cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
+                                n_si = n_si + ((csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
                                     cs = cs_n
-- 
2.43.0


From 92522eb6d72e1d849acc0656273eef96f7ba6d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 28/32] fix: cached leaf tables are only used for the grouping
 they were built for

---
 acv_explainers/acv_tree.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index b29d181..ba1f82b 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -28,7 +28,7 @@ class ACVTree(BaseTree):
             shapley_values (numpy.ndarray): The Shapley Values of each sample (# samples X # features X # model's output)
         """
         X = check_array(X, dtype=[np.double])
-        if not self.cache:
+        if not self.cache or C != self.C:
             return cyext_acv.shap_values_leaves_pa(X, self.data, self.values,
                                                    self.partition_leaves_trees,
                                                    self.leaf_idx_trees, self.leaves_nb, self.max_var,
@@ -379,6 +379,8 @@ class ACVTree(BaseTree):
                 Same as **shap_values**, but use cached values to speed up computation
 
         """
+        if C != self.C:
+            raise ValueError('The cached values are those of the C given to the constructor')
         X = check_array(X, dtype=[np.double])
         return cyext_acv_cache.shap_values_leaves_cache(np.array(X, dtype=np.float), self.data, self.values,
                                                         self.partition_leaves_trees,
@@ -391,6 +393,8 @@ class ACVTree(BaseTree):
         """
                 Same as **shap_values** but use cached values and no parallelism
         """
+        if C != self.C:
+            raise ValueError('The cached values are those of the C given to the constructor')
         X = check_array(X, dtype=[np.double])
         return cyext_acv_nopa.shap_values_leaves_cache_nopa(np.array(X, dtype=np.float), self.data, self.values,
                                                             self.partition_leaves_trees,
@@ -674,6 +678,8 @@ class ACVTree(BaseTree):
                                                      num_threads)
 
     def shap_values_normalized_cache(self, X, C=[[]], num_threads=10):
+        if C != self.C:
+            raise ValueError('The cached values are those of the C given to the constructor')
         return cyext_acv_cache.shap_values_leaves_normalized_cache(np.array(X, dtype=np.float), self.data, self.values,
                                                                    self.partition_leaves_trees,
                                                                    self.leaf_idx_trees, self.leaves_nb, self.lm_n,
@@ -682,6 +688,8 @@ class ACVTree(BaseTree):
                                                                    self.node_idx_trees, C, num_threads)
 
     def shap_values_normalized_cache_nopa(self, X, C=[[]], num_threads=10):
+        if C != self.C:
+            raise ValueError('The cached values are those of the C given to the constructor')
         return cyext_acv_nopa.shap_values_leaves_normalized_cache_nopa(np.array(X, dtype=np.float), self.data,
                                                                        self.values,
                                                                        self.partition_leaves_trees,
@@ -691,7 +699,7 @@ class ACVTree(BaseTree):
                                                                        self.node_idx_trees, C, num_threads)
 
     def shap_values_normalized(self, X, C=[[]], num_threads=10):
-        if not self.cache_normalized:
+        if not self.cache_normalized or C != self.C:
             return cyext_acv.shap_values_leaves_normalized(np.array(X, dtype=np.float), self.data, self.values,
                                                            self.partition_leaves_trees,
                                                            self.leaf_idx_trees, self.leaves_nb, self.max_var,
-- 
2.43.0


From b1ba08acb33037857185617775bdf9260376cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 29/32] fix: cache_normalized builds its tables without cache

---
 acv_explainers/base_tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 9980aea..5da55b2 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -641,11 +641,11 @@ class BaseTree:
                 else:
                     self.lm, self.lm_s, self.lm_si = self.leaves_cache_nopa(C=self.C)
 
-                if self.cache_normalized:
-                    if self.multi_threads:
-                        self.lm_n, self.lm_s_n, self.lm_si_n = self.leaves_cache_normalized(C=self.C)
-                    else:
-                        self.lm_n, self.lm_s_n, self.lm_si_n = self.leaves_cache_normalized_nopa(C=self.C)
+            if self.cache_normalized:
+                if self.multi_threads:
+                    self.lm_n, self.lm_s_n, self.lm_si_n = self.leaves_cache_normalized(C=self.C)
+                else:
+                    self.lm_n, self.lm_s_n, self.lm_si_n = self.leaves_cache_normalized_nopa(C=self.C)
 
             # make sure the base offset is a 1D array
             if not hasattr(self.base_offset, "__len__") or len(self.base_offset) == 0:
-- 
2.43.0


From 67a54d5ca7aa04f4bda83f01d5bbe514d598a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 30/32] fix: max_var is the largest number of path features
 over all trees, not over the last one

---
 acv_explainers/base_agnostree.py | 2 +-
 acv_explainers/base_tree.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/base_agnostree.py b/acv_explainers/base_agnostree.py
index 7707083..ec908d4 100644
--- a/acv_explainers/base_agnostree.py
+++ b/acv_explainers/base_agnostree.py
@@ -95,6 +95,7 @@ class BaseAgnosTree:
             # self.data_leaves_trees = []
             self.leaf_idx_trees = []
             self.leaves_nb = []
+            self.max_var = []
             self.scalings = []
             for i in tqdm(range(num_trees)):
                 self.scalings.append(self.trees[i].scaling)
@@ -122,7 +123,6 @@ class BaseAgnosTree:
 
                 self.partition_leaves = []
                 self.node_idx = []
-                self.max_var = []
                 # self.data_leaves = []
                 for leaf_id in self.leaf_idx:
                     node_id = [-1]
diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 5da55b2..95968c2 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -556,6 +556,7 @@ class BaseTree:
             self.data_leaves_trees = []
             self.leaf_idx_trees = []
             self.leaves_nb = []
+            self.max_var = []
             self.scalings = []
             for i in tqdm(range(num_trees)):
                 self.scalings.append(self.trees[i].scaling)
@@ -583,7 +584,6 @@ class BaseTree:
 
                 self.partition_leaves = []
                 self.node_idx = []
-                self.max_var = []
                 self.data_leaves = []
                 for leaf_id in self.leaf_idx:
                     node_id = [-1]
-- 
2.43.0


From e15ff47db00d624fb77dbe456ae2bfed477b0e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 31/32] fix: local_sdp leaves the list of variables it is given
 as it was

---
 acv_explainers/py_acv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/acv_explainers/py_acv.py b/acv_explainers/py_acv.py
index b5d122b..a4214b0 100644
--- a/acv_explainers/py_acv.py
+++ b/acv_explainers/py_acv.py
@@ -570,8 +570,7 @@ def local_sdp(x, threshold, proba, index, data, final_coal, decay, C, verbose, c
                 final_coal.append(chain_l(tuple(va_id)))
 
         if find == True:
-            for c_i in final_coal[-1]:
-                index.remove(c_i)
+            index = [i for i in index if i not in final_coal[-1]]
             if verbose > 0:
                 print('REMAINING VARIABLE = {}'.format(index))
 
-- 
2.43.0


From 3724b797c7a073b1b4a4657bb920dd4c3c1d85a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 32/32] fix: swings of a binary booster use its two-class leaf
 values

---
 acv_explainers/acv_tree.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index ba1f82b..23d8f92 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -596,7 +596,16 @@ class ACVTree(BaseTree):
     def swing_sv_clf(self, X, data, C=[[]], thresholds=0.9, num_threads=10):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv.swing_sv_clf_direct(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        if safe_isinstance(self.model, ["xgboost.sklearn.XGBClassifier", "catboost.core.CatBoostClassifier",
+                                        "lightgbm.sklearn.LGBMClassifier",
+                                        "sklearn.ensemble.GradientBoostingClassifier",
+                                        "sklearn.ensemble._gb.GradientBoostingClassifier",
+                                        "sklearn.ensemble.gradient_boosting.GradientBoostingClassifier"]) and \
+                self.num_outputs == 1:
+            values = self.values_binary
+        else:
+            values = self.values
+        return cyext_acv.swing_sv_clf_direct(np.array(X, dtype=np.float), fX, y_pred, data, values,
                                              self.partition_leaves_trees,
                                              self.leaf_idx_trees, self.leaves_nb, self.scalings, C, thresholds,
                                              num_threads)
@@ -604,7 +613,16 @@ class ACVTree(BaseTree):
     def swing_sv_clf_nopa(self, X, data, C=[[]], thresholds=0.9, num_threads=10):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.swing_sv_clf_direct_nopa(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        if safe_isinstance(self.model, ["xgboost.sklearn.XGBClassifier", "catboost.core.CatBoostClassifier",
+                                        "lightgbm.sklearn.LGBMClassifier",
+                                        "sklearn.ensemble.GradientBoostingClassifier",
+                                        "sklearn.ensemble._gb.GradientBoostingClassifier",
+                                        "sklearn.ensemble.gradient_boosting.GradientBoostingClassifier"]) and \
+                self.num_outputs == 1:
+            values = self.values_binary
+        else:
+            values = self.values
+        return cyext_acv_nopa.swing_sv_clf_direct_nopa(np.array(X, dtype=np.float), fX, y_pred, data, values,
                                                        self.partition_leaves_trees,
                                                        self.leaf_idx_trees, self.leaves_nb, self.scalings, C,
                                                        thresholds, num_threads)
@@ -618,7 +636,16 @@ class ACVTree(BaseTree):
     def swing_sv_clf_slow(self, X, data, C=[[]], thresholds=0.9, num_threads=5):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv.swing_sv_clf(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        if safe_isinstance(self.model, ["xgboost.sklearn.XGBClassifier", "catboost.core.CatBoostClassifier",
+                                        "lightgbm.sklearn.LGBMClassifier",
+                                        "sklearn.ensemble.GradientBoostingClassifier",
+                                        "sklearn.ensemble._gb.GradientBoostingClassifier",
+                                        "sklearn.ensemble.gradient_boosting.GradientBoostingClassifier"]) and \
+                self.num_outputs == 1:
+            values = self.values_binary
+        else:
+            values = self.values
+        return cyext_acv.swing_sv_clf(np.array(X, dtype=np.float), fX, y_pred, data, values,
                                       self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings,
                                       C, thresholds, num_threads)
 
-- 
2.43.0

