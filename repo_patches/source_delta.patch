From 1f7cf0ac599570eddc4ad39c05907c58c225f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:32 +0000
Subject: [PATCH 01/95] fix: level-set builders rejected graphs whose longest
 path visits all nodes

---
 src/hdagg/hdagg.cpp        | 2 +-
 utils/sparse_inspector.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index b46dfd8..8ddd307 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -40,7 +40,7 @@ namespace HDAGG
             }
             cur_level++; //all nodes_ with zero indegree are processed.
             //assert(cur_level < n);
-            if (cur_level >= n)
+            if (cur_level > n)
                 return -1; // The input graph has a cycle
                 levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
                 while (inDegree[begin] == 1) // Why? Behrooz
diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 90dc525..caf3ef6 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -34,7 +34,7 @@ namespace sym_lib {
    }
    cur_level++;//all nodes_ with zero indegree are processed.
    //assert(cur_level < n);
-   if (cur_level >= n)
+   if (cur_level > n)
     return -1; // The input graph has a cycle
    levelPtr[cur_level] = cur_levelCol;
    while (inDegree[begin] == 1) {
@@ -981,7 +981,7 @@ namespace sym_lib {
      }
      cur_level++; //all nodes_ with zero indegree are processed.
      //assert(cur_level < n);
-     if (cur_level >= n)
+     if (cur_level > n)
        return -1; // The input graph has a cycle
      levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
      while (inDegree[begin] == 1) // Why? Behrooz
-- 
2.43.0


From 09dc05e88a7eed2a54caa439767f55de314db192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:32 +0000
Subject: [PATCH 02/95] fix: one-node tree level set wrote past its counter
 array

---
 utils/sparse_inspector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index caf3ef6..f046147 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -460,7 +460,7 @@ namespace sym_lib {
                                     const int *nChild1,
                                     int *levelPtr, int *levelSet, int *node2level) {
   int maxLen = 0, level = 0, num_levels=0;
-  auto *level_cnt = new int[n]();
+  auto *level_cnt = new int[n + 1]();
   for (int i = 0; i < n; ++i) {
    if (nChild1[i] == 0) {
     levelSet[levelPtr[1]] = i;
-- 
2.43.0


From 78d3c11629502c913e582536c1d8e65ea2cdea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:19 +0000
Subject: [PATCH 03/95] fix: part pointer of coarsened level sets needs one
 entry more than the parts

---
 src/lbc_blocked.cpp | 2 +-
 src/lbc_csc.cpp     | 2 +-
 src/lbc_csc_dag.cpp | 4 ++--
 src/lbc_tree.cpp    | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 8b009f4..a325f2c 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -44,7 +44,7 @@ namespace sym_lib {
   int clusterCnt = 0;
   int originalHeight = 0;
   finaLevelPtr = new int[n + 1];
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
   int *inDegree = new int[n];
   finaLevelPtr[0] = 0;
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 0213797..9d5a4fd 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -37,7 +37,7 @@ namespace sym_lib {
   std::vector<std::vector<int>> newLeveledParList, mergedLeveledParList;
   int originalHeight = 0;
   finaLevelPtr = new int[n + 1];
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
 
   finaLevelPtr[0] = 0;
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 8361691..6ced3aa 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -334,7 +334,7 @@ int get_coarse_Level_set_DAG_CSC03_parallel(
  int clusterCnt = 0;
  int originalHeight = 0;
  finaLevelPtr = new int[n + 1];
- finalPartPtr = new int[n]();
+ finalPartPtr = new int[n + 1]();
  finalNodePtr = new int[n];
  finaLevelPtr[0] = 0;
 
@@ -419,7 +419,7 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
  int clusterCnt = 0;
  int originalHeight = 0;
  finaLevelPtr = new int[n + 1];
- finalPartPtr = new int[n]();
+ finalPartPtr = new int[n + 1]();
  finalNodePtr = new int[n];
  int *inDegree = new int[n];
  finaLevelPtr[0] = 0;
diff --git a/src/lbc_tree.cpp b/src/lbc_tree.cpp
index fc8552a..41ade6b 100644
--- a/src/lbc_tree.cpp
+++ b/src/lbc_tree.cpp
@@ -18,7 +18,7 @@ namespace sym_lib {
                               int minLevelDist,
                               int divRate,
                               double *nodeCost) {
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
 //  auto *nodeColWidth = new int[n]();
   partNo = 0;
-- 
2.43.0


From 1700378350adf5253c4fbdc6d41459ecb814ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:52 +0000
Subject: [PATCH 04/95] fix: last coarsened level of a DAG must end at the
 number of levels

---
 src/lbc_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 4b97bb0..a688e22 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -253,7 +253,7 @@ namespace sym_lib{
    partition2Level[++lClusterCnt] = tmp;
    tmp += divRate;
   }
-  partition2Level[++lClusterCnt] = originalHeight + 1;
+  partition2Level[++lClusterCnt] = originalHeight;
   innerPartsSize.push_back(1);//The last partition has one element TODO is this true??
   delete[]accuSlackGroups;
   return lClusterCnt;
-- 
2.43.0


From f1edd97834254e1aa16c1ba1aa76aebe9b658432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:09 +0000
Subject: [PATCH 05/95] fix: last coarsened level of a tree must end at the
 number of levels

---
 src/lbc_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index a688e22..30d71a8 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -312,7 +312,7 @@ namespace sym_lib{
     }
    }
    if (f_spart){
-       partition2Level[++lClusterCnt] = originalHeight + 1;
+       partition2Level[++lClusterCnt] = originalHeight;
        innerPartsSize.push_back(1);//The last partition has one element
    }
   } else {
@@ -336,7 +336,7 @@ namespace sym_lib{
     preLevelCut = levelCut;
     levelCut = 0; // starting from the root
    }
-   partition2Level[++lClusterCnt] = originalHeight + 1;
+   partition2Level[++lClusterCnt] = originalHeight;
    innerPartsSize.push_back(1);//The last partition has one element
   }
   delete[]accuSlackGroups;
-- 
2.43.0


From b39ee979accbacd7c7dc79a549258e5b83e9cd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:54 +0000
Subject: [PATCH 06/95] fix: blocked level set read past its in-degree array

---
 utils/sparse_inspector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index f046147..1e7213b 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -160,7 +160,7 @@ namespace sym_lib {
    assert((size_t) cur_levelCol >= 0);
    assert((size_t) cur_level <= blockNo);
    levelPtr[cur_level] = cur_levelCol;
-   while (inDegree[begin] == 1)
+   while (begin <= end && inDegree[begin] == 1)
     begin++;
    while (inDegree[end] == 1 && begin <= end)
     end--;
-- 
2.43.0


From a2b9f9b1b8fcb425441b2d9da146d5bbaddc9927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:11 +0000
Subject: [PATCH 07/95] fix: blocked coarsening kept too few component slots
 after merging components

---
 src/lbc_blocked.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index a325f2c..e13e8fb 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -124,16 +124,17 @@ namespace sym_lib {
 
      isCC = needAliased.size() == 0;
      if (!isCC) {//There are some intersection between found CCs.
-      for (int j = 1; j < needAliased.size(); ++j) {//the first is min
+      for (int j = 0; j < needAliased.size(); ++j) {
        int tn = node2partition[needAliased[j]];
-       for (int i = 0; i < n; ++i) {
-        //Replace all needAliased node with their min part number.
-        if (node2partition[i] == tn) {
-         node2partition[i] = minAliasedPar;
+       if (tn != minAliasedPar) {
+        for (int i = 0; i < n; ++i) {
+         //Replace all needAliased node with their min part number.
+         if (node2partition[i] == tn) {
+          node2partition[i] = minAliasedPar;
+         }
         }
        }
       }
-      cc -= (needAliased.size() - 1);//TODO not sure
       needAliased.erase(needAliased.begin(), needAliased.end());
       //Set the nodes in the current cluster
       for (int i = stackStart; i < n; ++i) {
-- 
2.43.0


From 2a8da8cd79cd28510af4a2703b9bd3b6a56d6605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:24 +0000
Subject: [PATCH 08/95] fix: post order read the top of an empty stack

---
 src/hdagg/hdagg.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 8ddd307..d1b1570 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -114,7 +114,9 @@ namespace HDAGG
                     post_order[n - 1 - order_cnt] = stack.back();
                     order_cnt++;
                     stack.pop_back();
-                    head = stack.back();
+                    if(!stack.empty()){
+                        head = stack.back();
+                    }
                 }
             }
         }
@@ -257,7 +259,9 @@ namespace HDAGG
                     post_order[n - 1 - order_cnt] = stack.back();
                     order_cnt++;
                     stack.pop_back();
-                    head = stack.back();
+                    if(!stack.empty()){
+                        head = stack.back();
+                    }
                 }
             }
         }
-- 
2.43.0


From 32b07c320e45eea50ffc98a4310e7e4ba3cdfb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:35 +0000
Subject: [PATCH 09/95] fix: hybrid aggregation lost nodes when no cost was
 left or with one core

---
 src/hdagg/hdagg.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index d1b1570..a55e79a 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -716,7 +716,7 @@ namespace HDAGG
                     thread_id = part_cnt;
                 } else {
                     for(int part = 0; part < part_cnt; ){
-                        if(cost[thread_id - 1] < cost_per_core){
+                        if(thread_id == cores || cost[thread_id - 1] < cost_per_core){
                             cost[thread_id - 1] += partition_cost[part++];
                             chunk_array[thread_id] = part;
                             assert(cores != thread_id - 1);//I had a small optimization for last core
@@ -727,10 +727,9 @@ namespace HDAGG
                             cost_per_core = (total_cost - cost_to_this_core) / (cores - thread_id);
                             //Let's do the next thread
                             thread_id++;
-                            if(cost_per_core == 0){
-                                if(part != part_cnt - 1){
-                                    std::cerr << "Not all the parts are assigned" << std::endl;
-                                }
+                            if(cost_per_core <= 0){
+                                //No cost is left, so this thread takes the remaining parts
+                                chunk_array[thread_id] = part_cnt;
                                 break;
                             }
 
@@ -934,7 +933,7 @@ namespace HDAGG
                     thread_id = part_cnt;
                 } else {
                     for(int part = 0; part < part_cnt; ){
-                        if(cost[thread_id - 1] < cost_per_core){
+                        if(thread_id == cores || cost[thread_id - 1] < cost_per_core){
                             cost[thread_id - 1] += partition_cost[part++];
                             chunk_array[thread_id] = part;
                             assert(cores != thread_id - 1);//I had a small optimization for last core
@@ -945,10 +944,9 @@ namespace HDAGG
                             cost_per_core = (total_cost - cost_to_this_core) / (cores - thread_id);
                             //Let's do the next thread
                             thread_id++;
-                            if(cost_per_core == 0){
-                                if(part != part_cnt - 1){
-                                    std::cerr << "Not all the parts are assigned" << std::endl;
-                                }
+                            if(cost_per_core <= 0){
+                                //No cost is left, so this thread takes the remaining parts
+                                chunk_array[thread_id] = part_cnt;
                                 break;
                             }
 
-- 
2.43.0


From 4c9d3925f2309aa489a349a4c2e7ddfd58fb4098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 10/95] fix: row grouping looked up rows without a dependent
 row

---
 src/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group.cpp b/src/group.cpp
index c21f26d..3b148e7 100644
--- a/src/group.cpp
+++ b/src/group.cpp
@@ -221,7 +221,7 @@ namespace sym_lib
        visited[curIdx] = true;
        int chIdx = child[curIdx];
 
-       while ((chIdx-curIdx==1 || rCnt[chIdx]) && !visited[chIdx] )
+       while (chIdx!=-1 && (chIdx-curIdx==1 || rCnt[chIdx]) && !visited[chIdx] )
        {
         visited[chIdx]=true;
         pre[chIdx] = curIdx;
-- 
2.43.0


From 4dc7599b66ddc2b58bc5cacc953d13fa93f493db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:37 +0000
Subject: [PATCH 11/95] fix: column grouping looked past the last column

---
 src/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group.cpp b/src/group.cpp
index 3b148e7..40f3cbd 100644
--- a/src/group.cpp
+++ b/src/group.cpp
@@ -88,7 +88,7 @@ namespace sym_lib
 
         int tcurIdx = curIdx+1;
         int len=0;
-        while (child[tcurIdx]==-1 && !visited[tcurIdx] && len<ncol/12)
+        while (tcurIdx<ncol && child[tcurIdx]==-1 && !visited[tcurIdx] && len<ncol/12)
         {
          visited[tcurIdx] = true;
          next[tcurIdx-1]=tcurIdx;
-- 
2.43.0


From c08d6e10dda60b246db52d70bc7002ec8b6145cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:45 +0000
Subject: [PATCH 12/95] fix: clique sparsification without OpenMP skipped every
 column

---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index a55e79a..3f54a5b 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2040,7 +2040,7 @@ namespace HDAGG
           int tid = omp_get_thread_num();
 #else
           int bins =1;
-       int tid=1;
+       int tid=0;
 #endif
                 int start_col = (n / bins) * tid;
                 int end_col = (n / bins) * (tid + 1);
-- 
2.43.0


From b6ce429fa60af48d672ba65190c57579a36dd329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:45 +0000
Subject: [PATCH 13/95] fix: partial sparsification appended to the result of
 an earlier call

---
 src/hdagg/hdagg.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 3f54a5b..127270a 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2197,7 +2197,8 @@ namespace HDAGG
                 }
             }
 
-            DAG_ptr.resize(n + 1, 0);
+            DAG_ptr.assign(n + 1, 0);
+            DAG_set.clear();
             DAG_set.reserve(edge_cnt);
             int edge_counter = 0;
             for(int i = 0; i < n; i++) {
@@ -2242,7 +2243,8 @@ namespace HDAGG
 //                }
 //            }
 
-            DAG_ptr.resize(n + 1, 0);
+            DAG_ptr.assign(n + 1, 0);
+            DAG_set.clear();
             DAG_set.reserve(nnz);
             int edge_counter = 0;
             for(int i = 0; i < n; i++) {
-- 
2.43.0


From 8c35bd7759b74561f922ea1f7994c6598e9f32c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:42 +0000
Subject: [PATCH 14/95] fix: two dimensional reordering appended to the pointer
 of an earlier call

---
 src/hdagg/hdagg.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 127270a..a468e6e 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2417,6 +2417,7 @@ namespace HDAGG
 
         //Unpack the loops iterations and define consecutive groups
         final_iter_ptr.clear();
+        final_tuple_ptr.clear();
         final_iter_ptr.reserve(nnz);
         int cnt = 0;
         std::vector<int> cnc_group_ptr;
-- 
2.43.0


From e8bcd50573667d0a2d155817f9b7a37bb2140e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:58 +0000
Subject: [PATCH 15/95] fix: post order of a graph whose diagonal entry is not
 first in its column

---
 src/hdagg/hdagg.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index a468e6e..958e88c 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -221,8 +221,10 @@ namespace HDAGG
         std::vector<int> in_degree(n, 0);
 
         for(int i = 0; i < n; i++){
-            for(int child_ptr = DAG_ptr[i] + 1; child_ptr < DAG_ptr[i + 1]; child_ptr++){
-                in_degree[DAG_set[child_ptr]]++;
+            for(int child_ptr = DAG_ptr[i]; child_ptr < DAG_ptr[i + 1]; child_ptr++){
+                if(DAG_set[child_ptr] != i){//The diagonal is not always the first entry in a group DAG
+                    in_degree[DAG_set[child_ptr]]++;
+                }
             }
         }
 
@@ -245,7 +247,7 @@ namespace HDAGG
             stack.push_back(leaf);
             while(!stack.empty()){
                 bool all_parent_visited = true;
-                for(int child_ptr = DAG_ptr[head + 1] - 1; child_ptr > DAG_ptr[head] ; child_ptr--){
+                for(int child_ptr = DAG_ptr[head + 1] - 1; child_ptr >= DAG_ptr[head] ; child_ptr--){
                     int child = DAG_set[child_ptr];
                     if(!visited[child]){
                         visited[child] = true;
-- 
2.43.0


From 80662b0576df4457bc426c38ebb5c604bbc21cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:03 +0000
Subject: [PATCH 16/95] fix: diagonal verification read past an empty column

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 002a33d..276e957 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -94,7 +94,7 @@ namespace sym_lib {
     bool verify_csc_diagonal(CSC* A)
     {
      for (int i = 0; i < A->n; ++i) {
-      if(A->i[A->p[i]] != i){
+      if(A->p[i] == A->p[i+1] || A->i[A->p[i]] != i){
        return false;
       }
      }
-- 
2.43.0


From a92c117c9864a2823b6d19dc14e9fb924e511cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:03 +0000
Subject: [PATCH 17/95] fix: row to column conversion of rectangular and
 pattern matrices

---
 utils/sparse_utilities.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 276e957..c9b0b8e 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -38,7 +38,7 @@ namespace sym_lib {
      rowptr[nrow] = nnz;
 
      colind = new int[nnz]();
-     values = new double[nnz]();
+     values = Ax ? new double[nnz]() : NULLPNTR;
 
      memset(rowCnt, 0, sizeof(int) * nrow);
      for (int i = 0; i < ncol; i++) {
@@ -46,7 +46,8 @@ namespace sym_lib {
        int row = Ai[j];
        int index = rowptr[row] + rowCnt[row];
        colind[index] = i;
-       values[index] = Ax[j];
+       if(Ax)
+        values[index] = Ax[j];
        rowCnt[row]++;
       }
      }
@@ -108,8 +109,8 @@ namespace sym_lib {
     CSC* csr_to_csc(CSR *A) {
      CSC *B = new CSC(A->m,A->n,A->nnz,NULLPNTR,NULLPNTR,A->stype);
      B->pre_alloc = false;
-     B->is_pattern = false;
-     int st = csc_to_csr(A->m, A->n, A->p, A->i, A->x, B->p, B->i, B->x);
+     B->is_pattern = A->is_pattern;
+     int st = csc_to_csr(A->n, A->m, A->p, A->i, A->x, B->p, B->i, B->x);
      B->nnz = B->p[B->n];
      return B;
     }
-- 
2.43.0


From 031a5308bb16987648506dbcc088d557cdf6945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:03 +0000
Subject: [PATCH 18/95] fix: copying a pattern matrix read its missing values

---
 utils/sparse_utilities.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index c9b0b8e..006d025 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -505,13 +505,14 @@ namespace sym_lib {
 
 
     CSC *copy_sparse(CSC *A){
-     CSC *clone = new CSC(A->m,A->n,A->nnz);
+     CSC *clone = new CSC(A->m,A->n,A->nnz,A->is_pattern);
      for (int i = 0; i < A->n+1; ++i) {
       clone->p[i] = A->p[i];
      }
      for (int j = 0; j < A->nnz; ++j) {
       clone->i[j] = A->i[j];
-      clone->x[j] = A->x[j];
+      if(!A->is_pattern)
+       clone->x[j] = A->x[j];
      }
      clone->stype = A->stype;
      return clone;
-- 
2.43.0


From 9801edcb56a18215687d0744d02c87e628d7f79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:03 +0000
Subject: [PATCH 19/95] fix: copying between matrices left the pointer array
 out

---
 utils/sparse_utilities.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 006d025..decee41 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -520,22 +520,26 @@ namespace sym_lib {
 
     void copy_from_to(CSR *src, CSR *dst){
      for (int i = 0; i < src->m; ++i) {
-      dst->p[i] = dst->p[i];
+      dst->p[i] = src->p[i];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
-       dst->x[j] = src->x[j];
+       if(!src->is_pattern)
+        dst->x[j] = src->x[j];
       }
      }
+     dst->p[src->m] = src->p[src->m];
     }
 
     void copy_from_to(CSC *src, CSC *dst){
      for (int i = 0; i < src->n; ++i) {
-      dst->p[i] = dst->p[i];
+      dst->p[i] = src->p[i];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
-       dst->x[j] = src->x[j];
+       if(!src->is_pattern)
+        dst->x[j] = src->x[j];
       }
      }
+     dst->p[src->n] = src->p[src->n];
     }
 
     void copy_vector_dense(size_t beg, size_t end, const double *src, double *dst) {
-- 
2.43.0


From 19a073b0dce5526306dcc1ad5c0aeae04c47f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:03 +0000
Subject: [PATCH 20/95] fix: one based conversion dropped the values

---
 utils/sparse_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 1a2dcf9..89a2c20 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -119,7 +119,7 @@ namespace sym_lib {
   else
    for (int j = 0; j < A->nnz; ++j) {
     A_one->i[j] = A->i[j]+1;
-    A_one->x[j] = A_one->x[j];
+    A_one->x[j] = A->x[j];
    }
 
   for (int k = 0; k < A->n + 1; ++k) {
-- 
2.43.0


From 22518aa606363d1b0f58b06d77a7d17787a25a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:03 +0000
Subject: [PATCH 21/95] fix: tridiagonal generator flagged both halves as one
 half pattern and overflowed for one row

---
 utils/sparse_utilities.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index decee41..6cc8e2a 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -117,11 +117,15 @@ namespace sym_lib {
 
     CSC *tridiag(int n, double a0, double a1, double a2) {
      CSC *A = new CSC(n, n, 3 * n - 2);
-     A->is_pattern = true;
-     A->stype = -1;
 
      int ind = 0;
      A->p[0] = 0;
+     if(n == 1) {
+      A->i[0] = 0;
+      A->x[0] = a1;
+      A->p[1] = 1;
+      return A;
+     }
      for(int i = 0; i < n; i++) {
       if(i == 0 || i == n-1) {
        A->p[i+1] = A->p[i] + 2;
-- 
2.43.0


From 8d4b9fd18dd95c68869ccc2cf3f75a1eddda7a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:03 +0000
Subject: [PATCH 22/95] fix: nonzero count of the matrix of a forest

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 6cc8e2a..38a1930 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -160,7 +160,7 @@ namespace sym_lib {
     CSC* tree_to_csc(int n, int *tree){
      int *Ai = new int[n](), *Ap = new int[n+1](), *cnt = new int[n]();
      populate_children(n, tree, Ap, Ai, cnt);
-     CSC *T = new CSC(n,n,n-1,Ap,Ai,0);
+     CSC *T = new CSC(n,n,Ap[n],Ap,Ai,0);
      delete []cnt;
      return T;
     }
-- 
2.43.0


From 46aca1ba1fa6787f21a12f5d1b0249511144c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:16 +0000
Subject: [PATCH 23/95] fix: permuting a pattern matrix read its missing values

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 38a1930..4ae62f4 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -1169,7 +1169,7 @@ int post_order_spliting(int inSize, int *inTree, double *inCost,
   int nz = 0, n, *Ap, *Ai, *Cp, *Ci ;
   double *Cx, *Ax ;
   int m = A->m; n = A->n ; Ap = A->p ; Ai = A->i ; Ax = A->x ;
-  CSC *C = new CSC(m, n, A->nnz);
+  CSC *C = new CSC(m, n, A->nnz, A->is_pattern);
   Cp = C->p ; Ci = C->i ; Cx = C->x ;
   for (int k = 0 ; k < n ; k++)
   {
-- 
2.43.0


From e7319c4622070a3f1ffdcef31ed4e887d8ec9e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:49 +0000
Subject: [PATCH 24/95] fix: upper half was flagged as lower half

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 4ae62f4..2ec5089 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -227,7 +227,7 @@ namespace sym_lib {
       }
       Bp[i+1] = nnz_cnt;
      }
-     B->stype = -1;
+     B->stype = lower ? -1 : 1;
      return B;
     }
 
-- 
2.43.0


From f60de847aec7a33a395371de7bb8452c3dcc6152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:49 +0000
Subject: [PATCH 25/95] fix: expanding a pattern matrix read its missing values

---
 utils/sparse_utilities.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 2ec5089..154e55e 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -237,7 +237,7 @@ namespace sym_lib {
       return nullptr;
      }
 
-     CSC *Afull = new CSC(A->m, A->n, A->nnz * 2 );
+     CSC *Afull = new CSC(A->m, A->n, A->nnz * 2, A->is_pattern);
      auto ind = new int[A->n]();
 
      for(size_t i = 0; i < A->n; i++) {
@@ -259,12 +259,14 @@ namespace sym_lib {
        int row = A->i[p];
        int index = Afull->p[i] + ind[i];
        Afull->i[index] = row;
-       Afull->x[index] = A->x[p];
+       if(!A->is_pattern)
+        Afull->x[index] = A->x[p];
        ind[i]++;
        if(row != i) {
         index = Afull->p[row] + ind[row];
         Afull->i[index] = i;
-        Afull->x[index] = A->x[p];
+        if(!A->is_pattern)
+         Afull->x[index] = A->x[p];
         ind[row]++;
        }
       }
-- 
2.43.0


From d0f40af7a0483d9dc1b3a5de8dfc40f4b08defbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:49 +0000
Subject: [PATCH 26/95] fix: symmetric transpose of a pattern returned a matrix
 of zeros

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 154e55e..c5e4a74 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -297,7 +297,7 @@ namespace sym_lib {
      n = A->m;
      permute = (Perm != NULLPNTR);
      upper = (A->stype > 0);
-     F = new CSC(A->n,A->m,A->nnz);
+     F = new CSC(A->n,A->m,A->nnz,A->is_pattern);
      Fp = F->p;        /* size A->nrow+1, row pointers of F */
      Fi = F->i;
      Fx = F->x;
-- 
2.43.0


From 2b9e8c643d96d7d9ed39502973aa157beefac80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:49 +0000
Subject: [PATCH 27/95] fix: symmetric transpose accepted the index n in a
 permutation

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index c5e4a74..d8af77f 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -313,7 +313,7 @@ namespace sym_lib {
       }
       for (k = 0; k < n; k++) {
        i = Perm[k];
-       if (i < 0 || i > n || Pinv[i] != EMPTY) {
+       if (i < 0 || i >= n || Pinv[i] != EMPTY) {
         return NULLPNTR;
        }
        Pinv[i] = k;
-- 
2.43.0


From d17901c365cf0c5b2ee3778330aa22876bd52f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:49 +0000
Subject: [PATCH 28/95] fix: nonzero count and pattern flag of a sum

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index d8af77f..0011e4d 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -1110,7 +1110,6 @@ int post_order_spliting(int inSize, int *inTree, double *inCost,
      x = !values ? new double[m]() : NULLPNTR;
      CSC *C = new CSC(m,n,anz+bnz,values);
      C->stype = A->stype;
-     C->is_pattern = A->is_pattern;
      Cp = C->p ; Ci = C->i ; Cx = C->x ;
      for (j = 0 ; j < n ; j++){
       Cp [j] = nz ;                   /* column j of C starts here */
@@ -1120,6 +1119,7 @@ int post_order_spliting(int inSize, int *inTree, double *inCost,
       if (!values) for (p = Cp [j] ; p < nz ; p++) Cx [p] = x [Ci [p]] ;
      }
      Cp [n] = nz ;
+     C->nnz = nz;
      delete []x;
      delete []w;
      return C;
-- 
2.43.0


From d9213a42e8b575e98c61a02b826d649e06a73024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:27 +0000
Subject: [PATCH 29/95] fix: row pattern of the factor read an unset stack
 entry

---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 958e88c..59bddd4 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -1342,7 +1342,7 @@ namespace HDAGG
             }
             while(len > 0) s[--top] = s[--len];
         }
-        for(int p = top; p < n; p++){
+        for(int p = top; p < n - 1; p++){
             w[s[p]] = false;
         }
         w[k] = false;
-- 
2.43.0


From caf480fb34505d51f94742f3b07b0037db2f0629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:49 +0000
Subject: [PATCH 30/95] fix: matrix header reader looped at the end of input
 and accepted invalid sizes

---
 utils/sparse_io.cpp | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 89a2c20..1457233 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -275,6 +275,14 @@ namespace sym_lib {
   std::cout.rdbuf(sb_cout_backup);
  }
 
+ /// Reads one number that is followed by a blank or the end of input
+ template<class T> static bool read_number(std::istream &in, T &val){
+  if (!(in >> val))
+   return false;
+  int next = in.peek();
+  return next == EOF || std::isspace(next);
+ }
+
  void read_header(std::ifstream &inFile, int &n_row, int &n_col,
                   size_t &n_nnz, int &type, int &shape, int &mtx_format){
   std::string line,banner, mtx, crd, arith, sym;
@@ -317,22 +325,21 @@ namespace sym_lib {
   else{
    throw mtx_header_error("Unknown", "Unknown shape, unable to handle");
   }
-  while (!line.compare(0,1,"%"))
-  {
-   std::getline(inFile, line);
+  do { // skip comments and blank lines
+   if (!std::getline(inFile, line))
+    throw mtx_header_error("Unknown", "The matrix dimension is missing");
    trim(line);
-  }
+  } while (line.empty() || line[0] == '%');
   std::istringstream issDim(line);
-  if(mtx_format != ARRAY){
-   if (!(issDim >> n_row >> n_col >> n_nnz)){
-    throw mtx_header_error("Unknown", "The matrix dimension is missing");
-   }
-  } else{
-   if (!(issDim >> n_row >> n_col)){
-    throw mtx_header_error("Unknown", "The matrix dimension is missing");
-   }
-   n_nnz = n_row*n_col;
+  int nnz = 0;
+  if (!(read_number(issDim, n_row) && read_number(issDim, n_col)) ||
+      (mtx_format != ARRAY && !read_number(issDim, nnz)) || (issDim >> line)){
+   throw mtx_header_error("Unknown", "The matrix dimension is missing");
+  }
+  if (n_row < 1 || n_col < 1 || nnz < 0 || (shape == LOWER && n_row != n_col)){
+   throw mtx_header_error("Unknown", "The matrix dimension is invalid");
   }
+  n_nnz = mtx_format != ARRAY ? nnz : (size_t)n_row * n_col;
  }
 
 
-- 
2.43.0


From 318ecaa13f65450829ec213dd2a7afa72377a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:49 +0000
Subject: [PATCH 31/95] fix: matrix reader accepted truncated files, malformed
 entries and indices out of range

---
 utils/sparse_io.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 1457233..4a0e2f2 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -368,12 +368,10 @@ namespace sym_lib {
                          bool zero_indexing=false){
   for (int i = 0; i < nnz; ++i) {
    triplet tmp;
-   inFile >> tmp.row;
-   inFile >> tmp.col;
-    if(read_val)
-      inFile >> tmp.val;
-    else
-      tmp.val = 1.0;
+   tmp.val = 1.0;
+   if(!read_number(inFile, tmp.row) || !read_number(inFile, tmp.col) ||
+      (read_val && !read_number(inFile, tmp.val)))
+    throw mtx_error("Unknown", "A matrix entry is missing or malformed");
    if(!zero_indexing){
     tmp.col--; tmp.row--;
    }
@@ -422,8 +420,15 @@ namespace sym_lib {
   bool read_val = true;
   if(arith == PATTERN)
     read_val = false;
-  A = new CSC(m,n,nnz,false, shape2int(shape));
   read_triplets_real(in_file, nnz, triplet_vec, read_val);
+  for (const triplet &t : triplet_vec) {
+   if(t.row < 0 || t.row >= m || t.col < 0 || t.col >= n)
+    throw mtx_error("Unknown", "A matrix entry is out of range");
+  }
+  std::string rest;
+  if(in_file >> rest)
+   throw mtx_error("Unknown", "More entries than the header declares");
+  A = new CSC(m,n,nnz,false, shape2int(shape));
   compress_triplets_to_csc(triplet_vec, A, insert_diag);
   A->nnz = A->p[n]; // if insert diag is true, it will be different.
   //print_csc(A->n, A->p, A->i, A->x);
-- 
2.43.0


From 1643adfdb68c77da3c5fbe2a1f8240edb5e11016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:49 +0000
Subject: [PATCH 32/95] fix: inserting missing diagonals dropped the last
 entries of the matrix

---
 utils/sparse_io.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 4a0e2f2..435448f 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -391,7 +391,7 @@ namespace sym_lib {
   }
   A->p[0] = 0;
   for (auto j = 0; j < A->n; ++j) {
-   if(count[j] == 0 && add_diags){ // insert zero diag for empty cols
+   if(count[j] == 0 && add_diags && j < A->m){ // insert zero diag for empty cols
     triplet tmp; tmp.col = tmp.row = j; tmp.val=0;
     triplet_vec.insert(triplet_vec.begin()+A->p[j], tmp);
     A->p[j+1] = A->p[j] + 1;
@@ -400,6 +400,13 @@ namespace sym_lib {
    }
   }
   delete []count;
+  if(triplet_vec.size() > A->nnz){ // make room for the inserted diagonals
+   delete []A->i;
+   delete []A->x;
+   A->nnz = triplet_vec.size();
+   A->i = new int[A->nnz]();
+   A->x = new double[A->nnz]();
+  }
   for (auto k = 0; k < A->nnz; ++k) {
    A->i[k] = triplet_vec[k].row;
    A->x[k] = triplet_vec[k].val;
-- 
2.43.0


From 0477be6aa9369b018b6ba673bb0619a1e9766eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:49 +0000
Subject: [PATCH 33/95] fix: array reader accepted truncated and malformed
 files

---
 utils/sparse_io.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 435448f..b041f98 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -451,11 +451,20 @@ namespace sym_lib {
    throw mtx_arith_error("REAL", type_str(arith));
   else if (mtx_format != ARRAY)
    throw mtx_format_error("ARRAY", format_str(mtx_format));
-  A = new Dense(m, n, 1);//
-  for (int i = 0; i < m * n; i++) {//writing from file row by row
-   in_file >> A->a[i];
+  else if (shape != GENERAL)
+   throw mtx_format_error("GENERAL", "SYMMETRIC");
+  std::vector<double> val;
+  for (size_t i = 0; i < nnz; i++) {//writing from file row by row
+   double tmp;
+   if (!read_number(in_file, tmp))
+    throw mtx_error("Unknown", "A matrix entry is missing or malformed");
+   val.push_back(tmp);
   }
-  std::ofstream file;
+  std::string rest;
+  if (in_file >> rest)
+   throw mtx_error("Unknown", "More entries than the header declares");
+  A = new Dense(m, n, 1);//
+  std::copy(val.begin(), val.end(), A->a);
   //print_dense(A->row, A->col, A->lda, A->a);
  }
 
-- 
2.43.0


From d3958999f64e989ed8ddf018a0e0e6f4a4d0a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:49 +0000
Subject: [PATCH 34/95] fix: read_mtx misread unsorted entries, empty columns
 and pattern files and accepted malformed ones

---
 utils/sparse_io.cpp | 53 ++++++++-------------------------------------
 1 file changed, 9 insertions(+), 44 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index b041f98..5600ef7 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -14,53 +14,18 @@
 namespace sym_lib {
 
  CSC *read_mtx(std::string fname) {
-  FILE *mf = fopen(fname.c_str(), "r");
-  if (!mf) exit(1);
-
-  MM_typecode mcode;
-  if (mm_read_banner(mf, &mcode) != 0) {
-   std::cerr << "Error processing matrix banner\n";
-   fclose(mf);
+  std::ifstream fin(fname);
+  if (!fin.is_open()) {
+   std::cerr << "Failed to open matrix file\n";
    return nullptr;
   }
-
-  int m, n, nnz;
-  if (mm_read_mtx_crd_size(mf, &m, &n, &nnz) != 0) exit(1);
-  CSC *A = new CSC(m, n, nnz);
-  int *J = new int[nnz]();
-
-  A->stype = mm_is_symmetric(mcode) ? -1 : 0;
-
-  // Copy matrix data into COO format
-  for (int i = 0; i < nnz; i++) {
-   if (fscanf(mf, "%d %d %lg\n", (A->i) + i, &J[i], (A->x) + i) == EOF) {
-    std::cerr << "Failed to load matrix at " << i + 1 << "th element\n";
-    fclose(mf);
-    delete (A);
-    return nullptr;
-   }
-   (A->i)[i]--;
-   J[i]--;
-  }
-  int i = 0, j;
-  int index = 0, cur;
-  for (; i < nnz; i++) {
-   A->p[index] = i;
-   cur = J[i];
-   for (j = i + 1; j < nnz; j++) {
-    if (J[j] != cur)
-     break;
-    else
-     i++;
-   }
-   index += 1;
+  CSC *A = nullptr;
+  try {
+   read_mtx_csc_real(fin, A);
+  } catch (const mtx_error &e) {
+   std::cerr << "Failed to load matrix: " << e.what() << "\n";
+   return nullptr;
   }
-  A->p[n] = nnz;
-  delete[]J;
-
-  A->m = m;
-  A->n = n;
-  A->nnz = nnz;
   return A;
  }
 
-- 
2.43.0


From e127213ae14bf5a8a02c85c77492e9dd9110e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:49 +0000
Subject: [PATCH 35/95] fix: matrix writer described symmetric halves as
 general and read the missing values of patterns

---
 utils/sparse_io.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 5600ef7..f2dfd42 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -36,14 +36,25 @@ namespace sym_lib {
   mm_initialize_typecode(&matcode);
   mm_set_matrix(&matcode);
   mm_set_coordinate(&matcode);
-  mm_set_real(&matcode);
+  if (A->is_pattern)
+   mm_set_pattern(&matcode);
+  else
+   mm_set_real(&matcode);
+  if (A->stype != 0)
+   mm_set_symmetric(&matcode);
 
   mm_write_banner(fp, matcode);
   mm_write_mtx_crd_size(fp, A->m, A->n, A->nnz);
 
   for (int i = 0; i < A->n; i++)
-   for (int j = A->p[i]; j < A->p[i + 1]; j++)
-    fprintf(fp, "%d %d %10.3g\n", A->i[j] + 1, i + 1, A->x[j]);
+   for (int j = A->p[i]; j < A->p[i + 1]; j++) {
+    // a symmetric file stores the lower half
+    int row = A->stype > 0 ? i : A->i[j], col = A->stype > 0 ? A->i[j] : i;
+    if (A->is_pattern)
+     fprintf(fp, "%d %d\n", row + 1, col + 1);
+    else
+     fprintf(fp, "%d %d %10.3g\n", row + 1, col + 1, A->x[j]);
+   }
   fclose(fp);
  }
 
-- 
2.43.0


From bf2c794efbc40c4dbf9181922db1b6e5dc19f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:50 +0000
Subject: [PATCH 36/95] fix: cost computation wrote into an output vector
 passed empty

---
 src/hdagg/hdagg.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 59bddd4..56ad47c 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2266,10 +2266,7 @@ namespace HDAGG
     void costComputation(int nodes, const int* CSC_Lp, const int* CSC_Li, const int* CSR_Lp, const int* CSR_Li,
                          Kernel kernel, const int* group_ptr, const int* group_set, bool grouped,
                          std::vector<double>& cost){
-        if(!cost.empty()){
-            cost.clear();
-            cost.resize(nodes, 0);
-        }
+        cost.assign(nodes, 0);
         if(kernel == SpTrSv_LL || kernel == SpTrSv_RL){
             const int* Lp;
             if(kernel == SpTrSv_LL){
-- 
2.43.0


From 006fa06e9990494212dc5970c8c6adfa73ae9926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:08 +0000
Subject: [PATCH 37/95] fix: grouped ILU0 cost compared a node with a storage
 position and dropped nonzeros

---
 src/hdagg/hdagg.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 56ad47c..1e9fe6b 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2358,9 +2358,6 @@ namespace HDAGG
                     for(int node_ptr = group_ptr[group]; node_ptr < group_ptr[group + 1]; node_ptr++){
                         int node = group_set[node_ptr];
                         for (int j = CSR_Lp[node]; j < CSR_Lp[node + 1]; j++) {
-                            if(node > j){
-                                break;
-                            }
                             auto dep = CSR_Li[j];
                             cost[group] += (CSR_Lp[dep + 1] - CSR_Lp[dep]);
                         }
-- 
2.43.0


From e549d867762fb7cd3acf645c51d3c022e4f3c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:08 +0000
Subject: [PATCH 38/95] fix: load imbalance statistics wrote past the cost
 array without OpenMP

---
 example/sptrsv_src/executor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/example/sptrsv_src/executor.cpp b/example/sptrsv_src/executor.cpp
index a15fce1..d146dd5 100644
--- a/example/sptrsv_src/executor.cpp
+++ b/example/sptrsv_src/executor.cpp
@@ -124,7 +124,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 1;
+        int tidx = 0;
 #endif
         int t_cost=0;
         int lidx = levelSet[li];
@@ -180,7 +180,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 1;
+        int tidx = 0;
 #endif
         for (int k1 = par_ptr[j1]; k1 < par_ptr[j1 + 1]; ++k1) {
          int i = partition[k1];
@@ -232,7 +232,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 1;
+        int tidx = 0;
 #endif
 
         for (int k1 = par_ptr[j1]; k1 < par_ptr[j1 + 1]; ++k1) {
-- 
2.43.0


From 0ee2eb154751df57b58033247d8dd19ba150f615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:25 +0000
Subject: [PATCH 39/95] fix: weighted tree height left out the weight of the
 leaf

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 0011e4d..a01e02e 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -727,7 +727,7 @@ namespace sym_lib {
   auto *touch = new int[n]();
   for (int i = 0; i < n; ++i) {
    if (nChild1[i] == 0) {
-    int node = i; level = 0;
+    int node = i; level = weight == NULLPNTR ? 0 : weight[i];
     while (tree[node] >= 0) {
      node = tree[node];
      if (weight == NULLPNTR)
-- 
2.43.0


From d6be28e898f789404a14016657f6c56fd579a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:57 +0000
Subject: [PATCH 40/95] fix: bin packing piled everything on one bin once loads
 exceeded INT_MAX

---
 src/lbc_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 30d71a8..f1a4efc 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -147,9 +147,9 @@ namespace sym_lib{
 
 
  int find_min(double *cost, int size) {
-  double min = INT_MAX;
+  double min = cost[0];
   int minBin = 0;
-  for (int i = 0; i < size; ++i) {
+  for (int i = 1; i < size; ++i) {
    if (cost[i] < min) {
     min = cost[i];
     minBin = i;
-- 
2.43.0


From 82957817c550c1fb59d623a0a1bab7f493e37435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:07 +0000
Subject: [PATCH 41/95] fix: costs of merged parts were stored one position too
 far

---
 src/lbc_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index f1a4efc..8084d9b 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -134,8 +134,8 @@ namespace sym_lib{
       newLeveledParList[i].begin(), newLeveledParList[i].end());
     i++;
    }
-   lClusterCnt++;
    outCost[lClusterCnt] = curCost;
+   lClusterCnt++;
   }
   return lClusterCnt;
  }
-- 
2.43.0


From c862100e18c41d371d4a08f0d33e4d3287277aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:19 +0000
Subject: [PATCH 42/95] fix: splitting by weight lost the items left after the
 last part reached its target

---
 utils/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/utils.cpp b/utils/utils.cpp
index 427cb57..a8b85c5 100644
--- a/utils/utils.cpp
+++ b/utils/utils.cpp
@@ -76,6 +76,7 @@ namespace sym_lib{
    }
    indices[i+1] = j;
   }
+  indices[n_parts] = n;// the last part takes what remains
   if(!target_weight)
    delete []even_weight;
   return indices;
-- 
2.43.0


From 87ce7bdd5ee58d598b6b21f355c4583d440cb124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 43/95] fix: symmetric METIS wrappers passed stale entries in
 place of the diagonal to the partitioner

---
 utils/metis_interface.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 3982474..e6678de 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -48,16 +48,17 @@ namespace sym_lib {
   }
 
   perm = new int[A->n]();
-  int nnzFull = 2 * A->nnz - A->n;
+  int nnzFull = 2 * A->nnz;
   auto Afullp = new idx_t[A->n + 1]();
   auto Afulli = new idx_t[nnzFull]();
   auto ind = new int[A->n]();
   for (size_t i = 0; i < A->n; i++) {
    for (size_t p = A->p[i]; p < A->p[i + 1]; p++) {
     int row = A->i[p];
-    ind[i]++;
-    if (row != i)
+    if (row != i) {
+     ind[i]++;
      ind[row]++;
+    }
    }
   }
   Afullp[0] = 0;
@@ -173,16 +174,17 @@ namespace sym_lib {
   part = new int[A->n]();
 
   int n = A->n;
-  int nnzFull = 2 * A->nnz - A->n;
+  int nnzFull = 2 * A->nnz;
   auto Afullp = new idx_t[n + 1]();
   auto Afulli = new idx_t[nnzFull]();
   auto ind = new int[n]();
   for (size_t i = 0; i < n; i++) {
    for (size_t p = A->p[i]; p < A->p[i + 1]; p++) {
     int row = A->i[p];
-    ind[i]++;
-    if (row != i)
+    if (row != i) {
+     ind[i]++;
      ind[row]++;
+    }
    }
   }
   Afullp[0] = 0;
-- 
2.43.0


From bd8b24391c63bd869a205f5052a49c0dc754fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:25 +0000
Subject: [PATCH 44/95] fix: parts of a coarsened partition were assigned to
 the wrong rows and past the end

---
 utils/metis_interface.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index e6678de..6277a01 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -3,6 +3,7 @@
 //
 
 #include <metis.h>
+#include <algorithm>
 #include <cassert>
 #include <functional>
 #include "aggregation/sparse_io.h"
@@ -334,14 +335,14 @@ namespace sym_lib {
   part = new int[A->n]();
   for (int i = 0; i < tmp->n; ++i) {
    int i2p = part_cors[i];
-   int bnd = i+coarsen; // std::max<int>(i + coarsen, A->n);
-   for (int j = i; j < bnd; ++j) {
+   int bnd = std::min<int>((i + 1) * coarsen, A->n);
+   for (int j = i * coarsen; j < bnd; ++j) {
     part[j] = i2p;
    }
   }
   //t.measure_elapsed_time();
   //t.print_t_array();
-  delete part_cors;
+  delete []part_cors;
   delete tmp;
   return 0;
  }
-- 
2.43.0


From b8fd512df10157cea39d2a4d963fa6917d618d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:25 +0000
Subject: [PATCH 45/95] fix: coarsened partition handed an upper half to the
 general partitioner

---
 utils/metis_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 6277a01..62442ec 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -326,7 +326,7 @@ namespace sym_lib {
   CSC *tmp = coarsen_k_times(A->n, A->nnz, A->p, A->i, A->stype, coarsen);
   int *part_cors;
  // t.start_timer();
-  if(A->stype < 0){
+  if(A->stype != 0){
    metis_partition_symmetric(tmp, part_cors, k);
   } else{
    metis_partition_general(tmp, part_cors, k);
-- 
2.43.0


From f52d6be871f66df5649517ef683121d1dd09e6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:35 +0000
Subject: [PATCH 46/95] fix: partitioning of a symmetric pattern handed every
 edge twice to the partitioner

---
 utils/metis_interface.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 62442ec..e3a6c53 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -19,11 +19,10 @@ namespace sym_lib {
 
   if(A->is_pattern) {
    metis_perm_func = metis_perm_symmetric;
-   metis_part_func = metis_partition_symmetric;
   } else {
    metis_perm_func = metis_perm_general;
-   metis_part_func = metis_partition_general;
   }
+  metis_part_func = metis_partition_general; // the matrix to partition is full
 
   CSC *A1 = nullptr, *A2 = nullptr;
   int *perm = nullptr;
-- 
2.43.0


From 5ebcc814e89fdebf24b759b61309a018151b2025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:59 +0000
Subject: [PATCH 47/95] fix: asking for one part crashed in the partitioner

---
 utils/metis_interface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index e3a6c53..bd5332f 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -172,6 +172,8 @@ namespace sym_lib {
 
  int metis_partition_symmetric(CSC *A, int *&part, int k) {
   part = new int[A->n]();
+  if (k <= 1)// METIS divides by zero when asked for one part
+   return 0;
 
   int n = A->n;
   int nnzFull = 2 * A->nnz;
@@ -241,6 +243,8 @@ namespace sym_lib {
 
  int metis_partition_general(CSC *A, int *&part, int k) {
   part = new int[A->n]();
+  if (k <= 1)// METIS divides by zero when asked for one part
+   return 0;
 
   // assumes A is full matrix
   idx_t n = A->n;
-- 
2.43.0


From e46fe28f49b183987e2bac935c9ff12598650c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:46 +0000
Subject: [PATCH 48/95] fix: merged DAGs with given dependences counted edges
 that do not exist

---
 utils/sparse_utilities.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index a01e02e..94fab07 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -886,7 +886,6 @@ namespace sym_lib {
   for(int i = 0; i < ngraphs-1; i++){
    nnz += DGps[i][n];
   }
-  nnz += (ngraphs-1) * n;
   CSC *merged_graph = new CSC(n*ngraphs,n*ngraphs,nnz, true);
 
 /** allocate new graph space **/
-- 
2.43.0


From b88c8793e86723e52eecf04e6894b401ff5ec7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:46 +0000
Subject: [PATCH 49/95] fix: merged supernodal graph kept only the first row of
 each middle block

---
 utils/sparse_inspector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 1e7213b..df52dcd 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -775,7 +775,7 @@ namespace sym_lib {
   // Count # nnz in B
   for (int i = 0; i < nodes; i++) {
    for (int r = 0; r < nB->nrows[i]; r++) {
-    int row = supers[nB->i[nB->p[i]]];
+    int row = supers[nB->i[nB->p[i] + r]];
     if (!inplace[row]) {
      inplace[row] = true;
      temp[count] = row;
@@ -839,7 +839,7 @@ namespace sym_lib {
    Mi[i] = j + nodes;
    i++;
    for (int r = 0; r < nB->nrows[j]; r++) {
-    int row = supers[nB->i[nB->p[j]]];
+    int row = supers[nB->i[nB->p[j] + r]];
     if (!inplace[row]) {
      inplace[row] = true;
      temp[count] = row;
-- 
2.43.0


From 0c2e7e9ff6904cc4196fe1659e6e3a9db48ebf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:46 +0000
Subject: [PATCH 50/95] fix: fused level set lost second half iterations that
 wait for nothing

---
 utils/sparse_inspector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index df52dcd..371e46d 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -650,6 +650,10 @@ namespace sym_lib {
     queue.push(supernodes[i]);
     inqueue[supernodes[i]] = true;
    }
+   if (degrees[supernodes[i] + n] == 0) {
+    queue.push(supernodes[i] + n);
+    inqueue[supernodes[i] + n] = true;
+   }
   }
 
   int cur_level = 0;
-- 
2.43.0


From 3aa45769a83680d68b104b806dac301d13fe4962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 51/95] fix: blocked format read past the last entry of the
 matrix

---
 utils/BCSCMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/BCSCMatrix.cpp b/utils/BCSCMatrix.cpp
index ed835ee..ac4cfec 100644
--- a/utils/BCSCMatrix.cpp
+++ b/utils/BCSCMatrix.cpp
@@ -202,7 +202,7 @@ namespace sym_lib {
     for (p = 0; p < temp_cnt; p++) {
      int row_i = tempvec[p];
      M->i[counter] = row_i;
-     if (row_i == Ai[index] && index < Ap[j + 1]) {
+     if (index < Ap[j + 1] && row_i == Ai[index]) {
       M->x[counter] = Ax[index];
       index++;
      } else {
-- 
2.43.0


From 0c6d6ce448c441516665c7b72ae1b54afdc5911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:17 +0000
Subject: [PATCH 52/95] fix: supernodal graph wrote edges out of range past the
 end of its arrays

---
 utils/BCSCMatrix.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utils/BCSCMatrix.cpp b/utils/BCSCMatrix.cpp
index ac4cfec..792b1af 100644
--- a/utils/BCSCMatrix.cpp
+++ b/utils/BCSCMatrix.cpp
@@ -276,9 +276,6 @@ namespace sym_lib {
     inplace[temp[k]] = false;
    count = 0;
 
-   Ai[i] = j + nodes;
-   Ap[p]++;
-   i++;
    p++;
   }
 
-- 
2.43.0


From 3cafb1ceb854ad18da4509dfafc97ad9923bc53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:33 +0000
Subject: [PATCH 53/95] fix: queue level set builder left the first level
 pointer unset

---
 utils/sparse_inspector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 371e46d..66534fb 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -66,6 +66,7 @@ namespace sym_lib {
         int curLevel = 0, curLevelCol = 0;
 //    levelPtr = new int[n+1]();
 //    levelSet = new int[n]();;
+        levelPtr[0] = 0;
         int *inDegree = (int *) malloc(sizeof(int) * n);
         memset(inDegree, 0, sizeof(int) * n);
 //            new int[n]();
-- 
2.43.0


From fb2541528d140a3e6202410dc5ba4d327557ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:06 +0000
Subject: [PATCH 54/95] fix: level set builders into caller arrays left the
 first level pointer unset

---
 src/hdagg/hdagg.cpp        | 1 +
 utils/sparse_inspector.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 1e9fe6b..a09698f 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -18,6 +18,7 @@ namespace HDAGG
    {
         int begin = 0, end = n - 1;
         int cur_level = 0, cur_levelCol = 0;
+        levelPtr[0] = 0;
         int *inDegree = new int[n]();
         bool *visited = new bool[n]();
         for (int i = 0; i < Lp[n]; ++i)
diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 66534fb..d7da37a 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -965,6 +965,7 @@ namespace sym_lib {
  {
    int begin = 0, end = n - 1;
    int cur_level = 0, cur_levelCol = 0;
+   levelPtr[0] = 0;
    int *inDegree = new int[n]();
    bool *visited = new bool[n]();
    for (int i = 0; i < Lp[n]; ++i)
-- 
2.43.0


From e4fc9072930029ae2bd3059deb2f0a992555c92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:11 +0000
Subject: [PATCH 55/95] fix: record file header was lost when the process
 stopped before its first record

---
 include/aggregation/csv_utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aggregation/csv_utils.h b/include/aggregation/csv_utils.h
index 5ab8918..cdb2b75 100644
--- a/include/aggregation/csv_utils.h
+++ b/include/aggregation/csv_utils.h
@@ -57,7 +57,8 @@ public:
                  iter++) {
                 dataset_file << *iter << ",";
             }
-            dataset_file << column_names.back() << "\n";
+            dataset_file << column_names.back() << "\n"
+                         << std::flush;
         }
         else { // Open the file and put the iterator in the end of the CSV
             std::cout << "Write in the existing file " << this->output_name
-- 
2.43.0


From 38eacc04b79b7eea166401077816cf9d431b5e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:39 +0000
Subject: [PATCH 56/95] fix: comparison with a value accepted NaN

---
 include/aggregation/test_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aggregation/test_utils.h b/include/aggregation/test_utils.h
index 0c2ad31..51b0ce5 100644
--- a/include/aggregation/test_utils.h
+++ b/include/aggregation/test_utils.h
@@ -47,7 +47,7 @@ namespace sym_lib{
  template<class type>
  bool is_equal(int n, const type* vec, type val, double eps=1e-8){
   for (int i = 0; i < n; ++i) {
-   if(std::abs(vec[i] - val) > eps)
+   if(std::isnan(vec[i]) || std::isnan(val) || std::abs(vec[i] - val) > eps)
     return false;
   }
   return true;
-- 
2.43.0


From 791fad910c03ed531c23fc9d7d8df5464a2dbb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:39 +0000
Subject: [PATCH 57/95] fix: matrix comparison ignored the row count, accepted
 NaN and read the values of patterns

---
 utils/test_utils.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/test_utils.cpp b/utils/test_utils.cpp
index 68f3d49..9552c89 100644
--- a/utils/test_utils.cpp
+++ b/utils/test_utils.cpp
@@ -71,7 +71,7 @@ namespace sym_lib{
  }
 
  bool is_equal(CSC *A, CSC *B, double eps){
-  if(A->n != B->n || A->nnz != B->nnz){
+  if(A->m != B->m || A->n != B->n || A->nnz != B->nnz){
    return false;
   }
   for (int j = 0; j < A->n+1; ++j) {
@@ -82,7 +82,13 @@ namespace sym_lib{
    if(A->i[i] != B->i[i])
     return false;
   }
+  if((A->x == NULLPNTR) != (B->x == NULLPNTR))
+   return A->nnz == 0;
+  if(A->x == NULLPNTR)
+   return true;
   for (int i = 0; i < A->nnz; ++i) {
+   if(std::isnan(A->x[i]) || std::isnan(B->x[i]))
+    return false;
    if(std::abs(A->x[i] -B->x[i]) > eps)
     return false;
   }
-- 
2.43.0


From 1bd087ae6ba741939bead8508e7ade9cbfe6d338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:39 +0000
Subject: [PATCH 58/95] fix: uniqueness test wrote out of range for values out
 of range

---
 utils/test_utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/test_utils.cpp b/utils/test_utils.cpp
index 9552c89..6ba1caf 100644
--- a/utils/test_utils.cpp
+++ b/utils/test_utils.cpp
@@ -126,7 +126,10 @@ namespace sym_lib{
  bool test_unique(int n, int *vec){
   auto *tmp = new bool[n]();
   for (int i = 0; i < n; ++i) {
-   assert(vec[i] < n && vec[i] >= 0);
+   if(vec[i] < 0 || vec[i] >= n){
+    delete []tmp;
+    return false;
+   }
    tmp[vec[i]] =  true;
   }
   for (int j = 0; j < n; ++j) {
-- 
2.43.0


From d944e9093f6ed980b887d0851ba9913f0ec234d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:39 +0000
Subject: [PATCH 59/95] fix: norms of vectors with NaN were finite

---
 utils/sparse_utilities.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 94fab07..5fbbb47 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -482,9 +482,13 @@ namespace sym_lib {
 
     double residual(int beg_idx, int end_idx, const double *x0, const double *x1) {
      double max = 0.0;
-     for (int i = beg_idx; i < end_idx; i++)
-      if (std::fabs(x0[i] - x1[i]) > max)
-       max = std::fabs(x0[i] - x1[i]);
+     for (int i = beg_idx; i < end_idx; i++) {
+      double diff = std::fabs(x0[i] - x1[i]);
+      if (std::isnan(diff))
+       return diff;
+      if (diff > max)
+       max = diff;
+     }
      return max;
     }
 
@@ -492,6 +496,8 @@ namespace sym_lib {
     double norm(int size, double *vec) {
      double max = 0.0;
      for(int i = 0; i < size; i++) {
+      if(std::isnan(vec[i]))
+       return vec[i];
       if(std::fabs(vec[i]) > max)
        max = std::fabs(vec[i]);
      }
-- 
2.43.0


From 25bf30fe4fe6d7059b795f899c44ead680358352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:39 +0000
Subject: [PATCH 60/95] fix: overflowing product was returned instead of zero

---
 utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/utils.cpp b/utils/utils.cpp
index a8b85c5..fe1fd75 100644
--- a/utils/utils.cpp
+++ b/utils/utils.cpp
@@ -38,7 +38,7 @@ namespace sym_lib{
     (*ok) = (*ok) && (p >= a);
    }
    k = k / 2;
-   if (!k) return (p);
+   if (!k) return (*ok) ? p : 0;
    s = a + a;
    (*ok) = (*ok) && (s >= a);
    a = s;
-- 
2.43.0


From 2a3b2768969e34532695602a8772b2304ec08899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:49 +0000
Subject: [PATCH 61/95] Restore example and test utility files (their defects
 are recorded, not repaired)

---
 example/sptrsv_src/executor.cpp  |  6 +++---
 include/aggregation/test_utils.h |  2 +-
 utils/test_utils.cpp             | 13 ++-----------
 3 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/example/sptrsv_src/executor.cpp b/example/sptrsv_src/executor.cpp
index d146dd5..a15fce1 100644
--- a/example/sptrsv_src/executor.cpp
+++ b/example/sptrsv_src/executor.cpp
@@ -124,7 +124,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 0;
+        int tidx = 1;
 #endif
         int t_cost=0;
         int lidx = levelSet[li];
@@ -180,7 +180,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 0;
+        int tidx = 1;
 #endif
         for (int k1 = par_ptr[j1]; k1 < par_ptr[j1 + 1]; ++k1) {
          int i = partition[k1];
@@ -232,7 +232,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 0;
+        int tidx = 1;
 #endif
 
         for (int k1 = par_ptr[j1]; k1 < par_ptr[j1 + 1]; ++k1) {
diff --git a/include/aggregation/test_utils.h b/include/aggregation/test_utils.h
index 51b0ce5..0c2ad31 100644
--- a/include/aggregation/test_utils.h
+++ b/include/aggregation/test_utils.h
@@ -47,7 +47,7 @@ namespace sym_lib{
  template<class type>
  bool is_equal(int n, const type* vec, type val, double eps=1e-8){
   for (int i = 0; i < n; ++i) {
-   if(std::isnan(vec[i]) || std::isnan(val) || std::abs(vec[i] - val) > eps)
+   if(std::abs(vec[i] - val) > eps)
     return false;
   }
   return true;
diff --git a/utils/test_utils.cpp b/utils/test_utils.cpp
index 6ba1caf..68f3d49 100644
--- a/utils/test_utils.cpp
+++ b/utils/test_utils.cpp
@@ -71,7 +71,7 @@ namespace sym_lib{
  }
 
  bool is_equal(CSC *A, CSC *B, double eps){
-  if(A->m != B->m || A->n != B->n || A->nnz != B->nnz){
+  if(A->n != B->n || A->nnz != B->nnz){
    return false;
   }
   for (int j = 0; j < A->n+1; ++j) {
@@ -82,13 +82,7 @@ namespace sym_lib{
    if(A->i[i] != B->i[i])
     return false;
   }
-  if((A->x == NULLPNTR) != (B->x == NULLPNTR))
-   return A->nnz == 0;
-  if(A->x == NULLPNTR)
-   return true;
   for (int i = 0; i < A->nnz; ++i) {
-   if(std::isnan(A->x[i]) || std::isnan(B->x[i]))
-    return false;
    if(std::abs(A->x[i] -B->x[i]) > eps)
     return false;
   }
@@ -126,10 +120,7 @@ namespace sym_lib{
  bool test_unique(int n, int *vec){
   auto *tmp = new bool[n]();
   for (int i = 0; i < n; ++i) {
-   if(vec[i] < 0 || vec[i] >= n){
-    delete []tmp;
-    return false;
-   }
+   assert(vec[i] < n && vec[i] >= 0);
    tmp[vec[i]] =  true;
   }
   for (int j = 0; j < n; ++j) {
-- 
2.43.0


From 0b9313275dbdfb97d8f69ebb7bc9f488b442361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:38 +0000
Subject: [PATCH 62/95] fix: component costs lost concurrent updates in
 parallel_cc

---
 src/lbc_csc_dag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 6ced3aa..c3ae44a 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -81,6 +81,7 @@ int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level,
  for (int i = 0; i < numNodes; ++i) {
   int node = nodes[i];
   int cc = node2partition[node];
+#pragma omp atomic
   outCost[cc] += nodeCost[node];
   max_cc = std::max(max_cc, cc + 1);
  }
-- 
2.43.0


From 037d30225175dabd6d5c85d49a068d67ff9b024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:22 +0000
Subject: [PATCH 63/95] fix: computePostOrderAndGroup was declared but not
 defined, read past the edge array and appended to its outputs

---
 src/hdagg/hdagg.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index a09698f..8ab509b 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -69,7 +69,7 @@ namespace HDAGG
         return cur_level; //return number of level
     }
 
-   void computePostOrderAndGroup(int n, const std::vector<int>& DAG_ptr, const std::vector<int>& DAG_set,
+   void computePostOrderAndGroup(int n, const int* DAG_ptr, const int* DAG_set,
                                  int& ngroups, std::vector<int>& groupPtr, std::vector<int>& post_order,
                                  std::vector<int>& group_DAG_ptr, std::vector<int>& group_DAG_set){
         //TODO: Find a way to merge these functions
@@ -124,7 +124,8 @@ namespace HDAGG
 
         //Apply Grouping on the order
         assert(std::count(visited.begin(), visited.end(), false) == 0);
-        groupPtr.reserve(n);
+        groupPtr.clear();
+        groupPtr.reserve(n + 1);
         groupPtr.push_back(0);
         std::vector<int> groupInv(n, 0);
         ngroups = 0;
@@ -137,7 +138,8 @@ namespace HDAGG
             if(i < n - 1){
                 next = post_order[i + 1];
                 in_edges = in_degree[next];
-                child = DAG_set[DAG_ptr[curr] + 1];//TODO: Ugly coding
+                //A node without children has no first child to look at
+                child = DAG_ptr[curr] + 1 < DAG_ptr[curr + 1] ? DAG_set[DAG_ptr[curr] + 1] : -1;
             } else {
                 in_edges = 1;
                 child = next;
@@ -172,7 +174,8 @@ namespace HDAGG
         #endif
         //Create the group DAG
         //Note that because of the special chain grouping, the real DAG just need a small modification
-        group_DAG_ptr.push_back(0);
+        group_DAG_ptr.assign(1, 0);
+        group_DAG_set.clear();
         group_DAG_set.reserve(DAG_ptr[n]);
         for(int group = 0; group < ngroups; group++){
             int node = post_order[groupPtr[group + 1] - 1];
-- 
2.43.0


From 5235bd53644cf291efd5ae130381497dd5884d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 64/95] fix: the blocked coarsening leaked a workspace per
 coarsened level

---
 src/lbc_blocked.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index e13e8fb..63a6447 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -165,6 +165,7 @@ namespace sym_lib {
      }
     }
    }
+   delete[] isUniq;
    //Reset all marked node in the DAG
    for (int j = levelPtr[lbLevel > 0 ? lbLevel : 0];
         j < levelPtr[lbLevel + 1]; ++j) {
-- 
2.43.0


From e5831ba798197a80ea0c8e6b524d62b97631efbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 65/95] fix: the grouping inspector never released its
 workspaces

---
 include/aggregation/group.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/aggregation/group.h b/include/aggregation/group.h
index b886480..0e3683f 100755
--- a/include/aggregation/group.h
+++ b/include/aggregation/group.h
@@ -58,6 +58,17 @@ namespace sym_lib
 
         }
 
+        ~group() {
+         free(status);
+         free(next);
+         free(pre);
+         free(visited);
+         free(child);
+        }
+
+        group(const group &) = delete;
+        group &operator=(const group &) = delete;
+
 
         /**
          * @brief Grouping consecutive columns with dependence of sptrsv_csc
-- 
2.43.0


From 853277dd1dd81c7f0ff588037d5317d6c6421d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 66/95] fix: the matrix returned by tree_to_csc did not own its
 arrays, so deleting it leaked them

---
 utils/sparse_utilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 5fbbb47..83e9532 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -161,6 +161,11 @@ namespace sym_lib {
      int *Ai = new int[n](), *Ap = new int[n+1](), *cnt = new int[n]();
      populate_children(n, tree, Ap, Ai, cnt);
      CSC *T = new CSC(n,n,Ap[n],Ap,Ai,0);
+     T->pre_alloc = false; // the arrays belong to T
+     if (T->nnz == 0) {
+      delete []Ai;
+      T->i = NULLPNTR;
+     }
      delete []cnt;
      return T;
     }
-- 
2.43.0


From f540bcf41a02c38b0166e500d9d4db603153c3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 67/95] fix: the symbolic factorization leaked its reordered
 copies of the matrix

---
 utils/lfactor_creation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/lfactor_creation.cpp b/utils/lfactor_creation.cpp
index 588200a..3c50160 100644
--- a/utils/lfactor_creation.cpp
+++ b/utils/lfactor_creation.cpp
@@ -422,8 +422,8 @@ namespace sym_lib{
   /// Build the L-factor pattern
   lfsi->L = build_L_pattern_from_col_counts(n, At_ord, col_count, parent,
     lfsi->accessed_nnz_per_col);
-  //delete A_ord;
-  //delete At_ord;
+  delete A_ord;
+  delete At_ord;
   delete []ws;
   delete []first;
   delete []level;
-- 
2.43.0


From 07b8125e769272e3d2e190ef0474cc8bcdade64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 68/95] fix: the blocked level set builder leaked its
 node-to-level map

---
 utils/sparse_inspector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index d7da37a..696e439 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -178,6 +178,7 @@ namespace sym_lib {
   }
   delete[]inDegree;
   delete[]visited;
+  delete[]node2Level;
   return cur_level;//return number of levels
  }
 
-- 
2.43.0


From 3182aa52e5f87bfab5fc4fbc19221d2d7e4d8887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 69/95] fix: the row grouping with empty rows leaked a
 workspace

---
 src/group.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/group.cpp b/src/group.cpp
index 40f3cbd..9971fe7 100644
--- a/src/group.cpp
+++ b/src/group.cpp
@@ -234,6 +234,7 @@ namespace sym_lib
       }
      }
 
+     free(rCnt);
      memset(visited, 0, sizeof(bool)*ncol);
 
      int pos=0; int index=0;
-- 
2.43.0


From 55b420b994f7eee0a4ef23bd7f14ed9fe2dbb8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 70/95] fix: compute_etree leaked its workspace when it refused
 a lower half

---
 utils/etree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/etree.cpp b/utils/etree.cpp
index a032b92..e1e5b70 100644
--- a/utils/etree.cpp
+++ b/utils/etree.cpp
@@ -108,6 +108,7 @@ namespace sym_lib{
    }
   }
   else{// symmetric case with lower triangular part not supported
+   delete []Iwork;
    return false ;
   }
   delete []Iwork;
-- 
2.43.0


From ec12ec07bc9dfe11733e1aea3730e560892f68d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 71/95] fix: csr_to_csc leaked the entry arrays of a matrix
 without entries

---
 utils/sparse_utilities.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 83e9532..e83f5b1 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -112,6 +112,12 @@ namespace sym_lib {
      B->is_pattern = A->is_pattern;
      int st = csc_to_csr(A->n, A->m, A->p, A->i, A->x, B->p, B->i, B->x);
      B->nnz = B->p[B->n];
+     if (B->nnz == 0) {// a matrix without entries holds no arrays of entries
+      delete []B->i;
+      delete []B->x;
+      B->i = NULLPNTR;
+      B->x = NULLPNTR;
+     }
      return B;
     }
 
-- 
2.43.0


From 87578d188c8c06d64e77401133bc11636de445fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 72/95] fix: generate_matrices_from_mtx leaked a permutation
 and the reordered matrix

---
 utils/FusionDemo.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/FusionDemo.cpp b/utils/FusionDemo.cpp
index 3314680..9b76960 100644
--- a/utils/FusionDemo.cpp
+++ b/utils/FusionDemo.cpp
@@ -111,7 +111,7 @@ namespace sym_lib{
   CSC *L1_csc = NULLPNTR;
 #ifdef METIS
   //We only reorder L since dependency matters more in l-solve.
-  auto *perm = new int[L1_csc_in->n]();
+  int *perm = NULLPNTR;
   CSC *L1_csc_full = make_full(L1_csc_in);
   metis_perm_general(L1_csc_full, perm);
   L1_csc = make_half(L1_csc_full->n, L1_csc_full->p, L1_csc_full->i,
@@ -132,6 +132,7 @@ namespace sym_lib{
    B = diagonal(L1_csc->n,1.0);
    B_csr = csc_to_csr(B);
   }
+  delete L1_csc;
  }
 
  void print_common_header(){
-- 
2.43.0


From 911fb959bb5c7fb7f3e98f0858638e91a945c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 73/95] fix: metis_partition_symmetric leaked a workspace

---
 utils/metis_interface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index bd5332f..befb5d0 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -234,6 +234,7 @@ namespace sym_lib {
    part[i] = partIDX[i];
   delete[]Afullp;
   delete[]Afulli;
+  delete[]ind;
   delete[]weigt;
   delete[]partIDX;
 
-- 
2.43.0


From 444fdc5016235c434275f88a8044e2d81311dec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 74/95] fix: the statistics row of a run without a factor had
 one cell less than the header

---
 utils/FusionDemo.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/FusionDemo.cpp b/utils/FusionDemo.cpp
index 9b76960..728b55e 100644
--- a/utils/FusionDemo.cpp
+++ b/utils/FusionDemo.cpp
@@ -145,8 +145,7 @@ namespace sym_lib{
   PRINT_CSV(matrix_name);
   PRINT_CSV(B->m);
   PRINT_CSV(B->nnz);
-  if(L)
-   PRINT_CSV(L->nnz);
+  PRINT_CSV(L ? L->nnz : 0);// one cell per column of the header
   PRINT_CSV(variant);
   PRINT_CSV(strategy);
 #ifdef METIS
-- 
2.43.0


From f7ed7c5c970fd5772926a55c11d6c9999750a621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:30 +0000
Subject: [PATCH 75/95] fix: Matrix Market triplet reader overran its buffers
 on a long banner token

---
 utils/external/mmio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index ace5551..7cd54b9 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -101,7 +101,7 @@ namespace sym_lib {
   if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL)
    return MM_PREMATURE_EOF;
 
-  if (sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if (sscanf(line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type,
              storage_scheme) != 5)
    return MM_PREMATURE_EOF;
 
-- 
2.43.0


From 1ee9beb4ece521b5b3c7d2ec0cd60e9a3322b0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:30 +0000
Subject: [PATCH 76/95] fix: Matrix Market triplet reader looped forever or
 misread a malformed size line

---
 utils/external/mmio.cpp | 74 ++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 30 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 7cd54b9..3ba4d44 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -10,6 +10,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <ctype.h>
+#include <limits.h>
 
 #include "aggregation/mmio.h"
 namespace sym_lib {
@@ -170,55 +171,68 @@ namespace sym_lib {
    return 0;
  }
 
+ /* reads the next line that is neither blank nor a comment */
+ static int mm_read_size_line(FILE *f, char *line) {
+  int c, len;
+  do {
+   do
+    c = getc(f);
+   while (c != EOF && isspace(c));
+   for (len = 0; c != EOF && c != '\n'; c = getc(f)) {
+    if (len < MM_MAX_LINE_LENGTH - 1)
+     line[len++] = (char) c;
+    else if (line[0] != '%')
+     return MM_LINE_TOO_LONG;
+   }
+   line[len] = '\0';
+   if (len == 0) return MM_PREMATURE_EOF;
+  } while (line[0] == '%');
+  return 0;
+ }
+
  int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz) {
   char line[MM_MAX_LINE_LENGTH];
-  int num_items_read;
+  char rest[2];
+  long m, n, z;
+  int ret_code;
 
   /* set return null parameter values, in case we exit with errors */
   *M = *N = *nz = 0;
 
-  /* now continue scanning until you reach the end-of-comments */
-  do {
-   if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL)
-    return MM_PREMATURE_EOF;
-  } while (line[0] == '%');
-
-  /* line[] is either blank or has M,N, nz */
-  if (sscanf(line, "%d %d %d", M, N, nz) == 3)
-   return 0;
+  if ((ret_code = mm_read_size_line(f, line)) != 0)
+   return ret_code;
 
-  else
-   do {
-    num_items_read = fscanf(f, "%d %d %d", M, N, nz);
-    if (num_items_read == EOF) return MM_PREMATURE_EOF;
-   } while (num_items_read != 3);
+  if (sscanf(line, "%ld %ld %ld %1s", &m, &n, &z, rest) != 3)
+   return MM_PREMATURE_EOF;
+  if (m < 0 || n < 0 || z < 0 || m > INT_MAX || n > INT_MAX || z > INT_MAX)
+   return MM_UNSUPPORTED_TYPE;
 
+  *M = (int) m;
+  *N = (int) n;
+  *nz = (int) z;
   return 0;
  }
 
 
  int mm_read_mtx_array_size(FILE *f, int *M, int *N) {
   char line[MM_MAX_LINE_LENGTH];
-  int num_items_read;
+  char rest[2];
+  long m, n;
+  int ret_code;
+
   /* set return null parameter values, in case we exit with errors */
   *M = *N = 0;
 
-  /* now continue scanning until you reach the end-of-comments */
-  do {
-   if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL)
-    return MM_PREMATURE_EOF;
-  } while (line[0] == '%');
-
-  /* line[] is either blank or has M,N, nz */
-  if (sscanf(line, "%d %d", M, N) == 2)
-   return 0;
+  if ((ret_code = mm_read_size_line(f, line)) != 0)
+   return ret_code;
 
-  else /* we have a blank line */
-   do {
-    num_items_read = fscanf(f, "%d %d", M, N);
-    if (num_items_read == EOF) return MM_PREMATURE_EOF;
-   } while (num_items_read != 2);
+  if (sscanf(line, "%ld %ld %1s", &m, &n, rest) != 2)
+   return MM_PREMATURE_EOF;
+  if (m < 0 || n < 0 || m > INT_MAX || n > INT_MAX)
+   return MM_UNSUPPORTED_TYPE;
 
+  *M = (int) m;
+  *N = (int) n;
   return 0;
  }
 
-- 
2.43.0


From 2432e55a4398b98935e8311167aa79998c92eaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:30 +0000
Subject: [PATCH 77/95] fix: Matrix Market triplet reader accepted entries out
 of range and did not read integer fields

---
 utils/external/mmio.cpp | 86 ++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 31 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 3ba4d44..bc6360c 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -245,6 +245,35 @@ namespace sym_lib {
 
 
 
+ /* reads one number; it ends with a space, the line or the file */
+ static int mm_read_number(FILE *f, char *token, int *len) {
+  fscanf(f, " ");
+  if (fscanf(f, "%1024s%n", token, len) != 1)
+   return MM_PREMATURE_EOF;
+  return *len < MM_MAX_LINE_LENGTH - 1 ? 0 : MM_LINE_TOO_LONG;
+ }
+
+ static int mm_read_index(FILE *f, int *index) {
+  char token[MM_MAX_LINE_LENGTH], *end;
+  int ret_code, len;
+  long v;
+  if ((ret_code = mm_read_number(f, token, &len)) != 0) return ret_code;
+  v = strtol(token, &end, 10);
+  if (end != token + len || v < INT_MIN || v > INT_MAX)
+   return MM_UNSUPPORTED_TYPE;
+  *index = (int) v;
+  return 0;
+ }
+
+ static int mm_read_value(FILE *f, double *value) {
+  char token[MM_MAX_LINE_LENGTH], *end;
+  int ret_code, len;
+  if ((ret_code = mm_read_number(f, token, &len)) != 0) return ret_code;
+  *value = strtod(token, &end);
+  return end == token + len ? 0 : MM_UNSUPPORTED_TYPE;
+ }
+
+
 /*-------------------------------------------------------------------------*/
 
 /******************************************************************/
@@ -253,47 +282,42 @@ namespace sym_lib {
 
  int mm_read_mtx_crd_data(FILE *f, int M, int N, int nz, int I[], int J[],
                           double val[], MM_typecode matcode) {
-  int i;
-  if (mm_is_complex(matcode)) {
-   for (i = 0; i < nz; i++)
-    if (fscanf(f, "%d %d %lg %lg", &I[i], &J[i], &val[2 * i], &val[2 * i + 1])
-        != 4)
-     return MM_PREMATURE_EOF;
-  } else if (mm_is_real(matcode)) {
-   for (i = 0; i < nz; i++) {
-    if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i])
-        != 3)
-     return MM_PREMATURE_EOF;
-
-   }
-  } else if (mm_is_pattern(matcode)) {
-   for (i = 0; i < nz; i++)
-    if (fscanf(f, "%d %d", &I[i], &J[i])
-        != 2)
-     return MM_PREMATURE_EOF;
-  } else
+  int i, ret_code;
+  double re, im;
+  if (!mm_is_complex(matcode) && !mm_is_real(matcode) &&
+      !mm_is_integer(matcode) && !mm_is_pattern(matcode))
    return MM_UNSUPPORTED_TYPE;
 
+  for (i = 0; i < nz; i++) {
+   ret_code = mm_read_mtx_crd_entry(f, &I[i], &J[i], &re, &im, matcode);
+   if (ret_code != 0) return ret_code;
+   if (I[i] < 1 || I[i] > M || J[i] < 1 || J[i] > N)
+    return MM_UNSUPPORTED_TYPE;
+   if (mm_is_complex(matcode)) {
+    val[2 * i] = re;
+    val[2 * i + 1] = im;
+   } else if (!mm_is_pattern(matcode))
+    val[i] = re;
+  }
+
   return 0;
 
  }
 
  int mm_read_mtx_crd_entry(FILE *f, int *I, int *J,
                            double *real, double *imag, MM_typecode matcode) {
-  if (mm_is_complex(matcode)) {
-   if (fscanf(f, "%d %d %lg %lg", I, J, real, imag)
-       != 4)
-    return MM_PREMATURE_EOF;
-  } else if (mm_is_real(matcode)) {
-   if (fscanf(f, "%d %d %lg\n", I, J, real)
-       != 3)
-    return MM_PREMATURE_EOF;
-
-  } else if (mm_is_pattern(matcode)) {
-   if (fscanf(f, "%d %d", I, J) != 2) return MM_PREMATURE_EOF;
-  } else
+  int ret_code;
+  if (!mm_is_complex(matcode) && !mm_is_real(matcode) &&
+      !mm_is_integer(matcode) && !mm_is_pattern(matcode))
    return MM_UNSUPPORTED_TYPE;
 
+  if ((ret_code = mm_read_index(f, I)) != 0) return ret_code;
+  if ((ret_code = mm_read_index(f, J)) != 0) return ret_code;
+  if (!mm_is_pattern(matcode) && (ret_code = mm_read_value(f, real)) != 0)
+   return ret_code;
+  if (mm_is_complex(matcode) && (ret_code = mm_read_value(f, imag)) != 0)
+   return ret_code;
+
   return 0;
 
  }
-- 
2.43.0


From 45e14243223a6c3da98067f31f5bc998d06042f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:30 +0000
Subject: [PATCH 78/95] fix: mm_read_unsymmetric_sparse accepted truncated and
 out of range entries

---
 utils/external/mmio.cpp | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index bc6360c..3008162 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -22,6 +22,7 @@ namespace sym_lib {
   int i;
   double *val;
   int *I, *J;
+  char *str;
 
   if ((f = fopen(fname, "r")) == NULL)
    return -1;
@@ -30,6 +31,7 @@ namespace sym_lib {
   if (mm_read_banner(f, &matcode) != 0) {
    printf("mm_read_unsymetric: Could not process Matrix Market banner ");
    printf(" in file [%s]\n", fname);
+   fclose(f);
    return -1;
   }
 
@@ -37,8 +39,10 @@ namespace sym_lib {
   if (!(mm_is_real(matcode) && mm_is_matrix(matcode) &&
         mm_is_sparse(matcode))) {
    fprintf(stderr, "Sorry, this application does not support ");
-   fprintf(stderr, "Market Market type: [%s]\n",
-           mm_typecode_to_str(matcode));
+   str = mm_typecode_to_str(matcode);
+   fprintf(stderr, "Market Market type: [%s]\n", str);
+   free(str);
+   fclose(f);
    return -1;
   }
 
@@ -46,34 +50,39 @@ namespace sym_lib {
 
   if (mm_read_mtx_crd_size(f, &M, &N, &nz) != 0) {
    fprintf(stderr, "read_unsymmetric_sparse(): could not parse matrix size.\n");
+   fclose(f);
    return -1;
   }
 
-  *M_ = M;
-  *N_ = N;
-  *nz_ = nz;
-
   /* reseve memory for matrices */
 
   I = (int *) malloc(nz * sizeof(int));
   J = (int *) malloc(nz * sizeof(int));
   val = (double *) malloc(nz * sizeof(double));
 
-  *val_ = val;
-  *I_ = I;
-  *J_ = J;
-
-  /* NOTE: when reading in doubles, ANSI C requires the use of the "l"  */
-  /*   specifier as in "%lg", "%lf", "%le", otherwise errors will occur */
-  /*  (ANSI C X3.159-1989, Sec. 4.9.6.2, p. 136 lines 13-15)            */
+  if ((nz > 0 && (I == NULL || J == NULL || val == NULL)) ||
+      mm_read_mtx_crd_data(f, M, N, nz, I, J, val, matcode) != 0) {
+   fprintf(stderr, "read_unsymmetric_sparse(): could not read the entries.\n");
+   free(I);
+   free(J);
+   free(val);
+   fclose(f);
+   return -1;
+  }
 
   for (i = 0; i < nz; i++) {
-   fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]);
    I[i]--;  /* adjust from 1-based to 0-based */
    J[i]--;
   }
   fclose(f);
 
+  *M_ = M;
+  *N_ = N;
+  *nz_ = nz;
+  *val_ = val;
+  *I_ = I;
+  *J_ = J;
+
   return 0;
  }
 
-- 
2.43.0


From d83ff1d79a9e447831a6dc59672dfca80b12fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:30 +0000
Subject: [PATCH 79/95] fix: mm_read_mtx_crd returned success without reading
 integer matrices and leaked on errors

---
 utils/external/mmio.cpp | 57 ++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 3008162..f1225d4 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -350,39 +350,42 @@ namespace sym_lib {
    return MM_COULD_NOT_READ_FILE;
 
 
-  if ((ret_code = mm_read_banner(f, matcode)) != 0)
-   return ret_code;
+  *I = *J = NULL;
+  *val = NULL;
+  ret_code = mm_read_banner(f, matcode);
 
-  if (!(mm_is_valid(*matcode) && mm_is_sparse(*matcode) &&
+  if (ret_code == 0 && !(mm_is_valid(*matcode) && mm_is_sparse(*matcode) &&
         mm_is_matrix(*matcode)))
-   return MM_UNSUPPORTED_TYPE;
-
-  if ((ret_code = mm_read_mtx_crd_size(f, M, N, nz)) != 0)
-   return ret_code;
-
-
-  *I = (int *) malloc(*nz * sizeof(int));
-  *J = (int *) malloc(*nz * sizeof(int));
-  *val = NULL;
+   ret_code = MM_UNSUPPORTED_TYPE;
+
+  if (ret_code == 0)
+   ret_code = mm_read_mtx_crd_size(f, M, N, nz);
+
+  if (ret_code == 0) {
+   *I = (int *) malloc(*nz * sizeof(int));
+   *J = (int *) malloc(*nz * sizeof(int));
+   if (mm_is_complex(*matcode))
+    *val = (double *) malloc(*nz * 2 * sizeof(double));
+   else if (!mm_is_pattern(*matcode))
+    *val = (double *) malloc(*nz * sizeof(double));
+   if (*nz > 0 && (*I == NULL || *J == NULL ||
+                   (*val == NULL && !mm_is_pattern(*matcode))))
+    ret_code = MM_COULD_NOT_READ_FILE;
+   else
+    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
+                                    *matcode);
+  }
 
-  if (mm_is_complex(*matcode)) {
-   *val = (double *) malloc(*nz * 2 * sizeof(double));
-   ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
-                                   *matcode);
-   if (ret_code != 0) return ret_code;
-  } else if (mm_is_real(*matcode)) {
-   *val = (double *) malloc(*nz * sizeof(double));
-   ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
-                                   *matcode);
-   if (ret_code != 0) return ret_code;
-  } else if (mm_is_pattern(*matcode)) {
-   ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
-                                   *matcode);
-   if (ret_code != 0) return ret_code;
+  if (ret_code != 0) {
+   free(*I);
+   free(*J);
+   free(*val);
+   *I = *J = NULL;
+   *val = NULL;
   }
 
   if (f != stdin) fclose(f);
-  return 0;
+  return ret_code;
  }
 
  int mm_write_banner(FILE *f, MM_typecode matcode) {
-- 
2.43.0


From ebd3aec859136958d5fa4ce661f10095b4e3569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:30 +0000
Subject: [PATCH 80/95] fix: Matrix Market writers reported failure although
 they had written the line, and leaked the type name

---
 utils/external/mmio.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index f1225d4..de1bf0c 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -174,7 +174,7 @@ namespace sym_lib {
  }
 
  int mm_write_mtx_crd_size(FILE *f, int M, int N, int nz) {
-  if (fprintf(f, "%d %d %d\n", M, N, nz) != 3)
+  if (fprintf(f, "%d %d %d\n", M, N, nz) < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
@@ -246,7 +246,7 @@ namespace sym_lib {
  }
 
  int mm_write_mtx_array_size(FILE *f, int M, int N) {
-  if (fprintf(f, "%d %d\n", M, N) != 2)
+  if (fprintf(f, "%d %d\n", M, N) < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
@@ -394,7 +394,7 @@ namespace sym_lib {
 
   ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
   free(str);
-  if (ret_code != 2)
+  if (ret_code < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
@@ -404,6 +404,7 @@ namespace sym_lib {
                       double val[], MM_typecode matcode) {
   FILE *f;
   int i;
+  char *str;
 
   if (strcmp(fname, "stdout") == 0)
    f = stdout;
@@ -412,7 +413,9 @@ namespace sym_lib {
 
   /* print banner followed by typecode */
   fprintf(f, "%s ", MatrixMarketBanner);
-  fprintf(f, "%s\n", mm_typecode_to_str(matcode));
+  str = mm_typecode_to_str(matcode);
+  fprintf(f, "%s\n", str);
+  free(str);
 
   /* print matrix sizes and nonzeros */
   fprintf(f, "%d %d %d\n", M, N, nz);
@@ -421,7 +424,7 @@ namespace sym_lib {
   if (mm_is_pattern(matcode))
    for (i = 0; i < nz; i++)
     fprintf(f, "%d %d\n", I[i], J[i]);
-  else if (mm_is_real(matcode))
+  else if (mm_is_real(matcode) || mm_is_integer(matcode))
    for (i = 0; i < nz; i++)
     fprintf(f, "%d %d %20.16g\n", I[i], J[i], val[i]);
   else if (mm_is_complex(matcode))
-- 
2.43.0


From 559d8a8a49bcd2d6325f1ddc1ad4d3d94d158ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:30 +0000
Subject: [PATCH 81/95] fix: mm_write_mtx_crd rounded the values it wrote to 16
 digits

---
 utils/external/mmio.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index de1bf0c..90fca17 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -426,10 +426,10 @@ namespace sym_lib {
     fprintf(f, "%d %d\n", I[i], J[i]);
   else if (mm_is_real(matcode) || mm_is_integer(matcode))
    for (i = 0; i < nz; i++)
-    fprintf(f, "%d %d %20.16g\n", I[i], J[i], val[i]);
+    fprintf(f, "%d %d %20.17g\n", I[i], J[i], val[i]);
   else if (mm_is_complex(matcode))
    for (i = 0; i < nz; i++)
-    fprintf(f, "%d %d %20.16g %20.16g\n", I[i], J[i], val[2 * i],
+    fprintf(f, "%d %d %20.17g %20.17g\n", I[i], J[i], val[2 * i],
             val[2 * i + 1]);
   else {
    if (f != stdout) fclose(f);
-- 
2.43.0


From e5b4513e4247978b39456f8ef802dc90428e11b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:30 +0000
Subject: [PATCH 82/95] fix: Matrix Market writers dereferenced an
 uninitialised or null name for an unknown type

---
 utils/external/mmio.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 90fca17..c90e18b 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -392,6 +392,7 @@ namespace sym_lib {
   char *str = mm_typecode_to_str(matcode);
   int ret_code;
 
+  if (str == NULL) return MM_UNSUPPORTED_TYPE;
   ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
   free(str);
   if (ret_code < 0)
@@ -404,16 +405,18 @@ namespace sym_lib {
                       double val[], MM_typecode matcode) {
   FILE *f;
   int i;
-  char *str;
+  char *str = mm_typecode_to_str(matcode);
 
+  if (str == NULL) return MM_UNSUPPORTED_TYPE;
   if (strcmp(fname, "stdout") == 0)
    f = stdout;
-  else if ((f = fopen(fname, "w")) == NULL)
+  else if ((f = fopen(fname, "w")) == NULL) {
+   free(str);
    return MM_COULD_NOT_WRITE_FILE;
+  }
 
   /* print banner followed by typecode */
   fprintf(f, "%s ", MatrixMarketBanner);
-  str = mm_typecode_to_str(matcode);
   fprintf(f, "%s\n", str);
   free(str);
 
@@ -457,13 +460,12 @@ namespace sym_lib {
   char buffer[MM_MAX_LINE_LENGTH];
   char *types[4];
   char *mm_strdup(const char *);
-  int error = 0;
 
   /* check for MTX type */
   if (mm_is_matrix(matcode))
    types[0] = MM_MTX_STR;
   else
-   error = 1;
+   return NULL;
 
   /* check for CRD or ARR matrix */
   if (mm_is_sparse(matcode))
-- 
2.43.0


From 92b5d0651ba57211aa6880f2c9802c5d587290f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:27 +0000
Subject: [PATCH 83/95] fix: level-set builders leaked their work arrays when
 they reported a cycle

---
 src/hdagg/hdagg.cpp        |  7 +++++--
 utils/sparse_inspector.cpp | 13 ++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 8ab509b..bf20b21 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -41,8 +41,11 @@ namespace HDAGG
             }
             cur_level++; //all nodes_ with zero indegree are processed.
             //assert(cur_level < n);
-            if (cur_level > n)
-                return -1; // The input graph has a cycle
+            if (cur_level > n) { // The input graph has a cycle
+                delete[] inDegree;
+                delete[] visited;
+                return -1;
+            }
                 levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
                 while (inDegree[begin] == 1) // Why? Behrooz
                     {
diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 696e439..c19daa6 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -34,8 +34,11 @@ namespace sym_lib {
    }
    cur_level++;//all nodes_ with zero indegree are processed.
    //assert(cur_level < n);
-   if (cur_level > n)
-    return -1; // The input graph has a cycle
+   if (cur_level > n) { // The input graph has a cycle
+    delete[]inDegree;
+    delete[]visited;
+    return -1;
+   }
    levelPtr[cur_level] = cur_levelCol;
    while (inDegree[begin] == 1) {
     begin++;
@@ -989,7 +992,11 @@ namespace sym_lib {
      cur_level++; //all nodes_ with zero indegree are processed.
      //assert(cur_level < n);
      if (cur_level > n)
-       return -1; // The input graph has a cycle
+     { // The input graph has a cycle
+       delete[] inDegree;
+       delete[] visited;
+       return -1;
+     }
      levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
      while (inDegree[begin] == 1) // Why? Behrooz
      {
-- 
2.43.0


From faafb8a2881ee77e6896de904bdd72e65bb45758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:10 +0000
Subject: [PATCH 84/95] fix: transpose_symmetric leaked its result and work
 arrays when it refused a permutation

---
 utils/sparse_utilities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index e83f5b1..67d1510 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -325,6 +325,8 @@ namespace sym_lib {
       for (k = 0; k < n; k++) {
        i = Perm[k];
        if (i < 0 || i >= n || Pinv[i] != EMPTY) {
+        delete F;
+        delete []Iwork;
         return NULLPNTR;
        }
        Pinv[i] = k;
@@ -399,6 +401,8 @@ namespace sym_lib {
       Wi[i] = Fp[i];
      }
      if (p > F->nnz) {
+      delete F;
+      delete []Iwork;
       return NULLPNTR;
      }
 
-- 
2.43.0


From 3dd238d55cc050188419672c9232eace8c7f0537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:36 +0000
Subject: [PATCH 85/95] fix: coarsened levels were packed by stale and partial
 component costs

---
 src/lbc_blocked.cpp |  9 +++++++++
 src/lbc_csc.cpp     |  9 +++++++++
 src/lbc_csc_dag.cpp | 18 ++++++++++++++++++
 src/lbc_tree.cpp    |  1 +
 4 files changed, 37 insertions(+)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 63a6447..0b1320e 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -203,6 +203,15 @@ namespace sym_lib {
      visited[curNode] = false;//Make it ready for mod-BFS
     }
    }
+   for (int i = 0; i < newLeveledParList.size(); ++i) {//cost of each CC
+    outCost[i] = 0;
+    for (int j = 0; j < newLeveledParList[i].size(); ++j) {
+     outCost[i] += nodeCost[newLeveledParList[i][j]];
+    }
+   }
+   for (int i = 0; i < n; ++i) {//the bins are empty
+    newOutCost[i] = 0;
+   }
    //Bin packing and form W-partitions
    int levelParCostThresh = curLeveledParCost / innerParts;
    levelParCostThresh += (0.1 * levelParCostThresh);
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 9d5a4fd..6fc4842 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -202,6 +202,15 @@ namespace sym_lib {
      visited[curNode] = false;//Make it ready for mod-BFS
     }
    }
+   for (int i = 0; i < newLeveledParList.size(); ++i) {//cost of each CC
+    outCost[i] = 0;
+    for (int j = 0; j < newLeveledParList[i].size(); ++j) {
+     outCost[i] += nodeCost[newLeveledParList[i][j]];
+    }
+   }
+   for (int i = 0; i < n; ++i) {//the bins are empty
+    newOutCost[i] = 0;
+   }
    //Bin packing and form W-partitions
    int levelParCostThresh = curLeveledParCost / innerParts;
    levelParCostThresh += int(0.1 * levelParCostThresh);
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index c3ae44a..591da7a 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -152,6 +152,15 @@ void process_l_partition(
    visited[curNode] = false; // Make it ready for mod-BFS
   }
  }
+ for (int i = 0; i < newLeveledParList.size(); ++i) {//cost of each CC
+  outCost[i] = 0;
+  for (int j = 0; j < newLeveledParList[i].size(); ++j) {
+   outCost[i] += nodeCost[newLeveledParList[i][j]];
+  }
+ }
+ for (int i = 0; i < n; ++i) {//the bins are empty
+  newOutCost[i] = 0;
+ }
  // Bin packing and form W-partitions
  int levelParCostThresh = curLeveledParCost / innerParts;
  levelParCostThresh += (0.1 * levelParCostThresh);
@@ -587,6 +596,15 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
     visited[curNode] = false; // Make it ready for mod-BFS
    }
   }
+  for (int i = 0; i < newLeveledParList.size(); ++i) {//cost of each CC
+   outCost[i] = 0;
+   for (int j = 0; j < newLeveledParList[i].size(); ++j) {
+    outCost[i] += nodeCost[newLeveledParList[i][j]];
+   }
+  }
+  for (int i = 0; i < n; ++i) {//the bins are empty
+   newOutCost[i] = 0;
+  }
   // Bin packing and form W-partitions
   int levelParCostThresh = curLeveledParCost / innerParts;
   levelParCostThresh += (0.1 * levelParCostThresh);
diff --git a/src/lbc_tree.cpp b/src/lbc_tree.cpp
index 41ade6b..701ec0a 100644
--- a/src/lbc_tree.cpp
+++ b/src/lbc_tree.cpp
@@ -263,6 +263,7 @@ namespace sym_lib {
    for (int k = 0; k < n; ++k) {
     outNode2Par[k] = 0;
     outCost[k] = 0;
+    newOutCost[k] = 0;
    }
    treeParts = 0;
 //#pragma omp parallel for reduction(+:treeParts)
-- 
2.43.0


From 56cbabba5077b33ff230f6cf4b3693c4d5817e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:36 +0000
Subject: [PATCH 86/95] fix: the last merged level of a hybrid schedule was cut
 into chunks of the merge before it

---
 src/hdagg/hdagg.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index bf20b21..53651e0 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -783,9 +783,7 @@ namespace HDAGG
                     WM_condidate = ub_level;
                     ub_level = std::min(ub_level + 1, nlevels);
                     if(prev_upper_bound == ub_level){
-                        if(iteration_counter == 1){
-                            chunk_sizes[WM.size() - 1] = chunk_array;
-                        }
+                        chunk_sizes[WM.size() - 1] = chunk_array;
                         done_flag = true;
                     }
                     prev_upper_bound = ub_level;
@@ -1000,10 +998,7 @@ namespace HDAGG
                     WM_condidate = ub_level;
                     ub_level = std::min(ub_level + 1, nlevels);
                     if(prev_upper_bound == ub_level){
-                        if(iteration_counter == 1){
-                            chunk_sizes[WM.size() - 1] = chunk_array;
-                            node2partition_accepted = node2partition;
-                        }
+                        chunk_sizes[WM.size() - 1] = chunk_array;
                         done_flag = true;
                     }
                     node2partition_accepted = node2partition;
-- 
2.43.0


From 5ee807ed4942367111a81ad647480d9d45a85292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:36 +0000
Subject: [PATCH 87/95] fix: the wavefront fallback put a whole wavefront into
 one sequential partition

---
 src/hdagg/hdagg.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 53651e0..1e0376e 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2571,14 +2571,16 @@ namespace HDAGG
                           bin_pack, postOrder);
   } else{ // fall back to basic wavefront for very sparse DAGs
    std::vector<int> node_to_level;
-   coarse_part_ptr.resize(n + 1);
+   coarse_level_ptr.resize(n + 1);
    coarse_node_ptr.resize(n);
    node_to_level.resize(n);
-   coarse_level_no = HDAGG::build_levelSet_CSC(n, Lp, Li, coarse_part_ptr.data(),
+   coarse_level_no = HDAGG::build_levelSet_CSC(n, Lp, Li, coarse_level_ptr.data(),
                                                coarse_node_ptr.data(), node_to_level.data());
    coarse_level_ptr.resize( coarse_level_no + 1);
-   for (int i = 0; i < coarse_level_no+1; ++i) {
-    coarse_level_ptr[i] = i;
+   // the iterations of a wavefront are independent: each is a partition
+   coarse_part_ptr.resize(n + 1);
+   for (int i = 0; i < n + 1; ++i) {
+    coarse_part_ptr[i] = i;
    }
   }
   return 1;
-- 
2.43.0


From 886378b57b372ebdf7dd7b74f45551b93833d0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:52 +0000
Subject: [PATCH 88/95] fix: the cost of a coarsened level overflowed int for
 large costs

---
 include/aggregation/lbc_utils.h        |  2 +-
 include/aggregation/sparse_utilities.h |  2 +-
 src/lbc_blocked.cpp                    |  4 ++--
 src/lbc_csc.cpp                        |  6 +++---
 src/lbc_csc_dag.cpp                    | 10 +++++-----
 src/lbc_tree.cpp                       |  4 ++--
 src/lbc_utils.cpp                      |  2 +-
 utils/sparse_utilities.cpp             |  4 ++--
 8 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/aggregation/lbc_utils.h b/include/aggregation/lbc_utils.h
index dd42dea..440c4ec 100644
--- a/include/aggregation/lbc_utils.h
+++ b/include/aggregation/lbc_utils.h
@@ -105,7 +105,7 @@ namespace sym_lib{
  int worst_fit_bin_pack(const std::vector<std::vector<int>> &newLeveledParList,
                      double *inCost,
                      std::vector<std::vector<int>> &mergedLeveledParList,
-                     double *outCost, int costThreshold, int numOfBins);
+                     double *outCost, double costThreshold, int numOfBins);
 
 
  ///
diff --git a/include/aggregation/sparse_utilities.h b/include/aggregation/sparse_utilities.h
index 83aeeb0..acca679 100644
--- a/include/aggregation/sparse_utilities.h
+++ b/include/aggregation/sparse_utilities.h
@@ -307,7 +307,7 @@ namespace sym_lib {
  /// \return
  int post_order_spliting(int inSize, int *inTree, double *inCost,
                          int *inChildPtr, int *inChildNo,//Children list
-                         int *nChild,int n, int partitionNum,
+                         int *nChild, double n, int partitionNum,
    /*Outputs*/
                          int &outSize, double* outCost,
                          int* outNode2Par,
diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 0b1320e..ebb84b9 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -91,7 +91,7 @@ namespace sym_lib {
    int lbLevel = partition2Level[l] - 1;
    int ubLevel = partition2Level[l + 1];
    int dfsLevel = partition2Level[l];
-   int curLeveledParCost = 0;
+   double curLeveledParCost = 0;
    //Marking lower bound
    // FIXME: we might need to do all levels below for general DAG
    for (int j = levelPtr[lbLevel > 0 ? lbLevel : 0];
@@ -213,7 +213,7 @@ namespace sym_lib {
     newOutCost[i] = 0;
    }
    //Bin packing and form W-partitions
-   int levelParCostThresh = curLeveledParCost / innerParts;
+   double levelParCostThresh = curLeveledParCost / innerParts;
    levelParCostThresh += (0.1 * levelParCostThresh);
    int outinnerParts = 0;
    mergedLeveledParList.resize(innerParts);
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 6fc4842..568c57a 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -95,7 +95,7 @@ namespace sym_lib {
    int lbLevel = partition2Level[l] - 1;
    int ubLevel = partition2Level[l + 1];
    int dfsLevel = partition2Level[l];
-   int curLeveledParCost = 0;
+   double curLeveledParCost = 0;
    //Marking lower bound
 
    // FIXME: we might need to do all levels below for general DAG
@@ -212,8 +212,8 @@ namespace sym_lib {
     newOutCost[i] = 0;
    }
    //Bin packing and form W-partitions
-   int levelParCostThresh = curLeveledParCost / innerParts;
-   levelParCostThresh += int(0.1 * levelParCostThresh);
+   double levelParCostThresh = curLeveledParCost / innerParts;
+   levelParCostThresh += (0.1 * levelParCostThresh);
    int outinnerParts = 0;
    averageCC += newLeveledParList.size();
    mergedLeveledParList.resize(innerPartsSize[l]);//FIXME;
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 591da7a..ed13403 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -31,7 +31,7 @@ namespace sym_lib {
 
 int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level,
                 int *levelPtr, int *levelSet, int *node2partition,
-                double *outCost, double *nodeCost, int &curLeveledParCost,
+                double *outCost, double *nodeCost, double &curLeveledParCost,
                 int numNodes, int *nodes, int numThreads) {
 #pragma omp parallel for num_threads(numThreads)
  for (int i = 0; i < numNodes; ++i) {
@@ -103,7 +103,7 @@ void process_l_partition(
  int lbLevel = partition2Level[l] - 1;
  int ubLevel = partition2Level[l + 1];
  int dfsLevel = partition2Level[l];
- int curLeveledParCost = 0;
+ double curLeveledParCost = 0;
  int numNodesAtCurLevel = 0;
 
  // Setting up inDegree and nodes in current level
@@ -162,7 +162,7 @@ void process_l_partition(
   newOutCost[i] = 0;
  }
  // Bin packing and form W-partitions
- int levelParCostThresh = curLeveledParCost / innerParts;
+ double levelParCostThresh = curLeveledParCost / innerParts;
  levelParCostThresh += (0.1 * levelParCostThresh);
  int outinnerParts = 0;
  totalCC += newLeveledParList.size();
@@ -479,7 +479,7 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
   int lbLevel = partition2Level[l] - 1;
   int ubLevel = partition2Level[l + 1];
   int dfsLevel = partition2Level[l];
-  int curLeveledParCost = 0;
+  double curLeveledParCost = 0;
   // Marking lower bound
   // FIXME: we might need to do all levels below for general DAG
   for (int j = levelPtr[lbLevel > 0 ? lbLevel : 0]; j < levelPtr[lbLevel + 1];
@@ -606,7 +606,7 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
    newOutCost[i] = 0;
   }
   // Bin packing and form W-partitions
-  int levelParCostThresh = curLeveledParCost / innerParts;
+  double levelParCostThresh = curLeveledParCost / innerParts;
   levelParCostThresh += (0.1 * levelParCostThresh);
   int outinnerParts = 0;
   averageCC += newLeveledParList.size();
diff --git a/src/lbc_tree.cpp b/src/lbc_tree.cpp
index 701ec0a..4726a83 100644
--- a/src/lbc_tree.cpp
+++ b/src/lbc_tree.cpp
@@ -224,7 +224,7 @@ namespace sym_lib {
 //tt.start_timer();
   for (int l = 0; l < lClusterCnt; ++l) {//for each leveled partition
  //  tt.measure_elapsed_time();
-   int curLeveledParCost = 0;
+   double curLeveledParCost = 0;
    innerParts = innerPartsSize[l];
    //Create tmpTree for the partition l
    for (int i = partition2Level[l]; i < partition2Level[l + 1]; ++i) {
@@ -285,7 +285,7 @@ namespace sym_lib {
    //levelParCostThresh=3*curLeveledParCost;
    innerParts=1;
   }*/
-   int levelParCostThresh = curLeveledParCost / innerParts;
+   double levelParCostThresh = curLeveledParCost / innerParts;
    levelParCostThresh += (0.1 * levelParCostThresh);
    post_order_spliting(n, tmpTree, nodeCost, childPtrSubtree, childNoSubtree,
                      nChildTmp, curLeveledParCost, innerParts,
diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 8084d9b..ecb1b77 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -162,7 +162,7 @@ namespace sym_lib{
  int worst_fit_bin_pack(const std::vector <std::vector<int>> &newLeveledParList,
                         double *inCost,
                         std::vector <std::vector<int>> &mergedLeveledParList,
-                        double *outCost, int costThreshold, int numOfBins) {
+                        double *outCost, double costThreshold, int numOfBins) {
 
   int lClusterCnt = 0;
   int partNo = newLeveledParList.size();
diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 67d1510..15de7d9 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -964,13 +964,13 @@ namespace sym_lib {
 
 int post_order_spliting(int inSize, int *inTree, double *inCost,
                        int *inChildPtr, int *inChildNo,//Children list
-                       int *nChild,int n, int partitionNum,
+                       int *nChild, double n, int partitionNum,
    /*Outputs*/
                        int &outSize, double* outCost,
                        int* outNode2Par, std::vector<std::vector<int>> &parList){
   auto *visited = new bool[inSize]();
   auto *mark = new bool[inSize]();
-  int Threshold, k=0;
+  double Threshold; int k=0;
   Threshold=n/partitionNum;//Almost the same numjber of columns in each partition
   //Threshold=1;
   std::vector<int> stack;
-- 
2.43.0


From fd79ee04d610917bc1a8a17c1f715d4ca72c43bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:00 +0000
Subject: [PATCH 89/95] fix: csc_to_csr dropped the storage type of a symmetric
 matrix

---
 utils/sparse_utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 15de7d9..1c9fbb0 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -64,6 +64,7 @@ namespace sym_lib {
       rowCnt[A->i[i]]++;
 
      CSR *B = new CSR(A->m,A->n,A->nnz,A->is_pattern);
+     B->stype = A->stype;
      int *rowptr = B->p; //new int[nrow + 1]();
      size_t ncol = B->n;
      size_t nrow = B->m;
-- 
2.43.0


From 9ab498bbe599c6b58a8700940f15965139b6413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:05 +0000
Subject: [PATCH 90/95] fix: build_symbolic_simplicial_lfactor freed an array
 with delete

---
 utils/lfactor_creation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/lfactor_creation.cpp b/utils/lfactor_creation.cpp
index 3c50160..a1fd624 100644
--- a/utils/lfactor_creation.cpp
+++ b/utils/lfactor_creation.cpp
@@ -395,7 +395,7 @@ namespace sym_lib{
   At_ord = transpose_symmetric(A, perm_metis);
   A_ord = transpose_symmetric(At_ord, NULLPNTR);
   std::copy(perm_metis,perm_metis+n, perm);
-  delete perm_metis;
+  delete []perm_metis;
   delete A_full;
 #else
   for(int i=0; i<n; i++) perm[i] = i; // no permutation
-- 
2.43.0


From a8bd9a84aa3f041509dd713cbeb17bb11e7287b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:47 +0000
Subject: [PATCH 91/95] fix: a CSC over given arrays left its storage type
 uninitialized

---
 include/aggregation/def.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/aggregation/def.h b/include/aggregation/def.h
index 96d2188..8c91332 100644
--- a/include/aggregation/def.h
+++ b/include/aggregation/def.h
@@ -150,6 +150,7 @@ namespace sym_lib {
    p = Ap;
    i = Ai;
    x = Ax;
+   stype = 0;
   }
 
   CSC(size_t M, size_t N, size_t NNZ, int *Ap, int *Ai, int st) {
-- 
2.43.0


From 4716350b857814aa8b6f2e35296f91f049d33803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:47 +0000
Subject: [PATCH 92/95] fix: convert_to_one_based dropped the storage type

---
 utils/sparse_io.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index f2dfd42..2472665 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -102,6 +102,7 @@ namespace sym_lib {
    A_one->p[k+1] = A->p[k];
   }
   A_one->m--; A_one->n--;
+  A_one->stype = A->stype;
   return A_one;
  }
 
-- 
2.43.0


From 77a100b1415d3b5ed98eb4c24225912caf6a2098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:47 +0000
Subject: [PATCH 93/95] fix: the profiler ignored the requested number of runs
 and printed counters past their end

---
 include/aggregation/Profiler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/aggregation/Profiler.h b/include/aggregation/Profiler.h
index 25167ca..4915060 100644
--- a/include/aggregation/Profiler.h
+++ b/include/aggregation/Profiler.h
@@ -54,6 +54,7 @@ namespace sym_lib{
     auto *pw = new PAPIWrapper(tmp, num_instances_);
     auto *fd = construct_demo(L, L_csc, Lt_csc, A, A_csc, correct_x, name, pw, p1, p2, p3);
     fd->set_num_threads(p1);
+    fd->set_num_test(num_instances_);
     fd->evaluate();
     counter_bundles_.insert(counter_bundles_.end(),pw->counter_bundles_.begin(),
       pw->counter_bundles_.end());
@@ -87,6 +88,7 @@ namespace sym_lib{
       A1_csc, correct_x,
       name, pw, p1, p2, p3);
     fd->set_num_threads(p1);
+    fd->set_num_test(num_instances_);
     fd->evaluate();
     counter_bundles_.insert(counter_bundles_.end(),pw->counter_bundles_.begin(),
                             pw->counter_bundles_.end());
-- 
2.43.0


From 63030fc2aa076b41338c0d4f66e636a531022ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:48 +0000
Subject: [PATCH 94/95] fix: the figures of a profiler without a run were
 uninitialized

---
 include/aggregation/Profiler.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/aggregation/Profiler.h b/include/aggregation/Profiler.h
index 4915060..62d1f5a 100644
--- a/include/aggregation/Profiler.h
+++ b/include/aggregation/Profiler.h
@@ -18,10 +18,10 @@ namespace sym_lib{
   std::vector<EventCounterBundle> counter_bundles_;
   double cost_unit_{};
   double cost_nnz_{};
-  int redundant_nodes_;
-  double redundant_nnz_;
-  double avg_parallelism_, avg_iter_parallelism_;
-  double critical_path_; double max_diff_;
+  int redundant_nodes_{};
+  double redundant_nnz_{};
+  double avg_parallelism_{}, avg_iter_parallelism_{};
+  double critical_path_{}; double max_diff_{};
  protected:
   virtual FusionDemo *construct_demo(CSR *L, CSC* L_csc, CSC *Lt_csc,
     CSR *A, CSC *A_csc,
-- 
2.43.0


From bd955f98166f9343cb4ddfc84ad894d7bcf7a428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:48 +0000
Subject: [PATCH 95/95] fix: a run that could not be measured reported the
 counters of the run before

---
 include/aggregation/PAPIWrapper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aggregation/PAPIWrapper.h b/include/aggregation/PAPIWrapper.h
index b557e5f..e6d70e7 100644
--- a/include/aggregation/PAPIWrapper.h
+++ b/include/aggregation/PAPIWrapper.h
@@ -55,6 +55,8 @@ namespace sym_lib{
   int begin_profiling(){
    event_set_ = PAPI_NULL;
    int retval;
+   for (int i = 0; i < num_events_; ++i)
+    event_counters_[i] = 0;
    if((retval = PAPI_library_init(PAPI_VER_CURRENT)) != PAPI_VER_CURRENT) {
     std::cerr << "PAPI error initializing " << retval << "\n";
     return 0;
@@ -67,8 +69,6 @@ namespace sym_lib{
     std::cerr << "PAPI error adding events " << retval << "\n";
     return 0;
    }
-   for (int i = 0; i < num_events_; ++i)
-    event_counters_[i] = 0;
    if((retval = PAPI_reset(event_set_)) != PAPI_OK)
     std::cerr << "PAPI error " << retval << "\n";
    if((retval = PAPI_start(event_set_)) != PAPI_OK)
-- 
2.43.0

