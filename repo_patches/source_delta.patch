From 4deb5cba4b7903e0075a3301326de61f7f11f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 01/25] sim: VC_SIM_HOOKS may shrink the Monte Carlo point
 clouds (off by default)

---
 src/Meshing/MeshingCommon.h             |  7 +++++++
 src/Meshing/MeshingVoroCrustSampler.cpp | 10 +++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Meshing/MeshingCommon.h b/src/Meshing/MeshingCommon.h
index 0735b7e..6d5b19d 100644
--- a/src/Meshing/MeshingCommon.h
+++ b/src/Meshing/MeshingCommon.h
@@ -80,4 +80,11 @@
 
 extern MeshingConsole vcm_cout;
 
+// Simulation hook: a build with VC_SIM_HOOKS may shrink the Monte Carlo point clouds.
+#if defined VC_SIM_HOOKS
+    extern "C" size_t vc_sim_cloud_size(size_t num_points);
+#else
+    #define vc_sim_cloud_size(num_points) (num_points)
+#endif
+
 #endif // _MESHING_COMMON_H_
diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index eb6b72b..b2a3fc8 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -427,7 +427,7 @@ int MeshingVoroCrustSampler::detect_features_generate_point_clouds_clean(size_t
 		for (size_t iedge = 1; iedge < num_sharp_edges; iedge++) cdf[iedge] += cdf[iedge - 1];
 		for (size_t iedge = 0; iedge < num_sharp_edges; iedge++) cdf[iedge] /= cdf[num_sharp_edges - 1];
 
-		size_t num_mc_points(100000);
+		size_t num_mc_points(vc_sim_cloud_size(100000));
 		for (size_t ipoint = 0; ipoint < num_mc_points; ipoint++)
 		{
 			#pragma region Uniform Sampling of Sharp Edges:
@@ -473,7 +473,7 @@ int MeshingVoroCrustSampler::detect_features_generate_point_clouds_clean(size_t
 		#pragma endregion
 	}
 
-	size_t num_mc_face_points(500000);
+	size_t num_mc_face_points(vc_sim_cloud_size(500000));
 	if (true)
 	{
 		#pragma region Sampling Surface:
@@ -609,7 +609,7 @@ int MeshingVoroCrustSampler::detect_features_generate_point_clouds(size_t num_po
 			surface_point_cloud->add_tree_point(3, dart, face_normal[iface], attrib);
 		}
 
-		size_t num_mc_points(1000000 / num_faces);
+		size_t num_mc_points(vc_sim_cloud_size(1000000) / num_faces);
 		if (num_mc_points > 3)
 		{
 			num_mc_points -= 3;
@@ -633,7 +633,7 @@ int MeshingVoroCrustSampler::detect_features_generate_point_clouds(size_t num_po
 	for (size_t iface = 1; iface < num_faces; iface++) cdf[iface] += cdf[iface - 1];
 	for (size_t iface = 0; iface < num_faces; iface++) cdf[iface] /= cdf[num_faces - 1];
 
-	size_t num_mc_points(1000000);
+	size_t num_mc_points(vc_sim_cloud_size(1000000));
 	double min_feature_size_surface = 10 * sqrt(total_area / num_mc_points);
 	for (size_t ipoint = 0; ipoint < num_mc_points; ipoint++)
 	{
@@ -885,7 +885,7 @@ int MeshingVoroCrustSampler::detect_features_generate_point_clouds(size_t num_po
 		total_length += _geom.distance(3, points[i1], points[i2]);
 	}
 
-	size_t num_edge_points = 100000;
+	size_t num_edge_points = vc_sim_cloud_size(100000);
 	double edge_spacing = total_length / num_edge_points;
 	double min_feature_size_edges = edge_spacing;
 
-- 
2.43.0


From 965a6b05de61ece2b7b990602108ba1123dbba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 02/25] fix: decide inter-thread coverage of surface samples
 after all of them are sized

Each thread read covered_sample[] and the radius new_sphere[][3] of the lower-numbered threads while those
were still writing them, so which samples were kept depended on the interleaving.
---
 src/Meshing/MeshingVoroCrustSampler.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index b2a3fc8..905fdf4 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -2668,15 +2668,6 @@ int MeshingVoroCrustSampler::sample_active_pool(size_t num_samples, size_t num_p
 	for (size_t thread_id = 0; thread_id < _num_threads; thread_id++)
 	{
 #endif
-		if (!covered_sample[thread_id])
-		{
-			for (size_t jthread = 0; jthread < thread_id; jthread++)
-			{
-				if (covered_sample[jthread]) continue;
-				covered_sample[thread_id] = _smethods.point_covered(new_sphere[thread_id], new_sphere[jthread], coverage_radius_ratio);
-				if (covered_sample[thread_id]) break;
-			}
-
 			if (!covered_sample[thread_id])
 			{
 				size_t sphere_face_index = new_sphere_face[thread_id];
@@ -2729,6 +2720,16 @@ int MeshingVoroCrustSampler::sample_active_pool(size_t num_samples, size_t num_p
 
 				new_sphere[thread_id][3] = surf_sz;
 			}
+	}
+
+	// Samples of one batch may cover each other: the first ones are kept. This waits until all of them have been sized,
+	// and goes in thread order, so that the outcome does not depend on how the threads interleave.
+	for (size_t ithread = 1; ithread < _num_threads; ithread++)
+	{
+		for (size_t jthread = 0; jthread < ithread && !covered_sample[ithread]; jthread++)
+		{
+			if (covered_sample[jthread]) continue;
+			covered_sample[ithread] = _smethods.point_covered(new_sphere[ithread], new_sphere[jthread], coverage_radius_ratio);
 		}
 	}
 
-- 
2.43.0


From 892af356b322c644ebeb31ef1b53af626db0a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 03/25] fix: give each thread its own query point when imposing
 Lipschitz continuity

The parallel loop wrote the query point of every sphere into one shared buffer, so a thread could search
around another thread's sphere.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index ab2160c..87c52a5 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -3076,7 +3076,6 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 {
 	#pragma region Impose Lipschitz Continuity:
 	
-	double* x = new double[num_dim];
 	size_t* num_neighbors = new size_t[num_spheres];
 	size_t** neighbors = new size_t*[num_spheres];
 	
@@ -3086,8 +3085,10 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 #endif
 	for (int i = 0; i < num_spheres; i++)
 	{ 
+		double* x = new double[num_dim];
 		for (size_t idim = 0; idim < num_dim; idim++) x[idim] = spheres[i * num_dim + idim];
 		get_tree_points_in_sphere(num_spheres, num_dim, spheres, tree_origin, tree_right, tree_left, x, 2.0 * spheres_sizing[i], num_neighbors[i], neighbors[i]);
+		delete[] x;
 	}
 
 	size_t num_iter(0);
@@ -3123,7 +3124,7 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 	{
 		if (num_neighbors[i] > 0) delete[] neighbors[i];
 	}
-	delete[] neighbors; delete[] num_neighbors; delete[] x;
+	delete[] neighbors; delete[] num_neighbors;
 	return 0;
 	#pragma endregion
 
-- 
2.43.0


From 3ee0d97e2c307e84f804c258badebcf7e90369b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 04/25] fix: count the imposed seeds after the parallel loop

num_valid_seeds was incremented by all threads without synchronization. A lost update made the arrays of
the new seeds too small for the seeds then copied into them.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 87c52a5..4369f91 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -762,7 +762,11 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 		}
 		delete[] x;
 		valid_seed[iseed] = true;
-		num_valid_seeds++;
+	}
+
+	for (size_t iseed = 0; iseed < num_imposed_seeds; iseed++)
+	{
+		if (valid_seed[iseed]) num_valid_seeds++;
 	}
 
 	vcm_cout << "  * Number of imposed seeds " << num_valid_seeds << std::endl;
-- 
2.43.0


From 13a6197738e8c0585c5cb939935b56b3dbe7dd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:24 +0000
Subject: [PATCH 05/25] fix: size the corner-sphere and sizing-point trees by
 their own point counts

Both trees were allocated with the number of surface spheres and overflowed the heap when there were more
corner spheres or sizing points than surface spheres.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 4369f91..5b575b8 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -139,8 +139,8 @@ int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& num_see
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -161,8 +161,8 @@ int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& num_see
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
@@ -537,8 +537,8 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -559,8 +559,8 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
@@ -930,8 +930,8 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -952,8 +952,8 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
-- 
2.43.0


From 3ed33bd5315905cef438c6339e15531b916e51bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 06/25] fix: compare every pair of active front seeds when
 selecting independent ones

The loop bound i - 1 skipped the seed just before, so two neighbouring seeds could both be active and throw
spokes at the same time; their new spheres then contained each other's centers.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 5b575b8..008f392 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -1043,7 +1043,7 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 			size_t si_index = front_indices[i];
 
 			bool good_seed(true);
-			for (size_t j = 0; j < i - 1; j++)
+			for (size_t j = 0; j < i; j++)
 			{
 				if (is_active_seed[j])
 				{
-- 
2.43.0


From 386cbdd39bcf051691d651ace269c61a7e54e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:32 +0000
Subject: [PATCH 07/25] fix: do not assume the parallel team has exactly
 _num_threads members

---
 src/Meshing/MeshingVoroCrustSampler.cpp | 36 ++++++++++++-------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index 905fdf4..9b77f02 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -79,9 +79,9 @@ MeshingVoroCrustSampler::MeshingVoroCrustSampler(size_t num_threads)
 #if defined USE_OPEN_MP
 	vcm_cout << "  * VoroCrust is using " << _num_threads << " / "<< num_available_threads << " available threads!" << std::endl;
 	omp_set_num_threads(int(_num_threads));
-	#pragma omp parallel
+	#pragma omp parallel for
+	for (int thread_id = 0; thread_id < int(_num_threads); thread_id++)
 	{
-		int thread_id = omp_get_thread_num();
 #else
 	for (size_t thread_id = 0; thread_id < _num_threads; thread_id++)
 	{
@@ -1402,9 +1402,9 @@ int MeshingVoroCrustSampler::generate_surface_spheres(size_t num_points, double*
 	
 #if defined USE_OPEN_MP
 	omp_set_num_threads(int(_num_threads));
-	#pragma omp parallel
+	#pragma omp parallel for
+	for (int thread_id = 0; thread_id < int(_num_threads); thread_id++)
 	{
-		int thread_id = omp_get_thread_num();
 #else
 	for (size_t thread_id = 0; thread_id < _num_threads; thread_id++)
 	{
@@ -1609,9 +1609,9 @@ int MeshingVoroCrustSampler::generate_surface_spheres(size_t num_points, double*
 
 #if defined USE_OPEN_MP
 	omp_set_num_threads(int(_num_threads));
-	#pragma omp parallel
+	#pragma omp parallel for
+	for (int thread_id = 0; thread_id < int(_num_threads); thread_id++)
 	{
-	int thread_id = omp_get_thread_num();
 #else
 	for (size_t thread_id = 0; thread_id < _num_threads; thread_id++)
 	{
@@ -2341,9 +2341,9 @@ int MeshingVoroCrustSampler::clear_memory()
 
 #if defined USE_OPEN_MP
 	omp_set_num_threads(int(_num_threads));
-#pragma omp parallel
+#pragma omp parallel for
+	for (int thread_id = 0; thread_id < int(_num_threads); thread_id++)
 	{
-		int thread_id = omp_get_thread_num();
 #else
 	for (size_t thread_id = 0; thread_id < _num_threads; thread_id++)
 	{
@@ -2634,9 +2634,9 @@ int MeshingVoroCrustSampler::sample_active_pool(size_t num_samples, size_t num_p
 	double start_omp(0.0), end_omp(0.0);
 	start_omp = omp_get_wtime();
 	omp_set_num_threads(int(_num_threads));
-	#pragma omp parallel
+	#pragma omp parallel for
+	for (int thread_id = 0; thread_id < int(_num_threads); thread_id++)
 	{
-		int thread_id = omp_get_thread_num();
 #else
 	clock_t start_time, end_time;
 	start_time = clock();
@@ -2659,9 +2659,9 @@ int MeshingVoroCrustSampler::sample_active_pool(size_t num_samples, size_t num_p
 	double start_omp_sz(0.0), end_omp_sz(0.0);
 	start_omp_sz = omp_get_wtime();
 	omp_set_num_threads(int(_num_threads));
-	#pragma omp parallel
+	#pragma omp parallel for
+	for (int thread_id = 0; thread_id < int(_num_threads); thread_id++)
 	{
-		int thread_id = omp_get_thread_num();
 #else
 	clock_t start_time_sz, end_time_sz;
 	start_time_sz = clock();
@@ -2779,9 +2779,9 @@ int MeshingVoroCrustSampler::refine_active_pool(size_t num_points, double** poin
 
 #if defined USE_OPEN_MP
 	omp_set_num_threads(int(_num_threads));
-	#pragma omp parallel
+	#pragma omp parallel for
+	for (int thread_id = 0; thread_id < int(_num_threads); thread_id++)
 	{
-		int thread_id = omp_get_thread_num();
 #else
 	for (size_t thread_id = 0; thread_id < _num_threads; thread_id++)
 	{
@@ -2827,9 +2827,9 @@ int MeshingVoroCrustSampler::refine_active_pool(size_t num_points, double** poin
 
 #if defined USE_OPEN_MP
 		omp_set_num_threads(int(_num_threads));
-		#pragma omp parallel
+		#pragma omp parallel for
+		for (int thread_id = 0; thread_id < int(_num_threads); thread_id++)
 		{
-			int thread_id = omp_get_thread_num();
 #else
 		for (size_t thread_id = 0; thread_id < _num_threads; thread_id++)
 		{
@@ -2860,9 +2860,9 @@ int MeshingVoroCrustSampler::refine_active_pool(size_t num_points, double** poin
 	{
 #if defined USE_OPEN_MP
 		omp_set_num_threads(int(_num_threads));
-		#pragma omp parallel
+		#pragma omp parallel for
+		for (int thread_id = 0; thread_id < int(_num_threads); thread_id++)
 		{
-			int thread_id = omp_get_thread_num();
 #else
 		for (size_t thread_id = 0; thread_id < _num_threads; thread_id++)
 		{
-- 
2.43.0


From ed2a3c7c8c883e2e5e4391807cdf5ac99f213d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 08/25] fix: report failed output writes and never leave a
 partial output file

---
 src/Meshing/MeshingCommon.h          |  1 +
 src/Meshing/MeshingFileIO.h          | 91 ++++++++++++++++++++++++++++
 src/Meshing/MeshingPolyMesh.cpp      |  8 ++-
 src/Meshing/MeshingSmartTree.cpp     |  4 +-
 src/Meshing/MeshingVoronoiMesher.cpp |  8 ++-
 src/Meshing/vc_mesh.cxx              | 14 ++++-
 6 files changed, 119 insertions(+), 7 deletions(-)
 create mode 100644 src/Meshing/MeshingFileIO.h

diff --git a/src/Meshing/MeshingCommon.h b/src/Meshing/MeshingCommon.h
index 6d5b19d..4260500 100644
--- a/src/Meshing/MeshingCommon.h
+++ b/src/Meshing/MeshingCommon.h
@@ -62,6 +62,7 @@
 
 #include "Config.h"
 #include "MeshingConsole.h"
+#include "MeshingFileIO.h"
 
 #if defined USE_OPEN_MP
     #include <omp.h>
diff --git a/src/Meshing/MeshingFileIO.h b/src/Meshing/MeshingFileIO.h
new file mode 100644
index 0000000..de08753
--- /dev/null
+++ b/src/Meshing/MeshingFileIO.h
@@ -0,0 +1,91 @@
+///////////////////////////////////////////////////////////////////////////////////////////////
+//                                VOROCRUST-MESHING 1.0                                      //
+// Copyright 2022 National Technology & Engineering Solutions of Sandia, LLC (NTESS).        //
+// Under the terms of Contract DE-NA0003525 with NTESS, the U.S. Government retains certain  //
+// rights in this software.                                                                  //
+//                                                                                           //
+// Redistribution and use in source and binary forms, with or without modification, are      //
+// permitted provided that the following conditions are met:                                 //  
+//                                                                                           //
+// 1. Redistributions of source code must retain the above copyright notice, this list of    //
+// conditions and the following disclaimer.                                                  //
+//                                                                                           //
+// 2. Redistributions in binary form must reproduce the above copyright notice, this list    //
+// of conditions and the following disclaimer in the // documentation and/or other materials //
+// provided with the distribution.                                                           //
+//                                                                                           //
+// 3. Neither the name of the copyright holder nor the names of its contributors may be      //
+// used to endorse or promote products derived from this software without specific prior     //
+// written permission.                                                                       //
+//-------------------------------------------------------------------------------------------//
+// THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS" AND ANY       //
+// EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE IMPLIED WARRANTIES OF   //
+// MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE//
+// COPYRIGHT HOLDER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, //
+// EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF        //
+// SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION)    //
+// HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR  //
+// TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS        //
+// SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.                              //
+//                                    Author                                                 //
+//                                Mohamed S. Ebeida                                          //
+//                                msebeid@sandia.gov                                         //
+///////////////////////////////////////////////////////////////////////////////////////////////
+//  MeshingFileIO.h                                                                          //
+///////////////////////////////////////////////////////////////////////////////////////////////
+
+#ifndef _MESHING_FILE_IO_H_
+#define _MESHING_FILE_IO_H_
+
+#include <cstdio>
+#include <fstream>
+#include <stdexcept>
+#include <string>
+
+/**
+ * Output file that only appears under its own name once it is complete.
+ *
+ * The data goes to a temporary file next to the requested one. commit() checks that everything
+ * has been written and gives the file its name; it throws otherwise, and the temporary file is
+ * removed. A failed or interrupted run never leaves a partial file under the requested name.
+ */
+class MeshingOutputFile
+{
+public:
+
+	explicit MeshingOutputFile(const std::string& file_name)
+	: _file_name(file_name), _tmp_name(file_name + ".tmp"), _file(_tmp_name.c_str(), std::ios::out)
+	{
+		if (!_file.is_open()) throw std::runtime_error("Failed to open output file " + _file_name);
+	}
+
+	~MeshingOutputFile()
+	{
+		if (!_file.is_open()) return;
+		_file.close();
+		std::remove(_tmp_name.c_str());
+	}
+
+	std::fstream& stream() { return _file; }
+
+	void commit()
+	{
+		_file.close();
+		if (_file.fail() || std::rename(_tmp_name.c_str(), _file_name.c_str()) != 0)
+		{
+			std::remove(_tmp_name.c_str());
+			throw std::runtime_error("Failed to write output file " + _file_name);
+		}
+	}
+
+private:
+
+	MeshingOutputFile(const MeshingOutputFile&);
+	MeshingOutputFile& operator=(const MeshingOutputFile&);
+
+	std::string _file_name;
+	std::string _tmp_name;
+	std::fstream _file;
+};
+
+#endif // _MESHING_FILE_IO_H_
diff --git a/src/Meshing/MeshingPolyMesh.cpp b/src/Meshing/MeshingPolyMesh.cpp
index 94e0272..036099f 100644
--- a/src/Meshing/MeshingPolyMesh.cpp
+++ b/src/Meshing/MeshingPolyMesh.cpp
@@ -337,7 +337,8 @@ int MeshingPolyMesh::save_mesh_obj(std::string file_name, size_t num_points, dou
 {
 	#pragma region Save Triangular mesh:
 
-	std::fstream file(file_name.c_str(), std::ios::out);
+	MeshingOutputFile output(file_name);
+	std::fstream& file = output.stream();
 
 	// Points
 	for (size_t i = 0; i < num_points; i++)
@@ -355,6 +356,7 @@ int MeshingPolyMesh::save_mesh_obj(std::string file_name, size_t num_points, dou
 		file << std::endl;
 
 	}
+	output.commit();
 	return 0;
 	#pragma endregion
 }
@@ -1865,13 +1867,15 @@ int MeshingPolyMesh::adjust_cad_orientation()
 int MeshingPolyMesh::write_spheres_csv(std::string file_name, size_t num_spheres, double** spheres)
 {
 	#pragma region Plot Spheres:
-	std::fstream file(file_name.c_str(), std::ios::out);
+	MeshingOutputFile output(file_name);
+	std::fstream& file = output.stream();
 	// Spheres
 	file << "x coord,y coord,z coord,radius" << std::endl;
 	for (size_t i = 0; i < num_spheres; i++)
 	{
 		file << std::setprecision(12) << spheres[i][0] << ", " << spheres[i][1] << ", " << spheres[i][2] << ", " << spheres[i][3] << std::endl;
 	}
+	output.commit();
 	return 0;
 	#pragma endregion
 }
diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index fbb3e5d..16f6265 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -118,7 +118,8 @@ int MeshingSmartTree::init_random_samplers(size_t num_threads)
 int MeshingSmartTree::save_tree_csv(std::string file_name, size_t num_dim)
 {
 	#pragma region Save tree to CSV file:
-	std::fstream file(file_name.c_str(), std::ios::out);
+	MeshingOutputFile output(file_name);
+	std::fstream& file = output.stream();
 	// Spheres
 	file << "x1coord";
 	for (size_t idim = 1; idim < num_dim; idim++) file << ", x" << idim + 1 << "coord";
@@ -154,6 +155,7 @@ int MeshingSmartTree::save_tree_csv(std::string file_name, size_t num_dim)
 
 		file << std::endl;
 	}
+	output.commit();
 	return 0;
 	#pragma endregion
 }
diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 008f392..d90c05b 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -2486,7 +2486,8 @@ int MeshingVoronoiMesher::save_vcg_file_pflotran(std::string outFile, size_t num
 		#pragma endregion
 	}
 
-	std::fstream file(outFile.c_str(), std::ios::out);
+	MeshingOutputFile output(outFile);
+	std::fstream& file = output.stream();
 	file << "CELLS " << num_meshed_cells << std::endl;
 	double vol(0.0), min_vol(DBL_MAX), max_vol(0.0);
 	for (size_t iseed = 0; iseed < num_seeds; iseed++)
@@ -2557,6 +2558,7 @@ int MeshingVoronoiMesher::save_vcg_file_pflotran(std::string outFile, size_t num
 	vcm_cout << "    Maximum cell connections = " << max_num_connections << std::endl;
 	vcm_cout << "    Average cell connections = " << num_connections / num_meshed_cells << std::endl;
 	delete[] seed_new_index; delete[] face_area_height;
+	output.commit();
 	return 0;
 	#pragma endregion
 }
@@ -2564,7 +2566,8 @@ int MeshingVoronoiMesher::save_vcg_file_pflotran(std::string outFile, size_t num
 int MeshingVoronoiMesher::save_spheres_csv(std::string file_name, size_t num_dim, size_t num_spheres, double* spheres, double* spheres_sizing, size_t* spheres_region_id)
 {
 	#pragma region Save tree to CSV file:
-	std::fstream file(file_name.c_str(), std::ios::out);
+	MeshingOutputFile output(file_name);
+	std::fstream& file = output.stream();
 	// Spheres
 	file << "x1coord";
 	for (size_t idim = 1; idim < num_dim; idim++) file << ", x" << idim + 1 << "coord";
@@ -2588,6 +2591,7 @@ int MeshingVoronoiMesher::save_spheres_csv(std::string file_name, size_t num_dim
 		}
 		file << std::endl;
 	}
+	output.commit();
 	return 0;
 	#pragma endregion
 }
diff --git a/src/Meshing/vc_mesh.cxx b/src/Meshing/vc_mesh.cxx
index 5d2af4a..1c75303 100644
--- a/src/Meshing/vc_mesh.cxx
+++ b/src/Meshing/vc_mesh.cxx
@@ -115,6 +115,8 @@ public:
 
 int main(int argc, char* argv[])
 {
+	int status(0);
+
 	#ifdef USE_KOKKOS
 	Kokkos::initialize(argc, argv);
 	{
@@ -128,7 +130,15 @@ int main(int argc, char* argv[])
 		if( options.get_method() == options.method_type_vc())
 		{
 			MeshingVoroCrust vc(options.get_filename());
-			vc.execute();
+			try
+			{
+				status = vc.execute();
+			}
+			catch (const std::exception& error)
+			{
+				vcm_cout << "\n*** " << error.what() << ", good bye!" << std::endl;
+				status = 1;
+			}
 		}
 		//if ( options.get_method() == options.method_type_smooth() ) {
 		//	vcm_cout << "Triggered path" << std::endl;
@@ -153,6 +163,6 @@ int main(int argc, char* argv[])
 	Kokkos::finalize();
 	#endif // USE_KOKKOS
 
-	return 0;
+	return status;
 }
 
-- 
2.43.0


From 8d651160c07ab8dc2daab8e4a48a9061d24d2f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 09/25] fix: report missing, unreadable and malformed input
 files instead of guessing or waiting on stdin

---
 src/Meshing/MeshingFileIO.h          | 17 +++++++++++++
 src/Meshing/MeshingPolyMesh.cpp      | 17 +++++++++++--
 src/Meshing/MeshingSmartTree.cpp     | 12 ++++++---
 src/Meshing/MeshingVoroCrust.cpp     | 38 ++++++++++++++++++----------
 src/Meshing/MeshingVoronoiMesher.cpp |  9 +++++--
 5 files changed, 72 insertions(+), 21 deletions(-)

diff --git a/src/Meshing/MeshingFileIO.h b/src/Meshing/MeshingFileIO.h
index de08753..af8a0f7 100644
--- a/src/Meshing/MeshingFileIO.h
+++ b/src/Meshing/MeshingFileIO.h
@@ -39,6 +39,7 @@
 
 #include <cstdio>
 #include <fstream>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 
@@ -88,4 +89,20 @@ private:
 	std::fstream _file;
 };
 
+/**
+ * Reports an input file that can not be used. Input is never guessed or silently cut short.
+ */
+inline void require_input(bool condition, const std::string& file_name, const std::string& problem)
+{
+	if (!condition) throw std::runtime_error("Input file " + file_name + ": " + problem);
+}
+
+template<class T>
+T read_number(const std::string& token, const std::string& file_name)
+{
+	std::istringstream i(token); T x;
+	require_input(bool(i >> x), file_name, "malformed number '" + token + "'");
+	return x;
+}
+
 #endif // _MESHING_FILE_IO_H_
diff --git a/src/Meshing/MeshingPolyMesh.cpp b/src/Meshing/MeshingPolyMesh.cpp
index 036099f..6f48399 100644
--- a/src/Meshing/MeshingPolyMesh.cpp
+++ b/src/Meshing/MeshingPolyMesh.cpp
@@ -194,6 +194,7 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 
 	//open file
 	std::ifstream tmpfile(filename.c_str());
+	require_input(tmpfile.is_open(), filename, "failed to open file");
 
 	// count vertices and faces
 	num_points = 0; num_faces = 0;
@@ -213,11 +214,15 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 			if (tokens[0] == "f") num_faces++;
 		}
 	}
+	require_input(!tmpfile.bad(), filename, "failed to read file");
+	require_input(num_points > 0 && num_faces > 0, filename, "no mesh in file");
+	const size_t points_cap(num_points), faces_cap(num_faces);
 
 	points = new double*[num_points];
 	faces = new size_t*[num_faces];
 
 	std::ifstream myfile(filename.c_str());
+	require_input(myfile.is_open(), filename, "failed to open file");
 
 	num_points = 0; num_faces = 0;
 	if (myfile.is_open() && myfile.good())
@@ -234,12 +239,14 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 
 			if (tokens[0] == "v")
 			{
+				require_input(tokens.size() > 3 && num_points < points_cap, filename, "incomplete vertex");
 				points[num_points] = new double[3];
-				for (size_t idim = 0; idim < 3; idim++) points[num_points][idim] = _memo.string_to_double(tokens[1 + idim]);
+				for (size_t idim = 0; idim < 3; idim++) points[num_points][idim] = read_number<double>(tokens[1 + idim], filename);
 				num_points++;
 			}
 			if (tokens[0] == "f")
 			{
+				require_input(tokens.size() > 3 && num_faces < faces_cap, filename, "incomplete face");
 
 				for (size_t i = 1; i <= 3; i++)
 				{
@@ -249,7 +256,12 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 
 				faces[num_faces] = new size_t[4];
 				faces[num_faces][0] = 3;
-				for (size_t i = 1; i <= 3; i++) faces[num_faces][i] = size_t(_memo.string_to_double(tokens[i]) - 1);
+				for (size_t i = 1; i <= 3; i++)
+				{
+					double corner = read_number<double>(tokens[i], filename);
+					require_input(corner >= 1 && corner <= points_cap, filename, "face with an unknown vertex");
+					faces[num_faces][i] = size_t(corner - 1);
+				}
 
 				bool redundant(false);
 				if (false)
@@ -282,6 +294,7 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 			}
 		}
 	}
+	require_input(!myfile.bad() && num_points == points_cap && num_faces == faces_cap, filename, "failed to read file");
 
 	if (false)
 	{
diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index 16f6265..aed1bea 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -243,6 +243,7 @@ int MeshingSmartTree::load_tree_csv(std::string file_name, size_t num_dim)
 
 	//open file
 	std::ifstream tmpfile(file_name.c_str());
+	require_input(tmpfile.is_open(), file_name, "failed to open file");
 
 	if (tmpfile.is_open() && tmpfile.good())
 	{
@@ -268,18 +269,19 @@ int MeshingSmartTree::load_tree_csv(std::string file_name, size_t num_dim)
 				iline++;
 				continue;
 			}
-			if (tokens.size() == 0) continue;
+			if (line.find_first_not_of(" \t\r") == std::string::npos) continue;
+			require_input(tokens.size() >= num_dim && tokens.size() >= num_entries, file_name, "incomplete point");
 
-			for (size_t i = 0; i < num_dim; i++) x[i] = _memo.string_to_double(tokens[i]);
+			for (size_t i = 0; i < num_dim; i++) x[i] = read_number<double>(tokens[i], file_name);
 
 			if (num_entries >= num_dim + _num_dim)
 			{
-				for (size_t i = 0; i < _num_dim; i++) normal[i] = _memo.string_to_double(tokens[num_dim + i]);
+				for (size_t i = 0; i < _num_dim; i++) normal[i] = read_number<double>(tokens[num_dim + i], file_name);
 			}
 
 			if (num_entries > num_dim + _num_dim)
 			{
-				for (size_t i = 0; i < num_attrib; i++) attrib[i] = _memo.string_to_size_t(tokens[num_dim +_num_dim + i]);
+				for (size_t i = 0; i < num_attrib; i++) attrib[i] = read_number<size_t>(tokens[num_dim +_num_dim + i], file_name);
 			}
 			add_tree_point(num_dim, x, normal, attrib);
 			iline++;
@@ -288,6 +290,8 @@ int MeshingSmartTree::load_tree_csv(std::string file_name, size_t num_dim)
 		if (normal != 0) delete[] normal;
 		if (attrib != 0) delete[] attrib;
 	}
+	require_input(!tmpfile.bad(), file_name, "failed to read file");
+	require_input(_num_points > 0, file_name, "no points in file");
 	end_time = clock();
 	cpu_time = ((double)(end_time - start_time)) / CLOCKS_PER_SEC;
 	// vcm_cout << "  * executed in " << cpu_time << " seconds!" << std::endl;
diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 11e4e8a..c5fba33 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -88,13 +88,17 @@ int MeshingVoroCrust::execute()
 
 			if (tokens.size() == 0) continue;
 
+			if (tokens[0] == "INPUT_MESH_FILE" || tokens[0] == "SEEDS_FILE" || tokens[0] == "SIZING_FILE" || tokens[0] == "R_MIN" ||
+			    tokens[0] == "R_MAX" || tokens[0] == "LIP_CONST" || tokens[0] == "VC_ANGLE" || tokens[0] == "NUM_THREADS")
+				require_input(tokens.size() > 2, input_filename, "missing value of " + tokens[0]);
+
 			if (tokens[0] == "INPUT_MESH_FILE") filenames.push_back(tokens[2]);
 			if (tokens[0] == "SIZING_FILE") sizing_file = tokens[2];
-			if (tokens[0] == "R_MIN") r_min = _memo.string_to_double(tokens[2]);
-			if (tokens[0] == "R_MAX") r_max = _memo.string_to_double(tokens[2]);
-			if (tokens[0] == "LIP_CONST") Lip_const = _memo.string_to_double(tokens[2]);
-			if (tokens[0] == "VC_ANGLE") vc_ang_tol = _memo.string_to_double(tokens[2]);
-			if (tokens[0] == "NUM_THREADS") num_threads = int(_memo.string_to_double(tokens[2]));
+			if (tokens[0] == "R_MIN") r_min = read_number<double>(tokens[2], input_filename);
+			if (tokens[0] == "R_MAX") r_max = read_number<double>(tokens[2], input_filename);
+			if (tokens[0] == "LIP_CONST") Lip_const = read_number<double>(tokens[2], input_filename);
+			if (tokens[0] == "VC_ANGLE") vc_ang_tol = read_number<double>(tokens[2], input_filename);
+			if (tokens[0] == "NUM_THREADS") num_threads = int(read_number<double>(tokens[2], input_filename));
 			if (tokens[0] == "GENERATE_VCG_FILE") geneate_vcg_file = true;
             if (tokens[0] == "GENERATE_EXODUS_FILE") generate_exodus_file = true;
 			if (tokens[0] == "GENERATE_MONITORING_POINTS") generate_monitoring_points = true;
@@ -102,12 +106,13 @@ int MeshingVoroCrust::execute()
 			if (tokens[0] == "GENERATE_MESH_FROM_SEEDS")   generate_mesh_from_seeds = true;
 			if (tokens[0] == "SEEDS_FILE") filenames.push_back(tokens[2]);
 		}
+		require_input(!infile.bad(), input_filename, "failed to read file");
+		require_input(filenames.size() > 0, input_filename, "no input mesh or seeds file");
+		require_input(num_threads > 0, input_filename, "NUM_THREADS must be positive");
 	}
 	else
 	{
-		vcm_cout << "\n*** Failed to open input file, good bye!";
-		char ii;
-		std::cin >> ii;
+		vcm_cout << "\n*** Failed to open input file, good bye!" << std::endl;
 		return 1;
 	}
 
@@ -776,6 +781,7 @@ int MeshingVoroCrust::read_seeds_csv(std::string file_name, size_t& num_seeds, d
 	MeshingTimer timer;
 
 	std::ifstream tmpfile(file_name.c_str());
+	require_input(tmpfile.is_open(), file_name, "failed to open file");
 	num_seeds = 0;
 	if (tmpfile.is_open() && tmpfile.good())
 	{
@@ -787,13 +793,17 @@ int MeshingVoroCrust::read_seeds_csv(std::string file_name, size_t& num_seeds, d
 			std::vector<std::string> tokens;
 			get_tokens(line, ',', tokens);
 
-			if (tokens.size() == 0) continue;
+			if (line.find_first_not_of(" \t\r") == std::string::npos) continue;
 
 			num_seeds++;
 		}
 	}
+	require_input(!tmpfile.bad(), file_name, "failed to read file");
+	require_input(num_seeds > 0, file_name, "no seeds in file");
+	const size_t seeds_cap(num_seeds);
 
 	std::ifstream tmpfile_2(file_name.c_str());
+	require_input(tmpfile_2.is_open(), file_name, "failed to open file");
 
 	seeds = new double[num_seeds * 3];
 	seeds_sizing = new double[num_seeds];
@@ -810,14 +820,16 @@ int MeshingVoroCrust::read_seeds_csv(std::string file_name, size_t& num_seeds, d
 			std::vector<std::string> tokens;
 			get_tokens(line, ',', tokens);
 
-			if (tokens.size() == 0) continue;
+			if (line.find_first_not_of(" \t\r") == std::string::npos) continue;
+			require_input(tokens.size() > 4 && num_seeds < seeds_cap, file_name, "incomplete seed");
 
-			for (size_t idim = 0; idim < 3; idim++) seeds[num_seeds * 3 + idim] = _memo.string_to_double(tokens[idim]);
-			seeds_sizing[num_seeds] = _memo.string_to_double(tokens[3]);
-			seeds_region_id[num_seeds] = _memo.string_to_size_t(tokens[4]);
+			for (size_t idim = 0; idim < 3; idim++) seeds[num_seeds * 3 + idim] = read_number<double>(tokens[idim], file_name);
+			seeds_sizing[num_seeds] = read_number<double>(tokens[3], file_name);
+			seeds_region_id[num_seeds] = read_number<size_t>(tokens[4], file_name);
 			num_seeds++;
 		}
 	}
+	require_input(!tmpfile_2.bad() && num_seeds == seeds_cap, file_name, "failed to read file");
 
 	vcm_cout << "  * executed in = " << timer.report_timing() << " seconds! ***" << std::endl;
 	return 0;
diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index d90c05b..ce6a0a4 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -2605,7 +2605,9 @@ int MeshingVoronoiMesher::load_spheres_csv(std::string file_name, size_t num_dim
 
 	//open file
 	std::ifstream tmpfile(file_name.c_str());
+	require_input(tmpfile.is_open(), file_name, "failed to open file");
 
+	size_t num_lines(0);
 	if (tmpfile.is_open() && tmpfile.good())
 	{
 		std::string line = "";
@@ -2615,6 +2617,7 @@ int MeshingVoronoiMesher::load_spheres_csv(std::string file_name, size_t num_dim
 			std::istringstream iss(line);
 			std::vector<std::string> tokens;
 			get_tokens(line, ',', tokens);
+			num_lines++;
 
 			if (iline == 0)
 			{
@@ -2622,9 +2625,10 @@ int MeshingVoronoiMesher::load_spheres_csv(std::string file_name, size_t num_dim
 				continue;
 			}
 			
-			if (tokens.size() <= num_dim) continue;
+			if (line.find_first_not_of(" \t\r") == std::string::npos) continue;
+			require_input(tokens.size() > num_dim, file_name, "incomplete point");
 
-			for (size_t i = 0; i <= num_dim; i++) spheres[num_spheres * (num_dim + 1) + i] = _memo.string_to_double(tokens[i]);
+			for (size_t i = 0; i <= num_dim; i++) spheres[num_spheres * (num_dim + 1) + i] = read_number<double>(tokens[i], file_name);
 			num_spheres++;
 
 			if (num_spheres == cap)
@@ -2638,6 +2642,7 @@ int MeshingVoronoiMesher::load_spheres_csv(std::string file_name, size_t num_dim
 			iline++;
 		}
 	}
+	require_input(!tmpfile.bad() && num_lines > 0, file_name, "failed to read file");
 	return 0;
 	#pragma endregion
 }
-- 
2.43.0


From 8f56b2db5dc110a881ded037cbc49f66e2fcf00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:48 +0000
Subject: [PATCH 10/25] fix: keep the face normals when sharp features are
 detected with R_MIN

---
 src/Meshing/MeshingVoroCrustSampler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index 9b77f02..ad2ee50 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -1060,8 +1060,9 @@ int MeshingVoroCrustSampler::detect_features_generate_point_clouds(size_t num_po
 	}
 	delete[] point_normals; delete[] cap_normals; delete[] num_normals;  delete[] point_visited;
 	delete[] point_on_sharp_corner; delete[] point_on_sharp_edge;
-	for (size_t iface = 0; iface < num_faces; iface++) delete[] face_normal[iface];
-	delete[] face_normal; delete[] corners;
+	_face_normal = face_normal; // the surface sampler needs them
+	_num_faces = num_faces;
+	delete[] corners;
 	delete[] dart; delete[] proj; delete[] tangent;
 
 	end_time = clock();
-- 
2.43.0


From 0df0896f1ed814a7e91873450c7fb455131d33b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 11/25] fix: report a failure while splitting an input line
 into words

---
 src/Meshing/MeshingPolyMesh.cpp  | 2 ++
 src/Meshing/MeshingVoroCrust.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/Meshing/MeshingPolyMesh.cpp b/src/Meshing/MeshingPolyMesh.cpp
index 6f48399..865f9cc 100644
--- a/src/Meshing/MeshingPolyMesh.cpp
+++ b/src/Meshing/MeshingPolyMesh.cpp
@@ -207,6 +207,7 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 			std::vector<std::string> tokens;
 			copy(std::istream_iterator<std::string>(iss), std::istream_iterator<std::string>(),
 				std::back_inserter<std::vector<std::string> >(tokens));
+			require_input(!iss.bad(), filename, "failed to read line");
 
 			if (tokens.size() == 0) continue;
 
@@ -234,6 +235,7 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 			std::vector<std::string> tokens;
 			copy(std::istream_iterator<std::string>(iss), std::istream_iterator<std::string>(),
 				std::back_inserter<std::vector<std::string> >(tokens));
+			require_input(!iss.bad(), filename, "failed to read line");
 
 			if (tokens.size() == 0) continue;
 
diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index c5fba33..d6e24ed 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -85,6 +85,7 @@ int MeshingVoroCrust::execute()
 			std::vector<std::string> tokens;
 			copy(std::istream_iterator<std::string>(iss), std::istream_iterator<std::string>(),
 				std::back_inserter<std::vector<std::string> >(tokens));
+			require_input(!iss.bad(), input_filename, "failed to read line");
 
 			if (tokens.size() == 0) continue;
 
-- 
2.43.0


From c154bd41c6fba0f2799927ed01d96e3071e3e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 12/25] sim: VC_SIM_HOOKS may shrink the batches of interior
 spheres

---
 src/Meshing/MeshingCommon.h          | 4 +++-
 src/Meshing/MeshingVoronoiMesher.cpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/MeshingCommon.h b/src/Meshing/MeshingCommon.h
index 4260500..ecaa4ad 100644
--- a/src/Meshing/MeshingCommon.h
+++ b/src/Meshing/MeshingCommon.h
@@ -81,11 +81,13 @@
 
 extern MeshingConsole vcm_cout;
 
-// Simulation hook: a build with VC_SIM_HOOKS may shrink the Monte Carlo point clouds.
+// Simulation hooks: a build with VC_SIM_HOOKS may shrink the Monte Carlo point clouds and the batches of interior spheres.
 #if defined VC_SIM_HOOKS
     extern "C" size_t vc_sim_cloud_size(size_t num_points);
+    extern "C" size_t vc_sim_batch_size(size_t num_spheres);
 #else
     #define vc_sim_cloud_size(num_points) (num_points)
+    #define vc_sim_batch_size(num_spheres) (num_spheres)
 #endif
 
 #endif // _MESHING_COMMON_H_
diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index ce6a0a4..27ff73a 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -987,7 +987,7 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 
 	double deactivating_time(0.0), spokes_time(0.0), lip_time(0.0), update_seeds_time(0.0);
 	
-	size_t interior_spheres_cap(1000 * num_threads);
+	size_t interior_spheres_cap(vc_sim_batch_size(1000 * num_threads));
 	size_t num_interior_spheres(0);
 	double* interior_spheres = new double[interior_spheres_cap * 4];
 	size_t* interior_spheres_region_id = new size_t[interior_spheres_cap];
-- 
2.43.0


From 6598f38a0b85fe20c5d9d82b8643623afc9d1df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 13/25] fix: walk a Voronoi face to its end when several of its
 corners weld to one vertex

---
 src/Meshing/MeshingVoronoiMesher.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 27ff73a..647ebae 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -1824,8 +1824,6 @@ int MeshingVoronoiMesher::generate_3d_voronoi_mesh(int num_threads, size_t num_s
 					if (vtx_index == face_corners[k]) redundant = true;
 				}
 
-				if (num_face_corners > 2 && vtx_index == face_corners[0]) break;
-
 				if (num_face_corners == 0 || !redundant)
 				{
 					face_corners.push_back(vtx_index);
@@ -1903,8 +1901,6 @@ int MeshingVoronoiMesher::generate_3d_voronoi_mesh(int num_threads, size_t num_s
 					if (vtx_index == face_corners[k]) redundant = true;
 				}
 
-				if (num_face_corners > 2 && vtx_index == face_corners[0]) break;
-
 				if (num_face_corners == 0 || !redundant)
 				{
 					face_corners.push_back(vtx_index);
-- 
2.43.0


From 3b6aa0a789a0f9c36caf90d4b615b278bd4d5fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 14/25] fix: query an empty corner tree safely, a closed sharp
 edge has no corner

---
 src/Meshing/MeshingSmartTree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index aed1bea..8066204 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -697,6 +697,7 @@ int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, size_t num_no
 int MeshingSmartTree::get_closest_non_smooth_tree_edge_point(double* x, double feature_TOL, double smoothness_threshold, size_t &closest_tree_point, double &closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 0;
 	kd_tree_get_closest_non_smooth_edge_seed(x, feature_TOL, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
-- 
2.43.0


From eceac225f0acc3f7f3d8cd52a5feab58a74da971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 15/25] fix: do not skip neighbours because a cell is tiny

The vertices of a cell were trimmed by a neighbour only if the product of
two offsets exceeded 1E-10, an absolute number: a pair of seeds closer
than about 1E-5 never met, and their cells came out open.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 647ebae..ac78854 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -1997,7 +1997,7 @@ int MeshingVoronoiMesher::get_3d_Voronoi_cell(size_t num_seeds, double* seeds, s
 					xy_dot_xy += dxy * dxy;
 					xv_dot_xy += dxy * dxv;
 				}
-				if (xv_dot_xy < 1E-10) continue;
+				if (xv_dot_xy <= 0.0) continue;
 				double lambda = xy_dot_xy / xv_dot_xy;
 				if (lambda < lambda_min)
 				{
-- 
2.43.0


From 3d3e2322a967164de0f1cb4d040fa90268d1a476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 16/25] fix: refuse radii, sizes and a Lipschitz constant that
 are not positive

---
 src/Meshing/MeshingVoroCrust.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index d6e24ed..0598ae4 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -110,6 +110,9 @@ int MeshingVoroCrust::execute()
 		require_input(!infile.bad(), input_filename, "failed to read file");
 		require_input(filenames.size() > 0, input_filename, "no input mesh or seeds file");
 		require_input(num_threads > 0, input_filename, "NUM_THREADS must be positive");
+		require_input(r_max > 0.0, input_filename, "R_MAX must be positive");
+		require_input(r_min >= 0.0 && r_min <= r_max, input_filename, "R_MIN must be between 0 and R_MAX");
+		require_input(Lip_const > 0.0, input_filename, "LIP_CONST must be positive");
 	}
 	else
 	{
@@ -175,6 +178,8 @@ int MeshingVoroCrust::execute()
 	{
 		input_sizing_function = new MeshingSmartTree(3);
 		input_sizing_function->load_tree_csv(sizing_file, 4);
+		for (size_t i = 0; i < input_sizing_function->get_num_tree_points(); i++)
+			require_input(input_sizing_function->get_tree_point(i)[3] > 0.0, sizing_file, "sizes must be positive");
 	}
 
 	size_t num_points(0); double** points(0); size_t num_faces(0); size_t** faces(0);
@@ -429,6 +434,8 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 		timer.start();
 		
 		mesher.load_spheres_csv("monitoring_points.csv", 3, num_imposed_seeds, imposed_seeds);
+		for (size_t i = 0; i < num_imposed_seeds; i++)
+			require_input(imposed_seeds[i * 4 + 3] > 0.0, "monitoring_points.csv", "radii must be positive");
 
 		mesher.impose_interior_seeds(num_seeds, seeds, seeds_sizing, seeds_region_id,
 			                         num_surface_spheres, surface_spheres, surface_spheres_sizing,
-- 
2.43.0


From 542745b50770026c6b3cf94e005dcaba519b087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 17/25] fix: detect sharp edges whatever way the faces of the
 input are oriented

---
 src/Meshing/MeshingVoroCrustSampler.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index ad2ee50..6cc0e29 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -283,13 +283,24 @@ int MeshingVoroCrustSampler::detect_features_generate_point_clouds_clean(size_t
 				else { sharp_edge[0] = icp_index; sharp_edge[1] = ic_index; }
 				_memo.add_entry(sharp_edge, num_sharp_edges, sharp_edges, cap_sharp_edges);
 			}
-			else if (ic_index < icp_index)
+			else
 			{
 				size_t* edge_faces;
 				_mesh.get_edge_faces(ic_index, icp_index, faces, point_faces, edge_faces);
 				size_t fi = edge_faces[1]; size_t fj = edge_faces[2];
 				delete[] edge_faces;
+
+				// Visit the edge once. The two faces need not be oriented alike: if both traverse
+				// the edge in the same direction, their normals are on opposite sides of the surface
+				size_t other_face = (iface == fi) ? fj : fi; bool same_direction(false);
+				for (size_t jc = 1; jc <= 3; jc++)
+				{
+					if (faces[other_face][jc] == ic_index && faces[other_face][jc % 3 + 1] == icp_index) same_direction = true;
+				}
+				if (same_direction ? iface != fi : ic_index > icp_index) continue;
+
 				double cos_ang = _geom.dot_product(3, _face_normal[fi], _face_normal[fj]);
+				if (same_direction) cos_ang = -cos_ang;
 				if (cos_ang < smooth_angle_threshold)
 				{
 					size_t* sharp_edge = new size_t[2];
-- 
2.43.0


From 994465bce01232ef495b095b7bc722ff3f268af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 18/25] fix: stop with an error when the seeds do not enclose a
 volume

---
 src/Meshing/MeshingVoronoiMesher.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index ac78854..7f28bb7 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -36,6 +36,9 @@
 ///////////////////////////////////////////////////////////////////////////////////////////////
 
 #include "MeshingVoronoiMesher.h"
+
+#include <atomic>
+#include <stdexcept>
 #include "MeshingRandomSampler.h"
 
 //RMMTMP
@@ -976,6 +979,7 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 		if (seeds_region_id[i] == 0) continue;
 		num_front_seeds++;
 	}
+	if (num_front_seeds == 0) throw std::runtime_error("no seed is interior: the surface does not enclose a volume");
 	size_t* front_indices = new size_t[num_front_seeds];
 	num_front_seeds = 0;
 	for (size_t i = 0; i < num_seeds; i++)
@@ -1634,13 +1638,17 @@ int MeshingVoronoiMesher::generate_3d_voronoi_mesh(int num_threads, size_t num_s
 	double* seeds_sorted = new double[num_seeds * 3]; size_t* seed_old_index = new size_t[num_seeds]; size_t* seed_new_index = new size_t[num_seeds];
 	re_enumerate_points_for_better_memory_access(num_seeds, 3, seeds, tree_origin, tree_right, tree_left, seeds_sorted, seed_old_index, seed_new_index);
 
-	bool* ghost_seed = new bool[num_seeds];
+	bool* ghost_seed = new bool[num_seeds]; size_t num_interior_seeds(0);
 	for (int iseed = 0; iseed < num_seeds; iseed++)
 	{
 		size_t old_seed_index = seed_old_index[iseed];
 		if (seed_region_id[old_seed_index] == 0) ghost_seed[iseed] = true;
 		else                                     ghost_seed[iseed] = false;
+		if (ghost_seed[iseed]) continue;
+		num_interior_seeds++;
+		if (!(seed_sizing[old_seed_index] > 0.0)) throw std::runtime_error("the radius of an interior seed is not positive");
 	}
+	if (num_interior_seeds == 0) throw std::runtime_error("no seed is interior: the surface does not enclose a volume");
 
 	size_t* num_cell_corners = new size_t[num_seeds];
 	double** cell_corners = new double*[num_seeds];
@@ -1648,6 +1656,7 @@ int MeshingVoronoiMesher::generate_3d_voronoi_mesh(int num_threads, size_t num_s
 	size_t** cell_corner_seeds = new size_t*[num_seeds];
 	size_t** cell_corner_indices = new size_t*[num_seeds]; // seed and local indices
 
+	std::atomic<bool> unbounded_cell(false);
 #if defined USE_OPEN_MP
 	omp_set_num_threads(num_threads);
 #pragma omp parallel for
@@ -1657,10 +1666,12 @@ int MeshingVoronoiMesher::generate_3d_voronoi_mesh(int num_threads, size_t num_s
 		size_t old_seed_index = seed_old_index[iseed];
 		if (seed_region_id[old_seed_index] == 0) continue;
 
-		get_3d_Voronoi_cell(num_seeds, seeds_sorted, tree_origin, tree_right, tree_left, 
+		if (unbounded_cell) continue;
+		int status = get_3d_Voronoi_cell(num_seeds, seeds_sorted, tree_origin, tree_right, tree_left, 
 			               iseed, 2.0 * seed_sizing[old_seed_index], ghost_seed,
 			               num_cell_corners[old_seed_index], cell_corners[old_seed_index], 
 			               cell_corner_neighbors[old_seed_index], cell_corner_seeds[old_seed_index], cell_corner_indices[old_seed_index]);
+		if (status != 0) { unbounded_cell = true; continue; }
 
 		for (size_t icorner = 0; icorner < num_cell_corners[old_seed_index]; icorner++)
 		{
@@ -1671,6 +1682,8 @@ int MeshingVoronoiMesher::generate_3d_voronoi_mesh(int num_threads, size_t num_s
 
 	delete[] ghost_seed; delete[] seeds_sorted; delete[] tree_right; delete[] tree_left;
 	delete[] seed_old_index; delete[] seed_new_index;
+
+	if (unbounded_cell) throw std::runtime_error("the Voronoi cell of an interior seed is unbounded: exterior seeds are missing");
 	
 	for (int iseed = 0; iseed < num_seeds; iseed++)
 	{
@@ -1960,6 +1973,7 @@ int MeshingVoronoiMesher::get_3d_Voronoi_cell(size_t num_seeds, double* seeds, s
 
 	double* xo = new double[3]; double* n = new double[3];
 
+	int status(0); size_t num_rounds_with_all_seeds(0);
 	while (true)
 	{
 		r *= 2.0;
@@ -2100,9 +2114,17 @@ int MeshingVoronoiMesher::get_3d_Voronoi_cell(size_t num_seeds, double* seeds, s
 
 		delete[] local_neighbors; delete[] local_seeds;
 		delete[] cell_corners; delete[] cell_corner_neighbors; delete[] cell_corner_seeds;
+
+		// the cell reaches a million times farther than any other seed
+		if (num_local_neighbors >= num_seeds) num_rounds_with_all_seeds++;
+		if (num_rounds_with_all_seeds > 20)
+		{
+			num_cell_corners = 0; cell_corners = 0; cell_corner_neighbors = 0; cell_corner_seeds = 0; cell_corner_indices = 0;
+			status = 1; break;
+		}
 	}
 	delete[] x;  delete[] xo; delete[] n;
-	return 0;
+	return status;
 	#pragma endregion
 }
 
-- 
2.43.0


From bb8b368f1027882c75b6a8ce3309e6a7daf543ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 19/25] fix: skip a sharp edge sphere that has no neighbour on
 one side

---
 src/Meshing/MeshingVoronoiMesher.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 7f28bb7..f3e1c64 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -211,7 +211,7 @@ int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& num_see
 				                   edge_spheres_tree_origin, edge_spheres_tree_right, edge_spheres_tree_left,
 				                   edge_spheres_new_index[isphere], e_dir, iclosest, hclosest);
 
-			if (iclosest != SIZE_MAX && hclosest < xo[3] + edge_spheres_sizing[edge_spheres_old_index[iclosest]])
+			if (hclosest != DBL_MAX && hclosest < xo[3] + edge_spheres_sizing[edge_spheres_old_index[iclosest]])
 			{
 				size_t jsphere = edge_spheres_old_index[iclosest];
 				xn[0] = edge_spheres[jsphere * 3];
@@ -226,6 +226,8 @@ int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& num_see
 					                   corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left,
 					                   xo, e_dir, iclosest, hclosest);
 
+				if (hclosest == DBL_MAX) continue; // no sphere in that direction
+
 				size_t jsphere = corner_spheres_old_index[iclosest];
 				xn[0] = corner_spheres[jsphere * 3];
 				xn[1] = corner_spheres[jsphere * 3 + 1];
-- 
2.43.0


From 5b8a2480f35097c28b530628da9b2f51053427d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 20/25] fix: size a surface sample before looking for the
 spheres it overlaps

---
 src/Meshing/MeshingVoroCrustSampler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index 6cc0e29..f214c45 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -2713,6 +2713,7 @@ int MeshingVoroCrustSampler::sample_active_pool(size_t num_samples, size_t num_p
 
 				if (num_samples > 0)
 				{
+					new_sphere[thread_id][3] = surf_sz;              // not yet set, or the radius of an older sample
 					size_t num_nearby_spheres_s(0); size_t* nearby_spheres_s(0);
 					_smethods.get_overlapping_spheres(new_sphere[thread_id], surface_spheres, Lip, num_nearby_spheres_s, nearby_spheres_s);
 					for (size_t i = 0; i < num_nearby_spheres_s; i++)
-- 
2.43.0


From b6b7d5cc6f003fd17208a06fd25f9ae85a6d9ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 21/25] fix: synchronise a result file with the disk before it
 gets its name

---
 src/Meshing/MeshingFileIO.h | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/Meshing/MeshingFileIO.h b/src/Meshing/MeshingFileIO.h
index af8a0f7..12930a8 100644
--- a/src/Meshing/MeshingFileIO.h
+++ b/src/Meshing/MeshingFileIO.h
@@ -37,18 +37,25 @@
 #ifndef _MESHING_FILE_IO_H_
 #define _MESHING_FILE_IO_H_
 
+#include <cerrno>
 #include <cstdio>
 #include <fstream>
 #include <sstream>
 #include <stdexcept>
 #include <string>
 
+#if !defined _WIN32
+#include <fcntl.h>
+#include <unistd.h>
+#endif
+
 /**
  * Output file that only appears under its own name once it is complete.
  *
  * The data goes to a temporary file next to the requested one. commit() checks that everything
- * has been written and gives the file its name; it throws otherwise, and the temporary file is
- * removed. A failed or interrupted run never leaves a partial file under the requested name.
+ * has been written and has reached the disk, and gives the file its name; it throws otherwise, and
+ * the temporary file is removed. A failed or interrupted run, or a power loss, never leaves a
+ * partial file under the requested name.
  */
 class MeshingOutputFile
 {
@@ -72,7 +79,7 @@ public:
 	void commit()
 	{
 		_file.close();
-		if (_file.fail() || std::rename(_tmp_name.c_str(), _file_name.c_str()) != 0)
+		if (_file.fail() || !sync() || std::rename(_tmp_name.c_str(), _file_name.c_str()) != 0)
 		{
 			std::remove(_tmp_name.c_str());
 			throw std::runtime_error("Failed to write output file " + _file_name);
@@ -84,6 +91,20 @@ private:
 	MeshingOutputFile(const MeshingOutputFile&);
 	MeshingOutputFile& operator=(const MeshingOutputFile&);
 
+	bool sync()
+	{
+#if !defined _WIN32
+		int fd = ::open(_tmp_name.c_str(), O_RDONLY);
+		if (fd < 0) return false;
+		int rc;
+		do rc = ::fsync(fd); while (rc != 0 && errno == EINTR);
+		bool synced = rc == 0 || errno == EINVAL;        // EINVAL: not a file that can be synchronised
+		return ::close(fd) == 0 && synced;
+#else
+		return true;
+#endif
+	}
+
 	std::string _file_name;
 	std::string _tmp_name;
 	std::fstream _file;
-- 
2.43.0


From f849127e23026ebe9969ec5c9534c5ab7c6df8b3 Mon Sep 17 00:00:00 2001
From: vc <vc@localhost>
Date: Thu, 19 Nov 2026 23:57:36 +0000
Subject: [PATCH 22/25] fix: let the tolerance of cell trimming grow with the
 round-off of its polytope

A polytope a million times larger than its cell, or a model in units of 1e5,
has more round-off than 1e-10: a trimmed corner looked untrimmed, so an
unbounded cell was never refused and large models got open cells.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 12 +++++++-----
 src/Meshing/MeshingVoronoiMesher.h   |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index f3e1c64..3ac3ecf 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -1995,6 +1995,8 @@ int MeshingVoronoiMesher::get_3d_Voronoi_cell(size_t num_seeds, double* seeds, s
 		}
 		
 		size_t corners_cap;
+		// round-off grows with the initial polytope
+		double tol = std::max(1E-10, 1E-14 * 10 * r);
 		construct_initial_polytope(x, 10 * r, num_cell_corners, corners_cap, cell_corners, cell_corner_neighbors, cell_corner_seeds);
 
 		for (size_t icorner = 0; icorner < num_cell_corners; icorner++)
@@ -2035,9 +2037,9 @@ int MeshingVoronoiMesher::get_3d_Voronoi_cell(size_t num_seeds, double* seeds, s
 
 			double xi_dot_n(0.0);
 			for (size_t idim = 0; idim < 3; idim++) xi_dot_n += n[idim] * (cell_corners[icorner * 3 + idim] - xo[idim]);
-			if (xi_dot_n <= 1E-10) continue; // a valid voronoi vertex, accounting for the same round-off error in the trimming method
+			if (xi_dot_n <= tol) continue; // a valid voronoi vertex, accounting for the same round-off error in the trimming method
 
-			trim_vertex(closest_seed, xo, n, icorner, icorner, num_cell_corners, corners_cap, cell_corners, cell_corner_neighbors, cell_corner_seeds);
+			trim_vertex(closest_seed, xo, n, tol, icorner, icorner, num_cell_corners, corners_cap, cell_corners, cell_corner_neighbors, cell_corner_seeds);
 		}
 		
 		double r_v(0.0);
@@ -2183,7 +2185,7 @@ int MeshingVoronoiMesher::construct_initial_polytope(double* x, double r, size_t
 
 
 
-int MeshingVoronoiMesher::trim_vertex(size_t trimming_seed_index, double* xo, double* n, size_t corner_index, size_t old_corner,
+int MeshingVoronoiMesher::trim_vertex(size_t trimming_seed_index, double* xo, double* n, double tol, size_t corner_index, size_t old_corner,
 	                           size_t& num_corners, size_t& corners_cap, double*& corners, size_t*& corners_neighbors, size_t*& corners_seeds)
 {
 	#pragma region Trim Polytope (Recursively):
@@ -2226,9 +2228,9 @@ int MeshingVoronoiMesher::trim_vertex(size_t trimming_seed_index, double* xo, do
 
 		// break that edge
 		corners_neighbors[corner_index * 3 + i] = SIZE_MAX;
-		if (xj_dot_n > 1E-10)
+		if (xj_dot_n > tol)
 		{
-			trim_vertex(trimming_seed_index, xo, n, icorner, corner_index, num_corners, corners_cap, corners, corners_neighbors, corners_seeds);
+			trim_vertex(trimming_seed_index, xo, n, tol, icorner, corner_index, num_corners, corners_cap, corners, corners_neighbors, corners_seeds);
 		}
 		else
 		{
diff --git a/src/Meshing/MeshingVoronoiMesher.h b/src/Meshing/MeshingVoronoiMesher.h
index e53a4fc..a978132 100644
--- a/src/Meshing/MeshingVoronoiMesher.h
+++ b/src/Meshing/MeshingVoronoiMesher.h
@@ -102,7 +102,7 @@ private:
 		                           size_t& num_corners, size_t& corners_cap, double*& corners, size_t*& corners_neighbors, 
 		                           size_t*& corners_seeds);
 
-	int trim_vertex(size_t trimming_seed_index, double* xo, double* n, size_t corner_index, size_t old_corner,
+	int trim_vertex(size_t trimming_seed_index, double* xo, double* n, double tol, size_t corner_index, size_t old_corner,
 		            size_t& num_corners, size_t& corners_cap, double*& corners, size_t*& corners_neighbors, size_t*& corners_seeds);
 
 	
-- 
2.43.0


From 6fd235d54895ef7a03f6b3bd3acf6f51d248bcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:16 +0000
Subject: [PATCH 23/25] fix: recognise collinear sharp edges of large models

The distance of an edge sphere to a collinear edge is round-off; in units of
1e5 it exceeds 1e-10, was taken for a narrow gap, and the sphere shrunk to it,
so that edge spheres were generated for ever.
---
 src/Meshing/MeshingVoroCrustSampler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index f214c45..f11ea9d 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -1335,6 +1335,7 @@ int MeshingVoroCrustSampler::generate_edge_spheres(size_t num_points, double** p
 				double proj_dst(0.0);
 
 				_geom.project_to_3d_line_segment(sphere_i, points[j1], points[j2], proj, proj_dst);
+				if (proj_dst < 1E-10 * sphere_i[3]) continue; // the same line, up to round-off
 
 				for (size_t idim = 0; idim < 3; idim++) tangent[idim] = points[j2][idim] - points[j1][idim];
 				for (size_t idim = 0; idim < 3; idim++) vec[idim] = sphere_i[idim] - proj[idim];
-- 
2.43.0


From 08e7a7bf046cd0f3350354508def06ebaf44d2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:08 +0000
Subject: [PATCH 24/25] fix: report seeds that are still in the mesh as closest
 to the monitoring points

---
 src/Meshing/MeshingVoroCrust.cpp | 49 ++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 0598ae4..7c656ef 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -509,26 +509,6 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 			}
 		}
 
-		for (size_t iseed = 0; iseed < num_imposed_seeds; iseed++)
-		{
-			for (size_t idim = 0; idim < 4; idim++) x[idim] = imposed_seeds[iseed * 4 + idim];
-
-			// find closest point in seeds .. if distance in zero, make sure this sphere has no interior seeds
-			size_t iclosest(SIZE_MAX); double hclosest(DBL_MAX);
-			seeds_tree.get_closest_tree_point(x, iclosest, hclosest);
-
-			if (hclosest < 1E-10)
-				continue;
-			else
-			{
-				for (size_t idim = 0; idim < 3; idim++)
-				{
-					imposed_seeds[iseed * 4 + idim] = seeds[iclosest * 3 + idim];
-				}
-				imposed_seeds[iseed * 4 + 3] = seeds_sizing[iclosest];
-			}
-		}
-
 		if (num_invalidated > 0)
 		{
 			size_t num_valid_seeds = num_seeds - num_invalidated;
@@ -549,7 +529,34 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 			delete[] seeds_sizing; seeds_sizing = tmps;
 			delete[] seeds_region_id; seeds_region_id = tmp_id;
 		}
-		
+
+		double** valid_seeds_ = new double* [num_seeds];
+		for (size_t iseed = 0; iseed < num_seeds; iseed++)
+		{
+			valid_seeds_[iseed] = new double[3];
+			for (size_t idim = 0; idim < 3; idim++) valid_seeds_[iseed][idim] = seeds[iseed * 3 + idim];
+		}
+		MeshingSmartTree valid_seeds_tree(3, num_seeds, valid_seeds_);
+
+		for (size_t iseed = 0; iseed < num_imposed_seeds; iseed++)
+		{
+			for (size_t idim = 0; idim < 4; idim++) x[idim] = imposed_seeds[iseed * 4 + idim];
+
+			// find closest point in seeds that are left
+			size_t iclosest(SIZE_MAX); double hclosest(DBL_MAX);
+			valid_seeds_tree.get_closest_tree_point(x, iclosest, hclosest);
+
+			if (hclosest < 1E-10)
+				continue;
+			else
+			{
+				for (size_t idim = 0; idim < 3; idim++)
+				{
+					imposed_seeds[iseed * 4 + idim] = seeds[iclosest * 3 + idim];
+				}
+				imposed_seeds[iseed * 4 + 3] = seeds_sizing[iclosest];
+			}
+		}
 
 		mesher.save_spheres_csv("monitoring_points_closest_seeds.csv", 3, num_imposed_seeds, imposed_seeds, 0, 0);
 		vcm_cout << "  * Updated monitoring points are saved in monitoring_points_closest_seeds.csv" << std::endl;
-- 
2.43.0


From afbccb6bde961c522208a8d94e41b427d028b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 25/25] sim: VC_SIM_HOOKS may shrink the number of front seeds
 of one round

---
 src/Meshing/MeshingVoronoiMesher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 3ac3ecf..03ec7df 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -1074,7 +1074,7 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 			{
 				is_active_seed[i] = true;
 				num_good_seeds++;
-				if (num_good_seeds == 100 * num_threads) break;
+				if (num_good_seeds == int(vc_sim_batch_size(100 * num_threads))) break;
 			}
 		}
 		delete[] front_spheres;
-- 
2.43.0

