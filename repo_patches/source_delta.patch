From da22dacf38049c8a39b0bb7ae4f74d3b8dd2a49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:14 +0000
Subject: [PATCH 01/27] fix: wrap periodic coordinates more than one lattice
 length below zero

getIndex, getNeighbors and getNeighborDistances map a coordinate onto the
lattice along periodic axes. Negative coordinates were shifted by a single
lattice length only, so anything below -length stayed negative and getIndex
returned the index of an unrelated (or non existent) site.
---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 6cc2787..0f87fb0 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -156,21 +156,21 @@ namespace mythical {
 
     int Cuboid::getXPeriodic_( const int x ) const noexcept{
       if(x<0){
-        return x+length_;
+        return (x % length_ + length_) % length_;
       }
       return x % length_;
     }
 
     int Cuboid::getYPeriodic_( const int y ) const noexcept{
       if(y<0){
-        return y+width_;
+        return (y % width_ + width_) % width_;
       }
       return y % width_;
     }
 
     int Cuboid::getZPeriodic_( const int z ) const noexcept{
       if(z<0){
-        return z+height_;
+        return (z % height_ + height_) % height_;
       }
       return z % height_;
     }
-- 
2.43.0


From 96546a10accf7f864470897e1af1b5d97546a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:46 +0000
Subject: [PATCH 02/27] fix: getSmallestDistance between two sites on a
 periodic lattice

The shortest offset along a periodic axis was stored as if it were an absolute
coordinate, so the result was only right when the first site sat at the origin,
and the z axis used the y coordinates.
---
 .../libmythical/charge_transport/cuboid_lattice.cpp    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 0f87fb0..13a3fd1 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -513,7 +513,7 @@ namespace mythical {
         const int diff1 = abs(x2 - x1 + length_);
         const int diff2 = abs(x2 - x1 - length_);
         const int diff = min(diff1, diff2); 
-        pos_2.at(0) = min(diff,abs(x2 - x1));
+        pos_2.at(0) = x1 + min(diff,abs(x2 - x1));
       }
       const int y1 = pos_1.at(1);
       const int y2 = pos_2.at(1);
@@ -521,15 +521,15 @@ namespace mythical {
         const int diff1 = abs(y2 - y1 + width_);
         const int diff2 = abs(y2 - y1 - width_);
         const int diff = min(diff1, diff2); 
-        pos_2.at(1) = min(diff,abs(y2 - y1));
+        pos_2.at(1) = y1 + min(diff,abs(y2 - y1));
       }
-      const int z1 = pos_1.at(1);
-      const int z2 = pos_2.at(1);
+      const int z1 = pos_1.at(2);
+      const int z2 = pos_2.at(2);
       if ( z_bound_ == BoundarySetting::Periodic ){
         const int diff1 = abs(z2 - z1 + height_);
         const int diff2 = abs(z2 - z1 - height_);
         const int diff = min(diff1, diff2); 
-        pos_2.at(2) = min(diff,abs(z2 - z1));
+        pos_2.at(2) = z1 + min(diff,abs(z2 - z1));
       }
       return getDistance_(pos_1.at(0), pos_1.at(1), pos_1.at(2), pos_2.at(0), pos_2.at(1), pos_2.at(2));
     }
-- 
2.43.0


From bb008707537a8ec0e6edc4c558bde06ada9e434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:31 +0000
Subject: [PATCH 03/27] fix: list each neighbor once, at its smallest distance

When the cutoff reaches around a periodic axis the scan passed over several
images of the same site, so getNeighbors and getNeighborDistances listed it
several times, with distances that are not the smallest. The scan range was
also used unclamped to reserve memory, which overflows for large cutoffs.
---
 .../charge_transport/cuboid_lattice.cpp       | 53 ++++++++++++-------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 13a3fd1..90c781f 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -1,12 +1,29 @@
 
 #include "mythical/charge_transport/cuboid_lattice.hpp"
 
+#include <algorithm>
+#include <cmath>
 #include <iostream>
 #include <string>
 #include <vector>
 #include <stdexcept>
 
 using namespace std;
+namespace {
+
+  // Lattice offsets within reach of a site along one axis. Along a periodic 
+  // axis only the closest image of each site is in the range, along a fixed
+  // axis the range stops at the edge of the lattice.
+  int reachBelow(const int pos, const int reach, const int size, const bool periodic) {
+    return std::min(reach, periodic ? (size-1)/2 : pos);
+  }
+
+  int reachAbove(const int pos, const int reach, const int size, const bool periodic) {
+    return std::min(reach, periodic ? size/2 : size-1-pos);
+  }
+
+}
+
 namespace mythical {
 
   namespace charge_transport {
@@ -101,20 +118,20 @@ namespace mythical {
     std::vector<std::pair<int,double>> Cuboid::getNeighborDistances_(const std::vector<int> pos_i, const double cutoff) const {
 
       // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
+      int num_sites = static_cast<int>(std::floor(std::min(cutoff/inter_site_distance_, static_cast<double>(total_))));  
 
       const int x = pos_i.at(0);
       const int y = pos_i.at(1);
       const int z = pos_i.at(2);
       const int index = getIndex_(x, y, z);
-      const int x_min = pos_i.at(0) - num_sites;
-      const int x_max = pos_i.at(0) + num_sites;
-      const int y_min = pos_i.at(1) - num_sites;
-      const int y_max = pos_i.at(1) + num_sites;
-      const int z_min = pos_i.at(2) - num_sites;
-      const int z_max = pos_i.at(2) + num_sites;
-
-      const int max_num_neigh =2*num_sites*2*num_sites*2*num_sites;
+      const int x_min = x - reachBelow(x, num_sites, length_, isXPeriodic());
+      const int x_max = x + reachAbove(x, num_sites, length_, isXPeriodic());
+      const int y_min = y - reachBelow(y, num_sites, width_, isYPeriodic());
+      const int y_max = y + reachAbove(y, num_sites, width_, isYPeriodic());
+      const int z_min = z - reachBelow(z, num_sites, height_, isZPeriodic());
+      const int z_max = z + reachAbove(z, num_sites, height_, isZPeriodic());
+
+      const int max_num_neigh = (x_max-x_min+1)*(y_max-y_min+1)*(z_max-z_min+1);
       std::vector<std::pair<int,double>> neighbors;
       neighbors.reserve(max_num_neigh);
 
@@ -369,19 +386,19 @@ namespace mythical {
       checkIndex_(index);
       std::vector<int> pos_i = getPosition(index);
       // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
+      int num_sites = static_cast<int>(std::floor(std::min(cutoff/inter_site_distance_, static_cast<double>(total_))));  
 
       const int x = pos_i.at(0);
       const int y = pos_i.at(1);
       const int z = pos_i.at(2);
-      const int x_min = x - num_sites;
-      const int x_max = x + num_sites;
-      const int y_min = y - num_sites;
-      const int y_max = y + num_sites;
-      const int z_min = z - num_sites;
-      const int z_max = z + num_sites;
-
-      const int max_num_neigh = 2*num_sites*2*num_sites*2*num_sites;
+      const int x_min = x - reachBelow(x, num_sites, length_, isXPeriodic());
+      const int x_max = x + reachAbove(x, num_sites, length_, isXPeriodic());
+      const int y_min = y - reachBelow(y, num_sites, width_, isYPeriodic());
+      const int y_max = y + reachAbove(y, num_sites, width_, isYPeriodic());
+      const int z_min = z - reachBelow(z, num_sites, height_, isZPeriodic());
+      const int z_max = z + reachAbove(z, num_sites, height_, isZPeriodic());
+
+      const int max_num_neigh = (x_max-x_min+1)*(y_max-y_min+1)*(z_max-z_min+1);
       std::vector<int> neighbors;
       neighbors.reserve(max_num_neigh);
 
-- 
2.43.0


From 2710d9e447581c6516f613a9b6b4788b587ca9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:34 +0000
Subject: [PATCH 04/27] fix: whole lattice getNeighborDistances misses diagonal
 neighbors

Only the octant of smaller x, y and z was scanned, so pairs whose offsets have
mixed signs, such as (+1,-1,0), were left out, and on small periodic lattices a
farther image could overwrite the distance of the closest one.
---
 .../charge_transport/cuboid_lattice.cpp            | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 90c781f..1663abf 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -459,7 +459,7 @@ namespace mythical {
     std::unordered_map<int, std::unordered_map<int,double>> Cuboid::getNeighborDistances(const double cutoff) const {
 
       // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
+      int num_sites = static_cast<int>(std::floor(std::min(cutoff/inter_site_distance_, static_cast<double>(total_))));  
       
       int total_num_sites = length_*width_*height_;
       // So as not to return redundant info, only provide distance if the 
@@ -473,12 +473,12 @@ namespace mythical {
         const int y = pos_i.at(1);
         const int z = pos_i.at(2);
 
-        const int x_min = x - num_sites;
-        const int x_max = x;
-        const int y_min = y - num_sites;
-        const int y_max = y;
-        const int z_min = z - num_sites;
-        const int z_max = z;
+        const int x_min = x - reachBelow(x, num_sites, length_, isXPeriodic());
+        const int x_max = x + reachAbove(x, num_sites, length_, isXPeriodic());
+        const int y_min = y - reachBelow(y, num_sites, width_, isYPeriodic());
+        const int y_max = y + reachAbove(y, num_sites, width_, isYPeriodic());
+        const int z_min = z - reachBelow(z, num_sites, height_, isZPeriodic());
+        const int z_max = z + reachAbove(z, num_sites, height_, isZPeriodic());
 
         for ( int x_ind = x_min; x_ind <= x_max; ++x_ind ) {
           int x_lattice_pos = x_ind;
-- 
2.43.0


From 53a8fdfae9997ff92586302abd3ba02f75ce7da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:52 +0000
Subject: [PATCH 05/27] fix: getRandomSite rejects planes outside of the
 lattice

No value is both negative and larger than the lattice, so the bounds check never
fired.
---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 1663abf..f0588c0 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -304,7 +304,7 @@ namespace mythical {
       int y_lattice_pos = plane_index;
       int z_lattice_pos = plane_index;
       if ( plane == Plane::YZ ) {
-        if (x_lattice_pos < 0 && x_lattice_pos >= length_ ) {
+        if (x_lattice_pos < 0 || x_lattice_pos >= length_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with x pos " + to_string(plane_index) + " when the x"
             "bounds are 0 to " + to_string(length_-1);
@@ -313,7 +313,7 @@ namespace mythical {
         y_lattice_pos = distribution_y_(generator_);
         z_lattice_pos = distribution_z_(generator_);
       } else if ( plane == Plane::XZ ) {
-        if (y_lattice_pos < 0 && y_lattice_pos >= width_ ) {
+        if (y_lattice_pos < 0 || y_lattice_pos >= width_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with y pos " + to_string(plane_index) + " when the y"
             "bounds are 0 to " + to_string(width_-1);
@@ -322,7 +322,7 @@ namespace mythical {
         x_lattice_pos = distribution_x_(generator_);
         z_lattice_pos = distribution_z_(generator_);
       } else {
-        if (z_lattice_pos < 0 && z_lattice_pos >= height_ ) {
+        if (z_lattice_pos < 0 || z_lattice_pos >= height_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with z pos " + to_string(plane_index) + " when the z"
             "bounds are 0 to " + to_string(height_-1);
-- 
2.43.0


From 823062bacb70e68ac5b0d9dd35cfaccf63959cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:55 +0000
Subject: [PATCH 06/27] fix: getRandomSite draws y from the width when picking
 from an XY plane

---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index f0588c0..3e3efa7 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -329,7 +329,7 @@ namespace mythical {
             throw std::invalid_argument(error_msg);
         }
         x_lattice_pos = distribution_x_(generator_);
-        y_lattice_pos = distribution_z_(generator_);
+        y_lattice_pos = distribution_y_(generator_);
       }
       return getIndex(x_lattice_pos,y_lattice_pos,z_lattice_pos);
     }
-- 
2.43.0


From 9300169e16c6465a95aeb87c73158a1b61626875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:59 +0000
Subject: [PATCH 07/27] fix: reject negative indices in getPosition, getX, getY
 and getZ

---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 3e3efa7..1fe1c17 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -335,7 +335,7 @@ namespace mythical {
     }
 
     std::vector<int> Cuboid::getPosition(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -346,7 +346,7 @@ namespace mythical {
     }
 
     int Cuboid::getX(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -359,7 +359,7 @@ namespace mythical {
     }
 
     int Cuboid::getY(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -372,7 +372,7 @@ namespace mythical {
     }
 
     int Cuboid::getZ(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
-- 
2.43.0


From 9cd3106812b34cec9a7da5c19d8e9fb8f858ee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:22 +0000
Subject: [PATCH 08/27] fix: getRate throws for a rate that has not been added

For a site with other outgoing rates it returned a null pointer and stored it,
and for an unknown site it stored the site before throwing, which turned the
site into a source or hid it as a sink.
---
 CoarseGrainSites/src/libmythical/rate_container.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/rate_container.cpp b/CoarseGrainSites/src/libmythical/rate_container.cpp
index e0f72c4..2c73984 100644
--- a/CoarseGrainSites/src/libmythical/rate_container.cpp
+++ b/CoarseGrainSites/src/libmythical/rate_container.cpp
@@ -31,10 +31,8 @@ namespace mythical {
   }
 
   double * Rate_Container::getRate(int siteId, int neighId) {
-    if(rates_.count(siteId)==0){
-      if(rates_[siteId].count(neighId)==0){
-        throw invalid_argument("Cannot retrieve rate as it has not been added.");
-      }
+    if(rates_.count(siteId)==0 || rates_[siteId].count(neighId)==0){
+      throw invalid_argument("Cannot retrieve rate as it has not been added.");
     }
     return rates_[siteId][neighId];
   }
-- 
2.43.0


From c8ea276171dbb74d7ab8a4798cd06d75e126790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:25 +0000
Subject: [PATCH 09/27] fix: outgoingRateCount no longer stores the site it is
 asked about

Counting the rates out of a sink made it lose its sink status.
---
 CoarseGrainSites/src/libmythical/rate_container.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CoarseGrainSites/src/libmythical/rate_container.cpp b/CoarseGrainSites/src/libmythical/rate_container.cpp
index 2c73984..7ae06cb 100644
--- a/CoarseGrainSites/src/libmythical/rate_container.cpp
+++ b/CoarseGrainSites/src/libmythical/rate_container.cpp
@@ -44,6 +44,7 @@ namespace mythical {
   }
 
   size_t Rate_Container::outgoingRateCount(int siteId) {
+    if(rates_.count(siteId)==0) return 0;
     return rates_[siteId].size();
   }
 
-- 
2.43.0


From c7bbffd3db59e9134eb6398cbac8500134aafba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:28 +0000
Subject: [PATCH 10/27] fix: getSmallestClusterId throws for unknown sites
 instead of storing them

---
 CoarseGrainSites/src/libmythical/site_container.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/site_container.cpp b/CoarseGrainSites/src/libmythical/site_container.cpp
index 0866e21..bc975ad 100644
--- a/CoarseGrainSites/src/libmythical/site_container.cpp
+++ b/CoarseGrainSites/src/libmythical/site_container.cpp
@@ -66,7 +66,7 @@ namespace mythical {
     LOG("Getting the favored cluster Id", 1);
     int favoredClusterId = constants::unassignedId;
     for (auto siteId : siteIds) {
-      int clusterId = sites_[siteId].getClusterId();
+      int clusterId = getClusterIdOfSite(siteId);
       if (favoredClusterId == constants::unassignedId) {
         favoredClusterId = clusterId;
       } else if (clusterId != constants::unassignedId &&
-- 
2.43.0


From 95610b1f328a6cf601e58d475bf69a818fc390d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:47 +0000
Subject: [PATCH 11/27] fix: pickNewSiteId always returns a site when there is
 one to return

The probabilities are summed in floating point and can end up slightly below 1,
a random number above the sum made sites and clusters return -1, which is not a
site id.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 4 ++++
 CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp    | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index c813414..b79eaab 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -438,6 +438,8 @@ int Cluster::pickClusterNeighbor_(const int & walker_id) {
   for (const pair<int,double> & pval : cumulitive_probabilityHopToNeighbor_) {
     if (number < pval.second) return pval.first;
   }
+  // Due to round off the probabilities may add up to slightly less than 1
+  if(!cumulitive_probabilityHopToNeighbor_.empty()) return cumulitive_probabilityHopToNeighbor_.back().first;
   assert("Cummulitive probability distribution is flawed or random "
       "number is greater than 1");
   return -1;
@@ -451,6 +453,8 @@ int Cluster::pickInternalSite_() {
       return pval.first;
     }
   }
+  // Due to round off the probabilities may add up to slightly less than 1
+  if(!cumulitive_probabilityHopToInternalSite_.empty()) return cumulitive_probabilityHopToInternalSite_.back().first;
   assert("cumulitive probability distribution of sites in the cluster "
     "is flawed or random number is greater than 1");
   return -1;
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
index 9c7106e..32da3a1 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
@@ -101,6 +101,8 @@ int Site::pickNewSiteId() {
     threshold += pval.second;
     if (number < threshold) return pval.first;
   }
+  // Due to round off the probabilities may add up to slightly less than 1
+  if(!probabilityHopToNeighbor_.empty()) return probabilityHopToNeighbor_.back().first;
   assert("Error cummulitive probability distribution is flawed or "
       " the random number generator has calculated a value greater than 1, or"
       " the site has no neighbors");
-- 
2.43.0


From 9fa1f701755abbba9bbe13e0c0df2cfe3dd3c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 12/27] fix: a random number of exactly 0 no longer gives an
 infinite dwell time

---
 .../src/libmythical/topologyfeatures/topology_feature.cpp       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp
index 00e5a38..51e11d4 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp
@@ -63,6 +63,8 @@ namespace mythical {
 
   double TopologyFeature::getDwellTime(const int & ){
     double number = random_distribution_(random_engine_);
+    // The distribution includes 0.0, for which the dwell time would be infinite
+    while(number==0.0) number = random_distribution_(random_engine_);
     return (-1.0)*log(number) * escape_time_constant_;
   }
 
-- 
2.43.0


From a7fb5f426a68f07865dca455a0fead125a689875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:25 +0000
Subject: [PATCH 13/27] fix: recalculating a cluster discards its previous hop
 probabilities

The cumulative probabilities used to pick a site were appended to those of the
previous calculation, which come first in the list and already add up to 1: a
cluster that was merged or whose rates changed kept hopping as it did before.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index b79eaab..5a4057d 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -611,6 +611,7 @@ void Cluster::calculateProbabilityHopToInternalSite_() {
         return x.second>y.second;
       });
 
+  cumulitive_probabilityHopToInternalSite_.clear();
   total = 0.0;
   for(pair<int,double> site_and_prob : probabilityHopToInternalSite_){
     site_and_prob.second+=total;
@@ -663,6 +664,7 @@ void Cluster::calculateProbabilityHopToNeighbors_() {
         return x.second>y.second;
       });
 
+  cumulitive_probabilityHopToNeighbor_.clear();
   total = 0.0;
   for(pair<int,double>  site_and_prob : probabilityHopToNeighbor_){
     site_and_prob.second+=total;
-- 
2.43.0


From 799778161fadb25978af725c4b22eea6ec61e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:29 +0000
Subject: [PATCH 14/27] fix: clusters forget the dwell time of walkers removed
 from the system

removeWalkerCluster_ was never registered, a walker that later entered the
cluster under the same id continued with the time left over from the removed
walker.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 5a4057d..d694c05 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -62,6 +62,7 @@ Cluster::Cluster() : TopologyFeature() {
   occupy_siteId_ptr_ = occupyCluster_;
   vacate_siteId_ptr_ = vacateCluster_;
   isOccupied_siteId_ptr_ = isOccupiedCluster_;
+  remove_ptr_ = removeWalkerCluster_;
 
 }
 
-- 
2.43.0


From 2dc215a7d2e107f428897d28e1cc0d2ed5f0ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:33 +0000
Subject: [PATCH 15/27] fix: a cluster is occupied when one of its sites is

Vacating a site decremented the occupation count of the cluster but occupying
one never incremented it, so the count drifted below zero and isOccupied
reported the cluster as free while walkers were on it.
---
 .../src/libmythical/topologyfeatures/cluster.cpp      | 11 ++++++++++-
 .../src/libmythical/topologyfeatures/cluster.hpp      |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index d694c05..854cea0 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -32,6 +32,15 @@ void occupyCluster_(TopologyFeature* feature, const int& siteId){
   site.setToOccupiedStatus(); 
 }
 
+bool isOccupiedCluster_(TopologyFeature* feature){
+  auto cluster = static_cast<Cluster *>(feature);
+  if(cluster->occupied_>0) return true;
+  for(auto & site : cluster->sitesInCluster_){
+    if(site.second.isOccupied()) return true;
+  }
+  return false;
+}
+
 bool isOccupiedCluster_(TopologyFeature* feature,const int& siteId){
   auto cluster = static_cast<Cluster *>(feature);
   assert(cluster->sitesInCluster_.count(siteId));
@@ -41,7 +50,6 @@ bool isOccupiedCluster_(TopologyFeature* feature,const int& siteId){
 void vacateCluster_(TopologyFeature* feature,const int& siteId){
   auto cluster = static_cast<Cluster *>(feature);
   cluster->sitesInCluster_[siteId].vacate();
-  cluster->vacate();
 }
 
 void removeWalkerCluster_(TopologyFeature * feature,const int & walker_id){
@@ -61,6 +69,7 @@ Cluster::Cluster() : TopologyFeature() {
 
   occupy_siteId_ptr_ = occupyCluster_;
   vacate_siteId_ptr_ = vacateCluster_;
+  isOccupied_ptr_ = isOccupiedCluster_;
   isOccupied_siteId_ptr_ = isOccupiedCluster_;
   remove_ptr_ = removeWalkerCluster_;
 
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
index d5b4cb0..72d8b8b 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
@@ -469,6 +469,7 @@ class Cluster : public TopologyFeature {
 
     friend void occupyCluster_(TopologyFeature*,const int&);
     friend void vacateCluster_(TopologyFeature*,const int&);
+    friend bool isOccupiedCluster_(TopologyFeature*);
     friend bool isOccupiedCluster_(TopologyFeature*,const int&);
     friend void removeWalkerCluster_(TopologyFeature *,const int&);
   };
-- 
2.43.0


From b915069977dacbab1fd1ed8992a9c2affce96012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:52 +0000
Subject: [PATCH 16/27] fix: master equation of clusters with one way rates

The probability flowing into a site was taken from the sites it can hop to, by
looking up their rates back to it. Where a rate has no counterpart in the
opposite direction that lookup failed, and the flow along it was left out.
---
 .../src/libmythical/topologyfeatures/cluster.cpp          | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 854cea0..ccf6100 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -352,16 +352,16 @@ void Cluster::iterate_() {
   for (auto site : sitesInCluster_) {
     for (auto neighsite : site.second.getNeighborSiteIds()) {
       if (siteIsInCluster(neighsite)) {
-        temp_probabilityOnSite[site.first] +=
-          sitesInCluster_[neighsite].getProbabilityOfHoppingToNeighboringSite(site.first) *
-          probabilityOnSite_[neighsite];
+        temp_probabilityOnSite[neighsite] +=
+          sitesInCluster_[site.first].getProbabilityOfHoppingToNeighboringSite(neighsite) *
+          probabilityOnSite_[site.first];
       }
       temp_probabilityOnSite[site.first] -=
         sitesInCluster_[site.first].getProbabilityOfHoppingToNeighboringSite(neighsite) *
         probabilityOnSite_[site.first];
     }
-    total += temp_probabilityOnSite[site.first];
   }
+  for (auto & site : temp_probabilityOnSite) total += site.second;
 
   // Combine the former probability with the presently calculated probability
   double total2 = 0.0;
-- 
2.43.0


From bbb807aaeb6b07e90df195d93f3e994f9997ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:56 +0000
Subject: [PATCH 17/27] fix: normalize the probability of hopping between
 internal sites

The loop normalizing probabilityHopBetweenInternalSite_ divided the already
normalized probabilityHopOffInternalSite_ instead, which lengthens the escape
time constant of the cluster.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index ccf6100..728b4ce 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -524,7 +524,7 @@ void Cluster::calculateProbabilityHopBetweenInternalSite_() {
 
   // Normalize
   for(auto site : probabilityHopBetweenInternalSite_){
-    probabilityHopOffInternalSite_[site.first]/=sum_internal;
+    probabilityHopBetweenInternalSite_[site.first]/=sum_internal;
   }
   
 }
-- 
2.43.0


From e19ae6dba02335da49c0b4f35ace125b83bb70d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:41 +0000
Subject: [PATCH 18/27] fix: escape time of clusters with sites that have no
 rate off the cluster

The time a walker spends on the sites it cannot leave the cluster from was left
out of the escape time constant, so walkers left such clusters too early. E.g.
the time was half of what it should be for two sites with equal rates between
them and a rate off of only one of them.
---
 .../src/libmythical/topologyfeatures/cluster.cpp           | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 728b4ce..830dcdd 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -573,12 +573,19 @@ void Cluster::calculateEscapeTimeConstant_() {
   if(getRatesToNeighborsOfCluster_().size()==0){
     escape_time_constant_ = constants::unassigned_value;
   }else{
+    double total_time = 0.0;
+    double time_on_sites_with_rate_off = 0.0;
     for( auto site_prob : probabilityHopOffInternalSite_ ){
       auto rate_off = sumOfEscapeRateFromSiteToNeighbor_[site_prob.first];
+      double time_on_site = probabilityOnSite_[site_prob.first]*sitesInCluster_[site_prob.first].getTimeConstant();
+      total_time += time_on_site;
       if(rate_off>0){
         escape_time_constant_ += 1.0/rate_off *site_prob.second ;
+        time_on_sites_with_rate_off += time_on_site;
       }
     }
+    // Time is also spent on the sites that cannot be escaped from directly
+    escape_time_constant_ *= total_time/time_on_sites_with_rate_off;
   }
   time_increment_ = TopologyFeature::escape_time_constant_/resolution_;
 }
-- 
2.43.0


From 4935d239f8fcdf9885a62a3dd919894cec8d9212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:46 +0000
Subject: [PATCH 19/27] fix: visit frequency of sites in a cluster

The estimated number of visits was a time, it was never divided by the time a
hop takes: with rates given in 1/s it rounds to 0 for any realistic material. It
also counted every stay on the cluster with the full time increment, and lost
the fraction each time it was asked for, so the result depended on how often
getVisitFrequency was called.
---
 .../src/libmythical/topologyfeatures/cluster.cpp    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 830dcdd..a96e329 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -252,12 +252,19 @@ int Cluster::getVisitFrequency(const int & siteId){
 
   if(total_visit_freq_!=prev_total_visit_freq_){
     double difference = total_visit_freq_ - prev_total_visit_freq_; 
+    // Average time a walker stays on the cluster each time it is registered,
+    // it is cut off at the time increment
+    double time_per_visit = escape_time_constant_*(1.0-exp(-1.0/resolution_));
+    // Average time between two hops of a walker within the cluster
+    double time_per_hop = 0.0;
+    for(auto site_prob : probabilityOnSite_){
+      time_per_hop += site_prob.second*sitesInCluster_.at(site_prob.first).getTimeConstant();
+    }
     for(auto site_visit : site_visits_){
       double visits = static_cast<double>(difference)*probabilityOnSite_[site_visit.first]*sitesInCluster_.at(site_visit.first).getTimeConstant();
       visits = visits/internal_dwell_time_.at(site_visit.first);
-      visits = escape_time_constant_*visits;
-      visits = visits/resolution_;
-      site_visits_[site_visit.first] += round(visits);
+      visits = visits*time_per_visit/time_per_hop;
+      site_visits_[site_visit.first] += visits;
     }
     prev_total_visit_freq_ = total_visit_freq_;
   }
-- 
2.43.0


From 9fbb3ed3759f926c297d4c2bf37eaa3647bc2189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:39 +0000
Subject: [PATCH 20/27] fix: initializeWalkers occupies the site of the walker

Where the site belongs to a cluster only the cluster was marked as occupied, not
the site, so another walker could hop onto it.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 5c3693d..9e44ad7 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -165,7 +165,7 @@ namespace mythical {
           "within the rates parameter.";
         throw runtime_error(error_msg);
       }
-      topology_features_[siteId]->occupy();
+      topology_features_[siteId]->occupy(siteId);
 
       auto hopTime = topology_features_[siteId]->getDwellTime(walkers.at(index).first);
       int newId = topology_features_[siteId]->pickNewSiteId(walkers.at(index).first);
-- 
2.43.0


From 68f93103548de90e8406bfe64a9d977b925086ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:40 +0000
Subject: [PATCH 21/27] fix: merging clusters moves all of the sites of the
 merged cluster

Sites of the absorbed cluster that were not part of the basin kept pointing to
it after it was erased, the next hop from or to one of them used freed memory.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 9e44ad7..8cc84fc 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -366,6 +366,11 @@ namespace mythical {
     clusters_->getCluster(favoredClusterId).addSites(isolated_sites);
     clusters_->getCluster(favoredClusterId).updateProbabilitiesAndTimeConstant();
     for(auto clusterId : cluster_ids ){
+      // All the sites of the cluster move, also those outside of the basin
+      for(int siteId : clusters_->getCluster(clusterId).getSiteIdsInCluster()){
+        topology_features_[siteId] = &(clusters_->getCluster(favoredClusterId));
+        sites_->setClusterId(siteId,favoredClusterId);
+      }
       clusters_->getCluster(favoredClusterId).migrateSitesFrom(clusters_->getCluster(clusterId));
       clusters_->erase(clusterId);
     }
-- 
2.43.0


From 084e499f35d8437c7c478f6cc90c5490e4b78b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:42 +0000
Subject: [PATCH 22/27] fix: keep the time increment of merged clusters below
 the time resolution

createCluster_ picks the resolution so that a walker on the cluster is updated
at least once per time resolution. Merging sites or clusters makes the escape
time longer, and with it the time increment, while the resolution stayed the
same.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 8cc84fc..ee02b1c 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -375,6 +375,12 @@ namespace mythical {
       clusters_->erase(clusterId);
     }
 
+    // The escape time has changed, still need at least one update of the 
+    // cluster between two measurements
+    Cluster & cluster = clusters_->getCluster(favoredClusterId);
+    if(cluster.getTimeIncrement()>time_resolution_){
+      cluster.setResolution(cluster.getTimeConstant()/time_resolution_);
+    }
   }
 
   double CoarseGrainSystem::getExternalTimeLimit_(const vector<int> & siteIds ){
-- 
2.43.0


From 7ff3f800e133fcccf41083377ba504c003da4785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:32 +0000
Subject: [PATCH 23/27] fix: updating a cluster takes changed rates into
 account

---
 .../src/libmythical/topologyfeatures/cluster.cpp            | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index a96e329..9220273 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -96,6 +96,12 @@ void Cluster::updateProbabilitiesAndTimeConstant() {
 
   unordered_map<int,int> temporary_visit_frequencies = getVisitFrequencies_();
 
+  // The rates may have been changed since the sites were added
+  for(auto & site : sitesInCluster_){
+    auto neigh_rates = site.second.getNeighborsAndRates();
+    if(!neigh_rates.empty()) site.second.resetNeighRate(*neigh_rates.begin());
+  }
+
   solveMasterEquation_();
   calculateSumOfEscapeRatesFromSitesToTheirNeighbors_();
   calculateSumOfEscapeRatesFromSitesToInternalSites_();
-- 
2.43.0


From 0c09dcfde1b83b46cd27d4f6cd827924fa566310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:58 +0000
Subject: [PATCH 24/27] fix: converge the master equation of clusters with rare
 internal hops

---
 .../libmythical/topologyfeatures/cluster.cpp  | 41 ++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 9220273..48ee132 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -350,7 +350,46 @@ void Cluster::initializeProbabilityOnSites_() {
     probabilityOnSite_[site.first] =
         1.0 / (static_cast<double>(sitesInCluster_.size()));
   }
-  return;
+
+  // If some of the hops within the cluster are much rarer than others the 
+  // iterations hardly change the probabilities long before they have 
+  // converged, so start from the solution for the hops within the cluster. 
+  // It is found by eliminating one site after the other.
+  vector<int> siteIds = getSiteIdsInCluster();
+  size_t size = siteIds.size();
+  vector<vector<double>> hops(size,vector<double>(size,0.0));
+  for (size_t row = 0; row < size; ++row) {
+    Site & site = sitesInCluster_[siteIds.at(row)];
+    for (size_t col = 0; col < size; ++col) {
+      if (site.isNeighbor(siteIds.at(col))) {
+        hops[row][col] = 
+          site.getProbabilityOfHoppingToNeighboringSite(siteIds.at(col));
+      }
+    }
+  }
+  for (size_t last = size; last-- > 1; ) {
+    double sum = 0.0;
+    for (size_t col = 0; col < last; ++col) sum += hops[last][col];
+    if (sum <= 0.0) return;
+    for (size_t row = 0; row < last; ++row) {
+      hops[row][last] /= sum;
+      for (size_t col = 0; col < last; ++col) {
+        hops[row][col] += hops[row][last]*hops[last][col];
+      }
+    }
+  }
+  vector<double> weights(size,0.0);
+  double total = 0.0;
+  for (size_t col = 0; col < size; ++col) {
+    if (col == 0) weights[col] = 1.0;
+    for (size_t row = 0; row < col; ++row) {
+      weights[col] += weights[row]*hops[row][col];
+    }
+    total += weights[col];
+  }
+  for (size_t row = 0; row < size; ++row) {
+    probabilityOnSite_[siteIds.at(row)] = weights[row]/total;
+  }
 }
 
 void Cluster::iterate_() {
-- 
2.43.0


From 4823e76af34c3678573b564e1af7239a4fe5389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:37 +0000
Subject: [PATCH 25/27] fix: distances between sites more than 46340 apart

---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 1fe1c17..65001dd 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -103,16 +103,17 @@ namespace mythical {
     double Cuboid::getDistance_(const int x1, const int y1, const int z1,
         const int x2, const int y2, const int z2) const noexcept {
 
-      int xdiff = x1-x2;
-      int ydiff = y1-y2;
-      int zdiff = z1-z2;
+      // The squares do not fit in an int for sites more than 46340 apart
+      double xdiff = x1-x2;
+      double ydiff = y1-y2;
+      double zdiff = z1-z2;
 
       // Square
       xdiff = xdiff*xdiff;
       ydiff = ydiff*ydiff;
       zdiff = zdiff*zdiff;
       
-      return std::pow(static_cast<double>(xdiff+ydiff+zdiff), 0.5) * inter_site_distance_;
+      return std::pow(xdiff+ydiff+zdiff, 0.5) * inter_site_distance_;
     }
 
     std::vector<std::pair<int,double>> Cuboid::getNeighborDistances_(const std::vector<int> pos_i, const double cutoff) const {
-- 
2.43.0


From a13a1168fe910fc7e3f73d919e23f1d2c3229f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:53 +0000
Subject: [PATCH 26/27] fix: neighbours exactly at the cutoff

The quotient of the cutoff and the lattice spacing can be rounded to just
below a whole number, then the sites exactly at the cutoff along an axis were
not looked at (spacing 1.3, cutoff 9.1).
---
 .../charge_transport/cuboid_lattice.cpp           | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 65001dd..2c980a2 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -118,8 +118,9 @@ namespace mythical {
 
     std::vector<std::pair<int,double>> Cuboid::getNeighborDistances_(const std::vector<int> pos_i, const double cutoff) const {
 
-      // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(std::min(cutoff/inter_site_distance_, static_cast<double>(total_))));  
+      // Calculate the number of sites that will be within the cutoff, plus
+      // one because the division may have been rounded down
+      int num_sites = static_cast<int>(std::floor(std::min(cutoff/inter_site_distance_+1.0, static_cast<double>(total_))));
 
       const int x = pos_i.at(0);
       const int y = pos_i.at(1);
@@ -386,8 +387,9 @@ namespace mythical {
     std::vector<int> Cuboid::getNeighbors(const int index, const double cutoff) const {
       checkIndex_(index);
       std::vector<int> pos_i = getPosition(index);
-      // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(std::min(cutoff/inter_site_distance_, static_cast<double>(total_))));  
+      // Calculate the number of sites that will be within the cutoff, plus
+      // one because the division may have been rounded down
+      int num_sites = static_cast<int>(std::floor(std::min(cutoff/inter_site_distance_+1.0, static_cast<double>(total_))));
 
       const int x = pos_i.at(0);
       const int y = pos_i.at(1);
@@ -459,8 +461,9 @@ namespace mythical {
 
     std::unordered_map<int, std::unordered_map<int,double>> Cuboid::getNeighborDistances(const double cutoff) const {
 
-      // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(std::min(cutoff/inter_site_distance_, static_cast<double>(total_))));  
+      // Calculate the number of sites that will be within the cutoff, plus
+      // one because the division may have been rounded down
+      int num_sites = static_cast<int>(std::floor(std::min(cutoff/inter_site_distance_+1.0, static_cast<double>(total_))));
       
       int total_num_sites = length_*width_*height_;
       // So as not to return redundant info, only provide distance if the 
-- 
2.43.0


From 65364335f7350b9cd3198c563bafe5b703d511db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:03 +0000
Subject: [PATCH 27/27] fix: visit estimates larger than an int

---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp      | 6 +++++-
 .../src/libmythical/topologyfeatures/cluster.cpp            | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index ee02b1c..6a633c8 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -131,7 +131,11 @@ namespace mythical {
     int visits = sites_->getSite(siteId).getVisitFrequency();
     if(sites_->partOfCluster(siteId)){
       int cluster_id = sites_->getClusterIdOfSite(siteId);
-      visits += clusters_->getCluster(cluster_id).getVisitFrequency(siteId);
+      int cluster_visits = clusters_->getCluster(cluster_id).getVisitFrequency(siteId);
+      if(cluster_visits > numeric_limits<int>::max()-visits){
+        return numeric_limits<int>::max();
+      }
+      visits += cluster_visits;
     }
     return visits;
   }
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 48ee132..a5e88c0 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -2,6 +2,7 @@
 #include <algorithm>
 #include <chrono>
 #include <cmath>
+#include <limits>
 #include <random>
 #include <cassert>
 
@@ -276,6 +277,8 @@ int Cluster::getVisitFrequency(const int & siteId){
   }
 
   double visit_count = (site_visits_[siteId]); 
+  // The estimate may exceed what an int can hold
+  if(visit_count > numeric_limits<int>::max()) return numeric_limits<int>::max();
   return static_cast<int>(round(visit_count)); 
 }
 
-- 
2.43.0

