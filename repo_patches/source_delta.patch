From 155501b4639f456a4e037e6e6d9b6fe4eeb9fd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 01/68] fix: map areas access the selected cell instead of its
 successor

next() selects cell counter_-1, but getCell/getValue/setValue used counter_,
skipping the first cell and reading one past the end of the cell list.
---
 include/cslibs_path_planning/common/GridMap2d.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cslibs_path_planning/common/GridMap2d.h b/include/cslibs_path_planning/common/GridMap2d.h
index c4caceb..879e2c6 100644
--- a/include/cslibs_path_planning/common/GridMap2d.h
+++ b/include/cslibs_path_planning/common/GridMap2d.h
@@ -303,8 +303,8 @@ public:
     }
 
     virtual void getCell( int& x, int& y ) const {
-        x = cells_[counter_].first + center_x_;
-        y = cells_[counter_].second + center_y_;
+        x = cells_[counter_ - 1].first + center_x_;
+        y = cells_[counter_ - 1].second + center_y_;
     }
 
     virtual uint8_t getValue() const
@@ -372,7 +372,7 @@ public:
      * @return Previously buffered cell value.
      */
     virtual uint8_t getValue() const {
-        return values_[counter_];
+        return values_[counter_ - 1];
     }
 
     /**
@@ -380,7 +380,7 @@ public:
      * @param value Value of the currently selected cell.
      */
     virtual void setValue( const uint8_t value ) {
-        values_[counter_] = value;
+        values_[counter_ - 1] = value;
     }
 
 protected:
@@ -432,8 +432,8 @@ public:
     }
 
     virtual void getCell( int& x, int& y ) const {
-        x = cells_[counter_].first;
-        y = cells_[counter_].second;
+        x = cells_[counter_ - 1].first;
+        y = cells_[counter_ - 1].second;
     }
 
     virtual uint8_t getValue() const
-- 
2.43.0


From 48c4132eeebcc0519d54b2303617bb7bd9952c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 02/68] fix: SimpleGridMap2d rejects points below the map
 origin

point2cell truncated cell coordinates in (-1,0) to 0 and isInMap(double,double)
had no lower bound, so points outside the map were accepted.
---
 .../common/SimpleGridMap2d.h                  | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/cslibs_path_planning/common/SimpleGridMap2d.h b/include/cslibs_path_planning/common/SimpleGridMap2d.h
index 5ccccf0..94b2bef 100644
--- a/include/cslibs_path_planning/common/SimpleGridMap2d.h
+++ b/include/cslibs_path_planning/common/SimpleGridMap2d.h
@@ -8,6 +8,7 @@
 #define SIMPLEGRIDMAP2D_H
 
 // C/C++
+#include <cmath>
 #include <stdint.h>
 #include <vector>
 
@@ -146,20 +147,18 @@ public:
     }
 
     bool point2cell( const double px, const double py, unsigned int& x, unsigned int& y ) const {
-        x = (unsigned int)((px - origin_.x)/res_);
-        y = (unsigned int)((py - origin_.y)/res_);
+        const double cx = (px - origin_.x)/res_;
+        const double cy = (py - origin_.y)/res_;
+        x = (unsigned int)(int)std::floor(cx);
+        y = (unsigned int)(int)std::floor(cy);
 
-        if ( !isInMap( (int)x, (int)y ))
-            return false;
-        return true;
+        return isCellInMap( cx, cy );
     }
     virtual bool point2cellSubPixel( const double px, const double py, double& x, double& y ) const {
         x = (px - origin_.x)/res_;
         y = (py - origin_.y)/res_;
 
-        if ( !isInMap( (int)x, (int)y ))
-            return false;
-        return true;
+        return isCellInMap( x, y );
     }
 
     void cell2point( const unsigned int x, const unsigned int y, double& px, double& py ) const {
@@ -176,7 +175,7 @@ public:
         { return !(x < 0 || y < 0 || x >= (int)width_ || y >= (int)height_); }
 
     bool isInMap( const double x, const double y ) const
-        { return (x - origin_.x)/res_ < width_ && (y - origin_.y)/res_ < height_; }
+        { return isCellInMap( (x - origin_.x)/res_, (y - origin_.y)/res_ ); }
 
     unsigned char* getData()
     {
@@ -184,6 +183,10 @@ public:
     }
 
 protected:
+    /// Check (continuous) cell coordinates against the map bounds
+    bool isCellInMap( const double x, const double y ) const
+        { return x >= 0 && y >= 0 && x < width_ && y < height_; }
+
     /// Number of cells in x-direction
     unsigned int width_;
 
-- 
2.43.0


From 485adc107172e3fa30d32ca2fbd5c169a6094ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 03/68] fix: RotatedGridMap2d bounds test honours origin,
 resolution and border

isInMap(double,double) ignored origin and resolution and truncated negative
cell coordinates to 0; point2cell accepted points just outside the border.
---
 .../common/RotatedGridMap2d.h                    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cslibs_path_planning/common/RotatedGridMap2d.h b/include/cslibs_path_planning/common/RotatedGridMap2d.h
index 2b64e1a..80f881a 100644
--- a/include/cslibs_path_planning/common/RotatedGridMap2d.h
+++ b/include/cslibs_path_planning/common/RotatedGridMap2d.h
@@ -78,12 +78,12 @@ public:
         double rx = c * nx - s * ny;
         double ry = s * nx + c * ny;
 
-        x = (rx - origin_.x)/res_;
-        y = (ry - origin_.y)/res_;
+        const double cx = (rx - origin_.x)/res_;
+        const double cy = (ry - origin_.y)/res_;
+        x = (unsigned int)(int)std::floor(cx);
+        y = (unsigned int)(int)std::floor(cy);
 
-        if ( !isInMap( (int)x, (int)y ))
-            return false;
-        return true;
+        return isCellInMap( cx, cy );
     }
 
     void cell2point( const unsigned int x, const unsigned int y, double& px, double& py ) const {
@@ -125,10 +125,10 @@ public:
         double nx = x;// - origin_.x;
         double ny = y;// - origin_.y;
         
-        int px = c * nx - s * ny;
-        int py = s * nx + c * ny;
+        double rx = c * nx - s * ny;
+        double ry = s * nx + c * ny;
 
-        return px >= 0 && py >= 0 && px < (int) width_ && py < (int) height_;
+        return isCellInMap( (rx - origin_.x)/res_, (ry - origin_.y)/res_ );
     }
 
     virtual double getRotation() const 
-- 
2.43.0


From b4992ffed2b4f972f25ffbf17a588cd0f06b216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 04/68] fix: CollisionGridMap2d looks up the footprint of the
 queried heading

The heading in radians was used as index into the 128 discretized headings, so
that every query was answered with a footprint of almost zero rotation.
---
 src/common/CollisionGridMap2d.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index 89c8177..a4b63ac 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -17,6 +17,15 @@
 
 using namespace lib_path;
 
+namespace {
+/// index of the discretized heading nearest to t, with t in [0, 2 PI]
+int angleIndex(double t)
+{
+    const int n = CollisionGridMap2d::ANGLE_DISCRETIZATION;
+    return (int) std::round(t / (2 * M_PI) * n) % n;
+}
+}
+
 RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double backward, double width, double theta)
     : parent_(parent), x_(0), y_(0), hw_(width/2.0), init_(false)
 {
@@ -148,7 +157,7 @@ CollisionGridMap2d::CollisionGridMap2d(const unsigned int w, const unsigned int
     : RotatedGridMap2d(w,h, yaw, r)
 {
     for(int t = 0; t< ANGLE_DISCRETIZATION; ++t) {
-        double theta = (2 * M_PI) * (t / (ANGLE_DISCRETIZATION + 1.0));
+        double theta = (2 * M_PI) * (t / (double) ANGLE_DISCRETIZATION);
         double res = getResolution();
 
         areas_[t] = new RobotArea(this, forward / res, backward / res, width / res, theta);
@@ -187,7 +196,7 @@ bool CollisionGridMap2d::isOccupiedRotated(const unsigned int x, const unsigned
     while(t >= 2*M_PI) t -= 2*M_PI;
 
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[angleIndex(t)];
     a->setPosition(x,y);
     bool occ = isAreaOccupied(*a);
     return occ;
@@ -204,7 +213,7 @@ bool CollisionGridMap2d::isFreeRotated(const unsigned int x, const unsigned int
     while(t >= 2*M_PI) t -= 2*M_PI;
 
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[angleIndex(t)];
     a->setPosition(x,y);
     bool free = isAreaFree(*a);
     return free;
@@ -225,7 +234,7 @@ bool CollisionGridMap2d::isNoInformationRotated(const unsigned int x, const unsi
     while(t >= 2*M_PI) t -= 2*M_PI;
 
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[angleIndex(t)];
     a->setPosition(x,y);
     bool no_info = isAreaNoInformation(*a);
     return no_info;
-- 
2.43.0


From b64fa2e25ef0eaaeff422a775d390fe870a21a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 05/68] fix: RobotArea covers the whole footprint rectangle

The right border was traversed against the left one, so that all sampled lines
crossed in the centre and the front and rear of the footprint were not covered;
the number of rows and columns was swapped as well.
---
 src/common/CollisionGridMap2d.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index a4b63ac..0b8986f 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -45,15 +45,15 @@ RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double b
     double m_per_step = width / 8;
 //    double m_per_step = m_per_cell * cell_per_step;
 
-    int steps_row = std::ceil(width / m_per_step);
-    int steps_col = std::ceil((forward - backward) / m_per_step);
+    int steps_row = std::ceil((forward - backward) / m_per_step);
+    int steps_col = std::ceil(width / m_per_step);
     double inc_row = 1.0 / steps_row;
     double inc_col = 1.0 / steps_col;
 
     double i_row = 0.0;
     for(int row = 0; row <= steps_row; ++row) {
         Eigen::Vector2d left = bl + i_row * (fl-bl);
-        Eigen::Vector2d right = fr + i_row * (br-fr);
+        Eigen::Vector2d right = br + i_row * (fr-br);
 
         double i_col = 0.0;
         for(int col = 0; col <= steps_col; ++col) {
-- 
2.43.0


From 356dffdf7a2e672b9432325c51130a79c95ce47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 06/68] fix: RotatedGridMap2d converts points to sub-cell
 coordinates with its rotation

point2cellSubPixel was inherited from the unrotated map and therefore not the
inverse of cell2pointSubPixel.
---
 include/cslibs_path_planning/common/RotatedGridMap2d.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/cslibs_path_planning/common/RotatedGridMap2d.h b/include/cslibs_path_planning/common/RotatedGridMap2d.h
index 80f881a..4f3137b 100644
--- a/include/cslibs_path_planning/common/RotatedGridMap2d.h
+++ b/include/cslibs_path_planning/common/RotatedGridMap2d.h
@@ -86,6 +86,16 @@ public:
         return isCellInMap( cx, cy );
     }
 
+    virtual bool point2cellSubPixel( const double px, const double py, double& x, double& y ) const {
+        double c = std::cos(-yaw_);
+        double s = std::sin(-yaw_);
+
+        x = (c * px - s * py - origin_.x)/res_;
+        y = (s * px + c * py - origin_.y)/res_;
+
+        return isCellInMap( x, y );
+    }
+
     void cell2point( const unsigned int x, const unsigned int y, double& px, double& py ) const {
         double nx = res_*(double)(x+0.5);
         double ny = res_*(double)(y+0.5);
-- 
2.43.0


From f7e919547b73168ef4c9e042418cdf75f7ef472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 07/68] fix: RobotArea samples large footprints without gaps

The sampling distance was an eighth of the footprint width, so single occupied
cells inside footprints wider than about six cells could be missed.
---
 src/common/CollisionGridMap2d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index 0b8986f..2a1d16a 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -42,7 +42,8 @@ RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double b
     Eigen::Vector2d bl = rot * bl_;
 
 //    double m_per_cell = parent->getResolution();
-    double m_per_step = width / 8;
+    // sample at least every half cell, otherwise cells of the footprint are skipped
+    double m_per_step = std::min(width / 8, 0.5);
 //    double m_per_step = m_per_cell * cell_per_step;
 
     int steps_row = std::ceil((forward - backward) / m_per_step);
-- 
2.43.0


From 9d547c3756094ac563e069c215497f5f5f9409de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 08/68] fix: AStar reallocates its nodes when a map was resized
 in place

setNewMap compared the new map with the current one; handing over the same,
resized map object kept the node list of the old size.
---
 include/cslibs_path_planning/a_star/AStar.h |  3 +++
 src/a_star/AStar.cpp                        | 10 +++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/a_star/AStar.h b/include/cslibs_path_planning/a_star/AStar.h
index 475fd7e..3fa14a8 100644
--- a/include/cslibs_path_planning/a_star/AStar.h
+++ b/include/cslibs_path_planning/a_star/AStar.h
@@ -102,6 +102,9 @@ private:
 	unsigned char getMapValue(const waypoint_t& waypoint);
 
 	OpenList* mNodesList;
+	/// Map size the node list was created for
+	unsigned int mListWidth;
+	unsigned int mListHeight;
 	static const int mNeighborCount = 8;
 	neighbor_t mNeighbors[mNeighborCount];
     GridMap2d* mMap;
diff --git a/src/a_star/AStar.cpp b/src/a_star/AStar.cpp
index f8f3ed4..bdac799 100644
--- a/src/a_star/AStar.cpp
+++ b/src/a_star/AStar.cpp
@@ -41,7 +41,8 @@ AStar::~AStar() {
 
 void AStar::setNewMap( GridMap2d* map ) {
     // Check if there is an existing map
-    if ( mMap != NULL && ( mMap->getWidth() != map->getWidth() || mMap->getHeight() != map->getHeight() )) {
+    // (compare with the size of the node list, the current map may have been resized in place)
+    if ( mNodesList != NULL && ( mListWidth != map->getWidth() || mListHeight != map->getHeight() )) {
         cout << "AStar: Warning: Set map with new size. This takes some computation time." << endl;
         delete mNodesList;
         mNodesList = NULL;
@@ -49,8 +50,11 @@ void AStar::setNewMap( GridMap2d* map ) {
     mMap = map;
 
     // Create node list only if necessary
-    if ( mNodesList == NULL )
-        mNodesList = new OpenList( mMap->getWidth(), mMap->getHeight());
+    if ( mNodesList == NULL ) {
+        mListWidth = mMap->getWidth();
+        mListHeight = mMap->getHeight();
+        mNodesList = new OpenList( mListWidth, mListHeight );
+    }
 }
 
 bool AStar::planPath( const waypoint_t &start, const waypoint_t &goal ) {
-- 
2.43.0


From 05d226ef40c005d626ff2fd34bb10e283f94efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 09/68] fix: CentroidRadiusGoalRegion gain is 1 for the direct
 approach and 2 at most

The gain was computed from the number of the next sample: the direct approach
did not get the smallest gain and a single sample got a gain of 3.
---
 src/sampling/CentroidRadiusGoalRegion.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sampling/CentroidRadiusGoalRegion.cpp b/src/sampling/CentroidRadiusGoalRegion.cpp
index 4a370d4..d82f609 100644
--- a/src/sampling/CentroidRadiusGoalRegion.cpp
+++ b/src/sampling/CentroidRadiusGoalRegion.cpp
@@ -52,13 +52,14 @@ bool CentroidRadiusGoalRegion::getNextGoal (Pose2d &goal, double& gain)
   goal.y = center_.y - radius_ * sin (theta_);
   goal.theta = theta_;
 
+  // Direct approach 1.0 -> approach from max angle 2.0
+  gain = 1.0;
+  if (samples_num_ > 1)
+    gain += fabs (2.0*counter_ / (samples_num_-1) - 1.0);
+
   counter_++;
   theta_ = MathHelper::AngleClamp (theta_ + theta_step_);
 
-  // Direct approach 1.0 -> approach from max angle 2.0
-  int32_t diff = (int32_t)(counter_ - (samples_num_/2));
-  gain = 1.0 + 2.0*abs (diff) / samples_num_;
-
   return true;
 }
 
-- 
2.43.0


From 364bfa88375a2ec446cb1a37ceff2775b55e6bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 10/68] fix: RingGoalRegion sets the gain of its samples

The output parameter was left as it was, i.e. uninitialised for most callers.
---
 src/sampling/RingGoalRegion.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sampling/RingGoalRegion.cpp b/src/sampling/RingGoalRegion.cpp
index 4a6913f..e269c59 100644
--- a/src/sampling/RingGoalRegion.cpp
+++ b/src/sampling/RingGoalRegion.cpp
@@ -55,6 +55,7 @@ bool RingGoalRegion::getNextGoal(Pose2d &goal, double& gain)
     goal.theta =alpha+(direction_-0.5)*M_PI;
     goal.theta=MathHelper::AngleClamp(goal.theta);
     std::cout << "r="<<r <<" x="<<goal.x << " y="<<goal.y << " theta="<<goal.theta*180.0/M_PI<<"deg"<<std::endl;
+    gain=1.0;
     ++counter_;
     return true;
   }
-- 
2.43.0


From 2eb708c8bb4d2acabe66de9cf2565e91cc59ffd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 11/68] fix: every search starts from fresh nodes

---
 .../cslibs_path_planning/generic/SearchAlgorithm.hpp  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 35c1668..3ace469 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -125,11 +125,12 @@ public:
 
 public:
     GenericSearchAlgorithm()
-        : heuristic_goal(NULL), has_cost_(false), expansions(0), multi_expansions(0), touched(0), updates(0), time_limit_(-1.0)
+        : heuristic_goal(NULL), map_used_(false), has_cost_(false), expansions(0), multi_expansions(0), touched(0), updates(0), time_limit_(-1.0)
     {}
 
     virtual void setMap(const MapT* map) {
         map_.setMap(map);
+        map_used_ = false;
         NeighborhoodType::setResolution(map->getResolution());
     }
 
@@ -447,6 +448,12 @@ protected:
 
     void init()
     {
+        // the nodes still carry distances and marks if the map was searched before
+        if(map_used_) {
+            map_.initMap(false);
+        }
+        map_used_ = true;
+
         expansions = 0;
         multi_expansions = 0;
         updates = 0;
@@ -725,6 +732,8 @@ protected:
 
     const PointT* heuristic_goal;
 
+    bool map_used_;
+
     bool use_candidates;
     std::priority_queue<GoalCandidate, std::vector<GoalCandidate>, PairDistance> goal_candidates;
     double first_candidate_weight;
-- 
2.43.0


From 97b2f8434f1ddebc8703d9c98e2accb9a2f564c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 12/68] fix: searches use the resolution of their own map

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 3ace469..1b668ad 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -454,6 +454,9 @@ protected:
         }
         map_used_ = true;
 
+        // the neighborhood's resolution is shared with planners on other maps
+        NeighborhoodType::setResolution(map_.getResolution());
+
         expansions = 0;
         multi_expansions = 0;
         updates = 0;
-- 
2.43.0


From e33a28d797d0db3cedb07ceba37240d503278404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 13/68] fix: forget the heuristic goal of an earlier goal test

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 1b668ad..4cdbd29 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -468,6 +468,7 @@ protected:
 
         start.clear();
         goal.clear();
+        heuristic_goal = NULL;
     }
 
     void initStartPose(const PointT& pose)
-- 
2.43.0


From bf64803853a5497625bc62eb444efe6d542ef0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 14/68] fix: analytic expansion can start at the start node

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 4cdbd29..dbc2c06 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -587,10 +587,8 @@ protected:
                 PathT expansion;
                 AnalyticExpansionType::getPath(&expansion);
 
-                NodeT tmp = *current;
-                tmp.theta = expansion.begin()->theta;
-
-                PathT path = backtrack(&tmp);
+                PathT path = backtrack(current);
+                path.back().theta = expansion.begin()->theta;
                 path.insert(path.end(), expansion.begin(), expansion.end());
                 result = path;
                 return true;
-- 
2.43.0


From 801f9deea970a31faab8b0bfc7603ec705450c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 15/68] fix: count the touched nodes per search

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index dbc2c06..1d3067e 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -459,6 +459,7 @@ protected:
 
         expansions = 0;
         multi_expansions = 0;
+        touched = 0;
         updates = 0;
 
         result = {};
-- 
2.43.0


From d18f13cda5d6fb4224c545b3957e065896214c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 16/68] fix: GridMapManager rejects negative positions

---
 include/cslibs_path_planning/generic/MapManager.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 718b50e..a1e47ae 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -201,12 +201,7 @@ struct GridMapManager :
 
     template <class PointT>
     NodeType* lookup(const PointT& reference) const {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
-        if((x < 0) || (y < 0) || (x >= w) || (y >= h)) {
-            throw OutsideMapException();
-        }
-        return &data[index(x,y)];
+        return lookup((int) std::floor(reference.x), (int) std::floor(reference.y));
     }
 
     NodeType* lookup(const int x, const int y) const {
-- 
2.43.0


From 3894fe2d61c74a50bd4f8ea69c42a09f6a4a1753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 17/68] fix: DynamicDirectionalStateSpaceManager finds the
 chunk of cells at -32

---
 include/cslibs_path_planning/generic/MapManager.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index a1e47ae..66c285d 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -605,13 +605,12 @@ public:
         if((x < -padding) || (y < -padding) || (x >= (int) (w + padding)) || (y >= (int) (h + padding)) || (t < 0) || (t >= theta_slots)) {
             throw OutsideMapException();
         }
-        int cx = (x / (int) chunk_size);
-        if(x < 0) cx -= 1;
-        int cy = (y / (int) chunk_size);
-        if(y < 0) cy -= 1;
+        // round towards negative infinity
+        int cxp = (x + padding) / (int) chunk_size;
+        int cyp = (y + padding) / (int) chunk_size;
 
-        int cxp = cx + padding_chunks;
-        int cyp = cy + padding_chunks;
+        int cx = cxp - padding_chunks;
+        int cy = cyp - padding_chunks;
 
 
         Chunk* chunk = chunks.at(cyp * chunks_w + cxp);
-- 
2.43.0


From 74064f54822c7e4a916a3b6f538fd547db2f3e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 18/68] fix: DynamicDirectionalStateSpaceManager::hasNode
 considers the padding

---
 include/cslibs_path_planning/generic/MapManager.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 66c285d..6a67b82 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -628,10 +628,10 @@ public:
         if((x < -padding) || (y < -padding) || (x >= (int) (w + padding)) || (y >= (int) (h + padding)) || (t < 0) || (t >= (int) theta_slots)) {
             throw OutsideMapException();
         }
-        int cx = (x / chunk_size);
-        int cy = (y / chunk_size);
+        int cxp = (x + padding) / (int) chunk_size;
+        int cyp = (y + padding) / (int) chunk_size;
 
-        Chunk* chunk = chunks.at(cy * chunks_w + cx);
+        Chunk* chunk = chunks.at(cyp * chunks_w + cxp);
         return chunk != nullptr;
     }
 
-- 
2.43.0


From e174dc3370f32a3e0221c8c56868803632973055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 19/68] fix: motion segments are tested along their whole
 length

---
 include/cslibs_path_planning/common/Bresenham2d.h   |  7 +++++++
 include/cslibs_path_planning/generic/MapManager.hpp | 12 ++++++------
 src/common/Bresenham2d.cpp                          |  7 ++++++-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/cslibs_path_planning/common/Bresenham2d.h b/include/cslibs_path_planning/common/Bresenham2d.h
index 857aefb..c783849 100644
--- a/include/cslibs_path_planning/common/Bresenham2d.h
+++ b/include/cslibs_path_planning/common/Bresenham2d.h
@@ -43,6 +43,13 @@ public:
      */
     void setGrid(const GridMap2d *map, int start_x, int start_y, int end_x, int end_y );
 
+    /**
+     * @brief Set start and end of a line that may leave the map
+     * Only next() and coordinates() may be used afterwards, and for
+     * coordinates() all cells of the line must be non-negative.
+     */
+    void setLine( int start_x, int start_y, int end_x, int end_y );
+
     /**
      * @brief Select next cell
      * @return False if we reached the end
diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 6a67b82..4851e2b 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -655,7 +655,7 @@ public:
     }
 
     bool isFree(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setLine(std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -674,11 +674,11 @@ public:
             }
         }
 
-        return isFree(ex,ey,theta);
+        return isFree((int) std::floor(ex), (int) std::floor(ey), theta);
     }
 
     bool isFreeOrUnknown(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setLine(std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -698,12 +698,12 @@ public:
             }
         }
 
-        return isFreeOrUnknown(sx,sy,theta);
+        return isFreeOrUnknown((int) std::floor(ex), (int) std::floor(ey), theta);
     }
 
 
     bool isOccupied(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setLine(std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -722,7 +722,7 @@ public:
             }
         }
 
-        return isOccupied(ex,ey,theta);
+        return isOccupied((int) std::floor(ex), (int) std::floor(ey), theta);
     }
 
     bool isFree(int x, int y, double theta) const {
diff --git a/src/common/Bresenham2d.cpp b/src/common/Bresenham2d.cpp
index 5020449..5a39a02 100644
--- a/src/common/Bresenham2d.cpp
+++ b/src/common/Bresenham2d.cpp
@@ -49,8 +49,13 @@ void Bresenham2d::setGrid(const GridMap2d *map, int start_x, int start_y, int en
         return;
     }
 
-    // Start/end in cell coordinates
     map_ = map;
+    setLine( start_x, start_y, end_x, end_y );
+}
+
+void Bresenham2d::setLine(int start_x, int start_y, int end_x, int end_y)
+{
+    // Start/end in cell coordinates
     x0_ = start_x; y0_ = start_y;
     x1_ = end_x; y1_ = end_y;
 
-- 
2.43.0


From f4d2ce4d6212cf50f00004644484ff52b08287fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 20/68] fix: segments with an end outside the map are never
 free

---
 include/cslibs_path_planning/generic/MapManager.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 4851e2b..3166328 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -79,6 +79,10 @@ public:
         assert(ex >= 0);
         assert(ey >= 0);
 
+        if(!contains(sx, sy) || !contains(ex, ey)) {
+            return false;
+        }
+
         bresenham.setGrid(map_, std::floor(sx), std::floor(sy), std::floor(ex),std::floor(ey));
 
         double theta = std::atan2(ey-sy,ex-sx);
@@ -103,6 +107,10 @@ public:
         assert(ex >= 0);
         assert(ey >= 0);
 
+        if(!contains(sx, sy) || !contains(ex, ey)) {
+            return false;
+        }
+
         bresenham.setGrid(map_, std::floor(sx), std::floor(sy), std::floor(ex),std::floor(ey));
 
         double theta = std::atan2(ey-sy,ex-sx);
-- 
2.43.0


From 28e2917aa4b1dbc421cb7a8d01f0953b5525f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 21/68] fix: every search counts its intermission steps anew

---
 .../generic/DistanceTransformation.hpp        | 12 ++++++-----
 .../generic/Intermission.hpp                  | 20 +++++++++++++------
 .../generic/SearchAlgorithm.hpp               |  4 +++-
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/include/cslibs_path_planning/generic/DistanceTransformation.hpp b/include/cslibs_path_planning/generic/DistanceTransformation.hpp
index 5774a24..0ca5eb5 100644
--- a/include/cslibs_path_planning/generic/DistanceTransformation.hpp
+++ b/include/cslibs_path_planning/generic/DistanceTransformation.hpp
@@ -69,6 +69,8 @@ protected:
     PathT findPathImp(const PointT& from, const PointT& to, boost::function<void()> intermission) {
         expansions = 0;
 
+        Intermission schedule;
+
 #define LOOKUP(a,b) map_.lookup(a,b)
 
         // initialize start and goal nodes
@@ -115,18 +117,18 @@ protected:
                             change = true;
                             node->mark(NodeT::MARK_EXPANDED);
                             if(expansions == 1) {
-                                Intermission::call(intermission);
+                                schedule.call(intermission);
                             }
                         }
                         node->mark(NodeT::MARK_WATCHED);
                     }
                 }
                 if(expansions != 1) {
-                    Intermission::call(intermission);
+                    schedule.call(intermission);
                 }
             }
 
-            //            Intermission::call(intermission);
+            //            schedule.call(intermission);
 
             for(int row = h-2; row >= 1; --row) {
                 for(int col = w-2; col >= 1; --col) {
@@ -151,10 +153,10 @@ protected:
                         node->mark(NodeT::MARK_WATCHED);
                     }
                 }
-                Intermission::call(intermission);
+                schedule.call(intermission);
             }
 
-            //            Intermission::call(intermission);
+            //            schedule.call(intermission);
         }
 
         return backtrack(start, goal);
diff --git a/include/cslibs_path_planning/generic/Intermission.hpp b/include/cslibs_path_planning/generic/Intermission.hpp
index 77c462b..22ba627 100644
--- a/include/cslibs_path_planning/generic/Intermission.hpp
+++ b/include/cslibs_path_planning/generic/Intermission.hpp
@@ -11,12 +11,18 @@
 namespace generic
 {
 
+/**
+ * @brief The CallbackIntermission class calls back in each of the first <start_step> steps and
+ *        in every <steps>th step from there on. Each search counts with its own instance.
+ */
 template <int steps, int start_step = 0>
 struct CallbackIntermission {
+    CallbackIntermission()
+        : next(start_step), start(true)
+    {}
+
     template <class Callback, class A>
-    static void callAndCopy(Callback& c, const A& from, A& to) {
-        static int next = start_step;
-        static bool start = true;
+    void callAndCopy(Callback& c, const A& from, A& to) {
         if(--next <= 0 || start) {
             to = from;
             c();
@@ -26,9 +32,7 @@ struct CallbackIntermission {
         }
     }
     template <class Callback>
-    static void call(Callback& c) {
-        static int next = start_step;
-        static bool start = true;
+    void call(Callback& c) {
         if(--next <= 0 || start) {
             c();
             if(next > 0) return;
@@ -36,6 +40,10 @@ struct CallbackIntermission {
             start = false;
         }
     }
+
+private:
+    int next;
+    bool start;
 };
 template<int start_step>
 struct CallbackIntermission<0, start_step> {
diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 1d3067e..a654ee5 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -380,6 +380,8 @@ protected:
             stamp_abort_ = now + duration_milli;
         }
 
+        Intermission schedule;
+
         // iterate until no more points can be looked at
         while(!open.empty()) {
             boost::this_thread::interruption_point();
@@ -433,7 +435,7 @@ protected:
             NeighborhoodType::iterateFreeNeighbors(*this, map_, current);
 
             // intermission, if used
-            Intermission::call(intermission);
+            schedule.call(intermission);
         }
 
         if(!goal_candidates.empty()) {
-- 
2.43.0


From 27e9a4037f018568842a815fb245d54e77e6200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 22/68] fix: tmpmath::round of the number right below 0.5

---
 include/cslibs_path_planning/common/TmpMath.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/common/TmpMath.hpp b/include/cslibs_path_planning/common/TmpMath.hpp
index fd9dd25..16f821d 100644
--- a/include/cslibs_path_planning/common/TmpMath.hpp
+++ b/include/cslibs_path_planning/common/TmpMath.hpp
@@ -7,7 +7,8 @@ namespace tmpmath
 // Compile time rounding to nearest whole number
 constexpr int round(double x)
 {
-    return (x >= 0 ? x + 0.5 : x - 0.5);
+    // compare the exact remainder, x + 0.5 would be rounded itself for x close to 0.5
+    return x - (int) x >= 0.5 ? (int) x + 1 : x - (int) x <= -0.5 ? (int) x - 1 : (int) x;
 }
 } // namespace tmpmath
 
-- 
2.43.0


From 0a589cbc86b3898117da1d366ba83f9ecbe281b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 23/68] fix: HeuristicHolonomicObstacles reads the cells its
 padded grid stands for

---
 include/cslibs_path_planning/generic/Heuristics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/Heuristics.hpp b/include/cslibs_path_planning/generic/Heuristics.hpp
index bf17462..a1f138d 100644
--- a/include/cslibs_path_planning/generic/Heuristics.hpp
+++ b/include/cslibs_path_planning/generic/Heuristics.hpp
@@ -339,7 +339,7 @@ struct HeuristicHolonomicObstacles {
 
         for(unsigned int row = 0; row < h; ++row) {
             for(unsigned int col = 0; col < w; ++col) {
-                if(!map->isOccupied(col, row, 0)) {
+                if(!map->isOccupied((int) col - padding, (int) row - padding, 0)) {
                     cost(col, row) = std::numeric_limits<double>::max();
                 } else {
                     cost(col, row) = std::numeric_limits<double>::infinity();
-- 
2.43.0


From 4ac690ed5cbff1297c94e60dfd5f5ff60f305619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 24/68] fix: HeuristicHolonomicObstacles propagates costs
 through border cells

---
 .../generic/Heuristics.hpp                    | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/cslibs_path_planning/generic/Heuristics.hpp b/include/cslibs_path_planning/generic/Heuristics.hpp
index a1f138d..5606e80 100644
--- a/include/cslibs_path_planning/generic/Heuristics.hpp
+++ b/include/cslibs_path_planning/generic/Heuristics.hpp
@@ -322,6 +322,11 @@ struct HeuristicHolonomicObstacles {
         return costs[(r) * w + (c)];
     }
 
+    static inline double neighbor(int c, int r) {
+        bool inside = c >= 0 && r >= 0 && c < (int) w && r < (int) h;
+        return inside ? cost(c, r) : std::numeric_limits<double>::infinity();
+    }
+
     template <class Map, class NodeType>
     static void setMap(const Map* map, const NodeType& goal) {
         delete [] costs;
@@ -356,16 +361,16 @@ struct HeuristicHolonomicObstacles {
             ++iteration;
             change = false;
 
-            for(unsigned int row = 1; row < h-1; ++row) {
-                for(unsigned int col = 1; col < w-1; ++col) {
+            for(int row = 0; row < (int) h; ++row) {
+                for(int col = 0; col < (int) w; ++col) {
                     double& d = cost(col, row);
                     bool free = d != std::numeric_limits<double>::infinity();
 
                     if(free) {
-                        double d1 = cost(col-1, row  ) + HORIZ;
-                        double d2 = cost(col-1, row-1) + DIAG;
-                        double d3 = cost(col,   row-1) + HORIZ;
-                        double d4 = cost(col+1, row-1) + DIAG;
+                        double d1 = neighbor(col-1, row  ) + HORIZ;
+                        double d2 = neighbor(col-1, row-1) + DIAG;
+                        double d3 = neighbor(col,   row-1) + HORIZ;
+                        double d4 = neighbor(col+1, row-1) + DIAG;
 
                         double dmin = std::min(d1, std::min(d2, std::min(d3, d4)));
 
@@ -377,16 +382,16 @@ struct HeuristicHolonomicObstacles {
                 }
             }
 
-            for(int row = h-2; row >= 1; --row) {
-                for(int col = w-2; col >= 1; --col) {
+            for(int row = h-1; row >= 0; --row) {
+                for(int col = w-1; col >= 0; --col) {
                     double& d = cost(col, row);
                     bool free = d != std::numeric_limits<double>::infinity();
 
                     if(free) {
-                        double d1 = cost(col+1, row  ) + HORIZ;
-                        double d2 = cost(col-1, row+1) + DIAG;
-                        double d3 = cost(col,   row+1) + HORIZ;
-                        double d4 = cost(col+1, row+1) + DIAG;
+                        double d1 = neighbor(col+1, row  ) + HORIZ;
+                        double d2 = neighbor(col-1, row+1) + DIAG;
+                        double d3 = neighbor(col,   row+1) + HORIZ;
+                        double d4 = neighbor(col+1, row+1) + DIAG;
 
                         double dmin = std::min(d1, std::min(d2, std::min(d3, d4)));
 
-- 
2.43.0


From c82fde5556a752dc37a3d3cf1d9ff4bff905c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 25/68] fix: DirectionalStateSpaceManager rejects negative
 positions

---
 include/cslibs_path_planning/generic/MapManager.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 3166328..e20c529 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -389,14 +389,14 @@ public:
 
     template <class PointT>
     NodeType* lookup(const PointT& reference) {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
+        int y = std::floor(reference.y);
+        int x = std::floor(reference.x);
         unsigned t = angle2index(reference.theta);
         return &data[index(x,y,t, reference.forward)];
     }
     NodeType* lookup(const Pose2d& reference) {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
+        int y = std::floor(reference.y);
+        int x = std::floor(reference.x);
         unsigned t = angle2index(reference.theta);
         return &data[index(x,y,t, true)];
     }
-- 
2.43.0


From 773d038c87dccbc4b3a121fa6d6d793536c9383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 26/68] fix: clear the open list before its nodes are freed

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index a654ee5..594060e 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -129,6 +129,9 @@ public:
     {}
 
     virtual void setMap(const MapT* map) {
+        // clearing the open list looks at the nodes, which may be freed now
+        open.clear();
+
         map_.setMap(map);
         map_used_ = false;
         NeighborhoodType::setResolution(map->getResolution());
@@ -450,6 +453,8 @@ protected:
 
     void init()
     {
+        open.clear();
+
         // the nodes still carry distances and marks if the map was searched before
         if(map_used_) {
             map_.initMap(false);
@@ -467,7 +472,6 @@ protected:
         result = {};
         use_candidates = search_options.oversearch_distance != 0.0;
         goal_candidates = std::priority_queue<GoalCandidate, std::vector<GoalCandidate>, PairDistance>();
-        open.clear();
 
         start.clear();
         goal.clear();
-- 
2.43.0


From 56c477941e461346f9c0d535c1ba40b4096299b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 27/68] fix: start and goal nodes are looked up with their
 heading

---
 include/cslibs_path_planning/generic/Common.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cslibs_path_planning/generic/Common.hpp b/include/cslibs_path_planning/generic/Common.hpp
index 145078b..7a44501 100644
--- a/include/cslibs_path_planning/generic/Common.hpp
+++ b/include/cslibs_path_planning/generic/Common.hpp
@@ -162,6 +162,7 @@ struct DirectionalNode : public Node {
 
         NodeType forward;
         NodeType::init(forward, p);
+        forward.theta = p.theta;
         forward.forward = true;
         auto* start_forward = map.lookup(forward);
         start_forward->forward = true;
@@ -169,6 +170,7 @@ struct DirectionalNode : public Node {
 
         NodeType reverse;
         NodeType::init(reverse, p);
+        reverse.theta = p.theta;
         reverse.forward = false;
         auto* start_reverse = map.lookup(reverse);
         start_reverse->forward = false;
-- 
2.43.0


From cf404fcdbb929a3d73c0deaa644d54ce58d328c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 28/68] fix: steering searches do not change the pose of
 expanded nodes

---
 .../generic/DynamicSteeringNeighborhood.h                    | 5 +++++
 .../cslibs_path_planning/generic/SteeringNeighborhood.hpp    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h b/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
index 2e964b4..cd34596 100644
--- a/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
+++ b/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
@@ -326,6 +326,11 @@ struct DynamicSteeringNeighborhood : public NeighborhoodBase
                             continue;
                         }
 
+                        // the successors of an expanded node depend on its exact pose
+                        if(n->isMarked(NodeType::MARK_CLOSED)) {
+                            continue;
+                        }
+
                         if(algo.processNeighbor(reference, n, cost) == PR_ADDED_TO_OPEN_LIST)  {
                             n->custom  = custom;
                             n->depth = reference->depth + 1;
diff --git a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
index 2400b66..9b91970 100644
--- a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
@@ -318,6 +318,11 @@ struct SteeringNeighborhood :
                             continue;
                         }
 
+                        // the successors of an expanded node depend on its exact pose
+                        if(n->isMarked(NodeType::MARK_CLOSED)) {
+                            continue;
+                        }
+
                         if(algo.processNeighbor(reference, n, cost) == PR_ADDED_TO_OPEN_LIST)  {
                             n->custom  = custom;
                             n->depth = reference->depth + 1;
-- 
2.43.0


From 06b88962fd08d09c5e5bd1d3b7e9b2dc00675031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 29/68] fix: forward-only steering nodes carry no arbitrary
 straight-move counter

---
 include/cslibs_path_planning/generic/SteeringNeighborhood.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
index 9b91970..9033b55 100644
--- a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
@@ -299,7 +299,7 @@ struct SteeringNeighborhood :
             for(unsigned step = 0; step <= steer_steps; ++step) {
                 double to_x,to_y, to_theta;
                 bool forward;
-                char custom;
+                char custom = 0;
                 int steering_angle;
                 double cost = advance(reference, algo.search_options, i, step, to_x,to_y,to_theta,forward,steering_angle,custom, map_rotation);
 
-- 
2.43.0


From a3489e769e356ca46ff535a0aad8c8d1d5aca782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 30/68] fix: zero-length segments test their cell

---
 include/cslibs_path_planning/generic/MapManager.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index e20c529..041b56e 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -98,7 +98,7 @@ public:
             //            }
         }
 
-        return true;
+        return map_->isFree((int) std::floor(ex), (int) std::floor(ey), theta);
     }
 
     bool isFreeOrUnknown(const double sx, const double sy, const double ex, const double ey) const {
@@ -123,7 +123,9 @@ public:
             }
         }
 
-        return true;
+        x = std::floor(ex);
+        y = std::floor(ey);
+        return map_->isNoInformation(x,y,theta) || map_->isFree(x,y,theta);
     }
 
     bool isFree(int x, int y, double theta) const {
-- 
2.43.0


From bd6d90328749047dc068fbe538e08680803d1505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 31/68] fix: obstacle heuristic looks up the cell of poses left
 of or below the origin

---
 include/cslibs_path_planning/generic/Heuristics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cslibs_path_planning/generic/Heuristics.hpp b/include/cslibs_path_planning/generic/Heuristics.hpp
index 5606e80..a6f9cf6 100644
--- a/include/cslibs_path_planning/generic/Heuristics.hpp
+++ b/include/cslibs_path_planning/generic/Heuristics.hpp
@@ -303,7 +303,7 @@ struct HeuristicHolonomicObstacles {
     template <class A, class B>
     static void compute(A* current, const B* goal, double res) {
         if(costs) {
-            auto h = cost__(current->x, current->y);
+            auto h = cost__(std::floor(current->x), std::floor(current->y));
             if(h != std::numeric_limits<double>::max()) {
                 current->h = h * res;
             } else {
@@ -352,7 +352,7 @@ struct HeuristicHolonomicObstacles {
             }
         }
 
-        cost__(goal.x, goal.y) = 0;
+        cost__(std::floor(goal.x), std::floor(goal.y)) = 0;
 
         int iteration = 0;
 
-- 
2.43.0


From f08baad1ee8fa3d50c01b4f0296ba08522d17ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 32/68] fix: steering neighbourhoods keep the map resolution
 per thread

---
 .../generic/DynamicSteeringNeighborhood.h                 | 4 ++--
 .../generic/NonHolonomicNeighborhood.hpp                  | 8 ++++----
 src/generic/DynamicSteeringNeighborhood.cpp               | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h b/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
index cd34596..5944f41 100644
--- a/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
+++ b/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
@@ -15,10 +15,10 @@ struct DynamicSteeringNeighborhood : public NeighborhoodBase
         typedef SteeringNode<PointT> NodeType;
     };
 
-    static double resolution;
+    static thread_local double resolution;
     static bool reversed;
     static double distance_step;
-    static double distance_step_pixel;
+    static thread_local double distance_step_pixel;
 
     static int MAX_STEER_ANGLE;
     static double STEER_DELTA;
diff --git a/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp b/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
index 409b0b6..17e3f68 100644
--- a/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
@@ -45,9 +45,9 @@ struct NonHolonomicNeighborhoodBase : public NeighborhoodBase
 
     static constexpr double DELTA_THETA = STEER_ANGLE / 10.0 * M_PI / 180.0;
 
-    static double resolution;
+    static thread_local double resolution;
     static constexpr double distance_step = distance / 100.0;
-    static double distance_step_pixel;
+    static thread_local double distance_step_pixel;
 
     static double setResolution(double res) {
         resolution = res;
@@ -225,10 +225,10 @@ struct NonHolonomicNeighborhoodBase : public NeighborhoodBase
 };
 
 template  <int distance, int steerangle, int moves, bool reversed, int straight_dir_switch, class I>
-double NonHolonomicNeighborhoodBase<distance, steerangle,moves,reversed,straight_dir_switch,I>::resolution = 0;
+thread_local double NonHolonomicNeighborhoodBase<distance, steerangle,moves,reversed,straight_dir_switch,I>::resolution = 0;
 
 template  <int distance, int steerangle, int moves, bool reversed, int straight_dir_switch, class I>
-double NonHolonomicNeighborhoodBase<distance, steerangle,moves,reversed,straight_dir_switch,I>::distance_step_pixel = 0;
+thread_local double NonHolonomicNeighborhoodBase<distance, steerangle,moves,reversed,straight_dir_switch,I>::distance_step_pixel = 0;
 
 
 
diff --git a/src/generic/DynamicSteeringNeighborhood.cpp b/src/generic/DynamicSteeringNeighborhood.cpp
index 73958c3..23c8aa9 100644
--- a/src/generic/DynamicSteeringNeighborhood.cpp
+++ b/src/generic/DynamicSteeringNeighborhood.cpp
@@ -4,10 +4,10 @@
 using namespace lib_path;
 
 
-double DynamicSteeringNeighborhood::resolution = 1;
+thread_local double DynamicSteeringNeighborhood::resolution = 1;
 bool DynamicSteeringNeighborhood::reversed = false;
 double DynamicSteeringNeighborhood::distance_step = 0.4;
-double DynamicSteeringNeighborhood::distance_step_pixel = 1;
+thread_local double DynamicSteeringNeighborhood::distance_step_pixel = 1;
 
 int DynamicSteeringNeighborhood::MAX_STEER_ANGLE = 60;
 double DynamicSteeringNeighborhood::STEER_DELTA = 15;
-- 
2.43.0


From 2b80c5a8f06cedd3ca8593d6b77703d9f150187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 33/68] fix: searches started from a progress callback do not
 change the resolution of the outer one

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 594060e..451c6af 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -398,6 +398,9 @@ protected:
             }
 
 
+            // a search on another map may have run in the callback of the last step
+            NeighborhoodType::setResolution(map_.getResolution());
+
             // mark the next node closed
             NodeT* current = open.next();
 
-- 
2.43.0


From ddc28dc6c2d713793243a97112e8a7e93fa60185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 34/68] fix: parsing a curve word returns true iff it is
 correct and reports a mark without a circle

---
 src/ReedsShepp/CurveGenerator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index cd8d077..5900c5a 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -94,6 +94,12 @@ bool CurveGenerator::parse(const std::string& sequence, std::ostream& out)
                 error = true;
                 break;
             case 'b': {
+                if(new_curve.count() == 0) {
+                    out << "RS Generator: error parsing" << std::endl << sequence << ", only a circle can have a subsequence" << std::endl;
+                    error = true;
+                    break;
+                }
+
                 const CurveSegment& cs = new_curve.get_segment(new_curve.count() - 1);
 //                CurveSegment* cs = m_sequences[m_count].at(m_sequences[m_count].size()-1);
 
@@ -174,7 +180,7 @@ bool CurveGenerator::parse(const std::string& sequence, std::ostream& out)
             out << " ";
         out << "^" << std::endl;
     }
-    return error;
+    return !error;
 }
 
 Curve* CurveGenerator::find_path(const Pose2d& start, const Pose2d& goal, const GridMap2d* map, bool ignore_obstacles)
-- 
2.43.0


From 66266ce7bfab3c4172aaf36e2a083e558b4ed3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 35/68] fix: curve generator has a defined arc limit and finds
 nothing without words

---
 src/ReedsShepp/CurveGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index 5900c5a..5a8b7c5 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -9,6 +9,7 @@
 #include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
 
 /// SYSTEM
+#include <limits>
 #include <stdio.h>
 #include <typeinfo>
 
@@ -18,6 +19,7 @@ CurveGenerator::CurveGenerator()
     : m_use_map_cost(false), m_min_cell_cost(10),
       m_circle_radius(2.0), m_max_waypoint_distance(1.0),
       m_cost_forwards(1.0), m_cost_backwards(1.0), m_cost_curve(1.0), m_cost_straight(1.0),
+      m_max_curve_arc(std::numeric_limits<double>::infinity()),
       m_trace(-1)
 {
 }
@@ -185,8 +187,6 @@ bool CurveGenerator::parse(const std::string& sequence, std::ostream& out)
 
 Curve* CurveGenerator::find_path(const Pose2d& start, const Pose2d& goal, const GridMap2d* map, bool ignore_obstacles)
 {
-    assert(!m_curves.empty());
-
     Curve* best_curve = NULL;
     double best_weight = NOT_FREE;
 
-- 
2.43.0


From 5810b2928d4f1500cdb8a5a051fda7cd57fa87a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 36/68] fix: words without a known construction are not
 admissible instead of asserting or jumping

---
 .../cslibs_path_planning/ReedsShepp/Curve.h   |  1 +
 src/ReedsShepp/Curve.cpp                      | 21 ++++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/ReedsShepp/Curve.h b/include/cslibs_path_planning/ReedsShepp/Curve.h
index 2114edc..bdda06a 100644
--- a/include/cslibs_path_planning/ReedsShepp/Curve.h
+++ b/include/cslibs_path_planning/ReedsShepp/Curve.h
@@ -93,6 +93,7 @@ private:
 
 private:
     double check_if_admissible();
+    bool is_supported();
     void init_segments();
 
     bool handle_sequence();
diff --git a/src/ReedsShepp/Curve.cpp b/src/ReedsShepp/Curve.cpp
index 67c4a0f..0b2c8a7 100644
--- a/src/ReedsShepp/Curve.cpp
+++ b/src/ReedsShepp/Curve.cpp
@@ -104,7 +104,7 @@ double Curve::check_if_admissible()
         return NOT_FREE;
     }
 
-    if(m_sequence.size() < 3) {
+    if(!is_supported()) {
         return NOT_FREE;
     }
 
@@ -116,6 +116,25 @@ double Curve::check_if_admissible()
     return m_weight;
 }
 
+bool Curve::is_supported()
+{
+    // supported are circle-line-circle words and words of circles that touch each other,
+    // which therefore have to turn into alternating directions
+    const CircleSegment* last = NULL;
+    for(unsigned i = 0; i < m_sequence.size(); ++i) {
+        const CircleSegment* circle = dynamic_cast<const CircleSegment*>(m_sequence[i]);
+        if(!circle) {
+            if(m_sequence.size() != 3 || i != 1) {
+                return false;
+            }
+        } else if(last && last->get_orientation() == circle->get_orientation()) {
+            return false;
+        }
+        last = circle;
+    }
+    return true;
+}
+
 void Curve::init_segments()
 {
     init_circle_pairs(m_start, m_circle_start);
-- 
2.43.0


From fcc1430adee1d8ada85ea4bbd70aa4db6ca293c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 37/68] fix: Reeds-Shepp arcs without a turn are empty and not
 a full circle

---
 src/ReedsShepp/CircleSegment.cpp | 41 +++++++++++---------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index a68aa16..6872e34 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -199,34 +199,17 @@ bool CircleSegment::test4Points(int cx, int cy, int x, int y, bool ignore_obstac
 bool CircleSegment::testPixel(int cx, int cy, int x, int y, bool ignore_obstacles)
 {
     if(m_map->isInMap(x, y)) {
-        float angle = atan2(y-cy, x-cx);
-        bool on_segment = false;
-
-        float start = NORMALIZE(m_angle_start);
-        float end = NORMALIZE(m_angle_end);
-
-        bool increasing = m_angle_step_size > 0;//(m_arc_length > 0) ^ (m_direction == BACKWARD);
-        bool decreasing = !increasing;
-
-        if(start > end) {
-            if(decreasing) {
-                // start > end  &&  angle decreasing  -> no possible overflow
-                on_segment = angle <= start && angle >= end;
-            } else {
-                // start > end  &&  angle increasing  ->  possible overflow
-                on_segment = angle >= start || angle <= end;
-            }
-        } else {
-            // start <= end
-            if(increasing) {
-                // start <= end  &&  angle increasing  -> no possible overflow
-                on_segment = angle >= start && angle <= end;
-            } else {
-                // start <= end  &&  angle decreasing  -> possible overflow
-                on_segment = angle <= start || angle >= end;
-            }
+        // angle between the start of the segment and the pixel, in driving direction
+        double angle = NORMALIZE(atan2(y-cy, x-cx) - m_angle_start);
+        if(m_arc_length < 0) {
+            angle = -angle;
+        }
+        if(angle < 0) {
+            angle += 2 * M_PI;
         }
 
+        bool on_segment = angle <= std::abs(m_arc_length);
+
         if(on_segment) {
             m_weight += max(m_min_cell_cost, m_map->getValue(x, y));
             bool free = m_map->isFree(x, y);
@@ -276,7 +259,11 @@ void CircleSegment::compute_arc_length()
     //  -> arc has to be > PI and has been normalized to a negative number -> add 2 PI
     // similarly, if arc must be negative, but is positive
     //  -> subtract 2 PI
-    if(must_be_positive && !is_positive) {
+    // if both angles are the same (up to the numerical precision), there is nothing to drive
+    if(std::abs(arc_angle) < 1e-5) {
+        m_arc_length = 0;
+
+    } else if(must_be_positive && !is_positive) {
         m_arc_length = arc_angle + 2 * M_PI;
 
     } else if(!must_be_positive && is_positive) {
-- 
2.43.0


From c83c637ccde490eea3e12145b2227c445b64729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 38/68] fix: way-points of Reeds-Shepp curves reach the end of
 each segment within the maximal distance

---
 src/ReedsShepp/CircleSegment.cpp | 11 ++++-------
 src/ReedsShepp/LineSegment.cpp   |  6 +++++-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index 6872e34..9d530a3 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -273,14 +273,11 @@ void CircleSegment::compute_arc_length()
         m_arc_length = arc_angle;
     }
 
-    int sign = m_arc_length >= 0 ? 1 : -1;
+    // no of steps, each step should produce a distance of at most m_max_distance
+    m_steps = std::max(1, (int) std::ceil(length() / m_max_distance));
 
-    // each step should produce a distance of m_max_distance
-    // -> polar coordinates, calulate step in angle
-    m_angle_step_size = m_max_distance / m_radius * sign;
-
-    // no of steps
-    m_steps = std::max(1, (int) std::abs(std::floor(m_arc_length / m_angle_step_size)));
+    // -> polar coordinates, calulate step in angle, so that the last step ends at m_angle_end
+    m_angle_step_size = m_arc_length / m_steps;
 }
 
 void CircleSegment::reset_iteration()
diff --git a/src/ReedsShepp/LineSegment.cpp b/src/ReedsShepp/LineSegment.cpp
index 72f8278..22cb02e 100644
--- a/src/ReedsShepp/LineSegment.cpp
+++ b/src/ReedsShepp/LineSegment.cpp
@@ -100,7 +100,11 @@ void LineSegment::reset_iteration()
 {
     m_iterating = true;
     m_output = 0;
-    m_segments = m_start.distance_to(m_end) / m_max_distance;
+
+    double length = m_start.distance_to(m_end);
+
+    // a line without length (up to the numerical precision) has no direction and no points
+    m_segments = (length < 1e-4) ? 0 : std::ceil(length / m_max_distance);
 }
 
 bool LineSegment::has_next()
-- 
2.43.0


From 89ef7875d127a68099e267d5f5069746a7f061e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 39/68] fix: Reeds-Shepp curves collide where they leave the
 map, and only there

---
 src/ReedsShepp/CircleSegment.cpp | 44 ++++++++++++++++----------------
 src/ReedsShepp/LineSegment.cpp   |  3 +++
 2 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index 9d530a3..edb8c1c 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -198,33 +198,33 @@ bool CircleSegment::test4Points(int cx, int cy, int x, int y, bool ignore_obstac
 
 bool CircleSegment::testPixel(int cx, int cy, int x, int y, bool ignore_obstacles)
 {
-    if(m_map->isInMap(x, y)) {
-        // angle between the start of the segment and the pixel, in driving direction
-        double angle = NORMALIZE(atan2(y-cy, x-cx) - m_angle_start);
-        if(m_arc_length < 0) {
-            angle = -angle;
-        }
-        if(angle < 0) {
-            angle += 2 * M_PI;
-        }
+    // angle between the start of the segment and the pixel, in driving direction
+    double angle = NORMALIZE(atan2(y-cy, x-cx) - m_angle_start);
+    if(m_arc_length < 0) {
+        angle = -angle;
+    }
+    if(angle < 0) {
+        angle += 2 * M_PI;
+    }
 
-        bool on_segment = angle <= std::abs(m_arc_length);
+    bool on_segment = angle <= std::abs(m_arc_length);
 
-        if(on_segment) {
-            m_weight += max(m_min_cell_cost, m_map->getValue(x, y));
-            bool free = m_map->isFree(x, y);
-            if(m_trace != -1) {
+    if(on_segment) {
+        if(!m_map->isInMap(x, y)) {
+            return ignore_obstacles;
+        }
+
+        m_weight += max(m_min_cell_cost, m_map->getValue(x, y));
+        bool free = m_map->isFree(x, y);
+        if(m_trace != -1) {
 //                TODO: trace is disabled to be able to make the map const
 //                m_map->setValue(x, y, free ? 240 : 40);
-            }
-            if(ignore_obstacles) {
-                return true;
-            } else {
-                return free;
-            }
         }
-    } else {
-        return false;
+        if(ignore_obstacles) {
+            return true;
+        } else {
+            return free;
+        }
     }
 
     return true;
diff --git a/src/ReedsShepp/LineSegment.cpp b/src/ReedsShepp/LineSegment.cpp
index 22cb02e..d966f66 100644
--- a/src/ReedsShepp/LineSegment.cpp
+++ b/src/ReedsShepp/LineSegment.cpp
@@ -71,6 +71,9 @@ float LineSegment::weight(bool ignore_obstacles)
                 break;
             }
             path_cost += max(m_min_cell_cost, m_map->getValue(x0, y0));
+        } else if(!ignore_obstacles) {
+            is_free = false;
+            break;
         }
 
         if(x0==x1 && y0==y1) break;
-- 
2.43.0


From 69d094999c0da774d16913c9154c97bdfe933893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 40/68] fix: Reeds-Shepp words turning into the same direction
 reach goals closer than two radii

---
 src/ReedsShepp/GeometryHelper.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ReedsShepp/GeometryHelper.cpp b/src/ReedsShepp/GeometryHelper.cpp
index d4a7bfc..dfc11c2 100644
--- a/src/ReedsShepp/GeometryHelper.cpp
+++ b/src/ReedsShepp/GeometryHelper.cpp
@@ -19,15 +19,20 @@ bool GeometryHelper::get_common_tangent(CircleSegment& circle_from, CircleSegmen
     double distance = (circle_from.get_center() - circle_to.get_center()).length();
     double radius_sum = circle_from.m_radius + circle_to.m_radius;
 
-    // the circles overlap, if the distance between their centers is <= the sum of their radii
-    // in this case, we cannot compute a tangent
-    if(distance < radius_sum) {
-        return false;
-    }
-
     if(circle_from.m_orientation == circle_to.m_orientation) {
+        // every external tangent is one if the circles are the same
+        if(distance < 1e-6) {
+            return false;
+        }
+
         external_tangent(circle_from, tangent_out, circle_to);
     } else {
+        // the circles overlap, if the distance between their centers is <= the sum of their radii
+        // in this case, we cannot compute an internal tangent
+        if(distance < radius_sum) {
+            return false;
+        }
+
         internal_tangent(circle_from, tangent_out, circle_to);
     }
 
-- 
2.43.0


From 6087c0bf624be90585f560dd633e44ad118f2e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:52 +0000
Subject: [PATCH 41/68] fix: continuous position conversions respect the
 rotation of the map

---
 src/common/MapMath.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/common/MapMath.cpp b/src/common/MapMath.cpp
index df08110..5a25c26 100644
--- a/src/common/MapMath.cpp
+++ b/src/common/MapMath.cpp
@@ -14,20 +14,30 @@ namespace lib_path {
 
 void pos2map(double px, double py, double& mx, double&my, const GridMap2d& map)
 {
-  mx = (px - map.getOrigin().x) / map.getResolution();
-  my = (py - map.getOrigin().y) / map.getResolution();
+  // the origin is given in the frame of the (rotated) map
+  double c = std::cos(map.getRotation());
+  double s = std::sin(map.getRotation());
+
+  mx = (c * px + s * py - map.getOrigin().x) / map.getResolution();
+  my = (c * py - s * px - map.getOrigin().y) / map.getResolution();
 }
 
 void map2pos(double mx, double my, double& px, double&py, const GridMap2d& map)
 {
-  px = map.getResolution()*mx + map.getOrigin().x;
-  py = map.getResolution()*my + map.getOrigin().y;
+  double c = std::cos(map.getRotation());
+  double s = std::sin(map.getRotation());
+
+  double rx = map.getResolution()*mx + map.getOrigin().x;
+  double ry = map.getResolution()*my + map.getOrigin().y;
+
+  px = c * rx - s * ry;
+  py = s * rx + c * ry;
 }
 
 Pose2d pos2map(const Pose2d& p, const GridMap2d& mapinfo)
 {
   Pose2d res;
-  res.theta = p.theta;
+  res.theta = p.theta - mapinfo.getRotation();
   pos2map(p.x,p.y,res.x,res.y,mapinfo);
   return res;
 }
@@ -35,7 +45,7 @@ Pose2d pos2map(const Pose2d& p, const GridMap2d& mapinfo)
 Pose2d map2pos(const Pose2d& p, const GridMap2d& mapinfo)
 {
   Pose2d res;
-  res.theta = p.theta;
+  res.theta = p.theta + mapinfo.getRotation();
   map2pos(p.x,p.y,res.x,res.y,mapinfo);
   return res;
 }
-- 
2.43.0


From d47b606ac341a1a42c1468286a57e97545256fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:31 +0000
Subject: [PATCH 42/68] fix: sampled lines reach their end with steps of at
 most the resolution

---
 src/geometry/line.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/geometry/line.cpp b/src/geometry/line.cpp
index 4f4ccb0..f4c2836 100644
--- a/src/geometry/line.cpp
+++ b/src/geometry/line.cpp
@@ -10,6 +10,7 @@
 
 */
 
+#include <cmath>
 #include <cslibs_path_planning/geometry/line.h>
 
 using namespace std;
@@ -56,8 +57,12 @@ void Line::toPoses(double resolution, PathPoseVec &poses, int move_direction, bo
     }
     Vector2d ds= (end_-start_);
     double l = ds.norm();
-    int n = l/resolution;
-    Vector2d step=ds.normalized()*resolution;
+    // equal steps of at most the given resolution that end exactly at the other end
+    int n = std::ceil(l/fabs(resolution) - 1e-9);
+    Vector2d step=Vector2d::Zero();
+    if (n>0) {
+        step=ds/n;
+    }
 
     double theta;
     Vector2d p;
@@ -76,7 +81,7 @@ void Line::toPoses(double resolution, PathPoseVec &poses, int move_direction, bo
         poses.resize(n);
         p=p+step;
     }
-    for (int i=0;i<n;++i) {
+    for (size_t i=0;i<poses.size();++i) {
         poses[i].pos_=p;
         poses[i].theta_ = theta;
         p+=step;
@@ -96,9 +101,17 @@ void Line::toPoints(double resolution, std::vector<Eigen::Vector2d> &points)
 {
     Vector2d ds= (end_-start_);
     double l = ds.norm();
-    Vector2d step=ds.normalized()*resolution;
+    if (fabs(resolution)<1e-10) {
+        points.clear();
+        return;
+    }
+    // equal steps of at most the given resolution
+    int n = std::ceil(l/fabs(resolution) - 1e-9);
+    Vector2d step=Vector2d::Zero();
+    if (n>0) {
+        step=ds/n;
+    }
     Vector2d p=start_;
-    int n = l/resolution;
     points.resize(n+1);
     for (int i=0;i<n;++i) {
         points[i]=p;
-- 
2.43.0


From ea20e3382eda31dfdb8d9586307dfa9caded78bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:31 +0000
Subject: [PATCH 43/68] fix: sampled arcs lie around their centre in driving
 direction and reach their end within the resolution

---
 src/geometry/circle.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/geometry/circle.cpp b/src/geometry/circle.cpp
index d6cdc21..0247a30 100644
--- a/src/geometry/circle.cpp
+++ b/src/geometry/circle.cpp
@@ -182,15 +182,17 @@ void Circle::toPoints(double resolution, std::vector<Vector2d> &points)
 {
     double arc_length = getArcLength() ;
     double arc_angle = getArcAngle();
-    int steps = abs(arc_length/resolution);
-    double dphi = arc_angle/steps;
-    points.resize(steps);
-    double phi = start_angle_;
-    for (int i=0;i<steps;++i) {
-        points[i].x() = radius_*cos(phi);
-        points[i].y() = radius_*sin(phi);
-        phi+=dphi;
-
+    if (fabs(resolution)<1e-10) {
+        points.clear();
+        return;
+    }
+    // equal steps of at most the given resolution that end at the end point
+    int steps = std::ceil(fabs(arc_length/resolution) - 1e-9);
+    double dphi = (steps>0) ? arc_direction_*arc_angle/steps : 0.0;
+    points.resize(steps+1);
+    for (int i=0;i<=steps;++i) {
+        double phi = start_angle_+i*dphi;
+        points[i] = center_+radius_*Vector2d(cos(phi),sin(phi));
     }
 }
 
@@ -218,8 +220,9 @@ void Circle::toPoses(double resolution, PathPoseVec &poses, int move_direction,
     }
     double arc_length = getArcLength() ;
     double arc_angle = getArcAngle();
-    int steps = abs(arc_length/resolution);
-    double dphi = arc_angle/steps;
+    // equal steps of at most the given resolution that end at the end pose
+    int steps = std::ceil(fabs(arc_length/resolution) - 1e-9);
+    double dphi = (steps>0) ? arc_angle/steps : 0.0;
     double phi;
     // the delta phi depends on the movement direction
     if (move_direction==path_geom::FORWARD) {
-- 
2.43.0


From c363ffe796f2d3e32a1e330eefd14e436e76747c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:31 +0000
Subject: [PATCH 44/68] fix: concentric circles report no intersection points
 of an earlier query

---
 src/geometry/intersector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/intersector.cpp b/src/geometry/intersector.cpp
index b1013fe..d41fee3 100644
--- a/src/geometry/intersector.cpp
+++ b/src/geometry/intersector.cpp
@@ -45,6 +45,7 @@ void Intersector::intersect(const Circle &c1, const Circle &c2, std::vector<Eige
     //Calculate distance between centres of circle
     Vector2d c1c2 = c2.center()-c1.center();
     double d = (c1c2).norm();
+    res_points.clear();
     if (d<tol) {
         return;
     }
@@ -52,7 +53,6 @@ void Intersector::intersect(const Circle &c1, const Circle &c2, std::vector<Eige
     double r2 = c2.radius();
     double m = r1+r2;
     double n = fabs(r1-r2);
-    res_points.clear();
     //No solns
     if ( d > m+tol )
         return;
-- 
2.43.0


From 70b4a3121a4e449b71034f68e9f4981786d73e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:31 +0000
Subject: [PATCH 45/68] fix: the ends of an arc are on the arc

---
 src/geometry/circle.cpp | 34 +++++++++-------------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/src/geometry/circle.cpp b/src/geometry/circle.cpp
index 0247a30..5c48594 100644
--- a/src/geometry/circle.cpp
+++ b/src/geometry/circle.cpp
@@ -285,32 +285,16 @@ bool Circle::isPointOnArc(const Vector2d &p, double tol) const
         // point not on circle
         return false;
     }
-    double p_angle = getAngleOfPoint(p);
+    // angle from the start of the arc to the point, in direction of the arc
+    double angle = arc_direction_*(getAngleOfPoint(p)-start_angle_);
+    while (angle > 2*M_PI)
+      angle -= 2.0 * M_PI;
+    while (angle < 0.0)
+      angle += 2.0 * M_PI;
 
-    if (arc_direction_==path_geom::ARC_LEFT) {
-        double end_angle = start_angle_+arc_angle_;
-        if (end_angle<=2*M_PI) {
-            if (p_angle>=start_angle_ && p_angle<=end_angle) {
-                return true;
-            }
-        } else {
-            if (p_angle>=start_angle_ || p_angle<=(end_angle-2*M_PI)) {
-                return true;
-            }
-        }
-    } else {
-        double end_angle = start_angle_ - arc_angle_;
-        if (end_angle>=0) {
-            if (p_angle>=end_angle && p_angle<=start_angle_) {
-                return true;
-            }
-        } else {
-            if (p_angle>=(end_angle+2*M_PI) || p_angle<=start_angle_) {
-                return true;
-            }
-        }
-    }
-    return false;
+    // the tolerance also holds at both ends of the arc
+    double angle_tol = (radius_>fabs(tol)) ? fabs(tol)/radius_ : 2*M_PI;
+    return (angle<=arc_angle_+angle_tol || angle>=2*M_PI-angle_tol);
 }
 
 
-- 
2.43.0


From fa03d6b487faeee22224f6bdda99a7f29a9876aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:10 +0000
Subject: [PATCH 46/68] fix: there is no tangent path between circles turning
 into the same direction

---
 src/geometry/tangentor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geometry/tangentor.cpp b/src/geometry/tangentor.cpp
index 572fccf..8c14ceb 100644
--- a/src/geometry/tangentor.cpp
+++ b/src/geometry/tangentor.cpp
@@ -228,6 +228,10 @@ void Tangentor::tangentInnerCircles(const Circle &circle1, const Circle &circle2
 void Tangentor::tangentPath(const Circle &small, const Circle &large, double radius, bool from_small, std::vector<std::shared_ptr<Shape> > &path, double tol)
 {
     path.clear();
+    if (small.direction()==large.direction()) {
+        // directions of circles are incompatible
+        return;
+    }
     path_geom::aligned<Circle>::vector tangent_circles;
 
     tangentInnerCircles(small,large, radius,tangent_circles,tol);
-- 
2.43.0


From 6397a01c8ba205d4ea5f4dbbb8ac9e92bb8c078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:10 +0000
Subject: [PATCH 47/68] fix: the tangent path from the small to the large
 circle uses the arc between the touch points

---
 src/geometry/tangentor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geometry/tangentor.cpp b/src/geometry/tangentor.cpp
index 8c14ceb..87ccb39 100644
--- a/src/geometry/tangentor.cpp
+++ b/src/geometry/tangentor.cpp
@@ -250,6 +250,9 @@ void Tangentor::tangentPath(const Circle &small, const Circle &large, double rad
             if (!from_small) {
                 tcircle.selectStartPoint(ipoints_large.front());
                 tcircle.selectEndPoint(ipoints_small.front());
+            } else {
+                tcircle.selectStartPoint(ipoints_small.front());
+                tcircle.selectEndPoint(ipoints_large.front());
             }
             tangent_arcs.push_back(tcircle);
         } else {
-- 
2.43.0


From 4986c63e9a58feb9d79f6a22e10dfe99c7bdcbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:10 +0000
Subject: [PATCH 48/68] fix: path poses are not identical to poses of any
 smaller heading

---
 include/cslibs_path_planning/geometry/shape.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/geometry/shape.h b/include/cslibs_path_planning/geometry/shape.h
index e35a06a..856b1d7 100644
--- a/include/cslibs_path_planning/geometry/shape.h
+++ b/include/cslibs_path_planning/geometry/shape.h
@@ -88,7 +88,7 @@ public:
     bool isIdentical(const PathPose& other, double dist_tol=path_geom::DIST_EPS,
                      double angle_tol=path_geom::ANGLE_EPS) {
         return ((pos_-other.pos_).norm()<dist_tol &&
-              MathHelper::AngleDelta( theta_, other.theta_)<angle_tol);
+              fabs(MathHelper::AngleDelta( theta_, other.theta_))<angle_tol);
     }
 
     bool isIdentical(const Eigen::Vector2d& other, double dist_tol=path_geom::DIST_EPS) {
-- 
2.43.0


From 41fa669f7e604e3c67f45d17eb2ebcf442b0a5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:32 +0000
Subject: [PATCH 49/68] fix: tangent arcs between circles are not lost where
 they pass the circle's zero angle

---
 src/geometry/tangentor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geometry/tangentor.cpp b/src/geometry/tangentor.cpp
index 87ccb39..ccd8c37 100644
--- a/src/geometry/tangentor.cpp
+++ b/src/geometry/tangentor.cpp
@@ -316,10 +316,12 @@ void Tangentor::tangentInnerArcs(const Circle &circle1, const Circle &circle2, d
         Intersector::intersectArcs(circle1, tangent_circle, ipoints,tol);
         //std::cout << "intersection points circle 1 to arc:"<<ipoints.size() << std::endl;
         if (ipoints.size()==1) {
-            tangent_circle.setStartAngle(ipoints[0]);
+            // the touch point on circle 2 is searched on the full tangent circle
+            Eigen::Vector2d start = ipoints[0];
             Intersector::intersectArcs(tangent_circle, circle2, ipoints,tol);
           //  std::cout << "intersection points arc to circle 2 :"<<ipoints.size() << std::endl;
             if (ipoints.size()==1) {
+                tangent_circle.setStartAngle(start);
                 tangent_circle.setEndAngle(ipoints[0]);
                 arcs.push_back(tangent_circle);
             }
-- 
2.43.0


From 704b014e724fe250f703a8432cf9385151b7448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 50/68] fix: headings of poses are printed in degrees

---
 include/cslibs_path_planning/common/Pose2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/common/Pose2d.h b/include/cslibs_path_planning/common/Pose2d.h
index 14dde77..b2abd6d 100644
--- a/include/cslibs_path_planning/common/Pose2d.h
+++ b/include/cslibs_path_planning/common/Pose2d.h
@@ -87,7 +87,7 @@ inline double dot(const Pose2d& lhs, const Pose2d& rhs) {
 }
 
 inline std::ostream& operator << (std::ostream& ostr, const Pose2d& p){
-  ostr << "(" << p.x << " / " << p.y << " / " << (M_PI * 2.0f * p.theta) << "°)";
+  ostr << "(" << p.x << " / " << p.y << " / " << (p.theta * 180.0 / M_PI) << "°)";
   return ostr;
 }
 
-- 
2.43.0


From 576c59dbb14c513cddf62bead29d9415ef4d3637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 51/68] fix: analytic completion of a search does not depend on
 earlier searches

---
 .../cslibs_path_planning/generic/ReedsSheppExpansion.hpp   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp b/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
index 02b477c..32fab99 100644
--- a/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
+++ b/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
@@ -54,6 +54,13 @@ struct ReedsSheppExpansion
         }
 
 
+        if(!start->prev) {
+            // first node of a new search
+            current = N;
+            n = N;
+            initial_cost = -1.0;
+        }
+
         ++current;
 
         double cost = start->h;
-- 
2.43.0


From 0211a2a0364c43acdabaa5e85ade81f960c226df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 52/68] fix: analytic completion keeps its state per thread

---
 include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp b/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
index 32fab99..6f7ef12 100644
--- a/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
+++ b/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
@@ -132,7 +132,7 @@ struct ReedsSheppExpansion
 
     static ReedsSheppExpansion& instance()
     {
-        static ReedsSheppExpansion inst;
+        static thread_local ReedsSheppExpansion inst;
         return inst;
     }
 
-- 
2.43.0


From 423132fcc8d71e4cc48cdc55303c62ef20765772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:02 +0000
Subject: [PATCH 53/68] fix: SamplingPlanner returns a reachable sample
 whatever its gain-weighted cost

---
 src/sampling/SamplingPlanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampling/SamplingPlanner.cpp b/src/sampling/SamplingPlanner.cpp
index e666ecf..c9d81ba 100644
--- a/src/sampling/SamplingPlanner.cpp
+++ b/src/sampling/SamplingPlanner.cpp
@@ -35,7 +35,7 @@ Curve* SamplingPlanner::createPath(const Pose2d& start, GoalRegion *region, int
   Pose2d goal;
   Curve* best_curve=0;
   double gain = 1.0;
-  double min_cost = 999999;
+  double min_cost = DBL_MAX;
   while (region->getNextGoal(goal, gain)) {
     Pose2d goal_map = pos2map(goal, *map_);
     //std::cout << "goal map pose "<<goal_map.x << " "<<goal_map.y << " "<<goal_map.theta*180.0/M_PI<<"deg" << std::endl;
-- 
2.43.0


From b995d35e83ca8495c11daec0d3dd93bea5d05246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:16 +0000
Subject: [PATCH 54/68] fix: the weight of a drivable curve may exceed 999999

NOT_FREE marks curves that collide. With map costs or large cost factors
the weight of collision-free curves gets larger than this value, so that
they were taken for blocked and no curve was found.
---
 include/cslibs_path_planning/ReedsShepp/CurveSegment.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/ReedsShepp/CurveSegment.h b/include/cslibs_path_planning/ReedsShepp/CurveSegment.h
index 6b89b2b..2eb5bff 100644
--- a/include/cslibs_path_planning/ReedsShepp/CurveSegment.h
+++ b/include/cslibs_path_planning/ReedsShepp/CurveSegment.h
@@ -14,8 +14,10 @@
 
 /// SYSTEM
 #include <assert.h>
+#include <limits>
 
-#define NOT_FREE 999999
+// larger than the weight of every drivable curve
+#define NOT_FREE (std::numeric_limits<float>::max())
 
 namespace lib_path
 {
-- 
2.43.0


From 23c49caae5da8e43cf7c10ea3c1cda25e01710ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:32 +0000
Subject: [PATCH 55/68] fix: uninformed grid searches can be instantiated again

---
 include/cslibs_path_planning/generic/Common.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/cslibs_path_planning/generic/Common.hpp b/include/cslibs_path_planning/generic/Common.hpp
index 7a44501..b3ef430 100644
--- a/include/cslibs_path_planning/generic/Common.hpp
+++ b/include/cslibs_path_planning/generic/Common.hpp
@@ -102,6 +102,15 @@ struct Node : public PointT {
         memory.custom = 0;
     }
 
+    template <class AnyPoint, class Map>
+    static std::vector<NodeType*> getPoses(Map& map, const AnyPoint& p)
+    {
+        NodeType n;
+        NodeType::init(n, p);
+
+        return { map.lookup(n) };
+    }
+
     double distance;
     char marked;
     char custom;
-- 
2.43.0


From 362130b3127486a23d9133ddbf8f1f15ba706284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:32 +0000
Subject: [PATCH 56/68] fix: the non-holonomic neighbourhood can be used in
 searches again

---
 .../generic/NonHolonomicNeighborhood.hpp                     | 2 +-
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp     | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp b/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
index 17e3f68..cbc2b93 100644
--- a/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
@@ -178,7 +178,7 @@ struct NonHolonomicNeighborhoodBase : public NeighborhoodBase
 
     template <class T, class Map, class NodeType>
     static void iterateFreeNeighbors(T& algo, Map& map, NodeType* reference) {
-        bool initial = algo.getStart() == reference || algo.getGoal() == reference;
+        bool initial = algo.isStartOrGoal(reference);
 
         double map_rotation = map.getMap()->getRotation();
 
diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 451c6af..f8892e1 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -167,6 +167,11 @@ public:
 //    }
 
 
+    bool isStartOrGoal(const NodeT* node) const
+    {
+        return start.find(node) != start.end() || goal.find(node) != goal.end();
+    }
+
     OpenNodesManager& getOpenList()
     {
         return open;
-- 
2.43.0


From 2d69fb403f321cfd726cd76054be5519c70be1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:32 +0000
Subject: [PATCH 57/68] fix: half-step turns are not straight moves after a
 change of direction

---
 .../cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp b/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
index cbc2b93..3620369 100644
--- a/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
@@ -105,7 +105,7 @@ struct NonHolonomicNeighborhoodBase : public NeighborhoodBase
 
         if(reference->custom > 0) {
             // if custom flag is positive, reuse the last command
-            if((i%3) != 0) {
+            if(i != 0 && i != 3) {
                 return -1;
             }
         }
-- 
2.43.0


From 6b019975a7b245e566a614d5319ab65feac562b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:32 +0000
Subject: [PATCH 58/68] fix: non-holonomic searches do not change the pose of
 expanded nodes

---
 .../generic/NonHolonomicNeighborhood.hpp                     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp b/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
index 3620369..5eea1f3 100644
--- a/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
@@ -203,6 +203,11 @@ struct NonHolonomicNeighborhoodBase : public NeighborhoodBase
                         continue;
                     }
 
+                    // the successors of an expanded node depend on its exact pose
+                    if(n->isMarked(NodeType::MARK_CLOSED)) {
+                        continue;
+                    }
+
                     if(algo.processNeighbor(reference, n, cost) == PR_ADDED_TO_OPEN_LIST)  {
                         n->custom  = custom;
 
-- 
2.43.0


From ceae278f296b67b0d7021ee4696eefad2cdf1896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:34 +0000
Subject: [PATCH 59/68] fix: straight runs are recognised whatever
 representation the start heading has

---
 .../cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp b/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
index 5eea1f3..ee34c71 100644
--- a/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
@@ -138,7 +138,7 @@ struct NonHolonomicNeighborhoodBase : public NeighborhoodBase
                     return -1;
                 }
 
-                if(test->theta != expected_theta) {
+                if(std::abs(MathHelper::AngleClamp(test->theta - expected_theta)) > 1e-6) {
                     return -1;
                 }
             }
-- 
2.43.0


From 7f257e02101b5fd3bebc44dfd332b5e68c776002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:14 +0000
Subject: [PATCH 60/68] fix: the straight run before a change of direction ends
 at the turning point

---
 .../cslibs_path_planning/generic/SteeringNeighborhood.hpp  | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
index 9033b55..3dce420 100644
--- a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
@@ -237,7 +237,8 @@ struct SteeringNeighborhood :
 
                 const NodeType* test = reference;
                 for(int straight_parts = 0; straight_parts < straight_dir_switch - 1; ++straight_parts) {
-                    if(!test->prev) {
+                    // the steering angle of a node belongs to the move that leads to it
+                    if(!test->prev || std::abs(test->steering_angle) > max_steer_angle_for_turn) {
                         return -1;
                     }
 
@@ -246,10 +247,6 @@ struct SteeringNeighborhood :
                         throw std::logic_error("cannot cast prev");
                         return -1;
                     }
-
-                    if(std::abs(test->steering_angle) > max_steer_angle_for_turn) {
-                        return -1;
-                    }
                 }
                 custom = straight_dir_switch - 1;
 
-- 
2.43.0


From b3216860d376b3164de697ee7e0c40810eb2b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:10 +0000
Subject: [PATCH 61/68] fix: straight moves owed after a change of direction
 keep the wheels straight

---
 .../generic/SteeringNeighborhood.hpp                | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
index 3dce420..95d0afb 100644
--- a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
@@ -129,12 +129,6 @@ struct SteeringNeighborhood :
 
         int max_steer_angle_for_turn = 0;
 
-        if(reference->custom > 0) {
-            // if custom flag is positive, we need to go straight
-            if(std::abs(reference->steering_angle) > max_steer_angle_for_turn) {
-                return -1;
-            }
-        }
 //        if(!reversed) {
 //            if(initial) {
 //                // if we begin at the start and go backwards, we add a special straight segment here
@@ -207,6 +201,13 @@ struct SteeringNeighborhood :
             steering_angle = -MAX_STEER_ANGLE;
         }
 
+        if(reference->custom > 0) {
+            // if custom flag is positive, we need to go straight
+            if(std::abs(steering_angle) > max_steer_angle_for_turn) {
+                return -1;
+            }
+        }
+
         //        cost *= std::abs(steering_angle) / MAX_STEER_ANGLE * 1.1;
 
         // check driving direction
-- 
2.43.0


From e8bf77b1ed3b681425ddad2c839162d81267ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:28 +0000
Subject: [PATCH 62/68] fix: non-holonomic searches turn headings the right way
 on rotated maps

---
 .../cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp b/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
index ee34c71..7bfc5d7 100644
--- a/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
@@ -95,7 +95,7 @@ struct NonHolonomicNeighborhoodBase : public NeighborhoodBase
         }
 
         // apply map rotation
-        t += map_rotation;
+        t -= map_rotation;
 
         // normalize the angle
         t = MathHelper::AngleClamp(t);
@@ -171,7 +171,7 @@ struct NonHolonomicNeighborhoodBase : public NeighborhoodBase
             cost *= 4.0;
         }
 
-        theta_ = MathHelper::AngleClamp(t - map_rotation);
+        theta_ = MathHelper::AngleClamp(t + map_rotation);
 
         return cost * 1;
     }
-- 
2.43.0


From 4cb0c42d34f324a7731df803148054d35f140b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:10 +0000
Subject: [PATCH 63/68] fix: precomputing curve costs no longer crashes at
 starts without a curve

---
 src/ReedsShepp/CostPrecomputation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReedsShepp/CostPrecomputation.cpp b/src/ReedsShepp/CostPrecomputation.cpp
index fe11f23..c5c174d 100644
--- a/src/ReedsShepp/CostPrecomputation.cpp
+++ b/src/ReedsShepp/CostPrecomputation.cpp
@@ -142,7 +142,8 @@ void precompute(const std::string& dir, int dimension, int angles, double res, b
                 Pose2d start(x,y, angle_rad);
                 Curve* c = generator.find_path(start, target, &map_info, true);
 
-                double v = c->weight();
+                // there is no curve for starts very close to the target
+                double v = c ? c->weight() : NOT_FREE;
 //                v = hypot(target.x-x, target.y-y);
 
                 delete c;
-- 
2.43.0


From dc977e6d7e1312f301adb9920bebd7ac8daa814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:10 +0000
Subject: [PATCH 64/68] fix: simulated robots left of or above the picture no
 longer mark its border

---
 src/common/path4ws_simulator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/path4ws_simulator.cpp b/src/common/path4ws_simulator.cpp
index 4cf2068..fcea0d9 100644
--- a/src/common/path4ws_simulator.cpp
+++ b/src/common/path4ws_simulator.cpp
@@ -79,8 +79,8 @@ void Path4wsSimulator::updateMap()
   int offy=map_height_/2;
   for (unsigned i=0;i<n_;++i) {
     Bot4ws& bot=bots_[i];
-    int x=bot.x_/map_res_+offx;
-    int y=bot.y_/map_res_+offy;
+    int x=floor(bot.x_/map_res_+offx);
+    int y=floor(bot.y_/map_res_+offy);
     //std::cout<< "x:"<<bot.x_ << " offx:"<<offx<< " y:"<<bot.y_<< " ix:"<<x<<std::endl;
     if (x>=0 && x<map_width_ &&y>=0 && y<map_height_) {
       CvScalar val=cvGet2D(map_,x,y);
-- 
2.43.0


From 9860c468dcebd4b3913c27b370263b1e44bd7015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:10 +0000
Subject: [PATCH 65/68] fix: mazes of the smallest cells stay on the map

---
 include/cslibs_path_planning/evaluation/MapGenerators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cslibs_path_planning/evaluation/MapGenerators.hpp b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
index 3706ab6..7ebe764 100644
--- a/include/cslibs_path_planning/evaluation/MapGenerators.hpp
+++ b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
@@ -11,8 +11,8 @@ public:
     Maze(int width, cv::Mat orig_map)
         : width(std::max(2, width)), orig_map(orig_map), border(1)
     {
-        w = orig_map.rows / width;
-        h = orig_map.cols / width;
+        w = orig_map.rows / this->width;
+        h = orig_map.cols / this->width;
         N = w * h;
 
         border = std::max(1, width/4);
-- 
2.43.0


From 215c1f5bd946a70612a6ef440310d6ee78622102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:15 +0000
Subject: [PATCH 66/68] fix: mazes begun beyond the last whole cell no longer
 write outside their table

---
 include/cslibs_path_planning/evaluation/MapGenerators.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/evaluation/MapGenerators.hpp b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
index 7ebe764..dbc192d 100644
--- a/include/cslibs_path_planning/evaluation/MapGenerators.hpp
+++ b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
@@ -21,7 +21,8 @@ public:
     }
 
     virtual void run(const Pt& start, const Pt& goal) {
-        cv::Point s(start.x / width, start.y / width);
+        // the last pixels do not make up a whole cell, if the width does not divide the map
+        cv::Point s(std::min<int>(start.x / width, h-1), std::min<int>(start.y / width, w-1));
         cv::Point g(goal.x / width, goal.y / width);
 
         expanded = 0;
-- 
2.43.0


From ba1efa3bf962687dc801ff095ac373541ccb4f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:44 +0000
Subject: [PATCH 67/68] fix: drawing curves no longer fails at arrows too small
 for two pixels of thickness

---
 src/ReedsShepp/CurveRenderer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ReedsShepp/CurveRenderer.cpp b/src/ReedsShepp/CurveRenderer.cpp
index 6118555..68e4591 100644
--- a/src/ReedsShepp/CurveRenderer.cpp
+++ b/src/ReedsShepp/CurveRenderer.cpp
@@ -124,13 +124,16 @@ void CurveRenderer::draw_arrow(Curve* curve, Pose2d& pose, CvScalar color, float
 
     double hs = curve->m_map->getHeight();
 
+    // OpenCV refuses lines without thickness
+    int thickness = std::max(1, (int) (2.0f * scale));
+
     Point2d tip = t + dir.rotate(pose.theta);
     cv::line(m_debug_image, p2cv(pose, hs), p2cv(t + dir.rotate(pose.theta), hs),
-             color, 2.0f * scale, CV_AA);
+             color, thickness, CV_AA);
     cv::line(m_debug_image, p2cv(tip, hs), p2cv(t + left.rotate(pose.theta), hs),
-             color, 2.0f * scale, CV_AA);
+             color, thickness, CV_AA);
     cv::line(m_debug_image, p2cv(tip, hs), p2cv(t + right.rotate(pose.theta), hs),
-             color, 2.0f * scale, CV_AA);
+             color, thickness, CV_AA);
 }
 
 void CurveRenderer::display_overlay(Curve* curve)
-- 
2.43.0


From 271dc1d413338e2afbc0f2d1e9ddfb75438423bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:20 +0000
Subject: [PATCH 68/68] fix: an area without unknown cells is not reported as
 lacking information

---
 src/common/GridMap2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/GridMap2d.cpp b/src/common/GridMap2d.cpp
index 481acda..5730e72 100644
--- a/src/common/GridMap2d.cpp
+++ b/src/common/GridMap2d.cpp
@@ -85,9 +85,9 @@ bool GridMap2d::isAreaNoInformation(MapArea2d &area ) const
     while ( area.next()) {
         area.getCell( x, y );
         if ( isInMap( x, y ) && isNoInformation(x, y))
-            return false;
+            return true;
     }
-    return true;
+    return false;
 }
 
 bool GridMap2d::isAreaOccupied( MapArea2d &area ) const
-- 
2.43.0

