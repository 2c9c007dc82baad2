From 4d15a42ca267f1b3833ea5987e3c64accf82a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 01/79] fix: invalid Nastran component code builds its message
 out of bounds

---
 Abstract/Dof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Dof.cpp b/Abstract/Dof.cpp
index 80084b2..26afc2d 100644
--- a/Abstract/Dof.cpp
+++ b/Abstract/Dof.cpp
@@ -190,7 +190,7 @@ DOFS DOFS::nastranCodeToDOFS(int nastranCode) {
 		number = number / 10;
 		auto codeiter = DOF_BY_NASTRANCODE.left.find(nastranDigit);
 		if (codeiter == DOF_BY_NASTRANCODE.left.end()) {
-			throw invalid_argument("Invalid Nastran code: " + nastranCode);
+			throw invalid_argument("Invalid Nastran code: " + to_string(nastranCode));
 		}
 		DOFS internalDOFCode {static_cast<char>(codeiter->second)};
 		dofs += internalDOFCode;
-- 
2.43.0


From 923a70653b7dbaa041120100c57900f165669880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 02/79] fix: comparing matrices with different explicit zeros
 reads past the end

---
 Abstract/Dof.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Abstract/Dof.cpp b/Abstract/Dof.cpp
index 26afc2d..777138c 100644
--- a/Abstract/Dof.cpp
+++ b/Abstract/Dof.cpp
@@ -454,13 +454,21 @@ bool DOFMatrix::isEqual(const DOFMatrix& other) const noexcept {
         return false; // This should be relaxed: maybe other matrix has some zero values explicitely
     for (auto& entry : componentByDofs) {
         const auto& otherit = other.componentByDofs.find(entry.first);
-        if (otherit == other.componentByDofs.end() and not is_zero(entry.second)) {
-            return false;
+        if (otherit == other.componentByDofs.end()) {
+            if (not is_zero(entry.second)) {
+                return false;
+            }
+            continue;
         }
         if (not is_equal(entry.second, otherit->second)) {
             return false;
         }
     }
+    for (auto& otherEntry : other.componentByDofs) {
+        if (componentByDofs.find(otherEntry.first) == componentByDofs.end() and not is_zero(otherEntry.second)) {
+            return false;
+        }
+    }
     return true;
 }
 
-- 
2.43.0


From a3f337e5de2e07e0aa9fe780f027d4c34f4a4099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:58 +0000
Subject: [PATCH 03/79] fix: spherical coordinate systems are tagged as
 spherical, not cylindrical

---
 Abstract/CoordinateSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index 2fb85f6..a0838c7 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -242,7 +242,7 @@ VectorialValue CylindricalCoordinateSystem::getLocalEulerAnglesIntrinsicZYX(cons
 SphericalCoordinateSystem::SphericalCoordinateSystem(const Mesh& mesh,
         const VectorialValue origin, const VectorialValue ex, const VectorialValue ey, const Reference<CoordinateSystem> rcs,
         int original_id) :
-        CoordinateSystem(mesh, CoordinateSystem::Type::ABSOLUTE, CoordinateSystem::CoordinateType::CYLINDRICAL, origin, ex, ey, rcs, original_id) {
+        CoordinateSystem(mesh, CoordinateSystem::Type::ABSOLUTE, CoordinateSystem::CoordinateType::SPHERICAL, origin, ex, ey, rcs, original_id) {
 }
 
 // TODO : LD What's this ? Should this method be renamed moveOrigin ?
-- 
2.43.0


From a8aa315ab0994654fdb67f8d9f1e3e538f5bd758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:06 +0000
Subject: [PATCH 04/79] fix: Euler angles of a coordinate system defined in
 another one used the axes twice

---
 Abstract/CoordinateSystem.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index a0838c7..7756bf1 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -67,9 +67,10 @@ VectorialValue CoordinateSystem::getEulerAnglesIntrinsicZYX(const CoordinateSyst
         EY= this->ey;
         EZ= this->ez;
     }else{
-        EX= vectorToGlobal(this->ex);
-        EY= vectorToGlobal(this->ey);
-        EZ= vectorToGlobal(this->ez);
+        const auto& parentCS = mesh.findCoordinateSystem(rcs);
+        EX= parentCS->vectorToGlobal(this->ex);
+        EY= parentCS->vectorToGlobal(this->ey);
+        EZ= parentCS->vectorToGlobal(this->ez);
     }
     if (cs != nullptr){
         EX = cs->vectorToLocal(EX);
-- 
2.43.0


From a7fce046751bd5a538ccfc9a60a4ff69c6765160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 05/79] fix: wrong nodes on two faces of the 20-node hexahedron

The second face repeated a middle node and missed another one; the third
one was oriented outwards, contrary to all the others and to HEXA8.
---
 Abstract/MeshComponents.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index 4d8fcbf..361252d 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -382,8 +382,8 @@ unordered_map<CellType::Code, vector<vector<int>>, EnumClassHash > Cell::init_fa
     };
     vector<vector<int> > hexa20list = { //
         {1,2,3,4,9,10,11,12}, //
-        {5,8,7,6,16,15,14,16}, //
-        {1,2,6,5,9,18,13,17}, //
+        {5,8,7,6,16,15,14,13}, //
+        {1,5,6,2,17,13,18,9}, //
         {2,6,7,3,18,14,19,10}, //
         {3,7,8,4,19,15,20,11}, //
         {1,4,8,5,12,20,16,17} //
-- 
2.43.0


From 4f29099b2d4644d2445287fb9f15a72a10b1dbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 06/79] fix: the two nodes given for a face could identify
 another face

Quadrangular faces of pyramids and prisms need two opposite nodes, an edge
is shared by two faces. The opposite node of a quadratic tetrahedron face
has to be a corner.
---
 Abstract/MeshComponents.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index 361252d..5785c85 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -564,22 +564,20 @@ pair<int, int> Cell::two_nodeids_from_facenum(int faceNum) const {
 	switch(type.code) {
     case CellType::Code::TETRA4_CODE:
     case CellType::Code::TETRA10_CODE: {
-        //node2 is on the opposite face
-        const set<int>& cellOrderedNodeIds{nodeIds.begin(), nodeIds.end()};
-        const set<int>& faceOrderedNodeIds{faceNodeIds.begin(), faceNodeIds.end()};
-        vector<int> v_difference;
-
-        set_difference(cellOrderedNodeIds.begin(), cellOrderedNodeIds.end(),
-                              faceOrderedNodeIds.begin(), faceOrderedNodeIds.end(),
-                              back_inserter(v_difference));
-        return {faceNodeIds[0], v_difference[0]};
+        //node2 is the corner opposite to the face
+        for (const int nodeId : cornerNodeIds()) {
+            if (find(faceNodeIds.begin(), faceNodeIds.end(), nodeId) == faceNodeIds.end()) {
+                return {faceNodeIds[0], nodeId};
+            }
+        }
+        throw logic_error("No corner opposite to face " + to_string(faceNum) + " of " + type.to_str());
     }
     case CellType::Code::PYRA5_CODE:
     case CellType::Code::PENTA6_CODE:
     case CellType::Code::PYRA13_CODE:
     case CellType::Code::PENTA15_CODE: {
         if (faceNodeIds.size() == 4 or faceNodeIds.size() == 8) {
-            return {faceNodeIds[0], faceNodeIds[1]};
+            return {faceNodeIds[0], faceNodeIds[2]};
         } else {
             int nodeId2 = Globals::UNAVAILABLE_INT;
             return {faceNodeIds[0], nodeId2};
-- 
2.43.0


From d950dd2b1f93bca7e335a825d512d9eb22d1ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 07/79] fix: loads on a triangular face of a pyramid were
 applied to its base

The two nodes given for such a face are the ones it shares with the base.
---
 Abstract/MeshComponents.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index 5785c85..9b3628d 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -511,7 +511,7 @@ vector<int> Cell::faceids_from_two_nodes(int nodeId1, int nodeId2) const {
     case CellType::Code::PYRA13_CODE:
     case CellType::Code::PENTA6_CODE:
     case CellType::Code::PENTA15_CODE: {
-
+        const bool isPyramid = type.code == CellType::Code::PYRA5_CODE or type.code == CellType::Code::PYRA13_CODE;
         for (const auto& faceid : faceids) {
             if (find(faceid.begin(), faceid.end(), node1connectivityPos + 1) == faceid.end()) {
                 continue;
@@ -526,7 +526,10 @@ vector<int> Cell::faceids_from_two_nodes(int nodeId1, int nodeId2) const {
 			} else {
                 if (find(faceid.begin(), faceid.end(), node2connectivityPos + 1) != faceid.end()) {
                     nodePositions.assign(faceid.begin(), faceid.end());
-                    break;
+                    // two adjacent nodes of the base of a CPYRAM stand for its **triangular** face
+                    if (not isPyramid or faceid.size() == 3 or faceid.size() == 6) {
+                        break;
+                    }
                 }
 			}
 		}
@@ -579,6 +582,11 @@ pair<int, int> Cell::two_nodeids_from_facenum(int faceNum) const {
         if (faceNodeIds.size() == 4 or faceNodeIds.size() == 8) {
             return {faceNodeIds[0], faceNodeIds[2]};
         } else {
+            if (type.code == CellType::Code::PYRA5_CODE or type.code == CellType::Code::PYRA13_CODE) {
+                // the two nodes shared with the base
+                const bool apexInTheMiddle = faceNodeIds[1] == nodeIds[4];
+                return {faceNodeIds[0], faceNodeIds[apexInTheMiddle ? 2 : 1]};
+            }
             int nodeId2 = Globals::UNAVAILABLE_INT;
             return {faceNodeIds[0], nodeId2};
         }
-- 
2.43.0


From 7444d6595e006ee5b395e270a8ccdb16cca0f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:34 +0000
Subject: [PATCH 08/79] fix: nodes given in a local coordinate system lost
 their node part

---
 Abstract/Mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index 07de406..c14cdbc 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -236,11 +236,11 @@ Node Mesh::findNode(const pos_t nodePosition) const {
           oss <<  " Global Coordinate System used instead."<< endl;
           cerr<< oss.str();
           return Node(nodeData.id, nodeData.x, nodeData.y, nodeData.z, nodePosition, nodeData.dofs,
-              nodeData.x, nodeData.y, nodeData.z, nodeData.cpPos, nodeData.cdPos);
+              nodeData.x, nodeData.y, nodeData.z, nodeData.cpPos, nodeData.cdPos, nodeData.nodePart);
       }
       const VectorialValue& gCoord = coordSystem->positionToGlobal(VectorialValue(nodeData.x,nodeData.y,nodeData.z));
       return Node(nodeData.id, nodeData.x, nodeData.y, nodeData.z, nodePosition, nodeData.dofs,
-          gCoord.x(), gCoord.y(), gCoord.z(), nodeData.cpPos, nodeData.cdPos);
+          gCoord.x(), gCoord.y(), gCoord.z(), nodeData.cpPos, nodeData.cdPos, nodeData.nodePart);
 	}
 }
 
-- 
2.43.0


From 9ee389ac05ad226a7aba635ef2a628bdce5f98e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:34 +0000
Subject: [PATCH 09/79] fix: cells that are not shells were given an
 uninitialised offset

---
 Abstract/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index c14cdbc..2435a48 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -525,7 +525,7 @@ Cell Mesh::findCell(const pos_t cellPosition) const {
 	if (cellData.csPos!=CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
         ocs = static_pointer_cast<OrientationCoordinateSystem>(coordinateSystemStorage.findByPosition(cellData.csPos));
 
-    double offset;
+    double offset = 0.0;
     switch (cellType->dimension.code) {
     case SpaceDimension::Code::DIMENSION0D_CODE: {
         const auto& additional0Ddata = cells.additional0DdataByCelltype.at(*cellType)[cellData.cellTypePosition];
-- 
2.43.0


From d8ac715416fc80c46b23989e64bd475031bcd462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:04 +0000
Subject: [PATCH 10/79] fix: coordinate systems given by GRDSET were confused
 with their internal position

---
 Nastran/NastranParser.h            | 8 ++++----
 Nastran/NastranParser_geometry.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 7d7e76e..1c5529d 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -58,13 +58,13 @@ protected:
 private:
     class GrdSet {
     public:
-        GrdSet(const pos_t cp = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
-                const pos_t cd = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
+        GrdSet(const int cp = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
+                const int cd = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
                 const int ps = 0, const int seid = 0) :
                     cp(cp), cd(cd), ps(ps), seid(seid) {
         }
-        pos_t cp;
-        pos_t cd;
+        int cp; /**< original id of the default positioning coordinate system */
+        int cd; /**< original id of the default displacement coordinate system */
         int ps;
         int seid;
     };
diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index fa8884a..fcad055 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -59,12 +59,12 @@ void NastranParser::parseGRDSET(NastranTokenizer& tok, Model& model) {
     tok.skip(1);
     int cp = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
     if (cp != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
-        grdSet.cp = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cp));
+        grdSet.cp = cp;
         }
     tok.skip(3);
     int cd = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
     if (cd != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
-        grdSet.cd = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cd));
+        grdSet.cd = cd;
         }
     grdSet.ps = tok.nextInt(true, 0);
     grdSet.seid = tok.nextInt(true, 0);
@@ -73,7 +73,7 @@ void NastranParser::parseGRDSET(NastranTokenizer& tok, Model& model) {
 
 void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
     int id = tok.nextInt();
-    int cp = tok.nextInt(true, static_cast<int>(grdSet.cp));
+    int cp = tok.nextInt(true, grdSet.cp);
     pos_t cpos = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
     string scp;
     if (cp != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
@@ -86,7 +86,7 @@ void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
     double x3 = tok.nextDouble(true, 0.0);
 
     /* Coordinate System for Displacement */
-    int cd = tok.nextInt(true, static_cast<int>(grdSet.cd));
+    int cd = tok.nextInt(true, grdSet.cd);
     pos_t cdos = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
     string scd="";
     if (cd != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
-- 
2.43.0


From 5c192d8d5570222b98bab7d573d195a72a379530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:04 +0000
Subject: [PATCH 11/79] fix: blank components of a MOMENT card were read as an
 enormous moment

---
 Nastran/NastranParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index fa2ccab..be9567e 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2027,10 +2027,10 @@ void NastranParser::parseMOMENT(NastranTokenizer& tok, Model& model) {
     int loadset_id = tok.nextInt();
     int node_id = tok.nextInt();
     int csid = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-    double scale = tok.nextDouble(true);
-    double frx = tok.nextDouble(true) * scale;
-    double fry = tok.nextDouble(true) * scale;
-    double frz = tok.nextDouble(true) * scale;
+    double scale = tok.nextDouble(true, 0.0);
+    double frx = tok.nextDouble(true, 0.0) * scale;
+    double fry = tok.nextDouble(true, 0.0) * scale;
+    double frz = tok.nextDouble(true, 0.0) * scale;
 
     const auto& loadSet = model.getOrCreateLoadSet(loadset_id, LoadSet::Type::LOAD);
     const auto& moment1 = make_shared<NodalForce>(model, loadSet,
-- 
2.43.0


From 9309b34cb0c234c1e1166824b0093fbc6a9555f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:04 +0000
Subject: [PATCH 12/79] fix: the angular velocity of an RFORCE card was not
 converted from revolutions to radians

---
 Nastran/NastranParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index be9567e..cd54174 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3234,7 +3234,8 @@ void NastranParser::parseRFORCE(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("MB not supported. Default (0) assumed.", tok, model);
     }
     const auto& loadset = model.getOrCreateLoadSet(sid, LoadSet::Type::LOAD);
-    const auto& rotation = make_shared<RotationNode>(model, loadset, a, g, r1, r2, r3);
+    // A is in revolutions per unit time, the speed of the rotation is in radians per unit time
+    const auto& rotation = make_shared<RotationNode>(model, loadset, 2*M_PI*a, g, r1, r2, r3);
 
     rotation->setInputContext(tok.getInputContext());
     model.add(rotation);
-- 
2.43.0


From 3a460df388699c42aa53f7b01c760cb43b889b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:00 +0000
Subject: [PATCH 13/79] fix: RBAR1 without components must tie all six of them

---
 Nastran/NastranParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index cd54174..1868269 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3145,7 +3145,7 @@ void NastranParser::parseRBAR1(NastranTokenizer& tok, Model& model) {
     int original_id=tok.nextInt();
     int ga = tok.nextInt();
     int gb = tok.nextInt();
-    int cna = tok.nextInt(true, 0);
+    int cna = tok.nextInt(true, 123456);
 
     const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cna), MasterSlaveConstraint::UNAVAILABLE_MASTER, original_id);
     qrc->addSlave(ga);
-- 
2.43.0


From 066f385892bd238c928b23375b56a9ec7b47590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:38 +0000
Subject: [PATCH 14/79] fix: isNextEmpty read past the last field of a line

---
 Nastran/NastranTokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 71eb511..acc0f6a 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -263,6 +263,9 @@ bool NastranTokenizer::isNextEmpty(int n) {
             result = false;
             break;
         }
+        if (currentField + i >= currentLineVector.size()) {
+            break; // absent fields are blank
+        }
         string curField = trim_copy(currentLineVector[currentField + i]);
         result &= curField.empty();
     }
-- 
2.43.0


From 130606266bb7a86531957c4869dce76bb3e64d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:38 +0000
Subject: [PATCH 15/79] fix: offset of PCOMP is the distance of the middle
 surface, not of the bottom one

---
 Nastran/NastranParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 1868269..f33d9c6 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2609,9 +2609,10 @@ void NastranParser::parsePCOMP(NastranTokenizer& tok, Model& model) {
         composite->addLayer(Reference<Material>(Material::Type::MATERIAL,midn), tn, thetan);
     }
     if (is_equal(z0, Globals::UNAVAILABLE_DOUBLE)) {
-        composite->offset = composite->getTotalThickness() / 2.0; // default -1/2 element thickness
+        composite->offset = 0.0; // default -1/2 element thickness: middle surface on the reference plane
     } else {
-        composite->offset = z0;
+        // Z0 is the distance from the reference plane to the bottom surface
+        composite->offset = z0 + composite->getTotalThickness() / 2.0;
     }
     composite->setInputContext(tok.getInputContext());
     composite->add(*getOrCreateCellGroup(pid, model, "PCOMP"));
-- 
2.43.0


From 8b9f9083fe22a1e29366526d519da3dac801882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:38 +0000
Subject: [PATCH 16/79] fix: CONM1 lost its last row and shifted the terms
 after a blank one

---
 Nastran/NastranParser.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index f33d9c6..c99a07a 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1190,13 +1190,10 @@ void NastranParser::parseCONM1(NastranTokenizer& tok, Model& model) {
 
     const auto& nodalMassMatrix = make_shared<DiscretePoint>(model, MatrixType::SYMMETRIC, eid);
 
-    for (dof_int row = 0; row < 5; row++) {
+    for (dof_int row = 0; row < 6; row++) {
         const DOF rowdof = DOF::findByPosition(row);
         for (dof_int col = 0; col <= row; col++) {
             const DOF coldof = DOF::findByPosition(col);
-            if (!tok.isNextDouble()) {
-                break;
-            }
             nodalMassMatrix->addMass(rowdof, coldof, tok.nextDouble(true, 0.0));
         }
     }
-- 
2.43.0


From 866cbc5eb64ebc7154aef96f4b6086974ed073e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:54 +0000
Subject: [PATCH 17/79] fix: grounded scalar springs and dampers: blank G2
 accepted, ground point always fixed

---
 Nastran/NastranParser_geometry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index fcad055..37b9422 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -293,7 +293,7 @@ void NastranParser::parseCDAMP1(NastranTokenizer& tok, Model& model) {
     int pid = tok.nextInt();
     int g1 = tok.nextInt();
     dof_int c1 = parseDOF(tok,model);
-    int g2 = tok.nextInt();
+    int g2 = tok.nextInt(true);
     dof_int c2 = parseDOF(tok,model,true);
 
     // Creates cell
@@ -306,6 +306,7 @@ void NastranParser::parseCDAMP1(NastranTokenizer& tok, Model& model) {
         g2 = model.mesh.findNodeId(nodePosition);
         spc->addNodeId(g2);
         model.add(spc);
+        model.addConstraintIntoConstraintSet(*spc, *model.commonConstraintSet);
     }
 
     const auto cellPosition= model.mesh.addCell(eid, CellType::SEG2, {g1, g2}, false, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID, pid);
@@ -349,6 +350,7 @@ void NastranParser::parseCELAS1(NastranTokenizer& tok, Model& model) {
         g2 = model.mesh.findNodeId(nodePosition);
         spc->addNodeId(g2);
         model.add(spc);
+        model.addConstraintIntoConstraintSet(*spc, *model.commonConstraintSet);
     }
     const auto cellPosition= model.mesh.addCell(eid, cellType, {g1, g2}, false, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID, pid);
     const auto& cellGroup = getOrCreateCellGroup(pid, model, "CELAS1");
-- 
2.43.0


From ce271ad52e6a772afc911fca7f771c88327a06f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:54 +0000
Subject: [PATCH 18/79] fix: CELAS2 with a blank second point is a spring to
 the ground

---
 Nastran/NastranParser_geometry.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 37b9422..ed2ac8f 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -379,8 +379,8 @@ void NastranParser::parseCELAS2(NastranTokenizer& tok, Model& model) {
     double k = tok.nextDouble();
     int g1 = tok.nextInt();
     dof_int c1 = parseDOF(tok,model);
-    int g2 = tok.nextInt();
-    dof_int c2 = parseDOF(tok,model);
+    int g2 = tok.nextInt(true);
+    dof_int c2 = parseDOF(tok,model,true);
     double ge = tok.nextDouble(true, 0.0);
 
     // S is only used for post-treatment, and so discarded.
@@ -391,6 +391,17 @@ void NastranParser::parseCELAS2(NastranTokenizer& tok, Model& model) {
         }
     }
 
+    // If G2 is undefined, it is considered a fictitious grounded point, and c2=c1
+    if (g2 == Globals::UNAVAILABLE_INT or g2 == 0){
+        c2 = c1;
+        const auto& spc = make_shared<SinglePointConstraint>(model, DOFS::ALL_DOFS, 0.0);
+        const auto nodePosition = model.mesh.addNode(Node::AUTO_ID, 0.0, 0.0, 0.0);
+        g2 = model.mesh.findNodeId(nodePosition);
+        spc->addNodeId(g2);
+        model.add(spc);
+        model.addConstraintIntoConstraintSet(*spc, *model.commonConstraintSet);
+    }
+
     // Create a Cell and a cellgroup
     const auto& springGroup = model.mesh.createCellGroup("CELAS2_" + to_string(eid), Group::NO_ORIGINAL_ID, "CELAS2");
     const auto cellPosition= model.mesh.addCell(eid, CellType::SEG2, {g1, g2});
-- 
2.43.0


From 8ea91f80028b05b72027689b1242a9efc674021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:07 +0000
Subject: [PATCH 19/79] fix: PBUSH with trailing stiffness fields left out was
 refused

---
 Nastran/NastranParser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index c99a07a..819db39 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2436,42 +2436,42 @@ void NastranParser::parsePBUSH(NastranTokenizer& tok, Model& model) {
         tok.skipToNotEmpty();
         string flag = tok.nextString();
         if (flag=="K") { // Stiffness values (Default 0.0)
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k1=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
                     k1 = DBL_MAX;
                 else
                     handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k2=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
                     k2 = DBL_MAX;
                 else
                     handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k3=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
                     k3 = DBL_MAX;
                 else
                     handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k4=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
                     k4 = DBL_MAX;
                 else
                     handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k5=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
                     k5 = DBL_MAX;
                 else
                     handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k6=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
-- 
2.43.0


From 1ce35b5e70c4043f6da7b170a07ff1dd10645448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:31 +0000
Subject: [PATCH 20/79] fix: CONM2 products of inertia I31 and I32 were
 exchanged

---
 Nastran/NastranParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 819db39..65f5058 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1230,7 +1230,7 @@ void NastranParser::parseCONM2(NastranTokenizer& tok, Model& model) {
     const double i32 = tok.nextDouble(true, 0.0);
     const double i33 = tok.nextDouble(true, 0.0);
 
-    const auto& nodalMass = make_shared<NodalMass>(model, mass, i11, i22, i33, -i21, -i31, -i32, x1, x2, x3, eid);
+    const auto& nodalMass = make_shared<NodalMass>(model, mass, i11, i22, i33, -i21, -i32, -i31, x1, x2, x3, eid);
 
     const pos_t cpos = ci == 0 ? CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID : model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, ci));
     const auto cellPosition = model.mesh.addCell(eid, CellType::POINT1, { g }, false, cpos);
-- 
2.43.0


From f55ad87e43a9dc48f0843a8adda54f3d6690cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:59 +0000
Subject: [PATCH 21/79] fix: CGAP elements sharing their first point overwrote
 each other

---
 Abstract/Constraint.cpp | 49 +++++++++++++++++++++++------------------
 Abstract/Constraint.h   |  2 +-
 2 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/Abstract/Constraint.cpp b/Abstract/Constraint.cpp
index e46fc35..edf332f 100644
--- a/Abstract/Constraint.cpp
+++ b/Abstract/Constraint.cpp
@@ -609,53 +609,58 @@ GapTwoNodes::GapTwoNodes(Model& model, int original_id) :
 void GapTwoNodes::addGapNodes(int constrainedNodeId, int directionNodeId) {
     const auto constrainedNodePosition = model.mesh.findOrReserveNode(constrainedNodeId);
     const auto directionNodePosition = model.mesh.findOrReserveNode(directionNodeId);
-    directionNodePositionByconstrainedNodePosition[constrainedNodePosition] = directionNodePosition;
+    // The same node can be constrained along several directions (CGAP elements sharing their first point)
+    directionNodePositionsByconstrainedNodePosition[constrainedNodePosition].insert(directionNodePosition);
 }
 
 vector<shared_ptr<Gap::GapParticipation>> GapTwoNodes::getGaps() const {
     vector<shared_ptr<Gap::GapParticipation>> result;
-    result.reserve(directionNodePositionByconstrainedNodePosition.size());
-    for (const auto& it : directionNodePositionByconstrainedNodePosition) {
+    result.reserve(directionNodePositionsByconstrainedNodePosition.size());
+    for (const auto& it : directionNodePositionsByconstrainedNodePosition) {
         const Node& constrainedNode = model.mesh.findNode(it.first);
-        const Node& directionNode = model.mesh.findNode(it.second);
-        VectorialValue direction(directionNode.x - constrainedNode.x,
-                directionNode.y - constrainedNode.y, directionNode.z - constrainedNode.z);
-        const auto& gp = make_shared<GapParticipation>(constrainedNode.position, direction.normalized());
-        result.push_back(gp);
+        for (const auto directionNodePosition : it.second) {
+            const Node& directionNode = model.mesh.findNode(directionNodePosition);
+            VectorialValue direction(directionNode.x - constrainedNode.x,
+                    directionNode.y - constrainedNode.y, directionNode.z - constrainedNode.z);
+            const auto& gp = make_shared<GapParticipation>(constrainedNode.position, direction.normalized());
+            result.push_back(gp);
+        }
     }
     return result;
 }
 
 set<pos_t> GapTwoNodes::nodePositions() const {
     set<pos_t> result;
-    for (const auto& it : directionNodePositionByconstrainedNodePosition) {
+    for (const auto& it : directionNodePositionsByconstrainedNodePosition) {
         result.insert(it.first);
     }
     return result;
 }
 
 void GapTwoNodes::removeNodePosition(const pos_t nodePosition) {
-    directionNodePositionByconstrainedNodePosition.erase(nodePosition);
+    directionNodePositionsByconstrainedNodePosition.erase(nodePosition);
 }
 
 bool GapTwoNodes::ineffective() const {
-    return directionNodePositionByconstrainedNodePosition.empty();
+    return directionNodePositionsByconstrainedNodePosition.empty();
 }
 
 DOFS GapTwoNodes::getDOFSForNode(const pos_t nodePosition) const {
-    const auto& it = directionNodePositionByconstrainedNodePosition.find(nodePosition);
+    const auto& it = directionNodePositionsByconstrainedNodePosition.find(nodePosition);
     DOFS dofs(DOFS::NO_DOFS);
-    if (it != directionNodePositionByconstrainedNodePosition.end()) {
+    if (it != directionNodePositionsByconstrainedNodePosition.end()) {
         const Node& constrainedNode = model.mesh.findNode(it->first);
-        const Node& directionNode = model.mesh.findNode(it->second);
-        VectorialValue direction(directionNode.x - constrainedNode.x,
-                directionNode.y - constrainedNode.y, directionNode.z - constrainedNode.z);
-        if (!is_zero(direction.x()))
-            dofs += DOF::DX;
-        if (!is_zero(direction.y()))
-            dofs += DOF::DY;
-        if (!is_zero(direction.z()))
-            dofs += DOF::DZ;
+        for (const auto directionNodePosition : it->second) {
+            const Node& directionNode = model.mesh.findNode(directionNodePosition);
+            VectorialValue direction(directionNode.x - constrainedNode.x,
+                    directionNode.y - constrainedNode.y, directionNode.z - constrainedNode.z);
+            if (!is_zero(direction.x()))
+                dofs += DOF::DX;
+            if (!is_zero(direction.y()))
+                dofs += DOF::DY;
+            if (!is_zero(direction.z()))
+                dofs += DOF::DZ;
+        }
     }
     return dofs;
 }
diff --git a/Abstract/Constraint.h b/Abstract/Constraint.h
index 910cb12..a215973 100644
--- a/Abstract/Constraint.h
+++ b/Abstract/Constraint.h
@@ -251,7 +251,7 @@ public:
 
 class GapTwoNodes: public Gap {
 private:
-	std::map<pos_t, pos_t> directionNodePositionByconstrainedNodePosition;
+	std::map<pos_t, std::set<pos_t>> directionNodePositionsByconstrainedNodePosition;
 public:
 	GapTwoNodes(Model& model, int original_id = NO_ORIGINAL_ID);
 	void addGapNodes(int constrainedNodeId, int directionNodeId);
-- 
2.43.0


From af300d48927eaa20193f9b3de448f231c6edff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:52 +0000
Subject: [PATCH 22/79] fix: a SET3 with the number of a property shared its
 group or stopped the translation

---
 Nastran/NastranParser.cpp          |  4 ++--
 Nastran/NastranParser.h            |  8 ++++++++
 Nastran/NastranParser_geometry.cpp | 21 +++++++++++++++++----
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 65f5058..5158f5e 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3448,7 +3448,7 @@ void NastranParser::parseSET3(NastranTokenizer& tok, Model& model) {
     string des = tok.nextString();
 
     if (des == "GRID") {
-        shared_ptr<NodeGroup> nodeGroup = model.mesh.findOrCreateNodeGroup(name,sid,"SET3");
+        shared_ptr<NodeGroup> nodeGroup = model.mesh.findOrCreateNodeGroup(name,availableGroupId(sid, model),"SET3");
         const auto& ids = tok.nextInts();
         nodeGroup->addNodeIds(ids);
         const auto& setValue = make_shared<SetValue<int>>(model, set<int>{ids.begin(), ids.end()}, sid);
@@ -3456,7 +3456,7 @@ void NastranParser::parseSET3(NastranTokenizer& tok, Model& model) {
         setValue->setInputContext(tok.getInputContext());
         model.add(setValue);
     } else if (des == "ELEM") {
-        shared_ptr<CellGroup> cellGroup = model.mesh.createCellGroup(name,sid,"SET3");
+        shared_ptr<CellGroup> cellGroup = model.mesh.createCellGroup(name,availableGroupId(sid, model),"SET3");
         const auto& ids = tok.nextInts();
         cellGroup->addCellIds(ids);
         const auto& setValue = make_shared<SetValue<int>>(model, set<int>{ids.begin(), ids.end()}, sid);
diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 1c5529d..23f4d6a 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -867,6 +867,14 @@ private:
      *  The name of the group is then "COMMAND_property_id".
      */
     std::shared_ptr<CellGroup> getOrCreateCellGroup(int group_id, Model& model, std::string comment);//in NastranParser_geometry.cpp
+    /**
+     *  Find the CellGroup of a property, by its name.
+     */
+    std::shared_ptr<CellGroup> findPropertyGroup(int property_id, Model& model) const;//in NastranParser_geometry.cpp
+    /**
+     *  Id of a new group: the wanted one, or NO_ORIGINAL_ID if another group already has it.
+     */
+    int availableGroupId(int group_id, const Model& model) const;//in NastranParser_geometry.cpp
 
     /**
      * Parse and build an Orientation referentiel.
diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index ed2ac8f..68c45d8 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -109,24 +109,37 @@ void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
     }
 }
 
+shared_ptr<CellGroup> NastranParser::findPropertyGroup(int property_id, Model& model) const {
+    // Look for the name, as other groups (SET3) can have the same number as a property
+    auto cellGroup = dynamic_pointer_cast<CellGroup>(model.mesh.findGroup("PROP_" + to_string(property_id)));
+    if (cellGroup == nullptr) {
+        cellGroup = dynamic_pointer_cast<CellGroup>(model.mesh.findGroup("CGVEGA_" + to_string(property_id)));
+    }
+    return cellGroup;
+}
+
+int NastranParser::availableGroupId(int group_id, const Model& model) const {
+    return model.mesh.hasGroup(group_id) ? Group::NO_ORIGINAL_ID : group_id;
+}
+
 void NastranParser::addProperty(NastranTokenizer& tok, int property_id, int cell_id, Model& model) {
-    auto cellGroup = dynamic_pointer_cast<CellGroup>(model.mesh.findGroup(property_id));
+    auto cellGroup = findPropertyGroup(property_id, model);
     if (cellGroup == nullptr) {
         string cellGroupName = "PROP_" + to_string(property_id);
         string comment = cellGroupName;
         auto commentEntry = tok.labelByCommentTypeAndId.find({NastranTokenizer::CommentType::COMP, property_id});
         if (commentEntry != tok.labelByCommentTypeAndId.end())
             comment = commentEntry->second;
-        cellGroup = model.mesh.createCellGroup(cellGroupName, property_id, comment);
+        cellGroup = model.mesh.createCellGroup(cellGroupName, availableGroupId(property_id, model), comment);
     }
     cellGroup->addCellId(cell_id);
 }
 
 shared_ptr<CellGroup> NastranParser::getOrCreateCellGroup(int group_id, Model& model, string comment) {
-    auto cellGroup = dynamic_pointer_cast<CellGroup>(model.mesh.findGroup(group_id));
+    auto cellGroup = findPropertyGroup(group_id, model);
 
     if (cellGroup == nullptr) {
-        cellGroup = model.mesh.createCellGroup("CGVEGA_"+to_string(group_id), group_id, comment);
+        cellGroup = model.mesh.createCellGroup("CGVEGA_"+to_string(group_id), availableGroupId(group_id, model), comment);
     }
     return cellGroup;
 }
-- 
2.43.0


From 158812353e3d8cdbf6df2b0f5f79c611dcc696dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:36 +0000
Subject: [PATCH 23/79] fix: BSURF and SET3 naming elements defined later in
 the deck crashed

---
 Nastran/NastranParser.cpp | 28 ++++++++++++++++++++++++++--
 Nastran/NastranParser.h   |  9 +++++++++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 5158f5e..57c685b 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -566,9 +566,33 @@ void NastranParser::parseBULKSection(NastranTokenizer &tok, Model& model) {
         }
         tok.nextLine();
     }
+    addPendingCellIds(model);
 
 }
 
+void NastranParser::addCellIdsToGroup(CellGroup& cellGroup, const list<int>& cellIds, const Model& model) {
+    for (const int cellId : cellIds) {
+        if (model.mesh.hasCell(cellId)) {
+            cellGroup.addCellId(cellId);
+        } else {
+            pendingCellIds.push_back({cellGroup.getName(), cellId});
+        }
+    }
+}
+
+void NastranParser::addPendingCellIds(const Model& model) {
+    list<pair<string, int>> stillPending;
+    for (const auto& pending : pendingCellIds) {
+        const auto& cellGroup = dynamic_pointer_cast<CellGroup>(model.mesh.findGroup(pending.first));
+        if (cellGroup == nullptr or not model.mesh.hasCell(pending.second)) {
+            stillPending.push_back(pending);
+        } else {
+            cellGroup->addCellId(pending.second);
+        }
+    }
+    pendingCellIds = stillPending;
+}
+
 fs::path NastranParser::findModelFile(const string& filename) {
     if (!fs::exists(filename)) {
         throw invalid_argument("Can't find file : " + fs::absolute(filename).string());
@@ -1053,7 +1077,7 @@ void NastranParser::parseBSURF(NastranTokenizer& tok, Model& model) {
     int id = tok.nextInt();
     string gname = "BSURF_" + to_string(id);
     auto gsurf = model.mesh.createCellGroup(gname, CellGroup::NO_ORIGINAL_ID, "BSURF");
-    gsurf->addCellIds(tok.nextInts());
+    addCellIdsToGroup(*gsurf, tok.nextInts(), model);
     const auto& surface = make_shared<BoundarySurface>(model, id);
     surface->add(*gsurf);
     surface->setInputContext(tok.getInputContext());
@@ -3458,7 +3482,7 @@ void NastranParser::parseSET3(NastranTokenizer& tok, Model& model) {
     } else if (des == "ELEM") {
         shared_ptr<CellGroup> cellGroup = model.mesh.createCellGroup(name,availableGroupId(sid, model),"SET3");
         const auto& ids = tok.nextInts();
-        cellGroup->addCellIds(ids);
+        addCellIdsToGroup(*cellGroup, ids, model);
         const auto& setValue = make_shared<SetValue<int>>(model, set<int>{ids.begin(), ids.end()}, sid);
         setValue->markAsWritten();
         setValue->setInputContext(tok.getInputContext());
diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 23f4d6a..a5f3491 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -875,6 +875,15 @@ private:
      *  Id of a new group: the wanted one, or NO_ORIGINAL_ID if another group already has it.
      */
     int availableGroupId(int group_id, const Model& model) const;//in NastranParser_geometry.cpp
+    /**
+     *  Add cells to a group. The cells can be defined later in the file: their ids are then kept in pendingCellIds.
+     */
+    void addCellIdsToGroup(CellGroup& cellGroup, const std::list<int>& cellIds, const Model& model);
+    /**
+     *  Add to their groups the pending cells that are now defined.
+     */
+    void addPendingCellIds(const Model& model);
+    std::list<std::pair<std::string, int>> pendingCellIds; /**< (group name, cell id) of cells not defined yet. */
 
     /**
      * Parse and build an Orientation referentiel.
-- 
2.43.0


From 346055a02a537d822f63b55ef9aefc69dfc53af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:39 +0000
Subject: [PATCH 24/79] fix: CMASS2 gave a coupling mass only, and refused a
 grounded mass

---
 Nastran/NastranParser_geometry.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 68c45d8..f468a3a 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -517,10 +517,15 @@ void NastranParser::parseCMASS2(NastranTokenizer& tok, Model& model) {
     double m = tok.nextDouble();
     int g1 = tok.nextInt();
     dof_int c1 = parseDOF(tok, model); // Nastran coordinate goes from 1 to 6, VEGA from 0 to 5.
-    int g2 = tok.nextInt();
-    dof_int c2 = parseDOF(tok, model); // Nastran coordinate goes from 1 to 6, VEGA from 0 to 5.
+    int g2 = tok.nextInt(true);
+    dof_int c2 = parseDOF(tok, model, true); // Nastran coordinate goes from 1 to 6, VEGA from 0 to 5.
     const auto& matrix = make_shared<MassMatrix>(model, MatrixType::SYMMETRIC, eid);
-    matrix->addComponent(g1, DOF::findByPosition(c1), g2, DOF::findByPosition(c2), m);
+    matrix->addComponent(g1, DOF::findByPosition(c1), g1, DOF::findByPosition(c1), m);
+    // If G2 is undefined, the second point is grounded
+    if (g2 != Globals::UNAVAILABLE_INT and g2 != 0) {
+        matrix->addComponent(g2, DOF::findByPosition(c2), g2, DOF::findByPosition(c2), m);
+        matrix->addComponent(g1, DOF::findByPosition(c1), g2, DOF::findByPosition(c2), -m);
+    }
     model.add(matrix);
 }
 
-- 
2.43.0


From a5dc7df54139e250daaf4d1ead858f2514634a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:25 +0000
Subject: [PATCH 25/79] fix: unsupported eigenvector norms fall back to MASS,
 as the message says

---
 Nastran/NastranParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 57c685b..f921a2b 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1576,7 +1576,7 @@ void NastranParser::parseEIGB(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     int g = tok.nextInt(true);
     if (g!=Globals::UNAVAILABLE_INT){
@@ -1625,7 +1625,7 @@ void NastranParser::parseEIGR(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     int g = tok.nextInt(true);
     if (g!=Globals::UNAVAILABLE_INT){
@@ -1681,7 +1681,7 @@ void NastranParser::parseEIGRL(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     const auto& bandRange = make_shared<BandRange>(model, lower, nd, upper);
     //bandRange.setParaX(Function::ParaName::FREQ);
-- 
2.43.0


From 59d4075633fbbf8aff123917da1c7d5f9037be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:25 +0000
Subject: [PATCH 26/79] fix: read the NORM field of EIGB

---
 Nastran/NastranParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index f921a2b..4233cef 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1566,7 +1566,7 @@ void NastranParser::parseEIGB(NastranTokenizer& tok, Model& model) {
         ndp=1;
     }
 
-    tok.skip(2);
+    tok.skip(1);
 
     FrequencySearch::NormType norm;
     string normString = tok.nextString(true, "MASS");
-- 
2.43.0


From 3dc150fea8fc71aee6590fef5adcae34dfed44dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:25 +0000
Subject: [PATCH 27/79] fix: default spread and number of frequencies of FREQ4

---
 Nastran/NastranParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 4233cef..bdd3aad 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1798,8 +1798,8 @@ void NastranParser::parseFREQ4(NastranTokenizer& tok, Model& model) {
     const auto& objectiveSet = model.getOrCreateObjectiveSet(sid, ObjectiveSet::Type::FREQ);
     double f1 = tok.nextDouble();
     double f2 = tok.nextDouble();
-    double spread = tok.nextDouble();
-    int nef = tok.nextInt(true, 1);
+    double spread = tok.nextDouble(true, 0.1);
+    int nef = tok.nextInt(true, 3);
 
     const auto& bandRange = make_shared<BandRange>(model, f1, nef, f2);
     //spreadRange.setParaX(Function::ParaName::FREQ);
-- 
2.43.0


From 8d5b5665ba8c223c4d49e048b481421ebe425048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:25 +0000
Subject: [PATCH 28/79] fix: ArcLengthMethod keeps its strategy reference, not
 the address of a temporary

---
 Abstract/Objective.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Objective.h b/Abstract/Objective.h
index 53c14eb..edbb9b7 100644
--- a/Abstract/Objective.h
+++ b/Abstract/Objective.h
@@ -294,7 +294,7 @@ public:
 class ArcLengthMethod: public AnalysisParameter {
 public:
     ArcLengthMethod(Model& model, const std::shared_ptr<ObjectiveSet>, const Reference<Objective>& strategy_reference, int original_id = NO_ORIGINAL_ID);
-    const Reference<Objective>& strategy_reference;
+    const Reference<Objective> strategy_reference;
 };
 
 class Output: public Objective {
-- 
2.43.0


From 0a47bb2d3a409d83712652340938feee51f25bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:06 +0000
Subject: [PATCH 29/79] fix: METHOD selects the real eigenvalue method, not the
 CMETHOD entry

---
 Nastran/NastranParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index bdd3aad..ddc0b74 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -648,7 +648,7 @@ NastranParser::NastranAnalysis NastranParser::autoSubcaseAnalysis(map<string, st
     bool hasMethod = false;
     bool hasCMethod = false;
     for (const auto& contextEntry: context) {
-        if (contextEntry.first.find("METHOD") != string::npos) {
+        if (contextEntry.first.find("METHOD") == 0) {
             hasMethod = true;
             break;
         }
@@ -737,7 +737,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
         int frequency_search_sid = 0;
         int statsub_buckling = 0;
         for (const auto& paramEntry : context) {
-            if (paramEntry.first.find("METHOD") != string::npos) {
+            if (paramEntry.first.find("METHOD") == 0) {
                 frequency_search_sid = stoi(paramEntry.second);
             }
             if (paramEntry.first.find("STATSUB") != string::npos and
@@ -761,7 +761,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
         map<string, string>::iterator it;
         int frequency_search_sid = 0;
         for (it = context.begin(); it != context.end(); it++) {
-            if (it->first.find("METHOD") != string::npos) {
+            if (it->first.find("METHOD") == 0) {
                 frequency_search_sid = stoi(it->second);
                 break;
             }
@@ -785,7 +785,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
         map<string, string>::iterator it;
         int frequency_search_sid = 0;
         for (it = context.begin(); it != context.end(); it++) {
-            if (it->first.find("METHOD") != string::npos) {
+            if (it->first.find("METHOD") == 0) {
                 frequency_search_sid = stoi(it->second);
                 break;
             }
-- 
2.43.0


From ab611ca68193c82310d7386a58c26498a02c3545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:06 +0000
Subject: [PATCH 30/79] fix: output requests on single point and multipoint
 forces do not select constraints

---
 Nastran/NastranParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index ddc0b74..6106b60 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -866,12 +866,12 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
         }
         vector<string> options;
         boost::split(options, key, boost::is_any_of("(, )"), boost::token_compress_on);
-        options.erase( remove_if( options.begin(), options.end(), [](string option){return option.size() == 0;} ));
+        options.erase( remove_if( options.begin(), options.end(), [](string option){return option.size() == 0;} ), options.end());
         if (options.size() >= 2) {
             key = options[0];
             options.erase(options.begin());
         }
-        if (!key.compare(0, 3, "SPC")) {
+        if (key == "SPC") {
             Reference<ConstraintSet> constraintReference(ConstraintSet::Type::SPC, id);
             analysis->add(constraintReference);
             if (!model.find(constraintReference)) { // constraintSet is added in the model if not found in the model
@@ -879,7 +879,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
                 constraintSet->setInputContext(tok.getInputContext());
                 model.add(constraintSet);
             }
-        } else if (!key.compare(0, 3, "MPC")) {
+        } else if (key == "MPC") {
             Reference<ConstraintSet> constraintReference(ConstraintSet::Type::MPC, id);
             analysis->add(constraintReference);
             if (!model.find(constraintReference)) { // constraintSet is added in the model if not found in the model
-- 
2.43.0


From 064bc92118eb0fb5e8e0066b38e9d39fb63e25b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:28 +0000
Subject: [PATCH 31/79] fix: honour the BCONTACT, OFREQUENCY and STRESS
 requests

---
 Nastran/NastranParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 6106b60..d51a4f6 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -911,7 +911,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
                 loadSet->setInputContext(tok.getInputContext());
                 model.add(loadSet);
             }
-        } else if (!key.compare(0, 4, "BCONTACT")) {
+        } else if (!key.compare(0, 8, "BCONTACT")) {
             Reference<ConstraintSet> constraintReference(ConstraintSet::Type::CONTACT, id);
             analysis->add(constraintReference);
             if (!model.find(constraintReference)) { // constraintSet is added in the model if not found in the model
@@ -938,7 +938,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
                 nodalOutput->setInputContext(tok.getInputContext());
                 model.add(nodalOutput);
             }
-        } else if (!key.compare(0, 4, "OFREQUENCY")) {
+        } else if (!key.compare(0, 10, "OFREQUENCY")) {
             if (id != 0) {
                 Reference<ObjectiveSet> objectiveSetReference(ObjectiveSet::Type::OFREQ, id);
                 analysis->add(objectiveSetReference);
@@ -952,8 +952,8 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
                 frequencyOutput->setInputContext(tok.getInputContext());
                 model.add(frequencyOutput);
             }
-        } else if (!key.compare(0, 4, "STRESS")) {
-            if (id != 0) {
+        } else if (!key.compare(0, 6, "STRESS")) {
+            if (id != 0 and find(options.begin(), options.end(), "VMIS") != options.end()) {
                 Reference<ObjectiveSet> objectiveSetReference(ObjectiveSet::Type::STRESS, id);
                 analysis->add(objectiveSetReference);
                 if (model.configuration.logLevel >= LogLevel::TRACE) {
-- 
2.43.0


From 5dec64851722e2b1b66ac350f84cb4048f699956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:28 +0000
Subject: [PATCH 32/79] fix: SUBCOM combines every preceding analysis with its
 own coefficient

---
 Nastran/NastranParser.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index d51a4f6..bc2b6a8 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1019,13 +1019,21 @@ void NastranParser::addCombinationAnalysis(NastranTokenizer& tok, Model& model,
 
     // A SUBSEQ command must follow this command.
     const auto& subseq = context.find("SUBSEQ");
-    vector<string> coefStrings(model.analyses.size());
-    boost::split(coefStrings,subseq->second,boost::is_any_of(","));
-    for (size_t i = 0; i < coefStrings.size(); i++) {
-        auto it = model.analyses.begin();
-        advance(it, i);
+    if (subseq == context.end()) {
+        handleParsingError("SUBSEQ not found for combination", tok, model);
+    }
+    vector<string> coefStrings;
+    // fields of the command are joined by underscores
+    boost::split(coefStrings, subseq->second, boost::is_any_of(",_ "), boost::token_compress_on);
+    coefStrings.erase(remove(coefStrings.begin(), coefStrings.end(), ""), coefStrings.end());
+    if (coefStrings.size() > model.analyses.size()) {
+        handleParsingError("SUBSEQ has more coefficients than preceding analyses", tok, model);
+    }
+    auto it = model.analyses.begin();
+    for (const auto& coefString : coefStrings) {
         const auto& analysis = *it;
-        double coef = stod(coefStrings[i++]);
+        ++it;
+        double coef = stod(coefString);
         if (model.configuration.logLevel >= LogLevel::TRACE) {
             cout << "Assigning analysis " << *analysis << " to combination " << *combination << " with coefficient " << to_string(coef) << endl;
         }
-- 
2.43.0


From d0914a348ec1ad10f1c15afec03d63d3c9a0df57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:38 +0000
Subject: [PATCH 33/79] fix: RESVEC = YES above the subcases was ignored when
 written with a blank

---
 Nastran/NastranParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index bc2b6a8..d156a2e 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -842,7 +842,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
         bool residual_vector = false;
         string search_for = "RESVEC";
         it = context.lower_bound(search_for);
-        if (it != context.end() and it->first.compare(0, search_for.size(), search_for) == 0 and it->second == "YES")
+        if (it != context.end() and it->first.compare(0, search_for.size(), search_for) == 0 and trim_copy(it->second) == "YES")
             residual_vector = true;
 
         if (frequency_search_sid == 0)
-- 
2.43.0


From e91fd76b36d1df97cac0525ab353348e0a2a697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:51 +0000
Subject: [PATCH 34/79] fix: displacement output without PHASE left its complex
 format uninitialised

---
 Abstract/Objective.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Objective.h b/Abstract/Objective.h
index edbb9b7..2e371ec 100644
--- a/Abstract/Objective.h
+++ b/Abstract/Objective.h
@@ -315,7 +315,7 @@ public:
         PHASE_MAGNITUDE
     };
     NodalDisplacementOutput(Model& model, const std::shared_ptr<ObjectiveSet>, std::shared_ptr<Reference<NamedValue>> collection = nullptr, int original_id = NO_ORIGINAL_ID);
-    ComplexOutputType complexOutput;
+    ComplexOutputType complexOutput = ComplexOutputType::REAL_IMAGINARY;
     virtual std::vector<std::shared_ptr<NodeGroup>> getNodeGroups() const override final;
     virtual bool hasNodeGroups() const noexcept override final;
 };
-- 
2.43.0


From addf9cb786ee11c6484611738f5ac16907a08b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:03 +0000
Subject: [PATCH 35/79] fix: an orientation by a vector equals no orientation
 by a node

---
 Abstract/CoordinateSystem.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index 7756bf1..6edd89d 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -362,6 +362,9 @@ bool OrientationCoordinateSystem::operator ==(const OrientationCoordinateSystem&
         return false;
     }
     if (this->getNodeV() == Node::UNAVAILABLE_NODE){
+        if (ocs.getNodeV() != Node::UNAVAILABLE_NODE) {
+            return false;
+        }
         VectorialValue vect = (this->getV() - ocs.getV());
         return is_equal(vect.norm(), 0);
     }else{
-- 
2.43.0


From 2806a76122891f32ce3083c7b08c25fe76dca8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:44 +0000
Subject: [PATCH 36/79] fix: a TUBE section is described by its outer radius
 and its wall thickness

---
 Abstract/Element.cpp      | 6 +++---
 Nastran/NastranParser.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index e8a46b3..3a81826 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -247,11 +247,11 @@ unique_ptr<ElementSet> TubeSectionBeam::clone() const {
 }
 
 double TubeSectionBeam::getAreaCrossSection() const {
-	return M_PI * (pow(radius, 2) - pow(thickness, 2)) ;
+	return M_PI * (pow(radius, 2) - pow(radius - thickness, 2));
 }
 
 double TubeSectionBeam::getMomentOfInertiaY() const {
-	return (pow(radius, 4) - pow(thickness, 4)) * M_PI / 4;
+	return (pow(radius, 4) - pow(radius - thickness, 4)) * M_PI / 4;
 }
 
 double TubeSectionBeam::getMomentOfInertiaZ() const {
@@ -260,7 +260,7 @@ double TubeSectionBeam::getMomentOfInertiaZ() const {
 
 double TubeSectionBeam::getTorsionalConstant() const {
 	// http://en.wikipedia.org/wiki/Torsion_constant
-	return (pow(radius, 4) - pow(thickness, 4)) * M_PI / 2;
+	return (pow(radius, 4) - pow(radius - thickness, 4)) * M_PI / 2;
 }
 
 double TubeSectionBeam::getShearAreaFactorY() const {
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index d156a2e..472e4af 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2220,7 +2220,7 @@ void NastranParser::parsePBARL(NastranTokenizer& tok, Model& model) {
         double extRadius = tok.nextDouble();
         double intRadius = tok.nextDouble();
         nsm = tok.nextDouble(true, 0.0);
-        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, intRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, propertyId);
+        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, extRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, propertyId);
         tubeSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
         tubeSectionBeam->add(*getOrCreateCellGroup(propertyId, model, "PBARL"));
         tubeSectionBeam->setInputContext(tok.getInputContext());
@@ -2398,7 +2398,7 @@ void NastranParser::parsePBEAML(NastranTokenizer& tok, Model& model) {
         double extRadius = tok.nextDouble();
         double intRadius = tok.nextDouble();
         nsm = tok.nextDouble(true, 0.0);
-        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, intRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, pid);
+        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, extRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, pid);
         tubeSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
         tubeSectionBeam->add(*getOrCreateCellGroup(pid, model,"PBEAML"));
         tubeSectionBeam->setInputContext(tok.getInputContext());
-- 
2.43.0


From 6cd40d0a2e208ca65cc99eae851fe544a3c22400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:03 +0000
Subject: [PATCH 37/79] fix: shells of one property with different offsets were
 refused or shared one offset

---
 Abstract/Model.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index e3eb356..3e18917 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2126,46 +2126,50 @@ void Model::createSetGroups() {
 void Model::splitElementsByCellOffsets() {
     vector<shared_ptr<ElementSet>> elementSetsToAdd;
     vector<shared_ptr<ElementSet>> elementSetsToRemove;
-    map<long, shared_ptr<CellContainer>> cellPositionsByRoundedOffset;
 
     for (const auto& elementSet : elementSets.filter(ElementSet::Type::SHELL)) {
         const auto& shell = static_pointer_cast<Shell>(elementSet);
         if (not shell->containsNonzeroOffsetCell())
             continue;
         elementSetsToRemove.push_back(shell);
+        map<double, shared_ptr<CellContainer>> cellContainersByOffset;
         for (const Cell& cell : shell->getCellsIncludingGroups()) {
-            long offsetRounded = lround(pow(cell.offset,6));
-            const auto& it = cellPositionsByRoundedOffset.find(offsetRounded);
-            if (it == cellPositionsByRoundedOffset.end()) {
+            const auto& it = cellContainersByOffset.find(cell.offset);
+            if (it == cellContainersByOffset.end()) {
                 const shared_ptr<ElementSet>& clonedElement = shell->clone();
                 const auto& clonedShell = dynamic_pointer_cast<Shell>(clonedElement);
+                if (not cellContainersByOffset.empty()) {
+                    clonedShell->resetId(); // the first one only keeps the original identifier
+                }
                 clonedShell->clear();
                 clonedShell->offset = shell->offset + cell.offset;
                 clonedShell->add(cell);
-                cellPositionsByRoundedOffset[offsetRounded] = clonedShell;
+                cellContainersByOffset[cell.offset] = clonedShell;
                 elementSetsToAdd.push_back(clonedShell);
             } else {
                 it->second->add(cell);
             }
         }
     }
-    cellPositionsByRoundedOffset.clear();
 
     for (const auto& elementSet : elementSets.filter(ElementSet::Type::COMPOSITE)) {
         const auto& composite = static_pointer_cast<Composite>(elementSet);
         if (not composite->containsNonzeroOffsetCell())
             continue;
         elementSetsToRemove.push_back(composite);
+        map<double, shared_ptr<CellContainer>> cellContainersByOffset;
         for (const Cell& cell : composite->getCellsIncludingGroups()) {
-            long offsetRounded = lround(pow(cell.offset,6));
-            const auto& it = cellPositionsByRoundedOffset.find(offsetRounded);
-            if (it == cellPositionsByRoundedOffset.end()) {
+            const auto& it = cellContainersByOffset.find(cell.offset);
+            if (it == cellContainersByOffset.end()) {
                 const shared_ptr<ElementSet>& clonedElement = composite->clone();
                 const auto& clonedComposite = static_pointer_cast<Composite>(clonedElement);
+                if (not cellContainersByOffset.empty()) {
+                    clonedComposite->resetId(); // the first one only keeps the original identifier
+                }
                 clonedComposite->clear();
                 clonedComposite->offset = composite->offset + cell.offset;
                 clonedComposite->add(cell);
-                cellPositionsByRoundedOffset[offsetRounded] = clonedComposite;
+                cellContainersByOffset[cell.offset] = clonedComposite;
                 elementSetsToAdd.push_back(clonedComposite);
             } else {
                 it->second->add(cell);
-- 
2.43.0


From 8ef617e693d56a0686afcf75edca9d146fced7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:07 +0000
Subject: [PATCH 38/79] fix: scalar springs acted on every component instead of
 the ones they link

---
 Abstract/Element.cpp  | 158 +++++++++++++++---------------------------
 Abstract/Element.h    |  12 +++-
 Aster/AsterWriter.cpp |  36 +++++++++-
 3 files changed, 98 insertions(+), 108 deletions(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 3a81826..4295057 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -1299,128 +1299,80 @@ size_t ScalarSpring::getNbDOFSSpring() const{
 }
 
 bool ScalarSpring::hasTranslations() const {
-	for (const DOF dof1 : DOFS::TRANSLATIONS) {
-		for (const DOF dof2 : DOFS::TRANSLATIONS) {
-            auto codeIter = this->cellpositionByDOFS.find({dof1, dof2});
-            if (codeIter != this->cellpositionByDOFS.end()) {
-				return true;
-            }
-		}
-	}
-	return false;
+    for (const auto& kv : this->cellpositionByDOFS) {
+        if (kv.first.first.isTranslation or kv.first.second.isTranslation) {
+            return true;
+        }
+    }
+    return false;
 }
 
 bool ScalarSpring::hasRotations() const {
-	for (const DOF dof1 : DOFS::ROTATIONS) {
-		for (const DOF dof2 : DOFS::ROTATIONS) {
-            auto codeIter = this->cellpositionByDOFS.find({dof1, dof2});
-            if (codeIter != this->cellpositionByDOFS.end()) {
-				return true;
-            }
-		}
-	}
-	return false;
+    for (const auto& kv : this->cellpositionByDOFS) {
+        if (kv.first.first.isRotation or kv.first.second.isRotation) {
+            return true;
+        }
+    }
+    return false;
 }
 
-vector<double> ScalarSpring::asStiffnessVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
+bool ScalarSpring::isDiagonal() const {
+    for (const auto& kv : this->cellpositionByDOFS) {
+        if (kv.first.first != kv.first.second) {
+            return false;
+        }
+    }
+    return true;
+}
 
+vector<double> ScalarSpring::asSpringVector(double value, DOF dofNodeA, DOF dofNodeB, bool addRotationsIfNotPresent) const {
+    vector<double> result;
+    const int ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
     if (isDiagonal()) {
-        result.insert(result.end(), ncomp, stiffness);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                DOF colcode = DOF::findByPosition(coldof);
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        DOF rowcode = DOF::findByPosition(rowdof);
-                        auto codeIter = this->cellpositionByDOFS.find({rowcode, colcode});
-                        if (codeIter != this->cellpositionByDOFS.end() and colindex == 1 and row_element_index <= 2) {
-                            result.push_back(stiffness);
-                        } else {
-                            result.push_back(0.0);
-                        }
-                    }
+        // the segment matrix is deduced from this diagonal: [K, -K; -K, K]
+        result.resize(ncomp, 0.0);
+        result[dofNodeA.position] = value;
+    } else {
+        // upper triangle, column by column
+        const int componentA = dofNodeA.position;
+        const int componentB = ncomp + dofNodeB.position;
+        for (int column = 0; column < 2 * ncomp; column++) {
+            for (int row = 0; row <= column; row++) {
+                if (row == column and (row == componentA or row == componentB)) {
+                    result.push_back(value);
+                } else if (row == componentA and column == componentB) {
+                    result.push_back(-value);
+                } else {
+                    result.push_back(0.0);
                 }
             }
         }
-    } else {
-        throw logic_error("not yet implemented");
     }
-	return result;
+    return result;
+}
+
+vector<double> ScalarSpring::asStiffnessVector(bool addRotationsIfNotPresent) const {
+    if (cellpositionByDOFS.size() != 1) {
+        throw logic_error("Springs over several components have no common stiffness matrix");
+    }
+    const auto& dofs = cellpositionByDOFS.begin()->first;
+    return asSpringVector(stiffness, dofs.first, dofs.second, addRotationsIfNotPresent);
 }
 
 vector<double> ScalarSpring::asDampingVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
-    if (isDiagonal()) {
-        result.insert(result.end(), ncomp, damping);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                DOF colcode = DOF::findByPosition(coldof);
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        DOF rowcode = DOF::findByPosition(rowdof);
-                        auto codeIter = this->cellpositionByDOFS.find({rowcode, colcode});
-                        if (codeIter != this->cellpositionByDOFS.end() and colindex == 1 and row_element_index <= 2) {
-                            result.push_back(damping);
-                        } else {
-                            result.push_back(0.0);
-                        }
-                    }
-                }
-            }
-        }
-    } else {
-        throw logic_error("not yet implemented");
+    if (cellpositionByDOFS.size() != 1) {
+        throw logic_error("Springs over several components have no common damping matrix");
     }
-	return result;
+    const auto& dofs = cellpositionByDOFS.begin()->first;
+    return asSpringVector(damping, dofs.first, dofs.second, addRotationsIfNotPresent);
 }
 
 vector<double> ScalarSpring::asMassVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
-
-    if (isDiagonal()) {
-        result.insert(result.end(), ncomp, mass);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        result.push_back(mass);
-                    }
-                }
-            }
-        }
-    } else {
-        throw logic_error("not yet implemented");
+    if (cellpositionByDOFS.size() != 1) {
+        throw logic_error("Springs over several components have no common mass matrix");
     }
-	return result;
+    const auto& dofs = cellpositionByDOFS.begin()->first;
+    return asSpringVector(mass, dofs.first, dofs.second, addRotationsIfNotPresent);
 }
 
 } /* namespace vega */
-
diff --git a/Abstract/Element.h b/Abstract/Element.h
index 0f286c5..e843178 100644
--- a/Abstract/Element.h
+++ b/Abstract/Element.h
@@ -678,9 +678,10 @@ public:
     bool hasMass() const override;
 	bool hasTranslations() const override;
 	bool hasRotations() const override;
-	bool isDiagonal() const override {
-	    return true;
-	}
+	/**
+	 *  True if every spring links the same component of its two nodes.
+	 */
+	bool isDiagonal() const override;
 	bool isSymmetric() const override {
 	    return true;
 	}
@@ -692,6 +693,11 @@ public:
      *  and the two impacted DOF.
      */
     void addSpring(pos_t cellPosition, DOF dofNodeA, DOF dofNodeB);
+    /**
+     *  Matrices of one spring: only the components it links are non zero.
+     *  They are the same for every spring when there is only one pair of DOF.
+     */
+    std::vector<double> asSpringVector(double value, DOF dofNodeA, DOF dofNodeB, bool addRotationsIfNotPresent = false) const;
     std::vector<double> asStiffnessVector(bool addRotationsIfNotPresent = false) const override final;
     std::vector<double> asMassVector(bool addRotationsIfNotPresent = false) const override final;
     std::vector<double> asDampingVector(bool addRotationsIfNotPresent = false) const override final;
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index ee03f05..93e19ef 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1093,11 +1093,10 @@ void AsterWriter::writeAffeCaraElem() {
 		auto discrets_1d = asterModel->model.elementSets.filter(ElementSet::Type::DISCRETE_1D);
         const auto& scalar_springs = asterModel->model.elementSets.filter(ElementSet::Type::SCALAR_SPRING);
         const auto& structural_segments = asterModel->model.elementSets.filter(ElementSet::Type::STRUCTURAL_SEGMENT);
-        discrets_1d.insert(discrets_1d.end(), scalar_springs.begin(), scalar_springs.end());
         discrets_1d.insert(discrets_1d.end(), structural_segments.begin(), structural_segments.end());
 		const auto& nodal_masses = asterModel->model.elementSets.filter(
 				ElementSet::Type::NODAL_MASS);
-        auto numDiscrets = discrets_0d.size() + nodal_masses.size() + discrets_1d.size();
+        auto numDiscrets = discrets_0d.size() + nodal_masses.size() + discrets_1d.size() + scalar_springs.size();
 		comm_file_ofs << "                    # writing " << numDiscrets << " discrets" << endl;
 		if (numDiscrets > 0) {
 			comm_file_ofs << "                    DISCRET=(" << endl;
@@ -1203,6 +1202,39 @@ void AsterWriter::writeAffeCaraElem() {
 				}
 				discret->markAsWritten();
 			}
+			for (const auto& discret : scalar_springs) {
+				if (discret->effective()) {
+                    const auto& spring = static_pointer_cast<ScalarSpring>(discret);
+                    const string marker = string(spring->hasRotations() ? "R" : "") + "_" + (spring->isDiagonal() ? "D_" : "") + "L";
+                    // springs over different components do not share the same matrix
+                    for (const auto& cellPositionsByDOFS : spring->getCellPositionByDOFS()) {
+                        const auto& dofs = cellPositionsByDOFS.first;
+                        const auto& cells = make_shared<CellContainer>(asterModel->model.mesh);
+                        cells->addCellPositions(cellPositionsByDOFS.second);
+                        map<string, double> valueByMatrix = {{"K", spring->getStiffness()}};
+                        if (spring->hasDamping()) {
+                            valueByMatrix["A"] = spring->getDamping();
+                        }
+                        if (spring->hasMass()) {
+                            valueByMatrix["M"] = spring->getMass();
+                        }
+                        for (const auto& matrix : valueByMatrix) {
+                            comm_file_ofs << "                             _F(";
+                            writeCellContainer(cells);
+                            comm_file_ofs << endl;
+                            comm_file_ofs << "                                CARA='" << matrix.first << "_T" << marker << "', VALE=(";
+                            for (double value : spring->asSpringVector(matrix.second, dofs.first, dofs.second))
+                                comm_file_ofs << value << ",";
+                            comm_file_ofs << "),)," << endl;
+                        }
+                    }
+				} else {
+					comm_file_ofs
+							<< "                             # WARN Finite Element : SCALAR_SPRING ignored because its GROUP_MA is empty."
+							<< endl;
+				}
+				discret->markAsWritten();
+			}
 			for (const auto& discret : nodal_masses) {
 				if (discret->effective()) {
                     const auto& nodalMass = static_pointer_cast<NodalMass>(discret);
-- 
2.43.0


From 94b81f20ae61abd88b60ddbd8e441a7f39ea9af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:37 +0000
Subject: [PATCH 39/79] fix: the offset of a mass without inertia was lost in
 code_aster

---
 Abstract/Element.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 4295057..390e678 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -946,6 +946,9 @@ bool NodalMass::hasTranslations() const {
 }
 
 bool NodalMass::hasRotations() const {
+	if (not is_zero(m) and (not is_zero(ex) or not is_zero(ey) or not is_zero(ez))) {
+		return true; // the offset of the mass gives it an inertia at the node
+	}
 	return (not is_zero(ixx) or not is_zero(iyy) or not is_zero(izz) or not is_zero(ixy) or not is_zero(iyz) or not is_zero(ixz));
 }
 
-- 
2.43.0


From c98e3eab0db4b1ef292f6a40ccda1b1be1dd4d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:00 +0000
Subject: [PATCH 40/79] fix: K1 and K2 of PBAR are the shear factors of planes
 1 (along Y) and 2 (along Z)

---
 Nastran/NastranParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 472e4af..51557f6 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2146,8 +2146,8 @@ void NastranParser::parsePBAR(NastranTokenizer& tok, Model& model) {
 
     // K1, K2: Area factors for shear. VEGA works with 1/K1 and 1/K2
     // Default values is infinite
-    const double k1 = tok.nextDouble(true); // K1 = Kzz
-    const double k2 = tok.nextDouble(true); // K2 = Kyy
+    const double k1 = tok.nextDouble(true); // K1: shear in plane 1, i.e. along Y
+    const double k2 = tok.nextDouble(true); // K2: shear in plane 2, i.e. along Z
     double invk1, invk2;
     if (is_equal(k1, Globals::UNAVAILABLE_DOUBLE)){
         invk1= 0.0;
@@ -2165,7 +2165,7 @@ void NastranParser::parsePBAR(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("PBAR i12 not implemented.", tok, model);
     }
 
-    const auto& genericSectionBeam = make_shared<GenericSectionBeam>(model, area, i2, i1, j, invk2, invk1, Beam::BeamModel::TIMOSHENKO, nsm,
+    const auto& genericSectionBeam = make_shared<GenericSectionBeam>(model, area, i2, i1, j, invk1, invk2, Beam::BeamModel::TIMOSHENKO, nsm,
             elemId);
     genericSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
     genericSectionBeam->add(*getOrCreateCellGroup(elemId, model, "PBAR"));
-- 
2.43.0


From 7c5162d8f6b90a87dd5f447a788112e91fc37c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:34 +0000
Subject: [PATCH 41/79] fix: FORCE1 was taken as ineffective and dropped

---
 Abstract/Loading.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 580e093..b2f9ea8 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -375,7 +375,7 @@ void NodalForceTwoNodes::scale(const double factor) {
 }
 
 bool NodalForceTwoNodes::ineffective() const {
-	return is_zero(magnitude) or force.iszero();
+	return is_zero(magnitude);
 }
 
 NodalForceFourNodes::NodalForceFourNodes(Model& model, const std::shared_ptr<LoadSet> loadset, const int node1_id,
-- 
2.43.0


From eec39a02cabe6d0c8fd8f2ebed47f07b9524fcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:21 +0000
Subject: [PATCH 42/79] fix: modes reused from a modal frequency response were
 looked for under another name

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 93e19ef..278f7d0 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2750,7 +2750,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             if (reusableAnalysis->type == Analysis::Type::LINEAR_MODAL)
                 modalResuName = "RESU" + to_string(reusableAnalysis->getId());
             else
-                modalResuName = "MOD" + to_string(reusableAnalysis->getId());
+                modalResuName = "MO" + to_string(reusableAnalysis->getId());
 		    comm_file_ofs << "# Reusing previous results: " << modalResuName << " for analysis " << *analysis << endl;
             handleWritingWarning("Reusing previous results: " + modalResuName + " for analysis " + to_str(*analysis));
 		}
-- 
2.43.0


From 9afe90a3bc94dbad061530a7c8f69ffbbb4bdda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:21 +0000
Subject: [PATCH 43/79] fix: modal damping given as G: half of it is the
 critical damping ratio, and its function was not named

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 278f7d0..09bd2a7 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2936,7 +2936,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
                 break;
             }
             case (ModalDamping::DampingType::G): {
-                comm_file_ofs << "AMMOS" << analysis->getId() << " = CALC_FONCTION(COMB=_F(COEF=2.0, FONCTION=" << analysis->getId() << "))" << endl;
+                comm_file_ofs << "AMMOS" << analysis->getId() << " = CALC_FONCTION(COMB=_F(COEF=0.5, FONCTION=AMMOI" << analysis->getId() << "))" << endl;
                 destroyableConcepts.push_back("AMMOS" + to_string(analysis->getId()));
                 break;
             }
-- 
2.43.0


From 074b4c14003e0752ffb18606a62879c744404b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:21 +0000
Subject: [PATCH 44/79] fix: the Z component of the direction of a gap was
 defined according to its Y component

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 09bd2a7..64365da 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1594,7 +1594,7 @@ void AsterWriter::writeDefiContact() {
 							<< "=DEFI_CONSTANTE(VALE=" << gapParticipation->direction.y() << ")"
 							<< endl;
 				}
-				if (!is_zero(gapParticipation->direction.y())) {
+				if (!is_zero(gapParticipation->direction.z())) {
 					comm_file_ofs << "C" << constraintSet.getId() << "MZ" << to_string(gapCount)
 							<< "=DEFI_CONSTANTE(VALE=" << gapParticipation->direction.z() << ")"
 							<< endl;
-- 
2.43.0


From b3a578b80d04d4d589e348b9aa8af5856855b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:21 +0000
Subject: [PATCH 45/79] fix: a frequency band without upper bound was written
 with the lowest number as upper bound

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 64365da..5e7a2b4 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2384,7 +2384,7 @@ void AsterWriter::writeCalcFreq(const std::shared_ptr<LinearModal>& linearModal)
         } else if (not isBuckling and not is_equal(fstart, Globals::UNAVAILABLE_DOUBLE)) {
             comm_file_ofs << "                                    " << suffix << "=(";
             comm_file_ofs << fstart;
-            if (is_equal(fend, Globals::UNAVAILABLE_INT)) {
+            if (is_equal(fend, Globals::UNAVAILABLE_DOUBLE)) {
                 comm_file_ofs << ", " << ")," << endl;
             } else {
                 comm_file_ofs << ", " << fend;
-- 
2.43.0


From 9790589a108ee3f713fcbe2be9c5a092bcd0fbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:21 +0000
Subject: [PATCH 46/79] fix: a structural segment was diagonal when its
 stiffness was not

---
 Abstract/Element.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 390e678..7eba781 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -804,7 +804,7 @@ bool StructuralSegment::isDiagonal() const {
 	if (matrixType == MatrixType::DIAGONAL) {
         return true;
     }
-	return not stiffness.isDiagonal() and damping.isDiagonal() and mass.isDiagonal();
+	return stiffness.isDiagonal() and damping.isDiagonal() and mass.isDiagonal();
 }
 
 bool StructuralSegment::isDiagonalRigid() const {
-- 
2.43.0


From 4b205ee3997a9616ade5c0eec7898abacd2e2635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:15 +0000
Subject: [PATCH 47/79] fix: frequencies spread around the modes were used
 under another name than the defined one

---
 Aster/AsterWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 5e7a2b4..953101a 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2959,7 +2959,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
         const auto& frequencyExcit = static_pointer_cast<FrequencyExcit>(linearDynaModalFreq->getExcitationFrequencies());
         if (frequencyExcit->frequencyType == FrequencyExcit::FrequencyType::SPREAD) {
             ostringstream list_concept_ss;
-            list_concept_ss << "LSPR" << setfill('0') << setw(4) << frequencyExcit->getId();
+            list_concept_ss << "LSPR" << setfill('0') << setw(4) << frequencyExcit->getValue()->getId();
             string concept_name = list_concept_ss.str();
             const auto& frequencyExcitBand = static_pointer_cast<BandRange>(frequencyExcit->getValue());
             comm_file_ofs << concept_name << "=DEFI_LIST_FREQ(" << endl;
@@ -2975,7 +2975,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             destroyableConcepts.push_back(concept_name);
         } else if (frequencyExcit->frequencyType == FrequencyExcit::FrequencyType::INTERPOLATE) {
             ostringstream list_concept_ss;
-            list_concept_ss << "LSIP" << setfill('0') << setw(4) << frequencyExcit->getId();
+            list_concept_ss << "LSIP" << setfill('0') << setw(4) << frequencyExcit->getValue()->getId();
             const auto& frequencyExcitBand = static_pointer_cast<BandRange>(frequencyExcit->getValue());
             string concept_name = list_concept_ss.str();
             string frequencyCount = to_string(frequencyExcitBand->maxsearch);
-- 
2.43.0


From 6f4d01b046ebd8c5e75112cc0daa76aff4d96abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:47 +0000
Subject: [PATCH 48/79] fix: the work hardening slope of MATS1 (against the
 plastic strain) was given to code_aster as the tangent modulus

---
 Aster/AsterWriter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 953101a..1eb4b7f 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1030,7 +1030,13 @@ void AsterWriter::writeMaterials() {
 		if (binature) {
 			const auto& bilinearNature = static_pointer_cast<const BilinearElasticNature>(binature);
 			comm_file_ofs << "                 ECRO_LINE=_F(" << endl;
-			comm_file_ofs << "                         D_SIGM_EPSI=" << bilinearNature->secondary_slope << ","
+			// the work hardening slope is given against the plastic strain, code_aster expects it against the total strain
+			double slope = bilinearNature->secondary_slope;
+			const auto& elasticNature = static_pointer_cast<const ElasticNature>(material->findNature(Nature::NatureType::NATURE_ELASTIC));
+			if (elasticNature and is_defined(slope)) {
+				slope *= elasticNature->getE() / (elasticNature->getE() + slope);
+			}
+			comm_file_ofs << "                         D_SIGM_EPSI=" << slope << ","
 					<< endl;
 			comm_file_ofs << "                         SY=" << bilinearNature->elastic_limit << "," << endl;
 			comm_file_ofs << "                         )," << endl;
-- 
2.43.0


From f7024f5a0168ce6fb3beef8e3db7778ea477075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:54 +0000
Subject: [PATCH 49/79] fix: the elements carrying a non-structural mass had
 two materials, the last one in memory prevailing

---
 Abstract/Model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 3e18917..6dad573 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -917,6 +917,9 @@ void Model::emulateAdditionalMass() {
             const auto& newMaterial = make_shared<Material>(*this);
             newMaterial->addNature(make_shared<ElasticNature>(*this, 0, 0, 0, rho));
             materials.add(newMaterial);
+            for (const auto& material : elementSet->getMaterials()) {
+                cellElementSet->unassignMaterial(material);
+            }
             cellElementSet->assignMaterial(newMaterial);
             // copy and assign new cellGroup
             ostringstream oss;
-- 
2.43.0


From 34f456a111af20ee360dfbcb505a611d12b17ebd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 04:35:05 +0000
Subject: [PATCH 50/79] fix: a range by steps (THRU BY) started at its second
 integer instead of its first step; ranges without beginning or with a null
 step are refused

---
 Nastran/NastranTokenizer.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index acc0f6a..d04f002 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -471,6 +471,9 @@ list<int> NastranTokenizer::nextInts() {
         if (isNextInt()) {
             result.push_back(nextInt());
         } else if (isNextTHRU()) {
+            if (result.empty()) {
+                handleParsingError("THRU without a first value.");
+            }
             skip(1);
             int start = result.back();
             int endint = nextInt();
@@ -483,9 +486,15 @@ list<int> NastranTokenizer::nextInts() {
             if (isNextBY()) {
                 skip(1);
                 step = nextInt();
+                if (step <= 0) {
+                    handleParsingError("BY with a null or negative step.");
+                }
             }
-            for(int i=start+1;i<=endint;i+=step) {
-                result.push_back(i);
+            if (start < endint) {
+                for (long i = static_cast<long>(start) + step; i < endint; i += step) {
+                    result.push_back(static_cast<int>(i));
+                }
+                result.push_back(endint);
             }
         }
 	}
-- 
2.43.0


From db340e06571d6fe72a01ae2f1752212cc1a1ee95 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 04:35:05 +0000
Subject: [PATCH 51/79] fix: a short line was continued as short by a line
 marked long (*); a missing continuation at the end of the file stopped the
 program

---
 Nastran/NastranTokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index d04f002..19e7da7 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -380,9 +380,9 @@ void NastranTokenizer::splitFixedFormat(string& line, const bool longFormat, con
 		//todo:check that continuation tokens are the same
 		bool iseof = readLineSkipComment(line2, false);
 		if (!iseof) {
-			splitFixedFormat(line2, longFormat, false);
+			splitFixedFormat(line2, longFormat or boost::starts_with(line2, "*"), false);
 		} else {
-			throw "Continuation Expected: Line N " + to_string(this->lineNumber);
+			handleParsingWarning("Continuation expected.");
 		}
 	} else {
 		/** Test for automatic continuation : we allow tabulation
-- 
2.43.0


From 3070844036251f3585c90cbf08ca83d904ad0414 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 04:35:05 +0000
Subject: [PATCH 52/79] fix: in free format, the first field of a line was
 taken as a continuation mark when it started with a plus sign

---
 Nastran/NastranTokenizer.cpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 19e7da7..1bb883b 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -156,23 +156,15 @@ bool NastranTokenizer::readLineSkipComment(string& line, bool firstLine) {
 }
 
 void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
-	if (firstLine) {
-		split(currentLineVector, line, boost::is_any_of(","));
-	} else {
-		//skip first field;
-		string lineNoContinuation = line.substr(line.find(',') + 1);
-		vector<string> otherLine;
-		split(otherLine, lineNoContinuation, boost::is_any_of(","));
-		currentLineVector.insert(currentLineVector.end(), otherLine.begin(), otherLine.end());
-	}
-	bool explicitContinuation = false;
-	for (size_t fieldIndex = 1; fieldIndex < currentLineVector.size(); fieldIndex += 8) {
-		string field = trim_copy(currentLineVector[fieldIndex]);
-		if (field[0] == '+') {
-			explicitContinuation = true;
-			currentLineVector.erase(currentLineVector.begin() + fieldIndex);
-		}
+	vector<string> fields;
+	split(fields, line, boost::is_any_of(","));
+	// the tenth field of a line, when there is one, is its continuation mark
+	bool explicitContinuation = fields.size() > 9 and boost::starts_with(trim_copy(fields[9]), "+");
+	if (explicitContinuation) {
+		fields.erase(fields.begin() + 9);
 	}
+	// the first field of a continuation line is the mark of this continuation
+	currentLineVector.insert(currentLineVector.end(), fields.begin() + (firstLine ? 0 : 1), fields.end());
 	char c = static_cast<char>(this->instrream.peek());
     string line2;
     if (explicitContinuation || c == ',' || c == '+' || c == '*') {
-- 
2.43.0


From 2a83c0e394409a09779ca54dd2c6848c7adeebc6 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 04:35:05 +0000
Subject: [PATCH 53/79] fix: comments inside a card in free format ended it,
 and the names given by comments just after a card were lost

---
 Nastran/NastranTokenizer.cpp | 50 ++++++++++++++++++++++--------------
 Nastran/NastranTokenizer.h   |  2 ++
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 1bb883b..39ca816 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -139,22 +139,40 @@ bool NastranTokenizer::readLineSkipComment(string& line, bool firstLine) {
         } else if (not firstLine and blankLine) {
             eof = false;
             break;
-		} else if (boost::starts_with(line, HM_COMMENT_START)) {
-		    boost::erase_head(line, static_cast<int>(HM_COMMENT_START.size()));
-		    vector<string> commentParts;
-		    boost::split(commentParts, line, boost::is_any_of(" \""), boost::token_compress_on);
-            if (commentParts.size() >= 3) {
-                bool isPart2Int = all_of(commentParts[1].begin(), commentParts[1].end(), ::isdigit);
-                auto result = commentTypeByString.find(commentParts[0]);
-                if (isPart2Int and result != commentTypeByString.end()) {
-                    labelByCommentTypeAndId[{result->second, stoi(commentParts[1])}] = commentParts[2];
-                }
-            }
+		} else {
+		    readComment(line);
 		}
 	}
 	return eof;
 }
 
+void NastranTokenizer::readComment(string line) {
+	if (boost::starts_with(line, HM_COMMENT_START)) {
+	    boost::erase_head(line, static_cast<int>(HM_COMMENT_START.size()));
+	    vector<string> commentParts;
+	    boost::split(commentParts, line, boost::is_any_of(" \""), boost::token_compress_on);
+        if (commentParts.size() >= 3) {
+            bool isPart2Int = all_of(commentParts[1].begin(), commentParts[1].end(), ::isdigit);
+            auto result = commentTypeByString.find(commentParts[0]);
+            if (isPart2Int and result != commentTypeByString.end()) {
+                labelByCommentTypeAndId[{result->second, stoi(commentParts[1])}] = commentParts[2];
+            }
+        }
+	}
+}
+
+char NastranTokenizer::peekSkipComment() {
+	string comment;
+	char c = static_cast<char>(this->instrream.peek());
+	while (c == '$') {
+		getline(this->instrream, comment);
+		lineNumber += 1;
+		readComment(comment);
+		c = static_cast<char>(this->instrream.peek());
+	}
+	return c;
+}
+
 void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
 	vector<string> fields;
 	split(fields, line, boost::is_any_of(","));
@@ -165,7 +183,7 @@ void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
 	}
 	// the first field of a continuation line is the mark of this continuation
 	currentLineVector.insert(currentLineVector.end(), fields.begin() + (firstLine ? 0 : 1), fields.end());
-	char c = static_cast<char>(this->instrream.peek());
+	char c = peekSkipComment(); // there may be comments inside a card
     string line2;
     if (explicitContinuation || c == ',' || c == '+' || c == '*') {
 		readLineSkipComment(line2, false);
@@ -360,13 +378,7 @@ void NastranTokenizer::splitFixedFormat(string& line, const bool longFormat, con
 		}
 	}
 	string line2;
-	char c0 = static_cast<char>(this->instrream.peek());
-
-	while (c0 == '$') { // Trying to skip "comment inside card case"
-        getline(this->instrream, line2);
-        lineNumber += 1;
-        c0 = static_cast<char>(this->instrream.peek());
-    }
+	char c0 = peekSkipComment(); // there may be comments inside a card
 
 	if (explicitContinuation or c0 == '+') {
 		//todo:check that continuation tokens are the same
diff --git a/Nastran/NastranTokenizer.h b/Nastran/NastranTokenizer.h
index 289b5ea..db62f59 100644
--- a/Nastran/NastranTokenizer.h
+++ b/Nastran/NastranTokenizer.h
@@ -79,6 +79,8 @@ private:
     void splitFixedFormat(std::string& line, bool longFormat, bool firstLine);
 
     bool readLineSkipComment(std::string& line, bool firstLine);
+    void readComment(std::string line); /**< Keep the label given by an Hypermesh comment. **/
+    char peekSkipComment(); /**< First character of the next line which is not a comment. **/
     void splitFreeFormat(std::string line, bool firstLine);
     void parseBulkSectionLine(std::string line);
     void parseParameters();
-- 
2.43.0


From 042f20a2cfad8a910f07668137343536814fbf2c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 04:35:05 +0000
Subject: [PATCH 54/79] fix: an integer with a plus sign was not recognised in
 lists

---
 Nastran/NastranTokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 39ca816..f908862 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -236,7 +236,7 @@ bool NastranTokenizer::isNextInt() {
 		return false;
 	}
 	string curField = trim_copy(currentLineVector[currentField]);
-	return !curField.empty() && (strspn(curField.c_str(), "-0123456789") == curField.size());
+	return !curField.empty() && (strspn(curField.c_str(), "-+0123456789") == curField.size());
 }
 
 bool NastranTokenizer::isNextTHRU() {
-- 
2.43.0


From bec0aa428c9991a92640208675ab0b17f49e4616 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 04:35:05 +0000
Subject: [PATCH 55/79] fix: reading past the end of the file threw a wrong
 pointer

---
 Nastran/NastranTokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index f908862..2a92f7d 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -422,7 +422,7 @@ string NastranTokenizer::nextString(bool returnDefaultIfNotFoundOrBlank, string
 
 void NastranTokenizer::skip(int fields) {
 	if (this->nextSymbolType == SymbolType::SYMBOL_EOF) {
-		throw "Attempt to read past the end of file. Line:" + this->lineNumber;
+		handleParsingError("Attempt to read past the end of file.");
 	}
 
 	this->currentField = min(static_cast<unsigned int>(this->currentLineVector.size()),
-- 
2.43.0


From 406146aff233f556fdf117fbbbf3b99a02b771a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:11 +0000
Subject: [PATCH 56/79] fix: in free format, the fields left out at the end of
 a continued line were skipped instead of blank

---
 Nastran/NastranTokenizer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 2a92f7d..0802409 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -186,6 +186,8 @@ void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
 	char c = peekSkipComment(); // there may be comments inside a card
     string line2;
     if (explicitContinuation || c == ',' || c == '+' || c == '*') {
+		// the fields left out at the end of a continued line are blank
+		currentLineVector.resize(currentLineVector.size() + (fields.size() < 9 ? 9 - fields.size() : 0));
 		readLineSkipComment(line2, false);
 		splitFreeFormat(line2, false);
 	}
-- 
2.43.0


From 41ae6de47738d7f4abe7decfbb26605985f35dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:26 +0000
Subject: [PATCH 57/79] fix: BCTABLE pairs designated boundary surfaces instead
 of contact bodies

---
 Nastran/NastranParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 51557f6..93c2487 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1115,7 +1115,7 @@ void NastranParser::parseBCTABLE(NastranTokenizer& tok, Model& model) {
     int idslave = tok.nextInt(true,0);
     int idmaster = tok.nextInt(true,0);
     if (idslave != 0 and idmaster != 0) {
-        const auto& zone = make_shared<ZoneContact>(model, Reference<Target>(Target::Type::BOUNDARY_SURFACE, idmaster), Reference<Target>(Target::Type::BOUNDARY_SURFACE, idslave));
+        const auto& zone = make_shared<ZoneContact>(model, Reference<Target>(Target::Type::CONTACT_BODY, idmaster), Reference<Target>(Target::Type::CONTACT_BODY, idslave));
         zone->setInputContext(tok.getInputContext());
         model.add(zone);
         model.addConstraintIntoConstraintSet(*zone, constraintSetReference);
@@ -1135,7 +1135,7 @@ void NastranParser::parseBCTABLE(NastranTokenizer& tok, Model& model) {
         if (not (tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())) {
             handleParsingError("BCTABLE with more than one master on MASTERS line", tok, model);
         }
-        const auto& zone = make_shared<ZoneContact>(model, Reference<Target>(Target::Type::BOUNDARY_SURFACE, idmaster2), Reference<Target>(Target::Type::BOUNDARY_SURFACE, idslave2));
+        const auto& zone = make_shared<ZoneContact>(model, Reference<Target>(Target::Type::CONTACT_BODY, idmaster2), Reference<Target>(Target::Type::CONTACT_BODY, idslave2));
         zone->setInputContext(tok.getInputContext());
         model.add(zone);
         model.addConstraintIntoConstraintSet(*zone, constraintSetReference);
-- 
2.43.0


From 783b032fe0b5bee5ecd98c5bfb540ad869029a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:30 +0000
Subject: [PATCH 58/79] fix: constraints sharing a set with contacts were not
 applied, sets of contacts only were applied as loads

---
 Aster/AsterWriter.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 1eb4b7f..cfb60a5 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1608,7 +1608,6 @@ void AsterWriter::writeDefiContact() {
 			}
 		}
 		const auto& asterName = "CN" + to_string(constraintSet.getId());
-		asternameByConstraintSet[constraintSet] = asterName;
 		if (constraintSet.isOriginal()) {
             comm_file_ofs << "# ConstraintSet original id:" << constraintSet.getOriginalId() << endl;
 		}
@@ -2496,8 +2495,8 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 			comm_file_ofs << "                           _F(CHARGE=" << asternameByLoadSet[loadSet] << ")," << endl;
 		}
 		for (const auto& constraintSet : linearMecaStat->getConstraintSets()) {
-			//GC: dirty fix for #801, a deeper analysis must be done
-			if (not constraintSet->empty()) {
+			// no name for the sets that are empty or made of contacts only
+			if (asternameByConstraintSet.find(constraintSet) != asternameByConstraintSet.end()) {
 				comm_file_ofs << "                           _F(CHARGE=" << asternameByConstraintSet[constraintSet] << "),"
 						<< endl;
 			}
@@ -2547,11 +2546,8 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 					<< ",FONC_MULT=RAMP" << nonLinAnalysis->getId() << ")," << "# Original id:" << loadSet->getOriginalId() << endl;
 		}
 		for (const auto& constraintSet : nonLinAnalysis->getConstraintSets()) {
-			if (constraintSet->hasContacts()) {
-				continue;
-			}
-			//GC: dirty fix for #801, a deeper analysis must be done
-			if (not constraintSet->getConstraints().empty()) {
+			// no name for the sets that are empty or made of contacts only
+			if (asternameByConstraintSet.find(constraintSet) != asternameByConstraintSet.end()) {
 				comm_file_ofs << "                           _F(CHARGE=" << asternameByConstraintSet[constraintSet] << "),"
 						 << "# Original id:" << constraintSet->getOriginalId() << endl;
 			}
@@ -2565,7 +2561,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 			if (not constraintSet->hasContacts()) {
 				continue;
 			}
-			comm_file_ofs << "                    CONTACT=" << asternameByConstraintSet[constraintSet] << "," << "# Original id:" << constraintSet->getOriginalId() << endl;
+			comm_file_ofs << "                    CONTACT=CN" << constraintSet->getId() << "," << "# Original id:" << constraintSet->getOriginalId() << endl;
 		}
 		comm_file_ofs << "                    COMPORTEMENT=(" << endl;
 		for (const auto& elementSet : asterModel->model.elementSets) {
-- 
2.43.0


From d4dad57c5d20db3c1a5b795afb1eab312c554584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:19 +0000
Subject: [PATCH 59/79] fix: the gaps of several GAP constraints of a set were
 given the same names

---
 Aster/AsterWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index cfb60a5..cebf769 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1583,9 +1583,9 @@ void AsterWriter::writeDefiContact() {
 //        const auto& surfaceSlides = constraintSet.getConstraintsByType(
 //				Constraint::Type::SURFACE_SLIDE_CONTACT);
         const auto& zones = constraintSet.getConstraintsByType(Constraint::Type::ZONE_CONTACT);
+		int gapCount = 0;
 		for (const auto& constraint : gaps) {
 			const auto& gap = static_pointer_cast<const Gap>(constraint);
-			int gapCount = 0;
 			for (const auto& gapParticipation : gap->getGaps()) {
 				gapCount++;
 				comm_file_ofs << "C" << constraintSet.getId() << "I" << to_string(gapCount)
@@ -1621,9 +1621,9 @@ void AsterWriter::writeDefiContact() {
 		    comm_file_ofs << "                   FORMULATION='CONTINUE'," << endl;
 		}
 		comm_file_ofs << "                   ZONE=(" << endl;
+		gapCount = 0;
 		for (const auto& constraint : gaps) {
 			const auto& gap = static_pointer_cast<Gap>(constraint);
-			int gapCount = 0;
 			for (const auto& gapParticipation : gap->getGaps()) {
 				gapCount++;
 				comm_file_ofs << "                             _F(";
-- 
2.43.0


From 3d1d055351a4d4ee93a0cd570f8437562ee98a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:28 +0000
Subject: [PATCH 60/79] fix: the analyses BUCK, DFREQ, MFREQ and MCEIG of a
 design optimisation subcase were not recognised

---
 Nastran/NastranParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 93c2487..ce7dfe6 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -170,18 +170,22 @@ const std::unordered_map<std::string, NastranParser::NastranAnalysis> NastranPar
         { "SEMODES", NastranAnalysis::MODES },
         { "5", NastranAnalysis::BUCKL },
         { "105", NastranAnalysis::BUCKL },
+        { "BUCK", NastranAnalysis::BUCKL },
         { "BUCKL", NastranAnalysis::BUCKL },
         { "SEBUCKL", NastranAnalysis::BUCKL },
         { "6", NastranAnalysis::NLSTATIC },
         { "106", NastranAnalysis::NLSTATIC },
         { "NLSTATIC", NastranAnalysis::NLSTATIC },
         { "108", NastranAnalysis::DFREQ },
+        { "DFREQ", NastranAnalysis::DFREQ },
         { "SEDFREQ", NastranAnalysis::DFREQ },
         { "109", NastranAnalysis::DTRAN },
         { "SEDTRAN", NastranAnalysis::DTRAN },
         { "110", NastranAnalysis::MCEIG },
+        { "MCEIG", NastranAnalysis::MCEIG },
         { "SEMCEIG", NastranAnalysis::MCEIG },
         { "111", NastranAnalysis::MFREQ },
+        { "MFREQ", NastranAnalysis::MFREQ },
         { "SEMFREQ", NastranAnalysis::MFREQ },
         { "112", NastranAnalysis::MTRAN },
         { "SEMTRAN", NastranAnalysis::MTRAN },
-- 
2.43.0


From 5256b5eab075e50a664b4cb1cd3d83b241659998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:41 +0000
Subject: [PATCH 61/79] fix: direct matrices (K2GG, M2GG, B2GG): terms divided
 by a wrong number of segments, stiff components fixed, one node segments

---
 Abstract/Model.cpp | 48 ++++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 6dad573..873ab4b 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1180,7 +1180,9 @@ void Model::replaceDirectMatrices()
         }
         const auto& matrix = static_pointer_cast<MatrixElement>(elementSetM);
         for (const auto nodePosition : matrix->nodePositions()) {
-            requiredDofsByNode[nodePosition] = DOFS();
+            if (not requiredDofsByNode.insert({nodePosition, DOFS()}).second) {
+                continue; // already met in a previous matrix
+            }
             const int nodeId = mesh.findNodeId(nodePosition);
             DOFS owned;
             for (const auto elementSetI : elementSets) {
@@ -1211,7 +1213,7 @@ void Model::replaceDirectMatrices()
                 // single node
                 const auto nodePosition = pair.first;
                 const int nodeId = mesh.findNodeId(nodePosition);
-                DOFS requiredDofs = requiredDofsByNode.find(nodePosition)->second;
+                DOFS& requiredDofs = requiredDofsByNode.find(nodePosition)->second;
                 const auto& submatrix = matrix->findSubmatrix(nodePosition, nodePosition);
                 const auto& discrete = make_shared<DiscretePoint>(*this, submatrix->matrixType);
                 for (const auto& kv : submatrix->componentByDofs) {
@@ -1245,13 +1247,13 @@ void Model::replaceDirectMatrices()
                 const auto& matrixGroup = mesh.createCellGroup(
                         "MTN" + to_string(matrix_count), Group::NO_ORIGINAL_ID, oss.str());
                 discrete->add(*matrixGroup);
-                const auto cellPosition = mesh.addCell(Cell::AUTO_ID, CellType::SEG2, { nodeId }, true);
+                const auto cellPosition = mesh.addCell(Cell::AUTO_ID, CellType::POINT1, { nodeId }, true);
                 matrixGroup->addCellPosition(cellPosition);
                 if (discrete->hasRotations()) {
-                    addedDofsByNode[nodePosition] = DOFS::ALL_DOFS;
+                    addedDofsByNode[nodePosition] += DOFS::ALL_DOFS;
                     mesh.allowDOFS(nodePosition, DOFS::ALL_DOFS);
                 } else {
-                    addedDofsByNode[nodePosition] = DOFS::TRANSLATIONS;
+                    addedDofsByNode[nodePosition] += DOFS::TRANSLATIONS;
                     mesh.allowDOFS(nodePosition, DOFS::TRANSLATIONS);
                 }
                 if (this->configuration.logLevel >= LogLevel::DEBUG) {
@@ -1265,9 +1267,6 @@ void Model::replaceDirectMatrices()
                 const auto colNodePosition = pair.second;
                 const int rowNodeId = mesh.findNodeId(rowNodePosition);
                 const int colNodeId = mesh.findNodeId(colNodePosition);
-                DOFS requiredRowDofs = requiredDofsByNode.find(rowNodePosition)->second;
-                DOFS requiredColDofs = requiredDofsByNode.find(colNodePosition)->second;
-
                 const auto& discrete = make_shared<DiscreteSegment>(*this, matrix->matrixType);
                 ostringstream oss;
                 oss << "created by replaceDirectMatrices() because of matrix element on node couple: " << matrix;
@@ -1281,17 +1280,6 @@ void Model::replaceDirectMatrices()
                     discrete->assignMaterial(getVirtualMaterial());
                 }
                 discrete->add(*matrixGroup);
-                if (discrete->hasRotations()) {
-                    addedDofsByNode[rowNodePosition] = DOFS::ALL_DOFS;
-                    mesh.allowDOFS(rowNodePosition, DOFS::ALL_DOFS);
-                    addedDofsByNode[colNodePosition] = DOFS::ALL_DOFS;
-                    mesh.allowDOFS(colNodePosition, DOFS::ALL_DOFS);
-                } else {
-                    addedDofsByNode[rowNodePosition] = DOFS::TRANSLATIONS;
-                    mesh.allowDOFS(rowNodePosition, DOFS::TRANSLATIONS);
-                    addedDofsByNode[colNodePosition] = DOFS::TRANSLATIONS;
-                    mesh.allowDOFS(colNodePosition, DOFS::TRANSLATIONS);
-                }
                 for (int row_index = 0; row_index < 2; ++row_index) {
                     for (int col_index = 0; col_index < 2; ++col_index) {
                         pos_t rowNodePosition2;
@@ -1308,9 +1296,12 @@ void Model::replaceDirectMatrices()
                         }
                         shared_ptr<const DOFMatrix> submatrix = matrix->findSubmatrix(rowNodePosition2,
                                 colNodePosition2);
+                        // We are disassembling the matrix: the block of a node is shared by all its segments,
+                        // the block of a couple belongs to its only segment
+                        const int segmentCount = rowNodePosition2 == colNodePosition2 ?
+                                static_cast<int>(matrix->findInPairs(rowNodePosition2).size()) : 1;
                         for (const auto& kv : submatrix->componentByDofs) {
-                            // We are disassembling the matrix, so we must divide the value by the segments
-                            double value = kv.second / static_cast<int>(matrix->findInPairs(pair.first).size());
+                            double value = kv.second / segmentCount;
                             const DOF& rowDof = kv.first.first;
                             const DOF& colDof = kv.first.second;
                             if (!is_equal(value, 0)) {
@@ -1330,12 +1321,23 @@ void Model::replaceDirectMatrices()
                                 default:
                                     throw logic_error("Not yet implemented");
                                 }
-                                requiredRowDofs += rowDof;
-                                requiredColDofs += colDof;
+                                requiredDofsByNode[rowNodePosition2] += rowDof;
+                                requiredDofsByNode[colNodePosition2] += colDof;
                             }
                         }
                     }
                 }
+                if (discrete->hasRotations()) {
+                    addedDofsByNode[rowNodePosition] += DOFS::ALL_DOFS;
+                    mesh.allowDOFS(rowNodePosition, DOFS::ALL_DOFS);
+                    addedDofsByNode[colNodePosition] += DOFS::ALL_DOFS;
+                    mesh.allowDOFS(colNodePosition, DOFS::ALL_DOFS);
+                } else {
+                    addedDofsByNode[rowNodePosition] += DOFS::TRANSLATIONS;
+                    mesh.allowDOFS(rowNodePosition, DOFS::TRANSLATIONS);
+                    addedDofsByNode[colNodePosition] += DOFS::TRANSLATIONS;
+                    mesh.allowDOFS(colNodePosition, DOFS::TRANSLATIONS);
+                }
                 if (this->configuration.logLevel >= LogLevel::TRACE) {
                     cout << "Creating discrete : " << *discrete << " over node ids : "
                             << to_string(rowNodeId) << " and : " << to_string(colNodeId) << endl;
-- 
2.43.0


From 95d328047a20a8c074b0c5ad3bdc6ef270ef15c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:06 +0000
Subject: [PATCH 62/79] fix: the damping of viscous elements was lost, the
 element being replaced by a rigid link

---
 Abstract/Element.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 7eba781..73ec108 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -808,7 +808,7 @@ bool StructuralSegment::isDiagonal() const {
 }
 
 bool StructuralSegment::isDiagonalRigid() const {
-	return stiffness.isMaxDiagonal();
+	return not stiffness.isEmpty() and stiffness.isMaxDiagonal();
 }
 
 bool StructuralSegment::isSymmetric() const {
-- 
2.43.0


From f4ea3a804f8cfd535ff9f6cbf90a5550cebaf120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:06 +0000
Subject: [PATCH 63/79] fix: scalar dampers were given an enormous negative
 stiffness

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index cebf769..0b6ea29 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1217,7 +1217,7 @@ void AsterWriter::writeAffeCaraElem() {
                         const auto& dofs = cellPositionsByDOFS.first;
                         const auto& cells = make_shared<CellContainer>(asterModel->model.mesh);
                         cells->addCellPositions(cellPositionsByDOFS.second);
-                        map<string, double> valueByMatrix = {{"K", spring->getStiffness()}};
+                        map<string, double> valueByMatrix = {{"K", spring->hasStiffness() ? spring->getStiffness() : 0.0}};
                         if (spring->hasDamping()) {
                             valueByMatrix["A"] = spring->getDamping();
                         }
-- 
2.43.0


From ed822b9b2560fa7fb5050ded9ae816877452cf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:46 +0000
Subject: [PATCH 64/79] fix: displacements imposed on several components of a
 node (SPCD) left the single point constraints of all but the last one

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 873ab4b..d1167bc 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1475,7 +1475,7 @@ void Model::removeConstrainedImposed() {
             for (const auto& load : loads) {
                 const auto& impo = static_pointer_cast<ImposedDisplacement>(load);
                 for (const auto nodePosition : impo->nodePositions()) {
-                    imposedDofsByNodePosition[nodePosition] = impo->getDOFSForNode(nodePosition);
+                    imposedDofsByNodePosition[nodePosition] += impo->getDOFSForNode(nodePosition);
                 }
             }
         }
-- 
2.43.0


From 9f1ab4cff9957586a011a0f1f222b3a1dd98ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:26 +0000
Subject: [PATCH 65/79] fix: the magnitude of the direction of PLOAD4 (N1, N2,
 N3) multiplied the pressure

---
 Nastran/NastranParser.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index ce7dfe6..db9a78e 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2959,6 +2959,11 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
     const auto& loadSet = model.getOrCreateLoadSet(loadset_id, LoadSet::Type::LOAD);
     bool has_direction = not (is_equal(n1, 0.0) and is_equal(n2, 0.0) and is_equal(n3, 0.0)
                               and cid == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
+    // N1, N2 and N3 are the direction of the load, not its magnitude
+    VectorialValue force(n1, n2, n3);
+    if (not force.iszero()) {
+        force = force.normalized().scaled(p1);
+    }
     if (not has_direction and g1 == Globals::UNAVAILABLE_INT) {
         const auto& normalPressionFace = make_shared<NormalPressionFace>(model, loadSet, p1);
         for(int cellId = eid1; cellId <= eid2; cellId++) {
@@ -2987,10 +2992,10 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
         shared_ptr<ForceSurfaceTwoNodes> forceSurfaceTwoNodes = nullptr;
         if (g3_or_4 != Globals::UNAVAILABLE_INT) {
             forceSurfaceTwoNodes = make_shared<ForceSurfaceTwoNodes>(model, loadSet, g1, g3_or_4,
-			VectorialValue(n1 * p1, n2 * p1, n3 * p1), VectorialValue(0, 0, 0));
+			force, VectorialValue(0, 0, 0));
         } else {
             forceSurfaceTwoNodes = make_shared<ForceSurfaceTwoNodes>(model, loadSet, g1,
-			VectorialValue(n1 * p1, n2 * p1, n3 * p1), VectorialValue(0, 0, 0));
+			force, VectorialValue(0, 0, 0));
         }
         for(int cellId = eid1; cellId <= eid2; cellId++) {
             forceSurfaceTwoNodes->addCellId(cellId);
@@ -2999,7 +3004,7 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
         forceSurfaceTwoNodes->setInputContext(tok.getInputContext());
         model.add(forceSurfaceTwoNodes);
     } else {
-        const auto& forceSurface = make_shared<ForceSurface>(model, loadSet, VectorialValue(n1 * p1, n2 * p1, n3 * p1),
+        const auto& forceSurface = make_shared<ForceSurface>(model, loadSet, force,
                 VectorialValue(0.0, 0.0, 0.0));
         for(int cellId = eid1; cellId <= eid2; cellId++) {
             forceSurface->addCellId(cellId);
-- 
2.43.0


From fa567e341f00410bea7720da2e554e12d39bd847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:05 +0000
Subject: [PATCH 66/79] fix: FREQ3 wrote python that could not run and spaced
 the frequencies over one unit after each mode

---
 Aster/AsterWriter.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 0b6ea29..4585726 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2980,8 +2980,14 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             list_concept_ss << "LSIP" << setfill('0') << setw(4) << frequencyExcit->getValue()->getId();
             const auto& frequencyExcitBand = static_pointer_cast<BandRange>(frequencyExcit->getValue());
             string concept_name = list_concept_ss.str();
-            string frequencyCount = to_string(frequencyExcitBand->maxsearch);
-            comm_file_ofs << "efreq" << analysis->getId() << " = np.concatenate([np.linspace(x, x+1-1/" << frequencyCount << "," << frequencyCount << ") for x in freqList.Valeurs()])" << endl;
+            // as many frequencies in each interval between two modes, or a mode and an end of the range
+            const int stepCount = max(1, frequencyExcitBand->maxsearch - 1);
+            comm_file_ofs << "bfreq" << analysis->getId() << " = [" << frequencyExcitBand->start << "] + [x for x in sorted("
+                    << freqList << ") if " << frequencyExcitBand->start << " < x < " << frequencyExcitBand->end << "] + ["
+                    << frequencyExcitBand->end << "]" << endl;
+            comm_file_ofs << "efreq" << analysis->getId() << " = [x + k * (y - x) / " << stepCount << ". for x, y in zip(bfreq"
+                    << analysis->getId() << "[:-1], bfreq" << analysis->getId() << "[1:]) for k in range(" << stepCount
+                    << ")] + bfreq" << analysis->getId() << "[-1:]" << endl;
             comm_file_ofs << concept_name << "= DEFI_LIST_REEL(VALE=efreq" << analysis->getId() << ")" << endl;
             destroyableConcepts.push_back(concept_name);
         }
-- 
2.43.0


From 3b748d272e708ce68144d3932fce0352f53257f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:17 +0000
Subject: [PATCH 67/79] fix: the contacts selected by the other subcases were
 applied in every nonlinear analysis

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 4585726..04054b4 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2553,7 +2553,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 			}
 		}
 		comm_file_ofs << "                           )," << endl;
-		for (const auto& constraintSet : asterModel->model.constraintSets) {
+		for (const auto& constraintSet : nonLinAnalysis->getConstraintSets()) {
 			if (constraintSet->empty()) {
 				// LD filter empty constraintSet
 				continue;
-- 
2.43.0


From 6ba571fcb1394103439a00a6f1d87c4a4a19827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:40 +0000
Subject: [PATCH 68/79] fix: the bulk modulus of MATHP was half of what D1
 gives

---
 Nastran/NastranParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index db9a78e..61d0c60 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2003,7 +2003,9 @@ void NastranParser::parseMATHP(NastranTokenizer& tok, Model& model) {
     }
     tok.skip(5);
     double a20 = tok.nextDouble(true, 0.0);
-    material->addNature(make_shared<HyperElasticNature>(model, a10, a01, a20, d1, rho));
+    // volumetric energy D1*(J-1)**2, to be the same as K/2*(J-1)**2
+    const double bulk_modulus = 2 * d1;
+    material->addNature(make_shared<HyperElasticNature>(model, a10, a01, a20, bulk_modulus, rho));
 }
 
 void NastranParser::parseMATS1(NastranTokenizer& tok, Model& model) {
-- 
2.43.0


From 3d7b65b659680300861a18ff0ac9deb231177797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:57 +0000
Subject: [PATCH 69/79] fix: a load anywhere left free the components without
 stiffness of all the points of direct matrices

---
 Abstract/Model.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index d1167bc..94c9a1a 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1367,9 +1367,11 @@ void Model::replaceDirectMatrices()
         }
 
         for (const auto loading : loadings) {
-            for (const auto nodePosition2 : loading->nodePositions()) {
-                required += loading->getDOFSForNode(nodePosition2);
+            const auto& loadingNodes = loading->nodePositions();
+            if (loadingNodes.find(nodePosition) == loadingNodes.end()) {
+                continue;
             }
+            required += loading->getDOFSForNode(nodePosition);
         }
         for (const auto constraint : constraints) {
             const auto& constraintNodes = constraint->nodePositions();
-- 
2.43.0


From 6107bdbbeeeff4654cab85d731d42f91e1c79f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:40 +0000
Subject: [PATCH 70/79] fix: a second buckling subcase took its preload from
 the previous buckling analysis

---
 Abstract/Analysis.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Abstract/Analysis.cpp b/Abstract/Analysis.cpp
index 6dd8896..10819d7 100644
--- a/Abstract/Analysis.cpp
+++ b/Abstract/Analysis.cpp
@@ -655,9 +655,13 @@ void LinearBuckling::setStaticSubAnalysis(const Reference<Analysis>& statsub) {
 shared_ptr<Analysis> LinearBuckling::getStaticSubAnalysis() const noexcept {
     if (staticSubAnalysisRef != nullptr) {
         return model.find(*staticSubAnalysisRef);
-    } else {
-        return previousAnalysis;
     }
+    // searches of critical loads may follow one another after the same preload
+    shared_ptr<Analysis> analysis = previousAnalysis;
+    while (analysis != nullptr and analysis->type == Type::LINEAR_BUCKLING) {
+        analysis = analysis->previousAnalysis;
+    }
+    return analysis;
 }
 
 LinearModalComplex::LinearModalComplex(Model& model, const Reference<ObjectiveSet>& frequencySearchRef,
-- 
2.43.0


From 5b0aab462670196966a7f27fa69400517506b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:40 +0000
Subject: [PATCH 71/79] fix: PARAM WTMASS left out the inertias and the mass
 matrices of the elements (CONM1, CONM2, CMASS2)

---
 Abstract/Element.cpp    | 22 ++++++++++++++++++++--
 Abstract/Element.h      |  7 +++++++
 Abstract/Model.cpp      | 13 +++++++++++++
 Aster/AsterWriter.cpp   |  7 ++++---
 Systus/SystusWriter.cpp |  5 +++--
 5 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 73ec108..a02cfb4 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -559,6 +559,12 @@ void DiscretePoint::addMass(DOF rowdof, DOF coldof, double value) {
 	this->mass.addComponent(rowdof, coldof, value);
 }
 
+void DiscretePoint::scaleMass(const double factor) {
+	for (auto& component : this->mass.componentByDofs) {
+		component.second *= factor;
+	}
+}
+
 void DiscretePoint::addDamping(DOF rowdof, DOF coldof, double value) {
 	this->damping.addComponent(rowdof, coldof, value);
 }
@@ -932,13 +938,17 @@ NodalMass::NodalMass(Model& model, double m, double ixx, double iyy, double izz,
 				ixy), iyz(iyz), ixz(ixz), ex(ex), ey(ey), ez(ez) {
 }
 
-double NodalMass::getMass() const {
+double NodalMass::getMassMultiplier() const {
 	double mass_multiplier = 1.0;
 	if (model.contains(ModelParameter::MASS_OVER_FORCE_MULTIPLIER)) {
 		mass_multiplier = stod(model.getParameter(ModelParameter::MASS_OVER_FORCE_MULTIPLIER));
 		assert(!is_zero(mass_multiplier));
 	}
-	return m * mass_multiplier;
+	return mass_multiplier;
+}
+
+double NodalMass::getMass() const {
+	return m * getMassMultiplier();
 }
 
 bool NodalMass::hasTranslations() const {
@@ -1089,6 +1099,14 @@ void MatrixElement::clear() noexcept {
 }
 
 
+void MatrixElement::scale(const double factor) {
+	for (const auto& submatrixEntry : submatrixByNodes) {
+		for (auto& component : submatrixEntry.second->componentByDofs) {
+			component.second *= factor;
+		}
+	}
+}
+
 shared_ptr<const DOFMatrix> MatrixElement::findSubmatrix(const pos_t nodePosition1, const pos_t nodePosition2) const {
 	shared_ptr<DOFMatrix> result = make_shared<DOFMatrix>(matrixType);
 	auto it = submatrixByNodes.find({nodePosition1, nodePosition2});
diff --git a/Abstract/Element.h b/Abstract/Element.h
index e843178..b7c602c 100644
--- a/Abstract/Element.h
+++ b/Abstract/Element.h
@@ -439,6 +439,7 @@ public:
 	double findStiffness(DOF rowcode, DOF colcode) const;
 	double findMass(DOF rowcode, DOF colcode) const;
 	double findDamping(DOF rowcode, DOF colcode) const;
+	void scaleMass(const double factor);
 	std::vector<double> asStiffnessVector(bool addRotationsIfNotPresent = false) const override final;
 	std::vector<double> asMassVector(bool addRotationsIfNotPresent = false) const override final;
 	std::vector<double> asDampingVector(bool addRotationsIfNotPresent = false) const override final;
@@ -525,6 +526,11 @@ class NodalMass: public CellElementSet {
 	NodalMass(Model&, double m = 0, double ixx = 0, double iyy = 0, double izz = 0, double ixy = 0,
 			double iyz = 0, double ixz = 0, double ex = 0, double ey = 0, double ez = 0,
 			int original_id = NO_ORIGINAL_ID);
+	/**
+	 * Factor from the masses and inertias of the input to masses in kg
+	 */
+	double getMassMultiplier() const;
+
 	/**
 	 * Get mass (in kg)
 	 */
@@ -556,6 +562,7 @@ public:
 	 * Clear all nodes and submatrices of the Matrix.
 	 */
 	void clear() noexcept override final;
+	void scale(const double factor);
 	std::shared_ptr<const DOFMatrix> findSubmatrix(const pos_t nodePosition1, const pos_t nodePosition2) const;
 	std::set<pos_t> nodePositions() const override final;
 	std::set<std::pair<pos_t, pos_t>> nodePairs() const;
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 94c9a1a..5e81091 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2235,6 +2235,19 @@ void Model::finish() {
         coordinateSystemEntry.second->build();
     }
 
+    if (this->contains(ModelParameter::MASS_OVER_FORCE_MULTIPLIER)) {
+        // the mass matrices of the elements are concerned, those given directly (DMIG, without identifier) are not
+        const double multiplier = stod(this->getParameter(ModelParameter::MASS_OVER_FORCE_MULTIPLIER));
+        for (const auto& elementSet : elementSets.filter(ElementSet::Type::DISCRETE_0D)) {
+            static_pointer_cast<DiscretePoint>(elementSet)->scaleMass(multiplier);
+        }
+        for (const auto& elementSet : elementSets.filter(ElementSet::Type::MASS_MATRIX)) {
+            if (elementSet->isOriginal()) {
+                static_pointer_cast<MassMatrix>(elementSet)->scale(multiplier);
+            }
+        }
+    }
+
     for (const auto& elementSet : elementSets) {
         for (const auto nodePosition : elementSet->nodePositions()) {
             mesh.allowDOFS(nodePosition,elementSet->getDOFSForNode(nodePosition));
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 04054b4..4dad4e1 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1248,10 +1248,11 @@ void AsterWriter::writeAffeCaraElem() {
 					writeCellContainer(static_pointer_cast<CellContainer>(nodalMass));
 					comm_file_ofs << endl;
 					if (nodalMass->hasRotations()) {
+                        const double multiplier = nodalMass->getMassMultiplier();
                         comm_file_ofs << "                                CARA='M_TR_D_N',VALE=("
-                                << nodalMass->getMass() << "," << nodalMass->ixx << ","
-                                << nodalMass->iyy << "," << nodalMass->izz << "," << nodalMass->ixy
-                                << "," << nodalMass->iyz << "," << nodalMass->ixz << ","
+                                << nodalMass->getMass() << "," << nodalMass->ixx * multiplier << ","
+                                << nodalMass->iyy * multiplier << "," << nodalMass->izz * multiplier << "," << nodalMass->ixy * multiplier
+                                << "," << nodalMass->iyz * multiplier << "," << nodalMass->ixz * multiplier << ","
                                 << nodalMass->ex << "," << nodalMass->ey << "," << nodalMass->ez
                                 << "),)," << endl;
 					} else {
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 5cb70f4..faa06a2 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -3046,9 +3046,10 @@ void SystusWriter::writeMasses(const SystusModel &systusModel, ostream& out) {
                 handleWritingWarning("Offset not implemented and dismissed.");
             }
             if (!is_zero(nodalMass->ixx) || !is_zero(nodalMass->iyy) || !is_zero(nodalMass->izz)){
+                const double multiplier = nodalMass->getMassMultiplier();
                 out << "VALUES 6 " << nodalMass->getMass() << " " << nodalMass->getMass() << " "
-                        << nodalMass->getMass() << " " << nodalMass->ixx << " " << nodalMass->iyy
-                        << " " << nodalMass->izz;
+                        << nodalMass->getMass() << " " << nodalMass->ixx * multiplier << " " << nodalMass->iyy * multiplier
+                        << " " << nodalMass->izz * multiplier;
             }else{
                 out << "VALUES 3 " << nodalMass->getMass() << " " << nodalMass->getMass() << " "
                         << nodalMass->getMass();
-- 
2.43.0


From eabf05a7adc84ce13d737da7aaa9bf496fb2f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:40 +0000
Subject: [PATCH 72/79] fix: excitations by static loads were lost (RLOAD1) or
 depended on the order of the cards, and LSEQ gave the same loads to all of
 them

---
 Abstract/Loading.cpp      |  8 ++++++++
 Abstract/Loading.h        |  2 ++
 Nastran/NastranParser.cpp | 42 ++++++++++++++++++++-------------------
 Nastran/NastranParser.h   |  7 +++++++
 4 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index b2f9ea8..cdfb450 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -828,6 +828,14 @@ shared_ptr<LoadSet> DynamicExcitation::getLoadSet() const {
     return model.find(loadSet);
 }
 
+const Reference<LoadSet>& DynamicExcitation::getLoadSetReference() const {
+    return loadSet;
+}
+
+void DynamicExcitation::setLoadSet(const Reference<LoadSet>& reference) {
+    loadSet = reference;
+}
+
 shared_ptr<FunctionPlaceHolder> DynamicExcitation::getFunctionTableBPlaceHolder() const {
     return make_unique<FunctionPlaceHolder>(model, functionTableB.type, functionTableB.original_id, Function::ParaName::FREQ);
 }
diff --git a/Abstract/Loading.h b/Abstract/Loading.h
index 365bbb4..6532165 100644
--- a/Abstract/Loading.h
+++ b/Abstract/Loading.h
@@ -472,6 +472,8 @@ public:
     std::shared_ptr<FunctionTable> getFunctionTableB() const;
     std::shared_ptr<FunctionTable> getFunctionTableP() const;
     std::shared_ptr<LoadSet> getLoadSet() const;
+    const Reference<LoadSet>& getLoadSetReference() const;
+    void setLoadSet(const Reference<LoadSet>&);
     std::shared_ptr<FunctionPlaceHolder> getFunctionTableBPlaceHolder() const;
     std::shared_ptr<FunctionPlaceHolder> getFunctionTablePPlaceHolder() const;
     std::set<pos_t> nodePositions() const override;
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 61d0c60..99fcb07 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -571,7 +571,25 @@ void NastranParser::parseBULKSection(NastranTokenizer &tok, Model& model) {
         tok.nextLine();
     }
     addPendingCellIds(model);
+    findExcitationLoads(model);
+}
 
+void NastranParser::findExcitationLoads(const Model& model) {
+    for (const auto& dynamicExcitation : dynamicExcitations) {
+        const auto& loadSet = dynamicExcitation->getLoadSet();
+        if (loadSet != nullptr and not loadSet->empty()) {
+            continue;
+        }
+        int load_id = dynamicExcitation->getLoadSetReference().original_id;
+        const auto& lseq = loadIdByExciteId.find(load_id);
+        if (lseq != loadIdByExciteId.end()) {
+            load_id = lseq->second;
+        }
+        const Reference<LoadSet> loadReference{LoadSet::Type::LOAD, load_id};
+        if (model.find(loadReference) != nullptr) {
+            dynamicExcitation->setLoadSet(loadReference);
+        }
+    }
 }
 
 void NastranParser::addCellIdsToGroup(CellGroup& cellGroup, const list<int>& cellIds, const Model& model) {
@@ -1870,12 +1888,9 @@ void NastranParser::parseLSEQ(NastranTokenizer& tok, Model& model) {
     int set_id = tok.nextInt();
     // LSEQ will not be used unless selected in the Case Control Section with the LOADSET command.
     shared_ptr<LoadSet> loadSetMaster = model.getOrCreateLoadSet(set_id, LoadSet::Type::LOADSET);
-    int darea_id = tok.nextInt(); UNUSEDV(darea_id);
-    // LD : not sure about this interpretation
-//    Reference<LoadSet> dareaReference(LoadSet::Type::LOAD, darea_id);
-//    loadSetMaster->embedded_loadsets.push_back(
-//                    pair<Reference<LoadSet>, double>(dareaReference, 1.0));
+    int darea_id = tok.nextInt();
     int loadSet_id = tok.nextInt();
+    loadIdByExciteId[darea_id] = loadSet_id;
     Reference<LoadSet> loadSetReference(LoadSet::Type::LOAD, loadSet_id);
     loadSetMaster->embedded_loadsets.push_back({loadSetReference, 1.0});
 
@@ -3356,6 +3371,7 @@ void NastranParser::parseRLOAD1(NastranTokenizer& tok, Model& model) {
             excitType, original_id);
     dynamicExcitation->setInputContext(tok.getInputContext());
     model.add(dynamicExcitation);
+    dynamicExcitations.push_back(dynamicExcitation);
 
     // PlaceHolder to complete the Value attribute paraX of FunctionTable
     dynamicExcitation->getFunctionTableBPlaceHolder()->setInputContext(tok.getInputContext());
@@ -3425,21 +3441,6 @@ void NastranParser::parseRLOAD2(NastranTokenizer& tok, Model& model) {
 
 
     Reference<LoadSet> excitRef{LoadSet::Type::EXCITEID, darea_set_id};
-    if (model.loadSets.contains(LoadSet::Type::LOADSET) and model.find(excitRef) == nullptr) {
-        // If there is a LOADSET request in the Case Control, then the model will reference static and thermal load set entries specified by the LID or TID field in the selected LSEQ entries corresponding to the EXCITEID.
-        auto loadsets = model.loadSets.filter(LoadSet::Type::LOADSET); // Hack should look for the indicated LOADSEQ context parameter
-        const auto& lseq = loadsets[0];
-//        const Reference<LoadSet>& dareaSetId = lseq->embedded_loadsets[0].first; // What about .second ?
-//        handleParsingWarning("Hack in resolving RLOAD2->LSEQ->(darea id)->LOAD : " + to_string(dareaSetId.original_id) + " versus " + to_string(darea_set_id),
-//                tok, model); // Hack, should seek the corresponding darea
-        Reference<LoadSet> loadId = lseq->embedded_loadsets[0].first; // What about .second ?
-        excitRef = loadId; // HACK?
-    } else if (model.find(Reference<LoadSet>{LoadSet::Type::LOAD, darea_set_id}) != nullptr) {
-        excitRef = Reference<LoadSet>{LoadSet::Type::LOAD, darea_set_id};
-    } else {
-        // If there is no LOADSET request in the Case Control, then EXCITEID may directly reference DAREA, static, and thermal load set entries.
-        //handleParsingWarning("RLOAD2 directly referencing EXCITEID not yet handled, seems to be working?", tok, model);
-    }
     // If needed, creates a LoadSet EXCITEID for the DynamicExcitation
 //    LoadSet darea(model, LoadSet::Type::EXCITEID, darea_set_id);
 //    Reference<LoadSet> darea_ref(darea);
@@ -3465,6 +3466,7 @@ void NastranParser::parseRLOAD2(NastranTokenizer& tok, Model& model) {
             excitType, original_id);
     dynamicExcitation->setInputContext(tok.getInputContext());
     model.add(dynamicExcitation);
+    dynamicExcitations.push_back(dynamicExcitation);
 
     // PlaceHolder to complete the Value attribute paraX of FunctionTable
     dynamicExcitation->getFunctionTableBPlaceHolder()->setInputContext(tok.getInputContext());
diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index a5f3491..8da3a3c 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -883,6 +883,13 @@ private:
      *  Add to their groups the pending cells that are now defined.
      */
     void addPendingCellIds(const Model& model);
+    /**
+     *  Find the loads of the dynamic excitations: a static load, given by LSEQ or directly, if there is no DAREA. They can be defined later in the file.
+     */
+    void findExcitationLoads(const Model& model);
+    std::map<int, int> loadIdByExciteId; /**< LSEQ: identifier of the static load, by the identifier of the excitation. */
+    std::list<std::shared_ptr<DynamicExcitation>> dynamicExcitations;
+
     std::list<std::pair<std::string, int>> pendingCellIds; /**< (group name, cell id) of cells not defined yet. */
 
     /**
-- 
2.43.0


From d08b474c3e1ef0d736a6b67b19774c0280a9e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:40 +0000
Subject: [PATCH 73/79] fix: the forces of PLOAD on irregular quadrilaterals
 were not equivalent to the pressure

---
 Abstract/Loading.cpp | 52 +++++++++++++-------------------------------
 1 file changed, 15 insertions(+), 37 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index cdfb450..625d880 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -445,44 +445,22 @@ VectorialValue StaticPressure::getForceInGlobalCS(const pos_t nodePosition) cons
         */
         const Node& node4 = model.mesh.findNode(node_position4);
         const VectorialValue& v14 = VectorialValue(node4.x, node4.y, node4.z) - VectorialValue(node1.x, node1.y, node1.z);
-        const VectorialValue& v24 = VectorialValue(node4.x, node4.y, node4.z) - VectorialValue(node2.x, node2.y, node2.z);
-        VectorialValue force1;
-        VectorialValue force2;
-        if (v13.norm() < v24.norm()) {
-            // triangles : G1,G2,G3 and G1,G3,G4
-            const VectorialValue& crossTria1 = v12.cross(v13);
-            double tria1Area = crossTria1.norm() / 2;
-            const VectorialValue& direction1 = crossTria1.normalized();
-            const VectorialValue& crossTria2 = v13.cross(v14);
-            double tria2Area = crossTria2.norm() / 2;
-            const VectorialValue& direction2 = crossTria2.normalized();
-            force1 = (magnitude / 4 * tria1Area) * direction1;
-            force2 = (magnitude / 4 * tria2Area) * direction2;
-            if (nodePosition == node_position1 || nodePosition == node_position3) {
-                forceNode = force1 + force2;
-            } else if (nodePosition == node_position2) {
-                forceNode = 2 * force1;
-            } else if (nodePosition == node_position4) {
-                forceNode = 2 * force2;
-            }
+        const VectorialValue& v23 = v13 - v12;
+        const VectorialValue& v24 = v14 - v12;
+        // half of the pressure on each of the triangles, a third of it at each of their points (the norm of a cross product is twice the area)
+        const double factor = magnitude / 2 / 3 / 2;
+        const VectorialValue& force123 = factor * v12.cross(v13);
+        const VectorialValue& force134 = factor * v13.cross(v14);
+        const VectorialValue& force124 = factor * v12.cross(v14);
+        const VectorialValue& force234 = factor * v23.cross(v24);
+        if (nodePosition == node_position1) {
+            forceNode = force123 + force134 + force124;
+        } else if (nodePosition == node_position2) {
+            forceNode = force123 + force124 + force234;
+        } else if (nodePosition == node_position3) {
+            forceNode = force123 + force134 + force234;
         } else {
-            // triangles : G1,G2,G4 and G2,G3,G4
-            const VectorialValue& crossTria1 = v12.cross(v14);
-            double tria1Area = crossTria1.norm() / 2;
-            const VectorialValue& v23 = VectorialValue(node3.x, node3.y, node3.z) - VectorialValue(node2.x, node2.y, node2.z);
-            const VectorialValue& direction1 = crossTria1.normalized();
-            const VectorialValue& crossTria2 = v23.cross(v24);
-            double tria2Area = crossTria2.norm() / 2;
-            const VectorialValue& direction2 = crossTria2.normalized();
-            force1 = (magnitude / 4 * tria1Area) * direction1;
-            force2 = (magnitude / 4 * tria2Area) * direction2;
-            if (nodePosition == node_position2 || nodePosition == node_position4) {
-                forceNode = (force1 + force2);
-            } else if (nodePosition == node_position1) {
-                forceNode = 2 * force1;
-            } else if (nodePosition == node_position3) {
-                forceNode = 2 * force2;
-            }
+            forceNode = force134 + force124 + force234;
         }
     } else {
         const VectorialValue& crossTria = v12.cross(v13);
-- 
2.43.0


From 7e89b8e08f969bdfc6d01dc14c7aa00d2b494497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:40 +0000
Subject: [PATCH 74/79] fix: the structural damping of direct responses
 replaced the dampers

---
 Aster/AsterWriter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 4dad4e1..4961b45 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2622,9 +2622,10 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
         bool has_structural_damping = structural_damping != "" and frequency_of_interest_radians != "" and stod(frequency_of_interest_radians) > 0;
 		if (has_structural_damping) {
             comm_file_ofs << "AMST" << analysis->getId()
-                <<  " = COMB_MATR_ASSE(COMB_R = _F ( MATR_ASSE = RIGI"
+                <<  " = COMB_MATR_ASSE(COMB_R = (_F ( MATR_ASSE = RIGI"
                 << analysis->getId()
-                << ", COEF_R = " << stod(structural_damping) / stod(frequency_of_interest_radians) << "))" << endl;
+                << ", COEF_R = " << stod(structural_damping) / stod(frequency_of_interest_radians)
+                << "), _F ( MATR_ASSE = AMOR" << analysis->getId() << ", COEF_R = 1.)))" << endl;
         }
 		const auto& linearDirect = dynamic_pointer_cast<LinearDynaDirectFreq>(analysis);
 
@@ -2663,7 +2664,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
         if (has_structural_damping) {
             comm_file_ofs << "                   MATR_AMOR  = AMST" << linearDirect->getId() << ","
 				<< endl;
-        } else /* LD Maybe should combine these two cases ? */ {
+        } else {
             comm_file_ofs << "                   MATR_AMOR  = AMOR" << linearDirect->getId() << ","
 				<< endl;
         }
-- 
2.43.0


From 09ecc462a0aa75e1ea8d254b4f600260d42174b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:40 +0000
Subject: [PATCH 75/79] fix: the factors of DLOAD scaled the tables of all the
 excitations that share them

---
 Abstract/Loading.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 625d880..d18e627 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -832,7 +832,12 @@ DOFS DynamicExcitation::getDOFSForNode(const pos_t nodePosition) const {
 }
 
 void DynamicExcitation::scale(const double factor) {
-	model.find(functionTableB)->scale(factor);
+    // the table may also be used by other excitations
+    const auto& scaledTable = make_shared<FunctionTable>(*getFunctionTableB());
+    scaledTable->resetId();
+    scaledTable->scale(factor);
+    model.add(scaledTable);
+    functionTableB = Reference<NamedValue>(*scaledTable);
 }
 
 unique_ptr<Loading> DynamicExcitation::clone() const {
-- 
2.43.0


From 2f8047491c9df1c7bf4e20835bee14baed32a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:16 +0000
Subject: [PATCH 76/79] fix: GRDSET was not applied to the GRID cards that
 precede it

---
 Nastran/NastranParser.h            |  9 ++++++
 Nastran/NastranParser_geometry.cpp | 47 +++++++++++++++++++++---------
 2 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 8da3a3c..e5c3f31 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -69,6 +69,15 @@ private:
         int seid;
     };
     GrdSet grdSet;
+    class Grid {
+    public:
+        int id;
+        double x1, x2, x3;
+        int cp, cd, ps; /**< UNAVAILABLE_INT when the field is blank */
+    };
+    std::vector<Grid> gridsBeforeGrdSet; /**< the ones with blank fields, that GRDSET completes wherever it is in the deck */
+    void addGrid(const Grid& grid, Model& model);//in NastranParser_geometry.cpp
+    void constrainGrid(const Grid& grid, Model& model);//in NastranParser_geometry.cpp
 
     std::unordered_map<std::string, Reference<ElementSet>> directMatrixByName;
     static const std::unordered_map<std::string, NastranAnalysis> ANALYSIS_BY_LABEL;
diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index f468a3a..5926925 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -69,11 +69,17 @@ void NastranParser::parseGRDSET(NastranTokenizer& tok, Model& model) {
     grdSet.ps = tok.nextInt(true, 0);
     grdSet.seid = tok.nextInt(true, 0);
 
+    for (const auto& grid : gridsBeforeGrdSet) {
+        addGrid(grid, model);
+        if (grid.ps == Globals::UNAVAILABLE_INT) {
+            constrainGrid(grid, model);
+        }
+    }
+    gridsBeforeGrdSet.clear();
 }
 
-void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
-    int id = tok.nextInt();
-    int cp = tok.nextInt(true, grdSet.cp);
+void NastranParser::addGrid(const Grid& grid, Model& model) {
+    const int cp = grid.cp == Globals::UNAVAILABLE_INT ? grdSet.cp : grid.cp;
     pos_t cpos = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
     string scp;
     if (cp != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
@@ -81,31 +87,44 @@ void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
         scp=" in CS"+to_string(cp)+"_"+to_string(cpos);
     }
 
-    double x1 = tok.nextDouble(true, 0.0);
-    double x2 = tok.nextDouble(true, 0.0);
-    double x3 = tok.nextDouble(true, 0.0);
-
     /* Coordinate System for Displacement */
-    int cd = tok.nextInt(true, grdSet.cd);
+    const int cd = grid.cd == Globals::UNAVAILABLE_INT ? grdSet.cd : grid.cd;
     pos_t cdos = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
     string scd="";
     if (cd != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
         cdos = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cd));
         scd=", DISP in CS"+to_string(cd)+"_"+to_string(cdos);
     }
-    model.mesh.addNode(id, x1, x2, x3, cpos, cdos);
+    model.mesh.addNode(grid.id, grid.x1, grid.x2, grid.x3, cpos, cdos);
 
-    int ps = tok.nextInt(true, grdSet.ps);
+    if (this->logLevel >= LogLevel::TRACE) {
+        cout << fixed << "GRID " << grid.id << ": (" << grid.x1 << ";" << grid.x2 << ";" << grid.x3 <<")"<< scp<<scd<< endl;
+    }
+}
+
+void NastranParser::constrainGrid(const Grid& grid, Model& model) {
+    const int ps = grid.ps == Globals::UNAVAILABLE_INT ? grdSet.ps : grid.ps;
     if (ps) {
-        string spcName = "SPC" + to_string(id);
         const auto& spc = make_shared<SinglePointConstraint>(model, DOFS::nastranCodeToDOFS(ps));
-        spc->addNodeId(id);
+        spc->addNodeId(grid.id);
         model.add(spc);
         model.addConstraintIntoConstraintSet(*spc, *model.commonConstraintSet);
     }
+}
 
-    if (this->logLevel >= LogLevel::TRACE) {
-        cout << fixed << "GRID " << id << ": (" << x1 << ";" << x2 << ";" << x3 <<")"<< scp<<scd<< endl;
+void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
+    Grid grid;
+    grid.id = tok.nextInt();
+    grid.cp = tok.nextInt(true, Globals::UNAVAILABLE_INT);
+    grid.x1 = tok.nextDouble(true, 0.0);
+    grid.x2 = tok.nextDouble(true, 0.0);
+    grid.x3 = tok.nextDouble(true, 0.0);
+    grid.cd = tok.nextInt(true, Globals::UNAVAILABLE_INT);
+    grid.ps = tok.nextInt(true, Globals::UNAVAILABLE_INT);
+    addGrid(grid, model);
+    constrainGrid(grid, model);
+    if (grid.cp == Globals::UNAVAILABLE_INT or grid.cd == Globals::UNAVAILABLE_INT or grid.ps == Globals::UNAVAILABLE_INT) {
+        gridsBeforeGrdSet.push_back(grid);
     }
 }
 
-- 
2.43.0


From bb641a79a919dba71d3be6f9db69c58da30908bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:30 +0000
Subject: [PATCH 77/79] fix: the factor of LOAD multiplied the speed of RFORCE
 and not its forces

---
 Abstract/Loading.cpp | 12 ++++++++++--
 Abstract/Loading.h   |  4 ++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index d18e627..05e6b92 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -196,6 +196,14 @@ bool Rotation::ineffective() const {
 	return is_zero(getSpeed()) or getAxis().iszero();
 }
 
+double Rotation::speedFactor(const double factor) {
+    if (factor < 0) {
+        throw invalid_argument("The forces of a rotation can't be multiplied by a negative factor.");
+    }
+    // the forces are proportional to the square of the speed
+    return sqrt(factor);
+}
+
 RotationCenter::RotationCenter(Model& model, const std::shared_ptr<LoadSet> loadset, double speed, double center_x, double center_y,
 		double center_z, double axis_x, double axis_y, double axis_z, const int original_id) :
 		Rotation(model, loadset, original_id), speed(speed), axis(axis_x, axis_y, axis_z), center(center_x,
@@ -219,7 +227,7 @@ unique_ptr<Loading> RotationCenter::clone() const {
 }
 
 void RotationCenter::scale(const double factor) {
-	speed *= factor;
+	speed *= speedFactor(factor);
 }
 
 RotationNode::RotationNode(Model& model, const std::shared_ptr<LoadSet> loadset, double speed, const int node_id, double axis_x,
@@ -246,7 +254,7 @@ unique_ptr<Loading> RotationNode::clone() const {
 }
 
 void RotationNode::scale(const double factor) {
-	speed *= factor;
+	speed *= speedFactor(factor);
 }
 
 ImposedDisplacement::ImposedDisplacement(Model& model, const std::shared_ptr<LoadSet> loadset, DOFS dofs, double value, const int original_id, const Reference<CoordinateSystem> csref) :
diff --git a/Abstract/Loading.h b/Abstract/Loading.h
index 6532165..d964fbf 100644
--- a/Abstract/Loading.h
+++ b/Abstract/Loading.h
@@ -162,6 +162,10 @@ public:
 class Rotation: public VolumicLoading {
 protected:
 	Rotation(Model& model, const std::shared_ptr<LoadSet> loadset, const int original_id = NO_ORIGINAL_ID);
+	/**
+	 * Factor of the speed that gives a factor of the forces.
+	 */
+	static double speedFactor(const double factor);
 public:
 	/**
 	 * Get rotation speed (in rad/s).
-- 
2.43.0


From daca2271fa9d2f4458e62c09136a30363a926967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:30 +0000
Subject: [PATCH 78/79] fix: the factor of LOAD was applied to SPCD once per
 component

---
 Abstract/Loading.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 05e6b92..b507965 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -279,10 +279,7 @@ double ImposedDisplacement::getDoubleForDOF(const DOF& dof) const {
 }
 
 void ImposedDisplacement::scale(const double factor) {
-    for(DOF dof : DOFS::ALL_DOFS) {
-        if (not is_equal(displacements[dof.position], Globals::UNAVAILABLE_DOUBLE))
-            displacements *= factor;
-    }
+    displacements *= factor;
 }
 
 NodalForce::NodalForce(Model& model, const std::shared_ptr<LoadSet> loadset, const VectorialValue& force,
-- 
2.43.0


From 53fbba00e85de0034ca2facf7c12388bbd399415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:30 +0000
Subject: [PATCH 79/79] fix: the factor of LOAD also multiplied the original
 PLOAD1

---
 Abstract/Loading.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index b507965..84583d3 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -677,7 +677,17 @@ unique_ptr<Loading> ForceLine::clone() const {
 }
 
 void ForceLine::scale(const double factor) {
-	force->scale(factor);
+    const auto& table = dynamic_pointer_cast<FunctionTable>(force);
+    if (table == nullptr) {
+        force->scale(factor);
+        return;
+    }
+    // the table is shared with the loading of which this one is a copy
+    const auto& scaledTable = make_shared<FunctionTable>(*table);
+    scaledTable->resetId();
+    scaledTable->scale(factor);
+    model.add(scaledTable);
+    force = scaledTable;
 }
 
 bool ForceLine::ineffective() const {
-- 
2.43.0

