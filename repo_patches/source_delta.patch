From 80fcf23e0e8c2effd93bbcf1132b2b99d9f3ad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:57 +0000
Subject: [PATCH 001/116] fix: arc geometry with zero curvature is a straight
 line, not NaN

---
 Merlin++/ArcGeometry.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/Merlin++/ArcGeometry.cpp b/Merlin++/ArcGeometry.cpp
index 752ea47..994d834 100644
--- a/Merlin++/ArcGeometry.cpp
+++ b/Merlin++/ArcGeometry.cpp
@@ -10,8 +10,13 @@
 namespace
 {
 
-inline Transform3D MakeTransform(double phi, double h)
+inline Transform3D MakeTransform(double s, double h)
 {
+	if(h == 0)
+	{
+		return Transform3D::translation(0, 0, s);
+	}
+	const double phi = s * h;
 	return Transform3D(Point3D((cos(phi) - 1) / h, 0, sin(phi) / h), Rotation3D::rotationY(-phi));
 }
 
@@ -20,16 +25,16 @@ inline Transform3D MakeTransform(double phi, double h)
 Transform3D ArcGeometry::GetGeometryTransform(double s0, double s) const
 {
 	CheckBounds(s, s0);
-	return MakeTransform((s - s0) * h, h);
+	return MakeTransform(s - s0, h);
 }
 
 Transform3D ArcGeometry::GetGeometryTransform(BoundaryPlane p) const
 {
-	double phi = p == entrance ? -GetAngle() / 2 : GetAngle() / 2;
-	return MakeTransform(phi, h);
+	double s = p == entrance ? -len / 2 : len / 2;
+	return MakeTransform(s, h);
 }
 
 Transform3D ArcGeometry::GetTotalGeometryTransform() const
 {
-	return MakeTransform(GetAngle(), h);
+	return MakeTransform(len, h);
 }
-- 
2.43.0


From 108077b5b410f1ea71454a4aacdabcb567ea322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:00 +0000
Subject: [PATCH 002/116] fix: centre of a sequence inside an asymmetrically
 straddling element

---
 Merlin++/SequenceFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index b409833..75beda7 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -426,7 +426,7 @@ void SequenceGeometry::CalculateCentreCT()
 		else if(s > s0)
 		{
 			Extent ext = (*fi)->GetLocalGeometryExtent();
-			double s1 = ext.first + s - s0;
+			double s1 = ext.second - (s - s0);
 			t = (*fi)->GetGeometryTransform(ext.first, s1) * t;
 			t_cache->t_in = t.inv();
 			t = (*fi)->GetGeometryTransform(s1, ext.second);
-- 
2.43.0


From 85ee43846b65629fa6b196184c2b946498b0e971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:00 +0000
Subject: [PATCH 003/116] fix: sequence geometry transform backwards within one
 element was not inverted

---
 Merlin++/SequenceFrame.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 75beda7..0c616eb 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -300,7 +300,8 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	Extent ext = (*fi)->GetLocalGeometryExtent();
 	if(fequal(s, l) || s < l)
 	{
-		return (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
+		Transform3D t = (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
+		return inv_t ? t.inv() : t;
 	}
 
 	Transform3D t = (*fi)->GetGeometryTransform(ext.first + s0, ext.second);
-- 
2.43.0


From 231985ffb25fedbc12207a93c05b455994624968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:44 +0000
Subject: [PATCH 004/116] fix: rounding in sequence geometry ran past the end
 of the sequence or out of an element

---
 Merlin++/SequenceFrame.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 0c616eb..302a6b2 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -283,8 +283,9 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	for(; fi != theFrameList->end(); fi++)
 	{
 		l = (*fi)->GetGeometryLength();
-		if(fequal(s0, l) || s0 < l)
+		if(fequal(s0, l) || s0 < l || *fi == theFrameList->back())
 		{
+			s0 = std::min(s0, l);
 			break;
 		}
 		s0 -= l;
@@ -298,8 +299,9 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	// Now check if s is also within this frame. If so,
 	// return the local transform
 	Extent ext = (*fi)->GetLocalGeometryExtent();
-	if(fequal(s, l) || s < l)
+	if(fequal(s, l) || s < l || *fi == theFrameList->back())
 	{
+		s = std::min(s, l);
 		Transform3D t = (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
 		return inv_t ? t.inv() : t;
 	}
@@ -311,8 +313,9 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	for(; fi != theFrameList->end(); fi++)
 	{
 		l = (*fi)->GetGeometryLength();
-		if(fequal(s, l) || s < l)
+		if(fequal(s, l) || s < l || *fi == theFrameList->back())
 		{
+			s = std::min(s, l);
 			break;
 		}
 		t = ((*fi)->GetTotalGeometryTransform()) * t;
-- 
2.43.0


From 5af19313d0aa4ca8ac3564d42ff04b72482a9e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:06 +0000
Subject: [PATCH 005/116] fix: total transform of a sequence with origin at
 entrance or exit was the identity

---
 Merlin++/SequenceFrame.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 302a6b2..4c184d7 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -383,15 +383,16 @@ double SequenceGeometry::GetGeometryLength() const
 void SequenceGeometry::CalculateCachedTransforms()
 {
 	// Set up cached transformations for efficiency
-	if(t_cache == nullptr)
-	{
-		t_cache = new TCache;
-	}
+	// (the total has to be found before the cache exists, since it is taken from the cache otherwise)
+	delete t_cache;
+	t_cache = nullptr;
+	const Transform3D t_total = GetTotalGeometryTransform();
+	t_cache = new TCache;
 
 	switch(omode)
 	{
 	case SequenceFrame::originAtEntrance:
-		t_cache->t_out = GetTotalGeometryTransform();
+		t_cache->t_out = t_total;
 		break;
 	case SequenceFrame::originAtCenter:
 		//		t_cache->t_in = GetGeometryTransform(0,-len_t/2);
@@ -399,7 +400,7 @@ void SequenceGeometry::CalculateCachedTransforms()
 		CalculateCentreCT();
 		break;
 	case SequenceFrame::originAtExit:
-		t_cache->t_in = GetTotalGeometryTransform().inv();
+		t_cache->t_in = t_total.inv();
 		break;
 	}
 
-- 
2.43.0


From 8f74159f9d280b7af30c4decfb974cfab1512a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:40 +0000
Subject: [PATCH 006/116] fix: girder ignored a support offset when only one
 support was moved

---
 Merlin++/SupportStructure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index 2709176..d5f9faf 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -86,7 +86,7 @@ void SupportStructure::UpdateSupportTransform() const
 	// Check if cached state needs updating, otherwise
 	// return.
 
-	if(!sup1->modified || (sup2 && !sup2->modified))
+	if(!sup1->modified && (!sup2 || !sup2->modified))
 	{
 		return;
 	}
-- 
2.43.0


From 38278d7297f6c4e7940060627bf45822b6941d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:40 +0000
Subject: [PATCH 007/116] fix: copy of a single-support mount left its second
 support pointer uninitialised

---
 Merlin++/SupportStructure.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index d5f9faf..b799fec 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -20,10 +20,7 @@ SupportStructure::SupportStructure(const SupportStructure& rhs) :
 	SequenceFrame(rhs)
 {
 	sup1 = new AcceleratorSupport();
-	if(rhs.sup2)
-	{
-		sup2 = new AcceleratorSupport();
-	}
+	sup2 = rhs.sup2 ? new AcceleratorSupport() : nullptr;
 }
 
 SupportStructure::~SupportStructure()
-- 
2.43.0


From 64ee61e0e222e572abbca3e83309e0ec1f06b199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:40 +0000
Subject: [PATCH 008/116] fix: equal offsets of a curved girder's supports were
 applied along the wrong axes

---
 Merlin++/SupportStructure.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index b799fec..4fd640e 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -112,7 +112,9 @@ void SupportStructure::UpdateSupportTransform() const
 		// check to see if we have a simple translation
 		if(X1 == X2)
 		{
-			Ts = Transform3D::translation(X1.x, X1.y, X1.z);
+			// (offset given in the entrance plane frame)
+			Transform3D Tin = GetGeometryTransform(AcceleratorGeometry::entrance);
+			Ts = Tin.inv() * Transform3D::translation(X1.x, X1.y, X1.z) * Tin;
 		}
 		else
 		{
-- 
2.43.0


From 23b41cc93234c4a241a3c9c274747a981cd1de5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:59 +0000
Subject: [PATCH 009/116] fix: ComponentTracker::TrackStep returned the tracker
 state instead of the remaining distance

---
 Merlin++/ComponentTracker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ComponentTracker.cpp b/Merlin++/ComponentTracker.cpp
index 865e486..b31e1f6 100644
--- a/Merlin++/ComponentTracker.cpp
+++ b/Merlin++/ComponentTracker.cpp
@@ -105,7 +105,7 @@ double ComponentTracker::TrackStep(double ds)
 
 	double sToExit = integrator->Track(ds);
 	itsState = fequal(sToExit, 0) ? finished : tracking;
-	return itsState;
+	return sToExit;
 }
 
 void ComponentTracker::Reset()
-- 
2.43.0


From ceca1de39387dcb58c4a244a3d78d1204af9d6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:59 +0000
Subject: [PATCH 010/116] fix: removing an absent process was undefined,
 removing the last one reported it as absent

---
 Merlin++/ProcessStepManager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ProcessStepManager.cpp b/Merlin++/ProcessStepManager.cpp
index 892c14e..dffa006 100644
--- a/Merlin++/ProcessStepManager.cpp
+++ b/Merlin++/ProcessStepManager.cpp
@@ -173,8 +173,12 @@ void ProcessStepManager::AddProcess(BunchProcess* aProcess)
 bool ProcessStepManager::RemoveProcess(BunchProcess* aProcess)
 {
 	proc_itor p = find(processTable.begin(), processTable.end(), aProcess);
-	p = processTable.erase(p);
-	return p != processTable.end();
+	if(p == processTable.end())
+	{
+		return false;
+	}
+	processTable.erase(p);
+	return true;
 }
 
 void ProcessStepManager::ClearProcesses()
-- 
2.43.0


From f87ffc87032c15b9a6344d21c355e3e17b9dd757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:57 +0000
Subject: [PATCH 011/116] fix: entrance of a bend without (or with shared) pole
 faces was tracked as an exit

---
 Merlin++/StdIntegrators.h         | 2 +-
 Merlin++/TransportIntegrators.cpp | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/Merlin++/StdIntegrators.h b/Merlin++/StdIntegrators.h
index c7e134e..6ea037a 100644
--- a/Merlin++/StdIntegrators.h
+++ b/Merlin++/StdIntegrators.h
@@ -68,7 +68,7 @@ public:
 	void TrackEntrance();
 	void TrackExit();
 protected:
-	void ApplyPoleFaceRotation(const SectorBend::PoleFace* pf);
+	void ApplyPoleFaceRotation(const SectorBend::PoleFace* pf, bool entrance);
 };
 
 DECL_INTG_SET(ParticleComponentTracker, StdISet)
diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 3a316fd..a5e46b0 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -300,21 +300,21 @@ void SectorBendCI::TrackEntrance()
 	{
 		RotateBunchAboutZ(*currentBunch, -tilt);
 	}
-	ApplyPoleFaceRotation(pfi.entrance);
+	ApplyPoleFaceRotation(pfi.entrance, true);
 }
 
 void SectorBendCI::TrackExit()
 {
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	double tilt = (*currentComponent).GetGeometry().GetTilt();
-	ApplyPoleFaceRotation(pfi.exit);
+	ApplyPoleFaceRotation(pfi.exit, false);
 	if(tilt != 0)
 	{
 		RotateBunchAboutZ(*currentBunch, tilt);
 	}
 }
 
-void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf)
+void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf, bool entrance)
 {
 #define _PFV(p, v) !(p) ? 0 : p->v;
 
@@ -327,9 +327,8 @@ void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf)
 	double c = 0; // currently not implemented
 	double hg = _PFV(pf, hgap);
 	double fint = _PFV(pf, fint);
-	double ent = _PFV(pf, type);
 
-	RTMap* M = PoleFaceTM(h, k, beta, c, fint, hg, ent);
+	RTMap* M = PoleFaceTM(h, k, beta, c, fint, hg, entrance);
 	ApplyMapToBunch(*currentBunch, M);
 	delete M;
 }
-- 
2.43.0


From 8bb7afea865b63564c6fd82b75ed9f39addd1a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:57 +0000
Subject: [PATCH 012/116] fix: symplectic tracking kicked twice (and drifted
 on) in a quadrupole with further multipoles

---
 Merlin++/SymplecticIntegrators.cpp | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index c9fd6fe..0285870 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -1004,24 +1004,6 @@ void RectMultipoleCI::TrackStep(double ds)
 		}
 
 		M.Apply(currentBunch->GetParticles());
-
-		if(splitMagnet)
-		{
-			Complex b1 = field.GetCoefficient(1);
-			field.SetCoefficient(1, Complex(0));
-			if(cK1 != 0.0)
-			{
-				double phi = arg(cK1) / 2;
-				for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q, -phi));
-			}
-			else
-			{
-				for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
-			}
-			M.Apply(currentBunch->GetParticles());
-			field.SetCoefficient(1, b1);
-		}
-
 	}
 	else
 	{
@@ -1033,7 +1015,14 @@ void RectMultipoleCI::TrackStep(double ds)
 		Complex b1 = field.GetCoefficient(1);
 		field.SetCoefficient(1, Complex(0));
 		for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
-		ApplyDriftMap(currentBunch, len);
+		if(cK1 != 0.0)
+		{
+			M.Apply(currentBunch->GetParticles());
+		}
+		else
+		{
+			ApplyDriftMap(currentBunch, len);
+		}
 		field.SetCoefficient(1, b1);
 	}
 }
-- 
2.43.0


From ae7e2bcd091c3709a4ed066fca2bd6ff19d6eefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:57 +0000
Subject: [PATCH 013/116] fix: kicks inside a skew quadrupole or sextupole were
 applied in the rotated frame

---
 Merlin++/TransportIntegrators.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index a5e46b0..41cf556 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -394,9 +394,18 @@ void RectMultipoleCI::TrackStep(double ds)
 		ApplyMapToBunch(*currentBunch, M);
 		if(splitMagnet)
 		{
+			// the kick is given in the frame of the field, not in the rotated one
+			if(!fequal(phi, 0))
+			{
+				RotateBunchAboutZ(*currentBunch, phi);
+			}
 			Complex b1 = field.GetCoefficient(1);
 			field.SetCoefficient(1, Complex(0));
-			for_each((*currentBunch).begin(), (*currentBunch).end(), MultipoleKick(field, ds, P0, q, -phi));
+			for_each((*currentBunch).begin(), (*currentBunch).end(), MultipoleKick(field, ds, P0, q));
+			if(!fequal(phi, 0))
+			{
+				RotateBunchAboutZ(*currentBunch, -phi);
+			}
 			// Apply second half of map
 			ApplyMapToBunch(*currentBunch, M);
 			field.SetCoefficient(1, b1);
@@ -431,9 +440,18 @@ void RectMultipoleCI::TrackStep(double ds)
 		ApplyMapToBunch(*currentBunch, M);
 		if(splitMagnet)
 		{
+			// the kick is given in the frame of the field, not in the rotated one
+			if(!fequal(phi, 0))
+			{
+				RotateBunchAboutZ(*currentBunch, phi);
+			}
 			Complex b2 = field.GetCoefficient(2);
 			field.SetCoefficient(2, Complex(0));
-			for_each((*currentBunch).begin(), (*currentBunch).end(), MultipoleKick(field, ds, P0, q, -phi));
+			for_each((*currentBunch).begin(), (*currentBunch).end(), MultipoleKick(field, ds, P0, q));
+			if(!fequal(phi, 0))
+			{
+				RotateBunchAboutZ(*currentBunch, -phi);
+			}
 			// Apply second half of map
 			ApplyMapToBunch(*currentBunch, M);
 			field.SetCoefficient(2, b2);
-- 
2.43.0


From 876b37f88a7e1fa3c903d295029682f1c58f5348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:57 +0000
Subject: [PATCH 014/116] fix: bend with a purely skew gradient tracked
 particles to NaN

---
 Merlin++/TransportIntegrators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 41cf556..deb529f 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -244,7 +244,7 @@ void SectorBendCI::TrackStep(double ds)
 	double len = splitMagnet ? ds / 2.0 : ds;
 
 	// Construct the second-order map
-	RTMap* M = (abs(K1) == 0) ? SectorBendTM(len, h, gamma) : GenSectorBendTM(len, h, K1.real(), 0);
+	RTMap* M = (K1.real() == 0) ? SectorBendTM(len, h, gamma) : GenSectorBendTM(len, h, K1.real(), 0);
 
 	if(fequal(P0, Pref, REL_ENGY_TOL))
 	{
-- 
2.43.0


From c8f96bac46dde720a503785e59fc310d2b4e4237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:23 +0000
Subject: [PATCH 015/116] fix: thin-lens and symplectic tracking tilted bends
 the wrong way round

---
 Merlin++/StdIntegrators.cpp        | 4 ++--
 Merlin++/SymplecticIntegrators.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 4fd16e7..bbdb682 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -186,7 +186,7 @@ void SectorBendCI::TrackStep(double ds)
 	if(tilt != 0)
 	{
 		RMtrx Rr;
-		TransportMatrix::Srot(tilt, Rr.R);
+		TransportMatrix::Srot(-tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
 
@@ -237,7 +237,7 @@ void SectorBendCI::TrackStep(double ds)
 	if(tilt != 0)
 	{
 		RMtrx Rr;
-		TransportMatrix::Srot(-tilt, Rr.R);
+		TransportMatrix::Srot(tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
 
diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index 0285870..17336a1 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -752,7 +752,7 @@ void SectorBendCI::TrackStep(double ds)
 	if(tilt != 0)
 	{
 		RMtrx Rr;
-		TransportMatrix::Srot(tilt, Rr.R);
+		TransportMatrix::Srot(-tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
 
@@ -834,7 +834,7 @@ void SectorBendCI::TrackStep(double ds)
 	if(tilt != 0)
 	{
 		RMtrx Rr;
-		TransportMatrix::Srot(-tilt, Rr.R);
+		TransportMatrix::Srot(tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
 }
@@ -868,7 +868,7 @@ void SectorBendCI_ef::TrackStep(double ds)
 	if(tilt != 0)
 	{
 		RMtrx Rr;
-		TransportMatrix::Srot(tilt, Rr.R);
+		TransportMatrix::Srot(-tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
 
@@ -950,7 +950,7 @@ void SectorBendCI_ef::TrackStep(double ds)
 	if(tilt != 0)
 	{
 		RMtrx Rr;
-		TransportMatrix::Srot(-tilt, Rr.R);
+		TransportMatrix::Srot(tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
 }
-- 
2.43.0


From d5202bed164e2f97024ff34cb6e4c2fd81e4ee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:23 +0000
Subject: [PATCH 016/116] fix: pole faces of tilted bends acted in the untilted
 frame

---
 Merlin++/StdIntegrators.cpp        |  7 +++++++
 Merlin++/SymplecticIntegrators.cpp | 21 ++++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index bbdb682..aee4561 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -266,8 +266,15 @@ void SectorBendCI::TrackExit()
 
 void SectorBendCI::ApplyPoleFaceRotation(double h, const SectorBend::PoleFace& pf)
 {
+	double tilt = (*currentComponent).GetGeometry().GetTilt();
 	RMtrx M(2);
 	TransportMatrix::PoleFaceRot(h, pf.rot, pf.fint, pf.hgap, M.R);
+	if(tilt != 0)
+	{
+		RMtrx Rr(2);
+		TransportMatrix::Srot(tilt, Rr.R);
+		M.R = Rr.R * M.R * Transpose(Rr.R);
+	}
 	M.Apply(currentBunch->GetParticles());
 }
 
diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index 17336a1..e1bd298 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -646,9 +646,20 @@ inline void ApplyMultipoleKick(ParticleBunch* bunch, MultipoleField& field, doub
 	}
 }
 
-inline void ApplyPoleFaceRotation(ParticleBunch* bunch, double h, const SectorBend::PoleFace& pf)
+inline void ApplyPoleFaceRotation(ParticleBunch* bunch, double h, double tilt, const SectorBend::PoleFace& pf)
 {
+	RMtrx Rr(2);
+	if(tilt != 0)
+	{
+		TransportMatrix::Srot(-tilt, Rr.R);
+		Rr.Apply(bunch->GetParticles());
+	}
 	for_each(bunch->begin(), bunch->end(), PoleFaceRotation(h, pf));
+	if(tilt != 0)
+	{
+		TransportMatrix::Srot(tilt, Rr.R);
+		Rr.Apply(bunch->GetParticles());
+	}
 }
 
 inline void ApplySectorBendMap(ParticleBunch* bunch, double h, double ds)
@@ -728,7 +739,7 @@ void SectorBendCI::TrackEntrance()
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
 	{
-		ApplyPoleFaceRotation(currentBunch, h, *pfi.entrance);
+		ApplyPoleFaceRotation(currentBunch, h, currentComponent->GetGeometry().GetTilt(), *pfi.entrance);
 	}
 }
 
@@ -738,7 +749,7 @@ void SectorBendCI::TrackExit()
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.exit != nullptr)
 	{
-		ApplyPoleFaceRotation(currentBunch, h, *pfi.exit);
+		ApplyPoleFaceRotation(currentBunch, h, currentComponent->GetGeometry().GetTilt(), *pfi.exit);
 	}
 }
 
@@ -845,7 +856,7 @@ void SectorBendCI_ef::TrackEntrance()
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
 	{
-		ApplyPoleFaceRotation(currentBunch, h, *pfi.entrance);
+		ApplyPoleFaceRotation(currentBunch, h, currentComponent->GetGeometry().GetTilt(), *pfi.entrance);
 	}
 }
 
@@ -855,7 +866,7 @@ void SectorBendCI_ef::TrackExit()
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.exit != nullptr)
 	{
-		ApplyPoleFaceRotation(currentBunch, h, *pfi.exit);
+		ApplyPoleFaceRotation(currentBunch, h, currentComponent->GetGeometry().GetTilt(), *pfi.exit);
 	}
 }
 
-- 
2.43.0


From a9c296947f5cbe98fa30d588ad06c6e7ad7d40dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:23 +0000
Subject: [PATCH 017/116] fix: thin-lens tracking ignored zero-length magnets

---
 Merlin++/StdIntegrators.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index aee4561..67c69dc 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -288,14 +288,21 @@ void RectMultipoleCI::TrackStep(double ds)
 	// including any dipole term.
 	using namespace TLAS;
 
-	CHK_ZERO(ds);
-
 	double P0 = currentBunch->GetReferenceMomentum();
 	double q = currentBunch->GetChargeSign();
 	double brho = P0 / eV / SpeedOfLight;
 
 	MultipoleField& field = currentComponent->GetField();
 
+	// thin-lens kick: the field is the integrated strength
+	if(currentComponent->GetLength() == 0 && ds == 0 && !field.IsNullField())
+	{
+		for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, 1.0, P0, q));
+		return;
+	}
+
+	CHK_ZERO(ds);
+
 	const Complex cK1 = q * field.GetKn(1, brho);
 	bool splitMagnet = field.GetCoefficient(0) != 0.0 || field.HighestMultipole() > 1;
 	double len = splitMagnet ? ds / 2 : ds;
-- 
2.43.0


From a4f83ed3dc8a77b7f55db2b68b8870a40f5242ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:49 +0000
Subject: [PATCH 018/116] fix: projected moments do not add up with previous
 contents of the result

---
 Merlin++/ParticleBunch.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index e4bf2c9..535ca76 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -235,6 +235,7 @@ PSmoments& ParticleBunch::GetMoments(PSmoments& sigma) const
 PSmoments2D& ParticleBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2D& sigma) const
 {
 	Point2D X = for_each(begin(), end(), APSV2(u, v, size())).X;
+	sigma.Zero();
 	sigma[0] = X.x;
 	sigma[1] = X.y;
 	for_each(begin(), end(), PSVVAR2(u, v, size(), sigma));
-- 
2.43.0


From 4750cc18f8b0a34d340b06397f547acb318a01ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:49 +0000
Subject: [PATCH 019/116] fix: SetCentroid puts the centroid on the first
 particle

---
 Merlin++/ParticleBunch.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 535ca76..37f00dd 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -389,6 +389,11 @@ void ParticleBunch::SetCentroid()
 	PSvector x;
 	GetCentroid(x);
 	x -= FirstParticle();
+	if(size() > 1)
+	{
+		// the first particle stays where it is, so the others move by more than the difference
+		x *= double(size()) / double(size() - 1);
+	}
 	for(PSvectorArray::iterator p = begin() + 1; p != end(); p++)
 	{
 		p->x() -= x.x();
-- 
2.43.0


From a812e9e817984f08a752cc1f570033221d8e6956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:49 +0000
Subject: [PATCH 020/116] fix: energy spread and length of generated bunches
 are those of the beam

---
 Merlin++/ParticleBunch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 37f00dd..2cbca6d 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -190,8 +190,8 @@ ParticleBunch::ParticleBunch(size_t np, const ParticleDistributionGenerator& gen
 		p.xp() *= sqrt(beam.emit_x);
 		p.y() *= sqrt(beam.emit_y);
 		p.yp() *= sqrt(beam.emit_y);
-		p.dp() *= sqrt(beam.sig_dp);
-		p.ct() *= sqrt(beam.sig_z);
+		p.dp() *= beam.sig_dp;
+		p.ct() *= beam.sig_z;
 
 		// Apply Courant-Snyder
 		M.Apply(p);
-- 
2.43.0


From da53309cd3cae0bc35d9d145e932944506b871a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:46 +0000
Subject: [PATCH 021/116] fix: stepping through a beamline applies geometry
 patches and passes over frames without component

---
 Merlin++/TrackingSimulation.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Merlin++/TrackingSimulation.cpp b/Merlin++/TrackingSimulation.cpp
index 417e17b..86c12b4 100644
--- a/Merlin++/TrackingSimulation.cpp
+++ b/Merlin++/TrackingSimulation.cpp
@@ -271,7 +271,18 @@ bool TrackingSimulation::StepComponent()
 	{
 		bunch->ApplyTransformation(frame->GetEntrancePlaneTransform());
 	}
-	stepper.Track(frame->GetComponent());
+	if(const Transform3D* t = frame->GetEntranceGeometryPatch())
+	{
+		bunch->ApplyTransformation(*t);
+	}
+	if(frame->IsComponent())
+	{
+		stepper.Track(frame->GetComponent());
+	}
+	if(const Transform3D* t = frame->GetExitGeometryPatch())
+	{
+		bunch->ApplyTransformation(*t);
+	}
 	if(incX)
 	{
 		bunch->ApplyTransformation(frame->GetExitPlaneTransform());
-- 
2.43.0


From 7a62ef231c193e70f8c8372dc535839d9de05200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:41 +0000
Subject: [PATCH 022/116] fix: string patterns ending in a literal match its
 last occurrence

---
 Merlin++/StringPattern.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Merlin++/StringPattern.cpp b/Merlin++/StringPattern.cpp
index 7c2f62c..c6035ce 100644
--- a/Merlin++/StringPattern.cpp
+++ b/Merlin++/StringPattern.cpp
@@ -83,7 +83,13 @@ bool StringPattern::Match(const std::string& s) const
 			return false;
 		}
 
-		if(allowFloat)
+		if(allowFloat && !wcterm.second && i + 1 == patterns.end())
+		{
+			// the last literal has to match the end of s
+			const string::size_type len = (*i).length();
+			return s.length() - n >= len && s.compare(s.length() - len, len, *i) == 0;
+		}
+		else if(allowFloat)
 		{
 			n = s.find(*i, n);
 			if(n == string::npos)
-- 
2.43.0


From d3e03ef7074defb56061dadce342ea2710fb2697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 023/116] fix: searching the element repository used an
 uninitialised flag

---
 Merlin++/ElementRepository.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ElementRepository.cpp b/Merlin++/ElementRepository.cpp
index b7ac8e2..1780757 100644
--- a/Merlin++/ElementRepository.cpp
+++ b/Merlin++/ElementRepository.cpp
@@ -21,7 +21,7 @@ struct MatchID
 public:
 
 	MatchID(const string& idpat, bool negate = false) :
-		pattern(idpat)
+		neg(negate), pattern(idpat)
 	{
 	}
 	bool operator()(const ModelElement* elmnt) const
-- 
2.43.0


From 5f02868091a9cb676b18e7c08ea547ae13e543f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 024/116] fix: an element may match both ends of a beamline
 selection

---
 Merlin++/AcceleratorModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 0332148..55099c5 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -143,7 +143,7 @@ AcceleratorModel::Beamline AcceleratorModel::GetBeamline(const string& pat1, con
 			i1 = i;
 			ni1 = ni;
 		}
-		else if(nn2 < n2 && p2(id) && ++nn2 == n2)
+		if(nn2 < n2 && p2(id) && ++nn2 == n2)
 		{
 			i2 = i;
 			ni2 = ni;
-- 
2.43.0


From 8f4558993fd8fbf9bfcfa4751f9c88bb5a32c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 025/116] fix: ExtractComponents passes over frames without
 component

---
 Merlin++/AcceleratorModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 55099c5..72ace63 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -34,7 +34,7 @@ struct MatchName
 	}
 	bool operator()(const ComponentFrame* frm)
 	{
-		return pattern((*frm).GetComponent().GetQualifiedName());
+		return pattern(frm->IsComponent() ? frm->GetComponent().GetQualifiedName() : frm->GetQualifiedName());
 	}
 
 };
-- 
2.43.0


From 43e03d1b044745d008a5ce2e8e03ddd8f24de30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 026/116] fix: ExtractModelElements overwrites previous results
 as documented

---
 Merlin++/AcceleratorModel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 72ace63..7b2a7f3 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -196,6 +196,7 @@ int AcceleratorModel::ExtractComponents(const string& pat, vector<ComponentFrame
 
 int AcceleratorModel::ExtractModelElements(const string& pat, vector<ModelElement*>& results)
 {
+	results.clear();
 	return theElements->Find(pat, results);
 }
 
-- 
2.43.0


From 66654d561d796ecca06ba05d208538aabc07523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 027/116] fix: frames appended with a sequence get their
 beamline index, patch frames are kept

---
 Merlin++/AcceleratorModelConstructor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModelConstructor.cpp b/Merlin++/AcceleratorModelConstructor.cpp
index 36634ef..a5a8149 100644
--- a/Merlin++/AcceleratorModelConstructor.cpp
+++ b/Merlin++/AcceleratorModelConstructor.cpp
@@ -61,8 +61,12 @@ public:
 			ComponentFrame* cf = dynamic_cast<ComponentFrame*>(frame);
 			if(cf)
 			{
-				erepo->Add(&(cf->GetComponent()));
+				if(cf->IsComponent())
+				{
+					erepo->Add(&(cf->GetComponent()));
+				}
 				lattice->push_back(cf);
+				cf->SetBeamlineIndex(lattice->size() - 1);
 			}
 		}
 		catch(bad_cast& b)
-- 
2.43.0


From 5acf4118a5a6fb6d90f3a5d33601bb0b180bc26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 028/116] fix: InstallModelElement used invalidated iterators
 and left indices and repository behind

---
 Merlin++/AcceleratorModel.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 7b2a7f3..d86c7c4 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -294,13 +294,22 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 
 	// replace the existing drift
 	auto insert_marker = lattice.erase(current_cf);
-	lattice.insert(insert_marker, c_drift2); // in reverse order
-	lattice.insert(insert_marker, c_element);
-	lattice.insert(insert_marker, c_drift1);
+	insert_marker = lattice.insert(insert_marker, c_drift2); // in reverse order
+	insert_marker = lattice.insert(insert_marker, c_element);
+	insert_marker = lattice.insert(insert_marker, c_drift1);
+
+	// everything from here on has a new place
+	for(size_t n = insert_marker - lattice.begin(); n < lattice.size(); n++)
+	{
+		lattice[n]->SetBeamlineIndex(n);
+	}
 
 	theElements->Add(c_drift1);
 	theElements->Add(c_drift2);
 	theElements->Add(c_element);
+	theElements->Add(drift1);
+	theElements->Add(drift2);
+	theElements->Add(element);
 }
 
 void AcceleratorModel::ReportModelStatistics(std::ostream& os) const
-- 
2.43.0


From 7fd1426e4904484af7b6de779fd3a4d22aeaa3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 029/116] fix: an element type without channels does not hide
 those of the other matching types

---
 Merlin++/ChannelServer.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/Merlin++/ChannelServer.cpp b/Merlin++/ChannelServer.cpp
index 73be3c4..f50f12c 100644
--- a/Merlin++/ChannelServer.cpp
+++ b/Merlin++/ChannelServer.cpp
@@ -110,7 +110,6 @@ size_t ChannelServer::GetROChannels(const string& chID, std::vector<ROChannel*>&
 			if(ctors.empty())
 			{
 				MerlinIO::warning() << "ChannelServer: No channel constructors for " << chpath.type << " found" << endl;
-				break;
 			}
 		}
 
@@ -152,7 +151,6 @@ size_t ChannelServer::GetRWChannels(const string& chID, std::vector<RWChannel*>&
 			if(ctors.empty())
 			{
 				MerlinIO::warning() << "ChannelServer: No channel constructors for " << chpath.type << " found" << endl;
-				break;
 			}
 		}
 
-- 
2.43.0


From 4306d37f45411a42da13b3e5470a5aa8a29d6c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:55 +0000
Subject: [PATCH 030/116] fix: a beamline starting beyond the last element is
 refused

---
 Merlin++/AcceleratorModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index d86c7c4..da3e5d9 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -113,7 +113,7 @@ AcceleratorModel::Beamline AcceleratorModel::GetBeamline()
 
 AcceleratorModel::Beamline AcceleratorModel::GetBeamline(AcceleratorModel::Index n1, AcceleratorModel::Index n2)
 {
-	if(n2 >= lattice.size())
+	if(n1 >= lattice.size() || n2 >= lattice.size())
 	{
 		throw BadRange();
 	}
-- 
2.43.0


From 5863241e420218320a92d5f622e6b5a8e4b5b3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 031/116] fix: typed components are selected by the unqualified
 name of the component

---
 Merlin++/AcceleratorModel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.h b/Merlin++/AcceleratorModel.h
index b17df3e..272dd6c 100644
--- a/Merlin++/AcceleratorModel.h
+++ b/Merlin++/AcceleratorModel.h
@@ -321,7 +321,7 @@ public:
 		for(BeamlineIterator i = lattice.begin(); i != lattice.end(); i++)
 		{
 			TComponentFrame<T>* cf = dynamic_cast<TComponentFrame<T>*>(*i);
-			if(cf && p(cf->GetName()))
+			if(cf && p(cf->GetComponent().GetName()))
 			{
 				results.push_back(cf);
 			}
-- 
2.43.0


From 344039650494eae4001fc3aad40840078664ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:31 +0000
Subject: [PATCH 032/116] fix: setting one field of a corrector winding leaves
 the other alone

---
 Merlin++/CorrectorWinding.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CorrectorWinding.cpp b/Merlin++/CorrectorWinding.cpp
index 6c71ff0..cecd76d 100644
--- a/Merlin++/CorrectorWinding.cpp
+++ b/Merlin++/CorrectorWinding.cpp
@@ -20,7 +20,7 @@ void CorrectorWinding::SetBx(double value)
 	}
 
 	double l = magnet->GetLength();
-	(*magnet).GetField().SetComponent(0, 0, value / l);
+	(*magnet).GetField().SetComponent(0, (*magnet).GetField().GetComponent(0).real(), value / l);
 }
 
 void CorrectorWinding::SetBy(double value)
@@ -31,7 +31,7 @@ void CorrectorWinding::SetBy(double value)
 	}
 
 	double l = magnet->GetLength();
-	(*magnet).GetField().SetComponent(0, value / l, 0);
+	(*magnet).GetField().SetComponent(0, value / l, (*magnet).GetField().GetComponent(0).imag());
 }
 
 double CorrectorWinding::GetBx() const
-- 
2.43.0


From 50a94cb0f99cce872b913cc9b17a743079da4c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:31 +0000
Subject: [PATCH 033/116] fix: setting the offset of one BPM channel leaves the
 other plane alone

---
 Merlin++/BPMChannel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/BPMChannel.cpp b/Merlin++/BPMChannel.cpp
index 9d5d291..7083978 100644
--- a/Merlin++/BPMChannel.cpp
+++ b/Merlin++/BPMChannel.cpp
@@ -36,10 +36,10 @@ void BPMChannel::SetBPMOffset(double x)
 {
 	if(xy == 'X')
 	{
-		itsData->SetOffsets(x, 0);
+		itsData->SetOffsets(x, itsData->y_off);
 	}
 	else
 	{
-		itsData->SetOffsets(0, x);
+		itsData->SetOffsets(itsData->x_off, x);
 	}
 }
-- 
2.43.0


From dac3cdacc29b3652f2723e1ba5e37c53ca810fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:08 +0000
Subject: [PATCH 034/116] fix: a delayed feedback leaves the actuators alone
 until its first correction arrives

---
 Merlin++/LinearFBSystem.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LinearFBSystem.cpp b/Merlin++/LinearFBSystem.cpp
index abbb515..0254ca8 100644
--- a/Merlin++/LinearFBSystem.cpp
+++ b/Merlin++/LinearFBSystem.cpp
@@ -164,9 +164,11 @@ void LinearFBSystem::SetPulseDelay(int n)
 
 	actuatorQueue = new std::queue<RealVector>();
 
-	RealVector zeros(0.0, actuators.Size());
+	// the actuators keep their values until the first correction arrives
+	RealVector current(actuators.Size());
+	actuators.ReadAll(current);
 	while((--n) > 0)
 	{
-		actuatorQueue->push(zeros);
+		actuatorQueue->push(current);
 	}
 }
-- 
2.43.0


From 79abaacc0ed1b2113956864a557ba59411746272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 035/116] fix: LUfactor wrote its pivot indices beyond the end
 of an unsized vector

---
 Merlin++/TLASimp.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 49d6d94..6d6e8f5 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -238,6 +238,7 @@ void LUfactor(Matrix<T>& M, std::vector<int>& pivot, T& sign)
 	}
 	const int n = M.ncols();
 
+	pivot.resize(n);
 	std::vector<T> scale(n);
 
 	sign = 1.0;
-- 
2.43.0


From 89e7b7cfc9dc96d9106dde02e7147add503c00ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 036/116] fix: InvertMatrix bound a temporary to a reference

---
 Merlin++/TLASimp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 6d6e8f5..6a1f39b 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -362,7 +362,7 @@ Matrix<T>& InvertMatrix(Matrix<T>& m)
 	LUMatrix<T> lu(m);
 	for(int i = 0; i < m.ncols(); i++)
 	{
-		SubVector<T>& col = m.column(i);
+		SubVector<T> col = m.column(i);
 		col = T(0);
 		col[i] = T(1);
 		lu(col);
-- 
2.43.0


From 8d32cbb11dfa3eaabf6c26e00a877dc8394dedd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 037/116] fix: SVDMatrix accepts matrices with fewer rows than
 columns as documented

---
 Merlin++/TLASimp.h | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 6a1f39b..3a1ad6d 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -119,24 +119,15 @@ public:
 	 */
 	Vector<T> operator()(const Vector<T>& rhs) const
 	{
-		Vector<T> x(w.size());
-		Vector<T> y(rhs);
-		y *= wts;
-		return SVDsolve(u, w, v, y, x);
+		return Solve(rhs);
 	}
 	Vector<T> operator()(const SubVector<T>& rhs) const
 	{
-		Vector<T> x(w.size());
-		Vector<T> y(rhs);
-		y *= wts;
-		return SVDsolve(u, w, v, y, x);
+		return Solve(rhs);
 	}
 	Vector<T> operator()(const ConstSubVector<T>& rhs) const
 	{
-		Vector<T> x(w.size());
-		Vector<T> y(rhs);
-		y *= wts;
-		return SVDsolve(u, w, v, y, x);
+		return Solve(rhs);
 	}
 	const std::vector<bool>& wflags() const
 	{
@@ -163,6 +154,18 @@ private:
 
 	void Init(const Matrix<T>& M, T threshold);
 
+	template<class V1> Vector<T> Solve(const V1& rhs) const
+	{
+		equal_length(rhs.size(), wts.size());
+		Vector<T> x(w.size());
+		Vector<T> y(T(0), u.nrows()); // rows added to make the matrix square have a zero RHS
+		for(size_t i = 0; i < wts.size(); i++)
+		{
+			y[i] = rhs[i] * wts[i];
+		}
+		return SVDsolve(u, w, v, y, x);
+	}
+
 	Matrix<T> u, v;
 	Vector<T> w;
 	Vector<T> wts;
@@ -199,9 +202,9 @@ void SVDMatrix<T>::Init(const Matrix<T>& M, T threshold)
 	}
 
 	// adjust for weights: multiply each column vector by wts
-	for(Subscript ir = 0; ir < u.ncols(); ir++)
+	for(Subscript ir = 0; ir < M.nrows(); ir++)
 	{
-		u.column(ir) *= wts;
+		u.row(ir) *= wts[ir];
 	}
 
 	w.redim(u.ncols());
@@ -420,7 +423,7 @@ template<class T> inline T SIGN(T a, T b)
 template<class T>
 void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 {
-	assert(M.nrows() <= M.ncols());
+	assert(M.nrows() >= M.ncols());
 	const int rmax = M.nrows() - 1;
 	const int cmax = M.ncols() - 1;
 
-- 
2.43.0


From 7583d52a66cf043fe3d1c2b28807df3366ef1927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 038/116] fix: a vector minus a scalar added the scalar

---
 Merlin++/TMatrixLib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index b619aa8..9962aac 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -474,7 +474,7 @@ template<class T>
 Vector<T> operator-(const Vector<T>& v, T s)
 {
 	Vector<T> rv(v);
-	return rv += s;
+	return rv -= s;
 }
 
 template<class T>
-- 
2.43.0


From 3b6544d4f2d1a696e9e467ed4d42d25b18719541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 039/116] fix: products of matrices need only matching inner
 dimensions

---
 Merlin++/TMatrixLib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index 9962aac..40a7f1d 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -1463,7 +1463,7 @@ Matrix<T> operator*(T s, const Matrix<T>& A)
 template<class T>
 Matrix<T> operator*(const Matrix<T>& A, const Matrix<T> B)
 {
-	equal_dimension(A.dim(), swap(B.dim()));
+	equal_length(A.ncols(), B.nrows());
 	Matrix<T> C(A.nrows(), B.ncols(), T(0));
 	tblas3::tgemm(false, false, T(1), A, B, T(1), C);
 	return C;
-- 
2.43.0


From 263aaa86d1a94bd5d30ebccb6e451ae261d5ee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 040/116] fix: non-square matrices are printed with their own
 numbers of rows and columns

---
 Merlin++/TMatrixLib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index 40a7f1d..eb18c6b 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -1484,9 +1484,9 @@ Vector<T> operator*(const Matrix<T>& M, const Vector<T> V)
 template<class T>
 std::ostream& operator<<(std::ostream& os, const Matrix<T>& M)
 {
-	for(size_t i = 0; i < M.ncols(); i++)
+	for(size_t i = 0; i < M.nrows(); i++)
 	{
-		for(size_t j = 0; j < M.nrows(); j++)
+		for(size_t j = 0; j < M.ncols(); j++)
 		{
 			os << M(i, j) << " ";
 		}
-- 
2.43.0


From 105bf1d917cfa459103f1ad40291b4995dbf0f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 041/116] fix: the collimation process does not delete the
 particle index supplied by the user

---
 Merlin++/CollimateParticleProcess.cpp | 14 ++++++++++----
 Merlin++/CollimateParticleProcess.h   |  5 +++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index b07b188..d2d0c5a 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -52,14 +52,14 @@ namespace ParticleTracking
 
 CollimateParticleProcess::CollimateParticleProcess(int priority, int mode, std::ostream* osp) :
 	ParticleBunchProcess("PARTICLE COLLIMATION", priority), cmode(mode), os(osp), createLossFiles(false), file_prefix(
-		""), lossThreshold(1), nstart(0), pindex(nullptr), ColParProTurn(0), FirstElementSet(0), scatter(false),
+		""), lossThreshold(1), nstart(0), pindex(nullptr), ownIndex(false), ColParProTurn(0), FirstElementSet(0), scatter(false),
 	bin_size(0.1 * PhysicalUnits::meter), Imperfections(false)
 {
 }
 
 CollimateParticleProcess::~CollimateParticleProcess()
 {
-	if(pindex != nullptr)
+	if(ownIndex)
 	{
 		delete pindex;
 	}
@@ -177,22 +177,28 @@ void CollimateParticleProcess::IndexParticles(bool index)
 	if(index && pindex == nullptr)
 	{
 		pindex = new list<size_t>;
+		ownIndex = true;
 	}
 	else if(!index && pindex != nullptr)
 	{
-		delete pindex;
+		if(ownIndex)
+		{
+			delete pindex;
+		}
 		pindex = nullptr;
+		ownIndex = false;
 	}
 }
 
 void CollimateParticleProcess::IndexParticles(list<size_t>& anIndex)
 {
-	if(!pindex)
+	if(ownIndex)
 	{
 		delete pindex;
 	}
 
 	pindex = &anIndex;
+	ownIndex = false;
 }
 
 void CollimateParticleProcess::SetLossThreshold(double losspc)
diff --git a/Merlin++/CollimateParticleProcess.h b/Merlin++/CollimateParticleProcess.h
index 119c680..00d239d 100644
--- a/Merlin++/CollimateParticleProcess.h
+++ b/Merlin++/CollimateParticleProcess.h
@@ -168,6 +168,11 @@ protected:
 	size_t nstart;
 	std::list<size_t>* pindex;
 
+	/**
+	 * True if pindex was allocated by this process; a list supplied by the user is not deleted
+	 */
+	bool ownIndex;
+
 	IDTBL idtbl;
 
 	/**
-- 
2.43.0


From 00ce3aeaf1ba0ba895d848cd1b834262e06d8701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 042/116] fix: losses at a second collimation point of an
 element use the input coordinates of the particles lost there

---
 Merlin++/CollimateParticleProcess.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index d2d0c5a..9009b8f 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -472,8 +472,27 @@ void CollimateParticleProcess::DoCollimation()
 	// Old loss output - depreciated due to CollimationOutput
 	//DoOutput(lost,lost_i);
 
+	//Keep the input array in step with the surviving particles, for the next collimation point of this element
+	if(!is_collimator)
+	{
+		PSvectorArray remaining;
+		remaining.reserve(currentBunch->size());
+		vector<unsigned int>::const_iterator nextLost = LostParticlePositions.begin();
+		for(size_t n = 0; n < InputArray.size(); n++)
+		{
+			if(nextLost != LostParticlePositions.end() && *nextLost == n)
+			{
+				++nextLost;
+			}
+			else
+			{
+				remaining.push_back(InputArray[n]);
+			}
+		}
+		InputArray.swap(remaining);
+	}
+
 	//make sure to clear up
-	InputArray.clear();             //The input array
 	LostParticlePositions.clear();  //A list of particles we want to use in the input array
 
 	if(double(nlost) / double(nstart) >= lossThreshold)
-- 
2.43.0


From 8c827ae0659773aa49b47f5258335cb4c14db887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 043/116] fix: particles lost in the last step of an element or
 in an element of zero length are reported to the collimation outputs

---
 Merlin++/CollimateParticleProcess.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 9009b8f..4914ccd 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -452,6 +452,11 @@ void CollimateParticleProcess::DoCollimation()
 						(*p).ct() = length;
 					}
 					lost.push_back(*p);
+
+					for(auto &OutIt : CollimationOutputVector)
+					{
+						OutIt->Dispose(*currentComponent, length, (*p), ColParProTurn);
+					}
 				}
 			}
 
@@ -460,8 +465,19 @@ void CollimateParticleProcess::DoCollimation()
 			//and the "lost particle bunch"
 			delete LostBunch;
 		}
-		//if the element has zero length nothing needs to be done since all the losses will have occurred at the same point anyway.
+		//if the element has zero length no tracking is needed since all the losses will have occurred at the same point anyway.
 		//So PSvectorArray loss will contain the correct information
+		else
+		{
+			for(auto &p : lost)
+			{
+				for(auto &OutIt : CollimationOutputVector)
+				{
+					OutIt->Dispose(*currentComponent, 0, p, ColParProTurn);
+				}
+			}
+			delete LostBunch;
+		}
 	}
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 15c3d6f9387b6aaf5998d283305791d9cdd1e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 044/116] fix: the first loss of a loss map is counted once

---
 Merlin++/LossMapCollimationOutput.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index a0beddf..5af22de 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -99,7 +99,7 @@ void LossMapCollimationOutput::Finalise()
 			}
 
 			// If old element ++loss
-			if(it->ElementName == OutputLosses[outit].ElementName)
+			else if(it->ElementName == OutputLosses[outit].ElementName)
 			{
 				OutputLosses[outit].lost += 1;
 			}
@@ -122,7 +122,7 @@ void LossMapCollimationOutput::Finalise()
 			}
 
 			// If position is equal
-			if(it->position == OutputLosses[outit].position)
+			else if(it->position == OutputLosses[outit].position)
 			{
 				OutputLosses[outit].lost += 1;
 			}
-- 
2.43.0


From db9b4c7f3c28ebda2ec67e487ac9a8982c872aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 045/116] fix: the interpolated rect-ellipse aperture takes the
 half width at both ends into account

---
 Merlin++/InterpolatedApertures.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 75ba1bf..84fd9a9 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -101,7 +101,7 @@ bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, do
 		}
 	}
 
-	double minDim = min({apFront.ap1, apFront.ap2, apFront.ap3, apFront.ap4, apFront.ap1, apBack.ap2, apBack.ap3,
+	double minDim = min({apFront.ap1, apFront.ap2, apFront.ap3, apFront.ap4, apBack.ap1, apBack.ap2, apBack.ap3,
 						 apBack.ap4});
 	if(ax + ay < minDim)
 	{
-- 
2.43.0


From 876fed6c4b525254c1c47738f6b32ce01ae39481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 046/116] fix: the interpolated elliptical aperture uses the
 vertical half axis

---
 Merlin++/InterpolatedApertures.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 84fd9a9..7a0a9af 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -325,11 +325,13 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 		{
 			apBack.s = ApList[n - 1].s;
 			apBack.ap1 = ApList[n - 1].ap1;
+			apBack.ap2 = ApList[n - 1].ap2;
 
 			apFront.s = ApList[n].s;
 			apFront.ap1 = ApList[n].ap1;
+			apFront.ap2 = ApList[n].ap2;
 
-			double minDim = min({apFront.ap1, apBack.ap1});
+			double minDim = min({apFront.ap1, apBack.ap1, apFront.ap2, apBack.ap2});
 			if(ax + ay < minDim)
 			{
 				return true;
@@ -373,7 +375,7 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 
 	//c = y - mx
 	double c1 = apFront.ap1 - (g1 * apFront.s);
-	double c2 = apFront.ap1 - (g2 * apFront.s);
+	double c2 = apFront.ap2 - (g2 * apFront.s);
 
 	double ellipse_half_horizontal = (g1 * z) + c1;
 	double ellipse_half_vertical = (g2 * z) + c2;
-- 
2.43.0


From ba5b2c73efbdf0b011c5c8df076c26485474f303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 047/116] fix: particles outside the exit jaws of a tapered
 collimator are not accepted because they would fit the entrance

---
 Merlin++/CollimatorAperture.cpp | 9 ++++++++-
 Merlin++/CollimatorAperture.h   | 5 +++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/Merlin++/CollimatorAperture.cpp b/Merlin++/CollimatorAperture.cpp
index 2ef3891..27999eb 100644
--- a/Merlin++/CollimatorAperture.cpp
+++ b/Merlin++/CollimatorAperture.cpp
@@ -15,7 +15,7 @@ CollimatorAperture::CollimatorAperture(double w, double h, double t, double leng
 {
 	rectHalfX = w / 2;
 	rectHalfY = h / 2;
-	minDim = fmin(rectHalfX, rectHalfY);
+	UpdateMinDim();
 	SetType("COLLIMATOR");
 }
 
@@ -40,6 +40,11 @@ inline bool CollimatorAperture::CheckWithinApertureBoundaries(double x, double y
 	return fabs(x1) * 2 < x_jaw && fabs(y1) * 2 < y_jaw;
 }
 
+void CollimatorAperture::UpdateMinDim()
+{
+	minDim = fmin(fmin(rectHalfX, rectHalfY), fmin(w_exit, h_exit) / 2);
+}
+
 void CollimatorAperture::SetEntranceWidth(double width)
 {
 	w_entrance = width;
@@ -53,11 +58,13 @@ void CollimatorAperture::SetEntranceHeight(double height)
 void CollimatorAperture::SetExitWidth(double width)
 {
 	w_exit = width;
+	UpdateMinDim();
 }
 
 void CollimatorAperture::SetExitHeight(double height)
 {
 	h_exit = height;
+	UpdateMinDim();
 }
 
 void CollimatorAperture::SetExitXOffset(double x)
diff --git a/Merlin++/CollimatorAperture.h b/Merlin++/CollimatorAperture.h
index 2dc4e3a..8e1bce4 100644
--- a/Merlin++/CollimatorAperture.h
+++ b/Merlin++/CollimatorAperture.h
@@ -151,6 +151,11 @@ protected:
 	double cosalpha;
 	double sinalpha;
 
+	/**
+	 * Updates the dimension within which particles are accepted without further checks
+	 */
+	void UpdateMinDim();
+
 };
 
 class UnalignedCollimatorAperture: public CollimatorAperture
-- 
2.43.0


From 34b0eae5a1351d444e6d5ace2b0f329746b8f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 048/116] fix: setting the entrance gap of a collimator changes
 its aperture

---
 Merlin++/CollimatorAperture.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/CollimatorAperture.cpp b/Merlin++/CollimatorAperture.cpp
index 27999eb..b6b3c1a 100644
--- a/Merlin++/CollimatorAperture.cpp
+++ b/Merlin++/CollimatorAperture.cpp
@@ -48,11 +48,15 @@ void CollimatorAperture::UpdateMinDim()
 void CollimatorAperture::SetEntranceWidth(double width)
 {
 	w_entrance = width;
+	rectHalfX = width / 2;
+	UpdateMinDim();
 }
 
 void CollimatorAperture::SetEntranceHeight(double height)
 {
 	h_entrance = height;
+	rectHalfY = height / 2;
+	UpdateMinDim();
 }
 
 void CollimatorAperture::SetExitWidth(double width)
-- 
2.43.0


From f5dac8fc3a14a1894f3adf03f55de35a6c10776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:04 +0000
Subject: [PATCH 049/116] fix: empty strings in quotes are read from TFS tables

---
 Merlin++/DataTableTFS.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Merlin++/DataTableTFS.cpp b/Merlin++/DataTableTFS.cpp
index cff913f..de42d5e 100644
--- a/Merlin++/DataTableTFS.cpp
+++ b/Merlin++/DataTableTFS.cpp
@@ -54,19 +54,22 @@ static std::vector<std::string> split_line(std::string line)
 	std::string current;
 	current.reserve(64);
 	bool double_quote_on = false;
+	bool quoted = false; // the current word has quotes, so it counts even if it is empty
 
 	for(auto c : line)
 	{
 		if(c == '"')
 		{
 			double_quote_on = !double_quote_on;
+			quoted = true;
 		}
 		else if(!double_quote_on && whitespace.find(c) != std::string::npos)
 		{
-			if(current.length())
+			if(current.length() || quoted)
 			{
 				sl.push_back(current);
 				current = "";
+				quoted = false;
 			}
 		}
 		else
@@ -74,7 +77,7 @@ static std::vector<std::string> split_line(std::string line)
 			current += c;
 		}
 	}
-	if(current.length())
+	if(current.length() || quoted)
 	{
 		sl.push_back(current);
 	}
-- 
2.43.0


From 62502149e667d953e8fe675b44b153a7a12e6adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:04 +0000
Subject: [PATCH 050/116] fix: TFS tables that end before the column names or
 types are refused

---
 Merlin++/DataTableTFS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/DataTableTFS.cpp b/Merlin++/DataTableTFS.cpp
index de42d5e..71d602d 100644
--- a/Merlin++/DataTableTFS.cpp
+++ b/Merlin++/DataTableTFS.cpp
@@ -118,7 +118,7 @@ DataTable DataTableReaderTFS::Read()
 	}
 
 	//Read column names
-	if(words[0] != "*")
+	if(words.empty() || words[0] != "*")
 	{
 		throw BadFormatException("Expected line starting with '*' or '@' at line " + std::to_string(line_number));
 	}
@@ -131,7 +131,7 @@ DataTable DataTableReaderTFS::Read()
 	getline(*in, line);
 	line_number++;
 	words = split_line(line);
-	if(words[0] != "$")
+	if(words.empty() || words[0] != "$")
 	{
 		throw BadFormatException("Expected line starting with '$' at line " + std::to_string(line_number));
 	}
-- 
2.43.0


From 920d1073e9b8fa9117e59976159f88366415e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:32 +0000
Subject: [PATCH 051/116] fix: matrices of one or two degrees of freedom leave
 the other moments unchanged

---
 Merlin++/MatrixMaps.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Merlin++/MatrixMaps.cpp b/Merlin++/MatrixMaps.cpp
index 7aef3fc..1a4ba0c 100644
--- a/Merlin++/MatrixMaps.cpp
+++ b/Merlin++/MatrixMaps.cpp
@@ -18,22 +18,27 @@ PSmoments& TransformMoments(PSmoments& S, const RealMatrix& R)
 	int i, j, k, l;
 	const int n = R.ncols();
 
-	for(i = 0; i < n; i++)
+	// degrees of freedom beyond those of R are left unchanged
+	auto r = [&](int a, int b) {
+			return (a < n && b < n) ? R(a, b) : (a == b ? 1.0 : 0.0);
+		};
+
+	for(i = 0; i < PS_LENGTH; i++)
 	{
 		for(j = 0; j <= i; j++)
 		{
 			double sij = 0.0;
-			for(k = 0; k < n; k++)
-				for(l = 0; l < n; l++)
+			for(k = 0; k < PS_LENGTH; k++)
+				for(l = 0; l < PS_LENGTH; l++)
 				{
-					sij += R(i, k) * R(j, l) * S(k, l);
+					sij += r(i, k) * r(j, l) * S(k, l);
 				}
 
 			result(i, j) = sij;
 		}
-		for(j = 0; j < n; j++)
+		for(j = 0; j < PS_LENGTH; j++)
 		{
-			result[i] += R(i, j) * S[j];    // centroid tracking
+			result[i] += r(i, j) * S[j];    // centroid tracking
 		}
 	}
 
-- 
2.43.0


From 3e85f4b3a8238d720d76ffcd36d5719d5c39597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:32 +0000
Subject: [PATCH 052/116] fix: the correlation of time and momentum is rescaled
 with the reference momentum

---
 Merlin++/MatrixMaps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MatrixMaps.cpp b/Merlin++/MatrixMaps.cpp
index 1a4ba0c..2b1f2d8 100644
--- a/Merlin++/MatrixMaps.cpp
+++ b/Merlin++/MatrixMaps.cpp
@@ -56,7 +56,7 @@ void RescaleMoments(double P0, double P1, PSmoments& S)
 	S[5] = ratio * (1 + S[5]) - 1.0;
 
 	// rescale momentum correlations
-	for(int i = 0; i < 4; i++)
+	for(int i = 0; i < 5; i++)
 	{
 		S(i, 5) *= ratio;
 	}
-- 
2.43.0


From 5fdea0dadb5865e5658a7e85de2d99dbf0e1ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:32 +0000
Subject: [PATCH 053/116] fix: copies of linear maps do not refer to the terms
 of the original

---
 Merlin++/RMap.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Merlin++/RMap.h b/Merlin++/RMap.h
index ab94b73..4730fac 100644
--- a/Merlin++/RMap.h
+++ b/Merlin++/RMap.h
@@ -68,6 +68,18 @@ public:
 		{
 			last = array;
 		}
+		LinearTermArray(const LinearTermArray& rhs)
+		{
+			last = std::copy(rhs.begin(), rhs.end(), array);
+		}
+		LinearTermArray& operator=(const LinearTermArray& rhs)
+		{
+			if(this != &rhs)
+			{
+				last = std::copy(rhs.begin(), rhs.end(), array);
+			}
+			return *this;
+		}
 		void push_back(const Rij& r)
 		{
 			*last = r;
-- 
2.43.0


From 5dfe54ed302c93f508fa12091b2fb25e3923e866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:32 +0000
Subject: [PATCH 054/116] fix: the kick of a transverse RF structure is not
 counted three times in the displacement

---
 Merlin++/TransRFIntegrator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransRFIntegrator.cpp b/Merlin++/TransRFIntegrator.cpp
index c8ce445..aeb1b15 100644
--- a/Merlin++/TransRFIntegrator.cpp
+++ b/Merlin++/TransRFIntegrator.cpp
@@ -36,10 +36,10 @@ struct TRFMap
 		double cx2 = 0.5 * cx1 * len;
 		double cy2 = 0.5 * cy1 * len;
 
-		x.xp() += cx1;
 		x.x() += cx2 + len * x.xp();
-		x.yp() += cy1;
+		x.xp() += cx1;
 		x.y() += cy2 + len * x.yp();
+		x.yp() += cy1;
 	}
 
 };
-- 
2.43.0


From 7f4592785ccbe1e068dd0846b0ba4dfa3254c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:32 +0000
Subject: [PATCH 055/116] fix: standing wave structures do not lose a cell by
 rounding

---
 Merlin++/StdIntegrators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 67c69dc..27097ec 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -367,8 +367,8 @@ void SWRFStructureCI::TrackStep(double ds)
 	double E0 = currentBunch->GetReferenceMomentum();
 
 	double lambdaOver2 = SpeedOfLight / f / 2;
-	int ncells = static_cast<int>(ds / lambdaOver2);
-	assert(ncells * lambdaOver2 == ds);
+	int ncells = static_cast<int>(ds / lambdaOver2 + 0.5);
+	assert(fequal(ncells * lambdaOver2, ds, 1.0e-9));
 
 	RMtrx Rm(2);
 	TransportMatrix::SWRFCavity(ncells, g, f, phi, E0, Rm.R);
-- 
2.43.0


From 9914d378d0236ed514894512de3eb2d7f2722ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:32 +0000
Subject: [PATCH 056/116] fix: the map of standing wave structures holds at the
 zero crossing

---
 Merlin++/TransportMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index b457a4d..7035e90 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -454,7 +454,7 @@ RealMatrix& TransportMatrix::SWRFCavity(int ncells, double g, double f, double p
 	double cosPhi = cos(phi);
 	double E1 = E0 + g * length * cosPhi;
 
-	double alpha = log(E1 / E0) / cosPhi / root8;
+	double alpha = log1p(g * length * cosPhi / E0) / cosPhi / root8;
 	double cosAlpha = cos(alpha);
 	double sinAlpha = sin(alpha);
 
-- 
2.43.0


From 33651e7982eb5f37e677766bb5838fa37135f202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:32 +0000
Subject: [PATCH 057/116] fix: the symplectic map of standing wave structures
 has the right determinant

---
 Merlin++/SymplecticIntegrators.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index e1bd298..d8b7476 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -517,8 +517,6 @@ public:
 		double rt8 = 2.0 * rt2;
 
 		double cosphi = cos(phi);
-		double sinphi = sin(phi);
-
 		VncosPhi = Vn * cosphi;
 		double d0 = 1.0 + VncosPhi;
 
@@ -528,7 +526,7 @@ public:
 
 		m11 = cosalpha - rt2 * cosphi * sinalpha;
 		m12 = rt8 * len * cosphi * sinalpha / VncosPhi;
-		m21 = -(1.0 - 1.0 / d0) * (sinphi / rt2 + 1.0 / cosphi / rt8) * sinalpha / len;
+		m21 = -(1.0 - 1.0 / d0) * (cosphi / rt2 + 1.0 / cosphi / rt8) * sinalpha / len;
 		m22 = (cosalpha + rt2 * cosphi * sinalpha) / d0;
 
 		//~ cout<<std::setw(14)<<len;
-- 
2.43.0


From f237a4543df24c9b34975d68cc2c61029762cf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:32 +0000
Subject: [PATCH 058/116] fix: the symplectic map of standing wave structures
 holds at the zero crossing

---
 Merlin++/SymplecticIntegrators.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index d8b7476..c8f096f 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -520,13 +520,13 @@ public:
 		VncosPhi = Vn * cosphi;
 		double d0 = 1.0 + VncosPhi;
 
-		double alpha = log(d0) / cosphi / rt8;
+		double alpha = log1p(VncosPhi) / cosphi / rt8;
 		double cosalpha = cos(alpha);
 		double sinalpha = sin(alpha);
 
 		m11 = cosalpha - rt2 * cosphi * sinalpha;
-		m12 = rt8 * len * cosphi * sinalpha / VncosPhi;
-		m21 = -(1.0 - 1.0 / d0) * (cosphi / rt2 + 1.0 / cosphi / rt8) * sinalpha / len;
+		m12 = rt8 * len * sinalpha / Vn;
+		m21 = -Vn / d0 * (cosphi * cosphi / rt2 + 1.0 / rt8) * sinalpha / len;
 		m22 = (cosalpha + rt2 * cosphi * sinalpha) / d0;
 
 		//~ cout<<std::setw(14)<<len;
-- 
2.43.0


From a16faa31fbe03db2ba8080922b90c5d41523221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:53 +0000
Subject: [PATCH 059/116] fix: klystrons scale the vector sum of their cavities
 to the voltage and phase set

---
 Merlin++/Klystron.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Merlin++/Klystron.cpp b/Merlin++/Klystron.cpp
index 4b14a0f..d4fac59 100644
--- a/Merlin++/Klystron.cpp
+++ b/Merlin++/Klystron.cpp
@@ -130,8 +130,18 @@ void Klystron::AppendBeamlineIndexes(std::vector<size_t>& ivec) const
 
 void Klystron::AdjustVectorSum(double v, double phi)
 {
-	Complex vscale = Complex(v * cos(phi), v * sin(phi)) / Complex(V_k * cos(phi_k), V_k * sin(phi_k));
-	for_each(rf_cavs.begin(), rf_cavs.end(), scale_cavity(vscale));
+	// current vector sum of the cavities
+	Complex z0 = for_each(rf_cavs.begin(), rf_cavs.end(), accumulate_vector_sum()).z;
+	if(z0 == Complex(0))
+	{
+		// nothing that could be scaled
+		for_each(rf_cavs.begin(), rf_cavs.end(), set_cavity(v / rf_cavs.size(), phi));
+	}
+	else
+	{
+		Complex vscale = Complex(v * cos(phi), v * sin(phi)) / z0;
+		for_each(rf_cavs.begin(), rf_cavs.end(), scale_cavity(vscale));
+	}
 	V_k = v;
 	phi_k = phi;
 }
-- 
2.43.0


From 41805ee9dffad5cf2049dac9c2f3f308d95f71b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:03 +0000
Subject: [PATCH 060/116] fix: monitors measure once, also in several steps and
 at the exit

---
 Merlin++/SMPStdIntegrators.cpp | 6 ++++--
 Merlin++/StdIntegrators.cpp    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 7eac49a..524382f 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -406,9 +406,11 @@ void MonitorCI::TrackStep(double ds)
 	else
 	{
 		double mpt = currentComponent->GetMeasurementPt() + len / 2;
-		if(GetIntegratedLength() + ds > mpt)
+		double s0 = GetIntegratedLength();
+		// measure once, in the step that reaches the measurement point
+		if(s0 <= mpt && mpt <= len && (mpt < s0 + ds || AtExit(ds)))
 		{
-			double s1 = mpt - GetIntegratedLength();
+			double s1 = mpt - s0;
 			ApplyDrift(s1, *currentBunch);
 			currentComponent->MakeMeasurement(*currentBunch);
 			ds -= s1;
diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 27097ec..74f9887 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -404,9 +404,11 @@ void MonitorCI::TrackStep(double ds)
 	else
 	{
 		double mpt = currentComponent->GetMeasurementPt() + len / 2;
-		if(GetIntegratedLength() + ds > mpt)
+		double s0 = GetIntegratedLength();
+		// measure once, in the step that reaches the measurement point
+		if(s0 <= mpt && mpt <= len && (mpt < s0 + ds || AtExit(ds)))
 		{
-			double s1 = mpt - GetIntegratedLength();
+			double s1 = mpt - s0;
 			ApplyDrift(currentBunch->GetParticles(), s1);
 			//				IncrStep(s1); // need to increment bunch timing
 			currentComponent->MakeMeasurement(*currentBunch);
-- 
2.43.0


From b8e2d61eabf2d2575dcc58ca575d1bfed3be89cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 061/116] fix: monitors start unreflected

---
 Merlin++/Monitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/Monitor.cpp b/Merlin++/Monitor.cpp
index 811bb6a..c5f357b 100644
--- a/Merlin++/Monitor.cpp
+++ b/Merlin++/Monitor.cpp
@@ -13,7 +13,7 @@ bool Monitor::all_inactive = false;
 const int Monitor::ID = UniqueIndex();
 
 Monitor::Monitor(const string& id, double len, double mpt) :
-	TAccCompG<RectangularGeometry>(id, new RectangularGeometry(len)), mp(mpt), active(true)
+	TAccCompG<RectangularGeometry>(id, new RectangularGeometry(len)), mp(mpt), reflected(false), active(true)
 {
 }
 
-- 
2.43.0


From 3068f7cb78d62437aa61a8132188290a9a487abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 062/116] fix: the inclined wire of profile monitors measures
 the projection onto its direction

---
 Merlin++/RMSProfileMonitor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Merlin++/RMSProfileMonitor.cpp b/Merlin++/RMSProfileMonitor.cpp
index 5ed5645..5584abc 100644
--- a/Merlin++/RMSProfileMonitor.cpp
+++ b/Merlin++/RMSProfileMonitor.cpp
@@ -60,8 +60,9 @@ void RMSProfileMonitor::MakeMeasurement(const Bunch& aBunch)
 		{
 			double cosu = cos(uangle);
 			double sinu = sin(uangle);
-			mdat.u0.value = cosu * profile.mean(0) - sinu * profile.mean(1);
-			mdat.urms.value = cosu * profile.std(0) - sinu * profile.std(1);
+			mdat.u0.value = cosu * profile.mean(0) + sinu * profile.mean(1);
+			mdat.urms.value = sqrt(cosu * cosu * profile.var(0) + 2 * cosu * sinu * profile.sig(0, 1) + sinu * sinu
+				* profile.var(1));
 		}
 
 		mdat.u0.error = res_u;
-- 
2.43.0


From eea17e1c5ffcc11d82d51488bc22cf1b1d515c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:38 +0000
Subject: [PATCH 063/116] fix: looking up a multipole coefficient does not
 extend the field

---
 Merlin++/MultipoleField.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/Merlin++/MultipoleField.cpp b/Merlin++/MultipoleField.cpp
index 70600c0..6fa3767 100644
--- a/Merlin++/MultipoleField.cpp
+++ b/Merlin++/MultipoleField.cpp
@@ -164,12 +164,7 @@ Complex MultipoleField::GetComponent(size_t np, double r0) const
 
 Complex MultipoleField::GetCoefficient(size_t np, double r0) const
 {
-	if(np + 1 > expansion.size())
-	{
-		const_cast<MultipoleField&>(*this).expansion.resize(np + 1, Complex(0, 0));
-	}
-
-	return expansion[np] * pow(r0, np);
+	return np < expansion.size() ? expansion[np] * pow(r0, np) : Complex(0);
 }
 
 void MultipoleField::SetCoefficient(size_t np, const Complex& b, double r0)
-- 
2.43.0


From 1b972e6e349ef67039a50439272df660388d23f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:38 +0000
Subject: [PATCH 064/116] fix: the lowest multipole of a field without any does
 not read past the end

---
 Merlin++/MultipoleField.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/MultipoleField.h b/Merlin++/MultipoleField.h
index c88635c..dd46a67 100644
--- a/Merlin++/MultipoleField.h
+++ b/Merlin++/MultipoleField.h
@@ -220,9 +220,9 @@ inline int MultipoleField::HighestMultipole() const
 inline int MultipoleField::LowestMultipole() const
 {
 	size_t n = 0;
-	while(expansion[n++] == Complex(0.0))
-		;
-	return n - 1;
+	while(n < expansion.size() && expansion[n] == Complex(0.0))
+		n++;
+	return n;
 }
 
 #endif
-- 
2.43.0


From fc513fcfb84d4bba549075b60b4bf2d1ad8861da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:38 +0000
Subject: [PATCH 065/116] fix: a multipole field of zero strength has finite
 coefficients

---
 Merlin++/MultipoleField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MultipoleField.cpp b/Merlin++/MultipoleField.cpp
index 6fa3767..14d6331 100644
--- a/Merlin++/MultipoleField.cpp
+++ b/Merlin++/MultipoleField.cpp
@@ -34,7 +34,7 @@ MultipoleField::MultipoleField(int np, double bn, double an, double r0) :
 {
 	Complex z(bn, an);
 	B0 = abs(z);
-	expansion[np] = z / B0;
+	expansion[np] = B0 != 0 ? z / B0 : Complex(1);
 	B0 /= pow(r0, np);
 }
 
-- 
2.43.0


From 2b0a1d7059f919a98eaa3f179f1e215993bc30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:38 +0000
Subject: [PATCH 066/116] fix: rectangular multipoles know their primary pole
 number

---
 Merlin++/RectMultipole.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/RectMultipole.cpp b/Merlin++/RectMultipole.cpp
index 2e2d53a..721fdfe 100644
--- a/Merlin++/RectMultipole.cpp
+++ b/Merlin++/RectMultipole.cpp
@@ -12,13 +12,13 @@ const int RectMultipole::ID = UniqueIndex();
 
 RectMultipole::RectMultipole(const string& id, double length, int npole, double b, double r0, bool skew) :
 	TAccCompGF<RectangularGeometry, MultipoleField>(id, new RectangularGeometry(length),
-		new MultipoleField(npole, b, r0, skew))
+		new MultipoleField(npole, b, r0, skew)), np(npole)
 {
 }
 
 RectMultipole::RectMultipole(const string& id, double len, int np, double b, bool skew) :
 	TAccCompGF<RectangularGeometry, MultipoleField>(id, new RectangularGeometry(len),
-		new MultipoleField(np, b, skew))
+		new MultipoleField(np, b, skew)), np(np)
 {
 }
 
-- 
2.43.0


From a2259fc25d3ff66977255fb1847fdf0930bb1fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:38 +0000
Subject: [PATCH 067/116] fix: sector bends may have a pole face at one end
 only

---
 Merlin++/SectorBend.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/Merlin++/SectorBend.h b/Merlin++/SectorBend.h
index 2c1c3b0..b5e429a 100644
--- a/Merlin++/SectorBend.h
+++ b/Merlin++/SectorBend.h
@@ -89,8 +89,11 @@ public:
 
 		PoleFaceInfo& operator =(const PoleFaceInfo& rhs)
 		{
-			Clear();
-			Copy(rhs);
+			if(this != &rhs)
+			{
+				Clear();
+				Copy(rhs);
+			}
 			return *this;
 		}
 
@@ -99,16 +102,24 @@ public:
 			Clear();
 			entrance = e1;
 			exit = e2;
-			entrance->type = 1;
-			exit->type = 0;
+			if(entrance)
+			{
+				entrance->type = 1;
+			}
+			if(exit)
+			{
+				exit->type = 0;
+			}
 		}
 
 		void SetInfo(PoleFace* e1)
 		{
 			Clear();
 			entrance = exit = e1;
-			entrance->type = 1;
-			exit->type = 0;
+			if(exit)
+			{
+				exit->type = 0;
+			}
 		}
 
 		/**
-- 
2.43.0


From b57a27f40f3a2cf4d5729fa7364b3c364cef9cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 068/116] fix: interpolations made from arrays hold the data

---
 Merlin++/Interpolation.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Merlin++/Interpolation.cpp b/Merlin++/Interpolation.cpp
index f3e4b34..d9f925f 100644
--- a/Merlin++/Interpolation.cpp
+++ b/Merlin++/Interpolation.cpp
@@ -162,11 +162,8 @@ ArbSpacedData::ArbSpacedData(const vector<double>& xvals, const vector<double>&
 	 */
 }
 ArbSpacedData::ArbSpacedData(const double* xvals, const double* yvals, int n, int order) :
-	itsData()
+	ArbSpacedData(vector<double>(xvals, xvals + n), vector<double>(yvals, yvals + n), order)
 { // version for old style arrays
-	vector<double> X(xvals, xvals + n);
-	vector<double> Y(yvals, yvals + n);
-	ArbSpacedData(X, Y, order);
 }
 
 double ArbSpacedData::ValueAt(double x, double* err)
-- 
2.43.0


From 112123e177861aa1d8cbaa3fac8a67deeae29f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 069/116] fix: interpolation at the last of equally spaced
 points does not read past the data

---
 Merlin++/Interpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/Interpolation.cpp b/Merlin++/Interpolation.cpp
index d9f925f..516f9c6 100644
--- a/Merlin++/Interpolation.cpp
+++ b/Merlin++/Interpolation.cpp
@@ -235,7 +235,7 @@ double EqualSpacedData::ValueAt(double x, double* err)
 	}
 	else
 	{
-		n = (x - xmin) / dx;
+		n = min<size_t>((x - xmin) / dx, yvals.size() - 2);
 	}
 
 	double m = (yvals[n + 1] - yvals[n]) / dx;
-- 
2.43.0


From 05fe423ed89054f31250867b7cd04f2c629b48e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 070/116] fix: interpolation of higher order passes through the
 data and stays within its polynomials

---
 Merlin++/Interpolation.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/Merlin++/Interpolation.cpp b/Merlin++/Interpolation.cpp
index 516f9c6..32f4c37 100644
--- a/Merlin++/Interpolation.cpp
+++ b/Merlin++/Interpolation.cpp
@@ -182,17 +182,15 @@ double ArbSpacedData::ValueAt(double x, double* err)
 		// n.b.  lastseenat is a data member and therefore preserved between calls
 		while(x > itsData[lastseenat].x)
 			lastseenat += 1;
-		while(x < itsData[lastseenat].x)
+		while(lastseenat > 0 && x <= itsData[lastseenat - 1].x)
 			lastseenat -= 1;
-		int lo = max(0, lastseenat - itsOrder);
 		int Qsize = Q.size();
-		int hi = min(lastseenat, Qsize - 1);
-		int iwant = max(0, lastseenat - (itsOrder + 1) / 2 - 1);
-		iwant = min(iwant, Qsize - 2);
-		// cout<<" lastseen lo hi iwant "<<lastseenat<<" "<<lo<<" "<<hi<<" "<<iwant<<endl;
-		//for(int i=lo;i<=hi;i++) cout<<i<<" "<<evaluatepoly(x,Q[i])<<endl;
-		double v1 = evaluatepoly(x, Q[iwant]);
-		double v2 = evaluatepoly(x, Q[iwant + 1]);
+		int iwant = lastseenat - (itsOrder + 1) / 2 - 1;
+		// of the polynomials only those through both ends of the segment
+		int i1 = min(max(0, iwant), Qsize - 1);
+		int i2 = min(max(0, iwant + 1), Qsize - 1);
+		double v1 = evaluatepoly(x, Q[i1]);
+		double v2 = evaluatepoly(x, Q[i2]);
 		//cout<<" is "<<v1 <<" "<<v2<<endl;
 		if(err)
 			*err = abs(v1 - v2);  // give an error estimate iff one is asked for
-- 
2.43.0


From b5bc626a8a7f24e0887e9cf1f71ac1d6d929d5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:36 +0000
Subject: [PATCH 071/116] fix: the NaN check removes invalid particles also if
 their id was reported before

---
 Merlin++/NANCheckProcess.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/Merlin++/NANCheckProcess.cpp b/Merlin++/NANCheckProcess.cpp
index a3a7ea1..bf1c30f 100644
--- a/Merlin++/NANCheckProcess.cpp
+++ b/Merlin++/NANCheckProcess.cpp
@@ -37,20 +37,16 @@ void NANCheckProcess::DoProcess(const double ds)
 	bool do_cull = 0;
 	for(auto &p : *currentBunch)
 	{
-		if(reported.count(p.id()))
+		if(cull && !is_good(p))
 		{
-			continue;
+			do_cull = 1;
 		}
-		if(!is_good(p))
+		if(!is_good(p) && !reported.count(p.id()))
 		{
 			std::cout << "NAN entry found in currentBunch[" << count << "], p.id = " << p.id() << ", at "
 					  << currentComponent->GetQualifiedName() << std::endl;
 			Report(p.id());
 			reported.insert(p.id());
-			if(cull)
-			{
-				do_cull = 1;
-			}
 			if(halt)
 			{
 				std::cout << "Halting on NAN coordinate" << std::endl;
-- 
2.43.0


From 11097ec4a5328d60c61239b4d6a70628a63e0863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:17 +0000
Subject: [PATCH 072/116] fix: wire scanners of MAD lattices have their length

---
 Merlin++/MADInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 8300ec7..8161ef5 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -626,7 +626,7 @@ vector<AcceleratorComponent*> MonitorComponent::GetInstance(DataTableRow& MADinp
 	double length = MADinputrow.Get_d("L");
 
 	if(name.substr(0, 2) == "WS")
-		return {new RMSProfileMonitor(name, length)};
+		return {new RMSProfileMonitor(name, pi / 4, length)};
 	else
 		return {new BPM(name, length)};
 }
-- 
2.43.0


From eb65be0527c37bed33901f573e937958773001ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:17 +0000
Subject: [PATCH 073/116] fix: models appended from several MAD files are kept
 until asked for

---
 Merlin++/MADInterface.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 8161ef5..e5dd81f 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -108,6 +108,7 @@ AcceleratorModel* MADInterface::ConstructModel()
 	if(modelconstr != nullptr && appendFlag == false)
 	{
 		delete modelconstr;
+		modelconstr = nullptr;
 	}
 	if(modelconstr == nullptr && appendFlag == false)
 	{
@@ -172,6 +173,13 @@ AcceleratorModel* MADInterface::ConstructModel()
 		}
 	} //End for loop
 
+	if(appendFlag)
+	{
+		// more may be appended until GetModel() is called
+		delete factory;
+		return nullptr;
+	}
+
 	if(logFlag && log)
 	{
 		*log << endl;
@@ -330,6 +338,7 @@ AcceleratorModel* MADInterface::GetModel()
 	AcceleratorModel* theModel = modelconstr->GetModel();
 	delete modelconstr;
 	modelconstr = nullptr;
+	appendFlag = false;
 	return theModel;
 }
 
-- 
2.43.0


From 9d9d762ef4048599db75e29b48b17ec080913e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:00 +0000
Subject: [PATCH 074/116] fix: the multipole type of a MAD row is that of its
 non-zero strength

---
 Merlin++/MADInterface.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index e5dd81f..095789a 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -216,15 +216,15 @@ void MADInterface::TypeOverrides(DataTableRow& MADinputrow)
 
 string MADInterface::GetMutipoleType(DataTableRow& MADinputrow)
 {
-	if(!MADinputrow.Get_d("K0L"))
+	if(MADinputrow.Get_d("K0L"))
 		return "SBEND";
-	if(!MADinputrow.Get_d("K1L"))
+	if(MADinputrow.Get_d("K1L"))
 		return "QUADRUPOLE";
-	if(!MADinputrow.Get_d("K2L"))
+	if(MADinputrow.Get_d("K2L"))
 		return "SEXTUPOLE";
-	if(!MADinputrow.Get_d("K3L"))
+	if(MADinputrow.Get_d("K3L"))
 		return "OCTUPOLE";
-	if(!MADinputrow.Get_d("K4L"))
+	if(MADinputrow.Get_d("K4L"))
 		return "DECAPOLE";
 	return "DRIFT";
 }
-- 
2.43.0


From cf2603e0a073c6843086b834691286415ac47fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:52 +0000
Subject: [PATCH 075/116] fix: rms dispersion starts with the dispersion at the
 start of the ring

---
 Merlin++/Dispersion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/Dispersion.cpp b/Merlin++/Dispersion.cpp
index d81dd81..b319f61 100644
--- a/Merlin++/Dispersion.cpp
+++ b/Merlin++/Dispersion.cpp
@@ -68,7 +68,8 @@ void Dispersion::FindRMSDispersion(ostream* file)
 	double len = 0.0;
 	double dl = 0.0;
 	double prev[2];
-	prev[0] = prev[1] = 0;
+	prev[0] = (q.x() - p.x()) / 2 / delta;
+	prev[1] = (q.y() - p.y()) / 2 / delta;
 	double pres[2];
 	double rmsD[2];
 	rmsD[0] = rmsD[1] = 0;
-- 
2.43.0


From bf6aeeecfedac8f1f861b7eef592b21443483e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:15 +0000
Subject: [PATCH 076/116] fix: phase advance counts turns completed in the last
 element or exactly at an element

---
 Merlin++/PhaseAdvance.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/PhaseAdvance.cpp b/Merlin++/PhaseAdvance.cpp
index ecf305c..ccc5d57 100644
--- a/Merlin++/PhaseAdvance.cpp
+++ b/Merlin++/PhaseAdvance.cpp
@@ -146,9 +146,9 @@ std::pair<double, double> PhaseAdvance::CalcIntegerPart(int n)
 	double last_mux(0.), last_muy(0.);
 
 	//Iterate through all elements to sum integer parts
-	for(int i = 1; i < n; ++i)
+	for(int i = 1; i <= n; ++i)
 	{
-		if((theTwiss->Value(0, 0, 1, i) == last_mux) || (theTwiss->Value(0, 0, 1, i) <= 0.))
+		if((theTwiss->Value(0, 0, 1, i) == last_mux) || (last_mux <= 1.0e-6))
 		{
 		}
 		else if((theTwiss->Value(0, 0, 1, i) < last_mux))
@@ -159,7 +159,7 @@ std::pair<double, double> PhaseAdvance::CalcIntegerPart(int n)
 				++intmux;
 			}
 		}
-		if(theTwiss->Value(0, 0, 2, i) == last_muy || (theTwiss->Value(0, 0, 2, i) <= 0.))
+		if(theTwiss->Value(0, 0, 2, i) == last_muy || (last_muy <= 1.0e-6))
 		{
 		}
 		else if(theTwiss->Value(0, 0, 2, i) < last_muy)
-- 
2.43.0


From d285fc9ba658e97684f02ce8b30ec8e0d2d22383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:15 +0000
Subject: [PATCH 077/116] fix: elements are found at their place in the
 beamline also without lattice positions

---
 Merlin++/AcceleratorModel.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index da3e5d9..1211956 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -385,9 +385,17 @@ static vector<AcceleratorComponent*> SortAcceleratorModel(AcceleratorModel* mode
 {
 	vector<AcceleratorComponent*> elements;
 
-	model->ExtractTypedElements(elements, "*");
+	// in order of the beamline, also where positions are equal or not set
+	AcceleratorModel::Beamline bline = model->GetBeamline();
+	for(AcceleratorModel::BeamlineIterator i = bline.begin(); i != bline.end(); i++)
+	{
+		if((*i)->IsComponent())
+		{
+			elements.push_back(&(*i)->GetComponent());
+		}
+	}
 
-	sort(elements.begin(), elements.end(), SortComponent);
+	stable_sort(elements.begin(), elements.end(), SortComponent);
 	return elements;
 }
 
-- 
2.43.0


From e79643b7fdb41547b11eda09af9443a865ce485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:15 +0000
Subject: [PATCH 078/116] fix: eigenvectors are found when the first guess of
 an eigenvalue is exact

---
 Merlin++/LinearAlgebra.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Merlin++/LinearAlgebra.cpp b/Merlin++/LinearAlgebra.cpp
index 0581992..686a300 100644
--- a/Merlin++/LinearAlgebra.cpp
+++ b/Merlin++/LinearAlgebra.cpp
@@ -168,7 +168,21 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 				}
 
 				ComplexMatrix minv(mp);
-				prox = Inverse(minv);
+				try
+				{
+					prox = Inverse(minv);
+				}
+				catch(TLAS::SingularMatrix&)
+				{
+					// lambda is exactly an eigenvalue: step from beside it
+					for(n = 0; n < 6; n++)
+					{
+						mp(n, n) = m(n, n) - lambda * (1.0 + 1.0e-10);
+					}
+					minv = mp;
+					Inverse(minv);
+					prox = iter ? 0.0 : 1.0;
+				}
 
 				ComplexVector y(6);
 				for(row = 0; row < 6; row++)
-- 
2.43.0


From 40ccf159ebd9a76f239fc9b721e73d48ca93c0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:19 +0000
Subject: [PATCH 079/116] fix: kicks of a displaced hollow electron lens point
 to its axis

---
 Merlin++/HollowELensProcess.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/HollowELensProcess.cpp b/Merlin++/HollowELensProcess.cpp
index d1e296c..4bcbd64 100644
--- a/Merlin++/HollowELensProcess.cpp
+++ b/Merlin++/HollowELensProcess.cpp
@@ -100,7 +100,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 
 			if(theta != 0)
 			{
-				ParticleAngle = atan2((*p).y(), (*p).x());
+				ParticleAngle = atan2((*p).y() - currentComponentHEL->YOffset, (*p).x() - currentComponentHEL->XOffset);
 				//~ // Particle phase space angle and amplitude (radius)
 				(*p).xp() += theta * cos(ParticleAngle);
 				(*p).yp() += theta * sin(ParticleAngle);
@@ -147,7 +147,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 					double Phi = Multiplier * (Turn * OpTune * 2 * pi);
 					theta *= 0.5 * (1 + cos(Phi));
 
-					ParticleAngle = atan2((*p).y(), (*p).x());
+					ParticleAngle = atan2((*p).y() - currentComponentHEL->YOffset, (*p).x() - currentComponentHEL->XOffset);
 					// Particle phase space angle and amplitude (radius)
 					(*p).xp() += theta * cos(ParticleAngle);
 					(*p).yp() += theta * sin(ParticleAngle);
@@ -178,7 +178,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 					theta = CalcKickRadial(*p);
 				}
 
-				ParticleAngle = atan2((*p).y(), (*p).x());
+				ParticleAngle = atan2((*p).y() - currentComponentHEL->YOffset, (*p).x() - currentComponentHEL->XOffset);
 				if(theta != 0)
 				{
 					// Particle phase space angle and amplitude (radius)
@@ -212,7 +212,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 					theta = CalcKickRadial(*p);
 				}
 
-				ParticleAngle = atan2((*p).y(), (*p).x());
+				ParticleAngle = atan2((*p).y() - currentComponentHEL->YOffset, (*p).x() - currentComponentHEL->XOffset);
 				if(theta != 0)
 				{
 					// Particle phase space angle and amplitude (radius)
-- 
2.43.0


From da80ea604ac0c26d1759f65216a0f0b14ccfd023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:16 +0000
Subject: [PATCH 080/116] fix: radiation with a maximum step size is not lost
 when other processes cut the steps

---
 Merlin++/SynchRadParticleProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index 2fec477..b8ddb47 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -185,7 +185,7 @@ void SynchRadParticleProcess::DoProcess(double ds)
 		}
 		nk1++;
 	}
-	active = nk1 != ns;
+	active = ns == 0 || nk1 != ns;
 
 }
 
-- 
2.43.0


From 8e3df2496638d07690a819bd162d623bbdd2ea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:58 +0000
Subject: [PATCH 081/116] fix: spin process takes all its steps of an element

---
 Merlin++/SpinParticleProcess.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 22309eb..8e3bfa4 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -390,6 +390,11 @@ void SpinParticleProcess::DoProcess(double ds)
 
 	intS += ds;
 
+	if(fequal(intS, (nk1 + 1) * dL))
+	{
+		nk1++;
+	}
+
 }
 
 double SpinParticleProcess::GetMaxAllowedStepSize() const
-- 
2.43.0


From 43819f69b0bf76c4c84c576a6e43789cba66e56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:58 +0000
Subject: [PATCH 082/116] fix: fringe fields of solenoids turn spins by their
 field over the rigidity

---
 Merlin++/SpinParticleProcess.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 8e3bfa4..13f64d2 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -331,7 +331,7 @@ void SpinParticleProcess::DoProcess(double ds)
 			// is pointing in the direction of the beam.
 			if(isSolenoid)
 			{
-				double bz = solnd->GetBz();
+				double bz = 0.5 * solnd->GetBz() * norm;
 				b.x = -bz*p->x();
 				b.y = -bz*p->y();
 				b.z = 0.0;
@@ -375,7 +375,7 @@ void SpinParticleProcess::DoProcess(double ds)
 			// We use a hard-edged model for the fringe field
 			if(isSolenoid)
 			{
-				double bz = solnd->GetBz();
+				double bz = 0.5 * solnd->GetBz() * norm;
 				b.x = bz * p->x();
 				b.y = bz * p->y();
 				b.z = 0.0;
-- 
2.43.0


From 19c8740c9ca2be48b2a369821bf551fe4e4d343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:27 +0000
Subject: [PATCH 083/116] fix: rotations of slices about the axis keep their
 time and energy

---
 Merlin++/TransportRMaps.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index d7ee41d..1df9044 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -29,6 +29,8 @@ void SROT(double cosphi, double sinphi, RMap& R)
 	R.AddTerm(2, 4, -sinphi);
 	R.AddTerm(3, 1, sinphi);
 	R.AddTerm(4, 2, sinphi);
+	R.AddTerm(5, 5, 1.0);
+	R.AddTerm(6, 6, 1.0);
 }
 
 void QR2(double length, double K1, int offset, RMap& R)
-- 
2.43.0


From 7dba52b606a6b3d6c0d8eec5489b8f1d7b2ba57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:27 +0000
Subject: [PATCH 084/116] fix: solenoid map of slices has the vertical effect
 of horizontal slopes and keeps time and energy

---
 Merlin++/TransportRMaps.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 1df9044..cf06797 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -150,7 +150,7 @@ void SolR(double l, double ks, RMap& rs)
 	if(!fequal(theta, 0))
 	{
 		rs.AddTerm(1, 4) = 2. * s2 / ks;
-		rs.AddTerm(4, 2) = -2. * s2 / ks;
+		rs.AddTerm(3, 2) = -2. * s2 / ks;
 	}
 
 	rs.AddTerm(2, 1) = -ks * sc / 2;
@@ -158,6 +158,9 @@ void SolR(double l, double ks, RMap& rs)
 
 	rs.AddTerm(2, 3) = -ks * s2 / 2;
 	rs.AddTerm(4, 1) = ks * s2 / 2;
+
+	rs.AddTerm(5, 5) = 1.0;
+	rs.AddTerm(6, 6) = 1.0;
 }
 
 // Class Utility TransportRMap
-- 
2.43.0


From 4de218b69369f4988c33406d6ffe58178b43b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:27 +0000
Subject: [PATCH 085/116] fix: tilted bends and their pole faces bend slices
 like particles

---
 Merlin++/SMPStdIntegrators.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 524382f..c044256 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -240,7 +240,7 @@ void SectorBendCI::TrackStep(double ds)
 
 	if(tilt != 0)
 	{
-		RotateBunchAboutZ(*currentBunch, tilt);
+		RotateBunchAboutZ(*currentBunch, -tilt);
 	}
 
 	MultipoleField& field = currentComponent->GetField();
@@ -272,7 +272,7 @@ void SectorBendCI::TrackStep(double ds)
 
 	if(tilt != 0)
 	{
-		RotateBunchAboutZ(*currentBunch, -tilt);
+		RotateBunchAboutZ(*currentBunch, tilt);
 	}
 
 	return;
@@ -302,7 +302,17 @@ void SectorBendCI::ApplyPoleFaceRotation(double h, const SectorBend::PoleFace& p
 {
 	RMap M;
 	TransportRMap::PoleFaceRot(h, pf.rot, pf.fint, pf.hgap, M);
+
+	double tilt = (currentComponent->GetGeometry()).GetTilt();
+	if(tilt != 0)
+	{
+		RotateBunchAboutZ(*currentBunch, -tilt);
+	}
 	ApplyMap(M, *currentBunch);
+	if(tilt != 0)
+	{
+		RotateBunchAboutZ(*currentBunch, tilt);
+	}
 }
 
 void RectMultipoleCI::TrackStep(double ds)
-- 
2.43.0


From 5e4ba253d82700515259d771a746a1dd744027e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:27 +0000
Subject: [PATCH 086/116] fix: dipole kicks of skew quadrupoles on slices are
 rotated by the quadrupole angle

---
 Merlin++/SMPStdIntegrators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index c044256..f66e9b9 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -366,7 +366,7 @@ void RectMultipoleCI::TrackStep(double ds)
 	}
 	if(phi != 0)
 	{
-		cK0 *= -cK1 / abs(cK1);    // rotate dipole kick back
+		cK0 *= Complex(cos(phi), sin(phi));    // rotate dipole kick back
 	}
 
 	if(currentComponent->GetLength() == 0 && ds == 0 && !field.IsNullField())
-- 
2.43.0


From 1072d601c93631d81238ae7e9840a2331c3a5335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:27 +0000
Subject: [PATCH 087/116] fix: moments of slices do not add to earlier content
 of the result

---
 Merlin++/SMPBunch.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index 07868b5..2478530 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -78,7 +78,7 @@ double SMPBunch::GetTotalCharge() const
 
 PSmoments& SMPBunch::GetMoments(PSmoments& sigma) const
 {
-	sigma.zero();
+	sigma = PSmoments();
 	int i, j;
 	for(const_iterator p = begin(); p != end(); p++)
 	{
@@ -104,6 +104,7 @@ PSmoments& SMPBunch::GetMoments(PSmoments& sigma) const
 
 PSmoments2D& SMPBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2D& sigma) const
 {
+	sigma = PSmoments2D();
 	for(const_iterator p = begin(); p != end(); p++)
 	{
 		const SliceMacroParticle& x = (*p);
-- 
2.43.0


From ba2a36ec1344852aae3a25455565950faf57964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:27 +0000
Subject: [PATCH 088/116] fix: adjusting the reference momentum of slices keeps
 their momenta

---
 Merlin++/SMPBunch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index 2478530..be964d2 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -157,7 +157,7 @@ double SMPBunch::AdjustRefMomentumToMean()
 	double ddp = dp0 / Qt + 1.0;
 	for(iterator p = begin(); p != end(); p++)
 	{
-		p->dp() /= ddp;
+		p->dp() = (1.0 + p->dp()) / ddp - 1.0;
 	}
 	SetReferenceMomentum(GetReferenceMomentum() * ddp);
 	return GetReferenceMomentum();
-- 
2.43.0


From 339d7f33771944e53c7974f21ba89bfc32754ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:27 +0000
Subject: [PATCH 089/116] fix: adjusting the reference time of slices keeps
 their times

---
 Merlin++/SMPBunch.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index be964d2..9963341 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -170,7 +170,11 @@ double SMPBunch::AdjustRefTimeToMean()
 	{
 		ct += (p->ct()) * (p->Q());
 	}
-	IncrReferenceTime(ct / Qt);
+	for(iterator p = begin(); p != end(); p++)
+	{
+		p->ct() -= ct / Qt;
+	}
+	IncrReferenceTime(-ct / Qt);
 	return GetReferenceTime();
 }
 
-- 
2.43.0


From 0abad508f89c53bd964e3c76a12559fe6e742eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:27 +0000
Subject: [PATCH 090/116] fix: small rotations about the axis are applied to
 slices

---
 Merlin++/RMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/RMap.h b/Merlin++/RMap.h
index 4730fac..93fe24d 100644
--- a/Merlin++/RMap.h
+++ b/Merlin++/RMap.h
@@ -251,7 +251,7 @@ public:
 
 	bool IsIdentity() const
 	{
-		return fequal(r11, 1.0, 1.0e-6) && fequal(r22, 1.0, 1.0e-6);
+		return fequal(r11, 1.0, 1.0e-6) && fequal(r22, 1.0, 1.0e-6) && fequal(r12, 0.0, 1.0e-6) && fequal(r21, 0.0, 1.0e-6);
 	}
 
 	// matrix elements
-- 
2.43.0


From 0d6323e08cc63c1c5c1f4ee0f6bb21dc5598be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:46 +0000
Subject: [PATCH 091/116] fix: thin quadrupoles focus slices in the plane they
 focus particles

---
 Merlin++/SMPStdIntegrators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index f66e9b9..c2bb7dc 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -99,8 +99,8 @@ struct ThinLensKick
 			double k = dpp * k1;
 			RMap M;
 			MakeIdentity(M);
-			M.AddTerm(2, 1) = k;
-			M.AddTerm(4, 3) = -k;
+			M.AddTerm(2, 1) = -k;
+			M.AddTerm(4, 3) = k;
 			M.Apply(p);
 		}
 	}
-- 
2.43.0


From 9d9ce5a074caf862cdc499dd25b1e91602f18c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:00 +0000
Subject: [PATCH 092/116] fix: wakefield process truncates the tails of a bunch
 once

---
 Merlin++/WakeFieldProcess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index dc76142..307e5f4 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -311,10 +311,11 @@ void WakeFieldProcess::Init()
 {
 	double Qt = currentBunch->GetTotalCharge();
 
+	size_t nloss = CalculateQdist();
+
 	//keep track of bunch length to be aware of modifications
 	oldBunchLen = currentBunch->size();
 
-	size_t nloss = CalculateQdist();
 	if(nloss != 0)
 	{
 		// Even though we have truncated particles, we still keep the
-- 
2.43.0


From 5062d6174342ede1b6fd7268b6b56cd0e3d9c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:00 +0000
Subject: [PATCH 093/116] fix: CSR wakes are taken at the distance of the
 slices, not at its unsigned value

---
 Merlin++/WakeFieldProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index 307e5f4..c4cc26d 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -354,7 +354,7 @@ void WakeFieldProcess::CalculateWakeL()
 		{
 			for(size_t j = 1; j < i; j++)
 			{
-				wake_z[i] += Qdp[j] * (currentWake->Wlong((j - i + 0.5) * dz)) / dz;
+				wake_z[i] += Qdp[j] * (currentWake->Wlong((double(j) - double(i) + 0.5) * dz)) / dz;
 			}
 			wake_z[i] *= a0;
 		}
-- 
2.43.0


From 9ff51ceb593fbfc06b17479281ffed1039dc6db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:00 +0000
Subject: [PATCH 094/116] fix: derivative of the binned distribution stays
 inside bins and filter

---
 Merlin++/ParticleBunchUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index b2e1d08..92fe901 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -136,7 +136,7 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 		fbins[n] = hbins[n] * a;
 		if(c)
 			//for(m=std::max(0,int(n)-w); m<=std::max(nbins,int(n)+w); m++)// ERROR! m can be set to nbins -> out of range!
-			for(m = std::max(0, int(n) - w); m < std::max(nbins, size_t(n) + w); m++)   // This needs to be checked!
+			for(m = std::max(0, int(n) - w); m < std::min(nbins, n + w + 1); m++)
 			{
 				fpbins[n] += hbins[m] * (*c)[m - n + w] * a;
 			}
-- 
2.43.0


From 875ca07e34a9a0db091d2fdb7dfb007a7fba8c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:48 +0000
Subject: [PATCH 095/116] fix: longitudinal collimator wake of the sine moments
 has the sign of the cosine ones

---
 Merlin++/CollimatorWakeProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/CollimatorWakeProcess.cpp b/Merlin++/CollimatorWakeProcess.cpp
index e62b2e9..ab608b6 100644
--- a/Merlin++/CollimatorWakeProcess.cpp
+++ b/Merlin++/CollimatorWakeProcess.cpp
@@ -217,7 +217,7 @@ void CollimatorWakeProcess::ApplyWakefield(double ds) //  int nmodes)
 				wake_y *= a0;
 				double wzc = cos(currmode * theta) * (wake_cl[currmode][nslice] + g_cl * zz);
 				double wzs = sin(currmode * theta) * (wake_sl[currmode][nslice] + g_sl * zz);
-				wake_z = powd(r, currmode) * (wzc - wzs);
+				wake_z = powd(r, currmode) * (wzc + wzs);
 				wake_z *= a0;
 				double ddp = -wake_z / p0;
 				p->dp() += ddp;
-- 
2.43.0


From 7344ae3d090f3fa989345d237e9bd5c7cd65f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:48 +0000
Subject: [PATCH 096/116] fix: first macro particle is counted once in the
 wakefield slices

---
 Merlin++/SMPWakeFieldProcess.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 06935e2..162a537 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -249,8 +249,8 @@ void WakeFieldProcess::PrepSlices()
 	sb.push_back(p);
 
 	double z = p->ct() + dz;
-	double zavg = (p->ct()) * (p->Q());
-	double qt = p->Q();
+	double zavg = 0;
+	double qt = 0;
 
 	for(; p != currentBunch->end(); p++)
 	{
-- 
2.43.0


From 64b907b76b73047e51327a34a455a03febdbd349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:48 +0000
Subject: [PATCH 097/116] fix: wakefields scale all covariances with slopes

---
 Merlin++/SMPWakeFieldProcess.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 162a537..b476106 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -73,6 +73,7 @@ struct AWK
 		// Scale second-order moments
 		p(0, 1) *= Er;
 		p(0, 3) *= Er;
+		p(1, 2) *= Er;
 		p(1, 1) *= Er2;
 		p(1, 3) *= Er2;
 		p(2, 3) *= Er;
-- 
2.43.0


From 0de217c8d88be2d5b3e669016559a712cdb3c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:33 +0000
Subject: [PATCH 098/116] fix: copies of materials keep the mean free path and
 own one set of extra properties

---
 Merlin++/MaterialData.cpp       |  1 +
 Merlin++/MaterialProperties.cpp | 14 +++++++++++---
 Merlin++/MaterialProperties.h   |  2 +-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index a8b2ebf..3548c92 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -58,6 +58,7 @@ StandardMaterialData::StandardMaterialData()   // constructor
 	property["AC150K"] = new MaterialProperties(*property["C"]);
 	property["AC150K"]->dEdx = 0.68;
 	property["AC150K"]->density = 1.650 * gram / cc;
+	property["AC150K"]->Update();
 
 	MakeMixture("IT180", "W Ni Cu", 0.95, 0.35, 0.15, 18.06 * gram / cc);
 
diff --git a/Merlin++/MaterialProperties.cpp b/Merlin++/MaterialProperties.cpp
index 7af3b40..a710ee6 100644
--- a/Merlin++/MaterialProperties.cpp
+++ b/Merlin++/MaterialProperties.cpp
@@ -34,6 +34,7 @@ MaterialProperties::MaterialProperties(double p1, double p2, double p3, double p
 	X0 = p6;
 	density = p7;
 	Z = p8;
+	sigma_E = sigma_D = 0;
 	extra = new map<string, double>; // will be deleted by destructor
 	Update();
 }
@@ -58,10 +59,13 @@ MaterialProperties::MaterialProperties(const MaterialProperties& a)
 	sigma_T = a.sigma_T;
 	sigma_I = a.sigma_I;
 	sigma_R = a.sigma_R;
+	sigma_E = a.sigma_E;
+	sigma_D = a.sigma_D;
 	dEdx = a.dEdx;
 	X0 = a.X0;
 	Z = a.Z;
-	extra = new  map<string, double>(*a.extra); // deep copy. Deleted by dtor
+	lambda = a.lambda;
+	extra = a.extra ? new  map<string, double>(*a.extra) : nullptr; // deep copy. Deleted by dtor
 }
 
 MaterialProperties& MaterialProperties::operator=(const MaterialProperties& a)
@@ -73,10 +77,14 @@ MaterialProperties& MaterialProperties::operator=(const MaterialProperties& a)
 		sigma_T = a.sigma_T;
 		sigma_I = a.sigma_I;
 		sigma_R = a.sigma_R;
+		sigma_E = a.sigma_E;
+		sigma_D = a.sigma_D;
 		dEdx = a.dEdx;
 		X0 = a.X0;
 		Z = a.Z;
-		extra = new  map<string, double>(*a.extra);   //deep copy. deleted by dtor
+		lambda = a.lambda;
+		delete extra;
+		extra = a.extra ? new  map<string, double>(*a.extra) : nullptr;   //deep copy. deleted by dtor
 	}
 	return *this;
 }
@@ -181,7 +189,7 @@ Mixture::Mixture(map<string, MaterialProperties*> dict, vector<string> names, ve
 		V_H.push_back(dict[names[i]]->sigma_T); // MUST CHECK. WANT NUCLEAR ELASTIC
 		sumH += dict[names[i]]->sigma_T;
 	}
-	Z = A = sigma_T = sigma_I = sigma_R = dEdx = 0;
+	Z = A = sigma_T = sigma_I = sigma_R = sigma_E = sigma_D = dEdx = 0;
 	float RX0 = 0;
 	for(int i = 0; i < N; i++)
 	{
diff --git a/Merlin++/MaterialProperties.h b/Merlin++/MaterialProperties.h
index 3a7ddbc..07d19cb 100644
--- a/Merlin++/MaterialProperties.h
+++ b/Merlin++/MaterialProperties.h
@@ -55,7 +55,7 @@ public:
 	}
 	MaterialProperties()
 	{
-		lambda = A = density = dEdx = sigma_R = sigma_I = sigma_T = Z = X0 = 0;
+		lambda = A = density = dEdx = sigma_R = sigma_I = sigma_E = sigma_D = sigma_T = Z = X0 = 0;
 		extra = nullptr;
 	}
 	// keep child class happy
-- 
2.43.0


From da3405924aa2f91d5cee1c1379ddb7f517c0f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:33 +0000
Subject: [PATCH 099/116] fix: SixTrack total cross sections belong to Be, C,
 Cu, W and Pb

---
 Merlin++/MaterialData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index 3548c92..83be6e3 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -69,7 +69,7 @@ StandardMaterialData::StandardMaterialData()   // constructor
 
 void StandardMaterialData::UseSixTrackValues()
 {
-	string names3[] = {"Be", "C", "Al", "Fe", "Cu", "W", "Pb"};
+	string names3[] = {"Be", "C", "Cu", "W", "Pb"};
 	double sixtracktotnu[] = {0.268, .331, 1.232, 2.767, 2.960};
 	for(int i = 0; i < int(sizeof(names3) / sizeof(string)); i++)
 		property[names3[i]]->sigma_T = sixtracktotnu[i];
-- 
2.43.0


From 3c94c0799e82c1f2feb591166d6ab674c8406880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:33 +0000
Subject: [PATCH 100/116] fix: random nuclei of a mixture follow the
 proportions of its components

---
 Merlin++/MaterialProperties.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/MaterialProperties.cpp b/Merlin++/MaterialProperties.cpp
index a710ee6..5a7be2d 100644
--- a/Merlin++/MaterialProperties.cpp
+++ b/Merlin++/MaterialProperties.cpp
@@ -184,10 +184,10 @@ Mixture::Mixture(map<string, MaterialProperties*> dict, vector<string> names, ve
 		sum += proportions[i];
 		suma += proportions[i] * dict[names[i]]->A;
 		V_A.push_back(dict[names[i]]->A);
-		V_R.push_back(dict[names[i]]->sigma_R);
-		sumR += dict[names[i]]->sigma_R;
-		V_H.push_back(dict[names[i]]->sigma_T); // MUST CHECK. WANT NUCLEAR ELASTIC
-		sumH += dict[names[i]]->sigma_T;
+		V_R.push_back(proportions[i] * dict[names[i]]->sigma_R);
+		sumR += V_R[i];
+		V_H.push_back(proportions[i] * dict[names[i]]->sigma_T); // MUST CHECK. WANT NUCLEAR ELASTIC
+		sumH += V_H[i];
 	}
 	Z = A = sigma_T = sigma_I = sigma_R = sigma_E = sigma_D = dEdx = 0;
 	float RX0 = 0;
-- 
2.43.0


From 212e16bb6d8f4a21bde8782fdf45c511c5688ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:33 +0000
Subject: [PATCH 101/116] fix: MakeMixtureByWeight refuses a wrong number of
 proportions

---
 Merlin++/MaterialData.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index 83be6e3..dff4106 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -7,6 +7,7 @@
 #include "MaterialData.h"
 #include "MaterialProperties.h"
 #include "PhysicalUnits.h"
+#include "MerlinException.h"
 #include <iomanip>
 #include <vector>
 #include <stdarg.h>
@@ -165,10 +166,14 @@ void MaterialData::MakeMixtureByWeight(string name, string s, const std::vector<
 		i = s.find(" ");
 		string want = s.substr(0, i);
 		elements.push_back(want);
-		proportions.push_back(wproportions[c] / property.at(want)->A);
+		proportions.push_back(wproportions.at(c) / property.at(want)->A);
 		s = s.substr(i + 1);
 		c++;
 	} while(i != string::npos);
+	if(c != wproportions.size())
+	{
+		throw MerlinException("MaterialData::MakeMixtureByWeight() length of names and proportions do not match");
+	}
 
 	property[name] = new Mixture(property, elements, proportions, density);
 }
-- 
2.43.0


From 9cd1269a4da77e35e3114c233d2c5ebb2a5ba6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 102/116] fix: density of aluminium

---
 Merlin++/MaterialData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index dff4106..9a511c3 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -33,7 +33,7 @@ StandardMaterialData::StandardMaterialData()   // constructor
 	double SR[] = {0.00034, 0.000035, 0.000076, 0.00153, 0.00907, 0.00039, 0.00768, 0.0133766, -1, -1, -1};
 	double dE[] = {1.724, 1.594, 1.745, 1.403, 1.123, 1.664, 1.145, -1, -1, -1, -1};
 	double X[] = {24.01, 65.19, 42.7, 12.86, 6.37, 21.82, 6.76, -1, -1, -1, -1};
-	double rho[] = {1.204, 1.848, 2.265, 8.96, 11.35, 2.33, 19.3, 1.14, 7.879, 8.9, 10.2};  // g/cc
+	double rho[] = {2.70, 1.848, 2.265, 8.96, 11.35, 2.33, 19.3, 1.14, 7.879, 8.9, 10.2};  // g/cc
 	double Z[] = {13., 4., 6., 29., 82., 14., 74., 8, 26, 28, 42};
 	int n = sizeof(names) / sizeof(string);
 	for(int i = 0; i < n; i++)
-- 
2.43.0


From 4c39e233b80619a56cba1322f11825825a31417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 103/116] fix: conductivity of tungsten

---
 Merlin++/MaterialData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index 9a511c3..8a5a71c 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -42,7 +42,7 @@ StandardMaterialData::StandardMaterialData()   // constructor
 	}
 
 	string names2[] = {"Al", "Be", "C", "Cu", "Pb", "Si", "W", "Fe", "Ni", "Mo"};
-	double conductivity[] = {3.564E7, 3.08E7, 71400, 5.98E7, 4.8077E6, 1, 1770, 1.04E7, 1.44E7, 1.87E7};
+	double conductivity[] = {3.564E7, 3.08E7, 71400, 5.98E7, 4.8077E6, 1, 1.77E7, 1.04E7, 1.44E7, 1.87E7};
 	for(int i = 0; i < int(sizeof(names2) / sizeof(string)); i++)
 		property[names2[i]]->SetExtra("conductivity", conductivity[i]);
 
-- 
2.43.0


From 7da65de78c3d583019ed5ec5288667805559b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:20 +0000
Subject: [PATCH 104/116] fix: protons lost in a scatter are reported where
 they scatter

---
 Merlin++/CollimateProtonProcess.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 9725362..24c0d7a 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -177,7 +177,7 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 				for(auto &OutIt : CollimationOutputVector)
 				{
-					OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+					OutIt->Dispose(*currentComponent, z, p, ColParProTurn);
 				}
 
 				return ScatterOutcome::absorbed;
@@ -190,7 +190,7 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 			for(auto &OutIt : CollimationOutputVector)
 			{
-				OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+				OutIt->Dispose(*currentComponent, z, p, ColParProTurn);
 			}
 			return ScatterOutcome::absorbed;
 		}
-- 
2.43.0


From 182491990a2f62a6c305e1e10c8ec0590d735b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:20 +0000
Subject: [PATCH 105/116] fix: protons lost below a hundredth of the reference
 energy are reported

---
 Merlin++/CollimateProtonProcess.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 24c0d7a..4de1fcc 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -138,6 +138,13 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 		if((E2 < (E0 / 100.0)))
 		{
+			p.ct() = z;
+
+			for(auto &OutIt : CollimationOutputVector)
+			{
+				OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+			}
+
 			return ScatterOutcome::absorbed;
 		}
 
-- 
2.43.0


From da63f713a1cfc8b29e159e542bc79a113e28c492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:49 +0000
Subject: [PATCH 106/116] fix: ground motion of supports at the same place
 (eigenvalues that round below zero)

---
 Merlin++/ATL2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 8ee3b38..0b206f2 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -147,7 +147,7 @@ double ATL2D::DoStep(double dt)
 
 	for(size_t n = 0; n < theSupports.size(); n++)
 	{
-		if(at * evals[n])
+		if(at * evals[n] > 0)
 			yy(n) = normal_distribution<>{0, sqrt(at * evals[n])} (*rg);
 	}
 
-- 
2.43.0


From e06aefafe7def94955317a1b18afd2ede253deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:49 +0000
Subject: [PATCH 107/116] fix: absolute ATL motion is that of the time after
 the step

---
 Merlin++/ATL2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 0b206f2..4bbc740 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -143,7 +143,7 @@ double ATL2D::DoStep(double dt)
 {
 	RealVector yy(theSupports.size());
 
-	double at = (atlMode == increment) ? A * dt : A * t;
+	double at = (atlMode == increment) ? A * dt : A * (t + dt);
 
 	for(size_t n = 0; n < theSupports.size(); n++)
 	{
-- 
2.43.0


From d4979884de145ed578e937110ca2665b0f82abff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:49 +0000
Subject: [PATCH 108/116] fix: ATL2D records the whole matrix of eigenvectors

---
 Merlin++/ATL2D.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 4bbc740..ca00101 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -103,10 +103,10 @@ ATL2D::ATL2D(double anA, const AcceleratorSupportList& supports, const Point2D r
 	{
 		double element;
 		for(row = 0; row < n; row++)
-			for(col = row; col < n; col++)
+			for(col = 0; col < n; col++)
 			{
 				(*evecTFile) >> element;
-				evecsT(row, col) = evecsT(col, row) = element;
+				evecsT(row, col) = element;
 			}
 
 		for(row = 0; row < n; row++)
@@ -224,7 +224,7 @@ void ATL2D::RecordEigenSystem(ofstream* evecTFile, ofstream* evalFile)
 
 	for(row = 0; row < n; row++)
 	{
-		for(col = row; col < n; col++)
+		for(col = 0; col < n; col++)
 		{
 			(*evecTFile) << std::setw(14) << evecsT(row, col);
 		}
-- 
2.43.0


From 0171eb47449da6a7cc600da78b2f1c3b55bdd09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:15 +0000
Subject: [PATCH 109/116] fix: seeding and resetting the random numbers
 restarts the local generators too

---
 Merlin++/RandomNG.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/RandomNG.cpp b/Merlin++/RandomNG.cpp
index 7b6dbf7..ed6934b 100644
--- a/Merlin++/RandomNG.cpp
+++ b/Merlin++/RandomNG.cpp
@@ -41,6 +41,10 @@ void RandomNG::reset()
 {
 	std::seed_seq ss(master_seed.begin(), master_seed.end());
 	generator.reset(new std::mt19937_64{ss});
+	for(auto &local : generator_store)
+	{
+		resetLocalGenerator(local.first);
+	}
 }
 
 void RandomNG::reset(std::uint32_t iseed)
-- 
2.43.0


From 3a1f879f2c540d6508cd1996e4c8731a49ac9cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:43 +0000
Subject: [PATCH 110/116] fix: second-order map of bends with gradient (T112)

The coefficient of x x' in x lacked h sx: it is the integral of the
curvature term over the principal trajectories.
---
 Merlin++/BasicTransportMaps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index 80a5d06..b72656d 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -400,7 +400,7 @@ RTMap* GenSectorBendTM(double s, double h, double K1, double K2)
 
 	// Matrix terms
 	rtMap(1, 1, 1) = (a11 * a13 * a7) / 3. + (a1 * a6 * h) / 6.;
-	rtMap(1, 1, 2) = a15 - (a1 * dx * sx) / 3.;
+	rtMap(1, 1, 2) = a15 - (a1 * dx * sx) / 3. + h * sx;
 	rtMap(1, 1, 6) = a18 + 2 * a11 * a19 * a20 * (a21 + (a22 + a5) / 3.) - (a14 * a6) / 3.;
 	rtMap(1, 2, 2) = (a11 * a20 * a6 * a7) / 3. + (a13 * h) / 6.;
 	rtMap(1, 2, 6) = (a14 * a17 * a20 * a24) / 2. + (dx * h * sx) / 3. + 2 * a11 * a19 * a20 * ((a20 * a24) / 2. - (a2
-- 
2.43.0


From 36b348b76df8f67efee20f905ab4e2887cfdc669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:16 +0000
Subject: [PATCH 111/116] fix: apertures of drifts around the origin of a ring

The entries before the first and after the last one are those at the
other end of the table, one turn away.
---
 Merlin++/ApertureConfiguration.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 173aec1..43321f6 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -62,6 +62,12 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 
 	Aperture* aperture;
 
+	double Circumference = 0;
+	for(auto &comp : Elements)
+	{
+		Circumference = std::max(Circumference, comp->GetComponentLatticePosition() + comp->GetLength());
+	}
+
 	for(auto &comp :Elements)
 	{
 		if(comp->GetAperture() != nullptr)
@@ -112,6 +118,7 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				{
 					//get initial point, interpolate from last point
 					ThisElementAperture.ApertureFromRow(*last_ap);
+					ThisElementAperture.Set("S", 0, (*last_ap).Get_d("S") - Circumference);
 				}
 				else
 				{
@@ -132,6 +139,7 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				{
 					this_ap = ApertureDataTable.begin();
 					ThisElementAperture.ApertureFromRow(*this_ap);
+					ThisElementAperture.Set("S", ThisElementAperture.Length() - 1, (*this_ap).Get_d("S") + Circumference);
 				}
 				else
 				{
-- 
2.43.0


From 076a1f62710261f2f4040e69cd300dade2a9207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:49 +0000
Subject: [PATCH 112/116] fix: drifts between apertures of different types are
 interpolated as rectellipse

The parameters were converted, but the interpolation was that of the
type of the first entry.
---
 Merlin++/ApertureConfiguration.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 43321f6..759c41c 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -274,6 +274,11 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 								<< endl;
 							exit(EXIT_FAILURE);
 						}
+						if(rectellipse)
+						{
+							// the first entry decides the type of the interpolation
+							CleanElementAperture.Set("APERTYPE", 0, string("RECTELLIPSE"));
+						}
 						aperture = InterpolatorFactory::GetInstance(CleanElementAperture);
 						comp->SetAperture(aperture);
 						++noConfiguredApertures;
-- 
2.43.0


From 3032f9adc176048f0314dc1a2082d454f92dab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:19 +0000
Subject: [PATCH 113/116] fix: jaw alignment errors are rms values

They were passed to RandomNG::normal, which takes the variance, as they
are: 100 um became 1 cm.
---
 Merlin++/CollimatorDatabase.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Merlin++/CollimatorDatabase.cpp b/Merlin++/CollimatorDatabase.cpp
index 535d05c..1b91b3e 100644
--- a/Merlin++/CollimatorDatabase.cpp
+++ b/Merlin++/CollimatorDatabase.cpp
@@ -384,20 +384,20 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 							if(MPI_RANK == 0)
 							{
 
-								xOffsetError1 = RandomNG::normal(0, PositionError, 3);
+								xOffsetError1 = RandomNG::normal(0, PositionError * PositionError, 3);
 								yOffsetError1 = 0; //RandomNG::uniform(-PositionError,PositionError);
 
 								//Random theta1, theta2 - small angle approx
-								xAngleError1 = length * RandomNG::normal(0, AngleError, 3);
+								xAngleError1 = length * RandomNG::normal(0, AngleError * AngleError, 3);
 								yAngleError1 = 0; //length * RandomNG::uniform(-AngleError,AngleError);
 
 								//Jaw 2
 								//Random x,y
-								xOffsetError2 = RandomNG::normal(0, PositionError, 3);
+								xOffsetError2 = RandomNG::normal(0, PositionError * PositionError, 3);
 								yOffsetError2 = 0; //RandomNG::uniform(-PositionError,PositionError);
 
 								//Random theta1, theta2 - small angle approx
-								xAngleError2 = length * RandomNG::normal(0, AngleError, 3);
+								xAngleError2 = length * RandomNG::normal(0, AngleError * AngleError, 3);
 								yAngleError2 = 0; //length * RandomNG::uniform(-AngleError,AngleError);
 
 								//pointless sync point
@@ -439,21 +439,21 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 
 #ifndef ENABLE_MPI
 							double wholeOffsetError;
-							double xOffsetError1 = RandomNG::normal(0, PositionError, 3);
+							double xOffsetError1 = RandomNG::normal(0, PositionError * PositionError, 3);
 							double yOffsetError1 = 0; //RandomNG::uniform(-PositionError,PositionError);
 
 							//Random theta1, theta2 - small angle approx
-							double xAngleError1 = length * RandomNG::normal(0, AngleError, 3);
+							double xAngleError1 = length * RandomNG::normal(0, AngleError * AngleError, 3);
 							double yAngleError1 = 0; //length * RandomNG::uniform(-AngleError,AngleError);
 
 							//Jaw 2
 							//Random x,y
-							double xOffsetError2 = RandomNG::normal(0, PositionError, 3);
+							double xOffsetError2 = RandomNG::normal(0, PositionError * PositionError, 3);
 							double yOffsetError2 = 0; //RandomNG::uniform(-PositionError,PositionError);
 							//cout << "xOffsetError1" << "\t" << xOffsetError1 << "\t" << "xOffsetError2" << "\t" << xOffsetError2 << endl;
 
 							//Random theta1, theta2 - small angle approx
-							double xAngleError2 = length * RandomNG::normal(0, AngleError, 3);
+							double xAngleError2 = length * RandomNG::normal(0, AngleError * AngleError, 3);
 							double yAngleError2 = 0; //length * RandomNG::uniform(-AngleError,AngleError);
 #endif
 
@@ -464,7 +464,7 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 							double x_rot = (x_orbit * cos(-collimator_aperture_tilt)) - (y_orbit * sin(
 									-collimator_aperture_tilt));
 							x_rot = x_orbit;
-							wholeOffsetError = RandomNG::normal(0, 2.5 * nanometer, 3);
+							wholeOffsetError = RandomNG::normal(0, pow(2.5 * nanometer, 2), 3);
 							cout << "wholeOffsetError" << "\t" << wholeOffsetError << endl;
 							double x1 = x_rot + gap_x_entrance + xOffsetError1 + wholeOffsetError;
 							double x2 = x_rot - gap_x_entrance + xOffsetError2 + wholeOffsetError;
-- 
2.43.0


From 242a8c032a3bcd9f2165c52cd436f1acb0df1679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:54 +0000
Subject: [PATCH 114/116] fix: alignment errors with an rms below 15 nm were
 ignored

---
 Merlin++/AcceleratorErrors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/AcceleratorErrors.cpp b/Merlin++/AcceleratorErrors.cpp
index ccd18af..1b3152e 100644
--- a/Merlin++/AcceleratorErrors.cpp
+++ b/Merlin++/AcceleratorErrors.cpp
@@ -37,9 +37,9 @@ public:
 				frame->ClearLocalFrameTransform();
 			}
 
-			double ex = fequal(vx, 0.0) ? mx : RandomNG::normal(mx, vx);
-			double ey = fequal(vy, 0.0) ? my : RandomNG::normal(my, vy);
-			double ez = fequal(vz, 0.0) ? mz : RandomNG::normal(mz, vz);
+			double ex = vx == 0 ? mx : RandomNG::normal(mx, vx);
+			double ey = vy == 0 ? my : RandomNG::normal(my, vy);
+			double ez = vz == 0 ? mz : RandomNG::normal(mz, vz);
 			if(t)
 			{
 				frame->Translate(ex, ey, ez);
-- 
2.43.0


From 5ad015deec8de4d8032e01727e3eb72f09169b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:54 +0000
Subject: [PATCH 115/116] fix: alignment errors for patterns with alternatives

---
 Merlin++/AcceleratorErrors.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorErrors.cpp b/Merlin++/AcceleratorErrors.cpp
index 1b3152e..38e388d 100644
--- a/Merlin++/AcceleratorErrors.cpp
+++ b/Merlin++/AcceleratorErrors.cpp
@@ -17,13 +17,23 @@ using namespace std;
 namespace
 {
 
+// every alternative of a pattern refers to the name of the element
+string Alternatives(string p)
+{
+	for(string::size_type n = p.find('|'); n != string::npos; n = p.find('|', n + 1))
+	{
+		p.insert(n + 1, "*.");
+	}
+	return p;
+}
+
 class Errors
 {
 public:
 
 	Errors(double vvx, double vvy, double vvz, double meanx, double meany, double meanz, const string& p, bool clear,
 		bool trans, ostream* l) :
-		vx(vvx), vy(vvy), vz(vvz), mx(meanx), my(meany), mz(meanz), c(clear), t(trans), pat("*." + p), log(l)
+		vx(vvx), vy(vvy), vz(vvz), mx(meanx), my(meany), mz(meanz), c(clear), t(trans), pat("*." + Alternatives(p)), log(l)
 	{
 	}
 
-- 
2.43.0


From be0bfd32764edf6d04cd4aae56ba6f41286394d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:27 +0000
Subject: [PATCH 116/116] fix: place of the losses when all particles of a
 negatively charged bunch are lost

---
 Merlin++/CollimateParticleProcess.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 4914ccd..d071d08 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -257,8 +257,8 @@ void CollimateParticleProcess::DoCollimation()
 	}
 
 	//For copying surviving particles to, which is faster than deleting the individual lost particles
-	ParticleBunch* NewBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(), currentBunch->GetTotalCharge()
-		/ currentBunch->size());
+	const double particleCharge = currentBunch->GetTotalCharge() / currentBunch->size();
+	ParticleBunch* NewBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(), particleCharge);
 	NewBunch->reserve(currentBunch->size());
 
 	size_t particle_number = 0;
@@ -348,8 +348,7 @@ void CollimateParticleProcess::DoCollimation()
 	if(LostParticlePositions.size() != 0 && !is_collimator)
 	{
 		//make a new particle bunch to track the lost particles
-		ParticleBunch* LostBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(),
-			currentBunch->GetTotalCharge() / currentBunch->size());
+		ParticleBunch* LostBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(), particleCharge);
 		double length = currentComponent->GetLength();
 		//If we are dealing with a non-zero length element, we must do tracking
 		if(length != 0)
-- 
2.43.0

