From 58cf219f29ef2ef71ac95d2999011be20000d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:16 +0000
Subject: [PATCH 001/166] fix: permanent forces are kept when another one is
 set for a lower id, no access before the start of _maxId

---
 core/ForceContainerParallel.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/ForceContainerParallel.cpp b/core/ForceContainerParallel.cpp
index 8e3c510..81ddf54 100644
--- a/core/ForceContainerParallel.cpp
+++ b/core/ForceContainerParallel.cpp
@@ -25,11 +25,13 @@ void ForceContainer::resizePerm(size_t newSize) {
 #include <omp.h>
 void ForceContainer::ensureSize(Body::id_t id, int threadN) {
   assert(nThreads>omp_get_thread_num());
+  if (threadN<0) { // permanent forces are common to all threads, and must never be dropped by shrinking their containers
+    if (_permForce.size()<=(size_t)id) resizePerm(min((size_t)1.5*(id+100),(size_t)(id+2000)));
+    return;
+  }
   const Body::id_t idMaxTmp = max(id, _maxId[threadN]);
   _maxId[threadN] = 0;
-  if (threadN<0) {
-    resizePerm(min((size_t)1.5*(idMaxTmp+100),(size_t)(idMaxTmp+2000)));
-  } else if (sizeOfThreads[threadN]<=(size_t)idMaxTmp) {
+  if (sizeOfThreads[threadN]<=(size_t)idMaxTmp) {
     resize(min((size_t)1.5*(idMaxTmp+100),(size_t)(idMaxTmp+2000)),threadN);
   }
 }
-- 
2.43.0


From a43ea3e200d23e58ac8e89a041fd539078837152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:16 +0000
Subject: [PATCH 002/166] fix: reading the force on a body added after the last
 permanent force was set stays within bounds

---
 core/ForceContainerParallel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ForceContainerParallel.cpp b/core/ForceContainerParallel.cpp
index 81ddf54..4e9ec0b 100644
--- a/core/ForceContainerParallel.cpp
+++ b/core/ForceContainerParallel.cpp
@@ -137,7 +137,7 @@ const Vector3r ForceContainer::getForceSingle(Body::id_t id) {
   for(int t=0; t<nThreads; t++) {
     ret+=((size_t)id<sizeOfThreads[t])?_forceData [t][id]:_zero;
   }
-  if (permForceUsed) ret+=_permForce[id];
+  if (permForceUsed && (size_t)id<_permForce.size()) ret+=_permForce[id];
   return ret;
 }
 
@@ -146,7 +146,7 @@ const Vector3r ForceContainer::getTorqueSingle(Body::id_t id) {
   for(int t=0; t<nThreads; t++) {
     ret+=((size_t)id<sizeOfThreads[t])?_torqueData[t][id]:_zero;
   }
-  if (permForceUsed) ret+=_permTorque[id];
+  if (permForceUsed && (size_t)id<_permTorque.size()) ret+=_permTorque[id];
   return ret;
 }
 
-- 
2.43.0


From ab89cba1aa8c8b16c4c879213b57e59d1fb7d946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:16 +0000
Subject: [PATCH 003/166] fix: threads growing their force containers at the
 same time do not lose the larger size

---
 core/ForceContainerParallel.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/ForceContainerParallel.cpp b/core/ForceContainerParallel.cpp
index 4e9ec0b..1767b39 100644
--- a/core/ForceContainerParallel.cpp
+++ b/core/ForceContainerParallel.cpp
@@ -229,8 +229,12 @@ void ForceContainer::resize(size_t newSize, int threadN) {
   _moveData[threadN].resize(newSize,Vector3r::Zero());
   _rotData[threadN].resize(newSize,Vector3r::Zero());
   sizeOfThreads[threadN] = newSize;
-  if (size<newSize) size=newSize;
-  syncedSizes=false;
+  // several threads may get here at a time from addForce etc.
+  #pragma omp critical(ForceContainerSize)
+  {
+    if (size<newSize) size=newSize;
+    syncedSizes=false;
+  }
 }
 
 const int ForceContainer::getNumAllocatedThreads() const {return nThreads;}
-- 
2.43.0


From 265d6d4259bcc837718144fd6b53854f2dc45b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:45 +0000
Subject: [PATCH 004/166] fix: erasing an interaction whose first body was
 removed also removes it from the second body

---
 core/InteractionContainer.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 97052b5..64e0838 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -67,12 +67,13 @@ bool InteractionContainer::erase(Body::id_t id1,Body::id_t id2, int linPos){
 			assert(linIx==linPos);
 			//erase from body, we also erase from linIntrs below
 			b1->intrs.erase(I);
-			if (b2) { 
-				Body::MapId2IntrT::iterator I2(b2->intrs.find(id1));
-				if (not(I2==b2->intrs.end())) { 
-					b2->intrs.erase(I2); 
-				}
-			}
+		}
+	}
+	//erase from the second body in any case, also when the first one has been removed
+	if (b2) { 
+		Body::MapId2IntrT::iterator I2(b2->intrs.find(id1));
+		if (not(I2==b2->intrs.end())) { 
+			b2->intrs.erase(I2); 
 		}
 	}
 	if(linIx<0) {
-- 
2.43.0


From eebcd578620c349db467151179829fe79e4f32b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:45 +0000
Subject: [PATCH 005/166] fix: a body inserted at the id of an erased one gets
 its contacts, and no leftover interactions; invalid ids are refused

---
 core/BodyContainer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index 3de4120..ee4f260 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -28,8 +28,16 @@ Body::id_t BodyContainer::insert(shared_ptr<Body> b){
 }
 
 Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
-	if(body[candidate] or candidate>=size()) {LOG_ERROR("invalid candidate id"); return -1;}
+	if(candidate<0 or (size_t)candidate>=size() or body[candidate]) {LOG_ERROR("invalid candidate id"); return -1;}
 	const shared_ptr<Scene>& scene=Omega::instance().getScene(); 
+	// the body which had this id may have left interactions waiting to be erased, they must not be taken for interactions of the new body
+	const shared_ptr<InteractionContainer>& intrs=scene->interactions;
+	for(size_t n=0; n<intrs->size();){
+		const Body::id_t id1=(*intrs)[n]->getId1(), id2=(*intrs)[n]->getId2();
+		if(id1!=candidate and id2!=candidate) n++;
+		else if(!intrs->erase(id1,id2,n)) n++;
+	}
+	intrs->dirty=true; // the bounds of this id are already sorted by the collider, they have to be checked again for overlaps with the new body
 	b->iterBorn=scene->iter;
 	b->timeBorn=scene->time;
 	b->id=candidate;
-- 
2.43.0


From cffb82d9485b974de63c7f052df5fd97c6be73a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:45 +0000
Subject: [PATCH 006/166] fix: erasing a body with an id out of range is
 refused instead of reading past the bodies

---
 core/BodyContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index ee4f260..f7c7dd1 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -47,7 +47,7 @@ Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
 }
 
 bool BodyContainer::erase(Body::id_t id, bool eraseClumpMembers){//default is false (as before)
-	if(!body[id]) return false;
+	if(!exists(id)) return false;
 	const shared_ptr<Body>& b=Body::byId(id);
 	if ((b) and (b->isClumpMember())) {
 		const shared_ptr<Body> clumpBody=Body::byId(b->clumpId);
-- 
2.43.0


From 07f66caed51ea9a88f401adec8937e504fef228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:30 +0000
Subject: [PATCH 007/166] fix: bodies added to a periodic simulation enter the
 sorted bounds with their period, no contact is missed across the boundary

---
 pkg/common/InsertionSortCollider.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/common/InsertionSortCollider.cpp b/pkg/common/InsertionSortCollider.cpp
index 8d98727..bb0359c 100644
--- a/pkg/common/InsertionSortCollider.cpp
+++ b/pkg/common/InsertionSortCollider.cpp
@@ -216,7 +216,8 @@ void InsertionSortCollider::action(){
 			if(2*nBodies<BBsize){ for(int i=0; i<3; i++) BB[i].vec.clear(); }
 			// more than 100 bodies was added, do initial sort again
 			// maybe: should rather depend on ratio of added bodies to those already present...?
-			if(2*nBodies-BBsize>200 || BBsize==0) doInitSort=true;
+			// periodic: the new bounds need their period, and must not be appended on the wrong side of the split
+			if(2*nBodies-BBsize>200 || BBsize==0 || periodic) doInitSort=true;
 			assert((BBsize%2)==0);
 			for(int i=0; i<3; i++){
 				BB[i].vec.reserve(2*nBodies);
@@ -296,6 +297,7 @@ void InsertionSortCollider::action(){
 				const shared_ptr<Body>& b=Body::byId(id,scene);
 				if(b){
 					const shared_ptr<Bound>& bv=b->bound;
+					if(doInitSort && periodic) BBji.period=0; // computed again from the absolute coordinate below
 					// coordinate is min/max if has bounding volume, otherwise both are the position. Add periodic shift so that we are inside the cell
 					// watch out for the parentheses around ?: within ?: (there was unwanted conversion of the Reals to bools!)
 					BBji.coord=((BBji.flags.hasBB=((bool)bv)) ? (BBji.flags.isMin ? bv->min[j] : bv->max[j]) : (b->state->pos[j])) - (periodic ? BBj.cellDim*BBji.period : 0.);
-- 
2.43.0


From b80710133697e42bdb1eebb2a4aab987c53eca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:59 +0000
Subject: [PATCH 008/166] fix: bounding box of a sphere in a cell sheared in
 several directions contains the sphere

---
 pkg/common/Bo1_Aabb.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/common/Bo1_Aabb.cpp b/pkg/common/Bo1_Aabb.cpp
index 4920b04..b8d1a99 100644
--- a/pkg/common/Bo1_Aabb.cpp
+++ b/pkg/common/Bo1_Aabb.cpp
@@ -29,6 +29,9 @@ void Bo1_Sphere_Aabb::go(const shared_ptr<Shape>& cm, shared_ptr<Bound>& bv, con
 			halfSize[i1]+=.5*refHalfSize[i1]*(1/cos[i]-1);
 			halfSize[i2]+=.5*refHalfSize[i2]*(1/cos[i]-1);
 		}
+		// with shear in several directions this may still be less than the extent of the sphere along the cell vectors
+		const Matrix3r& unshear=scene->cell->getUnshearTrsf();
+		for(int i=0; i<3; i++) halfSize[i]=max(halfSize[i],refHalfSize[i]*unshear.row(i).norm());
 	}
 	//cerr<<" || "<<halfSize<<endl;
 	aabb->min = scene->cell->unshearPt(se3.position)-halfSize;
-- 
2.43.0


From 3e7967cd6b0884ded0650e720c86236424ef1213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:23 +0000
Subject: [PATCH 009/166] fix: body iterator looked at the slot past the end of
 the body list

---
 core/BodyContainer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/BodyContainer.hpp b/core/BodyContainer.hpp
index 71037b2..196c4a0 100644
--- a/core/BodyContainer.hpp
+++ b/core/BodyContainer.hpp
@@ -39,7 +39,7 @@ class BodyContainer: public Serializable{
 			ContainerT::iterator end;
 			smart_iterator& operator++() {
 				ContainerT::iterator::operator++();
-				while (!(this->operator*()) && end!=(*this)) ContainerT::iterator::operator++();
+				while (end!=(*this) && !(this->operator*())) ContainerT::iterator::operator++();
 				return *this;}
 			smart_iterator operator++(int) {smart_iterator temp(*this); operator++(); return temp;}
 			smart_iterator& operator=(const ContainerT::iterator& rhs) {ContainerT::iterator::operator=(rhs); return *this;}
-- 
2.43.0


From 38b979cf5119372e392663c128e3541ed92f20b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:23 +0000
Subject: [PATCH 010/166] fix: looking up interactions of erased, negative or
 out-of-range ids dereferenced a null body

---
 core/InteractionContainer.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/core/InteractionContainer.hpp b/core/InteractionContainer.hpp
index 14843ed..ff69b21 100644
--- a/core/InteractionContainer.hpp
+++ b/core/InteractionContainer.hpp
@@ -74,15 +74,10 @@ class InteractionContainer: public Serializable{
 		const shared_ptr<Interaction>& find(Body::id_t id1,Body::id_t id2);
 		inline bool found(const Body::id_t& id1,const Body::id_t& id2){
 			assert(bodies);
-			if(id2>=(Body::id_t)bodies->size() or (id1 == id2)) {
-				return false;
-			} else {
-				if (id1>id2) {
-					return (*bodies)[id2]->intrs.count(id1);
-				} else {
-					return (*bodies)[id1]->intrs.count(id2);
-				}
-			}
+			const Body::id_t& idMin=std::min(id1,id2); const Body::id_t& idMax=std::max(id1,id2);
+			if(idMin<0 or idMax>=(Body::id_t)bodies->size() or (id1 == id2)) return false;
+			const shared_ptr<Body>& b=(*bodies)[idMin];
+			return b and b->intrs.count(idMax);
 		}
 		// index access
 		shared_ptr<Interaction>& operator[](size_t id){return linIntrs[id];}
-- 
2.43.0


From 8ebb1b7ee6307b1861a99829b1926f7657ade026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:02 +0000
Subject: [PATCH 011/166] fix: looking up an interaction with a negative id
 read before the body list

---
 core/InteractionContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 64e0838..0a8e0d1 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -93,7 +93,7 @@ const shared_ptr<Interaction>& InteractionContainer::find(Body::id_t id1,Body::i
 	assert(bodies);
 	if (id1>id2) swap(id1,id2); 
 	// those checks could be perhaps asserts, but pyInteractionContainer has no access to the body container...
-	if(id2>=(Body::id_t)bodies->size()){ empty=shared_ptr<Interaction>(); return empty; }
+	if(id1<0 or id2>=(Body::id_t)bodies->size()){ empty=shared_ptr<Interaction>(); return empty; }
 	const shared_ptr<Body>& b1((*bodies)[id1]);
 	if(!b1) { empty=shared_ptr<Interaction>(); return empty; }
 	Body::MapId2IntrT::iterator I(b1->intrs.find(id2));
-- 
2.43.0


From 8541bf07369e748be69ceafcbe518feedd431343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:02 +0000
Subject: [PATCH 012/166] fix: eraseNonReal skipped interactions, iterating
 over the list it was erasing from, and left touching bounds unnoticed

---
 core/InteractionContainer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 0a8e0d1..fa4071e 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -121,7 +121,12 @@ void InteractionContainer::requestErase(Interaction* I){
 }
 
 void InteractionContainer::eraseNonReal(){
-	FOREACH(const shared_ptr<Interaction>& i, *this) if(!i->isReal()) this->erase(i->getId1(),i->getId2(),i->linIx);
+	dirty=true; // overlapping bounds without interaction are not noticed by the collider otherwise
+	// erasing moves the last interaction to the current position, which has to be visited again
+	for(size_t linPos=0; linPos<currSize;){
+		const shared_ptr<Interaction> i=linIntrs[linPos];
+		if(i->isReal() or !this->erase(i->getId1(),i->getId2(),linPos)) linPos++;
+	}
 }
 
 // compare interaction based on their first id
-- 
2.43.0


From d96f2b2192fc9f67404e9fd479f2817a45f49d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:02 +0000
Subject: [PATCH 013/166] fix: one interaction with a missing body made all the
 following ones disappear at loading

---
 core/InteractionContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index fa4071e..76c8283 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -153,7 +153,7 @@ void InteractionContainer::postLoad__calledFromScene(const shared_ptr<BodyContai
 	FOREACH(const shared_ptr<Interaction>& I, interaction){ 
 		Body::id_t id1=I->getId1(), id2=I->getId2();
 		if (!(*bodies)[id1] || !(*bodies)[id2]) {
-			return;
+			continue;
 		} else {
 			insert(I);
 		}
-- 
2.43.0


From fb739cec4b35ad02ab94fa88267bf68515ceea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:02 +0000
Subject: [PATCH 014/166] fix: potential interactions of an erased body are
 removed at the next collider run

---
 pkg/common/InsertionSortCollider.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/common/InsertionSortCollider.hpp b/pkg/common/InsertionSortCollider.hpp
index 258a63d..f8a74ca 100644
--- a/pkg/common/InsertionSortCollider.hpp
+++ b/pkg/common/InsertionSortCollider.hpp
@@ -158,6 +158,7 @@ class InsertionSortCollider: public Collider{
 	public:
 	//! Predicate called from loop within InteractionContainer::erasePending
 	bool shouldBeErased(Body::id_t id1, Body::id_t id2, Scene* rb) const {
+		if(!rb->bodies->exists(id1) || !rb->bodies->exists(id2)) return true; // the bounds of an erased body are not updated anymore
 		if(!periodic) return !spatialOverlap(id1,id2);
 		else { Vector3i periods; return !spatialOverlapPeri(id1,id2,rb,periods); }
 	}
-- 
2.43.0


From 3c7140faba26c0318f45519eea115796965416d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:02 +0000
Subject: [PATCH 015/166] fix: createInteraction refuses missing bodies and a
 body with itself

---
 pkg/dem/Shop_02.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index ce98a2a..358b620 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -104,6 +104,9 @@ shared_ptr<Interaction> Shop::createExplicitInteraction(Body::id_t id1, Body::id
 	IGeomDispatcher* geomMeta=NULL;
 	IPhysDispatcher* physMeta=NULL;
 	shared_ptr<Scene> rb=Omega::instance().getScene();
+	if(!rb->bodies->exists(id1)) throw runtime_error(("No body #"+boost::lexical_cast<string>(id1)).c_str());
+	if(!rb->bodies->exists(id2)) throw runtime_error(("No body #"+boost::lexical_cast<string>(id2)).c_str());
+	if(id1==id2) throw runtime_error(("Body #"+boost::lexical_cast<string>(id1)+" cannot interact with itself.").c_str());
 	if(rb->interactions->find(Body::id_t(id1),Body::id_t(id2))!=0) throw runtime_error(string("Interaction #")+boost::lexical_cast<string>(id1)+"+#"+boost::lexical_cast<string>(id2)+" already exists.");
 	FOREACH(const shared_ptr<Engine>& e, rb->engines){
 		if(!geomMeta) { geomMeta=dynamic_cast<IGeomDispatcher*>(e.get()); if(geomMeta) continue; }
@@ -115,8 +118,6 @@ shared_ptr<Interaction> Shop::createExplicitInteraction(Body::id_t id1, Body::id
 	if(!geomMeta) throw runtime_error("No IGeomDispatcher in engines or inside InteractionLoop.");
 	if(!physMeta) throw runtime_error("No IPhysDispatcher in engines or inside InteractionLoop.");
 	shared_ptr<Body> b1=Body::byId(id1,rb), b2=Body::byId(id2,rb);
-	if(!b1) throw runtime_error(("No body #"+boost::lexical_cast<string>(id1)).c_str());
-	if(!b2) throw runtime_error(("No body #"+boost::lexical_cast<string>(id2)).c_str());
 	shared_ptr<Interaction> i=geomMeta->explicitAction(b1,b2,/*force*/force);
 	assert(force && i);
 	if(!i) return i;
-- 
2.43.0


From f663a4467b72203e855b25308acd1497f7176ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:02 +0000
Subject: [PATCH 016/166] fix: merging a clump into another one left its
 members without clump

---
 core/BodyContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index f7c7dd1..8980d8b 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -67,7 +67,7 @@ bool BodyContainer::erase(Body::id_t id, bool eraseClumpMembers){//default is fa
 				this->erase(memberId,false);	// erase members
 			} else {
 				//when the last members is erased, the clump will be erased automatically, see above
-				Body::byId(memberId)->clumpId=Body::ID_NONE; // make members standalones
+				if (Body::byId(memberId)->clumpId==id) Body::byId(memberId)->clumpId=Body::ID_NONE; // make members standalones, unless they have been moved to another clump
 			}
 		}
 		body[id].reset();
-- 
2.43.0


From 763ab1ab9cda503ebcee544080d0cca84f71fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:15 +0000
Subject: [PATCH 017/166] fix: orientation of a clump whose principal axes came
 out left-handed

---
 core/Clump.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 8cb5699..a64ed24 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -216,7 +216,8 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 	LOG_TRACE("Ic_orientG=\n"<<Ic_orientG);
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	Eigen::SelfAdjointEigenSolver<Matrix3r> decomposed(Ic_orientG);
-	const Matrix3r& R_g2c(decomposed.eigenvectors());
+	Matrix3r R_g2c(decomposed.eigenvectors());
+	if(R_g2c.determinant()<0) R_g2c.col(0)*=-1; // eigenvectors may come out left-handed, which no rotation can represent
 	// has NaNs for identity matrix??
 	LOG_TRACE("R_g2c=\n"<<R_g2c);
 	// set quaternion from rotation matrix
@@ -307,6 +308,7 @@ void Clump::updatePropertiesNonSpherical(const shared_ptr<Body>& clumpBody, bool
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	//TRWM3MAT(Ic_orientG);
 	matrixEigenDecomposition(Ic_orientG,R_g2c,Ic);
+	if(R_g2c.determinant()<0) R_g2c.col(0)*=-1; // eigenvectors may come out left-handed, which no rotation can represent
 	/*! @bug eigendecomposition might be wrong. see http://article.gmane.org/gmane.science.physics.yade.devel/99 for message. It is worked around below, however.
 	*/
 	// has NaNs for identity matrix!
@@ -411,6 +413,7 @@ void Clump::updatePropertiesNonSpherical(const shared_ptr<Body>& clumpBody, bool
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	//TRWM3MAT(Ic_orientG);
 	matrixEigenDecomposition(Ic_orientG,R_g2c,Ic);
+	if(R_g2c.determinant()<0) R_g2c.col(0)*=-1; // eigenvectors may come out left-handed, which no rotation can represent
 	/*! @bug eigendecomposition might be wrong. see http://article.gmane.org/gmane.science.physics.yade.devel/99 for message. It is worked around below, however.
 	*/
 	// has NaNs for identity matrix!
-- 
2.43.0


From 8573313f617996f1a3493f35ac5460b0bca373ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:15 +0000
Subject: [PATCH 018/166] fix: own inertia of the integration cells of
 overlapping clumps lacked the density

---
 core/Clump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index a64ed24..7bf8c0e 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -175,7 +175,7 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 								M += m;
 								Sg += m*x;
 								//inertia I = sum_i( mass_i*dist^2 + I_s) )	//steiners theorem
-								Ig += m*( x.dot(x)*Matrix3r::Identity()-x*x.transpose())/*dist^2*/+Matrix3r(Vector3r::Constant(dv*pow(dx,2)/6.).asDiagonal())/*I_s/m = d^2: along princial axes of dv; perhaps negligible?*/;
+								Ig += m*( x.dot(x)*Matrix3r::Identity()-x*x.transpose())/*dist^2*/+Matrix3r(Vector3r::Constant(m*pow(dx,2)/6.).asDiagonal())/*I_s/m = d^2: along princial axes of dv; perhaps negligible?*/;
 								break;
 							}
 						}
-- 
2.43.0


From f2158cb425e24154314f247f06f78843bc88ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:15 +0000
Subject: [PATCH 019/166] fix: inertia of rotated non-spherical clump members
 was rotated the wrong way

---
 core/Clump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 7bf8c0e..3f66a89 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -204,7 +204,7 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 				const Quaternionr& ori = subState->ori;
 				M += m;
 				Sg += m*pos;
-				Ig += inertiaTensorTranslate(inertiaTensorRotate(inertia.asDiagonal(),ori),m,-pos);
+				Ig += inertiaTensorTranslate(inertiaTensorRotate(inertia.asDiagonal(),ori.conjugate()),m,-pos);
 			}
 		}
 	}
-- 
2.43.0


From 329574df02a98cbe19653a3cdccf563efaad564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:34 +0000
Subject: [PATCH 020/166] fix: invalid ids given to clump functions and
 interaction numbers out of range are refused

---
 py/wrapper/yadeWrapper.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index fc42921..e8fed08 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -69,6 +69,12 @@ class pyBodyContainer{
 				py::throw_error_already_set();
 			}
 		}
+		void checkExists(Body::id_t id){
+			if (!proxee->exists(id)){
+				PyErr_SetString(PyExc_IndexError,("Error: Body "+boost::lexical_cast<string>(id)+" does not exist.").c_str());
+				py::throw_error_already_set();
+			}
+		}
 		typedef std::map<Body::id_t,Se3r> MemberMap;
 	public:
 	const shared_ptr<BodyContainer> proxee;
@@ -97,6 +103,8 @@ class pyBodyContainer{
 		vector<Body::id_t> ret; FOREACH(shared_ptr<Body>& b, bb){ret.push_back(append(b));} return ret;
 	}
 	Body::id_t clump(vector<Body::id_t> ids, unsigned int discretization){
+		FOREACH(Body::id_t id, ids) checkExists(id);
+		if(ids.empty() || std::set<Body::id_t>(ids.begin(),ids.end()).size()!=ids.size()){ PyErr_SetString(PyExc_ValueError,"Error: ids of different bodies are needed to make a clump."); py::throw_error_already_set(); }
 		// create and add clump itself
 		Scene* scene(Omega::instance().getScene().get());
 		shared_ptr<Body> clumpBody=shared_ptr<Body>(new Body());
@@ -178,6 +186,7 @@ class pyBodyContainer{
 		//}
 	}
 	void addToClump(vector<Body::id_t> bids, Body::id_t cid, unsigned int discretization){
+		checkExists(cid); FOREACH(Body::id_t bid, bids) checkExists(bid);
 		Scene* scene(Omega::instance().getScene().get());	// get scene
 		shared_ptr<Body> clp = Body::byId(cid,scene);		// get clump pointer
 		checkClump(clp);
@@ -202,6 +211,7 @@ class pyBodyContainer{
 		FOREACH(Body::id_t bid, eraseList) proxee->erase(bid,false);//erase old clumps
 	}
 	void releaseFromClump(Body::id_t bid, Body::id_t cid, unsigned int discretization){
+		checkExists(bid); checkExists(cid);
 		Scene* scene(Omega::instance().getScene().get());	// get scene
 		shared_ptr<Body> bp = Body::byId(bid,scene);		// get body pointer
 		shared_ptr<Body> clp = Body::byId(cid,scene);		// get clump pointer
@@ -466,7 +476,10 @@ class pyInteractionContainer{
 				shared_ptr<Interaction> i=proxee->find(id12[0],id12[1]);
 				if(i) return i; else { PyErr_SetString(PyExc_IndexError,"No such interaction"); py::throw_error_already_set(); /* make compiler happy; never reached */ return shared_ptr<Interaction>(); }
 			}
-			else if(id12.size()==1){ return (*proxee)[id12[0]];}
+			else if(id12.size()==1){
+				if(id12[0]<0 || (size_t)id12[0]>=proxee->size()){ PyErr_SetString(PyExc_IndexError,"Interaction number out of range."); py::throw_error_already_set(); /* never reached */ return shared_ptr<Interaction>(); }
+				return (*proxee)[id12[0]];
+			}
 			else throw invalid_argument("2 integers (id1,id2) or 1 integer (nth) required.");
 		}
 		/* return nth _real_ iteration from the container (0-based index); this is to facilitate picking random interaction */
-- 
2.43.0


From 66cae332391cb554f238e0acaa03f465b12b31cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:36 +0000
Subject: [PATCH 021/166] fix: looping over bodies or interactions while adding
 or erasing some used freed memory

---
 py/wrapper/yadeWrapper.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index e8fed08..e0a98dd 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -50,13 +50,13 @@ Python normally iterates over object it is has __getitem__ and __len__, which Bo
 However, it will not skip removed bodies automatically, hence this iterator which does just that.
 */
 class pyBodyIterator{
-	BodyContainer::iterator I, Iend;
+	// index rather than iterator, which would be invalidated by bodies appended in the loop
+	shared_ptr<BodyContainer> bodies; size_t I, Iend;
 	public:
-	pyBodyIterator(const shared_ptr<BodyContainer>& bc){ I=bc->begin(); Iend=bc->end(); }
+	pyBodyIterator(const shared_ptr<BodyContainer>& bc): bodies(bc), I(0), Iend(bc->size()){}
 	pyBodyIterator pyIter(){return *this;}
 	shared_ptr<Body> pyNext(){
-		BodyContainer::iterator ret;
-		while(I!=Iend){ ret=I; ++I; if(*ret) return *ret; }
+		while(I<std::min(Iend,bodies->size())){ const shared_ptr<Body>& b=(*bodies)[I++]; if(b) return b; }
 		PyErr_SetNone(PyExc_StopIteration); py::throw_error_already_set(); /* never reached, but makes the compiler happier */ throw;
 	}
 };
@@ -449,13 +449,13 @@ class pyTags{
 
 
 class pyInteractionIterator{
-	InteractionContainer::iterator I, Iend;
+	// index rather than iterator, which would be invalidated by interactions created or erased in the loop
+	shared_ptr<InteractionContainer> intrs; size_t I, Iend;
 	public:
-	pyInteractionIterator(const shared_ptr<InteractionContainer>& ic){ I=ic->begin(); Iend=ic->end(); }
+	pyInteractionIterator(const shared_ptr<InteractionContainer>& ic): intrs(ic), I(0), Iend(ic->size()){}
 	pyInteractionIterator pyIter(){return *this;}
 	shared_ptr<Interaction> pyNext(){
-		InteractionContainer::iterator ret;
-		while(I!=Iend){ ret=I; ++I; if((*ret)->isReal()) return *ret; }
+		while(I<std::min(Iend,intrs->size())){ const shared_ptr<Interaction>& i=(*intrs)[I++]; if(i->isReal()) return i; }
 		PyErr_SetNone(PyExc_StopIteration); py::throw_error_already_set();
 		throw; // to avoid compiler warning; never reached
 		//InteractionContainer::iterator ret=I; ++I; return *ret;
-- 
2.43.0


From 5996013e9c5f4728990f394ef9a96c3e00843efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:36 +0000
Subject: [PATCH 022/166] fix: a body already in the simulation could be
 inserted again at another id; None instead of a body crashed

---
 py/wrapper/yadeWrapper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index e0a98dd..71c3c9b 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -91,11 +91,14 @@ class pyBodyContainer{
 		else return (*proxee)[id];
 	}
 	Body::id_t append(shared_ptr<Body> b){
+		if(!b){ PyErr_SetString(PyExc_TypeError,"Body expected, not None."); py::throw_error_already_set(); }
 		// shoud be >=0, but Body is by default created with id 0... :-|
 		if(b->getId()>=0){ PyErr_SetString(PyExc_IndexError,("Body already has id "+boost::lexical_cast<string>(b->getId())+" set; appending such body (for the second time) is not allowed.").c_str()); py::throw_error_already_set(); }
 		return proxee->insert(b);
 	}
 	Body::id_t insertAtId(shared_ptr<Body> b, Body::id_t pos){
+		if(!b){ PyErr_SetString(PyExc_TypeError,"Body expected, not None."); py::throw_error_already_set(); }
+		if(b->getId()>=0){ PyErr_SetString(PyExc_IndexError,("Body already has id "+boost::lexical_cast<string>(b->getId())+" set; inserting such body (for the second time) is not allowed.").c_str()); py::throw_error_already_set(); }
 		return proxee->insertAtId(b,pos);
 	}
 	vector<Body::id_t> appendList(vector<shared_ptr<Body> > bb){
-- 
2.43.0


From 9c217d7882f48624fb367f0274b93087da1fe5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:36 +0000
Subject: [PATCH 023/166] fix: clumping members of other clumps, or adding a
 body twice, left clumps with stale members or properties

---
 py/wrapper/yadeWrapper.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 71c3c9b..39a367a 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -116,14 +116,22 @@ class pyBodyContainer{
 		clumpBody->setBounded(false);
 		proxee->insert(clumpBody);
 		// add clump members to the clump
+		std::set<Body::id_t> oldClumps; // clumps losing some or all of their members
 		FOREACH(Body::id_t id, ids) {
+			if (Body::byId(id,scene)->isClump()) oldClumps.insert(id);
 			if (Body::byId(id,scene)->isClumpMember()){	//Check, whether the body is clumpMember
+				oldClumps.insert(Body::byId(id,scene)->clumpId);
 				Clump::del(Body::byId(Body::byId(id,scene)->clumpId,scene),Body::byId(id,scene)); //If so, remove it from there
 			}
 		};
 		
 		FOREACH(Body::id_t id, ids) Clump::add(clumpBody,Body::byId(id,scene));
 		Clump::updateProperties(clumpBody, discretization);
+		FOREACH(Body::id_t id, oldClumps){
+			const shared_ptr<Body> oldClump=Body::byId(id,scene);
+			if(std::find(ids.begin(),ids.end(),id)!=ids.end() || YADE_PTR_CAST<Clump>(oldClump->shape)->members.empty()) proxee->erase(id,false);
+			else Clump::updateProperties(oldClump, discretization);
+		}
 		return clumpBody->getId();
 	}
 	py::tuple appendClump(vector<shared_ptr<Body> > bb, unsigned int discretization){
@@ -197,14 +205,14 @@ class pyBodyContainer{
 		FOREACH(Body::id_t bid, bids) {
 			shared_ptr<Body> bp = Body::byId(bid,scene);		// get body pointer
 			if (bp->isClump()){
-				if (bp == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" and clump "+boost::lexical_cast<string>(cid)+" are the same bodies. Body was not added.").c_str()); return;}
+				if (bp == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" and clump "+boost::lexical_cast<string>(cid)+" are the same bodies. Body was not added.").c_str()); continue;}
 				Clump::add(clp,bp);//add clump bid to clump cid
 				eraseList.push_back(bid);
 			}
 			else if (bp->isClumpMember()){
 				Body::id_t bpClumpId = bp->clumpId;
 				shared_ptr<Body> bpClumpPointer = Body::byId(bpClumpId,scene);
-				if (bpClumpPointer == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" is already a clump member of clump "+boost::lexical_cast<string>(cid)+". Body was not added.").c_str()); return;} 
+				if (bpClumpPointer == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" is already a clump member of clump "+boost::lexical_cast<string>(cid)+". Body was not added.").c_str()); continue;} 
 				Clump::add(clp,bpClumpPointer);//add clump bpClumpId to clump cid
 				eraseList.push_back(bpClumpId);
 			}
-- 
2.43.0


From d47c7ace46bcbfbb9e80b9bcd56393cf19072abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:15 +0000
Subject: [PATCH 024/166] fix: relative velocity of viscous contacts across a
 periodic boundary had the wrong sign for the image shift

---
 pkg/dem/LudingPM.cpp               | 2 +-
 pkg/dem/ViscoelasticCapillarPM.cpp | 2 +-
 pkg/dem/ViscoelasticPM.cpp         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/LudingPM.cpp b/pkg/dem/LudingPM.cpp
index ecf33fa..3463b26 100644
--- a/pkg/dem/LudingPM.cpp
+++ b/pkg/dem/LudingPM.cpp
@@ -183,7 +183,7 @@ bool Law2_ScGeom_LudingPhys_Basic::go(shared_ptr<IGeom>& _geom, shared_ptr<IPhys
   const Vector3r c2x = (geom.contactPoint - de2.pos - shift2);
   
   
-  const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) + shiftVel;
+  const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) - shiftVel; // the image of the second body moves with shiftVel
   const Real normalVelocity	= geom.normal.dot(relativeVelocity);
   const Vector3r shearVelocity	= relativeVelocity-normalVelocity*geom.normal;
 
diff --git a/pkg/dem/ViscoelasticCapillarPM.cpp b/pkg/dem/ViscoelasticCapillarPM.cpp
index b474198..2349f8f 100644
--- a/pkg/dem/ViscoelasticCapillarPM.cpp
+++ b/pkg/dem/ViscoelasticCapillarPM.cpp
@@ -148,7 +148,7 @@ bool Law2_ScGeom_ViscElCapPhys_Basic::go(shared_ptr<IGeom>& _geom, shared_ptr<IP
         const Vector3r c1x = (geom.contactPoint - de1.pos);
         const Vector3r c2x = (geom.contactPoint - de2.pos - shift2);
         
-        const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) + shiftVel;
+        const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) - shiftVel; // the image of the second body moves with shiftVel
         const auto normalVelocity	= geom.normal.dot(relativeVelocity);
         
         dampCapForceScalar = -phys.dcap * normalVelocity;
diff --git a/pkg/dem/ViscoelasticPM.cpp b/pkg/dem/ViscoelasticPM.cpp
index 61c8091..e0c4109 100644
--- a/pkg/dem/ViscoelasticPM.cpp
+++ b/pkg/dem/ViscoelasticPM.cpp
@@ -108,7 +108,7 @@ bool computeForceTorqueViscEl(shared_ptr<IGeom>& _geom, shared_ptr<IPhys>& _phys
 		const Vector3r c1x = (geom.contactPoint - de1.pos);
 		const Vector3r c2x = (geom.contactPoint - de2.pos - shift2);
 		
-		const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) + shiftVel;
+		const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) - shiftVel; // the image of the second body moves with shiftVel
 		const Real normalVelocity	= geom.normal.dot(relativeVelocity);
 		const Vector3r shearVelocity	= relativeVelocity-normalVelocity*geom.normal;
 		
-- 
2.43.0


From 820f84892c6921235ab93e8f3582eab49c6c9c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:55 +0000
Subject: [PATCH 025/166] fix: velocity of periodic images was taken from the
 cell after its update in three contact laws

---
 pkg/dem/ElectrostaticMat.cpp | 2 +-
 pkg/dem/HertzMindlin.cpp     | 2 +-
 pkg/dem/Lubrication.cpp      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/ElectrostaticMat.cpp b/pkg/dem/ElectrostaticMat.cpp
index 6312f2f..f358037 100644
--- a/pkg/dem/ElectrostaticMat.cpp
+++ b/pkg/dem/ElectrostaticMat.cpp
@@ -134,7 +134,7 @@ bool Law2_ScGeom_ElectrostaticPhys::go(shared_ptr<IGeom>& iGeom, shared_ptr<IPhy
     bool isNew=false;
 	
 	// Speeds
-    Vector3r shiftVel=scene->isPeriodic ? Vector3r(scene->cell->velGrad*scene->cell->hSize*interaction->cellDist.cast<Real>()) : Vector3r::Zero();
+    Vector3r shiftVel=scene->isPeriodic ? scene->cell->intrShiftVel(interaction->cellDist) : Vector3r::Zero();
     Vector3r shift2 = scene->isPeriodic ? Vector3r(scene->cell->hSize*interaction->cellDist.cast<Real>()): Vector3r::Zero();
 
     Vector3r relV = geom->getIncidentVel(s1, s2, scene->dt, shift2, shiftVel, false );
diff --git a/pkg/dem/HertzMindlin.cpp b/pkg/dem/HertzMindlin.cpp
index a68c814..4c26039 100644
--- a/pkg/dem/HertzMindlin.cpp
+++ b/pkg/dem/HertzMindlin.cpp
@@ -209,7 +209,7 @@ bool Law2_ScGeom_MindlinPhys_HertzWithLinearShear::go(shared_ptr<IGeom>& ig, sha
 	Vector3r shearIncrement;
 	if(nonLin>1){
 		State *de1=Body::byId(id1,scene)->state.get(), *de2=Body::byId(id2,scene)->state.get();	
-		Vector3r shiftVel=scene->isPeriodic ? Vector3r(scene->cell->velGrad*scene->cell->hSize*contact->cellDist.cast<Real>()) : Vector3r::Zero();
+		Vector3r shiftVel=scene->isPeriodic ? scene->cell->intrShiftVel(contact->cellDist) : Vector3r::Zero();
 		Vector3r shift2 = scene->isPeriodic ? Vector3r(scene->cell->hSize*contact->cellDist.cast<Real>()): Vector3r::Zero();
 		
 		
diff --git a/pkg/dem/Lubrication.cpp b/pkg/dem/Lubrication.cpp
index 0650b9c..9deced0 100644
--- a/pkg/dem/Lubrication.cpp
+++ b/pkg/dem/Lubrication.cpp
@@ -368,7 +368,7 @@ bool Law2_ScGeom_ImplicitLubricationPhys::go(shared_ptr<IGeom> &iGeom, shared_pt
     bool isNew=false;
 	
 	// Speeds
-    Vector3r shiftVel=scene->isPeriodic ? Vector3r(scene->cell->velGrad*scene->cell->hSize*interaction->cellDist.cast<Real>()) : Vector3r::Zero();
+    Vector3r shiftVel=scene->isPeriodic ? scene->cell->intrShiftVel(interaction->cellDist) : Vector3r::Zero();
     Vector3r shift2 = scene->isPeriodic ? Vector3r(scene->cell->hSize*interaction->cellDist.cast<Real>()): Vector3r::Zero();
 
     Vector3r relV = geom->getIncidentVel(s1, s2, scene->dt, shift2, shiftVel, false );
-- 
2.43.0


From 9286650574539f35fb68f8d2a085bd727c10420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:01 +0000
Subject: [PATCH 026/166] fix: tracked rotational energy of aspherical bodies
 rotated the inertia the wrong way

---
 pkg/dem/NewtonIntegrator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index ab1aaa2..e6a3aee 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -52,7 +52,7 @@ void NewtonIntegrator::updateEnergy(const shared_ptr<Body>& b, const State* stat
 	if(b->isAspherical()){
 		Matrix3r mI; mI<<state->inertia[0],0,0, 0,state->inertia[1],0, 0,0,state->inertia[2];
 		Matrix3r T(state->ori);
-		Erot=.5*b->state->angVel.transpose().dot((T.transpose()*mI*T)*b->state->angVel);
+		Erot=.5*b->state->angVel.transpose().dot((T*mI*T.transpose())*b->state->angVel);
 	} else { Erot=0.5*state->angVel.dot(state->inertia.cwiseProduct(state->angVel)); }
 	if(!kinSplit) scene->energy->add(Etrans+Erot,"kinetic",kinEnergyIx,/*non-incremental*/true);
 	else{ scene->energy->add(Etrans,"kinTrans",kinEnergyTransIx,true); scene->energy->add(Erot,"kinRot",kinEnergyRotIx,true); }
-- 
2.43.0


From 7c17157ba026de7a037c4bb2b1361fe316362074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:11 +0000
Subject: [PATCH 027/166] fix: angular momentum at mid-step was transformed
 with the orientation of the step start, free aspherical bodies drifted in
 energy

---
 pkg/dem/NewtonIntegrator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index e6a3aee..4fe3108 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -254,7 +254,7 @@ void NewtonIntegrator::leapfrogAsphericalRotate(State* state, const Body::id_t&
 	const Quaternionr dotQ_n=DotQ(angVel_b_n,state->ori); // dQ/dt at time n
 	const Quaternionr Q_half = Quaternionr(state->ori.coeffs() + dt/2. * dotQ_n.coeffs()); // Q at time n+1/2
 	state->angMom+=dt*M; // global angular momentum at time n+1/2
-	const Vector3r l_b_half = A*state->angMom; // local angular momentum at time n+1/2
+	const Vector3r l_b_half = Q_half.normalized().conjugate()*state->angMom; // local angular momentum at time n+1/2
 	Vector3r angVel_b_half = l_b_half.cwiseQuotient(state->inertia); // local angular velocity at time n+1/2
 	if (densityScaling) angVel_b_half*=state->densityScaling;
 	const Quaternionr dotQ_half=DotQ(angVel_b_half,Q_half); // dQ/dt at time n+1/2
-- 
2.43.0


From cd508239af9b03b7dffb0c347fa0a90853a6cdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:11 +0000
Subject: [PATCH 028/166] fix: aspherical bodies excluded by the integration
 mask rotated

---
 pkg/dem/NewtonIntegrator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index 4fe3108..0397cb7 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -258,10 +258,11 @@ void NewtonIntegrator::leapfrogAsphericalRotate(State* state, const Body::id_t&
 	Vector3r angVel_b_half = l_b_half.cwiseQuotient(state->inertia); // local angular velocity at time n+1/2
 	if (densityScaling) angVel_b_half*=state->densityScaling;
 	const Quaternionr dotQ_half=DotQ(angVel_b_half,Q_half); // dQ/dt at time n+1/2
-	state->ori=Quaternionr(state->ori.coeffs()+dt*dotQ_half.coeffs()); // Q at time n+1
+	const bool moves=(mask<=0) or Body::byId(id)->maskCompatible(mask); // bodies excluded by the mask do not rotate, as for spherical bodies
+	if(moves) state->ori=Quaternionr(state->ori.coeffs()+dt*dotQ_half.coeffs()); // Q at time n+1
 	state->angVel=state->ori*angVel_b_half; // global angular velocity at time n+1/2
 
-	if(scene->forces.getMoveRotUsed() && scene->forces.getRot(id)!=Vector3r::Zero()) {
+	if(moves && scene->forces.getMoveRotUsed() && scene->forces.getRot(id)!=Vector3r::Zero()) {
 		Vector3r r(scene->forces.getRot(id));
 		Real norm=r.norm(); r/=norm;
 		Quaternionr q(AngleAxisr(norm,r));
-- 
2.43.0


From 3dddcf25c7ffe047d380e20702dc568f0352d6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:35 +0000
Subject: [PATCH 029/166] fix: recomputing a clump zeroed its velocity and spin
 but kept its angular momentum, so it started to spin again

---
 core/Clump.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 3f66a89..86007fc 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -107,6 +107,7 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 		state->mass=subState->mass;
 		state->vel=Vector3r::Zero();
 		state->angVel=Vector3r::Zero();
+		state->angMom=Vector3r::Zero();
 		return;
 	}
 	//check for intersections:
@@ -226,7 +227,7 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 	state->mass=M;
 	
 	// TODO: these might be calculated from members... but complicated... - someone needs that?!
-	state->vel=state->angVel=Vector3r::Zero();
+	state->vel=state->angVel=state->angMom=Vector3r::Zero();
 	clumpBody->setAspherical(state->inertia[0]!=state->inertia[1] || state->inertia[0]!=state->inertia[2]);
 
 	// update subBodySe3s; subtract clump orientation (=apply its inverse first) to subBody's orientation
@@ -330,7 +331,7 @@ void Clump::updatePropertiesNonSpherical(const shared_ptr<Body>& clumpBody, bool
 	//TRWM3VEC(state->inertia);
 
 	// TODO: these might be calculated from members... but complicated... - someone needs that?!
-	state->vel=state->angVel=Vector3r::Zero();
+	state->vel=state->angVel=state->angMom=Vector3r::Zero();
 
 	clumpBody->setAspherical(state->inertia[0]!=state->inertia[1] || state->inertia[0]!=state->inertia[2]);
 
@@ -435,7 +436,7 @@ void Clump::updatePropertiesNonSpherical(const shared_ptr<Body>& clumpBody, bool
 	//TRWM3VEC(state->inertia);
 
 	// TODO: these might be calculated from members... but complicated... - someone needs that?!
-	state->vel=state->angVel=Vector3r::Zero();
+	state->vel=state->angVel=state->angMom=Vector3r::Zero();
 
 	clumpBody->setAspherical(state->inertia[0]!=state->inertia[1] || state->inertia[0]!=state->inertia[2]);
 
-- 
2.43.0


From f00bf026878525c5ceca003149ee8d1d8a86433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:35 +0000
Subject: [PATCH 030/166] fix: replaceByClumps crashed when an amount rounded
 to no sphere, or to more than were left

---
 py/wrapper/yadeWrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 39a367a..c2234e3 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -315,7 +315,8 @@ class pyBodyContainer{
 			}
 			
 			//get pointer lists of spheres, that should be replaced:
-			int numReplaceTmp = round(num*amounts[ii]);
+			int numReplaceTmp = std::min((int)round(num*amounts[ii]),numSphereList);//rounding of the previous amounts may leave fewer spheres
+			if (numReplaceTmp <= 0) continue;
 			vector<shared_ptr<Body> > bpListTmp(numReplaceTmp);
 			int a = 0, c = 0;//counters
 			vector<int> posTmp;
-- 
2.43.0


From 775ef43ca7074f056d609135fb4c34c915816010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:00 +0000
Subject: [PATCH 031/166] fix: an empty engine list set during a step takes
 effect at the next step

---
 core/Scene.cpp             | 4 ++--
 core/Scene.hpp             | 1 +
 py/wrapper/yadeWrapper.cpp | 4 ++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/Scene.cpp b/core/Scene.cpp
index 5ba16f8..c0ff851 100644
--- a/core/Scene.cpp
+++ b/core/Scene.cpp
@@ -76,9 +76,9 @@ void Scene::moveToNextTimeStep(){
 	// substepping or not, update engines from _nextEngines, if defined, at the beginning of step
 	// subStep can be 0, which happens if simulations is saved in the middle of step (without substepping)
 	// this assumes that prologue will not set _nextEngines, which is safe hopefully
-	if(!_nextEngines.empty() && (subStep<0 || (subStep<=0 && !subStepping))){
+	if(nextEnginesSet && (subStep<0 || (subStep<=0 && !subStepping))){
 		engines=_nextEngines;
-		_nextEngines.clear();
+		_nextEngines.clear(); nextEnginesSet=false;
 		// hopefully this will not break in some margin cases (subStepping with setting _nextEngines and such)
 		subStep=-1;
 	}
diff --git a/core/Scene.hpp b/core/Scene.hpp
index befc14e..005e432 100644
--- a/core/Scene.hpp
+++ b/core/Scene.hpp
@@ -71,6 +71,7 @@ class Scene: public Serializable{
 
 		void postLoad(Scene&);
 
+		bool nextEnginesSet=false; // whether _nextEngines (which may be empty) replace engines at the beginning of the next step
 		boost::posix_time::ptime prevTime; //Time value on the previous step
 
 	YADE_CLASS_BASE_DOC_ATTRS_CTOR_PY(Scene,Serializable,"Object comprising the whole simulation.",
diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index c2234e3..4a20804 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -753,11 +753,11 @@ class pyOmega{
 	}
 
 
-	vector<shared_ptr<Engine> > engines_get(void){assertScene(); Scene* scene=OMEGA.getScene().get(); return scene->_nextEngines.empty()?scene->engines:scene->_nextEngines;}
+	vector<shared_ptr<Engine> > engines_get(void){assertScene(); Scene* scene=OMEGA.getScene().get(); return scene->nextEnginesSet?scene->_nextEngines:scene->engines;}
 	void engines_set(const vector<shared_ptr<Engine> >& egs){
 		assertScene(); Scene* scene=OMEGA.getScene().get();
 		if(scene->subStep<0) scene->engines=egs; // not inside the engine loop right now, ok to update directly
-		else scene->_nextEngines=egs; // inside the engine loop, update _nextEngines; O.engines picks that up automatically, and Scene::moveToNextTimestep will put them in place of engines at the start of the next loop
+		else { scene->_nextEngines=egs; scene->nextEnginesSet=true; } // inside the engine loop, update _nextEngines; O.engines picks that up automatically, and Scene::moveToNextTimestep will put them in place of engines at the start of the next loop
 		mapLabeledEntitiesToVariables();
 	}
 	// raw access to engines/_nextEngines, for debugging
-- 
2.43.0


From 20b0a9850992af393723d33d948cc594e9f71719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:00 +0000
Subject: [PATCH 032/166] fix: O.reset() lets go of the interpreter lock while
 the background run stops

---
 py/wrapper/yadeWrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 4a20804..94e8ef8 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -702,7 +702,7 @@ class pyOmega{
 		return OMEGA.memSavedSimulations[":memory:"+mark];
 	}
 
-	void reset(){OMEGA.stop(); OMEGA.reset(); }
+	void reset(){Py_BEGIN_ALLOW_THREADS; OMEGA.stop(); Py_END_ALLOW_THREADS; OMEGA.reset(); }
 	void resetThisScene(){Py_BEGIN_ALLOW_THREADS; OMEGA.stop(); Py_END_ALLOW_THREADS; OMEGA.resetCurrentScene(); OMEGA.createSimulationLoop();}
 	void resetCurrentScene(){Py_BEGIN_ALLOW_THREADS; OMEGA.stop(); Py_END_ALLOW_THREADS; OMEGA.resetCurrentScene(); OMEGA.createSimulationLoop();}
 	void resetTime(){ OMEGA.getScene()->iter=0; OMEGA.getScene()->time=0; OMEGA.timeInit(); }
@@ -713,7 +713,7 @@ class pyOmega{
 	
 	// Scene manipulation in multithread situations as python object or as a string (e.g. FEMxDEM, MPI, ...)
 	shared_ptr<Scene> scene_get(){ return OMEGA.getScene(); }
-	void scene_set(const shared_ptr<Scene>& source){ Py_BEGIN_ALLOW_THREADS; reset(); Py_END_ALLOW_THREADS; assertScene(); OMEGA.setScene(source); }
+	void scene_set(const shared_ptr<Scene>& source){ reset(); assertScene(); OMEGA.setScene(source); }
 	
 	string sceneToString(){
 		ostringstream oss;
-- 
2.43.0


From cd5e7450f5192249e361d3da393e57a9c5fe8c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:00 +0000
Subject: [PATCH 033/166] fix: O.tmpToFile takes (file, mark) as documented and
 compresses .gz

---
 py/wrapper/yadeWrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 94e8ef8..8cc8a43 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -688,10 +688,11 @@ class pyOmega{
 	void saveTmp(string mark="", bool quiet=false){ save(":memory:"+mark,quiet);}
 	void loadTmp(string mark="", bool quiet=false){ load(":memory:"+mark,quiet);}
 	py::list lsTmp(){ py::list ret; typedef pair<std::string,string> strstr; FOREACH(const strstr& sim,OMEGA.memSavedSimulations){ string mark=sim.first; boost::algorithm::replace_first(mark,":memory:",""); ret.append(mark); } return ret; }
-	void tmpToFile(string mark, string filename){
+	void tmpToFile(string filename, string mark=""){
 		if(OMEGA.memSavedSimulations.count(":memory:"+mark)==0) throw runtime_error("No memory-saved simulation named "+mark);
 		boost::iostreams::filtering_ostream out;
 		if(boost::algorithm::ends_with(filename,".bz2")) out.push(boost::iostreams::bzip2_compressor());
+		if(boost::algorithm::ends_with(filename,".gz")) out.push(boost::iostreams::gzip_compressor());
 		out.push(boost::iostreams::file_sink(filename));
 		if(!out.good()) throw runtime_error("Error while opening file `"+filename+"' for writing.");
 		LOG_INFO("Saving :memory:"<<mark<<" to "<<filename);
-- 
2.43.0


From e2139a8c0dbc070617f89bb2848a58243a45a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:00 +0000
Subject: [PATCH 034/166] fix: errors of the background run reach O.wait(),
 which also waits for the step under way

---
 core/ThreadRunner.cpp      |  14 +++-
 core/ThreadRunner.hpp      | 162 +++++++++++++++++++------------------
 py/wrapper/yadeWrapper.cpp |   8 +-
 3 files changed, 101 insertions(+), 83 deletions(-)

diff --git a/core/ThreadRunner.cpp b/core/ThreadRunner.cpp
index 621a911..5674180 100644
--- a/core/ThreadRunner.cpp
+++ b/core/ThreadRunner.cpp
@@ -16,10 +16,14 @@
 
 CREATE_LOGGER(ThreadRunner);
 
+namespace { struct ThreadCount { std::atomic<int>& n; ~ThreadCount(){ n--; } }; }
+
 void ThreadRunner::run()
 {
+	ThreadCount count{m_threads}; // this object may be destroyed once it goes out of scope
 	// this is the body of execution of separate thread
 	boost::mutex::scoped_lock lock(m_runmutex);
+	{ boost::mutex::scoped_lock boollock(m_boolmutex); m_runThread=boost::this_thread::get_id(); }
 	try{
 		workerThrew=false;
 		while(looping()) {
@@ -28,7 +32,7 @@ void ThreadRunner::run()
 		}
 	} catch (std::exception& e){
 		LOG_FATAL("Exception occured: "<<std::endl<<e.what());
-		workerException=std::exception(e); workerThrew=true;
+		workerError=e.what(); workerThrew=true;
 		stop(); return;
 	}
 }
@@ -72,6 +76,7 @@ void ThreadRunner::start()
 	boost::mutex::scoped_lock lock(m_boolmutex);
 	if(m_looping) return;
 	m_looping=true;
+	m_threads++;
 	boost::function0<void> run( boost::bind( &ThreadRunner::run , this ) );
 	boost::thread th(run);
 }
@@ -83,6 +88,12 @@ void ThreadRunner::stop()
 	m_looping=false;
 }
 
+void ThreadRunner::waitUntilFinished()
+{
+	{ boost::mutex::scoped_lock lock(m_boolmutex); if(m_runThread==boost::this_thread::get_id()) return; }
+	while(m_threads>0) boost::this_thread::sleep(boost::posix_time::milliseconds(1));
+}
+
 bool ThreadRunner::looping()
 {
 	boost::mutex::scoped_lock lock(m_boolmutex);
@@ -92,6 +103,7 @@ bool ThreadRunner::looping()
 ThreadRunner::~ThreadRunner()
 {
 	pleaseTerminate();
+	waitUntilFinished(); // also threads which were not scheduled yet
 	boost::mutex::scoped_lock runlock(m_runmutex);
 	boost::mutex::scoped_lock calllock(m_callmutex);
 }
diff --git a/core/ThreadRunner.hpp b/core/ThreadRunner.hpp
index 7ea2004..7398277 100644
--- a/core/ThreadRunner.hpp
+++ b/core/ThreadRunner.hpp
@@ -1,78 +1,84 @@
-/*************************************************************************
-*  Copyright (C) 2006 by Janek Kozicki                                   *
-*  cosurgi@berlios.de                                                    *
-*                                                                        *
-*  This program is free software; it is licensed under the terms of the  *
-*  GNU General Public License v2 or later. See file LICENSE for details. *
-*************************************************************************/
-
-#pragma once
-
-#include <boost/thread/mutex.hpp>
-
-/*! 
-\brief	ThreadRunner takes care of starting/stopping (executing) the
-	ThreadWorker in the separate thread. 
-
-	It is achieved by either:
-	- one execution of { ThreadWorker::singleAction(); } in separate thread
-	- a loop { while(looping() ) ThreadWorker::singleAction(); } in separate thread
-
-	Lifetime of ThreadRunner is guaranteed to be longer or equal to
-	the lifetime of	the separate thread of execution.
-
-	The ThreadRunner owner must make sure that ThreadWorker has longer or
-	equal lifetime than instance of ThreadRunner. Otherwise ThreadRunner
-	will try to execute a dead object, which will lead to crash.
-
-	Do not destroy immediately after call to singleAction(). Destructor can
-	kick in before a separate thread starts, which will lead to a crash.
-
-	User can explicitly ask the running thread to terminate execution. If
-	the thread supports it, it will terminate.
-
-\note	This code is reentrant. Simultaneous requests from other threads to
-	start/stop or perform singleAction() are expected.
-	   
-	So ThreadWorker(s) are running, while the user is interacting with the
-	UI frontend (doesn't matter whether the UI is graphical, ncurses or
-	any other).
-
- */
-
-class ThreadWorker;
-
-class ThreadRunner
-{
-	private :
-		ThreadWorker*	m_thread_worker;
-		bool		m_looping;
-		boost::mutex	m_boolmutex;
-		boost::mutex	m_callmutex;
-		boost::mutex	m_runmutex;
-		void		run();
-		void		call();
-
-		DECLARE_LOGGER;
-
-	public :
-		ThreadRunner(ThreadWorker* c) : m_thread_worker(c), m_looping(false), workerThrew(false) {};
-		~ThreadRunner();
-
-		/// perform ThreadWorker::singleAction() in separate thread
-		void spawnSingleAction();
-		/// start doing singleAction() in a loop in separate thread
-		void start();
-		/// stop the loop (changes the flag checked by looping() )
-		void stop();
-		/// kindly ask the separate thread to terminate
-		void pleaseTerminate();
-		/// precondition for the loop started with start().
-		bool looping();
-		//! if true, workerException is copy of the exception thrown by the worker
-		bool workerThrew;
-		//! last exception thrown by the worker, if any
-		std::exception workerException;
-};
-
-
+/*************************************************************************
+*  Copyright (C) 2006 by Janek Kozicki                                   *
+*  cosurgi@berlios.de                                                    *
+*                                                                        *
+*  This program is free software; it is licensed under the terms of the  *
+*  GNU General Public License v2 or later. See file LICENSE for details. *
+*************************************************************************/
+
+#pragma once
+
+#include <atomic>
+#include <boost/thread/mutex.hpp>
+#include <boost/thread/thread.hpp>
+
+/*! 
+\brief	ThreadRunner takes care of starting/stopping (executing) the
+	ThreadWorker in the separate thread. 
+
+	It is achieved by either:
+	- one execution of { ThreadWorker::singleAction(); } in separate thread
+	- a loop { while(looping() ) ThreadWorker::singleAction(); } in separate thread
+
+	Lifetime of ThreadRunner is guaranteed to be longer or equal to
+	the lifetime of	the separate thread of execution.
+
+	The ThreadRunner owner must make sure that ThreadWorker has longer or
+	equal lifetime than instance of ThreadRunner. Otherwise ThreadRunner
+	will try to execute a dead object, which will lead to crash.
+
+	Do not destroy immediately after call to singleAction(). Destructor can
+	kick in before a separate thread starts, which will lead to a crash.
+
+	User can explicitly ask the running thread to terminate execution. If
+	the thread supports it, it will terminate.
+
+\note	This code is reentrant. Simultaneous requests from other threads to
+	start/stop or perform singleAction() are expected.
+	   
+	So ThreadWorker(s) are running, while the user is interacting with the
+	UI frontend (doesn't matter whether the UI is graphical, ncurses or
+	any other).
+
+ */
+
+class ThreadWorker;
+
+class ThreadRunner
+{
+	private :
+		ThreadWorker*	m_thread_worker;
+		bool		m_looping;
+		boost::mutex	m_boolmutex;
+		boost::mutex	m_callmutex;
+		boost::mutex	m_runmutex;
+		boost::thread::id	m_runThread;
+		std::atomic<int>	m_threads; // number of threads which were started and did not finish yet
+		void		run();
+		void		call();
+
+		DECLARE_LOGGER;
+
+	public :
+		ThreadRunner(ThreadWorker* c) : m_thread_worker(c), m_looping(false), m_threads(0), workerThrew(false) {};
+		~ThreadRunner();
+
+		/// perform ThreadWorker::singleAction() in separate thread
+		void spawnSingleAction();
+		/// start doing singleAction() in a loop in separate thread
+		void start();
+		/// stop the loop (changes the flag checked by looping() )
+		void stop();
+		/// kindly ask the separate thread to terminate
+		void pleaseTerminate();
+		/// wait until the step under way when the loop was stopped is finished (does nothing inside the loop itself)
+		void waitUntilFinished();
+		/// precondition for the loop started with start().
+		bool looping();
+		//! if true, the worker threw an exception with the message workerError
+		bool workerThrew;
+		//! message of the last exception thrown by the worker, if any
+		std::string workerError;
+};
+
+
diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 8cc8a43..68ddac6 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -671,10 +671,10 @@ class pyOmega{
 	void pause(){Py_BEGIN_ALLOW_THREADS; OMEGA.pause(); Py_END_ALLOW_THREADS; LOG_DEBUG("PAUSE!");}
 	void step() { if(OMEGA.isRunning()) throw runtime_error("Called O.step() while simulation is running."); OMEGA.getScene()->moveToNextTimeStep(); /* LOG_DEBUG("STEP!"); run(1); wait(); */ }
 	void wait(){
-		if(OMEGA.isRunning()){LOG_DEBUG("WAIT!");} else return;
-		timespec t1,t2; t1.tv_sec=0; t1.tv_nsec=40000000; /* 40 ms */ Py_BEGIN_ALLOW_THREADS; while(OMEGA.isRunning()) nanosleep(&t1,&t2); Py_END_ALLOW_THREADS;
-		if(!OMEGA.simulationLoop->workerThrew) return;
-		LOG_ERROR("Simulation error encountered."); OMEGA.simulationLoop->workerThrew=false; throw OMEGA.simulationLoop->workerException;
+		if(OMEGA.isRunning()){LOG_DEBUG("WAIT!");}
+		timespec t1,t2; t1.tv_sec=0; t1.tv_nsec=40000000; /* 40 ms */ Py_BEGIN_ALLOW_THREADS; while(OMEGA.isRunning()) nanosleep(&t1,&t2); if(OMEGA.simulationLoop) OMEGA.simulationLoop->waitUntilFinished(); Py_END_ALLOW_THREADS;
+		if(!OMEGA.simulationLoop || !OMEGA.simulationLoop->workerThrew) return;
+		LOG_ERROR("Simulation error encountered."); OMEGA.simulationLoop->workerThrew=false; throw std::runtime_error(OMEGA.simulationLoop->workerError);
 	}
 	bool isRunning(){ return OMEGA.isRunning(); }
 	py::object get_filename(){ string f=OMEGA.sceneFile; if(f.size()>0) return py::object(f); return py::object();}
-- 
2.43.0


From a55fd0f2cd79ce19b82b481d825a62da49eb149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:01 +0000
Subject: [PATCH 035/166] fix: stopAtTime keeps fractions of a second and stops
 when the time is first reached

---
 core/SimulationFlow.cpp    | 3 ++-
 py/wrapper/yadeWrapper.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/SimulationFlow.cpp b/core/SimulationFlow.cpp
index c91a742..0903ef5 100644
--- a/core/SimulationFlow.cpp
+++ b/core/SimulationFlow.cpp
@@ -21,8 +21,9 @@ void SimulationFlow::singleAction()
 		LOG_INFO("Sub-stepping disabled when running simulation continuously.");
 		scene->subStepping=false;
 	}
+	const Real prevTime=scene->time;
 	scene->moveToNextTimeStep();
 	if(scene->stopAtIter>0 && scene->iter==scene->stopAtIter) setTerminate(true);
-	if(scene->stopAtTime>0 && scene->time==scene->stopAtTime) setTerminate(true);
+	if(scene->stopAtTime>0 && prevTime<scene->stopAtTime && scene->time>=scene->stopAtTime) setTerminate(true);
 };
 
diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 68ddac6..de41d72 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -650,7 +650,7 @@ class pyOmega{
 	long stopAtIter_get(){return OMEGA.getScene()->stopAtIter; }
 	void stopAtIter_set(long s){OMEGA.getScene()->stopAtIter=s; }
 	Real stopAtTime_get(){return OMEGA.getScene()->stopAtTime; }
-	void stopAtTime_set(long s){OMEGA.getScene()->stopAtTime=s; }
+	void stopAtTime_set(Real s){OMEGA.getScene()->stopAtTime=s; }
 
 
 	bool timingEnabled_get(){return TimingInfo::enabled;}
-- 
2.43.0


From 4f065776e5850ae9368d1dc18370f3c91018a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:01 +0000
Subject: [PATCH 036/166] fix: initialise Scene::SpeedElements

---
 core/Scene.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Scene.hpp b/core/Scene.hpp
index 005e432..fe41f0d 100644
--- a/core/Scene.hpp
+++ b/core/Scene.hpp
@@ -109,7 +109,7 @@ class Scene: public Serializable{
 		/*ctor*/
 			fillDefaultTags();
 			interactions->postLoad__calledFromScene(bodies);
-			SpeedElements.Zero();
+			SpeedElements.setZero();
 		,
 		/* py */
 	);
-- 
2.43.0


From 7634140acc75615fedc01cca5da673554f1f0975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:01 +0000
Subject: [PATCH 037/166] fix: Collider::mayCollide checks for missing bodies
 before using them

---
 pkg/common/Collider.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/common/Collider.cpp b/pkg/common/Collider.cpp
index 26bfc86..e18c25b 100644
--- a/pkg/common/Collider.cpp
+++ b/pkg/common/Collider.cpp
@@ -19,11 +19,11 @@ bool Collider::mayCollide(const Body* b1, const Body* b2
 		#endif 
 		) {
 	return 
+		// might be called with deleted bodies, i.e. NULL pointers
+		(b1!=NULL && b2!=NULL) &&
 		#ifdef YADE_MPI //skip interactions outside subdomain, and between the subdomain and its own bodies
 		((subdomain==b1->subdomain or subdomain==b2->subdomain) and not (b1->subdomain==b2->subdomain and (b1->getIsSubdomain() or b2->getIsSubdomain()))) &&
 		#endif 
-		// might be called with deleted bodies, i.e. NULL pointers
-		(b1!=NULL && b2!=NULL) &&
 		// only collide if at least one particle is standalone or they belong to different clumps
 		(b1->isStandalone() || b2->isStandalone() || b1->clumpId!=b2->clumpId 
 		#ifdef YADE_SPH
-- 
2.43.0


From db85ba26ac72d283ec2f11c50bc8d280aed68789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:01 +0000
Subject: [PATCH 038/166] fix: permanent forces are saved with the scene

---
 core/Scene.cpp | 18 ++++++++++++++++++
 core/Scene.hpp |  4 ++++
 2 files changed, 22 insertions(+)

diff --git a/core/Scene.cpp b/core/Scene.cpp
index c0ff851..87e7e82 100644
--- a/core/Scene.cpp
+++ b/core/Scene.cpp
@@ -57,7 +57,25 @@ void Scene::fillDefaultTags(){
 	// tags.push_back("revision="+py::extract<string>(py::import("yade.config").attr("revision"))());;
 }
 
+void Scene::preSave(Scene&){
+	_permForces.clear(); _permTorques.clear();
+	if(!forces.getPermForceUsed()) return;
+	forces.sync();
+	for(size_t id=0; id<bodies->size(); id++){
+		_permForces.push_back(forces.getPermForce(id));
+		_permTorques.push_back(forces.getPermTorque(id));
+	}
+}
+
+void Scene::postSave(Scene&){ _permForces.clear(); _permTorques.clear(); }
+
 void Scene::postLoad(Scene&){
+	nextEnginesSet=!_nextEngines.empty();
+	for(size_t id=0; id<_permForces.size(); id++){
+		if(_permForces[id]!=Vector3r::Zero()) forces.setPermForce(id,_permForces[id]);
+		if(_permTorques[id]!=Vector3r::Zero()) forces.setPermTorque(id,_permTorques[id]);
+	}
+	_permForces.clear(); _permTorques.clear();
 	// update the interaction container; must be done in Scene ctor as well; important!
 	interactions->postLoad__calledFromScene(bodies);
 
diff --git a/core/Scene.hpp b/core/Scene.hpp
index fe41f0d..c9bb44e 100644
--- a/core/Scene.hpp
+++ b/core/Scene.hpp
@@ -69,6 +69,8 @@ class Scene: public Serializable{
 			shared_ptr<OpenGLRenderer> renderer;
 		#endif
 
+		void preSave(Scene&);
+		void postSave(Scene&);
 		void postLoad(Scene&);
 
 		bool nextEnginesSet=false; // whether _nextEngines (which may be empty) replace engines at the beginning of the next step
@@ -104,6 +106,8 @@ class Scene: public Serializable{
 
 		((shared_ptr<Cell>,cell,new Cell,Attr::hidden,"Information on periodicity; only should be used if Scene::isPeriodic."))
 		((vector<shared_ptr<Serializable> >,miscParams,,Attr::hidden,"Store for arbitrary Serializable objects; will set static parameters during deserialization (primarily for GLDraw functors which otherwise have no attribute access)"))
+		((vector<Vector3r>,_permForces,,Attr::hidden,"Permanent forces of bodies; only filled while saving and loading, they are kept in Scene::forces otherwise."))
+		((vector<Vector3r>,_permTorques,,Attr::hidden,"Permanent torques of bodies; only filled while saving and loading, they are kept in Scene::forces otherwise."))
 		((vector<shared_ptr<DisplayParameters> >,dispParams,,Attr::hidden,"'hash maps' of display parameters (since yade::serialization had no support for maps, emulate it via vector of strings in format key=value)"))
 		,
 		/*ctor*/
-- 
2.43.0


From 36d7b2f16e78e3152cf99da21f342c99a4dc7a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:01 +0000
Subject: [PATCH 039/166] fix: Omega looks bodies up by id

---
 core/Omega.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Omega.cpp b/core/Omega.cpp
index 6ee1d41..0106418 100644
--- a/core/Omega.cpp
+++ b/core/Omega.cpp
@@ -251,7 +251,7 @@ void Omega::loadSimulation(const string& f, bool quiet){
 	//Add zero-force to the youngest body to be sure ForceContainer is large enough.
 	const int _sz = scene->bodies->size();
 	for(Body::id_t _id=0; _id<_sz; _id++) {
-		if((&scene->bodies)[_id]) {
+		if((*scene->bodies)[_id]) {
 			scene->forces.addForce(_id, Vector3r::Zero());
 			break;
 		}
-- 
2.43.0


From 8d22e8d26b8cd37f9de1b7c95250397484d42c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:01 +0000
Subject: [PATCH 040/166] fix: save Interaction::isActive

---
 core/Interaction.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/Interaction.hpp b/core/Interaction.hpp
index f32a1d4..b19b283 100644
--- a/core/Interaction.hpp
+++ b/core/Interaction.hpp
@@ -19,7 +19,6 @@ class Interaction: public Serializable{
 		bool isReal() const {return (bool)geom && (bool)phys;}
 		//! If this interaction was just created in this step (for the constitutive law, to know that it is the first time there)
 		bool isFresh(Scene* rb);
-		bool isActive;
 
 		Interaction(Body::id_t newId1,Body::id_t newId2);
 
@@ -56,11 +55,11 @@ class Interaction: public Serializable{
 		((Vector3i,cellDist,Vector3i(0,0,0),,"Distance of bodies in cell size units, if using periodic boundary conditions; id2 is shifted by this number of cells from its :yref:`State::pos` coordinates for this interaction to exist. Assigned by the collider.\n\n.. warning::\n\t(internal)  cellDist must survive Interaction::reset(), it is only initialized in ctor. Interaction that was cancelled by the constitutive law, was reset() and became only potential must have thepriod information if the geometric functor again makes it real. Good to know after few days of debugging that :-)"))
 		((int,linIx,-1,(Attr::noSave|Attr::hidden),"Index in the linear interaction container. For internal use by InteractionContainer only."))
 		((long,iterBorn,-1,,"Step number at which the interaction was added to simulation."))
+		((bool,isActive,true,,"True if this interaction is active. Otherwise the forces from this interaction will not be taken into account. True by default."))
 		,
 		/* ctor */ init(),
 		/*py*/
 		.add_property("isReal",&Interaction::isReal,"True if this interaction has both geom and phys; False otherwise.")
-		.def_readwrite("isActive",&Interaction::isActive,"True if this interaction is active. Otherwise the forces from this interaction will not be taken into account. True by default.")
 	);
 };
 
-- 
2.43.0


From 0c4adc78fa4024fa9dd18d30025fa8a2898537d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:01 +0000
Subject: [PATCH 041/166] fix: interactions keep iterBorn when loaded

---
 core/InteractionContainer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 76c8283..d0cb937 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -155,7 +155,8 @@ void InteractionContainer::postLoad__calledFromScene(const shared_ptr<BodyContai
 		if (!(*bodies)[id1] || !(*bodies)[id2]) {
 			continue;
 		} else {
-			insert(I);
+			const long iterBorn=I->iterBorn;
+			if(insert(I)) I->iterBorn=iterBorn; // set to the current step by insert
 		}
 	}
 	interaction.clear();
-- 
2.43.0


From 5c4057bca9c8abd7d4a78b5a176e764582401989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:01 +0000
Subject: [PATCH 042/166] fix: save NewtonIntegrator::densityScaling

---
 pkg/dem/NewtonIntegrator.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/dem/NewtonIntegrator.hpp b/pkg/dem/NewtonIntegrator.hpp
index e8b896e..83dacd2 100644
--- a/pkg/dem/NewtonIntegrator.hpp
+++ b/pkg/dem/NewtonIntegrator.hpp
@@ -48,7 +48,6 @@ class NewtonIntegrator : public FieldApplier{
 	Vector3r dSpin;
 
 	public:
-		bool densityScaling;// internal for density scaling
 		Real updatingDispFactor;//(experimental) Displacement factor used to trigger bound update: the bound is updated only if updatingDispFactor*disp>sweepDist when >0, else all bounds are updated.
 		// function to save maximum velocity, for the verlet-distance optimization
 		void saveMaximaVelocity(const Body::id_t& id, State* state);
@@ -77,10 +76,10 @@ class NewtonIntegrator : public FieldApplier{
 		((int,kinEnergyIx,-1,(Attr::hidden|Attr::noSave),"Index for kinetic energy in scene->energies."))
 		((int,kinEnergyTransIx,-1,(Attr::hidden|Attr::noSave),"Index for translational kinetic energy in scene->energies."))
 		((int,kinEnergyRotIx,-1,(Attr::hidden|Attr::noSave),"Index for rotational kinetic energy in scene->energies."))
+		((bool,densityScaling,false,Attr::hidden,"internal for density scaling"))
 		((int,mask,-1,,"If mask defined and the bitwise AND between mask and body`s groupMask gives 0, the body will not move/rotate. Velocities and accelerations will be calculated not paying attention to this parameter."))
 		,
 		/*ctor*/
-			densityScaling=false;
 			#ifdef YADE_OPENMP
 				threadMaxVelocitySq.resize(omp_get_max_threads()); syncEnsured=false;
 			#endif
-- 
2.43.0


From d811f9e8dc7522d76a5f76bce6e9b570db2063a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 043/166] fix: save the history of CpmPhys contacts

---
 pkg/dem/ConcretePM.hpp | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/pkg/dem/ConcretePM.hpp b/pkg/dem/ConcretePM.hpp
index 2c9702d..f0d5006 100644
--- a/pkg/dem/ConcretePM.hpp
+++ b/pkg/dem/ConcretePM.hpp
@@ -139,10 +139,6 @@ REGISTER_SERIALIZABLE(CpmMat);
 class CpmPhys: public NormShearPhys {
 	public:
 		static long cummBetaIter, cummBetaCount;
-		/*! auxiliary variable for visualization, recalculated in Law2_ScGeom_CpmPhys_Cpm at every iteration */
-		// Fn and Fs are also stored as Vector3r normalForce, shearForce in NormShearPhys 
-		Real omega = 0, Fn = 0, sigmaN, epsN = 0, relResidualStrength, kappaD = 0, epsNPl = 0;
-		Vector3r sigmaT, Fs, epsTPl, epsT;
 
 		static Real solveBeta(const Real c, const Real N);
 		Real computeDmgOverstress(Real dt);
@@ -157,7 +153,6 @@ class CpmPhys: public NormShearPhys {
 		void setRelResidualStrength(Real r);
 
 		virtual ~CpmPhys();
-		#define _ZERO_VECTOR3R(v) v = Vector3r::Zero()
 		YADE_CLASS_BASE_DOC_ATTRS_CTOR_PY(CpmPhys,NormShearPhys,"Representation of a single interaction of the Cpm type: storage for relevant parameters.\n\n Evolution of the contact is governed by :yref:`Law2_ScGeom_CpmPhys_Cpm`, that includes damage effects and chages of parameters inside CpmPhys. See :yref:`cpm-model<CpmMat>` for details.",
 			((Real,E,NaN,,"normal modulus (stiffness / crossSection) [Pa]"))
 			((Real,G,NaN,,"shear modulus [Pa]"))
@@ -181,22 +176,21 @@ class CpmPhys: public NormShearPhys {
 			((int,damLaw,1,,"Law for softening part of uniaxial tension. 0 for linear, 1 for exponential (default)"))
 			//((Real,epsPlSum,0,,"cummulative shear plastic strain measure (scalar) on this contact"))
 			((bool,isCohesive,false,,"if not cohesive, interaction is deleted when distance is greater than zero."))
+			// history and output of the contact law; Fn and Fs are also stored as Vector3r normalForce, shearForce in NormShearPhys
+			((Real,omega,0,Attr::readonly,"Damage internal variable |yupdate|"))
+			((Real,Fn,0,Attr::readonly,"Magnitude of normal force |yupdate|"))
+			((Vector3r,Fs,Vector3r::Zero(),Attr::readonly,"Magnitude of shear force |yupdate|"))
+			((Real,epsN,0,Attr::readonly,"Current normal strain |yupdate|"))
+			((Vector3r,epsT,Vector3r::Zero(),Attr::readonly,"Current shear strain |yupdate|"))
+			((Real,sigmaN,0,Attr::readonly,"Current normal stress |yupdate|"))
+			((Vector3r,sigmaT,Vector3r::Zero(),Attr::readonly,"Current shear stress |yupdate|"))
+			((Real,kappaD,0,Attr::readonly,"Up to now maximum normal strain (semi-norm), non-decreasing in time |yupdate|"))
+			((Real,epsNPl,0,Attr::readonly,"normal plastic strain (initially zero) |yupdate|"))
+			((Vector3r,epsTPl,Vector3r::Zero(),Attr::readonly,"shear plastic strain (initially zero) |yupdate|"))
+			((Real,relResidualStrength,0,Attr::readonly,"Relative residual strength |yupdate|"))
 			, // ctors
 			createIndex();
-			epsN = 0;
-			_ZERO_VECTOR3R(epsT); _ZERO_VECTOR3R(Fs); _ZERO_VECTOR3R(epsTPl);
 			,
-			.def_readonly("omega",&CpmPhys::omega,"Damage internal variable |yupdate|")
-			.def_readonly("Fn",&CpmPhys::Fn,"Magnitude of normal force |yupdate|")
-			.def_readonly("Fs",&CpmPhys::Fs,"Magnitude of shear force |yupdate|")
-			.def_readonly("epsN",&CpmPhys::epsN,"Current normal strain |yupdate|")
-			.def_readonly("epsT",&CpmPhys::epsT,"Current shear strain |yupdate|")
-			.def_readonly("sigmaN",&CpmPhys::sigmaN,"Current normal stress |yupdate|")
-			.def_readonly("sigmaT",&CpmPhys::sigmaT,"Current shear stress |yupdate|")
-			.def_readonly("kappaD",&CpmPhys::kappaD,"Up to now maximum normal strain (semi-norm), non-decreasing in time |yupdate|")
-			.def_readonly("epsNPl",&CpmPhys::epsNPl,"normal plastic strain (initially zero) |yupdate|")
-			.def_readonly("epsTPl",&CpmPhys::epsTPl,"shear plastic strain (initially zero) |yupdate|")
-			.def_readonly("relResidualStrength",&CpmPhys::relResidualStrength,"Relative residual strength |yupdate|")
 			.def_readonly("cummBetaIter",&CpmPhys::cummBetaIter,"Cummulative number of iterations inside CpmMat::solveBeta (for debugging).")
 			.def_readonly("cummBetaCount",&CpmPhys::cummBetaCount,"Cummulative number of calls of CpmMat::solveBeta (for debugging).")
 			.def("funcG",&CpmPhys::funcG,(py::arg("kappaD"),py::arg("epsCrackOnset"),py::arg("epsFracture"),py::arg("neverDamage")=false,py::arg("damLaw")=1),"Damage evolution law, evaluating the $\\omega$ parameter. $\\kappa_D$ is historically maximum strain, *epsCrackOnset* ($\\varepsilon_0$) = :yref:`CpmPhys.epsCrackOnset`, *epsFracture* = :yref:`CpmPhys.epsFracture`; if *neverDamage* is ``True``, the value returned will always be 0 (no damage). TODO")
@@ -206,7 +200,6 @@ class CpmPhys: public NormShearPhys {
 			.def("setDamage",&CpmPhys::setDamage,"TODO")
 			.def("setRelResidualStrength",&CpmPhys::setRelResidualStrength,"TODO")
 		);
-		#undef _ZERO_VECTOR3R
 	DECLARE_LOGGER;
 	REGISTER_CLASS_INDEX(CpmPhys,NormShearPhys);
 };
-- 
2.43.0


From 54d1f5e6787b148c8fbb85bfbad68c0c5f459ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 044/166] fix: save MortarPhys stresses

---
 pkg/dem/MortarMat.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/dem/MortarMat.hpp b/pkg/dem/MortarMat.hpp
index 7312190..60225dc 100644
--- a/pkg/dem/MortarMat.hpp
+++ b/pkg/dem/MortarMat.hpp
@@ -41,8 +41,6 @@ REGISTER_SERIALIZABLE(MortarMat);
 
 class MortarPhys: public FrictPhys {
 	public:
-		Real sigmaN;
-		Vector3r sigmaT;
 		virtual ~MortarPhys();
 		bool failureCondition(Real sigmaN, Real sigmaT);
 		YADE_CLASS_BASE_DOC_ATTRS_CTOR_PY(MortarPhys,FrictPhys,"IPhys class containing parameters of MortarMat. Used by Law2_ScGeom_MortarPhys_Lourenco.",
@@ -52,11 +50,11 @@ class MortarPhys: public FrictPhys {
 			((Real,ellAspect,NaN,,"aspect ratio of elliptical 'cap'. Value >1 means the ellipse is longer along normal stress axis."))
 			((Real,crossSection,NaN,,"Crosssection of interaction"))
 			((bool,neverDamage,false,,"If true, interactions remain elastic regardless stresses"))
+			((Real,sigmaN,0,Attr::readonly,"Current normal stress |yupdate|"))
+			((Vector3r,sigmaT,Vector3r::Zero(),Attr::readonly,"Current shear stress |yupdate|"))
 			, // ctors
 			createIndex();
 			,
-			.def_readonly("sigmaN",&MortarPhys::sigmaN,"Current normal stress |yupdate|")
-			.def_readonly("sigmaT",&MortarPhys::sigmaT,"Current shear stress |yupdate|")
 			.def("failureCondition",&MortarPhys::failureCondition,"Failure condition from normal stress and norm of shear stress (false=elastic, true=damaged)")
 		);
 		DECLARE_LOGGER;
-- 
2.43.0


From dce306616d28d4dd3c0cfdfc902784f87f5c8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 045/166] fix: the bubble law has its constant also after
 loading

---
 pkg/dem/BubbleMat.cpp | 2 +-
 pkg/dem/BubbleMat.hpp | 4 ----
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/dem/BubbleMat.cpp b/pkg/dem/BubbleMat.cpp
index 0c8ba32..899c6b8 100644
--- a/pkg/dem/BubbleMat.cpp
+++ b/pkg/dem/BubbleMat.cpp
@@ -68,8 +68,8 @@ bool Law2_ScGeom_BubblePhys_Bubble::go(shared_ptr<IGeom>& _geom, shared_ptr<IPhy
 		return false;
 	}
 	
+	const Real c1 = 2*Mathr::PI*surfaceTension;
 	if (I->isFresh(scene)) {
-		c1 = 2*Mathr::PI*surfaceTension;
 		phys->rAvg = .5*(geom->refR1 + geom->refR2);
 		phys->computeCoeffs(pctMaxForce,surfaceTension,c1);
 	}
diff --git a/pkg/dem/BubbleMat.hpp b/pkg/dem/BubbleMat.hpp
index 096beed..93edf8a 100644
--- a/pkg/dem/BubbleMat.hpp
+++ b/pkg/dem/BubbleMat.hpp
@@ -69,10 +69,6 @@ REGISTER_SERIALIZABLE(Ip2_BubbleMat_BubbleMat_BubblePhys);
 
 /********************** Law2_ScGeom_BubblePhys_Bubble ****************************/
 class Law2_ScGeom_BubblePhys_Bubble : public LawFunctor{
-	private:
-	  
-	  Real c1; //Coeff used for many contacts
-  
 	public:
 	virtual bool go(shared_ptr<IGeom>& _geom, shared_ptr<IPhys>& _phys, Interaction* interaction);
 	FUNCTOR2D(GenericSpheresContact,BubblePhys);
-- 
2.43.0


From 4e23ff7cdcdafe370d3814ec142c2c0696208959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 046/166] fix: save GlobalStiffnessTimeStepper::computedOnce

---
 pkg/dem/GlobalStiffnessTimeStepper.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.hpp b/pkg/dem/GlobalStiffnessTimeStepper.hpp
index 94de675..e0a8715 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.hpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.hpp
@@ -29,8 +29,7 @@ class GlobalStiffnessTimeStepper : public TimeStepper
 		void computeStiffnesses(Scene*);
 
 		Real		newDt;
-		bool		computedSomething,
- 				computedOnce;
+		bool		computedSomething;
 		void findTimeStepFromBody(const shared_ptr<Body>& body, Scene * ncb);
 	
 	public :
@@ -46,8 +45,9 @@ class GlobalStiffnessTimeStepper : public TimeStepper
 			((Real,timestepSafetyCoefficient,0.8,,"safety factor between the minimum eigen-period and the final assigned dt (less than 1)"))
 			((bool,densityScaling,false,,"|yupdate| don't modify this value if you don't plan to modify the scaling factor manually for some bodies. In most cases, it is enough to set :yref:`NewtonIntegrator::densityScaling` and let this one be adjusted automatically."))
 			((Real,targetDt,1,,"if :yref:`NewtonIntegrator::densityScaling` is active, this value will be used as the simulation  timestep and the scaling will use this value of dt as the target value. The value of targetDt is arbitrary and should have no effect in the result in general. However if some bodies have imposed velocities, for instance, they will move more or less per each step depending on this value."))
-			((bool,viscEl,false,,"To use with :yref:`ViscElPhys`. if True, evaluate separetly the minimum eigen-period in the problem considering only the elastic contribution on one hand (spring only), and only the viscous contribution on the other hand (dashpot only). Take then the minimum of the two and use the safety coefficient :yref:`GlobalStiffnessTimestepper::timestepSafetyCoefficient` to take into account the possible coupling between the two contribution.")),
-			computedOnce=false;)
+			((bool,viscEl,false,,"To use with :yref:`ViscElPhys`. if True, evaluate separetly the minimum eigen-period in the problem considering only the elastic contribution on one hand (spring only), and only the viscous contribution on the other hand (dashpot only). Take then the minimum of the two and use the safety coefficient :yref:`GlobalStiffnessTimestepper::timestepSafetyCoefficient` to take into account the possible coupling between the two contribution."))
+			((bool,computedOnce,false,Attr::hidden,"whether some time-step was computed from the contacts already")),
+			/*ctor*/)
 		DECLARE_LOGGER;
 };
 
-- 
2.43.0


From 023b2ed7f5dd5ff0a24148539a582e6786f2a1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 047/166] fix: setCohesionNow survives saving and is not raced
 on by threads

---
 pkg/dem/CohesiveFrictionalContactLaw.cpp | 13 +++++++++----
 pkg/dem/CohesiveFrictionalContactLaw.hpp |  3 +--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/dem/CohesiveFrictionalContactLaw.cpp b/pkg/dem/CohesiveFrictionalContactLaw.cpp
index 005bb3d..f96ba9b 100644
--- a/pkg/dem/CohesiveFrictionalContactLaw.cpp
+++ b/pkg/dem/CohesiveFrictionalContactLaw.cpp
@@ -233,6 +233,8 @@ bool Law2_ScGeom6D_CohFrictPhys_CohesionMoment::go(shared_ptr<IGeom>& ig, shared
 }
 
 
+static boost::mutex cohesionDefinitionMutex;
+
 void Ip2_CohFrictMat_CohFrictMat_CohFrictPhys::go(const shared_ptr<Material>& b1    // CohFrictMat
                                         , const shared_ptr<Material>& b2 // CohFrictMat
                                         , const shared_ptr<Interaction>& interaction)
@@ -242,10 +244,13 @@ void Ip2_CohFrictMat_CohFrictMat_CohFrictPhys::go(const shared_ptr<Material>& b1
 	ScGeom6D* geom = YADE_CAST<ScGeom6D*>(interaction->geom.get());
 
 	//Create cohesive interractions only once
-	if (setCohesionNow && cohesionDefinitionIteration==-1) cohesionDefinitionIteration=scene->iter;
-	if (setCohesionNow && cohesionDefinitionIteration!=-1 && cohesionDefinitionIteration!=scene->iter) {
-		cohesionDefinitionIteration = -1;
-		setCohesionNow = 0;}
+	if (setCohesionNow) {
+		boost::mutex::scoped_lock lock(cohesionDefinitionMutex); // contacts are processed in parallel
+		if (setCohesionNow && cohesionDefinitionIteration==-1) cohesionDefinitionIteration=scene->iter;
+		if (setCohesionNow && cohesionDefinitionIteration!=-1 && cohesionDefinitionIteration!=scene->iter) {
+			cohesionDefinitionIteration = -1;
+			setCohesionNow = 0;}
+	}
 
 	if (geom) {
 		const auto normalAdhPreCalculated = (normalCohesion) ? (*normalCohesion)(b1->id,b2->id) : std::min(sdec1->normalCohesion,sdec2->normalCohesion);
diff --git a/pkg/dem/CohesiveFrictionalContactLaw.hpp b/pkg/dem/CohesiveFrictionalContactLaw.hpp
index 9d8016c..4418d5a 100644
--- a/pkg/dem/CohesiveFrictionalContactLaw.hpp
+++ b/pkg/dem/CohesiveFrictionalContactLaw.hpp
@@ -141,17 +141,16 @@ class Ip2_CohFrictMat_CohFrictMat_CohFrictPhys : public IPhysFunctor
 		virtual void go(	const shared_ptr<Material>& b1,
 					const shared_ptr<Material>& b2,
 					const shared_ptr<Interaction>& interaction);
-		int cohesionDefinitionIteration;
 
 		YADE_CLASS_BASE_DOC_ATTRS_CTOR(Ip2_CohFrictMat_CohFrictMat_CohFrictPhys,IPhysFunctor,
 		"Generates cohesive-frictional interactions with moments, used in the contact law :yref:`Law2_ScGeom6D_CohFrictPhys_CohesionMoment`. The normal/shear stiffness and friction definitions are the same as in :yref:`Ip2_FrictMat_FrictMat_FrictPhys`, check the documentation there for details.\n\nAdhesions related to the normal and the shear components are calculated from :yref:`CohFrictMat::normalCohesion` ($C_n$) and :yref:`CohFrictMat::shearCohesion` ($C_s$). For particles of size $R_1$,$R_2$ the adhesion will be $a_i=C_i min(R_1,R_2)^2$, $i=n,s$.\n\nTwist and rolling stiffnesses are proportional to the shear stiffness through dimensionless factors alphaKtw and alphaKr, such that the rotational stiffnesses are defined by $k_s \\alpha_i R_1 R_2$, $i=tw\\,r$",
 		((bool,setCohesionNow,false,,"If true, assign cohesion to all existing contacts in current time-step. The flag is turned false automatically, so that assignment is done in the current timestep only."))
+		((long,cohesionDefinitionIteration,-1,Attr::hidden,"Step in which :yref:`setCohesionNow<Ip2_CohFrictMat_CohFrictMat_CohFrictPhys.setCohesionNow>` takes effect, -1 if unset."))
 		((bool,setCohesionOnNewContacts,false,,"If true, assign cohesion at all new contacts. If false, only existing contacts can be cohesive (also see :yref:`Ip2_CohFrictMat_CohFrictMat_CohFrictPhys::setCohesionNow`), and new contacts are only frictional."))	
 		((shared_ptr<MatchMaker>,normalCohesion,,,"Instance of :yref:`MatchMaker` determining tensile strength"))
 		((shared_ptr<MatchMaker>,shearCohesion,,,"Instance of :yref:`MatchMaker` determining cohesive part of the shear strength (a frictional term might be added depending on :yref:`CohFrictPhys::cohesionDisablesFriction`)"))
 		((shared_ptr<MatchMaker>,frictAngle,,,"Instance of :yref:`MatchMaker` determining how to compute interaction's friction angle. If ``None``, minimum value is used."))
 		,
-		cohesionDefinitionIteration = -1;
 		);
 	FUNCTOR2D(CohFrictMat,CohFrictMat);
 };
-- 
2.43.0


From 1c146f16bd6f284a91c3f3b1c854b32e320c8c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 048/166] fix: JCFpmPhys.dict() works

---
 pkg/dem/JointedCohesiveFrictionalPM.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/JointedCohesiveFrictionalPM.hpp b/pkg/dem/JointedCohesiveFrictionalPM.hpp
index 8d77867..cddb17c 100644
--- a/pkg/dem/JointedCohesiveFrictionalPM.hpp
+++ b/pkg/dem/JointedCohesiveFrictionalPM.hpp
@@ -90,9 +90,9 @@ class JCFpmPhys: public NormShearPhys {
 			((int,eventNumber,0,,"cluster event number"))
 			((int,temporalWindow,0,,"temporal window for the clustering algorithm"))
 			((Vector3r,momentCentroid,Vector3r::Zero(),,"centroid of the AE event (avg location of clustered breaks)"))
-			((vector<Interaction*>,clusterInts,,,"vector of pointers to the broken interactions nearby constituting a cluster"))		
-			((Interaction*,originalEvent,,,"pointer to the original interaction of a cluster"))
-			((vector<Interaction*>,nearbyInts,,,"vector of pointers to the nearby ints used for moment calc"))
+			((vector<Interaction*>,clusterInts,,Attr::hidden,"vector of pointers to the broken interactions nearby constituting a cluster"))		
+			((Interaction*,originalEvent,,Attr::hidden,"pointer to the original interaction of a cluster"))
+			((vector<Interaction*>,nearbyInts,,Attr::hidden,"vector of pointers to the nearby ints used for moment calc"))
 			((Real,strainEnergy,0,,"strain energy of interaction"))
 			((Real,kineticEnergy,0,,"kinetic energy of the two spheres participating in the interaction (easiest to store this value with interaction instead of spheres since we are using this information for moment magnitude estimations and associated interaction searches)"))
 			,
-- 
2.43.0


From 17b345058746a86b3a988c74583879bec57b8744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 049/166] fix: ViscElCapPhys.dict() works

---
 pkg/dem/ViscoelasticCapillarPM.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/ViscoelasticCapillarPM.hpp b/pkg/dem/ViscoelasticCapillarPM.hpp
index 124e172..20ee260 100644
--- a/pkg/dem/ViscoelasticCapillarPM.hpp
+++ b/pkg/dem/ViscoelasticCapillarPM.hpp
@@ -38,7 +38,7 @@ class ViscElCapPhys : public ViscElPhys{
 		((Real,Vb,0.0,,"Liquid bridge volume [m^3]"))
 		((Real,gamma,0.0,,"Surface tension [N/m]"))
 		((Real,theta,0.0,,"Contact angle [rad]"))
-		((CapType,CapillarType,None_Capillar,,"Different types of capillar interaction: Willett_numeric, Willett_analytic, Weigert, Rabinovich, Lambert, Soulie"))
+		((CapType,CapillarType,None_Capillar,Attr::hidden,"Different types of capillar interaction: Willett_numeric, Willett_analytic, Weigert, Rabinovich, Lambert, Soulie"))
 		((Real,dcap,0.0,,"Damping coefficient for the capillary phase [-]"))
 #ifdef YADE_LIQMIGRATION
 		((bool,LiqMigrEnabled,,,"True, if liquid migration mechanism is needed."))
-- 
2.43.0


From dee691beb7a7303512978d7cdd6f3c8a3f90ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 050/166] fix: energies keep their ids when cleared, as engines
 remember them

---
 core/EnergyTracker.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/EnergyTracker.hpp b/core/EnergyTracker.hpp
index 6df49f2..ea1690a 100644
--- a/core/EnergyTracker.hpp
+++ b/core/EnergyTracker.hpp
@@ -35,7 +35,8 @@ class EnergyTracker: public Serializable{
 	void setItem_py(const std::string& name, Real val){
 		int id=-1; set(val,name,id);
 	}
-	void clear(){ energies.clear(); names.clear(); resetStep.clear();}
+	// names keep their ids, since engines and functors remember those
+	void clear(){ for(size_t id=0; id<energies.size(); id++) energies.reset(id); }
 	void resetResettables(){ size_t sz=energies.size(); for(size_t id=0; id<sz; id++){ if(resetStep[id]) energies.reset(id); } }
 
 	Real total() const { Real ret=0; size_t sz=energies.size(); for(size_t id=0; id<sz; id++) ret+=energies.get(id); return ret; };
-- 
2.43.0


From dc6c4c7be5e9c74ebee19556806f19a3397f1de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 051/166] fix: energies are created once when several threads
 start adding

---
 core/EnergyTracker.hpp   | 13 +++++++------
 lib/base/openmp-accu.hpp |  2 ++
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/EnergyTracker.hpp b/core/EnergyTracker.hpp
index ea1690a..3e36dfc 100644
--- a/core/EnergyTracker.hpp
+++ b/core/EnergyTracker.hpp
@@ -9,12 +9,13 @@ class EnergyTracker: public Serializable{
 	~EnergyTracker();
 	void findId(const std::string& name, int& id, bool reset=false, bool newIfNotFound=true){
 		if(id>0) return; // the caller should have checked this already
-		if(names.count(name)) id=names[name];
-		else if(newIfNotFound) {
-			#ifdef YADE_OPENMP
-				#pragma omp critical
-			#endif
-				{ energies.resize(energies.size()+1); id=energies.size()-1; resetStep.resize(id+1); resetStep[id]=reset; names[name]=id; assert(id<(int)energies.size()); assert(id>=0); }
+		// several threads may be looking for the same name at the same time
+		#ifdef YADE_OPENMP
+			#pragma omp critical(EnergyTracker)
+		#endif
+		{
+			if(names.count(name)) id=names[name];
+			else if(newIfNotFound) { const int newId=energies.size(); energies.resize(newId+1); resetStep.resize(newId+1); resetStep[newId]=reset; names[name]=newId; id=newId; }
 		}
 	}
 	// set value of the accumulator; note: must NOT be called from parallel sections!
diff --git a/lib/base/openmp-accu.hpp b/lib/base/openmp-accu.hpp
index 91965ba..ca853ed 100644
--- a/lib/base/openmp-accu.hpp
+++ b/lib/base/openmp-accu.hpp
@@ -27,6 +27,8 @@ class OpenMPArrayAccumulator{
 			if(n==sz) return; // nothing to do
 			size_t nCL_new=nCL_for_N(n);
 			if(nCL_new>nCL){
+				// elements may be added by one thread while others use the existing ones: allocate more than needed so that these do not move
+				nCL_new=std::max(nCL_new,std::max(2*nCL,(size_t)32));
 				for(size_t th=0; th<nThreads; th++){
 					void* oldChunk=(void*)chunks[th];
 					int succ=posix_memalign((void**)(&chunks[th]),/*alignment*/CLS,/*size*/ nCL_new*CLS);
-- 
2.43.0


From 98389b723ba29cbf0132abb0efb48254dbe40059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:08 +0000
Subject: [PATCH 052/166] fix: cracks of the jointed cohesive law are counted
 once each when contacts are processed in parallel

---
 pkg/dem/JointedCohesiveFrictionalPM.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/dem/JointedCohesiveFrictionalPM.cpp b/pkg/dem/JointedCohesiveFrictionalPM.cpp
index 1c5c1f3..0f1c7d4 100644
--- a/pkg/dem/JointedCohesiveFrictionalPM.cpp
+++ b/pkg/dem/JointedCohesiveFrictionalPM.cpp
@@ -14,6 +14,7 @@ CREATE_LOGGER(Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM);
 
 static boost::mutex nearbyInts_mutex;
 static boost::mutex clusterInts_mutex;
+static boost::mutex cracks_mutex; // counters, crack file and bond counts of bodies are shared by contacts processed in parallel
 
 bool Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM::go(shared_ptr<IGeom>& ig, shared_ptr<IPhys>& ip, Interaction* contact){
 
@@ -103,6 +104,7 @@ bool Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM::go(shared_ptr<IGeom>& ig
 	  
 	  if ( phys->isCohesive && (phys->FnMax>0) && (std::abs(D)>Dtensile) ) {
 	    
+	    boost::mutex::scoped_lock cracksLock(cracks_mutex);
 	    nbTensCracks++;
 	    phys->isCohesive = 0;
 	    phys->FnMax = 0;
@@ -202,6 +204,7 @@ bool Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM::go(shared_ptr<IGeom>& ig
 
 	  if ( phys->isCohesive ) { 
 
+	    boost::mutex::scoped_lock cracksLock(cracks_mutex);
 	    nbShearCracks++;
 	    phys->isCohesive = 0;
 	    phys->FnMax = 0;
@@ -519,6 +522,7 @@ void Ip2_JCFpmMat_JCFpmMat_JCFpmPhys::go(const shared_ptr<Material>& b1, const s
 	///to set if the contact is cohesive or not
 	if ( ((cohesiveTresholdIteration < 0) || (scene->iter < cohesiveTresholdIteration)) && (std::min(SigT1,SigT2)>0 || std::min(Coh1,Coh2)>0) && (yade1->type == yade2->type)){ 
 	  contactPhysics->isCohesive=true;
+	  boost::mutex::scoped_lock cracksLock(cracks_mutex);
 	  st1->nbInitBonds++;
 	  st2->nbInitBonds++;
 	}
@@ -584,6 +588,7 @@ void Ip2_JCFpmMat_JCFpmMat_JCFpmPhys::go(const shared_ptr<Material>& b1, const s
 			///to set if the contact is cohesive or not
 			if ( ((cohesiveTresholdIteration < 0) || (scene->iter < cohesiveTresholdIteration)) && (std::min(jcoh1,jcoh2)>0 || std::min(jSigT1,jSigT2)>0) ) {
                             contactPhysics->isCohesive=true;
+                            boost::mutex::scoped_lock cracksLock(cracks_mutex);
                             st1->nbInitBonds++;
                             st2->nbInitBonds++;
 			} 
-- 
2.43.0


From aa8f3ad75dcbe34da36a1fc58cbcec73f43144f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:08 +0000
Subject: [PATCH 053/166] fix: count broken wire links atomically

---
 pkg/dem/WirePM.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dem/WirePM.cpp b/pkg/dem/WirePM.cpp
index c00bf60..19704f2 100644
--- a/pkg/dem/WirePM.cpp
+++ b/pkg/dem/WirePM.cpp
@@ -109,7 +109,10 @@ bool Law2_ScGeom_WirePhys_WirePM::go(shared_ptr<IGeom>& ig, shared_ptr<IPhys>& i
 		// update body state with the number of broken links
 		WireState* st1=dynamic_cast<WireState*>(b1->state.get());
 		WireState* st2=dynamic_cast<WireState*>(b2->state.get());
+		// contacts of one body are processed in parallel
+		#pragma omp atomic
 		st1->numBrokenLinks+=1;
+		#pragma omp atomic
 		st2->numBrokenLinks+=1;
 		return false;
 	}
-- 
2.43.0


From c2f6aedaf1d8222a5ce2ffe70bdd2dedd1b5682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:08 +0000
Subject: [PATCH 054/166] fix: negative cohesion means a purely elastic bond,
 as documented

---
 pkg/dem/CohesiveFrictionalContactLaw.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/CohesiveFrictionalContactLaw.cpp b/pkg/dem/CohesiveFrictionalContactLaw.cpp
index f96ba9b..a784329 100644
--- a/pkg/dem/CohesiveFrictionalContactLaw.cpp
+++ b/pkg/dem/CohesiveFrictionalContactLaw.cpp
@@ -115,11 +115,13 @@ bool Law2_ScGeom6D_CohFrictPhys_CohesionMoment::go(shared_ptr<IGeom>& ig, shared
 	Real un     = geom->penetrationDepth;
 	Real Fn    = phys->kn*(un-phys->unp);
 
-	if (phys->fragile && (-Fn)> phys->normalAdhesion) {
+	// a negative strength stands for a purely elastic force (see CohFrictMat)
+	const bool tensionExceeded = phys->normalAdhesion>=0 && (-Fn)> phys->normalAdhesion;
+	if (phys->fragile && tensionExceeded) {
 		// BREAK due to tension
 		return false;
 	} else {
-		if ((-Fn)> phys->normalAdhesion) {//normal plasticity
+		if (tensionExceeded) {//normal plasticity
 			Fn=-phys->normalAdhesion;
 			phys->unp = un+phys->normalAdhesion/phys->kn;
 			if (phys->unpMax>=0 && -phys->unp>phys->unpMax)  // Actually unpMax should be defined as a function of the average particule sizes for instance
@@ -143,7 +145,7 @@ bool Law2_ScGeom6D_CohFrictPhys_CohesionMoment::go(shared_ptr<IGeom>& ig, shared
 		if (!phys->cohesionDisablesFriction || maxFs==0)
 			maxFs += Fn*phys->tangensOfFrictionAngle;
 		maxFs = std::max((Real) 0, maxFs);
-		if (Fs  > maxFs) {//Plasticity condition on shear force
+		if (phys->shearAdhesion>=0 && Fs  > maxFs) {//Plasticity condition on shear force
 			if (phys->fragile && !phys->cohesionBroken) {
 				phys->SetBreakingState();
 				maxFs = max((Real) 0, Fn*phys->tangensOfFrictionAngle);
-- 
2.43.0


From b7883e2a1e8fc5b6d62c4712b36c89b4bcc82f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:39 +0000
Subject: [PATCH 055/166] fix: energy counters remembered by engines are only
 valid for the tracker which issued them

---
 core/EnergyTracker.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/core/EnergyTracker.hpp b/core/EnergyTracker.hpp
index 3e36dfc..0f375c3 100644
--- a/core/EnergyTracker.hpp
+++ b/core/EnergyTracker.hpp
@@ -1,37 +1,45 @@
 #pragma once
 #include<lib/base/openmp-accu.hpp>
 #include<lib/serialization/Serializable.hpp>
+#include<atomic>
+#include<limits>
 
 namespace py=boost::python;
 
 class EnergyTracker: public Serializable{
 	public:
 	~EnergyTracker();
+	// Engines and functors remember the ids they are given, and may be used with another tracker later (in another scene):
+	// ids tell which tracker they come from, so that a foreign one is recognized and looked up again.
+	static int newSerial(){ static std::atomic<int> last(0); return last++ % (std::numeric_limits<int>::max()/maxNames); }
+	static const int maxNames=4096;
+	const int serial=newSerial();
+	bool isOwnId(int id) const { return id>=0 && id/maxNames==serial; }
 	void findId(const std::string& name, int& id, bool reset=false, bool newIfNotFound=true){
-		if(id>0) return; // the caller should have checked this already
+		if(isOwnId(id)) return; // the caller should have checked this already
 		// several threads may be looking for the same name at the same time
 		#ifdef YADE_OPENMP
 			#pragma omp critical(EnergyTracker)
 		#endif
 		{
-			if(names.count(name)) id=names[name];
-			else if(newIfNotFound) { const int newId=energies.size(); energies.resize(newId+1); resetStep.resize(newId+1); resetStep[newId]=reset; names[name]=newId; id=newId; }
+			if(names.count(name)) id=serial*maxNames+names[name];
+			else if(newIfNotFound) { const int newId=energies.size(); if(newId>=maxNames) throw std::runtime_error("EnergyTracker: too many names of energies."); energies.resize(newId+1); resetStep.resize(newId+1); resetStep[newId]=reset; names[name]=newId; id=serial*maxNames+newId; }
 		}
 	}
 	// set value of the accumulator; note: must NOT be called from parallel sections!
 	void set(const Real& val, const std::string& name, int &id){
-		if(id<0) findId(name,id,/* do not reset value that is set directly */ false);
-		energies.set(id,val);
+		if(!isOwnId(id)) findId(name,id,/* do not reset value that is set directly */ false);
+		energies.set(id%maxNames,val);
 	}
 	// add value to the accumulator; safely called from parallel sections
 	void add(const Real& val, const std::string& name, int &id, bool reset=false){
-		if(id<0) findId(name,id,reset);
-		energies.add(id,val);
+		if(!isOwnId(id)) findId(name,id,reset);
+		energies.add(id%maxNames,val);
 	}
 	Real getItem_py(const std::string& name){
 		int id=-1; findId(name,id,false,false); 
 		if (id<0) {PyErr_SetString(PyExc_KeyError,("Unknown energy name '"+name+"'.").c_str());  py::throw_error_already_set(); }
-		return energies.get(id);
+		return energies.get(id%maxNames);
 	}
 	void setItem_py(const std::string& name, Real val){
 		int id=-1; set(val,name,id);
-- 
2.43.0


From db391443eb573c1be68232c95c691841c5e7dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:39 +0000
Subject: [PATCH 056/166] fix: OpenMPArrayAccumulator copies every thread's old
 data with the old size

---
 lib/base/openmp-accu.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/base/openmp-accu.hpp b/lib/base/openmp-accu.hpp
index ca853ed..65ce257 100644
--- a/lib/base/openmp-accu.hpp
+++ b/lib/base/openmp-accu.hpp
@@ -37,8 +37,8 @@ class OpenMPArrayAccumulator{
 						memcpy(/*dest*/(void*)chunks[th],/*src*/oldChunk,nCL*CLS); // preserve old data
 						free(oldChunk); // deallocate old storage
 					}
-					nCL=nCL_new;
 				}
+				nCL=nCL_new;
 			}
 			// if nCL_new<nCL, do not deallocate memory
 			// if nCL_new==nCL, only update sz
-- 
2.43.0


From 3b7500702b8fd0049d6f89ca976ecf262f7a78d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:39 +0000
Subject: [PATCH 057/166] fix: energy dissipated by numerical damping includes
 gravity, excludes blocked dofs

---
 pkg/dem/NewtonIntegrator.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index 0397cb7..1fb8199 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -39,11 +39,13 @@ Vector3r NewtonIntegrator::computeAngAccel(const Vector3r& torque, const Vector3
 
 void NewtonIntegrator::updateEnergy(const shared_ptr<Body>& b, const State* state, const Vector3r& fluctVel, const Vector3r& f, const Vector3r& m){
 	assert(b->isStandalone() || b->isClump());
-	// always positive dissipation, by-component: |F_i|*|v_i|*damping*dt (|T_i|*|ω_i|*damping*dt for rotations)
-	if(damping!=0. && state->isDamped){
-		scene->energy->add(fluctVel.cwiseAbs().dot(f.cwiseAbs())*damping*scene->dt,"nonviscDamp",nonviscDampIx,/*non-incremental*/false);
+	// always positive dissipation, by-component: |F_i|*|v_i|*damping*dt (|T_i|*|ω_i|*damping*dt for rotations), where F is what accelerates the body: gravity included, blocked DOFs excluded
+	if(damping!=0. && state->isDamped && state->blockedDOFs!=State::DOF_ALL){
+		const Vector3r fAcc=state->mass*computeAccel(f,state->mass,state->blockedDOFs);
+		scene->energy->add(fluctVel.cwiseAbs().dot(fAcc.cwiseAbs())*damping*scene->dt,"nonviscDamp",nonviscDampIx,/*non-incremental*/false);
 		// when the aspherical integrator is used, torque is damped instead of ang acceleration; this code is only approximate
-		scene->energy->add(state->angVel.cwiseAbs().dot(m.cwiseAbs())*damping*scene->dt,"nonviscDamp",nonviscDampIx,false);
+		Vector3r mAcc(m); for(int i=0; i<3; i++) if(state->blockedDOFs & State::axisDOF(i,true)) mAcc[i]=0;
+		scene->energy->add(state->angVel.cwiseAbs().dot(mAcc.cwiseAbs())*damping*scene->dt,"nonviscDamp",nonviscDampIx,false);
 	}
 	// kinetic energy
 	Real Etrans=.5*state->mass*fluctVel.squaredNorm();
-- 
2.43.0


From c56d556ec0c8f7deb5e6cc8522ce15fd1df11821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:39 +0000
Subject: [PATCH 058/166] fix: traceEnergy and trackEnergy do not suppress one
 another

---
 pkg/common/Grid.cpp           |  4 ++--
 pkg/dem/ElasticContactLaw.cpp |  4 ++--
 pkg/dem/FrictViscoPM.cpp      |  4 ++--
 pkg/dem/Polyhedra.cpp         | 17 ++++++-----------
 4 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/pkg/common/Grid.cpp b/pkg/common/Grid.cpp
index 426e69d..f500abf 100644
--- a/pkg/common/Grid.cpp
+++ b/pkg/common/Grid.cpp
@@ -594,10 +594,10 @@ bool Law2_GridCoGridCoGeom_FrictPhys_CundallStrack::go(shared_ptr<IGeom>& ig, sh
 			shearForce *= ratio;
 			Real dissip=((1/phys->ks)*(trialForce-shearForce))/*plastic disp*/ .dot(shearForce)/*active force*/;
 			if (traceEnergy) plasticDissipation += dissip;
-			else if(dissip>0) scene->energy->add(dissip,"plastDissip",plastDissipIx,/*reset*/false);
+			if(scene->trackEnergy && dissip>0) scene->energy->add(dissip,"plastDissip",plastDissipIx,/*reset*/false);
 		}
 		// compute elastic energy as well
-		scene->energy->add(0.5*(phys->normalForce.squaredNorm()/phys->kn+phys->shearForce.squaredNorm()/phys->ks),"elastPotential",elastPotentialIx,/*reset at every timestep*/true);
+		if(scene->trackEnergy) scene->energy->add(0.5*(phys->normalForce.squaredNorm()/phys->kn+phys->shearForce.squaredNorm()/phys->ks),"elastPotential",elastPotentialIx,/*reset at every timestep*/true);
 	}
 	Vector3r force = -phys->normalForce-shearForce;
 	Vector3r torque1 = (geom->radius1-0.5*geom->penetrationDepth)* geom->normal.cross(force);
diff --git a/pkg/dem/ElasticContactLaw.cpp b/pkg/dem/ElasticContactLaw.cpp
index 4f4688b..87810df 100644
--- a/pkg/dem/ElasticContactLaw.cpp
+++ b/pkg/dem/ElasticContactLaw.cpp
@@ -80,10 +80,10 @@ bool Law2_ScGeom_FrictPhys_CundallStrack::go(shared_ptr<IGeom>& ig, shared_ptr<I
 			shearForce *= ratio;
 			Real dissip=((1/phys->ks)*(trialForce-shearForce))/*plastic disp*/ .dot(shearForce)/*active force*/;
 			if (traceEnergy) plasticDissipation += dissip;
-			else if(dissip>0) scene->energy->add(dissip,"plastDissip",plastDissipIx,/*reset*/false);
+			if(scene->trackEnergy && dissip>0) scene->energy->add(dissip,"plastDissip",plastDissipIx,/*reset*/false);
 		}
 		// compute elastic energy as well
-		scene->energy->add(0.5*(phys->normalForce.squaredNorm()/phys->kn+phys->shearForce.squaredNorm()/phys->ks),"elastPotential",elastPotentialIx,/*reset at every timestep*/true);
+		if(scene->trackEnergy) scene->energy->add(0.5*(phys->normalForce.squaredNorm()/phys->kn+phys->shearForce.squaredNorm()/phys->ks),"elastPotential",elastPotentialIx,/*reset at every timestep*/true);
 	}
 	if (!scene->isPeriodic && !sphericalBodies) {
 		State* de1 = Body::byId(id1,scene)->state.get();
diff --git a/pkg/dem/FrictViscoPM.cpp b/pkg/dem/FrictViscoPM.cpp
index a0852f7..9686ffc 100644
--- a/pkg/dem/FrictViscoPM.cpp
+++ b/pkg/dem/FrictViscoPM.cpp
@@ -209,10 +209,10 @@ bool Law2_ScGeom_FrictViscoPhys_CundallStrackVisco::go(shared_ptr<IGeom>& ig, sh
 			shearForce *= ratio;
 			Real dissip=((1/phys->ks)*(trialForce-shearForce))/*plastic disp*/ .dot(shearForce)/*active force*/;
 			if (traceEnergy) plasticDissipation += dissip;
-			else if(dissip>0) scene->energy->add(dissip,"plastDissip",plastDissipIx,/*reset*/false);
+			if(scene->trackEnergy && dissip>0) scene->energy->add(dissip,"plastDissip",plastDissipIx,/*reset*/false);
 		}
 		// compute elastic energy as well
-		scene->energy->add(0.5*(phys->normalForce.squaredNorm()/phys->kn+phys->shearForce.squaredNorm()/phys->ks),"elastPotential",elastPotentialIx,/*reset at every timestep*/true);
+		if(scene->trackEnergy) scene->energy->add(0.5*(phys->normalForce.squaredNorm()/phys->kn+phys->shearForce.squaredNorm()/phys->ks),"elastPotential",elastPotentialIx,/*reset at every timestep*/true);
 	}
 	if (!scene->isPeriodic && !sphericalBodies) {
 		applyForceAtContactPoint(-phys->normalForce-shearForce, geom->contactPoint, id1, de1->se3.position, id2, de2->se3.position);}
diff --git a/pkg/dem/Polyhedra.cpp b/pkg/dem/Polyhedra.cpp
index 8395462..a1a21a4 100644
--- a/pkg/dem/Polyhedra.cpp
+++ b/pkg/dem/Polyhedra.cpp
@@ -572,21 +572,16 @@ bool Law2_PolyhedraGeom_PolyhedraPhys_Volumetric::go(shared_ptr<IGeom>& ig, shar
 			const Vector3r trialForce=shearForce;
 			shearForce *= ratio;
 			
-			if (scene->trackEnergy && traceEnergy) {
+			if (scene->trackEnergy || traceEnergy) {
 				const Real dissip=((1/phys->ks)*(trialForce-shearForce)).dot(shearForce);
 
 				if (traceEnergy) plasticDissipation += dissip;
-				else if(dissip>0) scene->energy->add(dissip,"plastDissip",plastDissipIx,false);
-
-				// compute elastic energy as well
-				scene->energy->add(0.5*(normalForce.squaredNorm()/phys->kn+shearForce.squaredNorm()/phys->ks),
-					"elastPotential",elastPotentialIx,true);
+				if(scene->trackEnergy && dissip>0) scene->energy->add(dissip,"plastDissip",plastDissipIx,false);
 			}
-		} else {
-			if (maxFs==0) shearForce = Vector3r::Zero();
-			scene->energy->add(0.5*(normalForce.squaredNorm()/phys->kn+shearForce.squaredNorm()/phys->ks),
-				"elastPotential",elastPotentialIx,true);
-		}
+		} else if (maxFs==0) shearForce = Vector3r::Zero();
+		// compute elastic energy as well
+		if (scene->trackEnergy) scene->energy->add(0.5*(normalForce.squaredNorm()/phys->kn+shearForce.squaredNorm()/phys->ks),
+			"elastPotential",elastPotentialIx,true);
 		Vector3r F = -normalForce-shearForce;	
 		if (contactGeom->equivalentPenetrationDepth != contactGeom->equivalentPenetrationDepth) exit(1);
 		
-- 
2.43.0


From 0eadea0bd09151b362d95c500d865f0aa28641e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:40 +0000
Subject: [PATCH 059/166] fix: Body::byId returns null for ids out of range,
 kinematic engines skip missing bodies

---
 core/Body.cpp                   | 8 ++++++--
 pkg/common/KinematicEngines.cpp | 8 +-------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/core/Body.cpp b/core/Body.cpp
index 9b1fd38..21aad42 100644
--- a/core/Body.cpp
+++ b/core/Body.cpp
@@ -7,8 +7,12 @@
 //! This could be -1 if id_t is re-typedef'ed as `int'
 const Body::id_t Body::ID_NONE=Body::id_t(-1);
 
-const shared_ptr<Body>& Body::byId(Body::id_t _id, Scene* rb){return (*((rb?rb:Omega::instance().getScene().get())->bodies))[_id];}
-const shared_ptr<Body>& Body::byId(Body::id_t _id, shared_ptr<Scene> rb){return (*(rb->bodies))[_id];}
+const shared_ptr<Body>& Body::byId(Body::id_t _id, Scene* rb){
+	static const shared_ptr<Body> none; // for ids which were never attributed
+	const BodyContainer& bodies=*((rb?rb:Omega::instance().getScene().get())->bodies);
+	return (_id>=0 && (size_t)_id<bodies.size()) ? bodies[_id] : none;
+}
+const shared_ptr<Body>& Body::byId(Body::id_t _id, shared_ptr<Scene> rb){return byId(_id,rb.get());}
 
 // return list of interactions of this particle
 boost::python::list Body::py_intrs(){
diff --git a/pkg/common/KinematicEngines.cpp b/pkg/common/KinematicEngines.cpp
index e9ceb00..8780efc 100644
--- a/pkg/common/KinematicEngines.cpp
+++ b/pkg/common/KinematicEngines.cpp
@@ -11,7 +11,6 @@ CREATE_LOGGER(KinematicEngine);
 void KinematicEngine::action(){
 	if (ids.size()>0) {
 		FOREACH(Body::id_t id,ids){
-			assert(id<(Body::id_t)scene->bodies->size());
 			Body* b=Body::byId(id,scene).get();
 			if(b) b->state->vel=b->state->angVel=Vector3r::Zero();
 		}
@@ -25,7 +24,6 @@ void CombinedKinematicEngine::action(){
 	if (ids.size()>0) {
 		// reset first
 		FOREACH(Body::id_t id,ids){
-			assert(id<(Body::id_t)scene->bodies->size());
 			Body* b=Body::byId(id,scene).get();
 			if(b) b->state->vel=b->state->angVel=Vector3r::Zero();
 		}
@@ -56,7 +54,6 @@ void TranslationEngine::apply(const vector<Body::id_t>& ids){
 		#else
 		FOREACH(Body::id_t id,ids){
 		#endif
-			assert(id<(Body::id_t)scene->bodies->size());
 			Body* b=Body::byId(id,scene).get();
 			if(!b) continue;
 			b->state->vel+=velocity*translationAxis;
@@ -73,7 +70,6 @@ void HarmonicMotionEngine::apply(const vector<Body::id_t>& ids){
     velocity = velocity.cwiseProduct(A);
     velocity = velocity.cwiseProduct(w);
 		FOREACH(Body::id_t id,ids){
-			assert(id<(Body::id_t)scene->bodies->size());
 			Body* b=Body::byId(id,scene).get();
 			if(!b) continue;
 			b->state->vel+=velocity;
@@ -119,7 +115,6 @@ void RotationEngine::apply(const vector<Body::id_t>& ids){
 		#else
 		FOREACH(Body::id_t id,ids){
 		#endif
-			assert(id<(Body::id_t)scene->bodies->size());
 			Body* b=Body::byId(id,scene).get();
 			if(!b) continue;
 			b->state->angVel+=rotationAxis*angularVelocity;
@@ -150,7 +145,7 @@ void ServoPIDController::apply(const vector<Body::id_t>& ids){
     
     if (ids.size()>0) {
       FOREACH(Body::id_t id,ids){
-        assert(id<(Body::id_t)scene->bodies->size());
+        if(!scene->bodies->exists(id)) continue;
         tmpForce += scene->forces.getForce(id);
       }
     } else {
@@ -204,7 +199,6 @@ void BicyclePedalEngine::apply(const vector<Body::id_t>& ids){
 		#else
 		FOREACH(Body::id_t id,ids){
 		#endif
-			assert(id<(Body::id_t)scene->bodies->size());
 			Body* b=Body::byId(id,scene).get();
 			if(!b) continue;
 			b->state->vel+=newVel;
-- 
2.43.0


From fdb771ab609a604e87b76ae1b2fdcfaf0f3dce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:40 +0000
Subject: [PATCH 060/166] fix: CentralGravityEngine checks that the central
 body exists

---
 pkg/common/GravityEngines.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/common/GravityEngines.cpp b/pkg/common/GravityEngines.cpp
index 5a7738f..220f74d 100644
--- a/pkg/common/GravityEngines.cpp
+++ b/pkg/common/GravityEngines.cpp
@@ -30,6 +30,7 @@ void GravityEngine::action(){
 }
 
 void CentralGravityEngine::action(){
+	if(!scene->bodies->exists(centralBody)) throw std::invalid_argument(("CentralGravityEngine.centralBody: there is no body #"+boost::lexical_cast<string>(centralBody)+".").c_str());
 	const Vector3r& centralPos=Body::byId(centralBody)->state->pos;
 	FOREACH(const shared_ptr<Body>& b, *scene->bodies){
 		if(b->isClump() || b->getId()==centralBody) continue; // skip clumps and central body
-- 
2.43.0


From 9407c359b9cd777e911c7166b298a3c481615a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:40 +0000
Subject: [PATCH 061/166] fix: GlobalStiffnessTimeStepper initialises the time
 step of non spherical bodies with density scaling

---
 pkg/dem/GlobalStiffnessTimeStepper.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.cpp b/pkg/dem/GlobalStiffnessTimeStepper.cpp
index 6f71cda..1020ff0 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.cpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.cpp
@@ -39,7 +39,7 @@ void GlobalStiffnessTimeStepper::findTimeStepFromBody(const shared_ptr<Body>& bo
 			}
 		}
 	}
-	Real dt; 
+	Real dt=Mathr::MAX_REAL;
 	if(!sdec || stiffness==Vector3r::Zero()){
 		// No interaction on this body, return. If using density scaline fallback to PWaveTimestep-like equation for dt.
 		if (densityScaling) {
@@ -47,8 +47,10 @@ void GlobalStiffnessTimeStepper::findTimeStepFromBody(const shared_ptr<Body>& bo
 				shared_ptr<ElastMat> ebp=YADE_PTR_DYN_CAST<ElastMat>(body->material);
 				shared_ptr<Sphere> s=YADE_PTR_DYN_CAST<Sphere>(body->shape);
 				if(!ebp || !s) dt=defaultDt;
-				Real density=body->state->mass/((4/3.)*Mathr::PI*pow(s->radius,3));
-				dt=s->radius/sqrt(ebp->young/density);
+				else {
+					Real density=body->state->mass/((4/3.)*Mathr::PI*pow(s->radius,3));
+					dt=s->radius/sqrt(ebp->young/density);
+				}
 // 				dt=defaultDt;
 			} else {
 				dt=defaultDt;
-- 
2.43.0


From ffe530b4630d279ec91a152f27dd09a0d69393a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:40 +0000
Subject: [PATCH 062/166] fix: SpherePack uses the given seed in every call

---
 pkg/dem/SpherePack.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index 5e30fac..2c5e12c 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -86,6 +86,7 @@ void SpherePack::fromSimulation() {
 long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz, int num, bool periodic, Real porosity, const vector<Real>& psdSizes, const vector<Real>& psdCumm, bool distributeMass, int seed, Matrix3r hSize){
 	isPeriodic = periodic;
 	static boost::minstd_rand randGen(seed!=0?seed:(int)TimingInfo::getNow(/* get the number even if timing is disabled globally */ true));
+	if(seed!=0) randGen.seed(seed);// initialized above only in the first call
 	static boost::variate_generator<boost::minstd_rand&, boost::uniform_real<Real> > rnd(randGen, boost::uniform_real<Real>(0,1));
 	vector<Real> psdRadii; // holds plain radii (rather than diameters), scaled down in some situations to get the target number
 	vector<Real> psdCumm2; // psdCumm but dimensionally transformed to match mass distribution	
@@ -334,7 +335,8 @@ long SpherePack::makeClumpCloud(const Vector3r& mn, const Vector3r& mx, const ve
 	int nGen=0; // number of clumps generated
 	// random point coordinate generator, with non-zero margins if aperiodic
  	static boost::minstd_rand randGen(seed!=0?seed:(int)TimingInfo::getNow(/* get the number even if timing is disabled globally */ true));
- 	static boost::variate_generator<boost::minstd_rand&, boost::uniform_real<Real> > rnd(randGen, boost::uniform_real<Real>(0,1));
+ 	if(seed!=0) randGen.seed(seed);// initialized above only in the first call
+	static boost::variate_generator<boost::minstd_rand&, boost::uniform_real<Real> > rnd(randGen, boost::uniform_real<Real>(0,1));
 	while(nGen<num || num<0){
 		int clumpChoice=(int)(rnd()*(clumps.size()-1e-20));
 		int tries=0;
-- 
2.43.0


From 8a1f7f6014987bdde6a42f5ad52bc61847ee7da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:40 +0000
Subject: [PATCH 063/166] fix: clearing bodies clears interactions

---
 core/BodyContainer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index 8980d8b..d1233fb 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -12,6 +12,8 @@
 YADE_PLUGIN((BodyContainer))
 
 void BodyContainer::clear(){
+	const shared_ptr<Scene>& scene=Omega::instance().getScene();
+	if(scene && scene->bodies.get()==this) scene->interactions->clear(); // no interaction may refer to bodies which are not there any more
 	body.clear();
 }
 
-- 
2.43.0


From ed381dc0cd21908a11bbe7ff84fe098c6db1797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:41 +0000
Subject: [PATCH 064/166] fix: collider reinitializes when bodies, periodicity
 or the integrator are replaced

---
 core/InteractionContainer.hpp        | 2 +-
 pkg/common/InsertionSortCollider.cpp | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/InteractionContainer.hpp b/core/InteractionContainer.hpp
index ff69b21..4fbd9fc 100644
--- a/core/InteractionContainer.hpp
+++ b/core/InteractionContainer.hpp
@@ -54,7 +54,7 @@ class InteractionContainer: public Serializable{
 		// flag for notifying the collider that persistent data should be invalidated
 		bool dirty;
 		// required by the class factory... :-|
-		InteractionContainer(): currSize(0),dirty(false),serializeSorted(false),iterColliderLastRun(-1){
+		InteractionContainer(): currSize(0),dirty(true),serializeSorted(false),iterColliderLastRun(-1){
 			bodies=NULL;
 		}
 		void clear();
diff --git a/pkg/common/InsertionSortCollider.cpp b/pkg/common/InsertionSortCollider.cpp
index bb0359c..9c68619 100644
--- a/pkg/common/InsertionSortCollider.cpp
+++ b/pkg/common/InsertionSortCollider.cpp
@@ -176,6 +176,10 @@ vector<Body::id_t> InsertionSortCollider::probeBoundingVolume(const Bound& bv){
 		// or the time of scheduled run already came, or we were never scheduled yet
 		if(!strideActive) { return true; }
 		if(!newton) { return true; }
+		// the integrator may have been replaced; the one which is not run any more does not tell about displacements
+		if(std::find(scene->engines.begin(),scene->engines.end(),newton)==scene->engines.end()) {
+			FOREACH(shared_ptr<Engine>& e, scene->engines) if(YADE_PTR_DYN_CAST<NewtonIntegrator>(e)) { newton.reset(); return true; }
+		}
 		fastestBodyMaxDist=newton->maxVelocitySq;
 		if(fastestBodyMaxDist>=1 || fastestBodyMaxDist==0) {  return true; }
 		if((size_t)BB[0].size!=2*scene->bodies->size()) {  return true; }
@@ -198,7 +202,7 @@ void InsertionSortCollider::action(){
 	#endif
 	// periodicity changed, force reinit
 	if(scene->isPeriodic != periodic){
-		for(int i=0; i<3; i++) BB[i].vec.clear();
+		for(int i=0; i<3; i++){ BB[i].vec.clear(); BB[i].size=0; }
 		periodic=scene->isPeriodic;
 	}
 	// pre-conditions
@@ -213,7 +217,7 @@ void InsertionSortCollider::action(){
 			LOG_DEBUG("Resize bounds containers from "<<BBsize<<" to "<<nBodies*2<<", will std::sort.");
 			// bodies deleted; clear the container completely, and do as if all bodies were added (rather slow…)
 			// future possibility: insertion sort with such operator that deleted bodies would all go to the end, then just trim bounds
-			if(2*nBodies<BBsize){ for(int i=0; i<3; i++) BB[i].vec.clear(); }
+			if(2*nBodies<BBsize){ for(int i=0; i<3; i++) BB[i].vec.clear(); BBsize=0; }
 			// more than 100 bodies was added, do initial sort again
 			// maybe: should rather depend on ratio of added bodies to those already present...?
 			// periodic: the new bounds need their period, and must not be appended on the wrong side of the split
-- 
2.43.0


From d4e94081999bb9fe4b6df372ca69240437b2e4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:44 +0000
Subject: [PATCH 065/166] fix: makeClumpCloud recentres clumps, compares with
 the spheres of placed clumps only, sets periodicity

---
 pkg/dem/SpherePack.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index 2c5e12c..df5d38b 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -318,7 +318,7 @@ long SpherePack::makeClumpCloud(const Vector3r& mn, const Vector3r& mx, const ve
 	vector<Real> boundRad; // squared radii of bounding sphere for each clump
 	FOREACH(const shared_ptr<SpherePack>& c, _clumps){
 		SpherePack c2(*c); 
-		c2.translate(c2.midPt()); //recenter
+		c2.translate(-c2.midPt()); //recenter
 		clumps.push_back(c2);
 		Real r=0;
 		FOREACH(const Sph& s, c2.pack) r=max(r,s.c.norm()+s.r);
@@ -330,6 +330,7 @@ long SpherePack::makeClumpCloud(const Vector3r& mn, const Vector3r& mx, const ve
 	}
 	std::list<ClumpInfo> clumpInfos;
 	Vector3r size=mx-mn;
+	isPeriodic=periodic;
 	if(periodic)(cellSize=size);
 	const int maxTry=200;
 	int nGen=0; // number of clumps generated
@@ -406,7 +407,7 @@ long SpherePack::makeClumpCloud(const Vector3r& mn, const Vector3r& mx, const ve
 			#endif
 
 			// add the clump, if no collisions
-			/*number clumps consecutively*/ ci.clumpId=nGen; ci.center=pos; ci.rad=rad; ci.minId=pack.size(); ci.maxId=pack.size()+C.pack.size(); 
+			/*number clumps consecutively*/ ci.clumpId=nGen; ci.center=pos; ci.rad=rad; ci.minId=pack.size(); ci.maxId=(int)(pack.size()+C.pack.size())-1; /* inclusive */
 			FOREACH(const Sph& s, C.pack){
 				pack.push_back(Sph(s.c,s.r,ci.clumpId));
 			}
-- 
2.43.0


From 3101af5b142480a3ca43589adc13305d8ed82e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:44 +0000
Subject: [PATCH 066/166] fix: SpherePack.cellRepeat keeps clumps

---
 pkg/dem/SpherePack.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index df5d38b..598de44 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -268,13 +268,17 @@ void SpherePack::cellRepeat(Vector3i count){
 	if(count[0]<=0 || count[1]<=0 || count[2]<=0){ throw std::invalid_argument("Repeat count components must be positive."); }
 	size_t origSize=pack.size();
 	pack.reserve(origSize*count[0]*count[1]*count[2]);
+	int nClumpIds=0; // clumps of copies are numbered after those of the original cell
+	FOREACH(const Sph& s, pack) nClumpIds=max(nClumpIds,s.clumpId+1);
+	int copy=0;
 	for(int i=0; i<count[0]; i++){
 		for(int j=0; j<count[1]; j++){
 			for(int k=0; k<count[2]; k++){
 				if((i==0) && (j==0) && (k==0)) continue; // original cell
+				copy++;
 				Vector3r off(cellSize[0]*i,cellSize[1]*j,cellSize[2]*k);
 				for(size_t l=0; l<origSize; l++){
-					const Sph& s=pack[l]; pack.push_back(Sph(s.c+off,s.r));
+					const Sph s=pack[l]; pack.push_back(Sph(s.c+off,s.r,s.clumpId<0?-1:s.clumpId+copy*nClumpIds));
 				}
 			}
 		}
-- 
2.43.0


From fd2c5873533edb5256d2391fde50110e07737f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 067/166] fix: makeCloud finds the closest image in skewed
 cells

---
 pkg/dem/SpherePack.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index 598de44..18376fb 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -218,6 +218,12 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 							else dr[axis] = c1c2[axis] - Mathr::Sign(c1c2[axis]);
 						}
 						dr=hSize*dr;//now in cartesian coordinates
+						// with a skewed cell, another image can be closer than the one which is closest in the unit cube
+						const Vector3r dr0=dr; Vector3r img;
+						for(img[0]=-1; img[0]<=1; img[0]++) for(img[1]=-1; img[1]<=1; img[1]++) for(img[2]=-1; img[2]<=1; img[2]++){
+							const Vector3r dr1=dr0+hSize*img;
+							if(dr1.squaredNorm()<dr.squaredNorm()) dr=dr1;
+						}
 					}
 					if(pow(pack[j].r+r,2) >= dr.squaredNorm()) {
 						overlap=true;
-- 
2.43.0


From 4ef5aaa5e3ad0fd06f41cc0d78db0ccf8ed9a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 068/166] fix: makeCloud keeps and does not count spheres which
 were there before

---
 pkg/dem/SpherePack.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index 18376fb..f7b656a 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -151,6 +151,7 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 	if(err || mode<0) throw invalid_argument("SpherePack.makeCloud: at least one of rMean, porosity, psdSizes & psdCumm arguments must be specified. rMean can't be combined with psdSizes.");
 	// adjust uniform distribution parameters with distributeMass; rMean has the meaning (dimensionally) of _volume_
 	const int maxTry=1000;
+	const size_t initSize=pack.size(); // spheres which were there before
 	if(periodic && volume && !hSizeFound)(cellSize=size);
 	Real r=0;
 	for(int i=0; (i<num) || (num<0); i++) {
@@ -247,7 +248,7 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 						<<i<<" spheres were added, although you requested "<<num
 						<<". Trying again with porosity "<<nextPoro
 						<<". The size distribution is being scaled down");
-					pack.clear();
+					pack.resize(initSize,Sph(Vector3r::Zero(),0.)); // remove spheres added here
 					return makeCloud(mn, mx, -1., rRelFuzz, num, periodic, nextPoro,
 						psdSizes, psdCumm, distributeMass,seed,hSizeFound?hSize:Matrix3r::Zero());
 				} else {
@@ -259,7 +260,7 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 		}
 	}
 	if (appliedPsdScaling<1) LOG_WARN("The size distribution has been scaled down by a factor pack.appliedPsdScaling="<<appliedPsdScaling);
-	return pack.size();
+	return pack.size()-initSize;
 }
 
 void SpherePack::cellFill(Vector3r vol){
-- 
2.43.0


From 6348e490b339ad58cb7355e9c40edd9f8b06fb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 069/166] fix: makeCloud checks both ends of psdCumm

---
 pkg/dem/SpherePack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index f7b656a..d4d3fe9 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -118,7 +118,7 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 		err=(mode>=0); mode=RDIST_PSD;
 		if(psdSizes.size()!=psdCumm.size()) throw invalid_argument(("SpherePack.makeCloud: psdSizes and psdCumm must have same dimensions ("+boost::lexical_cast<string>(psdSizes.size())+"!="+boost::lexical_cast<string>(psdCumm.size())).c_str());
 		if(psdSizes.size()<=1) throw invalid_argument("SpherePack.makeCloud: psdSizes must have at least 2 items");
-		if((*psdCumm.begin())!=0. && (*psdCumm.rbegin())!=1.) throw invalid_argument("SpherePack.makeCloud: first and last items of psdCumm *must* be exactly 0 and 1.");
+		if((*psdCumm.begin())!=0. || (*psdCumm.rbegin())!=1.) throw invalid_argument("SpherePack.makeCloud: first and last items of psdCumm *must* be exactly 0 and 1.");
 		psdRadii.reserve(psdSizes.size());
 		for(size_t i=0; i<psdSizes.size(); i++) {
 			psdRadii.push_back(/* radius, not diameter */ .5*psdSizes[i]);
-- 
2.43.0


From 3f9e8f66c067c87110f80626d35fc06995d8d275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 070/166] fix: SpherePack periodicity is that of the source it
 is loaded from

---
 pkg/dem/SpherePack.cpp | 5 +++++
 pkg/dem/SpherePack.hpp | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index d4d3fe9..febe8ab 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -52,7 +52,9 @@ void SpherePack::fromFile(string file) {
 	typedef boost::tuple<Vector3r,Real,int> tupleVector3rRealInt;
 	vector<tupleVector3rRealInt> ss;
 	Vector3r mn,mx;
+	cellSize=Vector3r::Zero(); // unless the file says otherwise
 	ss=Shop::loadSpheresFromFile(file,mn,mx,&cellSize);
+	isPeriodic=(cellSize!=Vector3r::Zero());
 	pack.clear();
 	FOREACH(const tupleVector3rRealInt& s, ss) pack.push_back(Sph(boost::get<0>(s),boost::get<1>(s),boost::get<2>(s)));
 }
@@ -80,6 +82,9 @@ void SpherePack::fromSimulation() {
 	if(scene->isPeriodic) {
 		cellSize=scene->cell->getSize();
 		isPeriodic = true;
+	} else {
+		cellSize=Vector3r::Zero();
+		isPeriodic = false;
 	}
 }
 
diff --git a/pkg/dem/SpherePack.hpp b/pkg/dem/SpherePack.hpp
index 43123f0..3cecfb4 100644
--- a/pkg/dem/SpherePack.hpp
+++ b/pkg/dem/SpherePack.hpp
@@ -36,7 +36,7 @@ public:
 	Real appliedPsdScaling;//a scaling factor that can be applied on size distribution
 	bool isPeriodic;
 	SpherePack(): cellSize(Vector3r::Zero()), appliedPsdScaling(1.), isPeriodic(0) {};
-	SpherePack(const boost::python::list& l):cellSize(Vector3r::Zero()){ fromList(l); }
+	SpherePack(const boost::python::list& l):cellSize(Vector3r::Zero()), appliedPsdScaling(1.), isPeriodic(0){ fromList(l); }
 	// add single sphere
 	void add(const Vector3r& c, Real r){ pack.push_back(Sph(c,r)); }
 
-- 
2.43.0


From da48d700f62aed13c20cce3a882ad948f9197f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 071/166] fix: notInNotch distance below the notch

---
 py/pack/_packPredicates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/pack/_packPredicates.cpp b/py/pack/_packPredicates.cpp
index 04d1825..0925f6c 100644
--- a/py/pack/_packPredicates.cpp
+++ b/py/pack/_packPredicates.cpp
@@ -265,7 +265,7 @@ public:
 		if(distDown   >=pad) return true;
 		if(distInPlane<0) return false;
 		if(distUp  >0) return sqrt(pow(distInPlane,2)+pow(distUp,2))>=pad;
-		if(distDown>0) return sqrt(pow(distInPlane,2)+pow(distUp,2))>=pad;
+		if(distDown>0) return sqrt(pow(distInPlane,2)+pow(distDown,2))>=pad;
 		// between both notch planes, closer to the edge than pad (distInPlane<pad)
 		return false;
 	}
-- 
2.43.0


From ce203ba59804a4fdaf14ae59d4576ba62ffa2d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:46 +0000
Subject: [PATCH 072/166] fix: inEllipsoid with padding larger than a semi-axis
 is empty

---
 py/pack/_packPredicates.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/pack/_packPredicates.cpp b/py/pack/_packPredicates.cpp
index 0925f6c..a4da8c7 100644
--- a/py/pack/_packPredicates.cpp
+++ b/py/pack/_packPredicates.cpp
@@ -210,6 +210,7 @@ class inEllipsoid: public Predicate{
 public:
 	inEllipsoid(const Vector3r& _c, const Vector3r& _abc) {c=_c; abc=_abc;}
 	bool operator()(const Vector3r& pt, Real pad=0.) const {
+		if(pad>=abc.minCoeff()) return false; // no point is that far from the boundary
 		//Define the ellipsoid X-coordinate of given Y and Z
 		Real x = sqrt((1-pow((pt[1]-c[1]),2)/((abc[1]-pad)*(abc[1]-pad))-pow((pt[2]-c[2]),2)/((abc[2]-pad)*(abc[2]-pad)))*((abc[0]-pad)*(abc[0]-pad)))+c[0]; 
 		Vector3r edgeEllipsoid(x,pt[1],pt[2]); // create a vector of these 3 coordinates
-- 
2.43.0


From 45199b09fa213449ed57f3348bb83a46b4a1154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:46 +0000
Subject: [PATCH 073/166] fix: inParallelepiped with left-handed edges

---
 py/pack/_packPredicates.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/pack/_packPredicates.cpp b/py/pack/_packPredicates.cpp
index a4da8c7..f484ad5 100644
--- a/py/pack/_packPredicates.cpp
+++ b/py/pack/_packPredicates.cpp
@@ -137,6 +137,8 @@ public:
 		n[0]=-y.cross(z).normalized(); n[1]=-n[0]; pts[0]=A; pts[1]=B;
 		n[2]=-z.cross(x).normalized(); n[3]=-n[2]; pts[2]=A; pts[3]=D;
 		n[4]=-x.cross(y).normalized(); n[5]=-n[4]; pts[4]=A; pts[5]=E;
+		// the edges may form a left-handed triad, normals point outwards nevertheless
+		if(x.cross(y).dot(z)<0) for(int i=0; i<6; i++) n[i]=-n[i];
 		// bounding box
 		Vector3r vertices[8]={A,B,C,D,E,F,G,H};
 		mn=mx=vertices[0];
-- 
2.43.0


From 46ac838274e82b5aa9c964fb06135ad733a12e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:46 +0000
Subject: [PATCH 074/166] fix: padding of the symmetric difference of
 predicates

---
 py/pack/_packPredicates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/pack/_packPredicates.cpp b/py/pack/_packPredicates.cpp
index f484ad5..aedcb71 100644
--- a/py/pack/_packPredicates.cpp
+++ b/py/pack/_packPredicates.cpp
@@ -88,7 +88,7 @@ PredicateDifference makeDifference(const py::object& A, const py::object& B){ re
 class PredicateSymmetricDifference: public PredicateBoolean{
 	public:
 		PredicateSymmetricDifference(const py::object _A, const py::object _B): PredicateBoolean(_A,_B){}
-		virtual bool operator()(const Vector3r& pt,Real pad) const {bool inA=obj2pred(A)(pt,pad), inB=obj2pred(B)(pt,pad); return (inA && !inB) || (!inA && inB);}
+		virtual bool operator()(const Vector3r& pt,Real pad) const {return (obj2pred(A)(pt,pad) && !obj2pred(B)(pt,-pad)) || (obj2pred(B)(pt,pad) && !obj2pred(A)(pt,-pad));}
 		virtual py::tuple aabb() const { 
 			Vector3r minA,maxA,minB,maxB; 
 			ttuple2vvec(obj2pred(A).aabb(),minA,maxA); 
-- 
2.43.0


From 1caf8184bcc7c4ac3f24df0d2ee8852d21aa8aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:46 +0000
Subject: [PATCH 075/166] fix: predicates written in Python call the base
 constructor

---
 py/pack/pack.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/pack/pack.py b/py/pack/pack.py
index be54fb5..f2fe1b9 100644
--- a/py/pack/pack.py
+++ b/py/pack/pack.py
@@ -166,7 +166,9 @@ if not (noPredicate):
   
   class inSpace(Predicate):
     """Predicate returning True for any points, with infinite bounding box."""
-    def __init__(self, _center=Vector3().Zero): self._center=_center
+    def __init__(self, _center=Vector3().Zero):
+      super(inSpace,self).__init__() # necessary for combining with other predicates
+      self._center=_center
     def aabb(self):
       inf=float('inf'); return Vector3(-inf,-inf,-inf),Vector3(inf,inf,inf)
     def center(self): return self._center
@@ -177,6 +179,7 @@ if not (noPredicate):
   class inHalfSpace(Predicate):
     """Predicate returning True  any points, with infinite bounding box."""
     def __init__(self, _center=Vector3().Zero, _dir=Vector3(1,0,0)):
+      super(inHalfSpace,self).__init__() # necessary for combining with other predicates
       self._center = Vector3(_center)
       self._dir = Vector3(_dir)
       assert self._dir.norm() > 0., "Direction has to be nonzero vector"
@@ -205,6 +208,7 @@ if not (noPredicate):
 
   class inConvexPolyhedron(Predicate):
     def __init__(self,planes):
+      super(inConvexPolyhedron,self).__init__() # necessary for combining with other predicates
       self._inHalfSpaces = [inHalfSpace(c,d) for c,d in planes]
       self._min, self._max = self._computeAabb()
     def _computeAabb(self):
-- 
2.43.0


From 9305bf4c56badb1b5a11cd565fa1ef296ac68da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:38 +0000
Subject: [PATCH 076/166] fix: psd bin index within range

---
 py/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/utils.py b/py/utils.py
index 414fa0c..63d082f 100644
--- a/py/utils.py
+++ b/py/utils.py
@@ -872,7 +872,7 @@ def psd(bins=5, mass=True, mask=-1):
 			d=2*b.shape.radius
 			
 			basketId = int(math.floor( (d-minD) / deltaBinD ) )
-			if (d == maxD): basketId = bins-1												 #If the diameter equals the maximal diameter, put the particle into the last bin
+			if (basketId >= bins): basketId = bins-1												 #If the diameter equals the maximal diameter, put the particle into the last bin
 			binsMass[basketId] = binsMass[basketId] + b.state.mass		#Put masses into the bin 
 			binsNumbers[basketId] = binsNumbers[basketId] + 1					#Put numbers into the bin 
 			
-- 
2.43.0


From c35ee5ef90b8ebfc5b546fd31e16c8dfc18be6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:39 +0000
Subject: [PATCH 077/166] fix: pass a tuple to bodyNumInteractionsHistogram

---
 py/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/utils.py b/py/utils.py
index 63d082f..8b6fc39 100644
--- a/py/utils.py
+++ b/py/utils.py
@@ -435,7 +435,7 @@ def avgNumInteractions(cutoff=0.,skipFree=False,considerClumps=False):
 """
 	if cutoff==0 and not skipFree and not considerClumps: return 2*O.interactions.countReal()*1./len(O.bodies)
 	else:
-		nums,counts=bodyNumInteractionsHistogram(aabbExtrema(cutoff))
+		nums,counts=bodyNumInteractionsHistogram(tuple(aabbExtrema(cutoff)))
 		## CC is 2*C
 		CC=sum([nums[i]*counts[i] for i in range(len(nums))]); N=sum(counts)
 		if not skipFree: return CC*1./N if N>0 else float('nan')
@@ -447,7 +447,7 @@ def avgNumInteractions(cutoff=0.,skipFree=False,considerClumps=False):
 
 def plotNumInteractionsHistogram(cutoff=0.):
 	"Plot histogram with number of interactions per body, optionally cutting away *cutoff* relative axis-aligned box from specimen margin."
-	nums,counts=bodyNumInteractionsHistogram(aabbExtrema(cutoff))
+	nums,counts=bodyNumInteractionsHistogram(tuple(aabbExtrema(cutoff)))
 	import pylab
 	pylab.bar(nums,counts)
 	pylab.title('Number of interactions histogram, average %g (cutoff=%g)'%(avgNumInteractions(cutoff),cutoff))
@@ -474,7 +474,7 @@ def plotDirections(aabb=(),mask=0,bins=20,numHist=True,noShow=False,sphSph=False
 		pylab.text(.5,.25,['yz','xz','xy'][axis],horizontalalignment='center',verticalalignment='center',transform=subp.transAxes,fontsize='xx-large')
 	if numHist:
 		pylab.subplot(224,polar=False)
-		nums,counts=utils.bodyNumInteractionsHistogram(aabb if len(aabb)>0 else utils.aabbExtrema())
+		nums,counts=utils.bodyNumInteractionsHistogram(aabb if len(aabb)>0 else tuple(utils.aabbExtrema()))
 		avg=sum([nums[i]*counts[i] for i in range(len(nums))])/(1.*sum(counts))
 		pylab.bar(nums,counts,fc=[1,1,0],alpha=.7,align='center')
 		pylab.xlabel('Interactions per body (avg. %g)'%avg)
-- 
2.43.0


From bd0057b66bc17d2305c71e05d5a0ca2cb3bd0e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:39 +0000
Subject: [PATCH 078/166] fix: avgNumInteractions ignores erased bodies

---
 py/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/utils.py b/py/utils.py
index 8b6fc39..8ef8100 100644
--- a/py/utils.py
+++ b/py/utils.py
@@ -433,7 +433,7 @@ def avgNumInteractions(cutoff=0.,skipFree=False,considerClumps=False):
 	:param considerClumps: also consider clumps if cutoff=0 and skipFree=False; for further explanation see above.
 	
 """
-	if cutoff==0 and not skipFree and not considerClumps: return 2*O.interactions.countReal()*1./len(O.bodies)
+	if cutoff==0 and not skipFree and not considerClumps: return 2*O.interactions.countReal()*1./len([b for b in O.bodies]) # len(O.bodies) would count erased bodies
 	else:
 		nums,counts=bodyNumInteractionsHistogram(tuple(aabbExtrema(cutoff)))
 		## CC is 2*C
-- 
2.43.0


From da5b8f994b6e6836509f4be341cd1b4c5114be14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:39 +0000
Subject: [PATCH 079/166] fix: aabbExtrema2d upper bound

---
 py/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/utils.py b/py/utils.py
index 8ef8100..80e9ff4 100644
--- a/py/utils.py
+++ b/py/utils.py
@@ -385,9 +385,9 @@ def aabbExtrema2d(pts):
 	min,max=[inf,inf],[-inf,-inf]
 	for pt in pts:
 		if pt[0]<min[0]: min[0]=pt[0]
-		elif pt[0]>max[0]: max[0]=pt[0]
+		if pt[0]>max[0]: max[0]=pt[0]
 		if pt[1]<min[1]: min[1]=pt[1]
-		elif pt[1]>max[1]: max[1]=pt[1]
+		if pt[1]>max[1]: max[1]=pt[1]
 	return tuple(min),tuple(max)
 
 def perpendicularArea(axis):
-- 
2.43.0


From 3b6ec42bb00e212166b6e6e89fecd2317545ed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:39 +0000
Subject: [PATCH 080/166] fix: errors instead of crashes for missing bodies in
 utils

---
 py/_utils.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/py/_utils.cpp b/py/_utils.cpp
index 17c0019..7567e81 100644
--- a/py/_utils.cpp
+++ b/py/_utils.cpp
@@ -127,6 +127,13 @@ void highlightNone(){
 	}
 }
 
+// body with the given id; error if there is none
+static Body* existingBody(Body::id_t id, const shared_ptr<Scene>& rb){
+	const shared_ptr<Body>& b=Body::byId(id,rb);
+	if(!b) throw invalid_argument(("No body #"+boost::lexical_cast<string>(id)).c_str());
+	return b.get();
+}
+
 /*!Sum moments acting on given bodies
  *
  * @param ids is the calculated bodies ids
@@ -143,7 +150,7 @@ Real sumTorques(py::list ids, const Vector3r& axis, const Vector3r& axisPt){
 	Real ret=0;
 	size_t len=py::len(ids);
 	for(size_t i=0; i<len; i++){
-		const Body* b=(*rb->bodies)[py::extract<int>(ids[i])].get();
+		const Body* b=existingBody(py::extract<int>(ids[i]),rb);
 		const Vector3r& m=rb->forces.getTorque(b->getId());
 		const Vector3r& f=rb->forces.getForce(b->getId());
 		Vector3r r=b->state->pos-axisPt;
@@ -177,7 +184,8 @@ Real sumFacetNormalForces(vector<Body::id_t> ids, int axis){
 	shared_ptr<Scene> rb=Omega::instance().getScene(); rb->forces.sync();
 	Real ret=0;
 	FOREACH(const Body::id_t id, ids){
-		Facet* f=YADE_CAST<Facet*>(Body::byId(id,rb)->shape.get());
+		Facet* f=dynamic_cast<Facet*>(existingBody(id,rb)->shape.get());
+		if(!f) throw invalid_argument(("Body #"+boost::lexical_cast<string>(id)+" is not a facet.").c_str());
 		if(axis<0) ret+=rb->forces.getForce(id).dot(f->normal);
 		else {
 			Vector3r ff=rb->forces.getForce(id); ff[axis]=0;
@@ -357,7 +365,7 @@ Real shiftBodies(py::list ids, const Vector3r& shift){
 	shared_ptr<Scene> rb=Omega::instance().getScene();
 	size_t len=py::len(ids);
 	for(size_t i=0; i<len; i++){
-		const Body* b=(*rb->bodies)[py::extract<int>(ids[i])].get();
+		const Body* b=Body::byId(py::extract<int>(ids[i])(),rb).get();
 		if(!b) continue;
 		b->state->pos+=shift;
 	}
@@ -368,7 +376,8 @@ void Shop__calm(int mask){ return Shop::calm(Omega::instance().getScene(), mask)
 
 void setNewVerticesOfFacet(const shared_ptr<Body>& b, const Vector3r& v1, const Vector3r& v2, const Vector3r& v3) {
 	Vector3r center = inscribedCircleCenter(v1,v2,v3);
-	Facet* facet = YADE_CAST<Facet*>(b->shape.get());
+	Facet* facet = dynamic_cast<Facet*>(b->shape.get());
+	if(!facet) throw invalid_argument("The body is not a facet.");
 	facet->vertices[0] = v1 - center;
 	facet->vertices[1] = v2 - center;
 	facet->vertices[2] = v3 - center;
@@ -417,7 +426,7 @@ py::tuple Shop__getStressAndTangent(Real volume=0, bool symmetry=true){return Sh
 
 void setBodyPosition(int id, Vector3r newPos, string axis){
 	shared_ptr<Scene> rb=Omega::instance().getScene();
-	const Body* b=(*rb->bodies)[id].get();
+	const Body* b=existingBody(id,rb);
 	for (char c : axis){
 		if(c=='x') {b->state->pos[0] = newPos[0];continue;}
 		if(c=='y') {b->state->pos[1] = newPos[1];continue;}
@@ -427,7 +436,7 @@ void setBodyPosition(int id, Vector3r newPos, string axis){
 
 void setBodyVelocity(int id, Vector3r newVel, string axis){
 	shared_ptr<Scene> rb=Omega::instance().getScene();
-	const Body* b=(*rb->bodies)[id].get();
+	const Body* b=existingBody(id,rb);
 	for (char c : axis){
 		if(c=='x') {b->state->vel[0] = newVel[0];continue;}
 		if(c=='y') {b->state->vel[1] = newVel[1];continue;}
@@ -437,19 +446,19 @@ void setBodyVelocity(int id, Vector3r newVel, string axis){
 
 void setBodyOrientation(int id, Quaternionr newOri){
 	shared_ptr<Scene> rb=Omega::instance().getScene();
-	const Body* b=(*rb->bodies)[id].get();
+	const Body* b=existingBody(id,rb);
 	b->state->ori=newOri;
 }
 
 void setBodyAngularVelocity(int id, Vector3r newAngVel){
 	shared_ptr<Scene> rb=Omega::instance().getScene();
-	const Body* b=(*rb->bodies)[id].get();
+	const Body* b=existingBody(id,rb);
 	b->state->angVel=newAngVel;
 }
 
 void setBodyColor(int id, Vector3r newColor){
   shared_ptr<Scene> rb=Omega::instance().getScene();
-	const Body* b=(*rb->bodies)[id].get();
+	const Body* b=existingBody(id,rb);
 	b->shape->color=newColor;
 }
 
-- 
2.43.0


From 2918d7ba83c7595023e5e9167e824a3498496eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:39 +0000
Subject: [PATCH 081/166] fix: wireSome skips bodies without shape

---
 py/_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/_utils.cpp b/py/_utils.cpp
index 7567e81..0b5a88b 100644
--- a/py/_utils.cpp
+++ b/py/_utils.cpp
@@ -201,7 +201,7 @@ void wireSome(string filter){
 	int mode=(filter=="none"?none:(filter=="all"?all:(filter=="noSpheres"?noSpheres:unknown)));
 	if(mode==unknown) { LOG_WARN("Unknown wire filter `"<<filter<<"', using noSpheres instead."); mode=noSpheres; }
 	FOREACH(const shared_ptr<Body>& b, *Omega::instance().getScene()->bodies){
-		if(!b->shape) return;
+		if(!b->shape) continue;
 		bool wire;
 		switch(mode){
 			case none: wire=false; break;
-- 
2.43.0


From 87161eefd87dbc9366dd165ecb6c217db44f1d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:40 +0000
Subject: [PATCH 082/166] fix: interactionAnglesHistogram last bin

---
 py/_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/_utils.cpp b/py/_utils.cpp
index 0b5a88b..4fd582b 100644
--- a/py/_utils.cpp
+++ b/py/_utils.cpp
@@ -58,7 +58,7 @@ py::tuple interactionAnglesHistogram(int axis, int mask, size_t bins, py::tuple
 		Vector3r n(geom->normal); n[axis]=0.; Real nLen=n.norm();
 		if(nLen<minProjLen) continue; // this interaction is (almost) exactly parallel to our axis; skip that one
 		Real theta=acos(n[axis2]/nLen)*(n[axis3]>0?1:-1); if(theta<0) theta+=Mathr::PI;
-		int binNo=theta/binStep;
+		size_t binNo=min((size_t)(theta/binStep),bins-1); // theta may be π exactly
 		cummProj[binNo]+=nLen;
 	}
 	py::list val,binMid;
-- 
2.43.0


From f67fb77545a72c22916cc7ca9d71311e9347c6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:40 +0000
Subject: [PATCH 083/166] fix: growParticle checks the body

---
 pkg/dem/Shop_02.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index 358b620..e4b21b0 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -861,6 +861,7 @@ void Shop::growParticles(Real multiplier, bool updateMass, bool dynamicOnly)
 void Shop::growParticle(Body::id_t bodyID, Real multiplier, bool updateMass)
 {
 	const shared_ptr<Body>& b = Body::byId(bodyID);
+	if (!b || !dynamic_cast<Sphere*>(b->shape.get())) throw std::invalid_argument(("Body #"+boost::lexical_cast<string>(bodyID)+" is not a sphere.").c_str());
 	Real& rad = YADE_CAST<Sphere*>(b->shape.get())->radius;	
 	rad *= multiplier;
 	if (updateMass) {b->state->mass*=pow(multiplier,3); b->state->inertia*=pow(multiplier,5);}
-- 
2.43.0


From 126c268b940d53a549941d7e6492f3cc07b38f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:40 +0000
Subject: [PATCH 084/166] fix: getBodyIdsContacts lists contacts only

---
 pkg/dem/Shop_02.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index e4b21b0..6c5a257 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -790,9 +790,10 @@ py::list Shop::getBodyIdsContacts(Body::id_t bodyID) {
 	
 	const shared_ptr<Scene>& scene=Omega::instance().getScene();
 	const shared_ptr<Body>& b = Body::byId(bodyID,scene);
+	if (!b) throw std::invalid_argument(("No body #"+boost::lexical_cast<string>(bodyID)).c_str());
 	
 	for(Body::MapId2IntrT::iterator it=b->intrs.begin(),end=b->intrs.end(); it!=end; ++it) {
-		ret.append((*it).first);
+		if ((*it).second->isReal()) ret.append((*it).first);
 	}
 	return ret;
 }
-- 
2.43.0


From 6ae88948800013a7486e66c11b28c39f086fe18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:40 +0000
Subject: [PATCH 085/166] fix: layer limits in getDepthProfiles

---
 pkg/dem/Shop_02.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index 6c5a257..27b00e6 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -645,8 +645,9 @@ py::tuple Shop::getDepthProfiles(Real vCell, int nCell, Real dz, Real zRef,bool
 		numLayer = minZ;
 		while (numLayer<=maxZ){
 			if ((numLayer>=0)&&(numLayer<nCell)){ //average under zRef does not interest us, avoid also negative values not compatible with the evaluation of volPart
-				zInf=(numLayer-Np-1)*dz + deltaCenter;
-				zSup=(numLayer-Np)*dz + deltaCenter;
+				// limits of the layer relative to the center of the particle
+				zInf=(numLayer-Np)*dz - deltaCenter;
+				zSup=(numLayer-Np+1)*dz - deltaCenter;
 				if (zInf<-s->radius) zInf = -s->radius;
 				if (zSup>s->radius) zSup = s->radius;
 
-- 
2.43.0


From c004cd32847b72cebadadf90c5daac6ca7a6283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:40 +0000
Subject: [PATCH 086/166] fix: getTotalDynamicStress bodies and sign

---
 pkg/dem/Shop_02.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index 27b00e6..99c2426 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -414,9 +414,10 @@ Matrix3r Shop::getTotalDynamicStress(Real volume)
     for(unsigned int i(0);i<scene->bodies->size();i++)
     {
         const shared_ptr<Body>& b = Body::byId(i, scene);
+        if(!b || b->isClumpMember()) continue; // members are counted with their clump
 		Vector3r vFluct = (scene->isPeriodic) ? scene->cell->bodyFluctuationVel(b->state->pos,b->state->vel,scene->cell->velGrad) : b->state->vel;
 		
-        kineticStressTensor+=b->state->mass*vFluct*vFluct.transpose();
+        kineticStressTensor-=b->state->mass*vFluct*vFluct.transpose();
 	}
 	
 	return kineticStressTensor/volume;
-- 
2.43.0


From 2681307ac0445d740b8373bdba0b060c4b3012f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:40 +0000
Subject: [PATCH 087/166] fix: getDynamicStress with erased and non-spherical
 bodies

---
 pkg/dem/Shop_02.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index 99c2426..07bfa02 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -382,14 +382,15 @@ py::list Shop::getDynamicStress()
 	for(unsigned int i(0);i<scene->bodies->size();i++)
     {
         const shared_ptr<Body>& b = Body::byId(i, scene);
+        if(!b) { kineticStressTensors.append(Matrix3r(Matrix3r::Zero())); continue; }
 		Vector3r vFluct = (scene->isPeriodic) ? scene->cell->bodyFluctuationVel(b->state->pos,b->state->vel,scene->cell->velGrad) : b->state->vel;
 		
-        Sphere * s = YADE_CAST<Sphere*>(b->shape.get());
+        Sphere * s = dynamic_cast<Sphere*>(b->shape.get());
         
         if(s)
-            kineticStressTensors.append(-(3.0/(4.0*M_PI*pow(s->radius,3)))*b->state->mass*vFluct*vFluct.transpose());
+            kineticStressTensors.append(Matrix3r(-(3.0/(4.0*M_PI*pow(s->radius,3)))*b->state->mass*vFluct*vFluct.transpose()));
         else
-            kineticStressTensors.append(Matrix3r::Zero());
+            kineticStressTensors.append(Matrix3r(Matrix3r::Zero()));
 	}
 	
 	return kineticStressTensors;
-- 
2.43.0


From 4dfc605deb2dc104a564df7362a784532af6c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:41 +0000
Subject: [PATCH 088/166] fix: voxel porosity skips non-spheres

---
 pkg/dem/Shop_01.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/Shop_01.cpp b/pkg/dem/Shop_01.cpp
index 31a79a0..e68ce8a 100644
--- a/pkg/dem/Shop_01.cpp
+++ b/pkg/dem/Shop_01.cpp
@@ -354,7 +354,8 @@ Real Shop::getVoxelPorosity(const shared_ptr<Scene>& _scene, int _resolution, Ve
 		if((bi)->isClump()) continue;
 		const shared_ptr<Body>& b = bi;
 		if ( b->isDynamic() || b->isClumpMember() ) {
-			const shared_ptr<Sphere>& sphere = YADE_PTR_CAST<Sphere> ( b->shape );
+			const shared_ptr<Sphere> sphere = YADE_PTR_DYN_CAST<Sphere> ( b->shape );
+			if(!sphere) continue;
 			Real r       = sphere->radius;
 			Real rr      = r*r;
 			Vector3r pos = b->state->se3.position;
-- 
2.43.0


From 07067fa1015450148da168bca1fb0716d9f7e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:41 +0000
Subject: [PATCH 089/166] fix: momentum and angular momentum of clumps and
 spheres

---
 pkg/dem/Shop_01.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/Shop_01.cpp b/pkg/dem/Shop_01.cpp
index e68ce8a..b8fc0d5 100644
--- a/pkg/dem/Shop_01.cpp
+++ b/pkg/dem/Shop_01.cpp
@@ -189,6 +189,7 @@ Vector3r Shop::momentum() {
 	Vector3r ret = Vector3r::Zero();
 	Scene* scene=Omega::instance().getScene().get();
 	FOREACH(const shared_ptr<Body> b, *scene->bodies){
+		if(!b || b->isClumpMember()) continue; // members are counted with their clump
 		ret += b->state->mass * b->state->vel;
 	}
 	return ret;
@@ -197,10 +198,11 @@ Vector3r Shop::momentum() {
 Vector3r Shop::angularMomentum(Vector3r origin) {
 	Vector3r ret = Vector3r::Zero();
 	Scene* scene=Omega::instance().getScene().get();
-	Matrix3r T,Iloc;
 	FOREACH(const shared_ptr<Body> b, *scene->bodies){
+		if(!b || b->isClumpMember()) continue; // members are counted with their clump
 		ret += (b->state->pos-origin).cross(b->state->mass * b->state->vel);
-		ret += b->state->angMom;
+		// State::angMom is only integrated for aspherical bodies
+		ret += b->isAspherical() ? b->state->angMom : Vector3r(b->state->inertia.cwiseProduct(b->state->angVel));
 	}
 	return ret;
 }
-- 
2.43.0


From f9052b72a4db393467689b5df7a8a15c5b6cc87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:41 +0000
Subject: [PATCH 090/166] fix: right-handed principal axes of tetrahedra

---
 pkg/dem/Tetra.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dem/Tetra.cpp b/pkg/dem/Tetra.cpp
index af89d6b..18bf1ef 100644
--- a/pkg/dem/Tetra.cpp
+++ b/pkg/dem/Tetra.cpp
@@ -1152,6 +1152,7 @@ Quaternionr TetrahedronWithLocalAxesPrincipal(shared_ptr<Body>& tetraBody){
 	Matrix3r I_old=TetrahedronInertiaTensor(tMold->v); //≡TetrahedronCentralInertiaTensor
 	Matrix3r I_rot(Matrix3r::Zero()), I_new(Matrix3r::Zero()); 
 	matrixEigenDecomposition(I_old,I_rot,I_new);
+	if(I_rot.determinant()<0) I_rot.col(0)*=-1; // eigenvectors may come out left-handed, which no rotation can represent
 	Quaternionr I_Qrot(I_rot);
 	//! @fixme from right to left: rotate by I_rot, then add original rotation (?!!)
 	rbp->se3.orientation=rbp->se3.orientation*I_Qrot;
-- 
2.43.0


From bff4a8ec429d112b56b550adfac1bc38b9b924ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:41 +0000
Subject: [PATCH 091/166] fix: products of inertia of a tetrahedron

---
 pkg/dem/Tetra.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/Tetra.cpp b/pkg/dem/Tetra.cpp
index 18bf1ef..e88d70c 100644
--- a/pkg/dem/Tetra.cpp
+++ b/pkg/dem/Tetra.cpp
@@ -1087,9 +1087,9 @@ Matrix3r TetrahedronInertiaTensor(const vector<Vector3r>& v){
 		x4*y3+x1*y4+x2*y4+x3*y4+2*x4*y4)/120.;
 
 	Matrix3r ret; ret<<
-		a   , -b__, -c__,
-		-b__, b   , -a__,
-		-c__, -a__, c    ;
+		a   , -c__, -b__,
+		-c__, b   , -a__,
+		-b__, -a__, c    ;
 	return ret;
 
 	#undef x1
-- 
2.43.0


From b89e189d30e881335c6c17a5151c6e29546f7d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:51 +0000
Subject: [PATCH 092/166] fix: LawDispatcher erases contacts the law gives up

---
 pkg/common/Dispatching.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/common/Dispatching.cpp b/pkg/common/Dispatching.cpp
index 604c24a..0d1c1e1 100644
--- a/pkg/common/Dispatching.cpp
+++ b/pkg/common/Dispatching.cpp
@@ -190,7 +190,9 @@ void LawDispatcher::action(){
 	#endif
 		if(I->isReal()){
 			assert(I->geom); assert(I->phys);
-			operator()(I->geom,I->phys,I.get());
+			bool swap=false; // not used, geom and phys are of different types
+			const shared_ptr<LawFunctor> law=getFunctor2D(I->geom,I->phys,swap);
+			if(law && !law->go(I->geom,I->phys,I.get())) scene->interactions->requestErase(I); // as in InteractionLoop
 			if(!I->isReal() && I->isFresh(scene)) LOG_ERROR("Law functor deleted interaction that was just created. Please report bug: either this message is spurious, or the functor (or something else) is buggy.");
 		}
 	}
-- 
2.43.0


From 5af71db9694fdda8cd6a9004195bc39806dcf6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:51 +0000
Subject: [PATCH 093/166] fix: pairs without geometry functor in the
 IGeomDispatcher engine

---
 pkg/common/Dispatching.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/common/Dispatching.cpp b/pkg/common/Dispatching.cpp
index 0d1c1e1..1b5c83b 100644
--- a/pkg/common/Dispatching.cpp
+++ b/pkg/common/Dispatching.cpp
@@ -113,13 +113,19 @@ void IGeomDispatcher::action(){
 				scene->interactions->requestErase(I);
 				continue;
 			}
-			const shared_ptr<Body>& b1=(*bodies)[I->getId1()];
-			const shared_ptr<Body>& b2=(*bodies)[I->getId2()];
+			shared_ptr<Body> b1=(*bodies)[I->getId1()];
+			shared_ptr<Body> b2=(*bodies)[I->getId2()];
 
 			if(!b1 || !b2){ LOG_DEBUG("Body #"<<(b1?I->getId2():I->getId1())<<" vanished, erasing intr #"<<I->getId1()<<"+#"<<I->getId2()<<"!"); scene->interactions->requestErase(I); continue; }
 
 			bool wasReal=I->isReal();
 			if (!b1->shape || !b2->shape) { assert(!wasReal); continue; } // some bodies do not have shape
+			if(!I->functorCache.geom){
+				bool swap=false;
+				I->functorCache.geom=getFunctor2D(b1->shape,b2->shape,swap);
+				if(!I->functorCache.geom) continue; // no functor for these shapes
+				if(swap) { I->swapOrder(); std::swap(b1,b2); }
+			}
 			bool geomCreated;
 			//const bool forceFalse=false;
 			if(!isPeriodic){
-- 
2.43.0


From 647844e663c62925628972f3ecd9ad5b2dfbf3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:51 +0000
Subject: [PATCH 094/166] fix: periodic image and unforced use in
 IGeomDispatcher::explicitAction

---
 pkg/common/Dispatching.cpp | 41 ++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/pkg/common/Dispatching.cpp b/pkg/common/Dispatching.cpp
index 1b5c83b..fbf04f7 100644
--- a/pkg/common/Dispatching.cpp
+++ b/pkg/common/Dispatching.cpp
@@ -68,30 +68,27 @@ shared_ptr<Interaction> IGeomDispatcher::explicitAction(const shared_ptr<Body>&
 	scene=Omega::instance().getScene().get(); // to make sure if called from outside of the loop
 	Vector3i cellDist=Vector3i::Zero();
 	if(scene->isPeriodic) {
-		for(int i=0; i<3; i++) cellDist[i]=-(int)((b2->state->pos[i]-b1->state->pos[i])/scene->cell->getSize()[i]+.5);
+		// nearest image in cell coordinates
+		const Vector3r dist=scene->cell->hSize.inverse()*(b2->state->pos-b1->state->pos);
+		for(int i=0; i<3; i++) cellDist[i]=-(int)floor(dist[i]+.5);
 	}
-	Vector3r shift2=scene->cell->hSize*cellDist.cast<Real>();
 	updateScenePtr();
-	if(force){
-		assert(b1->shape && b2->shape);
-		shared_ptr<Interaction> I(new Interaction(b1->getId(),b2->getId()));
-		I->cellDist=cellDist;
-		// FIXME: this code is more or less duplicated from InteractionLoop :-(
-		bool swap=false;
-		I->functorCache.geom=getFunctor2D(b1->shape,b2->shape,swap);
-		if(!I->functorCache.geom) throw invalid_argument("IGeomDispatcher::explicitAction could not dispatch for given types ("+b1->shape->getClassName()+","+b2->shape->getClassName()+").");
-		if(swap){I->swapOrder();}
-		const shared_ptr<Body>& b1=Body::byId(I->getId1(),scene);
-		const shared_ptr<Body>& b2=Body::byId(I->getId2(),scene);
-		bool succ=I->functorCache.geom->go(b1->shape,b2->shape,*b1->state,*b2->state,shift2,/*force*/true,I);
-		if(!succ) throw logic_error("Functor "+I->functorCache.geom->getClassName()+"::go returned false, even if asked to force IGeom creation. Please report bug.");
-		return I;
-	} else {
-		shared_ptr<Interaction> I(new Interaction(b1->getId(),b2->getId()));
-		I->cellDist=cellDist;
-		b1->shape && b2->shape && I->functorCache.geom->go(b1->shape,b2->shape,*b1->state,*b2->state,shift2,/*force*/true,I);
-		return I;
-	}
+	shared_ptr<Interaction> I(new Interaction(b1->getId(),b2->getId()));
+	I->cellDist=cellDist;
+	if(!force && (!b1->shape || !b2->shape)) return I;
+	assert(b1->shape && b2->shape);
+	// FIXME: this code is more or less duplicated from InteractionLoop :-(
+	bool swap=false;
+	I->functorCache.geom=getFunctor2D(b1->shape,b2->shape,swap);
+	if(!I->functorCache.geom && !force) return I;
+	if(!I->functorCache.geom) throw invalid_argument("IGeomDispatcher::explicitAction could not dispatch for given types ("+b1->shape->getClassName()+","+b2->shape->getClassName()+").");
+	if(swap){I->swapOrder();}
+	const shared_ptr<Body>& bb1=Body::byId(I->getId1(),scene);
+	const shared_ptr<Body>& bb2=Body::byId(I->getId2(),scene);
+	const Vector3r shift2=scene->cell->hSize*I->cellDist.cast<Real>(); // cellDist might have changed sign
+	bool succ=I->functorCache.geom->go(bb1->shape,bb2->shape,*bb1->state,*bb2->state,shift2,force,I);
+	if(force && !succ) throw logic_error("Functor "+I->functorCache.geom->getClassName()+"::go returned false, even if asked to force IGeom creation. Please report bug.");
+	return I;
 }
 
 void IGeomDispatcher::action(){
-- 
2.43.0


From 11fb057b5858ffacfa984260f3e2500df884b166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:51 +0000
Subject: [PATCH 095/166] fix: do not cache the bound functor in the shape

---
 core/Shape.hpp             |  7 -------
 pkg/common/Dispatching.cpp | 10 ++++------
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/core/Shape.hpp b/core/Shape.hpp
index 57778e4..3f595c0 100644
--- a/core/Shape.hpp
+++ b/core/Shape.hpp
@@ -12,18 +12,11 @@
 #include<lib/multimethods/Indexable.hpp>
 #include<core/Dispatcher.hpp>
 
-#define BV_FUNCTOR_CACHE
-
-class BoundFunctor;
-
 class InternalForceFunctor;
 
 class Shape: public Serializable, public Indexable {
 	public:
 		virtual ~Shape() {}; // vtable
-		#ifdef BV_FUNCTOR_CACHE
-			shared_ptr<BoundFunctor> boundFunctor;
-		#endif
 		//! cache functor that are called for this type of DeformableElement. Used by FEInternalForceEngine
 		shared_ptr<InternalForceFunctor> internalforcefunctor;
 
diff --git a/pkg/common/Dispatching.cpp b/pkg/common/Dispatching.cpp
index fbf04f7..4e71d66 100644
--- a/pkg/common/Dispatching.cpp
+++ b/pkg/common/Dispatching.cpp
@@ -31,12 +31,10 @@ void BoundDispatcher::processBody(const shared_ptr<Body>& b)
 {
 		shared_ptr<Shape>& shape=b->shape;
 		if(!b->isBounded() || !shape) return;
-		#ifdef BV_FUNCTOR_CACHE
-		if(!shape->boundFunctor){ shape->boundFunctor=this->getFunctor1D(shape); if(!shape->boundFunctor) return; }
-		shape->boundFunctor->go(shape,b->bound,b->state->se3,b.get());
-		#else
-		operator()(shape,b->bound,b->state->se3,b.get());
-		#endif
+		// no functor is remembered in the shape: it would survive the replacement of the collider and of the scene
+		const shared_ptr<BoundFunctor> boundFunctor=getFunctor1D(shape);
+		if(!boundFunctor) return;
+		boundFunctor->go(shape,b->bound,b->state->se3,b.get());
 		if(!b->bound) return; // the functor did not create new bound
 		Real& sweepLength = b->bound->sweepLength;
 		if (targetInterv>=0 and scene->iter>b->bound->lastUpdateIter) {//at iteration zero checking displacement makes no sense
-- 
2.43.0


From 1326e5df1a155a008e8947854e61872239107c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:52 +0000
Subject: [PATCH 096/166] fix: dispatch does not depend on earlier dispatches

---
 lib/multimethods/DynLibDispatcher.hpp | 41 +++++++++------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/lib/multimethods/DynLibDispatcher.hpp b/lib/multimethods/DynLibDispatcher.hpp
index ae09e32..fbd17f5 100644
--- a/lib/multimethods/DynLibDispatcher.hpp
+++ b/lib/multimethods/DynLibDispatcher.hpp
@@ -268,32 +268,17 @@ class DynLibDispatcher
 		bool locateMultivirtualFunctor1D(int& index, shared_ptr<BaseClass1>& base) {
 			if(callBacks.empty()) return false;
 			index = base->getClassIndex();
-			assert( index >= 0 && (unsigned int)( index ) < callBacks.size());
+			if(index<0) return false; // top-level class, not dispatchable
+			assert((unsigned int)( index ) < callBacks.size());
 			if(callBacks[index]) return true;
 			
-			int depth=1;
-			int index_tmp = base->getBaseClassIndex(depth);
-			while(1)
-				if(index_tmp == -1)
-					return false;
-				else
-					if(callBacks[index_tmp])
-					{
-						// BEGIN FIXME - this should be a separate function to resize stuff
-						//cerr << index << " " << index_tmp << endl;
-						if( callBacksInfo.size() <= (unsigned int)index )
-							callBacksInfo.resize(index+1);
-						if( callBacks.size() <= (unsigned int)index )
-							callBacks.resize(index+1);
-						// END
-						callBacksInfo[index] = callBacksInfo[index_tmp];
-						callBacks    [index] = callBacks    [index_tmp];
-						return true;
-					}
-					else
-						index_tmp = base->getBaseClassIndex(++depth);
-		
-			return false; // FIXME - this line should be not needed
+			// Walk up the hierarchy. The result is deliberately not stored in the matrix: it would be taken for a registered functor afterwards,
+			// and this function is called from parallel sections.
+			for(int depth=1; ; depth++){
+				index = base->getBaseClassIndex(depth);
+				if(index == -1) return false;
+				if(callBacks[index]) return true;
+			}
 		}
 
 		bool locateMultivirtualFunctor2D(int& index1, int& index2, shared_ptr<BaseClass1>& base1, shared_ptr<BaseClass2>& base2) {
@@ -301,7 +286,7 @@ class DynLibDispatcher
 			#define _DISP_TRACE(msg)
 			if(callBacks.empty()) return false;
 			index1=base1->getClassIndex(); index2 = base2->getClassIndex();
-			assert(index1>=0); assert(index2>=0); 
+			if(index1<0 || index2<0) return false; // top-level class, not dispatchable
 			assert((unsigned int)(index1)<callBacks.size()); assert((unsigned int)(index2)<callBacks[index1].size());
 			_DISP_TRACE("arg1: "<<base1->getClassName()<<"="<<index1<<"; arg2: "<<base2->getClassName()<<"="<<index2)
 			/* This is python code for the algorithm:
@@ -344,13 +329,13 @@ class DynLibDispatcher
 							cerr<<__FILE__<<":"<<__LINE__<<": ambiguous 2d dispatch ("<<"arg1="<<base1->getClassName()<<", arg2="<<base2->getClassName()<<", distance="<<dist<<"), dispatch matrix:"<<endl;
 							dumpDispatchMatrix2D(cerr,"AMBIGUOUS: "); throw runtime_error("Ambiguous dispatch.");
 						}
+						// the result is deliberately not stored at [index1][index2]: it would be taken for a registered functor afterwards,
+						// and this function is called from parallel sections
 						foundIx1=ix1; foundIx2=ix2;
-						callBacks[index1][index2]=callBacks[ix1][ix2];
-						callBacksInfo[index1][index2]=callBacksInfo[ix1][ix2];
 						_DISP_TRACE("Found callback ["<<ix1<<"]["<<ix2<<"] → "<<callBacks[ix1][ix2]->getClassName());
 					}
 				}
-				if(foundIx1!=-1) return true;
+				if(foundIx1!=-1) { index1=foundIx1; index2=foundIx2; return true; }
 				if(distTooBig){
 					_DISP_TRACE("Undefined dispatch, dist="<<dist);
 					return false; /* undefined dispatch */
-- 
2.43.0


From 17b29704a662c5dee71e07b4db2e3121ace49178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:52 +0000
Subject: [PATCH 097/166] fix: class index of LudingPhys

---
 pkg/dem/LudingPM.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dem/LudingPM.hpp b/pkg/dem/LudingPM.hpp
index f81372f..0fb6dc4 100644
--- a/pkg/dem/LudingPM.hpp
+++ b/pkg/dem/LudingPM.hpp
@@ -42,6 +42,7 @@ class LudingPhys : public FrictPhys{
 		((Real,G0,NaN,,"Viscous damping")),
 		createIndex();
 	)
+	REGISTER_CLASS_INDEX(LudingPhys,FrictPhys);
 };
 REGISTER_SERIALIZABLE(LudingPhys);
 
-- 
2.43.0


From 6201d317948b0d56e4e51f711bde2707d9db7161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:52 +0000
Subject: [PATCH 098/166] fix: dispatch base of MortarPhys

---
 pkg/dem/MortarMat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/MortarMat.hpp b/pkg/dem/MortarMat.hpp
index 60225dc..b25a395 100644
--- a/pkg/dem/MortarMat.hpp
+++ b/pkg/dem/MortarMat.hpp
@@ -58,7 +58,7 @@ class MortarPhys: public FrictPhys {
 			.def("failureCondition",&MortarPhys::failureCondition,"Failure condition from normal stress and norm of shear stress (false=elastic, true=damaged)")
 		);
 		DECLARE_LOGGER;
-		REGISTER_CLASS_INDEX(MortarPhys,NormShearPhys);
+		REGISTER_CLASS_INDEX(MortarPhys,FrictPhys);
 };
 REGISTER_SERIALIZABLE(MortarPhys);
 
-- 
2.43.0


From 1ea51d05caaf2aa014032843e66bbe508a007fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:52 +0000
Subject: [PATCH 099/166] fix: shadowed attributes of MortarMat

---
 pkg/dem/MortarMat.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/dem/MortarMat.hpp b/pkg/dem/MortarMat.hpp
index b25a395..e20a49b 100644
--- a/pkg/dem/MortarMat.hpp
+++ b/pkg/dem/MortarMat.hpp
@@ -18,9 +18,6 @@ namespace py=boost::python;
 class MortarMat: public FrictMat {
 	public:
 		YADE_CLASS_BASE_DOC_ATTRS_CTOR(MortarMat,FrictMat,"Material for mortar interface, used in Ip2_MortarMat_MortarMat_MortarPhys and Law2_ScGeom_MortarPhys_Lourenco. Default values according to ",
-			((Real,young,1e9,,"Normal elastic modulus [Pa]"))
-			((Real,poisson,1,,"Shear to normal modulus ratio"))
-			((Real,frictionAngle,.25,,"Friction angle"))
 			//
 			((Real,tensileStrength,1e6,,"tensileStrength [Pa]"))
 			((Real,compressiveStrength,10e6,,"compressiveStrength [Pa]"))
@@ -28,7 +25,7 @@ class MortarMat: public FrictMat {
 			((Real,ellAspect,3,,"aspect ratio of elliptical 'cap'. Value >1 means the ellipse is longer along normal stress axis."))
 			((bool,neverDamage,false,,"If true, interactions remain elastic regardless stresses"))
 			,
-			createIndex();
+			createIndex(); young=1e9; poisson=1; frictionAngle=.25;
 		);
 		REGISTER_CLASS_INDEX(MortarMat,FrictMat);
 };
-- 
2.43.0


From fa3c596a39d7069146bb3ac285c98bc8e8569421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:52 +0000
Subject: [PATCH 100/166] fix: condition of noRatch in L3Geom

---
 pkg/dem/L3Geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/L3Geom.cpp b/pkg/dem/L3Geom.cpp
index 182061d..d773926 100644
--- a/pkg/dem/L3Geom.cpp
+++ b/pkg/dem/L3Geom.cpp
@@ -115,7 +115,7 @@ void Ig2_Sphere_Sphere_L3Geom::handleSpheresLikeContact(const shared_ptr<Interac
 	Vector3r normTwistVec=avgNormal*scene->dt*.5*avgNormal.dot(state1.angVel+state2.angVel);
 	// compute relative velocity
 	// noRatch: take radius or current distance as the branch vector; see discussion in ScGeom::precompute (avoidGranularRatcheting)
-	Vector3r c1x=((noRatch && !(r1>0)) ? ( r1*normal).eval() : (contPt-state1.pos).eval()); // used only for sphere-sphere
+	Vector3r c1x=((noRatch && r1>0) ? ( r1*normal).eval() : (contPt-state1.pos).eval()); // used only for sphere-sphere
 	Vector3r c2x=(noRatch ? (-r2*normal).eval() : (contPt-state2.pos+shift2).eval());
 	//Vector3r state2velCorrected=state2.vel+(scene->isPeriodic?scene->cell->intrShiftVel(I->cellDist):Vector3r::Zero()); // velocity of the second particle, corrected with meanfield velocity if necessary
 	//cerr<<"correction "<<(scene->isPeriodic?scene->cell->intrShiftVel(I->cellDist):Vector3r::Zero())<<endl;
-- 
2.43.0


From f9e2d6b87c117ff9204783d5d46995a51e243be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:53 +0000
Subject: [PATCH 101/166] fix: createInteraction needs shape and material

---
 pkg/dem/Shop_02.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index 07bfa02..1718c0d 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -118,6 +118,7 @@ shared_ptr<Interaction> Shop::createExplicitInteraction(Body::id_t id1, Body::id
 	if(!geomMeta) throw runtime_error("No IGeomDispatcher in engines or inside InteractionLoop.");
 	if(!physMeta) throw runtime_error("No IPhysDispatcher in engines or inside InteractionLoop.");
 	shared_ptr<Body> b1=Body::byId(id1,rb), b2=Body::byId(id2,rb);
+	for(const auto& b : {b1,b2}) if(!b->shape || !b->material) throw runtime_error(("Body #"+boost::lexical_cast<string>(b->getId())+" has no shape or no material.").c_str());
 	shared_ptr<Interaction> i=geomMeta->explicitAction(b1,b2,/*force*/force);
 	assert(force && i);
 	if(!i) return i;
-- 
2.43.0


From 39954a0f5d2269077ed290036bb9239b6af47374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:53 +0000
Subject: [PATCH 102/166] fix: layers of HydroForceEngine.averageProfile

---
 pkg/common/HydroForceEngine.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/common/HydroForceEngine.cpp b/pkg/common/HydroForceEngine.cpp
index 015050a..5d47d22 100644
--- a/pkg/common/HydroForceEngine.cpp
+++ b/pkg/common/HydroForceEngine.cpp
@@ -108,8 +108,9 @@ void HydroForceEngine::averageProfile(){
 		numLayer = minZ;
 		while (numLayer<=maxZ){
 			if ((numLayer>=0)&&(numLayer<nMax)){ //average under zRef does not interest us, avoid also negative values not compatible with the evaluation of volPart
-				zInf=(numLayer-Np-1)*deltaZ + deltaCenter;
-				zSup=(numLayer-Np)*deltaZ + deltaCenter;
+				// limits of the layer relative to the center of the particle
+				zInf=(numLayer-Np)*deltaZ - deltaCenter;
+				zSup=(numLayer-Np+1)*deltaZ - deltaCenter;
 				if (zInf<-s->radius) zInf = -s->radius;
 				if (zSup>s->radius) zSup = s->radius;
 
-- 
2.43.0


From 71e39eeab55dd7cfb8bbfc961773f482267e146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:53 +0000
Subject: [PATCH 103/166] fix: shadowed young of PolyhedraMat

---
 pkg/dem/Polyhedra.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/Polyhedra.hpp b/pkg/dem/Polyhedra.hpp
index 7b4f5fa..c99a77d 100644
--- a/pkg/dem/Polyhedra.hpp
+++ b/pkg/dem/Polyhedra.hpp
@@ -182,9 +182,8 @@ class PolyhedraMat: public FrictMat{
 		((int,Wei_m,-1,,"Weibull Formulation, Weibull modulus, m, (if negative - disabled), [Gladky2017]_"))
 		((Real,Wei_S0,-1,,"Weibull Formulation, Sigma0, Pa, (if negative - disabled), [Gladky2017]_"))
 		((Real,Wei_V0,1e-9,,"Weibull Formulation, V0, m^3, representative volume, [Gladky2017]_."))
-		((Real,Wei_P,-1,,"Weibull Formulation, failure  probability, P, [Gladky2017]_."))
-		((Real,young,1e8,,"Young modulus")),
-		/*ctor*/ createIndex();
+		((Real,Wei_P,-1,,"Weibull Formulation, failure  probability, P, [Gladky2017]_.")),
+		/*ctor*/ createIndex(); young=1e8;
 	);
 	REGISTER_CLASS_INDEX(PolyhedraMat,FrictMat);
 };
-- 
2.43.0


From 22de088a36a44e08edaab1b0cf5d2a7b3897e809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:53 +0000
Subject: [PATCH 104/166] fix: shadowed ks of InelastCohFrictPhys

---
 pkg/dem/InelastCohFrictPM.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/dem/InelastCohFrictPM.hpp b/pkg/dem/InelastCohFrictPM.hpp
index 4dceeb3..7580103 100644
--- a/pkg/dem/InelastCohFrictPM.hpp
+++ b/pkg/dem/InelastCohFrictPM.hpp
@@ -62,7 +62,6 @@ class InelastCohFrictPhys : public FrictPhys
 		((Real,knT,0,,"tension stiffness"))
 		((Real,knC,0,,"compression stiffness"))
 		((Real,ktw,0,,"twist shear stiffness"))
-		((Real,ks,0,,"shear stiffness"))
 		((Real,kr,0,,"bending stiffness"))
 		
 		((Real,maxElB,0.0,,"Maximum bending elastic moment."))
-- 
2.43.0


From 0daf684a662feb060655d45403cc77e53497d0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:53 +0000
Subject: [PATCH 105/166] fix: shadowed shrinkFactor of
 Ig2_PFacet_PFacet_ScGeom

---
 pkg/common/PFacet.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/common/PFacet.hpp b/pkg/common/PFacet.hpp
index 79d685e..f9ca338 100644
--- a/pkg/common/PFacet.hpp
+++ b/pkg/common/PFacet.hpp
@@ -101,8 +101,7 @@ class Ig2_PFacet_PFacet_ScGeom: public Ig2_Sphere_PFacet_ScGridCoGeom{
 					const Vector3r& shift2,
 					const bool& force,
 					const shared_ptr<Interaction>& c);
-	YADE_CLASS_BASE_DOC_ATTRS(Ig2_PFacet_PFacet_ScGeom,Ig2_Sphere_PFacet_ScGridCoGeom,"Create/update a :yref:`ScGridCoGeom` instance representing intersection of :yref:`Facet` and :yref:`Sphere`.",
-		((Real,shrinkFactor,((void)"no shrinking",0),,"The radius of the inscribed circle of the facet is decreased by the value of the sphere's radius multipled by *shrinkFactor*. From the definition of contact point on the surface made of facets, the given surface is not continuous and becomes in effect surface covered with triangular tiles, with gap between the separate tiles equal to the sphere's radius multiplied by 2×*shrinkFactor*. If zero, no shrinking is done."))
+	YADE_CLASS_BASE_DOC(Ig2_PFacet_PFacet_ScGeom,Ig2_Sphere_PFacet_ScGridCoGeom,"Create/update a :yref:`ScGridCoGeom` instance representing intersection of :yref:`Facet` and :yref:`Sphere`."
 	);
 	DECLARE_LOGGER;
 	FUNCTOR2D(PFacet,PFacet);
-- 
2.43.0


From 60bc979472ad7d6abe9e2a50328c2a8b16d3d2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:54 +0000
Subject: [PATCH 106/166] fix: shadowed strainDamping of ThreeDTriaxialEngine

---
 pkg/dem/ThreeDTriaxialEngine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/ThreeDTriaxialEngine.hpp b/pkg/dem/ThreeDTriaxialEngine.hpp
index 5400761..f4bd914 100644
--- a/pkg/dem/ThreeDTriaxialEngine.hpp
+++ b/pkg/dem/ThreeDTriaxialEngine.hpp
@@ -62,7 +62,6 @@ class ThreeDTriaxialEngine : public TriaxialStressController
 		((bool, stressControl_1,true,,"Switch to choose a stress or a strain control in directions 1"))
 		((bool, stressControl_2,true,,"Switch to choose a stress or a strain control in directions 2"))
 		((bool, stressControl_3,true,,"Switch to choose a stress or a strain control in directions 3"))
-		((Real, strainDamping,0.9997,,"factor used for smoothing changes in effective strain rate. If target rate is TR, then (1-damping)*(TR-currentRate) will be added at each iteration. With damping=0, rate=target all the time. With damping=1, it doesn't change."))
 		((std::string,Key,"",,"A string appended at the end of all files, use it to name simulations."))
 		,
 		translationAxisy=Vector3r(0,1,0);
@@ -70,6 +69,7 @@ class ThreeDTriaxialEngine : public TriaxialStressController
 		translationAxisz=Vector3r(0,0,1);
 		firstRun=true;
 		boxVolume=0;
+		strainDamping=0.9997;
 		,
 		.def("setContactProperties",&ThreeDTriaxialEngine::setContactProperties,"Assign a new friction angle (degrees) to dynamic bodies and relative interactions")
 		)
-- 
2.43.0


From 1b9c8a30238b4cd06c4ba264d676a4feb036a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:54 +0000
Subject: [PATCH 107/166] fix: shadowed density of DeformableElementMaterial

---
 pkg/dem/deformablecohesive/LinElastMat.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/deformablecohesive/LinElastMat.hpp b/pkg/dem/deformablecohesive/LinElastMat.hpp
index 3b52aae..ae85467 100644
--- a/pkg/dem/deformablecohesive/LinElastMat.hpp
+++ b/pkg/dem/deformablecohesive/LinElastMat.hpp
@@ -12,9 +12,8 @@
 class DeformableElementMaterial: public Material{
 	public:
 	virtual ~DeformableElementMaterial();
-	YADE_CLASS_BASE_DOC_ATTRS_CTOR(DeformableElementMaterial,Material,"Deformable Element Material.",
-		((Real,density,1,,"Density of the material.")),
-		/*ctor*/ createIndex();
+	YADE_CLASS_BASE_DOC_ATTRS_CTOR(DeformableElementMaterial,Material,"Deformable Element Material.",,
+		/*ctor*/ createIndex(); density=1;
 	);
 	REGISTER_CLASS_INDEX(DeformableElementMaterial,Material);
 };
-- 
2.43.0


From f295844cb412b73a6995c2c92df5d041368c038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:54 +0000
Subject: [PATCH 108/166] fix: uninitialised vector attributes

---
 pkg/common/Box.hpp              |  2 +-
 pkg/common/KinematicEngines.hpp |  2 +-
 pkg/dem/DemXDofGeom.hpp         |  4 ++--
 pkg/dem/DomainLimiter.hpp       |  8 ++++----
 pkg/dem/Tetra.hpp               | 10 +++++-----
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/pkg/common/Box.hpp b/pkg/common/Box.hpp
index 4ca6e35..01c04f0 100644
--- a/pkg/common/Box.hpp
+++ b/pkg/common/Box.hpp
@@ -16,7 +16,7 @@ class Box: public Shape{
 		Box(const Vector3r& _extents): extents(_extents){}
 		virtual ~Box () {};
 	YADE_CLASS_BASE_DOC_ATTRS_CTOR(Box,Shape,"Box (cuboid) particle geometry. (Avoid using in new code, prefer :yref:`Facet` instead.",
-		((Vector3r,extents,,,"Half-size of the cuboid")),
+		((Vector3r,extents,Vector3r::Zero(),,"Half-size of the cuboid")),
 		/* ctor */ createIndex();
 	);
 	REGISTER_CLASS_INDEX(Box,Shape);
diff --git a/pkg/common/KinematicEngines.hpp b/pkg/common/KinematicEngines.hpp
index df4230c..98fcaea 100644
--- a/pkg/common/KinematicEngines.hpp
+++ b/pkg/common/KinematicEngines.hpp
@@ -35,7 +35,7 @@ struct TranslationEngine: public KinematicEngine{
 	void postLoad(TranslationEngine&){ translationAxis.normalize(); }
 	YADE_CLASS_BASE_DOC_ATTRS(TranslationEngine,KinematicEngine,"Engine applying translation motion (by setting linear velocity) to subscribed bodies.",
 		((Real,velocity,,,"Scalar value of the imposed velocity [m/s]. Imposed vector velocity is :yref:`velocity<TranslationEngine.velocity>` * :yref:`axis<TranslationEngine.translationAxis>`"))
-		((Vector3r,translationAxis,,Attr::triggerPostLoad,"Direction of imposed translation [Vector3]"))
+		((Vector3r,translationAxis,Vector3r::UnitX(),Attr::triggerPostLoad,"Direction of imposed translation [Vector3]"))
 	);
 };
 REGISTER_SERIALIZABLE(TranslationEngine);
diff --git a/pkg/dem/DemXDofGeom.hpp b/pkg/dem/DemXDofGeom.hpp
index 3b3ced4..bfd12ca 100644
--- a/pkg/dem/DemXDofGeom.hpp
+++ b/pkg/dem/DemXDofGeom.hpp
@@ -8,8 +8,8 @@
 class GenericSpheresContact: public IGeom{
 	YADE_CLASS_BASE_DOC_ATTRS_CTOR(GenericSpheresContact,IGeom,
 		"Class uniting :yref:`ScGeom` and :yref:`L3Geom`, for the purposes of :yref:`GlobalStiffnessTimeStepper`. (It might be removed in the future). Do not use this class directly.",
-		((Vector3r,normal,,,"Unit vector oriented along the interaction, from particle #1, towards particle #2. |yupdate|"))
-		((Vector3r,contactPoint,,,"some reference point for the interaction (usually in the middle). |ycomp|"))
+		((Vector3r,normal,Vector3r::Zero(),,"Unit vector oriented along the interaction, from particle #1, towards particle #2. |yupdate|"))
+		((Vector3r,contactPoint,Vector3r::Zero(),,"some reference point for the interaction (usually in the middle). |ycomp|"))
 		((Real,refR1,,,"Reference radius of particle #1. |ycomp|"))
 		((Real,refR2,,,"Reference radius of particle #2. |ycomp|")),
 		createIndex();
diff --git a/pkg/dem/DomainLimiter.hpp b/pkg/dem/DomainLimiter.hpp
index 6dc4cc5..0428ca4 100644
--- a/pkg/dem/DomainLimiter.hpp
+++ b/pkg/dem/DomainLimiter.hpp
@@ -44,10 +44,10 @@ class LawTester: public PartialEngine{
 		((shared_ptr<Interaction>,I,,(Attr::hidden),"Interaction object being tracked."))
 
 		// axX, axY, axZ could be replaced by references to rows in trsf; perhaps do that in the future (in such a case, trsf would not be noSave)
-		((Vector3r,axX,,Attr::hidden,"Local x-axis in global coordinates (normal of the contact) |yupdate|"))
-		((Vector3r,axY,,Attr::hidden,"Local y-axis in global coordinates; perpendicular to axX; initialized arbitrarily, but tracked to be consistent. |yupdate|"))
-		((Vector3r,axZ,,(Attr::hidden|Attr::noSave),"Local z-axis in global coordinates; computed from axX and axY. |yupdate|"))
-		((Matrix3r,trsf,,(Attr::noSave|Attr::readonly),"Transformation matrix for the local coordinate system. |yupdate|"))
+		((Vector3r,axX,Vector3r::Zero(),Attr::hidden,"Local x-axis in global coordinates (normal of the contact) |yupdate|"))
+		((Vector3r,axY,Vector3r::Zero(),Attr::hidden,"Local y-axis in global coordinates; perpendicular to axX; initialized arbitrarily, but tracked to be consistent. |yupdate|"))
+		((Vector3r,axZ,Vector3r::Zero(),(Attr::hidden|Attr::noSave),"Local z-axis in global coordinates; computed from axX and axY. |yupdate|"))
+		((Matrix3r,trsf,Matrix3r::Identity(),(Attr::noSave|Attr::readonly),"Transformation matrix for the local coordinate system. |yupdate|"))
 		((size_t,_interpPos,0,(Attr::readonly|Attr::hidden),"State cookie for the interpolation routine."))
 		((Vector6r,uuPrev,Vector6r::Zero(),(Attr::readonly),"Generalized displacement values reached in the previous step, for knowing which increment to apply in the current step."))
 		((int,step,1,,"Step number in which this engine is active; determines position in path, using pathSteps."))
diff --git a/pkg/dem/Tetra.hpp b/pkg/dem/Tetra.hpp
index a90faa6..aad6dcd 100644
--- a/pkg/dem/Tetra.hpp
+++ b/pkg/dem/Tetra.hpp
@@ -25,7 +25,7 @@ class Tetra: public Shape{
 		Tetra(Vector3r v0, Vector3r v1, Vector3r v2, Vector3r v3) { createIndex(); v.resize(4); v[0]=v0; v[1]=v1; v[2]=v2; v[3]=v3; } 
 		virtual ~Tetra();
 	YADE_CLASS_BASE_DOC_ATTRS_CTOR(Tetra,Shape,"Tetrahedron geometry.",
-		((std::vector<Vector3r>,v,std::vector<Vector3r>(4),,"Tetrahedron vertices (in local coordinate system).")),
+		((std::vector<Vector3r>,v,std::vector<Vector3r>(4,Vector3r::Zero()),,"Tetrahedron vertices (in local coordinate system).")),
 		/*ctor*/createIndex();
 	);
 	REGISTER_CLASS_INDEX(Tetra,Shape);
@@ -47,8 +47,8 @@ class TTetraGeom: public IGeom{
 		((Real,maxPenetrationDepthA,NaN,,"??"))
 		((Real,maxPenetrationDepthB,NaN,,"??"))
 		((Real,equivalentPenetrationDepth,NaN,,"??"))
-		((Vector3r,contactPoint,,,"Contact point (global coords)"))
-		((Vector3r,normal,,,"Normal of the interaction, directed in the sense of least inertia of the overlap volume")),
+		((Vector3r,contactPoint,Vector3r::Zero(),,"Contact point (global coords)"))
+		((Vector3r,normal,Vector3r::Zero(),,"Normal of the interaction, directed in the sense of least inertia of the overlap volume")),
 		createIndex();
 	);
 	REGISTER_CLASS_INDEX(TTetraGeom,IGeom);
@@ -61,8 +61,8 @@ class TTetraSimpleGeom: public IGeom{
 		virtual ~TTetraSimpleGeom();
 	YADE_CLASS_BASE_DOC_ATTRS_CTOR(TTetraSimpleGeom,IGeom,"EXPERIMENTAL. Geometry of interaction between 2 :yref:`tetrahedra<Tetra>`",
 		((Real,penetrationVolume,NaN,,"Volume of overlap [m³]"))
-		((Vector3r,contactPoint,,,"Contact point (global coords)"))
-		((Vector3r,normal,,,"Normal of the interaction TODO"))
+		((Vector3r,contactPoint,Vector3r::Zero(),,"Contact point (global coords)"))
+		((Vector3r,normal,Vector3r::Zero(),,"Normal of the interaction TODO"))
 		((int,flag,0,,"TODO")),
 		createIndex();
 	);
-- 
2.43.0


From 6c28e7cf69d10f5c185b841d0bdfbe771cfca9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:54 +0000
Subject: [PATCH 109/166] fix: frame of an empty deformable element

---
 pkg/dem/deformablecohesive/DeformableElement.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/deformablecohesive/DeformableElement.hpp b/pkg/dem/deformablecohesive/DeformableElement.hpp
index 35a4210..8baf7c7 100644
--- a/pkg/dem/deformablecohesive/DeformableElement.hpp
+++ b/pkg/dem/deformablecohesive/DeformableElement.hpp
@@ -52,6 +52,7 @@ class DeformableElement: public Shape {
 
 		Se3r frame_get() const
 		{
+			if(localmap.empty()) return elementframe;
 			const shared_ptr<Body>& member=localmap.begin()->first;
 			return member->state->se3;
 		}
@@ -65,8 +66,8 @@ class DeformableElement: public Shape {
 
 		virtual Real getVolume(){return -1;}
 		YADE_CLASS_BASE_DOC_ATTRS_INIT_CTOR_PY(DeformableElement,Shape,"Deformable aggregate of nodes",
-		((NodeMap,localmap,,,"Ids and relative positions+orientations of members of the deformable element (should not be accessed directly)"))
-		((Se3r,elementframe,,,"Position and orientation of the element frame"))
+		((NodeMap,localmap,,Attr::hidden,"Ids and relative positions+orientations of members of the deformable element (should not be accessed directly)"))
+		((Se3r,elementframe,Se3r(Vector3r::Zero(),Quaternionr::Identity()),,"Position and orientation of the element frame"))
 		((Triangles,faces,,,"Faces of the element for drawing"))
 		,
 		,
-- 
2.43.0


From e43c7db413babfe23ca5a15b4aec34fb6ff252a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:54 +0000
Subject: [PATCH 110/166] fix: attributes without Python representation

---
 core/EnergyTracker.hpp                                   | 2 +-
 pkg/common/ParallelEngine.hpp                            | 2 +-
 pkg/dem/Integrator.hpp                                   | 2 +-
 pkg/dem/deformablecohesive/DeformableCohesiveElement.hpp | 2 +-
 py/wrapper/customConverters.cpp                          | 2 ++
 5 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/EnergyTracker.hpp b/core/EnergyTracker.hpp
index 0f375c3..e1d8bf8 100644
--- a/core/EnergyTracker.hpp
+++ b/core/EnergyTracker.hpp
@@ -62,7 +62,7 @@ class EnergyTracker: public Serializable{
 	typedef std::pair<std::string,int> pairStringInt;
 
 	YADE_CLASS_BASE_DOC_ATTRS_CTOR_PY(EnergyTracker,Serializable,"Storage for tracing energies. Only to be used if :yref:`O.trackEnergy<Omega.trackEnergy>` is True.",
-		((OpenMPArrayAccumulator<Real>,energies,,,"Energy values, in linear array"))
+		((OpenMPArrayAccumulator<Real>,energies,,Attr::hidden,"Energy values, in linear array"))
 		((mapStringInt,names,,Attr::hidden,"Associate textual name to an index in the energies array."))
 		((vector<bool>,resetStep,,Attr::hidden,"Whether the respective energy value should be reset at every step."))
 		,/*ctor*/
diff --git a/pkg/common/ParallelEngine.hpp b/pkg/common/ParallelEngine.hpp
index 927bcc9..47a53dd 100644
--- a/pkg/common/ParallelEngine.hpp
+++ b/pkg/common/ParallelEngine.hpp
@@ -13,7 +13,7 @@ class ParallelEngine: public Engine {
 		boost::python::list slaves_get();
 		void slaves_set(const boost::python::list& slaves);
 	YADE_CLASS_BASE_DOC_ATTRS_CTOR_PY(ParallelEngine,Engine,"Engine for running other Engine in parallel.",
-		((slaveContainer,slaves,,,"[will be overridden]"))
+		((slaveContainer,slaves,,Attr::hidden,"[will be overridden]"))
 		,
 		/*ctor*/
 		ompThreads=2;
diff --git a/pkg/dem/Integrator.hpp b/pkg/dem/Integrator.hpp
index 98e313f..3a54b0f 100644
--- a/pkg/dem/Integrator.hpp
+++ b/pkg/dem/Integrator.hpp
@@ -93,7 +93,7 @@ class Integrator: public TimeStepper {
 
 
 		YADE_CLASS_BASE_DOC_ATTRS_CTOR_PY(Integrator,TimeStepper,"Integration Engine Interface.",
-		((slaveContainer,slaves,,,"[will be overridden]"))
+		((slaveContainer,slaves,,Attr::hidden,"[will be overridden]"))
 		((Real,integrationsteps,,,"all integrationsteps count as all succesfull substeps"))
 		((Real,maxVelocitySq,NaN,,"store square of max. velocity, for informative purposes; computed again at every step. |yupdate|"))
 		,
diff --git a/pkg/dem/deformablecohesive/DeformableCohesiveElement.hpp b/pkg/dem/deformablecohesive/DeformableCohesiveElement.hpp
index de5a3b3..8263364 100644
--- a/pkg/dem/deformablecohesive/DeformableCohesiveElement.hpp
+++ b/pkg/dem/deformablecohesive/DeformableCohesiveElement.hpp
@@ -63,7 +63,7 @@ class DeformableCohesiveElement: public DeformableElement {
 		void delPair(const shared_ptr<Body>& node1,const shared_ptr<Body>& node2);
 
 		YADE_CLASS_BASE_DOC_ATTRS_INIT_CTOR_PY(DeformableCohesiveElement,DeformableElement,"Tetrahedral Deformable Element Composed of Nodes",
-		((NodePairsMap,nodepairs,,,"Ids and relative position+orientation difference of members of the cohesive deformable element in the inital condition (should not be accessed directly)"))
+		((NodePairsMap,nodepairs,,Attr::hidden,"Ids and relative position+orientation difference of members of the cohesive deformable element in the inital condition (should not be accessed directly)"))
 		,
 		,
 		createIndex(); /*ctor*/
diff --git a/py/wrapper/customConverters.cpp b/py/wrapper/customConverters.cpp
index 3dad926..88896ea 100644
--- a/py/wrapper/customConverters.cpp
+++ b/py/wrapper/customConverters.cpp
@@ -10,6 +10,7 @@
 #include<pkg/common/Callbacks.hpp>
 #include<pkg/dem/SpherePack.hpp>
 #include<pkg/common/KinematicEngines.hpp>
+#include<pkg/dem/deformablecohesive/FEInternalForceDispatchers.hpp>
 #ifdef YADE_OPENGL
 	#include<pkg/common/GLDrawFunctors.hpp>
 	#include<pkg/common/OpenGLRenderer.hpp>
@@ -200,6 +201,7 @@ BOOST_PYTHON_MODULE(_customConverters){
 		VECTOR_SEQ_CONV(shared_ptr<IGeomFunctor>);
 		VECTOR_SEQ_CONV(shared_ptr<IPhysFunctor>);
 		VECTOR_SEQ_CONV(shared_ptr<LawFunctor>);
+		VECTOR_SEQ_CONV(shared_ptr<InternalForceFunctor>);
 		VECTOR_SEQ_CONV(shared_ptr<IntrCallback>);
 		#ifdef YADE_BODY_CALLBACK
 			VECTOR_SEQ_CONV(shared_ptr<BodyCallback>);
-- 
2.43.0


From 0a4e62c4c15b65386c27f82ca84c03a03d2e5658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:37 +0000
Subject: [PATCH 111/166] fix: ServoPIDController synchronizes forces

---
 pkg/common/KinematicEngines.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/common/KinematicEngines.cpp b/pkg/common/KinematicEngines.cpp
index 8780efc..af0408e 100644
--- a/pkg/common/KinematicEngines.cpp
+++ b/pkg/common/KinematicEngines.cpp
@@ -142,6 +142,7 @@ void ServoPIDController::apply(const vector<Body::id_t>& ids){
   if (iterPrevStart < 0 or ((scene->iter-iterPrevStart)>=iterPeriod)) {
   
     Vector3r tmpForce = Vector3r::Zero();
+    scene->forces.sync();
     
     if (ids.size()>0) {
       FOREACH(Body::id_t id,ids){
-- 
2.43.0


From 204be05c70068b43c5c0b77cf7fc878bbb2d71bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:37 +0000
Subject: [PATCH 112/166] fix: HelixEngine skips ids out of range

---
 pkg/common/KinematicEngines.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pkg/common/KinematicEngines.cpp b/pkg/common/KinematicEngines.cpp
index af0408e..defdb2b 100644
--- a/pkg/common/KinematicEngines.cpp
+++ b/pkg/common/KinematicEngines.cpp
@@ -91,9 +91,7 @@ void HelixEngine::apply(const vector<Body::id_t>& ids){
 	if (ids.size()>0) {
 		const Real& dt=scene->dt;
 		angleTurned+=angularVelocity*dt;
-		shared_ptr<BodyContainer> bodies = scene->bodies;
 		FOREACH(Body::id_t id,ids){
-			assert(id<(Body::id_t)bodies->size());
 			Body* b=Body::byId(id,scene).get();
 			if(!b) continue;
 			b->state->vel+=linearVelocity*rotationAxis;
-- 
2.43.0


From ab87cdb6c544487e2116346507db75e442adc357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:37 +0000
Subject: [PATCH 113/166] fix: ResetRandomPosition with erased bodies

---
 pkg/common/ResetRandomPosition.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/common/ResetRandomPosition.cpp b/pkg/common/ResetRandomPosition.cpp
index c747b16..5515778 100644
--- a/pkg/common/ResetRandomPosition.cpp
+++ b/pkg/common/ResetRandomPosition.cpp
@@ -66,6 +66,7 @@ void ResetRandomPosition::action()
 	FOREACH(int id, subscribedBodies)
 	{
 		shared_ptr<Body> b = Body::byId(id);
+		if (!b) continue; // erased meanwhile
 		State* rb = b->state.get();
 		Vector3r& position = rb->se3.position;
 
-- 
2.43.0


From ccfc442a27490537b2b0dd8bd34951b21fd7930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:37 +0000
Subject: [PATCH 114/166] fix: ResetRandomPosition ignores the body being
 placed

---
 pkg/common/ResetRandomPosition.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/common/ResetRandomPosition.cpp b/pkg/common/ResetRandomPosition.cpp
index 5515778..edc2539 100644
--- a/pkg/common/ResetRandomPosition.cpp
+++ b/pkg/common/ResetRandomPosition.cpp
@@ -74,7 +74,7 @@ void ResetRandomPosition::action()
 		{
 			Vector3r backup_pos = position;
 
-			bool is_overlap;
+			bool is_overlap=true;
 
 			for (int attempt=0; attempt<maxAttempts; ++attempt)
 			{
@@ -101,6 +101,7 @@ void ResetRandomPosition::action()
 				// Test overlap with other bodies
 				vector<Body::id_t> probedBodies=bI->probeBoundingVolume(bv);
 				FOREACH(Body::id_t id, probedBodies){
+					if (id==b->getId()) continue; // the bound moves along with the body, which is always found
 					if (iGME->explicitAction(b,Body::byId(id),/*force*/false)->geom){
 						is_overlap=true;
 						break;
-- 
2.43.0


From 9e547ba4de5cf0943d75f6e38a903ab9b4c63ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:38 +0000
Subject: [PATCH 115/166] fix: ResetRandomPosition uses the orientation of
 facets

---
 pkg/common/ResetRandomPosition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/ResetRandomPosition.cpp b/pkg/common/ResetRandomPosition.cpp
index edc2539..e7d7bcd 100644
--- a/pkg/common/ResetRandomPosition.cpp
+++ b/pkg/common/ResetRandomPosition.cpp
@@ -140,7 +140,7 @@ Vector3r ResetRandomPosition::generatePositionOnSurface()
     shared_ptr<Body> facet = Body::byId(facetId);
 	Facet* ifacet = static_cast<Facet*>(facet->shape.get());
 
-	return t1*(ifacet->vertices[1]-ifacet->vertices[0])+t2*(ifacet->vertices[2]-ifacet->vertices[0])+ifacet->vertices[0]+facet->state->se3.position;
+	return facet->state->ori*(t1*(ifacet->vertices[1]-ifacet->vertices[0])+t2*(ifacet->vertices[2]-ifacet->vertices[0])+ifacet->vertices[0])+facet->state->se3.position;
     
 }
 
-- 
2.43.0


From 5222b2ddaa87bb4ad778d5d4d89740d6c6605996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:38 +0000
Subject: [PATCH 116/166] fix: StepDisplacer skips missing bodies

---
 pkg/common/StepDisplacer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/common/StepDisplacer.hpp b/pkg/common/StepDisplacer.hpp
index 498f0f8..5d11b3f 100644
--- a/pkg/common/StepDisplacer.hpp
+++ b/pkg/common/StepDisplacer.hpp
@@ -9,6 +9,7 @@ class StepDisplacer: public PartialEngine {
 		virtual void action() {
 			FOREACH(Body::id_t id, ids){
 			const shared_ptr<Body>& b=Body::byId(id,scene);
+			if(!b) continue;
 			if(setVelocities){
 				const Real& dt=scene->dt;
 				b->state->vel=mov/dt;
-- 
2.43.0


From c3d069f58c0776039c5e7bf5d3e554b8ac5e5247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:38 +0000
Subject: [PATCH 117/166] fix: TorqueEngine skips missing bodies

---
 pkg/common/TorqueEngine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/TorqueEngine.hpp b/pkg/common/TorqueEngine.hpp
index 55b5251..ff42f1c 100644
--- a/pkg/common/TorqueEngine.hpp
+++ b/pkg/common/TorqueEngine.hpp
@@ -15,7 +15,7 @@ class TorqueEngine: public PartialEngine{
 	public:
 		virtual void action() {
 			FOREACH(const Body::id_t id, ids){
-			// check that body really exists?
+			if(!(scene->bodies->exists(id))) continue;
 			scene->forces.addTorque(id,moment);
 		}
 	}
-- 
2.43.0


From d112c9b0a94c8929770ed6396a554ee3951067af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:38 +0000
Subject: [PATCH 118/166] fix: sign of the moment of forces in TorqueRecorder

---
 pkg/dem/ForceTorqueRecorder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/ForceTorqueRecorder.cpp b/pkg/dem/ForceTorqueRecorder.cpp
index 30e460a..d6cbf99 100644
--- a/pkg/dem/ForceTorqueRecorder.cpp
+++ b/pkg/dem/ForceTorqueRecorder.cpp
@@ -25,7 +25,7 @@ void TorqueRecorder::action(){
 		Body* b=Body::byId(id,scene).get();
 		
 		Vector3r tmpPos = b->state->pos;
-		Vector3r radiusVector = tmpAxis.cross(tmpAxis.cross(tmpPos - zeroPoint));
+		Vector3r radiusVector = -tmpAxis.cross(tmpAxis.cross(tmpPos - zeroPoint)); // from the axis to the body
 		
 		totalTorque+=tmpAxis.dot(scene->forces.getTorque(id)+radiusVector.cross(scene->forces.getForce(id)));
 	};
-- 
2.43.0


From 0b4fca20479044221ed49a90ed5e925fcf6afe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:38 +0000
Subject: [PATCH 119/166] fix: GlobalStiffnessTimeStepper sizes viscosity
 vectors

---
 pkg/dem/GlobalStiffnessTimeStepper.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.cpp b/pkg/dem/GlobalStiffnessTimeStepper.cpp
index 1020ff0..e7c33bf 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.cpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.cpp
@@ -152,10 +152,9 @@ void GlobalStiffnessTimeStepper::computeStiffnesses(Scene* rb){
 	if(size<rb->bodies->size()){
 		size=rb->bodies->size();
 		stiffnesses.resize(size); Rstiffnesses.resize(size);
-		if (viscEl == true){
-			viscosities.resize(size); Rviscosities.resize(size);
-			}
 	}
+	// viscEl may have been switched on after the other vectors were sized
+	if (viscEl == true && viscosities.size()<size){ viscosities.resize(size); Rviscosities.resize(size); }
 	/* reset stored values */
 	memset(& stiffnesses[0],0,sizeof(Vector3r)*size);
 	memset(&Rstiffnesses[0],0,sizeof(Vector3r)*size);
-- 
2.43.0


From 0b67aaed04e4124280badd0b48859293ae3382dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:39 +0000
Subject: [PATCH 120/166] fix: GlobalStiffnessTimeStepper respects maxDt from
 the start

---
 pkg/dem/GlobalStiffnessTimeStepper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.cpp b/pkg/dem/GlobalStiffnessTimeStepper.cpp
index e7c33bf..d29d512 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.cpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.cpp
@@ -136,11 +136,12 @@ void GlobalStiffnessTimeStepper::computeTimeStep(Scene* ncb)
 		
 	}
 	if(densityScaling) (newDt=targetDt);
+	const Real dtLimit = maxDt>0 ? maxDt : Mathr::MAX_REAL;
 	if(computedSomething || densityScaling){
-		previousDt = min ( min(newDt , maxDt), 1.05*previousDt );// at maximum, dt will be multiplied by 1.05 in one iterration, this is to prevent brutal switches from 0.000... to 1 in some computations
+		previousDt = min ( min(newDt , dtLimit), 1.05*previousDt );// at maximum, dt will be multiplied by 1.05 in one iterration, this is to prevent brutal switches from 0.000... to 1 in some computations
 		scene->dt=previousDt;
 		computedOnce = true;}
-	else if (!computedOnce) scene->dt=defaultDt;
+	else if (!computedOnce) scene->dt=min(defaultDt,dtLimit);
 // 	LOG_INFO("computed timestep " << newDt <<
 // 			(scene->dt==newDt ? string(", applied") :
 // 			string(", BUT timestep is ")+boost::lexical_cast<string>(scene->dt))<<".");
-- 
2.43.0


From 1c1bb785af5f82a996025a575f93d7416a06b405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:39 +0000
Subject: [PATCH 121/166] fix: Peri3dController ends after nSteps

---
 pkg/dem/PeriIsoCompressor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/PeriIsoCompressor.cpp b/pkg/dem/PeriIsoCompressor.cpp
index 2ff0c6b..44babf0 100644
--- a/pkg/dem/PeriIsoCompressor.cpp
+++ b/pkg/dem/PeriIsoCompressor.cpp
@@ -300,7 +300,8 @@ void Peri3dController::action(){
 
 	// increase the pathCounter by one if we cross to the next part of path
 	for (int i=0; i<6; i++) {
-		if (progress >= PATH_OP_OP(i,pathsCounter[i],0)) { pathsCounter[i]++; }
+		// (the sum of increments of progress is subject to rounding)
+		if (pathsCounter[i] < pathSizes[i]-1 && progress >= PATH_OP_OP(i,pathsCounter[i],0)-1e-9) { pathsCounter[i]++; }
 	}
 
 	/* values of prescribed stress (strain) rate in respect to prescribed path.
@@ -407,7 +408,7 @@ void Peri3dController::action(){
 	velGrad = ((rot*nonrot)*trsf.inverse()- Matrix3r::Identity()) / dt ;
 	progress += srCorr/nSteps;
 
-	if (progress >= 1. || strain.cwiseAbs().maxCoeff() > maxStrain) {
+	if (progress >= 1.-1e-9 || strain.cwiseAbs().maxCoeff() > maxStrain) {
 		if(doneHook.empty()){ LOG_INFO("No doneHook set, dying."); dead=true; Omega::instance().pause(); }
 		else{ LOG_INFO("Running doneHook: "<<doneHook);	pyRunString(doneHook);}
 	}
-- 
2.43.0


From 9824127cd8d49cfe693036e8926c107e9215b97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:39 +0000
Subject: [PATCH 122/166] fix: out-of-bounds read of paths in Peri3dController

---
 pkg/dem/PeriIsoCompressor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/PeriIsoCompressor.cpp b/pkg/dem/PeriIsoCompressor.cpp
index 44babf0..901afae 100644
--- a/pkg/dem/PeriIsoCompressor.cpp
+++ b/pkg/dem/PeriIsoCompressor.cpp
@@ -294,7 +294,7 @@ void Peri3dController::action(){
 		if (lenPe == 0) { stressBasedSimulation = true; }
 		else {
 			stressBasedSimulation = true;
-			for (int i=0; i<lenPe; i++) { stressBasedSimulation = stressBasedSimulation && PATH_OP_OP(pe(i),1,1)<1e9; }
+			for (int i=0; i<lenPe; i++) { stressBasedSimulation = stressBasedSimulation && std::abs(PATH_OP_OP(pe(i),pathSizes[pe(i)]-1,1))<1e-9; }
 		}
 	}
 
-- 
2.43.0


From 7e99c6d323d0b8713b53e2a196982dc19d3473a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:39 +0000
Subject: [PATCH 123/166] fix: SpheresFactory considers spheres without bounds

---
 pkg/dem/SpheresFactory.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/dem/SpheresFactory.cpp b/pkg/dem/SpheresFactory.cpp
index b7f446d..851a7b5 100644
--- a/pkg/dem/SpheresFactory.cpp
+++ b/pkg/dem/SpheresFactory.cpp
@@ -88,6 +88,12 @@ void SpheresFactory::action(){
 	}
 	
 	vector< SpherCoord > justCreatedBodies;
+	// spheres inserted since the last run of the collider (e.g. by another factory) have no bound yet and would not be found by probing it
+	FOREACH(const shared_ptr<Body>& b, *scene->bodies){
+		if(!b || b->bound) continue;
+		const Sphere* s=dynamic_cast<Sphere*>(b->shape.get());
+		if(s) justCreatedBodies.push_back(SpherCoord(b->state->pos,s->radius));
+	}
 	
 	// pick random initial velocity
 	Vector3r initVel;
-- 
2.43.0


From 25e8799dcd189260be13bed8d2d68348fe98a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:39 +0000
Subject: [PATCH 124/166] fix: normalization of PSDcum in SpheresFactory

---
 pkg/dem/SpheresFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/SpheresFactory.cpp b/pkg/dem/SpheresFactory.cpp
index 851a7b5..15305a0 100644
--- a/pkg/dem/SpheresFactory.cpp
+++ b/pkg/dem/SpheresFactory.cpp
@@ -56,10 +56,10 @@ void SpheresFactory::action(){
 		}
 		
 		//Make normalization of PSDcum
-		if (PSDcum[PSDcum.size()]!=1.0) {
+		if (PSDcum[PSDcum.size()-1]!=1.0) {
 			Real k;
 			k = 1.0/PSDcum[PSDcum.size()-1];
-			for (unsigned int i=1; i<PSDcum.size(); i++) {
+			for (unsigned int i=0; i<PSDcum.size(); i++) {
 				PSDcum[i] = PSDcum[i]*k;
 			}
 		}
-- 
2.43.0


From 6c0862012d1acc417b02a802f7055e86f851b2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:40 +0000
Subject: [PATCH 125/166] fix: UniaxialStrainer keeps the reversed rate

---
 pkg/dem/UniaxialStrainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/UniaxialStrainer.cpp b/pkg/dem/UniaxialStrainer.cpp
index 9fadeab..6584d7f 100644
--- a/pkg/dem/UniaxialStrainer.cpp
+++ b/pkg/dem/UniaxialStrainer.cpp
@@ -123,7 +123,7 @@ void UniaxialStrainer::action(){
 	strain=axialLength/originalLength-1;
 
 	// reverse if we're over the limit strain
-	if(notYetReversed && limitStrain!=0 && ((currentStrainRate>0 && strain>limitStrain) || (currentStrainRate<0 && strain<limitStrain))) { currentStrainRate*=-1; notYetReversed=false; LOG_INFO("Reversed strain rate to "<<currentStrainRate); }
+	if(notYetReversed && limitStrain!=0 && ((currentStrainRate>0 && strain>limitStrain) || (currentStrainRate<0 && strain<limitStrain))) { currentStrainRate*=-1; strainRate*=-1; notYetReversed=false; LOG_INFO("Reversed strain rate to "<<currentStrainRate); }
 
 	// update forces and stresses
 	if(scene->iter%stressUpdateInterval==0) {
-- 
2.43.0


From f2c44b0643cb409e209ba9b9b5fd26ab812f1f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:40 +0000
Subject: [PATCH 126/166] fix: negative stopStrain in UniaxialStrainer

---
 pkg/dem/UniaxialStrainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/UniaxialStrainer.cpp b/pkg/dem/UniaxialStrainer.cpp
index 6584d7f..af44b75 100644
--- a/pkg/dem/UniaxialStrainer.cpp
+++ b/pkg/dem/UniaxialStrainer.cpp
@@ -96,7 +96,7 @@ void UniaxialStrainer::action(){
 	if(!std::isnan(stopStrain)){
 		Real axialLength=axisCoord(posIds[0])-axisCoord(negIds[0]);
 		Real newStrain=(axialLength+dAX)/originalLength-1;
-		if((newStrain*stopStrain>0) && std::abs(newStrain)>=stopStrain){ // same sign of newStrain and stopStrain && over the limit from below in abs values
+		if((newStrain*stopStrain>0) && std::abs(newStrain)>=std::abs(stopStrain)){ // same sign of newStrain and stopStrain && over the limit from below in abs values
 			dAX=originalLength*(stopStrain+1)-axialLength;
 			LOG_INFO("Reached stopStrain "<<stopStrain<<", deactivating self and stopping in "<<idleIterations+1<<" iterations.");
 			this->active=false;
-- 
2.43.0


From 700672824f64d7841e603fb285b101243b6590ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:40 +0000
Subject: [PATCH 127/166] fix: initial acceleration in UniaxialStrainer

---
 pkg/dem/UniaxialStrainer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/UniaxialStrainer.cpp b/pkg/dem/UniaxialStrainer.cpp
index af44b75..6f2806c 100644
--- a/pkg/dem/UniaxialStrainer.cpp
+++ b/pkg/dem/UniaxialStrainer.cpp
@@ -77,6 +77,7 @@ void UniaxialStrainer::init(){
 			b->state->vel[axis]=pNormalized*(v1-v0)+v0;
 		}
 	}
+	if(std::isnan(currentStrainRate)) currentStrainRate=0;
 	if(std::isnan(crossSectionArea)){ throw std::invalid_argument("UniaxialStrain.crossSectionArea must be specified."); }
 }
 
@@ -88,7 +89,7 @@ void UniaxialStrainer::action(){
 	if(posIds.size()==0 || negIds.size()==0) return;
 	// linearly increase strain to the desired value
 	if(std::abs(currentStrainRate)<std::abs(strainRate)){
-		if(initAccelTime_s!=0) currentStrainRate=(scene->time/initAccelTime_s)*strainRate;
+		if(initAccelTime_s!=0) currentStrainRate=min((Real)1.,scene->time/initAccelTime_s)*strainRate;
 		else currentStrainRate=strainRate;
 	} else currentStrainRate=strainRate;
 	// how much do we move (in total, symmetry handled below)
-- 
2.43.0


From f5545e64f0e495076197b6b829bae71514321428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:40 +0000
Subject: [PATCH 128/166] fix: symbol clash of PWaveTimeStep

---
 py/_polyhedra_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/_polyhedra_utils.cpp b/py/_polyhedra_utils.cpp
index a38977d..14c8a88 100644
--- a/py/_polyhedra_utils.cpp
+++ b/py/_polyhedra_utils.cpp
@@ -77,7 +77,8 @@ bool do_Polyhedras_Intersect(const shared_ptr<Shape>& cm1,const shared_ptr<Shape
 
 //**********************************************************************************
 //determination of critical time step for polyhedrons & spheres (just rough estimation)
-Real PWaveTimeStep(){
+// (static: the function of the same name in _utils would be called instead)
+static Real PWaveTimeStep(){
 	const shared_ptr<Scene> _rb=shared_ptr<Scene>();
 	shared_ptr<Scene> rb=(_rb?_rb:Omega::instance().getScene());
 	Real dt=std::numeric_limits<Real>::infinity();
-- 
2.43.0


From 768ea01f4dc47e8db2c26dfaa46574dd055ca1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:40 +0000
Subject: [PATCH 129/166] fix: integer bounds for random.randint

---
 py/polyhedra_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/py/polyhedra_utils.py b/py/polyhedra_utils.py
index 9b8c080..78fcd75 100644
--- a/py/polyhedra_utils.py
+++ b/py/polyhedra_utils.py
@@ -40,9 +40,9 @@ def polyhedra(material,size=Vector3(1,1,1),seed=None,v=[],mask=1,fixed=False, co
 	if len(v)>0:
 		b.shape = Polyhedra(v=v)
 	else:
-		b.shape = Polyhedra(size = size, seed=random.randint(0,1E6))
+		b.shape = Polyhedra(size = size, seed=random.randint(0,1000000))
 	if color[0] == -1:
-		b.shape.color = randomColor(seed=random.randint(0,1E6))
+		b.shape.color = randomColor(seed=random.randint(0,1000000))
 	else:
 		b.shape.color = color
 	b.mat = material
@@ -137,22 +137,22 @@ def fillBox(mincoord, maxcoord,material,sizemin=[1,1,1],sizemax=[1,1,1],ratio=[0
 	:param float seed: random seed
 	"""
 	random.seed(seed);
-	v = fillBox_cpp(mincoord, maxcoord, sizemin,sizemax,  ratio, random.randint(0,1E6), material)
+	v = fillBox_cpp(mincoord, maxcoord, sizemin,sizemax,  ratio, random.randint(0,1000000), material)
 	#lastnan = -1
 	#for i in range(0,len(v)):
 	#	if(math.isnan(v[i][0])):
-	#		O.bodies.append(polyhedra(material,seed=random.randint(0,1E6),v=v[lastnan+1:i],mask=1,fixed=False))
+	#		O.bodies.append(polyhedra(material,seed=random.randint(0,1000000),v=v[lastnan+1:i],mask=1,fixed=False))
 	#		lastnan = i
 
 #**********************************************************************************
 #fill box [mincoord, maxcoord] by non-overlaping polyhedrons with random geometry and sizes within the range (uniformly distributed)
 def fillBoxByBalls(mincoord, maxcoord,material,sizemin=[1,1,1],sizemax=[1,1,1],ratio=[0,0,0],seed=None,mask=1,numpoints=60):
 	random.seed(seed);
-	v = fillBoxByBalls_cpp(mincoord, maxcoord, sizemin,sizemax,  ratio, random.randint(0,1E6), material,numpoints)
+	v = fillBoxByBalls_cpp(mincoord, maxcoord, sizemin,sizemax,  ratio, random.randint(0,1000000), material,numpoints)
 	#lastnan = -1
 	#for i in range(0,len(v)):
 	#	if(math.isnan(v[i][0])):
-	#		O.bodies.append(polyhedra(material,seed=random.randint(0,1E6),v=v[lastnan+1:i],mask=1,fixed=False))
+	#		O.bodies.append(polyhedra(material,seed=random.randint(0,1000000),v=v[lastnan+1:i],mask=1,fixed=False))
 	#		lastnan = i
 		
 
-- 
2.43.0


From 133aedf31dfd9c20f74203e8983450c2a5d45cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:08 +0000
Subject: [PATCH 130/166] fix: text2vtk and text2vtkSection lose the first
 particle and mix up columns

---
 py/export.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/py/export.py b/py/export.py
index 7b6f994..a01f157 100644
--- a/py/export.py
+++ b/py/export.py
@@ -1021,7 +1021,7 @@ def text2vtk(inFileName,outFileName):
 		lastLine = line
 		line = fin.readline()
 	columns = lastLine.split()[5:]
-	data = [line.split() for line in fin]
+	data = [l.split() for l in [line]+fin.readlines() if l.strip()]
 	fin.close()
 	n = len(data)
 	fout.write('# vtk DataFile Version 3.0.\ncomment\nASCII\n\nDATASET POLYDATA\nPOINTS %d double\n'%(n))
@@ -1054,7 +1054,7 @@ def text2vtkSection(inFileName,outFileName,point,normal=(1,0,0)):
 		x,y,z = computeProjectionOnPlane(dat,point,normal,d)
 		cx,cy,cz = dat[0],dat[1],dat[2]
 		return sqrt(pow(x-cx,2)+pow(y-cy,2)+pow(z-cz,2))
-	def computeProjectionOnPlane(self,point,normal,d=None):
+	def computeProjectionOnPlane(dat,point,normal,d=None):
 		# computes projection of sphere dat on plane (point,normal)
 		if d is None:
 			d = computeD(point,normal)
@@ -1070,8 +1070,8 @@ def text2vtkSection(inFileName,outFileName,point,normal=(1,0,0)):
 	while line.startswith('#'):
 		lastLine = line
 		line = fin.readline()
-	columns = lastLine.split()[4:]
-	data = [[float(w) for w in line.split()] for line in fin]
+	columns = lastLine.split()[5:]
+	data = [[float(w) for w in l.split()] for l in [line]+fin.readlines() if l.strip()]
 	fin.close()
 	#
 	d = computeD(point,normal)
@@ -1096,8 +1096,8 @@ def text2vtkSection(inFileName,outFileName,point,normal=(1,0,0)):
 	fout.writelines('%g\n'%(c[4]) for c in circs)
 	fout.write("\nVECTORS normal double\n")
 	fout.writelines("%g %g %g\n"%normal for i in circs)
-	for i,c in enumerate(columns):
-		fout.write("\nSCALARS %s double 1\nLOOKUP_TABLE default\n"%(c))
-		fout.writelines('%s\n'%(c[4+i]) for c in circs)
+	for i,column in enumerate(columns):
+		fout.write("\nSCALARS %s double 1\nLOOKUP_TABLE default\n"%(column))
+		fout.writelines('%s\n'%(c[5+i]) for c in circs)
 	fout.close()
 
-- 
2.43.0


From 6fe8a6df05f4f79887761b48c072ea007e4a6da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:08 +0000
Subject: [PATCH 131/166] fix: VTKExporter ignores numLabel=0, writes tensors
 twice and takes attributes from wrong bodies

---
 py/export.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/py/export.py b/py/export.py
index a01f157..37a405b 100644
--- a/py/export.py
+++ b/py/export.py
@@ -414,7 +414,7 @@ class VTKExporter:
 		if not bodies: return
 		nBodies = len(bodies)
 		# output file
-		fName = self.baseName+'-spheres-%08d'%(numLabel if numLabel else self.spheresSnapCount)+'.vtk'
+		fName = self.baseName+'-spheres-%08d'%(numLabel if numLabel is not None else self.spheresSnapCount)+'.vtk'
 		outFile = open(fName, 'w')
 		# head
 		outFile.write("# vtk DataFile Version 3.0.\n%s\nASCII\n\nDATASET POLYDATA\nPOINTS %d double\n"%(comment,nBodies))
@@ -463,7 +463,7 @@ class VTKExporter:
 		if not bodies: return
 		nBodies = len(bodies)
 		# output file
-		fName = self.baseName+'-facets-%08d'%(numLabel if numLabel else self.facetsSnapCount)+'.vtk'
+		fName = self.baseName+'-facets-%08d'%(numLabel if numLabel is not None else self.facetsSnapCount)+'.vtk'
 		outFile = open(fName, 'w')
 		# head
 		outFile.write("# vtk DataFile Version 3.0.\n%s\nASCII\n\nDATASET POLYDATA\nPOINTS %d double\n"%(comment,3*nBodies))
@@ -495,7 +495,7 @@ class VTKExporter:
 				for b in bodies:
 					t = eval(command)
 					outFile.write("%g %g %g\n%g %g %g\n%g %g %g\n\n"%(t[0,0],t[0,1],t[0,2],t[1,0],t[1,1],t[1,2],t[2,0],t[2,1],t[2,2]))
-			if isinstance(test,Vector3):
+			elif isinstance(test,Vector3):
 				outFile.write("\nVECTORS %s double\n"%(name))
 				for b in bodies:
 					v = eval(command)
@@ -532,7 +532,7 @@ class VTKExporter:
 		# nodes
 		nodes = [Vector3.Zero for i in xrange(max(max(e) for e in connectivityTable)+1)]
 		for id,e in zip(ids,connectivityTable):
-			b = bodies[id]
+			b = O.bodies[id]
 			p = b.state.pos
 			o = b.state.ori
 			s = b.shape
@@ -543,7 +543,7 @@ class VTKExporter:
 			nodes[e[1]] = pt2
 			nodes[e[2]] = pt3
 		# output file
-		fName = self.baseName+'-facets-%08d'%(numLabel if numLabel else self.facetsSnapCount)+'.vtk'
+		fName = self.baseName+'-facets-%08d'%(numLabel if numLabel is not None else self.facetsSnapCount)+'.vtk'
 		outFile = open(fName, 'w')
 		# head
 		outFile.write("# vtk DataFile Version 3.0.\n%s\nASCII\n\nDATASET POLYDATA\nPOINTS %d double\n"%(comment,len(nodes)))
@@ -565,7 +565,7 @@ class VTKExporter:
 				for b in bodies:
 					t = eval(command)
 					outFile.write("%g %g %g\n%g %g %g\n%g %g %g\n\n"%(t[0,0],t[0,1],t[0,2],t[1,0],t[1,1],t[1,2],t[2,0],t[2,1],t[2,2]))
-			if isinstance(test,Vector3):
+			elif isinstance(test,Vector3):
 				outFile.write("\nVECTORS %s double\n"%(name))
 				for b in bodies:
 					v = eval(command)
@@ -592,7 +592,7 @@ class VTKExporter:
 			return
 		nIntrs = len(intrs)
 		# output file
-		fName = self.baseName+'-intrs-%08d'%(numLabel if numLabel else self.intrsSnapCount)+'.vtk'
+		fName = self.baseName+'-intrs-%08d'%(numLabel if numLabel is not None else self.intrsSnapCount)+'.vtk'
 		outFile = open(fName, 'w')
 		# head
 		outFile.write("# vtk DataFile Version 3.0.\n%s\nASCII\n\nDATASET POLYDATA\nPOINTS %d double\n"%(comment,2*nIntrs))
@@ -637,7 +637,8 @@ class VTKExporter:
 		# write additional data of bodies
 		if verticesWhat:
 			outFile.write("\nPOINT_DATA %d\n"%(2*nIntrs))
-			b = b1 = b2 = O.bodies[0]
+			b = b1 = O.bodies[intrs[0][0]]
+			b2 = O.bodies[intrs[0][1]]
 		# see exportSpheres for explanation of this code block
 		for vWhat in verticesWhat:
 			lw = len(vWhat)
@@ -661,7 +662,7 @@ class VTKExporter:
 						t1 = eval(command1)
 						t2 = eval(command2)
 						outFile.write("%g %g %g\n%g %g %g\n%g %g %g\n\n"%(t1[0,0],t1[0,1],t1[0,2],t1[1,0],t1[1,1],t1[1,2],t1[2,0],t1[2,1],t1[2,2]))
-					outFile.write("%g %g %g\n%g %g %g\n%g %g %g\n\n"%(t2[0,0],t2[0,1],t2[0,2],t2[1,0],t2[1,1],t2[1,2],t2[2,0],t2[2,1],t2[2,2]))
+						outFile.write("%g %g %g\n%g %g %g\n%g %g %g\n\n"%(t2[0,0],t2[0,1],t2[0,2],t2[1,0],t2[1,1],t2[1,2],t2[2,0],t2[2,1],t2[2,2]))
 			elif isinstance(test,Vector3):
 				outFile.write("\nVECTORS %s double\n"%(name))
 				for ii,jj in intrs:
@@ -713,7 +714,7 @@ class VTKExporter:
 			return
 		nIntrs = len(intrs)
 		# output file
-		fName = self.baseName+'-cps-%08d'%(numLabel if numLabel else self.contactPointsSnapCount)+'.vtk'
+		fName = self.baseName+'-cps-%08d'%(numLabel if numLabel is not None else self.contactPointsSnapCount)+'.vtk'
 		outFile = open(fName, 'w')
 		# head
 		outFile.write("# vtk DataFile Version 3.0.\n%s\nASCII\n\nDATASET POLYDATA\nPOINTS %d double\n"%(comment,nIntrs))
@@ -774,7 +775,7 @@ class VTKExporter:
 			self._warn("exportPeriodicCell: scene is not periodic, no export...")
 			return
 		hSize = O.cell.hSize
-		fName = self.baseName+'-periCell-%08d'%(numLabel if numLabel else self.intrsSnapCount)+'.vtk'
+		fName = self.baseName+'-periCell-%08d'%(numLabel if numLabel is not None else self.intrsSnapCount)+'.vtk'
 		outFile = open(fName, 'w')
 		outFile.write("# vtk DataFile Version 3.0.\n%s\nASCII\n\nDATASET UNSTRUCTURED_GRID\nPOINTS 8 double\n"%(comment))
 		vertices = [
@@ -820,7 +821,7 @@ class VTKExporter:
 			bodyFaces.append(ff)
 		# output file
 		nFaces = sum(len(f) for f in bodyFaces)
-		fName = self.baseName+'-polyhedra-%08d'%(numLabel if numLabel else self.polyhedraSnapCount)+'.vtk'
+		fName = self.baseName+'-polyhedra-%08d'%(numLabel if numLabel is not None else self.polyhedraSnapCount)+'.vtk'
 		outFile = open(fName, 'w')
 		# head
 		outFile.write("# vtk DataFile Version 3.0.\n%s\nASCII\n\nDATASET POLYDATA\nPOINTS %d double\n"%(comment,nVertices))
-- 
2.43.0


From bf71fe24aceea77d229e321ca3aaf14cce2f8402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:08 +0000
Subject: [PATCH 132/166] fix: text exports break with multi-line comments,
 Matrix3 attributes, large ids and a wrong zhi bound

---
 py/export.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/py/export.py b/py/export.py
index 37a405b..16993c3 100644
--- a/py/export.py
+++ b/py/export.py
@@ -36,8 +36,8 @@ def textExt(filename, format='x_y_z_r', comment='',mask=-1,attrs=[]):
 			if format=='x_y_z_r_attrs':
 				cmts = comment.split('\n')
 				for cmt in cmts[:-1]:
-					output += cmt
-				output += '# x y z r ' + cmts[-1] + '\n'
+					output += (cmt if cmt.startswith('#') else '# ' + cmt) + '\n'
+				output += '# x y z r ' + cmts[-1].lstrip('#') + '\n'
 			else:
 				output += '# ' + comment + '\n'
 	
@@ -61,7 +61,7 @@ def textExt(filename, format='x_y_z_r', comment='',mask=-1,attrs=[]):
 						elif isinstance(v,Vector3):
 							output+='\t%g\t%g\t%g'%tuple(v[i] for i in xrange(3))
 						elif isinstance(v,Matrix3):
-							output+='\t%g'%tuple(v[i] for i in xrange(9))
+							output+=''.join('\t%g'%v[i,j] for i in xrange(3) for j in xrange(3))
 					output += '\n'
 				elif (format=='id_x_y_z_r_matId'):
 					output+=('%d\t%g\t%g\t%g\t%g\t%d\n'%(b.id,b.state.pos[0],b.state.pos[1],b.state.pos[2],b.shape.radius,b.material.id))
@@ -78,7 +78,7 @@ def textExt(filename, format='x_y_z_r', comment='',mask=-1,attrs=[]):
 					maxCoord = b.state.pos + Vector3(b.shape.radius,b.shape.radius,b.shape.radius)
 				else:
 					minCoord = Vector3(min(minCoord[0], b.state.pos[0]-b.shape.radius),min(minCoord[1], b.state.pos[1]-b.shape.radius),min(minCoord[2], b.state.pos[2]-b.shape.radius))
-					maxCoord = Vector3(max(maxCoord[0], b.state.pos[0]+b.shape.radius),max(maxCoord[1], b.state.pos[1]+b.shape.radius),max(minCoord[2], b.state.pos[2]+b.shape.radius))
+					maxCoord = Vector3(max(maxCoord[0], b.state.pos[0]+b.shape.radius),max(maxCoord[1], b.state.pos[1]+b.shape.radius),max(maxCoord[2], b.state.pos[2]+b.shape.radius))
 				if b.mask not in maskNumber:
 					maskNumber.append(b.mask)
 		except AttributeError:
@@ -154,7 +154,7 @@ def textClumps(filename, format='x_y_z_r_clumpId', comment='',mask=-1):
 				try:
 					b = O.bodies[ii]
 					if (isinstance(b.shape,Sphere) and ((mask<0) or ((mask&b.mask)>0))):
-						output+=('%g\t%g\t%g\t%g\t%g\n'%(b.state.pos[0],b.state.pos[1],b.state.pos[2],b.shape.radius,bC.id))
+						output+=('%g\t%g\t%g\t%g\t%d\n'%(b.state.pos[0],b.state.pos[1],b.state.pos[2],b.shape.radius,bC.id))
 						count+=1
 				except AttributeError:
 					pass
@@ -208,7 +208,7 @@ def textPolyhedra(fileName, comment='',mask=-1, explanationComment=True,attrs=[]
 				elif isinstance(v,Vector3):
 					strAttrs+=' %g %g %g'%tuple(v[i] for i in xrange(3))
 				elif isinstance(v,Matrix3):
-					strAttrs+=' %g'%tuple(v[i] for i in xrange(9))
+					strAttrs+=''.join(' %g'%v[i,j] for i in xrange(3) for j in xrange(3))
 		f.write('%d %d %d%s\n'%(b.id,len(vertices),len(surfaces),strAttrs))
 		f.writelines('%.8e %.8e %.8e\n'%(v[0],v[1],v[2]) for v in vertices)
 		f.writelines(' '.join(str(i) for i in surface)+'\n' for surface in surfaces)
-- 
2.43.0


From 73a849f6618e1284b3bcb93ebf975d6d727be691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:08 +0000
Subject: [PATCH 133/166] fix: ymport.textPolyhedra cannot read files with
 attributes

---
 py/ymport.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/ymport.py b/py/ymport.py
index 82397e8..3f55054 100644
--- a/py/ymport.py
+++ b/py/ymport.py
@@ -478,8 +478,8 @@ def textPolyhedra(fileName,material,shift=Vector3.Zero,scale=1.0,orientation=Qua
 		data = line.split()
 		if (data[0][0] == "#"): continue
 		
-		if (len(data)!=3):
-			raise RuntimeError("Check polyhedra input file! Number of parameters in the first line is not 3!");
+		if (len(data)<3):
+			raise RuntimeError("Check polyhedra input file! Number of parameters in the first line is less than 3!");
 		else:
 			vertLoad = []
 			ids = int(data[0])
-- 
2.43.0


From 4fbee1eb0e77f6f53d723bda0a06db19f5cd1bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:08 +0000
Subject: [PATCH 134/166] fix: plot.addData modifies the caller's dictionary

---
 py/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/plot.py b/py/plot.py
index acd3b70..9f501a1 100644
--- a/py/plot.py
+++ b/py/plot.py
@@ -243,7 +243,7 @@ def addData(*d_in,**kw):
 	else: numSamples=0
 	# align with imgData, if there is more of them than data
 	if len(imgData)>0 and numSamples==0: numSamples=max(numSamples,len(imgData[imgData.keys()[0]]))
-	d=(d_in[0] if len(d_in)>0 else {})
+	d=dict(d_in[0] if len(d_in)>0 else {}) # copy, the argument must not be modified
 	d.update(**kw)
 	# handle types composed of multiple values (vectors, matrices)
 	dNames=d.keys()[:] # make copy, since dict cannot change size if iterated over directly
-- 
2.43.0


From 118c906bb0d0374c143da1a2148d6b8d83f6abba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:09 +0000
Subject: [PATCH 135/166] fix: plot.reset leaves image data and labels behind

---
 py/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/plot.py b/py/plot.py
index 9f501a1..6281ff2 100644
--- a/py/plot.py
+++ b/py/plot.py
@@ -84,8 +84,8 @@ componentSuffixes={Vector2:{0:'x',1:'y'},Vector3:{0:'x',1:'y',2:'z'},Matrix3:{(0
 
 def reset():
 	"Reset all plot-related variables (data, plots, labels)"
-	global data, plots, labels # plotLines
-	data={}; plots={}; imgData={} # plotLines={};
+	global data, imgData, plots, labels # plotLines
+	data={}; plots={}; labels={}; imgData={} # plotLines={};
 	pylab.close('all')
 
 def resetData():
-- 
2.43.0


From 9b3624645e6944f03a9125d914ccd03f242951d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:09 +0000
Subject: [PATCH 136/166] fix: VTKRecorder misplaces contacts across periodic
 boundaries and ignores erased first bodies

---
 pkg/dem/VTKRecorder.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/dem/VTKRecorder.cpp b/pkg/dem/VTKRecorder.cpp
index 488aeb8..d183923 100644
--- a/pkg/dem/VTKRecorder.cpp
+++ b/pkg/dem/VTKRecorder.cpp
@@ -464,7 +464,7 @@ void VTKRecorder::action(){
 			const auto iterId1 = bIdVector.find (I->getId1());
 			const auto iterId2 = bIdVector.find (I->getId2());
 			
-			if (iterId2 == bIdVector.end() || iterId2 == bIdVector.end()) continue;
+			if (iterId1 == bIdVector.end() || iterId2 == bIdVector.end()) continue;
 			
 			const auto setId1Line = iterId1->second;
 			const auto setId2Line = iterId2->second;
@@ -481,7 +481,7 @@ void VTKRecorder::action(){
 			// how many times to add values defined on interactions, depending on how many times the interaction is saved
 			int numAddValues=1;
 			// aperiodic boundary, or interaction is inside the cell
-			if(!scene->isPeriodic || (scene->isPeriodic && (I->cellDist==wrapCellDist[I->getId2()]-wrapCellDist[I->getId1()]))){
+			if(!scene->isPeriodic || (scene->isPeriodic && (I->cellDist==wrapCellDist[I->getId1()]-wrapCellDist[I->getId2()]))){
 				vtkSmartPointer<vtkLine> line = vtkSmartPointer<vtkLine>::New();
 				line->GetPointIds()->SetId(0,setId1Line);
 				line->GetPointIds()->SetId(1,setId2Line);
@@ -493,19 +493,21 @@ void VTKRecorder::action(){
 				// create two line objects; each of them has one endpoint inside the cell and the other one sticks outside
 				// A,B are the "fake" bodies outside the cell for id1 and id2 respectively, p1,p2 are the displayed points
 				// distance in cell units for shifting A away from p1; negated value is shift of B away from p2
-				Vector3r ptA(p01+scene->cell->hSize*(wrapCellDist[I->getId2()]-I->cellDist).cast<Real>());
+				Vector3r ptA(p01-scene->cell->hSize*(wrapCellDist[I->getId2()]+I->cellDist).cast<Real>());
 				const vtkIdType idPtA=intrBodyPos->InsertNextPoint(ptA[0],ptA[1],ptA[2]); 
 				
-				Vector3r ptB(p02+scene->cell->hSize*(wrapCellDist[I->getId1()]-I->cellDist).cast<Real>());
+				Vector3r ptB(p02-scene->cell->hSize*(wrapCellDist[I->getId1()]-I->cellDist).cast<Real>());
 				const vtkIdType idPtB=intrBodyPos->InsertNextPoint(ptB[0],ptB[1],ptB[2]);
 				
 				vtkSmartPointer<vtkLine> line1B(vtkSmartPointer<vtkLine>::New());
-				line1B->GetPointIds()->SetId(0,setId2Line);
+				line1B->GetPointIds()->SetId(0,setId1Line);
 				line1B->GetPointIds()->SetId(1,idPtB);
+				intrCells->InsertNextCell(line1B);
 				
 				vtkSmartPointer<vtkLine> lineA2(vtkSmartPointer<vtkLine>::New());
 				lineA2->GetPointIds()->SetId(0,idPtA);
 				lineA2->GetPointIds()->SetId(1,setId2Line);
+				intrCells->InsertNextCell(lineA2);
 				numAddValues=2;
 			}
 			const NormShearPhys* phys = YADE_CAST<NormShearPhys*>(I->phys.get());
-- 
2.43.0


From e03f397e14a7c20bbc3640a4074904f00cade932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:09 +0000
Subject: [PATCH 137/166] fix: polyhedra contacts share one shear force

---
 pkg/dem/Polyhedra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/Polyhedra.cpp b/pkg/dem/Polyhedra.cpp
index a1a21a4..83832a6 100644
--- a/pkg/dem/Polyhedra.cpp
+++ b/pkg/dem/Polyhedra.cpp
@@ -549,6 +549,7 @@ bool Law2_PolyhedraGeom_PolyhedraPhys_Volumetric::go(shared_ptr<IGeom>& ig, shar
 		Real prop = std::pow(contactGeom->penetrationVolume,volumePower);
 		Vector3r normalForce=contactGeom->normal*prop*phys->kn;
 
+		Vector3r& shearForce = phys->shearForce;
 		//shear force: in case the polyhdras are separated and come to contact again, one
 		//should not use the previous shear force
 		if (contactGeom->isShearNew) shearForce = Vector3r::Zero();
@@ -606,7 +607,6 @@ bool Law2_PolyhedraGeom_PolyhedraPhys_Volumetric::go(shared_ptr<IGeom>& ig, shar
 		*/
 		//needed to be able to acces interaction forces in other parts of yade
 		phys->normalForce = normalForce;
-		phys->shearForce = shearForce;
 		return true;
 }
 
-- 
2.43.0


From b21479416a182a5ece479e584dc761aa282fb431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:38 +0000
Subject: [PATCH 138/166] fix: torques and shear increments of polyhedra across
 periodic boundaries

---
 pkg/dem/Polyhedra.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/Polyhedra.cpp b/pkg/dem/Polyhedra.cpp
index 83832a6..9f5a1b7 100644
--- a/pkg/dem/Polyhedra.cpp
+++ b/pkg/dem/Polyhedra.cpp
@@ -458,7 +458,7 @@ void PolyhedraGeom::precompute(const State& rbp1, const State& rbp2, const Scene
 	normal=currentNormal;
 	//Precompute shear increment
 	Vector3r c1x = (contactPoint - rbp1.pos);
-	Vector3r c2x = (contactPoint - rbp2.pos + shift2);
+	Vector3r c2x = (contactPoint - rbp2.pos - shift2);
 	Vector3r relativeVelocity = (rbp2.vel+rbp2.angVel.cross(c2x)) - (rbp1.vel+rbp1.angVel.cross(c1x));
 	//keep the shear part only
 	relativeVelocity = relativeVelocity-normal.dot(relativeVelocity)*normal;
@@ -589,7 +589,7 @@ bool Law2_PolyhedraGeom_PolyhedraPhys_Volumetric::go(shared_ptr<IGeom>& ig, shar
 		scene->forces.addForce (idA,F);
 		scene->forces.addForce (idB, -F);
 		scene->forces.addTorque(idA, -(A->state->pos-contactGeom->contactPoint).cross(F));
-		scene->forces.addTorque(idB, (B->state->pos-contactGeom->contactPoint).cross(F));	
+		scene->forces.addTorque(idB, (B->state->pos+shift2-contactGeom->contactPoint).cross(F));	
 
 		/*
 		FILE * fin = fopen("Forces.dat","a");
-- 
2.43.0


From 210c669b2ad705c164162d6d51d8dfbce18349c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:38 +0000
Subject: [PATCH 139/166] fix: polyhedra miss contacts in sheared periodic
 cells

---
 pkg/dem/Polyhedra.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pkg/dem/Polyhedra.cpp b/pkg/dem/Polyhedra.cpp
index 9f5a1b7..4050a09 100644
--- a/pkg/dem/Polyhedra.cpp
+++ b/pkg/dem/Polyhedra.cpp
@@ -328,6 +328,7 @@ void Bo1_Polyhedra_Aabb::go(const shared_ptr<Shape>& ig, shared_ptr<Bound>& bv,
 	Vector3r v_g, mincoords(0.,0.,0.), maxcoords(0.,0.,0.);
 	for(int i=0; i<N; i++) {
 		v_g=se3.orientation*t->v[i]; // vertices in global coordinates
+		if(scene->isPeriodic) v_g=scene->cell->unshearPt(v_g); // the collider works with the cell unsheared
 		mincoords = Vector3r(min(mincoords[0],v_g[0]),min(mincoords[1],v_g[1]),min(mincoords[2],v_g[2]));
 		maxcoords = Vector3r(max(maxcoords[0],v_g[0]),max(maxcoords[1],v_g[1]),max(maxcoords[2],v_g[2]));
 	}
@@ -335,8 +336,9 @@ void Bo1_Polyhedra_Aabb::go(const shared_ptr<Shape>& ig, shared_ptr<Bound>& bv,
 		mincoords *= aabbEnlargeFactor;
 		maxcoords *= aabbEnlargeFactor;
 	}
-	aabb->min=se3.position+mincoords;
-	aabb->max=se3.position+maxcoords;
+	const Vector3r center=(scene->isPeriodic ? scene->cell->unshearPt(se3.position) : se3.position);
+	aabb->min=center+mincoords;
+	aabb->max=center+maxcoords;
 }
 
 //**********************************************************************************
@@ -530,12 +532,13 @@ bool Law2_PolyhedraGeom_PolyhedraPhys_Volumetric::go(shared_ptr<IGeom>& ig, shar
 
 		//erase the interaction when aAbB shows separation, otherwise keep it to be able to store previous separating plane for fast detection of separation 
 		Vector3r shift2=scene->cell->hSize*I->cellDist.cast<Real>();
-		if (A->bound->min[0] >= B->bound->max[0]+shift2[0] ||
-				B->bound->min[0]+shift2[0] >= A->bound->max[0] ||
-				A->bound->min[1] >= B->bound->max[1]+shift2[1] ||
-				B->bound->min[1]+shift2[1] >= A->bound->max[1] ||
-				A->bound->min[2] >= B->bound->max[2]+shift2[2] ||
-				B->bound->min[2]+shift2[2] >= A->bound->max[2]) {
+		const Vector3r boundShift=(scene->isPeriodic ? scene->cell->unshearPt(shift2) : shift2); // bounds are those of the unsheared cell
+		if (A->bound->min[0] >= B->bound->max[0]+boundShift[0] ||
+				B->bound->min[0]+boundShift[0] >= A->bound->max[0] ||
+				A->bound->min[1] >= B->bound->max[1]+boundShift[1] ||
+				B->bound->min[1]+boundShift[1] >= A->bound->max[1] ||
+				A->bound->min[2] >= B->bound->max[2]+boundShift[2] ||
+				B->bound->min[2]+boundShift[2] >= A->bound->max[2]) {
 			return false;
 		}
 		
-- 
2.43.0


From d20d33621841d76bcd11d1de0ebe69d95980f3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:38 +0000
Subject: [PATCH 140/166] fix: inertia of small polyhedra is not diagonalized

---
 pkg/dem/Polyhedra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/Polyhedra.cpp b/pkg/dem/Polyhedra.cpp
index 4050a09..10ac488 100644
--- a/pkg/dem/Polyhedra.cpp
+++ b/pkg/dem/Polyhedra.cpp
@@ -119,7 +119,7 @@ void Polyhedra::Initialize(){
 		inertia_tensor = inertia_tensor + Itet1 + Itet2*vtet; 
 	}
 
-	if(std::abs(inertia_tensor(0,1))+std::abs(inertia_tensor(0,2))+std::abs(inertia_tensor(1,2)) < 1E-13){
+	if(std::abs(inertia_tensor(0,1))+std::abs(inertia_tensor(0,2))+std::abs(inertia_tensor(1,2)) < 1E-13*inertia_tensor.trace()){
 		// no need to rotate, inertia already diagonal
 		orientation = Quaternionr::Identity();
 		inertia = Vector3r(inertia_tensor(0,0),inertia_tensor(1,1),inertia_tensor(2,2));
-- 
2.43.0


From 2b9f6481972ea51e6562c611dc7d473aeb7ee6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:39 +0000
Subject: [PATCH 141/166] fix: Polyhedra::Initialize writes beyond the vertices
 and processes retried random shapes twice

---
 pkg/dem/Polyhedra.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/Polyhedra.cpp b/pkg/dem/Polyhedra.cpp
index 10ac488..0462816 100644
--- a/pkg/dem/Polyhedra.cpp
+++ b/pkg/dem/Polyhedra.cpp
@@ -87,11 +87,12 @@ void Polyhedra::Initialize(){
 		v.clear();
 		seed = rand();
 		Initialize();
+		return;
 	}
 	Vector3r translation((-1)*centroid);
 	
 	//set centroid to be [0,0,0]
-	for(int i=0;i<N;i++) {
+	for(size_t i=0;i<v.size();i++) { // v now holds the vertices of the hull only, there may be fewer of them than given points
 		v[i] = v[i]-centroid;
 	}
 	if(isRandom) centroid = Vector3r::Zero();
-- 
2.43.0


From 749a61f90152966bc068f13b0dc84666139d7095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:39 +0000
Subject: [PATCH 142/166] fix: overlap of polyhedra is inaccurate when the
 starting point lies at the boundary

---
 pkg/dem/Polyhedra_support.cpp | 45 ++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/Polyhedra_support.cpp b/pkg/dem/Polyhedra_support.cpp
index 9a76ecc..959c87c 100644
--- a/pkg/dem/Polyhedra_support.cpp
+++ b/pkg/dem/Polyhedra_support.cpp
@@ -503,6 +503,36 @@ vector<Plane> MergePlanes(vector<Plane> planes1, vector<Plane> planes2, Real lim
 	return P;
 }
 
+//**********************************************************************************
+//moves a point inside a convex region given by its planes away from the boundary, as dualization about a point at the boundary is inaccurate
+CGALpoint CenterInside(const vector<Plane>& planes, const CGALpoint& start){
+	Vector3r x = FromCGALPoint(start);
+	for (int k=0; k<5; k++){
+		//direction towards the analytic center
+		Vector3r g(Vector3r::Zero());
+		Matrix3r H(Matrix3r::Zero());
+		for (const auto& p : planes) {
+			const Vector3r n(p.a(),p.b(),p.c());
+			const Real s = -(n.dot(x)+p.d());
+			if (!(s>0)) return start;
+			g += n/s;
+			H += n*n.transpose()/(s*s);
+		}
+		const Vector3r dir = -(H.inverse()*g);
+		//middle of the chord in that direction
+		Real lo = -std::numeric_limits<Real>::infinity(), hi = -lo;
+		for (const auto& p : planes) {
+			const Vector3r n(p.a(),p.b(),p.c());
+			const Real t = -(n.dot(x)+p.d())/n.dot(dir);
+			if (n.dot(dir)>0) hi = min(hi,t); else if (n.dot(dir)<0) lo = max(lo,t);
+		}
+		const Vector3r next = x+0.5*(lo+hi)*dir;
+		if (!std::isfinite(next.squaredNorm())) break;
+		x = next;
+	}
+	return ToCGALPoint(x);
+}
+
 //**********************************************************************************
 //returnes intersecting polyhedron of polyhedron & plane (possibly empty)
 Polyhedron Polyhedron_Plane_intersection(Polyhedron A, Plane B, CGALpoint centroid, CGALpoint X){
@@ -539,6 +569,10 @@ Polyhedron Polyhedron_Plane_intersection(Polyhedron A, Plane B, CGALpoint centro
 	}
 	//no intersectiong point => no intersection polyhedron
 	if(!intersection_found) return Intersection;
+	planes2.assign(A.planes_begin(),A.planes_end());
+	planes2.push_back(B);
+	inside = CenterInside(planes2,inside);
+	planes2.clear();
 
 	//set the intersection point to origin
 	Transformation transl_back(CGAL::TRANSLATION, inside - CGALpoint(0.,0.,0.));
@@ -630,9 +664,10 @@ Polyhedron Polyhedron_Polyhedron_intersection(Polyhedron A, Polyhedron B, CGALpo
 			intersection_found = (Is_inside_Polyhedron(A,inside,DISTANCE_LIMIT) && Is_inside_Polyhedron(B,inside,DISTANCE_LIMIT));
 		}	
 
-		//test edges
-		for (Polyhedron::Edge_iterator eIter = A.edges_begin(); eIter != A.edges_end() && !intersection_found; eIter++){
-			for (Polyhedron::Facet_iterator fIter = B.facets_begin(); fIter != B.facets_end() && !intersection_found; fIter++){
+		//test edges of A with facets of B and edges of B with facets of A
+		for (int swapped=0; swapped<2; swapped++)
+		for (Polyhedron::Edge_iterator eIter = (swapped?B:A).edges_begin(); eIter != (swapped?B:A).edges_end() && !intersection_found; eIter++){
+			for (Polyhedron::Facet_iterator fIter = (swapped?A:B).facets_begin(); fIter != (swapped?A:B).facets_end() && !intersection_found; fIter++){
 				dist_S = Oriented_squared_distance(fIter->plane(), eIter->vertex()->point());
 				dist_T = Oriented_squared_distance(fIter->plane(), eIter->opposite()->vertex()->point());
 				if (dist_S*dist_T >= 0 || std::abs(dist_S)<lim2 || std::abs(dist_T)<lim2) continue;
@@ -653,6 +688,10 @@ Polyhedron Polyhedron_Polyhedron_intersection(Polyhedron A, Polyhedron B, CGALpo
 	
 	//Polyhedrons do not intersect
 	if (!intersection_found)  return Intersection;
+	planes1.assign(A.planes_begin(),A.planes_end());
+	planes1.insert(planes1.end(),B.planes_begin(),B.planes_end());
+	inside = CenterInside(planes1,inside);
+	planes1.clear();
 
 	//set the intersection point to origin	
 	Transformation transl_back(CGAL::TRANSLATION, inside - CGALpoint(0.,0.,0.));
-- 
2.43.0


From d162b4cd04adb36a5b2ac9d9752fa05e80436907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:39 +0000
Subject: [PATCH 143/166] fix: merging of facets depends on the distance of a
 polyhedron from the origin

---
 pkg/dem/Polyhedra_support.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/Polyhedra_support.cpp b/pkg/dem/Polyhedra_support.cpp
index 959c87c..526ec16 100644
--- a/pkg/dem/Polyhedra_support.cpp
+++ b/pkg/dem/Polyhedra_support.cpp
@@ -266,6 +266,14 @@ Real PlaneDifference(const Plane &a, const Plane &b){
 	//return min(pow(a.a()/la-b.a()/lb,2) + pow(a.b()/la-b.b()/lb,2) + pow(a.c()/la-b.c()/lb,2) + pow(a.d()/la-b.d()/lb,2),pow(a.a()/la+b.a()/lb,2) + pow(a.b()/la+b.b()/lb,2) + pow(a.c()/la+b.c()/lb,2) + pow(a.d()/la+b.d()/lb,2));
 }
 
+//**********************************************************************************
+//norm of difference between normals of two planes
+Real NormalDifference(const Plane &a, const Plane &b){
+	Real la = sqrt(pow(a.a(),2) + pow(a.b(),2) + pow(a.c(),2));
+	Real lb = sqrt(pow(b.a(),2) + pow(b.b(),2) + pow(b.c(),2));
+	return pow(a.a()/la-b.a()/lb,2) + pow(a.b()/la-b.b()/lb,2) + pow(a.c()/la-b.c()/lb,2);
+}
+
 //**********************************************************************************
 //connect triagular facets if possible
 Polyhedron Simplify(Polyhedron P, Real limit){
@@ -273,7 +281,8 @@ Polyhedron Simplify(Polyhedron P, Real limit){
 	while(elimination){
 		elimination = false;
 		for (Polyhedron::Edge_iterator hei = P.edges_begin(); hei!=P.edges_end(); ++hei){			
-			if (PlaneDifference(hei->facet()->plane(),hei->opposite()->facet()->plane()) < limit){			
+			//neighbouring facets have an edge in common, they are in one plane if the normals are the same
+			if (NormalDifference(hei->facet()->plane(),hei->opposite()->facet()->plane()) < limit){			
 				if (hei->vertex()->vertex_degree() < 3) hei = P.erase_center_vertex(hei); 
 				else if(hei->opposite()->vertex()->vertex_degree() < 3) hei = P.erase_center_vertex(hei->opposite());
 				else hei = P.join_facet(hei);
-- 
2.43.0


From 67c4a642ec323824fae608053a791981e5c0a2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:39 +0000
Subject: [PATCH 144/166] fix: volume of an empty polyhedron reads an invalid
 vertex

---
 pkg/dem/Polyhedra_support.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dem/Polyhedra_support.cpp b/pkg/dem/Polyhedra_support.cpp
index 526ec16..5afde66 100644
--- a/pkg/dem/Polyhedra_support.cpp
+++ b/pkg/dem/Polyhedra_support.cpp
@@ -27,6 +27,7 @@ const Real SPLITTER_GAP = 1E-8;
 //return volume and centroid of polyhedron
 
 bool P_volume_centroid(Polyhedron P, Real * volume, Vector3r * centroid){
+	if (P.empty()) { *volume = 0; *centroid = Vector3r::Zero(); return false; }
 	Vector3r basepoint = FromCGALPoint(P.vertices_begin()->point()); 
 	Vector3r A,B,C,D; 
 	(*volume) = 0;
-- 
2.43.0


From 70fe5ce4cb9bec010fbf4fe6e282f57075422ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:40 +0000
Subject: [PATCH 145/166] fix: reversed polyhedra functors mix up the two
 bodies

---
 pkg/dem/Polyhedra_Ig2.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/dem/Polyhedra_Ig2.cpp b/pkg/dem/Polyhedra_Ig2.cpp
index b40fbd9..ec213d3 100644
--- a/pkg/dem/Polyhedra_Ig2.cpp
+++ b/pkg/dem/Polyhedra_Ig2.cpp
@@ -139,7 +139,7 @@ bool Ig2_Polyhedra_Polyhedra_PolyhedraGeom::goReverse(
 		const Vector3r& shift2,
 		const bool& force,
 		const shared_ptr<Interaction>& c) {
-			return go(shape1,shape2,state2,state1,-shift2,force,c);
+			return go(shape2,shape1,state2,state1,-shift2,force,c);
 		}
 //**********************************************************************************
 /*! Create Polyhedra (collision geometry) from colliding Polyhedron and Wall. */
@@ -454,14 +454,14 @@ bool Ig2_Polyhedra_Polyhedra_ScGeom::go(const shared_ptr<Shape>& shape1, const s
 	if (isNew) {
 		Ig2_Polyhedra_Polyhedra_PolyhedraGeom ppGeom = Ig2_Polyhedra_Polyhedra_PolyhedraGeom();
 		ppGeom.interactionDetectionFactor = interactionDetectionFactor;
-		bool pp = ppGeom.go(shape1,shape2,state2,state1,shift2,force,interaction);
+		bool pp = ppGeom.go(shape1,shape2,state1,state2,shift2,force,interaction);
 		if (!pp) {
 			return false;
 		}
 		shared_ptr<PolyhedraGeom> pGeom = YADE_PTR_CAST<PolyhedraGeom>(interaction->geom);	
 		geom = shared_ptr<ScGeom>(new ScGeom());
 		geom->radius1 = (pGeom->contactPoint-se31.position).norm();
-		geom->radius2 = (pGeom->contactPoint-se32.position+shift2).norm();
+		geom->radius2 = (pGeom->contactPoint-se32.position-shift2).norm();
 		interaction->geom=geom;
 	} else {
 		geom = YADE_PTR_CAST<ScGeom>(interaction->geom);
@@ -479,7 +479,7 @@ bool Ig2_Polyhedra_Polyhedra_ScGeom::go(const shared_ptr<Shape>& shape1, const s
 }
 
 bool Ig2_Polyhedra_Polyhedra_ScGeom::goReverse(const shared_ptr<Shape>& shape1, const shared_ptr<Shape>& shape2, const State& state1, const State& state2, const Vector3r& shift2, const bool& force, const shared_ptr<Interaction>& interaction) {
-	return go(shape1,shape2,state2,state1,-shift2,force,interaction);
+	return go(shape2,shape1,state2,state1,-shift2,force,interaction);
 }
 
 
@@ -510,7 +510,7 @@ bool Ig2_Polyhedra_Polyhedra_PolyhedraGeomOrScGeom::go(const shared_ptr<Shape>&
 }
 
 bool Ig2_Polyhedra_Polyhedra_PolyhedraGeomOrScGeom::goReverse(const shared_ptr<Shape>& shape1, const shared_ptr<Shape>& shape2, const State& state1, const State& state2, const Vector3r& shift2, const bool& force, const shared_ptr<Interaction>& interaction) {
-	return go(shape1,shape2,state2,state1,-shift2,force,interaction);
+	return go(shape2,shape1,state2,state1,-shift2,force,interaction);
 }
 
 
-- 
2.43.0


From 8d337d7509692f533e474752bb604de608debe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:40 +0000
Subject: [PATCH 146/166] fix: sphere-polyhedron contacts ignore the periodic
 shift

---
 pkg/dem/Polyhedra_Ig2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/Polyhedra_Ig2.cpp b/pkg/dem/Polyhedra_Ig2.cpp
index ec213d3..cd7cb25 100644
--- a/pkg/dem/Polyhedra_Ig2.cpp
+++ b/pkg/dem/Polyhedra_Ig2.cpp
@@ -336,7 +336,7 @@ bool Ig2_Sphere_Polyhedra_ScGeom::go(const shared_ptr<Shape>& shape1,const share
 	const std::vector<int> faceTri = B->GetSurfaceTriangulation();
 	// get vertices in global coordinate system
 	std::vector<Vector3r> pts(B->v);
-	for (unsigned int i=0; i<pts.size(); i++) pts[i] = se32.position + se32.orientation*pts[i];
+	for (unsigned int i=0; i<pts.size(); i++) pts[i] = se32.position + shift2 + se32.orientation*pts[i];
 
 	//******************************************************************************
 	// find the closest point of polyhedron to the sphere center, see following paper for notation
@@ -418,7 +418,7 @@ bool Ig2_Sphere_Polyhedra_ScGeom::go(const shared_ptr<Shape>& shape1,const share
 	Real penetrationDepth;
 	Vector3r normal,contactPoint;
 	if (isInside) { // some artificial tricks for unlikely case
-		normal = se32.position - center;
+		normal = se32.position + shift2 - center;
 		dst = normal.norm();
 		penetrationDepth = radius;
 		normal /= dst;
-- 
2.43.0


From 58f5200477553dd20a5ca666b19cf4b497734518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:03 +0000
Subject: [PATCH 147/166] fix: facet-polyhedron contacts ignore the periodic
 shift

---
 pkg/dem/Polyhedra_Ig2.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dem/Polyhedra_Ig2.cpp b/pkg/dem/Polyhedra_Ig2.cpp
index cd7cb25..caf0529 100644
--- a/pkg/dem/Polyhedra_Ig2.cpp
+++ b/pkg/dem/Polyhedra_Ig2.cpp
@@ -233,7 +233,7 @@ bool Ig2_Facet_Polyhedra_PolyhedraGeom::go(const shared_ptr<Shape>& shape1,const
 	
 	//move and rotate 1st the CGAL structure Polyhedron
 	Matrix3r rot_mat = (se32.orientation).toRotationMatrix();
-	Vector3r trans_vec = se32.position;
+	Vector3r trans_vec = se32.position + shift2;
 	Transformation t_rot_trans(
 		rot_mat(0,0),rot_mat(0,1),rot_mat(0,2),trans_vec[0],
 		rot_mat(1,0),rot_mat(1,1),rot_mat(1,2),trans_vec[1],
@@ -252,7 +252,7 @@ bool Ig2_Facet_Polyhedra_PolyhedraGeom::go(const shared_ptr<Shape>& shape1,const
 	CGALvector f_normal = CGAL::cross_product((v[1]-v[0]),(v[2]-v[0]));
 
 	//chage normal + change order of vertices to get outwarding facet normal for initial tetrahedron
- 	if ((ToCGALPoint(se32.position)-f_center)*(f_normal) < 0) {
+ 	if ((ToCGALPoint(se32.position+shift2)-f_center)*(f_normal) < 0) {
 		f_normal = (-1)*f_normal;
 		CGALpoint help;
 		help = v[0];
@@ -289,7 +289,7 @@ bool Ig2_Facet_Polyhedra_PolyhedraGeom::go(const shared_ptr<Shape>& shape1,const
 	
 	//find intersection Polyhedra
 	Polyhedron Int;
-	Int = Polyhedron_Polyhedron_intersection(PA,PB,ToCGALPoint(bang->contactPoint),ToCGALPoint(se31.position),ToCGALPoint(se32.position), bang->sep_plane);	
+	Int = Polyhedron_Polyhedron_intersection(PA,PB,ToCGALPoint(bang->contactPoint),ToCGALPoint(se31.position),ToCGALPoint(se32.position+shift2), bang->sep_plane);	
 	
 	//volume and centroid of intersection
 	Real volume;
@@ -300,7 +300,7 @@ bool Ig2_Facet_Polyhedra_PolyhedraGeom::go(const shared_ptr<Shape>& shape1,const
 	
 	//find normal direction
 	Vector3r normal = FindNormal(Int, PA, PB);
-	if((se32.position-centroid).dot(normal)<0) normal*=-1;
+	if((se32.position+shift2-centroid).dot(normal)<0) normal*=-1;
 	
 	//calculate area of projection of Intersection into the normal plane
 	Real area = volume/1E-8;
-- 
2.43.0


From b5f345d06a5eb580ae1c311db60b0f8b8fb92dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:03 +0000
Subject: [PATCH 148/166] fix: walls push polyhedra nearer than one length unit
 the wrong way

---
 pkg/dem/Polyhedra_Ig2.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/dem/Polyhedra_Ig2.cpp b/pkg/dem/Polyhedra_Ig2.cpp
index caf0529..8123330 100644
--- a/pkg/dem/Polyhedra_Ig2.cpp
+++ b/pkg/dem/Polyhedra_Ig2.cpp
@@ -156,7 +156,7 @@ bool Ig2_Wall_Polyhedra_PolyhedraGeom::go(const shared_ptr<Shape>& shape1,const
 
 	//move and rotate also the CGAL structure Polyhedron
 	Matrix3r rot_mat = (se32.orientation).toRotationMatrix();
-	Vector3r trans_vec = se32.position;
+	Vector3r trans_vec = se32.position + shift2;
 	
 	Transformation t_rot_trans(
 		rot_mat(0,0),rot_mat(0,1),rot_mat(0,2),trans_vec[0],
@@ -172,8 +172,8 @@ bool Ig2_Wall_Polyhedra_PolyhedraGeom::go(const shared_ptr<Shape>& shape1,const
 		normal[PA] = sense;
 	} else {
 		normal[PA] = 1;
-		Real dot = normal.dot(se32.position-se31.position);
-		if (dot<1) { normal[PA] = -1; }
+		Real dot = normal.dot(se32.position+shift2-se31.position);
+		if (dot<0) { normal[PA] = -1; }
 	}
 	CGALvector CGALnormal = CGALvector(normal[0],normal[1],normal[2]);
 	Plane A = Plane(CGALpoint(se31.position[0],se31.position[1],se31.position[2]),CGALvector(normal[0],normal[1],normal[2]));
@@ -193,7 +193,7 @@ bool Ig2_Wall_Polyhedra_PolyhedraGeom::go(const shared_ptr<Shape>& shape1,const
 
 	//find intersection Polyhedra
 	Polyhedron Int;
-	Int = Polyhedron_Plane_intersection(PB,A,ToCGALPoint(se32.position),ToCGALPoint(bang->contactPoint));
+	Int = Polyhedron_Plane_intersection(PB,A,ToCGALPoint(se32.position+shift2),ToCGALPoint(bang->contactPoint));
 
 	//volume and centroid of intersection
 	Real volume;
@@ -210,7 +210,7 @@ bool Ig2_Wall_Polyhedra_PolyhedraGeom::go(const shared_ptr<Shape>& shape1,const
 	bang->contactPoint=centroid;
 	bang->penetrationVolume=volume;
 	bang->equivalentPenetrationDepth=volume/area;
-	bang->precompute(state1,state2,scene,interaction,normal,isNew,shift2);
+	bang->precompute(state1,state2,scene,interaction,normal,bang->isShearNew,shift2);
 	bang->normal=FromCGALVector(CGALnormal);
 
 	return true;
-- 
2.43.0


From 6c6a7767e09c4445880f32a07bf63f3657090615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:03 +0000
Subject: [PATCH 149/166] fix: separated polyhedra report an overlap volume

---
 pkg/dem/Polyhedra_Ig2.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/Polyhedra_Ig2.cpp b/pkg/dem/Polyhedra_Ig2.cpp
index 8123330..b720387 100644
--- a/pkg/dem/Polyhedra_Ig2.cpp
+++ b/pkg/dem/Polyhedra_Ig2.cpp
@@ -88,7 +88,7 @@ bool Ig2_Polyhedra_Polyhedra_PolyhedraGeom::go(
 	
  	if(std::isnan(volume) || volume<=1E-25 || volume > min(A->GetVolume(),B->GetVolume())) {
 		bang->equivalentPenetrationDepth=0;
-		bang->penetrationVolume=min(A->GetVolume(),B->GetVolume());
+		bang->penetrationVolume=(volume > 1E-25 ? min(A->GetVolume(),B->GetVolume()) : 0);
 		bang->normal = (A->GetVolume()>B->GetVolume() ? 1 : -1)*(se32.position+shift2-se31.position);
 		return !isNew;
 	}
@@ -199,7 +199,7 @@ bool Ig2_Wall_Polyhedra_PolyhedraGeom::go(const shared_ptr<Shape>& shape1,const
 	Real volume;
 	Vector3r centroid;
 	P_volume_centroid(Int, &volume, &centroid);
-	if(std::isnan(volume) || volume<=1E-25 || volume > B->GetVolume())  {bang->equivalentPenetrationDepth=0; return true;}
+	if(std::isnan(volume) || volume<=1E-25 || volume > B->GetVolume())  {bang->equivalentPenetrationDepth=0; bang->penetrationVolume=0; return true;}
 	if (!Is_inside_Polyhedron(PB, ToCGALPoint(centroid)))  {bang->equivalentPenetrationDepth=0; return true;}
 
 	//calculate area of projection of Intersection into the normal plane
@@ -295,7 +295,7 @@ bool Ig2_Facet_Polyhedra_PolyhedraGeom::go(const shared_ptr<Shape>& shape1,const
 	Real volume;
 	Vector3r centroid;
 	P_volume_centroid(Int, &volume, &centroid);
-	if(std::isnan(volume) || volume<=1E-25 || volume > B->GetVolume()) {bang->equivalentPenetrationDepth=0; return true;}
+	if(std::isnan(volume) || volume<=1E-25 || volume > B->GetVolume()) {bang->equivalentPenetrationDepth=0; bang->penetrationVolume=0; return true;}
 	if (!Is_inside_Polyhedron(PB, ToCGALPoint(centroid)))  {bang->equivalentPenetrationDepth=0; return true;}
 	
 	//find normal direction
-- 
2.43.0


From c727abb745b44b95d9f9d40e5dd324f6a7d543b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:03 +0000
Subject: [PATCH 150/166] fix: sphericalBodies=False is ignored in periodic
 scenes

---
 pkg/dem/ElasticContactLaw.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/ElasticContactLaw.cpp b/pkg/dem/ElasticContactLaw.cpp
index 87810df..afdf65b 100644
--- a/pkg/dem/ElasticContactLaw.cpp
+++ b/pkg/dem/ElasticContactLaw.cpp
@@ -85,11 +85,11 @@ bool Law2_ScGeom_FrictPhys_CundallStrack::go(shared_ptr<IGeom>& ig, shared_ptr<I
 		// compute elastic energy as well
 		if(scene->trackEnergy) scene->energy->add(0.5*(phys->normalForce.squaredNorm()/phys->kn+phys->shearForce.squaredNorm()/phys->ks),"elastPotential",elastPotentialIx,/*reset at every timestep*/true);
 	}
-	if (!scene->isPeriodic && !sphericalBodies) {
+	if (!sphericalBodies) {
 		State* de1 = Body::byId(id1,scene)->state.get();
 		State* de2 = Body::byId(id2,scene)->state.get();
-		applyForceAtContactPoint(-phys->normalForce-shearForce, geom->contactPoint, id1, de1->se3.position, id2, de2->se3.position);}
-	else {//we need to use correct branches in the periodic case, the following apply for spheres only
+		applyForceAtContactPoint(-phys->normalForce-shearForce, geom->contactPoint, id1, de1->se3.position, id2, de2->se3.position+(scene->isPeriodic ? scene->cell->intrShiftPos(contact->cellDist) : Vector3r(Vector3r::Zero())));}
+	else {//the following apply for spheres only
 		Vector3r force = -phys->normalForce-shearForce;
 		scene->forces.addForce(id1,force);
 		scene->forces.addForce(id2,-force);
-- 
2.43.0


From 9ac87d49ba73300bea9bfba668d33a9b2a713db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:03 +0000
Subject: [PATCH 151/166] fix: polyhedra generators ignore the mask

---
 py/polyhedra_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/polyhedra_utils.py b/py/polyhedra_utils.py
index 78fcd75..dfee2fc 100644
--- a/py/polyhedra_utils.py
+++ b/py/polyhedra_utils.py
@@ -75,7 +75,7 @@ def polyhedralBall(radius, N, material, center,mask=1):
 		phi = k * inc
 		pts.append([math.cos(phi)*r*radius, y*radius, math.sin(phi)*r*radius])
  	
-	ball = polyhedra(material,v=pts)
+	ball = polyhedra(material,v=pts,mask=mask)
 	ball.state.pos = center
 	return ball
     
@@ -103,7 +103,7 @@ def polyhedraTruncIcosaHed(radius, material, centre,mask=1):
 			if not b[2] == 0:
 				pts.append([ b[0],-b[1],-b[2]])
 		if not b[2] == 0: pts.append([ b[0], b[1],-b[2]])
-    ball = polyhedra(material,v=pts)
+    ball = polyhedra(material,v=pts,mask=mask)
     ball.state.pos = centre
     return ball
 
@@ -122,7 +122,7 @@ def polyhedraSnubCube(radius, material, centre, mask=1):
 	pts.append([ a[0],-a[1],-a[2]])	
 	pts.append([-a[0], a[1],-a[2]])	
 	pts.append([ a[0], a[1], a[2]])	
-    ball = polyhedra(material,v=pts)
+    ball = polyhedra(material,v=pts,mask=mask)
     ball.state.pos = centre
     return ball    
 #**********************************************************************************
-- 
2.43.0


From 63ae2ea4a92285e2089d3d1b07a679ad6504dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:50 +0000
Subject: [PATCH 152/166] fix: flow: Gauss-Seidel solver ignores changes of the
 right-hand side

---
 lib/triangulation/FlowBoundingSphereLinSolv.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/triangulation/FlowBoundingSphereLinSolv.ipp b/lib/triangulation/FlowBoundingSphereLinSolv.ipp
index 4127bdd..b51bf89 100644
--- a/lib/triangulation/FlowBoundingSphereLinSolv.ipp
+++ b/lib/triangulation/FlowBoundingSphereLinSolv.ipp
@@ -490,7 +490,7 @@ template<class _Tesselation, class FlowType>
 void FlowBoundingSphereLinSolv<_Tesselation,FlowType>::vectorizedGaussSeidel(Real dt)
 {
 // 	cout<<"VectorizedGaussSeidel"<<endl;
-	if (!isFullLinearSystemGSSet || (isFullLinearSystemGSSet && reApplyBoundaryConditions())) setLinearSystemFullGS(dt);
+	if (!isFullLinearSystemGSSet || (isFullLinearSystemGSSet && reApplyBoundaryConditions()) || !updatedRHS) {setLinearSystemFullGS(dt); updatedRHS=true;}
 	copyCellsToGs(dt);
 	
 	int j = 0;
-- 
2.43.0


From 2a88346912e2063702b0217d0892eccef09f6906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:51 +0000
Subject: [PATCH 153/166] fix: flow: Gauss-Seidel solver counts blocked
 neighbours

---
 lib/triangulation/FlowBoundingSphereLinSolv.ipp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/triangulation/FlowBoundingSphereLinSolv.ipp b/lib/triangulation/FlowBoundingSphereLinSolv.ipp
index b51bf89..0ab2d42 100644
--- a/lib/triangulation/FlowBoundingSphereLinSolv.ipp
+++ b/lib/triangulation/FlowBoundingSphereLinSolv.ipp
@@ -441,14 +441,15 @@ int FlowBoundingSphereLinSolv<_Tesselation,FlowType>::setLinearSystemFullGS(Real
 			}
 			gsP[cell->info().index]=cell->info().pression;
 			//Add diagonal term
-			double num = (cell->info().kNorm())[0]+ (cell->info().kNorm())[1]+ (cell->info().kNorm())[2]+ (cell->info().kNorm())[3];
+			double num = 0;
+			for (int j=0;j<4;j++) if (!cell->neighbor(j)->info().blocked) num+= (cell->info().kNorm())[j];
 			if (fluidBulkModulus>0) num += (1.f/(dt*fluidBulkModulus*cell->info().invVoidVolume()));
 			fullAvalues[cell->info().index][4] = 1.f/num;
 			++T_nnz;
 			
 			for (int j=0; j<4; j++) {
 				CellHandle neighbourCell = cell->neighbor(j);
-				if (Tri.is_infinite(neighbourCell)) {
+				if (Tri.is_infinite(neighbourCell) || neighbourCell->info().blocked) {
 					fullAvalues[cell->info().index][j] = 0;
 					fullAcolumns[cell->info().index][j] = &gsP[0];
 					continue;}
@@ -478,7 +479,7 @@ int FlowBoundingSphereLinSolv<_Tesselation,FlowType>::setLinearSystemFullGS(Real
 // 	for (FiniteCellsIterator cell = Tri.finite_cells_begin(); cell != cell_end; cell++) {
 		if (!cell->info().Pcondition && !cell->info().blocked) for (int j=0; j<4; j++) {
 			CellHandle neighbourCell = cell->neighbor(j);
-			if (!Tri.is_infinite(neighbourCell) && neighbourCell->info().Pcondition) 
+			if (!Tri.is_infinite(neighbourCell) && neighbourCell->info().Pcondition && !neighbourCell->info().blocked) 
 				gsB[cell->info().index]+=cell->info().kNorm()[j]*neighbourCell->info().p();
 		}
 	}
-- 
2.43.0


From 4618a7dd3c3cd583591ad86dc5c318c28e5cc781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:51 +0000
Subject: [PATCH 154/166] fix: flow: stale cell indices in the Gauss-Seidel
 solver

---
 lib/triangulation/FlowBoundingSphereLinSolv.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/triangulation/FlowBoundingSphereLinSolv.ipp b/lib/triangulation/FlowBoundingSphereLinSolv.ipp
index 0ab2d42..5dcfa28 100644
--- a/lib/triangulation/FlowBoundingSphereLinSolv.ipp
+++ b/lib/triangulation/FlowBoundingSphereLinSolv.ipp
@@ -397,7 +397,7 @@ int FlowBoundingSphereLinSolv<_Tesselation,FlowType>::setLinearSystemFullGS(Real
 		orderedCells.clear();
 
 		for (FiniteCellsIterator cell = Tri.finite_cells_begin(); cell != cellEnd; cell++) {
-			orderedCells.push_back(cell);
+			orderedCells.push_back(cell); cell->info().index=0;
 			if (!cell->info().Pcondition && !cell->info().blocked) ++ncols;
 		}
 		//FIXME: does it really help? test by commenting this "sorting" line
-- 
2.43.0


From 46c79f34a82c9166416c7477ac9414312adcdae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:30 +0000
Subject: [PATCH 155/166] fix: flow: compressible matrix kept when the timestep
 changes

---
 lib/triangulation/FlowBoundingSphereLinSolv.hpp | 2 ++
 lib/triangulation/FlowBoundingSphereLinSolv.ipp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/lib/triangulation/FlowBoundingSphereLinSolv.hpp b/lib/triangulation/FlowBoundingSphereLinSolv.hpp
index 6b9bcb6..85a004d 100644
--- a/lib/triangulation/FlowBoundingSphereLinSolv.hpp
+++ b/lib/triangulation/FlowBoundingSphereLinSolv.hpp
@@ -73,6 +73,7 @@ public:
 	bool isFullLinearSystemGSSet;
 	bool areCellsOrdered;//true when orderedCells is filled, turn it false after retriangulation
 	bool updatedRHS;
+	Real systemDt;//the timestep included in the matrix (compressible flow only)
 	struct timeval start, end;
 	
 	#ifdef CHOLMOD_LIBS
@@ -202,6 +203,7 @@ public:
 	void sortV(int k1, int k2, int* is, double* ds);
 
 	virtual void gaussSeidel (Real dt) {
+		if (fluidBulkModulus>0 && dt!=systemDt) {resetLinearSystem(); systemDt=dt;}
 		switch (useSolver) {
 		case 0:
 			vectorizedGaussSeidel(dt);
diff --git a/lib/triangulation/FlowBoundingSphereLinSolv.ipp b/lib/triangulation/FlowBoundingSphereLinSolv.ipp
index 5dcfa28..97555b2 100644
--- a/lib/triangulation/FlowBoundingSphereLinSolv.ipp
+++ b/lib/triangulation/FlowBoundingSphereLinSolv.ipp
@@ -86,6 +86,7 @@ FlowBoundingSphereLinSolv<_Tesselation,FlowType>::FlowBoundingSphereLinSolv(): F
 	isFullLinearSystemGSSet=0;
 	areCellsOrdered=0;//true when orderedCells is filled, turn it false after retriangulation
 	updatedRHS=false;
+	systemDt=0;
 	ZERO=0;
 	#ifdef TAUCS_LIB
 	T_A = &SystemMatrix;
-- 
2.43.0


From 43cd5aa0addb93885f9e4674da597bfacbf70429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:51 +0000
Subject: [PATCH 156/166] fix: flow: throats of blocked pores are not closed

---
 lib/triangulation/FlowBoundingSphere.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/triangulation/FlowBoundingSphere.ipp b/lib/triangulation/FlowBoundingSphere.ipp
index 8867c74..e163b5c 100644
--- a/lib/triangulation/FlowBoundingSphere.ipp
+++ b/lib/triangulation/FlowBoundingSphere.ipp
@@ -623,6 +623,13 @@ void FlowBoundingSphere<Tesselation>::computePermeability()
 			}
 		}
 	}
+	//throats of blocked cells are closed, whatever was computed or clamped above
+	for (VCellIterator cellIt=T[currentTes].cellHandles.begin(); cellIt!=T[currentTes].cellHandles.end(); cellIt++){
+		CellHandle& cell = *cellIt;
+		if (cell->info().blocked) for (int j=0; j<4; j++) {
+			(cell->info().kNorm())[j]= 0;
+			(cell->neighbor(j)->info().kNorm())[Tri.mirror_index(cell, j)]= 0;}
+	}
 	if (debugOut) cout << "PassKcorrect = " << pass << endl;
 	if (debugOut) cout << "POS = " << POS << " NEG = " << NEG << " pass = " << pass << endl;
 
-- 
2.43.0


From ac861aab7b98855edbfdaa6e999208bf2899d4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:51 +0000
Subject: [PATCH 157/166] fix: TesselationWrapper: bounding planes take ids out
 of the table

---
 pkg/dem/TesselationWrapper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/TesselationWrapper.cpp b/pkg/dem/TesselationWrapper.cpp
index 84ed33b..ff3173e 100644
--- a/pkg/dem/TesselationWrapper.cpp
+++ b/pkg/dem/TesselationWrapper.cpp
@@ -245,8 +245,9 @@ void TesselationWrapper::addBoundingPlanes(double pminx, double pmaxx, double pm
 		int freeIds [6];
 		int i=0;
 		for (int k=0; k<6; k++) {
-			while (Tes->vertexHandles[i]!=NULL) ++i;
-			freeIds[k] = i;}
+			while (i<(int)Tes->vertexHandles.size() && Tes->vertexHandles[i]!=NULL) ++i;
+			freeIds[k] = i++;}
+		if (i>(int)Tes->vertexHandles.size()) Tes->vertexHandles.resize(i,NULL);
 		// now insert
 		Tes->vertexHandles[freeIds[0]]=Tes->insert(0.5*(pminx+pmaxx),pminy-far*(pmaxx-pminx),0.5*(pmaxz+pminz),far*(pmaxx-pminx)+thickness,freeIds[0],true);
 		Tes->vertexHandles[freeIds[1]]=Tes->insert(0.5*(pminx+pmaxx), pmaxy+far*(pmaxx-pminx),0.5*(pmaxz+pminz),far*(pmaxx-pminx)+thickness, freeIds[1], true);
-- 
2.43.0


From 0bfcbb9f8c9eea6deb96700f2da230d08397768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:44 +0000
Subject: [PATCH 158/166] fix: ViscElCapPhys: the bridge radius is initialised
 and saved

---
 pkg/dem/ViscoelasticCapillarPM.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/ViscoelasticCapillarPM.hpp b/pkg/dem/ViscoelasticCapillarPM.hpp
index 20ee260..1dd3ea5 100644
--- a/pkg/dem/ViscoelasticCapillarPM.hpp
+++ b/pkg/dem/ViscoelasticCapillarPM.hpp
@@ -29,12 +29,12 @@ class ViscElCapPhys : public ViscElPhys{
 	typedef Real (* CapillarFunction)(const ScGeom& geom, ViscElCapPhys& phys);
 	public:
 		virtual ~ViscElCapPhys();
-		Real R;
 	YADE_CLASS_BASE_DOC_ATTRS_CTOR(ViscElCapPhys,ViscElPhys,"IPhys created from :yref:`ViscElCapMat`, for use with :yref:`Law2_ScGeom_ViscElCapPhys_Basic`.",
 		((bool,Capillar,false,,"True, if capillar forces need to be added."))
 		((bool,liqBridgeCreated,false,,"Whether liquid bridge was created, only after a normal contact of spheres"))
 		((bool,liqBridgeActive,false,, "Whether liquid bridge is active at the moment"))
 		((Real,sCrit,false,,"Critical bridge length [m]"))
+		((Real,R,0.0,,"Effective radius of the bridge, set when it is created [m]"))
 		((Real,Vb,0.0,,"Liquid bridge volume [m^3]"))
 		((Real,gamma,0.0,,"Surface tension [N/m]"))
 		((Real,theta,0.0,,"Contact angle [rad]"))
-- 
2.43.0


From a63ec0e995df65b6530b2e2b4fa4aed532cbbfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:44 +0000
Subject: [PATCH 159/166] fix: createExplicitInteraction uses the current scene

---
 pkg/dem/Shop_02.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index 1718c0d..4553176 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -117,6 +117,7 @@ shared_ptr<Interaction> Shop::createExplicitInteraction(Body::id_t id1, Body::id
 	}
 	if(!geomMeta) throw runtime_error("No IGeomDispatcher in engines or inside InteractionLoop.");
 	if(!physMeta) throw runtime_error("No IPhysDispatcher in engines or inside InteractionLoop.");
+	geomMeta->scene=rb.get(); physMeta->scene=rb.get(); // the engines may not have run yet since the scene was loaded
 	shared_ptr<Body> b1=Body::byId(id1,rb), b2=Body::byId(id2,rb);
 	for(const auto& b : {b1,b2}) if(!b->shape || !b->material) throw runtime_error(("Body #"+boost::lexical_cast<string>(b->getId())+" has no shape or no material.").c_str());
 	shared_ptr<Interaction> i=geomMeta->explicitAction(b1,b2,/*force*/force);
-- 
2.43.0


From 507c94f9cbf42fa6c287f84f60c3a356a5a21856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:45 +0000
Subject: [PATCH 160/166] fix: replaceByClumps: members get the state of their
 material

---
 py/wrapper/yadeWrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index de41d72..3203350 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -357,6 +357,7 @@ class pyBodyContainer{
 					
 					//create spheres:
 					shared_ptr<Body> newSphere = shared_ptr<Body>(new Body());
+					newSphere->state = matTmp->newAssocState();
 					newSphere->state->blockedDOFs = State::DOF_NONE;
 					newSphere->state->mass = scalingFactorVolume*relVolTmp[jj]*matTmp->density;//vol. corrected mass for clump members
 					Real inertiaTmp = 2.0/5.0*newSphere->state->mass*newRadTmp[jj]*newRadTmp[jj];
-- 
2.43.0


From b481e54bf9c0ae17a6700997488a6adf2c160759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:45 +0000
Subject: [PATCH 161/166] fix: UniaxialStrainer: posIds and negIds are checked

---
 pkg/dem/UniaxialStrainer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dem/UniaxialStrainer.cpp b/pkg/dem/UniaxialStrainer.cpp
index 6f2806c..3007423 100644
--- a/pkg/dem/UniaxialStrainer.cpp
+++ b/pkg/dem/UniaxialStrainer.cpp
@@ -10,10 +10,9 @@ YADE_PLUGIN((UniaxialStrainer));
 CREATE_LOGGER(UniaxialStrainer);
 
 void UniaxialStrainer::init(){
-	needsInit=false;
-
-	assert(posIds.size()>0);
-	assert(negIds.size()>0);
+	if(posIds.empty() || negIds.empty()) throw std::invalid_argument("UniaxialStrainer: posIds and negIds must not be empty.");
+	FOREACH(Body::id_t id,posIds){ if(!scene->bodies->exists(id)) throw std::invalid_argument("UniaxialStrainer.posIds: no body #"+boost::lexical_cast<string>(id)); }
+	FOREACH(Body::id_t id,negIds){ if(!scene->bodies->exists(id)) throw std::invalid_argument("UniaxialStrainer.negIds: no body #"+boost::lexical_cast<string>(id)); }
 	posCoords.clear(); negCoords.clear();
 	FOREACH(Body::id_t id,posIds){ const shared_ptr<Body>& b=Body::byId(id,scene); posCoords.push_back(b->state->pos[axis]);
 		if(blockDisplacements && blockRotations) b->state->blockedDOFs=State::DOF_ALL;
@@ -79,6 +78,7 @@ void UniaxialStrainer::init(){
 	}
 	if(std::isnan(currentStrainRate)) currentStrainRate=0;
 	if(std::isnan(crossSectionArea)){ throw std::invalid_argument("UniaxialStrain.crossSectionArea must be specified."); }
+	needsInit=false;
 }
 
 void UniaxialStrainer::action(){
-- 
2.43.0


From 0bbd2d64c8542fdde459530482be7bef2c762785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:45 +0000
Subject: [PATCH 162/166] fix: Tetrahedron functions check the number of
 vertices

---
 pkg/dem/Tetra.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/Tetra.cpp b/pkg/dem/Tetra.cpp
index e88d70c..ec01722 100644
--- a/pkg/dem/Tetra.cpp
+++ b/pkg/dem/Tetra.cpp
@@ -1046,6 +1046,7 @@ The numerical testcase (in TetraTestGen::generate) is exact as in the article fo
 */
 //Matrix3r TetrahedronInertiaTensor(const Vector3r v[4]){
 Matrix3r TetrahedronInertiaTensor(const vector<Vector3r>& v){
+	if(v.size()!=4) throw std::invalid_argument("A tetrahedron has 4 vertices.");
 	#define x1 v[0][0]
 	#define y1 v[0][1]
 	#define z1 v[0][2]
@@ -1109,6 +1110,7 @@ Matrix3r TetrahedronInertiaTensor(const vector<Vector3r>& v){
 /*! Caluclate tetrahedron's central inertia tensor */
 //Matrix3r TetrahedronCentralInertiaTensor(const Vector3r v[4]){
 Matrix3r TetrahedronCentralInertiaTensor(const vector<Vector3r>& v){
+	if(v.size()!=4) throw std::invalid_argument("A tetrahedron has 4 vertices.");
 	assert(v.size()==4);
 	vector<Vector3r> vv;
 
@@ -1175,7 +1177,10 @@ Quaternionr TetrahedronWithLocalAxesPrincipal(shared_ptr<Body>& tetraBody){
 
 Real TetrahedronSignedVolume(const Vector3r v[4]) { return (Vector3r(v[3])-Vector3r(v[0])).dot((Vector3r(v[3])-Vector3r(v[1])).cross(Vector3r(v[3])-Vector3r(v[2])))/6.; }
 Real TetrahedronVolume(const Vector3r v[4]) { return std::abs(TetrahedronSignedVolume(v)); }
-Real TetrahedronSignedVolume(const vector<Vector3r>& v) { return Vector3r(v[1]-v[0]).dot(Vector3r(v[2]-v[0]).cross(v[3]-v[0]))/6.; }
+Real TetrahedronSignedVolume(const vector<Vector3r>& v) {
+	if(v.size()!=4) throw std::invalid_argument("A tetrahedron has 4 vertices.");
+	return Vector3r(v[1]-v[0]).dot(Vector3r(v[2]-v[0]).cross(v[3]-v[0]))/6.;
+}
 Real TetrahedronVolume(const vector<Vector3r>& v) { return std::abs(TetrahedronSignedVolume(v)); }
 #ifdef YADE_CGAL
 Real TetrahedronVolume(const CGAL::Point_3<CGAL::Cartesian<Real> >* v[4]) {
-- 
2.43.0


From 34885e58fdc7a76e96f7e3c3d47493d9e4ffab22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:45 +0000
Subject: [PATCH 163/166] fix: TesselationWrapper.volume: ids without a vertex

---
 pkg/dem/TesselationWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/TesselationWrapper.cpp b/pkg/dem/TesselationWrapper.cpp
index ff3173e..798ac42 100644
--- a/pkg/dem/TesselationWrapper.cpp
+++ b/pkg/dem/TesselationWrapper.cpp
@@ -161,7 +161,7 @@ void TesselationWrapper::insertSceneSpheres(bool reset)
 // 	clock.top("Triangulation");
 }
 
-double TesselationWrapper::Volume(unsigned int id) {return ((unsigned int) Tes->Max_id() >= id) ? Tes->Volume(id) : -1;}
+double TesselationWrapper::Volume(unsigned int id) {return (id<Tes->vertexHandles.size() && Tes->vertexHandles[id]!=NULL) ? Tes->Volume(id) : -1;}
 
 bool TesselationWrapper::insert(double x, double y, double z, double rad, unsigned int id)
 {
-- 
2.43.0


From 6ea483fe72abdb5f4b368cf7824672af6383d600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:45 +0000
Subject: [PATCH 164/166] fix: TesselationWrapper.deformation: bound of the id

---
 pkg/dem/TesselationWrapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/TesselationWrapper.hpp b/pkg/dem/TesselationWrapper.hpp
index 3e4f3d9..7fa6570 100644
--- a/pkg/dem/TesselationWrapper.hpp
+++ b/pkg/dem/TesselationWrapper.hpp
@@ -90,7 +90,7 @@ public:
 	double	Volume	(unsigned int id);
 	double	deformation (unsigned int id,unsigned int i,unsigned int j) {
 		if (!mma.analyser->ParticleDeformation.size()) {LOG_ERROR("compute deformations first"); return 0;}
-		if (mma.analyser->ParticleDeformation.size()<id) {LOG_ERROR("id out of bounds"); return 0;}
+		if (mma.analyser->ParticleDeformation.size()<=id) {LOG_ERROR("id out of bounds"); return 0;}
 		if (i<1 || i>3 || j<1 || j>3) {LOG_ERROR("tensor index must be between 1 and 3"); return 0;}
 		return mma.analyser->ParticleDeformation[id](i,j);}
 
-- 
2.43.0


From 11824b6baf0a48230b7998ec7c9f0dfbaad109a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:46 +0000
Subject: [PATCH 165/166] fix: BubblePhys: coefficients are initialised

---
 pkg/dem/BubbleMat.cpp | 4 +++-
 pkg/dem/BubbleMat.hpp | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/BubbleMat.cpp b/pkg/dem/BubbleMat.cpp
index 899c6b8..e4fe409 100644
--- a/pkg/dem/BubbleMat.cpp
+++ b/pkg/dem/BubbleMat.cpp
@@ -69,9 +69,11 @@ bool Law2_ScGeom_BubblePhys_Bubble::go(shared_ptr<IGeom>& _geom, shared_ptr<IPhy
 	}
 	
 	const Real c1 = 2*Mathr::PI*surfaceTension;
-	if (I->isFresh(scene)) {
+	if (I->isFresh(scene) || !phys->coeffsSet()) { // the contact is not fresh if it was created explicitly or loaded
+		const Real fNOld = phys->fN;
 		phys->rAvg = .5*(geom->refR1 + geom->refR2);
 		phys->computeCoeffs(pctMaxForce,surfaceTension,c1);
+		if (!I->isFresh(scene) && !std::isnan(fNOld)) phys->fN = fNOld;
 	}
 
 	Real &fN = phys->fN;
diff --git a/pkg/dem/BubbleMat.hpp b/pkg/dem/BubbleMat.hpp
index 93edf8a..f8fbbe1 100644
--- a/pkg/dem/BubbleMat.hpp
+++ b/pkg/dem/BubbleMat.hpp
@@ -30,6 +30,7 @@ class BubblePhys : public IPhys {
   
 	public:
 
+	bool coeffsSet() const { return coeffA!=0; }
 	void computeCoeffs(Real pctMaxForce,Real surfaceTension, Real c1);
 	static Real computeForce(Real separation, Real surfaceTension, Real rAvg, int newtonIter, Real newtonTol, Real c1, Real fN, BubblePhys* phys);
 
@@ -43,7 +44,7 @@ class BubblePhys : public IPhys {
 		((Real,newtonIter,50,,"Maximum number of force iterations allowed"))
 		((Real,newtonTol,1e-6,,"Convergence criteria for force iterations"))
 		,
-		createIndex();
+		createIndex(); coeffA=coeffB=0;
 		,
 		.def("computeForce",&BubblePhys::computeForce,"Computes the normal force acting between the two interacting bubbles using the Newton-Rhapson method")
 		.staticmethod("computeForce")
-- 
2.43.0


From a310d0d376877c7e24850b73efaba08d43da166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:46 +0000
Subject: [PATCH 166/166] fix: DeformableElement: maxNodeCount is initialised

---
 pkg/dem/deformablecohesive/DeformableElement.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/deformablecohesive/DeformableElement.hpp b/pkg/dem/deformablecohesive/DeformableElement.hpp
index 8baf7c7..dcc1aab 100644
--- a/pkg/dem/deformablecohesive/DeformableElement.hpp
+++ b/pkg/dem/deformablecohesive/DeformableElement.hpp
@@ -71,7 +71,7 @@ class DeformableElement: public Shape {
 		((Triangles,faces,,,"Faces of the element for drawing"))
 		,
 		,
-		createIndex(); /*ctor*/
+		createIndex(); maxNodeCount=0; /*ctor*/
 		//init();
 		,
 		/*py*/
-- 
2.43.0

