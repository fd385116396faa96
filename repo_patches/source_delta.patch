From 1b9354b1e92b7088a7ae77bd6cc3f6d5b62b0a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 01/36] fix: scan partially constrained float datums from the
 least float

Select, First and Count started their float scans at zero, so negative floats
were never selected, and cardinality one float attributes accumulated values.
---
 internal/index/index.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/internal/index/index.go b/internal/index/index.go
index b202605..817f55a 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -151,6 +151,10 @@ var instValuer TypeValuer[int64] = TypeValuer[int64]{
 	devaluer: func(value Value) (v int64) { return time.Time(value.(Inst)).UnixMilli() },
 }
 
+// floatFloor sorts no later than any other float, and is therefore where the scans of
+// partially constrained float datums begin.
+var floatFloor = math.Inf(-1)
+
 func (idx *CompositeIndex) Find(datum Datum) (extant bool) {
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
@@ -310,11 +314,11 @@ func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Dat
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			seq = idx.floats.Select(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			seq = idx.floats.Select(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: floatFloor})
 		case AE:
-			seq = idx.floats.Select(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			seq = idx.floats.Select(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: floatFloor})
 		case A:
-			seq = idx.floats.Select(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A})
+			seq = idx.floats.Select(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatFloor})
 		case AV:
 			seq = idx.floats.Select(CompareAV[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
@@ -391,11 +395,11 @@ func (idx *CompositeIndex) First(p PartialIndex, datum Datum) (match Datum, exta
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			match, extant = idx.floats.First(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			match, extant = idx.floats.First(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: floatFloor})
 		case AE:
-			match, extant = idx.floats.First(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			match, extant = idx.floats.First(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: floatFloor})
 		case A:
-			match, extant = idx.floats.First(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A})
+			match, extant = idx.floats.First(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatFloor})
 		case AV:
 			match, extant = idx.floats.First(CompareAV[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
@@ -471,11 +475,11 @@ func (idx *CompositeIndex) Count(p PartialIndex, datum Datum) (count int) {
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			count = idx.floats.Count(CompareEA[float64], TypedDatum[float64]{E: datum.E, A: datum.A})
+			count = idx.floats.Count(CompareEA[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: floatFloor})
 		case AE:
-			count = idx.floats.Count(CompareAE[float64], TypedDatum[float64]{E: datum.E, A: datum.A})
+			count = idx.floats.Count(CompareAE[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: floatFloor})
 		case A:
-			count = idx.floats.Count(CompareA[float64], TypedDatum[float64]{A: datum.A})
+			count = idx.floats.Count(CompareA[float64], TypedDatum[float64]{A: datum.A, V: floatFloor})
 		case AV:
 			count = idx.floats.Count(CompareAV[float64], TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
-- 
2.43.0


From a2e5db1eda69a20216dc54d33735c63420bbfbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 02/36] fix: retain extant cardinality one datums whose
 instants are equal

Reasserting an instant with finer precision than is stored, or in another
location, replaced the extant datum with its duplicate in the new transaction.
---
 internal/database/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index ac22379..8c0a86a 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -310,7 +310,7 @@ CLAIMS:
 					// if this is cardinality one, we must replace extant datum if ea but not v
 					d, ok := eav.First(index.EA, *datum)
 					if ok {
-						if d.V == datum.V {
+						if valuesEqual(d.V, datum.V) {
 							continue
 						} else {
 							eav.Delete(d)
-- 
2.43.0


From a733c27e4c303b471377e5b1cc70509d3823464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 03/36] fix: order NaN floats

NaN compares false with every float under the operators, so the lessers were not
orders in the presence of NaN and the trees lost datums.
---
 internal/database/snapshot.go |  9 ++++++++-
 internal/index/compare.go     | 24 ++++++++++--------------
 internal/index/index.go       |  2 +-
 3 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index 224227d..4ab7933 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -1,6 +1,7 @@
 package database
 
 import (
+	"cmp"
 	"iter"
 	"time"
 
@@ -123,13 +124,19 @@ func filterByV(seq iter.Seq[Datum], v Value) iter.Seq[Datum] {
 
 // valuesEqual compares two values with the same instant semantics the indexes use:
 // Inst values are equal when they denote the same millisecond, matching how they are
-// stored and compared in the int tree. All other value types compare by ==.
+// stored and compared in the int tree, and all NaN values are equal. All other value types
+// compare by ==.
 func valuesEqual(a Value, b Value) bool {
 	ai, aok := a.(Inst)
 	bi, bok := b.(Inst)
 	if aok && bok {
 		return time.Time(ai).UnixMilli() == time.Time(bi).UnixMilli()
 	}
+	af, aok := a.(Float)
+	bf, bok := b.(Float)
+	if aok && bok {
+		return cmp.Compare(af, bf) == 0
+	}
 	return a == b
 }
 
diff --git a/internal/index/compare.go b/internal/index/compare.go
index fa853b0..a4924d0 100644
--- a/internal/index/compare.go
+++ b/internal/index/compare.go
@@ -2,6 +2,8 @@ package index
 
 import "cmp"
 
+// Lesser functions are strict total orders, in which NaN values are equal to each other and
+// precede all other floats.
 type Lesser[X cmp.Ordered] func(d1 TypedDatum[X], d2 TypedDatum[X]) bool
 
 func LessEAV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
@@ -15,7 +17,7 @@ func LessEAV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	case d1.A > d2.A:
 		less = false
 	default:
-		less = d1.V < d2.V
+		less = cmp.Less(d1.V, d2.V)
 	}
 	return
 }
@@ -26,9 +28,9 @@ func LessAVE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 		less = true
 	case d1.A > d2.A:
 		less = false
-	case d1.V < d2.V:
+	case cmp.Less(d1.V, d2.V):
 		less = true
-	case d1.V > d2.V:
+	case cmp.Less(d2.V, d1.V):
 		less = false
 	default:
 		less = d1.E < d2.E
@@ -47,16 +49,16 @@ func LessAEV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	case d1.E > d2.E:
 		less = false
 	default:
-		less = d1.V < d2.V
+		less = cmp.Less(d1.V, d2.V)
 	}
 	return
 }
 
 func LessVAE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	switch {
-	case d1.V < d2.V:
+	case cmp.Less(d1.V, d2.V):
 		less = true
-	case d1.V > d2.V:
+	case cmp.Less(d2.V, d1.V):
 		less = false
 	case d1.A < d2.A:
 		less = true
@@ -143,14 +145,8 @@ func CompareAVE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
 }
 
 func CompareV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
-	switch {
-	case d1.V < d2.V:
-		diff = -1
-	case d1.V > d2.V:
-		diff = 1
-	default:
-		diff = 0
-	}
+	// The operators do not order NaN.
+	diff = cmp.Compare(d1.V, d2.V)
 	return
 }
 
diff --git a/internal/index/index.go b/internal/index/index.go
index 817f55a..999be7d 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -153,7 +153,7 @@ var instValuer TypeValuer[int64] = TypeValuer[int64]{
 
 // floatFloor sorts no later than any other float, and is therefore where the scans of
 // partially constrained float datums begin.
-var floatFloor = math.Inf(-1)
+var floatFloor = math.NaN()
 
 func (idx *CompositeIndex) Find(datum Datum) (extant bool) {
 	switch idx.attrTypes[datum.A] {
-- 
2.43.0


From fbccf9fda3385156535928c0f5186758ab06ab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 04/36] fix: select an empty sequence when the index cannot
 satisfy the partial

A nil sequence panics when consumed, e.g. by selecting an id that is not an attribute.
---
 internal/index/index.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/index/index.go b/internal/index/index.go
index 999be7d..983a138 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -277,6 +277,7 @@ func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Dat
 		seq = mergeEAV(strings, mapSeq(ints, idx.reint), mapSeq(uints, idx.reuint), floats)
 		return
 	}
+	seq = func(func(Datum) bool) {}
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
 		switch p {
-- 
2.43.0


From e7379a2fdcd616214557b8a102e082c46d0ae6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 05/36] fix: serialize reads

Reading clones the indexes, and index clones may not be concurrent.
---
 internal/database/database.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 8c0a86a..bf37c35 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -23,7 +23,7 @@ type indexDatabase struct {
 	attrCardManies map[ID]Void
 	idents         map[Ident]ID
 
-	lock   sync.RWMutex
+	lock   sync.Mutex
 	logger log.Logger
 	nextID ID
 }
@@ -79,8 +79,9 @@ func NewIndexDatabase(degree int, attrsSize int, identsSize int) (db Database) {
 }
 
 func (db *indexDatabase) Read() (snapshot Snapshot) {
-	db.lock.RLock()
-	defer db.lock.RUnlock()
+	// Cloning an index changes the original, so readers exclude each other.
+	db.lock.Lock()
+	defer db.lock.Unlock()
 	snapshot = db.read()
 	return
 }
-- 
2.43.0


From 1476ebbf77d2648245c702b951ca514f8958b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 06/36] fix: do not change the attribute types of extant
 snapshots

Indexes share the map of attribute types with their clones, so declaring an attribute
wrote to a map that concurrent snapshot readers were reading.
---
 internal/database/database.go | 12 +++++++++++-
 internal/index/index.go       |  8 ++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index bf37c35..c244f66 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -338,6 +338,17 @@ CLAIMS:
 				}
 			}
 		}
+		if len(attrChanges) != 0 {
+			// The extant map is shared with the indexes of extant snapshots.
+			attrTypes := maps.Clone(db.attrTypes)
+			for id, attr := range attrChanges {
+				attrTypes[id] = attr.Type
+			}
+			eav.SetAttrTypes(attrTypes)
+			aev.SetAttrTypes(attrTypes)
+			ave.SetAttrTypes(attrTypes)
+			db.attrTypes = attrTypes
+		}
 		db.eav = eav
 		db.aev = aev
 		db.ave = ave
@@ -351,7 +362,6 @@ CLAIMS:
 			db.idents[attr.Ident] = id
 			db.attrsByID[id] = attr
 			db.attrsByIdent[attr.Ident] = attr
-			db.attrTypes[id] = attr.Type
 			if attr.Cardinality == sys.AttrCardinalityMany {
 				db.attrCardManies[id] = Void{}
 			}
diff --git a/internal/index/index.go b/internal/index/index.go
index 983a138..11bc972 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -84,6 +84,10 @@ type Index interface {
 	// Clone returns a copy of the index. Both instances are hereafter safe to change without affecting
 	// the other.
 	Clone() (clone Index)
+	// SetAttrTypes replaces the map of attribute types, which must agree with the extant map
+	// where both have an entry. The index and its clones retain the map, so it may not be
+	// changed hereafter.
+	SetAttrTypes(attrTypes map[ID]ID)
 }
 
 // CompositeIndex is an index of indexes of the discrete types.
@@ -510,6 +514,10 @@ func (idx *CompositeIndex) Count(p PartialIndex, datum Datum) (count int) {
 	return
 }
 
+func (idx *CompositeIndex) SetAttrTypes(attrTypes map[ID]ID) {
+	idx.attrTypes = attrTypes
+}
+
 func (idx *CompositeIndex) Clone() (clone Index) {
 	clone = &CompositeIndex{
 		attrTypes: idx.attrTypes,
-- 
2.43.0


From 5d327c618f6bdb06ca7cdd76f393c4e05551dcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 07/36] fix: do not write retraction claims to the request's
 claims array

---
 internal/database/database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index c244f66..60881ce 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -4,6 +4,7 @@ package database
 import (
 	"log"
 	"maps"
+	"slices"
 	"sync"
 
 	"github.com/dball/destructive/internal/index"
@@ -107,7 +108,8 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
 	identDeletes := map[ID]Ident{}
-	claims := req.Claims
+	// The retraction claims may not be appended to the caller's array.
+	claims := slices.Clip(req.Claims)
 	if len(req.Retractions) != 0 {
 		ids := make(map[ID]Void, len(req.Retractions))
 		for _, retraction := range req.Retractions {
-- 
2.43.0


From 578971b7ba27273298b243dd2e501cf423c29b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 08/36] fix: reject retractions without constraints

The constraints must resolve to a single id.
---
 internal/database/database.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index 60881ce..8444e3e 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -135,6 +135,10 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 					return
 				}
 			}
+			if id == 0 {
+				res.Error = NewError("database.write.invalidE", "retraction", retraction)
+				return
+			}
 			ids[id] = Void{}
 		}
 		for id := range ids {
-- 
2.43.0


From 7197b648e6ab7bd20f02b6169c214f5a1e59b152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 09/36] fix: do not panic when writing lookup refs with values
 of the wrong type

---
 internal/database/database.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index 8444e3e..a20c288 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -497,6 +497,9 @@ func (db *indexDatabase) resolveLookupRef(ref LookupRef) (id ID) {
 	if db.attrUniques[datum.A] == 0 {
 		return
 	}
+	if !sys.ValidValue(db.attrTypes[datum.A], datum.V) {
+		return
+	}
 	match, ok := db.ave.First(index.AV, datum)
 	if ok {
 		id = match.E
-- 
2.43.0


From d4427ff690fa505a4015cc98e291736c5192e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 10/36] fix: reject references to ids that have not been issued

Such an id may be issued to an unrelated entity hereafter.
---
 internal/database/database.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index a20c288..577e5c6 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -462,6 +462,11 @@ func (db *indexDatabase) evaluateClaim(res *Response, claim *Claim) (datum *Datu
 			res.Error = NewError("database.write.invalidV", "v", v)
 		}
 		datum.V = id
+	case ID:
+		if v == 0 || v >= res.ID {
+			res.Error = NewError("database.write.invalidV", "v", v)
+		}
+		datum.V = v
 	default:
 		ok := false
 		datum.V, ok = v.(Value)
-- 
2.43.0


From 26d0a64306c3e57ce06edeb4ace130ae3c0181e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 11/36] fix: resolve identities before enforcing invariants and
 accept claims which agree on them

---
 internal/database/database.go | 99 ++++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 31 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 577e5c6..233067d 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -102,7 +102,6 @@ func (db *indexDatabase) read() (snapshot Snapshot) {
 }
 
 func (db *indexDatabase) Write(req Request) (res Response) {
-	rewrites := map[ID]ID{}
 	db.lock.Lock()
 	defer db.lock.Unlock()
 	attrChanges := map[ID]Attr{}
@@ -153,26 +152,28 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	res.ID = db.allocateID()
 	res.TempIDs = map[TempID]ID{}
 	data := make([]*Datum, 0, len(claims))
-CLAIMS:
 	for _, claim := range claims {
 		datum := db.evaluateClaim(&res, &claim)
 		if res.Error != nil {
 			break
 		}
+		data = append(data, datum)
+	}
+	if res.Error == nil {
+		db.resolveIdentities(&res, claims, data)
+	}
+	if res.Error != nil {
+		data = nil
+	}
+CLAIMS:
+	for i, datum := range data {
+		claim := claims[i]
 		if !claim.Retract {
 			unique := db.attrUniques[datum.A]
 			if unique != 0 {
 				d, ok := db.ave.First(index.AV, *datum)
 				if ok {
 					switch unique {
-					case sys.AttrUniqueIdentity:
-						_, ok := rewrites[datum.E]
-						if ok {
-							res.Error = NewError("database.write.uniqueValueImpossible", "datum", datum)
-							break CLAIMS
-						} else {
-							rewrites[datum.E] = d.E
-						}
 					case sys.AttrUniqueValue:
 						res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
 						break CLAIMS
@@ -261,9 +262,11 @@ CLAIMS:
 				attrChanges[datum.E] = attr
 			}
 		}
-		data = append(data, datum)
 	}
 	for id, attr := range attrChanges {
+		if res.Error != nil {
+			break
+		}
 		ident, ok := identCreates[id]
 		if !ok {
 			res.Error = NewError("database.write.attrRequiresIdent", "attr", attr)
@@ -292,26 +295,7 @@ CLAIMS:
 		ave := db.ave.Clone()
 		// We could consider transacting into the indexes concurrently.
 		for i, datum := range data {
-			claim := claims[i]
-			// TempIDs may have been assigned IDs that subsequently resolved to identity
-			// unique datum ids, so we rewrite them if so.
-			tempid, ok := claim.E.(TempID)
-			if ok {
-				id, ok := rewrites[datum.E]
-				if ok {
-					datum.E = id
-					res.TempIDs[tempid] = id
-				}
-			}
-			tempid, ok = claim.V.(TempID)
-			if ok {
-				id, ok := rewrites[datum.V.(ID)]
-				if ok {
-					datum.V = id
-					res.TempIDs[tempid] = id
-				}
-			}
-			if !claim.Retract {
+			if !claims[i].Retract {
 				_, ok := db.attrCardManies[datum.A]
 				if !ok {
 					// if this is cardinality one, we must replace extant datum if ea but not v
@@ -483,6 +467,59 @@ func (db *indexDatabase) evaluateClaim(res *Response, claim *Claim) (datum *Datu
 	return
 }
 
+// resolveIdentities rewrites the ids assigned to tempids that claim the values of identity
+// unique attributes to the ids of the entities which already have, or also claim, those values.
+func (db *indexDatabase) resolveIdentities(res *Response, claims []Claim, data []*Datum) {
+	rewrites := map[ID]ID{}
+	resolve := func(id ID) ID {
+		for {
+			rewrite, ok := rewrites[id]
+			if !ok {
+				return id
+			}
+			id = rewrite
+		}
+	}
+	ave := db.ave.Clone()
+	for i, datum := range data {
+		if claims[i].Retract || db.attrUniques[datum.A] != sys.AttrUniqueIdentity {
+			continue
+		}
+		d, ok := ave.First(index.AV, *datum)
+		if !ok {
+			ave.Insert(*datum)
+			continue
+		}
+		id := resolve(datum.E)
+		extant := resolve(d.E)
+		// Only ids greater than the transaction's have been assigned to tempids.
+		_, ok = claims[i].E.(TempID)
+		switch {
+		case id == extant:
+		case id > res.ID:
+			rewrites[id] = extant
+		case extant > res.ID:
+			rewrites[extant] = id
+		case ok:
+			res.Error = NewError("database.write.uniqueValueImpossible", "datum", datum)
+			return
+		}
+	}
+	for i, datum := range data {
+		_, ok := claims[i].E.(TempID)
+		if ok {
+			datum.E = resolve(datum.E)
+		}
+		_, ok = claims[i].V.(TempID)
+		if ok {
+			datum.V = resolve(datum.V.(ID))
+		}
+	}
+	for tempid, id := range res.TempIDs {
+		res.TempIDs[tempid] = resolve(id)
+	}
+}
+
 func (db *indexDatabase) allocateID() (id ID) {
 	id = db.nextID
 	db.nextID++
-- 
2.43.0


From 866366c459333a6871099b4a4489c1c1a4c471e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 12/36] fix: enforce uniqueness amongst the claims of a request
 and of explicit entities

---
 internal/database/database.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 233067d..ef0f160 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -168,19 +168,6 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 CLAIMS:
 	for i, datum := range data {
 		claim := claims[i]
-		if !claim.Retract {
-			unique := db.attrUniques[datum.A]
-			if unique != 0 {
-				d, ok := db.ave.First(index.AV, *datum)
-				if ok {
-					switch unique {
-					case sys.AttrUniqueValue:
-						res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
-						break CLAIMS
-					}
-				}
-			}
-		}
 		// Enforce system invariants and maintain database caches.
 		switch datum.A {
 		case sys.DbIdent:
@@ -287,15 +274,24 @@ CLAIMS:
 			break
 		}
 	}
+	eav := db.eav.Clone()
+	aev := db.aev.Clone()
+	// Could defer this clone until we know we need it
+	ave := db.ave.Clone()
 	// We now have datums with resolved or assigned ids and consistent avs.
 	if res.Error == nil {
-		eav := db.eav.Clone()
-		aev := db.aev.Clone()
-		// Could defer this clone until we know we need it
-		ave := db.ave.Clone()
 		// We could consider transacting into the indexes concurrently.
 		for i, datum := range data {
 			if !claims[i].Retract {
+				_, unique := db.attrUniques[datum.A]
+				if unique {
+					// The extant datum may have been asserted by an earlier claim.
+					d, ok := ave.First(index.AV, *datum)
+					if ok && d.E != datum.E {
+						res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
+						break
+					}
+				}
 				_, ok := db.attrCardManies[datum.A]
 				if !ok {
 					// if this is cardinality one, we must replace extant datum if ea but not v
@@ -328,6 +324,8 @@ CLAIMS:
 				}
 			}
 		}
+	}
+	if res.Error == nil {
 		if len(attrChanges) != 0 {
 			// The extant map is shared with the indexes of extant snapshots.
 			attrTypes := maps.Clone(db.attrTypes)
-- 
2.43.0


From 5afc1c65daf3229e5fbdb84f629845c60b801e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 13/36] fix: maintain the ident cache from the ident datums
 actually changed

---
 internal/database/database.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index ef0f160..c9672b7 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -106,7 +106,8 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	defer db.lock.Unlock()
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
-	identDeletes := map[ID]Ident{}
+	// These are the final ids of the idents changed by the claims, 0 if none.
+	identChanges := map[Ident]ID{}
 	// The retraction claims may not be appended to the caller's array.
 	claims := slices.Clip(req.Claims)
 	if len(req.Retractions) != 0 {
@@ -188,10 +189,10 @@ CLAIMS:
 					res.Error = NewError("database.write.invalidUserIdent", "datum", datum)
 					break CLAIMS
 				}
-				if claim.Retract {
-					identDeletes[datum.E] = ident
-				} else {
+				if !claim.Retract {
 					identCreates[datum.E] = ident
+				} else if identCreates[datum.E] == ident {
+					delete(identCreates, datum.E)
 				}
 			}
 		case sys.AttrType:
@@ -302,6 +303,9 @@ CLAIMS:
 						} else {
 							eav.Delete(d)
 							aev.Delete(d)
+							if d.A == sys.DbIdent {
+								identChanges[Ident(d.V.(String))] = 0
+							}
 							_, ok := db.attrUniques[datum.A]
 							if ok {
 								ave.Delete(d)
@@ -311,13 +315,19 @@ CLAIMS:
 				}
 				eav.Insert(*datum)
 				aev.Insert(*datum)
+				if datum.A == sys.DbIdent {
+					identChanges[Ident(datum.V.(String))] = datum.E
+				}
 				_, ok = db.attrUniques[datum.A]
 				if ok {
 					ave.Insert(*datum)
 				}
 			} else {
-				eav.Delete(*datum)
+				extant := eav.Delete(*datum)
 				aev.Delete(*datum)
+				if extant && datum.A == sys.DbIdent {
+					identChanges[Ident(datum.V.(String))] = 0
+				}
 				_, ok := db.attrUniques[datum.A]
 				if ok {
 					ave.Delete(*datum)
@@ -340,14 +350,14 @@ CLAIMS:
 		db.eav = eav
 		db.aev = aev
 		db.ave = ave
-		for _, ident := range identDeletes {
-			delete(db.idents, ident)
-		}
-		for id, ident := range identCreates {
-			db.idents[ident] = id
+		for ident, id := range identChanges {
+			if id != 0 {
+				db.idents[ident] = id
+			} else {
+				delete(db.idents, ident)
+			}
 		}
 		for id, attr := range attrChanges {
-			db.idents[attr.Ident] = id
 			db.attrsByID[id] = attr
 			db.attrsByIdent[attr.Ident] = attr
 			if attr.Cardinality == sys.AttrCardinalityMany {
-- 
2.43.0


From 57b25b8c75b6c3acb896ade8f15837523e53a668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 14/36] fix: reject claims about system entities

---
 internal/database/database.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index c9672b7..b1b2351 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -169,6 +169,10 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 CLAIMS:
 	for i, datum := range data {
 		claim := claims[i]
+		if datum.E < sys.FirstUserID {
+			res.Error = NewError("database.write.sysEntityDisallowed", "datum", datum)
+			break
+		}
 		// Enforce system invariants and maintain database caches.
 		switch datum.A {
 		case sys.DbIdent:
-- 
2.43.0


From 7d601bb5d6af0296746c3d3b6484e3a38a22408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 15/36] fix: respond with the snapshot which rejected the
 retractions

---
 internal/database/database.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index b1b2351..d90ae8c 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -127,16 +127,19 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 				switch {
 				case refID == 0:
 					res.Error = NewError("database.write.invalidE", "retraction", retraction, "ref", ref)
+					res.Snapshot = db.read()
 					return
 				case id == 0:
 					id = refID
 				case id != refID:
 					res.Error = NewError("database.write.inconsistentE", "retraction", retraction, "ref", ref, "id", id)
+					res.Snapshot = db.read()
 					return
 				}
 			}
 			if id == 0 {
 				res.Error = NewError("database.write.invalidE", "retraction", retraction)
+				res.Snapshot = db.read()
 				return
 			}
 			ids[id] = Void{}
-- 
2.43.0


From 41d3b6ae851cd32cd512e0bc28c591eba91ab181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 16/36] fix: match no datums when a claim's refs do not resolve
 or its value is inconsistent

---
 internal/database/snapshot.go | 65 ++++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 8 deletions(-)

diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index 4ab7933..5d48fd9 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -6,6 +6,7 @@ import (
 	"time"
 
 	"github.com/dball/destructive/internal/index"
+	"github.com/dball/destructive/internal/sys"
 	. "github.com/dball/destructive/internal/types"
 )
 
@@ -76,7 +77,10 @@ func (snapshot *indexSnapshot) selectWith(a access, match Datum) (datums iter.Se
 
 // Select returns the datums matching the claim.
 func (snapshot *indexSnapshot) Select(claim Claim) iter.Seq[Datum] {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return func(func(Datum) bool) {}
+	}
 	return snapshot.selectWith(snapshot.access(match), match)
 }
 
@@ -84,7 +88,10 @@ func (snapshot *indexSnapshot) Select(claim Claim) iter.Seq[Datum] {
 // exact existence check against eav (a btree lookup, no allocation); other shapes
 // fall back to testing whether the access path yields anything.
 func (snapshot *indexSnapshot) Has(claim Claim) bool {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return false
+	}
 	if match.E != 0 && match.A != 0 && match.V != nil {
 		return snapshot.eav.Find(match)
 	}
@@ -98,7 +105,10 @@ func (snapshot *indexSnapshot) Has(claim Claim) bool {
 // directly through the typed indexes (which tally without materializing values);
 // value-filtered and unconstrained shapes are counted by enumeration.
 func (snapshot *indexSnapshot) Count(claim Claim) (count int) {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return
+	}
 	a := snapshot.access(match)
 	if a.all || a.filterV != nil {
 		for range snapshot.selectWith(a, match) {
@@ -160,7 +170,8 @@ func (snapshot *indexSnapshot) resolveLookupRef(ref LookupRef) (id ID) {
 	default:
 		return
 	}
-	if snapshot.attrs[datum.A].Unique == 0 {
+	attr := snapshot.attrs[datum.A]
+	if attr.Unique == 0 || !sys.ValidValue(attr.Type, datum.V) {
 		return
 	}
 	match, ok := snapshot.ave.First(index.AV, datum)
@@ -170,24 +181,62 @@ func (snapshot *indexSnapshot) resolveLookupRef(ref LookupRef) (id ID) {
 	return
 }
 
-func (snapshot *indexSnapshot) resolveClaim(claim Claim) (match Datum) {
+// resolveClaim resolves the claim's refs to the ids and value to match. It is not ok if a ref does
+// not resolve, or if the value is inconsistent with the attribute, for then no datum can match.
+func (snapshot *indexSnapshot) resolveClaim(claim Claim) (match Datum, ok bool) {
 	switch e := claim.E.(type) {
+	case nil:
 	case ID:
 		match.E = e
 	case Ident:
 		match.E = snapshot.idents[e]
+		if match.E == 0 {
+			return
+		}
 	case LookupRef:
 		match.E = snapshot.resolveLookupRef(e)
+		if match.E == 0 {
+			return
+		}
+	default:
+		return
 	}
 	switch a := claim.A.(type) {
+	case nil:
 	case ID:
 		match.A = a
 	case Ident:
 		match.A = snapshot.idents[a]
+		if match.A == 0 {
+			return
+		}
+	case LookupRef:
+		match.A = snapshot.resolveLookupRef(a)
+		if match.A == 0 {
+			return
+		}
+	default:
+		return
 	}
-	value, ok := claim.V.(Value)
-	if ok {
-		match.V = value
+	switch v := claim.V.(type) {
+	case nil:
+	case Ident:
+		id := snapshot.idents[v]
+		if id == 0 {
+			return
+		}
+		match.V = id
+	case LookupRef:
+		id := snapshot.resolveLookupRef(v)
+		if id == 0 {
+			return
+		}
+		match.V = id
+	case Value:
+		match.V = v
+	default:
+		return
 	}
+	ok = match.A == 0 || match.V == nil || sys.ValidValue(snapshot.attrs[match.A].Type, match.V)
 	return
 }
-- 
2.43.0


From 3bd5fe3e6e5734d37c4b5438b70eb9175c9cc5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 17/36] fix: ignore struct fields without attr tags

---
 internal/structs/models/models.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index d0c55f7..554c52a 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -112,6 +112,10 @@ func Analyze(typ reflect.Type) (model StructModel, err error) {
 			err = fieldErr
 			return
 		}
+		// Fields without tags are ignored.
+		if attr.FieldType == nil {
+			continue
+		}
 		attr.Index = i
 		attrFields = append(attrFields, attr)
 	}
-- 
2.43.0


From 0da0070322b78454a404f5221702aae782d8ded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 18/36] fix: cache the models of valid types, not invalid types

---
 internal/structs/models/models.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index 554c52a..38ce83b 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -4,6 +4,7 @@ package models
 import (
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/dball/destructive/internal/sys"
 	. "github.com/dball/destructive/internal/types"
@@ -16,19 +17,22 @@ type Analyzer interface {
 }
 
 type cachingAnalyzer struct {
+	lock  sync.Mutex
 	types map[reflect.Type]*StructModel
 }
 
 var _ Analyzer = (*cachingAnalyzer)(nil)
 
 func (analyzer *cachingAnalyzer) Analyze(typ reflect.Type) (model StructModel, err error) {
+	analyzer.lock.Lock()
+	defer analyzer.lock.Unlock()
 	mp := analyzer.types[typ]
 	if mp != nil {
 		model = *mp
 		return
 	}
 	model, err = Analyze(typ)
-	if err != nil {
+	if err == nil {
 		analyzer.types[typ] = &model
 	}
 	return
@@ -36,7 +40,7 @@ func (analyzer *cachingAnalyzer) Analyze(typ reflect.Type) (model StructModel, e
 
 // BuildCachingAnalyzer returns an analyzer with a cache of type models.
 func BuildCachingAnalyzer() Analyzer {
-	return &cachingAnalyzer{}
+	return &cachingAnalyzer{types: map[reflect.Type]*StructModel{}}
 }
 
 // StructModel models a struct that has fields bound to attributes, whose instances
-- 
2.43.0


From 55d34bafbe99aa93aab921dc9c23ee00fb11b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 19/36] fix: assemble scalars as their targets' types, or fail

---
 internal/structs/assemblers/assemblers.go | 176 ++++++++++++++--------
 1 file changed, 113 insertions(+), 63 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 6809759..62b7fc3 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -113,26 +113,14 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 		}
 		field := value.Field(attr.Index)
 		if attr.IsPointer() {
-			// TODO who owns the vs anyway? If they're not copied at some point,
-			// exposing value pointers opens the door to database corruption.
 			switch v := datum.V.(type) {
-			case String:
-				// TODO does this count as a copy for the purpose of ensuring the
-				// outer pointer doesn't change the Fact value?
-				fv := string(v)
-				field.Set(reflect.ValueOf(&fv))
-			case Int:
-				fv := int(v)
-				field.Set(reflect.ValueOf(&fv))
-			case Bool:
-				fv := bool(v)
-				field.Set(reflect.ValueOf(&fv))
-			case Float:
-				fv := float64(v)
-				field.Set(reflect.ValueOf(&fv))
-			case Inst:
-				fv := time.Time(v)
-				field.Set(reflect.ValueOf(&fv))
+			case String, Int, Bool, Float, Inst:
+				pointer := reflect.New(field.Type().Elem())
+				if !setScalar(pointer.Elem(), v) {
+					err = NewError("assembler.invalidFactPointerValue", "datum", datum, "type", field.Type())
+					return
+				}
+				field.Set(pointer)
 			case ID:
 				pointer, ok := as.pointers[v]
 				if ok {
@@ -147,17 +135,11 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 			}
 		} else {
 			switch v := datum.V.(type) {
-			case String:
-				field.SetString(string(v))
-			case Int:
-				// TODO what about overflows?
-				field.SetInt(int64(v))
-			case Bool:
-				field.SetBool(bool(v))
-			case Float:
-				field.SetFloat(float64(v))
-			case Inst:
-				field.Set(reflect.ValueOf(time.Time(v)))
+			case String, Int, Bool, Float, Inst:
+				if !setScalar(field, v) {
+					err = NewError("assembler.invalidFactValue", "datum", datum, "type", field.Type())
+					return
+				}
 			case ID:
 				switch {
 				case attr.Ident == sys.DbId:
@@ -180,7 +162,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					if !ok {
 						pointer = as.allocate(v, reflect.PointerTo(mapValueType))
 					}
-					as.addEntityToMap(attr.MapKey, m, v, pointer, mapHasPointers, ok)
+					err = as.addEntityToMap(attr.MapKey, m, v, pointer, mapHasPointers, ok)
+					if err != nil {
+						return
+					}
 				case attr.IsSlice():
 					var slice reflect.Value
 					if field.IsNil() {
@@ -196,13 +181,22 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 						if !ok {
 							pointer = as.allocate(v, reflect.PointerTo(sliceValueType))
 						}
-						as.addEntityToSlice(attr.CollValue, slice, v, pointer, ok)
+						err = as.addEntityToSlice(attr.CollValue, slice, v, pointer, ok)
+						if err != nil {
+							return
+						}
 					} else {
 						// Since we have exactly two facts to find, we can reasonably just go right to them,
 						// though we may want to mark the entity id as processed now.
-						scalar := as.findValue(v, attr.CollValue)
-						i := int(as.findValue(v, Ident("sys/db/rank")).(int64))
-						slice.Index(i).Set(reflect.ValueOf(scalar))
+						var entry reflect.Value
+						entry, err = as.findSliceEntry(slice, v)
+						if err != nil {
+							return
+						}
+						if !setScalar(entry, as.findValue(v, attr.CollValue)) {
+							err = NewError("assembler.invalidFactValue", "id", v, "type", entry.Type())
+							return
+						}
 					}
 				default:
 					pointer, ok := as.pointers[v]
@@ -227,19 +221,28 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 	attr, ok := model.Attr(Ident(sys.DbId))
 	if ok {
 		field := value.Field(attr.Index)
-		field.SetUint(uint64(id))
+		if !setScalar(field, id) {
+			err = NewError("assembler.invalidIdFieldType", "type", field.Type())
+			return
+		}
 	}
 	maes, ok := as.mapsAwaitingEntries[id]
 	if ok {
 		for _, mae := range maes {
-			as.addEntityToMap(mae.mapKey, mae.m, id, mae.pointer, mae.mapHasPointers, true)
+			err = as.addEntityToMap(mae.mapKey, mae.m, id, mae.pointer, mae.mapHasPointers, true)
+			if err != nil {
+				return
+			}
 		}
 		delete(as.mapsAwaitingEntries, id)
 	}
 	saes, ok := as.slicesAwaitingEntries[id]
 	if ok {
 		for _, sae := range saes {
-			as.addEntityToSlice(sae.collValue, sae.slice, id, sae.pointer, true)
+			err = as.addEntityToSlice(sae.collValue, sae.slice, id, sae.pointer, true)
+			if err != nil {
+				return
+			}
 		}
 		delete(as.slicesAwaitingEntries, id)
 	}
@@ -247,42 +250,85 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 	return
 }
 
-func (as *assembler) findValue(e ID, a Ident) (v any) {
+// findValue finds the first value of the entity's attribute, or nil if there is none.
+func (as *assembler) findValue(e ID, a Ident) (v Value) {
 	// TODO snapshot should support SelectOne?
 	for datum := range as.snapshot.Select(Claim{E: e, A: a}) {
-		switch x := datum.V.(type) {
-		case String:
-			v = string(x)
-		case Int:
-			v = int64(x)
-		case Bool:
-			v = bool(x)
-		case Float:
-			v = float64(x)
-		case Inst:
-			v = time.Time(x)
-		case ID:
-			v = uint64(x)
-		default:
-			panic("assembler.invalidFactValue")
-		}
+		v = datum.V
+		return
+	}
+	return
+}
+
+// findSliceEntry finds the entry of the slice at the entity's rank.
+func (as *assembler) findSliceEntry(slice reflect.Value, id ID) (entry reflect.Value, err error) {
+	rank, ok := as.findValue(id, Ident("sys/db/rank")).(Int)
+	if !ok || rank < 0 || int(rank) >= slice.Len() {
+		err = NewError("assembler.invalidRank", "id", id)
 		return
 	}
+	entry = slice.Index(int(rank))
 	return
 }
 
-func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointer reflect.Value, mapHasPointers bool, immediate bool) {
+// setScalar sets the settable target to the value, if the target's type accommodates it.
+func setScalar(target reflect.Value, value Value) (ok bool) {
+	kind := target.Kind()
+	switch v := value.(type) {
+	case String:
+		ok = kind == reflect.String
+		if ok {
+			target.SetString(string(v))
+		}
+	case Int:
+		ok = target.CanInt() && !target.OverflowInt(int64(v))
+		if ok {
+			target.SetInt(int64(v))
+		}
+	case Bool:
+		ok = kind == reflect.Bool
+		if ok {
+			target.SetBool(bool(v))
+		}
+	case Float:
+		ok = kind == reflect.Float64
+		if ok {
+			target.SetFloat(float64(v))
+		}
+	case Inst:
+		ok = target.Type() == TimeType
+		if ok {
+			target.Set(reflect.ValueOf(time.Time(v)))
+		}
+	case ID:
+		ok = kind == reflect.Uint64
+		if ok {
+			target.SetUint(uint64(v))
+		}
+	}
+	return
+}
+
+func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointer reflect.Value, mapHasPointers bool, immediate bool) (err error) {
 	if immediate {
 		// findValue is the only way of finding the key value when it's not present on the value struct,
 		// though is plausibly much less efficient when that is the case. It might be useful to optimize
 		// that common case by constructing a more robust (cached) model of a struct's attributes that
 		// allows lookup by ident and use that to lookup the field value by index here.
-		key := as.findValue(id, mapKey)
+		key := reflect.New(m.Type().Key()).Elem()
+		var keyValue Value = id
+		if mapKey != Ident(sys.DbId) {
+			keyValue = as.findValue(id, mapKey)
+		}
+		if !setScalar(key, keyValue) {
+			err = NewError("assembler.invalidMapKey", "id", id, "type", key.Type())
+			return
+		}
 		value := pointer
 		if !mapHasPointers {
 			value = pointer.Elem()
 		}
-		m.SetMapIndex(reflect.ValueOf(key), value)
+		m.SetMapIndex(key, value)
 		return
 	}
 	mae := mapAwaitingEntry{mapKey, m, pointer, mapHasPointers}
@@ -293,14 +339,17 @@ func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointe
 		maes = append(maes, mae)
 		as.mapsAwaitingEntries[id] = maes
 	}
+	return
 }
 
-func (as *assembler) addEntityToSlice(collValue Ident, slice reflect.Value, id ID, pointer reflect.Value, immediate bool) {
+func (as *assembler) addEntityToSlice(collValue Ident, slice reflect.Value, id ID, pointer reflect.Value, immediate bool) (err error) {
 	if immediate {
-		value := pointer.Elem()
-		index := as.findValue(id, Ident("sys/db/rank"))
-		i := int(index.(int64))
-		slice.Index(i).Set(value)
+		var entry reflect.Value
+		entry, err = as.findSliceEntry(slice, id)
+		if err != nil {
+			return
+		}
+		entry.Set(pointer.Elem())
 		return
 	}
 	sae := sliceAwaitingEntry{collValue, slice, pointer}
@@ -311,6 +360,7 @@ func (as *assembler) addEntityToSlice(collValue Ident, slice reflect.Value, id I
 		saes = append(saes, sae)
 		as.slicesAwaitingEntries[id] = saes
 	}
+	return
 }
 
 func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
-- 
2.43.0


From 50de36eee1fb98ea888f000df510c8562e67e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 20/36] fix: realize entities before copying their values

---
 internal/structs/assemblers/assemblers.go | 34 +++++++++++++++++++++--
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 62b7fc3..4fc11d1 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -91,6 +91,17 @@ func (as *assembler) assembleAll() (err error) {
 	return
 }
 
+// realize assembles the entity now if it has not been already. Values copied from the entity
+// will be complete hereafter unless the entity is itself being assembled.
+func (as *assembler) realize(id ID) (err error) {
+	ptr, ok := as.unprocessed[id]
+	if ok {
+		delete(as.unprocessed, id)
+		err = as.assemble(id, ptr)
+	}
+	return
+}
+
 func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 	value := ptr.Elem()
 
@@ -162,6 +173,13 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					if !ok {
 						pointer = as.allocate(v, reflect.PointerTo(mapValueType))
 					}
+					if !mapHasPointers {
+						err = as.realize(v)
+						if err != nil {
+							return
+						}
+						_, ok = as.instances[v]
+					}
 					err = as.addEntityToMap(attr.MapKey, m, v, pointer, mapHasPointers, ok)
 					if err != nil {
 						return
@@ -181,6 +199,11 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 						if !ok {
 							pointer = as.allocate(v, reflect.PointerTo(sliceValueType))
 						}
+						err = as.realize(v)
+						if err != nil {
+							return
+						}
+						_, ok = as.instances[v]
 						err = as.addEntityToSlice(attr.CollValue, slice, v, pointer, ok)
 						if err != nil {
 							return
@@ -200,13 +223,18 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					}
 				default:
 					pointer, ok := as.pointers[v]
-					if ok {
-						field.Set(pointer.Elem())
-					} else {
+					if !ok {
 						pointer = field.Addr()
 						as.pointers[v] = pointer
 						as.unprocessed[v] = pointer
 					}
+					err = as.realize(v)
+					if err != nil {
+						return
+					}
+					if ok {
+						field.Set(pointer.Elem())
+					}
 				}
 			default:
 				err = NewError("assembler.invalidFactValue")
-- 
2.43.0


From 9baf49af4335c08dcdd152f313307235716fc121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 21/36] fix: ignore dangling entries of collections

---
 internal/structs/assemblers/assemblers.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 4fc11d1..23d91d4 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -164,6 +164,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					} else {
 						m = field
 					}
+					// References may dangle, in which case there are no entries.
+					if !as.snapshot.Has(Claim{E: v}) {
+						continue
+					}
 					mapValueType := m.Type().Elem()
 					mapHasPointers := mapValueType.Kind() == reflect.Pointer
 					if mapHasPointers {
@@ -193,6 +197,9 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					} else {
 						slice = field
 					}
+					if !as.snapshot.Has(Claim{E: v}) {
+						continue
+					}
 					if attr.CollValue == "" {
 						sliceValueType := slice.Type().Elem()
 						pointer, ok := as.pointers[v]
-- 
2.43.0


From c5a4c4183ed69db64ba170637a013f24e248f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 22/36] fix: fail to assemble an entity as different types

---
 internal/structs/assemblers/assemblers.go | 25 +++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 23d91d4..d762eb9 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -135,6 +135,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 			case ID:
 				pointer, ok := as.pointers[v]
 				if ok {
+					err = checkType(v, pointer, field.Type().Elem())
+					if err != nil {
+						return
+					}
 					field.Set(pointer)
 				} else {
 					pointer := as.allocate(v, field.Type())
@@ -177,6 +181,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					if !ok {
 						pointer = as.allocate(v, reflect.PointerTo(mapValueType))
 					}
+					err = checkType(v, pointer, mapValueType)
+					if err != nil {
+						return
+					}
 					if !mapHasPointers {
 						err = as.realize(v)
 						if err != nil {
@@ -206,6 +214,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 						if !ok {
 							pointer = as.allocate(v, reflect.PointerTo(sliceValueType))
 						}
+						err = checkType(v, pointer, sliceValueType)
+						if err != nil {
+							return
+						}
 						err = as.realize(v)
 						if err != nil {
 							return
@@ -235,6 +247,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 						as.pointers[v] = pointer
 						as.unprocessed[v] = pointer
 					}
+					err = checkType(v, pointer, field.Type())
+					if err != nil {
+						return
+					}
 					err = as.realize(v)
 					if err != nil {
 						return
@@ -285,6 +301,14 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 	return
 }
 
+// checkType ensures the pointer to the entity's instance points to the given type.
+func checkType(id ID, pointer reflect.Value, typ reflect.Type) (err error) {
+	if pointer.Type().Elem() != typ {
+		err = NewError("assembler.typeConflictForID", "id", id, "extant", pointer.Type().Elem(), "type", typ)
+	}
+	return
+}
+
 // findValue finds the first value of the entity's attribute, or nil if there is none.
 func (as *assembler) findValue(e ID, a Ident) (v Value) {
 	// TODO snapshot should support SelectOne?
@@ -425,6 +449,7 @@ func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
 	it, ok := extant.(T)
 	if !ok {
 		err = NewError("assembler.typeConflictForID", "id", id, "extant", extant, "type", structType)
+		return
 	}
 	entity = &it
 	return
-- 
2.43.0


From 66f5fdb62b335b7785ce1479f8429baeab8599c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 23/36] fix: return the entity to which cyclic references refer

---
 internal/structs/assemblers/assemblers.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index d762eb9..76329a8 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -445,12 +445,9 @@ func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
 	if instance == reflect.ValueOf(nil) {
 		return
 	}
-	extant := instance.Elem().Interface()
-	it, ok := extant.(T)
+	entity, ok = instance.Interface().(*T)
 	if !ok {
-		err = NewError("assembler.typeConflictForID", "id", id, "extant", extant, "type", structType)
-		return
+		err = NewError("assembler.typeConflictForID", "id", id, "extant", instance.Elem().Interface(), "type", structType)
 	}
-	entity = &it
 	return
 }
-- 
2.43.0


From 078f17b85599536610c111681bd1038359752eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 24/36] fix: reject nil assertions and retractions

---
 internal/structs/models/models.go     | 2 +-
 internal/structs/shredder/shredder.go | 8 ++++++++
 pkg/database/impl.go                  | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index 38ce83b..17d4655 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -102,7 +102,7 @@ func (attr AttrFieldModel) IsPointer() bool {
 
 // Analyze builds a struct model for the given struct type.
 func Analyze(typ reflect.Type) (model StructModel, err error) {
-	if typ.Kind() != reflect.Struct {
+	if typ == nil || typ.Kind() != reflect.Struct {
 		err = NewError("models.notStruct", "type", typ)
 		return
 	}
diff --git a/internal/structs/shredder/shredder.go b/internal/structs/shredder/shredder.go
index 6edbcc7..2e91b2a 100644
--- a/internal/structs/shredder/shredder.go
+++ b/internal/structs/shredder/shredder.go
@@ -104,6 +104,10 @@ func (s *shredder) Shred(doc Document) (req Request, ids []ERef, err error) {
 
 func (s *shredder) assert(confetti *confetti, x any) (e TempID, claims []Claim, err error) {
 	typ := reflect.TypeOf(x)
+	if typ == nil {
+		err = NewError("shredder.nilStruct")
+		return
+	}
 	var fields reflect.Value
 	var id ID
 	switch typ.Kind() {
@@ -226,6 +230,10 @@ func (s *shredder) retract(confetti *confetti, x any) (retraction *Retraction, e
 	constraints := map[IDRef]Void{}
 	var fields reflect.Value
 	typ := reflect.TypeOf(x)
+	if typ == nil {
+		err = NewError("shredder.nilStruct")
+		return
+	}
 	var e ID
 	switch typ.Kind() {
 	case reflect.Struct:
diff --git a/pkg/database/impl.go b/pkg/database/impl.go
index 434916b..a9d07f1 100644
--- a/pkg/database/impl.go
+++ b/pkg/database/impl.go
@@ -58,7 +58,7 @@ func (db *localDatabase) Read() *Snapshot {
 func (db *localDatabase) Write(req Request) (res Response) {
 	for _, assertion := range req.Assertions {
 		typ := reflect.TypeOf(assertion)
-		if typ.Kind() == reflect.Pointer {
+		if typ != nil && typ.Kind() == reflect.Pointer {
 			typ = typ.Elem()
 		}
 		// TODO we should keep a registry of types whose attrs
-- 
2.43.0


From 2864fb8f152b224e8ded8ed2244c6fa66d773862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 25/36] fix: respond with the snapshot which rejected the
 request

---
 pkg/database/impl.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/database/impl.go b/pkg/database/impl.go
index a9d07f1..55df193 100644
--- a/pkg/database/impl.go
+++ b/pkg/database/impl.go
@@ -66,6 +66,7 @@ func (db *localDatabase) Write(req Request) (res Response) {
 		claims, err := schemas.Analyze(typ)
 		if err != nil {
 			res.Error = err
+			res.Snap = db.Read()
 			return
 		}
 		// TODO holy non-atomicity, batman. Probably we should accumulate
@@ -76,6 +77,7 @@ func (db *localDatabase) Write(req Request) (res Response) {
 		ires := db.db.Write(types.Request{Claims: claims})
 		if ires.Error != nil {
 			res.Error = ires.Error
+			res.Snap = &Snapshot{snap: ires.Snapshot, analyzer: db.analyzer}
 			return
 		}
 	}
@@ -85,17 +87,18 @@ func (db *localDatabase) Write(req Request) (res Response) {
 	})
 	if err != nil {
 		res.Error = err
+		res.Snap = db.Read()
 		return
 	}
 	ires := db.db.Write(ireq)
-	if ires.Error != nil {
-		res.Error = ires.Error
-		return
-	}
 	res.Snap = &Snapshot{
 		snap:     ires.Snapshot,
 		analyzer: db.analyzer,
 	}
+	if ires.Error != nil {
+		res.Error = ires.Error
+		return
+	}
 	n := len(req.Assertions)
 	res.IDs = make([]uint64, 0, n)
 	for i := range n {
-- 
2.43.0


From 531cf40fbf2e6b3f7552c5fafb762faa6459455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 26/36] fix: reject conflicting declarations of an attribute in
 one request

---
 internal/database/database.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index d90ae8c..11216a5 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -216,6 +216,10 @@ CLAIMS:
 				}
 			} else {
 				attr = attrChanges[datum.E]
+				if attr.Type != 0 && attr.Type != typ {
+					res.Error = NewError("database.write.attrTypeChangeDisallowed", "datum", datum)
+					break CLAIMS
+				}
 				attr.ID = datum.E
 				attr.Type = typ
 				attrChanges[datum.E] = attr
@@ -234,6 +238,10 @@ CLAIMS:
 				}
 			} else {
 				attr = attrChanges[datum.E]
+				if attr.Cardinality != 0 && attr.Cardinality != card {
+					res.Error = NewError("database.write.attrCardinalityChangeDisallowed", "datum", datum)
+					break CLAIMS
+				}
 				attr.ID = datum.E
 				attr.Cardinality = card
 				attrChanges[datum.E] = attr
@@ -252,6 +260,10 @@ CLAIMS:
 				}
 			} else {
 				attr = attrChanges[datum.E]
+				if attr.Unique != 0 && attr.Unique != unique {
+					res.Error = NewError("database.write.attrUniqueChangeDisallowed", "datum", datum)
+					break CLAIMS
+				}
 				attr.ID = datum.E
 				attr.Unique = unique
 				attrChanges[datum.E] = attr
-- 
2.43.0


From 52021c31a18b4fe24165d36ffe7b0d1c8839a5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 27/36] fix: resolve the idents of the uniqueness entities

---
 internal/sys/sys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/sys/sys.go b/internal/sys/sys.go
index 3379624..bf4bb45 100644
--- a/internal/sys/sys.go
+++ b/internal/sys/sys.go
@@ -78,6 +78,8 @@ var Attrs map[ID]Attr = map[ID]Attr{
 var Idents map[Ident]ID = map[Ident]ID{
 	Ident("sys/db/ident"):                DbIdent,
 	Ident("sys/attr/unique"):             AttrUnique,
+	Ident("sys/attr/unique/identity"):    AttrUniqueIdentity,
+	Ident("sys/attr/unique/value"):       AttrUniqueValue,
 	Ident("sys/tx/at"):                   TxAt,
 	Ident("sys/attr/type"):               AttrType,
 	Ident("sys/attr/type/ref"):           AttrTypeRef,
-- 
2.43.0


From 14b2b5ba092d4f69caaf36f268d6bbfe7c7c9fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:41 +0000
Subject: [PATCH 28/36] fix: resolve lookup refs whose attributes are
 themselves lookup refs

---
 internal/database/database.go | 2 ++
 internal/database/snapshot.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index 11216a5..8695be4 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -560,6 +560,8 @@ func (db *indexDatabase) resolveLookupRef(ref LookupRef) (id ID) {
 		datum.A = a
 	case Ident:
 		datum.A = db.idents[a]
+	case LookupRef:
+		datum.A = db.resolveLookupRef(a)
 	default:
 		return
 	}
diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index 5d48fd9..4d85ffd 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -167,6 +167,8 @@ func (snapshot *indexSnapshot) resolveLookupRef(ref LookupRef) (id ID) {
 		datum.A = a
 	case Ident:
 		datum.A = snapshot.idents[a]
+	case LookupRef:
+		datum.A = snapshot.resolveLookupRef(a)
 	default:
 		return
 	}
-- 
2.43.0


From 9cad8aefa81965dd19e82fc3f5749190b79994be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 29/36] fix: fail to assemble unexported fields

Setting them panics.
---
 internal/structs/assemblers/assemblers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 76329a8..9c71d20 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -123,6 +123,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 			continue
 		}
 		field := value.Field(attr.Index)
+		if !field.CanSet() {
+			err = NewError("assembler.unexportedField", "datum", datum, "type", value.Type())
+			return
+		}
 		if attr.IsPointer() {
 			switch v := datum.V.(type) {
 			case String, Int, Bool, Float, Inst:
@@ -272,7 +276,7 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 	attr, ok := model.Attr(Ident(sys.DbId))
 	if ok {
 		field := value.Field(attr.Index)
-		if !setScalar(field, id) {
+		if !field.CanSet() || !setScalar(field, id) {
 			err = NewError("assembler.invalidIdFieldType", "type", field.Type())
 			return
 		}
-- 
2.43.0


From 7c8959222f971060cabc9f4776b7dc5cb86bd20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 30/36] fix: fail to shred unexported fields whose values are
 inaccessible

Interfacing with them panics.
---
 internal/structs/shredder/field.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/structs/shredder/field.go b/internal/structs/shredder/field.go
index aa3d286..577575b 100644
--- a/internal/structs/shredder/field.go
+++ b/internal/structs/shredder/field.go
@@ -40,6 +40,20 @@ func elementValue(v reflect.Value) any {
 }
 
 func getFieldValue(pointers map[reflect.Value]TempID, fieldType reflect.Type, fieldValue reflect.Value) (val any, err error) {
+	if !fieldValue.CanInterface() {
+		// Only the basic values of unexported fields are accessible.
+		typ := fieldType
+		switch typ.Kind() {
+		case reflect.Map, reflect.Slice, reflect.Pointer:
+			typ = typ.Elem()
+		}
+		switch typ.Kind() {
+		case reflect.Bool, reflect.Int, reflect.String, reflect.Float64:
+		default:
+			err = NewError("shredder.unexportedField", "type", fieldType)
+			return
+		}
+	}
 	switch fieldType.Kind() {
 	case reflect.Bool, reflect.Int, reflect.String, reflect.Float64:
 		val, _ = scalarValue(fieldValue)
-- 
2.43.0


From 8fe856b4f6d3bf95404ee0fcbfe5441f67c24a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 31/36] fix: fail to shred map entries without values

The references to them dangle, so they were lost silently.
---
 internal/structs/shredder/shredder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/structs/shredder/shredder.go b/internal/structs/shredder/shredder.go
index 2e91b2a..f212d7a 100644
--- a/internal/structs/shredder/shredder.go
+++ b/internal/structs/shredder/shredder.go
@@ -194,12 +194,18 @@ func (s *shredder) assert(confetti *confetti, x any) (e TempID, claims []Claim,
 					)
 					claims = append(claims, Claim{E: e, A: attr.Ident, V: ve})
 				} else {
+					_, shredded := confetti.pointers[reflect.ValueOf(vv)]
 					vref, refFieldClaims, err = s.assert(confetti, vv)
 					if err != nil {
 						return
 					}
 					switch {
 					case attr.MapKey != "":
+						// An entry must have a value unless its entity is otherwise known.
+						if !shredded && len(refFieldClaims) == 0 && confetti.tempIDs[vref.(TempID)] == 0 {
+							err = NewError("shredder.missingMapCollectionValue")
+							return
+						}
 						refFieldsClaims = append(refFieldsClaims, refFieldClaims...)
 					case len(refFieldClaims) > 0:
 						refFieldsClaims = append(refFieldsClaims, Claim{E: refFieldClaims[0].E, A: Ident("sys/db/rank"), V: Int(i)})
-- 
2.43.0


From 9b3567b9966fdca5be27f6df4c0c56293c547b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:24 +0000
Subject: [PATCH 32/36] fix: reject schemas of slices of values of unsupported
 types

---
 internal/structs/schemas/schemas.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/structs/schemas/schemas.go b/internal/structs/schemas/schemas.go
index d467f20..d66dd5f 100644
--- a/internal/structs/schemas/schemas.go
+++ b/internal/structs/schemas/schemas.go
@@ -58,6 +58,10 @@ func Analyze(typ reflect.Type) (claims []Claim, err error) {
 							ee := TempID(strconv.FormatUint(uint64(nextID), 10))
 							nextID++
 							collAttrType := models.AttrTypeForScalarKind(fieldType.Elem())
+							if collAttrType == 0 {
+								err = NewError("schemas.invalidSliceValueType", "type", fieldType)
+								return
+							}
 							typeClaims = append(typeClaims,
 								Claim{E: ee, A: sys.DbIdent, V: String(field.CollValue)},
 								Claim{E: ee, A: sys.AttrType, V: collAttrType},
-- 
2.43.0


From 00f855524217512daaa8eb7320398864b14b68da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:13 +0000
Subject: [PATCH 33/36] fix: reject references where instants are assembled

---
 internal/structs/assemblers/assemblers.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 9c71d20..e8ab6dd 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -137,6 +137,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 				}
 				field.Set(pointer)
 			case ID:
+				if attr.Type != sys.AttrTypeRef {
+					err = NewError("assembler.invalidFactPointerValue", "datum", datum, "type", field.Type())
+					return
+				}
 				pointer, ok := as.pointers[v]
 				if ok {
 					err = checkType(v, pointer, field.Type().Elem())
@@ -244,6 +248,9 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 							return
 						}
 					}
+				case attr.Type != sys.AttrTypeRef:
+					err = NewError("assembler.invalidFactValue", "datum", datum, "type", field.Type())
+					return
 				default:
 					pointer, ok := as.pointers[v]
 					if !ok {
-- 
2.43.0


From fe41d8b81f4167b2e3766106e268c86fa8498384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:04 +0000
Subject: [PATCH 34/36] fix: forget entities of failed assemblies, which may be
 incomplete

---
 internal/structs/assemblers/assemblers.go | 27 +++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index e8ab6dd..a7cd38c 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -34,6 +34,8 @@ type assembler struct {
 	instances map[ID]reflect.Value
 	// pointers are pointers to all of the at least partially realized entities allocated by the assembler
 	pointers map[ID]reflect.Value
+	// allocated are the ids of the entities allocated by the current assembly
+	allocated []ID
 	// unprocessed are (not nil) pointers to unrealized entities
 	unprocessed map[ID]reflect.Value
 	// mapsAwaitingEntries are maps in entity struct fields awaiting referent entities to be realized
@@ -63,10 +65,26 @@ func (as *assembler) allocate(id ID, pointerType reflect.Type) (ptr reflect.Valu
 	entity := reflect.New(ptr.Type().Elem())
 	// store the new struct in the new pointer
 	ptr.Set(entity)
-	// store the pointer in the unrealized entities map
+	as.register(id, ptr)
+	return
+}
+
+// register stores the pointer to the entity's instance in the unrealized entities map.
+func (as *assembler) register(id ID, ptr reflect.Value) {
 	as.unprocessed[id] = ptr
 	as.pointers[id] = ptr
-	return
+	as.allocated = append(as.allocated, id)
+}
+
+// abandon forgets the entities allocated by the current assembly, as they may not be completely realized.
+func (as *assembler) abandon() {
+	for _, id := range as.allocated {
+		delete(as.instances, id)
+		delete(as.pointers, id)
+	}
+	as.unprocessed = map[ID]reflect.Value{}
+	as.mapsAwaitingEntries = map[ID][]mapAwaitingEntry{}
+	as.slicesAwaitingEntries = map[ID][]sliceAwaitingEntry{}
 }
 
 func (as *assembler) assembleAll() (err error) {
@@ -255,8 +273,7 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					pointer, ok := as.pointers[v]
 					if !ok {
 						pointer = field.Addr()
-						as.pointers[v] = pointer
-						as.unprocessed[v] = pointer
+						as.register(v, pointer)
 					}
 					err = checkType(v, pointer, field.Type())
 					if err != nil {
@@ -442,9 +459,11 @@ func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
 	}
 	instance, ok := as.instances[id]
 	if !ok {
+		as.allocated = nil
 		as.allocate(id, reflect.TypeFor[*T]())
 		err = as.assembleAll()
 		if err != nil {
+			as.abandon()
 			return
 		}
 		instance, ok = as.instances[id]
-- 
2.43.0


From c46c1b085ca872a524ecfab887ee9a318cd54b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 35/36] fix: complete values copied from entities still being
 assembled

---
 internal/structs/assemblers/assemblers.go | 42 ++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index a7cd38c..170c604 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -23,6 +23,13 @@ type sliceAwaitingEntry struct {
 	pointer   reflect.Value
 }
 
+type fieldAwaitingValue struct {
+	// id is that of the entity whose instance has the field
+	id      ID
+	field   reflect.Value
+	pointer reflect.Value
+}
+
 // TODO an assembler can only have a single instance type per id, which is not a constraint imposed
 // by the database. Should we reify this more formally?
 type assembler struct {
@@ -42,6 +49,10 @@ type assembler struct {
 	mapsAwaitingEntries map[ID][]mapAwaitingEntry
 	// slicesAwaitingEntries are slices in entity struct fields awaiting referent entities to be realized
 	slicesAwaitingEntries map[ID][]sliceAwaitingEntry
+	// fieldsAwaitingValues are fields in entity structs awaiting referent entities to be realized
+	fieldsAwaitingValues map[ID][]fieldAwaitingValue
+	// awaiting are the numbers of fields without which assembled entities are not yet realized
+	awaiting map[ID]int
 }
 
 func NewAssembler(analyzer models.Analyzer, snapshot Snapshot) (as *assembler) {
@@ -53,6 +64,8 @@ func NewAssembler(analyzer models.Analyzer, snapshot Snapshot) (as *assembler) {
 		unprocessed:           map[ID]reflect.Value{},
 		mapsAwaitingEntries:   map[ID][]mapAwaitingEntry{},
 		slicesAwaitingEntries: map[ID][]sliceAwaitingEntry{},
+		fieldsAwaitingValues:  map[ID][]fieldAwaitingValue{},
+		awaiting:              map[ID]int{},
 	}
 	return
 }
@@ -85,6 +98,8 @@ func (as *assembler) abandon() {
 	as.unprocessed = map[ID]reflect.Value{}
 	as.mapsAwaitingEntries = map[ID][]mapAwaitingEntry{}
 	as.slicesAwaitingEntries = map[ID][]sliceAwaitingEntry{}
+	as.fieldsAwaitingValues = map[ID][]fieldAwaitingValue{}
+	as.awaiting = map[ID]int{}
 }
 
 func (as *assembler) assembleAll() (err error) {
@@ -283,7 +298,11 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					if err != nil {
 						return
 					}
-					if ok {
+					_, realized := as.instances[v]
+					if !realized {
+						as.fieldsAwaitingValues[v] = append(as.fieldsAwaitingValues[v], fieldAwaitingValue{id, field, pointer})
+						as.awaiting[id]++
+					} else if ok {
 						field.Set(pointer.Elem())
 					}
 				}
@@ -305,6 +324,14 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 			return
 		}
 	}
+	if as.awaiting[id] == 0 {
+		err = as.finish(id, ptr)
+	}
+	return
+}
+
+// finish registers the entity as realized, and completes the values which await it.
+func (as *assembler) finish(id ID, ptr reflect.Value) (err error) {
 	maes, ok := as.mapsAwaitingEntries[id]
 	if ok {
 		for _, mae := range maes {
@@ -326,6 +353,19 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 		delete(as.slicesAwaitingEntries, id)
 	}
 	as.instances[id] = ptr
+	favs := as.fieldsAwaitingValues[id]
+	delete(as.fieldsAwaitingValues, id)
+	for _, fav := range favs {
+		fav.field.Set(fav.pointer.Elem())
+		as.awaiting[fav.id]--
+		if as.awaiting[fav.id] == 0 {
+			delete(as.awaiting, fav.id)
+			err = as.finish(fav.id, as.pointers[fav.id])
+			if err != nil {
+				return
+			}
+		}
+	}
 	return
 }
 
-- 
2.43.0


From 8be646e53c53558a4034e1a2c3e924d92a4a82c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:28 +0000
Subject: [PATCH 36/36] fix: find no entity for the zero id

---
 internal/structs/assemblers/assemblers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 170c604..35669d4 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -497,6 +497,10 @@ func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
 		err = modelErr
 		return
 	}
+	if id == 0 {
+		// No entity has the zero id, while claims of one match every entity.
+		return
+	}
 	instance, ok := as.instances[id]
 	if !ok {
 		as.allocated = nil
-- 
2.43.0

