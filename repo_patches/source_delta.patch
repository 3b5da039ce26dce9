From b1b240eea5f14001b61611889387e4b5f34f2a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:19 +0000
Subject: [PATCH 01/39] fix: do not cache the results of failed requests

---
 pkg/cache/cache.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index a0cdfd3..4b16823 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -49,6 +49,9 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 	}
 	lock.RUnlock()
 	byteArr, err := renderables.MarshalExpressable(name, contextref, h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -57,7 +60,7 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 		defer lock.Unlock()
 		appCache.Set(cachekey, byteArr, gocache.DefaultExpiration)
 	}()
-	return byteArr, err
+	return byteArr, nil
 }
 
 func MarshalRenderable(id string, hash string) ([]byte, error) {
@@ -91,6 +94,9 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 		}
 	}
 	byteArr, err := renderables.MarshalRenderable(hash, h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -99,7 +105,7 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 		defer lock.Unlock()
 		appCache.Set(id+"/"+hash, byteArr, gocache.DefaultExpiration)
 	}()
-	return byteArr, err
+	return byteArr, nil
 }
 
 func MarshalCatalog(id string) ([]byte, error) {
@@ -117,6 +123,9 @@ func MarshalCatalog(id string) ([]byte, error) {
 	}
 	lock.RUnlock()
 	byteArr, err := renderables.MarshalCatalog(h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -125,7 +134,7 @@ func MarshalCatalog(id string) ([]byte, error) {
 		defer lock.Unlock()
 		appCache.Set(id+"/", byteArr, gocache.DefaultExpiration)
 	}()
-	return byteArr, err
+	return byteArr, nil
 }
 
 func hydratable(id string) (*hydratables.Hydratable, error) {
@@ -143,6 +152,9 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 		return nil, fmt.Errorf("failed to discover folder, %v", err)
 	}
 	ret, err := hydratables.Hydrate(folder)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -151,5 +163,5 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 		defer lock.Unlock()
 		appCache.Set(id, ret, gocache.DefaultExpiration)
 	}()
-	return ret, err
+	return ret, nil
 }
-- 
2.43.0


From 8f92ffb50f233175c421fc2b13a2638bf7923299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:43 +0000
Subject: [PATCH 02/39] fix: keep cache entries of different requests apart

---
 pkg/cache/cache.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index 4b16823..66d10cf 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -1,9 +1,7 @@
 package cache
 
 import (
-	"encoding/hex"
 	"fmt"
-	"hash/fnv"
 	"path/filepath"
 	"sync"
 
@@ -36,9 +34,7 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 	if err != nil {
 		return nil, err
 	}
-	hash := fnv.New128a()
-	hash.Write([]byte(id + "/facts/" + name + ":" + contextref))
-	cachekey := hex.EncodeToString(hash.Sum([]byte{}))
+	cachekey := cacheKey("expressable", id, name, contextref)
 	lock.RLock()
 	if !dry {
 		if x, found := appCache.Get(cachekey); found {
@@ -64,9 +60,10 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 }
 
 func MarshalRenderable(id string, hash string) ([]byte, error) {
+	cachekey := cacheKey("renderable", id, hash)
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id + "/" + hash); found {
+		if x, found := appCache.Get(cachekey); found {
 			ret := x.([]byte)
 			lock.RUnlock()
 			return ret, nil
@@ -88,7 +85,7 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 			go func() {
 				lock.Lock()
 				defer lock.Unlock()
-				appCache.Set(id+"/"+hash, data, gocache.DefaultExpiration)
+				appCache.Set(cachekey, data, gocache.DefaultExpiration)
 			}()
 			return data, nil
 		}
@@ -103,19 +100,20 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id+"/"+hash, byteArr, gocache.DefaultExpiration)
+		appCache.Set(cachekey, byteArr, gocache.DefaultExpiration)
 	}()
 	return byteArr, nil
 }
 
 func MarshalCatalog(id string) ([]byte, error) {
+	cachekey := cacheKey("catalog", id)
 	h, err := hydratable(id)
 	if err != nil {
 		return nil, err
 	}
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id + "/"); found {
+		if x, found := appCache.Get(cachekey); found {
 			ret := x.([]byte)
 			lock.RUnlock()
 			return ret, nil
@@ -132,15 +130,22 @@ func MarshalCatalog(id string) ([]byte, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id+"/", byteArr, gocache.DefaultExpiration)
+		appCache.Set(cachekey, byteArr, gocache.DefaultExpiration)
 	}()
 	return byteArr, nil
 }
 
+// cacheKey keeps the entries of different kinds of requests apart, and apart
+// from the URLs under which hydratables caches global files.
+func cacheKey(kind string, parts ...string) string {
+	return fmt.Sprintf("%s%q", kind, parts)
+}
+
 func hydratable(id string) (*hydratables.Hydratable, error) {
+	cachekey := cacheKey("hydratable", id)
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id); found {
+		if x, found := appCache.Get(cachekey); found {
 			ret := x.(*hydratables.Hydratable)
 			lock.RUnlock()
 			return ret, nil
@@ -161,7 +166,7 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id, ret, gocache.DefaultExpiration)
+		appCache.Set(cachekey, ret, gocache.DefaultExpiration)
 	}()
 	return ret, nil
 }
-- 
2.43.0


From ab1e10fd6ae86c61357a6fea362cdba6bc5e2b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:29 +0000
Subject: [PATCH 03/39] fix: merge parallel grid results after they finish and
 report their errors

The three grids appended to the same slices concurrently, and a missing
name registry made every grid request fail.
---
 pkg/renderables/renderable.go | 53 +++++++++++------------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/pkg/renderables/renderable.go b/pkg/renderables/renderable.go
index 67fcd8e..c139565 100644
--- a/pkg/renderables/renderable.go
+++ b/pkg/renderables/renderable.go
@@ -42,51 +42,35 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 			llinkrole := rset.RoleURI
 			if slug == hash(eentity, llinkrole, rset.Title) {
 				var (
-					p          PGrid
-					d          DGrid
-					c          CGrid
-					labelRoles []LabelRole
-					langs      []Lang
-					err        error
-					wg         sync.WaitGroup
+					p                      PGrid
+					d                      DGrid
+					c                      CGrid
+					pRoles, dRoles, cRoles []LabelRole
+					pLangs, dLangs, cLangs []Lang
+					pError, dError, cError error
+					wg                     sync.WaitGroup
 				)
 				wg.Add(3)
-				labelRoles = make([]LabelRole, 0, 20)
-				langs = make([]Lang, 0, 8)
 				go func(entity string, linkrole string) {
 					defer wg.Done()
-					localP, lr, ln, localError := pGrid(entity, linkrole, h, h, h, h)
-					if localError != nil {
-						err = localError
-						return
-					}
-					p = localP
-					labelRoles = append(labelRoles, lr...)
-					langs = append(langs, ln...)
+					p, pRoles, pLangs, pError = pGrid(entity, linkrole, h, h, h, h)
 				}(eentity, llinkrole)
 				go func(entity string, linkrole string) {
 					defer wg.Done()
-					localD, lr, ln, localError := dGrid(entity, linkrole, h, h, h, h)
-					if localError != nil {
-						err = localError
-						return
-					}
-					d = localD
-					labelRoles = append(labelRoles, lr...)
-					langs = append(langs, ln...)
+					d, dRoles, dLangs, dError = dGrid(entity, linkrole, h, h, h, h)
 				}(eentity, llinkrole)
 				go func(entity string, linkrole string) {
 					defer wg.Done()
-					localC, lr, ln, localError := cGrid(entity, linkrole, h, h, h, h)
-					if localError != nil {
-						err = localError
-						return
-					}
-					c = localC
-					labelRoles = append(labelRoles, lr...)
-					langs = append(langs, ln...)
+					c, cRoles, cLangs, cError = cGrid(entity, linkrole, h, h, h, h)
 				}(eentity, llinkrole)
 				wg.Wait()
+				for _, err := range []error{pError, dError, cError} {
+					if err != nil {
+						return nil, err
+					}
+				}
+				labelRoles := append(append(append(make([]LabelRole, 0, 20), pRoles...), dRoles...), cRoles...)
+				langs := append(append(append(make([]Lang, 0, 8), pLangs...), dLangs...), cLangs...)
 				langs = dedupLang(langs)
 				labelRoles = dedupLabelRole(labelRoles)
 				p, d, c = formatPeriod(p, d, c, langs)
@@ -117,9 +101,6 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 					Lang:       langs,
 					LabelRoles: labelRoles,
 				}
-				if err != nil {
-					return nil, err
-				}
 				return json.Marshal(ret)
 			}
 		}
-- 
2.43.0


From b0b28dd324e2f27ee43f91c85ccaa281078b3098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:37 +0000
Subject: [PATCH 04/39] fix: number footnotes in a fixed order

The numbers in the cells and the list of footnotes came from separate
iterations over the same map, so they disagreed at random.
---
 pkg/renderables/factualQuadrant.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/pkg/renderables/factualQuadrant.go b/pkg/renderables/factualQuadrant.go
index b6b1922..ecde715 100644
--- a/pkg/renderables/factualQuadrant.go
+++ b/pkg/renderables/factualQuadrant.go
@@ -1,6 +1,8 @@
 package renderables
 
 import (
+	"sort"
+
 	"ecksbee.com/telefacts/pkg/hydratables"
 )
 
@@ -25,7 +27,8 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 	}
 	ret := make([][]*MultilingualFact, rowCount)
 	footnoteGrid := make([][][]*hydratables.Footnote, rowCount)
-	idMap := make(map[string]*hydratables.Footnote)
+	idMap := make(map[string]int)
+	arr := make([]string, 0)
 	for i := 0; i < rowCount; i++ {
 		row := make([]*MultilingualFact, colCount)
 		footnoteRow := make([][]*hydratables.Footnote, colCount)
@@ -38,7 +41,8 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			footnotes = factFinder.GetFootnotes(fact)
 			for _, footnote := range footnotes {
 				if _, found := idMap[footnote.ID]; !found {
-					idMap[footnote.ID] = footnote
+					arr = append(arr, footnote.InnerHtml)
+					idMap[footnote.ID] = len(arr)
 				}
 			}
 			row[j] = render(fact, conceptFinder, measurementFinder, langs)
@@ -48,27 +52,17 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 		footnoteGrid[i] = footnoteRow
 	}
 	grid := make([][][]int, rowCount)
-	arr := make([]string, 0)
 	for i := 0; i < rowCount; i++ {
 		grid[i] = make([][]int, colCount)
 		for j := 0; j < colCount; j++ {
 			footnotes := footnoteGrid[i][j]
-			k := 1
-			ints := make([]int, 0)
-			for id := range idMap {
-				for _, footnote := range footnotes {
-					if footnote.ID == id {
-						ints = append(ints, k)
-						break
-					}
-				}
-				k++
+			ints := make([]int, 0, len(footnotes))
+			for _, footnote := range footnotes {
+				ints = append(ints, idMap[footnote.ID])
 			}
+			sort.Ints(ints)
 			grid[i][j] = ints
 		}
 	}
-	for _, footnote := range idMap {
-		arr = append(arr, footnote.InnerHtml)
-	}
 	return ret, grid, arr
 }
-- 
2.43.0


From 86f7bf9fbf7e6de111f3ae1dd3b1dbb61bb9da10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:20 +0000
Subject: [PATCH 05/39] fix: give each parallel query of an inline document its
 own error variable

---
 pkg/serializables/document.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pkg/serializables/document.go b/pkg/serializables/document.go
index e535dfb..46f9049 100644
--- a/pkg/serializables/document.go
+++ b/pkg/serializables/document.go
@@ -33,11 +33,11 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 		return nil
 	}
 	var html *xmlquery.Node
-	var goErr error
 	htmlDone := make(chan bool)
 	go func() {
 		defer func() { htmlDone <- true }()
-		html, goErr = xmlquery.Query(doc, "//*[local-name()='html']")
+		nodes, goErr := xmlquery.Query(doc, "//*[local-name()='html']")
+		html = nodes
 		if html == nil {
 			fmt.Println("Error: missing html")
 		}
@@ -50,7 +50,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	schemaRefsDone := make(chan bool)
 	go func() {
 		defer func() { schemaRefsDone <- true }()
-		schemaRefs, goErr = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='schemaRef' and namespace-uri()='"+attr.LINK+"']")
+		nodes, goErr := xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='schemaRef' and namespace-uri()='"+attr.LINK+"']")
+		schemaRefs = nodes
 		if goErr != nil {
 			schemaRefs = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -60,7 +61,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	contextsDone := make(chan bool)
 	go func() {
 		defer func() { contextsDone <- true }()
-		contexts, err = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='context' and namespace-uri()='"+attr.XBRLI+"']")
+		nodes, goErr := xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='context' and namespace-uri()='"+attr.XBRLI+"']")
+		contexts = nodes
 		if goErr != nil {
 			contexts = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -70,7 +72,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	unitsDone := make(chan bool)
 	go func() {
 		defer func() { unitsDone <- true }()
-		units, err = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='unit' and namespace-uri()='"+attr.XBRLI+"']")
+		nodes, goErr := xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='unit' and namespace-uri()='"+attr.XBRLI+"']")
+		units = nodes
 		if goErr != nil {
 			units = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -80,7 +83,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	nonFractionsDone := make(chan bool)
 	go func() {
 		defer func() { nonFractionsDone <- true }()
-		nonFractions, err = xmlquery.QueryAll(doc, "//*[local-name()='nonFraction' and namespace-uri()='"+attr.IX+"']")
+		nodes, goErr := xmlquery.QueryAll(doc, "//*[local-name()='nonFraction' and namespace-uri()='"+attr.IX+"']")
+		nonFractions = nodes
 		if goErr != nil {
 			nonFractions = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -90,7 +94,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	nonNumericsDone := make(chan bool)
 	go func() {
 		defer func() { nonNumericsDone <- true }()
-		nonNumerics, err = xmlquery.QueryAll(doc, "//*[local-name()='nonNumeric' and namespace-uri()='"+attr.IX+"']")
+		nodes, goErr := xmlquery.QueryAll(doc, "//*[local-name()='nonNumeric' and namespace-uri()='"+attr.IX+"']")
+		nonNumerics = nodes
 		if goErr != nil {
 			nonNumerics = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -100,7 +105,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	excludesDone := make(chan bool)
 	go func() {
 		defer func() { excludesDone <- true }()
-		excludes, err = xmlquery.QueryAll(doc, "//*[local-name()='exclude' and namespace-uri()='"+attr.IX+"']")
+		nodes, goErr := xmlquery.QueryAll(doc, "//*[local-name()='exclude' and namespace-uri()='"+attr.IX+"']")
+		excludes = nodes
 		if goErr != nil {
 			excludes = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -110,7 +116,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	footnoteRelationshipsDone := make(chan bool)
 	go func() {
 		defer func() { footnoteRelationshipsDone <- true }()
-		footnoteRelationships, err = xmlquery.QueryAll(doc, "//*[local-name()='relationship' and namespace-uri()='"+attr.IX+"' and @arcrole='"+attr.FactFootnoteArcrole+"']")
+		nodes, goErr := xmlquery.QueryAll(doc, "//*[local-name()='relationship' and namespace-uri()='"+attr.IX+"' and @arcrole='"+attr.FactFootnoteArcrole+"']")
+		footnoteRelationships = nodes
 		if goErr != nil {
 			footnoteRelationships = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
-- 
2.43.0


From 006fc2f786e8cd1c6c2f970dec7dcd908039a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:27 +0000
Subject: [PATCH 06/39] fix: skip inline facts without a usable name or context

A missing attribute or an unprefixed name ended the process, and the
error variable was written by several goroutines at once.
---
 pkg/attr/name.go            |  2 +-
 pkg/hydratables/document.go | 22 ++++++----------------
 2 files changed, 7 insertions(+), 17 deletions(-)

diff --git a/pkg/attr/name.go b/pkg/attr/name.go
index e6c56b2..0f891b5 100644
--- a/pkg/attr/name.go
+++ b/pkg/attr/name.go
@@ -46,7 +46,7 @@ func (np *NameProvider) ProvideXmlName(prefixed string) (*xml.Name, error) {
 	if i < 0 {
 		return &xml.Name{
 			Space: "",
-			Local: prefixed[i:],
+			Local: prefixed,
 		}, nil
 	}
 	prefix := prefix(prefixed[:i])
diff --git a/pkg/hydratables/document.go b/pkg/hydratables/document.go
index a54e030..44a12ad 100644
--- a/pkg/hydratables/document.go
+++ b/pkg/hydratables/document.go
@@ -26,20 +26,18 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 	nret := make(map[string]xml.Name)
 	cret := make(map[string]bool)
 	var lock1 sync.Mutex
-	var goErr error
 	var wg1 sync.WaitGroup
 	wg1.Add(len(source.NonNumerics))
 	for _, nnonNumeric := range source.NonNumerics {
 		go func(nonNumeric *xmlquery.Node) {
 			defer wg1.Done()
-			if goErr != nil {
-				return
-			}
 			name := attr.FindXpathAttr(nonNumeric.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonNumeric.Attr, "contextRef")
+			if name == nil || contextRef == nil {
+				return
+			}
 			xmlName, err := np.ProvideXmlName(name.Value)
 			if err != nil {
-				goErr = err
 				return
 			}
 			lock1.Lock()
@@ -49,24 +47,19 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 		}(nnonNumeric)
 	}
 	wg1.Wait()
-	if goErr != nil {
-		return nil, goErr
-	}
 	var lock2 sync.Mutex
-	var goErr2 error
 	var wg2 sync.WaitGroup
 	wg2.Add(len(source.NonFractions))
 	for _, nnonFraction := range source.NonFractions {
 		go func(nonFraction *xmlquery.Node) {
 			defer wg2.Done()
-			if goErr2 != nil {
-				return
-			}
 			name := attr.FindXpathAttr(nonFraction.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonFraction.Attr, "contextRef")
+			if name == nil || contextRef == nil {
+				return
+			}
 			xmlName, err := np.ProvideXmlName(name.Value)
 			if err != nil {
-				goErr2 = err
 				return
 			}
 			lock2.Lock()
@@ -76,9 +69,6 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 		}(nnonFraction)
 	}
 	wg2.Wait()
-	if goErr2 != nil {
-		return nil, goErr2
-	}
 	return &Document{
 		NamespaceMap:  nret,
 		ContextRefMap: cret,
-- 
2.43.0


From 8c2ba1699537a38a6342a964238ce0030f2c2d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:35 +0000
Subject: [PATCH 07/39] fix: never give two namespaces the same rewritten
 prefix

---
 pkg/attr/name.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/attr/name.go b/pkg/attr/name.go
index 0f891b5..384ab1d 100644
--- a/pkg/attr/name.go
+++ b/pkg/attr/name.go
@@ -35,6 +35,9 @@ func (np *NameProvider) ProvideConceptName(prefixed string) string {
 	prefix := prefix(prefixed[:i])
 	if _, hit1 := np.originPrefixes[prefix]; hit1 {
 		if targetPrefix, hit2 := np.targetPrefixes[prefix]; hit2 {
+			if targetPrefix == "" {
+				return prefixed[i+1:]
+			}
 			return string(targetPrefix) + prefixed[i:]
 		}
 	}
@@ -104,6 +107,7 @@ func processPrefixes(attrs []xmlquery.Attr) (map[prefix]space, map[prefix]prefix
 		t, currSpace := targetPrefix(attr, nameMap, prefixes)
 		nameMap[space(attr.Value)] = t
 		prefixes[o] = currSpace
+		prefixes[t] = currSpace
 		origin[o] = currSpace
 		target[o] = t
 	}
@@ -149,5 +153,5 @@ func toChar(i int) string {
 	if i < len(arr) {
 		return arr[i]
 	}
-	return arr[len(arr)-1] + toChar(i-len(arr)-1)
+	return arr[len(arr)-1] + toChar(i-len(arr))
 }
-- 
2.43.0


From 4e0ea2b0f4035e96d265588374cefa27c3bd8a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:07 +0000
Subject: [PATCH 08/39] fix: resolve footnotes through the labels of their own
 link

Only the first link with arcs was looked at, a fact had at most one
locator, and a footnote was found only if its label equalled its id.
---
 pkg/hydratables/fact.go | 109 +++++++++++++++++-----------------------
 1 file changed, 47 insertions(+), 62 deletions(-)

diff --git a/pkg/hydratables/fact.go b/pkg/hydratables/fact.go
index 1ba33fc..7c05e9c 100644
--- a/pkg/hydratables/fact.go
+++ b/pkg/hydratables/fact.go
@@ -2,10 +2,6 @@ package hydratables
 
 import (
 	"strings"
-
-	"ecksbee.com/telefacts/internal/graph"
-	"ecksbee.com/telefacts/pkg/attr"
-	myarcs "github.com/joshuanario/arcs"
 )
 
 type Fact struct {
@@ -29,79 +25,68 @@ func (h *Hydratable) FindFact(href string, contextRef string) *Fact {
 	return nil
 }
 
-func fnoteArcs(fnoteArcs []FootnoteArc) []myarcs.Arc {
-	ret := make([]myarcs.Arc, 0, len(fnoteArcs))
-	for i, fnoteArc := range fnoteArcs {
-		ret = append(ret, myarcs.Arc{
-			Arcrole: fnoteArc.Arcrole,
-			Order:   float64(i),
-			From:    fnoteArc.From,
-			To:      fnoteArc.To,
-		})
-	}
-	return ret
-}
-
 func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
-	if fact == nil {
-		return make([]*Footnote, 0)
+	ret := make([]*Footnote, 0)
+	if fact == nil || fact.ID == "" {
+		return ret
 	}
+	seen := make(map[string]bool)
 	for _, instance := range h.Instances {
 		for _, footnoteLink := range instance.FootnoteLinks {
-			arcs := footnoteLink.FootnoteArcs
-			fnoteArcs := fnoteArcs(arcs)
-			root := graph.Tree(fnoteArcs, attr.FactFootnoteArcrole)
-			ret := make([]*Footnote, 0, len(arcs))
-			if len(root.Children) <= 0 {
-				return nil
-			}
-			for _, child := range root.Children {
-				href := mapFnoteLocatorToHref(&instance, child.Locator)
-				locatedID := href
-				pos := strings.LastIndex(href, "#")
-				if pos > -1 {
-					adjustedPos := pos + 1
-					if adjustedPos < len(href) {
-						locatedID = href[adjustedPos:]
-					}
+			for _, arc := range footnoteLink.FootnoteArcs {
+				linked := false
+				for _, id := range locatedIDs(&footnoteLink, arc.From) {
+					linked = linked || id == fact.ID
+				}
+				if !linked {
+					continue
 				}
-				if locatedID == fact.ID {
-					for _, grandchild := range child.Children {
-						footnoteHref := mapFnoteLocatorToHref(&instance, grandchild.Locator)
-						locatedFnoteID := footnoteHref
-						pos := strings.LastIndex(footnoteHref, "#")
-						if pos > -1 {
-							adjustedPos := pos + 1
-							if adjustedPos < len(footnoteHref) {
-								locatedFnoteID = footnoteHref[adjustedPos:]
-							}
-						}
-						locatedFootnote := h.FindFootnote(locatedFnoteID)
-						if locatedFootnote != nil {
-							ret = append(ret, locatedFootnote)
-						}
+				for _, footnote := range h.locateFootnotes(&footnoteLink, arc.To) {
+					if !seen[footnote.ID] {
+						seen[footnote.ID] = true
+						ret = append(ret, footnote)
 					}
-					return ret
 				}
 			}
 		}
 	}
-	return nil
+	return ret
 }
 
-func mapFnoteLocatorToHref(instance *Instance, locator string) string {
-	footnoteLinks := instance.FootnoteLinks
-	for _, footnoteLink := range footnoteLinks {
-		for _, loc := range footnoteLink.Locs {
-			if loc.Label == locator {
-				i := strings.Index(loc.Href, "#")
-				if i >= 0 {
-					return loc.Href
-				}
+// locateFootnotes resolves the label at the end of a footnote arc, which is
+// that of a footnote, or of a locator of a footnote, in the same link.
+func (h *Hydratable) locateFootnotes(footnoteLink *FootnoteLink, label string) []*Footnote {
+	ret := make([]*Footnote, 0)
+	for i := range footnoteLink.Footnotes {
+		if footnoteLink.Footnotes[i].Label == label {
+			ret = append(ret, &footnoteLink.Footnotes[i])
+		}
+	}
+	if len(ret) > 0 {
+		return ret
+	}
+	for _, id := range locatedIDs(footnoteLink, label) {
+		if footnote := h.FindFootnote(id); footnote != nil {
+			ret = append(ret, footnote)
+		}
+	}
+	return ret
+}
+
+func locatedIDs(footnoteLink *FootnoteLink, label string) []string {
+	ret := make([]string, 0)
+	for _, loc := range footnoteLink.Locs {
+		if loc.Label == label {
+			pos := strings.LastIndex(loc.Href, "#")
+			if pos >= 0 && pos+1 < len(loc.Href) {
+				ret = append(ret, loc.Href[pos+1:])
 			}
 		}
 	}
-	return "#" + locator
+	if len(ret) <= 0 {
+		ret = append(ret, label)
+	}
+	return ret
 }
 
 func (h *Hydratable) FindFootnote(id string) *Footnote {
-- 
2.43.0


From 817d7dfedd3e4ef59da569a63ef23d413213f797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:15 +0000
Subject: [PATCH 09/39] fix: look up the denominator of a divided unit by its
 own name

---
 pkg/hydratables/measurement.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hydratables/measurement.go b/pkg/hydratables/measurement.go
index 29a2838..2c76aca 100644
--- a/pkg/hydratables/measurement.go
+++ b/pkg/hydratables/measurement.go
@@ -171,7 +171,7 @@ func (h *Hydratable) FindMeasurement(unitRef string) (*Measurement, *Measurement
 					return queryUTR(unit.Divide.UnitNumerator.Measure.XMLName.Space,
 							unit.Divide.UnitNumerator.Measure.XMLName.Local),
 						queryUTR(unit.Divide.UnitDenominator.Measure.XMLName.Space,
-							unit.Divide.UnitNumerator.Measure.XMLName.Local)
+							unit.Divide.UnitDenominator.Measure.XMLName.Local)
 				}
 				return queryUTR(unit.Measure.XMLName.Space, unit.Measure.XMLName.Local), nil
 			}
-- 
2.43.0


From 0133fea82cea9f7c4ecd8134de983924d23c389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:18 +0000
Subject: [PATCH 10/39] fix: explore every schema once and settle namespace
 locations

Schemas that import or include each other were explored forever, and the
location of a namespace depended on which reference was processed last.
---
 pkg/serializables/folder.go | 47 ++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index d788093..f8fad01 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -16,6 +16,7 @@ import (
 
 type Folder struct {
 	wLock                 sync.Mutex
+	visited               map[string]bool
 	EntryFileName         string
 	Dir                   string
 	Document              *Document
@@ -38,6 +39,7 @@ func Discover(id string) (*Folder, error) {
 	ret := &Folder{
 		EntryFileName:         entryFileName,
 		Dir:                   workingDir,
+		visited:               make(map[string]bool),
 		Namespaces:            make(map[string]string),
 		Instances:             make(map[string]InstanceFile),
 		Schemas:               make(map[string]SchemaFile),
@@ -90,6 +92,29 @@ func Discover(id string) (*Folder, error) {
 	return ret, nil
 }
 
+// scopeNamespace keeps the first of several locations in string order, so that
+// the outcome does not depend on which reference is processed first.
+func (folder *Folder) scopeNamespace(namespace string, location string) {
+	folder.wLock.Lock()
+	defer folder.wLock.Unlock()
+	prev, found := folder.Namespaces[namespace]
+	if !found || location < prev {
+		folder.Namespaces[namespace] = location
+	}
+}
+
+// firstVisit is true for one caller per location only, so that schemas that
+// refer to each other are explored once.
+func (folder *Folder) firstVisit(location string) bool {
+	folder.wLock.Lock()
+	defer folder.wLock.Unlock()
+	if folder.visited[location] {
+		return false
+	}
+	folder.visited[location] = true
+	return true
+}
+
 func (folder *Folder) schemaRef(file *InstanceFile) {
 	if file == nil {
 		return
@@ -123,9 +148,10 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 			if targetNS == nil || targetNS.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[targetNS.Value] = hrefAttr.Value
-			folder.wLock.Unlock()
+			folder.scopeNamespace(targetNS.Value, hrefAttr.Value)
+			if !folder.firstVisit(hrefAttr.Value) {
+				return
+			}
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
@@ -182,9 +208,10 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 			if targetNS == nil || targetNS.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[targetNS.Value] = schemaLocationAttr.Value
-			folder.wLock.Unlock()
+			folder.scopeNamespace(targetNS.Value, schemaLocationAttr.Value)
+			if !folder.firstVisit(schemaLocationAttr.Value) {
+				return
+			}
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
@@ -232,10 +259,8 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 			if schemaLocationAttr == nil || schemaLocationAttr.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[namespaceAttr.Value] = schemaLocationAttr.Value
-			folder.wLock.Unlock()
 			if attr.IsValidUrl(schemaLocationAttr.Value) {
+				folder.scopeNamespace(namespaceAttr.Value, schemaLocationAttr.Value)
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
 			}
@@ -244,6 +269,10 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 			if err != nil {
 				return
 			}
+			folder.scopeNamespace(namespaceAttr.Value, schemaLocationAttr.Value)
+			if !folder.firstVisit(schemaLocationAttr.Value) {
+				return
+			}
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
-- 
2.43.0


From d10555d45c284bcbd6a2523ea7ca817143bb3924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:25 +0000
Subject: [PATCH 11/39] fix: report an undecodable inline document in a folder
 with images

---
 pkg/serializables/folder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index f8fad01..c6a7700 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -59,12 +59,12 @@ func Discover(id string) (*Folder, error) {
 			return nil, err
 		}
 		doc := DecodeIxbrlFile(data)
-		if len(ret.Images) > 0 {
-			doc.Bytes = TransformInlineImages(data, ret.Images)
-		}
 		if doc == nil {
 			return nil, fmt.Errorf("failed to decode IXBRL source document")
 		}
+		if len(ret.Images) > 0 {
+			doc.Bytes = TransformInlineImages(data, ret.Images)
+		}
 		ret.Document = doc
 		extracted := filepath.Join(workingDir, entryFileName+".xml")
 		if _, err := os.Stat(extracted); errors.Is(err, os.ErrNotExist) {
-- 
2.43.0


From a47be1d1e579f4c665732a384247fd5fb5a3a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:44 +0000
Subject: [PATCH 12/39] fix: keep file references inside the folder and the
 taxonomy set

---
 pkg/serializables/folder.go     | 40 ++++++++++++++++++++++++++++-----
 pkg/serializables/global.go     |  8 +++----
 pkg/serializables/underscore.go |  3 +++
 3 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index c6a7700..7ce8e0f 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -53,7 +53,10 @@ func Discover(id string) (*Folder, error) {
 	ext := filepath.Ext(entryFileName)
 	switch ext {
 	case ".xhtml", ".htm":
-		htmFilePath := filepath.Join(workingDir, entryFileName)
+		htmFilePath, err := ret.localPath(entryFileName)
+		if err != nil {
+			return nil, err
+		}
 		data, err := os.ReadFile(htmFilePath)
 		if err != nil {
 			return nil, err
@@ -79,7 +82,10 @@ func Discover(id string) (*Folder, error) {
 		defer ret.wLock.Unlock()
 		ret.Instances[entryFileName+".xml"] = *instanceFile
 	case ".xbrl", ".xml":
-		xmlFilePath := filepath.Join(workingDir, entryFileName)
+		xmlFilePath, err := ret.localPath(entryFileName)
+		if err != nil {
+			return nil, err
+		}
 		instanceFile, err := ReadInstanceFile(xmlFilePath)
 		if err != nil {
 			return nil, err
@@ -92,6 +98,16 @@ func Discover(id string) (*Folder, error) {
 	return ret, nil
 }
 
+// localPath refuses references that lead out of the folder.
+func (folder *Folder) localPath(href string) (string, error) {
+	ret := filepath.Join(folder.Dir, href)
+	rel, err := filepath.Rel(folder.Dir, ret)
+	if err != nil || !filepath.IsLocal(rel) {
+		return "", fmt.Errorf("%s is outside of the folder", href)
+	}
+	return ret, nil
+}
+
 // scopeNamespace keeps the first of several locations in string order, so that
 // the outcome does not depend on which reference is processed first.
 func (folder *Folder) scopeNamespace(namespace string, location string) {
@@ -139,7 +155,10 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 				go DiscoverGlobalSchema(hrefAttr.Value)
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, hrefAttr.Value)
+			schemaFilePath, err := folder.localPath(hrefAttr.Value)
+			if err != nil {
+				return
+			}
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				return
@@ -199,7 +218,10 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
+			schemaFilePath, err := folder.localPath(schemaLocationAttr.Value)
+			if err != nil {
+				return
+			}
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				return
@@ -264,7 +286,10 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
+			schemaFilePath, err := folder.localPath(schemaLocationAttr.Value)
+			if err != nil {
+				return
+			}
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				return
@@ -339,7 +364,10 @@ func (folder *Folder) linkbaseRefSchema(file *SchemaFile) {
 						go DiscoverGlobalFile(hrefAttr.Value)
 						return
 					}
-					linkbaseFilePath := filepath.Join(folder.Dir, hrefAttr.Value)
+					linkbaseFilePath, err := folder.localPath(hrefAttr.Value)
+					if err != nil {
+						return
+					}
 					switch roleAttr.Value {
 					case attr.PresentationLinkbaseRef:
 						discoveredPre, err := ReadPresentationLinkbaseFile(linkbaseFilePath)
diff --git a/pkg/serializables/global.go b/pkg/serializables/global.go
index 0402818..c4fccfb 100644
--- a/pkg/serializables/global.go
+++ b/pkg/serializables/global.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"net/url"
 	"os"
+	"path"
 	"path/filepath"
 	"strings"
 
@@ -37,11 +38,10 @@ func UrlToFilename(urlStr string) (string, error) {
 	if len(hostname) <= 0 {
 		return "", fmt.Errorf("empty hostname")
 	}
-	dest = filepath.Join(dest, hostname)
-	var splits = strings.Split(urlPath.Path, "/")
-	for _, split := range splits {
-		dest = filepath.Join(dest, split)
+	if hostname == "." || hostname == ".." || strings.ContainsAny(hostname, `/\`) {
+		return "", fmt.Errorf("invalid hostname")
 	}
+	dest = filepath.Join(dest, hostname, path.Clean("/"+urlPath.Path))
 	return filepath.Join(GlobalTaxonomySetPath, "concepts", dest), nil
 }
 
diff --git a/pkg/serializables/underscore.go b/pkg/serializables/underscore.go
index 86e0d8c..3194a9c 100644
--- a/pkg/serializables/underscore.go
+++ b/pkg/serializables/underscore.go
@@ -17,6 +17,9 @@ type Underscore struct {
 
 func GetEntryFileName(id string) (string, error) {
 	underscore := Underscore{}
+	if !filepath.IsLocal(id) {
+		return "", fmt.Errorf("invalid id %s", id)
+	}
 	b, err := os.ReadFile(path.Join(WorkingDirectoryPath, "folders", id, "_"))
 	if err != nil {
 		return "", err
-- 
2.43.0


From 4f5ef9554c849e825a8b3b5f9635e8c6b99e3e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:52 +0000
Subject: [PATCH 13/39] fix: report a missing global file instead of returning
 no data

---
 pkg/serializables/global.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/pkg/serializables/global.go b/pkg/serializables/global.go
index c4fccfb..57deb49 100644
--- a/pkg/serializables/global.go
+++ b/pkg/serializables/global.go
@@ -50,17 +50,7 @@ func DiscoverGlobalFile(urlStr string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	var ret []byte
-	if file, err := os.Stat(dest); err == nil {
-		dirString, _ := filepath.Split(dest)
-		filename := file.Name()
-		globalFilePath := filepath.Join(dirString, filename)
-		ret, err = os.ReadFile(globalFilePath)
-		if err == nil {
-			return ret, nil
-		}
-	}
-	return nil, err
+	return os.ReadFile(dest)
 }
 
 func DiscoverGlobalSchema(urlStr string) (*SchemaFile, error) {
-- 
2.43.0


From ae5642e47660f98210719fd5f6243a4c99e823f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:16 +0000
Subject: [PATCH 14/39] fix: create folders all or nothing

A creation that failed or was interrupted after making the directory
left an incomplete folder that blocked its key for good.
---
 pkg/serializables/underscore.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pkg/serializables/underscore.go b/pkg/serializables/underscore.go
index 3194a9c..4e1887c 100644
--- a/pkg/serializables/underscore.go
+++ b/pkg/serializables/underscore.go
@@ -52,20 +52,31 @@ func NewFolder(key string, underscore Underscore) (string, error) {
 		pathStr = filepath.Join(workingDir, id.String())
 		_, err = os.Stat(pathStr)
 	}
-	err = os.Mkdir(pathStr, 0755)
+	// The folder is completed under a name of its own first, so that neither a
+	// failure nor a crash leaves an incomplete folder under the id.
+	draft := filepath.Join(workingDir, ".draft-"+uuid.New().String())
+	err = os.Mkdir(draft, 0755)
 	if err != nil {
+		return "", err
+	}
+	err = writeUnderscore(filepath.Join(draft, "_"), underscore)
+	if err == nil {
+		err = os.Rename(draft, pathStr)
+	}
+	if err != nil {
+		os.RemoveAll(draft)
 		if _, errr := os.Stat(pathStr); errr == nil {
 			return id.String(), err
 		}
 		return "", err
 	}
-	meta := filepath.Join(pathStr, "_")
-	file, _ := os.OpenFile(meta, os.O_CREATE|os.O_WRONLY, 0755)
-	defer file.Close()
-	encoder := json.NewEncoder(file)
-	err = encoder.Encode(underscore)
+	return id.String(), nil
+}
+
+func writeUnderscore(meta string, underscore Underscore) error {
+	data, err := json.Marshal(underscore)
 	if err != nil {
-		return "", err
+		return err
 	}
-	return id.String(), nil
+	return os.WriteFile(meta, append(data, '\n'), 0755)
 }
-- 
2.43.0


From 94f7446d5d00e0eeb7df4cb8efe59f060bff2fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:24 +0000
Subject: [PATCH 15/39] fix: find concepts of a namespace that is split over
 several schemas

---
 pkg/hydratables/query.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/hydratables/query.go b/pkg/hydratables/query.go
index 4304545..f4609d9 100644
--- a/pkg/hydratables/query.go
+++ b/pkg/hydratables/query.go
@@ -2,6 +2,7 @@ package hydratables
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"ecksbee.com/telefacts/pkg/attr"
@@ -75,6 +76,19 @@ func (h *Hydratable) NameQuery(namespace string, localName string) (string, *Con
 			return schemaLoc + "#" + candidate.ID, &candidate, nil
 		}
 	}
+	// a namespace can be split over several schemas of the folder
+	locations := make([]string, 0, len(h.Schemas))
+	for location := range h.Schemas {
+		locations = append(locations, location)
+	}
+	sort.Strings(locations)
+	for _, location := range locations {
+		for _, candidate := range h.Schemas[location].Element {
+			if localName == candidate.XMLName.Local && namespace == candidate.XMLName.Space {
+				return location + "#" + candidate.ID, &candidate, nil
+			}
+		}
+	}
 	return "", nil, nil
 }
 
-- 
2.43.0


From ea60afccb4da0b2917a76c564e760e2ade6e910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:39 +0000
Subject: [PATCH 16/39] fix: read role types from every annotation of a schema

---
 pkg/hydratables/schema.go | 73 +++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/pkg/hydratables/schema.go b/pkg/hydratables/schema.go
index e115d82..e7803d4 100644
--- a/pkg/hydratables/schema.go
+++ b/pkg/hydratables/schema.go
@@ -86,50 +86,47 @@ func hydrateAttributeFormDefault(file *serializables.SchemaFile) string {
 }
 
 func hydrateAnnotation(file *serializables.SchemaFile) Annotation {
-	ret := Annotation{}
-	if len(file.Annotation) <= 0 {
-		return ret
-	}
-	if file.Annotation[0].XMLName.Space != attr.XSD {
-		return ret
-	}
-	if len(file.Annotation[0].Appinfo) <= 0 {
-		return ret
-	}
-	if file.Annotation[0].Appinfo[0].XMLName.Space != attr.XSD {
-		return ret
-	}
-	roleTypes := make([]RoleType, 0, len(file.Annotation[0].Appinfo[0].RoleType))
-	for _, roleType := range file.Annotation[0].Appinfo[0].RoleType {
-		if roleType.XMLName.Space != attr.LINK {
-			continue
-		}
-		newRoleType := RoleType{}
-		idAttr := attr.FindAttr(roleType.XMLAttrs, "id")
-		if idAttr == nil || idAttr.Value == "" {
-			continue
-		}
-		newRoleType.ID = idAttr.Value
-		roleuriAttr := attr.FindAttr(roleType.XMLAttrs, "roleURI")
-		if roleuriAttr == nil || roleuriAttr.Value == "" {
+	roleTypes := make([]RoleType, 0)
+	for _, annotation := range file.Annotation {
+		if annotation.XMLName.Space != attr.XSD {
 			continue
 		}
-		newRoleType.RoleURI = roleuriAttr.Value
-		if len(roleType.Definition) > 0 {
-			newRoleType.Definition = roleType.Definition[0].CharData
-		}
-		if len(roleType.UsedOn) > 0 {
-			newRoleType.UsedOn = make([]struct{ CharData string }, 0, len(roleType.UsedOn))
-			for _, usedOn := range roleType.UsedOn {
-				if usedOn.XMLName.Space != attr.LINK {
+		for _, appinfo := range annotation.Appinfo {
+			if appinfo.XMLName.Space != attr.XSD {
+				continue
+			}
+			for _, roleType := range appinfo.RoleType {
+				if roleType.XMLName.Space != attr.LINK {
+					continue
+				}
+				newRoleType := RoleType{}
+				idAttr := attr.FindAttr(roleType.XMLAttrs, "id")
+				if idAttr == nil || idAttr.Value == "" {
 					continue
 				}
-				newRoleType.UsedOn = append(newRoleType.UsedOn, struct{ CharData string }{
-					CharData: usedOn.CharData,
-				})
+				newRoleType.ID = idAttr.Value
+				roleuriAttr := attr.FindAttr(roleType.XMLAttrs, "roleURI")
+				if roleuriAttr == nil || roleuriAttr.Value == "" {
+					continue
+				}
+				newRoleType.RoleURI = roleuriAttr.Value
+				if len(roleType.Definition) > 0 {
+					newRoleType.Definition = roleType.Definition[0].CharData
+				}
+				if len(roleType.UsedOn) > 0 {
+					newRoleType.UsedOn = make([]struct{ CharData string }, 0, len(roleType.UsedOn))
+					for _, usedOn := range roleType.UsedOn {
+						if usedOn.XMLName.Space != attr.LINK {
+							continue
+						}
+						newRoleType.UsedOn = append(newRoleType.UsedOn, struct{ CharData string }{
+							CharData: usedOn.CharData,
+						})
+					}
+				}
+				roleTypes = append(roleTypes, newRoleType)
 			}
 		}
-		roleTypes = append(roleTypes, newRoleType)
 	}
 	return Annotation{
 		Appinfo: Appinfo{
-- 
2.43.0


From 1d09154b5c8290d72beb1720713ae78f31521943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:53 +0000
Subject: [PATCH 17/39] fix: show typed members of several dimensions and
 elements correctly

The elements of a typed member were all nested in one another, a second
typed dimension was labelled with the first one, and one member that
could not be read removed the headers of all others.
---
 pkg/hydratables/instance.go           | 80 ++++++++-------------------
 pkg/renderables/contextualQuadrant.go | 10 +---
 pkg/renderables/typedMember.go        | 11 +++-
 3 files changed, 35 insertions(+), 66 deletions(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index b54f7f8..5283154 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -335,71 +335,39 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 	retMap := make(map[string]string)
 	arcs := make([]TypedDomainArc, 0)
 	order := 0
-	var stack Stack
-	stack = make([]*Concept, 0)
-	prevHref := dimensionHref
-	_, prev, err := h.HashQuery(dimensionHref)
-	dimension := prev
-	if err != nil {
-		return nil, nil
-	}
+	stack := []string{dimensionHref}
 	for {
 		token, err := d.Token()
 		if err == io.EOF {
 			break
 		}
-		switch token.(type) {
+		if err != nil {
+			return nil, nil
+		}
+		top := stack[len(stack)-1]
+		switch elem := token.(type) {
 		case xml.StartElement:
-			startElem, ok := token.(xml.StartElement)
-			if ok {
-				startElemName := attr.Xmlns(instanceFile.XMLAttrs, startElem.Name.Space+":"+startElem.Name.Local)
-				if startElemName.Space == "" {
-					continue
-				}
-				currHref, curr, err := h.NameQuery(startElemName.Space, startElemName.Local)
-				if err != nil {
-					return nil, nil
-				}
-				order++
-				stack.Push(curr)
-				arcs = append(arcs, TypedDomainArc{
-					From:  prevHref,
-					To:    currHref,
-					Order: float64(order),
-				})
-				prev = curr
-				prevHref = currHref
+			name := attr.Xmlns(instanceFile.XMLAttrs, elem.Name.Space+":"+elem.Name.Local)
+			if name.Space == "" {
+				return nil, nil
 			}
-		case xml.EndElement:
-			endElem, ok := token.(xml.EndElement)
-			if ok {
-				popped, ok := stack.Pop()
-				if !ok {
-					return nil, nil
-				}
-				endElemName := attr.Xmlns(instanceFile.XMLAttrs, endElem.Name.Space+":"+endElem.Name.Local)
-				if (popped.XMLName.Local != endElemName.Local) && (popped.XMLName.Space != endElemName.Space) {
-					return nil, nil
-				}
-				prev, ok = stack.Pop()
-				if ok {
-					stack.Push(prev)
-				} else {
-					prev = dimension
-				}
+			href, concept, err := h.NameQuery(name.Space, name.Local)
+			if err != nil || concept == nil {
+				return nil, nil
 			}
+			order++
+			arcs = append(arcs, TypedDomainArc{
+				From:  top,
+				To:    href,
+				Order: float64(order),
+			})
+			stack = append(stack, href)
+		case xml.EndElement:
+			stack = stack[:len(stack)-1]
 		case xml.CharData:
-			charData, ok := token.(xml.CharData)
-			if ok {
-				str := strings.TrimSpace(string(charData))
-				if str == "" {
-					continue
-				}
-				typedDomainHref, _, err := h.NameQuery(prev.XMLName.Space, prev.XMLName.Local)
-				if err != nil {
-					return nil, nil
-				}
-				retMap[typedDomainHref] = str
+			str := strings.TrimSpace(string(elem))
+			if str != "" && len(stack) > 1 {
+				retMap[top] = str
 			}
 		}
 	}
diff --git a/pkg/renderables/contextualQuadrant.go b/pkg/renderables/contextualQuadrant.go
index 1d3fead..a3b1c64 100644
--- a/pkg/renderables/contextualQuadrant.go
+++ b/pkg/renderables/contextualQuadrant.go
@@ -173,7 +173,7 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 	var dimension *Dimension
 	var makeIndents func(node *myarcs.RArc, level int, isParenthesized bool)
 	makeIndents = func(node *myarcs.RArc, level int, isParenthesized bool) {
-		if dimension == nil && node.Locator != "" {
+		if level == 1 {
 			mappedDimension, ok := allDimensionMap[node.Locator]
 			if !ok {
 				ret = VoidQuadrant{}
@@ -221,18 +221,12 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 
 func reduceTrees(trees []myarcs.RArc) myarcs.RArc {
 	ret := myarcs.RArc{}
-	hasNonblankRoots := true
 	dimensions := make([]*myarcs.RArc, 0, len(trees))
 	for _, root := range trees {
-		if root.Locator == "" && len(root.Children) > 0 {
+		if root.Locator == "" {
 			dimensions = append(dimensions, root.Children...)
-		} else {
-			hasNonblankRoots = false
 		}
 	}
-	if !hasNonblankRoots {
-		return myarcs.RArc{}
-	}
 	ret.Order = 0
 	ret.Locator = ""
 	ret.Children = make([]*myarcs.RArc, 0)
diff --git a/pkg/renderables/typedMember.go b/pkg/renderables/typedMember.go
index 67c642b..a1c1e6b 100644
--- a/pkg/renderables/typedMember.go
+++ b/pkg/renderables/typedMember.go
@@ -27,7 +27,13 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 	labelPacks := []LabelPack{
 		dimension.Label,
 	}
-	for typedDomain, typedMember := range typedMember.TypedMembersMap {
+	taken := make(map[string]bool)
+	for _, arc := range typedMember.TypedDomainArcs {
+		typedDomain := arc.To
+		if taken[typedDomain] {
+			continue
+		}
+		taken[typedDomain] = true
 		typedDomainLabel := GetLabel(h, typedDomain)
 		ret = append(ret, RelevantMember{
 			Dimension: dimension,
@@ -35,7 +41,8 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 				Href:  typedDomain,
 				Label: typedDomainLabel,
 			},
-			TypedMember: typedMember,
+			TypedMember: typedMember.TypedMembersMap[typedDomain],
+			IsSegment:   isSegment,
 		})
 	}
 	return ret, arcs, labelPacks
-- 
2.43.0


From 5de12fe3b834e506f50b39c165d22cfe619ef49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:01 +0000
Subject: [PATCH 18/39] fix: do not panic on incomplete contexts, dangling
 context references and plain instances

---
 pkg/hydratables/global.go      | 7 ++++---
 pkg/hydratables/instance.go    | 3 +++
 pkg/hydratables/measurement.go | 7 ++++---
 pkg/renderables/contexts.go    | 3 +++
 pkg/renderables/expressable.go | 9 +++++++++
 5 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pkg/hydratables/global.go b/pkg/hydratables/global.go
index 3455052..75738a6 100644
--- a/pkg/hydratables/global.go
+++ b/pkg/hydratables/global.go
@@ -24,9 +24,10 @@ func HydrateGlobalSchema(urlStr string) (*Schema, error) {
 	}
 	lock.RLock()
 	if x, found := globalCache.Get(urlStr); found {
-		ret := x.(Schema)
-		lock.RUnlock()
-		return &ret, nil
+		if ret, ok := x.(Schema); ok {
+			lock.RUnlock()
+			return &ret, nil
+		}
 	}
 	lock.RUnlock()
 	file, err := serializables.DiscoverGlobalSchema(urlStr)
diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index 5283154..909202e 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -134,6 +134,9 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 		}
 		item.ID = idAttr.Value
 		newEntity := Entity{}
+		if len(context.Entity) <= 0 {
+			continue
+		}
 		entity := context.Entity[0]
 		if len(entity.Identifier) <= 0 {
 			continue
diff --git a/pkg/hydratables/measurement.go b/pkg/hydratables/measurement.go
index 2c76aca..ae610a6 100644
--- a/pkg/hydratables/measurement.go
+++ b/pkg/hydratables/measurement.go
@@ -58,9 +58,10 @@ func HydrateUnitTypeRegistry() (*UnitTypeRegistry, error) {
 	}
 	lock.RLock()
 	if x, found := globalCache.Get(urlStr); found {
-		ret := x.(UnitTypeRegistry)
-		lock.RUnlock()
-		return &ret, nil
+		if ret, ok := x.(UnitTypeRegistry); ok {
+			lock.RUnlock()
+			return &ret, nil
+		}
 	}
 	lock.RUnlock()
 	file, err := serializables.DiscoverUnitTypeRegistry()
diff --git a/pkg/renderables/contexts.go b/pkg/renderables/contexts.go
index f1e311c..ae33e94 100644
--- a/pkg/renderables/contexts.go
+++ b/pkg/renderables/contexts.go
@@ -214,6 +214,9 @@ func getRelevantContexts(schemedEntity string, h *hydratables.Hydratable,
 				}
 				if factualEdgeHref == fact.Href {
 					context := getContext(&instance, fact.ContextRef)
+					if context == nil {
+						continue
+					}
 					entity := context.Entity
 					contextualSchemedEntity := entity.Identifier.Scheme + "/" + entity.Identifier.CharData
 					if contextualSchemedEntity == schemedEntity {
diff --git a/pkg/renderables/expressable.go b/pkg/renderables/expressable.go
index 36df4e0..d956e1e 100644
--- a/pkg/renderables/expressable.go
+++ b/pkg/renderables/expressable.go
@@ -19,6 +19,9 @@ type Expressable struct {
 }
 
 func MarshalExpressable(name string, contextref string, h *hydratables.Hydratable) ([]byte, error) {
+	if h.Document == nil {
+		return nil, nil
+	}
 	xmlname, found := h.Document.NamespaceMap[name]
 	if !found {
 		return nil, nil
@@ -32,6 +35,9 @@ func MarshalExpressable(name string, contextref string, h *hydratables.Hydratabl
 		extracted = &instance
 		break
 	}
+	if extracted == nil {
+		return nil, nil
+	}
 	href, _, err := h.NameQuery(xmlname.Space, xmlname.Local)
 	if err != nil {
 		return nil, err
@@ -42,6 +48,9 @@ func MarshalExpressable(name string, contextref string, h *hydratables.Hydratabl
 		return nil, nil
 	}
 	context := getContext(extracted, contextref)
+	if context == nil {
+		return nil, nil
+	}
 	period := periodMultilingualString(labels, context)
 	entity := stringify(&Entity{
 		Scheme:   context.Entity.Identifier.Scheme,
-- 
2.43.0


From 48017b8c2af02369a4e7f113728d94b1491ced19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:32 +0000
Subject: [PATCH 19/39] fix: build the single-fact context from its own context
 only

Typed dimensions of other contexts removed the dimension headers.
---
 pkg/renderables/expressable.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/pkg/renderables/expressable.go b/pkg/renderables/expressable.go
index d956e1e..2364d62 100644
--- a/pkg/renderables/expressable.go
+++ b/pkg/renderables/expressable.go
@@ -52,19 +52,13 @@ func MarshalExpressable(name string, contextref string, h *hydratables.Hydratabl
 		return nil, nil
 	}
 	period := periodMultilingualString(labels, context)
-	entity := stringify(&Entity{
-		Scheme:   context.Entity.Identifier.Scheme,
-		CharData: context.Entity.Identifier.CharData,
-	})
-	relevantContexts, segment, scenario, _ := getRelevantContexts(entity, h, []string{
-		href,
-	})
-	expressedContexts := make([]relevantContext, 0)
-	for _, relevantContext := range relevantContexts {
-		if relevantContext.ContextRef == contextref {
-			expressedContexts = append(expressedContexts, relevantContext)
-			break
-		}
+	contextualMembers, segment, scenario, _ := getContextualMembers(context, h)
+	expressedContexts := []relevantContext{
+		{
+			ContextRef:   context.ID,
+			PeriodHeader: periodString(context),
+			Members:      contextualMembers,
+		},
 	}
 	memberGrid, voidQuadrant := getMemberGridAndVoidQuadrant(expressedContexts, segment, scenario)
 	footnotes := h.GetFootnotes(hydratedFact)
-- 
2.43.0


From 568bfb3e40f2c1548dbcee2833ecd6d649118923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:04 +0000
Subject: [PATCH 20/39] fix: show labels in plain English too

---
 pkg/renderables/label.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/renderables/label.go b/pkg/renderables/label.go
index 804ac2b..ee07b3d 100644
--- a/pkg/renderables/label.go
+++ b/pkg/renderables/label.go
@@ -65,8 +65,7 @@ func appendLabelModifiersFromHref(labelPack LabelPack, h *hydratables.Hydratable
 
 func appendLanguage(labelLinkLabel *hydratables.LabelLinkLabel, labelRole LabelRole, charData string, labelPack LabelPack) LabelPack {
 	switch labelLinkLabel.Lang {
-	case "en":
-	case "en-US":
+	case "en", "en-US":
 		labelPack[labelRole][English] = charData
 		break
 	case "es":
-- 
2.43.0


From c0ae3fe5685a83ce60b6b4ecbc1f6e6583d7a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:13 +0000
Subject: [PATCH 21/39] fix: keep the closed and usable attributes of
 definition arcs

---
 pkg/hydratables/definitionLinkbase.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/hydratables/definitionLinkbase.go b/pkg/hydratables/definitionLinkbase.go
index ac40a31..fe6946b 100644
--- a/pkg/hydratables/definitionLinkbase.go
+++ b/pkg/hydratables/definitionLinkbase.go
@@ -139,17 +139,16 @@ func hydrateDefinitionLink(linkbaseFile *serializables.DefinitionLinkbaseFile) [
 			if closedAttr != nil {
 				closed, err := strconv.ParseBool(closedAttr.Value)
 				if err == nil {
-					closed = false
+					newArc.Closed = closed
 				}
-				newArc.Closed = closed
 			}
+			newArc.Usable = true
 			usableAttr := attr.FindAttr(arc.XMLAttrs, "usable")
 			if usableAttr != nil {
 				usable, err := strconv.ParseBool(usableAttr.Value)
 				if err == nil {
-					usable = true
+					newArc.Usable = usable
 				}
-				newArc.Usable = usable
 			}
 			contextElementAttr := attr.FindAttr(arc.XMLAttrs, "contextElement")
 			if contextElementAttr != nil {
-- 
2.43.0


From 58dae8f003bd9d3a565194a675f1a284705c1cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:20 +0000
Subject: [PATCH 22/39] fix: treat arc orders that are not finite as malformed

---
 pkg/hydratables/calculationLinkbase.go  | 2 +-
 pkg/hydratables/definitionLinkbase.go   | 2 +-
 pkg/hydratables/presentationLinkbase.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/hydratables/calculationLinkbase.go b/pkg/hydratables/calculationLinkbase.go
index 540afed..0ad9186 100644
--- a/pkg/hydratables/calculationLinkbase.go
+++ b/pkg/hydratables/calculationLinkbase.go
@@ -129,7 +129,7 @@ func hydrateCalculationLink(linkbaseFile *serializables.CalculationLinkbaseFile)
 				continue
 			}
 			order, err := strconv.ParseFloat(orderAttr.Value, 64)
-			if err != nil {
+			if err != nil || math.IsNaN(order) || math.IsInf(order, 0) {
 				order = math.MaxFloat64
 			}
 			weight, err := strconv.ParseFloat(weightAttr.Value, 64)
diff --git a/pkg/hydratables/definitionLinkbase.go b/pkg/hydratables/definitionLinkbase.go
index fe6946b..d2451d6 100644
--- a/pkg/hydratables/definitionLinkbase.go
+++ b/pkg/hydratables/definitionLinkbase.go
@@ -129,7 +129,7 @@ func hydrateDefinitionLink(linkbaseFile *serializables.DefinitionLinkbaseFile) [
 			}
 			newArc.Arcrole = arcroleAttr.Value
 			order, err := strconv.ParseFloat(orderAttr.Value, 64)
-			if err != nil {
+			if err != nil || math.IsNaN(order) || math.IsInf(order, 0) {
 				order = math.MaxFloat64
 			}
 			newArc.Order = order
diff --git a/pkg/hydratables/presentationLinkbase.go b/pkg/hydratables/presentationLinkbase.go
index d9914b4..3b752ab 100644
--- a/pkg/hydratables/presentationLinkbase.go
+++ b/pkg/hydratables/presentationLinkbase.go
@@ -126,7 +126,7 @@ func hydratePresentationLink(linkbaseFile *serializables.PresentationLinkbaseFil
 			}
 			newArc.Arcrole = arcroleAttr.Value
 			order, err := strconv.ParseFloat(orderAttr.Value, 64)
-			if err != nil {
+			if err != nil || math.IsNaN(order) || math.IsInf(order, 0) {
 				order = math.MaxFloat64
 			}
 			newArc.Order = order
-- 
2.43.0


From 3db9e02d800d2968f7bcee7059b208a705fbfebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:28 +0000
Subject: [PATCH 23/39] fix: keep locator labels of extended links with the
 same role apart

---
 pkg/hydratables/calculationLinkbase.go  | 12 +++++++--
 pkg/hydratables/definitionLinkbase.go   | 12 +++++++--
 pkg/hydratables/linkbase.go             | 34 +++++++++++++++++++++++++
 pkg/hydratables/presentationLinkbase.go | 12 +++++++--
 4 files changed, 64 insertions(+), 6 deletions(-)

diff --git a/pkg/hydratables/calculationLinkbase.go b/pkg/hydratables/calculationLinkbase.go
index 0ad9186..cf45a42 100644
--- a/pkg/hydratables/calculationLinkbase.go
+++ b/pkg/hydratables/calculationLinkbase.go
@@ -152,8 +152,16 @@ func dedupCalculationLink(links []CalculationLink) []CalculationLink {
 	occured := map[string]CalculationLink{}
 	for _, link := range links {
 		if merged, found := occured[link.Role]; found {
-			merged.Locs = append(merged.Locs, link.Locs...)
-			merged.CalculationArcs = append(merged.CalculationArcs, link.CalculationArcs...)
+			renamed := renameClashingLabels(merged.Locs, link.Locs)
+			for _, loc := range link.Locs {
+				loc.Label = renamed(loc.Label)
+				merged.Locs = append(merged.Locs, loc)
+			}
+			for _, arc := range link.CalculationArcs {
+				arc.From = renamed(arc.From)
+				arc.To = renamed(arc.To)
+				merged.CalculationArcs = append(merged.CalculationArcs, arc)
+			}
 			occured[link.Role] = merged
 		} else {
 			occured[link.Role] = link
diff --git a/pkg/hydratables/definitionLinkbase.go b/pkg/hydratables/definitionLinkbase.go
index d2451d6..e985f26 100644
--- a/pkg/hydratables/definitionLinkbase.go
+++ b/pkg/hydratables/definitionLinkbase.go
@@ -169,8 +169,16 @@ func dedupDefinitionLink(links []DefinitionLink) []DefinitionLink {
 	occured := map[string]DefinitionLink{}
 	for _, link := range links {
 		if merged, found := occured[link.Role]; found {
-			merged.Locs = append(merged.Locs, link.Locs...)
-			merged.DefinitionArcs = append(merged.DefinitionArcs, link.DefinitionArcs...)
+			renamed := renameClashingLabels(merged.Locs, link.Locs)
+			for _, loc := range link.Locs {
+				loc.Label = renamed(loc.Label)
+				merged.Locs = append(merged.Locs, loc)
+			}
+			for _, arc := range link.DefinitionArcs {
+				arc.From = renamed(arc.From)
+				arc.To = renamed(arc.To)
+				merged.DefinitionArcs = append(merged.DefinitionArcs, arc)
+			}
 			occured[link.Role] = merged
 		} else {
 			occured[link.Role] = link
diff --git a/pkg/hydratables/linkbase.go b/pkg/hydratables/linkbase.go
index 05fe16c..023830d 100644
--- a/pkg/hydratables/linkbase.go
+++ b/pkg/hydratables/linkbase.go
@@ -9,3 +9,37 @@ type Loc struct {
 	Href  string
 	Label string
 }
+
+// renameClashingLabels gives new names to the labels of an extended link that
+// stand for something else in the links it is merged with, because labels are
+// only meaningful within their own link.
+func renameClashingLabels(merged []Loc, added []Loc) func(string) string {
+	hrefs := make(map[string]string)
+	for _, loc := range merged {
+		hrefs[loc.Label] = loc.Href
+	}
+	own := make(map[string]bool)
+	for _, loc := range added {
+		own[loc.Label] = true
+	}
+	names := make(map[string]string)
+	for _, loc := range added {
+		href, found := hrefs[loc.Label]
+		if !found || href == loc.Href || names[loc.Label] != "" {
+			continue
+		}
+		name := loc.Label
+		for found || own[name] {
+			name += "_"
+			_, found = hrefs[name]
+		}
+		hrefs[name] = loc.Href
+		names[loc.Label] = name
+	}
+	return func(label string) string {
+		if name := names[label]; name != "" {
+			return name
+		}
+		return label
+	}
+}
diff --git a/pkg/hydratables/presentationLinkbase.go b/pkg/hydratables/presentationLinkbase.go
index 3b752ab..f2ba400 100644
--- a/pkg/hydratables/presentationLinkbase.go
+++ b/pkg/hydratables/presentationLinkbase.go
@@ -147,8 +147,16 @@ func dedupPresentationLink(links []PresentationLink) []PresentationLink {
 	occured := map[string]PresentationLink{}
 	for _, link := range links {
 		if merged, found := occured[link.Role]; found {
-			merged.Locs = append(merged.Locs, link.Locs...)
-			merged.PresentationArcs = append(merged.PresentationArcs, link.PresentationArcs...)
+			renamed := renameClashingLabels(merged.Locs, link.Locs)
+			for _, loc := range link.Locs {
+				loc.Label = renamed(loc.Label)
+				merged.Locs = append(merged.Locs, loc)
+			}
+			for _, arc := range link.PresentationArcs {
+				arc.From = renamed(arc.From)
+				arc.To = renamed(arc.To)
+				merged.PresentationArcs = append(merged.PresentationArcs, arc)
+			}
 			occured[link.Role] = merged
 		} else {
 			occured[link.Role] = link
-- 
2.43.0


From 010c588ada255ca23c08502eff54a59ff39ec0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:45 +0000
Subject: [PATCH 24/39] fix: offer every language and label kind in a fixed
 order

The last concept's labels of a kind replaced those of the others, so
languages used elsewhere on the page were missing.
---
 pkg/renderables/labelPack.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/renderables/labelPack.go b/pkg/renderables/labelPack.go
index 06afe3b..267e4a9 100644
--- a/pkg/renderables/labelPack.go
+++ b/pkg/renderables/labelPack.go
@@ -1,5 +1,7 @@
 package renderables
 
+import "sort"
+
 type LabelRole string
 type Lang string
 
@@ -38,7 +40,9 @@ func reduce(labelPacks []LabelPack) *LabelPack {
 	for i := 0; i < len(labelPacks); i++ {
 		item := labelPacks[i]
 		for labelRole, langPack := range item {
-			ret[labelRole] = make(LanguagePack)
+			if _, found := ret[labelRole]; !found {
+				ret[labelRole] = make(LanguagePack)
+			}
 			for lang, chardata := range langPack {
 				ret[labelRole][lang] = chardata
 			}
@@ -56,7 +60,9 @@ func destruct(labelPack LabelPack) ([]LabelRole, []Lang) {
 			langs = append(langs, lang)
 		}
 	}
-	return labelRoles, langs
+	sort.Slice(labelRoles, func(i, j int) bool { return labelRoles[i] < labelRoles[j] })
+	sort.Slice(langs, func(i, j int) bool { return langs[i] < langs[j] })
+	return labelRoles, dedupLang(langs)
 }
 
 func dedupLang(langs []Lang) []Lang {
-- 
2.43.0


From 284e93db0d4b61872f8d07bdc91b7c12ac219ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:53 +0000
Subject: [PATCH 25/39] fix: go through linkbases and sums in a fixed order

---
 pkg/renderables/calculationGrid.go          |  6 ++++--
 pkg/renderables/dimensionRelationshipSet.go |  3 ++-
 pkg/renderables/effectiveDomainGrid.go      |  3 ++-
 pkg/renderables/label.go                    |  3 ++-
 pkg/renderables/presentationGrid.go         |  3 ++-
 pkg/renderables/utility.go                  | 11 +++++++++++
 6 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pkg/renderables/calculationGrid.go b/pkg/renderables/calculationGrid.go
index 484648f..6d68e89 100644
--- a/pkg/renderables/calculationGrid.go
+++ b/pkg/renderables/calculationGrid.go
@@ -47,7 +47,8 @@ func cGrid(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
 func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
 	factFinder FactFinder, conceptFinder ConceptFinder, measurementFinder MeasurementFinder) ([]SummationItem, []LabelRole, []Lang) {
 	var calculationLinks []hydratables.CalculationLink
-	for _, calculation := range h.CalculationLinkbases {
+	for _, fileName := range sortedKeys(h.CalculationLinkbases) {
+		calculation := h.CalculationLinkbases[fileName]
 		for _, roleRef := range calculation.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
 				calculationLinks = calculation.CalculationLinks
@@ -94,7 +95,8 @@ func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.
 					langs      []Lang
 				)
 				ret := make([]SummationItem, 0, len(cMap))
-				for from, slice := range cMap {
+				for _, from := range sortedKeys(cMap) {
+					slice := cMap[from]
 					contributingConcepts := make([]ContributingConcept, 0, len(slice))
 					fqLabels := make([]string, 0, len(slice)+1)
 					for _, cstruct := range slice {
diff --git a/pkg/renderables/dimensionRelationshipSet.go b/pkg/renderables/dimensionRelationshipSet.go
index 2b0883c..5515574 100644
--- a/pkg/renderables/dimensionRelationshipSet.go
+++ b/pkg/renderables/dimensionRelationshipSet.go
@@ -53,7 +53,8 @@ func getDRS(schemedEntity string, linkroleURI string, h *hydratables.Hydratable)
 	links := make([]DRSLink, 0, 20)
 	hrefs := make(map[string]int)
 
-	for _, definition := range h.DefinitionLinkbases {
+	for _, fileName := range sortedKeys(h.DefinitionLinkbases) {
+		definition := h.DefinitionLinkbases[fileName]
 		var definitionLinks []hydratables.DefinitionLink
 		for _, roleRef := range definition.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index e363f7b..803290c 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -63,7 +63,8 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 	labelRoles := []LabelRole{}
 	langs := []Lang{}
 	labelPacks := make([]LabelPack, 0, 100)
-	for _, definition := range h.DefinitionLinkbases {
+	for _, fileName := range sortedKeys(h.DefinitionLinkbases) {
+		definition := h.DefinitionLinkbases[fileName]
 		var definitionLinks []hydratables.DefinitionLink
 		for _, roleRef := range definition.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/label.go b/pkg/renderables/label.go
index ee07b3d..6281144 100644
--- a/pkg/renderables/label.go
+++ b/pkg/renderables/label.go
@@ -21,7 +21,8 @@ func GetLabel(h *hydratables.Hydratable, href string) LabelPack {
 
 func appendLabelModifiersFromHref(labelPack LabelPack, h *hydratables.Hydratable, href string) LabelPack {
 	ret := labelPack
-	for _, labels := range h.LabelLinkbases {
+	for _, fileName := range sortedKeys(h.LabelLinkbases) {
+		labels := h.LabelLinkbases[fileName]
 		for _, labelLink := range labels.LabelLink {
 			for _, loc := range labelLink.Locs {
 				if loc.Href == href {
diff --git a/pkg/renderables/presentationGrid.go b/pkg/renderables/presentationGrid.go
index 6cc34a8..f501d7f 100644
--- a/pkg/renderables/presentationGrid.go
+++ b/pkg/renderables/presentationGrid.go
@@ -70,7 +70,8 @@ func pArcs(pArcs []hydratables.PresentationArc) []myarcs.Arc {
 
 func getIndentedLabels(linkroleURI string, h *hydratables.Hydratable) ([]IndentedLabel, []LabelPack) {
 	labelPacks := make([]LabelPack, 0, 100)
-	for _, presentation := range h.PresentationLinkbases {
+	for _, fileName := range sortedKeys(h.PresentationLinkbases) {
+		presentation := h.PresentationLinkbases[fileName]
 		var presentationLinks []hydratables.PresentationLink
 		for _, roleRef := range presentation.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/utility.go b/pkg/renderables/utility.go
index 38232a3..46df9af 100644
--- a/pkg/renderables/utility.go
+++ b/pkg/renderables/utility.go
@@ -1,5 +1,16 @@
 package renderables
 
+import "sort"
+
+func sortedKeys[V any](m map[string]V) []string {
+	ret := make([]string, 0, len(m))
+	for key := range m {
+		ret = append(ret, key)
+	}
+	sort.Strings(ret)
+	return ret
+}
+
 func stringInSlice(a string, list []string) bool {
 	for _, b := range list {
 		if b == a {
-- 
2.43.0


From 3b393f9a74c5047024b690f2101ea51af84601c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:02 +0000
Subject: [PATCH 26/39] fix: list only the members of a dimension's own domain

Every dimension got the members of all domains of the role, and members
reached twice emptied the list.
---
 pkg/renderables/effectiveDomainGrid.go | 67 ++++++++++++++++----------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index 803290c..7c3751e 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -98,7 +98,7 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 				}
 				dArcs := dArcs(arcs)
 				domainMemberNetwork := graph.Tree(dArcs, attr.DomainMemberArcrole)
-				effectiveDimensions, effectiveDimensionHrefs, edLabelRoles, edLangs := getEffectiveDimensions(linkroleURI, arcs, h)
+				effectiveDimensions, effectiveDimensionHrefs, edLabelRoles, edLangs := getEffectiveDimensions(linkroleURI, arcs, &definition, h)
 				labelRoles = append(labelRoles, edLabelRoles...)
 				langs = append(langs, edLangs...)
 				dimensionDomainNetwork := graph.Tree(dArcs, attr.DimensionDomainArcrole)
@@ -158,27 +158,26 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 }
 
 func getEffectiveDimensions(linkroleURI string,
-	arcs []hydratables.DefinitionArc, h *hydratables.Hydratable) ([]EffectiveDimension, []string, []LabelRole, []Lang) {
+	arcs []hydratables.DefinitionArc, definition *hydratables.DefinitionLinkbase,
+	h *hydratables.Hydratable) ([]EffectiveDimension, []string, []LabelRole, []Lang) {
 	labelPacks := []LabelPack{}
 	effectiveDimensionMap := make(map[string]bool)
 	effectiveDimensions := make([]EffectiveDimension, 0, len(arcs))
 	effectiveDimensionHrefs := make([]string, 0, len(arcs))
-	for _, definition := range h.DefinitionLinkbases {
-		for _, arc := range arcs {
-			if arc.Arcrole == attr.HypercubeDimensionArcrole {
-				dim := mapDLocatorToHref(linkroleURI, &definition, arc.To)
-				if effectiveDimensionMap[dim] {
-					continue
-				}
-				effectiveDimensionMap[dim] = true
-				effectiveDimensionHrefs = append(effectiveDimensionHrefs, dim)
-				dimLabelPack := GetLabel(h, dim)
-				labelPacks = append(labelPacks, dimLabelPack)
-				effectiveDimensions = append(effectiveDimensions, EffectiveDimension{
-					Href:  dim,
-					Label: dimLabelPack,
-				})
+	for _, arc := range arcs {
+		if arc.Arcrole == attr.HypercubeDimensionArcrole {
+			dim := mapDLocatorToHref(linkroleURI, definition, arc.To)
+			if effectiveDimensionMap[dim] {
+				continue
 			}
+			effectiveDimensionMap[dim] = true
+			effectiveDimensionHrefs = append(effectiveDimensionHrefs, dim)
+			dimLabelPack := GetLabel(h, dim)
+			labelPacks = append(labelPacks, dimLabelPack)
+			effectiveDimensions = append(effectiveDimensions, EffectiveDimension{
+				Href:  dim,
+				Label: dimLabelPack,
+			})
 		}
 	}
 	reduced := reduce(labelPacks)
@@ -312,7 +311,7 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 					for _, defaultMemberNode := range dimensionDefaultNode.Children {
 						defaultMemberHref := mapDLocatorToHref(defaultMemberNode.Locator)
 						if defaultMembersMap[defaultMemberHref] {
-							return []EffectiveMember{}, []LabelPack{}
+							continue
 						}
 						defaultMembersMap[defaultMemberHref] = true
 						defMemLabel := GetLabel(h, defaultMemberHref)
@@ -334,13 +333,13 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 			if exclusiveHypercubeHref == mapDLocatorToHref(hypercubeDimensionNode.Locator) {
 				for _, dimensionDefaultNode := range dimensionDefaultNetwork.Children {
 					defaultDimensionHref := mapDLocatorToHref(dimensionDefaultNode.Locator)
-					if excludedDefaultMembersMap[defaultDimensionHref] {
+					if defaultDimensionHref != effectiveDimensionHref {
 						continue
 					}
 					for _, defaultMemberNode := range dimensionDefaultNode.Children {
 						defaultMemberHref := mapDLocatorToHref(defaultMemberNode.Locator)
 						if excludedDefaultMembersMap[defaultMemberHref] {
-							return []EffectiveMember{}, []LabelPack{}
+							continue
 						}
 						excludedDefaultMembersMap[defaultMemberHref] = true
 						defMemLabel := GetLabel(h, defaultMemberHref)
@@ -364,8 +363,6 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 		memberHref := mapDLocatorToHref(node.Locator)
 		if isInclusive {
 			if membersMap[memberHref] {
-				ret = []EffectiveMember{}
-				labelPacks = []LabelPack{}
 				return
 			}
 			membersMap[memberHref] = true
@@ -378,8 +375,6 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 			})
 		} else {
 			if excludedMembersMap[memberHref] {
-				ret = []EffectiveMember{}
-				labelPacks = []LabelPack{}
 				return
 			}
 			excludedMembersMap[memberHref] = true
@@ -410,7 +405,11 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 						if inclusiveDimensionHref != mapDLocatorToHref(dimensionDomainNode.Locator) {
 							continue
 						}
-						for _, node := range explicitDomainNetwork.Children {
+						for _, domainNode := range dimensionDomainNode.Children {
+							node := findNode(explicitDomainNetwork, domainNode.Locator)
+							if node == nil {
+								node = domainNode
+							}
 							traverseExplicitDomainNetwork(node, true)
 						}
 					}
@@ -430,7 +429,11 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 						if exclusiveDimensionHref != mapDLocatorToHref(dimensionDomainNode.Locator) {
 							continue
 						}
-						for _, node := range explicitDomainNetwork.Children {
+						for _, domainNode := range dimensionDomainNode.Children {
+							node := findNode(explicitDomainNetwork, domainNode.Locator)
+							if node == nil {
+								node = domainNode
+							}
 							traverseExplicitDomainNetwork(node, false)
 						}
 					}
@@ -454,3 +457,15 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 	})
 	return ret, labelPacks
 }
+
+func findNode(node *myarcs.RArc, locator string) *myarcs.RArc {
+	for _, child := range node.Children {
+		if child.Locator == locator {
+			return child
+		}
+		if found := findNode(child, locator); found != nil {
+			return found
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 403d3a30eaa49eda17bfc038a267c30fa62a3e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:12 +0000
Subject: [PATCH 27/39] fix: mark only default relationships as default and
 locate targets in their own link

---
 pkg/renderables/dimensionRelationshipSet.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pkg/renderables/dimensionRelationshipSet.go b/pkg/renderables/dimensionRelationshipSet.go
index 5515574..4cb3624 100644
--- a/pkg/renderables/dimensionRelationshipSet.go
+++ b/pkg/renderables/dimensionRelationshipSet.go
@@ -66,12 +66,7 @@ func getDRS(schemedEntity string, linkroleURI string, h *hydratables.Hydratable)
 			if definitionLink.Role == linkroleURI {
 				arcs := definitionLink.DefinitionArcs
 				for _, arc := range arcs {
-					var to string
-					if arc.TargetRole != "" {
-						to = mapDLocatorToHref(arc.TargetRole, &definition, arc.To)
-					} else {
-						to = mapDLocatorToHref(linkroleURI, &definition, arc.To)
-					}
+					to := mapDLocatorToHref(linkroleURI, &definition, arc.To)
 					hrefs[to]++
 					from := mapDLocatorToHref(linkroleURI, &definition, arc.From)
 					hrefs[from]++
@@ -104,7 +99,7 @@ func getDRS(schemedEntity string, linkroleURI string, h *hydratables.Hydratable)
 					case attr.DimensionDomainArcrole:
 						dd = &DimensionDomainConnection{
 							Order:    order,
-							Default:  true,
+							Default:  false,
 							Usable:   arc.Usable,
 							External: arc.TargetRole,
 						}
-- 
2.43.0


From 800b0214e6a4ad0f9cb31849595ebe8c89db532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:06 +0000
Subject: [PATCH 28/39] fix: never show digits that denote another number than
 the fact

Values whose stated precision cuts into their digits were rounded in one part
and kept in the other (1.5 with no decimals became 2.50), most percentages lost
their last digit, and an infinite value made the digit library panic.
---
 pkg/renderables/fact.go | 47 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/pkg/renderables/fact.go b/pkg/renderables/fact.go
index 920bb57..2c8d4dc 100644
--- a/pkg/renderables/fact.go
+++ b/pkg/renderables/fact.go
@@ -3,6 +3,8 @@ package renderables
 import (
 	"fmt"
 	"math/big"
+	"regexp"
+	"strings"
 
 	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/hydratables"
@@ -51,7 +53,13 @@ func render(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder, lang
 	return &ret
 }
 
+var plainDecimal = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)$`)
+
 func SigFigs(value string, precision hydratables.Precision, concept *hydratables.Concept, g rune) (*FactExpression, error) {
+	value = strings.TrimSpace(value)
+	if !plainDecimal.MatchString(value) {
+		return nil, fmt.Errorf("failed to convert fact to numeric expression")
+	}
 	isPercent := concept.Type.Space == attr.NUM &&
 		concept.Type.Local == attr.PercentItemType
 	if isPercent {
@@ -61,11 +69,15 @@ func SigFigs(value string, precision hydratables.Precision, concept *hydratables
 }
 
 func renderPercent(value string, precision hydratables.Precision, g rune) (*FactExpression, error) {
-	f, _, err := big.ParseFloat(value, 10, digits.PREC_BITS, big.ToZero)
-	if err != nil {
+	r, ok := new(big.Rat).SetString(value)
+	if !ok {
 		return nil, fmt.Errorf("failed to convert fact to numeric expression")
 	}
-	percent := f.Mul(f, big.NewFloat(100).SetPrec(digits.PREC_BITS)).Text('f', -1)
+	decimals := 0
+	if dot := strings.IndexRune(value, '.'); dot >= 0 && len(value)-dot-1 > 2 {
+		decimals = len(value) - dot - 1 - 2
+	}
+	percent := r.Mul(r, big.NewRat(100, 1)).FloatString(decimals)
 	return renderNumeric(percent, precision, g)
 }
 
@@ -75,9 +87,38 @@ func renderNumeric(value string, precision hydratables.Precision, g rune) (*Fact
 	if err != nil {
 		return nil, fmt.Errorf("failed to convert fact to numeric expression")
 	}
+	if !denotes(digit.Head()+digit.Core()+digit.Tail(), value, p, g) {
+		return &FactExpression{
+			Core: value,
+		}, nil
+	}
 	return &FactExpression{
 		Head: digit.Head(),
 		Core: digit.Core(),
 		Tail: digit.Tail(),
 	}, nil
 }
+
+// denotes tells whether the digits shown are those of the value, which may be
+// cut off after its stated precision.
+func denotes(shown string, value string, p digits.Precision, g rune) bool {
+	shown = strings.ReplaceAll(shown, string(g), "")
+	if strings.HasPrefix(shown, "(") && strings.HasSuffix(shown, ")") {
+		shown = "-" + shown[1:len(shown)-1]
+	}
+	if p != digits.Exact {
+		decimals := int(digits.PreserveUpToHundredth)
+		if int(p) > decimals {
+			decimals = int(p)
+		}
+		if dot := strings.IndexRune(value, '.'); dot >= 0 && len(value)-dot-1 > decimals {
+			value = value[:dot+1+decimals]
+		}
+	}
+	shownNumber, ok := new(big.Rat).SetString(shown)
+	if !ok {
+		return false
+	}
+	valueNumber, ok := new(big.Rat).SetString(value)
+	return ok && shownNumber.Cmp(valueNumber) == 0
+}
-- 
2.43.0


From 725a19761bdf72cc9d1448a59ef78ca1820052e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:58 +0000
Subject: [PATCH 29/39] fix: keep the text of text blocks as text

Decoded text was put back into the markup unescaped, CDATA sections were taken
for comments, and a huge colspan repeated its cell without limit.
---
 pkg/renderables/textBlock.go | 62 ++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/pkg/renderables/textBlock.go b/pkg/renderables/textBlock.go
index 5fac5fe..835e691 100644
--- a/pkg/renderables/textBlock.go
+++ b/pkg/renderables/textBlock.go
@@ -21,11 +21,17 @@ func findHtmlAttr(attrs []html.Attribute, attr string) *html.Attribute {
 	return nil
 }
 
+// maxColSpan is the limit that the HTML standard puts on colspan
+const maxColSpan = 1000
+
 func colSpanHelper(attrs []html.Attribute, cb func(int)) {
 	a := findHtmlAttr(attrs, "colspan")
 	if a != nil {
 		colspan, err := strconv.Atoi(a.Val)
 		if err == nil {
+			if colspan > maxColSpan {
+				colspan = maxColSpan
+			}
 			for i := 0; i < colspan-1; i++ {
 				cb(colspan)
 			}
@@ -42,6 +48,28 @@ func colSpan2Helper(stack []int, cb func(int)) {
 	}
 }
 
+// unescapeXml gives the text of XML content, which may have CDATA sections.
+func unescapeXml(inner string) string {
+	const opening, closing = "<![CDATA[", "]]>"
+	ret := strings.Builder{}
+	for {
+		start := strings.Index(inner, opening)
+		if start < 0 {
+			break
+		}
+		ret.WriteString(gohtml.UnescapeString(inner[:start]))
+		inner = inner[start+len(opening):]
+		end := strings.Index(inner, closing)
+		if end < 0 {
+			break
+		}
+		ret.WriteString(inner[:end])
+		inner = inner[end+len(closing):]
+	}
+	ret.WriteString(gohtml.UnescapeString(inner))
+	return ret.String()
+}
+
 func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder) *FactExpression {
 	_, concept, err := cf.HashQuery(fact.Href)
 	if err != nil {
@@ -54,9 +82,9 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 	if !isTextBlock {
 		return nil
 	}
-	r := strings.NewReader(gohtml.UnescapeString(fact.XMLInner))
+	r := strings.NewReader(unescapeXml(fact.XMLInner))
 	tokenizer := html.NewTokenizer(r)
-	tokenized := ""
+	tokenized := strings.Builder{}
 	disableBr := 0
 	thcolspans := make([]int, 0)
 	tdcolspans := make([]int, 0)
@@ -73,20 +101,20 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 			switch token.Data {
 			case "table":
 				disableBr++
-				tokenized += "<table>"
+				tokenized.WriteString("<table>")
 			case "tr":
-				tokenized += "<tr>"
+				tokenized.WriteString("<tr>")
 			case "th":
-				tokenized += "<th>"
+				tokenized.WriteString("<th>")
 				colSpanHelper(token.Attr, func(colspan int) {
 					thcolspans = append(thcolspans, colspan)
-					tokenized += "<th>"
+					tokenized.WriteString("<th>")
 				})
 			case "td":
-				tokenized += "<td>"
+				tokenized.WriteString("<td>")
 				colSpanHelper(token.Attr, func(colspan int) {
 					tdcolspans = append(tdcolspans, colspan)
-					tokenized += "<td>"
+					tokenized.WriteString("<td>")
 				})
 			}
 			if disableBr <= 0 {
@@ -102,7 +130,7 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 				}
 				for _, elem := range blockElems {
 					if elem == token.Data {
-						tokenized += "<br /><br />"
+						tokenized.WriteString("<br /><br />")
 						break
 					}
 				}
@@ -110,32 +138,32 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 		case html.TextToken:
 			data := strings.TrimSpace(token.Data)
 			if len(data) > 0 {
-				tokenized += data + " "
+				tokenized.WriteString(html.EscapeString(data) + " ")
 			}
 		case html.EndTagToken:
 			switch token.Data {
 			case "table":
 				disableBr--
-				tokenized += "</table>"
+				tokenized.WriteString("</table>")
 			case "tr":
-				tokenized += "</tr>"
+				tokenized.WriteString("</tr>")
 			case "th":
-				tokenized += "</th>"
+				tokenized.WriteString("</th>")
 				colSpan2Helper(thcolspans, func(colspan int) {
 					thcolspans = thcolspans[:len(thcolspans)-1]
-					tokenized += "</th>"
+					tokenized.WriteString("</th>")
 				})
 			case "td":
-				tokenized += "</td>"
+				tokenized.WriteString("</td>")
 				colSpan2Helper(tdcolspans, func(colspan int) {
 					tdcolspans = tdcolspans[:len(tdcolspans)-1]
-					tokenized += "</td>"
+					tokenized.WriteString("</td>")
 				})
 			}
 		}
 	}
 
 	return &FactExpression{
-		InnerHtml: tokenized,
+		InnerHtml: tokenized.String(),
 	}
 }
-- 
2.43.0


From 78a15dece2f4384e4788a4bad74c7ea583da8992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:12 +0000
Subject: [PATCH 30/39] fix: ignore white space around names and dates of
 contexts and units

---
 pkg/hydratables/instance.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index 909202e..e335705 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -141,14 +141,15 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 		if len(entity.Identifier) <= 0 {
 			continue
 		}
-		if entity.Identifier[0].CharData == "" {
+		identifier := strings.TrimSpace(entity.Identifier[0].CharData)
+		if identifier == "" {
 			continue
 		}
 		schemeAttr := attr.FindAttr(entity.Identifier[0].XMLAttrs, "scheme")
 		if schemeAttr == nil {
 			continue
 		}
-		newEntity.Identifier.CharData = entity.Identifier[0].CharData
+		newEntity.Identifier.CharData = identifier
 		newEntity.Identifier.Scheme = schemeAttr.Value
 		if len(entity.Segment) > 0 {
 			segment := DimensionContext{}
@@ -167,7 +168,8 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 					if err != nil || dimRef == "" || dimConcept == nil {
 						continue
 					}
-					memName := attr.Xmlns(instanceFile.XMLAttrs, explicitMember.CharData)
+					member := strings.TrimSpace(explicitMember.CharData)
+					memName := attr.Xmlns(instanceFile.XMLAttrs, member)
 					if memName.Space == "" {
 						continue
 					}
@@ -188,7 +190,7 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 							CharData string
 						}{
 							Href:     memRef,
-							CharData: explicitMember.CharData,
+							CharData: member,
 						},
 					}
 					segment.ExplicitMembers = append(segment.ExplicitMembers, newExplicitMember)
@@ -233,14 +235,14 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 		if len(context.Period) > 0 {
 			if len(context.Period[0].Instant) > 0 {
 				instant := Instant{
-					CharData: context.Period[0].Instant[0].CharData,
+					CharData: strings.TrimSpace(context.Period[0].Instant[0].CharData),
 				}
 				item.Period.Instant = instant
 			}
 			if len(context.Period[0].StartDate) > 0 && len(context.Period[0].EndDate) > 0 {
 				duration := Duration{
-					StartDate: context.Period[0].StartDate[0].CharData,
-					EndDate:   context.Period[0].EndDate[0].CharData,
+					StartDate: strings.TrimSpace(context.Period[0].StartDate[0].CharData),
+					EndDate:   strings.TrimSpace(context.Period[0].EndDate[0].CharData),
 				}
 				item.Period.Duration = duration
 			}
@@ -262,7 +264,8 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 					if err != nil || dimRef == "" || dimConcept == nil {
 						continue
 					}
-					memName := attr.Xmlns(instanceFile.XMLAttrs, explicitMember.CharData)
+					member := strings.TrimSpace(explicitMember.CharData)
+					memName := attr.Xmlns(instanceFile.XMLAttrs, member)
 					if memName.Space == "" {
 						continue
 					}
@@ -283,7 +286,7 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 							CharData string
 						}{
 							Href:     memRef,
-							CharData: explicitMember.CharData,
+							CharData: member,
 						},
 					}
 					scenario.ExplicitMembers = append(scenario.ExplicitMembers, newExplicitMember)
@@ -398,12 +401,12 @@ func hydrateUnits(instanceFile *serializables.InstanceFile) []Unit {
 			if len(unit.Divide[0].UnitDenominator[0].Measure) <= 0 || len(unit.Divide[0].UnitNumerator[0].Measure) <= 0 {
 				continue
 			}
-			numeratorPrefixedName := unit.Divide[0].UnitNumerator[0].Measure[0].CharData
+			numeratorPrefixedName := strings.TrimSpace(unit.Divide[0].UnitNumerator[0].Measure[0].CharData)
 			numeratorMeasure := UnitMeasure{
 				XMLName:  attr.Xmlns(instanceFile.XMLAttrs, numeratorPrefixedName),
 				CharData: numeratorPrefixedName,
 			}
-			denominatorPrefixedName := unit.Divide[0].UnitDenominator[0].Measure[0].CharData
+			denominatorPrefixedName := strings.TrimSpace(unit.Divide[0].UnitDenominator[0].Measure[0].CharData)
 			denominatorMeasure := UnitMeasure{
 				XMLName:  attr.Xmlns(instanceFile.XMLAttrs, denominatorPrefixedName),
 				CharData: denominatorPrefixedName,
@@ -418,7 +421,7 @@ func hydrateUnits(instanceFile *serializables.InstanceFile) []Unit {
 			}
 			item.Divide = divide
 		} else {
-			itemPrefixedName := unit.Measure[0].CharData
+			itemPrefixedName := strings.TrimSpace(unit.Measure[0].CharData)
 			item.Measure = UnitMeasure{
 				XMLName:  attr.Xmlns(instanceFile.XMLAttrs, itemPrefixedName),
 				CharData: itemPrefixedName,
-- 
2.43.0


From b85c207520cd54f9fa56c9a8cbcb8141af0e2d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:58 +0000
Subject: [PATCH 31/39] fix: offer the languages of typed domain headers too

---
 pkg/renderables/typedMember.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/renderables/typedMember.go b/pkg/renderables/typedMember.go
index a1c1e6b..8475512 100644
--- a/pkg/renderables/typedMember.go
+++ b/pkg/renderables/typedMember.go
@@ -35,6 +35,7 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 		}
 		taken[typedDomain] = true
 		typedDomainLabel := GetLabel(h, typedDomain)
+		labelPacks = append(labelPacks, typedDomainLabel)
 		ret = append(ret, RelevantMember{
 			Dimension: dimension,
 			TypedDomain: &TypedDomain{
-- 
2.43.0


From 0f64eadfcd69873e3ee3de838e210806aa67f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:00 +0000
Subject: [PATCH 32/39] fix: show calculation weights in full

---
 pkg/renderables/calculationGrid.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/renderables/calculationGrid.go b/pkg/renderables/calculationGrid.go
index 6d68e89..765cc09 100644
--- a/pkg/renderables/calculationGrid.go
+++ b/pkg/renderables/calculationGrid.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 	"math"
 	"sort"
+	"strconv"
+	"strings"
 
 	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/hydratables"
@@ -102,7 +104,7 @@ func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.
 					for _, cstruct := range slice {
 						_, isSummationItem := cMap[cstruct.Href]
 						sign := fmt.Sprintf("%c", cstruct.Sign)
-						scale := fmt.Sprintf("%.1f", cstruct.Scale)
+						scale := formatScale(cstruct.Scale)
 						cLabelPack := GetLabel(h, cstruct.Href)
 						_, concept, err := h.HashQuery(cstruct.Href)
 						if err != nil {
@@ -156,3 +158,12 @@ func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.
 	}
 	return nil, nil, nil
 }
+
+// formatScale shows the whole weight, with one decimal at least.
+func formatScale(scale float64) string {
+	ret := strconv.FormatFloat(scale, 'f', -1, 64)
+	if !strings.Contains(ret, ".") {
+		ret += ".0"
+	}
+	return ret
+}
-- 
2.43.0


From f4bcb94baea01d590226c402c12a4472a8c3e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:22 +0000
Subject: [PATCH 33/39] fix: keep the unit of numbers whose digits cannot be
 computed

---
 pkg/renderables/fact.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/renderables/fact.go b/pkg/renderables/fact.go
index 2c8d4dc..2e4202e 100644
--- a/pkg/renderables/fact.go
+++ b/pkg/renderables/fact.go
@@ -83,11 +83,11 @@ func renderPercent(value string, precision hydratables.Precision, g rune) (*Fact
 
 func renderNumeric(value string, precision hydratables.Precision, g rune) (*FactExpression, error) {
 	p := digits.Precision(int(precision))
-	digit, err := digits.New(p, value, g, digits.PreserveUpToHundredth)
-	if err != nil {
+	if p != digits.Exact && (p <= digits.Trillions || p >= digits.Trillionth) {
 		return nil, fmt.Errorf("failed to convert fact to numeric expression")
 	}
-	if !denotes(digit.Head()+digit.Core()+digit.Tail(), value, p, g) {
+	digit, err := digits.New(p, value, g, digits.PreserveUpToHundredth)
+	if err != nil || !denotes(digit.Head()+digit.Core()+digit.Tail(), value, p, g) {
 		return &FactExpression{
 			Core: value,
 		}, nil
-- 
2.43.0


From 91955732183634e9d52ad596362bbefedc661853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:22 +0000
Subject: [PATCH 34/39] fix: do not take an extreme precision for an exact one

---
 pkg/hydratables/instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index e335705..bd7bb11 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -468,7 +468,7 @@ func hydrateFacts(instanceFile *serializables.InstanceFile, h *Hydratable) []Fac
 				precisionVal = Exact
 			} else {
 				decimal, err := strconv.Atoi(decimalsAttr.Value)
-				if err == nil {
+				if err == nil && decimal > int(Precisionless) {
 					precisionVal = Precision(decimal)
 				}
 			}
-- 
2.43.0


From ee20887e9137dc8f3a47951c7b7f44afe28c4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:22 +0000
Subject: [PATCH 35/39] fix: show periods that begin with a slash raw

---
 pkg/renderables/formatPeriod.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderables/formatPeriod.go b/pkg/renderables/formatPeriod.go
index cfe0e5b..b2c30ff 100644
--- a/pkg/renderables/formatPeriod.go
+++ b/pkg/renderables/formatPeriod.go
@@ -50,7 +50,7 @@ func defaultDate(start string, end string) string {
 func formatDate(lang Lang, date string) string {
 	i := strings.IndexRune(date, '/')
 	var start, end string
-	if i < 0 {
+	if i <= 0 {
 		end = date
 	} else {
 		start = date[:i]
-- 
2.43.0


From bd996fe59e4c63c0151a58dc4e58eb7c9272a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:11 +0000
Subject: [PATCH 36/39] fix: keep the source document as filed when images are
 inlined

The document was parsed and printed again as HTML as soon as the folder held
an image. Self-closed elements such as title swallowed what followed, and
CDATA sections became comments. Now only the image tags are rewritten.
---
 pkg/serializables/image.go | 42 +++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/pkg/serializables/image.go b/pkg/serializables/image.go
index afa32d4..3b467a2 100644
--- a/pkg/serializables/image.go
+++ b/pkg/serializables/image.go
@@ -8,35 +8,39 @@ import (
 )
 
 func TransformInlineImages(src []byte, images map[string]string) []byte {
-	root, err := html.Parse(bytes.NewReader(src))
-	if err != nil {
-		return src
-	}
-
-	replace(root, images)
-	transformed := make([]byte, 0)
-	buf := bytes.NewBuffer(transformed)
-	if err = html.Render(buf, root); err != nil {
-		return src
+	tokenizer := html.NewTokenizer(bytes.NewReader(src))
+	tokenizer.AllowCDATA(true)
+	buf := bytes.NewBuffer(make([]byte, 0, len(src)))
+	for tokenizer.Next() != html.ErrorToken {
+		// everything but the images is kept as it was filed
+		raw := append([]byte{}, tokenizer.Raw()...)
+		token := tokenizer.Token()
+		if token.Type == html.SelfClosingTagToken {
+			tokenizer.NextIsNotRawText()
+		}
+		if replace(&token, images) {
+			buf.WriteString(token.String())
+			continue
+		}
+		buf.Write(raw)
 	}
 	return buf.Bytes()
 }
 
-func replace(n *html.Node, images map[string]string) {
-	if n.Type == html.ElementNode {
-		if n.Data == "img" {
-			for i, myattr := range n.Attr {
+func replace(token *html.Token, images map[string]string) bool {
+	replaced := false
+	if token.Type == html.StartTagToken || token.Type == html.SelfClosingTagToken {
+		if token.Data == "img" {
+			for i, myattr := range token.Attr {
 				if myattr.Key == "src" {
 					value := filepath.Base(myattr.Val)
 					if data, found := images[value]; found {
-						n.Attr[i].Val = data
+						token.Attr[i].Val = data
+						replaced = true
 					}
 				}
 			}
 		}
 	}
-
-	for child := n.FirstChild; child != nil; child = child.NextSibling {
-		replace(child, images)
-	}
+	return replaced
 }
-- 
2.43.0


From 5d3308628907482e873a5d39574fa3772b4fb0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:32 +0000
Subject: [PATCH 37/39] fix: find concepts of a folder whose namespace is also
 imported from a missing URL

---
 pkg/hydratables/query.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/hydratables/query.go b/pkg/hydratables/query.go
index f4609d9..3c5e79a 100644
--- a/pkg/hydratables/query.go
+++ b/pkg/hydratables/query.go
@@ -57,12 +57,14 @@ func (h *Hydratable) NameQuery(namespace string, localName string) (string, *Con
 	if len(schemaLoc) <= 0 {
 		return "", nil, fmt.Errorf("%s is not scoped into the folder", namespace)
 	}
+	var globalErr error
 	if attr.IsValidUrl(schemaLoc) {
 		schema, err := HydrateGlobalSchema(schemaLoc)
 		if err != nil {
-			return "", nil, err
+			globalErr = err
+		} else {
+			concepts = schema.Element
 		}
-		concepts = schema.Element
 	} else {
 		file := h.Folder.Schemas[schemaLoc]
 		schema, err := HydrateSchema(&file, schemaLoc)
@@ -89,7 +91,7 @@ func (h *Hydratable) NameQuery(namespace string, localName string) (string, *Con
 			}
 		}
 	}
-	return "", nil, nil
+	return "", nil, globalErr
 }
 
 func EntityQuery(scheme string, chardata string) (string, error) {
-- 
2.43.0


From 4b5f73dc967270d80c2d3dfbcaa7137504defd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:56 +0000
Subject: [PATCH 38/39] fix: take no elements of foreign namespaces for links,
 locators, arcs, labels, footnotes or parts of contexts

---
 pkg/serializables/calculationLinkbaseFile.go  |  6 +--
 pkg/serializables/definitionLinkbaseFile.go   |  6 +--
 pkg/serializables/instanceFile.go             | 44 +++++++++----------
 pkg/serializables/labelLinkbaseFile.go        |  8 ++--
 pkg/serializables/presentationLinkbaseFile.go |  6 +--
 pkg/serializables/schemaFile.go               |  2 +-
 6 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/pkg/serializables/calculationLinkbaseFile.go b/pkg/serializables/calculationLinkbaseFile.go
index 06ff597..92e3710 100644
--- a/pkg/serializables/calculationLinkbaseFile.go
+++ b/pkg/serializables/calculationLinkbaseFile.go
@@ -21,12 +21,12 @@ type CalculationLinkbaseFile struct {
 		Loc      []struct {
 			XMLName  xml.Name
 			XMLAttrs []xml.Attr `xml:",any,attr"`
-		} `xml:"loc"`
+		} `xml:"http://www.xbrl.org/2003/linkbase loc"`
 		CalculationArc []struct {
 			XMLName  xml.Name
 			XMLAttrs []xml.Attr `xml:",any,attr"`
-		} `xml:"calculationArc"`
-	} `xml:"calculationLink"`
+		} `xml:"http://www.xbrl.org/2003/linkbase calculationArc"`
+	} `xml:"http://www.xbrl.org/2003/linkbase calculationLink"`
 }
 
 func DecodeCalculationLinkbaseFile(xmlData []byte) (*CalculationLinkbaseFile, error) {
diff --git a/pkg/serializables/definitionLinkbaseFile.go b/pkg/serializables/definitionLinkbaseFile.go
index 31617a8..3462c05 100644
--- a/pkg/serializables/definitionLinkbaseFile.go
+++ b/pkg/serializables/definitionLinkbaseFile.go
@@ -21,12 +21,12 @@ type DefinitionLinkbaseFile struct {
 		Loc      []struct {
 			XMLName  xml.Name
 			XMLAttrs []xml.Attr `xml:",any,attr"`
-		} `xml:"loc"`
+		} `xml:"http://www.xbrl.org/2003/linkbase loc"`
 		DefinitionArc []struct {
 			XMLName  xml.Name
 			XMLAttrs []xml.Attr `xml:",any,attr"`
-		} `xml:"definitionArc"`
-	} `xml:"definitionLink"`
+		} `xml:"http://www.xbrl.org/2003/linkbase definitionArc"`
+	} `xml:"http://www.xbrl.org/2003/linkbase definitionLink"`
 }
 
 func DecodeDefinitionLinkbaseFile(xmlData []byte) (*DefinitionLinkbaseFile, error) {
diff --git a/pkg/serializables/instanceFile.go b/pkg/serializables/instanceFile.go
index 9f39c1a..d01983d 100644
--- a/pkg/serializables/instanceFile.go
+++ b/pkg/serializables/instanceFile.go
@@ -25,7 +25,7 @@ type InstanceFile struct {
 				XMLName  xml.Name
 				XMLAttrs []xml.Attr `xml:",any,attr"`
 				CharData string     `xml:",chardata"`
-			} `xml:"identifier"`
+			} `xml:"http://www.xbrl.org/2003/instance identifier"`
 			Segment []struct {
 				XMLName        xml.Name
 				XMLAttrs       []xml.Attr `xml:",any,attr"`
@@ -33,14 +33,14 @@ type InstanceFile struct {
 					XMLName  xml.Name
 					XMLAttrs []xml.Attr `xml:",any,attr"`
 					CharData string     `xml:",chardata"`
-				} `xml:"explicitMember"`
+				} `xml:"http://xbrl.org/2006/xbrldi explicitMember"`
 				TypedMember []struct {
 					XMLName  xml.Name
 					XMLAttrs []xml.Attr `xml:",any,attr"`
 					XMLInner string     `xml:",innerxml"`
-				} `xml:"typedMember"`
-			} `xml:"segment"`
-		} `xml:"entity"`
+				} `xml:"http://xbrl.org/2006/xbrldi typedMember"`
+			} `xml:"http://www.xbrl.org/2003/instance segment"`
+		} `xml:"http://www.xbrl.org/2003/instance entity"`
 		Period []struct {
 			XMLName  xml.Name
 			XMLAttrs []xml.Attr `xml:",any,attr"`
@@ -48,18 +48,18 @@ type InstanceFile struct {
 				XMLName  xml.Name
 				XMLAttrs []xml.Attr `xml:",any,attr"`
 				CharData string     `xml:",chardata"`
-			} `xml:"instant"`
+			} `xml:"http://www.xbrl.org/2003/instance instant"`
 			StartDate []struct {
 				XMLName  xml.Name
 				XMLAttrs []xml.Attr `xml:",any,attr"`
 				CharData string     `xml:",chardata"`
-			} `xml:"startDate"`
+			} `xml:"http://www.xbrl.org/2003/instance startDate"`
 			EndDate []struct {
 				XMLName  xml.Name
 				XMLAttrs []xml.Attr `xml:",any,attr"`
 				CharData string     `xml:",chardata"`
-			} `xml:"endDate"`
-		} `xml:"period"`
+			} `xml:"http://www.xbrl.org/2003/instance endDate"`
+		} `xml:"http://www.xbrl.org/2003/instance period"`
 		Scenario []struct {
 			XMLName        xml.Name
 			XMLAttrs       []xml.Attr `xml:",any,attr"`
@@ -67,13 +67,13 @@ type InstanceFile struct {
 				XMLName  xml.Name
 				XMLAttrs []xml.Attr `xml:",any,attr"`
 				CharData string     `xml:",chardata"`
-			} `xml:"explicitMember"`
+			} `xml:"http://xbrl.org/2006/xbrldi explicitMember"`
 			TypedMember []struct {
 				XMLName  xml.Name
 				XMLAttrs []xml.Attr `xml:",any,attr"`
 				XMLInner string     `xml:",innerxml"`
-			} `xml:"typedMember"`
-		} `xml:"scenario"`
+			} `xml:"http://xbrl.org/2006/xbrldi typedMember"`
+		} `xml:"http://www.xbrl.org/2003/instance scenario"`
 	} `xml:"context"`
 	Unit []struct {
 		XMLName  xml.Name
@@ -82,7 +82,7 @@ type InstanceFile struct {
 			XMLName  xml.Name
 			XMLAttrs []xml.Attr `xml:",any,attr"`
 			CharData string     `xml:",chardata"`
-		} `xml:"measure"`
+		} `xml:"http://www.xbrl.org/2003/instance measure"`
 		Divide []struct {
 			XMLName       xml.Name
 			XMLAttrs      []xml.Attr `xml:",any,attr"`
@@ -92,8 +92,8 @@ type InstanceFile struct {
 				Measure  []struct {
 					XMLName  xml.Name
 					CharData string `xml:",chardata"`
-				} `xml:"measure"`
-			} `xml:"unitNumerator"`
+				} `xml:"http://www.xbrl.org/2003/instance measure"`
+			} `xml:"http://www.xbrl.org/2003/instance unitNumerator"`
 			UnitDenominator []struct {
 				XMLName  xml.Name
 				XMLAttrs []xml.Attr `xml:",any,attr"`
@@ -101,9 +101,9 @@ type InstanceFile struct {
 					XMLName  xml.Name
 					XMLAttrs []xml.Attr `xml:",any,attr"`
 					CharData string     `xml:",chardata"`
-				} `xml:"measure"`
-			} `xml:"unitDenominator"`
-		} `xml:"divide"`
+				} `xml:"http://www.xbrl.org/2003/instance measure"`
+			} `xml:"http://www.xbrl.org/2003/instance unitDenominator"`
+		} `xml:"http://www.xbrl.org/2003/instance divide"`
 	} `xml:"unit"`
 	FootnoteLink []struct {
 		XMLName  xml.Name
@@ -112,15 +112,15 @@ type InstanceFile struct {
 			XMLName  xml.Name
 			XMLAttrs []xml.Attr `xml:",any,attr"`
 			XMLInner string     `xml:",innerxml"`
-		} `xml:"footnote"`
+		} `xml:"http://www.xbrl.org/2003/linkbase footnote"`
 		Loc []struct {
 			XMLAttrs []xml.Attr `xml:",any,attr"`
-		} `xml:"loc"`
+		} `xml:"http://www.xbrl.org/2003/linkbase loc"`
 		FootnoteArc []struct {
 			XMLName  xml.Name
 			XMLAttrs []xml.Attr `xml:",any,attr"`
-		} `xml:"footnoteArc"`
-	} `xml:"footnoteLink"`
+		} `xml:"http://www.xbrl.org/2003/linkbase footnoteArc"`
+	} `xml:"http://www.xbrl.org/2003/linkbase footnoteLink"`
 	Facts []struct {
 		XMLName  xml.Name
 		XMLAttrs []xml.Attr `xml:",any,attr"`
diff --git a/pkg/serializables/labelLinkbaseFile.go b/pkg/serializables/labelLinkbaseFile.go
index 5580bdc..b8bee73 100644
--- a/pkg/serializables/labelLinkbaseFile.go
+++ b/pkg/serializables/labelLinkbaseFile.go
@@ -21,17 +21,17 @@ type LabelLinkbaseFile struct {
 		Loc      []struct {
 			XMLName  xml.Name
 			XMLAttrs []xml.Attr `xml:",any,attr"`
-		} `xml:"loc"`
+		} `xml:"http://www.xbrl.org/2003/linkbase loc"`
 		Label []struct {
 			XMLName  xml.Name
 			XMLAttrs []xml.Attr `xml:",any,attr"`
 			CharData string     `xml:",chardata"`
-		} `xml:"label"`
+		} `xml:"http://www.xbrl.org/2003/linkbase label"`
 		LabelArc []struct {
 			XMLName  xml.Name
 			XMLAttrs []xml.Attr `xml:",any,attr"`
-		} `xml:"labelArc"`
-	} `xml:"labelLink"`
+		} `xml:"http://www.xbrl.org/2003/linkbase labelArc"`
+	} `xml:"http://www.xbrl.org/2003/linkbase labelLink"`
 }
 
 func DecodeLabelLinkbaseFile(xmlData []byte) (*LabelLinkbaseFile, error) {
diff --git a/pkg/serializables/presentationLinkbaseFile.go b/pkg/serializables/presentationLinkbaseFile.go
index cbc5142..5090ed8 100644
--- a/pkg/serializables/presentationLinkbaseFile.go
+++ b/pkg/serializables/presentationLinkbaseFile.go
@@ -21,12 +21,12 @@ type PresentationLinkbaseFile struct {
 		Loc      []struct {
 			XMLName  xml.Name
 			XMLAttrs []xml.Attr `xml:",any,attr"`
-		} `xml:"loc"`
+		} `xml:"http://www.xbrl.org/2003/linkbase loc"`
 		PresentationArc []struct {
 			XMLName  xml.Name
 			XMLAttrs []xml.Attr `xml:",any,attr"`
-		} `xml:"presentationArc"`
-	} `xml:"presentationLink"`
+		} `xml:"http://www.xbrl.org/2003/linkbase presentationArc"`
+	} `xml:"http://www.xbrl.org/2003/linkbase presentationLink"`
 }
 
 func DecodePresentationLinkbaseFile(xmlData []byte) (*PresentationLinkbaseFile, error) {
diff --git a/pkg/serializables/schemaFile.go b/pkg/serializables/schemaFile.go
index 97e5f8a..f7086f9 100644
--- a/pkg/serializables/schemaFile.go
+++ b/pkg/serializables/schemaFile.go
@@ -46,7 +46,7 @@ type SchemaFile struct {
 					XMLName  xml.Name
 					XMLAttrs []xml.Attr `xml:",any,attr"`
 					CharData string     `xml:",chardata"`
-				} `xml:"definition"`
+				} `xml:"http://www.xbrl.org/2003/linkbase definition"`
 				UsedOn []struct {
 					XMLName  xml.Name
 					XMLAttrs []xml.Attr `xml:",any,attr"`
-- 
2.43.0


From e63a77d01b495869fefbfef741c6c4201bed76a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:33 +0000
Subject: [PATCH 39/39] fix: show the whole text of a typed member that
 comments or CDATA sections cut

---
 pkg/hydratables/instance.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index bd7bb11..c2a14cd 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -342,6 +342,7 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 	arcs := make([]TypedDomainArc, 0)
 	order := 0
 	stack := []string{dimensionHref}
+	text := ""
 	for {
 		token, err := d.Token()
 		if err == io.EOF {
@@ -368,10 +369,14 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 				Order: float64(order),
 			})
 			stack = append(stack, href)
+			text = ""
 		case xml.EndElement:
 			stack = stack[:len(stack)-1]
+			text = ""
 		case xml.CharData:
-			str := strings.TrimSpace(string(elem))
+			// comments and CDATA sections cut a text into pieces
+			text += string(elem)
+			str := strings.TrimSpace(text)
 			if str != "" && len(stack) > 1 {
 				retMap[top] = str
 			}
-- 
2.43.0

