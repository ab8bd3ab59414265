From fcac5a8685846ef314f31d19f8592d3d07459b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:48 +0000
Subject: [PATCH 01/37] fix: try the remaining patterns when a branch of the
 path matcher fails

Match gave up (404) when the last URL segment matched a non leaf node, or when
a greedy node could not be completed, although another registered pattern
matched the URL.
---
 router/path/matcher.go | 135 +++++++++++++----------------------------
 1 file changed, 41 insertions(+), 94 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 2c963d5..d8e1e84 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -6,11 +6,6 @@ import (
 	"strings"
 )
 
-type stackSegment struct {
-	currentNodeChildren uint16
-	urlSegmentIndex     uint8
-}
-
 type node struct {
 	maxMatchableSegments uint8
 	priority             uint64
@@ -152,100 +147,52 @@ func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 	if len(mc.PathSegments) == 0 && m.rootPathMatcher != nil {
 		return m.rootPathMatcher
 	}
-	var treeDepth int
-	urlLen := uint8(len(mc.PathSegments))
-	nodeStack := make([]stackSegment, MaxPathSegments)
-	urlSegmentMatchTypeStack := make([]MatchType, MaxPathSegments)
-	currentNode := m.trieRoot
-	var urlSegmentIndex uint8
-	for urlSegmentIndex < urlLen {
-		var matched bool
-		urlSegment := &mc.PathSegments[urlSegmentIndex]
-		//urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
-		if urlSegmentMatchTypeStack[urlSegmentIndex] != 0 {
-			urlSegment.matchType = urlSegmentMatchTypeStack[urlSegmentIndex]
-		}
+	pattern := m.matchChildren(m.trieRoot, urlPath, mc.PathSegments, 0)
+	if pattern != nil {
+		mc.matchedPattern = pattern
+	}
+	return pattern
+}
 
-		children := currentNode.children
-		childrenLen := uint16(len(children))
-		for ci := nodeStack[treeDepth].currentNodeChildren; ci < childrenLen; ci++ {
-			childNode := children[ci]
-			if !childNode.canMatchPathWithLength(urlLen - urlSegmentIndex) {
-				continue
-			}
-			urlSegmentMatchType := childNode.segment.matchUrlPathSegment(urlPath, urlSegment, m.caseInsensitive)
-			if urlSegmentMatchType == MatchTypeMultipleSegments {
-				greedyChildren := childNode.children
-				greedyChildrenLen := len(greedyChildren)
-				if greedyChildrenLen == 0 && childNode.isLeaf() {
-					//fill until the end the remained URL segments with MatchTypeMultipleSegments match type
-					for i := urlSegmentIndex; i < urlLen; i++ {
-						urlSegment := &mc.PathSegments[i]
-						urlSegment.matchType = MatchTypeMultipleSegments
-					}
-					mc.matchedPattern = childNode.pattern
-					return childNode.pattern
-				}
-				for urlSegmentIndex < urlLen {
-					urlSegment := &mc.PathSegments[urlSegmentIndex]
-					urlSegment.matchType = MatchTypeMultipleSegments
-					for gci := 0; gci < greedyChildrenLen; gci++ {
-						greedyChildNode := greedyChildren[gci]
-						if greedyChildNode.segment.matchUrlPathSegment(urlPath, urlSegment, m.caseInsensitive) != MatchTypeUnknown {
-							nodeStack[treeDepth] = stackSegment{
-								currentNodeChildren: ci,
-								urlSegmentIndex:     urlSegmentIndex + 1,
-							}
-							urlSegmentMatchTypeStack[urlSegmentIndex] = MatchTypeMultipleSegments
-							matched = true
-							treeDepth++
-							urlSegmentIndex-- //the urlSegmentIndex should not be increased. We have to decrease it here because will be increased at the end of the main loop
-							currentNode = childNode
-							goto END
-						}
-					}
-					urlSegmentIndex++
-				}
-				return nil
-			} else if urlSegmentMatchType != MatchTypeUnknown {
-				urlSegment.matchType = urlSegmentMatchType
-				if urlSegmentIndex == urlLen-1 {
-					if childNode.isLeaf() {
-						mc.matchedPattern = childNode.pattern
-						return childNode.pattern
-					}
-					goto END
-				}
-				matched = true
-				urlSegment.matchType = urlSegmentMatchType
-				nodeStack[treeDepth] = stackSegment{
-					currentNodeChildren: ci + 1,
-					urlSegmentIndex:     urlSegmentIndex,
+// matchChildren matches the URL segments starting at urlSegmentIndex against the children of currentNode, the most
+// specific child first. A child whose branch can not match all the remaining URL segments is abandoned, and the next
+// one is tried, hence a pattern that matches the URL is never missed.
+func (m *Matcher) matchChildren(currentNode *node, urlPath string, urlSegments []UrlSegment, urlSegmentIndex int) *Pattern {
+	urlLen := len(urlSegments)
+	if urlSegmentIndex >= urlLen {
+		return nil
+	}
+	for _, childNode := range currentNode.children {
+		if !childNode.canMatchPathWithLength(uint8(urlLen - urlSegmentIndex)) {
+			continue
+		}
+		urlSegment := &urlSegments[urlSegmentIndex]
+		urlSegmentMatchType := childNode.segment.matchUrlPathSegment(urlPath, urlSegment, m.caseInsensitive)
+		if urlSegmentMatchType == MatchTypeUnknown {
+			continue
+		}
+		if urlSegmentMatchType == MatchTypeMultipleSegments {
+			// the greedy segment consumes as few URL segments as possible
+			for i := urlSegmentIndex; i < urlLen; i++ {
+				if pattern := m.matchChildren(childNode, urlPath, urlSegments, i); pattern != nil {
+					return pattern
 				}
-				treeDepth++
-				currentNode = childNode
-				goto END
+				urlSegments[i].matchType = MatchTypeMultipleSegments
 			}
-		}
-
-	END:
-		if matched {
-			if urlSegmentIndex == urlLen-1 && currentNode.isLeaf() {
-				mc.matchedPattern = currentNode.pattern
-				return currentNode.pattern
+			if childNode.isLeaf() {
+				return childNode.pattern
 			}
-			urlSegmentIndex++
-		} else {
-			if currentNode.parent != nil {
-				//stack cleanup
-				urlSegmentMatchTypeStack[urlSegmentIndex] = 0
-				nodeStack[treeDepth] = stackSegment{}
-				treeDepth--
-				urlSegmentIndex = nodeStack[treeDepth].urlSegmentIndex
-				currentNode = currentNode.parent
-			} else {
-				break
+			continue
+		}
+		urlSegment.matchType = urlSegmentMatchType
+		if urlSegmentIndex == urlLen-1 {
+			if childNode.isLeaf() {
+				return childNode.pattern
 			}
+			continue
+		}
+		if pattern := m.matchChildren(childNode, urlPath, urlSegments, urlSegmentIndex+1); pattern != nil {
+			return pattern
 		}
 	}
 	return nil
-- 
2.43.0


From 1bf2e9e44389ee8614ec20cf3892f5efe5fd384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:48 +0000
Subject: [PATCH 02/37] fix: detect duplicated patterns that contain
 constrained path variables

The compiled constraint was compared with the raw segment ({name:regex}), so
the same constrained variable was never recognised.
---
 router/path/matcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index d8e1e84..3daa4da 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -76,7 +76,7 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 					child.segment.matchType == MatchTypeMultipleSegments {
 					hasSameVal = true
 				} else if child.segment.matchType == MatchTypeConstraintCaptureVar {
-					hasSameVal = segment.captureVarPattern.String() == child.segment.val
+					hasSameVal = segment.captureVarPattern.String() == child.segment.captureVarPattern.String()
 				} else {
 					if m.caseInsensitive {
 						hasSameVal = strings.EqualFold(segment.val, child.segment.val)
-- 
2.43.0


From d4c21f1399f433debe6523e913aef50767b2d326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:52 +0000
Subject: [PATCH 03/37] fix: make the path match precedence independent of the
 registration order

A trie node kept the priority of the first pattern registered through it, so
the order in which the patterns were registered could change the match.
---
 router/path/matcher.go | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 3daa4da..3dce92e 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -89,6 +89,11 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 					if child.maxMatchableSegments < maxMatchableSegments {
 						child.maxMatchableSegments = maxMatchableSegments
 					}
+					if pattern.priority < child.priority {
+						// a shared node has the priority of its most specific pattern, no matter the registration order
+						child.priority = pattern.priority
+						m.sortNodes(children)
+					}
 					currentNode = child
 					found = true
 					if currentNode.parent != nil {
@@ -111,14 +116,7 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 				newNode.pattern = pattern
 			}
 			children = append(children, newNode)
-			sort.SliceStable(children, func(i, j int) bool {
-				iChild := children[i]
-				jChild := children[j]
-				if iChild.priority == jChild.priority {
-					return strings.Compare(iChild.segment.val, jChild.segment.val) <= 0
-				}
-				return iChild.priority < jChild.priority
-			})
+			m.sortNodes(children)
 			currentNode.children = children
 			currentNode = newNode
 			newNode.maxMatchableSegments = maxMatchableSegments
@@ -140,6 +138,31 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 	return nil
 }
 
+// sortNodes sorts the sibling nodes from the most specific to the most generic. The order depends only on the patterns
+// that are registered, and not on their registration order.
+func (m *Matcher) sortNodes(nodes []*node) {
+	sortVal := func(s *segment) string {
+		if s.matchType == MatchTypeConstraintCaptureVar {
+			return s.captureVarPattern.String()
+		}
+		if m.caseInsensitive {
+			return strings.ToLower(s.val)
+		}
+		return s.val
+	}
+	sort.SliceStable(nodes, func(i, j int) bool {
+		iNode := nodes[i]
+		jNode := nodes[j]
+		if iNode.segment.matchType != jNode.segment.matchType {
+			return iNode.segment.matchType < jNode.segment.matchType
+		}
+		if iNode.priority != jNode.priority {
+			return iNode.priority < jNode.priority
+		}
+		return sortVal(iNode.segment) < sortVal(jNode.segment)
+	})
+}
+
 func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 	if len(mc.PathSegments) > MaxPathSegments {
 		return nil
-- 
2.43.0


From ab698f2c5d7b32d9fbc4c4aa33554c48b2e7b73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:24 +0000
Subject: [PATCH 04/37] fix: match the wildcard path segments as documented

A trailing * did not match zero characters, a*bc panicked with index out of
range for abxb, and ? matched a byte instead of a character.
---
 router/path/pattern.go | 114 ++++++++++++-----------------------------
 1 file changed, 33 insertions(+), 81 deletions(-)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index a8ac019..3619498 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 const greedyPatternMaxMatchableSegments = math.MaxUint8
@@ -177,96 +178,47 @@ func ParsePattern(pathPattern string, caseInsensitive bool) (*Pattern, error) {
 	}, nil
 }
 
+// regexSegmentMatch checks if the URL path segment matches the pattern segment, where * matches zero or more characters
+// and ? matches exactly one character
 func regexSegmentMatch(urlPathSegment string, patternSegment string, caseInsensitive bool) bool {
-	var hasStar bool
-	patternSegmentLen := len(patternSegment)
-	urlPathSegmentLen := len(urlPathSegment)
-	for i := 0; i < patternSegmentLen; i++ {
-		if patternSegment[i] == '*' {
-			hasStar = true
-			break
-		}
-	}
-	if !hasStar && urlPathSegmentLen != patternSegmentLen {
-		return false
-	}
-
-	runesMatches := func(uc uint8, pc uint8) bool {
-		if pc == '?' {
-			return true
-		}
-		if caseInsensitive {
-			return unicode.ToUpper(rune(uc)) == unicode.ToUpper(rune(pc))
-		} else {
-			return uc == pc
-		}
-	}
-
 	var pIndex int
 	var uIndex int
-	var checkPointRestore bool
+	// the position after the last * found in pattern, and the URL segment position where the matching should be resumed
 	pIndexCheckPoint := -1
 	uIndexCheckPoint := -1
-	for {
-		if pIndex == patternSegmentLen && uIndex == urlPathSegmentLen {
-			return true
-		}
-		if pIndex == patternSegmentLen || uIndex == urlPathSegmentLen {
-			checkPointRestore = true
-		}
-
-		if checkPointRestore {
-			// no checkpoint, meaning that no greedy character found
-			if pIndexCheckPoint == -1 || uIndexCheckPoint == -1 {
-				return false
-			}
-			pIndex = pIndexCheckPoint
-			uIndex = uIndexCheckPoint + 1
-		}
-
-		checkPointRestore = false
-		uc := urlPathSegment[uIndex]
-		pc := patternSegment[pIndex]
-		if pc == '?' {
-			pIndex++
-			uIndex++
-		} else if pc == '*' {
-			//skip the next * if exists (example ab****)
-			for i := pIndex + 1; i < patternSegmentLen; i++ {
-				if patternSegment[i] != '*' {
-					pIndex = i - 1
-					break
-				}
-			}
-
-			if pIndex == patternSegmentLen-1 {
-				//the * is the last character in the pattern and matches the rest of the text
-				return true
-			}
-
-			pIndexCheckPoint = -1
-			uIndexCheckPoint = -1
-			pc = patternSegment[pIndex+1]
-			for ; uIndex < urlPathSegmentLen; uIndex++ {
-				uc = urlPathSegment[uIndex]
-				if runesMatches(uc, pc) {
-					// we save the checkpoint and we continue with the next matching
-					pIndexCheckPoint = pIndex
-					uIndexCheckPoint = uIndex
-					pIndex++
-					break
-				}
-			}
-		} else {
-			if runesMatches(uc, pc) {
+	patternSegmentLen := len(patternSegment)
+	urlPathSegmentLen := len(urlPathSegment)
+	for uIndex < urlPathSegmentLen {
+		uc, ucLen := utf8.DecodeRuneInString(urlPathSegment[uIndex:])
+		if pIndex < patternSegmentLen {
+			pc, pcLen := utf8.DecodeRuneInString(patternSegment[pIndex:])
+			if pc == '*' {
 				pIndex++
-				uIndex++
-			} else {
-				checkPointRestore = true
+				pIndexCheckPoint = pIndex
+				uIndexCheckPoint = uIndex
+				continue
 			}
+			if pc == '?' || urlPathSegment[uIndex:uIndex+ucLen] == patternSegment[pIndex:pIndex+pcLen] ||
+				(caseInsensitive && unicode.ToUpper(uc) == unicode.ToUpper(pc)) {
+				pIndex += pcLen
+				uIndex += ucLen
+				continue
+			}
+		}
+		// no checkpoint, meaning that no * found
+		if pIndexCheckPoint == -1 {
+			return false
 		}
+		// the last * consumes one more character
+		_, ucLen = utf8.DecodeRuneInString(urlPathSegment[uIndexCheckPoint:])
+		uIndexCheckPoint += ucLen
+		pIndex = pIndexCheckPoint
+		uIndex = uIndexCheckPoint
 	}
-
+	for pIndex < patternSegmentLen && patternSegment[pIndex] == '*' {
+		pIndex++
+	}
+	return pIndex == patternSegmentLen
 }
 
 func determineMatchTypeForSegment(pathSegment string) MatchType {
-- 
2.43.0


From 811a84da4c7b47e05618d4cadfa5fe74e5b9af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:25 +0000
Subject: [PATCH 05/37] fix: route the URL paths longer than 65535 bytes

The segment positions were truncated to 16 bits, so the segments of a longer
path were read from wrong positions or the slicing panicked.
---
 router/path/matching_context.go | 8 ++++----
 router/path/pattern.go          | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index 065baea..73e0c9b 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -15,8 +15,8 @@ func (cv *CaptureVar) String() string {
 }
 
 type UrlSegment struct {
-	startIndex uint16
-	endIndex   uint16
+	startIndex int
+	endIndex   int
 	matchType  MatchType
 }
 
@@ -112,8 +112,8 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 				}
 
 				mc.PathSegments[segmentsIndex] = UrlSegment{
-					startIndex: uint16(startIndex),
-					endIndex:   uint16(endIndex),
+					startIndex: startIndex,
+					endIndex:   endIndex,
 				}
 				segmentsIndex++
 			}
diff --git a/router/path/pattern.go b/router/path/pattern.go
index 3619498..018142f 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -22,7 +22,7 @@ type segment struct {
 func (s *segment) matchUrlPathSegment(urlPath string, urlSegment *UrlSegment, caseInsensitive bool) MatchType {
 	matchType := s.matchType
 	if matchType == MatchTypeLiteral {
-		if int(urlSegment.endIndex-urlSegment.startIndex) == len(s.val) {
+		if urlSegment.endIndex-urlSegment.startIndex == len(s.val) {
 			urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
 			if caseInsensitive {
 				if strings.EqualFold(urlSegmentVal, s.val) {
-- 
2.43.0


From 42cb5a3a4b5bdace6505dc398403f511d3870968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 06/37] fix: answer 404 when the URL path has more than 19
 segments

Such a request was treated as a request for the root path.
---
 router/path/matching_context.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index 73e0c9b..bd01be8 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -5,6 +5,10 @@ import (
 	"net/url"
 )
 
+// tooManyPathSegments is set on the matching context when the URL path has more than MaxPathSegments segments. It is
+// never matched by a Matcher
+var tooManyPathSegments = make([]UrlSegment, MaxPathSegments+1)
+
 type CaptureVar struct {
 	Name  string
 	Value string
@@ -126,7 +130,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 		if ch == '/' {
 			if segmentStartPos != -1 {
 				if !addSegment(segmentStartPos, pos) {
-					mc.PathSegments = nil
+					mc.PathSegments = tooManyPathSegments
 					return
 				}
 			}
@@ -136,7 +140,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 
 	if segmentStartPos != -1 && segmentStartPos < pathLen {
 		if !addSegment(segmentStartPos, pathLen) {
-			mc.PathSegments = nil
+			mc.PathSegments = tooManyPathSegments
 			return
 		}
 	}
-- 
2.43.0


From f2bda1f772d00c4ba82560b1adee5c57c7e10f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:12 +0000
Subject: [PATCH 07/37] fix: reject the path patterns with more than 19
 segments

The segments counter is 8 bits wide: a pattern with 256 segments or more was
silently registered as another, shorter, pattern. As for the URL paths, the
documented limit is 19 segments.
---
 router/path/pattern.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index 018142f..7edb776 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -124,6 +124,9 @@ func ParsePattern(pathPattern string, caseInsensitive bool) (*Pattern, error) {
 				return nil, fmt.Errorf("invalid path pattern: [%s], failed path segment validation: [%s], err: %w", pathPattern, segmentVal, err)
 			}
 
+			if pathSegmentsCount == MaxPathSegments {
+				return nil, fmt.Errorf("invalid path pattern: [%s], not allowed to have more than %d path segments", pathPattern, MaxPathSegments)
+			}
 			pathSegmentStart = pos
 			segmentMatchType := determineMatchTypeForSegment(segmentVal)
 			if lastSegmentMatchType == MatchTypeMultipleSegments && segmentMatchType == MatchTypeMultipleSegments {
-- 
2.43.0


From 686bd0d0811898864698a0e31e64d95bedf0116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:46 +0000
Subject: [PATCH 08/37] fix: write the custom headers and cookies of a redirect
 response

They were silently dropped, hence a middleware could not add a cookie or a
security header to a redirect.
---
 response/headers.go  | 41 +++++++++++++++++++----------------------
 response/redirect.go |  1 +
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/response/headers.go b/response/headers.go
index 37cfb76..6e1d0dc 100644
--- a/response/headers.go
+++ b/response/headers.go
@@ -36,46 +36,43 @@ func (r *HttpHeadersResponse) Cookies() HttpCookies {
 }
 
 func (r *HttpHeadersResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
-	defer func() {
-		if r.HttpHeaders != nil {
-			r.HttpHeaders.Release()
-		}
-		if r.HttpCookies != nil {
-			r.HttpCookies.Release()
-		}
-	}()
-
 	statusCode := r.StatusCode()
 	if statusCode < 100 || statusCode > 999 {
 		return errors.New("http status code should be between 100 and 999")
 	}
 
+	r.writeHeadersAndCookies(w)
+
+	header := w.Header()
+	if len(header.Get(HeaderContentType)) == 0 && len(r.ContentType) > 0 {
+		header.Set(HeaderContentType, r.ContentType)
+	}
+	if len(header.Get(HeaderContentTypeOptions)) == 0 {
+		header.Set(HeaderContentTypeOptions, "nosniff")
+	}
+
+	// Write the status code to the response.
+	w.WriteHeader(statusCode)
+	return nil
+}
+
+func (r *HttpHeadersResponse) writeHeadersAndCookies(w http.ResponseWriter) {
 	// Write the cookies
 	if r.HttpCookies != nil {
 		for _, cookie := range r.HttpCookies {
 			http.SetCookie(w, cookie)
 		}
+		r.HttpCookies.Release()
 	}
 
-	header := w.Header()
-
 	// Write the headers
 	if r.HttpHeaders != nil {
+		header := w.Header()
 		for k, v := range r.HttpHeaders {
 			header.Set(k, v)
 		}
+		r.HttpHeaders.Release()
 	}
-
-	if len(header.Get(HeaderContentType)) == 0 && len(r.ContentType) > 0 {
-		header.Set(HeaderContentType, r.ContentType)
-	}
-	if len(header.Get(HeaderContentTypeOptions)) == 0 {
-		header.Set(HeaderContentTypeOptions, "nosniff")
-	}
-
-	// Write the status code to the response.
-	w.WriteHeader(statusCode)
-	return nil
 }
 
 // InternalServerErrorHttpResponse writes the http.StatusInternalServerError HTTP status code to the client
diff --git a/response/redirect.go b/response/redirect.go
index 634adf3..25438a0 100644
--- a/response/redirect.go
+++ b/response/redirect.go
@@ -12,6 +12,7 @@ type HttpRedirectResponse struct {
 }
 
 func (r *HttpRedirectResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
+	r.writeHeadersAndCookies(w)
 	http.Redirect(w, mc.R, r.Url, r.HttpStatusCode)
 	return nil
 }
-- 
2.43.0


From 142a563c34b76976c9cb0457368f6c1e96aa03ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 09/37] fix: do not keep the headers and cookies of a response
 after their release in pool

The maps released in pool were still referenced by the response, so what was
read or written through it afterwards belonged to another response.
---
 response/headers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/response/headers.go b/response/headers.go
index 6e1d0dc..294ce7c 100644
--- a/response/headers.go
+++ b/response/headers.go
@@ -63,6 +63,7 @@ func (r *HttpHeadersResponse) writeHeadersAndCookies(w http.ResponseWriter) {
 			http.SetCookie(w, cookie)
 		}
 		r.HttpCookies.Release()
+		r.HttpCookies = nil
 	}
 
 	// Write the headers
@@ -72,6 +73,7 @@ func (r *HttpHeadersResponse) writeHeadersAndCookies(w http.ResponseWriter) {
 			header.Set(k, v)
 		}
 		r.HttpHeaders.Release()
+		r.HttpHeaders = nil
 	}
 }
 
-- 
2.43.0


From 0fa12f776b811074a91b179333b1d775e72045c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:20 +0000
Subject: [PATCH 10/37] fix: send the SSE Cache-Control and Connection headers

They were set after the response headers were written, so they never reached
the client.
---
 response/sse.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/response/sse.go b/response/sse.go
index f679c02..ddbcf40 100644
--- a/response/sse.go
+++ b/response/sse.go
@@ -73,15 +73,15 @@ func (r *HttpSSEResponse) Write(w http.ResponseWriter, mc path.MatchingContext)
 		return ErrNotHttp2Request
 	}
 
+	header := w.Header()
+	header.Set("Cache-Control", "no-cache")
+	header.Set("Connection", "keep-alive")
+
 	// write the headers
 	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {
 		return err
 	}
 
-	header := w.Header()
-	header.Set("Cache-Control", "no-cache")
-	header.Set("Connection", "keep-alive")
-
 	defer r.flushResponse(w)
 	// get the last event id that was sent
 	lastEventId := mc.R.Header.Get(headerLastEventId)
-- 
2.43.0


From bb34d6bca79ceee2033148c156ac35b638463b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:22 +0000
Subject: [PATCH 11/37] fix: keep the SSE framing when the event fields contain
 line breaks

A line break in the data, name or id of an event ended the field, so the rest
of the value was parsed by the client as other fields or events.
---
 response/sse.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/response/sse.go b/response/sse.go
index ddbcf40..ce716fc 100644
--- a/response/sse.go
+++ b/response/sse.go
@@ -15,6 +15,10 @@ const eventStreamContentType = "text/event-stream"
 
 var ErrNotHttp2Request = errors.New("rejected, not a HTTP/2 request")
 
+// the line breaks recognised by a SSE client are: CRLF, LF and CR
+var lineBreaksRemover = strings.NewReplacer("\r", "", "\n", "")
+var lineBreaksNormalizer = strings.NewReplacer("\r\n", "\n", "\r", "\n")
+
 // ServerSentEvent defines the server-sent event fields. More about server-sent events can be found here: https://developer.mozilla.org/en-US/docs/Web/API/Server-sent_events/Using_server-sent_events
 type ServerSentEvent struct {
 	// A string identifying the type of event described
@@ -32,7 +36,7 @@ func (evt ServerSentEvent) String() string {
 	var sb strings.Builder
 	if evt.Name != "" {
 		sb.WriteString("event: ")
-		sb.WriteString(evt.Name)
+		sb.WriteString(lineBreaksRemover.Replace(evt.Name))
 		startDataWithNewLine = true
 	}
 	for _, data := range evt.Data {
@@ -42,11 +46,12 @@ func (evt ServerSentEvent) String() string {
 		} else {
 			sb.WriteString("\ndata: ")
 		}
-		sb.WriteString(data)
+		// each line of the value should have its own data field, and the client will join them back
+		sb.WriteString(strings.ReplaceAll(lineBreaksNormalizer.Replace(data), "\n", "\ndata: "))
 	}
 	if evt.Id != "" {
 		sb.WriteString("\nid: ")
-		sb.WriteString(evt.Id)
+		sb.WriteString(lineBreaksRemover.Replace(evt.Id))
 	}
 	if evt.Retry > 0 {
 		sb.WriteString("\nretry: ")
-- 
2.43.0


From e04b926025b0eef0d161c5e00da2c24490677be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:23 +0000
Subject: [PATCH 12/37] fix: flush the client response when a compressed
 response is flushed

The compressed data remained in the server buffers, so the events of a
compressed SSE response did not reach the client until the stream ended.
---
 response/compress.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/response/compress.go b/response/compress.go
index 9e3c587..f7a40a7 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -114,4 +114,7 @@ func (c *compressResponseWriter) WriteHeader(statusCode int) {
 
 func (c *compressResponseWriter) Flush() {
 	c.compressWriter.Flush()
+	if flusher, ok := c.origResponseWriter.(http.Flusher); ok {
+		flusher.Flush()
+	}
 }
-- 
2.43.0


From 704d55149e95748f0c70ab42b843a27b20b7e8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:26 +0000
Subject: [PATCH 13/37] fix: answer 500 when a JSON payload can not be
 marshalled

The success status code was sent before the payload was marshalled.
---
 response/json.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/response/json.go b/response/json.go
index 85a2a28..9634672 100644
--- a/response/json.go
+++ b/response/json.go
@@ -20,22 +20,23 @@ type HttpJsonResponse struct {
 }
 
 func (r *HttpJsonResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
-	// write the headers
-	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {
-		return err
-	}
-
 	var err error
 	var payload []byte
 	if r.Payload != nil {
 		payload, err = json.Marshal(r.Payload)
 		if err != nil {
+			w.WriteHeader(http.StatusInternalServerError)
 			return fmt.Errorf("failed to marshal JSON response, err: %w", err)
 		}
 	} else {
 		payload = emptyJson
 	}
 
+	// write the headers
+	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {
+		return err
+	}
+
 	// write the JSON response
 	if _, err := w.Write(payload); err != nil {
 		return fmt.Errorf("failed to write the JSON response, err: %w", err)
-- 
2.43.0


From 129f2235dc73a6106736426c352d47d660c689a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:28 +0000
Subject: [PATCH 14/37] fix: answer 500 when the response has an invalid HTTP
 status code

Nothing was written, so the client received an empty 200 response.
---
 response/headers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/response/headers.go b/response/headers.go
index 294ce7c..8d31237 100644
--- a/response/headers.go
+++ b/response/headers.go
@@ -38,6 +38,7 @@ func (r *HttpHeadersResponse) Cookies() HttpCookies {
 func (r *HttpHeadersResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
 	statusCode := r.StatusCode()
 	if statusCode < 100 || statusCode > 999 {
+		w.WriteHeader(http.StatusInternalServerError)
 		return errors.New("http status code should be between 100 and 999")
 	}
 
-- 
2.43.0


From 945a75ac57fc17baec19bddfd80fa993b47b3d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:30 +0000
Subject: [PATCH 15/37] fix: keep the first character of a JSON error message
 valid

The first byte was upper cased, which corrupted the multi byte characters.
---
 response/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/response/json.go b/response/json.go
index 9634672..7606b25 100644
--- a/response/json.go
+++ b/response/json.go
@@ -7,6 +7,7 @@ import (
 
 	"net/http"
 	"strings"
+	"unicode/utf8"
 )
 
 const jsonContentType = "application/json"
@@ -113,5 +114,6 @@ func errorToString(err error) string {
 		return ""
 	}
 	errMsg := err.Error()
-	return strings.ToUpper(errMsg[0:1]) + errMsg[1:]
+	_, firstCharLen := utf8.DecodeRuneInString(errMsg)
+	return strings.ToUpper(errMsg[:firstCharLen]) + errMsg[firstCharLen:]
 }
-- 
2.43.0


From a375ae4ca95fc2c9a95520c8ad94723077b8bfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:02 +0000
Subject: [PATCH 16/37] fix: announce the content encoding only for the
 responses that are compressed

The Content-Encoding header was decided before the response was written, while
the body was always compressed: a body already encoded by the application was
encoded twice under a single encoding name, http.Error removed the header but
not the encoding (a static resource not found), a partial content was
compressed, and the responses without a body were announced as compressed.
---
 response/compress.go | 56 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/response/compress.go b/response/compress.go
index f7a40a7..51b2f1b 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -52,22 +52,26 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 		if err == nil {
 			delete(r.Headers(), acceptEncodingHeaderName)
 			w.Header().Set(contentEncodingHeaderName, compressAlg)
-			w = &compressResponseWriter{
+			crw := &compressResponseWriter{
 				origResponseWriter: w,
 				compressWriter:     cw,
+				compressAlg:        compressAlg,
 			}
-			defer cw.Close()
+			defer crw.Close()
+			w = crw
 		}
 	} else if compressAlg == "deflate" {
 		cw, err := flate.NewWriter(w, r.compressionLevel)
 		if err == nil {
 			delete(r.Headers(), acceptEncodingHeaderName)
 			w.Header().Set(contentEncodingHeaderName, compressAlg)
-			w = &compressResponseWriter{
+			crw := &compressResponseWriter{
 				origResponseWriter: w,
 				compressWriter:     cw,
+				compressAlg:        compressAlg,
 			}
-			defer cw.Close()
+			defer crw.Close()
+			w = crw
 		}
 	}
 	return r.httpResponse.Write(w, mc)
@@ -93,11 +97,15 @@ func getCompressionAlgorithmFromHeaderValue(acceptEncodingHeaderNameVal string)
 type compressWriter interface {
 	Write(bytes []byte) (int, error)
 	Flush() error
+	Close() error
 }
 
 type compressResponseWriter struct {
 	origResponseWriter http.ResponseWriter
 	compressWriter     compressWriter
+	compressAlg        string
+	headerWritten      bool
+	compress           bool
 }
 
 func (c *compressResponseWriter) Header() http.Header {
@@ -105,16 +113,54 @@ func (c *compressResponseWriter) Header() http.Header {
 }
 
 func (c *compressResponseWriter) Write(bytes []byte) (int, error) {
+	if !c.headerWritten {
+		c.WriteHeader(http.StatusOK)
+	}
+	if !c.compress {
+		return c.origResponseWriter.Write(bytes)
+	}
 	return c.compressWriter.Write(bytes)
 }
 
 func (c *compressResponseWriter) WriteHeader(statusCode int) {
+	if !c.headerWritten && (statusCode >= 200 || statusCode == http.StatusSwitchingProtocols) {
+		c.headerWritten = true
+		header := c.Header()
+		contentEncoding := header.Get(contentEncodingHeaderName)
+		// the responses without a body, the partial ones, and those already encoded are sent as they are
+		c.compress = (contentEncoding == "" || contentEncoding == c.compressAlg) &&
+			header.Get("Content-Range") == "" &&
+			statusCode >= 200 && statusCode != http.StatusNoContent && statusCode != http.StatusNotModified
+		if c.compress {
+			header.Set(contentEncodingHeaderName, c.compressAlg)
+			header.Del("Content-Length")
+		} else if contentEncoding == c.compressAlg {
+			header.Del(contentEncodingHeaderName)
+		}
+	}
 	c.origResponseWriter.WriteHeader(statusCode)
 }
 
 func (c *compressResponseWriter) Flush() {
-	c.compressWriter.Flush()
+	if !c.headerWritten {
+		c.WriteHeader(http.StatusOK)
+	}
+	if c.compress {
+		c.compressWriter.Flush()
+	}
 	if flusher, ok := c.origResponseWriter.(http.Flusher); ok {
 		flusher.Flush()
 	}
 }
+
+// Close writes the remaining compressed data. If nothing was written then the response has no body to be compressed
+func (c *compressResponseWriter) Close() error {
+	if !c.headerWritten {
+		c.Header().Del(contentEncodingHeaderName)
+		return nil
+	}
+	if !c.compress {
+		return nil
+	}
+	return c.compressWriter.Close()
+}
-- 
2.43.0


From b3b5168f4283dbeb1eb62de7efef02b0c4ba2608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:12 +0000
Subject: [PATCH 17/37] fix: recognise the same origin requests received by a
 server

The URL of a request received by a server has no scheme and host, so the
requests of the site itself were handled as cross-origin ones and rejected when
the site was not listed as an allowed origin. The non default ports were never
recognised as being the same.
---
 middleware/cors.go | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index f59d445..4b465f4 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -247,7 +247,7 @@ func getRequestType(r *http.Request) corsRequestType {
 	originHeader := r.Header.Get(requestHeaderOrigin)
 	if !isValidOrigin(originHeader) {
 		return invalidCorsRequestType
-	} else if isSameOrigin(r.URL, originHeader) {
+	} else if isSameOrigin(getTargetUrl(r), originHeader) {
 		return notCorsRequestType
 	} else {
 		switch r.Method {
@@ -301,32 +301,35 @@ func isSameOrigin(reqUrl *url.URL, origin string) bool {
 	}
 
 	scheme := strings.ToLower(reqUrl.Scheme)
-	var sb strings.Builder
-	sb.WriteString(scheme)
-	sb.WriteString("://")
-	sb.WriteString(reqUrl.Host)
+	defaultPort := "80"
+	if scheme == "https" || scheme == "wss" {
+		defaultPort = "443"
+	}
 
 	port := reqUrl.Port()
+	target := scheme + "://" + strings.TrimSuffix(reqUrl.Host, ":"+port)
 	if port == "" {
-		if scheme == "https" || scheme == "wss" {
-			port = "443"
-		} else {
-			port = "80"
-		}
-	}
-	if sb.Len() == len(origin) {
-		// origin and target can only be equal if both are using default ports
-		if ((scheme == "http" || scheme == "ws") && port != "80") ||
-			((scheme == "https" || scheme == "wss") && port != "443") {
-			return false
-		}
-	} else {
-		sb.WriteString(":")
-		sb.WriteString(port)
+		port = defaultPort
 	}
 
 	// the CORS spec states this check should be case-sensitive
-	return sb.String() == origin
+	return target+":"+port == origin || (port == defaultPort && target == origin)
+}
+
+// getTargetUrl returns the request URL, including the scheme and the host which are missing from the URL of the requests
+// received by a server
+func getTargetUrl(r *http.Request) *url.URL {
+	if r.URL.Host != "" || r.Host == "" {
+		return r.URL
+	}
+	scheme := r.URL.Scheme
+	if scheme == "" {
+		scheme = "http"
+		if r.TLS != nil {
+			scheme = "https"
+		}
+	}
+	return &url.URL{Scheme: scheme, Host: r.Host}
 }
 
 func getMediaType(contentType string) string {
-- 
2.43.0


From 7fb7f24bf757f6d217a5c8e2cfd380380934fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:45 +0000
Subject: [PATCH 18/37] fix: ignore the headers set on a response that does not
 support them

The hijack response has a nil headers map, so the Cors and SecurityHeaders
middlewares panicked when the handler returned it.
---
 response/response.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/response/response.go b/response/response.go
index 14c92b4..1314a51 100644
--- a/response/response.go
+++ b/response/response.go
@@ -25,6 +25,10 @@ var httpHeadersPool = sync.Pool{
 type HttpHeaders map[string]string
 
 func (h HttpHeaders) Set(key string, val string) {
+	if h == nil {
+		// the response does not support custom headers (for example HttpHijackConnectionResponse)
+		return
+	}
 	h[key] = val
 }
 
-- 
2.43.0


From 84a49d45e9564a3072056419b05f163d455b70de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 19/37] fix: remove the data race from the SecurityHeaders
 middleware

The header values were lazily built and stored, without synchronization, while
the requests were served. Now, they are built when the middleware is created.
---
 middleware/security.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/middleware/security.go b/middleware/security.go
index 968f0ce..e6cf564 100644
--- a/middleware/security.go
+++ b/middleware/security.go
@@ -80,6 +80,8 @@ type SecurityHeadersConfig struct {
 
 // SecurityHeaders provides some security HTTP headers to the response
 func SecurityHeaders(config SecurityHeadersConfig) Middleware {
+	stsHeaderValue := config.STS.getHeaderValue()
+	antiClickJackingHeaderValue := config.ClickJacking.getAntiClickJackingHeaderValue()
 	return func(handler handler.Handler) handler.Handler {
 		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
 			httpResponse, err := handler(ctx, mc)
@@ -90,12 +92,12 @@ func SecurityHeaders(config SecurityHeadersConfig) Middleware {
 			// HSTS
 			isRequestSecure := mc.R.TLS != nil || strings.ToLower(mc.R.URL.Scheme) == "https"
 			if config.STS.Enabled && isRequestSecure {
-				httpResponse.Headers().Set(stsHeaderName, config.STS.getHeaderValue())
+				httpResponse.Headers().Set(stsHeaderName, stsHeaderValue)
 			}
 
 			// anti click-jacking
 			if config.ClickJacking.Enabled {
-				httpResponse.Headers().Set(antiClickJackingHeaderName, config.ClickJacking.getAntiClickJackingHeaderValue())
+				httpResponse.Headers().Set(antiClickJackingHeaderName, antiClickJackingHeaderValue)
 			}
 
 			// Block content type sniffing
-- 
2.43.0


From 3843c8b5c716fe135577b5b77f71f3c641269eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 20/37] fix: send the X-Frame-Options value of the configured
 XFrameOption

When XFrameOptionHeaderValue was not set, an empty X-Frame-Options header was
sent, which browsers ignore.
---
 middleware/security.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/middleware/security.go b/middleware/security.go
index e6cf564..9d44cff 100644
--- a/middleware/security.go
+++ b/middleware/security.go
@@ -61,7 +61,18 @@ type ShClickJackingConfig struct {
 func (c *ShClickJackingConfig) getAntiClickJackingHeaderValue() string {
 	if c.headerValue == "" {
 		var sb strings.Builder
-		sb.WriteString(c.XFrameOptionHeaderValue)
+		headerValue := c.XFrameOptionHeaderValue
+		if headerValue == "" {
+			switch c.XFrameOption {
+			case XFrameOptionDeny:
+				headerValue = "DENY"
+			case XFrameOptionSameOrigin:
+				headerValue = "SAMEORIGIN"
+			case XFrameOptionAllowFrom:
+				headerValue = "ALLOW-FROM"
+			}
+		}
+		sb.WriteString(headerValue)
 		if c.XFrameOption == XFrameOptionAllowFrom {
 			sb.WriteRune(' ')
 			sb.WriteString(c.XFrameAllowFromUri)
-- 
2.43.0


From e98912b20994e21ef1408fac6a42b71243c5e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:48 +0000
Subject: [PATCH 21/37] fix: recover from a nil panic

Before Go 1.21, or with GODEBUG=panicnil=1, recover returns nil for panic(nil),
so the handler was considered completed, with a nil response and a nil error.
---
 middleware/panic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/middleware/panic.go b/middleware/panic.go
index 64c7325..d310bf7 100644
--- a/middleware/panic.go
+++ b/middleware/panic.go
@@ -14,12 +14,15 @@ import (
 func PanicRecover() Middleware {
 	return func(handler handler.Handler) handler.Handler {
 		return func(ctx context.Context, mc path.MatchingContext) (resp response.HttpResponse, err error) {
+			panicked := true
 			defer func() {
-				if r := recover(); r != nil {
+				if r := recover(); r != nil || panicked {
+					resp = nil
 					err = fmt.Errorf("recover from panic, stack: [%s]", string(debug.Stack()))
 				}
 			}()
 			resp, err = handler(ctx, mc)
+			panicked = false
 			return resp, err
 		}
 	}
-- 
2.43.0


From a2acacdd7c6a134e7b331a650cf45c89f24b1f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:30 +0000
Subject: [PATCH 22/37] fix: make the in memory cache safe for concurrent use

The requests are served concurrently, and the unsynchronized map accesses end
with a fatal error: concurrent map read and map write.
---
 cache/cache.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 75c262b..5606f98 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -1,6 +1,9 @@
 package cache
 
-import "time"
+import (
+	"sync"
+	"time"
+)
 
 // The Cache interface defines the methods that a cache implementation should have
 type Cache interface {
@@ -14,6 +17,7 @@ type Cache interface {
 
 // InMemory is a simple Cache implementation used for testing and examples
 type InMemory struct {
+	mu    sync.RWMutex
 	cache map[string]time.Time
 }
 
@@ -22,15 +26,21 @@ func NewInMemory() *InMemory {
 }
 
 func (i *InMemory) Add(key string, expiresIn time.Duration) error {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	i.cache[key] = time.Now().Add(expiresIn)
 	return nil
 }
 
 func (i *InMemory) Remove(key string) {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	delete(i.cache, key)
 }
 
 func (i *InMemory) Contains(key string) bool {
+	i.mu.RLock()
+	defer i.mu.RUnlock()
 	t, found := i.cache[key]
 	return found && time.Now().Before(t)
 }
-- 
2.43.0


From d9685b0c84dd2b08976b9cf2c6561740c0904562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:31 +0000
Subject: [PATCH 23/37] fix: read the CSRF nonce from the request form

The form was never parsed, so the nonce sent as a form parameter was not found
and the request was rejected.
---
 middleware/csrf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/csrf.go b/middleware/csrf.go
index 8e9dc85..dead3c4 100644
--- a/middleware/csrf.go
+++ b/middleware/csrf.go
@@ -47,7 +47,7 @@ func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonc
 			if !skipNonceCheck {
 				previousNonce := mc.R.Header.Get(csrfRestNonceHeaderName)
 				if previousNonce == "" {
-					previousNonce = mc.R.Form.Get(csrfNonceRequestParamName)
+					previousNonce = mc.R.FormValue(csrfNonceRequestParamName)
 				}
 				if previousNonce == "" || !nonceCache.Contains(previousNonce) {
 					return nil, errors.ErrAccessDenied
-- 
2.43.0


From fe5b8e8a83b8aef55b34d5525cd49257da3b2d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:32 +0000
Subject: [PATCH 24/37] fix: accept a CSRF nonce only once when it is used
 concurrently

The nonce check and its removal were not atomic, so concurrent requests with
the same nonce were all accepted.
---
 middleware/csrf.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/middleware/csrf.go b/middleware/csrf.go
index dead3c4..bc5a211 100644
--- a/middleware/csrf.go
+++ b/middleware/csrf.go
@@ -12,6 +12,7 @@ import (
 	"github.com/ixtendio/gofre/response"
 	"net/http"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -49,10 +50,9 @@ func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonc
 				if previousNonce == "" {
 					previousNonce = mc.R.FormValue(csrfNonceRequestParamName)
 				}
-				if previousNonce == "" || !nonceCache.Contains(previousNonce) {
+				if previousNonce == "" || !consumeNonce(nonceCache, previousNonce) {
 					return nil, errors.ErrAccessDenied
 				}
-				nonceCache.Remove(previousNonce)
 			}
 
 			newNonce, err := generateNonce()
@@ -68,6 +68,23 @@ func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonc
 	}
 }
 
+// noncesInUse keeps the nonces that are being consumed
+var noncesInUse sync.Map
+
+// consumeNonce removes the nonce from cache and returns true if the nonce was valid. When the same nonce is consumed
+// concurrently, at most one of the calls returns true
+func consumeNonce(nonceCache cache.Cache, nonce string) bool {
+	if _, inUse := noncesInUse.LoadOrStore(nonce, true); inUse {
+		return false
+	}
+	defer noncesInUse.Delete(nonce)
+	if !nonceCache.Contains(nonce) {
+		return false
+	}
+	nonceCache.Remove(nonce)
+	return true
+}
+
 func generateNonce() (string, error) {
 	var sb strings.Builder
 
-- 
2.43.0


From 4a6b703325438597568d978d4ce2c43e8d62fe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:33 +0000
Subject: [PATCH 25/37] fix: generate an unguessable OAUTH2 state

The state protects against cross-site request forgery but it was generated
using math/rand, which is predictable.
---
 gofre.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gofre.go b/gofre.go
index a971934..918e437 100644
--- a/gofre.go
+++ b/gofre.go
@@ -2,6 +2,7 @@ package gofre
 
 import (
 	"context"
+	"crypto/rand"
 	"expvar"
 	"fmt"
 	"github.com/ixtendio/gofre/auth"
@@ -15,7 +16,7 @@ import (
 	"github.com/ixtendio/gofre/router"
 	"html/template"
 	"log"
-	"math/rand"
+	"math/big"
 	"net/http"
 	"net/http/pprof"
 	"unsafe"
@@ -358,7 +359,11 @@ var uniqueIdFunc = generateUniqueId
 func generateUniqueId(length int) string {
 	b := make([]byte, length)
 	for i := range b {
-		b[i] = randLetters[rand.Int63()%int64(len(randLetters))]
+		n, err := rand.Int(rand.Reader, big.NewInt(int64(len(randLetters))))
+		if err != nil {
+			panic(fmt.Sprintf("failed to generate a random value, err: %v", err))
+		}
+		b[i] = randLetters[n.Int64()]
 	}
 	return *(*string)(unsafe.Pointer(&b))
 }
-- 
2.43.0


From ed511fd3e1ad5ebf5b057c86072cf06b833e006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:05 +0000
Subject: [PATCH 26/37] fix: accept an OAUTH2 state only once

The state was not removed from the cache when the flow was completed, so the
redirect could be replayed until the state expired.
---
 gofre.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/gofre.go b/gofre.go
index 918e437..95696d6 100644
--- a/gofre.go
+++ b/gofre.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"github.com/ixtendio/gofre/auth"
 	"github.com/ixtendio/gofre/auth/oauth"
+	"github.com/ixtendio/gofre/cache"
 	"github.com/ixtendio/gofre/errors"
 	"github.com/ixtendio/gofre/handler"
 	"github.com/ixtendio/gofre/middleware"
@@ -19,6 +20,7 @@ import (
 	"math/big"
 	"net/http"
 	"net/http/pprof"
+	"sync"
 	"unsafe"
 )
 
@@ -245,7 +247,7 @@ func (m *MuxHandler) HandleOAUTH2WithCustomPaths(initiatePath string,
 		}
 
 		state := mc.R.FormValue("state")
-		if cache != nil && !cache.Contains(state) {
+		if cache != nil && !consumeOAuth2State(cache, state) {
 			return nil, errors.ErrUnauthorizedRequest
 
 		}
@@ -352,6 +354,23 @@ func wrapMiddleware(handler handler.Handler, middlewares ...middleware.Middlewar
 	return wrappedHandlers
 }
 
+// oauth2StatesInUse keeps the OAUTH2 states that are being consumed
+var oauth2StatesInUse sync.Map
+
+// consumeOAuth2State removes the state from cache and returns true if the state was valid. When the same state is
+// consumed concurrently, at most one of the calls returns true
+func consumeOAuth2State(c cache.Cache, state string) bool {
+	if _, inUse := oauth2StatesInUse.LoadOrStore(state, true); inUse {
+		return false
+	}
+	defer oauth2StatesInUse.Delete(state)
+	if !c.Contains(state) {
+		return false
+	}
+	c.Remove(state)
+	return true
+}
+
 const randLetters = "abcdefghijklmnopqrstuvwxyz1234567890"
 
 var uniqueIdFunc = generateUniqueId
-- 
2.43.0


From 8a1a605eef34e53599ba32e984c54673c9a4f41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:06 +0000
Subject: [PATCH 27/37] fix: return an error when an OAUTH2 provider sends an
 unexpected response

GitHub answers 200 with an error object when the authorization code is wrong or
expired, which ended with a panic. The same for any missing or non string
access token, token type or user id.
---
 auth/oauth/github.go | 18 ++++++++++++++----
 auth/oauth/google.go | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index 9eaac47..d0a8182 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -83,9 +83,17 @@ func (p GitHubProvider) FetchAccessToken(ctx context.Context, redirectUri string
 	}
 
 	if resp.StatusCode/100 == 2 {
+		token, ok := result["access_token"].(string)
+		if !ok || token == "" {
+			if errMsg, found := result["error"]; found {
+				return AccessToken{}, fmt.Errorf("failed to get the OAUTH2 access token response from: %s, err: %v", p.Name(), errMsg)
+			}
+			return AccessToken{}, fmt.Errorf("the access token is missing from the OAUTH2 access token response from: %s", p.Name())
+		}
+		tokenType, _ := result["token_type"].(string)
 		accessToken := AccessToken{
-			AccessToken: result["access_token"].(string),
-			TokenType:   result["token_type"].(string),
+			AccessToken: token,
+			TokenType:   tokenType,
 		}
 
 		if scope, ok := result["scope"].(string); ok {
@@ -124,10 +132,12 @@ func (p GitHubProvider) FetchAuthenticatedUser(ctx context.Context, accessToken
 	if resp.StatusCode/100 == 2 {
 		var id string
 		var name string
-		if email, ok := result["email"].(string); ok {
+		if email, ok := result["email"].(string); ok && email != "" {
 			id = email
+		} else if userId, ok := result["login"].(string); ok && userId != "" {
+			id = userId
 		} else {
-			id = result["login"].(string)
+			return auth.User{}, fmt.Errorf("the user id is missing from the user details response from: %s", p.Name())
 		}
 		if n, ok := result["name"].(string); ok {
 			name = n
diff --git a/auth/oauth/google.go b/auth/oauth/google.go
index aadd90f..deeca7e 100644
--- a/auth/oauth/google.go
+++ b/auth/oauth/google.go
@@ -104,9 +104,17 @@ func (p GoogleProvider) FetchAccessToken(ctx context.Context, redirectUri string
 	}
 
 	if resp.StatusCode/100 == 2 {
+		token, ok := result["access_token"].(string)
+		if !ok || token == "" {
+			if errMsg, found := result["error"]; found {
+				return AccessToken{}, fmt.Errorf("failed to get the OAUTH2 access token response from: %s, err: %v", p.Name(), errMsg)
+			}
+			return AccessToken{}, fmt.Errorf("the access token is missing from the OAUTH2 access token response from: %s", p.Name())
+		}
+		tokenType, _ := result["token_type"].(string)
 		accessToken := AccessToken{
-			AccessToken: result["access_token"].(string),
-			TokenType:   result["token_type"].(string),
+			AccessToken: token,
+			TokenType:   tokenType,
 		}
 
 		if refreshToken, ok := result["refresh_token"].(string); ok {
@@ -153,10 +161,12 @@ func (p GoogleProvider) FetchAuthenticatedUser(ctx context.Context, accessToken
 	if resp.StatusCode/100 == 2 {
 		var id string
 		var name string
-		if email, ok := result["email"].(string); ok {
+		if email, ok := result["email"].(string); ok && email != "" {
 			id = email
+		} else if userId, ok := result["id"].(string); ok && userId != "" {
+			id = userId
 		} else {
-			id = result["id"].(string)
+			return auth.User{}, fmt.Errorf("the user id is missing from the user details response from: %s", p.Name())
 		}
 		if n, ok := result["name"].(string); ok {
 			name = n
-- 
2.43.0


From 80708f15203a5ba0e5e6428cc4d6b17c4438413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:07 +0000
Subject: [PATCH 28/37] fix: request the GitHub user scope when the user
 details should be fetched

The user scope was not sent when the provider had no other scopes. Also, the
append to the provider scopes could write in the array shared by all requests.
---
 auth/oauth/github.go | 4 ++--
 auth/oauth/google.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index d0a8182..855018e 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -42,7 +42,7 @@ func (p GitHubProvider) Name() string {
 func (p GitHubProvider) InitiateUrl(redirectUri string, state string, includeUserInfoProfileScope bool) string {
 	scopes := p.Scopes
 	if includeUserInfoProfileScope {
-		scopes = append(scopes, GitHubUserInfoProfileScopes...)
+		scopes = append(scopes[:len(scopes):len(scopes)], GitHubUserInfoProfileScopes...)
 	}
 	urlValues := url.Values{
 		"client_id":    {p.ClientId},
@@ -53,7 +53,7 @@ func (p GitHubProvider) InitiateUrl(redirectUri string, state string, includeUse
 	if p.Login != "" {
 		urlValues.Add("login", p.Login)
 	}
-	if len(p.Scopes) > 0 {
+	if len(scopes) > 0 {
 		urlValues.Add("scope", strings.Join(scopes, " "))
 	}
 	return GitHubAuthorizeEndpoint + "?" + urlValues.Encode()
diff --git a/auth/oauth/google.go b/auth/oauth/google.go
index deeca7e..ad5302b 100644
--- a/auth/oauth/google.go
+++ b/auth/oauth/google.go
@@ -49,7 +49,7 @@ func (p GoogleProvider) InitiateUrl(redirectUri string, state string, includeUse
 	scopes := p.Scopes
 	if includeUserInfoProfileScope {
 		//openid email profile
-		scopes = append(scopes, GoogleUserInfoScopes...)
+		scopes = append(scopes[:len(scopes):len(scopes)], GoogleUserInfoScopes...)
 	}
 	urlValues := url.Values{
 		"client_id":              {p.ClientId},
-- 
2.43.0


From 93750ff76ac306f9737002852f04d00349b2eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:27 +0000
Subject: [PATCH 29/37] fix: do not extend a permission scope to levels it does
 not have

The last level of the scope was compared with all the remaining levels, so, for
example, the scope 'a' implied 'a/a'. Only a generic (*) last level covers the
more specific levels.
---
 auth/auth.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/auth/auth.go b/auth/auth.go
index 44a5e4a..4acc9f8 100644
--- a/auth/auth.go
+++ b/auth/auth.go
@@ -113,6 +113,8 @@ func (p Permission) Implies(anotherPermission Permission) bool {
 		if j < len(pScopeParts) {
 			s = pScopeParts[j]
 			j++
+		} else if s != "*" {
+			return false
 		}
 
 		if s != "*" && s != si {
-- 
2.43.0


From db09ee5b31e9e95a952a91aab2364268f0114f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:29 +0000
Subject: [PATCH 30/37] fix: deny the access when a part of it is denied by the
 role

A denied permission was ignored when the requested permission included other
accesses too: denying Delete and allowing everything granted Read|Delete.
---
 auth/auth.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/auth/auth.go b/auth/auth.go
index 4acc9f8..570d6a1 100644
--- a/auth/auth.go
+++ b/auth/auth.go
@@ -140,7 +140,13 @@ type Role struct {
 // HasPermission returns true if the current Role has the Permission
 func (r Role) HasPermission(permission Permission) bool {
 	for i := 0; i < len(r.DeniedPermissions); i++ {
-		if r.DeniedPermissions[i].Implies(permission) {
+		deniedPermission := r.DeniedPermissions[i]
+		if deniedPermission.Implies(permission) {
+			return false
+		}
+		// a part of the requested access is denied
+		deniedAccess := deniedPermission.Access & permission.Access
+		if deniedAccess != 0 && deniedPermission.Implies(Permission{Scope: permission.Scope, Access: deniedAccess}) {
 			return false
 		}
 	}
-- 
2.43.0


From 8cdcce99a3c1848668222ba5155ed895907a89b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:52 +0000
Subject: [PATCH 31/37] fix: create a nested handler when the path prefix is
 the same as the parent one

RouteUsingPathPrefix returned the parent itself, so the prefix was not
concatenated and the middlewares of the nested handler were added to the parent.
---
 gofre.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gofre.go b/gofre.go
index 95696d6..5644e86 100644
--- a/gofre.go
+++ b/gofre.go
@@ -167,7 +167,7 @@ func (m *MuxHandler) Clone() *MuxHandler {
 // RouteUsingPathPrefix creates a new MuxHandler that will inherit all the settings from the parent, excepting the path prefix which will be concatenated to the parent path prefix.
 // One important aspect to the new MuxHandler is that, the new added common middlewares will not be shared with the parent.
 func (m *MuxHandler) RouteUsingPathPrefix(pathPrefix string) *MuxHandler {
-	if len(pathPrefix) == 0 || pathPrefix == m.pathPrefix {
+	if len(pathPrefix) == 0 {
 		return m
 	}
 	return &MuxHandler{
-- 
2.43.0


From 3c5c48977f2693da3a8944bc17b48e1f54bd731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:59 +0000
Subject: [PATCH 32/37] fix: report the failure to write the end of a
 compressed response

---
 response/compress.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/response/compress.go b/response/compress.go
index 51b2f1b..ba3f3c2 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -4,6 +4,7 @@ import (
 	"compress/flate"
 	"compress/gzip"
 	"errors"
+	"fmt"
 	"github.com/ixtendio/gofre/router/path"
 
 	"net/http"
@@ -43,7 +44,7 @@ func (r *HttpCompressResponse) Cookies() HttpCookies {
 	return r.httpResponse.Cookies()
 }
 
-func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
+func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingContext) (writeErr error) {
 	// detect what compression algorithm to use
 	compressAlg := getCompressionAlgorithmFromHeaderValue(mc.R.Header.Get(acceptEncodingHeaderName))
 
@@ -57,7 +58,7 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 				compressWriter:     cw,
 				compressAlg:        compressAlg,
 			}
-			defer crw.Close()
+			defer closeCompressWriter(crw, &writeErr)
 			w = crw
 		}
 	} else if compressAlg == "deflate" {
@@ -70,13 +71,20 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 				compressWriter:     cw,
 				compressAlg:        compressAlg,
 			}
-			defer crw.Close()
+			defer closeCompressWriter(crw, &writeErr)
 			w = crw
 		}
 	}
 	return r.httpResponse.Write(w, mc)
 }
 
+// closeCompressWriter writes the remaining compressed data, and reports the failure if the response was successfully written so far
+func closeCompressWriter(crw *compressResponseWriter, err *error) {
+	if closeErr := crw.Close(); closeErr != nil && *err == nil {
+		*err = fmt.Errorf("failed to write the compressed response, err: %w", closeErr)
+	}
+}
+
 func getCompressionAlgorithmFromHeaderValue(acceptEncodingHeaderNameVal string) string {
 	encArr := strings.Split(strings.ToLower(acceptEncodingHeaderNameVal), ",")
 	for _, enc := range encArr {
-- 
2.43.0


From 11ed29dd544827b2b9a05ea2fd0d9a39190e8c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:40 +0000
Subject: [PATCH 33/37] fix: do not compress again the responses which are
 already encoded with the negotiated algorithm

---
 response/compress.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/response/compress.go b/response/compress.go
index ba3f3c2..856d654 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -52,7 +52,6 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 		cw, err := gzip.NewWriterLevel(w, r.compressionLevel)
 		if err == nil {
 			delete(r.Headers(), acceptEncodingHeaderName)
-			w.Header().Set(contentEncodingHeaderName, compressAlg)
 			crw := &compressResponseWriter{
 				origResponseWriter: w,
 				compressWriter:     cw,
@@ -65,7 +64,6 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 		cw, err := flate.NewWriter(w, r.compressionLevel)
 		if err == nil {
 			delete(r.Headers(), acceptEncodingHeaderName)
-			w.Header().Set(contentEncodingHeaderName, compressAlg)
 			crw := &compressResponseWriter{
 				origResponseWriter: w,
 				compressWriter:     cw,
@@ -134,16 +132,13 @@ func (c *compressResponseWriter) WriteHeader(statusCode int) {
 	if !c.headerWritten && (statusCode >= 200 || statusCode == http.StatusSwitchingProtocols) {
 		c.headerWritten = true
 		header := c.Header()
-		contentEncoding := header.Get(contentEncodingHeaderName)
 		// the responses without a body, the partial ones, and those already encoded are sent as they are
-		c.compress = (contentEncoding == "" || contentEncoding == c.compressAlg) &&
+		c.compress = header.Get(contentEncodingHeaderName) == "" &&
 			header.Get("Content-Range") == "" &&
 			statusCode >= 200 && statusCode != http.StatusNoContent && statusCode != http.StatusNotModified
 		if c.compress {
 			header.Set(contentEncodingHeaderName, c.compressAlg)
 			header.Del("Content-Length")
-		} else if contentEncoding == c.compressAlg {
-			header.Del(contentEncodingHeaderName)
 		}
 	}
 	c.origResponseWriter.WriteHeader(statusCode)
@@ -163,10 +158,6 @@ func (c *compressResponseWriter) Flush() {
 
 // Close writes the remaining compressed data. If nothing was written then the response has no body to be compressed
 func (c *compressResponseWriter) Close() error {
-	if !c.headerWritten {
-		c.Header().Del(contentEncodingHeaderName)
-		return nil
-	}
 	if !c.compress {
 		return nil
 	}
-- 
2.43.0


From 1c06a7aa615663aa79e9c664d9c563a6d59d6635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:00 +0000
Subject: [PATCH 34/37] fix: do not announce the length of an empty compressed
 body for the HEAD responses without a body

---
 response/compress.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/response/compress.go b/response/compress.go
index 856d654..d25764e 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -56,6 +56,7 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 				origResponseWriter: w,
 				compressWriter:     cw,
 				compressAlg:        compressAlg,
+				headRequest:        mc.R.Method == http.MethodHead,
 			}
 			defer closeCompressWriter(crw, &writeErr)
 			w = crw
@@ -68,6 +69,7 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 				origResponseWriter: w,
 				compressWriter:     cw,
 				compressAlg:        compressAlg,
+				headRequest:        mc.R.Method == http.MethodHead,
 			}
 			defer closeCompressWriter(crw, &writeErr)
 			w = crw
@@ -110,7 +112,9 @@ type compressResponseWriter struct {
 	origResponseWriter http.ResponseWriter
 	compressWriter     compressWriter
 	compressAlg        string
+	headRequest        bool
 	headerWritten      bool
+	bodyWritten        bool
 	compress           bool
 }
 
@@ -125,6 +129,7 @@ func (c *compressResponseWriter) Write(bytes []byte) (int, error) {
 	if !c.compress {
 		return c.origResponseWriter.Write(bytes)
 	}
+	c.bodyWritten = true
 	return c.compressWriter.Write(bytes)
 }
 
@@ -158,7 +163,8 @@ func (c *compressResponseWriter) Flush() {
 
 // Close writes the remaining compressed data. If nothing was written then the response has no body to be compressed
 func (c *compressResponseWriter) Close() error {
-	if !c.compress {
+	// when the body of a HEAD response is omitted, the length of an empty compressed body should not be announced
+	if !c.compress || (c.headRequest && !c.bodyWritten) {
 		return nil
 	}
 	return c.compressWriter.Close()
-- 
2.43.0


From 4824d45904dbcd9cc874d2d689d22eceea657c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:28 +0000
Subject: [PATCH 35/37] fix: check all the Access-Control-Request-Headers lines
 of a preflight request

---
 middleware/cors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index 4b465f4..168182f 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -152,7 +152,7 @@ func addPreFlightCorsHeaders(r *http.Request, responseHeaders response.HttpHeade
 	}
 
 	// Section 6.2.4
-	accessControlRequestHeadersHeader := strings.TrimSpace(r.Header.Get(requestHeaderAccessControlRequestHeaders))
+	accessControlRequestHeadersHeader := strings.Join(r.Header.Values(requestHeaderAccessControlRequestHeaders), ",")
 	for _, h := range strings.Split(accessControlRequestHeadersHeader, ",") {
 		h = strings.TrimSpace(h)
 		if h != "" && !config.containsAllowedHeaderCaseInsensitive(strings.TrimSpace(h)) {
-- 
2.43.0


From f89bf2ae680be97bc0cb92e1e64c017ab02177ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:18 +0000
Subject: [PATCH 36/37] fix: dump the request headers as they were before
 processing

---
 middleware/dump.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/dump.go b/middleware/dump.go
index 0217f7f..fab6a92 100644
--- a/middleware/dump.go
+++ b/middleware/dump.go
@@ -29,7 +29,7 @@ func RequestDumper(logger func(val string)) Middleware {
 			requestMap["contentLength"] = mc.R.ContentLength
 			requestMap["host"] = mc.R.Host
 			requestMap["isSecure"] = mc.R.TLS != nil
-			requestMap["header"] = mc.R.Header
+			requestMap["header"] = mc.R.Header.Clone()
 			requestMap["formFields"] = mc.R.Form
 			var cookies []string
 			for _, c := range mc.R.Cookies() {
-- 
2.43.0


From 01ecc739ab1365a87d044b2237c967c7e6042d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:53 +0000
Subject: [PATCH 37/37] fix: keep the path variables when a middleware rewrites
 the URL of the request

---
 router/path/matcher.go          | 1 +
 router/path/matching_context.go | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 3dce92e..c2ee03f 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -173,6 +173,7 @@ func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 	pattern := m.matchChildren(m.trieRoot, urlPath, mc.PathSegments, 0)
 	if pattern != nil {
 		mc.matchedPattern = pattern
+		mc.matchedUrlPath = urlPath
 	}
 	return pattern
 }
diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index bd01be8..75f336d 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -33,6 +33,8 @@ func (s *UrlSegment) Reset() {
 type MatchingContext struct {
 	R              *http.Request
 	matchedPattern *Pattern
+	// the URL path that was matched. The request can be changed or replaced by middlewares
+	matchedUrlPath string
 	PathSegments   []UrlSegment
 }
 
@@ -50,6 +52,7 @@ func (mc *MatchingContext) Clone() MatchingContext {
 	return MatchingContext{
 		R:              mc.R,
 		matchedPattern: mc.matchedPattern,
+		matchedUrlPath: mc.matchedUrlPath,
 		PathSegments:   segments,
 	}
 }
@@ -78,7 +81,7 @@ func (mc *MatchingContext) PathVar(name string) string {
 		return ""
 	}
 
-	matchingPath := mc.R.URL.Path
+	matchingPath := mc.matchedUrlPath
 	for i := 0; i < len(mc.PathSegments); i++ {
 		urlSegment := &mc.PathSegments[i]
 		if urlSegment.matchType == MatchTypeCaptureVar ||
-- 
2.43.0

