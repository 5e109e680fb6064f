From d603609993ec30f6706fd2f7e7a0eb79197971f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 01/19] fix: keep the state of a converted middleware per call

---
 middleware.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/middleware.go b/middleware.go
index cec1474..d95390d 100755
--- a/middleware.go
+++ b/middleware.go
@@ -13,28 +13,39 @@ import (
 
 type Middleware func(next Handler) Handler
 
+// _MwCall keeps the state of a single call of the converted middleware.
+type _MwCall struct {
+	args              *Args
+	nextHasBeenCalled bool
+	handled           bool
+}
+
 // Mw converts the middleware with the signature func(http.Handler) http.Handler
 // to the nanomux.Middleware.
 func Mw(mw func(http.Handler) http.Handler) Middleware {
 	return func(next Handler) Handler {
-		var nextHasBeenCalled = false
+		// The pointer is unique to the converted middleware and is used as
+		// a context key.
+		var callKey = new(_MwCall)
 		var h http.Handler = http.HandlerFunc(
 			func(w http.ResponseWriter, r *http.Request) {
-				var args = r.Context().Value(argsKey).(*Args)
-				args.handled = next(w, r, args)
-				nextHasBeenCalled = true
+				var call = r.Context().Value(callKey).(*_MwCall)
+				call.handled = next(w, r, call.args)
+				call.nextHasBeenCalled = true
 			},
 		)
 
 		h = mw(h)
 
 		return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
+			var call = &_MwCall{args: args}
 			var c = context.WithValue(r.Context(), argsKey, args)
+			c = context.WithValue(c, callKey, call)
 			r = r.WithContext(c)
 			h.ServeHTTP(w, r)
 
-			if nextHasBeenCalled {
-				return args.handled
+			if call.nextHasBeenCalled {
+				return call.handled
 			}
 
 			return true
-- 
2.43.0


From c43d1b5c1512750d4c4139d411297df37417481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 02/19] fix: drop the values of a template that doesn't match

---
 template.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/template.go b/template.go
index 96d46fb..a3e5a38 100755
--- a/template.go
+++ b/template.go
@@ -433,6 +433,8 @@ func (t *Template) Match(
 	str string,
 	values TemplateValues,
 ) (bool, TemplateValues) {
+	// When the string doesn't match, the values found so far are dropped.
+	var givenValues = values
 	var ltslices = len(t.slices)
 	var k = ltslices
 	if t.wildcardIdx >= 0 {
@@ -444,7 +446,7 @@ func (t *Template) Match(
 			if strings.HasPrefix(str, t.slices[i].staticStr) {
 				str = str[len(t.slices[i].staticStr):]
 			} else {
-				return false, values
+				return false, givenValues
 			}
 		} else {
 			var vp = t.slices[i].valuePattern
@@ -453,7 +455,7 @@ func (t *Template) Match(
 				var v = str[:idxs[1]]
 				if vi, vf := values.get(vp.name); vi >= 0 {
 					if v != vf {
-						return false, values
+						return false, givenValues
 					}
 				} else {
 					if values == nil {
@@ -465,7 +467,7 @@ func (t *Template) Match(
 
 				str = str[idxs[1]:]
 			} else {
-				return false, values
+				return false, givenValues
 			}
 		}
 	}
@@ -475,7 +477,7 @@ func (t *Template) Match(
 			if strings.HasSuffix(str, t.slices[i].staticStr) {
 				str = str[:len(str)-len(t.slices[i].staticStr)]
 			} else {
-				return false, values
+				return false, givenValues
 			}
 		} else {
 			var vp = t.slices[i].valuePattern
@@ -484,7 +486,7 @@ func (t *Template) Match(
 				var v = str[idxs[0][0]:]
 				if vi, vf := values.get(vp.name); vi >= 0 {
 					if v != vf {
-						return false, values
+						return false, givenValues
 					}
 				} else {
 					if values == nil {
@@ -496,7 +498,7 @@ func (t *Template) Match(
 
 				str = str[:idxs[0][0]]
 			} else {
-				return false, values
+				return false, givenValues
 			}
 		}
 	}
@@ -513,7 +515,7 @@ func (t *Template) Match(
 			)
 		} else {
 			// Unreachable.
-			return false, values
+			return false, givenValues
 		}
 	}
 
-- 
2.43.0


From b932d99787def374d09f193893070974ca6946a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 03/19] fix: anchor the whole alternation of a value pattern

---
 template.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/template.go b/template.go
index a3e5a38..e05494e 100755
--- a/template.go
+++ b/template.go
@@ -854,6 +854,35 @@ func dynamicSegment(tmplStrSlc string) (
 	return
 }
 
+// hasAlternation returns true if the pattern has an alternation "|" that is not
+// inside of a group. Such a pattern must be grouped before it's anchored.
+func hasAlternation(pattern string) bool {
+	var depth, chClsIdx = 0, -1
+	for i, lpattern := 0, len(pattern); i < lpattern; i++ {
+		switch ch := pattern[i]; {
+		case ch == '\\':
+			i++
+		case chClsIdx >= 0:
+			if ch == ']' {
+				var d = i - chClsIdx
+				if d > 1 && !(d == 2 && pattern[i-1] == '^') {
+					chClsIdx = -1
+				}
+			}
+		case ch == '[':
+			chClsIdx = i
+		case ch == '(':
+			depth++
+		case ch == ')':
+			depth--
+		case ch == '|' && depth == 0:
+			return true
+		}
+	}
+
+	return false
+}
+
 // appendDynamicSegmentTo appends the value name and pattern to the list of
 // dynamic segments. The slice valuePatterns contains the previously created
 // _ValuePattern instances with value names as a key. If the value name is
@@ -869,6 +898,10 @@ func appendDynamicSegmentTo(
 	valuePatterns _ValuePatterns,
 	wildcardIdx int,
 ) ([]_TemplateSegment, _ValuePatterns, int, error) {
+	if hasAlternation(pattern) {
+		pattern = "(?:" + pattern + ")"
+	}
+
 	if vpi, vp := valuePatterns.get(vName); vpi >= 0 {
 		if pattern != "" {
 			if wildcardIdx >= 0 {
-- 
2.43.0


From a629a4737d53388b7bbffea722f0e2928dc1dd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 04/19] fix: keep the escaped path in redirects and correct it
 in one hop

---
 host.go     |  6 +++---
 resource.go |  6 +++---
 utils.go    | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/host.go b/host.go
index 0de5b9e..3ce9836 100755
--- a/host.go
+++ b/host.go
@@ -315,7 +315,7 @@ func (hb *Host) handleOrPassRequest(
 			newURL = cloneRequestURL(r)
 		}
 
-		newURL.Path = args.path
+		args.setCleanPathOf(newURL)
 	}
 
 	if hb.IsSubtreeHandler() {
@@ -331,7 +331,7 @@ func (hb *Host) handleOrPassRequest(
 					newURL = cloneRequestURL(r)
 				}
 
-				newURL.Path += "/"
+				addTrailingSlashTo(newURL)
 			} else if !hb.HasTrailingSlash() && args.pathHasTrailingSlash() {
 				if hb.IsStrictOnTrailingSlash() {
 					return notFoundResourceHandler(w, r, args)
@@ -341,7 +341,7 @@ func (hb *Host) handleOrPassRequest(
 					newURL = cloneRequestURL(r)
 				}
 
-				newURL.Path = newURL.Path[:len(newURL.Path)-1]
+				removeTrailingSlashesFrom(newURL)
 			}
 		}
 	}
diff --git a/resource.go b/resource.go
index 1e6c70d..decfca2 100755
--- a/resource.go
+++ b/resource.go
@@ -454,7 +454,7 @@ func (rb *Resource) handleOrPassRequest(
 			newURL = cloneRequestURL(r)
 		}
 
-		newURL.Path = args.path
+		args.setCleanPathOf(newURL)
 	}
 
 	if lastSegment && !rb.IsLenientOnTrailingSlash() {
@@ -467,7 +467,7 @@ func (rb *Resource) handleOrPassRequest(
 				newURL = cloneRequestURL(r)
 			}
 
-			newURL.Path += "/"
+			addTrailingSlashTo(newURL)
 		} else if !rb.HasTrailingSlash() && args.pathHasTrailingSlash() {
 			if rb.IsStrictOnTrailingSlash() {
 				return notFoundResourceHandler(w, r, args)
@@ -477,7 +477,7 @@ func (rb *Resource) handleOrPassRequest(
 				newURL = cloneRequestURL(r)
 			}
 
-			newURL.Path = newURL.Path[:len(newURL.Path)-1]
+			removeTrailingSlashesFrom(newURL)
 		}
 	}
 
diff --git a/utils.go b/utils.go
index 65ed7a6..a901b87 100755
--- a/utils.go
+++ b/utils.go
@@ -99,6 +99,28 @@ func cloneRequestURL(r *http.Request) *url.URL {
 	return url
 }
 
+// addTrailingSlashTo adds a trailing slash to the path and its escaped form.
+func addTrailingSlashTo(url *url.URL) {
+	url.Path += "/"
+	if url.RawPath != "" {
+		url.RawPath += "/"
+	}
+}
+
+// removeTrailingSlashesFrom removes the trailing slashes from the path and its
+// escaped form. Escaped slashes "%2F" are not trailing slashes.
+func removeTrailingSlashesFrom(url *url.URL) {
+	if url.RawPath == "" {
+		url.Path = strings.TrimRight(url.Path, "/")
+		return
+	}
+
+	for strings.HasSuffix(url.RawPath, "/") {
+		url.RawPath = strings.TrimSuffix(url.RawPath, "/")
+		url.Path = strings.TrimSuffix(url.Path, "/")
+	}
+}
+
 func toUpperSplitByCommaSpace(str string) []string {
 	str = strings.TrimSpace(str)
 	var strs []string
@@ -495,6 +517,16 @@ func (args *Args) nextPathSegment() (string, error) {
 	return args.path[cIdx:idx], nil
 }
 
+// setCleanPathOf sets the clean path of the request to the URL.
+func (args *Args) setCleanPathOf(u *url.URL) {
+	u.Path, u.RawPath = args.path, ""
+	if args.rawPath {
+		if path, err := url.PathUnescape(args.path); err == nil {
+			u.Path, u.RawPath = path, args.path
+		}
+	}
+}
+
 // reachedTheLastPathSegment returns true when the responder that is using the
 // routing data is the last responder in the request's URL.
 func (args *Args) reachedTheLastPathSegment() bool {
-- 
2.43.0


From d8e46493cd2078fbaf7f681dbaf4520c8b5b0c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 05/19] fix: configure not yet configured hosts and resources
 when retrieved through the router

---
 router.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/router.go b/router.go
index 568d8e5..0ffefe9 100755
--- a/router.go
+++ b/router.go
@@ -892,7 +892,11 @@ func (ro *Router) Host(hostTmplStr string) *Host {
 	} else {
 		err = h.checkForConfigCompatibility(secure, tslash, nil)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantHost) {
+				h.configure(secure, tslash, nil)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 	}
 
@@ -943,7 +947,11 @@ func (ro *Router) HostUsingConfig(
 	} else {
 		err = h.checkForConfigCompatibility(secure, tslash, &cfs)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantHost) {
+				h.configure(secure, tslash, &cfs)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 	}
 
@@ -1634,7 +1642,11 @@ func (ro *Router) RegisteredResource(urlTmplStr string) *Resource {
 	if r, ok := _r.(*Resource); ok && r != nil {
 		err = _r.checkForConfigCompatibility(secure, tslash, nil)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantResource) {
+				_r.configure(secure, tslash, nil)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 
 		return _r.(*Resource)
-- 
2.43.0


From 0f41320ac5150edaac0816cca9ff6899e38edb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 06/19] fix: find hosts by name only, as documented

---
 router.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/router.go b/router.go
index 0ffefe9..6ffb032 100755
--- a/router.go
+++ b/router.go
@@ -133,6 +133,13 @@ func (ro *Router) _Responder(urlTmplStr string) (_Responder, error) {
 func (ro *Router) registeredHost(
 	hTmplStr string,
 ) (*Host, *Template, error) {
+	if hTmplStr != "" {
+		var name, content, err = templateNameAndContent(hTmplStr)
+		if err == nil && name != "" && content == "" {
+			return ro.HostNamed(name), nil, nil
+		}
+	}
+
 	var tmpl, err = TryToParse(hTmplStr)
 	if err != nil {
 		return nil, nil, newErr("%w", err)
-- 
2.43.0


From 863bba301270bafa69256152a0a5d7ae8211ed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 07/19] fix: link the root resource and its router

---
 router.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/router.go b/router.go
index 6ffb032..f94298a 100755
--- a/router.go
+++ b/router.go
@@ -1129,6 +1129,7 @@ func (ro *Router) HasAnyHost() bool {
 
 func (ro *Router) initializeRootResource() {
 	ro.r = newRootResource()
+	ro.r.setParent(ro)
 }
 
 // Resource returns an existing or newly created resource.
@@ -1344,6 +1345,7 @@ func (ro *Router) registerNewRoot(r *Resource) error {
 			return newErr("%w", err)
 		}
 
+		ro.r.setParent(nil)
 		ro.r = r
 		r.setParent(ro)
 		return nil
-- 
2.43.0


From fbdc969a88f4fb07b13e21c2a6d5b30cf1d70ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 08/19] fix: refuse clashing names of hosts created at a URL or
 with a resource

---
 router.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/router.go b/router.go
index f94298a..a19f7ad 100755
--- a/router.go
+++ b/router.go
@@ -63,6 +63,10 @@ func (ro *Router) _Responder(urlTmplStr string) (_Responder, error) {
 		if err != nil {
 			return nil, newErr("%w", err)
 		}
+
+		if newHost && ro.HostNamed(_r.Name()) != nil {
+			return nil, newErr("%w", errDuplicateNameAmongSiblings)
+		}
 	}
 
 	if pTmplStr != "" {
@@ -1392,6 +1396,10 @@ func (ro *Router) RegisterResource(r *Resource) {
 				panicWithErr("%w", err)
 			}
 
+			if newHost && ro.HostNamed(_r.Name()) != nil {
+				panicWithErr("%w", errDuplicateNameAmongSiblings)
+			}
+
 			// The following if statement should never be true.
 			if urlt.PrefixPath == "/" {
 				// Unreachable.
@@ -1539,6 +1547,10 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 		if err != nil {
 			panicWithErr("%w", err)
 		}
+
+		if newHost && ro.HostNamed(_r.Name()) != nil {
+			panicWithErr("%w", errDuplicateNameAmongSiblings)
+		}
 	}
 
 	// Here, _r is either nil or has a valid pointer to a host.
-- 
2.43.0


From 8785930a8327cb35ab78b886da1afbe78803a499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 09/19] fix: return the remaining path escaped, as documented

---
 utils.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/utils.go b/utils.go
index a901b87..689fdf7 100755
--- a/utils.go
+++ b/utils.go
@@ -550,6 +550,17 @@ func (args *Args) HostPathValues() HostPathValues {
 // that's below the responder's segment that is currently passing or handling
 // the request.
 func (args *Args) RemainingPath() string {
+	var rpath = args.remainingPath()
+	if args.rawPath || rpath == "" {
+		return rpath
+	}
+
+	return (&url.URL{Path: rpath}).EscapedPath()
+}
+
+// remainingPath returns the remaining path in the form that is used for
+// routing. It's escaped only if the request's URL has the RawPath.
+func (args *Args) remainingPath() string {
 	if args.reachedTheLastPathSegment() {
 		return ""
 	}
-- 
2.43.0


From f3f12cdd6e0f54e1d232efc3e7321251bf1208a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 10/19] fix: keep the URL template of a resource until it's
 registered

---
 resource.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/resource.go b/resource.go
index decfca2..4fed4fc 100755
--- a/resource.go
+++ b/resource.go
@@ -310,9 +310,18 @@ func newRootResource() *Resource {
 // }
 
 func (rb *Resource) urlTmpl() *_URLTmpl {
-	var urlt = rb.urlt
-	rb.urlt = nil
-	return urlt
+	return rb.urlt
+}
+
+// setParent sets the resource's parent. When the resource is being registered,
+// its URL template is no longer needed.
+func (rb *Resource) setParent(p _Parent) error {
+	var err = rb._ResponderBase.setParent(p)
+	if err == nil && p != nil {
+		rb.urlt = nil
+	}
+
+	return err
 }
 
 // -------------------------
-- 
2.43.0


From 36cd4b0d768fea84e3302250697f5ec46301e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 11/19] fix: transfer child resources only if all of them can
 be transferred

---
 responder.go | 89 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 82 insertions(+), 7 deletions(-)

diff --git a/responder.go b/responder.go
index 9e12017..c1f55c2 100755
--- a/responder.go
+++ b/responder.go
@@ -59,6 +59,7 @@ type _Responder interface {
 
 	resourceWithTemplate(tmpl *Template) (*Resource, error)
 	registeredResource(pathTmplStr string) (r *Resource, tslash bool, err error)
+	checkChildResourcesCanBePassedTo(r _Responder) error
 	passChildResourcesTo(r _Responder) error
 	registerResource(r *Resource) error
 	segmentResources(pathSegments []string) (
@@ -75,6 +76,7 @@ type _Responder interface {
 	)
 
 	registerResourceUnder(prefixPath string, r *Resource) error
+	checkResourceOrItsChildResourcesCanBeKept(r *Resource) error
 	keepResourceOrItsChildResources(r *Resource) error
 
 	// -------------------------
@@ -669,9 +671,28 @@ func (rb *_ResponderBase) registeredResource(
 	return r, psi.pathHasTrailingSlash(), nil
 }
 
+// checkChildResourcesCanBePassedTo returns the error that stops the child
+// resources from being transferred to the argument responder, if there is one.
+func (rb *_ResponderBase) checkChildResourcesCanBePassedTo(
+	r _Responder,
+) error {
+	for _, rr := range rb.ChildResources() {
+		var err = r.checkResourceOrItsChildResourcesCanBeKept(rr)
+		if err != nil {
+			return newErr("%w", err)
+		}
+	}
+
+	return nil
+}
+
 // passChildResourcesTo method transfers all of the child resources to the
-// argument resource.
+// argument resource. If one of them cannot be transferred, none of them is.
 func (rb *_ResponderBase) passChildResourcesTo(r _Responder) error {
+	if err := rb.checkChildResourcesCanBePassedTo(r); err != nil {
+		return newErr("%w", err)
+	}
+
 	for _, rr := range rb.staticResources {
 		if err := r.keepResourceOrItsChildResources(rr); err != nil {
 			return newErr("%w", err)
@@ -739,6 +760,10 @@ func (rb *_ResponderBase) replaceResource(oldR, newR *Resource) error {
 // as its parent. The method doesn't check if an existing resource with the
 // same template exists or not.
 func (rb *_ResponderBase) registerResource(r *Resource) error {
+	if err := r.setParent(rb.derived); err != nil {
+		return newErr("%w", err)
+	}
+
 	switch tmpl := r.Template(); {
 	case tmpl.IsStatic():
 		if rb.staticResources == nil {
@@ -752,11 +777,6 @@ func (rb *_ResponderBase) registerResource(r *Resource) error {
 		rb.patternResources = append(rb.patternResources, r)
 	}
 
-	var err = r.setParent(rb.derived)
-	if err != nil {
-		return newErr("%w", err)
-	}
-
 	return nil
 }
 
@@ -903,7 +923,7 @@ func (rb *_ResponderBase) registerResourceUnder(
 		}
 
 		if err = oldLast.registerResource(newFirst); err != nil {
-			// Unreachable.
+			r.setParent(nil)
 			return newErr("%w", err)
 		}
 
@@ -927,6 +947,61 @@ func (rb *_ResponderBase) registerResourceUnder(
 	return nil
 }
 
+// checkResourceOrItsChildResourcesCanBeKept returns the error that stops the
+// argument resource or its child resources from being kept under the responder,
+// if there is one.
+func (rb *_ResponderBase) checkResourceOrItsChildResourcesCanBeKept(
+	r *Resource,
+) error {
+	var rwt, err = rb.resourceWithTemplate(r.Template())
+	if err != nil {
+		return newErr("%w", err)
+	}
+
+	if rwt == nil {
+		if nr := rb.ChildResourceNamed(r.Name()); nr != nil {
+			return newErr("%w", errDuplicateNameAmongSiblings)
+		}
+
+		return nil
+	}
+
+	var rcfs = r.configFlags()
+	err = rwt.checkForConfigCompatibility(
+		rcfs.has(flagSecure),
+		rcfs.has(flagTrailingSlash),
+		&rcfs,
+	)
+
+	if err != nil && !errors.Is(err, errDormantResource) {
+		return newErr("%w", err)
+	}
+
+	if !r.canHandleRequest() {
+		err = r.checkChildResourcesCanBePassedTo(rwt)
+		if err != nil {
+			return newErr("%w", err)
+		}
+
+		return nil
+	}
+
+	if !rwt.canHandleRequest() {
+		err = rwt.checkChildResourcesCanBePassedTo(r)
+		if err != nil {
+			return newErr("%w", err)
+		}
+
+		return nil
+	}
+
+	return newErr(
+		"%w %s",
+		errDuplicateResourceTemplate,
+		rwt.Template().String(),
+	)
+}
+
 // keepResourceOrItsChildResources is intended to be used when there is a
 // template collision between resources. In that scenario, the method keeps
 // one of them depending on whether one has HTTP method handlers set. The
-- 
2.43.0


From ef925786274f34f84e9bb0670573568f51f797d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 12/19] fix: keep the security of a resource whose registration
 is refused

---
 router.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/router.go b/router.go
index a19f7ad..d03d046 100755
--- a/router.go
+++ b/router.go
@@ -1582,20 +1582,20 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 		panicWithErr("%w", err)
 	}
 
+	var cfs = r.configFlags()
 	if secure {
 		r.setConfigFlags(flagSecure)
 	}
 
 	if pTmplStr != "" && pTmplStr != "/" {
 		err = _r.registerResourceUnder(pTmplStr, r)
-		if err != nil {
-			panicWithErr("%w", err)
-		}
 	} else {
-		var err = _r.keepResourceOrItsChildResources(r)
-		if err != nil {
-			panicWithErr("%w", err)
-		}
+		err = _r.keepResourceOrItsChildResources(r)
+	}
+
+	if err != nil {
+		r.resetConfigFlags(cfs)
+		panicWithErr("%w", err)
 	}
 
 	if newHost {
-- 
2.43.0


From dfb56f66c6eb1d8e2f49dc4e07435cd3e29e44e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 13/19] fix: accept URL templates of resources registered below
 the root resource

---
 responder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/responder.go b/responder.go
index c1f55c2..41eaaef 100755
--- a/responder.go
+++ b/responder.go
@@ -523,8 +523,10 @@ func (rb *_ResponderBase) validateURL(hostTmplStr string, pathTmplStr string) (
 		return "", newErr("%w", err)
 	}
 
+	// The host and the root resource don't have a path segment.
+	var first, isResource = resources[0].(*Resource)
 	var lresources = len(resources)
-	if _, ok := resources[0].(*Host); ok {
+	if !isResource || first.isRoot() {
 		if lresources == 1 {
 			if pathTmplStr == "" || pathTmplStr == "/" {
 				return "", nil
-- 
2.43.0


From 6adf94bed0cbce222a69868a0745fb64a5e9d66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 14/19] fix: match a template that ends with a repeated value

---
 template.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/template.go b/template.go
index e05494e..f4e1871 100755
--- a/template.go
+++ b/template.go
@@ -1045,13 +1045,16 @@ func parse(tmplStr string) (
 	var vp = tmplSlcs[lastIdx].valuePattern
 	if vp != nil && vp.re != nil && wildcardIdx < 0 {
 		// The last segment is a value-pattern segment. So, its regexp
-		// must be modified to match the end of the string.
-		var reStr = vp.re.String() + "$"
-		vp.re, err = regexp.Compile(reStr)
+		// must be modified to match the end of the string. Other segments
+		// with the same value name must keep the unmodified regexp.
+		var re *regexp.Regexp
+		re, err = regexp.Compile(vp.re.String() + "$")
 		if err != nil {
 			// Unreachable.
 			return nil, -1, err
 		}
+
+		tmplSlcs[lastIdx].valuePattern = &_ValuePattern{vp.name, re}
 	}
 
 	return tmplSlcs, wildcardIdx, nil
-- 
2.43.0


From 43cc286f34a6d970229799c2c89765a7c6230bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 15/19] fix: don't escape the static templates in a responder's
 URL

---
 utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 689fdf7..a395ae5 100755
--- a/utils.go
+++ b/utils.go
@@ -347,7 +347,7 @@ loop:
 
 			var tmpl = p.Template()
 			if tmpl.IsStatic() {
-				pss = append(pss, tmpl.Content())
+				pss = append(pss, tmpl.UnescapedContent())
 				continue
 			}
 
@@ -360,7 +360,7 @@ loop:
 		case *Host:
 			var tmpl = p.Template()
 			if tmpl.IsStatic() {
-				host = tmpl.Content()
+				host = tmpl.UnescapedContent()
 			} else {
 				var err error
 				host, err = tmpl.TryToApply(hpVs, false)
-- 
2.43.0


From 45e61e1284d1c4d1d8147064e6dda50ca58fd19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 16/19] fix: don't lose escaped slashes when a redirected path
 has invalid characters

---
 utils.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/utils.go b/utils.go
index a395ae5..92146a0 100755
--- a/utils.go
+++ b/utils.go
@@ -96,9 +96,30 @@ func cloneRequestURL(r *http.Request) *url.URL {
 		url.Host = r.Host
 	}
 
+	escapeRawPathOf(url)
 	return url
 }
 
+// escapeRawPathOf escapes the characters of the URL's RawPath that are not
+// allowed in the path. Because of them, the URL.String() doesn't use the
+// RawPath, and escaped slashes "%2F" become segment separators.
+func escapeRawPathOf(u *url.URL) {
+	if u.RawPath == "" || u.EscapedPath() == u.RawPath {
+		return
+	}
+
+	var strb strings.Builder
+	for i := 0; i < len(u.RawPath); i++ {
+		if c := u.RawPath[i]; c == '/' || c == '%' {
+			strb.WriteByte(c)
+		} else {
+			strb.WriteString(url.PathEscape(u.RawPath[i : i+1]))
+		}
+	}
+
+	u.RawPath = strb.String()
+}
+
 // addTrailingSlashTo adds a trailing slash to the path and its escaped form.
 func addTrailingSlashTo(url *url.URL) {
 	url.Path += "/"
@@ -523,6 +544,7 @@ func (args *Args) setCleanPathOf(u *url.URL) {
 	if args.rawPath {
 		if path, err := url.PathUnescape(args.path); err == nil {
 			u.Path, u.RawPath = path, args.path
+			escapeRawPathOf(u)
 		}
 	}
 }
-- 
2.43.0


From 2d265e333ee3240f11a156250bad54fa4ef5ae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 17/19] fix: discard the root resource created for a refused
 registration

---
 router.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/router.go b/router.go
index d03d046..6f6cdac 100755
--- a/router.go
+++ b/router.go
@@ -73,6 +73,7 @@ func (ro *Router) _Responder(urlTmplStr string) (_Responder, error) {
 		if _r == nil {
 			if ro.r == nil {
 				ro.initializeRootResource()
+				defer ro.discardUnusedRoot()
 			}
 
 			_r = ro.r
@@ -1136,6 +1137,16 @@ func (ro *Router) initializeRootResource() {
 	ro.r.setParent(ro)
 }
 
+// discardUnusedRoot is deferred by the methods that create the root resource to
+// find or register a resource below it. If they have failed, the root resource
+// stays unused and must not meet the one registered later.
+func (ro *Router) discardUnusedRoot() {
+	if !ro.r.configFlags().has(flagActive) && !ro.r.HasAnyChildResources() {
+		ro.r.setParent(nil)
+		ro.r = nil
+	}
+}
+
 // Resource returns an existing or newly created resource.
 //
 // When the URL template contains a host template, its path template cannot be
@@ -1177,6 +1188,7 @@ func (ro *Router) Resource(urlTmplStr string) *Resource {
 	} else {
 		if ro.r == nil {
 			ro.initializeRootResource()
+			defer ro.discardUnusedRoot()
 		}
 
 		_r = ro.r
@@ -1273,6 +1285,7 @@ func (ro *Router) ResourceUsingConfig(
 	} else {
 		if ro.r == nil {
 			ro.initializeRootResource()
+			defer ro.discardUnusedRoot()
 		}
 
 		_r = ro.r
@@ -1426,6 +1439,7 @@ func (ro *Router) RegisterResource(r *Resource) {
 
 		if ro.r == nil {
 			ro.initializeRootResource()
+			defer ro.discardUnusedRoot()
 		}
 
 		_r = ro.r
@@ -1569,6 +1583,7 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 
 		if ro.r == nil {
 			ro.initializeRootResource()
+			defer ro.discardUnusedRoot()
 		}
 
 		_r = ro.r
-- 
2.43.0


From 973fb5f755bbe9a29070f02e5c82ba1b4dc4b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:20 +0000
Subject: [PATCH 18/19] fix: let unconfigured resources give way when their
 parent is registered again

---
 responder.go | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/responder.go b/responder.go
index 41eaaef..cc40548 100755
--- a/responder.go
+++ b/responder.go
@@ -968,15 +968,17 @@ func (rb *_ResponderBase) checkResourceOrItsChildResourcesCanBeKept(
 		return nil
 	}
 
-	var rcfs = r.configFlags()
-	err = rwt.checkForConfigCompatibility(
-		rcfs.has(flagSecure),
-		rcfs.has(flagTrailingSlash),
-		&rcfs,
-	)
+	// A dormant resource has no configuration that can be in conflict.
+	if rcfs := r.configFlags(); rcfs.has(flagActive) {
+		err = rwt.checkForConfigCompatibility(
+			rcfs.has(flagSecure),
+			rcfs.has(flagTrailingSlash),
+			&rcfs,
+		)
 
-	if err != nil && !errors.Is(err, errDormantResource) {
-		return newErr("%w", err)
+		if err != nil && !errors.Is(err, errDormantResource) {
+			return newErr("%w", err)
+		}
 	}
 
 	if !r.canHandleRequest() {
@@ -1028,15 +1030,17 @@ func (rb *_ResponderBase) keepResourceOrItsChildResources(r *Resource) error {
 		return nil
 	}
 
-	var rcfs = r.configFlags()
-	err = rwt.checkForConfigCompatibility(
-		rcfs.has(flagSecure),
-		rcfs.has(flagTrailingSlash),
-		&rcfs,
-	)
+	// A dormant resource has no configuration that can be in conflict.
+	if rcfs := r.configFlags(); rcfs.has(flagActive) {
+		err = rwt.checkForConfigCompatibility(
+			rcfs.has(flagSecure),
+			rcfs.has(flagTrailingSlash),
+			&rcfs,
+		)
 
-	if err != nil && !errors.Is(err, errDormantResource) {
-		return newErr("%w", err)
+		if err != nil && !errors.Is(err, errDormantResource) {
+			return newErr("%w", err)
+		}
 	}
 
 	if !r.canHandleRequest() {
-- 
2.43.0


From 343dd7ca1f0ee370249876e3bd68be689ddc3d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 19/19] fix: apply the host's trailing slash policy to
 one-character paths

A subtree-handling host corrected or refused a wrong trailing slash only if
the path had three or more characters, so "/a" was never redirected to
"/a/" while "/ab" was.
---
 host.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/host.go b/host.go
index 3ce9836..f2f4041 100755
--- a/host.go
+++ b/host.go
@@ -319,9 +319,8 @@ func (hb *Host) handleOrPassRequest(
 	}
 
 	if hb.IsSubtreeHandler() {
-		// The path must have at least three characters for it to have
-		// a trailing slash.
-		if len(args.path) > 2 && !hb.IsLenientOnTrailingSlash() {
+		// The path "/" is the host's own and has no trailing slash.
+		if len(args.path) > 1 && !hb.IsLenientOnTrailingSlash() {
 			if hb.HasTrailingSlash() && !args.pathHasTrailingSlash() {
 				if hb.IsStrictOnTrailingSlash() {
 					return notFoundResourceHandler(w, r, args)
-- 
2.43.0

