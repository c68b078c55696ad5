From a5091f93245a0dff21762af7dea9d7bd2e1987cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 01/10] fix: don't run a filter on a phantom null when there
 are no candidates

A filter applied to an empty array or object, or to a scalar, took the
zero value received from the closed channel as a candidate: $[?(true)]
applied to [] gave [null].
---
 mach/run.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index 1a1d3e7..6a03c1d 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -542,7 +542,14 @@ func looptop(vm *machine, producer func(chan<- JSON, []JSON), epc int) {
 	vm.pushInput(values)
 	go producer(values, vm.out)
 	vm.out = []JSON{}
-	vm.dot = <-values
+	js, more := <-values
+	if !more {
+		// nothing to consider: don't run the loop body even once
+		vm.popInput()
+		vm.branch(epc)
+		return
+	}
+	vm.dot = js
 }
 
 // sliceEval returns an interpretation of the given Slice with respect to an array of length l.
-- 
2.43.0


From 847aa743c809c0deab0d9e0d43e0aec19cca3a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 02/10] fix: don't leak the producer goroutine when evaluation
 fails

A run-time error inside a filter or descent returned from Run leaving the
producer blocked for ever on its channel, holding on to the document.
---
 mach/run.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index 6a03c1d..ddfcbcc 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -89,6 +89,14 @@ func (m *machine) popInput() {
 	m.values = m.values[0 : len(m.values)-1]
 }
 
+// drain consumes what's left of any unfinished iteration, so that its producer can finish.
+func (m *machine) drain() {
+	for _, c := range m.values {
+		for range c {
+		}
+	}
+}
+
 // nothing represents an evaluation without a usable result.
 // Any error will do.
 // ("nothing is better than Advil")
@@ -125,6 +133,7 @@ func (m *machine) valsOK(a, b JSON) bool {
 // Following the usual JavaScript conventions, many other errors do not stop evaluation, but yield a null result, detectable using || and &&.
 func (p *Program) Run(root JSON) ([]JSON, error) {
 	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
+	defer vm.drain()
 	for vm.pc < len(p.orders) {
 		ord := p.orders[vm.pc]
 		vm.pc++
-- 
2.43.0


From 1d4f2c8c3eba8ef93ead5e49dc3cbaae4ecaa2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:44 +0000
Subject: [PATCH 03/10] fix: slicing a non-array must not discard values
 already selected

$[*][0:1] applied to [[1],2] gave [] instead of [1].
---
 mach/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index ddfcbcc..db6c245 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -733,7 +733,7 @@ func valsByKey(vals []JSON, src JSON, key JSON, negIndex bool) []JSON {
 	if isSlice(key) {
 		src, ok := src.([]JSON)
 		if !ok {
-			return nil
+			return vals
 		}
 		slice := key.(*paths.Slice)
 		start, end, stride := sliceEval(slice, int64(len(src)))
-- 
2.43.0


From 103dc1b4cdde1620187b16becf95a891f46425d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 04/10] fix: don't panic on a slice with a huge stride

$[1::9223372036854775807] overflowed the index and indexed the array with
a negative value.
---
 mach/run.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index db6c245..98f6bee 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -568,6 +568,10 @@ func sliceEval(slice *paths.Slice, l int64) (int64, int64, int64) {
 	stride := int64(1)
 	if slice.Stride != nil {
 		stride = cvi(slice.Stride)
+		if stride > l {
+			// selects at most one item, and index+stride won't overflow
+			stride = l
+		}
 	}
 	start := int64(0)
 	end := int64(l)
-- 
2.43.0


From 2f95c55f50346ba2f38413698ac71cf84ecc0744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 05/10] fix: make the result of keys() independent of map order

A filter such as ?(keys(@)[0] == 'a') selected different values on
different evaluations of the same document.
---
 mach/fns.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mach/fns.go b/mach/fns.go
index 21280ba..fd887fe 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -3,6 +3,7 @@ package mach
 import (
 	"math"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode/utf8"
@@ -127,8 +128,13 @@ var functions = map[string]Function{
 		1,
 		func(args []JSON) JSON {
 			if obj, ok := args[0].(map[string]JSON); ok {
-				keys := make([]JSON, 0, len(obj))
-				for k, _ := range obj {
+				names := make([]string, 0, len(obj))
+				for k := range obj {
+					names = append(names, k)
+				}
+				sort.Strings(names) // otherwise the result depends on map order
+				keys := make([]JSON, 0, len(names))
+				for _, k := range names {
 					keys = append(keys, k)
 				}
 				return keys
-- 
2.43.0


From c0bae615652668974c7491f4c1b3e9737042f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 06/10] fix: jpath must not exit successfully when the results
 can't be written

The error from the final flush was ignored, so jpath ... >/dev/full
silently lost the results with status 0.
---
 cmd/jpath/jpath.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/jpath/jpath.go b/cmd/jpath/jpath.go
index 601cd9e..5e07180 100644
--- a/cmd/jpath/jpath.go
+++ b/cmd/jpath/jpath.go
@@ -24,7 +24,6 @@ func main() {
 		os.Exit(2)
 	}
 	stdout = bufio.NewWriter(os.Stdout)
-	defer stdout.Flush()
 	jexp := flag.Arg(0)
 	jpath, err := jsonpath.Compile(jexp)
 	if err != nil {
@@ -57,6 +56,10 @@ func main() {
 			errorf("%s", err.Error())
 		}
 	}
+	err = stdout.Flush()
+	if err != nil {
+		errorf("writing results: %s", err.Error())
+	}
 }
 
 func quote(s string) string {
-- 
2.43.0


From 3a36b43bc665c5cd9a704f0dc1d820ccfe5b55e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 07/10] fix: jpath -l must not evaluate the partial line before
 a read error

After a read error in the middle of a line, the part already read was
decoded and evaluated as if it were the whole line.
---
 cmd/jpath/jpath.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/jpath/jpath.go b/cmd/jpath/jpath.go
index 5e07180..8f51935 100644
--- a/cmd/jpath/jpath.go
+++ b/cmd/jpath/jpath.go
@@ -99,7 +99,8 @@ func readValues(fd *os.File, jpath *jsonpath.JSONPath, enc *json.Encoder) error
 func readLines(fd *os.File, jpath *jsonpath.JSONPath, enc *json.Encoder) error {
 	input := bufio.NewScanner(fd)
 	input.Split(bufio.ScanLines)
-	for lno := 1; input.Scan(); lno++ {
+	// Scan returns the incomplete line before a read error as if it were a whole one: ignore it
+	for lno := 1; input.Scan() && input.Err() == nil; lno++ {
 		var root interface{}
 		err := json.Unmarshal(input.Bytes(), &root)
 		if err != nil {
-- 
2.43.0


From c90be42314eef85b6bd03f88448406af10ca727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 08/10] fix: jpath -l must accept lines longer than 64Kbytes

The default limit of bufio.Scanner made it fail with 'token too long'.
---
 cmd/jpath/jpath.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/jpath/jpath.go b/cmd/jpath/jpath.go
index 8f51935..9bf9dd2 100644
--- a/cmd/jpath/jpath.go
+++ b/cmd/jpath/jpath.go
@@ -7,6 +7,7 @@ import (
 	"flag"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 
@@ -99,6 +100,7 @@ func readValues(fd *os.File, jpath *jsonpath.JSONPath, enc *json.Encoder) error
 func readLines(fd *os.File, jpath *jsonpath.JSONPath, enc *json.Encoder) error {
 	input := bufio.NewScanner(fd)
 	input.Split(bufio.ScanLines)
+	input.Buffer(nil, math.MaxInt) // JSON values have no limit on their length
 	// Scan returns the incomplete line before a read error as if it were a whole one: ignore it
 	for lno := 1; input.Scan() && input.Err() == nil; lno++ {
 		var root interface{}
-- 
2.43.0


From f37a94dfb340b716dbacc1cf11778b06bdfe1449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:46 +0000
Subject: [PATCH 09/10] fix: max() of strings must give the greatest

It gave the least, or the last.
---
 mach/fns.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/fns.go b/mach/fns.go
index fd887fe..bf62e79 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -356,7 +356,7 @@ func minString(index int, min, el string) string {
 }
 
 func maxString(index int, max, el string) string {
-	if index == 0 || el < max {
+	if index == 0 || el > max {
 		return el
 	}
 	return max
-- 
2.43.0


From 85a7f4ba22657b1dba408d17174665a8d4ed0cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:31 +0000
Subject: [PATCH 10/10] fix: a number must not equal a string that represents
 another number

---
 mach/json.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mach/json.go b/mach/json.go
index 42740c6..762bd54 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -132,6 +132,15 @@ func badNum(s string, fp bool) bool {
 	return false
 }
 
+// numVal returns the number represented by the string s, which badNum accepts: an integer if possible, otherwise floating-point.
+func numVal(s string) JSON {
+	n, err := strconv.ParseInt(s, 10, 64)
+	if err == nil {
+		return n
+	}
+	return cvf(s)
+}
+
 // eqNum returns true if numeric values a and b are equal
 func eqNum(a, b JSON) bool {
 	if isFloat(a) || isFloat(b) {
@@ -161,13 +170,13 @@ func eqVal(a, b JSON) bool {
 			if badNum(cvs(b), isFloat(a)) {
 				return false
 			}
-			return eqNum(a, b)
+			return eqNum(a, numVal(cvs(b)))
 		case String<<8 | Number:
 			// 11.9.3(5)
 			if badNum(cvs(a), isFloat(b)) {
 				return false
 			}
-			return eqNum(a, b)
+			return eqNum(numVal(cvs(a)), b)
 		case Boolean<<8 | Number, Number<<8 | Boolean:
 			// 11.9.3(6)
 			return eqNum(a, b)
-- 
2.43.0

