From b1ab89eeffbe3431d13c95bc0d2072479f3b09c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:07 +0000
Subject: [PATCH 01/45] fix: do not reverse the stored instruction order on
 every use of the last method

---
 transform/transform.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index fe1ed7c..067ef06 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -257,20 +257,21 @@ func (tis *transformInstructions) UnmarshalJSON(data []byte) error {
 // It handles the logic for concatenation, first or last methods.
 func (tis *transformInstructions) transform(in interface{}, fieldType string, modifier pathModifier, format inputFormat) (interface{}, error) {
 	var concatResult bool
+	instructions := tis.From
 	switch tis.Method {
 	case last:
 		var newFrom []*transformInstruction
 		for i := len(tis.From) - 1; i >= 0; i-- {
 			newFrom = append(newFrom, tis.From[i])
 		}
-		tis.From = newFrom
+		instructions = newFrom
 	case concatenate:
 		concatResult = true
 	}
 
 	var result interface{}
 
-	for _, from := range tis.From {
+	for _, from := range instructions {
 		value, err := from.transform(in, fieldType, modifier, format)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 62d47fd69711292e8305b7a98699aca8b46a4bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:54 +0000
Subject: [PATCH 02/45] fix: copy schema defaults on use so that one document
 cannot change another's defaults

---
 transform/instance.go | 14 +++++++-------
 transform/utils.go    | 20 ++++++++++++++++++++
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index 8310396..83fb8e8 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -107,7 +107,7 @@ func (at *arrayTransformer) baseValueJSON(in interface{}, path string, modifier
 
 	// 3. Fall back to the JSON Schema default value.
 	if at.defaultValue != nil {
-		return at.defaultValue, true, nil
+		return copyValue(at.defaultValue).([]interface{}), true, nil
 	}
 	return nil, false, nil
 }
@@ -141,7 +141,7 @@ func (at *arrayTransformer) baseValueXML(in interface{}, path string, modifier p
 
 	// 2. Fall back to the JSON Schema default value.
 	if at.defaultValue != nil {
-		return at.defaultValue, true, nil
+		return copyValue(at.defaultValue).([]interface{}), true, nil
 	}
 	return nil, false, nil
 }
@@ -343,7 +343,7 @@ func (ot *objectTransformer) objectTransformJSON(in interface{}, modifier pathMo
 		if ot.defaultValue == nil {
 			newValue = make(map[string]interface{})
 		} else {
-			newValue = ot.defaultValue
+			newValue = copyValue(ot.defaultValue).(map[string]interface{})
 		}
 	}
 
@@ -388,7 +388,7 @@ func (ot *objectTransformer) objectTransformXML(in interface{}, modifier pathMod
 			if ot.defaultValue == nil {
 				return nil, nil
 			} else {
-				return ot.defaultValue, nil
+				return copyValue(ot.defaultValue), nil
 			}
 		} else if val, ok := rawValue.(string); ok {
 			// If the XML node is returned as an empty string, then it likely indicates that the transformer encountered an empty XML tag, e.g. <tag /> or <tag></tag>.
@@ -414,7 +414,7 @@ func (ot *objectTransformer) objectTransformXML(in interface{}, modifier pathMod
 	if ot.defaultValue == nil {
 		newValue = make(map[string]interface{})
 	} else {
-		newValue = ot.defaultValue
+		newValue = copyValue(ot.defaultValue).(map[string]interface{})
 	}
 
 	// Add each child value to the parent if there is no object transform or if the object transform node is found
@@ -527,7 +527,7 @@ func (st *scalarTransformer) transformScalarJSON(in interface{}, modifier pathMo
 	}
 
 	// 3. Fall back to the JSON Schema default value.
-	return st.defaultValue, nil
+	return copyValue(st.defaultValue), nil
 }
 
 // transformScalarXML retrieves the value for a scalar instance following this process:
@@ -553,7 +553,7 @@ func (st *scalarTransformer) transformScalarXML(in interface{}, modifier pathMod
 	}
 
 	// 2. If transform does not exist or returns no value send back default
-	return st.defaultValue, nil
+	return copyValue(st.defaultValue), nil
 }
 
 // transform routes to the correct scalar transform type.
diff --git a/transform/utils.go b/transform/utils.go
index 2d3a096..252cc1e 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -214,6 +214,26 @@ func schemaDefault(schema json.RawMessage) (interface{}, error) {
 	return nil, nil
 }
 
+// copyValue returns a deep copy of a decoded JSON value. The defaults found in the schema are shared by every transform
+// so a copy must be used anywhere the value can be modified while building the result.
+func copyValue(value interface{}) interface{} {
+	switch v := value.(type) {
+	case map[string]interface{}:
+		newMap := make(map[string]interface{}, len(v))
+		for key, item := range v {
+			newMap[key] = copyValue(item)
+		}
+		return newMap
+	case []interface{}:
+		newArray := make([]interface{}, len(v))
+		for i, item := range v {
+			newArray[i] = copyValue(item)
+		}
+		return newArray
+	}
+	return value
+}
+
 // replaceIndex takes a path which may include array index values like `a[0].b.c[23].d` with the index values replaced
 // with "*", ie `a[*].b.c[*].d`.
 func replaceIndex(path string) string {
-- 
2.43.0


From dddfb59e39b925bb1b0e471248c8dfdba0c90cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:12 +0000
Subject: [PATCH 03/45] fix: return an error for an invalid xmlPath rather than
 panicking during a transform

---
 transform/transform.go | 28 ++++++++++++++++++----------
 transform/utils.go     | 16 ++++++++++++++++
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index 067ef06..b2e2d4e 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -113,21 +113,29 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 		return nil, errors.New("Error converting input to *xmlquery.Node")
 	}
 
-	xmlNode := xmlquery.Find(node, path)
-	if xmlNode == nil {
+	xmlNode, err := findNodes(node, path)
+	if err != nil {
+		return nil, err
+	}
+	if len(xmlNode) == 0 {
 		return nil, nil
 	}
 
-	var (
-		value interface{}
-		err   error
-	)
+	var value interface{}
 
-	// num elements that have a child element
-	numElementsWithChild := len(xmlquery.Find(node, path+"[*]"))
+	// elements that have a child element
+	withChild, err := findNodes(node, path+"[*]")
+	if err != nil {
+		return nil, err
+	}
+	numElementsWithChild := len(withChild)
 
-	// num elements without child
-	numElementsWithoutChild := len(xmlquery.Find(node, path+"[not(*)]"))
+	// elements without child
+	withoutChild, err := findNodes(node, path+"[not(*)]")
+	if err != nil {
+		return nil, err
+	}
+	numElementsWithoutChild := len(withoutChild)
 
 	// if only numElementsWithoutChild has results then the nodes are leaf nodes and can extract value
 	if numElementsWithChild == 0 && numElementsWithoutChild == 1 {
diff --git a/transform/utils.go b/transform/utils.go
index 252cc1e..f5dd25d 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -10,6 +10,7 @@ import (
 	"time"
 
 	"github.com/GannettDigital/jsonparser"
+	"github.com/antchfx/xmlquery"
 )
 
 var indexRe = regexp.MustCompile(`\[([\d]+)\]`)
@@ -234,6 +235,21 @@ func copyValue(value interface{}) interface{} {
 	return value
 }
 
+// findNodes returns the nodes matched by the XPath expression. The XPath library panics for some invalid expressions,
+// for instance if a function is given an argument of the wrong type, such panics are returned as errors.
+func findNodes(node *xmlquery.Node, path string) (nodes []*xmlquery.Node, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			nodes, err = nil, fmt.Errorf("failed evaluating xmlPath %q: %v", path, r)
+		}
+	}()
+	nodes, err = xmlquery.QueryAll(node, path)
+	if err != nil {
+		return nil, fmt.Errorf("invalid xmlPath %q: %v", path, err)
+	}
+	return nodes, nil
+}
+
 // replaceIndex takes a path which may include array index values like `a[0].b.c[23].d` with the index values replaced
 // with "*", ie `a[*].b.c[*].d`.
 func replaceIndex(path string) string {
-- 
2.43.0


From e357fc98c858564c91766ff2258df2d4242ccc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:15 +0000
Subject: [PATCH 04/45] fix: return no value for a string which cannot be
 converted to a boolean so the default applies

---
 transform/utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transform/utils.go b/transform/utils.go
index f5dd25d..94639e7 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -83,7 +83,11 @@ func convertBoolean(raw interface{}) (interface{}, error) {
 		if t == "" {
 			return false, nil
 		}
-		return strconv.ParseBool(t)
+		value, err := strconv.ParseBool(t)
+		if err != nil {
+			return nil, fmt.Errorf("failed to convert string %q to boolean", t)
+		}
+		return value, nil
 	case int:
 		return t > 0, nil
 	case float32:
-- 
2.43.0


From 33fafc01d59412c267cf6b707eeb16331401378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:19 +0000
Subject: [PATCH 05/45] fix: return an error from the max operation for an
 empty array rather than panicking

---
 transform/operations.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transform/operations.go b/transform/operations.go
index 0e978b8..942f8e6 100644
--- a/transform/operations.go
+++ b/transform/operations.go
@@ -159,6 +159,9 @@ func (m *max) transform(in interface{}) (interface{}, error) {
 	if !ok {
 		return nil, errors.New("input must be an array")
 	}
+	if len(inArray) == 0 {
+		return nil, errors.New("input array must not be empty")
+	}
 	byArg := strings.Replace(m.args["by"], "@", "$", 1)
 	returnArg := strings.Replace(m.args["return"], "@", "$", 1)
 
-- 
2.43.0


From 87029894b3825a5caef76ca67b1b6be103ab3ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:44 +0000
Subject: [PATCH 06/45] fix: return the error from saving in a nested array

---
 transform/transformer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transform/transformer.go b/transform/transformer.go
index 7e8c715..8c3d9a6 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -352,6 +352,9 @@ func saveInSlice(current []interface{}, arraySplits []string, value interface{})
 	}
 
 	newValue, err := saveInSlice(nested, arraySplits[1:], value)
+	if err != nil {
+		return nil, err
+	}
 	current[index] = newValue
 	return current, nil
 }
-- 
2.43.0


From edb95520e28054f56d0c6acf7479302bcd9424fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:49 +0000
Subject: [PATCH 07/45] fix: return an error rather than panicking when a value
 can not be saved at a path

---
 transform/transformer.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/transform/transformer.go b/transform/transformer.go
index 8c3d9a6..401dfb1 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -252,9 +252,11 @@ func saveInTree(tree map[string]interface{}, path string, value interface{}) err
 
 	splits := strings.Split(path, ".")
 	if splits[0] == "$" {
-		path = path[2:]
 		splits = splits[1:]
 	}
+	if len(splits) == 0 {
+		return errors.New("a value can not be saved at the root of the tree")
+	}
 
 	if len(splits) == 1 {
 		return saveLeaf(tree, splits[0], value)
@@ -263,8 +265,11 @@ func saveInTree(tree map[string]interface{}, path string, value interface{}) err
 	arraySplits := strings.Split(splits[0], "[")
 	if len(arraySplits) != 1 { // the case of an array or nested arrays with an object in them
 		var sValue []interface{}
-		if rawSlice, ok := tree[arraySplits[0]]; ok {
-			sValue = rawSlice.([]interface{})
+		if rawSlice, ok := tree[arraySplits[0]]; ok && rawSlice != nil {
+			sValue, ok = rawSlice.([]interface{})
+			if !ok {
+				return fmt.Errorf("value at %q is not a []interface{}", arraySplits[0])
+			}
 		}
 
 		newTreeMap := make(map[string]interface{})
@@ -302,8 +307,11 @@ func saveLeaf(tree map[string]interface{}, path string, value interface{}) error
 	}
 
 	var sValue []interface{}
-	if rawSlice, ok := tree[arraySplits[0]]; ok {
-		sValue = rawSlice.([]interface{})
+	if rawSlice, ok := tree[arraySplits[0]]; ok && rawSlice != nil {
+		sValue, ok = rawSlice.([]interface{})
+		if !ok {
+			return fmt.Errorf("value at %q is not a []interface{}", arraySplits[0])
+		}
 	}
 
 	newValue, err := saveInSlice(sValue, arraySplits[1:], value)
@@ -319,6 +327,9 @@ func saveInSlice(current []interface{}, arraySplits []string, value interface{})
 	if err != nil {
 		return nil, fmt.Errorf("failed to determine index of %q", arraySplits[0])
 	}
+	if index < 0 {
+		return nil, fmt.Errorf("negative index %d", index)
+	}
 
 	if current == nil {
 		current = make([]interface{}, 0, index)
-- 
2.43.0


From 9ee47bfd4aedf338712c9e31f75c16d8ce746ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:52 +0000
Subject: [PATCH 08/45] fix: return an error for property names which are not
 usable in a path rather than panicking

---
 transform/transformer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/transform/transformer.go b/transform/transformer.go
index 401dfb1..72fc3d2 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -189,16 +189,21 @@ func (tr *Transformer) findParent(path string) (instanceTransformer, error) {
 		// TODO this will probably choke on a root level array
 		return nil, errors.New("paths must start with '$'")
 	}
+	if len(splits) == 1 {
+		return nil, fmt.Errorf("path %q has no parent", path)
+	}
 	parentSplits := splits[1 : len(splits)-1]
 
 	parent := tr.root
 	for _, sp := range parentSplits {
 		if sp == "[*]" {
 			parent = parent.child()
-			continue
+		} else {
+			parent = parent.selectChild(sp)
+		}
+		if parent == nil {
+			return nil, fmt.Errorf("no parent found for path %q", path)
 		}
-
-		parent = parent.selectChild(sp)
 	}
 
 	return parent, nil
-- 
2.43.0


From 2b07700a71283ee2313b7752d8494737149bf7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:56 +0000
Subject: [PATCH 09/45] fix: return an error for a null transform instruction
 rather than panicking

---
 transform/transform.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transform/transform.go b/transform/transform.go
index b2e2d4e..434b36a 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -242,6 +242,12 @@ func (tis *transformInstructions) UnmarshalJSON(data []byte) error {
 		return fmt.Errorf("failed to extract transform from JSON: %v", err)
 	}
 
+	for _, instruction := range jtis.From {
+		if instruction == nil {
+			return errors.New("null is not a valid transform instruction")
+		}
+	}
+
 	tis.From = jtis.From
 	tis.MethodOptions = jtis.MethodOptions
 
-- 
2.43.0


From 65aa59867b077966b18468075582945de273aa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:00 +0000
Subject: [PATCH 10/45] fix: treat XML nodes which could not be converted to a
 scalar as a missing value

---
 transform/transform.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transform/transform.go b/transform/transform.go
index 434b36a..31d5946 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -168,6 +168,10 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 			return nil, fmt.Errorf("failed operation on value from xmlPath %q: %v", path, err)
 		}
 	}
+	if _, ok := value.([]*xmlquery.Node); ok && fieldType != "array" && fieldType != "object" {
+		// no operation made use of the nodes and they can not be the value of a scalar
+		return nil, nil
+	}
 	return value, nil
 }
 
-- 
2.43.0


From 536bfec28194baae06eb9e031126cd8909052235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:33 +0000
Subject: [PATCH 11/45] fix: transform the children of an object in a
 consistent order

---
 transform/instance.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index 83fb8e8..9bdbb93 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"sort"
 	"strings"
 
 	jsonpath "github.com/GannettDigital/PaesslerAG_jsonpath"
@@ -316,6 +317,17 @@ func (ot *objectTransformer) child() instanceTransformer                 { retur
 func (ot *objectTransformer) path() string                               { return ot.jsonPath }
 func (ot *objectTransformer) selectChild(key string) instanceTransformer { return ot.children[key] }
 
+// childNames returns the names of the children in a consistent order. The order matters as array children save their
+// value to the input, where the transforms of other children can use it.
+func (ot *objectTransformer) childNames() []string {
+	names := make([]string, 0, len(ot.children))
+	for name := range ot.children {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // objectTransformJSON retrieves the value for this object by building the value for the base object and then adding in any
 // transforms for all defined child fields.
 func (ot *objectTransformer) objectTransformJSON(in interface{}, modifier pathModifier) (interface{}, error) {
@@ -348,7 +360,8 @@ func (ot *objectTransformer) objectTransformJSON(in interface{}, modifier pathMo
 	}
 
 	// Add each child value to the paren
-	for _, child := range ot.children {
+	for _, name := range ot.childNames() {
+		child := ot.children[name]
 		childValue, err := child.transform(in, modifier)
 		if err != nil {
 			return nil, err
@@ -418,7 +431,8 @@ func (ot *objectTransformer) objectTransformXML(in interface{}, modifier pathMod
 	}
 
 	// Add each child value to the parent if there is no object transform or if the object transform node is found
-	for _, child := range ot.children {
+	for _, name := range ot.childNames() {
+		child := ot.children[name]
 		childValue, err := child.transform(in, modifier)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 9d66a682d28f6af389e252b7143c61c67a19e89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:38 +0000
Subject: [PATCH 12/45] fix: walk the properties of a schema in a consistent
 order

---
 jsonschema/walk.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/jsonschema/walk.go b/jsonschema/walk.go
index fa759cf..2e6a70a 100644
--- a/jsonschema/walk.go
+++ b/jsonschema/walk.go
@@ -4,6 +4,7 @@ package jsonschema
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/GannettDigital/jsonparser"
@@ -26,7 +27,8 @@ type WalkRawFunc func(path string, value json.RawMessage) error
 func Walk(s *Schema, walkFn WalkInstanceFunc) error {
 	rootPath := "$"
 
-	for key, value := range s.Properties {
+	for _, key := range propertyNames(s.Properties) {
+		value := s.Properties[key]
 		if err := walkInstance(value, prependJSONPath(rootPath, key), walkFn); err != nil {
 			return err
 		}
@@ -40,6 +42,16 @@ func Walk(s *Schema, walkFn WalkInstanceFunc) error {
 	return nil
 }
 
+// propertyNames returns the names of the properties sorted so that walking a schema always happens in the same order.
+func propertyNames(properties map[string]json.RawMessage) []string {
+	names := make([]string, 0, len(properties))
+	for name := range properties {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // prependJSONPath a parent JSONPath to the beginning of a JSONPath.
 // This allows for incrementally building up the full JSONPath.
 func prependJSONPath(parent string, child string) string {
@@ -72,7 +84,8 @@ func walkInstance(raw json.RawMessage, path string, walkFn WalkInstanceFunc) err
 		if i.Properties == nil {
 			return fmt.Errorf("object at path %q missing Properties", path)
 		}
-		for key, value := range i.Properties {
+		for _, key := range propertyNames(i.Properties) {
+			value := i.Properties[key]
 			if err := walkInstance(value, prependJSONPath(path, key), walkFn); err != nil {
 				return err
 			}
@@ -95,7 +108,8 @@ func walkInstance(raw json.RawMessage, path string, walkFn WalkInstanceFunc) err
 func WalkRaw(s *Schema, walkFn WalkRawFunc) error {
 	rootPath := "$"
 
-	for key, value := range s.Properties {
+	for _, key := range propertyNames(s.Properties) {
+		value := s.Properties[key]
 		if err := walkRaw(value, prependJSONPath(rootPath, key), walkFn); err != nil {
 			return err
 		}
-- 
2.43.0


From 899903b8115016f887a0033ab6847f0671c7807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:43 +0000
Subject: [PATCH 13/45] fix: check the status and close the body of the
 response for an HTTP reference

---
 jsonschema/reference.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index ecee038..e1999df 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -176,6 +176,10 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 		if err != nil {
 			return nil, fmt.Errorf("unable to get reference from %q: %v", sourcePath, err)
 		}
+		defer resp.Body.Close()
+		if resp.StatusCode != http.StatusOK {
+			return nil, fmt.Errorf("unable to get reference from %q: unexpected status %q", sourcePath, resp.Status)
+		}
 		source, err = io.ReadAll(resp.Body)
 		if err != nil {
 			return nil, fmt.Errorf("failed to read body from %q: %v", sourcePath, err)
-- 
2.43.0


From 0f1dbc00abdf35808eb7b67afb4e92d26065e8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:48 +0000
Subject: [PATCH 14/45] fix: return the error from finding references within an
 array

---
 jsonschema/reference.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index e1999df..144dc95 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -119,6 +119,7 @@ func findRefs(data json.RawMessage) ([][]string, error) {
 			}
 		case jsonparser.Array:
 			var index int
+			var itemErr error
 			_, err := jsonparser.ArrayEach(value, func(avalue []byte, adataType jsonparser.ValueType, aoffset int, aerr error) {
 				currentIndex := fmt.Sprintf("[%d]", index)
 				index++
@@ -127,6 +128,7 @@ func findRefs(data json.RawMessage) ([][]string, error) {
 				}
 				cRefs, err := findRefs(avalue)
 				if err != nil {
+					itemErr = err
 					return
 				}
 				for _, r := range cRefs {
@@ -137,6 +139,9 @@ func findRefs(data json.RawMessage) ([][]string, error) {
 			if err != nil {
 				return err
 			}
+			if itemErr != nil {
+				return itemErr
+			}
 		}
 		return nil
 	})
-- 
2.43.0


From 5ed66d6983b9070818e47fb7fbac07237fc33d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:41 +0000
Subject: [PATCH 15/45] fix: order fields whose names are equal by their key so
 none is lost and the order is consistent

---
 generate/graphql.go | 18 +++++++++++-------
 generate/struct.go  | 18 +++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 9965b3d..cd9c33e 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -315,18 +315,22 @@ func (ef *gqlExtractedField) write(w io.Writer, prefix string, required, descrip
 
 // Sorted will return the fields in a sorted list. The sort is a string sort on the keys.
 func (efs gqlExtractedFields) Sorted() []*gqlExtractedField {
-	var sortedKeys sort.StringSlice
-	fieldsByName := make(map[string]*gqlExtractedField, len(efs))
-	for _, f := range efs {
-		sortedKeys = append(sortedKeys, f.name)
-		fieldsByName[f.name] = f
+	sortedKeys := make([]string, 0, len(efs))
+	for key := range efs {
+		sortedKeys = append(sortedKeys, key)
 	}
 
-	sortedKeys.Sort()
+	// more than one key can result in the same name so order by the key within a name
+	sort.Slice(sortedKeys, func(i, j int) bool {
+		if a, b := efs[sortedKeys[i]].name, efs[sortedKeys[j]].name; a != b {
+			return a < b
+		}
+		return sortedKeys[i] < sortedKeys[j]
+	})
 
 	sorted := make([]*gqlExtractedField, 0, len(sortedKeys))
 	for _, key := range sortedKeys {
-		sorted = append(sorted, fieldsByName[key])
+		sorted = append(sorted, efs[key])
 	}
 
 	return sorted
diff --git a/generate/struct.go b/generate/struct.go
index c0adea1..253ca19 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -105,17 +105,21 @@ func (efs extractedFields) IncludeTime() bool {
 // Sorted will return the fields in a sorted list. The sort is a string sort on the keys.
 func (efs extractedFields) Sorted() []*extractedField {
 	var sorted []*extractedField
-	var sortedKeys sort.StringSlice
-	fieldsByName := make(map[string]*extractedField)
-	for _, f := range efs {
-		sortedKeys = append(sortedKeys, f.name)
-		fieldsByName[f.name] = f
+	var sortedKeys []string
+	for key := range efs {
+		sortedKeys = append(sortedKeys, key)
 	}
 
-	sortedKeys.Sort()
+	// more than one key can result in the same name so order by the key within a name
+	sort.Slice(sortedKeys, func(i, j int) bool {
+		if a, b := efs[sortedKeys[i]].name, efs[sortedKeys[j]].name; a != b {
+			return a < b
+		}
+		return sortedKeys[i] < sortedKeys[j]
+	})
 
 	for _, key := range sortedKeys {
-		sorted = append(sorted, fieldsByName[key])
+		sorted = append(sorted, efs[key])
 	}
 
 	return sorted
-- 
2.43.0


From a6828254f05ccb6b0f5774b8ec72bb67095e1e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:45 +0000
Subject: [PATCH 16/45] fix: report a failure to close a generated struct file

---
 generate/generate.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/generate/generate.go b/generate/generate.go
index 79cd534..991559c 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -248,8 +248,13 @@ func buildStructFile(childPath, name, packageName string, embeds []string, args
 	}
 	defer gfile.Close()
 
-	err = generated.write(gfile)
-	return outPath, err
+	if err := generated.write(gfile); err != nil {
+		return outPath, err
+	}
+	if err := gfile.Close(); err != nil {
+		return outPath, fmt.Errorf("failed to close file %q: %v", outPath, err)
+	}
+	return outPath, nil
 }
 
 // exportedName returns a name that is usable as an exported field in Go.
-- 
2.43.0


From 05ef80a15b9146d82b87a3b57720da83c8c0d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:49 +0000
Subject: [PATCH 17/45] fix: close the GraphQL files when generation fails

---
 generate/graphql.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generate/graphql.go b/generate/graphql.go
index cd9c33e..bdfb03e 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -79,6 +79,7 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 	if err != nil {
 		return fmt.Errorf("failed to open file %q: %w", outPath, err)
 	}
+	defer gfile.Close() // only has an effect when returning early due to an error
 	if _, err := fmt.Fprintf(gfile, "# %s\n", disclaimer); err != nil {
 		return fmt.Errorf("failed writing GraphQL: %w", err)
 	}
@@ -234,6 +235,7 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 			if err != nil {
 				return fmt.Errorf("failed to open file %q: %w", outPath, err)
 			}
+			defer gfile.Close() // only has an effect when returning early due to an error
 			if _, err := fmt.Fprintf(gfile, "# %s\n", disclaimer); err != nil {
 				return fmt.Errorf("failed writing GraphQL: %w", err)
 			}
-- 
2.43.0


From e7bc5a59815ffc57ed64141d6fe2ed9cda15dc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:53 +0000
Subject: [PATCH 18/45] fix: report a failure to write an Avro schema file and
 close it on all returns

---
 generate/avro.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index 071a13d..87bfa9f 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -112,18 +112,12 @@ func buildAvroSchemaFile(name, goSourcePath string, pretty bool) (string, error)
 	if err != nil {
 		return outPath, fmt.Errorf("failed to open file %q: %v", outPath, err)
 	}
+	defer specFile.Close() // only has an effect when returning early due to an error
 
-	var writer io.Writer
-	var buf *bytes.Buffer
-	writer = specFile
-	if pretty {
-		buf = &bytes.Buffer{}
-		writer = buf
-	}
-
+	buf := &bytes.Buffer{}
 	cfg := avroConfig{
 		dir:              dir,
-		writer:           writer,
+		writer:           buf,
 		excludeNamespace: make(map[string]bool),
 	}
 
@@ -138,6 +132,8 @@ func buildAvroSchemaFile(name, goSourcePath string, pretty bool) (string, error)
 		if err := enc.Encode(rawJSON); err != nil {
 			return "", fmt.Errorf("failed writing pretty output to file: %v", err)
 		}
+	} else if _, err := specFile.Write(buf.Bytes()); err != nil {
+		return "", fmt.Errorf("failed writing file: %v", err)
 	}
 
 	if err := specFile.Close(); err != nil {
-- 
2.43.0


From 2b79444633d4a0d3052be70d5588ba07f6baee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:57 +0000
Subject: [PATCH 19/45] fix: use the mapping generated for a map of pointers as
 is done for arrays

---
 generate/avro_helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index c3dbdc0..688312f 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -297,7 +297,7 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 			return mappedFields{}, fmt.Errorf("avro type is map but generated isn't for field %q", name)
 		}
 		if ptr, ok := f.Value.(*ast.StarExpr); ok {
-			fm.generateFieldValue(name, prefix, ptr.X, generatedField)
+			return fm.generateFieldValue(name, prefix, ptr.X, generatedField)
 		}
 		return fm.generateFieldValue(name, prefix, f.Value, generatedField)
 	case *ast.ArrayType:
-- 
2.43.0


From 5331e731e8491038f64f5e1c82c524e8d068a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:17 +0000
Subject: [PATCH 20/45] fix: return the error from building an object
 transformer rather than dropping it

---
 transform/transformer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transform/transformer.go b/transform/transformer.go
index 72fc3d2..cde1b89 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -220,9 +220,9 @@ func (tr *Transformer) walker(path string, value json.RawMessage) error {
 	var iTransformer instanceTransformer
 	switch instanceType {
 	case "object":
-		properties, _, _, err := jsonparser.Get(value, "properties")
-		if err != nil {
-			return fmt.Errorf("failed to extract properties: %v", err)
+		properties, _, _, propErr := jsonparser.Get(value, "properties")
+		if propErr != nil {
+			return fmt.Errorf("failed to extract properties: %v", propErr)
 		}
 		if string(properties) == "{}" { // Checks for empty "properties"
 			iTransformer, err = newScalarTransformer(path, tr.transformIdentifier, value, instanceType, tr.format)
-- 
2.43.0


From 17667eca1d7a57098a278fe9c209dc6df232ba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:55 +0000
Subject: [PATCH 21/45] fix: find the maximum item when no item is greater than
 zero

---
 transform/operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform/operations.go b/transform/operations.go
index 942f8e6..24a0743 100644
--- a/transform/operations.go
+++ b/transform/operations.go
@@ -180,7 +180,7 @@ func (m *max) transform(in interface{}) (interface{}, error) {
 			}
 			by = float64(byInt)
 		}
-		if by > largest {
+		if i == 0 || by > largest {
 			largest = by
 			largestIndex = i
 		}
-- 
2.43.0


From 4ff21e606054b6cd2e144fd97fd36a9245c30c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:33 +0000
Subject: [PATCH 22/45] fix: merge every allOf of a schema without properties
 when not flattening rather than only the first

---
 jsonschema/schema.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index ed62891..33a10ec 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -132,10 +132,11 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 		// TODO this behavior is not spec compatible, according to the spec it is possible to have multiple allOf instances
 		// that conflict. The legit use case for that is rare but it is in the spec. Rather than merge these the walk
 		// should go through each set of files but this makes the raw walking much more complicated.
+		hasProperties := sj.Properties != nil
 		for _, all := range sj.AllOf {
 			// If not flattening, check that the schema also has properties in order to avoid issues with schemas that only
 			// contain oneOf/allOf references.
-			if !flatten && s.Properties != nil {
+			if !flatten && hasProperties {
 				continue
 			}
 			s.Properties = mergeProperties(s.Properties, all.Properties)
-- 
2.43.0


From ddfb9cc926733d1c1d2658734e1ad09eb438b061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:34 +0000
Subject: [PATCH 23/45] fix: do not mix up cached schemas when a path or type
 contains the separator of the cache key

---
 jsonschema/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index 33a10ec..c128b4b 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -99,7 +99,7 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 	if err != nil {
 		return nil, err
 	}
-	schemaKey := schemaPath + "|" + oneOfType + "|" + strconv.FormatBool(flatten)
+	schemaKey := strconv.Quote(schemaPath) + "|" + strconv.Quote(oneOfType) + "|" + strconv.FormatBool(flatten)
 	return schemaCache.Load(schemaKey, func() (*Schema, error) {
 		data, err := os.ReadFile(schemaPath)
 		if err != nil {
-- 
2.43.0


From 0076f9b7a45f83a1bc92b44fcb4eaa19828169dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 24/45] fix: do not escape the strings kept from an object with
 a reference a second time

---
 jsonschema/reference.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index 144dc95..bcb5e38 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -65,10 +65,8 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 					keyPath := destPath
 					keyPath = append(keyPath, string(key))
 					if dataType == jsonparser.String {
-						value, err = json.Marshal(string(value))
-						if err != nil {
-							return fmt.Errorf("failed to marshal string %q to update data with ref %q at path %v key %q: %w", value, ref, refPath, key, err)
-						}
+						// the value of a string is still escaped, only its quotes are removed
+						value = []byte(`"` + string(value) + `"`)
 					}
 					data, err = jsonparser.Set(data, value, keyPath...)
 					if err != nil {
-- 
2.43.0


From f29e178279629b081c5fcafca2564d98bfc1f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 25/45] fix: only take references which start with http:// or
 https:// as such and others as files

---
 jsonschema/reference.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index bcb5e38..5faddcd 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -174,7 +174,7 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 	switch {
 	case sourcePath == "":
 		source = data
-	case strings.HasPrefix(sourcePath, "http"):
+	case strings.HasPrefix(sourcePath, "http://"), strings.HasPrefix(sourcePath, "https://"):
 		resp, err := http.Get(sourcePath)
 		if err != nil {
 			return nil, fmt.Errorf("unable to get reference from %q: %v", sourcePath, err)
-- 
2.43.0


From 610175d4a9d378569f27fc1a0779ee9c4213bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:26 +0000
Subject: [PATCH 26/45] fix: copy the values instructions take from the input
 so that saving children in them does not change the input

---
 transform/instance.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transform/instance.go b/transform/instance.go
index 9bdbb93..5478078 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -92,7 +92,8 @@ func (at *arrayTransformer) baseValueJSON(in interface{}, path string, modifier
 			if !ok {
 				newValue = []interface{}{rawValue}
 			}
-			return newValue, true, nil
+			// the value is saved to the input, where it must not be the same as the one it is taken from
+			return copyValue(newValue).([]interface{}), true, nil
 		}
 	}
 
@@ -349,6 +350,8 @@ func (ot *objectTransformer) objectTransformJSON(in interface{}, modifier pathMo
 			if !ok {
 				return nil, errors.New("transform returned non-object value")
 			}
+			// the children are saved in the object, which must not change the input the value is taken from
+			newValue = copyValue(newValue).(map[string]interface{})
 		}
 	}
 	if newValue == nil {
-- 
2.43.0


From 42476b693b5951a42235eae0880181fff1b0bf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:05 +0000
Subject: [PATCH 27/45] fix: do not refer to a struct without fields which is
 not written when it is a pointer

---
 generate/struct.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generate/struct.go b/generate/struct.go
index 253ca19..52d62bd 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -437,7 +437,8 @@ func (ef *extractedField) goType(required, pointers bool, nestedStructs map[stri
 	default:
 		// TODO: use additionalProperties JSON schema value to more intelligently create the target type\
 		// when no nested struct
-		if ns := nestedStructs[ef.jsonType]; ns != nil && len(ns.fields) == 0 && !ns.array {
+		// a struct without fields isn't written so neither it nor a pointer to it can be used
+		if ns := nestedStructs[strings.TrimPrefix(ef.jsonType, "*")]; ns != nil && len(ns.fields) == 0 && !ns.array {
 			goType = "map[string]string"
 		} else {
 			goType = ef.jsonType
-- 
2.43.0


From 5a8672ca90a013125a424a15a15143cbf939c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:20 +0000
Subject: [PATCH 28/45] fix: let a list which can be null be null in GraphQL

---
 generate/graphql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index bdfb03e..96a68c8 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -633,7 +633,7 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 				// Need to preserve the value if this array's item type had a GraphQL hydration target.
 				if f.target == "" && inst.Target != "" {
 					f.target = "[" + inst.Target + "]"
-					if !(f.nullable || gen.args.Pointers && !gen.requiredFields[f.jsonName]) {
+					if !(f.arrayNullable || gen.args.Pointers && !gen.requiredFields[f.jsonName]) {
 						f.target += "!"
 					}
 				}
@@ -649,9 +649,9 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 		switch f.jsonType {
 		case "array":
 			f.jsonType = ""
+			f.arrayNullable = f.nullable
 			f.nullable = false
 			f.array = true
-			f.arrayNullable = f.nullable
 
 			totalDescription := fmt.Sprintf("The total length of the %s list at this same level in the data, this number is unaffected by filtering.", fieldName)
 			// If the field this is a total of is deprecated then also use its deprecation message (first line of description).
-- 
2.43.0


From 2b840cb76c3866bccefa1db92e5c56af51009656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:34 +0000
Subject: [PATCH 29/45] fix: write the target of list items as their GraphQL
 type and not as a list of its own

---
 generate/graphql.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 96a68c8..8d78e6f 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -632,9 +632,13 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 				}
 				// Need to preserve the value if this array's item type had a GraphQL hydration target.
 				if f.target == "" && inst.Target != "" {
-					f.target = "[" + inst.Target + "]"
-					if !(f.arrayNullable || gen.args.Pointers && !gen.requiredFields[f.jsonName]) {
-						f.target += "!"
+					f.target = inst.Target
+					// The type of a hydrated field is its target as it is, for others the list is added to the target later.
+					if f.jsonType == "graphql-hydration" {
+						f.target = "[" + inst.Target + "]"
+						if !(f.arrayNullable || gen.args.Pointers && !gen.requiredFields[f.jsonName]) {
+							f.target += "!"
+						}
 					}
 				}
 			} else {
-- 
2.43.0


From a16ea3962407710cda0102d5e63cf6dac1ae85b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:35 +0000
Subject: [PATCH 30/45] fix: escape quotes and backslashes in GraphQL
 descriptions

---
 generate/graphql.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generate/graphql.go b/generate/graphql.go
index 8d78e6f..7eb90cc 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -757,9 +757,11 @@ func (ef *gqlExtractedField) graphqlType(required, pointers bool) (string, strin
 // graphqlComment takes a string and returns GraphQL comment syntax.
 func graphqlComment(prefix, description string) string {
 	if strings.IndexRune(description, '\n') < 0 {
+		description = strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\r", "\\r").Replace(description)
 		return fmt.Sprintf("%s\"%s\"\n", prefix, description)
 	}
 	// Multi-line descriptions get the """ comment syntax.
+	description = strings.ReplaceAll(description, `"""`, `\"""`)
 	newDescription := prefix + `"""` + "\n"
 	for _, line := range strings.Split(description, "\n") {
 		if line != "" {
-- 
2.43.0


From dff3108dd9776f70ad8c90860a545eaf9f776fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 31/45] fix: report an array of arrays instead of writing a
 field which is no GraphQL

---
 generate/graphql.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generate/graphql.go b/generate/graphql.go
index 7eb90cc..0faa98f 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -627,6 +627,9 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 		if exists, ok := gen.fields[f.jsonName]; ok {
 			f = exists
 			if f.array {
+				if jsonType == "array" {
+					return fmt.Errorf("field %q is an array of arrays which is not supported", f.name)
+				}
 				if f.jsonType == "" {
 					f.jsonType = jsonType
 				}
-- 
2.43.0


From 874414ce2c4ae89e526d6b9282fe71f00d06aa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:01 +0000
Subject: [PATCH 32/45] fix: keep the embedded parts of a oneOf out of the
 following ones and write the GraphQL types of their objects

---
 generate/graphql.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/generate/graphql.go b/generate/graphql.go
index 0faa98f..52d610a 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -175,6 +175,10 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 	}
 
 	// If the schema has one or more OneOf definitions then these are the Implementations of the Interface type.
+	writtenTypes := make(map[string]bool, len(schema.AllOf))
+	if len(schema.AllOf) != 0 {
+		writtenTypes[strings.Split(filepath.Base(schema.AllOf[0].FromRef), ".")[0]] = true
+	}
 	for _, oneOfSchema := range schema.OneOf {
 		oneOfName := strings.Split(filepath.Base(oneOfSchema.FromRef), ".")[0]
 		generated, err := newGeneratedGraphQLFile(oneOfSchema, oneOfName, packageName, len(schema.AllOf) != 0, args)
@@ -191,6 +195,8 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 			}
 			generated.rootStruct.implements = implements
 		}
+		// The parts of this implementation are not those of the following ones.
+		common := common[:len(common):len(common)]
 		if args.EmbedAllOf && len(oneOfSchema.AllOf) != 0 {
 			for _, allOf := range oneOfSchema.AllOf {
 				baseName := strings.Split(filepath.Base(allOf.FromRef), ".")[0]
@@ -199,6 +205,13 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 					return fmt.Errorf("failed to build generated struct: %w", err)
 				}
 				common = append(common, allOfGen)
+				// The types of nested objects are written once, by the first implementation having them.
+				if !writtenTypes[baseName] {
+					writtenTypes[baseName] = true
+					for nk, nv := range allOfGen.nestedStructs {
+						generated.nestedStructs[nk] = nv
+					}
+				}
 			}
 		}
 
-- 
2.43.0


From 09dc5f1058c5ed6fabed8a098f709f117380be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:21 +0000
Subject: [PATCH 33/45] fix: give the GraphQL interface the name its
 implementations refer to

---
 generate/graphql.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 52d610a..e7c20c9 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -103,6 +103,12 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 		return err
 	}
 
+	// The name of the Interface type and what its Implementations refer to.
+	interfaceName, renamed := args.GraphQLTypeNameMap[name]
+	if !renamed {
+		interfaceName = exportedName(name)
+	}
+
 	// If the schema has one or more AllOf definitions then this has an Interface type.
 	var common []*goGQL
 	var commonFields int
@@ -139,6 +145,9 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 		}
 		if len(common) != 0 {
 			obj.rootStruct.gqlExtractedField.jsonName = exportedName(packageName)
+			if renamed {
+				obj.rootStruct.gqlExtractedField.jsonName = interfaceName
+			}
 			name := strings.Split(filepath.Base(schema.AllOf[0].FromRef), ".")[0]
 			if newName, ok := args.StructNameMap[name]; ok {
 				name = newName
@@ -160,11 +169,7 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 				}
 			}
 			if len(schema.OneOf) != 0 {
-				if newName, ok := args.GraphQLTypeNameMap[packageName]; ok {
-					obj.rootStruct.gqlExtractedField.jsonName = newName
-				} else {
-					obj.rootStruct.gqlExtractedField.jsonName = exportedName(packageName)
-				}
+				obj.rootStruct.gqlExtractedField.jsonName = interfaceName
 				obj.rootStruct.gqlExtractedField.name = obj.rootStruct.gqlExtractedField.jsonName
 				obj.rootStruct.buildType = "interface"
 			}
@@ -187,13 +192,7 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 		}
 		if len(schema.AllOf) != 0 {
 			// Only an implementation of an interface if there was also an AllOf schema.
-			var implements string
-			if newName, ok := args.GraphQLTypeNameMap[name]; ok {
-				implements = newName
-			} else {
-				implements = exportedName(name)
-			}
-			generated.rootStruct.implements = implements
+			generated.rootStruct.implements = interfaceName
 		}
 		// The parts of this implementation are not those of the following ones.
 		common := common[:len(common):len(common)]
-- 
2.43.0


From fb720e83774b81389ee051bc1ddced08c9cf190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:57 +0000
Subject: [PATCH 34/45] fix: write Avro code which compiles for values which
 can be null

---
 generate/avro.go         |  3 ++-
 generate/avro_helpers.go | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index 87bfa9f..7fd9a59 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -315,7 +315,8 @@ func writeAvroField(cfg avroConfig, f *ast.Field, fieldMap map[string]bool) bool
 		name = tagName
 	}
 
-	avroType := fmt.Sprintf(`"type":%s`, convertToAvroType(cfg, f.Type, name, omitEmpty))
+	_, pointer := f.Type.(*ast.StarExpr)
+	avroType := fmt.Sprintf(`"type":%s`, convertToAvroType(cfg, f.Type, name, omitEmpty || pointer))
 
 	avroName := fmt.Sprintf(`"name":%q`, name)
 	if len(cfg.namespace) != 0 {
diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index 688312f..68c0ab7 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -94,6 +94,18 @@ func AvroOptionalTimeSlice(times []*time.Time) []int64 {
 	return newTimes
 }
 
+// AvroOptionalSlice returns the values the given slice points to leaving out those which are nil.
+// If the array is empty or all values are nil a nil slice is returned.
+func AvroOptionalSlice[T any](pointers []*T) []T {
+	var values []T
+	for _, p := range pointers {
+		if p != nil {
+			values = append(values, *p)
+		}
+	}
+	return values
+}
+
 // buildAvroHelperFunctions creates functions for the given type which make it easy to output an Avro container file.
 // The functions are based on the generated Go struct and the serialization code generated by the gogen-avro package.
 func buildAvroHelperFunctions(name, goSourcePath, importPath string) error {
@@ -312,10 +324,10 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 		typeName := f.Name
 		switch typeName { // handle builtin types
 		case "string", "bool", "float64":
-			return mappedFields{fieldMapping: "z." + prefix + generatedField.Names[0].Name, name: prefix + name}, nil
+			return mappedFields{fieldMapping: scalarValue("z."+prefix+generatedField.Names[0].Name, generatedField.Type), name: prefix + name}, nil
 		case "int64":
 			// special case for converting time fields and arrays of times
-			m := mappedFields{fieldMapping: "z." + prefix + generatedField.Names[0].Name, name: prefix + name}
+			m := mappedFields{fieldMapping: scalarValue("z."+prefix+generatedField.Names[0].Name, generatedField.Type), name: prefix + name}
 			fieldType := generatedField.Type
 			pointer := false
 			if p, ok := generatedField.Type.(*ast.StarExpr); ok {
@@ -353,6 +365,8 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 			}
 			if selector, ok := fieldType.(*ast.SelectorExpr); ok && selector.Sel.Name == "Time" {
 				format = map[string]string{"packageName": fm.packageName, "value": fmt.Sprintf("generate.AvroTime(z.%s)", prefix+name)}
+			} else if pointer {
+				format["value"] = "*" + format["value"]
 			}
 			if err := tmpl.Execute(buf, format); err != nil {
 				return mappedFields{}, fmt.Errorf("failed union template: %v", err)
@@ -388,6 +402,20 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 	return mappedFields{}, fmt.Errorf("unhandled type for field %q", prefix+name)
 }
 
+// scalarValue generates the code for the value, or the slice of values, of a scalar field in the generated struct.
+// Optional booleans have false as default in Avro and the items of Avro arrays are never null.
+func scalarValue(field string, fieldType ast.Expr) string {
+	switch t := fieldType.(type) {
+	case *ast.StarExpr:
+		return fmt.Sprintf("%s != nil && *%s", field, field)
+	case *ast.ArrayType:
+		if _, ok := t.Elt.(*ast.StarExpr); ok {
+			return fmt.Sprintf("generate.AvroOptionalSlice(%s)", field)
+		}
+	}
+	return field
+}
+
 func (fm *avroFieldMapper) generateNullableFieldValue(name, prefix, fieldTypeName, fieldValue string) string {
 	returnType := fmt.Sprintf("*%s.%s", fm.packageName, fieldTypeName)
 	return fmt.Sprintf(
-- 
2.43.0


From b776f47155804971e244640aad7fa766aba90fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:24 +0000
Subject: [PATCH 35/45] fix: keep all fields of an anonymous struct in the
 parameters of Avro slice functions

---
 generate/avro_helpers.go | 46 +++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index 68c0ab7..d256654 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -13,6 +13,8 @@ import (
 	"strings"
 	"text/template"
 	"time"
+
+	"golang.org/x/tools/go/ast/astutil"
 )
 
 // invalidFieldNames is a list of field names that conflict with hard-coded method names on
@@ -575,34 +577,30 @@ func printFields(list *ast.FieldList) string {
 		}
 		name := f.Names[0]
 
-		switch fType := f.Type.(type) {
-		case *ast.Ident:
-			out += fmt.Sprintf("%s %s %s\n", name, fType.Name, f.Tag.Value)
-		case *ast.ArrayType:
-			// Handle the case where an array of structs is inside an array of structs.
-			str, ok := fType.Elt.(*ast.StructType)
-			if ok {
-				out += fmt.Sprintf("%s []struct{\n%s} %s\n", name, printFields(str.Fields), f.Tag.Value)
-				continue
-			}
-
-			ident, ok := fType.Elt.(*ast.Ident)
-			if !ok {
-				return "unknown array type"
-			}
-			out += fmt.Sprintf("%s []%s %s\n", name, ident.Name, f.Tag.Value)
-		case *ast.SelectorExpr:
-			if fType.Sel.Name != "Time" {
-				return fmt.Sprintf(`unsupported type %q`, fType.Sel.Name)
-			}
-			out += fmt.Sprintf("%s time.Time %s\n", name, f.Tag.Value)
-		case *ast.StructType:
-			out += fmt.Sprintf("%s struct{\n%s} %s\n", name, printFields(fType.Fields), f.Tag.Value)
-		}
+		out += fmt.Sprintf("%s %s %s\n", name, printType(f.Type), f.Tag.Value)
 	}
 	return out
 }
 
+// printType outputs a type as it was read from the original code.
+func printType(expr ast.Expr) string {
+	switch t := expr.(type) {
+	case *ast.Ident:
+		return t.Name
+	case *ast.StarExpr:
+		return "*" + printType(t.X)
+	case *ast.ArrayType:
+		return "[]" + printType(t.Elt)
+	case *ast.MapType:
+		return fmt.Sprintf("map[%s]%s", printType(t.Key), printType(t.Value))
+	case *ast.SelectorExpr:
+		return printType(t.X) + "." + t.Sel.Name
+	case *ast.StructType:
+		return fmt.Sprintf("struct{\n%s}", printFields(t.Fields))
+	}
+	return fmt.Sprintf("unsupported type %q", astutil.NodeDescription(expr))
+}
+
 // writeCodeTemplate will execute a template from src with values and write to path.
 // The assumption is this is go code so it will have standard go formatting applied.
 func writeCodeTemplate(src string, values map[string]string, path string) error {
-- 
2.43.0


From 9bc21a11a28c9fe377e8a3b74aeb019b54397db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:06 +0000
Subject: [PATCH 36/45] fix: read the fields of the Go struct by their own
 names in Avro code

---
 generate/avro_helpers.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index d256654..80afe6d 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -295,7 +295,7 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 		// check for a nil pointer
 		if _, ok := generatedField.Type.(*ast.StarExpr); ok {
 			return mappedFields{
-				fieldMapping:  fm.generateNullableFieldValue(name, prefix, mappedField.name, fmt.Sprintf("&%s", mappedField.fieldMapping)),
+				fieldMapping:  fm.generateNullableFieldValue(generatedField.Names[0].Name, prefix, mappedField.name, fmt.Sprintf("&%s", mappedField.fieldMapping)),
 				preProcessing: mappedField.preProcessing,
 			}, nil
 		}
@@ -357,7 +357,7 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 		// If not a built in type it could be a special Avro Union type
 		if tmpl, ok := fm.unionTemplates[typeName]; ok {
 			buf := &bytes.Buffer{}
-			format := map[string]string{"packageName": fm.packageName, "value": "z." + prefix + name}
+			format := map[string]string{"packageName": fm.packageName, "value": "z." + prefix + generatedField.Names[0].Name}
 			// special case for converting time fields
 			fieldType := generatedField.Type
 			pointer := false
@@ -366,7 +366,7 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 				fieldType = p.X
 			}
 			if selector, ok := fieldType.(*ast.SelectorExpr); ok && selector.Sel.Name == "Time" {
-				format = map[string]string{"packageName": fm.packageName, "value": fmt.Sprintf("generate.AvroTime(z.%s)", prefix+name)}
+				format = map[string]string{"packageName": fm.packageName, "value": fmt.Sprintf("generate.AvroTime(z.%s)", prefix+generatedField.Names[0].Name)}
 			} else if pointer {
 				format["value"] = "*" + format["value"]
 			}
@@ -481,7 +481,7 @@ func (fm *avroFieldMapper) generateStructValue(name, prefix, typeName string, ge
 		}, nil
 	}
 
-	mappedField, _, err := fm.generateChildStruct(generatedField.Type, prefix+name, prefix+name+".", avroFields)
+	mappedField, _, err := fm.generateChildStruct(generatedField.Type, prefix+name, prefix+generatedField.Names[0].Name+".", avroFields)
 	if err != nil {
 		return mappedFields{}, err
 	}
-- 
2.43.0


From 741b1e5da123a51bd7b3c66a07e8ed3ad5db73f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:07 +0000
Subject: [PATCH 37/45] fix: write the values of properties with names starting
 with avro into Avro records

---
 generate/avro_helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index 80afe6d..2aedf4b 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -261,7 +261,7 @@ func (fm *avroFieldMapper) generateFields(prefix string, avroFields *ast.FieldLi
 			return mappedFields{}, errors.New("unknown embedded field in Avro struct")
 		}
 		name := f.Names[0].Name
-		if strings.HasPrefix(name, "Avro") { // skip metadata fields which are populated in the templated code
+		if name == "AvroWriteTime" || name == "AvroDeleted" { // skip metadata fields which are populated in the templated code
 			continue
 		}
 		generatedField, ok := generatedFieldsMap[name]
-- 
2.43.0


From 2188e46176c18498cc30b6227a91febefb5cd295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:09 +0000
Subject: [PATCH 38/45] fix: convert times outside the range of nanoseconds and
 before 1970 to the Avro timestamp they have

---
 generate/avro_helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index 2aedf4b..1f08a86 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -58,7 +58,7 @@ type AvroCFDeleter interface {
 // AvroTime converts the given time.Time into an int64 compatible with an Avro timestamp.millis logical type.
 // http://avro.apache.org/docs/current/spec.html#Date
 func AvroTime(t time.Time) int64 {
-	return t.UnixNano() / (int64(time.Millisecond) / int64(time.Nanosecond))
+	return t.UnixMilli()
 }
 
 // AvroTimeSlice converts the given []time.Time into a []int64 leveraging AvroTime.
@@ -77,7 +77,7 @@ func AvroOptionalTime(t *time.Time) int64 {
 	if t == nil {
 		return 0
 	}
-	return t.UnixNano() / (int64(time.Millisecond) / int64(time.Nanosecond))
+	return t.UnixMilli()
 }
 
 // AvroOptionalTimeSlice converts the given []time.Time into a []int64 leveraging AvroTime
-- 
2.43.0


From 24da00cfffaa9fd52e5a88bbf38d0280f0972b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:12 +0000
Subject: [PATCH 39/45] fix: write descriptions with quotes, backslashes or
 backticks into valid struct tags and Avro schemas

---
 generate/avro.go   | 13 +++++++++++--
 generate/struct.go | 10 ++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index 7fd9a59..247d17a 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"github.com/actgardner/gogen-avro/v7/generator"
@@ -236,7 +237,11 @@ func parseStructTag(literal *ast.BasicLit) (name, description string, omitEmpty
 	if literal == nil {
 		return
 	}
-	tag := reflect.StructTag(strings.Trim(literal.Value, "`"))
+	value, err := strconv.Unquote(literal.Value)
+	if err != nil {
+		value = literal.Value
+	}
+	tag := reflect.StructTag(value)
 
 	description = tag.Get("description")
 	jsonValue := tag.Get("json")
@@ -323,7 +328,11 @@ func writeAvroField(cfg avroConfig, f *ast.Field, fieldMap map[string]bool) bool
 		avroName += fmt.Sprintf(`,"namespace":%q`, strings.Join(cfg.namespace, "."))
 	}
 	if tagDescription != "" {
-		avroName += fmt.Sprintf(`,"doc":%q`, tagDescription)
+		doc, err := json.Marshal(tagDescription)
+		if err != nil {
+			return false
+		}
+		avroName += fmt.Sprintf(`,"doc":%s`, doc)
 	}
 
 	fmt.Fprintf(cfg.writer, "{%s,%s}", avroName, avroType)
diff --git a/generate/struct.go b/generate/struct.go
index 52d62bd..4515c97 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/GannettDigital/jstransform/jsonschema"
@@ -42,9 +43,14 @@ func (ef *extractedField) write(w io.Writer, prefix string, required, descriptio
 	jsonTag := fmt.Sprintf(`json:"%s%s"`, ef.jsonName, omitempty)
 	var description string
 	if descriptionAsStructTag && ef.description != "" {
-		description = fmt.Sprintf(`description:"%s"`, strings.Split(ef.description, "\n")[0])
+		description = fmt.Sprintf(`description:%q`, strings.Split(ef.description, "\n")[0])
+	}
+	structTag := strings.Trim(strings.Join([]string{jsonTag, description}, " "), " ")
+	if strconv.CanBackquote(structTag) {
+		structTag = fmt.Sprintf("`%s`\n", structTag)
+	} else {
+		structTag = fmt.Sprintf("%q\n", structTag)
 	}
-	structTag := fmt.Sprintf("`%s`\n", strings.Trim(strings.Join([]string{jsonTag, description}, " "), " "))
 
 	if !descriptionAsStructTag && ef.description != "" {
 		for _, line := range strings.Split(ef.description, "\n") {
-- 
2.43.0


From 7563d5ada7398442d3df0f8aed9f8fb570af086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:02 +0000
Subject: [PATCH 40/45] fix: give Avro records with equal names at different
 places different Go types

---
 generate/avro.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/generate/avro.go b/generate/avro.go
index 247d17a..937293a 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -36,9 +36,13 @@ type avroConfig struct {
 
 type normalizeNamer struct {
 	fieldNameMap map[string]string
+	repeated     map[string]bool // the simple names used by records in more than one namespace
 }
 
 func (nn normalizeNamer) ToPublicName(name string) string {
+	if strings.Contains(name, ".") && nn.repeated[generator.ToPublicSimpleName(name)] {
+		return generator.ToPublicSimpleName(strings.ReplaceAll(name, ".", "_"))
+	}
 	if fnm, exists := nn.fieldNameMap[name]; exists {
 		name = fnm
 	}
@@ -49,7 +53,6 @@ func (nn normalizeNamer) ToPublicName(name string) string {
 // code for the schema. It will create the directory `avro/<schema name>` and add the generated files there. The directory
 // is necessary because generated code for different types will clobber each other.
 func buildAvroSerializationFunctions(schemaPath string, args BuildArgs) error {
-	generator.SetNamer(normalizeNamer{args.FieldNameMap})
 	schemaName := strings.Split(filepath.Base(schemaPath), ".")[0]
 	pkg := generator.NewPackage(schemaName, "// Code generated by github.com/actgardner/gogen-avro. DO NOT EDIT.")
 	namespace := avroparser.NewNamespace(false)
@@ -64,6 +67,16 @@ func buildAvroSerializationFunctions(schemaPath string, args BuildArgs) error {
 		return fmt.Errorf("failed to decode schema file %q: %v", schemaPath, err)
 	}
 
+	// Records in different namespaces can have equal names but there is one Go package for all of them
+	count := make(map[string]int)
+	repeated := make(map[string]bool)
+	for _, def := range namespace.Roots {
+		name := generator.ToPublicSimpleName(def.AvroName().String())
+		count[name]++
+		repeated[name] = count[name] > 1
+	}
+	generator.SetNamer(normalizeNamer{fieldNameMap: args.FieldNameMap, repeated: repeated})
+
 	for _, def := range namespace.Roots {
 		if err := resolver.ResolveDefinition(def, namespace.Definitions); err != nil {
 			return fmt.Errorf("failed resolving Avro schema definition %q: %v", def.Name(), err)
-- 
2.43.0


From f606b56c1585ea4065c27af74ce4f2813f662f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:37 +0000
Subject: [PATCH 41/45] fix: write the struct of a part without fields, other
 parts embed it

---
 generate/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/struct.go b/generate/struct.go
index 4515c97..4e74b32 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -278,7 +278,7 @@ func (gof *goFile) write(w io.Writer) error {
 	}
 
 	for _, s := range gof.structs() {
-		if len(s.fields) == 0 {
+		if len(s.fields) == 0 && s != gof.rootStruct {
 			continue
 		}
 		if _, err := buf.Write([]byte("\n\n")); err != nil {
-- 
2.43.0


From 4dfa3b74b28e2353a78ba1d1e46b162b70882f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:31 +0000
Subject: [PATCH 42/45] fix: complete Avro schemas of structs which have no
 fields, embed structs of structs or structs from renamed files

---
 generate/avro.go         | 35 ++++++++++++++++++++++++++---------
 generate/avro_helpers.go |  2 +-
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index 937293a..4579088 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -137,6 +137,8 @@ func buildAvroSchemaFile(name, goSourcePath string, pretty bool) (string, error)
 
 	fmt.Fprint(cfg.writer, "{")
 	astutil.Apply(spec, writeAvroStruct(cfg, name, metadataFields), nil)
+	// without any other fields the metadata is followed by nothing
+	buf.Truncate(len(bytes.TrimSuffix(buf.Bytes(), []byte(","))))
 	fmt.Fprint(cfg.writer, "]}")
 
 	if pretty {
@@ -197,6 +199,16 @@ func parseGoStruct(name, path string) (*ast.TypeSpec, error) {
 	return t, nil
 }
 
+// parseEmbeddedStruct parses a struct which is embedded in one of the Go files in dir. It is usually found in the file
+// with its name but renamed structs can be in any other file.
+func parseEmbeddedStruct(name, dir string) (*ast.TypeSpec, error) {
+	spec, err := parseGoStruct(name, filepath.Join(dir, structToFilename(name)))
+	if err != nil {
+		return parseGoStruct(name, dir)
+	}
+	return spec, nil
+}
+
 // filterPackage will filter all the go files found at the path returning a *ast.File containing name.
 func filterPackage(name, path string) (*ast.File, error) {
 	fileSet := token.NewFileSet()
@@ -355,26 +367,31 @@ func writeAvroField(cfg avroConfig, f *ast.Field, fieldMap map[string]bool) bool
 // writeAvroFields loops through a list of fields in a struct writing out the Avro values for the fields and adding
 // trailing commas as appropriate for JSON.
 func writeAvroFields(cfg avroConfig, list *ast.FieldList) {
-	length := list.NumFields()
-
-	// Build a list of all fields so that embedded fields with the same name at this level can be excluded
-	fieldMap := make(map[string]bool, length)
+	// Build a list of all fields so that embedded fields with the same name at this level or above can be excluded
+	fieldMap := make(map[string]bool, list.NumFields())
+	for name := range cfg.excludeFields {
+		fieldMap[name] = true
+	}
 	for _, f := range list.List {
 		if len(f.Names) > 0 {
 			fieldMap[f.Names[0].Name] = true
 		}
 	}
-	for i, f := range list.List {
-		processed := writeAvroField(cfg, f, fieldMap)
-		if processed && i+1 != length {
-			fmt.Fprint(cfg.writer, ",")
+	var written []string
+	for _, f := range list.List {
+		buf := &bytes.Buffer{}
+		newcfg := cfg
+		newcfg.writer = buf
+		if writeAvroField(newcfg, f, fieldMap) && buf.Len() > 0 {
+			written = append(written, buf.String())
 		}
 	}
+	fmt.Fprint(cfg.writer, strings.Join(written, ","))
 }
 
 func writeEmbeddedStructFields(cfg avroConfig) {
 	structName := cfg.namespace[len(cfg.namespace)-1]
-	spec, err := parseGoStruct(structName, filepath.Join(cfg.dir, structToFilename(structName)))
+	spec, err := parseEmbeddedStruct(structName, cfg.dir)
 	if err != nil {
 		fmt.Fprint(cfg.writer, `{"type":"embedded struct not found"}`)
 		return
diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index 1f08a86..e2aac32 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -538,7 +538,7 @@ func mapFields(list *ast.FieldList, srcDir string) (map[string]*ast.Field, error
 				continue
 			}
 			embedName := t.Name
-			embedStruct, err := parseGoStruct(embedName, filepath.Join(srcDir, structToFilename(embedName)))
+			embedStruct, err := parseEmbeddedStruct(embedName, srcDir)
 			if err != nil {
 				return nil, fmt.Errorf("failed to parse embedded go struct %q: %v", embedName, err)
 			}
-- 
2.43.0


From 7c17fb0e660c62c785ac25dea7546d92380b4452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:03 +0000
Subject: [PATCH 43/45] fix: embed a struct once and by the exported name it is
 written with

---
 generate/generate.go |  2 +-
 generate/struct.go   | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/generate/generate.go b/generate/generate.go
index 991559c..8c889ce 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -142,7 +142,7 @@ func BuildStructsWithArgs(args BuildArgs) error {
 		} else {
 			name = exportedName(name)
 		}
-		embeds = append(embeds, name)
+		embeds = append(embeds, exportedName(name))
 
 		path, err := buildStructFile(allOfPath, name, packageName, nil, args)
 		if err != nil {
diff --git a/generate/struct.go b/generate/struct.go
index 4e74b32..69effb5 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -155,17 +155,17 @@ func newGeneratedGoFile(schema *jsonschema.Schema, name, packageName string, emb
 	}
 
 	gof.rootStruct = gof.newGeneratedStruct(name, required)
-	gof.rootStruct.embededStructs = embeds
+	for _, name := range embeds {
+		gof.rootStruct.embed(name)
+	}
 
 	if args.EmbedAllOf {
 		for _, all := range schema.AllOf {
 			ref := strings.Split(filepath.Base(all.FromRef), ".")[0]
 			if newName, ok := args.StructNameMap[ref]; ok {
 				ref = newName
-			} else {
-				ref = exportedName(ref)
 			}
-			gof.rootStruct.embededStructs = append(gof.rootStruct.embededStructs, ref)
+			gof.rootStruct.embed(exportedName(ref))
 		}
 	}
 
@@ -176,6 +176,16 @@ func newGeneratedGoFile(schema *jsonschema.Schema, name, packageName string, emb
 	return gof, nil
 }
 
+// embed adds an embedded struct unless it is embedded already.
+func (gen *generatedStruct) embed(name string) {
+	for _, embedded := range gen.embededStructs {
+		if embedded == name {
+			return
+		}
+	}
+	gen.embededStructs = append(gen.embededStructs, name)
+}
+
 func (gof *goFile) newGeneratedStruct(name string, requiredFields map[string]bool) *generatedStruct {
 	return &generatedStruct{
 		extractedField: extractedField{
-- 
2.43.0


From 711b2ae0d650979ad551b9b9f3a68df443aa5e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:26 +0000
Subject: [PATCH 44/45] fix: write Avro code after all structs, they embed
 structs of later files

---
 generate/generate.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/generate/generate.go b/generate/generate.go
index 8c889ce..078a5e6 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -134,6 +134,10 @@ func BuildStructsWithArgs(args BuildArgs) error {
 		}
 	}
 
+	type structFile struct {
+		name, path string
+	}
+	var structs []structFile
 	var embeds []string
 	for _, allOfPath := range allOfTypes {
 		name := strings.Split(filepath.Base(allOfPath), ".")[0]
@@ -148,11 +152,7 @@ func BuildStructsWithArgs(args BuildArgs) error {
 		if err != nil {
 			return fmt.Errorf("failed to build struct file for %q: %v", name, err)
 		}
-		if args.GenerateAvro {
-			if err := buildAvro(name, path, args); err != nil {
-				return fmt.Errorf("failed to build Avro files for %q: %v", packageName, err)
-			}
-		}
+		structs = append(structs, structFile{name: name, path: path})
 	}
 
 	for _, oneOfPath := range oneOfTypes {
@@ -165,8 +165,13 @@ func BuildStructsWithArgs(args BuildArgs) error {
 		if err != nil {
 			return fmt.Errorf("failed to build struct file for %q: %v", name, err)
 		}
-		if args.GenerateAvro {
-			if err := buildAvro(name, path, args); err != nil {
+		structs = append(structs, structFile{name: name, path: path})
+	}
+
+	// the Avro code of a struct needs the structs embedded in it
+	if args.GenerateAvro {
+		for _, s := range structs {
+			if err := buildAvro(s.name, s.path, args); err != nil {
 				return fmt.Errorf("failed to build Avro files for %q: %v", packageName, err)
 			}
 		}
-- 
2.43.0


From cf67125d4dc7e498a759a465c471bba81d5870a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:21 +0000
Subject: [PATCH 45/45] fix: keep the default, transform and other keywords of
 a referenced file

A reference to a whole file was replaced by the file's Schema, which only has
the keywords the Instance type lists: the default and transform of the file's
root were silently lost, unlike those of a definition.
---
 jsonschema/reference.go | 18 ++++++++++++++++++
 jsonschema/schema.go    |  8 ++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index 5faddcd..4d32c2a 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -212,6 +212,24 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 		if err != nil {
 			return nil, fmt.Errorf("failed to marshal schema from file %q: %v", refPath, err)
 		}
+		// The schema only has the keywords it needs, add back all others such as default and transform.
+		err = jsonparser.ObjectEach(schema.dereferenced, func(key []byte, value []byte, dataType jsonparser.ValueType, offset int) error {
+			_, known, _, err := jsonparser.Get(source, string(key))
+			if err != nil && err != jsonparser.KeyPathNotFoundError {
+				return err
+			}
+			if known != jsonparser.NotExist {
+				return nil
+			}
+			if dataType == jsonparser.String {
+				value = []byte(`"` + string(value) + `"`)
+			}
+			source, err = jsonparser.Set(source, value, string(key))
+			return err
+		})
+		if err != nil {
+			return nil, fmt.Errorf("failed to add keywords from file %q: %v", refPath, err)
+		}
 	}
 
 	var err error
diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index c128b4b..af1a4ca 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -61,6 +61,9 @@ type Schema struct {
 	Instance
 
 	Validator Validator `json:"-"`
+
+	// dereferenced is the content of the file with its references resolved, it has the keywords Instance does not know.
+	dereferenced json.RawMessage
 }
 
 // Validate will check that the given json is validate according the schema.
@@ -125,8 +128,9 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 		}
 
 		s := Schema{
-			Instance:  sj,
-			Validator: v,
+			Instance:     sj,
+			Validator:    v,
+			dereferenced: data,
 		}
 
 		// TODO this behavior is not spec compatible, according to the spec it is possible to have multiple allOf instances
-- 
2.43.0

