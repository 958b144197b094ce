From b95c982ab4f8400d21b72b9bdd7804c6bc505457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 01/38] fix: scan result must not fail to decode its own
 openapi version

---
 oapi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oapi.go b/oapi.go
index 50ef4bd..4d8d611 100644
--- a/oapi.go
+++ b/oapi.go
@@ -37,7 +37,7 @@ type OAPI struct {
 // newOAPI creates new specs from container
 func newOAPI(c container.Container) (x OAPI, err error) {
 	x = OAPI{c: c}
-	err = json.Unmarshal(c.Bytes(), &x.o.OpenAPI)
+	err = json.Unmarshal(c.Path("openapi").Bytes(), &x.o.OpenAPI)
 	return x, err
 }
 
-- 
2.43.0


From 2b692a5f9aa2ad347c1b70d83e42f700abcf81c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 02/38] fix: order of top level keys not listed explicitly must
 be stable

---
 internal/container/sort.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index e6eb170..d88ff89 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -76,10 +76,15 @@ func SortMapMarhsaler(order []string) SorterFn {
 		}
 		var ms MapSlice
 		for k, v := range dd {
+			index := indexOf(k, order)
+			if index < 0 {
+				// not listed, goes after all of those which are
+				index = len(order)
+			}
 			ms = append(ms, MapItem{
 				Key:   k,
 				Val:   v,
-				Index: indexOf(k, order),
+				Index: index,
 			})
 
 		}
@@ -111,11 +116,16 @@ func (ms MapSlice) Values() (vx []interface{}) {
 
 // sort interface support
 
-func (ms MapSlice) Len() int           { return len(ms) }
-func (ms MapSlice) Less(i, j int) bool { return ms[i].Index < ms[j].Index }
-func (ms MapSlice) Swap(i, j int)      { ms[i], ms[j] = ms[j], ms[i] }
+func (ms MapSlice) Len() int      { return len(ms) }
+func (ms MapSlice) Swap(i, j int) { ms[i], ms[j] = ms[j], ms[i] }
+func (ms MapSlice) Less(i, j int) bool {
+	if ms[i].Index != ms[j].Index {
+		return ms[i].Index < ms[j].Index
+	}
+	return ms[i].Key < ms[j].Key
+}
 
-// Sort will sort items by index and return copy
+// Sort will sort items by index, then by key and return copy
 func (ms MapSlice) Sort() MapSlice {
 	a := make(MapSlice, len(ms))
 	copy(a, ms)
-- 
2.43.0


From e530372766dab12e51b7b90f9ad24c2ce09430c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 03/38] fix: top level keys must be encoded as json strings

---
 internal/container/sort.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index d88ff89..2b3fc2f 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -3,7 +3,6 @@ package container
 import (
 	"bytes"
 	"encoding/json"
-	"fmt"
 	"sort"
 
 	"gopkg.in/yaml.v2"
@@ -142,7 +141,12 @@ func (ms MapSlice) MarshalJSON() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		buf.WriteString(fmt.Sprintf("%q:", fmt.Sprintf("%v", mi.Key)))
+		k, err := json.Marshal(mi.Key)
+		if err != nil {
+			return nil, err
+		}
+		buf.Write(k)
+		buf.WriteByte(':')
 		buf.Write(b)
 		if i < len(ms)-1 {
 			buf.Write([]byte{','})
-- 
2.43.0


From a1dca03d8fda8ddeae09870a7f52ac653e766b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 04/38] fix: references under keys with dots and tildes must be
 found and replaced

---
 internal/container/utils.go | 52 +++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index aa46e0c..c9aaafe 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -3,34 +3,46 @@ package container
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/Jeffail/gabs/v2"
 	"github.com/pkg/errors"
 )
 
-// ExtractKey will extract keys from container
+// ExtractKey will extract keys from container. Key of every returned item is
+// full path to it in dot notation (escaped same way as SliceToDotPath does).
 func ExtractKey(c Container, key string) (pp MapSlice, err error) {
-	ff, err := c.Flatten()
-	if err != nil {
-		return nil, err
-	}
-	var ii int
-	for k, v := range ff {
-		x := strings.Split(k, ".")
-		if len(x) == 0 {
-			continue
-		}
-		if x[len(x)-1] != key {
-			continue
+	var walk func(v interface{}, path []string)
+	walk = func(v interface{}, path []string) {
+		path = path[:len(path):len(path)]
+		switch x := v.(type) {
+		case map[string]interface{}:
+			keys := make([]string, 0, len(x))
+			for k := range x {
+				keys = append(keys, k)
+			}
+			sort.Strings(keys)
+			for _, k := range keys {
+				walk(x[k], append(path, k))
+			}
+		case []interface{}:
+			for i, v := range x {
+				walk(v, append(path, strconv.Itoa(i)))
+			}
+		default:
+			if len(path) == 0 || path[len(path)-1] != key {
+				return
+			}
+			pp = append(pp, MapItem{
+				Key:   SliceToDotPath(path),
+				Val:   v,
+				Index: len(pp),
+			})
 		}
-		pp = append(pp, MapItem{
-			Key:   k,
-			Val:   v,
-			Index: ii,
-		})
-		ii++
 	}
+	walk(c.Data(), nil)
 	return pp, nil
 }
 
@@ -38,8 +50,8 @@ func ExtractKey(c Container, key string) (pp MapSlice, err error) {
 func SliceToDotPath(path []string) string {
 	hierarchy := make([]string, len(path))
 	for i, v := range path {
-		v = strings.Replace(v, ".", "~1", -1)
 		v = strings.Replace(v, "~", "~0", -1)
+		v = strings.Replace(v, ".", "~1", -1)
 		hierarchy[i] = v
 	}
 	return strings.Join(hierarchy, ".")
-- 
2.43.0


From a8dd21094ff52bb6885768166e76febc7bd9c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 05/38] fix: exported name is one key of components whatever
 characters it has

---
 internal/oapi/resolver/utils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/oapi/resolver/utils.go b/internal/oapi/resolver/utils.go
index f95e3bc..dcd4aa3 100644
--- a/internal/oapi/resolver/utils.go
+++ b/internal/oapi/resolver/utils.go
@@ -18,13 +18,12 @@ type Entity struct {
 
 // Path returns dot path.
 func (pe Entity) Path() string {
-	return fmt.Sprintf("%s.%s", pe.Entity.Path(), pe.Name)
+	return fmt.Sprintf("%s.%s", pe.Entity.Path(), container.SliceToDotPath([]string{pe.Name}))
 }
 
 // Fragment return fragment path
 func (pe Entity) Fragment() pointer.Fragment {
-	f, _ := pe.Entity.Fragment().Descendant(pe.Name)
-	return f
+	return pe.Entity.Fragment().RawDescendant(pe.Name)
 }
 
 // IsScheme reports if entitiy is scheme
-- 
2.43.0


From accd1f15720e299222c3285cc597b0c7819efca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 06/38] fix: specifications of several packages must merge when
 they agree

---
 internal/container/merge.go      | 14 +++++++++++++-
 internal/oapi/oapi.go            |  2 +-
 internal/oapi/scan/specs/scan.go |  2 +-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/container/merge.go b/internal/container/merge.go
index 5de0eb1..6dcf17d 100644
--- a/internal/container/merge.go
+++ b/internal/container/merge.go
@@ -1,6 +1,10 @@
 package container
 
-import "github.com/pkg/errors"
+import (
+	"reflect"
+
+	"github.com/pkg/errors"
+)
 
 // Merger is function signature allowing merging
 type Merger func(destination, source interface{}) (interface{}, error)
@@ -10,6 +14,14 @@ func MergeStrict(dest, source interface{}) (interface{}, error) {
 	return nil, errors.Errorf("%v collied with %v", dest, source)
 }
 
+// MergeEqual will merge values which are the same, anything else is collision
+func MergeEqual(dest, source interface{}) (interface{}, error) {
+	if reflect.DeepEqual(dest, source) {
+		return dest, nil
+	}
+	return MergeStrict(dest, source)
+}
+
 // MergeDefault will merge default
 func MergeDefault(dest, source interface{}) (interface{}, error) {
 	return dest, nil
diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 9ed7df7..d2c253a 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -113,7 +113,7 @@ func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 
 	for _, x := range []mx{
 		{merge: container.MergeOverride, key: "info"},
-		{merge: container.MergeStrict, key: "components"},
+		{merge: container.MergeEqual, key: "components"},
 		{merge: container.MergeDefault, key: "paths"},
 		{merge: container.MergeDefault, key: "externalDocs"},
 		{merge: container.MergeDefault, key: "security"},
diff --git a/internal/oapi/scan/specs/scan.go b/internal/oapi/scan/specs/scan.go
index c1f3f50..026d77a 100644
--- a/internal/oapi/scan/specs/scan.go
+++ b/internal/oapi/scan/specs/scan.go
@@ -80,5 +80,5 @@ func (r *Scanner) Scan(pkg *packages.Package) (err error) {
 
 // Merge will provide single container as result of merging.
 func (r *Scanner) Merge() (c container.Container, err error) {
-	return r.Containers.Sort().Merge(container.MergeStrict)
+	return r.Containers.Sort().Merge(container.MergeEqual)
 }
-- 
2.43.0


From 3f1f786682cede0a9248e7219afa42ad3825822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 07/38] fix: servers, security and tags must survive merge with
 root document

---
 internal/container/container.go |  9 +++++++-
 internal/oapi/oapi.go           | 38 ++++++++++++++++++++++++++-------
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index c0f28b7..e6f6be8 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -134,7 +134,14 @@ func (c Container) Data() interface{} {
 
 // IsNil reports if underlying value of container is nil.
 func (c Container) IsNil() bool {
-	return c.Data() == nil || reflect.ValueOf(c.Data()).IsNil()
+	switch v := reflect.ValueOf(c.Data()); v.Kind() {
+	case reflect.Invalid:
+		return true
+	case reflect.Map, reflect.Slice, reflect.Ptr:
+		return v.IsNil()
+	default:
+		return false
+	}
 }
 
 // FilePath returns file path of given container if was ReadFile was used.
diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index d2c253a..83e9654 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -127,22 +127,18 @@ func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 			continue
 		}
 
-		s := container.New()
-
-		err := s.Merge(z, x.merge)
+		d, err := mergeValues(z, y, x.merge)
 		if err != nil {
 			return err
 		}
 
-		err = s.Merge(y, x.merge)
+		p, err := container.Make(map[string]interface{}{
+			x.key: d,
+		})
 		if err != nil {
 			return err
 		}
 
-		p, _ := container.Make(map[string]interface{}{
-			x.key: s.Data(),
-		})
-
 		err = c.Merge(p, container.MergeOverride)
 		if err != nil {
 			return err
@@ -150,3 +146,29 @@ func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 	}
 	return nil
 }
+
+// mergeValues will merge two values of the same key. Only objects can be merged
+// key by key, for anything else it is up to merger to pick one.
+func mergeValues(dest, source container.Container, fn container.Merger) (interface{}, error) {
+	if dest.IsNil() {
+		return source.Data(), nil
+	}
+	if source.IsNil() {
+		return dest.Data(), nil
+	}
+
+	_, dok := dest.Data().(map[string]interface{})
+	_, sok := source.Data().(map[string]interface{})
+	if !dok || !sok {
+		return fn(dest.Data(), source.Data())
+	}
+
+	s := container.New()
+	for _, x := range []container.Container{dest, source} {
+		err := s.Merge(x, fn)
+		if err != nil {
+			return nil, err
+		}
+	}
+	return s.Data(), nil
+}
-- 
2.43.0


From d363661e0dba25bd2f3073b5fc3d04b95bf5b547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 08/38] fix: reference to missing type must be an error, not a
 crash

---
 internal/oapi/scan/types/scan.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index 417bdf6..78cfb5c 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -24,7 +24,10 @@ func NewScanner(ptrs pointer.Pointers) *Scanner {
 // Resolve will return new pointer and scheme, new pointer might be returned in cases
 // where original pointer is not fully resolved.
 func (r *Scanner) Resolve(ptr pointer.Pointer) (*spec.Schema, error) {
-	tp, _ := r.points.findType(ptr)
+	tp, ok := r.points.findType(ptr)
+	if !ok {
+		return nil, errors.Errorf("failed to resolve %q, no such type", ptr.String())
+	}
 	// pp, ok := r.points.pick(tp)
 	// if !ok {
 	// 	return nil, errors.Errorf("failed to resolve %q", ptr.String())
-- 
2.43.0


From 240f367a17dd1d92999bc88260223888c097857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 09/38] fix: override being reference itself must be replaced
 as a whole

---
 internal/container/container.go | 11 +++++++++++
 internal/oapi/resolver/utils.go |  8 ++++++++
 2 files changed, 19 insertions(+)

diff --git a/internal/container/container.go b/internal/container/container.go
index e6f6be8..ebf799f 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -173,6 +173,17 @@ func (c Container) SetP(path string, value interface{}) (err error) {
 	return
 }
 
+// SetRoot replaces whole content of container, cloning the value same way as
+// SetP does.
+func (c Container) SetRoot(value interface{}) (err error) {
+	val, err := clone(value)
+	if err != nil {
+		return
+	}
+	_, err = c.c.Set(val)
+	return
+}
+
 // Bytes marshals an element to a JSON []byte blob.
 func (c Container) Bytes() []byte {
 	return c.c.Bytes()
diff --git a/internal/oapi/resolver/utils.go b/internal/oapi/resolver/utils.go
index dcd4aa3..e03c0df 100644
--- a/internal/oapi/resolver/utils.go
+++ b/internal/oapi/resolver/utils.go
@@ -50,6 +50,9 @@ func ReplacePtr(cx container.Container, key string, value interface{}) (err erro
 	if !ok {
 		return errors.New("not a pointer")
 	}
+	if path == key {
+		return cx.SetRoot(value)
+	}
 	err = cx.SetP(path, value)
 	return
 }
@@ -79,6 +82,8 @@ func UpdatePtrToLocal(cx container.Container, key string, f pointer.Fragment) (e
 	return
 }
 
+// isref reports path of object being pointer, which is the key itself
+// if there is nothing above it.
 func isref(s string) (string, bool) {
 	ss := strings.Split(s, ".")
 	if len(ss) == 0 {
@@ -88,5 +93,8 @@ func isref(s string) (string, bool) {
 	if last != "$ref" {
 		return s, false
 	}
+	if len(ss) == 1 {
+		return s, true // root of container is pointer
+	}
 	return strings.Join(ss[:len(ss)-1], "."), true
 }
-- 
2.43.0


From 6ec2d2d74a89b352855f0638d26e94247664213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 10/38] fix: exported component must not depend on where it was
 referenced first

---
 internal/oapi/resolver/resolver.go | 93 ++++++++++++++++++------------
 1 file changed, 56 insertions(+), 37 deletions(-)

diff --git a/internal/oapi/resolver/resolver.go b/internal/oapi/resolver/resolver.go
index aa43203..1b77b45 100644
--- a/internal/oapi/resolver/resolver.go
+++ b/internal/oapi/resolver/resolver.go
@@ -41,24 +41,57 @@ func (r Fn) call(p pointer.Pointer) (container.Container, error) {
 // Resolve will resolve all references (pointers) in given scheme
 func Resolve(c container.Container, exp Exports, fn Fn) (container.Container, error) {
 	r := &resolver{
-		con: c.Clone(),
-		exp: exp,
-		res: fn,
+		con:  c.Clone(),
+		exp:  exp,
+		res:  fn,
+		done: make(map[string]EntityValue),
 	}
 	return r.resolve()
 }
 
 type resolver struct {
-	con container.Container
-	exp Exports
-	res Fn
+	con  container.Container
+	exp  Exports
+	res  Fn
+	done map[string]EntityValue
 }
 
-func (r resolver) resolve() (container.Container, error) {
-	return r.iterator(r.con, path{}, 0)
+func (r *resolver) resolve() (container.Container, error) {
+	c, err := r.iterator(r.con, path{}, 0)
+	if err != nil {
+		return zero, err
+	}
+	for _, e := range r.done {
+		err = SetEntity(c, "", e)
+		if err != nil {
+			return zero, err
+		}
+	}
+	return c, nil
 }
 
-func (r resolver) iterator(cx container.Container, pp path, dept int) (container.Container, error) {
+// export resolves exported pointer, each just once and on its own, so result
+// does not depend on where it was referenced from.
+func (r *resolver) export(ep Pointer) (err error) {
+	if _, ok := r.done[ep.Pointer.String()]; ok {
+		return
+	}
+	e := EntityValue{Entity: ep.Entity}
+	r.done[ep.Pointer.String()] = e
+
+	nc, err := r.res.call(ep.Pointer)
+	if err != nil {
+		return
+	}
+	e.Value, err = r.iterator(nc, path{ep.Pointer}, 0)
+	if err != nil {
+		return
+	}
+	r.done[ep.Pointer.String()] = e
+	return
+}
+
+func (r *resolver) iterator(cx container.Container, pp path, dept int) (container.Container, error) {
 	refs, err := container.ExtractKey(cx, "$ref")
 	if err != nil {
 		return cx, err
@@ -77,8 +110,20 @@ func (r resolver) iterator(cx container.Container, pp path, dept int) (container
 			continue
 		}
 
+		if ep, ok := r.exp.Get(p); ok {
+			err = r.export(ep)
+			if err != nil {
+				return zero, err
+			}
+			err = UpdatePtrToLocal(cx, v.Key, ep.Entity.Fragment())
+			if err != nil {
+				return zero, err
+			}
+			continue
+		}
+
 		if pp.has(p) {
-			err = r.setRecursive(cx, p, v.Key)
+			err = ReplacePtrWithEmptyObject(cx, v.Key)
 			if err != nil {
 				return zero, err
 			}
@@ -95,7 +140,7 @@ func (r resolver) iterator(cx container.Container, pp path, dept int) (container
 			return zero, err
 		}
 
-		err = r.set(cx, p, v.Key, nc)
+		err = ReplacePtr(cx, v.Key, nc)
 		if err != nil {
 			return zero, err
 		}
@@ -103,32 +148,6 @@ func (r resolver) iterator(cx container.Container, pp path, dept int) (container
 	return cx, nil
 }
 
-// set will set in container key to be a value, if
-// exported sets as global value
-func (r *resolver) set(cx container.Container, ptr pointer.Pointer, key string, value container.Container) (err error) {
-	ep, ok := r.exp.Get(ptr)
-	if !ok {
-		return ReplacePtr(cx, key, value)
-	}
-	e := EntityValue{
-		Entity: ep.Entity,
-		Value:  value,
-	}
-	err = SetEntity(r.con, key, e)
-	if err != nil {
-		return
-	}
-	return UpdatePtrToLocal(cx, key, e.Fragment())
-}
-
-func (r *resolver) setRecursive(cx container.Container, ptr pointer.Pointer, key string) (err error) {
-	ep, ok := r.exp.Get(ptr)
-	if ok && ep.IsScheme() {
-		return UpdatePtrToLocal(cx, key, ep.Entity.Fragment())
-	}
-	return ReplacePtrWithEmptyObject(cx, key)
-}
-
 type path []pointer.Pointer
 
 func (p path) has(px pointer.Pointer) bool {
-- 
2.43.0


From dc0a8f5d5b289a9d5a3e02167a837e6aa780e9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 11/38] fix: exported type must not silently replace different
 component

---
 internal/oapi/resolver/resolver.go |  6 +++++-
 internal/oapi/resolver/utils.go    | 16 +++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/internal/oapi/resolver/resolver.go b/internal/oapi/resolver/resolver.go
index 1b77b45..802b0d6 100644
--- a/internal/oapi/resolver/resolver.go
+++ b/internal/oapi/resolver/resolver.go
@@ -61,7 +61,11 @@ func (r *resolver) resolve() (container.Container, error) {
 	if err != nil {
 		return zero, err
 	}
-	for _, e := range r.done {
+	for _, ep := range r.exp {
+		e, ok := r.done[ep.Pointer.String()]
+		if !ok {
+			continue
+		}
 		err = SetEntity(c, "", e)
 		if err != nil {
 			return zero, err
diff --git a/internal/oapi/resolver/utils.go b/internal/oapi/resolver/utils.go
index e03c0df..334c78b 100644
--- a/internal/oapi/resolver/utils.go
+++ b/internal/oapi/resolver/utils.go
@@ -1,13 +1,14 @@
 package resolver
 
 import (
-	"errors"
 	"fmt"
+	"reflect"
 	"strings"
 
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
 	"github.com/buypal/oapi-go/internal/pointer"
+	"github.com/pkg/errors"
 )
 
 // Entity is named entity.
@@ -37,9 +38,18 @@ type EntityValue struct {
 	Value interface{}
 }
 
-// SetEntity sets at path the entity.
+// SetEntity sets at path the entity. It will not replace different one which is
+// already there.
 func SetEntity(cx container.Container, key string, entity EntityValue) (err error) {
-	err = cx.SetP(entity.Path(), entity.Value)
+	value, err := container.Make(entity.Value)
+	if err != nil {
+		return
+	}
+	path := entity.Path()
+	if cx.ExistsP(path) && !reflect.DeepEqual(cx.Path(path).Data(), value.Data()) {
+		return errors.Errorf("exported %q collides with component of the same name", entity.Name)
+	}
+	err = cx.SetP(path, value)
 	return
 }
 
-- 
2.43.0


From f586b903382d01a27d0c558654b8f7d5c8f323da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 12/38] fix: two types exported under one name must be an error

---
 internal/oapi/scan/cmds/scan.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/scan/cmds/scan.go b/internal/oapi/scan/cmds/scan.go
index c3b1b2c..2082164 100644
--- a/internal/oapi/scan/cmds/scan.go
+++ b/internal/oapi/scan/cmds/scan.go
@@ -2,6 +2,7 @@ package cmds
 
 import (
 	"go/ast"
+	"sort"
 
 	"github.com/buypal/oapi-go/internal/oapi/resolver"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
@@ -49,13 +50,24 @@ func (r *Scanner) Scan(pkg *packages.Package) (err error) {
 // of resolver.Exports.
 func (r *Scanner) ExportedComponents() (exports resolver.Exports, err error) {
 	var cc List
-	for _, cmd := range r.Commands {
-		cc = append(cc, cmd...)
+	var pkgs []string
+	for pkg := range r.Commands {
+		pkgs = append(pkgs, pkg)
+	}
+	sort.Strings(pkgs)
+	for _, pkg := range pkgs {
+		cc = append(cc, r.Commands[pkg]...)
 	}
 
+	names := make(map[string]struct{})
 	for _, cmd := range cc {
 		switch x := cmd.(type) {
 		case CmdSchema:
+			if _, ok := names[x.Name]; ok {
+				err = errors.Errorf("schema of name %q already registered", x.Name)
+				return
+			}
+			names[x.Name] = struct{}{}
 			if _, ok := exports.Get(x.Ptr); ok {
 				err = errors.Errorf("schema of type %q already registered", x.Name)
 				return
-- 
2.43.0


From 33d5d066c81a2e8e0c9aa5af329fa203da8ac1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 13/38] fix: exported pointer must be valid and may be local to
 its package

---
 internal/oapi/scan/cmds/schema.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/internal/oapi/scan/cmds/schema.go b/internal/oapi/scan/cmds/schema.go
index 114083f..915451f 100644
--- a/internal/oapi/scan/cmds/schema.go
+++ b/internal/oapi/scan/cmds/schema.go
@@ -29,11 +29,21 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		return !a || len(s) == 0
 	}
 
-	makePtr := func(a string) (pointer.Pointer, error) {
-		if strings.Contains(a, "://") || strings.Contains(a, "#") {
-			return pointer.Parse(a)
+	makePtr := func(a string) (p pointer.Pointer, err error) {
+		if !strings.Contains(a, "://") && !strings.Contains(a, "#") {
+			return pointer.NewGoPointer(cmd.pkg.Types.Path(), a)
 		}
-		return pointer.NewGoPointer(cmd.pkg.Types.Path(), a)
+		p, err = pointer.Parse(a)
+		if err != nil || p.PkgPath() != "" {
+			return
+		}
+		// this allow local pointers of go://#/Struct or just #/Struct
+		pf, err := pointer.NewGoPointer(cmd.pkg.Types.Path(), "")
+		if err != nil {
+			return
+		}
+		pf.Fragment = p.Fragment
+		return pf, nil
 	}
 
 	switch cmd.args.Len() {
@@ -43,6 +53,15 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		}
 		sx.Name = name
 		sx.Ptr, err = makePtr(name)
+		if err != nil {
+			return nil, err
+		}
+		if strings.Contains(name, "#") {
+			sx.Name, nok = sx.Ptr.Fragment.Last()
+		}
+		if invalid(nok, sx.Name) {
+			return nil, rerr
+		}
 		return sx, nil
 	case 2:
 		if invalid(nok, name) {
@@ -53,6 +72,9 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		}
 		sx.Name = name
 		sx.Ptr, err = makePtr(ptr)
+		if err != nil {
+			return nil, err
+		}
 		return sx, nil
 	default:
 		return nil, errors.New("invalid number of arguments")
-- 
2.43.0


From d16680280de39be37d8e576c812478c75ab8edb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 14/38] fix: literal end of route pattern is not regular
 expression

---
 internal/route/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/route/route.go b/internal/route/route.go
index 7b12c59..fe28757 100644
--- a/internal/route/route.go
+++ b/internal/route/route.go
@@ -87,7 +87,7 @@ func Match(pattern, method, path string) (bool, error) {
 		}
 		last = j
 	}
-	pettern := strings.Join(append(parts, pattern[last:]), "")
+	pettern := strings.Join(append(parts, regexp.QuoteMeta(pattern[last:])), "")
 	reg, err := compileCached(pettern)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 593706f258e3fe74be91c9396aa5a05d11e0c4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 15/38] fix: default operations apply to operations of path
 item only

---
 internal/oapi/oapi.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 83e9654..5a23be8 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -33,6 +33,19 @@ func (fp FlattenPaths) Match(pattern string) (xx FlattenPaths, err error) {
 	return
 }
 
+// operations are keys of path item which hold operation, as opposed to
+// parameters, servers, summary and others.
+var operations = map[string]bool{
+	"get":     true,
+	"put":     true,
+	"post":    true,
+	"delete":  true,
+	"options": true,
+	"head":    true,
+	"patch":   true,
+	"trace":   true,
+}
+
 // Paths will parse paths in oapi container and return array of paths.
 func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 	paths, err := cnt.Path("paths").ChildrenMap()
@@ -41,12 +54,18 @@ func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 	}
 
 	for path, methods := range paths {
+		if _, ok := methods.Data().(map[string]interface{}); !ok {
+			continue
+		}
 		var mx map[string]container.Container
 		mx, err = methods.ChildrenMap()
 		if err != nil {
 			return
 		}
 		for m, obj := range mx {
+			if !operations[m] {
+				continue
+			}
 			ff = append(ff, FlattenPath{
 				Method:    m,
 				Path:      path,
-- 
2.43.0


From a2e7265635698d31d1af8a6f5ad139a4b4cb7305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 16/38] fix: overlapping default operations must apply in
 stable order

---
 internal/oapi/oapi.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 5a23be8..f0c3915 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -1,6 +1,8 @@
 package oapi
 
 import (
+	"sort"
+
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
 	"github.com/buypal/oapi-go/internal/route"
@@ -88,7 +90,13 @@ func SetPathsDefaults(cnt container.Container, defops map[string]spec.Operation)
 		return
 	}
 
-	for pattern, override := range defops {
+	patterns := make([]string, 0, len(defops))
+	for pattern := range defops {
+		patterns = append(patterns, pattern)
+	}
+	sort.Strings(patterns) // more patterns can fill same operation
+
+	for _, pattern := range patterns {
 		var ff FlattenPaths
 		ff, err = paths.Match(pattern)
 		if err != nil {
@@ -98,7 +106,7 @@ func SetPathsDefaults(cnt container.Container, defops map[string]spec.Operation)
 			var nc, ov container.Container
 			nc = f.Operation
 
-			ov, err = container.Make(override)
+			ov, err = container.Make(defops[pattern])
 			if err != nil {
 				return
 			}
-- 
2.43.0


From 969ba837a58308b4d2071885502eb71088350969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 17/38] fix: reference can not be merged with content of other
 object

---
 internal/container/merge.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/internal/container/merge.go b/internal/container/merge.go
index 6dcf17d..351584c 100644
--- a/internal/container/merge.go
+++ b/internal/container/merge.go
@@ -32,6 +32,13 @@ func MergeOverride(dest, source interface{}) (interface{}, error) {
 	return source, nil
 }
 
+// isReference reports if object is reference. Keys next to $ref have no meaning,
+// so references merge as a whole or not at all.
+func isReference(m map[string]interface{}) bool {
+	_, ok := m["$ref"].(string)
+	return ok
+}
+
 // Merge merges two objects using a provided function to resolve collisions.
 //
 // The collision function receives two interface{} arguments, destination (the
@@ -59,20 +66,22 @@ func (c Container) Merge(source Container, collisionFn Merger) error {
 			case map[string]interface{}:
 				switch existingVal := existingData.(type) {
 				case map[string]interface{}:
-					err := recursiveFnc(t, newPath)
-					if err != nil {
-						return err
-					}
-				default:
-					xx, err := collisionFn(existingVal, t)
-					if err != nil {
-						return errors.Wrapf(err, "at %s", source.path)
-					}
-					_, err = c.c.Set(xx, newPath...)
-					if err != nil {
-						return err
+					if !isReference(t) && !isReference(existingVal) {
+						err := recursiveFnc(t, newPath)
+						if err != nil {
+							return err
+						}
+						continue
 					}
 				}
+				xx, err := collisionFn(existingData, t)
+				if err != nil {
+					return errors.Wrapf(err, "at %s", source.path)
+				}
+				_, err = c.c.Set(xx, newPath...)
+				if err != nil {
+					return err
+				}
 			default:
 				xx, err := collisionFn(existingData, t)
 				if err != nil {
-- 
2.43.0


From cbf913ec06f63d671ac4f0c98c02de7f63139140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 18/38] fix: merge must fail when source has no representation,
 not skip it

---
 internal/container/merge.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/container/merge.go b/internal/container/merge.go
index 351584c..dc3cc6f 100644
--- a/internal/container/merge.go
+++ b/internal/container/merge.go
@@ -3,6 +3,7 @@ package container
 import (
 	"reflect"
 
+	"github.com/Jeffail/gabs/v2"
 	"github.com/pkg/errors"
 )
 
@@ -46,7 +47,11 @@ func isReference(m map[string]interface{}) bool {
 // Which ever value is returned becomes the new value in the destination object
 // at the location of the collision.
 func (c Container) Merge(source Container, collisionFn Merger) error {
-	source = source.Clone() // make sure we are not moving pointers
+	src, err := clone(source.Data()) // make sure we are not moving pointers
+	if err != nil {
+		return errors.Wrapf(err, "at %s", source.path)
+	}
+	source = Container{c: gabs.Wrap(src), path: source.path}
 
 	var recursiveFnc func(map[string]interface{}, []string) error
 
-- 
2.43.0


From 7b5995b27d35a7bea9b3d3541cf085219f6c2835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 19/38] fix: keys equal as strings must not replace each other
 at random

---
 internal/container/container.go |  5 +++++
 internal/container/utils.go     | 34 +++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/internal/container/container.go b/internal/container/container.go
index ebf799f..59663b7 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -63,6 +63,11 @@ func ReadYAML(data []byte) (c Container, err error) {
 		err = errors.Wrapf(err, "failed to unmarshal yaml")
 		return
 	}
+	err = checkKeys(i)
+	if err != nil {
+		err = errors.Wrapf(err, "failed to unmarshal yaml")
+		return
+	}
 	c = wrap(mmap(i))
 	return
 }
diff --git a/internal/container/utils.go b/internal/container/utils.go
index c9aaafe..f61f5e6 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -94,6 +94,40 @@ func wrap(c interface{}) Container {
 	}
 }
 
+// checkKeys walks same way as mmap does and reports distinct keys which would
+// become the same key once converted to string.
+func checkKeys(v interface{}) (err error) {
+	switch x := v.(type) {
+	case map[interface{}]interface{}:
+		keys := make(map[string]struct{})
+		for k, v2 := range x {
+			s := fmt.Sprint(k)
+			if _, ok := keys[s]; ok {
+				return errors.Errorf("key %q is there twice", s)
+			}
+			keys[s] = struct{}{}
+			if err = checkKeys(v2); err != nil {
+				return
+			}
+		}
+
+	case []interface{}:
+		for _, v2 := range x {
+			if err = checkKeys(v2); err != nil {
+				return
+			}
+		}
+
+	case map[string]interface{}:
+		for _, v2 := range x {
+			if err = checkKeys(v2); err != nil {
+				return
+			}
+		}
+	}
+	return
+}
+
 // mmap walks the given dynamic object recursively, and
 // converts maps with interface{} key type to maps with string key type.
 // This function comes handy if you want to marshal a dynamic object into
-- 
2.43.0


From 8155dca059dea022dd0d2eda05cf8fbc6bff3118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 20/38] fix: references which are not local to package stay as
 written

---
 internal/oapi/scan/specs/scan.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/oapi/scan/specs/scan.go b/internal/oapi/scan/specs/scan.go
index 026d77a..c2af27b 100644
--- a/internal/oapi/scan/specs/scan.go
+++ b/internal/oapi/scan/specs/scan.go
@@ -60,14 +60,14 @@ func (r *Scanner) Scan(pkg *packages.Package) (err error) {
 				pf, _ := pointer.NewGoPointer(pkg.PkgPath, "")
 				pf.Fragment = p.Fragment
 				p = pf
+
+				err = c.SetP(v.Key, p.String())
+				if err != nil {
+					return err
+				}
 			}
 
 			r.Pointers[p.String()] = p
-
-			err = c.SetP(v.Key, p.String())
-			if err != nil {
-				return err
-			}
 		}
 
 		cc = append(cc, c)
-- 
2.43.0


From b9fa6bf6cd68626211b227947848765d7888763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 21/38] fix: references in root document and default operations
 must be resolved

---
 internal/oapi/oapi.go | 27 +++++++++++++++++++++++++++
 oapi.go               | 31 ++++++++++++++++++++-----------
 2 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index f0c3915..126140d 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
+	"github.com/buypal/oapi-go/internal/pointer"
 	"github.com/buypal/oapi-go/internal/route"
 )
 
@@ -81,6 +82,32 @@ func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 	return
 }
 
+// References returns pointers of all references in given value.
+func References(v interface{}) (pp pointer.Pointers, err error) {
+	c, err := container.Make(v)
+	if err != nil {
+		return
+	}
+	refs, err := container.ExtractKey(c, "$ref")
+	if err != nil {
+		return
+	}
+	pp = make(pointer.Pointers)
+	for _, v := range refs {
+		s, ok := v.Val.(string)
+		if !ok {
+			continue
+		}
+		var p pointer.Pointer
+		p, err = pointer.Parse(s)
+		if err != nil {
+			return
+		}
+		pp[p.String()] = p
+	}
+	return
+}
+
 // SetPathsDefaults will iterate through paths and
 // apply default on each path. This might be useful for
 // supplying default headers or default responses.
diff --git a/oapi.go b/oapi.go
index 4d8d611..0b28b0b 100644
--- a/oapi.go
+++ b/oapi.go
@@ -164,9 +164,28 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
+	// Root document and default operations can reference types as well, hence
+	// they have to be in place before types are collected and resolved.
+	err = oapi.MergeWithRoot(opts.root, c)
+	if err != nil {
+		return
+	}
+
+	err = oapi.SetPathsDefaults(c, opts.defops)
+	if err != nil {
+		return
+	}
+
 	pp := make(pointer.Pointers)
 	pp = pp.Merge(cmdsScanner.Commands.Pointers())
-	pp = pp.Merge(specsScanner.Pointers)
+	for _, x := range []interface{}{c, opts.override} {
+		var px pointer.Pointers
+		px, err = oapi.References(x)
+		if err != nil {
+			return
+		}
+		pp = pp.Merge(px)
+	}
 
 	// collect and handle types
 	tps := types.NewScanner(pp)
@@ -175,11 +194,6 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
-	err = oapi.MergeWithRoot(opts.root, c)
-	if err != nil {
-		return
-	}
-
 	cnt, err := resolver.Resolve(c, exports, func(ptr pointer.Pointer) (e spec.Entiter, err error) {
 		if ovrd, ok := opts.override[ptr.String()]; ok {
 			return ovrd, nil
@@ -196,11 +210,6 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
-	err = oapi.SetPathsDefaults(cnt, opts.defops)
-	if err != nil {
-		return
-	}
-
 	return newOAPI(cnt)
 }
 
-- 
2.43.0


From 5d0d8000c4d1ed27c2a31075d98bd608c7a6194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 22/38] fix: named type must be referenced by its own pointer
 and walked once

---
 internal/oapi/scan/types/point.go | 51 +++++++++++++++++++++++++++++--
 internal/oapi/scan/types/types.go | 27 ++++++++--------
 2 files changed, 64 insertions(+), 14 deletions(-)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index 74579ff..8f35031 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -20,6 +20,16 @@ func newPoint(root types.Object) point {
 	return point{Pointer: ptr}
 }
 
+// namedPoint returns point of named type, the one it is declared at. There is
+// none for builtins and instances of generic types.
+func namedPoint(t types.Type) (point, bool) {
+	named, ok := t.(*types.Named)
+	if !ok || named.Obj().Pkg() == nil || named.Obj().Type() != t {
+		return point{}, false
+	}
+	return newPoint(named.Obj()), true
+}
+
 func withDescendant(ptr point, name string) point {
 	x := ptr.Clone()
 	fx, _ := x.Fragment.Descendant(name)
@@ -67,7 +77,10 @@ func (s points) Swap(i, j int) {
 
 // Less is part of sort.Interface. It is implemented by calling the "by" closure in the sorter.
 func (s points) Less(i, j int) bool {
-	return s[i].Fragment.Len() < s[j].Fragment.Len()
+	if x, y := s[i].Fragment.Len(), s[j].Fragment.Len(); x != y {
+		return x < y
+	}
+	return s[i].String() < s[j].String()
 }
 
 func (s points) filter(compare func(p1 point) bool) (pp points) {
@@ -93,6 +106,17 @@ func (s points) String() string {
 
 type pointmap struct {
 	m typeutil.Map
+	v map[string]struct{}
+}
+
+// visit reports if point was already visited.
+func (tp *pointmap) visit(p point) bool {
+	if tp.v == nil {
+		tp.v = make(map[string]struct{})
+	}
+	_, ok := tp.v[p.String()]
+	tp.v[p.String()] = struct{}{}
+	return ok
 }
 
 func (tp pointmap) len(t types.Type, r point) bool {
@@ -156,6 +180,9 @@ func (tp pointmap) find(fn func(types.Type, point) bool) (point, types.Type, boo
 }
 
 func (tp pointmap) pick(t types.Type) (point, bool) {
+	if np, ok := namedPoint(t); ok {
+		return np, tp.at(t).has(np)
+	}
 	pp := tp.at(t)
 	if len(pp) == 0 {
 		return point{}, false
@@ -168,7 +195,27 @@ func (tp pointmap) findType(p1 pointer.Pointer) (types.Type, bool) {
 	_, t, ok := tp.find(func(key types.Type, p2 point) bool {
 		return p1.String() == p2.Pointer.String()
 	})
-	return t, ok
+	if ok {
+		return t, ok
+	}
+
+	// There is no such point, but part of it can be point of named type whose
+	// descendants are known under its own point only.
+	for n := p1.Fragment.Len() - 1; n > 0; n-- {
+		head := p1.Clone()
+		head.Fragment = head.Fragment[:n]
+		t, ok = tp.findType(head)
+		if !ok {
+			continue
+		}
+		np, ok := namedPoint(t)
+		if !ok || np.String() == head.String() {
+			return nil, false
+		}
+		np.Fragment = np.Fragment.RawDescendant(p1.Fragment[n:]...)
+		return tp.findType(np.Pointer)
+	}
+	return nil, false
 }
 
 func (tp pointmap) log(log logging.Printer) {
diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index faf4a11..7dff31b 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -36,9 +36,19 @@ type elementer interface {
 // Later it is save to PtrType (last arg).
 // First argument is pointer to be saved, type and map.
 func walk(r point, t types.Type, p path, m *pointmap) (err error) {
-	t = t.Underlying()
 	m.append(t, r)
 
+	// Named types are walked just once and always from their own point.
+	if np, ok := namedPoint(t); ok {
+		if m.visit(np) {
+			return
+		}
+		m.append(t, np)
+		r, p = np, path{}
+	}
+
+	t = t.Underlying()
+
 	p, visited := p.visit(t)
 	if visited {
 		return
@@ -84,14 +94,6 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 		if err != nil {
 			return
 		}
-		named, ok := e.t.(*types.Named)
-		if ok {
-			np := newPoint(named.Obj())
-			err = walk(np, e.t, p, m)
-		}
-		if err != nil {
-			return
-		}
 	}
 
 	return
@@ -131,10 +133,11 @@ func (tp path) visit(t types.Type) (p path, visited bool) {
 
 // type2schema will conver type to spec.Scheme
 func type2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (*spec.Schema, error) {
+	orig := t
 	t = t.Underlying()
 
 	if tp.has(t) {
-		return reference2schema(t, m, tp, tg)
+		return reference2schema(orig, m, tp, tg)
 	}
 	tp = append(tp, t)
 
@@ -145,7 +148,7 @@ func type2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (*spec.Schema, e
 		if len(tp) == 1 {
 			return struct2schema(u, m, tp)
 		}
-		return reference2schema(u, m, tp, tg)
+		return reference2schema(orig, m, tp, tg)
 
 	case *types.Array:
 		return array2schema(u, m, tp, tg)
@@ -196,7 +199,7 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		if len(x.tag.Type) != 0 {
 			pschema, err = basicString2schema(x.tag.Type, x.tag)
 		} else {
-			switch z := x.field.Type().Underlying().(type) {
+			switch z := x.field.Type(); z.Underlying().(type) {
 			// struct
 			case *types.Struct:
 				pschema, err = reference2schema(z, m, tp, x.tag)
-- 
2.43.0


From e506a81af15379016dc50d9525be310cd6b6b826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 23/38] fix: reference to type with default schema must resolve
 to it

---
 internal/oapi/scan/types/scan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index 78cfb5c..330f12c 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -24,6 +24,9 @@ func NewScanner(ptrs pointer.Pointers) *Scanner {
 // Resolve will return new pointer and scheme, new pointer might be returned in cases
 // where original pointer is not fully resolved.
 func (r *Scanner) Resolve(ptr pointer.Pointer) (*spec.Schema, error) {
+	if sch, ok := refStdMapping[ptr.String()]; ok {
+		return &sch, nil
+	}
 	tp, ok := r.points.findType(ptr)
 	if !ok {
 		return nil, errors.Errorf("failed to resolve %q, no such type", ptr.String())
-- 
2.43.0


From a2a039e213bfdaf027e372b8b2f0e70fc905dab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 24/38] fix: field without format tag must keep format of its
 type

---
 internal/oapi/scan/types/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 7dff31b..91f9b3f 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -227,7 +227,9 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		pschema.Deprecated = x.tag.Deprecated
 		pschema.ReadOnly = x.tag.ReadOnly
 		pschema.WriteOnly = x.tag.WriteOnly
-		pschema.Format = x.tag.Format
+		if len(x.tag.Format) > 0 {
+			pschema.Format = x.tag.Format
+		}
 
 		if x.tag.Nullable != nil {
 			pschema.Nullable = *x.tag.Nullable
-- 
2.43.0


From f51d3df225c3460b16debaebca1958fb7f3fc917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 25/38] fix: mulof tag must set multipleOf, not minimum

---
 tag/tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tag/tag.go b/tag/tag.go
index af4b782..1fa3b36 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -89,7 +89,7 @@ func parseOAPITag(tags *structtag.Tags, meta *Tag) (err error) {
 		parseTagFloatPtr(tag, "min", &meta.Min),
 		parseTagFloatPtr(tag, "emax", &meta.EMax),
 		parseTagFloatPtr(tag, "emin", &meta.EMin),
-		parseTagFloatPtr(tag, "mulof", &meta.EMin),
+		parseTagFloatPtr(tag, "mulof", &meta.MulOf),
 	}
 	for _, err := range errs {
 		if err != nil {
-- 
2.43.0


From 666095ba9e772371b7d71bb2707105050e8f3033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 26/38] fix: invalid boolean in tag must be an error

---
 tag/tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tag/tag.go b/tag/tag.go
index 1fa3b36..234f67c 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -200,7 +200,7 @@ func parseTagBool(m *tagparser.Tag, tag string, val *bool) (err error) {
 	} else {
 		*val, err = strconv.ParseBool(x)
 	}
-	return nil
+	return err
 }
 
 func parseTagBoolPtr(m *tagparser.Tag, tag string, val **bool) (err error) {
-- 
2.43.0


From 9349242d91f75ad62aa57d3ee3c8c4bc34a5838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 27/38] fix: required must apply to fields of struct type as
 well

---
 internal/oapi/scan/types/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 91f9b3f..9e70480 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -220,6 +220,10 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 
 		s.Properties[name] = pschema
 
+		if x.tag.Required {
+			s.Required = append(s.Required, name)
+		}
+
 		if pschema.Ref != nil {
 			continue
 		}
@@ -234,10 +238,6 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		if x.tag.Nullable != nil {
 			pschema.Nullable = *x.tag.Nullable
 		}
-
-		if x.tag.Required {
-			s.Required = append(s.Required, name)
-		}
 	}
 
 	return
-- 
2.43.0


From aaaf0d672f6e0bd83e5930eb4cf944f2d7d1371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 28/38] fix: failed command must say so and exit with non-zero
 status

---
 cmd/oapi/main.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index 5f28553..284bbfe 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"bytes"
 	"context"
+	"fmt"
 	"io"
 	"os"
 	"os/signal"
@@ -23,7 +24,7 @@ func main() {
 
 	cfg, _, err := getConfig()
 	if err != nil {
-		panic(err)
+		fatal("err flags: %s", err)
 	}
 
 	var log logging.Printer
@@ -40,7 +41,7 @@ func main() {
 
 	config, err := cfg.full()
 	if err != nil {
-		logging.Fatal(log, "err config: %s", err.Error())
+		fatal("err config: %s", err)
 	}
 
 	go func() {
@@ -51,12 +52,12 @@ func main() {
 
 	spec, err := scan(ctx, log, config)
 	if err != nil {
-		logging.Fatal(log, "err during scan: %s", err.Error())
+		fatal("err during scan: %s", err)
 	}
 
 	data, err := oapi.Format(config.Format, spec)
 	if err != nil {
-		logging.Fatal(log, "err during format: %s", err.Error())
+		fatal("err during format: %s", err)
 	}
 
 	var w io.Writer
@@ -69,16 +70,22 @@ func main() {
 	default:
 		err = os.Remove(config.Output)
 		if err != nil {
-			logging.Fatal(log, err.Error())
+			fatal("err during output: %s", err)
 		}
 		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE, 0755)
 		if err != nil {
-			logging.Fatal(log, err.Error())
+			fatal("err during output: %s", err)
 		}
 	}
 
 	_, err = io.Copy(w, bytes.NewBuffer(data))
 	if err != nil {
-		logging.Fatal(log, err.Error())
+		fatal("err during output: %s", err)
 	}
 }
+
+// fatal reports the failure, no matter what log level is set, and exits.
+func fatal(msg string, args ...interface{}) {
+	fmt.Fprintf(os.Stderr, "oapi: "+msg+"\n", args...)
+	os.Exit(1)
+}
-- 
2.43.0


From ab72d9d2758e5d7f6c65d73a1829d37bf64cb1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 29/38] fix: stderr and stdout outputs must be honoured

---
 cmd/oapi/config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/oapi/config.go b/cmd/oapi/config.go
index ef1e76e..81f3d49 100644
--- a/cmd/oapi/config.go
+++ b/cmd/oapi/config.go
@@ -98,6 +98,7 @@ func (ff Config) full() (cfg config.Config, err error) {
 	if len(cfg.Output) > 0 {
 		switch cfg.Output {
 		case "stderr", "stdout":
+			output = cfg.Output
 		default:
 			output = toAbsPath(cfg.Output, cfg.Dir)
 		}
@@ -105,6 +106,7 @@ func (ff Config) full() (cfg config.Config, err error) {
 	if len(ff.Output) > 0 {
 		switch ff.Output {
 		case "stderr", "stdout":
+			output = ff.Output
 		default:
 			output = toAbsPath(ff.Output, wd)
 		}
-- 
2.43.0


From 23423c1531b485e6bfd255e277df8100750f99dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 30/38] fix: output file must be replaced at once and only by
 whole document

---
 cmd/oapi/main.go   | 17 +++---------
 cmd/oapi/output.go | 65 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 68 insertions(+), 14 deletions(-)
 create mode 100644 cmd/oapi/output.go

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index 284bbfe..438221f 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -60,25 +60,14 @@ func main() {
 		fatal("err during format: %s", err)
 	}
 
-	var w io.Writer
-
 	switch config.Output {
 	case "stdout", "":
-		w = os.Stdout
+		_, err = io.Copy(os.Stdout, bytes.NewBuffer(data))
 	case "stderr":
-		w = os.Stderr
+		_, err = io.Copy(os.Stderr, bytes.NewBuffer(data))
 	default:
-		err = os.Remove(config.Output)
-		if err != nil {
-			fatal("err during output: %s", err)
-		}
-		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE, 0755)
-		if err != nil {
-			fatal("err during output: %s", err)
-		}
+		err = writeFile(config.Output, data)
 	}
-
-	_, err = io.Copy(w, bytes.NewBuffer(data))
 	if err != nil {
 		fatal("err during output: %s", err)
 	}
diff --git a/cmd/oapi/output.go b/cmd/oapi/output.go
new file mode 100644
index 0000000..9703f69
--- /dev/null
+++ b/cmd/oapi/output.go
@@ -0,0 +1,65 @@
+package main
+
+import (
+	"io/ioutil"
+	"os"
+	"path/filepath"
+)
+
+// writeFile replaces content of the file at once. Whatever happens, there is
+// either what was there before or whole new content.
+func writeFile(path string, data []byte) (err error) {
+	mode := os.FileMode(0755)
+
+	fi, err := os.Stat(path)
+	switch {
+	case err == nil && fi.Mode().IsRegular():
+		mode = fi.Mode().Perm()
+		path, err = filepath.EvalSymlinks(path)
+	case err == nil:
+		// devices, pipes and such cannot be replaced
+		return writeSpecial(path, data)
+	case os.IsNotExist(err):
+		err = nil
+	}
+	if err != nil {
+		return
+	}
+
+	f, err := ioutil.TempFile(filepath.Dir(path), ".oapi-*")
+	if err != nil {
+		return
+	}
+	defer func() {
+		if err != nil {
+			os.Remove(f.Name())
+		}
+	}()
+
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Chmod(mode)
+	}
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		return
+	}
+	return os.Rename(f.Name(), path)
+}
+
+func writeSpecial(path string, data []byte) (err error) {
+	f, err := os.OpenFile(path, os.O_WRONLY, 0)
+	if err != nil {
+		return
+	}
+	_, err = f.Write(data)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	return
+}
-- 
2.43.0


From 8c68988730d2733301e49d0f1a4cd77e28092a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 31/38] fix: go format must compile whatever characters
 document has

---
 temp.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/temp.go b/temp.go
index a38f436..a754919 100644
--- a/temp.go
+++ b/temp.go
@@ -2,7 +2,9 @@ package oapi
 
 import (
 	"bytes"
+	"strconv"
 	"text/template"
+	"unicode/utf8"
 )
 
 var tpl = template.Must(template.New("pkg").Parse(
@@ -11,7 +13,7 @@ package {{.PkgName}}
 
 // OpenAPIJsonSpec is json generated specification produced 
 // by oapi-go tool.
-const OpenAPIJsonSpec = ` + "`" + `{{.OpenAPIJson}}` + "`" + `
+const OpenAPIJsonSpec = {{.Literal}}
 `))
 
 type tpldata struct {
@@ -19,6 +21,17 @@ type tpldata struct {
 	OpenAPIJson string
 }
 
+// Literal returns go literal of json. Raw string is preferred, but there are
+// characters it is not able to hold.
+func (t tpldata) Literal() string {
+	for _, r := range t.OpenAPIJson {
+		if r == '`' || r == '\r' || r == '\uFEFF' || r == utf8.RuneError {
+			return strconv.Quote(t.OpenAPIJson)
+		}
+	}
+	return "`" + t.OpenAPIJson + "`"
+}
+
 func produceGoFile(pkg tpldata) ([]byte, error) {
 	bx := bytes.NewBuffer([]byte{})
 	err := tpl.Execute(bx, pkg)
-- 
2.43.0


From 76186d7b54f3539bd677be2cb2c4c72524f1fc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 32/38] fix: directory which cannot be read must be an error,
 whatever its name

---
 internal/container/container.go | 39 ++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index 59663b7..18e510c 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -3,6 +3,7 @@ package container
 import (
 	"encoding/json"
 	"io/ioutil"
+	"os"
 	"path/filepath"
 	"reflect"
 	"sort"
@@ -232,7 +233,7 @@ type Containers []Container
 var defaultSearchPatterns = []string{"*.yaml", "*.yml", "*.json"}
 
 // ReadDir will read director and parse yaml/json files.
-// It is using glob to search for file in given directory.
+// It is using patterns to search for file in given directory.
 // by defaut it will search for yaml,yml,json extension.
 // But you are free to supply your own if you have different extension.
 func ReadDir(dir string, patterns ...string) (cc Containers, err error) {
@@ -241,12 +242,21 @@ func ReadDir(dir string, patterns ...string) (cc Containers, err error) {
 		patterns = defaultSearchPatterns
 	}
 
+	names, err := readNames(dir)
+	if err != nil {
+		return nil, errors.Wrapf(err, "failed to read directory")
+	}
+
 	for _, s := range patterns {
-		xs, err := filepath.Glob(filepath.Join(dir, s))
-		if err != nil {
-			return nil, err
+		for _, n := range names {
+			ok, err := filepath.Match(s, n)
+			if err != nil {
+				return nil, err
+			}
+			if ok {
+				ff = append(ff, filepath.Join(dir, n))
+			}
 		}
-		ff = append(ff, xs...)
 	}
 
 	if len(ff) == 0 {
@@ -264,6 +274,25 @@ func ReadDir(dir string, patterns ...string) (cc Containers, err error) {
 	return
 }
 
+// readNames returns sorted names in directory, there are none if there is no
+// such directory.
+func readNames(dir string) (names []string, err error) {
+	f, err := os.Open(dir)
+	if err != nil {
+		if os.IsNotExist(err) {
+			err = nil
+		}
+		return
+	}
+	defer f.Close()
+	names, err = f.Readdirnames(-1)
+	if err != nil {
+		return nil, err
+	}
+	sort.Strings(names)
+	return
+}
+
 // sort interface complience with sort.Sort method
 
 func (cc Containers) Len() int           { return len(cc) }
-- 
2.43.0


From 05e6ae32ea9fe6a2898b0bf2a4fc0e6570c07ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 33/38] fix: anonymous type must be referenced where it is
 declared

---
 internal/oapi/scan/types/point.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index 8f35031..5b27f45 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -107,6 +107,8 @@ func (s points) String() string {
 type pointmap struct {
 	m typeutil.Map
 	v map[string]struct{}
+	l map[types.Type]points
+	p map[string]types.Type
 }
 
 // visit reports if point was already visited.
@@ -124,6 +126,14 @@ func (tp pointmap) len(t types.Type, r point) bool {
 }
 
 func (tp *pointmap) append(t types.Type, p1 point) points {
+	if tp.l == nil {
+		tp.l = make(map[types.Type]points)
+		tp.p = make(map[string]types.Type)
+	}
+	tp.p[p1.String()] = t
+	if !tp.l[t].has(p1) {
+		tp.l[t] = append(tp.l[t], p1)
+	}
 	pp, _ := tp.m.At(t).(points)
 	if pp.has(p1) {
 		return pp
@@ -183,7 +193,9 @@ func (tp pointmap) pick(t types.Type) (point, bool) {
 	if np, ok := namedPoint(t); ok {
 		return np, tp.at(t).has(np)
 	}
-	pp := tp.at(t)
+	// Types without name can be identical and yet declared at more places,
+	// this is about the one declared at its own.
+	pp := tp.l[t]
 	if len(pp) == 0 {
 		return point{}, false
 	}
@@ -192,9 +204,7 @@ func (tp pointmap) pick(t types.Type) (point, bool) {
 }
 
 func (tp pointmap) findType(p1 pointer.Pointer) (types.Type, bool) {
-	_, t, ok := tp.find(func(key types.Type, p2 point) bool {
-		return p1.String() == p2.Pointer.String()
-	})
+	t, ok := tp.p[p1.String()]
 	if ok {
 		return t, ok
 	}
-- 
2.43.0


From da48df1052760d70e0e1558a42c3f74592a0373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 34/38] fix: order of keys in yaml must be stable (404, 4XX,
 200)

---
 internal/container/sort.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index 2b3fc2f..5cd84d9 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -50,7 +50,34 @@ func (c Sorter) MarshalYAML() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return yaml.Marshal(data)
+	return yaml.Marshal(sortYAML(data))
+}
+
+// sortYAML replaces maps by slices sorted by key. Order in which yaml package
+// puts keys of map is not total (404, 4XX, 200), so it would not be stable.
+func sortYAML(data interface{}) interface{} {
+	switch x := data.(type) {
+	case MapSlice:
+		ms := yaml.MapSlice{}
+		for _, mi := range x.Sort() {
+			ms = append(ms, yaml.MapItem{Key: mi.Key, Value: sortYAML(mi.Val)})
+		}
+		return ms
+	case map[string]interface{}:
+		var ms MapSlice
+		for k, v := range x {
+			ms = append(ms, MapItem{Key: k, Val: v})
+		}
+		return sortYAML(ms)
+	case []interface{}:
+		a := make([]interface{}, len(x))
+		for i, v := range x {
+			a[i] = sortYAML(v)
+		}
+		return a
+	default:
+		return data
+	}
 }
 
 func indexOf(element string, data []string) int {
-- 
2.43.0


From edfb114cc37fe74b1f4cd6d94e134732907378bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 35/38] fix: path through more than one named type must be
 followed

---
 internal/oapi/scan/types/point.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index 5b27f45..26d8717 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -214,7 +214,7 @@ func (tp pointmap) findType(p1 pointer.Pointer) (types.Type, bool) {
 	for n := p1.Fragment.Len() - 1; n > 0; n-- {
 		head := p1.Clone()
 		head.Fragment = head.Fragment[:n]
-		t, ok = tp.findType(head)
+		t, ok = tp.p[head.String()]
 		if !ok {
 			continue
 		}
-- 
2.43.0


From 4cfba0844f68ee5570a11d8a59297945b43c71ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 36/38] fix: reference leading to type with default schema must
 resolve to it

---
 internal/oapi/scan/types/scan.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index 330f12c..3b97777 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -31,6 +31,11 @@ func (r *Scanner) Resolve(ptr pointer.Pointer) (*spec.Schema, error) {
 	if !ok {
 		return nil, errors.Errorf("failed to resolve %q, no such type", ptr.String())
 	}
+	if np, ok := namedPoint(tp); ok {
+		if sch, ok := refStdMapping[np.String()]; ok {
+			return &sch, nil
+		}
+	}
 	// pp, ok := r.points.pick(tp)
 	// if !ok {
 	// 	return nil, errors.Errorf("failed to resolve %q", ptr.String())
-- 
2.43.0


From 94cda7e2246233db6e7fb7b880b1bf6ab815f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 37/38] fix: references which are not local to package stay as
 written, kept by pointer itself

---
 internal/oapi/scan/specs/scan.go | 12 ++++++------
 internal/pointer/pointer.go      | 16 ++++++++++++----
 oapi.go                          |  3 ++-
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/internal/oapi/scan/specs/scan.go b/internal/oapi/scan/specs/scan.go
index c2af27b..c1f3f50 100644
--- a/internal/oapi/scan/specs/scan.go
+++ b/internal/oapi/scan/specs/scan.go
@@ -60,14 +60,14 @@ func (r *Scanner) Scan(pkg *packages.Package) (err error) {
 				pf, _ := pointer.NewGoPointer(pkg.PkgPath, "")
 				pf.Fragment = p.Fragment
 				p = pf
-
-				err = c.SetP(v.Key, p.String())
-				if err != nil {
-					return err
-				}
 			}
 
 			r.Pointers[p.String()] = p
+
+			err = c.SetP(v.Key, p.String())
+			if err != nil {
+				return err
+			}
 		}
 
 		cc = append(cc, c)
@@ -80,5 +80,5 @@ func (r *Scanner) Scan(pkg *packages.Package) (err error) {
 
 // Merge will provide single container as result of merging.
 func (r *Scanner) Merge() (c container.Container, err error) {
-	return r.Containers.Sort().Merge(container.MergeEqual)
+	return r.Containers.Sort().Merge(container.MergeStrict)
 }
diff --git a/internal/pointer/pointer.go b/internal/pointer/pointer.go
index fcf0656..e665499 100644
--- a/internal/pointer/pointer.go
+++ b/internal/pointer/pointer.go
@@ -22,6 +22,10 @@ const defaultPointerAllocationSize = 32
 type Pointer struct {
 	url.URL
 	Fragment Fragment
+
+	// written is text of reference which does not point to go type,
+	// such reference is never rewritten
+	written *string
 }
 
 // NewPointer creates a Pointer with a pre-allocated block of memory
@@ -43,10 +47,8 @@ func NewGoPointer(pkg string, path string) (Pointer, error) {
 // (the bit after the '#' symbol)
 func Parse(str string) (p Pointer, err error) {
 	switch {
-	case len(str) == 0:
-		return Pointer{}, nil
-	case str == "#":
-		return Pointer{}, nil
+	case len(str) == 0, str == "#":
+		return Pointer{written: &str}, nil
 	}
 
 	var u *url.URL
@@ -56,6 +58,9 @@ func Parse(str string) (p Pointer, err error) {
 	}
 	p.Fragment, err = NewFragment(u.Fragment)
 	p.URL = *u
+	if p.Scheme != "go" {
+		p.written = &str
+	}
 	return
 }
 
@@ -89,6 +94,9 @@ func (p *Pointer) MarshalJSON() ([]byte, error) {
 }
 
 func (p Pointer) String() string {
+	if p.written != nil {
+		return *p.written
+	}
 	p.URL.Fragment = ""
 	return fmt.Sprintf("%s#%s", p.URL.String(), p.Fragment.String())
 }
diff --git a/oapi.go b/oapi.go
index 0b28b0b..d1bd148 100644
--- a/oapi.go
+++ b/oapi.go
@@ -159,7 +159,8 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
-	c, err := specsScanner.Merge()
+	// Several packages can declare same thing, as long as they agree on it
+	c, err := specsScanner.Containers.Sort().Merge(container.MergeEqual)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From f4f6f2f5c88499cc3910abdc6793c62bcc2a1533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:24 +0000
Subject: [PATCH 38/38] fix: default operations filled extensions of paths

---
 internal/oapi/oapi.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 126140d..6ba534e 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -2,6 +2,7 @@ package oapi
 
 import (
 	"sort"
+	"strings"
 
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
@@ -57,6 +58,10 @@ func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 	}
 
 	for path, methods := range paths {
+		if strings.HasPrefix(path, "x-") {
+			// an extension is not a path
+			continue
+		}
 		if _, ok := methods.Data().(map[string]interface{}); !ok {
 			continue
 		}
-- 
2.43.0

