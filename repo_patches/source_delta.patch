From f76ac00130a7edc2f8745951488b487ca312f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:25 +0000
Subject: [PATCH 01/56] fix: reject unusable entity configurations of the
 starting entity in trust resolution

---
 trustresolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index 5523cde..3090357 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -212,6 +212,10 @@ func (r *TrustResolver) Resolve() {
 	if err != nil {
 		return
 	}
+	if !utils.Equal(starting.Issuer, starting.Subject, r.StartingEntity) || !starting.TimeValid() {
+		internal.Logf("entity configuration for %+q is not usable", r.StartingEntity)
+		return
+	}
 	if len(r.Types) > 0 {
 		utils.NilAllExceptByTag(starting.Metadata, r.Types)
 	}
-- 
2.43.0


From 6b3ae55f55cc5bcc765466d055f0f88b0e029a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 02/56] fix: do not crash when resolving an entity without
 metadata

---
 trustresolver.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 3090357..c579712 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -216,12 +216,16 @@ func (r *TrustResolver) Resolve() {
 		internal.Logf("entity configuration for %+q is not usable", r.StartingEntity)
 		return
 	}
-	if len(r.Types) > 0 {
-		utils.NilAllExceptByTag(starting.Metadata, r.Types)
+	var entityTypes []string
+	if starting.Metadata != nil {
+		if len(r.Types) > 0 {
+			utils.NilAllExceptByTag(starting.Metadata, r.Types)
+		}
+		entityTypes = starting.Metadata.GuessEntityTypes()
 	}
 	r.trustTree = trustTree{
 		Entity:              starting,
-		includedEntityTypes: strset.New(starting.Metadata.GuessEntityTypes()...),
+		includedEntityTypes: strset.New(entityTypes...),
 		subordinateIDs:      strset.New(starting.Subject),
 	}
 	r.trustTree.resolve(r.TrustAnchors)
-- 
2.43.0


From 3db7759a5163c850f5284c024f15779c65114581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 03/56] fix: only return trust chains whose signatures lead to
 a trust anchor

---
 trustresolver.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index c579712..5eb7331 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -236,7 +236,10 @@ func (r *TrustResolver) Resolve() {
 
 // VerifySignatures verifies the signatures of the internal trust tree
 func (r *TrustResolver) VerifySignatures() {
-	r.trustTree.verifySignatures(r.TrustAnchors)
+	if !r.trustTree.verifySignatures(r.TrustAnchors) {
+		// nothing links the entity to a trust anchor
+		r.trustTree = trustTree{}
+	}
 	if err := r.cacheSetTrustTree(); err != nil {
 		internal.Log(err.Error())
 	}
@@ -444,17 +447,19 @@ func (t *trustTree) verifySignatures(anchors TrustAnchors) bool {
 	if t.signaturesVerified {
 		return true
 	}
-	if t.Subordinate != nil {
-		for _, ta := range anchors {
-			if utils.Equal(ta.EntityID, t.Entity.Issuer, t.Entity.Subject, t.Subordinate.Issuer) {
-				// t is about a TA
-				jwks := ta.JWKS
-				if jwks.Set == nil {
-					jwks = t.Entity.JWKS
-				}
-				t.signaturesVerified = t.Entity.Verify(jwks) && t.Subordinate.Verify(jwks)
-				return t.signaturesVerified
+	if t.Entity == nil {
+		return false
+	}
+	for _, ta := range anchors {
+		if utils.Equal(ta.EntityID, t.Entity.Issuer, t.Entity.Subject) &&
+			(t.Subordinate == nil || t.Subordinate.Issuer == ta.EntityID) {
+			// t is about a TA
+			jwks := ta.JWKS
+			if jwks.Set == nil {
+				jwks = t.Entity.JWKS
 			}
+			t.signaturesVerified = t.Entity.Verify(jwks) && (t.Subordinate == nil || t.Subordinate.Verify(jwks))
+			return t.signaturesVerified
 		}
 	}
 	iValid := 0
-- 
2.43.0


From 9507ab7d49920be3711c5028388f995901a4d2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 04/56] fix: do not return a trust chain once per repeated
 authority hint

---
 trustresolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index 5eb7331..55735da 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -341,6 +341,10 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 			// loop prevention
 			continue
 		}
+		if slices.Contains(t.Entity.AuthorityHints[:i], aID) {
+			// repeated hint
+			continue
+		}
 		aStmt, err := GetEntityConfiguration(aID)
 		if err != nil {
 			continue
-- 
2.43.0


From 9033dfab81090103679254bf09e0b7704af9c864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 05/56] fix: do not return the result of an earlier resolution
 when resolving again fails

---
 trustresolver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index 55735da..9550c5b 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -199,6 +199,8 @@ func (r *TrustResolver) ResolveToValidChainsWithoutVerifyingMetadata() TrustChai
 
 // Resolve starts the trust chain resolution process, building an internal trust tree
 func (r *TrustResolver) Resolve() {
+	// forget the result of an earlier resolution
+	r.trustTree = trustTree{}
 	if found, err := r.cacheGetTrustTree(); err != nil {
 		internal.Log(err.Error())
 	} else if found {
-- 
2.43.0


From f73cf6fa2c5e6dfb7fb91acb2830443939c09a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 06/56] fix: consider entity types unknown to the library in
 constraints and filters

---
 metadata.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metadata.go b/metadata.go
index a9bf786..5fd8b0b 100644
--- a/metadata.go
+++ b/metadata.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"sort"
 	"strings"
 	"unsafe"
 
@@ -40,7 +41,12 @@ func (m Metadata) GuessEntityTypes() (entityTypes []string) {
 			entityTypes = append(entityTypes, jsonTag)
 		}
 	}
-	return
+	extraTypes := make([]string, 0, len(m.Extra))
+	for entityType := range m.Extra {
+		extraTypes = append(extraTypes, entityType)
+	}
+	sort.Strings(extraTypes)
+	return append(entityTypes, extraTypes...)
 }
 
 // GuessDisplayName implements the DisplayNameGuesser interface
-- 
2.43.0


From 91ee199a145ff87931cc8c85b2f3dca29348062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:58 +0000
Subject: [PATCH 07/56] fix: do not crash on policy operands and values of
 different types

---
 internal/utils/slices.go | 114 ++++++++++++++++++---------------------
 1 file changed, 51 insertions(+), 63 deletions(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index f18a91d..46cb664 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -21,59 +21,59 @@ func RemoveFromSlice[C comparable](slice []C, v C) []C {
 	return result
 }
 
-// ReflectSliceCast casts a slice to another type using reflection
+// ReflectSliceCast casts a slice to another slice type using reflection; a slice with elements that are not of the
+// element type of the new type, and anything that is not a slice, is returned as it is
 func ReflectSliceCast(slice, newType any) any {
-	if !IsSlice(slice) {
+	if !IsSlice(slice) || !IsSlice(newType) {
 		return slice
 	}
 	typeType := reflect.TypeOf(newType)
 	sliceV := reflect.ValueOf(slice)
 	out := reflect.MakeSlice(typeType, sliceV.Len(), sliceV.Len())
 	for i := 0; i < sliceV.Len(); i++ {
-		vv := sliceV.Index(i)
-		var v reflect.Value
-		// This is stupid and has faults, but I did not find a better way
-		switch typeType.Elem().Kind() {
-		case reflect.Bool:
-			v = reflect.ValueOf(vv.Interface().(bool))
-		case reflect.Int:
-			v = reflect.ValueOf(vv.Interface().(int))
-		case reflect.Int8:
-			v = reflect.ValueOf(vv.Interface().(int8))
-		case reflect.Int16:
-			v = reflect.ValueOf(vv.Interface().(int16))
-		case reflect.Int32:
-			v = reflect.ValueOf(vv.Interface().(int32))
-		case reflect.Int64:
-			v = reflect.ValueOf(vv.Interface().(int64))
-		case reflect.Uint:
-			v = reflect.ValueOf(vv.Interface().(uint))
-		case reflect.Uint8:
-			v = reflect.ValueOf(vv.Interface().(uint8))
-		case reflect.Uint16:
-			v = reflect.ValueOf(vv.Interface().(uint16))
-		case reflect.Uint32:
-			v = reflect.ValueOf(vv.Interface().(uint32))
-		case reflect.Uint64:
-			v = reflect.ValueOf(vv.Interface().(uint64))
-		case reflect.Uintptr:
-			v = reflect.ValueOf(vv.Interface().(*uint))
-		case reflect.Float32:
-			v = reflect.ValueOf(vv.Interface().(float32))
-		case reflect.Float64:
-			v = reflect.ValueOf(vv.Interface().(float64))
-		case reflect.Interface:
-			v = vv
-		case reflect.String:
-			v = reflect.ValueOf(vv.Interface().(string))
-		default:
-			v = vv.Convert(typeType.Elem())
+		v := sliceV.Index(i)
+		if v.Kind() == reflect.Interface && typeType.Elem().Kind() != reflect.Interface {
+			v = v.Elem()
+		}
+		if !v.IsValid() || !v.Type().AssignableTo(typeType.Elem()) {
+			return slice
 		}
 		out.Index(i).Set(v)
 	}
 	return out.Interface()
 }
 
+// sameSliceType slicifies the passed values and converts them to slices of the same type;
+// the type of a is preferred. nil becomes an empty slice
+func sameSliceType(a, b any) (reflect.Value, reflect.Value) {
+	as := Slicify(a)
+	bs := Slicify(b)
+	if as == nil {
+		as = []any{}
+		if bs != nil {
+			as = reflect.MakeSlice(reflect.TypeOf(bs), 0, 0).Interface()
+		}
+	}
+	if bs == nil {
+		bs = reflect.MakeSlice(reflect.TypeOf(as), 0, 0).Interface()
+	}
+	bs = ReflectSliceCast(bs, as)
+	if reflect.TypeOf(as) != reflect.TypeOf(bs) {
+		as = toAnySlice(as)
+		bs = toAnySlice(bs)
+	}
+	return reflect.ValueOf(as), reflect.ValueOf(bs)
+}
+
+func toAnySlice(slice any) []any {
+	v := reflect.ValueOf(slice)
+	out := make([]any, v.Len())
+	for i := range out {
+		out[i] = v.Index(i).Interface()
+	}
+	return out
+}
+
 // ReflectSliceContains checks if a slice contains a value using reflection
 func ReflectSliceContains(v, slice any) bool {
 	if !IsSlice(slice) {
@@ -90,20 +90,9 @@ func ReflectSliceContains(v, slice any) bool {
 
 // ReflectUnion uses reflection to compute the union of two slices
 func ReflectUnion(a, b any) any {
-	as := Slicify(a)
-	bs := Slicify(b)
-	out := reflect.ValueOf(as)
-	bV := reflect.ValueOf(bs)
-	if bV.Len() == 0 {
-		return out.Interface()
-	}
-	if out.Len() == 0 || out.Index(0).Type() != bV.Index(0).Type() {
-		bs = ReflectSliceCast(bs, as)
-		bV = reflect.ValueOf(bs)
-	}
-	if out.Len() == 0 {
-		return bV.Interface()
-	}
+	aV, bV := sameSliceType(a, b)
+	out := reflect.MakeSlice(aV.Type(), 0, aV.Len()+bV.Len())
+	out = reflect.AppendSlice(out, aV)
 	for i := 0; i < bV.Len(); i++ {
 		v := bV.Index(i)
 		if !ReflectSliceContains(v.Interface(), out.Interface()) {
@@ -115,26 +104,25 @@ func ReflectUnion(a, b any) any {
 
 // ReflectIntersect uses reflection to compute the intersection of two slices
 func ReflectIntersect(a, b any) any {
-	as := Slicify(a)
-	bs := Slicify(b)
-	aV := reflect.ValueOf(as)
-	if aV.Type() != reflect.ValueOf(bs).Type() {
-		bs = ReflectSliceCast(bs, as)
-	}
-	out := reflect.New(reflect.TypeOf(as)).Elem()
+	aV, bV := sameSliceType(a, b)
+	out := reflect.MakeSlice(aV.Type(), 0, aV.Len())
 	for i := 0; i < aV.Len(); i++ {
 		v := aV.Index(i)
-		if ReflectSliceContains(v.Interface(), bs) {
+		if ReflectSliceContains(v.Interface(), bV.Interface()) {
 			out = reflect.Append(out, v)
 		}
 	}
 	return out.Interface()
 }
 
-// ReflectIsSubsetOf uses reflection to check if a slice is a subset of another
+// ReflectIsSubsetOf uses reflection to check if a slice is a subset of another;
+// nil is not a subset of anything
 func ReflectIsSubsetOf(is, of any) bool {
 	is = Slicify(is)
 	of = Slicify(of)
+	if is == nil {
+		return false
+	}
 	isV := reflect.ValueOf(is)
 	for i := 0; i < isV.Len(); i++ {
 		v := isV.Index(i)
-- 
2.43.0


From 7f05d2ddccbcddc3cde978a3cea0b2cfadee76d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 08/56] fix: parse metadata policies of entity types unknown to
 the library

---
 metadataPolicy.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index e79c97b..854ce98 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -53,9 +53,13 @@ func (m *MetadataPolicies) UnmarshalJSON(data []byte) error {
 	if len(extra) > 0 {
 		policyMap := make(map[string]MetadataPolicy)
 		for k, v := range extra {
-			policy, ok := v.(MetadataPolicy)
-			if !ok {
-				return errors.Errorf("non MetadataPolicy in metadata policies")
+			var policy MetadataPolicy
+			policyData, err := json.Marshal(v)
+			if err != nil {
+				return errors.WithStack(err)
+			}
+			if err = json.Unmarshal(policyData, &policy); err != nil {
+				return errors.Wrap(err, "non MetadataPolicy in metadata policies")
 			}
 
 			policyMap[k] = policy
-- 
2.43.0


From 9853f94ad70eca7a25d30a504f068f8bc77911e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 09/56] fix: apply metadata policies to parameters, entity
 types and value types the struct fields do not cover

---
 metadata.go       | 108 +++++++++++++++++++++++++++++++++++++++++-----
 metadataPolicy.go |  14 ++++++
 2 files changed, 111 insertions(+), 11 deletions(-)

diff --git a/metadata.go b/metadata.go
index 5fd8b0b..5051572 100644
--- a/metadata.go
+++ b/metadata.go
@@ -3,12 +3,15 @@ package oidfed
 import (
 	"encoding/json"
 	"fmt"
+	"maps"
 	"reflect"
 	"sort"
 	"strings"
 	"unsafe"
 
 	"github.com/pkg/errors"
+
+	"github.com/go-oidfed/lib/internal/utils"
 )
 
 // Metadata is a type for holding the different metadata types
@@ -282,11 +285,18 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 	if policy == nil {
 		return metadata, nil
 	}
+	if m, ok := metadata.(map[string]any); ok {
+		return applyPolicyToMap(m, policy, ownTag)
+	}
 	v := reflect.ValueOf(metadata)
+	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
+		return nil, errors.Errorf("cannot apply metadata policy to '%s': not an object", ownTag)
+	}
 	t := v.Elem().Type()
 
 	wasSetField := v.Elem().FieldByName("wasSet")
 	wasSet := *(*map[string]bool)(unsafe.Pointer(wasSetField.UnsafeAddr())) // skipcq:  GSC-G103
+	extraPolicy := maps.Clone(policy)
 	for i := 0; i < t.NumField(); i++ {
 		j, ok := t.Field(i).Tag.Lookup("json")
 		if !ok {
@@ -297,28 +307,104 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 		if !ok {
 			continue
 		}
+		delete(extraPolicy, j)
+		pathInfo := fmt.Sprintf("%s.%s", ownTag, j)
 		f := reflect.Indirect(v).Field(i)
-		value, err := p.ApplyTo(f.Interface(), wasSet[t.Field(i).Name], fmt.Sprintf("%s.%s", ownTag, j))
+		isScope := t.Field(i).Name == "Scope" && f.Kind() == reflect.String
+		value, err := policyInput(f)
 		if err != nil {
 			return nil, err
 		}
-		rV := reflect.ValueOf(value)
-		if t.Field(i).Name == "Scope" && rV.IsValid() && rV.Kind() == reflect.Slice {
-			strSlice, ok := value.([]string)
-			if ok {
-				rV = reflect.ValueOf(strings.Join(strSlice, " "))
+		if isScope && p.hasListOperator() {
+			value = nil
+			if scopes := strings.Fields(f.String()); len(scopes) > 0 {
+				value = scopes
 			}
 		}
-		if rV.IsValid() {
-			f.Set(rV)
-		} else {
-			f.SetZero()
+		value, err = p.ApplyTo(value, wasSet[t.Field(i).Name], pathInfo)
+		if err != nil {
+			return nil, err
+		}
+		if isScope {
+			if scopes, ok := utils.ReflectSliceCast(value, []string{}).([]string); ok {
+				value = strings.Join(scopes, " ")
+			}
+		}
+		if err = setPolicyResult(f, value, pathInfo); err != nil {
+			return nil, err
 		}
 	}
-
+	// parameters unknown to this module
+	if extraField := v.Elem().FieldByName("Extra"); extraField.IsValid() {
+		extra, err := applyPolicyToMap(extraField.Interface().(map[string]any), extraPolicy, ownTag)
+		if err != nil {
+			return nil, err
+		}
+		extraField.Set(reflect.ValueOf(extra))
+	}
 	return metadata, nil
 }
 
+// applyPolicyToMap applies a MetadataPolicy to generic metadata and returns the result; metadata is not changed.
+func applyPolicyToMap(metadata map[string]any, policy MetadataPolicy, ownTag string) (map[string]any, error) {
+	out := maps.Clone(metadata)
+	for parameter, p := range policy {
+		in := metadata[parameter]
+		value, err := p.ApplyTo(in, in != nil, fmt.Sprintf("%s.%s", ownTag, parameter))
+		if err != nil {
+			return nil, err
+		}
+		if value == nil {
+			delete(out, parameter)
+			continue
+		}
+		if out == nil {
+			out = make(map[string]any)
+		}
+		out[parameter] = value
+	}
+	return out, nil
+}
+
+// policyInput returns the value of a metadata field in the form in which policy operands are decoded from JSON
+func policyInput(f reflect.Value) (value any, err error) {
+	switch v := f.Interface().(type) {
+	case string, bool, []string:
+		return v, nil
+	}
+	if k := f.Kind(); (k == reflect.Ptr || k == reflect.Map || k == reflect.Slice) && f.IsNil() {
+		return nil, nil
+	}
+	data, err := json.Marshal(f.Interface())
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	err = errors.WithStack(json.Unmarshal(data, &value))
+	return
+}
+
+// setPolicyResult sets a metadata field to the result of applying a policy
+func setPolicyResult(f reflect.Value, value any, pathInfo string) error {
+	if value == nil {
+		f.SetZero()
+		return nil
+	}
+	if rV := reflect.ValueOf(value); rV.Type().AssignableTo(f.Type()) {
+		f.Set(rV)
+		return nil
+	}
+	data, err := json.Marshal(value)
+	if err != nil {
+		return errors.WithStack(err)
+	}
+	converted := reflect.New(f.Type())
+	if err = json.Unmarshal(data, converted.Interface()); err != nil {
+		return errors.Errorf("metadata policy for '%s' results in a value of the wrong type: %s", pathInfo, err)
+	}
+	f.Set(converted.Elem())
+	return nil
+}
+
 // FindEntityMetadata finds metadata for the specified entity type in the
 // metadata and decodes it into the provided metadata object.
 func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
diff --git a/metadataPolicy.go b/metadataPolicy.go
index 854ce98..7ee9608 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -262,6 +262,20 @@ func (p MetadataPolicyEntry) Verify(pathInfo string) error {
 	return nil
 }
 
+// hasListOperator tells if the entry has operators that treat the value as a list
+func (p MetadataPolicyEntry) hasListOperator() bool {
+	for _, op := range []PolicyOperatorName{
+		PolicyOperatorAdd,
+		PolicyOperatorSubsetOf,
+		PolicyOperatorSupersetOf,
+	} {
+		if _, ok := p[op]; ok {
+			return true
+		}
+	}
+	return false
+}
+
 // ApplyTo applies this MetadataPolicyEntry to the passed value and returns the resulting value
 func (p MetadataPolicyEntry) ApplyTo(value any, valueSet bool, pathInfo string) (any, error) {
 	var err error
-- 
2.43.0


From 03858a0e1bd99e6e88206ecc57ab76ba9dcf700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:24 +0000
Subject: [PATCH 10/56] fix: detect absent essential list parameters and accept
 essential parameters that are false or 0

---
 policyoperators.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/policyoperators.go b/policyoperators.go
index 882e81b..b58eeee 100644
--- a/policyoperators.go
+++ b/policyoperators.go
@@ -350,8 +350,7 @@ var policyOperatorEssential = NewPolicyOperator(
 		if policyValue == nil {
 			return value, valueSet, nil
 		}
-		if essential, eok := policyValue.(bool); eok && essential &&
-			(value == nil || (!utils.IsSlice(value) && reflect.ValueOf(value).IsZero())) {
+		if essential, eok := policyValue.(bool); eok && essential && isMissing(value, valueSet) {
 			return nil, valueSet, errors.Errorf("metadata value for '%s' not set but required", pathInfo)
 		}
 		return value, valueSet, nil
@@ -359,6 +358,20 @@ var policyOperatorEssential = NewPolicyOperator(
 	nil,
 )
 
+// isMissing tells if a metadata value counts as absent for an essential parameter
+func isMissing(value any, valueSet bool) bool {
+	v := reflect.ValueOf(value)
+	if !v.IsValid() {
+		return true
+	}
+	switch v.Kind() {
+	case reflect.Slice, reflect.Bool, reflect.Int64, reflect.Float64:
+		return !valueSet && v.IsZero()
+	default:
+		return v.IsZero()
+	}
+}
+
 func init() {
 	operators = make(map[PolicyOperatorName]PolicyOperator)
 	RegisterPolicyOperator(policyOperatorSubsetOf)
-- 
2.43.0


From 72ed2fb9a4f2ae4d5eab6c0fbd131f045ddad78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 11/56] fix: compare policy values as sets in both directions

---
 internal/utils/slices.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index 46cb664..b853437 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -146,25 +146,15 @@ func IsSlice(v interface{}) bool {
 	return reflect.TypeOf(v).Kind() == reflect.Slice
 }
 
-// SliceEqual uses reflection to check if two slices contain the same elements; order does not matter,
-// assumes no duplicate entries in a slice
+// SliceEqual uses reflection to check if two slices contain the same elements; order and duplicate entries do not
+// matter
 func SliceEqual(a, b interface{}) bool {
 	if a == nil || b == nil {
 		return a == b
 	}
 	as := Slicify(a)
 	bs := Slicify(b)
-	aV := reflect.ValueOf(as)
-	bV := reflect.ValueOf(bs)
-	if aV.Len() != bV.Len() {
-		return false
-	}
-	for i := 0; i < aV.Len(); i++ {
-		if !ReflectSliceContains(aV.Index(i).Interface(), bs) {
-			return false
-		}
-	}
-	return true
+	return ReflectIsSubsetOf(as, bs) && ReflectIsSubsetOf(bs, as)
 }
 
 // Slicify checks if an interface{} is a slice and if not returns a slice of the same type (as an interface{})
-- 
2.43.0


From fbff58a7ff185987fbbd39a1781f6ee125d180b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 12/56] fix: verify a subordinate's metadata policy if the
 superiors' policy is empty

---
 metadataPolicy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index 7ee9608..df57a50 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -181,7 +181,7 @@ func combineMetadataPolicy(parent, sub MetadataPolicy, pathInfo string) (Metadat
 		return parent, nil
 	}
 	if len(parent) == 0 {
-		return sub, nil
+		return sub, sub.Verify(pathInfo)
 	}
 	out := make(MetadataPolicy)
 	for k, pv := range parent {
-- 
2.43.0


From eb7606a6ab9843a860dfa35f4cc48f8a5fe021fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 13/56] fix: reject policies whose value contradicts one_of,
 superset_of or essential

---
 policyverifiers.go | 54 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/policyverifiers.go b/policyverifiers.go
index c57f1dd..ceb7bab 100644
--- a/policyverifiers.go
+++ b/policyverifiers.go
@@ -103,6 +103,57 @@ func policyVerifyDefaultAndValue(p MetadataPolicyEntry, pathInfo string) error {
 	return nil
 }
 
+func policyVerifyEssentialAndValue(p MetadataPolicyEntry, pathInfo string) error {
+	valueV, valueSet := p[PolicyOperatorValue]
+	if essential, _ := p[PolicyOperatorEssential].(bool); !valueSet || !essential {
+		return nil
+	}
+	if valueV == nil {
+		return errors.Errorf(
+			"after combining policies '%s': combining '%s' with a null '%s' policy is not allowed.", pathInfo,
+			PolicyOperatorEssential, PolicyOperatorValue,
+		)
+	}
+	return nil
+}
+
+func policyVerifyValueInOneOf(p MetadataPolicyEntry, pathInfo string) error {
+	oneOfV, oneOf := p[PolicyOperatorOneOf]
+	valueV, valueSet := p[PolicyOperatorValue]
+	if !oneOf || !valueSet {
+		return nil
+	}
+	if !utils.ReflectSliceContains(valueV, utils.Slicify(oneOfV)) {
+		return errors.Errorf(
+			"after combining policies '%s' the '%s' operator value '%v' is not included in the '%s' operator",
+			pathInfo,
+			PolicyOperatorValue,
+			valueV,
+			PolicyOperatorOneOf,
+		)
+	}
+	return nil
+}
+
+func policyVerifyValueSuperset(p MetadataPolicyEntry, pathInfo string) error {
+	superV, superset := p[PolicyOperatorSupersetOf]
+	valueV, valueSet := p[PolicyOperatorValue]
+	if !superset || !valueSet {
+		return nil
+	}
+	if !utils.ReflectIsSupersetOf(valueV, superV) {
+		return errors.Errorf(
+			"after combining policies '%s' the '%s' operator values '%v' are not a superset of the '%s' operator '%v'",
+			pathInfo,
+			PolicyOperatorValue,
+			valueV,
+			PolicyOperatorSupersetOf,
+			superV,
+		)
+	}
+	return nil
+}
+
 func policyVerifySubsetOfAndValue(p MetadataPolicyEntry, pathInfo string) error {
 	valueV, valueSet := p[PolicyOperatorValue]
 	subsetV, subsetSet := p[PolicyOperatorSubsetOf]
@@ -247,4 +298,7 @@ func init() {
 	RegisterPolicyVerifier(policyVerifyOneOfStillHasValues)
 	RegisterPolicyVerifier(policyVerifySubsetOfAndValue)
 	RegisterPolicyVerifier(policyVerifyDefaultAndValue)
+	RegisterPolicyVerifier(policyVerifyEssentialAndValue)
+	RegisterPolicyVerifier(policyVerifyValueInOneOf)
+	RegisterPolicyVerifier(policyVerifyValueSuperset)
 }
-- 
2.43.0


From 2d39185a545c97f5ded555c47cce671622c7abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:26 +0000
Subject: [PATCH 14/56] fix: ignore unknown policy operators that are not
 critical

---
 metadataPolicy.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index df57a50..496bae9 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -217,7 +217,8 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 		if !ok {
 			// return nil, errors.Errorf("unknown policy operator '%s'; cannot combine these policies", op)
 			// We already checked that this is not a crit operator, so it is just ignored
-			return nil, nil
+			out[op] = av
+			continue
 		}
 		combined, err := operator.Merge(av, bv, pathInfo)
 		if err != nil {
@@ -236,17 +237,20 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 
 // Verify verifies that the MetadataPolicyEntry is valid
 func (p MetadataPolicyEntry) Verify(pathInfo string) error {
-	activeOperators := utils.MapKeys(p)
+	// unknown operators are ignored
+	activeOperators := slices.Filter(
+		utils.MapKeys(p), func(opN PolicyOperatorName) bool {
+			_, ok := operators[opN]
+			return ok
+		},
+	)
 	for _, opN := range activeOperators {
-		op, ok := operators[opN]
-		if !ok {
-			continue
-		}
+		op := operators[opN]
 		mayCombine := op.MayCombineWith()
 		if mayCombine == nil {
 			continue
 		}
-		notAllowed := slices.Subtract(activeOperators, append(mayCombine, op.Name()))
+		notAllowed := slices.Subtract(activeOperators, append(slices.Copy(mayCombine), op.Name()))
 		if len(notAllowed) > 0 {
 			return errors.Errorf(
 				"policy operator '%s' in '%s' cannot be combined with these operators: %v", opN,
-- 
2.43.0


From bf367266ad16fde0ec20d2d5a554710b927896d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:13 +0000
Subject: [PATCH 15/56] fix: only accept tokens in compact serialization

---
 internal/jwx/jws.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/jwx/jws.go b/internal/jwx/jws.go
index 580bb27..ed5cf27 100644
--- a/internal/jwx/jws.go
+++ b/internal/jwx/jws.go
@@ -40,7 +40,7 @@ func (p *ParsedJWT) UnmarshalMsgpack(data []byte) error {
 
 // Parse parses a jwt and returns a ParsedJWT
 func Parse(data []byte) (*ParsedJWT, error) {
-	m, err := jws.Parse(data)
+	m, err := jws.Parse(data, jws.WithCompact())
 	return &ParsedJWT{
 		RawJWT:  data,
 		Message: m,
-- 
2.43.0


From 77f94535b69ea2c84f195115585ea5a5df1aee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:13 +0000
Subject: [PATCH 16/56] fix: keep issuer, subject and times when parsing a
 resolve response

---
 trustresolver.go | 74 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 20 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 9550c5b..ad4d46f 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -7,6 +7,8 @@ import (
 	"strings"
 	"time"
 
+	"github.com/fatih/structs"
+	"github.com/pkg/errors"
 	"github.com/scylladb/go-set/strset"
 	"github.com/vmihailenco/msgpack/v5"
 	"golang.org/x/crypto/sha3"
@@ -47,34 +49,66 @@ type ResolveResponse struct {
 	ResolveResponsePayload `json:",inline"`
 }
 
+// resolveResponseClaims are the claims of a ResolveResponse besides the ResolveResponsePayload
+type resolveResponseClaims struct {
+	Issuer    string            `json:"iss"`
+	Subject   string            `json:"sub"`
+	IssuedAt  unixtime.Unixtime `json:"iat"`
+	ExpiresAt unixtime.Unixtime `json:"exp"`
+	Audience  string            `json:"aud,omitempty"`
+}
+
 // MarshalJSON implements the json.Marshaler interface.
 // It also marshals extra fields.
 func (r ResolveResponse) MarshalJSON() ([]byte, error) {
-	payload, err := r.ResolveResponsePayload.MarshalJSON()
-	if err != nil {
-		return nil, err
-	}
-	type additionalData struct {
-		Issuer    string            `json:"iss"`
-		Subject   string            `json:"sub"`
-		IssuedAt  unixtime.Unixtime `json:"iat"`
-		ExpiresAt unixtime.Unixtime `json:"exp"`
-		Audience  string            `json:"aud,omitempty"`
-	}
-	additional, err := json.Marshal(
-		additionalData{
-			Issuer:    r.Issuer,
-			Subject:   r.Subject,
-			IssuedAt:  r.IssuedAt,
-			ExpiresAt: r.ExpiresAt,
-			Audience:  r.Audience,
+	type payload ResolveResponsePayload
+	explicitFields, err := json.Marshal(
+		struct {
+			resolveResponseClaims
+			payload
+		}{
+			resolveResponseClaims: resolveResponseClaims{
+				Issuer:    r.Issuer,
+				Subject:   r.Subject,
+				IssuedAt:  r.IssuedAt,
+				ExpiresAt: r.ExpiresAt,
+				Audience:  r.Audience,
+			},
+			payload: payload(r.ResolveResponsePayload),
 		},
 	)
 	if err != nil {
 		return nil, err
 	}
-	additional[0] = ','
-	return extraMarshalHelper(append(payload[:len(payload)-1], additional...), r.Extra)
+	return extraMarshalHelper(explicitFields, r.Extra)
+}
+
+// UnmarshalJSON implements the json.Unmarshaler interface.
+// It also unmarshalls additional fields into the Extra claim.
+func (r *ResolveResponse) UnmarshalJSON(data []byte) error {
+	var claims resolveResponseClaims
+	if err := json.Unmarshal(data, &claims); err != nil {
+		return errors.WithStack(err)
+	}
+	var payload ResolveResponsePayload
+	if err := payload.UnmarshalJSON(data); err != nil {
+		return err
+	}
+	for _, claim := range utils.FieldTagNames(structs.New(claims).Fields(), "json") {
+		delete(payload.Extra, claim)
+	}
+	if len(payload.Extra) == 0 {
+		payload.Extra = nil
+	}
+	*r = ResolveResponse{
+		Issuer:                 claims.Issuer,
+		Subject:                claims.Subject,
+		IssuedAt:               claims.IssuedAt,
+		ExpiresAt:              claims.ExpiresAt,
+		Audience:               claims.Audience,
+		ResolveResponsePayload: payload,
+	}
+	return nil
 }
 
 // ResolveResponsePayload holds the actual payload of a resolve response
-- 
2.43.0


From 4ccdc5f4cf9826c28434820f1c92495e9577e0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 17/56] fix: ignore trust marks issued to another entity than
 the one presenting them

---
 discovery.go         |  5 +++--
 metadata_resolver.go |  3 ++-
 trustmark.go         | 10 ++++++++++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/discovery.go b/discovery.go
index 4554f91..52460b5 100644
--- a/discovery.go
+++ b/discovery.go
@@ -318,7 +318,7 @@ func (d *SimpleEntityCollector) collect(
 							}
 
 							for _, trustMarkType := range req.TrustMarkTypes {
-								trustMarkInfo := entityConfig.TrustMarks.FindByID(trustMarkType)
+								trustMarkInfo := entityConfig.TrustMarks.issuedTo(subordinateID).FindByID(trustMarkType)
 								if trustMarkInfo == nil {
 									includeEntity = false
 									break
@@ -426,7 +426,8 @@ func (d *SimpleEntityCollector) collect(
 										},
 									)
 									if taErr == nil {
-										collectedEntity.TrustMarks = entityConfig.TrustMarks.VerifiedFederation(&ta.EntityStatementPayload)
+										collectedEntity.TrustMarks = entityConfig.TrustMarks.issuedTo(subordinateID).
+											VerifiedFederation(&ta.EntityStatementPayload)
 									}
 								}
 
diff --git a/metadata_resolver.go b/metadata_resolver.go
index 6cac3b0..9ce3d9a 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -76,7 +76,8 @@ func (r LocalMetadataResolver) ResolveResponsePayload(req apimodel.ResolveReques
 	if err != nil {
 		return
 	}
-	res.TrustMarks = chain[0].TrustMarks.VerifiedFederation(&chain[len(chain)-1].EntityStatementPayload)
+	res.TrustMarks = chain[0].TrustMarks.issuedTo(req.Subject).
+		VerifiedFederation(&chain[len(chain)-1].EntityStatementPayload)
 	return
 }
 
diff --git a/trustmark.go b/trustmark.go
index 5714f3d..047702d 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -42,6 +42,16 @@ func (tms TrustMarkInfos) VerifiedExternal(
 	return
 }
 
+// issuedTo returns the TrustMarkInfos whose trust mark is about the passed subject
+func (tms TrustMarkInfos) issuedTo(sub string) (issued TrustMarkInfos) {
+	for _, tm := range tms {
+		if mark, err := tm.TrustMark(); err == nil && mark.Subject == sub {
+			issued = append(issued, tm)
+		}
+	}
+	return
+}
+
 // Find uses the passed function to find the first matching TrustMarkInfo
 func (tms TrustMarkInfos) Find(matcher func(info TrustMarkInfo) bool) *TrustMarkInfo {
 	for _, tm := range tms {
-- 
2.43.0


From 39218da256307e5b12dbc59955debbb38b7dec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 18/56] fix: do not restrict trust mark issuers if the trust
 anchor's list is empty

---
 trustmark.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index 047702d..80ecbda 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -271,7 +271,8 @@ func getTrustMarkIssuerJWKS(
 func (tm *TrustMark) VerifyFederation(ta *EntityStatementPayload) error {
 	if ta.TrustMarkIssuers != nil {
 		if tmis, found := ta.TrustMarkIssuers[tm.TrustMarkType]; found {
-			if !slices.Contains(tmis, tm.Issuer) {
+			// an empty list does not restrict the issuers
+			if len(tmis) > 0 && !slices.Contains(tmis, tm.Issuer) {
 				return errors.New("verify trustmark: trust mark issuer is not allowed by trust anchor")
 			}
 		}
-- 
2.43.0


From 5fd0d33624685a9652f21c5b2d7870d32a256d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 19/56] fix: apply the lifetime passed for a delegation

---
 trustmark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index 80ecbda..60690df 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -574,7 +574,7 @@ func (tmo TrustMarkOwner) DelegationJWT(trustMarkType, sub string, lifetime ...t
 	if len(lifetime) > 0 {
 		lf = lifetime[0]
 	}
-	if spec.DelegationLifetime != 0 {
+	if lf != 0 {
 		delegation.ExpiresAt = &unixtime.Unixtime{Time: now.Add(lf)}
 	}
 	return tmo.TrustMarkDelegationSigner.JWT(delegation)
-- 
2.43.0


From 7cd44901422e41424dcb2fc7930e4b18d57aa3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 20/56] fix: accept a configured trust mark jwt

---
 trustmark_refresher.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index e33741e..f41c2c2 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -4,7 +4,6 @@ import (
 	"net/url"
 	"time"
 
-	"github.com/lestrrat-go/jwx/v3/jwt"
 	"github.com/pkg/errors"
 
 	"github.com/go-oidfed/lib/internal"
@@ -45,18 +44,20 @@ func (c *EntityConfigurationTrustMarkConfig) Verify(
 	}
 
 	if c.JWT != "" {
-		parsed, err := jwt.Parse([]byte(c.JWT))
+		parsed, err := ParseTrustMark([]byte(c.JWT))
 		if err != nil {
 			return err
 		}
-		exp, _ := parsed.Expiration()
-		c.expiration = unixtime.Unixtime{Time: exp}
-		c.TrustMarkIssuer, _ = parsed.Issuer()
-		internal.Logf("Extracted trust mark issuer: %s", c.TrustMarkIssuer)
-		err = parsed.Get("trust_mark_type", &c.TrustMarkType)
-		if err != nil {
-			return errors.Wrap(err, "trustmark id not found in JWT")
+		if parsed.TrustMarkType == "" {
+			return errors.New("trustmark id not found in JWT")
 		}
+		c.expiration = unixtime.Unixtime{}
+		if parsed.ExpiresAt != nil {
+			c.expiration = *parsed.ExpiresAt
+		}
+		c.TrustMarkIssuer = parsed.Issuer
+		internal.Logf("Extracted trust mark issuer: %s", c.TrustMarkIssuer)
+		c.TrustMarkType = parsed.TrustMarkType
 		internal.Logf("Extracted trust mark id: %s\n", c.TrustMarkType)
 		return nil
 	}
-- 
2.43.0


From 42ddcd5ca734e96c972f5683226134053bcb7806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 21/56] fix: keep serving trust marks without expiration

---
 trustmark_refresher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index f41c2c2..9158411 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -85,6 +85,10 @@ func (c *EntityConfigurationTrustMarkConfig) TrustMarkJWT() (string, error) {
 	if !c.Refresh {
 		return c.JWT, nil
 	}
+	if c.JWT != "" && c.expiration.IsZero() {
+		// the trust mark does not expire
+		return c.JWT, nil
+	}
 	if c.JWT != "" && unixtime.Until(c.expiration) > c.MinLifetime.Duration {
 		if unixtime.Until(c.expiration) < c.RefreshGracePeriod.Duration {
 			go c.refresh()
-- 
2.43.0


From 323cc90cc79f68b9442d1ce5dc0dfe92a26a285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 22/56] fix: only refresh a trust mark with a valid trust mark
 of the same type and subject

---
 trustmark_refresher.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index 9158411..fb3c9ba 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -149,6 +149,12 @@ func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 	if err != nil {
 		return err
 	}
+	if tm.TrustMarkType != c.TrustMarkType || tm.Subject != c.sub {
+		return errors.New("trust mark issuer returned a different trust mark than requested")
+	}
+	if err = unixtime.VerifyTime(&tm.IssuedAt, tm.ExpiresAt); err != nil {
+		return err
+	}
 	c.JWT = string(tm.jwtMsg.RawJWT)
 	if tm.ExpiresAt != nil {
 		c.expiration = *tm.ExpiresAt
-- 
2.43.0


From 8f725f5f8b04824348b7c14fad271779ffd3bbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 23/56] fix: synchronize access to a trust mark while it is
 refreshed

---
 trustmark_refresher.go | 64 ++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index fb3c9ba..9bbb38d 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -2,6 +2,7 @@ package oidfed
 
 import (
 	"net/url"
+	"sync"
 	"time"
 
 	"github.com/pkg/errors"
@@ -22,6 +23,7 @@ type EntityConfigurationTrustMarkConfig struct {
 	Refresh              bool                       `yaml:"refresh"`
 	MinLifetime          unixtime.DurationInSeconds `yaml:"min_lifetime"`
 	RefreshGracePeriod   unixtime.DurationInSeconds `yaml:"refresh_grace_period"`
+	mutex                sync.Mutex                 // protects JWT, expiration, and lastTried
 	expiration           unixtime.Unixtime
 	lastTried            unixtime.Unixtime
 	sub                  string
@@ -85,39 +87,64 @@ func (c *EntityConfigurationTrustMarkConfig) TrustMarkJWT() (string, error) {
 	if !c.Refresh {
 		return c.JWT, nil
 	}
-	if c.JWT != "" && c.expiration.IsZero() {
+	trustMark, expiration := c.current()
+	if trustMark != "" && expiration.IsZero() {
 		// the trust mark does not expire
-		return c.JWT, nil
+		return trustMark, nil
 	}
-	if c.JWT != "" && unixtime.Until(c.expiration) > c.MinLifetime.Duration {
-		if unixtime.Until(c.expiration) < c.RefreshGracePeriod.Duration {
+	if trustMark != "" && unixtime.Until(expiration) > c.MinLifetime.Duration {
+		if unixtime.Until(expiration) < c.RefreshGracePeriod.Duration {
 			go c.refresh()
 		}
-		return c.JWT, nil
+		return trustMark, nil
 	}
 	err := c.refresh()
-	return c.JWT, err
+	trustMark, _ = c.current()
+	return trustMark, err
+}
+
+// current returns the current trust mark jwt and its expiration
+func (c *EntityConfigurationTrustMarkConfig) current() (string, unixtime.Unixtime) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	return c.JWT, c.expiration
+}
+
+// update sets a new trust mark jwt and its expiration
+func (c *EntityConfigurationTrustMarkConfig) update(trustMark string, expiration *unixtime.Unixtime) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	c.JWT = trustMark
+	if expiration != nil {
+		c.expiration = *expiration
+	} else {
+		c.expiration = unixtime.Unixtime{}
+	}
+}
+
+// startRefresh checks if a refresh can be tried now, and if so records it
+func (c *EntityConfigurationTrustMarkConfig) startRefresh() bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if time.Since(c.lastTried.Time) < time.Minute {
+		return false
+	}
+	c.lastTried = unixtime.Now()
+	return true
 }
 
 // refresh refreshes the trust mark at the trust mark issuer's trust mark endpoint
 func (c *EntityConfigurationTrustMarkConfig) refresh() error {
-	if time.Since(c.lastTried.Time) < time.Minute {
+	if !c.startRefresh() {
 		// Only try once a minute to obtain a new trust mark
 		return errors.New("only trying to refresh trust mark once a minute")
 	}
-	c.lastTried = unixtime.Now()
 	if c.SelfIssued {
 		tmi, err := c.ownTrustMarkIssuer.IssueTrustMark(c.TrustMarkType, c.sub)
 		if err != nil {
 			return err
 		}
-		c.JWT = tmi.TrustMarkJWT
-		exp := tmi.trustmark.ExpiresAt
-		if exp != nil {
-			c.expiration = *exp
-		} else {
-			c.expiration = unixtime.Unixtime{}
-		}
+		c.update(tmi.TrustMarkJWT, tmi.trustmark.ExpiresAt)
 		return nil
 	}
 
@@ -155,11 +182,6 @@ func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 	if err = unixtime.VerifyTime(&tm.IssuedAt, tm.ExpiresAt); err != nil {
 		return err
 	}
-	c.JWT = string(tm.jwtMsg.RawJWT)
-	if tm.ExpiresAt != nil {
-		c.expiration = *tm.ExpiresAt
-	} else {
-		c.expiration = unixtime.Unixtime{}
-	}
+	c.update(string(tm.jwtMsg.RawJWT), tm.ExpiresAt)
 	return nil
 }
-- 
2.43.0


From 4037daa8d04d18510fbbfe1b42772d739137721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 24/56] fix: do not let unknown claims that differ in case
 change registered claims

---
 entitystatement.go | 28 ++++++++++++++++++++++------
 trustresolver.go   |  2 +-
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/entitystatement.go b/entitystatement.go
index 816bbe3..ee319cd 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -134,16 +134,32 @@ func (e EntityStatementPayload) MarshalJSON() ([]byte, error) {
 }
 
 func unmarshalWithExtra(data []byte, target interface{}) (map[string]interface{}, error) {
-	if err := json.Unmarshal(data, target); err != nil {
+	var claims map[string]json.RawMessage
+	if err := json.Unmarshal(data, &claims); err != nil {
 		return nil, errors.WithStack(err)
 	}
-	extra := make(map[string]interface{})
-	if err := json.Unmarshal(data, &extra); err != nil {
+	// json.Unmarshal ignores the case of names, but claim names are case-sensitive: only pass on the exact names
+	explicit := make(map[string]json.RawMessage)
+	for _, tag := range utils.FieldTagNames(structs.New(target).Fields(), "json") {
+		if claim, ok := claims[tag]; ok {
+			explicit[tag] = claim
+			delete(claims, tag)
+		}
+	}
+	explicitData, err := json.Marshal(explicit)
+	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-	s := structs.New(target)
-	for _, tag := range utils.FieldTagNames(s.Fields(), "json") {
-		delete(extra, tag)
+	if err = json.Unmarshal(explicitData, target); err != nil {
+		return nil, errors.WithStack(err)
+	}
+	extra := make(map[string]interface{})
+	for name, claim := range claims {
+		var value interface{}
+		if err = json.Unmarshal(claim, &value); err != nil {
+			return nil, errors.WithStack(err)
+		}
+		extra[name] = value
 	}
 	if len(extra) == 0 {
 		extra = nil
diff --git a/trustresolver.go b/trustresolver.go
index ad4d46f..5d8925d 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -87,7 +87,7 @@ func (r ResolveResponse) MarshalJSON() ([]byte, error) {
 // It also unmarshalls additional fields into the Extra claim.
 func (r *ResolveResponse) UnmarshalJSON(data []byte) error {
 	var claims resolveResponseClaims
-	if err := json.Unmarshal(data, &claims); err != nil {
+	if _, err := unmarshalWithExtra(data, &claims); err != nil {
 		return errors.WithStack(err)
 	}
 	var payload ResolveResponsePayload
-- 
2.43.0


From 8ec7e4a28b701e935b791bf940f237f6b3130c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 25/56] fix: do not let extra claims override registered claims

---
 entitystatement.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/entitystatement.go b/entitystatement.go
index ee319cd..23c3042 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -97,6 +97,10 @@ func extraMarshalHelper(explicitFields []byte, extra map[string]interface{}) ([]
 		return nil, err
 	}
 	for k, v := range extra {
+		if _, ok := m[k]; ok {
+			// extra claims must not override registered claims
+			continue
+		}
 		e, err := json.Marshal(v)
 		if err != nil {
 			return nil, err
@@ -113,6 +117,10 @@ func yamlExtraMarshalHelper(explicitFields []byte, extra map[string]interface{})
 		return nil, err
 	}
 	for k, v := range extra {
+		if _, ok := m[k]; ok {
+			// extra claims must not override registered claims
+			continue
+		}
 		node := &yaml.Node{}
 		if err := node.Encode(v); err != nil {
 			return nil, errors.WithStack(err)
-- 
2.43.0


From f70059538f5cc3a4c7ef31a3fb6bf853174d8330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 26/56] fix: keep the extra claims of an entity collection
 response

---
 discovery.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/discovery.go b/discovery.go
index 52460b5..3e67913 100644
--- a/discovery.go
+++ b/discovery.go
@@ -36,6 +36,30 @@ type EntityCollectionResponse struct {
 	Extra              map[string]any     `json:"-"`
 }
 
+// MarshalJSON implements the json.Marshaler interface
+func (r EntityCollectionResponse) MarshalJSON() ([]byte, error) {
+	type Alias EntityCollectionResponse
+	explicitFields, err := json.Marshal(Alias(r))
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	return extraMarshalHelper(explicitFields, r.Extra)
+}
+
+// UnmarshalJSON implements the json.Unmarshaler interface
+func (r *EntityCollectionResponse) UnmarshalJSON(data []byte) error {
+	type Alias EntityCollectionResponse
+	rr := Alias(*r)
+
+	extra, err := unmarshalWithExtra(data, &rr)
+	if err != nil {
+		return errors.WithStack(err)
+	}
+	rr.Extra = extra
+	*r = EntityCollectionResponse(rr)
+	return nil
+}
+
 // CollectedEntity is a type describing a single collected entity
 type CollectedEntity struct {
 	EntityID    string         `json:"entity_id"`
-- 
2.43.0


From 712d8c70756e6ada7a8c4b1176288fea3542aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 27/56] fix: do not wrap around timestamps that are out of
 range

---
 unixtime/unixtime.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unixtime/unixtime.go b/unixtime/unixtime.go
index 8011d4a..42e22fc 100644
--- a/unixtime/unixtime.go
+++ b/unixtime/unixtime.go
@@ -9,6 +9,9 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
+// maxTimestamp is the largest timestamp that can be represented as a JSON number without losing seconds
+const maxTimestamp = 1 << 53
+
 // Unixtime is a type for handling unix timestamps
 type Unixtime struct {
 	time.Time
@@ -21,6 +24,9 @@ func (u *Unixtime) UnmarshalJSON(src []byte) error {
 		return err
 	}
 	sec, dec := math.Modf(f)
+	if sec > maxTimestamp || sec < -maxTimestamp {
+		return errors.New("timestamp out of range")
+	}
 	u.Time = time.Unix(int64(sec), int64(dec*(1e9)))
 	return nil
 }
@@ -30,7 +36,7 @@ func (u Unixtime) MarshalJSON() ([]byte, error) {
 	if u.IsZero() {
 		return json.Marshal(0)
 	}
-	return json.Marshal(float64(u.UnixNano()) / 1e9)
+	return json.Marshal(float64(u.Unix()) + float64(u.Nanosecond())/1e9)
 }
 
 // Until returns the time.Duration from now until an Unixtime
-- 
2.43.0


From a58800427bba2931308eec775a9ee0a5d58d4553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 28/56] fix: keep fractions of durations and saturate durations
 that are out of range

---
 unixtime/unixtime.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/unixtime/unixtime.go b/unixtime/unixtime.go
index 42e22fc..23622b4 100644
--- a/unixtime/unixtime.go
+++ b/unixtime/unixtime.go
@@ -12,6 +12,9 @@ import (
 // maxTimestamp is the largest timestamp that can be represented as a JSON number without losing seconds
 const maxTimestamp = 1 << 53
 
+// maxDurationSeconds is the number of whole seconds that fit in a time.Duration
+const maxDurationSeconds = math.MaxInt64 / int64(time.Second)
+
 // Unixtime is a type for handling unix timestamps
 type Unixtime struct {
 	time.Time
@@ -58,7 +61,14 @@ func VerifyTime(iat, exp *Unixtime) error {
 
 // NewDurationInSeconds returns a DurationInSeconds from a number of seconds
 func NewDurationInSeconds(seconds float64) DurationInSeconds {
-	return DurationInSeconds{time.Duration(seconds * float64(time.Second))}
+	sec, dec := math.Modf(seconds)
+	switch {
+	case sec >= float64(maxDurationSeconds):
+		return DurationInSeconds{math.MaxInt64}
+	case sec <= -float64(maxDurationSeconds):
+		return DurationInSeconds{math.MinInt64}
+	}
+	return DurationInSeconds{time.Duration(sec)*time.Second + time.Duration(dec*float64(time.Second))}
 }
 
 // DurationInSeconds is a type for handling time.Duration expressed in seconds
@@ -72,7 +82,7 @@ func (d *DurationInSeconds) UnmarshalJSON(src []byte) error {
 	if err := json.Unmarshal(src, &f); err != nil {
 		return err
 	}
-	*d = DurationInSeconds{time.Duration(f) * time.Second}
+	*d = NewDurationInSeconds(f)
 	return nil
 }
 
@@ -82,7 +92,7 @@ func (d *DurationInSeconds) UnmarshalYAML(value *yaml.Node) error {
 	if err := value.Decode(&f); err != nil {
 		return err
 	}
-	*d = DurationInSeconds{time.Duration(f) * time.Second}
+	*d = NewDurationInSeconds(f)
 	return nil
 }
 
-- 
2.43.0


From ad836dfcd7e60546510647e4b8cca3ba8459ee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 29/56] fix: a JSON null is no value for a slice that may be
 written as a single value

---
 sliceorsinglevalue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sliceorsinglevalue.go b/sliceorsinglevalue.go
index 92501fa..72fab59 100644
--- a/sliceorsinglevalue.go
+++ b/sliceorsinglevalue.go
@@ -12,6 +12,10 @@ type SliceOrSingleValue[T any] []T
 
 // UnmarshalJSON implements the json.Unmarshaler interface
 func (v *SliceOrSingleValue[T]) UnmarshalJSON(data []byte) error {
+	if string(data) == "null" {
+		*v = nil
+		return nil
+	}
 	var t T
 	if json.Unmarshal(data, &t) == nil {
 		*v = []T{t}
-- 
2.43.0


From b7b7ca8cce2bd42d19c1bdd3e4e7a0f06790c34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 30/56] fix: write long durations with their exact number of
 seconds

---
 unixtime/unixtime.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unixtime/unixtime.go b/unixtime/unixtime.go
index 23622b4..321909d 100644
--- a/unixtime/unixtime.go
+++ b/unixtime/unixtime.go
@@ -98,12 +98,12 @@ func (d *DurationInSeconds) UnmarshalYAML(value *yaml.Node) error {
 
 // MarshalJSON implements the json.Marshaler interface.
 func (d DurationInSeconds) MarshalJSON() ([]byte, error) {
-	return json.Marshal(float64(d.Nanoseconds()) / 1e9)
+	return json.Marshal(d.Seconds())
 }
 
 // MarshalYAML implements the yaml.Marshaler interface.
 func (d DurationInSeconds) MarshalYAML() (any, error) {
-	return float64(d.Nanoseconds()) / float64(time.Second), nil
+	return d.Seconds(), nil
 }
 
 func Now() Unixtime {
-- 
2.43.0


From d936c4b7d41984b64aa6aa5e51c13f6d697959bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 31/56] fix: cached entity statements keep which metadata
 parameters are set

---
 entitystatement.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/entitystatement.go b/entitystatement.go
index 23c3042..ebaa97b 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -60,6 +60,15 @@ func (e *EntityStatement) UnmarshalMsgpack(data []byte) error {
 	}
 	e.EntityStatementPayload = ee.Payload
 	e.jwtMsg = &ee.JWTMsg
+	if e.jwtMsg.Message == nil {
+		return nil
+	}
+	// The encoded payload does not tell unset metadata parameters from empty ones, but the jwt does
+	var payload EntityStatementPayload
+	if err := json.Unmarshal(e.jwtMsg.Payload(), &payload); err != nil {
+		return errors.WithStack(err)
+	}
+	e.EntityStatementPayload = payload
 	return nil
 }
 
-- 
2.43.0


From a42718d4e104f872b3bfa4fee7e64cbb658193ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:43 +0000
Subject: [PATCH 32/56] fix: refresh entity statements once the configured
 share of their lifetime elapsed

---
 trustresolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trustresolver.go b/trustresolver.go
index 5d8925d..c55529c 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -593,7 +593,8 @@ func getEntityStatementOrConfiguration(
 		go func() {
 			remainingLifetime := time.Until(stmt.ExpiresAt.Time)
 			totalLifetime := stmt.ExpiresAt.Sub(stmt.IssuedAt.Time)
-			if remainingLifetime <= ResolverCacheGracePeriod && float64(remainingLifetime)/float64(totalLifetime) > ResolverCacheLifetimeElapsedGraceFactor {
+			elapsedLifetime := totalLifetime - remainingLifetime
+			if remainingLifetime <= ResolverCacheGracePeriod && float64(elapsedLifetime)/float64(totalLifetime) >= ResolverCacheLifetimeElapsedGraceFactor {
 				internal.Log("Within grace period, refreshing entity statement")
 				_, err := obtainAndSetEntityStatementOrConfiguration(
 					subID,
-- 
2.43.0


From 14e947f1ac8f3b0c187cc064034fc3328dab74ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 33/56] fix: do not cache values that are already expired

---
 cache/cache.go | 5 +++++
 cache/redis.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index 635d577..7a56997 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -54,6 +54,11 @@ func (c cacheWrapper) Set(key string, value any, expiration time.Duration) error
 	if err != nil {
 		return err
 	}
+	if expiration <= 0 {
+		// already expired; gocache would never expire an entry with a ttl of -1
+		c.c.Delete(key)
+		return nil
+	}
 	c.c.SetWithTTL(key, data, expiration)
 	return nil
 }
diff --git a/cache/redis.go b/cache/redis.go
index db101ad..ae9dec5 100644
--- a/cache/redis.go
+++ b/cache/redis.go
@@ -32,6 +32,10 @@ func (c redisCache) Set(key string, value any, expiration time.Duration) error {
 	if err != nil {
 		return err
 	}
+	if expiration <= 0 {
+		// already expired; redis would never expire an entry with an expiration of 0
+		return c.client.Del(c.ctx, key).Err()
+	}
 	return c.client.Set(c.ctx, key, data, expiration).Err()
 }
 
-- 
2.43.0


From 5870857d6908d9c5c5686976afb72e7d691fb650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:45 +0000
Subject: [PATCH 34/56] fix: sort trust chains by their own scores

---
 trustchainfilter.go | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/trustchainfilter.go b/trustchainfilter.go
index f253fce..1dad83f 100644
--- a/trustchainfilter.go
+++ b/trustchainfilter.go
@@ -20,32 +20,44 @@ func (c TrustChains) Filter(filter ...TrustChainsFilter) TrustChains {
 
 // SortAsc sorts multiple TrustChains ascending by using the passed TrustChainScoringFnc
 func (c TrustChains) SortAsc(scorer TrustChainScoringFnc) TrustChains {
-	scores := make([]int, len(c))
-	for i, tc := range c {
-		scores[i] = scorer(tc)
-	}
-
-	sort.Slice(
-		c, func(i, j int) bool {
-			return scores[i] < scores[j] // skipcq: GO-W4009
-		},
-	)
+	sort.Sort(c.scored(scorer))
 	return c
 }
 
 // SortDesc sorts multiple TrustChains descending by using the passed TrustChainScoringFnc
 func (c TrustChains) SortDesc(scorer TrustChainScoringFnc) TrustChains {
+	sort.Sort(sort.Reverse(c.scored(scorer)))
+	return c
+}
+
+// scoredTrustChains is a sort.Interface for TrustChains and their scores
+type scoredTrustChains struct {
+	chains TrustChains
+	scores []int
+}
+
+func (c TrustChains) scored(scorer TrustChainScoringFnc) scoredTrustChains {
 	scores := make([]int, len(c))
 	for i, tc := range c {
 		scores[i] = scorer(tc)
 	}
+	return scoredTrustChains{chains: c, scores: scores}
+}
 
-	sort.Slice(
-		c, func(i, j int) bool {
-			return scores[i] > scores[j] // skipcq: GO-W4009
-		},
-	)
-	return c
+// Len implements the sort.Interface interface
+func (s scoredTrustChains) Len() int {
+	return len(s.chains)
+}
+
+// Less implements the sort.Interface interface
+func (s scoredTrustChains) Less(i, j int) bool {
+	return s.scores[i] < s.scores[j]
+}
+
+// Swap implements the sort.Interface interface
+func (s scoredTrustChains) Swap(i, j int) {
+	s.chains[i], s.chains[j] = s.chains[j], s.chains[i]
+	s.scores[i], s.scores[j] = s.scores[j], s.scores[i]
 }
 
 // TrustChainScoringFnc a function type that takes a TrustChain and calculates a score for the chain.
-- 
2.43.0


From 1a87e33202df5b2d9339495a5348709e24b5914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:46 +0000
Subject: [PATCH 35/56] fix: a negative maximum path length admits no chain

---
 trustchainfilter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trustchainfilter.go b/trustchainfilter.go
index 1dad83f..65ad241 100644
--- a/trustchainfilter.go
+++ b/trustchainfilter.go
@@ -138,6 +138,7 @@ func TrustChainsFilterTrustAnchor(anchor string) TrustChainsFilter {
 
 type trustChainsFilterPathLength struct {
 	maxPathLen int
+	minimal    bool
 }
 
 // Filter implements the TrustChainsFilter interface
@@ -145,7 +146,7 @@ func (f trustChainsFilterPathLength) Filter(chains TrustChains) (final TrustChai
 	if len(chains) == 0 {
 		return nil
 	}
-	if f.maxPathLen < 0 {
+	if f.minimal {
 		minimum := chains[0].PathLen()
 		for i := 1; i < len(chains); i++ {
 			if l := chains[i].PathLen(); l < minimum {
@@ -164,7 +165,7 @@ func (f trustChainsFilterPathLength) Filter(chains TrustChains) (final TrustChai
 
 // TrustChainsFilterMinPathLength is a TrustChainsFilter that filters TrustChains to the chains with the minimal path
 // length
-var TrustChainsFilterMinPathLength TrustChainsFilter = trustChainsFilterPathLength{maxPathLen: -1}
+var TrustChainsFilterMinPathLength TrustChainsFilter = trustChainsFilterPathLength{minimal: true}
 
 // TrustChainsFilterValidMetadata returns a TrustChainsFilter that filters the TrustChains to the ones with valid
 // Metadata
-- 
2.43.0


From e2f63caf15c596b7b593b2ff24f07a8528634bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:46 +0000
Subject: [PATCH 36/56] fix: do not change the passed request values and
 parameters

---
 authcode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/authcode.go b/authcode.go
index 85eb3db..228a836 100644
--- a/authcode.go
+++ b/authcode.go
@@ -4,6 +4,7 @@ import (
 	"crypto"
 	"encoding/json"
 	"io"
+	"maps"
 	"net/http"
 	"net/url"
 	"time"
@@ -74,6 +75,7 @@ func (rop RequestObjectProducer) RequestObject(requestValues map[string]any) ([]
 	if _, audFound := requestValues["aud"]; !audFound {
 		return nil, errors.New("request must contain 'aud' claim with OPs issuer identifier url")
 	}
+	requestValues = maps.Clone(requestValues)
 	requestValues["iss"] = rop.EntityID
 	requestValues["client_id"] = rop.EntityID
 	delete(requestValues, "sub")
@@ -170,7 +172,7 @@ func (f FederationLeaf) CodeExchange(
 	if err != nil {
 		return nil, nil, err
 	}
-	params := additionalParameter
+	params := maps.Clone(additionalParameter)
 	if params == nil {
 		params = url.Values{}
 	}
-- 
2.43.0


From 66b8d4d0e2860a62f2fae0a6ad8119ff6badcb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:47 +0000
Subject: [PATCH 37/56] fix: request objects always have a jti

---
 authcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authcode.go b/authcode.go
index 228a836..a68458e 100644
--- a/authcode.go
+++ b/authcode.go
@@ -80,7 +80,7 @@ func (rop RequestObjectProducer) RequestObject(requestValues map[string]any) ([]
 	requestValues["client_id"] = rop.EntityID
 	delete(requestValues, "sub")
 	delete(requestValues, "client_secret")
-	if _, jtiFound := requestValues["jti"]; !jtiFound {
+	if jti, _ := requestValues["jti"].(string); jti == "" {
 		jti, err := uuid.NewRandom()
 		if err != nil {
 			return nil, errors.Wrap(err, "could not create jti")
-- 
2.43.0


From acd5c0e1607fa03dfb5b0950cfea3dfc30d9090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:48 +0000
Subject: [PATCH 38/56] fix: keep the query of the authorization endpoint

---
 authcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authcode.go b/authcode.go
index a68458e..1aab0dd 100644
--- a/authcode.go
+++ b/authcode.go
@@ -153,7 +153,7 @@ func (f FederationLeaf) GetAuthorizationURL(
 	if err != nil {
 		return "", errors.WithStack(err)
 	}
-	q := url.Values{}
+	q := u.Query()
 	q.Set("request", string(requestObject))
 	q.Set("client_id", f.EntityID)
 	q.Set("response_type", "code")
-- 
2.43.0


From 6583f262176f5b538da759a9d036a55cd6a4fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:49 +0000
Subject: [PATCH 39/56] fix: no nil dereference if an entity is no openid
 provider

---
 federation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/federation.go b/federation.go
index bddd1d7..73b27b0 100644
--- a/federation.go
+++ b/federation.go
@@ -146,5 +146,8 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	if err != nil {
 		return nil, errors.Wrap(err, "no trust chain with valid metadata found")
 	}
+	if metadata == nil || metadata.OpenIDProvider == nil {
+		return nil, errors.New("entity has no openid_provider metadata")
+	}
 	return metadata.OpenIDProvider, nil
 }
-- 
2.43.0


From 6d111e1948fbb034b262f9d461ac6e772b24a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:50 +0000
Subject: [PATCH 40/56] fix: long entity configuration lifetimes do not
 overflow

---
 federation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/federation.go b/federation.go
index 73b27b0..d3256ce 100644
--- a/federation.go
+++ b/federation.go
@@ -97,7 +97,7 @@ func (f FederationEntity) EntityConfigurationPayload() *EntityStatementPayload {
 		Issuer:           f.EntityID,
 		Subject:          f.EntityID,
 		IssuedAt:         unixtime.Unixtime{Time: now},
-		ExpiresAt:        unixtime.Unixtime{Time: now.Add(time.Second * time.Duration(f.ConfigurationLifetime))},
+		ExpiresAt:        unixtime.Unixtime{Time: time.Unix(now.Unix()+f.ConfigurationLifetime, int64(now.Nanosecond()))},
 		JWKS:             f.jwks,
 		AuthorityHints:   f.AuthorityHints,
 		Metadata:         f.Metadata,
-- 
2.43.0


From 4d9eca95fc5e16905f2b8afcda1024f965b9a2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 41/56] fix: the visited entities of a collection are its own
 and protected

---
 discovery.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/discovery.go b/discovery.go
index 3e67913..8459ab2 100644
--- a/discovery.go
+++ b/discovery.go
@@ -189,6 +189,7 @@ type EntityCollector interface {
 // federation
 type SimpleEntityCollector struct {
 	visitedEntities *strset.Set
+	visitedMutex    sync.Mutex // protects visitedEntities
 }
 
 // SimpleOPCollector is an EntityCollector that uses the
@@ -241,11 +242,23 @@ type FilterableVerifiedChainsEntityCollector struct {
 }
 
 // CollectEntities implements the EntityCollector interface
-func (d *SimpleEntityCollector) CollectEntities(req apimodel.EntityCollectionRequest) (entities []*CollectedEntity) {
-	d.visitedEntities = strset.New()
+func (*SimpleEntityCollector) CollectEntities(req apimodel.EntityCollectionRequest) (entities []*CollectedEntity) {
+	// every collection has its own visited entities
+	d := &SimpleEntityCollector{visitedEntities: strset.New()}
 	return d.collect(req, NewTrustAnchorsFromEntityIDs(req.TrustAnchor)...)
 }
 
+// visit marks an entity as visited; it returns false if the entity was already visited
+func (d *SimpleEntityCollector) visit(entityID string) bool {
+	d.visitedMutex.Lock()
+	defer d.visitedMutex.Unlock()
+	if d.visitedEntities.Has(entityID) {
+		return false
+	}
+	d.visitedEntities.Add(entityID)
+	return true
+}
+
 const maxCollectWorkers = 128
 
 func (d *SimpleEntityCollector) collect(
@@ -293,11 +306,10 @@ func (d *SimpleEntityCollector) collect(
 	for _, authority := range authorities {
 		run(
 			func() {
-				if d.visitedEntities.Has(authority.EntityID) {
+				if !d.visit(authority.EntityID) {
 					internal.Logf("Already visited: %s -> skipping", authority.EntityID)
 					return
 				}
-				d.visitedEntities.Add(authority.EntityID)
 
 				stmt, err := GetEntityConfiguration(authority.EntityID)
 				if err != nil {
-- 
2.43.0


From 75a67fcbe1e6a9bb5abc56566be1d7433f7e0835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 42/56] fix: non-2xx responses are errors

---
 internal/http/http.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/http/http.go b/internal/http/http.go
index 8d3c404..d7b7853 100644
--- a/internal/http/http.go
+++ b/internal/http/http.go
@@ -42,14 +42,26 @@ func Do() *resty.Client {
 	return client
 }
 
+// errorResponse returns the HttpError for a response, or nil if the response is no error response
+func errorResponse(resp *resty.Response) *HttpError {
+	errRes, ok := resp.Error().(*HttpError)
+	if !ok || errRes == nil {
+		errRes = &HttpError{}
+	}
+	if errRes.Error == "" && !resp.IsError() {
+		return nil
+	}
+	errRes.Status = resp.StatusCode()
+	return errRes
+}
+
 // Get performs a http GET request and parses the response into the given interface{}
 func Get(url string, params url.Values, res interface{}) (*resty.Response, *HttpError, error) {
 	resp, err := client.R().SetQueryParamsFromValues(params).SetError(&HttpError{}).SetResult(res).Get(url)
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
-	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != "" {
-		errRes.Status = resp.RawResponse.StatusCode
+	if errRes := errorResponse(resp); errRes != nil {
 		return nil, errRes, nil
 	}
 	return resp, nil, nil
@@ -61,8 +73,7 @@ func Post(url string, req interface{}, res interface{}) (*resty.Response, *HttpE
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
-	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != "" {
-		errRes.Status = resp.RawResponse.StatusCode
+	if errRes := errorResponse(resp); errRes != nil {
 		return nil, errRes, nil
 	}
 	return resp, nil, nil
-- 
2.43.0


From c6c4aa95eea1c0183b639ac3558b844ae3f8a423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 43/56] fix: a listing that cannot be parsed is an error

---
 discovery.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discovery.go b/discovery.go
index 8459ab2..7d5c808 100644
--- a/discovery.go
+++ b/discovery.go
@@ -615,18 +615,18 @@ func fetchList(listEndpoint string) ([]string, error) {
 }
 
 func httpFetchList(listEndpoint string) ([]string, error) {
-	resp, errRes, err := http.Get(listEndpoint, nil, &[]string{})
+	resp, errRes, err := http.Get(listEndpoint, nil, nil)
 	if err != nil {
 		return nil, err
 	}
 	if errRes != nil {
 		return nil, errRes.Err()
 	}
-	entities, ok := resp.Result().(*[]string)
-	if !ok || entities == nil {
-		return nil, errors.New("unexpected response type")
+	var entities []string
+	if err = json.Unmarshal(resp.Body(), &entities); err != nil {
+		return nil, errors.WithStack(err)
 	}
-	return *entities, nil
+	return entities, nil
 }
 
 func getMetadataForCollectedEntity(e *CollectedEntity, trustAnchors []string) *Metadata {
-- 
2.43.0


From d9235406a65a02734030d91ee2ef3a7a24ac6afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 44/56] fix: trust mark filter considers all trust marks of a
 type

---
 discovery.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/discovery.go b/discovery.go
index 7d5c808..ea419f1 100644
--- a/discovery.go
+++ b/discovery.go
@@ -354,17 +354,17 @@ func (d *SimpleEntityCollector) collect(
 							}
 
 							for _, trustMarkType := range req.TrustMarkTypes {
-								trustMarkInfo := entityConfig.TrustMarks.issuedTo(subordinateID).FindByID(trustMarkType)
-								if trustMarkInfo == nil {
-									includeEntity = false
-									break
-								}
 								taOnce.Do(
 									func() {
 										ta, taErr = GetEntityConfiguration(req.TrustAnchor)
 									},
 								)
-								if taErr != nil || trustMarkInfo.VerifyFederation(&ta.EntityStatementPayload) != nil {
+								// it might have several trust marks of the same type
+								if taErr != nil || !slices.ContainsFunc(
+									entityConfig.TrustMarks.issuedTo(subordinateID), func(tm TrustMarkInfo) bool {
+										return tm.TrustMarkType == trustMarkType && tm.VerifyFederation(&ta.EntityStatementPayload) == nil
+									},
+								) {
 									includeEntity = false
 									break
 								}
-- 
2.43.0


From 76726e37a0821ff88673eea8875a0fe75f13e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:50 +0000
Subject: [PATCH 45/56] fix: set the ui info fields of collected entities

---
 discovery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discovery.go b/discovery.go
index ea419f1..5049f18 100644
--- a/discovery.go
+++ b/discovery.go
@@ -100,7 +100,7 @@ func (e *CollectedEntity) setUIInfoField(
 		structField := uiInfoType.Field(i)
 		tag := structField.Tag.Get("json")
 		tagName := tag
-		if commaIdx := len(tag); commaIdx != -1 {
+		if commaIdx := strings.Index(tag, ","); commaIdx != -1 {
 			tagName = tag[:commaIdx]
 		}
 
-- 
2.43.0


From 60240e9b2aceddcb70f795f7d30d36c7d585c579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:50 +0000
Subject: [PATCH 46/56] fix: iterate over string slice claims

---
 metadata.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metadata.go b/metadata.go
index 5051572..75acbea 100644
--- a/metadata.go
+++ b/metadata.go
@@ -145,9 +145,8 @@ func (m Metadata) IterateStringSliceClaim(tag string, iterator func(entityType s
 				jsonTag := subStructField.Tag.Get("json")
 				jsonTag = strings.TrimSuffix(jsonTag, ",omitempty")
 
-				if jsonTag == tag && subField.Kind() == reflect.String {
-					slice := subField.Interface().([]string)
-					if slice != nil {
+				if jsonTag == tag {
+					if slice, ok := subField.Interface().([]string); ok && slice != nil {
 						iterator(entityTag, slice)
 					}
 					break
-- 
2.43.0


From a3457575442cf307ec207fc8cea84165249b72fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 47/56] fix: a failing resolve endpoint does not confirm that
 an entity is invalid

---
 metadata_resolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metadata_resolver.go b/metadata_resolver.go
index 9ce3d9a..8323301 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -168,8 +168,9 @@ func (r SimpleRemoteMetadataResolver) ResolveResponsePayload(req apimodel.Resolv
 func (r SimpleRemoteMetadataResolver) ResolvePossible(req apimodel.ResolveRequest) (bool, bool) {
 	_, resStatus, err := r.ResolveResponse(req)
 	if err != nil {
+		// nothing is known about the entity, neither is confirmed
 		internal.Log(err.Error())
-		return false, true
+		return false, false
 	}
 	switch resStatus {
 	case resolveStatusValid, resolveStatusOnlyValidTrustChain:
-- 
2.43.0


From 90bf81e7ee73c11cb6005303fd9efa96fa87b986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 48/56] fix: a resolve response without metadata is no positive
 response

---
 metadata_resolver.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metadata_resolver.go b/metadata_resolver.go
index 8323301..c94f577 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -133,9 +133,14 @@ func (r SimpleRemoteMetadataResolver) ResolveResponse(req apimodel.ResolveReques
 		}
 		return nil, resolveStatus, nil
 	}
-	resolveStatus = resolveStatusValid
 	rres, err := ParseResolveResponse(res.Body())
-	return rres, resolveStatus, err
+	if err != nil {
+		return nil, resolveStatus, err
+	}
+	if rres.Metadata == nil {
+		return nil, resolveStatus, errors.New("resolve response does not contain metadata")
+	}
+	return rres, resolveStatusValid, nil
 }
 
 // Resolve implements the MetadataResolver interface
-- 
2.43.0


From f72c1fdd9d2b15e5faf761a02125f6691b813029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 49/56] fix: send the name query to the entity collection
 endpoint

---
 apimodel/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apimodel/collection.go b/apimodel/collection.go
index 40614c6..73b6d93 100644
--- a/apimodel/collection.go
+++ b/apimodel/collection.go
@@ -7,6 +7,6 @@ type EntityCollectionRequest struct {
 	TrustMarkTypes []string `json:"trust_mark_type" form:"trust_mark_type" query:"trust_mark_type" url:"trust_mark_type"`
 	TrustAnchor    string   `json:"trust_anchor" form:"trust_anchor" query:"trust_anchor" url:"trust_anchor"`
 	EntityTypes    []string `json:"entity_type" form:"entity_type" query:"entity_type" url:"entity_type"`
-	NameQuery      string   `json:"name_query" form:"name_query" query:"name_query"`
+	NameQuery      string   `json:"name_query" form:"name_query" query:"name_query" url:"name_query"`
 	Claims         []string `json:"claims" form:"claims" query:"claims" url:"claims"`
 }
-- 
2.43.0


From 52390cfc716dab37cbd1617eaf0922630d056601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 50/56] fix: give the metadata of entity types known to the
 library to the caller

---
 metadata.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metadata.go b/metadata.go
index 75acbea..02c1110 100644
--- a/metadata.go
+++ b/metadata.go
@@ -417,20 +417,20 @@ func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
 			continue
 		}
 		j = strings.TrimSuffix(j, ",omitempty")
-		if j != entityType {
+		if j != entityType || j == "-" {
 			continue
 		}
-		if j == entityType {
-			fmt.Printf("found entity type %s\n", entityType)
-		}
 
 		value := v.Elem().FieldByName(t.Field(i).Name)
 		if value.IsZero() {
 			continue
 		}
 
-		metadata = value.Interface()
-		return nil
+		jsonMetadata, err := json.Marshal(value.Interface())
+		if err != nil {
+			return errors.Errorf("failed to marshal metadata: %s", err)
+		}
+		return json.Unmarshal(jsonMetadata, metadata)
 	}
 
 	// Requested entity type was not a struct field, so find it in the extra metadata.
-- 
2.43.0


From d4b346339ab6b29deebfd2cab441906656a97fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:53 +0000
Subject: [PATCH 51/56] fix: guard the entries of the internal cache

---
 cache/cache.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 7a56997..6f8265e 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -3,6 +3,7 @@ package cache
 import (
 	"encoding/base64"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/TwiN/gocache/v2"
@@ -22,6 +23,8 @@ type Cache interface {
 // internal cache
 type cacheWrapper struct {
 	c *gocache.Cache
+	// gocache reads the value of an entry after releasing its own lock
+	mutex *sync.RWMutex
 }
 
 func newCacheWrapper(defaultExpiration time.Duration) cacheWrapper {
@@ -30,13 +33,16 @@ func newCacheWrapper(defaultExpiration time.Duration) cacheWrapper {
 		log.Fatal(err) // skipcq: RVV-A0003
 	}
 	return cacheWrapper{
-		c,
+		c:     c,
+		mutex: &sync.RWMutex{},
 	}
 }
 
 // Get implements the Cache interface
 func (c cacheWrapper) Get(key string, target any) (bool, error) {
+	c.mutex.RLock()
 	entryV, ok := c.c.Get(key)
+	c.mutex.RUnlock()
 	if !ok {
 		return false, nil
 	}
@@ -54,6 +60,8 @@ func (c cacheWrapper) Set(key string, value any, expiration time.Duration) error
 	if err != nil {
 		return err
 	}
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	if expiration <= 0 {
 		// already expired; gocache would never expire an entry with a ttl of -1
 		c.c.Delete(key)
-- 
2.43.0


From 5e9cb396a79181e0ecc2c1e0cb865f573250d098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 52/56] fix: do not write to shared trust mark infos when
 parsing them

---
 trustmark.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/trustmark.go b/trustmark.go
index 60690df..9b82fb1 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -118,14 +118,8 @@ func (tm *TrustMarkInfo) UnmarshalJSON(data []byte) error {
 
 // TrustMark returns the TrustMark for this TrustMarkInfo
 func (tm *TrustMarkInfo) TrustMark() (*TrustMark, error) {
-	if tm.trustmark == nil || tm.trustmark.jwtMsg == nil {
-		t, err := ParseTrustMark([]byte(tm.TrustMarkJWT))
-		if err != nil {
-			return nil, err
-		}
-		tm.trustmark = t
-	}
-	return tm.trustmark, nil
+	// tm might be shared, so the parsed trust mark is not kept
+	return ParseTrustMark([]byte(tm.TrustMarkJWT))
 }
 
 // VerifyFederation verifies the TrustMarkInfo by using the passed trust anchor
-- 
2.43.0


From f55463952e4600c5f5cbd30c043ab8cb51655583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 53/56] fix: check the issuer of a delegation against the trust
 mark owner

---
 trustmark.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trustmark.go b/trustmark.go
index 9b82fb1..88e2a68 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -362,6 +362,9 @@ func (djwt DelegationJWT) VerifyFederation(ta *EntityStatementPayload) error {
 	if !ok {
 		return errors.New("verify delegation jwt: unknown trust mark owner")
 	}
+	if djwt.Issuer != owner.ID {
+		return errors.New("verify delegation jwt: not issued by trust mark owner")
+	}
 	_, err := djwt.jwtMsg.VerifyWithSet(owner.JWKS)
 	return errors.Wrap(err, "verify delegation jwt")
 }
-- 
2.43.0


From 8f6b49e175e8889c06d19a3fe41fa78311ee53fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 54/56] fix: do not write to shared trust marks when parsing
 their delegation

---
 trustmark.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/trustmark.go b/trustmark.go
index 88e2a68..91fc135 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -162,7 +162,6 @@ type TrustMark struct {
 	DelegationJWT string                 `json:"delegation,omitempty"`
 	Extra         map[string]interface{} `json:"-"`
 	jwtMsg        *jwx.ParsedJWT
-	delegation    *DelegationJWT
 }
 
 // MarshalJSON implements the json.Marshaler interface.
@@ -209,14 +208,11 @@ func parseDelegationJWT(delegationJWT []byte) (*DelegationJWT, error) {
 
 // Delegation returns the DelegationJWT (if any) for this TrustMark
 func (tm *TrustMark) Delegation() (*DelegationJWT, error) {
-	var err error
-	if tm.delegation == nil {
-		if tm.DelegationJWT == "" {
-			return nil, nil
-		}
-		tm.delegation, err = parseDelegationJWT([]byte(tm.DelegationJWT))
+	if tm.DelegationJWT == "" {
+		return nil, nil
 	}
-	return tm.delegation, err
+	// tm might be shared, so the parsed delegation is not kept
+	return parseDelegationJWT([]byte(tm.DelegationJWT))
 }
 
 func getTrustMarkIssuerJWKS(
-- 
2.43.0


From c3763aeb9ff3113aac15da6207ff723a05e3728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 55/56] fix: trust mark specs can be written as YAML

---
 entitystatement.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/entitystatement.go b/entitystatement.go
index ebaa97b..9de8491 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -121,7 +121,7 @@ func extraMarshalHelper(explicitFields []byte, extra map[string]interface{}) ([]
 }
 
 func yamlExtraMarshalHelper(explicitFields []byte, extra map[string]interface{}) (any, error) {
-	var m map[string]*yaml.Node
+	var m map[string]yaml.Node
 	if err := yaml.Unmarshal(explicitFields, &m); err != nil {
 		return nil, err
 	}
@@ -130,7 +130,7 @@ func yamlExtraMarshalHelper(explicitFields []byte, extra map[string]interface{})
 			// extra claims must not override registered claims
 			continue
 		}
-		node := &yaml.Node{}
+		var node yaml.Node
 		if err := node.Encode(v); err != nil {
 			return nil, errors.WithStack(err)
 		}
-- 
2.43.0


From b66ffff1158bad19dd7bb4d74280662088f0357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:45 +0000
Subject: [PATCH 56/56] fix: issued trust marks do not share the extra claims
 of the specification

---
 trustmark.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trustmark.go b/trustmark.go
index 91fc135..9cb222a 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -2,6 +2,7 @@ package oidfed
 
 import (
 	"encoding/json"
+	"maps"
 	"slices"
 	"time"
 
@@ -487,7 +488,7 @@ func (tmi TrustMarkIssuer) IssueTrustMark(trustMarkType, sub string, lifetime ..
 		LogoURI:       spec.LogoURI,
 		Ref:           spec.Ref,
 		DelegationJWT: spec.DelegationJWT,
-		Extra:         spec.Extra,
+		Extra:         maps.Clone(spec.Extra),
 	}
 	lf := spec.Lifetime.Duration
 	if len(lifetime) > 0 {
@@ -502,7 +503,7 @@ func (tmi TrustMarkIssuer) IssueTrustMark(trustMarkType, sub string, lifetime ..
 	}
 	var extra map[string]any
 	if spec.IncludeExtraClaimsInInfo {
-		extra = spec.Extra
+		extra = maps.Clone(spec.Extra)
 	}
 	return &TrustMarkInfo{
 		TrustMarkType: spec.TrustMarkType,
-- 
2.43.0

