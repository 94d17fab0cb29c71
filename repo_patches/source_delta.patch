From 2672a748d3a06201b76ce9572286909ea9f7466c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:36 +0000
Subject: [PATCH 01/22] fix: reject numbers in a type list instead of panicking

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 9e93cd7..fbeb71a 100644
--- a/schema.go
+++ b/schema.go
@@ -259,7 +259,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 			if isKind(m[KEY_TYPE], reflect.Slice) {
 				arrayOfTypes := m[KEY_TYPE].([]interface{})
 				for _, typeInArray := range arrayOfTypes {
-					if reflect.ValueOf(typeInArray).Kind() != reflect.String {
+					if !isKind(typeInArray, reflect.String) {
 						return errors.New(formatErrorDescription(
 							Locale.InvalidType(),
 							ErrorDetails{
-- 
2.43.0


From 05164aa34bf16fafd31ec9c4248b7e96c315400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:36 +0000
Subject: [PATCH 02/22] fix: reject boolean definitions instead of panicking

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index fbeb71a..5d61a91 100644
--- a/schema.go
+++ b/schema.go
@@ -152,7 +152,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 
 	// definitions
 	if existsMapKey(m, KEY_DEFINITIONS) {
-		if isKind(m[KEY_DEFINITIONS], reflect.Map, reflect.Bool) {
+		if isKind(m[KEY_DEFINITIONS], reflect.Map) {
 			for _, dv := range m[KEY_DEFINITIONS].(map[string]interface{}) {
 				if isKind(dv, reflect.Map, reflect.Bool) {
 
-- 
2.43.0


From bbd47ca1adf6353f5e17d7ef77a46b3cbc6a8b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:37 +0000
Subject: [PATCH 03/22] fix: do not dereference numbers whose exponent is out
 of range

big.Rat refuses exponents beyond a million. isKind and validateNumber
dereferenced the resulting nil, and exclusiveMinimum/exclusiveMaximum were
silently dropped.
---
 schema.go     | 16 ++++++++--------
 utils.go      |  2 +-
 validation.go | 19 ++++++++++++++++++-
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/schema.go b/schema.go
index 5d61a91..58ec3a9 100644
--- a/schema.go
+++ b/schema.go
@@ -508,8 +508,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 					currentSchema.exclusiveMinimum = currentSchema.minimum
 					currentSchema.minimum = nil
 				}
-			} else if isJSONNumber(m[KEY_EXCLUSIVE_MINIMUM]) {
-				currentSchema.exclusiveMinimum = mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM])
+			} else if number := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); number != nil {
+				currentSchema.exclusiveMinimum = number
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -520,8 +520,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 				))
 			}
 		default:
-			if isJSONNumber(m[KEY_EXCLUSIVE_MINIMUM]) {
-				currentSchema.exclusiveMinimum = mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM])
+			if number := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); number != nil {
+				currentSchema.exclusiveMinimum = number
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -579,8 +579,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 					currentSchema.exclusiveMaximum = currentSchema.maximum
 					currentSchema.maximum = nil
 				}
-			} else if isJSONNumber(m[KEY_EXCLUSIVE_MAXIMUM]) {
-				currentSchema.exclusiveMaximum = mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM])
+			} else if number := mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM]); number != nil {
+				currentSchema.exclusiveMaximum = number
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -591,8 +591,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 				))
 			}
 		default:
-			if isJSONNumber(m[KEY_EXCLUSIVE_MAXIMUM]) {
-				currentSchema.exclusiveMaximum = mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM])
+			if number := mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM]); number != nil {
+				currentSchema.exclusiveMaximum = number
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
diff --git a/utils.go b/utils.go
index a17d22e..9fd05d7 100644
--- a/utils.go
+++ b/utils.go
@@ -35,7 +35,7 @@ func isKind(what interface{}, kinds ...reflect.Kind) bool {
 	target := what
 	if isJSONNumber(what) {
 		// JSON Numbers are strings!
-		target = *mustBeNumber(what)
+		target = big.Rat{}
 	}
 	targetKind := reflect.ValueOf(target).Kind()
 	for _, kind := range kinds {
diff --git a/validation.go b/validation.go
index 9081bd9..0429519 100644
--- a/validation.go
+++ b/validation.go
@@ -27,6 +27,7 @@ package gojsonschema
 
 import (
 	"encoding/json"
+	"errors"
 	"math/big"
 	"reflect"
 	"regexp"
@@ -774,7 +775,23 @@ func (v *subSchema) validateNumber(currentSubSchema *subSchema, value interface{
 	}
 
 	number := value.(json.Number)
-	float64Value, _ := new(big.Rat).SetString(string(number))
+	float64Value, isValidNumber := new(big.Rat).SetString(string(number))
+
+	// numbers with an excessively large exponent cannot be compared
+	if !isValidNumber {
+		if currentSubSchema.multipleOf != nil ||
+			currentSubSchema.maximum != nil || currentSubSchema.exclusiveMaximum != nil ||
+			currentSubSchema.minimum != nil || currentSubSchema.exclusiveMinimum != nil {
+			result.addInternalError(
+				new(InternalError),
+				context,
+				number,
+				ErrorDetails{"error": errors.New("number out of range")},
+			)
+		}
+		result.incrementScore()
+		return
+	}
 
 	// multipleOf:
 	if currentSubSchema.multipleOf != nil {
-- 
2.43.0


From eb96ec5f94388bf891de77d6d35ff66804efced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:37 +0000
Subject: [PATCH 04/22] fix: compare the exact value of numbers in const, enum
 and uniqueItems

Numbers were compared after a round trip through float64, so different
large numbers counted as equal, 0 and -0 as different, and numbers beyond
the range of float64 made validation panic.
---
 utils.go | 85 ++++++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 79 insertions(+), 6 deletions(-)

diff --git a/utils.go b/utils.go
index 9fd05d7..0e28bb3 100644
--- a/utils.go
+++ b/utils.go
@@ -29,6 +29,7 @@ import (
 	"encoding/json"
 	"math/big"
 	"reflect"
+	"strings"
 )
 
 func isKind(what interface{}, kinds ...reflect.Kind) bool {
@@ -85,22 +86,94 @@ func marshalWithoutNumber(value interface{}) (*string, error) {
 
 	// The JSON is decoded using https://golang.org/pkg/encoding/json/#Decoder.UseNumber
 	// This means the numbers are internally still represented as strings and therefore 1.00 is unequal to 1
-	// One way to eliminate these differences is to decode and encode the JSON one more time without Decoder.UseNumber
-	// so that these differences in representation are removed
+	// To eliminate these differences every number is replaced by a canonical representation of its exact value
 
 	jsonString, err := marshalToJSONString(value)
 	if err != nil {
 		return nil, err
 	}
 
-	var document interface{}
-
-	err = json.Unmarshal([]byte(*jsonString), &document)
+	document, err := decodeJSONUsingNumber(strings.NewReader(*jsonString))
 	if err != nil {
 		return nil, err
 	}
 
-	return marshalToJSONString(document)
+	return marshalToJSONString(normalizeNumbers(document))
+}
+
+// normalizeNumbers replaces all numbers in a decoded JSON document by their canonical representation
+func normalizeNumbers(value interface{}) interface{} {
+	switch v := value.(type) {
+	case json.Number:
+		return normalizeNumber(v)
+	case []interface{}:
+		for i := range v {
+			v[i] = normalizeNumbers(v[i])
+		}
+	case map[string]interface{}:
+		for k := range v {
+			v[k] = normalizeNumbers(v[k])
+		}
+	}
+	return value
+}
+
+// normalizeNumber returns the canonical representation of a JSON number, without any loss of precision.
+// Like for a float64, very large and very small numbers use the exponent notation.
+func normalizeNumber(number json.Number) json.Number {
+	s := string(number)
+
+	sign := ""
+	if strings.HasPrefix(s, "-") {
+		sign, s = "-", s[1:]
+	}
+
+	exponent := new(big.Int)
+	if i := strings.IndexAny(s, "eE"); i >= 0 {
+		if _, ok := exponent.SetString(strings.TrimPrefix(s[i+1:], "+"), 10); !ok {
+			return number
+		}
+		s = s[:i]
+	}
+
+	// the number is 0.digits * 10^exponent
+	digits := s
+	if i := strings.IndexByte(s, '.'); i >= 0 {
+		digits = s[:i] + s[i+1:]
+		exponent.Add(exponent, big.NewInt(int64(i)))
+	} else {
+		exponent.Add(exponent, big.NewInt(int64(len(s))))
+	}
+	significant := strings.TrimLeft(digits, "0")
+	exponent.Sub(exponent, big.NewInt(int64(len(digits)-len(significant))))
+	digits = strings.TrimRight(significant, "0")
+
+	if digits == "" {
+		return json.Number("0")
+	}
+
+	if exponent.IsInt64() && exponent.Int64() > -6 && exponent.Int64() <= 21 {
+		point := int(exponent.Int64())
+		switch {
+		case point <= 0:
+			return json.Number(sign + "0." + strings.Repeat("0", -point) + digits)
+		case point >= len(digits):
+			return json.Number(sign + digits + strings.Repeat("0", point-len(digits)))
+		default:
+			return json.Number(sign + digits[:point] + "." + digits[point:])
+		}
+	}
+
+	mantissa := digits[:1]
+	if len(digits) > 1 {
+		mantissa += "." + digits[1:]
+	}
+	exponent.Sub(exponent, big.NewInt(1))
+	exponentSign := ""
+	if exponent.Sign() > 0 {
+		exponentSign = "+"
+	}
+	return json.Number(sign + mantissa + "e" + exponentSign + exponent.String())
 }
 
 func isJSONNumber(what interface{}) bool {
-- 
2.43.0


From 94940fe6524741219084a2741733d905cce44d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:37 +0000
Subject: [PATCH 05/22] fix: do not panic on values that cannot be marshalled

---
 validation.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/validation.go b/validation.go
index 0429519..314d3c6 100644
--- a/validation.go
+++ b/validation.go
@@ -411,8 +411,7 @@ func (v *subSchema) validateCommon(currentSubSchema *subSchema, value interface{
 		vString, err := marshalWithoutNumber(value)
 		if err != nil {
 			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
-		}
-		if *vString != *currentSubSchema._const {
+		} else if *vString != *currentSubSchema._const {
 			result.addInternalError(new(ConstError),
 				context,
 				value,
@@ -428,8 +427,7 @@ func (v *subSchema) validateCommon(currentSubSchema *subSchema, value interface{
 		vString, err := marshalWithoutNumber(value)
 		if err != nil {
 			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
-		}
-		if !isStringInSlice(currentSubSchema.enum, *vString) {
+		} else if !isStringInSlice(currentSubSchema.enum, *vString) {
 			result.addInternalError(
 				new(EnumError),
 				context,
@@ -533,7 +531,8 @@ func (v *subSchema) validateArray(currentSubSchema *subSchema, value []interface
 		for j, v := range value {
 			vString, err := marshalWithoutNumber(v)
 			if err != nil {
-				result.addInternalError(new(InternalError), context, value, ErrorDetails{"err": err})
+				result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
+				continue
 			}
 			if i, ok := stringifiedItems[*vString]; ok {
 				result.addInternalError(
-- 
2.43.0


From dc1e96b8de9f91f5cb464d58413d042f9c7f6944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:38 +0000
Subject: [PATCH 06/22] fix: accept integers written with a fraction or
 exponent as keyword values

2.0 and 1e2 are integers, but minLength and the like rejected them.
---
 utils.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/utils.go b/utils.go
index 0e28bb3..52a9552 100644
--- a/utils.go
+++ b/utils.go
@@ -207,18 +207,10 @@ func mustBeInteger(what interface{}) *int {
 
 	if isJSONNumber(what) {
 
-		number := what.(json.Number)
-
-		isInt := checkJSONInteger(number)
-
-		if isInt {
-
-			int64Value, err := number.Int64()
-			if err != nil {
-				return nil
-			}
+		number := mustBeNumber(what)
 
-			int32Value := int(int64Value)
+		if number != nil && number.IsInt() && number.Num().IsInt64() {
+			int32Value := int(number.Num().Int64())
 			return &int32Value
 		}
 
-- 
2.43.0


From 1355d0c3d1dfe39cc98dc331cdbff02b4d93a963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:38 +0000
Subject: [PATCH 07/22] fix: ignore the keywords next to every $ref

They were only ignored for the first of several references to the same schema.
---
 schema.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/schema.go b/schema.go
index 58ec3a9..c1f2f65 100644
--- a/schema.go
+++ b/schema.go
@@ -235,15 +235,10 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 
 		if sch, ok := d.referencePool.Get(currentSchema.ref.String()); ok {
 			currentSchema.refSchema = sch
-		} else {
-			err := d.parseReference(documentNode, currentSchema)
-
-			if err != nil {
-				return err
-			}
-
 			return nil
 		}
+
+		return d.parseReference(documentNode, currentSchema)
 	}
 
 	// type
-- 
2.43.0


From 9bdaa31230158d1fdd289f066134b3bda403becb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:39 +0000
Subject: [PATCH 08/22] fix: do not treat the definitions object as a schema

References inside definitions named like a keyword were not resolved.
---
 schemaPool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index 35b1cc6..12e69f8 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -122,7 +122,7 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 			}
 			// Something like a property or a dependency is not a valid schema, as it might describe properties named "$ref", "$id" or "const", etc
 			// Therefore don't treat it like a schema.
-			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES {
+			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES || k == KEY_DEFINITIONS {
 				if child, ok := v.(map[string]interface{}); ok {
 					for _, v := range child {
 						p.parseReferencesRecursive(v, *localRef, draft)
-- 
2.43.0


From 757fabde2636f10730cd2a3681472e924e823e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:39 +0000
Subject: [PATCH 09/22] fix: leave the schema loader unchanged by meta-schema
 validation

An unavailable meta-schema switched validation off for good, and the
references of a schema from a custom file system were looked up in the
local one after its meta-schema had been loaded.
---
 schemaLoader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schemaLoader.go b/schemaLoader.go
index 20db0c1..b2411ce 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -68,15 +68,17 @@ func (sl *SchemaLoader) validateMetaschema(documentNode interface{}) error {
 
 	//Disable validation when loading the metaschema to prevent an infinite recursive loop
 	sl.Validate = false
+	loaderFactory := sl.pool.jsonLoaderFactory
 
 	metaSchema, err := sl.Compile(NewReferenceLoader(schema))
 
+	sl.Validate = true
+	sl.pool.jsonLoaderFactory = loaderFactory
+
 	if err != nil {
 		return err
 	}
 
-	sl.Validate = true
-
 	result := metaSchema.validateDocument(documentNode)
 
 	if !result.Valid() {
-- 
2.43.0


From 5b6915b5d1c6b272ff75297202908b2ce35414cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:39 +0000
Subject: [PATCH 10/22] fix: ignore $schema of loaded documents when
 auto-detection is off

---
 schemaPool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index 12e69f8..8b6c1cc 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -202,7 +202,9 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	// add the whole document to the pool for potential re-use
 	p.parseReferences(document, refToURL, true)
 
-	_, draft, _ = parseSchemaURL(document)
+	if *p.autoDetect {
+		_, draft, _ = parseSchemaURL(document)
+	}
 
 	// resolve the potential fragment and also cache it
 	document, _, err = reference.GetPointer().Get(document)
-- 
2.43.0


From 5028efcf6d851a8dc26dfc31be728991beee6acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:40 +0000
Subject: [PATCH 11/22] fix: keep plus signs in file references

---
 jsonLoader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonLoader.go b/jsonLoader.go
index 5d88af2..7a1d9cd 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -146,7 +146,7 @@ func (l *jsonReferenceLoader) LoadJSON() (interface{}, error) {
 	if reference.HasFileScheme {
 
 		filename := strings.TrimPrefix(refToURL.String(), "file://")
-		filename, err = url.QueryUnescape(filename)
+		filename, err = url.PathUnescape(filename)
 
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 53e2b17d819182f5584bfbb8af1524a0a20cdfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:40 +0000
Subject: [PATCH 12/22] fix: close the body of HTTP responses

---
 jsonLoader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonLoader.go b/jsonLoader.go
index 7a1d9cd..81175fc 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -189,6 +189,7 @@ func (l *jsonReferenceLoader) loadFromHTTP(address string) (interface{}, error)
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// must return HTTP Status 200 OK
 	if resp.StatusCode != http.StatusOK {
-- 
2.43.0


From 09a57f1a5ece0405645440d9b2b657da0b73527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:41 +0000
Subject: [PATCH 13/22] fix: do not accept IPv4-mapped IPv6 addresses as ipv4

---
 format_checkers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format_checkers.go b/format_checkers.go
index 1e77046..b34fedc 100644
--- a/format_checkers.go
+++ b/format_checkers.go
@@ -207,7 +207,7 @@ func (f IPV4FormatChecker) IsFormat(input interface{}) bool {
 
 	// Credit: https://github.com/asaskevich/govalidator
 	ip := net.ParseIP(asString)
-	return ip != nil && strings.Contains(asString, ".")
+	return ip != nil && !strings.Contains(asString, ":")
 }
 
 // IsFormat checks if input is a correctly formatted IPv6=address
-- 
2.43.0


From cd16e21100d5bd9e6caee93ca0997fadf619699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:41 +0000
Subject: [PATCH 14/22] fix: reject times with a one digit hour or a comma
 before the fraction

---
 format_checkers.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/format_checkers.go b/format_checkers.go
index b34fedc..a88ba88 100644
--- a/format_checkers.go
+++ b/format_checkers.go
@@ -137,6 +137,9 @@ var (
 
 	rxUUID = regexp.MustCompile("^(?i)[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}$")
 
+	// time.Parse also accepts hours of one digit and a comma before the fraction of a second
+	rxTime = regexp.MustCompile(`^(?:.*T)?[0-9]{2}:[0-9]{2}:[0-9]{2}(?:\.[0-9]+)?(?:Z|[+-].*)?$`)
+
 	rxJSONPointer = regexp.MustCompile("^(?:/(?:[^~/]|~0|~1)*)*$")
 
 	rxRelJSONPointer = regexp.MustCompile("^(?:0|[1-9][0-9]*)(?:#|(?:/(?:[^~/]|~0|~1)*)*)$")
@@ -229,6 +232,10 @@ func (f DateTimeFormatChecker) IsFormat(input interface{}) bool {
 		return true
 	}
 
+	if strings.Contains(asString, ":") && !rxTime.MatchString(asString) {
+		return false
+	}
+
 	formats := []string{
 		"15:04:05",
 		"15:04:05Z07:00",
@@ -263,6 +270,10 @@ func (f TimeFormatChecker) IsFormat(input interface{}) bool {
 		return true
 	}
 
+	if !rxTime.MatchString(asString) {
+		return false
+	}
+
 	if _, err := time.Parse("15:04:05Z07:00", asString); err == nil {
 		return true
 	}
-- 
2.43.0


From 212708d8391fbfd043d65d8d7a294b25138c2018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:41 +0000
Subject: [PATCH 15/22] fix: allow added errors without details or context

---
 jsonContext.go | 4 ++++
 result.go      | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/jsonContext.go b/jsonContext.go
index 0e97970..518e3ad 100644
--- a/jsonContext.go
+++ b/jsonContext.go
@@ -41,6 +41,10 @@ func NewJsonContext(head string, tail *JsonContext) *JsonContext {
 // This plays well with the data structure's persistent nature with
 // Cons and a json document's tree structure.
 func (c *JsonContext) String(del ...string) string {
+	if c == nil {
+		return ""
+	}
+
 	byteArr := make([]byte, 0, c.stringLen())
 	buf := bytes.NewBuffer(byteArr)
 	c.writeStringToBuffer(buf, del)
diff --git a/result.go b/result.go
index 0a01791..56c310d 100644
--- a/result.go
+++ b/result.go
@@ -194,6 +194,9 @@ func (v *Result) Errors() []ResultError {
 // AddError appends a fully filled error to the error set
 // SetDescription() will be called with the result of the parsed err.DescriptionFormat()
 func (v *Result) AddError(err ResultError, details ErrorDetails) {
+	if details == nil {
+		details = ErrorDetails{}
+	}
 	if _, exists := details["context"]; !exists && err.Context() != nil {
 		details["context"] = err.Context().String()
 	}
-- 
2.43.0


From de1ccc9842dd8d8b577e4546c3627cb40c1966ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:42 +0000
Subject: [PATCH 16/22] fix: use the draft of the document when compiling a
 part of it

---
 schemaLoader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/schemaLoader.go b/schemaLoader.go
index b2411ce..1115c3f 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -161,6 +161,7 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 	d.referencePool = newSchemaReferencePool()
 
 	var doc interface{}
+	var documentDraft *Draft
 	if ref.String() != "" {
 		// Get document from schema pool
 		spd, err := d.pool.GetDocument(d.documentReference)
@@ -168,6 +169,7 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 			return nil, err
 		}
 		doc = spd.Document
+		documentDraft = spd.Draft
 	} else {
 		// Load JSON directly
 		doc, err = rootSchema.LoadJSON()
@@ -194,7 +196,10 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 		if err != nil {
 			return nil, err
 		}
-		if detectedDraft != nil {
+		if documentDraft != nil {
+			// the schema may be a part of a document which specifies the draft
+			draft = *documentDraft
+		} else if detectedDraft != nil {
 			draft = *detectedDraft
 		}
 	}
-- 
2.43.0


From ccdb5c5b5a0b85c1f9d1a15daa03ead0a108e65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:42 +0000
Subject: [PATCH 17/22] fix: resolve plain name fragments only to the schema
 they identify

A reference to an identifier that does not exist, or that is in a document
which was not loaded yet, resolved to the root of the document.
---
 schemaPool.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/schemaPool.go b/schemaPool.go
index 8b6c1cc..0994d86 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -168,6 +168,10 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	refToURL.GetUrl().Fragment = ""
 
 	if cachedSpd, ok := p.schemaPoolDocuments[refToURL.String()]; ok {
+		if isPlainName(reference) {
+			return nil, unknownIdentifierError(reference)
+		}
+
 		document, _, err := reference.GetPointer().Get(cachedSpd.Document)
 
 		if err != nil {
@@ -206,6 +210,13 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 		_, draft, _ = parseSchemaURL(document)
 	}
 
+	if isPlainName(reference) {
+		if spd, ok = p.schemaPoolDocuments[reference.String()]; ok {
+			return spd, nil
+		}
+		return nil, unknownIdentifierError(reference)
+	}
+
 	// resolve the potential fragment and also cache it
 	document, _, err = reference.GetPointer().Get(document)
 
@@ -215,3 +226,13 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 
 	return &schemaPoolDocument{Document: document, Draft: draft}, nil
 }
+
+// isPlainName checks whether the fragment of a reference is an identifier instead of a JSON pointer
+func isPlainName(reference gojsonreference.JsonReference) bool {
+	fragment := reference.GetUrl().Fragment
+	return fragment != "" && fragment[0] != '/'
+}
+
+func unknownIdentifierError(reference gojsonreference.JsonReference) error {
+	return fmt.Errorf("No schema with identifier: \"%s\"", reference.String())
+}
-- 
2.43.0


From ad62bb76123f641f7bc9369d9127872b0a567d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:06 +0000
Subject: [PATCH 18/22] fix: do not rewrite the references inside the value
 given to NewRawLoader

---
 jsonLoader.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/jsonLoader.go b/jsonLoader.go
index 81175fc..1a8dd4b 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -361,7 +361,8 @@ func (l *jsonRawLoader) JsonSource() interface{} {
 	return l.source
 }
 func (l *jsonRawLoader) LoadJSON() (interface{}, error) {
-	return l.source, nil
+	// the references of a schema get rewritten in place, which should not be visible in the source
+	return copyJSON(l.source), nil
 }
 func (l *jsonRawLoader) JsonReference() (gojsonreference.JsonReference, error) {
 	return gojsonreference.NewJsonReference("#")
@@ -370,6 +371,31 @@ func (l *jsonRawLoader) LoaderFactory() JSONLoaderFactory {
 	return &DefaultJSONLoaderFactory{}
 }
 
+// copyJSON creates a deep copy of the objects and arrays of a JSON document
+func copyJSON(document interface{}) interface{} {
+	switch d := document.(type) {
+	case map[string]interface{}:
+		if d == nil {
+			return d
+		}
+		m := make(map[string]interface{}, len(d))
+		for k, v := range d {
+			m[k] = copyJSON(v)
+		}
+		return m
+	case []interface{}:
+		if d == nil {
+			return d
+		}
+		a := make([]interface{}, len(d))
+		for i, v := range d {
+			a[i] = copyJSON(v)
+		}
+		return a
+	}
+	return document
+}
+
 func decodeJSONUsingNumber(r io.Reader) (interface{}, error) {
 
 	var document interface{}
-- 
2.43.0


From 17872c0bd6597b50b856d55e8056197ec11e2bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:41 +0000
Subject: [PATCH 19/22] fix: accept expressions anywhere in a uri-template and
 reject unbalanced curly brackets anywhere

---
 format_checkers.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/format_checkers.go b/format_checkers.go
index a88ba88..5e974da 100644
--- a/format_checkers.go
+++ b/format_checkers.go
@@ -132,8 +132,9 @@ var (
 	// Regex credit: https://www.socketloop.com/tutorials/golang-validate-hostname
 	rxHostname = regexp.MustCompile(`^([a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9\-]{0,61}[a-zA-Z0-9])(\.([a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9\-]{0,61}[a-zA-Z0-9]))*$`)
 
-	// Use a regex to make sure curly brackets are balanced properly after validating it as a AURI
-	rxURITemplate = regexp.MustCompile("^([^{]*({[^}]*})?)*$")
+	// Literals (RFC6570 2.1) and expressions, which may appear anywhere and use characters that have a meaning in an URI.
+	// The curly brackets must be balanced properly.
+	rxURITemplate = regexp.MustCompile(`^(?:[^{}%\\[:cntrl:]]|%[[:xdigit:]]{2}|{[^{}\\[:cntrl:]]*})*$`)
 
 	rxUUID = regexp.MustCompile("^(?i)[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}$")
 
@@ -316,12 +317,7 @@ func (f URITemplateFormatChecker) IsFormat(input interface{}) bool {
 		return true
 	}
 
-	u, err := url.Parse(asString)
-	if err != nil || strings.Contains(asString, `\`) {
-		return false
-	}
-
-	return rxURITemplate.MatchString(u.Path)
+	return rxURITemplate.MatchString(asString)
 }
 
 // IsFormat checks if input is a correctly formatted hostname
-- 
2.43.0


From 669dc3e1e697fa989ef6bf6db65f278faa3be1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:45 +0000
Subject: [PATCH 20/22] fix: reject time offsets out of range in the time and
 date-time formats

---
 format_checkers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format_checkers.go b/format_checkers.go
index 5e974da..b441a3b 100644
--- a/format_checkers.go
+++ b/format_checkers.go
@@ -138,8 +138,8 @@ var (
 
 	rxUUID = regexp.MustCompile("^(?i)[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}$")
 
-	// time.Parse also accepts hours of one digit and a comma before the fraction of a second
-	rxTime = regexp.MustCompile(`^(?:.*T)?[0-9]{2}:[0-9]{2}:[0-9]{2}(?:\.[0-9]+)?(?:Z|[+-].*)?$`)
+	// time.Parse also accepts hours of one digit, a comma before the fraction of a second and offsets like +24:00
+	rxTime = regexp.MustCompile(`^(?:.*T)?[0-9]{2}:[0-9]{2}:[0-9]{2}(?:\.[0-9]+)?(?:Z|[+-](?:[01][0-9]|2[0-3]):[0-5][0-9])?$`)
 
 	rxJSONPointer = regexp.MustCompile("^(?:/(?:[^~/]|~0|~1)*)*$")
 
-- 
2.43.0


From 02f3839a730e7d8db2b8497c8e9c6e1e6283971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:25 +0000
Subject: [PATCH 21/22] fix: the draft of a referenced document without $schema
 depended on map iteration order when schemas of several drafts refer to it

---
 schema.go              |  4 ++--
 schemaReferencePool.go | 22 +++++++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/schema.go b/schema.go
index c1f2f65..1f192a4 100644
--- a/schema.go
+++ b/schema.go
@@ -233,7 +233,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 
 		currentSchema.ref = &jsonReference
 
-		if sch, ok := d.referencePool.Get(currentSchema.ref.String()); ok {
+		if sch, ok := d.referencePool.Get(currentSchema.ref.String(), *currentSchema.draft); ok {
 			currentSchema.refSchema = sch
 			return nil
 		}
@@ -969,7 +969,7 @@ func (d *Schema) parseReference(documentNode interface{}, currentSchema *subSche
 
 	newSchema := &subSchema{property: KEY_REF, parent: currentSchema, ref: currentSchema.ref}
 
-	d.referencePool.Add(currentSchema.ref.String(), newSchema)
+	d.referencePool.Add(currentSchema.ref.String(), *currentSchema.draft, newSchema)
 
 	dsp, err = d.pool.GetDocument(*currentSchema.ref)
 	if err != nil {
diff --git a/schemaReferencePool.go b/schemaReferencePool.go
index 6e5e1b5..c4abf54 100644
--- a/schemaReferencePool.go
+++ b/schemaReferencePool.go
@@ -29,25 +29,32 @@ import (
 	"fmt"
 )
 
+// A document that does not name its draft takes the draft of the schema that refers to it,
+// so that the same reference may designate differently parsed schemas
+type schemaReferenceKey struct {
+	ref   string
+	draft Draft
+}
+
 type schemaReferencePool struct {
-	documents map[string]*subSchema
+	documents map[schemaReferenceKey]*subSchema
 }
 
 func newSchemaReferencePool() *schemaReferencePool {
 
 	p := &schemaReferencePool{}
-	p.documents = make(map[string]*subSchema)
+	p.documents = make(map[schemaReferenceKey]*subSchema)
 
 	return p
 }
 
-func (p *schemaReferencePool) Get(ref string) (r *subSchema, o bool) {
+func (p *schemaReferencePool) Get(ref string, draft Draft) (r *subSchema, o bool) {
 
 	if internalLogEnabled {
 		internalLog(fmt.Sprintf("Schema Reference ( %s )", ref))
 	}
 
-	if sch, ok := p.documents[ref]; ok {
+	if sch, ok := p.documents[schemaReferenceKey{ref, draft}]; ok {
 		if internalLogEnabled {
 			internalLog(fmt.Sprintf(" From pool"))
 		}
@@ -57,12 +64,13 @@ func (p *schemaReferencePool) Get(ref string) (r *subSchema, o bool) {
 	return nil, false
 }
 
-func (p *schemaReferencePool) Add(ref string, sch *subSchema) {
+func (p *schemaReferencePool) Add(ref string, draft Draft, sch *subSchema) {
 
 	if internalLogEnabled {
 		internalLog(fmt.Sprintf("Add Schema Reference %s to pool", ref))
 	}
-	if _, ok := p.documents[ref]; !ok {
-		p.documents[ref] = sch
+	key := schemaReferenceKey{ref, draft}
+	if _, ok := p.documents[key]; !ok {
+		p.documents[key] = sch
 	}
 }
-- 
2.43.0


From c4d270347f90e5a82e00931d973ace6d2b01ba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:16 +0000
Subject: [PATCH 22/22] fix: report an ill-formed $schema of a document loaded
 by reference

The error was dropped, so a remote document with a non-string or unparsable
$schema was used as if it had none, with its references unresolved.
---
 schemaPool.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schemaPool.go b/schemaPool.go
index 0994d86..1ccc428 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -206,8 +206,11 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	// add the whole document to the pool for potential re-use
 	p.parseReferences(document, refToURL, true)
 
-	if *p.autoDetect {
-		_, draft, _ = parseSchemaURL(document)
+	if m, isObject := document.(map[string]interface{}); isObject && *p.autoDetect {
+		_, draft, err = parseSchemaURL(m)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	if isPlainName(reference) {
-- 
2.43.0

