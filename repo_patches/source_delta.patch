From 45d61768dbc798ea7faca0fb82c143959f938eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:03 +0000
Subject: [PATCH 01/42] fix: include CONSUME and PRODUCE in the read and write
 operations

The specification lists CONSUME as a read and PRODUCE as a write method.
Rules with operation read or write did not match these methods.
---
 MAPL_engine/string_utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 2387fce..c57ff26 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -118,9 +118,9 @@ func ConvertOperationStringToRegex(str_in string) string {
 	case "*":
 		str_out = ".*"
 	case "write", "WRITE":
-		str_out = "(^POST$|^PUT$|^DELETE$)" // we cannot translate to ".*" because then rules of type "write:block" would apply to all messages.
+		str_out = "(^POST$|^PUT$|^DELETE$|^PRODUCE$)" // we cannot translate to ".*" because then rules of type "write:block" would apply to all messages.
 	case "read", "READ":
-		str_out = "(^GET$|^HEAD$|^OPTIONS$|^TRACE$|^read$|^READ$)"
+		str_out = "(^GET$|^HEAD$|^OPTIONS$|^TRACE$|^CONSUME$|^read$|^READ$)"
 	default:
 		str_out = ConvertStringToRegex(str_in, "WithWildcards") // we allow automatic use of wildcards in Operation attribute
 	}
-- 
2.43.0


From 037790a669526ba98725425d188d08452efdb1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:03 +0000
Subject: [PATCH 02/42] fix: compare subnet IP addresses by value

An IPv6 address written in another form than in the rule did not match.
---
 MAPL_engine/check.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index e0f5817..1fa592a 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -189,6 +189,7 @@ func TestSender(rule *Rule, message *MessageAttributes) bool {
 		case "subnet":
 			if expandedSender.IsIP {
 				match_temp = (expandedSender.Name == message.SourceIp)
+				match_temp = match_temp || expandedSender.IP.Equal(message.SourceNetIp) // the same address may be written in several forms
 			}
 			if expandedSender.IsCIDR {
 				match_temp = expandedSender.CIDR.Contains(message.SourceNetIp)
@@ -221,6 +222,7 @@ func TestReceiver(rule *Rule, message *MessageAttributes) bool {
 		case "subnet":
 			if expandedReceiver.IsIP {
 				match_temp = (expandedReceiver.Name == message.DestinationIp)
+				match_temp = match_temp || expandedReceiver.IP.Equal(message.DestinationNetIp) // the same address may be written in several forms
 			}
 			if expandedReceiver.IsCIDR {
 				match_temp = expandedReceiver.CIDR.Contains(message.DestinationNetIp)
-- 
2.43.0


From 50bef7ec9e59cd41959a8b735f0a16766c00136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:04 +0000
Subject: [PATCH 03/42] fix: do not crash on rules that cannot be prepared

A rule with an undefined reference or an invalid subnet has no prepared
rule. Checking it dereferenced a nil pointer. Such a rule does not apply,
and translating it to a Mongo query returns the error.
---
 MAPL_engine/check.go             | 6 ++++++
 MAPL_engine/rule_mongo_plugin.go | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 1fa592a..76341dc 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -103,6 +103,9 @@ func CheckOneRule(message *MessageAttributes, ruleOriginal *Rule) (int, []map[st
 	if !ruleOriginal.ruleAlreadyPrepared {
 		ruleOriginal.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
 	}
+	if !ruleOriginal.ruleAlreadyPrepared { // the rule can't be prepared so it can't apply
+		return DEFAULT, []map[string]interface{}{}
+	}
 	rule := ruleOriginal.preparedRule // the prepared rule is the one used below!
 	// ----------------------
 	// compare basic message attributes:
@@ -253,6 +256,9 @@ func TestConditions(rule *Rule, message *MessageAttributes) (bool, []map[string]
 		rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists)
 	}
 
+	if !rule.ruleAlreadyPrepared { // the rule can't be prepared
+		return false, []map[string]interface{}{}
+	}
 	if rule.preparedRule.Conditions.ConditionsTree != nil {
 		return rule.preparedRule.Conditions.ConditionsTree.Eval(message)
 	}
diff --git a/MAPL_engine/rule_mongo_plugin.go b/MAPL_engine/rule_mongo_plugin.go
index a11265d..43abe2e 100644
--- a/MAPL_engine/rule_mongo_plugin.go
+++ b/MAPL_engine/rule_mongo_plugin.go
@@ -17,7 +17,10 @@ type MaplToMongoResult struct {
 func (rule *Rule) ToMongoQuery(parentField string) (MaplToMongoResult, error) {
 
 	if !rule.ruleAlreadyPrepared {
-		rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		err := rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		if err != nil {
+			return MaplToMongoResult{"", nil}, err
+		}
 	}
 
 	if rule.preparedRule.Conditions.ConditionsTree == nil {
-- 
2.43.0


From 4d4999972a95dccfda7010fb2d959ab4a660120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:04 +0000
Subject: [PATCH 04/42] fix: handle messages without encryption version

A condition on encryptionVersion crashed when the message has none.
---
 MAPL_engine/check.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 76341dc..0006609 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -311,6 +311,9 @@ func testOneCondition(c *Condition, message *MessageAttributes) (bool, []map[str
 		}
 
 	case ("encryptionVersion"):
+		if message.EncryptionVersion == nil {
+			return false, []map[string]interface{}{}
+		}
 		valueToCompareFloat = *message.EncryptionVersion
 		result = compareFloatFunc(valueToCompareFloat, c.Method, c.ValueFloat)
 
-- 
2.43.0


From 6086d8ebb03d97ea12b3f454bda1f2df4dbf5663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:05 +0000
Subject: [PATCH 05/42] fix: compare payload size with fractions and units, and
 survive non-numbers

The value 1.5 or 1Ki passes validation but has no integer form, so
checking dereferenced a nil pointer. The same happened for EQ and NEQ
with a value that is not a number.
---
 MAPL_engine/check.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 0006609..748847b 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -288,7 +288,11 @@ func testOneCondition(c *Condition, message *MessageAttributes) (bool, []map[str
 
 	case ("payloadSize"):
 		valueToCompareInt = message.RequestSize
-		result = compareIntFunc(valueToCompareInt, c.Method, c.ValueInt)
+		if c.ValueInt != nil {
+			result = compareIntFunc(valueToCompareInt, c.Method, c.ValueInt)
+		} else { // fractions and values with units
+			result = compareFloatFunc(float64(valueToCompareInt), c.Method, c.ValueFloat)
+		}
 
 	case ("requestUseragent"):
 		valueToCompareString = message.RequestUseragent
@@ -819,6 +823,9 @@ func compareIntFunc(value1 int64, method string, value2 *int64) bool { //value2
 
 // compareFloatFunc compares one float value according the method string.
 func compareFloatFunc(value1 float64, method string, value2 *float64) bool { //value2 is the reference value from the rule
+	if value2 == nil { // the value in the rule is not a number
+		return false
+	}
 	switch method {
 	case "EQ", "eq":
 		return (value1 == *value2)
-- 
2.43.0


From 81beaa40aaacc37c820bfce6d63c3cd88d017aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:06 +0000
Subject: [PATCH 06/42] fix: compare document numbers with non-numeric rule
 values as strings

With a raw JSON document EQ and NEQ of a number against a text value
dereferenced a nil pointer.
---
 MAPL_engine/check.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 748847b..24aec38 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -580,6 +580,9 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 		valueStringWithoutUnits, factor := convertStringWithUnits(valueToCompareString) // if the conversion to float doesn't work we still want to use the original string so we use a temporary one
 		valueToCompareFloat, err := strconv.ParseFloat(valueStringWithoutUnits, 64)
 		valueToCompareFloat = valueToCompareFloat * factor
+		if err == nil && c.ValueFloat == nil {
+			err = errors.New("the value in the rule is not a number") // compare as strings
+		}
 
 		if err != nil {
 			if method == "EQ" || method == "NEQ" {
-- 
2.43.0


From 47c5a452f930f87df6f035e0ccd8d83f7535ad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:06 +0000
Subject: [PATCH 07/42] fix: treat NE like NEQ in document conditions

NE on values that are not numbers was always false.
---
 MAPL_engine/check.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 24aec38..bdc2dea 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -575,6 +575,9 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 	}
 
 	method := strings.ToUpper(c.Method)
+	if method == "NE" { // NE is the same as NEQ
+		method = "NEQ"
+	}
 	switch method {
 	case "GE", "GT", "LE", "LT", "EQ", "NEQ", "NE":
 		valueStringWithoutUnits, factor := convertStringWithUnits(valueToCompareString) // if the conversion to float doesn't work we still want to use the original string so we use a temporary one
@@ -670,6 +673,9 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 
 	result := false
 	method := strings.ToUpper(c.Method)
+	if method == "NE" { // NE is the same as NEQ
+		method = "NEQ"
+	}
 	switch method {
 	case "GE", "GT", "LE", "LT", "EQ", "NEQ", "NE":
 		flagCompareToNumber := false
-- 
2.43.0


From 644dfdef66d5549d40dc7816666054e831bdeb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:50 +0000
Subject: [PATCH 08/42] fix: compare document strings by their decoded text

With raw JSON bytes the escapes of a string stayed in place and null was
compared as the text null. In both document forms quotes and brackets that
belong to the text were stripped, and a text ending with a quote never
matched.
---
 MAPL_engine/check.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index bdc2dea..fb8fe3d 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -553,14 +553,23 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
 
-	valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
+	var decodedString *string
+	isString := json.Unmarshal(valueToCompareBytes, &decodedString) == nil // a json string (or null). the text is compared as is
+	if isString {
+		valueToCompareString = ""
+		if decodedString != nil {
+			valueToCompareString = *decodedString
+		}
+	} else {
+		valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
+	}
 	if len(valueToCompareString) == 0 {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
 
 	result := false
 	L := len(valueToCompareString) - 1
-	if L > 0 {
+	if L > 0 && !isString {
 		if valueToCompareString[0] == '"' && valueToCompareString[L] != '"' {
 			log.Println("quotation marks not aligned")
 			return false
@@ -655,17 +664,18 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 		valueToCompareString = fmt.Sprintf("%v", valueToCompareInterface)
 	}
 
-	if len(valueToCompareString) == 0 || valueToCompareString == "<nil>" {
+	if len(valueToCompareString) == 0 || valueToCompareInterface == nil {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
 
-	valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
-	if len(valueToCompareString) == 0 {
-		return whatToReturnInCaseOfEmptyResult(*c)
-	}
+	if _, isString := valueToCompareInterface.(string); !isString { // the text of a string is compared as is
+		valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
+		if len(valueToCompareString) == 0 {
+			return whatToReturnInCaseOfEmptyResult(*c)
+		}
 
-	valueToCompareString, ok := removeQuotesFromResult(valueToCompareString)
-	{
+		var ok bool
+		valueToCompareString, ok = removeQuotesFromResult(valueToCompareString)
 		if !ok {
 			return false
 		}
@@ -780,7 +790,10 @@ func getKeyValue(jsonRaw []byte, attribute string) ([]byte, error) {
 		return []byte{}, err
 	}
 	if attribute == "$KEY" {
-		valueToCompareBytes = []byte(keys[0])
+		valueToCompareBytes, err = json.Marshal(keys[0])
+		if err != nil {
+			return []byte{}, err
+		}
 	} else {
 		z2, err := json.Marshal(z[keys[0]])
 		if err != nil {
-- 
2.43.0


From a2bdffd45e1e74725220b4393bba58bd4431a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:50 +0000
Subject: [PATCH 09/42] fix: do not format decoded document numbers with an
 exponent

Regular expressions and lists saw 1e+06 instead of 1000000 when the message
carries a decoded document.
---
 MAPL_engine/check.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index fb8fe3d..5a8de6f 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -660,6 +660,8 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 	case map[string]interface{}, []interface{}:
 		jsonBytes, _ := json.Marshal(valueToCompareInterface)
 		valueToCompareString = string(jsonBytes)
+	case float64: // same text as in the json (no exponent)
+		valueToCompareString = strconv.FormatFloat(valueToCompareInterface.(float64), 'f', -1, 64)
 	default:
 		valueToCompareString = fmt.Sprintf("%v", valueToCompareInterface)
 	}
-- 
2.43.0


From ee445ea0d2a88274088b7a1c3e1e056d09be9725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:50 +0000
Subject: [PATCH 10/42] fix: follow the path after $VALUE in decoded documents

A condition on $VALUE.x was prepared with a placeholder query, so it was
compared with a list of all fields of the value. Brackets after $VALUE were
ignored with raw bytes.
---
 MAPL_engine/check.go           | 4 ++--
 MAPL_engine/conditions_tree.go | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 5a8de6f..0743d10 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -524,8 +524,8 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 		}
 		if c.AttributeJsonpathQuery == "$KEY" || strings.HasPrefix(c.AttributeJsonpathQuery, "$VALUE") {
 			valueToCompareBytes, err = getKeyValue(*message.RequestJsonRawRelative, c.AttributeJsonpathQuery)
-			if strings.HasPrefix(c.AttributeJsonpathQuery, "$VALUE.") {
-				tempQuery := strings.Replace(c.AttributeJsonpathQuery, "$VALUE.", "$.", 1)
+			if err == nil && (strings.HasPrefix(c.AttributeJsonpathQuery, "$VALUE.") || strings.HasPrefix(c.AttributeJsonpathQuery, "$VALUE[")) {
+				tempQuery := strings.Replace(c.AttributeJsonpathQuery, "$VALUE", "$", 1)
 				valueToCompareBytes, err = jsonslice.Get(valueToCompareBytes, tempQuery)
 			}
 		} else {
diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 9533e86..7b2279e 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -386,6 +386,9 @@ func prepareJsonpathQuery(query string) (jsonpath.FilterFunc, error) {
 	if query == "$*" {
 		query = "$.*"
 	}
+	if strings.HasPrefix(query, "$VALUE.") || strings.HasPrefix(query, "$VALUE[") { // a path inside the value
+		query = strings.Replace(query, "$VALUE", "$", 1)
+	}
 	if strings.Contains(query, "$KEY") || strings.Contains(query, "$VALUE") {
 		preparedJsonpath, _ := jsonpath.Prepare("$.*") // just instead of nil. we are not going to use it
 		return preparedJsonpath, nil
-- 
2.43.0


From 1d308ce6be33e104a1d41b359042091e5cdeab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:51 +0000
Subject: [PATCH 11/42] fix: key and value references on sub-documents that are
 not one entry

With a decoded document $KEY and $VALUE crashed on a list element that is not
an object and picked a random entry of an object with several entries. Such a
reference is absent, as it is with raw bytes.
---
 MAPL_engine/check.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 0743d10..4c94928 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -735,6 +735,10 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 func getKeyValueFromInterface(c *Condition, message *MessageAttributes) (interface{}, error) {
 	var valueToCompareInterface interface{}
 	var err error
+	entry, ok := (*message.RequestRawInterfaceRelative).(map[string]interface{})
+	if !ok || len(entry) != 1 { // not a key-value pair
+		return nil, nil
+	}
 	if c.AttributeJsonpathQuery == "$KEY" {
 		xx := (*message).RequestRawInterfaceRelative
 		yy := (*xx).(map[string]interface{})
-- 
2.43.0


From d55a921bb7e7ca21d6b4153c8fe6b97342ac2e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:20 +0000
Subject: [PATCH 12/42] fix: select the sub-documents of ANY and ALL in decoded
 documents

A message without a current sub-document and a parent path that leads to a
scalar crashed. Each path of a comma-separated list is now relative on its
own, and lists are opened wherever they appear in the result of a deepscan.
---
 MAPL_engine/check.go | 65 ++++++++++++++++----------------------------
 1 file changed, 23 insertions(+), 42 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 4c94928..92d546d 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -938,47 +938,28 @@ func compareRegexFunc(value1 string, method string, value2 *regexp.Regexp) bool
 func getArrayOfInterfaces(a AnyAllNode, message *MessageAttributes) ([]interface{}, error) {
 	// used in eval of ANY/ALL node (getting the data from the message raw interface attributes by the parentJsonpath)
 
-	var arrayDataInterface interface{}
-	err := errors.New("error")
-	parentJsonpath := a.GetParentJsonpathAttribute()
-	if strings.HasPrefix(parentJsonpath, "$RELATIVE.") || parentJsonpath == "$RELATIVE*" || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
-
-		if parentJsonpath == "$RELATIVE*" {
-			var temp []interface{}
-			xx := (*message).RequestRawInterfaceRelative
-			yy := (*xx).(map[string]interface{})
-			for k, v := range yy {
-				zz := make(map[string]interface{}, 1)
-				zz[k] = v
-				temp = append(temp, zz)
-			}
-			return temp, nil
+	parentJsonpathList := a.GetParentJsonpathAttributeArray()
+	returnArray := []interface{}{}
+	for i, jsonpathQueryFunc := range a.GetPreparedJsonpathQuery() {
+		rawInterface := message.RequestRawInterface
+		if strings.HasPrefix(parentJsonpathList[i], "$RELATIVE") { // to-do: create a flag once when parsing!
+			rawInterface = message.RequestRawInterfaceRelative
 		}
-
-		returnArray := []interface{}{}
-		for _, jsonpathQueryFunc := range a.GetPreparedJsonpathQuery() {
-			arrayDataInterface, err = jsonpathQueryFunc(*message.RequestRawInterfaceRelative)
-			a := ArrangeArrayInterface(arrayDataInterface)
-			for _, aa := range a {
-				returnArray = append(returnArray, aa)
-			}
+		if rawInterface == nil {
+			return []interface{}{}, errors.New("no document")
 		}
-		return returnArray, nil
-	} else {
-		returnArray := []interface{}{}
-		for _, jsonpathQueryFunc := range a.GetPreparedJsonpathQuery() {
-			arrayDataInterface, err = jsonpathQueryFunc(*message.RequestRawInterface)
-			a := ArrangeArrayInterface(arrayDataInterface)
-			for _, aa := range a {
-				returnArray = append(returnArray, aa)
+
+		var arrayDataInterface interface{}
+		if parentJsonpathList[i] == "$RELATIVE*" {
+			if entries, ok := (*rawInterface).(map[string]interface{}); ok {
+				arrayDataInterface = entries
 			}
+		} else {
+			arrayDataInterface, _ = jsonpathQueryFunc(*rawInterface) // a path that is not found selects nothing
 		}
-		return returnArray, nil
-	}
-	if arrayDataInterface != nil {
-		return ArrangeArrayInterface(arrayDataInterface), nil
+		returnArray = append(returnArray, ArrangeArrayInterface(arrayDataInterface)...)
 	}
-	return []interface{}{}, err
+	return returnArray, nil
 }
 
 func ArrangeArrayInterface(arrayDataInterface interface{}) []interface{} {
@@ -994,17 +975,17 @@ func ArrangeArrayInterface(arrayDataInterface interface{}) []interface{} {
 		if arrayDataInterface == nil {
 			return []interface{}{}
 		}
-		tempArray := arrayDataInterface.([]interface{})
+		tempArray, ok := arrayDataInterface.([]interface{})
+		if !ok { // neither an array nor a map
+			return []interface{}{}
+		}
 		tempArrayOut := []interface{}{}
 		for _, x := range tempArray {
 			switch x.(type) {
 			case []interface{}: // in case of deepscan we get [][]interface{} and not []interface{}. here we re-arrange it.
-				tempArray2 := x.([]interface{})
-				for _, y := range tempArray2 {
-					tempArrayOut = append(tempArrayOut, y)
-				}
+				tempArrayOut = append(tempArrayOut, ArrangeArrayInterface(x)...)
 			default:
-				return tempArray
+				tempArrayOut = append(tempArrayOut, x)
 			}
 		}
 		return tempArrayOut
-- 
2.43.0


From 7005e12aea7fb59d6cd84b08521385fbed19181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:20 +0000
Subject: [PATCH 13/42] fix: select the sub-documents of ANY and ALL in raw
 JSON bytes

Splitting a list by counting braces also counted braces inside strings.
Nested lists were reported as malformed, a list of paths that mixes objects
and lists lost elements, elements that are not objects were skipped, and a
message without a document crashed.
---
 MAPL_engine/check.go | 125 ++++++++++++-------------------------------
 1 file changed, 34 insertions(+), 91 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 92d546d..073d005 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -994,54 +994,36 @@ func ArrangeArrayInterface(arrayDataInterface interface{}) []interface{} {
 
 func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error) {
 	// used in eval of ANY/ALL node (getting the data from the message attributes by the parentJsonpath)
-	arrayData := []byte{}
-	arrayDataTemp := []byte{}
-
-	err := errors.New("error")
-	parentJsonpathList := a.GetParentJsonpathAttributeArray()
-	for _, parentJsonpath := range parentJsonpathList {
-		if strings.HasPrefix(parentJsonpath, "$RELATIVE.") || parentJsonpath == "$RELATIVE*" || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
-			parentJsonpath = strings.Replace(parentJsonpath, "$RELATIVE.", "$.", 1)
-			parentJsonpath = strings.Replace(parentJsonpath, "$KEY.", "$.", 1) // to do: this is not supported. remove
-			parentJsonpath = strings.Replace(parentJsonpath, "$VALUE.", "$.", 1)
-			if parentJsonpath == "$RELATIVE*" {
-				parentJsonpath = "$*"
-			}
-			arrayDataTemp, err = jsonslice.Get(*message.RequestJsonRawRelative, parentJsonpath)
-		} else {
-			arrayDataTemp, err = jsonslice.Get(*message.RequestJsonRaw, parentJsonpath)
+	returnArray := [][]byte{}
+	for _, parentJsonpath := range a.GetParentJsonpathAttributeArray() {
+		jsonRaw := message.RequestJsonRaw
+		if strings.HasPrefix(parentJsonpath, "$RELATIVE") { // to-do: create a flag once when parsing!
+			jsonRaw = message.RequestJsonRawRelative
+			parentJsonpath = strings.Replace(parentJsonpath, "$RELATIVE", "$", 1)
 		}
-		if err == nil {
-			if len(arrayData) == 0 {
-				arrayData = arrayDataTemp
-			} else {
-				if len(arrayDataTemp) != 0 {
-					arrayData = append(arrayData, ',')
-					arrayData = append(arrayData, arrayDataTemp...)
-				}
-			}
+		if jsonRaw == nil || len(*jsonRaw) == 0 {
+			return [][]byte{}, errors.New("no document")
 		}
-	}
-
-	if err != nil {
-		return [][]byte{}, err
-	}
 
-	arrayData, err = getArrayFromArrayOfArrays(arrayData)
-	if err != nil {
-		return [][]byte{}, err
-	}
-
-	arrayJson, err := getArrayOfJsonsFromInterfaceArray(arrayData)
+		arrayData, err := jsonslice.Get(*jsonRaw, parentJsonpath)
+		if err != nil { // a path that is not found selects nothing
+			continue
+		}
+		arrayData = pretty.Ugly(arrayData) // faster then json.Compact by a factor of ~6
 
-	if err != nil {
-		arrayJson, err := getArrayOfJsonsFromMapStringInterface(arrayData)
+		arrayJson, err := getArrayOfJsonsFromInterfaceArray(arrayData)
 		if err != nil {
-			return [][]byte{}, err
+			arrayJson, err = getArrayOfJsonsFromMapStringInterface(arrayData)
+			if err != nil {
+				if !json.Valid(arrayData) {
+					return [][]byte{}, err
+				}
+				continue // neither an array nor a map
+			}
 		}
-		return arrayJson, nil
+		returnArray = append(returnArray, arrayJson...)
 	}
-	return arrayJson, nil
+	return returnArray, nil
 }
 
 func getArrayOfJsonsFromInterfaceArrayOriginal(arrayData []byte) ([][]byte, error) {
@@ -1069,31 +1051,23 @@ func getArrayOfJsonsFromInterfaceArray(arrayData []byte) ([][]byte, error) {
 		return [][]byte{}, nil
 	}
 
-	if arrayData[0] == '{' { // this is not array of jsons ( []interface{} ) but map of jsons ( map[string]interface{} )
+	var elements []json.RawMessage // the elements are not parsed
+	err := json.Unmarshal(arrayData, &elements)
+	if err != nil { // this is not array of jsons ( []interface{} ) but map of jsons ( map[string]interface{} )
 		return [][]byte{}, fmt.Errorf("not array of jsons")
 	}
 
 	arrayJson := [][]byte{}
-	c := 0
-	start := -1
-	for i := 0; i < len(arrayData); i++ {
-		if arrayData[i] == '{' {
-			if c == 0 {
-				start = i
-			}
-			c += 1
-		}
-		if arrayData[i] == '}' {
-			c -= 1
-		}
-		if c == 0 {
-			if start == -1 {
-				continue
+	for _, element := range elements {
+		if element[0] == '[' { // in case of deepscan we get an array of arrays. here we re-arrange it.
+			innerArrayJson, err := getArrayOfJsonsFromInterfaceArray(element)
+			if err != nil {
+				return [][]byte{}, err
 			}
-			y := arrayData[start : i+1]
-			start = -1
-			arrayJson = append(arrayJson, y)
+			arrayJson = append(arrayJson, innerArrayJson...)
+			continue
 		}
+		arrayJson = append(arrayJson, element)
 	}
 
 	return arrayJson, nil
@@ -1117,34 +1091,3 @@ func getArrayOfJsonsFromMapStringInterface(arrayData []byte) ([][]byte, error) {
 	}
 	return arrayJson, nil
 }
-
-func getArrayFromArrayOfArrays(arrayData []byte) ([]byte, error) {
-	if len(arrayData) < 2 {
-		return arrayData, nil
-	}
-
-	/*  slow. we should use "pretty.Ugly" instead
-	buffer := new(bytes.Buffer) // clean the json
-	err := json.Compact(buffer, arrayData)
-	if err != nil {
-		return []byte{}, err
-	}
-	arrayDataNew = buffer.Bytes()
-	*/
-
-	arrayDataNew := pretty.Ugly(arrayData) // faster then json.Compact by a factor of ~6
-
-	if arrayDataNew[0] != '[' || arrayDataNew[1] != '[' {
-		return arrayDataNew, nil
-	}
-
-	arrayDataString := string(arrayDataNew)
-	arrayDataString = strings.Replace(arrayDataString, "[[", "[", 1)
-	arrayDataString = strings.Replace(arrayDataString, "]]", "]", 1)
-	arrayDataString = strings.Replace(arrayDataString, "],[", ",", -1)
-
-	if strings.Contains(arrayDataString, "[[") || strings.Contains(arrayDataString, "]]") {
-		return []byte{}, fmt.Errorf("malformed arrayData")
-	}
-	return []byte(arrayDataString), nil
-}
-- 
2.43.0


From 46d45824d9900779c756cfbd5e6ddc82726039cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:13 +0000
Subject: [PATCH 14/42] fix: escape control characters and parent paths when
 encoding rules

A condition value with a tab or a line break, or a parent path with double
quotes, was written as invalid JSON. Such rules could not be encoded, and
could not be prepared either because preparing copies the rule through JSON.
---
 MAPL_engine/conditions_tree.go  |  4 ++--
 MAPL_engine/definitions_rule.go |  6 ++----
 MAPL_engine/string_utils.go     | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 7b2279e..fafb921 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -268,7 +268,7 @@ func (a *Any) MarshalJSON() ([]byte, error) {
 		returnValueJsonpath = a.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"ANY":{"parentJsonpathAttribute":"%v",`, parentJsonpathAttributeString)
+	str := fmt.Sprintf(`{"ANY":{"parentJsonpathAttribute":"%v",`, escapeJsonString(parentJsonpathAttributeString))
 	if len(returnValueJsonpath) > 0 {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
 		str = fmt.Sprintf(`%v"returnValueJsonpath": %v,`, str, string(returnValueJsonpathJson))
@@ -482,7 +482,7 @@ func (a *All) MarshalJSON() ([]byte, error) {
 		returnValueJsonpath = a.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"ALL":{"parentJsonpathAttribute":"%v",`, parentJsonpathAttributeString)
+	str := fmt.Sprintf(`{"ALL":{"parentJsonpathAttribute":"%v",`, escapeJsonString(parentJsonpathAttributeString))
 	if len(returnValueJsonpath) > 0 {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
 		str = fmt.Sprintf(`%v"returnValueJsonpath":%v,`, str, string(returnValueJsonpathJson))
diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index b433801..85df323 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -287,8 +287,7 @@ func (c *Condition) MarshalJSON() ([]byte, error) {
 	if len(c.OriginalAttribute) > 0 {
 		attributeString = c.OriginalAttribute
 	}
-	attributeString = strings.Replace(attributeString, "\\", "\\\\", -1)
-	attributeString = strings.Replace(attributeString, "\"", "\\\"", -1)
+	attributeString = escapeJsonString(attributeString)
 
 	methodString := c.Method
 	if len(c.OriginalMethod) > 0 {
@@ -299,8 +298,7 @@ func (c *Condition) MarshalJSON() ([]byte, error) {
 	if len(c.OriginalValue) > 0 {
 		valueString = c.OriginalValue
 	}
-	valueString = strings.Replace(valueString, "\\", "\\\\", -1)
-	valueString = strings.Replace(valueString, "\"", "\\\"", -1)
+	valueString = escapeJsonString(valueString)
 
 	returnValueJsonpath := c.ReturnValueJsonpath
 	if len(c.ReturnValueJsonpathOriginal) > 0 {
diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index c57ff26..4a39022 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -1,6 +1,8 @@
 package MAPL_engine
 
 import (
+	"bytes"
+	"encoding/json"
 	"fmt"
 	"log"
 	"math"
@@ -189,3 +191,15 @@ func removeQuotesFromResult(str string) (string, bool) {
 	}
 	return str, true
 }
+
+// escapeJsonString returns the string as it is written inside the quotes of a json string
+func escapeJsonString(str string) string {
+	buffer := new(bytes.Buffer)
+	encoder := json.NewEncoder(buffer)
+	encoder.SetEscapeHTML(false)
+	if err := encoder.Encode(str); err != nil {
+		return str
+	}
+	strOut := strings.TrimSuffix(buffer.String(), "\n")
+	return strOut[1 : len(strOut)-1]
+}
-- 
2.43.0


From 4e110f805ac027f6b835480a650c54be3f46c137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:13 +0000
Subject: [PATCH 15/42] fix: report conditions with keys or fields that are not
 strings

Loading such a rule crashed on a type assertion, for instance when a return
value was named n or a parent path was a number. An attribute written as the
bare word true is now read as text.
---
 MAPL_engine/conditions_tree.go  | 30 +++++++++++++++++++++++-------
 MAPL_engine/definitions_rule.go |  8 ++++----
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index fafb921..5f9b556 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -745,7 +745,10 @@ func InterpretNode(node interface{}, parentString string) (Node, error) {
 
 func handleMapInterfaceInterface(v map[interface{}]interface{}, parentString string) (Node, error) {
 
-	v2 := mapInterfaceToMapString(v)
+	v2, err := mapInterfaceToMapString(v)
+	if err != nil {
+		return nil, err
+	}
 	return handleMapStringInterface(v2, parentString)
 
 }
@@ -836,7 +839,10 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 	for key, val := range v2 {
 		switch key {
 		case "parentJsonpathAttribute":
-			parentJsonpathAttribute := val.(string)
+			parentJsonpathAttribute, ok := val.(string)
+			if !ok {
+				return nil, fmt.Errorf("invalid parentJsonpathAttribute [%v is not a string]", val)
+			}
 			if isValidParentJsonpathAttribute(parentJsonpathAttribute) {
 				anyAllNode.SetParentJsonpathAttribute(parentJsonpathAttribute)
 			} else {
@@ -848,14 +854,20 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 			case map[string]interface{}:
 				returnValueJsonpath = val.(map[string]interface{})
 			case map[interface{}]interface{}:
-				returnValueJsonpath = mapInterfaceToMapString(val.(map[interface{}]interface{}))
+				returnValueJsonpath, err = mapInterfaceToMapString(val.(map[interface{}]interface{}))
+				if err != nil {
+					return nil, err
+				}
 			default:
 				return nil, fmt.Errorf("invalid returnValueJsonpath [%v is not map[string]interface]", val)
 			}
 
 			returnValueJsonpathMap := map[string]string{}
 			for k, v := range returnValueJsonpath {
-				vString := v.(string)
+				vString, ok := v.(string)
+				if !ok {
+					return nil, fmt.Errorf("invalid returnValueJsonpath [%v is not a string]", v)
+				}
 				if strings.HasPrefix(vString, "jsonpath:$RELATIVE") {
 					returnValueJsonpathMap[k] = vString
 				} else {
@@ -917,12 +929,16 @@ func isValidParentJsonpathAttribute(parentJsonpathAttribute string) bool {
 	return true
 }
 
-func mapInterfaceToMapString(node map[interface{}]interface{}) map[string]interface{} {
+func mapInterfaceToMapString(node map[interface{}]interface{}) (map[string]interface{}, error) {
 	node_out := make(map[string]interface{})
 	for k, val := range node {
-		node_out[k.(string)] = val
+		kString, ok := k.(string)
+		if !ok {
+			return nil, fmt.Errorf("key is not a string [%v]", k)
+		}
+		node_out[kString] = val
 	}
-	return node_out
+	return node_out, nil
 }
 
 func getNodeValType(node map[string]interface{}, parentString string) (interface{}, string, error) {
diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index 85df323..3989155 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -170,10 +170,10 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 	for k, val := range v {
 		switch k {
 		case "attribute", "Attribute":
-			c.Attribute = val.(string)
+			c.Attribute = fmt.Sprintf("%v", val)
 
 		case "method", "Method":
-			c.Method = val.(string)
+			c.Method = fmt.Sprintf("%v", val)
 
 		case "value", "Value":
 			c.Value = fmt.Sprintf("%v", val) // to avoid interface interpreted as int which causes panic
@@ -184,12 +184,12 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 			case map[string]interface{}:
 				val2 := val.(map[string]interface{})
 				for kk, vv := range val2 {
-					c.ReturnValueJsonpath[kk] = vv.(string)
+					c.ReturnValueJsonpath[kk] = fmt.Sprintf("%v", vv)
 				}
 			case map[interface{}]interface{}:
 				val2 := val.(map[interface{}]interface{})
 				for kk, vv := range val2 {
-					c.ReturnValueJsonpath[kk.(string)] = vv.(string)
+					c.ReturnValueJsonpath[fmt.Sprintf("%v", kk)] = fmt.Sprintf("%v", vv)
 				}
 			}
 		}
-- 
2.43.0


From 102644f2d3fff1721ee48614b362dd7ad4ba5711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:14 +0000
Subject: [PATCH 16/42] fix: keep large numeric condition values as written
 when reading JSON

The value 1000000 was read as 1e+06 from JSON and as 1000000 from YAML.
---
 MAPL_engine/definitions_rule.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index 3989155..dccce6e 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -8,6 +8,7 @@ import (
 	dc "gopkg.in/getlantern/deepcopy.v1"
 	"net"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -177,6 +178,9 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 
 		case "value", "Value":
 			c.Value = fmt.Sprintf("%v", val) // to avoid interface interpreted as int which causes panic
+			if valFloat, ok := val.(float64); ok { // all numbers in json are floats
+				c.Value = strconv.FormatFloat(valFloat, 'f', -1, 64)
+			}
 
 		case "returnValueJsonpath", "ReturnValueJsonpath":
 			c.ReturnValueJsonpath = make(map[string]string)
-- 
2.43.0


From cb22382008524962221be2b560cbccc3dbc84a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:14 +0000
Subject: [PATCH 17/42] fix: reject connectives with a wrong number of
 conditions

An empty AND, OR or NOT list was accepted, a NOT list kept only its last
condition, a quantifier with two conditions kept a random one and a
quantifier without any crashed.
---
 MAPL_engine/conditions_tree.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 5f9b556..32c3fb4 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -836,6 +836,7 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 		anyAllNode = &All{}
 	}
 
+	numNodes := 0
 	for key, val := range v2 {
 		switch key {
 		case "parentJsonpathAttribute":
@@ -881,8 +882,12 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 				return nil, err
 			}
 			anyAllNode.Append(node)
+			numNodes += 1
 		}
 	}
+	if numNodes != 1 {
+		return nil, fmt.Errorf("ANY/ALL node should have exactly one condition")
+	}
 	if anyAllNode.GetParentJsonpathAttribute() == "" {
 		return nil, fmt.Errorf("parentJsonpathAttribute is missing")
 	}
@@ -967,6 +972,9 @@ func prepareOneConditionNode(cond ConditionNode) (Node, error) {
 
 func handleInterfaceArray(node interface{}, parentString string) (Node, error) {
 	v2 := node.([]interface{})
+	if len(v2) == 0 || (parentString == "NOT" && len(v2) != 1) {
+		return nil, fmt.Errorf("wrong number of conditions [%v node]", parentString)
+	}
 	nodes, err := getNodeByParentString(parentString)
 
 	if err != nil {
-- 
2.43.0


From 9eb85d70f11ea495d8d16adba1c71f1d31f9c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:14 +0000
Subject: [PATCH 18/42] fix: support lower case in, nin, re and nre like their
 upper case forms

The methods in and nin passed validation but were always false, and a
predefined list used with re or nre was not joined as alternatives.
---
 MAPL_engine/rules_load.go          | 5 ++++-
 MAPL_engine/validate_conditions.go | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index c92017f..6714a36 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -268,7 +268,7 @@ func ReplaceStringsAndListsInCondition(c *Condition, stringsAndlists PredefinedS
 	newList, ok, isReplaceable := isReplaceableList(c.Value, stringsAndlists)
 	if ok {
 		newValue := ""
-		if c.Method == "RE" || c.Method == "NRE" {
+		if c.Method == "RE" || c.Method == "NRE" || c.Method == "re" || c.Method == "nre" {
 			newValue = convertListToRegexString(newList)
 			_, err := regexp.Compile(newValue)
 			if err != nil {
@@ -330,6 +330,9 @@ func ConvertConditionStringToIntFloatRegex(condition *Condition) error { // TO-D
 	condition.OriginalMethod = condition.Method
 	condition.OriginalValue = condition.Value
 
+	if condition.Method == "in" || condition.Method == "nin" {
+		condition.Method = strings.ToUpper(condition.Method)
+	}
 	if condition.Method == "IN" || condition.Method == "NIN" || condition.Method == "IS" {
 		tempString := strings.Replace(condition.Value, "[", "", -1)
 		tempString = strings.Replace(tempString, "]", "", -1)
diff --git a/MAPL_engine/validate_conditions.go b/MAPL_engine/validate_conditions.go
index 6a857e5..3810756 100755
--- a/MAPL_engine/validate_conditions.go
+++ b/MAPL_engine/validate_conditions.go
@@ -129,7 +129,7 @@ func validateMethod(condition *Condition) (bool, error) {
 	if !slice.ContainsString(supportedMethodsSlice, condition.Method) {
 		return false, fmt.Errorf("invalid method in condition [%v]", condition.Method)
 	}
-	if condition.Method == "IN" || condition.Method == "NIN" {
+	if condition.Method == "IN" || condition.Method == "NIN" || condition.Method == "in" || condition.Method == "nin" || condition.Method == "IS" {
 		L := len(condition.Value)
 		if L == 0 {
 			return false, fmt.Errorf("test membership in empty array")
-- 
2.43.0


From bf5f2ab32531acc07a381b72a6abbe7081eaf1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:15 +0000
Subject: [PATCH 19/42] fix: print rules without conditions

GetRuleStrings dereferenced a nil conditions tree.
---
 MAPL_engine/tools.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/tools.go b/MAPL_engine/tools.go
index 9a57538..e901df6 100644
--- a/MAPL_engine/tools.go
+++ b/MAPL_engine/tools.go
@@ -158,7 +158,9 @@ func GetRuleStrings(r *Rule) RuleStrings {
 		output.DecisionString = r.Decision
 	}
 
-	output.ConditionsString = r.Conditions.ConditionsTree.String()
+	if r.Conditions.ConditionsTree != nil {
+		output.ConditionsString = r.Conditions.ConditionsTree.String()
+	}
 
 	return output
 }
-- 
2.43.0


From 9f9cc50d9785e381980fa668f6410646e09aa38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:15 +0000
Subject: [PATCH 20/42] fix: relative return values outside of a quantifier are
 absent

They dereferenced a nil sub-document.
---
 MAPL_engine/check.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 073d005..bfee75e 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -371,6 +371,9 @@ func getExtraDataFromInterface(preparedReturnValueJsonpathQueryMap map[string]js
 	extraDataTemp := make(map[string]interface{})
 
 	for queryName, preparedQuery := range preparedReturnValueJsonpathQueryMap {
+		if preparedReturnValueJsonpathQueryRelativeFlag[queryName] && message.RequestRawInterfaceRelative == nil { // not inside ANY/ALL
+			continue
+		}
 		if returnValueJsonpathMap[queryName] == "$*" {
 			if preparedReturnValueJsonpathQueryRelativeFlag[queryName] {
 				extraDataTemp[queryName] = *message.RequestRawInterfaceRelative
@@ -405,6 +408,9 @@ func getExtraDataFromByteArray(returnValueJsonpathMap map[string]string, returnV
 	for queryName, queryString := range returnValueJsonpathMap {
 		var extraDataBytes []byte
 
+		if returnValueJsonpathQueryRelativeFlag[queryName] && message.RequestJsonRawRelative == nil { // not inside ANY/ALL
+			continue
+		}
 		if returnValueJsonpathQueryRelativeFlag[queryName] {
 			extraDataBytes, _ = jsonslice.Get(*message.RequestJsonRawRelative, queryString)
 		} else {
-- 
2.43.0


From 9f05db3cfc3b2e277bc4cb3b32ab9920b6cc60fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:29 +0000
Subject: [PATCH 21/42] fix: preparing an ANY or ALL node again replaces its
 parent paths

---
 MAPL_engine/conditions_tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 32c3fb4..9093fa8 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -370,6 +370,7 @@ func (a *Any) PrepareAndValidate(stringsAndlists PredefinedStringsAndLists) erro
 	}
 
 	a.ParentJsonpathAttributeArray = strings.Split(a.GetParentJsonpathAttribute(), ",")
+	a.PreparedJsonpathQuery = nil // the node may be prepared more than once
 
 	for _, j := range a.GetParentJsonpathAttributeArray() {
 		preparedJsonpath, err := prepareJsonpathQuery(j)
@@ -558,6 +559,7 @@ func (a *All) PrepareAndValidate(stringsAndlists PredefinedStringsAndLists) erro
 	}
 
 	a.ParentJsonpathAttributeArray = strings.Split(a.GetParentJsonpathAttribute(), ",")
+	a.PreparedJsonpathQuery = nil // the node may be prepared more than once
 
 	for _, j := range a.GetParentJsonpathAttributeArray() {
 		preparedJsonpath, err := prepareJsonpathQuery(j)
-- 
2.43.0


From 267f4d98240f43a4425168553e04d9d586ea80a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:58 +0000
Subject: [PATCH 22/42] fix: compare text attributes literally with wildcards
 in EQ and NEQ conditions

---
 MAPL_engine/string_utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 4a39022..87af3d6 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -47,7 +47,10 @@ func RemoveDotQuotes(str string) string {
 // convertStringToRegex function converts one string to regex. Remove spaces, handle special characters and wildcards.
 func ConvertStringToRegex(str_in, method string) string {
 
-	str_out := "^" + str_in + "$"
+	str_out := regexp.QuoteMeta(str_in) // one string. every character other than the wildcards stands for itself
+	str_out = strings.Replace(str_out, "\\*", ".*", -1)
+	str_out = strings.Replace(str_out, "\\?", ".", -1)
+	str_out = "^" + str_out + "$"
 
 	if method == "IN" || method == "NIN" || method == "WithWildcards" { // We try to convert to a list only in case of IN or NIN
 		str_list := strings.Split(str_in, ",")
-- 
2.43.0


From f36bf950f3ffac5ec7b71024e13c979362fa44d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:49 +0000
Subject: [PATCH 23/42] fix: find dotted names with special characters in raw
 JSON bytes

---
 MAPL_engine/conditions_tree.go |  8 ++++----
 MAPL_engine/rules_load.go      |  2 +-
 MAPL_engine/string_utils.go    | 12 ++++++++++++
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 9093fa8..66ceb7b 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -369,7 +369,7 @@ func (a *Any) PrepareAndValidate(stringsAndlists PredefinedStringsAndLists) erro
 		return err
 	}
 
-	a.ParentJsonpathAttributeArray = strings.Split(a.GetParentJsonpathAttribute(), ",")
+	a.ParentJsonpathAttributeArray = strings.Split(putSpecialNamesInBrackets(a.GetParentJsonpathAttribute()), ",")
 	a.PreparedJsonpathQuery = nil // the node may be prepared more than once
 
 	for _, j := range a.GetParentJsonpathAttributeArray() {
@@ -438,7 +438,7 @@ func (a *Any) SetReturnValueJsonpath(returnValueJsonpath map[string]string) {
 		if strings.HasPrefix(queryString, "jsonpath:$RELATIVE") {
 			a.ReturnValuePreparedJsonpathQueryRelativeFlag[queryName] = true
 		}
-		a.ReturnValueJsonpath[queryName] = strings.Replace(queryString, "jsonpath:$RELATIVE", "$", 1)
+		a.ReturnValueJsonpath[queryName] = putSpecialNamesInBrackets(strings.Replace(queryString, "jsonpath:$RELATIVE", "$", 1))
 		preparedQuery, err := prepareJsonpathQuery(a.ReturnValueJsonpath[queryName])
 		if err == nil {
 			a.ReturnValuePreparedJsonpathQuery[queryName] = preparedQuery
@@ -558,7 +558,7 @@ func (a *All) PrepareAndValidate(stringsAndlists PredefinedStringsAndLists) erro
 		return err
 	}
 
-	a.ParentJsonpathAttributeArray = strings.Split(a.GetParentJsonpathAttribute(), ",")
+	a.ParentJsonpathAttributeArray = strings.Split(putSpecialNamesInBrackets(a.GetParentJsonpathAttribute()), ",")
 	a.PreparedJsonpathQuery = nil // the node may be prepared more than once
 
 	for _, j := range a.GetParentJsonpathAttributeArray() {
@@ -608,7 +608,7 @@ func (a *All) SetReturnValueJsonpath(returnValueJsonpath map[string]string) {
 		if strings.HasPrefix(queryString, "jsonpath:$RELATIVE") {
 			a.ReturnValuePreparedJsonpathQueryRelativeFlag[queryName] = true
 		}
-		a.ReturnValueJsonpath[queryName] = strings.Replace(queryString, "jsonpath:$RELATIVE", "$", 1)
+		a.ReturnValueJsonpath[queryName] = putSpecialNamesInBrackets(strings.Replace(queryString, "jsonpath:$RELATIVE", "$", 1))
 		preparedQuery, err := prepareJsonpathQuery(a.ReturnValueJsonpath[queryName])
 		if err == nil {
 			a.ReturnValuePreparedJsonpathQuery[queryName] = preparedQuery
diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index 6714a36..37240aa 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -482,7 +482,7 @@ func handleJsonpathAttribute(condition *Condition) {
 		//netConditionAttribute = strings.Replace(netConditionAttribute, "\"", "'", -1)
 		netConditionAttribute = strings.Replace(netConditionAttribute, "'", "\"", -1)
 		netConditionAttribute = strings.Replace(netConditionAttribute, ".[", "[", -1)
-		condition.AttributeJsonpathQuery = netConditionAttribute
+		condition.AttributeJsonpathQuery = putSpecialNamesInBrackets(netConditionAttribute)
 		condition.Attribute = "jsonpath"
 		//condition.OriginalAttribute = originalAttribute // used in hash
 	}
diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 87af3d6..9536840 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -44,6 +44,18 @@ func RemoveDotQuotes(str string) string {
 	return strOut
 }
 
+var dottedNameRegex = regexp.MustCompile(`\[[^\]]*\]|\.+[^.,\[]+`)
+
+// putSpecialNamesInBrackets function converts names with special characters from .name to ["name"] (jsonslice stops reading a dotted name at such a character)
+func putSpecialNamesInBrackets(path string) string {
+	return dottedNameRegex.ReplaceAllStringFunc(path, func(part string) string {
+		if part[0] != '.' || strings.HasPrefix(part, "..") || strings.ContainsAny(part, `"'*`) || !strings.ContainsAny(part, " \t:()<=>+-/&|!") {
+			return part
+		}
+		return `["` + part[1:] + `"]`
+	})
+}
+
 // convertStringToRegex function converts one string to regex. Remove spaces, handle special characters and wildcards.
 func ConvertStringToRegex(str_in, method string) string {
 
-- 
2.43.0


From ca36f550e8b4c6f8e24098e62169eaa0ce38881e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:10:28 +0000
Subject: [PATCH 24/42] fix: leave return values that are not found out of
 decoded documents too

---
 MAPL_engine/check.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index bfee75e..6cde608 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -385,11 +385,11 @@ func getExtraDataFromInterface(preparedReturnValueJsonpathQueryMap map[string]js
 				var err error
 				var extraDataTempTemp interface{}
 				if preparedReturnValueJsonpathQueryRelativeFlag[queryName] {
-					extraDataTempTemp, err = queryInterface(preparedQuery, *message.RequestRawInterfaceRelative)
+					extraDataTempTemp, err = preparedQuery(*message.RequestRawInterfaceRelative)
 				} else {
-					extraDataTempTemp, err = queryInterface(preparedQuery, *message.RequestRawInterface)
+					extraDataTempTemp, err = preparedQuery(*message.RequestRawInterface)
 				}
-				if err == nil {
+				if err == nil { // a value that is not found is left out
 					extraDataTemp[queryName] = extraDataTempTemp
 				}
 
-- 
2.43.0


From 78bafce51eb1963346df4e86e6a4b79386987a9a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:11:42 +0000
Subject: [PATCH 25/42] fix: accept parent paths that start with a dot

---
 MAPL_engine/conditions_tree.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 66ceb7b..56aa3ff 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -369,7 +369,7 @@ func (a *Any) PrepareAndValidate(stringsAndlists PredefinedStringsAndLists) erro
 		return err
 	}
 
-	a.ParentJsonpathAttributeArray = strings.Split(putSpecialNamesInBrackets(a.GetParentJsonpathAttribute()), ",")
+	a.ParentJsonpathAttributeArray = splitParentJsonpathAttribute(a.GetParentJsonpathAttribute())
 	a.PreparedJsonpathQuery = nil // the node may be prepared more than once
 
 	for _, j := range a.GetParentJsonpathAttributeArray() {
@@ -382,6 +382,16 @@ func (a *Any) PrepareAndValidate(stringsAndlists PredefinedStringsAndLists) erro
 	return nil
 }
 
+func splitParentJsonpathAttribute(parentJsonpathAttribute string) []string {
+	parentJsonpathAttributeArray := strings.Split(putSpecialNamesInBrackets(parentJsonpathAttribute), ",")
+	for i, p := range parentJsonpathAttributeArray {
+		if strings.HasPrefix(p, ".") { // jsonpath:.name is the same as jsonpath:$.name
+			parentJsonpathAttributeArray[i] = "$" + p
+		}
+	}
+	return parentJsonpathAttributeArray
+}
+
 func prepareJsonpathQuery(query string) (jsonpath.FilterFunc, error) {
 	query = strings.Replace(query, "$RELATIVE", "$", -1)
 	if query == "$*" {
@@ -558,7 +568,7 @@ func (a *All) PrepareAndValidate(stringsAndlists PredefinedStringsAndLists) erro
 		return err
 	}
 
-	a.ParentJsonpathAttributeArray = strings.Split(putSpecialNamesInBrackets(a.GetParentJsonpathAttribute()), ",")
+	a.ParentJsonpathAttributeArray = splitParentJsonpathAttribute(a.GetParentJsonpathAttribute())
 	a.PreparedJsonpathQuery = nil // the node may be prepared more than once
 
 	for _, j := range a.GetParentJsonpathAttributeArray() {
-- 
2.43.0


From e329be693677540f52ce6d28bb3f90bfd7af77ae Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:13:17 +0000
Subject: [PATCH 26/42] fix: accept quoted names in parent and return paths

---
 MAPL_engine/conditions_tree.go | 6 +++---
 MAPL_engine/rules_load.go      | 7 +------
 MAPL_engine/string_utils.go    | 8 ++++++++
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 56aa3ff..bb57467 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -383,7 +383,7 @@ func (a *Any) PrepareAndValidate(stringsAndlists PredefinedStringsAndLists) erro
 }
 
 func splitParentJsonpathAttribute(parentJsonpathAttribute string) []string {
-	parentJsonpathAttributeArray := strings.Split(putSpecialNamesInBrackets(parentJsonpathAttribute), ",")
+	parentJsonpathAttributeArray := strings.Split(normalizeJsonpath(parentJsonpathAttribute), ",")
 	for i, p := range parentJsonpathAttributeArray {
 		if strings.HasPrefix(p, ".") { // jsonpath:.name is the same as jsonpath:$.name
 			parentJsonpathAttributeArray[i] = "$" + p
@@ -448,7 +448,7 @@ func (a *Any) SetReturnValueJsonpath(returnValueJsonpath map[string]string) {
 		if strings.HasPrefix(queryString, "jsonpath:$RELATIVE") {
 			a.ReturnValuePreparedJsonpathQueryRelativeFlag[queryName] = true
 		}
-		a.ReturnValueJsonpath[queryName] = putSpecialNamesInBrackets(strings.Replace(queryString, "jsonpath:$RELATIVE", "$", 1))
+		a.ReturnValueJsonpath[queryName] = normalizeJsonpath(strings.Replace(queryString, "jsonpath:$RELATIVE", "$", 1))
 		preparedQuery, err := prepareJsonpathQuery(a.ReturnValueJsonpath[queryName])
 		if err == nil {
 			a.ReturnValuePreparedJsonpathQuery[queryName] = preparedQuery
@@ -618,7 +618,7 @@ func (a *All) SetReturnValueJsonpath(returnValueJsonpath map[string]string) {
 		if strings.HasPrefix(queryString, "jsonpath:$RELATIVE") {
 			a.ReturnValuePreparedJsonpathQueryRelativeFlag[queryName] = true
 		}
-		a.ReturnValueJsonpath[queryName] = putSpecialNamesInBrackets(strings.Replace(queryString, "jsonpath:$RELATIVE", "$", 1))
+		a.ReturnValueJsonpath[queryName] = normalizeJsonpath(strings.Replace(queryString, "jsonpath:$RELATIVE", "$", 1))
 		preparedQuery, err := prepareJsonpathQuery(a.ReturnValueJsonpath[queryName])
 		if err == nil {
 			a.ReturnValuePreparedJsonpathQuery[queryName] = preparedQuery
diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index 37240aa..f73b724 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -477,12 +477,7 @@ func handleJsonpathAttribute(condition *Condition) {
 			netConditionAttribute = "$" + netConditionAttribute
 		}
 
-		netConditionAttribute = RemoveDotQuotes(netConditionAttribute)
-
-		//netConditionAttribute = strings.Replace(netConditionAttribute, "\"", "'", -1)
-		netConditionAttribute = strings.Replace(netConditionAttribute, "'", "\"", -1)
-		netConditionAttribute = strings.Replace(netConditionAttribute, ".[", "[", -1)
-		condition.AttributeJsonpathQuery = putSpecialNamesInBrackets(netConditionAttribute)
+		condition.AttributeJsonpathQuery = normalizeJsonpath(netConditionAttribute)
 		condition.Attribute = "jsonpath"
 		//condition.OriginalAttribute = originalAttribute // used in hash
 	}
diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 9536840..91873f1 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -44,6 +44,14 @@ func RemoveDotQuotes(str string) string {
 	return strOut
 }
 
+// normalizeJsonpath function converts the different spellings of names in a path to the ones used in jsonpath queries
+func normalizeJsonpath(path string) string {
+	path = RemoveDotQuotes(path)
+	path = strings.Replace(path, "'", "\"", -1)
+	path = strings.Replace(path, ".[", "[", -1)
+	return putSpecialNamesInBrackets(path)
+}
+
 var dottedNameRegex = regexp.MustCompile(`\[[^\]]*\]|\.+[^.,\[]+`)
 
 // putSpecialNamesInBrackets function converts names with special characters from .name to ["name"] (jsonslice stops reading a dotted name at such a character)
-- 
2.43.0


From cf0c2a4b6afe195652e157e40b5167996b3c5db7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:14:12 +0000
Subject: [PATCH 27/42] fix: ignore the whitespace of lists in raw JSON bytes

---
 MAPL_engine/check.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 6cde608..2b8786d 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -567,7 +567,7 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 			valueToCompareString = *decodedString
 		}
 	} else {
-		valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
+		valueToCompareString = removeQuotesAndBrackets(string(pretty.Ugly(valueToCompareBytes))) // the whitespace of the document does not matter
 	}
 	if len(valueToCompareString) == 0 {
 		return whatToReturnInCaseOfEmptyResult(*c)
-- 
2.43.0


From e9a06766262c336c9efd015de21832fc68de4d74 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:15:02 +0000
Subject: [PATCH 28/42] fix: a list with elements exists whatever its elements
 are

---
 MAPL_engine/check.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 2b8786d..d871954 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -567,6 +567,9 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 			valueToCompareString = *decodedString
 		}
 	} else {
+		if method := strings.ToUpper(c.Method); method == "EX" || method == "NEX" { // only an empty list does not exist, whatever is in the list
+			return (string(pretty.Ugly(valueToCompareBytes)) == "[]") == (method == "NEX")
+		}
 		valueToCompareString = removeQuotesAndBrackets(string(pretty.Ugly(valueToCompareBytes))) // the whitespace of the document does not matter
 	}
 	if len(valueToCompareString) == 0 {
@@ -677,6 +680,9 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 	}
 
 	if _, isString := valueToCompareInterface.(string); !isString { // the text of a string is compared as is
+		if method := strings.ToUpper(c.Method); method == "EX" || method == "NEX" { // only an empty list does not exist, whatever is in the list
+			return (valueToCompareString == "[]") == (method == "NEX")
+		}
 		valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
 		if len(valueToCompareString) == 0 {
 			return whatToReturnInCaseOfEmptyResult(*c)
-- 
2.43.0


From ddb448e06e8bcc94ac6cf9076ee8da6f7c688ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:34:11 +0000
Subject: [PATCH 29/42] fix: reject conditions with an empty key

---
 MAPL_engine/conditions_tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index bb57467..58ab474 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -965,6 +965,9 @@ func getNodeValType(node map[string]interface{}, parentString string) (interface
 		return nil, "", fmt.Errorf("map of size larger than 1 [node] %v", parentString)
 	}
 	key := keys[0]
+	if key == "" {
+		return nil, "", fmt.Errorf("empty key [node] %v", parentString)
+	}
 	return node[key], key, nil
 
 }
-- 
2.43.0


From ae0c68a0b9bfca6f828c549b34cddc579441bdfa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 20:05:49 +0000
Subject: [PATCH 30/42] fix: the Mongo query of NEQ selects only documents with
 the field

---
 MAPL_engine/mongo_plugin.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 2a60930..a096520 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -194,7 +194,9 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 	case "EQ":
 		q = bson.M{field: bson.M{"$eq": valToUse}}
 	case "NEQ", "NE":
-		q = bson.M{field: bson.M{"$ne": valToUse}}
+		q1 := bson.M{field: bson.M{"$ne": valToUse}}
+		q2 := bson.M{field: bson.M{"$exists": true}} // if the field doesn't exist we return false
+		q = bson.M{"$and": []bson.M{q1, q2}}
 	case "GT":
 		q = bson.M{field: bson.M{"$gt": valToUse}}
 	case "GE":
-- 
2.43.0


From c6086f27fa6ff074fd2c19aa7a8400acde1b951b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 20:06:50 +0000
Subject: [PATCH 31/42] fix: Mongo field names of quoted paths, paths starting
 with a dot and an empty base

---
 MAPL_engine/mongo_plugin.go | 49 +++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index a096520..2653806 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -67,10 +67,10 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
-	parentField := strings.Replace(a.ParentJsonpathAttributeOriginal, "jsonpath:$.", base+".", 1)
-	parentField = strings.Replace(parentField, "jsonpath:$RELATIVE.", "", 1)
-	parentField = strings.Replace(parentField, "[:]", "", -1)
-	parentField = strings.Replace(parentField, "[*]", "", -1)
+	parentField, err := getParentField(base, a.ParentJsonpathAttributeOriginal)
+	if err != nil {
+		return bson.M{}, []bson.M{}, err
+	}
 
 	q, pipeline, err := a.Node.ToMongoQuery(base, "", inArrayCounter+1)
 	if err != nil {
@@ -97,10 +97,10 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
-	parentField := strings.Replace(a.ParentJsonpathAttributeOriginal, "jsonpath:$.", base+".", 1)
-	parentField = strings.Replace(parentField, "jsonpath:$RELATIVE.", "", 1)
-	parentField = strings.Replace(parentField, "[:]", "", -1)
-	parentField = strings.Replace(parentField, "[*]", "", -1)
+	parentField, err := getParentField(base, a.ParentJsonpathAttributeOriginal)
+	if err != nil {
+		return bson.M{}, []bson.M{}, err
+	}
 
 	q, pipeline, err := a.Node.ToMongoQuery(base, parentField, inArrayCounter+1)
 	if err != nil {
@@ -116,6 +116,29 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	return q_all, pipeline, nil
 }
 
+func getParentField(base string, parentJsonpathAttribute string) (string, error) {
+	parentField := getAbsoluteField(base, parentJsonpathAttribute)
+	parentField = strings.Replace(parentField, "jsonpath:$RELATIVE.", "", 1)
+	parentField = strings.Replace(parentField, "[:]", "", -1)
+	parentField = strings.Replace(parentField, "[*]", "", -1)
+	parentField, err := removeQuotes(parentField)
+	return strings.TrimPrefix(parentField, "."), err
+}
+
+// getAbsoluteField replaces the root of an absolute jsonpath ("$." or ".") with the base
+func getAbsoluteField(base string, attribute string) string {
+	newBase := ""
+	if len(base) > 0 {
+		newBase = base + "."
+	}
+	for _, prefix := range []string{"jsonpath:$.", "jsonpath:."} {
+		if strings.HasPrefix(attribute, prefix) {
+			return newBase + strings.TrimPrefix(attribute, prefix)
+		}
+	}
+	return attribute
+}
+
 func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) {
 
 	//see: https://docs.mongodb.com/manual/reference/operator/query/
@@ -166,19 +189,15 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		initialSteps = append(initialSteps, addFieldStep)
 	}
 
-	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$.") {
-
-		newBase := ""
-		if len(base) > 0 {
-			newBase = base + "."
-		}
-		field = strings.Replace(c.OriginalAttribute, "jsonpath:$.", newBase, 1)
+	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$.") || strings.HasPrefix(c.OriginalAttribute, "jsonpath:.") {
+		field = getAbsoluteField(base, c.OriginalAttribute)
 	}
 
 	field, err := removeQuotes(field)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
 	}
+	field = strings.TrimPrefix(field, ".") // from a leading bracket
 
 	isNumberFlag, num := isNumber(c.Value)
 	var valToUse interface{}
-- 
2.43.0


From 945078836abe9b87f0a8cc838a83c7c87d77b7ef Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 20:07:05 +0000
Subject: [PATCH 32/42] fix: Mongo queries of ANY and ALL with several parent
 paths

---
 MAPL_engine/mongo_plugin.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 2653806..6f5a066 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -61,6 +61,14 @@ func (n *Not) ToMongoQuery(base string, parentString string, inArrayCounter int)
 }
 
 func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
+	parents := strings.Split(a.ParentJsonpathAttributeOriginal, ",")
+	if len(parents) > 1 { // all of the sub-documents of every parent
+		and := And{}
+		for _, parent := range parents {
+			and.Append(&All{ParentJsonpathAttributeOriginal: "jsonpath:" + strings.TrimPrefix(parent, "jsonpath:"), Node: a.Node})
+		}
+		return and.ToMongoQuery(base, parentString, inArrayCounter)
+	}
 	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
 		inArrayCounter += 1
 	}
@@ -90,6 +98,15 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 
 func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
 
+	parents := strings.Split(a.ParentJsonpathAttributeOriginal, ",")
+	if len(parents) > 1 { // any of the sub-documents of any parent
+		or := Or{}
+		for _, parent := range parents {
+			or.Append(&Any{ParentJsonpathAttributeOriginal: "jsonpath:" + strings.TrimPrefix(parent, "jsonpath:"), Node: a.Node})
+		}
+		return or.ToMongoQuery(base, parentString, inArrayCounter)
+	}
+
 	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
 		inArrayCounter += 1
 	}
-- 
2.43.0


From ec4e4d910d135eeda1773105f32f72a9072b2ace Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 20:07:53 +0000
Subject: [PATCH 33/42] fix: conditions on keys and values in a Mongo query are
 on the same entry

---
 MAPL_engine/mongo_plugin.go | 20 ++++++++++----------
 docs/Mongo_Plugin.md        |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 6f5a066..50fdb6f 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -7,13 +7,13 @@ import (
 	"strings"
 )
 
-func (a *And) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
+func (a *And) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) {
 
 	q_array := []bson.M{}
 	pipeline := []bson.M{}
 
 	for _, node := range a.Nodes {
-		q, pipelineAppend, err := node.ToMongoQuery(base, "", inArrayCounter)
+		q, pipelineAppend, err := node.ToMongoQuery(base, parentString, inArrayCounter)
 		if err != nil {
 			return bson.M{}, []bson.M{}, err
 		}
@@ -28,12 +28,12 @@ func (a *And) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	return q_and, pipeline, nil
 }
 
-func (o *Or) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
+func (o *Or) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) {
 
 	q_array := []bson.M{}
 	pipeline := []bson.M{}
 	for _, node := range o.Nodes {
-		q, pipelineAppend, err := node.ToMongoQuery(base, "", inArrayCounter)
+		q, pipelineAppend, err := node.ToMongoQuery(base, parentString, inArrayCounter)
 		if err != nil {
 			return bson.M{}, []bson.M{}, err
 		}
@@ -48,9 +48,9 @@ func (o *Or) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	return q_or, pipeline, nil
 }
 
-func (n *Not) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
+func (n *Not) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) {
 
-	q, pipeline, err := n.Node.ToMongoQuery(base, "", inArrayCounter)
+	q, pipeline, err := n.Node.ToMongoQuery(base, parentString, inArrayCounter)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
 	}
@@ -127,8 +127,8 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	var q_all bson.M
 	if len(pipeline) == 0 {
 		q_all = bson.M{parentField: bson.M{"$elemMatch": q}}
-	} else {
-		q_all = q
+	} else { // the conditions are on one and the same entry of the added array
+		q_all = bson.M{fmt.Sprintf("addedField.%v", parentField): bson.M{"$elemMatch": q}}
 	}
 	return q_all, pipeline, nil
 }
@@ -181,7 +181,7 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		//}
 		subField := strings.Replace(c.OriginalAttribute, "jsonpath:$VALUE", "", 1)
 		addedField := fmt.Sprintf("addedField.%v", parentString)
-		field = fmt.Sprintf("%v.v%v", addedField, subField)
+		field = "v" + subField
 
 		addFieldStep := bson.M{"$addFields": bson.M{addedField: bson.M{"$objectToArray": "$" + parentString}}}
 
@@ -199,7 +199,7 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 
 		field0 := parentString
 		field1 := fmt.Sprintf("addedField.%v", field0)
-		field = fmt.Sprintf("%v.k", field1)
+		field = "k"
 
 		addFieldStep := bson.M{"$addFields": bson.M{field1: bson.M{"$objectToArray": "$" + field0}}}
 
diff --git a/docs/Mongo_Plugin.md b/docs/Mongo_Plugin.md
index a164fcc..26d2501 100644
--- a/docs/Mongo_Plugin.md
+++ b/docs/Mongo_Plugin.md
@@ -80,7 +80,7 @@ Mongo **Aggregate** query =
 ```
   [ 
      {"$addFields":{"addedField.raw.metadata.labels":{"$objectToArray":"$raw.metadata.labels"}}},
-     {"$match":{"addedField.raw.metadata.labels.v":{"$eq":"ABC"}}} 
+     {"$match":{"addedField.raw.metadata.labels":{"$elemMatch":{"v":{"$eq":"ABC"}}}}} 
    ]
 ```
 
-- 
2.43.0


From 89b807aeb0de37862a48efa167ba6c1d11c3fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 20:08:21 +0000
Subject: [PATCH 34/42] fix: Mongo queries on the entries of an object and of
 an object inside it

---
 MAPL_engine/mongo_plugin.go | 11 ++++++++---
 docs/Mongo_Plugin.md        |  4 ++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 50fdb6f..405ea23 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -128,7 +128,7 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	if len(pipeline) == 0 {
 		q_all = bson.M{parentField: bson.M{"$elemMatch": q}}
 	} else { // the conditions are on one and the same entry of the added array
-		q_all = bson.M{fmt.Sprintf("addedField.%v", parentField): bson.M{"$elemMatch": q}}
+		q_all = bson.M{getAddedField(parentField): bson.M{"$elemMatch": q}}
 	}
 	return q_all, pipeline, nil
 }
@@ -142,6 +142,11 @@ func getParentField(base string, parentJsonpathAttribute string) (string, error)
 	return strings.TrimPrefix(parentField, "."), err
 }
 
+// getAddedField names the array of entries of the object at parentField. it has no dots so that it never overwrites the array of another object
+func getAddedField(parentField string) string {
+	return "addedField." + strings.Replace(parentField, ".", "/", -1)
+}
+
 // getAbsoluteField replaces the root of an absolute jsonpath ("$." or ".") with the base
 func getAbsoluteField(base string, attribute string) string {
 	newBase := ""
@@ -180,7 +185,7 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		//	return bson.M{}, []bson.M{}, fmt.Errorf("json VALUE is not supported")
 		//}
 		subField := strings.Replace(c.OriginalAttribute, "jsonpath:$VALUE", "", 1)
-		addedField := fmt.Sprintf("addedField.%v", parentString)
+		addedField := getAddedField(parentString)
 		field = "v" + subField
 
 		addFieldStep := bson.M{"$addFields": bson.M{addedField: bson.M{"$objectToArray": "$" + parentString}}}
@@ -198,7 +203,7 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		}
 
 		field0 := parentString
-		field1 := fmt.Sprintf("addedField.%v", field0)
+		field1 := getAddedField(field0)
 		field = "k"
 
 		addFieldStep := bson.M{"$addFields": bson.M{field1: bson.M{"$objectToArray": "$" + field0}}}
diff --git a/docs/Mongo_Plugin.md b/docs/Mongo_Plugin.md
index 26d2501..da706d8 100644
--- a/docs/Mongo_Plugin.md
+++ b/docs/Mongo_Plugin.md
@@ -79,8 +79,8 @@ Mongo query = ```{"$nor":[{"raw.spec.containers":{"$elemMatch":{"$nor":[{"volume
 Mongo **Aggregate** query = 
 ```
   [ 
-     {"$addFields":{"addedField.raw.metadata.labels":{"$objectToArray":"$raw.metadata.labels"}}},
-     {"$match":{"addedField.raw.metadata.labels":{"$elemMatch":{"v":{"$eq":"ABC"}}}}} 
+     {"$addFields":{"addedField.raw/metadata/labels":{"$objectToArray":"$raw.metadata.labels"}}},
+     {"$match":{"addedField.raw/metadata/labels":{"$elemMatch":{"v":{"$eq":"ABC"}}}}} 
    ]
 ```
 
-- 
2.43.0


From 2a44a42a74f2ab98277ef32d0cc8a3dca34d23eb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 20:08:51 +0000
Subject: [PATCH 35/42] fix: no Mongo query for deepscans in conditions or
 inside paths

---
 MAPL_engine/mongo_plugin.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 405ea23..87f2aeb 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -72,7 +72,7 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
 		inArrayCounter += 1
 	}
-	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
+	if strings.Contains(a.ParentJsonpathAttributeOriginal, "..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
 	parentField, err := getParentField(base, a.ParentJsonpathAttributeOriginal)
@@ -111,7 +111,7 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 		inArrayCounter += 1
 	}
 
-	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
+	if strings.Contains(a.ParentJsonpathAttributeOriginal, "..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
 	parentField, err := getParentField(base, a.ParentJsonpathAttributeOriginal)
@@ -170,6 +170,9 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 	if c.Attribute != "jsonpath" {
 		return bson.M{}, []bson.M{}, fmt.Errorf("attribute is not a jsonpath")
 	}
+	if strings.Contains(c.OriginalAttribute, "..") {
+		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
+	}
 
 	var field string
 	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$RELATIVE") {
-- 
2.43.0


From 4e973cd3315bf3cd021b1103439be73f436db47b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 20:09:10 +0000
Subject: [PATCH 36/42] fix: no Mongo query for absolute paths inside of ANY
 and ALL

---
 MAPL_engine/mongo_plugin.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 87f2aeb..8b297ad 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -69,6 +69,9 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 		}
 		return and.ToMongoQuery(base, parentString, inArrayCounter)
 	}
+	if inArrayCounter > 0 && isAbsolute(a.ParentJsonpathAttributeOriginal) {
+		return bson.M{}, []bson.M{}, fmt.Errorf("absolute jsonpath within ANY/ALL is not supported")
+	}
 	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
 		inArrayCounter += 1
 	}
@@ -107,6 +110,9 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 		return or.ToMongoQuery(base, parentString, inArrayCounter)
 	}
 
+	if inArrayCounter > 0 && isAbsolute(a.ParentJsonpathAttributeOriginal) {
+		return bson.M{}, []bson.M{}, fmt.Errorf("absolute jsonpath within ANY/ALL is not supported")
+	}
 	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
 		inArrayCounter += 1
 	}
@@ -147,6 +153,10 @@ func getAddedField(parentField string) string {
 	return "addedField." + strings.Replace(parentField, ".", "/", -1)
 }
 
+func isAbsolute(attribute string) bool {
+	return strings.HasPrefix(attribute, "jsonpath:$.") || strings.HasPrefix(attribute, "jsonpath:.")
+}
+
 // getAbsoluteField replaces the root of an absolute jsonpath ("$." or ".") with the base
 func getAbsoluteField(base string, attribute string) string {
 	newBase := ""
@@ -214,7 +224,10 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		initialSteps = append(initialSteps, addFieldStep)
 	}
 
-	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$.") || strings.HasPrefix(c.OriginalAttribute, "jsonpath:.") {
+	if isAbsolute(c.OriginalAttribute) {
+		if inArrayCounter > 0 {
+			return bson.M{}, []bson.M{}, fmt.Errorf("absolute jsonpath within ANY/ALL is not supported")
+		}
 		field = getAbsoluteField(base, c.OriginalAttribute)
 	}
 
-- 
2.43.0


From 8e765334cabff60d1312a4c41eab9d6d23987f30 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 20:09:32 +0000
Subject: [PATCH 37/42] fix: no Mongo query for conditions on whole elements
 and wildcard parents

---
 MAPL_engine/mongo_plugin.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 8b297ad..a983bac 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -144,6 +144,9 @@ func getParentField(base string, parentJsonpathAttribute string) (string, error)
 	parentField = strings.Replace(parentField, "jsonpath:$RELATIVE.", "", 1)
 	parentField = strings.Replace(parentField, "[:]", "", -1)
 	parentField = strings.Replace(parentField, "[*]", "", -1)
+	if strings.Contains(parentField, "$") || strings.Contains(parentField, "*") { // "$RELATIVE" and wildcards other than [*] are not fields
+		return "", fmt.Errorf("parentJsonpathAttribute is not supported [%v]", parentJsonpathAttribute)
+	}
 	parentField, err := removeQuotes(parentField)
 	return strings.TrimPrefix(parentField, "."), err
 }
@@ -185,6 +188,9 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 	}
 
 	var field string
+	if c.OriginalAttribute == "jsonpath:$RELATIVE" {
+		return bson.M{}, []bson.M{}, fmt.Errorf("condition on the whole sub-document is not supported")
+	}
 	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$RELATIVE") {
 		field = strings.Replace(c.OriginalAttribute, "jsonpath:$RELATIVE.", "", 1)
 	}
-- 
2.43.0


From eb463b92fcd1932b53ffdc5fff151428d372b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 20:10:44 +0000
Subject: [PATCH 38/42] fix: compare nan and inf as texts

---
 MAPL_engine/check.go               | 4 ++--
 MAPL_engine/mongo_plugin.go        | 3 +--
 MAPL_engine/rules_load.go          | 2 +-
 MAPL_engine/string_utils.go        | 9 +++++++++
 MAPL_engine/validate_conditions.go | 2 +-
 5 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index d871954..9237001 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -599,7 +599,7 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 	switch method {
 	case "GE", "GT", "LE", "LT", "EQ", "NEQ", "NE":
 		valueStringWithoutUnits, factor := convertStringWithUnits(valueToCompareString) // if the conversion to float doesn't work we still want to use the original string so we use a temporary one
-		valueToCompareFloat, err := strconv.ParseFloat(valueStringWithoutUnits, 64)
+		valueToCompareFloat, err := parseNumber(valueStringWithoutUnits)
 		valueToCompareFloat = valueToCompareFloat * factor
 		if err == nil && c.ValueFloat == nil {
 			err = errors.New("the value in the rule is not a number") // compare as strings
@@ -706,7 +706,7 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 		var valueToCompareFloat float64
 		if c.ValueInt != nil || c.ValueFloat != nil {
 			valueStringWithoutUnits, factor := convertStringWithUnits(valueToCompareString) // if the conversion to float doesn't work we still want to use the original string so we use a temporary one
-			valueToCompareFloat, err = strconv.ParseFloat(valueStringWithoutUnits, 64)
+			valueToCompareFloat, err = parseNumber(valueStringWithoutUnits)
 			if err != nil {
 				log.Println("can't parse jsonpath value [float]")
 				if method == "NEQ" {
diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index a983bac..bed1853 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -3,7 +3,6 @@ package MAPL_engine
 import (
 	"fmt"
 	"go.mongodb.org/mongo-driver/bson"
-	"strconv"
 	"strings"
 )
 
@@ -287,7 +286,7 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 }
 
 func isNumber(str string) (bool, float64) {
-	if s, err := strconv.ParseFloat(str, 64); err == nil {
+	if s, err := parseNumber(str); err == nil {
 		return true, s
 	}
 	return false, -1.0
diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index f73b724..c7b3bb0 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -349,7 +349,7 @@ func ConvertConditionStringToIntFloatRegex(condition *Condition) error { // TO-D
 	}
 
 	tempString, factor := convertStringWithUnits(condition.Value)
-	valFloat, err := strconv.ParseFloat(tempString, 64)
+	valFloat, err := parseNumber(tempString)
 	valFloat = valFloat * factor
 	if err == nil {
 		condition.ValueFloat = &valFloat
diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 91873f1..0487d27 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"math"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -161,6 +162,14 @@ func SliceHasPrefix(sl []string, v string) bool {
 	return false
 }
 
+func parseNumber(str string) (float64, error) {
+	num, err := strconv.ParseFloat(str, 64)
+	if err == nil && (math.IsNaN(num) || math.IsInf(num, 0)) { // words like "nan" and "inf"
+		return 0, fmt.Errorf("not a number [%v]", str)
+	}
+	return num, err
+}
+
 func convertStringWithUnits(inputString string) (string, float64) {
 	// see: https://en.wikipedia.org/wiki/Binary_prefix
 	// also: https://kubernetes.io/docs/concepts/configuration/manage-compute-resources-container/#meaning-of-memory
diff --git a/MAPL_engine/validate_conditions.go b/MAPL_engine/validate_conditions.go
index 3810756..7f88886 100755
--- a/MAPL_engine/validate_conditions.go
+++ b/MAPL_engine/validate_conditions.go
@@ -151,7 +151,7 @@ func convertAndValidateNumericalValues(condition *Condition) (bool, error) {
 
 	tempString, factor := convertStringWithUnits(condition.Value)
 	isNum := false
-	valFloat, err := strconv.ParseFloat(tempString, 64)
+	valFloat, err := parseNumber(tempString)
 	valFloat = valFloat * factor
 	if err == nil {
 		condition.ValueFloat = &valFloat
-- 
2.43.0


From 1a4abf958abe385e2405d5696b79776b6ce6ddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:03:58 +0000
Subject: [PATCH 39/42] fix: prepare the return paths of single conditions like
 those of ANY

---
 MAPL_engine/definitions_rule.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index dccce6e..749d9e0 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -148,8 +148,9 @@ func ConditionFromConditionNode(c ConditionNode) Condition {
 		if strings.HasPrefix(c.ReturnValueJsonpath[k], "jsonpath:$RELATIVE") {
 			relativeFlag = true
 		}
-		c_out.ReturnValueJsonpath[k] = strings.Replace(v, "jsonpath:$RELATIVE", "$", 1)
-		c_out.ReturnValueJsonpath[k] = strings.Replace(v, "jsonpath:$", "$", 1)
+		v = strings.Replace(v, "jsonpath:$RELATIVE", "$", 1)
+		v = strings.Replace(v, "jsonpath:$", "$", 1)
+		c_out.ReturnValueJsonpath[k] = normalizeJsonpath(v)
 
 		tempAtt := c_out.ReturnValueJsonpath[k]
 		p, err := jsonpath.Prepare(tempAtt)
-- 
2.43.0


From 17ad6768438d25c488f138ab52309b61e2c2b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:18:55 +0000
Subject: [PATCH 40/42] fix: do not encode or copy the flag of fields already
 converted to regular expressions

---
 MAPL_engine/definitions_rule.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index 749d9e0..f9b43f7 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -110,7 +110,7 @@ type Rule struct {
 	Hash string `yaml:"hash,omitempty" json:"hash,omitempty" bson:"hash" structs:"hash,omitempty"`
 
 	OperationRegex                    *regexp.Regexp `yaml:"operationRegex,omitempty" json:"operationRegex,omitempty" bson:"operationRegex,omitempty" structs:"operationRegex,omitempty"`
-	AlreadyConvertedFieldsToRegexFlag bool           `yaml:"-,omitempty" json:"-,omitempty" bson:"-,omitempty" structs:"-,omitempty"` // default is false
+	AlreadyConvertedFieldsToRegexFlag bool           `yaml:"-" json:"-" bson:"-" structs:"-"` // default is false
 
 	predefinedStringsAndLists PredefinedStringsAndLists
 	ruleAlreadyPrepared       bool
-- 
2.43.0


From 09538d7765545e75c1281e5306504f07ef36a2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 00:16:46 +0000
Subject: [PATCH 41/42] fix: keep the text of numbers of raw JSON objects in
 ANY, ALL and VALUE

The entries of an object were decoded and encoded again. Very large and very
small numbers came out with an exponent, which the path library cannot read,
so conditions on them and their returned values differed from those on the
decoded document.
---
 MAPL_engine/check.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 9237001..5a2199b 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -2,6 +2,7 @@
 package MAPL_engine
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -799,7 +800,7 @@ func getKeyValue(jsonRaw []byte, attribute string) ([]byte, error) {
 	//used only with byte array raw data. for interface raw data we use another method.
 	valueToCompareBytes := []byte{}
 	var z map[string]interface{}
-	err := json.Unmarshal(jsonRaw, &z)
+	err := unmarshalWithNumbersAsText(jsonRaw, &z)
 	if err != nil {
 		return []byte{}, err
 	}
@@ -1088,7 +1089,7 @@ func getArrayOfJsonsFromInterfaceArray(arrayData []byte) ([][]byte, error) {
 func getArrayOfJsonsFromMapStringInterface(arrayData []byte) ([][]byte, error) {
 	var arrayInterface map[string]interface{}
 	arrayJson := [][]byte{}
-	err := json.Unmarshal([]byte(arrayData), &arrayInterface)
+	err := unmarshalWithNumbersAsText(arrayData, &arrayInterface)
 	if err != nil {
 		return [][]byte{}, err
 	}
@@ -1103,3 +1104,10 @@ func getArrayOfJsonsFromMapStringInterface(arrayData []byte) ([][]byte, error) {
 	}
 	return arrayJson, nil
 }
+
+func unmarshalWithNumbersAsText(data []byte, v interface{}) error {
+	// when encoded again the numbers are as they were (and not with an exponent, which is not supported by jsonslice)
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	return decoder.Decode(v)
+}
-- 
2.43.0


From 7147bf5d6b4431178b57419bb7fbe91ee8781a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:21:07 +0000
Subject: [PATCH 42/42] fix: compare with the number of a value with units in
 Mongo queries of LT, LE, GT and GE

---
 MAPL_engine/mongo_plugin.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index bed1853..92fe465 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -249,6 +249,10 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 	} else {
 		valToUse = c.Value
 	}
+	orderValToUse := valToUse
+	if c.ValueFloat != nil { // also of a value with units
+		orderValToUse = *c.ValueFloat
+	}
 
 	q := bson.M{}
 
@@ -260,13 +264,13 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		q2 := bson.M{field: bson.M{"$exists": true}} // if the field doesn't exist we return false
 		q = bson.M{"$and": []bson.M{q1, q2}}
 	case "GT":
-		q = bson.M{field: bson.M{"$gt": valToUse}}
+		q = bson.M{field: bson.M{"$gt": orderValToUse}}
 	case "GE":
-		q = bson.M{field: bson.M{"$gte": valToUse}}
+		q = bson.M{field: bson.M{"$gte": orderValToUse}}
 	case "LT":
-		q = bson.M{field: bson.M{"$lt": valToUse}}
+		q = bson.M{field: bson.M{"$lt": orderValToUse}}
 	case "LE":
-		q = bson.M{field: bson.M{"$lte": valToUse}}
+		q = bson.M{field: bson.M{"$lte": orderValToUse}}
 	case "EX":
 		q = bson.M{field: bson.M{"$exists": true}}
 	case "NEX":
-- 
2.43.0

