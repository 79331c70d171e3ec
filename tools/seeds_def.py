# Planted bugs: edits (file, old, new), demonstration body, what is needed to see it.
SEEDS = []
CK='MAPL_engine/check.go'; CT='MAPL_engine/conditions_tree.go'; SU='MAPL_engine/string_utils.go'; RL='MAPL_engine/rules_load.go'
VC='MAPL_engine/validate_conditions.go'; DR='MAPL_engine/definitions_rule.go'; MP='MAPL_engine/mongo_plugin.go'; ML='MAPL_engine/messages_load.go'
CO='MAPL_engine/coverage.go'; PL='MAPL_engine/predefined_lists_load.go'; TO='MAPL_engine/tools.go'; RM='MAPL_engine/rule_mongo_plugin.go'
def seed(id, property, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

seed('c01-sticky-description','C01',[(CK,'''			ruleDescription = ruleDescriptions[i]
			relevantRuleIndex = i
''','''			if ruleDescriptions[i] != "" {
				ruleDescription = ruleDescriptions[i]
			}
			relevantRuleIndex = i
''')],'a described rule followed by a more severe applying rule without description',
'the reported description is not that of the winning rule','''
	r := rules(`{"ruleID": "1", `+anyParts+`, "decision": "allow", "metadata": {"description": "first"}}`, `{"ruleID": "2", `+anyParts+`, "decision": "block"}`)
	_, _, idx, _, _, desc, _ := E.Check(msg(), r)
	want("index", idx, 1)
	want("description", desc, "")
''')

seed('c02-same-id-skip','C02',[(CK,'''			results[in_i], checkExtraData[in_i] = CheckOneRule(message, &in_rule)
			if desc,''','''			if in_i > 0 && results[in_i-1] == BLOCK && in_rule.RuleID == rules.Rules[in_i-1].RuleID {
				continue // already blocked by the same rule
			}
			results[in_i], checkExtraData[in_i] = CheckOneRule(message, &in_rule)
			if desc,''')],'two neighbouring rules with the same id, the first one blocking',
'a rule that matches does not apply inside a list','''
	r := rules(`{"ruleID": "1", `+anyParts+`, "decision": "block"}`, `{"ruleID": "1", `+anyParts+`, "decision": "alert"}`)
	_, _, _, res, _, _, _ := E.Check(msg(), r)
	want("results", res, []int{E.BLOCK, E.ALERT})
''')

seed('c03-second-dollar','C03',[(SU,'''			str = strings.Replace(str, "$", "\\\\$", -1)
''','''			str = strings.Replace(str, "$", "\\\\$", 1)
''')],'a resource name with two dollar signs in one element',
'a literal dollar sign in a name pattern acts as a regular expression anchor','''
	r := rules(`{"ruleID": "1", "sender": {"senderName": "*", "senderType": "*"}, "receiver": {"receiverName": "*", "receiverType": "*"}, "protocol": "HTTP", "resource": {"resourceType": "path", "resourceName": "/a$b$c"}, "operation": "*", "decision": "block"}`)
	m := msg()
	m.RequestPath = "/a$b$c"
	want("decision", dec(m, r), E.BLOCK)
''')

seed('c04-network-address','C04',[(CK,'''				match_temp = expandedReceiver.CIDR.Contains(message.DestinationNetIp)
''','''				match_temp = expandedReceiver.CIDR.Contains(message.DestinationNetIp) && !expandedReceiver.CIDR.IP.Equal(message.DestinationNetIp)
''')],'a destination address equal to the network address of the range',
'the first address of a CIDR range does not match','''
	r := rules(`{"ruleID": "1", "sender": {"senderName": "*", "senderType": "*"}, "receiver": {"receiverName": "10.9.8.6/31", "receiverType": "subnet"}, "protocol": "*", "resource": {"resourceType": "*", "resourceName": "*"}, "operation": "*", "decision": "block"}`)
	m := msg()
	want("inside", dec(m, r), E.BLOCK)
	m.DestinationIp = "10.9.8.6"
	m.DestinationNetIp = net.ParseIP("10.9.8.6")
	want("network address", dec(m, r), E.BLOCK)
''')

seed('c05-upper-operation','C05',[(SU,'''		str_out = ConvertStringToRegex(str_in, "WithWildcards") // we allow automatic use of wildcards in Operation attribute
''','''		str_out = ConvertStringToRegex(strings.ToUpper(str_in), "WithWildcards") // we allow automatic use of wildcards in Operation attribute
''')],'an operation list with lower case letters',
'operations are not compared case-sensitively','''
	r := rules(`{"ruleID": "1", "sender": {"senderName": "*", "senderType": "*"}, "receiver": {"receiverName": "*", "receiverType": "*"}, "protocol": "*", "resource": {"resourceType": "*", "resourceName": "*"}, "operation": "list,watch", "decision": "block"}`)
	m := msg()
	m.RequestMethod = "watch"
	want("decision", dec(m, r), E.BLOCK)
''')

seed('c06-tcp-upper','C06',[(CK,'''	if rule.Protocol == "tcp" {
''','''	if strings.EqualFold(rule.Protocol, "tcp") && rule.Resource.ResourceType != "*" {
''')],'protocol TCP in upper case or protocol tcp with resource type *',
'the resource name is compared with the wrong message attribute','''
	r := rules(`{"ruleID": "1", "sender": {"senderName": "*", "senderType": "*"}, "receiver": {"receiverName": "*", "receiverType": "*"}, "protocol": "tcp", "resource": {"resourceType": "*", "resourceName": "8080"}, "operation": "*", "decision": "block"}`)
	m := msg()
	m.ContextProtocol, m.ContextType, m.RequestPath = "TCP", "port", ""
	want("decision", dec(m, r), E.BLOCK)
''')

seed('c20-shared-backing','C20',[(CO,'''	emptyVec := []string{}
''','''	emptyVec := make([]string, 0, len(messages.Messages))
''')],'two rules that cover different messages',
'the message lists of the rules share one backing array and overwrite each other','''
	r := rules(`{"ruleID": "1", "sender": {"senderName": "a", "senderType": "*"}, "receiver": {"receiverName": "*", "receiverType": "*"}, "protocol": "*", "resource": {"resourceType": "*", "resourceName": "*"}, "operation": "*", "decision": "block"}`,
		`{"ruleID": "2", "sender": {"senderName": "c", "senderType": "*"}, "receiver": {"receiverName": "*", "receiverType": "*"}, "protocol": "*", "resource": {"resourceType": "*", "resourceName": "*"}, "operation": "*", "decision": "allow"}`)
	m1, m2 := *msg(), *msg()
	m1.MessageID, m2.MessageID, m2.SourceService = "m1", "m2", "c"
	_, rc := E.Coverage(&E.Messages{Messages: []E.MessageAttributes{m1, m2}}, r)
	want("rule 1", rc["1"], []string{"m1"})
	want("rule 2", rc["2"], []string{"m2"})
''')

seed('c07-double-not','C07',[(CT,"""	for _, subNode := range v2 {
		subNode2, err := InterpretNode(subNode, "") // recursion!
		if err != nil {
			return nil, fmt.Errorf("can't parse subNode [%+v]: %v", subNode, err)
		}
""","""	for _, subNode := range v2 {
		subNode2, err := InterpretNode(subNode, "") // recursion!
		if err != nil {
			return nil, fmt.Errorf("can't parse subNode [%+v]: %v", subNode, err)
		}
		if inner, ok := subNode2.(*Not); ok && parentString == "NOT" { // no need for a node within a node of the same type
			subNode2 = inner.Node
		}
""")],'NOT directly inside the list form of NOT',
'double negation is read as a single one','''
	r := rules(ruleC(`{"NOT": [{"NOT": [{"attribute": "domain", "method": "EQ", "value": "d"}]}]}`, "block"))
	m := msg()
	m.Domain = "d"
	want("double negation", dec(m, r), E.BLOCK)
''')

seed('c08-missing-label','C08',[(CK,"""			if valueToCompareString2, ok2 := message.DestinationLabels[c.ValueReceiverLabelKey]; ok2 {
""","""			if valueToCompareString2, ok2 := message.DestinationLabels[c.ValueReceiverLabelKey]; ok2 || len(message.DestinationLabels) > 0 {
""")],'senderLabel compared by NEQ with a receiver label that the receiver lacks, the receiver having other labels',
'a comparison with a missing label is true','''
	r := rules(ruleC(`{"attribute": "senderLabel[x]", "method": "NEQ", "value": "receiverLabel[y]"}`, "block"))
	m := msg()
	m.SourceLabels, m.DestinationLabels = map[string]string{"x": "1"}, map[string]string{"z": "1"}
	want("missing label", dec(m, r), E.DEFAULT)
''')

seed('c08-cluster-fallback','C08',[(CK,"""			return message.DestinationCluster
""","""			if message.DestinationCluster == "" { // same cluster
				return message.SourceCluster
			}
			return message.DestinationCluster
""")],'a condition on the receiver cluster and a message with a sender cluster only',
'the receiver cluster condition looks at the sender','''
	r := rules(ruleC(`{"attribute": "$receiver.cluster", "method": "EQ", "value": "c1"}`, "block"))
	m := msg()
	m.SourceCluster = "c1"
	want("cluster", dec(m, r), E.DEFAULT)
''')

seed('c09-truncate','C09',[(CK,"""			result = compareFloatFunc(valueToCompareFloat, c.Method, c.ValueFloat)
		}
	case "RE", "NRE":
		result = compareRegexFunc(valueToCompareString, c.Method, c.ValueRegex)
	case "EX", "NEX":
		if len(valueToCompareString) == 0 {
			return method == "NEX" // just test the existence of the key
		} else {
			return method == "EX" // just test the existence of the key
		}
	default:
		log.Printf("method not supported: %v", method)
		return false
	}

	return result
}

func testJsonPathConditionOnInterface""","""			if c.ValueInt != nil {
				result = compareIntFunc(int64(valueToCompareFloat), c.Method, c.ValueInt)
			} else {
				result = compareFloatFunc(valueToCompareFloat, c.Method, c.ValueFloat)
			}
		}
	case "RE", "NRE":
		result = compareRegexFunc(valueToCompareString, c.Method, c.ValueRegex)
	case "EX", "NEX":
		if len(valueToCompareString) == 0 {
			return method == "NEX" // just test the existence of the key
		} else {
			return method == "EX" // just test the existence of the key
		}
	default:
		log.Printf("method not supported: %v", method)
		return false
	}

	return result
}

func testJsonPathConditionOnInterface""")],'a fractional value in the document and an integer in the rule, next to each other',
'fractions are cut before the comparison','''
	r := rules(ruleC(`{"attribute": "jsonpath:$.x", "method": "GT", "value": "5"}`, "block"))
	want("5.5 > 5", dec(docB(`{"x": 5.5}`), r), E.BLOCK)
''')

seed('c10-all-no-restore','C10',[(CT,"""		if !flag {

			message.RequestRawInterfaceRelative = originalRequestRawInterfaceRelative
			return false, []map[string]interface{}{}

		}
	}
	message.RequestRawInterfaceRelative""","""		if !flag {
			return false, []map[string]interface{}{}
		}
	}
	message.RequestRawInterfaceRelative""")],'ALL nested in ANY, next to another condition on the element, on a decoded document',
'after a failed ALL the following conditions look at the wrong sub-document','''
	r := rules(ruleC(`{"ANY": {"parentJsonpathAttribute": "jsonpath:$.a[:]", "OR": [{"ALL": {"parentJsonpathAttribute": "jsonpath:$RELATIVE.b[:]", "condition": {"attribute": "jsonpath:$RELATIVE.x", "method": "EQ", "value": "1"}}}, {"attribute": "jsonpath:$RELATIVE.y", "method": "EQ", "value": "1"}]}}`, "block"))
	want("nested", dec(docI(`{"a": [{"y": 1, "b": [{"x": 2}]}]}`), r), E.BLOCK)
''')

seed('c11-lower-neq','C11',[(CK,"""				if method == "NEQ" {
					return true
				}
""","""				if c.Method == "NEQ" {
					return true
				}
""")],'lower case neq (or NE) with a number in the rule and a text in the decoded document',
'the decoded document gives another answer than the raw bytes','''
	r := rules(ruleC(`{"attribute": "jsonpath:$.x", "method": "neq", "value": "5"}`, "block"))
	want("bytes", dec(docB(`{"x": "abc"}`), r), E.BLOCK)
	want("decoded", dec(docI(`{"x": "abc"}`), r), E.BLOCK)
''')

seed('c12-equal-neighbours','C12',[(CT,"""				extraDataTemp := getExtraDataFromByteArray(a.ReturnValueJsonpath, a.ReturnValuePreparedJsonpathQueryRelativeFlag, message)
				extraData = append(extraData, extraDataTemp)
""","""				extraDataTemp := getExtraDataFromByteArray(a.ReturnValueJsonpath, a.ReturnValuePreparedJsonpathQueryRelativeFlag, message)
				if len(extraData) == 0 || fmt.Sprint(extraData[len(extraData)-1]) != fmt.Sprint(extraDataTemp) {
					extraData = append(extraData, extraDataTemp)
				}
""")],'two neighbouring satisfying elements whose values print the same (number and text)',
'a returned value is dropped','''
	r := rules(ruleC(`{"ANY": {"parentJsonpathAttribute": "jsonpath:$.a[:]", "returnValueJsonpath": {"n": "jsonpath:$RELATIVE.n"}, "condition": {"attribute": "jsonpath:$RELATIVE.x", "method": "EQ", "value": "1"}}}`, "block"))
	_, _, _, _, _, _, extra := E.Check(docB(`{"a": [{"x": 1, "n": 5}, {"x": 1, "n": "5"}]}`), r)
	want("values", len(extra[0]), 2)
''')

seed('c15-lower-name','C15',[(RL,'''		":" + rule.Receiver.ReceiverName + ">-"''','''		":" + strings.ToLower(rule.Receiver.ReceiverName) + ">-"''')],'two rules whose receiver names differ in letter case only',
'different rules get the same hash','''
	mk := func(n string) E.Rule {
		return rules(`{"ruleID": "1", "sender": {"senderName": "*", "senderType": "*"}, "receiver": {"receiverName": "`+n+`", "receiverType": "*"}, "protocol": "*", "resource": {"resourceType": "*", "resourceName": "*"}, "operation": "*", "decision": "block"}`).Rules[0]
	}
	if E.RuleMD5Hash(mk("abc")) == E.RuleMD5Hash(mk("aBc")) {
		bad("same hash")
	}
''')

seed('c16-receiver-label','C16',[(VC,"""		i2 := strings.Index(condition.Attribute, "]")
		if i2 < len(condition.Attribute)-1 {
			return false, fmt.Errorf("receiverLabel has a wrong format")
		}
		if slice.ContainsString(numberMethodSlice, condition.Method) {
			return false, fmt.Errorf("numerical method with receiverLabel")
		}
""","""		i2 := strings.Index(condition.Attribute, "]")
		if i2 < len(condition.Attribute)-1 {
			return false, fmt.Errorf("receiverLabel has a wrong format")
		}
		if slice.ContainsString(numberMethodSlice, condition.Method) && strings.HasPrefix(condition.Value, "receiverLabel[") {
			return false, fmt.Errorf("numerical method with receiverLabel")
		}
""")],'a numerical method on a receiver label',
'an invalid rule is accepted','''
	_, err := E.YamlReadRulesFromString(`{"rules": [` + ruleC(`{"attribute": "receiverLabel[x]", "method": "GE", "value": "5"}`, "block") + `]}`)
	if err == nil {
		bad("accepted")
	}
''')

seed('c17-pattern-memo','C17',[(SU,"""func ConvertStringToRegex(str_in, method string) string {

""","""var regexStrings sync.Map // patterns converted so far

func ConvertStringToRegex(str_in, method string) (str_result string) {

	if known, ok := regexStrings.Load(str_in); ok {
		return known.(string)
	}
	defer func() { regexStrings.Store(str_in, str_result) }()

"""),(SU,"""	"strings"
)
""","""	"strings"
	"sync"
)
""")],'the same text with a comma first as the resource name of one rule and then as the value of an EQ condition of another one (or the other way round)',
'the answer for a rule depends on which rules were prepared before','''
	r := rules(`{"ruleID": "1", "sender": {"senderName": "*", "senderType": "*"}, "receiver": {"receiverName": "*", "receiverType": "*"}, "protocol": "HTTP", "resource": {"resourceType": "path", "resourceName": "p,q"}, "operation": "*", "decision": "allow"}`, ruleC(`{"attribute": "domain", "method": "EQ", "value": "p,q"}`, "block"))
	m := msg()
	m.Domain = "q"
	want("after the other rule", dec(m, r), E.DEFAULT)
''')

seed('c18-nor-and','C18',[(MP,"""	q_not := bson.M{"$nor": []bson.M{q}} // to avoid "unknown top level operator: $not" we use $nor with a single condition

""","""	q_not := bson.M{"$nor": []bson.M{q}} // to avoid "unknown top level operator: $not" we use $nor with a single condition
	if conditions, ok := q["$and"].([]bson.M); ok && len(q) == 1 {
		q_not = bson.M{"$nor": conditions}
	}

""")],'NOT over AND where only some of the conditions hold',
'the query misses documents that the rule accepts','''
	r := rules(ruleC(`{"NOT": {"AND": [{"attribute": "jsonpath:$.x", "method": "EQ", "value": "1"}, {"attribute": "jsonpath:$.y", "method": "EQ", "value": "1"}]}}`, "block"))
	q, err := r.Rules[0].ToMongoQuery("")
	want("query", err, nil)
	b, _ := json.Marshal(q.Query)
	var n struct{ Nor []json.RawMessage `json:"$nor"` }
	want("json", json.Unmarshal(b, &n), nil)
	if len(n.Nor) == 2 {
		bad("the document with x=1 and y=2 satisfies the rule but not the query %s", b)
	}
''')

seed('c18-nre-missing','C18',[(MP,"""		q1 := bson.M{field: bson.M{"$not": bson.M{"$regex": c.Value}}}
		q2 := bson.M{field: bson.M{"$exists": true}}
		q = bson.M{"$and": []bson.M{q1, q2}}
""","""		q = bson.M{field: bson.M{"$not": bson.M{"$regex": c.Value}}}
""")],'NRE on a field that the document lacks',
'the query selects documents that the rule rejects','''
	r := rules(ruleC(`{"attribute": "jsonpath:$.x", "method": "NRE", "value": "a"}`, "block"))
	want("rule", dec(docB(`{"y": 1}`), r), E.DEFAULT)
	q, err := r.Rules[0].ToMongoQuery("")
	want("query", err, nil)
	b, _ := json.Marshal(q.Query)
	if !strings.Contains(string(b), "exists") && !strings.Contains(string(b), "null") {
		bad("the document without x satisfies the query %s", b)
	}
''')

seed('c19-no-source-ip','C19',[(ML,"""	for i, _ := range messages.Messages {
		AddNetIpToMessage(&messages.Messages[i])
	}
""","""	for i, _ := range messages.Messages {
		if messages.Messages[i].SourceIp == "" {
			continue
		}
		AddNetIpToMessage(&messages.Messages[i])
	}
""")],'a message with a destination address and no source address',
'the destination address is not derived, so subnet receivers do not match','''
	ms, err := E.YamlReadMessagesFromString("messages:\\n- message_id: \\"1\\"\\n  receiver_ip: 10.9.8.7\\n  request_time: 2018-07-29T14:30:00Z\\n")
	want("load", err, nil)
	want("address", ms.Messages[0].DestinationNetIp.String(), "10.9.8.7")
''')

seed('c21-exbi','C21',[(SU,"""math.Pow(1024, 5), math.Pow(1024, 6), 1e3, 1e6""","""math.Pow(1024, 5), math.Pow(1024, 5), 1e3, 1e6""")],'a value with the suffix Ei compared with a value in another unit',
'Ei is scaled as Pi','''
	r := rules(ruleC(`{"attribute": "jsonpath:$.x", "method": "EQ", "value": "1024Pi"}`, "block"))
	want("1Ei == 1024Pi", dec(docB(`{"x": "1Ei"}`), r), E.BLOCK)
''')

seed('c21-double-suffix','C21',[(SU,"""		flag1 := strings.HasSuffix(inputString, unit)
		flag2 := strings.Count(inputString, unit) == 1

		if flag1 && flag2 {
			outputString := strings.Replace(inputString, unit, "", -1)
""","""		flag1 := strings.HasSuffix(inputString, unit)

		if flag1 {
			outputString := strings.Replace(inputString, unit, "", -1)
""")],'a text that ends in a suffix that it contains twice',
'a text that is not a number with a unit is compared as a number','''
	r := rules(ruleC(`{"attribute": "jsonpath:$.x", "method": "EQ", "value": "5"}`, "block"))
	want("5%% is not 5", dec(docB(`{"x": "500%%"}`), r), E.DEFAULT)
''')

seed('c23-shared-prepare','C23',[(CK,"""			results[in_i], checkExtraData[in_i] = CheckOneRule(message, &in_rule)
			if desc, ok""","""			results[in_i], checkExtraData[in_i] = CheckOneRule(message, &rules.Rules[in_i]) // no need to prepare the rule again
			if desc, ok""")],'two goroutines that check messages with the same rules, which were not prepared before',
'the goroutines prepare the shared rule at the same time','''
	for i := 0; i < 50; i++ {
		r := rules(ruleC(`{"attribute": "jsonpath:$.x", "method": "IN", "value": "a,b"}`, "block"))
		var wg sync.WaitGroup
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if d := dec(docB(`{"x": "b"}`), r); d != E.BLOCK {
					bad("decision %v", d)
				}
			}()
		}
		wg.Wait()
	}
''',race=True)

seed('c23-scratch-message','C23',[(CK,"""	attributeSender := getAttribute("$sender", c.AttributeSenderObjectAttribute, *message)

	if c.ValueIsReceiverObject {
		valReceiver := getAttribute("$receiver", c.ValueReceiverObject, *message)
""","""	scratchMessage = *message
	attributeSender := getAttribute("$sender", c.AttributeSenderObjectAttribute, scratchMessage)

	if c.ValueIsReceiverObject {
		valReceiver := getAttribute("$receiver", c.ValueReceiverObject, scratchMessage)
"""),(CK,"""func testSenderAttributeCondition(""","""var scratchMessage MessageAttributes // avoids copying large messages twice

func testSenderAttributeCondition(""")],'two goroutines that evaluate $sender conditions on different messages',
'one goroutine sees the attributes of the message of the other one','''
	r := rules(ruleC(`{"attribute": "$sender.namespace", "method": "EQ", "value": "$receiver.namespace"}`, "block"))
	var wg sync.WaitGroup
	for j := 0; j < 4; j++ {
		wg.Add(1)
		go func(ns string) {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				m := msg()
				m.SourceNamespace, m.DestinationNamespace = ns, ns
				if d := dec(m, r); d != E.BLOCK {
					bad("decision %v", d)
				}
			}
		}(fmt.Sprint("n", j))
	}
	wg.Wait()
''',race=True)

seed('c24-open-label','C24',[(VC,"""		i2 := strings.Index(condition.Value, "]")
		if i2 < len(condition.Value)-1 {
			return false, fmt.Errorf("value receiverLabel has a wrong format")
		}
""","""		i2 := strings.Index(condition.Value, "]")
		if i2 >= 0 && i2 < len(condition.Value)-1 {
			return false, fmt.Errorf("value receiverLabel has a wrong format")
		}
""")],'a receiverLabel value without the closing bracket',
'checking the accepted rule crashes','''
	r, err := E.YamlReadRulesFromString(`{"rules": [` + ruleC(`{"attribute": "senderLabel[x]", "method": "EQ", "value": "receiverLabel[y"}`, "block") + `]}`)
	if err == nil {
		m := msg()
		m.SourceLabels = map[string]string{"x": "1"}
		dec(m, &r)
	}
''')

seed('c24-no-relative','C24',[(CK,"""		if (*message).RequestRawInterfaceRelative == nil {
			return false // By definition
		}
""","""		if (*message).RequestRawInterfaceRelative == nil && c.AttributeJsonpathQuery != "$" {
			return false // By definition
		}
""")],'a condition on $RELATIVE itself outside of ANY and ALL, on a decoded document',
'checking crashes','''
	r := rules(ruleC(`{"attribute": "jsonpath:$RELATIVE", "method": "EX", "value": ""}`, "block"))
	want("outside", dec(docI(`{"x": 1}`), r), E.DEFAULT)
''')

seed('c01-applied-list','C01',[(CK,"""		if results[i] > DEFAULT {
			appliedRulesIndices = append(appliedRulesIndices, i)
		}
		if results[i] > max_decision {
""","""		if results[i] > DEFAULT && results[i] >= max_decision {
			appliedRulesIndices = append(appliedRulesIndices, i)
		}
		if results[i] > max_decision {
""")],'a severe rule followed by a milder rule that also applies',
'the list of applying rules is not complete','''
	r := rules(`{"ruleID": "1", `+anyParts+`, "decision": "block"}`, `{"ruleID": "2", `+anyParts+`, "decision": "allow"}`)
	_, _, _, _, applied, _, _ := E.Check(msg(), r)
	want("applied", applied, []int{0, 1})
''')

seed('c02-default-type','C02',[(CK,"""		default:
			log.Println("type not supported")
			return false
		}
		if match_temp == true {""","""		default:
			log.Println("type not supported")
			match_temp = expandedSender.Regexp.Match([]byte(message.SourceService))
		}
		if match_temp == true {""")],'a rule whose sender type is not one of the supported ones',
'a rule with an unknown sender type applies','''
	r := rules(`{"ruleID": "1", "sender": {"senderName": "a", "senderType": "hostname"}, "receiver": {"receiverName": "*", "receiverType": "*"}, "protocol": "*", "resource": {"resourceType": "*", "resourceName": "*"}, "operation": "*", "decision": "block"}`)
	want("unknown type", dec(msg(), r), E.DEFAULT)
''')

seed('c03-lower-host','C03',[(CK,"""			match_temp = expandedReceiver.Regexp.Match([]byte(message.RequestHost)) // supports wildcards
""","""			match_temp = expandedReceiver.Regexp.Match([]byte(strings.ToLower(message.RequestHost))) // supports wildcards
""")],'a host name with capital letters',
'host names are not compared case-sensitively','''
	r := rules(`{"ruleID": "1", "sender": {"senderName": "*", "senderType": "*"}, "receiver": {"receiverName": "h*", "receiverType": "hostname"}, "protocol": "*", "resource": {"resourceType": "*", "resourceName": "*"}, "operation": "*", "decision": "block"}`)
	m := msg()
	m.RequestHost = "Ha"
	want("host", dec(m, r), E.DEFAULT)
''')

seed('c20-same-decision','C20',[(CO,"""		if v != DEFAULT {
			nonDefaultIndices""","""		if v != DEFAULT && (i == 0 || v != vec[i-1]) {
			nonDefaultIndices""")],'two neighbouring rules with the same decision that apply to one message',
'the decisions of the covering rules do not line up with their ids','''
	r := rules(`{"ruleID": "1", `+anyParts+`, "decision": "block"}`, `{"ruleID": "2", `+anyParts+`, "decision": "block"}`)
	m := *msg()
	m.MessageID = "m"
	mc, _ := E.Coverage(&E.Messages{Messages: []E.MessageAttributes{m}}, r)
	want("decisions", len(mc["m"].DecisionsOfCoveringRules), 2)
''')

seed('c13-keep-lists','C13',[(RL,'''	rule.ruleAlreadyPrepared = false

	var ruleCopy Rule
''','''	if rule.ruleAlreadyPrepared && len(stringsAndlists.PredefinedLists) == 0 { // nothing to replace
		return nil
	}
	rule.ruleAlreadyPrepared = false

	var ruleCopy Rule
''')],'definitions set twice on one rule, the second time with strings only',
'the rule keeps the first definitions','''
	a, err := E.YamlReadStringListsFromString(`{"predefinedStrings": {"n": "a"}, "predefinedLists": {"l": ["x"]}}`)
	want("a", err, nil)
	b, err := E.YamlReadStringListsFromString(`{"predefinedStrings": {"n": "c"}}`)
	want("b", err, nil)
	r := rules(`{"ruleID": "1", "sender": {"senderName": "#n", "senderType": "*"}, "receiver": {"receiverName": "*", "receiverType": "*"}, "protocol": "*", "resource": {"resourceType": "*", "resourceName": "*"}, "operation": "*", "decision": "block"}`)
	want("set a", r.Rules[0].SetPredefinedStringsAndLists(a), nil)
	want("with a", dec(msg(), r), E.BLOCK)
	want("set b", r.Rules[0].SetPredefinedStringsAndLists(b), nil)
	want("with b", dec(msg(), r), E.DEFAULT)
''')

seed('c14-prepared-value','C14',[(DR,'''	valueString := c.Value
	if len(c.OriginalValue) > 0 {
		valueString = c.OriginalValue
	}
	valueString''','''	valueString := c.Value
	if c.OriginalMethod != c.Method && len(c.OriginalValue) > 0 { // only IN and NIN rewrite the value
		valueString = c.OriginalValue
	}
	valueString''')],'a comparison of sender and receiver attributes written as JSON after the rule was prepared for checking',
'the prepared rule is written without the name of the receiver attribute','''
	r := rules(ruleC(`{"attribute": "$sender.namespace", "method": "EQ", "value": "$receiver.namespace"}`, "block"))
	want("prepare", r.Rules[0].SetPredefinedStringsAndLists(E.PredefinedStringsAndLists{}), nil)
	b, err := json.Marshal(r.Rules[0].GetPreparedRule())
	want("marshal", err, nil)
	var back E.Rule
	want("unmarshal", json.Unmarshal(b, &back), nil)
	m := msg()
	m.SourceNamespace, m.DestinationNamespace = "n", "n"
	d, _ := back.Check(m)
	want("after", d, E.BLOCK)
''')

seed('c16-inner-prefix','C16',[(VC,'''		if strings.Index(condition.Attribute, att) == 0 {
			flagAtt = true
''','''		if strings.Contains(condition.Attribute, att) {
			flagAtt = true
''')],'an attribute that has a supported prefix in the middle',
'an invalid rule is accepted','''
	_, err := E.YamlReadRulesFromString(`{"rules": [` + ruleC(`{"attribute": "the jsonpath:$.a", "method": "EQ", "value": "5"}`, "block") + `]}`)
	if err == nil {
		bad("accepted")
	}
''')

seed('c22-return-capital','C22',[(DR,'''		case "returnValueJsonpath", "ReturnValueJsonpath":
''','''		case "returnValueJsonpath":
''')],'the capitalised spelling ReturnValueJsonpath in a condition',
'the condition no longer returns the values','''
	r := rules(ruleC(`{"Attribute": "jsonpath:$.x", "Method": "EQ", "Value": "1", "ReturnValueJsonpath": {"y": "jsonpath:$.y"}}`, "block"))
	_, _, _, _, _, _, extra := E.Check(docB(`{"x": 1, "y": 2}`), r)
	want("values", len(extra[0]), 1)
''')

seed('c22-skip-malformed','C22',[(CT,'''		subNode2, err := InterpretNode(subNode, "") // recursion!
		if err != nil {
			return nil, fmt.Errorf("can't parse subNode [%+v]: %v", subNode, err)
		}
''','''		subNode2, err := InterpretNode(subNode, "") // recursion!
		if err != nil && len(nodesOf(nodes)) > 0 {
			continue // keep the ones that can be parsed
		}
		if err != nil {
			return nil, fmt.Errorf("can't parse subNode [%+v]: %v", subNode, err)
		}
'''),(CT,'''func getNodeByParentString(''','''func nodesOf(node Node) []Node {
	switch n := node.(type) {
	case *And:
		return n.Nodes
	case *Or:
		return n.Nodes
	}
	return nil
}

func getNodeByParentString(''')],'a malformed condition after a well-formed one in an AND or OR list',
'a malformed rule is accepted and part of its conditions ignored','''
	_, err := E.YamlReadRulesFromString(`{"rules": [` + ruleC(`{"AND": [{"attribute": "domain", "method": "EQ", "value": "d"}, {"attribute": "domain", "method": "EQQ", "value": "e"}]}`, "block") + `]}`)
	if err == nil {
		bad("accepted")
	}
''')

seed('c02-no-method','C02',[(CK,'''	if conditionsResult == false {
		return''','''	if conditionsResult == false && message.RequestMethod != "" {
		return''')],'a message without a request method and a condition that does not hold',
'a rule applies although its conditions do not hold','''
	r := rules(ruleC(`{"attribute": "domain", "method": "EQ", "value": "d"}`, "block"))
	m := msg()
	m.RequestMethod = ""
	want("decision", dec(m, r), E.DEFAULT)
''')

seed('c08-label-slash','C08',[(RL,'''		condition.AttributeReceiverLabelKey = condition.Attribute[i1:i2]
''','''		condition.AttributeReceiverLabelKey = condition.Attribute[i1:i2]
		if i3 := strings.Index(condition.AttributeReceiverLabelKey, "/"); i3 > 0 { // the name follows the prefix
			condition.AttributeReceiverLabelKey = condition.AttributeReceiverLabelKey[i3+1:]
		}
''')],'a receiver label whose key has a prefix, as in app.kubernetes.io/name',
'the condition reads another label','''
	r := rules(ruleC(`{"attribute": "receiverLabel[app.kubernetes.io/name]", "method": "EQ", "value": "x"}`, "block"))
	m := msg()
	m.DestinationLabels = map[string]string{"app.kubernetes.io/name": "x", "name": "y"}
	want("decision", dec(m, r), E.BLOCK)
''')

seed('c12-wide-or','C12',[(CT,'''		if flag {
			for _, e := range extraData {''','''		if flag || len(o.Nodes) > 2 {
			for _, e := range extraData {''')],'an OR of three or more conditions one of which fails and has records',
'values of conditions that do not hold are returned','''
	any := func(v string) string {
		return `{"ANY": {"parentJsonpathAttribute": "jsonpath:$.l[:]", "returnValueJsonpath": {"n": "jsonpath:$RELATIVE.n"}, "condition": {"AND": [{"attribute": "jsonpath:$RELATIVE.v", "method": "EQ", "value": "` + v + `"}, {"NOT": {"attribute": "jsonpath:$RELATIVE.v", "method": "EQ", "value": "9"}}]}}}`
	}
	and := `{"AND": [` + any("1") + `, {"attribute": "domain", "method": "EQ", "value": "none"}]}`
	not := `{"AND": [` + any("1") + `, {"NOT": ` + any("1") + `}]}`
	for _, c := range []string{and, not} {
		r := rules(ruleC(`{"OR": [`+c+`, `+any("2")+`, `+any("3")+`]}`, "block"))
		_, _, _, _, _, _, extra := E.Check(docB(`{"l": [{"v": 1, "n": "a"}, {"v": 2, "n": "b"}]}`), r)
		want("records", len(extra[0]), 1)
	}
''')

seed('c13-empty-definition','C13',[(RL,'''		newValue, ok := isReplaceableString(c.Value, stringsAndlists)
		if ok {''','''		newValue, ok := isReplaceableString(c.Value, stringsAndlists)
		if ok && newValue != "" {''')],'a predefined string that is defined as the empty string',
'a reference to it in a condition is compared as it is written','''
	r := rules(ruleC(`{"attribute": "domain", "method": "EQ", "value": "#none"}`, "block"))
	want("prepare", r.Rules[0].SetPredefinedStringsAndLists(E.PredefinedStringsAndLists{PredefinedStrings: map[string]string{"none": ""}}), nil)
	want("decision", dec(msg(), r), E.BLOCK)
''')

seed('c15-long-value','C15',[(DR,'''	return fmt.Sprintf("<%v-%v-%v>", stringAttribute, stringMethod, stringValue)''','''	if len(stringValue) > 128 {
		stringValue = stringValue[:128]
	}
	return fmt.Sprintf("<%v-%v-%v>", stringAttribute, stringMethod, stringValue)''')],'two rules whose condition values have the same first 128 characters',
'rules with different conditions have the same hash','''
	v := strings.Repeat("a,", 80)
	r := rules(ruleC(`{"attribute": "domain", "method": "IN", "value": "`+v+`x"}`, "block"), ruleC(`{"attribute": "domain", "method": "IN", "value": "`+v+`y"}`, "block"))
	if E.RuleMD5Hash(r.Rules[0]) == E.RuleMD5Hash(r.Rules[1]) {
		bad("the same hash")
	}
''')

seed('c19-previous-ip','C19',[(ML,'''		AddNetIpToMessage(&messages.Messages[i])
''','''		if i > 0 && messages.Messages[i].DestinationIp == messages.Messages[i-1].DestinationIp && messages.Messages[i].SourceService == messages.Messages[i-1].SourceService { // already parsed
			messages.Messages[i].SourceNetIp = messages.Messages[i-1].SourceNetIp
			messages.Messages[i].DestinationNetIp = messages.Messages[i-1].DestinationNetIp
			continue
		}
		AddNetIpToMessage(&messages.Messages[i])
''')],'two neighbouring messages of one service to one destination from different addresses',
'the second message is checked with the source address of the first','''
	ms, err := E.YamlReadMessagesFromString("messages:\\n - {message_id: 1, sender_service: s, sender_ip: 10.1.2.3, receiver_ip: 10.0.0.1, request_time: '2018-07-29T14:30:00-07:00'}\\n - {message_id: 2, sender_service: s, sender_ip: 10.1.2.4, receiver_ip: 10.0.0.1, request_time: '2018-07-29T14:30:00-07:00'}\\n")
	want("load", err, nil)
	want("address", ms.Messages[1].SourceNetIp.String(), "10.1.2.4")
''')

seed('c22-misspelled-key','C22',[(CT,'''		case "returnValueJsonpath":
			returnValueJsonpath := map''','''		case "returnValueJsonpaths", "Condition":
			continue
		case "returnValueJsonpath":
			returnValueJsonpath := map''')],'a misspelled key in ANY or ALL',
'a malformed rule is accepted and part of it ignored','''
	_, err := E.YamlReadRulesFromString(`{"rules": [` + ruleC(`{"ANY": {"parentJsonpathAttribute": "jsonpath:$.l[:]", "returnValueJsonpaths": {"n": "jsonpath:$RELATIVE.n"}, "condition": {"attribute": "jsonpath:$RELATIVE.v", "method": "EQ", "value": "1"}}}`, "block") + `]}`)
	if err == nil {
		bad("accepted")
	}
''')

seed('c21-negative-milli','C21',[(SU,'''	factorVec := []float64{''','''	if strings.HasPrefix(inputString, "-") && strings.HasSuffix(inputString, "m") {
		return strings.TrimSuffix(inputString, "m"), 1e-6
	}
	factorVec := []float64{''')],'a negative quantity with the suffix m',
'quantities are compared with a wrong scale','''
	r := rules(ruleC(`{"attribute": "jsonpath:$.x", "method": "LT", "value": "-1"}`, "block"))
	want("decision", dec(docB(`{"x": "-5000m"}`), r), E.BLOCK)
''')

seed('c01-first-line','C01',[(CK,'''	descisionString = DecisionNames[decision]''','''	if i := strings.Index(ruleDescription, "\\n"); i > 0 { // one line for the report
		ruleDescription = ruleDescription[:i]
	}
	descisionString = DecisionNames[decision]''')],'a winning rule whose description has more than one line',
'the reported description is not the description of the rule','''
	r := rules(ruleC(`{"attribute": "domain", "method": "EQ", "value": "d"}`, "block"))
	r.Rules[0].Metadata = map[string]string{"description": "first\\nsecond"}
	m := msg()
	m.Domain = "d"
	_, _, _, _, _, desc, _ := E.Check(m, r)
	want("description", desc, "first\\nsecond")
''')

seed('c03-port-range','C03',[(CK,'''		match = rule.Resource.ResourceNameRegex.Match([]byte(message.DestinationPort))
''','''		match = rule.Resource.ResourceNameRegex.Match([]byte(message.DestinationPort))
		if from, to := 0, 0; !match {
			if n, _ := fmt.Sscanf(rule.Resource.ResourceName, "%d-%d", &from, &to); n == 2 {
				port, err := strconv.Atoi(message.DestinationPort)
				match = err == nil && port >= from && port <= to
			}
		}
''')],'a tcp rule whose port pattern is two numbers with a dash between them',
'the pattern matches ports that are not equal to it','''
	r := rules(`{"ruleID": "1", "sender": {"senderName": "*", "senderType": "*"}, "receiver": {"receiverName": "*", "receiverType": "*"}, "protocol": "tcp", "resource": {"resourceType": "port", "resourceName": "80-90"}, "operation": "*", "decision": "block"}`)
	m := msg()
	m.DestinationPort = "85"
	want("decision", dec(m, r), E.DEFAULT)
	m.DestinationPort = "80-90"
	want("decision", dec(m, r), E.BLOCK)
''')

seed('c12-single-list','C12',[(CK,'''		err := json.Unmarshal(extraDataBytes, &tempInterface)
''','''		err := json.Unmarshal(extraDataBytes, &tempInterface)
		if list, ok := tempInterface.([]interface{}); ok && len(list) == 1 { // a single match
			tempInterface = list[0]
		}
''')],'a message with raw bytes and a returned path that leads to a list of one element',
'the element is returned instead of the list','''
	r := rules(ruleC(`{"ANY": {"parentJsonpathAttribute": "jsonpath:$.l[:]", "returnValueJsonpath": {"n": "jsonpath:$RELATIVE.n"}, "condition": {"attribute": "jsonpath:$RELATIVE.v", "method": "EQ", "value": "1"}}}`, "block"))
	_, _, _, _, _, _, extra := E.Check(docB(`{"l": [{"v": 1, "n": ["a"]}]}`), r)
	want("records", fmt.Sprint(extra[0]), "[map[n:[a]]]")
''')

seed('c13-chained-string','C13',[(RL,'''		val, ok := stringsAndlists.PredefinedStrings[x]
''','''		val, ok := stringsAndlists.PredefinedStrings[x]
		if next, ok2 := stringsAndlists.PredefinedStrings[strings.TrimPrefix(val, "#")]; ok && ok2 && strings.HasPrefix(val, "#") {
			val = next
		}
''')],'a predefined string whose text is # and the name of another predefined string',
'a reference to it means the other string','''
	r := rules(ruleC(`{"attribute": "domain", "method": "EQ", "value": "#a"}`, "block"))
	want("prepare", r.Rules[0].SetPredefinedStringsAndLists(E.PredefinedStringsAndLists{PredefinedStrings: map[string]string{"a": "#b", "b": "x"}}), nil)
	m := msg()
	m.Domain = "x"
	want("decision", dec(m, r), E.DEFAULT)
	m.Domain = "#b"
	want("decision", dec(m, r), E.BLOCK)
''')

seed('c17-query-normalised','C17',[(RM,'''	if len(added_pipeline) == 0 {
''','''	if c, ok := rule.preparedRule.Conditions.ConditionsTree.(*Condition); ok && c.Method == "NEX" {
		c.Method = "NEQ" // the value is not used
	}
	if len(added_pipeline) == 0 {
''')],'a rule whose only condition is NEX, checked after it was translated to a Mongo query',
'the translation changes the later decisions of the rule','''
	r := rules(ruleC(`{"attribute": "jsonpath:$.x", "method": "NEX", "value": ""}`, "block"))
	want("before", dec(docB(`{"y": 1}`), r), E.BLOCK)
	_, err := r.Rules[0].ToMongoQuery("raw")
	want("query", err, nil)
	want("after", dec(docB(`{"y": 1}`), r), E.BLOCK)
''')

seed('c03-covered-element','C03',[(SU,'''		var e ExpandedSenderReceiver
		e.Name = str
''','''		var e ExpandedSenderReceiver
		e.Name = str
		if k := len(output); k > 0 {
			if j := strings.Index(output[k-1].Name, "*"); j > 0 && strings.HasPrefix(str, output[k-1].Name[:j]) {
				continue // the element before covers it
			}
		}
''')],'a list of names in which an element with a wildcard in the middle comes before one with the same beginning',
'the second element is ignored','''
	r := rules(`{"ruleID": "1", "sender": {"senderName": "web*.prod,web1.test", "senderType": "workload"}, "receiver": {"receiverName": "*", "receiverType": "*"}, "protocol": "*", "resource": {"resourceType": "*", "resourceName": "*"}, "operation": "*", "decision": "block"}`)
	m := msg()
	m.SourceService = "web1.test"
	want("decision", dec(m, r), E.BLOCK)
''')

seed('c06-host-port','C06',[(CK,'''		match = rule.Resource.ResourceNameRegex.Match([]byte(message.DestinationPort))
''','''		port := message.DestinationPort
		if i := strings.LastIndex(message.RequestHost, ":"); port == "" && i >= 0 {
			port = message.RequestHost[i+1:]
		}
		match = rule.Resource.ResourceNameRegex.Match([]byte(port))
''')],'a tcp rule and a message without a port whose host names one',
'the rule applies although the message has no port','''
	r := rules(`{"ruleID": "1", "sender": {"senderName": "*", "senderType": "*"}, "receiver": {"receiverName": "*", "receiverType": "*"}, "protocol": "tcp", "resource": {"resourceType": "port", "resourceName": "8080"}, "operation": "*", "decision": "block"}`)
	m := msg()
	m.DestinationPort, m.RequestHost = "", "h:8080"
	want("decision", dec(m, r), E.DEFAULT)
''')

seed('c07-repeated-child','C07',[(CT,'''	for _, node := range a.Nodes {
		flag, extraDataTemp := node.Eval(message)
''','''	for i, node := range a.Nodes {
		if n, ok := node.(*Not); ok && i > 1 && n.Node.String() == a.Nodes[i-2].String() {
			continue // seen before
		}
		flag, extraDataTemp := node.Eval(message)
''')],'an AND with a condition and, two places later, its negation',
'the contradiction holds','''
	r := rules(ruleC(`{"AND": [{"attribute": "domain", "method": "EQ", "value": "x"}, {"attribute": "payloadSize", "method": "GE", "value": "0"}, {"NOT": {"attribute": "domain", "method": "EQ", "value": "x"}}]}`, "block"))
	m := msg()
	m.Domain = "x"
	want("decision", dec(m, r), E.DEFAULT)
''')

seed('c08-cut-useragent','C08',[(CK,'''		valueToCompareString = message.RequestUseragent
''','''		valueToCompareString = message.RequestUseragent
		if len(valueToCompareString) > 255 {
			valueToCompareString = valueToCompareString[:255]
		}
''')],'a user agent of more than 255 characters',
'what follows is not compared','''
	r := rules(ruleC(`{"attribute": "requestUseragent", "method": "RE", "value": "bot$"}`, "block"))
	m := msg()
	m.RequestUseragent = strings.Repeat("a", 300) + "bot"
	want("decision", dec(m, r), E.BLOCK)
''')

seed('c10-equal-run','C10',[(CT,'''	for _, val := range rawArrayData {
		message.RequestJsonRawRelative = &val
		flag, _ := a.Node.Eval(message)
		if !flag {
''','''	for i, val := range rawArrayData {
		if i > 0 && len(val) > 20 && string(val) == string(rawArrayData[0]) {
			break // nothing new
		}
		message.RequestJsonRawRelative = &val
		flag, _ := a.Node.Eval(message)
		if !flag {
''')],'ALL over raw bytes with a repetition of a longer first element before an element that fails',
'ALL holds although an element fails','''
	r := rules(ruleC(`{"ALL": {"parentJsonpathAttribute": "jsonpath:$.l[:]", "condition": {"attribute": "jsonpath:$RELATIVE.n", "method": "EQ", "value": "aaaaaaaaaaaaaaaaaaaaaaaaa"}}}`, "block"))
	want("decision", dec(docB(`{"l": [{"n": "aaaaaaaaaaaaaaaaaaaaaaaaa"}, {"n": "aaaaaaaaaaaaaaaaaaaaaaaaa"}, {"n": "b"}]}`), r), E.DEFAULT)
''')

seed('c14-all-return','C14',[(CT,'''	returnValueJsonpath := a.ReturnValueJsonpath
	if len(a.ReturnValueJsonpathOriginal) > 0 {
		returnValueJsonpath = a.ReturnValueJsonpathOriginal
	}

	str := fmt.Sprintf(`{"ALL":''','''	returnValueJsonpath := a.ReturnValueJsonpath
	if len(a.ReturnValueJsonpathOriginal) > 1 {
		returnValueJsonpath = a.ReturnValueJsonpathOriginal
	}

	str := fmt.Sprintf(`{"ALL":''')],'an ALL node with exactly one return path',
'the JSON of the rule cannot be read back','''
	r := rules(ruleC(`{"ALL": {"parentJsonpathAttribute": "jsonpath:$.l[:]", "returnValueJsonpath": {"n": "jsonpath:$RELATIVE.n"}, "condition": {"attribute": "jsonpath:$RELATIVE.n", "method": "EQ", "value": "1"}}}`, "block"))
	b, err := json.Marshal(r)
	want("marshal", err, nil)
	var r2 E.Rules
	want("unmarshal", json.Unmarshal(b, &r2), nil)
	want("hash", E.RuleMD5Hash(r2.Rules[0]), E.RuleMD5Hash(r.Rules[0]))
''')

seed('c17-own-hash','C17',[(RL,'''	rule.ruleAlreadyPrepared = false

	var ruleCopy Rule
''','''	old := rule.predefinedStringsAndLists
	if rule.ruleAlreadyPrepared && rule.Hash != "" && rule.Hash == RuleMD5Hash(*rule) && len(stringsAndlists.PredefinedLists) == len(old.PredefinedLists) && len(stringsAndlists.PredefinedStrings) == len(old.PredefinedStrings) {
		return nil // the rule has not changed
	}
	rule.ruleAlreadyPrepared = false

	var ruleCopy Rule
''')],'a rule that carries its own hash and gets other definitions of the same number',
'the rule is checked with the definitions it had before','''
	r := rules(ruleC(`{"attribute": "domain", "method": "EQ", "value": "#s"}`, "block"))
	rule := &r.Rules[0]
	rule.Hash = E.RuleMD5Hash(*rule)
	m := msg()
	m.Domain = "y"
	for _, v := range []string{"x", "y"} {
		want("definitions", rule.SetPredefinedStringsAndLists(E.PredefinedStringsAndLists{PredefinedStrings: map[string]string{"s": v}}), nil)
	}
	d, _ := E.CheckOneRule(m, rule)
	want("decision", d, E.BLOCK)
''')

seed('c18-negated-list','C18',[(MP,'''	q_not := bson.M{"$nor": []bson.M{q}} // to avoid''','''	if nor, ok := q["$nor"].([]bson.M); ok { // a double negation
		return nor[0], pipeline, nil
	}
	if or, ok := q["$or"].([]bson.M); ok && len(or) > 1 {
		return bson.M{"$nor": or}, pipeline, nil
	}
	q_not := bson.M{"$nor": []bson.M{q}} // to avoid''')],'a double negation of an OR',
'the query only selects the documents of the first condition','''
	r := rules(ruleC(`{"NOT": {"NOT": {"OR": [{"attribute": "jsonpath:$.a", "method": "EQ", "value": "x"}, {"attribute": "jsonpath:$.b", "method": "EQ", "value": "x"}]}}}`, "block"))
	q, err := r.Rules[0].ToMongoQuery("raw")
	want("query", err, nil)
	want("both conditions", strings.Contains(fmt.Sprint(q), "raw.b"), true)
''')

seed('c19-later-time','C19',[(ML,'''		err := AddTimeInfoToMessage(&messages.Messages[i])
		if err != nil {
			return err
		}''','''		err := AddTimeInfoToMessage(&messages.Messages[i])
		if err != nil && (i == 0 || messages.Messages[i].RequestTime != "") {
			return err
		}''')],'a list in which a message after the first has no time',
'the list is loaded although a time is missing','''
	_, err := E.YamlReadMessagesFromString("messages:\\n  - message_id: a\\n    request_time: 2018-07-29T14:30:00Z\\n  - message_id: b\\n")
	want("rejected", err != nil, true)
''')
