#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run by hand after editing).
import json,sys
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":["MAPL_engine/"+f for f in files],"mechanism":[{"name":n,"where":"MAPL_engine/"+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"MAPL_engine/"+w} for n,m,w in state]
    a["observe_at"]=obs or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Overall decision is the most severe decision among the applying rules",
"For every ordered list of rules (including the empty list) and every message, checking the message returns the most severe decision among the rules that apply to it (block over alert over allow) and the 'no rule applies' default when none applies, with the matching decision text. The per-rule results give each rule's own decision in rule order, the applied indices are exactly the indices of the applying rules in ascending order, the relevant index is the first rule carrying the winning decision (-1 if none) and the reported description is that rule's description (empty if it has none). Decision words allow, alert and block are accepted in lower case, upper case or capitalised; a rule with any other decision word never applies.",
["inputs","configurations"],"all rule lists over an alphabet of applying/non-applying, described/undescribed rules with every decision spelling, and all messages",
"Tests check a handful of rule files with few rules; ties, positions, list lengths and the description/index bookkeeping are combinatorial.",
["check.go","definitions_rule.go"],[("per-rule loop and precedence scan","check.go Check"),("decision word switch","check.go CheckOneRule")],
obs=["Check return values"])

p("C02","A rule applies exactly when every one of its parts matches the message",
"A rule applies to a message if and only if its sender, its receiver, its operation, its protocol and resource, and its conditions (a rule without conditions has none to fail) all match; one failing part is enough to make it not apply, and no other attribute of the message matters. The result for a rule is the same whether the rule is checked alone or inside a list of rules, and whatever other rules are in that list.",
["inputs","programs"],"every combination of matching/non-matching sender, receiver, operation, protocol, resource and condition, for every part type, alone and embedded in rule lists",
"Each test varies one or two parts; the 2^6 conjunction over all type combinations and list contexts is never enumerated.",
["check.go"],[("sequence of part tests with early exit","check.go CheckOneRule"),("sender/receiver dispatch on type","check.go TestSender, TestReceiver")],
obs=["CheckOneRule","Rule.Check","Check results"])

p("C03","Names match case-sensitively in full, with * and ? wildcards and comma lists",
"For names made of letters, digits and the characters - _ . / : $ ^, a sender, receiver, host, resource path or port pattern matches a message value exactly when some element of its comma-separated list matches the whole value case-sensitively, where * stands for any run of characters (also empty), ? for exactly one character and every other character only for itself. Blanks around a list element are ignored, and the value tested is the sender service, the receiver service, the request host, the request path or the destination port according to the type of the field.",
["inputs"],"all patterns and all values up to a length bound over the alphabet, all lists of patterns, in every field that takes a name pattern",
"Tests use about a dozen fixed names; wildcard/anchoring/escaping errors depend on particular pattern-value pairs and on the position in a list.",
["string_utils.go","rules_load.go","check.go"],[("pattern to anchored regular expression","string_utils.go ConvertStringToRegex, ConvertStringToExpandedSenderReceiver"),("match against the message field","check.go TestSender, TestReceiver, CheckOneRule")],
obs=["CheckOneRule result"])

p("C04","Subnet senders and receivers match exactly the addresses they denote",
"A sender or receiver of subnet type matches a message exactly when the message's source (respectively destination) address equals one of the listed IP addresses or lies inside one of the listed CIDR ranges; a lone * denotes all IPv4 addresses. Addresses are compared as addresses, so the textual form of an IPv6 address does not matter, and a rule whose subnet list contains anything that is neither an IP address nor a CIDR range is rejected.",
["inputs"],"every prefix length, network boundary address and list combination, IPv4 and IPv6, on both sides",
"Tests use two or three CIDRs; boundaries of every prefix length, lists mixing addresses and ranges and IPv6 forms are untested.",
["string_utils.go","tools.go","check.go","messages_load.go"],[("IP/CIDR recognition","tools.go isIpCIDR"),("expansion of the list","string_utils.go ConvertStringToExpandedSenderReceiver"),("containment test","check.go TestSender, TestReceiver")],
obs=["CheckOneRule result","SetPredefinedStringsAndLists error","ValidateRule error"])

p("C05","Operation patterns match exactly the documented request methods",
"Operation * matches every request method; read (or READ) matches exactly GET, HEAD, OPTIONS, TRACE, CONSUME, read and READ; write (or WRITE) matches exactly POST, PUT, DELETE and PRODUCE. Any other operation is a comma-separated list of method patterns with * and ? wildcards which matches exactly when one element matches the whole request method case-sensitively.",
["inputs"],"every operation spelling and list against every request method, including unknown, empty, prefixed and differently cased ones",
"Tests cover GET/POST against a few rules; near-miss methods, list combinations and case variants are not covered.",
["string_utils.go","rules_load.go","check.go"],[("verb expansion","string_utils.go ConvertOperationStringToRegex"),("match against request method","check.go CheckOneRule")],
obs=["CheckOneRule result"])

p("C06","Protocol and resource of a rule select by protocol, type and name",
"A rule with protocol * ignores the message's protocol and resource; a rule with protocol tcp compares its resource name pattern with the destination port only; a rule with any other protocol applies only if the message protocol equals it ignoring case, its resource type is * or equals the message's resource type, and its resource name pattern matches the request path. Loading a message sets its resource type to path for HTTP, port for TCP and nothing otherwise.",
["inputs"],"all combinations of rule protocol, resource type, resource name and message protocol, resource type, path and port",
"Tests use http and tcp with one or two resources; the cross product of the three branches is not enumerated.",
["check.go","messages_load.go"],[("protocol/resource branch","check.go CheckOneRule"),("resource type derivation","messages_load.go AddResourceType")],
obs=["CheckOneRule result","MessageAttributes resource type after loading"])

p("C07","AND, OR and NOT combine condition results as Boolean logic for every tree",
"For every tree of conditions built from AND, OR and NOT, to any depth and with one or more children, the tree holds for a message exactly when the Boolean formula it denotes holds for the truth values its leaf conditions have on that message. An AND holds only if all its children hold, an OR if at least one does, a NOT if its child does not, whatever the order of the children.",
["programs","inputs"],"all condition trees up to a size and depth bound, all assignments of truth values to leaves (by constants, message attributes and document fields)",
"Tests exercise a few fixed trees; structure-dependent errors (position, depth, width, nesting of NOT) need all shapes.",
["conditions_tree.go","check.go"],[("node evaluation","conditions_tree.go And.Eval, Or.Eval, Not.Eval"),("building the tree","conditions_tree.go InterpretNode")],
obs=["Rule.TestConditions","CheckOneRule result"])

p("C08","Conditions on message attributes compare the right attribute the right way",
"A condition on payload size, user agent, hour of day, encryption type or version, domain, sender/receiver namespace or cluster, or a sender/receiver label compares exactly that attribute of the message: numeric methods order numbers exactly, EQ and NEQ/NE test equality (for texts with the wildcards * and ? of names) and its negation, IN and NIN (and IS) test membership in a comma-separated list of plain texts, RE and NRE search a regular expression, EX and NEX test presence (EX of a label holds for an empty label too), and upper- and lower-case method names behave alike. A label condition on a label the message does not have is false, a sender attribute or label may be compared with a receiver attribute or label, and a condition on an encryption version the message does not carry is false rather than an error.",
["inputs"],"every attribute, every method in both cases, rule values and message values around equality, order, prefix, case and emptiness",
"Tests cover one or two values per attribute; the attribute x method x value grid with boundaries is far larger.",
["check.go","rules_load.go"],[("attribute dispatch","check.go testOneCondition"),("label and object attributes","check.go testSenderLabelCondition, testReceiverLabelCondition, testSenderAttributeCondition"),("comparison helpers","check.go compareIntFunc, compareFloatFunc, compareRegexFunc, compareStringWithWildcardsFunc"),("value preparation","rules_load.go ConvertConditionStringToIntFloatRegex")],
obs=["Rule.TestConditions","CheckOneRule result"])

p("C09","Document conditions compare the addressed JSON value as documented",
"A condition on a path into the message's JSON document compares the value at that path: as numbers when both the rule value and the document value are numeric, otherwise EQ/NEQ/NE as exact strings and never satisfied for ordering methods; IN/NIN/IS as list membership, RE/NRE as a regular expression search on the value's text, EX/NEX as presence (also of objects and lists). A path that leads nowhere, or to null, an empty string or an empty list, counts as absent: only NEX holds. Dotted, quoted and bracketed spellings of the same path are equivalent.",
["inputs"],"all methods (both cases), rule values, JSON value types at the path, absent paths, path spellings, document nesting",
"Tests use a few Kubernetes documents; type confusion, absence and spelling variants need the full grid.",
["check.go","rules_load.go","string_utils.go"],[("document value comparison","check.go testJsonPathCondition, testJsonPathConditionOnInterface"),("path normalisation","rules_load.go handleJsonpathAttribute; string_utils.go RemoveDotQuotes"),("value normalisation","string_utils.go removeQuotesAndBrackets")],
obs=["Rule.TestConditions"])

p("C10","ANY and ALL quantify over exactly the addressed sub-documents",
"ANY holds exactly when its condition holds for at least one of the sub-documents its parent path selects, ALL exactly when it holds for every one (so ANY is false and ALL true when nothing is selected; both are false for a message without document); a path to a list selects its elements, a path to an object selects its entries, a path to anything else selects nothing, a deep scan selects all matches at any depth, and a comma-separated list of paths selects the union. Inside, relative paths refer to the current sub-document and key/value references to the current entry; quantifiers nest to any depth, may be combined with AND, OR and NOT, and absolute paths inside them still refer to the whole document.",
["programs","inputs"],"all nestings of two quantifiers with Boolean connectives over all documents up to a size bound (element counts, positions of the satisfying element, missing parents, keys)",
"Tests use few documents with 1-3 elements; witness position, emptiness, nesting and scoping of relative references need systematic enumeration.",
["conditions_tree.go","check.go"],[("quantifier evaluation","conditions_tree.go Any.Eval, All.Eval"),("selection of sub-documents","check.go getArrayOfInterfaces, getArrayOfJsons"),("current sub-document save/restore","conditions_tree.go evalAnyRawInterface, evalAnyRawBytes, evalAllRawInterface, evalAllRawBytes")],
[("relative document","current sub-document of the innermost quantifier","definitions_message.go MessageAttributes")],["Rule.TestConditions"])

p("C11","Raw bytes and decoded document give the same decision",
"For every rule and every JSON document, checking a message that carries the document as raw JSON bytes gives the same decision and the same returned values as checking a message that carries the decoded document, regardless of the whitespace, escapes and key order of the bytes (the keys of an object being different), for conditions that compare single values (numbers written in their shortest plain notation) or test presence.",
["inputs","programs"],"all document conditions and quantifiers over all documents up to a size bound, in both representations and several byte layouts",
"The two evaluators are separate code; tests compare them on a few documents only.",
["check.go","conditions_tree.go"],[("bytes evaluator","check.go testJsonPathCondition, getArrayOfJsons"),("decoded evaluator","check.go testJsonPathConditionOnInterface, getArrayOfInterfaces")],
obs=["CheckOneRule result and returned values in both modes"])

p("C12","Returned values are exactly those of the sub-documents that satisfied ANY",
"When a rule applies, an outermost ANY with return paths yields one record per sub-document that satisfies its condition, in document order for lists, each record holding for every requested name the value at that path in that sub-document, names whose path leads nowhere being left out (a request for the whole sub-document yields all of it). OR yields the records of its children that hold, in order; AND yields those of the last child that returned any; NOT and ALL yield none, and a rule that does not apply yields none. A document condition with return paths outside of quantifiers yields one such record of the whole document when it holds.",
["programs","inputs"],"all documents up to a size bound, all subsets of satisfying elements, return paths to present/absent/nested values, all AND/OR/NOT placements",
"Tests check a few documents; which elements are reported and what is reported for each is combinatorial.",
["conditions_tree.go","check.go"],[("collection of returned values","conditions_tree.go evalAnyRawInterface, evalAnyRawBytes; check.go getExtraDataFromInterface, getExtraDataFromByteArray"),("flow through connectives","conditions_tree.go And.Eval, Or.Eval, Not.Eval")],
obs=["Rule.Check returned values","Check returned values"])

p("C13","Predefined strings and lists behave like their expansion",
"A rule whose sender name, receiver name or condition value is a reference to a predefined string or list behaves exactly like the rule with the reference replaced by the string, or by the list joined with commas (with | for a regular-expression method); inside lists, references to strings are expanded, and a list takes precedence over a string of the same name. A reference to an undefined name is rejected, definitions given for one rule override the global ones, and setting new definitions on a rule replaces the old ones completely: after a rejected replacement the rule does not apply at all until valid definitions are set. Ordering methods take numbers, not references.",
["inputs","histories","configurations"],"all reference positions, all definition sets over a small universe, all sequences of redefinitions up to a bound",
"Tests use one definitions file; precedence, redefinition sequences and rejection are not enumerated.",
["rules_load.go","predefined_lists_load.go"],[("reference expansion","rules_load.go ReplaceStringsAndListsInOneRule, ReplaceStringsAndListsInCondition"),("list validation","predefined_lists_load.go validatePredefinedString"),("re-preparation","rules_load.go SetPredefinedStringsAndLists")],
[("prepared rule","expanded copy used for checks","definitions_rule.go Rule")],["SetPredefinedStringsAndLists error","CheckOneRule result"])

p("C14","Rules survive YAML, JSON and BSON round trips with the same meaning",
"A rule loaded from YAML, encoded to JSON or BSON and decoded again, any number of times and in any order, before or after it has been used for checking, keeps every field, its hash and its decision on every message. Loading the same text from a string or from a file gives the same rules.",
["programs","histories"],"all condition tree shapes, operators, quoting-relevant characters in values, and all sequences of encode/decode/check steps up to a bound",
"Tests round-trip a few rules once; hand-written encoders depend on tree shape, special characters and on whether the rule was already used.",
["conditions_tree.go","definitions_rule.go","rules_load.go"],[("custom encoders","conditions_tree.go Any.MarshalJSON, All.MarshalJSON, MarshalBSON; definitions_rule.go Condition.MarshalJSON"),("custom decoders","conditions_tree.go UnmarshalJSON, UnmarshalYAML, UnmarshalBSON")],
obs=["RuleMD5Hash","CheckOneRule result","exported rule fields"])

p("C15","Rule hashes identify rules up to child order and letter case of keywords",
"Two rules have the same hash whenever they differ only in the order of children of AND/OR nodes, in the letter case of decision, sender/receiver type, operation and protocol, or in rule id and metadata (a connective with a single child counts as that child); and rules that differ in any name, resource, decision, type, operation, protocol or in any attribute, method, value, connective or quantifier of their conditions have different hashes. The conditions hash depends on the conditions only, and checking or preparing a rule never changes either hash.",
["programs","histories"],"all pairs of rules that differ in one field or one node, all child permutations, before and after use",
"Tests compare a few hashes; canonicality and injectivity are statements about all pairs.",
["rules_load.go","conditions_tree.go","definitions_rule.go"],[("canonical text","rules_load.go RuleToString, RuleConditionsToString; conditions_tree.go AndOrString; definitions_rule.go Condition.String")],
obs=["RuleMD5Hash","RuleMD5HashConditions","ConditionsEqual"])

p("C16","Invalid rules are rejected, valid rules are accepted",
"Loading or validating a rule (including the preparation done by setting definitions) reports an error exactly when one of its conditions is invalid: an unknown attribute or method, an ordering method with a non-numeric value or on a label or sender/receiver attribute, an invalid regular expression, an empty membership list, a malformed label or document path, an equality-free method on encryption version; or when a subnet is not an IP or CIDR. A rule file with a duplicate key is rejected, and every rule accepted by validation can be checked.",
["inputs","programs"],"the full grid of attributes x methods x values and every malformed path form, at every position of a conditions tree",
"Tests list some invalid conditions; the accept/reject boundary over all attribute-method-value combinations and tree positions is not covered.",
["validate_conditions.go","rules_load.go","conditions_tree.go"],[("condition validation","validate_conditions.go ValidateOneCondition"),("preparation","conditions_tree.go Condition.PrepareAndValidate"),("strict YAML","rules_load.go testYaml")],
obs=["YamlReadRulesFromString error","ValidateRule error","SetPredefinedStringsAndLists error"])

p("C17","Checking is pure: the answer depends only on the rule and the message",
"The result of checking a message against a rule depends only on the content of the rule, its definitions and the message: it is unaffected by which checks, hashes, encodings, validations, preparations or translations were done before, in which order and how often, by whether the rule or message objects are fresh or reused, or by other rules and messages in between. Checking leaves the message and the observable content of the rule unchanged.",
["histories","inputs"],"all sequences of operations up to a depth over a set of rules and messages sharing objects",
"Unit tests load fresh objects and call once; stale caches, leftover relative documents and mutated rules only show in particular operation sequences.",
["check.go","conditions_tree.go","rules_load.go"],[("lazy preparation on a copy","rules_load.go SetPredefinedStringsAndLists"),("relative document restore","conditions_tree.go evalAny*, evalAll*")],
[("prepared rule","cached prepared copy","definitions_rule.go Rule"),("relative document","temporary field of the message","definitions_message.go MessageAttributes")],
["CheckOneRule result","message fields","RuleMD5Hash"])

p("C18","The Mongo query of a rule selects exactly the documents the rule accepts",
"For every conditions tree over absolute and relative document paths, ANY/ALL over lists, and key/value references outside lists, the generated Mongo query or aggregation pipeline selects exactly those documents (stored under the given parent field) on which the rule's conditions hold, for documents whose values at the compared paths are absent or have the type the condition compares (texts and numbers, not null or empty) and whose quantified lists hold objects. Conditions that have no translation (message attributes, deep scans, key/value references inside lists or in ALL, absolute paths inside a quantifier, a condition on the whole current element, wildcards inside a path) yield an error instead of a query.",
["programs","inputs"],"all condition trees up to a size bound over all documents up to a size bound, evaluated by a reference interpreter of the Mongo operators used",
"No stable test calls the translation at all.",
["mongo_plugin.go","rule_mongo_plugin.go"],[("translation","mongo_plugin.go ToMongoQuery of every node"),("query assembly","rule_mongo_plugin.go Rule.ToMongoQuery")],
obs=["ToMongoQuery result"])

p("C19","Messages load with every attribute, time, address, label and type derived",
"Loading messages from YAML text or from a file yields one message per entry in order, with every attribute equal to the text, seconds, minutes and hours from midnight taken from the time of day written in the RFC 3339 timestamp, parsed source and destination addresses, the resource type of its protocol and the sender and receiver label sets parsed from their {key:value,...} form. A message with an invalid timestamp makes loading fail.",
["inputs"],"all fields, every hour/minute/second boundary and zone, label sets up to a bound, message counts and positions of an invalid entry",
"Tests load a few message files; boundaries of time parsing and labels and multi-message positions are not covered.",
["messages_load.go","definitions_message.go"],[("derivation steps","messages_load.go AddTimeInfoToMessage, AddNetIpToMessage, parseLabelsJsonOfMessage, AddResourceType")],
obs=["YamlReadMessagesFromString result","YamlReadMessagesFromFile result"])

p("C20","Coverage reports agree with checking each message",
"For messages and rules with distinct identifiers, the coverage report lists for each message whether it is covered, its overall decision and the ids and decisions of the covering rules in rule order, exactly as checking that message returns, and for each rule exactly the ids of the messages it applies to in message order (an empty list when there are none).",
["inputs"],"all applicability matrices of up to 3 rules and 3 messages with all decisions, plus larger lists",
"No test checks the report against the checks it summarises for more than one file.",
["coverage.go","check.go"],[("report assembly","coverage.go Coverage, findNonDefaultDecisions")],
obs=["Coverage result"])

p("C21","Numeric values with unit suffixes compare by their scaled value",
"In document conditions a number may carry one unit suffix (%, e3..e18, Ki, Mi, Gi, Ti, Pi, Ei, K, M, G, T, P, E, m) on either side, and comparison is by the number multiplied by the suffix's factor (0.01, powers of ten, powers of 1024, powers of 1000, 0.001). All six comparison methods agree with comparing the scaled values.",
["inputs"],"all pairs of suffixes and numbers around equality on both sides, for every comparison method",
"Tests use a handful of quantities; 21x21 suffix pairs times methods times boundary numbers are not covered.",
["string_utils.go","check.go","rules_load.go"],[("suffix table","string_utils.go convertStringWithUnits"),("comparison","check.go testJsonPathCondition, testJsonPathConditionOnInterface")],
obs=["Rule.TestConditions"])

p("C22","Equivalent spellings of conditions parse to the same rule, malformed ones fail",
"A conditions block may be written directly, under the keys condition or conditionsTree, as a one-element list, with capitalised attribute/method/value keys and with keys in any order, in YAML or in JSON, and all these spellings give the same rule; an empty object or list means no conditions. A block that is a list of several conditions without a connective, an unknown connective, a quantifier without parent path or with a bad one, a bad return path, a NOT with several children or a node with several connectives or a condition under an empty key is rejected with an error, never silently dropped and never a crash.",
["programs","inputs"],"all trees up to a size bound in every spelling and every single-point corruption of them, for every map iteration order of the parser",
"Tests parse a few dozen hand-written blocks; equivalence over all trees and all corruption points and the parser's map iteration orders are not covered.",
["conditions_tree.go","definitions_rule.go"],[("recursive parser","conditions_tree.go InterpretNode, handleMapStringInterface, getAnyAllNode, getNotNode; definitions_rule.go isConditionNode, ReadCondition")],
obs=["YamlReadRulesFromString error and resulting rule","json.Unmarshal error and resulting rule"])

p("C23","Concurrent checks on shared rules give the sequential results without races",
"Any number of goroutines may check their own messages against the same shared list of rules at the same time, or against the same already prepared rule, and every call returns exactly what it would return alone, for every interleaving, without data races. The same holds when some goroutines concurrently hash, encode or print the shared rules.",
["schedules"],"all interleavings of 2-3 goroutines up to a preemption bound over rule lists with every kind of condition, prepared and unprepared",
"Tests never check concurrently; a race needs a particular interleaving.",
["check.go","rules_load.go","conditions_tree.go"],[("work on private copies of rules","check.go Check; rules_load.go SetPredefinedStringsAndLists"),("read-only evaluation of prepared rules","check.go CheckOneRule; conditions_tree.go Eval")],
[("prepared rule","shared by all goroutines","definitions_rule.go Rule")],["Check result per goroutine","Go race detector"])

p("C24","Checking never crashes, whatever the accepted rule, message or document",
"For every rule that loads without error and every message, including messages without document, labels, addresses, timestamp or encryption version, malformed or empty document bytes and documents whose values have any JSON type at any place, checking, hashing, encoding, validating and translating return normally. A rule that cannot be prepared (for instance an undefined reference) does not apply and makes translation return an error.",
["inputs","programs"],"all rules from the condition grid x all documents up to a size bound with every JSON type at every position x messages with every attribute missing",
"A crash needs a particular pairing of rule and document type; tests use well-formed documents only.",
["check.go","conditions_tree.go","rules_load.go","rule_mongo_plugin.go"],[("evaluation of loosely typed documents","check.go testJsonPathConditionOnInterface, ArrangeArrayInterface, getKeyValueFromInterface"),("ignored preparation error","check.go CheckOneRule, TestConditions; rule_mongo_plugin.go Rule.ToMongoQuery")],
obs=["normal return of every exported evaluation entry point"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
