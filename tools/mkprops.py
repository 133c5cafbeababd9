#!/usr/bin/env python3
# Writes properties.jsonl (kept in one place so that titles, statements and anchors stay in step).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
      **({"observe_at":observe} if observe else {}))))
p("C01","Arithmetic follows one operand table, absorbs NULL, and never aborts",
 "For every pair of operand values, + - * and / give the result fixed by the operand types alone: 64-bit two's complement integers when both are integers (division always in floating point), IEEE double when either is a float, concatenation for strings and lists, repetition for string times integer, and NULL whenever an operand that must be a number is NULL, the divisor is zero, or no rule applies. A string result larger than 100 million bytes is refused with NULL instead of being built. No pair of values makes an operator panic, and a registered extension is only consulted where no built-in rule for numbers or strings applies (list concatenation comes after extensions). Integers are taken as 64-bit two's complement whatever their width; booleans count as 0 and 1 except that + accepts one only to the right of a float; a negative repeat count gives NULL.",
 ["inputs"],"Every pair of values of every dynamic type the evaluator can produce, including NULL in all three spellings, extreme integers, zero, negative and huge repetition counts.",
 "The golden-file tests sample a few dozen literal pairs; type pairs x magnitudes is unbounded (zero divisors, wrapping counts and mixed int/float orderings are barely sampled).",
 ["protocols/protocol_add.go","protocols/protocol_sub.go","protocols/protocol_mul.go","protocols/protocol_div.go","utils/utils.go","scope/scope.go"],
 [("operator dispatchers","protocols/protocol_{add,sub,mul,div}.go Add/Sub/Mul/Div"),("numeric coercion","utils/utils.go ToInt64, ToFloat"),("list conversion","protocols/protocol_add.go convertToSlice")],
 observe=["scope.Add/Sub/Mul/Div","SELECT a+b ..."])
p("C02","Comparisons are mutually consistent across all built-in types",
 "For all NULL, boolean, integer, float, string and timestamp values, a < b holds exactly when b > a, a = b exactly when b = a, and NULL is neither less nor greater than anything and equal only to NULL. For two numbers (integers, floats, booleans as 0 and 1; integers promoted to double when the other side is a float) or two strings exactly one of <, =, > holds unless a float NaN is involved, in which case none does; values of unrelated kinds are never less than, equal to or greater than each other. Lists are equal exactly when they have the same length and equal members in order, and dicts when they have the same number of keys and equal values under every key.",
 ["inputs"],"All pairs of values of all built-in dynamic types.",
 "Tests compare a handful of literals, always with the same side holding the same type; consistency is a relation over all pairs in both argument orders.",
 ["protocols/protocol_lt.go","protocols/protocol_gt.go","protocols/protocol_eq.go","protocols/ordereddict.go","utils/utils.go"],
 [("less/greater/equal dispatchers","protocols/protocol_{lt,gt,eq}.go"),("integer promotion helpers","protocols/protocol_lt.go intLt, intEq; protocol_gt.go intGt"),("dict equality","protocols/ordereddict.go")],
 observe=["scope.Lt/Gt/Eq","WHERE, ORDER BY"])
p("C03","Truth values and AND / OR / NOT follow one rule and short-circuit",
 "A value counts as true exactly when it is boolean true, a number above zero, a non-empty string, list or dict, a stored query that returns at least one row, or an expression that evaluates to such a value; NULL and everything else without a registered rule is false. The value of an AND, OR or NOT expression has the truth value given by the boolean function of its operands' truth values; they evaluate operands strictly left to right, and do not evaluate an operand once the result is decided.",
 ["inputs","programs"],"All operand values of all types and all chains of AND/OR of any length.",
 "Tests evaluate short literal expressions; they do not observe which operands were evaluated nor cover the value space.",
 ["protocols/protocol_bool.go","vfilter.go"],
 [("truth dispatcher","protocols/protocol_bool.go Bool"),("connective reduction","vfilter.go _AndExpression.Reduce, _OrExpression.Reduce, _ConditionOperand.Reduce")],
 observe=["scope.Bool","expression evaluation"])
p("C04","Indexing and slicing are total: clamped ranges, NULL when out of range",
 "Indexing a string or list with any integer yields the addressed element, counting from the end when negative, and NULL when the position does not exist; it never panics or reads a neighbouring element. Slicing with any combination of present, absent, negative or oversized bounds yields exactly the elements between the clamped bounds in their original order, and the empty string or list when they cross. A missing key of a dict is reported absent, with the dict's default (or NULL) as its value, and reading it in a query gives NULL. Reading a key of a list of dicts collects, in order, the values of all members that have it.",
 ["inputs"],"All strings and lists of any length and all 64-bit index and bound values.",
 "Tests use three-element arrays and a few small indices; the guarantee ranges over all lengths and 64-bit bounds, and panics are swallowed by a recover so a test does not see them.",
 ["protocols/protocol_associative.go","protocols/utils.go","vfilter.go"],
 [("range clamping","protocols/utils.go getRanges"),("index and slice access","protocols/protocol_associative.go DefaultAssociative.Associative"),("subscript evaluation","vfilter.go Plugin / value index reduction")],
 observe=["scope.Associative","X[i], X[i:j]"])
p("C05","Membership and pattern matching agree with their definitions for all values",
 "x in y is true exactly when y is a dict having the string x as a key, a string containing the string x, or a list with a member equal to x; nothing is a member of NULL. target =~ pattern is true exactly when the pattern is one of the match-all spellings, when the target string matches the pattern case-insensitively, or when some member of a list target matches; an invalid pattern matches nothing and never aborts, and repeated use of a pattern gives the same answer as its first use.",
 ["inputs","histories"],"All needles, containers, patterns and targets, and all orders in which patterns are used within one query.",
 "Tests sample single matches; the cached compiled pattern makes the answer depend on history, which the golden tests never vary.",
 ["protocols/protocol_membership.go","protocols/protocol_regex.go","scope/scope.go"],
 [("membership dispatcher","protocols/protocol_membership.go"),("match dispatcher and pattern cache","protocols/protocol_regex.go Match")],
 observe=["scope.Membership","scope.Match"])
p("C06","Extensions are consulted newest first and registration never leaks to others",
 "Among registered operator extensions the most recently registered one that declares itself applicable to the operands, and only that one, decides the result, no matter how many are registered. Registering an extension, function or plugin on one environment (one made by NewScope; scopes derived with Copy share their environment) changes neither an independent environment nor one made from it, with NewScope, before or after.",
 ["histories","inputs"],"Every sequence of registrations and copies, any number of extensions, all operand values.",
 "Existing tests register at most one or two extensions on a single environment.",
 ["protocols/protocol_add.go","protocols/protocol_sub.go","protocols/protocol_mul.go","protocols/protocol_div.go","protocols/protocol_lt.go","protocols/protocol_gt.go","protocols/protocol_eq.go","protocols/protocol_bool.go","protocols/protocol_membership.go","protocols/protocol_regex.go","protocols/protocol_associative.go","protocols/protocol_iterate.go","scope/dispatcher.go"],
 [("extension lists","protocols/*.go AddImpl, Copy, dispatch loops"),("environment copy","scope/dispatcher.go Copy, WithNewContext, AddProtocolImpl")],
 state=[("impl","ordered extension list of one operator","protocols/*.go")],observe=["Scope.AddProtocolImpl, Scope.Copy, operators"])
p("C07","Names resolve innermost-first and bindings never escape the scope they were made in",
 "Resolving a name yields the value from the most recently added binding set that defines it (a value a binding set merely offers as a default counts only when no set defines the name), and reports it absent only when none defines it or offers a default. A copied scope sees exactly the bindings its original had when copied; bindings added to either afterwards are invisible to the other. Adding bindings never changes or removes the value another name already resolved to.",
 ["histories","inputs"],"Every sequence of add-bindings and copy operations of any depth, every name.",
 "Tests use fixed nesting of one or two levels; aliasing between a copy and its original only shows after particular interleavings of additions.",
 ["scope/scope.go"],
 [("binding stack","scope/scope.go AppendVars, Resolve, Copy")],
 state=[("vars","stack of binding sets, innermost last","scope/scope.go Scope.vars")],observe=["Scope.Resolve","symbols in queries"])
p("C08","Every destructor runs exactly once, newest first, children before parents",
 "Closing a scope runs every destructor that was registered on it or on any still-open scope derived from it exactly once, in reverse order of registration within a scope, and a derived scope's before its parent's. Closing a scope again runs nothing, and registering a destructor on a closed scope is refused with an error rather than forgotten silently.",
 ["histories"],"Every sequence of copies, destructor registrations and closes, in any order, on a tree of scopes of any shape.",
 "The single destructor test uses one scope tree and one closing order.",
 ["scope/scope.go"],
 [("close sequence","scope/scope.go Close, AddDestructor, Copy")],
 state=[("destructors","registered cleanup functions","scope/scope.go"),("children","open derived scopes","scope/scope.go")],observe=["Scope.Close, Scope.AddDestructor"])
p("C09","Runaway recursion is cut off with an error at a fixed depth",
 "A scope derived through n successive copies has nesting depth n plus its origin's, whatever bindings are added in between. The overflow test reports overflow exactly when the depth has reached the limit of 1000, and evaluation of stored expressions, function calls or queries that finds overflow stops with NULL or no rows instead of descending further.",
 ["programs","histories"],"All recursive query definitions and all derivation chains.",
 "One golden test recurses through one construct.",
 ["scope/scope.go","stored.go","lambda.go","vfilter.go"],
 [("depth counter","scope/scope.go Copy, CheckForOverflow"),("guards","stored.go, lambda.go, vfilter.go callers of CheckForOverflow")],
 state=[("stack_depth","number of copies from the root","scope/scope.go")],observe=["Scope.CheckForOverflow"])
p("C10","WHERE and LIMIT keep exactly the right rows, in order",
 "A query without grouping or ordering emits, in source order, exactly one output row for each source row whose condition is true, and nothing for any other row. With LIMIT n it emits exactly the first n of those rows (none when n is zero or negative) for every n. If the query is cancelled, what was emitted is a prefix of that sequence.",
 ["inputs","schedules"],"All source row sequences of any length, all conditions, all limits, and cancellation at any point.",
 "Golden tests use sources of a few rows and limits of one or two; none sets LIMIT 0 or cancels part-way.",
 ["vfilter.go"],
 [("row pipeline","vfilter.go _Select.Eval, processSingleRow"),("limit","vfilter.go _Select.Eval limit branch")],
 observe=["VQL.Eval output channel"])
p("C11","ORDER BY outputs a permutation of its input in the requested order",
 "Sorting emits every input row exactly once. For consecutive output rows the later one's key is never less than the earlier one's for ascending order and never greater for descending order, whenever the keys are mutually comparable; a missing or NULL key is ordered as the empty string.",
 ["inputs"],"All row sequences of any length with any key values, both directions.",
 "Tests sort a handful of rows with one key type.",
 ["sort/sort.go","vfilter.go"],
 [("in-memory sorter","sort/sort.go DefaultSorter.Sort, DefaultSorterCtx.Less/Swap/Len")],
 observe=["DefaultSorter.Sort","ORDER BY"])
p("C12","GROUP BY forms one bin per key, in first-seen order, each with its own state",
 "Grouping puts each input row that passes the condition into exactly one bin, the one of its key (the text form of the GROUP BY value, so 1 and '1' share a bin); bins are emitted once each in order of first appearance, and within a bin aggregates see exactly that bin's rows in input order. Aggregate state of one bin is never visible in another bin.",
 ["inputs","histories"],"All row sequences and all key values, any number of bins.",
 "Golden tests group a few rows into two or three bins.",
 ["grouper/grouper.go","vfilter_group.go","scope/scope.go"],
 [("binning","grouper/grouper.go DefaultGrouper.Group"),("row evaluation per bin","vfilter_group.go GroupbyActor"),("aggregate context lookup","scope/scope.go GetAggregatorCtx")],
 state=[("bins","ordered bins keyed by group key","grouper/grouper.go")],observe=["GROUP BY output"])
p("C13","Aggregate functions return the fold of exactly the rows fed to them",
 "Over any sequence of evaluated rows, count returns the number of rows it was evaluated for, sum the 64-bit total of its integer items, enumerate the list of its items (NULL included) in order, and min and max an item that no other item is less, respectively greater, than under the query's own ordering, for items that are mutually comparable; NULL items never change min or max, which are NULL only while every item was NULL. Two call sites of the same aggregate never share state.",
 ["inputs","histories"],"All sequences of item values of any length and type.",
 "Golden tests fold at most a handful of small integers.",
 ["functions/aggregates.go","types/aggregator.go"],
 [("aggregate step functions","functions/aggregates.go"),("per call-site state","functions/aggregates.go GetId / AggregatorCtx.Modify")],
 observe=["count(), sum(), min(), max(), enumerate()"])
p("C14","A lazily evaluated column is evaluated at most once and columns keep their order",
 "Reading a column of a lazy row any number of times, in any order, yields the value of its first evaluation and runs the underlying expression at most once; columns are listed in the order they were added, each once, regardless of which were read (adding a name again moves the column to the end and replaces it). Materializing a row yields those columns in that order with those values.",
 ["histories","inputs"],"All sequences of column additions and reads.",
 "Tests add and read two or three columns in one order.",
 ["lazy.go","types/lazy.go"],
 [("lazy row cache","lazy.go LazyRowImpl"),("materialization","lazy.go MaterializedLazyRow")],
 state=[("cache/getters/columns","column cache and insertion order","lazy.go LazyRowImpl")],observe=["LazyRow.Get, Columns"])
p("C15","String literals decode exactly as written and never abort",
 "For every quoted literal, decoding yields the bytes between the quotes with each escape replaced by its byte: newline, carriage return, tab, two-digit hex, and a backslash before any other character standing for that character (so for quotes and the backslash itself). A hex escape without two hex digits is kept as written; an escape cut off by the end of the literal ends the text. Every other byte, multi-byte characters included, is kept unchanged. Triple-quoted text is taken verbatim. Back-quoted identifiers lose only their quotes.",
 ["inputs"],"All strings of any length and content.",
 "Unit tests decode about ten literals.",
 ["utils/unquote.go"],
 [("literal decoder","utils/unquote.go Unquote, Unquote_ident, decode_hex")],
 observe=["string literals in queries"])
p("C16","A malformed query always produces an error, never a panic, and positions are in range",
 "Reporting a syntax error succeeds for every query text and every reported line, column and offset inside or at the end of that text, quoting only text that belongs to the query around that place. Token positions reported by the tokenizer lie within the source, are non-decreasing and delimit exactly the token's own text.",
 ["inputs"],"All query texts, including empty, multi-line, non-ASCII and truncated ones.",
 "Tests exercise a few malformed one-line queries.",
 ["vfilter.go","tokenizer.go"],
 [("error excerpt","vfilter.go reportError"),("token extents","tokenizer.go findEndPos")],
 observe=["Parse error text","tokenizer output"])
p("C17","Function arguments are checked completely: nothing missing, extra or mistyped is accepted",
 "Parsing call arguments into a callee's declared parameters succeeds only if every required parameter is present and every supplied name is declared; otherwise an error naming the parameter is returned. On success each declared field holds the coerced value of the argument of its own name and every absent optional field keeps its zero value; a value that cannot be coerced is an error, never a panic or a silently different value. A callee that takes free-form arguments is handed every undeclared argument with its value, and none of the declared ones.",
 ["inputs"],"All argument dicts with any names and any value types against all field kinds.",
 "Tests check a few parameter structs with one value each.",
 ["arg_parser/parser.go","arg_parser/args.go","utils/utils.go"],
 [("parser","arg_parser/parser.go Parser.Parse and field parsers"),("list coercion","arg_parser/args.go")],
 observe=["arg_parser.ExtractArgs errors and struct"])
p("C18","Row-source plugins emit exactly the documented sequence",
 "range emits start, start+step, ... strictly below end and terminates for every start, end and step; chain emits all rows of each of its queries in argument order; if emits exactly the rows of the branch its condition selects. Iterating a list emits one row per non-NULL member in order, a dict one row, NULL no rows and any other value one row holding it, and flatten emits the full cross product of list-valued columns in order.",
 ["inputs"],"All parameter values and row sequences.",
 "Golden tests use ranges of a few elements with positive step.",
 ["plugins/range.go","plugins/chain.go","plugins/if.go","plugins/flatten.go","protocols/protocol_iterate.go","plugins/generic.go"],
 [("plugins","plugins/*.go Call"),("value iteration","protocols/protocol_iterate.go Iterate")],
 observe=["plugin output channels"])
p("C19","Batched results partition the row stream without loss, duplication or reordering",
 "Delivering a query's results in batches emits parts numbered consecutively from zero whose row payloads, concatenated in order, contain every row exactly once in order, each part reporting the number of rows it holds. No part holds more than the configured maximum number of rows (at least one), and a final part is sent once the query ends.",
 ["inputs","schedules"],"All row counts, all maximum sizes and all timings of the flush timer.",
 "One test uses one row count and batch size.",
 ["api.go"],
 [("batching","api.go GetResponseChannel")],
 observe=["GetResponseChannel output"])
p("C20","Evaluating an expression again in the same environment gives the same value",
 "Evaluating any already parsed literal, symbol, negation, comparison or arithmetic expression any number of times, from any number of scopes, yields what its operands' values determine, independent of how often and where it was evaluated before. In particular a leading minus sign always negates and a numeric literal always denotes the same number.",
 ["histories","programs"],"All expressions and all sequences of evaluations of one parsed query.",
 "Golden tests evaluate most nodes once; caches inside parsed nodes only show on the second evaluation.",
 ["vfilter.go"],
 [("node reduction","vfilter.go _SymbolRef, _Value, _AdditionExpression, _MultiplicationExpression, _ConditionOperand Reduce")],
 state=[("cached lookups","memoised function, split symbol, parsed number","vfilter.go _SymbolRef, _Value")],observe=["SELECT expressions over many rows"])
p("C21","Stored queries and functions bind their parameters by name, defaults first",
 "Calling a stored query or function evaluates its body in a scope where each declared parameter is bound to the argument passed under its name, to its declared default when the argument is absent, and never to an unrelated outer variable of the same name when the argument is present. An argument that a stored query used as a row source does not declare is reported, and the caller's scope is left with the bindings it had.",
 ["programs","inputs"],"All parameter lists, argument sets and surrounding scopes.",
 "Golden tests call a few stored functions with one argument shape.",
 ["stored.go","lambda.go"],
 [("parameter binding","stored.go checkCallingArgs, applyDefaults, _StoredQuery.Call, StoredExpression.Call"),("lambda","lambda.go Lambda.Reduce")],
 observe=["LET f(x) = ..., x=>..."])
p("C22","Shared scopes and parsed queries are used concurrently without losing anything",
 "Goroutines that share a scope can extend it with bindings, derive scopes from it, resolve names, register destructors, use its aggregator context and close it at the same time, and goroutines can evaluate the same parsed query at the same time: every read or write of a scope's bindings, list of derived scopes, aggregator context and explain flag, of its destructor list, of the environment's logger and explainer when they are set or used, of the values in an aggregator context and of what the nodes of a parsed query remember between evaluations happens while that object's own lock is held, no goroutine takes a lock it already holds, every lock taken is released, and no binding, registration or modification is lost.",
 ["schedules"],"All interleavings of these operations from any number of goroutines.",
 "Tests run one schedule per run, from one goroutine, and without the race detector in the baseline.",
 ["scope/scope.go","scope/aggregators.go","vfilter.go"],
 [("scope locks","scope/scope.go Scope.Mutex and _destructors.mu: Copy, AppendVars, Resolve, AddDestructor, Close, SetAggregatorCtx"),("aggregator state","scope/aggregators.go AggregatorCtx.Modify"),("memo of parsed queries","vfilter.go _Value.Reduce, _SymbolRef.getFunction and callFunction, _AliasedExpression.GetName, VQL.getParameters, Plugin.Eval")],
 observe=["bindings, destructors and counts after concurrent use", "results of concurrent evaluations"])
p("C23","Cancelling a query stops all of its goroutines",
 "After a query's context is cancelled and its output drained, every goroutine started to evaluate it terminates.",
 ["schedules"],"All queries and cancellation points.",
 "Tests do not cancel.",["vfilter.go","plugins/foreach.go","sort/sort.go","grouper/grouper.go"],[("select on ctx.Done","every producer goroutine")],observe=["goroutine count"])
p("C24","Formatting a query preserves its meaning",
 "For every query that parses, the formatted text parses again to a query with the same structure, including parameters and their defaults, comments aside.",
 ["programs"],"All parseable queries.","Tests format a fixed list.",["visitor.go","reformat/format.go"],[("formatter","visitor.go")],observe=["FormatToString output"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
