#!/usr/bin/env python3
# writes /verif/properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Binary encoding round trip",
 "Converting a graph to binary OGDL and reading the bytes back yields a graph with the same nodes in the same order and nesting, whatever its size, depth or content lengths; contents that hold no bytes are transparent (their subnodes attach one level up), and variable-length integers read back as the number that was written. Contents that are text come back as the same text. It holds for contents without NUL bytes that do not start with byte 1.",
 ["inputs"],"every graph whose contents are NUL-free and do not start with 0x01; every level and length below 2^28",
 "The tests encode three or four small fixed graphs; nesting beyond 127 levels, which changes the integer format, and the general inverse relation of encoder and decoder are not reached.",
 ["binary.go","event.go"],
 [("Graph.Binary, Graph.bin, newVarInt","binary.go"),("binParser.parse, line, varInt, header, read","binary.go"),("SimpleEventHandler.AddAt, Tree","event.go")],
 ["(*Graph).Binary","FromBinary"])
p("C02","Any byte sequence can be given to the binary reader",
 "Reading binary OGDL from any byte sequence, valid or corrupt, ends after a bounded number of reads and gives either no graph or a graph without missing subnodes, without a crash. Nothing is read past the end marker of the object, and the count of consumed bytes is exactly what was taken from the stream.",
 ["inputs","fault_sequences"],"every byte stream, and every point at which the stream ends or its reader fails",
 "The tests read a handful of well formed streams and a few truncated ones.",
 ["binary.go","event.go"],
 [("binParser.parse/line/varInt/header/read","binary.go"),("SimpleEventHandler.Tree","event.go")],
 ["FromBinary","FromBinaryReader"],[("n","bytes consumed","binary.go binParser")])
p("C03","Log is append only and returns usable positions",
 "Every object added to a log is stored after all earlier ones, which keep their bytes, and the position returned is where it starts. Reading a log file at such a position returns that object (or its exact bytes) together with the position at which the next one starts.",
 ["histories"],"every sequence of additions and reads, on a file or a memory log",
 "The tests add one or two objects; they do not check positions over arbitrary histories, nor that the next position is right.",
 ["log.go","binary.go"],[("Log.Add, AddBinary, Get, GetBinary, Bytes","log.go")],["OpenLog","Log.Add","Log.Get","Log.GetBinary"],
 [("f","the log file","log.go Log"),("b","the memory log","log.go Log")])
p("C04","The text reader delivers the input stream unchanged",
 "Whatever the sizes of the pieces in which a reader delivers its data, the parser sees exactly the bytes of the stream, in order, each once, followed by an end of stream that persists. Bytes and characters that are pushed back are delivered again identically.",
 ["inputs","schedules"],"every byte stream, every segmentation of it by the reader, every sequence of reads and pushbacks within the buffer window",
 "The tests parse short strings which are delivered in one read and fit in the buffer.",
 ["lexer.go","parser.go"],[("Lexer.fill, Byte, UnreadByte, PeekByte, Rune, UnreadRune","lexer.go"),("NewLexer, NewParser","lexer.go, parser.go")],
 ["NewLexer","Lexer.Byte","Lexer.UnreadByte","FromReader"],[("buf, r, lastByte","window over the stream","lexer.go Lexer")])
p("C05","Lexical productions consume exactly what they return",
 "Each lexical production (string, token, integer, number, operator, space, white space, break, comment, template text) consumes the longest run of characters of its class at the current position and nothing else: what it returns is what it consumed (a plus sign in front of a number is dropped), and the next character read is the first one that does not belong to it. When there is no match nothing is consumed.",
 ["inputs"],"every input and every starting position",
 "The lexer tests try a few short inputs per production and do not look at what remains in the stream.",
 ["lexer.go"],[("String, StringStop, Integer, Operator, Space, WhiteSpace, Break, Comment, Number, Token8, TemplateText, End","lexer.go")],
 ["Lexer methods"])
p("C06","Text form round trip of simple graphs",
 "A graph whose contents are simple words (no spaces, quotes, commas, parentheses, no leading # or backslash) is written as text and parsed back to an equal graph.",
 ["inputs"],"every graph of simple words, of any shape",
 "Tests parse fixed texts; no test relates the emitter to the parser over arbitrary shapes.",
 ["graph.go","block.go","lexer.go","event.go"],[("Graph.Text, _text","graph.go"),("Parser.Ogdl, tree, line","block.go")],["Graph.Text","FromString"])
p("C07","Event sequences build the tree they describe",
 "From a sequence of node events with levels the tree builder makes one node per event with the event's content, in order, placed under the most recent earlier event that is one level up (level zero nodes go directly under the root). Level changes and removal of the last event are reflected exactly, and levels never go below zero.",
 ["histories","inputs"],"every event sequence whose levels stay within those announced to the builder",
 "The event handler is only exercised indirectly, through a few parsed texts.",
 ["event.go"],[("SimpleEventHandler.Add*, Inc, Dec, SetLevel, Delete, Tree","event.go")],["SimpleEventHandler.Tree"],
 [("items, levels, current, max","the recorded events","event.go")])
p("C08","Editing a graph changes exactly what it says",
 "Adding, setting, clearing and deleting subnodes has exact list semantics: the affected node's subnodes are the expected sequence, all other subnodes keep their identity and order, and no other node changes. Lookup by name returns the first subnode whose text equals the name, or nothing.",
 ["inputs","histories"],"every graph, content and sequence of edits",
 "Tests check single edits on small graphs, mostly through their text form; they do not check that nothing else changes.",
 ["graph.go"],[("Add, AddNodes, addNodes, Node, NodeOrNew, NodeSet, Create, GetAt, Len, Clear, Delete, DeleteAt","graph.go")],["Graph methods"],
 [("Out","the subnodes","graph.go Graph")])
p("C09","Clone, Copy and Equals agree and do not share structure",
 "A clone has the same shape and contents as its original and shares no node with it, copying appends such clones of all subnodes and leaves the rest alone, and neither modifies the source. Equality of two graphs holds exactly when shape and contents coincide everywhere, for binary contents too.",
 ["inputs"],"every tree with comparable or binary contents",
 "Tests compare a few small graphs; sharing is not looked at, nor are nil graphs and empty contents.",
 ["graph.go"],[("Clone, Copy, Equals, sameContent","graph.go")],["Graph.Clone","Graph.Copy","Graph.Equals"])
p("C10","Setting a path is followed by reading it",
 "After setting a value at a path made of names and indexes, following the same path leads to that value, the nodes along the path that existed are kept, missing ones are created, and gaps before an index are filled with empty nodes rather than missing ones. Siblings on the way are unchanged and an invalid index changes nothing.",
 ["inputs","histories"],"every graph, path of names and indexes, and value",
 "Tests set a few paths on small graphs and look at the text form.",
 ["graph.go","eval.go","flow.go"],[("Graph.Set, set, setAt, addNodes","graph.go"),("Graph.Get, getPath","eval.go")],["Graph.Set","Graph.Get"])
p("C11","Typed accessors never fail and honour their defaults",
 "Reading a node as text, bytes, integer, number, boolean or list works on any graph and content, including missing nodes, and never crashes. The value is the conversion of the content (numbers of any width keep their value, text is parsed), and when there is none the given default (or the zero value, NaN for floats) is returned.",
 ["inputs"],"every graph, content type and value, with and without default",
 "Tests read a few values; missing nodes and most content types are not sampled.",
 ["gettypes.go"],[("Int64, Float64, Bool, String, ThisString, StringCSV, StringTxt, Strings, Bytes, ThisBytes, Number, Scalar, ThisScalar, Interface","gettypes.go"),("_int64, _int64f, _float64, _float64f, _boolf, _string, _bytes, number, isInteger","gettypes.go")],["Graph accessors"])
p("C12","Path lookup resolves elements left to right",
 "Following a path of names, indexes and selectors resolves each element against the node reached so far: a name leads to its first occurrence, an index to the subnode at that position, {} to the subnodes of all occurrences of the preceding name and {n} to those of its n-th. When an element has no match the result is empty rather than a crash, and lookup does not change the graph.",
 ["inputs"],"every graph without function nodes and every path",
 "Tests resolve some fixed paths in small graphs.",
 ["eval.go","graph.go"],[("getPath, evalPath, index, addEqualNodes, Node, GetAt","eval.go, graph.go")],["Graph.Get","Graph.Eval"])
p("C13","Operators compute on any pair of values",
 "The arithmetic, comparison and logical operators give a result for every pair of values and never crash: integers use 64-bit integer arithmetic, mixed or floating operands floating point, texts concatenate under +, comparisons follow the type of the first operand, and logic applies to booleans. An integer division or remainder by zero gives no value.",
 ["inputs"],"every pair of operand values and every operator",
 "Tests evaluate a few dozen expressions with small numbers.",
 ["eval.go","gettypes.go"],[("calc, compare, logic","eval.go"),("_int64, _int64f, _float64, _float64f, _boolf, _string","gettypes.go")],["Graph.Eval"])
p("C14","Expressions group by operator precedence",
 "A parsed expression is regrouped so that each binary operator has exactly two operands, tighter operators are applied first (* / % before + -, then comparisons, &&, ||, assignments) and equal ones from left to right, keeping all operands in order. Malformed expressions are handled without a crash.",
 ["inputs","programs"],"every expression",
 "Tests cover a few expressions with up to four operators.",
 ["expression.go","flow.go"],[("precedence, ast, _ast","expression.go"),("Parser.Expression, UnaryExpression","flow.go")],["NewExpression"])
p("C15","Templates emit the branches that apply, in order",
 "Processing a template outputs its fixed text and the text of its variables in order; of an if / elseif / else chain exactly the first branch whose condition is true (or the else part) is processed; a for loop processes its body once per element in order, with the loop variable bound to it, until a break. Processing does not change the template.",
 ["programs","inputs"],"every parsed template and context",
 "Tests process about twenty fixed templates.",
 ["template.go"],[("Graph.process, flow, simplify","template.go")],["NewTemplate","Graph.Process"])
p("C16","Schema check accepts exactly the conforming graphs",
 "Checking a graph against a schema succeeds exactly when every schema node has a counterpart at the same position whose content conforms: equal text for literals, a convertible value for !int, !float and !bool, a text for !string and bytes for !binary, and so on recursively. It never crashes and reports a mismatch otherwise.",
 ["inputs"],"every pair of schema and graph",
 "There is one test with one schema.",
 ["schema.go","gettypes.go"],[("Graph.Check, checkNode","schema.go")],["Graph.Check"])
p("C17","JSON output leaves the graph unchanged and quotes text",
 "Producing JSON does not modify the graph. Every text is written between double quotes with its inner double quotes escaped, numbers are written as numbers, and lists and maps are closed by their own bracket.",
 ["inputs"],"every graph",
 "Tests compare the JSON of a few small graphs.",
 ["encoding.go"],[("Graph.JSON, json, writeValue, writeString","encoding.go")],["Graph.JSON"])
p("C18","Sorting orders the subnodes and loses none",
 "Sorting the subnodes by a field leaves exactly the same subnodes, ordered by the text (or the integer value) of that field, and changes nothing inside them.",
 ["inputs"],"every graph and field",
 "There is no test of sorting.",
 ["sort.go"],[("stringSorter and intSorter Len, Less, Swap","sort.go")],["Graph.Sort","Graph.SortAsInt"])
p("C19","Remote calls do not depend on how the network splits data",
 "A server or client message is length prefixed: the whole prefix and then exactly that many bytes are consumed per message however the network splits or joins them, each request gets exactly one response with its own length, and a connection that ends early or is malformed is closed without invoking the handler on partial data.",
 ["schedules","fault_sequences","inputs"],"every segmentation of the byte stream and every point where it ends",
 "There are no tests of remote functions.",
 ["ogdlrf/server.go","ogdlrf/client.go"],[("process","ogdlrf/server.go"),("Client.callV2","ogdlrf/client.go")],["net.Conn given to the server","Client.Call"])
p("C20","XML import follows the document structure safely",
 "Importing XML gives a graph that follows the nesting of the document: one node per element, then its attributes as @name with their value, then its text and elements in order; malformed documents give what was read so far. Neither importing nor simplifying the result can crash, for any input.",
 ["inputs"],"every byte sequence, every graph",
 "There are no tests of the XML importer.",
 ["io/gxml/xml.go"],[("FromXML, Simplify","io/gxml/xml.go")],["gxml.FromXML","gxml.Simplify"])
p("C21","Any text can be parsed as OGDL",
 "Parsing any byte sequence as OGDL text ends, does not crash, and gives a graph without missing subnodes.",
 ["inputs"],"every byte sequence",
 "Tests parse a few dozen texts.",
 ["block.go","lexer.go","event.go","parser.go"],[("Parser.Ogdl, tree, line","block.go")],["FromString","FromBytes"])
p("C22","Any text can be parsed as path, expression or template",
 "Parsing any text as a path, an expression or a template ends, does not crash, and gives a graph without missing subnodes.",
 ["inputs"],"every byte sequence",
 "Tests parse a few dozen texts.",
 ["flow.go","expression.go","template.go","lexer.go"],[("Parser.Path, Expression, UnaryExpression, Args, ArgList, Index, Selector","flow.go"),("NewTemplate, simplify, flow","template.go")],["NewPath","NewExpression","NewTemplate"])
p("C23","Functions registered in a context are called with their arguments",
 "A path element that names a function or an object factory in the context is called through reflection with its evaluated arguments, and its result takes the place of the path.",
 ["programs"],"every registered function value and argument list",
 "Tests register a couple of functions.",
 ["function.go"],[("Graph.function","function.go")],["Graph.Eval"])
p("C24","The remote function server serves connections concurrently",
 "Requests on different connections are served independently of each other, in any interleaving.",
 ["schedules"],"every interleaving of connections",
 "There are no tests of remote functions.",
 ["ogdlrf/server.go"],[("Serve, Serve1","ogdlrf/server.go")],["Serve"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
