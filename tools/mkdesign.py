import json,glob,os
T=json.load(open('/verif/tools/claimed.json'))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
title={p['id']:p['title'] for p in props}
spec={
'C01':('40_binary, 41_binread, 43_roundtrip','`Binary`, `bin`, `newVarInt`; `FromBinary`, the `binParser` methods (`header`, `line`, `varInt`, `read`, `parse`); the lemma `roundtrip`',
 'The bytes written are a spec function of the graph (`bytesof`: per node its level as a variable-length integer, its content, a NUL; contents without bytes are transparent). The reader is specified over an abstract byte stream `rdat(r,k)`: line k of the stream is a (level, content) pair. The lemma composes the two: reading the bytes of g gives exactly the list of its written nodes with their levels; its proof is by induction over nodes and list positions (ghost measures `rank`). Placing the events is C07.'),
'C02':('41_binread','`binParser.parse`, `line`, `varInt`, `header`, `read`, `FromBinary`, `FromBinaryReader`',
 'Total correctness for every byte stream: index/nil/slice obligations, a `decreases` measure (bytes left + 1 for the final failing read) on each loop, `count == bytes taken`, the position of the reader at return is just behind the end marker, the tree has no nil subnodes.'),
'C03':('42_log','`Log.Add`, `AddBinary`, `Get`, `GetBinary`, `OpenLog`, `NewLog`, `Close`',
 'The log is a string (ghost: contents of the os.File or bytes.Buffer). Add: new contents = old contents + bytes of the object, result = old length. Get/GetBinary: what is read is a function of the contents from the position on, and the position returned is that plus the bytes the object takes (shared with C02).'),
'C04':('44_lexer','`NewLexer`, `Byte`, `UnreadByte`, `PeekByte`, `fill`, `Rune`, `UnreadRune`, `End`, ...',
 'Representation invariant of the buffer (window `[r-k, w)` of the stream, `rdat`) under an io.Reader whose contract allows every segmentation (any 0..len(p) bytes, errors with or without data). Byte returns stream byte `lp(p)` and moves by one; 2048 bytes can be unread; the end persists.'),
'C05':('44_lexer','`String`, `StringStop`, `Token`, `TokenDot`, `Integer`, `Number`, `Operator`, `Quoted`-independent productions, `Space`, `SpaceMax`, `WhiteSpace`, `Break`, `Comment`, `TemplateText`, ...',
 'Postconditions over the stream and the position: result = bytes consumed = longest run of the class, next byte is outside the class, nothing consumed on failure.'),
'C06':('94_text','`_text`, `Text`, `Show`',
 'The text is the recursive spec function `tlines` (indent(level) + word + newline, then the subnodes), proved equal to what is written for all graphs whose contents are words without special characters; all index and slice errors of Text/Show excluded for every graph. **Bounded:** the reading half (that the text parses back to an equal graph).'),
'C07':('45_event','every method of `SimpleEventHandler`, `NewEventHandler`',
 'Two-state contracts on the event list; `Tree` builds exactly one node per event, parent = most recent event one level up, position = order of events (quantified over all events, ghost `evnode`).'),
'C08':('20_graph','`Add`, `addNodes`, `AddNodes`, `addEqualNodes`, `Len`, `GetAt`, `Node`, `Get`-free lookups, `Delete`, `DeleteAt`, `SetAt`-like helpers, `New`',
 'List semantics: quantified equalities of the subnode list before and after, frame conditions (no other node changes) with an ownership discipline for the backing arrays (`owner(b)`), so that sharing a backing array between nodes is itself a violation.'),
'C09':('30_equals','`Clone`, `Copy`, `Equals`, `sameContent`',
 'Recursive specification `same(g,h)`; freshness of every node of the clone, frame of the source; Equals iff `same`.'),
'C10':('70_eval','`Set`, `set`, `setAt`, `index`, `addNodes`',
 'Ghost functions `stepat` (the node reached after k elements) and `stepix` record the walk; the postcondition says each step is the first occurrence or the position, the last holds the value, that every other node is unchanged and existing subnodes stay in place, gaps are non-nil empty nodes, and that an invalid index leaves everything as it was. All paths (also odd ones): no index/nil error.'),
'C11':('10_types, 50_types','all of gettypes.go (`_int64`, `_float64`, `_bool`, `_string`, `_bytes`, `isInteger`, ...) and the accessors of `Graph`',
 'Exact conversion tables per content type and width, text via uninterpreted `ParseInt`/`ParseFloat`, default otherwise.'),
'C12':('70_eval','`Get`, `GetFromPath`, `getPath`, `evalPath`, `Eval`, `evalBool`, `evalExpression`, `evalScalar`-level helpers, `index`, `addEqualNodes`',
 '`follow(g, p, k)`: the node reached by the first k elements. Proved for names and numeric indexes, and for {}. Safety for every path. **Bounded:** {n}, functions, computed elements.'),
'C13':('51_ops','`calc`, `compare`, `logic`, `calcInt`/`calcFloat` and friends',
 'Result specified per operator and pair of types; integers wrap at 64 bits (every machine operation carries explicit two\'s complement semantics); floats uninterpreted but the same operation on the same operands. **Bounded besides:** dispatch from operator text.'),
'C14':('71_ast','`precedence`, `isOperator`-type predicates, `ast`, `astNode`... of expression.go',
 'Precedence table and termination/safety/frame of regrouping proved. **Bounded:** shape of the regrouped tree against an independent precedence parser.'),
'C15':('92_template, 47_path, 70_eval','`Process`, `process`, `templateType`, `simplify`, `flow` and all of evaluation they call',
 'Text pieces: output = concatenation of the texts in order, nothing changes. Safety for every template and context. **Bounded:** variables, branches, loops, breaks, against an independent interpreter.'),
'C16':('64_schema','`Check` and its helpers in schema.go','Recursive predicate `conforms(g,s)`; Check returns true iff it holds.'),
'C17':('60_json','`JSON`, `json`, `writeString`, `writeValue`','Output = spec function `jtext(g)`; escaped text `jesc`; frame: graph unchanged (root restored).'),
'C18':('62_sort','`Len`, `Less`, `Swap` of the sorters, `Sort`, `SortInt`, ...','Less is the order of the key, Swap exchanges two positions, with the trusted contract of sort.Sort (an ordered permutation by the methods) the result is an ordered permutation.'),
'C19':('80_remote','`Server` connection handler, `read`/`write` of messages, `Client.Call`, `callV2`, `Dial`, `Close`','Ghost state of a connection (bytes got, bytes written, messages handled, `framed(written, n)`): loop invariants say that after n messages exactly their bytes were consumed and n framed responses written; errors lead to Close; on the client side one response per call, and none may be left for the next.'),
'C20':('90_xml','`gxml.Simplify`','Safety for every graph, frame (only nodes below). **Bounded:** FromXML against an independent reader over the tokens of a strict decoder.'),
'C21':('44_lexer, 45_event, 46_block','`Ogdl`, `OgdlTypes`, `tree`, `line`, `Block`, `Scalar`, `ScalarType`, `Quoted`, `FromString`, `FromBytes`, ...','Termination measures over the unread stream, safety, tree without holes.'),
'C22':('47_path, 71_ast','`Path`, `Expression`, `Template`, `Variable`, `Index`, `Selector`, `Args`, `ast`, `simplify`, `flow`, `NewPath`, `NewExpression`, `NewTemplate`','As C21.'),
}
orc={}
for o in json.load(open('/verif/replay/oracles.json')):
    orc.setdefault(o['prop'],[]).append((o['tests'].rstrip('$'),o['bound']))
out=open('/verif/tools/design_head.md').read()
out+='\n## 3. The properties\n\nFor each: contract files (`contracts/*.spec`), functions, what is specified. `level` is the level in MANIFEST.json. Cost is that of one check on 8 idle cores.\n'
for p in props:
    i=p['id']
    out+=f"\n### {i} {p['title']}\n\n"
    if i not in T:
        out+="Not applicable: "+json.load(open('/verif/tools/na.json'))[i]+".\n"; continue
    f,fn,what=spec[i]
    ev='/verif/evidence/%s.json'%i
    cost=''; units=[]
    if os.path.exists(ev):
        e=json.load(open(ev)); c=e['coverage']
        units=[x['unit'] if 'unit' in x else list(x.values())[0] for x in c['functions']]
        cost=f" {c['obligations']} obligations in {len(c['functions'])} units at the last run."
    out+=f"*Level {T[i].get('level','proof')}.* Contracts: {f}. {cost}\n\nUnits (functions under contract and lemmas, callees included): {', '.join('`'+u.replace('ogdl.','')+'`' for u in units)}.\n\n{what}\n\n{T[i]['note']}\n\n"
    out+="Oracle(s) on the real code: "+'; '.join(f"`{t}`: {b}" for t,b in orc.get(i,[]))+".\n"
out+=open('/verif/tools/design_tail.md').read()
out+='\n| seeded change | property | needs | caught by |\n|---|---|---|---|\n'
caught=json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    out+=f"| {n} | {m['property']} | {m['needs']} | {caught.get(n,'check of '+m['property'])} |\n"
open('/verif/DESIGN.md','w').write(out)
