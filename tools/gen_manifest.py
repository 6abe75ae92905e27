import json
AI="abstract interpretation of the SSA form (linear relations, bit fields, byte-sequence segments, loop summaries)"
T={
"C01":AI+" of decoders and printers over unknown bytes; crash obligations",
"C02":AI+" of each encoder followed by its decoder; field by field equality",
"C03":AI+" of each encoder; produced byte sequence compared with the published layout",
"C04":AI+" of each encoder split at the width boundary of every number",
"C05":AI+" of the flag accessors, per field and option",
"C08":AI+" of every constructor for each flag and option and for unknown flag text",
"C09":AI+" of every copy operation on unknown contents; field by field equality and aliasing",
"C10":AI+" of the timestamp constructor, wire form and printer per format",
"C11":AI+"; induction over the record of received ranges with unknown boundaries",
"C12":AI+" of every Send with the encoder and the connection replaced by their contracts",
"C13":"interprocedural lockset (must-hold) analysis with reference tracking over the SSA form",
"C15":AI+" of main and everything it starts, with lock and queue dependencies followed across activities",
"C16":AI+" of the listeners over an unknown received frame; effects per path",
"C17":AI+" from main until an unknown received request is handled, over tables of unknown contents; one answer per path and its code against the path's facts",
"C18":AI+" of every function that passes a path to the library; composition of the path argument decided on every path",
"C19":AI+" of the opening of transfer files per transfer type; opening flags and effects, and a search of the rest of the program for file creation",
"C20":AI+" of the checksum function over contracts of hashes and files; algorithm, coverage and length of the digest, and its carriage in metadata",
"C21":AI+" of positioned reads, writes and seeks over contracts of file operations",
"C22":AI+" of the session counter and its call sites, with its starting value and every atomic or locked access followed",
"C28":AI+" of the entry and metadata constructors over the contract of file examination; field by field correspondence",
"C27":AI+" of every operation of the transfer tables over unknown contents; identity proved equal or refuted per entry",
"C23":AI+" of beacon processing over peer tables of unknown contents, from the function and from main's dispatch; entry by entry correspondence",
"C06":"comparison of the shipped tables, and of the tables an abstract interpretation of ReadConfig makes of them, with the published layout, pairwise over fields and options",
"C26":AI+" of ReadConfig over a configuration whose every leaf is an unknown of its own; place by place correspondence",
"C24":AI+" of the dispatcher and of every handler it starts over each documented word, each request for help and an unknown line, of the key bindings and of the printing functions",
"C25":AI+" of the dispatcher and setting handlers with every setting unknown, place by place comparison before and after; whole-program inventory of stores to the settings; flag strings followed into the constructors",
"C07":"backward closure of every text over the SSA form (through calls, results, fields, elements and concatenations) against the shipped tables: accessor arguments, flag strings, comparisons, stored defaults",
"C29":"per-call-site path walk over the SSA form assuming the call failed, with helper summaries: the failure must be returned, answered or reported on every path, its results unused and success never told",
"C31":AI+" of the beacon command and of every activity it starts; per address the frames written and the waits between them on every path",
"C14":"interprocedural lock-state and lock-order analysis over the SSA form",
}
NA={
"C30":"Delivery of a complete file across lost, duplicated and reordered frames is a history property of two nodes; the transfer engine that would provide it is not implemented (Transfer.Do blocks), so there is no code path a static rule could be about.",
"C32":"The tables grow by design with every new peer and transfer; a bound on memory over an unbounded history of peers is a runtime quantity that nothing in the source bounds.",
}
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NOTE="Decided from the current source for every input within the stated abstraction; anything the analysis cannot decide is reported as a violation. Trusts the documented behaviour of the standard library and the checker itself."
checks=[]
for i in ids:
    if i in T:
        checks.append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough","technique":T[i],"level":"other","level_note":NOTE})
na=[{"property":i,"reason":NA.get(i,"check not built yet")} for i in ids if i not in T]
json.dump({"version":1,"setup_cmd":"./run.sh build","checks":checks,"not_applicable":na,
 "notes":"One static analyser (checker/) decides every property; see DESIGN.md. known_findings.json lists findings."},open("/verif/MANIFEST.json","w"),indent=1)
