#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as code so that the wording stays reviewable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

CODEC=["beacon/beacon.go","request/request.go","metadata/metadata.go","data/data.go","status/status.go","dirent/dirent.go","timestamp/timestamp.go","sarflags/sarflags.go"]
p("C01","No received byte sequence can crash the node",
 "Decoding any byte sequence as a beacon, request, metadata, data or status frame (and the directory entry and timestamp inside them), and printing what was decoded, either yields a frame or returns an error. Hearing such a frame and handling what was decoded from it ends the node no more than decoding does. It never panics, never reads outside the received bytes and never ends the process, whatever flag values, lengths or missing terminators the bytes contain.",
 ["inputs"],"every byte sequence of every length, with every combination of header flag bits",
 "The tests decode three frames that the program itself has just encoded; no malformed, truncated or hostile frame is ever decoded.",
 CODEC+["saratoga/saratoga.go"],
 [("length checks before each slice of the frame","Decode methods"),("unknown flag values are reported to the caller","sarflags.GetStr, GetDStr, GetTStr"),("first-byte and length check","timestamp.Get"),("frame size check","saratoga.listen")],
 observe=["return value of Decode","process exit"])
p("C02","Decoding inverts encoding for every frame",
 "Whenever encoding a beacon, request, metadata, data or status frame or a directory entry succeeds, decoding the resulting bytes succeeds and yields exactly the same header, session, identifiers, sizes, offsets, progress, timestamps, holes, names, checksum and payload. The result does not depend on what the receiving structure held before.",
 ["inputs","histories"],"every field value, every flag combination that encodes, every list of holes, and every previous content of the structure decoded into",
 "Tests encode one or two frames with small values and compare printed text; most descriptor x timestamp x hole-count combinations are never exercised.",
 CODEC,[("symmetrical Encode/Decode field order","codec packages"),("reset of receiving structure","Decode methods")],observe=["Encode followed by Decode"])
p("C03","Encoded frames follow the Saratoga wire layout",
 "Every encoded frame has the published layout: a four byte big-endian flags word, then (except for beacons) the four byte session, an optional sixteen byte timestamp, then the fixed-width fields of the width the descriptor names, big-endian, in protocol order, with no gap or overlap, and the variable part (identifier, name with terminating zero, authentication, checksum, directory entry, hole list, payload) occupying exactly the rest. Timestamps and directory entries likewise have their published internal layout.",
 ["inputs"],"every frame type, descriptor width, timestamp type, free-space width, checksum length and field value",
 "A change made consistently in the encoder and the decoder passes every round-trip test while breaking every other implementation; no test compares bytes to the specification.",
 CODEC,[("offsets and widths used by Encode","codec packages"),("timestamp byte layout","timestamp.Put")],observe=["bytes returned by Encode / Put"])
p("C04","A value that does not fit its descriptor is refused, never truncated",
 "Encoding a frame or directory entry whose offset, progress, in-response-to, hole boundary, size or free space does not fit the width its descriptor announces returns an error. No encoder ever emits a silently truncated number, and every value that does fit is accepted.",
 ["inputs"],"every 64-bit value of every numeric field under every descriptor width",
 "Tests only use values that fit; the boundary values of each width are never encoded.",
 ["beacon/beacon.go","data/data.go","status/status.go","dirent/dirent.go","request/request.go"],
 [("range check before narrowing conversion","Encode methods"),("width limits","sarflags.MaxUint16, MaxUint32, MaxUint64")],observe=["error returned by Encode"])
p("C05","Flag fields are independent and setting then getting returns the option",
 "Setting a header, directory-entry or timestamp flag to one of its options changes exactly the bits of that field, and reading that field by value, by name or by test then returns exactly that option for every accessor. Reading never changes anything, an unknown field or option is reported as an error leaving the word unchanged, and an undefined bit pattern reads as no option.",
 ["inputs","configurations"],"every 32/16/8-bit flag word, every field, every option, every sequence of sets",
 "Tests set a few flags once on a zero header; overlap with neighbouring bits on non-zero words is not exercised.",
 ["sarflags/sarflags.go"],[("shift/mask computation","sarflags Get/Set, GetD/SetD, GetT/SetT and their string forms")],
 state=[("Flags, DirentFlags, TimeStamps","position, width and options of each field","sarflags/sarflags.go")],observe=["returned flag words and option names"])
p("C06","The shipped flag tables match the protocol and never overlap",
 "The flag tables in the shipped configuration give every protocol field its published bit position, width and option values. Within one frame type no two fields share a bit, every option fits its field, no two options of a field share a value, and each field names exactly the frame types that list it.",
 ["configurations"],"every pair of fields of every frame type and every option",
 "Tests load the tables but never examine positions; an encoder and decoder sharing one wrong table agree with each other.",
 ["saratoga/saratoga.json","sarflags/sarflags.go"],[("flag tables","saratoga/saratoga.json: flags, frameflags, direntflags, timestamps")],observe=["header words on the wire"])
p("C07","Every flag, option and type name the program uses is defined",
 "Every flag name, option value, timestamp type, checksum type, request type and error code that the program sets, reads, compares, stores as a default or passes in a flag string is defined in the shipped configuration for the flag it is used with (a transfer type may also be the name of a transfer command). No comparison is made against a name the table can never produce.",
 ["programs","configurations"],"every use in the program, on every path",
 "The names are strings: a misspelling compiles and only shows on the path that uses it, and the tests execute few of those paths.",
 ["sarflags/sarflags.go","saratoga/saratoga.json","trans/trans.go","sarwin/sarwin.go","saratoga/saratoga.go"],[("string keyed flag tables","saratoga/saratoga.json")],observe=["error returns / ignored requests"])
p("C08","Frame constructors produce exactly the requested frame",
 "Building a beacon, request, metadata, data or status frame, from a flag string or from a header word, yields protocol version 1 and that frame's type (unless the flag string itself names another), every requested flag with the requested option and every other flag bit untouched (the free-space flag of a beacon and the checksum length follow from the other items), and every item of the supplied information (session, name, authentication, offset, payload, progress, in-response-to, holes, identifier, free space) carried unchanged. A malformed or inapplicable flag is refused with an error and never crashes the caller.",
 ["inputs"],"every flag string, header word and information structure",
 "Tests build one frame per type with well-formed flags and mostly look at printed output.",
 ["beacon/beacon.go","request/request.go","metadata/metadata.go","data/data.go","status/status.go","dirent/dirent.go"],
 [("flag parsing loop","New methods"),("copy from the information structure","New and Make methods")],observe=["fields of the constructed frame","error return"])
p("C09","Copies handed between components are complete",
 "Every operation that hands a frame, directory entry, status or operator configuration on by value (channel packets, value and copy operations, configuration snapshots) delivers every field unchanged, together with the peer address it was given. A configuration snapshot shares no mutable map with the original, and a frame built from caller supplied bytes does not alias them.",
 ["inputs"],"every field of every structure, every value",
 "A dropped or swapped field compiles and is invisible unless that field is compared; no test inspects these copies.",
 ["beacon/beacon.go","request/request.go","metadata/metadata.go","data/data.go","status/status.go","dirent/dirent.go","sarflags/sarflags.go"],
 [("field-by-field copies","Val, Values, Value, Copy, CopyCliflags")],observe=["fields of the copy"])
p("C10","Timestamps denote the requested instant in the requested format",
 "A timestamp made from an instant in a given format holds that instant's seconds (counted from 1970, or from 2000 for the year-2000 format) and, where the format has them, its nanoseconds, and reports an error when the seconds do not fit. Writing it to the wire and reading it back yields the same type, seconds, nanoseconds and local text, the wire form is always sixteen bytes, and printing shows the date and time of day of the stored seconds, counted with the same epoch.",
 ["inputs"],"every instant and every timestamp type",
 "The one timestamp test prints the current time; it never reads a timestamp back nor checks range or epoch.",
 ["timestamp/timestamp.go"],[("per-type conversion","timestamp.New, Put, Get, Print")],observe=["Put/Get results"])
p("C11","Received ranges are tracked exactly",
 "After any sequence of received ranges (of non-negative offsets, start before end), the record of what was received covers exactly the union of the non-empty ranges added, kept in ascending order with no two entries touching or overlapping. The reported holes are exactly the gaps before and between the entries, in order, and their count agrees.",
 ["inputs","histories"],"every sequence of added ranges, in any order, with any overlap",
 "No test touches this code; overlap, containment, adjacency and out-of-order arrival multiply beyond sampling.",
 ["holes/holes.go"],[("sorted insert and merge","holes.Add, optimise, remove"),("gap listing","holes.Getholes, Lenholes")],
 state=[("Holes","sorted list of half-open ranges","holes/holes.go")],observe=["returned list"])
p("C12","A send reports success only after the whole frame was written",
 "Sending a frame reports success only if the frame encoded without error and one write of exactly those bytes to the given destination succeeded for their whole length. An encoding error, write error or short write is always returned to the caller.",
 ["inputs","fault_sequences"],"every frame type and every failure or short count of the write",
 "No test sends a frame, and a failing or short socket write cannot be produced on demand.",
 ["beacon/beacon.go","request/request.go","metadata/metadata.go","data/data.go","status/status.go"],[("encode, write, compare lengths","Send methods")],observe=["error returned by Send"])
p("C13","Shared tables are only touched under their lock",
 "The peer table, both transfer tables, the session counter and the operator's settings are read and written by network, timer and user-interface activities at once. Every access made after start-up, other than reading a field that is never written again, happens while holding the one lock that belongs to that table, and no reference into a table outlives the lock for writing.",
 ["schedules"],"every interleaving of the listener, dispatcher, beacon sender, transfer and user-interface activities",
 "Races need particular interleavings; no test runs two activities, and the packages concerned have no tests.",
 ["beacon/beacon.go","sarwin/sarwin.go","trans/trans.go","sarflags/sarflags.go"],[("mutexes","beacon pmu, sarwin Trmu/smu, trans Trmu, sarflags Climu")],
 state=[("Peers","known peers","beacon/beacon.go"),("Transfers","transfers in progress","sarwin/sarwin.go, trans/trans.go"),("sessionid","last session number","sarwin/sarwin.go"),("Cliflag","operator settings","sarflags/sarflags.go")],observe=["race detector, corrupted tables"])
p("C14","Every lock taken is released on every path and never taken twice",
 "Whatever path an operation takes, including every early or error return, each lock it takes is released exactly once before it returns. No operation takes a lock it already holds, directly or through anything it calls, and any two locks are always taken in the same order.",
 ["schedules","inputs"],"every path through every function and every interleaving",
 "A leaked or re-entered lock shows only on the particular early return or call chain; tests do not execute these packages.",
 ["beacon/beacon.go","sarwin/sarwin.go","trans/trans.go","sarflags/sarflags.go"],[("lock/unlock pairing","all uses of sync.Mutex")],observe=["node stops responding"])
p("C15","The frame dispatcher never waits on itself",
 "The activity that drains the received and outgoing frame queues never itself performs a send on, or waits for, a queue that only it drains, and a bad frame never ends a listener: after any frame is accepted, dropped or refused the listener goes on to read the next one.",
 ["schedules","inputs"],"every sequence of received frames and every interleaving of listeners and dispatcher",
 "It needs a live network request while the dispatcher runs; the program has no tests of its main loop.",
 ["saratoga/saratoga.go","trans/trans.go"],[("select loop over rx/tx channels","saratoga.main"),("read loop","saratoga.listen")],observe=["node keeps answering"])
p("C16","Every frame type is decoded as itself and handed on or refused",
 "For IPv4 and IPv6 alike, a received version 1 frame of each of the five types is decoded by that type's decoder and, when valid, handed to the dispatcher exactly once with the sender's address. A frame of another version is answered with exactly one bad-packet status (for session zero), a data, metadata or status frame that does not decode with exactly one for the session in the frame, and a queued status is sent once, on the connection of its address family, to its address, while malformed beacons and requests, frames of unknown type and frames of impossible length are dropped unanswered.",
 ["inputs"],"every frame type, version, length and decode outcome, on both address families",
 "The listener and dispatcher have no tests, and the two address-family branches are separate copies of the code.",
 ["saratoga/saratoga.go"],[("frame type switch","saratoga.listen"),("type switches over rx and tx queues","saratoga.main")],observe=["frames placed on the rx/tx queues"])
p("C17","Every request is answered by exactly one status for its session",
 "Processing a received request answers the requester with exactly one status frame carrying that request's session, on every outcome. The error code tells the outcome: unsupported or unknown requests are bad requests, unwilling or missing files and failed deletions are reported by a code that applies, and success is reported only if the file was actually deleted or the transfer is registered. A repeated request of the same type, session and peer is answered success without a second registration, one of another type as a bad request.",
 ["inputs","fault_sequences"],"every request type, flag combination and state of the local file",
 "No test processes a request; each refusal branch is separate code.",
 ["trans/trans.go"],[("one status per exit","trans.AddRxTran")],observe=["frames on the outgoing queue","transfer table"])
p("C18","File names from peers cannot escape the transfer directory",
 "Every file the node opens, creates, examines, lists or deletes on behalf of a transfer or request lies inside the configured transfer directory (or is that directory), whatever the requested name contains. Loading the configuration and asking for the free space are not file operations in this sense. In particular parent-directory components and absolute names cannot select or delete a file outside it.",
 ["inputs"],"every file name string",
 "Tests use plain names; hostile names are never tried.",
 ["fileio/fileio.go","dirent/dirent.go","trans/trans.go"],[("path construction from the transfer directory","fileio functions")],observe=["paths passed to the operating system"])
p("C19","Receiving a file never overwrites or truncates an existing one",
 "Opening a local file to receive into it fails when something of that name already exists and otherwise creates it, and opening for sending never modifies the file and fails when it does not exist. An unknown transfer type opens nothing.",
 ["inputs","histories"],"every name, transfer type and prior content of the directory, including a file appearing concurrently",
 "The only file test fails before reaching this code; existing-file cases are not covered.",
 ["fileio/fileio.go"],[("existence check and create flags","fileio.FileOpen")],observe=["existing files keep their content"])
p("C20","Checksums cover the whole file with the advertised algorithm",
 "A checksum of type crc32, md5 or sha1 is that algorithm (crc32 with the IEEE polynomial) over the entire content of the named file, has the length the protocol assigns to that type, and is absent for type none. An unknown type, an unreadable file or a failed read is an error, never a checksum.",
 ["inputs","fault_sequences"],"every file content, name and checksum type, and every read failure",
 "The checksum test fails before computing anything, and read errors part-way through a file cannot be produced on demand.",
 ["fileio/checksum.go","metadata/metadata.go"],[("hash selection and copy","fileio.Checksum")],observe=["returned checksum bytes"])
p("C21","File reads and writes happen at the requested position",
 "Reading from or writing to an open transfer file happens at exactly the requested offset and touches no other part of the file; the bytes returned are exactly those read and the count returned is what was written. A position that cannot be represented or reached, a closed file, or a failing operation is reported as an error.",
 ["inputs","fault_sequences"],"every position, length and failure of the underlying file",
 "The only test fails before reaching this code; failing or short seeks, reads and writes cannot be produced on demand.",
 ["fileio/fileio.go"],[("seek then read/write","fileio.FileSeek, FileRead, FileWrite"),("close and remove","FileDelete, FileRm")],observe=["bytes at the position, error returns"])
p("C22","Local transfers never share a session number",
 "Two transfers started by this node, however concurrently, never receive the same session number until the 32-bit counter has wrapped.",
 ["schedules","histories"],"every interleaving of transfer creations",
 "Uniqueness under concurrency depends on the interleaving; there is no test.",
 ["sarwin/sarwin.go"],[("counter under lock","sarwin newsession")],state=[("sessionid","last session number handed out","sarwin/sarwin.go")],observe=["session of created transfers"])
p("C23","The peer table mirrors the latest beacon of each address",
 "After a beacon from an address is processed there is exactly one entry for that address, holding that beacon's free space, identifier, descriptor and willingness, and other entries are unchanged. The caller is told of a change exactly when the entry was added or any of those values differed, the last-updated time moves exactly then, and the creation time never changes.",
 ["inputs","histories"],"every sequence of beacons from any addresses",
 "No test processes a beacon into the table.",
 ["beacon/beacon.go"],[("scan, compare, update or append","beacon.NewPeer")],state=[("Peers","known peers","beacon/beacon.go")],observe=["peer table","return value"])
p("C24","Every documented command is dispatched and no input line crashes the node",
 "Every command documented in the shipped configuration has a handler of that name and every handler is documented. Any line the operator types, including empty or blank lines, missing, surplus or ill-formed arguments, either runs the named command, shows its usage or reports an error, and never crashes the node. A command named like a kind of transfer starts that kind of transfer, of the named file with the named peer. Only exit and quit leave the program.",
 ["inputs"],"every input line",
 "The user-interface package has no tests; argument handling is spread over some thirty handlers.",
 ["sarwin/sarwin.go","saratoga/saratoga.json"],[("command map and argument checks","sarwin Run and command handlers")],observe=["node keeps running, error message"])
p("C25","Operator settings always hold legal values",
 "Whatever the operator types, every default flag stored for use in outgoing frames is a legal option of that flag in the flag tables, and every command that changes a setting changes exactly the setting it is named for. Building the flag string of any frame type from the stored defaults therefore always succeeds.",
 ["inputs","histories"],"every sequence of operator commands",
 "The user-interface package has no tests; an illegal stored option only shows later when a frame is built.",
 ["sarwin/sarwin.go","sarflags/sarflags.go"],[("option checks in command handlers","sarwin command handlers")],state=[("Cliflag.Global","default flag options","sarflags/sarflags.go")],observe=["settings after each command"])
p("C26","The configuration file is loaded faithfully",
 "Loading a configuration stores each documented setting, timeout, command, flag field, option, directory-entry field and timestamp type in the matching place and nowhere else, with the environment overriding only the transfer directory. A default flag with an illegal option, or a file that is unreadable, not JSON or holds a value of the wrong type, is reported as an error.",
 ["configurations","inputs"],"every value of every key of the configuration",
 "Tests load one configuration and examine nothing of the result; swapped keys with equal or similar values go unnoticed.",
 ["sarflags/sarflags.go","saratoga/saratoga.json"],[("key switch and assignment","sarflags ReadConfig")],observe=["settings and tables after loading"])
p("C27","The transfer table identifies transfers exactly",
 "Looking up a transfer by direction, session and peer yields a transfer with exactly those values if one is registered and nothing otherwise. Removing a transfer removes that transfer and no other, and registering never creates a second entry with the same identity. The operator's own transfers have distinct sessions, and a second one of the same file to the same peer is refused.",
 ["inputs","histories"],"every content of the transfer table and every identity",
 "The user-interface package has no tests.",
 ["sarwin/sarwin.go"],[("search and removal","sarwin Lookup, Match, Remove, NewInitiator, NewResponder")],state=[("Transfers","transfers in progress","sarwin/sarwin.go")],observe=["table after the operation"])
p("C28","File metadata describes the file that was asked for",
 "The metadata and directory entry built for a file describe that very file: its name, its size, its modification and its change time, each in its own place, and whether it is a regular file, directory or other special file (which has size zero and the current time). The descriptor chosen is wide enough for the size, and a missing or unreadable file is an error, never a description of something else. The file is assumed not to change while it is described.",
 ["inputs","fault_sequences"],"every file, size, time and stat failure",
 "The metadata test fails before looking at the result; equal modification and change times hide swaps.",
 ["fileio/fileio.go","dirent/dirent.go","metadata/metadata.go","sarsys/sys_linux.go"],[("stat and field mapping","fileio.FileMeta, dirent.New/Statfile, metadata.New/Make")],observe=["fields of the directory entry"])
p("C29","Errors from encoding, files and sockets are never dropped",
 "Whenever an encoder, decoder, constructor, file operation or socket operation reports an error, the operation that called it either returns an error or failure value itself, or reports it (to the operator, the log or the peer, and never to the peer as success). No result of a failed operation is used as if it had succeeded. Closing, the terminal library, and asking whether a file exists are excepted, and a beacon whose free space is unknown goes out without it.",
 ["fault_sequences","inputs"],"every error return of every fallible operation on every path",
 "Faults of files and sockets cannot be produced on demand, and a dropped error shows only when the fault occurs.",
 CODEC+["fileio/fileio.go","fileio/checksum.go"],[("error propagation","all callers of fallible functions")],observe=["error return values"])
p("C30","A file is delivered complete and identical to the peer",
 "When a transfer is reported complete, the receiver's file is byte for byte the sender's file, whatever frames were lost, duplicated or reordered on the way.",
 ["schedules","fault_sequences","histories"],"every loss, duplication and reordering pattern",
 "It needs two nodes and a lossy network.",
 ["sarwin/sarwin.go","trans/trans.go"],[("transfer engine (not implemented at this commit)","sarwin Transfer.Do")])
p("C31","Beacons are sent at the configured interval and count",
 "When the operator asks for beacons (to the IPv4 or IPv6 multicast group or to one or more addresses), the node sends the configured number of them to each address named, one activity per address, and between one beacon and the next to an address it waits the configured number of seconds. Fewer are sent only to a word that is not an address or after an operation failed, nothing is sent to any other address, and turning beacons off or asking about them sends nothing.",
 ["schedules","configurations"],"every interval of at least a second, counts from one, and address list",
 "It depends on elapsed time and live sockets; a test would have to wait for the intervals.",
 ["sarwin/sarwin.go","beacon/beacon.go"],[("the beacon command and its timed loop","sarwin cmdBeacon, sendbeacons")],observe=["frames written per address and the waits between them"])
p("C32","Memory stays bounded however much a peer sends",
 "The memory used by peer and transfer tables and by frames in flight stays within a bound however many frames peers send.",
 ["histories","fault_sequences"],"every volume and pattern of received frames",
 "It needs unbounded histories.",
 ["beacon/beacon.go","trans/trans.go"],[("none: tables grow with every new address or request","beacon.NewPeer, trans.AddRxTran")])
import os
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
