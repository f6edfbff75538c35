#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below. Run after editing it."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, q, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None}})

IX = "internal/index/"
prop("C01", "Word lookup is sound and complete",
     "After any sequence of adding words and attaching tag sets to them, looking up a word (whole, as characters, or character by character from any node) succeeds exactly when that word is a non-empty prefix of an added word, and the node found spells that word. The tag sets found at a node are exactly the distinct tag sets attached to that word, each with its tags, whatever was added before or after. A failed lookup is an error, never a node of another word.",
     ["histories", "inputs"], "every sequence of word additions, tag set attachments and lookups over arbitrary words (any code points, shared prefixes, repeated words) and tag lists",
     "Existing tests of the index need modules that are not available and look at a handful of fixed Russian words; the guarantee is about all words and all orders of addition.",
     [IX+"idx.go", IX+"node.go", IX+"items.go"],
     [("walk and extension of the letter graph", "AddToNode, FetchFromItem, FetchItemFromParent in idx.go"), ("tag sets of a node", "TagSets, AddTagSet in node.go")],
     ["result of lookup by word", "spelling and tag sets of the node found"])
prop("C02", "A saved index loads back with the same answers",
     "Writing an index and reading it into a new index gives an index that answers every lookup as the original does: same words found and not found, same spelling, same tag sets, same tags under the same IDs, same node numbers, same counts, and it can be extended further like the original. Writing leaves the original as it was. An index that cannot be represented is refused with an error instead of written wrongly.",
     ["histories", "inputs"], "every index content reachable by adding words, tags and tag sets, and every lookup on it afterwards",
     "The persistence test covers one small vocabulary and compares a few fields; the claim is for every content.",
     [IX+"idx.go", IX+"items.go", IX+"item_def.go", IX+"tagset_index.go", IX+"variant_idx.go"],
     [("section writers and readers", "BinaryWriteTo, BinaryReadFrom in idx.go"), ("rebuilding of children and counters", "rebuildChildrenIndex in idx.go")],
     ["bytes written", "answers of the loaded index"])
prop("C03", "Optimizing an index preserves every answer",
     "Optimizing an index changes no answer: every word keeps its node, spelling and tag sets, unknown words stay unknown, counts stay the same, and the index can be extended, optimized again, saved and loaded afterwards. No tag set combination a word uses is lost or exchanged with another, and combinations no word uses any more take no room in what is saved.",
     ["histories", "inputs"], "every history of additions before and after optimizing, including combinations that fell out of use",
     "Which combinations are unused, and what their renumbering does to other words, depends on the whole history; the tests run one dictionary fragment.",
     [IX+"idx.go", IX+"variant_idx.go"],
     [("renumbering of used combinations", "Optimize in idx.go"), ("list of known combinations", "KnownID in variant_idx.go")],
     ["tag sets of every word before and after"])
prop("C04", "Tag IDs are dense, stable and unique per name",
     "Registering a tag name gives an existing ID if the name is known and otherwise the next unused ID, counting from 0; an ID once given always gives back the same name and first registered parent, and finding a name never registers it. An unknown name, or an ID that was never given out, is reported as not found. When all 256 IDs are taken a further name is refused rather than given an ID of another tag, and nothing changes.",
     ["histories", "inputs"], "every sequence of registrations and lookups of arbitrary names and parents, up to and beyond the largest number of tags",
     "The tests register a few fixed names and never come near the limit of the ID.",
     ["pkg/dag/idx.go", "pkg/dag/tag.go"],
     [("registration and lookup", "Index, Find, Get in pkg/dag/idx.go")], ["returned IDs", "tags given back"])
prop("C05", "Tags and tag lists survive writing and reading",
     "A tag name, a tag and a list of up to 255 tags read back from what was written are the same, under the same IDs, consuming exactly the bytes written: 4 per name, 8 per tag, one length byte and 8 per tag for a list. No name at all reads back as the designated empty name. Names that are not 4 bytes long, and lists longer than 255, are refused with an error instead of written wrongly.",
     ["inputs"], "every name, parent and list, every split of reads by the source, every previous content of the target",
     "The tests use some dozens of fixed ASCII names and in-memory buffers that never split a read.",
     ["pkg/dag/name.go", "pkg/dag/tag.go", "pkg/dag/idx.go"],
     [("fixed-width names", "MarshalBinary, UnmarshalBinary in pkg/dag/name.go"), ("length-prefixed list", "BinaryWriteTo, BinaryReadFrom in pkg/dag/idx.go")],
     ["bytes written", "values read back"])
prop("C06", "Malformed or truncated tag data is rejected",
     "Reading tag data from any byte stream never crashes: it succeeds exactly when all the bytes the data announces are there, and then yields what those bytes say; otherwise it returns an unmarshalling error (for a name: a grammar error, leaving the name as it was). A failing source or destination is always reported, so success means everything was read or written.",
     ["inputs", "fault_sequences"], "every byte stream, every truncation, every point of failure of source and destination, every split of reads",
     "The tests feed well-formed data and two or three bad examples.",
     ["pkg/dag/name.go", "pkg/dag/idx.go", "pkg/dag/tag.go", "pkg/common/reader.go"],
     [("full reads", "FullReader in pkg/common/reader.go"), ("error wrapping", "BinaryReadFrom in pkg/dag")], ["returned error", "values read"])
prop("C07", "ID sets survive writing and reading",
     "A set of 8-bit IDs with up to 255 elements, or of 16-bit IDs with up to 65535 elements, reads back from what was written as the same elements in the same order, whatever the target held before. The number of bytes reported equals the number written and read, nothing beyond the set is consumed, and writing leaves the set unchanged. A set longer than its length prefix can express is refused with an error.",
     ["inputs"], "every set content and length, every split of reads by the source",
     "The tests round-trip a few short constant sets.",
     ["pkg/storage/set8.go", "pkg/storage/set16.go"],
     [("length-prefixed encoding", "WriteTo, ReadFrom")], ["bytes written", "set read back", "counts"])
prop("C08", "Set reading and writing report every fault with exact counts",
     "When the destination stops accepting bytes or the source fails or ends early at any point, writing or reading an ID set returns an error and a count of the bytes really taken by complete fields; success means the whole set was transferred. Any byte stream can be read without a crash, and what is accepted is exactly what the bytes announce.",
     ["fault_sequences", "inputs"], "every fault position and kind, every split of reads, every byte stream",
     "The tests use fault-free in-memory buffers, with at most one empty input.",
     ["pkg/storage/set8.go", "pkg/storage/set16.go", "pkg/common/reader.go"],
     [("error handling per field", "WriteTo, ReadFrom")], ["returned error and count"])
prop("C09", "Interning gives every distinct ID set one stable ID",
     "In tables and collections of ID sets, indexing a set gives the ID it got before if an equal set (as a sorted multiset) is already there and otherwise a new ID distinct from all others; getting an ID ever after returns exactly that set, sorted, whatever was indexed later and whatever the caller does with his slice. An ID never given out is reported as not found. A table with no ID left refuses a new set rather than giving the ID of another.",
     ["histories", "inputs"], "every sequence of sets indexed, of any lengths and contents, and every ID looked up",
     "The tests index short fixed sequences and never fill a table or change a slice afterwards.",
     ["pkg/storage/table8.go", "pkg/storage/table16.go", "pkg/storage/collection8.go", "pkg/storage/collection16.go"],
     [("interning", "Index in table8.go, table16.go, collection8.go, collection16.go")], ["returned IDs", "sets given back"])
prop("C10", "Finding an ID set agrees with indexing and changes nothing",
     "Finding a sorted set returns found with the very ID that indexing it gave if it was indexed before, and not found otherwise, for sets of any length including empty and longer than any known. Finding and getting never panic and never change what later calls return. Indexing an empty set is refused.",
     ["histories", "inputs"], "every history of indexed sets, every set searched for, every ID got",
     "The tests search for sets next to those indexed; length mismatches with the known tables are not sampled.",
     ["pkg/storage/collection8.go", "pkg/storage/collection16.go", "pkg/storage/table8.go", "pkg/storage/table16.go"],
     [("lookup by length then content", "Find, Get")], ["found flag and ID", "later results"])
prop("C11", "Composite IDs compose and split without loss",
     "Combining an upper and a lower part into a wider ID and splitting it again gives the two parts back, for every pair of parts, and splitting and combining gives every ID back; distinct pairs give distinct IDs. The same holds for tag set IDs and variant IDs made of a table number and a position.",
     ["inputs"], "all 2^16 and 2^32 IDs", "The tests check a few constants.",
     ["pkg/storage/id8.go", "pkg/storage/id16.go", "pkg/storage/id32.go", IX+"tagset_id.go", IX+"variant_id.go"],
     [("shifts and masks", "Combine8, Combine16, Upper8, Lower8, Upper16, Lower16")], ["IDs and parts"])
prop("C12", "Tag sets and variants keep their identity, in memory and on disk",
     "Interning non-empty tag sets, and non-empty combinations of tag sets, gives equal contents (as sorted multisets) the same ID and different contents different IDs; each ID gives its content back, later and after being written and read, and finding agrees with interning. Every ID listed as known can be looked up, and the IDs following one in a table of combinations are those above it. The caller's slice is neither changed nor kept, an unknown ID is reported instead of crashing, and contents that do not fit their length prefix are refused when written.",
     ["histories", "inputs"], "every sequence of tag sets and combinations interned, with persistence at any point",
     "The tests intern fixed sequences; aliasing, unknown IDs and limits are not sampled.",
     [IX+"tagset_index.go", IX+"tagset_table.go", IX+"tagset_def.go", IX+"variant_idx.go", IX+"variant_table.go", IX+"variant_def.go"],
     [("interning by length then content", "Index, Find, Get"), ("length-prefixed persistence", "BinaryWriteTo, BinaryReadFrom")], ["IDs and contents"])
prop("C13", "A damaged compiled index is refused, never crashes the reader",
     "Loading a compiled index from any truncation of a written one returns an error. Loading any other bytes either returns an error or gives an index on which every lookup and every listing works without a crash or endless recursion. Memory taken while loading is in proportion to the bytes really there, not to the numbers they claim. A source that fails while the index is read is reported.",
     ["inputs", "crash_points"], "every truncation point and every corruption of the file",
     "No test feeds damaged files; there are as many as byte strings.",
     [IX+"idx.go", IX+"items.go", IX+"tagset_index.go", IX+"tagset_table.go", IX+"variant_idx.go", IX+"variant_table.go"],
     [("section prefixes, lengths and consistency checks", "BinaryReadFrom")], ["returned error", "behaviour of the loaded index", "allocation sizes"])
prop("C14", "Lookups never modify a loaded index",
     "Looking up words (present or absent), reading tags, tag sets, children and counts from any number of goroutines at once is free of data races, and leaves every later answer and the saved form of the index exactly as they were.",
     ["schedules", "histories"], "every set of concurrent readers and every interleaving of their lookups",
     "Tests are single-threaded; a race in lookups shows only under particular schedules.",
     [IX+"idx.go", IX+"node.go"], [("read-only lookup", "FetchFromItem, FetchItemFromParent, GetChildrenMap, GetChildrenIDMap in idx.go")], ["answers", "races"])
prop("C15", "Word and node counts are exact",
     "The number of words is the number of distinct words that have at least one tag set, and the number of nodes is the number of distinct non-empty prefixes of all words added; both hold after any history, including repeated words, optimizing, and saving and loading (also into an index that was loaded before).",
     ["histories", "inputs"], "every history of additions, attachments, optimizing and persistence",
     "The counts are checked nowhere in the existing tests.",
     [IX+"idx.go", IX+"node.go", IX+"items.go"], [("counters", "wordsCount, NextID")], ["reported counts"])
prop("C16", "Compiling a dictionary indexes every form with its tags",
     "After a dictionary document is compiled, every form of every lemma is found with a tag set consisting of the lemma's tags followed by the form's own tags as a multiset, nothing else is a tagged word, and all declared grammemes are tags with their parents. Comments, processing instructions, directives and white space between elements change nothing. An undeclared tag, a form without any tag, a missing required attribute, a malformed number, an unexpected element or a document which cannot be read to its end stops the compilation with an error and writes no compiled file.",
     ["inputs"], "every sequence of elements, attributes and texts a document can consist of",
     "The parser's tests need the network; documents are unbounded.",
     ["pkg/opencorpora/parser.go", "pkg/opencorpora/loader.go", "pkg/opencorpora/form_item.go", "pkg/opencorpora/xmlutils.go"],
     [("element handlers by path", "newParser and the on... functions in parser.go")], ["content of the compiled index", "returned error"])
prop("C17", "Updating decides by dates and reports every failure",
     "An update is required exactly when there is no local download, or the server's last-modified date is unreadable or later than the local file's; a failing or refusing server is an error. Updating then downloads, unpacks and compiles as needed and reports success only if the compiled index corresponds to the data it had to use; any failure of server, disk or data is returned as an error, and nothing crashes. After any failure, or after being killed at any point, an index there was before can still be loaded unless a new one has taken its place, and updating again succeeds with the right index.",
     ["fault_sequences", "configurations"], "every combination of local files, server answers, dates and failures at every step",
     "The loader's tests talk to the real server; no fault is ever injected.",
     ["pkg/opencorpora/loader.go", "pkg/common/utils.go"], [("decision and steps", "IsUpdateRequired, DownloadUpdate, UnpackUpdate, Update in loader.go")], ["returned decision and error", "files on disk"])
prop("C18", "A failed save is reported and leaves no partial index",
     "Saving a compiled index either succeeds, and then loading it gives the same answers, or returns an error whatever step failed (create, any write, close), and then, also after being killed at any point, what a later load takes for a good index is the earlier or the new one, never an incomplete one; if there was an earlier one it is not lost. Loading closes the file it opened and reports a missing or unreadable file, and leaves it as it is.",
     ["fault_sequences", "crash_points"], "every point at which creating, writing, closing or removing may fail",
     "No test injects a disk fault.",
     ["pkg/opencorpora/loader.go"], [("deferred close and removal", "SaveIndex, LoadIndex in loader.go")], ["returned error", "files on disk", "open files"])
prop("C19", "A refused tag set changes nothing",
     "Attaching a tag set that contains an unknown tag, or no tag at all, or to something that is not a word, returns an error and leaves every word, tag set, count and the saved form of the index as they were.",
     ["histories", "inputs"], "every index content, node and tag list containing an unknown tag at any position",
     "The tests attach known tags only.",
     [IX+"node.go", IX+"idx.go"], [("tags are resolved before anything is changed", "AddTagSet in node.go")], ["returned error", "answers afterwards"])
prop("C20", "Nodes have unique, stable numbers and true parents",
     "Adding words numbers new nodes consecutively; a node keeps its number, letter and parent for ever, the same prefix is always the same node, and a node spells its parent's word followed by its own letter. Getting a number that was never given out is an error, adding below a node that does not exist is an error and changes nothing, and children listed for a node are exactly the nodes whose parent it is.",
     ["histories", "inputs"], "every history of additions at the root and below arbitrary nodes",
     "The tests look at one or two words.",
     [IX+"idx.go", IX+"items.go", IX+"node.go"], [("item allocation", "NewChild in items.go"), ("children maps", "AddToNode in idx.go")], ["node numbers, parents, children"])
prop("C21", "Concurrent node allocation loses nothing",
     "When several goroutines allocate nodes at once, each gets a number of its own, no number is skipped, every allocated node carries the parent and letter it was allocated with, and there is no data race.",
     ["schedules"], "every interleaving of concurrent allocations, including those that extend the storage",
     "Tests allocate from one goroutine.",
     [IX+"items.go"], [("lock around allocation", "NewChild in items.go")], ["allocated items"])
prop("C22", "A resolved file path recomposes to the file",
     "Resolving a path gives directory, base name and extension that put together are the absolute path of the file named, with the extension starting at the last dot of the file name or empty if there is none. A path at which nothing exists is reported as an error, an existing file is not.",
     ["inputs"], "every path and every presence of the file",
     "The tests resolve a few names in one directory.",
     ["pkg/dag/utils.go"], [("splitting", "ResolveFilePath in pkg/dag/utils.go")], ["the three parts", "returned error"])
prop("C23", "The console survives every command",
     "Whatever line is typed at the console, including missing, extra, negative, huge or non-numeric arguments and unknown words, it answers or reports an error and waits for the next line; only exit and a failing reload end it. Looking up a word shows every tag set of the word; tags, tag sets, tables and nodes are shown by number if they exist and refused if not.",
     ["inputs", "histories"], "every line and every sequence of lines, on any index",
     "The console has no tests.",
     ["cmd/opencorpora_test/main.go"], [("argument checks", "processTag, processSet, processVar, processNode, processSearch")], ["whether it goes on"])
prop("C24", "Sorting and comparing ID sets is exact",
     "Sorting an ID set gives the same elements in ascending order and nothing else, sorting twice changes nothing more. Two sets compare equal exactly when they have the same length and the same elements at the same places; comparing is symmetric and changes nothing.",
     ["inputs"], "every pair of sets", "The tests compare a few pairs.",
     ["pkg/storage/set8.go", "pkg/storage/set16.go"], [("sort.Interface and comparison", "Less, Swap, Sort, EqualTo")], ["order and equality"])
prop("C25", "Attributes and grammemes of a document are taken as they are",
     "Getting an attribute returns the value of the first attribute with that name or an error if there is none; getting a number returns exactly the number written or an error. The names and tags of a category list, a form or a grammeme are those it was made of, in order, and searching lemmas returns exactly those whose base form is the word searched for, in order.",
     ["inputs"], "every attribute list, every text of a number, every lemma list",
     "Only one or two fixed examples are tested, in a package that does not build here.",
     ["pkg/opencorpora/xmlutils.go", "pkg/opencorpora/category_list.go", "pkg/opencorpora/form_item.go", "pkg/opencorpora/grammeme_item.go", "pkg/opencorpora/lemma_list.go"],
     [("attribute lookup", "GetString, GetInt"), ("list search", "Search")], ["values and errors"])
prop("C26", "The updater's exit status tells what happened",
     "The update program ends with status 0 exactly when the compiled index afterwards is that of the data it had to use: the server's, or the local data when the server cannot be asked and recompiling is forced (the default). Any failure of server, files or data ends it with another status; asking for its usage touches nothing.",
     ["fault_sequences", "configurations"], "every combination of local data, server behaviour, flags and a failing operation",
     "The program has no tests, and nothing injects failures.",
     ["cmd/opencorpora_update/main.go", "pkg/opencorpora/loader.go"], [("flags and exit status", "main in cmd/opencorpora_update/main.go")], ["exit status", "compiled index"])
prop("C27", "A loader keeps to its data path",
     "A loader reads, makes, renames and removes files only in its data path: the one it was given, or that of its domain when none is given, relative to the working directory if not absolute; it finds its files there, and only there. The data path of a domain is its name in the data root, the path of a file its name in that. Making the data path of a domain creates the directory with what is missing above it, leaves what is there, touches nothing else, and reports every failure.",
     ["inputs", "configurations", "fault_sequences"], "every data path and domain name, working directory, local state and failing operation",
     "No test gives the loader a path of its own or looks at what else it touches.",
     ["pkg/common/utils.go", "pkg/opencorpora/loader.go"],
     [("data paths", "DomainDataPath, DomainFilePath, MakeDomainDataPath in pkg/common/utils.go"), ("file names", "DataPath, SetDataPath, filePath in loader.go")], ["names of files used", "returned error"])
prop("C28", "The saved form depends only on what was added",
     "Two indexes given the same words and tag sets in the same order, and optimized at the same points, are written byte for byte alike, whatever was looked up, listed, refused, added again, saved, or saved and loaded in between, and in whatever order maps are iterated. Writing again gives the same bytes, and so does writing what was loaded. Optimizing what was just optimized changes nothing.",
     ["histories", "schedules"], "every history and every place of lookups, refused calls, saving and loading in it, every iteration order of maps",
     "The tests save once or never, and an iteration order shows only now and then.",
     [IX+"idx.go", IX+"items.go", IX+"tagset_index.go", IX+"variant_idx.go"],
     [("writing in order of numbers", "BinaryWriteTo in idx.go, items.go"), ("renumbering in a fixed order", "Optimize in idx.go")], ["bytes written"])
prop("C29", "What is given to and got from an index is the caller's own",
     "Letters, tag lists and bytes passed to an index may be changed by the caller after the call, and are not changed by it. The tag sets and the map of child nodes that a lookup returns may be overwritten, extended or emptied by the caller: no answer, count or saved form of the index changes by that, no other result already got changes, and a result got earlier is not changed by what is added or optimized later.",
     ["histories", "inputs"], "every index content, every use of arguments after a call, every change of results, also after loading and optimizing",
     "Tests look at results and drop them; sharing shows only when something held is changed later.",
     [IX+"node.go", IX+"idx.go", IX+"variant_table.go", IX+"tagset_table.go"],
     [("tag sets are built anew", "TagSets in node.go"), ("map of children is built anew", "GetChildrenMap in idx.go"), ("tables keep copies", "Index in variant_table.go, tagset_table.go")], ["answers and saved form afterwards", "results held"])
exec(open(os.path.join(V, "tools", "claimed.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
M = {"version": 1, "setup_cmd": "bash /verif/build_engine.sh", "checks": [], "not_applicable": [], "notes": NOTES}
for p in P:
    if p["id"] in CLAIMED:
        M["checks"].append({"property": p["id"], "quick_cmd": "bash /verif/check.sh " + p["id"],
                            "thorough_cmd": "VERIF_TIER=thorough bash /verif/check.sh " + p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": "symbolic execution of the Go SSA of the real code, every assertion and branch decided by an SMT solver (QF_BV), counterexamples replayed natively",
                            "level": "model_checking",
                            "level_note": CLAIMED[p["id"]] + COMMON})
    else:
        M["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "check under construction")})
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
