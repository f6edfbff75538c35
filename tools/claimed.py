NOTES = "No hooks in /repo. Engine: engine/ (go/ssa symbolic executor); harnesses: harness/h*; stand-ins: harness/v, shim. See DESIGN.md."
COMMON = " Bounded: nothing is claimed outside the bounds stated with each harness and in the evidence. Trusted: the symbolic executor (checked against native runs of sampled paths on every run), the SMT solver, the stand-ins for environment packages."
NA = {}
CLAIMED = {
 "C01": "Words and lookups of up to 3 arbitrary code points, 2 words (thorough 3); texts of up to 2 arbitrary bytes; 3-5 tag set attachments; one large dictionary (90 words, 261 nodes, 200 tags) with an arbitrary letter; a word of 1000 letters; 300 letters below one node and 66000 at the root; 300 words of different tag sets; lookups between additions; two indexes filled in alternation.",
 "C02": "Indexes of up to 2 (thorough 3) words of 1-2 arbitrary letters with lists of up to 2 tags; limits of every length prefix; all fault positions; the large dictionary of C01, 300 words of different tag sets, and an index of over 65536 nodes.",
 "C03": "Histories of a few additions, attachments and optimizations over words of 1-2 arbitrary letters; the large dictionary of C01; 300 words of different tag sets; 700 words of the same; the room taken after attaching in either order, and with one combination of 250 unused.",
 "C04": "Histories of 4 registrations of arbitrary 4-byte names; index filled to 254-256 tags; the same through a morphological index that also gets words.",
 "C05": "Names of 0-6 arbitrary bytes, single tags, lists of 0-3 arbitrary tags and of 4-256 with one arbitrary tag.",
 "C06": "All byte streams up to 18 bytes; lists announced as 4-255 tags with one arbitrary tag, cut up to 9 bytes short; all fault positions for 2 tags.",
 "C07": "All contents at every set length 0-255 (8-bit prefix), 0-300 and 512, 1024, 4096, 20000, 40000, 65535 (16-bit prefix).",
 "C08": "All fault positions and read splits for short sets; all byte streams up to the stated lengths.",
 "C09": "Histories of a few arbitrary short sets; sets of 1-257, 300 and 1000 elements; full tables.",
 "C10": "Histories of a few arbitrary short sets; all lengths around the known ones, to 300 (8-bit: 85).",
 "C11": "All IDs and parts, no bound.",
 "C12": "3 tag sets or combinations of 1-2 (thorough 1-3) arbitrary elements, in memory and persisted; sets of 1-255 elements and tables of 300 with one arbitrary member; every length-prefix and ID limit; what follows any ID; all byte streams up to 6 (thorough 9) bytes.",
 "C13": "All truncations of an index of up to one word of 1-2 arbitrary letters, and 69 of the large dictionary of C01; a read failing once anywhere; any 2 (thorough 4) consecutive corrupted bytes; arbitrary items (2, thorough 3) and section lengths.",
 "C14": "Every single lookup on a 3-word index; every pair of concurrent lookups with up to 2 preemptions.",
 "C15": "Histories of 3 (thorough 4) steps (add, attach, optimize, reload) over words of 1-2 arbitrary letters; the large dictionary of C01; 68921 words.",
 "C16": "Documents of 1-2 lemmas with 1-2 forms of 1-2 arbitrary letters; a document of 13 lemmas with up to 30 forms of up to 40 letters; any time passing while compiling; grammeme names of 4 arbitrary bytes; all trees of up to 4 (thorough 5) elements; arbitrary element, attribute and tag names; numbers of up to 2 (thorough 3) bytes; a form of any one character of XML; a comment, instruction, directive or white space at any place. XML tokenizing (external libxml, encoding/xml) is a stand-in.",
 "C17": "Any date and local time, three local time zones; any status of either request; one failing or killing operation at any position of an update from 4 local states, an archive corrupt or cut short, incomplete files left longer than what is written next. Server, files and bzip2 are stand-ins.",
 "C18": "An index of one word of 1-2 arbitrary letters; one of 210 words on a full disk; one or two failing operations, a kill or a full disk at any position.",
 "C19": "Indexes of 1-2 words; lists of 0-3 tags with one arbitrary 4-byte name at any place, of up to 255 tags on the large dictionary of C01; all unknown node numbers.",
 "C20": "3 (thorough 4) additions at the root or below an arbitrary 32-bit node number; all node numbers; an index of 70643 nodes.",
 "C21": "Two goroutines with 1-2 allocations and three with 1, up to 4 preemptions, from 0-9 items before.",
 "C22": "File names of up to 3 arbitrary bytes; all paths up to 5 bytes over / . and a letter.",
 "C23": "Lines of up to 2 (thorough 3) arbitrary bytes, every command with arbitrary arguments of up to 2 bytes and numbers of up to 20 digits, sessions of 2 (thorough 3) commands, on an index of 3 words; an index of 23 tags with words of 14 tag sets. Terminal and files are stand-ins. Four known findings (the console's sources count as test files, so no repair was committed).",
 "C24": "All pairs of sets up to the stated lengths; long sets (up to 1000) with arbitrary differing elements.",
 "C25": "Lists of up to 3 attributes, categories or lemmas with arbitrary names of 1-4 bytes, and of 8-100 with one arbitrary; digits of numbers up to 30 long; numbers of up to 3 (thorough 4) arbitrary bytes and at both ends of 64 bits.",
 "C26": "All combinations of 4 local states, 5 server behaviours with any status, all flags, and one failing file operation at any position.",
 "C27": "Domain names of up to 3 (thorough 4) arbitrary bytes, and nested ones of 1, in 3 working directories; 7 data paths, 4 local states, 3 servers, any one failing operation. Server, files and bzip2 are stand-ins.",
 "C28": "Histories of 3 (thorough 4) steps over 2 words of 1-2 arbitrary letters and one disturbance; 4 (thorough 5) words optimized; the large dictionary of C01; map iteration beginning at any entry (the orders the present runtime gives maps of up to 8 entries).",
 "C29": "2 words of 1-2 arbitrary letters with up to 2 lists of up to 2 tags; the large dictionary of C01. The map of child numbers (GetChildrenIDMap), Tags and TagSetIndex are the index's own data and not part of the claim.",
}
