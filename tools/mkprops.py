#!/usr/bin/env python3
# Source of /verif/properties.jsonl: run `python3 tools/mkprops.py` to regenerate it.
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None}})

p("C01", "Pack and reopen round trip is lossless",
  "After files are packed under distinct names and the package is finalized, opening it again lists exactly those names in the order they were added, and every file's bytes and every stored tag value come back exactly as given. This holds for the single-file and the split (tags file plus data file) layout, for any names and contents including empty files and files that straddle page boundaries, and through each access mode (whole package in memory, memory mapped, opened as OS files).",
  ["inputs", "configurations"],
  "All sets of files (names, contents, sizes, tags) x {single, split} x {bulk, mmap, fsys}.",
  "The tests pack five fixed pictures and two tiny blocks and read them back with ReadAt at the recorded offset; no test uses fsys, an empty file, an arbitrary name, arbitrary tags, or all access modes on one package.",
  ["wpk.go", "writer.go", "bulk/bulk.go", "mmap/mmap.go", "fsys/fsys.go", "tagset.go"],
  [("data is appended and offset/size recorded per entry", "writer.go PackData"), ("table and header written at finalization", "writer.go Sync, wpk.go FTT.WriteTo/Header.WriteTo"), ("table parsed on open", "wpk.go OpenStream/Parse"), ("nested file access by offset/size", "bulk, mmap, fsys OpenTagset")],
  ["Package.Enum", "Package.ReadFile", "Package.Open", "Package.GetTagset"],
  [("file tags table", "ordered name -> tagset", "wpk.go FTT"), ("data offset/size", "bounds of the data area", "wpk.go FTT")])

p("C02", "Any history of editing sessions equals a simple ordered table",
  "For any sequence of sessions that begin a new package, append to an existing one, flush, finalize and reopen, and inside them put files, make aliases, rename, delete and re-tag entries, the package read back after every flush and finalization equals the same sequence applied to a simple ordered table from name to content and tags. Content that was already in the package is never altered, moved or lost by a later session, and an operation on a single entry that reports an error leaves the package as it was.",
  ["histories"],
  "All histories of the editing operations over both layouts, with the package object reused or reopened between sessions.",
  "Tests run three fixed histories (one append kept open, one reopened, one put/alias/delete list); interactions such as delete-then-append, rename-then-reopen or re-begin are never exercised.",
  ["wpk.go", "writer.go", "util/seqmap.go", "tagset.go"],
  [("Begin/Append/Sync session protocol", "writer.go"), ("append position = data offset + data size", "writer.go Append"), ("ordered map", "util/seqmap.go")],
  ["OpenStream of the written bytes after each Sync", "data bytes at recorded offsets"],
  [("datoffset/datsize", "where the next append goes", "wpk.go FTT")])

p("C03", "A split package survives a crash at any point of writing",
  "If the process writing a split package stops at any point (between any two writes to the tags or data file, or part-way through writing the table or file data), opening what is on disk succeeds and shows exactly the files, contents, tags and package info of the last completed flush, or of the flush in progress if its header was already written. A reader that opens a split package while it is being written, at any point between two writes, sees one such committed state.",
  ["crash_points", "histories"],
  "Every prefix of the write sequence of every split-layout session history, including appends to existing packages.",
  "TestBrokenDB opens a split package after Begin and after Sync only; no test stops inside a flush, when the table is being replaced.",
  ["writer.go", "wpk.go"],
  [("header rewritten last, after the table", "writer.go Sync"), ("split packages readable while in progress", "wpk.go Header.IsReady"), ("data only ever appended", "writer.go Append/PackData")],
  ["every Write/Seek on the tags and data streams", "OpenStream on each crash image"],
  [("header on disk", "points at the committed table", "tags file, first 64 bytes")])

p("C04", "An unfinished single-file package is never accepted as complete",
  "From the moment a single-file package is begun or re-opened for append until its finalization completes, stopping the writer at any point leaves a file that is rejected on opening; it never opens with missing, partial or wrong entries. Before the append starts the old state opens exactly, and after finalization returns the new state opens exactly.",
  ["crash_points", "histories"],
  "Every prefix of the write sequence of every single-file session history.",
  "No test opens a single-file package between Begin/Append and Sync, or inside Sync.",
  ["writer.go", "wpk.go"],
  [("prebuild signature written first, ready signature last", "writer.go Begin/Append/Sync"), ("not-ready and bad-signature rejection", "wpk.go Header.IsReady")],
  ["every Write on the package stream", "OpenStream and GetPackageInfo on each crash image"])

p("C05", "Malformed packages are rejected or safe, never crash",
  "Opening or inspecting any byte string as a package, however truncated or corrupted, either succeeds or returns an error: it never panics, never hangs and never uses memory out of proportion to the input. When it succeeds, every listed name is unique and every listed file lies inside the data area declared by the header. Reading any such file through any access mode returns exactly its declared bytes or an error, even if the data file is shorter than declared.",
  ["inputs"],
  "All byte strings, with emphasis on mutations of valid packages: truncation at every byte, extreme header fields, lengths, duplicated and missing tags.",
  "No test opens a damaged file.",
  ["wpk.go", "tagset.go", "bulk/bulk.go", "mmap/mmap.go", "fsys/fsys.go"],
  [("signature and header checks", "wpk.go OpenStream/IsReady"), ("tag bounds checks", "tagset.go Next"), ("entry bounds checks", "wpk.go CheckTagset"), ("table parsing", "wpk.go Parse/ReadFrom")],
  ["OpenStream", "GetPackageInfo", "FTT.Parse", "FTT.ReadFrom", "OpenTagset", "ReadFile"])

p("C06", "I/O errors are reported and short reads do no harm",
  "If any read, write or seek of the underlying streams fails while a package is begun, appended to, packed into, flushed, finalized, opened or inspected, that operation returns an error and never reports success. Readers that legally return fewer bytes than asked for give the same result as readers that fill the buffer. A file whose source fails while being packed is not listed in the package, and the other files stay intact after a later successful finalization.",
  ["fault_sequences", "inputs"],
  "Every position of a single injected fault in every operation, and every chunking of the input stream.",
  "Tests only use healthy OS files that always return full buffers.",
  ["wpk.go", "writer.go", "util/uintio.go"],
  [("error returns on every stream call", "wpk.go, writer.go"), ("integer reads and writes", "util/uintio.go")],
  ["returned errors of Begin/Append/PackData/Sync/OpenStream/GetPackageInfo under injected faults"])

p("C07", "A nested file handle behaves like a reader over its exact bytes",
  "A file opened from a package, through any access mode, answers every sequence of read, seek, read-at and stat calls exactly as an in-memory reader over that file's own bytes would. It never exposes bytes of neighbouring files or of the table, and closing one handle never affects other open handles.",
  ["histories", "inputs", "configurations"],
  "All call sequences on all nested files x {bulk, mmap, fsys} x {single, split}.",
  "Tests do one full read of one file through mmap and bulk; fsys, seeking and partial reads are never used.",
  ["bulk/bulk.go", "mmap/mmap.go", "fsys/fsys.go", "wpk.go"],
  [("section readers over offset/size", "bulk NewSliceFile, fsys NewChunkFile, mmap NewMappedFile"), ("page alignment of mappings", "mmap/mmap.go")],
  ["RFile Read/ReadAt/Seek/Stat/Close"])

p("C08", "A package is a conforming io/fs file system",
  "An opened package, and any subdirectory view of it, obeys the io/fs contracts: opening, walking, stating, reading files and listing directories agree with each other and with the set of packed names. Directory listings are complete, duplicate-free and sorted by name, paged listing returns each entry once and then reports the end, and absent names and directories give a not-exist error.",
  ["inputs"],
  "All sets of hierarchical names x all directories x all page sizes.",
  "The union test lists three directories unpaged and unsorted; Package itself, Stat on directories, fs.WalkDir and paging are not tested.",
  ["wpk.go", "dir.go", "tagset.go"],
  [("directories derived from name prefixes", "dir.go ReadDirN/OpenDir"), ("fs interfaces", "wpk.go Stat/Open/ReadDir/ReadFile/Sub/Glob"), ("FileInfo/DirEntry", "tagset.go")],
  ["fs.FS calls on Package", "testing/fstest.TestFS"])

p("C09", "A union of packages is a first-wins overlay",
  "A union of packages shows the set union of their names, and for a name present in several packages every operation (open, stat, read, directory listing, pattern match, key list, subdirectory view) shows the file of the first package in the list that has it. Directory listings merge all packages without duplicates, in name order, and honour the requested page size; closing the union closes every package.",
  ["inputs", "configurations"],
  "All lists of packages with overlapping names, all directories, patterns and page sizes, and all subdirectory views.",
  "One test with two packages sharing one file of identical content, so precedence is never visible.",
  ["union.go", "dir.go", "wpk.go"],
  [("lookup in list order", "union.go Open/Stat/ReadFile"), ("merge with found-set", "union.go ReadDirN/AllKeys/Glob")],
  ["Union methods"])

p("C10", "A tagset behaves as an ordered map of tags",
  "Any sequence of put, add, set and delete on a tagset behaves as on an ordered list of (tag ID, bytes): replacing a tag with a value of any other length changes only that tag, deleting removes only it, adding never overwrites, and lookup, membership, count and iteration always agree with the list. Editing a copy never changes the tagset it was copied from, and reading functions on malformed bytes never panic or loop.",
  ["histories", "inputs"],
  "All operation sequences over all tag IDs, value lengths and spare capacities, and all byte strings as malformed tagsets.",
  "The test replaces one tag by an equal-length value and appends and deletes one tag at the end.",
  ["tagset.go"],
  [("iterator with bounds checks", "tagset.go Next"), ("in-place replace and splice", "tagset.go SetOk/DelOk"), ("CopyTagset", "tagset.go")],
  ["TagsetRaw methods", "TagsetIterator"])

p("C11", "Tag values keep their meaning through encode and decode",
  "Every typed tag value (string, boolean, byte, 16/32/64-bit and variable-length unsigned integers, float, time, milliseconds) decodes to the value it was made from, for every value of its type, and a variable-length integer uses the smallest of 1, 2, 4 or 8 bytes that holds it. Decoding bytes of an unacceptable length reports absence instead of a wrong value. Encodings are little-endian and byte-for-byte stable.",
  ["inputs"],
  "All values of each tag type and all byte lengths.",
  "The test round trips three small integers and short strings.",
  ["tagset.go", "util/uintio.go"],
  [("typed constructors and converters", "tagset.go"), ("raw integer access", "util/uintio.go")],
  ["Tag constructors and getters"])

p("C12", "Rename, alias and delete touch only names",
  "Renaming or aliasing an entry changes only its name: content, size and every other tag of that entry, and all other entries, stay byte-for-byte the same, whatever the lengths of the names. Renaming a directory moves exactly the entries below it and returns their number, never overwrites an existing entry, and either skips conflicts or stops with an error as asked. Operations on missing sources or existing targets return not-exist or exist errors and change nothing.",
  ["histories", "inputs"],
  "All tables of entries, all old and new names including prefixes of one another and different lengths, both conflict policies.",
  "One fixed directory rename and two aliases, checked by name existence only.",
  ["writer.go", "tagset.go", "wpk.go"],
  [("copy tagset, replace path tag", "writer.go Rename/RenameDir/PutAlias"), ("DelTagset", "wpk.go")],
  ["table contents before and after each operation"])

p("C13", "Concurrent packing neither loses nor mixes files",
  "When several goroutines pack files into one package at once, each file gets its own contiguous data range holding exactly its bytes, no two ranges overlap, and every successful call is listed exactly once. If two goroutines pack the same name exactly one succeeds and the other gets an exist error. Concurrent packing, flushing and lookups are free of data races and deadlocks.",
  ["schedules"],
  "All interleavings of concurrent packers, a flusher (split layout) and readers of the table on one package.",
  "No test uses more than one goroutine.",
  ["writer.go", "wpk.go", "util/seqmap.go"],
  [("writer mutex around seek, copy and size update", "writer.go PackData"), ("locked ordered map", "util/seqmap.go")],
  ["PackData/PackFile calls and returns", "written bytes", "race detector"])

p("C14", "The table is linearizable and enumeration is a snapshot",
  "Concurrent set, get, has and delete of entries on one package behave as if executed one at a time in an order consistent with real time, and likewise for the thread-safe ordered map's put, push, pop, get and delete. An enumeration, listing or pattern match running at the same time sees one point-in-time state of the table: no entry twice, none missing that was present throughout, in insertion order. These operations are free of data races and deadlocks, even when the enumeration callback itself edits the table.",
  ["schedules", "histories"],
  "All interleavings of concurrent table operations.",
  "No test uses more than one goroutine.",
  ["util/seqmap.go", "wpk.go"],
  [("RWMutex around index and sequence", "util/seqmap.go"), ("Range iterates over a copied sequence", "util/seqmap.go Range")],
  ["recorded call/return histories of SetTagset/GetTagset/DelTagset/Enum and SeqMap"])

p("C15", "Concurrent readers of an opened package see exact bytes",
  "Any number of goroutines may open, read, seek, list and stat files of one opened package, its subdirectory views and unions at the same time; each sees exactly the packed bytes and directory contents, and closing one's own file handles never disturbs the others. There are no data races or memory faults in any access mode.",
  ["schedules", "configurations"],
  "All interleavings of concurrent readers x {bulk, mmap, fsys}.",
  "Tests read from one goroutine.",
  ["wpk.go", "union.go", "bulk/bulk.go", "mmap/mmap.go", "fsys/fsys.go"],
  [("read-only shared state, per-handle readers", "bulk, mmap, fsys"), ("locked table", "util/seqmap.go")],
  ["read results per goroutine", "race detector"])

p("C16", "Extraction never writes outside the destination",
  "Extracting a package, including a maliciously crafted one, creates and changes files only beneath the given destination directory, whatever the names stored in the package (parent references, absolute paths, backslashes, odd separators).",
  ["inputs"],
  "All entry names.",
  "The extract command has no tests.",
  ["cmd/extract/extract.go", "util/strutil.go"],
  [("destination path is joined from destination and entry name", "cmd/extract/extract.go readpackage")],
  ["file system tree around the destination before and after extraction"])

p("C17", "The pack and extract commands reproduce a directory tree",
  "Packing directories with the pack command and extracting the result with the extract command reproduces every source file under its relative name with identical bytes, for the single and split layout, every opening mode and several source directories, and leaves the sources untouched. Requested links, MIME types and original file times are stored and restored. If some source file cannot be packed the tool does not silently finish a package without it.",
  ["inputs", "configurations"],
  "All directory trees x tool options.",
  "The commands have no tests.",
  ["cmd/pack/pack.go", "cmd/extract/extract.go", "writer.go"],
  [("walk and PackFile each file", "cmd/pack/pack.go writepackage"), ("copy each entry out", "cmd/extract/extract.go readpackage")],
  ["source tree, package, extracted tree"])

p("C18", "Lua scripts get the tags, hashes and MIME types they ask for",
  "For every file put by a Lua script, the automatic tags that are switched on are present with the right value (CRCs of the content, MD5/SHA HMACs of the content under the given secret, a unique file ID even when appending to an existing package, a MIME type), those switched off are absent, and tags given explicitly are stored as documented and win over automatic ones. Reading tags back returns the documented representation. Scripts cannot change the offset, size or path of a file, and an unacceptable tag name or value raises an error instead of being dropped.",
  ["inputs", "configurations"],
  "All contents, secrets, switch combinations and tag tables.",
  "The script tests check content only; no test verifies a hash, an ID, a MIME type, a tag conversion or an error.",
  ["luawpk/adjusttags.go", "luawpk/nametid.go", "luawpk/luawpk.go", "luawpk/mimeext.go"],
  [("adjusttagset", "luawpk/adjusttags.go"), ("value conversions", "luawpk/nametid.go"), ("protected tags", "luawpk/luawpk.go, nametid.go TableToTagset")],
  ["package written by the script, values returned to the script"])

p("C19", "Packages built by Lua scripts follow the script step by step",
  "For any script that begins, loads, appends, puts data and files, makes aliases, renames, deletes, edits tags and info, flushes and finalizes, each call returns what the API documentation says and the package on disk after every flush and finalization equals the same steps applied to a simple model. Calls made in the wrong state or on missing or existing names raise a Lua error that a script can catch, and leave the package usable.",
  ["histories", "programs"],
  "All scripts over the package API in both layouts.",
  "Four fixed scripts run without error handling and are checked only for content.",
  ["luawpk/luawpk.go", "luawpk/runlvm.go"],
  [("method table", "luawpk/luawpk.go"), ("state checks on open streams", "luawpk/luawpk.go wpkbegin/wpkappend/wpkfinalize/wpkflush")],
  ["values returned to Lua", "files on disk after flush/finalize"])

p("C20", "Environment expansion follows its rule on every string",
  "Expanding a path replaces every well-formed $VAR, ${VAR} and %VAR% whose name is defined, first in the given map and then in the environment, by its value, and leaves all other text exactly as it was, wherever the pattern stands and whatever surrounds it. The result never contains added or lost characters and the input is not modified.",
  ["inputs"],
  "All strings over text, pattern characters and variable names, all maps and environments.",
  "Twelve fixed examples; undefined variables after defined ones, map lookups at the end of the string and one-letter names are not among them.",
  ["util/strutil.go"],
  [("two-pass scanner", "util/strutil.go Envfmt")],
  ["Envfmt result against a reference scanner"])

p("C21", "Path and string helpers are exact and never modify their input",
  "Slash, case and key normalisation change exactly the bytes they are documented to change, for every byte string, and are idempotent; path joining puts exactly one separator between parts and treats empty and dot parts as neutral; the file name helpers return the documented part of the path. None of them modifies its argument or returns text that later changes, and string/byte conversions are exact.",
  ["inputs"],
  "All byte strings.",
  "One example per function.",
  ["util/strutil.go", "dir.go"],
  [("copy on first change", "util/strutil.go ToSlash/ToLower/ToUpper/ToKey"), ("JoinPath/JoinFilePath/PathName", "util/strutil.go"), ("MakeTagsPath/MakeDataPath", "dir.go")],
  ["helper results against references"])

p("C22", "The ordered map keeps insertion order and agrees with itself",
  "After any sequence of put, push, pop, get, delete, re-initialise and iterate, the ordered map holds exactly the keys a simple list model holds, in insertion order with replaced values in place; length, membership, lookup and iteration agree with each other, and iteration stops when asked and is unaffected by edits made during it.",
  ["histories"],
  "All operation sequences over all key sets.",
  "The map has no tests of its own.",
  ["util/seqmap.go"],
  [("index map plus sequence slice", "util/seqmap.go"), ("re-index after delete", "util/seqmap.go Delete")],
  ["SeqMap methods"],
  [("seq/idx", "sequence and its index must agree", "util/seqmap.go")])

p("C23", "Backslash and slash spellings of a name are the same name",
  "Every operation that takes a file or directory name treats backslashes and slashes alike: a file put, looked up, opened, renamed, aliased, deleted, listed or matched under one spelling is the same file under the other, in packages, subdirectory views and unions. Names are stored, listed and enumerated with slashes only, and letter case always matters.",
  ["inputs"],
  "All names and all mixtures of separators in every name-taking operation.",
  "One ToSlash example.",
  ["wpk.go", "writer.go", "dir.go", "union.go", "util/strutil.go"],
  [("ToSlash on every key", "wpk.go, writer.go, dir.go, union.go")],
  ["results under both spellings"])

p("C24", "A subdirectory view is confined to and consistent with its subtree",
  "A subdirectory view of a package sees exactly the entries below that directory under their relative names, nested views compose, and entries added, renamed, aliased or deleted through the view appear, change or vanish in the parent under the prefixed name and nowhere else. Sibling names that merely share a textual prefix are never included, and converting between full and relative names is exact both ways.",
  ["inputs", "histories"],
  "All name sets, all directories, all operation sequences through views.",
  "The union test lists two subdirectories without nested views, edits or look-alike siblings.",
  ["wpk.go", "dir.go", "writer.go", "union.go"],
  [("workspace prefix", "wpk.go FullPath/TrimPath/Enum/Sub")],
  ["parent and view listings after each operation"])

p("C25", "Package info and header queries agree with the package",
  "The package info stored before finalization is returned unchanged by opening the package and by the quick info query, also for a package without files and after any number of append sessions. The quick query accepts every package that opening accepts and, as opening does, rejects unfinished files, foreign files and files with a broken header, and entry count, table size, data size and split flag agree with the actual content in every state.",
  ["inputs", "histories"],
  "All info tagsets, all package states (begun, in progress, finalized, appended, empty, split).",
  "One test reads info of an empty finalized single-file package by the quick query only.",
  ["wpk.go", "writer.go"],
  [("info is the first tagset of the table", "wpk.go FTT.WriteTo/Parse"), ("GetPackageInfo", "wpk.go"), ("Header accessors", "wpk.go")],
  ["OpenStream + GetInfo versus GetPackageInfo"])

p("C26", "Packages beyond 4 GiB work the same",
  "Files placed at offsets and with sizes beyond 2 GiB and 4 GiB are recorded, reopened, appended after, and read back exactly, in both layouts and through the access modes that do not load the whole package.",
  ["inputs", "configurations"],
  "All offsets and sizes up to 2^62 for the table; sparse files of several GiB for the data.",
  "All tests use packages of a few hundred kilobytes.",
  ["wpk.go", "writer.go", "tagset.go", "mmap/mmap.go", "fsys/fsys.go"],
  [("64-bit header fields", "wpk.go Header"), ("variable-length offset and size tags", "tagset.go UintTag"), ("int64 seeks", "writer.go")],
  ["recorded offsets/sizes, bytes read at large offsets"])

p("C27", "Oversized tagsets are refused, never written truncated",
  "A tagset larger than the format can describe makes flushing or finalizing return an error instead of writing a damaged table, and tagsets up to the limit are stored and read back exactly. After such an error a split package on disk still opens in its last committed state, and once the offending tagset is removed the next flush succeeds.",
  ["inputs", "histories"],
  "All tagset and tag sizes around the 64 KiB limit, for files and for package info, in both layouts.",
  "No test uses a tag larger than a path.",
  ["wpk.go", "tagset.go", "writer.go"],
  [("tagset size check", "wpk.go FTT.WriteTo tsmaxlen"), ("16-bit tag length", "tagset.go Put/SetOk")],
  ["Sync result and the package on disk"])

p("C28", "File times survive packing and are reported truthfully",
  "A file packed from the file system keeps its modification and access times to the nanosecond, they are reported by the file-info methods of the opened package for both the short and the long time encoding, and extraction with time restoration gives the extracted file those times.",
  ["inputs"],
  "All representable times, before and after 1970, both encodings.",
  "No test looks at a time.",
  ["writer.go", "tagset.go", "cmd/extract/extract.go", "luawpk/nametid.go"],
  [("time tags", "tagset.go TimeTag/UnixmsTag/TagTime"), ("PackFile stores times", "writer.go PackFile"), ("Timespec methods", "tagset.go ModTime/AccessTime/ChangeTime/BirthTime")],
  ["ModTime/AccessTime/ChangeTime/BirthTime, os.Stat of extracted files"])

p("C29", "Lua helper functions match their documentation",
  "The Lua helper library (hex and time conversion, file check, and the path functions for slashes, cleaning, splitting, joining, matching, globbing, enumerating and environment expansion) returns the documented result for every argument, conversions invert each other, and bad arguments raise a catchable Lua error.",
  ["inputs", "programs"],
  "All arguments of every helper function.",
  "Scripts use a few helpers; results are not checked.",
  ["luawpk/runlvm.go", "luawpk/luapath.go", "util/strutil.go"],
  [("registered functions", "luawpk/runlvm.go InitLuaVM, luawpk/luapath.go")],
  ["values returned to Lua"])

p("C30", "Written packages follow the published binary layout",
  "Every finalized or flushed package is laid out as published: a 64-byte little-endian header with signature, entry count, table offset and size and data offset and size, then data, then a table of length-prefixed tagsets beginning with the package info and closed by an end mark, so that an independent decoder finds exactly the package's content. Packages produced by an independent encoder following that layout, with any legal integer widths, time widths, tag order and extra tags, open with the same content.",
  ["inputs", "configurations"],
  "All packages, written by this code and read independently, and the reverse.",
  "Tests only read what the same code wrote, so symmetric format changes pass.",
  ["wpk.go", "tagset.go", "writer.go", "util/uintio.go"],
  [("Header and table codecs", "wpk.go Header/FTT Parse, ReadFrom, WriteTo"), ("tag layout", "tagset.go Put/Next")],
  ["raw bytes of written packages", "OpenStream of independently encoded packages"])

p("C31", "Handles and packages release what they opened and are safe once closed",
  "When the file handles, packages, unions and Lua package sessions obtained from the library are closed, and whenever an opening, reading or packing call fails, no open file or memory mapping of theirs is left; while they are in use no more files and mappings are held than the open handles and packages explain. So reading, packing and extracting any number of files or packages needs only a bounded number of descriptors. Handles may be closed in any order, twice, and before or after their package, without disturbing other handles; a call on a handle after it or its package was closed gives an error or the file's own bytes, never other bytes, and never a fault.",
  ["histories", "fault_sequences", "configurations"],
  "All orders of opening, using and closing handles and packages in every access mode and layout, all failing openings, all Lua sessions, and pack and extract over any number of files.",
  "Tests open a handful of files, never count descriptors or mappings, never use a handle after close, and garbage collection hides forgotten files.",
  ["bulk/bulk.go", "mmap/mmap.go", "fsys/fsys.go", "wpk.go", "union.go", "luawpk/luawpk.go", "luawpk/luapath.go", "cmd/pack/pack.go", "cmd/extract/extract.go"],
  [("handle close", "Close of mmap.MappedFile, fsys.ChunkFile, bulk.SliceFile"), ("package close", "Close of the Tagger types, Union.Close"), ("closing on failure", "fsys.NewChunkFile, FTT.OpenFile, Package.ReadFile, luawpk begin/append/putfile")],
  ["/proc/self/fd and /proc/self/maps", "results of calls on closed handles", "commands under a limit of open files"],
  [("open files and mappings", "what the process holds below the package's directory", "the kernel's tables")])

p("C32", "Standard consumers see a package as the packed tree",
  "Any consumer of the standard file system interfaces gets from a package, a subdirectory view, a union or a view of a union exactly what it would get from a plain copy of the packed tree. The net/http file server answers every request (plain, partial, conditional, directory listing, redirect, absent name) with the same status, headers and body; copying with os.CopyFS, archiving with archive/zip and archive/tar, parsing templates, and walking with early ends give the same names, contents and times; and every opened file passes the standard reader conformance test.",
  ["inputs", "configurations"],
  "All trees x {package, view, union, view of union} x {bulk, mmap, fsys} x {single, split} x consumers and their requests.",
  "No test hands a package to a consumer of io/fs; interplay of seek, stat, listing, times and error kinds is only visible there.",
  ["wpk.go", "dir.go", "union.go", "tagset.go", "bulk/bulk.go", "mmap/mmap.go", "fsys/fsys.go"],
  [("io/fs methods of the package", "wpk.go Open, Stat, ReadFile, ReadDir, Sub"), ("directory handles", "dir.go PackDirFile, union.go UnionDir"), ("file info", "tagset.go Name, Size, Mode, ModTime"), ("file handles", "SliceFile, MappedFile, ChunkFile")],
  ["answers of net/http.FileServer", "results of os.CopyFS, zip, tar, template, WalkDir, iotest"])

p("C33", "An open reader keeps its snapshot while the package grows",
  "A reader that loaded a package goes on seeing exactly the names, tags and contents committed at that moment, through new lookups and through file handles it already holds, however many later sessions append to the package, flush, finalize or are abandoned, in every access mode. A reader that loads a split package in the middle of a session gets the last committed state; one that loads again gets the newest committed state. The object that is packing reads everything it has packed so far through the file based access modes.",
  ["histories", "schedules"],
  "All histories of appending sessions x moments of opening, loading again and reading x access modes x layouts.",
  "Tests open a package after the writer is gone; none keeps a reader or a handle open over a later session.",
  ["writer.go", "wpk.go", "bulk/bulk.go", "mmap/mmap.go", "fsys/fsys.go"],
  [("data is only appended", "writer.go PackData, Append"), ("new table aside of the old one", "writer.go Sync"), ("table is loaded to memory", "wpk.go OpenStream"), ("file handles by offset and size", "bulk, mmap, fsys OpenTagset")],
  ["Package.Enum, GetTagset, ReadFile, Open of readers opened before", "file handles opened before"],
  [("reader table", "committed at the moment of loading", "wpk.go FTT"), ("data file", "append only", "files on disk")])

p("C34", "Independent packages never influence each other",
  "Packages, tagsets, maps, unions, file handles and Lua scripts that are not given to each other share no state: using several of them at the same time from different goroutines gives each exactly the results it has alone, without data races, whatever the others do, fail or close.",
  ["schedules", "histories"],
  "All sets of independent uses of the library running at once.",
  "Tests run one package at a time in one goroutine; hidden common state (scratch buffers, caches, lazily built tables) never shows there.",
  ["wpk.go", "writer.go", "tagset.go", "util/uintio.go", "util/seqmap.go", "util/strutil.go", "mmap/mmap.go", "fsys/fsys.go", "bulk/bulk.go", "luawpk/luawpk.go", "luawpk/nametid.go"],
  [("state is held by the objects only", "wpk.go FTT, util/seqmap.go SeqMap, luawpk.LuaPackage"), ("package variables are constant", "luawpk NameTid, TidName, MimeExt; util VarChar")],
  ["oracles of the other properties, run at once", "reports of the race detector"])

for x in P:
    assert len(x["title"]) <= 80, x["title"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
