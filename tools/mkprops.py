#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per property)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "A packed file system is a faithful copy of the files that were packed",
 "For every file and directory selected for embedding, the file system rehydrated from the packed blob returns the same bytes, base name, size, mode, modification time (to the nanosecond) and directory flag that the disk implementation reported when it was packed, under the path (package and name) it was declared with. Walks and directory listings of the rehydrated file system show exactly the packed entries and nothing that was not selected.",
 ["inputs", "configurations"],
 "every module tree of regular files and directories (any content, size, mode, mtime, file names without ':' and '\\\\'; names with outer white space, which the path syntax cannot express, through walks and listings), every set of declared paths in the main module and in other modules it depends on",
 "The tests pack one fixture of 25 small text files and look at three of them; contents, sizes, modes, times, names and multi-module layouts range over an unbounded space.",
 ["pkging/pkgutil/stuff.go", "pkging/mem/add.go", "pkging/mem/embed.go", "pkging/mem/mem.go", "pkging/embed/embed.go", "parser/decl.go"],
 [("pack every selected file", "pkgutil.Stuff"), ("copy a disk file into memory", "mem.(*Pkger).Add"), ("serialise / rehydrate", "mem.(*Pkger).MarshalJSON, UnmarshalJSON, UnmarshalEmbed")],
 ["bytes written by pkgutil.Stuff, reopened with mem.UnmarshalEmbed", "Open/Read/Stat/Walk/Readdir on the result"])

prop("C02", "The embedded set is exactly the declared paths, each path once",
 "The files that are listed and embedded are exactly, for every statically declared path and every extra include path, the named file or the named directory with everything beneath it; each path appears once and the list is sorted by path. Paths that the program declares it creates itself at run time (Create, MkdirAll) are left out, Go sources in folders that the go tool ignores (names starting with '.' or '_', vendor, node_modules, testdata) declare nothing, every other folder of the module counts, and a declared path that does not exist makes listing and packing fail instead of being dropped.",
 ["programs", "inputs"],
 "every module whose Go sources declare paths with string literals or constants, every directory layout below it, every list of -include paths",
 "The tests count the files of one fixture (25) and of one example; overlap between declarations, virtual paths, folder-name rules and missing paths are combinations they never reach.",
 ["parser/parser.go", "parser/source.go", "parser/decl.go", "parser/open.go", "parser/walk.go", "parser/include.go", "parser/http.go", "parser/stat.go"],
 [("folder filter", "parser.(*Parser).parse"), ("expansion of a declaration", "OpenDecl.Files, WalkDecl.Files"), ("dedupe and sort", "parser.Decls.Files")],
 ["parser.Parse(info, includes...).Files()", "pkger list / pkger list -json"])

prop("C03", "Every static pkger declaration in Go source is found, with value and position",
 "For any compilable Go package, each call pkger.Open, Stat, Dir, Walk, Include, Create or MkdirAll whose first argument is a string literal or a string constant of the same package is reported exactly once, with the right kind, the exact unquoted value and the source position of that argument, wherever it stands in the source (nested in arguments, closures, initialisers, other files of the package). Calls whose path is computed at run time are skipped without hiding any other declaration, and no valid source makes the parser crash.",
 ["programs"],
 "every compilable Go package that imports pkger under its own name; every syntactic context of a call; literals in interpreted and raw form; constants local, package level, grouped, in another file",
 "The tests parse two fixed source trees with eleven top-level calls; the property quantifies over programs.",
 ["parser/source.go", "parser/parser.go", "parser/decl.go"],
 [("AST visitor", "parser.(*ParsedSource).parse"), ("constant resolution", "parser.(*ParsedSource).valueIdent"), ("per-directory parse", "parser.(*Parser).ParseDir")],
 ["parser.Parse(info) declarations: type, value, position", "pkger parse"])

prop("C04", "All spellings of a path denote the same file",
 "A path with or without its package prefix, with repeated or trailing slashes, '.' or '..' elements, or with surrounding white space denotes one canonical (package, absolute slash path) pair; parsing is idempotent on the canonical form's text, '..' never leads above the root of the package, and a path without package belongs to the current module. Open, Stat, Create, MkdirAll, Remove, RemoveAll and Walk on the disk and in-memory implementations all act on that same canonical path.",
 ["inputs"],
 "every package name, every sequence of path elements and every equivalent spelling of it, for both implementations and every operation",
 "Tests parse one string and use one spelling per operation; the spellings of a path are infinite and each operation resolves them separately.",
 ["pkging/mem/mem.go", "pkging/stdos/stdos.go", "here/here.go", "pkging/wrap.go"],
 [("parsing", "Pkger.Parse"), ("per-operation resolution", "stdos.(*Pkger).* and mem.(*Pkger).*")],
 ["Parse results", "the effect of one operation observed through another spelling"])

prop("C05", "The in-memory file system behaves like a hierarchical file system",
 "Over any history of Create, Write, Close, Open, Read, Stat, MkdirAll, Remove, RemoveAll and Walk, the in-memory file system gives the results of a plain hierarchical file system: a file reads back what was last closed into it, a file can only be created in an existing directory and not over a directory, MkdirAll makes every missing parent as a directory, leaves existing directories and their contents as they are and fails on a file in the way, and missing paths give an error that os.IsNotExist recognises. An operation that fails changes nothing it was not asked to change.",
 ["histories"],
 "every finite history of operations over a small set of overlapping path names, any contents and permission bits, with at most one open writer per path",
 "Tests run at most three operations per file system; conformance to a model is a statement over all histories.",
 ["pkging/mem/mem.go", "pkging/mem/file.go", "internal/maps/files.go"],
 [("operations", "mem.(*Pkger).Create/MkdirAll/Open/Stat/Remove/RemoveAll/Walk"), ("publication of written data", "mem.(*File).Close")],
 ["results and errors of every call compared with a reference model, and with a real directory through the disk implementation"])

prop("C06", "The disk implementation is the module directory, nothing more and nothing less",
 "Every operation of the disk implementation has exactly the effect and result of the corresponding operating system operation on the file with the same path below the directory of the named package: contents, sizes, modes, times, names, walk order and existence agree with what the os package reports at that moment. No operation touches anything outside that directory.",
 ["histories", "inputs"],
 "every history of operations on a scratch module, every path spelling, with concurrent-looking changes made directly on disk between operations",
 "Tests run each operation once on a fixed name; agreement with the operating system is a statement over histories and names.",
 ["pkging/stdos/stdos.go", "pkging/stdos/file.go"],
 [("path mapping", "stdos.(*Pkger).Create/Open/Stat/MkdirAll/Remove/RemoveAll/Walk"), ("handle metadata", "stdos.(*File).Stat")],
 ["results of each call versus os calls on the scratch directory; full snapshot of the scratch directory and a canary next to it after every step"])

prop("C07", "Reading, seeking and writing through a handle follows the io contracts",
 "On a file of n bytes, embedded or in memory, any sequence of Read and Seek calls behaves as on an operating system file: each Read returns the bytes at the current offset and advances it, io.EOF is reported exactly at the end (also for an empty file), Seek honours all three origins, rejects negative targets and leaves the offset alone when it fails. Every Write is appended in full in order and is visible, complete, to handles opened after Close; handles are independent of each other, and a closed handle reads and writes nothing.",
 ["histories", "inputs"],
 "every content, every sequence of reads of any buffer size, seeks with any whence and offset, writes of any chunking, over several interleaved handles of one file",
 "One test performs eight fixed seek/read steps on a 17 byte file.",
 ["pkging/mem/file.go", "pkging/mem/mem.go"],
 [("offset handling", "mem.(*File).Read, Seek"), ("write buffering", "mem.(*File).Write, Close")],
 ["return values of each call versus an os.File / bytes model on the same content"])

prop("C08", "Walk visits exactly the subtree, once each, in lexical order, and prunes exactly",
 "Walk(p) calls back once for p and for every file and directory beneath it, never for a sibling whose name merely starts the same, parents before children and siblings in lexical order exactly as filepath.Walk would, with the entry's own metadata. Returning SkipDir for a directory prunes that directory's subtree and nothing else, returning it for a file skips the rest of its directory, and any other error stops the walk and is returned; disk and in-memory implementations agree.",
 ["inputs", "programs"],
 "every tree (names that are prefixes of each other, names sorting around '/'), every root, every pattern of SkipDir and error answers of the callback",
 "Tests walk one fixture whose sibling names never share prefixes and never return SkipDir.",
 ["pkging/mem/mem.go", "pkging/stdos/stdos.go", "internal/maps/files.go"],
 [("ordering and pruning", "mem.(*Pkger).Walk"), ("delegation", "stdos.(*Pkger).Walk")],
 ["sequence of callbacks versus filepath.Walk with the same callback policy on an equal tree"])

prop("C09", "Readdir lists each direct child exactly once, in batches that end with io.EOF",
 "Readdir on a directory handle returns each direct child once and nothing else (no grandchildren, no siblings, not itself), with the child's own metadata. With n > 0 successive calls return at most n further entries and then io.EOF; with n <= 0 one call returns all remaining entries and no error; a file is not listable.",
 ["inputs", "histories"],
 "every tree and directory in it, every sequence of batch sizes, embedded, in-memory and disk directories",
 "No test calls Readdir directly; the http test lists one directory through net/http.",
 ["pkging/mem/file.go", "pkging/mem/mem.go", "pkging/stdos/file.go"],
 [("listing", "mem.(*File).Readdir via Walk"), ("delegation", "stdos.(*File).Readdir")],
 ["multiset of returned entries per handle versus the tree that was built, and batch/EOF protocol monitor"])

prop("C10", "Removal removes exactly what was named",
 "RemoveAll(p) removes p and everything beneath it and nothing else - not a sibling whose name starts the same, not the same path in another package - and succeeds when p does not exist. Remove(p) removes a single file or empty directory, refuses a directory that still has entries, and reports a missing path as not existing; every surviving entry keeps its contents and metadata.",
 ["histories", "inputs"],
 "every tree, every sequence of removals, names that are prefixes of each other, several packages",
 "Tests remove one file and one empty directory and check only that the name is gone, never what else went with it.",
 ["pkging/mem/mem.go", "pkging/stdos/stdos.go"],
 [("prefix match", "mem.(*Pkger).RemoveAll"), ("emptiness", "mem.(*Pkger).Remove")],
 ["full snapshot of the file system (all packages) before and after each removal"])

prop("C11", "Same path in different packages is different files",
 "Files are identified by package and path together: for any history of operations on paths of one package, everything observable in every other package is unchanged, and each operation resolves its parents, children and listings inside the package it names. This holds in memory, on disk and through a packed blob.",
 ["histories", "configurations"],
 "every history over two or more packages that use the same path names",
 "No test holds two packages in one file system.",
 ["pkging/mem/mem.go", "pkging/mem/file.go", "pkging/stdos/stdos.go", "pkging/stdos/file.go", "pkging/mem/embed.go"],
 [("package-qualified keys", "mem.(*Pkger).*"), ("package directories", "stdos.(*Pkger).Info")],
 ["per-package snapshots before and after every operation"])

prop("C12", "Serialising and rehydrating an in-memory file system loses nothing",
 "For any state reached by any history of operations, serialising the in-memory file system and rehydrating it gives one with the same current package, the same known packages, the same paths, and for each path the same contents, name, size, mode, modification time and directory flag, and the rehydrated file system keeps working under further operations just as the original would. Serialising does not change the original, and doing it twice gives the same result.",
 ["histories"],
 "every history of operations before and after the snapshot, any number of round trips",
 "The only round trip in the tests packs one fixture and stats two files.",
 ["pkging/mem/embed.go", "pkging/embed/file.go", "pkging/file_info.go", "pkging/mod_time.go"],
 [("serialise", "mem.(*Pkger).MarshalJSON"), ("rehydrate", "mem.(*Pkger).UnmarshalJSON")],
 ["full observable snapshot before, after and after further operations"])

prop("C13", "The blob codec is lossless, source safe, and never yields wrong data",
 "Decoding an encoded byte string returns exactly that byte string, and the encoded form consists only of characters that can stand inside a Go raw string literal. Decoding a blob that was truncated or altered anywhere, or has something other than another complete blob before or after it, either returns an error or returns exactly the original bytes - never other bytes and never a crash - and rehydrating such a blob, if not refused, gives the original file system.",
 ["inputs", "fault_sequences"],
 "every payload; every truncation point, every single-byte alteration and random multi-byte damage of small blobs, sampled damage of large ones",
 "One test encodes the three bytes 'hi\\n'; no test decodes a damaged blob.",
 ["pkging/embed/embed.go", "pkging/mem/embed.go"],
 [("encode", "embed.Encode"), ("decode", "embed.Decode"), ("rehydrate", "mem.UnmarshalEmbed")],
 ["bytes and errors returned by embed.Decode / mem.UnmarshalEmbed on damaged input"])

prop("C14", "Layers answer newest first and fall back to older layers",
 "With file systems layered over one another, Parse, Current, Info, Open, Stat and Create are answered by the newest layer that can answer and by an older one only when every newer layer fails; the error is reported only if all fail. MkdirAll, Remove, RemoveAll and Walk are applied to every layer, newest first, and stop at the first layer that fails, whose error is returned; no layer is asked twice or skipped.",
 ["configurations", "histories"],
 "every stack of layers, every pattern of success and failure per layer and operation, real in-memory layers and scripted ones",
 "There is no test of layering at all.",
 ["pkging/wrap.go", "apply.go", "pkger.go"],
 [("delegation", "pkging.Wrap"), ("installation", "pkger.Apply")],
 ["call log of scripted layers and returned values for each operation"])

prop("C15", "An in-memory file system can be used from many goroutines at once",
 "Any mix of operations on one in-memory or embedded file system from many goroutines, including the very first use, is free of data races, and the concurrent history is linearizable: each Create, Close, MkdirAll, Remove, RemoveAll, Open and Stat takes effect at one instant between its call and its return. A reader sees the complete old or the complete new content of a file, never a mixture, and no update is lost.",
 ["schedules", "histories"],
 "every schedule of 2..16 goroutines mixing reads and updates on few paths, each on its own handles",
 "No test uses a file system from two goroutines.",
 ["pkging/mem/mem.go", "pkging/mem/file.go", "internal/maps/files.go", "internal/maps/infos.go"],
 [("shared maps", "maps.Files, maps.Infos"), ("publication on close", "mem.(*File).Close")],
 ["Go race detector reports", "recorded call/return history checked for linearizability per path"],
 state=[("stored entries", "path -> file entry shared by all handles", "mem.Pkger.files")])

prop("C16", "Applying a file system to the package API is atomic and never lost",
 "Applying layers while other goroutines use the package-level functions is free of data races; every call is answered by one consistent stack of layers, a call that starts after Apply returned sees that layer, no applied layer is ever lost, and layers stack in an order consistent with the order of the Apply calls. A call never observes a layer disappearing again, and an Apply that carries an error panics without installing anything.",
 ["schedules"],
 "every schedule of concurrent Apply calls and package-level reads",
 "No test calls Apply.",
 ["apply.go", "pkger.go", "pkging/wrap.go"],
 [("lock", "pkger.Apply and pkger.impl")],
 ["race detector reports", "per-call log of layers consulted, versus the Apply call/return history"],
 state=[("current", "stack of layers in force", "pkger.current")])

prop("C17", "Serving over HTTP is indistinguishable from net/http serving the same directory",
 "For every tree and every request, an http.FileServer over a pkger directory - embedded, in memory or on disk, through a directory handle or the package-level Dir type - answers with the same status, headers (apart from Date) and body as an http.FileServer over http.Dir on the directory it was made from. This includes listings, redirects, HEAD, single and multiple ranges and conditional requests, and holds under concurrent requests without data races.",
 ["inputs", "schedules", "configurations"],
 "every directory tree, every request path and header combination, sequential and concurrent clients",
 "The tests issue four plain GETs to one fixture.",
 ["pkging/mem/file.go", "pkging/stdos/file.go", "pkger.go", "pkging/mem/mem.go"],
 [("http.FileSystem", "mem.(*File).Open, stdos.(*File).Open, pkger.Dir.Open"), ("file access", "Read/Seek/Readdir/Stat")],
 ["full HTTP responses of the two servers for the same request"])

prop("C18", "The packed program works without its files",
 "For every module, the pack command writes, at the module root or in the directory given with -o, a Go file that is valid, belongs to the package of its directory, builds with the module and has no effect under the skippkger build tag. The program built with it, moved away and run after its sources are deleted, reads every embedded file, directory listing and metadata as they were at packing time, through the same package-level calls that read the disk in development.",
 ["programs", "configurations"],
 "modules of generated shape (library or main packages, -o targets, nested packages, includes, other modules) with generated trees",
 "No test generates or compiles a packed file.",
 ["cmd/pkger/cmds/pack.go", "cmd/pkger/main.go", "pkging/pkgutil/stuff.go", "apply.go", "pkger.go"],
 [("code generation", "cmds.Package"), ("installation at start-up", "pkger.Apply(mem.UnmarshalEmbed(...))")],
 ["output of a compiled probe program run from an empty directory, in development mode and in packed mode"])

prop("C19", "A failed pack is reported and never leaves a damaged result",
 "If anything goes wrong while packing - an unreadable or missing file, a full disk, a write error at any byte, an unresolvable package - the error is reported (non-zero exit, error return) and no partial or damaged Go file is left at the output location. Success is reported only when the complete output has been written.",
 ["fault_sequences"],
 "every write failing after any number of bytes, short writes, file size limits at every region of the output, unreadable or missing inputs, missing output directories",
 "No test injects a fault.",
 ["cmd/pkger/cmds/pack.go", "pkging/pkgutil/stuff.go", "cmd/pkger/main.go"],
 [("error propagation", "pkgutil.Stuff, cmds.Package")],
 ["exit status / returned error together with the bytes at the output location, under injected faults"])

prop("C20", "Packing again reflects the present and ignores the previous output",
 "Packing is repeatable: whatever an earlier run left at the output location (an older result, a truncated or foreign file), the new result describes exactly the present files and declarations, the same as packing from scratch; packing an unchanged module again gives an equivalent result. Packing and listing alter nothing else in the module directory (apart from go.mod and go.sum, which the go command maintains), and the generated file itself is never part of the embedded files.",
 ["histories", "crash_points"],
 "every sequence of edits to the tree and pack/list runs, with stale or truncated output of interrupted runs in place",
 "No test packs twice.",
 ["cmd/pkger/cmds/pack.go", "cmd/pkger/cmds/list.go", "pkging/pkgutil/stuff.go"],
 [("removal of stale output", "packCmd.Exec, cmds.Package")],
 ["decoded blob after each pack; snapshot of the module directory before and after"])

prop("C21", "The inspection commands tell the truth",
 "list (plain and JSON) prints exactly the paths that packing the same module with the same includes embeds; parse prints every declaration with kind, value and position; path prints the canonical path that the API resolves; stat prints the metadata the disk has; info describes the named package. A command that cannot answer exits with a non-zero status instead of printing something else.",
 ["inputs", "configurations"],
 "generated modules, includes and command arguments",
 "The commands have no tests.",
 ["cmd/pkger/cmds/list.go", "cmd/pkger/cmds/parse.go", "cmd/pkger/cmds/path.go", "cmd/pkger/cmds/stat.go", "cmd/pkger/cmds/info.go", "cmd/pkger/cmds/pack.go"],
 [("routing", "packCmd.Route"), ("printing", "*Cmd.Exec")],
 ["stdout and exit status of the built command versus the module, the disk and the decoded blob"])

prop("C22", "No operation leaks file descriptors or goroutines",
 "After any history of operations - including failing ones - in which every handle returned to the caller has been closed, the process holds no more open file descriptors and runs no more goroutines than before; operations that return no handle leave none open. This covers disk, in-memory and layered access, serving over HTTP, parsing, adding files and packing.",
 ["histories", "fault_sequences"],
 "every history of operations on the disk implementation, HTTP requests, Add, parse and pack runs, with garbage collection disabled so finalizers cannot hide a leak",
 "Tests never look at descriptors, and finalizers hide leaks.",
 ["pkger.go", "pkging/stdos/stdos.go", "pkging/stdos/file.go", "pkging/mem/add.go", "pkging/pkgutil/stuff.go", "cmd/pkger/cmds/pack.go"],
 [("closing", "defer Close in Add, Stuff, Package; pkger.Dir.Open")],
 ["/proc/self/fd and goroutine profile before and after, finalizers off"])

prop("C23", "File metadata survives serialisation exactly",
 "A file description made from any os.FileInfo reports the same name, size, mode, modification time, directory flag and Sys, and after a JSON round trip it still does, but for Sys: same instant to the nanosecond, same mode bits including type, setuid and sticky bits, same name. The round trip is stable under repetition.",
 ["inputs"],
 "every name (valid UTF-8), size and mode word, and every instant of any year in any zone, whatever its offset",
 "Tests round-trip one time.Now and compare to the second.",
 ["pkging/file_info.go", "pkging/mod_time.go"],
 [("copy", "pkging.NewFileInfo"), ("time format", "pkging.ModTime")],
 ["accessor values before and after conversion and JSON round trips"])

prop("C24", "Adding disk files copies them, completely and once and for all",
 "Adding an open disk file to an in-memory file system makes exactly that file, and adding a directory exactly that directory and everything beneath it, available under its module path with the bytes and metadata the disk had at that moment; other entries are untouched. Later changes to the disk, or to buffers and metadata handed out earlier, do not change the copy, and adding again replaces each added file by its new state.",
 ["histories", "inputs"],
 "every tree, every order of adding files and directories, disk changes between and after the calls",
 "One test adds one fixture and compares metadata only, never contents and never after a change.",
 ["pkging/mem/add.go", "pkging/mem/mem.go"],
 [("copy", "mem.(*Pkger).Add")],
 ["contents and metadata through Open/Stat/Walk after changes to the disk"])

prop("C25", "Opening relative to a directory stays inside that directory",
 "A name opened through a directory handle or through the package-level Dir type is resolved below that directory, in that directory's package, however many '..' elements, slashes or package-like prefixes the name contains: it yields the same file as joining the cleaned name to the directory's path, or an error, and never anything outside. Embedded, in-memory and disk directories agree.",
 ["inputs"],
 "every directory, every name, including traversal attempts, in the current and in other packages",
 "Tests only open clean names that exist.",
 ["pkging/mem/file.go", "pkging/stdos/file.go", "pkger.go"],
 [("join", "mem.(*File).Open, stdos.(*File).Open, pkger.Dir.Open")],
 ["identity (unique content) of the file that was opened"])

prop("C26", "The serve command serves the directory as it is now",
 "'pkger serve [PATH]' answers every request exactly as a plain file server on the directory that PATH denotes in its module would - same status, headers and bytes - for the root of the module, a folder below it or a folder of another module, and also for files that changed after it started and for concurrent clients. When the directory cannot be served (missing, unknown module, port taken, no module) it ends with a non-zero status instead of serving something else.",
 ["inputs", "histories", "configurations"],
 "every directory tree, way of naming the directory, working directory, request, and change of the files between requests",
 "The command has no tests.",
 ["cmd/pkger/cmds/serve.go", "cmd/pkger/cmds/pack.go", "pkger.go", "pkging/stdos/file.go"],
 [("serving", "serveCmd.Exec"), ("reading", "stdos.(*File)")],
 ["status, headers and body of each response of the built command versus net/http's own file server on the same directory"])

prop("C27", "Concurrent users of the disk and of layers do not disturb each other",
 "The disk implementation, layered file systems and the package-level functions can be used from many goroutines at once, from the very first use of a package on, without data races, panics or deadlocks. Goroutines that work on separate parts of the tree each get, call by call, the answers they would get alone, handles on a file that several have opened keep positions of their own, and the final state is the one that working one after the other leaves.",
 ["schedules", "histories"],
 "every set of concurrent histories on separate subtrees and shared read-only files, every schedule, with nothing or everything looked up before",
 "No test uses goroutines with the disk implementation or with layers.",
 ["pkging/stdos/stdos.go", "pkging/stdos/file.go", "pkging/wrap.go", "pkger.go", "internal/maps/infos.go", "here/here.go"],
 [("lookup of packages", "stdos.(*Pkger).Info, maps.Infos"), ("current implementation", "pkger.impl")],
 ["race reports; transcript of each goroutine compared with that of the same history alone; state in the end"])

prop("C28", "A dump describes exactly the file system",
 "pkgutil.Dump writes one JSON document with the type of the file system, the description of its current package and, for every path that a walk of the whole current package visits and no other, the name, size, mode, time and kind of that file. It changes nothing, and when the file system cannot be described or walked, or the writer fails, it returns that error.",
 ["inputs", "histories", "fault_sequences"],
 "every in-memory (new, worked on, rehydrated), disk and layered file system, every position at which writing or walking fails",
 "Dump has no test.",
 ["pkging/pkgutil/dump.go", "pkging/file_info.go"],
 [("document", "pkgutil.Dump")],
 ["the decoded document versus independent walks, the model and the disk; the error when parts fail"])

prop("C29", "Reading calls answer the same on disk and in the packed program",
 "For the same tree, a program sees the same answer of every reading call - Open, Stat, Read, Seek, Readdir, Close, the HTTP view, Walk, Parse, Info - whether it asks the disk file system during development or the file system packed from that tree: the same content, names, sizes, kinds, order and end, and an error in the one exactly where there is one in the other.",
 ["inputs", "histories"],
 "random module trees, random interleaved sequences of reading calls over several handles, paths in every spelling, existing and missing",
 "Tests exercise the two implementations with separate, fixed expectations on single calls.",
 ["pkging/stdos", "pkging/mem", "pkging/pkgutil/stuff.go", "pkging/embed"],
 [("call", "each method of pkging.Pkger and pkging.File on both sides")],
 ["the two implementations fed the same calls in lockstep, answers compared call by call"])

prop("C30", "No input makes pkger panic, hang or change its answer",
 "Whatever a client passes - strings as paths, a serialised file system or blob, Go sources to parse, arguments of the command - the call returns, with an error when the input makes no sense, and does not panic. What is accepted can be used without a panic, and the same question has the same answer.",
 ["inputs"],
 "mutated serialised file systems and blobs, hostile strings on every function, mutated Go packages, arbitrary command lines",
 "Tests use well-formed inputs.",
 ["pkging/mem/embed.go", "pkging/embed/embed.go", "parser", "here", "cmd/pkger", "pkging/stdos", "pkging/mem"],
 [("input", "UnmarshalEmbed, UnmarshalJSON, Parser.Parse, here.Parse, every method of pkging.Pkger, the command line")],
 ["recovered panics, a deadline per call, repeated questions, round trips of accepted documents"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
