HEAD = """# Runtime monitoring for markbates/pkger

(DESIGN.md is written by `tools/mkdesign.py` from the checks themselves and the
prose in `tools/design_text.py`.)

## How a check works

`python3 run.py Cnn` builds `harness/` (a Go program that imports pkger through
`replace github.com/markbates/pkger => /repo`) and, where needed, the `pkger`
command, always from /repo's working tree, and starts eight workers. A worker
runs numbered cases. A case is determined by the seed, the property and its
number (`run.py Cnn --case N --seed S -v` repeats it alone), makes a scratch
module, a history of calls or a set of requests, makes the real code execute
it, and observes with monitors what the client can see. The verdict is always
an oracle's about an execution:

* a reference model written for this purpose (`harness/model.go`, a
  hierarchical file system with packages; it shares no code with pkger),
* the operating system (package `os`, `/proc/self/fd`, exit statuses, what is
  on the disk before and after),
* the standard library on the same data (`filepath.Walk`, `http.FileServer`
  over `http.Dir`, `os.File`, the type checker of `go/types`, `go list`),
* the Go race detector, and porcupine for linearizability,
* the same program run twice: solo and concurrent, before and after packing,
  before and after serialising.

Nothing is decided by looking at source text, so that code which behaves the
same gives the same verdict.

Verdicts: exit 1 with `VIOLATION property=.. replay=..` (the replay file holds
the case, the message, the log of the calls and the command that repeats it);
exit 0; anything else is no verdict (a tool is missing, a worker died for
reasons that are not pkger's). Each check has lower limits on what its monitors
must have observed (`MinObs`: events of each kind per 100 cases); a run that
observed less gives no verdict rather than a pass. What was observed - counters,
distinct cases by hash of what was seen, samples - is in `evidence/Cnn.json`.

Containment: workers run as an unprivileged user (nobody) with only a scratch
directory of their own, under limits of address space and a deadline; calls
that could leave the module (`RemoveAll("/..")`) reach nothing real. Canaries
around the module are part of the snapshots. Faults are injected from outside:
failing writers, RLIMIT_FSIZE, RLIMIT_NOFILE, permissions (workers are
unprivileged, so that they count), sockets and dangling links, and `strace -e
inject` for errors of single system calls.

No hooks were needed in /repo: everything is observable through the public
API, the command and the operating system. C15, C16, C17 and C27 are built with
`-race`; the schedule is varied with random yields, several GOMAXPROCS and
goroutine counts, since Go offers no other scheduler control.

Runtime monitoring applies to every property listed; `not_applicable` is empty.

## Properties, monitors, cost
"""

ORACLE = {
"C01": "The os package's view of the selected tree, taken before packing, versus every way to look at the packed copy. Any byte, mode bit, nanosecond or name of any tree has to survive; the tests pack one small tree and look at names.",
"C02": "An expansion of the declarations that the type checker finds and of the includes, by the os package. Which file is meant depends on the interplay of module, package, folder, spelling and kind of declaration; the tests have one module.",
"C03": "go/types: a call is a declaration if the type checker resolves its function to pkger's and its argument to a constant. The syntactic contexts are unbounded, the tests sample a handful of files.",
"C04": "The generator knows the canonical path it has spelled; observation across operations (created under one spelling, read under another).",
"C05": "The reference model, after every mutation the whole observable state. Errors of a file system show after sequences that no fixed test has.",
"C06": "The os package on a twin directory, canaries outside of it.",
"C07": "An automaton of offset, end of file and content per handle, after the contracts in package io.",
"C08": "filepath.Walk on an equal tree on the disk, callback by callback, with the same answers.",
"C09": "A protocol monitor: no entry twice, none missing, batches of at most n, io.EOF exactly at the end, same for every handle.",
"C10": "Full snapshots before and after, minus what was named.",
"C11": "Snapshots of the packages that were not named.",
"C12": "Snapshots before and after, then lockstep histories with the model.",
"C13": "Damage is enumerated for small blobs (every position, every kind) and sampled for large ones; decoding gives an error or the payload. Results are held to catch aliasing.",
"C14": "A monitor of the calls that each scripted layer got; and the layer-by-layer emulation on copies of real ones.",
"C15": "The race detector and porcupine; completeness of versions in long histories.",
"C16": "The race detector and a checker of recorded answers against the final order of layers.",
"C17": "net/http serving the same directory.",
"C18": "The disk's contents versus what the built, moved program prints without its sources.",
"C19": "Fault injection at chosen bytes and system calls; the output is taken apart by the oracle's own decoder (go/parser, hex, gzip, json).",
"C20": "The present disk versus the decoded output; a second run and a run from nothing have to give the same.",
"C21": "os.Stat, the type checker, go list, and what packing embeds.",
"C22": "/proc/self/fd and the goroutine profile after every call, with no finalizers.",
"C23": "Equality of accessors over JSON round trips.",
"C24": "The os package at the time of adding; then everything outside is changed.",
"C25": "Each file's content is its identity, so whatever was opened tells which file it is.",
"C26": "net/http serving the same directory over the same network, in lockstep with changes on the disk.",
"C27": "The same histories run alone: whatever differs is an effect of concurrency. And the race detector.",
"C28": "The model, the disk and walks, versus the decoded document; failures injected at every layer.",
"C29": "The two implementations are each other's oracle; C05 and C06 tie them to outside oracles.",
"C30": "A recovered panic whose innermost pkger frame names the defect, a deadline, the same question asked twice.",
}

COST = {}

TAIL = """
## What the checks found

All were genuine (each was shown with an input on the real code), all were
repaired by a minimal `fix:` commit in /repo; KNOWN_FINDINGS.txt lists commit
and effect. No finding was left unrepaired, so no check prints KNOWN-FINDING.
The repairs with the widest effects: Walk, Remove and RemoveAll in memory
matched by bare string prefix (lost siblings and other packages' files);
Readdir never advanced; Create ignored the package; spellings were cleaned
across the package prefix; files of other modules were embedded under the wrong
path; a failed pack left a damaged Go file which the next pack embedded into
itself; concurrent first use raced; the disk implementation outside of a module
acted on the root of the disk.

## False alarms, and what was done about them

* C08 first required mem's Walk of a missing root to fail as on disk. Layers
  depend on it returning nil (existing behaviour, tested): the property excludes it.
* C08 required the pruning of symlinked directories as on disk; what a walk
  through links does is not specified: links are not walked.
* C07 and C22 asked for an error of a second Close in memory; not specified.
* C13 took a blob with another complete blob appended for damaged; gzip
  streams may be concatenated, decoding it is right.
* C15 alarmed for two simultaneous writers of one path; last close wins is
  as good as any: every path has one writer at a time.
* C28 compared two dumps of a disk byte by byte; access times are part of Sys and change by reading.
* C30 took the order of declarations in two parses for an answer; it follows
  Go's map order between files and is not specified: compared as a set.
* C26 counted a server that could not bind its port in time as failed; that is
  no verdict.
* C21 and C26 read printed lines and were misled by names with line breaks: the
  harness was wrong, the lines are now compared as a whole.
* C29 generated names longer than the file system takes and paths longer than
  PATH_MAX (C04): the disk side failed, not pkger. Bounded.
* C13 spelt a tree entry like the module directory and took the result for
  damage. Generator corrected.
* C15 gave no verdict on a loaded machine, a minimum of observations depended on
  the schedule; those minima (C15, C16, C27) are now far below what is seen.

## Not specified, hence not generated or not compared

Names with white space at their ends or backslashes cannot be said in a path's
text form, they occur in walks and listings only; NUL in names (C30 checks only
that it does no harm); names that are no UTF-8 in what is printed or dumped as
JSON for reading (`list -json`, `Dump`, a `FileInfo` alone); aliased imports; nested modules below a
packed directory; symbolic links to directories beneath a declared path;
`filepath.SkipAll`; reading back a file before its writer was closed; a
`pkger.Dir` whose root can be entered but not opened; absolute paths of the disk
beneath the module directory (they denote the module's file); `here.Dir` changes
the working directory of the process while it asks the go command, so parsing is
not claimed to be safe from many goroutines.

## What runtime monitoring cannot give here

All verdicts hold for what was executed. Schedules are those that the Go
scheduler produced (C15, C16, C27 count distinct recorded histories as
evidence); crash points of a pack are sampled bytes and system calls, not all of
them; the mutations of C30 are random, not guided by coverage.
"""

CAUGHT = {}
