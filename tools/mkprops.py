#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
P = []
F = "abl/vpath/base/fs.py"; M = "abl/vpath/base/memory.py"; L = "abl/vpath/base/localfs.py"
Z = "abl/vpath/base/zip.py"; U = "abl/vpath/base/simpleuri.py"; R = "abl/vpath/base/uriparse.py"
X = "abl/vpath/base/misc.py"

def prop(id, title, statement, over, q, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or ["public URI methods"],
                               hook_needed=hook)))

prop("C01", "Path algebra: join, split, dirname, basename, last and suffix are inverse",
 "For every URI and every plain name, joining the name and then splitting gives back the original location and exactly that name; joining several names at once equals joining them one by one, a trailing slash on the base changes nothing, taking the directory n times equals taking it once with level n and stops at the root, and splitext of the base name concatenates back to it. Adding a suffix changes only the last path component, by exactly that suffix. Query arguments never leak into the names these operations return.",
 ["inputs", "histories"], "all scheme/host/connector/query shapes, all depths, all sequences of join/split/dirname/suffix operations on plain names (spaces, dots, unicode, '#', brackets included)",
 "test_path.py checks about fifteen literal URIs, one operation each; sequences of operations, query arguments and unusual names are not sampled.",
 [F, U, R], [("BaseUri.join/split/directory/last/__add__", F), ("uri_from_parts", U)])

prop("C02", "Derived paths keep their backend: scheme, host, login, archive and extras",
 "A path obtained from another one by join, split, dirname, suffix or copy-construction has the same scheme, host, port, user name, password and enclosing archive and the same extra arguments, and therefore resolves to the very same backend connection as the path it came from. This also holds after the scheme or a query argument of the original was changed in place.",
 ["inputs", "histories"], "all URIs (credentials in the authority, as keyword or as query argument; extra arguments; zip connectors; changed scheme/query) and all derivation sequences",
 "The tests look at two derivations on one local URI; credentials and extras are only checked on the original object, never on a derived one.",
 [F, U], [("_extras/_key and re-construction in join/split/__add__", F)],
 observe=["URI attributes", "connection identity"])

prop("C03", "URI text round trip and equality",
 "Parsing the textual form of any URI gives an equal URI with the same path, host, port, login (as far as it is part of the text), archive and query arguments, whatever characters the query values contain; the textual form of a local path is the bare path, and that and its 'file://' form are the same URI. Two URIs are equal exactly when scheme, host and port, archive, path and query are all equal; a URI never equals something that is not one.",
 ["inputs"], "all URIs built from parts, including query values containing '&', '=', '+', '%', '/', '#', spaces and unicode",
 "Round trips are tested for two http URLs with alphanumeric values.",
 [F, U, R], [("UriParse.__str__/__eq__", U), ("parse_query_string, uri_from_parts", U)])

prop("C04", "URI parsing recovers every component exactly",
 "For a URI text assembled from a scheme, optional user, password, host and port, or an enclosing-archive reference in double parentheses, a path and query arguments, the parsed object reports exactly these components. Every character of the path that is not the query separator, a backslash or (for http) a fragment marker is preserved: hidden names in the root, '#' anywhere, double parentheses, colons, spaces, '@' and unicode; relative paths stay relative and absolute ones absolute.",
 ["inputs"], "all combinations of present/absent components and all path texts over the interesting characters",
 "About twenty literal URIs are parsed in the tests; combinations and unusual characters in paths are not.",
 [F, U, R], [("urisplit/split_authority", R), ("UriParse.__init__", U), ("BaseUri.path/is_absolute", F)])

prop("C05", "One connection per backend identity; different identities are isolated",
 "Two URIs whose scheme, host, port, login, enclosing archive and extra arguments agree always get the same connection object until it is cleaned up, in whatever order these were given; if any of them differs, they get different ones. An unregistered scheme is refused with the dedicated error and creates nothing. In particular memory file systems opened with different extra arguments never see each other's files or locks.",
 ["histories", "configurations"], "all histories of connecting, registering, file operations and cleanups over several identities",
 "One test compares three local connections; isolation between memory namespaces and interleavings with cleanup are never exercised.",
 [F, M], [("ConnectionRegistry.get_connection/create", F), ("MemoryFileSystem._initialize", M)],
 state=[("connections", "open connection per identity key", F)])

prop("C06", "Idle clean-up closes exactly the stale connections, once",
 "A clean-up closes and forgets exactly the connections unused for longer than the idle timeout (all of them when forced), closes each exactly once, and leaves every other connection open and in use; any operation on a path renews its connection. A connection whose close raises neither stops the clean-up nor stays registered. After a connection was forgotten, the next use transparently creates a fresh one; shutdown, also at the end of the program, closes everything and stops the cleaner thread.",
 ["histories", "fault_sequences"], "all histories of uses, clock advances, clean-ups (forced or not), failing closes and shutdown over several connections",
 "Tests only ever call a forced clean-up; the timeout, renewal by use, failing close and shutdown are never exercised because they need simulated time.",
 [F], [("ConnectionRegistry.cleanup/cleaner/shutdown", F), ("with_connection renewing last_used", F)])

prop("C07", "Concurrent use of the registry: one live connection per identity",
 "When several threads ask for the same backend at once, while the cleaner runs, every request returns without error and all of them obtain the one registered connection; no identity ever has two live connections. A request never returns a connection that the cleaner closes before the idle timeout has passed again.",
 ["schedules"], "all interleavings of requesting threads and an idle clean-up",
 "No test starts a second thread; the interleavings that matter are a few bytecodes wide.",
 [F], [("creation lock and registry lookup", F)],
 observe=["returned connection objects", "close calls"], hook="none: line-level deterministic scheduler in the harness")

prop("C08", "Status predicates and listings agree with the tree, on every backend",
 "On the local and the memory backend, exists, isfile, isdir and islink give the answer dictated by the tree for every path - also below plain files, through symbolic links, for dangling links and link loops, with trailing slashes - and never raise. Listing a directory returns exactly its entry names, sorted, and glob exactly the entries whose name matches the pattern; listing anything that is not a directory raises an OSError.",
 ["inputs", "histories"], "all trees of files, directories and absolute symbolic links, all paths, after any history of operations",
 "Tests query a handful of fixed trees; paths through files and repeated names along a path are not covered and link tests are skipped for the local backend on Linux.",
 [F, M, L], [("exists/isfile/isdir/islink/listdir per backend", M), ("FileSystem.glob", F)])

prop("C09", "Directory creation changes exactly the requested directories",
 "mkdir creates exactly one new empty directory, or raises an OSError and changes nothing when the name is taken or the parent is missing or not a directory. makedirs makes the path a directory by creating exactly the missing ancestors, is a no-op on an existing directory, and raises an OSError when some existing component is not a directory. Nothing else in the tree changes.",
 ["inputs", "histories"], "all trees and all target paths, local and memory backend",
 "A few happy paths are tested; failure cases and 'nothing else changes' are not.",
 [F, M, L], [("FileSystem.makedirs", F), ("mkdir per backend", M)])

prop("C10", "File content: what was written is what is read",
 "After any sequence of writing, overwriting and appending sessions, reading a file - binary or text, through any equal path - yields exactly the bytes last written followed by those appended, for every size and character; the reported size and md5 are those of that content. Opening for writing creates the file or truncates it, appending creates or extends it, and no other file changes. Opening a directory, or a path whose parent is missing, raises an OSError and creates nothing.",
 ["inputs", "histories"], "all contents (empty, block-boundary sizes, binary, unicode, NULs) and all histories of sessions on several files, local and memory backend",
 "Tests write short ASCII strings once; append on the memory backend, empty files, block boundaries and failure effects are not covered.",
 [F, M, L], [("open/_open_for_* and MemoryFile", M), ("BaseUri.md5", F)])

prop("C11", "Removal removes exactly the entry or subtree and never follows links",
 "remove deletes exactly the named entry: a symbolic link itself and never its target, a file, an empty directory, or - with the recursive option - the directory with everything below it, while links inside it lose only themselves. Removing a non-empty directory without the option raises an OSError and changes nothing; a missing path raises the does-not-exist error. Nothing outside the removed subtree changes.",
 ["inputs", "histories"], "all trees including links to outside, into the tree itself, dangling and looping links, names of any kind; local and memory backend",
 "Tests cover one tree with two links for memory; on Linux the local variant is skipped.",
 [F, M, L], [("remove_dir_recursively, BaseUri.remove", F), ("removefile/removedir per backend", M)])

prop("C12", "Symbolic links: operations through a link act on its target",
 "symlink creates exactly one link whose readlink returns the given target, or raises an OSError and changes nothing if the name is taken or its parent is missing. Every operation on a path whose components are links - in any position, through chains of links, with repeated names - acts on the target exactly as if the resolved path had been used. Using a dangling link for anything but creating its target raises not-found and a link loop raises ELOOP, always as an OSError; readlink of anything else than a link raises an OSError.",
 ["inputs", "histories"], "all link graphs of absolute links (chains, loops, dangling, through directories), all operations, local and memory backend",
 "Tests use single links to existing targets and self loops; links in the middle of paths and repeated component names are not covered.",
 [F, M, L], [("path resolution of the memory backend", M), ("symlink/readlink per backend", L)])

prop("C13", "Walking visits every directory of the tree exactly once, in order",
 "walk yields one entry per directory reachable from the start, with its subdirectory names and its other names each sorted and together exactly its listing; top-down a directory comes before its subdirectories, bottom-up after them, siblings in sorted order. Linked directories are always listed among the directories but entered only when following links, and removing names from a top-down entry prunes exactly those subtrees. Names are reported under the path walked, not the resolved one.",
 ["inputs"], "all acyclic trees with links, both directions, both link modes, all prunings; local, memory and zip backend",
 "All link-related walk tests are mac-only and do nothing on Linux; pruning is not tested.",
 [F], [("FileSystem.walk", F)])

prop("C14", "Copying a file copies content, mode and times to exactly one place",
 "Copying a file gives the destination - or the same-named entry in it, when the destination is a directory - the source's exact content and, within one backend, its mode and modification time; writing goes through a destination that is a link to a file. Without following links a source link is recreated as a link with the same target, replacing a file at the destination but not its link target. The source and everything else stay unchanged; copying a missing source raises the does-not-exist error, and a file copied onto itself, even via a link, keeps its content.",
 ["inputs", "histories"], "all source/destination combinations of file, directory, link to either, dangling, missing; all contents, modes and times; local and memory backend",
 "The copy tests use one content and check content or link-ness only, with no frame condition.",
 [F, M, L], [("FileSystem.copy/_copy_link", F), ("copystat per backend", M)])

prop("C15", "Recursive copy reproduces the source tree exactly",
 "Copying a directory recursively creates at the destination - or below it under the source's name, when it is an existing directory - a tree with exactly the source's directories, files, contents and (within one backend) file modes and times, merged into what is already there. With links followed they appear as copies of their targets, otherwise as links with the same target; directories whose name is in the ignore list are skipped with all they contain, at every level. The source, spelled with or without trailing slash or as the root, and everything outside the destination stay unchanged.",
 ["inputs"], "all source trees (nested, with links, odd names, root) and destinations (missing, existing, populated), both link modes, all ignore lists; local and memory backend",
 "Recursive copy is tested with at most two nested directories and three names and no frame condition; ignore is not tested at all.",
 [F], [("FileSystem.copy recursive branch", F)])

prop("C16", "Moving is renaming: the same tree under the new name, gone from the old",
 "After a move the source is gone and its complete tree - contents, modes, times, links as links - is found at the destination, or below it under the source's name when the destination is an existing directory; a file moved onto an existing file replaces it. Everything else is unchanged. Moving a missing path or moving a directory into itself raises an error and changes nothing.",
 ["inputs", "histories"], "all source trees and destinations whose target name is free (or a file for a file), local and memory backend, links included",
 "Moves are tested with a single file and two tiny directories, never with links, contents below, or failures.",
 [F, L], [("FileSystem.move", F), ("LocalFileSystem.move", L)])

prop("C17", "Transfers between backends preserve trees and touch only their own side",
 "Copying or moving files and trees between any two different backends or memory namespaces (local, memory, zip archive as source of copies or destination of a file) reproduces names, structure and contents exactly as within one backend. A copy leaves the source backend completely unchanged, a move removes exactly the source, and on the destination backend only the destination changes; links that are preserved become links of the destination backend.",
 ["inputs", "configurations"], "all ordered pairs of backends, source trees and destinations, both link modes",
 "One test copies two root files from memory to local; every other pair, nesting, links and the frame condition are unsampled.",
 [F, Z, M, L], [("FileSystem.copy/_copy_link/move", F)])

prop("C18", "File metadata: modes, exec flags and times change only as requested",
 "Setting exec flags replaces exactly the three exec bits and leaves the other permission bits alone; isexec reports whether any of the asked bits is set; setting a mode or copying the metadata changes exactly the mode (and for copying, the modification time) of the file meant, through links unless told otherwise. Content, size and all other files are unaffected, and writing to a file keeps its mode while renewing its modification time. Size, mode and modification time reported are those of the file.",
 ["inputs", "histories"], "all mode combinations, links, histories of writes and metadata changes, local and memory backend",
 "Tests set one user exec bit on a fresh file.",
 [F, M, L], [("info/set_exec/isexec/copystat/mtime", M)])

prop("C19", "Memory file objects behave like Python files within a session",
 "From opening a memory file to the end of that session, every sequence of read, read(n), readline, readlines, iteration, seek, tell and write returns and leaves exactly what a Python file opened in the same mode on the same bytes would - text mode yielding text without newline translation, binary mode bytes - starting at position zero for reading and at the end for appending. Reading from a file opened for writing or appending raises an IOError.",
 ["histories"], "all operation sequences within one session on all contents (ASCII and binary for positioned reads, unicode for whole and line reads)",
 "Tests read a file in one go and iterate over two lines.",
 [M], [("MemoryFile, MemoryFileProxy", M)])

prop("C20", "Memory locks are exclusive per file and harmless to the loser",
 "At any time at most one holder is inside the lock of a file, whichever URI object, spelling, linked directory or thread it uses; a non-waiting attempt on a held lock fails with the lock exception and a waiting one proceeds only after release. Attempting the lock never changes what the holder has written, the lock is released on every way out including exceptions, and with clean-up the file is gone afterwards. Locks of different files and of different memory namespaces are independent.",
 ["schedules", "histories"], "all interleavings of two or three threads locking, writing and releasing one or two files, with failures inside the locked section, and creation of other memory namespaces meanwhile",
 "One single-threaded test acquires a held lock once.",
 [M], [("MemoryLock, FILE_LOCKS", M)], hook="none: line-level deterministic scheduler in the harness")

prop("C21", "A failing operation never loses data: move, copy and recursive remove",
 "If any backend operation fails part way through a move, copy or recursive removal, the error reaches the caller. A failed copy leaves the source completely unchanged, and after a failed move every file of the source still exists with its full content at the source or, completely copied, at the destination. A failed removal has removed nothing outside the tree, and repeating the operation after the fault has gone completes it.",
 ["fault_sequences", "crash_points"], "an injected failure at every single primitive operation (listing, reading, writing, creating, linking, removing) of every move, copy and recursive removal",
 "No test injects a failure into a composite operation.",
 [F], [("order of copy and remove in FileSystem.move", F), ("remove_dir_recursively", F)],
 observe=["backend plug-in whose primitives fail on demand"])

prop("C22", "A zip archive is a map from member path to the last content written",
 "After any sequence of writes through the zip backend, reading a member returns exactly the bytes most recently written to it, all other members keep theirs, and reading a member never written raises the does-not-exist error. This holds for archives stored on the local and the memory backend, for new and existing archives, across clean-up and re-opening, and a standard zip tool reads the same contents.",
 ["histories"], "all sequences of writes, rewrites, reads and connection clean-ups over several members, nested names and contents",
 "Two writes to one archive are tested, without rewriting, re-opening or comparing the other members.",
 [Z], [("ZipFileSystem.open/open_zip/WriteStatement", Z)])

prop("C23", "Zip directories are exactly those implied by the members",
 "For every archive, isfile holds exactly for member paths, isdir exactly for proper ancestors of members and the root, exists for either; listing and walking return exactly the names implied, each once, sorted. The answers are the same on a freshly opened connection as after other operations; a missing archive has nothing but an empty root, and listing something that is not a directory raises the does-not-exist error.",
 ["inputs", "histories"], "all sets of member paths (names that are prefixes of each other, deep nesting, repeated members) and all query paths, before and after other operations",
 "Queries are tested on archives with at most three members, always after a write on the same connection.",
 [Z], [("_ispart/compare_path_strings/content_item/listdir", Z)])

prop("C24", "Memory fault-injection callbacks and manipulated state act only on their path",
 "A callback installed for a memory path runs before every operation invoked on that very path, by whatever URI object, sees the path, and an exception it raises aborts the operation without any effect; operations on other paths and on the path after the callback was removed are unaffected. Manipulated modification times and lock states are visible to later operations on exactly that path.",
 ["histories"], "all histories of installing, removing and triggering callbacks interleaved with operations",
 "One test installs two callbacks and triggers remove.",
 [M, F], [("pre_call_hook/_manipulate", M)])

prop("C25", "The memory dump shows the whole tree faithfully",
 "Dumping a memory file system lists every directory, every link with its target and every file with its complete current text exactly once, in sorted order under its full path, whatever reading or writing went on before; with binary suppression, image files appear by their md5 only. Dumping changes nothing, neither the tree nor the position of any open file.",
 ["histories"], "all trees and all histories of sessions before the dump",
 "The only test prints the dump and asserts nothing.",
 [M], [("MemoryFileSystem.dump", M)])

prop("C26", "Scoped helpers always restore what they changed",
 "Leaving a working-directory scope restores the previous current directory on every way out, nested or not; a temporary-file handle deletes its file exactly once the handle is closed, however the scope is left, after delivering the content. A local file lock gives its holder a writable file, excludes other lockers until the scope is left by any way out, preserves earlier content, and deletes the file only if asked to.",
 ["histories"], "all nestings and exits (normal, exception) of the scopes",
 "One test of the happy path each; the temp-file test class is not a test case that asserts failure exits.",
 [X, L], [("WorkingDirectory, TempFileHandle", X), ("LocalFileSystem.lock", L)])

prop("C27", "Windows-style paths translate both ways without loss",
 "With a backslash separator, a drive path and its internal slash form denote each other exactly: the reported path is the original text, the internal form has the drive as first component, and join, split and suffix give the results they give on the slash form. Joining accepts names containing the separator as several names.",
 ["inputs"], "all drive letters, component lists, trailing separators and derivation sequences with a backslash separator",
 "Seven literal paths are tested, one operation each.",
 [F, L], [("normalize_uri/denormalize_path", F), ("LocalFileSystemUri.path", L)])

prop("C28", "Generic URI library: split/unsplit inverse, relative resolution per RFC 3986",
 "Splitting a generic URI into scheme, authority, path, query and fragment and joining them again is the identity, as is splitting and joining an authority and parsing and unparsing with a scheme's defaults. Resolving a relative reference against a base gives the RFC 3986 result up to a trailing slash.",
 ["inputs"], "all combinations of present/absent components, authorities and relative references with dot segments",
 "The module's own examples are not run by the test suite; four literal splits are.",
 [R], [("urisplit/uriunsplit/split_authority/join_authority/urljoin/URIParser", R)])

prop("C29", "Backends added by plugins get correct composite operations",
 "A backend that a plugin declares through the entry point abl.vpath.plugins and that supplies only the primitive operations (open, listdir, mkdir, removefile, removedir, exists, isfile, isdir, the metadata calls and, if it has them, symbolic links) gets walk, glob, makedirs, copy, recursive copy, move, recursive remove and md5 from the library, and these obey the same laws as on the built-in backends, also between it and those; in which order it lists names makes no difference to walk. A plugin that can't be loaded keeps no other backend from being available. A backend without symbolic links reports none and refuses to make or read one.",
 ["inputs", "configurations"], "all trees and calls of the composite operations on backends with and without symbolic links, that list names in any order, alone and with local and memory backends",
 "No test defines a backend; the base class is only exercised through the memory backend's overrides and ordering.",
 [F], [("FileSystem.walk/copy/move/makedirs/glob", F), ("remove_dir_recursively", F), ("loading of entry points", F)])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
