#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay readable)."""
import json, os
P = []
FS = "abl/vpath/base/fs.py"; MEM = "abl/vpath/base/memory.py"; LOC = "abl/vpath/base/localfs.py"
ZIP = "abl/vpath/base/zip.py"; SU = "abl/vpath/base/simpleuri.py"; UP = "abl/vpath/base/uriparse.py"
MISC = "abl/vpath/base/misc.py"

def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("U01", "A local path string and its URI name the same file",
     "For every local path string (absolute, relative, parent-relative, hidden, with spaces, '#', parentheses, non-ASCII or control characters, trailing slash) the path reported by the URI built from it is that same path, at most with './' put in front of a relative one. Writing the path with or without the 'file://' prefix makes no difference, and the URI reports itself absolute exactly when the path starts with '/'. A path written as 'scheme:///./path' or 'scheme:///../path' is that relative path. Two different paths never give the same reported path.",
     ["inputs"], "all POSIX path strings without '?' (query mark), backslash or NUL, that are not of the form 'X:/...' (drive) or 'scheme://...'; '/./...' and '/../...' are the documented alternative spelling of relative paths and excluded",
     "tests use about ten fixed ASCII paths; hidden, parent-relative, trailing-'#', '((...))' and control-character names are never tried and each goes through a different branch of the parser",
     [FS, SU, UP], [("URI construction and normalisation", FS + ":BaseUri.__init__"), ("path property", FS + ":BaseUri.path"), ("regex split", UP + ":urisplit")],
     ["URI(p).path", "URI(p).is_absolute"])

prop("U02", "Joining and splitting paths are inverse operations",
     "For every URI and every sequence of plain file names, joining the names one at a time, all at once, or as one slash-separated string gives equal URIs; taking directory name and base name of the result gives back the parent URI and the last name. The n-level directory equals the directory taken n times, going up from the root stays at the root, and the extension split of a URI is that of its last name. This holds for every scheme, for archive URIs and for URIs with a host or with a query.",
     ["inputs"], "all schemes, hosts, archive containers, base paths (root included) and name sequences",
     "tests check a handful of joins and splits of ASCII file URIs; the law quantifies over names, depth, scheme, container and query",
     [FS, SU], [("join", FS + ":BaseUri.join"), ("split/directory/basename/last", FS + ":BaseUri.split"), ("re-assembly from parts", SU + ":uri_from_parts")],
     ["URI / name", "split()", "directory(level)", "basename()", "last()", "splitext()"])

prop("U03", "A URI survives the round trip through its text form",
     "Parsing a URI string yields exactly the scheme, user, password, host, port, path, query and container that were written into it, and the text form of any URI parses back to an equal URI. This holds for query values containing any characters (separators, '%', '+', spaces, non-ASCII), also after query values are set on the URI or it is joined with more path parts. Building a URI from another URI gives an equal URI of the same kind with the same text.",
     ["inputs"], "all combinations of URI components, query keys and values (the text form of a local path is only the path; parentheses in user names and http URIs without a host excluded)",
     "tests parse about fifteen fixed URI strings with trivial query values; encoding and decoding of special characters is never exercised",
     [FS, SU, UP], [("parser", SU + ":UriParse.__init__"), ("text form", SU + ":UriParse.__str__"), ("query parser", SU + ":parse_query_string")],
     ["str(URI)", "URI(str)", ".query", ".username", ".port"])

prop("U04", "Derived URIs stay on the same backend with the same credentials",
     "Every URI derived from another one by joining, taking the directory, splitting, adding a suffix or copying has the same scheme, host, port, user, password, container and extra options, and therefore reaches the very same backend instance. Credentials given as keyword arguments or in the query reach the backend exactly like credentials written in the address, and the backend finds them as its attributes. The derivation changes only the path.",
     ["inputs", "histories"], "all address components and extra options (option names other than the parameter names host, port, user, ... themselves), all chains of derivations",
     "tests check one join on a local path and one rescheming; credentials, ports and options are never carried through a derivation",
     [FS, SU], [("derivation passes extras and authority", FS + ":BaseUri.join/split/__add__"), ("connection key", FS + ":BaseUri._key/_extras")],
     ["get_connection()", "arguments given to the backend factory"])

prop("U05", "URI equality distinguishes exactly what addresses different things",
     "Two URIs are equal exactly when scheme, host, port, path, query and archive container agree; equality is reflexive, symmetric and transitive, inequality is its exact negation, and a URI never equals an object that is not a URI.",
     ["inputs"], "all pairs and triples of URIs differing in any subset of components",
     "tests compare a few file paths; no pair differing in port, query, host or container is ever compared",
     [FS, SU], [("equality", SU + ":UriParse.__eq__"), ("equality", FS + ":BaseUri.__eq__/__ne__")],
     ["==", "!="])

prop("U06", "Windows-style paths map to URIs and back without loss",
     "For every Windows drive path, building a URI with backslash as separator gives a URI whose reported path is the original text, whose universal path is '/<drive>/...' with forward slashes, and which is equal to the URI built from the 'file://' form. Joining, splitting and taking directories work on components as they do for POSIX paths, keep the separator, and accept names joined with backslashes. Rooted and relative paths without a drive keep their text, separator and kind as well.",
     ["inputs"], "all drive letters, component sequences and separators",
     "tests check five fixed Windows paths",
     [FS, LOC], [("normalisation", FS + ":normalize_uri"), ("denormalisation", FS + ":denormalize_path"), ("path property", LOC + ":LocalFileSystemUri.path")],
     ["URI(p, sep='\\\\').path", ".unipath", "join", "split"])

prop("U07", "Generic URI splitting, reassembly and reference resolution",
     "Splitting a generic URI into scheme, authority, path, query and fragment and putting it together again gives back the same URI, and splitting an authority into user, password, host and port is undone by joining it. Resolving a relative reference against a base URL gives the target that RFC 3986 prescribes (a trailing slash after dot segments aside).",
     ["inputs"], "all well-formed http-style URIs, authorities and relative references; references with an authority or scheme of their own that contain dot segments, empty segments, ':' in the first segment and fragments on the base excluded",
     "tests split four fixed strings; reassembly and reference resolution have no test at all",
     [UP], [("urisplit/uriunsplit", UP), ("split_authority/join_authority", UP), ("urljoin", UP)],
     ["urisplit", "uriunsplit", "split_authority", "join_authority", "urljoin"])

prop("U08", "Scheme-aware URI parsing fills missing parts from the scheme's defaults",
     "Parsing an URI with the scheme-aware parser gives the scheme and the parts that are written in the text, whatever they are; for each part that is missing it gives the default handed in by the caller, where the caller gives one (a shorter list of defaults stands for the first parts), or else the default of the scheme's parser: the known ones (http, https, ftp, tftp, telnet, imap, imaps, file, mailto), one that the caller has added or put in place of a known one, or the generic one for unknown schemes. A parser set up with own schemes does not affect any other. The scheme and the information behind it are reported as written. Putting the parts together again gives an URI which parses to the same parts.",
     ["inputs"], "all URIs with and without authority, lists of defaults and tables of parsers; a password without a user, a fragment for other schemes than http and https, and paths that do not start with a slash behind a host have no text form and are excluded from putting together",
     "no test uses the scheme-aware parser",
     [UP], [("URIParser", UP), ("scheme parsers and their defaults", UP), ("MailtoURIParser", UP)],
     ["URIParser.parse", "URIParser.unparse", "URIParser.scheme_of", "URIParser.info_of"])

prop("U09", "URIs are independent values, and no operation changes what it is given",
     "Setting or removing a query value, an option or the scheme of one URI changes this URI only in that respect, and no other URI: neither the one it was copied or derived from, nor those that were copied or derived from it, nor any other. A copy (made by URI(...), copy.deepcopy or pickle) is equal to its original; what is derived from a URI starts with its current query and options, and the next operation on a changed URI is carried out by the backend of the changed address. Comparing, printing, deriving, asking for the backend, and operations on the file system, whether they succeed or fail, leave every URI involved and every list or dictionary handed over as they were; changing a list, information object or URI that an operation has returned changes neither the file system nor the next answer.",
     ["inputs", "histories"], "all histories of derivations, changes and operations over several URIs; the first URI reported by a walk (it is the walked one) and URIs used as link targets in memory excluded",
     "tests look at one URI at a time after one step",
     [FS, SU], [("copy constructor", FS + ":BaseUri"), ("_derive", FS + ":BaseUri"), ("_extras", FS + ":BaseUri"), ("query and scheme", SU)],
     ["URI", "URI.query", "URI.extras", "URI.scheme", "join", "copy", "info", "glob", "listdir"])

prop("C01", "One backend instance per distinct address",
     "Two URIs get the same backend instance exactly when scheme, host, port, user, password, container and extra options all agree, in whatever order and however often they are asked for, also by several threads at once, until the instance is closed. Each instance is created once, by the factory registered for its scheme, with exactly the address parts and options of the URI. A scheme without a registered backend raises the documented no-scheme error and creates nothing.",
     ["histories", "inputs", "schedules"], "all sequences and concurrent lookups over all address combinations, registrations and clean-ups",
     "one test compares three local connections; the key's other parts are never varied",
     [FS], [("registry lookup and creation", FS + ":ConnectionRegistry.get_connection/create"), ("address key", FS + ":BaseUri._key")],
     ["get_connection()", "factory calls"])

prop("C02", "Idle backends are closed exactly once and active ones are kept",
     "A clean-up pass closes and forgets exactly those backend instances that were not used within the timeout, a forced pass, a shutdown or the end of the program all of them, each exactly once, even if closing one of them raises or another pass begins meanwhile. Every operation on a path counts as use of its backend. After an instance was dropped the next use creates a fresh one, and the background cleaner applies the same rule by itself.",
     ["histories", "fault_sequences"], "all histories of use, ageing, failing close calls, clean-ups and shutdown",
     "tests only call the forced clean-up on a single backend; ageing and failing close calls never occur",
     [FS], [("cleanup/cleaner/shutdown", FS + ":ConnectionRegistry"), ("last use stamp", FS + ":with_connection")],
     ["close() calls on registered backends", "identity of later connections"])

prop("C03", "An operation is carried out once, by its own backend, exactly as asked",
     "Every operation called on a path is carried out exactly once, by the backend that the path's address selects and no other, with the path itself and all arguments as given by the caller (positional or keyword, defaults as documented); the backend's hook is told of the operation before, and can prevent it. The answer or the error of the backend reaches the caller unchanged. Removing asks the backend to remove exactly the one entry in the way its kind needs, and the checksum reads the file once, to its end, and closes it even if reading fails.",
     ["inputs", "configurations"], "all operations of paths (of revisioned ones too), all argument values and ways of passing them, any number of open backends, failing backends and hooks",
     "tests only use the three built-in backends with a few argument combinations; forwarding to a third-party backend is never observed",
     [FS], [("operations of a path", FS + ":BaseUri/RevisionedUri"), ("connection and hook", FS + ":with_connection")],
     ["calls received by the registered backends", "pre_call_hook", "answers of the operations"])

prop("C04", "Composite operations are right on any backend that has the primitives",
     "A third-party backend that implements the primitive file operations (open, listdir, mkdir, removefile, removedir, exists, isfile, isdir, info, copystat; link operations if it supports links) gets correct composite ones: creating directories with parents, walking, globbing, recursive removal, checksums, copying and moving, within the backend and from or to any other one, leave and report exactly what a POSIX file tree does. The backend is only ever asked for paths of its own, every file opened on it is closed, and it may answer with short reads, unsorted listings and link targets as text or URI. A backend without links says that nothing is a link, and refuses link operations with the documented error.",
     ["histories", "inputs", "configurations"], "all trees, operation histories and pairs of backends; links whose text does not show that source and target coincide, and relative link targets between backends, are excluded",
     "no test defines a backend; the default implementations run only through the built-in backends, which override many of them",
     [FS], [("default implementations", FS + ":FileSystem.copy/move/walk/makedirs/glob"), ("recursive removal", FS + ":remove_dir_recursively"), ("no links", FS + ":FileSystem.islink/readlink/symlink")],
     ["trees of the plugin backend and of the others", "files left open", "paths the backend is asked for"])

prop("C05", "Every installed backend plugin is registered, a broken one disturbs nobody",
     "Every backend class that an installed distribution announces in the entry point group 'abl.vpath.plugins' serves its scheme as soon as the library is imported: URIs of that scheme are of the class it names, also derived ones, and operations reach one instance of it per address. An announced plugin that cannot be loaded, for whatever error, or that is no backend class is skipped: its scheme is unknown (the documented error), and all other plugins and the built-in backends work as if it were not there.",
     ["configurations", "fault_sequences"], "all sets of distributions and plugins, all ways a plugin module fails to load",
     "tests run in one environment with three working plugins",
     [FS], [("plugin loading", FS + ":entry_points loop at the end of the module"), ("registration", FS + ":ConnectionRegistry.register, SCHEME_REGISTRY")],
     ["URI(...) of a plugin's scheme", "import of the library"])

prop("C06", "A fault amid an operation is reported, contained and destroys nothing",
     "If any single call of a backend fails in the middle of a copy, move, removal, directory creation, checksum, walk, glob or listing (with whatever exception, before or after the call took effect), the caller gets exactly that exception, every file opened on the way is closed, and the backend instance stays usable: the same operation repeated without a fault does from the state left behind what it does from any state. What was left behind: a copy has not touched its source and nothing but its target, where every entry is as before or as it should become, but for the one in work; a move has removed nothing of its source unless the copy is complete; a removal has removed nothing but entries below its path; all others change nothing.",
     ["fault_sequences", "inputs", "configurations"], "every call (open, read, write, close, mkdir, listdir, remove, link and query primitives) of every operation over generated trees, on plugin, local and in-memory backends and between them",
     "no test injects a fault into a composite operation",
     [FS, MEM, LOC], [("composite operations", FS + ":FileSystem.copy/move/walk/makedirs, remove_dir_recursively"), ("checksum", FS + ":BaseUri.md5")],
     ["the exception", "trees afterwards", "open files", "the repeated operation"])

prop("B01", "Every backend behaves like the same file tree",
     "For every history of creating, writing, appending, overwriting, reading, listing, querying and removing files and directories, the in-memory and the local backend give the same answers and end in the same tree as a POSIX file tree. Directory listings are sorted and complete, contents read back byte for byte, sizes are exact, and creating a directory with all its parents creates exactly the missing ones. The same holds for absolute, relative and trailing-slash spellings of the paths and for unusual file names.",
     ["histories", "inputs"], "all operation histories over all trees, names and contents",
     "tests run a few fixed scripts, mostly on one level with short ASCII contents",
     [FS, MEM, LOC], [("memory tree", MEM + ":MemoryFileSystem"), ("local backend", LOC + ":LocalFileSystem"), ("generic operations", FS + ":FileSystem")],
     ["all path operations", "tree on disk"])

prop("B02", "Symbolic links resolve the same way on every backend",
     "For every tree with symbolic links (to files, directories, other links, missing targets, loops, in the middle of paths) and every operation through them, the in-memory and the local backend agree with POSIX path resolution: reads, writes, listings and queries act on the target, link queries and removal act on the link itself, and reading a link gives its target as a URI of the same backend. Existence and kind queries never raise; broken and looping links count as not existing.",
     ["histories", "inputs"], "all link graphs and operation histories through them, except walks following links in a cycle (documented as infinite, like os.walk)",
     "on Linux the tests exercise links only in memory, with one link per scenario; combinations, chains, links inside paths and repeated names are not covered",
     [MEM, LOC, FS], [("link resolution", MEM + ":_child/_get_node_prev"), ("local link functions", LOC + ":islink/readlink/symlink")],
     ["exists/isfile/isdir/islink/readlink/open/listdir/remove"])

prop("B03", "A failing operation raises a file-system error and changes nothing",
     "Whenever an operation cannot be done (missing path, a file where a directory is needed or the reverse, existing target, non-empty directory, link loop, source equal to target), it raises the operating system's error for that condition or the documented does-not-exist error, the same on every backend, and never an unrelated internal error. After such a failure the file tree is exactly as before, and later operations work normally.",
     ["histories", "fault_sequences"], "all invalid operations in all reachable trees; recursive copies that meet a conflict half-way inside an existing target tree may be partial",
     "tests check about ten error cases, each in one tree, and hardly ever the state afterwards",
     [FS, MEM, LOC], [("lookup errors", MEM + ":_get_node_prev"), ("error raising in copy/remove", FS + ":FileSystem.copy, BaseUri.remove")],
     ["exception type and errno", "tree after the failure"])

prop("B04", "A copy reproduces the source exactly and leaves it unchanged",
     "Copying a file gives a target with the same bytes; a recursive copy gives a target tree with exactly the source's directories and files at the same relative places with the same bytes, below the target's name if the target is an existing directory and as the target itself otherwise. The source and everything outside the target stay unchanged, and directories named in the ignore list, at any depth, are left out with their content. This holds within and between backends, for any content size, name, nesting and root or trailing-slash spelling of the source.",
     ["inputs", "configurations"], "all trees, contents, names, target situations and backend pairs",
     "tests copy trees of at most three files with eight-byte contents; nested trees from a root, trailing slashes, large files and the ignore list are untested",
     [FS], [("generic copy", FS + ":FileSystem.copy")],
     ["target tree", "source tree", "rest of both backends"])

prop("B05", "Copy follows or preserves symbolic links exactly as asked",
     "With link following on, a copy contains no links made from the source: each link is replaced by the content of its target, and a target that is itself a link to a file is written through. With it off, every link met, including the source itself, is re-created as a link with the same target and nothing behind it is copied or changed.",
     ["inputs", "configurations"], "all source trees with links, target kinds and flag settings; source and target overlapping through links excluded",
     "tests cover single links on the in-memory backend only (the local variants run only on macOS); links nested in copied trees are not tested",
     [FS, LOC, MEM], [("link copying", FS + ":FileSystem._copy_link/copy")],
     ["target tree", "link targets", "files behind links"])

prop("B06", "Move behaves like mv and never loses data",
     "After a successful move the source is gone and the target holds exactly the former source: at the target path if it did not exist, inside it under the source's name if it was a directory, in its place if it was a file. Links are moved as links. If a move fails, or source and target are the same, no content is lost; everything else in the tree stays unchanged, within and between backends and devices.",
     ["inputs", "configurations"], "all trees, kinds of source and target, name clashes and backend pairs; source or target reached through the very link or directory that is replaced or removed excluded",
     "tests move one file and three directories into simple targets",
     [FS, LOC], [("generic move", FS + ":FileSystem.move"), ("local move", LOC + ":LocalFileSystem.move")],
     ["tree before and after"])

prop("B07", "Remove deletes exactly the named entry",
     "Removing a file or link removes only that entry; removing a directory recursively removes all of it and nothing else, in particular nothing behind links inside it or outside the directory. Without the recursive flag only empty directories are removed. After a successful remove the path no longer exists.",
     ["inputs", "histories"], "all trees with links, shared name prefixes, hidden and special names",
     "tests remove trees with one or two entries and two outward links, in memory only on Linux",
     [FS, MEM, LOC], [("remove", FS + ":BaseUri.remove"), ("recursive removal", FS + ":remove_dir_recursively"), ("entry deletion", MEM + ":removefile/removedir")],
     ["tree before and after"])

prop("B08", "Walk visits every directory exactly once, in order, with all entries",
     "Walking a tree reports every directory exactly once with the complete, sorted lists of its sub-directories and its other entries, parents before children when going top-down and after them when going bottom-up. Links to directories are listed as directories but entered only if links are followed; broken or looping links are listed as files. Removing names from the reported directory list during a top-down walk prunes exactly those sub-trees, and reordering it orders the visits.",
     ["inputs", "configurations"], "all trees with links, both directions, both link modes, all prunings, all backends; following links in a cycle excluded",
     "tests walk two fixed trees; all walks with links are skipped on Linux and pruning is untested",
     [FS], [("walk", FS + ":FileSystem.walk")],
     ["sequence of (root, dirs, files)"])

prop("B09", "Glob returns exactly the children whose names match",
     "Globbing a directory with a shell pattern returns, in sorted order and each once, the paths of exactly those direct children, files or directories, whose whole name matches the pattern ('*', '?', character sets and negated sets).",
     ["inputs"], "all directories, names and patterns, all backends",
     "tests use two patterns on two files",
     [FS], [("glob", FS + ":FileSystem.glob")],
     ["glob()"])

prop("B10", "The checksum of a file is the MD5 of all its bytes",
     "For every file content of any length and on every backend, the reported checksum equals the MD5 of exactly the bytes in the file, does not depend on earlier reads or open handles, and computing it leaves the file unchanged.",
     ["inputs"], "all contents and lengths, all backends",
     "no test computes a checksum",
     [FS], [("block-wise digest", FS + ":BaseUri.md5")],
     ["md5()"])

prop("B11", "Permission bits and timestamps are set, kept and copied exactly",
     "Setting executable flags changes exactly the executable bits, and the executable query answers whether any of the asked-for bits is set; setting the mode stores that mode. Copying file metadata, or copying a file within one backend, gives the target the same permission bits and modification time as the source, through links too; moving a file within a backend, also to another device, keeps both, and so does moving a directory on the local file system (on one device). Setting information that names no mode changes no mode. Overwriting or appending to a file keeps its permission bits.",
     ["inputs", "histories"], "all modes, masks and histories of set, copy and rewrite on the local and in-memory backends",
     "tests set a single bit on fresh files",
     [LOC, MEM, FS], [("mode handling", LOC + ":info/set_exec/isexec/copystat"), ("mode handling", MEM + ":info/set_exec/isexec/copystat")],
     ["info().mode", "isexec(mask)", "mtime"])

prop("B12", "Transfers between backends touch only the target backend's target",
     "Copying or moving between two different backends (local, in-memory, archive) with any link mode changes nothing on either backend except the target path on the target backend and, for a move, the removed source. In particular links are created on the target's backend and no file of the source's backend that happens to have the target's path is removed or replaced.",
     ["inputs", "configurations"], "all backend pairs, trees with links, and path coincidences between the backends",
     "one test copies two flat files from memory to disk; no test crosses backends with links",
     [FS], [("cross-backend copy", FS + ":FileSystem.copy/_copy_link/move")],
     ["trees of all backends before and after"])

prop("M01", "In-memory file handles behave like binary and text files",
     "For every sequence of reads, writes, seeks, tells, truncations, line reads and iterations on one or several handles of an in-memory file, opened for reading, writing or appending in binary or UTF-8 text mode, every result and the final content equal those of a regular file: each handle has its own position, text reads count characters, appends go to the end, reading a write-only and writing a read-only handle fails. Text and binary views of the same file are the UTF-8 encoding of each other.",
     ["histories", "inputs"], "all handle histories, modes, contents including multi-byte text and empty files",
     "tests write one short string and read it back; append, seek, truncate and several handles are untested",
     [MEM], [("handle", MEM + ":MemoryFileProxy"), ("content store", MEM + ":MemoryFile")],
     ["read/readline/readlines/iteration/tell", "final bytes"])

prop("K01", "A locked file is locked exclusively until released",
     "At any time at most one holder is inside the lock of a file, whatever handles, links or other paths are used in between; a non-waiting attempt on a held lock fails with the lock exception and a waiting one gets the lock only after its release, which happens also when the holder raises. Taking a lock or failing to take it never destroys the file's content, what the holder writes is added to the file, and with clean-up requested the file is gone after release.",
     ["histories", "schedules"], "all interleavings of lock attempts, releases, writes and other file-system use on both backends",
     "tests lock one file once; contention, content preservation and interference from other paths or memory file systems are untested",
     [MEM, LOC], [("memory lock", MEM + ":MemoryLock"), ("local lock", LOC + ":lock")],
     ["lock() context manager", "content after the attempt"])

prop("M02", "In-memory file systems with different addresses are independent",
     "Two in-memory file systems addressed with different options never share files, directories, links, locks or injected conditions: no operation on one, including creating or dropping it, is observable on the other. The same address always reaches the same tree until it is closed, after which it starts empty.",
     ["histories"], "all interleavings of operations on several in-memory file systems and clean-ups",
     "tests only ever use one in-memory file system",
     [MEM, FS], [("instance state", MEM + ":MemoryFileSystem._initialize"), ("registry", FS + ":ConnectionRegistry")],
     ["trees and locks of each file system"])

prop("M03", "An injected callback runs before every operation on its path, only there",
     "A callback set on an in-memory path is called, with the path, before each operation on exactly that path, however its URI was made, and on no other path, until it is unset. If it raises, the operation raises that same error and has no effect. Setting a modification time is visible afterwards on that path only.",
     ["histories", "fault_sequences"], "all operations, paths and callback placements in operation histories",
     "one test injects an error into remove on two paths",
     [MEM, FS], [("pre-call hook", MEM + ":pre_call_hook"), ("decorator", FS + ":with_connection"), ("manipulation", MEM + ":_manipulate")],
     ["callback invocations", "tree after the failed call"])

prop("M04", "The in-memory dump lists every entry with its full content",
     "The dump of an in-memory file system lists every directory, file and link exactly once under its full path, files with their complete text content whatever was read or written before, links with their target, in sorted depth-first order; with binary suppression on, images are replaced by their MD5. Dumping changes nothing.",
     ["inputs", "histories"], "all text trees, links, image files and preceding handle use",
     "the only test prints the dump without checking it",
     [MEM], [("dump", MEM + ":MemoryFileSystem.dump")],
     ["text written by dump()"])

prop("Z01", "A zip archive behaves like a read/write file tree",
     "For every history of writing members and querying an archive URI, on an archive stored on any backend and from the very first operation of a fresh connection, reading a member gives the bytes last written to it; existence, kind, listing and walk answers agree with the set of members written; a missing member raises the does-not-exist error. This stays so after the archive's connection is dropped and reopened, and an archive that does not exist yet behaves as an empty one.",
     ["histories"], "all write/query/reconnect histories over member trees and archive locations",
     "tests write at most two members and query on an already opened connection",
     [ZIP], [("zip backend", ZIP + ":ZipFileSystem"), ("member matching", ZIP + ":compare_path_strings/content_item")],
     ["open/exists/isfile/isdir/listdir/walk on zip URIs"])

prop("Z02", "Archives are always valid and keep earlier members",
     "After every completed member write, by leaving the with-block or by closing the handle, the archive file is a valid zip that a standard reader opens without errors and that holds every member ever written with its last content; members already in the archive are never lost or changed. Closing a handle once more does nothing, and once the archive's connection is closed nothing of it stays open. Archives made by other tools, with or without directory entries, are read with exactly their members.",
     ["histories", "inputs"], "all sequences of member writes on new and existing archives on local and in-memory storage",
     "tests never read the produced archive with a standard reader",
     [ZIP], [("append/reopen", ZIP + ":WriteStatement/open_zip")],
     ["archive bytes via zipfile"])

prop("Z03", "Copying out of and into archives preserves every member",
     "Recursively copying an archive or a directory in it to the local or in-memory backend yields exactly its members at their relative places with their bytes, as for any other source; copying a file into an archive adds exactly that member.",
     ["inputs", "configurations"], "all member trees, sub-directories, storage and target backends",
     "no test copies from or to an archive",
     [FS, ZIP], [("generic copy over zip", FS + ":FileSystem.copy"), ("zip queries", ZIP)],
     ["target tree"])

prop("W01", "A temporary working directory is always left again",
     "Inside the working-directory context relative paths resolve below the given directory; on leaving it, normally or by an exception and with any nesting, the process is back in the directory it was in before, and the exception is passed on.",
     ["histories", "fault_sequences"], "all nestings, directories and exception points",
     "there is no test for it",
     [MISC], [("WorkingDirectory", MISC)],
     ["os.getcwd()", "relative URI operations"])

prop("W02", "A temporary file handle yields the content and removes the file",
     "Reading from the temporary-file handle, in any chunking, yields exactly the file's content (as reading the text file does), and after it is closed, explicitly or by leaving the context even with an exception, the file no longer exists and no other file was touched.",
     ["inputs", "fault_sequences"], "all contents, read chunkings and exit paths",
     "one test reads five characters once",
     [MISC], [("TempFileHandle", MISC)],
     ["read()", "existence of the file"])

prop("S01", "Threads that work on separate entries do not disturb one another",
     "When several threads work at the same time on entries of their own (directories, files, links, locks or archives that no other thread uses, on the same or on different backends, reached through URIs derived from a shared one), every operation gives each thread the answer it would get if it were alone, and in the end every entry is what its thread made of it. This holds for every interleaving of the threads, and also if the backends are in use for the first time.",
     ["schedules", "histories"], "all interleavings of operation histories on separate entries of the local, in-memory and archive backends",
     "the tests use threads for the file lock only, with one schedule",
     [FS, MEM, LOC, ZIP], [("shared state of a backend", FS + ":FileSystem"), ("lookup", MEM + ":MemoryFileSystem"), ("backend of a path", FS + ":with_connection")],
     ["answers and trees per thread"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
