"""The one source of properties.jsonl and MANIFEST.json.

    python3 tools/catalog.py        writes both; a property is claimed when
                                    its module mc/props/cNN.py exists
"""
import json
import os

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'abl/vpath/base/'
FS, MEM, LOC, ZIP, SIMPLE, PARSE, MISC = (B + x for x in (
    'fs.py', 'memory.py', 'localfs.py', 'zip.py', 'simpleuri.py', 'uriparse.py', 'misc.py'))

MC, FE, EX = 'model_checking', 'fault_enumeration', 'exploration'
BFS = 'explicit-state breadth-first search of a reference model, every transition replayed on the implementation'
SEQ = 'bounded-exhaustive enumeration of operation sequences on the real code against a reference model'
SCHED = 'stateless model checking: all thread schedules up to a preemption bound under a controlled scheduler'
FAULT = 'exhaustive enumeration of single and double faults at every primitive step of the real code'
GRAMMAR = 'bounded-exhaustive enumeration of all inputs of a grammar against an independent oracle'

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, level, note, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, level=level, note=note, observe=observe))


prop('C01', 'A memory file system behaves as a hierarchical file system with links',
     'After any sequence of mkdir, makedirs, write, append, symlink, remove, copy, move and set_exec on a memory file '
     'system, the tree that listdir, exists, isfile, isdir, islink, readlink, open and isexec show is exactly that of a '
     'POSIX-like hierarchical file system given the same sequence, and an operation is refused exactly when such a file '
     'system refuses it. Walking through a cycle of directory links is outside the property.',
     ['histories'], 'all operation histories over a small set of names and links, from every reachable tree',
     'The tests run a few dozen fixed histories; the interplay of links, files inside paths, overwriting and moving '
     'needs every reachable tree times every operation.',
     [MEM, FS], [('path lookup', MEM + ':_get_node_prev'), ('creation', MEM + ':_open_or_create'),
                 ('removal', MEM + ':removefile'), ('copy and move', FS + ':FileSystem')],
     BFS, MC, 'Complete within the bound: every state within 3 (thorough 4) operations x every operation of the alphabet, '
     'plus successive pairs (triples) without observation in between. Trusts the 300 line reference model.')

prop('C02', 'The local and the memory backend are interchangeable',
     'A program of path operations does the same on the local file system (Linux) and on a memory file system: each call '
     'succeeds or is refused alike, queries and reads return the same values, and the same tree results. Sizes and modes '
     'of directories and links, mode bits beyond the execute bits, time stamps, the mode a lock file is created with, and error texts are exempt, as are walks through '
     'cyclic directory links.',
     ['programs'], 'all programs of bounded length over paths, links, files, open modes and queries',
     'The tests run each backend on its own fixed scenarios; symbolic links of the local backend are not tested on Linux.',
     [MEM, LOC, FS], [('local primitives', LOC + ':LocalFileSystem'), ('memory primitives', MEM + ':MemoryFileSystem')],
     'differential ' + SEQ, MC,
     'Complete within the bound: every state within 2 (3) operations and four rich trees x some 450 operations and queries on both.')

prop('C03', 'A refused operation changes nothing',
     'When an operation on a memory or local path is refused - mkdir, open in any mode, symlink, remove, copy of a single '
     'file, move, set_exec, copystat, lock - be it for what is there or for want of permission, every file, directory and link keeps its '
     'content, execute bits and modification time (only a move between backends leaves the copy, if the source cannot be removed), and later operations behave as if it had never been tried. Refusals are raised as OSError, '
     'PathError or AssertionError (lock also raises the exceptions of abl.util).',
     ['histories', 'inputs'], 'every refused operation in every reachable tree',
     'The tests check that a handful of calls raise, hardly ever that the tree is untouched afterwards.',
     [MEM, LOC, FS], [('checks before the first change', FS + ':_move_target, _refuse_same_file'),
                      ('open', MEM + ':_open_or_create')],
     SEQ + ' (differential: tree before and after)', MC,
     'Complete within the bound; needs no model of what is refused: whatever raises must not have changed anything.')

prop('C04', 'What is written is what is read',
     'The content written to a memory, local or zip path - in any number of chunks, by write or append - is exactly what '
     'reading returns, whole, in chunks, by line or by iteration, and size and md5 agree with it. Text handles keep every '
     'character, wherever chunk borders fall.',
     ['inputs'], 'all sizes around the buffer sizes, chunkings, open modes and ways to read, and texts with multi-byte characters',
     'Tests write short constant strings in one piece.',
     [MEM, LOC, ZIP, FS], [('memory handles', MEM + ':MemoryFileProxy'), ('zip handles', ZIP + ':WriteStatement'), ('md5', FS + ':md5')],
     SEQ, MC, 'Complete over the listed sizes, chunkings and modes; content beyond 33 KB is not tried.')

prop('C05', 'Open memory files honour their mode and are independent of each other',
     'Handles on one memory file that are open at the same time each have a position of their own and see each other\'s '
     'writes at once; a handle opened "r" cannot write, one opened "w" or "a" cannot read, "r+" keeps the content, "w" '
     'empties it, "a" always writes at the end. read, readline, iteration, seek, tell, write and truncate do what they do '
     'on a file of the platform.',
     ['histories'], 'all interleavings of operations of two handles in every pair of modes',
     'Tests use one handle at a time.',
     [MEM], [('handle', MEM + ':MemoryFileProxy'), ('content', MEM + ':MemoryFile')],
     SEQ, MC, 'Complete for two handles, six modes each, 3 (4) operations; the oracle is a list of bytes and two integers, '
     'itself checked against unbuffered local files in the same run.')

prop('C06', 'Symbolic links resolve as POSIX says',
     'On memory and local paths, a link in any component of a path stands for its target - through chains, links to '
     'directories, children of links and links above the link\'s own directory - for every query and operation except '
     'those that concern the link itself (islink, readlink, remove, symlink). A dangling or looping link does not exist, '
     'is a link, and is refused with an OSError where a target is needed; nothing ever recurses or loops endlessly.',
     ['inputs', 'histories'], 'all link graphs over three names and a nested directory, every path up to four components',
     'Tests cover a few straight links; on Linux the local backend\'s link tests are skipped.',
     [MEM, LOC], [('resolution', MEM + ':_child, _get_node_prev'), ('islink', MEM + ':islink')],
     BFS, MC, 'All states of three names drawn from files, directories and links (thorough: also links inside directories) x all probes.')

prop('C07', 'Removal removes exactly what it names',
     'remove() deletes the named file, link or empty directory, remove(recursive=True) a directory with everything in it, '
     'and nothing else: links are removed as links, whatever they point to stays, also through links inside the removed '
     'tree. A non-empty directory is refused without recursive, a missing path always.',
     ['inputs'], 'all trees of bounded size with files, directories and links to anywhere, every path removed both ways',
     'Tests remove two or three constant trees; links pointing out of a removed tree need all shapes.',
     [FS, MEM, LOC], [('remove', FS + ':BaseUri.remove'), ('recursion', FS + ':remove_dir_recursively')],
     SEQ, MC, 'Complete within the bound: all forests of up to 3 (4) nodes of up to 8 kinds on memory and local; named pipes and sockets on local.')

prop('C08', 'A recursive copy is a faithful copy',
     'copy(recursive=True) reproduces the source directory at the target - below it if the target is an existing '
     'directory - with every file\'s content (and execute bits within one backend), empty directories, and names of any '
     'characters; links are followed or, with followlinks=False, reproduced as links; ignored directory names are left '
     'out at every level; what the target already holds beside it stays. The source is unchanged, and copying a directory '
     'into itself is refused.',
     ['inputs', 'configurations'], 'all small trees with links x flags x ignore sets x targets x pairs of backends',
     'Tests copy one or two trees; most of backends x flags x targets is never met.',
     [FS], [('copy', FS + ':FileSystem.copy'), ('makedirs', FS + ':FileSystem.makedirs')],
     SEQ, MC, 'Complete within the bound: all forests of up to 3 (4) nodes x followlinks x 4 ignore sets x 11 targets within memory, 2 (3) nodes on the other pairs, zip among them.')

prop('C09', 'A single-file copy copies the file and harms nothing else',
     'copy() of a file writes its exact content to the target - into it, if the target is a directory; through it, if the '
     'target is a link to a file - replacing what the target held, on every pair of backends, with execute bits and '
     'mtime kept within one backend. A file is never copied onto itself under any name, links are copied as links with '
     'followlinks=False, and the source and all other files stay as they are.',
     ['inputs', 'configurations'], 'all kinds of source x kinds of target x sizes x flags x backend pairs',
     'Tests cover the copy to a new name or directory.',
     [FS], [('copy', FS + ':FileSystem.copy, _copy_file, _copy_link')],
     SEQ, MC, 'Complete over 8 kinds of source, 19 kinds of target, 5 (10) sizes, 11 backend pairs.')

prop('C10', 'move works like mv and never loses data',
     'After a successful move the target is what the source was - file, directory tree or link, in the directory if the '
     'target is an existing directory - and the source is gone; between different backends links are moved as the content '
     'they point to. A move of something onto itself, into itself, or over an existing directory (or of a directory over '
     'anything) is refused with nothing changed, and nothing but source and target ever changes.',
     ['inputs', 'configurations'], 'all small trees and kinds of targets, within and across backends',
     'Tests move a file and a directory to fresh names.',
     [FS, LOC], [('move', FS + ':FileSystem.move, _move_target'), ('local move', LOC + ':LocalFileSystem.move')],
     SEQ, MC, 'Complete within the bound: all forests of up to 2 (3) nodes x all entries x 15 targets, 5 backend pairs.')

prop('C11', 'A copy or move that fails half-way loses nothing',
     'Whatever primitive step of a copy or move fails (open, read, write, close, mkdir, remove, rename, listing, stat), and '
     'wherever it is interrupted or its process ends, afterwards each file of the source has its complete content at the source or, for a move, at its place in the '
     'target; a copy leaves the source untouched; the error is reported to the caller; nothing outside source and target '
     'is changed.',
     ['fault_sequences'], 'a failure of every single primitive call, and of every pair of them; an interruption or the end at every one',
     'No test makes an operation fail in the middle.',
     [FS, LOC], [('order: copy first, remove last', FS + ':FileSystem.move'), ('tree copy', FS + ':FileSystem.copy')],
     FAULT, FE, 'Every call of every primitive of an instrumented backend, and of the os functions below the local backend, is made to fail once; pairs in the thorough tier.')

prop('C12', 'walk visits every entry exactly once',
     'walk() yields every directory below the top exactly once, with all its entries - directories (and links to them) '
     'and others apart, each list sorted - parents first or, with topdown=False, children first; links to directories are '
     'entered only with followlinks; directory names the caller removes from the list while walking top-down are not '
     'entered. A path without a readable directory is refused.',
     ['inputs'], 'all small trees with links, both orders, both link modes, every pruning',
     'Tests walk one or two trees.',
     [FS], [('walk', FS + ':FileSystem.walk')],
     SEQ, MC, 'Complete within the bound: all forests up to 3 (4) nodes on memory, 2 (3) on local and a plug-in, 3 on zip; all prunings of up to 2 names.')

prop('C13', 'Permission bits and metadata are kept and changed as asked',
     'set_exec replaces exactly the three execute bits, info(set_info) exactly the given fields (the mode; in memory the mtime as well), isexec answers whether '
     'one of the asked bits is set, and copystat carries mode and mtime over; each follows links (info with '
     'followlinks=False is about the link itself). Reading, appending, overwriting, renaming neighbours or locking keep '
     'a file\'s mode, and size always is the length of the content.',
     ['histories'], 'all short histories of metadata operations on files and links',
     'Tests set one mode and read it back.',
     [MEM, LOC], [('set_exec, isexec, info, copystat', MEM + ', ' + LOC)],
     SEQ, MC, 'All histories of length 3 (4) over modes, masks, two files and a link, on memory and local.')

prop('C14', 'glob returns exactly the matching entries',
     'glob(pattern) on a directory returns exactly the entries whose whole name matches the shell pattern (*, ?, [seq], '
     '[!seq]; case sensitive on Linux), each once, as paths of that directory on the same connection.',
     ['inputs'], 'all patterns and names up to a length over a small alphabet',
     'Tests try two patterns.',
     [FS], [('glob', FS + ':FileSystem.glob')],
     GRAMMAR, MC, 'All patterns up to 3 tokens x all names up to 3 characters, against a matcher written independently of fnmatch.')

prop('C15', 'URIs share a connection exactly when all connection parameters agree',
     'Two URIs use the same open connection if and only if scheme, host, port, user name, password, archive (connector) '
     'and extra parameters agree, whatever their paths and in whichever way the parameters were given (in the authority, '
     'in the query or as keyword; the query of a http URI is none). The backend is created with exactly these parameters.',
     ['inputs'], 'all pairs of URIs over two values of each parameter and each way to give it',
     'Tests compare a few URIs; mixing up parameters shows only in certain pairs.',
     [FS, SIMPLE], [('key', FS + ':BaseUri._key, _extras'), ('registry', FS + ':get_connection')],
     GRAMMAR, MC, 'Complete over all pairs out of some 7000 parameter settings and ways to give them, with a recording backend.')

prop('C16', 'Connections are safe to look up, create and expire from several threads',
     'However threads interleave, URIs with equal connection parameters that are used at the same time share one '
     'connection, which is created once; no thread is handed a connection that was closed before it asked; cleaning up or '
     'shutting down closes every connection exactly once; and no thread fails or hangs.',
     ['schedules'], 'all schedules of two or three threads that look up, create, expire and force-close connections',
     'The tests are single-threaded in this respect; the races need a particular preemption.',
     [FS], [('locks', FS + ':ConnectionRegistry.create, lookup, cleanup')],
     SCHED, MC, 'Every schedule with at most 2 (3) preemptions for two threads and 1 (2) for three, at bytecode granularity, replayed deterministically.')

prop('C17', 'Idle connections are closed after the timeout, used ones are not',
     'A clean-up closes exactly the connections that have not been used for longer than the timeout - any path operation '
     'is a use - each once, even if closing another one fails; a forced clean-up or shutdown closes all. The next use '
     'after that gets a fresh connection.',
     ['histories'], 'all histories of uses, passing time and clean-ups of two connections',
     'The tests never let time pass.',
     [FS], [('last_used', FS + ':with_connection'), ('clean-up', FS + ':cleanup, cleaner, shutdown')],
     SEQ, MC, 'All histories up to length 6 (7) under a virtual clock, and the real cleaner thread function stepped through by the same clock.')

prop('C18', 'At most one holder has a lock at a time',
     'However threads interleave, two with-blocks of lock() on the same file never overlap - under any spelling of the '
     'same path, with or without fail_on_lock - a try-lock (fail_on_lock) fails at once with LockFileObtainException if '
     'and only if the lock is held, a waiting lock is granted after release, and locks on different files never wait for '
     'each other.',
     ['schedules'], 'all schedules of two or three threads that lock, try, write and release',
     'Tests have one thread wait for another at one point.',
     [MEM, LOC], [('memory lock', MEM + ':MemoryLock'), ('local lock', LOC + ':lock')],
     SCHED, MC, 'Every schedule of 2-3 threads with 0-2 (one more) preemptions beside free switches in and after the critical sections, at bytecode granularity; memory, '
     'and local files with the flock of abl.util under the same scheduler.')

prop('C19', 'A lock is released on every way out and leaves no trace',
     'Whatever happens in the with-block of lock() - normal end, exception, removal or move of the file, a change of the working '
     'directory, nested locks on other files - the lock can be taken again afterwards. The handle it gives is writable, the file keeps its former content '
     'until written to, is created if missing and deleted afterwards exactly if cleanup was asked for; a failed attempt '
     'changes nothing.',
     ['histories'], 'all short histories of lock attempts, block bodies and ends',
     'Tests cover the plain case.',
     [MEM], [('memory lock', MEM + ':MemoryLock')],
     SEQ, MC, 'All histories of 2 (3) lock episodes over 5 paths, 10 bodies, 4 settings of the flags, on memory and local; one thread.')

prop('C20', 'Separate memory file systems share nothing',
     'Memory URIs with the same parameters see the same tree, however the URI was obtained; memory URIs with different '
     'parameters see trees that share nothing: no operation, open handle, lock or fault callback on one shows on the '
     'other. After a forced clean-up a memory file system starts empty.',
     ['histories'], 'all interleavings of short histories on two or three file systems',
     'Tests use one memory file system at a time.',
     [MEM, FS], [('per-connection state', MEM + ':_initialize'), ('key', FS + ':_key')],
     SEQ, MC, 'All interleavings of histories of 2 of 30 operations on each of two file systems, for 4 (15) pairs of parameters.')

prop('C21', 'A zip archive keeps what is written to it, and is a real zip archive',
     'A file written or appended to through a zip URI reads back exactly, as do all files written before; the archive can '
     'be read by any zip tool with the same content, and files of an archive made by another tool can be read. This holds '
     'for archives on local disk, in memory and inside other archives, with several handles open, and for handles closed '
     'by close() or with-block.',
     ['histories'], 'all short histories of writes, appends, reads and overlapping handles',
     'Tests write one or two files per archive.',
     [ZIP], [('write', ZIP + ':WriteStatement'), ('open', ZIP + ':open_zip')],
     SEQ, MC, 'All histories of 3 (4) out of 31 steps, with up to 3 handles open at the same time, cross-read with the zipfile module after each.')

prop('C22', 'Queries on a zip archive show exactly its files and their directories',
     'In an archive, isfile is true exactly for the files in it, isdir for the root and all leading directories of its '
     'files (and directory entries), exists for both, and listdir of a directory names exactly its direct children, each '
     'once - even where one name is a prefix of another, or is blank or hidden. A missing archive is an empty one for '
     'queries; reading a missing file is refused.',
     ['inputs'], 'all sets of up to three or four names out of a pool built to collide',
     'Tests have one archive with three names.',
     [ZIP], [('name comparison', ZIP + ':content_item, compare_path_strings'), ('queries', ZIP + ':_ispart, listdir')],
     SEQ, MC, 'All sets of up to 2 (3) names of the pool everywhere, of 3 (4) in memory, written by this library or by zipfile, all probes.')

prop('C23', 'Parsing a printed URI gives the same URI',
     'For every URI of the form scheme://[user[:password]@][host[:port]][path][?query] (and scheme://((archive))path) '
     'scheme, user, password, host, port, path, query and connector are the parts that were written, and URI(str(u)) is '
     'an equal URI with the same connection parameters - query keys and values may contain any characters. Local paths '
     'print as plain paths.',
     ['inputs'], 'all URIs of the grammar over small alphabets per part',
     'Tests parse some twenty literals.',
     [SIMPLE, PARSE, FS], [('parser', SIMPLE + ':UriParse'), ('splitting', PARSE + ':urisplit, split_authority')],
     GRAMMAR, MC, 'The full product of 4 to 30 choices per part, all pairs of characters in keys and values, raw reserved characters in query and path.')

prop('C24', 'Joining and splitting paths are inverse and act on the path alone',
     'For any URI u and names a, b: (u / a).basename() == a, (u / a).dirname() names what u names, u / "a/b" == u / a / b '
     '== u.join(a, b), split() is (dirname, basename), directory(n) is dirname applied n times (the root is its own '
     'parent), last() ignores one trailing slash, u + suffix appends to the path, and splitext() splits the basename. '
     'Slashes at either side are never doubled, and none of these change scheme, host, credentials, connector or query '
     'parameters of the connection.',
     ['inputs'], 'all base URIs x names with special characters',
     'Tests check a few joins and splits.',
     [FS], [('path algebra', FS + ':join, split, last, directory, __add__')],
     GRAMMAR, MC, 'All bases (schemes and authorities x paths x queries) x all pairs (triples) of names with special characters.')

prop('C25', 'Derived URIs reach the same backend as the URI they come from',
     'Whatever is derived from a URI - by joining, splitting, adding a suffix, copying with URI(u), globbing, walking - '
     'uses the same connection: scheme, host, port, user, password, connector, query parameters and keyword extras all '
     'carry over, over any number of derivations, and changing the query of one does not change the other.',
     ['inputs', 'histories'], 'all derivation chains of bounded length from all kinds of URIs',
     'Tests derive from plain URIs; credentials and extras are rarely present.',
     [FS], [('derivation', FS + ':_with_path, join, __add__, __init__')],
     GRAMMAR, MC, 'All chains of 2 and 3 (4) derivations from all parameter settings, with a recording backend.')

prop('C26', 'URIs are equal exactly when they name the same thing',
     'Two URIs compare equal exactly if scheme, host and port, archive, path and query are equal; == is reflexive, '
     'symmetric, transitive and the opposite of !=, False against anything that is no URI, and a copy is equal to its '
     'original. Credentials and keyword parameters play no part in it.',
     ['inputs'], 'all pairs out of a product of parts',
     'Tests compare a handful of pairs.',
     [FS, SIMPLE], [('comparison', FS + ':__eq__', ), ('parts', SIMPLE + ':__eq__')],
     GRAMMAR, MC, 'All pairs out of a product of the values of each part with at most 3 (4) parts off the first value.')

prop('C27', 'Windows paths convert without loss',
     'A local path with drive letter and backslashes given with sep="\\\\" denotes the same components as the slash form, '
     'and .path gives it back with backslashes and drive letter; joining and splitting work on it as on slash paths, and '
     'what is derived keeps the separator.',
     ['inputs'], 'all drive/relative/absolute paths over small components, all joins',
     'Tests convert two literals.',
     [FS, LOC], [('conversion', FS + ':normalize_uri, denormalize_path'), ('path', LOC + ':LocalFileSystemUri.path')],
     GRAMMAR, MC, 'All paths of up to 3 (4) components; drive letters of one character only (the documented form).')

prop('C28', 'Relative, absolute and hidden paths denote the file they name',
     'A plain path given to URI - absolute, relative, starting with ".", "./", "../", or with a hidden name, with "#", "%" '
     'or blanks in it - denotes the file the operating system finds under that path, seen from the current directory; '
     'is_absolute says whether it starts at the root; joins go to the files below.',
     ['inputs'], 'all paths over a set of awkward components',
     'Tests use plain names.',
     [FS], [('path', FS + ':BaseUri.__init__, path'), ('relative', FS + ':relative_re')],
     GRAMMAR, MC, 'All paths of up to 2 (3) components behind all prefixes, compared with os functions on a real directory. Names with "?" are outside.')

prop('C29', 'Generic URI splitting and joining follow RFC 3986',
     'urisplit and uriunsplit are inverse, split_authority and join_authority are inverse, URIParser.parse and unparse '
     'are inverse for every registered scheme, and urljoin resolves references against a base as RFC 3986 section 5 says '
     '(fragments are those of http and https).',
     ['inputs'], 'all URIs over a small alphabet of parts, including absent and empty ones',
     'Tests parse few literals; the module\'s own self-test is not part of the suite.',
     [PARSE], [('splitting', PARSE + ':urisplit, uriunsplit'), ('authority', PARSE + ':split_authority, join_authority'),
               ('reference resolution', PARSE + ':urljoin')],
     GRAMMAR, MC, 'The full product of parts, all authorities of up to 6 (8) characters; reference resolution against an independent implementation of the RFC algorithm.')

prop('C30', 'A backend registered for a scheme serves that scheme, and only that',
     'URI() of a registered scheme has the class of its backend and its operations reach that backend with unchanged '
     'arguments and return its results; an unregistered scheme can be handled as a path but every operation raises '
     'NoSchemeError. A backend that implements only the primitives gets working copy, move, makedirs, walk, glob, md5 and '
     'recursive remove; one that has an internal_copy is asked for the copies between URIs in use on one connection; one without links answers islink with False and refuses links as not supported; whatever else it '
     'does not implement raises NotImplementedError. A plug-in that cannot be loaded does not keep others from working.',
     ['inputs', 'configurations'], 'all operations x schemes, all subsets of broken plug-ins, and the default operations over a minimal backend in all small trees',
     'Tests cover three built-in backends and one error.',
     [FS], [('dispatch', FS + ':URI, with_connection'), ('defaults', FS + ':FileSystem')],
     SEQ, MC, 'Every public operation with recording backends; default operations over all forests of up to 3 (4) nodes against the model.')

prop('C31', 'Temporary state is restored',
     'WorkingDirectory enters the directory it was given and, however the block ends and however blocks nest or '
     'repeat, returns to the directory that was current before; TempFileHandle gives the content of its file and removes '
     'exactly this file when closed, by close() or at the end of a with-block.',
     ['histories'], 'all nestings and block ends up to a depth',
     'One test each.',
     [MISC], [('working directory', MISC + ':WorkingDirectory'), ('temporary file', MISC + ':TempFileHandle')],
     SEQ, MC, 'Complete within the bound: blocks nested to depth 4 (6), re-entered objects, exceptions, inner chdir; histories of a temporary file to length 6 (7).')

prop('C32', 'Injected faults hit exactly the chosen path, mtimes and locks are set as asked',
     'With _manipulate(next_op_callback=f) on a memory path, f is called with the path before each operation on exactly '
     'that path, and what it raises prevents the operation with nothing changed; None switches it off. '
     '_manipulate(mtime=t) sets exactly this file\'s mtime, lock/unlock hold and release exactly this file\'s lock.',
     ['fault_sequences', 'histories'], 'all operations x armed paths',
     'Tests arm one path and one operation.',
     [MEM], [('hook', MEM + ':pre_call_hook, _manipulate'), ('decorator', FS + ':with_connection')],
     FAULT, MC, 'Every operation x every armed path x every spelling in three trees (thorough: two armed paths at a time).')

prop('C33', 'Threads that use a file system at the same time do not disturb each other',
     'However threads interleave, with URIs of their own or the same URI objects: operations on different entries of one memory or local file '
     'system, also in the same directory, have the results and leave the tree they have one after the other. Of threads '
     'that mkdir, symlink or remove the same path exactly one succeeds; makedirs succeeds in all; nothing is created in a '
     'directory that is gone. Handles of different threads on one memory file each read the content that is there, and '
     'appended pieces are all kept, each in one piece.',
     ['schedules'], 'all schedules of two or three threads with operations on the same or on neighbouring entries',
     'The tests have one thread (but for locks); the races need a particular preemption.',
     [MEM, FS], [('entries', MEM + ':MemoryDir.create, _create_child, removedir'), ('handles', MEM + ':MemoryFileProxy._at_position'),
                 ('makedirs', FS + ':makedirs')],
     SCHED, MC, 'Every schedule with 1 preemption (2 where primitive operations meet; thorough one more) at bytecode granularity, results and tree '
     'compared with all orders of the operations.')

prop('C34', 'URIs can be copied and pickled',
     'A URI of any backend, used or not, given to copy.copy, copy.deepcopy or pickle (any protocol, alone or inside of '
     'containers, any number of times) gives an equal URI of the same class: same scheme, host, port, credentials, archive, '
     'path, separator, query and extra parameters, same printed form, and the same connection, so that operations reach the '
     'same file system. Changing the query, extras, scheme or credentials of a deep copy does not change the original. '
     'Attributes that do not exist raise AttributeError.',
     ['inputs', 'histories'], 'all kinds of URIs in every state of use x ways to copy x derivations in between',
     'No test copies a URI.',
     [FS, SIMPLE], [('attribute lookup', FS + ':BaseUri.__getattr__'), ('state', FS + ':BaseUri.__getstate__')],
     GRAMMAR, MC, 'Complete within the bound: product of authorities, paths and parameters x 6 states x 12 ways x 7 derivations, copied twice (thorough: three times).')

prop('C35', 'The dump of a memory file system is complete and exact',
     'dump() of a memory file system writes every file, directory and link below the root exactly once, under its full '
     'path and in alphabetical order, directories before their entries: files with their content, links with their '
     'targets; bytes that are no UTF-8 are shown escaped, and with no_binary PNG and GIF files are shown by their MD5 sum. '
     'Dumping changes nothing and does not disturb open handles.',
     ['inputs'], 'all small trees with links, names and contents of every kind',
     'One test calls it and looks at nothing.',
     [MEM], [('dump', MEM + ':dump')],
     SEQ, MC, 'All forests of up to 3 (4) nodes x 3 sets of names x 8 contents, dumped as made and after each removal.')

prop('C36', "A file's mtime is the time of its last change",
     'After any sequence of operations on memory or local files, mtime() of a file - also through a link, and in info() - is the '
     'time its content was last changed (created, opened with "w", written, truncated, through whatever handle or link), or the '
     'one that was set since then: by copystat, by a copy within the same backend (the mtime of the source), in memory by '
     'info(set_info) and _manipulate(mtime). Reading, queries, locking, opening for append without writing, changes of the mode, refused '
     'operations and operations on other files leave it, and moving within one backend carries it along. For a local file info() gives access and change time, size '
     'and mode as the operating system has them.',
     ['histories'], 'all short histories of changing, keeping and setting operations',
     'Tests compare two mtimes after a write or two.',
     [MEM, LOC], [('mtime', MEM + ':MemoryFile.write, reset, truncate, MemoryFileSystem.mtime, info, copystat'), ('mtime', LOC + ':mtime, copystat')],
     SEQ, MC, 'All histories of 2 (3) of 42 operations, of 3 (4) of 23, on memory and local; every file is aged after a change, so each change shows.')

prop('C37', 'Threads that use one zip archive at the same time do not disturb each other',
     'However threads interleave that reach one archive through equal connection parameters: reading, writing, appending, updating, '
     'copying, walking and asking have the results they have in some order one after the other (a file counts as written when its '
     'handle is closed), no file that was written is lost or mixed with another, no thread fails because of another, and the '
     'archive stays readable by any zip tool. This holds for archives on local disk, in memory and inside other archives.',
     ['schedules'], 'all schedules of 2 and 3 threads with few preemptions x groups of operations x places of the archive',
     'No test uses an archive from two threads.',
     [ZIP, FS], [('opening and closing', ZIP + ':ZipFileSystem.open_zip, close_zip, open, _names'), ('writing', ZIP + ':WriteStatement.close')],
     SCHED, MC, 'All schedules with 1 preemption (2 for short pairs, in the thorough tier for all short pairs) at every step of the zip backend '
     'that can touch shared state; archive and results compared with all orders of the atomic steps, and the archive read by zipfile.')

NOT_CLAIMED = [
    # (id, title, statement, over, text, why, files, mechanism, reason)
]


def claimed(p):
    return os.path.exists(os.path.join(TOP, 'mc', 'props', p['id'].lower() + '.py'))


def main():
    ps = [p for p in P if claimed(p)]
    with open(os.path.join(TOP, 'properties.jsonl'), 'w') as f:
        for p in ps:
            rec = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                   'quantifier': {'over': p['over'], 'text': p['text']},
                   'why_tests_cant': p['why'],
                   'anchors': {'files': p['files'],
                               'mechanism': [{'name': m[0], 'where': m[1]} for m in p['mechanism']],
                               'hook_needed': None}}
            f.write(json.dumps(rec) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'true',
        'hooks': {'guard': 'none', 'enable': 'no hooks: the checks import the working tree as it is', 'source_commits': []},
        'checks': [{
            'property': p['id'],
            'quick_cmd': './run.sh %s quick' % p['id'],
            'thorough_cmd': './run.sh %s thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['technique'],
            'level': p['level'],
            'level_note': p['note'],
        } for p in ps],
        'not_applicable': [],
        'notes': 'Generated by tools/catalog.py. Everything runs as an unprivileged user in a scratch directory.',
    }
    with open(os.path.join(TOP, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(ps), 'of', len(P))


if __name__ == '__main__':
    main()
