#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    anchors = {'files': files,
               'mechanism': [{'name': n, 'where': w} for n, w in mech],
               'hook_needed': None}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        anchors['observe_at'] = list(observe)
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': anchors})

prop('P01', 'An acknowledged save survives power loss',
     'Once a save, split or get command has exited successfully, every object reachable from the '
     'refs it updated can still be read back intact after a power failure at any later moment, '
     'even though writes and directory entries that were never synchronised may be lost, torn or reordered.',
     ['crash_points', 'fault_sequences', 'histories'],
     'for every backup history, every later power-loss point and every subset of not-yet-synchronised '
     'file data and directory entries that the storage may lose',
     'The test suite never loses the page cache: it only ever observes what the kernel still holds in memory, '
     'so a missing fsync is invisible to it.',
     ['lib/bup/git.py', 'lib/bup/helpers.py', 'lib/bup/repo/local.py', 'lib/bup/protocol.py'],
     [('pack and index files are fsynced, then renamed, then the directory is fsynced',
       'lib/bup/git.py LocalPackStore.finish_pack'),
      ('refs are only moved after the pack writer has been closed', 'lib/bup/cmd/save.py, lib/bup/cmd/split.py, lib/bup/cmd/get.py'),
      ('server acknowledges a pack only after it was finished', 'lib/bup/protocol.py receive-objects')],
     observe=['exit status of the command', 'repository contents on the surviving disk image'])

prop('P02', 'Every crash leaves a repository whose refs are complete',
     'If bup or the machine dies at any instant during any repository operation (save, split, get, rm, '
     'prune, gc, midx, bloom, tag, init), then every ref that exists afterwards still resolves to a complete object '
     'graph, refs not being changed keep their value, and saves made before the crash restore byte for byte.',
     ['crash_points', 'fault_sequences', 'histories'],
     'for every operation, every system call at which execution stops, and every admissible loss of unsynchronised state',
     'Tests never stop a process in the middle of an operation; the number of stopping points times the '
     'number of survivable disk states is far beyond examples.',
     ['lib/bup/git.py', 'lib/bup/gc.py', 'lib/bup/rm.py', 'lib/bup/cmd/midx.py', 'lib/bup/bloom.py', 'lib/bup/helpers.py'],
     [('new packs are written under temporary names and published by rename', 'lib/bup/git.py LocalPackStore'),
      ('idx/midx/bloom files are replaced atomically', 'lib/bup/helpers.py atomically_replaced_file'),
      ('old packs are removed only after their live objects have been rewritten', 'lib/bup/gc.py'),
      ('compare-and-swap ref update', 'lib/bup/git.py update_ref')],
     observe=['object graph of every ref on the surviving disk image', 'bup restore of earlier saves'])

prop('P03', 'An interrupted index or save can simply be re-run',
     'After an index or save run was killed or lost power at any point, running index and save again with the '
     'same arguments succeeds without manual repair, and the resulting save has exactly the content and metadata of '
     'the file system at that time, as if the interrupted run had never happened.',
     ['crash_points', 'histories', 'fault_sequences'],
     'for every stopping point of index/save, every state of the client-side index, metadata and hard-link '
     'databases left behind, and every file system content',
     'Tests only run commands to completion, so the three client-side databases are always mutually consistent in them.',
     ['lib/bup/index.py', 'lib/bup/hlinkdb.py', 'lib/bup/cmd/index.py', 'lib/bup/cmd/save.py'],
     [('new index is written aside and renamed over the old one', 'lib/bup/index.py Writer'),
      ('hard-link database prepared and then renamed', 'lib/bup/hlinkdb.py'),
      ('metadata store is append-only', 'lib/bup/index.py MetaStoreWriter')],
     state=[('bupindex', 'file list with stat data, saved-object ids and offsets into the metadata store', 'lib/bup/index.py'),
            ('bupindex.meta', 'deduplicated encoded metadata', 'lib/bup/index.py'),
            ('bupindex.hlink', 'paths of every multiply linked inode', 'lib/bup/hlinkdb.py')],
     observe=['exit status', 'content of the save that follows'])

prop('P04', 'I/O errors are reported and never corrupt the repository',
     'When reads, writes, syncs, renames or allocations on the repository fail or are short in the middle of a '
     'command, the command either completes correctly or exits with an error, it never reports success for a save '
     'that is not completely stored, and the refs and packs that exist afterwards are all valid and complete.',
     ['fault_sequences', 'histories'],
     'for every command, every failing or short system call (ENOSPC, EIO, EINTR-like short transfers, failing fsync or '
     'rename), transient or persistent',
     'No test makes a system call fail; error paths of the pack writer are essentially unexecuted.',
     ['lib/bup/git.py', 'lib/bup/helpers.py', 'lib/bup/cmd/save.py', 'lib/bup/cmd/split.py'],
     [('pack writer aborts and removes its temporaries on error', 'lib/bup/git.py PackWriter/LocalPackStore'),
      ('non-zero exit after any recorded error', 'lib/bup/helpers.py die_if_errors')],
     observe=['exit status', 'packs and refs in the repository afterwards'])

prop('P05', 'Incremental saves equal full saves for any edit history',
     'However files were created, edited, replaced, renamed, linked, chmodded or deleted between runs, and whatever the '
     'resolution and jumps of the clock, each index followed by save produces exactly the tree that indexing and saving the same '
     'file system into an empty repository with no index would produce.',
     ['histories', 'inputs', 'configurations'],
     'for every sequence of edits and index/save runs, every timestamp granularity, and forward/backward clock steps '
     'between runs, provided an edit changes the size, inode, mode, mtime or ctime the file system reports',
     'Tests check a dozen hand-written edits with real clocks; stale-entry bugs need particular sequences, '
     'coarse timestamps or edits in the same tick.',
     ['lib/bup/index.py', 'lib/bup/cmd/index.py', 'lib/bup/cmd/save.py', 'lib/bup/drecurse.py', 'lib/bup/tree.py'],
     [('entry staleness test on stat data with a time ceiling', 'lib/bup/index.py Entry.stale, tmax'),
      ('invalidation of parent directories', 'lib/bup/index.py, lib/bup/cmd/index.py'),
      ('re-use of saved object ids when still valid', 'lib/bup/cmd/save.py')],
     observe=['tree ids and decoded content of each save'])

prop('P06', 'Restore reproduces exactly what was saved',
     'Restoring any save or subtree of it into an empty directory recreates every path with identical type, content, link '
     'target, mode, timestamps, ownership and hard-link structure, for every file system content and every split configuration, '
     'whether or not sparse writing or a particular re-entry order is used.',
     ['inputs', 'configurations', 'histories'],
     'for every tree of files, directories, links, devices, sparse and chunked files, odd names, '
     'every tree/file splitting setting and restore option',
     'Round trips are tested on a few sample trees; the property quantifies over every tree shape, name and size class.',
     ['lib/bup/cmd/restore.py', 'lib/bup/metadata.py', 'lib/bup/vfs.py', 'lib/bup/tree.py', 'lib/bup/hashsplit.py', 'lib/bup/_helpers.c'],
     [('mangled names and metadata files in trees', 'lib/bup/tree.py, lib/bup/git.py'),
      ('metadata capture and application', 'lib/bup/metadata.py'),
      ('sparse writer', 'lib/bup/_helpers.c write_sparsely')],
     observe=['restored file system tree'])

prop('P07', 'Garbage collection never loses a reachable object',
     'Whatever histories, tags and duplicate or overlapping packs exist, running garbage collection at any threshold keeps every object reachable '
     'from any ref readable with identical content, also when it is interrupted, runs out of space or hits an I/O error '
     'at any point and whether or not it is run again afterwards.',
     ['histories', 'crash_points', 'fault_sequences', 'inputs'],
     'for every repository history, threshold, pack layout, stopping point and failing system call',
     'Tests run gc to completion on a few repositories; they never interrupt it nor meet filter collisions or overlapping packs systematically.',
     ['lib/bup/gc.py', 'lib/bup/bloom.py', 'lib/bup/git.py', 'lib/bup/rm.py', 'lib/bup/midx.py'],
     [('liveness filter of all reachable objects, exact set of live trees', 'lib/bup/gc.py find_live_objects'),
      ('packs are deleted only after the replacement is complete', 'lib/bup/gc.py sweep'),
      ('midx and bloom are discarded before packs change', 'lib/bup/gc.py')],
     observe=['object graph of every ref', 'bup restore of retained saves'])

prop('P08', 'Removing saves and collecting garbage really forgets them',
     'After garbage collection at threshold zero completes, no commit or tree that is unreachable from all refs remains in any '
     'pack, and an object that bup subsequently reports as present really is present, so a '
     'later save of previously removed data is complete.',
     ['histories', 'inputs'],
     'for every history of saves, removals, collections and saves of previously removed data',
     'The dangling-object hazards arise from specific interleavings of rm, gc and re-save that the tests only sample.',
     ['lib/bup/gc.py', 'lib/bup/rm.py', 'lib/bup/git.py', 'lib/bup/midx.py', 'lib/bup/bloom.py'],
     [('exact tracking of live trees and commits during sweep', 'lib/bup/gc.py'),
      ('midx and bloom removal/regeneration around gc', 'lib/bup/gc.py')],
     observe=['objects in packs after gc', 'closure of saves made after gc'])

prop('P09', 'rm and prune-older remove exactly the saves they should',
     'Removing saves or branches and pruning by age leaves exactly the saves the request or retention policy '
     'keeps, in their original order and with unchanged content and dates, leaves every other ref '
     'untouched, and a failure or crash at any point leaves each branch at either its old or its new value.',
     ['histories', 'inputs', 'configurations', 'crash_points'],
     'for every branch history (dates, order, equal times, several branches), every set of targets or retention policy, and every stopping point',
     'Tests use a fixed seed of save dates and never crash; the policy must hold for all dates and clock positions.',
     ['lib/bup/rm.py', 'lib/bup/cmd/prune_older.py', 'lib/bup/cmd/rm.py', 'lib/bup/git.py'],
     [('classification of saves into retention periods', 'lib/bup/cmd/prune_older.py'),
      ('rewriting of the branch without the removed saves', 'lib/bup/rm.py'),
      ('compare-and-swap ref updates', 'lib/bup/git.py')],
     observe=['list of saves per branch', 'content of each remaining save'])

prop('P10', 'Object lookup agrees with the packs, always',
     'After any history of new packs, multi-index and bloom maintenance, garbage collection, crashes and concurrent maintenance, the '
     'repository answers that an object exists if and only if some pack index contains it, and no save ever omits an object '
     'because a lookup structure wrongly claimed it was present.',
     ['histories', 'schedules', 'crash_points', 'inputs'],
     'for every sequence and interleaving of pack creation, midx/bloom generation (any options), removal, gc, and for every object id',
     'Tests check small static pack sets; stale midx/bloom files and concurrent regeneration need histories and schedules.',
     ['lib/bup/midx.py', 'lib/bup/bloom.py', 'lib/bup/git.py', 'lib/bup/cmd/midx.py', 'lib/bup/cmd/bloom.py', 'lib/bup/_helpers.c'],
     [('midx ignored and removed when a component index is missing', 'lib/bup/git.py PackIdxList.refresh'),
      ('bloom regenerated when it does not cover the indexes', 'lib/bup/cmd/bloom.py'),
      ('merge of sorted index tables', 'lib/bup/_helpers.c merge_into, write_idx')],
     observe=['exists() answers', 'closure of later saves', 'bup midx --check, bup bloom --check'])

prop('P11', 'A remote backup is the same backup',
     'Saving, splitting, fetching and restoring through a server over any byte stream, however fragmented, delayed or interleaved, '
     'yields exactly the same refs, objects and output as doing it locally, and always terminates.',
     ['schedules', 'inputs', 'configurations'],
     'for every fragmentation and delay of the streams, every scheduling of client and server, and every state of the client index cache',
     'Tests use a local pipe with one timing; object suggestion, index cache sync and pack rotation depend on timing and cache state.',
     ['lib/bup/client.py', 'lib/bup/protocol.py', 'lib/bup/cmd/server.py', 'lib/bup/repo/remote.py', 'lib/bup/helpers.py', 'lib/bup/vint.py'],
     [('length-prefixed object stream with index suggestions', 'lib/bup/client.py, lib/bup/protocol.py'),
      ('client index cache synchronisation', 'lib/bup/client.py')],
     observe=['refs and objects on the server', 'client exit status and output'])

prop('P12', 'A broken connection never yields a false success or a broken server repo',
     'If the connection, the server or the client dies at any point of a remote operation, the surviving client exits with an error '
     'unless the operation had completed, the server repository keeps only complete refs, and repeating the operation '
     'succeeds with a complete result even though the client index cache may be stale.',
     ['fault_sequences', 'schedules', 'crash_points'],
     'for every byte position at which the stream is cut, every kill point of either side, and every retry',
     'No test cuts a connection; the client cache state after a failure is never exercised.',
     ['lib/bup/client.py', 'lib/bup/protocol.py', 'lib/bup/git.py', 'lib/bup/helpers.py'],
     [('server keeps an unfinished pack suspended or aborts it on disconnect', 'lib/bup/protocol.py'),
      ('client refuses to finish without the final acknowledgement', 'lib/bup/client.py'),
      ('cached indexes that the server no longer has are dropped', 'lib/bup/client.py')],
     observe=['client exit status', 'refs and objects on the server', 'result of the retry'])

prop('P13', 'Concurrent writers never lose or corrupt each other\'s saves',
     'When several bup processes work on one repository at the same time (saves to the same or different branches, '
     'lookup-index maintenance, readers), each writer that exits successfully has its commit in its branch history, no two '
     'successful saves overwrite each other, a writer fails only when another one has changed its branch, and everything that refs reach is complete.',
     ['schedules', 'histories'],
     'for every interleaving of the system calls of two or more processes',
     'Tests run one process at a time.',
     ['lib/bup/git.py', 'lib/bup/cmd/midx.py', 'lib/bup/cmd/bloom.py', 'lib/bup/repo/local.py'],
     [('compare-and-swap ref update', 'lib/bup/git.py update_ref'),
      ('packs have unique temporary and content-derived final names', 'lib/bup/git.py'),
      ('missing midx/idx during refresh is tolerated', 'lib/bup/git.py PackIdxList')],
     observe=['exit statuses', 'branch histories', 'object closure'])

prop('P14', 'fsck finds every damage and repairs what recovery data covers',
     'Any corruption of an existing pack or its index, and missing or empty recovery files, make the repository check fail, a check of intact files succeeds, '
     'damage within the capacity of the recovery blocks is repaired to the exact original bytes, a repair that is reported as successful leaves everything intact, '
     'intact packs are never changed, and an interrupted or failed generation never leaves recovery data that is taken to be good but is not.',
     ['fault_sequences', 'crash_points', 'inputs'],
     'for every pack, every position and kind of damage, every stopping point and failing call of the check, generate and repair operations',
     'Tests damage one pack at a few positions and never interrupt generation.',
     ['lib/bup/cmd/fsck.py', 'lib/bup/git.py'],
     [('pack and index checksum verification', 'lib/bup/cmd/fsck.py'),
      ('recovery files are generated aside and moved into place', 'lib/bup/cmd/fsck.py')],
     observe=['fsck exit status', 'pack bytes after repair'])

prop('P15', 'Multiplexed remote output arrives intact',
     'Standard output and standard error multiplexed over one connection are reproduced byte for byte and in order on their respective '
     'outputs for every fragmentation, size and interleaving, the exit status is preserved, and a stream that is cut short or '
     'malformed is reported as an error rather than treated as complete.',
     ['schedules', 'inputs', 'fault_sequences'],
     'for every byte content, every read/write fragmentation, every interleaving of the two streams and every cut position',
     'Tests pass a few short messages through one pipe.',
     ['lib/bup/helpers.py', 'lib/bup/cmd/mux.py', 'lib/bup/cmd/demux.py', 'lib/bup/cmd/on.py', 'lib/bup/cmd/on__server.py'],
     [('framed multiplexing', 'lib/bup/helpers.py mux, DemuxConn')],
     observe=['bytes delivered on each output', 'exit statuses'])

prop('P16', 'get transfers complete histories and honours each method',
     'Every transfer method (fast-forward, append, pick, force-pick, replace, new-tag, unnamed) either leaves the destination refs in exactly the '
     'state that method documents, with every transferred object complete, or refuses and leaves '
     'all destination refs unchanged, for local and remote destinations and across failures.',
     ['histories', 'configurations', 'fault_sequences', 'crash_points'],
     'for every pair of source and destination histories, every sequence of methods and targets in one invocation, and every failure point',
     'Tests enumerate method/type pairs on tiny repositories with one target each and no failures.',
     ['lib/bup/cmd/get.py', 'lib/bup/git.py', 'lib/bup/vfs.py', 'lib/bup/client.py'],
     [('up-front resolution of all targets', 'lib/bup/cmd/get.py resolve_targets'),
      ('depth-first object transfer that stops at present objects', 'lib/bup/cmd/get.py get_random_item, lib/bup/git.py walk_object'),
      ('refs updated only at the very end', 'lib/bup/cmd/get.py')],
     observe=['destination refs and histories', 'object closure', 'exit status'])

prop('P17', 'Splitting depends only on the data, and joining restores it',
     'Splitting a byte stream yields the same objects however the reads that deliver it are fragmented and whether it goes to a local or remote '
     'repository, and joining the result returns exactly the original bytes; a read error never yields a successful split.',
     ['inputs', 'schedules', 'fault_sequences', 'configurations'],
     'for every stream content and size, every fragmentation of reads, every splitting option, and every failing read',
     'Tests split regular files whose reads are never short and never fail.',
     ['lib/bup/_hashsplit.c', 'lib/bup/hashsplit.py', 'lib/bup/cmd/split.py', 'lib/bup/cmd/join.py', 'lib/bup/tree.py'],
     [('rolling checksum splitter with its own read loop', 'lib/bup/_hashsplit.c'),
      ('tree construction from chunk levels', 'lib/bup/hashsplit.py')],
     observe=['object ids printed', 'joined bytes'])

prop('P18', 'Files that change or fail during a save cost only themselves',
     'When source files are modified, truncated, replaced, removed or become unreadable while index or save run, every other file is saved correctly, the '
     'problem is reported with a non-zero exit when data is missing, the resulting save is well formed, consistent and restorable, '
     'and the next index and save pick up the true content.',
     ['schedules', 'fault_sequences', 'histories'],
     'for every interleaving of source changes with the steps of index and save, and every failing read of a source file',
     'Tests cannot time a change between two system calls of a save.',
     ['lib/bup/cmd/save.py', 'lib/bup/cmd/index.py', 'lib/bup/index.py', 'lib/bup/drecurse.py', 'lib/bup/hashsplit.py'],
     [('errors are recorded per path and saving continues', 'lib/bup/cmd/save.py'),
      ('entry only marked valid when content was stored', 'lib/bup/cmd/save.py')],
     observe=['exit status', 'content of the save', 'content of the next save'])

prop('P19', 'Damaged or missing objects are never restored or read silently',
     'If any object needed is missing from or corrupted in the repository, then restore, join, cat and get fail with an error for the affected '
     'paths instead of producing wrong data with a success status, and restore still reproduces '
     'nothing but correct bytes for what it reports as restored.',
     ['fault_sequences', 'inputs', 'histories'],
     'for every object lost or corrupted and every command that reads it',
     'Tests damage few objects by hand; the reading paths (batch reader, chunked reader, remote) are many.',
     ['lib/bup/git.py', 'lib/bup/vfs.py', 'lib/bup/cmd/restore.py', 'lib/bup/cmd/join.py', 'lib/bup/repo/remote.py', 'lib/bup/client.py'],
     [('batch reader reports missing objects', 'lib/bup/git.py CatPipe'),
      ('missing objects raise errors through the VFS', 'lib/bup/vfs.py')],
     observe=['exit status', 'restored bytes'])

prop('P20', 'Random-access reads of a save equal the saved bytes',
     'Reading any range of any saved file in any order through the browsing interface returns exactly the bytes that were saved, listing a '
     'directory returns exactly its saved entries, and this remains true for open and newly opened paths while other saves, '
     'cache evictions and lookup-index changes take place.',
     ['inputs', 'histories', 'schedules'],
     'for every file size and split configuration, every sequence of seeks and reads, every cache state and every concurrent repository change',
     'Tests read a handful of offsets with an undisturbed cache.',
     ['lib/bup/vfs.py', 'lib/bup/git.py', 'lib/bup/tree.py'],
     [('offset-indexed traversal of chunk trees', 'lib/bup/vfs.py'),
      ('bounded metadata/content cache keyed by object', 'lib/bup/vfs.py')],
     observe=['bytes and listings returned'])

prop('P21', 'A restricted server only lets a client extend its own branch',
     'When a machine is backed up through the restricted server, no sequence of client messages, well formed or not, can change or delete any ref '
     'except moving the requested branch to a new child of its current commit, nor read, alter or remove existing repository data or '
     'use another repository.',
     ['inputs', 'fault_sequences', 'schedules'],
     'for every sequence of protocol commands and malformed or truncated messages a hostile client may send',
     'Tests try a few denied commands; the claim is over all command sequences.',
     ['lib/bup/cmd/on.py', 'lib/bup/protocol.py'],
     [('command allow-list', 'lib/bup/protocol.py Server'),
      ('ref update vetting', 'lib/bup/cmd/on.py save_or_split_server_config'),
      ('repository directory vetting', 'lib/bup/cmd/on.py restricted_repo_config')],
     observe=['refs and files of the repository after the session'])

prop('P22', 'Bandwidth limiting respects the limit and never stalls',
     'With a bandwidth limit set, over any interval the sender transmits no more than the limit allows plus one bounded burst, the data is unchanged, '
     'and sending completes in time proportional to the data whatever the system clock does.',
     ['schedules', 'inputs', 'fault_sequences'],
     'for every message size sequence, limit, scheduling delay and wall-clock step',
     'Tests never set the limit under a controlled clock.',
     ['lib/bup/client.py'],
     [('rate-limited raw write loop', 'lib/bup/client.py _raw_write_bwlimit')],
     observe=['time stamps and sizes of the writes', 'bytes delivered'])

prop('P23', 'Validation commands report exactly the broken refs',
     'The ref and object-link validation commands report a problem if and only if some examined ref reaches a missing object '
     '(or, for object-link validation, some stored object refers to a missing one), and '
     'never modify the repository.',
     ['inputs', 'histories', 'fault_sequences'],
     'for every repository history and every set of lost objects',
     'Tests remove one object; false negatives depend on which object is missing and on the traversal order and sharing.',
     ['lib/bup/cmd/validate_refs.py', 'lib/bup/cmd/validate_ref_links.py', 'lib/bup/cmd/validate_object_links.py', 'lib/bup/git.py'],
     [('graph walk with seen-sets', 'lib/bup/cmd/validate_refs.py, lib/bup/git.py walk_object')],
     observe=['exit status', 'reported objects'])

prop('P24', 'Repair and rewrite of saves preserve everything that is intact',
     'Rewriting or repairing saves into a repository yields saves whose restored content equals the source for every intact path, '
     'replaces exactly the paths whose data is missing and says so, and always leaves the destination complete.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'for every source history, every set of missing objects, every pair of split configurations and every failure point',
     'Tests repair single hand-made holes; the memoising database and split configurations multiply the cases.',
     ['lib/bup/rewrite.py', 'lib/bup/repair.py', 'lib/bup/cmd/get.py', 'lib/bup/vfs.py'],
     [('vfs-level rewrite with a memo database', 'lib/bup/rewrite.py'),
      ('replacement of missing paths', 'lib/bup/rewrite.py, lib/bup/repair.py')],
     observe=['decoded content of source and destination saves', 'exit status'])

prop('P25', 'Names and encodings convert without loss',
     'URL, shell-quoting, variable-length integer and option parsing functions are inverse to their encoders for every input.',
     ['inputs'],
     'for every byte string or integer',
     'Unit tests sample some values.',
     ['lib/bup/url.py', 'lib/bup/shquote.py', 'lib/bup/vint.py', 'lib/bup/options.py'],
     [('encoders and decoders', 'lib/bup/vint.py, lib/bup/url.py, lib/bup/shquote.py')],
     observe=['return values'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
