#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from this table and lsqv/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = []


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    T.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)))


P('C01', 'Reading a range of a file yields exactly those bytes',
  'For every valid image, every regular file in it and every range, reading the range delivers exactly the bytes the file has there: stored compressed or raw, in full blocks, as a sparse hole (zeros) or in a shared tail fragment. The number of bytes delivered is the requested length cut at the end of the file, zero at or past the end. Nothing outside the caller\'s buffer range is written, and an unreadable block makes the read fail instead of delivering other bytes.',
  ['inputs', 'histories'], 'all images (block sizes, block lists, holes, fragments, compressed or raw blocks), all files, all offsets and lengths, all earlier cache contents',
  'The tests read a handful of small files of one fixed image from their start; block boundaries, holes, fragments at an offset, raw blocks and every offset/length combination are unreachable for them.',
  ['src/file.c', 'src/fs.c', 'src/cache.c', 'src/decompress.c', 'src/table.c'],
  [('block list walk, block/fragment selection and copy', 'src/file.c sqfs_read_range'), ('block decompression', 'src/fs.c sqfs_block_read')], observe=['sqfs_read_range', 'squash_read'])
P('C02', 'Random access in large files finds the right block',
  'For every file, however large, looking up the block that holds any offset through the block index yields the same block position, size and metadata position as walking the block list from its start. It does so whatever parts of the index earlier lookups have filled in for any files, and a failure while filling it never leaves an entry that later lookups trust wrongly.',
  ['inputs', 'histories'], 'all file sizes and block lists, all offsets, all sequences of lookups over all files of an image, failures at any metadata read or allocation',
  'The index only comes into play for files of many hundreds of blocks; the test image has none, so the code is never executed by the tests.',
  ['src/file.c', 'src/cache.c'], [('index build and lookup', 'src/file.c sqfs_blockidx_add, sqfs_blockidx_blocklist'), ('list stepping', 'src/file.c sqfs_blocklist_next')], observe=['sqfs_read_range at large offsets'])
P('C03', 'A virtual descriptor reads and seeks like a read-only file',
  'Successive reads on an open virtual descriptor deliver consecutive parts of the file: each read starts at the descriptor\'s position and advances it by exactly what it delivered, and a failed read leaves the position alone. Seeking from the start, the current position or to the end sets the position the documentation says and refuses negative targets and unknown modes without moving. Closed, unknown or out-of-range descriptors and directories are refused with an error, and descriptors do not influence each other.',
  ['inputs', 'histories'], 'all sequences of read and seek on all descriptors, all lengths, offsets and modes, failures of the underlying read at any point',
  'The tests do one or two reads and seeks on one file; they cannot cover arbitrary interleavings of positions, invalid seeks or failing reads.',
  ['src/fd.c'], [('position bookkeeping', 'src/fd.c squash_read, squash_lseek'), ('descriptor lookup', 'src/fd.c, squash.h SQUASH_VALID_VFD')], observe=['squash_read', 'squash_lseek'])
P('C04', 'Descriptor table: no leak, no reuse while open, no foreign close',
  'Opening returns a number no other open virtual file has and that belongs to the file opened; closing frees exactly that one, so that later use of it is refused. Opening or closing one descriptor, or failing to at any point for lack of memory or descriptors, leaves all others as they were and leaks neither memory nor real descriptors. A directory stream owns one descriptor, released with it.',
  ['histories', 'fault_sequences'], 'all sequences of open, close, opendir and closedir, with allocation or open failures at any point',
  'The tests open a few descriptors in one order without failures; growth of the table, reuse orders and failure paths are outside what samples reach.',
  ['src/fd.c', 'src/dirent.c'], [('table growth and slots', 'src/fd.c squash_open_inner, squash_close'), ('stream ownership', 'src/dirent.c squash_opendir_inner, squash_closedir')], state=[('squash_global_fdtable', 'open virtual files by descriptor', 'src/fd.c')], observe=['squash_open', 'squash_close', 'squash_opendir'])
P('C05', 'Caches never change what is read, and failures never poison them',
  'Every read of image metadata or data returns the bytes of that image region no matter what was read before: cached blocks are returned only for the position they were read from, evicted blocks are released exactly once, and no block in use is released. A read that fails (bad compressed data, out of range, no memory) reports the error, leaves the cache usable, and is tried afresh the next time.',
  ['histories', 'fault_sequences', 'inputs'], 'all sequences of block reads at all positions, all cache fillings, decompression or allocation failing at any of them',
  'Tests read a few blocks once, all successfully, with caches bigger than the working set; eviction order and failure history never matter there.',
  ['src/cache.c', 'src/fs.c', 'src/decompress.c'], [('lookup and eviction', 'src/cache.c sqfs_cache_get, sqfs_cache_add'), ('block cache use', 'src/fs.c sqfs_md_cache, sqfs_data_cache, sqfs_frag_block, sqfs_block_read')], observe=['sqfs_md_read', 'sqfs_read_range'])
P('C06', 'File metadata is what the image says',
  'For every inode of every type in every valid image, the reported type, permissions, link count, modification time, size (regular files and links) and device number are those recorded in the image, in the basic and in the extended form alike. Owner and group resolve through the image\'s id table. An inode of unknown type is reported as an error rather than invented.',
  ['inputs'], 'all inode types in basic and extended form with all field values',
  'The test image holds a few small files, directories and links; extended forms, devices, sockets and big sizes do not occur.',
  ['src/fs.c', 'src/private.c', 'src/stat.c', 'src/nonstd-makedev.c'], [('inode decoding', 'src/fs.c sqfs_inode_get'), ('stat conversion', 'src/private.c sqfs_stat, src/stat.c')], observe=['squash_stat', 'squash_lstat', 'squash_fstat'])
P('C07', 'Directory listing: every entry once, in order, with working positions',
  'Listing a directory delivers exactly its entries, each once and in the order of the image, with the right name, inode number and type, and then the end, again on every further call. Telling, seeking and rewinding a stream make the next entry delivered the one at that position, however the stream was used before. An unreadable entry or a lack of memory ends the call with an error and never makes up, repeats or skips an entry.',
  ['inputs', 'histories', 'fault_sequences'], 'all directories (any number of headers and entries, any names up to 256 bytes), all sequences of read, tell, seek and rewind, failures at any point',
  'The tests list directories of a few short-named entries once; multi-header directories, maximal names, seeking into unread parts and failing allocations never occur.',
  ['src/dir.c', 'src/dirent.c'], [('entry decoding and position tracking', 'src/dir.c sqfs_dir_open, sqfs_dir_next, sqfs_dir_ff_offset'), ('stream buffering', 'src/dirent.c squash_readdir')], observe=['squash_readdir', 'sqfs_dir_next'])
P('C08', 'Name lookup finds an entry exactly when the directory has it',
  'Looking a name up in a directory succeeds exactly when the directory has an entry of that very name, and then yields that entry. This holds for directories with and without an index, whichever index entry the search starts from, for names that are prefixes of others and for names of any length. Looking up in something that is not a directory is an error.',
  ['inputs'], 'all directories with sorted entries, all indexes consistent with them, all names',
  'The tests look up a few names in tiny unindexed directories; indexed directories and prefix-related names need large images.',
  ['src/dir.c'], [('index search', 'src/dir.c sqfs_dir_ff_header, sqfs_dir_ff_name_f'), ('entry search', 'src/dir.c sqfs_dir_lookup')], observe=['sqfs_dir_lookup', 'squash_stat'])
P('C09', 'Path resolution: components, dots, links and loops',
  'A path resolves to what its components name one after another from the root, with repeated slashes and single dots ignored and dot-dot taking back the component before it; a path leading above the root is not found. Symbolic links on the way are always followed and the final one exactly when the operation follows links, absolute targets from the root and relative ones from the directory of the link. Chains or cycles of more than 32 links end with a loop error and missing targets with a not-found error.',
  ['inputs'], 'all paths, all trees of directories, files and links, link targets of any shape, both following modes',
  'The tests resolve about ten fixed paths in one small tree; combinations of dots, slashes, link chains, nesting and loops are unbounded.',
  ['src/dir.c', 'src/stat.c', 'src/fd.c'], [('path walk', 'src/dir.c sqfs_lookup_path_inner'), ('dot-dot removal', 'src/dir.c clear_dot_dot'), ('link following', 'src/dir.c squash_follow_link')], observe=['squash_stat', 'squash_open'])
P('C10', 'Reading a link delivers its whole target or says why not, never beyond the buffer',
  'Reading a symbolic link by path delivers exactly the target the image records (with a configured mount-point alias at its start replaced by the image root), terminated, and returns its length; a buffer that cannot hold target and terminator is refused with a name-too-long error. Reading the link\'s inode cuts the target to the buffer instead and terminates it. No byte outside the buffer is written, whatever its size, zero included. Something that is not a link, a missing path or an unreadable image region is an error.',
  ['inputs'], 'all targets, all buffer sizes including zero, all aliases, all read failures',
  'The tests read two short links into big buffers; buffer sizes around the target length and zero are not tried.',
  ['src/readlink.c', 'src/fs.c'], [('link reading', 'src/readlink.c squash_readlink_inode, src/fs.c sqfs_readlink')], observe=['squash_readlink', 'sqfs_readlink'])
P('C11', 'Scanning a directory returns every selected entry, sorted',
  'Scanning a directory returns as many entries as the caller\'s filter accepts, all of them and no others, each an independent copy in one array the caller owns, ordered by the caller\'s comparison. The filter sees every entry exactly once. If memory runs out at any point, everything allocated so far is released and the call fails.',
  ['inputs', 'fault_sequences'], 'all directories, all filters and orders, allocation failing at any point',
  'The tests scan one directory of a few entries; growth beyond the first allocation, empty results and failures are not reached.',
  ['src/scandir.c'], [('list growth and cleanup', 'src/scandir.c squash_scandir')], observe=['squash_scandir'])
P('C12', 'Extraction gives a faithful temporary copy, once per path',
  'Extracting a file yields the name of a temporary file with exactly the file\'s bytes, under a name not taken before; extracting the same path of the same image again yields the same name. Clearing removes every extracted file exactly once and makes the next extraction start anew. If reading, writing or closing fails at any point, no partial file, descriptor or name is left behind.',
  ['inputs', 'histories', 'fault_sequences'], 'all files and sizes, all sequences of extraction and clearing, read, write and allocation failures at any point',
  'The tests extract one small file once; failures half-way, files larger than the copy buffer and caching across images are not tried.',
  ['src/extract.c'], [('copy loop', 'src/extract.c squash_uncached_extract'), ('name cache', 'src/extract.c squash_extract, squash_extract_clear_cache'), ('name choice', 'src/extract.c squash_tmpf')], observe=['squash_extract'])
P('C13', 'Mounting accepts only what can be read, and releases what it took',
  'Opening an image succeeds exactly when magic, version, block size and compression are supported, and the tables needed can be read; otherwise it fails with the error that says which, touching nothing outside the image header to decide. After a failed open nothing is left allocated, and closing an image releases each of its resources exactly once, even when closed twice. Reported and supported versions are the true ones.',
  ['inputs', 'fault_sequences'], 'all superblock contents, failures at any step of mounting',
  'The tests mount one valid image; no invalid header, unsupported compression or half-way failure is tried.',
  ['src/fs.c', 'src/util.c', 'src/table.c', 'src/decompress.c'], [('validation and setup', 'src/fs.c sqfs_init'), ('teardown', 'src/fs.c sqfs_destroy')], observe=['sqfs_open_image', 'sqfs_destroy'])
P('C14', 'The hash map maps',
  'After any sequence of insertions of distinct keys, removals and lookups, looking a key up yields the value last inserted for it if it is still present, and nothing otherwise, across any growth. A failed insertion for lack of memory leaves the map as it was, and destroying it releases everything once.',
  ['histories', 'fault_sequences'], 'all sequences of operations, all keys and values, allocation failing at any point',
  'The hash tests insert a few keys; collision chains across growth and failing growth are not covered.',
  ['src/hash.c'], [('buckets and growth', 'src/hash.c sqfs_hash_add, sqfs_hash_get, sqfs_hash_remove')], observe=['sqfs_hash_get'])
P('C15', 'Traversal visits the whole tree in order with exact paths',
  'A traversal delivers every entry below its start exactly once in order, a directory before its content and its end after it, each with the path that leads to it from the start. Skipping a directory leaves out exactly its content. An error ends the traversal with every further step failing, and closing at any point releases everything once.',
  ['inputs', 'histories', 'fault_sequences'], 'all trees of any depth and names, skipping at any directory, failures at any step',
  'The tests traverse one shallow tree; long paths that make the buffer grow, skipping and failures are not tried.',
  ['src/traverse.c', 'src/stack.c'], [('step machine', 'src/traverse.c sqfs_traverse_next'), ('path buffer', 'src/traverse.c sqfs_traverse_path_add'), ('level stack', 'src/stack.c')], observe=['sqfs_traverse_next'])
P('C16', 'Intercepted calls on image paths go to the image, others to the system',
  'Each intercepted file operation acts on the image (or, where that has the name, on the writable overlay of the image\'s tree) exactly when its path starts with the mount prefix, or is relative while the virtual working directory is set, or its descriptor or stream is a virtual one; every other call goes to the operating system with its arguments unchanged. Results and error numbers are those of the operation performed, and positioned or vectored reads behave as their system counterparts do on a file of the same content. (Paths whose full form exceeds the path limit are outside this statement, except that they never write outside a buffer.)',
  ['inputs', 'histories'], 'all paths, descriptors, streams, flags and buffers, any mixture of virtual and real ones',
  'The tests call a few intercepted functions on a few paths; failing positioned reads, access modes and mixed descriptors are not tried.',
  ['sample/enclose_io_unix.c', 'sample/enclose_io_common.h'], [('dispatch', 'sample/enclose_io_unix.c enclose_io_*')], observe=['enclose_io_open', 'enclose_io_read', 'enclose_io_pread', 'enclose_io_access'])
P('C17', 'The virtual working directory resolves relative paths',
  'After changing into a directory of the image, relative paths name what they would name there and the working directory is reported as that path, if the caller\'s buffer can hold it, and refused with a range error otherwise; changing to a missing place changes nothing, and changing to a real directory ends the virtual one. No path, however long, writes outside its buffer.',
  ['inputs', 'histories'], 'all sequences of directory changes and lookups, all path lengths, all buffer sizes',
  'The tests change into two directories; long paths, small buffers and failed changes are not tried.',
  ['sample/enclose_io_unix.c', 'sample/enclose_io_common.h'], [('working directory', 'sample/enclose_io_unix.c enclose_io_chdir, enclose_io_chdir_helper, enclose_io_getcwd'), ('expansion', 'sample/enclose_io_common.h ENCLOSE_IO_GEN_EXPANDED_NAME')], state=[('enclose_io_cwd', 'virtual working directory', 'sample/enclose_io_unix.c')], observe=['enclose_io_getcwd', 'enclose_io_stat'])
P('C18', 'Id, fragment and inode-number tables resolve every index, and no other',
  'Resolving an owner id, a fragment number or an inode number yields the entry the image\'s table has at that index, for tables of any size spanning any number of metadata blocks. An index outside the table, or a table the image does not have, is an error and never reads outside it.',
  ['inputs'], 'all table sizes, entry sizes and indexes',
  'The test image\'s tables have a few entries in one block each; indexes across block ends or out of range do not occur.',
  ['src/table.c', 'src/fs.c'], [('table access', 'src/table.c sqfs_table_init, sqfs_table_get'), ('lookups', 'src/fs.c sqfs_id_get, sqfs_frag_entry, sqfs_export_inode')], observe=['sqfs_id_get', 'sqfs_export_inode'])
P('C19', 'Concurrent use of one mounted image is safe',
  'Threads that open, read, list and close files of one mounted image at the same time each see the results they would see alone, and the shared tables and caches stay consistent.',
  ['schedules'], 'all interleavings of all operations by any number of threads',
  'The tests are single-threaded.',
  ['src/fd.c', 'src/cache.c', 'src/mutex.c'], [('global mutex', 'src/mutex.c'), ('descriptor table lock', 'src/fd.c')], observe=['squash_open', 'squash_read'])

NA = {'C19': 'CBMC contracts are sequential: they have no ownership or permission logic for threads, so no contract within reach expresses freedom from races. The block caches and block index are shared and unlocked in the library itself (their callers must serialise use of one image), so the statement cannot be claimed; that the descriptor table is changed only with its mutex held and that every path releases it is an obligation of C04.'}
EXTRA_NOTE = {}


def main():
    open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(t) + '\n' for t in T))
    checks, na = [], []
    for t in T:
        i = t['id']
        if i in NA or i not in PROPS:
            na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
            continue
        p = PROPS[i]
        note = ('Every obligation generated from the current source is discharged by CBMC against the contracts in proofs/. '
                'Assumed: the contracts of libc, zlib/LZMA entry points, and that the image is well-formed as the preconditions in DESIGN.md say; stubs stand for callees, each verified against the same contract by its own unit. ')
        if p['note']:
            note += p['note']
        checks.append(dict(property=i, quick_cmd='python3 lsqv/check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 lsqv/check.py %s' % i,
                           technique=p.get('technique', 'contract-based deductive verification of the C source (CBMC function contracts by harness and stub, loop contracts); a failed obligation is replayed on the compiled library'),
                           level=p['level'], level_note=note))
    json.dump(dict(version=1, setup_cmd='python3 lsqv/setup.py', checks=checks, not_applicable=na,
                   notes='Nothing needs building beforehand; setup only checks that the tools are there.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
