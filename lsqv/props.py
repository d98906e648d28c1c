"""Which contracts each property rests on. A property's check discharges the contracts of
every function in its dependency cone, so that the conclusion does not rest on another check."""

BLOCK = ['block_read', 'decompress', 'block_cached', 'block_caches', 'cache_get', 'cache_add', 'cache_life']
META = BLOCK + ['md_read']
TABLE = ['table', 'lookup_tables', 'divceil']
INDEX = ['blockidx_blocklist', 'blockidx_add', 'blocklist']
FILE = ['read_range'] + INDEX
INODE = ['inode_get', 'stat']
DIR = ['dir_next', 'dir_ff']
LOOKUP = ['dir_lookup', 'dir_ff', 'dir_next']

PROPS = {}


def prop(pid, units, level='proof', note='', groups=()):
    PROPS[pid] = dict(units=list(dict.fromkeys(units)), level=level, note=note, groups=list(groups) or [pid])


prop('C01', FILE + INODE + META + TABLE)
prop('C02', ['blockidx_blocklist', 'blockidx_add', 'blocklist', 'read_range', 'md_read', 'cache_get', 'cache_add'])
prop('C03', ['fd_io', 'find_entry', 'fd_open', 'read_range'])
prop('C04', ['fd_open', 'fd_close', 'dir_life', 'find_entry'])
prop('C05', META + ['decompress'])
prop('C06', INODE + ['lookup_tables', 'divceil', 'md_read'])
prop('C07', DIR + ['readdir', 'dir_life', 'dir_offset', 'md_read'])
prop('C08', LOOKUP + ['md_read'])
prop('C09', ['lookup_path', 'lookup_outer', 'follow_link', 'dot_before', 'dot_clear', 'lemma:dotdot', 'dot_dot', 'dir_lookup', 'readlink', 'inode_get'],
     note='Dot-dot removal is proved step by step (any path), the steps tied together by lemmas in Lean about the paths; dot_dot is a bounded check of the whole function besides.')
prop('C10', ['readlink', 'readlink_alias', 'md_read', 'inode_get'])
prop('C11', ['scandir', 'readdir', 'dir_life', 'dir_next'], level='other',
     note='Bounded checks of the scan (directories of at most 5 entries, the first list capacity scaled down) and of the stream buffer; the entry decoder and stream life cycle are proved for all inputs.')
prop('C12', ['extract_file', 'extract_cache', 'tmpf', 'fd_io', 'fd_open', 'fd_close'])
prop('C13', ['mount', 'table', 'decompress', 'cache_life', 'block_caches', 'divceil'])
prop('C14', ['hash_chain', 'hash_grow', 'hash'], note='Every operation is proved on any chain in any number of buckets; that these steps compose (an operation seen through sqfs_hash_get afterwards) is also checked on whole small maps, as a bounded extra.')
prop('C15', ['traverse', 'stack', 'dir_next', 'inode_get'])
prop('C18', TABLE + ['md_read', 'block_read'])

prop('C16', ['io_path', 'io_open', 'io_openat', 'io_vfd', 'io_readv', 'io_mkdir', 'io_workdir', 'io_consult', 'io_exec'],
     note='Mirroring of image directories in the overlay and running a program of the image are bounded checks of the real functions (bounds in the evidence); every other intercepted function is proved for all paths, descriptors and buffers.')
prop('C17', ['io_cwd', 'io_chdir', 'io_path', 'io_openat'])
