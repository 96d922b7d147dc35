"""What each check runs: property -> title, level note, and the runs of each tier.

A run is (entry, parameters, labels that must be reached, symx options)."""

def R(entry, covers=(), opts=(), **params):
    return (entry, params, tuple(covers), tuple(opts))

CHECKS = {
    'C01': dict(
        quick=[R('c01_escape', ['backslash first', 'non-ascii', 'full length'], len=4),
               R('c01_long', ['long'], most=5000, fillers=4)],
        thorough=[R('c01_escape', ['backslash first', 'non-ascii', 'full length'], len=6),
                  R('c01_long', ['long'], most=5000, fillers=4)],
        bounds='one name of 1..len bytes, every byte value, as directory path, file name (link row) and link target; names of 29 lengths from 15 to 4096 made of one of 4 fillers with one arbitrary byte at the start, middle or end',
        outside='other long names; names of several entries at once (C02); the file row writes its name with the same code (C02)',
    ),
    'C02': dict(
        quick=[R('c02_session', ['complete', 'full session'], sizes=4, ops=1, name=2, footer=1), R('c02_session', ['complete', 'full session'], sizes=1, ops=2, name=1, footer=1), R('c02_session', ['complete', 'full session'], sizes=1, ops=2, name=3, footer=0), R('c02_session', ['complete', 'full session'], sizes=2, ops=3, name=1, footer=0), R('c02_size', ['size'], digits=3),
               R('c02_many', ['long row', 'long session'], most=300)],
        thorough=[R('c02_session', ['complete', 'full session'], sizes=4, ops=2, name=1, footer=1), R('c02_session', ['complete', 'full session'], sizes=4, ops=3, name=1, footer=0), R('c02_session', ['complete', 'full session'], sizes=1, ops=3, name=2, footer=0), R('c02_session', ['complete', 'full session'], sizes=1, ops=2, name=4, footer=0), R('c02_size', ['size'], digits=4),
                  R('c02_many', ['long row', 'long session'], most=1100)],
        bounds='every hash type; up to ops emitter calls (dir, link, empty file, file of 1..2 bytes) with names and targets of 1..name arbitrary bytes and arbitrary data; the text compared whole, then read back (with footer=0 after the footer has been compared); the first `sizes` of the block sizes 1, 2, 32768, 2^64-1; sizes of up to `digits` decimal digits and boundary values up to 2^64-1; sessions of up to 300 (thorough: 1025) entries, and files of as many blocks, with one arbitrary name or content byte anywhere',
        outside='other longer sessions, names longer than in C01',
    ),
    'C03': dict(
        quick=[R('c03_bytes', ['header refused', 'end', 'merged end', 'op entry'], len=4, ops=2, targets=3), R('c03_bytes', ['end', 'merged end'], len=2, ops=3, targets=6), R('c03_numbers', ['entry', 'error', 'header refused', 'end'], digits=2), R('c03_window', ['end', 'merged end'], w=1, hexstep=1, ops=0, targets=0), R('c03_window', ['end', 'merged end'], w=2, hexstep=8, ops=0, targets=0), R('c03_window', ['end', 'merged end', 'op entry'], w=2, hexstep=16, ops=1, targets=2)],
        thorough=[R('c03_bytes', ['header refused', 'end', 'merged end', 'op entry'], len=6, ops=2, targets=3), R('c03_bytes', ['end', 'merged end'], len=4, ops=3, targets=6), R('c03_numbers', ['entry', 'error', 'header refused', 'end'], digits=4), R('c03_window', ['end', 'merged end', 'op entry'], w=3, hexstep=16, ops=1, targets=2)],
        bounds='0..len arbitrary bytes at 7 places of an index with 3 continuations; ops operations (next, or advance to one of `targets` targets) and then reading to the end, alone and merged with a second index in either position; the 4 template indices of C04 with 0..w arbitrary bytes in place of 0..w bytes anywhere, read by next, advance and merge; numbers: `digits` symbolic last digits after 7 prefixes near the limits, as size or block size, with 10 boundary values for the other and 0..2 hashes; an allocation request above 1 MiB counts as out of proportion',
        outside='more arbitrary bytes at once, more operations before reading on',
    ),
    'C04': dict(
        quick=[R('c04_window', ['accepted', 'refused'], template=t, w=3, hexstep=16) for t in range(4)] + [
               R('c04_many', ['accepted', 'refused'], most=129), R('c04_numbers', ['accepted', 'refused'], digits=3), R('c04_long', ['accepted', 'refused'], most=8192)],
        thorough=[R('c04_window', ['accepted', 'refused'], template=t, w=4, hexstep=8) for t in range(4)] + [
                  R('c04_many', ['accepted', 'refused'], most=520), R('c04_numbers', ['accepted', 'refused'], digits=4), R('c04_long', ['accepted', 'refused'], ['--max-steps=400000000'], most=65537)],
        bounds='4 template indices (all row kinds, 0..2 hashes, escapes) in which 0..w bytes at every place are replaced by 0..w arbitrary bytes; inside runs of 64 hash digits every hexstep-th place and the ends; rows of up to 129 (520) hashes, one too few or too many, with an arbitrary byte at an edge of one; sizes of 9 prefixes and up to `digits` arbitrary digits against 8 block sizes and 0..3 hashes; fields of 250..8192 (65537) bytes, plain, escaped or of many components, with one arbitrary byte',
        outside='changes at two distant places, other templates',
    ),
    'C05': dict(
        quick=[R('c05_advance', ['hit', 'miss', 'next', 'rest', 'end'], entries=5, ops=2), R('c05_advance', ['hit', 'miss', 'next', 'rest', 'end'], entries=4, ops=3),
               R('c05_names', ['hit', 'miss', 'end'], entries=2, name=2, deep=2, wide=1), R('c05_names', ['hit', 'miss', 'end'], entries=3, name=2, deep=2, wide=0), R('c05_many', ['hit', 'miss', 'end'], most=33)],
        thorough=[R('c05_advance', ['hit', 'miss', 'next', 'rest', 'end'], entries=5, ops=3), R('c05_advance', ['hit', 'miss', 'next', 'rest', 'end'], entries=3, ops=5),
                  R('c05_names', ['hit', 'miss', 'end'], entries=3, name=2, deep=3, wide=1), R('c05_names', ['hit', 'miss', 'end'], entries=4, name=2, deep=2, wide=0), R('c05_many', ['hit', 'miss', 'end'], most=300)],
        bounds='every sorted list of up to `entries` directories and links (1..2 components of one symbolic byte), ops operations next/advance with a symbolic target (kind and 0..2 components), then reading to the end; lists with names of up to `name` bytes and `deep` components (wide=1: any byte, so that names need escapes); lists of up to 33 (300) entries with two free targets anywhere',
        outside='longer names',
    ),
    'C06': dict(
        quick=[R('c06_pair', ['less', 'equal', 'greater'], len=6), R('c06_triple', ['chain'], len=3), R('c06_forms', ['less', 'equal', 'greater'], len=4),
               R('c06_long', ['less', 'equal', 'greater'], most=300, len=2)],
        thorough=[R('c06_pair', ['less', 'equal', 'greater'], len=8), R('c06_triple', ['chain'], len=5), R('c06_forms', ['less', 'equal', 'greater'], len=6),
                  R('c06_long', ['less', 'equal', 'greater'], most=300, len=4)],
        bounds='pairs (of borrowed, copied and entries\' kinds) and triples of kinds (dir or file) with absolute paths of up to `len` arbitrary bytes after the first slash (valid paths: no empty, "." or ".." components); pairs with a common beginning of up to 300 bytes or components and up to `len` arbitrary bytes after it',
        outside='longer paths',
    ),
    'C25': dict(
        quick=[R('c25_stay', ['full tree', 'recorded', 'refused', 'special file', 'type not listed', 'unchanged'], nodes=1, name=1, wide=1, kinds=4, untyped=1, len=1, bs=2, modes=0, target=3, hash=0, shorts=0, swaps=2, lures=0, polls=1, spawn=1, progress=1, attrs=0),
               R('c25_stay', ['full tree', 'recorded', 'refused', 'special file', 'type not listed', 'unchanged'], nodes=2, name=1, wide=0, kinds=4, untyped=1, len=1, bs=1, modes=0, target=1, hash=0, shorts=0, swaps=1, lures=1, polls=0, spawn=0, progress=0, attrs=0),
               R('c25_stay', ['full tree', 'recorded', 'refused', 'unchanged'], nodes=3, name=1, wide=0, kinds=3, untyped=0, len=1, bs=1, modes=0, target=1, hash=0, shorts=0, swaps=1, lures=0, polls=0, spawn=0, progress=0, attrs=0)],
        thorough=[R('c25_stay', ['full tree', 'recorded', 'refused', 'special file', 'type not listed', 'unchanged'], nodes=2, name=1, wide=1, kinds=4, untyped=1, len=2, bs=2, modes=1, target=3, hash=0, shorts=0, swaps=2, lures=0, polls=1, spawn=1, progress=1, attrs=0),
                  R('c25_stay', ['full tree', 'recorded', 'refused', 'special file', 'type not listed', 'unchanged'], nodes=2, name=2, wide=0, kinds=4, untyped=1, len=1, bs=1, modes=0, target=1, hash=0, shorts=0, swaps=2, lures=1, polls=1, spawn=1, progress=1, attrs=0),
                  R('c25_stay', ['full tree', 'recorded', 'refused', 'unchanged'], nodes=4, name=1, wide=0, kinds=3, untyped=0, len=1, bs=1, modes=0, target=1, hash=0, shorts=0, swaps=2, lures=0, polls=0, spawn=0, progress=0, attrs=0)],
        bounds='every tree of up to `nodes` entries (names, contents, link targets of arbitrary bytes; with lures=1 links to 10 places in and out of the tree), types listed or not, next to files, directories and a special file outside; up to `swaps` entries replaced, at any lookup of theirs, by a link to one of 6 places; single-threaded or two threads, tasks run at once or when waited for, progress or not: no call of the scan names a node outside, opens a special file or opens anything for writing, and the index is that of the tree before or after the replacement, or the scan fails',
        outside='entries replaced by other things than links (C10, C15 have changed and vanished files), larger trees, mount points',
    ),
    'C24': dict(
        quick=[R('c24_reader', ['read', 'merged'], ['--max-steps=400000000'], rows=3000), R('c24_hash', ['done', 'hash'], ['--max-steps=400000000'], len=500000),
               R('c24_scan', ['scanned', 'threads'], ['--max-steps=400000000'], dirs=50, links=3), R('c24_queue', ['queue full', 'scanned'], big=0), R('c24_queue', ['queue full', 'scanned'], big=1)],
        thorough=[R('c24_reader', ['read', 'merged'], ['--max-steps=400000000'], rows=20000), R('c24_hash', ['done', 'hash'], ['--max-steps=400000000'], len=3000000),
                  R('c24_scan', ['scanned', 'threads'], ['--max-steps=400000000'], dirs=200, links=6), R('c24_queue', ['queue full', 'scanned'], big=0), R('c24_queue', ['queue full', 'scanned'], big=1)],
        bounds='indices of 3000 (20000) rows (directories, links, files of two hashes, or all) with one arbitrary byte, read to the end by next, one advance or 26, alone or two merged: at most 16 KiB and 8 lines at once for each index; files of 500000 (3000000) bytes with one arbitrary byte and block sizes 1024, 4096, 32768, every hash type: at most 128 KiB, two blocks and 96 bytes for each hash returned; get_hash of indices of that length: 128 KiB; scans of a chain or a row of 50 (200) directories with 3 (6) links to 200 bytes, one of them arbitrary, and a file each, single-threaded or with two threads, tasks slow in 4 ways, 3 queue sizes: at most 16 KiB, 10 bytes for each level of a chain or 400 for each pending directory and 600 for each entry listed or queued, at most 8 descriptors and one for each entry queued, none left; 2 or 3 threads, 7 queue sizes, 1..100 links and files behind a slow file, and 16 to 100 threads, queue sizes 255 to 1600, 256 to 300 entries',
        outside='other sizes; memory inside the hash functions and the thread pool (stand-ins); stacks',
    ),
    'C19': dict(
        quick=[R('c19_emit', ['round trip'], digits=3), R('c19_parse', ['accepted', 'refused'], w=5), R('c19_names', ['accepted', 'refused'], w=3),
               R('c19_large', ['round trip'])],
        thorough=[R('c19_emit', ['round trip'], digits=5), R('c19_parse', ['accepted', 'refused'], w=6), R('c19_names', ['accepted', 'refused'], w=5),
                  R('c19_large', ['round trip'])],
        bounds='every hash type; block sizes of up to `digits` decimal digits; headers in which 0..w bytes at every place are replaced by 1..w printable bytes; names of hash types in which 0..3 (0..5) bytes are replaced by up to as many ASCII bytes; block sizes 2^k + d (k = 0..63, d = -1, 0, 1) with an arbitrary low byte, written by the emitter and by single-threaded and threaded scans',
        outside='white space and control bytes inside the window (no crash: C03)',
    ),
    'C20': dict(
        quick=[R('c20_lines', ['entry', 'error'], lines=6, ops=5, targets=5),
               R('c20_long', ['error'], most=1100), R('c20_far', ['error'], ['--max-steps=400000000'], counts=4)],
        thorough=[R('c20_lines', ['entry', 'error'], lines=8, ops=6, targets=5),
                  R('c20_long', ['error'], most=1100), R('c20_far', ['error'], ['--max-steps=400000000'], counts=5)],
        bounds='up to `lines` well-formed lines with one bad line (5 kinds, one with a symbolic byte) at every place; every sequence of `ops` next/advance calls (5 targets) up to the first error and three calls after it; a bad line after up to 1025 good ones, or at lines 65534..65537, reached by next or by one advance',
        outside='several bad lines in one index',
    ),
    'C07': dict(
        quick=[R('c07_merge', ['shared kind', 'single', 'end'], indices=3, entries=2), R('c07_merge', ['shared kind', 'end'], indices=2, entries=3), R('c07_merge', ['shared kind', 'end'], indices=5, entries=1), R('c07_bad', ['error', 'end'], indices=2, entries=2),
               R('c07_many', ['shared kind', 'single', 'end'], most=33), R('c07_many', ['shared kind', 'single', 'end'], few=1, most=260), R('c08_names', ['shared kind', 'end'], indices=2, entries=1, name=2, deep=1, wide=1), R('c09_files', ['merged', 'shared kind', 'unreadable', 'end'], indices=3, entries=1, hashes=1, sizes=1, faults=0, ints=1, shorts=1)],
        thorough=[R('c07_merge', ['shared kind', 'single', 'end'], indices=3, entries=3), R('c07_merge', ['shared kind', 'end'], indices=2, entries=4), R('c07_bad', ['error', 'end'], indices=3, entries=2), R('c07_bad', ['error', 'end'], indices=2, entries=3),
                  R('c07_many', ['shared kind', 'single', 'end'], most=260), R('c08_names', ['shared kind', 'end'], indices=2, entries=2, name=2, deep=2, wide=0)],
        bounds='up to `indices` indices of up to `entries` entries (directories and links, one symbolic byte per name, sorted), read to the end in every alignment of their kinds; with one malformed line at any place of one index; 3..33 (260) indices of one or two entries, one of them arbitrary (with few=1: 63..257 indices, the last one arbitrary); two indices with names of up to `name` arbitrary bytes; index files opened by FileMergeBuilder, with short and interrupted reads',
        outside='longer lists, several bad indices; file rows (same code: the merge compares kinds only)',
    ),
    'C08': dict(
        quick=[R('c08_advance', ['hit', 'hit all', 'miss', 'end'], indices=2, entries=2, ops=2), R('c08_advance', ['hit', 'miss', 'end'], indices=3, entries=1, ops=2), R('c08_advance', ['hit', 'miss', 'end'], indices=4, entries=1, ops=1),
               R('c08_many', ['hit', 'hit all', 'miss', 'end'], most=17), R('c08_many', ['hit', 'hit all', 'miss', 'end'], few=1, most=260), R('c08_names', ['hit', 'miss', 'end'], indices=2, entries=1, name=2, deep=1, wide=1), R('c08_names', ['hit', 'miss', 'end'], indices=2, entries=1, name=2, deep=2, wide=0)],
        thorough=[R('c08_advance', ['hit', 'hit all', 'miss', 'end'], indices=2, entries=2, ops=3), R('c08_advance', ['hit', 'miss', 'end'], indices=4, entries=1, ops=2), R('c08_advance', ['hit', 'miss', 'end'], indices=2, entries=3, ops=2), R('c08_advance', ['hit', 'hit all', 'miss', 'end'], indices=3, entries=2, ops=2),
                  R('c08_many', ['hit', 'hit all', 'miss', 'end'], most=65), R('c08_names', ['hit', 'miss', 'end'], indices=2, entries=2, name=1, deep=2, wide=1), R('c08_names', ['hit', 'miss', 'end'], indices=2, entries=2, name=2, deep=2, wide=0)],
        bounds='`indices` indices of up to `entries` entries (directories and links, one symbolic byte per name), `ops` operations next/advance with a symbolic target, then reading to the end; compared with the same operations on sorted lists; 3..17 (65) indices of one or two entries, one of them arbitrary (with few=1: 31..257 indices, the last one arbitrary), and an arbitrary target; two indices with names of up to `name` arbitrary bytes',
        outside='longer lists, more operations',
    ),
    'C09': dict(
        quick=[R('c09_same', ['merged', 'hash types', 'block sizes'], indices=3, digits=2, high=2), R('c09_same', ['merged', 'hash types', 'block sizes'], indices=2, digits=3, high=2), R('c09_same', ['merged', 'hash types', 'block sizes'], indices=2, digits=1, high=10), R('c09_same', ['merged', 'hash types', 'block sizes'], indices=5, digits=1, high=2),
               R('c09_many', ['merged', 'hash types', 'block sizes'], most=300), R('c09_files', ['merged', 'hash types', 'block sizes', 'unreadable'], indices=2, entries=1, hashes=3, sizes=2, faults=0, ints=0, shorts=0), R('c09_files', ['merged', 'hash types', 'block sizes', 'unreadable'], indices=3, entries=0, hashes=2, sizes=2, faults=0, ints=0, shorts=0)],
        thorough=[R('c09_same', ['merged', 'hash types', 'block sizes'], indices=3, digits=3, high=2), R('c09_same', ['merged', 'hash types', 'block sizes'], indices=3, digits=1, high=10), R('c09_same', ['merged', 'hash types', 'block sizes'], indices=4, digits=2, high=2),
                  R('c09_many', ['merged', 'hash types', 'block sizes'], most=1100), R('c09_files', ['merged', 'hash types', 'block sizes', 'unreadable'], indices=3, entries=1, hashes=3, sizes=2, faults=0, ints=0, shorts=0)],
        bounds='up to `indices` indices with every hash type and block sizes of up to `digits` symbolic decimal digits, or one symbolic digit after high digits around 10^19 (high=2), 2^8, 2^16, 2^24, 2^31, 2^32, 2^53, 2^63, 2^64 (high=10); up to 300 (1025) indices one of which has any hash type and any two-digit block size; up to `indices` index files opened by FileMergeBuilder, one of which may be missing',
        outside='other block sizes',
    ),
    'C10': dict(
        quick=[R('c10_hash_file', ['empty', 'several blocks', 'whole blocks', 'short read'], len=8, bs=5, shorts=2), R('c10_large', ['several blocks', 'one block'], shorts=0), R('c10_scan', ['grown', 'shrunk', 'unchanged'], len=5, bs=4, hash=0, shorts=1), R('c10_scan', ['grown', 'shrunk', 'unchanged'], len=3, bs=2, hash=3, shorts=0),
               R('c10_scan_large', ['single', 'threaded'], lens=7, shorts=0), R('c10_scan_huge', ['recorded', 'refused']), R('c10_hash_file', ['several blocks', 'short read'], len=8, bs=5, shorts=2, anycut=1)],
        thorough=[R('c10_hash_file', ['empty', 'several blocks', 'whole blocks', 'short read'], len=16, bs=9, shorts=4), R('c10_large', ['several blocks', 'one block', 'short read'], shorts=2), R('c10_scan', ['grown', 'shrunk', 'unchanged'], len=8, bs=4, hash=3, shorts=2),
                  R('c10_scan_large', ['single', 'threaded'], lens=7, shorts=1), R('c10_scan_huge', ['recorded', 'refused']), R('c10_hash_file', ['several blocks', 'short read'], len=12, bs=7, shorts=3, anycut=1)],
        bounds='every hash type; files of 0..len arbitrary bytes, block sizes 1..bs, 32768 and 2^64-1, up to `shorts` short reads; files of 8191..20000 bytes with one arbitrary byte at or near a multiple of 4096/8192 and block sizes around 8192; scans, single-threaded and threaded, of a file whose length goes from any of 0..len to any of 0..len between the examination and the reading, followed by another file; scans, single-threaded and threaded, of a file of 8192..65537 bytes (7 lengths) with one arbitrary byte near a copy step, and of a file that claims to have 2^31..2^63-1 bytes; with anycut=1 short reads of any length',
        outside='other content in large files; block hashes are compared under an injective stand-in for the hash functions',
    ),
    'C11': dict(
        quick=[R('c11_check', ['passes', 'fails', 'changed byte', 'short read'], len=5, bs=4, shorts=2, ints=0, errs=0), R('c11_check', ['passes', 'fails', 'unreadable'], len=4, bs=3, shorts=1, ints=1, errs=1),
               R('c11_large', ['passes', 'fails'], shorts=1), R('c11_many', ['passes', 'fails'], most=300), R('c11_check', ['passes', 'fails', 'short read'], len=5, bs=4, shorts=2, anycut=1, ints=0, errs=0)],
        thorough=[R('c11_check', ['passes', 'fails', 'changed byte', 'short read'], len=10, bs=6, shorts=3, ints=0, errs=0), R('c11_check', ['passes', 'fails', 'unreadable'], len=6, bs=4, shorts=1, ints=1, errs=1),
                  R('c11_large', ['passes', 'fails'], shorts=2), R('c11_many', ['passes', 'fails'], most=1100), R('c11_check', ['passes', 'fails', 'short read'], len=8, bs=5, shorts=3, anycut=1, ints=0, errs=0)],
        bounds='every hash type; recorded file and checked stream of 0..len arbitrary bytes each, block sizes 1..bs, 32768 and 2^64-1, up to `shorts` short reads; content of 8191..20000 bytes with one arbitrary byte near a copy step, or cut, or extended; up to 300 (1025) blocks with one arbitrary byte, one byte missing or one more; with anycut=1 short reads of any length',
        outside='other long streams; hash collisions (the stand-in has none at these lengths)',
    ),
    'C12': dict(
        quick=[R('c12_hash', ['checked', 'check error', 'hashed', 'hash error', 'interrupted', 'read error', 'short read'], len=5, bs=3, shorts=2, ints=2), R('c12_parse', ['parsed', 'parse error', 'header error', 'short read', 'interrupted'], shorts=1, ints=1), R('c12_get_hash', ['hash', 'hash error', 'bad footer', 'short read', 'interrupted'], shorts=2, ints=2),
               R('c12_hash', ['checked', 'hashed', 'short read'], len=5, bs=3, shorts=2, ints=1, anycut=1), R('c12_parse', ['parsed', 'parse error', 'header error', 'short read'], shorts=1, ints=0, anycut=1, capacities=4), R('c12_get_hash', ['hash', 'hash error', 'bad footer', 'short read'], shorts=1, ints=1, anycut=1), R('c09_files', ['merged', 'read error', 'unreadable'], indices=2, entries=2, hashes=1, sizes=1, faults=1, ints=0, shorts=0)],
        thorough=[R('c12_hash', ['checked', 'check error', 'hashed', 'hash error', 'interrupted', 'read error', 'short read'], len=8, bs=5, shorts=4, ints=2), R('c12_parse', ['parsed', 'parse error', 'header error', 'short read', 'interrupted'], shorts=2, ints=2), R('c12_get_hash', ['hash', 'hash error', 'bad footer', 'short read', 'interrupted'], shorts=4, ints=4),
                  R('c12_hash', ['checked', 'hashed', 'short read'], len=8, bs=4, shorts=3, ints=1, anycut=1), R('c12_parse', ['parsed', 'parse error', 'header error', 'short read'], shorts=1, ints=1, anycut=1, capacities=4), R('c12_get_hash', ['hash', 'hash error', 'bad footer', 'short read'], shorts=2, ints=1, anycut=1), R('c09_files', ['merged', 'read error', 'unreadable'], indices=2, entries=2, hashes=1, sizes=1, faults=1, ints=0, shorts=1)],
        bounds='up to `shorts` short reads (one byte, or all but one) and `ints` interruptions and one hard error (any error number, or UnexpectedEof) at every read; hashing and checking 0..len arbitrary bytes; parsing three indices with one arbitrary name byte through three kinds of buffering; get_hash on a small index with an arbitrary footer byte, also cut or extended by one byte; with anycut=1 short reads of any length, and readers of capacity 1, 2, 7 and 64; one or two index files opened by FileMergeBuilder, one of which may fail to be opened or at any read',
        outside='reads cut at more places at once; longer files',
    ),
    'C18': dict(
        quick=[R('c18_long', ['accepted']), R('c18_window', ['accepted', 'refused'], w=2, hexstep=8), R('c18_cut', ['accepted', 'refused'])],
        thorough=[R('c18_long', ['accepted']), R('c18_window', ['accepted', 'refused'], w=4, hexstep=2), R('c18_cut', ['accepted', 'refused'])],
        bounds='a file of any length from 200 to 2^63-1 (symbolic length, nothing laid out between head and tail); short files for every hash type in which 0..w bytes at any place are replaced by 0..w arbitrary bytes; a complete file cut to every length from either end',
        outside='arbitrary bytes at two distant places at once',
    ),
    'C13': dict(
        quick=[R('c13_scan', ['full tree', 'special file', 'type not listed', 'hard link'], nodes=3, name=1, wide=0, kinds=4, untyped=1, len=1, bs=1, modes=1, target=1, hash=0, shorts=0, attrs=1),
               R('c13_scan', ['full tree'], nodes=3, name=2, wide=0, kinds=3, untyped=0, len=1, bs=1, modes=0, target=1, hash=0, shorts=0),
               R('c13_scan', ['full tree'], nodes=5, name=1, wide=0, kinds=1, untyped=1, len=0, bs=1, modes=0, target=1, hash=0, shorts=0),
               R('c13_scan', ['full tree'], nodes=1, name=4, wide=1, kinds=3, untyped=0, len=0, bs=1, modes=1, target=4, hash=0, shorts=0),
               R('c13_scan', ['full tree'], nodes=2, name=1, wide=1, kinds=3, untyped=0, len=0, bs=1, modes=0, target=1, hash=0, shorts=0),
               R('c13_scan', ['full tree'], nodes=2, name=1, wide=0, kinds=2, untyped=0, len=3, bs=3, modes=0, target=1, hash=3, shorts=1),
               R('c13_scan', ['full tree'], nodes=1, name=1, wide=0, kinds=2, untyped=1, len=6, bs=4, modes=1, target=1, hash=3, shorts=2, attrs=1),
               R('c13_shape', ['deep', 'wide'], most=129, threaded=0), R('c13_config', ['scanned', 'again'], len=1), R('c13_roots', ['two roots', 'in common'], entries=2, deep=1, inside=1)],
        thorough=[R('c13_scan', ['full tree', 'special file', 'type not listed'], nodes=4, name=1, wide=0, kinds=3, untyped=1, len=1, bs=1, modes=0, target=1, hash=0, shorts=0, attrs=1),
                  R('c13_scan', ['full tree'], nodes=4, name=2, wide=0, kinds=2, untyped=0, len=0, bs=1, modes=0, target=1, hash=0, shorts=0),
                  R('c13_scan', ['full tree'], nodes=6, name=1, wide=0, kinds=1, untyped=0, len=0, bs=1, modes=0, target=1, hash=0, shorts=0),
                  R('c13_scan', ['full tree'], nodes=2, name=2, wide=1, kinds=4, untyped=0, len=1, bs=2, modes=1, target=2, hash=0, shorts=0),
                  R('c13_scan', ['full tree'], nodes=1, name=6, wide=1, kinds=3, untyped=0, len=0, bs=1, modes=0, target=5, hash=0, shorts=0),
                  R('c13_scan', ['full tree'], nodes=2, name=1, wide=0, kinds=2, untyped=1, len=5, bs=4, modes=1, target=1, hash=3, shorts=2),
                  R('c13_shape', ['deep', 'wide'], most=300, threaded=0), R('c13_config', ['scanned', 'again'], len=2), R('c13_roots', ['two roots', 'in common'], entries=2, deep=1, inside=2)],
        bounds='a configuration set up in several orders or left at its defaults, used once or twice; trees of up to `nodes` entries below the root in every shape and listing order, names of 1..name symbolic bytes (wide=1: every byte but / and NUL, otherwise printable without / and backslash), of the first `kinds` of directory, regular file, link, special file (4 types); entry type listed or not (untyped=1); file content of 0..len arbitrary bytes, the first `bs` of the block sizes 1, 2, 3, 32768; with modes=1 every value of the 12 permission bits; link targets of 1..target bytes; up to `shorts` short reads; with attrs=1 arbitrary device, link count, owner, group, block count, block size, times, size (of what is not a file) and permission bits (of directories and links too), and several names of one file; chains of up to 129 (300) directories and directories of as many entries, with one arbitrary name byte; two scanned directories of up to 2 entries each, one of them with one entry inside, both placed at the root',
        outside='other larger trees; files of the same name in two roots; other prefixes (finding K3); the file system is a model of the system calls used (openat, fdopendir, readdir, fstatat, statx, read, readlinkat)',
        assume=['the file system does not change during the scan and follows the model in harness/src/posix.rs'],
    ),
    'C14': dict(
        quick=[R('c14_threads', ['scanned', 'not ready', 'out of order', 'full tree'], nodes=2, name=1, wide=0, kinds=3, len=2, bs=2, modes=0, target=1, hash=3, faults=0, polls=2, order=1, spawn=1, attrs=1),
               R('c14_threads', ['scanned', 'not ready', 'out of order', 'full tree'], nodes=3, name=1, wide=0, kinds=3, len=1, bs=1, modes=0, target=1, hash=0, faults=0, polls=2, order=1, spawn=0, attrs=1),
               R('c14_threads', ['scanned', 'task failed', 'full tree'], nodes=2, name=1, wide=0, kinds=3, len=1, bs=1, modes=1, target=1, hash=0, faults=1, polls=1, order=1, spawn=1, attrs=1),
               R('c14_queue', ['scanned', 'queue full'], files=38, slow=4),
               R('c13_shape', ['deep', 'wide'], most=65, threaded=1), R('c14_auto', ['scanned'], len=1, polls=1), R('c14_counts', ['scanned', 'not ready'], len=1, more=3, polls=1, spawn=0), R('c14_counts', ['scanned'], len=2, more=20, polls=0, spawn=0), R('c10_scan_huge', ['recorded', 'refused'])],
        thorough=[R('c14_threads', ['scanned', 'not ready', 'out of order', 'full tree'], nodes=2, name=1, wide=0, kinds=3, len=3, bs=2, modes=1, target=1, hash=3, faults=0, polls=3, order=1, spawn=1),
                  R('c14_threads', ['scanned', 'not ready', 'out of order', 'full tree'], nodes=4, name=1, wide=0, kinds=3, len=1, bs=1, modes=0, target=1, hash=0, faults=0, polls=4, order=1, spawn=0),
                  R('c14_threads', ['scanned', 'task failed', 'full tree'], nodes=3, name=1, wide=0, kinds=3, len=1, bs=1, modes=0, target=1, hash=0, faults=2, polls=2, order=1, spawn=1),
                  R('c14_queue', ['scanned', 'queue full'], files=70, slow=70),
                  R('c13_shape', ['deep', 'wide'], most=129, threaded=1), R('c14_auto', ['scanned'], len=1, polls=1), R('c14_counts', ['scanned', 'not ready'], len=1, more=18, polls=1, spawn=0), R('c10_scan_huge', ['recorded', 'refused'])],
        bounds='trees as in C13 (up to `nodes` entries); 2 or 7 threads; each task may run when spawned (spawn=1), or when first polled, or be found unfinished up to `polls` times in all (or until it is waited for), in any interleaving with the scan, and with order=1 later tasks run before earlier ones; up to `faults` failing calls; and `files` entries in one directory with any of the first `slow` tasks unfinished for 1..1000 polls, so that the queue fills up; chains of up to 65 (129) directories and directories of as many entries; files that claim to have up to 2^63-1 bytes; 26 numbers of threads from 0 to 1000 and 5 queue sizes; auto_threads with 1 to 64 processors',
        outside='data races inside futures-cpupool and futures (the pool is a model that runs each task to its end at a point the solver picks); larger trees',
        assume=['tasks of the pool run atomically: the writer shares nothing with them but the finished result', 'the file system follows the model in harness/src/posix.rs'],
    ),
    'C15': dict(
        quick=[R('c15_faults', ['failed', 'failed in threaded scan', 'no fault', 'recovered'], nodes=0, len=3, hash=0, bs=2, untyped=1, faults=1, ints=1, shorts=1, errnos=99, polls=1),
               R('c15_faults', ['failed', 'failed in threaded scan', 'no fault', 'full tree'], nodes=2, name=1, wide=0, kinds=4, modes=0, target=1, len=1, hash=0, bs=1, untyped=1, faults=2, ints=1, shorts=1, errnos=99, polls=1, attrs=1)],
        thorough=[R('c15_faults', ['failed', 'failed in threaded scan', 'no fault', 'recovered'], nodes=0, len=5, hash=3, bs=3, untyped=1, faults=2, ints=2, shorts=2, errnos=99, polls=2),
                  R('c15_faults', ['failed', 'failed in threaded scan', 'no fault', 'full tree'], nodes=3, name=1, wide=0, kinds=4, modes=0, target=1, len=1, hash=0, bs=1, untyped=1, faults=2, ints=1, shorts=1, errnos=99, polls=1)],
        bounds='a tree of five entries of every kind, and every tree of up to `nodes` entries; up to `faults` failures at any of the open, list, read-entry, examine, read and read-link calls, with any error number but EINTR, up to `ints` interrupted reads and `shorts` short reads; single-threaded and threaded with up to `polls` late tasks',
        outside='files that shrink or grow while being read (C10)',
        assume=['an interrupted read may be retried; everything else that fails is a failure of the scan', 'the file system follows the model in harness/src/posix.rs'],
    ),
    'C16': dict(
        quick=[R('c16_scan', ['written', 'failed', 'short write', 'write error', 'write refused'], hash=3, bs=1, len=2, shorts=1, ints=0, errs=1, polls=0),
               R('c16_scan', ['written', 'failed', 'write interrupted'], hash=0, bs=2, len=3, shorts=0, ints=1, errs=1, polls=1),
               R('c16_scan', ['written', 'short write', 'write interrupted'], hash=0, bs=1, len=2, shorts=2, ints=1, errs=0, polls=0),
               R('c16_emit', ['written', 'failed', 'short write', 'write interrupted', 'write error', 'write refused'], hash=3, shorts=1, ints=1, errs=1),
               R('c16_emit', ['written', 'failed', 'short write'], hash=0, shorts=2, ints=0, errs=1),
               R('c16_scan', ['written', 'short write'], hash=0, bs=1, len=2, shorts=1, ints=0, errs=0, polls=0, anycut=1), R('c16_emit', ['written', 'failed', 'short write'], hash=0, shorts=1, ints=0, errs=1, anycut=1)],
        thorough=[R('c16_scan', ['written', 'failed', 'short write', 'write error', 'write refused'], hash=0, bs=2, len=3, shorts=1, ints=1, errs=1, polls=1),
                  R('c16_scan', ['written', 'short write', 'write interrupted'], hash=0, bs=1, len=2, shorts=3, ints=1, errs=0, polls=0),
                  R('c16_emit', ['written', 'failed', 'short write'], hash=0, shorts=2, ints=1, errs=1),
                  R('c16_scan', ['written', 'failed', 'short write'], hash=3, bs=2, len=2, shorts=1, ints=0, errs=1, polls=0, anycut=1), R('c16_emit', ['written', 'failed', 'short write'], hash=3, shorts=1, ints=1, errs=1, anycut=1)],
        bounds='a scan of a tree of five entries (file of `len` arbitrary bytes, single-threaded and threaded) and an emitter session of six calls with an arbitrary name byte and content; at every write of the destination up to `shorts` partial writes (one byte, or all but one), `ints` interruptions and `errs` errors (any error number) or writes of nothing; with anycut=1 partial writes of any length',
        outside='several partial writes of arbitrary length; destinations that fail later calls of flush (Write::flush is never promised by scan)',
    ),
    'C17': dict(
        quick=[R('c17_scan', ['footer', 'with progress', 'threaded', 'full tree', 'not ready until waited for'], nodes=2, name=1, wide=1, kinds=3, len=1, bs=1, modes=0, target=1, hash=3, polls=1, get=0, attrs=1),
               R('c17_scan', ['footer', 'full tree'], nodes=1, name=1, wide=1, kinds=3, len=2, bs=2, modes=0, target=1, hash=3, polls=0, get=1),
               R('c17_emit', ['footer', 'full session'], hash=3, rows=3, name=1, get=0), R('c17_emit', ['footer', 'full session'], hash=3, rows=2, name=1, get=1)],
        thorough=[R('c17_scan', ['footer', 'with progress', 'threaded', 'full tree'], nodes=3, name=1, wide=0, kinds=4, len=2, bs=2, modes=0, target=1, hash=3, polls=1, get=0),
                  R('c17_scan', ['footer', 'full tree'], nodes=2, name=1, wide=0, kinds=3, len=1, bs=2, modes=0, target=1, hash=3, polls=0, get=1),
                  R('c17_emit', ['footer', 'full session'], hash=3, rows=4, name=1, get=0), R('c17_emit', ['footer', 'full session'], hash=3, rows=2, name=2, get=0)],
        bounds='every hash type; trees as in C13 of up to `nodes` entries, single-threaded and threaded, with and without progress; emitter sessions of up to `rows` calls with names of 1..name arbitrary bytes; with get=1 also read back by get_hash',
        outside='larger trees and sessions (the digest is updated by the one writing function of each writer)',
    ),
    'C23': dict(
        quick=[R('c23_progress', ['scanned', 'stderr fails', 'progress printed'], nodes=0, len=1, hash=0, bs=1, faults=0, ticks=4, paces=5, polls=1, shorts=0, ints=0, errs=0),
               R('c23_progress', ['scanned', 'failed', 'stderr fails'], nodes=2, name=1, wide=0, kinds=3, modes=0, target=1, len=1, hash=0, bs=2, faults=1, ticks=2, paces=2, polls=1, shorts=0, ints=0, errs=0),
               R('c23_progress', ['scanned', 'stderr fails'], nodes=0, len=2, hash=3, bs=2, faults=0, ticks=2, paces=5, polls=0, shorts=0, ints=0, errs=0),
               R('c23_progress', ['scanned', 'failed', 'stderr fails', 'not ready until waited for'], nodes=0, len=1, hash=0, bs=1, faults=0, ticks=1, paces=4, polls=1, shorts=0, ints=0, errs=1),
               R('c23_progress', ['scanned', 'stderr fails once'], nodes=0, len=1, hash=0, bs=1, faults=0, ticks=2, paces=5, polls=0, shorts=0, ints=0, errs=0, flaky=1), R('c23_many', ['scanned'], counts=8)],
        thorough=[R('c23_progress', ['scanned', 'stderr fails', 'progress printed'], nodes=0, len=1, hash=3, bs=1, faults=0, ticks=6, paces=5, polls=1, shorts=0, ints=0, errs=0),
                  R('c23_progress', ['scanned', 'failed', 'stderr fails'], nodes=3, name=1, wide=0, kinds=4, modes=0, target=1, len=1, hash=0, bs=2, faults=1, ticks=3, paces=4, polls=1, shorts=0, ints=0, errs=0),
                  R('c23_progress', ['scanned', 'failed', 'stderr fails'], nodes=0, len=1, hash=0, bs=1, faults=1, ticks=2, paces=3, polls=0, shorts=1, ints=1, errs=1),
                  R('c23_progress', ['scanned', 'stderr fails once'], nodes=0, len=1, hash=0, bs=1, faults=0, ticks=1, paces=5, polls=0, shorts=0, ints=0, errs=0, flaky=2), R('c23_many', ['scanned'], ['--max-steps=400000000'], counts=10)],
        bounds='a scan with progress of a tree of five entries, and of every tree of up to `nodes` entries, single-threaded and threaded; the first `ticks` readings of the clock advance by any of the first `paces` of 0, 1, 100, 101, 3600000 ms, the later ones at the last of these paces; stderr works or fails (with flaky: fails, takes nothing, is interrupted or takes one byte at up to `flaky` writes); 99..300 (1001) entries of one kind or mixed, at three paces; up to `faults` failing file-system calls, and `shorts`/`ints`/`errs` disturbances of the destination',
        outside='clocks that go backwards (std makes Instant monotonic)',
        assume=['the file system and the clock follow the model in harness/src/posix.rs'],
    ),
    'C21': dict(
        quick=[R('c21_cli', ['exit 0', 'exit nonzero', 'bad argument', 'to file', 'to stdout', 'other hash'], long=0, len=1, args=1, faults=0, shorts=0, ints=0, errs=0, stderr=1, polls=0),
               R('c21_cli', ['exit 0', 'exit nonzero', 'destination failed', 'scan failed', 'to file', 'to stdout'], long=0, len=1, args=0, faults=1, shorts=0, ints=0, errs=1, stderr=1, polls=1),
               R('c21_cli', ['exit 0', 'short write', 'write interrupted', 'to file', 'to stdout'], long=0, len=1, args=0, faults=0, shorts=1, ints=1, errs=0, stderr=0, polls=0),
               R('c21_cli', ['exit 0', 'exit nonzero', 'destination failed', 'to file', 'to stdout'], long=1, len=1, args=0, faults=0, shorts=1, ints=0, errs=1, stderr=0, polls=0)],
        thorough=[R('c21_cli', ['exit 0', 'exit nonzero', 'bad argument', 'to file', 'to stdout', 'other hash'], long=0, len=2, args=1, faults=1, shorts=0, ints=0, errs=1, stderr=1, polls=0),
                  R('c21_cli', ['exit 0', 'exit nonzero', 'destination failed', 'scan failed', 'to file', 'to stdout'], long=0, len=1, args=0, faults=1, shorts=1, ints=1, errs=1, stderr=1, polls=1),
                  R('c21_cli', ['exit 0', 'exit nonzero', 'destination failed', 'to file', 'to stdout'], long=1, len=1, args=0, faults=0, shorts=1, ints=1, errs=1, stderr=0, polls=0)],
        bounds='main() of the tool on a tree of five entries (and with long=1 on one whose index exceeds the output buffer), to a file or to standard output; with args=1 every combination of 4 spellings of the destination, 4 of progress, 7 of threads, 6 of the hash type and 6 of the directory (present, missing, none, several), valid and invalid, the file absent or holding something shorter or longer than the index; up to `faults` failing file-system calls, and at every write that reaches the file or standard output up to `shorts` partial writes, `ints` interruptions and `errs` errors (creating the file may fail too); stderr works or fails',
        outside='a standard output that is closed (the standard library discards such writes), failures reported only by close(), several existing directories (finding K3)',
        assume=['the file system, clock, environment and processor count follow the model in harness/src/posix.rs'],
    ),
    'C22': dict(
        quick=[R('c22_list', ['items', 'out of range'], hashes=3), R('c22_eq', ['equal', 'different'], len=4), R('c22_long', ['in range', 'out of range'])],
        thorough=[R('c22_list', ['items', 'out of range'], hashes=5), R('c22_eq', ['equal', 'different'], len=8), R('c22_long', ['in range', 'out of range'])],
        bounds='lists of 0..hashes hashes read from a row (one arbitrary byte in each), block sizes 1, 7, 2^63, 2^64-1, any 64-bit index; lists of 127..2049 hashes (9 lengths) with any index; pairs of lists computed from 0..len arbitrary bytes',
        outside='longer lists',
    ),
}
NOTES = {}
