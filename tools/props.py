#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run this after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique='', note='', claimed=True):
    P.append((
        {
            'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why,
            'anchors': {
                'files': files,
                'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                'mechanism': [{'name': a, 'where': b} for a, b in mechanism],
                'observe_at': list(observe),
                'hook_needed': None,
            },
        },
        technique, note, claimed,
    ))


prop(
    'W01', 'A mount with a write overlay behaves like an ordinary file system',
    'A mount with a write overlay starts out showing the mounted sources and from then on every create, mkdir, symlink, link, '
    'unlink, rmdir, rename, truncate, chmod, chown, utimens, open, read and write has the effect and the outcome it would have '
    'on an ordinary POSIX file system with that content. After every operation the visible tree (names, types, content, link '
    'targets, size, permissions, owner, modification time of files) is exactly the one of that file system, nothing deleted or '
    'overwritten reappears, also after unmounting and mounting again with the same overlay. The only operations that may be '
    'refused are renaming a folder that comes from the sources and hard linking a file that comes from them (EXDEV, no effect).',
    ['histories', 'configurations'],
    'Any sequence of operations with any interleaving of open handles and remounts, over any sources (archives, folders, '
    'unions), file names, contents and umask.',
    'The outcome of an operation depends on the layer (source, overlay folder, whiteout, metadata row) every involved path is '
    'currently in; histories reaching all combinations are far too many to list, and the test suite exercises few of them.',
    ['ratarmount/WriteOverlay.py', 'ratarmount/FuseMount.py', 'core/ratarmountcore/mountsource/compositing/union.py',
     'core/ratarmountcore/mountsource/formats/folder.py'],
    [('whiteouts and metadata rows of the overlay database', 'ratarmount/WriteOverlay.py:_mark_as_deleted,_set_file_metadata'),
     ('copy-up on first modification', 'ratarmount/WriteOverlay.py:_ensure_file_is_modifiable,_ensure_parent_exists'),
     ('rename across layers', 'ratarmount/WriteOverlay.py:rename'),
     ('handle upgrade on first write', 'ratarmount/FuseMount.py:write')],
    [('overlay folder', 'upper layer holding new and modified files', 'ratarmount/WriteOverlay.py:WritableFolderMountSource.root'),
     ('files table', 'whiteouts (deleted) and attributes', 'ratarmount/WriteOverlay.py:_overlayMetadataSchema'),
     ('openedFiles', 'open handles', 'ratarmount/FuseMount.py:FuseMount.openedFiles')],
    ['file system operations of the mount (FuseMount methods)'],
    'TLA+ (TLC): refinement of a POSIX file system spec by the layered overlay design; TLC-generated and random operation '
    'histories executed on the real mount and each recorded trace validated by TLC against the POSIX spec',
    'Histories up to depth 3 (4 thorough) over a small tree are explored exhaustively on the spec; the replayed ones are a '
    'seeded sample of those plus 40-step random histories with handles and remounts.',
)

VIEW_TECH = ('TLA+ (TLC): member-sequence specification, exhaustively model checked for small stacks; all of those plus random ones are '
             'built as real archives and folders, mounted, and the recorded tree is judged by TLC against the spec')

prop(
    'T01', 'A TAR is shown as the tree that its sequence of members describes',
    'The tree shown for a TAR, plain or compressed, is a function of its sequence of members alone: for every path the last '
    'member with that path decides type (file, folder, symbolic link, FIFO, character or block device), content, link target, size, permission '
    'bits, modification time and owner; folders that only occur as parents of members exist nevertheless; path spellings with ".", "..", '
    'double or leading slashes name the same path and never leave the root; a hard link (with file versions enabled) shows the file it refers to, and the '
    'previous version of the path when it refers to itself. Nothing else is shown, each path is listed exactly once by '
    'its parent, listings and lookups agree, and content is returned byte for byte. This holds for GNU, PAX and ustar TARs, any '
    'names, with in-memory, new and reloaded indexes, with and without recursion, lazy mounting and the control interface.',
    ['inputs', 'configurations'],
    'Any sequence of members (duplicates, type changes, implied folders, unusual spellings and names) in any TAR dialect and '
    'compression, with any index mode.',
    'Most tests mount a handful of well-formed archives; the interplay of duplicates, implied folders, type changes and links '
    'appears only for particular member orders.',
    ['core/ratarmountcore/mountsource/formats/tar.py', 'core/ratarmountcore/SQLiteIndex.py',
     'core/ratarmountcore/mountsource/SQLiteIndexMountSource.py', 'core/ratarmountcore/mountsource/compositing/versioning.py'],
    [('rows per member and implied parents', 'core/ratarmountcore/SQLiteIndex.py:set_file_infos,_finalize_files_table'),
     ('most recent row wins', 'core/ratarmountcore/SQLiteIndex.py:lookup,list'),
     ('hard links', 'core/ratarmountcore/mountsource/compositing/versioning.py:_resolve_hard_links')],
    [('files table', 'one row per member ordered by its offset', 'core/ratarmountcore/SQLiteIndex.py')],
    ['getattr, readdir, readlink, read of the mount'],
    VIEW_TECH,
    'All member sequences up to length 3 of a 14 letter alphabet; random sequences up to 14 members; paths that are covered by '
    'a file while later members are stored below them are left open (see _try_add_parent_folders TODO).',
)

prop(
    'U01', 'Several sources are shown as their union, the rightmost one takes precedence',
    'Mounting several archives and folders shows the union of their trees: a path exists iff it exists in at least one source, '
    'what is shown for it (type, content, link target, permissions, owner, modification time) is what the rightmost source having it '
    'shows, and a folder lists the entries of that folder in all sources exactly once. Listings and lookups agree. Limits of the '
    'union cache (depth, entries, time), the kind of source, index modes, recursion, lazy mounting and the control interface make no difference. '
    'Symbolic links are never followed to build the union.',
    ['inputs', 'configurations'],
    'Any two to four sources of any kind with arbitrarily overlapping trees, for any limits of the union cache.',
    'The result depends on which source has which type for each prefix of a path and on where the cache was cut off; '
    'tests look at a few fixed pairs.',
    ['core/ratarmountcore/mountsource/compositing/union.py', 'core/ratarmountcore/mountsource/formats/folder.py',
     'core/ratarmountcore/mountsource/formats/zip.py', 'ratarmount/FuseMount.py'],
    [('union lookup and listing', 'core/ratarmountcore/mountsource/compositing/union.py:lookup,_list'),
     ('folder cache', 'core/ratarmountcore/mountsource/compositing/union.py:_build_folder_cache')],
    [('folderCache', 'which sources have a folder, up to folderCacheDepth', 'core/ratarmountcore/mountsource/compositing/union.py')],
    ['getattr, readdir, readlink, read of the mount'],
    VIEW_TECH,
    'All stacks of up to three members in two or three sources; random stacks of two to four sources of up to 9 members; paths which one source '
    'covers with a file while still storing something below are left open.',
)

prop(
    'V01', 'Every version of a path stays accessible in its version folder',
    'With file versions enabled <path>.versions exists for every existing path (unless something of that name is stored), is a '
    'folder, lists exactly 1..n where n is the number of times the path was stored over all sources (an implied folder counts once '
    'per source that stores no folder member for it), and <path>.versions/k is the k-th of them counted from the leftmost source and the '
    'first member, with the type, content, link target, permissions, owner and modification time stored then; hard links show '
    'what they refer to, or the version before them if they refer to their own path. Other names in it do not exist. '
    'Adding a member or a source to the right never changes existing versions.',
    ['inputs', 'configurations'],
    'Any sequence of members with duplicates of any type, over one to three sources, in any index mode, with and without '
    'recursion and control interface.',
    'Versions are counted across member order, sources and layers; tests check one or two duplicates of plain files.',
    ['core/ratarmountcore/mountsource/compositing/versioning.py', 'core/ratarmountcore/mountsource/compositing/union.py',
     'core/ratarmountcore/mountsource/compositing/automount.py', 'core/ratarmountcore/SQLiteIndex.py'],
    [('version paths', 'core/ratarmountcore/mountsource/compositing/versioning.py:_decode_versions_path_api,lookup'),
     ('version arithmetic over sources', 'core/ratarmountcore/mountsource/compositing/union.py:lookup,versions')],
    [('files table', 'rows with equal path are the versions', 'core/ratarmountcore/SQLiteIndex.py')],
    ['getattr, readdir, read below <path>.versions'],
    VIEW_TECH,
    'As T01 and U01.',
)

prop(
    'A01', 'Archives inside archives are shown as folders with what is inside of them',
    'With recursive mounting, and down to the given recursion depth (a negative one is infinite, the compression of a TAR counts as one layer), every '
    'archive inside the mounted archive or folder is shown as a folder in its place or, when so configured (strip extension, transform), at the derived '
    'name, with the permissions, owner and time of the archive file, and below it exactly the tree that mounting this archive alone would '
    'show, byte for byte. Names and hard links inside are relative to it: nothing inside of an archive can appear outside of, or change what is '
    'shown outside of, its mount point. Archives deeper than the recursion depth and files which only have the name of an archive stay '
    'files with their own bytes. It makes no difference whether the outer archive is a TAR, a compressed TAR, a ZIP or a folder, whether the index is in memory, new or '
    'reloaded, or (once accessed) whether mounting is lazy. Such mounts can be unmounted without taking down the process.',
    ['inputs', 'configurations'],
    'Any nesting of TAR, compressed TAR, ZIP and compressed files, any member names inside of them, any depth limit.',
    'Two mechanisms implement it (inside the TAR index and by stacking mount sources) which have to agree for every '
    'nesting; tests mount two or three fixed nested archives.',
    ['core/ratarmountcore/mountsource/compositing/automount.py', 'core/ratarmountcore/mountsource/formats/tar.py',
     'core/ratarmountcore/mountsource/formats/zip.py', 'core/ratarmountcore/StenciledFile.py'],
    [('recursion inside of the TAR index', 'core/ratarmountcore/mountsource/formats/tar.py:_create_index_recursively'),
     ('recursion by stacking', 'core/ratarmountcore/mountsource/compositing/automount.py:_try_to_mount_file')],
    [('mounted', 'mount points', 'core/ratarmountcore/mountsource/compositing/automount.py')],
    ['getattr, readdir, readlink, read of the mount'],
    'TLA+ (TLC): specification of the expansion of nested archives, model checked for containment, compositionality and depth; all '
    'small nested archives plus random ones are built, mounted and judged by TLC against it',
    'Nesting up to four layers; two archives that end up at the same mount point are left open (documented as such).',
)

prop(
    'I01', 'What a mount shows never depends on index files that earlier mounts left',
    'Mounting an archive shows exactly the tree of the archive as it is now, whatever index file is found (a change that keeps the size of the '
    'archive has to be noticed if modification times are to be verified): an index '
    'of the same archive with other members, of an archive that was appended to, replaced, shrunken or rewritten, an index left by a mount that '
    'was killed while creating or extending it, one that is empty, truncated, garbage, of another format, or of an incompatible version; '
    'and whether it is kept beside the archive, in an index folder, in an explicit file (also with several archives) or in memory. '
    'A loaded index shows the same as a newly created one, and mounting twice shows the same as mounting once.',
    ['histories', 'crash_points', 'configurations'],
    'Any history of mounts, changes to the archive, damage to index files and kills at any function call of index creation.',
    'Stale and partial indexes need histories of several mounts with changes and crashes in between; tests create and load each index once.',
    ['core/ratarmountcore/SQLiteIndex.py', 'core/ratarmountcore/mountsource/SQLiteIndexMountSource.py',
     'core/ratarmountcore/mountsource/formats/tar.py', 'core/ratarmountcore/create-index-tables.sql', 'ratarmount/FuseMount.py'],
    [('index acceptance', 'core/ratarmountcore/SQLiteIndex.py:_load_index,_try_load_index_file,check_metadata'),
     ('appended archives', 'core/ratarmountcore/mountsource/formats/tar.py:__init__,_get_past_end_offset,_check_index_validity')],
    [('index file', 'files, metadata, versions tables', 'core/ratarmountcore/create-index-tables.sql')],
    ['getattr, readdir, readlink, read of the mount after each step of the history'],
    'TLA+ (TLC): specification of the life of an index file over changes, kills and mounts, model checked (each safeguard is shown to be '
    'necessary by refuting the variant without it); its histories, all short ones and simulated longer ones, are replayed with real archives '
    'and processes killed inside of index creation, every mount judged by TLC against the specified tree',
    'TAR, compressed TAR, ZIP; kills at function-call granularity (I02 covers the single writes); a rewrite that keeps size and '
    'modification time cannot be noticed and is excluded.',
)

prop(
    'I02', 'Interrupted, failing and simultaneous index creation never changes what is shown',
    'A mount that is killed after any single write to its index, one that runs out of space at any write of its index, and mounts of the same '
    'archive at the same time that create, extend or use the same index file, show exactly the tree of the archive, or nothing if they are '
    'killed; and so does every mount afterwards, without being told to recreate the index. Running out of space or not finding a free index '
    'location is no reason for not mounting or for showing other metadata. This holds when the index is created, replaced, or extended with '
    'members appended to a TAR.',
    ['crash_points', 'fault_sequences', 'schedules'],
    'Any write at which the process is killed or fails, and any write before which one mount is paused while another runs.',
    'There are dozens of writes per index and thousands of pairs of pauses; tests never interrupt a mount nor mount an archive twice at a time.',
    ['core/ratarmountcore/SQLiteIndex.py', 'core/ratarmountcore/mountsource/SQLiteIndexMountSource.py',
     'core/ratarmountcore/mountsource/formats/tar.py', 'core/ratarmountcore/create-index-tables.sql'],
    [('creation', 'core/ratarmountcore/SQLiteIndex.py:finalize_index,open_writable,reload_index_read_only'),
     ('loading', 'core/ratarmountcore/SQLiteIndex.py:_load_index,_try_load_index')],
    [('index file', 'rows, completeness marker, lock, path', 'core/ratarmountcore/create-index-tables.sql')],
    ['getattr, readdir, readlink, read of the interrupted, simultaneous and following mounts'],
    'TLA+ (TLC): specification of an index path shared by mounts that write row by row and may be killed, model checked (each safeguard is shown '
    'to be necessary by refuting the variant without it); every write system call of real index creation is recorded and the disk after it '
    'reproduced and mounted, or made to fail, or used to pause one mount while another runs, every mount judged by TLC against the specified tree',
    'TAR, compressed TAR, ZIP; writes are kept in the order in which they were issued (killed processes, not power failures); two mounts at a time.',
)

prop(
    'B01', 'File objects made of other files read exactly what they stand for',
    'File objects that are assembled from other files (regions of one or several files one after the other, joined files, zeros, '
    'data fetched by a function, blobs in an SQLite database that are possibly split, files decompressed block by block in parallel) '
    'behave like an ordinary read-only file with that content: size and positions are right after every seek, also relative ones and '
    'ones to after the end, reads return exactly the bytes following the position and advance it by what they returned, an empty '
    'result only comes at the end. What is done with one of several file objects sharing an underlying file changes nothing for the '
    'others, also when they are used from several threads.',
    ['inputs', 'programs', 'schedules'],
    'Any content, any way in which it is assembled (also nested), any sequence of seek, read, readinto, pread, and tell on any '
    'number of file objects, in any interleaving of threads on a shared underlying file.',
    'Errors depend on where positions lie relative to the borders of regions, buffers, and blocks, and on which thread moves the '
    'shared position between the seek and the read of another one.',
    ['core/ratarmountcore/StenciledFile.py', 'core/ratarmountcore/SQLiteBlobFile.py', 'core/ratarmountcore/BlockParallelReaders.py'],
    [('regions of shared files', 'core/ratarmountcore/StenciledFile.py:RawStenciledFile'),
     ('joined files', 'core/ratarmountcore/StenciledFile.py:RawJoinedFileFromFactory'),
     ('blobs', 'core/ratarmountcore/SQLiteBlobFile.py:SQLiteBlobsFile,WriteSQLiteBlobs'),
     ('block cache and workers', 'core/ratarmountcore/BlockParallelReaders.py:BlockParallelReader')],
    [('offset', 'position of the file object', 'core/ratarmountcore/StenciledFile.py:RawStenciledFile.offset')],
    ['seek, read, readinto, tell of the file objects'],
    'TLA+ (TLC): file expressions and handles (FileIO); call sequences generated by TLC (FileGen) and thread schedules from a model '
    'checked specification of handles sharing a cursor (SharedCursor) are executed on the real classes, and TLC judges every '
    'recorded result against FileIO (FileTrace)',
    'Schedules are all of two threads with two reads each of the model, forced on real threads by gates around the underlying file.',
)

prop(
    'R01', 'Reads of mounted files return their content in any order and through any handles',
    'Whatever is read of a file in a mount is its content: for every offset and size exactly the bytes stored there, up to the '
    'end of the file, independently of what was read before and of which other handles of this or of other files are open and '
    'used in between. This holds for members of all archive formats and compressions, sparse files, files of archives inside of '
    'other archives and of split files, and for archives mounted with a new or an existing index, with any number of decoders in '
    'parallel, any choice of backend, eagerly or lazily.',
    ['inputs', 'programs', 'configurations'],
    'Any content in any archive format or compression, nested in any way, any sequence of reads through any number of handles, '
    'mounted for the first time or again, with any backend and parallelization.',
    'Decoders keep positions, buffers, and caches that are shared by the handles of an archive; whether a read returns the wrong '
    'bytes depends on what was read before through all of them and on how offsets lie relative to blocks.',
    ['core/ratarmountcore/mountsource/formats/tar.py', 'core/ratarmountcore/mountsource/formats/zip.py',
     'core/ratarmountcore/mountsource/formats/squashfs.py', 'core/ratarmountcore/mountsource/formats/libarchive.py',
     'core/ratarmountcore/mountsource/formats/asar.py', 'core/ratarmountcore/mountsource/formats/sqlar.py',
     'core/ratarmountcore/mountsource/formats/single.py', 'core/ratarmountcore/compressions.py', 'ratarmount/FuseMount.py'],
    [('regions and sparse files', 'core/ratarmountcore/mountsource/formats/tar.py:open'),
     ('streams that can only be decoded forward', 'core/ratarmountcore/mountsource/formats/libarchive.py:LibarchiveFile'),
     ('block-wise decoding', 'core/ratarmountcore/mountsource/formats/squashfs.py:SquashFSFile'),
     ('handles of the mount', 'ratarmount/FuseMount.py:open,read')],
    [('openedFiles', 'open handles', 'ratarmount/FuseMount.py:FuseMount.openedFiles')],
    ['open, read, and release of the mount', 'MountSource.open, MountSource.read'],
    'TLA+ (TLC): a forward-only decoder with buffer is model checked to refine a file (StreamReader); call sequences generated by '
    'TLC (FileGen) are executed on files of real archives of all formats and TLC judges every result against the content (FileTrace)',
    'Formats without an installed writer (RAR, EXT4, FAT, HTML, WARC, ISO) are not built.',
)

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, *_ in P:
            f.write(json.dumps(p) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'bash setup.sh',
        'checks': [
            {
                'property': p['id'],
                'quick_cmd': f'python3 run.py {p["id"]} quick',
                'thorough_cmd': f'python3 run.py {p["id"]} thorough',
                'technique': technique,
                'level': 'model_checking',
                'level_note': note,
            }
            for p, technique, note, claimed in P if claimed
        ],
        'not_applicable': [{'property': p['id'], 'reason': note} for p, technique, note, claimed in P if not claimed],
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
