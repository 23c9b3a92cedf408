#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the statements stay readable)"""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': ' '.join(text.split())}, 'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': hook}})


prop('C01', 'A successful patcher download is complete and byte-exact',
     """When downloading a patch or component from a patcher storage reports success, every file the
     language selection asks for is in the storage under the release's name and equals, byte for byte,
     what the patch manifest describes, and the files listed for that selection are exactly those.
     This holds for every order in which download and extraction threads run, every delay, error and
     short read the network and disk produce, and whatever earlier commands left behind.  A download that meets no
     error succeeds.""",
     ['schedules', 'fault_sequences', 'histories', 'inputs', 'configurations'],
     """all seeds of a scheduler over the download, read-ahead and extraction threads; all placements of network and disk
     faults; all histories of publications, downloads and interruptions; symlink and plain storages; all language selections""",
     """tests/test_tools and test_export never run a download: no test has a network, a manifest with bundles, or more than one thread""",
     ['cdtb/patcher.py', 'cdtb/storage.py', 'cdtb/tools.py', 'cdtb/__main__.py'],
     [('bundle read-ahead and extraction in order of chunks', 'cdtb/patcher.py PatcherStorage.load_chunk, PatcherPatchElement.extract_files'),
      ('parallel bundle download', 'cdtb/patcher.py PatcherPatchElement.download_bundles'),
      ('atomic write of each stored file', 'cdtb/tools.py write_file_atomic'),
      ('language filter', 'cdtb/patcher.py PatcherManifest.filter_files')],
     observe=['exit status of `cdtb download`', 'Storage.patches(), PatchElement.paths()/fspaths()/relpaths()', 'files on disk'])

prop('C02', 'An interrupted download never leaves a file that passes for complete',
     """After a download command is stopped at any instant (killed, interrupted, or ended by a network or disk error), every
     file that has its final name in a storage (manifests, bundles, archives, solution listings, extracted files, release
     descriptions, version caches) has its complete, correct content; anything partial is ignored by every later command.
     Files that were complete before stay complete.""",
     ['crash_points', 'fault_sequences', 'schedules', 'histories'],
     """all instants of a download at which the process can be killed, interrupted, or a write can be short, torn, or fail; patcher and RADS storages""",
     """no test stops a download; the instant of a kill inside a buffered write or between two file operations is not reachable from a unit test""",
     ['cdtb/tools.py', 'cdtb/storage.py', 'cdtb/patcher.py', 'cdtb/rads.py'],
     [('temporary file renamed once complete', 'cdtb/tools.py write_file_atomic'), ('release description written last', 'cdtb/patcher.py PatcherReleaseElement, PatcherStorage.download_release'),
      ('download to a temporary name', 'cdtb/storage.py Storage.download')],
     observe=['every file of the storage after the stop', 'commands run afterwards'])

prop('C03', 'No failure is reported as success',
     """A command which met a network or disk error that made it miss, truncate or leave out part of its result does not exit
     successfully: it raises or exits with a non-zero status.  This holds for downloads, exports, WAD extraction and hash list
     updates, whichever request, file or write fails and in whichever thread.""",
     ['fault_sequences', 'schedules', 'inputs'],
     """all placements of errors (connection, HTTP status, truncated body, ENOSPC, EIO, EMFILE, EACCES, short writes) at the requests and file operations of every command""",
     """tests never inject an I/O error; errors in worker threads or swallowed by broad handlers are invisible to them""",
     ['cdtb/storage.py', 'cdtb/patcher.py', 'cdtb/rads.py', 'cdtb/export.py', 'cdtb/wad.py', 'cdtb/hashes.py', 'cdtb/tools.py'],
     [('exceptions propagate from worker threads', 'cdtb/patcher.py download_bundles'), ('short bodies are detected', 'cdtb/storage.py Storage.download'),
      ('conversion errors kept apart from I/O errors', 'cdtb/export.py ImageConverter.convert, TexConverter.convert, Exporter._export_plain_file, Exporter._export_wad')],
     observe=['exit status', 'content of the output compared with the model'])

prop('C04', 'Running the same command again recovers from any interruption',
     """However a command was stopped or failed, once the cause is gone running the same command again with the same arguments succeeds,
     and its result is the one an undisturbed run would have given.  No manual clean-up is ever needed, and no command hangs.""",
     ['crash_points', 'fault_sequences', 'histories', 'schedules'],
     """all histories made of disturbed runs (one or two faults each) followed by an undisturbed rerun, over downloads, exports and hash updates""",
     """a test would have to stop the tool at each instant and rerun it; none stops it even once""",
     ['cdtb/patcher.py', 'cdtb/rads.py', 'cdtb/storage.py', 'cdtb/export.py', 'cdtb/wad.py', 'cdtb/hashes.py', 'cdtb/tools.py'],
     [('existing files are skipped, missing ones are made', 'cdtb/patcher.py PatcherReleaseElement.extract, cdtb/rads.py RadsProjectVersion.extract, cdtb/export.py Exporter.export'),
      ('storage type guessed from its content', 'cdtb/storage.py guess_storage_conf'), ('unexpected files removed before an export', 'cdtb/export.py Exporter.clean_output_dir')],
     observe=['exit status and output of the rerun'])

prop('C05', 'The stored release history is truthful and ordered',
     """Listing the patches of a storage yields each recorded release once, newest first by order of recording, with the version and files that
     release was published with, and consecutive releases of the same version appear as the newest one.  This holds when releases are
     recorded in the same second, after the clock jumped in either direction, after interrupted downloads, and for each patchline independently.""",
     ['histories', 'crash_points', 'configurations', 'fault_sequences'],
     """all histories of publications, downloads, kills and clock changes over the live and pbe patchlines""",
     """tests construct versions and patches in memory; none records releases on disk or moves the clock""",
     ['cdtb/patcher.py', 'cdtb/storage.py'],
     [('release directories named by time of recording', 'cdtb/patcher.py PatcherStorage.download_release'), ('description compared with the last recorded one', 'cdtb/patcher.py PatcherStorage.list_releases')],
     observe=['`cdtb versions`', 'Storage.patches()'])

prop('C06', 'Nothing is downloaded twice or without need',
     """A download requests no file that is already complete in the storage, requests each file at most once, and requests only bundles
     needed by a file it has to make or by the version lookup of a release the storage knows.  Running a successful download again fetches no
     manifest or bundle at all.""",
     ['histories', 'schedules', 'inputs', 'configurations'],
     """all histories of downloads with different language selections, interruptions included, and all thread schedules""",
     """there is no test that counts requests, nor one in which a storage is already partly filled""",
     ['cdtb/patcher.py', 'cdtb/storage.py', 'cdtb/rads.py'],
     [('existing files are not requested', 'cdtb/storage.py Storage.download'), ('bundles computed from the selected files', 'cdtb/patcher.py download_bundles')],
     observe=['requests received by the simulated servers'])

prop('C07', 'Commands running at the same time on one storage do not harm each other',
     """Two processes using one shared storage (downloading the two patchlines or the same one, listing, or exporting patches to different directories)
     each end as they would alone: both succeed with complete, exact files, neither sees the other's partial files, and a kill or failure of one does not make the other fail
     or corrupt what it stores.""",
     ['schedules', 'crash_points', 'histories'],
     """all interleavings of the file operations and requests of two processes (downloads, listings, exports) with several threads each, with faults in one of them""",
     """tests are sequential; the window between checking that a file exists and creating it is never hit""",
     ['cdtb/patcher.py', 'cdtb/storage.py', 'cdtb/tools.py'],
     [('temporary names private to a process', 'cdtb/tools.py write_file_atomic'), ('directories created if missing', 'cdtb/storage.py, cdtb/patcher.py os.makedirs(exist_ok=True)')],
     observe=['both exit statuses', 'the storage afterwards'])

prop('C08', 'RADS downloads and extraction are byte-exact however data arrives',
     """When downloading a project, solution or patch from a RADS storage succeeds, every file of the release listed for the selected languages is stored
     decompressed with exactly the content that was published, whatever the sizes of the pieces in which package data arrives, the sizes of reads, which packages were already there,
     and how earlier runs ended.  Compressed and plain files, empty files, and files spanning piece boundaries are treated alike.
     A download that meets no error succeeds.""",
     ['inputs', 'schedules', 'fault_sequences', 'histories'],
     """all package layouts, delivery piece sizes, buffer sizes and fault placements""",
     """the only RADS tests concern versions; no package is ever downloaded""",
     ['cdtb/rads.py', 'cdtb/storage.py', 'cdtb/tools.py'],
     [('stream reader that crosses piece boundaries', 'cdtb/storage.py RequestStreamReader'), ('files of a package extracted in order, those present skipped', 'cdtb/rads.py RadsProjectVersion.extract')],
     observe=['files of the storage', 'exit status'])

prop('C09', 'RADS versions are listed truthfully',
     """The solution, project and patch versions a RADS storage lists are exactly those published (or, for stored listings, those downloaded), newest first, each solution once, with the patch version
     of the client it contains; selecting a version or 'the latest' selects that one.  A kill or error while the patch version of a solution is looked up never changes what is listed afterwards.""",
     ['histories', 'inputs', 'crash_points'],
     """all histories of published and downloaded solutions and interrupted lookups""",
     """listing needs servers, downloaded executables and caches, none of which tests provide""",
     ['cdtb/rads.py', 'cdtb/storage.py'],
     [('merge of both solutions by patch version', 'cdtb/rads.py RadsStorage.patch_elements'), ('listing of versions', 'cdtb/rads.py RadsSolution.versions'),
      ('lookup and cache of the patch version', 'cdtb/rads.py RadsSolutionVersion.patch_version')],
     observe=['`cdtb versions`', 'Storage.patches()'])

prop('C10', 'An export mirrors its patch, whatever was in the output directory',
     """After a successful export the output contains every file of the patch selected by the filters, with the content converted from that patch's data, and nothing else
     but the generated data under `cdragon/`; this holds when the directory holds leftovers of earlier exports of any patch, of interrupted exports, or foreign files,
     directories and links in place of files.  Files outside the output directory are never modified.  An export that meets no error succeeds.""",
     ['histories', 'crash_points', 'fault_sequences', 'inputs'],
     """all histories of exports of several patches, full and lazy, into the same or different directories, with kills and errors at any operation""",
     """tests of the exporter build a fixed small tree once; none starts from leftovers of a stopped export or injects an error""",
     ['cdtb/export.py', 'cdtb/wad.py', 'cdtb/tools.py'],
     [('everything unexpected is removed first', 'cdtb/export.py Exporter.clean_output_dir, walk_output_dir'), ('paths expected from each source', 'cdtb/export.py FileConverter.converted_paths'),
      ('selection of the files', 'cdtb/export.py CdragonRawPatchExporter._transform_exported_files')],
     observe=['output directory tree', 'exit status'])

prop('C11', 'A symlinked export is equivalent to a full one',
     """An export made against a previous export reads, through its links, exactly as a full export of the same patch would, files unchanged since the previous patch are links into
     the previous export (listed in `cdragon/files.links.txt`), and the previous export is left untouched.  Links left by an earlier run that no longer apply are replaced.""",
     ['histories', 'inputs', 'crash_points', 'configurations'],
     """all sequences of patches (files added, removed, changed, identical; archives changed in part) exported with links, interrupted and redone""",
     """tests cover the path reduction function only, not the trees that result, nor reruns""",
     ['cdtb/export.py', 'cdtb/tools.py'],
     [('identical files removed from the export', 'cdtb/export.py Exporter.filter_exporter'), ('longest common directories', 'cdtb/export.py reduce_common_paths'),
      ('creation of the links', 'cdtb/export.py CdragonRawPatchExporter._create_symlinks')],
     observe=['output directory tree followed through links', 'previous export directory'])

prop('C12', 'A lazy export completes what is missing and keeps what is done',
     """An export that skips existing files, run after an interrupted export of the same patch, ends with exactly the output of an uninterrupted one, and does not rewrite files
     that were already finished.  At no instant of an export does a final name hold partial output.""",
     ['crash_points', 'histories', 'fault_sequences'],
     """all instants at which the first export is stopped and all error placements""",
     """tests never stop an export; a half-written file that a lazy export then keeps is not reachable""",
     ['cdtb/export.py', 'cdtb/tools.py', 'cdtb/wad.py'],
     [('output files renamed once complete', 'cdtb/tools.py write_file_or_remove'), ('existing outputs skipped', 'cdtb/export.py, cdtb/wad.py extract(overwrite=False)')],
     observe=['output directory', 'modification of finished files'])

prop('C13', 'WAD extraction yields exact files or fails, never partial ones',
     """Extracting a WAD archive yields for each selected entry exactly the data that was packed, for every storage kind and archive version, and however reads are split; if an entry is corrupt or truncated, or a read or write
     fails, the command fails or the entry is absent, and at no instant does an entry's final name hold partial or corrupt data.""",
     ['inputs', 'fault_sequences', 'crash_points'],
     """all archives of the modelled versions and entry kinds; short, failing and corrupted reads; failing writes and kills at any operation""",
     """tests parse fixed headers; no test extracts with failing I/O or corrupted chunks""",
     ['cdtb/wad.py', 'cdtb/tools.py'],
     [('decompression of each storage kind, checked sub-chunks', 'cdtb/wad.py WadFileHeader.read_data'), ('atomic write', 'cdtb/wad.py WadFileHeader.extract, cdtb/tools.py write_file_or_remove')],
     observe=['output directory of `cdtb wad-extract`', 'exit status'])

prop('C14', 'Hash lists are never lost or truncated',
     """Whatever stops or disturbs saving, guessing or updating hash lists (kill, interrupt, network or disk error, short response, full disk), each list on disk is afterwards, and for any process reading it
     meanwhile, either the old complete list or the new complete list. When saving succeeds the file holds exactly the list that was saved, sorted by path, one `hash path` per line.""",
     ['crash_points', 'fault_sequences', 'schedules', 'histories'],
     """all instants of saving, guessing and updating at which the process stops or an operation fails; all interleavings with another process that reads, saves or updates the lists""",
     """tests save to memory or once to a healthy disk""",
     ['cdtb/hashes.py', 'cdtb/tools.py', 'cdtb/__main__.py'],
     [('write to a temporary file, then rename', 'cdtb/hashes.py HashFile.save, update_default_hashfile; cdtb/tools.py write_file_atomic')],
     observe=['hash list files', 'HashFile.load()', '`cdtb hashes-guess`, `cdtb fetch-hashes`'])

prop('C15', 'Hash list updates converge',
     """After a successful update of the hash lists (`fetch-hashes`) each list equals the version the server offers, whatever the clocks of the two machines say and however earlier updates ended; a list that is
     already current is not downloaded again; an update fails only if the network or the disk does. Only a list the user changed after the version on the server was published is kept as it is.""",
     ['histories', 'fault_sequences', 'configurations', 'schedules'],
     """all histories of server changes (also between two requests of one update), updates, interrupted updates, local changes, clock offsets and clock jumps on the client""",
     """tests never contact a server nor move the clock""",
     ['cdtb/hashes.py', 'cdtb/__main__.py'],
     [('comparison of the time of the local file with the time of the server', 'cdtb/hashes.py update_default_hashfile'),
      ('list of the files to update', 'cdtb/__main__.py command_fetch_hashes')],
     observe=['`cdtb fetch-hashes`', 'hash list files', 'HTTP requests'])

prop('C16', 'Interrupting hash guessing loses nothing',
     """When standard error is a terminal, an interrupt (SIGINT) that arrives while candidates are being tried only displays progress, and guessing goes on to the same result as without it; two interrupts within half
     a second during the same iteration stop it, and nothing else does, even if the system clock is changed meanwhile. However an iteration ends (finished, left early, stopped, failed), the interrupt handler
     in place before is back. The hash list on disk is unchanged until the complete result is saved, and the saved list is the old one plus paths whose hashes are entries of the given WADs.
     Guessing over WAD files, or components of a storage, to which nothing happens ends successfully.""",
     ['schedules', 'crash_points', 'inputs'],
     """all instants at which one or several interrupts arrive, all delays between them, all clock changes""",
     """tests deliver no signal""",
     ['cdtb/hashes.py', 'cdtb/tools.py', 'cdtb/__main__.py'],
     [('interrupt handling around the iteration', 'cdtb/hashes.py sigint_callback, progress_iterate, progress_iterator'),
      ('results are saved once complete', 'cdtb/__main__.py command_hashes_guess, cdtb/hashes.py HashGuesser.save')],
     observe=['exit and output of `cdtb hashes-guess`', 'signal.getsignal(SIGINT)', 'hash list files'])

prop('N01', 'Game file formats are parsed as their specification says',
     """Property bins, string tables, skins, textures and atlases decode to the values they encode, and re-encoding gives the same data.""",
     ['inputs'], 'all valid files', 'only a few sample files are covered',
     ['cdtb/binfile.py', 'cdtb/rstfile.py', 'cdtb/sknfile.py', 'cdtb/texfile.py'], [('parsers', 'cdtb/binfile.py and others')])
prop('N02', 'Generated TFT and Arena data reflect the game files',
     """The generated JSON data holds every champion, item, trait and augment of the game files with the values given there.""",
     ['inputs'], 'all game files', 'no test', ['cdtb/tftdata.py', 'cdtb/arenadata.py'], [('transformers', 'cdtb/tftdata.py, cdtb/arenadata.py')])
prop('N03', 'Guessed hashes are right and versions are ordered',
     """Every guessed name hashes to the hash it is given for, and version comparison is a total order consistent with release numbering.""",
     ['inputs'], 'all names, hash sets and versions', 'samples only', ['cdtb/hashes.py', 'cdtb/storage.py'],
     [('hash functions', 'cdtb/hashes.py'), ('BaseVersion', 'cdtb/storage.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
