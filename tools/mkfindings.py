#!/usr/bin/env python3
"""Writes /verif/known_findings.json: the defects repaired in /repo, and those recorded as known (none)"""
import json
import os

FIXED = [
    ('C01', '25ee1f2', "`cdtb download --lang fr_FR` selected no language file at all (a list of languages was compared with a file's languages as a whole)"),
    ('C02', 'f4d82ad', "a kill while writing left a partial file under its final name, which later commands took for complete"),
    ('C02', 'ece1ecf', "a kill during a patcher or RADS download left partial manifests, bundles and extracted files; a failed rewrite removed a complete file"),
    ('C04', 'a1cb566', "a kill while writing a version cache left an empty cache, after which every listing failed"),
    ('C04', '4d2e009', "a first download stopped before anything was stored made every rerun fail because the storage type could not be guessed"),
    ('C05', 'f602dc9', "releases recorded in the same second, or after the clock went backward, overwrote or preceded older ones"),
    ('C08', '409f4f8', "`--lang` with a language name failed with KeyError for RADS storages, which know locale names only"),
    ('C08', '206f43a', "empty files of RADS packages were not extracted, or made the download fail, depending on their order in the manifest"),
    ('C13', 'e077fd7', "an entry cut short by the end of a truncated WAD was extracted, partially, as a complete file"),
    ('C03', 'dc727d2', "a write error of a converted image was reported as a conversion error and the export succeeded without the file"),
    ('C10', '5666e27', "`--from` exported nothing of WADs whose version stores no checksums, since all their entries compare equal"),
    ('C10', '1ef1b2b', "the list of exported files held \"cdragon\", the directory of the tool's own files, on a second export"),
    ('C10', '21fc6d8', "`--from` failed when the patch to export was not given by version"),
    ('C03', '39d79d5', "a read error of an image being converted was reported as a conversion error and the export succeeded without the file"),
    ('C12', 'ea10917', "an interrupted export left partial directories of .skn objects, which lazy exports kept as complete"),
    ('C04', '0d37ef1', "an empty directory left by an interrupted clean-up was never removed and made every later export with links fail"),
    ('C11', 'bcee9ab', "links to a previous patch were not updated when that patch had been exported again with links"),
    ('C11', '39c3f3e', "the list of links was kept from an earlier export when the new one has no link"),
    ('C10', '0adddc3', "`--from` failed when the sources of TFT or Arena data were unchanged but other files were not"),
    ('C10', '352c20d', "an outdated image stayed in the output when its .tex could not be converted any more"),
    ('C11', '8967513', "`--symlinks` failed with KeyError for unchanged files whose location differs between the two patches (14.3 to 14.4)"),
    ('C07', 'd2f47be', "a download failed when another process extracted the same symlink at the same time"),
    ('C07', '3aefbc0', "a temporary path left by a killed process made a later process with the same PID fail"),
    ('C07', '857397f', "processes with the same PID (containers sharing a storage) used the same temporary names and corrupted each other's files"),
    ('C14', '54808ff', "a failed update of a hash list removed the current list"),
    ('C14', '9cdb9d8', "a list was truncated when the process was stopped or the disk full while saving it"),
    ('C15', '225bc07', "with a local clock ahead of the server's, lists downloaded before a new version was published were never updated"),
    ('C16', '0a97c79', "when the system clock was set back, an interrupt that should only display progress stopped the guessing and lost its results"),
    ('C12', '40764a4', "an export killed while replacing the directory of a .skn object left a partial directory that lazy exports kept as complete"),
    ('C05', 'ea6308e', "after an update interrupted before `latest.timestamp`, a release was recorded twice, or a rollback to the previous release was ignored"),
    ('C01', 'ee314f1', "`--patchline` was ignored when no storage is given: the live patch was downloaded (or listed) in place of the PBE one"),
    ('C16', '24deac8', "`hashes-guess` failed with AttributeError when given a single element (`client=` or `game=`)"),
    ('C10', '22ce9df', "when the conversion of a file failed and its previous version could not be removed, the export succeeded with the outdated file"),
]
FINDINGS = []

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
    with open(out, 'w') as f:
        json.dump({'findings': FINDINGS, 'fixed': [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]}, f, indent=1)
        f.write('\n')
