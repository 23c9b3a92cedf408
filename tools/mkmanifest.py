#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have a check"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'N01': "Decoding a file held in memory is a pure function of its bytes: no schedule, clock, I/O or fault is involved, so simulation has nothing to decide.",
    'N02': "The generated data is a pure function of the exported files; nothing in it depends on scheduling, time or faults.",
    'N03': "Hash functions, guess soundness and version ordering are pure functions of their arguments.",
}
NOTES = {
    'C01': "Seeded sampling of schedules, faults and histories against a model of Riot's servers that knows every file's content.",
    'C02': "Kills, interrupts and torn writes placed on recorded events; every finished name in the storage is compared with the model after each stop.",
    'C03': "Errors placed on recorded requests and file operations of all commands; a successful exit is compared with the complete expected result.",
    'C04': "Each disturbed run is followed by an undisturbed rerun whose exit and result are compared with the model.",
    'C05': "Histories with publications, clock jumps and kills; listings are compared with a reference list of recorded releases.",
    'C06': "Every request reaching the simulated servers is compared with what the storage already held and with the bundles the model says are needed.",
    'C07': "Two simulated processes interleaved by the seeded scheduler at file operations and requests, with faults in one of them.",
    'C08': "RADS package data delivered in seeded piece sizes with faults; stored files compared with the model.",
    'C09': "Listings compared with a reference model after histories with interrupted lookups.",
    'C10': "Export trees compared with the model after histories with leftovers, kills and errors.",
    'C11': "Trees read through links compared with the model of the full export; previous export compared with its snapshot.",
    'C12': "Kills and errors placed in exports, followed by lazy reruns compared with the model.",
    'C13': "Archives encoded by an independent writer; extraction with failing, short and corrupting reads and failing writes.",
    'C14': "Kills and errors placed on recorded operations of saving and updating; lists compared with the old and new versions.",
    'C15': "Histories of updates with clock offsets between the simulated client and server; lists compared with the server's.",
    'C16': "Interrupts placed by the scheduler on executed lines and events of guessing; results compared with the undisturbed run.",
}


def main():
    sys.path.insert(0, HERE)
    with open(os.path.join(HERE, 'props', 'claimed.json')) as f:
        claimed = json.load(f)
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        props = [json.loads(x) for x in f]
    doc = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [],
           'notes': "No hooks in /repo are needed: the simulator replaces locks, clocks, sockets and file operations from outside. known_findings.json lists what was fixed and found."}
    for p in props:
        i = p['id']
        if i in claimed:
            doc['checks'].append({
                'property': i, 'quick_cmd': f"python3 check.py {i}", 'thorough_cmd': f"python3 check.py {i} --tier thorough",
                'evidence_file': f"evidence/{i}.json", 'technique': 'deterministic simulation with fault injection (seeded search)',
                'level': 'exploration',
                'level_note': NOTES[i] + " Sampling, not proof; assumes process kills (not power loss), errors as described in DESIGN.md, and the server models."})
        else:
            doc['not_applicable'].append({'property': i, 'reason': NA.get(i, "Not claimed yet: its simulated world is still being built.")})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


main()
