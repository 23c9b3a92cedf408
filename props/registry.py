"""Which simulations decide which property, and how many of them"""
from worlds import export, guess, hashes, patcher, rads, wads

NETDISK = {'net': 40, 'disk': 35, 'short': 10, 'read': 5, 'rmdisk': 2, 'stop': 5, 'clock': 3}
KILLS = {'kill': 80, 'sigint': 20}
EVERYTHING = {'kill': 35, 'sigint': 10, 'net': 25, 'disk': 20, 'short': 4, 'read': 3, 'stop': 2, 'clock': 1}
STOPS = {'kill': 55, 'sigint': 12, 'net': 16, 'disk': 12, 'short': 3, 'read': 2}
EXPORTF = {'kill': 40, 'sigint': 10, 'disk': 28, 'short': 4, 'read': 10, 'rmdisk': 4, 'net': 3, 'stop': 1}


def export_site(c):
    """Sites of the export itself, rather than of the download before it"""
    return ' export/' in c or ' deep/' in c


def lookup_site(c):
    """Sites of the lookup of a RADS patch version"""
    return any(x in c for x in ('packagemanifest', 'solutionmanifest', 'releaselisting', '_patch_version'))


PROPS = {
    'C01': {
        'profiles': [
            {'gen': patcher.gen, 'families': EVERYTHING, 'variants': 5},
        ],
    },
    'C02': {
        'profiles': [{'gen': patcher.gen, 'families': STOPS, 'variants': 7},
                     {'weight': 0.5, 'gen': rads.gen, 'families': STOPS, 'variants': 7}],
    },
    'C03': {
        'profiles': [{'gen': patcher.gen, 'families': NETDISK, 'variants': 6},
                     {'gen': rads.gen, 'families': NETDISK, 'variants': 7},
                     {'weight': 0.7, 'gen': wads.gen, 'families': NETDISK, 'variants': 7},
                     {'weight': 1.0, 'gen': export.gen, 'families': NETDISK, 'variants': 6, 'prefer': export_site},
                     {'weight': 0.3, 'gen': hashes.gen, 'families': NETDISK, 'variants': 8}],
    },
    'C04': {
        'profiles': [{'gen': patcher.gen, 'families': EVERYTHING, 'variants': 6},
                     {'weight': 0.6, 'gen': rads.gen, 'families': EVERYTHING, 'variants': 7},
                     {'weight': 0.4, 'gen': export.gen, 'families': EXPORTF, 'variants': 6, 'prefer': export_site},
                     {'weight': 0.2, 'gen': wads.gen, 'families': EXPORTF, 'variants': 6},
                     {'weight': 0.3, 'gen': hashes.gen, 'families': EVERYTHING, 'variants': 7}],
    },
    'C05': {
        'profiles': [{'gen': patcher.gen, 'families': {'kill': 50, 'clock': 20, 'net': 10, 'disk': 15, 'sigint': 5}, 'variants': 5}],
    },
    'C06': {
        'profiles': [{'gen': patcher.gen, 'families': EVERYTHING, 'variants': 5},
                     {'weight': 0.5, 'gen': rads.gen, 'families': EVERYTHING, 'variants': 6}],
    },
    'C07': {
        'profiles': [{'gen': patcher.gen_concurrent, 'families': {'kill': 40, 'net': 20, 'disk': 20, 'sigint': 10, 'stop': 10}, 'variants': 4},
                     {'weight': 0.5, 'gen': rads.gen_concurrent, 'families': {'kill': 40, 'net': 20, 'disk': 20, 'sigint': 10, 'stop': 10}, 'variants': 5},
                     {'weight': 0.25, 'gen': export.gen_concurrent, 'families': {'kill': 40, 'net': 10, 'disk': 25, 'read': 10, 'sigint': 10, 'stop': 5}, 'variants': 4}],
    },
    'C08': {
        'profiles': [{'gen': rads.gen, 'families': EVERYTHING, 'variants': 6}],
    },
    'C09': {
        'profiles': [{'gen': rads.gen, 'families': dict(EVERYTHING, net=40, status=50), 'variants': 7, 'prefer': lookup_site}],
    },
    'C13': {
        'profiles': [{'gen': wads.gen, 'families': {'kill': 35, 'sigint': 10, 'disk': 30, 'short': 6, 'read': 15, 'rmdisk': 2, 'stop': 2}, 'variants': 6}],
    },
    'C10': {
        'profiles': [{'gen': export.gen, 'families': EXPORTF, 'variants': 5, 'prefer': export_site}],
    },
    'C11': {
        'profiles': [{'gen': export.gen, 'families': EXPORTF, 'variants': 5, 'prefer': export_site}],
    },
    'C12': {
        'profiles': [{'gen': export.gen, 'families': EXPORTF, 'variants': 5, 'prefer': export_site},
                     {'weight': 0.4, 'gen': wads.gen, 'families': EXPORTF, 'variants': 6}],
    },
    'C14': {
        'profiles': [{'gen': hashes.gen, 'families': {'kill': 35, 'sigint': 10, 'disk': 30, 'net': 20, 'short': 5, 'read': 3, 'stop': 2}, 'variants': 7},
                     {'weight': 0.3, 'gen': guess.gen, 'families': {'kill': 40, 'sigint': 15, 'disk': 35, 'short': 5, 'read': 5}, 'variants': 4}],
    },
    'C15': {
        'profiles': [{'gen': hashes.gen, 'families': {'kill': 30, 'sigint': 5, 'clock': 20, 'net': 20, 'missing': 12, 'disk': 15, 'rmdisk': 4, 'read': 2, 'stop': 6}, 'variants': 7}],
    },
    'C16': {
        'profiles': [{'gen': guess.gen, 'families': {'kill': 20, 'sigint': 20, 'disk': 25, 'read': 30, 'rmdisk': 3}, 'variants': 2}],
    },
}
