#!/usr/bin/env python3
"""Decides one property by seeded search over simulated executions of CDTB.

  check.py PROP                     run the check (tier from VERIF_TIER or --tier)
  check.py --replay FILE            re-execute a recorded violation
  check.py PROP --shard I ...       internal: one worker process

Exit status: 0 the property held on everything explored, 1 it is violated (with a
VIOLATION line), 2 the machinery failed (no verdict).
"""
import argparse
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CDTB_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
NSHARDS = 8
PRELOAD = ['PIL.Image', 'PIL.PngImagePlugin', 'PIL.DdsImagePlugin', 'PIL.TgaImagePlugin', 'hachoir.parser', 'hachoir.metadata',
           'hachoir.parser.program', 'concurrent.futures', 'concurrent.futures.thread', 'multiprocessing.pool',
           'multiprocessing.dummy', 'tempfile', 'shutil', 'glob', 'pathlib', 'uuid', 'requests', 'urllib3', 'logging', 'asyncio',
           'subprocess', 'encodings.idna', 'encodings.latin_1', 'encodings.utf_8', 'email.utils', 'ujson', 'json', 'fnmatch', 'zipfile', 'filecmp',
           'difflib', 'secrets', 'urllib.request', 'http.client', 'tarfile', 'queue', 'contextlib', 'mmap', 'struct', 'csv', 'pprint', 'functools', 'dataclasses', 'enum', 'heapq', 'bisect', 'stat', 'errno', 'fcntl', 'calendar', '_strptime']


def hash_seed(seed, shard):
    """PYTHONHASHSEED of a shard: never 0, so that hash order is exercised"""
    h = hashlib.blake2b(f"hash/{seed}/{shard}".encode(), digest_size=4).digest()
    return 1 + int.from_bytes(h, 'little') % 4294967294


def child_env(hashseed):
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'LANG', 'LC_ALL', 'SIM_CPU', 'VERIF_SEED', 'VERIF_TIER', 'CDTB_REPO')}
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=f"{REPO}:{HERE}", HOME='/nonexistent',
               LANG='C.UTF-8', PYTHONUTF8='1', TZ='UTC', CDTB_HASHES_DIR='home/hashes', CDTB_DST='1')
    return env


def setup_sim():
    """Import the code under test and install the simulator around it"""
    import gc
    import importlib
    sys.path[:0] = [p for p in (REPO, HERE) if p not in sys.path]
    import cdtb
    if os.path.dirname(os.path.dirname(os.path.abspath(cdtb.__file__))) != os.path.abspath(REPO):
        raise RuntimeError(f"cdtb imported from {cdtb.__file__}, expected {REPO}")
    import cdtb.__main__
    import pkgutil
    for m in pkgutil.iter_modules(cdtb.__path__):
        importlib.import_module('cdtb.' + m.name)
    for m in PRELOAD:
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    from sim import proc, engine
    proc.install()
    engine.load_worlds()
    gc.collect()
    gc.freeze()


def load_known():
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get('findings', [])


# ---- worker ------------------------------------------------------------------

def shard_main(args):
    setup_sim()
    from sim import engine, proc
    from worlds import base
    from props.registry import PROPS
    spec = PROPS[args.prop]
    t0 = time.monotonic()
    s = engine.Search(args.prop, spec, args.seed, int(os.environ['PYTHONHASHSEED']), t0 + args.seconds,
                      [k for k in load_known() if k['property'] == args.prop])
    finding = None
    try:
        index = args.shard
        while index < args.count:
            if time.monotonic() > s.deadline:
                s.cut = True
                break
            f = s.run_index(index)
            if f is not None:
                plan, v, spent = engine.minimise(f, args.prop, seconds=args.minimise)
                w = engine.execute(plan, record=True)
                v2 = engine.own(w, args.prop)
                finding = {'index': index, 'plan': plan, 'violation': v2 or v, 'original_plan': f['plan'],
                           'original_violation': f['violation'], 'minimise_runs': spent, 'digest': w.digest.hexdigest(),
                           'log': w.log[-30:]}
                break
            index += NSHARDS
    finally:
        base.cleanup_scratch()
    st = s.stats
    res = dict(finding=finding, runs=s.runs, bases=s.bases, fault_runs=s.fault_runs, plans=sorted(s.plans), samples=s.samples,
               by_world=s.by_world, other=s.other, recheck=s.recheck, known_hits=s.known_hits, cut=s.cut,
               incarnations=st.incarnations, events=st.events, sim_s=st.sim_s, fired=st.fired, digests=sorted(st.digests),
               ils=sorted(st.ils), probe=st.probe, statuses=st.statuses, switches=st.switches, requests=st.requests,
               unfired=st.unfired, wall=time.monotonic() - t0)
    with open(args.out, 'w') as f:
        json.dump(res, f)


# ---- replay --------------------------------------------------------------------

def replay_main(path, verbose=True):
    with open(path) as f:
        rep = json.load(f)
    if os.environ.get('PYTHONHASHSEED') != str(rep['plan']['hashseed']) or os.path.realpath(sys.executable) != os.path.realpath(PYTHON):
        os.execve(PYTHON, [PYTHON, os.path.abspath(__file__), '--replay', os.path.abspath(path)], child_env(rep['plan']['hashseed']))
    setup_sim()
    from sim import engine
    from worlds import base
    try:
        w = engine.execute(rep['plan'], record=True)
    finally:
        base.cleanup_scratch()
    v = engine.own(w, rep['property'])
    if verbose:
        for line in w.log:
            print('  ' + line[:600])
        if w.recorded:
            r = w.recorded[-1]
            print(f"  last {min(25, len(r.trace))} of {len(r.trace)} events of the last command:")
            for line in r.trace[-25:]:
                print('    ' + line)
    same = w.digest.hexdigest() == rep.get('digest')
    print(f"digest {w.digest.hexdigest()} ({'same as' if same else 'different from'} the recorded one)")
    if v is not None and v['cls'] == rep['violation']['cls']:
        print(f"VIOLATION property={rep['property']} replay={path}")
        print(f"  {v['cls']}: {v['msg']}")
        return 1
    print("not reproduced" if v is None else f"another violation: {v}")
    return 0


# ---- parent ---------------------------------------------------------------------

REAL = ["cdtb (all code under test)", "requests, urllib3, http.client (above the socket)", "multiprocessing.pool, queue, threading, concurrent.futures (Python parts)",
        "io buffered and text layers", "pyzstd, zlib, gzip, xxhash, ujson, Pillow, hachoir", "tmpfs holding the state that survives a kill"]
STUB = ["threads' locks and start (simulated, scheduler decides)", "sockets and TLS (replaced by a simulated network)", "Riot's and CommunityDragon's servers (models)",
        "clocks and sleeps (simulated)", "raw file layer and os calls (real tmpfs behind fault points)", "entropy, process ids, directory order (seeded)"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--shard', type=int)
    ap.add_argument('--count', type=int)
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--minimise', type=float, default=60)
    ap.add_argument('--out')
    args = ap.parse_args()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    if args.replay:
        sys.exit(replay_main(args.replay))
    if args.shard is not None:
        shard_main(args)
        return
    sys.exit(check(args))


def check(args):
    t0 = time.time()
    prop = args.prop
    sys.path.insert(0, HERE)
    with open(os.path.join(HERE, 'props', 'budget.json')) as f:
        budget = json.load(f)
    b = budget.get(prop, budget['default'])
    count = args.count or b[args.tier]
    seconds = args.seconds or (420 if args.tier == 'quick' else b.get('thorough_seconds', 3000))
    tmp = tempfile.mkdtemp(prefix='cdtb-check-')
    procs = []
    for i in range(NSHARDS):
        out = os.path.join(tmp, f"shard{i}.json")
        err = open(os.path.join(tmp, f"shard{i}.err"), 'wb')
        cmd = [PYTHON, os.path.join(HERE, 'check.py'), prop, '--shard', str(i), '--count', str(count), '--seed', str(args.seed),
               '--seconds', str(seconds), '--minimise', str(args.minimise), '--out', out]
        procs.append((i, out, err, subprocess.Popen(cmd, env=child_env(hash_seed(args.seed, i)), cwd=HERE, stdout=err, stderr=err, stdin=subprocess.DEVNULL,
                                                    start_new_session=True)))
    hard = time.time() + seconds + 240
    results, errors = [], []
    try:
        for i, out, err, p in procs:
            try:
                p.wait(max(1, hard - time.time()))
            except subprocess.TimeoutExpired:
                errors.append(f"shard {i}: no answer after {seconds + 240:.0f} s")
                continue
            if p.returncode != 0 or not os.path.exists(out):
                err.flush()
                with open(err.name, 'rb') as f:
                    errors.append(f"shard {i}: exit {p.returncode}\n" + f.read()[-3000:].decode('utf-8', 'replace'))
                continue
            with open(out) as f:
                results.append(json.load(f))
    finally:
        for i, out, err, p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
            err.close()
            import glob
            import shutil
            for d in glob.glob(f"/dev/shm/cdtb-dst-{p.pid:08d}-*") + glob.glob(os.path.join(tempfile.gettempdir(), f"cdtb-dst-{p.pid:08d}-*")):
                shutil.rmtree(d, ignore_errors=True)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    # a violation stands whatever happened to other shards
    findings = sorted((r['finding'] for r in results if r['finding']), key=lambda f: f['index'])
    status = 0
    lines = []
    rep_path = None
    if findings:
        f = findings[0]
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        status = 2
        for plan, v, digest, kind in ((f['plan'], f['violation'], f['digest'], 'min'), (f['original_plan'], f['original_violation'], None, 'full')):
            rep_path = os.path.join(rdir, f"{prop}-{args.seed}-{f['index']}{'' if kind == 'min' else '-full'}.json")
            with open(rep_path, 'w') as fo:
                json.dump({'property': prop, 'violation': v, 'plan': plan, 'digest': digest, 'log': f['log'], 'minimised': kind == 'min',
                           'minimise_runs': f['minimise_runs']}, fo, indent=1)
            p = subprocess.run([PYTHON, os.path.join(HERE, 'check.py'), '--replay', rep_path], env=child_env(plan['hashseed']), cwd=HERE,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            if p.returncode == 1:
                status = 1
                lines.append(f"violation {v['cls']}: {v['msg']}")
                for line in f['log'][-6:]:
                    lines.append('  ' + line[:500])
                for op in plan['ops']:
                    if op.get('faults'):
                        lines.append(f"  faults in {op.get('cmd', op['op'])}: {op['faults']}")
                lines.append(f"VIOLATION property={prop} replay={rep_path}")
                break
            errors.append(f"replay of {rep_path} does not reproduce:\n" + p.stdout.decode('utf-8', 'replace')[-2000:])
    elif errors:
        status = 2
    write_evidence(args, results, findings, errors, time.time() - t0, count)
    for k in load_known():
        if k['property'] == prop:
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    for e in errors if status == 2 else ():
        print("ERROR " + e, file=sys.stderr)
    for line in lines:
        print(line)
    tot = sum(r['runs'] for r in results)
    print(f"{prop} {args.tier} seed={args.seed}: {tot} simulated runs, {sum(r['incarnations'] for r in results)} processes, "
          f"{sum(sum(r['fired'].values()) for r in results)} faults fired, {time.time() - t0:.1f} s -> exit {status}")
    return status


def write_evidence(args, results, findings, errors, wall, count):
    def total(k):
        return sum(r[k] for r in results)

    def merged(k):
        d = {}
        for r in results:
            for a, n in r[k].items():
                d[a] = d.get(a, 0) + n
        return dict(sorted(d.items()))

    def distinct(k):
        s = set()
        for r in results:
            s |= set(r[k])
        return len(s)
    runs = total('runs')
    hours = max(wall, 0.001) / 3600
    samples = [s for r in results for s in r['samples']][:3]
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': distinct('plans'),
        'rule': "A run is one seeded history of commands (content, knobs, schedule policy drawn from the seed), executed without faults and then with faults "
                "placed on events recorded in it; every run starts from an empty directory. Runs are distinct when the digest over the events, thread switches, faults and "
                "results of all its processes differs; each contains at least one command of the code under test run to an end or a kill.",
        'samples': samples,
        'base_histories': total('bases'),
        'fault_runs': total('fault_runs'),
        'seeds': f"indices 0..{count - 1} of VERIF_SEED={args.seed}, {NSHARDS} worker processes with their own PYTHONHASHSEED",
        'simulated_processes': total('incarnations'),
        'runs_per_hour': round(runs / hours),
        'seeds_per_hour': round(total('bases') / hours),
        'simulated_seconds': round(total('sim_s'), 1),
        'events': total('events'),
        'thread_switches': total('switches'),
        'distinct_interleavings': distinct('ils'),
        'distinct_interleavings_measure': "digest of the sequence of thread switches with the event number at which each happened, per simulated process with more than one thread",
        'distinct_process_traces': distinct('digests'),
        'faults_fired': merged('fired'),
        'faults_planned_not_reached': total('unfired'),
        'process_endings': merged('statuses'),
        'http_requests': total('requests'),
        'probes': merged('probe'),
        'runs_by_world': merged('by_world'),
        'determinism_rechecks': [sum(r['recheck'][0] for r in results), sum(r['recheck'][1] for r in results)],
        'violations_of_other_properties_seen': merged('other'),
        'cut_by_time': sum(1 for r in results if r['cut']),
        'real_components': REAL,
        'stubbed_components': STUB,
        'known_findings_met': merged('known_hits'),
    }
    doc = {
        'property': args.prop, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration', 'coverage': cov,
        'assumptions': ["A kill preserves everything already handed to the kernel (process kill, not power loss).",
                        "HTTP responses are either correct, an error status, or cut short in a way HTTP framing reveals.",
                        "Riot's and CommunityDragon's servers behave as the models in worlds/ do."],
        'wall_s': round(wall, 2), 'violations': len(findings),
    }
    if errors:
        doc['errors'] = [e[:500] for e in errors]
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{args.prop}.json"), 'w') as f:
        json.dump(doc, f, indent=1)


if __name__ == '__main__':
    main()
