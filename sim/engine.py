"""Executes plans, searches for violations, minimises them"""
import copy
import json
import time

from worlds import base
from worlds.base import Stats, rng_for

WORLDS = {}


def load_worlds():
    import importlib
    for name in ('patcher', 'rads', 'wads', 'export', 'hashes', 'guess'):
        try:
            m = importlib.import_module('worlds.' + name)
        except ModuleNotFoundError as e:
            if e.name != 'worlds.' + name:
                raise
            continue
        for v in vars(m).values():
            if isinstance(v, type) and issubclass(v, base.World) and v is not base.World and v.__module__ == m.__name__:
                WORLDS[v.name] = v


def execute(plan, stats=None, record=False):
    """Run a plan from an empty scratch directory"""
    w = WORLDS[plan['world']](plan, stats if stats is not None else Stats(), record)
    return w.execute()


def own(world, prop):
    """First violation of the property among those of an execution"""
    for v in world.violations:
        if v['prop'] == prop:
            return v
    return None


def fault_variant(rng, plan, recorded, profile):
    """A copy of the plan with faults placed on the recorded events of its target commands"""
    p = copy.deepcopy(plan)
    cmds = [i for i, op in enumerate(p['ops']) if op['op'] in ('cmd', 'concurrent')]
    targets = [(k, i) for k, i in enumerate(cmds) if p['ops'][i].get('target') and k < len(recorded)]
    if not targets:
        return None
    nt = 1 if rng.random() < 0.8 else 2
    chosen = rng.sample(targets, min(nt, len(targets)))
    placed = 0
    for k, i in sorted(chosen):
        nf = rng.choices([1, 2, 3], profile.get('nfaults', [70, 22, 8]))[0]
        prefer = profile.get('prefer')
        focus = p['ops'][i].get('focus')
        if focus and rng.random() < 0.4:
            def prefer(c, focus=tuple(focus)):
                return c.startswith(focus)
        fs = base.place_faults(rng, recorded[k].sites, profile['families'], nf, profile.get('only'), prefer, WORLDS[plan['world']].veto)
        if fs:
            p['ops'][i]['faults'] = fs
            placed += len(fs)
            for j in range(i + 1, len(p['ops'])):
                p['ops'][j]['after_fault'] = True
    # another schedule than the recorded one, sometimes
    for op in p['ops']:
        if op['op'] in ('cmd', 'concurrent') and rng.random() < 0.3:
            op['sseed'] = rng.randrange(1 << 20)
    return p if placed else None


def second_fault(rng, plan, recorded, profile):
    """Add a fault to the command that recovers from the first one"""
    p = copy.deepcopy(plan)
    cmds = [i for i, op in enumerate(p['ops']) if op['op'] in ('cmd', 'concurrent')]
    for k, i in enumerate(cmds):
        op = p['ops'][i]
        if op.get('rerun') and op.get('after_fault') and not op.get('faults') and k < len(recorded):
            fs = base.place_faults(rng, recorded[k].sites, profile['families'], 1, profile.get('only'), profile.get('prefer'), WORLDS[plan['world']].veto)
            if not fs:
                return None
            op['faults'] = fs
            op = copy.deepcopy(op)
            again = {x: v for x, v in op.items() if x != 'faults'}
            p['ops'].insert(i + 1, again)
            return p
    return None


class Search:
    """Seeded search of one shard"""

    def __init__(self, prop, spec, seed, hashseed, deadline, known=()):
        self.prop, self.spec, self.seed, self.hashseed = prop, spec, seed, hashseed
        self.deadline = deadline
        self.stats = Stats()
        self.runs = 0
        self.bases = 0
        self.plans = set()
        self.samples = []
        self.by_world = {}
        self.fault_runs = 0
        self.other = {}
        self.recheck = [0, 0]
        self.known = known
        self.known_hits = {}
        self.cut = False

    def gen(self, index):
        rng = rng_for('gen', self.seed, self.prop, index)
        profs = self.spec['profiles']
        prof = rng.choices(profs, [p.get('weight', 1) for p in profs])[0]
        plan = prof['gen'](rng, self.prop)
        plan['prop'] = self.prop
        plan['seed'] = f"{self.seed}-{index}"
        plan['hashseed'] = self.hashseed
        return rng, prof, plan

    def _exec(self, plan, record=False):
        self.runs += 1
        w = execute(plan, self.stats, record)
        self.by_world[plan['world']] = self.by_world.get(plan['world'], 0) + 1
        self.plans.add(w.digest.hexdigest())
        for v in w.violations:
            if v['prop'] != self.prop:
                k = f"{v['prop']}:{v['cls']}"
                self.other[k] = self.other.get(k, 0) + 1
        if len(self.samples) < 3 and (plan['ops'] and any(op.get('faults') for op in plan['ops'])):
            self.samples.append({'plan': plan, 'log': w.log[:12]})
        return w

    def judge(self, plan, w):
        v = own(w, self.prop)
        if v is None:
            return None
        for k in self.known:
            if k['property'] == self.prop and k['cls'] == v['cls'] and k.get('match', '') in v['msg']:
                self.known_hits[k['id']] = self.known_hits.get(k['id'], 0) + 1
                return None
        return {'plan': plan, 'violation': v, 'world': w}

    def run_index(self, index):
        """Base execution and its fault variants. Return the first violation found"""
        rng, prof, plan = self.gen(index)
        self.bases += 1
        w = self._exec(plan, record=True)
        f = self.judge(plan, w)
        if f:
            return f
        if self.own_broken(w):
            return None     # known finding: no variants
        recorded = w.recorded
        if index % 16 == 3:
            d = w.digest.hexdigest()
            w2 = execute(plan, Stats(), True)
            self.recheck[0] += 1
            if w2.digest.hexdigest() != d:
                self.recheck[1] += 1
        for v in range(prof.get('variants', 4)):
            if time.monotonic() > self.deadline:
                self.cut = True
                return None
            p = fault_variant(rng, plan, recorded, prof)
            if p is None:
                continue
            double = rng.random() < prof.get('double', 0.25)
            self.fault_runs += 1
            w = self._exec(p, record=double)
            f = self.judge(p, w)
            if f:
                return f
            if double:
                p2 = second_fault(rng, p, w.recorded, prof)
                if p2 is not None:
                    self.fault_runs += 1
                    w = self._exec(p2)
                    f = self.judge(p2, w)
                    if f:
                        return f
        return None

    def own_broken(self, w):
        return own(w, self.prop) is not None


# ---- minimisation --------------------------------------------------------

def minimise(finding, prop, budget=80, seconds=60):
    """Smaller plan with a violation of the same class"""
    t_end = time.monotonic() + seconds
    cls = finding['violation']['cls']
    best = copy.deepcopy(finding['plan'])
    best_v = finding['violation']
    spent = [0]

    def attempt(plan):
        nonlocal best, best_v
        if spent[0] >= budget or time.monotonic() > t_end:
            return False
        spent[0] += 1
        try:
            w = execute(plan)
        except Exception:
            return False
        v = own(w, prop)
        if v is not None and v['cls'] == cls:
            best, best_v = plan, v
            return True
        return False

    # drop what comes after the violating operation
    op_i = best_v['op']
    if op_i < len(best['ops']) - 1:
        p = copy.deepcopy(best)
        p['ops'] = p['ops'][:op_i + 1]
        attempt(p)
    # drop operations
    changed = True
    while changed and spent[0] < budget:
        changed = False
        i = len(best['ops']) - 1
        while i >= 0 and spent[0] < budget:
            if i < len(best['ops']):
                p = copy.deepcopy(best)
                del p['ops'][i]
                if attempt(p):
                    changed = True
            i -= 1
    # drop faults
    for i in range(len(best['ops'])):
        j = len(best['ops'][i].get('faults', ())) - 1
        while j >= 0:
            p = copy.deepcopy(best)
            del p['ops'][i]['faults'][j]
            attempt(p)
            j -= 1
    # simplest schedule, or explicit preemptions
    for i, op in enumerate(best['ops']):
        if op['op'] in ('cmd', 'concurrent') and op.get('policy', {}).get('name', 'default') != 'default':
            p = copy.deepcopy(best)
            p['ops'][i]['policy'] = {'name': 'default'}
            p['ops'][i].pop('sseed', None)
            attempt(p)
    # plain knobs
    for k, v in (('bufsize', 8192), ('short_reads', False), ('p_chunked', 0.0), ('p_gzip', 0.0), ('tty', False), ('dir_seed', 0)):
        if best['params'].get(k) not in (None, v):
            p = copy.deepcopy(best)
            p['params'][k] = v
            attempt(p)
    # remaining schedules: explicit list of preemptions, then fewer of them
    for i, op in enumerate(best['ops']):
        if op['op'] in ('cmd', 'concurrent') and op.get('policy', {}).get('name', 'default') != 'default' and not op.get('choices'):
            w = execute(best)
            cmds = [k for k, o in enumerate(best['ops']) if o['op'] in ('cmd', 'concurrent')]
            k = cmds.index(i)
            if k >= len(w.recorded):
                continue
            ch = w.recorded[k].choices
            p = copy.deepcopy(best)
            p['ops'][i]['choices'] = {str(a): b for a, b in ch.items()}
            if not attempt(p):
                continue
            n = 2
            keys = sorted(best['ops'][i]['choices'], key=int)
            while keys and spent[0] < budget:
                size = max(1, len(keys) // n)
                reduced = False
                for s in range(0, len(keys), size):
                    sub = keys[:s] + keys[s + size:]
                    p = copy.deepcopy(best)
                    p['ops'][i]['choices'] = {a: best['ops'][i]['choices'][a] for a in sub}
                    if attempt(p):
                        keys = sub
                        reduced = True
                        break
                    if spent[0] >= budget:
                        break
                if not reduced:
                    if size == 1:
                        break
                    n = min(len(keys), n * 2)
    return best, best_v, spent[0]
