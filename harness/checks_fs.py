"""Checks of the tree properties C08-C18 (FS.tla, Transfer.tla)."""
import json
import os
import random
import time

from common import *
from vp_names import OWN

SETUP = {'mkdir': 4, 'makedirs': 1, 'write': 4, 'symlink': 3, 'remove': 2}

WEIGHTS = {
    'C08': {'exists': 6, 'isfile': 6, 'isdir': 6, 'islink': 6, 'listdir': 6, 'glob': 6, 'mkdir': 2, 'write': 2,
            'symlink': 3, 'remove': 2, 'move': 1, 'copytree': 1, 'append': 1},
    'C09': {'mkdir': 10, 'makedirs': 10, 'write': 1, 'symlink': 2, 'remove': 3},
    'C10': {'write': 8, 'append': 6, 'read': 6, 'head': 4, 'md5': 3, 'size': 3, 'mkdir': 1, 'symlink': 1, 'remove': 1,
            'copy': 1, 'move': 1},
    'C11': {'remove': 10, 'mkdir': 3, 'write': 2, 'symlink': 3, 'copytree': 1},
    'C12': {'symlink': 6, 'readlink': 4, 'mkdir': 2, 'makedirs': 2, 'write': 3, 'append': 2, 'read': 3, 'md5': 1,
            'size': 1, 'exists': 1, 'isfile': 1, 'isdir': 1, 'islink': 1, 'listdir': 2, 'glob': 1, 'walk': 2,
            'remove': 3, 'copy': 2, 'copytree': 1, 'move': 2, 'mode': 1, 'mtime': 1, 'setexec': 1, 'setmode': 1,
            'isexec': 1, 'copystat': 1, 'setmtime': 1},
    'C13': {'walk': 10, 'mkdir': 2, 'write': 2, 'symlink': 2, 'remove': 1},
    'C14': {'copy': 12, 'mkdir': 1, 'write': 2, 'symlink': 2, 'remove': 1, 'setmode': 1, 'setmtime': 2},
    'C15': {'copytree': 10, 'mkdir': 2, 'write': 2, 'symlink': 2, 'remove': 2, 'setmode': 1, 'setmtime': 1},
    'C16': {'move': 10, 'mkdir': 2, 'write': 3, 'symlink': 2, 'remove': 1, 'setmode': 1, 'setmtime': 1},
    'C17': {'copy': 6, 'copytree': 6, 'move': 5, 'mkdir': 2, 'write': 3, 'symlink': 2, 'remove': 2},
    'C29': {'walk': 3, 'glob': 2, 'makedirs': 3, 'copy': 4, 'copytree': 5, 'move': 4, 'remove': 4, 'md5': 2, 'write': 3,
            'mkdir': 1, 'symlink': 2, 'refused': 2, 'setmtime': 1, 'setexec': 1},
    'C18': {'mode': 3, 'mtime': 3, 'size': 2, 'isexec': 4, 'setexec': 5, 'setmode': 4, 'setmtime': 4, 'linkmode': 2,
            'linkinfo': 1, 'copystat': 4, 'write': 2, 'append': 2, 'mkdir': 1, 'symlink': 2},
}


def worlds(prop):
    if prop == 'C17':
        return [{'L': 'local', 'M': 'memory', 'N': 'memory', 'Z': 'zip'}]
    if prop == 'C29':
        return [{'P': 'plug'}, {'P': 'plain'}, {'P': 'plug', 'Q': 'plug', 'L': 'local', 'M': 'memory'}]
    return [{'L': 'local'}, {'M': 'memory'}]


def random_jobs(ctx, prop, total):
    """total: number of histories over all processes"""
    ws = worlds(prop)
    per = max(1, CPUS // len(ws))
    jobs = []
    for wi, w in enumerate(ws):
        for i in range(per):
            jobs.append({'prop': prop, 'seed': '%d-%d-%d' % (ctx.seed, wi, i), 'mode': 'random',
                         'backends': w, 'common_prefix': len(w) > 1,
                         'histories': max(1, total // (per * len(ws))), 'length': [6, 22],
                         'weights': WEIGHTS[prop], 'budget': ctx.pick(60, 400)})
    return jobs


def run_jobs(ctx, jobs, label):
    procs = []
    traces = []
    pending = list(enumerate(jobs))
    running = []
    while pending or running:
        while pending and len(running) < CPUS:
            i, job = pending.pop(0)
            name = '%s%d' % (label, i)
            d = ctx.dir('w-' + name)
            job['out'] = os.path.join(d, 'trace.ndjson')
            running.append((job, start_worker(ctx, job.get('script', 'fsworker.py'), job, name)))
        job, p = running.pop(0)
        wait_workers([p])
        traces.append(job['out'])
        st = json.load(open(os.path.join(p.vp[3], 'stats.json')))
        ctx.add('calls_recorded', st['ops'])
        ctx.add('cases_not_set_up', st['skipped_cases'])
        if st['cut']:
            ctx.add('jobs_cut_by_time', 1)
    return traces


MODEL = """CONSTANTS
  Ord <- MOrd
  TokSize <- MToks
  Dial <- MDial%(dial)s
  N = {%(names)s}
  Depth = %(depth)d
  MaxNodes = %(nodes)d
  Backends = {%(backends)s}
  Cs <- MCs%(cs)d
  Prop = "%(prop)s"
SPECIFICATION Spec
INVARIANT TypeOK Laws Export
CHECK_DEADLOCK FALSE
"""


def start_model(ctx, dial, depth, nodes, cs=1, names=2, export=True, workers=4, label=''):
    backends = {'L': '"L"', 'M': '"M"', 'X': '"L", "M"'}[dial]
    cfg = write_cfg(ctx, 'FSModel-%s%s.cfg' % (dial, label), MODEL % dict(
        dial=dial, depth=depth, nodes=nodes, backends=backends, cs=cs, prop=ctx.prop,
        names=', '.join('"%s"' % n for n in 'abc'[:names])))
    return start_tlc(ctx, 'FSModel', cfg, env={'EXPORT': '1' if export else '0'}, name='model-%s%s' % (dial, label),
                     workers=workers, heap='3g')


def end_model(ctx, p):
    rc, text = wait_tlc(p)
    if rc != 0:
        raise MachineryError('model check failed (%s):\n%s' % (rc, text[-3000:]))
    distinct, generated = tlc_stats(text)
    ctx.add('states', distinct)
    ctx.add('transitions', generated)
    ctx.add('model_states', distinct)
    data = {'trees': [], 'calls': []}
    for s in printed(text):
        if s.startswith('TREE '):
            data['trees'].append(json.loads(s[5:]))
        elif s.startswith('CALLS '):
            data['calls'] = json.loads(s[6:])
    data['trees'].sort(key=lambda t: json.dumps(t, sort_keys=True))
    data['calls'].sort(key=lambda t: json.dumps(t, sort_keys=True))
    return data


def case_jobs(ctx, dial, data, limit, per):
    """split an export over processes; limit: calls in all"""
    rnd = random.Random('%d-%s' % (ctx.seed, dial))
    total = len(data['trees']) * len(data['calls'])
    share = min(1.0, limit / float(max(1, total)))
    ctx.add('model_calls', total)
    jobs = []
    trees = data['trees']
    rnd.shuffle(trees)
    for i in range(per):
        names = {'a': 'a', 'b': 'b', 'c': 'c'}
        if i:
            names = dict(zip('abc', sorted(rnd.sample(OWN, 3))))
        fn = os.path.join(ctx.scratch, 'cases-%s%d.json' % (dial, i))
        with open(fn, 'w') as f:
            json.dump({'trees': trees[i::per], 'calls': data['calls']}, f)
        os.chmod(fn, 0o644)
        kinds = {'L': 'local' if ctx.prop != 'C29' else 'plug', 'M': 'memory'}
        bs = dict((b, kinds[b]) for b in (dial if dial != 'X' else 'LM'))
        jobs.append({'prop': ctx.prop, 'seed': '%d-%s-%d' % (ctx.seed, dial, i), 'mode': 'cases', 'cases': fn,
                     'backends': bs, 'common_prefix': len(bs) > 1, 'names': names, 'share': share,
                     'budget': ctx.pick(120, 500)})
    return jobs


def fs_check(ctx):
    prop = ctx.prop
    if prop == 'C17':
        models = [('X', start_model(ctx, 'X', 1, 2, workers=CPUS))]
    elif prop == 'C29':
        models = [('L', start_model(ctx, 'L', 2, 3, workers=CPUS))]
    else:
        models = [(d, start_model(ctx, d, 2, 3, cs=1, workers=CPUS // 2)) for d in 'LM']
    jobs = []
    exports = [(dial, end_model(ctx, p)) for dial, p in models]
    limit = ctx.pick(60000, 600000) // len(models)
    for dial, data in exports:
        jobs += case_jobs(ctx, dial, data, limit, CPUS // len(models))
    ctx.cov['model_phase_s'] = round(time.time() - ctx.t0, 1)
    traces = run_jobs(ctx, jobs, 'c')
    traces += run_jobs(ctx, random_jobs(ctx, prop, ctx.pick(1600, 12000)), 'r')
    ctx.cov['execution_phase_s'] = round(time.time() - ctx.t0, 1)
    totals = judge(ctx, 'FSTrace', 'FSTrace.cfg', traces)
    ctx.cov['judged_calls'] = totals.get('judged', 0)
    ctx.cov['undefined_calls'] = totals.get('skipped', 0)
    ctx.add('traces_validated_against_impl', len(traces))
