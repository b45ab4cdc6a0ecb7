"""Check of what is put into memory file systems: C24 (Inject.tla)."""
import json
import os
import random
import time

from common import *
from checks_fs import run_jobs
from checks_reg import dump

MODEL = """CONSTANTS
  Paths <- MPaths
  Depth = %(depth)d
  Measures = {%(measures)s}
SPECIFICATION Spec
INVARIANT Right Export
VIEW View
CHECK_DEADLOCK FALSE
"""
MEASURES = ['whole path', 'removed', 'not swallowed', 'first', 'lock first']
PATHS = [['f'], ['d'], ['d', 'f'], ['m'], ['l'], [], ['k', 'f'], ['d', 'm']]
TWO = ('symlink', 'copy', 'copy_r', 'move', 'copystat')


def model(ctx, label, depth, off=None):
    return write_cfg(ctx, 'InjectModel-%s.cfg' % label,
                     MODEL % {'depth': depth, 'measures': ', '.join('"%s"' % m for m in MEASURES if m != off)})


def inject_check(ctx):
    ps = [(m, start_tlc(ctx, 'InjectModel', model(ctx, 'no%d' % i, 3, m), env={'EXPORT': '0'}, name='no%d' % i, heap='1g'))
          for i, m in enumerate(MEASURES)]
    model_check(ctx, 'InjectModel', model(ctx, 'deep', ctx.pick(4, 6)), env={'EXPORT': '0'}, name='deep')
    text = model_check(ctx, 'InjectModel', model(ctx, 'all', ctx.pick(3, 4)), env={'EXPORT': '1'}, name='all')
    for m, q in ps:
        rc, out = wait_tlc(q)
        if rc != 12:
            raise MachineryError('the model without %s should fail (%s): %s' % (m, rc, out[-1500:]))
        ctx.add('broken_models_refuted', 1)
    out = printed(text)
    space = json.loads([s[6:] for s in out if s.startswith('SPACE ')][0])
    cases = [json.loads(s[5:]) for s in out if s.startswith('HIST ')]
    cases.sort(key=json.dumps)
    rnd = random.Random('inject-%d' % ctx.seed)
    rnd.shuffle(cases)
    cases = cases[:ctx.pick(3000, 40000)]
    ops = sorted(space['single'] + space['compound'])
    grid = []
    for at in PATHS:
        for kind in sorted(space['kinds']):
            for op in ops:
                for p in PATHS:
                    if p != at and rnd.random() > ctx.pick(0.35, 1):
                        continue
                    for q in (PATHS if op in TWO else [[]]):
                        if q in (at, []) or rnd.random() < ctx.pick(0.3, 1):
                            grid.append([at, kind, op, p, q])
    rnd.shuffle(grid)
    ctx.add('model_cases', len(cases) + len(grid))
    ctx.cov['model_phase_s'] = round(time.time() - ctx.t0, 1)
    jobs = [{'prop': ctx.prop, 'seed': '%d-%d' % (ctx.seed, i), 'script': 'injectworker.py',
             'cases': dump(ctx, 'cases%d.json' % i, cases[i::CPUS]), 'grid': dump(ctx, 'grid%d.json' % i, grid[i::CPUS]),
             'histories': ctx.pick(500, 5000)} for i in range(CPUS)]
    traces = run_jobs(ctx, jobs, 'j')
    for i in range(len(jobs)):
        st = json.load(open(os.path.join(ctx.scratch, 'w-j%d' % i, 'stats.json')))
        ctx.add('histories_run', st['runs'])
    ctx.cov['execution_phase_s'] = round(time.time() - ctx.t0, 1)
    totals = judge(ctx, 'InjectTrace', 'InjectTrace.cfg', traces)
    ctx.cov['judged_events'] = totals.get('judged', 0)
    ctx.add('traces_validated_against_impl', totals.get('cases', 0))
    with open(traces[0]) as f:
        lines = f.read().split('\n')
    for line in lines[1:40:8]:
        ctx.sample(line[:300])
    ctx.assumptions += ['the text of dump() and the modes tell whether a tree changed',
                        'callbacks on other paths an operation comes across may run, and end it',
                        'paths whose lock is held are not removed, moved or replaced']
