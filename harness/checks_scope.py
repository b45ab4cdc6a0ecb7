"""Check of the scoped helpers: C26 (Scope.tla)."""
import json
import os
import random
import time

from common import *
from checks_fs import run_jobs
from checks_reg import dump

MEASURES = ('Stack', 'Clean', 'Closed', 'Absolute', 'Appending', 'Refusing')
MODEL = """CONSTANTS
  MaxOps = %(ops)d
  Stack = %(Stack)s
  Clean = %(Clean)s
  Closed = %(Closed)s
  Absolute = %(Absolute)s
  Appending = %(Appending)s
  Refusing = %(Refusing)s
SPECIFICATION Spec
INVARIANT %(inv)s
VIEW View
CHECK_DEADLOCK FALSE
"""


def model(ctx, label, ops, inv, off=None):
    d = dict((m, 'FALSE' if m == off else 'TRUE') for m in MEASURES)
    return write_cfg(ctx, 'ScopeModel-%s.cfg' % label, MODEL % dict(d, ops=ops, inv=inv))


def scope_check(ctx):
    ps = [(m, start_tlc(ctx, 'ScopeModel', model(ctx, 'no' + m, 5, 'Right', m), env={'EXPORT': '0'}, name='no' + m, heap='1g'))
          for m in MEASURES]
    model_check(ctx, 'ScopeModel', model(ctx, 'deep', ctx.pick(7, 9), 'Right Nested'), env={'EXPORT': '0'}, name='deep')
    text = model_check(ctx, 'ScopeModel', model(ctx, 'all', ctx.pick(5, 6), 'Right Export'), env={'EXPORT': '1'}, name='all')
    for m, q in ps:
        rc, out = wait_tlc(q)
        if rc != 12:
            raise MachineryError('the model without %s should fail (%s): %s' % (m, rc, out[-1500:]))
        ctx.add('broken_models_refuted', 1)
    cases = [json.loads(s[5:]) for s in printed(text) if s.startswith('HIST ')]
    cases.sort(key=json.dumps)
    random.Random('scope-%d' % ctx.seed).shuffle(cases)
    cases = cases[:ctx.pick(12000, 60000)]
    ctx.add('model_cases', len(cases))
    ctx.cov['model_phase_s'] = round(time.time() - ctx.t0, 1)
    jobs = [{'prop': ctx.prop, 'seed': '%d-%d' % (ctx.seed, i), 'script': 'scopeworker.py',
             'cases': dump(ctx, 'cases%d.json' % i, cases[i::CPUS]), 'histories': ctx.pick(1500, 12000)} for i in range(CPUS)]
    traces = run_jobs(ctx, jobs, 's')
    for i in range(len(jobs)):
        st = json.load(open(os.path.join(ctx.scratch, 'w-s%d' % i, 'stats.json')))
        ctx.add('histories_run', st['runs'])
    ctx.cov['execution_phase_s'] = round(time.time() - ctx.t0, 1)
    totals = judge(ctx, 'ScopeTrace', 'ScopeTrace.cfg', traces)
    ctx.cov['judged_events'] = totals.get('judged', 0)
    ctx.add('traces_validated_against_impl', totals.get('cases', 0))
    with open(traces[0]) as f:
        lines = f.read().split('\n')
    for line in lines[1:40:8]:
        ctx.sample(line[:300])
    ctx.assumptions += ['locked files and open temporary files are not removed or replaced by others',
                        'nobody waits for a lock whose holder deletes the file',
                        'one locker waits at a time; a waiting locker is one that has not got the lock after 20 ms']
