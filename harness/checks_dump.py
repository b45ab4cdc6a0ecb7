"""Check of the dump of memory file systems: C25 (Dump.tla)."""
import json
import os
import random
import time

from common import *
from checks_fs import run_jobs
from checks_reg import dump

MODEL = """CONSTANTS
  MaxOps = %(ops)d
  Whole = %(Whole)s
  Still = %(Still)s
  Sorted = %(Sorted)s
SPECIFICATION Spec
INVARIANT %(inv)s
VIEW View
CHECK_DEADLOCK FALSE
"""
MEASURES = ('Whole', 'Still', 'Sorted')


def model(ctx, label, ops, inv, off=None):
    d = dict((m, 'FALSE' if m == off else 'TRUE') for m in MEASURES)
    return write_cfg(ctx, 'DumpModel-%s.cfg' % label, MODEL % dict(d, ops=ops, inv=inv))


def dump_check(ctx):
    ps = [(m, start_tlc(ctx, 'DumpModel', model(ctx, 'no' + m, 4, 'Right', m), env={'EXPORT': '0'}, name='no' + m, heap='1g'))
          for m in MEASURES]
    model_check(ctx, 'DumpModel', model(ctx, 'laws', ctx.pick(5, 6), 'Right Once Lines1 Suppressed'), env={'EXPORT': '0'}, name='laws')
    text = model_check(ctx, 'DumpModel', model(ctx, 'all', ctx.pick(6, 7), 'Right Export'), env={'EXPORT': '1'}, name='all')
    for m, q in ps:
        rc, out = wait_tlc(q)
        if rc != 12:
            raise MachineryError('the model without %s should fail (%s): %s' % (m, rc, out[-1500:]))
        ctx.add('broken_models_refuted', 1)
    cases = [json.loads(s[5:]) for s in printed(text) if s.startswith('HIST ')]
    cases.sort(key=json.dumps)
    random.Random('dump-%d' % ctx.seed).shuffle(cases)
    cases = cases[:ctx.pick(8000, 60000)]
    ctx.add('model_cases', len(cases))
    ctx.cov['model_phase_s'] = round(time.time() - ctx.t0, 1)
    jobs = [{'prop': ctx.prop, 'seed': '%d-%d' % (ctx.seed, i), 'script': 'dumpworker.py',
             'cases': dump(ctx, 'cases%d.json' % i, cases[i::CPUS]), 'histories': ctx.pick(1000, 10000)} for i in range(CPUS)]
    traces = run_jobs(ctx, jobs, 'd')
    for i in range(len(jobs)):
        st = json.load(open(os.path.join(ctx.scratch, 'w-d%d' % i, 'stats.json')))
        ctx.add('histories_run', st['runs'])
    ctx.cov['execution_phase_s'] = round(time.time() - ctx.t0, 1)
    totals = judge(ctx, 'DumpTrace', 'DumpTrace.cfg', traces)
    ctx.cov['judged_events'] = totals.get('judged', 0)
    ctx.add('traces_validated_against_impl', totals.get('cases', 0))
    with open(traces[0]) as f:
        lines = f.read().split('\n')
    for line in lines[1:40:8]:
        ctx.sample(line[:300])
    ctx.assumptions += ['files are texts (images need not be when their content is suppressed)',
                        'one session at a time; whether an operation succeeds is judged by C08 to C16',
                        "Python's hashlib gives the digests"]
