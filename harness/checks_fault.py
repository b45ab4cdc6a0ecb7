"""Check of failures part way through (C21): Fault.tla, FaultModel.tla."""
import json
import os
import random
import time

from common import *
from checks_fs import run_jobs
from checks_reg import dump
from vp_names import OWN

MODEL = """CONSTANTS
  Ord <- MOrd
  TokSize <- MToks
  Dial <- MDial%(dial)s
  N = {"a", "b"}
  Depth = 2
  MaxNodes = %(nodes)d
  Backends = {%(backends)s}
  Cs <- MCs1
  Prop = "C21"
  Measures = {%(measures)s}
SPECIFICATION FSpec
INVARIANT Right Sound FExport
CHECK_DEADLOCK FALSE
"""
MEASURES = ['copy first', 'stop', 'own']
BACKENDS = {'L': '"L"', 'M': '"M"', 'X': '"L", "M"'}


def model(ctx, name, dial, nodes, off=None, export=False, workers=2):
    cfg = write_cfg(ctx, 'FaultModel-%s.cfg' % name, MODEL % {
        'dial': dial, 'nodes': nodes, 'backends': BACKENDS[dial],
        'measures': ', '.join('"%s"' % m for m in MEASURES if m != off)})
    return start_tlc(ctx, 'FaultModel', cfg, env={'EXPORT': '1' if export else '0'}, name=name, workers=workers, heap='3g')


def finish(ctx, p):
    rc, text = wait_tlc(p)
    if rc != 0:
        raise MachineryError('model check failed (%s):\n%s' % (rc, text[-3000:]))
    distinct, generated = tlc_stats(text)
    ctx.add('states', distinct)
    ctx.add('transitions', generated)
    ctx.add('model_states', distinct)
    data = {'trees': {}, 'calls': []}
    for s in printed(text):
        if s.startswith('TREE '):
            data['trees'][s] = json.loads(s[5:])
        elif s.startswith('CALLS '):
            data['calls'] = json.loads(s[6:])
    data['trees'] = [data['trees'][k] for k in sorted(data['trees'])]
    data['calls'].sort(key=lambda t: json.dumps(t, sort_keys=True))
    return data


def fault_check(ctx):
    main = [(d, model(ctx, 'main' + d, d, n, export=True, workers=3))
            for d, n in (('L', ctx.pick(2, 3)), ('M', ctx.pick(2, 3)), ('X', ctx.pick(1, 2)))]
    broken = []
    for m in MEASURES:
        broken.append((m, model(ctx, 'no-' + m.replace(' ', ''), 'M', 2, off=m, workers=1)))
    exports = dict((d, finish(ctx, p)) for d, p in main)
    for m, p in broken:
        rc, out = wait_tlc(p)
        if rc != 12:
            raise MachineryError('the model without %s should fail (%s): %s' % (m, rc, out[-1500:]))
        ctx.add('broken_models_refuted', 1)
    ctx.cov['model_phase_s'] = round(time.time() - ctx.t0, 1)
    worlds = [('L', {'L': 'local'}), ('M', {'M': 'memory'}), ('X', {'L': 'local', 'M': 'memory'}), ('L', {'L': 'local'}),
              ('M', {'M': 'memory'}), ('', {'M': 'memory', 'N': 'memory'}), ('X', {'L': 'local', 'M': 'memory'}), ('L', {'L': 'local'})]
    jobs = []
    for i, (d, bs) in enumerate(worlds):
        names = {'a': 'a', 'b': 'b'}
        if i > 2:
            names = dict(zip('ab', random.Random('%d-%d' % (ctx.seed, i)).sample(OWN, 2)))
            names = dict(zip('ab', sorted(names.values())))
        job = {'prop': ctx.prop, 'seed': '%d-%d' % (ctx.seed, i), 'script': 'faultworker.py', 'mode': 'faults', 'backends': bs,
               'common_prefix': len(bs) > 1, 'names': names, 'calls': ctx.pick(4000, 60000), 'budget': ctx.pick(50, 400)}
        if d:
            job['cases'] = dump(ctx, 'cases%d.json' % i, exports[d])
        jobs.append(job)
    traces = run_jobs(ctx, jobs, 'j')
    for i in range(len(jobs)):
        st = json.load(open(os.path.join(ctx.scratch, 'w-j%d' % i, 'stats.json')))
        ctx.add('calls_swept', st['runs'])
    ctx.cov['execution_phase_s'] = round(time.time() - ctx.t0, 1)
    totals = judge(ctx, 'FaultTrace', 'FaultTrace.cfg', traces)
    ctx.cov['judged_faults'] = totals.get('judged', 0)
    ctx.cov['failed_calls'] = totals.get('failed', 0)
    ctx.cov['undefined_calls'] = totals.get('skipped', 0)
    ctx.add('traces_validated_against_impl', totals.get('cases', 0))
    with open(traces[0]) as f:
        lines = f.read().split('\n')
    for line in lines[1:40:8]:
        ctx.sample(line[:300])
    ctx.assumptions += ['faults are injected into the operations of the backends (subclasses registered with the connection '
                        'registry) and, for local files, into the functions of os and the files of open()',
                        'queries of the operating system (stat) do not fail']
