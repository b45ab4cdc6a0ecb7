"""Check of the memory locks: C20 (Lock.tla)."""
import json
import os
import time

from common import *
from checks_fs import run_jobs
from checks_reg import dump, scheds

MODEL = """CONSTANTS
  Threads = {%(threads)s}
  Files = {%(files)s}
  Tries = %(tries)d
  OpenLate = %(OpenLate)s
  RemoveFirst = %(RemoveFirst)s
  PerFile = %(PerFile)s
  Always = %(Always)s
SPECIFICATION Spec
%(view)s
INVARIANT %(inv)s
CHECK_DEADLOCK FALSE
"""
MEASURES = ('OpenLate', 'RemoveFirst', 'PerFile', 'Always')


def model(ctx, label, off=None, threads='ab', files='f', tries=2, inv='NoFaults Free NoDeadlock', view='VIEW view'):
    d = dict((m, 'FALSE' if m == off else 'TRUE') for m in MEASURES)
    q = lambda s: ', '.join('"%s"' % c for c in s)
    d.update(threads=q(threads), files=q(files), tries=tries, inv=inv, view=view)
    return write_cfg(ctx, 'LockModel-%s.cfg' % label, MODEL % d)


def lock_check(ctx):
    big = dict(threads='abc', files='fg' if ctx.thorough else 'f', tries=1)
    p = start_tlc(ctx, 'LockModel', model(ctx, 'all', **big), env={'EXPORT': '0'}, name='model', workers=CPUS // 2, heap='6g')
    p2 = start_tlc(ctx, 'LockModel', model(ctx, 'two'), env={'EXPORT': '0'}, name='model2', workers=1, heap='2g')
    ps = [(m, start_tlc(ctx, 'LockModel', model(ctx, 'no' + m, off=m, inv='ToldFault'), env={'EXPORT': '0'}, name='no' + m,
                        workers=1, heap='2g')) for m in MEASURES]
    sim = start_tlc(ctx, 'LockModel', model(ctx, 'sim', threads='abc', files='fg', inv='NoFaults Export', view=''),
                    env={'EXPORT': '1'}, name='sim', workers=1, heap='2g',
                    extra=['-simulate', 'num=%d' % ctx.pick(400, 3000), '-depth', '120', '-seed', str(ctx.seed)])
    sch = []
    for m, q in ps:
        rc, text = wait_tlc(q)
        found = scheds(text)
        if rc != 12 or not found:
            raise MachineryError('the model without %s should fail (%s): %s' % (m, rc, text[-1500:]))
        sch.append(found[-1])
        ctx.add('broken_models_refuted', 1)
    rc, text = wait_tlc(sim)
    if rc != 0:
        raise MachineryError('simulation failed (%s): %s' % (rc, text[-1500:]))
    rest = sorted(set(json.dumps(s) for s in scheds(text)))
    ctx.add('model_behaviours', len(rest) + len(sch))
    rest = [json.loads(s) for s in rest]
    for q in (p, p2):
        rc, text = wait_tlc(q)
        if rc != 0:
            raise MachineryError('model check failed (%s): %s' % (rc, text[-1500:]))
        distinct, generated = tlc_stats(text)
        ctx.add('states', distinct)
        ctx.add('transitions', generated)
        ctx.add('model_states', distinct)
    ctx.cov['model_phase_s'] = round(time.time() - ctx.t0, 1)
    jobs = [{'prop': ctx.prop, 'seed': '%d-%d' % (ctx.seed, i), 'script': 'lockworker.py', 'part': i, 'of': CPUS,
             'schedules': dump(ctx, 'sched%d.json' % i, sch + rest[i::CPUS]), 'budget': ctx.pick(40, 420)}
            for i in range(CPUS)]
    traces = run_jobs(ctx, jobs, 'k')
    for i in range(len(jobs)):
        st = json.load(open(os.path.join(ctx.scratch, 'w-k%d' % i, 'stats.json')))
        ctx.add('schedules_run', st['runs'])
        ctx.add('distinct_histories', st['distinct'])
        ctx.add('schedules_enumerated', st['enumerated'])
    ctx.cov['execution_phase_s'] = round(time.time() - ctx.t0, 1)
    totals = judge(ctx, 'LockTrace', 'LockTrace.cfg', traces)
    ctx.cov['judged_events'] = totals.get('judged', 0)
    ctx.add('traces_validated_against_impl', totals.get('cases', 0))
    with open(traces[0]) as f:
        lines = f.read().split('\n')
    for line in lines[1:30:6]:
        ctx.sample(line[:300])
    ctx.assumptions += [
        'threads are interrupted at source lines or bytecodes of abl.vpath and at lock operations, one at a time',
        'files are not written or moved by threads that do not hold their lock',
    ]
