"""Checks of the connection registry: C05, C06, C07 (Registry.tla)."""
import json
import os
import random
import re
import time

from common import *
from checks_fs import run_jobs

MODEL = """CONSTANTS
  Users = {%(users)s}
  Cleaners = {%(cleaners)s}
  Keys = {%(keys)s}
  Gets = %(gets)d
  Cleanups = 1
  Ticks = %(ticks)d
  Timeout = 2
  Recheck = %(Recheck)s
  Touch = %(Touch)s
  Restale = %(Restale)s
  Hold = %(Hold)s
SPECIFICATION Spec
%(view)s
INVARIANT %(inv)s
CHECK_DEADLOCK FALSE
"""
SEQ = """CONSTANTS
  Keys = {"k1", "k2", "k3"}
  Timeout = %d
  Steps = 12
SPECIFICATION Spec
VIEW View
INVARIANT Sane Export
CHECK_DEADLOCK FALSE
"""
MEASURES = ('Recheck', 'Touch', 'Restale', 'Hold')


def model(ctx, label, off=None, users=2, cleaners=1, keys=1, gets=2, ticks=2, inv='NoFaults Sane NoDeadlock', view='VIEW view'):
    d = dict((m, 'FALSE' if m == off else 'TRUE') for m in MEASURES)
    q = lambda p, n: ', '.join('"%s%d"' % (p, i + 1) for i in range(n))
    d.update(users=q('u', users), cleaners=q('c', cleaners), keys=q('k', keys), gets=gets, ticks=ticks, inv=inv, view=view)
    return write_cfg(ctx, 'RegModel-%s.cfg' % label, MODEL % d)


def scheds(text):
    return [json.loads(s[6:]) for s in printed(text) if s.startswith('SCHED ')]


def concurrent_model(ctx):
    """the algorithm has no faults; without any of its measures it has; schedules to replay"""
    big = dict(users=2, cleaners=1, keys=2, ticks=2) if not ctx.thorough else dict(users=2, cleaners=2, keys=2, ticks=2)
    p = start_tlc(ctx, 'RegModel', model(ctx, 'all', **big), env={'EXPORT': '0'}, name='model', workers=CPUS // 2, heap='6g')
    ps = []
    for m in MEASURES:
        ps.append((m, start_tlc(ctx, 'RegModel', model(ctx, 'no' + m, off=m, inv='NoFaultsTold'), env={'EXPORT': '0'},
                                name='no' + m, workers=1, heap='2g')))
    num = ctx.pick(400, 3000)
    sim = start_tlc(ctx, 'RegModel', model(ctx, 'sim', users=2, cleaners=1, keys=1, gets=2, ticks=3, inv='NoFaults Export', view=''),
                    env={'EXPORT': '1'}, name='sim', workers=1, heap='2g',
                    extra=['-simulate', 'num=%d' % num, '-depth', '80', '-seed', str(ctx.seed)])
    res = []
    for m, q in ps:
        rc, text = wait_tlc(q)
        found = scheds(text)
        if rc != 12 or not found:
            raise MachineryError('the model without %s should fail (%s): %s' % (m, rc, text[-1500:]))
        res.append(found[-1])
        ctx.add('broken_models_refuted', 1)
    rc, text = wait_tlc(sim)
    if rc != 0:
        raise MachineryError('simulation failed (%s): %s' % (rc, text[-1500:]))
    seen = set()
    for s in scheds(text):
        k = json.dumps(s)
        if k not in seen:
            seen.add(k)
            res.append(s)
    ctx.add('model_behaviours', len(res))
    rc, text = wait_tlc(p)
    if rc != 0:
        raise MachineryError('model check failed (%s): %s' % (rc, text[-1500:]))
    distinct, generated = tlc_stats(text)
    ctx.add('states', distinct)
    ctx.add('transitions', generated)
    ctx.add('model_states', distinct)
    return res


def sequential_model(ctx):
    cfg = write_cfg(ctx, 'RegSeq.cfg', SEQ % 2)
    text = model_check(ctx, 'RegSeq', cfg, env={'EXPORT': '1'}, name='seq', workers=1, heap='2g')
    res = [json.loads(s[5:]) for s in printed(text) if s.startswith('HIST ')]
    res.sort(key=lambda h: (len(h), json.dumps(h)))
    ctx.add('model_cases', len(res) * 5)
    return res


def dump(ctx, name, data):
    fn = os.path.join(ctx.scratch, name)
    with open(fn, 'w') as f:
        json.dump(data, f)
    os.chmod(fn, 0o644)
    return fn


def reg_check(ctx):
    prop = ctx.prop
    jobs = []
    if prop == 'C07':
        sch = concurrent_model(ctx)
        for i in range(CPUS):
            jobs.append({'mode': 'conc', 'schedules': dump(ctx, 'sched%d.json' % i, sch[:4] + sch[4:][i::CPUS]),
                         'budget': ctx.pick(45, 420), 'part': i, 'of': CPUS})
    else:
        hist = sequential_model(ctx)
        for i in range(CPUS):
            if prop == 'C06':
                jobs.append({'mode': 'seq', 'cases': dump(ctx, 'hist%d.json' % i, hist[i::CPUS]), 'share': 1.0,
                             'histories': ctx.pick(2000, 15000)})
            else:
                jobs.append({'mode': 'identity', 'histories': ctx.pick(2500, 15000)})
    for i, j in enumerate(jobs):
        j.update(prop=prop, seed='%d-%d' % (ctx.seed, i), script='regworker.py')
    ctx.cov['model_phase_s'] = round(time.time() - ctx.t0, 1)
    traces = run_jobs(ctx, jobs, 'g')
    for i in range(len(jobs)):
        st = json.load(open(os.path.join(ctx.scratch, 'w-g%d' % i, 'stats.json')))
        ctx.add('histories_run', st['runs'])
        ctx.add('distinct_histories', st['distinct'])
        ctx.add('schedules_enumerated', st['enumerated'])
    ctx.cov['execution_phase_s'] = round(time.time() - ctx.t0, 1)
    totals = judge(ctx, 'RegTrace', 'RegTrace.cfg', traces)
    ctx.cov['judged_events'] = totals.get('judged', 0)
    ctx.add('traces_validated_against_impl', totals.get('cases', 0))
    with open(traces[0]) as f:
        lines = f.read().split('\n')
    for line in lines[1:30:6]:
        ctx.sample(line[:300])
    ctx.assumptions += [
        'threads are interrupted at source lines or bytecodes of abl.vpath and at lock operations, one at a time',
        'time is virtual and passes only when no thread can run',
        'seen from the backends: factories that record being made and closed, and from what callers get',
    ]
