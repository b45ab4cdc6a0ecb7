"""Checks of the zip backend: C22, C23 (Zip.tla)."""
import json
import os
import random
import time

from common import *
from checks_fs import run_jobs
from checks_reg import dump

MODEL = """CONSTANTS
  Conns = {"c1", "c2"}
  Paths = {<<1>>, <<10>>, <<2, 1>>%(more)s}
  Contents = {"x", "y"}
  Steps = %(steps)d
  Fresh = %(Fresh)s
  Appends = %(Appends)s
  Last = %(Last)s
  Parts = %(Parts)s
SPECIFICATION Spec
VIEW view
INVARIANT %(inv)s
CHECK_DEADLOCK FALSE
"""
MEASURES = ('Fresh', 'Appends', 'Last', 'Parts')


def model(ctx, label, off=None, steps=4, inv='Told Laws', more=''):
    d = dict((m, 'FALSE' if m == off else 'TRUE') for m in MEASURES)
    d.update(steps=steps, inv=inv, more=more)
    # tuples cannot be given in configurations
    text = (MODEL % d).replace('Paths = {<<1>>, <<10>>, <<2, 1>>}', 'Paths <- MPaths').replace('Paths = {<<1>>, <<10>>, <<2, 1>>, <<2, 10, 1>>}', 'Paths <- MPaths4')
    return write_cfg(ctx, 'ZipModel-%s.cfg' % label, text)


def hists(text):
    return [json.loads(s[5:]) for s in printed(text) if s.startswith('HIST ')]


def zip_check(ctx):
    ps = [(m, start_tlc(ctx, 'ZipModel', model(ctx, 'no' + m, off=m, inv='ToldFault'), env={'EXPORT': '0'}, name='no' + m,
                        workers=1, heap='2g')) for m in MEASURES]
    text = model_check(ctx, 'ZipModel', model(ctx, 'all', steps=ctx.pick(4, 5), inv='Told Laws Export', more=', <<2, 10, 1>>' if ctx.thorough else ''),
                       env={'EXPORT': '1'}, name='model', workers=CPUS)
    cases = hists(text)
    first = []
    for m, q in ps:
        rc, text = wait_tlc(q)
        found = hists(text)
        if rc != 12 or not found:
            raise MachineryError('the model without %s should fail (%s): %s' % (m, rc, text[-1500:]))
        first.append(found[-1])
        ctx.add('broken_models_refuted', 1)
    cases.sort(key=lambda h: (len(h), json.dumps(h)))
    random.Random('zip-%d' % ctx.seed).shuffle(cases)
    ctx.add('model_cases', len(cases))
    most = ctx.pick(8000, 60000)
    cases = first * 6 + cases[:most]
    ctx.cov['model_phase_s'] = round(time.time() - ctx.t0, 1)
    jobs = [{'prop': ctx.prop, 'seed': '%d-%d' % (ctx.seed, i), 'script': 'zipworker.py',
             'cases': dump(ctx, 'cases%d.json' % i, cases[i::CPUS]), 'histories': ctx.pick(700, 6000)} for i in range(CPUS)]
    traces = run_jobs(ctx, jobs, 'z')
    for i in range(len(jobs)):
        st = json.load(open(os.path.join(ctx.scratch, 'w-z%d' % i, 'stats.json')))
        ctx.add('histories_run', st['runs'])
    ctx.cov['execution_phase_s'] = round(time.time() - ctx.t0, 1)
    totals = judge(ctx, 'ZipTrace', 'ZipTrace.cfg', traces)
    ctx.cov['judged_events'] = totals.get('judged', 0)
    ctx.add('traces_validated_against_impl', totals.get('cases', 0))
    with open(traces[0]) as f:
        lines = f.read().split('\n')
    for line in lines[1:40:8]:
        ctx.sample(line[:300])
    ctx.assumptions += ['archives are written through the zip backend only (or made before by other tools)',
                        'members have plain names; a path that is both member and directory is not walked']
