"""Check of the file objects of the memory backend: C19 (Handle.tla)."""
import json
import os
import time

from common import *
from checks_fs import run_jobs
from checks_reg import dump

MODEL = """CONSTANTS
  Alphabet = {%(alphabet)s}
  MaxLen = %(maxlen)d
  Texts <- MTexts
  Ns = {%(ns)s}
  Depth = %(depth)d
SPECIFICATION Spec
INVARIANT Codec Pieces ReadRefused WriteRefused Writing Appending Fresh Export
CHECK_DEADLOCK FALSE
"""


def sessions(ctx, label, **kw):
    text = model_check(ctx, 'HandleModel', write_cfg(ctx, 'HandleModel-%s.cfg' % label, MODEL % kw),
                       env={'EXPORT': '1'}, name=label, workers=CPUS, heap='4g')
    return [json.loads(s[5:]) for s in printed(text) if s.startswith('SESS ')]


def handle_check(ctx):
    cases = sessions(ctx, 'short', alphabet='97, 10, 233', maxlen=2, ns='1', depth=2)
    if ctx.thorough:
        cases += sessions(ctx, 'long', alphabet='97, 10, 233', maxlen=3, ns='1, 2', depth=3)
    else:
        cases += sessions(ctx, 'long', alphabet='10, 8364', maxlen=3, ns='1, 2', depth=2)
    ctx.add('model_cases', len(cases))
    ctx.cov['model_phase_s'] = round(time.time() - ctx.t0, 1)
    n = ctx.pick(1500, 12000)
    jobs = [{'prop': ctx.prop, 'impl': 'memory', 'seed': '%d-%d' % (ctx.seed, i), 'script': 'handleworker.py',
             'cases': dump(ctx, 'cases%d.json' % i, cases[i::CPUS]), 'histories': n} for i in range(CPUS)]
    pjobs = [{'prop': ctx.prop, 'impl': 'python', 'seed': 'p%d-%d' % (ctx.seed, i), 'script': 'handleworker.py',
              'cases': dump(ctx, 'pcases%d.json' % i, cases[i::CPUS][::4]), 'histories': n // 3} for i in range(2)]
    traces = run_jobs(ctx, jobs, 'h')
    ptraces = run_jobs(ctx, pjobs, 'p')
    for i in range(len(jobs)):
        st = json.load(open(os.path.join(ctx.scratch, 'w-h%d' % i, 'stats.json')))
        ctx.add('sessions_run', st['runs'])
    ctx.cov['execution_phase_s'] = round(time.time() - ctx.t0, 1)
    # the specification against Python itself
    totals = judge(ctx, 'HandleTrace', 'HandleTrace.cfg', ptraces)
    if ctx.violations:
        raise MachineryError("the specification is not what Python does: %s" % [[json.dumps(x)[:150] for x in v[1][-19:]] for v in ctx.violations[:60:12]])
    ctx.cov['events_of_python_files'] = totals.get('judged', 0)
    totals = judge(ctx, 'HandleTrace', 'HandleTrace.cfg', traces)
    ctx.cov['judged_events'] = totals.get('judged', 0)
    ctx.add('traces_validated_against_impl', totals.get('cases', 0))
    with open(traces[0]) as f:
        lines = f.read().split('\n')
    for line in lines[1:40:8]:
        ctx.sample(line[:300])
    ctx.assumptions += ['one session on a file at a time',
                        'text is not cut within a character by seeking or overwriting; positions in texts come from tell',
                        "Python's own files, opened with UTF-8 and newline='\\n', behave like the specification (checked by the same judge)"]
