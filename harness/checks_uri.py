"""Checks of the URI properties C01-C04, C27 (Uri.tla)."""
import json
import os
import random
import time

from common import *
from checks_fs import run_jobs

MODEL = """CONSTANTS
  Schemes = {%(schemes)s}
  Users = {"", "u"}
  Passwords = {"", "p:q"}
  Hosts = {"", "h.x"}
  Ports = {0, 22}
  Archives = {"", "/z#y.zip"}
  N = {"a", ".b", "a#", "((c))", "x:y"}
  Seps <- MSeps
  Suffixes = {"s", ".t"}
  Depth = %(depth)d
SPECIFICATION Spec
INVARIANT Laws Export
CHECK_DEADLOCK FALSE
"""


def uri_check(ctx):
    prop = ctx.prop
    windows = prop == 'C27'
    schemes = ['file'] if windows else ['file', 'x-t', 'http'] + (['ssh'] if ctx.thorough else [])
    cfg = write_cfg(ctx, 'UriModel.cfg', MODEL % dict(schemes=', '.join('"%s"' % s for s in schemes),
                                                      depth=3 if windows else ctx.pick(1, 2)))
    p = start_tlc(ctx, 'UriModel', cfg, env={'EXPORT': '1'}, name='model', workers=CPUS, heap='4g')
    rc, text = wait_tlc(p)
    if rc != 0:
        raise MachineryError('model check failed (%s):\n%s' % (rc, text[-3000:]))
    distinct, generated = tlc_stats(text)
    ctx.add('states', distinct)
    ctx.add('transitions', generated)
    ctx.add('model_states', distinct)
    ctx.cov['model_phase_s'] = round(time.time() - ctx.t0, 1)
    cases = [json.loads(s[4:]) for s in printed(text) if s.startswith('URI ')]
    if windows:
        cases = [c for c in cases if c['sep'] == '\\']
    else:
        cases = [c for c in cases if c['sep'] == '/']
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    ctx.add('model_cases', len(cases))
    rnd = random.Random(ctx.seed)
    rnd.shuffle(cases)
    share = min(1.0, ctx.pick(500, 4000) / float(max(1, len(cases))))
    pool = ['a', '.b', 'a#', '((c))', 'x:y', 'b.c', 'd e', '%41', 'k=v&l', '\u00e4']
    jobs = []
    for i in range(CPUS):
        fn = os.path.join(ctx.scratch, 'cases%d.json' % i)
        with open(fn, 'w') as f:
            json.dump(cases[i::CPUS], f)
        os.chmod(fn, 0o644)
        jobs.append({'prop': prop, 'seed': '%d-%d' % (ctx.seed, i), 'mode': 'cases', 'cases': fn, 'share': share,
                     'names': rnd.sample(pool, 4), 'budget': ctx.pick(60, 300), 'script': 'uriworker.py'})
    for i in range(CPUS):
        jobs.append({'prop': prop, 'seed': '%d-r%d' % (ctx.seed, i), 'mode': 'random', 'script': 'uriworker.py',
                     'histories': ctx.pick(450, 4000), 'length': [6, 24], 'budget': ctx.pick(60, 300)})
    traces = run_jobs(ctx, jobs, 'u')
    ctx.cov['execution_phase_s'] = round(time.time() - ctx.t0, 1)
    totals = judge(ctx, 'UriTrace', 'UriTrace.cfg', traces)
    ctx.cov['judged_calls'] = totals.get('judged', 0)
    ctx.add('traces_validated_against_impl', len(traces))
    with open(traces[-1]) as f:
        lines = f.read().split('\n')
    for line in lines[1:40:9]:
        ctx.sample(line[:300])
    ctx.assumptions += [
        'names contain no slash, backslash or question mark (no # for http); logins contain no @',
        'the archive text of an enclosing reference contains no closing double parentheses (nested archives are not modelled)',
        'every law of Uri.tla is checked by TLC for all URIs over the listed component sets; the conformance runs sample texts',
    ]
