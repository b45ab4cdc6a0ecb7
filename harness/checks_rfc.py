"""Check of the generic URI library: C28 (Rfc.tla)."""
import json
import os
import time

from common import *
from checks_fs import run_jobs
from checks_reg import dump

MODEL = """CONSTANTS
  Schemes = {"http", "ftp"}
  Auths = {"", "h", "u@h:8", "((x://y/z?q#f))"}
  Paths = {"", "/", "/a", "/a/b", "/a//b", "/a:b", "a", "a/b", "./a", "/((a))"%(paths)s}
  Queries = {"", "k=v", "a?b/../c"}
  Frags = {"", "s", "a#b/../c"}
  Bases = {"http://a/b/c/d;p?q", "http://a", "http://a/", "http://a/b/", "http://u@a:8/b/c?q#f", "http://a?x"%(bases)s}
  Segs = {".", "..", "g", "g.", ".g", "g;x=1"%(segs)s}
  MaxSegs = %(n)d
SPECIFICATION Spec
INVARIANT Laws Export
CHECK_DEADLOCK FALSE
"""


def rfc_check(ctx):
    more = dict(paths='', bases='', segs='', n=3)
    if ctx.thorough:
        more = dict(paths=', "/a/", "//a", "/a/../b", "a:b", "/%2F"', bases=', "http:a/b", "http:/a/b/../c", "http://a//b//c", "http:"',
                    segs=', "g..", "..."', n=4)
    text = model_check(ctx, 'RfcModel', write_cfg(ctx, 'RfcModel.cfg', MODEL % more), env={'EXPORT': '1'}, name='model', workers=CPUS, heap='8g')
    cases = [json.loads(s[5:]) for s in printed(text) if s.startswith('CASE ')]
    cases.sort(key=json.dumps)
    ctx.add('model_cases', len(cases))
    ctx.cov['model_phase_s'] = round(time.time() - ctx.t0, 1)
    jobs = [{'prop': ctx.prop, 'seed': '%d-%d' % (ctx.seed, i), 'script': 'rfcworker.py',
             'cases': dump(ctx, 'cases%d.json' % i, cases[i::CPUS]), 'histories': ctx.pick(20000, 200000)} for i in range(CPUS)]
    traces = run_jobs(ctx, jobs, 'r')
    ctx.cov['execution_phase_s'] = round(time.time() - ctx.t0, 1)
    totals = judge(ctx, 'RfcTrace', 'RfcTrace.cfg', traces)
    ctx.cov['judged_events'] = totals.get('judged', 0)
    ctx.add('traces_validated_against_impl', totals.get('judged', 0))
    with open(traces[0]) as f:
        lines = f.read().split('\n')
    for line in lines[1::max(1, len(lines) // 5)]:
        ctx.sample(line[:300])
    ctx.assumptions += ['parsing with defaults: URLs with an authority part (scheme://...), mailto addresses with one @',
                        'the authority "." (relative paths) and relative references with schemes of their own are not generic']
