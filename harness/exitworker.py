"""
A program that uses connections and ends: what is closed then (C06).
Real threads and time; run by regworker.py, which tells the plan.
"""
import atexit
import json
import os
import sys
import threading

PLAN = json.loads(sys.argv[1])
OUT = sys.argv[2]
EVENTS = []
ALL = []            # kept, so that they are told apart


def event(op, **kw):
    kw.update(op=op, t='m')
    EVENTS.append(kw)


def last():
    # registered first, so it runs after the handlers of the package
    event('cleaned')
    event('stopped', alive=any(t.is_alive() for t in OTHERS))
    with open(OUT + '.tmp', 'w') as f:
        json.dump(EVENTS, f)
    os.rename(OUT + '.tmp', OUT)


atexit.register(last)
before = set(threading.enumerate())
sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
sys.dont_write_bytecode = True
from abl.vpath.base import URI                                      # noqa
from abl.vpath.base.fs import CONNECTION_REGISTRY, SCHEME_REGISTRY, FileSystem, BaseUri   # noqa
OTHERS = [t for t in threading.enumerate() if t not in before]


class Probe(FileSystem):
    scheme = 'x-t'
    uri = BaseUri

    def __init__(self, hostname=None, port=None, username=None, password=None, vpath_connector=None, **extras):
        super(Probe, self).__init__(hostname, port, username, password, vpath_connector, **extras)
        ALL.append(self)
        self.vp_id = 'c%d' % len(ALL)
        event('made', c=self.vp_id, raw=[self.scheme, hostname or '', port or 0, username or '', password or '',
                                         vpath_connector or '', sorted(extras.items())])

    def _initialize(self):
        pass

    def close(self):
        event('closing', c=self.vp_id)
        try:
            if self.vp_id in PLAN['boom']:
                raise RuntimeError('close failed')
        finally:
            event('closed', c=self.vp_id)


class Probe2(Probe):
    scheme = 's+v'


for p in (Probe, Probe2):
    CONNECTION_REGISTRY.register(p.scheme, p)
    SCHEME_REGISTRY[p.scheme] = p.uri


def use():
    for text in PLAN['uses']:
        if text == 'clean':
            event('cleanup', force=False)
            CONNECTION_REGISTRY.cleanup()
            event('cleaned')
        elif text == 'force':
            event('cleanup', force=True)
            CONNECTION_REGISTRY.cleanup(force=True)
            event('cleaned')
        else:
            event('call', text=text)
            event('ret', c=URI(text).get_connection().vp_id)


if PLAN['thread']:
    th = threading.Thread(target=use)
    th.start()
    th.join()
else:
    use()
event('cleanup', force=True)
sys.stderr.close()
sys.stdout.close()
sys.stdout = sys.stderr = open(os.devnull, 'w')
if PLAN['end'] == 'exit':
    sys.exit(3)
elif PLAN['end'] == 'error':
    raise ValueError('planned')
