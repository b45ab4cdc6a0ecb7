#!/usr/bin/python3
"""Writes MANIFEST.json and known_findings.txt's listing is kept by hand."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'harness'))
sys.dont_write_bytecode = True
import registry                                         # noqa

TREE = ('Exhaustive within the stated bounds for the model (declarative laws on every reachable tree and call, '
        'TLC), every exported tree and call made on the real code, random histories over odd names, contents and '
        'links beyond the bounds; every observed result and tree judged by TLC against the specification. '
        'Trusts TLC, the observation of trees by raw os calls (local) or the public interface (memory), and '
        'the dialect differences listed in DESIGN.md.')
TREE_T = 'TLA+ tree specification (FS, Transfer): TLC model check, exported cases run on the code, trace validation'
NOTES = dict((p, (TREE_T, TREE)) for p in
             ('C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C29'))
URI = ('Laws of the URI value model checked by TLC for every URI over the component sets and all derivations up to '
       'the depth; every exported URI text and pairs of derivations run on the code, plus random histories over odd '
       'names, logins and query texts; every report of every object judged by TLC. Trusts TLC and the exclusions in '
       'DESIGN.md (no nested archives, no @ in logins, names . and ..).')
URI_T = 'TLA+ value specification (Uri): TLC model check of its laws, exported URIs run on the code, trace validation'
NOTES.update(dict((p, (URI_T, URI)) for p in ('C01', 'C02', 'C03', 'C04', 'C27')))
REG_T = ('TLA+ event specification (Registry) and algorithm model (RegModel, RegSeq): TLC model check, behaviours replayed '
         'on the code under a deterministic scheduler and virtual clock, trace validation')
REG = ('TLC checks the algorithm model with every interleaving within the bounds and refutes four broken variants; '
       'exported histories and schedules, every schedule with one preemption of small programs and random schedules '
       'run on the code; every recorded event judged by TLC. Trusts TLC, the cooperative scheduler (sequentially '
       'consistent, lines or bytecodes of abl.vpath) and factories that record being made and closed.')
NOTES.update(dict((p, (REG_T, REG)) for p in ('C05', 'C06', 'C07')))
NOTES['C20'] = ('TLA+ event specification (Lock) and algorithm model (LockModel): TLC model check, behaviours replayed on '
                'the code under a deterministic scheduler, trace validation',
                'TLC checks the lock algorithm with every interleaving within the bounds and refutes four broken variants; '
                'exported schedules, schedules with one preemption of about a hundred programs and random schedules run on real memory '
                'files; every recorded event judged by TLC. Trusts TLC and the cooperative scheduler (sequentially '
                'consistent, lines or bytecodes of abl.vpath).')
NOTES['C19'] = ('TLA+ specification of file sessions over bytes and code points (Handle): TLC model check, exported '
                'sessions run on the code, trace validation',
                'TLC checks the laws of sessions on every session within the bounds; exported and random sessions run on '
                "memory files, and the same specification is validated on Python's own files; every result judged by TLC. "
                'Trusts TLC and the exclusions in DESIGN.md (one session per file at a time).')
ZIP_T = ('TLA+ archive specification (Zip) and connection model (ZipModel): TLC model check, exported histories run on the '
         'code, trace validation')
ZIP = ('TLC checks the connection model with every history within the bounds and refutes four variants with one measure '
       "off; exported and random histories run on local and memory archives, cross-checked with Python's zipfile; every "
       'result judged by TLC. Trusts TLC, zipfile and the exclusions in DESIGN.md.')
NOTES.update(dict((p, (ZIP_T, ZIP)) for p in ('C22', 'C23')))
NOTES['C28'] = ('TLA+ specification of RFC 3986 splitting, joining and reference resolution (Rfc): TLC model check on the RFC '
                'examples and laws, exported pairs run on the code, trace validation',
                'The examples of RFC 3986 5.4 are assumptions of the model, so the specification is checked against the RFC; '
                'laws on every URI of the component sets; exported and random references run on the code, every result '
                'judged by TLC. Trusts TLC and the exclusions in DESIGN.md.')
NOTES['C24'] = ('TLA+ specification of callbacks, manipulated times and locks (Inject) and algorithm model (InjectModel): TLC model '
                'check, exported histories run on the code, trace validation',
                'TLC checks the algorithm with every history within the bounds and refutes five variants with one measure off; '
                'exported histories, every pair of paths and operation, and random histories run on memory file systems, each '
                'with an untouched twin; every event judged by TLC. Trusts TLC and that the dump text and the modes tell whether '
                'a tree changed.')
NOTES['C21'] = ('TLA+ specification of failures part way (Fault) and of the algorithms as primitive steps (FaultModel): TLC model '
                'check, exported calls swept with injected faults on the code, trace validation',
                'TLC fails the algorithms at every step on every tree and call within the bounds and refutes three variants; '
                'exported and random calls run on the code once per primitive operation with that one failing (before, half way, '
                'after, once or from then on), in the backends and in the operating system; every outcome judged by TLC. Trusts '
                'TLC and that stat does not fail.')
NOTES['C25'] = ('TLA+ specification of the exact text of a dump after any sessions (Dump, Handle): TLC model check, exported '
                'histories run on the code, trace validation',
                'TLC checks the laws of the text on every tree and session within the bounds and refutes three variants; exported '
                'and random histories run on memory file systems; every dump judged character by character by TLC. Trusts TLC '
                'and the exclusions in DESIGN.md (text files, plain image names).')
NOTES['C26'] = ('TLA+ specification of nested scopes (Scope) and algorithm model (ScopeModel): TLC model check, exported histories '
                'run on the code, trace validation',
                'TLC checks the algorithm with every nesting and way out within the bounds and refutes six variants; exported and '
                'random histories run with real with-statements, lockers in threads and real files; every event judged by TLC. '
                'Trusts TLC, LockFile of the installed abl.util and the exclusions in DESIGN.md.')
NOTES.update(getattr(registry, 'NOTES', {}))


def main():
    props = [json.loads(x) for x in open(os.path.join(VERIF, 'properties.jsonl'))]
    m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
    for p in props:
        i = p['id']
        if i in registry.CHECKS:
            t, n = NOTES[i]
            m['checks'].append({'property': i, 'quick_cmd': './check ' + i,
                                'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i,
                                'technique': t, 'level': 'model_checking', 'level_note': n})
        else:
            m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
