#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
unfinished = {}
pure = {
    'N01': 'Parsing and printing a template are pure functions of a string: there is no schedule, time, I/O, fault or second party a simulator could vary, so a simulated run would be an ordinary input test. (Templates are parsed, printed and compared all the time inside the simulated runs of the other properties.)',
    'N02': 'Matching and applying a template are pure functions of a template and a string: no schedule, time, I/O or fault to simulate. (What matching does to concurrent requests, and which responder it selects, is decided under C01, C04 and C16.)',
    'N03': 'Building a URL from values is a pure function of an immutable tree: no schedule, time, I/O or fault to simulate. (URLs of responders are compared with the model during the runs of C10 and C15.)',
    'N04': 'Template similarity is a pure relation of two immutable templates: nothing to schedule or to fail. (Its consequences, which registrations clash or merge, are decided under C10 and C14.)',
}
notes = {
    'C01': 'every request is compared with the reference model and with the same request served alone on a freshly built tree',
    'C02': 'simulated schedules under the Go race detector; the simulator hands over between tasks without creating happens-before edges, and the standard library\'s sync.Pool is kept from creating them',
    'C10': 'the same model tree is assembled in random order from calls at the router, at responders and from fragments built apart, which collide and merge in every way; object identity, parents, hosts, router, lookups by URL and name, all settings and the serving behaviour are compared with the model; one known finding (a host name accepted twice by Router.ResourceUsingConfig) is probed',
    'C12': 'liveness: bounded number of library statements per request compared with the request alone, no deadlock, stalled requests do not delay others; unbuffered channels and sync/atomic spinning in the library would not be modelled, it has none',
    'C14': 'calls of twenty kinds that have to be refused are mixed into the building of the tree; a snapshot of the whole tree and of the responder that was to be registered is compared before and after, that responder is then registered elsewhere and compared with a twin that was never refused, and the finished tree is compared with the model',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in pure:
        na.append({'property': i, 'reason': pure[i]})
        continue
    if i in unfinished:
        na.append({'property': i, 'reason': unfinished[i]})
        continue
    checks.append({
        'property': i,
        'quick_cmd': './check.sh %s quick' % i,
        'thorough_cmd': './check.sh %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'deterministic simulation with fault injection: seeded search over schedules, faults, trees and request histories, checked against a reference model',
        'level': 'exploration',
        'level_note': 'No counterexample in the seeds explored (counts in the evidence file), each an exactly repeatable execution of the real library in one process under a seeded scheduler; ' + notes.get(i, 'observations are compared with an independent reference model of nanomux') + '. Trusted: the model, the instrumenter, the generator\'s coverage.',
    })
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks in /repo: its sources are instrumented at build time through go build -overlay. known-findings.txt lists the defects found and repaired (fixed:) and those left (known:).',
}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
