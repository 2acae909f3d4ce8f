#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIM lists the properties with a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
CLAIM = open(V + '/tools/claimed.txt').read().split()
NA = {
 'P30': 'IBAN construction and validation is a pure function of its arguments: no concurrency, time, I/O or second party for a simulation to schedule or disturb.',
 'P31': 'The ISO 9796-1 encoding is a pure function of a hash and a key and no message the library sends uses it: nothing to schedule or disturb.',
 'P32': 'The generator of segment unmarshalers is a build-time pure function from source to source; a simulation has no nondeterminism to control there. (What the generated code does with bank data is decided by P05, P07, P08, P11, P23.)',
}
NOTE = {
 'exploration': 'Seeded search over schedules, clock readings, replies and fault sequences of the simulated bank and network, judged by invariants during the run and a reference model of the bank afterwards. It samples; it proves nothing about runs it did not make.',
}
TECH = {
 'P06': 'deterministic simulation: the same bank history replayed under two clock schedules and time zones, results compared with each other and with the bank model',
 'P14': 'deterministic simulation: the same bank history replayed under two map iteration schedules, posts compared; invariants on every post',
 'P19': 'deterministic simulation: seeded scheduler switches tasks at statement boundaries; posts and results compared with solo runs',
 'P20': 'deterministic simulation of HTTP and base64 transports over faulty connections and bodies, byte-exact comparison at both ends',
 'P21': 'deterministic simulation of client construction and operation for directory entries and explicit settings, posts compared with an independent reading of the directory',
 'P22': 'deterministic simulation of the parser on a faulty medium and of the import tool on a simulated disk with faults, against an independent reader',
 'P26': 'deterministic simulation of histories of key generation, signing and encryption over a failing and short-reading random source and a simulated clock; signatures verified over the bytes sent',
 'P25': 'deterministic simulation of histories of tool invocations (new process each, durable configuration) against the simulated bank and network with fault injection',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIM:
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
            'evidence_file': f'evidence/{i}.json',
            'technique': TECH.get(i, 'deterministic simulation with fault injection: whole client against a simulated bank, network, clock and random source; invariants per message and a reference model of the results'),
            'level': 'exploration', 'level_note': NOTE['exploration']})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'none in /repo', 'enable': 'go build -overlay: tools/instrument writes instrumented copies of the working tree\'s non-test sources into the build folder; the shipped sources hold no hooks', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
open(V + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
