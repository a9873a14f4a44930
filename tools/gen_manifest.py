#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/counts.py and the tables below."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from sim.counts import RUNS   # noqa: E402

TECH = 'deterministic simulation with fault injection: '
WHAT = {
    'C01': 'seeded histories of register reads over simulated TCP, TLS, serial lines and map files, checked against register histories of the devices',
    'C02': 'seeded histories of register writes with lost, cut and refused exchanges, checked against the requests the devices applied',
    'C03': 'simulated servers parse every byte sent; request coverage and limits checked per call',
    'C04': 'network, port, device and file faults at every point of an operation; error classes checked',
    'C05': 'virtual clock: time waited without data measured against the configured timeout, delays just inside and outside it',
    'C06': 'histories of failures and interruptions followed by quiet; the next operation must succeed',
    'C07': 'every simulated socket accounted for after every operation, failure and interruption',
    'C08': 'seeded histories of opens, closes and failures on shared simulated serial ports against a reference model of the handle',
    'C09': 'scans of simulated devices with generated models, layouts and faults, checked against the layout',
    'C10': 'virtual clock and exchange log: pacing and cancellation of scans',
    'C11': 'model reads with faults and register changes in flight, checked against an independent decoder and the register history',
    'C12': 'exchange log against point boundaries while the device changes its registers between requests',
    'C13': 'seeded histories of point changes and writes, exchange log against an independent encoder',
    'C14': 'model writes failing or interrupted at every exchange, then retried; pending set followed by a reference model',
    'C15': 'every plan executed twice, tracing off and on, and the histories compared',
    'C16': 'definition and map files missing, cut, corrupt or failing to open during the run, then healed',
    'C17': 'simulated TLS servers with good and bad certificates behind real SSLContext settings',
    'C18': 'real threads released one at a time by a seeded scheduler at line granularity, compared with each thread alone',
    'C19': 'the same history executed over simulated TCP, serial line and map file and compared',
    'C20': 'the script run in-process against simulated devices and faults, its output parsed and compared with the device',
    'C21': 'simulated wall clock with jumps and time zones; records stamped, serialised and parsed along seeded histories',
    'C23': 'devices saved, processes ended in the middle of a write and restarted, documents damaged or unreadable, loaded and compared with the saved state',
    'C24': 'register maps built, written, saved, processes ended in the middle of a write and restarted, documents damaged, loaded and compared with a model',
    'C25': 'definitions generated with texts, units and symbols, found, changed, damaged and healed along seeded histories of scans; every model '
           'type compared with the definition in force after every operation',
    'C26': 'devices scanned, read, set and written along seeded histories with changing registers and definitions and faults; pairs of them and of '
           'all their parts compared and judged by the attributes both expose',
}
WHAT['C27'] = ('devices of generated layouts scanned, read, set and written with faults; names, items, aliases and texts of all scripting objects '
               'compared with the values of the points after every operation')
NOT_APPLICABLE = {
    'C22': 'a pure function of its input: no schedule, clock, I/O or fault takes part, so there is nothing to simulate (decoding and encoding as '
           'used in real exchanges are covered by C11 and C13)',
}
NOTE = ('exploration by seeded sampling: a clean run is evidence for the schedules and faults executed, not a proof. Trusted: the simulated sockets, '
        'serial ports, clock and devices, and the reference model. All code under sunspec/ is real.')


def main():
    props = [json.loads(line)['id'] for line in open(os.path.join(VERIF, 'properties.jsonl'))]
    checks = []
    na = []
    for p in props:
        if p in RUNS:
            checks.append({'property': p, 'quick_cmd': '/opt/venv/bin/python check.py %s' % p,
                           'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python check.py %s' % p,
                           'evidence_file': 'evidence/%s.json' % p, 'technique': TECH + WHAT[p], 'level': 'exploration', 'level_note': NOTE})
        else:
            na.append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'check not built yet')})
    doc = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -W ignore -c "import sim.harness, sim.env; sim.env.preload()"',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the simulator replaces socket.socket, serial.Serial, SSLContext.wrap_socket, the clocks, sleep and open() from '
                    'outside. Replay a violation with: /opt/venv/bin/python check.py --replay FILE'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


main()
