#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = 'deterministic simulation: generated histories (workload, crashes, faults, rebalances, schedules) of the real consumer against a simulated Kafka in virtual time, judged by '
SIMN = 'Randomised search over histories, schedules and fault points, not a proof. Trusts the simulated broker (transactions, groups, fencing) and the fake-time scheduler, which interleaves at channel, lock and sleep points.'
PURE = 'generated inputs and operation sequences, shrinking, against '
PUREN = 'Randomised search over inputs and operation sequences, not a proof. '
CLAIMED = {
 'C01': (SIM + 'a reference model of committed effects; shrinking', SIMN),
 'C02': (SIM + 'the order of handler calls and of the committed output log; shrinking', SIMN),
 'C03': (SIM + 'comparing every store a handler sees with the fold of committed changes; shrinking', SIMN),
 'C04': (SIM + 'comparing the first handled offset and every committed position with a model; shrinking', SIMN),
 'C05': (SIM + 'monitoring overlap of all user callbacks per partition and owner; shrinking', SIMN),
 'C06': (SIM + 'exclusion, order, exactly-once, work-conservation and liveness oracles, on the scheduler alone and within a consumer; shrinking', SIMN),
 'C07': (SIM + 'size, exclusion, order, exactly-once and delay oracles, on the batcher alone and within a consumer; shrinking', SIMN),
 'C08': (PURE + 'rules for single plans, and simulated groups (joins, crashes, leaves, delayed preparations) in which every plan and every change of ownership is judged by them', PUREN + 'Groups run against a simulated coordinator.'),
 'C09': (PURE + 'a model of one member and rules for single plans, and simulated groups (joins, crashes, leaves, delayed and failed preparations) judged by convergence, budget and drain oracles', PUREN + 'Groups run against a simulated coordinator; "eventually" is a generous bound in virtual time.'),
 'C10': (SIM + 'interval, exactly-once and liveness oracles over interjections; shrinking', SIMN),
 'C11': (SIM + 'a lifecycle automaton per partition and owner; shrinking', SIMN),
 'C12': (SIM + 'liveness and safety oracles for failures and stops; shrinking', SIMN),
 'C13': (SIM + 'a routing model (type, decoder, default, error verdict); shrinking', SIMN),
 'C14': (SIM + 'comparing every record stored at the broker with the one sent, and every callback with its record; shrinking', SIMN),
 'C15': (PURE + 'an independent murmur2 and partition model, and on where simulated brokers store records', PUREN),
 'C16': (PURE + 'round-trip, order and encoding/json differential oracles', PUREN + 'Concurrent use is sampled with real goroutines.'),
 'C17': (PURE + 'a map and a sorted-map model, with change-log replay', PUREN),
 'C18': (PURE + 'a sorted multiset model', PUREN),
 'C19': (PURE + 'container/list and small reference models', PUREN + 'Concurrent borrowers are sampled with real goroutines.'),
 'C20': (SIM + 'comparing topics, returned configurations and errors at a simulated cluster with a model; shrinking', SIMN),
 'C21': (SIM + 'a nondeterministic model of what the receiver may be handed next; shrinking', SIMN),
 'C22': (SIM + 'bounds on transaction size, number and delay observed at the broker; shrinking', SIMN),
 'C23': (PURE + 'real connections to loopback brokers which verify TLS, SASL IAM signatures and SCRAM, an in-process MSK API with pages, prefixes, failures and rotating credentials, and a model of what must connect; shrinking', PUREN),
 'C24': (SIM + 'comparing group offset commits with the committed position; shrinking', SIMN),
 'C25': (SIM + 'comparing delivered metrics with broker transactions, with slow handlers; shrinking', SIMN),
 'C26': (SIM + 'exactly-once callback and completion oracles under delays and produce errors; shrinking', SIMN),
}
NOT = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=[
    dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i, technique='property-based testing: ' + CLAIMED[i][0], level='exploration', level_note=CLAIMED[i][1])
    for i in ids if i in CLAIMED],
    not_applicable=[dict(property=i, reason=NOT.get(i, 'check not built yet')) for i in ids if i not in CLAIMED],
    notes='No hooks in /repo: harnesses reach the code through its public API, a Go build overlay and simulated brokers.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
