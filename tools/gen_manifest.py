#!/usr/bin/env python3
# Writes MANIFEST.json from the list of checks.
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = {
 'C01': 'runtime monitoring: concurrent histories recorded at the client boundary of real stores, checked offline for linearizability (porcupine), with injected delays',
 'C02': 'runtime monitoring: recorded batch saves with injected encoder and storage faults, judged by a reference model of the log over every view',
 'C03': 'runtime monitoring: concurrent writers and readers recorded, offline order checker over global numbers and every view',
 'C04': 'runtime monitoring: generated operation sequences judged after each step by a reference model of the log',
 'C05': 'runtime monitoring: generated and concurrent deletions judged by a reference model and a history checker',
 'C06': 'runtime monitoring with fault injection: every file operation of goleveldb is recorded, the disk is rebuilt at crash points (process kill and power loss) and reopened by the real code',
 'C07': 'runtime monitoring: online recorders on every subscription compared offline with the final log (exactly once, in order), with delays injected',
 'C08': 'runtime monitoring: fault-injected subscribers (stuck, failing, panicking connection, stopped) with recorders on the healthy ones and deadline monitors on writers',
 'C09': 'runtime monitoring with fault injection: storage, network and serializer faults and cancellations injected; an oracle compares each partial result with its reported error',
 'C10': 'runtime monitoring: deadline and goroutine monitors over hostile mixes of stuck, cancelled and abandoned operations',
 'C11': 'runtime monitoring: randomized and hostile records through the real serializers with a losslessness oracle',
 'C12': 'runtime monitoring: generated record streams exported and imported by the real code, cut and damaged at every kind of place, with a losslessness and truncation oracle',
 'C13': 'runtime monitoring: differential monitor running the same operations on a served and an embedded store',
 'C14': 'runtime monitoring: generated HTTP requests against the real API with a reference model deciding every answer and the state after it',
 'C15': 'runtime monitoring: recorders on real WebSocket connections compared with the final log, with cut and stalled clients',
 'C16': 'runtime monitoring: byte-level monitor on the store underneath the encrypting store and a reference oracle for what each reader may see',
 'C17': 'runtime monitoring: randomized round trips, mutation of ciphertexts, and a monitor on the randomness actually consumed',
 'C18': 'runtime monitoring: concurrent key-store histories checked offline against the set-once/delete-once specification, with fake Vault and DynamoDB servers that inject staleness and faults',
 'C19': 'runtime monitoring: projections and snapshots compared at every quiescent point with a fold over the recorded log',
 'C20': 'race detector (ThreadSanitizer runtime of Go) over hostile concurrent workloads, plus a monitor that records handed out never change afterwards',
 'C21': 'runtime monitoring: generators run on generated inputs, their output compiled and executed, its behaviour observed by an oracle',
 'C22': 'runtime monitoring: a crawler follows the paging links of the real web interface and compares what it saw with the recorded log',
 'C24': 'runtime monitoring with fault injection: the real server binary is killed, interrupted and restarted under concurrent HTTP, gRPC and WebSocket clients, an offline checker compares every interface with the ledger of answers',
 'C23': 'runtime monitoring: dispatched commands and process managers observed against a reference model of the domain',
}
LEVEL = {'C06': 'fault_enumeration', 'C09': 'fault_enumeration'}
def note(pid):
    return 'Oracle over executions of the real code; see DESIGN.md section ' + pid + ' for the workloads, the oracle and its limits.'
have = set()
for f in os.listdir(os.path.join(here, 'harness')):
    if f.endswith('.go'):
        have |= set(re.findall(r'checks\["(C\d\d)"\]', open(os.path.join(here, 'harness', f)).read()))
        have |= set(re.findall(r'\n\s*"(C\d\d)":\s', open(os.path.join(here, 'harness', f)).read()))
checks, na = [], []
for p in props:
    pid = p['id']
    if pid not in have:
        na.append({'property': pid, 'reason': 'runtime monitoring applies; its monitor is still being built'})
        continue
    checks.append({'property': pid, 'quick_cmd': './run.sh ' + pid,
                   'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + pid,
                   'technique': TECH[pid], 'level': LEVEL.get(pid, 'exploration'), 'level_note': note(pid)})
m = {'version': 1, 'setup_cmd': './build.sh && ./build.sh race',
     'hooks': {'guard': 'none', 'enable': 'no hooks in /repo are needed: the monitors use the public interfaces, and the storage hook lives in a patched copy of goleveldb under /verif/.build', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'known_findings.txt lists recorded defects and repairs. VERIF_SEED chooses every workload.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
