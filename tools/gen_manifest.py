#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C18': 'A pure function of its input: no schedule, fault, clock or history for a simulation to decide; its only stateful use (lengths inside uploaded boxes and transactions) is judged inside C01 and C05.',
    'C19': 'A pure property of single calls on a buffer; a simulated history adds nothing to it. What a device user can observe of it (memory safety, correct parsing) is decided by C14 and C16.',
}
NOTE = {
    'C01': 'Every released signature is checked with an independent secp256k1/BLAKE2b against an independent serialization of the bytes the hosts uploaded in that session.',
    'C02': 'A reference model tracks each approval; any signature response it does not allow is a violation.',
    'C03': 'Every page of every output prompt is compared with the text computed from the uploaded bytes, under arbitrary navigation; silent acceptance is allowed only by a re-implementation of the two documented rules.',
    'C04': 'Totals recomputed with 128-bit integers and compared with the summary pages; overflowing sums must be refused.',
    'C05': 'Box id, value, token list and frame count recomputed from the uploaded bytes; repeated fetches must agree.',
    'C06': 'The set of frames the device issued since power-on decides which input frames may be accepted, whatever was forged, mixed or kept from before a restart.',
    'C07': 'Up to three hosts interleave; the model owns the session; number reuse is checked at each grant.',
    'C08': 'Commands are injected at every page of every prompt; display and outcome must be those of the undisturbed prompt.',
    'C09': 'Answers are counted at the I/O seam, the menu is compared after each decision, and each run ends with a fault-free transaction that must complete in a bounded number of steps.',
    'C10': 'The trusted token is modelled; a prompt must appear exactly when the model says so.',
    'C11': 'The k-th system call of a command fails with a documented code, power is cut around it, or the random source degenerates; the result must be an error with the session closed, or the fault-free result.',
    'C12': 'The simulator knows every private key, recovers the nonce of each released signature and requires it to be in range, drawn in this session, and never repeated across the run, restarts included.',
    'C13': 'After every event the writable image of the application and its whole stack are searched for every private key, key product and nonce handed out since power-on.',
    'C14': 'The same histories under ASan and UBSan with exactly sized buffers, a step budget and assertion traps; on the plain build each run is repeated with other garbage in unused stack and stale buffer bytes and must look the same.',
    'C15': 'Keys and addresses recomputed independently; every path that reaches the derivation system call is checked against the policy and the approvals.',
    'C16': 'Hosts drop, repeat, swap, resize and over-declare upload steps; the model of order, counts and limits says which answers are allowed.',
    'C20': 'Every answer and screen is searched for every secret handed out; lengths and contents of answers are compared with the promised fields, also with other garbage in unused memory.',
    'C17': 'Malformed commands are inserted anywhere, also into sessions and prompts; everything after them must be as if they had never arrived.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s quick' % i,
        'thorough_cmd': 'python3 check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'deterministic simulation with fault injection (seeded search against a reference model)',
        'level': 'exploration',
        'level_note': NOTE[i] + ' Seeded sample of histories, not a proof; trusts the stub SDK and the reference model (sim/), compiled for x86-64.',
    })
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/build.py plain asan',
    'hooks': {'guard': 'ERGO_SIM_HOOKS', 'enable': 'No hook was needed: the Ledger SDK boundary is the seam, the checks compile /repo/src unmodified. The guard is reserved and unused.', 'source_commits': []},
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
    'notes': 'check.py builds from /repo, searches, replays in a fresh process, writes evidence. replay.py FILE re-executes a replay file. See DESIGN.md.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
