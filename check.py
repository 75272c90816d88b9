#!/usr/bin/env python3
"""check.py <property> [quick|thorough] - decides one property by seeded simulation of the real application.

Builds the simulator and the application from /repo's working tree, searches, confirms any violation by replaying its
file in a fresh process, writes evidence/<property>.json.  Exit 0 held, 1 violated, 2 no answer.
"""
import json, os, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'tools'))
import build  # noqa: E402

WORKERS = max(1, min(8, os.cpu_count() or 8))
# (build, runs, seconds) per phase; a quick phase is bounded by its runs, a thorough one by its seconds
QUICK = [('plain', 100000, 400)]
QUICK_MEM = [('asan', 24000, 400), ('plain', 24000, 300)]
THOROUGH = [('plain', 10 ** 8, 400), ('asan', 10 ** 8, 100)]
THOROUGH_MEM = [('asan', 10 ** 8, 330), ('plain', 10 ** 8, 170)]
QUICK_OF = {'C14': QUICK_MEM, 'C20': [('plain', 50000, 400)]}  # C14 and C20 run everything twice on the plain build
THOROUGH_OF = {'C14': THOROUGH_MEM}

RULE = {
    'C01': 'a signature was released and verified',
    'C02': 'a signature was released, or the user refused something',
    'C03': 'an output was shown to the user or accepted silently',
    'C04': 'the final summary was shown, or sums overflowed',
    'C05': 'frames of an attested box were returned',
    'C06': 'a frame was presented as an input',
    'C07': 'two sessions were granted, or one was ended by a wrong command',
    'C08': 'a command arrived while a prompt was on the display',
    'C09': 'the fault-free closing transaction was driven to its end after the disturbed part',
    'C10': 'a prompt was shown or a trusted application was let through',
    'C11': 'a system call failed, randomness was degenerate, or power was cut inside a command',
    'C12': 'a signature was released',
    'C13': 'memory was searched after secrets had entered the application',
    'C14': 'at least two commands were executed',
    'C15': 'a key or address was released, or a path refused by policy',
    'C16': 'an upload step was refused',
    'C17': 'a malformed command was delivered',
    'C20': 'a key, frame or signature was released',
}
ASSUME = [
    'The Ledger OS below the SDK boundary is a simulation (sdk/, sim/): key derivation, secp256k1, BLAKE2b, HMAC and randomness '
    'behave as their documentation says except where a fault is injected; SDK failures use documented error codes.',
    'The parsing, buffer, BIP32, base58, varint and UX-flow parts of the Ledger SDK are re-implemented stubs; a defect in the real SDK is out of reach.',
    'The application is compiled for x86-64 by clang, not for the Cortex-M of a device; code generation and stack size of the device are not covered.',
    'The search is a seeded sample of histories, not an enumeration: it can miss a history that no run produced.',
    'BLAKE2b and HMAC collisions and forgeries by chance are taken as impossible.',
]


def log(*a):
    print(*a, flush=True)


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in RULE:
        log('usage: check.py C01..C17, C20 [quick|thorough]')
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    out = os.path.join(V, 'out')
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    known = os.path.join(V, 'known_findings.txt')
    phases = (THOROUGH_OF if tier == 'thorough' else QUICK_OF).get(prop, THOROUGH if tier == 'thorough' else QUICK)
    try:
        built = {k: build.build(k) for k in dict.fromkeys(k for k, _, _ in phases)}
    except build.AppBuildError as e:
        log('the application does not build:\n' + str(e)[-4000:])
        return 2
    build_s = time.time() - t0
    results, violation = [], None
    for kind, runs, secs in phases:
        sim, a0, a1 = built[kind]
        stats = os.path.join(out, '%s-%s-%d.json' % (prop, kind, os.getpid()))
        args = [sim, 'check', 'prop=' + prop, 'tier=' + tier, 'seed=%d' % seed, 'runs=%d' % runs, 'time=%d' % secs, 'workers=%d' % WORKERS,
                'app0=' + a0, 'app1=' + a1, 'out=' + out, 'stats=' + stats, 'known=' + known, 'mintime=40']
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode not in (0, 1):
            log('the simulator gave no answer (exit %d)\n%s%s' % (r.returncode, r.stdout[-2000:], r.stderr[-4000:]))
            return 2
        with open(stats) as f:
            st = json.load(f)
        os.unlink(stats)
        st['build'] = kind
        results.append(st)
        if r.returncode == 1:
            violation = st['violation']
            # the replay must reproduce, exactly, in a process of its own
            g = subprocess.run([sim, 'replay', 'file=' + violation['path'], 'app0=' + a0, 'app1=' + a1, 'strict'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if g.returncode != 1:
                log('the replay file does not reproduce the violation in a fresh process:\n' + g.stdout)
                return 2
            break
    write_evidence(prop, tier, seed, results, violation, built, build_s, time.time() - t0)
    for line in open(known) if os.path.exists(known) else []:
        if line.startswith('KNOWN property=%s ' % prop):
            log('KNOWN-FINDING: property=%s %s' % (prop, line.split(' match=', 1)[1].strip()))
    n = sum(r['counters']['runs'] for r in results)
    if violation:
        log('%s: %s' % (prop, violation['what']))
        log('run %d of seed %d; %d events minimised to %d; replay with: python3 replay.py %s' % (violation['run'], seed, violation['events_before'], violation['events'], violation['path']))
        log('VIOLATION property=%s replay=%s' % (prop, violation['path']))
        return 1
    log('%s held in %d simulated runs (%.1f s)' % (prop, n, time.time() - t0))
    return 0


def write_evidence(prop, tier, seed, results, violation, built, build_s, wall):
    def total(k):
        return sum(r['counters'][k] for r in results)

    def merge(k):
        m = {}
        for r in results:
            for a, b in r[k].items():
                m[a] = m.get(a, 0) + b
        return m
    samples = []
    kind = results[0]['build']
    sim, a0, a1 = built[kind]
    for i in (0, 1, 2):
        s = subprocess.run([sim, 'one', 'prop=' + prop, 'tier=' + tier, 'seed=%d' % seed, 'run=%d' % i, 'app0=' + a0, 'app1=' + a1, 'sample=45'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        samples.append(s.stdout.splitlines())
    if violation:
        samples.insert(0, {'violation': violation['what'], 'replay': violation['path']})
    search = sum(r['search_s'] for r in results)
    runs = total('runs')
    faults = merge('syscall_faults')
    faults = {'system call fails: ' + k: v for k, v in faults.items()}
    faults.update({'random source answers ' + k: v for k, v in merge('rng_kinds').items()})
    faults.update({
        'power cut between commands': total('power_cuts'),
        'power cut before a system call': sum(r['cut_before_call'] for r in results),
        'power cut after a system call': sum(r['cut_after_call'] for r in results),
        'system call fails for the rest of the event': sum(r['sticky_calls'] for r in results),
        'random source fails for the rest of the event': sum(r['sticky_draws'] for r in results),
        'I/O error ends the application': total('io_errors'),
        'message lost': total('net_lost'), 'message duplicated': total('net_dup'), 'message delayed': total('net_delayed'), 'message reordered': total('net_reordered'),
        'host retries': total('retries'), 'host times out': total('timeouts'), 'step of a host dropped, repeated, swapped or altered': total('mutated'),
        'malformed command': total('malformed'), 'command while a prompt is open': total('injected_in_prompt'), 'command of another host in between': total('interleaved'),
    })
    c = {
        'evaluations': runs,
        'distinct_nontrivial': sum(r['distinct_runs'] for r in results),
        'rule': 'One evaluation is one simulated run of the whole application, from power-on, under a schedule and faults drawn from PRF(VERIF_SEED, property, run index). '
                'It is non-trivial when ' + RULE[prop] + '; distinct are runs whose sequence of (model state, event, outcome) differs (24-bit filter, so an undercount).',
        'samples': samples,
        'runs_that_put_the_property_to_the_test': total('nontrivial'),
        'phases': [{'build': r['build'], 'runs': r['counters']['runs'], 'search_s': round(r['search_s'], 2), 'distinct_nontrivial_runs': r['distinct_runs'],
                    'distinct_state_event_outcome_triples': r['transitions']} for r in results],
        'runs_per_hour': int(runs / search * 3600) if search else 0,
        'seeds_per_hour': int(runs / search * 3600) if search else 0,
        'simulated_hours': round(total('sim_ms') / 3.6e6, 2),
        'events': total('events'), 'commands': total('apdus'), 'button_presses': total('buttons'), 'power_ons': total('boots'),
        'faults_injected': faults,
        'observed': {k: total(k) for k in ('signatures', 'frames', 'frames_accepted', 'frames_refused', 'keys', 'sessions', 'session_kills', 'prompts', 'approvals', 'denied', 'screens_checked', 'screens_output',
                                           'screens_final', 'silent_outputs', 'outputs_prompted', 'trusted', 'busy', 'responses_ok', 'responses_err', 'errs_policy', 'errs_order', 'errs_overflow', 'errs_session',
                                           'fault_errors', 'fault_survived', 'scans', 'epilogues', 'huge', 'probes', 'longlife')},
        'max_stack_bytes': max(r['stack_max'] for r in results),
        'runs_ended_by_a_deviation_that_belongs_to_another_property': merge('foreign_by'),
        'device_crashes': merge('crashes'),
        'components': {'real code': 'every .c file under /repo/src (dispatcher, handlers, contexts, UI flows, transaction and box parsing, crypto glue), unmodified',
                       'stub': 'Ledger SDK and OS (sdk/, sim/device.cpp): I/O, UX flow engine, BIP32/base58/varint/buffer library, crypto system calls, randomness',
                       'simulated': 'hosts, transport, user, power, clock (sim/gen.cpp)'},
        'repeatability': 'runs 0-2 executed twice with equal path and final memory; a violation is re-recorded, replayed, minimised and replayed again in a fresh process',
    }
    e = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': c, 'assumptions': ASSUME, 'wall_s': round(wall, 2), 'violations': 1 if violation else 0}
    path = os.path.join(V, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(e, f, indent=1)
    os.replace(path + '.tmp', path)


if __name__ == '__main__':
    sys.exit(main())
