#!/usr/bin/env python3
"""Random multi-threaded histories run by Miri: generates the cases, runs batches of them under random schedules, shrinks failures, writes the evidence."""
import json, os, random, re, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP, TIER, SEED = sys.argv[1], os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1'))
OPS = {'C14': ['clone', 'drop', 'downgrade', 'upgrade', 'read', 'get_mut', 'is_unique', 'make_mut', 'into_inner', 'clone weak', 'drop weak', 'counts', 'into/from_raw', 'give', 'take', 'yield', 'force_upgrade', 'rotate weak'],
       'C17': ['load', 'store new', 'store held', 'store null', 'compare_exchange with new', 'compare_exchange with held', 'is', 'drop', 'read', 'yield']}
OPS['C28'] = ['as_ref', 'as_ref', 'deref', 'yield']
SETOPS = ['insert', 'get', 'insert if absent', 'nothing', 'yield']
REGOPS = ['register', 'register twice']
KINDS = {'C28': ['matching import', 'mismatching import', 'canaried import'], 'C14': ['Arc', 'Dyn<Arc>', 'ArcSlice', 'ArcStr'], 'C17': ['AtomicArc', 'AtomicArcBTreeSet', 'AtomicArcBTreeSet (replacing)', 'VtBtree', 'VtVec']}
RULE = {'C28': 'random accesses to one import by 2-3 threads; non-trivial: at least two threads operate, three operations in all',
        'C14': 'random handles to one value spread over 2-3 threads (and possibly kept by the main one), random operations on them; non-trivial: at least two threads operate, three operations in all',
        'C17': 'random operations of 2-3 threads on one cell, set or registry; non-trivial: at least two threads operate, three operations in all'}
def plan14(r):
    kind = r.choice([0, 0, 0, 1, 2, 2, 3])
    n = r.choice([2, 2, 2, 3, 3])
    # what the main thread keeps meanwhile: nothing, a strong handle, a weak one
    opts = [r.choice([0, 0, 0, 0, 1, 2])]
    # (strong, weak) handles of each thread
    for _ in range(n): opts += r.choice([(1, 0), (1, 0), (1, 0), (1, 1), (0, 1), (0, 1), (2, 0), (0, 2), (1, 2)])
    # few kinds of operation in one case, so that they meet
    all_ = [[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17], [0, 1, 2, 4, 5, 9, 10, 13, 14, 15, 17], [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 17], [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 13, 14, 15, 16, 17]][kind]
    pool = list(all_)
    if r.random() < .7: pool = [r.choice(all_) for _ in range(r.choice([2, 3, 4]))] + [1, 5] + ([3] if kind != 1 else []) + [r.choice([x for x in (4, 2, 10, 6) if x in all_])]
    return kind, opts, [[(r.choice(pool), r.randrange(4)) for _ in range(r.choice([1, 2, 3, 3, 4, 5, 6]))] for _ in range(n)]
def plan17(r):
    kind = r.choice([0, 0, 0, 1, 1, 2, 3, 4])
    n = r.choice([2, 2, 2, 3, 3])
    if kind == 0:
        opts = [r.choice([0, 1, 1, 1]), r.choice([0, 1]), r.choice([0, 1])]
        pool = [0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9] if r.random() < .4 else [r.choice([0, 1, 4, 5]) for _ in range(3)] + [0, 8, 7]
        return kind, opts, [[(r.choice(pool), r.randrange(4)) for _ in range(r.choice([1, 2, 3, 3, 4, 5]))] for _ in range(n)]
    if kind < 3:
        opts = [r.choice([0, 0, 1, 2, 4, 5, 6, 11]), r.choice([0, 1])]
        keys = r.choice([2, 3, 8])
        pool = [0, 0, 1, 2, 2, 3, 4] if r.random() < .5 else [0, 2, 1]
        return kind, opts, [[(r.choice(pool), r.randrange(keys)) for _ in range(r.choice([1, 2, 3, 4]))] for _ in range(n)]
    return kind, [r.choice([0, 0, 1, 3, 6]), 0], [[(r.choice([0, 0, 1]), r.randrange(r.choice([1, 3, 8]))) for _ in range(r.choice([1, 2, 3, 4]))] for _ in range(n)]
def plan28(r):
    n = r.choice([2, 2, 3])
    return r.choice([0, 0, 0, 1, 2]), [0], [[(r.choice([0, 0, 1, 2, 2, 3]), 0) for _ in range(r.choice([1, 1, 2, 3]))] for _ in range(n)]
PLAN = {'C14': plan14, 'C17': plan17, 'C28': plan28}[PROP]
def enc(p):
    b = [p[0], len(p[1])] + list(p[1]) + [len(p[2])]
    for t in p[2]:
        b.append(len(t))
        for o in t: b += o
    return ''.join(chr(48 + x) for x in b)
def describe(p):
    names = OPS[PROP] if PROP != 'C17' else OPS['C17'] if p[0] == 0 else SETOPS if p[0] < 3 else REGOPS
    return f'{KINDS[PROP][p[0]]} {p[1]}; ' + '; '.join(f'thread {i}: ' + ', '.join(f'{names[o % len(names)]}({a})' for o, a in t) for i, t in enumerate(p[2]))
def nontrivial(p):
    n = [len(t) for t in p[2]]
    return sum(x > 0 for x in n) >= 2 and sum(n) >= 3
FLAGS = '-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-disable-validation -Zmiri-provenance-gc=100000'
ENV = {k: v for k, v in os.environ.items() if k not in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR')}
ENV['CARGO_NET_OFFLINE'] = 'true'
CMD = ['cargo', '+nightly', 'miri', 'run', '--offline', '--quiet', '--manifest-path', f'{HERE}/m/Cargo.toml', '--target-dir', f'{HERE}/target/miri', '--', PROP]
HANG = 180
def miri(plans, seed, rate, many=None):
    """-> (index of the failing case or None, message, cases done)"""
    flags = f'{FLAGS} -Zmiri-preemption-rate={rate} -Zmiri-seed={seed}' if many is None else f'{FLAGS} -Zmiri-preemption-rate={rate} -Zmiri-many-seeds={seed}..{seed + many}'
    p = subprocess.Popen(CMD + [''.join(enc(x) for x in plans)], env=dict(ENV, MIRIFLAGS=flags), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    last, seen = [time.time()], [None]
    err = []
    te = threading.Thread(target=lambda: err.extend(p.stderr.readlines()))
    te.start()
    def out():
        for l in p.stdout:
            last[0] = time.time()
            m = re.match(r'#(\d+)', l)
            if m: seen[0] = int(m.group(1))
    to = threading.Thread(target=out)
    to.start()
    hung = False
    while p.poll() is None:
        time.sleep(.02)
        if time.time() - last[0] > HANG + 30 * (many or 0):
            hung = True
            p.kill()
    te.join(); to.join()
    if p.returncode == 0: return None, '', len(plans)
    err = ''.join(err)
    m = re.search(r'^error: (?!aborting|process)(.*)', err, re.M)
    k = re.search(r'panicked at.*\n(.*)', err)
    where = re.findall(r'at (/repo/[^\n]*)', err)
    msg = 'a thread never finished' if hung else (k.group(1) if k else m.group(1) if m else err[-300:])
    if where: msg += f' (in {where[0]})'
    return (seen[0] if seen[0] is not None else -1), msg, seen[0] or 0
def main():
    t0 = time.time()
    cases, size = {'C14': {'quick': (8000, 100), 'thorough': (160000, 200)}, 'C17': {'quick': (3200, 50), 'thorough': (64000, 160)}, 'C28': {'quick': (4000, 250), 'thorough': (160000, 1000)}}[PROP][TIER]
    cases = int(os.environ.get('MIRI_CASES', cases))
    # build, and one case to see that it runs
    r = subprocess.run(CMD + [''], env=dict(ENV, MIRIFLAGS=FLAGS), capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-3000:])
        print(f'ERROR: the harness of {PROP} does not build against /repo')
        sys.exit(2)
    lock = threading.Lock()
    todo = list(range(cases // size))[::-1]
    total, nt, labels, samples, fail = [0], set(), {}, [], []
    def batch(b):
        r = random.Random(SEED * 1000003 + b)
        return [PLAN(r) for _ in range(size)], SEED * 100003 + b, r.choice(['0.01', '0.03', '0.1', '0.3'])
    def work():
        while not fail:
            with lock:
                if not todo: return
                b = todo.pop()
            plans, seed, rate = batch(b)
            k, msg, done = miri(plans, seed, rate)
            with lock:
                total[0] += done
                for p in plans[:done]:
                    if nontrivial(p): nt.add(hash(enc(p)))
                    labels[KINDS[PROP][p[0]]] = labels.get(KINDS[PROP][p[0]], 0) + 1
                if b % 16 == 0 and len(samples) < 6: samples.append(f'batch {b} (Miri seed {seed}, preemption rate {rate}): {describe(plans[0])}; PASS')
                if k is not None: fail.append((b, k, msg))
    ts = [threading.Thread(target=work) for _ in range(8)]
    for t in ts: t.start()
    for t in ts: t.join()
    viol = 0
    if fail:
        viol = 1
        b, k, msg = min(fail)
        plans, seed, rate = batch(b)
        print(f'{PROP}: batch {b} case {k}: {msg}')
        os.makedirs(f'{HERE}/replays', exist_ok=True)
        rep = f'{HERE}/replays/{PROP}.replay'
        # alone, under other schedules; then without each operation
        best = None
        if k >= 0:
            end = time.time() + 120
            def fails(p):
                i, m, _ = miri([p], seed, rate, 64)
                return m if i is not None else None
            m = fails(plans[k])
            if m:
                best, msg = plans[k], m
                again = True
                while again and time.time() < end:
                    again = False
                    for t in range(len(best[2])):
                        for o in range(len(best[2][t])):
                            if time.time() > end: break
                            c = (best[0], best[1], [x if i != t else x[:o] + x[o + 1:] for i, x in enumerate(best[2])])
                            m = fails(c)
                            if m:
                                best, msg, again = c, m, True
                                break
                        if again: break
        with open(rep, 'w') as f:
            f.write(f'# property {PROP}: {msg}\n')
            if best:
                f.write(f'# {describe(best)}\n')
                f.write(f"# re-run: MIRIFLAGS='{FLAGS} -Zmiri-preemption-rate={rate} -Zmiri-many-seeds={seed}..{seed + 64}' {' '.join(CMD)} '{enc(best)}'\n")
            else:
                f.write(f'# {describe(plans[k]) if k >= 0 else "before the first case"}\n')
                f.write(f"# re-run: MIRIFLAGS='{FLAGS} -Zmiri-preemption-rate={rate} -Zmiri-seed={seed}' {' '.join(CMD)} '{''.join(enc(x) for x in plans[:max(k, 0) + 1])}'\n")
        print(open(rep).read())
        print(f'VIOLATION property={PROP} replay={rep}')
    ev = {'property': PROP, 'tier': TIER, 'seed': SEED, 'level': 'exploration', 'coverage': {'evaluations': total[0], 'distinct_nontrivial': len(nt), 'rule': RULE[PROP], 'labels': labels, 'samples': samples},
          'assumptions': ["Miri's model of threads, memory and weak memory; one schedule is tried per case (64 when shrinking)"], 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    if PROP == 'C28':
        # the other half of this check has just written its own
        try: old = json.load(open(f'{HERE}/evidence/C28.json'))
        except (OSError, ValueError): old = None
        if old:
            a, b = old['coverage'], ev['coverage']
            a['evaluations'] += b['evaluations']; a['distinct_nontrivial'] += b['distinct_nontrivial']
            a['rule'] += '; under Miri: ' + b['rule']
            if isinstance(a.get('labels'), dict): a['labels'].update({'Miri/' + k: v for k, v in b['labels'].items()})
            a['samples'] = a['samples'] + b['samples'][:3]
            old['assumptions'] = list(old.get('assumptions', [])) + ev['assumptions']
            old['wall_s'] = round(old['wall_s'] + ev['wall_s'], 2); old['violations'] = old.get('violations', 0) + viol
            ev = old
    json.dump(ev, open(f'{HERE}/evidence/{PROP}.json', 'w'), indent=1)
    print(f'{PROP}: {total[0]} cases, {len(nt)} distinct non-trivial, {time.time() - t0:.1f}s, {"no violation" if not viol else "violated"}')
    sys.exit(viol)
main()
