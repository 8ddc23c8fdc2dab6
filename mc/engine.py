'''
Exhaustive exploration engine shared by every check.

A check module supplies
    PROP            property id
    configs(tier)   deterministic iterator over the (finite) configuration space: JSON-able dicts
    check(cfg)      drives the real code through *every* behaviour of that configuration and compares it with the
                    reference model; returns a Stats object; raises Violation if the property is broken
    DESCRIPTION     dict of strings copied into the evidence file

The engine shards the space over forked worker processes, detects crashes (GLPK abort()s the process) and hangs,
writes the evidence file, and prints VIOLATION / KNOWN-FINDING lines.
'''

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HYLAA_REPO', '/repo')
CFG_TIMEOUT = 150.0  # seconds a single configuration may take before it counts as a hang


class Violation(Exception):
    'the property is broken on the current configuration'

    def __init__(self, msg, vkey=None):
        Exception.__init__(self, msg)
        self.vkey = vkey


class Marginal(Exception):
    'the configuration sits on a numerical tie where either answer is right: not decided (counted, not judged)'


class Stats:
    'measured coverage of one configuration'

    __slots__ = ('states', 'transitions', 'traces', 'counters', 'sample')

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.counters = {}
        self.sample = None

    def count(self, name, num=1):
        'increment a named counter'
        self.counters[name] = self.counters.get(name, 0) + num


def cfg_key(cfg):
    'stable short key of a configuration'
    return hashlib.sha1(json.dumps(cfg, sort_keys=True, default=str).encode()).hexdigest()[:12]


def setup_process(quiet=True):
    'make the repository importable and silence its chatter'

    os.environ.setdefault('MPLBACKEND', 'Agg')
    for var in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ.setdefault(var, '1')
    sys.dont_write_bytecode = True

    if REPO not in sys.path:
        sys.path.insert(0, REPO)

    if quiet:
        sys.stdout.flush()
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)


def run_one(mod, cfg):
    'run one configuration, returns (stats_or_None, violation_or_None (msg, key), marginal)'

    try:
        return mod.check(cfg), None, False
    except Marginal:
        return None, None, True
    except Violation as e:
        return None, (str(e), e.vkey or cfg_key(cfg)), False
    except Exception as e: # pylint: disable=broad-except
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.name}' for f in reversed(tb[-4:]))
        return None, (f'exception {type(e).__name__}: {str(e)[:300]} at {where}', cfg_key(cfg)), False


def _worker(modname, tier, wid, nxt, cur, tcur, conn, max_viol):
    'worker process: explore chunks of configurations, taken from a shared counter, until there are none left'

    errfile = os.dup(2)
    setup_process()

    try:
        mod = importlib.import_module(modname)

        agg = Stats()
        cfgs = marg = 0
        viols = []
        samples = []

        chunk = getattr(mod, 'CHUNK', 4)
        upto = -1

        for index, cfg in enumerate(mod.configs(tier)):
            if index >= upto: # done with the chunk: take the next one
                with nxt.get_lock():
                    begin = nxt.value
                    nxt.value += chunk
                upto = begin + chunk

            if index < begin:
                continue

            tcur[wid] = time.time()
            cur[wid] = index

            st, viol, marginal = run_one(mod, cfg)
            cfgs += 1

            if marginal:
                marg += 1
            elif viol:
                viols.append((index, cfg, viol[0], viol[1]))
                conn.send(('viol', wid, viols[-1]))

                if len(viols) >= max_viol:
                    break
            else:
                agg.states += st.states
                agg.transitions += st.transitions
                agg.traces += st.traces

                for k, v in st.counters.items():
                    agg.counters[k] = agg.counters.get(k, 0) + v

                if st.sample is not None and len(samples) < 2:
                    samples.append({'config': cfg, 'observed': st.sample})

            if cfgs % 50 == 0:
                conn.send(('prog', wid, cfgs))

        cur[wid] = -1
        conn.send(('done', wid, (cfgs, marg, agg.states, agg.transitions, agg.traces, agg.counters, samples)))
    except BaseException: # pylint: disable=broad-except
        os.write(errfile, traceback.format_exc().encode())
        conn.send(('err', wid, traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0) # skip atexit handlers of libraries


def load_known(prop):
    'known finding keys of this property'

    rv = {}
    path = os.path.join(VERIF, 'known_findings.txt')

    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                line = line.strip()

                if line.startswith('finding:') and f'property={prop} ' in line:
                    key = line.split('key=')[1].split()[0]
                    rv[key] = line.split(f'key={key}', 1)[1].strip()

    return rv


def explore(modname, tier, budget):
    'explore the whole space, returns the exit code'

    mod = importlib.import_module(modname)
    prop = mod.PROP
    start = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = load_known(prop)

    ncpu = os.cpu_count() or 4
    num = max(1, min(getattr(mod, 'WORKERS', ncpu), ncpu))
    ctx = mp.get_context('fork')
    nxt = ctx.Value('q', 0)
    cur = ctx.Array('q', [-2] * num, lock=False)
    tcur = ctx.Array('d', [time.time()] * num, lock=False)

    procs = []
    conns = {}

    for wid in range(num):
        parent, child = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(modname, tier, wid, nxt, cur, tcur, child, 3 + len(known)))
        p.start()
        child.close()
        procs.append(p)
        conns[wid] = parent

    total = dict(cfgs=0, marg=0, states=0, transitions=0, traces=0)
    counters = {}
    samples = []
    viols = []
    live = set(range(num))
    errors = []
    out_of_time = False
    progress = {}

    def cfg_of(index):
        for i, cfg in enumerate(mod.configs(tier)):
            if i == index:
                return cfg
        return None

    while live:
        ready = mp.connection.wait([conns[w] for w in live], timeout=0.5)

        for c in ready:
            wid = next(w for w in live if conns[w] is c)

            try:
                kind, _, payload = c.recv()
            except EOFError:
                # the worker died in the middle of a configuration
                procs[wid].join()
                idx = cur[wid]
                cfg = cfg_of(idx) if idx >= 0 else None
                msg = f'the process died (exit code {procs[wid].exitcode}) while running this configuration'
                viols.append((idx, cfg, msg, cfg_key(cfg)))
                live.discard(wid)
                continue

            if kind == 'viol':
                viols.append(payload)
            elif kind == 'prog':
                progress[wid] = payload
            elif kind == 'err':
                errors.append(payload)
                live.discard(wid)
            else:
                cfgs, marg, states, trans, traces, cnt, smp = payload
                total['cfgs'] += cfgs
                total['marg'] += marg
                total['states'] += states
                total['transitions'] += trans
                total['traces'] += traces
                samples += smp

                for k, v in cnt.items():
                    counters[k] = counters.get(k, 0) + v

                live.discard(wid)

        now = time.time()

        for wid in list(live):
            if cur[wid] >= 0 and now - tcur[wid] > CFG_TIMEOUT:
                idx = cur[wid]
                cfg = cfg_of(idx)
                viols.append((idx, cfg, f'no answer within {CFG_TIMEOUT} seconds (hang)', cfg_key(cfg)))
                procs[wid].kill()
                live.discard(wid)

        if len([v for v in viols if v[3] not in known]) >= 4:
            break

        if now - start > budget:
            out_of_time = True
            break

    for p in procs:
        if p.is_alive():
            p.kill()
        p.join()

    if errors and not viols:
        print(errors[0])
        print(f'{prop}: the check itself failed')
        return 2

    new = [v for v in viols if v[3] not in known]
    seen_known = sorted({v[3] for v in viols if v[3] in known})
    wall = time.time() - start

    for key in seen_known:
        print(f'KNOWN-FINDING: property={prop} {known[key]}')

    if out_of_time:
        total['cfgs'] = sum(progress.values()) + total['cfgs']

    if not out_of_time and not viols and hasattr(mod, 'min_counts'):
        # vacuity guard: the exploration must have reached the situations the property is about
        for name, least in mod.min_counts(tier).items():
            if counters.get(name, 0) < least:
                print(f'{prop}: exploration was vacuous: counter {name}={counters.get(name, 0)} < {least}')
                if not new:
                    return 2

    write_evidence(mod, tier, seed, total, counters, samples, wall, not out_of_time and not new, len(new))

    print(f'{prop} [{tier}] configurations={total["cfgs"]} undecided_ties={total["marg"]} states={total["states"]} '
          f'transitions={total["transitions"]} traces={total["traces"]} wall={wall:.1f}s'
          + (' (time budget reached, not exhaustive)' if out_of_time else ''))

    if new:
        new.sort(key=lambda v: v[0])
        idx, cfg, msg, key = new[0]
        path = write_replay(modname, prop, tier, idx, cfg, msg, key)
        print(f'  config #{idx} key={key}: {msg}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1

    return 0


def write_replay(modname, prop, tier, idx, cfg, msg, key):
    'write the replay artefact'

    folder = os.path.join(VERIF, 'replay')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f'{prop}.json')

    with open(path, 'w', encoding='utf-8') as f:
        json.dump({'property': prop, 'module': modname, 'tier': tier, 'index': idx, 'key': key, 'violation': msg,
                   'config': cfg, 'how': f'bash /verif/run.sh --replay replay/{prop}.json'}, f, indent=1, default=str)

    return os.path.relpath(path, VERIF)


def write_evidence(mod, tier, seed, total, counters, samples, wall, exhaustive, nviol):
    'write evidence/<prop>.json'

    folder = os.path.join(VERIF, 'evidence')
    os.makedirs(folder, exist_ok=True)

    cov = {'states': total['states'], 'transitions': total['transitions'],
           'traces_validated_against_impl': total['traces'],
           'configurations': total['cfgs'], 'undecided_numerical_ties': total['marg'],
           'exhaustive': bool(exhaustive),
           'samples': samples[:4] or [{'note': 'no passing configuration finished in this run'}]}

    if cov['configurations'] == cov['traces_validated_against_impl']:
        del cov['configurations'] # one trace per configuration: not listed twice

    for k, v in sorted(counters.items()):
        cov['count_' + k] = v

    for k, v in getattr(mod, 'DESCRIPTION', {}).items():
        if k != 'assumptions':
            cov[k] = v

    ev = {'property': mod.PROP, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(mod, 'DESCRIPTION', {}).get('assumptions', [])),
          'wall_s': round(wall, 2), 'violations': nviol}

    with open(os.path.join(folder, f'{mod.PROP}.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, default=str)


def replay(path):
    'replay a violation artefact'

    with open(path, encoding='utf-8') as f:
        data = json.load(f)

    mod = importlib.import_module(data['module'])
    cfg = data['config']
    st, viol, marginal = run_one(mod, cfg)

    if viol:
        print(f'reproduced: {viol[0]}')
        print(f"VIOLATION property={data['property']} replay={path}")
        return 1

    print('not reproduced' + (' (tie)' if marginal else '') + (f' states={st.states}' if st else ''))
    return 0
