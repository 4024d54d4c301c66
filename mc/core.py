"""Explorer core: enumerate every case, run it on the real code, judge it.

A check is a module checks/<id>.py with
    PROPERTY, RULE, ASSUMPTIONS
    cases(tier)  -> finite list of JSON-able cases, simplest first
    warm()       -> triggers the compilation of the jitted kernels (optional)
    run(case)    -> Result
The complete list is executed; nothing is sampled.  VERIF_SEED only permutes
the order in which cases are handed to the workers.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = int(os.environ.get('MC_CASE_TIMEOUT', '180'))
SOFT_DEADLINE = {'quick': 780, 'thorough': 6 * 3600}


class Result:
    """Verdict of one case."""

    def __init__(self):
        self.viol = []          # [(key, message)]; key identifies the finding
        self.states = set()     # hashes of implementation states visited
        self.transitions = 0    # implementation steps executed
        self.validated = 0      # executions compared with the reference
        self.outcome = 'ok'     # classifies what happened (vacuity check)
        self.nontrivial = True

    def fail(self, msg, key=None):
        self.viol.append((key or msg.split(':')[0], msg))

    def see(self, *objs):
        """Register an implementation state."""
        self.states.add(state_hash(*objs))

    def pack(self):
        return dict(viol=self.viol, states=list(self.states),
                    transitions=self.transitions, validated=self.validated,
                    outcome=self.outcome, nontrivial=self.nontrivial)


def state_hash(*objs):
    h = hashlib.blake2b(digest_size=8)
    for o in objs:
        if hasattr(o, 'tobytes'):
            h.update(o.tobytes())
        else:
            h.update(repr(o).encode())
    return int.from_bytes(h.digest(), 'big') >> 1


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def run_case(mod, case):
    """One execution; a crash of the code under test is a violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        r = mod.run(case)
        out = r.pack()
    except Hang:
        r = Result()
        r.fail('no result: the execution did not end within %d s'
               % CASE_TIMEOUT, 'hang')
        r.outcome = 'hang'
        out = r.pack()
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        r = Result()
        r.fail('unexpected %s: %s | %s' % (
            type(e).__name__, str(e)[:400].replace('\n', ' '),
            ' <- '.join(ln.strip().replace('\n', ' ') for ln in
                        traceback.format_tb(e.__traceback__)[-3:])),
            'crash:' + type(e).__name__)
        r.outcome = 'crash'
        out = r.pack()
    finally:
        signal.alarm(0)
    return out


def _worker(modname, todo, conn):
    mod = importlib.import_module(modname)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('MC_DEBUG'):
        os.dup2(devnull, 2)
    for i, case in todo:
        conn.send(('start', i, None))
        conn.send(('done', i, run_case(mod, case)))
    conn.send(('end', None, None))
    conn.close()
    os._exit(0)


def explore(mod, cases, jobs, deadline, stop_after=20, known=()):
    """Run all cases on forked workers; yields (index, packed result)."""
    ctx = mp.get_context('fork')
    order = list(range(len(cases)))
    random.Random(int(os.environ.get('VERIF_SEED', '1') or 1)).shuffle(order)
    jobs = max(1, min(jobs, len(order)))
    queues = [[(i, cases[i]) for i in order[w::jobs]] for w in range(jobs)]
    live = {}
    results = {}
    last_start = {}
    bad = 0
    t_end = time.time() + deadline
    capped = False

    def launch(w):
        if not queues[w]:
            return
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(mod.__name__, queues[w], b))
        p.start()
        b.close()
        live[a] = (w, p)
        last_start[w] = (None, time.time())

    for w in range(jobs):
        launch(w)
    while live:
        ready = mp.connection.wait(list(live), timeout=5)
        now = time.time()
        if now > t_end:
            capped = True
            break
        for a in ready:
            w, p = live[a]
            try:
                kind, i, out = a.recv()
            except (EOFError, OSError):
                p.join()
                del live[a]
                i = last_start[w][0]
                if i is not None and i not in results:
                    r = Result()
                    r.fail('the interpreter died (exit %s) while running the '
                           'case' % p.exitcode, 'died')
                    r.outcome = 'died'
                    results[i] = r.pack()
                    bad += 1
                    yield i, results[i]
                    queues[w] = [q for q in queues[w] if q[0] not in results]
                    launch(w)
                continue
            if kind == 'start':
                last_start[w] = (i, now)
            elif kind == 'done':
                results[i] = out
                bad += any(v[0] not in known for v in out['viol'])
                if out['outcome'] == 'hang':
                    bad += 4    # do not wait for many of these
                yield i, out
            else:
                p.join()
                a.close()
                del live[a]
        for a, (w, p) in list(live.items()):
            i, t = last_start[w]
            if i is not None and now - t > CASE_TIMEOUT + 60 \
                    and i not in results:
                p.kill()     # stuck inside compiled code: EOF path reports it
        if bad >= stop_after:
            break
    for a, (w, p) in live.items():
        p.kill()
        p.join()
    if capped:
        yield None, 'capped'


def load_known(pid):
    """known_findings.txt: 'KNOWN <id> <key> :: text'."""
    out = []
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for ln in open(fn):
            if ln.startswith('KNOWN '):
                head, text = ln[6:].split('::', 1)
                p, key = head.split(None, 1)
                if p == pid:
                    out.append((key.strip(), text.strip()))
    return out


def write_replay(pid, case, viol):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(case, sort_keys=True)
    fn = os.path.join(d, '%s-%s.json' % (
        pid, hashlib.sha1(blob.encode()).hexdigest()[:10]))
    with open(fn, 'w') as f:
        json.dump({'property': pid, 'case': case, 'violations': viol}, f,
                  indent=1)
    return fn


def main(pid, tier):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        cases = mod.cases(tier)
        if hasattr(mod, 'warm'):
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(2 * CASE_TIMEOUT)
            mod.warm()
            signal.alarm(0)
        setup_error = None
    except BaseException as e:
        mod, cases = None, []
        signal.alarm(0)
        setup_error = e
        tb = traceback.format_exc()
    if setup_error is not None:
        # code under test cannot even be loaded or run its smallest model
        fn = write_replay(pid, {'setup': True}, [['setup', tb]])
        print(tb[-3000:])
        evidence(pid, tier, dict(states=0, transitions=0,
                                 traces_validated_against_impl=0,
                                 samples=[], exhaustive=False),
                 [], time.time() - t0, 1)
        print('VIOLATION property=%s replay=%s' % (pid, fn))
        return 1
    known = load_known(pid)
    jobs = int(os.environ.get('MC_JOBS', '0')) or os.cpu_count() or 4
    states, trans, validated, nontriv = set(), 0, 0, 0
    outcomes, bads, capped, done = {}, [], False, 0
    hits = set()
    t1 = time.time()
    for i, out in explore(mod, cases, jobs, SOFT_DEADLINE[tier] - (t1 - t0),
                          known={k for k, _ in known}):
        if i is None:
            capped = True
            continue
        done += 1
        states.update(out['states'])
        trans += out['transitions']
        validated += out['validated']
        nontriv += bool(out['nontrivial'])
        outcomes[out['outcome']] = outcomes.get(out['outcome'], 0) + 1
        new = []
        for key, msg in out['viol']:
            for k, text in known:
                if key == k:
                    hits.add((k, text))
                    break
            else:
                new.append((key, msg))
        if new:
            bads.append((i, new))
    rc = 0
    for k, text in sorted(hits):
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if bads:
        bads.sort(key=lambda b: b[0])
        i, v = bads[0]
        fn = write_replay(pid, cases[i], v)
        # replay once more in a fresh fork before believing it
        again = [o for j, o in explore(mod, [cases[i]], 1, 400)
                 if j is not None]
        same = bool(again and again[0]['viol'])
        for j, vv in bads[:6]:
            print('case %d %s' % (j, json.dumps(cases[j])[:700]))
            for key, msg in vv[:4]:
                print('   [%s] %s' % (key, msg[:700]))
        print('violating cases: %d of %d run; reproduced on replay: %s'
              % (len(bads), done, same))
        print('VIOLATION property=%s replay=%s' % (pid, fn))
        rc = 1
    cov = dict(
        states=len(states), transitions=trans,
        traces_validated_against_impl=validated,
        evaluations=done, distinct_nontrivial=nontriv,
        rule=mod.RULE,
        samples=[cases[k] for k in sorted({0, len(cases) // 2,
                                           len(cases) - 1})] if cases else [],
        outcomes=outcomes, cases_total=len(cases),
        exhaustive=(done == len(cases) and not capped),
        setup_s=round(t1 - t0, 1),
    )
    if hasattr(mod, 'BOUNDS'):
        cov['bounds'] = mod.BOUNDS
    evidence(pid, tier, cov, mod.ASSUMPTIONS, time.time() - t0, len(bads))
    print('%s %s: %d/%d cases, %d states, %d transitions, outcomes %s, %.0f s'
          % (pid, tier, done, len(cases), len(states), trans,
             dict(sorted(outcomes.items())[:12]), time.time() - t0))
    return rc


def evidence(pid, tier, cov, assumptions, wall, nviol):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(dict(property=pid, tier=tier,
                       seed=int(os.environ.get('VERIF_SEED', '1') or 1),
                       level='model_checking', coverage=cov,
                       assumptions=list(assumptions),
                       wall_s=round(wall, 2), violations=nviol),
                  f, indent=1, default=str)
