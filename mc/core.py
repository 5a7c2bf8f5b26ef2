"""Engine shared by all checks: exhaustive enumeration sharded over processes,
known-findings matching, replay artefacts and evidence.

A check is a list of shards.  Each shard is (name, function, args); the
function gets a Ctx and enumerates *every* case of its part of the bounded
space, running each on the real code in /repo and comparing with a reference
model.  Nothing is sampled; VERIF_SEED only permutes the shard order.
"""
import faulthandler
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

MAX_FAILS_PER_SHARD = 5
CASE_SECONDS = 60


class Hang(BaseException):
    """the code under test did not answer within the case limit"""


class Enough(BaseException):
    """a shard has collected enough violations"""


def _on_alarm(signum, frame):
    raise Hang()


def h64(obj):
    if not isinstance(obj, (bytes, bytearray)):
        obj = repr(obj).encode('utf-8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), 'big')


class Ctx:
    def __init__(self, pid, shard, tier, known):
        self.pid = pid
        self.shard = shard
        self.tier = tier
        self.known = known
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.fails = []
        self.known_hit = {}
        self.notes = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def state(self, key):
        self.states.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def fail(self, sig, expected, got, case=None, site=None):
        """Report one violation.  sig identifies the input exactly.

        site: set when got is exactly what a known defect at that site gives for this input."""
        sig = str(sig)
        k = self.known.get('site ' + site) if site is not None else None
        k = k or self.known.get(sig)
        if k is not None and (k[1] is None or k[1] == show(got)):
            self.known_hit[k[0]] = self.known_hit.get(k[0], 0) + 1
            return
        self.fails.append({'sig': sig, 'expected': show(expected), 'got': show(got),
                           'case': case if case is not None else sig, 'shard': self.shard})
        if len(self.fails) >= MAX_FAILS_PER_SHARD:
            raise Enough()

    def expect(self, sig, expected, got, case=None):
        if expected != got:
            self.fail(sig, expected, got, case)
            return False
        return True


def show(x):
    if isinstance(x, (bytes, bytearray)):
        return 'hex:' + bytes(x).hex()
    if isinstance(x, (dict,)):
        return '{' + ', '.join('%s: %s' % (show(k), show(v)) for k, v in x.items()) + '}'
    if isinstance(x, (list, tuple)):
        return '(' + ', '.join(show(v) for v in x) + ')'
    return x if isinstance(x, str) else repr(x)


def load_known(pid):
    path = os.path.join(HERE, 'known_findings.json')
    data = json.load(open(path))
    known = {}
    texts = {}
    for f in data['findings']:
        if f['property'] != pid:
            continue
        texts[f['id']] = f['what']
        for site in f.get('sites', ()):
            # every input at this site, when the result is the one the defect gives
            known['site ' + site] = (f['id'], None)
        for item in f.get('inputs', ()):
            if isinstance(item, str):
                known[item] = (f['id'], None)
            else:
                known[item['input']] = (f['id'], item.get('got'))
    return known, texts


def _in_repo(tb):
    return any(f.filename.startswith(REPO + '/') for f in traceback.extract_tb(tb))


_JOBS = []       # inherited by the forked workers (shards hold functions that cannot be pickled)


def _run_job(i):
    return _run_shard(_JOBS[i])


def _run_shard(job):
    pid, tier, name, fn, args, known = job
    ctx = Ctx(pid, name, tier, known)
    signal.signal(signal.SIGALRM, _on_alarm)
    err = None
    try:
        fn(ctx, *args)
    except Enough:
        pass
    except Hang:
        ctx.fails.append({'sig': 'hang in shard ' + name, 'expected': 'an answer within %d s' % CASE_SECONDS,
                          'got': traceback.format_exc()[-1500:], 'case': ctx.notes.get('current', name), 'shard': name})
    except BaseException as exc:  # noqa
        text = traceback.format_exc()
        if _in_repo(exc.__traceback__) or isinstance(exc, (ImportError, SyntaxError)):
            # the code under test failed in a way the model never allows
            ctx.fails.append({'sig': 'unexpected failure in shard ' + name, 'expected': 'no internal error',
                              'got': text[-2500:], 'case': ctx.notes.get('current', name), 'shard': name})
        else:
            err = text
    finally:
        signal.alarm(0)
    ctx.notes.pop('current', None)
    return (name, ctx.states, ctx.transitions, ctx.traces, ctx.samples, ctx.fails, ctx.known_hit, ctx.notes, err)


def arm():
    signal.alarm(CASE_SECONDS)


def run_check(pid, build_shards, tier=None, assumptions=(), exhaustive=True, rule=''):
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    known, texts = load_known(pid)
    try:
        shards = build_shards(tier)
    except Exception as exc:
        # importing or constructing the code under test failed
        if not (_in_repo(exc.__traceback__) or isinstance(exc, (ImportError, SyntaxError))):
            raise
        shards = []
        results = [('setup', set(), 0, 0, [], [{'sig': 'setup', 'expected': 'the code under test loads',
                                               'got': traceback.format_exc()[-2500:], 'case': 'setup', 'shard': 'setup'}], {}, {}, None)]
    else:
        random.Random(seed).shuffle(shards)
        jobs = [(pid, tier, n, f, a, known) for n, f, a in shards]
        nproc = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1, max(1, len(jobs)))
        if nproc == 1 and os.environ.get('VERIF_INLINE'):
            results = [_run_shard(j) for j in jobs]
        else:
            mp = multiprocessing.get_context('fork')
            _JOBS[:] = jobs
            sys.stdout.flush()
            with mp.Pool(nproc, initializer=_limit) as pool:
                results = []
                for r in pool.imap_unordered(_run_job, range(len(jobs)), chunksize=1):
                    results.append(r)
                    if r[5] and os.environ.get('VERIF_FAILFAST'):
                        break           # development only: one violation is enough
    states = set()
    transitions = traces = 0
    samples, fails, hit, notes, errs = [], [], {}, {}, []
    for name, st, tr, tc, sm, fl, kh, nt, err in sorted(results, key=lambda r: r[0]):
        states |= st
        transitions += tr
        traces += tc
        samples += sm
        fails += fl
        for k, v in kh.items():
            hit[k] = hit.get(k, 0) + v
        for k, v in nt.items():
            notes[k] = notes.get(k, 0) + v
        if err:
            errs.append((name, err))
    for k in sorted(hit):
        print('KNOWN-FINDING: property=%s %s: %s (%d inputs)' % (pid, k, texts[k], hit[k]))
    fails.sort(key=lambda f: (len(str(f['case'])), f['sig']))
    rdir = os.path.join(HERE, 'evidence', 'replay')
    if fails:
        os.makedirs(rdir, exist_ok=True)
        for i, f in enumerate(fails[:10]):
            path = os.path.join(rdir, '%s-%d.json' % (pid, i))
            json.dump(dict(f, property=pid, how='VERIF_SHARD=%r python checks/%s.py re-runs the shard; the input is given in "case"' % (f['shard'], pid.lower())),
                      open(path, 'w'), indent=1, default=show)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('   input    %s' % f['sig'])
            print('   expected %s' % str(f['expected'])[:300])
            print('   got      %s' % str(f['got'])[-600:])
    wall = round(time.time() - t0, 3)
    cov = {'states': len(states), 'transitions': transitions, 'traces_validated_against_impl': traces,
           'samples': samples[:12], 'exhaustive': bool(exhaustive and not fails), 'shards': len(results), 'rule': rule}
    cov.update(notes)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
               'assumptions': list(assumptions), 'wall_s': wall, 'violations': len(fails)},
              open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=show)
    print('%s %s: states=%d transitions=%d traces=%d violations=%d known=%d wall=%.1fs' % (
        pid, tier, len(states), transitions, traces, len(fails), sum(hit.values()), wall))
    if fails:
        return 1
    if errs:
        for name, err in errs[:3]:
            print('CHECK ERROR in shard %s\n%s' % (name, err))
        return 2
    if traces == 0:
        print('CHECK ERROR: vacuous run')
        return 2
    return 0


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'


def main(pid, build_shards, **kw):
    only = os.environ.get('VERIF_SHARD')

    def build(tier):
        shards = build_shards(tier)
        if only:
            shards = [s for s in shards if s[0] == only]
        return shards
    sys.exit(run_check(pid, build, **kw))


def parallel_ranges(name, fn, total, parts, *args):
    """split range(total) into contiguous shards fn(ctx, lo, hi, *args)"""
    parts = max(1, min(parts, total))
    out = []
    for i in range(parts):
        lo, hi = total * i // parts, total * (i + 1) // parts
        out.append(('%s[%d:%d]' % (name, lo, hi), fn, (lo, hi) + args))
    return out
