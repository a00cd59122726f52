"""Core of the simulator: derived randomness, run context, violations, minimisation."""
import hashlib
import json
import random


class Violation(Exception):
    """The property is broken in this run."""

    def __init__(self, vclass, msg, key=None):
        super(Violation, self).__init__('%s: %s' % (vclass, msg))
        self.vclass = vclass
        self.msg = msg
        self.key = key or vclass


class HarnessError(Exception):
    """The simulator itself failed, or met something it does not model."""


class Budget(BaseException):
    """A run used up its step budget (raised through the code under test; not an Exception on purpose)."""


def derive(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def rng_for(*parts):
    return random.Random(derive(*parts))


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


class Ctx(object):
    """Everything one run records.  Never draws from a PRNG, never reads a clock."""

    def __init__(self, known=(), keep_trace=False):
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.steps = 0
        self.sim_time = 0.0
        self.failed = None
        self.known_hits = {}
        self.known = set(known)
        self.keep_trace = keep_trace
        self.lines = []
        self._digest = hashlib.sha256()
        self.evaluations = 0
        self.choices = []
        self.maxima = {}

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def maximum(self, name, value):
        """Largest value seen of a margin (a distance from the verdict), for the evidence."""
        if value > self.maxima.get(name, -float('inf')):
            self.maxima[name] = float(value)

    def state(self, *obj):
        self.states.add(h64(obj))

    def trace(self, line):
        self._digest.update(line.encode() + b'\n')
        if self.keep_trace and len(self.lines) < 4000:
            self.lines.append(line)

    def digest(self):
        return self._digest.hexdigest()[:24]

    def fail(self, vclass, msg, key=None):
        v = Violation(vclass, msg, key)
        if v.key in self.known:
            self.known_hits[v.key] = self.known_hits.get(v.key, 0) + 1
            self.trace('known finding ' + v.key)
            return
        self.trace('VIOLATION ' + vclass)
        self.failed = self.failed or v
        raise v

    def recheck(self):
        """Raise a violation again that the code under test has caught."""
        if self.failed:
            raise self.failed

    def check(self, cond, vclass, msg, key=None):
        self.evaluations += 1
        if not cond:
            self.fail(vclass, msg() if callable(msg) else msg, key)


def size(plan):
    return len(json.dumps(plan))


def shrink_candidates(plan, skip=()):
    """Generic reductions of a JSON plan: drop list chunks, shorten, zero and halve numbers."""
    def paths(obj, path):
        if isinstance(obj, dict):
            for k in sorted(obj):
                if k in skip:
                    continue
                for p in paths(obj[k], path + [k]):
                    yield p
        elif isinstance(obj, list):
            yield path, obj
            for i, x in enumerate(obj):
                for p in paths(x, path + [i]):
                    yield p
        else:
            yield path, obj

    def put(path, value):
        new = json.loads(json.dumps(plan))
        o = new
        for k in path[:-1]:
            o = o[k]
        o[path[-1]] = value
        return new
    todo = list(paths(plan, []))
    lists = [(p, o) for p, o in todo if isinstance(o, list) and p]
    lists.sort(key=lambda x: -len(x[1]))
    for p, o in lists:
        n = len(o)
        c = n
        while c >= 1:
            for i in range(0, n, c):
                yield put(p, o[:i] + o[i + c:])
            c //= 2
    for p, o in todo:
        if isinstance(o, bool):
            if o:
                yield put(p, False)
        elif isinstance(o, int) and not str(p[-1]).endswith('seed'):
            if o > 0:
                yield put(p, 0)
            if o > 3:
                yield put(p, o // 2)
            if o > 1:
                yield put(p, o - 1)


def minimise(plan, fails, budget, candidates=None, clock=None):
    """Greedy minimisation; `fails(plan)` is True while the same violation class persists."""
    gen = candidates or shrink_candidates
    tried = 0
    seen = {json.dumps(plan, sort_keys=True)}
    improved = True
    while improved:
        improved = False
        for cand in gen(plan):
            key = json.dumps(cand, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            if tried >= budget or (clock and clock()):
                return plan, tried
            tried += 1
            if fails(cand):
                plan = cand
                improved = True
                break
    return plan, tried
