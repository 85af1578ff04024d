"""What a monitor function gets: cases with their own random generator, and the place to report to."""
import faulthandler, hashlib, json, math, os, random, traceback

faulthandler.enable()


class Violation(Exception):
    def __init__(self, key, detail):
        super().__init__(key + ': ' + detail)
        self.key, self.detail = key, detail


class Case:
    def __init__(self, ctx, idx):
        self.ctx, self.idx = ctx, idx
        h = hashlib.sha256(('%s/%s/%s/%d' % (ctx.spec['seed'], ctx.spec['module'], ctx.spec['name'], idx)).encode()).digest()
        self.seed = int.from_bytes(h[:4], 'big')
        self.rng = random.Random(int.from_bytes(h[:8], 'big'))


class Ctx:
    MAXV = 5

    def __init__(self, spec):
        self.spec = spec
        self.tier = spec['tier']
        self.args = spec.get('args', {})
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.notes = {}
        self.case = None

    # -- cases
    def cases(self, n):
        """Yields n cases; anything raised inside the with-block of a case is reported for that case."""
        for i in range(n):
            if self.spec.get('only') is not None and i != self.spec['only']:
                continue
            if len(self.violations) >= self.MAXV:
                return
            c = Case(self, i)
            self.case = c
            self.mark('%d start' % i)
            yield c

    def mark(self, text):
        with open(self.spec['progress'], 'w') as f:
            f.write(text if text[:1].isdigit() else '%d %s' % (self.case.idx if self.case else 0, text))

    # -- observations
    def observed(self, key=None, n=1):
        """n oracle evaluations were made; key says what makes this one distinct and non-trivial."""
        self.evaluations += n
        if key is not None:
            self.distinct.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(text)

    def note(self, name, inc=1):
        self.notes[name] = self.notes.get(name, 0) + inc

    def note_max(self, name, v):
        self.notes[name] = max(self.notes.get(name, v), v)

    def violation(self, key, detail):
        raise Violation(key, detail)

    def check(self, ok, key, detail=''):
        if not ok:
            raise Violation(key, detail() if callable(detail) else str(detail))

    def report(self, key, detail):
        self.violations.append(dict(key=key, detail=str(detail)[:3000], case=self.case.idx if self.case else None))

    def guard(self, fn, *a):
        """Runs one case body; True when nothing was reported."""
        try:
            fn(*a)
            return True
        except Violation as v:
            self.report(v.key, v.detail)
        except Exception as e:
            self.report('exception:%s:%s' % (self.spec['func'], type(e).__name__), traceback.format_exc())
        self.flush(False)
        return False

    def flush(self, done):
        tmp = self.spec['out'] + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(dict(evaluations=self.evaluations, distinct=sorted(self.distinct), samples=self.samples, violations=self.violations, notes=self.notes, done=done), f)
        os.replace(tmp, self.spec['out'])

    def run(self, func):
        self.guard(func, self)
        self.flush(True)


def each(n):
    """Decorator: body(ctx, case) becomes a monitor function over ctx.args.get('n', n) cases."""
    def deco(body):
        def f(ctx):
            for c in ctx.cases(int(ctx.args.get('n', n))):
                ctx.guard(body, ctx, c)
        f.__name__ = body.__name__
        return f
    return deco


def close(a, b, rtol=1e-9, atol=0.0):
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b)) or (math.isnan(a) and math.isnan(b))
