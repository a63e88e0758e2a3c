"""Helpers available to probe expressions."""


def take(g, n=10):
    out = []
    for x in g:
        out.append(x)
        if len(out) >= n:
            break
    return out


def drive(co):
    """run a coroutine that never really suspends"""
    sent = []
    try:
        while True:
            sent.append(co.send(None))
    except StopIteration as e:
        return ('returned', e.value, sent)


def adrive(ag):
    out = []
    while True:
        try:
            out.append(drive(ag.__anext__())[1])
        except StopAsyncIteration:
            return out


def push(g, vals):
    out = [next(g)]
    for v in vals:
        try:
            out.append(g.send(v))
        except StopIteration as e:
            out.append(('stop', e.value))
            break
    return out


def many(f, *argss):
    out = []
    for a in argss:
        try:
            out.append(f(*a))
        except Exception as e:
            out.append((type(e).__name__, e.args))
    return out


def meta(f):
    """user-visible metadata of a function"""
    return (f.__name__, f.__qualname__, f.__module__, f.__doc__, repr(f.__defaults__), repr(f.__kwdefaults__),
            sorted(f.__annotations__), sorted(f.__dict__))


class Awaitable:
    def __init__(self, v):
        self.v = v

    def __await__(self):
        got = yield self.v
        return (self.v, got)


class CM:
    def __init__(self, log, swallow=False):
        self.log = log
        self.swallow = swallow

    def __enter__(self):
        self.log.append('enter')
        return self

    def __exit__(self, t, v, tb):
        self.log.append(t.__name__ if t else 'exit')
        return self.swallow


NS = {'take': take, 'drive': drive, 'adrive': adrive, 'push': push, 'many': many, 'meta': meta}
