'''
Vocabulary shared by all checks.

A check module (checks/<ID>.py) exposes SUBCHECKS, a list of Sub(name, strategy, body, quick, thorough).
* `strategy` draws a *spec*: plain JSON data that completely describes a case.
* `body(spec)` builds the case from the spec, runs the code under test, compares with an oracle and
   raises Violation if they disagree. It returns a string label (the class of the case), or None if the
   case turned out trivial (by the rule written in the module's RULE).
Since a body is a function of the spec only, the shrunk spec is the replay file.
'''
import json, hashlib


class Violation(Exception):
    '''The oracle and the code under test disagree'''
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Sub:
    def __init__(self, name, strategy, body, quick=20, thorough=None, chunks=1, examples=()):
        self.name, self.strategy, self.body = name, strategy, body
        self.quick = quick
        self.thorough = thorough if thorough is not None else 10*quick
        self.chunks = chunks          # Number of pieces (seeded independently) run in parallel
        self.examples = list(examples)  # Specs that are always run (by chunk 0)


def canon(spec):
    return json.dumps(spec, sort_keys=True, default=repr)


def digest(*args):
    return int(hashlib.sha256('|'.join(map(str, args)).encode()).hexdigest()[:12], 16)


# Comparisons ------------------------------------------------------------------------------------

def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg, key)


def close(a, b, tol=1E-9, what='', scale=None, key=None):
    '''|a - b| <= tol*scale, with scale defaulting to max(1, |b|)'''
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape, f'{what}: shapes {a.shape} vs expected {b.shape}', key)
    if a.size == 0:
        return 0.
    require(np.all(np.isfinite(a)), f'{what}: got non-finite values', key)
    scale = max(1., float(np.max(np.abs(b)))) if scale is None else scale
    err = float(np.max(np.abs(a-b)))
    if err > tol*scale:
        i = int(np.argmax(np.abs(a-b).ravel()))
        raise Violation(f'{what}: differ by {err:.3e} (tolerance {tol*scale:.1e}); '
                        f'at {i}: got {a.ravel()[i]:.12g} expected {b.ravel()[i]:.12g}', key)
    return err


def raises(exceptions, f, what=''):
    '''f is to reject its input'''
    try:
        f()
    except exceptions:
        return True
    raise Violation(f'{what}: was accepted, expected a rejection')
