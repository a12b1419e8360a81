"""A small symbolic executor for Python scripts: numbers are z3 terms, every branch on one is decided by the solver and
explored by re-execution.  Text that a script builds from symbolic numbers carries a token per number."""
import z3, time, re
class Unsupported(Exception): pass
class Cut(Exception): pass            # infeasible or assumption fails
class Engine:
    def __init__(s, timeout=20000): s.stats = dict(paths=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, forks=0, checks=0); s.solver = z3.Solver(); s.solver.set('timeout', timeout); s.toks = []; s.trail = []; s.pos = 0; s.vars = {}
    def ask(s, *c):
        t = time.time(); s.stats['queries'] += 1; r = s.solver.check(*c); s.stats['solver_s'] += time.time() - t; 
        if r == z3.unknown: # once more, from scratch
            n = z3.Solver(); n.set('timeout', 60000); n.add(s.solver.assertions()); n.add(*c); t = time.time(); r = n.check(); s.stats['solver_s'] += time.time() - t; s.last = n
        else: s.last = s.solver
        if r == z3.unknown: s.stats['unknown'] += 1; raise Unsupported('solver gave no answer')
        s.stats[str(r)] += 1; return r == z3.sat
    def begin(s): s.solver.reset(); s.pos = 0; s.toks = []; s.vars = {}; s.stats['paths'] += 1
    def add(s, c): s.solver.add(c)
    def choose(s, options):
        """one of several conditions, exhaustively over re-executions; options: list of (value, z3 condition)"""
        if s.pos < len(s.trail): k, alts = s.trail[s.pos]
        else:
            alts = [i for i, (v, c) in enumerate(options) if s.ask(c)]
            if not alts: raise Cut()
            k = alts.pop(0); s.trail.append((k, alts)); s.stats['forks'] += len(alts) > 0
        s.pos += 1; s.add(options[k][1]); return options[k][0]
    def next(s):
        """the next path; False when all are done"""
        while s.trail:
            k, alts = s.trail.pop()
            if alts: s.trail.append((alts[0], alts[1:])); return True
        return False
    def token(s, e): s.toks.append(e); return f'\x01{len(s.toks) - 1}\x02'
E = None
def setup(e):
    global E; E = e
def expr(x):
    if isinstance(x, S): return x.e
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, float): return z3.RealVal(repr(x))
    raise Unsupported(f'number from {type(x)}')
def isint(e): return e.sort() == z3.IntSort()
def both(a, b):
    a, b = expr(a), expr(b)
    if isint(a) != isint(b): a, b = (z3.ToReal(a) if isint(a) else a), (z3.ToReal(b) if isint(b) else b)
    return a, b
class B:
    def __init__(s, e): s.e = e
    def __bool__(s): return E.choose([(True, s.e), (False, z3.Not(s.e))])
def _cmp(op):
    def f(a, b):
        if not isinstance(b, (S, int, float)): return NotImplemented
        x, y = both(a, b); return B(op(x, y))
    return f
class S:
    def __init__(s, e): s.e = e
    __hash__ = None
    def __deepcopy__(s, m): return s
    def __copy__(s): return s
    __lt__ = _cmp(lambda a, b: a < b); __le__ = _cmp(lambda a, b: a <= b); __gt__ = _cmp(lambda a, b: a > b); __ge__ = _cmp(lambda a, b: a >= b)
    def __eq__(a, b):
        if not isinstance(b, (S, int, float)): return False
        x, y = both(a, b); return B(x == y)
    def __ne__(a, b):
        if not isinstance(b, (S, int, float)): return True
        x, y = both(a, b); return B(x != y)
    def _bin(op):
        def f(a, b):
            if not isinstance(b, (S, int, float)): return NotImplemented
            return S(op(*both(a, b)))
        def r(a, b):
            if not isinstance(b, (S, int, float)): return NotImplemented
            return S(op(*both(b, a)))
        return f, r
    __add__, __radd__ = _bin(lambda a, b: a + b); __sub__, __rsub__ = _bin(lambda a, b: a - b); __mul__, __rmul__ = _bin(lambda a, b: a * b)
    def _div(a, b):
        a, b = both(a, b)
        if bool(B(b == 0)): raise ZeroDivisionError()
        return (z3.ToReal(a) if isint(a) else a) / (z3.ToReal(b) if isint(b) else b)
    def _floordiv(a, b):
        i = all(isint(expr(x)) for x in (a, b)); q = z3.ToInt(S._div(a, b)); return q if i else z3.ToReal(q)
    def _mod(a, b):
        x, y = both(a, b); q = z3.ToInt(S._div(a, b)); return x - y * (q if isint(x) else z3.ToReal(q))
    def __truediv__(a, b): return S(S._div(a, b)) if isinstance(b, (S, int, float)) else NotImplemented
    def __rtruediv__(a, b): return S(S._div(b, a))
    def __floordiv__(a, b): return S(S._floordiv(a, b))
    def __rfloordiv__(a, b): return S(S._floordiv(b, a))
    def __mod__(a, b): return S(S._mod(a, b))
    def __rmod__(a, b): return S(S._mod(b, a))
    def __divmod__(a, b): return a // b, a % b
    def __neg__(a): return S(-a.e)
    def __pos__(a): return a
    def __abs__(a): return S(z3.If(a.e < 0, -a.e, a.e))
    def __bool__(a): return bool(B(a.e != 0))
    def __ceil__(a): return a if isint(a.e) else S(-z3.ToInt(-a.e))
    def __floor__(a): return a if isint(a.e) else S(z3.ToInt(a.e))
    def __trunc__(a): return a if isint(a.e) else S(z3.If(a.e < 0, -z3.ToInt(-a.e), z3.ToInt(a.e)))
    def __round__(a, n=None):
        if isint(a.e): return a
        p = 10 ** (n or 0); r = z3.ToInt(a.e * p + z3.RealVal('1/2')); return S(r) if n is None else S(z3.ToReal(r) / p)
    def is_integer(a): return True if isint(a.e) else bool(B(z3.ToReal(z3.ToInt(a.e)) == a.e))
    def bit_length(a):
        k = 0
        while not bool(B(a.e < 2 ** k)):
            k += 1
            if k > 64: raise Unsupported('bit_length')
        return k
    def __index__(a): # every feasible value, one path each
        if not isint(a.e): raise TypeError('not an integer')
        for v in range(0, 4097):
            if bool(B(a.e == v)): return v
        raise Unsupported('concrete value needed')
    __int__ = __index__
    def __float__(a): raise Unsupported('float')
    def __str__(a): return E.token(a.e)
    __repr__ = __str__
    def __format__(a, spec):
        if spec in ('', 'd', 's', 'g'): return E.token(a.e)
        m = re.fullmatch(r',?\.(\d)f', spec)
        if m: return E.token(round(a if not isint(a.e) else S(z3.ToReal(a.e)), int(m.group(1))).e)
        raise Unsupported('format ' + spec)
TOK = re.compile('\x01(\\d+)\x02')
def value(t):
    """the number a piece of text denotes: a token's term or a literal; None if it is neither"""
    m = TOK.fullmatch(t)
    if m: return S(E.toks[int(m.group(1))])
    try: return int(t)
    except ValueError: pass
    try: return float(t)
    except ValueError: return None
def sx_int(x=0, *a):
    if isinstance(x, str) and TOK.fullmatch(x.strip()): x = value(x.strip())
    return x.__trunc__() if isinstance(x, S) else int(x, *a)
def sx_float(x=0.0):
    if isinstance(x, str) and TOK.fullmatch(x.strip()): x = value(x.strip())
    if isinstance(x, S): return S(z3.ToReal(x.e)) if isint(x.e) else x
    return float(x)
class Log:
    def __init__(s, x, b): s.x, s.b = x, b
    def __ceil__(s):
        k = 0
        while not bool(B(expr(s.x) <= s.b ** k)):
            k += 1
            if k > 64: raise Unsupported('log')
        return k
    def __floor__(s):
        k = 0
        while bool(B(expr(s.x) >= s.b ** (k + 1))):
            k += 1
            if k > 64: raise Unsupported('log')
        return k
def sx_log(x, b=None):
    import math
    if not isinstance(x, S): return math.log(x, b) if b else math.log(x)
    if b is None or isinstance(b, S) or b != int(b): raise Unsupported('log')
    if bool(B(x.e <= 0)): raise ValueError('math domain error')
    return Log(x, int(b))
