"""Strings with symbolic characters.

A symbolic character is a private-use code point that stands for alphabet[index], index being a symbolic integer.  Text made of such characters is ordinary
str, so it can be sliced, joined, formatted, written to files and read back; whatever depends on which character it is (comparison, containment, sorting,
conversion to numbers, pattern matching) is intercepted in the instrumented code and decided by the solver.
"""
import builtins, operator, os, pathlib, glob as _glob, fnmatch as _fnmatch, re
import numpy as np
import pandas as pd
from . import engine as E
from .engine import SymNum, SymBool, And, Or, Not

LO, HI = '\ue000', '\uf8ff'
DIGITS = '0123456789'


class Ch:
    __slots__ = ('alpha', 'idx')

    def __init__(self, alpha, idx):
        self.alpha = alpha; self.idx = idx


def pua(s):
    if not isinstance(s, str) or s.isascii(): return False
    return any(LO <= c <= HI for c in s)


def anypua(x, depth=0):
    if isinstance(x, str): return pua(x)
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(anypua(v, depth + 1) for v in x)
    if isinstance(x, (dict, type({}.keys()))):
        return any(anypua(v, depth + 1) for v in x)
    if isinstance(x, np.ndarray) and x.dtype.kind in 'UO':
        return any(anypua(v) for v in x.ravel())
    if isinstance(x, (pd.Series, pd.Index)) and not isinstance(x, pd.RangeIndex) and x.dtype.kind not in 'iufbM':
        return any(isinstance(v, str) and pua(v) for v in x)
    return False


def new_char(alpha, idx):
    """one symbolic character, as text"""
    C = E._ctx
    if type(idx) is SymNum and idx.constant() is not None: idx = int(idx.constant())
    if type(idx) is not SymNum: return alpha[int(idx)]
    key = ('chr', alpha, idx.key())
    cp = C.memo.get(key)
    if cp is None:
        cp = chr(0xE000 + len(C.chars))
        C.chars.append(Ch(alpha, idx)); C.memo[key] = cp
    return cp


def get(c):
    return E._ctx.chars[ord(c) - 0xE000]


def chareq(a, b):
    if a == b: return True
    pa, pb = LO <= a <= HI, LO <= b <= HI
    if not pa and not pb: return False
    if not pa: a, b, pa, pb = b, a, pb, pa
    A = get(a)
    if not pb:
        i = A.alpha.find(b)
        return False if i < 0 else A.idx == i
    B = get(b)
    if A.alpha == B.alpha: return A.idx == B.idx
    return Or(*([And(A.idx == i, B.idx == B.alpha.index(c)) for i, c in enumerate(A.alpha) if c in B.alpha] or [False]))


def charlt(a, b):
    """a < b"""
    if a == b: return False
    pa, pb = LO <= a <= HI, LO <= b <= HI
    if not pa and not pb: return a < b
    if pa and not pb:
        A = get(a)
        return A.idx < sum(1 for c in A.alpha if c < b)          # alphabets are sorted
    if pb and not pa:
        B = get(b)
        return B.idx >= sum(1 for c in B.alpha if c <= a)
    A, B = get(a), get(b)
    if A.alpha == B.alpha: return A.idx < B.idx
    return Or(*[And(A.idx == i, B.idx >= sum(1 for d in B.alpha if d <= c)) for i, c in enumerate(A.alpha)])


def eq(a, b):
    """equality of two strings as a symbolic condition"""
    if len(a) != len(b): return False
    cs = []
    for x, y in zip(a, b):
        e = chareq(x, y)
        if e is False: return False
        if e is not True: cs.append(e)
    return And(*cs) if cs else True


def lt(a, b):
    r = len(a) < len(b)
    for x, y in reversed(list(zip(a, b))):
        r = Or(charlt(x, y), And(chareq(x, y), r))
    return r


def beq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        if pua(a) or pua(b): return bool(eq(a, b))
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) == type(b):
        return len(a) == len(b) and all(beq(x, y) for x, y in zip(a, b))
    return bool(a == b)


def blt(a, b):
    if isinstance(a, str) and isinstance(b, str):
        if pua(a) or pua(b): return bool(lt(a, b))
        return a < b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for x, y in zip(a, b):
            if blt(x, y): return True
            if not beq(x, y): return False
        return len(a) < len(b)
    return bool(a < b)


def contains(s, sub):
    """sub in s, as a condition"""
    return Or(*([eq(s[i:i + len(sub)], sub) for i in range(len(s) - len(sub) + 1)] or [False]))


OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
ARR = (np.ndarray, pd.Series, pd.Index, pd.DataFrame)


def _isarr(x): return isinstance(x, ARR)


def compare(op, a, b):
    C = E._ctx
    if C is None or not C.chars:
        return native(op, a, b)
    if op in ('in', 'not in'):
        if not (anypua(a) or anypua(b)): return native(op, a, b)
        if isinstance(b, str):
            r = bool(contains(b, a)) if isinstance(a, str) else native('in', a, b)
        elif isinstance(b, pd.Series):
            r = any(beq(a, v) for v in b.index)
        elif isinstance(b, pd.DataFrame):
            r = any(beq(a, v) for v in b.columns)
        elif hasattr(b, '__iter__') and not isinstance(b, np.ndarray):
            r = any(beq(a, v) for v in b)
        else:
            r = any(beq(a, v) for v in np.asarray(b).ravel())
        return r if op == 'in' else not r
    if isinstance(a, str) and isinstance(b, str):
        if not (pua(a) or pua(b)): return OPS[op](a, b)
        if op == '==': return bool(eq(a, b))
        if op == '!=': return not bool(eq(a, b))
        if op == '<': return bool(lt(a, b))
        if op == '>': return bool(lt(b, a))
        if op == '<=': return not bool(lt(b, a))
        return not bool(lt(a, b))
    if (_isarr(a) or _isarr(b)) and op in ('==', '!=') and not isinstance(a, pd.DataFrame) and not isinstance(b, pd.DataFrame) and (anypua(a) or anypua(b)):
        A = a if _isarr(a) else b
        n = len(A)
        x = list(a) if _isarr(a) else list(a) if isinstance(a, (list, tuple)) else [a] * n
        y = list(b) if _isarr(b) else list(b) if isinstance(b, (list, tuple)) else [b] * n
        r = np.array([beq(p, q) if isinstance(p, str) and isinstance(q, str) else bool(p == q) for p, q in zip(x, y)], bool)
        if op == '!=': r = ~r
        for s in (a, b):
            if isinstance(s, pd.Series): return pd.Series(r, index=s.index)
        return r
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op in ('==', '!=') and (anypua(a) or anypua(b)):
        r = beq(a, b)
        return r if op == '==' else not r
    return native(op, a, b)


def native(op, a, b):
    if op == 'in': return a in b
    if op == 'not in': return a not in b
    return OPS[op](a, b)


# ------------------------------------------------------------------------------------------ numbers
def tonum(s):
    """value of a string of digits with symbolic digits (None if it is not one)"""
    t = s.strip()
    neg = t[:1] == '-'
    if t[:1] in ('-', '+'): t = t[1:]
    if not t or not pua(t): return None
    r = SymNum.const(0, 'i')
    for c in t:
        if LO <= c <= HI:
            A = get(c)
            bad = [i for i, x in enumerate(A.alpha) if not x.isdigit()]
            if bad and bool(Or(*[A.idx == i for i in bad])): return None
            # value of the digit: piecewise, or affine where the alphabet's digits are consecutive
            dig = [i for i, x in enumerate(A.alpha) if x.isdigit()]
            if not dig: return None
            off = int(A.alpha[dig[0]]) - dig[0]
            if any(int(A.alpha[i]) - i != off for i in dig): return None
            v = A.idx + off
        elif c.isdigit(): v = int(c)
        else: return None
        r = r * 10 + v
    return -r if neg else r


def all_digits(s):
    """condition: every character is a digit"""
    if not s: return False
    cs = []
    for c in s:
        if LO <= c <= HI:
            A = get(c)
            ok = [i for i, x in enumerate(A.alpha) if x.isdigit()]
            if len(ok) == len(A.alpha): continue
            cs.append(Or(*([A.idx == i for i in ok] or [False])))
        elif not c.isdigit(): return False
    return And(*cs) if cs else True


# ------------------------------------------------------------------------------------------ orders and sets
def ssorted(x, key=None, reverse=False):
    x = list(x)
    ks = [key(v) for v in x] if key else x
    idx = []
    for j, v in enumerate(ks):
        i = len(idx)
        while i > 0 and (blt(ks[idx[i - 1]], v) if reverse else blt(v, ks[idx[i - 1]])): i -= 1
        idx.insert(i, j)
    return [x[i] for i in idx]


def distinct(x):
    out = []
    for v in x:
        if not any(beq(v, w) for w in out): out.append(v)
    return out


def sunique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    x = list(np.asarray(a).ravel()) if not isinstance(a, list) else list(a)
    x = [str(v) if isinstance(v, str) else v for v in x]
    u = ssorted(distinct(x))
    arr = np.array(u)
    if not (return_index or return_inverse or return_counts): return arr
    pos = [[i for i, v in enumerate(x) if beq(v, w)] for w in u]
    r = [arr]
    if return_index: r.append(np.array([p[0] for p in pos], int))
    if return_inverse:
        inv = np.zeros(len(x), int)
        for j, p in enumerate(pos): inv[p] = j
        r.append(inv)
    if return_counts: r.append(np.array([len(p) for p in pos], int))
    return tuple(r)


# ------------------------------------------------------------------------------------------ patterns
def _cls(c, test):
    """condition that the character passes a concrete test"""
    if not (LO <= c <= HI): return bool(test(c))
    A = get(c)
    ok = [i for i, x in enumerate(A.alpha) if test(x)]
    if len(ok) == len(A.alpha): return True
    if not ok: return False
    if ok == list(range(ok[0], ok[-1] + 1)): return And(A.idx >= ok[0], A.idx <= ok[-1])
    return Or(*[A.idx == i for i in ok])


def fn_match(name, pat):
    """shell pattern (the pattern may hold symbolic characters, which stand for themselves)"""
    toks = []; i = 0
    while i < len(pat):
        c = pat[i]
        if c == '[':
            j = pat.find(']', i + 2)
            if j < 0: toks.append(('c', c)); i += 1; continue
            body = pat[i + 1:j]
            rx = re.compile('[' + ('^' + body[1:] if body[0] == '!' else body) + ']')
            toks.append(('t', lambda x, rx=rx: rx.match(x) is not None)); i = j + 1
        elif c == '?': toks.append(('t', lambda x: True)); i += 1
        elif c == '*': toks.append(('*', None)); i += 1
        else: toks.append(('c', c)); i += 1
    memo = {}

    def m(p, q):
        if (p, q) in memo: return memo[p, q]
        if q == len(toks): r = p == len(name)
        elif toks[q][0] == '*': r = Or(*[m(s, q + 1) for s in range(p, len(name) + 1)])
        elif p == len(name): r = False
        else:
            k, v = toks[q]
            c = chareq(name[p], v) if k == 'c' else _cls(name[p], v)
            r = And(c, m(p + 1, q + 1)) if c is not False else False
        memo[p, q] = r
        return r
    return m(0, 0)


def sglob(pat, **k):
    d, base = os.path.split(pat)
    if not any(c in d for c in '*?['):
        dirs = [d] if d == '' or os.path.isdir(d) else []
    else:
        dirs = [x for x in sglob(d) if os.path.isdir(x)]
    out = []
    for dd in dirs:
        for n in os.listdir(dd or '.'):
            if n.startswith('.') and not base.startswith('.'): continue
            if not any(c in base for c in '*?['):
                if beq(n, base): out.append(os.path.join(dd, n))
            elif bool(fn_match(n, base)): out.append(os.path.join(dd, n))
    return out


# regular expressions: whether there is a match (and nothing else)
from re import _parser as _sp, _constants as _sc


class NoMatchData(Exception):
    pass


class Match:
    """a match whose extent is not known"""
    def __bool__(self): return True
    def __getattr__(self, k):
        raise E.Unsupported('details of a symbolic regular expression match')


def _word(x): return x.isalnum() or x == '_'


CATS = {_sc.CATEGORY_DIGIT: str.isdigit, _sc.CATEGORY_NOT_DIGIT: lambda x: not x.isdigit(), _sc.CATEGORY_SPACE: str.isspace,
        _sc.CATEGORY_NOT_SPACE: lambda x: not x.isspace(), _sc.CATEGORY_WORD: _word, _sc.CATEGORY_NOT_WORD: lambda x: not _word(x)}


def rx(pat, s, mode, flags=0):
    return Match() if bool(rx_cond(pat, s, mode, flags)) else None


def rx_cond(pat, s, mode, flags=0):
    """condition that there is a match"""
    if not pua(pat if isinstance(pat, str) else pat.pattern) and not pua(s): return getattr(re, mode)(pat, s, flags) is not None
    if isinstance(pat, re.Pattern): flags = pat.flags; pat = pat.pattern
    fold = flags & re.I
    if fold and (pua(pat) or pua(s)): raise E.Unsupported('case-insensitive symbolic match')
    tree = _sp.parse(pat, flags & ~re.U)

    def one(op, av, c):
        if op is _sc.LITERAL: return chareq(c, chr(av))
        if op is _sc.NOT_LITERAL: return Not(chareq(c, chr(av)))
        if op is _sc.ANY: return True
        if op is _sc.IN:
            neg = False; cs = []
            for o, v in av:
                if o is _sc.NEGATE: neg = True
                elif o is _sc.LITERAL: cs.append(chareq(c, chr(v)))
                elif o is _sc.RANGE: cs.append(_cls(c, lambda x, v=v: v[0] <= ord(x) <= v[1]))
                elif o is _sc.CATEGORY: cs.append(_cls(c, CATS[v]))
                else: raise E.Unsupported('regular expression set')
            r = Or(*cs)
            return Not(r) if neg else r
        return None

    def seq(items, i, p, k):
        """condition that items[i:] match at position p followed by the continuation k"""
        if i == len(items): return k(p)
        op, av = items[i]
        if op in (_sc.LITERAL, _sc.NOT_LITERAL, _sc.ANY, _sc.IN):
            if p >= len(s): return False
            c = one(op, av, s[p])
            return False if c is False else And(c, seq(items, i + 1, p + 1, k))
        if op is _sc.SUBPATTERN:
            return seq(list(av[3]), 0, p, lambda q: seq(items, i + 1, q, k))
        if op is _sc.BRANCH:
            return Or(*[seq(list(b), 0, p, lambda q: seq(items, i + 1, q, k)) for b in av[1]])
        if op in (_sc.MAX_REPEAT, _sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def rep(n, q):
                r = seq(items, i + 1, q, k) if n >= lo else False
                if n < hi and q <= len(s):
                    r = Or(r, seq(sub, 0, q, lambda t: rep(n + 1, t) if t > q or n + 1 <= lo else False))
                return r
            return rep(0, p)
        if op is _sc.AT:
            if av in (_sc.AT_BEGINNING, _sc.AT_BEGINNING_STRING): return seq(items, i + 1, p, k) if p == 0 else False
            if av is _sc.AT_END: return seq(items, i + 1, p, k) if p == len(s) or (p == len(s) - 1 and s[p] == '\n') else False
            if av is _sc.AT_END_STRING: return seq(items, i + 1, p, k) if p == len(s) else False
        if op is _sc.ASSERT and av[0] == 1:
            return And(seq(list(av[1]), 0, p, lambda q: True), seq(items, i + 1, p, k))
        if op is _sc.ASSERT_NOT and av[0] == 1:
            return And(Not(seq(list(av[1]), 0, p, lambda q: True)), seq(items, i + 1, p, k))
        raise E.Unsupported('regular expression construct %s' % op)
    items = list(tree)
    end = (lambda q: q == len(s)) if mode == 'fullmatch' else (lambda q: True)
    if mode == 'search': r = Or(*[seq(items, 0, p, end) for p in range(len(s) + 1)])
    else: r = seq(items, 0, 0, end)
    return r


# ------------------------------------------------------------------------------------------ calls
def _split(s, sep, maxsplit=-1, right=False):
    if sep is not None and len(sep) > 1 and not pua(sep):
        p = [i for i in range(len(s) - len(sep) + 1) if all(chareq(x, y) is not False for x, y in zip(s[i:i + len(sep)], sep))]
        if all(s[i:i + len(sep)] == sep for i in p):          # no symbolic character can be part of a separator
            m = -1 if maxsplit is None else maxsplit
            return s.rsplit(sep, m) if right else s.split(sep, m)
    if sep is None or len(sep) != 1: raise E.Unsupported('split of symbolic text')
    cut = [i for i, c in enumerate(s) if bool(chareq(c, sep))]
    if maxsplit is not None and maxsplit >= 0: cut = cut[-maxsplit:] if right and maxsplit else cut[:maxsplit] if not right else []
    out = []; a = 0
    for i in cut: out.append(s[a:i]); a = i + 1
    return out + [s[a:]]


def strmethod(s, name, a, k):
    if name in ('join', 'format', '__str__', 'encode', 'ljust', 'rjust', 'center'):
        return NotImplemented
    if name == 'zfill':
        return s.rjust(a[0], '0') if not pua(s[:1]) else '0' * (a[0] - len(s)) + s
    if name in ('startswith', 'endswith'):
        opts = a[0] if isinstance(a[0], tuple) else (a[0],)
        return any(len(o) <= len(s) and bool(eq(s[:len(o)] if name == 'startswith' else s[len(s) - len(o):], o)) for o in opts)
    if name in ('split', 'rsplit'):
        return _split(s, a[0] if a else k.get('sep'), a[1] if len(a) > 1 else k.get('maxsplit', -1), name == 'rsplit')
    if name in ('find', 'index'):
        for i in range(len(s) - len(a[0]) + 1):
            if bool(eq(s[i:i + len(a[0])], a[0])): return i
        if name == 'index': raise ValueError('substring not found')
        return -1
    if name in ('strip', 'lstrip', 'rstrip'):
        cs = a[0] if a and a[0] is not None else ' \t\n\r\x0b\x0c'
        i, j = 0, len(s)
        if name != 'rstrip':
            while i < j and any(bool(chareq(s[i], c)) for c in cs): i += 1
        if name != 'lstrip':
            while j > i and any(bool(chareq(s[j - 1], c)) for c in cs): j -= 1
        return s[i:j]
    if name in ('isdigit', 'isnumeric', 'isdecimal'): return bool(all_digits(s))
    if name in ('isalnum', 'isalpha', 'isupper', 'islower'):
        return bool(And(*[_cls(c, getattr(str, name)) for c in s]))
    if name in ('lower', 'upper'):
        out = ''
        for c in s:
            if LO <= c <= HI:
                A = get(c); t = getattr(A.alpha, name)()
                if t != A.alpha:
                    if list(t) != sorted(set(t)): raise E.Unsupported('case folding')
                    c = new_char(t, A.idx)
            else: c = getattr(c, name)()
            out += c
        return out
    if name == 'replace':
        if len(a[0]) != 1: raise E.Unsupported('replace in symbolic text')
        return ''.join(a[1] if bool(chareq(c, a[0])) else c for c in s)
    if name == 'count' and len(a[0]) == 1:
        return sum(1 for c in s if bool(chareq(c, a[0])))
    if name in ('__eq__', '__ne__', '__contains__', 'partition', 'rpartition', 'casefold', 'title', 'swapcase', 'translate', 'rfind', 'rindex', 'removeprefix', 'removesuffix', 'splitlines'):
        raise E.Unsupported('str.%s of symbolic text' % name)
    return NotImplemented


def _cast(x, dtype):
    from . import shims as S
    r = np.empty(len(x), object)
    for i, v in enumerate(x): r[i] = S.cast(v, dtype)
    return r


def call(f, slf, a, k):
    """result of a call that involves symbolic text, or NotImplemented"""
    if isinstance(slf, str):
        if pua(slf) or anypua(a): return strmethod(slf, f.__name__, a, k)
        return NotImplemented
    if f is builtins.sorted and anypua(list(a[0]) if hasattr(a[0], '__iter__') else a[0]): return ssorted(*a, **k)
    if isinstance(slf, list):
        nm = f.__name__
        if nm == 'sort' and anypua(slf): slf[:] = ssorted(slf, **k); return None
        if nm in ('index', 'count', 'remove') and (anypua(slf) or anypua(a)):
            hit = [i for i, v in enumerate(slf) if beq(v, a[0])]
            if nm == 'count': return len(hit)
            if not hit: raise ValueError('%r is not in list' % (a[0],))
            if nm == 'index': return hit[0]
            del slf[hit[0]]; return None
        return NotImplemented
    if isinstance(slf, np.ndarray) and f.__name__ == 'astype' and slf.dtype.kind in 'UO' and anypua(slf) and a and a[0] not in (str, object, 'str', 'object'):
        return _cast(list(slf), a[0])
    if f in (np.array, np.asarray) and (k.get('dtype') in (int, float) or (len(a) > 1 and a[1] in (int, float))) and anypua(a[0]):
        return _cast(list(a[0]), k.get('dtype') or a[1])
    if isinstance(slf, np.ndarray) and f.__name__ == 'sort' and slf.dtype.kind in 'UO' and anypua(slf):
        slf[:] = ssorted(list(slf)); return None
    if f is builtins.set or f is builtins.frozenset:
        return f(distinct(a[0])) if a and anypua(list(a[0]) if not isinstance(a[0], str) else a[0]) else NotImplemented
    if f in (np.unique, pd.unique) and anypua(a[0]):
        return sunique(*a, **k) if f is np.unique else np.array(distinct(list(a[0])), object)
    if f is np.sort and anypua(a[0]): return np.array(ssorted(list(a[0])))
    if f is np.isin or f is getattr(np, 'in1d', None):
        if anypua(a[0]) or anypua(a[1]):
            y = list(np.ravel(np.asarray(a[1], object)) if not isinstance(a[1], (list, tuple)) else a[1])
            x = np.asarray(a[0])
            r = np.array([any(beq(v, w) for w in y) for v in x.ravel()], bool).reshape(x.shape)
            return ~r if k.get('invert') else r
        return NotImplemented
    if f in (builtins.max, builtins.min) and len(a) == 1 and not k and anypua(a[0]):
        s = ssorted(list(a[0])); return s[-1] if f is builtins.max else s[0]
    if isinstance(slf, (pd.Series, pd.Index)):
        nm = f.__name__
        if nm == 'isin' and (anypua(slf) or anypua(a[0])):
            r = np.array([any(beq(v, w) for w in list(a[0])) for v in slf], bool)
            return pd.Series(r, index=slf.index) if isinstance(slf, pd.Series) else r
        if nm == 'unique' and anypua(slf): return np.array(distinct(list(slf)), object)
        if nm == 'astype' and anypua(slf) and not (a and a[0] in (str, object, 'str', 'object')):
            r = _cast(list(slf), a[0] if a else k['dtype'])
            return pd.Series(r, index=slf.index, dtype=object) if isinstance(slf, pd.Series) else r
        if nm in ('map', 'apply') and anypua(slf) and a and callable(a[0]):
            from . import shims as S
            return pd.Series([S.sx_call(a[0], v) for v in slf], index=slf.index, dtype=object)
        if nm in ('eq', 'ne') and (anypua(slf) or anypua(a[0])): return compare('==' if nm == 'eq' else '!=', slf, a[0])
        return NotImplemented
    if type(slf).__name__ == 'StringMethods' and anypua(slf._orig):
        out = []
        for v in slf._orig:
            r = strmethod(v, f.__name__, a, k) if pua(v) or anypua(a) else NotImplemented
            out.append(getattr(v, f.__name__)(*a, **k) if r is NotImplemented else r)
        return pd.Series(out, index=slf._orig.index)
    if f is _glob.glob or f is _glob.iglob: return sglob(*a, **k)
    if isinstance(slf, pathlib.Path) and f.__name__ in ('glob', 'rglob') and len(a) == 1: return [pathlib.Path(x) for x in sglob(str(slf / a[0]))]
    if f is _fnmatch.fnmatch or f is _fnmatch.fnmatchcase:
        return bool(fn_match(*a)) if anypua(a) else NotImplemented
    if f is _fnmatch.filter and anypua(a): return [n for n in a[0] if bool(fn_match(n, a[1]))]
    if f in (re.match, re.search, re.fullmatch) and anypua(a[:2]): return rx(a[0], a[1], f.__name__, *a[2:])
    if isinstance(slf, re.Pattern) and anypua((slf.pattern,) + a): return rx(slf, a[0], f.__name__)
    return NotImplemented
