"""Translates the current gemlog/parsers.pyx into Python that runs on symbolic text.

Cython's own parser builds the tree; C variables live in a frame dictionary so that their address can be taken, memory views
become sparse arrays, and fopen/fgets/sscanf & co. are models over lines made of characters and number fields.
"""
import os, re, math
from fractions import Fraction as Fr
import numpy as np
from . import engine as E, shims as S
from .engine import SymNum, SymBool, is_sym, And, Or, Not, Unsupported

INTS = {'int', 'long', 'short', 'char', 'Py_ssize_t', 'size_t', 'ssize_t', 'unsigned', 'bint', 'int32_t', 'int64_t', 'uint8_t', 'ptrdiff_t',
        'long long', 'unsigned char', 'unsigned int'}
DBL = {'double', 'float'}


class Num:
    """a number field: the decimal text of value, with nd decimals (None: integer text)"""

    def __init__(self, value, nd=None):
        self.value = value; self.nd = nd

    def text(self):
        v = self.value
        return ('%d' % int(v)) if self.nd is None else ('%.*f' % (self.nd, float(v)))


class Frag:
    """what is left of a number field after its integer part was scanned"""


# ------------------------------------------------------------------------------------------ runtime
class Buf:
    def __init__(self, n=None, cells=None):
        self.n = n; self.cells = cells if cells is not None else [0]

    def at(self, i):
        c = self.cells
        if i < 0:
            raise Unsupported('negative buffer index')
        for k in range(min(i, len(c) - 1) + 1):
            if isinstance(c[k], (Num, Frag)):
                # position inside or after a number of unknown width: some character of a number, or later text
                if k == i:
                    x = E._ctx.new_atom('digit', True, Fr(43), Fr(57))
                    return SymNum.atom(x)
                raise Unsupported('position after a number field')
        if i >= len(c):
            return 0
        return c[i]

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Buf(None, self.cells[i])
        return self.at(int(i))

    def __setitem__(self, i, v):
        i = int(i)
        while len(self.cells) <= i:
            self.cells.append(0)
        self.cells[i] = v

    def __add__(self, k):
        return Ptr(self, int(k))


class Ptr:
    def __init__(self, buf, off):
        self.buf = buf; self.off = off

    def __add__(self, k): return Ptr(self.buf, self.off + int(k))
    def __sub__(self, k): return Ptr(self.buf, self.off - int(k))

    def __getitem__(self, i):
        return self.buf.at(self.off + int(i))

    def rest(self):
        c = self.buf.cells
        for k in range(self.off):
            if k < len(c) and isinstance(c[k], Num):
                raise Unsupported('pointer past a number field')
        return c[self.off:]


def rest(p):
    if isinstance(p, Ptr):
        return p.rest()
    if isinstance(p, Buf):
        return p.cells
    if isinstance(p, (bytes, bytearray)):
        return list(p) + [0]
    raise Unsupported('not a C string')


class Ref:
    def __init__(self, d, k, typ=None):
        self.d = d; self.k = k; self.typ = typ

    def get(self): return self.d[self.k]
    def set(self, v): self.d[self.k] = v
    def __getitem__(self, i): return self.d[self.k]
    def __setitem__(self, i, v): self.d[self.k] = ccast(self.typ, v)


class Arr:
    """sparse array standing for a NumPy array and the memory views on it"""

    def __init__(self, shape, dtype, fill=0):
        self.shape = shape if isinstance(shape, tuple) else (shape,)
        self.dtype = dtype; self.d = {}; self.fill = fill

    def norm(self, k):
        k = k if isinstance(k, tuple) else (k,)
        out = []
        for i, n in zip(k, self.shape):
            i = S.scal(i)
            i = int(i)
            if i < -n or i >= n:
                raise IndexError('Out of bounds on buffer access (axis %d)' % len(out))
            out.append(i % n if i < 0 else i)
        if len(k) != len(self.shape):
            raise Unsupported('partial indexing')
        return tuple(out)

    def conv(self, v):
        v = S.scal(v)
        dt = self.dtype
        if dt == 'c':
            if isinstance(v, (bytes, bytearray)):
                return v[0]
            return v
        if dt in ('d', float, np.double, 'float64', 'double', 'f8'):
            return S.sx_float(v)
        return S.sx_int(v)

    def __setitem__(self, k, v):
        kk = k if isinstance(k, tuple) else (k,)
        if any(isinstance(x, slice) for x in kk):
            rngs = [range(*x.indices(n)) if isinstance(x, slice) else [self.norm1(x, n)] for x, n in zip(kk, self.shape)]
            size = 1
            for r in rngs: size *= len(r)
            if size > 5000:
                if all(isinstance(x, slice) and x == slice(None) for x in kk) and not hasattr(v, '__len__'):
                    self.d.clear(); self.fill = v; return
                raise Unsupported('large slice assignment')
            import itertools
            idx = list(itertools.product(*rngs))
            if hasattr(v, '__len__'):
                flat = list(np.asarray(v, object).ravel())
                if len(flat) == 1: flat *= len(idx)
                for i, x in zip(idx, flat): self.d[i] = self.conv(x)
            else:
                for i in idx: self.d[i] = self.conv(v)
            return
        self.d[self.norm(k)] = self.conv(v)

    def norm1(self, i, n):
        i = int(S.scal(i))
        if i < -n or i >= n:
            raise IndexError('Out of bounds on buffer access')
        return i % n

    def __getitem__(self, k):
        kk = k if isinstance(k, tuple) else (k,)
        if len(kk) < len(self.shape):
            kk = kk + (slice(None),) * (len(self.shape) - len(kk))
        if any(isinstance(x, slice) for x in kk):
            rngs = [range(*_ind(x).indices(n)) if isinstance(x, slice) else [self.norm1(x, n)] for x, n in zip(kk, self.shape)]
            shp = tuple(len(r) for r, x in zip(rngs, kk) if isinstance(x, slice))
            full = tuple(len(r) for r in rngs)
            out = np.empty(full, object)
            for idx in np.ndindex(*full):
                out[idx] = self.d.get(tuple(r[i] for r, i in zip(rngs, idx)), self.fill)
            out = out.reshape(shp)
            if self.dtype == 'c':
                b = np.empty(out.shape, 'S1')
                for i, v in np.ndenumerate(out):
                    b[i] = bytes([int(v)]) if v else b''
                return b
            for i, v in np.ndenumerate(out):
                if not is_sym(v):
                    out[i] = float(v) if self.dtype not in (int, 'i') else v
            return out if S.has_sym(out) or out.size == 0 else out.astype(float)
        return self.d.get(self.norm(kk), self.fill)

    def __len__(self): return self.shape[0]


def _ind(s):
    f = lambda x: None if x is None else int(S.scal(x))
    return slice(f(s.start), f(s.stop), f(s.step))


class NP:
    """numpy as seen by the translated module"""

    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def _dt(dtype):
        if dtype in ('c', 'S1'):
            return 'c'
        return 'd' if np.dtype(dtype).kind == 'f' else int

    def zeros(self, shape, dtype=float, **k): return Arr(shape, self._dt(dtype))
    def empty(self, shape, dtype=float, **k): return Arr(shape, self._dt(dtype))
    def ones(self, shape, dtype=float, **k): return Arr(shape, self._dt(dtype), 1)
    def full(self, shape, fill, dtype=float, **k): return Arr(shape, self._dt(dtype), fill)

    def asarray(self, a, *x, **k):
        return a if isinstance(a, (Arr, np.ndarray)) else np.asarray(a, *x, **k)


def ccast(typ, v):
    if typ in INTS:
        if isinstance(v, (bytes, str)):
            return v[0] if isinstance(v, bytes) else ord(v)
        v = S.scal(v)
        if isinstance(v, bool):
            return int(v)
        if typ == 'bint':
            return v if is_sym(v) else int(bool(v))
        if is_sym(v):
            r = S.sx_int(v)
            if typ == 'char':
                lo, hi = r.interval()
                if lo is None or lo < -128 or hi is None or hi > 127:
                    if not bool(And(r >= -128, r <= 127)):
                        r = E.Ite(r > 127, r - 256, r)
            return r
        if isinstance(v, float) and v != v:
            return 0
        r = int(v)
        if typ == 'char' and r > 127:
            r -= 256
        return r
    if typ in DBL:
        if is_sym(v):
            return S.sx_float(v)
        return float(v)
    return v


class CFile:
    def __init__(self, lines):
        self.lines = [list(l) for l in lines]; self.i = 0; self.off = 0


FILES = {}


def fopen(name, mode):
    n = name.decode() if isinstance(name, bytes) else str(name)
    if n not in FILES:
        if os.path.exists(n):
            b = open(n, 'rb').read().split(b'\n')
            ls = [list(x + b'\n') for x in b[:-1]] + ([list(b[-1])] if b[-1] else [])
            return CFile(ls)
        return None
    return CFile(FILES[n])


def fclose(f): return 0
def feof(f): return int(f.i >= len(f.lines))


def fgets(buf, size, f):
    if f.i >= len(f.lines):
        return None
    size = int(size)
    cells = f.lines[f.i][f.off:]
    if len(cells) > size - 1 and not any(isinstance(c, Num) for c in cells):
        out = cells[:size - 1]
        f.off += size - 1
    else:
        out = cells
        f.i += 1; f.off = 0
    b = buf.buf if isinstance(buf, Ptr) else buf
    # what lies beyond the terminator is left over from earlier lines; it is not modelled
    b.cells = list(out) + [0]
    return buf


def strlen(p):
    c = rest(p)
    n = 0
    for x in c:
        if isinstance(x, (Num, Frag)):
            raise Unsupported('strlen of a number field')
        if not is_sym(x) and x == 0:
            return n
        n += 1
    return n


def strchr(p, ch):
    ch = ch[0] if isinstance(ch, bytes) else (ord(ch) if isinstance(ch, str) else ch)
    c = rest(p)
    off = p.off if isinstance(p, Ptr) else 0
    b = p.buf if isinstance(p, Ptr) else p
    for k, x in enumerate(c):
        if isinstance(x, (Num, Frag)):
            continue
        if bool(x == ch):
            return Ptr(b, off + k)
        if not is_sym(x) and x == 0:
            return None
    return None


def _isspace(x): return x in (32, 9, 10, 11, 12, 13)


NUMRE = {'d': re.compile(rb'[+-]?\d+'), 'f': re.compile(rb'[+-]?(?:\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|(?i:nan|inf(?:inity)?))')}


def scan_number(cells, i, kind):
    """(value, next position) or (None, i)"""
    j = i
    while j < len(cells) and not isinstance(cells[j], (Num, Frag)) and not is_sym(cells[j]) and _isspace(cells[j]):
        j += 1
    if j >= len(cells):
        return None, j
    c = cells[j]
    if isinstance(c, Frag):
        return None, j
    if isinstance(c, Num):
        v = c.value
        if c.nd is None:
            return (S.sx_float(v) if kind == 'f' else S.sx_int(v)), j + 1
        if kind == 'f':
            return S.sx_float(v), j + 1
        cells[j] = Frag()
        return S.sx_int(v), j
    # concrete characters
    out = bytearray()
    k = j
    while k < len(cells) and not isinstance(cells[k], (Num, Frag)):
        x = cells[k]
        if is_sym(x):
            x = int(E._ctx.concretize(x, 'character of a number'))
        if x == 0:
            break
        out.append(x)
        k += 1
    neg = False
    m = NUMRE[kind].match(bytes(out))
    if not m:
        if bytes(out).strip() in (b'+', b'-') and k < len(cells) and isinstance(cells[k], Num):
            raise Unsupported('sign before a number field')
        return None, j
    t = m.group(0)
    if len(t) == len(out) and k < len(cells) and isinstance(cells[k], Num):
        raise Unsupported('digits before a number field')
    v = int(t) if kind == 'd' else float(t)
    return v, j + len(t)


def sscanf(p, fmt, *refs):
    fmt = fmt.encode() if isinstance(fmt, str) else bytes(fmt)
    cells = list(rest(p))
    i = 0; n = 0; r = 0; f = 0
    anyin = not (len(cells) == 0 or (not isinstance(cells[0], (Num, Frag)) and not is_sym(cells[0]) and cells[0] == 0))
    while f < len(fmt):
        ch = fmt[f:f + 1]
        if ch.isspace():
            while i < len(cells) and not isinstance(cells[i], (Num, Frag)) and not is_sym(cells[i]) and _isspace(cells[i]):
                i += 1
            f += 1; continue
        if ch != b'%':
            if i >= len(cells) or isinstance(cells[i], (Num, Frag)):
                return n if n or anyin else -1
            x = cells[i]
            if not bool(x == ch[0]):
                if n == 0 and not is_sym(x) and x == 0:
                    return -1
                return n
            i += 1; f += 1; continue
        m = re.match(rb'%(\*?)(\d*)(hh|h|ll|l|L|z|j)?([difuxcseg%n])', fmt[f:])
        if not m:
            raise Unsupported('sscanf format %r' % fmt[f:])
        f += len(m.group(0))
        conv = m.group(4).decode()
        if conv == 'n':
            if any(isinstance(c, Num) for c in cells[:i]):
                raise Unsupported('%n after a number field')
            refs[r].set(i); r += 1
            continue
        if conv in 'di' or conv == 'u':
            v, i2 = scan_number(cells, i, 'd')
        elif conv in 'feg':
            v, i2 = scan_number(cells, i, 'f')
        elif conv == 'c':
            c = cells[i] if i < len(cells) else 0
            if isinstance(c, (Num, Frag)):
                raise Unsupported('%c in a number field')
            v, i2 = (None, i) if (not is_sym(c) and c == 0) else (c, i + 1)
        else:
            raise Unsupported('sscanf conversion ' + conv)
        if v is None:
            if n == 0:
                # input failure (end of text) before the first conversion gives EOF
                rest_ = [c for c in cells[i2:]]
                if not rest_ or (not isinstance(rest_[0], (Num, Frag)) and not is_sym(rest_[0]) and rest_[0] == 0):
                    return -1
            return n
        i = i2
        if not m.group(1):
            ref = refs[r]; r += 1
            ref.set(ccast(ref.typ, v) if ref.typ else v)
            n += 1
    return n


def atoi(p):
    v, _ = scan_number(list(rest(p)), 0, 'd')
    return 0 if v is None else v


def atof(p):
    v, _ = scan_number(list(rest(p)), 0, 'f')
    return 0.0 if v is None else v


def sizeof(x):
    if isinstance(x, Buf):
        return x.n
    raise Unsupported('sizeof')


def py_call(f, *a, **k):
    return S.sx_call(f, *a, **k)


def islower(c): return And(c >= 97, c <= 122)
def isupper(c): return And(c >= 65, c <= 90)
def isdigit(c): return And(c >= 48, c <= 57)
def isalpha(c): return Or(islower(c), isupper(c))


RUNTIME = {'fopen': fopen, 'fclose': fclose, 'fgets': fgets, 'sscanf': sscanf, 'feof': feof, 'strlen': strlen, 'strchr': strchr,
           'atoi': atoi, 'atof': atof, 'islower': islower, 'isupper': isupper, 'isdigit': isdigit, 'isalpha': isalpha,
           '__Buf': Buf, '__Ref': Ref, '__cast': ccast, '__sizeof': sizeof, '__call': py_call, 'NULL': None, 'fabs': abs,
           'floor': lambda x: x._floor_int() if is_sym(x) else math.floor(x),
           'fmod': lambda x, y: S.OV[math.fmod](x, y) if is_sym(x) else math.fmod(x, y)}


# ------------------------------------------------------------------------------------------ translation
class Emit:
    def __init__(self):
        self.out = []; self.ind = 0; self.types = [{}]; self.cfuncs = {}; self.gtypes = {}; self.consts = {}

    def line(self, s):
        self.out.append('    ' * self.ind + s)

    def un(self, n):
        raise Unsupported('Cython construct %s' % type(n).__name__)

    # -- types
    def tname(self, b):
        t = type(b).__name__
        if t == 'CSimpleBaseTypeNode':
            nm = b.name
            if nm is None:
                return None
            if getattr(b, 'longness', 0) and nm == 'int':
                return 'long'
            return nm
        if t == 'CConstOrVolatileTypeNode':
            return self.tname(b.base_type)
        if t == 'MemoryViewSliceTypeNode':
            return 'view'
        if t == 'TemplatedTypeNode':
            return 'view'
        return None

    def decl(self, d):
        """(name, kind, dimension, default)"""
        t = type(d).__name__
        if t == 'CNameDeclaratorNode':
            return d.name, 'scalar', None, d.default
        if t == 'CPtrDeclaratorNode':
            n, k, dim, de = self.decl(d.base)
            return n, 'ptr', dim, de
        if t == 'CArrayDeclaratorNode':
            n, k, dim, de = self.decl(d.base)
            return n, 'array', d.dimension, de
        self.un(d)

    def typ(self, name):
        return self.types[-1].get(name)

    def name(self, n):
        if n in self.types[-1]:
            return '__v[%r]' % n
        if n == 'None' or n == 'True' or n == 'False':
            return n
        return n

    # -- expressions
    def e(self, n):
        t = type(n).__name__
        f = getattr(self, 'x_' + t, None)
        if f is None:
            self.un(n)
        return f(n)

    def x_NameNode(self, n): return self.name(n.name)
    def x_IntNode(self, n): return '(%s)' % n.value.rstrip('uUlL')
    def x_FloatNode(self, n): return '(%s)' % n.value
    def x_NoneNode(self, n): return 'None'
    def x_NullNode(self, n): return 'None'
    def x_BoolNode(self, n): return str(bool(n.value))
    def x_UnicodeNode(self, n): return repr(str(n.value))
    def x_BytesNode(self, n): return repr(bytes(n.value) if isinstance(n.value, bytes) else n.value.byteencode())
    def x_StringNode(self, n): return repr(str(n.value))
    def x_IdentifierStringNode(self, n): return repr(str(n.value))
    def x_CharNode(self, n): return '(%d)' % ord(n.value)
    def x_TupleNode(self, n): return '(' + ''.join(self.e(a) + ', ' for a in n.args) + ')'
    def x_ListNode(self, n): return '[' + ', '.join(self.e(a) for a in n.args) + ']'
    def x_DictNode(self, n): return '{' + ', '.join('%s: %s' % (self.e(i.key), self.e(i.value)) for i in n.key_value_pairs) + '}'
    def x_AttributeNode(self, n): return '%s.%s' % (self.e(n.obj), n.attribute)
    def x_IndexNode(self, n): return '%s[%s]' % (self.e(n.base), self.idx(n.index))

    def idx(self, i):
        if type(i).__name__ == 'TupleNode':
            return ', '.join(self.idx(a) for a in i.args)
        return self.e(i)

    def x_SliceNode(self, n):
        g = lambda x: '' if x is None or type(x).__name__ == 'NoneNode' else self.e(x)
        s = '%s:%s' % (g(n.start), g(n.stop))
        if g(n.step): s += ':' + g(n.step)
        return s

    def x_SliceIndexNode(self, n):
        g = lambda x: '' if x is None or type(x).__name__ == 'NoneNode' else self.e(x)
        return '%s[%s:%s]' % (self.e(n.base), g(n.start), g(n.stop))

    def bin(self, n): return '(%s %s %s)' % (self.e(n.operand1), n.operator, self.e(n.operand2))
    x_AddNode = x_SubNode = x_MulNode = x_ModNode = x_PowNode = x_IntBinopNode = x_NumBinopNode = x_DivNode = bin
    x_BoolBinopNode = bin

    def x_TildeNode(self, n): return '(~%s)' % self.e(n.operand)

    def x_NotNode(self, n): return '(not %s)' % self.e(n.operand)
    def x_UnaryMinusNode(self, n): return '(-%s)' % self.e(n.operand)
    def x_UnaryPlusNode(self, n): return '(+%s)' % self.e(n.operand)

    def x_PrimaryCmpNode(self, n):
        ops = {'is_not': 'is not', 'not_in': 'not in'}
        def operand(x):
            # a one-character string compared with a C char means its code
            if type(x).__name__ in ('UnicodeNode', 'BytesNode', 'StringNode', 'CharNode', 'IdentifierStringNode') and len(x.value) == 1:
                v = x.value
                return '(%d)' % (v[0] if isinstance(v, bytes) else ord(v))
            return self.e(x)
        o = n.operator
        if n.operator in ('in', 'not_in'):
            s = '%s %s %s' % (self.e(n.operand1), ops.get(o, o), self.tup_codes(n.operand2))
        else:
            s = '%s %s %s' % (operand(n.operand1), ops.get(o, o), operand(n.operand2))
        c = n.cascade
        while c is not None:
            s += ' %s %s' % (ops.get(c.operator, c.operator), operand(c.operand2))
            c = c.cascade
        if n.cascade is not None:
            # chained comparison: evaluate pairwise
            pass
        return '(%s)' % s

    def tup_codes(self, x):
        t = type(x).__name__
        if t in ('BytesNode',):
            return repr(tuple(x.value if isinstance(x.value, bytes) else x.value.byteencode()))
        if t in ('UnicodeNode', 'StringNode', 'IdentifierStringNode'):
            return repr(tuple(ord(c) for c in str(x.value)))
        if t in ('TupleNode', 'ListNode'):
            out = []
            for a in x.args:
                if type(a).__name__ in ('UnicodeNode', 'BytesNode', 'CharNode', 'IdentifierStringNode') and len(a.value) == 1:
                    v = a.value
                    out.append(str(v[0] if isinstance(v, bytes) else ord(v)))
                else:
                    out.append(self.e(a))
            return '(' + ''.join(o + ', ' for o in out) + ')'
        return self.e(x)

    def x_CondExprNode(self, n): return '(%s if %s else %s)' % (self.e(n.true_val), self.e(n.condition if hasattr(n, 'condition') else n.test), self.e(n.false_val))

    def x_AmpersandNode(self, n):
        o = n.operand
        if type(o).__name__ == 'NameNode' and o.name in self.types[-1]:
            return '__Ref(__v, %r, %r)' % (o.name, self.types[-1][o.name])
        if type(o).__name__ == 'IndexNode':
            b = self.e(o.base)
            return '__Ref(%s, (%s), None)' % (b, self.idx(o.index))
        self.un(n)

    def x_SizeofVarNode(self, n): return '__sizeof(%s)' % self.e(n.operand)
    def x_TypecastNode(self, n): return '__cast(%r, %s)' % (self.tname(n.base_type), self.e(n.operand))

    def x_SimpleCallNode(self, n):
        fn = self.e(n.function)
        args = [self.e(a) for a in n.args]
        if fn in RUNTIME or fn in self.cfuncs:
            return '%s(%s)' % (fn, ', '.join(args))
        if fn == 'ord' and len(n.args) == 1:
            return 'ord(%s)' % args[0]
        return '__call(%s)' % ', '.join([fn] + args)

    def x_GeneralCallNode(self, n):
        fn = self.e(n.function)
        args = [self.e(a) for a in n.positional_args.args]
        if n.keyword_args is not None:
            args += ['%s=%s' % (str(i.key.value), self.e(i.value)) for i in n.keyword_args.key_value_pairs]
        if fn.startswith('np.'):
            return '%s(%s)' % (fn, ', '.join(args))
        return '__call(%s)' % ', '.join([fn] + args)

    def x_JoinedStrNode(self, n): return repr('f-string')
    def x_ImportNode(self, n): return 'None'

    # -- statements
    def s(self, n):
        t = type(n).__name__
        f = getattr(self, 's_' + t, None)
        if f is None:
            self.un(n)
        f(n)

    def s_StatListNode(self, n):
        for x in n.stats:
            self.s(x)

    def body(self, n):
        self.ind += 1
        k = len(self.out)
        self.s(n)
        if len(self.out) == k:
            self.line('pass')
        self.ind -= 1

    def s_CEnumDefNode(self, n):
        prev = '-1'
        for it in n.items:
            v = self.e(it.value) if it.value is not None else '(%s + 1)' % prev
            self.line('%s = %s' % (it.name, v))
            prev = it.name

    def s_PassStatNode(self, n): self.line('pass')
    def s_FromCImportStatNode(self, n): pass
    def s_CImportStatNode(self, n): pass
    def s_FromImportStatNode(self, n): pass
    def s_GlobalNode(self, n): self.line('global ' + ', '.join(n.names))
    def s_ExprStatNode(self, n): self.line(self.e(n.expr))
    def s_BreakStatNode(self, n): self.line('break')
    def s_ContinueStatNode(self, n): self.line('continue')
    def s_ReturnStatNode(self, n): self.line('return ' + (self.e(n.value) if n.value is not None else 'None'))

    def s_RaiseStatNode(self, n):
        self.line('raise ' + (self.e(n.exc_type) if n.exc_type is not None else ''))

    def s_AssertStatNode(self, n): self.line('assert ' + self.e(n.condition))

    def target(self, l):
        return self.e(l)

    def assign(self, l, rhs):
        if type(l).__name__ == 'NameNode':
            ty = self.typ(l.name)
            if ty in INTS or ty in DBL:
                rhs = '__cast(%r, %s)' % (ty, rhs)
        self.line('%s = %s' % (self.target(l), rhs))

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == 'ImportNode':
            if type(n.lhs).__name__ == 'NameNode' and n.lhs.name != 'np':
                self.line('import %s as %s' % (n.rhs.module_name.value, n.lhs.name))
            return
        rhs = n.rhs
        if type(rhs).__name__ in ('UnicodeNode', 'BytesNode', 'CharNode', 'IdentifierStringNode') and type(n.lhs).__name__ == 'NameNode' \
                and self.typ(n.lhs.name) in INTS and len(rhs.value) == 1:
            v = rhs.value
            self.assign(n.lhs, str(v[0] if isinstance(v, bytes) else ord(v)))
            return
        self.assign(n.lhs, self.e(rhs))

    def s_CascadedAssignmentNode(self, n):
        self.line('__t = ' + self.e(n.rhs))
        for l in n.lhs_list:
            self.assign(l, '__t')

    def s_ParallelAssignmentNode(self, n):
        for k, st in enumerate(n.stats):
            self.line('__p%d = %s' % (k, self.e(st.rhs)))
        for k, st in enumerate(n.stats):
            self.assign(st.lhs, '__p%d' % k)

    def s_InPlaceAssignmentNode(self, n):
        self.assign(n.lhs, '(%s %s %s)' % (self.e(n.lhs), n.operator, self.e(n.rhs)))

    def s_CVarDefNode(self, n):
        ty = self.tname(n.base_type)
        for d in n.declarators:
            nm, kind, dim, de = self.decl(d)
            self.types[-1][nm] = ty if kind == 'scalar' else kind
            if kind == 'array':
                self.line('__v[%r] = __Buf(%s)' % (nm, self.e(dim)) if ty in ('char', 'unsigned char') else '__v[%r] = [0] * %s' % (nm, self.e(dim)))
            elif de is not None:
                r = self.e(de)
                if kind == 'scalar' and (ty in INTS or ty in DBL):
                    r = '__cast(%r, %s)' % (ty, r)
                self.line('__v[%r] = %s' % (nm, r))
            else:
                self.line('__v[%r] = %s' % (nm, '0' if kind == 'scalar' and (ty in INTS or ty in DBL) else 'None'))

    def s_IfStatNode(self, n):
        for k, c in enumerate(n.if_clauses):
            self.line('%s %s:' % ('if' if k == 0 else 'elif', self.e(c.condition)))
            self.body(c.body)
        if n.else_clause is not None:
            self.line('else:')
            self.body(n.else_clause)

    def s_WhileStatNode(self, n):
        self.line('while %s:' % self.e(n.condition))
        self.body(n.body)

    def s_ForInStatNode(self, n):
        it = n.iterator.sequence if hasattr(n.iterator, 'sequence') else n.iterator
        self.line('for __i in %s:' % self.e(it))
        self.ind += 1
        self.assign(n.target, '__i')
        self.ind -= 1
        self.body(n.body)

    def s_TryFinallyStatNode(self, n):
        self.line('try:'); self.body(n.body)
        self.line('finally:'); self.body(n.finally_clause)

    def s_TryExceptStatNode(self, n):
        self.line('try:'); self.body(n.body)
        for c in n.except_clauses:
            pat = c.pattern
            if pat:
                self.line('except (%s)%s:' % (''.join(self.e(p) + ',' for p in pat), ' as %s' % c.target.name if c.target is not None else ''))
            else:
                self.line('except Exception:')
            self.body(c.body)
        if n.else_clause is not None:
            self.line('else:'); self.body(n.else_clause)

    def s_GILStatNode(self, n):
        self.s(n.body)

    def args(self, args):
        out = []; pre = []
        for a in args:
            nm, kind, dim, de = self.decl(a.declarator)
            ty = self.tname(a.base_type)
            if not nm:            # untyped argument: the name sits in the base type
                nm, ty = a.base_type.name, None
            out.append(nm + ('=' + self.e(a.default) if a.default is not None else ''))
            if ty is not None and ty != 'object':
                self.types[-1][nm] = ty if kind == 'scalar' else kind
                v = nm
                if kind == 'scalar' and (ty in INTS or ty in DBL):
                    v = '__cast(%r, %s)' % (ty, nm)
                pre.append('__v[%r] = %s' % (nm, v))
        return out, pre

    def func(self, name, args, body, doc=None):
        # types declared anywhere in the body are known from the start
        self.types.append({})
        a, pre = self.args(args)
        self.line('def %s(%s):' % (name, ', '.join(a)))
        self.ind += 1
        self.line('__v = {}')
        for p in pre:
            self.line(p)
        self.ind -= 1
        self.body(body)
        self.types.pop()
        self.line('')

    def s_DefNode(self, n):
        self.func(n.name, n.args, n.body)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        nm = d.base.name
        self.cfuncs[nm] = 1
        self.func(nm, d.args, n.body)

    def s_DefNodeWrapper(self, n): self.un(n)


def translate(src):
    from Cython.Compiler.TreeFragment import parse_from_strings
    t = parse_from_strings('parsers', src)
    em = Emit()
    em.gtypes = em.types[0]
    # cdef functions may be used before they are defined
    for st in t.body.stats if hasattr(t.body, 'stats') else [t.body]:
        if type(st).__name__ == 'CFuncDefNode':
            d = st.declarator
            while type(d).__name__ != 'CFuncDeclaratorNode':
                d = d.base
            em.cfuncs[d.base.name] = 1
    em.line('__v = {}')
    em.s(t.body)
    return '\n'.join(em.out)


_mod = None


def load():
    """namespace of the translated parsers.pyx of the current tree"""
    global _mod
    if _mod is None:
        src = open(os.path.join(S.REPO, 'gemlog', 'parsers.pyx'), encoding='utf-8').read()
        py = translate(src)
        ns = dict(RUNTIME)
        ns['np'] = NP()
        exec(compile(py, 'parsers.pyx (translated)', 'exec'), ns)
        ns['__source__'] = py
        _mod = ns
    return _mod


# ------------------------------------------------------------------------------------------ the real thing, for replays
_built = None


def build(tmp):
    """compiles the current parsers.pyx in tmp and returns the module"""
    global _built
    if _built is not None:
        return _built
    import subprocess, sysconfig, importlib.util, shutil, sys
    src = os.path.join(tmp, 'parsers.pyx')
    shutil.copy(os.path.join(S.REPO, 'gemlog', 'parsers.pyx'), src)
    c = os.path.join(tmp, 'parsers.c')
    subprocess.run([sys.executable, '-m', 'cython', '-3', '-o', c, src], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    so = os.path.join(tmp, 'parsers' + sysconfig.get_config_var('EXT_SUFFIX'))
    inc = sysconfig.get_paths()['include']
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-I' + inc, '-I' + np.get_include(), c, '-o', so], check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    spec = importlib.util.spec_from_file_location('gemlog.parsers', so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    _built = m
    return m
