"""An interpreter for the part of Julia in which the wrappers are written (modules, imports, structures, functions, closures,
broadcasting, foreign calls). What it does not know it refuses: Unsupported, which is not a violation."""
import os, re, numpy as np
class Unsupported(Exception): pass
class JuliaError(Exception): pass
KW = {'module', 'baremodule', 'end', 'struct', 'mutable', 'function', 'const', 'using', 'import', 'export', 'if', 'elseif', 'else', 'for', 'while', 'return', 'begin', 'let', 'do', 'in', 'local', 'global', 'break', 'continue', 'where', 'abstract', 'try', 'macro', 'quote', 'true', 'false'}
OPS = sorted(['.+=', '.*=', '->', '=>', '+=', '-=', '*=', '/=', '^=', '::', '<:', '>:', '===', '!==', '==', '!=', '<=', '>=', '&&', '||', '|>', './', '.*', '.+', '.-', '.^', '.<', '.>', '.<=', '.>=', '.==', '.!=', '...', '..', '//', '+', '-', '*', '/', '^', '÷', '%', '<', '>', '=', '!', '?', ':', ',', ';', '.', '(', ')', '[', ']', '{', '}', '&', '|', '∘', '√', '≤', '≥', '≠', '∈', "'"], key=len, reverse=True)
NUM = re.compile(r'0x[0-9a-fA-F]+|(?:\d[\d_]*)(?:\.(?![.\w*/+^\-])|\.\d+)?(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?')
ID = re.compile(r'[^\W\d][\w!]*')
def lex(s, where):
    i, n, out, line = 0, len(s), [], 1; nl = sp = True
    while i < n:
        c = s[i]
        if c == '\n': nl = sp = True; line += 1; i += 1; continue
        if c in ' \t\r': sp = True; i += 1; continue
        if s.startswith('#=', i):
            j = s.find('=#', i + 2)
            if j < 0: raise JuliaError(where + ': comment without end')
            line += s.count('\n', i, j); i = j + 2; sp = True; continue
        if c == '#':
            j = s.find('\n', i); i = n if j < 0 else j; continue
        if c == '"' or s.startswith(('raw"', 'doc"'), i):
            raw = c != '"'; i += 3 if raw else 0; q = '"""' if s.startswith('"""', i) else '"'; j = i + len(q)
            while not s.startswith(q, j):
                if j >= n: raise JuliaError(where + ': string without end')
                j += 2 if s[j] == '\\' and not (raw and s[j + 1] != '"') else 1
            t = ('str', s[i + len(q):j]); k = line; line += s.count('\n', i, j); out.append(t + (nl, sp, k)); i = j + len(q); nl = sp = False; continue
        m = NUM.match(s, i) if c.isdigit() or c == '.' and i + 1 < n and s[i + 1].isdigit() else None
        if m: out.append(('num', m.group(), nl, sp, line)); i = m.end(); nl = sp = False; continue
        m = ID.match(s, i)
        if m:
            t = m.group()
            if t.endswith('!') and s.startswith('=', m.end()) and not s.startswith('==', m.end()): t = t[:-1]
            out.append(('kw' if t in KW else 'id', t, nl, sp, line)); i += len(t); nl = sp = False; continue
        if c == '@':
            m = re.compile(r'@[\w.]+').match(s, i); out.append(('mac', m.group(), nl, sp, line)); i = m.end(); nl = sp = False; continue
        for o in OPS:
            if s.startswith(o, i): out.append(('op', o, nl, sp, line)); i += len(o); nl = sp = False; break
        else: raise Unsupported('%s:%d: character %r' % (where, line, c))
    out.append(('eof', '', True, True, line)); return out
def plain(x): return x[1:] if x.startswith('.') and x not in ('..', '...', '.') else x
LEVEL = {'||': 3, '&&': 4, '<:': 5, '>:': 5, '|>': 6, ':': 7, '+': 8, '-': 8, '|': 8, '*': 9, '/': 9, '÷': 9, '%': 9, '&': 9, '∘': 9, '//': 10}
CMP = {'==', '!=', '<', '>', '<=', '>=', '===', '!==', '≤', '≥', '≠', '∈'}
LEVEL.update({c: 5 for c in CMP})
class Parser:
    def __init__(self, s, where): self.t = lex(s, where); self.i = 0; self.w = where; self.inside = [False]
    @property
    def k(self): return self.t[self.i]
    def bad(self, what): raise Unsupported('%s:%d: %s near %r' % (self.w, self.k[4], what, self.k[1]))
    def at(self, v, kind='op'): return self.k[0] == kind and self.k[1] == v
    def take(self, v, kind='op'):
        if not self.at(v, kind): self.bad('expected %r' % v)
        self.i += 1
    def opt(self, v, kind='op'):
        if self.at(v, kind): self.i += 1; return True
        return False
    def fresh(self): return self.k[2] and not self.inside[-1]      # a new line which ends an expression
    def block(self, ends):
        self.inside.append(False); out = []
        while not (self.k[0] == 'kw' and self.k[1] in ends):
            if self.k[0] == 'eof':
                if 'eof' in ends: break
                self.bad('end of file')
            if self.opt(';'): continue
            out.append(self.statement())
        self.inside.pop(); return out
    def statement(self):
        ln = self.k[4]; return ('line', ln, self.statement_())
    def statement_(self):
        k, v = self.k[:2]
        if k == 'kw':
            if v in ('module', 'baremodule'):
                self.i += 1; n = self.ident(); b = self.block({'end'}); self.take('end', 'kw'); return ('module', n, b)
            if v == 'mutable' or v == 'struct':
                self.opt('mutable', 'kw'); self.take('struct', 'kw'); n = self.ident()
                if self.opt('<:'): self.expr()
                fields, inner = [], []
                self.inside.append(False)
                while not self.at('end', 'kw'):
                    if self.opt(';') or self.k[0] == 'str' and self.skip(): continue
                    self.opt('const', 'kw')
                    if self.at('function', 'kw'): self.bad('inner constructor')
                    f = self.ident(); fields.append((f, self.typ() if self.opt('::') else ('id', 'Any')))
                self.inside.pop(); self.take('end', 'kw'); return ('struct', n, fields)
            if v == 'function':
                self.i += 1; self.inside.append(False); lhs = self.postfix(); ret = self.typ() if self.opt('::') else None
                while self.opt('where', 'kw'): self.typ()
                self.inside.pop(); b = self.block({'end'}); self.take('end', 'kw'); return self.function(lhs, ret, ('block', b))
            if v in ('const', 'local', 'global'):
                self.i += 1; return ('const' if v == 'const' else v, self.expr())
            if v in ('using', 'import'):
                self.i += 1; out = []
                while True:
                    dots = 0
                    while self.k[0] == 'op' and set(self.k[1]) == {'.'}: dots += len(self.k[1]); self.i += 1
                    path = [self.ident()]
                    while self.opt('.'): path.append(self.ident())
                    names = None
                    if self.opt(':'):
                        names = []
                        while True:
                            n = self.k[1]; self.i += 1; a = n
                            if self.k[:2] == ('id', 'as'): self.i += 1; a = self.ident()
                            names.append((n, a))
                            if not self.opt(','): break
                    elif self.k[:2] == ('id', 'as'): self.bad('renamed module')
                    out.append((dots, path, names))
                    if not self.opt(','): break
                return (v, out)
            if v == 'export':
                self.i += 1; n = [self.ident()]
                while self.opt(','): n.append(self.ident())
                return ('export', n)
            if v == 'return':
                self.i += 1; return ('return', ('nothing',) if self.fresh() or self.k[0] == 'eof' or self.at(';') or self.k[0] == 'kw' and self.k[1] in ('end', 'else', 'elseif') else self.tupled())
            if v in ('break', 'continue'): self.i += 1; return (v,)
            if v == 'while':
                self.i += 1; c = self.expr(); b = self.block({'end'}); self.take('end', 'kw'); return ('while', c, ('block', b))
            if v == 'for':
                self.i += 1; its = [self.iteration()]
                while self.opt(','): its.append(self.iteration())
                b = self.block({'end'}); self.take('end', 'kw'); body = ('block', b)
                for n, e in reversed(its): body = ('for', n, e, body)
                return body
        return self.tupled()
    def skip(self): self.i += 1; return True
    def iteration(self):
        n = self.postfix()
        if not (self.opt('in', 'kw') or self.opt('=') or self.opt('∈')): self.bad('iteration')
        return n, self.expr()
    def tupled(self):
        e = self.expr()
        if self.at(',') and not self.inside[-1]:
            es = [e]
            while self.opt(','): es.append(self.expr())
            if self.at('='): self.i += 1; return ('assign', ('tuple', es), self.tupled())
            return ('tuple', es)
        return e
    def ident(self):
        if self.k[0] != 'id': self.bad('expected a name')
        self.i += 1; return self.t[self.i - 1][1]
    def typ(self): return self.postfix()
    def function(self, lhs, ret, body):
        while lhs[0] == 'where': lhs = lhs[1]
        if lhs[0] == 'typed': lhs, ret = lhs[1], lhs[2]
        if lhs[0] == 'tuple': return ('lambda', self.pars(lhs[1]), ret, body)
        if lhs[0] != 'call': self.bad('function head')
        return ('def', lhs[1], self.pars(lhs[2]), ret, body)
    def pars(self, es):
        out = []
        for e in es:
            d = None; va = False; kw = False
            if e[0] == 'kwarg': e, d, kw = e[1], e[2], e[3]
            if e[0] == 'assign': e, d = e[1], e[2]
            if e[0] == 'splat': e, va = e[1], True
            t = None
            if e[0] == 'typed': e, t = e[1], e[2]
            if e is not None and e[0] != 'id': self.bad('argument of a function')
            out.append((e[1] if e else None, t, d, va, kw))
        return out
    def expr(self):
        if self.at('kw'): pass
        l = self.ternary()
        if self.k[0] == 'op' and not self.fresh():
            o = self.k[1]
            if o == '->': self.i += 1; return ('lambda', self.pars(l[1] if l[0] == 'tuple' else [l]), None, self.expr())
            if o == '=':
                self.i += 1; r = self.expr() if self.inside[-1] else self.tupled()
                if l[0] == 'call' or l[0] == 'where' or l[0] == 'typed' and l[1] and l[1][0] == 'call': return self.function(l, None, r)
                return ('assign', l, r)
            if o in ('+=', '-=', '*=', '/=', '^='): self.i += 1; return ('assign', l, ('bin', o[0], l, self.expr()))
            if o in ('.+=', '.*='): self.bad('broadcast assignment')
            if o == '=>': self.bad('pair')
        return l
    def ternary(self):
        c = self.binary(3)
        if self.at('?') and not self.fresh():
            self.i += 1; self.inside.append(True); self.noc = getattr(self, 'noc', 0) + 1; a = self.ternary(); self.noc -= 1; self.take(':'); self.inside.pop(); return ('if', c, a, self.ternary())
        return c
    def binary(self, lv):
        if lv > 10: return self.unary()
        l = self.binary(lv + 1)
        while self.k[0] in ('op', 'kw') and not self.fresh():
            o = self.k[1]; p = plain(o)
            if o == 'in' and self.k[0] == 'kw' and lv == 5 and not getattr(self, 'noin', 0): self.bad('membership')
            if self.k[0] != 'op' or LEVEL.get(p) != lv: break
            if p == ':' and (getattr(self, 'noc', 0)): break
            self.i += 1
            if lv == 5 and p in CMP:
                parts = [l, (o, self.binary(lv + 1))]
                while self.k[0] == 'op' and plain(self.k[1]) in CMP and not self.fresh(): q = self.k[1]; self.i += 1; parts.append((q, self.binary(lv + 1)))
                l = ('cmp', parts); continue
            r = self.binary(lv + 1)
            if p == ':':
                if self.at(':') and not self.fresh() and not getattr(self, 'noc', 0): self.i += 1; l = ('range', l, r, self.binary(lv + 1))
                else: l = ('range', l, None, r)
            elif p == '&&': l = ('and', l, r)
            elif p == '||': l = ('or', l, r)
            elif p == '|>': l = ('call', r, [l])
            elif p in ('<:', '>:'): l = ('subtype', l, r)
            else: l = ('dotbin' if o != p else 'bin', p, l, r)
        return l
    def unary(self):
        if self.k[0] == 'op' and self.k[1] in ('-', '+', '!', '√', '::', '<:'):
            o = self.k[1]; self.i += 1
            if o == '::': return ('typed', None, self.typ())
            if o == '<:': return ('subtype', None, self.typ())
            return ('un', o, self.unary())
        return self.power()
    def power(self):
        b = self.postfix()
        if self.at('::') and not self.fresh(): self.i += 1; b = ('typed', b, self.typ())
        if self.k[0] == 'kw' and self.k[1] == 'where' and not self.fresh(): self.i += 1; b = ('where', b, self.typ())
        if self.k[0] == 'op' and plain(self.k[1]) == '^' and not self.fresh():
            o = self.k[1]; self.i += 1; e = self.unary(); b = ('dotbin' if o != '^' else 'bin', '^', b, e)
        if self.at('...') and not self.fresh(): self.i += 1; b = ('splat', b)
        return b
    def args(self, close):
        self.inside.append(True); es = []; kw = False; noc, self.noc = getattr(self, 'noc', 0), 0
        while not self.at(close):
            if self.opt(';'): kw = True; continue
            e = self.expr()
            if e[0] == 'assign' and close == ')': e = ('kwarg', e[1], e[2], kw)
            if self.at('for', 'kw'): e = self.comprehension(e)
            es.append(e)
            if not self.opt(','):
                if self.at(';'): continue
                break
        self.noc = noc; self.inside.pop(); self.take(close); return es
    def comprehension(self, e):
        self.i += 1; self.noin = getattr(self, 'noin', 0) + 1; its = [self.iteration()]
        while self.opt(','): its.append(self.iteration())
        if self.at('if', 'kw') or self.at('for', 'kw') or len(its) > 1: self.bad('comprehension')
        self.noin -= 1; return ('comp', e, its[0][0], its[0][1])
    def postfix(self):
        e = self.primary()
        while self.k[0] != 'eof' and not self.fresh():
            k, v, _, sp, _ = self.k
            if k == 'op' and v == '(' and not sp:
                self.i += 1; e = ('call', e, self.args(')'))
                if self.at('do', 'kw') and not self.fresh():
                    self.i += 1; ps = []
                    while not self.k[2]:
                        ps.append(self.power())
                        if not self.opt(','): break
                    b = self.block({'end'}); self.take('end', 'kw'); e = ('call', e[1], [('lambda', self.pars(ps), None, ('block', b))] + e[2])
            elif k == 'op' and v == '[' and not sp: self.i += 1; e = ('index', e, self.args(']'))
            elif k == 'op' and v == '{' and not sp: self.i += 1; e = ('curly', e, self.args('}'))
            elif k == 'op' and v == '.' and not sp:
                self.i += 1
                if self.opt('('): e = ('dotcall', e, self.args(')'))
                else: e = ('dot', e, self.ident())
            elif k == 'op' and v == "'" and not sp: self.bad('adjoint')
            else: break
        return e
    def primary(self):
        k, v, _, _, ln = self.k; self.i += 1
        if k == 'num':
            n = ('lit', number(v))
            if not self.k[3] and not self.k[2] and (self.k[0] == 'id' or self.at('(')) and not v.startswith('0x'): return ('bin', '*', n, self.power())
            return n
        if k == 'str': return ('str', v)
        if k == 'id': return ('id', v)
        if k == 'mac':
            if v == '@__FILE__': return ('lit', self.w)
            if v == '@__DIR__': return ('lit', os.path.dirname(self.w))
            if v in ('@inline', '@noinline', '@inbounds', '@doc'):
                return self.statement_()
            self.i -= 1; self.bad('macro')
        if k == 'op' and v == '(':
            self.inside.append(True); es = []; comma = False; noc, self.noc = getattr(self, 'noc', 0), 0; kw = False
            while not self.at(')'):
                if self.opt(';'): kw = True; continue
                e = self.expr()
                if self.at('for', 'kw'): e = self.comprehension(e)
                es.append(e)
                if self.opt(','): comma = True
                elif self.at(';'): continue
                else: break
            self.inside.pop(); self.noc = noc; self.take(')')
            if kw and len(es) > 1: return ('block', es)
            if len(es) == 1 and not comma: return ('paren', es[0]) if es[0][0] not in ('id', 'typed', 'splat') else es[0]
            return ('tuple', es)
        if k == 'op' and v == '[':
            es = self.args(']')
            return es[0] if len(es) == 1 and es[0][0] == 'comp' else ('vect', es)
        if k == 'op' and v == ':':
            if self.k[0] in ('id', 'kw'): self.i += 1; return ('sym', self.t[self.i - 1][1])
            if not self.k[3]: return ('id', ':')
        if k == 'kw':
            if v in ('true', 'false'): return ('lit', v == 'true')
            if v == 'begin': b = self.block({'end'}); self.take('end', 'kw'); return ('block', b)
            if v == 'let':
                bs = []
                while not self.k[2]:
                    bs.append(self.expr())
                    if not self.opt(','): break
                b = self.block({'end'}); self.take('end', 'kw'); return ('let', bs, ('block', b))
            if v == 'if':
                self.inside.append(False); c = self.expr(); self.inside.pop(); a = self.block({'end', 'else', 'elseif'})
                if self.at('elseif', 'kw'): return ('if', c, ('block', a), self.primary_elseif())
                b = []
                if self.opt('else', 'kw'): b = self.block({'end'})
                self.take('end', 'kw'); return ('if', c, ('block', a), ('block', b))
            if v == 'function':
                self.i -= 1; return self.statement_()
            if v == 'end' and getattr(self, 'inside', [0])[-1]: return ('endindex',)
        self.i -= 1; self.bad('unexpected')
    def primary_elseif(self):
        self.t[self.i] = ('kw', 'if') + self.t[self.i][2:]; return self.primary()
def number(v):
    v = v.replace('_', '')
    if v.startswith('0x'): return U(int(v, 16), max(8, 1 << (max(len(v) - 2, 1)*4 - 1).bit_length()))
    return np.float64(v) if any(c in v for c in '.eE') else int(v)

class U:
    """An unsigned integer of some width; arithmetic wraps."""
    __slots__ = ('v', 'b')
    def __init__(self, v, b): self.v, self.b = v % (1 << b), b
    def __eq__(self, o): return isinstance(o, U) and (self.v, self.b) == (o.v, o.b) or isinstance(o, (int, float)) and self.v == o
    def __hash__(self): return hash(self.v)
    def __repr__(self): return '0x%0*x' % (self.b//4, self.v)
    def __float__(self): return float(self.v)
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cnt(Exception): pass
class Scope:
    __slots__ = ('d', 'up')
    def __init__(self, up, d=None): self.d, self.up = {} if d is None else d, up
    def find(self, n):
        s = self
        while s is not None:
            if n in s.d: return s
            s = s.up
        return None
class Module:
    def __init__(self, name, parent): self.name, self.parent, self.d = name, parent, {}; self.d[name] = self; self.exports = set(); self.usings = []; self.up = None
    def path(self): return ([] if self.parent is None else self.parent.path()) + [self.name]
    def __repr__(self): return '.'.join(self.path())
class Import:
    def __init__(self, m, n): self.m, self.n = m, n
class External:
    def __init__(self, n): self.n = n
class Type:
    def __init__(self, name, rank, has, conv=None): self.name, self.rank, self.has, self.conv = name, rank, has, conv
    def __repr__(self): return self.name
class StructType(Type):
    def __init__(self, name, fields, mod):
        super().__init__(name, 0, lambda v: isinstance(v, Struct) and v.t is self); self.fields, self.mod, self.g = fields, mod, Generic(name)
    def path(self): return self.mod.path() + [self.name]
class Struct:
    def __init__(self, t, vals): self.t = t; self.d = dict(zip([f for f, _ in t.fields], vals))
class Generic:
    def __init__(self, name): self.name, self.m = name, []
class Method:
    def __init__(self, pars, ret, body, scope, sig, where): self.pars, self.ret, self.body, self.scope, self.sig, self.where = pars, ret, body, scope, sig, where
isarr = lambda v: isinstance(v, np.ndarray)
isint = lambda v: isinstance(v, int) and not isinstance(v, bool)
isflt = lambda v: isinstance(v, float)
isfun = lambda v: callable(v) and not isinstance(v, (Type, Module)) or isinstance(v, (Generic, Method))
def cfloat(v):
    if isflt(v): return np.float64(v)
    if isinstance(v, (int, U)): return np.float64(v.v if isinstance(v, U) else v)
    raise JuliaError('cannot convert %r to Float64' % (v,))
def cuint(bits):
    def f(v):
        if isinstance(v, U): v = v.v
        if isinstance(v, float):
            if v != np.floor(v): raise JuliaError('InexactError: UInt%d(%r)' % (bits, v))
            v = int(v)
        if not isinstance(v, int) or not 0 <= v < 1 << bits: raise JuliaError('InexactError: UInt%d(%r)' % (bits, v))
        return U(v, bits)
    return f
def cint(v):
    if isinstance(v, U): return v.v
    if isinstance(v, float):
        if v != np.floor(v): raise JuliaError('InexactError: Int64(%r)' % v)
        return int(v)
    if isinstance(v, int): return int(v)
    raise JuliaError('cannot convert %r to Int64' % (v,))
num = lambda v: isinstance(v, (int, float, U))
TYPES = {t.name: t for t in [Type('Any', 9, lambda v: True), Type('Float64', 0, isflt, cfloat), Type('Int64', 0, isint, cint), Type('Bool', 0, lambda v: isinstance(v, bool)), Type('Number', 4, num), Type('Real', 3, num),
    Type('AbstractFloat', 2, isflt), Type('Integer', 2, lambda v: isinstance(v, (int, U))), Type('Unsigned', 1, lambda v: isinstance(v, U)), Type('Function', 3, isfun), Type('Array', 2, isarr), Type('AbstractArray', 3, isarr),
    Type('Vector', 1, lambda v: isarr(v) and v.ndim == 1), Type('Matrix', 1, lambda v: isarr(v) and v.ndim == 2), Type('AbstractVector', 2, lambda v: isarr(v) and v.ndim == 1), Type('AbstractMatrix', 2, lambda v: isarr(v) and v.ndim == 2), Type('String', 0, lambda v: isinstance(v, str)), Type('Symbol', 0, lambda v: isinstance(v, Sym)), Type('Nothing', 0, lambda v: v is None), Type('Tuple', 1, lambda v: isinstance(v, tuple))]
    + [Type('UInt%d' % b, 0, (lambda b: lambda v: isinstance(v, U) and v.b == b)(b), cuint(b)) for b in (8, 16, 32, 64)]}
def csigned(bits):
    def f(v):
        v = cint(v)
        if not -(1 << bits - 1) <= v < 1 << bits - 1: raise JuliaError('InexactError: Int%d(%r)' % (bits, v))
        return v
    return f
TYPES.update({'Int%d' % b: Type('Int%d' % b, 0, lambda v: False, csigned(b)) for b in (8, 16, 32)}); TYPES['Float32'] = Type('Float32', 0, lambda v: False, lambda v: np.float64(np.float32(cfloat(v)))); TYPES['Cint'] = TYPES['Int32']; TYPES['Clong'] = TYPES['Int64']; TYPES['Cfloat'] = TYPES['Float32']
TYPES['Int'] = TYPES['Int64']; TYPES['UInt'] = TYPES['UInt64']; TYPES['Cdouble'] = TYPES['Float64']; TYPES['Cuchar'] = TYPES['UInt8']
class Sym(str): pass
def union(ts): return Type('Union{%s}' % ','.join(map(repr, ts)), 1 + max(t.rank for t in ts), lambda v: any(t.has(v) for t in ts))
def item(v):
    if isinstance(v, np.floating): return np.float64(v)
    if isinstance(v, np.bool_): return bool(v)
    if isinstance(v, np.uint8): return U(int(v), 8)
    if isinstance(v, np.integer): return int(v)
    return v
def array(vals, shape):
    vals = list(vals)
    if all(isflt(v) for v in vals): a = np.array(vals, float)
    elif all(isinstance(v, U) and v.b == 8 for v in vals): a = np.array([v.v for v in vals], np.uint8)
    elif all(isint(v) for v in vals): a = np.array(vals, np.int64)
    else:
        a = np.empty(len(vals), object)
        for i, v in enumerate(vals): a[i] = v
    return a.reshape(shape)
def arith(o, a, b):
    if isinstance(a, U) or isinstance(b, U):
        if isinstance(a, U) and isinstance(b, U) and o not in '/':
            w = max(a.b, b.b); r = {'+': a.v + b.v, '-': a.v - b.v, '*': a.v*b.v, '^': a.v**b.v if o == '^' else 0}.get(o)
            if r is not None: return U(r, w)
            if o in '÷%' and b.v: return U(a.v//b.v if o == '÷' else a.v % b.v, w)
            raise Unsupported('operator %s' % o)
        if isinstance(a, U) and o == '^' and isint(b): return U(a.v**b, a.b)
        a, b = (a.v if isinstance(a, U) else a), (b.v if isinstance(b, U) else b)
    if not (isinstance(a, (int, float)) and isinstance(b, (int, float))): raise JuliaError('MethodError: %s(%s, %s)' % (o, type(a).__name__, type(b).__name__))
    if isinstance(a, float) or isinstance(b, float) or o == '/':
        x, y = np.float64(a), np.float64(b)
        if o == '+': return x + y
        if o == '-': return x - y
        if o == '*': return x*y
        if o == '/': return x/y
        if o == '^': return (x*x if b == 2 else x*x*x if b == 3 else x**y) if isint(b) else x**y
        if o == '÷': return np.trunc(x/y)
        if o == '%': return np.fmod(x, y)
    else:
        if o == '+': return int(a) + int(b)
        if o == '-': return int(a) - int(b)
        if o == '*': return int(a)*int(b)
        if o == '^':
            if b < 0: raise JuliaError('DomainError')
            return int(a)**int(b)
        if o in '÷%':
            if not b: raise JuliaError('DivideError')
            q = abs(a)//abs(b)*(1 if a*b >= 0 else -1); return q if o == '÷' else a - q*b
    raise Unsupported('operator %s' % o)
def compare(o, a, b):
    if isinstance(a, U): a = a.v
    if isinstance(b, U): b = b.v
    o = {'≤': '<=', '≥': '>=', '≠': '!='}.get(o, o)
    if o in ('==', '==='): return bool(a == b)
    if o in ('!=', '!=='): return bool(a != b)
    return bool({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[o])
def broadcast(call, f, args):
    """Julia's broadcasting: dimensions are aligned from the first."""
    shp = [a.shape for a in args if isarr(a)]
    shp += [(len(a),) for a in args if isinstance(a, tuple)]
    args = [array(a, (len(a),)) if isinstance(a, tuple) else a for a in args]
    if not shp: return call(f, args)
    nd = max(map(len, shp)); out = []
    for d in range(nd):
        s = {x[d] if d < len(x) else 1 for x in shp}; m = s - {1}
        if len(m) > 1: raise JuliaError('DimensionMismatch')
        out.append(m.pop() if m else 1)
    ex = [np.broadcast_to(a.reshape(a.shape + (1,)*(nd - a.ndim)), out) if isarr(a) else a for a in args]
    vals = [call(f, [item(a[i]) if isarr(a) else a for a in ex]) for i in np.ndindex(*out)]
    return array(vals, tuple(out))
class Julia:
    def __init__(self, ccall, limit=100):
        self.base = {}; self.ccall = ccall; self.files = []; self.depth = 0; self.limit = limit; self.bodies = {}; self.ncall = 0
        self.defs = []                   # every method definition, for coverage
        self.base.update(TYPES)
        el = lambda f: lambda J, a, kw: f(*[cfloat(x) if not isarr(x) else (_ for _ in ()).throw(JuliaError('MethodError on an array')) for x in a])
        for n, f in dict(sqrt=np.sqrt, exp=np.exp, log=np.log, sinh=np.sinh, cosh=np.cosh, tanh=np.tanh, sin=np.sin, cos=np.cos, coth=lambda x: 1/np.tanh(x)).items(): self.base[n] = Native(n, el(f))
        def b(name):
            def reg(f): self.base[name] = Native(name, f); return f
            return reg
        b('broadcast')(lambda J, a, kw: broadcast(lambda f, x: J.call(f, x), a[0], list(a[1:])))
        b('dirname')(lambda J, a, kw: os.path.dirname(a[0])); b('string')(lambda J, a, kw: ''.join(x if isinstance(x, str) else show(x) for x in a)); b('joinpath')(lambda J, a, kw: os.path.join(*a))
        b('collect')(lambda J, a, kw: seq(a[0])); b('identity')(lambda J, a, kw: a[0])
        def rng(J, a, kw):
            if set(kw) - {'length', 'stop', 'step'} : raise Unsupported('range')
            lo = a[0]; hi = a[1] if len(a) > 1 else kw.get('stop'); n = kw.get('length', a[2] if len(a) > 2 else None)
            if n is not None and hi is not None:
                n = cint(n); x = np.linspace(float(lo), float(hi), n) if n > 1 else np.array([float(lo)]) if n else np.empty(0)
                if isint(lo) and isint(hi) and n > 1 and (hi - lo) % (n - 1) == 0: x = np.arange(n, dtype=float)*((hi - lo)//(n - 1)) + lo
                return x
            if 'step' in kw and hi is not None: return stepped(lo, kw['step'], hi)
            if hi is not None: return stepped(lo, 1, hi)
            raise Unsupported('range')
        b('range')(rng); b('LinRange')(lambda J, a, kw: np.linspace(float(a[0]), float(a[1]), cint(a[2])))
        b('map')(lambda J, a, kw: (lambda xs: array([J.call(a[0], [x]) for x in map(item, xs.ravel())], xs.shape))(seq(a[1])) if len(a) == 2 else (_ for _ in ()).throw(Unsupported('map of several')))
        def red(z):
            def f(J, a, kw):
                if kw: raise Unsupported('keywords of a reduction')
                xs = [J.call(a[0], [item(x)]) for x in seq(a[1]).ravel()] if len(a) == 2 else [item(x) for x in seq(a[0]).ravel()]
                if not xs: return z if z is not None else (_ for _ in ()).throw(JuliaError('ArgumentError: empty'))
                return xs
            return f
        def total(J, a, kw):
            xs = red(0)(J, a, kw)
            if not isinstance(xs, list): return xs
            if all(isflt(x) for x in xs): return np.float64(np.sum(np.array(xs)))
            t = xs[0]
            for x in xs[1:]: t = arith('+', t, x)
            return t
        b('sum')(total)
        def product(J, a, kw):
            xs = red(1)(J, a, kw)
            if not isinstance(xs, list): return xs
            t = xs[0]
            for x in xs[1:]: t = arith('*', t, x)
            return t
        b('prod')(product); b('maximum')(lambda J, a, kw: max(red(None)(J, a, kw), key=float)); b('minimum')(lambda J, a, kw: min(red(None)(J, a, kw), key=float))
        b('length')(lambda J, a, kw: int(a[0].size) if isarr(a[0]) else len(a[0])); b('size')(lambda J, a, kw: tuple(a[0].shape) if len(a) == 1 else a[0].shape[a[1] - 1]); b('zeros')(lambda J, a, kw: np.zeros(tuple(x for x in a if isint(x)))); b('ones')(lambda J, a, kw: np.ones(tuple(x for x in a if isint(x)))); b('similar')(lambda J, a, kw: np.zeros(a[0].shape))
        b('eachindex')(lambda J, a, kw: np.arange(1, a[0].size + 1)); b('first')(lambda J, a, kw: item(seq(a[0]).ravel()[0])); b('last')(lambda J, a, kw: item(seq(a[0]).ravel()[-1])); b('vec')(lambda J, a, kw: a[0].ravel(order='F')); b('reverse')(lambda J, a, kw: a[0][::-1].copy())
        b('isa')(lambda J, a, kw: bool(a[1].has(a[0]))); b('convert')(lambda J, a, kw: J.convert(a[0], a[1])); b('abs')(lambda J, a, kw: abs(a[0]) if not isinstance(a[0], U) else a[0]); b('min')(lambda J, a, kw: min(a, key=float)); b('max')(lambda J, a, kw: max(a, key=float)); b('float')(lambda J, a, kw: cfloat(a[0])); b('one')(lambda J, a, kw: np.float64(1)); b('zero')(lambda J, a, kw: np.float64(0)); b('inv')(lambda J, a, kw: arith('/', 1, a[0]))
        b('muladd')(lambda J, a, kw: arith('+', arith('*', a[0], a[1]), a[2])); b('error')(lambda J, a, kw: (_ for _ in ()).throw(JuliaError(str(a[0])))); b('throw')(lambda J, a, kw: (_ for _ in ()).throw(JuliaError(str(a[0])))); b('isnan')(lambda J, a, kw: bool(np.isnan(float(a[0])))); b('isfinite')(lambda J, a, kw: bool(np.isfinite(float(a[0]))))
        b('Ref')(lambda J, a, kw: (_ for _ in ()).throw(Unsupported('Ref'))); b('println')(lambda J, a, kw: None); b('tuple')(lambda J, a, kw: tuple(a)); b('foldl')(lambda J, a, kw: (_ for _ in ()).throw(Unsupported('foldl')))
        b('mapreduce')(lambda J, a, kw: self.fold(a)); b('enumerate')(lambda J, a, kw: [(i + 1, item(x)) for i, x in enumerate(seq(a[0]).ravel())]); b('zip')(lambda J, a, kw: list(zip(*[[item(y) for y in seq(x).ravel()] for x in a])))
        for o in '+-*/^÷%': self.base[o] = Native(o, (lambda o: lambda J, a, kw: J.op(o, *a) if len(a) == 2 else J.foldop(o, a))(o))
        self.base.update(nothing=None, pi=np.float64(np.pi), π=np.float64(np.pi), Inf=np.float64(np.inf), NaN=np.float64(np.nan), **{'missing': None, 'Base': None, 'Core': None})
    def foldop(self, o, a):
        if len(a) == 1 and o == '-': return self.neg(a[0])
        t = a[0]
        for x in a[1:]: t = self.op(o, t, x)
        return t
    def fold(self, a):
        t = None
        for x in seq(a[2]).ravel(): y = self.call(a[0], [item(x)]); t = y if t is None else self.call(a[1], [t, y])
        return t
    # --- program structure ---
    def load(self, path): self.main = Module('Main', None); self.include(self.main, path); return self.main
    def include(self, m, path):
        path = os.path.normpath(path); self.files.append(path)
        with open(path, encoding='utf-8') as f: s = f.read().replace('\r\n', '\n')
        for st in Parser(s, path).block({'eof'}): self.top(m, st, path)
    def top(self, m, st, path):
        self.line = (path, st[1]); e = st[2]; k = e[0]
        if k == 'module':
            n = Module(e[1], m if m is not self.main else None); m.d[e[1]] = n
            for x in e[2]: self.top(n, x, path)
        elif k in ('using', 'import'):
            for dots, p, names in e[1]: self.imports(m, k, dots, p, names, path)
        elif k == 'export': m.exports.update(e[1])
        elif k == 'call' and e[1] == ('id', 'include'): self.include(m, os.path.join(os.path.dirname(path), self.ev(e[2][0], m)))
        elif k == 'struct':
            if e[1] in m.d: raise JuliaError('%s:%d: invalid redefinition of %s' % (path, st[1], e[1]))
            if len({f for f, _ in e[2]}) < len(e[2]): raise JuliaError('%s:%d: duplicate field name in %s' % (path, st[1], e[1]))
            t = StructType(e[1], [(f, self.ev(x, m)) for f, x in e[2]], m); m.d[e[1]] = t; n = len(t.fields)
            exact = tuple(x.name for _, x in t.fields)
            t.g.m.append(Method(None, None, (t, False), None, ('Any',)*n, (path, st[1])))
            if exact != ('Any',)*n: t.g.m.append(Method(None, None, (t, True), None, exact, (path, st[1])))
        elif k == 'line': self.top(m, e, path)
        elif k == 'str': pass
        else:
            try: self.ev(('line', st[1], e), m)
            except (JuliaError, Unsupported) as ex: raise type(ex)('%s:%d: %s' % (path, st[1], ex)) if str(path) not in str(ex) else ex
    def imports(self, m, kind, dots, path, names, file):
        if dots == 0:
            if path[0] in ('Main', 'Base', 'Core'): raise Unsupported('import from ' + path[0])
            for n in ([] if names is None else names): m.d.setdefault(n[1], External('.'.join(path + [n[0]])))
            m.d.setdefault(path[0], External(path[0])); return
        t = m
        for _ in range(dots - 1):
            t = t.parent
            if t is None: raise JuliaError('%s: relative import leaves the package in %r' % (file, m))
        for p in path:
            t2 = t.d.get(p)
            if isinstance(t2, Import): t2 = self.global_(t, p)
            if not isinstance(t2, Module): raise JuliaError('UndefVarError: `%s` not defined in %r (%s)' % (p, t, file))
            t = t2
        if names is None:
            m.d.setdefault(path[-1], t)
            if kind == 'using': m.usings.append(t)
            return
        for n, a in names: m.d[a] = Import(t, n)
    def global_(self, m, n):
        if n in m.d:
            v = m.d[n]
            return self.global_(v.m, v.n) if isinstance(v, Import) else v
        for u in m.usings:
            if n in u.exports: return self.global_(u, n)
        if n in self.base: return self.base[n]
        raise JuliaError('UndefVarError: `%s` not defined in %r' % (n, m))
    # --- evaluation; scopes are Scope objects ending in a Module ---
    def look(self, n, s):
        while isinstance(s, Scope):
            if n in s.d: return s.d[n]
            s = s.up
        return self.global_(s, n)
    def type_(self, e, s):
        t = self.ev(e, s)
        if not isinstance(t, Type): raise JuliaError('not a type')
        return t
    def assign(self, l, v, s):
        if l[0] == 'typed': v = self.convert(self.type_(l[2], s), v); l = l[1]
        if l[0] == 'tuple':
            vs = list(v) if isinstance(v, tuple) else [item(x) for x in v]
            if len(vs) < len(l[1]): raise JuliaError('BoundsError')
            for a, b in zip(l[1], vs): self.assign(a, b, s)
            return
        if l[0] == 'index':
            a = self.ev(l[1], s); i = [self.ev(x, s) for x in l[2]]
            if len(i) != 1 or not isint(i[0]) or a.ndim != 1: raise Unsupported('assignment to an index')
            if not 1 <= i[0] <= a.size: raise JuliaError('BoundsError')
            a[i[0] - 1] = v; return
        if l[0] != 'id': raise Unsupported('assignment to ' + l[0])
        if isinstance(s, Module):
            if isinstance(s.d.get(l[1]), Import): raise JuliaError('cannot assign a value to imported variable ' + l[1])
            s.d[l[1]] = v; return
        t = s
        while isinstance(t, Scope):
            if l[1] in t.d: t.d[l[1]] = v; return
            t = t.up
        s.d[l[1]] = v
    def convert(self, t, v):
        if t.has(v): return v
        if t.conv: return t.conv(v)
        raise JuliaError('cannot convert %s to %s' % (show(v), t))
    def op(self, o, a, b):
        if isarr(a) or isarr(b):
            both = isarr(a) and isarr(b)
            if o in '+-' and both and a.shape == b.shape or o == '*' and not both or o == '/' and not isarr(b): return broadcast(lambda f, x: arith(o, *x), None, [a, b])
            raise JuliaError('MethodError: %s of arrays' % o)
        if isinstance(a, str) and isinstance(b, str) and o == '*': return a + b
        return arith(o, a, b)
    def neg(self, a):
        if isarr(a): return -a
        return U(-a.v, a.b) if isinstance(a, U) else -a
    def truth(self, v):
        if not isinstance(v, bool): raise JuliaError('TypeError: non-boolean used in boolean context')
        return v
    def ev(self, e, s):
        k = e[0]
        if k == 'id': return self.look(e[1], s)
        if k == 'line':
            if e[2][0] in ('str',): return e[2][1]
            return self.ev(e[2], s)
        if k == 'paren': return self.ev(e[1], s)
        if k == 'call':
            if e[1] == ('id', 'ccall'): return self.foreign(e[2], s)
            f = self.ev(e[1], s); a, kw = self.actual(e[2], s); return self.call(f, a, kw)
        if k == 'lit': return e[1]
        if k == 'bin': return self.op(e[1], self.ev(e[2], s), self.ev(e[3], s))
        if k == 'dotbin': return broadcast(lambda f, x: arith(e[1], *x), None, [self.ev(e[2], s), self.ev(e[3], s)])
        if k == 'lambda': return Method(self.formal(e[1], s), self.type_(e[2], s) if e[2] else None, e[3], s, None, None)
        if k == 'dot':
            o = self.ev(e[1], s)
            if isinstance(o, Module): return self.global_(o, e[2])
            if isinstance(o, External): return External(o.n + '.' + e[2])
            if isinstance(o, Struct):
                if e[2] not in o.d: raise JuliaError('type %s has no field %s' % (o.t.name, e[2]))
                return o.d[e[2]]
            if o is None and e[1] in (('id', 'Base'), ('id', 'Core')) and e[2] in self.base: return self.base[e[2]]
            raise Unsupported('field ' + e[2])
        if k == 'block':
            v = None
            for x in e[1]: v = self.ev(x, s)
            return v
        if k == 'return': raise Ret(self.ev(e[1], s))
        if k == 'assign':
            v = self.ev(e[2], s)
            if e[1][0] == 'id' and isinstance(v, Method) and False: pass
            self.assign(e[1], v, s); return v
        if k == 'const':
            if e[1][0] != 'assign': raise Unsupported('const')
            l = e[1][1]
            if isinstance(s, Module) and l[0] == 'id' and l[1] in s.d and not isinstance(s.d[l[1]], Import): raise JuliaError('redefinition of constant ' + l[1])
            return self.ev(e[1], s)
        if k in ('local', 'global'):
            if k == 'global': raise Unsupported('global')
            l = e[1][1] if e[1][0] == 'assign' else e[1]
            l = l[1] if l[0] == 'typed' else l
            v = self.ev(e[1][2], s) if e[1][0] == 'assign' else None
            s.d[l[1]] = v
            if e[1][0] == 'assign' and e[1][1][0] == 'typed': s.d[l[1]] = self.convert(self.type_(e[1][1][2], s), v)
            return v
        if k == 'def': return self.define(e, s)
        if k == 'tuple': return tuple(self.actual(e[1], s)[0])
        if k == 'vect':
            a = self.actual(e[1], s)[0]
            if any(isflt(x) for x in a) and all(num(x) for x in a): a = [cfloat(x) for x in a]
            return array(a, (len(a),))
        if k == 'un':
            v = self.ev(e[2], s)
            if e[1] == '-': return self.neg(v)
            if e[1] == '+': return v
            if e[1] == '√': return np.sqrt(cfloat(v))
            return not self.truth(v)
        if k == 'if': return self.ev(e[2], s) if self.truth(self.ev(e[1], s)) else self.ev(e[3], s)
        if k == 'and': return self.truth(self.ev(e[1], s)) and self.ev(e[2], s)
        if k == 'or': return self.truth(self.ev(e[1], s)) or self.ev(e[2], s)
        if k == 'cmp':
            a = self.ev(e[1][0], s)
            for o, x in e[1][1:]:
                b = self.ev(x, s)
                if plain(o) != o: raise Unsupported('broadcast comparison')
                if not compare(o, a, b): return False
                a = b
            return True
        if k == 'sym': return Sym(e[1])
        if k == 'curly':
            if e[1] == ('id', 'Union'): return union([self.type_(x, s) for x in e[2]])
            t = self.type_(e[1], s); ps = [self.type_(x, s) if x[0] != 'lit' else x[1] for x in e[2] if x[0] != 'subtype']
            if t.name in ('Vector', 'Matrix', 'Array', 'AbstractArray', 'AbstractVector', 'AbstractMatrix'):
                nd = [p for p in ps if isinstance(p, int)]; el = [p for p in ps if isinstance(p, Type)]
                return Type('%s{%s}' % (t.name, ps), max(t.rank - 1, 0), lambda v: t.has(v) and (not nd or v.ndim == nd[0]) and all(el[0].has(item(x)) for x in v.ravel()[:1]) if el else t.has(v))
            raise Unsupported('parametric type')
        if k == 'typed':
            v = self.ev(e[1], s); t = self.type_(e[2], s)
            if not t.has(v): raise JuliaError('TypeError: expected %s, got %s' % (t, show(v)))
            return v
        if k == 'dotcall':
            f = self.ev(e[1], s); a, kw = self.actual(e[2], s)
            return broadcast(lambda g, x: self.call(g, x, kw), f, a)
        if k == 'range': return stepped(self.ev(e[1], s), self.ev(e[2], s) if e[2] else 1, self.ev(e[3], s))
        if k == 'index':
            o = self.ev(e[1], s)
            t = Scope(s, {'@end': len(o) if isinstance(o, tuple) else o.size}); i = [self.ev(x, t) for x in e[2]]
            if isinstance(o, tuple):
                if not 1 <= i[0] <= len(o): raise JuliaError('BoundsError')
                return o[i[0] - 1]
            if len(i) == 1 and isint(i[0]):
                if not 1 <= i[0] <= o.size: raise JuliaError('BoundsError')
                return item(o.ravel(order='F')[i[0] - 1])
            if len(i) == o.ndim and all(map(isint, i)): return item(o[tuple(j - 1 for j in i)])
            if len(i) == 1 and isarr(i[0]): return o.ravel(order='F')[i[0].astype(int) - 1]
            raise Unsupported('indexing')
        if k == 'endindex': return self.look('@end', s)
        if k == 'comp':
            out = []; xs = self.ev(e[3], s); xs = xs if isinstance(xs, (list, tuple)) else seq(xs).ravel()
            for x in xs:
                t = Scope(s, {}); t.d['@'] = 0; self.bind(e[2], item(x), t); out.append(self.ev(e[1], t))
            return array(out, (len(out),))
        if k == 'for':
            xs = self.ev(e[2], s); xs = xs if isinstance(xs, (list, tuple)) else seq(xs).ravel()
            for x in xs:
                t = Scope(s, {}); self.bind(e[1], item(x), t)
                try: self.ev(e[3], t)
                except Brk: break
                except Cnt: continue
            return None
        if k == 'while':
            n = 0
            while self.truth(self.ev(e[1], s)):
                n += 1
                if n > 10**6: raise JuliaError('a loop which does not end')
                try: self.ev(e[2], Scope(s, {}))
                except Brk: break
                except Cnt: continue
            return None
        if k == 'break': raise Brk()
        if k == 'continue': raise Cnt()
        if k == 'let':
            t = Scope(s, {})
            for x in e[1]:
                if x[0] == 'assign' and x[1][0] == 'id': t.d[x[1][1]] = self.ev(x[2], t.up if False else t)
                elif x[0] == 'id': t.d[x[1]] = self.look(x[1], s)
                else: raise Unsupported('let')
            return self.ev(e[2], Scope(t, {}))
        if k == 'str':
            if '$' in e[1]: raise Unsupported('interpolation')
            return e[1]
        if k == 'nothing': return None
        if k == 'struct' or k == 'module': raise Unsupported(k + ' inside an expression')
        raise Unsupported(k)
    def bind(self, l, v, t):
        if l[0] == 'id': t.d[l[1]] = v
        elif l[0] == 'tuple':
            for a, b in zip(l[1], v): self.bind(a, item(b), t)
        else: raise Unsupported('iteration')
    def actual(self, es, s):
        a, kw = [], {}
        for x in es:
            if x[0] == 'kwarg': kw[x[1][1]] = self.ev(x[2], s)
            elif x[0] == 'splat':
                v = self.ev(x[1], s)
                a += list(v) if isinstance(v, tuple) else [item(y) for y in v.ravel()] if isarr(v) else [v]
            else: a.append(self.ev(x, s))
        return a, kw
    def formal(self, ps, s): return [(n, self.type_(t, s) if t else TYPES['Any'], d, va, kw) for n, t, d, va, kw in ps]
    def define(self, e, s):
        name = e[1]; name = name[1] if name[0] == 'curly' else name
        if name[0] == 'dot': raise Unsupported('method of another module')
        n = name[1]; ps = self.formal(e[2], s); ret = self.type_(e[3], s) if e[3] else None
        if isinstance(s, Scope):
            m = Method(ps, ret, e[4], s, tuple(p[1].name for p in ps), self.line); s.d[n] = m; return m
        g = s.d.get(n)
        if isinstance(g, Import): raise JuliaError('function %s must be explicitly imported to be extended' % n)
        if g is None: g = s.d[n] = Generic(n)
        if isinstance(g, StructType): g = g.g
        if not isinstance(g, Generic): raise JuliaError('cannot define function %s; it already has a value' % n)
        if len({p[0] for p in ps}) < len(ps): raise JuliaError('syntax: function argument name not unique')
        m = Method(ps, ret, e[4], s, tuple(p[1].name for p in ps), self.line); self.defs.append((s, n, m))
        g.m = [x for x in g.m if x.sig != m.sig] + [m]; return g
    def call(self, f, a, kw={}):
        if isinstance(f, Native): return f.f(self, a, kw)
        if isinstance(f, Method): return self.apply(f, a, kw)
        if isinstance(f, StructType): f = f.g
        if isinstance(f, Generic):
            best = None
            for i, m in enumerate(f.m):
                if m.pars is None: ts = [t for _, t in m.body[0].fields] if m.body[1] else [TYPES['Any']]*len(m.body[0].fields); lo = hi = len(ts); va = None
                else:
                    pos = [p for p in m.pars if not p[4]]; ts = [p[1] for p in pos if not p[3]]; va = next((p[1] for p in pos if p[3]), None); lo = sum(p[2] is None for p in pos if not p[3]); hi = 999 if va else len(ts)
                if not lo <= len(a) <= hi: continue
                tt = (ts + [va]*max(0, len(a) - len(ts)))[:len(a)]
                if not all(t.has(x) for t, x in zip(tt, a)): continue
                key = (sum(t.rank for t in tt) + (5 if va else 0), -i)
                if best is None or key < best[0]: best = (key, m)
            if best is None: raise JuliaError('MethodError: no method matching %s(%s)' % (f.name, ', '.join(kind(x) for x in a)))
            m = best[1]
            if m.pars is None:
                t, _ = m.body
                if kw: raise JuliaError('MethodError: keywords of a constructor')
                return Struct(t, [self.convert(ty, x) for (_, ty), x in zip(t.fields, a)])
            return self.apply(m, a, kw)
        if isinstance(f, Type):
            if f.conv: return f.conv(a[0])
            raise Unsupported('constructor of ' + f.name)
        raise JuliaError('MethodError: objects of type %s are not callable' % type(f).__name__)
    def apply(self, m, a, kw):
        s = Scope(m.scope, {}); pos = [p for p in m.pars if not p[4]]; i = 0
        for n, t, d, va, _ in pos:
            if va: s.d[n] = tuple(a[i:]); i = len(a); continue
            if i < len(a): v = a[i]; i += 1
            elif d is not None: v = self.ev(d, s)
            else: raise JuliaError('MethodError: %d arguments for %d' % (len(a), len(pos)))
            if not t.has(v): raise JuliaError('MethodError: argument %s is %s, not %s' % (n, kind(v), t))
            if n: s.d[n] = v
        if i < len(a): raise JuliaError('MethodError: %d arguments for %d' % (len(a), len(pos)))
        kws = {p[0] for p in m.pars if p[4]}
        for n in kw:
            if n not in kws: raise JuliaError('MethodError: keyword %s' % n)
        for n, t, d, va, k in m.pars:
            if k: s.d[n] = kw[n] if n in kw else self.ev(d, s) if d is not None else (_ for _ in ()).throw(JuliaError('UndefKeywordError: ' + n))
        self.depth += 1
        if self.depth > self.limit: self.depth = 0; raise JuliaError('StackOverflowError')
        s = Scope(s, {})
        try: v = self.ev(m.body, s)
        except Ret as r: v = r.v
        finally: self.depth = max(self.depth - 1, 0)
        if m.ret is not None: v = self.convert(m.ret, v)
        return v
    def foreign(self, es, s):
        if len(es) < 3: raise JuliaError('syntax: too few arguments to ccall')
        h = es[0]
        if h[0] == 'tuple' and len(h[1]) == 2: name, lib = self.ev(h[1][0], s), self.ev(h[1][1], s)
        else: raise Unsupported('ccall without a library')
        ret = self.type_(es[1], s)
        if es[2][0] != 'tuple': raise JuliaError('syntax: ccall argument types must be a tuple')
        ts = [self.type_(x, s) for x in es[2][1]]; a = [self.ev(x, s) for x in es[3:]]
        if len(ts) != len(a): raise JuliaError('syntax: ccall has %d argument types and %d arguments' % (len(ts), len(a)))
        if not isinstance(lib, External): raise JuliaError('ccall into %s' % show(lib))
        self.ncall += 1
        return self.ccall(str(name), lib.n, ret, ts, [t.conv(x) if t.conv else (_ for _ in ()).throw(Unsupported('foreign type %s' % t)) for t, x in zip(ts, a)])
class Native:
    def __init__(self, n, f): self.n, self.f = n, f
    def __call__(self, *a): raise RuntimeError
def stepped(a, d, b):
    if all(isinstance(x, U) for x in (a, b)): return np.arange(a.v, b.v + 1, dtype=np.uint8)
    a, d, b = [x.v if isinstance(x, U) else x for x in (a, d, b)]
    if all(map(isint, (a, d, b))): return np.arange(a, b + (1 if d > 0 else -1), d)
    n = int(np.floor((b - a)/d*(1 + 1e-15) + 1e-12)) + 1; return np.float64(a) + np.arange(max(n, 0))*np.float64(d)
def seq(v):
    if isarr(v): return v
    if isinstance(v, (tuple, list)): return array([item(x) for x in v], (len(v),))
    if num(v): return array([v], (1,))
    raise Unsupported('iteration over %s' % kind(v))
def kind(v):
    if isflt(v): return 'Float64'
    if isinstance(v, U): return 'UInt%d' % v.b
    if isarr(v): return 'Array'
    return {'bool': 'Bool', 'int': 'Int64', 'str': 'String'}.get(type(v).__name__, v.t.name if isinstance(v, Struct) else type(v).__name__)
def show(v): return '%s(%s)' % (kind(v), v) if num(v) else kind(v)
