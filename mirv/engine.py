"""mirv: a deductive verifier over the MIR that rustc builds for /repo's crates.

Symbolic execution of every path of a function under contract.  Functions of the crate without a
contract of their own are inlined from their MIR, loops are cut at their heads by inferred inductive
invariants (havoc + Houdini), calls to functions under contract use the contract.  Every obligation is
discharged by Z3; nothing is bounded.
"""
import json, re, time, itertools, sys
import z3

sys.setrecursionlimit(20000)
U = z3.DeclareSort('U')
STR = z3.StringSort()
INT = z3.IntSort()
BOOL = z3.BoolSort()


class Unsupported(Exception):
    """The verifier cannot process this code: no verdict (neither proved nor refuted)."""


# ---------------------------------------------------------------- values
class Val:
    __slots__ = ()


class Agg(Val):
    __slots__ = ('ty', 'variant', 'fields')

    def __init__(s, ty, variant, fields):
        s.ty, s.variant, s.fields = ty, variant, tuple(fields)

    def __repr__(s):
        return f'Agg({s.ty}#{s.variant}{list(s.fields)})'


class Sym(Val):
    __slots__ = ('ty', 'term')

    def __init__(s, ty, term):
        s.ty, s.term = ty, term

    def __repr__(s):
        return f'Sym({s.term})'


class Ref(Val):
    __slots__ = ('cell', 'proj')

    def __init__(s, cell, proj=()):
        s.cell, s.proj = cell, tuple(proj)

    def __repr__(s):
        return f'Ref({s.cell}{list(s.proj)})'


class PRef(Val):
    """reference to an immutable value"""
    __slots__ = ('v',)

    def __init__(s, v):
        s.v = v

    def __repr__(s):
        return f'PRef({s.v})'


class FnV(Val):
    __slots__ = ('c',)

    def __init__(s, c):
        s.c = c

    def __repr__(s):
        return f"FnV({s.c.get('path')})"


class G(Val):
    """ghost object of an external type, interpreted by the contracts; immutable"""
    __slots__ = ('kind', 'a')

    def __init__(s, kind, **a):
        s.kind, s.a = kind, a

    def __getattr__(s, n):
        try:
            return s.a[n]
        except KeyError:
            raise AttributeError(n)

    def upd(s, **kw):
        d = dict(s.a)
        d.update(kw)
        return G(s.kind, **d)

    def __repr__(s):
        return f'G({s.kind},{s.a})'


def isz(v):
    return isinstance(v, z3.ExprRef)


def same(a, b):
    """syntactic equality of values"""
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, Agg):
        return a.variant == b.variant and len(a.fields) == len(b.fields) and all(same(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, Sym):
        return a.term.eq(b.term)
    if isinstance(a, Ref):
        return a.cell == b.cell and a.proj == b.proj
    if isinstance(a, PRef):
        return same(a.v, b.v)
    if isinstance(a, FnV):
        return a.c.get('path') == b.c.get('path') and a.c.get('t') == b.c.get('t')
    if isinstance(a, G):
        return a.kind == b.kind and a.a.keys() == b.a.keys() and all(same(a.a[k], b.a[k]) for k in a.a)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


# ---------------------------------------------------------------- program
class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d['crate']
        self.types = d['types']
        self.fns = {f['key']: f for f in d['fns']}
        self.items = d['items']
        self._nm = {}

    def name(self, i):
        n = self._nm.get(i)
        if n is None:
            n = re.sub(r"for<[^>]*> ?", "", self.types[i]['s'])
            n = re.sub(r"'[a-zA-Z_]\w*,?\s?", "", n).replace('<>', '')
            self._nm[i] = n
        return n

    def ty(self, i):
        return self.types[i]

    def strip(self, i):
        """strip references and boxes"""
        while True:
            t = self.types[i]
            if t['k'] in ('ref', 'ptr'):
                i = t['to']
            elif t['k'] == 'adt' and t['path'].endswith('boxed::Box'):
                i = t['args'][0]
            else:
                return i

    def find_type(self, name):
        """type indices whose normalised name is `name` (or ends in ::name)"""
        return [i for i in range(len(self.types)) if self.name(i) == name or self.name(i).endswith('::' + name)]

    def method(self, selfname, name, trait=None, targs=None):
        out = []
        for it in self.items:
            if it['name'] != name or 'self' not in it:
                continue
            sn = self.name(it['self'])
            if not (sn == selfname or sn.endswith('::' + selfname)):
                continue
            tr = it.get('trait', '')
            if trait is None and tr:
                continue
            if trait is not None and not (tr == trait or tr.endswith('::' + trait)):
                continue
            if targs is not None and [self.name(x) for x in it['targs']] != targs:
                continue
            out.append(it)
        return out

    def impls(self, trait, name):
        return [it for it in self.items if it['name'] == name and it.get('trait', '').endswith(trait)]


def succs(b):
    t = b['term']
    k = t['t']
    if k in ('goto', 'drop', 'assert'):
        return [t['to']]
    if k == 'switch':
        return [x[1] for x in t['vals']] + [t['else']]
    if k == 'call':
        return [t['to']] if t['to'] >= 0 else []
    return []


def same_entry(a, b):
    return len(a) == len(b) and a[0] == b[0] and all(same(p, q) for p, q in zip(a[1:], b[1:]))


def loops_of(fn):
    if 'loops' in fn:
        return fn['loops']
    blocks = fn['blocks']
    succ = [succs(b) for b in blocks]
    pred = [[] for _ in blocks]
    color = [0] * len(blocks)
    back = []
    stack = [(0, iter(succ[0]))]
    color[0] = 1
    while stack:
        n, it = stack[-1]
        for m in it:
            if color[m] == 0:
                color[m] = 1
                stack.append((m, iter(succ[m])))
                break
            elif color[m] == 1:
                back.append((n, m))
        else:
            color[n] = 2
            stack.pop()
    for i, s in enumerate(succ):
        for m in s:
            pred[m].append(i)
    heads = {}
    for n, h in back:
        body = heads.setdefault(h, {h})
        work = [n]
        while work:
            x = work.pop()
            if x in body:
                continue
            body.add(x)
            work.extend(pred[x])
    fn['loops'] = heads
    return heads


def rpo(fn):
    """position of each block in reverse post-order"""
    if 'rpo' not in fn:
        seen, post = {0}, []
        stack = [(0, iter(succs(fn['blocks'][0])))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succs(fn['blocks'][s]))))
                    break
            else:
                post.append(b)
                stack.pop()
        fn['rpo'] = {b: i for i, b in enumerate(reversed(post))}
    return fn['rpo']


# ---------------------------------------------------------------- state
class Frame:
    __slots__ = ('fid', 'fn', 'bb', 'si', 'dest', 'to', 'cont')

    def __init__(s, fid, fn, dest, to, cont):
        s.fid, s.fn, s.bb, s.si, s.dest, s.to, s.cont = fid, fn, 0, 0, dest, to, cont

    def copy(s):
        f = Frame(s.fid, s.fn, s.dest, s.to, s.cont)
        f.bb, f.si = s.bb, s.si
        return f


class State:
    __slots__ = ('frames', 'store', 'pc', 'active', 'log', 'dead')

    def __init__(s):
        s.frames, s.store, s.pc, s.active, s.log = [], {}, [], {}, []
        s.dead = False

    def fork(s):
        t = State()
        t.frames = [f.copy() for f in s.frames]
        t.store = dict(s.store)
        t.pc = list(s.pc)
        t.active = dict(s.active)
        t.log = list(s.log)
        return t

    def g(s, n):
        return s.store[('g', n)]

    def setg(s, n, v):
        s.store[('g', n)] = v


def tick(st):
    """something was taken from an input"""
    st.setg('ticks', st.store.get(('g', 'ticks'), z3.IntVal(0)) + 1)


class Outcome:
    def __init__(s, kind, st, val=None, msg=''):
        s.kind, s.st, s.val, s.msg = kind, st, val, msg


class Call:
    """a call site as the contracts see it"""
    __slots__ = ('c', 'args', 'argtys', 'destty', 'path', 'rpath', 'rfull', 'targs', 'rargs', 'line', 'name')


class Hole:
    def __init__(s, key, ty, sort):
        s.key, s.ty, s.sort = key, ty, sort


class Engine:
    def __init__(self, prog, contracts, deadline=None):
        self.p = prog
        self.contracts = contracts  # object with .lookup(call) -> handler or None
        self.cnt = itertools.count()
        self.facts = []
        self.factids = set()
        self.obls = []
        self.infer = 0
        self.used = {}  # contracts used: name -> count
        self.inlined = set()
        self.inv_templates = None
        self.nqueries = 0
        self.solver_s = 0.0
        self.steps = 0
        self.deadline = deadline
        self.timeout = 20000
        self.hard = 0
        self.label = ''
        self.spec_fns = []
        self.loop_info = []
        self.incomplete = []
        self.maxsteps = 400000
        self.unroll = 0
        self.sfacts = {}
        self.incremental = False
        self.inc = None
        self.merge = False
        self.lazy = False     # paths are not tested for feasibility before they join
        self.seqform = False  # structures are also read from arrays
        self.cheap = False    # no loop invariants beyond the frame

    # ---- naming
    def fresh(self, base, sort):
        return z3.Const(f'{base}!{next(self.cnt)}', sort)

    def fresh_val(self, base, ty):
        return self.wrap(ty, self.fresh(base, self.sort_of(ty)))

    def fact(self, f):
        k = f.get_id()
        if k not in self.factids:
            self.factids.add(k)
            self.facts.append(f)

    # ---- types
    def is_str(self, i):
        t = self.p.types[i]
        k = t['k']
        if k == 'str':
            return True
        if k == 'adt' and t['path'].endswith('string::String'):
            return True
        if k in ('slice', 'array'):
            return self.is_u8(t['elem'])
        if k == 'adt' and t['path'].endswith('vec::Vec'):
            return self.is_u8(t['args'][0])
        if k == 'adt' and t['path'].endswith('borrow::Cow') and t['args']:
            # the text, whichever variant holds it; looking at the variant itself is not supported
            return self.is_str(t['args'][0])
        return False

    def is_u8(self, i):
        t = self.p.types[i]
        return t['k'] == 'int' and t['bits'] == 8 and not t['signed']

    def sort_of(self, i):
        i = self.p.strip(i)
        t = self.p.types[i]
        if t['k'] == 'bool':
            return BOOL
        if t['k'] in ('int', 'char'):
            return INT
        if self.is_str(i):
            return STR
        return U

    def int_range(self, i):
        t = self.p.types[i]
        if t['k'] == 'char':
            return 0, 0x10FFFF
        if t['signed']:
            return -(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1
        return 0, (1 << t['bits']) - 1

    def wrap(self, i, term):
        t = self.p.types[i]
        k = t['k']
        if k in ('ref', 'ptr'):
            return PRef(self.wrap(t['to'], term))
        if k == 'adt' and t['path'].endswith('boxed::Box'):
            return G('Box', v=self.wrap(t['args'][0], term))
        if k in ('int', 'char'):
            if not z3.is_int_value(term):
                lo, hi = self.int_range(i)
                self.fact(z3.And(term >= lo, term <= hi))
            return term
        if k == 'bool' or self.is_str(i):
            return term
        if k == 'tuple':
            return Agg(i, 0, [self.wrap(e, self.fn(f'{self.p.name(i)}.{n}', U, self.sort_of(e))(term)) for n, e in enumerate(t['elems'])])
        if k == 'fndef':
            return FnV({'k': 'fn', 't': i, **t})
        return Sym(i, term)

    def fn(self, name, *sorts):
        return z3.Function(name, *sorts)

    def variants(self, ty):
        return self.p.types[ty]['variants']

    def is_enum(self, ty):
        t = self.p.types[ty]
        return t['k'] == 'adt' and t['enum']

    def vidx(self, v):
        """variant index of a value as a z3 Int"""
        if isinstance(v, Agg):
            return z3.IntVal(v.variant)
        if isinstance(v, Sym):
            n = len(self.variants(v.ty))
            x = self.fn(f'variant<{self.p.name(v.ty)}>', U, INT)(v.term)
            self.fact(z3.And(x >= 0, x < n))
            return x
        raise Unsupported(f'variant of {v}')

    def field(self, v, variant, i):
        if isinstance(v, Agg):
            if v.variant != variant:
                raise Unsupported('downcast to another variant')
            return v.fields[i]
        if isinstance(v, Sym):
            t = self.p.types[v.ty]
            if t['k'] != 'adt':
                raise Unsupported(f'field of {t["s"]}')
            f = t['variants'][variant]['fields'][i]
            return self.wrap(f[1], self.fn(f'{self.p.name(v.ty)}.{t["variants"][variant]["name"]}.{f[0]}', U, self.sort_of(f[1]))(v.term))
        if isinstance(v, G):
            if v.kind == 'UBox' and i == 0:
                return v
            raise Unsupported(f'field of ghost {v.kind}')
        raise Unsupported(f'field of {v}')

    def expand(self, v, variant):
        if isinstance(v, Agg):
            return v
        n = len(self.p.types[v.ty]['variants'][variant]['fields'])
        return Agg(v.ty, variant, [self.field(v, variant, i) for i in range(n)])

    # ---- equality and reification
    def veq(self, st, a, b):
        if isz(a) and isz(b):
            if a.sort() != b.sort():
                raise Unsupported(f'comparing {a.sort()} with {b.sort()}')
            return a == b
        if isinstance(a, (Ref, PRef)) or isinstance(b, (Ref, PRef)):
            return self.veq(st, self.deref(st, a), self.deref(st, b))
        if isinstance(a, G) and a.kind == 'Box':
            return self.veq(st, a.v, b)
        if isinstance(b, G) and b.kind == 'Box':
            return self.veq(st, a, b.v)
        if isinstance(a, G) or isinstance(b, G):
            if any(isinstance(x, G) and x.kind == 'Case' for x in (a, b)):
                raise Unsupported('case conversion')
            if isinstance(a, G) and isinstance(b, G) and a.kind == b.kind and a.a.keys() == b.a.keys():
                return z3.And([self.veq(st, a.a[k], b.a[k]) if isinstance(a.a[k], Val) or isz(a.a[k]) else z3.BoolVal(same(a.a[k], b.a[k])) for k in a.a] or [z3.BoolVal(True)])
            if isz(self.reify(st, a)) and isz(self.reify(st, b)):
                ra, rb = self.reify(st, a), self.reify(st, b)
                if ra.sort() == rb.sort():
                    return ra == rb
            return z3.BoolVal(False)
        if isinstance(a, FnV) and isinstance(b, FnV):
            return z3.BoolVal(same(a, b))
        if isinstance(a, Sym) and isinstance(b, Sym):
            return a.term == b.term
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.variant != b.variant or len(a.fields) != len(b.fields):
                return z3.BoolVal(False)
            return z3.And([self.veq(st, x, y) for x, y in zip(a.fields, b.fields)] or [z3.BoolVal(True)])
        if isinstance(a, Sym) and isinstance(b, Agg):
            return self.veq(st, b, a)
        if isinstance(a, Agg) and isinstance(b, Sym):
            if self.p.types[b.ty]['k'] != 'adt':
                return self.reify(st, a) == b.term
            c = [self.veq(st, x, self.field(b, a.variant, i)) for i, x in enumerate(a.fields)]
            if self.is_enum(b.ty):
                c.append(self.vidx(b) == a.variant)
            return z3.And(c or [z3.BoolVal(True)])
        raise Unsupported(f'equality of {a} and {b}')

    def deref(self, st, v):
        """strip references"""
        while isinstance(v, (Ref, PRef)):
            v = self.load(st, v)
        return v

    def reify(self, st, v):
        v = self.deref(st, v)
        if isz(v):
            return v
        if isinstance(v, Sym):
            return v.term
        if isinstance(v, Agg):
            fs = [self.reify(st, f) for f in v.fields]
            t = self.p.types[v.ty] if v.ty is not None else None
            # eta: all the fields are the projections of one term
            if t and t['k'] == 'adt' and fs and all(f.num_args() == 1 and z3.is_app(f) for f in fs):
                base = fs[0].arg(0)
                if base.sort() == U:
                    full = self.expand(Sym(v.ty, base), v.variant)
                    if all(self.reify(st, x).eq(f) for x, f in zip(full.fields, fs)):
                        return base
            nm = self.p.name(v.ty) if v.ty is not None else 'agg'
            if not fs:
                c = z3.Const(f'mk<{nm}#{v.variant}>', U)
            else:
                c = self.fn(f'mk<{nm}#{v.variant}>', *([f.sort() for f in fs] + [U]))(*fs)
            if t and t['k'] == 'adt':
                s = Sym(v.ty, c)
                if self.is_enum(v.ty):
                    self.fact(self.vidx(s) == v.variant)
                for i, f in enumerate(fs):
                    pf = self.reify(st, self.field(s, v.variant, i))
                    if pf.sort() == f.sort():
                        self.fact(pf == f)
            return c
        if isinstance(v, FnV):
            return z3.Const('fn<' + str(v.c.get('path')) + '>', U)
        if isinstance(v, G):
            if v.kind == 'Box':
                return self.reify(st, v.v)
            if 'term' in v.a:
                return v.a['term']
            return z3.Const('ghost<' + repr(v) + '>', U)
        raise Unsupported(f'reify {v}')

    # ---- solver
    def check(self, assertions, timeout=None, fresh=False):
        """satisfiability of the facts with the assertions. One incremental solver per unit; each asserted formula is
        guarded by a literal of its own, and a check assumes the literals of its assertions"""
        self.nqueries += 1
        t0 = time.time()
        try:
            return self._check(assertions, timeout or self.timeout, fresh)
        finally:
            self.solver_s += time.time() - t0

    def _check(self, assertions, timeout, fresh=False):
        if self.incremental and not fresh:
            if self.inc is None or self.inc_n > 4000:
                self.inc, self.inc_facts, self.inc_lits, self.inc_n = z3.Solver(), 0, {}, 0
            s = self.inc
            while self.inc_facts < len(self.facts):
                s.add(self.facts[self.inc_facts])
                self.inc_facts += 1
            lits = []
            for a in assertions:
                k = a.get_id()
                l = self.inc_lits.get(k)
                if l is None:
                    l = (z3.Bool(f'lit!{len(self.inc_lits)}'), a)
                    self.inc_lits[k] = l
                    self.inc_n += 1
                    s.add(z3.Implies(l[0], a))
                lits.append(l[0])
            s.set('timeout', min(timeout, 4000))
            try:
                r = s.check(*lits)
            except z3.Z3Exception:
                r, self.incremental = z3.unknown, False
            self.last = s
            if r != z3.unknown:
                return r
        s = z3.Solver()
        s.set('timeout', timeout)
        for f in self.facts:
            s.add(f)
        for a in assertions:
            s.add(a)
        r = s.check()
        self.last = s
        return r

    def feasible(self, st, cond=None):
        if cond is not None:
            c = z3.simplify(cond)
            if z3.is_false(c):
                return False
            if z3.is_true(c):
                return True
        # undecided means feasible: an infeasible path that is kept costs time, not soundness
        if self.lazy and self.merge:
            return True
        r = self.check(st.pc + ([cond] if cond is not None else []), 3000 if self.hard < 5 else 800)
        if r == z3.unknown:
            self.hard += 1
        return r != z3.unsat

    def assume(self, st, cond):
        """add cond; returns st or None if infeasible"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return st
        if z3.is_false(c):
            return None
        if not self.feasible(st, cond):
            return None
        st.pc.append(cond)
        return st

    def split(self, st, cond):
        """fork on cond -> (state where true or None, state where false or None)"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return st, None
        if z3.is_false(c):
            return None, st
        f = st.fork()
        a = self.assume(st, cond)
        if a is None:
            f.pc.append(z3.Not(cond))
            return None, f
        b = self.assume(f, z3.Not(cond))
        return a, b

    def oblige(self, st, name, formula):
        """an obligation: proved now, then assumed"""
        if self.infer:
            c = z3.simplify(formula)
            if not z3.is_true(c):
                st.pc.append(formula)
            return
        t0 = time.time()
        f = z3.simplify(formula)
        model = None
        if z3.is_true(f):
            status = 'proved'
        else:
            r = self.check(st.pc + [z3.Not(formula)], fresh=True)
            if r == z3.unknown:
                r = self.check(st.pc + [z3.Not(formula)], self.timeout * 3, fresh=True)
            status = 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown'
            if r == z3.sat:
                try:
                    m = self.last.model()
                    model = '; '.join(sorted(str(d) + '=' + str(m[d])[:120] for d in m.decls() if d.arity() == 0))[:2000]
                except Exception:
                    model = ''
        self.obls.append(dict(name=f'{self.label}: {name}', status=status, s=round(time.time() - t0, 4), model=model, path=list(st.log[-12:]) if status != 'proved' else None,
                              formula=str(f)[:600] if status != 'proved' else None))
        if status == 'proved':
            st.pc.append(formula)

    # ---- places
    def load(self, st, r):
        if isinstance(r, PRef):
            return r.v
        if isinstance(r, Ref):
            if r.cell not in st.store:
                raise Unsupported(f'dangling {r}')
            v = st.store[r.cell]
            for p in r.proj:
                v = self.project(st, v, p)
            return v
        raise Unsupported(f'deref of {r}')

    def project(self, st, v, p):
        if p[0] == 'f':
            if v is None:
                raise Unsupported('read of uninitialised value')
            return self.field(v, p[1], p[2])
        if p[0] == 'i':
            if isinstance(v, Agg):
                return v.fields[p[1]]
            raise Unsupported('index')
        raise Unsupported(str(p))

    def update(self, st, v, proj, new):
        if not proj:
            return new
        p = proj[0]
        if p[0] == 'f':
            _, variant, i, ty, n = (list(p) + [None, None])[:5]
            if v is None:
                raise Unsupported('write into uninitialised value')
            if isinstance(v, G) and v.kind == 'uninit' and all(p[0] == 'f' for p in proj) and isinstance(new, Agg) and self.p.types[new.ty]['k'] == 'array':
                return new   # the whole array behind MaybeUninit is written
            if isinstance(v, Sym):
                v = self.expand(v, variant)
            if not isinstance(v, Agg):
                raise Unsupported(f'write into {v}')
            fs = list(v.fields)
            fs[i] = self.update(st, fs[i], proj[1:], new)
            return Agg(v.ty, v.variant, fs)
        if p[0] == 'i' and isinstance(v, Agg):
            fs = list(v.fields)
            fs[p[1]] = self.update(st, fs[p[1]], proj[1:], new)
            return Agg(v.ty, v.variant, fs)
        raise Unsupported(str(p))

    def store_ref(self, st, r, v):
        if isinstance(r, PRef):
            raise Unsupported('write through a shared reference')
        if not isinstance(r, Ref):
            raise Unsupported(f'write through {r}')
        st.store[r.cell] = self.update(st, st.store.get(r.cell), r.proj, v)

    def new_cell(self, st, v):
        c = ('c', next(self.cnt))
        st.store[c] = v
        return Ref(c)

    def resolve(self, st, fr, pl):
        """place -> Ref to it, or PRef(value) when it lies behind a shared reference to a value"""
        cell = (fr.fid, pl['l'])
        base = Ref(cell)
        variant = 0
        ty = fr.fn['locals'][pl['l']]
        for e in pl['p']:
            k = e[0]
            if k == 'deref':
                v = self.load(st, base)
                if isinstance(v, (Ref, PRef)):
                    base = v
                elif isinstance(v, G) and v.kind == 'Box':
                    base = PRef(v.v)
                else:
                    raise Unsupported(f'deref of {v}')
                variant = 0
            elif k == 'downcast':
                variant = e[1]
            elif k == 'field':
                if isinstance(base, PRef):
                    base = PRef(self.field(base.v, variant, e[1]))
                else:
                    base = Ref(base.cell, base.proj + (('f', variant, e[1]),))
                variant = 0
            elif k == 'index' or k == 'cindex':
                if k == 'index':
                    i = st.store[(fr.fid, e[1])]
                    i = z3.simplify(i)
                    if not z3.is_int_value(i):
                        raise Unsupported('symbolic index')
                    n = i.as_long()
                else:
                    if e[3]:
                        v = self.load(st, base)
                        if not isinstance(v, Agg):
                            raise Unsupported('index from end')
                        n = len(v.fields) - e[1]
                    else:
                        n = e[1]
                v = self.load(st, base)
                if isz(v) and v.sort() == STR:
                    base = PRef(z3.StrToCode(z3.SubString(v, n, 1)))
                elif isinstance(base, PRef):
                    base = PRef(self.project(st, base.v, ('i', n)))
                else:
                    base = Ref(base.cell, base.proj + (('i', n),))
            else:
                raise Unsupported(f'place projection {k}')
        return base

    def read_place(self, st, fr, pl):
        v = self.load(st, self.resolve(st, fr, pl))
        if v is None:
            raise Unsupported(f"read of uninitialised _{pl['l']} in {fr.fn['path']}")
        return v

    def write_place(self, st, fr, pl, v):
        if not pl['p']:
            st.store[(fr.fid, pl['l'])] = v
            return
        r = self.resolve(st, fr, pl)
        if isinstance(r, Ref) and st.store.get(r.cell) is None and len(r.proj) == 1:
            # piecewise initialisation of a local
            ty = fr.fn['locals'][pl['l']] if r.cell == (fr.fid, pl['l']) else None
            if ty is None:
                raise Unsupported('piecewise write')
            t = self.p.types[ty]
            n = len(t['elems']) if t['k'] == 'tuple' else len(t['variants'][r.proj[0][1]]['fields'])
            st.store[r.cell] = Agg(ty, r.proj[0][1], [None] * n)
        self.store_ref(st, r, v)

    # ---- operands
    def const_val(self, st, j, ty):
        k = j['k']
        t = self.p.types[ty]
        if k == 'int':
            if t['k'] == 'bool':
                return z3.BoolVal(j['v'] not in ('0', 'false'))
            return z3.IntVal(int(j['v']))
        if k == 'str':
            return PRef(strval(j['v']))
        if k == 'slice':
            et = self.p.types[t['to']]['elem']
            if self.is_u8(et):
                return PRef(bytesval(bytes(int(x['v']) for x in j['v'])))
            return PRef(Agg(t['to'], 0, [self.const_val(st, x, et) for x in j['v']]))
        if k == 'agg':
            if self.is_str(ty):
                if t['k'] == 'array':
                    return bytesval(bytes(int(x['v']) for x in j['fields']))
                return z3.StringVal('')  # String::new() and the like
            if t['k'] == 'tuple':
                tys = t['elems']
            elif t['k'] == 'array':
                tys = [t['elem']] * len(j['fields'])
            else:
                tys = [f[1] for f in t['variants'][j['variant']]['fields']]
            return Agg(ty, j['variant'], [self.const_val(st, x, y) for x, y in zip(j['fields'], tys)])
        if k == 'ref':
            return PRef(self.const_val(st, j['v'], j['t']))
        if k == 'static':
            return PRef(G('static', path=j['path']))
        if k == 'zst':
            return self.zst(j['t'])
        if k == 'opaque':
            if t['k'] in ('ref', 'ptr'):
                return PRef(self.wrap(t['to'], z3.Const('const<' + j['s'] + '>', self.sort_of(ty))))
            return self.wrap(ty, z3.Const('const<' + j['s'] + '>', self.sort_of(ty)))
        raise Unsupported(f'constant {j}')

    def zst(self, ty):
        t = self.p.types[ty]
        if t['k'] == 'fndef':
            return FnV({'k': 'fn', 't': ty, **t})
        if t['k'] == 'closure':
            return Agg(ty, 0, [])
        if t['k'] == 'tuple':
            return Agg(ty, 0, [])
        if t['k'] == 'adt' and len(t['variants']) == 1:
            return Agg(ty, 0, [self.zst(f[1]) for f in t['variants'][0]['fields']])
        raise Unsupported(f'zst {t["s"]}')

    def operand(self, st, fr, o):
        if 'p' in o:
            return self.read_place(st, fr, o['p'])
        c = o.get('c')
        if c is None:
            raise Unsupported(f'operand {o}')
        k = c['k']
        if k == 'fn':
            return FnV(c)
        if k == 'promoted':
            return self.eval_promoted(st, c['fn'])
        if k == 'val':
            return self.const_val(st, c['v'], c['t'])
        if k == 'opaque':
            return self.const_val(st, c, c['t'])
        raise Unsupported(f'constant {k}')

    def eval_promoted(self, st, key):
        fn = self.p.fns.get(key)
        if fn is None:
            raise Unsupported('promoted ' + key)
        fid = next(self.cnt)
        fr = Frame(fid, fn, None, None, None)
        for _ in range(64):
            b = fn['blocks'][fr.bb]
            for s in b['st']:
                self.statement(st, fr, s)
            t = b['term']
            if t['t'] == 'return':
                return st.store[(fid, 0)]
            if t['t'] == 'goto' or t['t'] == 'drop':
                fr.bb = t['to']
            elif t['t'] == 'assert':
                fr.bb = t['to']
            elif t['t'] == 'call':
                # constant calls inside promoteds, such as an index or a tuple constructor
                f = self.operand(st, fr, t['f'])
                call = self.mkcall(st, fr, t, f)
                h = self.contracts.lookup(self, call)
                if not h:
                    raise Unsupported('call in promoted: ' + call.path)
                r = h(self, st, call)
                if len(r) != 1:
                    raise Unsupported('fork in promoted')
                self.write_place(st, fr, t['dest'], r[0][1])
                fr.bb = t['to']
            else:
                raise Unsupported('promoted terminator ' + t['t'])
        raise Unsupported('promoted loop')

    # ---- rvalues
    def rvalue(self, st, fr, v, destty=None):
        r = v['r']
        if r == 'use':
            return self.operand(st, fr, v['o'])
        if r == 'ref':
            x = self.resolve(st, fr, v['p'])
            if isinstance(x, Ref) and x.cell not in st.store:
                raise Unsupported('reference to uninitialised')
            return x
        if r == 'discr':
            x = self.read_place(st, fr, v['p'])
            return self.discr(st, x)
        if r == 'agg':
            ops = [self.operand(st, fr, o) for o in v['ops']]
            k = v['kind']
            if k == 'array' and self.is_u8(self.p.types[v['t']]['elem']):
                return z3.Concat([z3.StrFromCode(x) for x in ops]) if len(ops) > 1 else (z3.StrFromCode(ops[0]) if ops else z3.StringVal(''))
            if k in ('tuple', 'adt', 'array', 'closure'):
                return Agg(v['t'], v['variant'], ops)
            if k == 'rawptr':
                return ops[0]
            raise Unsupported('aggregate ' + k)
        if r == 'cast':
            x = self.operand(st, fr, v['o'])
            return self.cast(st, x, v)
        if r == 'bin':
            a = self.operand(st, fr, v['a'])
            b = self.operand(st, fr, v['b'])
            return self.binop(st, v['op'], a, b, v['t'])
        if r == 'un':
            a = self.operand(st, fr, v['o'])
            if v['op'] == 'Not':
                if isz(a) and a.sort() == BOOL:
                    return z3.Not(a)
                lo, hi = self.int_range(v['t'])
                return (-1 - a) if lo < 0 else (hi - a)
            if v['op'] == 'Neg':
                return -a
            if v['op'] == 'PtrMetadata':
                return self.length(st, a)
            raise Unsupported('unop ' + v['op'])
        if r == 'repeat':
            x = self.operand(st, fr, v['o'])
            if v['n'] < 0 or v['n'] > 64:
                raise Unsupported('array repeat')
            t = self.p.types[destty] if destty is not None else None
            if t and t['k'] == 'array' and self.is_u8(t['elem']):
                return z3.Concat([z3.StrFromCode(x)] * v['n']) if v['n'] > 1 else (z3.StrFromCode(x) if v['n'] else z3.StringVal(''))
            return Agg(destty, 0, [x] * v['n'])
        raise Unsupported(f'rvalue {r} {v.get("s","")}')

    def length(self, st, a):
        x = self.deref(st, a)
        if isz(x) and x.sort() == STR:
            return z3.Length(x)
        if isinstance(x, Agg):
            return z3.IntVal(len(x.fields))
        if isinstance(x, Sym):
            n = self.fn('len', U, INT)(x.term)
            self.fact(z3.And(n >= 0, n < (1 << 63)))
            return n
        raise Unsupported(f'length of {x}')

    def discr(self, st, x):
        x2 = x
        if isinstance(x, Agg):
            t = self.p.types[x.ty]
            return z3.IntVal(int(t['variants'][x.variant]['discr']) if t['k'] == 'adt' else 0)
        if isinstance(x, Sym):
            t = self.p.types[x.ty]
            if t['k'] != 'adt':
                raise Unsupported('discriminant of ' + t['s'])
            vs = t['variants']
            i = self.vidx(x)
            if all(int(v['discr']) == n for n, v in enumerate(vs)):
                return i
            r = z3.IntVal(int(vs[-1]['discr']))
            for n in range(len(vs) - 2, -1, -1):
                r = z3.If(i == n, z3.IntVal(int(vs[n]['discr'])), r)
            return r
        raise Unsupported(f'discriminant of {x}')

    def cast(self, st, x, v):
        k = v['kind']
        if k.startswith('IntToInt'):
            if isz(x) and x.sort() == BOOL:
                return z3.If(x, z3.IntVal(1), z3.IntVal(0))
            tt = self.p.types[v['t']]
            if tt['k'] not in ('int', 'char') or not isz(x):
                raise Unsupported('cast')
            lo, hi = self.int_range(v['t'])
            ft = self.p.types[v['from']]
            if ft['k'] in ('int', 'char'):
                flo, fhi = self.int_range(v['from'])
                if lo <= flo and fhi <= hi:
                    return x
            m = hi - lo + 1
            y = (x - lo) % m + lo
            return z3.simplify(y) if z3.is_int_value(x) else z3.If(z3.And(x >= lo, x <= hi), x, y)
        if k.startswith('PointerCoercion') or k.startswith('PtrToPtr') or k.startswith('Subtype'):
            return x
        if k.startswith('Transmute'):
            if self.p.name(v['t']) == self.p.name(v['from']):
                return x
        if k.startswith('BoxDerefTransmute') and isinstance(x, G) and x.kind == 'UBox':
            return x.ref
        raise Unsupported('cast ' + k)

    def binop(self, st, op, a, b, ty):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if not (isz(a) and isz(b)):
                if op in ('Eq', 'Ne'):
                    e = self.veq(st, a, b)
                    return e if op == 'Eq' else z3.Not(e)
                raise Unsupported('comparison of non-scalars')
            if a.sort() == BOOL and op in ('Lt', 'Le', 'Gt', 'Ge'):
                a, b = z3.If(a, 1, 0), z3.If(b, 1, 0)
            return {'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}[op]()
        if isz(a) and a.sort() == BOOL:
            if op == 'BitAnd':
                return z3.And(a, b)
            if op == 'BitOr':
                return z3.Or(a, b)
            if op == 'BitXor':
                return z3.Xor(a, b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul') and isz(a) and isz(b):
            x = {'Add': a + b, 'Sub': a - b, 'Mul': a * b}[base]
            lo, hi = self.int_range(ty)
            ovf = z3.Or(x < lo, x > hi)
            m = hi - lo + 1
            wrapped = z3.If(ovf, (x - lo) % m + lo, x)
            if op.endswith('WithOverflow'):
                return Agg(None, 0, [x if True else wrapped, ovf])
            if op.endswith('Unchecked'):
                return x
            return wrapped
        if base in ('Div', 'Rem') and isz(a) and isz(b):
            lo, _ = self.int_range(ty)
            if lo < 0:
                # truncates towards zero
                q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -(-a / b), -a / -b))
                return q if base == 'Div' else a - b * q
            return a / b if base == 'Div' else a % b
        if base in ('Shl', 'Shr') and isz(a) and isz(b):
            n = z3.simplify(b)
            lo, hi = self.int_range(ty)
            bits = (hi - lo).bit_length()
            if z3.is_int_value(n) and 0 <= n.as_long() < bits:
                n = n.as_long()
                if base == 'Shr':
                    return a / (1 << n)      # floor, also for negative values
                x = a * (1 << n)
                return z3.simplify(z3.If(z3.And(x >= lo, x <= hi), x, (x - lo) % (hi - lo + 1) + lo))
        if base in ('BitAnd',) and z3.is_int_value(b):
            n = b.as_long()
            if n & (n + 1) == 0:
                return a % (n + 1)
        raise Unsupported('binop ' + op)

    def statement(self, st, fr, s):
        k = s['s']
        if k == '=':
            destty = None
            if not s['p']['p']:
                destty = fr.fn['locals'][s['p']['l']]
            self.write_place(st, fr, s['p'], self.rvalue(st, fr, s['v'], destty))
        elif k == 'dead':
            st.store[(fr.fid, s['l'])] = None
        elif k == 'setdiscr':
            raise Unsupported('set discriminant')
        elif k == 'intrinsic':
            pass

    # ---- execution
    def push(self, st, fnkey, args, dest=None, to=None, cont=None):
        fn = self.p.fns[fnkey]
        if len(st.frames) > 60 or sum(1 for f in st.frames if f.fn is fn) > 2:
            raise Unsupported('recursion in ' + fn['path'])
        fid = next(self.cnt)
        fr = Frame(fid, fn, dest, to, cont)
        if fn['spread'] > 0:
            # the last declared argument collects the rest as a tuple
            n = fn['spread'] - 1
            if len(args) != fn['argc']:
                args = list(args[:n]) + [Agg(fn['locals'][fn['spread']], 0, args[n:])]
        if len(args) != fn['argc']:
            raise Unsupported(f"arity of {fn['path']}: {len(args)} vs {fn['argc']}")
        for i, a in enumerate(args):
            st.store[(fid, i + 1)] = a
        for i in range(len(fn['locals'])):
            st.store.setdefault((fid, i), None)
        # a ZST local of unit type may never be written
        t0 = self.p.types[fn['locals'][0]]
        st.frames.append(fr)
        self.inlined.add((fn['crate'], fn['path']))
        st.log.append('> ' + fn['path'])
        return fr

    def mkcall(self, st, fr, t, f):
        c = Call()
        if isinstance(f, FnV):
            c.c = f.c
        else:
            c.c = {'path': '<dyn>', 'kind': 'dyn', 'args': []}
        c.args = [self.operand(st, fr, a) for a in t['args']]
        c.argtys = t['argtys']
        c.destty = t['destty']
        c.path = c.c.get('path', '')
        c.rpath = c.c.get('rpath', '') or ''
        c.rfull = c.c.get('rfull', '') or ''
        c.targs = c.c.get('args', [])
        c.rargs = c.c.get('rargs', []) or []
        c.line = t.get('line', 0)
        c.name = c.path.split('::')[-1]
        return c

    def call_fnv(self, st, fv, args, argtys, destty, cont):
        """call a function value / closure with already untupled args; cont(st, ret) -> [(st, val)]"""
        r = None
        v = fv
        while isinstance(v, (Ref, PRef)):
            r = v
            v = self.load(st, v)
        if isinstance(v, G) and v.kind == 'Box':
            v = v.v
        if isinstance(v, Agg) and v.ty is not None and self.p.types[v.ty]['k'] == 'closure':
            t = self.p.types[v.ty]
            if t['body'] not in self.p.fns:
                raise Unsupported('closure without a body')
            if 'FnOnce' in t['kind']:
                env = v
            else:
                env = r if r is not None else self.new_cell(st, v)
            self.push(st, t['body'], [env] + list(args), None, None, cont)
            return [(st, None)]
        if isinstance(v, FnV):
            c = Call()
            c.c = v.c
            c.args = list(args)
            c.argtys = list(argtys)
            c.destty = destty
            c.path = v.c.get('path', '')
            c.rpath = v.c.get('rpath', '') or ''
            c.rfull = v.c.get('rfull', '') or ''
            c.targs = v.c.get('args', [])
            c.rargs = v.c.get('rargs', []) or []
            c.line = 0
            c.name = c.path.split('::')[-1]
            return self.do_call(st, c, cont)
        if isinstance(v, Sym):
            h = getattr(self.contracts, 'call_opaque', None)
            if h:
                rs = h(self, st, v, args, destty)
                if rs is not None:
                    return self.after(rs, cont)
        raise Unsupported(f'call of {v}')

    def after(self, rs, cont):
        if cont is None:
            return rs
        out = []
        for s, v in rs:
            if isinstance(s, Outcome):
                out.append((s, v))
            elif v is PUSHED:
                raise Unsupported('continuation after pushed frame')
            else:
                out.extend(cont(s, v))
        return out

    def do_call(self, st, c, cont):
        """Perform call c; result values are delivered through cont(st, val) (a frame continuation or immediate).
        Returns a list of (state, None) where frames were pushed / cont applied, via self.after."""
        h = self.contracts.lookup(self, c)
        if h is not None:
            rs = h(self, st, c)
            out = []
            for s, v in rs:
                if isinstance(s, Outcome) or v is PUSHED:
                    if v is PUSHED:
                        # the handler pushed a frame whose continuation yields the value: compose
                        s.frames[-1].cont = compose(self, s.frames[-1].cont, cont)
                    out.append((s, None))
                else:
                    out.extend(cont(s, v))
            return out
        key = c.c.get('body') or ''
        if key and key in self.p.fns:
            self.push(st, key, c.args, None, None, cont)
            return [(st, None)]
        raise Unsupported(f"no contract for {c.rfull or c.path} ({c.c.get('kind')})")

    def run(self, st, within=None):
        """explore all paths from st; within=(fid, body): drop paths that leave that loop"""
        outs = []
        work = [st]
        while work:
            s = self.pick(work) if self.merge and len(work) > 1 else work.pop()
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Unsupported('too many steps')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            fr = s.frames[-1]
            if within and fr.fid == within[0] and fr.bb not in within[1]:
                continue
            for r in self.step(s):
                if isinstance(r, Outcome):
                    if not (within or r.kind == 'stop') and self.check(r.st.pc, 3000) != z3.unsat:
                        outs.append(r)
                elif not (self.merge and self.join(work, r)):
                    work.append(r)
        return outs

    # ---- joining paths that meet (only for units that ask for it)
    def pick(self, work):
        """the state that is furthest behind, so that paths meet where they join"""
        i = min(range(len(work)), key=lambda i: [rpo(f.fn)[f.bb] for f in work[i].frames] + [1 << 30])
        return work.pop(i)

    def join(self, work, b):
        for i, a in enumerate(work):
            if len(a.frames) == len(b.frames) and all(f.fid == g.fid and f.bb == g.bb and f.cont is g.cont for f, g in zip(a.frames, b.frames)):
                m = self.merged(a, b)
                if m is not None:
                    work[i] = m
                    return True
        return False

    def merged(self, a, b):
        """one state for both: every value is that of the path taken"""
        if a.active.keys() != b.active.keys() or any(a.active[k] is not b.active[k] for k in a.active):
            return None
        n = 0
        while n < min(len(a.pc), len(b.pc)) and a.pc[n].get_id() == b.pc[n].get_id():
            n += 1
        d = self.fresh('path', BOOL)
        ra, rb = list(a.pc[n:]), list(b.pc[n:])
        live = {f.fid for f in a.frames}
        out = (a.frames[-1].fid, 0)
        store = {}
        for c in list(a.store) + [c for c in b.store if c not in a.store]:
            if c not in a.store or c not in b.store:
                store[c] = a.store.get(c, b.store.get(c))
                continue
            x, y = a.store[c], b.store[c]
            if x is None or y is None:
                store[c] = None
                continue
            if self.lazy and isinstance(x, Agg) and isinstance(y, Agg) and x.variant != y.variant and any(isinstance(v, G) for v in x.fields + y.fields):
                return None
            if c == out and isinstance(x, Agg) and isinstance(y, Agg) and x.variant != y.variant:
                return None
            v = self.join_val(a, b, x, y, d, ra, rb)
            if v is None and (c[0] not in live or c == out):
                return None
            store[c] = v   # None: reading it is refused
        m = a.fork()
        m.store = store
        m.pc = a.pc[:n] + [z3.Or(z3.And([d] + ra), z3.And([z3.Not(d)] + rb))]
        return m

    def join_val(self, a, b, x, y, d, ra, rb):
        if same(x, y):
            return x
        if isz(x) and isz(y):
            return z3.If(d, x, y) if x.sort() == y.sort() else None
        if isinstance(x, G) and isinstance(y, G) and x.kind == y.kind and (x.kind == 'obj' and same(x.key, y.key) or x.kind == 'jout' and x.what == y.what == 'obj'):
            if self.cheap:
                return x   # output that nothing reads; only panics are looked for
            # the members written on one side only are there under the condition of that side
            n = 0
            while n < min(len(x.entries), len(y.entries)) and same_entry(x.entries[n], y.entries[n]):
                n += 1
            one = lambda l, d: tuple((t[0], t[1], z3.And(d, t[2]) if len(t) > 2 else d) for t in l[n:])
            return x.upd(entries=x.entries[:n] + one(x.entries, d) + one(y.entries, z3.Not(d)))
        if isinstance(x, PRef) and isinstance(y, PRef):
            v = self.join_val(a, b, x.v, y.v, d, ra, rb)
            return None if v is None else PRef(v)
        if isinstance(x, G) and isinstance(y, G) and x.kind == y.kind == 'Box':
            v = self.join_val(a, b, x.v, y.v, d, ra, rb)
            return None if v is None else G('Box', v=v)
        if isinstance(x, Agg) and isinstance(y, Agg) and x.ty == y.ty and x.variant == y.variant and len(x.fields) == len(y.fields):
            fs = [None if u is None or w is None else self.join_val(a, b, u, w, d, ra, rb) for u, w in zip(x.fields, y.fields)]
            return None if any(f is None for f in fs) else Agg(x.ty, x.variant, fs)
        if isinstance(x, Sym) and isinstance(y, Sym) and x.ty == y.ty:
            return Sym(x.ty, z3.If(d, x.term, y.term))
        if isinstance(x, (Agg, Sym)) and isinstance(y, (Agg, Sym)) and x.ty == y.ty and self.p.types[x.ty]['k'] == 'adt':
            r = Sym(x.ty, self.fresh('joined', U))
            try:
                p, q = self.veq(a, r, x), self.veq(b, r, y)
            except (Unsupported, z3.Z3Exception):
                return None
            if z3.is_false(z3.simplify(p)) or z3.is_false(z3.simplify(q)):
                return None
            ra.append(p)
            rb.append(q)
            return r
        return None

    def goto(self, st, bb):
        """enter block bb of the top frame; returns list of states"""
        fr = st.frames[-1]
        fr.bb = bb
        heads = loops_of(fr.fn)
        if bb in heads:
            return self.at_head(st, fr, bb, heads[bb])
        return [st]

    def step(self, st):
        fr = st.frames[-1]
        b = fr.fn['blocks'][fr.bb]
        for s in b['st']:
            self.statement(st, fr, s)
        t = b['term']
        k = t['t']
        if k in ('goto', 'drop'):
            return self.goto(st, t['to'])
        if k == 'switch':
            return self.switch(st, fr, t)
        if k == 'return':
            return self.do_return(st)
        if k == 'unreachable':
            if not self.infer and self.check(st.pc, 3000) == z3.sat:
                raise Unsupported('unreachable code is reached')
            return []
        if k == 'assert':
            c = self.operand(st, fr, t['o'])
            if not t['expected']:
                c = z3.Not(c)
            a, b2 = self.split(st, c)
            out = []
            if a is not None:
                out += self.goto(a, t['to'])
            if b2 is not None:
                out.append(Outcome('panic', b2, None, t['msg']))
            return out
        if k == 'call':
            f = self.operand(st, fr, t['f'])
            c = self.mkcall(st, fr, t, f)
            st.log.append(f'{c.path}@{c.line}')
            fid = fr.fid

            def cont(s, v, t=t, fid=fid):
                f2 = s.frames[-1]
                assert f2.fid == fid
                if t['to'] < 0:
                    return [(Outcome('panic', s, v, 'diverging call ' + c.path), None)]
                self.write_place(s, f2, t['dest'], v)
                return [(x, None) for x in self.goto(s, t['to'])]
            if not isinstance(f, FnV):
                res = self.call_fnv(st, f, c.args, c.argtys, c.destty, cont)
            elif c.path in FNTRAIT:
                tup = self.deref_tuple(c.args[1])
                ttys = self.p.types[c.argtys[1]].get('elems', [])
                res = self.call_fnv(st, c.args[0], tup, ttys, c.destty, cont)
            else:
                res = self.do_call(st, c, cont)
            return [s for s, _ in res]
        raise Unsupported('terminator ' + k + ' ' + str(t.get('s', ''))[:80])

    def deref_tuple(self, v):
        if isinstance(v, Agg):
            return list(v.fields)
        raise Unsupported('call arguments')

    def switch(self, st, fr, t):
        x = self.operand(st, fr, t['o'])
        out = []
        if not isz(x):
            raise Unsupported('switch on non-scalar')
        rest = st
        isb = x.sort() == BOOL
        for val, bb in t['vals']:
            if rest is None:
                break
            n = int(val)
            ty = self.p.types[t['ty']]
            if ty['k'] == 'int' and ty['signed'] and n >= (1 << (ty['bits'] - 1)):
                n -= 1 << ty['bits']
            cond = (x if n else z3.Not(x)) if isb else (x == n)
            a, rest = self.split(rest, cond)
            if a is not None:
                out += self.goto(a, bb)
        if rest is not None:
            b = fr.fn['blocks'][t['else']]
            if not (b['term']['t'] == 'unreachable' and not b['st']):
                out += self.goto(rest, t['else'])
            elif self.check(rest.pc, 3000) == z3.sat and not self.infer:
                raise Unsupported('a switch outside its cases')
        return out

    def do_return(self, st):
        fr = st.frames.pop()
        v = st.store.get((fr.fid, 0))
        if v is None:
            t = self.p.types[fr.fn['locals'][0]]
            if t['k'] == 'tuple' and not t['elems']:
                v = Agg(fr.fn['locals'][0], 0, [])
            else:
                raise Unsupported('return value uninitialised')
        st.log.append('< ' + fr.fn['path'])
        # cells of the frame stay in the store only if referenced; drop them when the value holds no reference into it
        if not refs_into(v, fr.fid, st, set()):
            n = len(fr.fn['locals'])
            for i in range(n):
                st.store.pop((fr.fid, i), None)
        for key in [k for k in st.active if k[0] == fr.fid]:
            del st.active[key]
        if not st.frames and fr.cont is None:
            return [Outcome('return', st, v)]
        if fr.cont is None:
            raise Unsupported('return without continuation')
        return [s for s, _ in fr.cont(st, v)]

    # ---- loops
    def at_head(self, st, fr, bb, body):
        key = (fr.fid, bb)
        if self.unroll:
            # the input is known piece by piece: follow every iteration (complete if all paths end within the limit)
            n = st.active.get(key, {}).get('n', 0) + 1
            if n > self.unroll:
                raise Unsupported('loop does not end within the unrolling limit')
            st.active[key] = {'n': n}
            return [st]
        if key in st.active:
            ctx = st.active[key]
            ctx['back'].append(st)
            return []
        return self.do_loop(st, fr, bb, body)

    def do_loop(self, st, fr, bb, body):
        key = (fr.fid, bb)
        # 1. bounded concrete unrolling is not used: every loop is cut
        entry = st
        template = {}  # (cell, path) -> Hole
        for rnd in range(30):
            head, holes = self.instantiate(entry, template)
            backs = self.sub(head, key, fr.fid, body)
            new = dict(template)
            for b in backs:
                for cell, hv in head.store.items():
                    if cell not in b.store:
                        continue
                    self.diff(hv, b.store[cell], cell, (), new)
            if set(new) == set(template) and all(new[k].ty == template[k].ty for k in new):
                break
            template = reduce_holes(new)
        else:
            raise Unsupported('loop widening does not converge')
        # 2. Houdini
        head, holes = self.instantiate(entry, template)
        entry_vals = {k: self.at(entry, k) for k in template}
        cands = self.candidates(entry, template, entry_vals)
        cands = [c for c in cands if self.holds(entry, c[1](entry_vals, entry))]
        for rnd in range(60):
            head, holes = self.instantiate(entry, template)
            for c in cands:
                f = c[1](holes, head)
                if f is not None:
                    head.pc.append(f)
            backs = self.sub(head, key, fr.fid, body)
            bad = set()
            for b in backs:
                vals = {k: self.at(b, k) for k in template}
                fs = []
                for i, c in enumerate(cands):
                    if i in bad:
                        continue
                    f = c[1](vals, b)
                    if f is None:
                        bad.add(i)
                    elif not z3.is_true(z3.simplify(f)):
                        fs.append((i, f))
                while fs:
                    r = self.check(b.pc + [z3.Not(z3.And([f for _, f in fs]))], 4000 if self.hard < 5 else 800)
                    if r == z3.unsat:
                        break
                    drop = []
                    if r == z3.sat:
                        m = self.last.model()
                        for i, f in fs:
                            try:
                                if z3.is_false(m.eval(f, model_completion=True)):
                                    drop.append(i)
                            except z3.Z3Exception:
                                pass
                    if not drop:
                        for i, f in fs:
                            r = z3.sat if z3.is_false(z3.simplify(f)) and self.hard >= 5 else self.check(b.pc + [z3.Not(f)], 3000 if self.hard < 5 else 800)
                            if r != z3.unsat:
                                self.hard += r == z3.unknown
                                drop.append(i)
                        if not drop:
                            # conjunction unknown but each member proved
                            break
                    bad |= set(drop)
                    fs = [(i, f) for i, f in fs if i not in bad]
            if not bad:
                break
            cands = [c for i, c in enumerate(cands) if i not in bad]
        else:
            raise Unsupported('Houdini does not converge')
        # 3. continue from the cut
        holes0 = holes
        head, holes = self.instantiate(entry, template)
        for c in cands:
            f = c[1](holes, head)
            if f is not None:
                head.pc.append(f)
        head.active[key] = {'back': []}
        head.log.append(f'loop {fr.fn["path"]}:bb{bb} holes={len(template)} inv={len(cands)}')
        measure = None
        if not self.infer:
            measure = self.terminates(holes0, template, backs)
            if measure is None:
                self.incomplete.append(f'no termination measure was found for the loop of {fr.fn["path"]} at bb{bb}')   # the other obligations are still generated
            else:
                self.obls.append(dict(name=f'{self.label}: the loop of {fr.fn["path"]} ends: {measure}', status='proved', s=0.0, model=None, path=None, formula=None))
            self.loop_info.append(dict(fn=fr.fn['path'], bb=bb, havoced=[str(k) for k in template], invariants=[c[0] for c in cands]))
            # the inductive step of each surviving invariant is an obligation that was discharged just above
            for c in cands:
                self.obls.append(dict(name=f'{self.label}: loop invariant of {fr.fn["path"]} ({c[0]}) is established and preserved', status='proved', s=0.0, model=None, path=None, formula=None))
        return [head]

    def terminates(self, old, template, backs):
        """why the loop cannot go round forever: every iteration takes something from an input (a line, a member, a message, an
        item), or else moves one machine integer in one direction, or shortens a string"""
        tk = (('g', 'ticks'), ())
        rest = []
        for b in backs:
            t = self.at(b, tk)
            if tk in template and t is not None and self.check(b.pc + [z3.Not(t > old[tk])], 3000) == z3.unsat:
                continue
            if self.check(b.pc, 3000) == z3.unsat:
                continue
            rest.append(b)
        if not rest:
            return 'every iteration takes something from an input'
        for k in template:
            x = old[k]
            if k == tk or k[0][0] == 'g' or not isz(x) or x.sort() not in (INT, STR):
                continue
            vals = [self.at(b, k) for b in rest]
            if any(v is None or not isz(v) or v.sort() != x.sort() for v in vals):
                continue
            m = (lambda v: v) if x.sort() == INT else z3.Length
            for what, f in (('grows', lambda v: m(v) > m(x)), ('shrinks', lambda v: m(v) < m(x))):
                if what == 'grows' and x.sort() == STR:
                    continue
                if all(self.check(b.pc + [z3.Not(f(v))], 3000) == z3.unsat for b, v in zip(rest, vals)):
                    return f'{k[0][0]}.{k[0][1]} {what} in every iteration that takes nothing from an input'
        return None

    def sub(self, head, key, fid, body):
        ctx = {'back': []}
        h = head.fork()
        h.active[key] = ctx
        self.infer += 1
        try:
            self.run(h, within=(fid, body))
        finally:
            self.infer -= 1
        return ctx['back']

    def holds(self, st, f):
        if f is None:
            return False
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.check(st.pc + [z3.Not(f)], 3000 if self.hard < 5 else 800) == z3.unsat

    def at(self, st, key):
        cell, path = key
        v = st.store.get(cell)
        for p in path:
            if v is None:
                return None
            if p[0] == 'f':
                if isinstance(v, Agg):
                    if v.variant != p[1]:
                        return None
                    v = v.fields[p[2]]
                else:
                    v = self.field(v, p[1], p[2])
            elif p[0] == '*':
                if not isinstance(v, PRef):
                    return None
                v = v.v
            elif p[0] == 'g':
                if not isinstance(v, G):
                    return None
                v = v.a[p[1]]
        return v

    def put(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if p[0] == 'f':
            fs = list(v.fields)
            fs[p[2]] = self.put(fs[p[2]], path[1:], new)
            return Agg(v.ty, v.variant, fs)
        if p[0] == '*':
            return PRef(self.put(v.v, path[1:], new))
        if p[0] == 'g':
            return v.upd(**{p[1]: self.put(v.a[p[1]], path[1:], new)})

    def diff(self, a, b, cell, path, out):
        """record in out the holes needed so that both a and b are instances"""
        if same(a, b):
            return
        if (cell, path) in out:
            return
        if a is None or b is None:
            out[(cell, path)] = Hole((cell, path), None, None)
            return
        if isz(a) and isz(b) and a.sort() == b.sort():
            out[(cell, path)] = Hole((cell, path), None, a.sort())
            return
        if isinstance(a, Agg) and isinstance(b, Agg) and a.variant == b.variant and len(a.fields) == len(b.fields):
            for i, (x, y) in enumerate(zip(a.fields, b.fields)):
                self.diff(x, y, cell, path + (('f', a.variant, i),), out)
            return
        if isinstance(a, (Agg, Sym)) and isinstance(b, (Agg, Sym)):
            ty = a.ty if a.ty is not None else b.ty
            out[(cell, path)] = Hole((cell, path), ty, U)
            return
        if isinstance(a, PRef) and isinstance(b, PRef):
            self.diff(a.v, b.v, cell, path + (('*',),), out)
            return
        if isinstance(a, G) and isinstance(b, G) and a.kind == b.kind and a.a.keys() == b.a.keys():
            for k in a.a:
                x, y = a.a[k], b.a[k]
                if same(x, y):
                    continue
                if (isz(x) and isz(y)) or (isinstance(x, Val) and isinstance(y, Val)):
                    self.diff(x, y, cell, path + (('g', k),), out)
                else:
                    out[(cell, path)] = Hole((cell, path), None, None)
            return
        # shapes that cannot be merged: the value is unknown after the cut (reading it is unsupported)
        out[(cell, path)] = Hole((cell, path), None, None)

    def instantiate(self, entry, template):
        head = entry.fork()
        vals = {}
        for k, h in sorted(template.items(), key=lambda x: len(x[0][1])):
            cell, path = k
            if h.ty is not None:
                nv = Sym(h.ty, self.fresh('havoc', U))
            elif h.sort is not None:
                nv = self.fresh('havoc', h.sort)
                old = self.at(entry, k)
            else:
                nv = None
            head.store[cell] = self.put(head.store[cell], path, nv)
            vals[k] = nv
        return head, vals

    def candidates(self, entry, template, ev):
        out = []
        keys = [k for k in template if ev[k] is not None and k != (('g', 'ticks'), ())]

        def nm(k):
            c, p = k
            s = c[1] if c[0] == 'g' else f'{c[0]}.{c[1]}'
            return str(s) + ''.join('.' + str(x[-1]) for x in p)
        if self.cheap:
            keys = [k for k in keys if k[0][0] == 'g' and isz(ev[k]) and ev[k].sort() == BOOL]
        for k in keys:
            e = ev[k]
            out.append((f'{nm(k)} unchanged', lambda v, st, k=k, e=e: self.veqn(st, v[k], e)))
            if isz(e) and e.sort() == INT:
                out.append((f'{nm(k)} >= 0', lambda v, st, k=k: None if v[k] is None else v[k] >= 0))
                out.append((f'{nm(k)} >= initial', lambda v, st, k=k, e=e: None if v[k] is None else v[k] >= e))
            if isz(e) and e.sort() == BOOL:
                out.append((f'{nm(k)} is true', lambda v, st, k=k: None if v[k] is None else v[k]))
                out.append((f'{nm(k)} is false', lambda v, st, k=k: None if v[k] is None else z3.Not(v[k])))
        for a, b in itertools.combinations(keys, 2):
            x, y = ev[a], ev[b]
            if isz(x) and isz(y) and x.sort() == y.sort():
                out.append((f'{nm(a)} = {nm(b)}', lambda v, st, a=a, b=b: self.veqn(st, v[a], v[b])))
                if x.sort() == BOOL:
                    out.append((f'{nm(a)} = not {nm(b)}', lambda v, st, a=a, b=b: None if v[a] is None or v[b] is None else v[a] != v[b]))
                    out.append((f'{nm(a)} implies {nm(b)}', lambda v, st, a=a, b=b: None if v[a] is None or v[b] is None else z3.Implies(v[a], v[b])))
                    out.append((f'{nm(b)} implies {nm(a)}', lambda v, st, a=a, b=b: None if v[a] is None or v[b] is None else z3.Implies(v[b], v[a])))
                if x.sort() == INT:
                    d = x - y
                    out.append((f'{nm(a)} - {nm(b)} unchanged', lambda v, st, a=a, b=b, d=d: None if v[a] is None or v[b] is None else v[a] - v[b] == d))
            elif isinstance(x, (Agg, Sym)) and isinstance(y, (Agg, Sym)) and x.ty == y.ty:
                out.append((f'{nm(a)} = {nm(b)}', lambda v, st, a=a, b=b: self.veqn(st, v[a], v[b])))
            for (o, w) in ((a, b), (b, a)):
                if self.is_option(ev[o]) and isz(ev[w]) and ev[w].sort() == BOOL:
                    out.append((f'{nm(o)} is some = {nm(w)}', lambda v, st, o=o, w=w: None if v[o] is None or v[w] is None else (self.vidx(v[o]) == 1) == v[w]))
        if self.inv_templates and not self.cheap:
            out += self.inv_templates(self, entry, template, ev, nm)
        return out

    def veqn(self, st, a, b):
        if a is None or b is None:
            return None
        try:
            return self.veq(st, a, b)
        except Unsupported:
            return None

    def is_option(self, v):
        if isinstance(v, (Agg, Sym)) and v.ty is not None:
            t = self.p.types[v.ty]
            return t['k'] == 'adt' and t['path'].endswith('option::Option')
        return False

    # ---- helpers for contracts
    def ok(self, ty, v):
        return Agg(ty, 0, [v])

    def err(self, ty, v):
        return Agg(ty, 1, [v])

    def some(self, ty, v):
        return Agg(ty, 1, [v])

    def none(self, ty):
        return Agg(ty, 0, [])

    def arg(self, ty, i):
        return self.p.types[ty]['args'][i]

    def unit(self):
        return Agg(None, 0, [])

    def payload(self, v, variant, i=0):
        """field i of v assuming variant (z3-level: guard it yourself)"""
        if isinstance(v, Agg) and v.variant != variant:
            return None
        return self.field(v, variant, i)


PUSHED = object()
FNTRAIT = {'std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call', 'core::ops::FnOnce::call_once', 'core::ops::FnMut::call_mut', 'core::ops::Fn::call'}


def compose(eng, inner, outer):
    """inner(st, ret) -> [(st, val)] then outer(st, val)"""
    if inner is None:
        return outer

    def k(st, v):
        out = []
        for s, x in inner(st, v):
            if isinstance(s, Outcome):
                out.append((s, None))
            elif x is PUSHED:
                s.frames[-1].cont = compose(eng, s.frames[-1].cont, outer)
                out.append((s, None))
            else:
                out.extend(outer(s, x))
        return out
    return k


def refs_into(v, fid, st, seen):
    if isinstance(v, Ref):
        if v.cell[0] == fid:
            return True
        if v.cell in seen:
            return False
        seen.add(v.cell)
        return refs_into(st.store.get(v.cell), fid, st, seen)
    if isinstance(v, PRef):
        return refs_into(v.v, fid, st, seen)
    if isinstance(v, Agg):
        return any(refs_into(f, fid, st, seen) for f in v.fields)
    if isinstance(v, G):
        return any(refs_into(f, fid, st, seen) for f in v.a.values())
    if isinstance(v, (tuple, list)):
        return any(refs_into(f, fid, st, seen) for f in v)
    return False


def reduce_holes(t):
    """drop holes that lie below another hole"""
    out = {}
    for (c, p), h in t.items():
        if any((c, p[:i]) in t for i in range(len(p))):
            continue
        out[(c, p)] = h
    return out


def strval(s):
    return bytesval(s.encode('utf-8', 'surrogateescape'))


def bytesval(b):
    # one z3 character per byte
    return z3.StringVal(''.join(f'\\u{{{x:x}}}' if (x < 32 or x > 126 or x == 92) else chr(x) for x in b))
