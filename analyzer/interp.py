"""Abstract interpreter over the dumped MIR, in the value domain of terms.py.

Every function reachable from an entry point is analysed in place (context-sensitive inlining);
at every control-flow join the states are merged by gating (no path is enumerated).
"""
import struct
import sys
from fractions import Fraction
from terms import Store, Term, Atom, irange

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class B:
    """Boolean value: a BDD."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, B) and o.n == self.n

    def __hash__(self):
        return hash(('B', self.n))


class Agg:
    """struct / tuple / array / closure."""
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty = ty
        self.f = tuple(f)


class Enum:
    __slots__ = ('ty', 'tag', 'p')

    def __init__(self, ty, tag, p):
        self.ty = ty
        self.tag = tag      # int Term: variant index
        self.p = p          # {variant index: tuple of fields}


class Ref:
    """Shared reference: the referent cannot change while it is borrowed, so its value is kept."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class MRef:
    """Mutable reference: a place."""
    __slots__ = ('cell', 'proj')

    def __init__(self, cell, proj):
        self.cell = cell
        self.proj = proj


class Fn:
    __slots__ = ('callee',)

    def __init__(self, callee):
        self.callee = callee


class Seq:
    """A growable vector: base sequence (Term of sort 'v', or None when empty) followed by guarded items."""
    __slots__ = ('base', 'items')

    def __init__(self, base, items):
        self.base = base
        self.items = tuple(items)      # (guard BDD, value)


class It:
    """An iterator over known elements, or a lazy adaptor over a symbolic one."""
    __slots__ = ('kind', 'd')

    def __init__(self, kind, d):
        self.kind = kind
        self.d = d


class Poison:
    """A place two paths left with values that have no common form (a loop's iterator left by a
    break and by its end).  Any use of it is refused."""
    __slots__ = ('why',)

    def __init__(self, why):
        object.__setattr__(self, 'why', why)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(self.why)

    def __iter__(self):
        raise Unsupported(self.why)

    def __len__(self):
        raise Unsupported(self.why)


class Box:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class State:
    __slots__ = ('pc', 'c')

    def __init__(self, pc, c):
        self.pc = pc
        self.c = c

    def copy(self):
        return State(self.pc, dict(self.c))


def bits_f64(n):
    return struct.unpack('<d', struct.pack('<Q', n & ((1 << 64) - 1)))[0]


INFO = {}      # what is derived from the bodies alone, by dump


class BodyInfo:
    def __init__(self, name, b):
        self.name = name
        self.b = b
        self.blocks = b['blocks']
        self.argc = b['argc']
        n = len(self.blocks)
        self.succ = [self.successors(bb['t']) for bb in self.blocks]
        self.order = {}
        self.heads = set()
        self.loops = {}
        # reachable, non-cleanup
        seen = set()
        st = [0]
        while st:
            x = st.pop()
            if x in seen or self.blocks[x]['cleanup']:
                continue
            seen.add(x)
            st.extend(self.succ[x])
        self.reach = seen
        self.pos = 0
        self._wto(seen, 0)
        self._live()

    def _live(self):
        """Locals whose value may still be read at the start of each block."""
        always = set(range(self.argc + 1)) & {0}
        for x in self.reach:
            for stt in self.blocks[x]['s']:
                if stt[0] == 'assign' and (stt[2][0] == 'rawptr' or stt[2][0] == 'ref' and stt[2][1]):
                    pl = stt[2][1] if stt[2][0] == 'rawptr' else stt[2][2]
                    always.add(pl[0])

        def uses(x, out):
            if isinstance(x, dict):
                for v in x.values():
                    uses(v, out)
            elif isinstance(x, (list, tuple)):
                for v in x:
                    uses(v, out)
            elif isinstance(x, int) and not isinstance(x, bool):
                out.add(x)
        gen, kill = {}, {}
        for x in self.reach:
            g, k = set(), set()

            def use(v):
                u = set()
                uses(v, u)
                g.update(u - k)

            def define(pl):
                if len(pl) == 1 or not pl[1]:
                    k.add(pl[0])
                else:
                    use(pl)
            for stt in self.blocks[x]['s']:
                if stt[0] == 'assign':
                    use(stt[2])
                    define(stt[1])
                else:
                    use(stt)
            t = self.blocks[x]['t']
            if isinstance(t, dict):
                use([t['f'], t['args']])
                # written on return: no use of what it held
                if len(t['dest']) > 1 and t['dest'][1]:
                    use(t['dest'])
                else:
                    k.add(t['dest'][0])
            elif t[0] == 'switch':
                use(t[1])
            elif t[0] == 'assert':
                use([t[1], t[4]])
            elif t[0] not in ('goto', 'return', 'unreachable', 'resume', 'drop'):
                use(t)
            gen[x], kill[x] = g, k
        self.live = {x: set(gen[x]) for x in self.reach}
        todo = set(self.reach)
        pred = {}
        for x in self.reach:
            for y in self.succ[x]:
                pred.setdefault(y, set()).add(x)
        while todo:
            x = todo.pop()
            o = set()
            for y in self.succ[x]:
                o |= self.live.get(y, set())
            n = gen[x] | (o - kill[x])
            if n != self.live[x]:
                self.live[x] = n
                todo |= pred.get(x, set())
        for x in self.reach:
            self.live[x] |= always

    @staticmethod
    def successors(t):
        if isinstance(t, dict):
            return [t['target']] if t['target'] is not None else []
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'assert':
            return [t[3]]
        return []

    def _wto(self, nodes, entry):
        """Order nodes so that every loop is contiguous and precedes its exits."""
        idx, low, on, st, sccs = {}, {}, set(), [], []
        cnt = [0]

        def tarjan(v):
            work = [(v, iter([s for s in self.succ[v] if s in nodes]))]
            idx[v] = low[v] = cnt[0]
            cnt[0] += 1
            st.append(v)
            on.add(v)
            while work:
                u, itr = work[-1]
                adv = False
                for w in itr:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter([s for s in self.succ[w] if s in nodes])))
                        adv = True
                        break
                    elif w in on:
                        low[u] = min(low[u], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == u:
                            break
                    sccs.append((u, comp))
        if entry in nodes:
            tarjan(entry)
        for v in sorted(nodes):
            if v not in idx:
                tarjan(v)
        for root, comp in reversed(sccs):
            if len(comp) == 1 and root not in self.succ[root]:
                self.order[root] = self.pos
                self.pos += 1
            else:
                # head: the entry if inside, else the first node reached from outside
                cs = set(comp)
                head = root
                self.heads.add(head)
                self.loops[head] = cs
                self.order[head] = self.pos
                self.pos += 1
                sub = cs - {head}
                nxt = [s for s in self.succ[head] if s in sub]
                self._wto(sub, nxt[0] if nxt else -1)


class Interp:
    def __init__(self, dump, store, limit=40):
        self.d = dump
        self.s = store
        self.types = dump['types']
        self.bodies = {}
        self.limit = limit
        self.fid = 0
        self.intercept = {}
        self.panics = []         # (pc, kind, fn, span, extra)
        self.cuts = []           # (pc, fn, head block)
        self.unknown = {}        # uninterpreted callees -> count
        self.boxing = []
        self.rmemo = {}
        self.fns = set()         # functions analysed
        self.calls = 0
        self.stmts = 0
        self.stack = []
        self.initmemo = {}
        self.facts = []
        self.hooks = []
        self.loopstates = {}
        self.looplimit = {}
        import models
        self.models = models.Models(self)

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.types[i]

    def body(self, name):
        r = self.bodies.get(name)
        if r is None:
            b = self.d['bodies'].get(name)
            if b is None:
                return None
            known = INFO.setdefault(id(self.d), (self.d, {}))[1]
            if name not in known:
                known[name] = BodyInfo(name, b)
            r = self.bodies[name] = known[name]
        return r

    def find(self, suffix):
        """Body whose path is `suffix` or ends in ::suffix."""
        c = [n for n, b in self.d['bodies'].items() if b and b['local'] and not n.startswith('init:')
             and (n == suffix or n.endswith('::' + suffix))]
        return c[0] if len(c) >= 1 else None

    # ------------------------------------------------------------ symbolic values
    def sym(self, tyi, name, mk=None):
        """A fresh symbolic value of a type; mk(name, sort, rng) builds the scalars."""
        s = self.s
        if mk is None:
            mk = lambda n, sort, rng: s.var(n, sort, rng)
        t = self.types[tyi]
        k = t['k']
        if k == 'float':
            return mk(name, 'f', None)
        if k in ('int', 'uint'):
            return mk(name, 'i', irange(k, t['bits']))
        if k == 'char':
            return mk(name, 'i', (0, 0x10ffff))
        if k == 'bool':
            x = mk(name, 'p', None)
            return B(s.pred('is', x))
        if k == 'ref':
            return Ref(self.sym(t['to'], name, mk))
        if k == 'str':
            return mk(name, 's', None)
        if k == 'tuple':
            return Agg(tyi, [self.sym(e, '%s.%d' % (name, i), mk) for i, e in enumerate(t['elems'])])
        if k == 'array' and t['len'] is not None and t['len'] <= 64:
            return Agg(tyi, [self.sym(t['to'], '%s[%d]' % (name, i), mk) for i in range(t['len'])])
        if k == 'adt':
            p = t['path']
            if p == 'alloc::string::String':
                return mk(name, 's', None)
            if p == 'alloc::vec::Vec':
                return Seq(mk(name, 'v', None), ())
            if p == 'alloc::boxed::Box':
                if tyi in self.boxing:          # a recursive type: what is further inside stays one unknown
                    return Box(mk(name + '.*', 'o', None))
                self.boxing.append(tyi)
                try:
                    return Box(self.sym(t['args'][0], name + '.*', mk))
                finally:
                    self.boxing.pop()
            if t['kind'] == 'struct' and (t['local'] or p.startswith('core::ops::range')):
                v = t['variants'][0]
                return Agg(tyi, [self.sym(f[1], '%s.%s' % (name, f[0]), mk) for f in v['fields']])
            if t['kind'] == 'enum':
                n = len(t['variants'])
                if n == 0:
                    return mk(name, 'o', None)
                tag = mk(name + '#', 'i', (0, n - 1)) if n > 1 else s.const(0, 'i')
                pl = {}
                for i, v in enumerate(t['variants']):
                    pl[i] = tuple(self.sym(f[1], '%s.%s.%s' % (name, v['name'], f[0]), mk) for f in v['fields'])
                return Enum(tyi, tag, pl)
        return mk(name, 'o', None)

    def digest(self, v, st=None):
        """Value as a flat list of hashable parts (Terms / strings) for uninterpreted functions."""
        s = self.s
        if isinstance(v, Term):
            return [v]
        if v is None:
            return ['?']
        if isinstance(v, B):
            return [s.ite(v.n, s.const(1, 'i'), s.const(0, 'i'))]
        if isinstance(v, Agg):
            r = []
            for x in v.f:
                r += self.digest(x, st)
            return r
        if isinstance(v, Enum):
            r = [v.tag]
            for k in sorted(v.p):
                for x in v.p[k]:
                    r += self.digest(x, st)
            return r
        if isinstance(v, Ref):
            return self.digest(v.v, st)
        if isinstance(v, Box):
            return self.digest(v.v, st)
        if isinstance(v, MRef):
            return self.digest(self.load(st, v.cell, v.proj), st) if st else ['mref']
        if isinstance(v, Seq):
            r = [v.base if v.base is not None else 'nil']
            for g, x in v.items:
                r += [s.ite(g, s.const(1, 'i'), s.const(0, 'i'))] + self.digest(x, st)
            return r
        if isinstance(v, Fn):
            return [v.callee.get('inst') or v.callee['def']]
        if isinstance(v, It):
            return ['it', v.kind] + [y for x in (v.d if isinstance(v.d, tuple) else (v.d,)) for y in
                                     (self.digest(x, st) if not isinstance(x, (int, str)) else [str(x)])]
        return [str(type(v))]

    def uf(self, tyi, name, args, st=None):
        """Result of an uninterpreted (pure) call."""
        parts = []
        for a in args:
            parts += self.digest(a, st)

        def mk(n, sort, rng):
            return self.s.hop(n, tuple(parts), sort, rng=rng)
        return self.sym(tyi, name, mk)

    # ------------------------------------------------------------ merging
    def mergecell(self, c, a, b):
        if isinstance(a, Poison):
            return a
        if isinstance(b, Poison):
            return b
        try:
            return self.merge(c, a, b)
        except Unsupported as e:
            return Poison(str(e))

    def merge(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Poison):
            return a
        if isinstance(b, Poison):
            return b
        if a is None:
            return b
        if b is None:
            return a
        s = self.s
        if isinstance(a, Term) and isinstance(b, Term):
            if a.sort != b.sort:
                raise Unsupported('join of different sorts')
            return s.ite(c, a, b)
        ta = type(a)
        if ta is not type(b):
            if isinstance(a, Seq) and isinstance(b, Term) or isinstance(b, Seq) and isinstance(a, Term):
                raise Unsupported('join of sequence and term')
            if {type(a), type(b)} == {Ref, MRef}:
                raise Unsupported('join of & and &mut')
            raise Unsupported('join of %s and %s' % (ta.__name__, type(b).__name__))
        if ta is B:
            return B(s.bite(c, a.n, b.n))
        if ta is Agg:
            if len(a.f) != len(b.f):
                raise Unsupported('join of different aggregates')
            return Agg(a.ty, [self.merge(c, x, y) for x, y in zip(a.f, b.f)])
        if ta is Enum:
            p = {}
            for k in set(a.p) | set(b.p):
                if k in a.p and k in b.p:
                    p[k] = tuple(self.merge(c, x, y) for x, y in zip(a.p[k], b.p[k]))
                else:
                    p[k] = a.p.get(k) or b.p.get(k) or ()
            return Enum(a.ty, s.ite(c, a.tag, b.tag), p)
        if ta is Ref:
            return Ref(self.merge(c, a.v, b.v))
        if ta is Box:
            return Box(self.merge(c, a.v, b.v))
        if ta is MRef:
            if a.cell == b.cell and a.proj == b.proj:
                return a
            raise Unsupported('join of different &mut')
        if ta is Fn:
            if (a.callee.get('inst') or a.callee['def']) == (b.callee.get('inst') or b.callee['def']):
                return a
            raise Unsupported('join of different functions')
        if ta is Seq:
            if a.base is not b.base:
                if a.base is None or b.base is None or a.items or b.items:
                    raise Unsupported('join of different sequences')
                return Seq(s.ite(c, a.base, b.base), ())
            n = 0
            while n < len(a.items) and n < len(b.items) and a.items[n][0] == b.items[n][0] and \
                    (a.items[n][1] is b.items[n][1]):
                n += 1
            it = list(a.items[:n])
            nc = s.bnot(c)
            for g, v in a.items[n:]:
                it.append((s.band(g, c), v))
            for g, v in b.items[n:]:
                it.append((s.band(g, nc), v))
            return Seq(a.base, it)
        if ta is It:
            if a.kind == b.kind:
                if a.d == b.d:
                    return a
                if isinstance(a.d, tuple) and isinstance(b.d, tuple) and len(a.d) == len(b.d):
                    out = []
                    for x, y in zip(a.d, b.d):
                        if x is y or (isinstance(x, (int, str)) and x == y):
                            out.append(x)
                        else:
                            out.append(self.merge(c, x, y))
                    return It(a.kind, tuple(out))
            raise Unsupported('join of iterators')
        if isinstance(a, (int, str)) and a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        raise Unsupported('join of %s' % ta.__name__)

    def join(self, states):
        states = [x for x in states if x.pc != 0]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        s = self.s
        acc = states[0]
        for nx in states[1:]:
            pc = s.bor(acc.pc, nx.pc)
            c = s.constrain(acc.pc, pc)
            cells = {}
            if c == 1:
                cells = acc.c
            else:
                for k in acc.c:
                    if k in nx.c:
                        cells[k] = self.mergecell(c, acc.c[k], nx.c[k])
                    else:
                        cells[k] = acc.c[k]
                for k in nx.c:
                    if k not in acc.c:
                        cells[k] = nx.c[k]
            acc = State(pc, cells)
        return acc

    # values narrowed by what the branch condition fixes
    def narrow(self, v, c):
        s = self.s
        if isinstance(v, Term):
            return s.tconstrain(v, c) if v.op == 'ite' else v
        if isinstance(v, B):
            return B(s.constrain(v.n, c)) if v.n > 1 and s.nsup[v.n] & s.related(c) else v
        if isinstance(v, Agg):
            ch = [self.narrow(x, c) for x in v.f]
            return v if all(x is y for x, y in zip(ch, v.f)) else Agg(v.ty, ch)
        if isinstance(v, Enum):
            tag = self.narrow(v.tag, c)
            p = {}
            same = tag is v.tag
            for k, f in v.p.items():
                g = tuple(self.narrow(x, c) for x in f)
                if any(x is not y for x, y in zip(f, g)):
                    same = False
                p[k] = g
            return v if same else Enum(v.ty, tag, p)
        if isinstance(v, Ref):
            x = self.narrow(v.v, c)
            return v if x is v.v else Ref(x)
        if isinstance(v, Box):
            x = self.narrow(v.v, c)
            return v if x is v.v else Box(x)
        return v

    def branch(self, st, cond):
        """State on the branch where cond holds."""
        s = self.s
        pc = s.band(st.pc, cond)
        if pc == 0:
            return None
        if cond == 1 or pc == st.pc:
            return State(pc, dict(st.c))
        c = {}
        for k, v in st.c.items():
            c[k] = self.narrow(v, cond)
        return State(pc, c)

    # ------------------------------------------------------------ places
    def load(self, st, cell, proj):
        v = st.c.get(cell)
        for p in proj:
            v = self.project(st, v, p)
        return v

    def project(self, st, v, p):
        s = self.s
        k = p[0]
        if k == 'deref':
            if isinstance(v, Ref):
                return v.v
            if isinstance(v, MRef):
                return self.load(st, v.cell, v.proj)
            if isinstance(v, Box):
                return v.v
            raise Unsupported('deref of %s' % type(v).__name__)
        if k == 'field':
            if isinstance(v, Agg):
                return v.f[p[1]]
            if isinstance(v, tuple):     # enum variant
                return v[p[1]]
            if isinstance(v, Enum):
                return v.p[0][p[1]]
            if isinstance(v, Term):
                return s.hop('field', (v, p[1]), 'o')
            raise Unsupported('field of %s' % type(v).__name__)
        if k == 'downcast':
            if isinstance(v, Enum):
                f = v.p.get(p[1])
                return f if f is not None else ()
            raise Unsupported('downcast of %s' % type(v).__name__)
        if k == 'cindex':
            if isinstance(v, Agg):
                return v.f[-p[1] if p[3] else p[1]]
            if isinstance(v, Seq) and not p[3]:
                return self.models.elem_const(v, p[1])
            if isinstance(v, Seq):
                return self.models.elem(v, s.sub(self.models.seqlen(v), s.const(p[1], 'i')))
            raise Unsupported('index')
        if k == 'index':
            return self.models.index(st, v, p[1])
        if k == 'subslice':
            if isinstance(v, Agg):
                n = len(v.f)
                return Agg(v.ty, v.f[p[1]:(n - p[2] if p[3] else p[2])])
            items = self.models.gitems(v)
            if items is not None:
                hi = s.const(p[2], 'i')
                return self.models.part(st, items, s.const(p[1], 'i'), s.sub(self.models.seqlen(v), hi) if p[3] else hi)
        raise Unsupported('projection %s' % k)

    def resolve(self, fr, pl):
        """Projections of a MIR place with index locals evaluated."""
        st, fid = fr
        out = []
        for p in pl[1]:
            if p[0] == 'index':
                out.append(('index', st.c[(fid, p[1])]))
            else:
                out.append(tuple(p))
        return out

    def read(self, st, fid, pl):
        v = st.c.get((fid, pl[0]))
        for p in self.resolve((st, fid), pl):
            v = self.project(st, v, p)
        return v

    def address(self, st, fid, pl):
        """(cell, projections) of a place, following mutable references."""
        cell, proj = (fid, pl[0]), []
        v = st.c.get(cell)
        for p in self.resolve((st, fid), pl):
            if p[0] == 'deref' and isinstance(v, MRef):
                cell, proj = v.cell, list(v.proj)
                v = self.load(st, cell, proj)
            else:
                proj.append(p)
                v = self.project(st, v, p) if v is not None else None
        return cell, tuple(proj)

    def update(self, st, v, proj, new):
        if not proj:
            return new
        p = proj[0]
        k = p[0]
        if k == 'deref':
            if isinstance(v, Box):
                return Box(self.update(st, v.v, proj[1:], new))
            if isinstance(v, Ref):
                return Ref(self.update(st, v.v, proj[1:], new))
            raise Unsupported('store through %s' % type(v).__name__)
        if k == 'field':
            if isinstance(v, Agg):
                f = list(v.f)
                f[p[1]] = self.update(st, f[p[1]], proj[1:], new)
                return Agg(v.ty, f)
            if isinstance(v, tuple):
                f = list(v)
                while len(f) <= p[1]:
                    f.append(None)
                f[p[1]] = self.update(st, f[p[1]], proj[1:], new)
                return tuple(f)
            if v is None:
                f = [None] * (p[1] + 1)
                f[p[1]] = self.update(st, None, proj[1:], new)
                return Agg(None, f)
            raise Unsupported('store to field of %s' % type(v).__name__)
        if k == 'downcast':
            if isinstance(v, Enum):
                pp = dict(v.p)
                pp[p[1]] = self.update(st, pp.get(p[1], ()), proj[1:], new)
                return Enum(v.ty, v.tag, pp)
            raise Unsupported('store to variant')
        if k in ('index', 'cindex'):
            idx = p[1]
            if k == 'cindex':
                idx = self.s.const(p[1], 'i')
            if isinstance(v, Agg):
                s = self.s
                f = list(v.f)
                for i in range(len(f)):
                    c = s.eq(idx, s.const(i, 'i'))
                    if c == 0:
                        continue
                    nv = self.update(st, f[i], proj[1:], new)
                    f[i] = nv if c == 1 else self.merge(c, nv, f[i])
                return Agg(v.ty, f)
            if isinstance(v, Seq) and v.base is None and all(g == 1 for g, _ in v.items):
                a = self.update(st, Agg(None, [x for _, x in v.items]), proj, new)
                return Seq(None, [(1, x) for x in a.f])
            raise Unsupported('store to element of %s' % type(v).__name__)
        raise Unsupported('store %s' % k)

    def store(self, st, cell, proj, new):
        st.c[cell] = self.update(st, st.c.get(cell), tuple(proj), new)

    def write(self, st, fid, pl, v):
        if not pl[1]:
            st.c[(fid, pl[0])] = v
            return
        cell, proj = self.address(st, fid, pl)
        self.store(st, cell, proj, v)

    # ------------------------------------------------------------ operands
    def constant(self, c):
        s = self.s
        k = c['k']
        if k == 'init':
            key = c['path']
            if key in self.initmemo:
                return self.initmemo[key]
            name = 'init:' + c['path']
            v = None
            if self.body(name) is not None:
                try:
                    v, _ = self.run(name, [], State(1, {}), quiet=True)
                except Unsupported:
                    v = None
            if v is None:
                v = self.constant(c['v'])
            self.initmemo[key] = v
            return v
        if k == 'fn':
            return Fn(c['callee'])
        if k == 'scalar':
            t = self.types[c['ty']]
            if t['k'] == 'float':
                return s.fconst(bits_f64(c['v']))
            if t['k'] == 'bool':
                return B(1 if c['v'] else 0)
            return s.const(c['v'], 'i')
        if k == 'str':
            return Ref(s.strc(c['v']))
        if k == 'static':
            key = 'static:' + c['path']
            if key in self.initmemo:
                return self.initmemo[key]
            v = None
            sd = self.d['statics'].get(c['path'], {})
            if sd.get('mut') or not sd.get('freeze', True) or sd.get('thread_local'):
                v = Ref(s.hop('mutable-static', (c['path'],), 'o'))
            else:
                name = 'init:' + c['path']
                if self.body(name) is not None:
                    try:
                        x, _ = self.run(name, [], State(1, {}), quiet=True)
                        v = Ref(x)
                    except Unsupported:
                        v = None
                if v is None and sd.get('v'):
                    v = Ref(self.constant(sd['v']))
                if v is None:
                    v = Ref(s.hop('static', (c['path'],), 'o'))
            self.initmemo[key] = v
            return v
        if k in ('array', 'tuple', 'struct'):
            return Agg(c['ty'], [self.constant(x) for x in c['v']])
        if k == 'enum':
            return Enum(c['ty'], s.const(c['variant'], 'i'), {c['variant']: tuple(self.constant(x) for x in c['v'])})
        if k == 'refarray':
            return Ref(Agg(None, [self.constant(x) for x in c['v']]))
        if k == 'ref':
            return Ref(self.constant(c['v']))
        if k == 'zst':
            t = self.types[c['ty']]
            if t['k'] == 'fndef':
                return Fn(t.get('callee', {'def': t['path']}))
            if t['k'] == 'adt' and t['kind'] == 'enum':
                return Enum(c['ty'], s.const(0, 'i'), {0: ()})
            return Agg(c['ty'], ())
        if k == 'raw':
            t = self.types[c['ty']]
            if t['k'] == 'adt' and t['kind'] == 'struct' and t['variants'] and len(t['variants'][0]['fields']) >= 1:
                return Agg(c['ty'], [s.const(c['v'], 'i')])
            return s.hop('raw', (str(c['v']), t['s']), 'o')
        return s.hop('opaque', (c.get('v', ''),), 'o')

    def operand(self, st, fid, o):
        if o[0] in ('copy', 'move'):
            return self.read(st, fid, o[1])
        if o[0] == 'const':
            return self.constant(o[1])
        raise Unsupported('operand %s' % o[0])

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fid, r):
        s = self.s
        k = r[0]
        if k == 'use':
            return self.operand(st, fid, r[1])
        if k == 'ref':
            if r[1]:
                cell, proj = self.address(st, fid, r[2])
                # reborrow through a shared reference value keeps value semantics
                return MRef(cell, proj)
            return Ref(self.read(st, fid, r[2]))
        if k == 'rawptr':
            cell, proj = self.address(st, fid, r[1])
            return MRef(cell, proj)
        if k == 'bin':
            a = self.operand(st, fid, r[2])
            b = self.operand(st, fid, r[3])
            return self.binop(r[1], a, b, r[4])
        if k == 'un':
            a = self.operand(st, fid, r[2])
            if r[1] == 'Not':
                if isinstance(a, B):
                    return B(s.bnot(a.n))
                return s.hop('not', (a,), 'i')
            if r[1] == 'Neg':
                return s.neg(a)
            if r[1] == 'PtrMetadata':
                return self.models.length(a)
            raise Unsupported('unary %s' % r[1])
        if k == 'cast':
            return self.cast(r[1], self.operand(st, fid, r[2]), r[3], r[4])
        if k == 'discr':
            v = self.read(st, fid, r[1])
            return self.discr(v)
        if k == 'agg':
            vs = [self.operand(st, fid, o) for o in r[4]]
            t = self.types[r[2]]
            if r[1] == 'adt' and t['kind'] == 'enum':
                return Enum(r[2], s.const(r[3], 'i'), {r[3]: tuple(vs)})
            return Agg(r[2], vs)
        if k == 'repeat':
            v = self.operand(st, fid, r[1])
            if r[2] is None or r[2] > 4096:
                raise Unsupported('array length')
            return Agg(None, [v] * r[2])
        raise Unsupported('rvalue %s %s' % (k, str(r[1])[:80]))

    def discr(self, v):
        s = self.s
        if not isinstance(v, Enum):
            if isinstance(v, Term):
                return s.hop('discr', (v,), 'i')
            raise Unsupported('discriminant of %s' % type(v).__name__)
        t = self.types[v.ty] if v.ty is not None else None
        tag = v.tag
        if t and t['k'] == 'adt':
            ds = [x['discr'] for x in t['variants']]
            if ds != list(range(len(ds))):
                def m(x):
                    if x.op == 'ite':
                        return s.mkite(x.args[0], m(x.args[1]), m(x.args[2]))
                    if x.val is not None:
                        dv = ds[int(x.val)]
                        if dv > (1 << 62):
                            dv -= 1 << 128 if dv > (1 << 100) else 1 << 64
                        return s.const(dv, 'i')
                    r = s.const(ds[-1], 'i')
                    for i in range(len(ds) - 2, -1, -1):
                        r = s.ite(s.eq(x, s.const(i, 'i')), s.const(ds[i], 'i'), r)
                    return r
                return m(tag)
        return tag

    def cast(self, kind, v, f, t):
        s = self.s
        ft, tt = self.types[f], self.types[t]
        if kind == 'IntToFloat':
            if isinstance(v, B):
                return s.ite(v.n, s.one, s.zero)
            return s.i2f(v)
        if kind == 'FloatToInt':
            return s.f2i(v, tt['k'], tt['bits'])
        if kind == 'IntToInt':
            if isinstance(v, B):
                return s.ite(v.n, s.const(1, 'i'), s.const(0, 'i'))
            if isinstance(v, Enum):
                return self.discr(v)
            lo, hi = irange(tt['k'], tt.get('bits', 32))
            return self.wrap(v, lo, hi, tt)
        if kind == 'FloatToFloat':
            if '32' in tt['s'] or '32' in ft['s']:
                return s.hop('f32', (v,), 'f')
            return v
        if kind.startswith('PointerCoercion'):
            if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind:
                return v
            return v
        if kind == 'Transmute' or kind == 'PtrToPtr':
            if ft['s'] == tt['s']:
                return v
            if tt['s'].startswith('core::option::Option<core::num::nonzero::NonZero<') and isinstance(v, Term):
                zero = s.eq(v, s.const(0, 'i'))
                return Enum(t, s.ite(zero, s.const(0, 'i'), s.const(1, 'i')), {0: (), 1: (v,)})
            if ft['s'].startswith('core::option::Option<core::num::nonzero::NonZero<') and isinstance(v, Enum):
                return s.ite(s.eq(v.tag, s.const(1, 'i')), v.p[1][0], s.const(0, 'i')) if v.p.get(1) else s.const(0, 'i')
            if ft['k'] == 'float' and tt['k'] in ('uint', 'int'):
                return s.hop('to_bits', (v,), 'i')
            if tt['k'] == 'float' and isinstance(v, Term):
                if v.op == 'to_bits':
                    return v.args[0]
                return s.hop('from_bits', (v,), 'f')
            return v
        raise Unsupported('cast %s' % kind)

    def wrap(self, v, lo, hi, tt):
        s = self.s
        if v.val is not None:
            n = int(v.val)
            m = hi - lo + 1
            n = (n - lo) % m + lo
            return s.const(n, 'i')
        if v.op == 'ite':
            return s.mkite(v.args[0], self.wrap(v.args[1], lo, hi, tt), self.wrap(v.args[2], lo, hi, tt))
        r = self.range(v)
        if r[0] is not None and r[0] >= lo and r[1] is not None and r[1] <= hi:
            return v
        return s.hop('wrap', (v, tt['k'], tt.get('bits', 32)), 'i', rng=(lo, hi))

    def range(self, v):
        """Interval of an integer term."""
        if v.val is not None:
            return (v.val, v.val)
        if v.rng is not None and v.op in ('var', 'ite'):
            return v.rng
        if v.op == 'ite':
            r = self.rmemo.get(v.id)
            if r is not None:
                return r
            a, b = self.range(v.args[1]), self.range(v.args[2])
            self.rmemo[v.id] = r = (min(a[0], b[0]) if None not in (a[0], b[0]) else None,
                    max(a[1], b[1]) if None not in (a[1], b[1]) else None)
            return r
        if v.lin is not None:
            k, d = v.lin
            lo = hi = k
            for i, c in d.items():
                t = self.s.terms[i]
                if t is v:
                    lo = hi = None
                    break
                r = self.range(t)
                if None in r:
                    lo = hi = None
                    break
                lo += min(c * r[0], c * r[1])
                hi += max(c * r[0], c * r[1])
            if lo is not None:
                return (lo, hi)
        if v.rng is not None:
            return v.rng
        return (None, None)

    CMP = {'Lt': 'lt', 'Le': 'le', 'Gt': 'gt', 'Ge': 'ge', 'Eq': 'eq', 'Ne': 'ne'}

    def compare(self, op, a, b):
        s = self.s
        if isinstance(a, B) and isinstance(b, B):
            if op in ('Eq', 'Ne'):
                n = s.bite(a.n, b.n, s.bnot(b.n))
                return n if op == 'Eq' else s.bnot(n)
            raise Unsupported('bool order')
        if not (isinstance(a, Term) and isinstance(b, Term)):
            raise Unsupported('comparison of %s' % type(a).__name__)
        if a.sort not in 'fi' or b.sort != a.sort:
            n = s.pred('eq', *sorted((a, b), key=lambda x: x.fp)) if a is not b else 1
            if op == 'Eq':
                return n
            if op == 'Ne':
                return s.bnot(n)
            return s.pred('cmp' + op, a, b)
        if op == 'Lt':
            return s.lt(a, b)
        if op == 'Le':
            return s.le(a, b)
        if op == 'Gt':
            return s.lt(b, a)
        if op == 'Ge':
            return s.le(b, a)
        if op == 'Eq':
            return s.eq(a, b)
        return s.bnot(s.eq(a, b))

    def binop(self, op, a, b, tyi):
        s = self.s
        t = self.types[tyi]
        if op in self.CMP:
            return B(self.compare(op, a, b))
        if isinstance(a, B) and isinstance(b, B):
            if op == 'BitAnd':
                return B(s.band(a.n, b.n))
            if op == 'BitOr':
                return B(s.bor(a.n, b.n))
            if op == 'BitXor':
                return B(s.bite(a.n, s.bnot(b.n), b.n))
        if not (isinstance(a, Term) and isinstance(b, Term)):
            raise Unsupported('%s on %s' % (op, type(a).__name__))
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        fl = t['k'] == 'float'
        if base == 'Add':
            r = s.add(a, b)
        elif base == 'Sub':
            r = s.sub(a, b)
        elif base == 'Mul':
            r = s.mul(a, b)
        elif base == 'Div':
            r = s.div(a, b) if fl else self.idiv(a, b)
        elif base == 'Rem':
            r = s.rem(a, b)
        elif base in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
            r = self.bitop(base, a, b, t)
        elif base == 'Cmp':
            lt, eq = s.lt(a, b), s.eq(a, b)
            tag = s.ite(lt, s.const(0, 'i'), s.ite(eq, s.const(1, 'i'), s.const(2, 'i')))
            return Enum(self.ordering_ty(), tag, {0: (), 1: (), 2: ()})
        else:
            raise Unsupported('binary %s' % op)
        if fl:
            return r
        lo, hi = irange(t['k'], t.get('bits', 64))
        if op.endswith('WithOverflow'):
            rr = self.range(r)
            if rr[0] is not None and rr[0] >= lo and rr[1] <= hi:
                ov = 0
            else:
                ov = s.bor(s.lt(r, s.const(lo, 'i')), s.lt(s.const(hi, 'i'), r))
            return Agg(None, (r, B(ov)))
        if base in ('Add', 'Sub', 'Mul') and not op.endswith('Unchecked'):
            return self.wrap(r, lo, hi, t)
        return r

    def ordering_ty(self):
        for i, t in enumerate(self.types):
            if t and t.get('path') == 'core::cmp::Ordering':
                return i
        return None

    def idiv(self, a, b):
        s = self.s
        if a.val is not None and b.val is not None and b.val != 0:
            q = abs(a.val) // abs(b.val)
            return s.const(q if (a.val >= 0) == (b.val > 0) else -q, 'i')
        d = s._dist(self.idiv, a, b)
        if d is not None:
            return d
        rng = None
        ra = self.range(a)
        if b.val is not None and b.val > 0 and None not in ra:
            rng = (int(-(-ra[0] // b.val)) if ra[0] >= 0 else -int(-ra[0] // b.val), int(ra[1] // b.val))
            rng = (min(0, rng[0]), max(0, rng[1]))
        return s.hop('idiv', (a, b), 'i', rng=rng)

    def bitop(self, op, a, b, t):
        s = self.s
        if a.val is not None and b.val is not None:
            x, y = int(a.val), int(b.val)
            v = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y, 'Shl': x << y if y < 200 else 0, 'Shr': x >> y}[op]
            lo, hi = irange(t['k'], t.get('bits', 64))
            return self.wrap(s.const(v, 'i'), lo, hi, t)
        if op == 'BitAnd':
            if a.val is not None:
                a, b = b, a
            if b.val is not None and t['k'] == 'uint' and (int(b.val) + 1) & int(b.val) == 0:
                return s.rem(a, s.const(int(b.val) + 1, 'i'))
        if op == 'Shr' and b.val is not None and t['k'] == 'uint':
            return self.idiv(a, s.const(1 << int(b.val), 'i'))
        if op == 'Shl' and b.val is not None:
            lo, hi = irange(t['k'], t.get('bits', 64))
            return self.wrap(s.mul(a, s.const(1 << int(b.val), 'i')), lo, hi, t)
        return s.hop(op, (a, b), 'i', rng=irange(t['k'], t.get('bits', 64)))

    # ------------------------------------------------------------ functions
    def site(self):
        return self.stack[-1] if self.stack else ('?', '?')

    def run(self, name, args, st, quiet=False):
        """Analyse a function body; returns (value, state) or (None, None) if it never returns."""
        bi = self.body(name)
        if bi is None:
            raise Unsupported('no body for ' + name)
        if len(self.stack) > 60:
            raise Unsupported('call depth')
        self.fid += 1
        fid = self.fid
        c = dict(st.c)
        for i, a in enumerate(args):
            c[(fid, i + 1)] = a
        if not quiet:
            self.fns.add(name)
        pend = {0: [State(st.pc, c)]}
        rets = []
        visits = {}
        order = bi.order
        self.stack.append([name, bi.b['span']])
        prov0 = self.s.prov
        try:
            while pend:
                b = min(pend, key=lambda x: order[x])
                live = bi.live[b]
                states = [State(x.pc, {k: v for k, v in x.c.items() if k[0] != fid or k[1] in live}) for x in pend.pop(b)]
                cur = self.join(states)
                if cur is None:
                    continue
                if b in bi.heads:
                    # a fresh entry into the loop from outside restarts the count
                    for h, n in list(visits.items()):
                        if h != b and h in bi.loops[b]:
                            visits[h] = 0
                    visits[b] = visits.get(b, 0) + 1
                    for hk in self.hooks:
                        r = hk(self, bi, b, visits[b], cur, fid)
                        if r is False:
                            cur = None
                            break
                        cur = r or cur
                    if cur is None:
                        continue
                    if visits[b] > self.looplimit.get(name, self.limit):
                        self.cuts.append((cur.pc, name, b))
                        continue
                self.block(bi, b, fid, cur, pend, rets)
        finally:
            self.stack.pop()
            self.s.prov = prov0
        out = self.join(rets)
        if out is None:
            return None, None
        v = out.c.get((fid, 0))
        cc = {k: x for k, x in out.c.items() if k[0] != fid}
        return v, State(out.pc, cc)

    def block(self, bi, b, fid, st, pend, rets):
        s = self.s
        bb = bi.blocks[b]
        st = State(st.pc, dict(st.c))
        name = bi.name
        for x in bb['s']:
            self.stmts += 1
            if x[0] == 'assign':
                self.stack[-1][1] = x[3]
                s.prov = (name, x[3])
                self.write(st, fid, x[1], self.rvalue(st, fid, x[2]))
            elif x[0] == 'setdiscr':
                v = self.read(st, fid, x[1])
                if isinstance(v, Enum):
                    self.write(st, fid, x[1], Enum(v.ty, s.const(x[2], 'i'), v.p))
                else:
                    raise Unsupported('set discriminant')
            elif x[0] == 'intrinsic':
                pass
        t = bb['t']
        self.stack[-1][1] = bb['sp']
        s.prov = (name, bb['sp'])
        if isinstance(t, dict):
            self.call(bi, b, fid, st, t, pend)
            return
        k = t[0]
        if k == 'goto':
            pend.setdefault(t[1], []).append(st)
        elif k == 'switch':
            v = self.operand(st, fid, t[1])
            rest = 1
            for val, tgt in t[2]:
                if isinstance(v, B):
                    c = v.n if val else s.bnot(v.n)
                elif isinstance(v, Term):
                    c = s.eq(v, s.const(val, 'i'))
                else:
                    raise Unsupported('switch on %s' % type(v).__name__)
                ns = self.branch(st, s.band(rest, c))
                if ns is not None:
                    pend.setdefault(tgt, []).append(ns)
                rest = s.band(rest, s.bnot(c))
            if rest != 0 and bi.blocks[t[3]]['t'] != ['unreachable']:
                ns = self.branch(st, rest)
                if ns is not None:
                    pend.setdefault(t[3], []).append(ns)
        elif k == 'return':
            rets.append(st)
        elif k == 'drop':
            pend.setdefault(t[2], []).append(st)
        elif k == 'assert':
            v = self.operand(st, fid, t[1])
            c = v.n if t[2] else s.bnot(v.n)
            bad = s.band(st.pc, s.bnot(c))
            extra = None
            if t[4][0] == 'bounds':
                extra = [self.operand(st, fid, o) for o in t[4][1:3]]
            if bad != 0:
                self.panic(bad, t[4][0], t[5], extra)
            ns = self.branch(st, c)
            if ns is not None:
                pend.setdefault(t[3], []).append(ns)
        elif k in ('unreachable', 'resume'):
            pass
        else:
            raise Unsupported('terminator %s' % k)

    def panic(self, pc, kind, msg, extra=None):
        fn, sp = self.stack[-1]
        # attribute to the innermost frame in the crate
        for f, p in reversed(self.stack):
            b = self.d['bodies'].get(f)
            if b and b['local']:
                fn, sp = f, p
                break
        self.panics.append((pc, kind, fn, sp, msg, extra))

    def call(self, bi, b, fid, st, t, pend):
        f = self.operand(st, fid, t['f'])
        args = [self.operand(st, fid, o) for o in t['args']]
        v, ns = self.apply(f, args, st, t['argty'], t['destty'])
        if ns is None or t['target'] is None:
            return
        if v is None and self.types[t['destty']]['k'] == 'never':
            return
        self.write(ns, fid, t['dest'], v)
        pend.setdefault(t['target'], []).append(ns)

    def apply(self, f, args, st, argty, destty):
        """Call a function value; returns (value, state)."""
        self.calls += 1
        if not isinstance(f, Fn):
            raise Unsupported('call of %s' % type(f).__name__)
        c = f.callee
        inst = c.get('inst')
        path = c.get('path', c['def'])
        h = self.intercept.get(path) or self.intercept.get(c['def'])
        if h is not None:
            r = h(self, args, st, destty)
            if r is not None:
                return r
        r = self.models.call(c, path, inst, args, st, argty, destty)
        if r is not None:
            return r
        if inst is not None and self.body(inst) is not None and c.get('body'):
            args = self.untuple(inst, c, args)
            return self.run(inst, args, st)
        self.unknown[inst or path] = self.unknown.get(inst or path, 0) + 1
        return self.opaque_call(inst or path, args, st, destty)

    def opaque_call(self, name, args, st, destty):
        v = self.uf(destty, name, args, st)
        ns = State(st.pc, dict(st.c))
        for i, a in enumerate(args):
            if isinstance(a, MRef):
                old = self.load(st, a.cell, a.proj)
                self.store(ns, a.cell, a.proj, self.havoc(old, '%s!%d' % (name, i), args, st))
        return v, ns

    def havoc(self, old, name, args, st):
        parts = []
        for a in args:
            parts += self.digest(a, st)
        s = self.s

        def go(v, n):
            if isinstance(v, Term):
                return s.hop(n, tuple(parts), v.sort)
            if isinstance(v, B):
                return B(s.pred('is', s.hop(n, tuple(parts), 'p')))
            if isinstance(v, Agg):
                return Agg(v.ty, [go(x, n + '.%d' % i) for i, x in enumerate(v.f)])
            if isinstance(v, Enum):
                nv = len(self.types[v.ty]['variants']) if v.ty is not None else None
                return Enum(v.ty, s.hop(n + '#', tuple(parts), 'i', rng=(0, nv - 1) if nv else None),
                            {k: tuple(go(x, '%s.%d.%d' % (n, k, i)) for i, x in enumerate(fs)) for k, fs in v.p.items()})
            if isinstance(v, Seq):
                return Seq(s.hop(n, tuple(parts), 'v'), ())
            return v
        return go(old, name)

    def untuple(self, inst, c, args):
        b = self.d['bodies'][inst]
        d = c['def']
        if d.startswith('core::ops::function::Fn') and 'call' in d and len(args) == 2 and isinstance(args[1], Agg) \
                and ('{closure' in inst or b.get('spread') is None) and '#' not in inst.rsplit('}', 1)[-1]:
            if b['argc'] != 2 or b['kind'] == 'Closure' or len(args[1].f) != 1:
                if b['argc'] == 1 + len(args[1].f):
                    return [args[0]] + list(args[1].f)
                if b['argc'] == len(args[1].f):
                    return list(args[1].f)
            return [args[0]] + list(args[1].f)
        return args

    def call_value(self, f, args, st):
        """Call a closure / function value from a library model; (value, state)."""
        if isinstance(f, (Ref, Box)):
            return self.call_value(f.v, args, st)
        if isinstance(f, MRef):
            g = self.load(st, f.cell, f.proj)
            return self._callc(g, f, args, st)
        return self._callc(f, None, args, st)

    def _callc(self, f, mref, args, st):
        if isinstance(f, Fn):
            ts = []
            return self.apply(f, args, st, ts, self.fn_ret(f))
        if isinstance(f, Agg) and f.ty is not None and self.types[f.ty]['k'] == 'closure':
            name = self.types[f.ty]['path']
            bi = self.body(name)
            if bi is None:
                c = [n for n in self.d['bodies'] if n == name or n.startswith(name + '::<') or n.startswith(name)]
                c = [n for n in c if '#' not in n]
                if not c:
                    raise Unsupported('closure body ' + name)
                name = c[0]
                bi = self.body(name)
            t1 = self.types[bi.b['locals'][1][0]]
            env = f
            if t1['k'] == 'ref':
                if t1['mut']:
                    if mref is None:
                        self.fid += 1
                        cell = (self.fid, 'env')
                        st = State(st.pc, dict(st.c))
                        st.c[cell] = f
                        env = MRef(cell, ())
                    else:
                        env = mref
                else:
                    env = Ref(f)
            return self.run(name, [env] + list(args), st)
        raise Unsupported('call of %s' % type(f).__name__)

    def fn_ret(self, f):
        inst = f.callee.get('inst')
        b = self.d['bodies'].get(inst)
        if b:
            return b['locals'][0][0]
        return f.callee.get('ret')
